package harness

// P08 : proxies whose addresses are slots which hold other proxies

import (
	"fmt"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

type chainWorld struct {
	one, many ecore.EReference
	rs        []ecore.EResource
	objs      [][]ecore.EObject
	slots     map[string]*chainSlot // by address
	order     []string
}

// chainSlot holds an object or a proxy
type chainSlot struct {
	owner  ecore.EObject
	index  int // -1 : single
	value  ecore.EObject
	target string // address of the proxy
}

// follow gives what a slot is after it was read, and its address if it still is a proxy
func (w *chainWorld) follow(s *chainSlot) (ecore.EObject, string) {
	seen := map[ecore.EObject]bool{}
	for cur := s; ; {
		if cur.target == "" {
			return cur.value, ""
		}
		seen[cur.value] = true
		for i, l := range w.objs {
			for k, o := range l {
				if w.address(i, k) == cur.target {
					return o, ""
				}
			}
		}
		next := w.slots[cur.target]
		if next == nil || next.value == nil || next.value == cur.value {
			return cur.value, cur.target
		}
		if seen[next.value] {
			return s.value, s.target
		}
		cur = next
	}
}

func (w *chainWorld) address(r, i int) string {
	return fmt.Sprintf("%s#/%d", w.rs[r].GetURI(), i)
}

func TestP08_Chains(t *testing.T) {
	runProp(t, "a slot whose proxy leads to another proxy was read", 1000, func(t *rapid.T, c *Rec) {
		f := ecore.GetFactory()
		p := f.CreateEPackage()
		p.SetName("p")
		p.SetNsURI("http://p")
		k := f.CreateEClass()
		k.SetName("N")
		p.GetEClassifiers().Add(k)
		w := &chainWorld{slots: map[string]*chainSlot{}}
		ref := func(name string, upper int) ecore.EReference {
			r := f.CreateEReference()
			r.SetName(name)
			r.SetEType(k)
			r.SetUpperBound(upper)
			k.GetEStructuralFeatures().Add(r)
			return r
		}
		w.one, w.many = ref("one", 1), ref("many", -1)
		rs := ecore.CreateEResourceSet([]ecore.EPackage{p})
		var addresses []string
		for i := rapid.IntRange(1, 2).Draw(t, "resources"); i > 0; i-- {
			r := rs.CreateResource(ecore.NewURI(fmt.Sprintf("mem:/r%d", i)))
			w.rs = append(w.rs, r)
			var l []ecore.EObject
			for n := rapid.IntRange(2, 3).Draw(t, "objects"); n > 0; n-- {
				o := p.GetEFactoryInstance().Create(k)
				r.GetContents().Add(o)
				l = append(l, o)
			}
			w.objs = append(w.objs, l)
		}
		for r, l := range w.objs {
			for i, o := range l {
				a := w.address(r, i)
				addresses = append(addresses, a)
				if rapid.Bool().Draw(t, "one") {
					w.slots[a+"/@one"] = &chainSlot{owner: o, index: -1}
					w.order = append(w.order, a+"/@one")
				}
				for n := rapid.IntRange(0, 2).Draw(t, "many"); n > 0; n-- {
					a := fmt.Sprintf("%s/@many.%d", a, n-1)
					w.slots[a] = &chainSlot{owner: o, index: n - 1}
					w.order = append(w.order, a)
				}
			}
		}
		if len(w.order) == 0 {
			return
		}
		for _, a := range w.order {
			s := w.slots[a]
			switch kind := rapid.IntRange(0, 9).Draw(t, "content"); {
			case kind == 0:
				l := pickOne(t, "objects", w.objs)
				s.value = pickOne(t, "object", l)
				if s.index >= 0 {
					// the elements of a list are different
					s.value = p.GetEFactoryInstance().Create(k)
				}
				c.Logf("%s = object", a)
			default:
				s.value = p.GetEFactoryInstance().Create(k)
				switch {
				case kind == 1:
					s.target = pickOne(t, "object", addresses)
					if s.index >= 0 {
						s.target = "mem:/r9#/"
					}
				case kind == 2:
					s.target = pickOne(t, "nowhere", []string{"mem:/r1#/0/@many.9", "mem:/r1#/9/@one", "mem:/r9#/", "mem:/r1#/0/@zero"})
				default:
					s.target = pickOne(t, "slot", w.order)
				}
				s.value.(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI(s.target))
				c.Logf("%s = proxy %s", a, s.target)
			}
			if s.index < 0 {
				s.owner.ESet(w.one, s.value)
			}
		}
		for r, l := range w.objs {
			for i, o := range l {
				for n := 0; ; n++ {
					s := w.slots[fmt.Sprintf("%s/@many.%d", w.address(r, i), n)]
					if s == nil {
						break
					}
					o.EGet(w.many).(ecore.EObjectList).GetUnResolvedList().Add(s.value)
				}
			}
		}
		name := func(o ecore.EObject) string {
			for r, l := range w.objs {
				for i := range l {
					if l[i] == o {
						return w.address(r, i)
					}
				}
			}
			if i, _ := o.(ecore.EObjectInternal); i != nil && i.EProxyURI() != nil {
				return "proxy " + i.EProxyURI().String()
			}
			return fmt.Sprint(o)
		}
		for n := rapid.IntRange(1, 12).Draw(t, "reads"); n > 0; n-- {
			a := pickOne(t, "read", w.order)
			s := w.slots[a]
			if next := w.slots[s.target]; next != nil && next.target != "" {
				c.Nontrivial()
			}
			want, target := w.follow(s)
			if s.index >= 0 {
				// an object is once in a list
				dup := false
				for _, o := range w.slots {
					dup = dup || o != s && o.owner == s.owner && o.index >= 0 && o.value == want
				}
				if dup {
					continue
				}
			}
			c.Logf("read %s", a)
			var got ecore.EObject
			if s.index < 0 {
				got, _ = s.owner.EGet(w.one).(ecore.EObject)
			} else {
				got, _ = s.owner.EGet(w.many).(ecore.EList).Get(s.index).(ecore.EObject)
			}
			if got != want {
				t.Fatalf("%s holds %s, which leads to %s, and gives %s", a, name(s.value), name(want), name(got))
			}
			c.LabelIf(target != "", "unresolved")
			c.LabelIf(target == "", "resolved")
			s.value, s.target = want, target
		}
	})
}
