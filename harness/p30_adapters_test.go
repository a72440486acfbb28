package harness

import (
	"fmt"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// probe is an adapter which records what it is told, and may act during a delivery
type probe struct {
	id      int
	log     []string
	values  []any // new values heard
	reacted func()
	target  ecore.ENotifier
}

func (p *probe) GetTarget() ecore.ENotifier { return p.target }
func (p *probe) SetTarget(n ecore.ENotifier) {
	p.target = n
	p.log = append(p.log, "set")
}
func (p *probe) UnSetTarget(n ecore.ENotifier) {
	if p.target == n {
		p.target = nil
	}
	p.log = append(p.log, "unset")
}
func (p *probe) NotifyChanged(n ecore.ENotification) {
	if n.GetEventType() == ecore.REMOVING_ADAPTER {
		return
	}
	p.values = append(p.values, n.GetNewValue())
	if f := p.reacted; f != nil {
		p.reacted = nil
		f()
	}
}

func TestP30_Adapters(t *testing.T) {
	runProp(t, "adapters were attached and detached by at least 2 kinds of operations, and heard an edit", 8000, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{DTs: []string{"EInt"}, ManyDTs: []string{"EInt"}, NoRefs: true, NoDefaults: true, MaxClasses: 1, MaxFeats: 1, Dense: true})
		cl := m.Concrete(nil)[0]
		f := cl.All()[0]
		kind := rapid.IntRange(0, kindCount).Draw(t, "kind")
		var n ecore.ENotifier
		var edit func(v int)
		if kind == kindCount {
			r := ecore.NewEResourceImpl()
			n = r
			edit = func(v int) { r.SetURI(ecore.NewURI(fmt.Sprintf("mem:/%d", v))) }
		} else {
			o := m.NewKind(cl, kind)
			n = o
			edit = func(v int) {
				if f.Many {
					o.EGet(f.E).(ecore.EList).Add(v)
				} else {
					o.ESet(f.E, v)
				}
			}
		}
		value := func(v int) string {
			if kind == kindCount {
				return fmt.Sprintf("mem:/%d", v)
			}
			return fmt.Sprint(v)
		}
		var ps []*probe
		for i, k := 0, rapid.IntRange(1, 7).Draw(t, "adapters"); i < k; i++ {
			ps = append(ps, &probe{id: i})
		}
		var att []int // model of the list
		next := 1
		fail := func(format string, a ...any) {
			t.Fatalf("%s\n%s", fmt.Sprintf(format, a...), c.trace.String())
		}
		free := func() []int {
			var r []int
			for i := range ps {
				if !has(att, i) {
					r = append(r, i)
				}
			}
			return r
		}
		coll := func(is []int) ecore.Collection {
			var es []any
			for _, i := range is {
				es = append(es, ps[i])
			}
			return ecore.NewImmutableEList(es)
		}
		some := func(from []int) []int {
			var r []int
			for _, i := range from {
				if rapid.Bool().Draw(t, "take") {
					r = append(r, i)
				}
			}
			return r
		}
		kinds := map[int]bool{}
		heard := 0
		// edits the adapter list ; log : what every adapter is told
		editList := func(reentrant bool) {
			l := n.EAdapters()
			want := map[int]string{}
			fr := free()
			op := rapid.IntRange(0, 9).Draw(t, "op")
			if len(att) == 0 && op > 3 || op == 4 && len(fr) == 0 {
				op = 0
			}
			if len(fr) == 0 && op <= 3 {
				op = 6
			}
			if !reentrant {
				for _, p := range ps {
					p.log = nil
				}
			}
			run := func(s string, f func()) {
				c.Logf("%s", s)
				if p := try(f); p != nil {
					fail("%s : panic %v", s, p)
				}
			}
			switch op {
			case 0:
				i := rapid.SampledFrom(fr).Draw(t, "a")
				att = append(append([]int{}, att...), i)
				want[i] = "set"
				run(fmt.Sprintf("add %d", i), func() { l.Add(ps[i]) })
			case 1:
				i := rapid.SampledFrom(fr).Draw(t, "a")
				at := rapid.IntRange(0, len(att)).Draw(t, "at")
				att = insertAt(att, at, i)
				want[i] = "set"
				run(fmt.Sprintf("insert %d %d", at, i), func() { l.Insert(at, ps[i]) })
			case 2, 3:
				is := some(fr)
				at := len(att)
				if op == 3 {
					at = rapid.IntRange(0, len(att)).Draw(t, "at")
				}
				for k, i := range is {
					att = insertAt(att, at+k, i)
					want[i] = "set"
				}
				run(fmt.Sprintf("insertAll %d %v", at, is), func() {
					if op == 2 {
						l.AddAll(coll(is))
					} else {
						l.InsertAll(at, coll(is))
					}
				})
			case 4:
				i := rapid.SampledFrom(fr).Draw(t, "a")
				at := rapid.IntRange(0, len(att)-1).Draw(t, "at")
				want[att[at]] = "unset"
				want[i] = "set"
				att = append([]int{}, att...)
				att[at] = i
				run(fmt.Sprintf("set %d %d", at, i), func() { l.Set(at, ps[i]) })
			case 5:
				i := rapid.SampledFrom(att).Draw(t, "a")
				att = without(att, i)
				want[i] = "unset"
				run(fmt.Sprintf("remove %d", i), func() { l.Remove(ps[i]) })
			case 6:
				at := rapid.IntRange(0, len(att)-1).Draw(t, "at")
				want[att[at]] = "unset"
				att = without(att, att[at])
				run(fmt.Sprintf("removeAt %d", at), func() { l.RemoveAt(at) })
			case 7:
				is := some(att)
				for _, i := range is {
					att = without(att, i)
					want[i] = "unset"
				}
				run(fmt.Sprintf("removeAll %v", is), func() { l.RemoveAll(coll(is)) })
			case 8:
				a := rapid.IntRange(0, len(att)-1).Draw(t, "from")
				b := rapid.IntRange(a, len(att)).Draw(t, "to")
				for _, i := range att[a:b] {
					want[i] = "unset"
				}
				att = append(append([]int{}, att[:a]...), att[b:]...)
				run(fmt.Sprintf("removeRange %d %d", a, b), func() { l.RemoveRange(a, b) })
			case 9:
				if rapid.Bool().Draw(t, "clear or move") {
					for _, i := range att {
						want[i] = "unset"
					}
					att = nil
					run("clear", func() { l.Clear() })
				} else {
					a, b := rapid.IntRange(0, len(att)-1).Draw(t, "from"), rapid.IntRange(0, len(att)-1).Draw(t, "to")
					x := att[a]
					att = insertAt(without(att, x), b, x)
					run(fmt.Sprintf("move %d %d", a, b), func() { l.Move(a, b) })
				}
			}
			kinds[op] = true
			if reentrant {
				return
			}
			for i, p := range ps {
				got := ""
				for _, s := range p.log {
					got += s
				}
				if got != want[i] {
					fail("adapter %d was told %q, should be %q", i, got, want[i])
				}
			}
		}
		check := func() {
			l := n.EAdapters()
			ok := l.Size() == len(att)
			for i := 0; ok && i < len(att); i++ {
				ok = l.Get(i) == any(ps[att[i]])
			}
			if !ok {
				fail("adapter list is %v, should be %v", l.ToArray(), att)
			}
			for i, p := range ps {
				if want := has(att, i); (p.target == n) != want || (p.target == nil) == want {
					fail("target of adapter %d is %v, attached : %v", i, p.target, want)
				}
			}
		}
		deliver := true
		for k := rapid.IntRange(3, 15).Draw(t, "steps"); k > 0; k-- {
			switch rapid.IntRange(0, 4).Draw(t, "step") {
			case 0, 1, 2:
				editList(false)
			case 3:
				if rapid.IntRange(0, 2).Draw(t, "toggle") == 0 && kind != kindCount {
					deliver = !deliver
					n.ESetDeliver(deliver)
					c.Logf("deliver %v", deliver)
					if n.EDeliver() != deliver {
						fail("delivery is %v, should be %v", n.EDeliver(), deliver)
					}
					break
				}
				fallthrough
			default:
				for _, p := range ps {
					p.values, p.reacted = nil, nil
				}
				before := append([]int{}, att...)
				var react string
				if len(att) > 0 && deliver && rapid.Bool().Draw(t, "re-entrant") {
					i := rapid.SampledFrom(att).Draw(t, "who")
					react = fmt.Sprintf(" adapter %d acts during the delivery", i)
					ps[i].reacted = func() { editList(true) }
				}
				v := next
				next++
				c.Logf("edit %d%s", v, react)
				do := func() { edit(v) }
				if o, ok := n.(ecore.EObject); ok && oneIn(t, 5, "notify") {
					// a notification without a change
					do = func() { o.ENotify(ecore.NewNotificationByFeature(o, ecore.SET, f.E, nil, v, -1)) }
				}
				if p := try(do); p != nil {
					fail("edit : panic %v", p)
				}
				for i, p := range ps {
					// adapters attached all along hear it once, others not at all ;
					// those attached or detached during the delivery are left open
					want := 0
					if deliver && has(before, i) {
						want = 1
					}
					if has(before, i) != has(att, i) {
						if len(p.values) > 1 {
							fail("adapter %d heard %d notifications of one change", i, len(p.values))
						}
						continue
					}
					if len(p.values) != want {
						fail("adapter %d heard %d notifications of one change, should be %d", i, len(p.values), want)
					}
					if want == 1 {
						heard++
						if fmt.Sprint(p.values[0]) != value(v) {
							fail("adapter %d heard %v, should be %v", i, p.values[0], value(v))
						}
					}
				}
			}
			check()
		}
		if len(kinds) >= 2 && heard > 0 {
			c.Nontrivial()
		}
	})
}

// Order : an adapter attached to several objects hears their notifications in
// the order of the edits, and hears each of them once whatever the number of
// notifiers it is attached to.
func TestP30_Order(t *testing.T) {
	runProp(t, "an adapter heard at least 3 edits of several objects", 4000, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{DTs: []string{"EInt"}, NoRefs: true, NoDefaults: true, MaxClasses: 1, MaxFeats: 2, Dense: true})
		cl := m.Concrete(nil)[0]
		var os []ecore.EObject
		rec := &recorder{}
		for k := rapid.IntRange(1, 4).Draw(t, "objects"); k > 0; k-- {
			o := m.NewKind(cl, rapid.IntRange(0, kindCount-1).Draw(t, "kind"))
			os = append(os, o)
			o.EAdapters().Add(rec)
		}
		var want []string
		for i, k := 0, rapid.IntRange(1, 12).Draw(t, "edits"); i < k; i++ {
			j := rapid.IntRange(0, len(os)-1).Draw(t, "o")
			f := rapid.SampledFrom(cl.All()).Draw(t, "f")
			c.Logf("o%d.%s %d", j, f.Name, i)
			if f.Many {
				os[j].EGet(f.E).(ecore.EList).Add(i)
			} else {
				os[j].ESet(f.E, i)
			}
			want = append(want, fmt.Sprintf("o%d.%s %d", j, f.Name, i))
		}
		var got []string
		for _, e := range rec.events {
			for j, o := range os {
				if e.notifier == ecore.ENotifier(o) {
					got = append(got, fmt.Sprintf("o%d.%s %v", j, e.f.GetName(), e.new))
				}
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Fatalf("heard %v, should be %v", got, want)
		}
		if len(want) >= 3 && len(os) > 1 {
			c.Nontrivial()
		}
	})
}
