package harness

// P27: objects which keep their features in a store behave like the other ones.

import (
	"fmt"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// storeWorld is a world of objects kept in a store : attached to it at some moment, or never
type storeWorld struct {
	*World
	store    *memStore
	held     map[storeKey]ecore.EList
	attached int
	cached   int
}

func attachedTo(o ecore.EObject) bool {
	p, _ := o.(ecore.EStoreProvider)
	return p != nil && p.GetEStore() != nil
}

// admin attaches objects to the store, or switches their cache
func (w *storeWorld) admin() bool {
	t := w.t
	i := rapid.IntRange(0, len(w.objs)-1).Draw(t, "object")
	o := w.objs[i]
	switch rapid.IntRange(0, 3).Draw(t, "admin") {
	case 0:
		if attachedTo(o) {
			return false
		}
		if _, ok := o.(ecore.EStoreProvider); !ok {
			return false
		}
		root := i
		for w.cont[root] >= 0 {
			root = w.cont[root]
		}
		w.attached++
		w.do(fmt.Sprintf("attach o%d", root), func() { w.store.attach(w.objs[root]); w.store.attach(o) })
	default:
		p, _ := o.(ecore.ECacheProvider)
		if p == nil {
			return false
		}
		cache := !p.IsCache()
		w.cached++
		w.do(fmt.Sprintf("o%d cache %v", i, cache), func() { p.SetCache(cache) })
		if p.IsCache() != cache {
			w.fail("the cache of o%d is %v", i, p.IsCache())
		}
	}
	return true
}

// checkStore : the store holds the features of the objects which are attached to it
func (w *storeWorld) checkStore() {
	if w.store.bad != "" {
		w.fail("the store is asked to %s", w.store.bad)
	}
	for i, o := range w.objs {
		if !attachedTo(o) {
			continue
		}
		for _, f := range w.cls[i].All() {
			if f.Transient || f.Container() {
				continue
			}
			k := storeKey{o, f.E}
			if f.Many && w.held[k] == nil {
				w.held[k] = o.EGet(f.E).(ecore.EList)
			} else if f.Many && o.EGet(f.E) != any(w.held[k]) {
				w.fail("o%d.%s is another list than before", i, f.Name)
			}
			var got, want []any
			if f.Many {
				got = w.store.lists[k]
			} else if v := w.store.vals[k]; v != nil {
				got = []any{v}
			}
			if f.Attr {
				want = w.attrs[i][f]
			} else {
				want = w.objsOf(w.refs[i][f])
			}
			if !sameVals(got, want) {
				w.fail("the store holds %s for o%d.%s instead of %s", w.show(got), i, f.Name, w.show(want))
			}
			if f.Cont {
				for _, x := range got {
					if _, ok := x.(ecore.EStoreProvider); ok && !attachedTo(x.(ecore.EObject)) {
						w.fail("%s which o%d contains is not in the store", w.name(x), i)
					}
				}
			}
		}
		c := w.store.conts[o]
		if w.cont[i] < 0 {
			if c.o != nil {
				w.fail("in the store the container of o%d is %s", i, w.name(c.o))
			}
		} else if c.o != w.objs[w.cont[i]] || c.f != w.contF[i].E {
			w.fail("in the store the container of o%d is %s through %v instead of o%d through %s", i, w.name(c.o), featName(c.f), w.cont[i], w.contF[i].Name)
		}
	}
}

func storeCase(t *rapid.T, c *Rec, mo ModelOpts, wo worldOpts, steps int, setup func(*storeWorld)) *storeWorld {
	sw := &storeWorld{store: newMemStore(), held: map[storeKey]ecore.EList{}}
	start := pickOne(t, "start", []string{"attached", "later", "mixed"})
	cache := pickOne(t, "cache", []string{"none", "all", "mixed"})
	c.Label("start " + start)
	c.Label("cache " + cache)
	wo.create = func(cl *Class) ecore.EObject {
		if cache == "mixed" && start == "mixed" && oneIn(t, 6, "ordinary") {
			o := ecore.NewDynamicEObjectImpl()
			o.SetEClass(cl.E)
			return o
		}
		o := ecore.NewEStoreEObjectImpl(cache == "all" || cache == "mixed" && rapid.Bool().Draw(t, "cached"))
		o.SetEClass(cl.E)
		if start == "attached" || start == "mixed" && rapid.Bool().Draw(t, "attached") {
			o.SetEStore(sw.store)
		}
		return o
	}
	worldCase(t, c, mo, wo, steps, func(w *World) {
		sw.World = w
		w.extra = sw.admin
		setup(sw)
	})
	return sw
}

func TestP27_Objects(t *testing.T) {
	runProp(t, "at least 5 edits of objects in the store, and a cache was switched or an object attached to the store between them", 6000, func(t *rapid.T, c *Rec) {
		n := 0
		sw := storeCase(t, c, ModelOpts{DTs: allDTs, MaxClasses: 3, MaxFeats: 5, Dense: true, ContBias: rapid.Bool().Draw(t, "contbias"), OppBias: rapid.Bool().Draw(t, "oppbias")},
			worldOpts{minObjs: 1, maxObjs: 6, maxRess: 1}, 30, func(w *storeWorld) {
				lazy := rapid.Bool().Draw(t, "lazy")
				check := func() {
					w.checkFeatures()
					w.checkContainment()
					w.checkStore()
				}
				rare := rapid.Bool().Draw(t, "rare")
				w.after = func(string) {
					n++
					if !rare {
						w.checkStore()
					}
					if !lazy {
						check()
					}
				}
				w.finish = check
			})
		c.LabelIf(sw.attached > 0, "attached later")
		c.LabelIf(sw.cached > 0, "cache switched")
		if n >= 5 && sw.attached+sw.cached > 0 && len(sw.store.lists)+len(sw.store.vals) > 0 {
			c.Nontrivial()
		}
	})
}

func TestP27_Notifications(t *testing.T) {
	runProp(t, "an observer rebuilt a content of an object in the store from at least 5 notifications, one of them of a many-valued feature or of the other end of an edit", 4000, func(t *rapid.T, c *Rec) {
		var o *observation
		storeCase(t, c, ModelOpts{DTs: comparableDTs, MaxClasses: 3, MaxFeats: 4, ContBias: rapid.Bool().Draw(t, "contbias"), OppBias: rapid.Bool().Draw(t, "oppbias"), Dense: true},
			worldOpts{minObjs: 2, maxObjs: 6, maxRess: 2}, 25, func(w *storeWorld) {
				o = w.observe()
				after := w.after
				w.after = func(op string) {
					after(op)
					w.checkRefs()
					w.checkStore()
				}
			})
		if o.rich {
			c.Nontrivial()
		}
	})
}

// TestP27_Lists : every operation of a list kept in a store
func TestP27_Lists(t *testing.T) {
	names := []string{"set", "bag", "bytes", "bytesBag", "refs", "refsResolve", "cont", "contResolve", "nn1", "nn2", "n1", "contOpp"}
	runProp(t, listRule+" (lists kept in a store, whose cache is switched)", 5000, func(t *rapid.T, c *Rec) {
		p, cl, fs := listFeatureClass(nil)
		cache := rapid.Bool().Draw(t, "cache")
		p.SetEFactoryInstance(newStoreFactory(func() bool { return cache }))
		store := newMemStore()
		owner := p.GetEFactoryInstance().Create(cl)
		fname := rapid.SampledFrom(names).Draw(t, "feature")
		f := fs[fname]
		if rapid.Bool().Draw(t, "attached") {
			c.Logf("attach")
			store.attach(owner)
		}
		l := owner.EGet(f).(ecore.EList)
		m := &listModel{unique: fname != "bag" && fname != "bytesBag"}
		var pool []any
		name := func(e any) string { return fmt.Sprint(e) }
		if _, isRef := f.(ecore.EReference); isRef {
			label := map[any]string{}
			for i := 0; i < 7; i++ {
				o := p.GetEFactoryInstance().Create(cl)
				pool = append(pool, o)
				label[o] = fmt.Sprintf("o%d", i)
			}
			name = func(e any) string {
				if s, ok := label[e]; ok {
					return s
				}
				return fmt.Sprintf("?%v", e)
			}
			if ol, ok := l.(ecore.EObjectList); ok && rapid.Bool().Draw(t, "view") {
				l = ol.GetUnResolvedList()
				c.Logf("unresolved view")
				c.Label("view")
			}
		} else {
			pool = []any{"a", "b", "c", "d", "e", ""}
			if fname == "bytes" || fname == "bytesBag" {
				pool = []any{[]byte("a"), []byte("b"), []byte("a"), []byte("ab"), []byte{}, []byte{0, 255}}
			}
		}
		c.Logf("%s cache %v", fname, cache)
		for rounds := rapid.IntRange(1, 4).Draw(t, "rounds"); rounds > 0; rounds-- {
			runList(t, c, l, m, pool, name, fname == "bag" || fname == "bytesBag")
			if g := owner.EGet(f).(ecore.EList).ToArray(); !sameSeq(g, m.s) {
				t.Fatalf("the feature holds %s instead of %s", show(g, name), show(m.s, name))
			}
			if attachedTo(owner) {
				if g := store.lists[storeKey{owner, f}]; !sameSeq(g, m.s) {
					t.Fatalf("the store holds %s instead of %s", show(g, name), show(m.s, name))
				}
				if store.bad != "" {
					t.Fatalf("the store is asked to %s", store.bad)
				}
			}
			if !attachedTo(owner) && rapid.Bool().Draw(t, "attach") {
				c.Logf("attach")
				c.Label("attached later")
				store.attach(owner)
			} else {
				cache = !cache
				c.Logf("cache %v", cache)
				c.Label("cache switched")
				owner.(ecore.ECacheProvider).SetCache(cache)
			}
		}
	})
}

// TestP27_Maps : every operation of a map kept in a store
func TestP27_Maps(t *testing.T) {
	runProp(t, "random map and list operations on a map kept in a store against a sequence of entries, its cache being switched; non-trivial as for P10", 4000, func(t *rapid.T, c *Rec) {
		cache := rapid.Bool().Draw(t, "cache")
		fac := ecore.GetFactory()
		p := fac.CreateEPackage()
		p.SetName("p")
		p.SetNsURI("http://p")
		p.SetEFactoryInstance(newStoreFactory(func() bool { return cache }))
		node := fac.CreateEClassFromContainer(p)
		node.SetName("Node")
		entry := fac.CreateEClassFromContainer(p)
		entry.SetName("Entry")
		entry.SetInstanceTypeName("java.util.Map.Entry")
		for _, n := range []string{"key", "value"} {
			a := fac.CreateEAttributeFromContainer(entry)
			a.SetName(n)
			a.SetEType(ecore.GetPackage().GetEString())
		}
		ref := fac.CreateEReferenceFromContainer(node)
		ref.SetName("entries")
		ref.SetEType(entry)
		ref.SetUpperBound(-1)
		ref.SetContainment(true)
		store := newMemStore()
		var owners []ecore.EObject
		strs := []any{"", "a", "b", "c", "key"}
		k := &mapKind{name: "store", owned: true, keys: strs, values: strs}
		k.newMap = func() ecore.EMap {
			o := p.GetEFactoryInstance().Create(node)
			owners = append(owners, o)
			if rapid.Bool().Draw(t, "attached") {
				c.Logf("attach %d", len(owners)-1)
				store.attach(o)
			}
			return o.EGet(ref).(ecore.EMap)
		}
		k.newEntry = func(key, v any) ecore.EMapEntry {
			e := p.GetEFactoryInstance().Create(entry).(ecore.EMapEntry)
			e.SetKey(key)
			e.SetValue(v)
			return e
		}
		k.between = func(entries func(int) []any) {
			for i, o := range owners {
				if attachedTo(o) {
					if g := store.lists[storeKey{o, ref}]; !sameSeq(g, entries(i)) {
						t.Fatalf("the store holds %d entries of map %d instead of %d", len(g), i, len(entries(i)))
					}
				}
			}
			if store.bad != "" {
				t.Fatalf("the store is asked to %s", store.bad)
			}
			if !oneIn(t, 5, "admin") {
				return
			}
			i := rapid.IntRange(0, 1).Draw(t, "owner")
			o := owners[i]
			if !attachedTo(o) && rapid.Bool().Draw(t, "attach") {
				c.Logf("attach %d", i)
				c.Label("attached later")
				store.attach(o)
			} else {
				p := o.(ecore.ECacheProvider)
				c.Logf("cache of %d : %v", i, !p.IsCache())
				c.Label("cache switched")
				p.SetCache(!p.IsCache())
			}
		}
		runMaps(t, c, k)
	})
}

// TestP27_Proxies : references kept in a store are resolved when they are read
func TestP27_Proxies(t *testing.T) {
	runProp(t, "a proxy kept in a store was resolved by reading, and another one which denotes nothing was kept or a cache was switched", 3000, func(t *rapid.T, c *Rec) {
		p, cl, fs := listFeatureClass(nil)
		single := func(name string, cont bool) {
			r := ecore.GetFactory().CreateEReference()
			r.SetName(name)
			r.SetEType(cl)
			r.SetContainment(cont)
			r.SetResolveProxies(true)
			cl.GetEStructuralFeatures().Add(r)
			fs[name] = r
		}
		single("one", false)
		single("oneCont", true)
		cache := rapid.Bool().Draw(t, "cache")
		storeObjects := newStoreFactory(func() bool { return cache })
		p.SetEFactoryInstance(storeObjects)
		store := newMemStore()
		rs := ecore.NewEResourceSetImpl()
		res := []ecore.EResource{rs.CreateResource(ecore.NewURI("mem:/r0.xml")), rs.CreateResource(ecore.NewURI("mem:/r1.xml"))}
		owner := p.GetEFactoryInstance().Create(cl)
		res[0].GetContents().Add(owner)
		var targets []ecore.EObject
		for i := 0; i < 4; i++ {
			o := p.GetEFactoryInstance().Create(cl)
			res[1].GetContents().Add(o)
			targets = append(targets, o)
		}
		fname := pickOne(t, "feature", []string{"refsResolve", "contResolve", "one", "oneCont", "n1", "nn2"})
		f := fs[fname]
		attached := rapid.Bool().Draw(t, "attached")
		if attached {
			store.attach(owner)
		}
		names := map[any]string{}
		for i, o := range targets {
			names[o] = fmt.Sprintf("t%d", i)
		}
		name := func(x any) string {
			if s, ok := names[x]; ok {
				return s
			}
			return fmt.Sprintf("?%v", x)
		}
		newProxy := func(uri, label string) ecore.EObject {
			o := p.GetEFactoryInstance().Create(cl)
			o.(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI(uri))
			names[o] = label
			return o
		}
		// what is held, and what it denotes
		var held, want []any
		free := []int{0, 1, 2, 3}
		n := rapid.IntRange(1, 4).Draw(t, "n")
		if !f.IsMany() {
			n = 1
		}
		broken, resolved := false, false
		for i := 0; i < n; i++ {
			switch k := rapid.IntRange(0, 4).Draw(t, "kind"); {
			case k == 0:
				x := newProxy(pickOne(t, "broken", []string{"mem:/r1.xml#/9", "mem:/none.xml#/", "mem:/r1.xml#nothing"}), fmt.Sprintf("broken%d", i))
				held, want = append(held, x), append(want, x)
				broken = true
			default:
				j := rapid.IntRange(0, len(free)-1).Draw(t, "target")
				x := targets[free[j]]
				free = append(free[:j], free[j+1:]...)
				if k == 1 {
					held, want = append(held, x), append(want, x)
				} else {
					held, want = append(held, newProxy(ecore.GetURI(x).String(), "proxy of "+name(x))), append(want, x)
				}
			}
		}
		c.Logf("%s cache %v attached %v holds %s", fname, cache, attached, show(held, name))
		view := func() ecore.EList {
			return owner.EGet(f).(ecore.EObjectList).GetUnResolvedList()
		}
		if f.IsMany() {
			for _, x := range held {
				view().Add(x)
			}
		} else {
			owner.ESet(f, held[0])
		}
		read := make([]bool, n)
		switched := false
		unread := func(what string) {
			// without resolution : the proxy, unless it was resolved
			var got []any
			if f.IsMany() {
				got = view().ToArray()
			} else {
				got = []any{owner.EGetResolve(f, false)}
			}
			if len(got) != n {
				t.Fatalf("%s : without resolution the reference holds %s instead of %s", what, show(got, name), show(held, name))
			}
			for i := range got {
				if got[i] != held[i] && (!read[i] || got[i] != want[i]) {
					t.Fatalf("%s : without resolution the reference holds %s instead of %s", what, show(got, name), show(held, name))
				}
			}
			if !f.IsMany() {
				return
			}
			i := 0
			for it := view().Iterator(); it.HasNext(); i++ {
				if it.Next() != got[i] || view().Get(i) != got[i] {
					t.Fatalf("%s : without resolution the list has different elements at %d", what, i)
				}
			}
			if l := owner.EGet(f).(ecore.EList); l.Size() != n || view().Size() != n {
				t.Fatalf("%s : the size is %d, without resolution %d", what, l.Size(), view().Size())
			}
		}
		expect := func(what string, i int, got any) {
			read[i] = true
			if got != want[i] {
				t.Fatalf("%s : at %d is %s instead of %s", what, i, name(got), name(want[i]))
			}
			if want[i] != held[i] {
				resolved = true
				if r := f.(ecore.EReference); r.IsContainment() && got.(ecore.EObject).EContainer() != owner {
					t.Fatalf("%s : the container of %s is %s", what, name(got), name(got.(ecore.EObject).EContainer()))
				}
			}
		}
		for steps := rapid.IntRange(1, 8).Draw(t, "steps"); steps > 0; steps-- {
			op := rapid.IntRange(0, 8).Draw(t, "op")
			what := fmt.Sprintf("operation %d", op)
			switch {
			case op == 7 && !attachedTo(owner):
				what = "attach"
				c.Logf("%s", what)
				store.attach(owner)
			case op >= 7:
				cache = !cache
				what = fmt.Sprintf("cache %v", cache)
				c.Logf("%s", what)
				switched = true
				owner.(ecore.ECacheProvider).SetCache(cache)
			case !f.IsMany():
				c.Logf("read")
				expect("read", 0, owner.EGet(f))
			default:
				l := owner.EGet(f).(ecore.EList)
				i := rapid.IntRange(0, n-1).Draw(t, "at")
				switch op {
				case 0, 1:
					what = fmt.Sprintf("get %d", i)
					c.Logf("%s", what)
					expect(what, i, l.Get(i))
				case 2:
					c.Logf("iterate")
					k := 0
					for it := l.Iterator(); it.HasNext(); k++ {
						expect("iterate", k, it.Next())
					}
				case 3:
					c.Logf("range")
					k := 0
					for x := range l.All() {
						expect("range", k, x)
						k++
					}
				case 4:
					c.Logf("array")
					a := l.ToArray()
					if len(a) != n {
						t.Fatalf("the array has %d objects", len(a))
					}
					for k, x := range a {
						expect("array", k, x)
					}
				default:
					x := any(targets[rapid.IntRange(0, 3).Draw(t, "t")])
					if oneIn(t, 3, "held") {
						x = want[i]
					}
					c.Logf("search %s", name(x))
					at := -1
					for k := range want {
						if want[k] == x {
							at = k
						}
					}
					for k := range read {
						read[k] = true
					}
					if op == 5 {
						if g := l.IndexOf(x); g != at {
							t.Fatalf("%s is found at %d instead of %d", name(x), g, at)
						}
					} else if g := l.Contains(x); g != (at >= 0) {
						t.Fatalf("contains %s : %v", name(x), g)
					}
				}
			}
			unread(what)
		}
		if store.bad != "" {
			t.Fatalf("the store is asked to %s", store.bad)
		}
		c.LabelIf(resolved, "resolved")
		c.LabelIf(broken, "broken")
		if resolved && (broken || switched) {
			c.Nontrivial()
		}
	})
}
