package harness

import (
	"fmt"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// mapKind is one way of building maps : it gives maps and free entries for them
type mapKind struct {
	name     string
	owned    bool // an entry belongs to at most one map
	single   bool // one map only (the entries of plain maps may be shared, and are then edited behind the back of the other one)
	newMap   func() ecore.EMap
	newEntry func(k, v any) ecore.EMapEntry
	keys     []any
	values   []any
	// done before each operation, with the entries of each map
	between func(entries func(int) []any)
}

type mapSlot struct{ k, v any }

// mapModel : the entries in order; the values of the entries are shared by the maps
type mapModel struct {
	listModel
	slots map[any]*mapSlot
}

func (m *mapModel) find(k any) (any, bool) {
	for _, e := range m.s {
		if m.slots[e].k == k {
			return e, true
		}
	}
	return nil, false
}

func genMapKind(t *rapid.T, c *Rec) *mapKind {
	strs := []any{"", "a", "b", "c", "key"}
	ints := []any{0, 1, -5, 7, 12345}
	kind := rapid.SampledFrom([]string{"basic", "annotation", "feature", "owned", "dynamicclass"}).Draw(t, "kind")
	c.Label(kind)
	switch kind {
	case "basic":
		k := &mapKind{name: kind, single: true, keys: []any{"a", "b", 1, 2, 2.5, true, nil}, values: []any{"x", "y", 1, nil, false}}
		k.newMap = func() ecore.EMap { return ecore.NewBasicEMap() }
		k.newEntry = func(key, v any) ecore.EMapEntry {
			m := ecore.NewBasicEMap()
			m.Put(key, v)
			return m.Get(0).(ecore.EMapEntry)
		}
		return k
	case "annotation":
		k := &mapKind{name: kind, owned: true, keys: strs, values: strs}
		k.newMap = func() ecore.EMap { return ecore.GetFactory().CreateEAnnotation().GetDetails() }
		k.newEntry = func(key, v any) ecore.EMapEntry {
			e := ecore.GetFactory().CreateEStringToStringMapEntry().(ecore.EMapEntry)
			e.SetKey(key)
			e.SetValue(v)
			return e
		}
		return k
	}
	// maps held by a feature
	k := &mapKind{name: kind, owned: true}
	f := ecore.GetFactory()
	p := f.CreateEPackage()
	p.SetName("p")
	p.SetNsURI("http://p")
	node := f.CreateEClassFromContainer(p)
	node.SetName("Node")
	entry := f.CreateEClassFromContainer(p)
	entry.SetName("Entry")
	entry.SetInstanceTypeName("java.util.Map.Entry")
	objs := []any{}
	for range 4 {
		objs = append(objs, p.GetEFactoryInstance().Create(node))
	}
	feature := func(name string) []any {
		switch rapid.IntRange(0, 3).Draw(t, "type of "+name) {
		case 0:
			a := f.CreateEAttributeFromContainer(entry)
			a.SetName(name)
			a.SetEType(ecore.GetPackage().GetEString())
			return strs
		case 1:
			a := f.CreateEAttributeFromContainer(entry)
			a.SetName(name)
			a.SetEType(ecore.GetPackage().GetEInt())
			return ints
		case 2:
			r := f.CreateEReferenceFromContainer(entry)
			r.SetName(name)
			r.SetEType(node)
			return objs
		default:
			a := f.CreateEAttributeFromContainer(entry)
			a.SetName(name)
			a.SetEType(ecore.GetPackage().GetEBoolean())
			return []any{true, false}
		}
	}
	if rapid.Bool().Draw(t, "inherited") {
		// the position of the map feature differs in the class which holds it
		super := f.CreateEClassFromContainer(p)
		super.SetName("Super")
		other := f.CreateEAttributeFromContainer(super)
		other.SetName("other")
		other.SetEType(ecore.GetPackage().GetEString())
		node.GetESuperTypes().Add(super)
	}
	k.keys, k.values = feature("key"), feature("value")
	ref := f.CreateEReferenceFromContainer(node)
	ref.SetName("entries")
	ref.SetEType(entry)
	ref.SetUpperBound(-1)
	ref.SetContainment(true)
	holder := func() ecore.EObject { return p.GetEFactoryInstance().Create(node) }
	if kind == "dynamicclass" {
		holder = func() ecore.EObject {
			o := ecore.NewDynamicEObjectImpl()
			o.SetEClass(node)
			return o
		}
	}
	k.newMap = func() ecore.EMap { return holder().EGet(ref).(ecore.EMap) }
	if kind == "owned" {
		// not the map of the feature : the entries are not taken out of it by the holder
		k.single = true
		k.newMap = func() ecore.EMap {
			return ecore.NewBasicEObjectMap(entry, holder().(ecore.EObjectInternal), node.GetFeatureID(ref), -1, false)
		}
	}
	k.newEntry = func(key, v any) ecore.EMapEntry {
		e := p.GetEFactoryInstance().Create(entry).(ecore.EMapEntry)
		e.SetKey(key)
		e.SetValue(v)
		return e
	}
	return k
}

func checkMap(t *rapid.T, m ecore.EMap, mm *mapModel, k *mapKind, name func(any) string, what string) {
	dict := map[any]any{}
	for _, e := range mm.s {
		s := mm.slots[e]
		en := e.(ecore.EMapEntry)
		if g := en.GetKey(); g != s.k {
			t.Fatalf("%s: key of %s is %v", what, name(e), g)
		}
		if g := en.GetValue(); g != s.v {
			t.Fatalf("%s: value of %s is %v", what, name(e), g)
		}
		if _, in := dict[s.k]; !in {
			dict[s.k] = s.v
		}
	}
	for _, key := range k.keys {
		v, in := dict[key]
		if g := m.ContainsKey(key); g != in {
			t.Fatalf("%s: contains key %v is %v, entries are %s", what, key, g, show(mm.s, name))
		}
		if g := m.GetValue(key); g != v {
			t.Fatalf("%s: value of key %v is %v instead of %v, entries are %s", what, key, g, v, show(mm.s, name))
		}
	}
	for _, v := range k.values {
		in := false
		for _, e := range mm.s {
			in = in || mm.slots[e].v == v
		}
		if g := m.ContainsValue(v); g != in {
			t.Fatalf("%s: contains value %v is %v, entries are %s", what, v, g, show(mm.s, name))
		}
	}
	g := m.ToMap()
	if len(g) != len(dict) {
		t.Fatalf("%s: dictionary is %v instead of %v", what, g, dict)
	}
	for key, v := range dict {
		if gv, in := g[key]; !in || gv != v {
			t.Fatalf("%s: dictionary is %v instead of %v", what, g, dict)
		}
	}
}

func TestP10_Maps(t *testing.T) {
	runProp(t, "random map and list operations on two maps exchanging entries against a sequence of entries, dictionary readers compared at random moments; non-trivial when a key was put over an existing one or removed after a read, or an entry left or was replaced in a map",
		6000, func(t *rapid.T, c *Rec) {
			runMaps(t, c, genMapKind(t, c))
		})
}

func runMaps(t *rapid.T, c *Rec, k *mapKind) {
	slots := map[any]*mapSlot{}
	names := map[any]string{}
	name := func(e any) string {
		if s := slots[e]; s != nil {
			return fmt.Sprintf("%s(%v:%v)", names[e], s.k, s.v)
		}
		return fmt.Sprint(e)
	}
	var pool []any
	dups := oneIn(t, 3, "dups")
	c.LabelIf(dups, "entries-with-the-same-key")
	for i := range rapid.IntRange(2, 5).Draw(t, "entries") {
		key := k.keys[i%len(k.keys)]
		if dups {
			key = rapid.SampledFrom(k.keys).Draw(t, "key")
		} else if i >= len(k.keys) {
			break
		}
		v := rapid.SampledFrom(k.values).Draw(t, "value")
		e := k.newEntry(key, v)
		pool = append(pool, e)
		slots[e] = &mapSlot{key, v}
		names[e] = fmt.Sprintf("e%d", i)
	}
	maps := []ecore.EMap{k.newMap(), k.newMap()}
	models := []*mapModel{{listModel{unique: true}, slots}, {listModel{unique: true}, slots}}
	dictChecks := rapid.IntRange(1, 4).Draw(t, "checks")
	for step := range rapid.IntRange(1, 25).Draw(t, "steps") {
		x := rapid.IntRange(0, 1).Draw(t, "map")
		if k.single {
			x = 0
		}
		m, mm := maps[x], models[x]
		if k.between != nil {
			k.between(func(n int) []any { return models[n].s })
		}
		c.Logf("map %d:", x)
		key := rapid.SampledFrom(k.keys).Draw(t, "key")
		switch rapid.IntRange(0, 5).Draw(t, "mapop") {
		case 0, 1:
			v := rapid.SampledFrom(k.values).Draw(t, "value")
			c.Logf("put %v %v", key, v)
			m.Put(key, v)
			if e, in := mm.find(key); in {
				slots[e].v = v
				c.Label("replaced")
				c.Nontrivial()
			} else {
				if m.Size() != len(mm.s)+1 {
					t.Fatalf("size is %d after a new key was put in %s", m.Size(), show(mm.s, name))
				}
				e := m.Get(len(mm.s))
				if slots[e] != nil {
					t.Fatalf("put of a new key reuses the entry %s", name(e))
				}
				slots[e] = &mapSlot{key, v}
				names[e] = fmt.Sprintf("n%d", len(slots))
				mm.s = append(mm.s[:len(mm.s):len(mm.s)], e)
				if len(pool) < 8 {
					pool = append(pool, e)
				}
			}
		case 2:
			c.Logf("remove key %v", key)
			e, in := mm.find(key)
			var want any
			if in {
				want = slots[e].v
				mm.remove(mm.index(e))
				c.Label("key-removed")
				c.Nontrivial()
			}
			if g := m.RemoveKey(key); g != want {
				t.Fatalf("removal of key %v returned %v instead of %v", key, g, want)
			}
		default:
			before := append([]any{}, mm.s...)
			p := pool
			if !dups {
				// entries whose key is not held by another entry of the map
				p = nil
				taken := map[any]bool{}
				for _, e := range pool {
					if h, in := mm.find(slots[e].k); (!in || h == e) && !taken[slots[e].k] {
						taken[slots[e].k] = true
						p = append(p, e)
					}
				}
				if len(p) == 0 {
					continue
				}
			}
			listOp(t, c, m, &mm.listModel, p, name, false)
			for _, e := range before {
				if mm.index(e) < 0 {
					c.Label("entry-left")
					c.Nontrivial()
				}
			}
			if k.owned {
				o := models[1-x]
				for _, e := range mm.s {
					if i := o.index(e); i >= 0 {
						o.remove(i)
						c.Label("entry-moved-between-maps")
					}
				}
			}
		}
		for i := range maps {
			checkList(t, maps[i], &models[i].listModel, pool, name, fmt.Sprintf("step %d map %d", step, i))
			if oneIn(t, dictChecks, "dict") {
				checkMap(t, maps[i], models[i], k, name, fmt.Sprintf("step %d map %d", step, i))
			}
		}
	}
	for i := range maps {
		checkMap(t, maps[i], models[i], k, name, fmt.Sprintf("end map %d", i))
	}
}

func TestP10_Immutable(t *testing.T) {
	runProp(t, "an immutable map built from random entries with distinct keys answers like the dictionary of its entries and rejects every change; non-trivial with two entries or more",
		1000, func(t *rapid.T, c *Rec) {
			k := genMapKind(t, c)
			slots := map[any]*mapSlot{}
			names := map[any]string{}
			mm := &mapModel{listModel{unique: true}, slots}
			for i, key := range k.keys {
				if rapid.Bool().Draw(t, "in") {
					v := rapid.SampledFrom(k.values).Draw(t, "value")
					e := k.newEntry(key, v)
					slots[e] = &mapSlot{key, v}
					names[e] = fmt.Sprintf("e%d", i)
					mm.s = append(mm.s, e)
				}
			}
			name := func(e any) string { return names[e] }
			c.Logf("%s %v", k.name, len(mm.s))
			for _, e := range mm.s {
				c.Logf("%v=%v", slots[e].k, slots[e].v)
			}
			if len(mm.s) > 1 {
				c.Nontrivial()
			}
			m := ecore.NewImmutableEMap(append([]any{}, mm.s...))
			key := rapid.SampledFrom(k.keys).Draw(t, "key")
			e := k.newEntry(key, k.values[0])
			for what, f := range map[string]func(){
				"put":        func() { m.Put(key, k.values[0]) },
				"remove key": func() { m.RemoveKey(key) },
				"add":        func() { m.Add(e) },
				"clear":      func() { m.Clear() },
			} {
				if try(f) == nil {
					t.Fatalf("%s is accepted by an immutable map", what)
				}
				checkList(t, m, &mm.listModel, mm.s, name, what)
				checkMap(t, m, mm, k, name, what)
			}
		})
}
