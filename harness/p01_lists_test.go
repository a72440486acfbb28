package harness

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// listModel is the reference : a plain sequence.
type listModel struct {
	s      []any
	unique bool
}

func (m *listModel) index(e any) int {
	for i, x := range m.s {
		if sameElem(x, e) {
			return i
		}
	}
	return -1
}

func (m *listModel) insert(i int, es ...any) {
	n := make([]any, 0, len(m.s)+len(es))
	n = append(n, m.s[:i]...)
	n = append(n, es...)
	n = append(n, m.s[i:]...)
	m.s = n
}

func (m *listModel) remove(i int) any {
	e := m.s[i]
	n := make([]any, 0, len(m.s))
	n = append(n, m.s[:i]...)
	m.s = append(n, m.s[i+1:]...)
	return e
}

// fresh keeps the elements an insertion brings into the list
func (m *listModel) fresh(es []any) []any {
	if !m.unique {
		return es
	}
	var r []any
	for _, e := range es {
		dup := m.index(e) >= 0
		for _, x := range r {
			dup = dup || sameElem(x, e)
		}
		if !dup {
			r = append(r, e)
		}
	}
	return r
}

// sameElem : elements are compared by value, byte arrays too
func sameElem(a, b any) bool {
	x, ok1 := a.([]byte)
	y, ok2 := b.([]byte)
	if ok1 || ok2 {
		return ok1 && ok2 && bytes.Equal(x, y)
	}
	return a == b
}

func show(es []any, name func(any) string) string {
	ss := make([]string, len(es))
	for i, e := range es {
		ss[i] = name(e)
	}
	return "[" + strings.Join(ss, " ") + "]"
}

func sameSeq(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameElem(a[i], b[i]) {
			return false
		}
	}
	return true
}

// checkList compares every way of reading the list with the model.
func checkList(t *rapid.T, l ecore.EList, m *listModel, pool []any, name func(any) string, what string) {
	fail := func(f string, a ...any) {
		t.Fatalf("%s: %s\n expected content %s", what, fmt.Sprintf(f, a...), show(m.s, name))
	}
	if l.Size() != len(m.s) {
		fail("size is %d", l.Size())
	}
	if l.Empty() != (len(m.s) == 0) {
		fail("empty is %v", l.Empty())
	}
	for i, e := range m.s {
		if g := l.Get(i); !sameElem(g, e) {
			fail("get(%d) is %s", i, name(g))
		}
	}
	if a := l.ToArray(); !sameSeq(a, m.s) {
		fail("array is %s", show(a, name))
	}
	var it []any
	for i := l.Iterator(); i.HasNext(); {
		it = append(it, i.Next())
	}
	if !sameSeq(it, m.s) {
		fail("iterator gives %s", show(it, name))
	}
	var all []any
	for e := range l.All() {
		all = append(all, e)
	}
	if !sameSeq(all, m.s) {
		fail("sequence gives %s", show(all, name))
	}
	for _, e := range pool {
		if g := l.IndexOf(e); g != m.index(e) {
			fail("index of %s is %d", name(e), g)
		}
		if g := l.Contains(e); g != (m.index(e) >= 0) {
			fail("contains %s is %v", name(e), g)
		}
	}
	for _, i := range []int{-1, len(m.s)} {
		if try(func() { l.Get(i) }) == nil {
			fail("get(%d) is accepted", i)
		}
	}
}

// listOp applies one random operation to both and checks the returned value.
func listOp(t *rapid.T, c *Rec, l ecore.EList, m *listModel, pool []any, name func(any) string, selfArg bool) {
	elem := func() any { return rapid.SampledFrom(pool).Draw(t, "elem") }
	coll := func() (ecore.Collection, []any) {
		if selfArg && oneIn(t, 12, "self") {
			c.Label("self")
			return l, append([]any{}, m.s...)
		}
		es := rapid.SliceOfN(rapid.SampledFrom(pool), 0, 5).Draw(t, "elems")
		arg := append(append(make([]any, 0, len(es)+3), es...), pool[0])[:len(es)]
		switch rapid.IntRange(0, 1).Draw(t, "collkind") {
		case 0:
			return ecore.NewImmutableEList(arg), es
		default:
			return ecore.NewBasicEList(arg), es
		}
	}
	n := len(m.s)
	// mostly legal indexes
	idx := func(hi int, label string) int {
		if hi < 0 || oneIn(t, 10, "oor") {
			return rapid.SampledFrom([]int{-1, n, n + 1, -5}).Draw(t, label)
		}
		return rapid.IntRange(0, hi).Draw(t, label)
	}
	rejected := func(f func(), what string) {
		c.Label("rejected")
		if p := try(f); p == nil {
			t.Fatalf("%s is accepted on a list of size %d", what, n)
		}
	}
	expectBool := func(what string, got, want bool) {
		if got != want {
			t.Fatalf("%s returned %v, content before %s", what, got, show(m.s, name))
		}
	}
	op := rapid.IntRange(0, 13).Draw(t, "op")
	switch op {
	case 0, 1:
		e := elem()
		c.Logf("add %s", name(e))
		want := !m.unique || m.index(e) < 0
		expectBool("add "+name(e), l.Add(e), want)
		if want {
			m.insert(n, e)
		}
	case 2:
		a, es := coll()
		c.Logf("addAll %s", show(es, name))
		f := m.fresh(es)
		c.LabelIf(len(f) < len(es) && len(f) > 1, "bulk-filtered")
		r := l.AddAll(a)
		if len(es) > 0 {
			expectBool("addAll "+show(es, name), r, len(f) > 0)
		}
		m.insert(n, f...)
	case 3:
		e, i := elem(), idx(n, "index")
		c.Logf("insert %d %s", i, name(e))
		if i < 0 || i > n {
			rejected(func() { l.Insert(i, e) }, "insert")
			return
		}
		want := !m.unique || m.index(e) < 0
		expectBool("insert "+name(e), l.Insert(i, e), want)
		if want {
			m.insert(i, e)
		}
	case 4, 5:
		a, es := coll()
		i := idx(n, "index")
		c.Logf("insertAll %d %s", i, show(es, name))
		if i < 0 || i > n {
			rejected(func() { l.InsertAll(i, a) }, "insertAll")
			return
		}
		f := m.fresh(es)
		c.LabelIf(len(f) < len(es) && len(f) > 1, "bulk-filtered")
		c.LabelIf(len(f) > 1 && i < n, "bulk-middle")
		r := l.InsertAll(i, a)
		if len(es) > 0 {
			expectBool("insertAll "+show(es, name), r, len(f) > 0)
		}
		m.insert(i, f...)
	case 6:
		i, j := idx(n-1, "from"), idx(n-1, "to")
		c.Logf("move %d -> %d", i, j)
		if i < 0 || i >= n || j < 0 || j >= n {
			rejected(func() { l.Move(i, j) }, fmt.Sprintf("move %d -> %d", i, j))
			return
		}
		e := m.remove(i)
		m.insert(j, e)
		if g := l.Move(i, j); !sameElem(g, e) {
			t.Fatalf("move returned %s instead of %s", name(g), name(e))
		}
	case 7:
		e, j := elem(), idx(n-1, "to")
		c.Logf("moveObject %s -> %d", name(e), j)
		i := m.index(e)
		if i < 0 || j < 0 || j >= n {
			rejected(func() { l.MoveObject(j, e) }, fmt.Sprintf("move of %s to %d", name(e), j))
			return
		}
		l.MoveObject(j, e)
		m.insert(j, m.remove(i))
	case 8:
		i, e := idx(n-1, "index"), elem()
		c.Logf("set %d %s", i, name(e))
		k := m.index(e)
		if i < 0 || i >= n || m.unique && k >= 0 && k != i {
			rejected(func() { l.Set(i, e) }, "set")
			return
		}
		if g := l.Set(i, e); !sameElem(g, m.s[i]) {
			t.Fatalf("set returned %s instead of %s", name(g), name(m.s[i]))
		}
		m.remove(i)
		m.insert(i, e)
	case 9:
		i := idx(n-1, "index")
		c.Logf("removeAt %d", i)
		if i < 0 || i >= n {
			rejected(func() { l.RemoveAt(i) }, "removeAt")
			return
		}
		e := m.remove(i)
		if g := l.RemoveAt(i); !sameElem(g, e) {
			t.Fatalf("removeAt returned %s instead of %s", name(g), name(e))
		}
	case 10:
		e := elem()
		c.Logf("remove %s", name(e))
		i := m.index(e)
		expectBool("remove "+name(e), l.Remove(e), i >= 0)
		if i >= 0 {
			m.remove(i)
		}
	case 11:
		a, es := coll()
		c.Logf("removeAll %s", show(es, name))
		var keep []any
		for _, e := range m.s {
			in := false
			for _, x := range es {
				in = in || sameElem(x, e)
			}
			if !in {
				keep = append(keep, e)
			}
		}
		c.LabelIf(n-len(keep) > 1, "removeAll-many")
		expectBool("removeAll "+show(es, name), l.RemoveAll(a), len(keep) < n)
		m.s = keep
	case 12:
		i, j := idx(n-1, "from"), idx(n, "to")
		c.Logf("removeRange %d %d", i, j)
		if i == n && j == n {
			return
		}
		if i < 0 || i >= n || j < 0 || j > n || i > j {
			rejected(func() { l.RemoveRange(i, j) }, fmt.Sprintf("removeRange %d %d", i, j))
			return
		}
		c.LabelIf(j-i > 1, "range-many")
		l.RemoveRange(i, j)
		m.s = append(append([]any{}, m.s[:i]...), m.s[j:]...)
	case 13:
		if oneIn(t, 3, "clear") {
			c.Logf("clear")
			l.Clear()
			m.s = nil
		}
	}
}

func runList(t *rapid.T, c *Rec, l ecore.EList, m *listModel, pool []any, name func(any) string, selfArg bool) {
	steps := rapid.IntRange(1, 25).Draw(t, "steps")
	mutated := 0
	for i := 0; i < steps; i++ {
		before := append([]any{}, m.s...)
		listOp(t, c, l, m, pool, name, selfArg)
		if !sameSeq(before, m.s) {
			mutated++
		}
		checkList(t, l, m, pool, name, fmt.Sprintf("step %d", i))
	}
	if mutated >= 3 {
		c.Nontrivial()
	}
}

const listRule = "random list operation sequences against a slice model, every reader compared after each step; non-trivial when at least 3 operations changed the content"

func TestP01_PlainLists(t *testing.T) {
	runProp(t, listRule, 4000, func(t *rapid.T, c *Rec) {
		pool := []any{"a", "b", "c", 1, 2, nil, 3.5, []byte("b"), []byte{}, []byte("b")}
		name := func(e any) string { return fmt.Sprint(e) }
		init := rapid.SliceOfNDistinct(rapid.IntRange(0, len(pool)-1), 0, 4, func(i int) int { return i }).Draw(t, "init")
		var data []any
		for _, i := range init {
			if e := pool[i]; (&listModel{s: data}).index(e) < 0 {
				data = append(data, e)
			}
		}
		m := &listModel{s: append([]any{}, data...)}
		var l ecore.EList
		switch k := rapid.IntRange(0, 3).Draw(t, "kind"); k {
		case 0:
			m.s = nil
			l = ecore.NewEmptyBasicEList()
			c.Logf("list")
		case 1:
			l = ecore.NewBasicEList(data)
			c.Logf("list of %v", data)
		case 2:
			m.unique = true
			l = ecore.NewUniqueBasicEList(data)
			c.Logf("unique list of %v", data)
		case 3:
			m.s, m.unique = nil, true
			l = ecore.NewBasicENotifyingList()
			c.Logf("notifying list")
		}
		runList(t, c, l, m, pool, name, true)
	})
}

func listFeatureClass(many func(f ecore.EStructuralFeature)) (ecore.EPackage, ecore.EClass, map[string]ecore.EStructuralFeature) {
	fac := ecore.GetFactory()
	p := fac.CreateEPackage()
	p.SetName("p")
	p.SetNsURI("http://verif/lists")
	p.SetEFactoryInstance(fac.CreateEFactory())
	cl := fac.CreateEClass()
	cl.SetName("C")
	p.GetEClassifiers().Add(cl)
	fs := map[string]ecore.EStructuralFeature{}
	add := func(name string, f ecore.EStructuralFeature) {
		f.SetName(name)
		cl.GetEStructuralFeatures().Add(f)
		fs[name] = f
	}
	at := func(name string, unique bool, dt ecore.EDataType) {
		a := fac.CreateEAttribute()
		a.SetEType(dt)
		a.SetUnique(unique)
		a.SetUpperBound(-1)
		add(name, a)
	}
	rf := func(name string, cont, resolve, many bool) ecore.EReference {
		r := fac.CreateEReference()
		r.SetEType(cl)
		r.SetContainment(cont)
		r.SetResolveProxies(resolve)
		if many {
			r.SetUpperBound(-1)
		}
		add(name, r)
		return r
	}
	at("set", true, ecore.GetPackage().GetEString())
	at("bag", false, ecore.GetPackage().GetEString())
	at("bytes", true, ecore.GetPackage().GetEByteArray())
	at("bytesBag", false, ecore.GetPackage().GetEByteArray())
	rf("refs", false, false, true)
	rf("refsResolve", false, true, true)
	rf("cont", true, false, true)
	rf("contResolve", true, true, true)
	a, b := rf("nn1", false, false, true), rf("nn2", false, true, true)
	a.SetEOpposite(b)
	b.SetEOpposite(a)
	a, b = rf("n1", false, true, true), rf("n1opp", false, false, false)
	a.SetEOpposite(b)
	b.SetEOpposite(a)
	a, b = rf("contOpp", true, true, true), rf("contOppParent", false, false, false)
	a.SetEOpposite(b)
	b.SetEOpposite(a)
	return p, cl, fs
}

func TestP01_FeatureLists(t *testing.T) {
	names := []string{"set", "bag", "bytes", "bytesBag", "refs", "refsResolve", "cont", "contResolve", "nn1", "nn2", "n1", "contOpp"}
	runProp(t, listRule+" (lists held by features of an object, directly or through their unresolved view)", 5000, func(t *rapid.T, c *Rec) {
		p, cl, fs := listFeatureClass(nil)
		owner := p.GetEFactoryInstance().Create(cl)
		fname := rapid.SampledFrom(names).Draw(t, "feature")
		f := fs[fname]
		l := owner.EGet(f).(ecore.EList)
		m := &listModel{unique: fname != "bag" && fname != "bytesBag"}
		var pool []any
		name := func(e any) string { return fmt.Sprint(e) }
		if _, isRef := f.(ecore.EReference); isRef {
			label := map[any]string{}
			for i := 0; i < 7; i++ {
				o := p.GetEFactoryInstance().Create(cl)
				pool = append(pool, o)
				label[o] = fmt.Sprintf("o%d", i)
			}
			name = func(e any) string {
				if s, ok := label[e]; ok {
					return s
				}
				return fmt.Sprintf("?%v", e)
			}
			if ol, ok := l.(ecore.EObjectList); ok && rapid.Bool().Draw(t, "view") {
				l = ol.GetUnResolvedList()
				c.Logf("unresolved view")
				c.Label("view")
			}
		} else {
			pool = []any{"a", "b", "c", "d", "e", ""}
			if fname == "bytes" || fname == "bytesBag" {
				pool = []any{[]byte("a"), []byte("b"), []byte("a"), []byte("ab"), []byte{}, []byte{0, 255}}
			}
		}
		c.Logf("%s", fname)
		runList(t, c, l, m, pool, name, fname == "bag" || fname == "bytesBag")
		// the feature itself holds the same
		if g := owner.EGet(f).(ecore.EList).ToArray(); !sameSeq(g, m.s) {
			t.Fatalf("the feature holds %s instead of %s", show(g, name), show(m.s, name))
		}
	})
}

func TestP01_Immutable(t *testing.T) {
	runProp(t, "immutable lists: every modification is rejected and leaves the content, also when the list is the argument of operations on other lists; non-trivial when the list is not empty", 2000, func(t *rapid.T, c *Rec) {
		backing := []any{"a", "b", "c", "d", "e", "f"}
		n := rapid.IntRange(0, 4).Draw(t, "n")
		m := &listModel{s: append([]any{}, backing[:n]...)}
		whole := ecore.NewImmutableEList(backing)
		wm := &listModel{s: append([]any{}, backing...)}
		var l ecore.EList = ecore.NewImmutableEList(backing[:n])
		if n == 0 && rapid.Bool().Draw(t, "empty") {
			l = ecore.NewEmptyImmutableEList()
		}
		other := ecore.NewBasicEList([]any{"x", "y"})
		uniq := ecore.NewUniqueBasicEList([]any{"x", "a"})
		name := func(e any) string { return fmt.Sprint(e) }
		c.Logf("immutable %v", m.s)
		for i, k := 0, rapid.IntRange(1, 8).Draw(t, "steps"); i < k; i++ {
			op := rapid.IntRange(0, 14).Draw(t, "op")
			e := rapid.SampledFrom(backing).Draw(t, "e")
			arg := ecore.NewBasicEList([]any{e})
			muts := []func(){
				func() { l.Add(e) }, func() { l.AddAll(arg) }, func() { l.Insert(0, e) }, func() { l.InsertAll(0, arg) },
				func() { l.MoveObject(0, e) }, func() { l.Move(0, 0) }, func() { l.Set(0, e) }, func() { l.RemoveAt(0) },
				func() { l.Remove(e) }, func() { l.RemoveAll(arg) }, func() { l.RemoveRange(0, 1) }, func() { l.Clear() },
			}
			c.Logf("op %d %v", op, e)
			switch {
			case op < len(muts):
				if try(muts[op]) == nil {
					t.Fatalf("modification %d of an immutable list is accepted", op)
				}
			case op == 12:
				other.InsertAll(rapid.IntRange(0, other.Size()).Draw(t, "i"), l)
			case op == 13:
				other.AddAll(l)
				uniq.AddAll(l)
			case op == 14:
				other.RemoveAll(l)
			}
			checkList(t, l, m, backing, name, "immutable")
			checkList(t, whole, wm, backing, name, "immutable list sharing the array")
		}
		if n > 0 {
			c.Nontrivial()
		}
	})
}

func TestP01_BinarySearch(t *testing.T) {
	runProp(t, "binary search in sorted lists against linear search; non-trivial when the list has 2 elements or more", 2000, func(t *rapid.T, c *Rec) {
		xs := rapid.SliceOfN(rapid.IntRange(0, 12), 0, 12).Draw(t, "xs")
		l := ecore.NewEmptyBasicEList()
		for i := range xs {
			for j := i; j > 0 && xs[j] < xs[j-1]; j-- {
				xs[j], xs[j-1] = xs[j-1], xs[j]
			}
		}
		for _, x := range xs {
			l.Add(x)
		}
		k := rapid.IntRange(-1, 13).Draw(t, "k")
		c.Logf("%v %d", xs, k)
		wi, wf := len(xs), false
		for i, x := range xs {
			if x >= k {
				wi, wf = i, x == k
				break
			}
		}
		gi, gf := ecore.BinarySearch(l, k, func(a, b any) int { return a.(int) - b.(int) })
		if gi != wi || gf != wf {
			t.Fatalf("search of %d in %v gives %d %v", k, xs, gi, gf)
		}
		if len(xs) > 1 {
			c.Nontrivial()
		}
	})
}
