package harness

// P15 : binary format

import (
	"bytes"
	"strings"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

func TestP15_Resources(t *testing.T) {
	runProp(t, "at least 3 objects with attribute values and references were saved and loaded", 500, func(t *rapid.T, c *Rec) {
		idKind := rapid.IntRange(0, 4).Draw(t, "idmanager")
		m := genModel(t, ModelOpts{Pkgs: 2, DTs: allDTs, Maps: true, OddNames: true, ContBias: rapid.Bool().Draw(t, "contbias"), Dense: true, IDs: idKind == 4})
		o := graphOpts{Resources: 3, Roots: 3, MaxObjs: 14, CrossRefs: true, CrossOnlyResolving: true, Files: true, CrossCont: true, OddURIs: true, Ext: "bin"}
		options := map[string]any{}
		if rapid.Bool().Draw(t, "idattr") {
			options[ecore.BINARY_OPTION_ID_ATTRIBUTE] = true
		}
		if rapid.Bool().Draw(t, "nsattr") {
			options[ecore.BINARY_OPTION_NAMESPACE_ATTRIBUTE] = rapid.Bool().Draw(t, "ns")
		}
		withIDs := false
		switch idKind {
		case 1:
			o.NewID, withIDs = func() ecore.EObjectIDManager { return ecore.NewIncrementalIDManager() }, true
		case 2:
			o.NewID, withIDs = func() ecore.EObjectIDManager { return ecore.NewUUIDManager() }, true
		case 3:
			o.NewID, withIDs = func() ecore.EObjectIDManager { return ecore.NewULIDManager() }, true
		}
		if withIDs {
			// unique identifiers are kept only when they are saved
			withIDs = options[ecore.BINARY_OPTION_ID_ATTRIBUTE] == true
			o.CrossRefs, o.CrossCont = withIDs, withIDs
		}
		g := genGraph(t, m, o)
		c.Logf("%s%s", m, g.dump())
		g.labels(c)
		if len(g.objs) >= 3 && g.attrs > 0 && g.refs > 0 {
			c.Nontrivial()
		}
		data := g.save(options)
		if again := g.save(options); !equalData(data, again) {
			t.Fatalf("saving twice gives different data")
		}
		h := g.load(data, options)
		if rapid.Bool().Draw(t, "saveloaded") {
			// what was loaded is saved and loaded again, before anything is resolved
			c.Label("savedAgain")
			h = g.load(h.save(options), options)
		}
		d1, d2 := &dumper{m: m, rs: g.rs}, &dumper{m: m, rs: h.rs}
		if withIDs {
			c.Label("identifiers")
			ids := func(o ecore.EObject) any {
				if r := o.EResource(); r != nil {
					return r.GetObjectIDManager().GetID(o)
				}
				return nil
			}
			d1.id, d2.id = ids, ids
		}
		a, b := d1.dump(g.res), d2.dump(h.res)
		if a != b {
			t.Fatalf("loaded model differs: %s\n---- original\n%s---- loaded\n%s---- metamodel\n%s", diff(a, b), a, b, m)
		}
		for i, r := range h.res {
			// everything is resolved now
			var w bytes.Buffer
			r.SaveWithWriter(&w, options)
			if e := errorsOf(r); e != "" || !bytes.Equal(w.Bytes(), data[i]) {
				t.Fatalf("saving the loaded model gives different data %s", e)
			}
		}
	})
}

// leaves tells if an object of a tree references an object out of it through a reference which does not resolve proxies :
// such an object is written with the tree.
func (g *Graph) leaves(root ecore.EObject) bool {
	for i, x := range g.objs {
		if !ecore.IsAncestor(root, x) {
			continue
		}
		for _, f := range g.cls[i].All() {
			if !f.Cross() || f.Resolve {
				continue
			}
			for _, y := range (&dumper{}).values(x, f) {
				if o, _ := y.(ecore.EObject); o != nil && !ecore.IsAncestor(root, o) {
					return true
				}
			}
		}
	}
	return false
}

func TestP15_Objects(t *testing.T) {
	runProp(t, "a tree of at least 2 objects, or an object which references others, was encoded alone and decoded", 500, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{Pkgs: 2, DTs: allDTs, Maps: true, OddNames: true, ContBias: true, Dense: true})
		g := genGraph(t, m, graphOpts{Resources: 2, Roots: 2, MaxObjs: 12, CrossRefs: true, CrossOnlyResolving: true, Files: true, CrossCont: true, Ext: "bin"})
		if len(g.objs) == 0 {
			return
		}
		root := pickOne(t, "root", g.objs)
		if g.leaves(root) {
			c.Label("skipped")
			return
		}
		c.Logf("%s%s", m, g.dump())
		c.Logf("encode %v", ecore.GetURI(root))
		var b bytes.Buffer
		if err := ecore.NewBinaryEncoder(root.EResource(), &b, nil).EncodeObject(root); err != nil {
			t.Fatalf("encoding: %v", err)
		}
		rs := newResourceSet(m)
		r := rs.CreateResource(root.EResource().GetURI())
		copied, err := ecore.NewBinaryDecoder(r, bytes.NewReader(b.Bytes()), nil).DecodeObject()
		if err != nil || copied == nil {
			t.Fatalf("decoding: %v %v", copied, err)
		}
		if copied.EResource() != nil || !r.GetContents().Empty() {
			t.Fatalf("decoding an object put it in the resource")
		}
		tree := func(o ecore.EObject) string {
			// references out of the tree are compared by address, in the original resource set
			d := &dumper{m: m, rs: g.rs, path: map[ecore.EObject]string{}}
			d.name(o, "x", nil)
			return d.text()
		}
		x, y := tree(root), tree(copied)
		if x != y {
			t.Fatalf("decoded object differs: %s\n---- original\n%s---- decoded\n%s---- metamodel\n%s", diff(x, y), x, y, m)
		}
		if bytes.Count([]byte(x), []byte("\n")) > 3 {
			c.Nontrivial()
		}
	})
}

func TestP15_Metamodels(t *testing.T) {
	runProp(t, "a generated metamodel (an instance of Ecore) was saved and loaded, and instances of the loaded one were created", 300, func(t *rapid.T, c *Rec) {
		metamodelRoundTrip(t, c, "bin", nil)
	})
}

func equalData(a, b [][]byte) bool {
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}

func TestP15_Sizes(t *testing.T) {
	sizes := []int{0, 1, 15, 16, 31, 32, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 70000}
	bytesSizes := append(append([]int{}, sizes...), 1<<20-1, 1<<20, 1<<20+1, 2<<20, 3<<20+7)
	runProp(t, "numbers of objects, of references, of texts and lengths of texts and byte arrays around the limits of the encodings; one of them at least was above 127", 40, func(t *rapid.T, c *Rec) {
		fac := ecore.GetFactory()
		p := fac.CreateEPackage()
		p.SetName("p")
		p.SetNsURI("http://verif/sizes")
		k := fac.CreateEClass()
		k.SetName("K")
		p.GetEClassifiers().Add(k)
		add := func(name string, f ecore.EStructuralFeature, ty ecore.EClassifier, many bool) ecore.EStructuralFeature {
			f.SetName(name)
			f.SetEType(ty)
			if many {
				f.SetUpperBound(-1)
				f.SetUnique(false)
			}
			k.GetEStructuralFeatures().Add(f)
			return f
		}
		child := fac.CreateEReference()
		child.SetContainment(true)
		child.SetResolveProxies(rapid.Bool().Draw(t, "resolve"))
		add("children", child, k, true)
		ref := add("refs", fac.CreateEReference(), k, true)
		num := add("num", fac.CreateEAttribute(), ecore.GetPackage().GetEInt(), false)
		text := add("text", fac.CreateEAttribute(), ecore.GetPackage().GetEString(), false)
		raw := add("raw", fac.CreateEAttribute(), ecore.GetPackage().GetEByteArray(), false)
		texts := add("texts", fac.CreateEAttribute(), ecore.GetPackage().GetEString(), true)
		newKind := func() ecore.EObject { return p.GetEFactoryInstance().Create(k) }
		size := func(label string, max int) int {
			n := pickOne(t, label, sizes)
			if n > max {
				n = max - rapid.IntRange(0, 3).Draw(t, label)
			}
			if n > 127 {
				c.Nontrivial()
			}
			return n
		}
		root := newKind()
		n := size("objects", 3000)
		objs := []ecore.EObject{root}
		for i := 0; i < n; i++ {
			o := newKind()
			o.ESet(num, i)
			objs = append(objs, o)
			root.EGet(child).(ecore.EList).Add(o)
		}
		refs := root.EGet(ref).(ecore.EList)
		step := rapid.IntRange(1, 7).Draw(t, "step")
		for i, n := 0, size("references", 3000); i < n; i++ {
			refs.Add(objs[(i*step+3)%len(objs)])
		}
		for i, n := 0, size("texts", 70000); i < n; i++ {
			root.EGet(texts).(ecore.EList).Add(string(rune('a' + i%26)))
		}
		unit := pickOne(t, "unit", []string{"a", "\u00e9", "\x00"})
		root.ESet(text, strings.Repeat(unit, size("text", 70000)))
		data := make([]byte, pickOne(t, "bytes", bytesSizes))
		for i := range data {
			data[i] = byte(i * 7)
		}
		root.ESet(raw, data)
		c.Logf("%d objects, %d references, %d texts, text of %d, %d bytes", n, refs.Size(), root.EGet(texts).(ecore.EList).Size(), len(root.EGet(text).(string)), len(data))
		rs := ecore.CreateEResourceSet([]ecore.EPackage{p})
		r := rs.CreateResource(ecore.NewURI("mem:/a.bin"))
		r.GetContents().Add(root)
		var b bytes.Buffer
		r.SaveWithWriter(&b, nil)
		r2 := ecore.CreateEResourceSet([]ecore.EPackage{p}).CreateResource(ecore.NewURI("mem:/a.bin"))
		r2.LoadWithReader(bytes.NewReader(b.Bytes()), nil)
		if e := errorsOf(r) + errorsOf(r2); e != "" {
			t.Fatalf("errors: %s", e)
		}
		got := r2.GetContents().Get(0).(ecore.EObject)
		if s := got.EGet(text); s != root.EGet(text) {
			t.Fatalf("text of length %d instead of %d", len(s.(string)), len(root.EGet(text).(string)))
		}
		if x := got.EGet(raw).([]byte); !bytes.Equal(x, data) {
			t.Fatalf("%d bytes instead of %d", len(x), len(data))
		}
		if !sameSeq(got.EGet(texts).(ecore.EList).ToArray(), root.EGet(texts).(ecore.EList).ToArray()) {
			t.Fatalf("%d texts instead of %d", got.EGet(texts).(ecore.EList).Size(), root.EGet(texts).(ecore.EList).Size())
		}
		kids := got.EGet(child).(ecore.EList)
		if kids.Size() != n {
			t.Fatalf("%d objects instead of %d", kids.Size(), n)
		}
		index := map[any]int{got: 0}
		for i, x := range kids.ToArray() {
			index[x] = i + 1
			if v := x.(ecore.EObject).EGet(num); v != i {
				t.Fatalf("object %d has number %v", i, v)
			}
		}
		grefs := got.EGet(ref).(ecore.EList).ToArray()
		want := refs.ToArray()
		if len(grefs) != len(want) {
			t.Fatalf("%d references instead of %d", len(grefs), len(want))
		}
		pos := map[any]int{}
		for i, o := range objs {
			pos[o] = i
		}
		for i, x := range grefs {
			if index[x] != pos[want[i]] {
				t.Fatalf("reference %d is to object %d instead of %d", i, index[x], pos[want[i]])
			}
		}
	})
}
