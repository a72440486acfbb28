package harness

// P09: a metamodel whose packages are in several resources gives the same
// answers when it is loaded and read without resolving it first.

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// a reader reads a class each time an element of the metamodel changes
type reader struct {
	ecore.AbstractEAdapter
	read func()
	deep int
}

func (a *reader) NotifyChanged(n ecore.ENotification) {
	if n.GetEventType() != ecore.REMOVING_ADAPTER {
		if a.deep++; a.deep > 200 {
			panic("reading a class makes it change for ever")
		}
		a.read()
		a.deep--
	}
}

func TestP09_Unresolved(outer *testing.T) {
	runProp(outer, "a class inherits from or refers to a class of another resource", 300, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{Pkgs: 3, DTs: allDTs, Maps: true, MaxClasses: 6, IDs: true})
		decorate := genDecoration(t, m)
		c.Logf("%s", m)
		s := &shared{m: m}
		for i, k := range m.Classes {
			for _, p := range k.All() {
				if p.Owner != nil && p.Owner.Pkg != k.Pkg || !p.Attr && p.Target.Pkg != k.Pkg {
					c.Nontrivial()
				}
			}
			_ = i
		}
		texts := []string{"a"}
		var rs []read
		s.uris = []*ecore.URI{ecore.NewURI("http://host/a/b")}
		for i := rapid.IntRange(1, 12).Draw(t, "reads"); i > 0; i-- {
			r := genRead(t, s, texts)
			c.Logf("%s", r.name)
			rs = append(rs, r)
		}
		listening := rapid.Bool().Draw(t, "adapters")
		c.LabelIf(listening, "adapters which read")
		finish := func() {
			s.emd = ecore.NewExtendedMetaData()
			r := ecore.NewEPackageRegistryImpl()
			for _, p := range m.Pkgs {
				r.RegisterPackage(p)
			}
			s.registry = r
		}
		uri := func(i int) *ecore.URI { return ecore.NewURI(fmt.Sprintf("file:/metamodel/p%d.ecore", i)) }
		// built
		m.rebuild(decorate)
		s.rs = ecore.NewEResourceSetImpl()
		for i, p := range m.Pkgs {
			s.rs.CreateResource(uri(i)).GetContents().Add(p)
		}
		finish()
		for _, c := range m.Classes {
			c.All()
		}
		var want []string
		for _, r := range rs {
			if p := try(func() { want = append(want, answers(r.f(s))) }); p != nil {
				t.Fatalf("%s: panic %v", r.name, p)
			}
		}
		var saved [][]byte
		for it := s.rs.GetResources().Iterator(); it.HasNext(); {
			r := it.Next().(ecore.EResource)
			var b bytes.Buffer
			r.SaveWithWriter(&b, nil)
			if e := errorsOf(r); e != "" {
				t.Fatalf("the metamodel can't be saved: %s", e)
			}
			saved = append(saved, b.Bytes())
		}
		// loaded
		s.rs = ecore.NewEResourceSetImpl()
		pkgs := make([]ecore.EPackage, len(saved))
		for _, i := range rapid.Permutation(indices(len(saved))).Draw(t, "order") {
			r := s.rs.CreateResource(uri(i))
			r.LoadWithReader(bytes.NewReader(saved[i]), nil)
			if e := errorsOf(r); e != "" {
				t.Fatalf("the metamodel can't be loaded: %s", e)
			}
			pkgs[i] = r.GetContents().Get(0).(ecore.EPackage)
		}
		m.rebind(pkgs)
		finish()
		if listening {
			for _, k := range m.Classes {
				e := k.E
				a := &reader{}
				a.read = func() {
					e.GetEAllSuperTypes()
					e.GetEAllStructuralFeatures()
					e.GetEAllOperations()
					e.GetEAllAttributes()
					e.GetEAllReferences()
					e.GetEContainmentFeatures()
					e.GetEStructuralFeatureFromName("f")
				}
				e.EAdapters().Add(a)
				for it := e.GetEOperations().Iterator(); it.HasNext(); {
					it.Next().(ecore.EObject).EAdapters().Add(a)
				}
				for it := e.GetEStructuralFeatures().Iterator(); it.HasNext(); {
					it.Next().(ecore.EObject).EAdapters().Add(a)
				}
			}
		}
		for i, r := range rs {
			var got string
			if p := try(func() { got = answers(r.f(s)) }); p != nil {
				t.Fatalf("loaded: %s: panic %v", r.name, p)
			}
			if got != want[i] {
				t.Fatalf("loaded: %s: %s instead of %s", r.name, clip([]byte(got)), clip([]byte(want[i])))
			}
		}
	})
}
