package harness

// Generated metamodels as instances of Ecore, saved and loaded

import (
	"fmt"
	"sort"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// what else than the plain features makes a metamodel
var ecoreMore = map[string][]string{
	"EAnnotation":             {"details"},
	"EStringToStringMapEntry": {"key", "value"},
	"EClass":                  {"eSuperTypes"},
	"EClassifier":             {"instanceTypeName"},
	"EEnumLiteral":            {"literal"},
}

var ecoreFull = buildEcoreModel(false, ecoreMore)

// annotate adds annotations, operations and data types to a generated metamodel
func annotate(t *rapid.T, m *Model) {
	fac := ecore.GetFactory()
	var elems []ecore.EModelElement
	for _, p := range m.Pkgs {
		elems = append(elems, p)
		for it := p.GetEClassifiers().Iterator(); it.HasNext(); {
			elems = append(elems, it.Next().(ecore.EModelElement))
		}
	}
	for _, c := range m.Classes {
		for n := rapid.IntRange(0, 1).Draw(t, "nops"); n > 0; n-- {
			op := fac.CreateEOperation()
			op.SetName(fmt.Sprintf("op%d", n))
			if rapid.Bool().Draw(t, "typed") {
				op.SetEType(pickOne(t, "optype", m.Classes).E)
			}
			for k := rapid.IntRange(0, 2).Draw(t, "npars"); k > 0; k-- {
				p := fac.CreateEParameter()
				p.SetName(fmt.Sprintf("p%d", k))
				p.SetEType(ecore.GetPackage().GetEString())
				op.GetEParameters().Add(p)
			}
			c.E.GetEOperations().Add(op)
		}
	}
	for n := rapid.IntRange(0, 3).Draw(t, "nannotations"); n > 0; n-- {
		a := fac.CreateEAnnotation()
		a.SetSource(fmt.Sprintf("http://verif/annotation%d", n))
		for k := rapid.IntRange(0, 2).Draw(t, "ndetails"); k > 0; k-- {
			a.GetDetails().Put(fmt.Sprintf("k%d", k), genText(t, AlphaXML))
		}
		if rapid.Bool().Draw(t, "refs") {
			a.GetReferences().Add(pickOne(t, "annotationref", m.Classes).E)
		}
		pickOne(t, "annotated", elems).GetEAnnotations().Add(a)
	}
}

// views of a metamodel : names of features with identifiers, identifiers of classifiers, default values
func viewsOf(p ecore.EPackage) string {
	var s []string
	for it := p.GetEClassifiers().Iterator(); it.HasNext(); {
		c, ok := it.Next().(ecore.EClass)
		if !ok {
			continue
		}
		l := c.GetName() + ":"
		for i := c.GetEAllStructuralFeatures().Iterator(); i.HasNext(); {
			f := i.Next().(ecore.EStructuralFeature)
			ty := "?"
			if f.GetEType() != nil {
				ty = f.GetEType().GetName()
			}
			l += fmt.Sprintf(" %d=%s(%s)%s", c.GetFeatureID(f), f.GetName(), ty, fmtValue(f.GetDefaultValue()))
		}
		s = append(s, l)
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

// metamodelRoundTrip saves a generated metamodel, each package in its resource, loads it and compares. Then instances of
// the loaded classes are created.
func metamodelRoundTrip(t *rapid.T, c *Rec, ext string, options map[string]any) {
	m := genModel(t, ModelOpts{Pkgs: 2, DTs: allDTs, Maps: true, OddNames: true, MaxClasses: 4})
	annotate(t, m)
	g := &Graph{t: t, m: ecoreFull, rs: ecore.NewEResourceSetImpl()}
	for i, p := range m.Pkgs {
		g.o.Ext = ext
		g.addResource(fmt.Sprintf("p%d", i))
		g.res[i].GetContents().Add(p)
	}
	c.Logf("%s", m)
	if len(m.Classes) > 2 {
		c.Nontrivial()
	}
	a := g.dump()
	data := g.save(options)
	h := &Graph{t: t, m: ecoreFull, o: g.o}
	h = g.load(data, options)
	d := &dumper{m: ecoreFull, rs: h.rs}
	b := d.dump(h.res)
	if a != b {
		t.Fatalf("loaded metamodel differs: %s\n---- original\n%s---- loaded\n%s", diff(a, b), a, b)
	}
	for i := range h.res {
		p, q := m.Pkgs[i], h.res[i].GetContents().Get(0).(ecore.EPackage)
		if x, y := viewsOf(p), viewsOf(q); x != y {
			t.Fatalf("views of the loaded metamodel differ: %s\n", diff(x, y))
		}
		for it := q.GetEClassifiers().Iterator(); it.HasNext(); {
			if k, ok := it.Next().(ecore.EClass); ok && !k.IsAbstract() {
				o := q.GetEFactoryInstance().Create(k)
				for i := 0; i < k.GetFeatureCount(); i++ {
					f := k.GetEStructuralFeature(i)
					if o.EIsSet(f) {
						t.Fatalf("%s.%s of a new object is set", k.GetName(), f.GetName())
					}
				}
			}
		}
	}
}
