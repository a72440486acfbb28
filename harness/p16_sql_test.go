package harness

// P16 : SQL databases

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// SQLite does not keep the sign of zero
var noSign = strings.NewReplacer("float64(8000000000000000)", "float64(0)", "float32(80000000)", "float32(0)")

// the tables of a database are named after the classes of the objects, without
// their package
func TestP16_Namesakes(t *testing.T) {
	save := func(name string) string {
		var ps []ecore.EPackage
		for i, n := range []string{"Part", name} {
			p := ecore.GetFactory().CreateEPackage()
			p.SetName(fmt.Sprint("p", i))
			p.SetNsURI(fmt.Sprint("http://p", i))
			k := ecore.GetFactory().CreateEClass()
			k.SetName(n)
			p.GetEClassifiers().Add(k)
			ps = append(ps, p)
		}
		rs := ecore.CreateEResourceSet(ps)
		r := rs.CreateResource(ecore.NewURI("mem:/r.sqlite"))
		for _, p := range ps {
			r.GetContents().Add(p.GetEFactoryInstance().Create(p.GetEClassifiers().Get(0).(ecore.EClass)))
		}
		r.SaveWithWriter(&bytes.Buffer{}, map[string]any{ecore.SQL_OPTION_IN_MEMORY_DATABASE: true})
		return errorsOf(r)
	}
	if e := save("Other"); e != "" {
		t.Fatalf("two classes of two packages: %s", e)
	}
	if e := save("Part"); strings.Contains(e, "already exists") {
		knownFinding("P16", "sql-tables-of-namesakes: objects whose classes have the same name in two packages can't be saved in one database: "+e)
	} else if e != "" {
		t.Fatalf("two classes with the same name: %s", e)
	}
}

func TestP16_Resources(t *testing.T) {
	runProp(t, "at least 3 objects with attribute values and references were saved and loaded", 60, func(t *rapid.T, c *Rec) {
		idKind := rapid.IntRange(0, 4).Draw(t, "idmanager")
		m := genModel(t, ModelOpts{Pkgs: 2, NoNamesakes: true, DTs: allDTs, Maps: true, OddNames: true, ContBias: rapid.Bool().Draw(t, "contbias"), Dense: true, IDs: idKind == 4})
		o := graphOpts{Resources: 2, Roots: 2, MaxObjs: 14, CrossRefs: true, CrossOnlyResolving: true, Files: true, OddURIs: true, Ext: "sqlite"}
		save := map[string]any{}
		load := map[string]any{}
		if rapid.Bool().Draw(t, "containers") {
			save[ecore.SQL_OPTION_CONTAINER_ID] = true
		}
		if rapid.Bool().Draw(t, "version") {
			save[ecore.SQL_OPTION_CODEC_VERSION] = int64(rapid.IntRange(1, 3).Draw(t, "codec version"))
			load[ecore.SQL_OPTION_CODEC_VERSION] = save[ecore.SQL_OPTION_CODEC_VERSION]
		}
		save[ecore.SQL_OPTION_IN_MEMORY_DATABASE] = !oneIn(t, 3, "saved from a file")
		load[ecore.SQL_OPTION_IN_MEMORY_DATABASE] = !oneIn(t, 3, "loaded in a file")
		keep := oneIn(t, 4, "keep defaults")
		if keep {
			save[ecore.SQL_OPTION_KEEP_DEFAULTS] = true
		}
		withIDs := false
		switch idKind {
		case 1:
			o.NewID, withIDs = func() ecore.EObjectIDManager { return ecore.NewIncrementalIDManager() }, true
		case 2:
			o.NewID, withIDs = func() ecore.EObjectIDManager { return ecore.NewUUIDManager() }, true
		case 3:
			o.NewID, withIDs = func() ecore.EObjectIDManager { return ecore.NewULIDManager() }, true
		}
		if withIDs {
			name := pickOne(t, "column", []string{"", "uuid", "key", "my-id"})
			if name != "" {
				save[ecore.SQL_OPTION_OBJECT_ID] = name
			}
			withIDs = name != ""
			o.CrossRefs = withIDs
		}
		g := genGraph(t, m, o)
		c.Logf("%s%ssave %v load %v", m, g.dump(), save, load)
		g.labels(c)
		if len(g.objs) >= 3 && g.attrs > 0 && g.refs > 0 {
			c.Nontrivial()
		}
		data := g.save(save)
		h := g.load(data, load)
		d1, d2 := &dumper{m: m, rs: g.rs, all: keep}, &dumper{m: m, rs: h.rs, all: keep}
		if withIDs {
			c.Label("identifiers")
			ids := func(o ecore.EObject) any {
				if r := o.EResource(); r != nil {
					return r.GetObjectIDManager().GetID(o)
				}
				return nil
			}
			d1.id, d2.id = ids, ids
		}
		a, b := noSign.Replace(d1.dump(g.res)), noSign.Replace(d2.dump(h.res))
		if a != b {
			t.Fatalf("loaded model differs: %s\n---- original\n%s---- loaded\n%s---- metamodel\n%s", diff(a, b), a, b, m)
		}
	})
}
