package harness

// P16 : databases opened by the caller

import (
	"fmt"
	"os"
	"strings"
	"sync/atomic"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
	"zombiezen.com/go/sqlite"
	"zombiezen.com/go/sqlite/sqlitex"
)

// sqlIDs is an identifier manager of the caller of a codec
type sqlIDs struct {
	packages map[ecore.EPackage]int64
	classes  map[ecore.EClass]int64
	objects  map[ecore.EObject]int64
	literals map[ecore.EEnumLiteral]int64
	// objects which had an identifier before they were saved
	given map[ecore.EObject]int64
}

func newSQLIDs() *sqlIDs {
	return &sqlIDs{map[ecore.EPackage]int64{}, map[ecore.EClass]int64{}, map[ecore.EObject]int64{}, map[ecore.EEnumLiteral]int64{}, map[ecore.EObject]int64{}}
}

func (s *sqlIDs) SetPackageID(p ecore.EPackage, id int64)         { s.packages[p] = id }
func (s *sqlIDs) SetObjectID(o ecore.EObject, id int64)           { s.objects[o] = id }
func (s *sqlIDs) SetClassID(c ecore.EClass, id int64)             { s.classes[c] = id }
func (s *sqlIDs) SetEnumLiteralID(l ecore.EEnumLiteral, id int64) { s.literals[l] = id }

func (s *sqlIDs) GetPackageID(p ecore.EPackage) (int64, bool) { id, ok := s.packages[p]; return id, ok }
func (s *sqlIDs) GetClassID(c ecore.EClass) (int64, bool)     { id, ok := s.classes[c]; return id, ok }
func (s *sqlIDs) GetEnumLiteralID(l ecore.EEnumLiteral) (int64, bool) {
	id, ok := s.literals[l]
	return id, ok
}
func (s *sqlIDs) GetObjectID(o ecore.EObject) (int64, bool) {
	if id, ok := s.objects[o]; ok {
		return id, true
	}
	return s.given[o], false
}

func findID[K comparable](m map[K]int64, id int64) (k K, ok bool) {
	for k, i := range m {
		if i == id {
			return k, true
		}
	}
	return
}

func (s *sqlIDs) GetPackageFromID(id int64) (ecore.EPackage, bool) { return findID(s.packages, id) }
func (s *sqlIDs) GetClassFromID(id int64) (ecore.EClass, bool)     { return findID(s.classes, id) }
func (s *sqlIDs) GetObjectFromID(id int64) (ecore.EObject, bool)   { return findID(s.objects, id) }
func (s *sqlIDs) GetEnumLiteralFromID(id int64) (ecore.EEnumLiteral, bool) {
	return findID(s.literals, id)
}

var poolID atomic.Int64

func TestP16_Pools(t *testing.T) {
	runProp(t, "at least 3 objects with attribute values and references were saved in and loaded from databases of the test", 40, func(t *rapid.T, c *Rec) {
		idKind := rapid.IntRange(0, 4).Draw(t, "idmanager")
		m := genModel(t, ModelOpts{Pkgs: 2, NoNamesakes: true, DTs: allDTs, Maps: true, OddNames: true, ContBias: rapid.Bool().Draw(t, "contbias"), Dense: true, IDs: idKind == 4})
		o := graphOpts{Resources: 2, Roots: 2, MaxObjs: 10, CrossRefs: true, CrossOnlyResolving: true, Ext: "sqlite"}
		save := map[string]any{}
		if rapid.Bool().Draw(t, "containers") {
			save[ecore.SQL_OPTION_CONTAINER_ID] = true
		}
		version := int64(1)
		if rapid.Bool().Draw(t, "version") {
			version = int64(rapid.IntRange(1, 3).Draw(t, "codec version"))
			save[ecore.SQL_OPTION_CODEC_VERSION] = version
		}
		withIDs := idKind > 0 && idKind < 4
		switch idKind {
		case 1:
			o.NewID = func() ecore.EObjectIDManager { return ecore.NewIncrementalIDManager() }
		case 2:
			o.NewID = func() ecore.EObjectIDManager { return ecore.NewUUIDManager() }
		case 3:
			o.NewID = func() ecore.EObjectIDManager { return ecore.NewULIDManager() }
		}
		if withIDs {
			save[ecore.SQL_OPTION_OBJECT_ID] = pickOne(t, "column", []string{"uuid", "key", "my-id"})
		}
		g := genGraph(t, m, o)
		inFile := oneIn(t, 3, "file")
		c.Logf("%s%ssave %v file %v", m, g.dump(), save, inFile)
		g.labels(c)
		if len(g.objs) >= 3 && g.attrs > 0 && g.refs > 0 {
			c.Nontrivial()
		}
		// databases
		var pools []*sqlitex.Pool
		open := func() {
			path := fmt.Sprintf("file:pools-%d?mode=memory&cache=shared", poolID.Add(1))
			flags := sqlite.OpenReadWrite | sqlite.OpenCreate | sqlite.OpenURI
			if inFile {
				path = fmt.Sprintf("%s/pool-%d.sqlite", filesDir, poolID.Add(1))
				flags = sqlite.OpenReadWrite | sqlite.OpenCreate | sqlite.OpenWAL
			}
			p, err := sqlitex.NewPool(path, sqlitex.PoolOptions{Flags: flags})
			if err != nil {
				t.Fatalf("harness: %v", err)
			}
			pools = append(pools, p)
		}
		defer func() {
			for _, p := range pools {
				if err := p.Close(); err != nil {
					t.Fatalf("the database can't be closed: %v", err)
				}
			}
			if inFile {
				for i := range pools {
					n := fmt.Sprintf("%s/pool-%d.sqlite", filesDir, poolID.Load()-int64(i))
					os.Remove(n)
					os.Remove(n + "-wal")
					os.Remove(n + "-shm")
				}
			}
		}()
		// save
		var saved []*sqlIDs
		for _, r := range g.res {
			open()
			options := map[string]any{}
			for k, v := range save {
				options[k] = v
			}
			var ids *sqlIDs
			if rapid.Bool().Draw(t, "identifiers of the caller") {
				c.Label("identifier manager")
				ids = newSQLIDs()
				options[ecore.SQL_OPTION_SQL_ID_MANAGER] = ids
				if rapid.Bool().Draw(t, "given") {
					n := int64(100)
					for it := r.GetAllContents(); it.HasNext(); {
						x := it.Next().(ecore.EObject)
						n += int64(pickOne(t, "given id", []int{1, 1, 5}))
						ids.given[x] = n
					}
				}
			}
			saved = append(saved, ids)
			ecore.NewSQLDBEncoder(pools[len(pools)-1], r, options).EncodeResource()
			if e := errorsOf(r); e != "" {
				t.Fatalf("saving %v: %s", r.GetURI(), e)
			}
			if ids != nil {
				for it := r.GetAllContents(); it.HasNext(); {
					x := it.Next().(ecore.EObject)
					id, ok := ids.objects[x]
					if ok && ids.given[x] != 0 && ids.given[x] != id {
						t.Fatalf("the object which had the identifier %d is saved with %d", ids.given[x], id)
					}
				}
			}
		}
		// load
		for n := rapid.IntRange(1, 3).Draw(t, "loads"); n > 0; n-- {
			h := &Graph{t: t, m: m, o: o, rs: newResourceSet(m)}
			for _, r := range g.res {
				l := h.rs.CreateResource(r.GetURI())
				if o.NewID != nil {
					l.SetObjectIDManager(o.NewID())
				}
				h.res = append(h.res, l)
			}
			load := map[string]any{ecore.SQL_OPTION_CODEC_VERSION: version}
			if version == 1 && oneIn(t, 2, "default version") {
				delete(load, ecore.SQL_OPTION_CODEC_VERSION)
			} else if oneIn(t, 2, "int version") {
				load[ecore.SQL_OPTION_CODEC_VERSION] = int(version)
			}
			kind := pickOne(t, "kind", []string{"all", "all", "without features", "other version"})
			c.Label(kind)
			c.Logf("load %s", kind)
			switch kind {
			case "without features":
				load[ecore.SQL_OPTION_DECODER_WITH_FEATURES] = false
				if rapid.Bool().Draw(t, "without objects") {
					load[ecore.SQL_OPTION_DECODER_WITH_OBJECTS] = false
				}
			case "other version":
				load[ecore.SQL_OPTION_CODEC_VERSION] = version + int64(pickOne(t, "other", []int{1, -1, 7}))
			}
			loaded := make([]*sqlIDs, len(g.res))
			for _, i := range rapid.Permutation(indices(len(g.res))).Draw(t, "order") {
				options := map[string]any{}
				for k, v := range load {
					options[k] = v
				}
				if rapid.Bool().Draw(t, "identifiers of the caller") {
					loaded[i] = newSQLIDs()
					options[ecore.SQL_OPTION_SQL_ID_MANAGER] = loaded[i]
				}
				ecore.NewSQLDBDecoder(pools[i], h.res[i], options).DecodeResource()
				e := errorsOf(h.res[i])
				if kind == "other version" {
					if !strings.Contains(e, "version") || h.res[i].GetContents().Size() != 0 {
						t.Fatalf("loading a database of version %d with %v: error %q, %d roots", version, load, e, h.res[i].GetContents().Size())
					}
				} else if e != "" {
					t.Fatalf("loading %v with %v: %s", h.res[i].GetURI(), load, e)
				}
			}
			if kind == "other version" {
				continue
			}
			if kind == "without features" {
				for i, r := range g.res {
					if a, b := r.GetContents().Size(), h.res[i].GetContents().Size(); a != b {
						t.Fatalf("%d roots loaded instead of %d", b, a)
					}
					for j := 0; j < r.GetContents().Size(); j++ {
						x, y := r.GetContents().Get(j).(ecore.EObject), h.res[i].GetContents().Get(j).(ecore.EObject)
						if x.EClass() != y.EClass() {
							t.Fatalf("root %d is a %s instead of a %s", j, y.EClass().GetName(), x.EClass().GetName())
						}
						for it := y.EClass().GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
							if f := it.Next().(ecore.EStructuralFeature); y.EIsSet(f) {
								t.Fatalf("root %d, loaded without features, has a value of %s", j, f.GetName())
							}
						}
						if withIDs {
							if a, b := r.GetObjectIDManager().GetID(x), h.res[i].GetObjectIDManager().GetID(y); fmt.Sprint(a) != fmt.Sprint(b) {
								t.Fatalf("root %d has the identifier %v instead of %v", j, b, a)
							}
						}
					}
				}
				continue
			}
			d1, d2 := &dumper{m: m, rs: g.rs}, &dumper{m: m, rs: h.rs}
			if withIDs {
				ids := func(o ecore.EObject) any {
					if r := o.EResource(); r != nil {
						return r.GetObjectIDManager().GetID(o)
					}
					return nil
				}
				d1.id, d2.id = ids, ids
			}
			a, b := noSign.Replace(d1.dump(g.res)), noSign.Replace(d2.dump(h.res))
			if a != b {
				t.Fatalf("loaded model differs: %s\n---- original\n%s---- loaded\n%s---- metamodel\n%s", diff(a, b), a, b, m)
			}
			// objects have the same identifier in both managers
			for i := range g.res {
				if saved[i] == nil || loaded[i] == nil {
					continue
				}
				for it := g.res[i].GetAllContents(); it.HasNext(); {
					x := it.Next().(ecore.EObject)
					y := h.res[i].GetEObject(g.res[i].GetURIFragment(x))
					if y == nil {
						continue // contained by a transient feature
					}
					id1, ok1 := saved[i].objects[x]
					id2, ok2 := loaded[i].objects[y]
					if ok1 && ok2 && id1 != id2 {
						t.Fatalf("the object %s is saved with identifier %d and loaded with %d", ecore.GetURI(x), id1, id2)
					}
					if ok1 != ok2 {
						t.Fatalf("the object %s has an identifier: saved %v loaded %v", ecore.GetURI(x), ok1, ok2)
					}
				}
			}
		}
	})
}
