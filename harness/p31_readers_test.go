package harness

// P31: threads which only read a shared metamodel. Each case makes a metamodel
// from the same description several times: once to compute the answers one
// after the other, then fresh ones that threads read together. The harness is
// compiled with the race detector.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// shared is what the threads read
type shared struct {
	m        *Model
	emd      *ecore.ExtendedMetaData
	registry ecore.EPackageRegistry
	rs       ecore.EResourceSet
	uris     []*ecore.URI
	docs     [][]byte
	docURIs  []string
	docExt   string
}

// A read gives what it saw : texts, numbers, model elements and lists
type read struct {
	name string
	f    func(s *shared) []any
}

func elems(l ecore.EList) []any {
	r := []any{l.Size()}
	for it := l.Iterator(); it.HasNext(); {
		r = append(r, it.Next())
	}
	return r
}

func elementName(e any) string {
	switch x := e.(type) {
	case nil:
		return "nil"
	case ecore.EPackage:
		return "package " + x.GetName()
	case ecore.EStructuralFeature:
		n := ""
		if c := x.GetEContainingClass(); c != nil {
			n = c.GetName()
		}
		return "feature " + n + "." + x.GetName()
	case ecore.EOperation:
		return "operation " + x.GetEContainingClass().GetName() + "." + x.GetName()
	case ecore.EEnumLiteral:
		return "literal " + x.GetName()
	case ecore.EFactory:
		return "factory of " + elementName(x.GetEPackage())
	case ecore.ENamedElement:
		return "element " + x.GetName()
	case ecore.EObject:
		return "object of " + x.EClass().GetName()
	case ecore.EResource:
		return "resource " + x.GetURI().String()
	case *ecore.URI:
		if x == nil {
			return "no uri"
		}
		return "uri " + x.String()
	case ecore.ECodec, ecore.EList, ecore.EPackageRegistry, ecore.ECodecRegistry, ecore.EURIConverter:
		return fmt.Sprintf("%T", x)
	case error:
		return "error " + x.Error()
	case []any:
		s := ""
		for _, y := range x {
			s += elementName(y) + " "
		}
		return "[" + s + "]"
	default:
		return fmtValue(e)
	}
}

func sameRead(a, b any) bool {
	switch x := a.(type) {
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameRead(x[i], y[i]) {
				return false
			}
		}
		return true
	case *ecore.URI, float64, float32, []byte, error:
		return elementName(a) == elementName(b)
	}
	return a == b
}

// genRead draws a read of the metamodel described by m
func genRead(t *rapid.T, s *shared, texts []string) read {
	m := s.m
	p := rapid.IntRange(0, len(m.Pkgs)-1).Draw(t, "package")
	c := pickOne(t, "class", m.Classes)
	d := pickOne(t, "other", m.Classes)
	var f *Feat
	if len(c.All()) > 0 {
		f = pickOne(t, "feature", c.All())
	}
	kinds := []string{"package", "class", "class", "class", "class", "lists", "lists", "lists", "feature", "feature", "feature", "metadata", "metadata", "registry", "uri", "enum", "instance", "instance", "element", "contents", "resource", "global"}
	if len(s.docs) > 0 {
		kinds = append(kinds, "load")
	}
	kind := rapid.SampledFrom(kinds).Draw(t, "kind")
	n := rapid.IntRange(0, 9).Draw(t, "n")
	if kind == "feature" && f == nil || kind == "enum" && len(m.Enums) == 0 {
		kind = "lists"
	}
	r := read{name: kind}
	named := func(format string, a ...any) { r.name = fmt.Sprintf(format, a...) }
	switch kind {
	case "package":
		named("package %d, %d", p, n)
		r.f = func(s *shared) []any {
			p := s.m.Pkgs[p]
			switch n {
			case 0, 1, 2, 3:
				return []any{p.GetEClassifier(c.Ident())}
			case 4:
				return []any{p.GetEClassifier("unknown")}
			case 5:
				return append([]any{p.GetEClassifiers()}, elems(p.GetEClassifiers())...)
			case 6:
				return []any{p.GetEFactoryInstance(), p.GetEFactoryInstance().GetEPackage()}
			case 7:
				return append([]any{p.GetESubPackages(), p.GetESuperPackage()}, elems(p.GetESubPackages())...)
			case 8:
				return []any{p.GetNsURI(), p.GetNsPrefix(), p.GetName()}
			default:
				return []any{p.EClass(), p.EResource(), p.EContainer()}
			}
		}
	case "class":
		named("class %s, %d", c.Name, n)
		x := rapid.IntRange(-1, 10).Draw(t, "x")
		r.f = func(s *shared) []any {
			k := c.E
			switch n {
			case 0:
				return []any{k.GetFeatureCount()}
			case 1:
				return []any{k.GetEStructuralFeature(x)}
			case 2:
				if f == nil {
					return []any{k.GetEStructuralFeatureFromName("unknown")}
				}
				return []any{k.GetEStructuralFeatureFromName(f.Name)}
			case 3:
				if f == nil {
					return nil
				}
				return []any{k.GetFeatureID(f.E)}
			case 4:
				return []any{k.IsSuperTypeOf(d.E), d.E.IsSuperTypeOf(k)}
			case 5:
				return []any{k.GetEIDAttribute()}
			case 6:
				return []any{k.GetOperationCount(), k.GetEOperation(x)}
			case 7:
				return []any{k.GetEPackage(), k.GetClassifierID(), k.GetName(), k.IsAbstract(), k.IsInterface()}
			case 8:
				if o := k.GetEOperation(0); o != nil {
					return []any{k.GetOperationID(o), k.GetOverride(o), o.GetEType()}
				}
				return nil
			default:
				return []any{k.GetDefaultValue(), k.GetInstanceTypeName(), ecore.IsMapEntry(k)}
			}
		}
	case "lists":
		n = rapid.IntRange(0, 13).Draw(t, "list")
		named("list %d of %s", n, c.Name)
		r.f = func(s *shared) []any {
			k := c.E
			var l ecore.EList
			switch n {
			case 0:
				l = k.GetEAllStructuralFeatures()
			case 1:
				l = k.GetEAllAttributes()
			case 2:
				l = k.GetEAllReferences()
			case 3:
				l = k.GetEAllContainments()
			case 4:
				l = k.GetEAllCrossReferences()
			case 5:
				l = k.GetEAllOperations()
			case 6:
				l = k.GetEAllSuperTypes()
			case 7:
				l = k.GetEAttributes()
			case 8:
				l = k.GetEReferences()
			case 9:
				l = k.GetEContainmentFeatures()
			case 10:
				l = k.GetECrossReferenceFeatures()
			case 11:
				l = k.GetEStructuralFeatures()
			case 12:
				l = k.GetESuperTypes()
			default:
				l = k.GetEOperations()
			}
			return append([]any{l}, elems(l)...)
		}
	case "feature":
		named("feature %s.%s, %d", c.Name, f.Name, n)
		r.f = func(s *shared) []any {
			switch n {
			case 0, 1, 2:
				return []any{f.E.GetDefaultValue(), f.E.GetDefaultValueLiteral()}
			case 3:
				return []any{f.E.GetEType(), f.E.GetLowerBound(), f.E.GetUpperBound(), f.E.IsMany(), f.E.IsRequired()}
			case 4:
				return []any{f.E.GetEContainingClass(), f.E.IsTransient(), f.E.IsUnsettable(), f.E.IsDerived()}
			case 5, 6:
				if a, ok := f.E.(ecore.EAttribute); ok {
					return []any{a.GetEAttributeType(), a.IsID(), a.GetEAttributeType().GetDefaultValue()}
				}
				q := f.Ref()
				return []any{q.GetEReferenceType(), q.IsContainment(), q.IsContainer(), q.IsResolveProxies(), q.GetEOpposite()}
			case 7:
				return []any{ecore.IsBidirectional(f.E), ecore.IsContainer(f.E), ecore.IsContains(f.E), ecore.IsProxy(f.E), ecore.IsMapType(f.E)}
			case 8:
				if q, ok := f.E.(ecore.EReference); ok {
					return append([]any{q.GetEKeys()}, elems(q.GetEKeys())...)
				}
				return []any{f.E.GetName()}
			default:
				return []any{f.E.IsChangeable(), f.E.IsVolatile(), f.E.IsUnique(), f.E.IsOrdered(), ecore.IsMapType(f.E)}
			}
		}
	case "metadata":
		named("metadata %d of %s", n, c.Name)
		r.f = func(s *shared) []any {
			switch {
			case n < 2:
				return []any{s.emd.GetName(c.E)}
			case n < 4 && f != nil:
				return []any{s.emd.GetName(f.E)}
			case n < 6 && f != nil:
				return []any{s.emd.GetNamespace(f.E)}
			case n == 6:
				return []any{s.emd.GetType(s.m.Pkgs[p], c.Name)}
			case n == 7:
				return []any{s.emd.GetDocumentRoot(s.m.Pkgs[p])}
			case n == 8:
				return []any{s.emd.GetXMLNSPrefixMapFeature(c.E)}
			default:
				return []any{s.emd.GetXSISchemaLocationMapFeature(c.E)}
			}
		}
	case "registry":
		uri := pickOne(t, "nsuri", []string{"http://verif/p0", "http://verif/p1", "http://verif/none", "http://www.eclipse.org/emf/2002/Ecore"})
		named("registry %d of %s", n, uri)
		r.f = func(s *shared) []any {
			switch {
			case n < 2:
				return []any{s.registry.GetPackage(uri)}
			case n < 4:
				return []any{s.registry.GetFactory(uri)}
			case n < 6:
				return []any{s.rs.GetPackageRegistry(), s.rs.GetPackageRegistry().GetPackage(uri)}
			case n < 8:
				return []any{s.rs.GetCodecRegistry(), s.rs.GetCodecRegistry().GetCodec(ecore.NewURI("file:/a." + pickExt(n)))}
			default:
				return []any{s.rs.GetURIConverter(), s.rs.GetURIConverter().Normalize(ecore.NewURI(uri))}
			}
		}
	case "global":
		named("global %d", n)
		r.f = func(s *shared) []any {
			switch {
			case n < 3:
				return []any{ecore.GetPackageRegistry(), ecore.GetPackageRegistry().GetPackage(ecore.NS_URI)}
			case n < 6:
				return []any{ecore.GetCodecRegistry(), ecore.GetCodecRegistry().GetCodec(ecore.NewURI("a." + pickExt(n)))}
			case n < 8:
				return []any{ecore.GetPackage(), ecore.GetPackage().GetEString()}
			default:
				return []any{ecore.GetFactory(), ecore.GetFactory().GetEPackage()}
			}
		}
	case "uri":
		u := rapid.IntRange(0, len(s.uris)-1).Draw(t, "uri")
		v := rapid.IntRange(0, len(s.uris)-1).Draw(t, "reference")
		text := pickOne(t, "text", texts)
		named("uri %d %d %d %q", n, u, v, text)
		r.f = func(s *shared) []any {
			u, v := s.uris[u], s.uris[v]
			switch n {
			case 0:
				return []any{u.String(), u.Scheme(), u.Host(), u.Port(), u.Path(), u.Query(), u.Fragment()}
			case 1:
				return []any{u.IsAbsolute(), u.IsEmpty(), u.IsOpaque(), u.Authority()}
			case 2:
				return []any{u.Normalize()}
			case 3:
				return []any{u.Resolve(v)}
			case 4:
				return []any{u.Relativize(v)}
			case 5:
				return []any{u.TrimFragment(), u.TrimQuery()}
			case 6:
				return []any{u.Equals(v)}
			case 7:
				return []any{ecore.NewURI(text)}
			default:
				x, err := ecore.ParseURI(text)
				return []any{x, err}
			}
		}
	case "enum":
		e := pickOne(t, "enum", m.Enums)
		i := rapid.IntRange(0, len(e.Lits)-1).Draw(t, "literal")
		named("enum %s, %d", e.Name, n)
		r.f = func(s *shared) []any {
			switch {
			case n < 2:
				return []any{e.E.GetEEnumLiteralByName(e.LitName(i))}
			case n < 4:
				return []any{e.E.GetEEnumLiteralByLiteral(e.Lits[i])}
			case n < 6:
				return []any{e.E.GetEEnumLiteralByValue(e.Values[i])}
			case n == 6:
				return append([]any{e.E.GetELiterals()}, elems(e.E.GetELiterals())...)
			case n == 7:
				return []any{e.E.GetDefaultValue(), e.E.GetEPackage(), e.E.IsSerializable()}
			default:
				fac := e.E.GetEPackage().GetEFactoryInstance()
				return []any{fac.CreateFromString(e.E, e.Lits[i]), fac.ConvertToString(e.E, e.Values[i])}
			}
		}
	case "instance":
		cs := m.Concrete(nil)
		if len(cs) == 0 {
			return genRead(t, s, texts)
		}
		k := pickOne(t, "instantiated", cs)
		named("instance of %s", k.Name)
		type put struct {
			f *Feat
			v any
		}
		var puts []put
		for _, f := range k.All() {
			if f.Attr && !f.Many {
				puts = append(puts, put{f, genValue(t, m, f.DT, AlphaWord)})
			}
		}
		r.f = func(s *shared) []any {
			o := s.m.New(k)
			res := []any{o.EClass()}
			for _, p := range puts {
				res = append(res, o.EGet(p.f.E), o.EIsSet(p.f.E))
				o.ESet(p.f.E, p.v)
			}
			for _, f := range k.All() {
				v := o.EGet(f.E)
				if l, ok := v.(ecore.EList); ok {
					v = l.Size()
				}
				res = append(res, v)
			}
			child := s.m.New(k)
			for _, f := range k.All() {
				if !f.Attr && f.Cont && k.IsA(f.Target) && !f.ReadOnly {
					if l, ok := o.EGet(f.E).(ecore.EList); ok {
						l.Add(child)
					} else {
						o.ESet(f.E, child)
					}
					res = append(res, child.EContainer() == o, child.EContainingFeature())
					break
				}
			}
			return append(res, o.EContents().Size(), ecore.Equals(o, ecore.Copy(o)))
		}
	case "element":
		named("element %d of %s", n, c.Name)
		r.f = func(s *shared) []any {
			var e ecore.EModelElement = c.E
			if f != nil && n%2 == 1 {
				e = f.E
			}
			switch {
			case n < 4:
				return []any{e.GetEAnnotation("unknown"), e.GetEAnnotation(emdSource)}
			case n < 6:
				return append([]any{e.GetEAnnotations()}, elems(e.GetEAnnotations())...)
			case n < 8:
				if a := e.GetEAnnotation(emdSource); a != nil {
					return []any{a.GetDetails(), a.GetDetails().GetValue("name"), a.GetDetails().ContainsKey("kind"), a.GetSource(), a.GetEModelElement(), a.GetDetails().Size()}
				}
				return nil
			default:
				return []any{e.EClass(), e.EContainer(), e.EContainingFeature(), e.EResource(), e.EIsProxy()}
			}
		}
	case "contents":
		named("contents %d of %s", n, c.Name)
		r.f = func(s *shared) []any {
			var l []any
			switch {
			case n < 4:
				return elems(c.E.EContents())
			case n < 6:
				return elems(c.E.ECrossReferences())
			case n < 8:
				for it := s.m.Pkgs[p].EAllContents(); it.HasNext(); {
					l = append(l, it.Next())
				}
			default:
				k := c.E.EClass()
				for i := 0; i < k.GetFeatureCount(); i++ {
					q := k.GetEStructuralFeature(i)
					if !q.IsDerived() && !q.IsTransient() {
						l = append(l, c.E.EIsSet(q))
					}
				}
			}
			return l
		}
	case "resource":
		named("resource %d of %s", n, c.Name)
		r.f = func(s *shared) []any {
			res := s.m.Pkgs[c.Pkg].EResource()
			if res == nil {
				return nil
			}
			switch {
			case n < 4:
				return []any{res.GetURIFragment(c.E)}
			case n < 7:
				return []any{res.GetEObject("//" + c.Name)}
			case n == 7:
				return []any{s.rs.GetEObject(ecore.NewURI(res.GetURI().String()+"#//"+c.Name), false)}
			case n == 8:
				return []any{s.rs.GetResource(ecore.NewURI(res.GetURI().String()), false), res.IsLoaded(), res.GetErrors().Size()}
			default:
				return []any{ecore.GetURI(c.E)}
			}
		}
	case "load":
		r.f = func(s *shared) []any {
			rs := newResourceSet(s.m)
			var l []any
			for i, data := range s.docs {
				x := rs.CreateResource(ecore.NewURI(s.docURIs[i]))
				x.LoadWithReader(bytes.NewReader(data), nil)
				l = append(l, errorsOf(x))
				for it := x.GetContents().Iterator(); it.HasNext(); {
					l = append(l, it.Next().(ecore.EObject).EClass())
				}
				n := 0
				for it := x.GetAllContents(); it.HasNext(); n++ {
					it.Next()
				}
				var b bytes.Buffer
				x.SaveWithWriter(&b, nil)
				l = append(l, n, b.String(), errorsOf(x))
			}
			return l
		}
	}
	return r
}

func pickExt(n int) string { return []string{"xml", "ecore", "bin", "other"}[n%4] }

// readTogether runs the reads of each thread, all of them starting at the same time
func readTogether(s *shared, threads [][]read) (got [][][]any, panics []any) {
	got = make([][][]any, len(threads))
	panics = make([]any, len(threads))
	start := make(chan struct{})
	var ready, done sync.WaitGroup
	for i := range threads {
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			ready.Done()
			<-start
			panics[i] = try(func() {
				for _, r := range threads[i] {
					got[i] = append(got[i], r.f(s))
				}
			})
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()
	return
}

// decoration of the metamodel, drawn once and applied to each copy of it
func genDecoration(t *rapid.T, m *Model) func() {
	type note struct {
		c          *Class
		f          *Feat
		key, value string
		empty      bool
	}
	var notes []note
	root := map[int]bool{}
	for n := rapid.IntRange(0, 4).Draw(t, "annotations"); n > 0; n-- {
		x := note{c: pickOne(t, "annotated", m.Classes), key: pickOne(t, "key", []string{"name", "namespace", "kind"}), value: pickOne(t, "value", []string{"a", "", "##targetNamespace", "xmlns:prefix"}), empty: oneIn(t, 4, "empty")}
		if x.key == "name" && x.value == "xmlns:prefix" {
			// only a map may have that name
			x.value = "xmlns:other"
		}
		if len(x.c.Feats) > 0 && rapid.Bool().Draw(t, "on feature") {
			x.f = pickOne(t, "annotated feature", x.c.Feats)
		}
		if x.f == nil && x.key == "name" {
			// of two classes with the same name, the one which is found depends on what was asked before
			if x.value != "" || root[x.c.Pkg] {
				x.value = fmt.Sprintf("a%d", n)
			} else {
				root[x.c.Pkg] = true
			}
		}
		notes = append(notes, x)
	}
	ops := make([]int, len(m.Classes))
	for i := range ops {
		ops[i] = rapid.IntRange(0, 2).Draw(t, "operations")
	}
	return func() {
		fac := ecore.GetFactory()
		for _, x := range notes {
			var e ecore.EModelElement = x.c.E
			if x.f != nil {
				e = x.f.E
			}
			a := e.GetEAnnotation(emdSource)
			if a == nil {
				a = fac.CreateEAnnotation()
				a.SetSource(emdSource)
				e.GetEAnnotations().Add(a)
			}
			if !x.empty && !a.GetDetails().ContainsKey(x.key) {
				a.GetDetails().Put(x.key, x.value)
			}
		}
		for i, c := range m.Classes {
			for n := 0; n < ops[i]; n++ {
				o := fac.CreateEOperation()
				o.SetName(fmt.Sprintf("op%d", n))
				o.SetEType(c.E)
				c.E.GetEOperations().Add(o)
			}
		}
	}
}

// rebuild makes the metamodel again
func (m *Model) rebuild(decorate func()) {
	n := len(m.Pkgs)
	m.Pkgs, m.Feats, m.byE = nil, nil, map[ecore.EClass]*Class{}
	m.build(n)
	decorate()
}

// rebind makes the description describe loaded packages
func (m *Model) rebind(pkgs []ecore.EPackage) {
	m.Pkgs, m.byE = pkgs, map[ecore.EClass]*Class{}
	find := func(l ecore.EList, name string) any {
		for it := l.Iterator(); it.HasNext(); {
			if e := it.Next(); e.(ecore.ENamedElement).GetName() == name {
				return e
			}
		}
		return nil
	}
	for _, c := range m.Classes {
		c.E = find(pkgs[c.Pkg].GetEClassifiers(), c.Ident()).(ecore.EClass)
		m.byE[c.E] = c
		for _, f := range c.Feats {
			f.E = find(c.E.GetEStructuralFeatures(), f.Name).(ecore.EStructuralFeature)
		}
	}
	for _, e := range m.Enums {
		e.E = find(pkgs[0].GetEClassifiers(), e.Name).(ecore.EEnum)
	}
}

func answers(vs []any) string { return elementName(vs) }

func readersCase(t *rapid.T, c *Rec, fresh func(m *Model, s *shared), s *shared, texts []string, outer *testing.T, rounds int) {
	nt := rapid.IntRange(2, 6).Draw(t, "threads")
	threads := make([][]read, nt)
	var common []read
	for i := rapid.IntRange(0, 4).Draw(t, "common reads"); i > 0; i-- {
		common = append(common, genRead(t, s, texts))
	}
	total := 0
	kinds := map[string]bool{}
	for i := range threads {
		if rapid.Bool().Draw(t, "common first") {
			threads[i] = append(threads[i], common...)
		}
		for k := rapid.IntRange(1, 8).Draw(t, "reads"); k > 0; k-- {
			threads[i] = append(threads[i], genRead(t, s, texts))
		}
		if len(threads[i]) > 0 && oneIn(t, 2, "twice") {
			threads[i] = append(threads[i], threads[i][0])
		}
		for _, r := range threads[i] {
			c.Logf("thread %d: %s", i, r.name)
			c.Label(strings.SplitN(strings.TrimPrefix(r.name, "list "), " ", 2)[0])
			kinds[r.name] = true
			total++
		}
	}
	if total >= 6 && len(kinds) < total {
		c.Nontrivial()
	}
	// one after the other
	fresh(s.m, s)
	want := make([][]string, nt)
	for i := range threads {
		for _, r := range threads[i] {
			if p := try(func() { want[i] = append(want[i], answers(r.f(s))) }); p != nil {
				t.Fatalf("%s: panic %v", r.name, p)
			}
		}
	}
	for round := 0; round < rounds; round++ {
		fresh(s.m, s)
		var got [][][]any
		var panics []any
		// the race detector makes the test fail
		free := outer.Run("round", func(*testing.T) { got, panics = readTogether(s, threads) })
		for i, p := range panics {
			if p != nil {
				t.Fatalf("thread %d: panic %v", i, p)
			}
		}
		if !free {
			t.Fatalf("data race between these threads (described above)")
		}
		for i := range threads {
			for k, r := range threads[i] {
				if a := answers(got[i][k]); a != want[i][k] {
					t.Fatalf("thread %d: %s: %s instead of %s", i, r.name, clip([]byte(a)), clip([]byte(want[i][k])))
				}
				again := r.f(s)
				if !sameRead(any(again), any(got[i][k])) {
					t.Fatalf("thread %d: %s: other elements than afterwards: %s", i, r.name, clip([]byte(answers(again))))
				}
			}
		}
	}
}

func genTexts(t *rapid.T) []string {
	var texts []string
	for i := rapid.IntRange(2, 5).Draw(t, "texts"); i > 0; i-- {
		s, _ := genURIText(t, "uri")
		if oneIn(t, 3, "any") {
			s = genAnyText(t, "any text")
		}
		texts = append(texts, s)
	}
	return texts
}

func TestP31_Readers(outer *testing.T) {
	runProp(outer, "at least six reads, some of them made by several threads", 150, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{Pkgs: 2, DTs: allDTs, Maps: true, MaxClasses: 5, IDs: true})
		loaded := rapid.Bool().Draw(t, "loaded metamodel")
		inResources := loaded || rapid.Bool().Draw(t, "metamodel in resources")
		decorate := genDecoration(t, m)
		c.Logf("%s", m)
		c.LabelIf(loaded, "loaded metamodel")
		s := &shared{m: m}
		if rapid.Bool().Draw(t, "documents") && len(m.Concrete(nil)) > 0 {
			s.docExt = pickOne(t, "extension", []string{"xml", "bin"})
			g := genGraph(t, m, graphOpts{Resources: 1, Roots: 1, MaxObjs: 5, Alpha: AlphaWord, Ext: s.docExt, CrossOnlyResolving: true})
			s.docs = g.save(nil)
			for _, r := range g.res {
				s.docURIs = append(s.docURIs, r.GetURI().String())
			}
		}
		var saved [][]byte
		m.rebuild(decorate)
		place := func() ecore.EResourceSet {
			rs := ecore.NewEResourceSetImpl()
			for i, p := range m.Pkgs {
				rs.CreateResource(ecore.NewURI(fmt.Sprintf("file:/metamodel/p%d.ecore", i))).GetContents().Add(p)
			}
			return rs
		}
		if loaded {
			for it := place().GetResources().Iterator(); it.HasNext(); {
				r := it.Next().(ecore.EResource)
				var b bytes.Buffer
				r.SaveWithWriter(&b, nil)
				if e := errorsOf(r); e != "" {
					t.Fatalf("the metamodel can't be saved: %s", e)
				}
				saved = append(saved, b.Bytes())
			}
		}
		texts := genTexts(t)
		supplied := rapid.Bool().Draw(t, "supplier")
		delegated := rapid.Bool().Draw(t, "delegate")
		fresh := func(m *Model, s *shared) {
			s.rs = ecore.NewEResourceSetImpl()
			if loaded {
				var pkgs []ecore.EPackage
				for i, data := range saved {
					r := s.rs.CreateResource(ecore.NewURI(fmt.Sprintf("file:/metamodel/p%d.ecore", i)))
					r.LoadWithReader(bytes.NewReader(data), nil)
					if e := errorsOf(r); e != "" {
						t.Fatalf("the metamodel can't be loaded: %s", e)
					}
					pkgs = append(pkgs, r.GetContents().Get(0).(ecore.EPackage))
				}
				ecore.ResolveAllInResourceSet(s.rs)
				m.rebind(pkgs)
				// registries of the resource set are made again
				old := s.rs
				s.rs = ecore.NewEResourceSetImpl()
				for _, r := range append([]any{}, old.GetResources().ToArray()...) {
					old.GetResources().Remove(r)
					s.rs.GetResources().Add(r)
				}
			} else {
				m.rebuild(decorate)
				if inResources {
					s.rs = place()
				}
			}
			s.emd = ecore.NewExtendedMetaData()
			r := ecore.NewEPackageRegistryImpl()
			for _, p := range m.Pkgs {
				if supplied {
					r.PutSupplier(p.GetNsURI(), func() ecore.EPackage { return p })
				} else {
					r.RegisterPackage(p)
				}
			}
			s.registry = r
			if delegated {
				s.registry = ecore.NewEPackageRegistryImplWithDelegate(r)
			}
			for _, c := range m.Classes {
				c.All()
			}
			s.uris = []*ecore.URI{ecore.NewURI("http://host/a/b")}
			for _, x := range texts {
				if u := ecore.NewURI(x); u != nil {
					s.uris = append(s.uris, u)
				}
			}
		}
		fresh(m, s)
		readersCase(t, c, fresh, s, texts, outer, 3)
	})
}

// Ecore itself and the registries of the process are made once : each case reads them in a process of its own.
func TestP31_Process(outer *testing.T) {
	if p := os.Getenv("VERIF_P31_PROGRAM"); p != "" {
		processReads(outer, p)
		return
	}
	runProp(outer, "at least six reads, some of them made by several threads", 15, func(t *rapid.T, c *Rec) {
		var program [][]int
		total, seen, repeated := 0, map[int]bool{}, false
		for i := rapid.IntRange(2, 6).Draw(t, "threads"); i > 0; i-- {
			var th []int
			for k := rapid.IntRange(1, 10).Draw(t, "reads"); k > 0; k-- {
				n := rapid.IntRange(0, 1<<20).Draw(t, "read")
				th = append(th, n)
				repeated = repeated || seen[n%processKinds]
				seen[n%processKinds] = true
				total++
				c.Label(fmt.Sprintf("kind%d", n%processKinds))
			}
			program = append(program, th)
		}
		if total >= 6 && repeated {
			c.Nontrivial()
		}
		b, _ := json.Marshal(program)
		c.Logf("%s", b)
		cmd := exec.Command(os.Args[0], "-test.run", "^TestP31_Process$", "-test.v")
		cmd.Env = append(os.Environ(), "VERIF_P31_PROGRAM="+string(b), "VERIF_STATS_DIR=", "VERIF_VERBOSE=")
		out, err := cmd.CombinedOutput()
		if err != nil {
			if _, exited := err.(*exec.ExitError); !exited {
				panic(err)
			}
			t.Fatalf("reading Ecore in several threads: %v\n%s", err, out)
		}
	})
}

const processKinds = 24

// processReads runs a program of reads of Ecore itself
func processReads(t *testing.T, program string) {
	var threads [][]int
	if err := json.Unmarshal([]byte(program), &threads); err != nil {
		t.Fatal(err)
	}
	var rs []ecore.EResourceSet
	rs = append(rs, ecore.NewEResourceSetImpl())
	names := []string{"EClass", "EPackage", "EAttribute", "EReference", "EEnum", "EEnumLiteral", "EAnnotation", "EFactory", "EObject", "EStringToStringMapEntry", "EOperation", "EParameter", "EDataType", "EModelElement", "ENamedElement", "ETypedElement", "EStructuralFeature", "EClassifier", "EGenericType", "ETypeParameter"}
	dts := []string{"EString", "EInt", "EBoolean", "EDouble", "EChar", "EByteArray", "EJavaObject", "EEList", "EIntegerObject", "EDate", "EMap", "EResource", "ELong"}
	program1 := func(n int) []any {
		kind, x := n%processKinds, n/processKinds
		class := func() ecore.EClass {
			return ecore.GetPackage().GetEClassifier(names[x%len(names)]).(ecore.EClass)
		}
		list := func(l ecore.EList) []any { return append([]any{l}, elems(l)...) }
		switch kind {
		case 0:
			return []any{ecore.GetPackage(), ecore.GetPackage().GetEString(), ecore.GetPackage().GetEClass()}
		case 1:
			return []any{ecore.GetFactory(), ecore.GetFactory().GetEPackage()}
		case 2:
			return []any{ecore.GetPackageRegistry(), ecore.GetPackageRegistry().GetPackage(ecore.NS_URI)}
		case 3:
			return []any{ecore.GetPackageRegistry().GetFactory(ecore.NS_URI)}
		case 4:
			return []any{ecore.GetCodecRegistry(), ecore.GetCodecRegistry().GetCodec(ecore.NewURI("a." + pickExt(x)))}
		case 5:
			return []any{class()}
		case 6:
			return list(class().GetEAllStructuralFeatures())
		case 7:
			return list(class().GetEAllAttributes())
		case 8:
			return list(class().GetEAllReferences())
		case 9:
			return list(class().GetEAllContainments())
		case 10:
			return list(class().GetEAllSuperTypes())
		case 11:
			return list(class().GetEAllOperations())
		case 12:
			return list(class().GetEOperations())
		case 13:
			return list(class().GetEStructuralFeatures())
		case 14:
			c := class()
			return []any{c.GetEStructuralFeatureFromName("name"), c.GetFeatureCount(), c.GetEIDAttribute()}
		case 15:
			c := class()
			var l []any
			for i := 0; i < c.GetFeatureCount(); i++ {
				f := c.GetEStructuralFeature(i)
				l = append(l, f, c.GetFeatureID(f), f.GetEType(), f.GetDefaultValue(), f.IsMany())
			}
			return l
		case 16:
			d := ecore.GetPackage().GetEClassifier(dts[x%len(dts)]).(ecore.EDataType)
			return []any{d, d.GetDefaultValue(), d.IsSerializable(), d.GetInstanceTypeName()}
		case 17:
			d := ecore.GetPackage().GetEClassifier(dts[x%3]).(ecore.EDataType)
			return []any{ecore.GetFactory().CreateFromString(d, "1")}
		case 18:
			c := class()
			if c.IsAbstract() || c.IsInterface() {
				return nil
			}
			o := ecore.GetFactory().Create(c)
			var l []any
			for i := 0; i < c.GetFeatureCount(); i++ {
				if f := c.GetEStructuralFeature(i); !f.IsDerived() && !f.IsTransient() {
					l = append(l, o.EIsSet(f))
				}
			}
			return append(l, o.EContents().Size(), ecore.Copy(o) != nil)
		case 19:
			// a metamodel of its own
			p := ecore.GetFactory().CreateEPackage()
			p.SetName("p")
			c := ecore.GetFactory().CreateEClass()
			c.SetName("C")
			a := ecore.GetFactory().CreateEAttribute()
			a.SetName("a")
			a.SetEType(ecore.GetPackage().GetEString())
			c.GetEStructuralFeatures().Add(a)
			p.GetEClassifiers().Add(c)
			o := p.GetEFactoryInstance().Create(c)
			v := o.EGet(a)
			o.ESet(a, "x")
			return []any{v, o.EGet(a), a.GetEAttributeType()}
		case 20:
			r := rs[0]
			return []any{r.GetPackageRegistry(), r.GetPackageRegistry().GetPackage(ecore.NS_URI), r.GetCodecRegistry(), r.GetURIConverter()}
		case 21:
			e := class()
			return []any{e.GetEAnnotation("x"), e.EContents().Size(), e.GetEPackage(), e.EResource() == nil, e.GetClassifierID()}
		case 22:
			x, err := ecore.ParseURI(fmt.Sprintf("http://host%d/a/../b?q#f", x%3))
			return []any{x, err}
		default:
			doc := `<?xml version="1.0" encoding="UTF-8"?><ecore:EPackage xmlns:ecore="http://www.eclipse.org/emf/2002/Ecore" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" name="p" nsURI="u"><eClassifiers xsi:type="ecore:EClass" name="A"><eStructuralFeatures xsi:type="ecore:EAttribute" name="a" eType="ecore:EDataType http://www.eclipse.org/emf/2002/Ecore#//EString"/></eClassifiers></ecore:EPackage>`
			s := ecore.NewEResourceSetImpl()
			r := s.CreateResource(ecore.NewURI("file:/a.ecore"))
			r.LoadWithReader(strings.NewReader(doc), nil)
			p, _ := r.GetContents().Get(0).(ecore.EPackage)
			a := p.GetEClassifier("A").(ecore.EClass).GetEStructuralFeatureFromName("a")
			return []any{errorsOf(r), a.GetEType()}
		}
	}
	reads := make([][]read, len(threads))
	for i, th := range threads {
		for _, n := range th {
			reads[i] = append(reads[i], read{name: fmt.Sprint(n % processKinds), f: func(*shared) []any { return program1(n) }})
		}
	}
	got, panics := readTogether(nil, reads)
	for i, p := range panics {
		if p != nil {
			t.Fatalf("thread %d: panic %v", i, p)
		}
	}
	for i := range reads {
		for k, r := range reads[i] {
			if again := r.f(nil); !sameRead(any(again), any(got[i][k])) {
				t.Fatalf("thread %d: read %s: %s, afterwards %s", i, r.name, answers(got[i][k]), answers(again))
			}
		}
	}
}
