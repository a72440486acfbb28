package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// memConverter gives documents from memory
type memConverter struct {
	ecore.EURIConverter
	docs  map[string][]byte
	reads map[string]int
}

type nopCloser struct {
	io.Reader
}

func (nopCloser) Close() error { return nil }

func (k *memConverter) CreateReader(uri *ecore.URI) (io.ReadCloser, error) {
	k.reads[uri.String()]++
	if d, ok := k.docs[uri.String()]; ok {
		return nopCloser{bytes.NewReader(d)}, nil
	}
	return nil, errors.New("no document " + uri.String())
}

// unresolved gives what a reference holds, without resolving it
func unresolved(o ecore.EObject, f *Feat) []ecore.EObject {
	v := o.EGetResolve(f.E, false)
	if !f.Many {
		if x, ok := v.(ecore.EObject); ok && x != nil {
			return []ecore.EObject{x}
		}
		return nil
	}
	l := v.(ecore.EList)
	if u, ok := l.(ecore.EObjectList); ok {
		l = u.GetUnResolvedList()
	}
	var res []ecore.EObject
	for i := 0; i < l.Size(); i++ {
		res = append(res, l.Get(i).(ecore.EObject))
	}
	return res
}

type refSlot struct {
	o ecore.EObject
	f *Feat
}

// proxyWorld is a set of resources loaded on demand
type proxyWorld struct {
	t     *rapid.T
	c     *Rec
	m     *Model
	g     *Graph
	rs    ecore.EResourceSet
	conv  *memConverter
	state map[refSlot][]ecore.EObject
	// in a fixed order
	objs   []ecore.EObject
	names  map[ecore.EObject]string
	recs   map[ecore.EObject]*recorder
	seen   map[ecore.EObject]int
	truth  map[string]ecore.EObject // objects of the graph by address
	loaded map[string]bool

	resolved, kept, broken, onDemand int
}

func (w *proxyWorld) name(o ecore.EObject) string {
	if o == nil {
		return "nothing"
	}
	if n, ok := w.names[o]; ok {
		return n
	}
	if p := o.(ecore.EObjectInternal).EProxyURI(); p != nil {
		return "proxy(" + p.String() + ")"
	}
	return fmt.Sprintf("unknown(%p)", o)
}

func (w *proxyWorld) visit(o ecore.EObject, name string) {
	if _, ok := w.names[o]; ok || o.EIsProxy() {
		return
	}
	w.names[o] = name
	w.objs = append(w.objs, o)
	for _, f := range w.m.Of(o).All() {
		if f.Attr || f.Map() || f.Transient {
			continue
		}
		if f.Cont {
			for i, k := range unresolved(o, f) {
				w.visit(k, fmt.Sprintf("%s.%s[%d]", name, f.Name, i))
			}
		}
	}
}

// scan finds the objects which are in memory now
func (w *proxyWorld) scan() {
	for i := 0; i < w.rs.GetResources().Size(); i++ {
		r := w.rs.GetResources().Get(i).(ecore.EResource)
		if r.IsLoaded() {
			if !w.loaded[r.GetURI().String()] {
				w.loaded[r.GetURI().String()] = true
				w.c.Logf("loaded %v", r.GetURI())
				if e := errorsOf(r); e != "" {
					w.t.Fatalf("loading %v : %s", r.GetURI(), e)
				}
			}
			for j := 0; j < r.GetContents().Size(); j++ {
				w.visit(r.GetContents().Get(j).(ecore.EObject), fmt.Sprintf("%v#%d", r.GetURI(), j))
			}
		}
	}
}

func (w *proxyWorld) slots(keep func(o ecore.EObject, f *Feat) bool) (l []refSlot) {
	for _, o := range w.objs {
		for _, f := range w.m.Of(o).All() {
			if !f.Attr && !f.Map() && !f.Transient && !f.Container() && keep(o, f) {
				l = append(l, refSlot{o, f})
			}
		}
	}
	return l
}

// denoted gives the object of an address, if it is loaded or may be loaded
func (w *proxyWorld) denoted(p ecore.EObject) ecore.EObject {
	return w.rs.GetEObject(p.(ecore.EObjectInternal).EProxyURI(), false)
}

func (w *proxyWorld) exists(p ecore.EObject) bool {
	return w.truth[p.(ecore.EObjectInternal).EProxyURI().String()] != nil
}

// check compares all references with what they held : the ones which may have been resolved hold what was denoted
func (w *proxyWorld) check(what string, may func(s refSlot, i int) (may, must bool)) {
	w.c.Logf("%s", what)
	w.scan()
	before := w.state
	w.state = map[refSlot][]ecore.EObject{}
	changes := map[ecore.EObject]int{}
	for _, s := range w.slots(func(ecore.EObject, *Feat) bool { return true }) {
		now := unresolved(s.o, s.f)
		w.state[s] = now
		was, known := before[s]
		if !known {
			continue
		}
		if len(was) != len(now) {
			w.t.Fatalf("%s : %s.%s held %d objects and holds %d", what, w.name(s.o), s.f.Name, len(was), len(now))
		}
		for i := range was {
			can, must := may(s, i)
			proxy := was[i].EIsProxy()
			switch {
			case !proxy || !s.f.Resolve || !can:
				if now[i] != was[i] {
					w.t.Fatalf("%s : %s.%s[%d] held %s and holds %s", what, w.name(s.o), s.f.Name, i, w.name(was[i]), w.name(now[i]))
				}
			case now[i] == was[i]:
				if must && w.exists(was[i]) {
					w.t.Fatalf("%s : %s.%s[%d] still holds %s which exists", what, w.name(s.o), s.f.Name, i, w.name(was[i]))
				}
			default:
				if !w.exists(was[i]) {
					w.t.Fatalf("%s : %s.%s[%d] held %s which denotes nothing, and holds %s", what, w.name(s.o), s.f.Name, i, w.name(was[i]), w.name(now[i]))
				}
				if d := w.denoted(was[i]); now[i] != d {
					w.t.Fatalf("%s : %s.%s[%d] held %s which is %s, and holds %s", what, w.name(s.o), s.f.Name, i, w.name(was[i]), w.name(d), w.name(now[i]))
				}
				// the object of the same address in the original graph has the same class
				if want := w.truth[was[i].(ecore.EObjectInternal).EProxyURI().String()]; want.EClass() != now[i].EClass() {
					w.t.Fatalf("%s : %s is a %s", what, w.name(was[i]), now[i].EClass().GetName())
				}
				changes[s.o]++
				w.resolved++
				if s.f.Cont {
					if now[i].EContainer() != s.o {
						w.t.Fatalf("%s : the container of %s is %s", what, w.name(now[i]), w.name(now[i].EContainer()))
					}
				}
				w.c.Logf("  %s.%s[%d] resolved %s", w.name(s.o), s.f.Name, i, w.name(was[i]))
			}
		}
	}
	// every resolution is notified
	for _, o := range w.objs {
		rec := w.recs[o]
		if rec == nil {
			continue
		}
		n := 0
		for _, x := range rec.events[w.seen[o]:] {
			if x.typ == ecore.RESOLVE {
				f, _ := x.f.(ecore.EReference)
				if f != nil && f.IsContainer() {
					continue
				}
				n++
				if p, _ := x.old.(ecore.EObject); p == nil || !p.EIsProxy() {
					w.t.Fatalf("%s : %s notifies that %v is resolved", what, w.name(o), x.old)
				}
			}
		}
		w.seen[o] = len(rec.events)
		if n != changes[o] {
			w.t.Fatalf("%s : %s has %d resolved references and sends %d notifications", what, w.name(o), changes[o], n)
		}
	}
	for u, n := range w.conv.reads {
		if n > 1 && w.conv.docs[u] != nil {
			w.t.Fatalf("%s : %s is read %d times", what, u, n)
		}
	}
}

func never(refSlot, int) (bool, bool) { return false, false }

// expect is what reading an entry gives
func (w *proxyWorld) expect(what string, s refSlot, was, got ecore.EObject) {
	switch {
	case !was.EIsProxy():
		if got != was {
			w.t.Fatalf("%s gives %s instead of %s", what, w.name(got), w.name(was))
		}
	case !s.f.Resolve || !w.exists(was):
		if got != was {
			w.t.Fatalf("%s gives %s instead of the proxy %s", what, w.name(got), w.name(was))
		}
		if s.f.Resolve {
			w.broken++
		} else {
			w.kept++
		}
	default:
		if d := w.denoted(was); got != d || got.EIsProxy() {
			w.t.Fatalf("%s gives %s instead of %s which %s denotes", what, w.name(got), w.name(d), w.name(was))
		}
	}
}

func (w *proxyWorld) step() {
	t := w.t
	reads := len(w.conv.reads)
	all := func(refSlot, int) (bool, bool) { return true, false }
	slots := w.slots(func(o ecore.EObject, f *Feat) bool { return len(w.state[refSlot{o, f}]) > 0 })
	if len(slots) == 0 {
		return
	}
	// rather proxies
	if proxies := w.slots(func(o ecore.EObject, f *Feat) bool {
		for _, x := range w.state[refSlot{o, f}] {
			if x.EIsProxy() {
				return true
			}
		}
		return false
	}); len(proxies) > 0 && !oneIn(t, 4, "any") {
		slots = proxies
	}
	s := pickOne(t, "slot", slots)
	was := w.state[s]
	what := fmt.Sprintf("%s.%s", w.name(s.o), s.f.Name)
	switch op := rapid.IntRange(0, 13).Draw(t, "op"); op {
	case 0, 1, 2:
		if !s.f.Many {
			got, _ := s.o.EGet(s.f.E).(ecore.EObject)
			w.expect("reading "+what, s, was[0], got)
			w.check("read "+what, func(x refSlot, i int) (bool, bool) { return x == s, x == s })
			if again := s.o.EGet(s.f.E); again != any(got) {
				t.Fatalf("reading %s again gives another object", what)
			}
			return
		}
		l := s.o.EGet(s.f.E).(ecore.EList)
		w.check("the list "+what, never)
		if len(w.conv.reads) != reads {
			t.Fatalf("asking for the list %s reads a document", what)
		}
		switch op {
		case 0:
			at := rapid.IntRange(0, len(was)-1).Draw(t, "at")
			got := l.Get(at).(ecore.EObject)
			w.expect(fmt.Sprintf("reading %s[%d]", what, at), s, was[at], got)
			w.check(fmt.Sprintf("read %s[%d]", what, at), func(x refSlot, i int) (bool, bool) { return x == s && i == at, x == s && i == at })
		case 1:
			n := 0
			stop := rapid.IntRange(1, len(was)).Draw(t, "stop")
			for it := l.Iterator(); it.HasNext() && n < stop; n++ {
				w.expect(fmt.Sprintf("visiting %s[%d]", what, n), s, was[n], it.Next().(ecore.EObject))
			}
			w.check("visit "+what, func(x refSlot, i int) (bool, bool) { return x == s && i < stop, x == s && i < stop })
		default:
			a := l.ToArray()
			if len(a) != len(was) {
				t.Fatalf("the array of %s has %d objects instead of %d", what, len(a), len(was))
			}
			for i, x := range a {
				w.expect(fmt.Sprintf("array %s[%d]", what, i), s, was[i], x.(ecore.EObject))
			}
			w.check("array "+what, func(x refSlot, i int) (bool, bool) { return x == s, x == s })
		}
	case 3, 4:
		// without resolution
		for i, x := range unresolved(s.o, s.f) {
			if x != was[i] {
				t.Fatalf("reading %s[%d] without resolution gives %s instead of %s", what, i, w.name(x), w.name(was[i]))
			}
		}
		if s.f.Many {
			if u, ok := s.o.EGet(s.f.E).(ecore.EObjectList); ok {
				l := u.GetUnResolvedList()
				i := 0
				for it := l.Iterator(); it.HasNext(); i++ {
					if x := it.Next().(ecore.EObject); x != was[i] || l.IndexOf(x) != firstOf(was, x) || !l.Contains(x) {
						t.Fatalf("visiting %s[%d] without resolution gives %s instead of %s", what, i, w.name(x), w.name(was[i]))
					}
				}
				for i, x := range l.ToArray() {
					if x != any(was[i]) {
						t.Fatalf("the array of %s[%d] without resolution gives %s instead of %s", what, i, w.name(x.(ecore.EObject)), w.name(was[i]))
					}
				}
			}
		}
		for _, l := range []ecore.EList{s.o.EContents(), s.o.ECrossReferences()} {
			if u, ok := l.(ecore.EObjectList); ok {
				for it := u.GetUnResolvedList().Iterator(); it.HasNext(); {
					it.Next()
				}
			}
		}
		w.check("read without resolution "+what, never)
		if len(w.conv.reads) != reads {
			t.Fatalf("reading %s without resolution reads a document", what)
		}
	case 5:
		for it := s.o.EContents().Iterator(); it.HasNext(); {
			it.Next()
		}
		w.check("contents of "+w.name(s.o), func(x refSlot, i int) (bool, bool) {
			in := x.o == s.o && x.f.Cont
			return in, in
		})
	case 6:
		for it := s.o.ECrossReferences().Iterator(); it.HasNext(); {
			it.Next()
		}
		w.check("cross references of "+w.name(s.o), func(x refSlot, i int) (bool, bool) {
			in := x.o == s.o && x.f.Cross()
			return in, in
		})
	case 7:
		if s.f.Many {
			l := s.o.EGet(s.f.E).(ecore.EList)
			x := pickOne(t, "object", w.objs)
			want := false
			for _, y := range was {
				want = want || y == x || y.EIsProxy() && s.f.Resolve && w.exists(y) && w.denoted(y) == x
			}
			if got := l.Contains(x); got != want {
				t.Fatalf("%s contains %s : %v", what, w.name(x), got)
			}
			if got := l.IndexOf(x); (got >= 0) != want {
				t.Fatalf("%s holds %s at %d", what, w.name(x), got)
			}
			w.check("search in "+what, func(x refSlot, i int) (bool, bool) { return x == s, false })
		}
	case 8:
		i := rapid.IntRange(0, len(was)-1).Draw(t, "at")
		var got ecore.EObject
		switch rapid.IntRange(0, 2).Draw(t, "how") {
		case 0:
			got = ecore.ResolveInObject(was[i], s.o)
		case 1:
			got = ecore.ResolveInResource(was[i], s.o.EResource())
		default:
			got = ecore.ResolveInResourceSet(was[i], w.rs)
		}
		w.expect("resolving "+w.name(was[i]), refSlot{s.o, &Feat{Resolve: true}}, was[i], got)
		w.check("resolve "+w.name(was[i]), never)
	case 9:
		ecore.ResolveAll(s.o)
		w.check("resolve all of "+w.name(s.o), func(x refSlot, i int) (bool, bool) {
			return true, x.o == s.o
		})
	case 10:
		if c := s.o.EContainer(); c != nil {
			if c.EIsProxy() && w.exists(c) {
				t.Fatalf("the container of %s is %s", w.name(s.o), w.name(c))
			}
			w.check("container of "+w.name(s.o), all)
		}
	case 11, 12:
		// addresses, sizes and set states do not need the objects references denote
		x := pickOne(t, "object", w.objs)
		if x.EIsProxy() || x.EResource() == nil {
			return
		}
		if op == 11 {
			u := ecore.GetURI(x)
			f := x.EResource().GetURIFragment(x)
			w.check("address of "+w.name(x), never)
			if u.Fragment() != f {
				t.Fatalf("%s has the address %v and the fragment %s", w.name(x), u, f)
			}
		} else {
			for _, f := range w.m.Of(x).All() {
				_ = x.EIsSet(f.E)
				if f.Many {
					_ = x.EGet(f.E).(ecore.EList).Size()
					_ = x.EGet(f.E).(ecore.EList).Empty()
				}
			}
			for _, l := range []ecore.EList{x.EContents(), x.ECrossReferences()} {
				_, _ = l.Size(), l.Empty()
			}
			w.check("set states and sizes of "+w.name(x), never)
		}
		if len(w.conv.reads) != reads {
			t.Fatalf("the address, sizes or set states of %s read a document", w.name(x))
		}
	default:
		// an object of another resource, or a broken address
		if s.f.Opp != nil || s.f.Cont || s.f.ReadOnly || s.f.Map() || s.f.Many && s.f.Upper > 0 && len(was) >= s.f.Upper {
			return
		}
		concrete := w.m.Concrete(s.f.Target)
		if len(concrete) == 0 {
			return
		}
		p := w.m.New(pickOne(t, "class", concrete))
		uri := pickOne(t, "broken", []string{"mem:/none.xml#/", "mem:/none.xml#//a/b", w.g.res[0].GetURI().String() + "#/7", w.g.res[0].GetURI().String() + "#nothing", "#x"})
		var same []string
		for i, o := range w.g.objs {
			if w.g.cls[i].IsA(s.f.Target) && o.EResource() != nil {
				same = append(same, ecore.GetURI(o).String())
			}
		}
		if len(same) > 0 && !oneIn(t, 3, "bad") {
			uri = pickOne(t, "address", same)
			c := w.m.Of(w.truth[uri])
			p = w.m.New(c)
		}
		p.(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI(uri))
		if s.f.Many {
			// a unique list would resolve its proxies to look for the new one
			l := s.o.EGet(s.f.E).(ecore.EObjectList).GetUnResolvedList()
			l.Add(p)
		} else {
			s.o.ESet(s.f.E, p)
		}
		delete(w.state, s)
		if rec := w.recs[s.o]; rec != nil {
			w.seen[s.o] = len(rec.events)
		}
		w.check(fmt.Sprintf("set a proxy of %s in %s", uri, what), never)
	}
}

func firstOf(l []ecore.EObject, x ecore.EObject) int {
	for i, y := range l {
		if y == x {
			return i
		}
	}
	return -1
}

// leaves tells if an object of the resource refers to an object of another one
func leaves(m *Model, g *Graph, r ecore.EResource) bool {
	for _, o := range g.objs {
		if o.EResource() != r {
			continue
		}
		for _, f := range m.Of(o).All() {
			if f.Attr || f.Map() || f.Transient || f.Container() {
				continue
			}
			for _, x := range unresolved(o, f) {
				if x.EResource() != r {
					return true
				}
			}
		}
	}
	return false
}

func TestP08_Proxies(t *testing.T) {
	runProp(t, "a proxy was resolved by reading, a document was loaded for it, and a proxy was kept", 1500, func(t *rapid.T, c *Rec) {
		ext := pickOne(t, "format", []string{"xml", "ecore", "bin"})
		m := genModel(t, ModelOpts{Pkgs: 2, DTs: []string{"EString"}, Dense: true, MaxClasses: 4, MaxFeats: 4, ContBias: rapid.Bool().Draw(t, "contbias"), Avoid: "href"})
		g := genGraph(t, m, graphOpts{Resources: 3, MinResources: 2, Roots: 1, MaxObjs: 10, CrossRefs: true, CrossOnlyResolving: true, CrossCont: true, OddURIs: true, Alpha: AlphaWord, Ext: ext})
		c.Logf("%s %s%s", ext, m, g.dump())
		conv := &memConverter{EURIConverter: ecore.NewEURIConverterImpl(), docs: map[string][]byte{}, reads: map[string]int{}}
		for i, d := range g.save(nil) {
			conv.docs[g.res[i].GetURI().String()] = d
		}
		rs := newResourceSet(m)
		rs.SetURIConverter(conv)
		w := &proxyWorld{t: t, c: c, m: m, g: g, rs: rs, conv: conv, state: map[refSlot][]ecore.EObject{}, names: map[ecore.EObject]string{},
			recs: map[ecore.EObject]*recorder{}, seen: map[ecore.EObject]int{}, truth: map[string]ecore.EObject{}, loaded: map[string]bool{}}
		for _, o := range g.objs {
			w.truth[ecore.GetURI(o).String()] = o
		}
		// rather a resource with proxies
		first := pickOne(t, "first", g.res)
		if !oneIn(t, 5, "anyfirst") {
			var linked []ecore.EResource
			for _, r := range g.res {
				if leaves(m, g, r) {
					linked = append(linked, r)
				}
			}
			if len(linked) > 0 {
				first = pickOne(t, "linked", linked)
			}
		}
		rs.GetResource(first.GetURI(), true)
		w.check("load", never)
		watch := rapid.Bool().Draw(t, "watch")
		n0 := len(conv.reads)
		for n := rapid.IntRange(2, 20).Draw(t, "steps"); n > 0; n-- {
			if watch {
				for _, o := range w.objs {
					if w.recs[o] == nil {
						rec := &recorder{}
						w.recs[o] = rec
						o.EAdapters().Add(rec)
						w.seen[o] = len(rec.events)
					}
				}
			}
			w.step()
		}
		w.onDemand = len(conv.reads) - n0
		c.LabelIf(w.resolved > 0, "resolved")
		c.LabelIf(w.onDemand > 0, "loaded on demand")
		c.LabelIf(w.kept > 0, "kept")
		c.LabelIf(w.broken > 0, "broken")
		c.LabelIf(watch, "watched")
		if w.resolved > 0 && w.onDemand > 0 {
			c.Nontrivial()
		}
	})
}

// Ecore says that the classifiers and the sub packages of a package are resolved, its lists don't.
func TestP08_Finding(t *testing.T) {
	rs := ecore.NewEResourceSetImpl()
	load := func(uri, doc string) ecore.EResource {
		r := rs.CreateResource(ecore.NewURI(uri))
		r.LoadWithReader(bytes.NewReader([]byte(doc)), nil)
		if e := errorsOf(r); e != "" {
			t.Fatal(e)
		}
		return r
	}
	for i, k := range []struct{ feature, class string }{{"eClassifiers", "EClass"}, {"eSubPackages", "EPackage"}} {
		part := fmt.Sprintf("part%d.ecore", i)
		x := load("file:/"+part, `<?xml version="1.0" encoding="UTF-8"?><ecore:`+k.class+` xmlns:ecore="http://www.eclipse.org/emf/2002/Ecore" name="A"/>`).GetContents().Get(0)
		p := load(fmt.Sprintf("file:/whole%d.ecore", i), `<?xml version="1.0" encoding="UTF-8"?><ecore:EPackage xmlns:ecore="http://www.eclipse.org/emf/2002/Ecore" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" name="q"><`+k.feature+` xsi:type="ecore:`+k.class+`" href="`+part+`#/"/></ecore:EPackage>`).GetContents().Get(0).(ecore.EPackage)
		l := p.GetEClassifiers()
		if i == 1 {
			l = p.GetESubPackages()
		}
		if l.Size() != 1 {
			t.Fatalf("%s has %d elements", k.feature, l.Size())
		}
		switch y := l.Get(0); {
		case y == x:
		case y.(ecore.EObject).EIsProxy():
			knownFinding("P08", "static-package-parts: "+k.feature+" of a package in another resource stay proxies when they are read, although Ecore says that the reference resolves its proxies")
		default:
			t.Fatalf("%s gives %v", k.feature, y)
		}
	}
}
