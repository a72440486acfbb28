package harness

// Generated graphs of objects over several resources, and a canonical text of
// what they hold. The text is computed through the reflective interface only,
// from the generated description of the metamodel.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

type graphOpts struct {
	Resources          int // maximal number of resources
	MinResources       int // the fewest resources
	Roots              int // maximal number of roots of a resource
	MaxObjs            int // maximal number of objects
	Alpha              Alphabet
	NoRefs             bool // no reference other than containment
	CrossRefs          bool // references over resources
	CrossOnlyResolving bool
	CrossCont          bool // containment over resources
	Scheme             string
	Ext                string
	OddURIs            bool
	NewID              func() ecore.EObjectIDManager
	Files              bool // some of the graphs are saved to files
}

type Graph struct {
	dir                                                       string // of the files
	t                                                         *rapid.T
	m                                                         *Model
	o                                                         graphOpts
	rs                                                        ecore.EResourceSet
	res                                                       []ecore.EResource
	objs                                                      []ecore.EObject
	cls                                                       []*Class
	refs, attrs, crossRefs, crossConts, entries, unsets, deep int
}

func newResourceSet(m *Model) ecore.EResourceSet {
	rs := ecore.NewEResourceSetImpl()
	for _, p := range m.Pkgs {
		rs.GetPackageRegistry().RegisterPackage(p)
	}
	return rs
}

// slots gives the (object, feature) pairs where an object of some class may be contained
func (g *Graph) capacity(o ecore.EObject, f *Feat) bool {
	if !f.Many {
		return o.EGetResolve(f.E, false) == nil
	}
	l := o.EGetResolve(f.E, false).(ecore.EList)
	return f.Upper < 0 || l.Size() < f.Upper
}

func genGraph(t *rapid.T, m *Model, o graphOpts) *Graph {
	g := &Graph{t: t, m: m, o: o, rs: newResourceSet(m)}
	nres := rapid.IntRange(max(1, o.MinResources), max(o.Resources, 1)).Draw(t, "nres")
	maxObjs := o.MaxObjs
	if maxObjs == 0 {
		maxObjs = 10
	}
	names := []string{"r0", "r1", "r2", "r3"}
	if o.OddURIs && rapid.Bool().Draw(t, "oddURIs") {
		names = []string{"a/b/r0", "a/r1", "a/b/c/r2", "r3"}
	} else if o.OddURIs && o.Scheme == "" && oneIn(t, 4, "otherHosts") {
		// addresses which only differ by their scheme or host
		names = []string{"mem:/r0", "mem2:/r0", "mem://h/r0", "mem://h:1/r0"}
	}
	for i := 0; i < nres; i++ {
		g.addResource(names[i])
	}
	if o.Files && o.Scheme == "" && oneIn(t, 4, "files") && !strings.Contains(strings.Join(names, ""), ":") {
		g.dir = filesDir
		g.mapFiles()
	}
	// roots
	concrete := m.Concrete(nil)
	for i := range g.res {
		n := 1
		if o.Roots != 1 {
			n = rapid.IntRange(0, max(o.Roots, 1)).Draw(t, "nroots")
		}
		for ; n > 0; n-- {
			c := pickOne(t, "rootclass", concrete)
			x := g.create(c)
			g.res[i].GetContents().Add(x)
		}
	}
	// trees
	for n := rapid.IntRange(0, maxObjs).Draw(t, "nobjs"); n > 0; n-- {
		type slot struct {
			o ecore.EObject
			f *Feat
		}
		var slots []slot
		for i, x := range g.objs {
			for _, f := range g.cls[i].All() {
				if !f.Attr && f.Cont && !f.Map() && !f.Transient && !f.ReadOnly && (f.Opp == nil || !f.Opp.Transient) && len(m.Concrete(f.Target)) > 0 && g.capacity(x, f) {
					slots = append(slots, slot{x, f})
				}
			}
		}
		if len(slots) == 0 {
			break
		}
		s := pickOne(t, "slot", slots)
		x := g.create(pickOne(t, "class", m.Concrete(s.f.Target)))
		if s.f.Many {
			l := s.o.EGetResolve(s.f.E, false).(ecore.EList)
			if oneIn(t, 3, "insert") {
				l.Insert(rapid.IntRange(0, l.Size()).Draw(t, "at"), x)
			} else {
				l.Add(x)
			}
		} else {
			s.o.ESet(s.f.E, x)
		}
	}
	// containment over resources
	if o.CrossCont {
		for _, x := range append([]ecore.EObject{}, g.objs...) {
			if len(g.res) >= 4 {
				break
			}
			xi := x.(ecore.EObjectInternal)
			if x.EContainer() == nil || xi.EInternalResource() != nil || !oneIn(t, 4, "crosscont") {
				continue
			}
			if r := x.EContainingFeature().(ecore.EReference); !r.IsResolveProxies() || r.GetEOpposite() != nil && !r.GetEOpposite().IsResolveProxies() {
				continue
			}
			g.addResource(names[len(g.res)])
			g.res[len(g.res)-1].GetContents().Add(x)
			g.crossConts++
		}
	}
	// values
	for i, x := range g.objs {
		for _, f := range g.cls[i].All() {
			switch {
			case f.ReadOnly:
			case f.Attr:
				g.setAttr(x, f)
			case f.Map():
				g.setMap(x, f)
			case f.Cross() && !o.NoRefs:
				g.setRef(x, f)
			}
		}
	}
	return g
}

func (g *Graph) addResource(name string) {
	scheme := g.o.Scheme
	if scheme == "" {
		scheme = "mem"
	}
	if !strings.Contains(name, ":") {
		name = scheme + ":/" + name
	}
	r := g.rs.CreateResource(ecore.NewURI(name + "." + g.o.Ext))
	if g.o.NewID != nil {
		r.SetObjectIDManager(g.o.NewID())
	}
	g.res = append(g.res, r)
}

func (g *Graph) create(c *Class) ecore.EObject {
	x := g.m.New(c)
	g.objs = append(g.objs, x)
	g.cls = append(g.cls, c)
	return x
}

func (g *Graph) setAttr(x ecore.EObject, f *Feat) {
	t := g.t
	if !rapid.Bool().Draw(t, "set") {
		return
	}
	g.attrs++
	if f.Many {
		l := x.EGet(f.E).(ecore.EList)
		n := rapid.IntRange(1, 4).Draw(t, "nvals")
		if f.Upper > 0 {
			n = min(n, f.Upper)
		}
		for ; n > 0; n-- {
			l.Add(genValue(t, g.m, f.DT, g.o.Alpha))
		}
		return
	}
	if f.ID {
		// identifiers are distinct, and are neither paths nor queries
		n := rapid.IntRange(0, 3).Draw(t, "id")*1000 + len(g.objs)*10 + g.attrs
		if goKind(f.DT) == "string" {
			x.ESet(f.E, pickOne(t, "idtext", []string{"id", "k:", "a.b-", "_"})+fmt.Sprint(n))
		} else {
			x.ESet(f.E, n)
		}
		return
	}
	x.ESet(f.E, genValue(t, g.m, f.DT, g.o.Alpha))
	if oneIn(t, 10, "unsetagain") {
		g.unsets++
		x.EUnset(f.E)
	}
}

func (g *Graph) setMap(x ecore.EObject, f *Feat) {
	t := g.t
	m := x.EGet(f.E).(ecore.EMap)
	for n := rapid.IntRange(0, 3).Draw(t, "nentries"); n > 0; n-- {
		g.entries++
		m.Put(genText(t, g.o.Alpha), genValue(t, g.m, f.Target.Feat("value").DT, g.o.Alpha))
	}
}

func (g *Graph) setRef(x ecore.EObject, f *Feat) {
	t := g.t
	if rapid.IntRange(0, 2).Draw(t, "setref") == 0 {
		return
	}
	var cand []ecore.EObject
	rx := x.EResource()
	for i, y := range g.objs {
		if !g.cls[i].IsA(f.Target) {
			continue
		}
		if y.EResource() != rx {
			if !g.o.CrossRefs || g.o.CrossOnlyResolving && (!f.Resolve || f.Opp != nil && !f.Opp.Resolve) {
				continue
			}
		}
		if f.Opp != nil && f.Opp.Many && f.Opp.Upper > 0 && y.EGetResolve(f.Opp.E, false).(ecore.EList).Size() >= f.Opp.Upper {
			continue
		}
		cand = append(cand, y)
	}
	if len(cand) == 0 {
		return
	}
	note := func(y ecore.EObject) {
		g.refs++
		if y.EResource() != rx {
			g.crossRefs++
		}
	}
	if !f.Many {
		y := pickOne(t, "target", cand)
		x.ESet(f.E, y)
		note(y)
		return
	}
	l := x.EGet(f.E).(ecore.EList)
	for n := rapid.IntRange(1, 3).Draw(t, "nrefs"); n > 0; n-- {
		if f.Upper > 0 && l.Size() >= f.Upper {
			return
		}
		y := pickOne(t, "target", cand)
		if oneIn(t, 3, "insert") {
			if !l.Contains(y) {
				l.Insert(rapid.IntRange(0, l.Size()).Draw(t, "at"), y)
			}
		} else {
			l.Add(y)
		}
		note(y)
	}
}

// dumper writes the canonical text of a set of resources
type dumper struct {
	all     bool // values of features which are not set too
	m       *Model
	rs      ecore.EResourceSet
	path    map[ecore.EObject]string
	b       strings.Builder
	skip    func(*Feat) bool
	noIsSet bool
	err     string
	pkgs    []ecore.EPackage
	id      func(ecore.EObject) any
}

func (d *dumper) classOf(o ecore.EObject) *Class {
	e := o.EClass()
	if c := d.m.byE[e]; c != nil {
		return c
	}
	return nil
}

func (d *dumper) fail(format string, args ...any) {
	if d.err == "" {
		d.err = fmt.Sprintf(format, args...)
	}
}

func (d *dumper) values(o ecore.EObject, f *Feat) []any {
	if !f.Many {
		if v := o.EGet(f.E); v != nil {
			return []any{v}
		}
		return nil
	}
	l, _ := o.EGet(f.E).(ecore.EList)
	if l == nil {
		d.fail("feature %s of %s has no list", f.Name, d.path[o])
		return nil
	}
	var res []any
	for i := 0; i < l.Size(); i++ {
		res = append(res, l.Get(i))
	}
	return res
}

// name gives the paths of the objects, depth first
func (d *dumper) name(o ecore.EObject, path string, container ecore.EObject) {
	if _, ok := d.path[o]; ok {
		return
	}
	d.path[o] = path
	c := d.classOf(o)
	if c == nil {
		d.fail("%s has unexpected class %s", path, o.EClass().GetName())
		return
	}
	for _, f := range c.All() {
		if f.Attr || !f.Cont || f.Transient || d.skip != nil && d.skip(f) {
			continue
		}
		for i, v := range d.values(o, f) {
			y, ok := v.(ecore.EObject)
			if !ok {
				d.fail("%s.%s[%d] holds %s", path, f.Name, i, fmtValue(v))
				continue
			}
			if y.EIsProxy() {
				continue // reported with the values
			}
			if y.EContainer() != o {
				d.fail("%s.%s[%d] does not have it as container", path, f.Name, i)
			} else if cf := y.EContainmentFeature(); cf != f.E && (f.Opp == nil || cf != f.Opp.E) { // see the known finding of P04
				d.fail("%s.%s[%d] has containment feature %v", path, f.Name, i, featName(y.EContainmentFeature()))
			}
			if y.(ecore.EObjectInternal).EInternalResource() == nil {
				d.name(y, fmt.Sprintf("%s.%s[%d]", path, f.Name, i), o)
			}
		}
	}
}

func (d *dumper) ref(v any) string {
	o, ok := v.(ecore.EObject)
	if !ok {
		return fmtValue(v)
	}
	if p, ok := d.path[o]; ok {
		return p
	}
	if u := o.(ecore.EObjectInternal).EProxyURI(); u != nil {
		if y := d.rs.GetEObject(u, false); y != nil {
			if p, ok := d.path[y]; ok {
				return p
			}
			return "outside(" + ecore.GetURI(y).String() + ")"
		}
		return "proxy(" + u.String() + ")"
	}
	if r := o.EResource(); r != nil {
		return "outside(" + ecore.GetURI(o).String() + ")"
	}
	return "stray(" + o.EClass().GetName() + ")"
}

func (d *dumper) object(o ecore.EObject) {
	c := d.classOf(o)
	if c == nil {
		return
	}
	fmt.Fprintf(&d.b, "%s : %s", d.path[o], c.Name)
	if d.id != nil {
		fmt.Fprintf(&d.b, " #%v", d.id(o))
	}
	d.b.WriteByte('\n')
	for _, f := range c.All() {
		if f.Transient || f.Container() || d.skip != nil && d.skip(f) {
			continue
		}
		set := o.EIsSet(f.E)
		if !set && !d.all {
			if f.Many && len(d.values(o, f)) != 0 {
				d.fail("%s.%s is not set but not empty", d.path[o], f.Name)
			}
			continue
		}
		fmt.Fprintf(&d.b, "  %s =", f.Name)
		for _, v := range d.values(o, f) {
			if f.Attr {
				d.b.WriteString(" " + fmtValue(v))
			} else {
				d.b.WriteString(" " + d.ref(v))
			}
		}
		d.b.WriteByte('\n')
	}
}

// dump gives the canonical text of the resources ; the paths are named after
// their position in the list.
func (d *dumper) dump(res []ecore.EResource) string {
	d.path = map[ecore.EObject]string{}
	for i, r := range res {
		for j := 0; j < r.GetContents().Size(); j++ {
			d.name(r.GetContents().Get(j).(ecore.EObject), fmt.Sprintf("r%d/%d", i, j), nil)
		}
	}
	return d.text()
}

// text writes the objects which have a path
func (d *dumper) text() string {
	var objs []ecore.EObject
	for o := range d.path {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return d.path[objs[i]] < d.path[objs[j]] })
	for _, o := range objs {
		d.object(o)
	}
	if d.err != "" {
		return "INCONSISTENT " + d.err + "\n" + d.b.String()
	}
	return d.b.String()
}

func (g *Graph) dump() string {
	d := &dumper{m: g.m, rs: g.rs}
	s := d.dump(g.res)
	if d.err != "" {
		g.t.Fatalf("the model is not consistent\n%s", s)
	}
	return s
}

func errorsOf(r ecore.EResource) string {
	var s []string
	for it := r.GetErrors().Iterator(); it.HasNext(); {
		s = append(s, it.Next().(ecore.EDiagnostic).GetMessage())
	}
	return strings.Join(s, "; ")
}

// filesDir is the directory of the files of the current test process
var filesDir = func() string {
	dir, err := os.MkdirTemp("", "files-")
	if err != nil {
		panic(err)
	}
	return dir
}()

// mapFiles maps the addresses of the resources to files
func (g *Graph) mapFiles() {
	g.rs.GetURIConverter().GetURIMap()[*ecore.NewURI("mem:/")] = *ecore.NewURI("file:" + g.dir + "/")
}

func (g *Graph) file(r ecore.EResource) string {
	return g.dir + r.GetURI().Path()
}

// saveFile writes a resource in its file, which may exist and be longer
func (g *Graph) saveFile(r ecore.EResource, options map[string]any) []byte {
	name := g.file(r)
	os.MkdirAll(filepath.Dir(name), 0o755)
	if !oneIn(g.t, 3, "new file") {
		os.WriteFile(name, bytes.Repeat([]byte("x<"), 1<<rapid.IntRange(0, 14).Draw(g.t, "junk")), 0o644)
	} else {
		os.Remove(name)
	}
	r.SaveWithOptions(options)
	if e := errorsOf(r); e != "" {
		g.t.Fatalf("saving %v: %s\n%s", r.GetURI(), e, g.dump())
	}
	data, err := os.ReadFile(name)
	if err != nil {
		g.t.Fatalf("saving %v: %v", r.GetURI(), err)
	}
	return data
}

// save writes every resource
func (g *Graph) save(options map[string]any) [][]byte {
	var res [][]byte
	for _, r := range g.res {
		if g.dir != "" {
			res = append(res, g.saveFile(r, options))
			continue
		}
		var b bytes.Buffer
		r.SaveWithWriter(&b, options)
		if e := errorsOf(r); e != "" {
			g.t.Fatalf("saving %v: %s\n%s", r.GetURI(), e, g.dump())
		}
		res = append(res, b.Bytes())
	}
	return res
}

// load reads the resources in a new resource set, in a random order
func (g *Graph) load(data [][]byte, options map[string]any) *Graph {
	h := &Graph{t: g.t, m: g.m, o: g.o, rs: newResourceSet(g.m)}
	for _, r := range g.res {
		l := h.rs.CreateResource(r.GetURI())
		if g.o.NewID != nil {
			l.SetObjectIDManager(g.o.NewID())
		}
		h.res = append(h.res, l)
	}
	if g.dir != "" {
		h.dir = g.dir
		h.mapFiles()
		for _, r := range h.res {
			os.Remove(g.file(r)) // not loaded on demand, with other options
		}
	}
	order := rapid.Permutation(indices(len(g.res))).Draw(g.t, "loadorder")
	for _, i := range order {
		if g.dir != "" {
			os.WriteFile(g.file(h.res[i]), data[i], 0o644)
			h.res[i].LoadWithOptions(options)
		} else {
			h.res[i].LoadWithReader(bytes.NewReader(data[i]), options)
		}
		if e := errorsOf(h.res[i]); e != "" {
			g.t.Fatalf("loading %v: %s\n%q", h.res[i].GetURI(), e, clip(data[i]))
		}
	}
	return h
}

func clip(b []byte) string {
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

func indices(n int) []int {
	res := make([]int, n)
	for i := range res {
		res[i] = i
	}
	return res
}

// diff gives the first lines which differ
func diff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "", ""
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d:\n  original %s\n  loaded   %s", i, x, y)
		}
	}
	return "equal"
}

func (g *Graph) labels(c *Rec) {
	c.LabelIf(g.refs > 0, "references")
	c.LabelIf(g.crossRefs > 0, "crossResourceReferences")
	c.LabelIf(g.crossConts > 0, "crossResourceContainment")
	c.LabelIf(g.entries > 0, "mapEntries")
	c.LabelIf(len(g.res) > 1, "severalResources")
	c.LabelIf(len(g.objs) > 5, "moreThan5Objects")
}
