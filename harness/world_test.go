package harness

// World : objects of a generated metamodel, some resources, and a reference
// model of what every feature, container and resource holds, driven by
// generated edits. The properties about edits (notifications, opposites,
// containment, content adapters, resource tracking) run it with their own
// observers.

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// compact objects : what generated code builds on CompactEObjectImpl
type compactObj struct {
	ecore.CompactEObjectImpl
	props []any
}

type compactObjC struct {
	ecore.CompactEObjectContainer
	props []any
}

func newCompactObj(c ecore.EClass) ecore.EObject {
	o := new(compactObj)
	o.SetInterfaces(o)
	o.Initialize()
	o.SetEClass(c)
	o.props = make([]any, c.GetFeatureCount())
	return o
}

func newCompactObjC(c ecore.EClass) ecore.EObject {
	o := new(compactObjC)
	o.SetInterfaces(o)
	o.Initialize()
	o.SetEClass(c)
	o.props = make([]any, c.GetFeatureCount())
	return o
}

func (o *compactObj) EStaticFeatureCount() int { return 0 }
func (o *compactObj) EDynamicProperties() ecore.EDynamicProperties {
	return o
}
func (o *compactObj) EDynamicGet(i int) any    { return o.props[i] }
func (o *compactObj) EDynamicSet(i int, v any) { o.props[i] = v }
func (o *compactObj) EDynamicUnset(i int)      { o.props[i] = nil }
func (o *compactObj) EDynamicIsSet(i int) bool { return propIsSet(o, o.props, i) }
func (o *compactObj) EFeatureID(f ecore.EStructuralFeature) int {
	return o.EClass().GetFeatureID(f)
}
func (o *compactObjC) EStaticFeatureCount() int { return 0 }
func (o *compactObjC) EDynamicProperties() ecore.EDynamicProperties {
	return o
}
func (o *compactObjC) EDynamicGet(i int) any    { return o.props[i] }
func (o *compactObjC) EDynamicSet(i int, v any) { o.props[i] = v }
func (o *compactObjC) EDynamicUnset(i int)      { o.props[i] = nil }
func (o *compactObjC) EDynamicIsSet(i int) bool { return propIsSet(o, o.props, i) }
func (o *compactObjC) EFeatureID(f ecore.EStructuralFeature) int {
	return o.EClass().GetFeatureID(f)
}

func propIsSet(o ecore.EObject, props []any, i int) bool {
	if l, ok := props[i].(ecore.EList); ok && o.EClass().GetEStructuralFeature(i).IsMany() {
		return !l.Empty()
	}
	return props[i] != nil
}

// kinds of object implementation
const (
	kindDynamic = iota
	kindReflective
	kindCompact
	kindCompactC
	kindCount
)

func (m *Model) NewKind(c *Class, kind int) ecore.EObject {
	if m.Static {
		return m.New(c)
	}
	switch kind {
	case kindReflective:
		o := ecore.NewReflectiveEObjectImpl()
		o.SetEClass(c.E)
		return o
	case kindCompact:
		// CompactEObjectImpl keeps a container as one of its optional fields
		return newCompactObjC(c.E)
	case kindCompactC:
		return newCompactObjC(c.E)
	}
	return m.New(c)
}

type World struct {
	t        *rapid.T
	c        *Rec
	m        *Model
	objs     []ecore.EObject
	cls      []*Class
	attrs    []map[*Feat][]any // single : at most one element
	refs     []map[*Feat][]int
	cont     []int
	contF    []*Feat
	ress     []ecore.EResource
	contents [][]int
	direct   []int
	index    map[ecore.EObject]int

	// observers
	before func(op string)
	after  func(op string)
	// an additional kind of edit, and what is done at the end
	extra  func() bool
	finish func()
	last   string
	way    int // how the next feature is written
	// no bulk addition of an object together with one which contains it
	noNested bool
	// draws the values of attributes, genValue if nil
	value func(f *Feat) any
	// the edit replaces a whole content : it may remove and add the same elements
	replacing bool
	// identifiers which denote objects of a resource, and these objects
	identified   map[int][]string
	identifiedBy map[int][]int
}

type worldOpts struct {
	minObjs, maxObjs int
	minRess, maxRess int
	kinds            bool
	set              bool                          // resources in a resource set
	create           func(cl *Class) ecore.EObject // the objects, if not nil
	model            func(m *Model)                // is told of the model, if not nil
}

func newWorld(t *rapid.T, c *Rec, m *Model, o worldOpts) *World {
	w := &World{t: t, c: c, m: m, index: map[ecore.EObject]int{}}
	classes := m.Concrete(nil)
	n := rapid.IntRange(o.minObjs, o.maxObjs).Draw(t, "nobjs")
	for i := 0; i < n; i++ {
		cl := rapid.SampledFrom(classes).Draw(t, "class")
		kind := kindDynamic
		if o.kinds {
			kind = rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "kind")
		}
		if o.create != nil {
			w.addObj(cl, o.create(cl))
		} else {
			w.addObj(cl, m.NewKind(cl, kind))
		}
		c.Logf("o%d = new %s kind %d", i, cl.Name, kind)
	}
	if o.maxRess > 0 {
		var rs ecore.EResourceSet
		if o.set {
			rs = ecore.NewEResourceSetImpl()
		}
		for i, k := 0, rapid.IntRange(o.minRess, o.maxRess).Draw(t, "nress"); i < k; i++ {
			r := ecore.NewEResourceImpl()
			r.SetURI(ecore.NewURI(fmt.Sprintf("mem:/r%d.xmi", i)))
			if rs != nil {
				rs.GetResources().Add(r)
			}
			w.ress = append(w.ress, r)
			w.contents = append(w.contents, nil)
		}
	}
	return w
}

func (w *World) addObj(cl *Class, o ecore.EObject) int {
	i := len(w.objs)
	w.objs = append(w.objs, o)
	w.cls = append(w.cls, cl)
	w.attrs = append(w.attrs, map[*Feat][]any{})
	w.refs = append(w.refs, map[*Feat][]int{})
	w.cont = append(w.cont, -1)
	w.contF = append(w.contF, nil)
	w.direct = append(w.direct, -1)
	w.index[o] = i
	return i
}

func (w *World) name(x any) string {
	if o, ok := x.(ecore.EObject); ok {
		if i, ok := w.index[o]; ok {
			return fmt.Sprintf("o%d", i)
		}
		return "<unknown object>"
	}
	return fmtValue(x)
}

// ---- reference model ----

func without(s []int, b int) []int {
	r := make([]int, 0, len(s))
	done := false
	for _, x := range s {
		if x == b && !done {
			done = true
			continue
		}
		r = append(r, x)
	}
	return r
}

func has(s []int, b int) bool {
	for _, x := range s {
		if x == b {
			return true
		}
	}
	return false
}

func indexOf(s []int, b int) int {
	for i, x := range s {
		if x == b {
			return i
		}
	}
	return -1
}

func insertAt(s []int, i int, b int) []int {
	r := make([]int, 0, len(s)+1)
	r = append(r, s[:i]...)
	r = append(r, b)
	return append(r, s[i:]...)
}

func (w *World) unlink(a int, f *Feat, b int) {
	if f.Container() {
		w.unlink(b, f.Opp, a)
		return
	}
	w.refs[a][f] = without(w.refs[a][f], b)
	if f.Opp != nil {
		w.refs[b][f.Opp] = without(w.refs[b][f.Opp], a)
	}
	if f.Cont {
		w.cont[b], w.contF[b] = -1, nil
	}
}

func (w *World) detachFromContainer(b int) {
	if w.cont[b] >= 0 {
		w.unlink(w.cont[b], w.contF[b], b)
	}
}

// link makes a refer to b through f, at pos in a many-valued f (-1 : at the end)
func (w *World) link(a int, f *Feat, b int, pos int) {
	if f.Container() {
		w.link(b, f.Opp, a, -1)
		return
	}
	if has(w.refs[a][f], b) {
		return
	}
	if f.Cont {
		w.detachFromContainer(b)
	}
	if !f.Many && len(w.refs[a][f]) > 0 {
		w.unlink(a, f, w.refs[a][f][0])
	}
	if f.Opp != nil && !f.Opp.Many && !f.Cont && len(w.refs[b][f.Opp]) > 0 {
		w.unlink(w.refs[b][f.Opp][0], f, b)
	}
	s := w.refs[a][f]
	if pos < 0 {
		pos = len(s)
	}
	w.refs[a][f] = insertAt(s, pos, b)
	if f.Opp != nil {
		w.refs[b][f.Opp] = append(without(w.refs[b][f.Opp], a), a)
	}
	if f.Cont {
		w.cont[b], w.contF[b] = a, f
		if w.direct[b] >= 0 && !f.Resolve {
			r := w.direct[b]
			w.contents[r] = without(w.contents[r], b)
			w.direct[b] = -1
		}
	}
}

func (w *World) addContent(r, b, pos int) {
	if w.direct[b] >= 0 {
		o := w.direct[b]
		w.contents[o] = without(w.contents[o], b)
	}
	if w.cont[b] >= 0 && !w.contF[b].Resolve {
		w.detachFromContainer(b)
	}
	w.direct[b] = r
	w.contents[r] = insertAt(w.contents[r], pos, b)
}

func (w *World) removeContent(r, b int) {
	w.contents[r] = without(w.contents[r], b)
	w.direct[b] = -1
}

func (w *World) resourceOf(b int) int {
	for b >= 0 {
		if w.direct[b] >= 0 {
			return w.direct[b]
		}
		b = w.cont[b]
	}
	return -1
}

// inTree : d is a or contained in a
func (w *World) inTree(a, d int) bool {
	for d >= 0 {
		if d == a {
			return true
		}
		d = w.cont[d]
	}
	return false
}

// ---- edits ----

func (w *World) do(op string, f func()) {
	w.last = op
	w.replacing = strings.Contains(op, " = ")
	w.c.Logf("%s", op)
	if w.before != nil {
		w.before(op)
	}
	if p := try(f); p != nil {
		w.t.Fatalf("%s : panic %v\n%s", op, p, w.c.trace.String())
	}
	if w.after != nil {
		w.after(op)
	}
}

func (w *World) fail(format string, args ...any) {
	w.t.Fatalf("after %s : %s\n%s", w.last, fmt.Sprintf(format, args...), w.c.trace.String())
}

func (w *World) list(a int, f *Feat) ecore.EList {
	return w.objs[a].EGet(f.E).(ecore.EList)
}

// candidates for a.f, never making an object its own ancestor
func (w *World) candidates(a int, f *Feat) []int {
	var r []int
	for b := range w.objs {
		if !w.cls[b].IsA(f.Target) {
			continue
		}
		if f.Cont && w.inTree(b, a) || f.Container() && w.inTree(a, b) {
			continue
		}
		r = append(r, b)
	}
	return r
}

// unnested leaves out objects contained in other ones of the selection
func (w *World) unnested(bs []int) []int {
	if !w.noNested {
		return bs
	}
	r := []int{}
	for _, b := range bs {
		ok := true
		for _, x := range bs {
			ok = ok && (x == b || !w.inTree(x, b))
		}
		if ok {
			r = append(r, b)
		}
	}
	return r
}

func (w *World) coll(bs []int) ecore.Collection {
	es := make([]any, len(bs))
	for i, b := range bs {
		es[i] = w.objs[b]
	}
	return ecore.NewImmutableEList(es)
}

// step performs one edit ; false when none was possible
func (w *World) step() bool {
	t := w.t
	if w.extra != nil && oneIn(t, 10, "extra") {
		return w.extra()
	}
	if len(w.ress) > 0 && rapid.IntRange(0, 5).Draw(t, "res?") == 0 {
		return w.stepContents()
	}
	a := rapid.IntRange(0, len(w.objs)-1).Draw(t, "a")
	if (w.cont[a] >= 0 || w.direct[a] >= 0) && oneIn(t, 15, "remove") {
		if w.cont[a] >= 0 {
			w.detachFromContainer(a)
		}
		if w.direct[a] >= 0 {
			w.removeContent(w.direct[a], a)
		}
		w.do(fmt.Sprintf("Remove(o%d)", a), func() { ecore.Remove(w.objs[a]) })
		return true
	}
	fs := w.cls[a].All()
	if len(fs) == 0 {
		return false
	}
	f := rapid.SampledFrom(fs).Draw(t, "f")
	if f.ReadOnly {
		return false
	}
	if f.Attr {
		if f.Many {
			w.stepManyAttr(a, f)
		} else {
			w.stepAttr(a, f)
		}
		return true
	}
	if f.Many {
		return w.stepManyRef(a, f)
	}
	return w.stepRef(a, f)
}

// eSet writes a feature : by feature, by identifier or by generated accessor
func (w *World) eSet(o ecore.EObject, f *Feat, v any) {
	w.way = (w.way*5 + 3) % 16
	switch {
	case w.way%4 == 0:
		o.(ecore.EObjectInternal).ESetFromID(o.EClass().GetFeatureID(f.E), v)
	case w.way%4 == 1 && w.m.Static && v != nil:
		accessor(o, "Set", f).Call([]reflect.Value{reflect.ValueOf(v)})
	default:
		o.ESet(f.E, v)
	}
}

func (w *World) eUnset(o ecore.EObject, f *Feat) {
	w.way = (w.way*5 + 3) % 16
	if w.way%3 == 0 {
		o.(ecore.EObjectInternal).EUnsetFromID(o.EClass().GetFeatureID(f.E))
	} else {
		o.EUnset(f.E)
	}
}

// accessor is the generated accessor of a feature of Ecore
func accessor(o ecore.EObject, prefix string, f *Feat) reflect.Value {
	n := strings.ToUpper(f.Name[:1]) + f.Name[1:]
	if prefix == "Get" && f.Attr && f.DT == "EBoolean" {
		prefix = "Is"
	}
	m := reflect.ValueOf(o).MethodByName(prefix + n)
	if !m.IsValid() {
		panic("no accessor " + prefix + n)
	}
	return m
}

func (w *World) stepAttr(a int, f *Feat) {
	t, o := w.t, w.objs[a]
	switch rapid.IntRange(0, 3).Draw(t, "aop") {
	case 0:
		w.attrs[a][f] = nil
		w.do(fmt.Sprintf("o%d.unset %s", a, f.Name), func() { w.eUnset(o, f) })
	default:
		var v any
		if w.value != nil {
			v = w.value(f)
		}
		if v == nil {
			v = genValue(t, w.m, f.DT, AlphaWord)
		}
		w.attrs[a][f] = []any{v}
		w.do(fmt.Sprintf("o%d.%s = %s", a, f.Name, fmtValue(v)), func() { w.eSet(o, f, v) })
	}
}

func (w *World) stepManyAttr(a int, f *Feat) {
	t, o := w.t, w.objs[a]
	m := &listModel{s: w.attrs[a][f], unique: f.Unique}
	val := func() any {
		if w.value != nil {
			return w.value(f)
		}
		return genValue(t, w.m, f.DT, AlphaWord)
	}
	vals := func() []any {
		n := rapid.IntRange(0, 3).Draw(t, "n")
		r := make([]any, n)
		for i := range r {
			if len(m.s) > 0 && rapid.Bool().Draw(t, "old") {
				r[i] = m.s[rapid.IntRange(0, len(m.s)-1).Draw(t, "i")]
			} else {
				r[i] = val()
			}
		}
		return r
	}
	pos := func(n int) int { return rapid.IntRange(0, n).Draw(t, "pos") }
	name := fmt.Sprintf("o%d.%s", a, f.Name)
	str := func(es []any) string { return show(es, fmtValue) }
	n := len(m.s)
	set := func() { w.attrs[a][f] = m.s }
	switch op := rapid.IntRange(0, 12).Draw(t, "lop"); {
	case op <= 1 || n == 0 && op >= 5 && op <= 9:
		v := val()
		m.insert(n, m.fresh([]any{v})...)
		set()
		w.do(fmt.Sprintf("%s.add %s", name, fmtValue(v)), func() { w.list(a, f).Add(v) })
	case op == 2:
		vs := vals()
		m.insert(n, m.fresh(vs)...)
		set()
		w.do(fmt.Sprintf("%s.addAll %s", name, str(vs)), func() { w.list(a, f).AddAll(ecore.NewImmutableEList(vs)) })
	case op == 3:
		v, i := val(), pos(n)
		m.insert(i, m.fresh([]any{v})...)
		set()
		w.do(fmt.Sprintf("%s.insert %d %s", name, i, fmtValue(v)), func() { w.list(a, f).Insert(i, v) })
	case op == 4:
		vs, i := vals(), pos(n)
		m.insert(i, m.fresh(vs)...)
		set()
		w.do(fmt.Sprintf("%s.insertAll %d %s", name, i, str(vs)), func() { w.list(a, f).InsertAll(i, ecore.NewImmutableEList(vs)) })
	case op == 5:
		v, i := val(), pos(n-1)
		if f.Unique && m.index(v) >= 0 && m.index(v) != i {
			v = m.s[i]
		}
		m.s = append([]any{}, m.s...)
		m.s[i] = v
		set()
		w.do(fmt.Sprintf("%s.set %d %s", name, i, fmtValue(v)), func() { w.list(a, f).Set(i, v) })
	case op == 6:
		i, j := pos(n-1), pos(n-1)
		e := m.remove(i)
		m.insert(j, e)
		set()
		w.do(fmt.Sprintf("%s.move %d to %d", name, i, j), func() { w.list(a, f).Move(i, j) })
	case op == 7:
		i := pos(n - 1)
		m.remove(i)
		set()
		w.do(fmt.Sprintf("%s.removeAt %d", name, i), func() { w.list(a, f).RemoveAt(i) })
	case op == 8:
		i := pos(n - 1)
		j := rapid.IntRange(i, n).Draw(t, "to")
		m.s = append(append([]any{}, m.s[:i]...), m.s[j:]...)
		set()
		w.do(fmt.Sprintf("%s.removeRange %d %d", name, i, j), func() { w.list(a, f).RemoveRange(i, j) })
	case op == 9:
		vs := vals()
		var k []any
		for _, e := range m.s {
			in := false
			for _, v := range vs {
				in = in || sameElem(v, e)
			}
			if !in {
				k = append(k, e)
			}
		}
		m.s = k
		set()
		w.do(fmt.Sprintf("%s.removeAll %s", name, str(vs)), func() { w.list(a, f).RemoveAll(ecore.NewImmutableEList(vs)) })
	case op == 10:
		m.s = nil
		set()
		w.do(name+".clear", func() { w.list(a, f).Clear() })
	case op == 11:
		m.s = nil
		set()
		w.do("unset "+name, func() { w.eUnset(o, f) })
	default:
		vs := vals()
		m.s = nil
		m.s = m.fresh(vs)
		set()
		w.do(fmt.Sprintf("%s = %s", name, str(vs)), func() { o.ESet(f.E, ecore.NewImmutableEList(vs)) })
	}
}

func (w *World) stepRef(a int, f *Feat) bool {
	t, o := w.t, w.objs[a]
	old := -1
	if len(w.refs[a][f]) > 0 {
		old = w.refs[a][f][0]
	}
	op := rapid.IntRange(0, 5).Draw(t, "rop")
	if op <= 1 {
		if old >= 0 {
			w.unlink(a, f, old)
		}
		if op == 0 {
			w.do(fmt.Sprintf("unset o%d.%s", a, f.Name), func() { w.eUnset(o, f) })
		} else {
			w.do(fmt.Sprintf("o%d.%s = nil", a, f.Name), func() { w.eSet(o, f, nil) })
		}
		return true
	}
	cs := w.candidates(a, f)
	if len(cs) == 0 {
		return false
	}
	b := rapid.SampledFrom(cs).Draw(t, "b")
	w.link(a, f, b, -1)
	w.do(fmt.Sprintf("o%d.%s = o%d", a, f.Name, b), func() { w.eSet(o, f, w.objs[b]) })
	return true
}

func (w *World) stepManyRef(a int, f *Feat) bool {
	t, o := w.t, w.objs[a]
	cs := w.candidates(a, f)
	s := w.refs[a][f]
	n := len(s)
	pick := func() int { return rapid.SampledFrom(cs).Draw(t, "b") }
	picks := func() []int {
		k := rapid.IntRange(0, 4).Draw(t, "n")
		r := make([]int, k)
		for i := range r {
			r[i] = pick()
		}
		return w.unnested(r)
	}
	pos := func(n int) int { return rapid.IntRange(0, n).Draw(t, "pos") }
	name := fmt.Sprintf("o%d.%s", a, f.Name)
	linkAll := func(bs []int, at int) {
		for _, b := range bs {
			if !has(w.refs[a][f], b) {
				w.link(a, f, b, at)
				at++
			}
		}
	}
	unlinkAll := func(bs []int) {
		for _, b := range bs {
			w.unlink(a, f, b)
		}
	}
	op := rapid.IntRange(0, 13).Draw(t, "mop")
	if len(cs) == 0 && (op <= 5 || op == 9 || op == 10 || op == 13) {
		return false
	}
	if n == 0 && op >= 5 && op <= 9 {
		op = 0
	}
	if len(cs) == 0 && op == 0 {
		return false
	}
	switch op {
	case 0, 1:
		b := pick()
		linkAll([]int{b}, n)
		w.do(fmt.Sprintf("%s.add o%d", name, b), func() { w.list(a, f).Add(w.objs[b]) })
	case 2:
		bs := picks()
		linkAll(bs, n)
		w.do(fmt.Sprintf("%s.addAll %v", name, bs), func() { w.list(a, f).AddAll(w.coll(bs)) })
	case 3:
		b, i := pick(), pos(n)
		linkAll([]int{b}, i)
		w.do(fmt.Sprintf("%s.insert %d o%d", name, i, b), func() { w.list(a, f).Insert(i, w.objs[b]) })
	case 4:
		bs, i := picks(), pos(n)
		linkAll(bs, i)
		w.do(fmt.Sprintf("%s.insertAll %d %v", name, i, bs), func() { w.list(a, f).InsertAll(i, w.coll(bs)) })
	case 5:
		b, i := pick(), pos(n-1)
		if has(s, b) && s[i] != b {
			b = s[i]
		}
		if b != s[i] {
			w.unlink(a, f, s[i])
			w.link(a, f, b, i)
		}
		w.do(fmt.Sprintf("%s.set %d o%d", name, i, b), func() { w.list(a, f).Set(i, w.objs[b]) })
	case 6:
		i, j := pos(n-1), pos(n-1)
		b := s[i]
		w.refs[a][f] = insertAt(without(s, b), j, b)
		if rapid.Bool().Draw(t, "byobject") {
			w.do(fmt.Sprintf("%s.moveObject %d o%d", name, j, b), func() { w.list(a, f).MoveObject(j, w.objs[b]) })
		} else {
			w.do(fmt.Sprintf("%s.move %d to %d", name, i, j), func() { w.list(a, f).Move(i, j) })
		}
	case 7:
		i := pos(n - 1)
		b := s[i]
		w.unlink(a, f, b)
		if rapid.Bool().Draw(t, "byobject") {
			w.do(fmt.Sprintf("%s.remove o%d", name, b), func() { w.list(a, f).Remove(w.objs[b]) })
		} else {
			w.do(fmt.Sprintf("%s.removeAt %d", name, i), func() { w.list(a, f).RemoveAt(i) })
		}
	case 8:
		i := pos(n - 1)
		j := rapid.IntRange(i, n).Draw(t, "to")
		unlinkAll(append([]int{}, s[i:j]...))
		w.do(fmt.Sprintf("%s.removeRange %d %d", name, i, j), func() { w.list(a, f).RemoveRange(i, j) })
	case 9:
		bs := picks()
		for _, b := range bs {
			if has(w.refs[a][f], b) {
				w.unlink(a, f, b)
			}
		}
		w.do(fmt.Sprintf("%s.removeAll %v", name, bs), func() { w.list(a, f).RemoveAll(w.coll(bs)) })
	case 10:
		// keep what is in the argument
		bs := picks()
		for _, b := range append([]int{}, s...) {
			if !has(bs, b) {
				w.unlink(a, f, b)
			}
		}
		w.do(fmt.Sprintf("%s.retainAll %v", name, bs), func() {
			l := w.list(a, f)
			for i := l.Size() - 1; i >= 0; i-- {
				if !w.coll(bs).(ecore.EList).Contains(l.Get(i)) {
					l.RemoveAt(i)
				}
			}
		})
	case 11:
		unlinkAll(append([]int{}, s...))
		w.do(name+".clear", func() { w.list(a, f).Clear() })
	case 12:
		unlinkAll(append([]int{}, s...))
		w.do("unset "+name, func() { w.eUnset(o, f) })
	default:
		bs := picks()
		unlinkAll(append([]int{}, s...))
		linkAll(bs, 0)
		w.do(fmt.Sprintf("%s = %v", name, bs), func() { o.ESet(f.E, w.coll(bs)) })
	}
	return true
}

func (w *World) stepContents() bool {
	t := w.t
	r := rapid.IntRange(0, len(w.ress)-1).Draw(t, "r")
	s := w.contents[r]
	n := len(s)
	l := w.ress[r].GetContents()
	name := fmt.Sprintf("r%d", r)
	pick := func() int { return rapid.IntRange(0, len(w.objs)-1).Draw(t, "b") }
	picks := func() []int {
		k := rapid.IntRange(0, 4).Draw(t, "n")
		x := make([]int, k)
		for i := range x {
			x[i] = pick()
		}
		return w.unnested(x)
	}
	addAll := func(bs []int, at int) {
		for _, b := range bs {
			if !has(w.contents[r], b) {
				w.addContent(r, b, at)
				at++
			}
		}
	}
	pos := func(n int) int { return rapid.IntRange(0, n).Draw(t, "pos") }
	op := rapid.IntRange(0, 10).Draw(t, "cop")
	if n == 0 && op >= 4 {
		op = 0
	}
	switch op {
	case 0, 1:
		b := pick()
		addAll([]int{b}, n)
		w.do(fmt.Sprintf("%s.add o%d", name, b), func() { l.Add(w.objs[b]) })
	case 2:
		bs := picks()
		addAll(bs, n)
		w.do(fmt.Sprintf("%s.addAll %v", name, bs), func() { l.AddAll(w.coll(bs)) })
	case 3:
		b, i := pick(), pos(n)
		addAll([]int{b}, i)
		w.do(fmt.Sprintf("%s.insert %d o%d", name, i, b), func() { l.Insert(i, w.objs[b]) })
	case 4:
		i := pos(n - 1)
		w.removeContent(r, s[i])
		w.do(fmt.Sprintf("%s.removeAt %d", name, i), func() { l.RemoveAt(i) })
	case 5:
		b := s[pos(n-1)]
		w.removeContent(r, b)
		w.do(fmt.Sprintf("%s.remove o%d", name, b), func() { l.Remove(w.objs[b]) })
	case 6:
		i, j := pos(n-1), pos(n-1)
		b := s[i]
		w.contents[r] = insertAt(without(s, b), j, b)
		w.do(fmt.Sprintf("%s.move %d to %d", name, i, j), func() { l.Move(i, j) })
	case 7:
		b, i := pick(), pos(n-1)
		if has(s, b) {
			b = s[i]
		}
		if b != s[i] {
			w.removeContent(r, s[i])
			w.addContent(r, b, i)
		}
		w.do(fmt.Sprintf("%s.set %d o%d", name, i, b), func() { l.Set(i, w.objs[b]) })
	case 8:
		bs := picks()
		for _, b := range bs {
			if has(w.contents[r], b) {
				w.removeContent(r, b)
			}
		}
		w.do(fmt.Sprintf("%s.removeAll %v", name, bs), func() { l.RemoveAll(w.coll(bs)) })
	default:
		for _, b := range append([]int{}, s...) {
			w.removeContent(r, b)
		}
		if op == 10 {
			w.do(name+".unload", func() { w.ress[r].Unload() })
			return true
		}
		w.do(name+".clear", func() { l.Clear() })
	}
	return true
}

// ---- comparison with the model ----

func (w *World) namesOf(bs []int) string {
	ss := make([]string, len(bs))
	for i, b := range bs {
		ss[i] = fmt.Sprintf("o%d", b)
	}
	return "[" + strings.Join(ss, " ") + "]"
}

func (w *World) raw(i int, f *Feat) []any {
	v := w.objs[i].EGetResolve(f.E, false)
	if f.Many {
		l := v.(ecore.EList)
		if ol, ok := l.(ecore.EObjectList); ok {
			l = ol.GetUnResolvedList()
		}
		return append([]any{}, l.ToArray()...)
	}
	if v == nil {
		return nil
	}
	return []any{v}
}

func (w *World) show(es []any) string { return show(es, w.name) }

// checkRefs : every reference holds what the model says
func (w *World) checkRefs() {
	for i := range w.objs {
		for _, f := range w.cls[i].All() {
			if f.Attr {
				continue
			}
			got, want := w.raw(i, f), w.refs[i][f]
			ok := len(got) == len(want)
			for k := 0; ok && k < len(got); k++ {
				ok = got[k] == any(w.objs[want[k]])
			}
			if !ok {
				w.fail("o%d.%s holds %s, should hold %s", i, f.Name, w.show(got), w.namesOf(want))
			}
			if set := w.objs[i].EIsSet(f.E); set != (len(want) > 0) {
				w.fail("o%d.%s is-set is %v but it holds %s", i, f.Name, set, w.namesOf(want))
			}
		}
	}
}

func (w *World) checkAttrs() {
	for i := range w.objs {
		for _, f := range w.cls[i].All() {
			if !f.Attr {
				continue
			}
			got, want := w.raw(i, f), w.attrs[i][f]
			if !f.Many && len(want) == 0 {
				if d := defaultOf(w.m, f); d != nil {
					want = []any{d}
				}
			}
			if show(got, fmtValue) != show(want, fmtValue) {
				w.fail("o%d.%s holds %s, should hold %s", i, f.Name, show(got, fmtValue), show(want, fmtValue))
			}
		}
	}
}

func (w *World) checkContainment() {
	for i, o := range w.objs {
		var want ecore.EObject
		if w.cont[i] >= 0 {
			want = w.objs[w.cont[i]]
		}
		if got := o.EContainer(); got != want {
			w.fail("container of o%d is %s, should be o%d", i, w.name(got), w.cont[i])
		}
		if w.cont[i] >= 0 {
			f := w.contF[i]
			if got := o.EContainingFeature(); got != f.E {
				w.fail("containing feature of o%d is %v, should be %s", i, featName(got), f.Name)
			}
			if f.Opp == nil {
				// see the known finding of P04 for bidirectional containments
				if got := o.EContainmentFeature(); got != f.E {
					w.fail("containment feature of o%d is %v, should be %s", i, featName(got), f.Name)
				}
			}
		} else {
			if got := o.EContainingFeature(); got != nil {
				w.fail("o%d has no container but a containing feature %s", i, featName(got))
			}
			if got := o.EContainmentFeature(); got != nil {
				w.fail("o%d has no container but a containment feature %s", i, featName(got))
			}
		}
		var wr ecore.EResource
		if r := w.resourceOf(i); r >= 0 {
			wr = w.ress[r]
		}
		if got := o.EResource(); got != wr {
			w.fail("resource of o%d is %v, should be r%d", i, w.resName(got), w.resourceOf(i))
		}
		var wd ecore.EResource
		if r := w.direct[i]; r >= 0 {
			wd = w.ress[r]
		}
		if got := o.(ecore.EObjectInternal).EInternalResource(); got != wd {
			w.fail("direct resource of o%d is %v, should be r%d", i, w.resName(got), w.direct[i])
		}
		// ancestors
		for j, p := range w.objs {
			if got, want := ecore.IsAncestor(p, o), w.inTree(j, i); got != want {
				w.fail("IsAncestor(o%d, o%d) is %v", j, i, got)
			}
		}
		for _, c := range w.m.Classes {
			var want ecore.EObject
			for k := i; k >= 0; k = w.cont[k] {
				if w.cls[k] == c {
					want = w.objs[k]
					break
				}
			}
			if got := ecore.GetAncestor(o, c.E); got != want {
				w.fail("GetAncestor(o%d, %s) is %s", i, c.Name, w.name(got))
			}
		}
		// contents
		var wc []any
		for _, f := range w.cls[i].All() {
			if f.Cont {
				for _, b := range w.refs[i][f] {
					wc = append(wc, w.objs[b])
				}
			}
		}
		if got := o.EContents().ToArray(); !sameSeq(got, wc) {
			w.fail("contents of o%d are %s, should be %s", i, w.show(got), w.show(wc))
		}
	}
	for r := range w.ress {
		var wc []any
		for _, b := range w.contents[r] {
			wc = append(wc, w.objs[b])
		}
		if got := w.ress[r].GetContents().ToArray(); !sameSeq(got, wc) {
			w.fail("contents of r%d are %s, should be %s", r, w.show(got), w.show(wc))
		}
	}
}

func (w *World) resName(r ecore.EResource) string {
	for i := range w.ress {
		if w.ress[i] == r {
			return fmt.Sprintf("r%d", i)
		}
	}
	if r == nil {
		return "none"
	}
	return "<unknown resource>"
}

func featName(f ecore.EStructuralFeature) string {
	if f == nil {
		return "none"
	}
	return f.GetName()
}

// plant puts most objects under one another, so that histories start with a tree
func (w *World) plant() {
	for b := 1; b < len(w.objs); b++ {
		type place struct {
			a int
			f *Feat
		}
		var ps []place
		for a := 0; a < b; a++ {
			for _, f := range w.cls[a].All() {
				if f.Cont && !f.ReadOnly && w.cls[b].IsA(f.Target) && (f.Many || len(w.refs[a][f]) == 0) {
					ps = append(ps, place{a, f})
				}
			}
		}
		if len(ps) == 0 || oneIn(w.t, 5, "root") {
			continue
		}
		p := rapid.SampledFrom(ps).Draw(w.t, "place")
		w.link(p.a, p.f, b, -1)
		w.do(fmt.Sprintf("plant o%d in o%d.%s", b, p.a, p.f.Name), func() {
			if p.f.Many {
				w.list(p.a, p.f).Add(w.objs[b])
			} else {
				w.objs[p.a].ESet(p.f.E, w.objs[b])
			}
		})
	}
}
