package harness

// P09: derived views of a metamodel against a plain model of the metamodel.

import (
	"fmt"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

type mmClass struct {
	id     int
	name   string
	e      ecore.EClass
	supers []*mmClass
	feats  []*mmFeat
	ops    []*mmOp
	pkg    *mmPkg
}

type mmFeat struct {
	id                 int
	name               string
	e                  ecore.EStructuralFeature
	attr               bool
	isID, cont, deriv  bool
	opp                *mmFeat
	owner              *mmClass
	lower, upper       int
	typ                ecore.EClassifier
	dt                 string
	lit                string
	defaultFromLiteral bool
}

type mmParam struct {
	e   ecore.EParameter
	typ ecore.EClassifier
	op  *mmOp
}

type mmOp struct {
	id     int
	name   string
	e      ecore.EOperation
	params []*mmParam
	owner  *mmClass
}

type mmPkg struct {
	id          int
	e           ecore.EPackage
	classifiers []any // *mmClass or *mmEnum
}

type mmEnum struct {
	name string
	e    ecore.EEnum
	lits []*mmLit
	pkg  *mmPkg
}

type mmLit struct {
	name, literal string
	value         int
	e             ecore.EEnumLiteral
	enum          *mmEnum
}

type mm struct {
	t       *rapid.T
	c       *Rec
	classes []*mmClass
	feats   []*mmFeat
	ops     []*mmOp
	params  []*mmParam
	pkgs    []*mmPkg
	enums   []*mmEnum
	lits    []*mmLit
	model   *Model
	last    string
}

func (x *mm) nm(o any) string {
	switch v := o.(type) {
	case *mmClass:
		return fmt.Sprintf("C%d", v.id)
	case *mmFeat:
		return fmt.Sprintf("f%d", v.id)
	case *mmOp:
		return fmt.Sprintf("o%d", v.id)
	case *mmPkg:
		return fmt.Sprintf("P%d", v.id)
	case *mmParam:
		for i, p := range x.params {
			if p == v {
				return fmt.Sprintf("p%d", i)
			}
		}
	case *mmEnum:
		return "enum " + v.name
	case *mmLit:
		return "lit " + v.name
	}
	return fmt.Sprintf("%v", o)
}

func (x *mm) logf(f string, a ...any) {
	x.last = fmt.Sprintf(f, a...)
	x.c.Logf("%s", x.last)
}

func (x *mm) do(f func()) {
	if p := try(f); p != nil {
		x.t.Fatalf("%s: panic: %v", x.last, p)
	}
}

func mmAdd[T comparable](dst *[]T, seen map[T]bool, es ...T) {
	for _, e := range es {
		if !seen[e] {
			seen[e] = true
			*dst = append(*dst, e)
		}
	}
}

func (c *mmClass) allSupers() []*mmClass {
	var r []*mmClass
	seen := map[*mmClass]bool{}
	for _, s := range c.supers {
		mmAdd(&r, seen, s.allSupers()...)
		mmAdd(&r, seen, s)
	}
	return r
}

func (c *mmClass) allFeats() []*mmFeat {
	var r []*mmFeat
	seen := map[*mmFeat]bool{}
	for _, s := range c.supers {
		mmAdd(&r, seen, s.allFeats()...)
	}
	mmAdd(&r, seen, c.feats...)
	return r
}

func (c *mmClass) allOps() []*mmOp {
	var r []*mmOp
	seen := map[*mmOp]bool{}
	for _, s := range c.supers {
		mmAdd(&r, seen, s.allOps()...)
	}
	mmAdd(&r, seen, c.ops...)
	return r
}

func (c *mmClass) isA(d *mmClass) bool {
	if c == d {
		return true
	}
	for _, s := range c.supers {
		if s.isA(d) {
			return true
		}
	}
	return false
}

func (f *mmFeat) container() bool { return f.opp != nil && f.opp.cont }

func mmFilter(fs []*mmFeat, keep func(*mmFeat) bool) []any {
	r := []any{}
	for _, f := range fs {
		if keep(f) {
			r = append(r, f)
		}
	}
	return r
}

func toAny[T any](s []T) []any {
	r := make([]any, len(s))
	for i, e := range s {
		r[i] = e
	}
	return r
}

// mmHas : plain membership
func mmHas[T comparable](s []T, e T) bool {
	for _, x := range s {
		if x == e {
			return true
		}
	}
	return false
}

func mmWithout[T comparable](s []T, e T) []T {
	r := []T{}
	for _, x := range s {
		if x != e {
			r = append(r, x)
		}
	}
	return r
}

func mmInsert[T any](s []T, i int, es ...T) []T {
	r := append([]T{}, s[:i]...)
	r = append(r, es...)
	return append(r, s[i:]...)
}

// mmEdit draws one edit of a list of model elements. pool are the elements
// which may be added, take is called before an element enters the list (to
// take it out of the list it is in) and leave when it goes out.
func mmEdit[T comparable](x *mm, what string, list ecore.EList, cur *[]T, pool []T, obj func(T) any, enter, leave func(T)) {
	t := x.t
	cand := []T{}
	for _, p := range pool {
		if !mmHas(*cur, p) {
			cand = append(cand, p)
		}
	}
	names := func(ts []T) string {
		s := ""
		for _, e := range ts {
			s += " " + x.nm(e)
		}
		return s
	}
	n := len(*cur)
	if list.Size() != n {
		t.Fatalf("%s holds %d elements instead of %d, after %s", what, list.Size(), n, x.last)
	}
	in := func(es ...T) {
		for _, e := range es {
			enter(e)
		}
	}
	op := rapid.SampledFrom([]string{"add", "add", "add", "insert", "insert", "addall", "insertall", "remove", "remove", "removeat", "move", "move", "set", "clear", "removerange", "removeall"}).Draw(t, "listop")
	switch op {
	case "add", "insert", "set":
		if len(cand) == 0 {
			return
		}
		e := rapid.SampledFrom(cand).Draw(t, "elem")
		if op == "add" {
			x.logf("%s add %s", what, x.nm(e))
			in(e)
			*cur = append(*cur, e)
			x.do(func() { list.Add(obj(e)) })
		} else if op == "insert" {
			i := rapid.IntRange(0, n).Draw(t, "i")
			x.logf("%s insert %d %s", what, i, x.nm(e))
			in(e)
			*cur = mmInsert(*cur, i, e)
			x.do(func() { list.Insert(i, obj(e)) })
		} else {
			if n == 0 {
				return
			}
			i := rapid.IntRange(0, n-1).Draw(t, "i")
			x.logf("%s set %d %s", what, i, x.nm(e))
			old := (*cur)[i]
			in(e)
			c := append([]T{}, *cur...)
			c[i] = e
			*cur = c
			leave(old)
			x.do(func() { list.Set(i, obj(e)) })
		}
	case "addall", "insertall":
		if len(cand) == 0 {
			return
		}
		es := rapid.SliceOfNDistinct(rapid.SampledFrom(cand), 1, 3, func(e T) T { return e }).Draw(t, "elems")
		i := n
		if op == "insertall" {
			i = rapid.IntRange(0, n).Draw(t, "i")
		}
		x.logf("%s %s %d%s", what, op, i, names(es))
		in(es...)
		*cur = mmInsert(*cur, i, es...)
		os := []any{}
		for _, e := range es {
			os = append(os, obj(e))
		}
		x.do(func() {
			if op == "addall" {
				list.AddAll(ecore.NewImmutableEList(os))
			} else {
				list.InsertAll(i, ecore.NewImmutableEList(os))
			}
		})
	case "remove", "removeat":
		if n == 0 {
			return
		}
		i := rapid.IntRange(0, n-1).Draw(t, "i")
		e := (*cur)[i]
		x.logf("%s %s %d %s", what, op, i, x.nm(e))
		*cur = mmWithout(*cur, e)
		leave(e)
		x.do(func() {
			if op == "remove" {
				list.Remove(obj(e))
			} else {
				list.RemoveAt(i)
			}
		})
	case "move":
		if n < 2 {
			return
		}
		i, j := rapid.IntRange(0, n-1).Draw(t, "i"), rapid.IntRange(0, n-1).Draw(t, "j")
		e := (*cur)[i]
		x.logf("%s move %s to %d", what, x.nm(e), j)
		*cur = mmInsert(mmWithout(*cur, e), j, e)
		x.do(func() { list.MoveObject(j, obj(e)) })
	case "clear":
		if rapid.IntRange(0, 2).Draw(t, "sure") > 0 {
			return
		}
		x.logf("%s clear", what)
		old := *cur
		*cur = nil
		for _, e := range old {
			leave(e)
		}
		x.do(func() { list.Clear() })
	case "removerange", "removeall":
		if n == 0 {
			return
		}
		i := rapid.IntRange(0, n-1).Draw(t, "i")
		j := rapid.IntRange(i+1, n).Draw(t, "j")
		es := append([]T{}, (*cur)[i:j]...)
		x.logf("%s %s %d %d", what, op, i, j)
		for _, e := range es {
			*cur = mmWithout(*cur, e)
			leave(e)
		}
		os := []any{}
		for _, e := range es {
			os = append(os, obj(e))
		}
		x.do(func() {
			if op == "removerange" {
				list.RemoveRange(i, j)
			} else {
				list.RemoveAll(ecore.NewImmutableEList(os))
			}
		})
	}
}

func (x *mm) same(what string, l ecore.EList, want []any, id func(any) any) {
	if l.Size() != len(want) {
		x.t.Fatalf("%s has %d elements instead of %d: %s instead of %s (last edit: %s)", what, l.Size(), len(want), x.showE(l), x.showM(want), x.last)
	}
	for i, w := range want {
		if l.Get(i) != id(w) {
			x.t.Fatalf("%s : element %d differs: %s instead of %s (last edit: %s)", what, i, x.showE(l), x.showM(want), x.last)
		}
	}
}

func (x *mm) showM(es []any) string {
	s := "["
	for _, e := range es {
		s += " " + x.nm(e)
	}
	return s + " ]"
}

func (x *mm) showE(l ecore.EList) string {
	s := "["
	for it := l.Iterator(); it.HasNext(); {
		e := it.Next()
		n := fmt.Sprintf("?%T", e)
		for _, c := range x.classes {
			if c.e == e {
				n = x.nm(c)
			}
		}
		for _, f := range x.feats {
			if f.e == e {
				n = x.nm(f)
			}
		}
		for _, o := range x.ops {
			if o.e == e {
				n = x.nm(o)
			}
		}
		s += " " + n
	}
	return s + " ]"
}

func featObj(f any) any  { return f.(*mmFeat).e }
func classObj(c any) any { return c.(*mmClass).e }
func opObj(o any) any    { return o.(*mmOp).e }

func (o *mmOp) overrides(p *mmOp) bool {
	if o.owner == nil || p.owner == nil || !o.owner.isA(p.owner) || o.name != p.name || len(o.params) != len(p.params) {
		return false
	}
	for i := range o.params {
		if o.params[i].typ != p.params[i].typ {
			return false
		}
	}
	return true
}

const mmViews = 22

func (x *mm) readClass(c *mmClass, view int) {
	e := c.e
	t := x.t
	what := func(s string) string { return x.nm(c) + "." + s }
	is := func(b bool, s string, a ...any) {
		if !b {
			t.Fatalf("%s: %s (last edit: %s)", x.nm(c), fmt.Sprintf(s, a...), x.last)
		}
	}
	all := c.allFeats()
	switch view {
	case 0:
		x.same(what("EAllSuperTypes"), e.GetEAllSuperTypes(), toAny(c.allSupers()), classObj)
	case 1:
		x.same(what("EAllAttributes"), e.GetEAllAttributes(), mmFilter(all, func(f *mmFeat) bool { return f.attr }), featObj)
	case 2:
		x.same(what("EAllReferences"), e.GetEAllReferences(), mmFilter(all, func(f *mmFeat) bool { return !f.attr }), featObj)
	case 3:
		x.same(what("EAllContainments"), e.GetEAllContainments(), mmFilter(all, func(f *mmFeat) bool { return !f.attr && f.cont }), featObj)
	case 4:
		x.same(what("EAllCrossReferences"), e.GetEAllCrossReferences(), mmFilter(all, func(f *mmFeat) bool { return !f.attr && !f.cont && !f.container() }), featObj)
	case 5:
		x.same(what("EContainmentFeatures"), e.GetEContainmentFeatures(), mmFilter(all, func(f *mmFeat) bool { return !f.attr && f.cont && !f.deriv }), featObj)
	case 6:
		x.same(what("ECrossReferenceFeatures"), e.GetECrossReferenceFeatures(), mmFilter(all, func(f *mmFeat) bool { return !f.attr && !f.cont && !f.container() && !f.deriv }), featObj)
	case 7, 8:
		x.same(what("EAllStructuralFeatures"), e.GetEAllStructuralFeatures(), toAny(all), featObj)
	case 9:
		x.same(what("EAttributes"), e.GetEAttributes(), mmFilter(c.feats, func(f *mmFeat) bool { return f.attr }), featObj)
		x.same(what("EReferences"), e.GetEReferences(), mmFilter(c.feats, func(f *mmFeat) bool { return !f.attr }), featObj)
	case 10:
		is(e.GetFeatureCount() == len(all), "FeatureCount is %d instead of %d", e.GetFeatureCount(), len(all))
		is(e.GetEStructuralFeature(-1) == nil && e.GetEStructuralFeature(len(all)) == nil, "a feature for an identifier out of range")
		for i, f := range all {
			is(e.GetEStructuralFeature(i) == f.e, "feature of identifier %d is not %s", i, x.nm(f))
		}
	case 11:
		for _, f := range x.feats {
			want := -1
			for i, g := range all {
				if f == g {
					want = i
				}
			}
			if f.owner == nil && want == -1 && f.e.GetFeatureID() == -1 {
				continue
			}
			is(e.GetFeatureID(f.e) == want, "GetFeatureID(%s) is %d instead of %d", x.nm(f), e.GetFeatureID(f.e), want)
		}
	case 12, 13:
		for _, f := range x.feats {
			var want ecore.EStructuralFeature
			if mmHas(all, f) {
				want = f.e
			}
			got := e.GetEStructuralFeatureFromName(f.name)
			is(got == want, "lookup of %q gives %v", f.name, got)
		}
		is(e.GetEStructuralFeatureFromName("nothing") == nil, "lookup of an unknown name gives a feature")
	case 14:
		var want ecore.EAttribute
		for _, f := range all {
			if f.attr && f.isID {
				want = f.e.(ecore.EAttribute)
				break
			}
		}
		got := e.GetEIDAttribute()
		is(got == want, "EIDAttribute is wrong")
	case 15, 16:
		ops := c.allOps()
		x.same(what("EAllOperations"), e.GetEAllOperations(), toAny(ops), opObj)
		is(e.GetOperationCount() == len(ops), "OperationCount is %d instead of %d", e.GetOperationCount(), len(ops))
		is(e.GetEOperation(-1) == nil && e.GetEOperation(len(ops)) == nil, "an operation for an identifier out of range")
		for i, o := range ops {
			is(e.GetEOperation(i) == o.e, "operation of identifier %d is not %s", i, x.nm(o))
		}
		for _, o := range x.ops {
			want := -1
			for i, g := range ops {
				if o == g {
					want = i
				}
			}
			is(e.GetOperationID(o.e) == want, "GetOperationID(%s) is %d instead of %d", x.nm(o), e.GetOperationID(o.e), want)
		}
	case 17:
		ops := c.allOps()
		for i, o := range ops {
			var want ecore.EOperation
			for _, p := range ops[i+1:] {
				if p.overrides(o) {
					want = p.e
					break
				}
			}
			got := e.GetOverride(o.e)
			is(got == want, "override of %s is wrong", x.nm(o))
			x.c.LabelIf(want != nil, "override")
		}
	case 18:
		for _, d := range x.classes {
			got := e.IsSuperTypeOf(d.e)
			is(got == d.isA(c), "IsSuperTypeOf(%s) is %v", x.nm(d), got)
		}
		is(!e.IsSuperTypeOf(nil), "super type of nil")
	case 19:
		for _, f := range c.feats {
			is(f.e.GetEContainingClass() == e, "containing class of %s is wrong", x.nm(f))
			x.readFeat(f)
		}
		for _, o := range c.ops {
			is(o.e.GetEContainingClass() == e, "containing class of %s is wrong", x.nm(o))
		}
	case 20:
		// identifiers held by the features, once the class was asked for its features
		e.GetEAllStructuralFeatures()
		base := len(all) - len(mmFilter(all, func(f *mmFeat) bool { return f.owner == c }))
		for i, f := range c.feats {
			is(f.e.GetFeatureID() == base+i, "%s holds identifier %d instead of %d", x.nm(f), f.e.GetFeatureID(), base+i)
		}
	case 21:
		got := e.GetEPackage()
		is((got == nil && c.pkg == nil) || (c.pkg != nil && got == c.pkg.e), "package is wrong")
	}
}

func (x *mm) readFeat(f *mmFeat) {
	is := func(b bool, s string, a ...any) {
		if !b {
			x.t.Fatalf("%s: %s (last edit: %s)", x.nm(f), fmt.Sprintf(s, a...), x.last)
		}
	}
	e := f.e
	is(e.IsMany() == (f.upper > 1 || f.upper == -1), "IsMany is %v with upper bound %d", e.IsMany(), f.upper)
	is(e.IsRequired() == (f.lower > 0), "IsRequired is %v with lower bound %d", e.IsRequired(), f.lower)
	is(e.GetEType() == f.typ, "type is wrong")
	if f.attr {
		a := e.(ecore.EAttribute)
		var want ecore.EDataType
		want, _ = f.typ.(ecore.EDataType)
		is(a.GetEAttributeType() == want, "attribute type is wrong")
		if f.typ != nil && f.typ.GetEPackage() != nil {
			got := e.GetDefaultValue()
			var w any
			if f.lit != "" {
				w = literalValue(x.model, f.dt, f.lit)
			} else if f.upper > 1 || f.upper == -1 {
				w = nil
			} else {
				w = zeroValue(x.model, f.dt)
			}
			is(sameVal(got, w), "default value is %s instead of %s", fmtValue(got), fmtValue(w))
		}
	} else {
		r := e.(ecore.EReference)
		var want ecore.EClass
		want, _ = f.typ.(ecore.EClass)
		is(r.GetEReferenceType() == want, "reference type is wrong")
		is(r.IsContainer() == f.container(), "IsContainer is %v", r.IsContainer())
		is(ecore.IsContainer(e) == f.container() && ecore.IsContains(e) == f.cont && ecore.IsBidirectional(e) == (f.opp != nil), "role of reference is wrong")
	}
}

func (x *mm) readPkg(p *mmPkg) {
	look := func(name string, e ecore.EClassifier, owner *mmPkg) {
		var want ecore.EClassifier
		if owner == p {
			want = e
		}
		if got := p.e.GetEClassifier(name); got != want {
			x.t.Fatalf("package %s: classifier %q is %v (last edit: %s)", x.nm(p), name, got, x.last)
		}
	}
	for _, c := range x.classes {
		look(c.name, c.e, c.pkg)
	}
	for _, e := range x.enums {
		look(e.name, e.e, e.pkg)
	}
	for _, n := range []string{"", "nothing", "old"} {
		if got := p.e.GetEClassifier(n); got != nil {
			x.t.Fatalf("package %s: classifier %q is %v (last edit: %s)", x.nm(p), n, got, x.last)
		}
	}
}

func (x *mm) readEnum(en *mmEnum) {
	find := func(ok func(*mmLit) bool) ecore.EEnumLiteral {
		for _, l := range en.lits {
			if ok(l) {
				return l.e
			}
		}
		return nil
	}
	chk := func(got, want ecore.EEnumLiteral, how string, arg any) {
		if got != want {
			x.t.Fatalf("enum %s: literal by %s %v is wrong (last edit: %s)", en.name, how, arg, x.last)
		}
	}
	for _, l := range append([]*mmLit{{name: "nothing", literal: "nothing", value: -77}}, x.lits...) {
		chk(en.e.GetEEnumLiteralByName(l.name), find(func(k *mmLit) bool { return k.name == l.name }), "name", l.name)
		chk(en.e.GetEEnumLiteralByLiteral(l.literal), find(func(k *mmLit) bool { return k.literal == l.literal }), "literal", l.literal)
		chk(en.e.GetEEnumLiteralByValue(l.value), find(func(k *mmLit) bool { return k.value == l.value }), "value", l.value)
	}
	var want any
	if len(en.lits) > 0 {
		want = en.lits[0].value
	}
	if got := en.e.GetDefaultValue(); got != want {
		x.t.Fatalf("enum %s: default value is %v instead of %v (last edit: %s)", en.name, got, want, x.last)
	}
	for _, l := range x.lits {
		got := l.e.GetEEnum()
		if (l.enum == nil) != (got == nil) || l.enum != nil && got != l.enum.e {
			x.t.Fatalf("enum of literal %s is wrong (last edit: %s)", l.name, x.last)
		}
	}
}

var mmDTs = []string{"EString", "EInt", "EBoolean", "EDouble", "ELong"}

func mmDT(n string) ecore.EDataType {
	p := ecore.GetPackage()
	switch n {
	case "EString":
		return p.GetEString()
	case "EInt":
		return p.GetEInt()
	case "EBoolean":
		return p.GetEBoolean()
	case "EDouble":
		return p.GetEDouble()
	}
	return p.GetELong()
}

func (x *mm) freshName(pool string) string {
	used := map[string]bool{}
	for _, f := range x.feats {
		used[f.name] = true
	}
	for _, c := range x.classes {
		used[c.name] = true
	}
	for _, e := range x.enums {
		used[e.name] = true
	}
	var free []string
	for i := 0; i < len(x.feats)+len(x.classes)+len(x.enums)+3; i++ {
		if n := fmt.Sprintf("%s%d", pool, i); !used[n] {
			free = append(free, n)
		}
	}
	return rapid.SampledFrom(free).Draw(x.t, "name")
}

func (x *mm) edit() {
	t := x.t
	switch rapid.IntRange(0, 17).Draw(t, "edit") {
	case 0, 1, 2, 3: // features of a class
		c := rapid.SampledFrom(x.classes).Draw(t, "class")
		mmEdit(x, x.nm(c)+".features", c.e.GetEStructuralFeatures(), &c.feats, x.feats, func(f *mmFeat) any { return f.e },
			func(f *mmFeat) {
				if f.owner != nil {
					f.owner.feats = mmWithout(f.owner.feats, f)
				}
				f.owner = c
			}, func(f *mmFeat) { f.owner = nil })
		x.c.Label("features")
	case 4, 5, 6: // super types
		c := rapid.SampledFrom(x.classes).Draw(t, "class")
		pool := []*mmClass{}
		for _, d := range x.classes {
			if !d.isA(c) {
				pool = append(pool, d)
			}
		}
		mmEdit(x, x.nm(c)+".supers", c.e.GetESuperTypes(), &c.supers, pool, func(d *mmClass) any { return d.e }, func(*mmClass) {}, func(*mmClass) {})
		x.c.Label("supers")
	case 7, 8: // operations
		c := rapid.SampledFrom(x.classes).Draw(t, "class")
		mmEdit(x, x.nm(c)+".operations", c.e.GetEOperations(), &c.ops, x.ops, func(o *mmOp) any { return o.e },
			func(o *mmOp) {
				if o.owner != nil {
					o.owner.ops = mmWithout(o.owner.ops, o)
				}
				o.owner = c
			}, func(o *mmOp) { o.owner = nil })
		x.c.Label("operations")
	case 9: // parameters
		o := rapid.SampledFrom(x.ops).Draw(t, "op")
		mmEdit(x, x.nm(o)+".params", o.e.GetEParameters(), &o.params, x.params, func(p *mmParam) any { return p.e },
			func(p *mmParam) {
				if p.op != nil {
					p.op.params = mmWithout(p.op.params, p)
				}
				p.op = o
			}, func(p *mmParam) { p.op = nil })
	case 10: // rename
		switch rapid.IntRange(0, 3).Draw(t, "what") {
		case 0:
			f := rapid.SampledFrom(x.feats).Draw(t, "feat")
			n := x.freshName("n")
			x.logf("rename %s %s", x.nm(f), n)
			f.name = n
			x.do(func() { f.e.SetName(n) })
		case 1:
			o := rapid.SampledFrom(x.ops).Draw(t, "op")
			n := rapid.SampledFrom([]string{"go", "run"}).Draw(t, "name")
			x.logf("rename %s %s", x.nm(o), n)
			o.name = n
			x.do(func() { o.e.SetName(n) })
		case 2:
			c := rapid.SampledFrom(x.classes).Draw(t, "class")
			n := x.freshName("N")
			x.logf("rename %s %s", x.nm(c), n)
			c.name = n
			x.do(func() { c.e.SetName(n) })
		case 3:
			c := rapid.SampledFrom(x.enums).Draw(t, "enum")
			n := x.freshName("N")
			x.logf("rename %s %s", x.nm(c), n)
			c.name = n
			x.do(func() { c.e.SetName(n) })
		}
	case 11: // flags
		f := rapid.SampledFrom(x.feats).Draw(t, "feat")
		if f.attr && rapid.Bool().Draw(t, "id") {
			f.isID = !f.isID
			x.logf("%s id %v", x.nm(f), f.isID)
			x.do(func() { f.e.(ecore.EAttribute).SetID(f.isID) })
		} else if !f.attr && rapid.Bool().Draw(t, "cont") {
			if !f.cont && f.container() {
				return
			}
			f.cont = !f.cont
			x.logf("%s containment %v", x.nm(f), f.cont)
			x.do(func() { f.e.(ecore.EReference).SetContainment(f.cont) })
		} else {
			f.deriv = !f.deriv
			x.logf("%s derived %v", x.nm(f), f.deriv)
			x.do(func() { f.e.SetDerived(f.deriv) })
		}
		x.c.Label("flags")
	case 12: // opposite
		var free []*mmFeat
		for _, f := range x.feats {
			if !f.attr {
				free = append(free, f)
			}
		}
		if len(free) < 2 {
			return
		}
		f := rapid.SampledFrom(free).Draw(t, "ref")
		if g := f.opp; g != nil {
			x.logf("unset opposite %s %s", x.nm(f), x.nm(g))
			f.opp, g.opp = nil, nil
			x.do(func() { f.e.(ecore.EReference).SetEOpposite(nil); g.e.(ecore.EReference).SetEOpposite(nil) })
			return
		}
		g := rapid.SampledFrom(free).Draw(t, "other")
		if g == f || g.opp != nil || f.cont && g.cont {
			return
		}
		x.logf("opposite %s %s", x.nm(f), x.nm(g))
		f.opp, g.opp = g, f
		x.do(func() {
			f.e.(ecore.EReference).SetEOpposite(g.e.(ecore.EReference))
			g.e.(ecore.EReference).SetEOpposite(f.e.(ecore.EReference))
		})
		x.c.Label("opposite")
	case 13: // type, bounds, default
		f := rapid.SampledFrom(x.feats).Draw(t, "feat")
		switch rapid.IntRange(0, 2).Draw(t, "what") {
		case 0:
			if f.attr {
				if f.lit != "" {
					f.lit = ""
					x.do(func() { f.e.SetDefaultValueLiteral("") })
				}
				f.dt = rapid.SampledFrom(mmDTs).Draw(t, "dt")
				f.typ = mmDT(f.dt)
				x.logf("%s type %s", x.nm(f), f.dt)
			} else {
				c := rapid.SampledFrom(x.classes).Draw(t, "type")
				f.typ = c.e
				x.logf("%s type %s", x.nm(f), x.nm(c))
			}
			x.do(func() { f.e.SetEType(f.typ) })
		case 1:
			f.lower = rapid.IntRange(0, 2).Draw(t, "lower")
			f.upper = rapid.SampledFrom([]int{1, 1, 0, 2, -1, -2}).Draw(t, "upper")
			x.logf("%s bounds %d %d", x.nm(f), f.lower, f.upper)
			x.do(func() { f.e.SetLowerBound(f.lower); f.e.SetUpperBound(f.upper) })
		case 2:
			if !f.attr || f.typ == nil {
				return
			}
			f.lit = genLiteral(t, x.model, f.dt)
			x.logf("%s default %q", x.nm(f), f.lit)
			if v := literalValue(x.model, f.dt, f.lit); rapid.Bool().Draw(t, "asvalue") {
				x.do(func() { f.e.SetDefaultValue(v) })
			} else {
				x.do(func() { f.e.SetDefaultValueLiteral(f.lit) })
			}
		}
	case 14: // parameter types
		p := rapid.SampledFrom(x.params).Draw(t, "param")
		dt := rapid.SampledFrom(mmDTs[:2]).Draw(t, "dt")
		p.typ = mmDT(dt)
		x.logf("%s type %s", x.nm(p), dt)
		x.do(func() { p.e.SetEType(p.typ) })
	case 15, 16: // classifiers of a package
		p := rapid.SampledFrom(x.pkgs).Draw(t, "pkg")
		var pool []any
		for _, c := range x.classes {
			pool = append(pool, c)
		}
		for _, e := range x.enums {
			pool = append(pool, e)
		}
		setPkg := func(c any, q *mmPkg) {
			switch v := c.(type) {
			case *mmClass:
				if v.pkg != nil {
					v.pkg.classifiers = mmWithout(v.pkg.classifiers, c)
				}
				v.pkg = q
			case *mmEnum:
				if v.pkg != nil {
					v.pkg.classifiers = mmWithout(v.pkg.classifiers, c)
				}
				v.pkg = q
			}
		}
		mmEdit(x, x.nm(p)+".classifiers", p.e.GetEClassifiers(), &p.classifiers, pool, func(c any) any {
			switch v := c.(type) {
			case *mmClass:
				return v.e
			case *mmEnum:
				return v.e
			}
			return nil
		}, func(c any) { setPkg(c, p) }, func(c any) {
			switch v := c.(type) {
			case *mmClass:
				v.pkg = nil
			case *mmEnum:
				v.pkg = nil
			}
		})
		x.c.Label("classifiers")
	case 17: // enums
		en := rapid.SampledFrom(x.enums).Draw(t, "enum")
		if rapid.Bool().Draw(t, "list") {
			mmEdit(x, "enum "+en.name, en.e.GetELiterals(), &en.lits, x.lits, func(l *mmLit) any { return l.e },
				func(l *mmLit) {
					if l.enum != nil {
						l.enum.lits = mmWithout(l.enum.lits, l)
					}
					l.enum = en
				}, func(l *mmLit) { l.enum = nil })
			return
		}
		l := rapid.SampledFrom(x.lits).Draw(t, "lit")
		n := rapid.SampledFrom([]string{"a", "b", "c", "d", "nothing2"}).Draw(t, "v")
		switch rapid.IntRange(0, 2).Draw(t, "what") {
		case 0:
			x.logf("literal %s name %s", l.name, n)
			l.name = n
			x.do(func() { l.e.SetName(n) })
		case 1:
			x.logf("literal %s literal %s", l.name, n)
			l.literal = n
			x.do(func() { l.e.SetLiteral(n) })
		case 2:
			l.value = rapid.IntRange(0, 4).Draw(t, "value")
			x.logf("literal %s value %d", l.name, l.value)
			x.do(func() { l.e.SetValue(l.value) })
		}
	}
}

func newMM(t *rapid.T, c *Rec) *mm {
	f := ecore.GetFactory()
	x := &mm{t: t, c: c, model: &Model{}}
	for i := rapid.IntRange(2, 5).Draw(t, "classes"); i > 0; i-- {
		k := &mmClass{id: len(x.classes), name: fmt.Sprintf("N%d", len(x.classes)), e: f.CreateEClass()}
		k.e.SetName(k.name)
		x.classes = append(x.classes, k)
	}
	for i := 0; i < 2; i++ {
		p := &mmPkg{id: i, e: f.CreateEPackage()}
		x.pkgs = append(x.pkgs, p)
		en := &mmEnum{name: fmt.Sprintf("E%d", i), e: f.CreateEEnum()}
		en.e.SetName(en.name)
		x.enums = append(x.enums, en)
	}
	for i := rapid.IntRange(2, 8).Draw(t, "feats"); i > 0; i-- {
		k := &mmFeat{id: len(x.feats), name: fmt.Sprintf("n%d", len(x.feats)), upper: 1}
		if rapid.Bool().Draw(t, "attr") {
			k.attr, k.e = true, f.CreateEAttribute()
			k.dt = "EString"
			k.typ = mmDT(k.dt)
			k.e.SetEType(k.typ)
			if oneIn(t, 3, "isid") {
				k.isID = true
				k.e.(ecore.EAttribute).SetID(true)
			}
		} else {
			k.e = f.CreateEReference()
			if oneIn(t, 3, "iscont") {
				k.cont = true
				k.e.(ecore.EReference).SetContainment(true)
			}
		}
		k.e.SetName(k.name)
		x.feats = append(x.feats, k)
	}
	for i := rapid.IntRange(1, 5).Draw(t, "ops"); i > 0; i-- {
		k := &mmOp{id: len(x.ops), name: rapid.SampledFrom([]string{"go", "run"}).Draw(t, "opname"), e: f.CreateEOperation()}
		k.e.SetName(k.name)
		x.ops = append(x.ops, k)
	}
	for i := 0; i < 3; i++ {
		k := &mmParam{e: f.CreateEParameter(), typ: mmDT("EString")}
		k.e.SetEType(k.typ)
		x.params = append(x.params, k)
	}
	for i := 0; i < 4; i++ {
		k := &mmLit{name: string(rune('a' + i)), literal: string(rune('a' + i)), value: i, e: f.CreateEEnumLiteral()}
		k.e.SetName(k.name)
		k.e.SetLiteral(k.literal)
		k.e.SetValue(i)
		x.lits = append(x.lits, k)
	}
	// initial hierarchy, so that short histories have inheritance
	for i, c := range x.classes {
		for j := 0; j < i; j++ {
			if oneIn(t, 2, "super") {
				c.supers = append(c.supers, x.classes[j])
				c.e.GetESuperTypes().Add(x.classes[j].e)
				x.c.Logf("%s extends %s", x.nm(c), x.nm(x.classes[j]))
			}
		}
	}
	for _, k := range x.feats {
		if rapid.Bool().Draw(t, "placed") {
			c := rapid.SampledFrom(x.classes).Draw(t, "owner")
			c.feats = append(c.feats, k)
			k.owner = c
			c.e.GetEStructuralFeatures().Add(k.e)
			x.c.Logf("%s has %s attr=%v", x.nm(c), x.nm(k), k.attr)
		}
	}
	return x
}

func TestP09_DerivedViews(t *testing.T) {
	runProp(t, "a class with a super type is read after at least three edits of the metamodel",
		700, func(t *rapid.T, c *Rec) {
			x := newMM(t, c)
			n := rapid.IntRange(1, 30).Draw(t, "steps")
			read := func(r int) {
				switch {
				case r < 8:
					k := rapid.SampledFrom(x.classes).Draw(t, "read class")
					v := rapid.IntRange(0, mmViews-1).Draw(t, "view")
					c.Logf("read %s view %d", x.nm(k), v)
					x.readClass(k, v)
				case r == 8:
					p := rapid.SampledFrom(x.pkgs).Draw(t, "read pkg")
					c.Logf("read %s", x.nm(p))
					x.readPkg(p)
				case r == 9:
					x.readEnum(rapid.SampledFrom(x.enums).Draw(t, "read enum"))
				}
			}
			for i := 0; i < n; i++ {
				x.edit()
				for j := rapid.IntRange(0, 3).Draw(t, "reads"); j > 0; j-- {
					read(rapid.IntRange(0, 9).Draw(t, "read"))
				}
			}
			c.Logf("final reads")
			// in an order which depends on the case
			first := rapid.IntRange(0, mmViews-1).Draw(t, "first view")
			for k := range x.classes {
				if rapid.Bool().Draw(t, "backwards") {
					k = len(x.classes) - 1 - k
				}
				for v := 0; v < mmViews; v++ {
					x.readClass(x.classes[k], (first+v)%mmViews)
				}
				if len(x.classes[k].supers) > 0 && n >= 3 {
					c.Nontrivial()
				}
				c.LabelIf(len(x.classes[k].supers) > 1, "multiple inheritance")
			}
			for _, f := range x.feats {
				x.readFeat(f)
			}
			for _, p := range x.pkgs {
				x.readPkg(p)
			}
			for _, e := range x.enums {
				x.readEnum(e)
			}
		})
}
