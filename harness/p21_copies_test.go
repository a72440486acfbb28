package harness

// P21 : copies and structural equality

import (
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// side names the objects of trees : two sides are the same structure when their texts are
type side struct {
	m     *Model
	names map[ecore.EObject]string
	order []ecore.EObject
}

func (s *side) contained(o ecore.EObject, f *Feat) []ecore.EObject {
	v := o.EGetResolve(f.E, false)
	var res []ecore.EObject
	if l, ok := v.(ecore.EList); ok {
		for _, x := range l.ToArray() {
			if x != nil {
				res = append(res, x.(ecore.EObject))
			}
		}
	} else if x, ok := v.(ecore.EObject); ok {
		res = append(res, x)
	}
	return res
}

func (s *side) name(o ecore.EObject, name string) {
	if old, ok := s.names[o]; ok {
		panic(fmt.Sprintf("%s and %s are the same object", old, name))
	}
	s.names[o] = name
	s.order = append(s.order, o)
	for _, f := range s.m.Of(o).All() {
		if !f.Attr && f.Cont {
			for i, x := range s.contained(o, f) {
				if x.EContainer() != o {
					panic(fmt.Sprintf("%s.%s[%d] is not contained in it", name, f.Name, i))
				}
				s.name(x, fmt.Sprintf("%s.%s%d", name, f.Name, i))
			}
		}
	}
}

func newSide(m *Model, prefix string, roots []ecore.EObject) *side {
	s := &side{m: m, names: map[ecore.EObject]string{}}
	for i, r := range roots {
		s.name(r, fmt.Sprintf("%s%d", prefix, i))
	}
	return s
}

// text is everything the objects hold. Bidirectional references to other objects are left out if skip is true.
func (s *side) text(outside map[ecore.EObject]string, skip bool) string {
	var b strings.Builder
	ref := func(o ecore.EObject) string {
		if n, ok := s.names[o]; ok {
			return n
		}
		if n, ok := outside[o]; ok {
			return "outside " + n
		}
		return fmt.Sprintf("unknown %p", o)
	}
	for _, o := range s.order {
		fmt.Fprintf(&b, "%s : %s", s.names[o], o.EClass().GetName())
		if o.EIsProxy() {
			fmt.Fprintf(&b, " proxy %v", o.(ecore.EObjectInternal).EProxyURI())
		}
		b.WriteByte('\n')
		for _, f := range s.m.Of(o).All() {
			if f.Container() {
				continue
			}
			set := o.EIsSet(f.E)
			var vals []string
			v := o.EGetResolve(f.E, false)
			all := []any{v}
			if l, ok := v.(ecore.EList); ok {
				all = l.ToArray()
			}
			for _, x := range all {
				if y, ok := x.(ecore.EObject); ok && !f.Attr {
					if _, in := s.names[y]; !in && skip && f.Opp != nil {
						if len(all) == 1 {
							set = false
						}
						continue
					}
					vals = append(vals, ref(y))
				} else if set || f.Many {
					vals = append(vals, fmtValue(x))
				}
			}
			if f.Many && len(vals) == 0 {
				set = false
			}
			if set || len(vals) > 0 && f.Many {
				fmt.Fprintf(&b, "  %s (set %v) = %s\n", f.Name, set, strings.Join(vals, ", "))
			}
		}
	}
	return b.String()
}

// isomorphic is the structural equality : the pairs of objects which have to match are computed from the first one
func isomorphic(m *Model, x, y []ecore.EObject) bool {
	if len(x) != len(y) {
		return false
	}
	to, from := map[ecore.EObject]ecore.EObject{}, map[ecore.EObject]ecore.EObject{}
	var work [][2]ecore.EObject
	match := func(a, b ecore.EObject) bool {
		if a == nil || b == nil {
			return a == nil && b == nil
		}
		if p, ok := to[a]; ok {
			return p == b
		}
		if p, ok := from[b]; ok {
			return p == a
		}
		to[a], from[b] = b, a
		if a != b {
			work = append(work, [2]ecore.EObject{a, b})
		}
		return true
	}
	for i := range x {
		if !match(x[i], y[i]) {
			return false
		}
	}
	for len(work) > 0 {
		a, b := work[0][0], work[0][1]
		work = work[1:]
		if a.EIsProxy() || b.EIsProxy() {
			if a.EIsProxy() != b.EIsProxy() || a.(ecore.EObjectInternal).EProxyURI().String() != b.(ecore.EObjectInternal).EProxyURI().String() {
				return false
			}
			continue
		}
		if a.EClass() != b.EClass() {
			return false
		}
		for _, f := range m.Of(a).All() {
			sa, sb := a.EIsSet(f.E), b.EIsSet(f.E)
			if f.Container() && sa != sb {
				continue
			}
			if sa != sb {
				return false
			}
			if !sa {
				continue
			}
			va, vb := []any{a.EGet(f.E)}, []any{b.EGet(f.E)}
			if f.Many {
				va, vb = va[0].(ecore.EList).ToArray(), vb[0].(ecore.EList).ToArray()
			}
			if len(va) != len(vb) {
				return false
			}
			for i := range va {
				if f.Attr {
					if x, ok := va[i].(float64); ok && x == vb[i] {
						// 0 and -0
					} else if x, ok := va[i].(float32); ok && x == vb[i] {
					} else if fmtValue(va[i]) != fmtValue(vb[i]) {
						return false
					}
				} else {
					oa, _ := va[i].(ecore.EObject)
					ob, _ := vb[i].(ecore.EObject)
					if !match(oa, ob) {
						return false
					}
				}
			}
		}
	}
	return true
}

// mutate changes one thing in an object of a side ; other objects are only referenced if their side can't notice
func mutate(t *rapid.T, s *side, others []ecore.EObject, nonew bool) string {
	m := s.m
	for try := 0; try < 10; try++ {
		if len(s.order) == 0 {
			return ""
		}
		o := pickOne(t, "object", s.order)
		if o.EIsProxy() {
			continue
		}
		var fs []*Feat
		for _, f := range m.Of(o).All() {
			if !f.ReadOnly && !f.Container() {
				fs = append(fs, f)
			}
		}
		if len(fs) == 0 {
			continue
		}
		f := pickOne(t, "feature", fs)
		what := s.names[o] + "." + f.Name
		var l ecore.EList
		if f.Many {
			l = o.EGetResolve(f.E, false).(ecore.EList)
			if n := l.Size(); n > 0 && rapid.Bool().Draw(t, "reduce") {
				i := rapid.IntRange(0, n-1).Draw(t, "at")
				if rapid.Bool().Draw(t, "move") && n > 1 {
					j := rapid.IntRange(0, n-1).Draw(t, "to")
					l.Move(i, j)
					return fmt.Sprintf("%s move %d to %d", what, i, j)
				}
				l.RemoveAt(i)
				return fmt.Sprintf("%s remove %d", what, i)
			}
		} else if rapid.IntRange(0, 3).Draw(t, "unset") == 0 && !f.ID {
			o.EUnset(f.E)
			return what + " unset"
		}
		switch {
		case f.Attr:
			v := genValue(t, m, f.DT, AlphaAny)
			if f.Many {
				if f.Upper > 0 && l.Size() >= f.Upper {
					continue
				}
				l.Add(v)
			} else {
				o.ESet(f.E, v)
			}
			return fmt.Sprintf("%s value %s", what, fmtValue(v))
		case f.Map():
			k := rapid.StringMatching("[a-c]?").Draw(t, "key")
			o.EGet(f.E).(ecore.EMap).Put(k, genValue(t, m, f.Target.Feat("value").DT, AlphaAny))
			return what + " entry " + k
		case f.Cont:
			cs := m.Concrete(f.Target)
			if nonew || len(cs) == 0 || f.Many && f.Upper > 0 && l.Size() >= f.Upper {
				continue
			}
			x := m.New(pickOne(t, "class", cs))
			if f.Many {
				l.Insert(rapid.IntRange(0, l.Size()).Draw(t, "at"), x)
			} else {
				o.ESet(f.E, x)
			}
			return what + " new child"
		default:
			var cand []ecore.EObject
			for _, x := range s.order {
				if m.Of(x).IsA(f.Target) && !x.EIsProxy() && (f.Opp == nil || !f.Opp.Many || f.Opp.Upper < 0) {
					cand = append(cand, x)
				}
			}
			if f.Opp == nil {
				for _, x := range others {
					if m.Of(x).IsA(f.Target) {
						cand = append(cand, x)
					}
				}
			}
			if len(cand) == 0 || f.Many && f.Upper > 0 && l.Size() >= f.Upper {
				continue
			}
			x := pickOne(t, "target", cand)
			if !f.Many {
				o.ESet(f.E, x)
			} else if !l.Add(x) {
				continue
			}
			return what + " reference"
		}
	}
	return ""
}

type copyCase struct {
	g             *Graph
	roots, copies []ecore.EObject
	orig, copy    *side
	outside       map[ecore.EObject]string
	others        []ecore.EObject
}

func genCopy(t *rapid.T, c *Rec) *copyCase {
	m := genModel(t, ModelOpts{DTs: allDTs, Maps: true, Dense: true, ContBias: rapid.Bool().Draw(t, "contbias"), OppBias: rapid.Bool().Draw(t, "oppbias"), IDs: oneIn(t, 4, "ids"), MaxClasses: 4})
	g := genGraph(t, m, graphOpts{Resources: 2, Roots: 2, MaxObjs: 14, CrossRefs: true, CrossCont: oneIn(t, 3, "crosscont"), Ext: "xml"})
	k := &copyCase{g: g}
	for i, x := range g.objs {
		for _, f := range g.cls[i].All() {
			if f.Attr && !f.Many && !f.ReadOnly && oneIn(t, 4, "nan") {
				switch goKind(f.DT) {
				case "float64":
					x.ESet(f.E, math.NaN())
					c.Label("NaN")
				case "float32":
					x.ESet(f.E, float32(math.NaN()))
				}
			}
		}
	}
	// some objects without contents are proxies which can't be resolved
	for i, x := range g.objs {
		if x.EContainer() != nil && oneIn(t, 8, "proxy") {
			p := m.New(g.cls[i])
			p.(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI(fmt.Sprintf("mem:/none.xml#//%d", i)))
			f := m.Of(x.EContainer())
			for _, f := range f.All() {
				if !f.Attr && f.Cont && !f.Map() && f.E == x.EContainingFeature() && f.Many && (f.Upper < 0) {
					x.EContainer().EGetResolve(f.E, false).(ecore.EList).Add(p)
					c.Label("contained proxy")
				}
			}
		} else if oneIn(t, 8, "proxyref") {
			for _, f := range g.cls[i].All() {
				if f.Cross() && !f.ReadOnly && f.Opp == nil && f.Upper < 0 {
					if cs := m.Concrete(f.Target); len(cs) > 0 {
						p := m.New(cs[0])
						p.(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI("mem:/none.xml#//x"))
						x.EGetResolve(f.E, false).(ecore.EList).Add(p)
						k.others = append(k.others, p)
						c.Label("referenced proxy")
					}
					break
				}
			}
		}
	}
	// what is copied : unrelated trees
	if len(g.objs) == 0 {
		return nil
	}
	if oneIn(t, 3, "one") {
		k.roots = []ecore.EObject{pickOne(t, "copied", g.objs)}
	} else {
		for _, x := range g.objs {
			ok := rapid.Bool().Draw(t, "copied")
			for _, y := range k.roots {
				if ecore.IsAncestor(x, y) || ecore.IsAncestor(y, x) {
					ok = false
				}
			}
			if ok {
				k.roots = append(k.roots, x)
			}
		}
	}
	if len(k.roots) == 0 {
		k.roots = []ecore.EObject{g.objs[0]}
	}
	c.Logf("%s%s", m, g.dump())
	k.orig = newSide(m, "t", k.roots)
	k.outside = map[ecore.EObject]string{}
	for i, p := range k.others {
		k.outside[p] = fmt.Sprintf("proxy%d", i)
	}
	k.others = nil
	for i, x := range g.objs {
		if _, in := k.orig.names[x]; !in {
			k.outside[x] = fmt.Sprintf("o%d", i)
			k.others = append(k.others, x)
		}
	}
	// the objects of the original are unknown to the copy
	if len(k.roots) == 1 && rapid.Bool().Draw(t, "single") {
		k.copies = []ecore.EObject{ecore.Copy(k.roots[0])}
	} else {
		var all []any
		for _, x := range k.roots {
			all = append(all, x)
		}
		for _, x := range ecore.CopyAll(ecore.NewImmutableEList(all)).ToArray() {
			k.copies = append(k.copies, x.(ecore.EObject))
		}
	}
	if len(k.copies) != len(k.roots) {
		t.Fatalf("%d copies of %d objects", len(k.copies), len(k.roots))
	}
	if p := try(func() { k.copy = newSide(m, "t", k.copies) }); p != nil {
		t.Fatalf("the copy is not consistent: %v", p)
	}
	return k
}

func elist(os []ecore.EObject) ecore.EList {
	var all []any
	for _, x := range os {
		all = append(all, x)
	}
	return ecore.NewImmutableEList(all)
}

func (k *copyCase) equal(t *rapid.T, x, y []ecore.EObject) bool {
	var e bool
	single := len(x) == 1 && len(y) == 1 && rapid.Bool().Draw(t, "singleEquals")
	if p := try(func() {
		if single {
			e = ecore.Equals(x[0], y[0])
		} else {
			e = ecore.EqualsAll(elist(x), elist(y))
		}
	}); p != nil {
		t.Fatalf("comparing panics: %v", p)
	}
	return e
}

func TestP21_Copies(t *testing.T) {
	runProp(t, "at least 3 objects holding references were copied", 1500, func(t *rapid.T, c *Rec) {
		k := genCopy(t, c)
		if k == nil {
			return
		}
		if len(k.copy.order) >= 3 && k.g.refs > 0 {
			c.Nontrivial()
		}
		k.g.labels(c)
		c.LabelIf(len(k.others) > 0, "objects outside")
		a, b := k.orig.text(k.outside, true), k.copy.text(k.outside, false)
		if a != b {
			t.Fatalf("the copy differs: %s\n---- original\n%s---- copy\n%s", diff(a, b), a, b)
		}
		// independence
		whole := newSide(k.g.m, "r", k.tops())
		w := whole.text(k.outside, false)
		if x := whole.text(k.outside, false); x != w {
			t.Fatalf("reading changes the model: %s", diff(w, x))
		}
		changeCopy := rapid.Bool().Draw(t, "changecopy")
		for n := rapid.IntRange(1, 5).Draw(t, "nchanges"); n > 0; n-- {
			if changeCopy {
				c.Logf("copy %s", mutate(t, k.copy, k.others, false))
				if x := whole.text(k.outside, false); x != w {
					t.Fatalf("a change of the copy shows in the original: %s", diff(w, x))
				}
			} else {
				c.Logf("original %s", mutate(t, k.orig, k.others, false))
				if x := k.copy.text(k.outside, false); x != b {
					t.Fatalf("a change of the original shows in the copy: %s", diff(b, x))
				}
			}
		}
	})
}

// tops gives the roots of everything but the copies
func (k *copyCase) tops() []ecore.EObject {
	var res []ecore.EObject
	for _, x := range k.g.objs {
		if x.EContainer() == nil {
			res = append(res, x)
		}
	}
	return res
}

func TestP21_Equality(t *testing.T) {
	runProp(t, "a copy of at least 3 objects was compared with its original, before and after a change", 1500, func(t *rapid.T, c *Rec) {
		k := genCopy(t, c)
		if k == nil {
			return
		}
		if len(k.copy.order) >= 3 {
			c.Nontrivial()
		}
		// a reference to an object out of what is copied is left out if the object would know the copy
		whole := k.orig.text(k.outside, true) == k.orig.text(k.outside, false)
		e1, e2 := k.equal(t, k.roots, k.copies), k.equal(t, k.copies, k.roots)
		if want := isomorphic(k.g.m, k.roots, k.copies); e1 != want || e2 != want || whole && !want {
			t.Fatalf("the copy is equal to the original: %v, the original is equal to the copy: %v, expected %v\n---- original\n%s---- copy\n%s", e2, e1, want, k.orig.text(k.outside, false), k.copy.text(k.outside, false))
		}
		if !k.equal(t, k.roots, k.roots) || !k.equal(t, k.copies, k.copies) {
			t.Fatalf("an object is not equal to itself")
		}
		c.LabelIf(e1, "equal copy")
		before := k.copy.text(k.outside, false)
		s, roots := k.copy, k.copies
		if rapid.Bool().Draw(t, "changeoriginal") {
			s = k.orig
		}
		for n := rapid.IntRange(1, 2).Draw(t, "nchanges"); n > 0; n-- {
			c.Logf("%s", mutate(t, s, k.others, false))
		}
		e1, e2 = k.equal(t, k.roots, roots), k.equal(t, roots, k.roots)
		want := isomorphic(k.g.m, k.roots, k.copies)
		if e1 != want || e2 != want {
			t.Fatalf("after a change, the copy is equal to the original: %v, the original is equal to the copy: %v, expected %v\n---- original\n%s---- copy\n%s---- copy before\n%s", e2, e1, want, k.orig.text(k.outside, false), k.copy.text(k.outside, false), before)
		}
		c.LabelIf(want, "equal after a change")
		c.LabelIf(!want, "different after a change")
		// other objects
		x, y := pickOne(t, "first", append(k.orig.order, k.others...)), pickOne(t, "second", append(k.copy.order, k.others...))
		l1, l2 := []ecore.EObject{x}, []ecore.EObject{y}
		if e, r := k.equal(t, l1, l2), k.equal(t, l2, l1); e != r {
			t.Fatalf("equality is not symmetric: %v %v", e, r)
		}
		if ecore.Equals(x, nil) || ecore.Equals(nil, x) || !ecore.Equals(nil, nil) {
			t.Fatalf("nil is equal to an object")
		}
		if len(k.roots) > 0 && k.equal(t, k.roots, k.copies[1:]) {
			t.Fatalf("lists of different sizes are equal")
		}
	})
}

func TestP21_Metamodels(t *testing.T) {
	runProp(t, "a metamodel of at least 3 classes was copied and compared", 400, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{Pkgs: 2, DTs: allDTs, Maps: true, OddNames: true, MaxClasses: 4})
		annotate(t, m)
		c.Logf("%s", m)
		if len(m.Classes) >= 3 {
			c.Nontrivial()
		}
		var ps []ecore.EObject
		for _, p := range m.Pkgs {
			ps = append(ps, p)
		}
		l := ecore.CopyAll(elist(ps))
		text := func(ps []any) string {
			d := &dumper{m: ecoreFull, path: map[ecore.EObject]string{}, rs: ecore.NewEResourceSetImpl()}
			for i, p := range ps {
				d.name(p.(ecore.EObject), fmt.Sprint(i), nil)
			}
			s := d.text()
			for _, p := range ps {
				s += viewsOf(p.(ecore.EPackage)) + "\n"
			}
			return s
		}
		a, b := text(elist(ps).ToArray()), text(l.ToArray())
		if a != b {
			t.Fatalf("the copy differs: %s\n---- original\n%s---- copy\n%s", diff(a, b), a, b)
		}
		if !ecore.EqualsAll(elist(ps), l) || !ecore.EqualsAll(l, elist(ps)) {
			t.Fatalf("the copy is not equal to the original\n%s", a)
		}
		// a change shows on one side only
		q := l.Get(rapid.IntRange(0, l.Size()-1).Draw(t, "package")).(ecore.EPackage)
		var ks []ecore.EClass
		for it := q.GetEClassifiers().Iterator(); it.HasNext(); {
			if k, ok := it.Next().(ecore.EClass); ok {
				ks = append(ks, k)
			}
		}
		if len(ks) == 0 {
			return
		}
		k := pickOne(t, "changed", ks)
		switch rapid.IntRange(0, 3).Draw(t, "change") {
		case 0:
			k.SetName(k.GetName() + "x")
		case 1:
			k.SetAbstract(!k.IsAbstract())
		case 2:
			x := ecore.GetFactory().CreateEAttribute()
			x.SetName("more")
			x.SetEType(ecore.GetPackage().GetEString())
			k.GetEStructuralFeatures().Add(x)
		case 3:
			if k.GetEStructuralFeatures().Empty() {
				return
			}
			f := k.GetEStructuralFeatures().Get(0).(ecore.EStructuralFeature)
			f.SetTransient(!f.IsTransient())
		}
		if ecore.EqualsAll(elist(ps), l) || ecore.EqualsAll(l, elist(ps)) {
			t.Fatalf("a changed copy is equal to the original")
		}
		if x := text(elist(ps).ToArray()); x != a {
			t.Fatalf("a change of the copy shows in the original: %s", diff(a, x))
		}
	})
}
