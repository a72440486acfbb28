package harness

// P05: traversals of object trees, against the tree of the model.

import (
	"fmt"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// drain iterates like a user may : HasNext any number of times before each Next
func drain(t *rapid.T, w *World, it ecore.EIterator, limit int) []any {
	style := rapid.IntRange(0, 2).Draw(t, "style")
	r := []any{}
	for len(r) <= limit {
		if style == 1 {
			it.HasNext()
			it.HasNext()
		}
		if style == 2 && len(r) < limit/2 && len(r) > 0 {
			it.HasNext()
		}
		if !it.HasNext() {
			return r
		}
		r = append(r, it.Next())
	}
	w.fail("a traversal gives more than the %d objects it may: %s", limit, w.show(r))
	return nil
}

func (w *World) children(i int) []int {
	var r []int
	for _, f := range w.cls[i].All() {
		if f.Cont {
			r = append(r, w.refs[i][f]...)
		}
	}
	return r
}

func (w *World) descendants(i int) []int {
	var r []int
	for _, k := range w.children(i) {
		r = append(r, k)
		r = append(r, w.descendants(k)...)
	}
	return r
}

func (w *World) objsOf(is []int) []any {
	r := []any{}
	for _, i := range is {
		r = append(r, w.objs[i])
	}
	return r
}

func (w *World) checkView(what string, l ecore.EList, want []any) {
	if got := l.ToArray(); !sameSeq(got, want) {
		w.fail("%s: array is %s, should be %s", what, w.show(got), w.show(want))
	}
	if l.Size() != len(want) || l.Empty() != (len(want) == 0) {
		w.fail("%s: size %d empty %v, it should hold %s", what, l.Size(), l.Empty(), w.show(want))
	}
	got := []any{}
	for it := l.Iterator(); it.HasNext(); {
		got = append(got, it.Next())
	}
	if !sameSeq(got, want) {
		w.fail("%s: iterates over %s, should be %s", what, w.show(got), w.show(want))
	}
	got = []any{}
	for e := range l.All() {
		got = append(got, e)
	}
	if !sameSeq(got, want) {
		w.fail("%s: ranges over %s, should be %s", what, w.show(got), w.show(want))
	}
	first := map[any]int{}
	for i, e := range want {
		if _, ok := first[e]; !ok {
			first[e] = i
		}
		if l.Get(i) != e {
			w.fail("%s: element %d is %s, should be %s", what, i, w.name(l.Get(i)), w.name(e))
		}
	}
	for _, o := range w.objs {
		i, ok := first[o]
		if !ok {
			i = -1
		}
		if l.Contains(o) != ok || l.IndexOf(o) != i {
			w.fail("%s: contains %s: %v, index %d, should be at %d", what, w.name(o), l.Contains(o), l.IndexOf(o), i)
		}
	}
	if ol, ok := l.(ecore.EObjectList); ok {
		if got := ol.GetUnResolvedList().ToArray(); !sameSeq(got, want) {
			w.fail("%s: unresolved array is %s, should be %s", what, w.show(got), w.show(want))
		}
	}
}

func (w *World) checkTraversals(t *rapid.T) {
	limit := len(w.objs)
	for i, o := range w.objs {
		w.checkView(fmt.Sprintf("contents of o%d", i), o.EContents(), w.objsOf(w.children(i)))
		var cross []int
		for _, f := range w.cls[i].All() {
			if f.Cross() {
				cross = append(cross, w.refs[i][f]...)
			}
		}
		w.checkView(fmt.Sprintf("cross references of o%d", i), o.ECrossReferences(), w.objsOf(cross))
		all := w.descendants(i)
		if got := drain(t, w, o.EAllContents(), limit); !sameSeq(got, w.objsOf(all)) {
			w.fail("all contents of o%d are %s, should be %s", i, w.show(got), w.namesOf(all))
		}
		w.c.LabelIf(len(all) > 3, "tree of 5 objects or more")
	}
	for r, res := range w.ress {
		var all []int
		for _, b := range w.contents[r] {
			all = append(all, b)
			all = append(all, w.descendants(b)...)
		}
		if got := drain(t, w, res.GetAllContents(), limit*limit); !sameSeq(got, w.objsOf(all)) {
			w.fail("all contents of r%d are %s, should be %s", r, w.show(got), w.namesOf(all))
		}
	}
}

// checkByClass : the traversal restricted to a class
func (w *World) checkByClass(t *rapid.T) {
	for i, o := range w.objs {
		all := w.descendants(i)
		for _, cl := range w.m.Classes {
			want := map[any]bool{}
			for _, d := range all {
				if w.cls[d].IsA(cl) {
					want[w.objs[d]] = true
				}
			}
			for _, table := range []bool{false, true} {
				var it ecore.EIterator
				if table {
					it = ecore.EAllContentsWithTable(o, ecore.NewEClassTransitionsTable(o.EClass(), cl.E))
				} else {
					it = ecore.EAllContentsWithClass(o, cl.E)
				}
				got := drain(t, w, it, len(w.objs))
				seen := map[any]bool{}
				for _, e := range got {
					if seen[e] || !want[e] {
						w.fail("contents of o%d of class %s: %s, %s should not be there (twice)", i, cl.Name, w.show(got), w.name(e))
					}
					seen[e] = true
					// after its parents
					for k := w.cont[w.index[e.(ecore.EObject)]]; k >= 0 && k != i; k = w.cont[k] {
						if want[w.objs[k]] && !seen[w.objs[k]] {
							w.fail("contents of o%d of class %s: %s before its parent %s", i, cl.Name, w.name(e), w.name(w.objs[k]))
						}
					}
				}
				if len(seen) != len(want) {
					w.fail("contents of o%d of class %s: %s, %d objects missing", i, cl.Name, w.show(got), len(want)-len(seen))
				}
				w.c.LabelIf(len(want) > 0 && len(want) < len(all), "class restriction")
			}
		}
	}
}

func TestP05_Traversals(t *testing.T) {
	runProp(t, "an object has at least two levels of descendants", 3000, func(t *rapid.T, c *Rec) {
		worldCase(t, c, ModelOpts{Static: true, NoAttrs: true, MaxClasses: 5, MaxFeats: 4, ContBias: true, Dense: true}, worldOpts{minObjs: 2, maxObjs: 10, kinds: true, maxRess: 2, set: rapid.Bool().Draw(t, "set")}, 40, func(w *World) {
			w.noNested = true
			if oneIn(t, 4, "empty start") == false {
				w.plant()
			}
			n := 0
			w.after = func(string) {
				n++
				if n%8 == 0 {
					w.checkTraversals(t)
				}
			}
			w.finish = func() {
				w.checkTraversals(t)
				w.checkByClass(t)
				for i := range w.objs {
					if w.cont[i] >= 0 && w.cont[w.cont[i]] >= 0 {
						c.Nontrivial()
					}
				}
			}
		})
	})
}
