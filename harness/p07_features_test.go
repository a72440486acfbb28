package harness

// P07: one contract for get, set, is-set and unset, whatever implements the object.

import (
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// checkFeatures : every way to read a feature agrees with the model
func (w *World) checkFeatures() {
	w.checkAttrs()
	w.checkRefs()
	for i, o := range w.objs {
		oi := o.(ecore.EObjectInternal)
		for _, f := range w.cls[i].All() {
			id := o.EClass().GetFeatureID(f.E)
			if got := oi.EFeatureID(f.E); got != id {
				w.fail("o%d : identifier of %s is %d for the object, %d for its class", i, f.Name, got, id)
			}
			set := false
			if f.Attr {
				v := w.attrs[i][f]
				set = len(v) > 0
				if w.m.Static && !f.Many && set {
					set = !sameVal(v[0], defaultOf(w.m, f))
				}
			} else {
				set = len(w.refs[i][f]) > 0
			}
			if got := o.EIsSet(f.E); got != set {
				w.fail("o%d : %s is set : %v, it should be %v", i, f.Name, got, set)
			}
			if got := oi.EIsSetFromID(id); got != set {
				w.fail("o%d : %s is set by identifier : %v, it should be %v", i, f.Name, got, set)
			}
			want := w.raw(i, f)
			same := func(how string, v any) {
				var got []any
				if f.Many {
					l, ok := v.(ecore.EList)
					if !ok {
						w.fail("o%d.%s read %s is a %T, not a list", i, f.Name, how, v)
					}
					got = l.ToArray()
				} else if v != nil {
					got = []any{v}
				}
				ok := len(got) == len(want)
				for k := 0; ok && k < len(got); k++ {
					ok = sameVal(got[k], want[k])
				}
				if !ok {
					w.fail("o%d.%s read %s is %s, not %s", i, f.Name, how, w.show(got), w.show(want))
				}
			}
			// there is no proxy here : resolving or not reads the same
			same("by feature", o.EGet(f.E))
			same("resolving", o.EGetResolve(f.E, true))
			same("by identifier", oi.EGetFromID(id, true))
			same("by identifier without resolution", oi.EGetFromID(id, false))
			if f.Many {
				if a, b := o.EGet(f.E), o.EGet(f.E); a != b {
					w.fail("o%d.%s : two reads give two lists", i, f.Name)
				}
			}
			if w.m.Static {
				v := accessor(o, "Get", f).Call(nil)[0].Interface()
				same("by accessor", v)
			}
		}
	}
}

func TestP07_Contract(t *testing.T) {
	runProp(t, "a feature was unset or emptied after having been written, and at least 5 edits were done", 4000, func(t *rapid.T, c *Rec) {
		n, cleared := 0, false
		worldCase(t, c, ModelOpts{Static: true, DTs: allDTs, MaxClasses: 3, MaxFeats: 5, Dense: true}, worldOpts{minObjs: 1, maxObjs: 4, kinds: true, maxRess: 1}, 25, func(w *World) {
			count := func() int {
				k := 0
				for i := range w.objs {
					for _, v := range w.attrs[i] {
						if len(v) > 0 {
							k++
						}
					}
					for _, v := range w.refs[i] {
						if len(v) > 0 {
							k++
						}
					}
				}
				return k
			}
			last := 0
			lazy := rapid.Bool().Draw(t, "lazy")
			w.after = func(string) {
				n++
				if !lazy {
					w.checkFeatures()
				}
				k := count()
				cleared = cleared || k < last
				last = k
			}
			w.finish = func() {
				w.checkFeatures()
			}
		})
		if n >= 5 && cleared {
			c.Nontrivial()
		}
	})
}
