package harness

import (
	"fmt"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// tracker follows the objects of a resource from what its listener is told
type tracker struct {
	w    *World
	r    int
	held map[ecore.EObject]bool
	errs []string
	n    int
}

func (k *tracker) Attached(o ecore.EObject) {
	k.n++
	if k.held[o] {
		k.errs = append(k.errs, fmt.Sprintf("%s entered r%d twice", k.w.name(o), k.r))
	}
	k.held[o] = true
}

func (k *tracker) Detached(o ecore.EObject) {
	k.n++
	if !k.held[o] {
		k.errs = append(k.errs, fmt.Sprintf("%s left r%d where it was not", k.w.name(o), k.r))
	}
	delete(k.held, o)
}

func TestP25_Tracking(t *testing.T) {
	runProp(t, "objects entered and left a tracked resource, one of them with its contents or from another resource", 7000, func(t *rapid.T, c *Rec) {
		rich := false
		worldCase(t, c, ModelOpts{Static: true, NoAttrs: true, MaxClasses: 3, MaxFeats: 3, ContBias: true, Dense: true}, worldOpts{minObjs: 2, maxObjs: 7, kinds: true, minRess: 1, maxRess: 3}, 25, func(w *World) {
			var ks []*tracker
			var ids []ecore.EObjectIDManager
			for r := range w.ress {
				var m ecore.EObjectIDManager
				if rapid.Bool().Draw(t, "ids") {
					m = ecore.NewIncrementalIDManager()
					w.ress[r].SetObjectIDManager(m)
				}
				ids = append(ids, m)
				k := &tracker{w: w, r: r, held: map[ecore.EObject]bool{}}
				w.ress[r].GetResourceListeners().Add(k)
				ks = append(ks, k)
			}
			moved, subtree := false, false
			was := make([]int, len(w.objs))
			for i := range was {
				was[i] = -1
			}
			w.after = func(string) {
				changed := 0
				for i := range w.objs {
					n := w.resourceOf(i)
					if n != was[i] {
						changed++
						moved = moved || n >= 0 && was[i] >= 0
					}
					was[i] = n
				}
				subtree = subtree || changed > 1
				for r, k := range ks {
					if got, want := w.ress[r].IsLoaded(), len(w.contents[r]) > 0; got != want {
						w.fail("r%d says it is loaded : %v, it holds %s", r, got, w.namesOf(w.contents[r]))
					}
					if len(k.errs) > 0 {
						w.fail("%v", k.errs)
					}
					for i, o := range w.objs {
						in := was[i] == r
						if k.held[o] != in {
							w.fail("listener of r%d thinks o%d is in it : %v, should be %v", r, i, k.held[o], in)
						}
						if ids[r] != nil {
							id := ids[r].GetID(o)
							if (id != nil) != in {
								w.fail("identifier of o%d in r%d is %v, the object is in the resource : %v", i, r, id, in)
							}
							if id != nil && ids[r].GetEObject(id) != o {
								w.fail("identifier %v of o%d denotes another object", id, i)
							}
						}
					}
					rich = rich || k.n > 3 && (moved || subtree)
				}
				c.LabelIf(moved, "moved between resources")
			}
		})
		if rich {
			c.Nontrivial()
		}
	})
}
