package harness

import (
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// an adapter built on the content adapter
type subContentAdapter struct {
	ecore.EContentAdapter
	n map[ecore.ENotifier]int
}

func (a *subContentAdapter) NotifyChanged(n ecore.ENotification) {
	a.n[n.GetNotifier()]++
	a.EContentAdapter.NotifyChanged(n)
}

func newSubContentAdapter() *subContentAdapter {
	a := &subContentAdapter{n: map[ecore.ENotifier]int{}}
	a.SetInterfaces(a)
	return a
}

func count(l ecore.EList, x any) int {
	n := 0
	for _, e := range l.ToArray() {
		if e == x {
			n++
		}
	}
	return n
}

func TestP06_ContentAdapter(t *testing.T) {
	runProp(t, "the tree under the adapter gained and lost objects", 7000, func(t *rapid.T, c *Rec) {
		gained, lost := false, false
		worldCase(t, c, ModelOpts{Static: true, DTs: []string{"EInt"}, MaxClasses: 3, MaxFeats: 3, ContBias: true, Dense: true}, worldOpts{minObjs: 2, maxObjs: 7, kinds: true, maxRess: 2, set: true}, 25, func(w *World) {
			w.noNested = true // known finding
			// edits before the adapter is attached
			for k := rapid.IntRange(0, 6).Draw(t, "before"); k > 0; k-- {
				w.step()
			}
			var ad ecore.EAdapter = ecore.NewEContentAdapter()
			var sub *subContentAdapter
			if rapid.Bool().Draw(t, "subclass") {
				sub = newSubContentAdapter()
				ad = sub
			}
			var rs ecore.EResourceSet
			for _, r := range w.ress {
				rs = r.GetResourceSet()
			}
			kind := rapid.IntRange(0, 2).Draw(t, "root kind")
			if len(w.ress) == 0 {
				kind = 0
			}
			rootO, rootR := -1, -1
			var root ecore.ENotifier
			switch kind {
			case 0:
				rootO = rapid.IntRange(0, len(w.objs)-1).Draw(t, "root")
				root = w.objs[rootO]
				c.Logf("adapter on o%d", rootO)
			case 1:
				rootR = rapid.IntRange(0, len(w.ress)-1).Draw(t, "root")
				root = w.ress[rootR]
				c.Logf("adapter on r%d", rootR)
			case 2:
				root = rs
				c.Logf("adapter on the resource set")
			}
			inSet := make([]bool, len(w.ress))
			for i := range inSet {
				inSet[i] = true
			}
			attached := true
			root.EAdapters().Add(ad)
			if ad.GetTarget() == nil {
				w.fail("the content adapter is attached and has no target")
			}
			was := map[int]bool{}
			check := func(string) {
				objs, ress := map[int]bool{}, map[int]bool{}
				var under func(i int)
				under = func(i int) {
					if objs[i] {
						return
					}
					objs[i] = true
					for j := range w.objs {
						if w.cont[j] == i {
							under(j)
						}
					}
				}
				underR := func(r int) {
					ress[r] = true
					for _, i := range w.contents[r] {
						under(i)
					}
				}
				if attached {
					switch kind {
					case 0:
						under(rootO)
					case 1:
						underR(rootR)
					case 2:
						for r := range w.ress {
							if inSet[r] {
								underR(r)
							}
						}
					}
				}
				for i, o := range w.objs {
					n, want := count(o.EAdapters(), ad), 0
					if objs[i] {
						want = 1
					}
					if n != want {
						w.fail("the content adapter is attached %d times to o%d, should be %d", n, i, want)
					}
					gained = gained || objs[i] && !was[i]
					lost = lost || !objs[i] && was[i]
				}
				was = objs
				for i, r := range w.ress {
					n, want := count(r.EAdapters(), ad), 0
					if ress[i] {
						want = 1
					}
					if n != want {
						w.fail("the content adapter is attached %d times to r%d, should be %d", n, i, want)
					}
				}
				if rs != nil {
					want := 0
					if kind == 2 && attached {
						want = 1
					}
					if n := count(rs.EAdapters(), ad); n != want {
						w.fail("the content adapter is attached %d times to the resource set", n)
					}
				}
				target := ad.GetTarget()
				if target != nil && !target.EAdapters().Contains(ad) {
					w.fail("the content adapter is not attached to its target")
				}
				if sub != nil {
					// a probe : it hears a change of every object of the tree
					for i, o := range w.objs {
						for _, f := range w.cls[i].All() {
							if f.Attr && !f.Many {
								n := sub.n[o]
								o.ESet(f.E, o.EGet(f.E))
								w.attrs[i][f] = []any{o.EGet(f.E)}
								want := 0
								if objs[i] {
									want = 1
								}
								if sub.n[o]-n != want {
									w.fail("the content adapter heard %d notifications of one change of o%d", sub.n[o]-n, i)
								}
								break
							}
						}
					}
				}
			}
			check("")
			w.after = check
			w.before = nil
			if kind == 2 {
				// resources leave and join the set
				w.extra = func() bool {
					r := rapid.IntRange(0, len(w.ress)-1).Draw(t, "resource")
					inSet[r] = !inSet[r]
					if inSet[r] {
						w.do("join resource set", func() { rs.GetResources().Add(w.ress[r]) })
					} else {
						w.do("leave resource set", func() { rs.GetResources().Remove(w.ress[r]) })
					}
					return true
				}
			}
			w.finish = func() {
				attached = false
				w.last = "detaching the adapter"
				root.EAdapters().Remove(ad)
				check("")
			}
		})
		if gained && lost {
			c.Nontrivial()
		}
	})
}

// A bulk addition of an object and of one of its descendants : see known_findings.txt
func TestP06_KnownFindings(t *testing.T) {
	fac := ecore.GetFactory()
	c := fac.CreateEClass()
	p := fac.CreateEReference()
	p.SetName("child")
	p.SetEType(c)
	p.SetContainment(true)
	p.SetResolveProxies(false)
	c.GetEStructuralFeatures().Add(p)
	parent, child := ecore.NewDynamicEObjectImpl(), ecore.NewDynamicEObjectImpl()
	parent.SetEClass(c)
	child.SetEClass(c)
	parent.ESet(p, child)
	r0, r1 := ecore.NewEResourceImpl(), ecore.NewEResourceImpl()
	ad := ecore.NewEContentAdapter()
	r1.EAdapters().Add(ad)
	r1.GetContents().Add(parent)
	r0.GetContents().AddAll(ecore.NewImmutableEList([]any{parent, child}))
	if parent.EAdapters().Contains(ad) {
		t.Fatal("the adapter is still attached to the moved object")
	}
	if child.EAdapters().Contains(ad) {
		knownFinding("P06", "bulk-addition-of-nested-objects: adding at once an object and one of its descendants elsewhere leaves the content adapter of the former tree on the descendant")
	}
}
