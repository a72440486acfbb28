package harness

import (
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

func TestP04_Containment(t *testing.T) {
	runProp(t, "an object was contained, and moved or released afterwards", 12000, func(t *rapid.T, c *Rec) {
		moved := false
		worldCase(t, c, ModelOpts{Static: true, NoAttrs: true, MaxClasses: 3, MaxFeats: 3, ContBias: true, Dense: true}, worldOpts{minObjs: 2, maxObjs: 7, kinds: true, maxRess: 2}, 25, func(w *World) {
			was := make([]int, len(w.objs))
			for i := range was {
				was[i] = -1
			}
			w.after = func(string) {
				w.checkContainment()
				for i := range w.objs {
					if was[i] >= 0 && w.cont[i] != was[i] {
						moved = true
						c.LabelIf(w.cont[i] >= 0, "moved")
					}
					was[i] = w.cont[i]
					c.LabelIf(w.cont[i] >= 0 && w.direct[i] >= 0, "contained across resources")
				}
			}
		})
		if moved {
			c.Nontrivial()
		}
	})
}

// EContainmentFeature of a child of a bidirectional containment : see known_findings.txt
func TestP04_KnownFindings(t *testing.T) {
	fac := ecore.GetFactory()
	c := fac.CreateEClass()
	p, q := fac.CreateEReference(), fac.CreateEReference()
	p.SetName("children")
	p.SetEType(c)
	p.SetContainment(true)
	p.SetUpperBound(-1)
	q.SetName("parent")
	q.SetEType(c)
	q.SetEOpposite(p)
	p.SetEOpposite(q)
	c.GetEStructuralFeatures().Add(p)
	c.GetEStructuralFeatures().Add(q)
	parent, child := ecore.NewDynamicEObjectImpl(), ecore.NewDynamicEObjectImpl()
	parent.SetEClass(c)
	child.SetEClass(c)
	parent.EGet(p).(ecore.EList).Add(child)
	switch child.EContainmentFeature() {
	case p:
	case q:
		knownFinding("P04", "containment-feature-bidirectional: EContainmentFeature() of an object contained through a containment reference with an opposite gives the container reference")
	default:
		t.Fatalf("EContainmentFeature() is %v", child.EContainmentFeature())
	}
}
