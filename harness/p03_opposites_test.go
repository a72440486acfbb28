package harness

import (
	"testing"

	"pgregory.net/rapid"
)

func worldCase(t *rapid.T, c *Rec, mo ModelOpts, wo worldOpts, steps int, setup func(*World)) *World {
	var m *Model
	if mo.Static && oneIn(t, 4, "static") {
		m = ecoreModel(t, mo.NoAttrs)
		c.Logf("ecore")
		c.Label("ecore itself")
	} else {
		m = genModel(t, mo)
		c.Logf("%s", m)
	}
	if wo.model != nil {
		wo.model(m)
	}
	w := newWorld(t, c, m, wo)
	if setup != nil {
		setup(w)
	}
	n := rapid.IntRange(steps/3, steps).Draw(t, "steps")
	done := 0
	for i := 0; i < n; i++ {
		if w.step() {
			done++
		}
	}
	if w.finish != nil {
		w.finish()
	}
	c.LabelIf(done >= 5, "5 edits or more")
	return w
}

func TestP03_Opposites(t *testing.T) {
	runProp(t, "at least one pair of opposite references was edited", 12000, func(t *rapid.T, c *Rec) {
		linked := false
		worldCase(t, c, ModelOpts{Static: true, NoAttrs: true, MaxClasses: 3, MaxFeats: 3, Dense: true, OppBias: true}, worldOpts{minObjs: 2, maxObjs: 6, kinds: true, maxRess: 1}, 25, func(w *World) {
			w.after = func(string) {
				w.checkRefs()
				for i := range w.objs {
					for f, bs := range w.refs[i] {
						linked = linked || f.Opp != nil && len(bs) > 0
					}
				}
			}
		})
		if linked {
			c.Nontrivial()
		}
	})
}
