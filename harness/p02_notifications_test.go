package harness

import (
	"fmt"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// event is what a notification said when it was delivered
type event struct {
	notifier ecore.ENotifier
	typ      ecore.EventType
	f        ecore.EStructuralFeature
	id       int
	old, new any
	pos      int
}

func (e event) String() string {
	n := "?"
	if e.f != nil {
		n = e.f.GetName()
	}
	return fmt.Sprintf("%v %s(%d) old=%v new=%v pos=%d", e.typ, n, e.id, e.old, e.new, e.pos)
}

type recorder struct {
	ecore.AbstractEAdapter
	events []event
}

func (r *recorder) NotifyChanged(n ecore.ENotification) {
	e := event{notifier: n.GetNotifier(), typ: n.GetEventType(), f: n.GetFeature(), id: n.GetFeatureID(), old: n.GetOldValue(), new: n.GetNewValue(), pos: n.GetPosition()}
	if s, ok := e.old.([]any); ok {
		e.old = append([]any{}, s...)
	}
	if s, ok := e.new.([]any); ok {
		e.new = append([]any{}, s...)
	}
	r.events = append(r.events, e)
}

// replay applies an event to a copy of the content the feature had before it ;
// an error when the event contradicts this content
func (e event) replay(s []any, many, unique bool, same func(a, b any) bool) ([]any, error) {
	bad := func(f string, a ...any) ([]any, error) { return nil, fmt.Errorf(f, a...) }
	if !many {
		switch e.typ {
		case ecore.SET, ecore.UNSET, ecore.RESOLVE:
			var o any
			if len(s) > 0 {
				o = s[0]
			}
			if !same(o, e.old) {
				return bad("old value is %v, it was %v", e.old, o)
			}
			if e.new == nil {
				return nil, nil
			}
			return []any{e.new}, nil
		}
		return bad("event type of a single-valued feature is %v", e.typ)
	}
	s = append([]any{}, s...)
	insert := func(p int, vs ...any) ([]any, error) {
		if p < 0 || p > len(s) {
			return bad("position %d in a content of size %d", p, len(s))
		}
		if unique {
			for i, v := range vs {
				for _, x := range s {
					if same(x, v) {
						return bad("%v added twice", v)
					}
				}
				for _, x := range vs[:i] {
					if same(x, v) {
						return bad("%v added twice", v)
					}
				}
			}
		}
		return append(append(append([]any{}, s[:p]...), vs...), s[p:]...), nil
	}
	switch e.typ {
	case ecore.ADD:
		return insert(e.pos, e.new)
	case ecore.ADD_MANY:
		vs, ok := e.new.([]any)
		if !ok {
			return bad("new value of ADD_MANY is %T", e.new)
		}
		return insert(e.pos, vs...)
	case ecore.REMOVE:
		if e.pos < 0 || e.pos >= len(s) {
			return bad("position %d in a content of size %d", e.pos, len(s))
		}
		if !same(s[e.pos], e.old) {
			return bad("old value is %v, it was %v", e.old, s[e.pos])
		}
		return append(s[:e.pos], s[e.pos+1:]...), nil
	case ecore.REMOVE_MANY:
		vs, ok := e.old.([]any)
		if !ok {
			return bad("old value of REMOVE_MANY is %T", e.old)
		}
		if e.new == nil {
			// everything was removed
			if len(vs) != len(s) {
				return bad("everything is removed : %d elements, there were %d", len(vs), len(s))
			}
			for i := range s {
				if !same(s[i], vs[i]) {
					return bad("removed element %d is %v, it was %v", i, vs[i], s[i])
				}
			}
			return nil, nil
		}
		ps, ok := e.new.([]any)
		if !ok || len(ps) != len(vs) {
			return bad("positions are %v", e.new)
		}
		gone := map[int]bool{}
		last := -1
		for i, p := range ps {
			p := p.(int)
			if p < 0 || p >= len(s) || p <= last {
				return bad("positions %v in a content of size %d", ps, len(s))
			}
			last = p
			if !same(s[p], vs[i]) {
				return bad("removed element %d is %v, it was %v", p, vs[i], s[p])
			}
			gone[p] = true
		}
		if len(ps) > 0 && e.pos != ps[0] {
			return bad("position %d, the first one is %v", e.pos, ps[0])
		}
		var r []any
		for i, x := range s {
			if !gone[i] {
				r = append(r, x)
			}
		}
		return r, nil
	case ecore.SET, ecore.RESOLVE:
		if e.pos < 0 || e.pos >= len(s) {
			return bad("position %d in a content of size %d", e.pos, len(s))
		}
		if !same(s[e.pos], e.old) {
			return bad("old value is %v, it was %v", e.old, s[e.pos])
		}
		s[e.pos] = e.new
		return s, nil
	case ecore.MOVE:
		o, ok := e.old.(int)
		if !ok || o < 0 || o >= len(s) || e.pos < 0 || e.pos >= len(s) {
			return bad("move from %v to %d in a content of size %d", e.old, e.pos, len(s))
		}
		if !same(s[o], e.new) {
			return bad("moved element is %v, it was %v", e.new, s[o])
		}
		x := s[o]
		s = append(s[:o], s[o+1:]...)
		return append(s[:e.pos], append([]any{x}, s[e.pos:]...)...), nil
	}
	return bad("event type of a many-valued feature is %v", e.typ)
}

// watcher : an observer which rebuilds contents from notifications
type watcher struct {
	rec    *recorder
	obj    int // or -1
	res    int // or -1
	shadow map[*Feat][]any
	cont   []any // resource contents
}

func (w *World) cur(i int, f *Feat) []any {
	s := w.raw(i, f)
	if !f.Many && f.Attr {
		if d := defaultOf(w.m, f); d != nil && len(s) > 0 && fmtValue(s[0]) == fmtValue(d) {
			return nil
		}
	}
	return s
}

func norm(m *Model, f *Feat, s []any) []any {
	if !f.Many && f.Attr {
		if d := defaultOf(m, f); d != nil && len(s) > 0 && fmtValue(s[0]) == fmtValue(d) {
			return nil
		}
	}
	return s
}

func sameVal(a, b any) bool {
	if ao, ok := a.(ecore.EObject); ok {
		bo, ok := b.(ecore.EObject)
		return ok && ao == bo
	}
	switch x := a.(type) {
	case float64:
		if y, ok := b.(float64); ok && x == y {
			return true // 0 and -0 are equal elements
		}
	case float32:
		if y, ok := b.(float32); ok && x == y {
			return true
		}
	}
	return fmtValue(a) == fmtValue(b)
}

func sameVals(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameVal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// observation counts what was observed of a world
type observation struct {
	total int
	many  bool // a notification of a many-valued feature or of the other end of an edit
	rich  bool
}

// observe rebuilds the contents of objects and resources from their notifications
func (w *World) observe() *observation {
	t, c, o := w.t, w.c, &observation{}
	var ws []*watcher
	all := rapid.Bool().Draw(t, "observe all")
	for i := range w.objs {
		if all || rapid.Bool().Draw(t, "observe") {
			x := &watcher{rec: &recorder{}, obj: i, res: -1, shadow: map[*Feat][]any{}}
			w.objs[i].EAdapters().Add(x.rec)
			ws = append(ws, x)
		}
	}
	for i := range w.ress {
		if all || rapid.Bool().Draw(t, "observe") {
			x := &watcher{rec: &recorder{}, obj: -1, res: i}
			w.ress[i].EAdapters().Add(x.rec)
			ws = append(ws, x)
		}
	}
	off := make([]bool, len(w.objs))
	var prev []map[*Feat][]any
	w.before = func(string) {
		for i, x := range w.objs {
			if oneIn(t, 20, "deliver") {
				off[i] = !off[i]
				x.ESetDeliver(!off[i])
				c.Logf("o%d deliver %v", i, !off[i])
			}
		}
		prev = make([]map[*Feat][]any, len(w.objs))
		for i := range w.objs {
			prev[i] = map[*Feat][]any{}
			for _, f := range w.cls[i].All() {
				prev[i][f] = w.cur(i, f)
			}
		}
		for _, x := range ws {
			if x.obj >= 0 {
				for _, f := range w.cls[x.obj].All() {
					x.shadow[f] = prev[x.obj][f]
				}
			} else {
				x.cont = append([]any{}, w.ress[x.res].GetContents().ToArray()...)
			}
			x.rec.events = nil
		}
	}
	w.after = func(op string) {
		for _, x := range ws {
			if x.obj >= 0 && off[x.obj] {
				if len(x.rec.events) > 0 {
					w.fail("o%d got %v while its delivery was off", x.obj, x.rec.events)
				}
				continue
			}
			for _, e := range x.rec.events {
				o.total++
				if x.res >= 0 {
					if e.notifier != ecore.ENotifier(w.ress[x.res]) {
						w.fail("r%d got a notification of another notifier", x.res)
					}
					if e.id != ecore.RESOURCE__CONTENTS {
						continue
					}
					s, err := e.replay(x.cont, true, true, sameVal)
					if err != nil {
						w.fail("contents of r%d : %v : %v", x.res, e, err)
					}
					x.cont = s
					o.many = true
					continue
				}
				if e.notifier != ecore.ENotifier(w.objs[x.obj]) {
					w.fail("o%d got a notification of another notifier", x.obj)
				}
				if e.f == nil {
					continue
				}
				var f *Feat
				for _, g := range w.cls[x.obj].All() {
					if ecore.EStructuralFeature(g.E) == e.f {
						f = g
					}
				}
				if f == nil {
					w.fail("o%d got a notification of feature %s it does not have", x.obj, e.f.GetName())
				}
				if id := w.cls[x.obj].E.GetFeatureID(f.E); e.id != id {
					w.fail("o%d got a notification of feature %s with identifier %d, should be %d", x.obj, f.Name, e.id, id)
				}
				if f.Many || f.Opp != nil {
					o.many = true
				}
				c.Label(e.typ.String())
				same := sameVal
				if f.Attr && !f.Many {
					same = func(a, b any) bool {
						return sameVals(norm(w.m, f, []any{a}), norm(w.m, f, []any{b})) || (a == nil || len(norm(w.m, f, []any{a})) == 0) && (b == nil || len(norm(w.m, f, []any{b})) == 0)
					}
				}
				s, err := e.replay(x.shadow[f], f.Many, f.Unique, same)
				if err != nil {
					w.fail("o%d : %v : %v", x.obj, e, err)
				}
				x.shadow[f] = norm(w.m, f, s)
			}
			if x.res >= 0 {
				if got := w.ress[x.res].GetContents().ToArray(); !sameVals(got, x.cont) {
					w.fail("replaying %v on the contents of r%d gives %s, it holds %s", x.rec.events, x.res, w.show(x.cont), w.show(got))
				}
				continue
			}
			for _, f := range w.cls[x.obj].All() {
				got := w.cur(x.obj, f)
				if !sameVals(got, x.shadow[f]) {
					w.fail("replaying %v on o%d.%s gives %s, it holds %s", x.rec.events, x.obj, f.Name, w.show(x.shadow[f]), w.show(got))
				}
				if sameVals(got, prev[x.obj][f]) && !w.replacing {
					// no effect : no addition, no removal
					for _, e := range x.rec.events {
						if e.f != f.E {
							continue
						}
						vs, many := e.old.([]any)
						if e.typ == ecore.ADD || e.typ == ecore.ADD_MANY || e.typ == ecore.REMOVE || e.typ == ecore.REMOVE_MANY && !(many && len(vs) == 0) {
							w.fail("o%d.%s did not change but %v was delivered", x.obj, f.Name, e)
						}
					}
				}
			}
		}
		o.rich = o.rich || o.total >= 5 && o.many
	}
	return o
}

func TestP02_Replay(t *testing.T) {
	runProp(t, "an observer rebuilt a content from at least 5 notifications, one of them of a many-valued feature or of the other end of an edit", 7000, func(t *rapid.T, c *Rec) {
		var o *observation
		worldCase(t, c, ModelOpts{Static: true, DTs: comparableDTs, MaxClasses: 3, MaxFeats: 4, ContBias: rapid.Bool().Draw(t, "contbias"), OppBias: rapid.Bool().Draw(t, "oppbias"), Dense: true}, worldOpts{minObjs: 2, maxObjs: 6, kinds: true, maxRess: 2}, 25, func(w *World) {
			o = w.observe()
		})
		if o.rich {
			c.Nontrivial()
		}
	})
}

// Chains : several changes are put in one chain, merged where possible, and
// delivered at the end.
func TestP02_Chains(t *testing.T) {
	runProp(t, "a chain of at least 3 changes, merged or not, was replayed on the contents they changed", 4000, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{DTs: []string{"EInt", "EString"}, NoRefs: true, MaxClasses: 2, MaxFeats: 3, Dense: true})
		var cl *Class
		for _, x := range m.Concrete(nil) {
			for _, f := range x.All() {
				if f.Many {
					cl = x
				}
			}
		}
		if cl == nil {
			return
		}
		var fs []*Feat
		for _, f := range cl.All() {
			if f.Many {
				fs = append(fs, f)
			}
		}
		n := rapid.IntRange(1, 2).Draw(t, "objects")
		var objs []ecore.EObject
		rec := &recorder{}
		shadow := map[ecore.EObject]map[*Feat][]any{}
		for i := 0; i < n; i++ {
			o := m.New(cl)
			objs = append(objs, o)
			for _, f := range fs {
				for k := rapid.IntRange(0, 6).Draw(t, "init"); k > 0; k-- {
					o.EGet(f.E).(ecore.EList).Add(genValue(t, m, f.DT, AlphaWord))
				}
			}
			o.EAdapters().Add(rec)
		}
		for round := rapid.IntRange(1, 3).Draw(t, "rounds"); round > 0; round-- {
			for _, o := range objs {
				shadow[o] = map[*Feat][]any{}
				for _, f := range fs {
					shadow[o][f] = append([]any{}, o.EGet(f.E).(ecore.EList).ToArray()...)
					c.Logf("%s : %s", f.Name, show(shadow[o][f], fmtValue))
				}
			}
			var chain ecore.ENotificationChain
			if rapid.Bool().Draw(t, "new chain") {
				chain = ecore.NewNotificationChain()
			}
			rec.events = nil
			type key struct {
				o ecore.EObject
				f *Feat
			}
			phase := map[key]int{}
			k := rapid.IntRange(0, 8).Draw(t, "changes")
			done := 0
			for i := 0; i < k; i++ {
				o := rapid.SampledFrom(objs).Draw(t, "o")
				f := rapid.SampledFrom(fs).Draw(t, "f")
				l := o.EGet(f.E).(ecore.ENotifyingList)
				op := rapid.SampledFrom([]int{0, 1, 1, 1, 2}).Draw(t, "op")
				if l.Empty() {
					op = 0
				}
				// edits put the removals of one list in a chain in a row, which is what
				// merging them relies on
				k := key{o, f}
				if op == 1 && phase[k] >= 2 || op == 2 && (phase[k] == 1 || phase[k] == 2) {
					op = 0
				}
				if op == 1 {
					phase[k] = 1
				} else if op == 2 {
					phase[k] = 3
				} else if phase[k] == 1 {
					phase[k] = 2
				}
				switch op {
				case 0:
					v := genValue(t, m, f.DT, AlphaWord)
					if !f.Unique || !l.Contains(v) {
						c.Logf("%s add %s", f.Name, fmtValue(v))
						chain = l.AddWithNotification(v, chain)
						done++
					}
				case 1:
					v := l.Get(rapid.IntRange(0, l.Size()-1).Draw(t, "i"))
					c.Logf("%s remove %s", f.Name, fmtValue(v))
					chain = l.RemoveWithNotification(v, chain)
					done++
				case 2:
					v := genValue(t, m, f.DT, AlphaWord)
					if !l.Contains(v) {
						j := rapid.IntRange(0, l.Size()-1).Draw(t, "i")
						c.Logf("%s set %d %s", f.Name, j, fmtValue(v))
						chain = l.SetWithNotification(j, v, chain)
						done++
					}
				}
			}
			if len(rec.events) > 0 {
				t.Fatalf("%v delivered before the chain was dispatched\n%s", rec.events, c.trace.String())
			}
			if chain != nil {
				chain.Dispatch()
			}
			c.LabelIf(len(rec.events) < done, "merged")
			for _, e := range rec.events {
				o := e.notifier.(ecore.EObject)
				var f *Feat
				for _, g := range fs {
					if e.f == ecore.EStructuralFeature(g.E) {
						f = g
					}
				}
				s, err := e.replay(shadow[o][f], true, false, sameVal)
				if err != nil {
					t.Fatalf("%v : %v\n%s", e, err, c.trace.String())
				}
				shadow[o][f] = s
			}
			for i, o := range objs {
				for _, f := range fs {
					got := o.EGet(f.E).(ecore.EList).ToArray()
					if !sameVals(got, shadow[o][f]) {
						t.Fatalf("replaying %v on o%d.%s gives %s, it holds %s\n%s", rec.events, i, f.Name, show(shadow[o][f], fmtValue), show(got, fmtValue), c.trace.String())
					}
				}
			}
			if done >= 3 {
				c.Nontrivial()
			}
		}
	})
}
