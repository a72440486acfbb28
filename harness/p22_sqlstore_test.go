package harness

// P22 : a model kept in a database through the SQL store

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/masagroup/soft.go/ecore"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
	"pgregory.net/rapid"
)

// errorCore records what the store reports to its logger : its operations have no result
type errorCore struct {
	mutex  *sync.Mutex
	errors *[]string
	fields []zapcore.Field
}

func newErrorCore() *errorCore { return &errorCore{mutex: &sync.Mutex{}, errors: &[]string{}} }

func (c *errorCore) Enabled(l zapcore.Level) bool { return l >= zapcore.ErrorLevel }
func (c *errorCore) With(f []zapcore.Field) zapcore.Core {
	return &errorCore{c.mutex, c.errors, append(append([]zapcore.Field{}, c.fields...), f...)}
}
func (c *errorCore) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	if c.Enabled(e.Level) {
		return ce.AddCore(e, c)
	}
	return ce
}
func (c *errorCore) Write(e zapcore.Entry, fields []zapcore.Field) error {
	s := e.Message
	for _, f := range append(append([]zapcore.Field{}, c.fields...), fields...) {
		if f.Key == "error" || f.Key == "query" || f.Key == "stack" {
			s += fmt.Sprintf(" %s=%s %v", f.Key, f.String, f.Interface)
		}
	}
	c.mutex.Lock()
	*c.errors = append(*c.errors, s)
	c.mutex.Unlock()
	return nil
}
func (c *errorCore) Sync() error { return nil }
func (c *errorCore) text() string {
	c.mutex.Lock()
	defer c.mutex.Unlock()
	return strings.Join(*c.errors, "\n")
}

// sqlDB is a database file and a store opened on it
type sqlDB struct {
	t       *rapid.T
	m       *Model
	path    string
	options map[string]any
	core    *errorCore
	store   *ecore.SQLStore
	ids     ecore.EObjectIDManager
}

func newSQLDB(t *rapid.T, m *Model, c *Rec) *sqlDB {
	dir, err := os.MkdirTemp("", "p22")
	if err != nil {
		t.Fatal(err)
	}
	d := &sqlDB{t: t, m: m, path: filepath.Join(dir, "store.sqlite"), options: map[string]any{}}
	if oneIn(t, 3, "in memory") {
		d.options[ecore.SQL_OPTION_IN_MEMORY_DATABASE] = true
	}
	if oneIn(t, 3, "version") {
		d.options[ecore.SQL_OPTION_CODEC_VERSION] = int64(rapid.IntRange(1, 3).Draw(t, "codec version"))
	}
	c.Logf("%v", d.options)
	d.open()
	return d
}

func (d *sqlDB) open() {
	d.core = newErrorCore()
	d.options[ecore.SQL_OPTION_LOGGER] = zap.New(d.core)
	s, err := ecore.NewSQLStore(d.path, ecore.NewURI("mem:/store.sqlite"), d.ids, newResourceSet(d.m).GetPackageRegistry(), d.options)
	if err != nil {
		d.t.Fatalf("opening the store: %v", err)
	}
	d.store = s
}

func (d *sqlDB) wait() {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	if err := d.store.WaitOperations(ctx, nil); err != nil {
		d.t.Fatalf("an operation of the store failed: %v\n%s", err, d.core.text())
	}
	if s := d.core.text(); s != "" {
		d.t.Fatalf("the store reports\n%s", s)
	}
}

func (d *sqlDB) close() {
	if d.store == nil {
		return
	}
	s := d.store
	d.store = nil
	if err := s.Close(); err != nil {
		d.t.Fatalf("closing the store: %v", err)
	}
	if s := d.core.text(); s != "" {
		d.t.Fatalf("the store reports\n%s", s)
	}
}

func (d *sqlDB) remove() {
	if d == nil {
		return
	}
	if d.store != nil {
		d.store.Close()
	}
	os.RemoveAll(filepath.Dir(d.path))
}

// sqlObject carries its identifier in the database
type sqlObject struct {
	ecore.DynamicEObjectImpl
	id    int64
	store ecore.EStore
}

func (o *sqlObject) SetSQLID(id int64)        { o.id = id }
func (o *sqlObject) GetSQLID() int64          { return o.id }
func (o *sqlObject) SetEStore(s ecore.EStore) { o.store = s }
func (o *sqlObject) GetEStore() ecore.EStore  { return o.store }

type sqlFactory struct{ ecore.EFactoryExt }

func (f *sqlFactory) Create(c ecore.EClass) ecore.EObject {
	o := &sqlObject{}
	o.SetInterfaces(o)
	o.Initialize()
	o.SetEClass(c)
	return o
}

// storeModel is what the database should hold
type storeModel struct {
	*sqlDB
	c     *Rec
	objs  []ecore.EObject
	cls   []*Class
	live  []bool // known by the store
	vals  map[storeKey][]any
	conts map[ecore.EObject]storeKey
	roots []ecore.EObject
	waits bool
	edits int
	lists int
}

func (s *storeModel) name(v any) string {
	if o, ok := v.(ecore.EObject); ok {
		if i := slices.Index(s.objs, o); i >= 0 {
			return fmt.Sprintf("o%d", i)
		}
		if u := o.(ecore.EObjectInternal).EProxyURI(); u != nil {
			return "proxy(" + u.String() + ")"
		}
		return "stranger(" + o.EClass().GetName() + ")"
	}
	return noSign.Replace(fmtValue(v))
}

func (s *storeModel) names(vs []any) string {
	r := make([]string, len(vs))
	for i, v := range vs {
		r[i] = s.name(v)
	}
	return "[" + strings.Join(r, " ") + "]"
}

// pick gives an object and one of its features kept in the store
func (s *storeModel) slot(ok func(o ecore.EObject, f *Feat) bool) (ecore.EObject, *Feat) {
	type slot struct {
		i int
		f *Feat
	}
	var slots []slot
	for i, o := range s.objs {
		if !s.live[i] {
			continue
		}
		for _, f := range s.cls[i].All() {
			if !f.Transient && !f.Container() && !f.Map() && ok(o, f) {
				slots = append(slots, slot{i, f})
			}
		}
	}
	if len(slots) == 0 {
		return nil, nil
	}
	x := pickOne(s.t, "slot", slots)
	return s.objs[x.i], x.f
}

func (s *storeModel) create(c *Class) ecore.EObject {
	o := s.m.New(c)
	s.objs = append(s.objs, o)
	s.cls = append(s.cls, c)
	s.live = append(s.live, false)
	for _, f := range c.All() {
		if !f.Attr || f.Transient || f.ReadOnly || !rapid.Bool().Draw(s.t, "valued") {
			continue
		}
		k := storeKey{o, f.E}
		if f.Many {
			l := o.EGet(f.E).(ecore.EList)
			for n := rapid.IntRange(1, 3).Draw(s.t, "values"); n > 0; n-- {
				l.Add(positive(genValue(s.t, s.m, f.DT, AlphaAny)))
			}
			s.vals[k] = append([]any{}, l.ToArray()...)
		} else {
			o.ESet(f.E, positive(genValue(s.t, s.m, f.DT, AlphaAny)))
			if o.EIsSet(f.E) {
				s.vals[k] = []any{o.EGet(f.E)}
			}
		}
	}
	return o
}

// enter : the store takes an object and those it contains
func (s *storeModel) enter(o ecore.EObject) {
	i := slices.Index(s.objs, o)
	s.live[i] = true
	for _, f := range s.cls[i].All() {
		if f.Cont {
			for _, v := range s.vals[storeKey{o, f.E}] {
				s.enter(v.(ecore.EObject))
			}
		}
	}
}

// tree creates an object with some content, still in memory
func (s *storeModel) tree(c *Class, depth int) ecore.EObject {
	o := s.create(c)
	if depth == 0 {
		return o
	}
	for _, f := range c.All() {
		if !f.Cont || f.Transient || f.ReadOnly || f.Map() || f.Opp != nil || len(s.m.Concrete(f.Target)) == 0 || !oneIn(s.t, 3, "content") {
			continue
		}
		k := storeKey{o, f.E}
		n := 1
		if f.Many {
			n = rapid.IntRange(1, 2).Draw(s.t, "children")
		}
		for ; n > 0; n-- {
			x := s.tree(pickOne(s.t, "child class", s.m.Concrete(f.Target)), depth-1)
			if f.Many {
				o.EGet(f.E).(ecore.EList).Add(x)
			} else {
				o.ESet(f.E, x)
			}
			s.vals[k] = append(s.vals[k], x)
			s.conts[x] = k
		}
	}
	return o
}

// value gives a value for a feature
func (s *storeModel) value(f *Feat) (any, bool) {
	if f.Attr {
		return positive(genValue(s.t, s.m, f.DT, AlphaAny)), true
	}
	var objs []ecore.EObject
	for i, o := range s.objs {
		if s.live[i] && f.E.(ecore.EReference).GetEReferenceType().IsSuperTypeOf(o.EClass()) && !f.Cont {
			objs = append(objs, o)
		}
	}
	if f.Cont {
		if cs := s.m.Concrete(f.Target); len(cs) > 0 && len(s.objs) < 30 {
			return s.tree(pickOne(s.t, "class", cs), 1), true
		}
		return nil, false
	}
	if len(objs) == 0 {
		return nil, false
	}
	return pickOne(s.t, "target", objs), true
}

func (s *storeModel) entered(o ecore.EObject, f *Feat, v any) {
	if x, ok := v.(ecore.EObject); ok && f.Cont {
		s.enter(x)
		s.conts[x] = storeKey{o, f.E}
		s.store.SetContainer(x, o, f.E)
	}
}

func (s *storeModel) left(f *Feat, v any) {
	if x, ok := v.(ecore.EObject); ok && f.Cont {
		delete(s.conts, x)
		s.store.SetContainer(x, nil, nil)
	}
}

func (s *storeModel) fail(format string, args ...any) {
	s.t.Fatalf("%s\n%s\n%s", fmt.Sprintf(format, args...), s.core.text(), s.c.trace.String())
}

func (s *storeModel) logf(format string, args ...any) { s.c.Logf(format, args...) }

func (s *storeModel) step() {
	t := s.t
	op := pickOne(t, "op", []string{"set", "set", "unset", "get", "add", "add", "add", "addAll", "insert", "insert", "remove", "remove", "removeSame", "move", "move", "setAt", "clear", "indexOf", "root", "unroot", "read", "container", "wait", "unregister"})
	single := func(o ecore.EObject, f *Feat) bool { return !f.Many }
	many := func(o ecore.EObject, f *Feat) bool { return f.Many }
	full := func(o ecore.EObject, f *Feat) bool { return f.Many && len(s.vals[storeKey{o, f.E}]) > 0 }
	var o ecore.EObject
	var f *Feat
	switch op {
	case "set", "unset", "get":
		o, f = s.slot(single)
	case "add", "addAll", "insert":
		o, f = s.slot(many)
	case "remove", "removeSame", "move", "setAt", "clear", "indexOf":
		o, f = s.slot(full)
	}
	var k storeKey
	var at string
	if f != nil {
		k = storeKey{o, f.E}
		at = s.name(o) + "." + f.Name
		s.edits++
		if f.Many {
			s.lists++
		}
	}
	l := s.vals[k]
	switch op {
	case "wait":
		s.wait()
	case "read":
		s.check()
	case "root":
		if len(s.objs) >= 30 {
			return
		}
		o := s.tree(pickOne(t, "class", s.m.Concrete(nil)), 2)
		s.logf("root %s", s.name(o))
		s.store.AddRoot(o)
		s.enter(o)
		s.roots = append(s.roots, o)
	case "unroot":
		if len(s.roots) == 0 {
			return
		}
		i := rapid.IntRange(0, len(s.roots)-1).Draw(t, "root")
		s.logf("no more root %s", s.name(s.roots[i]))
		s.store.RemoveRoot(s.roots[i])
		s.roots = slices.Delete(slices.Clone(s.roots), i, i+1)
	case "container":
		var live []ecore.EObject
		for i, o := range s.objs {
			if s.live[i] {
				live = append(live, o)
			}
		}
		if len(live) > 0 {
			s.checkContainer(pickOne(t, "object", live))
		}
	}
	if f == nil {
		return
	}
	switch op {
	case "set":
		v, ok := s.value(f)
		if !ok || f.Cont && oneIn(t, 3, "nil") {
			v = nil
		}
		s.logf("set %s %s", at, s.name(v))
		result := rapid.Bool().Draw(t, "result")
		old := s.store.Set(o, f.E, ecore.NO_INDEX, v, result)
		if result {
			s.same(at+": the value before set", f, old, l)
		}
		for _, x := range l {
			s.left(f, x)
		}
		if v == nil {
			delete(s.vals, k)
		} else {
			s.vals[k] = []any{v}
			s.entered(o, f, v)
		}
	case "unset":
		s.logf("unset %s", at)
		s.store.UnSet(o, f.E)
		for _, x := range l {
			s.left(f, x)
		}
		delete(s.vals, k)
	case "get":
		s.checkFeature(o, f)
	case "add", "insert":
		i := len(l)
		if op == "insert" {
			i = rapid.IntRange(0, len(l)).Draw(t, "at")
		}
		v, ok := s.value(f)
		if !ok {
			return
		}
		s.logf("add %s[%d] %s", at, i, s.name(v))
		s.store.Add(o, f.E, i, v)
		s.vals[k] = slices.Insert(slices.Clone(l), i, v)
		s.entered(o, f, v)
	case "addAll":
		i := rapid.IntRange(0, len(l)).Draw(t, "at")
		var vs []any
		for n := rapid.IntRange(0, 4).Draw(t, "n"); n > 0; n-- {
			if v, ok := s.value(f); ok {
				vs = append(vs, v)
			}
		}
		s.logf("add all %s[%d] %s", at, i, s.names(vs))
		s.store.AddAll(o, f.E, i, ecore.NewImmutableEList(vs))
		s.vals[k] = slices.Insert(slices.Clone(l), i, vs...)
		for _, v := range vs {
			s.entered(o, f, v)
		}
	case "remove":
		i := rapid.IntRange(0, len(l)-1).Draw(t, "index")
		result := rapid.Bool().Draw(t, "result")
		s.logf("remove %s[%d]", at, i)
		old := s.store.Remove(o, f.E, i, result)
		if result {
			s.same(at+": removed", f, old, l[i:i+1])
		}
		s.vals[k] = slices.Delete(slices.Clone(l), i, i+1)
		s.left(f, l[i])
	case "move":
		i, j := rapid.IntRange(0, len(l)-1).Draw(t, "from"), rapid.IntRange(0, len(l)-1).Draw(t, "to")
		result := rapid.Bool().Draw(t, "result")
		s.logf("move %s[%d] to %d", at, i, j)
		old := s.store.Move(o, f.E, i, j, result)
		if result {
			s.same(at+": moved", f, old, l[i:i+1])
		}
		s.vals[k] = slices.Insert(slices.Delete(slices.Clone(l), i, i+1), j, l[i])
	case "setAt":
		i := rapid.IntRange(0, len(l)-1).Draw(t, "index")
		v, ok := s.value(f)
		if !ok {
			return
		}
		result := rapid.Bool().Draw(t, "result")
		s.logf("set %s[%d] %s", at, i, s.name(v))
		old := s.store.Set(o, f.E, i, v, result)
		if result {
			s.same(at+": the value before set", f, old, l[i:i+1])
		}
		s.left(f, l[i])
		s.vals[k] = slices.Clone(l)
		s.vals[k][i] = v
		s.entered(o, f, v)
	case "clear":
		if !oneIn(t, 3, "clear") {
			return
		}
		s.logf("clear %s", at)
		if rapid.Bool().Draw(t, "unset") {
			s.store.UnSet(o, f.E)
		} else {
			s.store.Clear(o, f.E)
		}
		delete(s.vals, k)
		for _, v := range l {
			s.left(f, v)
		}
	case "indexOf":
		v := pickOne(t, "value", l)
		if f.Attr && rapid.Bool().Draw(t, "another") {
			v = positive(genValue(t, s.m, f.DT, AlphaAny))
		}
		first, last := -1, -1
		for i, x := range l {
			if s.name(x) == s.name(v) {
				if first < 0 {
					first = i
				}
				last = i
			}
		}
		if b := s.store.Contains(o, f.E, v); b != (first >= 0) {
			s.fail("%s %s contains %s: %v", at, s.names(l), s.name(v), b)
		}
		if i := s.store.IndexOf(o, f.E, v); i != first {
			s.fail("%s %s index of %s: %d", at, s.names(l), s.name(v), i)
		}
		if i := s.store.LastIndexOf(o, f.E, v); i != last {
			s.fail("%s %s last index of %s: %d", at, s.names(l), s.name(v), i)
		}
	}
}

// same compares a value with the one the store should hold, nil and the default value if there is none
func (s *storeModel) same(what string, f *Feat, v any, want []any) {
	if len(want) == 0 {
		if d := defaultOf(s.m, f); v != nil && s.name(v) != s.name(d) {
			s.fail("%s is %s instead of %s", what, s.name(v), s.name(d))
		}
	} else if s.name(v) != s.name(want[0]) {
		s.fail("%s is %s instead of %s", what, s.name(v), s.name(want[0]))
	}
}

func (s *storeModel) checkFeature(o ecore.EObject, f *Feat) {
	k := storeKey{o, f.E}
	l := s.vals[k]
	at := s.name(o) + "." + f.Name
	if set := s.store.IsSet(o, f.E); set != (len(l) > 0) {
		s.fail("%s is set: %v, values %s", at, set, s.names(l))
	}
	if !f.Many {
		s.same(at, f, s.store.Get(o, f.E, ecore.NO_INDEX), l)
		return
	}
	if n := s.store.Size(o, f.E); n != len(l) {
		s.fail("%s has %d elements instead of %s", at, n, s.names(l))
	}
	if b := s.store.IsEmpty(o, f.E); b != (len(l) == 0) {
		s.fail("%s is empty %v: %s", at, b, s.names(l))
	}
	if g := s.store.ToArray(o, f.E); s.names(g) != s.names(l) {
		s.fail("%s is %s instead of %s", at, s.names(g), s.names(l))
	}
	if len(l) > 0 {
		i := rapid.IntRange(0, len(l)-1).Draw(s.t, "index")
		if v := s.store.Get(o, f.E, i); s.name(v) != s.name(l[i]) {
			s.fail("%s[%d] is %s instead of %s", at, i, s.name(v), s.name(l[i]))
		}
		n := 0
		for range s.store.All(o, f.E) {
			if n++; n > i {
				break
			}
		}
		if n != i+1 {
			s.fail("%s: an iteration stopped at element %d gave %d", at, i, n)
		}
	}
}

func (s *storeModel) checkContainer(o ecore.EObject) {
	k := s.conts[o]
	c, f := s.store.GetContainer(o)
	if c != k.o && (c != nil || k.o != nil) || c != nil && f != k.f {
		s.fail("the container of %s is %s %s instead of %s %s", s.name(o), s.name(c), featName(f), s.name(k.o), featName(k.f))
	}
}

func (s *storeModel) check() {
	for i, o := range s.objs {
		if s.live[i] {
			for _, f := range s.cls[i].All() {
				if !f.Transient && !f.Container() && !f.Map() {
					s.checkFeature(o, f)
				}
			}
			s.checkContainer(o)
		}
	}
	var roots []any
	for _, r := range s.store.GetRoots() {
		roots = append(roots, r)
	}
	var want []any
	for _, r := range s.roots {
		want = append(want, r)
	}
	if s.names(roots) != s.names(want) {
		s.fail("the roots are %s instead of %s", s.names(roots), s.names(want))
	}
}

// match finds which object of the store every known object is after the database was closed and opened again
func (s *storeModel) match() {
	now := map[ecore.EObject]ecore.EObject{} // known object -> object of the store
	var visit func(o, x any, at string)
	visit = func(o, x any, at string) {
		a, ok1 := o.(ecore.EObject)
		b, ok2 := x.(ecore.EObject)
		if !ok1 || !ok2 {
			s.fail("%s is %s instead of %s", at, s.name(x), s.name(o))
		}
		if y := now[a]; y != nil {
			if y != b {
				s.fail("%s is two objects", s.name(a))
			}
			return
		}
		now[a] = b
		i := slices.Index(s.objs, a)
		if b.EClass() != a.EClass() {
			s.fail("%s is a %s instead of a %s", at, b.EClass().GetName(), a.EClass().GetName())
		}
		for _, f := range s.cls[i].All() {
			if f.Attr || f.Transient || f.Container() || f.Map() {
				continue
			}
			l := s.vals[storeKey{a, f.E}]
			var g []any
			if f.Many {
				g = s.store.ToArray(b, f.E)
			} else if v := s.store.Get(b, f.E, ecore.NO_INDEX); v != nil {
				g = []any{v}
			}
			if len(g) != len(l) {
				s.fail("%s.%s has %d elements instead of %s", s.name(a), f.Name, len(g), s.names(l))
			}
			for j := range l {
				visit(l[j], g[j], fmt.Sprintf("%s.%s[%d]", s.name(a), f.Name, j))
			}
		}
	}
	roots := s.store.GetRoots()
	if len(roots) != len(s.roots) {
		s.fail("there are %d roots instead of %d", len(roots), len(s.roots))
	}
	for i, r := range s.roots {
		visit(r, roots[i], fmt.Sprintf("root %d", i))
	}
	// objects which are not reached are forgotten
	vals, conts := map[storeKey][]any{}, map[ecore.EObject]storeKey{}
	for k, l := range s.vals {
		if now[k.o] != nil {
			for i, v := range l {
				if x, ok := v.(ecore.EObject); ok {
					l[i] = now[x]
				}
			}
			vals[storeKey{now[k.o], k.f}] = l
		}
	}
	for o, k := range s.conts {
		if now[o] != nil && now[k.o] != nil {
			conts[now[o]] = storeKey{now[k.o], k.f}
		} else if now[o] != nil {
			// its container is not reached
			c, _ := s.store.GetContainer(now[o])
			conts[now[o]] = storeKey{c, k.f}
			if c == nil || c.EClass() != k.o.EClass() {
				s.fail("%s has lost its container", s.name(o))
			}
		}
	}
	for i, o := range s.objs {
		s.live[i] = now[o] != nil
		if now[o] != nil {
			s.objs[i] = now[o]
		}
	}
	for i, o := range s.roots {
		s.roots[i] = now[o]
	}
	s.vals, s.conts = vals, conts
}

func TestP22_Store(t *testing.T) {
	runProp(t, "at least 10 operations, 4 of them on lists, and the database was closed and opened again", 240, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{Pkgs: 2, NoNamesakes: true, DTs: allDTs, ContBias: rapid.Bool().Draw(t, "contbias"), Dense: true})
		if rapid.Bool().Draw(t, "sql objects") {
			c.Label("sql objects")
			for _, p := range m.Pkgs {
				f := &sqlFactory{}
				f.SetInterfaces(f)
				f.Initialize()
				p.SetEFactoryInstance(f)
			}
		}
		c.Logf("%s", m)
		s := &storeModel{sqlDB: newSQLDB(t, m, c), c: c, vals: map[storeKey][]any{}, conts: map[ecore.EObject]storeKey{}}
		defer s.remove()
		reopened := 0
		for rounds := rapid.IntRange(1, 3).Draw(t, "rounds"); rounds > 0; rounds-- {
			for n := rapid.IntRange(1, 2).Draw(t, "new roots"); n > 0; n-- {
				o := s.tree(pickOne(t, "class", m.Concrete(nil)), 2)
				s.logf("root %s", s.name(o))
				s.store.AddRoot(o)
				s.enter(o)
				s.roots = append(s.roots, o)
			}
			for n := rapid.IntRange(5, 25).Draw(t, "steps"); n > 0; n-- {
				s.step()
			}
			s.check()
			s.wait()
			s.logf("close")
			s.close()
			s.open()
			reopened++
			s.match()
			s.check()
		}
		s.close()
		if s.edits >= 10 && s.lists >= 4 {
			c.Nontrivial()
		}
	})
}

// of : what the store should hold of a world
func (s *storeModel) of(w *World) {
	s.objs = slices.Clone(w.objs)
	s.cls = w.cls
	s.vals, s.conts = map[storeKey][]any{}, map[ecore.EObject]storeKey{}
	s.live = make([]bool, len(s.objs))
	for i, o := range s.objs {
		s.live[i] = true
		for _, f := range s.cls[i].All() {
			if f.Transient || f.Container() {
				continue
			}
			l := w.attrs[i][f]
			if !f.Attr {
				l = w.objsOf(w.refs[i][f])
			}
			if len(l) > 0 {
				s.vals[storeKey{o, f.E}] = slices.Clone(l)
			}
		}
		if w.cont[i] >= 0 {
			s.conts[o] = storeKey{w.objs[w.cont[i]], w.contF[i].E}
		}
	}
}

// positive replaces the negative zero, whose sign SQLite forgets
func positive(v any) any {
	switch x := v.(type) {
	case float64:
		if x == 0 {
			return float64(0)
		}
	case float32:
		if x == 0 {
			return float32(0)
		}
	}
	return v
}

// checkObject reads an object which comes from the database
func (s *storeModel) checkObject(i int) {
	o := s.objs[i]
	for _, f := range s.cls[i].All() {
		if f.Transient || f.Container() || f.Map() {
			continue
		}
		l := s.vals[storeKey{o, f.E}]
		at := s.name(o) + "." + f.Name
		if set := o.EIsSet(f.E); set != (len(l) > 0) {
			s.fail("%s is set: %v, values %s", at, set, s.names(l))
		}
		if f.Many {
			var g []any
			for v := range o.EGet(f.E).(ecore.EList).All() {
				g = append(g, v)
			}
			if s.names(g) != s.names(l) {
				s.fail("%s is %s instead of %s", at, s.names(g), s.names(l))
			}
		} else {
			s.same(at, f, o.EGet(f.E), l)
		}
		if set := o.EIsSet(f.E); set != (len(l) > 0) {
			s.fail("%s is set after a read: %v, values %s", at, set, s.names(l))
		}
	}
	k := s.conts[o]
	if c := o.EContainer(); c != k.o {
		s.fail("%s is contained by %s instead of %s", s.name(o), s.name(c), s.name(k.o))
	}
	if f := o.EContainingFeature(); k.o != nil && f != k.f {
		s.fail("%s is contained through %s instead of %s", s.name(o), featName(f), featName(k.f))
	}
}

func TestP22_Objects(t *testing.T) {
	runProp(t, "at least 8 edits, and an object with at least 2 features which are set was read again from the database", 240, func(t *rapid.T, c *Rec) {
		cache := rapid.Bool().Draw(t, "cache")
		c.LabelIf(cache, "cache")
		s := &storeModel{c: c}
		defer func() { s.remove() }()
		n, added, waits := 0, 0, rapid.Bool().Draw(t, "waits")
		w := worldCase(t, c, ModelOpts{Pkgs: 2, NoNamesakes: true, DTs: comparableDTs, MaxClasses: 3, MaxFeats: 5, Dense: true, ContBias: rapid.Bool().Draw(t, "contbias"), OppBias: rapid.Bool().Draw(t, "oppbias")},
			worldOpts{minObjs: 1, maxObjs: 6, create: func(cl *Class) ecore.EObject {
				o := cl.E.GetEPackage().GetEFactoryInstance().Create(cl.E)
				return o
			}, model: func(m *Model) {
				for _, p := range m.Pkgs {
					p.SetEFactoryInstance(newStoreFactory(func() bool { return cache }))
				}
				s.sqlDB = newSQLDB(t, m, c)
			}}, 25, func(w *World) {
				for i, o := range w.objs {
					s.roots = append(s.roots, o)
					w.do(fmt.Sprintf("root o%d", i), func() { s.store.AddRoot(o) })
				}
				s.wait()
				// an object which is not in the store enters it
				w.extra = func() bool {
					type place struct {
						i int
						f *Feat
					}
					var places []place
					for i, c := range w.cls {
						for _, f := range c.All() {
							if f.Cont && f.Many && !f.Transient && !f.ReadOnly && !f.Map() && len(w.m.Concrete(f.Target)) > 0 {
								places = append(places, place{i, f})
							}
						}
					}
					if len(places) == 0 || len(w.objs) > 12 {
						return false
					}
					p := pickOne(t, "place", places)
					cl := pickOne(t, "class", w.m.Concrete(p.f.Target))
					o := cl.E.GetEPackage().GetEFactoryInstance().Create(cl.E)
					i := w.addObj(cl, o)
					for _, f := range cl.All() {
						if f.Attr && !f.Many && !f.ReadOnly && rapid.Bool().Draw(t, "valued") {
							v := w.value(f)
							o.ESet(f.E, v)
							if v != nil {
								w.attrs[i][f] = []any{v}
							}
						}
					}
					added++
					w.do(fmt.Sprintf("o%d.%s.add new o%d", p.i, p.f.Name, i), func() { w.list(p.i, p.f).Add(o) })
					w.link(p.i, p.f, i, len(w.refs[p.i][p.f]))
					// others may refer to it now
					s.wait()
					return true
				}
				w.value = func(f *Feat) any { return positive(genValue(t, w.m, f.DT, AlphaAny)) }
				w.after = func(string) {
					n++
					if waits {
						s.wait()
					}
				}
			})
		s.wait()
		w.checkFeatures()
		w.checkContainment()
		for i, o := range w.objs {
			if w.cont[i] < 0 && !slices.Contains(s.roots, o) {
				s.store.AddRoot(o)
				s.roots = append(s.roots, o)
			}
		}
		s.wait()
		s.of(w)
		s.check()
		s.wait()
		s.close()
		s.open()
		c.Logf("close")
		s.match()
		s.check()
		for i := range s.objs {
			if s.live[i] {
				s.checkObject(i)
			}
		}
		s.close()
		full := 0
		sets := map[ecore.EObject]int{}
		for k := range s.vals {
			if sets[k.o]++; sets[k.o] == 2 {
				full++
			}
		}
		c.LabelIf(added > 0, "objects added later")
		if n >= 8 && full > 0 {
			c.Nontrivial()
		}
	})
}

// script draws operations on some objects and gives a function which makes them
func (s *storeModel) script(objs []int, n int) (string, func() string) {
	t := s.t
	type slot struct {
		i int
		f *Feat
	}
	var slots []slot
	for _, i := range objs {
		for _, f := range s.cls[i].All() {
			if !f.Transient && !f.Container() && !f.Map() && !f.Cont {
				slots = append(slots, slot{i, f})
			}
		}
	}
	var text strings.Builder
	var ops []func() string
	for ; n > 0 && len(slots) > 0; n-- {
		x := pickOne(t, "slot", slots)
		o, f := s.objs[x.i], x.f
		k := storeKey{o, f.E}
		l := s.vals[k]
		at := s.name(o) + "." + f.Name
		switch op := pickOne(t, "op", []string{"write", "write", "write", "read", "unset", "move"}); {
		case op == "read" && f.Many:
			fmt.Fprintf(&text, "  read %s\n", at)
			want := s.names(l)
			ops = append(ops, func() string {
				if g := s.store.ToArray(o, f.E); s.names(g) != want {
					return fmt.Sprintf("%s is %s instead of %s", at, s.names(g), want)
				}
				if n := s.store.Size(o, f.E); n != len(l) {
					return fmt.Sprintf("%s has %d elements instead of %s", at, n, want)
				}
				return ""
			})
		case op == "read":
			fmt.Fprintf(&text, "  read %s\n", at)
			want := s.name(defaultOf(s.m, f))
			if len(l) > 0 {
				want = s.name(l[0])
			} else if f.Attr && defaultOf(s.m, f) == nil {
				continue
			}
			ops = append(ops, func() string {
				if v := s.store.Get(o, f.E, ecore.NO_INDEX); s.name(v) != want {
					return fmt.Sprintf("%s is %s instead of %s", at, s.name(v), want)
				}
				if set := s.store.IsSet(o, f.E); set != (len(l) > 0) {
					return fmt.Sprintf("%s is set: %v, values %s", at, set, s.names(l))
				}
				return ""
			})
		case op == "unset" && (!f.Many || oneIn(t, 3, "clear")):
			fmt.Fprintf(&text, "  unset %s\n", at)
			delete(s.vals, k)
			ops = append(ops, func() string { s.store.UnSet(o, f.E); return "" })
		case op == "unset" && f.Many && len(l) > 0:
			i := rapid.IntRange(0, len(l)-1).Draw(t, "index")
			fmt.Fprintf(&text, "  remove %s[%d]\n", at, i)
			s.vals[k] = slices.Delete(slices.Clone(l), i, i+1)
			want := s.name(l[i])
			ops = append(ops, func() string {
				if v := s.store.Remove(o, f.E, i, true); s.name(v) != want {
					return fmt.Sprintf("%s[%d]: removed %s instead of %s", at, i, s.name(v), want)
				}
				return ""
			})
		case op == "move" && f.Many && len(l) > 0:
			i, j := rapid.IntRange(0, len(l)-1).Draw(t, "from"), rapid.IntRange(0, len(l)-1).Draw(t, "to")
			fmt.Fprintf(&text, "  move %s[%d] to %d\n", at, i, j)
			s.vals[k] = slices.Insert(slices.Delete(slices.Clone(l), i, i+1), j, l[i])
			ops = append(ops, func() string { s.store.Move(o, f.E, i, j, false); return "" })
		default:
			v, ok := s.value(f)
			if !ok {
				continue
			}
			if f.Many {
				i := rapid.IntRange(0, len(l)).Draw(t, "at")
				fmt.Fprintf(&text, "  add %s[%d] %s\n", at, i, s.name(v))
				s.vals[k] = slices.Insert(slices.Clone(l), i, v)
				ops = append(ops, func() string { s.store.Add(o, f.E, i, v); return "" })
			} else {
				fmt.Fprintf(&text, "  set %s %s\n", at, s.name(v))
				s.vals[k] = []any{v}
				ops = append(ops, func() string { s.store.Set(o, f.E, ecore.NO_INDEX, v, false); return "" })
			}
		}
	}
	return text.String(), func() string {
		for _, op := range ops {
			if m := op(); m != "" {
				return m
			}
		}
		return ""
	}
}

func TestP22_Parallel(t *testing.T) {
	runProp(t, "at least 2 goroutines made 4 operations or more each, on different objects of the store, or added to the same list", 240, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{NoNamesakes: true, DTs: allDTs, MaxClasses: 3, Dense: true})
		if rapid.Bool().Draw(t, "sql objects") {
			for _, p := range m.Pkgs {
				f := &sqlFactory{}
				f.SetInterfaces(f)
				f.Initialize()
				p.SetEFactoryInstance(f)
			}
		}
		c.Logf("%s", m)
		s := &storeModel{sqlDB: newSQLDB(t, m, c), c: c, vals: map[storeKey][]any{}, conts: map[ecore.EObject]storeKey{}}
		defer s.remove()
		for n := rapid.IntRange(2, 5).Draw(t, "roots"); n > 0; n-- {
			o := s.tree(pickOne(t, "class", m.Concrete(nil)), 1)
			s.logf("root %s", s.name(o))
			s.store.AddRoot(o)
			s.enter(o)
			s.roots = append(s.roots, o)
		}
		for rounds := rapid.IntRange(1, 3).Draw(t, "rounds"); rounds > 0; rounds-- {
			// objects of each goroutine
			parts := make([][]int, rapid.IntRange(2, 6).Draw(t, "goroutines"))
			for i := range s.objs {
				j := rapid.IntRange(0, len(parts)-1).Draw(t, "of")
				parts[j] = append(parts[j], i)
			}
			// a list to which all of them add
			var list *Feat
			var owner ecore.EObject
			var adds [][]any
			if oneIn(t, 3, "shared list") {
				owner, list = s.slot(func(o ecore.EObject, f *Feat) bool { return f.Many && f.Attr })
			}
			if list != nil {
				c.Label("shared list")
				i := slices.Index(s.objs, owner)
				for j := range parts {
					parts[j] = slices.DeleteFunc(parts[j], func(x int) bool { return x == i })
				}
			}
			var scripts []func() string
			busy := 0
			for j := range parts {
				n := rapid.IntRange(2, 10).Draw(t, "operations")
				text, f := s.script(parts[j], n)
				c.Logf("goroutine %d\n%s", j, text)
				if strings.Count(text, "\n") >= 4 {
					busy++
				}
				if list != nil {
					var mine []any
					for n := rapid.IntRange(1, 4).Draw(t, "added"); n > 0; n-- {
						mine = append(mine, positive(genValue(t, m, list.DT, AlphaAny)))
					}
					adds = append(adds, mine)
					c.Logf("  then add to %s.%s %s", s.name(owner), list.Name, s.names(mine))
					g := f
					f = func() string {
						for _, v := range mine {
							s.store.Add(owner, list.E, 0, v)
						}
						return g()
					}
				}
				scripts = append(scripts, f)
			}
			var wg sync.WaitGroup
			results := make([]string, len(scripts))
			start := make(chan bool)
			for j, f := range scripts {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					results[j] = f()
				}()
			}
			close(start)
			if rapid.Bool().Draw(t, "reads roots") {
				s.store.GetRoots()
			}
			wg.Wait()
			for j, r := range results {
				if r != "" {
					s.fail("goroutine %d: %s", j, r)
				}
			}
			s.wait()
			if list != nil {
				k := storeKey{owner, list.E}
				got := s.store.ToArray(owner, list.E)
				n := len(got) - len(s.vals[k])
				if n < 0 || s.names(got[n:]) != s.names(s.vals[k]) {
					s.fail("%s.%s is %s, it was %s", s.name(owner), list.Name, s.names(got), s.names(s.vals[k]))
				}
				// what each goroutine added is there, the last first
				rest := slices.Clone(adds)
				for i, mine := range rest {
					rest[i] = slices.Clone(mine)
					slices.Reverse(rest[i])
				}
				if !s.merged(got[:n], rest) {
					s.fail("%s.%s begins with %s, the goroutines added %v", s.name(owner), list.Name, s.names(got[:n]), adds)
				}
				s.vals[k] = slices.Clone(got)
			}
			s.check()
			if busy >= 2 {
				c.Nontrivial()
			}
		}
		s.wait()
		s.close()
		s.open()
		s.match()
		s.check()
		s.close()
	})
}

// merged tells if a sequence is made of others, in any interleaving
func (s *storeModel) merged(l []any, parts [][]any) bool {
	if len(l) == 0 {
		return !slices.ContainsFunc(parts, func(p []any) bool { return len(p) > 0 })
	}
	for i, p := range parts {
		if len(p) > 0 && s.name(p[0]) == s.name(l[0]) {
			parts[i] = p[1:]
			if s.merged(l[1:], parts) {
				return true
			}
			parts[i] = p
		}
	}
	return false
}
