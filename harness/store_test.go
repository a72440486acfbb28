package harness

// A store in memory, and objects which keep their features in a store.

import (
	"fmt"
	"iter"

	"github.com/masagroup/soft.go/ecore"
)

type storeKey struct {
	o ecore.EObject
	f ecore.EStructuralFeature
}

// memStore does what ecore.EStore asks for, in the simplest way
type memStore struct {
	vals  map[storeKey]any
	lists map[storeKey][]any
	conts map[ecore.EObject]storeKey
	calls int
	bad   string // the first call which no list operation should make
}

func newMemStore() *memStore {
	return &memStore{vals: map[storeKey]any{}, lists: map[storeKey][]any{}, conts: map[ecore.EObject]storeKey{}}
}

func (s *memStore) misuse(format string, args ...any) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(format, args...)
	}
}

func (s *memStore) AddRoot(o ecore.EObject)    { s.attach(o) }
func (s *memStore) RemoveRoot(o ecore.EObject) {}

func (s *memStore) Get(o ecore.EObject, f ecore.EStructuralFeature, i int) any {
	s.calls++
	k := storeKey{o, f}
	if !f.IsMany() {
		if i != ecore.NO_INDEX {
			s.misuse("get %s at %d", f.GetName(), i)
		}
		return s.vals[k]
	}
	if i < 0 || i >= len(s.lists[k]) {
		s.misuse("get %s at %d of %d", f.GetName(), i, len(s.lists[k]))
		return nil
	}
	return s.lists[k][i]
}

// take attaches the objects which enter the store with the one that contains them
func (s *memStore) take(f ecore.EStructuralFeature, v any) {
	if r, _ := f.(ecore.EReference); r != nil && r.IsContainment() {
		if o, _ := v.(ecore.EObject); o != nil {
			s.attach(o)
		}
	}
}

func (s *memStore) attach(o ecore.EObject) {
	p, _ := o.(ecore.EStoreProvider)
	if p == nil || p.GetEStore() == ecore.EStore(s) {
		return
	}
	for it := o.EClass().GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
		f := it.Next().(ecore.EStructuralFeature)
		if r, _ := f.(ecore.EReference); r != nil && r.IsContainer() || f.IsTransient() || !o.EIsSet(f) {
			continue
		}
		k := storeKey{o, f}
		v := o.EGetResolve(f, false)
		if f.IsMany() {
			l := v.(ecore.EList)
			if u, ok := l.(ecore.EObjectList); ok {
				l = u.GetUnResolvedList()
			}
			s.lists[k] = append([]any{}, l.ToArray()...)
			for _, x := range s.lists[k] {
				s.take(f, x)
			}
		} else {
			s.vals[k] = v
			s.take(f, v)
		}
	}
	p.SetEStore(s)
}

func (s *memStore) Set(o ecore.EObject, f ecore.EStructuralFeature, i int, v any, result bool) any {
	s.calls++
	k := storeKey{o, f}
	s.take(f, v)
	if !f.IsMany() {
		if i != ecore.NO_INDEX {
			s.misuse("set %s at %d", f.GetName(), i)
		}
		old := s.vals[k]
		if v == nil {
			delete(s.vals, k)
		} else {
			s.vals[k] = v
		}
		return old
	}
	if i < 0 || i >= len(s.lists[k]) {
		s.misuse("set %s at %d of %d", f.GetName(), i, len(s.lists[k]))
		return nil
	}
	old := s.lists[k][i]
	s.lists[k][i] = v
	return old
}

func (s *memStore) IsSet(o ecore.EObject, f ecore.EStructuralFeature) bool {
	s.calls++
	if f.IsMany() {
		return len(s.lists[storeKey{o, f}]) > 0
	}
	return s.vals[storeKey{o, f}] != nil
}

func (s *memStore) UnSet(o ecore.EObject, f ecore.EStructuralFeature) {
	s.calls++
	delete(s.vals, storeKey{o, f})
	delete(s.lists, storeKey{o, f})
}

func (s *memStore) IsEmpty(o ecore.EObject, f ecore.EStructuralFeature) bool {
	return s.Size(o, f) == 0
}

func (s *memStore) Size(o ecore.EObject, f ecore.EStructuralFeature) int {
	s.calls++
	return len(s.lists[storeKey{o, f}])
}

func (s *memStore) Contains(o ecore.EObject, f ecore.EStructuralFeature, v any) bool {
	return s.IndexOf(o, f, v) >= 0
}

func (s *memStore) IndexOf(o ecore.EObject, f ecore.EStructuralFeature, v any) int {
	s.calls++
	for i, x := range s.lists[storeKey{o, f}] {
		if sameElem(x, v) {
			return i
		}
	}
	return -1
}

func (s *memStore) LastIndexOf(o ecore.EObject, f ecore.EStructuralFeature, v any) int {
	s.calls++
	l := s.lists[storeKey{o, f}]
	for i := len(l) - 1; i >= 0; i-- {
		if sameElem(l[i], v) {
			return i
		}
	}
	return -1
}

func (s *memStore) Add(o ecore.EObject, f ecore.EStructuralFeature, i int, v any) {
	s.calls++
	k := storeKey{o, f}
	s.take(f, v)
	l := s.lists[k]
	if i < 0 || i > len(l) {
		s.misuse("add to %s at %d of %d", f.GetName(), i, len(l))
		return
	}
	r := append([]any{}, l[:i]...)
	s.lists[k] = append(append(r, v), l[i:]...)
}

func (s *memStore) AddAll(o ecore.EObject, f ecore.EStructuralFeature, i int, c ecore.Collection) {
	for v := range c.All() {
		s.Add(o, f, i, v)
		i++
	}
}

func (s *memStore) Remove(o ecore.EObject, f ecore.EStructuralFeature, i int, result bool) any {
	s.calls++
	k := storeKey{o, f}
	l := s.lists[k]
	if i < 0 || i >= len(l) {
		s.misuse("remove from %s at %d of %d", f.GetName(), i, len(l))
		return nil
	}
	old := l[i]
	s.lists[k] = append(append([]any{}, l[:i]...), l[i+1:]...)
	if !result {
		return nil
	}
	return old
}

func (s *memStore) Move(o ecore.EObject, f ecore.EStructuralFeature, from, to int, result bool) any {
	l := s.lists[storeKey{o, f}]
	if from < 0 || from >= len(l) || to < 0 || to >= len(l) {
		s.misuse("move in %s from %d to %d of %d", f.GetName(), from, to, len(l))
		return nil
	}
	v := s.Remove(o, f, from, true)
	s.Add(o, f, to, v)
	if !result {
		return nil
	}
	return v
}

func (s *memStore) Clear(o ecore.EObject, f ecore.EStructuralFeature) {
	s.calls++
	delete(s.lists, storeKey{o, f})
}

func (s *memStore) SetContainer(o, c ecore.EObject, f ecore.EStructuralFeature) {
	s.calls++
	if c == nil {
		delete(s.conts, o)
	} else {
		s.conts[o] = storeKey{c, f}
	}
}

func (s *memStore) GetContainer(o ecore.EObject) (ecore.EObject, ecore.EStructuralFeature) {
	s.calls++
	k := s.conts[o]
	return k.o, k.f
}

func (s *memStore) All(o ecore.EObject, f ecore.EStructuralFeature) iter.Seq[any] {
	s.calls++
	l := s.lists[storeKey{o, f}]
	return func(yield func(any) bool) {
		for _, x := range l {
			if !yield(x) {
				return
			}
		}
	}
}

func (s *memStore) ToArray(o ecore.EObject, f ecore.EStructuralFeature) []any {
	s.calls++
	return append([]any{}, s.lists[storeKey{o, f}]...)
}

// storeEntry is an entry of a map, kept in a store
type storeEntry struct {
	ecore.EStoreEObjectImpl
}

func (e *storeEntry) f(name string) ecore.EStructuralFeature {
	return e.EClass().GetEStructuralFeatureFromName(name)
}
func (e *storeEntry) GetKey() any    { return e.EGet(e.f("key")) }
func (e *storeEntry) SetKey(v any)   { e.ESet(e.f("key"), v) }
func (e *storeEntry) GetValue() any  { return e.EGet(e.f("value")) }
func (e *storeEntry) SetValue(v any) { e.ESet(e.f("value"), v) }

func newStoreEntry(cl ecore.EClass) *storeEntry {
	e := &storeEntry{}
	e.SetInterfaces(e)
	e.Initialize()
	e.SetEClass(cl)
	return e
}

// storeFactory creates objects which keep their features in a store
type storeFactory struct {
	ecore.EFactoryExt
	cache func() bool
}

func newStoreFactory(cache func() bool) *storeFactory {
	f := &storeFactory{cache: cache}
	f.SetInterfaces(f)
	f.Initialize()
	return f
}

func (f *storeFactory) Create(c ecore.EClass) ecore.EObject {
	if ecore.IsMapEntry(c) {
		e := newStoreEntry(c)
		e.SetCache(f.cache())
		return e
	}
	o := ecore.NewEStoreEObjectImpl(f.cache())
	o.SetEClass(c)
	return o
}
