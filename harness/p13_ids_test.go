package harness

// P13: identifier managers against a table of who holds which identifier.

import (
	"fmt"
	"math"
	"testing"

	"github.com/google/uuid"
	"github.com/masagroup/soft.go/ecore"
	"github.com/oklog/ulid/v2"
	"pgregory.net/rapid"
)

type idTable struct {
	t        *rapid.T
	c        *Rec
	m        ecore.EObjectIDManager
	objs     []ecore.EObject
	id       map[int]any // registered objects
	detached map[int]any
	given    map[any]bool // every identifier ever given
}

func (k *idTable) holder(id any) int {
	for i, x := range k.id {
		if x == id {
			return i
		}
	}
	return -1
}

func (k *idTable) fail(format string, args ...any) {
	k.t.Fatalf("%s\n%s", fmt.Sprintf(format, args...), k.c.trace.String())
}

func (k *idTable) check(forms func(any) []any) {
	for i, o := range k.objs {
		got := k.m.GetID(o)
		if got != k.id[i] {
			k.fail("identifier of o%d is %v, should be %v", i, got, k.id[i])
		}
		if got != nil {
			for _, form := range forms(got) {
				if x := k.m.GetEObject(form); x != o {
					k.fail("identifier %v (%T) of o%d gives another object", form, form, i)
				}
			}
		}
	}
	for id := range k.given {
		if k.holder(id) < 0 {
			for _, form := range forms(id) {
				if x := k.m.GetEObject(form); x != nil {
					k.fail("identifier %v belongs to no object and gives one", form)
				}
			}
		}
	}
}

// setID updates the table
func (k *idTable) set(i int, id any) {
	delete(k.detached, i)
	if j := k.holder(id); j >= 0 && j != i {
		k.c.Label("identifier of another object")
		delete(k.id, j)
	}
	if id == nil {
		delete(k.id, i)
	} else {
		k.id[i] = id
		k.given[id] = true
	}
}

func TestP13_UniqueIDs(t *testing.T) {
	runProp(t, "an object came back or an identifier was given explicitly", 5000, func(t *rapid.T, c *Rec) {
		k := &idTable{t: t, c: c, id: map[int]any{}, detached: map[int]any{}, given: map[any]bool{}}
		kind := rapid.IntRange(0, 2).Draw(t, "kind")
		var forms func(any) []any
		switch kind {
		case 0:
			k.m = ecore.NewIncrementalIDManager()
			forms = func(a any) []any {
				n := a.(int64)
				r := []any{n, fmt.Sprint(n)}
				if n <= math.MaxInt32 {
					r = append(r, int(n), int32(n), uint32(n), uint(n), uint64(n))
				}
				if n <= math.MaxInt8 {
					r = append(r, int8(n), uint8(n), int16(n), uint16(n))
				}
				return r
			}
		case 1:
			k.m = ecore.NewUUIDManager()
			forms = func(a any) []any { u := a.(uuid.UUID); return []any{u, u.String(), u[:]} }
		default:
			k.m = ecore.NewULIDManager()
			forms = func(a any) []any { u := a.(ulid.ULID); return []any{u, u.String(), u[:]} }
		}
		for i := 0; i < 4; i++ {
			o := ecore.NewDynamicEObjectImpl()
			o.SetEClass(ecore.GetPackage().GetEObject())
			k.objs = append(k.objs, o)
		}
		c.Logf("kind %d", kind)
		for n := rapid.IntRange(1, 25).Draw(t, "n"); n > 0; n-- {
			i := rapid.IntRange(0, 3).Draw(t, "object")
			o := k.objs[i]
			switch rapid.IntRange(0, 9).Draw(t, "op") {
			case 0, 1, 2:
				c.Logf("register o%d", i)
				old, registered := k.id[i]
				k.m.Register(o)
				got := k.m.GetID(o)
				switch {
				case registered:
					if got != old {
						k.fail("o%d had identifier %v, has %v once registered again", i, old, got)
					}
				case got == nil:
					k.fail("o%d is registered without identifier", i)
				case k.detached[i] != nil && k.holder(k.detached[i]) < 0:
					if got != k.detached[i] {
						k.fail("o%d came back with identifier %v, it had %v", i, got, k.detached[i])
					}
					c.Label("came back")
					c.Nontrivial()
				default:
					if k.given[got] {
						k.fail("o%d gets identifier %v which was already given", i, got)
					}
				}
				k.set(i, got)
			case 3, 4:
				c.Logf("unregister o%d", i)
				k.m.UnRegister(o)
				if id, ok := k.id[i]; ok {
					k.detached[i] = id
					delete(k.id, i)
				}
				if got := k.m.GetDetachedID(o); got != k.detached[i] {
					k.fail("detached identifier of o%d is %v, should be %v", i, got, k.detached[i])
				}
			case 5, 6, 7:
				var id any
				if len(k.given) > 0 && rapid.Bool().Draw(t, "known") {
					j := rapid.IntRange(0, 3).Draw(t, "of")
					if id = k.id[j]; id == nil {
						id = k.detached[j]
					}
				}
				if id == nil {
					switch kind {
					case 0:
						id = genInt(t, 0, math.MaxInt64-1000)
						if rapid.Bool().Draw(t, "small") {
							id = int64(rapid.IntRange(0, 12).Draw(t, "id"))
						}
					case 1:
						id = uuid.UUID(rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "uuid"))
					default:
						u := ulid.ULID(rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "ulid"))
						u[0] &= 0x7f
						id = u
					}
				}
				form := pickOne(t, "form", forms(id))
				c.Logf("set identifier of o%d to %v (%T)", i, form, form)
				if err := k.m.SetID(o, form); err != nil {
					k.fail("identifier %v (%T) is refused: %v", form, form, err)
				}
				k.set(i, id)
				c.Nontrivial()
			case 8:
				bad := pickOne(t, "bad", []any{true, 1.5, "not an id", []byte{1, 2}, struct{}{}})
				c.Logf("set identifier of o%d to %v", i, bad)
				if k.m.SetID(o, bad) == nil {
					k.fail("identifier %v (%T) is accepted", bad, bad)
				}
				if k.m.GetEObject(bad) != nil {
					k.fail("identifier %v (%T) gives an object", bad, bad)
				}
			default:
				if !oneIn(t, 4, "clear") {
					if kind == 0 {
						bad := pickOne(t, "none", []any{nil, -1, int64(-5), "-3"})
						c.Logf("set identifier of o%d to %v", i, bad)
						if err := k.m.SetID(o, bad); err != nil {
							k.fail("identifier %v is refused: %v", bad, err)
						}
						k.set(i, nil)
					}
					break
				}
				c.Logf("clear")
				k.m.Clear()
				k.id, k.detached = map[int]any{}, map[int]any{}
			}
			k.check(forms)
		}
	})
}

func TestP13_IntrinsicIDs(t *testing.T) {
	f := ecore.GetFactory()
	class := f.CreateEClass()
	class.SetName("C")
	class.SetAbstract(false)
	attr := f.CreateEAttribute()
	attr.SetName("id")
	attr.SetEType(ecore.GetPackage().GetEString())
	attr.SetID(true)
	class.GetEStructuralFeatures().Add(attr)
	pkg := f.CreateEPackage()
	pkg.SetName("p")
	pkg.SetNsURI("http://p13")
	pkg.GetEClassifiers().Add(class)
	runProp(t, "an identifier attribute changed after its object was registered, or an identifier was taken over", 5000, func(t *rapid.T, c *Rec) {
		k := &idTable{t: t, c: c, m: ecore.NewEObjectIDManagerImpl(), id: map[int]any{}, detached: map[int]any{}, given: map[any]bool{}}
		value := make([]string, 4)
		for i := 0; i < 4; i++ {
			k.objs = append(k.objs, pkg.GetEFactoryInstance().Create(class))
		}
		forms := func(a any) []any { return []any{a} }
		for n := rapid.IntRange(1, 25).Draw(t, "n"); n > 0; n-- {
			i := rapid.IntRange(0, 3).Draw(t, "object")
			o := k.objs[i]
			id := pickOne(t, "id", []string{"a", "b", "c", "", "d/é"})
			switch rapid.IntRange(0, 6).Draw(t, "op") {
			case 0, 1:
				c.Logf("register o%d", i)
				k.m.Register(o)
				if value[i] != "" {
					k.set(i, value[i])
				}
			case 2:
				c.Logf("unregister o%d", i)
				k.m.UnRegister(o)
				delete(k.id, i)
			case 3, 4:
				c.Logf("set identifier of o%d to %q", i, id)
				var arg any = id
				if id == "" && rapid.Bool().Draw(t, "nil") {
					arg = nil
				}
				if err := k.m.SetID(o, arg); err != nil {
					k.fail("identifier %q is refused: %v", id, err)
				}
				if id == "" {
					k.set(i, nil)
				} else {
					if j := k.holder(id); j >= 0 && j != i {
						c.Nontrivial()
					}
					k.set(i, id)
				}
				value[i] = id
				if got := ecore.GetEObjectID(o); got != id {
					k.fail("identifier of o%d was set to %q, its attribute is %q", i, id, got)
				}
			case 5:
				c.Logf("attribute of o%d is %q", i, id)
				if k.id[i] != nil && k.id[i] != id {
					c.Nontrivial()
				}
				ecore.SetEObjectID(o, id)
				value[i] = id
			default:
				if oneIn(t, 3, "clear") {
					c.Logf("clear")
					k.m.Clear()
					k.id = map[int]any{}
				} else {
					bad := pickOne(t, "bad", []any{1, true})
					if k.m.SetID(o, bad) == nil || k.m.GetEObject(bad) != nil {
						k.fail("identifier %v is accepted", bad)
					}
				}
			}
			k.check(forms)
			if got := k.m.GetDetachedID(o); got != value[i] {
				k.fail("detached identifier of o%d is %q, should be %q", i, got, value[i])
			}
		}
	})
}
