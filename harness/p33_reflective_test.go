package harness

// Reflective access to the objects of a static metamodel gives what their
// methods give : EGet, ESet, EIsSet, EUnset and EInvoke against the typed methods.

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// metamodelObjects gives the elements of generated packages
func metamodelObjects(m *Model) []ecore.EObject {
	var objs []ecore.EObject
	for _, p := range m.Pkgs {
		objs = append(objs, p)
		for it := p.EAllContents(); it.HasNext(); {
			objs = append(objs, it.Next().(ecore.EObject))
		}
		objs = append(objs, p.GetEFactoryInstance())
	}
	return objs
}

func method(x any, names ...string) reflect.Value {
	for _, n := range names {
		if f := reflect.ValueOf(x).MethodByName(n); f.IsValid() {
			return f
		}
	}
	return reflect.Value{}
}

func capital(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

// same tells if two results are the same : lists and iterators have the same elements
func sameResult(a, b any) bool {
	if isNil(a) || isNil(b) {
		return isNil(a) && isNil(b)
	}
	elements := func(x any) ([]any, bool) {
		switch l := x.(type) {
		case ecore.EMap:
			return append([]any{}, l.ToArray()...), true
		case ecore.EList:
			return append([]any{}, l.ToArray()...), true
		case ecore.EIterator:
			var r []any
			for l.HasNext() {
				r = append(r, l.Next())
			}
			return r, true
		}
		return nil, false
	}
	la, ka := elements(a)
	lb, kb := elements(b)
	if ka != kb {
		return false
	}
	if ka {
		if len(la) != len(lb) {
			return false
		}
		for i := range la {
			if !sameResult(la[i], lb[i]) {
				return false
			}
		}
		return true
	}
	if k := reflect.TypeOf(a).Kind(); reflect.TypeOf(a).Comparable() && k != reflect.Float32 && k != reflect.Float64 {
		return a == b
	}
	return reflect.DeepEqual(a, b) && fmtValue(a) == fmtValue(b)
}

func isNil(a any) bool {
	if a == nil {
		return true
	}
	v := reflect.ValueOf(a)
	switch v.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func:
		return v.IsNil()
	}
	return false
}

// overloaded operations have their own methods
var methodsOf = map[string]string{
	"getEStructuralFeature(EString)":    "GetEStructuralFeatureFromName",
	"getEEnumLiteral(EString)":          "GetEEnumLiteralByName",
	"getEEnumLiteral(EInt)":             "GetEEnumLiteralByValue",
	"eGet(EStructuralFeature,EBoolean)": "EGetResolve",
}

type outcome struct {
	value any
	fails bool
}

func tried(f func() any) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			if strings.HasPrefix(fmt.Sprintf("%T", r), "rapid.") {
				panic(r)
			}
			o = outcome{nil, true}
		}
	}()
	return outcome{f(), false}
}

func TestP33_Reflective(t *testing.T) {
	runProp(t, "features were read and written and operations were invoked", 40, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{Pkgs: rapid.IntRange(1, 2).Draw(t, "pkgs"), Maps: true, IDs: true, DTs: allDTs, ManyDTs: allDTs, MaxClasses: 5, MaxFeats: 5})
		annotate(t, m)
		c.Logf("%s", m)
		objs := metamodelObjects(m)
		of := func(label string, keep func(ecore.EObject) bool) any {
			var r []ecore.EObject
			for _, o := range objs {
				if keep(o) {
					r = append(r, o)
				}
			}
			if len(r) == 0 {
				return nil
			}
			return pickOne(t, label, r)
		}
		name := func() string {
			if oneIn(t, 4, "other name") {
				return genText(t, AlphaWord)
			}
			switch o := of("named", func(o ecore.EObject) bool { return true }).(type) {
			case ecore.EEnumLiteral:
				return o.GetLiteral()
			case ecore.ENamedElement:
				return o.GetName()
			case ecore.EAnnotation:
				return o.GetSource()
			}
			return "x"
		}
		reads, writes, calls := 0, 0, 0
		read := func(x ecore.EObject, f ecore.EStructuralFeature) (any, bool) {
			g := method(x, "Get"+capital(f.GetName()), "Is"+capital(f.GetName()))
			if !g.IsValid() || g.Type().NumIn() != 0 || g.Type().NumOut() != 1 {
				return nil, false
			}
			return g.Call(nil)[0].Interface(), true
		}
		check := func(x ecore.EObject, f ecore.EStructuralFeature, what string) {
			id := x.EClass().GetFeatureID(f)
			r := tried(func() any { v, _ := read(x, f); return v })
			for k, o := range []outcome{
				tried(func() any { return x.EGet(f) }),
				tried(func() any { return x.EGetResolve(f, true) }),
				tried(func() any { return x.(ecore.EObjectInternal).EGetFromID(id, true) }),
			} {
				if o.fails != r.fails || !r.fails && !sameResult(o.value, r.value) {
					t.Fatalf("%s: %s.%s: read by its method %v, reflectively (%d) %v", what, x.EClass().GetName(), f.GetName(), showOutcome(r), k, showOutcome(o))
				}
			}
			reads++
		}
		for n := rapid.IntRange(4, 20).Draw(t, "n"); n > 0; n-- {
			x := pickOne(t, "object", objs)
			cl := x.EClass()
			fs := cl.GetEAllStructuralFeatures().ToArray()
			f := fs[rapid.IntRange(0, len(fs)-1).Draw(t, "feature")].(ecore.EStructuralFeature)
			if _, ok := read(x, f); ok {
				check(x, f, "read")
			}
			// written
			set := method(x, "Set"+capital(f.GetName()))
			if a, ok := f.(ecore.EAttribute); ok && set.IsValid() && set.Type().NumIn() == 1 && f.IsChangeable() && !f.IsMany() && !f.IsDerived() && !f.IsVolatile() {
				old, _ := read(x, f)
				var v any
				switch a.GetEType().GetName() {
				case "EString":
					v = genText(t, AlphaWord)
				case "EInt":
					v = rapid.IntRange(-2, 9).Draw(t, "int")
				case "EBoolean":
					v = rapid.Bool().Draw(t, "bool")
				}
				if f.GetName() == "classifierID" || f.GetName() == "literal" && v == "" {
					v = nil // the position in the package, the name of the literal
				}
				if v != nil && reflect.TypeOf(v) == set.Type().In(0) {
					how := rapid.IntRange(0, 2).Draw(t, "how")
					switch how {
					case 0:
						set.Call([]reflect.Value{reflect.ValueOf(v)})
					case 1:
						x.ESet(f, v)
					case 2:
						x.(ecore.EObjectInternal).ESetFromID(cl.GetFeatureID(f), v)
					}
					c.Logf("%s.%s = %v (%d)", cl.GetName(), f.GetName(), v, how)
					if got, _ := read(x, f); got != v {
						t.Fatalf("%s.%s: %v was written (%d), %v is read by its method", cl.GetName(), f.GetName(), v, how, got)
					}
					check(x, f, "written")
					if f.GetDefaultValueLiteral() != "" || v != reflect.Zero(reflect.TypeOf(v)).Interface() {
						if d := f.GetDefaultValue(); x.EIsSet(f) != (v != d) {
							t.Fatalf("%s.%s: value %v, default value %v, set %v", cl.GetName(), f.GetName(), v, d, x.EIsSet(f))
						}
					}
					if rapid.Bool().Draw(t, "unset") {
						x.EUnset(f)
						if x.EIsSet(f) {
							t.Fatalf("%s.%s: still set", cl.GetName(), f.GetName())
						}
						check(x, f, "unset")
					}
					set.Call([]reflect.Value{reflect.ValueOf(old)})
					writes++
				}
			}
			// invoked
			ops := cl.GetEAllOperations().ToArray()
			if len(ops) == 0 {
				continue
			}
			op := ops[rapid.IntRange(0, len(ops)-1).Draw(t, "operation")].(ecore.EOperation)
			sig, void := "", op.GetEType() == nil
			args := []any{}
			for it := op.GetEParameters().Iterator(); it.HasNext(); {
				p := it.Next().(ecore.EParameter)
				ty := ""
				if p.GetEType() != nil {
					ty = p.GetEType().GetName()
				}
				if sig != "" {
					sig += ","
				}
				sig += ty
				var v any
				switch ty {
				case "EInt":
					v = rapid.IntRange(-1, 12).Draw(t, "int")
				case "EString":
					v = name()
				case "EBoolean":
					v = rapid.Bool().Draw(t, "bool")
				case "EStructuralFeature":
					if op.GetName() == "eGet" || op.GetName() == "eIsSet" {
						v = pickOne(t, "arg", fs)
					} else {
						v = of("arg", func(o ecore.EObject) bool { _, ok := o.(ecore.EStructuralFeature); return ok })
					}
				case "EClass":
					v = of("arg", func(o ecore.EObject) bool { _, ok := o.(ecore.EClass); return ok })
				case "EOperation":
					v = of("arg", func(o ecore.EObject) bool { _, ok := o.(ecore.EOperation); return ok })
				case "EDataType":
					v = of("arg", func(o ecore.EObject) bool { _, ok := o.(ecore.EDataType); return ok })
				case "EJavaObject":
					v = rapid.IntRange(0, 3).Draw(t, "value")
				}
				args = append(args, v)
			}
			missing := false
			for _, a := range args {
				missing = missing || a == nil
			}
			if void || missing || op.GetName() == "eInvoke" || op.GetName() == "create" {
				c.Label("notInvoked")
				continue
			}
			call := op.GetName() + "(" + sig + ")"
			mn := methodsOf[call]
			if mn == "" {
				mn = capital(op.GetName())
			}
			f2 := method(x, mn)
			if !f2.IsValid() || f2.Type().NumIn() != len(args) || f2.Type().NumOut() != 1 {
				c.Label("no method " + call)
				continue
			}
			var in []reflect.Value
			for _, a := range args {
				in = append(in, reflect.ValueOf(a))
			}
			want := tried(func() any { return f2.Call(in)[0].Interface() })
			var got outcome
			if rapid.Bool().Draw(t, "byID") {
				id := cl.GetOperationID(op)
				got = tried(func() any { return x.(ecore.EObjectInternal).EInvokeFromID(id, ecore.NewImmutableEList(args)) })
			} else {
				got = tried(func() any { return x.EInvoke(op, ecore.NewImmutableEList(args)) })
			}
			c.Logf("%s.%s %v: %s", cl.GetName(), call, args, showOutcome(want))
			if got.fails != want.fails || !want.fails && !sameResult(got.value, want.value) {
				t.Fatalf("%s.%s: its method gives %s, invoked reflectively %s", cl.GetName(), call, showOutcome(want), showOutcome(got))
			}
			c.Label(call)
			calls++
		}
		if reads > 0 && writes > 0 && calls > 0 {
			c.Nontrivial()
		}
	})
}

func showOutcome(o outcome) string {
	if o.fails {
		return "a failure"
	}
	if isNil(o.value) {
		return "nothing"
	}
	if n, ok := o.value.(ecore.ENamedElement); ok {
		return fmt.Sprintf("%T %s", o.value, n.GetName())
	}
	if _, ok := o.value.(fmt.Stringer); !ok && reflect.ValueOf(o.value).Kind() == reflect.Pointer {
		return fmt.Sprintf("%T", o.value)
	}
	return fmt.Sprint(o.value)
}

// operations of dynamic objects have no implementation, but for those of EObject
func TestP33_DynamicOperations(t *testing.T) {
	runProp(t, "operations of generated classes and of EObject were invoked", 60, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{DTs: allDTs, MaxClasses: 4, MaxFeats: 4, Dense: rapid.Bool().Draw(t, "dense")})
		annotate(t, m)
		eObject := ecore.GetPackage().GetEObject()
		for _, cl := range m.Classes {
			if oneIn(t, 3, "extends EObject") {
				cl.E.GetESuperTypes().Insert(rapid.IntRange(0, cl.E.GetESuperTypes().Size()).Draw(t, "position"), eObject)
			}
		}
		c.Logf("%s", m)
		w := newWorld(t, c, m, worldOpts{minObjs: 1, maxObjs: 4, kinds: true})
		for n := rapid.IntRange(0, 6).Draw(t, "edits"); n > 0; n-- {
			w.step()
		}
		own, inherited := 0, 0
		for n := rapid.IntRange(4, 16).Draw(t, "n"); n > 0; n-- {
			x := pickOne(t, "object", w.objs)
			cl := x.EClass()
			ops := cl.GetEAllOperations().ToArray()
			if len(ops) == 0 {
				continue
			}
			op := ops[rapid.IntRange(0, len(ops)-1).Draw(t, "operation")].(ecore.EOperation)
			fs := m.Of(x).All()
			var args []any
			invoke := func() any {
				return x.EInvoke(op, ecore.NewImmutableEList(args))
			}
			if rapid.Bool().Draw(t, "byID") {
				invoke = func() any {
					return x.(ecore.EObjectInternal).EInvokeFromID(cl.GetOperationID(op), ecore.NewImmutableEList(args))
				}
			}
			if op.GetEContainingClass() != eObject {
				for _, f := range fs {
					args = append(args, f.E)
				}
				args = append(args, nil, "a", 1)
				c.Logf("%s.%s", cl.GetName(), op.GetName())
				if o := tried(invoke); o.fails || o.value != nil {
					t.Fatalf("%s.%s has no implementation, invoking it gives %s", cl.GetName(), op.GetName(), showOutcome(o))
				}
				own++
				continue
			}
			switch x.(type) {
			case *ecore.DynamicEObjectImpl, *ecore.ReflectiveEObjectImpl:
			default:
				continue
			}
			var want any
			switch op.GetName() {
			case "eClass":
				want = x.EClass()
			case "eIsProxy":
				want = x.EIsProxy()
			case "eResource":
				want = x.EResource()
			case "eContainer":
				want = x.EContainer()
			case "eContainingFeature":
				want = x.EContainingFeature()
			case "eContainmentFeature":
				want = x.EContainmentFeature()
			case "eContents":
				want = x.EContents()
			case "eAllContents":
				want = x.EAllContents()
			case "eCrossReferences":
				want = x.ECrossReferences()
			case "eGet", "eIsSet":
				if len(fs) == 0 {
					continue
				}
				f := pickOne(t, "feature", fs).E
				args = []any{f}
				if op.GetEParameters().Size() == 2 {
					args = append(args, rapid.Bool().Draw(t, "resolve"))
				}
				if op.GetName() == "eGet" {
					want = x.EGet(f)
				} else {
					want = x.EIsSet(f)
				}
			default:
				continue
			}
			c.Logf("%s.%s", cl.GetName(), op.GetName())
			if o := tried(invoke); o.fails || !sameResult(o.value, want) {
				t.Fatalf("%s.%s: invoking it gives %s, its method %s", cl.GetName(), op.GetName(), showOutcome(o), showOutcome(outcome{want, false}))
			}
			inherited++
		}
		w.checkRefs()
		w.checkAttrs()
		w.checkContainment()
		if own > 0 && inherited > 0 {
			c.Nontrivial()
		}
	})
}
