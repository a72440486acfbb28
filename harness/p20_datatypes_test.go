package harness

// P20 : conversions of data type values to text and back

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strings"
	"testing"
	"time"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// instance type names which only generated code gives
var extraTypeNames = map[string]string{
	"YDouble": "double", "YFloat": "float", "YLong": "long", "YShort": "short", "YBoolean": "boolean", "YBytes": "byte[]", "YBytes2": "[]byte",
}

func dtKind(dt string) string {
	switch extraTypeNames[dt] {
	case "double":
		return "float64"
	case "float":
		return "float32"
	case "long":
		return "int64"
	case "short":
		return "int16"
	case "boolean":
		return "bool"
	case "byte[]", "[]byte":
		return "[]byte"
	}
	return goKind(dt)
}

// dtWorld : a package with every data type
type dtWorld struct {
	m   *Model
	pkg ecore.EPackage
	cls ecore.EClass
	dts map[string]ecore.EDataType
}

func newDTWorld(t *rapid.T) *dtWorld {
	w := &dtWorld{dts: map[string]ecore.EDataType{}, m: &Model{}}
	fac := ecore.GetFactory()
	w.pkg = fac.CreateEPackage()
	w.pkg.SetName("dts")
	w.pkg.SetNsURI("http://dts")
	w.pkg.SetEFactoryInstance(fac.CreateEFactory())
	e := &EnumSpec{Name: "E0"}
	e.E = fac.CreateEEnum()
	e.E.SetName("E0")
	n := rapid.IntRange(1, 6).Draw(t, "nlits")
	for i := 0; i < n; i++ {
		lit := fac.CreateEEnumLiteral()
		name := fmt.Sprintf("L%d", i)
		text := name
		if rapid.Bool().Draw(t, "odd") {
			text = strings.Repeat(" ", i) + pickOne(t, "littext", []string{"", "a b", "é", "-1", "L0"}) + fmt.Sprint("#", i)
		}
		value := rapid.IntRange(-3, 10).Draw(t, "litvalue")
		lit.SetName(name)
		lit.SetLiteral(text)
		lit.SetValue(value)
		e.E.GetELiterals().Add(lit)
		e.Lits = append(e.Lits, text)
		e.Values = append(e.Values, value)
	}
	w.pkg.GetEClassifiers().Add(e.E)
	w.m.Enums = []*EnumSpec{e}
	w.dts["E0"] = e.E
	for name, f := range ecoreDTs {
		w.dts[name] = f()
	}
	custom := func(name, typeName string) {
		d := fac.CreateEDataType()
		d.SetName(name)
		if oneIn(t, 4, "annotated") {
			// the annotation of the code generator counts before the declared name
			d.SetInstanceTypeName(pickOne(t, "hidden", []string{"", "unknown.Type", "int", "java.lang.String", "double"}))
			a := fac.CreateEAnnotation()
			a.SetSource("http://net.masagroup/soft/2019/GenGo")
			a.GetDetails().Put("instanceTypeName", typeName)
			d.GetEAnnotations().Add(a)
		} else {
			d.SetInstanceTypeName(typeName)
		}
		w.pkg.GetEClassifiers().Add(d)
		w.dts[name] = d
	}
	for _, name := range sortedKeys(customDTs) {
		custom(name, customDTs[name])
	}
	for _, name := range sortedKeys(extraTypeNames) {
		custom(name, extraTypeNames[name])
	}
	w.cls = fac.CreateEClass()
	w.cls.SetName("C")
	w.pkg.GetEClassifiers().Add(w.cls)
	return w
}

func sortedKeys[V any](m map[string]V) []string {
	var res []string
	for k := range m {
		res = append(res, k)
	}
	sortStrings(res)
	return res
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func (w *dtWorld) factory(d ecore.EDataType) ecore.EFactory {
	return d.GetEPackage().GetEFactoryInstance()
}

// sameValue compares two values of a data type : dates are instants
func sameValue(a, b any) bool {
	switch x := a.(type) {
	case *time.Time:
		y, ok := b.(*time.Time)
		return ok && x != nil && y != nil && x.Equal(*y)
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	case float64:
		y, ok := b.(float64)
		return ok && (math.Float64bits(x) == math.Float64bits(y) || x != x && y != y)
	case float32:
		y, ok := b.(float32)
		return ok && (math.Float32bits(x) == math.Float32bits(y) || x != x && y != y)
	}
	return a == b
}

func (w *dtWorld) value(t *rapid.T, dt string) any {
	if e := w.m.enum(dt); e != nil {
		return pickOne(t, "enum", e.Values)
	}
	switch dtKind(dt) {
	case "time":
		zone := time.FixedZone("Z", rapid.IntRange(-14*60, 14*60).Draw(t, "zone")*60)
		sec := rapid.Int64Range(-62135596800+86400, 253402300799-86400).Draw(t, "sec")
		ns := pickOne(t, "nsk", []int64{0, 1, 999, 1_000_000, 123_456_789, 999_999_999, 500_000_000})
		if oneIn(t, 3, "anyns") {
			ns = rapid.Int64Range(0, 999_999_999).Draw(t, "ns")
		}
		d := time.Unix(sec, ns).In(zone)
		return &d
	case "float64", "float32":
		if oneIn(t, 12, "nan") {
			if dtKind(dt) == "float32" {
				return float32(math.NaN())
			}
			return math.NaN()
		}
	}
	switch extraTypeNames[dt] {
	case "":
		return genValue(t, w.m, dt, AlphaAny)
	case "double":
		return genValue(t, w.m, "XFloat64", AlphaAny)
	case "float":
		return genValue(t, w.m, "XFloat32", AlphaAny)
	case "long":
		return genValue(t, w.m, "XInt64", AlphaAny)
	case "short":
		return genValue(t, w.m, "XInt16", AlphaAny)
	case "boolean":
		return genValue(t, w.m, "XBool", AlphaAny)
	}
	return genValue(t, w.m, "EBytes", AlphaAny)
}

// text draws a valid text of the data type with the value it denotes, computed
// independently of the code under test.
func (w *dtWorld) text(t *rapid.T, dt string) (string, any) {
	if e := w.m.enum(dt); e != nil {
		i := rapid.IntRange(0, len(e.Lits)-1).Draw(t, "lit")
		return e.Lits[i], e.Values[i]
	}
	intText := func(bits uint, signed bool) (string, *big.Int) {
		v := new(big.Int)
		lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), bits)
		if signed {
			hi.Rsh(hi, 1)
			lo.Neg(hi)
		}
		switch rapid.IntRange(0, 3).Draw(t, "ik") {
		case 0:
			v.Sub(hi, big.NewInt(rapid.Int64Range(1, 2).Draw(t, "below")))
		case 1:
			v.Add(lo, big.NewInt(rapid.Int64Range(0, 2).Draw(t, "above")))
		default:
			v.SetUint64(rapid.Uint64().Draw(t, "raw"))
			v.Mod(v, new(big.Int).Sub(hi, lo))
			v.Add(v, lo)
		}
		s := new(big.Int).Abs(v).String()
		if oneIn(t, 4, "zeros") {
			s = "00" + s
		}
		if v.Sign() < 0 {
			s = "-" + s
		} else if signed && oneIn(t, 4, "plus") {
			s = "+" + s
		}
		return s, v
	}
	switch k := dtKind(dt); k {
	case "string":
		s := genText(t, AlphaAny)
		return s, s
	case "[]byte":
		b := rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "bytes")
		return string(b), b
	case "byte":
		b := rapid.Byte().Draw(t, "byte")
		return string([]byte{b}), b
	case "bool":
		b := rapid.Bool().Draw(t, "b")
		if b {
			return pickOne(t, "true", []string{"true", "1", "TRUE", "True"}), true
		}
		return pickOne(t, "false", []string{"false", "0", "FALSE", "False"}), false
	case "int":
		s, v := intText(64, true)
		return s, int(v.Int64())
	case "int64":
		s, v := intText(64, true)
		return s, v.Int64()
	case "uint64":
		s, v := intText(64, false)
		return s, v.Uint64()
	case "int32":
		s, v := intText(32, true)
		return s, int32(v.Int64())
	case "int16":
		s, v := intText(16, true)
		return s, int16(v.Int64())
	case "int8":
		s, v := intText(8, true)
		return s, int8(v.Int64())
	case "float64", "float32":
		if oneIn(t, 8, "special") {
			s := pickOne(t, "sp", []string{"INF", "-INF", "+Inf", "Infinity", "-Infinity"})
			v := math.Inf(1)
			if s[0] == '-' {
				v = math.Inf(-1)
			}
			if k == "float32" {
				return s, float32(v)
			}
			return s, v
		}
		s := rapid.StringMatching(`-?[0-9]{1,20}(\.[0-9]{1,20})?([eE][-+]?[0-9])?`).Draw(t, "decimal")
		r, ok := new(big.Rat).SetString(s)
		if !ok {
			t.Fatalf("harness: %q", s)
		}
		neg := s[0] == '-'
		if k == "float32" {
			v, _ := r.Float32()
			if v == 0 && neg {
				v = float32(math.Copysign(0, -1))
			}
			return s, v
		}
		v, _ := r.Float64()
		if v == 0 && neg {
			v = math.Copysign(0, -1)
		}
		return s, v
	case "time":
		y, mo, d := rapid.IntRange(1, 9999).Draw(t, "y"), rapid.IntRange(1, 12).Draw(t, "mo"), rapid.IntRange(1, 28).Draw(t, "d")
		h, mi, s := rapid.IntRange(0, 23).Draw(t, "h"), rapid.IntRange(0, 59).Draw(t, "mi"), rapid.IntRange(0, 59).Draw(t, "s")
		text := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, mo, d, h, mi, s)
		ns := 0
		if digits := rapid.StringMatching("[0-9]{0,9}").Draw(t, "frac"); digits != "" {
			text += "." + digits
			fmt.Sscanf((digits + "000000000")[:9], "%d", &ns)
		}
		v := time.Date(y, time.Month(mo), d, h, mi, s, ns, time.UTC)
		return text + "Z", &v
	}
	panic(dt)
}

func (w *dtWorld) pick(t *rapid.T) string {
	return pickOne(t, "dt", sortedKeys(w.dts))
}

func TestP20_ValueToText(t *testing.T) {
	runProp(t, "a value other than the default of its type was converted", 3000, func(t *rapid.T, c *Rec) {
		w := newDTWorld(t)
		for i, n := 0, rapid.IntRange(1, 12).Draw(t, "n"); i < n; i++ {
			dt := w.pick(t)
			d := w.dts[dt]
			v := w.value(t, dt)
			s := w.factory(d).ConvertToString(d, v)
			back := w.factory(d).CreateFromString(d, s)
			c.Logf("%s %s -> %q", dt, fmtValue(v), s)
			c.Label(dtKind(dt))
			if !sameValue(back, v) {
				t.Fatalf("%s: %s gives %q which gives %s", dt, fmtValue(v), s, fmtValue(back))
			}
			if !sameValue(v, zeroValue(w.m, dt)) {
				c.Nontrivial()
			}
		}
	})
}

func TestP20_TextToValue(t *testing.T) {
	runProp(t, "a valid text was converted", 3000, func(t *rapid.T, c *Rec) {
		w := newDTWorld(t)
		for i, n := 0, rapid.IntRange(1, 12).Draw(t, "n"); i < n; i++ {
			dt := w.pick(t)
			d := w.dts[dt]
			s, want := w.text(t, dt)
			v := w.factory(d).CreateFromString(d, s)
			c.Logf("%s %q -> %s", dt, s, fmtValue(v))
			c.Label(dtKind(dt))
			c.Nontrivial()
			if !sameValue(v, want) {
				t.Fatalf("%s: %q gives %s, it denotes %s", dt, s, fmtValue(v), fmtValue(want))
			}
			s2 := w.factory(d).ConvertToString(d, v)
			if v2 := w.factory(d).CreateFromString(d, s2); !sameValue(v2, v) {
				t.Fatalf("%s: %q gives %s, %q, %s", dt, s, fmtValue(v), s2, fmtValue(v2))
			}
		}
	})
}

// default values given as text or as values, through features and objects
func TestP20_Defaults(t *testing.T) {
	runProp(t, "a default was declared and read", 1500, func(t *rapid.T, c *Rec) {
		w := newDTWorld(t)
		a := ecore.GetFactory().CreateEAttribute()
		a.SetName("a")
		dt := ""
		var want any // declared default
		settype := func() {
			dt = w.pick(t)
			a.SetEType(w.dts[dt])
		}
		settype()
		w.cls.GetEStructuralFeatures().Add(a)
		obj := w.pkg.GetEFactoryInstance().Create(w.cls)
		declared := false
		for i, n := 0, rapid.IntRange(1, 10).Draw(t, "n"); i < n; i++ {
			switch rapid.IntRange(0, 3).Draw(t, "op") {
			case 0: // another type, with a literal of this type
				a.SetDefaultValueLiteral("")
				settype()
				declared = false
				c.Logf("type %s", dt)
			case 1:
				var s string
				s, want = w.text(t, dt)
				a.SetDefaultValueLiteral(s)
				declared = s != ""
				c.Logf("literal %q", s)
			case 2:
				want = w.value(t, dt)
				s := w.factory(w.dts[dt]).ConvertToString(w.dts[dt], want)
				a.(interface{ SetDefaultValue(any) }).SetDefaultValue(want)
				declared = s != ""
				c.Logf("value %s", fmtValue(want))
			case 3: // the same text read as another type
				if declared && dtKind(dt) == "int16" {
					dt = "EInt"
					a.SetEType(w.dts[dt])
					want = int(want.(int16))
					c.Logf("retyped")
					c.Label("retyped")
				}
			}
			exp := want
			if !declared {
				exp = zeroValue(w.m, dt)
				if dtKind(dt) != goKind(dt) {
					switch dtKind(dt) {
					case "float64":
						exp = float64(0)
					case "float32":
						exp = float32(0)
					case "int64":
						exp = int64(0)
					case "int16":
						exp = int16(0)
					case "bool":
						exp = false
					}
				}
			} else {
				c.Nontrivial()
			}
			if got := a.GetDefaultValue(); !sameValue(got, exp) {
				t.Fatalf("%s: default is %s, expected %s", dt, fmtValue(got), fmtValue(exp))
			}
			if got := obj.EGet(a); !sameValue(got, exp) {
				t.Fatalf("%s: value is %s, expected %s", dt, fmtValue(got), fmtValue(exp))
			}
		}
	})
}

// the empty text of a data type of bytes
func TestP20_EmptyTexts(t *testing.T) {
	p := ecore.GetPackage()
	for _, d := range []ecore.EDataType{p.GetEByte(), p.GetEByteObject(), p.GetEChar(), p.GetECharacterObject()} {
		var v any
		if e := try(func() { v = p.GetEFactoryInstance().CreateFromString(d, "") }); e != nil {
			continue // rejected
		}
		switch v {
		case byte(0), nil:
		case "golang\x00":
			knownFinding("P20", fmt.Sprintf("empty-text-of-a-byte: the value of the empty text is a string for the data type %s, whose values are bytes", d.GetName()))
		default:
			t.Fatalf("the empty text of %s has the value %v (%T)", d.GetName(), v, v)
		}
	}
}
