package harness

// Generated metamodels. A Model is plain data (classes, features) from which
// real EPackages are built; the oracles read the plain data, never the derived
// views computed by the code under test.

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

type Feat struct {
	Name       string
	Owner      *Class
	Attr       bool
	DT         string // datatype name for attributes
	Target     *Class // for references
	Cont       bool
	Resolve    bool
	Opp        *Feat
	Many       bool
	Unique     bool
	Transient  bool
	Unsettable bool
	ID         bool
	Default    string // literal, "" if none
	Upper      int
	ReadOnly   bool // only changed through its opposite
	E          ecore.EStructuralFeature
}

func (f *Feat) Container() bool { return f.Opp != nil && f.Opp.Cont }

// Cross : a plain reference
func (f *Feat) Cross() bool { return !f.Attr && !f.Cont && !f.Container() }

func (f *Feat) Map() bool { return !f.Attr && f.Target.Entry }

func (f *Feat) Ref() ecore.EReference { return f.E.(ecore.EReference) }

func (f *Feat) String() string {
	s := f.Owner.Name + "." + f.Name
	if f.Attr {
		s += ":" + f.DT
	} else {
		s += ":" + f.Target.Name
	}
	if f.Many {
		s += "*"
	}
	add := func(b bool, x string) {
		if b {
			s += " " + x
		}
	}
	add(f.Cont, "cont")
	add(f.Container(), "container")
	add(!f.Attr && f.Resolve, "resolve")
	if f.Opp != nil {
		s += " opp=" + f.Opp.Name
	}
	add(f.Attr && f.Many && !f.Unique, "bag")
	add(f.Transient, "transient")
	add(f.Unsettable, "unsettable")
	add(f.ID, "id")
	if f.Default != "" {
		s += " default=" + strconv.Quote(f.Default)
	}
	return s
}

type Class struct {
	Name     string
	Pkg      int
	Abstract bool
	Supers   []*Class
	Feats    []*Feat
	Entry    bool // a map entry class
	E        ecore.EClass
	namesake string // name shared with a class of another package
	all      []*Feat
}

// Ident is the name of the class in its package
func (c *Class) Ident() string {
	if c.namesake != "" {
		return c.namesake
	}
	return c.Name
}

// All returns the features of the class : those of the super types first, each once.
func (c *Class) All() []*Feat {
	if c.all != nil {
		return c.all
	}
	seen := map[*Feat]bool{}
	res := []*Feat{}
	add := func(fs []*Feat) {
		for _, f := range fs {
			if !seen[f] {
				seen[f] = true
				res = append(res, f)
			}
		}
	}
	for _, s := range c.Supers {
		add(s.All())
	}
	add(c.Feats)
	c.all = res
	return res
}

func (c *Class) IsA(d *Class) bool {
	if c == d {
		return true
	}
	for _, s := range c.Supers {
		if s.IsA(d) {
			return true
		}
	}
	return false
}

func (c *Class) Feat(name string) *Feat {
	for _, f := range c.All() {
		if f.Name == name {
			return f
		}
	}
	return nil
}

type EnumSpec struct {
	Name    string
	Rotated bool // each literal has the text of another one as its name
	Lits    []string
	Values  []int
	E       ecore.EEnum
}

// LitName is the name of the i-th literal
func (e *EnumSpec) LitName(i int) string {
	if e.Rotated {
		return e.Lits[(i+1)%len(e.Lits)]
	}
	return "N" + e.Lits[i]
}

type Model struct {
	Pkgs    []ecore.EPackage
	Classes []*Class
	Enums   []*EnumSpec
	Feats   []*Feat
	Static  bool // Ecore itself
	byE     map[ecore.EClass]*Class
}

func (m *Model) Class(e ecore.EClass) *Class { return m.byE[e] }

func (m *Model) Of(o ecore.EObject) *Class { return m.byE[o.EClass()] }

// Concrete classes usable as plain objects
func (m *Model) Concrete(super *Class) []*Class {
	var res []*Class
	for _, c := range m.Classes {
		if !c.Abstract && !c.Entry && (super == nil || c.IsA(super)) {
			res = append(res, c)
		}
	}
	return res
}

func (m *Model) New(c *Class) ecore.EObject {
	if m.Static {
		o := m.Pkgs[0].GetEFactoryInstance().Create(c.E)
		if p, ok := o.(ecore.EPackage); ok {
			p.SetEFactoryInstance(nil)
		}
		return o
	}
	return m.Pkgs[c.Pkg].GetEFactoryInstance().Create(c.E)
}

func (m *Model) String() string {
	if m.Static {
		return "Ecore itself\n"
	}
	var b strings.Builder
	for _, c := range m.Classes {
		fmt.Fprintf(&b, "class %s", c.Name)
		if c.namesake != "" {
			fmt.Fprintf(&b, " (%s)", c.namesake)
		}
		if c.Pkg > 0 {
			fmt.Fprintf(&b, " pkg%d", c.Pkg)
		}
		if c.Abstract {
			b.WriteString(" abstract")
		}
		if c.Entry {
			b.WriteString(" entry")
		}
		for _, s := range c.Supers {
			b.WriteString(" <" + s.Name)
		}
		b.WriteString(" {")
		for i, f := range c.Feats {
			if i > 0 {
				b.WriteString("; ")
			}
			b.WriteString(f.String())
		}
		b.WriteString("}\n")
	}
	return b.String()
}

// ModelOpts restricts what is generated to what the property is about.
type ModelOpts struct {
	MaxClasses   int
	MaxFeats     int
	Pkgs         int      // number of packages, 1 if 0
	DTs          []string // attribute types
	ManyDTs      []string // attribute types allowed for many-valued attributes, DTs if nil
	NoAttrs      bool
	NoRefs       bool
	NoMulti      bool // no multiple inheritance
	NoInherit    bool
	NoOpposites  bool
	NoTransient  bool
	NoUnsettable bool
	NoDefaults   bool
	NoBag        bool // no non unique many-valued attribute
	Maps         bool // string -> string and string -> int map features
	IDs          bool // at most one ID attribute per class
	NoResolve    bool // no resolving reference
	AllResolve   bool
	OddNames     bool
	ContBias     bool   // favour containment
	Dense        bool   // every class declares features
	OppBias      bool   // favour opposites
	Static       bool   // sometimes Ecore itself
	Avoid        string // a name no feature has
	NoNamesakes  bool   // classes of different packages have different names
}

var oddNames = []string{"order", "select", "index", "group", "name", "id", "value", "key", "href", "from", "type", "class", "x_y", "a1", "Zed", "table", "objectID", "containerID", "rowid", "idx"}

func identPool(odd bool, avoid string, t *rapid.T, base string, n int, used map[string]bool) string {
	if odd && oneIn(t, 5, "odd") {
		s := rapid.SampledFrom(oddNames).Draw(t, "oddname")
		if s != avoid && !used[strings.ToLower(s)] {
			used[strings.ToLower(s)] = true
			return s
		}
	}
	return fmt.Sprintf("%s%d", base, n)
}

func genModel(t *rapid.T, o ModelOpts) *Model {
	m := &Model{byE: map[ecore.EClass]*Class{}}
	if o.MaxClasses == 0 {
		o.MaxClasses = 5
	}
	if o.MaxFeats == 0 {
		o.MaxFeats = 4
	}
	npkg := max(o.Pkgs, 1)
	if npkg > 1 {
		npkg = rapid.IntRange(1, npkg).Draw(t, "npkg")
	}
	// enums
	for i, n := 0, rapid.IntRange(1, 2).Draw(t, "nenums"); i < n; i++ {
		e := &EnumSpec{Name: fmt.Sprintf("E%d", i)}
		v := rapid.IntRange(-1, 3).Draw(t, "enumbase")
		for j, k := 0, rapid.IntRange(2, 4).Draw(t, "nlits"); j < k; j++ {
			e.Lits = append(e.Lits, fmt.Sprintf("lit%d%d", i, j))
			e.Values = append(e.Values, v)
			v += rapid.IntRange(1, 3).Draw(t, "step")
		}
		e.Rotated = oneIn(t, 4, "litnames")
		m.Enums = append(m.Enums, e)
	}
	n := rapid.IntRange(1, o.MaxClasses).Draw(t, "nclasses")
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		c := &Class{Name: fmt.Sprintf("C%d", i), Pkg: rapid.IntRange(0, npkg-1).Draw(t, "pkg")}
		if i > 0 && !o.NoInherit {
			maxs := 2
			if o.NoMulti {
				maxs = 1
			}
			for k := rapid.IntRange(0, min(i, maxs)).Draw(t, "nsupers"); k > 0; k-- {
				s := m.Classes[rapid.IntRange(0, i-1).Draw(t, "super")]
				dup := false
				for _, x := range c.Supers {
					// a super type listed twice or implied by another is not useful
					dup = dup || x.IsA(s) || s.IsA(x)
				}
				if !dup {
					c.Supers = append(c.Supers, s)
				}
			}
			c.Abstract = oneIn(t, 6, "abstract")
		} else if i == 0 && n > 1 {
			c.Abstract = oneIn(t, 4, "abstract")
		}
		m.Classes = append(m.Classes, c)
	}
	if npkg > 1 && !o.NoNamesakes && oneIn(t, 4, "namesakes") {
		// classes of different packages with the same name
		taken := map[string]bool{}
		for _, c := range m.Classes {
			taken[fmt.Sprint(c.Pkg, c.Name)] = true
		}
		for i, c := range m.Classes {
			if i > 0 && rapid.Bool().Draw(t, "namesake") {
				o := m.Classes[rapid.IntRange(0, i-1).Draw(t, "of")]
				if k := fmt.Sprint(c.Pkg, o.Ident()); !taken[k] {
					taken[k] = true
					c.namesake = o.Ident()
				}
			}
		}
	}
	hasConcrete := false
	for _, c := range m.Classes {
		hasConcrete = hasConcrete || !c.Abstract
	}
	if !hasConcrete {
		m.Classes[len(m.Classes)-1].Abstract = false
	}
	var entries []*Class
	if o.Maps && rapid.Bool().Draw(t, "withmaps") {
		for i, vt := range []string{"EString", "EInt"} {
			ec := &Class{Name: fmt.Sprintf("Entry%d", i), Entry: true}
			ec.Feats = []*Feat{
				{Name: "key", Owner: ec, Attr: true, DT: "EString", Unique: true, Upper: 1},
				{Name: "value", Owner: ec, Attr: true, DT: vt, Unique: true, Upper: 1},
			}
			entries = append(entries, ec)
		}
	}
	fn := 0
	for _, c := range m.Classes {
		// the pool of odd names is shared : names are unique in the whole model
		minFeats := 0
		if o.Dense {
			minFeats = 1
		}
		for k := rapid.IntRange(minFeats, o.MaxFeats).Draw(t, "nfeats"); k > 0; k-- {
			f := &Feat{Owner: c, Name: identPool(o.OddNames, o.Avoid, t, "f", fn, used), Unique: true, Upper: 1}
			fn++
			kind := rapid.IntRange(0, 9).Draw(t, "kind")
			isAttr := kind < 4
			if o.ContBias {
				isAttr = kind < 2
			}
			if o.NoAttrs {
				isAttr = false
			}
			if o.NoRefs {
				isAttr = true
			}
			f.Many = rapid.Bool().Draw(t, "many")
			if f.Many {
				f.Upper = rapid.SampledFrom([]int{-1, -1, 5}).Draw(t, "upper")
			}
			if isAttr {
				f.Attr = true
				dts := o.DTs
				if f.Many && o.ManyDTs != nil {
					dts = o.ManyDTs
				}
				f.DT = rapid.SampledFrom(dts).Draw(t, "dt")
				if f.Many && !o.NoBag {
					f.Unique = rapid.Bool().Draw(t, "unique")
				}
				if !f.Many && !o.NoDefaults && oneIn(t, 3, "hasdefault") {
					f.Default = genLiteral(t, m, f.DT)
				}
				if !f.Many && o.IDs && (f.DT == "EString" || f.DT == "EInt") && f.Default == "" {
					f.ID = true
					for _, g := range c.All() {
						f.ID = f.ID && !g.ID
					}
					c.all = nil
				}
			} else {
				if len(entries) > 0 && kind == 9 {
					f.Target = rapid.SampledFrom(entries).Draw(t, "entry")
					f.Many, f.Upper, f.Cont = true, -1, true
				} else {
					f.Target = rapid.SampledFrom(m.Classes).Draw(t, "target")
					f.Cont = rapid.Bool().Draw(t, "cont")
					f.Resolve = !o.NoResolve && (o.AllResolve || rapid.Bool().Draw(t, "resolve"))
				}
			}
			if !o.NoTransient && !f.ID {
				f.Transient = oneIn(t, 8, "transient")
			}
			if !o.NoUnsettable {
				f.Unsettable = oneIn(t, 5, "unsettable")
			}
			c.Feats = append(c.Feats, f)
			for _, x := range m.Classes {
				x.all = nil
			}
			if !f.Attr && !f.Map() && !o.NoOpposites && (o.OppBias && rapid.Bool().Draw(t, "oppbias") || rapid.IntRange(0, 2).Draw(t, "opp") == 0) {
				g := &Feat{Owner: f.Target, Name: fmt.Sprintf("f%d", fn), Unique: true, Upper: 1, Target: c}
				fn++
				if !f.Cont {
					g.Cont = f.Many == false && oneIn(t, 3, "oppcont")
				}
				if !f.Cont {
					g.Many = rapid.Bool().Draw(t, "oppmany")
					if g.Many {
						g.Upper = -1
					}
				}
				g.Resolve = !o.NoResolve && (o.AllResolve || rapid.Bool().Draw(t, "oppresolve"))
				if f.Cont || g.Cont {
					// EContainmentFeature gives the container end of a bidirectional
					// containment (known finding of P04) : which end tells whether
					// proxies are resolved must not matter
					g.Resolve = f.Resolve
				}
				g.Opp, f.Opp = f, g
				f.Target.Feats = append(f.Target.Feats, g)
				for _, x := range m.Classes {
					x.all = nil
				}
			}
		}
	}
	m.Classes = append(m.Classes, entries...)
	m.build(npkg)
	return m
}

var ecoreDTs = map[string]func() ecore.EDataType{
	"EString":  func() ecore.EDataType { return ecore.GetPackage().GetEString() },
	"EInt":     func() ecore.EDataType { return ecore.GetPackage().GetEInt() },
	"EInteger": func() ecore.EDataType { return ecore.GetPackage().GetEIntegerObject() },
	"EBoolean": func() ecore.EDataType { return ecore.GetPackage().GetEBoolean() },
	"EBoolObj": func() ecore.EDataType { return ecore.GetPackage().GetEBooleanObject() },
	"EDouble":  func() ecore.EDataType { return ecore.GetPackage().GetEDouble() },
	"EDoubObj": func() ecore.EDataType { return ecore.GetPackage().GetEDoubleObject() },
	"EFloat":   func() ecore.EDataType { return ecore.GetPackage().GetEFloat() },
	"EFloaObj": func() ecore.EDataType { return ecore.GetPackage().GetEFloatObject() },
	"ELong":    func() ecore.EDataType { return ecore.GetPackage().GetELong() },
	"ELongObj": func() ecore.EDataType { return ecore.GetPackage().GetELongObject() },
	"EShort":   func() ecore.EDataType { return ecore.GetPackage().GetEShort() },
	"EShorObj": func() ecore.EDataType { return ecore.GetPackage().GetEShortObject() },
	"EByte":    func() ecore.EDataType { return ecore.GetPackage().GetEByte() },
	"EByteObj": func() ecore.EDataType { return ecore.GetPackage().GetEByteObject() },
	"EChar":    func() ecore.EDataType { return ecore.GetPackage().GetEChar() },
	"ECharObj": func() ecore.EDataType { return ecore.GetPackage().GetECharacterObject() },
	"EBytes":   func() ecore.EDataType { return ecore.GetPackage().GetEByteArray() },
	"EDate":    func() ecore.EDataType { return ecore.GetPackage().GetEDate() },
	"EBigDec":  func() ecore.EDataType { return ecore.GetPackage().GetEBigDecimal() },
	"EBigInt":  func() ecore.EDataType { return ecore.GetPackage().GetEBigInteger() },
}

// custom datatypes : name -> instance type name
var customDTs = map[string]string{
	"XFloat64": "float64", "XFloat32": "float32", "XInt": "int", "XUint64": "uint64", "XInt64": "int64",
	"XInt32": "int32", "XInt16": "int16", "XInt8": "int8", "XBool": "bool", "XString": "string",
	"JDouble": "java.lang.Double", "JFloat": "java.lang.Float", "JInteger": "java.lang.Integer", "JULong": "com.google.common.primitives.UnsignedLong",
	"JLong": "java.lang.Long", "JBigInt": "java.math.BigInteger", "JShort": "java.lang.Short", "JBool": "java.lang.Boolean", "JString": "java.lang.String",
}

// goKind gives the Go type of the values of a datatype
func goKind(dt string) string {
	switch dt {
	case "EString":
		return "string"
	case "EInt", "EInteger", "ELongObj", "E0", "E1":
		return "int"
	case "EBoolean", "EBoolObj":
		return "bool"
	case "EDouble", "EDoubObj", "EBigDec":
		return "float64"
	case "EFloat", "EFloaObj":
		return "float32"
	case "ELong", "EBigInt":
		return "int64"
	case "EShort", "EShorObj":
		return "int16"
	case "EByte", "EByteObj", "EChar", "ECharObj":
		return "byte"
	case "EBytes":
		return "[]byte"
	case "EDate":
		return "time"
	}
	switch x := customDTs[dt]; x {
	case "java.lang.Double":
		return "float64"
	case "java.lang.Float":
		return "float32"
	case "java.lang.Integer":
		return "int"
	case "com.google.common.primitives.UnsignedLong":
		return "uint64"
	case "java.lang.Long", "java.math.BigInteger":
		return "int64"
	case "java.lang.Short":
		return "int16"
	case "java.lang.Boolean":
		return "bool"
	case "java.lang.String":
		return "string"
	default:
		return x
	}
}

func (m *Model) enum(name string) *EnumSpec {
	for _, e := range m.Enums {
		if e.Name == name {
			return e
		}
	}
	return nil
}

func (m *Model) build(npkg int) {
	fac := ecore.GetFactory()
	for i := 0; i < npkg; i++ {
		p := fac.CreateEPackage()
		p.SetName(fmt.Sprintf("pkg%d", i))
		p.SetNsPrefix(fmt.Sprintf("p%d", i))
		p.SetNsURI(fmt.Sprintf("http://verif/p%d", i))
		f := fac.CreateEFactory()
		p.SetEFactoryInstance(f)
		m.Pkgs = append(m.Pkgs, p)
	}
	dts := map[string]ecore.EDataType{}
	for _, e := range m.Enums {
		e.E = fac.CreateEEnum()
		e.E.SetName(e.Name)
		for j, l := range e.Lits {
			lit := fac.CreateEEnumLiteral()
			lit.SetName(e.LitName(j))
			lit.SetLiteral(l)
			lit.SetValue(e.Values[j])
			e.E.GetELiterals().Add(lit)
		}
		m.Pkgs[0].GetEClassifiers().Add(e.E)
		dts[e.Name] = e.E
	}
	getDT := func(name string) ecore.EDataType {
		if d, ok := dts[name]; ok {
			return d
		}
		if f, ok := ecoreDTs[name]; ok {
			return f()
		}
		d := fac.CreateEDataType()
		d.SetName(name)
		d.SetInstanceTypeName(customDTs[name])
		m.Pkgs[0].GetEClassifiers().Add(d)
		dts[name] = d
		return d
	}
	for _, c := range m.Classes {
		c.E = fac.CreateEClass()
		c.E.SetName(c.Ident())
		c.E.SetAbstract(c.Abstract)
		if c.Entry {
			c.E.SetInstanceTypeName("java.util.Map.Entry")
		}
		m.byE[c.E] = c
		m.Pkgs[c.Pkg].GetEClassifiers().Add(c.E)
	}
	for _, c := range m.Classes {
		for _, s := range c.Supers {
			c.E.GetESuperTypes().Add(s.E)
		}
		for _, f := range c.Feats {
			m.Feats = append(m.Feats, f)
			if f.Attr {
				a := fac.CreateEAttribute()
				a.SetEType(getDT(f.DT))
				a.SetID(f.ID)
				f.E = a
			} else {
				r := fac.CreateEReference()
				r.SetEType(f.Target.E)
				r.SetContainment(f.Cont)
				r.SetResolveProxies(f.Resolve)
				f.E = r
			}
			f.E.SetName(f.Name)
			f.E.SetUpperBound(f.Upper)
			f.E.SetUnique(f.Unique)
			f.E.SetTransient(f.Transient)
			f.E.SetUnsettable(f.Unsettable)
			if f.Default != "" {
				f.E.SetDefaultValueLiteral(f.Default)
			}
			c.E.GetEStructuralFeatures().Add(f.E)
		}
	}
	for _, f := range m.Feats {
		if f.Opp != nil {
			f.Ref().SetEOpposite(f.Opp.Ref())
		}
	}
}

// ---- values ----

// Alphabet restricts generated text.
type Alphabet int

const (
	AlphaAny  Alphabet = iota // any valid UTF-8
	AlphaXML                  // characters legal in XML 1.0
	AlphaWord                 // letters only
)

func isXMLChar(r rune) bool {
	return r == 0x09 || r == 0x0A || r == 0x0D || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}

func genText(t *rapid.T, a Alphabet) string {
	switch rapid.IntRange(0, 3).Draw(t, "textkind") {
	case 0:
		return rapid.SampledFrom([]string{"", "a", "b", "hello world", "x y  z"}).Draw(t, "text")
	case 1:
		if a == AlphaWord {
			return rapid.StringMatching("[a-z]{1,6}").Draw(t, "text")
		}
		return rapid.StringOfN(rapid.SampledFrom([]rune("ab<>&\"'\\]/#?%:;={}\n\t\r @.\u00e9\u2028\U0001F600\u007f\u0085")), 0, 6, -1).Draw(t, "text")
	case 2:
		if a == AlphaWord {
			return rapid.StringMatching("[a-z]{1,6}").Draw(t, "text")
		}
		if a == AlphaXML {
			s := rapid.StringN(0, 6, -1).Draw(t, "text")
			return strings.Map(func(r rune) rune {
				if isXMLChar(r) {
					return r
				}
				return 'x'
			}, s)
		}
		return rapid.StringN(0, 6, -1).Draw(t, "text")
	default:
		return rapid.StringMatching("[a-zA-Z0-9_]{1,8}").Draw(t, "text")
	}
}

var interestingInts = []int64{0, 1, -1, 2, 63, 64, 100, 127, 128, 255, 256, -128, -129, 8191, 8192, 32767, 32768, -32768, 65535, 65536, 1 << 21, 1 << 24, 1<<31 - 1, -1 << 31, 1 << 31, 1 << 32, 1<<53 + 1, math.MaxInt64, math.MinInt64}

func genInt(t *rapid.T, lo, hi int64) int64 {
	if rapid.Bool().Draw(t, "interesting") {
		v := rapid.SampledFrom(interestingInts).Draw(t, "iint")
		if v >= lo && v <= hi {
			return v
		}
	}
	return rapid.Int64Range(lo, hi).Draw(t, "int")
}

func genFloat(t *rapid.T) float64 {
	if rapid.Bool().Draw(t, "finteresting") {
		return rapid.SampledFrom([]float64{0, 1, -1, 0.1, 1.5, math.Pi, 1e21, 1e-9, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.Inf(1), math.Inf(-1), 1 << 53, math.Copysign(0, -1)}).Draw(t, "ifloat")
	}
	return rapid.Float64().Draw(t, "float")
}

// genValue draws a value of the datatype.
func genValue(t *rapid.T, m *Model, dt string, a Alphabet) any {
	if e := m.enum(dt); e != nil {
		return rapid.SampledFrom(e.Values).Draw(t, "enum")
	}
	switch goKind(dt) {
	case "string":
		return genText(t, a)
	case "int":
		return int(genInt(t, math.MinInt64, math.MaxInt64))
	case "int64":
		return genInt(t, math.MinInt64, math.MaxInt64)
	case "uint64":
		return uint64(genInt(t, math.MinInt64, math.MaxInt64))
	case "int32":
		return int32(genInt(t, math.MinInt32, math.MaxInt32))
	case "int16":
		return int16(genInt(t, math.MinInt16, math.MaxInt16))
	case "int8":
		return int8(genInt(t, math.MinInt8, math.MaxInt8))
	case "bool":
		return rapid.Bool().Draw(t, "bool")
	case "float64":
		return genFloat(t)
	case "float32":
		return float32(genFloat(t))
	case "byte":
		if a == AlphaAny {
			return rapid.Byte().Draw(t, "byte")
		}
		return byte(rapid.IntRange(0x21, 0x7e).Draw(t, "byte"))
	case "[]byte":
		if a == AlphaAny {
			return rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "bytes")
		}
		return []byte(rapid.StringMatching("[a-zA-Z0-9]{0,6}").Draw(t, "bytes"))
	case "time":
		// millisecond precision is what the text form of a date carries
		ms := rapid.Int64Range(-2_000_000_000_000, 4_000_000_000_000).Draw(t, "date")
		if rapid.Bool().Draw(t, "wholesec") {
			ms -= ms % 1000
		}
		d := time.UnixMilli(ms).UTC()
		return &d
	}
	panic("no generator for " + dt)
}

// genLiteral draws a default value literal, in the text form of the datatype.
func genLiteral(t *rapid.T, m *Model, dt string) string {
	if e := m.enum(dt); e != nil {
		return rapid.SampledFrom(e.Lits).Draw(t, "deflit")
	}
	switch goKind(dt) {
	case "string":
		return rapid.StringMatching("[a-z]{1,4}").Draw(t, "defstr")
	case "int", "int64", "uint64", "int32", "int16", "int8":
		return strconv.Itoa(rapid.IntRange(0, 100).Draw(t, "defint"))
	case "bool":
		return strconv.FormatBool(rapid.Bool().Draw(t, "defbool"))
	case "float64", "float32":
		return rapid.SampledFrom([]string{"0", "1.5", "-2.25", "100"}).Draw(t, "deffloat")
	case "byte", "[]byte":
		return rapid.SampledFrom([]string{"a", "Z"}).Draw(t, "defbyte")
	case "time":
		return "2020-05-17T10:20:30.123Z"
	}
	return ""
}

// literalValue is the value a default literal denotes, computed independently.
func literalValue(m *Model, dt, lit string) any {
	if e := m.enum(dt); e != nil {
		for i, l := range e.Lits {
			if l == lit {
				return e.Values[i]
			}
		}
	}
	i, _ := strconv.ParseInt(lit, 10, 64)
	switch goKind(dt) {
	case "string":
		return lit
	case "int":
		return int(i)
	case "int64":
		return i
	case "uint64":
		return uint64(i)
	case "int32":
		return int32(i)
	case "int16":
		return int16(i)
	case "int8":
		return int8(i)
	case "bool":
		return lit == "true"
	case "float64":
		f, _ := strconv.ParseFloat(lit, 64)
		return f
	case "float32":
		f, _ := strconv.ParseFloat(lit, 32)
		return float32(f)
	case "byte":
		return lit[0]
	case "[]byte":
		return []byte(lit)
	case "time":
		d := time.Date(2020, 5, 17, 10, 20, 30, 123_000_000, time.UTC)
		return &d
	}
	return nil
}

// zeroValue is the value of an attribute without default literal.
func zeroValue(m *Model, dt string) any {
	if e := m.enum(dt); e != nil {
		return e.Values[0]
	}
	if dt == "EByte" {
		return byte('0') // its default literal is "0", and the text of a byte is a character
	}
	switch goKind(dt) {
	case "string":
		return ""
	case "int":
		return 0
	case "int64":
		return int64(0)
	case "uint64":
		return uint64(0)
	case "int32":
		return int32(0)
	case "int16":
		return int16(0)
	case "int8":
		return int8(0)
	case "bool":
		return false
	case "float64":
		return float64(0)
	case "float32":
		return float32(0)
	}
	return nil
}

func fmtValue(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return strconv.Quote(x)
	case float64:
		return fmt.Sprintf("float64(%x)", math.Float64bits(x))
	case float32:
		return fmt.Sprintf("float32(%x)", math.Float32bits(x))
	case []byte:
		return fmt.Sprintf("bytes(%x)", x)
	case *time.Time:
		if x == nil {
			return "nildate"
		}
		return fmt.Sprintf("date(%d)", x.UnixNano())
	case ecore.EObject:
		return fmt.Sprintf("object(%s)", x.EClass().GetName())
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

func defaultOf(m *Model, f *Feat) any {
	if f.Many {
		return nil
	}
	if !f.Attr {
		return nil
	}
	if f.Default != "" {
		return literalValue(m, f.DT, f.Default)
	}
	return zeroValue(m, f.DT)
}

var comparableDTs = []string{"EString", "EInt", "EBoolean", "EDouble", "EFloat", "ELong", "EShort", "E0"}

// every datatype with text and binary forms
var allDTs = []string{"EString", "EInt", "EInteger", "EBoolean", "EBoolObj", "EDouble", "EDoubObj", "EFloat", "EFloaObj", "ELong", "ELongObj", "EShort", "EShorObj",
	"EByte", "EByteObj", "EChar", "ECharObj", "EBytes", "EDate", "EBigDec", "EBigInt", "E0",
	"XFloat64", "XFloat32", "XInt", "XUint64", "XInt64", "XInt32", "XInt16", "XInt8", "XBool", "XString",
	"JDouble", "JFloat", "JInteger", "JULong", "JLong", "JBigInt", "JShort", "JBool", "JString"}
