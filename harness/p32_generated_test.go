package harness

// Packages made as generated code makes them : a package type which extends
// EPackageExt and describes itself with the initialization functions, a factory
// type which extends EFactoryExt, creates its own types of objects and has its own
// representation of enumerations.

import (
	"fmt"
	"strings"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

type genPackage struct {
	ecore.EPackageExt
}

// typed representation of the literals of an enumeration
type genEnum struct {
	enum  string
	value int
}

type genFactory struct {
	ecore.EFactoryExt
	create func(ecore.EClass) ecore.EObject // by default, the inherited one
	typed  bool
	enums  map[ecore.EDataType]*EnumSpec
	made   map[int]int // created objects by classifier identifier
}

func (f *genFactory) Create(c ecore.EClass) ecore.EObject {
	f.made[c.GetClassifierID()]++
	if f.create != nil && !ecore.IsMapEntry(c) {
		return f.create(c)
	}
	return f.EFactoryExt.Create(c)
}

func (f *genFactory) CreateFromString(d ecore.EDataType, literal string) any {
	if e := f.enums[d]; e != nil && f.typed {
		for i, l := range e.Lits {
			if l == literal {
				return genEnum{e.Name, e.Values[i]}
			}
		}
		panic("unknown literal " + literal)
	}
	return f.EFactoryExt.CreateFromString(d, literal)
}

func (f *genFactory) ConvertToString(d ecore.EDataType, value any) string {
	if e := f.enums[d]; e != nil && f.typed {
		v, ok := value.(genEnum)
		if !ok || v.enum != e.Name {
			panic(fmt.Sprintf("%v is not a value of %s", value, e.Name))
		}
		for i, x := range e.Values {
			if x == v.value {
				return e.Lits[i]
			}
		}
	}
	return f.EFactoryExt.ConvertToString(d, value)
}

type genOp struct {
	op     ecore.EOperation
	name   string
	typ    ecore.EClassifier
	lo, up int
	unique bool
	order  bool
	pars   []genPar
}

type genPar struct {
	name   string
	typ    ecore.EClassifier
	lo, up int
	unique bool
	order  bool
}

type genFlags struct {
	lower                                  int
	volatile, changeable, derived, ordered bool
	abstract, isInterface                  bool
	instance                               string
}

// generated makes the packages of a model as generated code does. The description is what
// is told to the functions which initialize them, check compares what they give to it.
type generated struct {
	m        *Model
	pkgs     []*genPackage
	facs     []*genFactory
	id       map[ecore.EClassifier]int
	dts      map[string]ecore.EDataType
	own      []string // names of the data types of the first package
	ser      map[string]bool
	flags    map[any]*genFlags
	defaults map[string]string // data types whose default is told
	ops      map[*Class][]*genOp
	count    []int // classifiers of each package
	supFirst bool
}

func newGenerated(t *rapid.T, m *Model, odd bool) *generated {
	g := &generated{m: m, id: map[ecore.EClassifier]int{}, dts: map[string]ecore.EDataType{}, ser: map[string]bool{}, defaults: map[string]string{}, flags: map[any]*genFlags{}, ops: map[*Class][]*genOp{}}
	fac := ecore.GetFactory()
	b := func(label string) bool { return rapid.Bool().Draw(t, label) }
	typed := b("typed")
	var create func(ecore.EClass) ecore.EObject
	switch rapid.IntRange(0, 2).Draw(t, "objects") {
	case 1:
		create = func(c ecore.EClass) ecore.EObject {
			o := ecore.NewReflectiveEObjectImpl()
			o.SetEClass(c)
			return o
		}
	case 2:
		create = func(c ecore.EClass) ecore.EObject { return newCompactObjC(c) }
	}
	names := m.Pkgs
	for i := range names {
		p := &genPackage{}
		p.SetInterfaces(p)
		p.EPackageExt.Initialize()
		p.SetName(names[i].GetName())
		p.SetNsPrefix(names[i].GetNsPrefix())
		p.SetNsURI(names[i].GetNsURI())
		f := &genFactory{create: create, typed: typed, enums: map[ecore.EDataType]*EnumSpec{}, made: map[int]int{}}
		f.SetInterfaces(f)
		f.EFactoryExt.Initialize()
		p.SetEFactoryInstance(f)
		g.pkgs = append(g.pkgs, p)
		g.facs = append(g.facs, f)
		g.count = append(g.count, 0)
	}
	next := func(i int) int {
		g.count[i]++
		return g.count[i] - 1
	}
	// contents
	m.byE = map[ecore.EClass]*Class{}
	for _, e := range m.Enums {
		n := next(0)
		e.E = fac.CreateEEnumFromContainerAndClassID(g.pkgs[0], n)
		g.id[e.E] = n
		g.dts[e.Name] = e.E
		g.facs[0].enums[e.E] = e
	}
	for _, c := range m.Classes {
		for _, f := range c.Feats {
			if _, isEcore := ecoreDTs[f.DT]; f.Attr && !isEcore && g.dts[f.DT] == nil {
				n := next(0)
				d := fac.CreateEDataTypeFromContainerAndClassID(g.pkgs[0], n)
				g.id[d] = n
				g.dts[f.DT] = d
				g.own = append(g.own, f.DT)
			}
		}
	}
	for _, c := range m.Classes {
		n := next(c.Pkg)
		c.E = fac.CreateEClassFromContainerAndClassID(g.pkgs[c.Pkg], n)
		g.id[c.E] = n
		m.byE[c.E] = c
		inherited := len(c.All()) - len(c.Feats)
		for i, f := range c.Feats {
			if f.Attr {
				f.E = fac.CreateEAttributeFromContainerAndClassID(c.E, inherited+i)
			} else {
				f.E = fac.CreateEReferenceFromContainerAndClassID(c.E, inherited+i)
			}
		}
		for n := rapid.IntRange(0, 2).Draw(t, "nops"); n > 0; n-- {
			g.ops[c] = append(g.ops[c], &genOp{op: fac.CreateEOperationFromContainerAndClassID(c.E, len(g.ops[c])), name: fmt.Sprintf("op%d", n)})
		}
	}
	typ := func(label string) ecore.EClassifier {
		switch rapid.IntRange(0, 2).Draw(t, label) {
		case 1:
			return ecore.GetPackage().GetEString()
		case 2:
			return pickOne(t, label, m.Classes).E
		}
		return nil
	}
	bounds := func() (int, int) {
		return rapid.IntRange(0, 2).Draw(t, "lower"), pickOne(t, "upper", []int{1, -1, 2, 5, -2})
	}
	supers := func(c *Class) {
		for _, s := range c.Supers {
			c.E.GetESuperTypes().Add(s.E)
		}
	}
	// description
	g.supFirst = !oneIn(t, 4, "superTypesLast")
	if g.supFirst {
		for _, c := range m.Classes {
			supers(c)
		}
	}
	for _, c := range m.Classes {
		fl := &genFlags{isInterface: b("interface"), instance: "verif/" + c.Name}
		if c.Entry {
			fl.instance = "java.util.Map.Entry"
		}
		g.flags[c] = fl
		g.pkgs[c.Pkg].InitEClass(c.E, c.Ident(), fl.instance, c.Abstract, fl.isInterface)
		for _, f := range c.Feats {
			fl := &genFlags{lower: rapid.IntRange(0, 2).Draw(t, "lower"), changeable: true, ordered: b("ordered")}
			if odd {
				fl.volatile, fl.changeable, fl.derived = b("volatile"), b("changeable"), b("derived")
			}
			g.flags[f] = fl
			p := g.pkgs[c.Pkg]
			if f.Attr {
				d := g.dts[f.DT]
				if d == nil {
					d = ecoreDTs[f.DT]()
				}
				p.InitEAttribute(f.E.(ecore.EAttribute), d, f.Name, f.Default, fl.lower, f.Upper, f.Transient, fl.volatile, fl.changeable, f.Unsettable, f.Unique, fl.derived, fl.ordered, f.ID)
			} else {
				var opp ecore.EReference
				if f.Opp != nil {
					opp = f.Opp.Ref()
				}
				p.InitEReference(f.Ref(), f.Target.E, opp, f.Name, f.Default, fl.lower, f.Upper, f.Transient, fl.volatile, fl.changeable, f.Cont, f.Resolve, f.Unsettable, f.Unique, fl.derived, fl.ordered)
			}
		}
		for _, o := range g.ops[c] {
			o.typ, o.unique, o.order = typ("type"), b("unique"), b("ordered")
			o.lo, o.up = bounds()
			g.pkgs[c.Pkg].InitEOperation(o.op, o.typ, o.name, o.lo, o.up, o.unique, o.order)
			for n := rapid.IntRange(0, 2).Draw(t, "npars"); n > 0; n-- {
				q := genPar{name: fmt.Sprintf("p%d", n), typ: typ("type"), unique: b("unique"), order: b("ordered")}
				q.lo, q.up = bounds()
				o.pars = append(o.pars, q)
				g.pkgs[c.Pkg].AddEParameter(o.op, q.typ, q.name, q.lo, q.up, q.unique, q.order)
			}
		}
	}
	if !g.supFirst {
		for _, c := range m.Classes {
			supers(c)
		}
	}
	for _, e := range m.Enums {
		g.pkgs[0].InitEEnum(e.E, e.Name, "verif/"+e.Name)
		for i, l := range e.Lits {
			g.pkgs[0].AddEEnumLiteral(e.E, e.LitName(i), l, e.Values[i], g.enumValue(e, i))
		}
	}
	for _, n := range g.own {
		g.ser[n] = !odd || b("serializable")
		literal := ""
		if odd && oneIn(t, 2, "default of the type") {
			literal = pickOne(t, "default", []string{"1", "17"})
			if goKind(n) == "bool" {
				literal = "true"
			}
			g.defaults[n] = literal
		}
		g.pkgs[0].InitEDataType(g.dts[n], n, customDTs[n], literal, g.ser[n])
	}
	m.Pkgs = nil
	for _, p := range g.pkgs {
		p.CreateResource()
		m.Pkgs = append(m.Pkgs, p)
	}
	return g
}

func (g *generated) enumValue(e *EnumSpec, i int) any {
	if g.facs[0].typed {
		return genEnum{e.Name, e.Values[i]}
	}
	return e.Values[i]
}

// check compares the packages to what was told
func (g *generated) check(t *rapid.T) {
	eq := func(what string, got, want any) {
		if got != want {
			t.Fatalf("%s: %v instead of %v", what, got, want)
		}
	}
	for i, p := range g.pkgs {
		eq("number of classifiers", p.GetEClassifiers().Size(), g.count[i])
		eq("factory of the package", p.GetEFactoryInstance(), ecore.EFactory(g.facs[i]))
		eq("package of the factory", g.facs[i].GetEPackage(), ecore.EPackage(p))
		r := p.EResource()
		if r == nil {
			t.Fatalf("package %s without resource", p.GetName())
		}
		eq("address of the resource of the package", r.GetURI().String(), p.GetNsURI())
		eq("contents of the resource of the package", r.GetContents().Size(), 1)
		eq("content of the resource of the package", r.GetContents().Get(0), any(p))
		eq("resource made again", p.CreateResource(), r)
	}
	inPackage := func(n string, c ecore.EClassifier, pkg int, instance string) {
		p := g.pkgs[pkg]
		eq(n+": name", c.GetName(), n)
		eq(n+": identifier", c.GetClassifierID(), g.id[c])
		eq(n+": position", p.GetEClassifiers().IndexOf(c), g.id[c])
		eq(n+": package", c.GetEPackage(), ecore.EPackage(p))
		eq(n+": found by name", p.GetEClassifier(n), c)
		eq(n+": instance type", c.GetInstanceTypeName(), instance)
		eq(n+": found by fragment", p.EResource().GetEObject("//"+n), ecore.EObject(c))
		eq(n+": address", ecore.GetURI(c).String(), p.GetNsURI()+"#//"+n)
	}
	for _, e := range g.m.Enums {
		inPackage(e.Name, e.E, 0, "verif/"+e.Name)
		eq(e.Name+": literals", e.E.GetELiterals().Size(), len(e.Lits))
		for i, l := range e.Lits {
			x := e.E.GetELiterals().Get(i).(ecore.EEnumLiteral)
			eq(e.Name+": literal", x.GetLiteral(), l)
			eq(e.Name+": name of a literal", x.GetName(), e.LitName(i))
			eq(e.Name+": value of a literal", x.GetValue(), e.Values[i])
			eq(e.Name+": instance of a literal", x.GetInstance(), g.enumValue(e, i))
			eq(e.Name+": enumeration of a literal", x.GetEEnum(), e.E)
		}
	}
	for _, n := range g.own {
		inPackage(n, g.dts[n], 0, customDTs[n])
		eq(n+": serializable", g.dts[n].IsSerializable(), g.ser[n])
		want := zeroValue(g.m, n)
		if l := g.defaults[n]; l != "" {
			want = literalValue(g.m, n, l)
		}
		eq(n+": default value", g.dts[n].GetDefaultValue(), want)
	}
	for _, c := range g.m.Classes {
		n := c.Ident()
		fl := g.flags[c]
		inPackage(n, c.E, c.Pkg, fl.instance)
		eq(n+": abstract", c.E.IsAbstract(), c.Abstract)
		eq(n+": interface", c.E.IsInterface(), fl.isInterface)
		eq(n+": super types", c.E.GetESuperTypes().Size(), len(c.Supers))
		eq(n+": features", c.E.GetEStructuralFeatures().Size(), len(c.Feats))
		eq(n+": operations", c.E.GetEOperations().Size(), len(g.ops[c]))
		for i, s := range c.Supers {
			eq(n+": super type", c.E.GetESuperTypes().Get(i), any(s.E))
		}
		for i, f := range c.All() {
			n := n + "." + f.Name
			eq(n+": identifier in the class", c.E.GetFeatureID(f.E), i)
			eq(n+": feature with the identifier", c.E.GetEStructuralFeature(i), f.E)
			eq(n+": feature with the name", c.E.GetEStructuralFeatureFromName(f.Name), f.E)
		}
		for i, f := range c.Feats {
			n := n + "." + f.Name
			fl := g.flags[f]
			e := f.E
			eq(n+": position", c.E.GetEStructuralFeatures().Get(i), any(e))
			eq(n+": class", e.GetEContainingClass(), c.E)
			eq(n+": name", e.GetName(), f.Name)
			eq(n+": default", e.GetDefaultValueLiteral(), f.Default)
			eq(n+": lower bound", e.GetLowerBound(), fl.lower)
			eq(n+": upper bound", e.GetUpperBound(), f.Upper)
			eq(n+": many", e.IsMany(), f.Many)
			eq(n+": required", e.IsRequired(), fl.lower >= 1)
			eq(n+": transient", e.IsTransient(), f.Transient)
			eq(n+": volatile", e.IsVolatile(), fl.volatile)
			eq(n+": changeable", e.IsChangeable(), fl.changeable)
			eq(n+": unsettable", e.IsUnsettable(), f.Unsettable)
			eq(n+": unique", e.IsUnique(), f.Unique)
			eq(n+": derived", e.IsDerived(), fl.derived)
			eq(n+": ordered", e.IsOrdered(), fl.ordered)
			if f.Attr {
				d := g.dts[f.DT]
				if d == nil {
					d = ecoreDTs[f.DT]()
				}
				eq(n+": type", e.GetEType(), ecore.EClassifier(d))
				eq(n+": id", e.(ecore.EAttribute).IsID(), f.ID)
			} else {
				r := f.Ref()
				eq(n+": type", e.GetEType(), ecore.EClassifier(f.Target.E))
				eq(n+": containment", r.IsContainment(), f.Cont)
				eq(n+": resolving", r.IsResolveProxies(), f.Resolve)
				eq(n+": container", r.IsContainer(), f.Container())
				if f.Opp != nil {
					eq(n+": opposite", r.GetEOpposite(), f.Opp.Ref())
				} else if r.GetEOpposite() != nil {
					t.Fatalf("%s: opposite %v", n, r.GetEOpposite())
				}
			}
		}
		typed := func(n string, e ecore.ETypedElement, name string, typ ecore.EClassifier, lo, up int, unique, order bool) {
			eq(n+": name", e.GetName(), name)
			eq(n+": type", e.GetEType(), typ)
			eq(n+": lower bound", e.GetLowerBound(), lo)
			eq(n+": upper bound", e.GetUpperBound(), up)
			eq(n+": unique", e.IsUnique(), unique)
			eq(n+": ordered", e.IsOrdered(), order)
		}
		for i, o := range g.ops[c] {
			eq(n+": operation", c.E.GetEOperations().Get(i), any(o.op))
			eq(n+": class of an operation", o.op.GetEContainingClass(), c.E)
			typed(n+"."+o.name, o.op, o.name, o.typ, o.lo, o.up, o.unique, o.order)
			eq(n+"."+o.name+": parameters", o.op.GetEParameters().Size(), len(o.pars))
			for k, q := range o.pars {
				x := o.op.GetEParameters().Get(k).(ecore.EParameter)
				eq(n+"."+o.name+"."+q.name+": operation", x.GetEOperation(), o.op)
				typed(n+"."+o.name+"."+q.name, x, q.name, q.typ, q.lo, q.up, q.unique, q.order)
			}
		}
	}
}

func TestP32_Descriptions(t *testing.T) {
	runProp(t, "packages with features, operations and enumerations were initialized", 60, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{Pkgs: rapid.IntRange(1, 2).Draw(t, "pkgs"), Maps: true, DTs: allDTs, ManyDTs: allDTs, IDs: true, MaxClasses: 6, MaxFeats: 5})
		c.Logf("%s", m)
		g := newGenerated(t, m, true)
		g.check(t)
		c.LabelIf(len(m.Enums) > 0, "enums")
		if len(m.Feats) > 2 {
			c.Nontrivial()
		}
		// the same description, saved and loaded as an instance of Ecore
		rs := ecore.NewEResourceSetImpl()
		for i, p := range g.pkgs {
			if e := rs.GetEObject(ecore.NewURI(p.GetNsURI()+"#/"), true); e != nil {
				t.Fatalf("unknown package %s found", p.GetName())
			}
			rs.GetPackageRegistry().RegisterPackage(p)
			for _, cl := range m.Classes {
				if cl.Pkg == i {
					if e := rs.GetEObject(ecore.NewURI(p.GetNsURI()+"#//"+cl.Ident()), true); e != ecore.EObject(cl.E) {
						t.Fatalf("%s not found by its address", cl.Ident())
					}
				}
			}
		}
	})
}

func TestP32_Documents(t *testing.T) {
	runProp(t, "objects with references or typed values were read and written with generated packages", 25, func(t *rapid.T, c *Rec) {
		ext := pickOne(t, "format", []string{"xml", "ecore", "bin", "sqlite"})
		o := ModelOpts{Pkgs: rapid.IntRange(1, 2).Draw(t, "pkgs"), Maps: true, DTs: allDTs, ManyDTs: allDTs, IDs: true, MaxClasses: 5, MaxFeats: 4, NoNamesakes: true}
		if rapid.Bool().Draw(t, "enumerations") {
			o.DTs, o.ManyDTs = []string{"E0", "EString"}, []string{"E0", "EInt"}
		}
		o.Dense = rapid.Bool().Draw(t, "dense")
		m := genModel(t, o)
		c.Logf("%s", m)
		g := genGraph(t, m, graphOpts{Resources: 1, MinResources: 1, Roots: 1, MaxObjs: 10, Alpha: AlphaXML, Scheme: "mem:/", Ext: ext})
		c.Label(ext)
		data := g.save(nil)
		sign := strings.NewReplacer()
		if ext == "sqlite" {
			sign = noSign
		}
		before := sign.Replace(g.dump())
		c.Logf("%s", before)
		dynamic := m.Pkgs
		gen := newGenerated(t, m, false)
		h := g.load(data, nil)
		typed := 0
		var objs []ecore.EObject
		for _, r := range h.res {
			for it := r.GetAllContents(); it.HasNext(); {
				objs = append(objs, it.Next().(ecore.EObject))
			}
		}
		made := 0
		for i, f := range gen.facs {
			for id := range f.made {
				if id < 0 || id >= gen.count[i] {
					t.Fatalf("a class has the identifier %d, out of %d", id, gen.count[i])
				}
				made++
			}
		}
		if made == 0 && len(objs) > 0 {
			t.Fatalf("no object was created by the factories of the generated packages")
		}
		for _, x := range objs {
			cl := m.Of(x)
			if cl == nil {
				t.Fatalf("object of an unknown class %v", x.EClass())
			}
			for _, f := range cl.All() {
				e := m.enum(f.DT)
				if !f.Attr || e == nil || !x.EIsSet(f.E) {
					continue
				}
				vs := []any{x.EGet(f.E)}
				if f.Many {
					vs = vs[0].(ecore.EList).ToArray()
				}
				for _, v := range vs {
					if _, ok := v.(genEnum); ok != gen.facs[0].typed {
						t.Fatalf("%s.%s: value %#v (%T) of an enumeration, typed %v", cl.Name, f.Name, v, v, gen.facs[0].typed)
					}
					typed++
				}
			}
		}
		c.LabelIf(typed > 0, "enumerations")
		if g.refs > 0 || typed > 0 {
			c.Nontrivial()
		}
		if !gen.facs[0].typed {
			if after := sign.Replace(h.dump()); after != before {
				t.Fatalf("%s: read with generated packages\n%s\n%s", ext, diff(before, after), strings.ToValidUTF8(clip(data[0]), "?"))
			}
		}
		again := h.save(nil)
		if (ext == "xml" || ext == "ecore") && string(again[0]) != string(data[0]) {
			t.Fatalf("%s: written with generated packages\n%s\n---- instead of\n%s", ext, clip(again[0]), clip(data[0]))
		}
		m.rebind(dynamic)
		h = h.load(again, nil)
		if after := sign.Replace(h.dump()); after != before {
			t.Fatalf("%s: written with generated packages\n%s\n%s", ext, diff(before, after), strings.ToValidUTF8(clip(again[0]), "?"))
		}
	})
}
