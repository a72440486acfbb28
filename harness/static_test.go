package harness

// Ecore itself as a static model : its metamodel elements are objects with
// typed fields, generated accessors and inverse handlers.

import (
	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// features of Ecore which are plain state : others are derived, computed or
// would make the class hierarchy cyclic
var ecoreFeatures = map[string][]string{
	"EModelElement":      {"eAnnotations"},
	"EAnnotation":        {"source", "eModelElement", "contents", "references"},
	"ENamedElement":      {"name"},
	"ETypedElement":      {"ordered", "unique", "lowerBound", "upperBound", "eType"},
	"EStructuralFeature": {"changeable", "volatile", "transient", "unsettable", "derived", "defaultValueLiteral", "eContainingClass"},
	"EAttribute":         {"iD"},
	"EReference":         {"containment", "resolveProxies", "eOpposite", "eKeys"},
	"EClass":             {"abstract", "interface", "eStructuralFeatures", "eOperations"},
	"EClassifier":        {"ePackage", "instanceClassName"},
	"EDataType":          {"serializable"},
	"EEnum":              {"eLiterals"},
	"EEnumLiteral":       {"value", "eEnum"},
	"EFactory":           {"ePackage"},
	"EOperation":         {"eContainingClass", "eParameters", "eExceptions"},
	"EParameter":         {"eOperation"},
	"EPackage":           {"nsURI", "nsPrefix", "eFactoryInstance", "eClassifiers", "eSubPackages", "eSuperPackage"},
	"EGenericType":       {"eUpperBound", "eTypeArguments", "eLowerBound", "eTypeParameter", "eClassifier"},
	"ETypeParameter":     {"eBounds"},
}

// ecoreModel describes Ecore as a Model ; some of its classes are instantiated
func ecoreModel(t *rapid.T, noAttrs bool) *Model {
	m := buildEcoreModel(noAttrs, nil)
	names := rapid.SampledFrom([][]string{
		{"EClass", "EReference"},
		{"EClass", "EAttribute", "EOperation", "EParameter"},
		{"EPackage", "EClass", "EDataType", "EFactory"},
		{"EPackage", "EClass", "EAttribute"},
		{"EAnnotation", "EClass"},
		{"EAnnotation"},
		{"EEnum", "EEnumLiteral", "EPackage"},
		{"EGenericType", "ETypeParameter", "EClass"},
		{"EPackage", "EFactory"},
		{"EAnnotation", "EAttribute", "EClass", "EDataType", "EEnum", "EEnumLiteral", "EFactory", "EOperation", "EPackage", "EParameter", "EReference", "EGenericType", "ETypeParameter"},
	}).Draw(t, "static classes")
	for _, c := range m.Classes {
		for _, n := range names {
			if c.Name == n {
				c.Abstract = false
			}
		}
	}
	return m
}

// buildEcoreModel describes the plain state of Ecore, and more features of it
func buildEcoreModel(noAttrs bool, more map[string][]string) *Model {
	m := &Model{byE: map[ecore.EClass]*Class{}, Pkgs: []ecore.EPackage{ecore.GetPackage()}, Static: true}
	byF := map[ecore.EStructuralFeature]*Feat{}
	var build func(e ecore.EClass) *Class
	build = func(e ecore.EClass) *Class {
		if c := m.byE[e]; c != nil {
			return c
		}
		c := &Class{Name: e.GetName(), E: e, Abstract: true}
		m.byE[e] = c
		for it := e.GetESuperTypes().Iterator(); it.HasNext(); {
			c.Supers = append(c.Supers, build(it.Next().(ecore.EClass)))
		}
		if len(c.Supers) == 0 && c.Name != "EObject" {
			c.Supers = []*Class{build(ecore.GetPackage().GetEObject())}
		}
		m.Classes = append(m.Classes, c)
		return c
	}
	for it := ecore.GetPackage().GetEClassifiers().Iterator(); it.HasNext(); {
		if e, ok := it.Next().(ecore.EClass); ok {
			build(e)
		}
	}
	for _, c := range m.Classes {
		for _, n := range append(append([]string{}, ecoreFeatures[c.Name]...), more[c.Name]...) {
			var e ecore.EStructuralFeature
			for it := c.E.GetEStructuralFeatures().Iterator(); it.HasNext(); {
				if f := it.Next().(ecore.EStructuralFeature); f.GetName() == n {
					e = f
				}
			}
			if e == nil {
				panic("no feature " + n + " in " + c.Name)
			}
			f := &Feat{Name: n, Owner: c, E: e, Many: e.GetUpperBound() == -1, Unique: true, Upper: e.GetUpperBound(), Default: e.GetDefaultValueLiteral(), ReadOnly: !e.IsChangeable()}
			if r, ok := e.(ecore.EReference); ok {
				f.Cont, f.Resolve = r.IsContainment(), r.IsResolveProxies()
				f.Target = build(r.GetEType().(ecore.EClass))
			} else {
				if noAttrs {
					continue
				}
				f.Attr = true
				f.DT = e.GetEType().GetName()
			}
			byF[e] = f
			c.Feats = append(c.Feats, f)
			m.Feats = append(m.Feats, f)
		}
	}
	for _, f := range m.Feats {
		if r, ok := f.E.(ecore.EReference); ok && r.GetEOpposite() != nil {
			f.Opp = byF[r.GetEOpposite()]
		}
	}
	return m
}
