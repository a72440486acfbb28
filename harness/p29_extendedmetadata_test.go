package harness

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strings"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"golang.org/x/net/html/charset"
	"pgregory.net/rapid"
)

// declared gives a detail of the first annotation of extended metadata of an element
func declared(e ecore.EModelElement, key string) (string, bool) {
	for it := e.GetEAnnotations().Iterator(); it.HasNext(); {
		a := it.Next().(ecore.EAnnotation)
		if a.GetSource() != emdSource {
			continue
		}
		for i := 0; i < a.GetDetails().Size(); i++ {
			entry := a.GetDetails().Get(i).(ecore.EMapEntry)
			if entry.GetKey() == key {
				return entry.GetValue().(string), true
			}
		}
		return "", false
	}
	return "", false
}

func declaredName(e ecore.ENamedElement) string {
	if n, ok := declared(e, "name"); ok {
		return n
	}
	return e.GetName()
}

func declaredNamespace(f ecore.EStructuralFeature) string {
	n, _ := declared(f, "namespace")
	if n == "##targetNamespace" {
		n = ""
		if c, ok := f.EContainer().(ecore.EClass); ok {
			if p, ok := c.EContainer().(ecore.EPackage); ok {
				n = p.GetNsURI()
			}
		}
	}
	return n
}

// editMetadata makes one edit of names or annotations
func editMetadata(t *rapid.T, m *Model, names []string) string {
	var elems []ecore.ENamedElement
	for _, cl := range m.Classes {
		elems = append(elems, cl.E)
	}
	for _, f := range m.Feats {
		elems = append(elems, f.E)
	}
	e := pickOne(t, "element", elems)
	name := pickOne(t, "name", names)
	switch rapid.IntRange(0, 9).Draw(t, "edit") {
	case 0:
		e.SetName(name)
		return fmt.Sprintf("rename to %s", name)
	case 1, 2, 3:
		emdAnnotation(e, "name", name)
		return fmt.Sprintf("declare %s as %q", e.GetName(), name)
	case 4:
		n := pickOne(t, "namespace", []string{"##targetNamespace", "", "http://other", m.Pkgs[0].GetNsURI()})
		emdAnnotation(e, "namespace", n)
		return fmt.Sprintf("declare the namespace of %s as %q", e.GetName(), n)
	case 5:
		if a := e.GetEAnnotation(emdSource); a != nil {
			e.GetEAnnotations().Remove(a)
		}
		return "remove the annotation of " + e.GetName()
	case 6:
		if a := e.GetEAnnotation(emdSource); a != nil {
			k := pickOne(t, "detail", []string{"name", "namespace"})
			a.GetDetails().RemoveKey(k)
			return "remove " + k + " of " + e.GetName()
		}
	case 7:
		a := ecore.GetFactory().CreateEAnnotation()
		a.SetSource(pickOne(t, "source", []string{"http://verif/other", emdSource, ""}))
		a.GetDetails().Put(pickOne(t, "detail", []string{"name", "kind", "namespace"}), name)
		e.GetEAnnotations().Insert(rapid.IntRange(0, e.GetEAnnotations().Size()).Draw(t, "at"), a)
		return "add an annotation " + a.GetSource() + " to " + e.GetName()
	case 8:
		if e.GetEAnnotations().Size() > 0 {
			a := e.GetEAnnotations().Get(0).(ecore.EAnnotation)
			a.SetSource(pickOne(t, "source", []string{"http://verif/other", emdSource}))
			return "change the source of an annotation of " + e.GetName()
		}
	case 9:
		m.Pkgs[0].SetNsURI(m.Pkgs[0].GetNsURI() + "/v")
		return "change the namespace"
	}
	return ""
}

func checkMetadata(t *rapid.T, c *Rec, m *Model, names []string) {
	emd := ecore.NewExtendedMetaData()
	// in a random order, some of them several times
	var asked []func()
	for _, cl := range m.Classes {
		asked = append(asked, func() {
			if got, want := emd.GetName(cl.E), declaredName(cl.E); got != want {
				t.Fatalf("the name of %s is %q instead of %q", cl.Name, got, want)
			}
		}, func() {
			var prefix, schema ecore.EReference
			for it := cl.E.GetEAllReferences().Iterator(); it.HasNext(); {
				r := it.Next().(ecore.EReference)
				switch n := declaredName(r); {
				case n == "xmlns:prefix" && prefix == nil:
					prefix = r
				case n == "xsi:schemaLocation" && schema == nil:
					schema = r
				}
			}
			if got := emd.GetXMLNSPrefixMapFeature(cl.E); got != prefix {
				t.Fatalf("the prefixes of %s are in %v instead of %v", cl.Name, got, prefix)
			}
			if got := emd.GetXSISchemaLocationMapFeature(cl.E); got != schema {
				t.Fatalf("the schema locations of %s are in %v instead of %v", cl.Name, got, schema)
			}
			c.LabelIf(prefix != nil || schema != nil, "document feature")
		})
	}
	for _, f := range m.Feats {
		asked = append(asked, func() {
			if got, want := emd.GetName(f.E), declaredName(f.E); got != want {
				t.Fatalf("the name of %s is %q instead of %q", f.Name, got, want)
			}
		}, func() {
			if got, want := emd.GetNamespace(f.E), declaredNamespace(f.E); got != want {
				t.Fatalf("the namespace of %s is %q instead of %q", f.Name, got, want)
			}
		})
	}
	for _, p := range m.Pkgs {
		types := map[string][]ecore.EClassifier{}
		for it := p.GetEClassifiers().Iterator(); it.HasNext(); {
			cl := it.Next().(ecore.EClassifier)
			types[declaredName(cl)] = append(types[declaredName(cl)], cl)
		}
		all := append([]string{"", "unknown"}, names...)
		for n := range types {
			all = append(all, n)
		}
		sort.Strings(all)
		for _, n := range all {
			asked = append(asked, func() {
				got := emd.GetType(p, n)
				if len(types[n]) == 0 && got != nil || len(types[n]) == 1 && got != types[n][0] {
					t.Fatalf("the class %q of %s is %v instead of %v", n, p.GetName(), got, types[n])
				} else if len(types[n]) > 1 {
					c.Label("ambiguous")
					found := false
					for _, o := range types[n] {
						found = found || o == got
					}
					if !found {
						t.Fatalf("the class %q of %s is %v, not one of %v", n, p.GetName(), got, types[n])
					}
				}
			})
		}
		asked = append(asked, func() {
			var root []ecore.EClassifier
			for _, r := range types[""] {
				if _, ok := r.(ecore.EClass); !ok {
					return
				}
				root = append(root, r)
			}
			got := emd.GetDocumentRoot(p)
			if len(root) == 0 && got != nil || len(root) == 1 && got != root[0] {
				t.Fatalf("the document root of %s is %v instead of %v", p.GetName(), got, root)
			}
			c.LabelIf(len(root) == 1, "document root")
		})
	}
	for i := 0; i < 2; i++ {
		for _, k := range rapid.Permutation(indices(len(asked))).Draw(t, "order") {
			asked[k]()
		}
	}
}

func TestP29_Lookups(t *testing.T) {
	runProp(t, "a declared name, a declared namespace and at least three edits", 2500, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{Pkgs: 2, Dense: true, MaxClasses: 3, MaxFeats: 3, DTs: comparableDTs})
		names := []string{"", "xmlns:prefix", "xsi:schemaLocation", "a", "B", "mixed"}
		for _, cl := range m.Classes {
			names = append(names, cl.Name)
		}
		if len(m.Feats) > 0 {
			names = append(names, m.Feats[0].Name)
		}
		c.Logf("%s", m)
		edits := 0
		for n := rapid.IntRange(1, 5).Draw(t, "rounds"); n > 0; n-- {
			for k := rapid.IntRange(1, 4).Draw(t, "edits"); k > 0; k-- {
				if e := editMetadata(t, m, names); e != "" {
					c.Logf("%s", e)
					edits++
				}
			}
			checkMetadata(t, c, m, names)
		}
		name, space := false, false
		for _, f := range m.Feats {
			name = name || declaredName(f.E) != f.E.GetName()
			space = space || declaredNamespace(f.E) != ""
		}
		c.LabelIf(name, "feature name")
		c.LabelIf(space, "feature namespace")
		if edits >= 3 && name && space {
			c.Nontrivial()
		}
	})
}

// spaceNames are the names of attributes and child elements of each element of a document, in order
type spaceNode struct {
	name  string
	names []string
	kids  []*spaceNode
}

func parseSpaces(data []byte) (*spaceNode, error) {
	d := xml.NewDecoder(bytes.NewReader(data))
	d.CharsetReader = charset.NewReaderLabel
	top := &spaceNode{}
	stack := []*spaceNode{top}
	for {
		tok, err := d.Token()
		if err == io.EOF {
			return top, nil
		} else if err != nil {
			return nil, err
		}
		switch x := tok.(type) {
		case xml.StartElement:
			n := &spaceNode{name: x.Name.Space + " " + x.Name.Local}
			for _, a := range x.Attr {
				if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" || strings.HasSuffix(a.Name.Space, "XMLSchema-instance") || strings.HasSuffix(a.Name.Space, "/XMI") {
					continue
				}
				n.names = append(n.names, a.Name.Space+" "+a.Name.Local)
			}
			p := stack[len(stack)-1]
			p.names = append(p.names, n.name)
			p.kids = append(p.kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		}
	}
}

// checkNames compares the names of an element with the ones declared for the features of its object
func checkNames(t *rapid.T, o ecore.EObject, n *spaceNode, text []byte) {
	var want []string
	contained := map[string][]ecore.EObject{}
	for it := o.EClass().GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
		f := it.Next().(ecore.EStructuralFeature)
		if f.IsTransient() || !o.EIsSet(f) {
			continue
		}
		name := declaredNamespace(f) + " " + declaredName(f)
		r, isRef := f.(ecore.EReference)
		if isRef && !r.IsContainment() {
			continue
		}
		if f.IsMany() {
			for i := o.EGet(f).(ecore.EList).Iterator(); i.HasNext(); {
				v := i.Next()
				want = append(want, name)
				if k, ok := v.(ecore.EObject); ok && isRef {
					contained[name] = append(contained[name], k)
				}
			}
		} else {
			want = append(want, name)
			if k, ok := o.EGet(f).(ecore.EObject); ok && isRef && k != nil {
				contained[name] = append(contained[name], k)
			}
		}
	}
	got := append([]string{}, n.names...)
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fatalf("an object of %s is written with %q instead of %q\n%s", o.EClass().GetName(), got, want, text)
	}
	for _, k := range n.kids {
		if l := contained[k.name]; len(l) > 0 {
			contained[k.name] = l[1:]
			checkNames(t, l[0], k, text)
		}
	}
}

func TestP29_Documents(t *testing.T) {
	runProp(t, "a document of at least 3 objects uses a declared name and a declared namespace", 700, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{DTs: allDTs, Dense: true, MaxClasses: 4, ContBias: true, NoOpposites: true, Avoid: "href"})
		g := genGraph(t, m, graphOpts{Resources: 1, Roots: 1, MaxObjs: 10, Alpha: AlphaXML, NoRefs: true, Ext: "xml"})
		root := g.res[0].GetContents()
		if root.Size() != 1 {
			return
		}
		c.Logf("%s%s", m, g.dump())
		features, classes := map[string]bool{}, map[string]bool{}
		for _, f := range m.Feats {
			features[f.Name] = true
		}
		for _, cl := range m.Classes {
			classes[cl.Name] = true
		}
		for n := rapid.IntRange(1, 3).Draw(t, "rounds"); n > 0; n-- {
			// other names for some features and classes, one to one
			named, spaced := false, false
			for i, f := range m.Feats {
				if a := f.E.GetEAnnotation(emdSource); a != nil && rapid.Bool().Draw(t, "remove") {
					f.E.GetEAnnotations().Remove(a)
				}
				if oneIn(t, 2, "name") {
					emdAnnotation(f.E, "name", fmt.Sprintf("%s%d-%d", pickOne(t, "prefix", []string{"x", "elem.", "_"}), i, n))
				}
				if oneIn(t, 3, "namespace") {
					emdAnnotation(f.E, "namespace", pickOne(t, "space", []string{"##targetNamespace", "", f.Owner.E.GetEPackage().GetNsURI()}))
				}
				named = named || declaredName(f.E) != f.E.GetName()
				spaced = spaced || declaredNamespace(f.E) != ""
			}
			for i, cl := range m.Classes {
				if a := cl.E.GetEAnnotation(emdSource); a != nil && rapid.Bool().Draw(t, "remove") {
					cl.E.GetEAnnotations().Remove(a)
				}
				if oneIn(t, 2, "class name") {
					emdAnnotation(cl.E, "name", fmt.Sprintf("Class%d.%d", i, n))
				}
				_ = i
			}
			options := map[string]any{ecore.XML_OPTION_EXTENDED_META_DATA: ecore.NewExtendedMetaData()}
			text := g.save(options)[0]
			c.Logf("%s", text)
			doc, err := parseSpaces(text)
			if err != nil || len(doc.kids) != 1 {
				t.Fatalf("the document is not well formed: %v\n%s", err, text)
			}
			o := root.Get(0).(ecore.EObject)
			if want := o.EClass().GetEPackage().GetNsURI() + " " + declaredName(o.EClass()); doc.kids[0].name != want {
				t.Fatalf("the root is written as %q instead of %q\n%s", doc.kids[0].name, want, text)
			}
			checkNames(t, o, doc.kids[0], text)
			h := g.load([][]byte{text}, map[string]any{ecore.XML_OPTION_EXTENDED_META_DATA: ecore.NewExtendedMetaData()})
			a, b := (&dumper{m: m, rs: g.rs}).dump(g.res), (&dumper{m: m, rs: h.rs}).dump(h.res)
			if a != b {
				t.Fatalf("loaded model differs: %s\n---- original\n%s---- loaded\n%s\n%s", diff(a, b), a, b, text)
			}
			c.LabelIf(named, "name")
			c.LabelIf(spaced, "namespace")
			if named && spaced && len(g.objs) >= 3 {
				c.Nontrivial()
			}
		}
	})
}
