package harness

// P19 : malformed XML input

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// xmlNode is an element, or a text if its name is empty
type xmlNode struct {
	name, text string
	attrs      [][2]string
	kids       []*xmlNode
}

func rawName(n xml.Name) string {
	if n.Space == "" {
		return n.Local
	}
	return n.Space + ":" + n.Local
}

// parseTree reads a valid document ; all gives its elements
func parseTree(data []byte) (root *xmlNode, all []*xmlNode) {
	d := xml.NewDecoder(bytes.NewReader(data))
	root = &xmlNode{}
	stack := []*xmlNode{root}
	for {
		tok, err := d.RawToken()
		if err != nil {
			break
		}
		top := stack[len(stack)-1]
		switch tok := tok.(type) {
		case xml.StartElement:
			n := &xmlNode{name: rawName(tok.Name)}
			for _, a := range tok.Attr {
				n.attrs = append(n.attrs, [2]string{rawName(a.Name), a.Value})
			}
			top.kids = append(top.kids, n)
			stack = append(stack, n)
			all = append(all, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 1 {
				top.kids = append(top.kids, &xmlNode{text: string(tok)})
			}
		}
	}
	return root.kids[0], all
}

var xmlEscaper = strings.NewReplacer("<", "&lt;", "&", "&amp;", "\"", "&quot;", "\r", "&#13;", "\n", "&#10;", "\t", "&#9;")

func (n *xmlNode) write(b *strings.Builder) {
	if n.name == "" {
		b.WriteString(strings.NewReplacer("<", "&lt;", "&", "&amp;", ">", "&gt;", "\r", "&#13;").Replace(n.text))
		return
	}
	b.WriteString("<" + n.name)
	for _, a := range n.attrs {
		b.WriteString(" " + a[0] + "=\"" + xmlEscaper.Replace(a[1]) + "\"")
	}
	b.WriteString(">")
	for _, k := range n.kids {
		k.write(b)
	}
	b.WriteString("</" + n.name + ">")
}

func (n *xmlNode) String() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

func (n *xmlNode) clone() *xmlNode {
	c := &xmlNode{name: n.name, text: n.text, attrs: append([][2]string{}, n.attrs...)}
	for _, k := range n.kids {
		c.kids = append(c.kids, k.clone())
	}
	return c
}

// corruptXML changes some elements, some tokens or some bytes of a document
func corruptXML(t *rapid.T, data []byte, words []string) ([]byte, string) {
	what := ""
	if rapid.Bool().Draw(t, "tree") {
		root, _ := parseTree(data)
		for n := rapid.IntRange(1, 3).Draw(t, "ncorruptions"); n > 0; n-- {
			_, all := parseTree([]byte(root.String()))
			_ = all
			var nodes []*xmlNode
			var walk func(x *xmlNode)
			walk = func(x *xmlNode) {
				if x.name != "" {
					nodes = append(nodes, x)
				}
				for _, k := range x.kids {
					walk(k)
				}
			}
			walk(root)
			x := pickOne(t, "element", nodes)
			word := func() string {
				if rapid.Bool().Draw(t, "known") {
					// a value found elsewhere
					y := pickOne(t, "other", nodes)
					if len(y.attrs) > 0 {
						return pickOne(t, "attribute", y.attrs)[1]
					}
				}
				return pickOne(t, "word", words)
			}
			name := func() string {
				s := pickOne(t, "name", []string{"href", "xsi:type", "xsi:nil", "_id", "xmi:type", "xmlns", "p0:K"})
				if rapid.Bool().Draw(t, "known") {
					s = pickOne(t, "word", words)
				}
				if s == "" || strings.ContainsAny(s, " /%<&#?") || s == ":" {
					return "z"
				}
				return s
			}
			switch op := rapid.IntRange(0, 8).Draw(t, "op"); op {
			case 0:
				x.name = name()
				what += " element named " + x.name
			case 1, 2:
				a := [2]string{name(), word()}
				dup := false
				for i := range x.attrs {
					if x.attrs[i][0] == a[0] {
						x.attrs[i], dup = a, true
					}
				}
				if !dup {
					x.attrs = append(x.attrs, a)
				}
				what += fmt.Sprintf(" attribute %v", a)
			case 3:
				if len(x.attrs) > 0 {
					i := rapid.IntRange(0, len(x.attrs)-1).Draw(t, "attr")
					x.attrs[i][1] = word()
					what += fmt.Sprintf(" attribute %v", x.attrs[i])
				}
			case 4:
				if len(x.attrs) > 0 {
					i := rapid.IntRange(0, len(x.attrs)-1).Draw(t, "attr")
					what += fmt.Sprintf(" without attribute %v", x.attrs[i])
					x.attrs = append(x.attrs[:i:i], x.attrs[i+1:]...)
				}
			case 5:
				y := pickOne(t, "other", nodes)
				k := y.clone()
				x.kids = append(x.kids, k)
				what += " element " + k.name + " copied in " + x.name
			case 6:
				if len(x.kids) > 0 {
					i := rapid.IntRange(0, len(x.kids)-1).Draw(t, "kid")
					x.kids = append(x.kids[:i:i], x.kids[i+1:]...)
					what += " without a child of " + x.name
				}
			case 7:
				x.kids = append(x.kids, &xmlNode{text: word()})
				what += " text in " + x.name
			case 8:
				k := &xmlNode{name: name()}
				if rapid.Bool().Draw(t, "typed") {
					k.attrs = append(k.attrs, [2]string{"xsi:type", word()})
				}
				x.kids = append([]*xmlNode{k}, x.kids...)
				what += " element " + k.name + " in " + x.name
			}
		}
		return []byte(root.String()), what
	}
	b := append([]byte{}, data...)
	for n := rapid.IntRange(1, 3).Draw(t, "ncorruptions"); n > 0 && len(b) > 0; n-- {
		i := rapid.IntRange(0, len(b)-1).Draw(t, "pos")
		switch rapid.IntRange(0, 5).Draw(t, "byteop") {
		case 0:
			b[i] = pickOne(t, "char", []byte("<>&\"'/:=# ?!-[]\x00\xff;x0"))
			what += fmt.Sprintf(" byte %d", i)
		case 1:
			b[i] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			what += fmt.Sprintf(" bit of %d", i)
		case 2:
			b = append(b[:i:i], b[i+1:]...)
			what += fmt.Sprintf(" without byte %d", i)
		case 3:
			s := pickOne(t, "insert", []string{"<", ">", "&", "\"", "<!--", "-->", "<![CDATA[", "]]>", "<?xml version=\"1.0\" encoding=\"latin1\"?>", "<!DOCTYPE a [<!ENTITY b \"c\">]>", "&b;", "&#0;", "&#x110000;", "</", "/>", "xmlns:p=\"\"", "\xc3\x28", "\xef\xbb\xbf"})
			b = append(append(append([]byte{}, b[:i]...), s...), b[i:]...)
			what += fmt.Sprintf(" %q at %d", s, i)
		case 4:
			j := rapid.IntRange(i, min(len(b), i+40)).Draw(t, "end")
			b = append(b[:i:i], b[j:]...)
			what += fmt.Sprintf(" without %d to %d", i, j)
		case 5:
			j := rapid.IntRange(i, min(len(b), i+60)).Draw(t, "end")
			k := rapid.IntRange(0, len(b)).Draw(t, "at")
			part := append([]byte{}, b[i:j]...)
			b = append(append(append([]byte{}, b[:k]...), part...), b[k:]...)
			what += fmt.Sprintf(" %d to %d copied at %d", i, j, k)
		}
	}
	return b, what
}

// the value of an empty text of type EByte or EChar isn't a byte : the unit tests require it
var p19DTs = slices.DeleteFunc(slices.Clone(allDTs), func(s string) bool { return s == "EByte" || s == "EByteObj" || s == "EChar" || s == "ECharObj" })

func p19Options(t *rapid.T, o *graphOpts) map[string]any {
	options := map[string]any{
		ecore.XML_OPTION_DEFERRED_REFERENCE_RESOLUTION: rapid.Bool().Draw(t, "deferredrefs"),
		ecore.XML_OPTION_DEFERRED_ROOT_ATTACHMENT:      rapid.Bool().Draw(t, "deferredroots"),
		ecore.XML_OPTION_SUPPRESS_DOCUMENT_ROOT:        rapid.Bool().Draw(t, "suppress"),
	}
	switch rapid.IntRange(0, 5).Draw(t, "idmanager") {
	case 1:
		o.NewID = func() ecore.EObjectIDManager { return ecore.NewIncrementalIDManager() }
	case 2:
		o.NewID = func() ecore.EObjectIDManager { return ecore.NewUUIDManager() }
	case 3:
		o.NewID = func() ecore.EObjectIDManager { return ecore.NewULIDManager() }
	case 4:
		o.NewID = func() ecore.EObjectIDManager { return ecore.NewEObjectIDManagerImpl() }
	}
	if o.NewID != nil {
		options[ecore.XML_OPTION_ID_ATTRIBUTE_NAME] = "_id"
	}
	return options
}

func TestP19_Corrupt(t *testing.T) {
	runProp(t, "a valid XML or XMI document with at least 2 objects was corrupted (elements, attributes, tokens or bytes)", 2000, func(t *rapid.T, c *Rec) {
		o := graphOpts{Resources: 2, Roots: 1, MaxObjs: 8, CrossRefs: true, CrossOnlyResolving: true, CrossCont: true, Alpha: AlphaXML}
		ext := pickOne(t, "format", []string{"xml", "ecore"})
		o.Ext = ext
		options := p19Options(t, &o)
		k := genDocument(t, c, ext, options, o, ModelOpts{Pkgs: 2, DTs: p19DTs, Maps: true, Dense: true, IDs: rapid.Bool().Draw(t, "ids"), ContBias: rapid.Bool().Draw(t, "contbias"), MaxClasses: 4})
		if len(k.g.objs) >= 2 || k.m.Static {
			c.Nontrivial()
		}
		doc, what := corruptXML(t, k.data[0], wordsOf(k.m))
		c.Logf("%s%s\n%s\n%s", k.m, k.data[0], what, doc)
		r, ok := k.load(t, doc, options, what)
		c.LabelIf(ok, "accepted")
		c.LabelIf(!ok, "rejected")
		if p := try(func() { usable(r) }); p != nil {
			t.Fatalf("the loaded model is not usable: %v\n%s\n%s%s", p, what, k.m, doc)
		}
		if err := wellFormed(doc); err != nil && ok {
			t.Fatalf("a text which is not well formed is accepted: %v\n%s\n%s", err, what, doc)
		}
		if !ok {
			return
		}
		var b bytes.Buffer
		if p := try(func() { r.SaveWithWriter(&b, options) }); p != nil {
			t.Fatalf("the loaded model can't be saved: %v\n%s\n%s%s", p, what, k.m, doc)
		}
	})
}

func TestP19_Truncated(t *testing.T) {
	runProp(t, "every strict prefix of a valid document of at least 100 bytes was loaded", 150, func(t *rapid.T, c *Rec) {
		o := graphOpts{Resources: 1, Roots: 1, MaxObjs: 5, Alpha: AlphaXML}
		o.Ext = pickOne(t, "format", []string{"xml", "ecore"})
		options := p19Options(t, &o)
		k := genDocument(t, c, o.Ext, options, o, ModelOpts{DTs: p19DTs, Maps: true, Dense: true, MaxClasses: 3, MaxFeats: 3})
		doc := bytes.TrimRight(k.data[0], "\n")
		if len(doc) >= 100 {
			c.Nontrivial()
		}
		c.Logf("%s", doc)
		step := 1 + len(doc)/300
		for n := rapid.IntRange(1, step).Draw(t, "start"); n < len(doc); n += step {
			what := fmt.Sprintf("%d bytes of %d", n, len(doc))
			r, ok := k.load(t, doc[:n], options, what)
			if ok {
				t.Fatalf("a truncated document is accepted: %s\n%s", what, doc[:n])
			}
			if p := try(func() { usable(r) }); p != nil {
				t.Fatalf("the loaded model is not usable: %v\n%s\n%s%s", p, what, k.m, doc)
			}
			if strings.TrimSpace(errorsOf(r)) == "" {
				t.Fatalf("a truncated document gives an empty error: %s", what)
			}
		}
		if _, ok := k.load(t, doc, options, "whole"); !ok {
			t.Fatalf("the whole document is rejected")
		}
	})
}

// makeInvalid changes a document such that it has to be rejected
func makeInvalid(t *rapid.T, k *corruptCase) (string, string) {
	root, all := parseTree(k.data[0])
	plain := func(a [2]string) bool { return !strings.Contains(a[0], ":") && a[0] != "xmlns" }
	rename := func(x *xmlNode, name string) string {
		old := x.name
		x.name = name
		if i := strings.Index(old, ":"); i >= 0 && !strings.Contains(name, ":") {
			x.name = old[:i+1] + name
		}
		return old + " renamed " + x.name
	}
	x := pickOne(t, "element", all)
	text := func() string { return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" + root.String() }
	switch op := rapid.IntRange(0, 8).Draw(t, "op"); op {
	case 0:
		// an unknown class or feature
		what := rename(x, "Unknown")
		return text(), what
	case 1:
		unknown := "unknown"
		if oneIn(t, 3, "in a namespace") {
			unknown = "zz:unknown"
			ns := []string{"http://unknown"}
			for _, a := range root.attrs {
				if strings.HasPrefix(a[0], "xmlns") && !strings.HasSuffix(a[1], "XMLSchema-instance") {
					ns = append(ns, a[1])
				}
			}
			root.attrs = append(root.attrs, [2]string{"xmlns:zz", pickOne(t, "namespace", ns)})
		}
		for i, a := range x.attrs {
			if plain(a) && a[0] != "href" && a[0] != "_id" {
				x.attrs[i][0] = unknown
				what := "attribute " + a[0] + " renamed"
				return text(), what
			}
		}
		if isData(k.m, x) {
			return "", ""
		}
		x.attrs = append(x.attrs, [2]string{unknown, "v"})
		return text(), "new attribute " + unknown
	case 2:
		for i, a := range x.attrs {
			if a[0] == "xsi:type" {
				x.attrs[i][1] = pickOne(t, "type", []string{a[1] + "x", "unknown:" + a[1], "Unknown"})
				return text(), "unknown type " + x.attrs[i][1]
			}
		}
		return "", ""
	case 3:
		// an unknown package
		used := ""
		if i := strings.Index(root.name, ":"); i >= 0 {
			used = ":" + root.name[:i]
		}
		for i, a := range root.attrs {
			if a[0] == "xmlns"+used {
				root.attrs[i][1] += "/unknown"
				return text(), "unknown package"
			}
		}
	case 4:
		s := text()
		i := strings.LastIndex(s, "</")
		if rapid.Bool().Draw(t, "other") {
			i = strings.Index(s, "</")
		}
		j := i + strings.Index(s[i:], ">") + 1
		return s[:i] + s[j:], "without an end tag"
	case 5:
		return text() + pickOne(t, "after", []string{"text", "<again/>", "</" + root.name + ">", root.String(), "&amp;", "<", "<![CDATA[x]]>"}), "something after the root element"
	case 6:
		return pickOne(t, "before", []string{"text", "&lt;", "</a>", "<"}) + root.String(), "something before the root element"
	case 7:
		// an attribute twice
		if len(x.attrs) == 0 {
			x.attrs = append(x.attrs, [2]string{"z", "1"})
		}
		x.attrs = append(x.attrs, x.attrs[0])
		return text(), "attribute " + x.attrs[0][0] + " twice"
	case 8:
		x.kids = append(x.kids, &xmlNode{name: "unknown"})
		return text(), "new element unknown in " + x.name
	}
	return "", ""
}

// isData tells if an element is the value of an attribute
func isData(m *Model, x *xmlNode) bool {
	for _, f := range m.Feats {
		if f.Name == x.name && f.Attr {
			return true
		}
	}
	return false
}

func TestP19_Invalid(t *testing.T) {
	runProp(t, "a valid document was made invalid : an unknown class, feature or package, a missing tag, something out of the root, an attribute twice", 1500, func(t *rapid.T, c *Rec) {
		o := graphOpts{Resources: 1, Roots: 1, MaxObjs: 6, Alpha: AlphaXML}
		o.Ext = pickOne(t, "format", []string{"xml", "ecore"})
		options := p19Options(t, &o)
		k := genDocument(t, c, o.Ext, options, o, ModelOpts{Pkgs: 2, DTs: p19DTs, Maps: true, Dense: true, ContBias: true, MaxClasses: 4})
		doc, what := makeInvalid(t, k)
		if doc == "" {
			return
		}
		c.Nontrivial()
		c.Logf("%s\n%s", what, doc)
		r, ok := k.load(t, []byte(doc), options, what)
		if ok {
			t.Fatalf("an invalid document is accepted: %s\n%s%s", what, k.m, doc)
		}
		if p := try(func() { usable(r) }); p != nil {
			t.Fatalf("the loaded model is not usable: %v\n%s\n%s%s", p, what, k.m, doc)
		}
		if strings.TrimSpace(errorsOf(r)) == "" {
			t.Fatalf("an invalid document gives an empty error: %s\n%s", what, doc)
		}
	})
}

func TestP19_Arbitrary(t *testing.T) {
	runProp(t, "arbitrary text, or an arbitrary tree of elements with names of the metamodel, was decoded as a resource or as an object", 2000, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{DTs: p19DTs, Maps: true, Dense: true, ContBias: true, MaxClasses: 3, IDs: rapid.Bool().Draw(t, "ids")})
		o := graphOpts{Ext: pickOne(t, "format", []string{"xml", "ecore"})}
		options := p19Options(t, &o)
		rs := newResourceSet(m)
		r := rs.CreateResource(ecore.NewURI("mem:/r0." + o.Ext))
		if o.NewID != nil {
			r.SetObjectIDManager(o.NewID())
		}
		var doc string
		if oneIn(t, 5, "arbitrary") {
			doc = string(rapid.SliceOfN(rapid.SampledFrom([]byte("<<<>>/\"'=&;#!-[]?:ab \n\x00\xff0")), 0, 60).Draw(t, "bytes"))
		} else {
			c.Nontrivial()
			names := []string{"href", "xsi:type", "xsi:nil", "_id", "xmi:type", "xmi:version", "p0:x", "key", "value", "a"}
			values := []string{"true", "#/", "#//@f1", "#//", "r0." + o.Ext + "#/", "p0:C0 #/", "p0:C1 r1.xml#/", "1", "", "#", "%zz#", "#//@f0.1 #/ x", "p0:C0", "p0:Entry0"}
			for _, k := range m.Classes {
				names = append(names, "p0:"+k.Ident(), k.Ident())
				values = append(values, "p0:"+k.Ident())
			}
			for _, f := range m.Feats {
				names = append(names, f.Name, f.Name)
			}
			var node func(depth int) *xmlNode
			node = func(depth int) *xmlNode {
				x := &xmlNode{name: pickOne(t, "name", names)}
				used := map[string]bool{}
				for n := rapid.IntRange(0, 3).Draw(t, "nattrs"); n > 0; n-- {
					if a := pickOne(t, "attr", names); !used[a] {
						used[a] = true
						x.attrs = append(x.attrs, [2]string{a, pickOne(t, "value", values)})
					}
				}
				if depth > 0 {
					for n := rapid.IntRange(0, 3).Draw(t, "nkids"); n > 0; n-- {
						if oneIn(t, 5, "text") {
							x.kids = append(x.kids, &xmlNode{text: pickOne(t, "value", values)})
						} else {
							x.kids = append(x.kids, node(depth-1))
						}
					}
				}
				return x
			}
			x := node(4)
			x.name = "p0:" + pickOne(t, "class", m.Classes).Ident()
			x.attrs = append(x.attrs, [2]string{"xmlns:p0", m.Pkgs[0].GetNsURI()}, [2]string{"xmlns:xsi", "http://www.w3.org/2001/XMLSchema-instance"}, [2]string{"xmlns:xmi", "http://www.omg.org/XMI"})
			doc = x.String()
		}
		c.Logf("%s%s", m, doc)
		if rapid.Bool().Draw(t, "object") {
			if p := try(func() {
				dec := ecore.NewXMLDecoder(r, strings.NewReader(doc), options)
				_, err := dec.DecodeObject()
				c.LabelIf(err == nil, "accepted")
			}); p != nil {
				t.Fatalf("decoding panics: %v\n%s%s", p, m, doc)
			}
			return
		}
		if p := try(func() { r.LoadWithReader(strings.NewReader(doc), options) }); p != nil {
			t.Fatalf("decoding panics: %v\n%s%s", p, m, doc)
		}
		c.LabelIf(r.GetErrors().Empty(), "accepted")
		if p := try(func() { usable(r) }); p != nil {
			t.Fatalf("the loaded model is not usable: %v\n%s%s", p, m, doc)
		}
	})
}
