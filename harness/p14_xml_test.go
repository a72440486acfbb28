package harness

// P14 : XML and XMI formats

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"golang.org/x/net/html/charset"
	"pgregory.net/rapid"
)

const emdSource = "http:///org/eclipse/emf/ecore/util/ExtendedMetaData"

func emdAnnotation(e ecore.EModelElement, details ...string) {
	a := e.GetEAnnotation(emdSource)
	if a == nil {
		a = ecore.GetFactory().CreateEAnnotation()
		a.SetSource(emdSource)
		e.GetEAnnotations().Add(a)
	}
	for i := 0; i < len(details); i += 2 {
		a.GetDetails().Put(details[i], details[i+1])
	}
}

// emdNames gives to features and classes the names of others, as extended metadata
func emdNames(t *rapid.T, m *Model) {
	var names []string
	seen := map[string]bool{}
	for _, f := range m.Feats {
		if !f.Owner.Entry && !seen[f.Name] {
			seen[f.Name] = true
			names = append(names, f.Name)
		}
	}
	if len(names) > 0 {
		perm := rapid.Permutation(names).Draw(t, "emdnames")
		to := map[string]string{}
		for i, n := range names {
			to[n] = perm[i]
			if rapid.IntRange(0, 3).Draw(t, "emdnew") == 0 {
				to[n] = "x-" + perm[i] + ".y"
			}
		}
		for _, f := range m.Feats {
			if f.Owner.Entry {
				continue
			}
			if to[f.Name] != f.Name {
				emdAnnotation(f.E, "name", to[f.Name])
			}
			if f.Owner.E.GetEPackage().GetNsPrefix() != "" && oneIn(t, 4, "emdns") {
				emdAnnotation(f.E, "namespace", "##targetNamespace")
			}
		}
	}
	for i, p := range rapid.Permutation(indices(len(m.Classes))).Draw(t, "emdclasses") {
		if n := m.Classes[p].Ident(); n != m.Classes[i].Ident() && m.Classes[p].Pkg == m.Classes[i].Pkg {
			emdAnnotation(m.Classes[i].E, "name", n)
			emdAnnotation(m.Classes[p].E, "name", m.Classes[i].Ident())
			break
		}
	}
}

// xmlPrefixes gives prefixes to the packages
func xmlPrefixes(t *rapid.T, m *Model) {
	for _, p := range m.Pkgs {
		if rapid.Bool().Draw(t, "otherprefix") {
			p.SetNsPrefix(pickOne(t, "prefix", []string{"", "p", "p_1", "p0", "a.b-c"}))
		}
		if oneIn(t, 4, "oddnsuri") {
			p.SetNsURI(p.GetNsURI() + pickOne(t, "nsuri", []string{"?a&b", "/<x>", "'q'"}))
		}
	}
}

func wellFormed(data []byte) error {
	d := xml.NewDecoder(bytes.NewReader(data))
	d.CharsetReader = charset.NewReaderLabel
	for {
		if _, err := d.Token(); err == io.EOF {
			return nil
		} else if err != nil {
			return err
		}
	}
}

func checkXMLTexts(t *rapid.T, data [][]byte) {
	for _, b := range data {
		if err := wellFormed(b); err != nil {
			t.Fatalf("the text is not well formed: %v\n%s", err, b)
		}
	}
}

func TestP14_Resources(t *testing.T) {
	runProp(t, "at least 3 objects with attribute values and references were saved and loaded", 500, func(t *rapid.T, c *Rec) {
		idKind := rapid.IntRange(0, 4).Draw(t, "idmanager")
		o := graphOpts{Resources: 3, Roots: 1, MaxObjs: 14, CrossRefs: true, CrossOnlyResolving: true, Files: true, CrossCont: true, OddURIs: true, Alpha: AlphaXML}
		o.Ext = pickOne(t, "format", []string{"xml", "ecore"})
		m := genModel(t, ModelOpts{Pkgs: 3, DTs: allDTs, Maps: true, OddNames: true, Avoid: "href", ContBias: rapid.Bool().Draw(t, "contbias"), Dense: true, IDs: idKind == 4})
		xmlPrefixes(t, m)
		options := map[string]any{}
		if rapid.Bool().Draw(t, "emd") {
			c.Label("extendedMetaData")
			emdNames(t, m)
			options[ecore.XML_OPTION_EXTENDED_META_DATA] = ecore.NewExtendedMetaData()
		}
		if rapid.Bool().Draw(t, "deferredrefs") {
			options[ecore.XML_OPTION_DEFERRED_REFERENCE_RESOLUTION] = true
		}
		if rapid.Bool().Draw(t, "deferredroots") {
			options[ecore.XML_OPTION_DEFERRED_ROOT_ATTACHMENT] = true
		}
		if rapid.Bool().Draw(t, "suppress") {
			options[ecore.XML_OPTION_SUPPRESS_DOCUMENT_ROOT] = true
		}
		withIDs := false
		switch idKind {
		case 1:
			o.NewID, withIDs = func() ecore.EObjectIDManager { return ecore.NewIncrementalIDManager() }, true
		case 2:
			o.NewID, withIDs = func() ecore.EObjectIDManager { return ecore.NewUUIDManager() }, true
		case 3:
			o.NewID, withIDs = func() ecore.EObjectIDManager { return ecore.NewULIDManager() }, true
		}
		if withIDs {
			options[ecore.XML_OPTION_ID_ATTRIBUTE_NAME] = "_id"
		}
		g := genGraph(t, m, o)
		c.Logf("%s%v\n%s", m, options, g.dump())
		g.labels(c)
		if len(g.objs) >= 3 && g.attrs > 0 && g.refs > 0 {
			c.Nontrivial()
		}
		data := g.save(options)
		for _, b := range data {
			c.Logf("%s", b)
		}
		checkXMLTexts(t, data)
		if again := g.save(options); !equalData(data, again) {
			t.Fatalf("saving twice gives different texts")
		}
		h := g.load(data, options)
		if rapid.Bool().Draw(t, "saveloaded") {
			// what was loaded is saved and loaded again, before anything is resolved
			c.Label("savedAgain")
			h = g.load(h.save(options), options)
		}
		d1, d2 := &dumper{m: m, rs: g.rs}, &dumper{m: m, rs: h.rs}
		if withIDs {
			c.Label("identifiers")
			ids := func(o ecore.EObject) any {
				if r := o.EResource(); r != nil {
					return r.GetObjectIDManager().GetID(o)
				}
				return nil
			}
			d1.id, d2.id = ids, ids
		}
		a, b := d1.dump(g.res), d2.dump(h.res)
		if a != b {
			t.Fatalf("loaded model differs: %s\n---- original\n%s---- loaded\n%s---- metamodel\n%s---- text\n%s", diff(a, b), a, b, m, bytes.Join(data, []byte("\n")))
		}
		for i, r := range h.res {
			// everything is resolved now
			var w bytes.Buffer
			r.SaveWithWriter(&w, options)
			if e := errorsOf(r); e != "" || !bytes.Equal(w.Bytes(), data[i]) {
				t.Fatalf("saving the loaded model gives a different text %s\n---- first\n%s---- second\n%s", e, data[i], w.Bytes())
			}
		}
	})
}

func TestP14_Metamodels(t *testing.T) {
	runProp(t, "a generated metamodel (an instance of Ecore) was saved as XML or XMI and loaded, and instances of the loaded one were created", 300, func(t *rapid.T, c *Rec) {
		metamodelRoundTrip(t, c, pickOne(t, "format", []string{"xml", "ecore"}), nil)
	})
}

// rewriteXML writes an equivalent text : other prefixes, order of attributes, quotes, character references, CDATA sections,
// comments, white spaces, and values of attributes as elements
func rewriteXML(t *rapid.T, data []byte, asElement func(string) bool) []byte {
	d := xml.NewDecoder(bytes.NewReader(data))
	var tokens []xml.Token
	prefixes := map[string]string{}
	for {
		tok, err := d.RawToken()
		if err != nil {
			break
		}
		tokens = append(tokens, xml.CopyToken(tok))
		if e, ok := tok.(xml.StartElement); ok {
			for _, a := range e.Attr {
				if p := a.Name.Local; a.Name.Space == "xmlns" {
					prefixes[p] = p
					if rapid.Bool().Draw(t, "reprefix") {
						prefixes[p] = fmt.Sprintf("n%d", len(prefixes))
					}
				}
			}
		}
	}
	name := func(n xml.Name) string {
		if n.Space == "" {
			return n.Local
		}
		if n.Space == "xmlns" {
			return "xmlns:" + prefixes[n.Local]
		}
		return prefixes[n.Space] + ":" + n.Local
	}
	// an unprefixed qualified name stays as it is
	qname := func(s string) string {
		if i := strings.Index(s, ":"); i >= 0 {
			return prefixes[s[:i]] + s[i:]
		}
		return s
	}
	escape := func(s string, attribute bool) string {
		var b strings.Builder
		for _, r := range s {
			switch {
			case r == '<' || r == '&' || r == '"' || r == '\'' || r == '\r' || r == '>' || attribute && (r == '\n' || r == '\t'), oneIn(t, 20, "charref"):
				if rapid.Bool().Draw(t, "hex") {
					fmt.Fprintf(&b, "&#x%X;", r)
				} else {
					fmt.Fprintf(&b, "&#%d;", r)
				}
			default:
				b.WriteRune(r)
			}
		}
		return b.String()
	}
	space := func() string { return pickOne(t, "space", []string{" ", " ", "\n", "\t ", "\r\n"}) }
	var b strings.Builder
	var pending string
	texts := func(s string) {
		// in pieces
		rs := []rune(s)
		for len(rs) > 0 {
			n := len(rs)
			if oneIn(t, 3, "split") {
				n = rapid.IntRange(1, len(rs)).Draw(t, "piece")
			}
			piece := string(rs[:n])
			if oneIn(t, 4, "cdata") && !strings.Contains(piece, "]]>") && !strings.Contains(piece, "\r") {
				b.WriteString("<![CDATA[" + piece + "]]>")
			} else {
				b.WriteString(escape(piece, false))
			}
			rs = rs[n:]
			if len(rs) > 0 && oneIn(t, 2, "textcomment") {
				b.WriteString("<!-- > -->")
			}
		}
	}
	for i, tok := range tokens {
		switch tok := tok.(type) {
		case xml.ProcInst:
			if oneIn(t, 3, "noheader") {
				continue
			}
			b.WriteString("<?" + tok.Target + " " + string(tok.Inst) + "?>")
		case xml.StartElement:
			b.WriteString(pending)
			pending = ""
			b.WriteString("<" + name(tok.Name))
			type kid struct{ name, text string }
			var kids []kid
			for _, i := range rapid.Permutation(indices(len(tok.Attr))).Draw(t, "attributes") {
				a := tok.Attr[i]
				if a.Name.Space == "" && asElement(a.Name.Local) && rapid.Bool().Draw(t, "aselement") {
					kids = append(kids, kid{name(a.Name), a.Value})
					continue
				}
				v := a.Value
				if a.Name.Space == "xsi" && a.Name.Local == "type" {
					v = qname(v)
				}
				q := pickOne(t, "quote", []string{"\"", "'"})
				b.WriteString(space() + name(a.Name) + "=" + q + escape(v, true) + q)
			}
			b.WriteString(">")
			for _, k := range kids {
				b.WriteString("<" + k.name + ">")
				texts(k.text)
				b.WriteString("</" + k.name + ">")
			}
		case xml.EndElement:
			b.WriteString(pending)
			pending = ""
			b.WriteString("</" + name(tok.Name) + ">")
		case xml.CharData:
			if i+1 < len(tokens) && i > 0 {
				_, start := tokens[i-1].(xml.StartElement)
				if _, end := tokens[i+1].(xml.EndElement); start && end {
					texts(string(tok))
					continue
				}
			}
			// between elements
			if oneIn(t, 3, "between") {
				pending = pickOne(t, "filler", []string{"", "<!-- a <b> & c -->", "<?pi some text?>", "\n\n", "  "})
			} else {
				pending = string(tok)
			}
		}
	}
	b.WriteString(pending)
	return []byte(b.String())
}

func TestP14_EquivalentTexts(t *testing.T) {
	runProp(t, "at least 2 objects were saved, the texts were rewritten in an equivalent form (prefixes, order of attributes, CDATA, character references, comments, elements instead of attributes) and loaded", 500, func(t *rapid.T, c *Rec) {
		o := graphOpts{Resources: 2, Roots: 1, MaxObjs: 10, CrossRefs: true, CrossOnlyResolving: true, Files: true, CrossCont: true, Alpha: AlphaXML}
		o.Ext = pickOne(t, "format", []string{"xml", "ecore"})
		m := genModel(t, ModelOpts{Pkgs: 3, DTs: allDTs, Maps: true, OddNames: true, Avoid: "href", ContBias: true, Dense: true, IDs: rapid.Bool().Draw(t, "ids")})
		xmlPrefixes(t, m)
		g := genGraph(t, m, o)
		c.Logf("%s%s", m, g.dump())
		g.labels(c)
		if len(g.objs) >= 2 && g.attrs > 0 {
			c.Nontrivial()
		}
		data := g.save(nil)
		asElement := func(name string) bool {
			for _, f := range m.Feats {
				if f.Name == name {
					return f.Attr && !f.Many
				}
			}
			return false
		}
		var other [][]byte
		for _, b := range data {
			other = append(other, rewriteXML(t, b, asElement))
		}
		checkXMLTexts(t, other)
		c.Logf("%s", other[0])
		h := g.load(other, nil)
		d1, d2 := &dumper{m: m, rs: g.rs}, &dumper{m: m, rs: h.rs}
		a, b := d1.dump(g.res), d2.dump(h.res)
		if a != b {
			t.Fatalf("loaded model differs: %s\n---- original\n%s---- loaded\n%s---- metamodel\n%s---- text\n%s", diff(a, b), a, b, m, bytes.Join(other, []byte("\n")))
		}
	})
}

// withDocumentRoot adds a document root to the package of a class, with an element for some classes
func withDocumentRoot(t *rapid.T, m *Model) (root *Class, elements map[*Class]*Feat) {
	fac := ecore.GetFactory()
	p := m.Pkgs[0]
	root = &Class{Name: "DocumentRoot"}
	root.E = fac.CreateEClass()
	root.E.SetName(root.Name)
	emdAnnotation(root.E, "name", "", "kind", "mixed")
	elements = map[*Class]*Feat{}
	for i, c := range m.Classes {
		if c.Entry || c.Pkg != 0 || c.Abstract {
			continue
		}
		f := &Feat{Owner: root, Name: fmt.Sprintf("element%d", i), Unique: true, Upper: 1, Target: c, Cont: true}
		r := fac.CreateEReference()
		r.SetName(f.Name)
		r.SetEType(c.E)
		r.SetContainment(true)
		r.SetUpperBound(1)
		r.SetResolveProxies(false)
		f.E = r
		emdAnnotation(r, "namespace", "##targetNamespace", "kind", "element", "name", fmt.Sprintf("element-%d", i))
		root.E.GetEStructuralFeatures().Add(r)
		root.Feats = append(root.Feats, f)
		m.Feats = append(m.Feats, f)
		elements[c] = f
	}
	p.GetEClassifiers().Add(root.E)
	m.Classes = append(m.Classes, root)
	m.byE[root.E] = root
	return
}

func TestP14_DocumentRoots(t *testing.T) {
	runProp(t, "an object of a package with a document root was saved, with or without the document root, and loaded with or without its suppression", 500, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{DTs: allDTs, Maps: true, OddNames: true, Avoid: "href", ContBias: true, Dense: true, IDs: rapid.Bool().Draw(t, "ids")})
		if rapid.Bool().Draw(t, "emd") {
			emdNames(t, m)
		}
		g := genGraph(t, m, graphOpts{Resources: 1, Roots: 1, MaxObjs: 8, Alpha: AlphaXML, Ext: "xml"})
		root, elements := withDocumentRoot(t, m)
		top := g.res[0].GetContents().Get(0).(ecore.EObject)
		element := elements[m.byE[top.EClass()]]
		if element == nil {
			t.Fatalf("no element for the root")
		}
		inRoot := rapid.Bool().Draw(t, "saveroot")
		suppress := rapid.Bool().Draw(t, "suppress")
		wrap := func(o ecore.EObject) {
			x := m.New(root)
			x.ESet(element.E, o)
			g.res[0].GetContents().Add(x)
		}
		if inRoot {
			wrap(top)
		}
		c.Logf("%s%s", m, g.dump())
		c.LabelIf(inRoot, "saved with document root")
		c.LabelIf(suppress, "loaded without document root")
		if len(g.objs) > 1 {
			c.Nontrivial()
		}
		options := map[string]any{ecore.XML_OPTION_SUPPRESS_DOCUMENT_ROOT: suppress, ecore.XML_OPTION_DEFERRED_ROOT_ATTACHMENT: rapid.Bool().Draw(t, "deferredroots")}
		data := g.save(options)
		checkXMLTexts(t, data)
		c.Logf("%s", data[0])
		if g.refs > 0 && inRoot == suppress {
			// addresses of objects depend on the presence of the document root
			c.Label("skipped")
			return
		}
		h := g.load(data, options)
		if inRoot && suppress {
			g.res[0].GetContents().Add(top)
			g.res[0].GetContents().RemoveAt(0)
		} else if !inRoot && !suppress {
			wrap(top)
		}
		d1, d2 := &dumper{m: m, rs: g.rs}, &dumper{m: m, rs: h.rs}
		a, b := d1.dump(g.res), d2.dump(h.res)
		if a != b {
			t.Fatalf("loaded model differs: %s\n---- original\n%s---- loaded\n%s---- metamodel\n%s---- text\n%s", diff(a, b), a, b, m, data[0])
		}
		if inRoot != suppress {
			again := h.save(options)
			if !equalData(data, again) {
				t.Fatalf("saving the loaded model gives a different text\n---- first\n%s---- second\n%s", data[0], again[0])
			}
		}
	})
}

func TestP14_Objects(t *testing.T) {
	runProp(t, "one tree out of several was saved with the root objects option or encoded alone, then loaded or decoded", 500, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{Pkgs: 2, DTs: allDTs, Maps: true, OddNames: true, Avoid: "href", ContBias: true, Dense: true})
		g := genGraph(t, m, graphOpts{Resources: 1, Roots: 3, MaxObjs: 10, NoRefs: true, Alpha: AlphaXML, Ext: "xml"})
		if len(g.objs) == 0 {
			c.Label("skipped")
			return
		}
		top := pickOne(t, "root", g.objs)
		r := g.res[0]
		options := map[string]any{ecore.XML_OPTION_DEFERRED_ROOT_ATTACHMENT: rapid.Bool().Draw(t, "deferredroots")}
		var b bytes.Buffer
		alone := rapid.Bool().Draw(t, "alone")
		if alone {
			if err := ecore.NewXMLEncoder(r, &b, options).EncodeObject(top); err != nil {
				t.Fatalf("encoding: %v", err)
			}
		} else {
			options[ecore.XML_OPTION_ROOT_OBJECTS] = ecore.NewImmutableEList([]any{top})
			r.SaveWithWriter(&b, options)
			if e := errorsOf(r); e != "" {
				t.Fatalf("saving: %s", e)
			}
		}
		c.Logf("%s%s\n%s", m, g.dump(), b.String())
		checkXMLTexts(t, [][]byte{b.Bytes()})
		r2 := newResourceSet(m).CreateResource(r.GetURI())
		var got ecore.EObject
		if rapid.Bool().Draw(t, "decodealone") {
			o, err := ecore.NewXMLDecoder(r2, bytes.NewReader(b.Bytes()), options).DecodeObject()
			if err != nil || o == nil {
				t.Fatalf("decoding: %v %v", o, err)
			}
			if !r2.GetContents().Empty() {
				t.Fatalf("decoding an object put it in the resource")
			}
			got = o
		} else {
			r2.LoadWithReader(bytes.NewReader(b.Bytes()), options)
			if e := errorsOf(r2); e != "" || r2.GetContents().Size() != 1 {
				t.Fatalf("loading: %s", e)
			}
			got = r2.GetContents().Get(0).(ecore.EObject)
		}
		tree := func(o ecore.EObject) string {
			d := &dumper{m: m, rs: g.rs, path: map[ecore.EObject]string{}}
			d.name(o, "x", nil)
			return d.text()
		}
		x, y := tree(top), tree(got)
		if x != y {
			t.Fatalf("decoded object differs: %s\n---- original\n%s---- decoded\n%s---- metamodel\n%s", diff(x, y), x, y, m)
		}
		if strings.Count(x, "\n") > 2 {
			c.Nontrivial()
		}
	})
}

func TestP14_AbsentValues(t *testing.T) {
	runProp(t, "lists of values with absent ones, absent values of unsettable features and defaults were saved and loaded", 300, func(t *rapid.T, c *Rec) {
		fac := ecore.GetFactory()
		p := fac.CreateEPackage()
		p.SetName("p")
		p.SetNsPrefix(pickOne(t, "prefix", []string{"p", ""}))
		p.SetNsURI("http://verif/absent")
		k := fac.CreateEClass()
		k.SetName("K")
		p.GetEClassifiers().Add(k)
		texts := fac.CreateEAttribute()
		texts.SetName("texts")
		texts.SetEType(ecore.GetPackage().GetEString())
		texts.SetUpperBound(-1)
		texts.SetUnique(false)
		text := fac.CreateEAttribute()
		text.SetName("text")
		text.SetEType(ecore.GetPackage().GetEString())
		text.SetUnsettable(true)
		if rapid.Bool().Draw(t, "default") {
			text.SetDefaultValueLiteral("some text")
		}
		child := fac.CreateEReference()
		child.SetName("child")
		child.SetEType(k)
		child.SetContainment(true)
		child.SetUnsettable(true)
		other := fac.CreateEReference()
		other.SetName("other")
		other.SetEType(k)
		other.SetUnsettable(true)
		for _, f := range []ecore.EStructuralFeature{texts, text, child, other} {
			k.GetEStructuralFeatures().Add(f)
		}
		var build func(depth int) ecore.EObject
		build = func(depth int) ecore.EObject {
			x := p.GetEFactoryInstance().Create(k)
			l := x.EGet(texts).(ecore.EList)
			for n := rapid.IntRange(0, 3).Draw(t, "n"); n > 0; n-- {
				if oneIn(t, 3, "absent") {
					l.Add(nil)
					c.Nontrivial()
				} else {
					l.Add(genText(t, AlphaXML))
				}
			}
			switch rapid.IntRange(0, 2).Draw(t, "text") {
			case 0:
				x.ESet(text, nil)
				c.Nontrivial()
			case 1:
				x.ESet(text, genText(t, AlphaXML))
			}
			switch rapid.IntRange(0, 2).Draw(t, "child") {
			case 0:
				x.ESet(child, nil)
			case 1:
				if depth > 0 {
					x.ESet(child, build(depth-1))
				}
			}
			switch rapid.IntRange(0, 2).Draw(t, "other") {
			case 0:
				x.ESet(other, nil)
			case 1:
				x.ESet(other, x)
			}
			return x
		}
		rs := ecore.CreateEResourceSet([]ecore.EPackage{p})
		ext := pickOne(t, "format", []string{"xml", "ecore"})
		r := rs.CreateResource(ecore.NewURI("mem:/a." + ext))
		r.GetContents().Add(build(3))
		var b bytes.Buffer
		r.SaveWithWriter(&b, nil)
		c.Logf("%s", b.String())
		checkXMLTexts(t, [][]byte{b.Bytes()})
		r2 := ecore.CreateEResourceSet([]ecore.EPackage{p}).CreateResource(r.GetURI())
		r2.LoadWithReader(bytes.NewReader(b.Bytes()), nil)
		if e := errorsOf(r) + errorsOf(r2); e != "" {
			t.Fatalf("errors: %s\n%s", e, b.String())
		}
		var same func(path string, x, y ecore.EObject)
		same = func(path string, x, y ecore.EObject) {
			for _, f := range []ecore.EStructuralFeature{text, child, other} {
				if x.EIsSet(f) != y.EIsSet(f) || (x.EGet(f) == nil) != (y.EGet(f) == nil) {
					t.Fatalf("%s.%s: original %v (set %v), loaded %v (set %v)\n%s", path, f.GetName(), x.EGet(f), x.EIsSet(f), y.EGet(f), y.EIsSet(f), b.String())
				}
			}
			if x.EGet(text) != y.EGet(text) {
				t.Fatalf("%s.text: original %v, loaded %v\n%s", path, x.EGet(text), y.EGet(text), b.String())
			}
			lx, ly := x.EGet(texts).(ecore.EList).ToArray(), y.EGet(texts).(ecore.EList).ToArray()
			if fmt.Sprintf("%#v", lx) != fmt.Sprintf("%#v", ly) {
				t.Fatalf("%s.texts: original %#v, loaded %#v\n%s", path, lx, ly, b.String())
			}
			if o, _ := y.EGet(other).(ecore.EObject); o != nil && o != y {
				t.Fatalf("%s.other: loaded reference is to another object\n%s", path, b.String())
			}
			if cx, _ := x.EGet(child).(ecore.EObject); cx != nil {
				same(path+".child", cx, y.EGet(child).(ecore.EObject))
			}
		}
		same("x", r.GetContents().Get(0).(ecore.EObject), r2.GetContents().Get(0).(ecore.EObject))
	})
}
