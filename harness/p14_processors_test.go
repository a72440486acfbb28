package harness

// The processors : one call saves or loads a document

import (
	"bytes"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

func TestP14_Processors(t *testing.T) {
	runProp(t, "at least 2 objects were saved and loaded by processors", 40, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{Pkgs: rapid.IntRange(1, 2).Draw(t, "pkgs"), DTs: allDTs, ManyDTs: allDTs, Maps: true, IDs: true})
		ext := pickOne(t, "format", []string{"xml", "ecore"})
		g := genGraph(t, m, graphOpts{Resources: 1, Roots: 1, MaxObjs: 8, Alpha: AlphaXML, Ext: ext})
		r := g.res[0]
		want := g.dump()
		c.Logf("%s%s", m, want)
		xmi := ext == "ecore"
		var rs ecore.EResourceSet
		if rapid.Bool().Draw(t, "resource set") {
			rs = newResourceSet(m)
		}
		type processor interface {
			GetResourceSet() ecore.EResourceSet
			Load(*ecore.URI) ecore.EResource
			Save(ecore.EResource)
			SaveObject(*ecore.URI, ecore.EObject) ecore.EResource
			SaveToString(ecore.EResource, map[string]any) string
		}
		var p processor
		var x *ecore.XMLProcessor
		var y *ecore.XMIProcessor
		switch {
		case xmi && rs != nil:
			y = ecore.NewXMIProcessor(ecore.XMIProcessorResourceSet(rs))
			p = y
		case xmi:
			y = ecore.NewXMIProcessor(ecore.XMIProcessorPackages(m.Pkgs))
			p = y
		case rs != nil:
			x = ecore.NewXMLProcessor(ecore.XMLProcessorResourceSet(rs))
			p = x
		default:
			x = ecore.NewXMLProcessor(ecore.XMLProcessorPackages(m.Pkgs))
			p = x
		}
		if got := p.GetResourceSet(); got == nil || rs != nil && got != rs {
			t.Fatalf("resource set %v of a processor made with %v", got, rs)
		}
		var options map[string]any
		if rapid.Bool().Draw(t, "options") {
			options = map[string]any{ecore.XML_OPTION_DEFERRED_REFERENCE_RESOLUTION: rapid.Bool().Draw(t, "deferredreferences"), ecore.XML_OPTION_DEFERRED_ROOT_ATTACHMENT: rapid.Bool().Draw(t, "deferredroots")}
		}
		before := len(options)
		text := p.SaveToString(r, options)
		if e := errorsOf(r); e != "" {
			t.Fatalf("saving: %s", e)
		}
		var b bytes.Buffer
		r.SaveWithWriter(&b, options)
		if text != b.String() {
			t.Fatalf("text of the processor\n%s\n---- text of the resource\n%s", text, b.String())
		}
		loaded := func(what string, l ecore.EResource, text string) {
			if l == nil {
				t.Fatalf("%s: no resource", what)
			}
			if e := errorsOf(l); e != "" || !l.IsLoaded() && !l.GetContents().Empty() {
				t.Fatalf("%s: %s, loaded %v\n%s", what, e, l.IsLoaded(), text)
			}
			if rs != nil && l.GetResourceSet() != rs {
				t.Fatalf("%s: the resource isn't in the resource set of the processor", what)
			}
			if got := (&dumper{m: m, rs: l.GetResourceSet()}).dump([]ecore.EResource{l}); got != want {
				t.Fatalf("%s: %s\n%s", what, diff(want, got), text)
			}
		}
		var l ecore.EResource
		if xmi {
			l = y.LoadWithReader(strings.NewReader(text), options)
		} else {
			l = x.LoadWithReader(strings.NewReader(text), options)
		}
		loaded("loaded from a reader", l, text)
		if rs != nil {
			rs.GetResources().Remove(l)
		}
		if len(options) != before {
			t.Fatalf("options were changed: %v", options)
		}
		if r.GetContents().Size() != 1 {
			c.Label("empty")
			return
		}
		// an object saved in a file, and the file loaded
		dir, err := os.MkdirTemp(filesDir, "p")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(dir)
		root := r.GetContents().Get(0).(ecore.EObject)
		uri := ecore.NewURI("file:" + filepath.Join(dir, "saved."+ext))
		s := p.SaveObject(uri, root)
		loaded("saved object", s, "")
		if root.EResource() != r || g.dump() != want {
			t.Fatalf("saving an object changed it: %s", diff(want, g.dump()))
		}
		data, err := os.ReadFile(uri.Path())
		if err != nil {
			t.Fatalf("saved object: %v", err)
		}
		if rs != nil {
			if got := rs.GetResource(uri, false); got != s {
				t.Fatalf("the resource of the saved object isn't in the resource set of the processor")
			}
			rs.GetResources().Remove(s)
		}
		l = p.Load(uri)
		loaded("loaded from a file", l, string(data))
		if rapid.Bool().Draw(t, "save again") {
			if err := os.Remove(uri.Path()); err != nil {
				t.Fatal(err)
			}
			p.Save(l)
			if again, err := os.ReadFile(uri.Path()); err != nil || !bytes.Equal(again, data) {
				t.Fatalf("saved again: %v\n%s\n---- instead of\n%s", err, again, data)
			}
		}
		if len(g.objs) >= 2 {
			c.Nontrivial()
		}
	})
}
