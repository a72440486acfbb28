package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

var errInjected = errors.New("injected failure")

// failWriter fails once limit bytes are written
type failWriter struct {
	data    []byte
	limit   int
	partial bool // writes what it can before it fails
	once    bool // fails only once
	failed  bool
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.failed && w.once || len(w.data)+len(p) <= w.limit && !w.failed {
		w.data = append(w.data, p...)
		return len(p), nil
	}
	n := 0
	if w.partial && !w.failed {
		n = max(0, w.limit-len(w.data))
		w.data = append(w.data, p[:n]...)
	}
	w.failed = true
	return n, errInjected
}

// failReader fails once limit bytes are read
type failReader struct {
	data   []byte
	pos    int
	limit  int
	chunk  int
	with   bool // the failure comes with the last bytes
	once   bool // fails only once
	failed bool
}

func (r *failReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := min(len(p), r.chunk, len(r.data)-r.pos)
	if !r.failed || !r.once {
		n = min(n, max(0, r.limit-r.pos))
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos >= r.limit && !(r.failed && r.once) && (r.with || n == 0) {
		r.failed = true
		return n, errInjected
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

// offsets gives all the offsets of a document, or some of them for a long one
func offsets(t *rapid.T, size int, max int) []int {
	var l []int
	if size <= max {
		for i := 0; i <= size; i++ {
			l = append(l, i)
		}
		return l
	}
	for i := 0; i < max; i++ {
		l = append(l, rapid.IntRange(0, size).Draw(t, "offset"))
	}
	return append(l, 0, 1, size-1, size)
}

type p28Case struct {
	g       *Graph
	m       *Model
	ext     string
	options map[string]any
}

func genP28(t *rapid.T, c *Rec, exts []string) *p28Case {
	k := &p28Case{ext: pickOne(t, "format", exts), options: map[string]any{}}
	k.m = genModel(t, ModelOpts{Pkgs: 2, DTs: p19DTs, Dense: true, MaxClasses: 3, MaxFeats: 4, Avoid: "href", Maps: true, NoNamesakes: k.ext == "sqlite"})
	o := graphOpts{Resources: 1, Roots: 1, MaxObjs: 6, Alpha: AlphaXML, CrossOnlyResolving: true, Ext: k.ext}
	if oneIn(t, 3, "ids") {
		o.NewID = func() ecore.EObjectIDManager { return ecore.NewIncrementalIDManager() }
		k.options[ecore.XML_OPTION_ID_ATTRIBUTE_NAME] = "_id"
		k.options[ecore.BINARY_OPTION_ID_ATTRIBUTE] = true
		k.options[ecore.JSON_OPTION_ID_ATTRIBUTE_NAME] = "_id"
	}
	k.g = genGraph(t, k.m, o)
	c.Label(k.ext)
	c.Logf("%s %v\n%s%s", k.ext, k.options, k.m, k.g.dump())
	return k
}

func (k *p28Case) codec(r ecore.EResource) ecore.ECodec {
	if k.ext == "json" {
		return &ecore.JSONCodec{}
	}
	return r.(*ecore.EResourceImpl).GetResourceSet().GetCodecRegistry().GetCodec(r.GetURI())
}

func TestP28_Writes(t *testing.T) {
	runProp(t, "more than 20 failing writes in a document of an object with attribute values", 200, func(t *rapid.T, c *Rec) {
		k := genP28(t, c, []string{"xml", "ecore", "bin", "json"})
		r := k.g.res[0]
		r.GetResourceSet().GetCodecRegistry().GetExtensionToCodecMap()["json"] = &ecore.JSONCodec{}
		before := k.g.dump()
		whole := rapid.Bool().Draw(t, "resource")
		object := pickOne(t, "object", k.g.objs)
		save := func(w io.Writer) string {
			if whole {
				r.SaveWithWriter(w, k.options)
				return errorsOf(r)
			}
			if err := k.codec(r).NewEncoder(r, w, k.options).EncodeObject(object); err != nil {
				if fmt.Sprint(err) == "" {
					t.Fatal("the failure has no message")
				}
				return err.Error()
			}
			return ""
		}
		var good bytes.Buffer
		if e := save(&good); e != "" {
			t.Fatalf("saving: %s", e)
		}
		n := 0
		w := failWriter{partial: rapid.Bool().Draw(t, "partial"), once: oneIn(t, 3, "once")}
		for _, k := range offsets(t, good.Len(), 300) {
			f := w
			f.limit = k
			var e string
			if p := try(func() { e = save(&f) }); p != nil {
				t.Fatalf("a write fails at %d of %d: panic %v", k, good.Len(), p)
			}
			if f.failed {
				n++
				if e == "" {
					t.Fatalf("the write which fails at %d of %d is not reported (partial %v, once %v)\n%s", k, good.Len(), w.partial, w.once, good.Bytes())
				}
			} else if e != "" || !bytes.Equal(f.data, good.Bytes()) {
				t.Fatalf("nothing fails and the result is %q\n%s", e, f.data)
			}
			if !f.failed || n%20 == 1 {
				var again bytes.Buffer
				if e := save(&again); e != "" || !bytes.Equal(again.Bytes(), good.Bytes()) {
					t.Fatalf("saving after a failure at %d gives %q and\n%s\n---- instead of\n%s", k, e, again.Bytes(), good.Bytes())
				}
			}
		}
		if after := k.g.dump(); after != before {
			t.Fatalf("failures changed the model: %s", diff(before, after))
		}
		if n > 20 && k.g.attrs > 0 {
			c.Nontrivial()
		}
	})
}

func TestP28_Reads(t *testing.T) {
	runProp(t, "more than 20 failing reads in a document of an object with attribute values", 150, func(t *rapid.T, c *Rec) {
		k := genP28(t, c, []string{"xml", "ecore", "bin"})
		data := k.g.save(k.options)[0]
		h := k.g.load([][]byte{data}, k.options)
		want := (&dumper{m: k.m, rs: k.g.rs}).dump(k.g.res)
		r := h.res[0]
		model := failReader{data: data, chunk: pickOne(t, "chunk", []int{1, 7, 100, 1 << 20}), with: rapid.Bool().Draw(t, "with"), once: oneIn(t, 3, "once")}
		var ob bytes.Buffer
		if err := k.codec(k.g.res[0]).NewEncoder(k.g.res[0], &ob, k.options).EncodeObject(k.g.objs[0]); err != nil {
			t.Fatalf("encoding an object: %v", err)
		}
		objData := ob.Bytes()
		n := 0
		check := func(what string) {
			r.Unload()
			if r.IsLoaded() || !r.GetContents().Empty() {
				t.Fatalf("%s : the resource is not unloaded", what)
			}
			f := &failReader{data: data, limit: 1 << 30, chunk: model.chunk}
			r.LoadWithReader(f, k.options)
			if e := errorsOf(r); e != "" || r.IsLoading() || !r.IsLoaded() {
				t.Fatalf("%s : loading again gives %q (loading %v, loaded %v)\n%s", what, e, r.IsLoading(), r.IsLoaded(), data)
			}
			if got := (&dumper{m: k.m, rs: h.rs}).dump(h.res); got != want {
				t.Fatalf("%s : the loaded model differs: %s", what, diff(want, got))
			}
		}
		check("no failure")
		for _, at := range offsets(t, len(data), 200) {
			r.Unload()
			f := model
			f.limit = at
			if p := try(func() { r.LoadWithReader(&f, k.options) }); p != nil {
				t.Fatalf("a read fails at %d of %d: panic %v", at, len(data), p)
			}
			if r.IsLoading() {
				t.Fatalf("a read fails at %d and the resource is still loading", at)
			}
			if e := errorsOf(r); e == "" && at < len(data) {
				t.Fatalf("the read which fails at %d of %d is not reported (failed %v)\n%q", at, len(data), f.failed, data)
			}
			n++
			if n%20 == 1 {
				check(fmt.Sprintf("after a failure at %d", at))
			}
			// one object
			if at < len(objData) {
				f := model
				f.data, f.limit = objData, at
				var o ecore.EObject
				var err error
				other := h.rs.CreateResource(r.GetURI())
				if p := try(func() { o, err = k.codec(other).NewDecoder(other, &f, k.options).DecodeObject() }); p != nil {
					t.Fatalf("a read fails at %d of %d: panic %v", at, len(objData), p)
				}
				if err == nil {
					t.Fatalf("the read which fails at %d of %d is not reported by DecodeObject, which gives %v", at, len(objData), o)
				}
				h.rs.GetResources().Remove(other)
			}
		}
		check("at the end")
		if n > 20 && k.g.attrs > 0 {
			c.Nontrivial()
		}
	})
}

// failConverter gives readers and writers which fail
type failConverter struct {
	ecore.EURIConverter
	openFails, closeFails bool
	w                     *failWriter
	r                     *failReader
	closed                int
}

type failCloser struct {
	io.Reader
	io.Writer
	k *failConverter
}

func (f *failCloser) Close() error {
	f.k.closed++
	if f.k.closeFails {
		return errInjected
	}
	return nil
}

func (k *failConverter) CreateReader(uri *ecore.URI) (io.ReadCloser, error) {
	if k.openFails {
		return nil, errInjected
	}
	return &failCloser{Reader: k.r, k: k}, nil
}

func (k *failConverter) CreateWriter(uri *ecore.URI) (io.WriteCloser, error) {
	if k.openFails {
		return nil, errInjected
	}
	return &failCloser{Writer: k.w, k: k}, nil
}

func TestP28_Addresses(t *testing.T) {
	runProp(t, "opening, reading, writing and closing fail for the same resource", 400, func(t *rapid.T, c *Rec) {
		k := genP28(t, c, []string{"xml", "ecore", "bin"})
		data := k.g.save(k.options)[0]
		want := (&dumper{m: k.m, rs: k.g.rs}).dump(k.g.res)
		h := k.g.load([][]byte{data}, k.options)
		conv := &failConverter{EURIConverter: ecore.NewEURIConverterImpl()}
		h.rs.SetURIConverter(conv)
		r := h.res[0]
		seen := map[string]bool{}
		for i := rapid.IntRange(2, 12).Draw(t, "steps"); i > 0; i-- {
			conv.openFails, conv.closeFails = oneIn(t, 4, "open"), oneIn(t, 4, "close")
			at := 1 << 30
			if oneIn(t, 2, "fails") {
				at = rapid.IntRange(0, len(data)-1).Draw(t, "at")
			}
			conv.r = &failReader{data: data, limit: at, chunk: 64}
			conv.w = &failWriter{limit: at}
			before := conv.closed
			what := fmt.Sprintf("open fails %v, close fails %v, fails at %d", conv.openFails, conv.closeFails, at)
			if rapid.Bool().Draw(t, "save") && r.IsLoaded() && errorsOf(r) == "" {
				c.Logf("save, %s", what)
				r.SaveWithOptions(k.options)
				fails := conv.openFails || conv.closeFails || at < len(data)
				e := errorsOf(r)
				if fails != (e != "") {
					t.Fatalf("save, %s : errors %q", what, e)
				}
				if !fails && !bytes.Equal(conv.w.data, data) {
					t.Fatalf("save, %s : another content", what)
				}
				if !conv.openFails && conv.closed != before+1 {
					t.Fatalf("save, %s : closed %d times", what, conv.closed-before)
				}
				for _, s := range []struct {
					b bool
					s string
				}{{conv.openFails, "open"}, {conv.closeFails, "close"}, {at < len(data), "write"}} {
					if s.b {
						seen[s.s] = true
					}
				}
				// errors of a failed save are those of the resource until it is saved again
				conv.openFails, conv.closeFails, conv.w = false, false, &failWriter{limit: 1 << 30}
				r.SaveWithOptions(k.options)
				if e := errorsOf(r); e != "" || !bytes.Equal(conv.w.data, data) {
					t.Fatalf("saving after (%s) gives %q", what, e)
				}
			} else {
				r.Unload()
				c.Logf("load, %s", what)
				r.LoadWithOptions(k.options)
				fails := conv.openFails || at < len(data)
				e := errorsOf(r)
				if fails && e == "" || !fails && !conv.closeFails && e != "" {
					t.Fatalf("load, %s : errors %q", what, e)
				}
				if !conv.openFails && conv.closed != before+1 {
					t.Fatalf("load, %s : closed %d times", what, conv.closed-before)
				}
				if conv.openFails && r.IsLoaded() {
					t.Fatalf("load, %s : loaded", what)
				}
				if !fails {
					if got := (&dumper{m: k.m, rs: h.rs}).dump(h.res); got != want {
						t.Fatalf("load, %s : the loaded model differs: %s", what, diff(want, got))
					}
				} else if at < len(data) && !conv.openFails {
					seen["read"] = true
				}
			}
		}
		for s := range seen {
			c.Label(s)
		}
		if len(seen) >= 3 {
			c.Nontrivial()
		}
	})
}
