package harness

// P28 : failures around databases

import (
	"bytes"
	"io"
	"os"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

func TestP28_SQL(t *testing.T) {
	runProp(t, "at least 4 failing reads or writes of the database of an object with attribute values", 8, func(t *rapid.T, c *Rec) {
		k := genP28(t, c, []string{"sqlite"})
		r := k.g.res[0]
		before := k.g.dump()
		if rapid.Bool().Draw(t, "memory") {
			k.options[ecore.SQL_OPTION_IN_MEMORY_DATABASE] = true
			c.Label("memory")
		}
		save := func(w io.Writer) string {
			files := tempFiles()
			if p := try(func() { r.SaveWithWriter(w, k.options) }); p != nil {
				t.Fatalf("saving panics: %v", p)
			}
			if f := tempFiles(); f != files {
				t.Fatalf("saving leaves files: %s instead of %s", f, files)
			}
			return errorsOf(r)
		}
		noRest := watchGoroutines()
		var good bytes.Buffer
		if e := save(&good); e != "" {
			t.Fatalf("saving: %s", e)
		}
		data := good.Bytes()
		k.g.rs.GetResources()
		h := &Graph{t: t, m: k.m, o: k.g.o, rs: newResourceSet(k.m)}
		l := h.rs.CreateResource(r.GetURI())
		if k.g.o.NewID != nil {
			l.SetObjectIDManager(k.g.o.NewID())
		}
		h.res = append(h.res, l)
		load := func(f io.Reader, options map[string]any) string {
			l.Unload()
			files := tempFiles()
			if p := try(func() { l.LoadWithReader(f, options) }); p != nil {
				t.Fatalf("loading panics: %v", p)
			}
			if f := tempFiles(); f != files {
				t.Fatalf("loading leaves files: %s instead of %s", f, files)
			}
			if l.IsLoading() {
				t.Fatalf("the resource is still loading")
			}
			return errorsOf(l)
		}
		if e := load(bytes.NewReader(data), k.options); e != "" {
			t.Fatalf("loading: %s", e)
		}
		want := (&dumper{m: k.m, rs: h.rs}).dump(h.res)
		n := 0
		for range 4 {
			switch what := pickOne(t, "failure", []string{"write", "write", "read", "read", "directory", "path"}); what {
			case "write":
				w := &failWriter{limit: rapid.IntRange(0, len(data)-1).Draw(t, "offset"), partial: rapid.Bool().Draw(t, "partial"), once: oneIn(t, 3, "once")}
				c.Logf("write fails at %d of %d", w.limit, len(data))
				e := save(w)
				if w.failed {
					n++
				}
				if w.failed != (e != "") {
					t.Fatalf("a write fails (%v) at %d of %d and the error is %q", w.failed, w.limit, len(data), e)
				}
			case "read":
				f := &failReader{data: data, limit: rapid.IntRange(0, len(data)-1).Draw(t, "offset"), chunk: pickOne(t, "chunk", []int{100, 5000, 1 << 20}), with: rapid.Bool().Draw(t, "with"), once: oneIn(t, 3, "once")}
				c.Logf("read fails at %d of %d", f.limit, len(data))
				n++
				if e := load(f, k.options); e == "" {
					t.Fatalf("the read which fails at %d of %d is not reported", f.limit, len(data))
				}
				if !l.GetContents().Empty() {
					t.Fatalf("a database which can't be read fills the resource")
				}
			case "directory":
				// no temporary directory
				old := os.Getenv("TMPDIR")
				os.Setenv("TMPDIR", filesDir+"/none")
				c.Logf("no temporary directory")
				var w bytes.Buffer
				e := save(&w)
				e2 := load(bytes.NewReader(data), k.options)
				os.Setenv("TMPDIR", old)
				if k.options[ecore.SQL_OPTION_IN_MEMORY_DATABASE] == nil && (e == "" || e2 == "") {
					t.Fatalf("without a temporary directory, saving gives %q, loading %q", e, e2)
				}
				n += 2
			case "path":
				options := map[string]any{ecore.SQL_OPTION_DECODER_DB_PATH: filesDir + "/none/x.sqlite"}
				for o, v := range k.options {
					options[o] = v
				}
				c.Logf("no directory for the database")
				if e := load(bytes.NewReader(data), options); e == "" {
					t.Fatalf("a database in no directory is loaded")
				}
				n++
			}
		}
		if e := load(bytes.NewReader(data), k.options); e != "" {
			t.Fatalf("loading after failures: %s", e)
		}
		if got := (&dumper{m: k.m, rs: h.rs}).dump(h.res); got != want {
			t.Fatalf("after failures, the loaded model differs: %s", diff(want, got))
		}
		good.Reset()
		if e := save(&good); e != "" {
			t.Fatalf("saving after failures: %s", e)
		}
		if e := load(&good, k.options); e != "" {
			t.Fatalf("loading what is saved after failures: %s", e)
		}
		if got := (&dumper{m: k.m, rs: h.rs}).dump(h.res); got != want {
			t.Fatalf("after failures, the saved model differs: %s", diff(want, got))
		}
		if after := k.g.dump(); after != before {
			t.Fatalf("failures changed the model: %s", diff(before, after))
		}
		if n := noRest(); n > 0 {
			t.Fatalf("%d goroutines are left", n)
		}
		if n >= 4 && k.g.attrs > 0 {
			c.Nontrivial()
		}
	})
}
