package harness

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// P28: resources saved to and loaded from files, some of which cannot be written or read

func TestP28_Files(t *testing.T) {
	scratch, err := os.MkdirTemp("", "p28-")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(scratch)
	runProp(t, "a file written again with a shorter content after a failure", 60, func(t *rapid.T, c *Rec) {
		k := genP28(t, c, []string{"xml", "ecore", "bin"})
		r := k.g.res[0]
		dir, err := os.MkdirTemp(scratch, "d")
		if err != nil {
			t.Skip()
		}
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "a."+k.ext)
		good := ecore.NewURI("file:" + name)
		r.SetURI(good)
		content := func() []byte {
			var b bytes.Buffer
			r.SaveWithWriter(&b, k.options)
			if e := errorsOf(r); e != "" {
				t.Fatalf("saving: %s", e)
			}
			return b.Bytes()
		}
		last := -1
		failed := false
		shorter := false
		for steps := rapid.IntRange(4, 20).Draw(t, "steps"); steps > 0; steps-- {
			switch rapid.IntRange(0, 7).Draw(t, "op") {
			case 0: // no directory
				r.SetURI(ecore.NewURI("file:" + dir + "/none/a." + k.ext))
				c.Logf("save in no directory")
				r.SaveWithOptions(k.options)
				if errorsOf(r) == "" {
					t.Fatal("saving in a directory which does not exist is not an error")
				}
				r.SetURI(good)
				failed = true
			case 1: // full device
				if fi, err := os.Stat("/dev/full"); err != nil || fi.Mode()&os.ModeCharDevice == 0 {
					continue
				}
				link := filepath.Join(dir, "full."+k.ext)
				os.Symlink("/dev/full", link)
				r.SetURI(ecore.NewURI("file:" + link))
				c.Logf("save in a full device")
				r.SaveWithOptions(k.options)
				if errorsOf(r) == "" {
					t.Fatal("saving in a full device is not an error")
				}
				r.SetURI(good)
				failed = true
			case 2, 6: // shorter or longer content
				contents := r.GetContents()
				if contents.Size() > 1 && rapid.Bool().Draw(t, "shorter") {
					contents.RemoveAt(contents.Size() - 1)
				} else if x := contents.Get(0).(ecore.EObject); !k.m.byE[x.EClass()].Entry {
					contents.Add(k.m.New(k.m.byE[x.EClass()]))
				}
			case 3: // a content which is cut is not loaded silently
				if last < 0 {
					continue
				}
				data, _ := os.ReadFile(name)
				cut := filepath.Join(dir, "cut."+k.ext)
				os.WriteFile(cut, data[:rapid.IntRange(1, len(data)*9/10).Draw(t, "cut")], 0o644)
				l := k.g.rs.CreateResource(ecore.NewURI("file:" + cut))
				if k.g.o.NewID != nil {
					l.SetObjectIDManager(k.g.o.NewID())
				}
				l.LoadWithOptions(k.options)
				if errorsOf(l) == "" {
					x, _ := os.ReadFile(cut)
					t.Fatalf("loading a file which was cut is not an error: %q of %q", x, data)
				}
				k.g.rs.GetResources().Remove(l)
			default:
				want := content()
				c.Logf("save %d bytes", len(want))
				r.SaveWithOptions(k.options)
				if e := errorsOf(r); e != "" {
					t.Fatalf("saving in %s: %s", name, e)
				}
				got, err := os.ReadFile(name)
				if err != nil || !bytes.Equal(got, want) {
					t.Fatalf("the file has another content (%v)\nsaved %q\nfile  %q", err, clip(want), clip(got))
				}
				shorter = shorter || len(want) < last
				last = len(want)
			}
		}
		if last >= 0 {
			h := newResourceSet(k.m)
			get := func() ecore.EResource {
				l := h.GetResource(good, k.g.o.NewID == nil)
				if l == nil {
					l = h.CreateResource(good)
					l.SetObjectIDManager(k.g.o.NewID())
				}
				l.LoadWithOptions(k.options)
				return l
			}
			for i := 0; i < 2; i++ {
				l := get()
				if e := errorsOf(l); e != "" || !l.IsLoaded() || l.GetContents().Empty() {
					t.Fatalf("loading %s: %s", name, e)
				}
				if again := h.GetResource(good, true); again != l {
					t.Fatal("loaded twice")
				}
				l.Unload()
			}
			os.Remove(name)
			if l := get(); errorsOf(l) == "" || !l.GetContents().Empty() {
				t.Fatal("loading a file which was removed is not an error")
			}
		}
		if failed && shorter {
			c.Nontrivial()
		}
	})
}
