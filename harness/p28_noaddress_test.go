package harness

import (
	"bytes"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// P28: a resource which has no address is saved and loaded with the default codec, and reports that it has no codec otherwise

func TestP28_NoAddress(t *testing.T) {
	runProp(t, "a resource with a default codec and references between its objects", 150, func(t *rapid.T, c *Rec) {
		k := genP28(t, c, []string{"xml", "ecore", "bin", "json", "sqlite"})
		r := k.g.res[0]
		codec := k.codec(r)
		var withAddress bytes.Buffer
		if k.ext != "sqlite" {
			codec.NewEncoder(r, &withAddress, k.options).EncodeResource()
			if e := errorsOf(r); e != "" {
				t.Fatalf("saving with an address: %s", e)
			}
		}
		want := (&dumper{m: k.m, rs: k.g.rs}).dump(k.g.res)
		r.SetURI(nil)
		inSet := rapid.Bool().Draw(t, "in set")
		// without codec
		var b bytes.Buffer
		r.SaveWithWriter(&b, k.options)
		if errorsOf(r) == "" || b.Len() != 0 {
			t.Fatalf("saving without codec: errors %q, %d bytes", errorsOf(r), b.Len())
		}
		l := k.resource(inSet)
		l.LoadWithReader(bytes.NewReader(withAddress.Bytes()), k.options)
		if errorsOf(l) == "" || l.IsLoaded() || l.GetContents().Size() != 0 {
			t.Fatalf("loading without codec: errors %q, loaded %v", errorsOf(l), l.IsLoaded())
		}
		l.Load()
		l.Save()
		if l.IsLoaded() || l.GetContents().Size() != 0 {
			t.Fatalf("a resource without address is loaded")
		}
		c.LabelIf(inSet, "in set")
		if k.g.refs > 0 {
			c.Nontrivial()
		}
		// with a default one
		k.g.rs.GetCodecRegistry().GetExtensionToCodecMap()["*"] = codec
		r.SaveWithWriter(&b, k.options)
		if e := errorsOf(r); e != "" {
			t.Fatalf("saving: %s", e)
		}
		if k.ext != "sqlite" && !bytes.Equal(b.Bytes(), withAddress.Bytes()) {
			t.Fatalf("the document depends on the address\n%s\n%s", withAddress.Bytes(), b.Bytes())
		}
		if k.ext == "json" {
			return // there is no decoder
		}
		l = k.resource(true)
		l.LoadWithReader(bytes.NewReader(b.Bytes()), k.options)
		if e := errorsOf(l); e != "" || !l.IsLoaded() {
			t.Fatalf("loading: %s", e)
		} else if got := (&dumper{m: k.m, rs: l.GetResourceSet()}).dump([]ecore.EResource{l}); got != want && (k.ext != "sqlite" || noSign.Replace(got) != noSign.Replace(want)) {
			t.Fatalf("another content: %s", diff(want, got))
		}
	})
}

// resource creates a resource without address
func (k *p28Case) resource(inSet bool) ecore.EResource {
	var r ecore.EResource = ecore.NewEResourceImpl()
	if inSet {
		rs := newResourceSet(k.m)
		if c := k.g.rs.GetCodecRegistry().GetExtensionToCodecMap()["*"]; c != nil {
			rs.GetCodecRegistry().GetExtensionToCodecMap()["*"] = c
		}
		rs.GetResources().Add(r)
	}
	if k.g.o.NewID != nil {
		r.SetObjectIDManager(k.g.o.NewID())
	}
	return r
}
