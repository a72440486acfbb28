package harness

// P18 : corrupt binary input

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"strings"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// msgpackTokens cuts a document in its values
func msgpackTokens(b []byte) [][]byte {
	var res [][]byte
	for len(b) > 0 {
		n := 1
		u := func(k int) int {
			if len(b) < 1+k {
				return 0
			}
			switch k {
			case 1:
				return int(b[1])
			case 2:
				return int(binary.BigEndian.Uint16(b[1:]))
			}
			return int(binary.BigEndian.Uint32(b[1:]))
		}
		switch c := b[0]; {
		case c >= 0xa0 && c <= 0xbf:
			n = 1 + int(c&31)
		case c == 0xc4 || c == 0xd9:
			n = 2 + u(1)
		case c == 0xc5 || c == 0xda:
			n = 3 + u(2)
		case c == 0xc6 || c == 0xdb:
			n = 5 + u(4)
		case c == 0xcc || c == 0xd0:
			n = 2
		case c == 0xcd || c == 0xd1:
			n = 3
		case c == 0xca || c == 0xce || c == 0xd2:
			n = 5
		case c == 0xcb || c == 0xcf || c == 0xd3:
			n = 9
		case c == 0xd6:
			n = 6
		case c == 0xd7:
			n = 10
		case c == 0xc7:
			n = 3 + u(1)
		}
		n = min(n, len(b))
		res = append(res, b[:n:n])
		b = b[n:]
	}
	return res
}

func msgpackInt(n int) []byte {
	if n >= -32 && n < 128 {
		return []byte{byte(int8(n))}
	}
	return binary.BigEndian.AppendUint64([]byte{0xd3}, uint64(n))
}

func msgpackString(s string) []byte {
	return append(binary.BigEndian.AppendUint16([]byte{0xda}, uint16(len(s))), s...)
}

// corrupt changes some bytes or some values of a document
func corrupt(t *rapid.T, data []byte, words []string) ([]byte, string) {
	what := ""
	b := append([]byte{}, data...)
	for n := rapid.IntRange(1, 3).Draw(t, "ncorruptions"); n > 0; n-- {
		if len(b) == 0 {
			return b, what
		}
		if rapid.IntRange(0, 3).Draw(t, "bytes") == 0 {
			i := rapid.IntRange(0, len(b)-1).Draw(t, "pos")
			switch rapid.IntRange(0, 3).Draw(t, "byteop") {
			case 0:
				b[i] = rapid.Byte().Draw(t, "byte")
				what += fmt.Sprintf(" byte %d", i)
			case 1:
				b[i] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
				what += fmt.Sprintf(" bit of %d", i)
			case 2:
				b = append(b[:i:i], b[i+1:]...)
				what += fmt.Sprintf(" without byte %d", i)
			case 3:
				b = append(append(append([]byte{}, b[:i]...), rapid.Byte().Draw(t, "byte")), b[i:]...)
				what += fmt.Sprintf(" new byte %d", i)
			}
			continue
		}
		tok := msgpackTokens(b)
		i := rapid.IntRange(0, len(tok)-1).Draw(t, "value")
		ints := []int{0, 1, 2, 3, -1, -2, -3, -4, 1 << 20, 1 << 31, 1 << 40, -1 << 62, 100}
		switch rapid.IntRange(0, 6).Draw(t, "valueop") {
		case 0, 1:
			k := pickOne(t, "int", ints)
			tok[i] = msgpackInt(k)
			what += fmt.Sprintf(" value %d is %d", i, k)
		case 2:
			s := pickOne(t, "word", words)
			tok[i] = msgpackString(s)
			what += fmt.Sprintf(" value %d is %q", i, s)
		case 3:
			j := rapid.IntRange(0, len(tok)-1).Draw(t, "other")
			tok[i] = tok[j]
			what += fmt.Sprintf(" value %d is value %d", i, j)
		case 4:
			tok = append(tok[:i:i], tok[i+1:]...)
			what += fmt.Sprintf(" without value %d", i)
		case 5:
			j := rapid.IntRange(i, min(len(tok), i+6)).Draw(t, "end")
			k := rapid.IntRange(0, len(tok)).Draw(t, "at")
			part := append([][]byte{}, tok[i:j]...)
			tok = append(append(append([][]byte{}, tok[:k]...), part...), tok[k:]...)
			what += fmt.Sprintf(" values %d to %d copied at %d", i, j, k)
		case 6:
			tok[i] = pickOne(t, "other", [][]byte{{0xc0}, {0xc2}, {0xca, 0, 0, 0, 0}, {0xc6, 0xff, 0xff, 0xff, 0xff}, {0xdb, 0x7f, 0xff, 0xff, 0xff}, {0xdd, 0x7f, 0xff, 0xff, 0xff}, {0xdf, 0x7f, 0xff, 0xff, 0xff}, {0x91, 0x91, 0x91, 0x90}, {0x81, 0x90, 0x90}, {0xc7, 0xff, 0xff}, {0xd8}})
			what += fmt.Sprintf(" value %d is %x", i, tok[i])
		}
		b = bytes.Join(tok, nil)
	}
	return b, what
}

// usable reads everything in a loaded resource
func usable(r ecore.EResource) {
	seen := map[ecore.EObject]bool{}
	var visit func(o ecore.EObject)
	visit = func(o ecore.EObject) {
		if seen[o] {
			panic("an object is contained twice")
		}
		seen[o] = true
		for it := o.EClass().GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
			f := it.Next().(ecore.EStructuralFeature)
			if f.IsDerived() || f.IsVolatile() || f.IsTransient() {
				continue // computed from what proxies resolve to
			}
			v := o.EGetResolve(f, false)
			check := func(v any) {
				if v == nil {
					return
				}
				if ref, ok := f.(ecore.EReference); ok {
					x := v.(ecore.EObject)
					if k := ref.GetEReferenceType(); k != ecore.GetPackage().GetEObject() && x.EClass() != k && !x.EClass().GetEAllSuperTypes().Contains(k) {
						panic(fmt.Sprintf("a %s in a reference to %s", x.EClass().GetName(), k.GetName()))
					}
				} else {
					d := f.(ecore.EAttribute).GetEAttributeType()
					d.GetEPackage().GetEFactoryInstance().ConvertToString(d, v)
				}
			}
			if l, ok := v.(ecore.EList); ok {
				if l, ok := v.(ecore.EObjectList); ok {
					v = l.GetUnResolvedList()
				}
				l = v.(ecore.EList)
				for _, x := range l.ToArray() {
					check(x)
				}
			} else {
				check(v)
			}
		}
		for it := o.EContents().(ecore.EObjectList).GetUnResolvedList().Iterator(); it.HasNext(); {
			if x := it.Next().(ecore.EObject); x.(ecore.EObjectInternal).EInternalResource() == nil {
				visit(x)
			}
		}
	}
	for it := r.GetContents().Iterator(); it.HasNext(); {
		visit(it.Next().(ecore.EObject))
	}
}

// wordsOf : the names of a metamodel
func wordsOf(m *Model) []string {
	words := []string{"", "x", "http://verif/unknown", "%zz", ":", "mem:/r0.bin", "EString", "ecore"}
	for _, p := range m.Pkgs {
		words = append(words, p.GetNsURI(), p.GetName())
	}
	for _, c := range m.Classes {
		words = append(words, c.Ident())
	}
	for _, f := range m.Feats {
		words = append(words, f.Name)
	}
	return words
}

type corruptCase struct {
	m    *Model
	g    *Graph
	data [][]byte
}

// corruptDocument : a valid document, of a generated metamodel or a metamodel itself
func genDocument(t *rapid.T, c *Rec, ext string, options map[string]any, o graphOpts, mo ModelOpts) *corruptCase {
	metamodel := oneIn(t, 4, "metamodel")
	if metamodel {
		mo.Pkgs = 1 // the types of its features are in the same document
	}
	m := genModel(t, mo)
	if metamodel {
		c.Label("metamodel")
		annotate(t, m)
		g := &Graph{t: t, m: ecoreFull, rs: ecore.NewEResourceSetImpl(), o: graphOpts{Ext: ext}}
		g.addResource("r0")
		g.res[0].GetContents().Add(m.Pkgs[0])
		return &corruptCase{ecoreFull, g, g.save(options)}
	}
	g := genGraph(t, m, o)
	return &corruptCase{m, g, g.save(options)}
}

// loadCorrupt loads a document and tells if it was accepted. A panic fails the check.
func (k *corruptCase) load(t *rapid.T, doc []byte, options map[string]any, what string) (ecore.EResource, bool) {
	rs := newResourceSet(k.m)
	r := rs.CreateResource(k.g.res[0].GetURI())
	if k.g.o.NewID != nil {
		r.SetObjectIDManager(k.g.o.NewID())
	}
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	if p := try(func() { r.LoadWithReader(bytes.NewReader(doc), options) }); p != nil {
		t.Fatalf("loading panics: %v\n%s\n%q", p, what, clip(doc))
	}
	runtime.ReadMemStats(&after)
	if n := after.TotalAlloc - before.TotalAlloc; n > 200<<20 {
		t.Fatalf("loading %d bytes takes %d MB\n%s\n%q", len(doc), n>>20, what, clip(doc))
	}
	if !r.GetErrors().Empty() {
		return r, false
	}
	return r, true
}

func TestP18_Corrupt(t *testing.T) {
	runProp(t, "a valid binary document with at least 2 objects was corrupted", 1500, func(t *rapid.T, c *Rec) {
		options := map[string]any{ecore.BINARY_OPTION_ID_ATTRIBUTE: rapid.Bool().Draw(t, "idattr")}
		o := graphOpts{Resources: 2, Roots: 2, MaxObjs: 8, CrossRefs: true, CrossOnlyResolving: true, CrossCont: true, Ext: "bin"}
		switch rapid.IntRange(0, 4).Draw(t, "idmanager") {
		case 1:
			o.NewID = func() ecore.EObjectIDManager { return ecore.NewIncrementalIDManager() }
		case 2:
			o.NewID = func() ecore.EObjectIDManager { return ecore.NewUUIDManager() }
		case 3:
			o.NewID = func() ecore.EObjectIDManager { return ecore.NewULIDManager() }
		}
		k := genDocument(t, c, "bin", options, o, ModelOpts{Pkgs: 2, DTs: p19DTs, Maps: true, Dense: true, ContBias: rapid.Bool().Draw(t, "contbias"), MaxClasses: 4})
		if len(k.g.objs) >= 2 || k.m.Static {
			c.Nontrivial()
		}
		doc, what := corrupt(t, k.data[0], wordsOf(k.m))
		c.Logf("%s%q\n%s", k.m, clip(k.data[0]), what)
		r, ok := k.load(t, doc, options, what)
		c.LabelIf(ok, "accepted")
		c.LabelIf(!ok, "rejected")
		if p := try(func() { usable(r) }); p != nil {
			t.Fatalf("the loaded model is not usable: %v\n%s\n%s%q", p, what, k.m, clip(doc))
		}
		if !ok {
			if !r.GetContents().Empty() {
				t.Fatalf("a rejected document fills the resource")
			}
			return
		}
		var b bytes.Buffer
		if p := try(func() { r.SaveWithWriter(&b, options) }); p != nil {
			t.Fatalf("the loaded model can't be saved: %v\n%s\n%s%q", p, what, k.m, clip(doc))
		}
	})
}

func TestP18_Truncated(t *testing.T) {
	runProp(t, "every strict prefix of a valid binary document of at least 60 bytes was loaded", 150, func(t *rapid.T, c *Rec) {
		o := graphOpts{Resources: 1, Roots: 2, MaxObjs: 5, Ext: "bin"}
		k := genDocument(t, c, "bin", nil, o, ModelOpts{DTs: p19DTs, Maps: true, Dense: true, MaxClasses: 3, MaxFeats: 3})
		doc := k.data[0]
		if len(doc) >= 60 {
			c.Nontrivial()
		}
		c.Logf("%q", clip(doc))
		step := 1 + len(doc)/300
		for n := rapid.IntRange(0, step-1).Draw(t, "start"); n < len(doc); n += step {
			what := fmt.Sprintf("%d bytes of %d", n, len(doc))
			r, ok := k.load(t, doc[:n], nil, what)
			if ok {
				t.Fatalf("a truncated document is accepted: %s\n%q", what, clip(doc))
			}
			if !r.GetContents().Empty() {
				t.Fatalf("a truncated document fills the resource: %s", what)
			}
			if strings.TrimSpace(errorsOf(r)) == "" {
				t.Fatalf("a truncated document gives an empty error: %s", what)
			}
		}
		if _, ok := k.load(t, doc, nil, "whole"); !ok {
			t.Fatalf("the whole document is rejected")
		}
	})
}

func TestP18_Arbitrary(t *testing.T) {
	runProp(t, "arbitrary bytes, or arbitrary values after a valid signature and version, were decoded as a resource and as an object", 3000, func(t *rapid.T, c *Rec) {
		m := genModel(t, ModelOpts{DTs: p19DTs, Maps: true, Dense: true, MaxClasses: 3})
		rs := newResourceSet(m)
		r := rs.CreateResource(ecore.NewURI("mem:/r0.bin"))
		var w bytes.Buffer
		r.SaveWithWriter(&w, nil)
		var doc []byte
		if rapid.Bool().Draw(t, "header") {
			doc = append(doc, w.Bytes()[:w.Len()-1]...)
			c.Nontrivial()
		}
		if rapid.Bool().Draw(t, "bytes") {
			doc = append(doc, rapid.SliceOf(rapid.Byte()).Draw(t, "bytes")...)
		} else {
			words := wordsOf(m)
			for n := rapid.IntRange(0, 20).Draw(t, "nvalues"); n > 0; n-- {
				if oneIn(t, 4, "word") {
					doc = append(doc, msgpackString(pickOne(t, "word", words))...)
				} else {
					doc = append(doc, msgpackInt(rapid.IntRange(-3, 6).Draw(t, "int"))...)
				}
			}
		}
		c.Logf("%q", doc)
		if rapid.Bool().Draw(t, "object") {
			if p := try(func() {
				o, err := ecore.NewBinaryDecoder(r, bytes.NewReader(doc), nil).DecodeObject()
				c.LabelIf(err == nil, "accepted")
				if err != nil && o != nil {
					t.Fatalf("an error and an object")
				}
			}); p != nil {
				t.Fatalf("decoding panics: %v %q", p, doc)
			}
			return
		}
		if p := try(func() { r.LoadWithReader(bytes.NewReader(doc), nil) }); p != nil {
			t.Fatalf("decoding panics: %v %q", p, doc)
		}
		c.LabelIf(r.GetErrors().Empty(), "accepted")
		if p := try(func() { usable(r) }); p != nil {
			t.Fatalf("the loaded model is not usable: %v %q", p, doc)
		}
	})
}
