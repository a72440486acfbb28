package harness

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// address is a URI split by hand
type address struct {
	scheme, authority, path, query string
	hasAuthority                   bool
}

func splitAddress(s string) (a address) {
	if i := strings.Index(s, "?"); i >= 0 {
		s, a.query = s[:i], s[i:]
	}
	if i := strings.Index(s, ":"); i >= 0 && !strings.Contains(s[:i], "/") {
		a.scheme, s = s[:i], s[i+1:]
	}
	if strings.HasPrefix(s, "//") {
		a.hasAuthority = true
		s = s[2:]
		i := strings.Index(s, "/")
		if i < 0 {
			i = len(s)
		}
		a.authority, s = s[:i], s[i:]
	}
	a.path = s
	return a
}

func (a address) String() string {
	s := ""
	if a.scheme != "" {
		s = a.scheme + ":"
	}
	if a.hasAuthority {
		s += "//" + a.authority
	}
	return s + a.path + a.query
}

// mapAddress applies the mapping with the longest matching prefix
func mapAddress(uri string, mappings map[string]string) (string, string, bool) {
	a := splitAddress(uri)
	best := -1
	var prefix, mapped string
	for from, to := range mappings {
		f := splitAddress(from)
		if f.scheme != a.scheme || f.hasAuthority != a.hasAuthority || f.authority != a.authority || !strings.HasPrefix(a.path, f.path) {
			continue
		}
		if len(f.path) > best {
			best = len(f.path)
			r := splitAddress(to)
			r.path += a.path[len(f.path):]
			r.query = a.query
			prefix, mapped = from, r.String()
		}
	}
	return prefix, mapped, best >= 0
}

// normalAddress applies the mappings until none applies; known is false when it does not end
func normalAddress(uri string, mappings map[string]string) (normal string, steps int, known bool) {
	for steps < 40 {
		_, next, ok := mapAddress(uri, mappings)
		if !ok || next == uri {
			return uri, steps, true
		}
		uri = next
		steps++
	}
	return uri, steps, false
}

func genMappings(t *rapid.T, bases []string, max int) map[string]string {
	mappings := map[string]string{}
	for i := 0; i < max; i++ {
		from, to := pickOne(t, "from", bases), pickOne(t, "to", bases)
		if oneIn(t, 2, "deeper") {
			from += pickOne(t, "segment", []string{"sub/", "sub/sub/", "x/", "a/"})
		}
		if oneIn(t, 3, "deeper target") {
			to += pickOne(t, "segment", []string{"sub/", "x/", "a/b/"})
		}
		mappings[from] = to
	}
	return mappings
}

func TestP24_Normalize(t *testing.T) {
	bases := []string{"app:/", "lib:/", "test:", "file:/d/", "http://h/", "http://h2/", "http://h/x/", "rel/", "/abs/", "urn:a/"}
	runProp(t, "at least two mappings applied one after the other, or two matching prefixes", 5000, func(t *rapid.T, c *Rec) {
		converter := ecore.NewEURIConverterImpl()
		mappings := genMappings(t, bases, rapid.IntRange(0, 6).Draw(t, "mappings"))
		for from, to := range mappings {
			converter.GetURIMap()[*ecore.NewURI(from)] = *ecore.NewURI(to)
		}
		c.Logf("mappings %v", mappings)
		for i := 0; i < 4; i++ {
			s := pickOne(t, "base", bases) + pickOne(t, "rest", []string{"a.x", "sub/a.x", "sub/sub/b", "x/sub/c.y", "a/b/c", "", "sub/", "sub/x/a.x"})
			if oneIn(t, 6, "query") {
				s += "?q=1"
			}
			uri := ecore.NewURI(s)
			got := converter.Normalize(uri).String()
			want, steps, known := normalAddress(s, mappings)
			c.Logf("%s -> %s", s, got)
			c.LabelIf(!known, "cyclic")
			c.LabelIf(steps > 1, "chained")
			c.LabelIf(steps > 0, "mapped")
			matching := 0
			for from := range mappings {
				f, a := splitAddress(from), splitAddress(s)
				if f.scheme == a.scheme && f.hasAuthority == a.hasAuthority && f.authority == a.authority && strings.HasPrefix(a.path, f.path) {
					matching++
				}
			}
			c.LabelIf(matching > 1, "overlapping prefixes")
			if steps > 1 || matching > 1 {
				c.Nontrivial()
			}
			if known && got != want {
				t.Fatalf("%s is normalised as %s instead of %s", s, got, want)
			}
			for j := 0; j < 3; j++ {
				if again := converter.Normalize(ecore.NewURI(s)).String(); again != got {
					t.Fatalf("%s is normalised as %s then as %s", s, got, again)
				}
			}
			if known {
				if twice := converter.Normalize(ecore.NewURI(got)).String(); twice != got {
					t.Fatalf("%s is normalised as %s, itself normalised as %s", s, got, twice)
				}
			}
			// fragments are kept
			f := ecore.NewURI(s + "#frag")
			if n := converter.Normalize(f).String(); known && n != want+"#frag" {
				t.Fatalf("%s#frag is normalised as %s", s, n)
			}
			// the handler is the one of the normalised address
			a := splitAddress(got)
			h := converter.GetURIHandler(converter.Normalize(uri))
			var hw string
			switch {
			case a.scheme == "file" || a.scheme == "" && a.authority == "" && a.query == "":
				hw = "*ecore.FileURIHandler"
			case a.scheme == "memory":
				hw = "*ecore.MemoryURIHandler"
			default:
				hw = "<nil>"
			}
			if fmt.Sprintf("%T", h) != hw {
				t.Fatalf("the handler of %s is %T instead of %s", got, h, hw)
			}
		}
		if converter.Normalize(nil) != nil {
			t.Fatal("nil is normalised to something")
		}
	})
}

// markCodec is a codec which makes one root object, named after the codec
type markCodec struct {
	name string
	log  *[]string
	fail bool
}

type markCoder struct {
	*markCodec
	resource ecore.EResource
	r        io.Reader
	w        io.Writer
}

func (k *markCodec) NewEncoder(resource ecore.EResource, w io.Writer, options map[string]any) ecore.EEncoder {
	return &markCoder{markCodec: k, resource: resource, w: w}
}

func (k *markCodec) NewDecoder(resource ecore.EResource, r io.Reader, options map[string]any) ecore.EDecoder {
	return &markCoder{markCodec: k, resource: resource, r: r}
}

func (k *markCoder) DecodeResource() {
	data, _ := io.ReadAll(k.r)
	*k.log = append(*k.log, fmt.Sprintf("%s reads %q", k.name, data))
	root := ecore.GetFactory().CreateEPackage()
	root.SetName(k.name + ":" + string(data))
	k.resource.GetContents().Add(root)
}

func (k *markCoder) DecodeObject() (ecore.EObject, error) { return nil, errors.New("no object") }

func (k *markCoder) EncodeResource() {
	text := ""
	for it := k.resource.GetContents().Iterator(); it.HasNext(); {
		text += it.Next().(ecore.EPackage).GetName()
	}
	*k.log = append(*k.log, fmt.Sprintf("%s writes %q", k.name, text))
	io.WriteString(k.w, text)
}

func (k *markCoder) EncodeObject(ecore.EObject) error { return errors.New("no object") }

type codecLevel struct {
	protocols, extensions map[string]*markCodec
}

// genCodecs generates a chain of codec registries
func genCodecs(t *rapid.T, log *[]string, levels int, complete bool) (ecore.ECodecRegistry, []codecLevel) {
	var model []codecLevel
	var registry ecore.ECodecRegistry
	for l := 0; l < levels; l++ {
		var r *ecore.ECodecRegistryImpl
		if l == 0 {
			r = ecore.NewECodecRegistryImpl()
		} else {
			r = ecore.NewECodecRegistryImplWithDelegate(registry)
		}
		level := codecLevel{map[string]*markCodec{}, map[string]*markCodec{}}
		for _, p := range []string{"app", "file", "lib", "http"} {
			if oneIn(t, 6, "protocol") {
				k := &markCodec{name: fmt.Sprintf("protocol-%s-%d", p, l), log: log}
				level.protocols[p] = k
				r.GetProtocolToCodecMap()[p] = k
			}
		}
		for _, e := range []string{"x", "y", "z", "*"} {
			if oneIn(t, 3, "extension") || complete && l == 0 {
				k := &markCodec{name: fmt.Sprintf("extension-%s-%d", e, l), log: log}
				level.extensions[e] = k
				r.GetExtensionToCodecMap()[e] = k
			}
		}
		model = append(model, level)
		registry = r
	}
	return registry, model
}

// codecOf returns the codec declared for an address
func codecOf(uri string, levels []codecLevel) *markCodec {
	a := splitAddress(uri)
	last := a.path[strings.LastIndex(a.path, "/")+1:]
	for l := len(levels) - 1; l >= 0; l-- {
		if k := levels[l].protocols[a.scheme]; k != nil {
			return k
		}
		if i := strings.LastIndex(last, "."); i >= 0 {
			if k := levels[l].extensions[last[i+1:]]; k != nil && last[i+1:] != "*" {
				return k
			}
		}
		if k := levels[l].extensions["*"]; k != nil {
			return k
		}
	}
	return nil
}

func TestP24_Codecs(t *testing.T) {
	runProp(t, "addresses whose codec is chosen by two different rules, or found in a parent registry", 4000, func(t *rapid.T, c *Rec) {
		var log []string
		registry, levels := genCodecs(t, &log, rapid.IntRange(1, 3).Draw(t, "levels"), false)
		rules := map[string]bool{}
		for l := range levels {
			c.Logf("level %d: %d protocols, %d extensions", l, len(levels[l].protocols), len(levels[l].extensions))
		}
		for i := 0; i < 6; i++ {
			s := pickOne(t, "base", []string{"app:/", "file:/d/", "lib:", "http://h.x/", "other:/", "", "/", "dir.x/", "app:/d.y/"}) +
				pickOne(t, "name", []string{"a", "a.x", "a.y", "b.z", "a.x.y", "a.", ".x", "a.w", "sub.x/b", "sub.x/b.y"})
			if oneIn(t, 5, "query") {
				s += "?a=b.x"
			}
			if oneIn(t, 5, "fragment") {
				s += "#//@a.x"
			}
			got := registry.GetCodec(ecore.NewURI(s))
			c.Logf("%s: %v", s, got != nil)
			var want ecore.ECodec
			plain, _, _ := strings.Cut(s, "#")
			k := codecOf(plain, levels)
			if k != nil {
				want = k
				rules[k.name] = true
				c.LabelIf(!strings.HasSuffix(k.name, fmt.Sprint(len(levels)-1)), "parent")
			}
			if got != want {
				t.Fatalf("the codec of %s is %v instead of %v (%v)", s, got, want, levels)
			}
		}
		if len(rules) > 1 {
			c.Nontrivial()
		}
	})
}

func TestP24_Packages(t *testing.T) {
	runProp(t, "a lookup answered by a parent registry, another one by a local registration which hides one", 4000, func(t *rapid.T, c *Rec) {
		n := rapid.IntRange(1, 3).Draw(t, "levels")
		type level struct {
			r        ecore.EPackageRegistry
			packages map[string]ecore.EPackage
		}
		var levels []*level
		for i := 0; i < n; i++ {
			l := &level{packages: map[string]ecore.EPackage{}}
			if i == 0 {
				l.r = ecore.NewEPackageRegistryImpl()
			} else {
				l.r = ecore.NewEPackageRegistryImplWithDelegate(levels[i-1].r)
			}
			levels = append(levels, l)
		}
		uris := []string{"http://a", "http://b", "", "c"}
		var pool []ecore.EPackage
		for _, u := range uris {
			for i := 0; i < 2; i++ {
				p := ecore.GetFactory().CreateEPackage()
				p.SetNsURI(u)
				pool = append(pool, p)
			}
		}
		parent, hidden := false, false
		for i := rapid.IntRange(1, 20).Draw(t, "ops"); i > 0; i-- {
			l := pickOne(t, "level", levels)
			p := pickOne(t, "package", pool)
			u := pickOne(t, "uri", uris)
			op := rapid.IntRange(0, 4).Draw(t, "op")
			c.Logf("op %d, package of %q, %q", op, p.GetNsURI(), u)
			switch op {
			case 0:
				l.r.RegisterPackage(p)
				l.packages[p.GetNsURI()] = p
			case 1:
				l.r.UnregisterPackage(p)
				delete(l.packages, p.GetNsURI())
			case 2:
				l.r.PutPackage(u, p)
				l.packages[u] = p
			case 3:
				l.r.PutSupplier(u, func() ecore.EPackage { return p })
				l.packages[u] = p
			default:
				l.r.Remove(u)
				delete(l.packages, u)
			}
			for li := range levels {
				for _, u := range append(uris, "unknown") {
					var want ecore.EPackage
					found := 0
					for k := li; k >= 0; k-- {
						if p := levels[k].packages[u]; p != nil {
							if want == nil {
								want = p
								parent = parent || k < li
							}
							found++
						}
					}
					hidden = hidden || found > 1
					got := levels[li].r.GetPackage(u)
					if got != want {
						t.Fatalf("the package of %q in registry %d is %v instead of %v", u, li, got, want)
					}
					f := levels[li].r.GetFactory(u)
					if want == nil && f != nil || want != nil && f != want.GetEFactoryInstance() {
						t.Fatalf("the factory of %q in registry %d is %v", u, li, f)
					}
				}
			}
		}
		c.LabelIf(parent, "parent")
		c.LabelIf(hidden, "hidden")
		if parent && hidden {
			c.Nontrivial()
		}
	})
}

func TestP24_ResourceSet(t *testing.T) {
	scratch, err := os.MkdirTemp("", "p24-")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(scratch)
	os.MkdirAll(filepath.Join(scratch, "sub"), 0o755)
	base := "file:" + scratch + "/"
	runProp(t, "a resource found again under another address, and one loaded on demand", 4000, func(t *rapid.T, c *Rec) {
		// files
		files := map[string]string{}
		for _, f := range []string{"a.x", "b.y", "sub/a.x", "sub/c", "n.x"} {
			name := scratch + "/" + f
			if f == "a.x" {
				os.RemoveAll(scratch)
				os.MkdirAll(scratch+"/sub", 0o755)
			}
			if f != "n.x" && !oneIn(t, 4, "exists") {
				files[name] = f
				os.WriteFile(name, []byte(f), 0o644)
			}
		}
		var log []string
		codecs, levels := genCodecs(t, &log, rapid.IntRange(1, 2).Draw(t, "codec levels"), !oneIn(t, 4, "incomplete"))
		rs := ecore.NewEResourceSetImpl()
		rs.SetCodecRegistry(codecs)
		if rapid.Bool().Draw(t, "map") {
			rs.SetURIResourceMap(map[*ecore.URI]ecore.EResource{})
		}
		parent := ecore.NewEPackageRegistryImpl()
		rs.SetPackageRegistry(ecore.NewEPackageRegistryImplWithDelegate(parent))
		mappings := map[string]string{}
		bases := []string{"app:/", "lib:/", "http://h/", "rel/", base}
		names := []string{"a.x", "b.y", "sub/a.x", "sub/c", "n.x", "x/a.x"}
		var known []string
		genURI := func() string {
			if len(known) > 0 && oneIn(t, 2, "known") {
				s := pickOne(t, "known", known)
				if oneIn(t, 2, "other base") {
					best := ""
					for from, to := range mappings {
						if strings.HasPrefix(s, to) && from > best {
							best = from
						}
					}
					if best != "" {
						return best + s[len(mappings[best]):]
					}
				}
				return s
			}
			s := pickOne(t, "base", append(bases, base, base)) + pickOne(t, "name", names)
			if oneIn(t, 12, "memory") {
				s = "memory:/" + s[strings.LastIndex(s, "/")+1:]
			}
			known = append(known, s)
			return s
		}
		type res struct {
			r        ecore.EResource
			uri      string
			loaded   bool
			attempts int
		}
		var in, out []*res
		packages := map[string]*res{}
		normal := func(s string) string {
			n, _, known := normalAddress(s, mappings)
			if !known {
				t.Fatalf("cyclic mappings %v", mappings)
			}
			return n
		}
		// mapped are the mappings the set has
		addMapping := func() {
			from := pickOne(t, "from", bases[:4])
			if oneIn(t, 2, "deeper") {
				from += "sub/"
			}
			to := pickOne(t, "to", append(bases, base, base, base))
			if oneIn(t, 3, "deeper target") {
				to += "sub/"
			}
			next := map[string]string{from: to}
			for k, v := range mappings {
				if k != from {
					next[k] = v
				}
			}
			for _, b := range bases {
				for _, n := range names {
					if _, _, known := normalAddress(b+n, next); !known {
						return
					}
				}
			}
			mappings = next
			rs.GetURIConverter().GetURIMap()[*ecore.NewURI(from)] = *ecore.NewURI(to)
			c.Logf("map %s to %s", from, to)
		}
		candidates := func(s string) (l []*res) {
			n := normal(s)
			for _, r := range in {
				if r.uri != "-" && normal(r.uri) == n {
					l = append(l, r)
				}
			}
			return l
		}
		// path of the file of a normalised address
		file := func(s string) string {
			if n := splitAddress(normal(s)); n.scheme == "file" && strings.HasPrefix(n.path, scratch+"/") {
				return n.path
			}
			return ""
		}
		// expects that a resource has been asked to load
		loads := func(r *res, before int) {
			if r.loaded {
				if len(log) != before {
					t.Fatalf("%s was loaded again: %v", r.uri, log[before:])
				}
				return
			}
			content, exists := files[file(r.uri)]
			k := codecOf(r.uri, levels)
			if !exists || k == nil {
				if len(log) != before || r.r.IsLoaded() {
					t.Fatalf("%s has no file or no codec, and is loaded: %v", r.uri, log[before:])
				}
				if splitAddress(normal(r.uri)).scheme != "memory" && r.r.GetErrors().Empty() {
					t.Fatalf("the resource %s cannot be loaded and does not say why", r.uri)
				}
				c.Label("cannot load")
				return
			}
			want := fmt.Sprintf("%s reads %q", k.name, content)
			if len(log) != before+1 || log[before] != want {
				t.Fatalf("loading %s : %v instead of %s", r.uri, log[before:], want)
			}
			if !r.r.IsLoaded() || r.r.GetContents().Size() != 1 {
				t.Fatalf("%s is not loaded", r.uri)
			}
			r.loaded = true
			c.Label("loaded")
		}
		var loaded, again, gone bool
		ask := func(s string, demand bool, via bool) {
			before := len(log)
			var got ecore.EResource
			var object ecore.EObject
			if via {
				object = rs.GetEObject(ecore.NewURI(s+"#/"), demand)
			} else {
				got = rs.GetResource(ecore.NewURI(s), demand)
			}
			c.Logf("get %s (demand %v, object %v)", s, demand, via)
			var want *res
			if p := packages[s]; p != nil {
				want = p
				if got != p.r && !via {
					t.Fatalf("the resource of the package %s is not the one of %s", s, s)
				}
				if len(log) != before {
					t.Fatalf("asking for the package %s loaded something: %v", s, log[before:])
				}
				c.Label("package")
			} else if l := candidates(s); len(l) > 0 {
				for _, r := range l {
					if via && object != nil && object.EResource() == r.r || got == r.r {
						want = r
					}
				}
				if want == nil && !via {
					t.Fatalf("asking for %s does not give the resource %s", s, l[0].uri)
				}
				if want == nil {
					// no object : the resource is one of those which have no content
					want = l[0]
					for _, r := range l {
						if object == nil && r.r.GetContents().Size() == 0 {
							want = r
						}
					}
				}
				if want.uri != s {
					again = true
				}
				if demand && len(l) == 1 {
					was := want.loaded
					loads(want, before)
					loaded = loaded || !was && want.loaded
				} else if demand {
					// several resources have the address now : any of them
					for _, r := range l {
						if r.r.IsLoaded() {
							r.loaded = true
						}
					}
				} else if len(log) != before {
					t.Fatalf("asking for %s loaded it: %v", s, log[before:])
				}
			} else if demand {
				if rs.GetResources().Size() != len(in)+1 {
					t.Fatalf("asking for %s did not create it", s)
				}
				r := rs.GetResources().Get(rs.GetResources().Size() - 1).(ecore.EResource)
				if !via && r != got || r.GetURI().String() != s {
					t.Fatalf("asking for %s gives %v, the last resource is %v", s, got, r.GetURI())
				}
				want = &res{r: r, uri: s}
				in = append(in, want)
				loads(want, before)
				loaded = loaded || want.loaded
			} else if got != nil || object != nil || len(log) != before {
				t.Fatalf("asking for %s which does not exist gives something: %v %v", s, got, object)
			}
			if via && want != nil {
				var o ecore.EObject
				if want.r.GetContents().Size() > 0 {
					o = want.r.GetContents().Get(0).(ecore.EObject)
				}
				if object != o {
					t.Fatalf("the object of %s is %v instead of %v", s, object, o)
				}
			}
		}
		for i := rapid.IntRange(0, 3).Draw(t, "mappings"); i > 0; i-- {
			addMapping()
		}
		steps := rapid.IntRange(4, 25).Draw(t, "steps")
		for ; steps > 0; steps-- {
			switch op := rapid.IntRange(0, 13).Draw(t, "op"); {
			case op == 0:
				s := genURI()
				if len(candidates(s)) > 0 {
					continue
				}
				c.Logf("create %s", s)
				r := rs.CreateResource(ecore.NewURI(s))
				if r == nil || r.GetURI().String() != s || r.IsLoaded() {
					t.Fatalf("creating %s gives %v", s, r)
				}
				in = append(in, &res{r: r, uri: s})
			case op <= 5:
				ask(genURI(), rapid.Bool().Draw(t, "demand"), oneIn(t, 3, "object"))
			case op == 6 && len(in) > 0:
				i := rapid.IntRange(0, len(in)-1).Draw(t, "i")
				c.Logf("remove %s", in[i].uri)
				rs.GetResources().Remove(in[i].r)
				out = append(out, in[i])
				in = append(append([]*res{}, in[:i]...), in[i+1:]...)
				gone = true
			case op == 7 && len(out) > 0:
				i := rapid.IntRange(0, len(out)-1).Draw(t, "i")
				if out[i].uri != "-" && len(candidates(out[i].uri)) > 0 {
					continue
				}
				c.Logf("add %s", out[i].uri)
				rs.GetResources().Add(out[i].r)
				in = append(in, out[i])
				out = append(append([]*res{}, out[:i]...), out[i+1:]...)
			case op == 8 && len(in) > 0:
				r := pickOne(t, "resource", in)
				s := genURI()
				if oneIn(t, 6, "no uri") {
					c.Logf("no uri for %s", r.uri)
					r.r.SetURI(nil)
					r.uri = "-"
					continue
				}
				if len(candidates(s)) > 0 {
					continue
				}
				c.Logf("rename %s to %s", r.uri, s)
				r.r.SetURI(ecore.NewURI(s))
				r.uri = s
				gone = true
			case op == 9 && len(in) > 0:
				r := pickOne(t, "resource", in)
				c.Logf("unload %s", r.uri)
				r.r.Unload()
				r.loaded = false
				if r.r.IsLoaded() || !r.r.GetContents().Empty() {
					t.Fatalf("%s is not unloaded", r.uri)
				}
			case op == 10:
				addMapping()
			case op == 11 && len(in) > 0:
				r := pickOne(t, "resource", in)
				if r.uri == "-" {
					continue
				}
				path := file(r.uri)
				if n := rs.GetURIConverter().Normalize(ecore.NewURI(r.uri)).String(); n != normal(r.uri) {
					t.Fatalf("%s is normalised as %s instead of %s", r.uri, n, normal(r.uri))
				}
				if path == "" || strings.Contains(path, "/x/") || strings.Contains(path, "sub/sub") {
					continue
				}
				before := len(log)
				c.Logf("save %s in %s", r.uri, path)
				var text string
				for it := r.r.GetContents().Iterator(); it.HasNext(); {
					text += it.Next().(ecore.EPackage).GetName()
				}
				r.r.Save()
				k := codecOf(r.uri, levels)
				data, _ := os.ReadFile(path)
				if k == nil {
					if len(log) != before || r.r.GetErrors().Empty() {
						t.Fatalf("%s has no codec, saving it gives %v and no error", r.uri, log[before:])
					}
					files[path] = string(data) // emptied
					continue
				}
				if want := fmt.Sprintf("%s writes %q", k.name, text); len(log) != before+1 || log[before] != want || string(data) != text {
					t.Fatalf("saving %s gives %v and %q instead of %s", r.uri, log[before:], data, want)
				}
				files[path] = text
				c.Label("saved")
			case op == 12:
				s := genURI()
				if len(packages) > 0 || !oneIn(t, 3, "rare") {
					continue
				}
				p := ecore.GetFactory().CreateEPackage()
				p.SetNsURI(s)
				r := ecore.NewEResourceImpl()
				r.SetURI(ecore.NewURI(genURI()))
				r.GetContents().Add(p)
				packages[s] = &res{r: r, uri: s, loaded: true}
				if rapid.Bool().Draw(t, "local") {
					rs.GetPackageRegistry().RegisterPackage(p)
				} else {
					parent.RegisterPackage(p)
				}
				c.Logf("register the package %s", s)
			case op == 13 && len(packages) > 0:
				for s := range packages {
					rs.GetPackageRegistry().Remove(s)
					parent.Remove(s)
				}
				packages = map[string]*res{}
				c.Logf("unregister the packages")
			}
			if got := rs.GetResources().Size(); got != len(in) {
				t.Fatalf("the resource set has %d resources instead of %d", got, len(in))
			}
			for i, r := range in {
				if rs.GetResources().Get(i) != any(r.r) || r.r.GetResourceSet() != ecore.EResourceSet(rs) {
					t.Fatalf("the resource %d is not %s, or is not in its resource set", i, r.uri)
				}
			}
			for _, r := range out {
				if r.r.GetResourceSet() != nil {
					t.Fatalf("%s is in a resource set", r.uri)
				}
			}
		}
		if rs.GetResource(nil, true) != nil || rs.GetEObject(nil, true) != nil {
			t.Fatal("nothing has a resource")
		}
		c.LabelIf(again, "other address")
		c.LabelIf(gone, "removed or renamed")
		if loaded && again {
			c.Nontrivial()
		}
	})
}
