package harness

import (
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// uriParts is a URI as its components, decoded
type uriParts struct {
	scheme, user, password, host, port, path, query, fragment string
}

func partsOf(u *ecore.URI) uriParts {
	return uriParts{u.Scheme(), u.Username(), u.Password(), u.Host(), u.Port(), u.Path(), u.Query(), u.Fragment()}
}

// genURIText draws a valid text and the components it denotes
func genURIText(t *rapid.T, label string) (string, uriParts) {
	var p uriParts
	var s strings.Builder
	p.scheme = pickOne(t, label+"scheme", []string{"", "http", "file", "memory", "x+y.z"})
	if p.scheme != "" {
		s.WriteString(p.scheme + ":")
	}
	authority := rapid.IntRange(0, 2).Draw(t, label+"authority") == 0
	if authority {
		s.WriteString("//")
		switch rapid.IntRange(0, 4).Draw(t, label+"user") {
		case 0:
			p.user = "bob"
			s.WriteString("bob@")
		case 1:
			p.user, p.password = "bob", "p:w/d"
			s.WriteString("bob:p%3Aw%2Fd@")
		}
		p.host = pickOne(t, label+"host", []string{"h", "host.org", "[::1]", "127.0.0.1"})
		s.WriteString(p.host)
		if rapid.Bool().Draw(t, label+"port") {
			p.port = "8080"
			s.WriteString(":8080")
		}
	}
	n := rapid.IntRange(0, 4).Draw(t, label+"segments")
	rooted := n > 0 && (authority || p.scheme != "" || rapid.Bool().Draw(t, label+"rooted"))
	type seg struct{ text, value string }
	segs := []seg{{"a", "a"}, {"b", "b"}, {"c.ext", "c.ext"}, {"d%20e", "d e"}, {"f g", "f g"}, {"é", "é"}, {"%C3%A9", "é"}, {"h%2Fi", "h/i"}, {"j%3Fk%23", "j?k#"}, {"l@m", "l@m"}, {"%25", "%"}, {"n:o", "n:o"}, {".", "."}, {"..", ".."}, {"...", "..."}, {"", ""}, {"q+r", "q+r"}, {"!$&'()*,;=", "!$&'()*,;="}}
	for i := 0; i < n; i++ {
		g := pickOne(t, label+"segment", segs)
		if i == 0 {
			if !rooted && p.scheme == "" && strings.Contains(g.text, ":") {
				g = segs[0]
			}
			if g.text == "" {
				g = segs[1]
			}
			if rooted {
				s.WriteString("/")
				p.path += "/"
			}
		} else {
			s.WriteString("/")
			p.path += "/"
		}
		s.WriteString(g.text)
		p.path += g.value
	}
	switch rapid.IntRange(0, 3).Draw(t, label+"query") {
	case 0:
		p.query = pickOne(t, label+"queryText", []string{"q", "a=b&c=d%20e", "x?y/z"})
		s.WriteString("?" + p.query)
	}
	switch rapid.IntRange(0, 3).Draw(t, label+"fragment") {
	case 0:
		f := pickOne(t, label+"fragmentText", []seg{{"f", "f"}, {"//@a.0/@b", "//@a.0/@b"}, {"a%20b", "a b"}, {"?x?", "?x?"}, {"id-1", "id-1"}})
		p.fragment = f.value
		s.WriteString("#" + f.text)
	}
	return s.String(), p
}

func TestP11_ParsePrint(t *testing.T) {
	runProp(t, "the text has at least two components", 2500, func(t *rapid.T, c *Rec) {
		text, want := genURIText(t, "")
		c.Logf("%q", text)
		u, err := ecore.ParseURI(text)
		if err != nil {
			t.Fatalf("%q is rejected: %v", text, err)
		}
		if u.String() != text {
			t.Fatalf("%q prints %q", text, u.String())
		}
		if got := partsOf(u); got != want {
			t.Fatalf("%q is parsed as %+v instead of %+v", text, got, want)
		}
		if !u.Equals(ecore.NewURI(text)) || !ecore.NewURI(text).Equals(u) {
			t.Fatalf("%q is not equal to itself", text)
		}
		if u.IsAbsolute() != (want.scheme != "") || u.IsEmpty() != (text == "") {
			t.Fatalf("%q : IsAbsolute %v IsEmpty %v", text, u.IsAbsolute(), u.IsEmpty())
		}
		other, _ := genURIText(t, "other")
		if u.Equals(ecore.NewURI(other)) != (text == other) {
			t.Fatalf("%q and %q : Equals gives %v", text, other, text != other)
		}
		components := 0
		for _, s := range []string{want.scheme, want.host, want.path, want.query, want.fragment} {
			if s != "" {
				components++
			}
		}
		if components >= 2 {
			c.Nontrivial()
		}
		c.LabelIf(want.host != "", "authority")
		c.LabelIf(strings.Contains(text, "%"), "escaped")

		// trimming
		noFragment, noQuery := text, text
		if i := strings.IndexByte(text, '#'); i >= 0 {
			noFragment = text[:i]
		}
		if i := strings.IndexByte(text, '?'); i >= 0 && want.query != "" {
			noQuery = text[:i]
			if j := strings.IndexByte(text, '#'); j >= 0 {
				noQuery += text[j:]
			}
		}
		if got := u.TrimFragment().String(); got != noFragment {
			t.Fatalf("%q without its fragment is %q", text, got)
		}
		if got := u.TrimQuery().String(); got != noQuery {
			t.Fatalf("%q without its query is %q", text, got)
		}
		if got := partsOf(u.TrimFragment().TrimQuery()); got != (uriParts{want.scheme, want.user, want.password, want.host, want.port, want.path, "", ""}) {
			t.Fatalf("%q trimmed is %+v", text, got)
		}
		// the authority is the text between // and the path
		if want.host != "" {
			_, a, _ := strings.Cut(text, "//")
			if i := strings.IndexAny(a, "/?#"); i >= 0 {
				a = a[:i]
			}
			if u.Authority() != a {
				t.Fatalf("%q has authority %q", text, u.Authority())
			}
		} else if u.Authority() != "" {
			t.Fatalf("%q has authority %q", text, u.Authority())
		}
	})
}

func genPart(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 3).Draw(t, label+"kind") {
	case 0:
		return ""
	case 1:
		return pickOne(t, label, []string{"a", "b/c", "%", "%41", "a b", "é", "a#b", "a?b", "a:b", "\x01\n", "..", "a//b", "@", "\"<>^`{|}", "\\"})
	default:
		return rapid.StringN(0, 6, -1).Draw(t, label)
	}
}

func TestP11_Builder(t *testing.T) {
	runProp(t, "at least two parts are given", 2500, func(t *rapid.T, c *Rec) {
		var p uriParts
		p.scheme = pickOne(t, "scheme", []string{"", "http", "file", "memory", "a-b"})
		if rapid.Bool().Draw(t, "authority") {
			p.host = pickOne(t, "host", []string{"h", "host.org", "[::1]", "10.0.0.1"})
			p.port = pickOne(t, "port", []string{"", "80", "8080"})
			if rapid.Bool().Draw(t, "login") {
				p.user = "u" + genPart(t, "user")
				p.password = genPart(t, "password")
			}
		}
		p.path = genPart(t, "path")
		if p.path != "" && p.host != "" && p.path[0] != '/' {
			p.path = "/" + p.path
		}
		if p.path != "" && p.host == "" && p.scheme != "" && p.path[0] != '/' {
			p.path = "/" + p.path
		}
		p.fragment = genPart(t, "fragment")
		p.query = pickOne(t, "query", []string{"", "q=1", "a&b", "%20", "x?y", "é"})
		c.Logf("%+q", fmt.Sprintf("%q", p))
		u := ecore.NewURIFromComponents(p.scheme, p.user, p.password, p.host, p.port, p.path, p.query, p.fragment)
		if got := partsOf(u); got != p {
			t.Fatalf("built from %q : %q", p, got)
		}
		again := ecore.NewURI(u.String())
		if again == nil {
			t.Fatalf("built from %q : the text %q is not valid", p, u.String())
		}
		if got := partsOf(again); got != p || !again.Equals(u) {
			t.Fatalf("built from %q : the text %q is parsed as %q", p, u.String(), got)
		}
		if got := partsOf(ecore.NewURIBuilder(u).URI()); got != p || !ecore.NewURIBuilder(u).URI().Equals(u) {
			t.Fatalf("%q rebuilt gives %q", p, got)
		}
		n := 0
		for _, s := range []string{p.scheme, p.host, p.path, p.query, p.fragment} {
			if s != "" {
				n++
			}
		}
		if n >= 2 {
			c.Nontrivial()
		}
		// changing one part changes only that part
		base := p
		text, tp := genURIText(t, "base")
		b := ecore.NewURIBuilder(ecore.NewURI(text))
		which := rapid.IntRange(0, 4).Draw(t, "which")
		w := tp
		switch which {
		case 0:
			b.SetQuery(base.query)
			w.query = base.query
		case 1:
			b.SetFragment(base.fragment)
			w.fragment = base.fragment
		case 2:
			path := base.path
			if path != "" && path[0] != '/' && (tp.host != "" || tp.scheme != "") {
				path = "/" + path
			}
			b.SetPath(path)
			w.path = path
		case 3:
			b.ClearQuery()
			w.query = ""
		default:
			b.ClearFragment()
			w.fragment = ""
		}
		c.Logf("%q with %d", text, which)
		if got := partsOf(b.URI()); got != w {
			t.Fatalf("%q with part %d of %q : %q instead of %q", text, which, base, got, w)
		}
		if got := partsOf(ecore.NewURI(text)); got != tp {
			t.Fatalf("%q was %q, is %q after another one was built from it", text, tp, got)
		}
	})
}

func TestP11_Paths(t *testing.T) {
	runProp(t, "the path needs escaping or is relative", 1500, func(t *rapid.T, c *Rec) {
		n := rapid.IntRange(1, 4).Draw(t, "n")
		segs := []string{}
		for i := 0; i < n; i++ {
			s := strings.ReplaceAll(genPart(t, "segment"), "/", "")
			if s == "" || s == "." || s == ".." {
				s = "x"
			}
			segs = append(segs, s)
		}
		path := strings.Join(segs, "/")
		abs := rapid.Bool().Draw(t, "abs")
		if abs {
			path = "/" + path
		}
		path = filepath.ToSlash(path)
		c.Logf("%q", path)
		u := ecore.CreateFileURI(path)
		wantScheme := ""
		if abs {
			wantScheme = "file"
		}
		if got := partsOf(u); got != (uriParts{scheme: wantScheme, path: path}) {
			t.Fatalf("file %q : %q (%q)", path, got, u)
		}
		if v := ecore.NewURI(u.String()); v == nil || partsOf(v) != partsOf(u) {
			t.Fatalf("file %q : text %q is not parsed as the same", path, u)
		}
		m := ecore.CreateMemoryURI("/" + strings.TrimPrefix(path, "/"))
		if got := partsOf(m); got != (uriParts{scheme: "memory", path: "/" + strings.TrimPrefix(path, "/")}) {
			t.Fatalf("memory %q : %q (%q)", path, got, m)
		}
		if !abs || strings.ContainsAny(path, "%#? :") {
			c.Nontrivial()
		}
	})
}

// rfcRemoveDots is remove_dot_segments of RFC 3986 5.2.4
func rfcRemoveDots(in string) string {
	out := ""
	for in != "" {
		switch {
		case strings.HasPrefix(in, "../"):
			in = in[3:]
		case strings.HasPrefix(in, "./"):
			in = in[2:]
		case strings.HasPrefix(in, "/./"):
			in = in[2:]
		case in == "/.":
			in = "/"
		case strings.HasPrefix(in, "/../"):
			in = in[3:]
			out = out[:max(0, strings.LastIndexByte(out, '/'))]
		case in == "/..":
			in = "/"
			out = out[:max(0, strings.LastIndexByte(out, '/'))]
		case in == "." || in == "..":
			in = ""
		default:
			i := strings.IndexByte(in[1:], '/')
			if i < 0 {
				out += in
				in = ""
			} else {
				out += in[:i+1]
				in = in[i+1:]
			}
		}
	}
	return out
}

type rfcRef struct {
	scheme, authority, path, query, fragment string
	hasAuthority, hasQuery, hasFragment      bool
}

func (r rfcRef) String() string {
	s := ""
	if r.scheme != "" {
		s += r.scheme + ":"
	}
	if r.hasAuthority {
		s += "//" + r.authority
	}
	s += r.path
	if r.hasQuery {
		s += "?" + r.query
	}
	if r.hasFragment {
		s += "#" + r.fragment
	}
	return s
}

// rfcResolve is the transformation of RFC 3986 5.2.2
func rfcResolve(b, r rfcRef) rfcRef {
	if r.scheme != "" {
		return r
	}
	t := rfcRef{scheme: b.scheme, fragment: r.fragment, hasFragment: r.hasFragment}
	if r.hasAuthority {
		t.authority, t.hasAuthority, t.path, t.query, t.hasQuery = r.authority, true, r.path, r.query, r.hasQuery
		return t
	}
	t.authority, t.hasAuthority = b.authority, b.hasAuthority
	t.query, t.hasQuery = r.query, r.hasQuery
	switch {
	case r.path == "":
		t.path = b.path
		if !r.hasQuery {
			t.query, t.hasQuery = b.query, b.hasQuery
		}
	case r.path[0] == '/':
		t.path = r.path
	case b.hasAuthority && b.path == "":
		t.path = rfcRemoveDots("/" + r.path)
	default:
		t.path = rfcRemoveDots(b.path[:strings.LastIndexByte(b.path, '/')+1] + r.path)
	}
	return t
}

func genPathSegs(t *rapid.T, label string, min, max int) []string {
	return rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "c", "a%20b", "d.e", "..f", "g.", "h;i", "é"}), min, max).Draw(t, label)
}

// genBase draws an absolute URI, or a relative one with a rooted path
func genBase(t *rapid.T, relative bool) (r rfcRef, depth int) {
	r.scheme = pickOne(t, "scheme", []string{"http", "file", "memory"})
	if relative && rapid.IntRange(0, 2).Draw(t, "relative") == 0 {
		r.scheme = ""
	}
	if r.scheme == "http" || r.scheme == "file" && rapid.Bool().Draw(t, "authority") {
		r.hasAuthority = true
		r.authority = pickOne(t, "host", []string{"h", "u@h:80", "[::1]:1", "g"})
		if r.scheme == "file" {
			r.authority = ""
		}
	}
	segs := genPathSegs(t, "base", 0, 4)
	depth = len(segs)
	if depth > 0 || !r.hasAuthority || r.authority == "" {
		r.path = "/" + strings.Join(segs, "/")
		if depth > 0 && rapid.Bool().Draw(t, "directory") {
			r.path += "/"
		} else if depth > 0 {
			depth--
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "query") == 0 {
		r.query, r.hasQuery = "bq", true
	}
	if rapid.IntRange(0, 3).Draw(t, "fragment") == 0 {
		r.fragment, r.hasFragment = "bf", true
	}
	return
}

func TestP11_Resolve(t *testing.T) {
	runProp(t, "the reference is relative and not empty", 2500, func(t *rapid.T, c *Rec) {
		base, depth := genBase(t, true)
		var ref rfcRef
		kind := pickOne(t, "kind", []string{"path", "path", "path", "rooted", "empty", "authority", "absolute"})
		switch kind {
		case "path":
			// never climbs above the root
			n := rapid.IntRange(1, 6).Draw(t, "n")
			segs := []string{}
			for i := 0; i < n; i++ {
				switch k := rapid.IntRange(0, 4).Draw(t, "segment"); {
				case k == 0 && depth > 0:
					depth--
					segs = append(segs, "..")
				case k == 1:
					segs = append(segs, ".")
				default:
					depth++
					segs = append(segs, genPathSegs(t, "name", 1, 1)[0])
				}
			}
			ref.path = strings.Join(segs, "/")
			if rapid.IntRange(0, 3).Draw(t, "slash") == 0 {
				ref.path += "/"
			}
		case "rooted", "authority", "absolute":
			ref.path = "/" + strings.Join(genPathSegs(t, "ref", 0, 3), "/")
			if kind == "authority" || kind == "absolute" && rapid.Bool().Draw(t, "refAuthority") {
				ref.authority, ref.hasAuthority = "other:1", true
			}
			if kind == "absolute" {
				ref.scheme = pickOne(t, "refScheme", []string{"http", "memory"})
			}
		}
		if rapid.IntRange(0, 2).Draw(t, "refQuery") == 0 {
			ref.query, ref.hasQuery = pickOne(t, "refQueryText", []string{"q", "a=b"}), true
		}
		if rapid.IntRange(0, 2).Draw(t, "refFragment") == 0 {
			ref.fragment, ref.hasFragment = pickOne(t, "refFragmentText", []string{"f", "//@x.1"}), true
		}
		c.Logf("%s + %s", base, ref)
		c.Label(kind)
		if ref.scheme == "" && ref.String() != "" {
			c.Nontrivial()
		}
		want := rfcResolve(base, ref).String()
		b, r := ecore.NewURI(base.String()), ecore.NewURI(ref.String())
		got := b.Resolve(r)
		if got.String() != want {
			t.Fatalf("%q resolved against %q gives %q instead of %q", ref, base, got, want)
		}
		if !got.Equals(ecore.NewURI(want)) || partsOf(got) != partsOf(ecore.NewURI(want)) {
			t.Fatalf("%q resolved against %q gives parts %q instead of %q", ref, base, partsOf(got), partsOf(ecore.NewURI(want)))
		}
	})
}

func TestP11_Relativize(t *testing.T) {
	runProp(t, "base and target share scheme and authority", 2500, func(t *rapid.T, c *Rec) {
		base, _ := genBase(t, true)
		target, _ := genBase(t, true)
		if rapid.IntRange(0, 3).Draw(t, "same") > 0 {
			target.scheme, target.authority, target.hasAuthority = base.scheme, base.authority, base.hasAuthority
			if target.path == "" {
				target.path = "/"
			}
			if rapid.Bool().Draw(t, "common") {
				dir := base.path[:strings.LastIndexByte(base.path, '/')+1]
				target.path = dir + strings.TrimPrefix(target.path, "/")
				if dir == "" && base.hasAuthority {
					target.path = "/" + target.path
				}
				if target.path == "" {
					target.path = "/"
				}
			}
		}
		if base.scheme == "" && target.scheme == "" && rapid.Bool().Draw(t, "unrooted") {
			base.path, target.path = strings.TrimPrefix(base.path, "/"), strings.TrimPrefix(target.path, "/")
		}
		if rapid.IntRange(0, 3).Draw(t, "targetFragment") == 0 {
			target.fragment, target.hasFragment = "//@a.1", true
		}
		c.Logf("%s from %s", target, base)
		if base.scheme == target.scheme && base.authority == target.authority && base.hasAuthority == target.hasAuthority {
			c.Nontrivial()
		}
		b, u := ecore.NewURI(base.String()), ecore.NewURI(target.String())
		rel := b.Relativize(u)
		back := b.Resolve(rel)
		c.LabelIf(rel.String() != u.String(), "shortened")
		if base.scheme == "" && target.scheme != "" || u.IsEmpty() {
			return
		}
		if target.scheme == "" && base.scheme != "" || target.path == "" && base.scheme == "" {
			// a relative target is not what it denotes under that base
			return
		}
		if back.String() != u.String() {
			t.Fatalf("%q relative to %q is %q, which resolves to %q", u, b, rel, back)
		}
		if base.scheme != "" && base.scheme == target.scheme && base.authority == target.authority && base.hasAuthority == target.hasAuthority {
			dir := base.path[:strings.LastIndexByte(base.path, '/')+1]
			if dir != "" && strings.HasPrefix(target.path, dir) && rel.IsAbsolute() {
				t.Fatalf("%q is in the directory of %q and is not made relative to it", u, b)
			}
		}
	})
}

func TestP11_ReplacePrefix(t *testing.T) {
	runProp(t, "the prefix matches", 2000, func(t *rapid.T, c *Rec) {
		target, _ := genBase(t, true)
		if target.path == "" {
			target.path = "/"
		}
		old := target
		old.query, old.hasQuery, old.fragment, old.hasFragment = "", false, "", false
		if rapid.IntRange(0, 3).Draw(t, "match") == 0 {
			other, _ := genBase(t, true)
			old = other
			old.query, old.hasQuery, old.fragment, old.hasFragment = "", false, "", false
			if old.path == "" {
				old.path = "/"
			}
		} else {
			// up to a slash
			cuts := []int{}
			for i := range old.path {
				if old.path[i] == '/' {
					cuts = append(cuts, i+1)
				}
			}
			cuts = append(cuts, len(old.path))
			old.path = old.path[:pickOne(t, "cut", cuts)]
		}
		repl, _ := genBase(t, false)
		repl.query, repl.hasQuery, repl.fragment, repl.hasFragment = "", false, "", false
		if !strings.HasSuffix(repl.path, "/") {
			repl.path += "/"
		}
		c.Logf("%s : %s -> %s", target, old, repl)
		matches := target.scheme == old.scheme && target.authority == old.authority && strings.HasPrefix(target.path, old.path)
		got := ecore.NewURI(target.String()).ReplacePrefix(ecore.NewURI(old.String()), ecore.NewURI(repl.String()))
		if !matches {
			if got != nil {
				t.Fatalf("%q does not start with %q : replaced by %q in %q", target, old, repl, got)
			}
			return
		}
		c.Nontrivial()
		want := target
		want.scheme, want.authority, want.hasAuthority = repl.scheme, repl.authority, repl.hasAuthority
		want.path = repl.path + target.path[len(old.path):]
		if !want.hasAuthority && strings.HasPrefix(want.path, "//") {
			return
		}
		if got == nil || got.String() != want.String() {
			t.Fatalf("%q : %q replaced by %q gives %q instead of %q", target, old, repl, got, want)
		}
	})
}

func genAnyText(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 2).Draw(t, label+"kind") {
	case 0:
		return rapid.String().Draw(t, label)
	case 1:
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"/", "//", ".", "..", ":", "a", "b", "#", "?", "%", "%2F", "%2E", "@", "[", "]", "[::1]", "http:", "file:", "\x00", "\n", " ", "é", "80", "%zz", "+", "\\"}), 0, 10).Draw(t, label), "")
	default:
		s, _ := genURIText(t, label)
		b := []byte(s)
		if len(b) > 0 {
			i := rapid.IntRange(0, len(b)-1).Draw(t, label+"at")
			b[i] = rapid.Byte().Draw(t, label+"byte")
		}
		return string(b)
	}
}

var (
	uriHistory     = map[string]string{}
	uriHistoryLock sync.Mutex
)

// always checks that an operation always gives the same answer
func always(t *rapid.T, op string, answer string) {
	uriHistoryLock.Lock()
	defer uriHistoryLock.Unlock()
	if previous, ok := uriHistory[op]; ok && previous != answer {
		t.Fatalf("%s gave %s, gives %s", op, previous, answer)
	}
	if len(uriHistory) < 200000 {
		uriHistory[op] = answer
	}
}

func showURI(u *ecore.URI) string {
	if u == nil {
		return "nil"
	}
	return fmt.Sprintf("%q %q", u.String(), partsOf(u))
}

func TestP11_AnyText(t *testing.T) {
	runProp(t, "one of the texts is accepted", 3000, func(t *rapid.T, c *Rec) {
		us := []*ecore.URI{}
		for i := 0; i < 3; i++ {
			text := genAnyText(t, fmt.Sprint("text", i))
			c.Logf("%q", text)
			u, err := ecore.ParseURI(text)
			if (err == nil) != (u != nil) {
				t.Fatalf("%q : URI %v and error %v", text, u, err)
			}
			if (ecore.NewURI(text) == nil) != (u == nil) {
				t.Fatalf("%q : NewURI and ParseURI disagree", text)
			}
			always(t, fmt.Sprintf("parsing %q", text), showURI(u))
			if u != nil {
				if u.String() != text {
					t.Fatalf("%q prints %q", text, u.String())
				}
				us = append(us, u)
				c.Nontrivial()
			} else {
				c.Label("rejected")
			}
		}
		for _, u := range us {
			always(t, fmt.Sprintf("normalizing %q", u), showURI(u.Normalize()))
			if n := u.Normalize(); !n.Normalize().Equals(n) {
				t.Fatalf("%q normalized is %q then %q", u, n, n.Normalize())
			}
			always(t, fmt.Sprintf("trimming the fragment of %q", u), showURI(u.TrimFragment()))
			always(t, fmt.Sprintf("trimming the query of %q", u), showURI(u.TrimQuery()))
			always(t, fmt.Sprintf("rebuilding %q", u), showURI(ecore.NewURIBuilder(u).URI()))
			u.Authority()
			if !u.Equals(u) || u.Equals(nil) {
				t.Fatalf("Equals is wrong for %q", u)
			}
			for _, v := range us {
				if u.Equals(v) != (u.String() == v.String()) {
					t.Fatalf("%q and %q : Equals gives %v", u, v, u.Equals(v))
				}
				always(t, fmt.Sprintf("resolving %q against %q", v, u), showURI(u.Resolve(v)))
				always(t, fmt.Sprintf("making %q relative to %q", v, u), showURI(u.Relativize(v)))
				for _, w := range us {
					always(t, fmt.Sprintf("replacing %q by %q in %q", v, w, u), showURI(u.ReplacePrefix(v, w)))
				}
			}
		}
		p := [8]string{}
		for i := range p {
			p[i] = genPart(t, fmt.Sprint("part", i))
		}
		always(t, fmt.Sprintf("building %q", p), showURI(ecore.NewURIFromComponents(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7])))
	})
}
