package harness

// P12: fragments and addresses of objects.

import (
	"fmt"
	"strconv"
	"strings"
	"testing"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

var oddIDs = []string{"a", "b", "x y", "é", "a/b", "0", "1", "@f", "a.1", "%", "a%20b", "a#b", "?a", "a?b", "_"}
var oddElementNames = []string{"a", "a", "a", "b", "a.1", "a.2", "a.01", "b.-1", "@a", "@name", "%", "%%", "%a%", "%a%.1", "a/b", "a b", "é", ".", "..", "a.", ".1", "a%2E1", "#", "?", "a@b", "%25"}

func intrinsicID(w *World, i int) string {
	for _, f := range w.cls[i].All() {
		if f.ID && len(w.attrs[i][f]) == 1 {
			return fmt.Sprint(w.attrs[i][f][0])
		}
	}
	return ""
}

func (w *World) checkFragments() int {
	checked := 0
	count := map[string]int{}
	for i := range w.objs {
		count[fmt.Sprintf("%d %s", w.resourceOf(i), intrinsicID(w, i))]++
	}
	byFragment := make([]map[string]int, len(w.ress))
	for r := range w.ress {
		byFragment[r] = map[string]int{}
	}
	w.identified, w.identifiedBy = map[int][]string{}, map[int][]int{}
	for i, o := range w.objs {
		id := intrinsicID(w, i)
		if strings.HasPrefix(id, "/") || strings.HasSuffix(id, "?") {
			continue
		}
		r := w.resourceOf(i)
		if id != "" && count[fmt.Sprintf("%d %s", r, id)] > 1 {
			// identifiers of objects of a resource are different
			continue
		}
		if r < 0 {
			if id == "" {
				root := i
				for w.cont[root] >= 0 {
					root = w.cont[root]
				}
				u := ecore.GetURI(o)
				path, ok := strings.CutPrefix(u.Fragment(), "//")
				if !ok {
					w.fail("o%d is in no resource and has address %q", i, u)
				}
				if got := ecore.GetEObject(w.objs[root], path); got != o {
					w.fail("o%d has address %q, which is %s in o%d", i, u, w.name(got), root)
				}
			}
			continue
		}
		checked++
		fragment := w.ress[r].GetURIFragment(o)
		if j, ok := byFragment[r][fragment]; ok {
			w.fail("o%d and o%d of r%d both have fragment %q", i, j, r, fragment)
		}
		byFragment[r][fragment] = i
		if got := w.ress[r].GetEObject(fragment); got != o {
			w.fail("o%d of r%d has fragment %q, which is %s", i, r, fragment, w.name(got))
		}
		if !strings.HasPrefix(fragment, "/") {
			// an identifier starts a path, and may be followed by a comment
			if !strings.Contains(fragment, "/") {
				w.identified[r] = append(w.identified[r], fragment)
				w.identifiedBy[r] = append(w.identifiedBy[r], i)
				if got := w.ress[r].GetEObject("/?" + fragment); got != o {
					w.fail("o%d of r%d has identifier %q, and %q is %s", i, r, fragment, "/?"+fragment, w.name(got))
				}
			}
			for _, comment := range []string{"?comment?", "??"} {
				if got := w.ress[r].GetEObject(fragment + comment); got != o {
					w.fail("o%d of r%d has identifier %q, and %q is %s", i, r, fragment, fragment+comment, w.name(got))
				}
			}
		}
		u := ecore.GetURI(o)
		if u == nil || !u.TrimFragment().Equals(w.ress[r].GetURI()) {
			w.fail("o%d of r%d (%s) has address %q", i, r, w.ress[r].GetURI(), u)
		}
		if rs := w.ress[r].GetResourceSet(); rs != nil {
			if got := rs.GetEObject(u, false); got != o {
				w.fail("o%d of r%d has address %q, which is %s in the resource set", i, r, u, w.name(got))
			}
			if got := rs.GetEObject(ecore.NewURI(u.String()), true); got != o {
				w.fail("o%d of r%d has address %q, whose text is %s in the resource set", i, r, u, w.name(got))
			}
		}
	}
	return checked
}

// path draws a fragment path and computes what it denotes
func (w *World) drawPath(r int) (string, int) {
	t := w.t
	roots := w.contents[r]
	root := pickOne(t, "root", []string{"", "", "0", "1", "2", "9", "-1", "x"})
	cur := -1
	switch n, err := strconv.Atoi(root); {
	case root == "":
		if len(roots) > 0 {
			cur = roots[0]
		}
	case err == nil && n >= 0 && n < len(roots):
		cur = roots[n]
	}
	if len(w.identified[r]) > 0 && oneIn(t, 2, "from an identifier") {
		i := rapid.IntRange(0, len(w.identified[r])-1).Draw(t, "identified")
		root, cur = "?"+w.identified[r][i], w.identifiedBy[r][i]
	}
	path := "/" + root
	for k := rapid.IntRange(0, 3).Draw(t, "depth"); k > 0; k-- {
		var feats []*Feat
		if cur >= 0 {
			for _, f := range w.cls[cur].All() {
				if len(w.refs[cur][f]) > 0 || oneIn(t, 6, "empty feature") {
					feats = append(feats, f)
				}
			}
		}
		next := -1
		seg := pickOne(t, "segment", []string{"@nope", "@nope.0", "", "@", "x", "@.0", "@.", "."})
		if len(feats) > 0 && !oneIn(t, 6, "wrong segment") {
			f := pickOne(t, "feature", feats)
			seg = "@" + f.Name
			suffix := ""
			if f.Many != oneIn(t, 8, "wrong suffix") {
				suffix = pickOne(t, "index", []string{".0", ".0", ".1", ".2", ".99", ".-1", ".x", ".", ".99999999999999999999"})
			}
			seg += suffix
			bs := w.refs[cur][f]
			if !f.Attr {
				if !f.Many && suffix == "" && len(bs) == 1 {
					next = bs[0]
				}
				if f.Many && suffix != "" {
					if n, err := strconv.Atoi(suffix[1:]); err == nil && n >= 0 && n < len(bs) {
						next = bs[n]
					}
				}
			}
		}
		path += "/" + seg
		cur = next
	}
	return path, cur
}

func oneOf[T any](t *rapid.T, label string, values []T) T { return pickOne(t, label, values) }

func TestP12_Fragments(t *testing.T) {
	runProp(t, "fragments of at least three objects of resources were checked", 4000, func(t *rapid.T, c *Rec) {
		checked := 0
		ids := rapid.Bool().Draw(t, "ids")
		worldCase(t, c, ModelOpts{Static: true, IDs: ids, DTs: []string{"EString", "EInt"}, NoDefaults: true, MaxClasses: 4, MaxFeats: 4, ContBias: true, Dense: true, NoUnsettable: true, NoTransient: true},
			worldOpts{minObjs: 3, maxObjs: 9, kinds: true, minRess: 1, maxRess: 3, set: true}, 30, func(w *World) {
				w.noNested = true
				w.value = func(f *Feat) any {
					if w.m.Static && f.DT == "EString" {
						return pickOne(t, "name", oddElementNames)
					}
					if f.ID && f.DT == "EString" && oneIn(t, 2, "odd id") {
						return pickOne(t, "id", oddIDs)
					}
					return nil
				}
				for r := range w.ress {
					switch k := rapid.IntRange(0, 4).Draw(t, "manager"); {
					case k == 0:
						w.ress[r].SetObjectIDManager(ecore.NewEObjectIDManagerImpl())
					case k == 1 && !ids:
						w.ress[r].SetObjectIDManager(ecore.NewIncrementalIDManager())
					case k == 2 && !ids:
						w.ress[r].SetObjectIDManager(ecore.NewUUIDManager())
					case k == 3 && !ids:
						w.ress[r].SetObjectIDManager(ecore.NewULIDManager())
					}
				}
				w.plant()
				n := 0
				w.after = func(string) {
					if n++; n%5 == 0 {
						checked += w.checkFragments()
					}
				}
				w.finish = func() {
					checked += w.checkFragments()
					for i := 0; i < 6; i++ {
						r := rapid.IntRange(0, len(w.ress)-1).Draw(t, "resource")
						if w.m.Static {
							fragment := strings.Join(rapid.SliceOfN(rapid.SampledFrom(append([]string{"/", "//", "/", "@eClassifiers", "@eAnnotations.0", "%a%.", "%25", "%zz", "%a", ".1"}, oddElementNames...)), 0, 6).Draw(t, "fragment"), "")
							c.Logf("lookup %q", fragment)
							w.ress[r].GetEObject(fragment)
							continue
						}
						path, want := w.drawPath(r)
						c.Logf("r%d : lookup %q", r, path)
						got := w.ress[r].GetEObject(path)
						if want < 0 && got != nil {
							w.fail("fragment %q of r%d denotes nothing and gives %s", path, r, w.name(got))
						}
						if want >= 0 && got != w.objs[want] {
							w.fail("fragment %q of r%d denotes o%d and gives %s", path, r, want, w.name(got))
						}
						c.LabelIf(want >= 0, "path of an object")
						c.LabelIf(want < 0, "path of nothing")
					}
					for i := 0; i < 3; i++ {
						fragment := rapid.String().Draw(t, "text")
						if rapid.Bool().Draw(t, "pieces") {
							fragment = strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"/", "?", "@", ".", "0", "-", "a", "%", "//", "é", "\x00"}), 0, 6).Draw(t, "pieces"), "")
						}
						r := rapid.IntRange(0, len(w.ress)-1).Draw(t, "resource")
						c.Logf("r%d : lookup %q", r, fragment)
						if got := w.ress[r].GetEObject(fragment); got != nil {
							if i, ok := w.index[got]; !ok {
								w.fail("fragment %q gives an unknown object", fragment)
							} else if fragment == "" {
								w.fail("the empty fragment gives o%d", i)
							}
						}
						w.ress[r].GetResourceSet().GetEObject(ecore.NewURIBuilder(w.ress[r].GetURI()).SetFragment(fragment).URI(), false)
						if len(w.objs) > 0 {
							ecore.GetEObject(w.objs[0], fragment)
						}
					}
				}
			})
		if checked >= 3 {
			c.Nontrivial()
		}
	})
}
