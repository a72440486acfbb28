package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/masagroup/soft.go/ecore"
	"pgregory.net/rapid"
)

// jsonField is a member of a JSON object, in the order of the text
type jsonField struct {
	key   string
	value any // string, []any, []jsonField
}

func parseJSON(data []byte) (any, error) {
	if !json.Valid(data) {
		return nil, fmt.Errorf("not valid")
	}
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var value func() (any, error)
	value = func() (any, error) {
		tok, err := d.Token()
		if err != nil {
			return nil, err
		}
		switch tok {
		case json.Delim('{'):
			fields := []jsonField{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				v, err := value()
				if err != nil {
					return nil, err
				}
				fields = append(fields, jsonField{k.(string), v})
			}
			_, err = d.Token()
			return fields, err
		case json.Delim('['):
			list := []any{}
			for d.More() {
				v, err := value()
				if err != nil {
					return nil, err
				}
				list = append(list, v)
			}
			_, err = d.Token()
			return list, err
		}
		return tok, nil
	}
	v, err := value()
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("more than one value")
	}
	return v, nil
}

type jsonChecker struct {
	t    *rapid.T
	rs   ecore.EResourceSet
	from ecore.EResource
	id   func(ecore.EObject) (string, bool)
	// what was seen
	texts, refs, lists, objs, nulls int
	dump                            string
}

func (k *jsonChecker) class(o ecore.EObject) string {
	return o.EClass().GetEPackage().GetNsURI() + "#//" + o.EClass().GetName()
}

func (k *jsonChecker) reference(path string, o ecore.EObject, v any) {
	fields, _ := v.([]jsonField)
	if len(fields) != 2 || fields[0] != (jsonField{"eClass", k.class(o)}) || fields[1].key != "eRef" {
		k.t.Fatalf("%s : the reference to an object of %s is %v", path, o.EClass().GetName(), v)
	}
	k.refs++
	ref, _ := fields[1].value.(string)
	uri := ecore.NewURI(ref)
	if k.from.GetURI() == nil {
		if got := k.from.GetEObject(uri.Fragment()); got != o {
			k.t.Fatalf("%s : the reference %s gives another object than %s\n%s", path, ref, uri, k.dump)
		}
		return
	}
	uri = k.from.GetURI().Resolve(uri)
	if p := o.(ecore.EObjectInternal); p.EIsProxy() {
		if uri.String() != p.EProxyURI().String() {
			k.t.Fatalf("%s : the reference to the proxy %v is %s", path, p.EProxyURI(), ref)
		}
	} else if got := k.rs.GetEObject(uri, false); got != o {
		k.t.Fatalf("%s : the reference %s gives another object than %s\n%s", path, ref, uri, k.dump)
	}
}

func (k *jsonChecker) object(path string, o ecore.EObject, v any) {
	fields, ok := v.([]jsonField)
	if !ok {
		k.t.Fatalf("%s : an object is %v", path, v)
	}
	k.objs++
	next := func(key string) any {
		if len(fields) == 0 || fields[0].key != key {
			k.t.Fatalf("%s : %s is missing before %v", path, key, fields)
		}
		v := fields[0].value
		fields = fields[1:]
		return v
	}
	if c := next("eClass"); c != k.class(o) {
		k.t.Fatalf("%s : the class is %v instead of %s", path, c, k.class(o))
	}
	if k.id != nil {
		if want, ok := k.id(o); ok {
			if got := next("_id"); got != want {
				k.t.Fatalf("%s : the identifier is %v instead of %s", path, got, want)
			}
		}
	}
	for it := o.EClass().GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
		f := it.Next().(ecore.EStructuralFeature)
		r, isRef := f.(ecore.EReference)
		if f.IsTransient() || !o.EIsSet(f) || isRef && r.IsContainer() {
			continue
		}
		p := path + "." + f.GetName()
		one := func(p string, value, v any) {
			if isRef {
				target := value.(ecore.EObject)
				ti := target.(ecore.EObjectInternal)
				if r.IsContainment() && !ti.EIsProxy() && ti.EInternalResource() == nil {
					k.object(p, target, v)
				} else {
					k.reference(p, target, v)
				}
			} else {
				dt := f.GetEType().(ecore.EDataType)
				want := dt.GetEPackage().GetEFactoryInstance().ConvertToString(dt, value)
				if _, ok := v.(string); !ok || utf8.ValidString(want) && v != any(want) {
					k.t.Fatalf("%s : the value is %q instead of %q", p, v, want)
				}
				if strings.ContainsAny(want, "\"\\\n\t\r<>&") {
					k.texts++
				}
			}
		}
		value := o.(ecore.EObject).EGetResolve(f, false)
		if f.IsMany() {
			list, ok := next(f.GetName()).([]any)
			l := value.(ecore.EList)
			if u, ok := l.(ecore.EObjectList); ok && isRef {
				l = u.GetUnResolvedList()
			}
			if !ok || len(list) != l.Size() {
				k.t.Fatalf("%s : the list of %d elements is %v", p, l.Size(), list)
			}
			for i, v := range list {
				one(fmt.Sprintf("%s[%d]", p, i), l.Get(i), v)
			}
			k.lists++
		} else if value == nil {
			if v := next(f.GetName()); v != nil {
				k.t.Fatalf("%s : the value is %v instead of null", p, v)
			}
			k.nulls++
		} else {
			one(p, value, next(f.GetName()))
		}
	}
	if len(fields) > 0 {
		k.t.Fatalf("%s : %v is unexpected", path, fields)
	}
}

func TestP17_JSON(t *testing.T) {
	runProp(t, "at least 3 objects with a reference and a list", 1200, func(t *rapid.T, c *Rec) {
		alone := oneIn(t, 6, "no uri")
		o := graphOpts{Resources: 2, Roots: 1, MaxObjs: 14, CrossRefs: true, CrossCont: true, OddURIs: true, Alpha: AlphaAny}
		if alone {
			o.Resources = 1
		}
		withIDs := oneIn(t, 3, "ids")
		if withIDs {
			o.NewID = func() ecore.EObjectIDManager { return ecore.NewIncrementalIDManager() }
		}
		m := genModel(t, ModelOpts{Pkgs: 2, DTs: allDTs, Maps: true, OddNames: true, Static: true, Avoid: "eClass", ContBias: rapid.Bool().Draw(t, "contbias"), Dense: true})
		if !m.Static && oneIn(t, 4, "odd nsuri") {
			m.Pkgs[0].SetNsURI(m.Pkgs[0].GetNsURI() + pickOne(t, "nsuri", []string{"\"q\"", "\\b", "/<é>\n"}))
		}
		g := genGraph(t, m, o)
		c.Logf("%s\n%s", m, g.dump())
		for ri, r := range g.res {
			if r.GetContents().Empty() {
				continue
			}
			root := r.GetContents().Get(0).(ecore.EObject)
			if alone && len(g.res) == 1 {
				r.SetURI(nil)
			}
			options := map[string]any{}
			k := &jsonChecker{t: t, rs: g.rs, from: r, dump: g.dump() + fmt.Sprint(g.rs.GetResources().Size(), g.res[0].GetURI(), g.res[len(g.res)-1].GetURI())}
			if withIDs {
				options[ecore.JSON_OPTION_ID_ATTRIBUTE_NAME] = "_id"
				k.id = func(o ecore.EObject) (string, bool) {
					if id := r.GetObjectIDManager().GetID(o); id != nil {
						return fmt.Sprint(id), true
					}
					return "", false
				}
			}
			var b bytes.Buffer
			if p := try(func() { ecore.NewJSONEncoder(r, &b, options).EncodeResource() }); p != nil {
				t.Fatalf("encoding the resource panics: %v", p)
			}
			if e := errorsOf(r); e != "" {
				t.Fatalf("encoding the resource: %s", e)
			}
			c.Logf("%s", b.Bytes())
			v, err := parseJSON(b.Bytes())
			if err != nil {
				t.Fatalf("not a JSON document: %v\n%s", err, b.Bytes())
			}
			k.object("/", root, v)
			// an object of the tree
			var objs []ecore.EObject
			for _, o := range g.objs {
				if o.EResource() == r {
					objs = append(objs, o)
				}
			}
			one := pickOne(t, "object", objs)
			b.Reset()
			if err := ecore.NewJSONEncoder(r, &b, options).EncodeObject(one); err != nil {
				t.Fatalf("encoding an object: %v", err)
			}
			if v, err = parseJSON(b.Bytes()); err != nil {
				t.Fatalf("not a JSON document: %v\n%s", err, b.Bytes())
			}
			k.object("/", one, v)
			c.LabelIf(k.texts > 0, "escaped")
			c.LabelIf(k.refs > 0, "references")
			c.LabelIf(k.lists > 0, "lists")
			c.LabelIf(k.nulls > 0, "nulls")
			if k.objs >= 3 && k.refs > 0 && k.lists > 0 {
				c.Nontrivial()
			}
			_ = ri
		}
	})
}
