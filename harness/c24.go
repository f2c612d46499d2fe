package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	apiextint "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	ss "k8s.io/apiextensions-apiserver/pkg/apiserver/schema"
	"k8s.io/apiextensions-apiserver/pkg/apiserver/schema/listtype"
	"k8s.io/apiextensions-apiserver/pkg/apiserver/schema/objectmeta"
	"k8s.io/apiextensions-apiserver/pkg/apiserver/schema/pruning"
	"k8s.io/apimachinery/pkg/util/validation/field"
	oerrors "k8s.io/kube-openapi/pkg/validation/errors"
	"k8s.io/kube-openapi/pkg/validation/spec"
	"k8s.io/kube-openapi/pkg/validation/strfmt"
	"k8s.io/kube-openapi/pkg/validation/validate"
)

// C24: the API server's own code (structural schemas, pruning, list types, value validation) runs
// with the generated schemas on objects that obey the Go types and their markers, and on objects
// that break one marker each.

func init() { register("C24", checkC24) }

func checkC24(c *Ctx) {
	c.Rule("Random API packages (named, aliased and embedded types of several packages, lists, sets, maps keyed by fields, maps, pointers, Kubernetes types, markers on types, fields and items that admit common values, defaults) are put through controller-gen, and every written schema through the API server's structural-schema code. Objects built from the Go types and markers have to pass its validation and pruning unchanged; objects that break one marker, one JSON type, one required field or one list key each have to be refused at that place, and unknown fields have to be removed. A second family has fields of the types of k8s.io/api; compiled programs encode filled values of them. One evaluation is one schema or object; distinct by content.")
	c.Assume("k8s.io/apiextensions-apiserver and k8s.io/kube-openapi at the versions of the module cache are what API servers do; their CEL parts are not available offline, so validation rules are not evaluated")
	c.Min("schemas", 40)
	c.Min("objects_accepted", 400)
	c.Min("objects_refused", 3000)
	c.Min("unknown_fields_removed", 300)
	c.Min("defaults_checked", 60)
	c.Min("encoded_values", 60)
	n := c.N(110, 900)
	nk := c.N(8, 60)
	parallel(n+nk, 6, func(i int) {
		if i < nk {
			c24Kube(c, i)
			return
		}
		c24Model(c, i-nk)
	})
}

// structuralOf converts a written schema the way the API server does.
func structuralOf(sch any) (*ss.Structural, []string) {
	b, err := json.Marshal(sch)
	if err != nil {
		return nil, []string{err.Error()}
	}
	var v1 apiext.JSONSchemaProps
	if err := json.Unmarshal(b, &v1); err != nil {
		return nil, []string{"does not decode: " + err.Error()}
	}
	var in apiextint.JSONSchemaProps
	if err := apiext.Convert_v1_JSONSchemaProps_To_apiextensions_JSONSchemaProps(&v1, &in, nil); err != nil {
		return nil, []string{"does not convert: " + err.Error()}
	}
	s, err := ss.NewStructural(&in)
	if err != nil {
		return nil, []string{"not structural: " + err.Error()}
	}
	var out []string
	for _, e := range ss.ValidateStructural(nil, s) {
		out = append(out, e.Error())
	}
	out = append(out, crdRules(&in, "")...)
	return s, out
}

// crdRules are the rules of the API server for schemas in CRDs that go beyond being structural.
func crdRules(p *apiextint.JSONSchemaProps, path string) []string {
	var out []string
	bad := func(f string, a ...any) { out = append(out, path+": "+fmt.Sprintf(f, a...)) }
	if p == nil {
		return nil
	}
	if path == "" && p.Type != "object" {
		bad("the root is of type %q", p.Type)
	}
	if p.AdditionalProperties != nil {
		if len(p.Properties) > 0 {
			bad("properties and additionalProperties")
		}
		if p.AdditionalProperties.Schema == nil && !p.AdditionalProperties.Allows {
			bad("additionalProperties: false")
		}
		out = append(out, crdRules(p.AdditionalProperties.Schema, path+".*")...)
	}
	if p.UniqueItems {
		bad("uniqueItems")
	}
	if p.Ref != nil {
		bad("reference %s", *p.Ref)
	}
	if p.Pattern != "" {
		if _, err := regexp.Compile(p.Pattern); err != nil {
			bad("pattern: %v", err)
		}
	}
	if t := p.XMapType; t != nil && (p.Type != "object" || *t != "atomic" && *t != "granular") {
		bad("map type %s of type %q", *t, p.Type)
	}
	lt := ""
	if p.XListType != nil {
		lt = *p.XListType
		if p.Type != "array" {
			bad("list type of type %q", p.Type)
		}
	}
	var items *apiextint.JSONSchemaProps
	if p.Items != nil {
		items = p.Items.Schema
		if items == nil {
			bad("several item schemas")
		}
	} else if p.Type == "array" {
		bad("array without items")
	}
	switch lt {
	case "set":
		if items != nil && (items.Nullable || (items.Type == "object" || items.Type == "array") && (items.XMapType == nil || *items.XMapType != "atomic") && (items.XListType == nil || *items.XListType != "atomic")) {
			bad("a set of items of type %q", items.Type)
		}
	case "map":
		if len(p.XListMapKeys) == 0 {
			bad("no keys")
		}
		seen := map[string]bool{}
		for _, k := range p.XListMapKeys {
			if seen[k] {
				bad("key %q twice", k)
			}
			seen[k] = true
			if items == nil || items.Type != "object" {
				bad("keys of what is no list of objects")
				continue
			}
			q, ok := items.Properties[k]
			req := false
			for _, x := range items.Required {
				req = req || x == k
			}
			switch {
			case !ok:
				bad("key %q is no property", k)
			case q.Type == "object" || q.Type == "array":
				bad("key %q is of type %s", k, q.Type)
			case !req && q.Default == nil:
				bad("key %q is neither required nor defaulted", k)
			case q.Nullable:
				bad("key %q is nullable", k)
			}
		}
	case "", "atomic":
		if len(p.XListMapKeys) > 0 {
			bad("keys of a list of type %q", lt)
		}
	default:
		bad("list type %q", lt)
	}
	if items != nil {
		out = append(out, crdRules(items, path+"[]")...)
	}
	for _, k := range sortedKeys(p.Properties) {
		q := p.Properties[k]
		out = append(out, crdRules(&q, path+"."+k)...)
	}
	for _, k := range p.Required {
		if _, ok := p.Properties[k]; !ok && !(path == "" && (k == "spec" || k == "metadata")) {
			bad("required %q is no property", k)
		}
	}
	return out
}

// server is what an API server does with objects of one version of a kind.
type server struct {
	s *ss.Structural
	v *validate.SchemaValidator
}

// nullables has the effect of the conversion of the API server: null is one more type.
func nullables(s *spec.Schema) {
	if s == nil {
		return
	}
	if s.Nullable && len(s.Type) > 0 {
		s.Type = append(s.Type, "null")
	}
	for k, p := range s.Properties {
		nullables(&p)
		s.Properties[k] = p
	}
	if s.Items != nil {
		nullables(s.Items.Schema)
	}
	if s.AdditionalProperties != nil {
		nullables(s.AdditionalProperties.Schema)
	}
}

func openAPIOf(s *ss.Structural) *spec.Schema {
	o := s.DeepCopy().Unfold().ToKubeOpenAPI()
	nullables(o)
	return o
}

func newServer(s *ss.Structural) *server {
	return &server{s: s, v: validate.NewSchemaValidator(openAPIOf(s), nil, "", strfmt.Default)}
}

var mapKey = regexp.MustCompile(`\[([^]0-9][^]]*)\]`)

type valErr struct{ path, msg string }

// check validates an object as the API server does on creation.
func (s *server) check(obj map[string]any) []valErr {
	var out []valErr
	for _, e := range s.v.Validate(obj).Errors {
		if v, ok := e.(*oerrors.Validation); ok {
			n := v.Name
			if v.Code() == oerrors.RequiredFailCode {
				n = strings.TrimSuffix(n, ".")
			}
			out = append(out, valErr{strings.TrimPrefix(n, "."), e.Error()})
			continue
		}
		out = append(out, valErr{"", e.Error()})
	}
	add := func(l field.ErrorList) {
		for _, e := range l {
			out = append(out, valErr{strings.TrimPrefix(mapKey.ReplaceAllString(e.Field, ".$1"), "."), e.Error()})
		}
	}
	add(listtype.ValidateListSetsAndMaps(nil, s.s, obj))
	add(objectmeta.Validate(nil, obj, s.s, true))
	return out
}

func cloneJSON(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := make(map[string]any, len(x))
		for k, e := range x {
			m[k] = cloneJSON(e)
		}
		return m
	case []any:
		l := make([]any, len(x))
		for i, e := range x {
			l[i] = cloneJSON(e)
		}
		return l
	}
	return v
}

// defaultsOf checks the defaults in a schema like the API server: they are valid and nothing in them is unknown.
func defaultsOf(s *ss.Structural, path string, n *int64) []string {
	var out []string
	if s == nil {
		return nil
	}
	if d := s.Default.Object; d != nil {
		*n++
		var l []any
		for _, e := range validate.NewSchemaValidator(openAPIOf(s), nil, "", strfmt.Default).Validate(d).Errors {
			l = append(l, e)
		}
		if len(l) > 0 {
			out = append(out, fmt.Sprintf("%s: default %s: %v", path, canon(d), l))
		}
		p := cloneJSON(d)
		pruning.Prune(p, s, false)
		if canon(p) != canon(d) {
			out = append(out, fmt.Sprintf("%s: default %s is pruned to %s", path, canon(d), canon(p)))
		}
	}
	for _, k := range sortedKeys(s.Properties) {
		q := s.Properties[k]
		out = append(out, defaultsOf(&q, path+"."+k, n)...)
	}
	out = append(out, defaultsOf(s.Items, path+"[]", n)...)
	if s.AdditionalProperties != nil {
		out = append(out, defaultsOf(s.AdditionalProperties.Structural, path+".*", n)...)
	}
	return out
}

// ---- the model: Go types with markers that admit common values

type vCon struct {
	kw   string
	n    int64
	s    string
	f    float64
	set  []any
	excl bool
}

type vT struct {
	k     string // string int bool slice map named, or the name of a type of Kubernetes
	gt    string // Go spelling of a scalar
	elem  *vT
	key   *vT // of a map; nil: string
	named *vNamed
	ptr   bool
}

type vNamed struct {
	pkg    string
	name   string
	under  *vT // nil: struct
	fields []*vField
	cons   []vCon
	alias  bool
	lines  []string
}

type vField struct {
	name, json string
	t          *vT
	cons       []vCon // on the field
	items      []vCon // on its items
	list       string // list type
	keys       []string
	omit       bool
	req        bool
	nullable   bool
	inline     bool
	bare       bool // named by the field
	preserve   bool
	embedded   bool
	lines      []string
}

type vGen struct {
	r                        *rand.Rand
	n                        int
	libs                     map[string][]*vNamed
	pkgs                     []string
	types                    []*vNamed // usable by later ones
	sites                    []*vSite
	floats, optional, dashed bool
}

// vSite is a place in an object.
type vSite struct {
	path []any
	t    *vT
	cons []vCon
	f    *vField
	req  []string // required keys, for objects
	obj  bool     // closed object
}

func (g *vGen) uniq() string { g.n++; return strconv.Itoa(g.n) }

var vPatterns = []struct{ pat, bad string }{
	{"^[a-z]+$", "AB CD"}, {"^[a-z0-9]*$", "ABCD"}, {`^\w{3,10}$`, "a-cdef"}, {"^[^A-Z;,]{2,}$", "ABCD"}, {"^(ab|[c-z]|[a-z]{2})", "ABCD"},
}

// some yields constraints that all admit the same values.
func (g *vGen) some(k string, max int) []vCon {
	r := g.r
	var out []vCon
	used := map[string]bool{}
	for i := 0; i < max; i++ {
		var c vCon
		switch k {
		case "string":
			switch r.Intn(5) {
			case 0:
				c = vCon{kw: "MinLength", n: int64(r.Intn(5))}
			case 1:
				c = vCon{kw: "MaxLength", n: int64(8 + r.Intn(10))}
			case 2, 3:
				c = vCon{kw: "Pattern", s: vPatterns[r.Intn(len(vPatterns))].pat}
			default:
				c = vCon{kw: "Enum", set: []any{"abcd", "wxyz"}}
				for _, x := range subset(r, 40, "abcdef", "Other", "with space", "5", "true", "a,b;c") {
					c.set = append(c.set, x)
				}
				r.Shuffle(len(c.set), func(i, j int) { c.set[i], c.set[j] = c.set[j], c.set[i] })
			}
		case "int", "number":
			switch r.Intn(5) {
			case 0:
				c = vCon{kw: "Minimum", n: int64(r.Intn(30) - 21), excl: chance(r, 40)}
			case 1:
				c = vCon{kw: "Maximum", n: int64(21 + r.Intn(60)), excl: chance(r, 40)}
			case 2:
				c = vCon{kw: "MultipleOf", n: pick(r, int64(2), 5, 10)}
				if k == "number" && chance(r, 40) {
					c = vCon{kw: "MultipleOf", f: 2.5}
				}
			default:
				c = vCon{kw: "Enum", set: []any{int64(10), int64(20)}}
				for _, x := range subset(r, 40, int64(-7), int64(0), int64(15), int64(1000)) {
					c.set = append(c.set, x)
				}
			}
		case "slice":
			c = pick(r, vCon{kw: "MinItems", n: int64(r.Intn(3))}, vCon{kw: "MaxItems", n: int64(2 + r.Intn(4))})
		case "map":
			c = pick(r, vCon{kw: "MinProperties", n: int64(r.Intn(3))}, vCon{kw: "MaxProperties", n: int64(2 + r.Intn(4))})
		default:
			return nil
		}
		if !used[c.kw] {
			used[c.kw] = true
			out = append(out, c)
		}
	}
	return out
}

func vRender(v any) string {
	switch x := v.(type) {
	case string:
		return strconv.Quote(x)
	case []any:
		var l []string
		for _, e := range x {
			l = append(l, vRender(e))
		}
		return "{" + strings.Join(l, ",") + "}"
	case map[string]any:
		var l []string
		for _, k := range sortedKeys(x) {
			l = append(l, strconv.Quote(k)+": "+vRender(x[k]))
		}
		return "{" + strings.Join(l, ", ") + "}"
	}
	return fmt.Sprint(v)
}

func (g *vGen) lines(prefix string, cons []vCon) []string {
	var out []string
	eq := func() string { return pick(g.r, "=", ":=") }
	for _, c := range cons {
		p := "kubebuilder:validation:" + prefix
		switch {
		case c.set != nil:
			var l []string
			for _, v := range c.set {
				s := vRender(v)
				if x, ok := v.(string); ok && regexp.MustCompile("^[a-z]{4,}$").MatchString(x) && x != "true" && chance(g.r, 50) {
					s = x
				}
				l = append(l, s)
			}
			out = append(out, p+c.kw+eq()+pick(g.r, strings.Join(l, ";"), "{"+strings.Join(l, ",")+"}"))
		case c.kw == "Pattern" || c.kw == "Format":
			s := strconv.Quote(c.s)
			if !strings.Contains(c.s, "`") && chance(g.r, 50) {
				s = "`" + c.s + "`"
			}
			out = append(out, p+c.kw+eq()+s)
		default:
			if c.f != 0 {
				out = append(out, p+c.kw+eq()+fmt.Sprint(c.f))
				continue
			}
			out = append(out, p+c.kw+eq()+fmt.Sprint(c.n))
			if c.excl {
				out = append(out, p+"Exclusive"+c.kw+eq()+"true")
			}
		}
	}
	g.r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// base is the kind of a type under its names.
func (t *vT) base() string {
	if t.k == "named" {
		if t.named.under == nil {
			return "struct"
		}
		return t.named.under.base()
	}
	return t.k
}

func (t *vT) jsonType() string {
	switch t.base() {
	case "string", "time", "microtime", "duration", "bytes":
		return "string"
	case "int":
		return "integer"
	case "number":
		return "number"
	case "bool":
		return "boolean"
	case "slice":
		return "array"
	case "map", "struct", "raw":
		return "object"
	}
	return ""
}

func (t *vT) expr(from string, imports map[string]bool) string {
	s := ""
	switch t.k {
	case "slice":
		s = "[]" + t.elem.expr(from, imports)
	case "map":
		k := "string"
		if t.key != nil {
			k = t.key.expr(from, imports)
		}
		s = "map[" + k + "]" + t.elem.expr(from, imports)
	case "named":
		s = t.named.name
		if t.named.pkg != from {
			imports["example.test/m/"+t.named.pkg] = true
			s = filepath.Base(t.named.pkg) + "." + s
		}
	case "quantity":
		imports["k8s.io/apimachinery/pkg/api/resource"] = true
		s = "resource.Quantity"
	case "intstr":
		imports["k8s.io/apimachinery/pkg/util/intstr"] = true
		s = "intstr.IntOrString"
	case "time", "microtime", "duration":
		imports["metav1"] = true
		s = map[string]string{"time": "metav1.Time", "microtime": "metav1.MicroTime", "duration": "metav1.Duration"}[t.k]
	case "raw":
		imports["k8s.io/apimachinery/pkg/runtime"] = true
		s = "runtime.RawExtension"
	case "json":
		imports["apiext"] = true
		s = "apiext.JSON"
	case "bytes":
		s = "[]byte"
	default:
		s = t.gt
	}
	if t.ptr {
		s = "*" + s
	}
	return s
}

func (g *vGen) scalar() *vT {
	switch g.r.Intn(5) {
	case 0, 1:
		return &vT{k: "string", gt: "string"}
	case 2:
		if g.floats && chance(g.r, 50) {
			return &vT{k: "number", gt: pick(g.r, "float32", "float64")}
		}
		fallthrough
	case 3:
		return &vT{k: "int", gt: pick(g.r, "int32", "int64", "int", "int16", "uint16", "uint32", "int8")}
	}
	return &vT{k: "bool", gt: "bool"}
}

func (g *vGen) typ(depth int, refs int) *vT {
	r := g.r
	if len(g.types) > 0 && chance(r, refs) {
		return &vT{k: "named", named: g.types[r.Intn(len(g.types))]}
	}
	switch x := r.Intn(20); {
	case x < 4 && depth > 0:
		return &vT{k: "slice", elem: g.elem(depth-1, refs)}
	case x < 7 && depth > 0:
		return &vT{k: "map", elem: g.elem(depth-1, refs), key: g.key()}
	case x < 10:
		return &vT{k: pick(r, "quantity", "intstr", "time", "microtime", "duration", "raw", "json", "bytes")}
	}
	return g.scalar()
}

// elem is the type of elements: pointers to named types and scalars occur as well.
func (g *vGen) elem(depth, refs int) *vT {
	t := g.typ(depth, refs)
	if (t.k == "named" || t.k == "string" || t.k == "int" || t.k == "quantity") && chance(g.r, 20) {
		return &vT{k: t.k, gt: t.gt, named: t.named, ptr: true}
	}
	return t
}

// key is the type of the keys of a map, nil for string.
func (g *vGen) key() *vT {
	if !chance(g.r, 30) {
		return nil
	}
	var l []*vNamed
	for _, d := range g.types {
		if d.under != nil && !d.alias && d.under.k == "string" && len(d.cons) == 0 {
			l = append(l, d)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return &vT{k: "named", named: l[g.r.Intn(len(l))]}
}

func (g *vGen) decl(pkg string, structs bool) *vNamed {
	r := g.r
	d := &vNamed{pkg: pkg, name: "T" + g.uniq()}
	if !structs && chance(r, 50) {
		d.alias = chance(r, 15)
		d.under = g.typ(2, 35)
		d.under.ptr = false
		if !d.alias {
			d.cons = g.typeCons(d.under)
			d.lines = append(d.lines, g.lines("", d.cons)...)
			if d.under.k == "named" && len(d.cons) > 0 {
				d.lines = append(d.lines, "kubebuilder:validation:Type="+d.under.jsonType())
			}
		}
		return d
	}
	d.fields = g.fields(pkg, 2+r.Intn(5), true)
	return d
}

func (g *vGen) typeCons(t *vT) []vCon {
	if !chance(g.r, 65) {
		return nil
	}
	if b := t.base(); b == "string" || b == "int" || b == "number" || b == "slice" || b == "map" {
		return g.some(b, 1+g.r.Intn(3))
	}
	return nil
}

func (g *vGen) fields(pkg string, n int, embeds bool) []*vField {
	r := g.r
	var out []*vField
	for i := 0; i < n; i++ {
		u := g.uniq()
		f := &vField{name: "F" + u, json: pick(r, "f", "aField", "with-dash", "A") + u}
		if embeds && chance(r, 12) {
			var s []*vNamed
			for _, t := range g.types {
				if t.under == nil && !t.alias {
					s = append(s, t)
				}
			}
			if len(s) > 0 {
				d := s[r.Intn(len(s))]
				dup := false
				for _, o := range out {
					dup = dup || o.inline && overlap(o.t.named, d)
				}
				if !dup {
					f.t, f.inline = &vT{k: "named", named: d}, true
					out = append(out, f)
					continue
				}
			}
		}
		f.t = g.typ(2, 35)
		b := f.t.base()
		direct := f.t.k != "named"
		f.omit = chance(r, 50)
		switch {
		case chance(r, 3) && !g.dashed:
			f.json, g.dashed = "-", true
		case chance(r, 6):
			f.json, f.bare = f.name, true
		}
		switch r.Intn(6) {
		case 0:
			f.req = true
			f.lines = append(f.lines, pick(r, "kubebuilder:validation:Required", "required"))
		case 1:
			f.lines = append(f.lines, pick(r, "kubebuilder:validation:Optional", "optional"))
		default:
			f.req = !f.omit && !g.optional
		}
		if chance(r, 25) && b != "json" && b != "raw" && b != "slice" && b != "map" && b != "bytes" {
			f.t = &vT{k: f.t.k, gt: f.t.gt, elem: f.t.elem, key: f.t.key, named: f.t.named, ptr: true}
			if f.nullable = chance(r, 40); f.nullable {
				f.lines = append(f.lines, "nullable")
			}
		}
		if b == "string" || b == "int" || b == "number" || b == "slice" || b == "map" {
			if chance(r, 45) {
				f.cons = g.some(b, 1+r.Intn(3))
				f.lines = append(f.lines, g.lines("", f.cons)...)
				if !direct && len(f.cons) > 0 {
					f.lines = append(f.lines, "kubebuilder:validation:Type="+f.t.jsonType())
				}
			}
		}
		if direct && b == "string" && len(f.cons) == 0 && chance(r, 15) {
			f.cons = []vCon{{kw: "Format", s: pick(r, "date-time", "ipv4", "uuid", "date", "cidr")}}
			f.lines = append(f.lines, g.lines("", f.cons)...)
		}
		if b == "map" && direct && chance(r, 20) {
			f.lines = append(f.lines, "mapType="+pick(r, "atomic", "granular"))
		}
		if b == "struct" && chance(r, 15) {
			f.lines = append(f.lines, "structType="+pick(r, "atomic", "granular"))
		}
		if b == "struct" && chance(r, 12) {
			f.preserve = true
			f.lines = append(f.lines, "kubebuilder:pruning:PreserveUnknownFields")
		}
		if direct && b == "raw" && chance(r, 40) {
			f.embedded = true
			f.lines = append(f.lines, "kubebuilder:validation:EmbeddedResource", "kubebuilder:pruning:PreserveUnknownFields")
		}
		if direct && b == "slice" {
			e := f.t.elem
			if eb := e.base(); chance(r, 40) && (eb == "string" || eb == "int") {
				f.items = g.some(eb, 1+r.Intn(2))
				f.lines = append(f.lines, g.lines("items:", f.items)...)
				if e.k == "named" && len(f.items) > 0 {
					f.lines = append(f.lines, "kubebuilder:validation:items:Type="+e.jsonType())
				}
			}
			if chance(r, 45) {
				switch eb := e.base(); {
				case eb == "string" || eb == "int":
					f.list = pick(r, "set", "set", "atomic")
				case eb == "struct":
					if ks := keyFields(e.named); len(ks) > 0 {
						f.list, f.keys = "map", ks[:1+r.Intn(len(ks))]
					} else {
						f.list = "atomic"
					}
				default:
					f.list = "atomic"
				}
				f.lines = append(f.lines, "listType"+pick(r, "=", ":=")+f.list)
				for _, k := range f.keys {
					f.lines = append(f.lines, "listMapKey="+k)
				}
			}
		}
		if !f.nullable && !f.t.ptr && chance(r, 22) {
			if v, ok := g.defaultFor(f); ok {
				if chance(r, 30) {
					f.lines = append(f.lines, "default="+canon(v))
				} else {
					f.lines = append(f.lines, "kubebuilder:default"+pick(r, "=", ":=")+vRender(v))
				}
			}
		}
		r.Shuffle(len(f.lines), func(i, j int) { f.lines[i], f.lines[j] = f.lines[j], f.lines[i] })
		// the order of the keys is not what is looked at here
		out = append(out, f)
	}
	return out
}

func overlap(a, b *vNamed) bool {
	seen := map[string]bool{}
	for _, f := range flatFields(a) {
		seen[f.json] = true
	}
	for _, f := range flatFields(b) {
		if seen[f.json] {
			return true
		}
	}
	return false
}

// flatFields are the fields in the encoding of a struct.
func flatFields(d *vNamed) []*vField {
	for d.under != nil {
		d = d.under.named
	}
	var out []*vField
	for _, f := range d.fields {
		if f.inline {
			out = append(out, flatFields(f.t.named)...)
		} else {
			out = append(out, f)
		}
	}
	return out
}

// keyFields are fields that can be keys of lists: required scalars that may be anything.
func keyFields(d *vNamed) []string {
	var out []string
	for _, f := range flatFields(d) {
		if f.req && f.t.k == "string" && !f.t.ptr && len(f.cons) == 0 {
			out = append(out, f.json)
		}
	}
	return out
}

func (g *vGen) defaultFor(f *vField) (any, bool) {
	switch b := f.t.base(); b {
	case "string", "int", "bool":
	case "slice", "map":
		e := f.t
		for e.k == "named" {
			e = e.named.under
		}
		if eb := e.elem.base(); eb != "string" && eb != "int" && eb != "bool" {
			return nil, false
		}
	default:
		return nil, false
	}
	v := g.value(f.t, f.cons, nil, f)
	if m, ok := v.(map[string]any); ok && len(m) == 0 {
		return nil, false
	}
	if l, ok := v.([]any); ok && len(l) == 0 {
		return nil, false
	}
	g.sites = nil
	return v, true
}

// value builds a value that a type and further constraints admit; it notes the places in it.
func (g *vGen) value(t *vT, cons []vCon, path []any, f *vField) any {
	r := g.r
	site := &vSite{path: append([]any{}, path...), t: t, f: f}
	g.sites = append(g.sites, site)
	for t.k == "named" && t.named.under != nil {
		cons = append(append([]vCon{}, cons...), t.named.cons...)
		t = t.named.under
	}
	site.cons = cons
	if f != nil && f.nullable && chance(r, 15) {
		enum := false // an enumeration has to list null as well
		for _, c := range cons {
			enum = enum || c.kw == "Enum"
		}
		if !enum {
			return nil
		}
	}
	lo, hi := int64(0), int64(-1)
	plain := true
	limit := func(min, max string) {
		for _, c := range cons {
			e := int64(0)
			if c.excl {
				e = 1
			}
			switch c.kw {
			case min:
				if c.n+e > lo {
					lo = c.n + e
				}
			case max:
				if hi < 0 || c.n-e < hi {
					hi = c.n - e
				}
			case "Enum", "Pattern", "MultipleOf", "Format":
				plain = false
			}
		}
	}
	switch t.k {
	case "string":
		limit("MinLength", "MaxLength")
		for _, c := range cons {
			if c.kw == "Format" {
				return map[string]string{"date-time": "2021-05-04T03:02:01Z", "ipv4": "10.1.2.3", "uuid": "3d21aaf8-9d1b-4a0e-8b4c-1d1f3a9b7c11", "date": "2021-05-04", "cidr": "10.0.0.0/8"}[c.s]
			}
			if c.kw == "Enum" {
				return pick(r, "abcd", "wxyz")
			}
		}
		if plain {
			if hi < 0 {
				hi = lo + 9
			}
			n := pick(r, lo, hi, lo+r.Int63n(hi-lo+1))
			s := ""
			for i := int64(0); i < n; i++ {
				s += string([]rune("aZ0 é<&\"\\-")[r.Intn(10)])
			}
			return s
		}
		n := 4 + r.Intn(5)
		s := ""
		for i := 0; i < n; i++ {
			s += string(rune('a' + r.Intn(26)))
		}
		return s
	case "int":
		lo = -100
		if strings.HasPrefix(t.gt, "u") {
			lo = 0
		}
		limit("Minimum", "Maximum")
		if !plain {
			return pick(r, int64(10), int64(20))
		}
		if hi < 0 {
			hi = 127
		}
		if lo > hi {
			return int64(10)
		}
		return pick(r, lo, hi, lo+r.Int63n(hi-lo+1))
	case "bool":
		return chance(r, 50)
	case "number":
		for _, c := range cons {
			if c.kw == "Enum" || c.kw == "MultipleOf" {
				return int64(10)
			}
		}
		return pick[any](r, 10.5, 12.25, int64(13))
	case "slice":
		limit("MinItems", "MaxItems")
		if hi < 0 {
			hi = lo + 2
		}
		n := pick(r, lo, hi, lo+r.Int63n(hi-lo+1))
		if len(path) > 9 {
			n = lo
		}
		var ic []vCon
		list := ""
		if f != nil && site.f == f && f.t.k == "slice" {
			ic, list = f.items, f.list
		}
		if list == "set" && n > 2 {
			n = 2
			if lo > n {
				n = lo
			}
		}
		l := []any{}
		seen := map[string]bool{}
		for i := 0; int64(i) < n; i++ {
			mark := len(g.sites)
			p := append(append([]any{}, path...), i)
			v := g.value(t.elem, ic, p, nil)
			if list == "set" {
				for try := 0; seen[canon(v)] && try < 60; try++ {
					g.sites = g.sites[:mark]
					v = g.value(t.elem, ic, p, nil)
				}
				if seen[canon(v)] {
					g.sites = g.sites[:mark]
					break
				}
				seen[canon(v)] = true
			}
			if list == "map" {
				for _, k := range f.keys {
					v.(map[string]any)[k] = fmt.Sprint("key", i)
				}
			}
			l = append(l, v)
		}
		return l
	case "map":
		limit("MinProperties", "MaxProperties")
		if hi < 0 {
			hi = lo + 2
		}
		n := pick(r, lo, hi, lo+r.Int63n(hi-lo+1))
		if len(path) > 9 {
			n = lo
		}
		m := map[string]any{}
		for i := 0; int64(i) < n; i++ {
			k := fmt.Sprint("k", i)
			m[k] = g.value(t.elem, nil, append(append([]any{}, path...), k), nil)
		}
		return m
	case "named": // a struct
		site.obj = f == nil || !f.preserve
		m := map[string]any{}
		for _, x := range flatFields(t.named) {
			if x.req {
				site.req = append(site.req, x.json)
			} else if chance(r, 35) {
				continue
			}
			m[x.json] = g.value(x.t, x.cons, append(append([]any{}, path...), x.json), x)
		}
		return m
	case "quantity":
		return pick[any](r, "1", "500m", "3Gi", int64(7), "-2", "1e3")
	case "intstr":
		return pick[any](r, int64(80), "http", "50%")
	case "time":
		return "2021-05-04T03:02:01Z"
	case "microtime":
		return "2021-05-04T03:02:01.000123Z"
	case "duration":
		return "1h0m0s"
	case "bytes":
		return "AQID"
	case "raw":
		if f != nil && f.embedded {
			return map[string]any{"apiVersion": "v1", "kind": "Pod", "metadata": map[string]any{"name": "n"}, "spec": map[string]any{"x": int64(1)}}
		}
		return map[string]any{"any": []any{int64(1), map[string]any{"x": nil}}}
	case "json":
		return pick[any](r, "s", int64(3), true, []any{int64(1), "x"}, map[string]any{"a": map[string]any{"b": int64(1)}})
	}
	panic(t.k)
}

type vBad struct {
	what string
	path []any
	v    any
	del  bool
}

// bads lists ways to break the value at a place.
func (g *vGen) bads(s *vSite, cur any) []vBad {
	var out []vBad
	add := func(what string, v any) { out = append(out, vBad{what: what, path: s.path, v: v}) }
	if cur == nil {
		return nil
	}
	for _, c := range s.cons {
		switch c.kw {
		case "MinLength":
			if c.n > 0 {
				add(fmt.Sprint(c), strings.Repeat("a", int(c.n-1)))
			}
		case "MaxLength":
			add(fmt.Sprint(c), strings.Repeat("é", int(c.n+1)))
		case "Pattern":
			for _, p := range vPatterns {
				if p.pat == c.s {
					add(fmt.Sprint(c), p.bad)
				}
			}
		case "Enum":
			if _, ok := c.set[0].(string); ok {
				add(fmt.Sprint(c), "abcde")
			} else {
				add(fmt.Sprint(c), int64(30))
			}
		case "Format":
			add(fmt.Sprint(c), "abcd")
		case "Minimum":
			if c.excl {
				add(fmt.Sprint(c), c.n)
			} else {
				add(fmt.Sprint(c), c.n-1)
			}
		case "Maximum":
			if c.excl {
				add(fmt.Sprint(c), c.n)
			} else {
				add(fmt.Sprint(c), c.n+1)
			}
		case "MultipleOf":
			add(fmt.Sprint(c), int64(11))
		case "MinItems":
			if l, ok := cur.([]any); ok && c.n > 0 && len(l) >= int(c.n) {
				add(fmt.Sprint(c), cloneJSON(l[:c.n-1]))
			}
		case "MaxItems":
			if l, ok := cur.([]any); ok && len(l) > 0 {
				x := []any{}
				for i := int64(0); i <= c.n; i++ {
					x = append(x, cloneJSON(l[0]))
				}
				add(fmt.Sprint(c), x)
			}
		case "MinProperties":
			if m, ok := cur.(map[string]any); ok && c.n > 0 {
				x := map[string]any{}
				for _, k := range sortedKeys(m)[:c.n-1] {
					x[k] = cloneJSON(m[k])
				}
				add(fmt.Sprint(c), x)
			}
		case "MaxProperties":
			if m, ok := cur.(map[string]any); ok && len(m) > 0 {
				x := map[string]any{}
				for i := int64(0); i <= c.n; i++ {
					x[fmt.Sprint("q", i)] = cloneJSON(m[sortedKeys(m)[0]])
				}
				add(fmt.Sprint(c), x)
			}
		}
	}
	wrong := map[string]any{"string": int64(5), "integer": "x", "boolean": "true", "array": map[string]any{"a": int64(1)}, "object": []any{}, "number": "1.5"}[s.t.jsonType()]
	switch b := s.t.base(); b {
	case "quantity", "intstr":
		wrong = true
		if b == "quantity" {
			add("pattern of quantities", "five")
		}
	case "time", "microtime":
		add("format of times", "yesterday")
	case "json":
		wrong = nil
	}
	if wrong != nil {
		add("JSON type", wrong)
		if s.t.base() == "int" {
			add("fraction", 1.5)
		}
		if b := s.t.base(); b != "quantity" && b != "intstr" && (s.f == nil || !s.f.nullable) {
			add("null", nil)
		}
	}
	if s.f != nil && s.f.t == s.t {
		if l, ok := cur.([]any); ok && len(l) > 0 {
			switch s.f.list {
			case "set":
				add("duplicate in a set", append(cloneJSON(l).([]any), cloneJSON(l[0])))
			case "map":
				x := cloneJSON(l).([]any)
				add("duplicate key", append(x, cloneJSON(l[0])))
			}
		}
	}
	if s.f != nil && s.f.embedded {
		add("embedded resource", map[string]any{"apiVersion": "v1", "metadata": map[string]any{}})
	}
	for _, k := range s.req {
		out = append(out, vBad{what: "required " + k, path: append(append([]any{}, s.path...), k), del: true})
	}
	return out
}

func jsonAt(v any, path []any) any {
	for _, p := range path {
		switch k := p.(type) {
		case string:
			v = v.(map[string]any)[k]
		case int:
			v = v.([]any)[k]
		}
	}
	return v
}

func pathStr(path []any) string {
	s := ""
	for _, p := range path {
		if i, ok := p.(int); ok {
			s += fmt.Sprintf("[%d]", i)
		} else {
			s += "." + fmt.Sprint(p)
		}
	}
	return strings.TrimPrefix(s, ".")
}

func setAt(v any, path []any, nv any, del bool) {
	p := jsonAt(v, path[:len(path)-1])
	switch k := path[len(path)-1].(type) {
	case string:
		if del {
			delete(p.(map[string]any), k)
		} else {
			p.(map[string]any)[k] = nv
		}
	case int:
		p.([]any)[k] = nv
	}
}

func (g *vGen) render(dir string, pkg string, decls []*vNamed, kinds []*vNamed) {
	imports := map[string]bool{}
	var b strings.Builder
	doc := func(indent, d string, lines []string) {
		fmt.Fprintf(&b, "%s// %s\n", indent, d)
		for _, l := range lines {
			fmt.Fprintf(&b, "%s// +%s\n", indent, l)
		}
	}
	structBody := func(d *vNamed, extra string) {
		fmt.Fprintf(&b, "type %s struct {\n%s", d.name, extra)
		for _, f := range d.fields {
			doc("\t", f.name+" is a field.", f.lines)
			tag := f.json
			if f.bare {
				tag = ","
			}
			if f.omit {
				tag = strings.TrimSuffix(tag, ",") + []string{",omitempty", ",omitempty", ",omitempty", ",omitzero"}[b.Len()%4]
			}
			if tag == "-" {
				tag = "-,"
			}
			if f.inline {
				fmt.Fprintf(&b, "\t%s `json:\",inline\"`\n\n", f.t.expr(pkg, imports))
				continue
			}
			fmt.Fprintf(&b, "\t%s %s `json:%q`\n\n", f.name, f.t.expr(pkg, imports), tag)
		}
		b.WriteString("}\n\n")
	}
	for _, d := range decls {
		doc("", d.name+" is a type.", d.lines)
		switch {
		case d.under == nil:
			structBody(d, "")
		case d.alias:
			fmt.Fprintf(&b, "type %s = %s\n\n", d.name, d.under.expr(pkg, imports))
		default:
			fmt.Fprintf(&b, "type %s %s\n\n", d.name, d.under.expr(pkg, imports))
		}
	}
	for _, d := range kinds {
		doc("", d.name+" is a kind.", append([]string{"kubebuilder:object:root=true"}, d.lines...))
		imports["metav1"] = true
		structBody(d, "\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n")
	}
	var h strings.Builder
	if len(kinds) > 0 {
		fmt.Fprintf(&h, "// +groupName=g.example.test\n")
	}
	if g.optional {
		fmt.Fprintf(&h, "// +kubebuilder:validation:Optional\n")
	}
	fmt.Fprintf(&h, "package %s\n\nimport (\n", filepath.Base(pkg))
	for _, p := range sortedKeys(imports) {
		switch p {
		case "metav1":
			p = `metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"`
		case "apiext":
			p = `apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"`
		default:
			p = strconv.Quote(p)
		}
		h.WriteString("\t" + p + "\n")
	}
	writeFile(filepath.Join(dir, pkg, "types.go"), h.String()+")\n\n"+b.String())
}

func c24Model(c *Ctx, i int) {
	r := c.Rng("model", i)
	g := &vGen{r: r, libs: map[string][]*vNamed{}, floats: chance(r, 40)}
	dir := c.CaseDir("c24")
	newModule(dir, "example.test/m")
	libs := []string{"lib/a", "lib/b"}[:1+r.Intn(2)]
	apis := []string{"api/v1", "api/v1beta2", "api/v2"}[:1+r.Intn(3)]
	for _, p := range append(append([]string{}, libs...), apis...) {
		n := 3 + r.Intn(5)
		g.optional = chance(r, 20)
		var l []*vNamed
		for j := 0; j < n; j++ {
			d := g.decl(p, false)
			l = append(l, d)
			g.types = append(g.types, d)
		}
		// something to key lists by
		key := &vNamed{pkg: p, name: "Key" + g.uniq()}
		key.fields = append(key.fields, &vField{name: "Name", json: "name" + g.uniq(), t: &vT{k: "string", gt: "string"}, req: true, lines: []string{"required"}})
		ent := &vNamed{pkg: p, name: "Entry" + g.uniq()}
		ent.fields = append([]*vField{{name: "K", inline: true, t: &vT{k: "named", named: key}}}, g.fields(p, 2, false)...)
		l = append(l, key, ent)
		g.types = append(g.types, key, ent, ent)
		var kinds []*vNamed
		if strings.HasPrefix(p, "api/") {
			for j := 0; j < 2; j++ {
				sp := &vNamed{pkg: p, name: "Spec" + g.uniq(), fields: g.fields(p, 7, true)}
				l = append(l, sp)
				k := &vNamed{pkg: p, name: "Kind" + g.uniq()}
				if p == "api/v1" && len(apis) > 1 {
					k.lines = []string{"kubebuilder:storageversion"}
				} else if p != "api/v1" { // another version of the same kind
					k.name = g.libs["api/v1"][j].name
				}
				k.fields = append(k.fields, &vField{name: "Spec", json: "spec", req: chance(r, 50), t: &vT{k: "named", named: sp}})
				if k.fields[0].omit = !k.fields[0].req; k.fields[0].req {
					k.fields[0].lines = []string{"required"}
				}
				kinds = append(kinds, k)
			}
		}
		g.render(dir, p, l, kinds)
		g.libs[p] = kinds
	}
	opts := subset(r, 40, "generateEmbeddedObjectMeta=true")
	if g.floats {
		opts = append(opts, "allowDangerousTypes=true")
	}
	gen := "crd"
	if len(opts) > 0 {
		gen += ":" + strings.Join(opts, ",")
	}
	crds, ok := c24Generate(c, dir, gen, "paths=./api/...")
	if !ok {
		return
	}
	var served []*vNamed
	for _, p := range apis {
		served = append(served, g.libs[p]...)
	}
	for _, k := range served {
		srv := c24Schema(c, dir, crds, k.name, filepath.Base(k.pkg))
		if srv == nil {
			continue
		}
		for j := 0; j < c.N(10, 24)/len(apis); j++ {
			g.sites = nil
			m := g.value(&vT{k: "named", named: k}, nil, nil, nil).(map[string]any)
			m["apiVersion"], m["kind"], m["metadata"] = "g.example.test/"+filepath.Base(k.pkg), k.name, map[string]any{"name": "n"}
			sites := g.sites
			c24Accept(c, dir, srv, k.name, m)
			// one unknown field at a time
			var objs []*vSite
			for _, s := range sites {
				if s.obj {
					objs = append(objs, s)
				}
			}
			for t := 0; t < 4 && len(objs) > 0; t++ {
				s := objs[r.Intn(len(objs))]
				x := cloneJSON(m).(map[string]any)
				o, isObj := jsonAt(x, s.path).(map[string]any)
				if !isObj {
					continue
				}
				o["unknownField"] = pick[any](r, "v", int64(1), map[string]any{"a": "b"})
				pruning.Prune(x, srv.s, true)
				c.Count("unknown_fields_removed", 1)
				c.Eval(canon(x) + pathStr(s.path))
				if canon(x) != canon(m) {
					c.Violate("unknown", fmt.Sprintf("%s: an unknown field at %q is not all that is pruned: %s", k.name, pathStr(s.path), clip(canon(x), 1500)), nil, dir)
				}
			}
			// one fault at a time
			var bads []vBad
			for _, s := range sites {
				if len(s.path) == 0 {
					continue
				}
				for _, b := range g.bads(s, jsonAt(m, s.path)) {
					bads = append(bads, b)
				}
			}
			r.Shuffle(len(bads), func(a, b int) { bads[a], bads[b] = bads[b], bads[a] })
			sort.SliceStable(bads, func(a, b int) bool { return prio(bads[a]) > prio(bads[b]) })
			if max := c.N(70, 200); len(bads) > max {
				bads = bads[:max]
			}
			for _, b := range bads {
				x := cloneJSON(m).(map[string]any)
				setAt(x, b.path, b.v, b.del)
				errs := srv.check(x)
				c.Count("objects_refused", 1)
				kind := strings.Fields(strings.Trim(b.what, "{"))[0]
				c.See("faults", kind)
				c.Eval(pathStr(b.path) + canon(x))
				at := false
				p := pathStr(b.path)
				for _, e := range errs {
					at = at || e.path == p || strings.HasPrefix(e.path, p+".") || strings.HasPrefix(e.path, p+"[")
				}
				if !at {
					c.Violate("accepted", fmt.Sprintf("%s: the schema accepts what breaks %s at %s: %s (errors: %v)", k.name, b.what, p, clip(canon(b.v), 300), errs), nil, dir)
				}
			}
		}
	}
}

func prio(b vBad) int {
	if strings.HasPrefix(b.what, "{") || strings.HasPrefix(b.what, "dup") {
		return 1
	}
	return 0
}

func c24Generate(c *Ctx, dir string, args ...string) (map[string]any, bool) {
	out := filepath.Join(dir, "out")
	res := c.Gen(dir, append(args, "output:dir="+out)...)
	if res.Code != 0 || strings.TrimSpace(res.Stderr) != "" {
		c.Violate("rejected", fmt.Sprintf("valid packages rejected (exit %d):\n%s", res.Code, clip(res.Stderr, 3000)), nil, dir)
		return nil, false
	}
	crds, bad := parseCRDs(snapshot(out))
	for _, b := range bad {
		c.Violate("crd-file", b, nil, dir)
	}
	return crds, true
}

func c24Schema(c *Ctx, dir string, crds map[string]any, kind, version string) *server {
	sch := versionSchema(crds["g.example.test/"+kind], version)
	if sch == nil {
		c.Violate("missing", "no schema for "+kind, nil, dir)
		return nil
	}
	s, errs := structuralOf(sch)
	c.Count("schemas", 1)
	c.Eval(canon(sch))
	if len(errs) > 0 {
		c.Violate("structural", fmt.Sprintf("%s: an API server refuses the schema:\n%s", kind, clip(strings.Join(errs, "\n"), 3000)), nil, dir)
		return nil
	}
	var n int64
	if d := defaultsOf(s, "", &n); len(d) > 0 {
		c.Violate("default", fmt.Sprintf("%s: defaults an API server refuses:\n%s", kind, clip(strings.Join(d, "\n"), 3000)), nil, dir)
	}
	c.Count("defaults_checked", n)
	return newServer(s)
}

func c24Accept(c *Ctx, dir string, srv *server, kind string, m map[string]any) {
	c.Count("objects_accepted", 1)
	c.Eval(canon(m))
	x := cloneJSON(m).(map[string]any)
	pruning.Prune(x, srv.s, true)
	if canon(x) != canon(m) {
		c.Violate("pruned", fmt.Sprintf("%s: a value of the type loses something to pruning:\n%s", kind, clip(lineDiff(indentJSON(m), indentJSON(x)), 2500)), nil, dir)
	}
	if errs := srv.check(m); len(errs) > 0 {
		c.Violate("refused", fmt.Sprintf("%s: a value of the type is refused: %v\n%s", kind, errs, clip(canon(m), 2500)), nil, dir)
	}
}

func indentJSON(v any) string {
	b, _ := json.MarshalIndent(v, "", " ")
	return string(b)
}

// types of k8s.io/api and apimachinery as fields
var kubeTypes = []struct{ pkg, name string }{
	{"core/v1", "PodSpec"}, {"core/v1", "PodTemplateSpec"}, {"core/v1", "Container"}, {"core/v1", "Affinity"}, {"core/v1", "Volume"}, {"core/v1", "ServiceSpec"},
	{"core/v1", "PersistentVolumeClaimSpec"}, {"core/v1", "PersistentVolumeSpec"}, {"core/v1", "Probe"}, {"core/v1", "EnvVar"}, {"core/v1", "EnvFromSource"}, {"core/v1", "ResourceRequirements"}, {"core/v1", "Toleration"},
	{"core/v1", "TopologySpreadConstraint"}, {"core/v1", "SecurityContext"}, {"core/v1", "PodSecurityContext"}, {"core/v1", "ObjectReference"}, {"core/v1", "LocalObjectReference"},
	{"core/v1", "SecretKeySelector"}, {"core/v1", "NodeSelector"}, {"core/v1", "ServicePort"}, {"core/v1", "NodeStatus"}, {"core/v1", "ResourceList"}, {"core/v1", "Protocol"}, {"core/v1", "TypedLocalObjectReference"}, {"core/v1", "LoadBalancerStatus"}, {"core/v1", "EphemeralContainer"}, {"core/v1", "ResourceQuotaSpec"}, {"core/v1", "LimitRangeSpec"}, {"core/v1", "PodStatus"},
	{"apps/v1", "DeploymentSpec"}, {"apps/v1", "StatefulSetSpec"}, {"apps/v1", "DaemonSetSpec"}, {"apps/v1", "DeploymentStatus"}, {"apps/v1", "DeploymentStrategy"},
	{"batch/v1", "JobSpec"}, {"batch/v1", "CronJobSpec"}, {"batch/v1", "JobTemplateSpec"}, {"batch/v1", "JobStatus"},
	{"networking/v1", "IngressSpec"}, {"networking/v1", "NetworkPolicySpec"}, {"networking/v1", "IngressTLS"},
	{"autoscaling/v2", "HorizontalPodAutoscalerSpec"}, {"autoscaling/v2", "MetricSpec"}, {"policy/v1", "PodDisruptionBudgetSpec"}, {"rbac/v1", "PolicyRule"}, {"rbac/v1", "Subject"}, {"rbac/v1", "RoleRef"},
	{"coordination/v1", "LeaseSpec"}, {"storage/v1", "VolumeAttachmentSpec"}, {"discovery/v1", "EndpointPort"}, {"discovery/v1", "Endpoint"}, {"scheduling/v1", "PriorityClass"}, {"admissionregistration/v1", "RuleWithOperations"}, {"admissionregistration/v1", "MutatingWebhook"},
	{"meta/v1", "LabelSelector"}, {"meta/v1", "Condition"}, {"meta/v1", "OwnerReference"}, {"meta/v1", "GroupVersionKind"}, {"meta/v1", "ListMeta"},
}

func c24Kube(c *Ctx, i int) {
	r := c.Rng("kube", i)
	dir := c.CaseDir("c24k")
	newModule(dir, "example.test/m")
	imports := map[string]string{"k8s.io/apimachinery/pkg/apis/meta/v1": "metav1"}
	perm := r.Perm(len(kubeTypes))
	var b, rows strings.Builder
	var kinds []string
	at := 0
	for k := 0; k < 2; k++ {
		kind := fmt.Sprintf("Kind%d", k)
		kinds = append(kinds, kind)
		fmt.Fprintf(&rows, "\t{%q, func() any { return new(v1.%s) }},\n", kind, kind)
		fmt.Fprintf(&b, "// +kubebuilder:object:root=true\n\n// %s is a kind.\ntype %s struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec %sSpec `json:\"spec\"`\n}\n\n", kind, kind, kind)
		fmt.Fprintf(&b, "type %sSpec struct {\n", kind)
		inline := map[string]bool{}
		for j := 0; j < c.N(7, 12); j++ {
			t := kubeTypes[perm[at%len(perm)]]
			at++
			ip := "k8s.io/api/" + t.pkg
			al := strings.ReplaceAll(t.pkg, "/", "")
			if t.pkg == "meta/v1" {
				ip, al = "k8s.io/apimachinery/pkg/apis/meta/v1", "metav1"
			}
			imports[ip] = al
			expr := pick(r, "", "", "*", "[]", "map[string]") + al + "." + t.name
			om := pick(r, "", ",omitempty", ",omitzero")
			if strings.HasPrefix(expr, "*") {
				om = pick(r, ",omitempty", ",omitempty", ",omitzero")
			}
			if len(inline) == 0 && t.name != "Protocol" && t.name != "ResourceList" && chance(r, 20) {
				inline[t.name] = true
				fmt.Fprintf(&b, "\t%s.%s `json:\",inline\"`\n", al, t.name)
				continue
			}
			fmt.Fprintf(&b, "\t// F%d is a field.\n\tF%d %s `json:\"x%d%s\"`\n", at, at, expr, at, om)
			c.See("kube_types", t.pkg+"."+t.name)
		}
		b.WriteString("}\n\n")
	}
	var h strings.Builder
	for _, p := range sortedKeys(imports) {
		fmt.Fprintf(&h, "\t%s %q\n", imports[p], p)
	}
	writeFile(filepath.Join(dir, "api/v1/types.go"), "// +groupName=g.example.test\npackage v1\n\nimport (\n"+h.String()+")\n\n"+b.String())
	crds, ok := c24Generate(c, dir, "crd:generateEmbeddedObjectMeta=true,allowDangerousTypes=true,maxDescLen="+pick(r, "0", "50"), "paths=./api/...")
	if !ok {
		return
	}
	srv := map[string]*server{}
	for _, k := range kinds {
		if s := c24Schema(c, dir, crds, k, "v1"); s != nil {
			srv[k] = s
		}
	}
	writeFile(filepath.Join(dir, "cmd/enc/main.go"), fmt.Sprintf(kubeFill, rows.String()))
	res := runCmd(dir, nil, toolTimeout, "go", "build", "-o", "enc", "./cmd/enc")
	if res.Code != 0 {
		c.Inconclusive("types do not compile: %s", clip(res.Stderr, 1500))
		return
	}
	res = runCmd(dir, nil, toolTimeout, filepath.Join(dir, "enc"), fmt.Sprint(r.Int31()), fmt.Sprint(c.N(12, 60)))
	if res.Code != 0 {
		c.Inconclusive("encoding failed: %s", clip(res.Stderr, 1500))
		return
	}
	for _, l := range strings.Split(strings.TrimSpace(res.Stdout), "\n") {
		f := strings.SplitN(l, "\t", 2)
		var m map[string]any
		if err := json.Unmarshal([]byte(f[1]), &m); err != nil {
			c.Inconclusive("bad encoding: %v", err)
			return
		}
		if s := srv[f[0]]; s != nil {
			c.Count("encoded_values", 1)
			c24Accept(c, dir, s, f[0], ints(dropCreation(m)).(map[string]any))
		}
	}
	c.Count("kube_modules", 1)
}

// dropCreation removes the one null that encodings of metadata have.
func dropCreation(v any) any {
	switch x := v.(type) {
	case map[string]any:
		if e, ok := x["creationTimestamp"]; ok && e == nil {
			delete(x, "creationTimestamp")
		}
		for _, e := range x {
			dropCreation(e)
		}
	case []any:
		for _, e := range x {
			dropCreation(e)
		}
	}
	return v
}

// ints has whole numbers as int64, as the decoder of an API server does.
func ints(v any) any {
	switch x := v.(type) {
	case map[string]any:
		for k, e := range x {
			x[k] = ints(e)
		}
	case []any:
		for i, e := range x {
			x[i] = ints(e)
		}
	case float64:
		if x == float64(int64(x)) {
			return int64(x)
		}
	}
	return v
}

const kubeFill = `package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"

	v1 "example.test/m/api/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/util/intstr"
)

var kinds = []struct {
	key string
	mk  func() any
}{
%s}

var (
	r    *rand.Rand
	n    int
	full bool
)

func fill(v reflect.Value, depth int) {
	n++
	switch x := v.Addr().Interface().(type) {
	case *metav1.Time:
		*x = metav1.NewTime(time.Unix(r.Int63n(2000000000)+1, 0))
		return
	case *metav1.MicroTime:
		*x = metav1.NewMicroTime(time.Unix(r.Int63n(2000000000)+1, 123000))
		return
	case *metav1.Duration:
		x.Duration = time.Duration(r.Int63n(1e12))
		return
	case *resource.Quantity:
		*x = resource.MustParse([]string{"1", "500m", "3Gi", "-2", "1e3"}[r.Intn(5)])
		return
	case *intstr.IntOrString:
		*x = intstr.FromInt32(r.Int31n(100))
		if r.Intn(2) == 0 {
			*x = intstr.FromString("http")
		}
		return
	case *runtime.RawExtension:
		x.Raw = []byte("{\"any\":[1]}")
		return
	case *metav1.ObjectMeta:
		x.Name, x.Namespace = "n", "ns"
		x.Labels, x.Annotations, x.Finalizers = map[string]string{"a": "b"}, map[string]string{"c": "d"}, []string{"f"}
		return
	case *metav1.TypeMeta:
		x.Kind, x.APIVersion = "K", "g/v"
		return
	case *metav1.Condition:
		*x = metav1.Condition{Type: "Ready" + strconv.Itoa(n), Status: "True", Reason: "Reason", Message: "m", LastTransitionTime: metav1.NewTime(time.Unix(r.Int63n(2000000000)+1, 0)), ObservedGeneration: int64(r.Intn(3))}
		return
	case *metav1.FieldsV1:
		x.Raw = []byte("{}")
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(full || r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(n %% 100000))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(n %% 200))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.Intn(1000)+1) / 8)
	case reflect.String:
		v.SetString("s" + strconv.Itoa(n))
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		fill(v.Elem(), depth+1)
	case reflect.Slice:
		k := 1
		if !full {
			k = r.Intn(3)
		}
		v.Set(reflect.MakeSlice(v.Type(), k, k))
		for i := 0; i < k; i++ {
			fill(v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i), depth+1)
		}
	case reflect.Map:
		k := 1
		if !full {
			k = r.Intn(3)
		}
		v.Set(reflect.MakeMap(v.Type()))
		for i := 0; i < k; i++ {
			key := reflect.New(v.Type().Key()).Elem()
			key.SetString("k" + strconv.Itoa(i))
			e := reflect.New(v.Type().Elem()).Elem()
			fill(e, depth+1)
			v.SetMapIndex(key, e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			compound := f.Type.Kind() == reflect.Slice || f.Type.Kind() == reflect.Map || f.Type.Kind() == reflect.Ptr && f.Type.Elem().Kind() == reflect.Struct
			if !full && compound && strings.Contains(f.Tag.Get("json"), ",omit") && r.Intn(3) == 0 {
				continue
			}
			fill(v.Field(i), depth+1)
		}
	}
}

func main() {
	seed, _ := strconv.ParseInt(os.Args[1], 10, 64)
	c, _ := strconv.Atoi(os.Args[2])
	r = rand.New(rand.NewSource(seed))
	for _, k := range kinds {
		for i := 0; i < c; i++ {
			o := k.mk()
			full, n = i == 0, 0
			fill(reflect.ValueOf(o).Elem(), 0)
			b, err := json.Marshal(o)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			fmt.Printf("%%s\t%%s\n", k.key, b)
		}
	}
}
`
