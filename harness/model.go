package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// A model of Go API packages with the schema that each use of each type has to have.
// The model is built, rendered to Go source and, independently, evaluated to expected
// schemas; the written CRDs are normalised to the same form and compared.

// N is a normalised schema: a conjunction of constraints, whether written at the node itself
// or in allOf branches.
type N struct {
	Kw       map[string]map[string]bool // keyword -> canonical values in force
	Props    map[string]*N
	Req      map[string]bool
	Items    *N
	Addl     *N
	XVal     [][]string // groups of rules; order matters inside a group
	own      []string   // the rules written at this node
	MapType  string
	Desc     string
	DescAny  bool // description not specified
	Title    string
	Example  string
	Problems []string // malformed output noticed while normalising
	Loose    bool     // only type is compared below here
}

func newN() *N { return &N{Kw: map[string]map[string]bool{}, Req: map[string]bool{}} }

func (n *N) set(k, v string) { n.Kw[k] = map[string]bool{v: true} }
func (n *N) add(k, v string) {
	if n.Kw[k] == nil {
		n.Kw[k] = map[string]bool{}
	}
	n.Kw[k][v] = true
}
func (n *N) typ() string {
	for k := range n.Kw["type"] {
		s, _ := strconv.Unquote(k)
		return s
	}
	return ""
}

// merge adds the constraints of b (not its documentation) to n.
func (n *N) merge(b *N) {
	if b == nil {
		return
	}
	for k, vs := range b.Kw {
		for v := range vs {
			n.add(k, v)
		}
	}
	for k := range b.Req {
		n.Req[k] = true
	}
	for k, p := range b.Props {
		if n.Props == nil {
			n.Props = map[string]*N{}
		}
		if have, ok := n.Props[k]; ok {
			have.merge(p)
			continue
		}
		n.Props[k] = p.clone()
	}
	n.Items = mergeSub(n.Items, b.Items)
	n.Addl = mergeSub(n.Addl, b.Addl)
	n.XVal = append(n.XVal, b.XVal...)
	if b.MapType != "" {
		n.MapType = b.MapType
	}
	n.Problems = append(n.Problems, b.Problems...)
}

func mergeSub(a, b *N) *N {
	if b == nil {
		return a
	}
	if a == nil {
		return b.clone()
	}
	a.merge(b)
	return a
}

func (n *N) clone() *N {
	if n == nil {
		return nil
	}
	c := newN()
	for k, vs := range n.Kw {
		for v := range vs {
			c.add(k, v)
		}
	}
	for k := range n.Req {
		c.Req[k] = true
	}
	if n.Props != nil {
		c.Props = map[string]*N{}
		for k, p := range n.Props {
			c.Props[k] = p.clone()
		}
	}
	c.Items, c.Addl = n.Items.clone(), n.Addl.clone()
	c.XVal = append(c.XVal, n.XVal...)
	c.MapType, c.Desc, c.DescAny, c.Title, c.Example, c.Loose = n.MapType, n.Desc, n.DescAny, n.Title, n.Example, n.Loose
	c.Problems = append(c.Problems, n.Problems...)
	return c
}

func (n *N) size() int {
	if n == nil {
		return 0
	}
	s := 1 + n.Items.size() + n.Addl.size()
	for _, p := range n.Props {
		s += p.size()
	}
	return s
}

// normSchema normalises a schema as written in a CRD.
func normSchema(v any, inAllOf bool) *N {
	n := newN()
	m, ok := v.(map[string]any)
	if !ok {
		n.Problems = append(n.Problems, fmt.Sprintf("schema is not an object: %s", canon(v)))
		return n
	}
	for _, k := range sortedKeys(m) {
		x := m[k]
		switch k {
		case "description":
			n.Desc = asStr(x)
			if inAllOf {
				n.Problems = append(n.Problems, "description inside allOf")
			}
		case "title":
			n.Title = asStr(x)
		case "example":
			n.Example = canon(x)
		case "required":
			seen := map[string]bool{}
			for _, r := range asSlice(x) {
				s := asStr(r)
				if seen[s] {
					n.Problems = append(n.Problems, "required lists "+s+" twice")
				}
				seen[s] = true
				n.Req[s] = true
			}
			if len(seen) == 0 {
				n.Problems = append(n.Problems, "empty required list")
			}
		case "properties":
			if n.Props == nil {
				n.Props = map[string]*N{}
			}
			pm, _ := x.(map[string]any)
			for _, pk := range sortedKeys(pm) {
				p := normSchema(pm[pk], inAllOf)
				if have, ok := n.Props[pk]; ok {
					have.merge(p)
				} else {
					n.Props[pk] = p
				}
			}
		case "items":
			n.Items = mergeSub(n.Items, nil)
			it := normSchema(x, inAllOf)
			if n.Items == nil {
				n.Items = it
			} else {
				n.Items.merge(it)
			}
		case "additionalProperties":
			if b, isB := x.(bool); isB {
				n.add(k, fmt.Sprint(b))
				continue
			}
			it := normSchema(x, inAllOf)
			if n.Addl == nil {
				n.Addl = it
			} else {
				n.Addl.merge(it)
			}
		case "allOf":
			for _, b := range asSlice(x) {
				n.merge(normSchema(b, true))
			}
		case "x-kubernetes-validations":
			var g []string
			for _, r := range asSlice(x) {
				g = append(g, canon(r))
			}
			n.XVal = append(n.XVal, g)
		case "x-kubernetes-map-type":
			n.MapType = asStr(x)
		case "$ref", "definitions":
			n.Problems = append(n.Problems, "unresolved "+k+" "+canon(x))
		case "maximum", "minimum":
			s := canon(x)
			if e, _ := m[exclKey(k)].(bool); e {
				s += exclusive
			}
			n.add(k, s)
		case "exclusiveMaximum", "exclusiveMinimum":
			if _, ok := m[limitKey(k)]; !ok {
				n.add(k, canon(x))
			}
		default:
			n.add(k, canon(x))
		}
	}
	return n
}

// A limit and whether it is exclusive are one constraint.
const exclusive = " exclusive"

func exclKey(limit string) string { return "exclusive" + strings.ToUpper(limit[:1]) + limit[1:] }
func limitKey(excl string) string { return strings.ToLower(excl[9:]) }

// pairUp joins the limits written at one place with their exclusiveness.
func pairUp(n *N) {
	for _, k := range []string{"maximum", "minimum"} {
		if len(n.Kw[k]) > 0 && n.Kw[exclKey(k)]["true"] {
			vs := map[string]bool{}
			for v := range n.Kw[k] {
				vs[strings.TrimSuffix(v, exclusive)+exclusive] = true
			}
			n.Kw[k] = vs
			delete(n.Kw, exclKey(k))
		}
	}
}

// joinLimits brings conjunctions of limits to a normal form: exclusiveness written without a limit
// belongs to the limit given elsewhere, and x < 3 makes x <= 3 redundant. If there's exclusiveness
// without a limit but several limits, it is left open to which of them it belongs.
func joinLimits(exp, act *N) {
	for _, k := range []string{"maximum", "minimum"} {
		if len(exp.Kw[exclKey(k)]) > 0 && len(exp.Kw[k]) > 1 {
			for _, n := range []*N{exp, act} {
				vs := map[string]bool{}
				for v := range n.Kw[k] {
					vs[strings.TrimSuffix(v, exclusive)] = true
				}
				n.Kw[k] = vs
				delete(n.Kw, exclKey(k))
			}
			continue
		}
		for _, n := range []*N{exp, act} {
			if n == exp || len(n.Kw[k]) == 1 {
				pairUp(n)
			}
			for v := range n.Kw[k] {
				if n.Kw[k][v+exclusive] {
					delete(n.Kw[k], v)
				}
			}
		}
	}
}

type cmpOpts struct {
	desc   bool
	ignore map[string]bool
}

func compareN(exp, act *N, path string, o cmpOpts) []string {
	var out []string
	bad := func(f string, a ...any) { out = append(out, path+": "+fmt.Sprintf(f, a...)) }
	for _, p := range act.Problems {
		bad("%s", p)
	}
	if exp.Loose {
		if !setEq(exp.Kw["type"], act.Kw["type"]) {
			bad("type: expected %v, written %v", setStr(exp.Kw["type"]), setStr(act.Kw["type"]))
		}
		return out
	}
	joinLimits(exp, act)
	keys := map[string]bool{}
	for k := range exp.Kw {
		keys[k] = true
	}
	for k := range act.Kw {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		if !setEq(exp.Kw[k], act.Kw[k]) {
			bad("%s: expected %v, written %v", k, setStr(exp.Kw[k]), setStr(act.Kw[k]))
		}
	}
	if !setEq(exp.Req, act.Req) {
		bad("required: expected %v, written %v", setStr(exp.Req), setStr(act.Req))
	}
	if exp.MapType != act.MapType {
		bad("x-kubernetes-map-type: expected %q, written %q", exp.MapType, act.MapType)
	}
	if exp.Title != act.Title {
		bad("title: expected %q, written %q", exp.Title, act.Title)
	}
	if exp.Example != act.Example {
		bad("example: expected %s, written %s", exp.Example, act.Example)
	}
	if o.desc && !exp.DescAny && exp.Desc != act.Desc {
		bad("description: expected %q, written %q", exp.Desc, act.Desc)
	}
	var eall, aall []string
	for _, g := range exp.XVal {
		eall = append(eall, g...)
	}
	for _, g := range act.XVal {
		aall = append(aall, g...)
	}
	es, as := append([]string{}, eall...), append([]string{}, aall...)
	sort.Strings(es)
	sort.Strings(as)
	if strings.Join(es, "\n") != strings.Join(as, "\n") {
		bad("x-kubernetes-validations: expected %v, written %v", eall, aall)
	} else {
		for _, g := range exp.XVal { // order within a node's own rules
			i := 0
			for _, a := range aall {
				if i < len(g) && a == g[i] {
					i++
				}
			}
			if i != len(g) {
				bad("x-kubernetes-validations: rules of one node not in written order: expected %v inside %v", g, aall)
			}
		}
	}
	if (len(exp.Props) > 0 || len(act.Props) > 0) || (exp.Props == nil) != (act.Props == nil) && len(exp.Props)+len(act.Props) > 0 {
		for _, k := range sortedKeys(exp.Props) {
			a, ok := act.Props[k]
			if !ok {
				bad("property %q missing", k)
				continue
			}
			out = append(out, compareN(exp.Props[k], a, path+"."+k, o)...)
		}
		for _, k := range sortedKeys(act.Props) {
			if _, ok := exp.Props[k]; !ok {
				bad("unexpected property %q", k)
			}
		}
	}
	sub := func(name string, e, a *N) {
		if (e == nil) != (a == nil) {
			bad("%s: expected %v, written %v", name, e != nil, a != nil)
			return
		}
		if e != nil {
			out = append(out, compareN(e, a, path+name, o)...)
		}
	}
	sub("[]", exp.Items, act.Items)
	sub("{}", exp.Addl, act.Addl)
	return out
}

func setEq(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}
func setStr(m map[string]bool) []string {
	return sortedKeys(m)
}

// ---- model ----

type Pkg struct {
	Path, Name, Dir string
	Alias           string // what others import it as
	lib             bool
	Group, Version  string
	OptDefault      bool
	Decls           []*Decl
	Kinds           []*Decl
	HeadMarks       []string
	extra           string
	noise           bool
}

type Decl struct {
	Pkg     *Pkg
	Name    string
	Kind    string // struct, def, alias, json, text, kind
	Ref     *Ref   // def, alias
	Fields  []*Field
	Marks   []*Mark
	Doc     []string
	noEmbed bool
	embeds  map[*Decl]bool
	size    int
	marshal string
	rawDoc  []string
	descStr *string // expected description when rawDoc is used
}

type Field struct {
	Go      string
	JSON    string // "" for inline
	Opts    string // after the name
	Tag     string // whole tag override
	Inline  bool
	Skip    bool // not serialised
	Ref     *Ref
	Marks   []*Mark
	Doc     []string
	Reqd    bool // expected to be required
	Less    bool // Schemaless
	Quoted  bool // written within a string
	rawDoc  []string
	descStr *string
}

type Mark struct {
	Text   string
	Items  bool
	Do     func(n *N)
	Detach bool
	First  bool // takes effect before the others wherever it is written
}

type Ref struct {
	K     string // basic, named, ptr, slice, array, map, ext
	Basic string
	Ext   *extType
	Decl  *Decl
	Key   *Decl
	Elem  *Ref
}

type extType struct {
	expr, imp, alias string
	n                func(opts modelOpts) *N
}

type modelOpts struct {
	embedMeta bool
	dangerous bool
	ignoreUnx bool
}

func kwN(kv ...string) *N {
	n := newN()
	for i := 0; i < len(kv); i += 2 {
		n.set(kv[i], kv[i+1])
	}
	return n
}

const quantityPattern = `^(\+|-)?(([0-9]+(\.[0-9]*)?)|(\.[0-9]+))(([KMGTPE]i)|[numkMGTPE]|([eE](\+|-)?(([0-9]+(\.[0-9]*)?)|(\.[0-9]+))))?$`
const metaPath = "k8s.io/apimachinery/pkg/apis/meta/v1"

var extTypes = []*extType{
	{"metav1.Time", metaPath, "metav1", func(modelOpts) *N { return kwN("type", `"string"`, "format", `"date-time"`) }},
	{"metav1.MicroTime", metaPath, "metav1", func(modelOpts) *N { return kwN("type", `"string"`, "format", `"date-time"`) }},
	{"metav1.Duration", metaPath, "metav1", func(modelOpts) *N { return kwN("type", `"string"`) }},
	{"resource.Quantity", "k8s.io/apimachinery/pkg/api/resource", "resource", func(modelOpts) *N {
		return kwN("x-kubernetes-int-or-string", "true", "anyOf", `[{"type":"integer"},{"type":"string"}]`, "pattern", canon(quantityPattern))
	}},
	{"intstr.IntOrString", "k8s.io/apimachinery/pkg/util/intstr", "intstr", func(modelOpts) *N {
		return kwN("x-kubernetes-int-or-string", "true", "anyOf", `[{"type":"integer"},{"type":"string"}]`)
	}},
	{"runtime.RawExtension", "k8s.io/apimachinery/pkg/runtime", "runtime", func(modelOpts) *N {
		return kwN("type", `"object"`, "x-kubernetes-preserve-unknown-fields", "true")
	}},
	{"apiextensionsv1.JSON", "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1", "apiextensionsv1", func(modelOpts) *N {
		return kwN("x-kubernetes-preserve-unknown-fields", "true")
	}},
	{"metav1.ObjectMeta", metaPath, "metav1", func(o modelOpts) *N {
		n := kwN("type", `"object"`)
		if o.embedMeta {
			str := kwN("type", `"string"`)
			mp := kwN("type", `"object"`)
			mp.Addl = str
			ar := kwN("type", `"array"`)
			ar.Items = str
			n.Props = map[string]*N{"name": str, "namespace": str, "annotations": mp, "labels": mp, "finalizers": ar}
		}
		return n
	}},
}

var basicTypes = map[string][2]string{
	"string": {"string", ""}, "bool": {"boolean", ""}, "int": {"integer", ""}, "int8": {"integer", ""}, "int16": {"integer", ""},
	"int32": {"integer", "int32"}, "int64": {"integer", "int64"}, "uint": {"integer", ""}, "uint8": {"integer", ""},
	"uint16": {"integer", ""}, "uint32": {"integer", "int32"}, "uint64": {"integer", "int64"}, "byte": {"integer", ""}, "rune": {"integer", "int32"},
	"float32": {"number", ""}, "float64": {"number", ""},
}

func basicN(b string) *N {
	t := basicTypes[b]
	n := kwN("type", strconv.Quote(t[0]))
	if t[1] != "" {
		n.set("format", strconv.Quote(t[1]))
	}
	return n
}

// X is a type expression while markers are still to be applied: what is visible at the place
// itself, and the schema of the named type it refers to, if any.
type X struct {
	vis   *N
	ref   *N
	items *X
	addl  *X
}

func (x *X) fin() *N {
	n := newN()
	if x.ref != nil {
		n = x.ref.clone()
	}
	v := x.vis.clone()
	pairUp(v)
	n.merge(v)
	if len(x.vis.own) > 0 {
		n.XVal = append(n.XVal, append([]string{}, x.vis.own...))
	}
	if v.Desc != "" {
		n.Desc = v.Desc
	}
	if v.Title != "" {
		n.Title = v.Title
	}
	if v.Example != "" {
		n.Example = v.Example
	}
	if x.items != nil {
		n.Items = mergeSub(n.Items, x.items.fin())
	}
	if x.addl != nil {
		n.Addl = mergeSub(n.Addl, x.addl.fin())
	}
	if x.items != nil && x.ref == nil {
		n.Items = x.items.fin()
	}
	if x.addl != nil && x.ref == nil {
		n.Addl = x.addl.fin()
	}
	return n
}

// exprX evaluates a type expression used in package from.
func exprX(r *Ref, from *Pkg, o modelOpts) *X {
	switch r.K {
	case "basic":
		return &X{vis: basicN(r.Basic)}
	case "ext":
		return &X{vis: newN(), ref: r.Ext.n(o)}
	case "ptr":
		return exprX(r.Elem, from, o)
	case "slice", "array":
		if r.K == "slice" && isByteRef(r.Elem) {
			return &X{vis: kwN("type", `"string"`, "format", `"byte"`)}
		}
		return &X{vis: kwN("type", `"array"`), items: exprX(r.Elem, from, o)}
	case "map":
		return &X{vis: kwN("type", `"object"`), addl: exprX(r.Elem, from, o)}
	case "named":
		d := r.Decl
		if d.Pkg == from && d.Kind == "alias" && d.Ref.K == "basic" {
			return &X{vis: basicN(d.Ref.Basic), ref: declN(d, o)}
		}
		return &X{vis: newN(), ref: declN(d, o)}
	}
	panic("bad ref " + r.K)
}

// quotable tells whether encoding/json heeds the option "string" on fields of this type
// (1: yes, 0: no, -1: not decided here).
func quotable(r *Ref, ptrs int) int {
	switch r.K {
	case "basic":
		if strings.HasPrefix(r.Basic, "complex") || !basicKind.MatchString(r.Basic) {
			return -1
		}
		return 1
	case "ptr":
		if ptrs == 0 {
			return quotable(r.Elem, 1)
		}
		return 0
	case "slice", "array", "map", "ext":
		return 0
	case "named":
		d := r.Decl
		switch {
		case d.Kind == "struct" || d.marshal != "":
			return 0
		case d.Kind == "def" || d.Kind == "alias":
			if q := quotable(d.Ref, 1); q == 1 || q == 0 && d.Kind == "def" && d.Ref.K != "named" && d.Ref.K != "ext" {
				return q
			}
		}
	}
	return -1
}

var basicKind = regexp.MustCompile("^(bool|byte|rune|string|u?int(8|16|32|64|ptr)?|float(32|64))$")

func quotedX() *X { return &X{vis: kwN("type", `"string"`)} }

// isByteRef: encoding/json encodes slices of this element type as base64.
func isByteRef(r *Ref) bool {
	switch r.K {
	case "basic":
		return r.Basic == "byte" || r.Basic == "uint8"
	case "named":
		d := r.Decl
		return (d.Kind == "def" || d.Kind == "alias") && d.marshal == "" && isByteRef(d.Ref)
	}
	return false
}

func applyMarks(x *X, ms []*Mark) {
	for pass := 0; pass < 2; pass++ {
		for _, m := range ms {
			if m.First != (pass == 0) {
				continue
			}
			if m.Items {
				m.Do(x.items.vis)
			} else {
				m.Do(x.vis)
			}
		}
	}
}

func docOf(lines []string) string { return strings.Join(lines, "\n") }

// declN is the schema of a declared type.
func declN(d *Decl, o modelOpts) *N {
	doc := docOf(d.Doc)
	if d.descStr != nil {
		doc = *d.descStr
	}
	switch d.Kind {
	case "json", "text": // custom marshalers: what the markers say
		x := &X{vis: newN()}
		if d.Kind == "text" {
			x.vis.set("type", `"string"`)
		}
		applyMarks(x, d.Marks)
		n := x.fin()
		n.DescAny = true
		return n
	case "def", "alias":
		x := exprX(d.Ref, d.Pkg, o)
		x.vis.Desc = doc
		applyMarks(x, d.Marks)
		return x.fin()
	}
	// struct or kind
	x := &X{vis: kwN("type", `"object"`)}
	n := x.vis
	n.Props = map[string]*N{}
	if d.Kind == "kind" {
		for _, k := range []string{"apiVersion", "kind"} {
			p := kwN("type", `"string"`)
			p.DescAny = true
			n.Props[k] = p
		}
		n.Props["metadata"] = kwN("type", `"object"`)
	}
	for _, f := range d.Fields {
		if f.Skip {
			continue
		}
		if f.Inline {
			e := exprX(f.Ref, d.Pkg, o)
			applyMarks(e, f.Marks)
			if x.ref == nil {
				x.ref = newN()
			}
			x.ref.merge(e.fin())
			continue
		}
		if f.Reqd {
			n.Req[f.JSON] = true
		}
		n.Props[f.JSON] = fieldN(f, d.Pkg, o)
	}
	n.Desc = doc
	applyMarks(x, d.Marks)
	return x.fin()
}

func fieldN(f *Field, from *Pkg, o modelOpts) *N {
	var x *X
	if f.Less {
		x = &X{vis: newN()}
	} else if f.Quoted {
		x = quotedX()
	} else {
		x = exprX(f.Ref, from, o)
	}
	x.vis.Desc = docOf(f.Doc)
	if f.descStr != nil {
		x.vis.Desc = *f.descStr
	}
	applyMarks(x, f.Marks)
	return x.fin()
}

// ---- rendering ----

type renderer struct {
	p       *Pkg
	imports map[string]string // path -> alias
	b       strings.Builder
	r       *rand.Rand
	noise   int
	grouped bool // within type ( … )
	short   bool // names of imports stand for other packages in other files
}

func (w *renderer) kw() string {
	if w.grouped {
		return ""
	}
	return "type "
}

// stray writes a comment that documents nothing.
func (w *renderer) stray(indent string) {
	if w.p.noise && w.r.Intn(4) == 0 {
		w.noise++
		w.b.WriteString(fmt.Sprintf(pick(w.r, indent+"// stray comment %d.\n\n", indent+"/* stray block %d */\n\n", indent+"// Stray\n"+indent+"// comment %d\n\n"), w.noise))
	}
}

func (w *renderer) trail() string {
	if w.p.noise && w.r.Intn(4) == 0 {
		w.noise++
		return fmt.Sprintf(pick(w.r, " // trailing %d", " /* trailing %d */"), w.noise)
	}
	return ""
}

func (w *renderer) typ(r *Ref) string {
	switch r.K {
	case "basic":
		return r.Basic
	case "ext":
		w.imports[r.Ext.imp] = r.Ext.alias
		return r.Ext.expr
	case "ptr":
		return "*" + w.typ(r.Elem)
	case "slice":
		return "[]" + w.typ(r.Elem)
	case "array":
		return "[3]" + w.typ(r.Elem)
	case "map":
		k := "string"
		if r.Key != nil {
			k = w.typ(&Ref{K: "named", Decl: r.Key})
		}
		return "map[" + k + "]" + w.typ(r.Elem)
	case "named":
		if r.Decl.Pkg == w.p {
			return r.Decl.Name
		}
		a := w.imports[r.Decl.Pkg.Path]
		if a == "" {
			if a = r.Decl.Pkg.Alias; w.short {
				a = fmt.Sprintf("dep%d", len(w.imports))
			}
			w.imports[r.Decl.Pkg.Path] = a
		}
		return a + "." + r.Decl.Name
	}
	panic("bad ref")
}

func (w *renderer) comments(indent string, doc, raw []string, marks []*Mark, extra []string) {
	var detached []string
	var lines []string
	var ms []string
	for _, m := range marks {
		t := pick(w.r, "// +", "//+", "// +", "//  +") + m.Text
		if m.Detach {
			detached = append(detached, t)
		} else {
			ms = append(ms, t)
		}
	}
	if len(detached) > 0 {
		for _, l := range detached {
			w.b.WriteString(indent + l + "\n")
		}
		w.b.WriteString("\n")
	}
	ms = append(append([]string{}, extra...), ms...)
	if raw != nil {
		lines = append(lines, raw...)
		if w.r.Intn(2) == 0 {
			lines = append(append([]string{}, ms...), lines...)
		} else {
			lines = append(lines, ms...)
		}
	} else {
		// interleave markers with documentation, keeping each in order
		di, mi := 0, 0
		mode := w.r.Intn(3)
		for di < len(doc) || mi < len(ms) {
			takeDoc := mi >= len(ms) || (di < len(doc) && (mode == 0 || (mode == 1 && w.r.Intn(2) == 0)))
			if takeDoc {
				lines = append(lines, "// "+doc[di])
				di++
			} else {
				lines = append(lines, ms[mi])
				mi++
			}
		}
	}
	for _, l := range lines {
		w.b.WriteString(indent + l + "\n")
	}
}

func (f *Field) tag() string {
	if f.Tag != "" {
		return f.Tag
	}
	if f.Inline {
		return "`json:\"" + f.JSON + "," + f.Opts + "\"`"
	}
	t := f.JSON
	if f.Opts != "" {
		t += "," + f.Opts
	}
	return "`json:\"" + t + "\"`"
}

func (w *renderer) closeGroup() {
	w.b.WriteString(")\n\n")
	w.grouped = false
}

func (w *renderer) decl(d *Decl) {
	w.stray("")
	w.comments("", d.Doc, d.rawDoc, d.Marks, func() []string {
		if d.Kind == "kind" {
			return []string{"// +kubebuilder:object:root=true"}
		}
		return nil
	}())
	switch d.Kind {
	case "def":
		fmt.Fprintf(&w.b, "%s%s %s\n", w.kw(), d.Name, w.typ(d.Ref))
	case "alias":
		fmt.Fprintf(&w.b, "%s%s = %s\n", w.kw(), d.Name, w.typ(d.Ref))
	case "json", "text":
		fmt.Fprintf(&w.b, "type %s struct {\n\tinner string\n}\n", d.Name)
		if d.Kind == "json" {
			fmt.Fprintf(&w.b, "\nfunc (%s) MarshalJSON() ([]byte, error) { return []byte(`%s`), nil }\n", d.Name, d.marshal)
		} else {
			// encoding/json does not call pointer methods on map values, which are not addressable
			recv := "*"
			if d.marshal == "ttv" {
				recv = ""
			}
			fmt.Fprintf(&w.b, "\nfunc (%s%s) MarshalText() ([]byte, error) { return []byte(`%s`), nil }\n", recv, d.Name, d.marshal)
		}
	default:
		fmt.Fprintf(&w.b, "%s%s struct {\n", w.kw(), d.Name)
		if d.Kind == "kind" {
			w.imports[metaPath] = "metav1"
			w.b.WriteString("\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n")
		}
		for _, f := range d.Fields {
			w.b.WriteString("\n")
			w.stray("\t")
			w.comments("\t", f.Doc, f.rawDoc, f.Marks, nil)
			if f.Go == "" {
				fmt.Fprintf(&w.b, "\t%s %s%s\n", w.typ(f.Ref), f.tag(), w.trail())
			} else {
				fmt.Fprintf(&w.b, "\t%s %s %s%s\n", f.Go, w.typ(f.Ref), f.tag(), w.trail())
			}
		}
		w.stray("\t")
		w.b.WriteString("}" + w.trail() + "\n")
	}
	w.b.WriteString("\n")
}

// render writes the package, its declarations shuffled over a few files.
func (p *Pkg) render(root string, r *rand.Rand) {
	nf := 1 + r.Intn(2)
	short := nf > 1 && chance(r, 60)
	all := append(append([]*Decl{}, p.Decls...), p.Kinds...)
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	for f := 0; f < nf; f++ {
		w := &renderer{p: p, imports: map[string]string{}, r: r, short: short}
		left := 0 // members the open group still takes
		for i, d := range all {
			if i%nf != f {
				continue
			}
			can := d.Kind != "json" && d.Kind != "text" // these come with methods
			if left > 0 && !can {
				w.closeGroup()
				left = 0
			} else if left == 0 && can && p.noise && r.Intn(5) == 0 {
				w.stray("")
				w.noise++
				if r.Intn(4) > 0 {
					w.b.WriteString(fmt.Sprintf("// Group comment %d.\n", w.noise))
				}
				w.b.WriteString("type (\n")
				w.grouped = true
				left = 1 + r.Intn(3)
			}
			w.decl(d)
			if left > 0 {
				if left--; left == 0 {
					w.closeGroup()
				}
			}
		}
		if left > 0 {
			w.closeGroup()
		}
		var h strings.Builder
		if f == 0 {
			h.WriteString("// Package documentation.\n")
			if p.Group != "" {
				h.WriteString("// +groupName=" + p.Group + "\n")
			}
			if p.OptDefault {
				h.WriteString("// +kubebuilder:validation:Optional\n")
			}
			for _, m := range p.HeadMarks {
				h.WriteString("// +" + m + "\n")
			}
		}
		h.WriteString("package " + p.Name + "\n\n")
		for _, imp := range sortedKeys(w.imports) {
			h.WriteString(fmt.Sprintf("import %s %q\n", w.imports[imp], imp))
		}
		h.WriteString("\n")
		writeFile(filepath.Join(root, p.Dir, fmt.Sprintf("z%d_types.go", f)), h.String()+w.b.String())
	}
	if p.extra != "" {
		writeFile(filepath.Join(root, p.Dir, "extra.go"), p.extra)
	}
}
