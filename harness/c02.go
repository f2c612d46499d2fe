package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"
	"time"
)

// C02: schema structure against the model, against the JSON encodings of compiled values, and
// rejection of what has no schema.

func init() { register("C02", checkC02) }

func checkC02(c *Ctx) {
	c.Rule("Random Go API packages (local and imported named types, aliases, embedding, pointers, slices, maps, arrays, well-known Kubernetes types, custom marshalers, unusual JSON tags, every combination of requiredness markers and package defaults, generator options) are run through controller-gen; every written schema is compared node by node with the schema computed from the model. Packages of a second family are compiled and random and fully populated values are encoded with encoding/json and checked against the written schema in both directions. A third family has one construct without a schema each. One evaluation is one kind, one encoded value or one rejected construct; distinct by written schema, value or construct.")
	c.Assume("The Go type system and encoding/json of the installed Go toolchain are the reference for what is encoded.")
	n := c.N(48, 300)
	parallel(n, 6, func(i int) {
		r := c.Rng("model", i)
		p := profile{marks: 8, maxMarks: 2, typeMarks: 8, docs: 10, refs: 45, aliases: 12, embeds: 14, reqMarks: 45, maxSize: 60,
			fields: 8, decls: 14, kinds: 3, libs: 2, apis: 2, detach: 15, odd: true}
		p.opts = modelOpts{embedMeta: i%3 == 1, dangerous: i%2 == 1, ignoreUnx: i%4 >= 2}
		g := genModel(r, "example.test/m", p)
		dir := c.CaseDir("m")
		g.write(dir, r)
		runCRDModel(c, g, dir, r, cmpOpts{})
		c.See("options", fmt.Sprintf("%+v", p.opts))
	})
	nv := c.N(9, 60)
	parallel(nv, 3, func(i int) {
		r := c.Rng("values", i)
		p := profile{docs: 0, refs: 45, aliases: 14, embeds: 16, reqMarks: 0, maxSize: 60,
			fields: 9, decls: 14, kinds: 4, libs: 2, apis: 2, odd: true, values: true}
		p.opts = modelOpts{embedMeta: true, dangerous: true, ignoreUnx: i%2 == 1}
		g := genModel(r, "example.test/m", p)
		for _, k := range append(append([]*Pkg{}, g.libs...), g.apis...) {
			k.OptDefault = false
		}
		reReq(g)
		dir := c.CaseDir("v")
		g.write(dir, r)
		valueConformance(c, g, dir, r)
	})
	rejects(c)
	c.Min("evaluations", 100)
	c.Min("values", 100)
	c.Min("rejected", 40)
}

// reReq recomputes requiredness after package defaults were changed.
func reReq(g *mgen) {
	for _, p := range append(append([]*Pkg{}, g.libs...), g.apis...) {
		for _, d := range append(append([]*Decl{}, p.Decls...), p.Kinds...) {
			for _, f := range d.Fields {
				f.Reqd = !f.Inline && !leaves(f.Opts)
			}
		}
	}
}

const fillSrc = `package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"time"

	apiextensionsv1 "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"k8s.io/apimachinery/pkg/api/resource"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/util/intstr"
%s)

var kinds = []struct {
	key string
	mk  func() any
}{
%s}

var r *rand.Rand

func fill(v reflect.Value, full bool) {
	if !v.CanSet() {
		return
	}
	switch x := v.Addr().Interface().(type) {
	case *metav1.Time:
		*x = metav1.NewTime(time.Unix(r.Int63n(2000000000)+1, 0))
		return
	case *metav1.MicroTime:
		*x = metav1.NewMicroTime(time.Unix(r.Int63n(2000000000)+1, 123000))
		return
	case *metav1.Duration:
		x.Duration = time.Duration(r.Int63n(1e12))
		return
	case *resource.Quantity:
		*x = resource.MustParse([]string{"1", "500m", "3Gi", "-2", "1e3"}[r.Intn(5)])
		return
	case *intstr.IntOrString:
		if r.Intn(2) == 0 {
			*x = intstr.FromInt32(r.Int31())
		} else {
			*x = intstr.FromString("50%%")
		}
		return
	case *runtime.RawExtension:
		x.Raw = []byte("{\"any\":[1]}")
		return
	case *apiextensionsv1.JSON:
		x.Raw = []byte([]string{"[1]", "3", "\"s\"", "{\"a\":null}"}[r.Intn(4)])
		return
	case *metav1.ObjectMeta:
		x.Name, x.Namespace = "n", "ns"
		x.Labels, x.Annotations, x.Finalizers = map[string]string{"a": "b"}, map[string]string{"c": "d"}, []string{"f"}
		return
	case *metav1.TypeMeta:
		x.Kind, x.APIVersion = "K", "g/v"
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(full || r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.Uint64()) >> uint(64-v.Type().Bits()))
		if full && v.Int() == 0 {
			v.SetInt(-1)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(r.Uint64() >> uint(65-v.Type().Bits()))
		if full && v.Uint() == 0 {
			v.SetUint(1)
		}
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.Intn(1000)+1) / 8)
	case reflect.String:
		n := r.Intn(6)
		if full {
			n++
		}
		s := ""
		for i := 0; i < n; i++ {
			s += string([]rune("aZ0 é<&\"\\")[r.Intn(9)])
		}
		v.SetString(s)
	case reflect.Ptr:
		if full || r.Intn(3) > 0 {
			v.Set(reflect.New(v.Type().Elem()))
			fill(v.Elem(), full)
		}
	case reflect.Slice:
		if !full && r.Intn(4) == 0 {
			return
		}
		n := r.Intn(3)
		if full {
			n++
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			fill(v.Index(i), full)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i), full)
		}
	case reflect.Map:
		if !full && r.Intn(4) == 0 {
			return
		}
		n := r.Intn(3)
		if full {
			n++
		}
		v.Set(reflect.MakeMap(v.Type()))
		for i := 0; i < n; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			k.SetString("k" + strconv.Itoa(i))
			e := reflect.New(v.Type().Elem()).Elem()
			fill(e, full)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if v.Type().Field(i).Anonymous && f.Kind() == reflect.Ptr && f.CanSet() {
				// a nil embedded struct takes its required fields with it
				f.Set(reflect.New(f.Type().Elem()))
				f = f.Elem()
			}
			if full && !f.CanSet() && f.Kind() == reflect.String {
				// a value without exported fields should not be zero, either (omitzero)
				reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem().SetString("s")
			}
			fill(f, full)
		}
	}
}

func main() {
	seed, _ := strconv.ParseInt(os.Args[1], 10, 64)
	n, _ := strconv.Atoi(os.Args[2])
	r = rand.New(rand.NewSource(seed))
	for _, k := range kinds {
		for i := 0; i < n; i++ {
			o := k.mk()
			full := i == 0
			fill(reflect.ValueOf(o).Elem(), full)
			b, err := json.Marshal(o)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			fmt.Printf("%%s\t%%v\t%%s\n", k.key, full, b)
		}
	}
}
`

func valueConformance(c *Ctx, g *mgen, dir string, r *rand.Rand) {
	run := runCRDModel(c, g, dir, r, cmpOpts{})
	if run.byGK == nil {
		return
	}
	var imps, rows strings.Builder
	for i, p := range g.apis {
		fmt.Fprintf(&imps, "\tp%d %q\n", i, p.Path)
		for _, k := range p.Kinds {
			fmt.Fprintf(&rows, "\t{%q, func() any { return new(p%d.%s) }},\n", p.Group+"/"+k.Name, i, k.Name)
		}
	}
	writeFile(filepath.Join(dir, "cmd/enc/main.go"), fmt.Sprintf(fillSrc, imps.String(), rows.String()))
	res := runCmd(dir, nil, toolTimeout, "go", "build", "-o", "enc", "./cmd/enc")
	if res.Code != 0 {
		c.Inconclusive("generated types do not compile: %s", clip(res.Stderr, 1500))
		return
	}
	per := c.N(12, 30)
	res = runCmd(dir, nil, toolTimeout, filepath.Join(dir, "enc"), fmt.Sprint(r.Int31()), fmt.Sprint(per))
	if res.Code != 0 {
		c.Inconclusive("encoding failed: %s", clip(res.Stderr, 1500))
		return
	}
	for _, l := range strings.Split(strings.TrimSpace(res.Stdout), "\n") {
		f := strings.SplitN(l, "\t", 3)
		dec := json.NewDecoder(strings.NewReader(f[2]))
		dec.UseNumber()
		var v any
		if err := dec.Decode(&v); err != nil {
			c.Inconclusive("bad encoding: %v", err)
			return
		}
		sch := versionSchema(run.byGK[f[0]], "v1")
		var errs []string
		conform(sch, v, "", f[1] == "true", &errs)
		c.Eval(f[2])
		c.Count("values", 1)
		if len(errs) > 0 {
			c.Violate("value-mismatch", fmt.Sprintf("%s: the JSON encoding of a Go value does not fit the written schema:\n%s\nvalue: %s", f[0], strings.Join(errs, "\n"), clip(f[2], 2000)), nil, dir)
		}
	}
}

// void tells whether a schema describes structs without encoded contents (always zero for omitzero).
func void(schema any) bool {
	m, _ := schema.(map[string]any)
	if m == nil || asStr(m["type"]) != "object" || m["additionalProperties"] != nil || m["x-kubernetes-preserve-unknown-fields"] == true {
		return false
	}
	props, _ := m["properties"].(map[string]any)
	for _, p := range props {
		if !void(p) {
			return false
		}
	}
	return true
}

// conform checks a JSON value against a schema's structure (not its markers).
func conform(sch, v any, path string, full bool, errs *[]string) {
	bad := func(f string, a ...any) { *errs = append(*errs, path+": "+fmt.Sprintf(f, a...)) }
	m, ok := sch.(map[string]any)
	if !ok {
		bad("no schema")
		return
	}
	if v == nil {
		return
	}
	for _, b := range asSlice(m["allOf"]) {
		conform(b, v, path, false, errs)
	}
	if m["x-kubernetes-int-or-string"] == true {
		switch v.(type) {
		case string, json.Number:
		default:
			bad("int-or-string, got %s", canon(v))
		}
		return
	}
	t := asStr(m["type"])
	got := ""
	switch x := v.(type) {
	case map[string]any:
		got = "object"
	case []any:
		got = "array"
	case string:
		got = "string"
	case bool:
		got = "boolean"
	case json.Number:
		got = "integer"
		if strings.ContainsAny(x.String(), ".eE") {
			got = "number"
		}
	}
	preserve := m["x-kubernetes-preserve-unknown-fields"] == true
	if t == "" {
		if !preserve {
			bad("schema without type for %s", clip(canon(v), 80))
		}
		return
	}
	if t != got && !(t == "number" && got == "integer") {
		bad("schema has type %s, encoded as %s: %s", t, got, clip(canon(v), 80))
		return
	}
	switch x := v.(type) {
	case string:
		switch asStr(m["format"]) {
		case "byte":
			if _, err := base64.StdEncoding.DecodeString(x); err != nil {
				bad("not base64: %q", x)
			}
		case "date-time":
			if _, err := time.Parse(time.RFC3339Nano, x); err != nil {
				bad("not a date-time: %q", x)
			}
		}
	case []any:
		for i, e := range x {
			conform(m["items"], e, fmt.Sprintf("%s[%d]", path, i), full, errs)
		}
	case map[string]any:
		props, _ := m["properties"].(map[string]any)
		addl := m["additionalProperties"]
		for _, rq := range asSlice(m["required"]) {
			if _, ok := x[asStr(rq)]; !ok {
				bad("required %q is not in the encoding", rq)
			}
		}
		for _, k := range sortedKeys(x) {
			if p, ok := props[k]; ok {
				if path == "" && k == "metadata" {
					continue
				}
				conform(p, x[k], path+"."+k, full, errs)
				continue
			}
			switch a := addl.(type) {
			case map[string]any:
				conform(a, x[k], path+"."+k, full, errs)
			case bool:
			default:
				if k == "creationTimestamp" && x[k] == nil { // ObjectMeta lists its user-settable fields only
					continue
				}
				if !preserve {
					bad("encoded key %q is not in the schema", k)
				}
			}
		}
		if full {
			for _, k := range sortedKeys(props) {
				if _, ok := x[k]; !ok && !void(props[k]) {
					bad("property %q is never encoded", k)
				}
			}
		}
		if len(props) > 0 && addl != nil {
			bad("properties and additionalProperties together")
		}
	}
}

// rejects: constructs without a faithful schema, each in several positions.
func rejects(c *Ctx) {
	type rj struct{ name, decl, typ, imp string }
	base := []rj{
		{"float64", "", "float64", ""}, {"float32", "", "float32", ""}, {"complex64", "", "complex64", ""}, {"complex128", "", "complex128", ""},
		{"interface{}", "", "interface{}", ""}, {"any", "", "any", ""}, {"error", "", "error", ""}, {"func", "", "func()", ""}, {"chan", "", "chan int", ""},
		{"map[int]string", "", "map[int]string", ""}, {"map[bool]string", "", "map[bool]string", ""}, {"map of named int", "type IK int", "map[IK]string", ""},
		{"map[[2]string]string", "", "map[[2]string]string", ""}, {"map of interface", "", "map[string]interface{}", ""}, {"map of any", "", "map[string]any", ""},
		{"map of anonymous struct", "", "map[string]struct{A string `json:\"a\"`}", ""}, {"anonymous struct", "", "struct{A string `json:\"a\"`}", ""},
		{"slice of anonymous struct", "", "[]struct{A string `json:\"a\"`}", ""}, {"slice of interface", "", "[]interface{}", ""}, {"slice of func", "", "[]func()", ""},
		{"unsafe.Pointer", "", "unsafe.Pointer", "unsafe"}, {"generic instance", "type Box[T any] struct { V T `json:\"v\"` }", "Box[string]", ""},
		{"named float", "type NF float64", "NF", ""}, {"named func", "type NFn func()", "NFn", ""}, {"named interface", "type NI interface{ Foo() }", "NI", ""},
		{"named chan", "type NC chan int", "NC", ""}, {"alias to float", "type AF = float64", "AF", ""}, {"alias to interface", "type AI = interface{}", "AI", ""},
		{"struct without tag inside", "type NT struct { X string }", "NT", ""}, {"named map of int", "type NM map[int]string", "NM", ""},
		{"slice of float", "", "[]float64", ""}, {"pointer to float", "", "*float64", ""}, {"map of float", "", "map[string]float32", ""},
	}
	dir := c.CaseDir("rej")
	newModule(dir, "example.test/rej")
	type cs struct{ name, path string }
	var cases []cs
	add := func(name, body, imp string) {
		p := fmt.Sprintf("r%d", len(cases))
		src := "// +groupName=rej.example.test\npackage v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n"
		if imp != "" {
			src += "import \"" + imp + "\"\n"
		}
		src += "\n// +kubebuilder:object:root=true\ntype Foo struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec FooSpec `json:\"spec\"`\n}\n\n" + body
		writeFile(filepath.Join(dir, p, "t.go"), src)
		cases = append(cases, cs{name, p})
	}
	for _, b := range base {
		add(b.name, fmt.Sprintf("%s\n\ntype FooSpec struct {\n\tX %s `json:\"x\"`\n}\n", b.decl, b.typ), b.imp)
		if c.Thorough() || len(cases)%3 == 0 {
			add(b.name+" behind types", fmt.Sprintf("%s\n\ntype Inner struct {\n\tX %s `json:\"x,omitempty\"`\n}\n\ntype Inners []Inner\n\ntype FooSpec struct {\n\tOK string `json:\"ok\"`\n\tL map[string]Inners `json:\"l\"`\n}\n", b.decl, b.typ), b.imp)
		}
	}
	add("no JSON tag", "type FooSpec struct {\n\tA string `json:\"a\"`\n\tX string\n}\n", "")
	add("only another tag", "type FooSpec struct {\n\tX string `yaml:\"x\"`\n}\n", "")
	add("embedded without JSON tag", "type E struct { A string `json:\"a\"`}\ntype FooSpec struct {\n\tE\n}\n", "")
	add("unexported without JSON tag", "type FooSpec struct {\n\tA string `json:\"a\"`\n\tx string\n}\n", "")
	parallel(len(cases), 8, func(i int) {
		res := c.Gen(dir, "crd", "paths=./"+cases[i].path, "output:dir="+filepath.Join(dir, "out", cases[i].path))
		c.Eval("reject " + cases[i].name)
		c.Count("rejected", 1)
		if res.TimedOut {
			c.Inconclusive("timeout on %s", cases[i].name)
			return
		}
		src := filepath.Join(dir, cases[i].path)
		if res.Panicked() {
			c.Violate("reject-panic", fmt.Sprintf("%s: panic instead of an error:\n%s", cases[i].name, clip(res.Stderr, 1500)), nil, src)
		} else if res.Code == 0 {
			c.Violate("accepted", fmt.Sprintf("%s: has no schema but was accepted", cases[i].name), nil, src)
		} else if !strings.Contains(res.Stderr, "t.go:") {
			c.Violate("reject-silent", fmt.Sprintf("%s: no diagnostic names the source:\n%s", cases[i].name, clip(res.Stderr, 800)), nil, src)
		}
	})
}
