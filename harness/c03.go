package main

import (
	"fmt"
	"path/filepath"
	"strings"
)

// C03: markers land exactly where they are written, or the run fails.

func init() { register("C03", checkC03) }

func checkC03(c *Ctx) {
	c.Rule("Positive cases: random packages in which fields, types and list items carry many schema markers each (up to dozens, repeated, in random order, spellings and comment positions, with types overridden by markers); every node of every written schema is compared with the model. Negative cases: one misplaced or invalid marker each (every typed marker on every wrong type at field, type and items position, every enumerated marker with values outside its domain, malformed values), which must be reported against the file it is in. One evaluation is one kind or one negative case.")
	n := c.N(140, 700)
	parallel(n, 6, func(i int) {
		r := c.Rng("model", i)
		p := profile{marks: 82, maxMarks: 10, typeMarks: 70, docs: 20, refs: 25, aliases: 8, embeds: 4, reqMarks: 20, maxSize: 40,
			fields: 5, decls: 8, kinds: 3, libs: 1, apis: 2, detach: 15, retype: 8, repeat: i%3 == 0}
		if i%4 == 0 {
			p.marks, p.maxMarks = 95, 26
		}
		if i%5 == 0 {
			p.opts.dangerous = true
		}
		g := genModel(r, "example.test/m", p)
		dir := c.CaseDir("m")
		g.write(dir, r)
		runCRDModel(c, g, dir, r, cmpOpts{})
		for k := range g.seen {
			c.See("markers", k)
		}
		for _, p := range append(append([]*Pkg{}, g.libs...), g.apis...) {
			for _, d := range p.Decls {
				for _, f := range d.Fields {
					if len(f.Marks) > 12 {
						c.Count("nodes_with_over_12_markers", 1)
					}
					c.Count("field_markers", int64(len(f.Marks)))
				}
			}
		}
	})
	negatives(c)
	c.Min("evaluations", 300)
	c.Min("nodes_with_over_12_markers", 20)
	c.Min("negative", 300)
	c.Min("markers", 50)
}

type negCase struct{ name, src string }

func negCases() []negCase {
	var out []negCase
	types := map[string]string{"string": "string", "integer": "int32", "boolean": "bool", "array": "[]string", "object": "map[string]string"}
	v := "kubebuilder:validation:"
	ok := map[string]string{
		"Maximum=3": "integer", "Minimum=-3": "integer", "MultipleOf=2": "integer", "ExclusiveMaximum=true": "integer", "ExclusiveMinimum=true": "integer",
		"ExclusiveMaximum=false": "integer", "ExclusiveMinimum=false": "integer",
		"MinProperties=1": "object", "MaxProperties=1": "object", "MaxLength=3": "string", "MinLength=3": "string", "Pattern=x": "string",
		"MaxItems=3": "array", "MinItems=3": "array", "UniqueItems=true": "array", "UniqueItems=false": "array",
	}
	head := "// +groupName=neg.example.test\npackage v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n// +kubebuilder:object:root=true\ntype Foo struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec FooSpec `json:\"spec\"`\n}\n\n"
	field := func(mark, typ string) string {
		return head + "type FooSpec struct {\n\tOther string `json:\"other\"`\n\t// +" + mark + "\n\tX " + typ + " `json:\"x\"`\n\tMore []string `json:\"more\"`\n}\n"
	}
	decl := func(mark, typ string) string {
		return head + "type FooSpec struct {\n\tX NT `json:\"x\"`\n}\n\n// NT is a type.\n// +" + mark + "\ntype NT " + typ + "\n"
	}
	add := func(n, s string) { out = append(out, negCase{n, s}) }
	for _, m := range sortedKeys(ok) {
		for _, t := range sortedKeys(types) {
			if t == ok[m] {
				continue
			}
			add(m+" on field "+t, field(v+m, types[t]))
			add(m+" on type "+t, decl(v+m, types[t]))
			if t != "object" {
				add("items:"+m+" on field "+t, field(v+"items:"+m, "[]"+types[t]))
				add("items:"+m+" on type "+t, decl(v+"items:"+m, "[]"+types[t]))
			}
		}
		add("items:"+m+" on field without items", field(v+"items:"+m, types[ok[m]]+map[bool]string{true: "", false: ""}[true]))
	}
	// the same with other Go types of these JSON types
	variants := map[string][]string{
		"string": {"*string", "[]byte", "metav1.Time", "*metav1.Duration", "NS", "types.UID"}, "integer": {"int", "int8", "int16", "int64", "*int64", "uint8", "uint16", "uint32", "NI"},
		"boolean": {"*bool", "NB"}, "array": {"[]int32", "[][]string", "[]metav1.Time", "[]NS", "NL"}, "object": {"map[string][]string", "metav1.LabelSelector", "*metav1.LabelSelector", "map[NS]NI", "NO"},
	}
	named := "\ntype NS string\n\ntype NI int32\n\ntype NB bool\n\ntype NL []string\n\ntype NO struct {\n\tA string `json:\"a\"`\n}\n"
	variant := func(mark, typ string) string {
		s := strings.Replace(field(mark, typ), "\nimport metav1", "\nimport \"k8s.io/apimachinery/pkg/types\"\n\nimport metav1", 1)
		return s + named + "\nvar _ types.UID\n"
	}
	for _, m := range sortedKeys(ok) {
		for _, t := range sortedKeys(variants) {
			if t == ok[m] {
				continue
			}
			for _, typ := range variants[t] {
				add(m+" on field "+typ, variant(v+m, typ))
				if t != "object" {
					add("items:"+m+" on field "+typ, variant(v+"items:"+m, "[]"+typ))
				}
			}
		}
	}
	for _, m := range []string{"Maximum=1.5", "Minimum=1.5", "Maximum=-0.25", "MultipleOf=0.5", "MultipleOf=2.5", "Minimum=1e-3"} {
		for _, typ := range append([]string{"int32"}, variants["integer"]...) {
			add(m+" on field "+typ, variant(v+m, typ))
			add("items:"+m+" on field "+typ, variant(v+"items:"+m, "[]"+typ))
			if typ != "NI" && typ[0] != '*' {
				add(m+" on type "+typ, decl(v+m, typ))
				add("items:"+m+" on type "+typ, decl(v+"items:"+m, "[]"+typ))
			}
		}
	}
	// an array of strings is an array: items markers that fit do not fail; drop those made above by accident
	kept := out[:0]
	for _, x := range out {
		if strings.HasSuffix(x.name, "on field without items") && strings.Contains(x.src, "X []string") {
			continue
		}
		kept = append(kept, x)
	}
	out = kept
	for _, t := range []string{"string", "integer", "boolean", "object"} {
		add("listType on "+t, field("listType=set", types[t]))
		add("listType on type "+t, decl("listType=atomic", types[t]))
		add("listMapKey on "+t, field("listMapKey=a", types[t]))
		if t != "object" {
			add("mapType on "+t, field("mapType=atomic", types[t]))
			add("mapType on type "+t, decl("mapType=granular", types[t]))
			add("structType on "+t, field("structType=atomic", types[t]))
			add("structType on type "+t, decl("structType=granular", types[t]))
		}
	}
	for _, t := range []string{"[]string", "[]Elem"} {
		el := ""
		if t == "[]Elem" {
			el = "\ntype Elem struct {\n\tA string `json:\"a\"`\n}\n"
		}
		add("mapType on "+t, field("mapType=atomic", t)+el)
		add("structType on "+t, field("structType=atomic", t)+el)
		add("listMapKey without listType "+t, field("listMapKey=a", t)+el)
		add("listMapKey with set "+t, field("listType=set\n\t// +listMapKey=a", t)+el)
		add("listMapKey with atomic "+t, field("listMapKey=a\n\t// +listType=atomic", t)+el)
		for _, bad := range []string{"Map", "array", "sets", "object", "\"\""} {
			add("listType="+bad+" "+t, field("listType="+bad, t)+el)
			add("type listType="+bad+" "+t, decl("listType="+bad, t)+el)
		}
	}
	for _, bad := range []string{"Atomic", "set", "map", "granul", "\"\""} {
		add("mapType="+bad, field("mapType="+bad, "map[string]string"))
		add("structType="+bad, field("structType="+bad, "NN")+"\ntype NN struct {\n\tA string `json:\"a\"`\n}\n")
		add("type structType="+bad, decl("structType="+bad, "struct {\n\tA string `json:\"a\"`\n}"))
	}
	// values outside the domain of the marker
	for _, x := range []struct{ m, t string }{
		{v + "Maximum=abc", "int32"}, {v + "Maximum=", "int32"}, {v + "Maximum=\"3\"", "int32"}, {v + "Minimum=1.5", "int32"}, {v + "Maximum=1.5", "int64"},
		{v + "MultipleOf=0.5", "int"}, {v + "Minimum=true", "int32"}, {v + "ExclusiveMaximum=1", "int32"}, {v + "ExclusiveMinimum=yes", "int32"},
		{v + "MaxLength=1.5", "string"}, {v + "MaxLength=abc", "string"}, {v + "MinLength=\"3\"", "string"}, {v + "MaxLength=", "string"}, {v + "MaxLength=3 4", "string"},
		{v + "Pattern=`unterminated", "string"}, {v + "Pattern=\"unterminated", "string"}, {v + "MaxItems=x", "[]string"}, {v + "MinItems=true", "[]string"},
		{v + "UniqueItems=1", "[]string"}, {v + "UniqueItems=maybe", "[]string"}, {v + "MinProperties=1.1", "map[string]string"}, {v + "MaxProperties={1}", "map[string]string"},
		{v + "XValidation:rule=\"self\",reason=Bad", "string"}, {v + "XValidation:rule=\"self\",reason=fieldvalueinvalid", "string"}, {v + "XValidation:message=\"no rule\"", "string"},
		{v + "XValidation", "string"}, {v + "XValidation:rule=\"self\",unknown=\"x\"", "string"}, {v + "XValidation:rule=\"self\",optionalOldSelf=1", "string"},
		{v + "XValidation:rule=\"self", "string"}, {v + "XValidation:rule=\"self\" message=\"x\"", "string"},
		{"kubebuilder:title=5", "string"}, {"kubebuilder:title={a,b}", "string"}, {"kubebuilder:title=true", "string"},
		{"default={bad json}", "string"}, {"default=", "string"}, {"default=\"x", "string"}, {"default=abc", "string"}, {"default={\"a\":1", "map[string]string"},
		{"kubebuilder:default={1,", "[]int32"}, {"kubebuilder:default=\"x", "string"}, {"kubebuilder:example={a:", "map[string]string"},
		{v + "Enum={a", "string"}, {v + "items:MaxLength=x", "[]string"}, {v + "items:Maximum=1.5", "[]int32"}, {v + "items:Pattern=\"x", "[]string"},
		{v + "items:Enum={a", "[]string"}, {v + "items:XValidation:rule=\"x\",reason=No", "[]string"},
		{"nullable=true", "string"}, {"optional=1", "string"}, {v + "Required=true", "string"}, {v + "XIntOrString=true", "string"}, {v + "Schemaless=1", "string"},
	} {
		add(x.m+" on "+x.t, field(x.m, x.t))
		if strings.HasPrefix(x.m, v) && !strings.Contains(x.m, "Required") && !strings.Contains(x.m, "Schemaless") {
			add("type "+x.m+" on "+x.t, decl(x.m, x.t))
		}
	}
	// a good marker beside a bad one must not hide it, nor a type override that fits
	add("two, one bad", field(v+"MaxLength=3\n\t// +"+v+"Maximum=3", "string"))
	add("two, one bad, swapped", field(v+"Maximum=3\n\t// +"+v+"MaxLength=3", "string"))
	add("override then wrong", field(v+"Type=integer\n\t// +"+v+"MaxLength=3", "string"))
	add("override after wrong", field(v+"MaxLength=3\n\t// +"+v+"Type=integer", "string"))
	add("repeat, first bad", field(v+"XValidation:rule=\"a\",reason=No\n\t// +"+v+"XValidation:rule=\"b\"", "string"))
	add("repeat, last bad", field(v+"XValidation:rule=\"a\"\n\t// +"+v+"XValidation:rule=\"b\",reason=No", "string"))
	add("bad deep inside", head+"type FooSpec struct {\n\tX map[string][]A `json:\"x\"`\n}\ntype A struct {\n\tB *B `json:\"b\"`\n}\ntype B struct {\n\t// +"+v+"MaxLength=3\n\tN []int32 `json:\"n\"`\n}\n")
	add("named type beneath", head+"type FooSpec struct {\n\t// +"+v+"MaxLength=3\n\tX S `json:\"x\"`\n}\ntype S string\n")
	add("pointer to named", head+"type FooSpec struct {\n\t// +"+v+"Maximum=3\n\tX *S `json:\"x\"`\n}\ntype S string\n")
	return out
}

func negatives(c *Ctx) {
	cases := negCases()
	dir := c.CaseDir("neg")
	newModule(dir, "example.test/neg")
	for i, x := range cases {
		writeFile(filepath.Join(dir, fmt.Sprintf("n%d/t.go", i)), x.src)
	}
	res := c.Gen(dir, "crd", "paths=./...", "output:dir="+filepath.Join(dir, "out"))
	if res.Code == 0 {
		c.Violate("negatives-accepted", "a run over packages with invalid markers only succeeded", nil, dir)
	}
	solo := []int{}
	for i, x := range cases {
		c.Eval("neg " + x.name)
		c.Count("negative", 1)
		if !strings.Contains(res.Stderr, fmt.Sprintf("/n%d/t.go:", i)) {
			solo = append(solo, i)
		} else if i%c.N(40, 4) == 0 {
			solo = append(solo, i)
		}
	}
	if len(solo) > 60 {
		solo = solo[:60]
	}
	parallel(len(solo), 8, func(k int) {
		i := solo[k]
		r := c.Gen(dir, "crd", fmt.Sprintf("paths=./n%d", i), "output:dir="+filepath.Join(dir, fmt.Sprintf("o%d", i)))
		c.Count("negative_alone", 1)
		src := filepath.Join(dir, fmt.Sprintf("n%d", i))
		if r.Code == 0 {
			c.Violate("accepted:"+cases[i].name, fmt.Sprintf("%s: invalid marker accepted; written:\n%s", cases[i].name, clip(fmt.Sprint(snapshot(filepath.Join(dir, fmt.Sprintf("o%d", i)))), 2500)), nil, src)
		} else if !strings.Contains(r.Stderr, fmt.Sprintf("/n%d/t.go:", i)) {
			c.Violate("unnamed:"+cases[i].name, fmt.Sprintf("%s: the diagnostic does not name the source:\n%s", cases[i].name, clip(r.Stderr, 1500)), nil, src)
		}
	})
}
