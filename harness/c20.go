package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// C20: apply configurations, compiled and executed.

func init() { register("C20", checkC20) }

//go:embed c20_prog.txt
var c20Prog string

func checkC20(c *Ctx) {
	c.Rule("A case is one module of up to five random API packages (types, embedded structs, opt-ins and opt-outs, output packages, groups). The files and types generated are compared with those expected from the markers; the configurations are compiled with a program that sets every field from values of the API types and compares the JSON with theirs. Distinct cases differ in the packages.")
	c.Assume("k8s.io/code-generator's documented limits: every serialised field carries a json tag; no pointers to slices of structs, slices of pointers to structs, unexported struct types or embedded foreign structs")
	c.Min("modules", 6)
	c.Min("configurations", 40)
	c.Min("fields", 300)
	c.Min("sets", 600)
	c.Min("objects", 100)
	c.Min("kinds", 12)
	c.Min("unmarked_packages", 2)
	n := c.N(7, 60)
	parallel(n, 4, func(i int) { c20Run(c, i) })
	c20Special(c)
}

// c20Field is a field of a struct; typ is its Go type expression.
type c20Field struct {
	name, tag, typ string
	embed          bool
}

type c20Struct struct {
	name    string
	fields  []c20Field
	refs    []string // types of the package its serialised fields mention
	kind    bool
	enabled bool
	markers []string // +...
	tagged  bool
}

type c20Pkg struct {
	dir, name, group, outpkg string
	importPath               string
	enabled                  bool
	marked                   string // package marker, or ""
	groupInDoc               bool
	structs                  map[string]*c20Struct
	order                    []string
	named                    map[string][]string // named types and what they mention
	src                      map[string]string
}

func (p *c20Pkg) outDir() string {
	o := p.outpkg
	if o == "" {
		o = "applyconfiguration"
	}
	return path.Join(p.dir, o)
}

// expected are the types that get a configuration.
func (p *c20Pkg) expected() map[string]bool {
	seen := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		if s := p.structs[n]; s != nil {
			for _, x := range s.refs {
				visit(x)
			}
		}
		for _, x := range p.named[n] {
			visit(x)
		}
	}
	for n, s := range p.structs {
		if s.kind && s.enabled {
			visit(n)
		}
	}
	out := map[string]bool{}
	for n := range seen {
		if s := p.structs[n]; s != nil && s.tagged {
			out[n] = true
		}
	}
	return out
}

var c20Scalars = []string{"string", "bool", "int", "int32", "int64", "uint8", "float64", "metav1.Time", "metav1.Duration", "intstr.IntOrString", "resource.Quantity", "runtime.RawExtension", "corev1.LocalObjectReference", "metav1.LabelSelector", "shared.Thing", "shared.Mode"}

// c20Type gives a type expression over the local types and says which of those it mentions.
func c20Type(r *rand.Rand, locals, structs []string, depth int) (string, []string) {
	isStruct := func(s string) bool {
		for _, x := range structs {
			if x == s {
				return true
			}
		}
		return false
	}
	base := func() (string, []string) {
		if len(locals) > 0 && chance(r, 55) {
			n := pick(r, locals...)
			return n, []string{n}
		}
		return pick(r, c20Scalars...), nil
	}
	if depth <= 0 {
		return base()
	}
	switch r.Intn(9) {
	case 0, 1, 2, 3:
		return base()
	case 4:
		t, refs := base()
		return "*" + t, refs
	case 5:
		t, refs := base()
		return "[]" + t, refs
	case 6:
		t, refs := base()
		return "map[string]" + t, refs
	case 7:
		// containers of containers, of things that are not configurations themselves
		t := pick(r, c20Scalars...)
		return pick(r, "[][]", "map[string][]", "[]map[string]", "*[]", "map[string]map[string]") + t, nil
	default:
		t, refs := base()
		if isStruct(t) {
			return t, refs
		}
		return pick(r, "*", "[]", "map[string]") + t, refs
	}
}

func c20Ident(r *rand.Rand, used map[string]bool, words []string) string {
	for {
		n := pick(r, words...)
		if chance(r, 50) {
			n += pick(r, words...)
		}
		if chance(r, 15) {
			n += strconv.Itoa(r.Intn(10))
		}
		if l := strings.ToLower(n); !used[l] && n != "Utils" {
			used[l] = true
			return n
		}
	}
}

var c20TypeWords = []string{"Alpha", "Beta", "Gamma", "Rule", "Policy", "URL", "HTTP", "Node", "Config", "Value", "String", "Type", "Spec", "Status", "Internal", "Item", "Range", "Map", "Func", "Interface"}
var c20FieldWords = []string{"Name", "Size", "URL", "Type", "Value", "Spec", "Status", "Items", "Labels", "Kind", "Metadata", "Range", "Func", "Default", "Count", "ID", "IPs", "Data", "B", "I", "Values", "V"}

func c20Fields(r *rand.Rand, s *c20Struct, n int, used map[string]bool, locals, structs []string) {
	for i := 0; i < n; i++ {
		name := c20Ident(r, used, c20FieldWords)
		switch r.Intn(14) {
		case 0: // not serialised
			s.fields = append(s.fields, c20Field{name, "-", pick(r, "string", "*int", "chan int", "func()"), false})
			continue
		case 1:
			t := strings.ToLower(name[:1]) + name[1:]
			if token.IsKeyword(t) {
				t = "x" + name
			}
			if chance(r, 50) {
				s.fields = append(s.fields, c20Field{t, "", "int", false})
				continue
			}
		}
		typ, refs := c20Type(r, locals, structs, 1+r.Intn(2))
		key := strings.ToLower(name[:1]) + name[1:]
		switch r.Intn(8) {
		case 0:
			key = "x-" + key
		case 1:
			key = strings.ToLower(name) + ".y"
		case 2:
			key = "" // the Go name
		}
		opts := pick(r, "", ",omitempty", ",omitempty")
		if key == "" && opts == "" {
			opts = ",omitempty"
		}
		s.fields = append(s.fields, c20Field{name, key + opts, typ, false})
		s.refs = append(s.refs, refs...)
		s.tagged = true
	}
}

func c20GenPkg(r *rand.Rand, mod, dir string, idx int, unmarked bool) *c20Pkg {
	p := &c20Pkg{dir: dir, name: path.Base(dir), importPath: mod + "/" + dir, structs: map[string]*c20Struct{}, named: map[string][]string{}}
	p.group = pick(r, "g.test", "apps.example.com", "x.y.z.test") + ""
	p.groupInDoc = true
	which := r.Intn(8)
	if unmarked {
		which = 0
	}
	switch which {
	case 0:
		p.marked = ""
	case 1:
		p.marked = "+kubebuilder:ac:generate=false"
	default:
		p.marked = "+kubebuilder:ac:generate=true"
		p.enabled = true
	}
	if chance(r, 40) {
		p.outpkg = pick(r, "ac", "applyconfiguration/deep", "../ac"+strconv.Itoa(idx), "./cfg")
		if strings.Contains(dir, "/") && chance(r, 25) {
			p.outpkg = "../../out" + strconv.Itoa(idx) + "/clients"
		}
	}
	used := map[string]bool{"typemeta": true, "objectmeta": true}
	var helpers, locals []string
	for i := 2 + r.Intn(5); i > 0; i-- {
		helpers = append(helpers, c20Ident(r, used, c20TypeWords))
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		n := c20Ident(r, used, c20TypeWords)
		p.named[n] = nil
		locals = append(locals, n)
	}
	sort.Strings(locals)
	// named types that are not structs
	namedSrc := ""
	for _, n := range locals {
		var t string
		var refs []string
		switch r.Intn(4) {
		case 0:
			t = "string"
		case 1:
			h := pick(r, helpers...)
			t, refs = "[]"+h, []string{h}
		case 2:
			h := pick(r, helpers...)
			t, refs = "map[string]"+h, []string{h}
		default:
			t = pick(r, "[]string", "int32", "map[string]int64", "[]byte", "bool")
		}
		p.named[n] = refs
		namedSrc += fmt.Sprintf("\n// %s is a named type.\ntype %s %s\n", n, n, t)
	}
	locals = append(locals, helpers...)
	// helpers: value references only to later ones, so that no type contains itself
	for i, n := range helpers {
		s := &c20Struct{name: n}
		fused := map[string]bool{}
		var can []string
		can = append(can, helpers[i+1:]...)
		for m, refs := range p.named {
			if len(refs) == 0 {
				can = append(can, m)
			}
		}
		sort.Strings(can)
		if !chance(r, 8) {
			c20Fields(r, s, 1+r.Intn(6), fused, can, helpers)
			if chance(r, 30) { // recursion, behind a pointer, list or map
				h := pick(r, locals...)
				s.fields = append(s.fields, c20Field{"Again", "again,omitempty", pick(r, "*", "[]", "map[string]") + h, false})
				if p.structs[h] == nil && !contains(helpers, h) && chance(r, 100) {
					s.fields[len(s.fields)-1].typ = "*" + h
				}
				s.refs = append(s.refs, h)
				s.tagged = true
			}
		}
		if i+1 < len(helpers) && chance(r, 30) {
			e := pick(r, helpers[i+1:]...)
			// what is embedded may not repeat a field
			s.fields = append([]c20Field{{e, pick(r, ",inline", ",inline", strings.ToLower(e)+",omitempty"), e, true}}, s.fields...)
			s.refs = append(s.refs, e)
			s.tagged = true
		}
		if chance(r, 12) {
			s.markers = append(s.markers, pick(r, "+kubebuilder:ac:generate=true", "+kubebuilder:ac:generate=false"))
		}
		p.structs[n] = s
		p.order = append(p.order, n)
	}
	p.dropClashes()
	// kinds
	for i := 1 + r.Intn(3); i > 0; i-- {
		n := c20Ident(r, used, c20TypeWords)
		s := &c20Struct{name: n, kind: true, tagged: true}
		s.fields = append(s.fields, c20Field{"TypeMeta", ",inline", "metav1.TypeMeta", true}, c20Field{"ObjectMeta", "metadata" + pick(r, "", ",omitempty"), "metav1.ObjectMeta", true})
		fused := map[string]bool{"kind": true, "metadata": true, "name": true, "labels": true, "spec": true, "status": true, "apiversion": true}
		h := pick(r, helpers...)
		s.fields = append(s.fields, c20Field{"Spec", "spec" + pick(r, "", ",omitempty"), pick(r, "", "*") + h, false})
		s.refs = append(s.refs, h)
		if chance(r, 60) {
			h := pick(r, helpers...)
			s.fields = append(s.fields, c20Field{"Status", "status,omitempty", h, false})
			s.refs = append(s.refs, h)
		}
		c20Fields(r, s, r.Intn(4), fused, locals, helpers)
		resource := chance(r, 60)
		own := 0
		switch r.Intn(4) {
		case 0:
			own = 1
		case 1:
			own = -1
		}
		if resource {
			s.markers = append(s.markers, pick(r, "+kubebuilder:resource", "+kubebuilder:resource:path=things", "+kubebuilder:resource:scope=Cluster"))
		} else {
			s.markers = append(s.markers, "+kubebuilder:object:root=true")
		}
		if own == 1 {
			s.markers = append(s.markers, "+kubebuilder:ac:generate=true")
		} else if own == -1 {
			s.markers = append(s.markers, "+kubebuilder:ac:generate=false")
		}
		s.enabled = own == 1 || own == 0 && resource && p.enabled
		if (s.enabled || own == -1) && chance(r, 40) { // whether there are to be clients is another matter
			s.markers = append(s.markers, pick(r, "+genclient", "+genclient", "+genclient:nonNamespaced", "+genclient:noStatus", "+genclient:onlyVerbs=get,apply", "+genclient:skipVerbs=patch"))
		}
		p.structs[n] = s
		p.order = append(p.order, n)
		if chance(r, 50) {
			l := n + "List"
			if !used[strings.ToLower(l)] {
				used[strings.ToLower(l)] = true
				p.structs[l] = &c20Struct{name: l, tagged: true, refs: []string{n}, markers: []string{"+kubebuilder:object:root=true"}, fields: []c20Field{
					{"TypeMeta", ",inline", "metav1.TypeMeta", true}, {"ListMeta", "metadata,omitempty", "metav1.ListMeta", true}, {"Items", "items", "[]" + n, false}}}
				p.order = append(p.order, l)
			}
		}
	}
	r.Shuffle(len(p.order), func(i, j int) { p.order[i], p.order[j] = p.order[j], p.order[i] })
	// the sources
	p.src = map[string]string{}
	doc := "// Package " + p.name + " is generated.\n"
	var marks []string
	if p.marked != "" {
		marks = append(marks, "// "+p.marked)
	}
	if p.outpkg != "" {
		marks = append(marks, fmt.Sprintf("// +kubebuilder:ac:output:package=%q", p.outpkg))
	}
	marks = append(marks, "// +groupName="+p.group)
	r.Shuffle(len(marks), func(i, j int) { marks[i], marks[j] = marks[j], marks[i] })
	doc += strings.Join(marks, "\n") + "\npackage " + p.name + "\n\nimport \"k8s.io/apimachinery/pkg/runtime/schema\"\n\n// SchemeGroupVersion is the group and version.\nvar SchemeGroupVersion = schema.GroupVersion{Group: " + strconv.Quote(p.group) + ", Version: " + strconv.Quote(p.name) + "}\n"
	p.src["doc.go"] = doc
	body := [2]string{namedSrc, ""}
	for i, n := range p.order {
		s := p.structs[n]
		var b strings.Builder
		b.WriteString("\n")
		cut := 0
		if len(s.markers) > 0 && chance(r, 40) { // markers in a block of their own
			cut = 1 + r.Intn(len(s.markers))
			for _, m := range s.markers[:cut] {
				b.WriteString("// " + m + "\n")
			}
			b.WriteString("\n")
		}
		fmt.Fprintf(&b, "// %s is a type.\n", n)
		for _, m := range s.markers[cut:] {
			b.WriteString("// " + m + "\n")
		}
		fmt.Fprintf(&b, "type %s struct {\n", n)
		for _, f := range s.fields {
			if f.embed {
				fmt.Fprintf(&b, "\t%s `json:%q`\n", f.typ, f.tag)
			} else if f.tag == "" {
				fmt.Fprintf(&b, "\t%s %s\n", f.name, f.typ)
			} else {
				fmt.Fprintf(&b, "\t// %s is a field.\n\t%s %s `json:%q`\n", f.name, f.name, f.typ, f.tag)
			}
		}
		b.WriteString("}\n")
		body[i%2] += b.String()
	}
	for i, b := range body {
		imports := ""
		for _, x := range [][2]string{{"metav1.", `metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"`}, {"intstr.", `"k8s.io/apimachinery/pkg/util/intstr"`}, {"resource.Q", `"k8s.io/apimachinery/pkg/api/resource"`}, {"runtime.R", `"k8s.io/apimachinery/pkg/runtime"`}, {"corev1.", `corev1 "k8s.io/api/core/v1"`}, {"shared.", strconv.Quote(mod + "/shared")}} {
			if strings.Contains(b, x[0]) {
				imports += "\t" + x[1] + "\n"
			}
		}
		if imports != "" {
			imports = "import (\n" + imports + ")\n"
		}
		p.src[[]string{"a_types.go", "b_types.go"}[i]] = "package " + p.name + "\n\n" + imports + b
	}
	return p
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

// dropClashes removes fields that the embedded structs of a helper have as well: Go's own rules for
// hidden fields are not what is judged here.
func (p *c20Pkg) dropClashes() {
	var names func(n string) (map[string]bool, map[string]bool)
	names = func(n string) (map[string]bool, map[string]bool) {
		gos, keys := map[string]bool{}, map[string]bool{}
		for _, f := range p.structs[n].fields {
			gos[f.name] = true
			if f.embed {
				g, k := names(f.name)
				for x := range g {
					gos[x] = true
				}
				if strings.HasPrefix(f.tag, ",inline") {
					for x := range k {
						keys[x] = true
					}
					continue
				}
			}
			k, _, _ := strings.Cut(f.tag, ",")
			if k == "" {
				k = f.name
			}
			keys[strings.ToLower(k)] = true
		}
		return gos, keys
	}
	for i := len(p.order) - 1; i >= 0; i-- {
		s := p.structs[p.order[i]]
		if len(s.fields) == 0 || !s.fields[0].embed {
			continue
		}
		if t := p.structs[s.fields[0].name].fields; len(t) > 0 && t[0].embed {
			s.fields[0].tag = ",inline" // the generator has no means to reach through an optional one
		}
		if !p.structs[s.fields[0].name].tagged {
			s.fields[0].tag = ",inline" // nor one for what has no configuration
		}
		e := s.fields[0]
		gos, keys := names(e.name)
		if gos[e.name] { // hidden by what it embeds, for the setters
			s.fields[0].embed, s.fields[0].name, s.fields[0].typ = false, "Embed"+e.name, e.name
			s.fields[0].tag = "embed" + e.name + ",omitempty"
			continue
		}
		gos[e.name] = true
		if !strings.HasPrefix(e.tag, ",inline") {
			keys = map[string]bool{}
			k, _, _ := strings.Cut(e.tag, ",")
			keys[k] = true
		}
		kept := []c20Field{e}
		for _, f := range s.fields[1:] {
			k, _, _ := strings.Cut(f.tag, ",")
			if k == "" {
				k = f.name
			}
			if !gos[f.name] && !keys[strings.ToLower(k)] {
				kept = append(kept, f)
			}
		}
		s.fields = kept
		s.refs = nil
		for _, f := range s.fields {
			if f.tag == "-" || f.tag == "" {
				continue
			}
			for _, w := range regexp.MustCompile(`[A-Za-z0-9_.]+`).FindAllString(f.typ, -1) {
				if p.structs[w] != nil || contains(p.order, w) || p.named[w] != nil {
					s.refs = append(s.refs, w)
				} else if _, ok := p.named[w]; ok {
					s.refs = append(s.refs, w)
				}
			}
		}
	}
}

func c20Module(dir, mod string) {
	src := filepath.Join(repoDir, "pkg", "applyconfiguration", "testdata", "cronjob")
	s := readFile(filepath.Join(src, "go.mod"))
	writeFile(filepath.Join(dir, "go.mod"), "module "+mod+"\n"+s[strings.Index(s, "\n"):])
	writeFile(filepath.Join(dir, "go.sum"), readFile(filepath.Join(src, "go.sum")))
	writeFile(filepath.Join(dir, "shared", "s.go"), "package shared\n\ntype Thing struct {\n\tA string `json:\"a\"`\n\tB []int `json:\"b,omitempty\"`\n}\n\ntype Mode string\n")
}

func c20Run(c *Ctx, i int) {
	r := c.Rng("ac", i)
	dir := c.CaseDir("c20")
	mod := "example.test/mod"
	c20Module(dir, mod)
	dirs := []string{"api/v1", "api/v1beta1", "api/other/v2", "apps/v1alpha1", "v3"}
	r.Shuffle(len(dirs), func(a, b int) { dirs[a], dirs[b] = dirs[b], dirs[a] })
	dirs = dirs[:3+r.Intn(3)]
	var ps []*c20Pkg
	for k, d := range dirs {
		p := c20GenPkg(r, mod, d, k, k == 0 && i%3 == 0)
		for f, s := range p.src {
			writeFile(filepath.Join(dir, d, f), s)
		}
		ps = append(ps, p)
	}
	before := snapshot(dir)
	args := []string{"applyconfiguration", "paths=./..."}
	header := ""
	if chance(r, 50) {
		header = "// Copyright of somebody.\n// Another line, made up.\n"
		writeFile(filepath.Join(c.Scratch, "work", fmt.Sprintf("c20h%d.txt", i)), header)
		args[0] += fmt.Sprintf(":headerFile=%s/work/c20h%d.txt", c.Scratch, i)
	}
	if chance(r, 30) {
		args[1] = "paths=" + "./" + strings.Join(dirs, ";./")
	}
	key := ""
	for _, p := range ps {
		for _, f := range sortedKeys(p.src) {
			key += p.dir + "/" + f + "\n" + p.src[f]
		}
	}
	c.Eval(key)
	c.Count("modules", 1)
	res := c.Gen(dir, args...)
	if res.Code != 0 {
		vet := []string{"vet"} // leaving what the run may have left behind aside
		for _, p := range ps {
			vet = append(vet, "./"+p.dir)
		}
		if out := runCmd(dir, nil, toolTimeout, "go", vet...); out.Code != 0 {
			c.Inconclusive("the generated module is wrong: %s", clip(out.Stderr, 2000))
			return
		}
		c.Violate("fails", "controller-gen "+strings.Join(args, " ")+" fails: "+clip(res.Stderr, 3000), nil, dir)
		return
	}
	if s := strings.TrimSpace(res.Stderr); s != "" {
		c.Violate("diagnostics", "controller-gen "+strings.Join(args, " ")+" says: "+clip(s, 3000), nil, dir)
	}
	// the files
	after := snapshot(dir)
	want := map[string]string{}
	for _, p := range ps {
		exp := p.expected()
		any := false
		for _, s := range p.structs {
			any = any || s.kind && s.enabled
		}
		if !p.enabled && !any {
			c.Count("unmarked_packages", 1)
			continue
		}
		o := p.outDir()
		want[o+"/utils.go"] = ""
		want[o+"/internal/internal.go"] = ""
		for n := range exp {
			want[path.Join(o, c20Sub(p), strings.ToLower(n)+".go")] = n + "ApplyConfiguration"
		}
	}
	fset := token.NewFileSet()
	for _, k := range sortedKeys(after) {
		if b, ok := before[k]; ok {
			if b != after[k] {
				c.Violate("source-changed", "the run changes "+k, nil, dir)
			}
			continue
		}
		if !strings.HasSuffix(k, ".go") {
			if !strings.Contains(path.Base(k), ".") { // a directory
				continue
			}
		}
		n, ok := want[k]
		if !ok {
			c.Violate("extra-file", "the run writes "+k+", which no enabled type asks for", nil, dir)
			continue
		}
		delete(want, k)
		text := readFile(filepath.Join(dir, k))
		f, err := parser.ParseFile(fset, k, text, parser.ParseComments)
		if err != nil {
			c.Violate("syntax", fmt.Sprintf("%s does not parse: %v", k, err), nil, dir)
			continue
		}
		if header != "" && !strings.HasPrefix(text, header) {
			c.Violate("header", k+" does not start with the header file's text", nil, dir)
		}
		if !ast.IsGenerated(f) {
			c.Violate("header", k+" does not say that it is generated", nil, dir)
		}
		if n == "" {
			continue
		}
		found := false
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.TYPE {
				continue
			}
			for _, s := range g.Specs {
				if s.(*ast.TypeSpec).Name.Name == n {
					found = true
				} else {
					c.Violate("extra-type", k+" declares "+s.(*ast.TypeSpec).Name.Name, nil, dir)
				}
			}
		}
		if !found {
			c.Violate("missing-type", k+" does not declare "+n, nil, dir)
		}
	}
	for _, k := range sortedKeys(want) {
		c.Violate("missing-file", "the run does not write "+k, nil, dir)
	}
	if c.Violations() > 0 && os.Getenv("VERIF_DEBUG") == "" {
		return
	}
	// compiled and executed
	var imp, reg strings.Builder
	for k, p := range ps {
		exp := p.expected()
		if len(exp) == 0 {
			continue
		}
		o := path.Join(mod, p.outDir())
		fmt.Fprintf(&imp, "\tapi%d %q\n\tac%d %q\n\tut%d %q\n", k, p.importPath, k, path.Join(o, c20Sub(p)), k, o)
		for _, n := range sortedKeys(exp) {
			fmt.Fprintf(&reg, "\t\t{%q, api%d.%s{}, ac%d.%sApplyConfiguration{}, ac%d.%s, %v, %q, api%d.SchemeGroupVersion.WithKind(%q), func(k schema.GroupVersionKind) any { return ut%d.ForKind(k) }},\n", p.dir+"."+n, k, n, k, n, k, n, p.structs[n].kind && p.structs[n].enabled, p.group+"/"+p.name, k, n, k)
		}
	}
	writeFile(filepath.Join(dir, "cmd", "drv", "main.go"), c20Prog)
	if imp.Len() > 0 {
		writeFile(filepath.Join(dir, "cmd", "drv", "reg.go"), "package main\n\nimport (\n\t\"k8s.io/apimachinery/pkg/runtime/schema\"\n"+imp.String()+")\n\nfunc init() {\n\tentries = []entry{\n"+reg.String()+"\t}\n}\n")
	}
	pkgs := []string{"build", "-ldflags=-s -w", "-o", "bin/", "./cmd/drv"}
	var apis []string
	for _, p := range ps {
		apis = append(apis, "./"+p.dir)
		if _, err := os.Stat(filepath.Join(dir, p.outDir())); err == nil {
			pkgs = append(pkgs, "./"+p.outDir()+"/...")
		}
	}
	out := c20Build(dir, pkgs...)
	if out.TimedOut {
		c.Inconclusive("compiling takes too long")
		return
	}
	if out.Code != 0 {
		if api := c20Build(dir, append([]string{"build"}, apis...)...); api.Code != 0 {
			c.Inconclusive("the generated module is wrong: %s", clip(api.Stderr, 2000))
			return
		}
		c.Violate("compile", "the generated code does not compile: "+clip(out.Stderr, 3000), nil, dir)
		return
	}
	run := runCmd(dir, nil, toolTimeout, filepath.Join(dir, "bin", "drv"), strconv.FormatInt(r.Int63(), 10))
	_ = os.RemoveAll(filepath.Join(dir, "bin"))
	if !strings.Contains(run.Stdout, "\nDONE") && !strings.HasPrefix(run.Stdout, "DONE") {
		c.Violate("run", "the program using the configurations fails: "+clip(run.Stderr, 3000), nil, dir)
		return
	}
	for _, l := range strings.Split(run.Stdout, "\n") {
		f := strings.SplitN(l, " ", 3)
		switch {
		case len(f) == 3 && f[0] == "FAIL":
			c.Violate(f[1], f[2], nil, dir)
		case len(f) == 3 && f[0] == "COUNT":
			n, _ := strconv.ParseInt(f[2], 10, 64)
			c.Count(f[1], n)
		}
	}
	// once more
	_ = os.RemoveAll(filepath.Join(dir, "cmd"))
	if res := c.Gen(dir, args...); res.Code != 0 {
		c.Violate("second-run", "a second run fails: "+clip(res.Stderr, 2000), nil, dir)
	} else if d := diffSnap(after, snapshot(dir)); d != "" {
		c.Violate("second-run", "a second run changes something: "+clip(d, 2000), nil, dir)
	}
	_ = os.RemoveAll(dir)
}

// c20Sub is the directory below the output package: the last two elements of the package's path.
func c20Sub(p *c20Pkg) string {
	parts := strings.Split(p.importPath, "/")
	return strings.ToLower(strings.Join(parts[len(parts)-2:], "/"))
}

const c20Kind = "package v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n// +kubebuilder:resource\ntype Foo struct {\n\tmetav1.TypeMeta   `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec Spec `json:\"spec\"`\n}\n\ntype Spec struct {\n\tA string `json:\"a\"`\n\tB B `json:\"b,omitempty\"`\n\tC []map[string]B `json:\"c,omitempty\"`\n}\n"

const c20GV = "package v1\n\nimport \"k8s.io/apimachinery/pkg/runtime/schema\"\n\nvar SchemeGroupVersion = schema.GroupVersion{Group: \"g.test\", Version: \"v1\"}\n"

// c20Special are cases of their own: field types that do not exist, modules below the working
// directory's, a group named outside doc.go.
func c20Special(c *Ctx) {
	mod := "example.test/mod"
	newCase := func(sub string, b string) string {
		dir := c.CaseDir("c20s")
		c20Module(dir, mod)
		writeFile(filepath.Join(dir, sub, "doc.go"), "// +groupName=g.test\n// +kubebuilder:ac:generate=true\n"+c20GV)
		writeFile(filepath.Join(dir, sub, "t.go"), c20Kind+b)
		return dir
	}
	r := c.Rng("special", 0)
	bad := []struct{ name, src string }{
		{"plain", "type B struct {\n\tX Undef `json:\"x\"`\n}\n"},
		{"pointer", "type B struct {\n\tX *Undef `json:\"x\"`\n}\n"},
		{"list", "type B struct {\n\tX []Undef `json:\"x\"`\n}\n"},
		{"map", "type B struct {\n\tX map[string]*Undef `json:\"x\"`\n}\n"},
		{"named", "type B []Undef\n"},
		{"itself", ""},
		{"embedded", "type B struct {\n\tUndef `json:\",inline\"`\n\tX int `json:\"x\"`\n}\n"},
		{"package", "type B struct {\n\tX metav1.Undef `json:\"x\"`\n}\n"},
		{"nested", "type B struct {\n\tD *D `json:\"d\"`\n}\n\ntype D struct {\n\tE map[string][]E `json:\"e\"`\n}\n\ntype E struct {\n\tX Undef `json:\"x\"`\n}\n"},
		{"fine", "type B struct {\n\tX int `json:\"x\"`\n\tY Undef `json:\"-\"`\n}\n\ntype Other struct {\n\tX Undef `json:\"x\"`\n}\n"},
	}
	if !c.Thorough() {
		r.Shuffle(len(bad)-1, func(i, j int) { bad[i], bad[j] = bad[j], bad[i] })
		bad = bad[len(bad)-5:]
	}
	parallel(len(bad), 4, func(i int) {
		dir := newCase("api/v1", bad[i].src)
		before := snapshot(dir)
		res := c.Gen(dir, "applyconfiguration", "paths=./api/...")
		c.Eval("unresolved " + bad[i].name)
		c.Count("unresolved", 1)
		if bad[i].name == "fine" {
			if res.Code != 0 {
				c.Violate("rejected", "a type that does not exist is used only where no configuration needs it, and the run fails: "+clip(res.Stderr, 2000), nil, dir)
			}
		} else if res.Code == 0 {
			c.Violate("unresolved", "a field has a type that does not exist (case "+bad[i].name+"), and the run succeeds", nil, dir)
		} else if !strings.Contains(res.Stderr, "t.go:") {
			c.Violate("unresolved", "the error does not say where: "+clip(res.Stderr, 2000), nil, dir)
		} else if d := diffSnap(before, snapshot(dir)); d != "" {
			c.Violate("unresolved", "the run fails, but writes something: "+clip(d, 2000), nil, dir)
		}
		_ = os.RemoveAll(dir)
	})
	// a module below
	dir := newCase("sub/api/v1", "type B struct {\n\tX int `json:\"x\"`\n}\n")
	writeFile(filepath.Join(dir, "sub", "go.mod"), strings.Replace(readFile(filepath.Join(dir, "go.mod")), mod, mod+"/sub", 1))
	writeFile(filepath.Join(dir, "sub", "go.sum"), readFile(filepath.Join(dir, "go.sum")))
	res := c.Gen(dir, "applyconfiguration", "paths=./sub/...")
	c.Eval("nested module")
	if _, err := os.Stat(filepath.Join(dir, "sub", "api", "v1", "applyconfiguration", "api", "v1", "foo.go")); res.Code != 0 || err != nil {
		c.Violate("applyconfiguration-in-a-nested-module", "controller-gen applyconfiguration paths=./sub/..., where sub is a module of its own, fails: "+clip(res.Stderr, 2000), nil, dir)
	}
	_ = os.RemoveAll(dir)
	// a group named outside doc.go, as kubebuilder's own projects do
	dir = newCase("api/v1", "type B struct {\n\tX int `json:\"x\"`\n}\n")
	_ = os.Rename(filepath.Join(dir, "api", "v1", "doc.go"), filepath.Join(dir, "api", "v1", "groupversion_info.go"))
	writeFile(filepath.Join(dir, "cmd", "main.go"), "package main\n\nimport (\n\t\"fmt\"\n\n\tac \""+mod+"/api/v1/applyconfiguration/api/v1\"\n)\n\nfunc main() { fmt.Println(*ac.Foo(\"a\", \"b\").APIVersion) }\n")
	res = c.Gen(dir, "applyconfiguration", "paths=./api/...")
	c.Eval("group outside doc.go")
	if res.Code != 0 {
		c.Violate("fails", "controller-gen fails: "+clip(res.Stderr, 2000), nil, dir)
	} else if out := c20Build(dir, "run", "./cmd"); out.Code != 0 {
		c.Violate("compile", "the generated code does not compile: "+clip(out.Stderr, 2000), nil, dir)
	} else if s := strings.TrimSpace(out.Stdout); s != "g.test/v1" {
		sig := "apiversion-outside-doc.go"
		if s != "api/v1" {
			sig = "apiversion"
		}
		c.Violate(sig, "with +groupName in groupversion_info.go the constructor gives apiVersion "+s+", not g.test/v1", nil, dir)
	}
	_ = os.RemoveAll(dir)
}

// c20Build runs the go command; what depends on the machine rather than on the code is tried again.
func c20Build(dir string, args ...string) Result {
	out := runCmd(dir, nil, 2*toolTimeout, "go", args...)
	if out.Code != 0 {
		time.Sleep(2 * time.Second)
		out = runCmd(dir, nil, 2*toolTimeout, "go", args...)
	}
	return out
}
