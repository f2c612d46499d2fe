package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"
)

// C12: the set of methods in the generated file against a model of the markers.

func init() { register("C12", checkC12) }

type c12Type struct {
	name, kind string
	markers    []string
	want       map[string]bool // methods expected in the generated file
	decl       string
}

func checkC12(c *Ctx) {
	c.Rule("one evaluation = one type declaration whose generated methods were compared with the model; distinct by kind, markers, package marker and hand-written methods")
	n := c.N(14, 250)
	parallel(n, 5, func(i int) { c12Case(c, i) })
	c.Min("evaluations", 300)
	c.Min("methods", 150)
	c.Min("files_absent", 8)
	c.Min("distinct_combos", 150)
}

func c12Case(c *Ctx, i int) {
	r := c.Rng("dc12", i)
	dir := c.CaseDir("dc12")
	newModule(dir, "dc.test/s")
	type pkg struct {
		dir   string
		types []c12Type
	}
	var pkgs []pkg
	for j := 0; j < 8; j++ {
		p := pkg{dir: fmt.Sprintf("p%d", j)}
		all := false
		var pm []string
		switch r.Intn(7) {
		case 0, 1:
			pm, all = []string{"+kubebuilder:object:generate=true"}, true
		case 2:
			pm = []string{"+kubebuilder:object:generate=false"}
			if chance(r, 50) {
				pm = append(pm, "+k8s:deepcopy-gen=package") // the current spelling wins
			}
		case 3:
			pm, all = []string{pick(r, "+k8s:deepcopy-gen=package", "+k8s:deepcopy-gen=package,register")}, true
		case 4:
			pm = []string{pick(r, "+k8s:deepcopy-gen=false", "+k8s:deepcopy-gen=register")}
			if chance(r, 50) {
				pm, all = append(pm, "+kubebuilder:object:generate=true"), true
			}
		}
		used := map[string]bool{}
		for k, n := 0, 1+r.Intn(9); k < n; k++ {
			t := c12GenType(r, k, all, strings.Join(pm, " "))
			p.types = append(p.types, t)
		}
		_ = used
		nf := 1 + r.Intn(3)
		pmFile := r.Intn(nf)
		for f := 0; f < nf; f++ {
			var b strings.Builder
			if f == pmFile {
				for _, m := range pm {
					if chance(r, 50) {
						fmt.Fprintf(&b, "// %s\n\n", m)
					} else {
						fmt.Fprintf(&b, "// %s\n", m)
					}
				}
			}
			fmt.Fprintf(&b, "package p%d\n\n", j)
			fmt.Fprintf(&b, "import (\n\tmetav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\t\"k8s.io/apimachinery/pkg/runtime\"\n\t\"k8s.io/apimachinery/pkg/runtime/schema\"\n)\n\nvar _ = metav1.TypeMeta{}\nvar _ runtime.Object\nvar _ schema.ObjectKind\n\n")
			for k, t := range p.types {
				if k%nf == f {
					b.WriteString(t.decl + "\n")
				}
			}
			writeFile(filepath.Join(dir, p.dir, fmt.Sprintf("f%d.go", f)), b.String())
		}
		pkgs = append(pkgs, p)
	}
	res := c.Gen(dir, "object", "paths=./...")
	if res.TimedOut || res.Panicked() {
		return
	}
	if res.Code != 0 || strings.TrimSpace(res.Stderr) != "" {
		c.Violate("refused", fmt.Sprintf("object refused valid packages (exit %d):\n%s", res.Code, clip(res.Stderr, 3000)), nil, dir)
		return
	}
	for _, p := range pkgs {
		got, err := methodsOf(filepath.Join(dir, p.dir, "zz_generated.deepcopy.go"))
		if err != nil {
			c.Violate("syntax", "generated file does not parse: "+err.Error(), nil, dir)
			return
		}
		want := map[string]bool{}
		for _, t := range p.types {
			for m := range t.want {
				want[t.name+"."+m] = true
			}
		}
		if len(want) == 0 {
			c.Count("files_absent", 1)
			if got != nil {
				c.Violate("file", fmt.Sprintf("package %s has no enabled type but got a file", p.dir), nil, dir)
				return
			}
		}
		for _, t := range p.types {
			c.Eval(t.kind + strings.Join(t.markers, ","))
			c.See("distinct_combos", t.kind+strings.Join(t.markers, ","))
			for _, m := range []string{"DeepCopy", "DeepCopyInto", "DeepCopyObject"} {
				if got[t.name+"."+m] != b2i(t.want[m]) {
					c.Violate("methods", fmt.Sprintf("package %s, type %s: %s generated %d times, expected %v\n%s", p.dir, t.name, m, got[t.name+"."+m], t.want[m], t.decl), nil, dir)
					return
				}
				c.Count("methods", int64(got[t.name+"."+m]))
			}
		}
		var extra []string
		for g := range got {
			if !want[g] {
				extra = append(extra, g)
			}
		}
		sort.Strings(extra)
		if len(extra) > 0 {
			c.Violate("methods", fmt.Sprintf("package %s: unexpected functions in the generated file: %v", p.dir, extra), nil, dir)
			return
		}
	}
	if out := runCmd(dir, nil, toolTimeout, "go", "build", "./..."); out.Code != 0 {
		c.Violate("compile", "packages do not compile with the generated methods:\n"+clip(out.Stderr, 3000), nil, dir)
		return
	}
	// the generated files are no input to the next run
	before := snapshot(dir)
	res = c.Gen(dir, "object", "paths=./...")
	if d := diffSnap(before, snapshot(dir)); res.Code != 0 || d != "" {
		c.Violate("again", fmt.Sprintf("a second run over the result differs (exit %d):\n%s%s", res.Code, clip(res.Stderr, 1000), clip(d, 2000)), nil, dir)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// methodsOf counts declarations in a Go file ("recv.name" or "name"); nil if there is no file.
func methodsOf(path string) (map[string]int, error) {
	if readFile(path) == "" {
		return nil, nil
	}
	f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
	if err != nil {
		return nil, err
	}
	out := map[string]int{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			n := d.Name.Name
			if d.Recv != nil {
				t := d.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				n = fmt.Sprint(t) + "." + n
			}
			out[n]++
		case *ast.GenDecl:
			if d.Tok != token.IMPORT {
				out[d.Tok.String()]++
			}
		}
	}
	return out, nil
}

func c12GenType(r *rand.Rand, k int, all bool, pkgMarkers string) c12Type {
	t := c12Type{name: fmt.Sprintf("T%d", k), want: map[string]bool{}}
	exported := true
	if chance(r, 12) {
		t.name, exported = fmt.Sprintf("t%d", k), false
	}
	t.kind = pick(r, "struct", "struct", "struct", "slice", "map", "basic", "ptr", "alias", "aliasbasic", "empty", "derived")
	var body string
	switch t.kind {
	case "struct":
		body = fmt.Sprintf("type %s struct {\n\tmetav1.TypeMeta\n\tA []int\n}\n", t.name)
	case "empty":
		body = fmt.Sprintf("type %s struct {\n\tmetav1.TypeMeta\n}\n", t.name)
	case "slice":
		body = fmt.Sprintf("type %s []string\n\nfunc (%s) GetObjectKind() schema.ObjectKind { return nil }\n", t.name, t.name)
	case "map":
		body = fmt.Sprintf("type %s map[string]int\n\nfunc (%s) GetObjectKind() schema.ObjectKind { return nil }\n", t.name, t.name)
	case "basic":
		body = fmt.Sprintf("type %s int\n", t.name)
	case "ptr":
		body = fmt.Sprintf("type %s *int\n", t.name)
	case "alias":
		body = fmt.Sprintf("type %s = metav1.TypeMeta\n", t.name)
	case "aliasbasic":
		body = fmt.Sprintf("type %s = []int\n", t.name)
	case "derived":
		body = fmt.Sprintf("type %s metav1.ListMeta\n\nfunc (*%s) GetObjectKind() schema.ObjectKind { return nil }\n", t.name, t.name)
	}
	// markers
	m := func(s string) { t.markers = append(t.markers, s) }
	var cur, leg, root *bool
	tr, fa := true, false
	if chance(r, 45) {
		if chance(r, 50) {
			cur = &tr
		} else {
			cur = &fa
		}
		m(fmt.Sprintf("+kubebuilder:object:generate=%v", *cur))
	}
	if chance(r, 25) {
		v := pick(r, "true", "false", "maybe")
		if v == "true" {
			leg = &tr
		} else {
			leg = &fa
		}
		m("+k8s:deepcopy-gen=" + v)
	}
	if chance(r, 40) {
		if chance(r, 75) {
			root = &tr
		} else {
			root = &fa
		}
		v := fmt.Sprintf("=%v", *root)
		m("+kubebuilder:object:root" + v)
	}
	isRoot := root != nil && *root
	if chance(r, 25) {
		v := pick(r, "k8s.io/apimachinery/pkg/runtime.Object", "k8s.io/apimachinery/pkg/runtime.Object", "other.io/x.Object")
		m("+k8s:deepcopy-gen:interfaces=" + v)
		if root == nil && strings.HasPrefix(v, "k8s.io") {
			isRoot = true
		}
		if chance(r, 30) {
			m("+k8s:deepcopy-gen:interfaces=k8s.io/apimachinery/pkg/runtime.Object")
			if root == nil {
				isRoot = true
			}
		}
	}
	if chance(r, 15) { // other tools' markers, and misspelt ones
		m(pick(r, "+k8s:deepcopy-gen:nonpointer-interfaces=true", "+k8s:deepcopy-gen:nonpointer-interfaces=false", "+kubebuilder:object:generated=true", "+kubebuilder:object:generate:x=true", "+kubebuilder:object:root:x=true"))
	}
	enabled := all || isRoot
	if leg != nil {
		enabled = *leg
	}
	if cur != nil {
		enabled = *cur
	}
	// hand-written methods
	var manual []string
	switch t.kind {
	case "struct", "empty":
		for _, h := range subset(r, 15, "DeepCopy", "DeepCopyInto", "DeepCopyObject", "DeepCopyVal") {
			switch h {
			case "DeepCopy":
				body += fmt.Sprintf("\nfunc (in *%[1]s) DeepCopy() *%[1]s {\n\tif in == nil {\n\t\treturn nil\n\t}\n\treturn &%[1]s{}\n}\n", t.name)
			case "DeepCopyVal":
				if len(manual) > 0 && manual[0] == "DeepCopy" {
					continue
				}
				h = "DeepCopy"
				body += fmt.Sprintf("\nfunc (in %[1]s) DeepCopy() %[1]s { return %[1]s{} }\n", t.name)
			case "DeepCopyInto":
				body += fmt.Sprintf("\nfunc (in *%[1]s) DeepCopyInto(out *%[1]s) { *out = *in }\n", t.name)
			case "DeepCopyObject":
				body += fmt.Sprintf("\nfunc (in *%[1]s) DeepCopyObject() runtime.Object { return nil }\n", t.name)
			}
			manual = append(manual, h)
		}
	case "slice", "map":
		if chance(r, 15) {
			manual = append(manual, "DeepCopy")
			body += fmt.Sprintf("\nfunc (in %[1]s) DeepCopy() %[1]s { return %[1]s{} }\n", t.name)
		}
	case "basic":
		if chance(r, 35) {
			manual = append(manual, "DeepCopyInto")
			body += fmt.Sprintf("\nfunc (in *%[1]s) DeepCopyInto(out *%[1]s) { *out = *in }\n", t.name)
			body += fmt.Sprintf("\nfunc (*%[1]s) GetObjectKind() schema.ObjectKind { return nil }\n", t.name)
		}
	}
	copyable := exported
	switch t.kind {
	case "ptr", "alias", "aliasbasic":
		copyable = false
	case "basic":
		copyable = copyable && len(manual) > 0
	}
	if enabled && copyable {
		t.want["DeepCopy"], t.want["DeepCopyInto"] = true, true
		if isRoot {
			t.want["DeepCopyObject"] = true
		}
		for _, h := range manual {
			delete(t.want, h)
		}
	}
	r.Shuffle(len(t.markers), func(a, b int) { t.markers[a], t.markers[b] = t.markers[b], t.markers[a] })
	var doc strings.Builder
	split := -1
	if len(t.markers) > 0 && chance(r, 40) {
		split = r.Intn(len(t.markers) + 1)
	}
	grouped := chance(r, 15) && !strings.Contains(body, "\nfunc") && split < 0
	ind := ""
	if grouped {
		ind = "\t"
	}
	for x, mk := range t.markers {
		if x == split {
			doc.WriteString("\n")
		}
		fmt.Fprintf(&doc, "%s// %s\n", ind, mk)
		if chance(r, 30) {
			fmt.Fprintf(&doc, "%s// %s is a thing.\n", ind, t.name)
		}
	}
	if split == len(t.markers) && split > 0 {
		doc.WriteString("\n")
	}
	if grouped {
		body = strings.TrimPrefix(strings.TrimSuffix(body, "\n"), "type ")
		body = "type (\n" + doc.String() + "\t" + strings.ReplaceAll(body, "\n", "\n\t") + "\n)\n"
		t.decl = body
	} else {
		t.decl = doc.String() + body
	}
	t.markers = append(t.markers, "pkg:"+pkgMarkers, "manual:"+strings.Join(manual, ","))
	return t
}
