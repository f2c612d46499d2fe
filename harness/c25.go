package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// C25: artifacts depend on declarations and options, not on layout and surroundings.

func init() { register("C25", checkC25) }

// laySrc is one source file, taken apart.
type laySrc struct {
	path    string
	head    string            // up to the package clause, inclusive
	imports map[string]string // local name (or "" with a path) -> path
	named   map[string]bool   // imports that have a written name
	units   []string          // declarations with everything in front of them
	tail    string
}

// lineEnd gives the offset behind the line that pos is in.
func lineEnd(s string, off int) int {
	if i := strings.IndexByte(s[off:], '\n'); i >= 0 {
		return off + i + 1
	}
	return len(s)
}

func layParse(path string) (*laySrc, error) {
	src := readFile(path)
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	l := &laySrc{path: path, imports: map[string]string{}, named: map[string]bool{}}
	end := lineEnd(src, off(f.Name.End()))
	l.head = src[:end]
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
			l.named[n] = true
		}
		l.imports[n] = p
	}
	glue := ""
	for _, d := range f.Decls {
		e := lineEnd(src, off(d.End()))
		if e < end { // on the line of the declaration before
			continue
		}
		g, _ := d.(*ast.GenDecl)
		if g != nil && g.Tok == token.IMPORT {
			end = e
			continue
		}
		chunk := glue + src[end:e]
		end = e
		if g == nil || g.Tok != token.TYPE {
			glue = chunk // free comments above what follows stay where they are
			continue
		}
		glue = ""
		l.units = append(l.units, chunk)
	}
	l.tail = glue + src[end:]
	return l, nil
}

func (l *laySrc) String() string {
	body := strings.Join(l.units, "\n") + "\n" + l.tail
	var b strings.Builder
	b.WriteString(l.head + "\n")
	// imports that the declarations use
	f, err := parser.ParseFile(token.NewFileSet(), "", "package x\n"+body, 0)
	used := map[string]bool{}
	if err == nil {
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok {
					used[x.Name] = true
				}
			}
			return true
		})
	}
	for _, n := range sortedKeys(l.imports) {
		if !used[n] && n != "_" {
			continue
		}
		if l.named[n] {
			fmt.Fprintf(&b, "import %s %q\n", n, l.imports[n])
		} else {
			fmt.Fprintf(&b, "import %q\n", l.imports[n])
		}
	}
	return b.String() + "\n" + body
}

// layout changes the sources of a project without changing what they declare.
type layout struct {
	r    *rand.Rand
	dir  string
	pkgs [][]string // files by package
	did  []string
	ac   bool
}

func (y *layout) load() {
	byDir := map[string][]string{}
	_ = filepath.Walk(y.dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			byDir[filepath.Dir(p)] = append(byDir[filepath.Dir(p)], p)
		}
		return nil
	})
	for _, d := range sortedKeys(byDir) {
		y.pkgs = append(y.pkgs, byDir[d])
	}
}

var layNames = []string{"a", "aa", "b_types", "doc", "m", "register", "types", "x1", "y_two", "zz", "zzz_last", "Upper", "k-dash", "d.ot", "groupversion_info", "zz_generated.types", "zz_generated_kinds", "generated.pb", "conversion", "defaults", "doc.gen"}

// move distributes the declarations of each package over files anew.
func (y *layout) move() {
	r := y.r
	for pi, files := range y.pkgs {
		var src []*laySrc
		ok := true
		imports, named := map[string]string{}, map[string]bool{}
		for _, f := range files {
			l, err := layParse(f)
			if err != nil {
				return
			}
			for n, p := range l.imports {
				if q, have := imports[n]; have && (q != p || named[n] != l.named[n]) {
					ok = false
				}
				imports[n], named[n] = p, l.named[n]
			}
			src = append(src, l)
		}
		if !ok {
			for _, l := range src { // within files only
				r.Shuffle(len(l.units), func(a, b int) { l.units[a], l.units[b] = l.units[b], l.units[a] })
				writeFile(l.path, l.String())
			}
			continue
		}
		var units []string
		for _, l := range src {
			units = append(units, l.units...)
			l.units = nil
		}
		r.Shuffle(len(units), func(a, b int) { units[a], units[b] = units[b], units[a] })
		if chance(r, 70) { // further files
			for i := r.Intn(3); i > 0; i-- {
				src = append(src, &laySrc{head: "package " + strings.Fields(src[0].head[strings.LastIndex(src[0].head, "package "):])[1] + "\n"})
			}
		}
		for _, u := range units {
			l := src[r.Intn(len(src))]
			l.units = append(l.units, u)
		}
		r.Shuffle(len(src), func(a, b int) { src[a], src[b] = src[b], src[a] })
		for _, f := range files {
			_ = os.Remove(f)
		}
		names := append([]string{}, layNames...)
		if y.ac { // a listed finding of C20: the API group is looked for in doc.go only
			for i := range names {
				if names[i] == "doc" {
					names[i] = "dox"
				}
			}
		}
		r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
		var out []string
		for i, l := range src {
			l.imports, l.named = imports, named
			l.path = filepath.Join(filepath.Dir(files[0]), names[i]+".go")
			writeFile(l.path, l.String())
			out = append(out, l.path)
		}
		sort.Strings(out)
		y.pkgs[pi] = out
	}
	y.did = append(y.did, "move")
}

// alias gives imports other names.
func (y *layout) alias() {
	for _, files := range y.pkgs {
		for _, file := range files {
			src := readFile(file)
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
			if err != nil {
				return
			}
			type edit struct {
				off, n int
				s      string
			}
			var es []edit
			nums := y.r.Perm(len(f.Imports))
			for i, im := range f.Imports {
				i = nums[i]
				p, _ := strconv.Unquote(im.Path.Value)
				if strings.ContainsAny(p, ".") == false || chance(y.r, 30) {
					continue
				}
				old := filepath.Base(p)
				if im.Name != nil {
					old = im.Name.Name
				}
				if old == "_" || old == "." {
					continue
				}
				// (not always a different one)
				neu := pick(y.r, fmt.Sprintf("%s%d", pick(y.r, "imp", "q", "metax", "corex"), i), fmt.Sprintf("y%d", i))
				if im.Name != nil {
					es = append(es, edit{fs.Position(im.Name.Pos()).Offset, len(old), neu})
				} else {
					es = append(es, edit{fs.Position(im.Path.Pos()).Offset, 0, neu + " "})
				}
				ast.Inspect(f, func(n ast.Node) bool {
					if s, ok := n.(*ast.SelectorExpr); ok {
						if x, ok := s.X.(*ast.Ident); ok && x.Name == old && x.Obj == nil {
							es = append(es, edit{fs.Position(x.Pos()).Offset, len(old), neu})
						}
					}
					return true
				})
			}
			sort.Slice(es, func(a, b int) bool { return es[a].off > es[b].off })
			for _, e := range es {
				src = src[:e.off] + e.s + src[e.off+e.n:]
			}
			writeFile(file, src)
		}
	}
	y.did = append(y.did, "alias")
}

// crlf ends lines the other way.
func (y *layout) crlf() {
	for _, files := range y.pkgs {
		for _, f := range files {
			if chance(y.r, 70) {
				s := readFile(f)
				if !strings.Contains(s, "\r") {
					writeFile(f, strings.ReplaceAll(s, "\n", "\r\n"))
				}
			}
		}
	}
	y.did = append(y.did, "crlf")
}

// bom marks files as UTF-8.
func (y *layout) bom() {
	for _, files := range y.pkgs {
		for _, f := range files {
			if s := readFile(f); chance(y.r, 50) && !strings.HasPrefix(s, "\ufeff") {
				writeFile(f, "\ufeff"+s)
			}
		}
	}
	y.did = append(y.did, "bom")
}

const layMarks = "// +kubebuilder:object:root=true\n// +kubebuilder:resource:path=strays,scope=Cluster\n// +kubebuilder:validation:MaxLength=1\n// +kubebuilder:storageversion\n// +genclient\n"

// extra adds what does not count.
func (y *layout) extra() {
	for i, files := range y.pkgs {
		if chance(y.r, 30) {
			continue
		}
		d := filepath.Dir(files[0])
		l, err := layParse(files[0])
		if err != nil {
			return
		}
		name := strings.Fields(l.head[strings.LastIndex(l.head, "package "):])[1]
		for _, what := range subset(y.r, 50, "plain", "test", "xtest", "tag", "os", "text") {
			switch what {
			case "plain":
				writeFile(filepath.Join(d, pick(y.r, "aaa_", "mmm_", "zzzz_")+"plain.go"), fmt.Sprintf("package %s\n\nconst stray%d = 1\n\nvar strays%d = map[string]int{}\n\n// +kubebuilder:validation:MaxLength=1\ntype strayed%d struct {\n\t// A is a stray.\n\t// +kubebuilder:default=x\n\tA string `json:\"a\"`\n\tn *strayed%d\n}\n\nfunc strayFn%d() *strayed%d {\n\t// +kubebuilder:object:root=true\n\ttype Inner struct {\n\t\t// +optional\n\t\tA string\n\t}\n\t_ = Inner{}\n\treturn &strayed%d{n: nil}\n}\n", name, i, i, i, i, i, i, i))
			case "test":
				writeFile(filepath.Join(d, "types_test.go"), fmt.Sprintf("package %s\n\n// +groupName=stray.example.test\n\n%stype StrayTest%d struct {\n\tA func() `json:\"a\"`\n}\n", name, layMarks, i))
			case "xtest":
				writeFile(filepath.Join(d, "x_test.go"), fmt.Sprintf("// +kubebuilder:object:generate=false\n// +kubebuilder:skip\npackage %s_test\n\n%stype StrayX%d struct {\n\tA func() `json:\"a\"`\n}\n", name, layMarks, i))
			case "tag":
				writeFile(filepath.Join(d, "tagged.go"), fmt.Sprintf("//go:build ignore || stray\n\n// +groupName=stray.example.test\n// +kubebuilder:validation:Optional\npackage %s\n\n%stype StrayTag struct {\n\tA chan int `json:\"a\"`\n}\n", pick(y.r, name, "main"), layMarks))
			case "os":
				writeFile(filepath.Join(d, "types_plan9.go"), fmt.Sprintf("// +kubebuilder:object:generate=false\npackage %s\n\n%stype StrayOS struct {\n\tA chan int `json:\"a\"`\n}\n", name, layMarks))
			case "text":
				writeFile(filepath.Join(d, "types.go.txt"), "package nothing\n\n"+layMarks+"type T struct{}\n")
				writeFile(filepath.Join(d, "_off.go"), "package off\n\n"+layMarks+"type T struct{}\n")
				writeFile(filepath.Join(d, ".hidden.go"), "package hidden\n\n"+layMarks+"type T struct{}\n")
				writeFile(filepath.Join(d, "testdata/v1/t.go"), "package v1\n\n// +groupName=stray.example.test\n\n"+layMarks+"type T struct{}\n")
			}
		}
	}
	y.did = append(y.did, "extra")
}

// other adds packages that nobody asked for.
func (y *layout) other(mod string) {
	for i, d := range []string{"unasked/v1", "api/unasked/v1", "lib/unasked"} {
		writeFile(filepath.Join(y.dir, d, "t.go"), fmt.Sprintf("// +groupName=g%d.unasked.test\n// +kubebuilder:object:generate=true\n// +kubebuilder:ac:generate=true\npackage v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n// +kubebuilder:rbac:groups=unasked,resources=x,verbs=get\n\n// +kubebuilder:object:root=true\n// +genclient\ntype Unasked struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n}\n", i))
	}
	writeFile(filepath.Join(y.dir, "unasked/broken/b.go"), "package broken\n\nfunc {\n")
	y.did = append(y.did, "other")
}

// blanks adds empty lines between declarations, and comments that are none of markers or documentation.
func (y *layout) blanks() {
	for _, files := range y.pkgs {
		for _, f := range files {
			l, err := layParse(f)
			if err != nil {
				return
			}
			for i := range l.units {
				l.units[i] = strings.TrimRight(l.units[i], "\n") + strings.Repeat("\n", 1+y.r.Intn(4))
			}
			writeFile(f, strings.TrimRight(l.String(), "\n")+strings.Repeat("\n", 1+y.r.Intn(3)))
		}
	}
	y.did = append(y.did, "blanks")
}

var layPlain = regexp.MustCompile(`^\s*((?://[^\n]*\n)*)type ([A-Za-z]\w* [^(](?s:.*))$`)

// group puts declarations in parentheses.
func (y *layout) group() {
	for _, files := range y.pkgs {
		for _, f := range files {
			l, err := layParse(f)
			if err != nil {
				return
			}
			for i, u := range l.units {
				m := layPlain.FindStringSubmatch(u)
				if m == nil || strings.Contains(u, "\nfunc ") || !chance(y.r, 50) {
					continue
				}
				l.units[i] = "\ntype (\n" + strings.TrimRight(m[1]+m[2], "\n") + "\n)\n"
			}
			writeFile(f, l.String())
		}
	}
	y.did = append(y.did, "group")
}

var layField = regexp.MustCompile("(?m)^(\t[A-Z].*`)$")

// trail adds comments behind fields, which are not theirs.
func (y *layout) trail() {
	for _, files := range y.pkgs {
		for _, f := range files {
			writeFile(f, layField.ReplaceAllStringFunc(readFile(f), func(l string) string {
				if chance(y.r, 60) {
					return l
				}
				return l + pick(y.r, " // +optional", " // trailing", " //+kubebuilder:validation:MaxLength=1", " /* +nullable */", "\n\n\t// +kubebuilder:default=\"stray\"\n\n\t/* stray */\n")
			}))
		}
	}
	y.did = append(y.did, "trail")
}

// layRun is how the tool is started.
type layRun struct {
	cwd      string
	env      []string
	patterns []string
	did      []string
}

// produced are the files that appeared, or changed, with their contents.
func produced(before, after map[string]string, strip string) map[string]string {
	out := map[string]string{}
	for k, v := range after {
		if before[k] != v && strings.HasPrefix(v, "file\n") {
			out[strings.TrimPrefix(k, strip)] = v
		}
	}
	return out
}

func checkC25(c *Ctx) {
	c.Rule("One evaluation is a run of the real tool on a random project rearranged without a change to its declarations or started from elsewhere, whose artifacts have to be byte for byte those of the plain run. Distinct by project and rearrangement.")
	c.Assume("rearrangements keep free-standing comments where they are relative to the declarations around them, and the order of fields")
	n := c.N(24, 250)
	parallel(n, 8, func(i int) { c25Case(c, i) })
	parallel(c.N(8, 60), 4, func(i int) { c25Imports(c, i) })
	c.Min("import_pairs", 8)
	c.Min("evaluations", 60)
	c.Min("files_compared", 300)
	c.Min("rearrangements", 12)
}

// c25Imports: the names of imports are those of a file, so it makes no difference whether
// each package is imported under a name of its own or all have the same name, in a file each.
func c25Imports(c *Ctx, i int) {
	r := c.Rng("imports", i)
	root := c.CaseDir("imports")
	nl := 2 + r.Intn(3)
	type decl struct {
		name, body, imp string
		meta            bool
	}
	var decls []decl
	libs := map[string]string{}
	nt := 0
	for l := 0; l < nl; l++ {
		libs[fmt.Sprintf("libs/d%d/lib/l.go", l)] = fmt.Sprintf("package lib\n\n// T is type %d.\ntype T struct {\n\tX%d string `json:\"x%d\"`\n\t// +kubebuilder:validation:Minimum=%d\n\tN int32 `json:\"n\"`\n}\n\n// +kubebuilder:validation:MaxLength=%d\ntype S string\n", l, l, l, l, 10+l)
		for k := 1 + r.Intn(2); k > 0; k-- {
			nt++
			d := decl{name: fmt.Sprintf("Part%d", nt), imp: fmt.Sprintf("d%d/lib", l)}
			d.body = fmt.Sprintf("// Part%d is a part.\ntype Part%d struct {\n\tA %s `json:\"a\"`\n\tB %s `json:\"b,omitempty\"`\n}\n", nt, nt,
				pick(r, "@.T", "[]@.T", "*@.T", "map[string]@.T"), pick(r, "@.S", "[]@.S", "*@.S", "[]@.T"))
			decls = append(decls, d)
		}
	}
	kind := decl{name: "Foo", meta: true, body: "// Foo is a kind.\n// +kubebuilder:object:root=true\ntype Foo struct {\n\tmetav1.TypeMeta   `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n"}
	for k := 1; k <= nt; k++ {
		kind.body += fmt.Sprintf("\tP%d Part%d `json:\"p%d\"`\n", k, k, k)
	}
	if chance(r, 50) { // the kind uses one of them itself
		kind.imp = fmt.Sprintf("d%d/lib", r.Intn(nl))
		kind.body += "\tOwn @.T `json:\"own\"`\n"
	}
	kind.body += "}\n"
	decls = append(decls, kind)
	const mod = "example.test/imports"
	build := func(name string, split bool) string {
		dir := filepath.Join(root, name)
		newModule(dir, mod)
		for f, src := range libs {
			writeFile(filepath.Join(dir, f), src)
		}
		api := filepath.Join(dir, "api", "v1")
		writeFile(filepath.Join(api, "doc.go"), "// +groupName=imports.test\n// +kubebuilder:object:generate=true\npackage v1\n")
		one := map[string]bool{}
		var all string
		for j, d := range decls {
			alias, imp := "", ""
			if d.imp != "" {
				alias = strings.Replace(filepath.Dir(d.imp), "d", "lib", 1)
				if split {
					alias = pick(r, "lib", "dep")
				}
				imp = fmt.Sprintf("import %s %q\n", alias, mod+"/libs/"+d.imp)
				if alias == "lib" {
					imp = fmt.Sprintf("import %q\n", mod+"/libs/"+d.imp)
				}
			}
			body := strings.ReplaceAll(d.body, "@", alias)
			if !split {
				if imp != "" {
					one[imp] = true
				}
				all += body + "\n"
				continue
			}
			if d.meta {
				imp += "import metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n"
			}
			writeFile(filepath.Join(api, fmt.Sprintf("t%d.go", (j*7)%10*10+j)), "package v1\n\n"+imp+"\n"+body)
		}
		if !split {
			writeFile(filepath.Join(api, "types.go"), "package v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n"+strings.Join(sortedKeys(one), "")+"\n"+all)
		}
		return dir
	}
	var outs [2]map[string]string
	for k, split := range []bool{false, true} {
		dir := build([]string{"one", "split"}[k], split)
		out := filepath.Join(root, "out", fmt.Sprint(k))
		c.Count("tool_runs", 1)
		res := c.Gen(dir, "crd", "object", "paths=./api/v1", "output:dir="+out)
		if res.Code != 0 {
			c.Violate("imports-fail", fmt.Sprintf("valid packages (all in one file: %v) rejected: %s", !split, clip(res.Stderr, 1500)), nil, dir)
			return
		}
		outs[k] = snapshot(out)
	}
	c.Eval(fmt.Sprintf("imports%d", i))
	c.Count("import_pairs", 1)
	if len(outs[0]) != 2 {
		c.Violate("imports-files", fmt.Sprintf("expected a CRD and deepcopy code, got %v", sortedKeys(outs[0])), nil, root)
	}
	for _, f := range sortedKeys(outs[0]) {
		a, b := outs[0][f], outs[1][f]
		c.Count("files_compared", 1)
		if a != b {
			c.Violate("imports", fmt.Sprintf("%s depends on the names of imports:\n%s\n---- with files of their own that import packages under the same names\n%s", f, clip(a, 3000), clip(b, 3000)), nil, root)
			return
		}
	}
	if len(outs[1]) != len(outs[0]) {
		c.Violate("imports-files", fmt.Sprintf("expected %v, got %v", sortedKeys(outs[0]), sortedKeys(outs[1])), nil, root)
	}
}

func c25Case(c *Ctx, i int) {
	r := c.Rng("lay", i)
	root := c.CaseDir("lay")
	dir := filepath.Join(root, "base", "proj")
	const mod = "example.test/lay"
	var gens []string
	var pk []string
	model := i%3 == 2
	if model {
		p := c04Profile()
		if chance(r, 50) {
			p.detach = 0
		}
		g := genModel(r, mod, p)
		g.write(dir, r)
		gens = []string{"crd"}
		for _, a := range g.apis {
			pk = append(pk, strings.TrimPrefix(a.Path, mod+"/"))
		}
	} else {
		ac := i%6 == 1
		m := genFull(r, dir, mod, fullOpts{apis: 1 + r.Intn(2), kinds: 1 + r.Intn(2), fields: 3, ac: ac})
		gens = []string{"crd", "object", "rbac:roleName=r", "webhook"}
		if ac {
			gens = []string{"crd:maxDescLen=20", "object", "applyconfiguration"}
		}
		for _, p := range m.pkgs {
			pk = append(pk, p.dir)
		}
	}
	sort.Strings(pk)
	run := func(proj string, l layRun) (map[string]string, Result, []string) {
		out := filepath.Join(root, "out")
		_ = os.RemoveAll(out)
		before := treeSnap(proj)
		args := append([]string{}, gens...)
		for _, p := range l.patterns {
			args = append(args, "paths="+p)
		}
		args = append(args, "output:artifacts:config="+out)
		c.Count("tool_runs", 1)
		res := runCmd(l.cwd, l.env, toolTimeout, filepath.Join(c.Bin, "controller-gen"), args...)
		c.judgeRun(proj, res, args)
		got := produced(before, treeSnap(proj), "")
		for k, v := range treeSnap(out) {
			if strings.HasPrefix(v, "file\n") {
				got["OUT/"+k] = v
			}
		}
		return got, res, args
	}
	var more []string // input packages that declare nothing of interest
	rel := func(pre string) []string {
		var ps []string
		for _, p := range append(append([]string{}, more...), pk...) {
			ps = append(ps, pre+p)
		}
		return ps
	}
	base := filepath.Join(root, "kept")
	if err := copyTree(dir, base); err != nil {
		c.Inconclusive("%v", err)
		return
	}
	want, res, args := run(dir, layRun{cwd: dir, patterns: rel("./")})
	if res.Code != 0 || len(want) == 0 {
		c.Violate("rejected", fmt.Sprintf("%v on a valid project: exit %d, %d files\n%s", args, res.Code, len(want), clip(res.Stderr, 3000)), nil, root)
		return
	}
	for k := 0; k < 4; k++ {
		proj := filepath.Join(root, pick(r, "p", "deep/er/than before", "q-1.x/vendorx", "src/internal/v2"))
		if err := copyTree(base, proj); err != nil {
			c.Inconclusive("%v", err)
			return
		}
		more = nil
		if chance(r, 25) {
			more = append(more, pick(r, "aaa", "zzz/plain", "pkg/util"))
			y0 := filepath.Join(proj, more[0])
			writeFile(filepath.Join(y0, "t.go"), "package plain\n\nimport (\n\t\"strings\"\n\t\"time\"\n)\n\n// Conf is not part of any API.\ntype Conf struct {\n\tD time.Duration `json:\"d\"`\n\tF func() chan int\n\tB strings.Builder\n}\n")
			if chance(r, 50) {
				writeFile(filepath.Join(y0, "t.go"), "package plain\n")
			}
		}
		l := layRun{cwd: proj, patterns: rel("./")}
		if len(more) > 0 {
			l.did = append(l.did, "more")
		}
		y := &layout{r: r, dir: proj, ac: strings.Contains(strings.Join(gens, " "), "applyconfiguration")}
		y.load()
		all := []string{"move", "group", "alias", "crlf", "bom", "extra", "other", "blanks", "trail"}
		if model {
			all = []string{"move", "group", "alias", "crlf", "bom", "extra", "other"}
		}
		for _, t := range subset(r, 35, all...) {
			switch t {
			case "move":
				y.move()
			case "alias":
				y.alias()
			case "crlf":
				y.crlf()
			case "group":
				y.group()
			case "trail":
				y.trail()
			case "bom":
				y.bom()
			case "extra":
				y.extra()
			case "other":
				y.other(mod)
			case "blanks":
				y.blanks()
			}
		}
		// from where
		switch r.Intn(8) {
		case 0:
			l.did = append(l.did, "absolute")
			l.patterns = rel(proj + "/")
		case 1:
			l.did = append(l.did, "imports")
			l.patterns = rel(mod + "/")
		case 2:
			l.did = append(l.did, "below")
			l.cwd = filepath.Join(proj, pk[0])
			l.patterns = rel(strings.Repeat("../", strings.Count(pk[0], "/")+1))
		case 3:
			l.did = append(l.did, "link")
			link := filepath.Join(root, "link")
			_ = os.Remove(link)
			_ = os.Symlink(proj, link)
			l.cwd = link
			l.env = append(l.env, "PWD="+link)
		case 4:
			l.did = append(l.did, "shuffled")
			r.Shuffle(len(l.patterns), func(a, b int) { l.patterns[a], l.patterns[b] = l.patterns[b], l.patterns[a] })
			l.patterns = append(l.patterns, l.patterns[r.Intn(len(l.patterns))]+"/")
		case 6:
			if y.ac || len(more) > 0 || strings.Contains(strings.Join(y.did, " "), "extra") {
				break
			}
			l.did = append(l.did, "files")
			l.patterns = nil
			for _, p := range pk {
				fs, _ := filepath.Glob(filepath.Join(proj, p, "*.go"))
				for _, f := range fs {
					l.patterns = append(l.patterns, "./"+p+"/"+filepath.Base(f))
				}
			}
			r.Shuffle(len(l.patterns), func(a, b int) { l.patterns[a], l.patterns[b] = l.patterns[b], l.patterns[a] })
		case 5:
			l.did = append(l.did, "outside")
			l.cwd = filepath.Dir(proj)
			l.patterns = rel("./" + filepath.Base(proj) + "/")
			if strings.Contains(strings.Join(gens, " "), "applyconfiguration") { // listed as a finding of C20
				l.cwd, l.patterns = proj, rel("./")
			}
		}
		// in what environment
		for _, e := range subset(r, 22, "mod", "work", "vendor", "arch", "locale", "procs", "tags") {
			switch e {
			case "mod":
				if !strings.Contains(strings.Join(l.did, " "), "vendor") {
					l.env = append(l.env, "GOFLAGS=-mod=mod")
				}
			case "work":
				if strings.Contains(strings.Join(l.env, " "), "-mod=mod") || strings.Contains(strings.Join(l.did, " "), "link") { // go itself minds
					continue
				}
				v := "1.24.0"
				for _, ln := range strings.Split(readFile(filepath.Join(proj, "go.mod")), "\n") {
					if strings.HasPrefix(ln, "go ") {
						v = strings.TrimSpace(ln[3:])
					}
				}
				if strings.Contains(proj, " ") {
					continue
				}
				writeFile(filepath.Join(root, "ws", "go.work"), "go "+v+"\n\nuse "+proj+"\nuse ./other\n")
				writeFile(filepath.Join(root, "ws", "other", "go.mod"), "module example.test/other\n\ngo "+v+"\n")
				writeFile(filepath.Join(root, "ws", "other", "o.go"), "package other\n")
				l.env = append(l.env, "GOWORK="+filepath.Join(root, "ws", "go.work"))
			case "vendor":
				if strings.Contains(strings.Join(l.env, " "), "GOWORK") || strings.Contains(strings.Join(l.env, " "), "-mod=mod") || strings.Contains(strings.Join(y.did, " "), "other") {
					continue
				}
				if out := runCmd(proj, nil, toolTimeout, "go", "mod", "vendor"); out.Code != 0 {
					c.Count("no_vendor", 1)
					_ = os.RemoveAll(filepath.Join(proj, "vendor"))
					continue
				}
			case "arch":
				l.env = append(l.env, "GOOS="+pick(r, "windows", "darwin", "linux"), "GOARCH="+pick(r, "amd64", "arm64"))
			case "locale":
				l.env = append(l.env, "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "TZ=Pacific/Kiritimati")
			case "procs":
				l.env = append(l.env, "GOMAXPROCS=1", "GOGC=20")
			case "tags":
				l.env = append(l.env, "CGO_ENABLED=0")
			}
			l.did = append(l.did, e)
		}
		did := append(append([]string{}, y.did...), l.did...)
		got, res, args := run(proj, l)
		c.Eval(fmt.Sprint(i, k, did))
		for _, d := range did {
			c.See("rearrangements", d)
		}
		what := fmt.Sprintf("in %s (env %v, changes: %v): controller-gen %s", l.cwd, l.env, did, strings.Join(args, " "))
		if res.Code != 0 {
			if out := runCmd(proj, nil, toolTimeout, "go", "vet", "-copylocks=false", "./"+pk[0]); out.Code != 0 && !strings.Contains(out.Stderr, "zz_generated") && strings.Contains(strings.Join(y.did, " "), "move") {
				c.Inconclusive("rearranged project does not compile: %s", clip(out.Stderr, 1500))
			}
			c.Violate("refused", what+"\nfails where the plain project passes:\n"+clip(res.Stderr, 3000), nil, root)
			return
		}
		if strings.TrimSpace(res.Stderr) != "" {
			c.Violate("diagnostics", what+"\ncomplains:\n"+clip(res.Stderr, 3000), nil, root)
			return
		}
		var bad []string
		for _, f := range sortedKeys(want) {
			g, ok := got[f]
			switch {
			case !ok:
				bad = append(bad, f+" is not written")
			case g != want[f]:
				bad = append(bad, f+" differs:\n"+clip(lineDiff(want[f], g), 1500))
			default:
				c.Count("files_compared", 1)
			}
		}
		for _, f := range sortedKeys(got) {
			if _, ok := want[f]; !ok {
				bad = append(bad, f+" is written, too")
			}
		}
		if len(bad) > 0 {
			if len(bad) > 6 {
				bad = bad[:6]
			}
			c.Violate("differs", what+":\n"+strings.Join(bad, "\n"), nil, root)
			return
		}
		_ = os.RemoveAll(proj)
	}
	_ = os.RemoveAll(root)
}
