package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"sigs.k8s.io/controller-tools/pkg/loader"
)

// C18: the packages that a list of patterns loads, against a model of the directory tree.

func init() {
	register("C18", checkC18)
	subs["c18"] = c18Sub
}

// c18Files is how go list calls a package made of files that are named one by one.
const c18Files = "command-line-arguments"

// ---- the loading process ----

type c18Pkg struct {
	ID, Path, Name, Dir string
	Files               []string
	Errors              []string
	Types               string
}

type c18Res struct {
	Err     string
	Roots   []c18Pkg
	Bad     []string
	Visited int
	Shared  int // edges to packages that are roots
}

// c18Sub MODE DIR PATTERNS...: mode "cwd" loads from the working directory, "cfg" through the config.
func c18Sub(args []string) {
	var res c18Res
	var roots []*loader.Package
	var err error
	switch args[0] {
	case "cwd":
		roots, err = loader.LoadRoots(args[2:]...)
	case "cfg":
		roots, err = loader.LoadRootsWithConfig(&packages.Config{Dir: args[1]}, args[2:]...)
	case "tags":
		roots, err = loader.LoadRootsWithConfig(&packages.Config{Dir: args[1], BuildFlags: []string{"-tags=special"}}, args[2:]...)
	}
	if err != nil {
		res.Err = err.Error()
	}
	byID := map[string]*loader.Package{}
	for _, r := range roots {
		id := r.ID
		if id == c18Files { // the ID of all packages made of files that are named one by one
			id += "\n" + strings.Join(r.GoFiles, "\n")
		}
		if byID[id] != nil {
			res.Bad = append(res.Bad, "package "+id+" is returned twice")
		}
		byID[id] = r
	}
	// every route to a package that is a root leads to that root
	for _, r := range roots {
		seen := map[*loader.Package]bool{}
		var visit func(p *loader.Package, route string)
		visit = func(p *loader.Package, route string) {
			if seen[p] {
				return
			}
			seen[p] = true
			res.Visited++
			for path, i := range p.Imports() {
				if q := byID[path]; q != nil {
					res.Shared++
					if q != i {
						res.Bad = append(res.Bad, fmt.Sprintf("%s -> %s is not the root package of that path", route, path))
						continue
					}
				}
				if i.PkgPath != path && !strings.Contains(i.PkgPath, "vendor/") {
					res.Bad = append(res.Bad, fmt.Sprintf("%s imports %s and gets %s", route, path, i.PkgPath))
				}
				visit(i, route+" -> "+path)
			}
			if again := p.Imports(); len(again) != len(p.Package.Imports) {
				res.Bad = append(res.Bad, fmt.Sprintf("%s has %d imports, go/packages knows %d", route, len(again), len(p.Package.Imports)))
			}
		}
		visit(r, r.ID)
	}
	for _, r := range roots {
		p := c18Pkg{ID: r.ID, Path: r.PkgPath, Name: r.Name}
		for _, f := range r.GoFiles {
			p.Dir = filepath.Dir(f)
			p.Files = append(p.Files, filepath.Base(f))
		}
		(&loader.TypeChecker{}).Check(r)
		if len(r.Syntax) > 0 {
			p.Types = typeSummary(r)
		}
		seen := map[string]bool{}
		for _, e := range r.Errors {
			if e.Kind != packages.TypeError && !seen[e.Error()] {
				seen[e.Error()] = true
				p.Errors = append(p.Errors, e.Error())
			}
		}
		res.Roots = append(res.Roots, p)
	}
	b, _ := json.Marshal(res)
	os.Stdout.Write(b)
}

// ---- the model ----

type c18Dir struct {
	dir      string // relative, "" for the root
	mod      *c18Mod
	name     string   // of the package, "" if there's none
	files    []string // that belong to the package
	tagged   string   // a file that belongs to it only with the tag "special"
	onlyTag  bool     // nothing else in it
	testOnly bool     // only files of tests: a package without files
	broken   bool     // a file does not parse
	imports  []*c18Dir
	hidden   bool // not matched by ... from outside
}

type c18Mod struct {
	dir, path string
	needs     []*c18Mod
}

func (d *c18Dir) path() string {
	rel := strings.TrimPrefix(strings.TrimPrefix(d.dir, d.mod.dir), "/")
	if rel == "" {
		return d.mod.path
	}
	return d.mod.path + "/" + rel
}

type c18Tree struct {
	root string
	mods []*c18Mod
	dirs []*c18Dir
	work bool
}

func genTree(r *rand.Rand, root string) *c18Tree {
	t := &c18Tree{root: root}
	main := &c18Mod{path: "example.test/m"}
	t.mods = append(t.mods, main)
	names := []string{"api", "v1", "v1beta1", "pkg", "internal", "cmd", "sub", "nested", "x.y", "apis", "api2"}
	var add func(dir string, mod *c18Mod, depth int, hidden bool)
	add = func(dir string, mod *c18Mod, depth int, hidden bool) {
		d := &c18Dir{dir: dir, mod: mod, hidden: hidden}
		if depth == 0 || chance(r, 75) {
			d.name = "p" + strings.NewReplacer("/", "", ".", "", "-", "").Replace(filepath.Base("/"+dir))
			if d.name == "p" {
				d.name = "root"
			}
			for i := 0; i < 1+r.Intn(3); i++ {
				d.files = append(d.files, fmt.Sprintf("f%d.go", i))
			}
			if chance(r, 25) {
				d.tagged = "special.go"
			}
			if chance(r, 8) && depth > 0 {
				d.broken = true
			}
		}
		t.dirs = append(t.dirs, d)
		if depth >= 4 {
			return
		}
		k := r.Intn(4)
		if depth == 0 {
			k = 3 + r.Intn(3)
		}
		perm := r.Perm(len(names))
		for j := 0; j < k; j++ {
			n := names[perm[j]]
			sd := strings.TrimPrefix(dir+"/"+n, "/")
			m := mod
			if chance(r, 22) && !hidden && n != "internal" {
				m = &c18Mod{dir: sd, path: pick(r, mod.path+strings.TrimPrefix("/"+sd, "/"+mod.dir), "example.test/other"+fmt.Sprint(len(t.mods)))}
				if !strings.Contains(m.path, "/other") { // the path it would have as a directory of the module around it
					rel := strings.TrimPrefix(strings.TrimPrefix(sd, mod.dir), "/")
					m.path = mod.path + "/" + rel
				}
				if n == "v1" { // no module path may end like that
					m.path = "example.test/other" + fmt.Sprint(len(t.mods))
				}
				t.mods = append(t.mods, m)
			}
			add(sd, m, depth+1, hidden)
		}
		if chance(r, 25) && !hidden {
			n := pick(r, "testdata", "_hidden", ".dot")
			add(strings.TrimPrefix(dir+"/"+n, "/"), mod, 4, true)
		}
	}
	add("", main, 0, false)
	t.work = len(t.mods) > 1 && chance(r, 20)
	if !t.work {
		for i, m := range t.mods { // some modules require others, found through replacements
			for _, o := range t.mods[i+1:] {
				if chance(r, 45) && i == 0 {
					m.needs = append(m.needs, o)
				}
			}
		}
	}
	for i, d := range t.dirs {
		if d.name == "" {
			continue
		}
		for _, e := range t.dirs[:i] { // earlier ones only: no cycles
			if e.name == "" || e.hidden || e.broken || !chance(r, 35) || e.name == "root" {
				continue
			}
			ok := e.mod == d.mod || t.work
			for _, n := range d.mod.needs {
				ok = ok || n == e.mod
			}
			if ok && c18MayImport(d, e) {
				d.imports = append(d.imports, e)
			}
		}
		// the other direction for the main module, whose directories come first
	}
	for _, d := range t.dirs {
		if d.name == "" || d.mod != main {
			continue
		}
		for _, n := range main.needs {
			for _, e := range t.dirs {
				if e.mod == n && e.name != "" && !e.hidden && !e.broken && chance(r, 30) && c18MayImport(d, e) {
					d.imports = append(d.imports, e)
				}
			}
		}
	}
	t.write(r)
	return t
}

func c18MayImport(d, e *c18Dir) bool {
	p := e.path()
	i := strings.LastIndex(p+"/", "/internal/")
	if i >= 0 {
		if !strings.HasPrefix(d.path()+"/", p[:i]+"/") || e.mod != d.mod {
			return false
		}
	}
	return true
}

func (t *c18Tree) write(r *rand.Rand) {
	for _, m := range t.mods {
		s := "module " + m.path + "\n\ngo 1.21\n"
		for _, n := range m.needs {
			rel, _ := filepath.Rel("/"+m.dir, "/"+n.dir)
			s += fmt.Sprintf("\nrequire %s v0.0.0\nreplace %s => ./%s\n", n.path, n.path, rel)
		}
		writeFile(filepath.Join(t.root, m.dir, "go.mod"), s)
	}
	if t.work {
		s := "go 1.21\n\nuse (\n"
		for _, m := range t.mods {
			s += "\t./" + m.dir + "\n"
		}
		writeFile(filepath.Join(t.root, "go.work"), s+")\n")
	}
	for _, d := range t.dirs {
		if err := os.MkdirAll(filepath.Join(t.root, d.dir), 0o755); err != nil {
			panic(err)
		}
		if d.name == "" {
			// files that make no package
			if chance(r, 40) {
				d.testOnly = true
				writeFile(filepath.Join(t.root, d.dir, "only_test.go"), "package only\n")
			}
			if chance(r, 40) {
				writeFile(filepath.Join(t.root, d.dir, "README.go.txt"), "package no\n")
			}
			continue
		}
		p := func(f string) string { return filepath.Join(t.root, d.dir, f) }
		for i, f := range d.files {
			s := "package " + d.name + "\n\n"
			body := fmt.Sprintf("type T%d struct {\n\tA string `json:\"a\"`\n", i)
			if i == 0 {
				body = "type Main struct {\n\tA string `json:\"a\"`\n"
				for k, e := range d.imports {
					s += fmt.Sprintf("import i%d %q\n", k, e.path())
					body += fmt.Sprintf("\tI%d *i%d.Main `json:\"i%d\"`\n", k, k, k)
				}
			}
			body += "}\n"
			if d.broken && i == 0 {
				body += "type Broken struct {\n\tA string y\n}\n"
			}
			writeFile(p(f), s+body)
		}
		if d.tagged != "" {
			writeFile(p(d.tagged), "//go:build special\n\npackage "+d.name+"\n\ntype Special struct{}\n")
		}
		// files that are not part of the package
		if chance(r, 50) {
			writeFile(p("zz_generated.deepcopy.go"), "//go:build !ignore_autogenerated\n\npackage "+d.name+"\n\nfunc (in *Main) DeepCopyInto(out *Main) { undefinedGenerated() }\n")
		}
		if chance(r, 30) {
			writeFile(p("a_windows.go"), "package "+d.name+"\n\ntype Windows struct{}\n")
		}
		if chance(r, 30) {
			writeFile(p("ext_test.go"), "package "+d.name+"_test\n")
		}
		if chance(r, 20) {
			writeFile(p("tool.go"), "//go:build ignore\n\npackage main\n\nfunc main() {}\n")
		}
		if chance(r, 20) {
			writeFile(p("_x.go"), "package other\n")
		}
	}
}

func (t *c18Tree) find(dir string) *c18Dir {
	for _, d := range t.dirs {
		if d.dir == dir {
			return d
		}
	}
	return nil
}

// below is what DIR/... matches: nested modules included.
func (t *c18Tree) below(dir string) []*c18Dir {
	var out []*c18Dir
	base := t.find(dir)
	for _, d := range t.dirs {
		if d.name == "" || (dir != "" && d.dir != dir && !strings.HasPrefix(d.dir, dir+"/")) {
			continue
		}
		if d.hidden && !(base != nil && base.hidden) {
			continue
		}
		out = append(out, d)
	}
	return out
}

// pattern draws a pattern, relative to the directory wd, and what it matches. known is false if the
// pattern names nothing, so that an error has to be reported.
func (t *c18Tree) pattern(r *rand.Rand, wd string, paths bool) (string, []*c18Dir, bool) {
	rel := func(dir string) string {
		s, _ := filepath.Rel("/"+wd, "/"+dir)
		if !strings.HasPrefix(s, ".") {
			s = "./" + s
		}
		if strings.HasPrefix(filepath.Base(s), ".") && s != "." && s != ".." && !strings.HasPrefix(s, "./") && !strings.HasPrefix(s, "../") {
			s = "./" + s
		}
		return s
	}
	d := t.dirs[r.Intn(len(t.dirs))]
	for k := 0; k < 5 && (d.name == "" || (d.hidden && !strings.Contains(d.dir, "testdata"))); k++ {
		d = t.dirs[r.Intn(len(t.dirs))]
	}
	if strings.Contains(d.dir, "_hidden") || strings.Contains(d.dir, ".dot") {
		d = t.dirs[0]
	}
	abs := filepath.Join(t.root, d.dir)
	switch k := r.Intn(20); {
	case k == 0:
		return rel("no/such/dir"), nil, false
	case k == 1 && paths && t.mods[0].dir == "" && wd == "":
		return "example.test/m/no/such/pkg", nil, false
	case k < 5: // everything below
		return pick(r, rel(d.dir)+"/...", abs+"/...", rel(d.dir)+"/./..."), t.below(d.dir), true
	case k < 7:
		return pick(r, rel("")+"/...", t.root+"/..."), t.below(""), true
	case k < 10 && paths && !t.work && wd == "":
		main := t.mods[0]
		if k == 7 { // everything known by an import path below the main module's
			var out []*c18Dir
			for _, e := range t.dirs {
				if e.name == "" || e.hidden {
					continue
				}
				known := e.mod == main
				for _, n := range main.needs {
					known = known || (e.mod == n && strings.HasPrefix(n.path+"/", main.path+"/"))
				}
				if known {
					out = append(out, e)
				}
			}
			return main.path + "/...", out, true
		}
		for _, e := range t.dirs {
			if e.mod == main && e.name != "" && !e.hidden && chance(r, 40) {
				return e.path(), []*c18Dir{e}, true
			}
		}
	}
	if d.name == "" {
		return rel(d.dir), nil, d.testOnly
	}
	return pick(r, rel(d.dir), rel(d.dir), rel(d.dir)+"/", abs, rel(d.dir)+"/."), []*c18Dir{d}, true
}

func checkC18(c *Ctx) {
	c.Rule("A case is one load of a list of patterns in a random tree of modules (nested, replaced, workspaces, directories that match nothing, files excluded from the build). The returned packages, their files, errors and types, and the identity of every package reachable by imports are compared with the model of the tree. Distinct cases differ in tree and patterns.")
	c.Assume("go list is right about which directories are packages; nested modules below testdata and hidden directories are not generated")
	c.Min("loads", 80)
	c.Min("roots", 400)
	c.Min("shared_edges", 100)
	c.Min("not_found", 10)
	c.Min("file_roots", 20)
	self, _ := os.Executable()
	n := c.N(140, 1500)
	parallel(n, 8, func(i int) {
		r := c.Rng("tree", i)
		root := c.CaseDir("c18")
		t := genTree(r, root)
		typesBy := map[string]string{}
		for k := 0; k < 5; k++ {
			wd := ""
			if chance(r, 25) && !t.work {
				if d := t.dirs[r.Intn(len(t.dirs))]; !d.hidden {
					wd = d.dir
				}
			}
			var pats []string
			want := map[string]*c18Dir{}
			missing := ""
			wantFiles := map[string]map[string]bool{} // files that are named one by one, by directory
			for chance(r, 12*(1+len(wantFiles))) && len(pats) < 6 {
				d := t.dirs[r.Intn(len(t.dirs))]
				if d.name == "" || d.hidden {
					continue
				}
				f := d.files[r.Intn(len(d.files))]
				if chance(r, 5) {
					missing = "no_such_file.go"
					f = missing
				} else {
					if wantFiles[d.dir] == nil {
						wantFiles[d.dir] = map[string]bool{}
					}
					wantFiles[d.dir][f] = true
				}
				rel, _ := filepath.Rel("/"+wd, "/"+d.dir)
				if !strings.HasPrefix(rel, "..") {
					rel = "./" + rel
				}
				pats = append(pats, pick(r, filepath.Join(root, d.dir, f), rel+"/"+f))
			}
			for j := 0; j < 1+r.Intn(4) && (len(wantFiles) == 0 || j < 2); j++ {
				if len(wantFiles) > 0 && chance(r, 40) {
					continue
				}
				p, ds, ok := t.pattern(r, wd, true)
				pats = append(pats, p)
				if !ok {
					missing = p
				}
				for _, d := range ds {
					want[d.path()] = d
				}
				if chance(r, 15) {
					pats = append(pats, p)
				}
			}
			r.Shuffle(len(pats), func(a, b int) { pats[a], pats[b] = pats[b], pats[a] })
			mode := pick(r, "cwd", "cfg", "cfg", "tags")
			at := filepath.Join(root, wd)
			if mode == "cfg" && wd == "" && missing == "" && chance(r, 5) { // no patterns at all: the directory itself
				pats, want, wantFiles = nil, map[string]*c18Dir{}, nil
				if d := t.find(""); d.name != "" {
					want[d.path()] = d
				}
			}
			run := c.Scratch
			if mode == "cwd" {
				run = at
			}
			res := runCmd(run, []string{"GOWORK="}, toolTimeout, self, append([]string{"-sub", "c18", mode, at}, pats...)...)
			c.Count("loads", 1)
			what := fmt.Sprintf("loading %q (%s, from %q)", pats, mode, "/"+wd)
			var o c18Res
			if res.TimedOut {
				c.Violate("hang", what+" does not end", nil, root)
				return
			}
			if err := json.Unmarshal([]byte(res.Stdout), &o); err != nil {
				c.Violate("crash", what+": "+clip(res.Stderr, 4000), nil, root)
				return
			}
			c.Eval(fmt.Sprint(i, pats, len(o.Roots)))
			c.See("tree_features", fmt.Sprintf("mods=%d work=%v", len(t.mods), t.work))
			var bad []string
			bad = append(bad, o.Bad...)
			reported := o.Err
			got := map[string]*c18Pkg{}
			gotFiles := map[string]*c18Pkg{}
			for k := range o.Roots {
				p := &o.Roots[k]
				if p.Path == c18Files && len(p.Files) > 0 && (len(p.Errors) == 0 || missing == "") {
					gotFiles[p.Dir] = p
					continue
				}
				if len(p.Files) == 0 || want[p.Path] == nil {
					reported += strings.Join(p.Errors, "\n")
				}
				if want[p.Path] == nil && len(p.Errors) > 0 && missing != "" {
					continue // stands for what could not be found
				}
				got[p.Path] = p
			}
			if missing != "" {
				c.Count("not_found", 1)
				if reported == "" {
					bad = append(bad, fmt.Sprintf("pattern %q names nothing, which is not reported", missing))
				}
			}
			if o.Err != "" && missing == "" {
				bad = append(bad, "error: "+o.Err)
			}
			if o.Err == "" {
				for _, path := range sortedKeys(want) {
					d, p := want[path], got[path]
					if p == nil {
						bad = append(bad, "package "+path+" is missing")
						continue
					}
					c.Count("roots", 1)
					files := append([]string{}, d.files...)
					if d.tagged != "" && mode == "tags" {
						files = append(files, d.tagged)
					}
					// with tags of the caller's own, generated files are in again, unless it repeats the tag
					gf := []string{}
					for _, f := range p.Files {
						if !(mode == "tags" && f == "zz_generated.deepcopy.go") {
							gf = append(gf, f)
						}
					}
					sort.Strings(gf)
					sort.Strings(files)
					if strings.Join(gf, " ") != strings.Join(files, " ") {
						bad = append(bad, fmt.Sprintf("package %s has the files %v, want %v", path, gf, files))
					}
					if p.Dir != filepath.Join(root, d.dir) {
						bad = append(bad, fmt.Sprintf("package %s is that in %s, want %s", path, p.Dir, d.dir))
					}
					if p.Name != d.name {
						bad = append(bad, fmt.Sprintf("package %s is named %s", path, p.Name))
					}
					if d.broken && len(p.Errors) == 0 {
						bad = append(bad, "package "+path+" does not parse, which is not reported")
					}
					if !d.broken && len(p.Errors) > 0 {
						bad = append(bad, fmt.Sprintf("package %s: errors %v", path, p.Errors))
					}
					if !d.broken && mode != "tags" {
						if old, ok := typesBy[path]; ok && old != p.Types {
							bad = append(bad, fmt.Sprintf("package %s: types depend on how it is loaded:\n%s\n--- and\n%s", path, old, p.Types))
						}
						typesBy[path] = p.Types
						if !strings.Contains(p.Types, "\n  A string") {
							bad = append(bad, fmt.Sprintf("package %s: types %s", path, p.Types))
						}
						for k, e := range d.imports {
							if !strings.Contains(p.Types, fmt.Sprintf("I%d *%s.Main = struct{A string", k, e.path())) {
								bad = append(bad, fmt.Sprintf("package %s: the type of I%d is not that of package %s: %s", path, k, e.path(), p.Types))
							}
						}
					}
				}
				for _, dir := range sortedKeys(wantFiles) {
					d, p := t.find(dir), gotFiles[filepath.Join(root, dir)]
					if p == nil {
						if missing == "" {
							bad = append(bad, "the package of the files named in "+dir+" is missing")
						}
						continue
					}
					c.Count("file_roots", 1)
					sort.Strings(p.Files)
					if w := sortedKeys(wantFiles[dir]); strings.Join(w, " ") != strings.Join(p.Files, " ") {
						bad = append(bad, fmt.Sprintf("the package of the files named in %s has the files %v, want %v", dir, p.Files, w))
					}
					main := wantFiles[dir]["f0.go"]
					if broken := d.broken && main; broken != (len(p.Errors) > 0) {
						bad = append(bad, fmt.Sprintf("the package of the files named in %s: errors %v", dir, p.Errors))
					}
					for k, e := range d.imports {
						if main && !d.broken && !strings.Contains(p.Types, fmt.Sprintf("I%d *%s.Main = struct{A string", k, e.path())) {
							bad = append(bad, fmt.Sprintf("the package of the files named in %s: the type of I%d is not that of package %s: %s", dir, k, e.path(), p.Types))
						}
					}
				}
				for _, dir := range sortedKeys(gotFiles) {
					if rel, err := filepath.Rel(root, dir); err != nil || wantFiles[strings.TrimPrefix(rel, ".")] == nil && wantFiles[rel] == nil {
						bad = append(bad, "a package of files in "+dir+" was not asked for")
					}
				}
				for _, path := range sortedKeys(got) {
					if want[path] == nil {
						to := false
						for _, d := range t.dirs {
							to = to || (d.testOnly && d.path() == path && len(got[path].Files) == 0)
						}
						if to {
							continue
						}
						bad = append(bad, fmt.Sprintf("package %s (%s) was not asked for", path, got[path].ID))
					}
				}
			}
			c.Count("shared_edges", int64(o.Shared))
			c.Count("packages_visited", int64(o.Visited))
			if len(bad) > 0 {
				if len(bad) > 10 {
					bad = bad[:10]
				}
				c.Violate("load", what+":\n"+strings.Join(bad, "\n"), nil, root)
				return
			}
		}
		_ = os.RemoveAll(root)
	})
}
