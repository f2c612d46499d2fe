package main

import (
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/applyconfiguration"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"
	"sigs.k8s.io/controller-tools/pkg/webhook"
)

// C14: where the artifacts end up, and nothing else anywhere.

func init() {
	register("C14", checkC14)
	subs["artifacts"] = artifactsSub
}

// artifact is what a generator writes, before any output rule.
type artifact struct {
	Pkg, Dir string // of the package it belongs to, if it does
	Path     string
	Data     string
}

type recOut struct{ arts *[]*artifact }

type recW struct {
	a *artifact
}

func (w recW) Write(b []byte) (int, error) { w.a.Data += string(b); return len(b), nil }
func (w recW) Close() error                { return nil }

func (o recOut) Open(pkg *loader.Package, p string) (io.WriteCloser, error) {
	a := &artifact{Path: p}
	if pkg != nil {
		a.Pkg = pkg.PkgPath
		if len(pkg.GoFiles) > 0 {
			a.Dir = filepath.Dir(pkg.GoFiles[0])
		}
	}
	*o.arts = append(*o.arts, a)
	return recW{a}, nil
}

var genByName = map[string]genall.Generator{
	"crd": crd.Generator{}, "rbac": rbac.Generator{}, "object": deepcopy.Generator{}, "webhook": webhook.Generator{},
	"schemapatch": schemapatcher.Generator{}, "applyconfiguration": applyconfiguration.Generator{},
}

type artifactsRes struct {
	Arts   []*artifact
	Failed bool
	Msg    string
}

// artifactsSub OPTION PATTERNS...: runs one generator in the working directory and prints its artifacts.
func artifactsSub(args []string) {
	name, _, _ := strings.Cut(args[0], ":")
	defn := markers.Must(markers.MakeDefinition(name, markers.DescribesPackage, genByName[name]))
	v, err := defn.Parse("+" + args[0])
	var res artifactsRes
	if err == nil {
		g := v.(genall.Generator)
		var rt *genall.Runtime
		if rt, err = (genall.Generators{&g}).ForRoots(args[1:]...); err == nil {
			rt.OutputRules.Default = recOut{&res.Arts}
			res.Failed = rt.Run()
		}
	}
	if err != nil {
		res.Failed, res.Msg = true, err.Error()
	}
	b, _ := json.Marshal(res)
	os.Stdout.Write(b)
}

// artifactsOf runs a generator of the harness's own build of the packages, with an output rule that records.
func (c *Ctx) artifactsOf(dir, opt string, patterns []string) ([]*artifact, error) {
	self, _ := os.Executable()
	res := runCmd(dir, nil, toolTimeout, self, append([]string{"-sub", "artifacts", opt}, patterns...)...)
	var o artifactsRes
	if err := json.Unmarshal([]byte(res.Stdout), &o); err != nil {
		return nil, fmt.Errorf("exit %d: %s", res.Code, clip(res.Stderr, 3000))
	}
	if o.Failed {
		return nil, fmt.Errorf("%s %s", o.Msg, clip(res.Stderr, 3000))
	}
	return o.Arts, nil
}

// treeSnap is everything below a directory: files with content and mode, links, directories.
func treeSnap(root string) map[string]string {
	out := map[string]string{}
	_ = filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		switch {
		case d.IsDir():
			out[rel+"/"] = "dir"
		case !d.Type().IsRegular():
			l, _ := os.Readlink(p)
			out[rel] = "link " + l
		default:
			b, _ := os.ReadFile(p)
			out[rel] = "file\n" + string(b)
		}
		return nil
	})
	return out
}

type c14Rule struct {
	kind         string // dir, none, stdout, artifacts
	config, code string
}

func (u *c14Rule) option(gen string) string {
	s := "output:"
	if gen != "" {
		s += gen + ":"
	}
	switch u.kind {
	case "dir":
		return s + "dir=" + c14Quote(u.config)
	case "artifacts":
		s += "artifacts:config=" + c14Quote(u.config)
		if u.code != "" {
			s += ",code=" + c14Quote(u.code)
		}
		return s
	}
	return s + u.kind
}

func c14Quote(s string) string {
	if strings.ContainsAny(s, " ,;{}=\"") {
		return fmt.Sprintf("%q", s)
	}
	return s
}

func checkC14(c *Ctx) {
	c.Rule("A case is one run of the real tool with random output rules on a random project inside a scratch directory with other files, stale outputs and links. The whole scratch directory before and after, and standard output, are compared with what follows from the rules and the artifacts the generators produce, recorded in process by an output rule of the harness. Distinct cases differ in rules and project.")
	c.Assume("artifacts of one generator that share a file name are not sent to one directory")
	c.Min("runs", 60)
	c.Min("files_placed", 150)
	c.Min("code_outside", 4)
	c.Min("files_untouched", 1000)
	c.Min("stdout_bytes", 10000)
	n := c.N(80, 900)
	parallel(n, 8, func(i int) { c14Run(c, i) })
	c14Known(c)
	c14Cgo(c)
}

func c14Run(c *Ctx, i int) {
	r := c.Rng("case", i)
	root := c.CaseDir("c14")
	mkdirAll(filepath.Join(root, "tmp"))
	dir := filepath.Join(root, "proj")
	code := i%6 == 5 // code goes to a directory of its own
	ac := chance(r, 15) && !code
	m := genFull(r, dir, "example.test/mod", fullOpts{apis: 1 + r.Intn(3), kinds: 1 + r.Intn(2), fields: 3, ac: ac, noWebhooks: chance(r, 20), noRBAC: chance(r, 20)})
	// what else lies around
	writeFile(filepath.Join(root, "other", "keep.yaml"), "keep: me\n")
	writeFile(filepath.Join(dir, "config", "crd", "kustomization.yaml"), "resources: []\n")
	writeFile(filepath.Join(dir, "config", "notes.txt"), "notes\n")
	mkdirAll(filepath.Join(dir, "empty"))
	mkdirAll(filepath.Join(dir, "real"))
	_ = os.Symlink("real", filepath.Join(dir, "linked"))
	if b, err := c.artifactsOf(dir, "crd:maxDescLen=0", []string{"./..."}); err == nil {
		for k, a := range b {
			if k > 0 && chance(r, 25) {
				continue
			}
			writeFile(filepath.Join(dir, "base", "m-"+a.Path), a.Data)
		}
	} else {
		c.Violate("rejected", "crd fails on a valid project: "+err.Error(), nil, root)
		return
	}
	writeFile(filepath.Join(dir, "base", "kustomization.yaml"), "# keep\nresources: [a,   b]\n")
	writeFile(filepath.Join(dir, "base", "README.md"), "keep\n")
	var gens []string
	for _, g := range c13Gens {
		if (g == "applyconfiguration") == ac && (ac || chance(r, 55) || code && g == "object") {
			gens = append(gens, g)
		}
	}
	if len(gens) == 0 {
		gens = append(gens, pick(r, "crd", "object"))
	}
	r.Shuffle(len(gens), func(a, b int) { gens[a], gens[b] = gens[b], gens[a] })
	opt := map[string]string{}
	for _, g := range gens {
		opt[g] = c13Opt(g)
		switch g {
		case "rbac":
			opt[g] += pick(r, "", "", ",fileName=other.yaml", ",fileName=sub/dir/r.yaml")
		case "crd":
			opt[g] += pick(r, "", "", ":maxDescLen=5", ":generateEmbeddedObjectMeta=true")
		}
	}
	dirs := []string{"out", "out/deep/er", "config/crd", "./out2/", "../other", filepath.Join(root, "abs dir"), "with space", "linked", "linked/sub", "empty", "out,x;y"}
	drawDir := func() string { return dirs[r.Intn(len(dirs))] }
	drawRule := func(gen string) *c14Rule {
		switch r.Intn(6) {
		case 0:
			return &c14Rule{kind: "none"}
		case 1:
			return &c14Rule{kind: "stdout"}
		case 2, 3:
			return &c14Rule{kind: "dir", config: drawDir()}
		default:
			u := &c14Rule{kind: "artifacts", config: drawDir()}
			if chance(r, 40) || gen == "object" && chance(r, 40) {
				u.code = drawDir()
				if chance(r, 40) { // outside of the project
					u.code = pick(r, "../other", "../other/code", filepath.Join(root, "abs dir"))
				}
			}
			return u
		}
	}
	own := map[string]*c14Rule{}
	var dflt *c14Rule
	if ac {
		own[gens[0]] = nil
	} else {
		for _, g := range gens {
			if chance(r, 45) {
				own[g] = drawRule(g)
				if g == "schemapatch" && chance(r, 40) { // in place
					own[g].config = "base"
				}
			}
		}
		if chance(r, 45) {
			dflt = drawRule("")
		}
		if code {
			u := &c14Rule{kind: "artifacts", config: drawDir(), code: pick(r, "gen", "../other", "../other/code", "gen/code", filepath.Join(root, "abs dir"))}
			if delete(own, "object"); chance(r, 70) {
				own["object"] = u
			} else {
				dflt = u
			}
		}
	}
	effective := func(g string) *c14Rule {
		if u := own[g]; u != nil {
			return u
		}
		if dflt != nil {
			return dflt
		}
		return &c14Rule{kind: "artifacts", config: "config/" + g}
	}
	patterns := []string{"./..."}
	if u := effective("object"); u.kind != "none" && !(u.kind == "artifacts" && u.code == "") && !ac {
		// the code of one package only
		p := m.apis[r.Intn(len(m.apis))]
		patterns = []string{"./" + p.dir, "./controllers"}
		if chance(r, 50) && !strings.Contains(strings.Join(gens, " "), "object") {
			patterns = []string{"./..."}
		}
	}
	// artifacts, and what becomes of them
	var stdout strings.Builder
	want := map[string]string{} // absolute, after resolving links
	var wantDirs []string
	place := func(d, name, data string) bool {
		if !filepath.IsAbs(d) {
			d = filepath.Join(dir, d)
		}
		p := filepath.Join(d, name)
		p = strings.Replace(p, dir+"/linked", dir+"/real", 1)
		if _, dup := want[p]; dup {
			return false
		}
		want[p] = data
		return true
	}
	total := 0
	for _, g := range gens {
		if g == "applyconfiguration" {
			continue
		}
		arts, err := c.artifactsOf(dir, opt[g], patterns)
		if err != nil {
			c.Violate("rejected", g+" fails on a valid project: "+err.Error(), nil, root)
			return
		}
		total += len(arts)
		u := effective(g)
		for _, a := range arts {
			ok := true
			switch u.kind {
			case "none":
			case "stdout":
				stdout.WriteString(a.Data)
			case "dir":
				ok = place(u.config, a.Path, a.Data)
			default:
				switch {
				case a.Pkg == "":
					ok = place(u.config, a.Path, a.Data)
				case u.code != "":
					c.Count("code_elsewhere", 1)
					if !filepath.IsLocal(u.code) {
						c.Count("code_outside", 1)
					}
					ok = place(u.code, a.Path, a.Data)
				default:
					ok = place(a.Dir, a.Path, a.Data)
				}
			}
			if !ok { // two artifacts for one file
				c.Count("ambiguous", 1)
				_ = os.RemoveAll(root)
				return
			}
		}
	}
	for p := range want {
		wantDirs = append(wantDirs, p)
		switch {
		case chance(r, 15): // stale
			if !strings.HasPrefix(p, dir+"/base/") {
				writeFile(p, pick(r, "", "stale\n", strings.Repeat("# a stale line\n", 3000)))
				if strings.HasSuffix(p, ".go") {
					writeFile(p, "//go:build !ignore_autogenerated\n\npackage stale\n"+strings.Repeat("// a stale line\n", 3000))
				}
			}
		case chance(r, 15): // an empty directory to write to
			mkdirAll(filepath.Dir(p))
		}
	}
	var args []string
	for _, g := range gens {
		args = append(args, opt[g])
	}
	for _, g := range gens {
		if u := own[g]; u != nil {
			args = append(args, u.option(g))
		}
	}
	if dflt != nil {
		args = append(args, dflt.option(""))
	}
	for _, p := range patterns {
		args = append(args, "paths="+p)
	}
	if chance(r, 60) { // the order of the generators stays, everything else goes anywhere
		var rest []string
		rest = append(rest, args[len(gens):]...)
		head := args[:len(gens)]
		var mixed []string
		for len(head)+len(rest) > 0 {
			if len(rest) == 0 || (len(head) > 0 && chance(r, 40)) {
				mixed, head = append(mixed, head[0]), head[1:]
				continue
			}
			k := r.Intn(len(rest))
			mixed = append(mixed, rest[k])
			rest = append(append([]string{}, rest[:k]...), rest[k+1:]...)
		}
		args = mixed
	}
	before := treeSnap(root)
	c.Count("tool_runs", 1)
	c.Count("runs", 1)
	res := runCmd(dir, []string{"TMPDIR=" + filepath.Join(root, "tmp")}, toolTimeout, filepath.Join(c.Bin, "controller-gen"), args...)
	c.judgeRun(root, res, args)
	what := "controller-gen " + strings.Join(args, " ")
	c.Eval(fmt.Sprint(i, args))
	if res.Code != 0 {
		c.Violate("rejected", fmt.Sprintf("%s fails: %s", what, clip(res.Stderr, 3000)), nil, root)
		return
	}
	after := treeSnap(root)
	var bad []string
	// the expected tree
	exp := map[string]string{}
	for k, v := range before {
		exp[k] = v
	}
	for p, data := range want {
		rel, _ := filepath.Rel(root, p)
		exp[rel] = "file\n" + data
		for d := filepath.Dir(rel); d != "."; d = filepath.Dir(d) {
			exp[d+"/"] = "dir"
		}
		if after[rel] == exp[rel] {
			c.Count("files_placed", 1)
		}
	}
	keys := map[string]bool{}
	for k := range exp {
		keys[k] = true
	}
	for k := range after {
		keys[k] = true
	}
	acFiles := 0
	for _, k := range sortedKeys(keys) {
		e, g := exp[k], after[k]
		if e == g {
			c.Count("files_untouched", 1)
			continue
		}
		if ac && e == "" && g != "" {
			below := false
			for _, p := range m.apis {
				below = below || strings.HasPrefix(k, "proj/"+p.dir+"/applyconfiguration/")
			}
			if below {
				acFiles++
				continue
			}
		}
		switch {
		case g == "":
			bad = append(bad, k+" is missing")
		case e == "":
			bad = append(bad, k+" should not be there: "+clip(g, 300))
		default:
			w := "changed"
			if p := filepath.Join(root, k); want[p] != "" {
				w = "not what the generator produced"
			}
			bad = append(bad, k+" is "+w+": "+clip(lineDiff(e, g), 500))
		}
	}
	if ac && acFiles == 0 {
		bad = append(bad, "no apply configurations are written")
	}
	c.Count("stdout_bytes", int64(stdout.Len()))
	if res.Stdout != stdout.String() {
		bad = append(bad, "standard output: "+clip(lineDiff(stdout.String(), res.Stdout), 1000))
	}
	for _, g := range gens {
		c.See("rules", g+" "+effective(g).kind)
	}
	c.Count("artifacts", int64(total))
	if len(bad) > 0 {
		sort.Strings(bad)
		if len(bad) > 10 {
			bad = bad[:10]
		}
		c.Violate("output", what+":\n"+strings.Join(bad, "\n"), nil, root)
		return
	}
	_ = os.RemoveAll(root)
}

// c14Known: apply configurations under the output rules.
func c14Known(c *Ctx) {
	r := rand.New(rand.NewSource(1))
	for _, rule := range []string{"output:none", "output:dir=out", "output:applyconfiguration:stdout"} {
		dir := c.CaseDir("c14ac")
		genFull(r, dir, "example.test/mod", fullOpts{apis: 1, kinds: 1, fields: 2, ac: true})
		before := treeSnap(dir)
		res := c.Gen(dir, "applyconfiguration", "paths=./api/...", rule)
		if res.Code != 0 {
			c.Violate("rejected", "applyconfiguration fails: "+clip(res.Stderr, 2000), nil, dir)
			return
		}
		for k := range treeSnap(dir) {
			if _, ok := before[k]; !ok && !strings.HasPrefix(k, "out/") {
				c.Violate("applyconfiguration-ignores-"+rule, "controller-gen applyconfiguration "+rule+" writes "+k, nil, dir)
				break
			}
		}
	}
}

// c14Cgo: the files the compiler sees of a package that uses cgo are in the build cache; its code is not.
func c14Cgo(c *Ctx) {
	parallel(4, 4, func(i int) {
		root := c.CaseDir("c14cgo")
		dir := filepath.Join(root, "proj")
		newModule(dir, "example.test/cg")
		writeFile(filepath.Join(dir, "api/v1/b.go"), "// +kubebuilder:object:generate=true\npackage v1\n\n// int two() { return 2; }\nimport \"C\"\n\nfunc Two() int { return int(C.two()) }\n\ntype T struct{ L []string }\n")
		if i&1 > 0 {
			writeFile(filepath.Join(dir, "api/v1/z.go"), "package v1\n\n// int three() { return 3; }\nimport \"C\"\n\nfunc Three() int { return int(C.three()) }\n\ntype U struct{ M map[string]T }\n")
		}
		if i&2 > 0 {
			writeFile(filepath.Join(dir, "api/v1/plain.go"), "package v1\n\ntype P struct{ M []T }\n")
		}
		mkdirAll(filepath.Join(root, "tmp"))
		mkdirAll(filepath.Join(root, "cache"))
		c.Count("tool_runs", 1)
		env := []string{"TMPDIR=" + filepath.Join(root, "tmp"), "GOCACHE=" + filepath.Join(root, "cache"), "CGO_ENABLED=1"}
		if out := runCmd(dir, env, toolTimeout, "go", "build", "./..."); out.Code != 0 {
			c.Count("no_cgo", 1) // no C compiler here
			return
		}
		before := treeSnap(dir)
		args := []string{"object", "paths=./..."}
		res := runCmd(dir, env, toolTimeout, filepath.Join(c.Bin, "controller-gen"), args...)
		c.judgeRun(root, res, args)
		c.Eval(fmt.Sprint("cgo", i))
		if res.Code != 0 {
			c.Violate("rejected", "object fails on a package that uses cgo: "+clip(res.Stderr, 2000), nil, dir)
			return
		}
		c.Count("cgo_runs", 1)
		after := treeSnap(dir)
		const f = "api/v1/zz_generated.deepcopy.go"
		for k := range after {
			if _, ok := before[k]; !ok && k != f {
				c.Violate("output", "object on a package that uses cgo writes "+k, nil, dir)
				return
			}
		}
		if !strings.Contains(after[f], "func (in *T) DeepCopyInto") {
			c.Violate("output", "object on a package that uses cgo does not write "+f, nil, dir)
			return
		}
		if out := runCmd(dir, env, toolTimeout, "go", "build", "./..."); out.Code != 0 {
			c.Violate("output", "generated code does not compile in a package that uses cgo: "+clip(out.Stderr, 2000), nil, dir)
		}
		_ = os.RemoveAll(root)
	})
}
