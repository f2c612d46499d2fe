package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"
	"sigs.k8s.io/controller-tools/pkg/webhook"
)

// C13: valid projects with known faults put in, and outputs that fail. Whoever meets a fault has to say so.

func init() {
	register("C13", checkC13)
	subs["c13api"] = c13API
}

// c13Gens are the generators with their options.
var c13Gens = []string{"crd", "object", "rbac", "webhook", "schemapatch", "applyconfiguration"}

func c13Opt(g string) string {
	switch g {
	case "rbac":
		return "rbac:roleName=role"
	case "schemapatch":
		return "schemapatch:manifests=./base"
	}
	return g
}

type c13Case struct {
	dir   string
	m     *fullMod
	r     *rand.Rand
	n     int
	paths []string          // options
	opts  map[string]string // by generator, instead of c13Opt
	out   []string          // output options
	wrap  []string          // command line around the tool
	used  map[string]bool   // packages with faults
}

type c13Fault struct {
	name   string
	gens   []string // the generators that cannot do their job because of it; nil means all
	needle string   // has to be in what is reported
	fatal  bool     // other faults need not be reported with it
}

func (k *c13Case) file(p *fullPkg, tmpl string, args ...any) string {
	k.n++
	name := fmt.Sprintf("bad%d.go", k.n)
	writeFile(filepath.Join(k.dir, p.dir, name), "package "+p.name+"\n\n"+fmt.Sprintf(tmpl, args...))
	return name
}

// pkgOf draws a package that has no fault yet.
func (k *c13Case) pkgOf(api bool) *fullPkg {
	l := k.m.pkgs
	if api {
		l = k.m.apis
	}
	for _, i := range k.r.Perm(len(l)) {
		if !k.used[l[i].dir] && l[i].name != "common" {
			k.used[l[i].dir] = true
			return l[i]
		}
	}
	return nil
}

// addField puts a field into the spec of a kind of the package.
func (k *c13Case) addField(p *fullPkg, field string) string {
	for _, f := range []string{"z0_types.go", "z1_types.go"} {
		path := filepath.Join(k.dir, p.dir, f)
		b, err := os.ReadFile(path)
		if err != nil {
			continue
		}
		mark := pick(k.r, "Part struct {\n", "Spec struct {\n")
		if i := strings.Index(string(b), mark); i >= 0 {
			writeFile(path, string(b[:i])+mark+field+string(b[i+len(mark):]))
			return f
		}
	}
	panic("no struct in " + p.dir)
}

var c13CRD = []string{"crd", "schemapatch"}

// the texts of markers that do not parse, with the generators that know them
var c13BadMarkers = []struct {
	where, text string
	gens        []string
}{
	{"type", "kubebuilder:validation:MaxLength=x", c13CRD},
	{"type", "kubebuilder:validation:Enum=", c13CRD},
	{"type", "kubebuilder:resource:scope=Cluster,paths=x", []string{"crd", "schemapatch", "applyconfiguration"}},
	{"type", "kubebuilder:printcolumn:name=x", c13CRD},
	{"type", "kubebuilder:subresource:scale:specpath=.x", c13CRD},
	{"type", "kubebuilder:object:root=maybe", []string{"object"}},
	{"type", "kubebuilder:object:generate=7", []string{"object"}},
	{"type", "kubebuilder:validation:XValidation:message=x", c13CRD},
	{"field", "kubebuilder:validation:Minimum=abc", c13CRD},
	{"field", "kubebuilder:validation:MinItems=99999999999999999999", c13CRD},
	{"field", "kubebuilder:default={a: [1", c13CRD},
	{"field", "kubebuilder:validation:XValidation:rule=\"unfinished", c13CRD},
	{"pkg", "kubebuilder:rbac:groups=apps,resources=pods", []string{"rbac"}},
	{"pkg", "kubebuilder:rbac:groups=apps,resources=pods,verbs=get,what=else", []string{"rbac"}},
	{"pkg", "kubebuilder:rbac:groups={apps,resources=pods,verbs=get", []string{"rbac"}},
	{"pkg", "kubebuilder:webhook:path=/only-a-path", []string{"webhook"}},
	{"pkg", "kubebuilder:webhook:path=/m,mutating=maybe,failurePolicy=fail,groups=a,resources=b,verbs=create,versions=v1,name=a.b.c,sideEffects=None,admissionReviewVersions=v1", []string{"webhook"}},
	{"pkg", "kubebuilder:webhook:path=/m,mutating=false,failurePolicy=fail,groups=a,resources=b,verbs=create,versions=v1,name=a.b.c,sideEffects=None,admissionReviewVersions=v1,timeoutSeconds=x", []string{"webhook"}},
	{"pkg", "kubebuilder:object:generate=maybe", []string{"object"}},
	{"pkg", "kubebuilder:ac:generate=maybe", []string{"applyconfiguration"}},
	{"type", "kubebuilder:ac:generate=maybe", []string{"applyconfiguration"}},
}

// markers that parse, but not where they are or not with that value
var c13BadApply = []string{
	"\t// +kubebuilder:validation:MaxLength=3\n\tBad%d int `json:\"bad%d\"`\n",
	"\t// +kubebuilder:validation:Maximum=3\n\tBad%d string `json:\"bad%d\"`\n",
	"\t// +kubebuilder:validation:MaxItems=3\n\tBad%d map[string]string `json:\"bad%d\"`\n",
	"\t// +listType=bag\n\tBad%d []string `json:\"bad%d\"`\n",
	"\t// +listMapKey=a\n\tBad%d []string `json:\"bad%d\"`\n",
	"\t// +mapType=huge\n\tBad%d map[string]string `json:\"bad%d\"`\n",
	"\t// +structType=round\n\tBad%d common.Shared0 `json:\"bad%d\"`\n",
	"\tBad%d float64 `json:\"bad%d\"`\n",
	"\tBad%d map[int]string `json:\"bad%d\"`\n",
	"\tBad%d Undefined `json:\"bad%d\"`\n",
	"\tBad%d common.Undefined%[1]d `json:\"bad%[2]d\"`\n",
	"\tBad%d []map[string]*Undefined `json:\"bad%d\"`\n",
	"\tBad%d string // %d has no tag\n",
}

// inject adds a fault to the project and returns what has to come of it.
func (k *c13Case) inject(what, round int) *c13Fault {
	r := k.r
	k.n++
	n := k.n
	switch what {
	case 0, 1: // a file that does not parse
		p := k.pkgOf(false)
		if p == nil {
			return nil
		}
		f := k.file(p, "%s", pick(r, "type X struct {\n\tA int json\n}\n", "func (\n", "type = 3\n", "import \"fmt\n", "var x = `abc\n", "}\n"))
		return &c13Fault{name: "syntax", needle: p.dir + "/" + f}
	case 2: // an import of nothing
		p := k.pkgOf(false)
		if p == nil {
			return nil
		}
		imp := fmt.Sprintf("%s/nothing%d", k.m.mod, n)
		k.file(p, "import nothing %q\n\nvar _ = nothing.X\n", imp)
		return &c13Fault{name: "missing import", needle: imp}
	case 3: // an import cycle
		a := k.m.pkgs[len(k.m.pkgs)-1]
		b := k.m.apis[0]
		if k.used[a.dir] || k.used[b.dir] {
			return nil
		}
		k.used[a.dir], k.used[b.dir] = true, true
		k.file(a, "import cyc %q\n\nvar Y = cyc.Z\n", b.path)
		k.file(b, "import cyc %q\n\nvar Z = cyc.Y\n", a.path)
		return &c13Fault{name: "import cycle", needle: "import cycle", fatal: true}
	case 4: // a path with nothing there
		k.paths = append(k.paths, fmt.Sprintf("paths=./no/such%d", n))
		return &c13Fault{name: "no such path", needle: fmt.Sprintf("no/such%d", n), fatal: true}
	case 5: // two packages in a directory
		p := k.pkgOf(false)
		if p == nil {
			return nil
		}
		writeFile(filepath.Join(k.dir, p.dir, "other.go"), "package another\n")
		return &c13Fault{name: "two packages", needle: "another"}
	case 6, 7, 8, 9: // a marker that does not parse
		b := c13BadMarkers[(round*4+what)%len(c13BadMarkers)]
		p := k.pkgOf(b.where != "pkg")
		if p == nil {
			return nil
		}
		m := b.text
		var f string
		switch b.where {
		case "type":
			f = k.file(p, "// Bad%d has one.\n// +%s\ntype Bad%d struct{}\n", n, m, n)
		case "field":
			f = k.file(p, "type Bad%d struct {\n\t// A has one.\n\t// +%s\n\tA []string `json:\"a\"`\n}\n", n, m)
		default:
			f = k.file(p, "// +%s\n\n// X%d is a variable.\nvar X%d = 1\n", m, n, n)
		}
		return &c13Fault{name: "unparseable marker " + b.where, gens: b.gens, needle: p.dir + "/" + f}
	case 10, 11, 12: // what a kind uses cannot be described
		p := k.pkgOf(true)
		if p == nil {
			return nil
		}
		t := c13BadApply[(round*3+what)%len(c13BadApply)]
		gens := append([]string{}, c13CRD...)
		f := k.addField(p, fmt.Sprintf(t, n, n))
		if strings.Contains(t, "Undefined") { // the object generator names the package only
			gens, f = append(gens, "object"), ""
			if p.ac {
				gens = append(gens, "applyconfiguration")
			}
		}
		return &c13Fault{name: "undescribable field", gens: gens, needle: strings.TrimSuffix(p.dir+"/"+f, "/")}
	case 13: // a field that cannot be copied
		p := k.pkgOf(true)
		if p == nil {
			return nil
		}
		k.file(p, "type Bad%d struct {\n\tA %s `json:\"a\"`\n}\n", n, pick(r, "func()", "chan int", "interface{}", "map[string]chan int"))
		return &c13Fault{name: "uncopyable field", gens: []string{"object"}, needle: p.dir}
	case 14: // a header file that does not exist
		g := pick(r, "crd", "object", "rbac", "webhook", "applyconfiguration")
		if k.opts[g] != "" {
			return nil
		}
		sep := ":"
		if strings.Contains(c13Opt(g), ":") {
			sep = ","
		}
		k.opts[g] = c13Opt(g) + sep + fmt.Sprintf("headerFile=nohdr%d.txt", n)
		return &c13Fault{name: "no header file " + g, gens: []string{g}, needle: fmt.Sprintf("nohdr%d.txt", n), fatal: true}
	case 15:
		if k.opts["schemapatch"] != "" {
			return nil
		}
		k.opts["schemapatch"] = fmt.Sprintf("schemapatch:manifests=./nomanifests%d", n)
		return &c13Fault{name: "no manifests", gens: []string{"schemapatch"}, needle: fmt.Sprintf("nomanifests%d", n), fatal: true}
	case 16: // manifests of a version that is not supported
		writeFile(filepath.Join(k.dir, "base", fmt.Sprintf("old%d.yaml", n)), "apiVersion: apiextensions.k8s.io/v1beta1\nkind: CustomResourceDefinition\nmetadata:\n  name: x\nspec:\n  group: g\n  names:\n    kind: X\n")
		return &c13Fault{name: "old manifest", gens: []string{"schemapatch"}, needle: fmt.Sprintf("old%d.yaml", n), fatal: true}
	case 17, 18, 19: // outputs that cannot be written
		if k.out != nil {
			return nil
		}
		k.out = []string{"output:dir=out"}
		switch (round*3 + what) % 5 {
		case 0: // the directory is a file
			writeFile(filepath.Join(k.dir, "out"), "I am a file.\n")
			return &c13Fault{name: "directory is a file", gens: []string{"crd", "rbac", "webhook", "schemapatch", "object"}, needle: "not a directory", fatal: true}
		case 1: // the file is a directory
			f, g := k.outFile()
			mkdirAll(filepath.Join(k.dir, "out", f, "sub"))
			return &c13Fault{name: "file is a directory " + g[0], gens: g, needle: f, fatal: true}
		case 2: // a full disk
			f, g := k.outFile()
			if strings.HasSuffix(f, ".go") { // the go command would try to read it
				return nil
			}
			mkdirAll(filepath.Join(k.dir, "out"))
			if err := os.Symlink("/dev/full", filepath.Join(k.dir, "out", f)); err != nil {
				panic(err)
			}
			return &c13Fault{name: "full disk " + g[0], gens: g, needle: "no space left", fatal: true}
		case 3: // standard output is full
			k.out = []string{"output:stdout"}
			k.wrap = []string{"sh", "-c", `"$@" > /dev/full`, "sh"}
			return &c13Fault{name: "full standard output", gens: []string{"crd", "rbac", "webhook", "schemapatch", "object"}, needle: "no space left", fatal: true}
		default: // generated code next to the sources
			k.out = nil
			p := k.pkgOf(true)
			if p == nil {
				return nil
			}
			mkdirAll(filepath.Join(k.dir, p.dir, "zz_generated.deepcopy.go", "sub"))
			k.out = []string{"output:crd:dir=out", "output:rbac:dir=out", "output:webhook:dir=out", "output:schemapatch:dir=out2"}
			return &c13Fault{name: "code file is a directory", gens: []string{"object"}, needle: p.dir + "/zz_generated.deepcopy.go"}
		}
	case 20: // a type with a method of that name that is not one
		p := k.pkgOf(true)
		if p == nil {
			return nil
		}
		k.file(p, "type Bad%d struct {\n\tDeepCopy string `json:\"a\"`\n}\n", n)
		return &c13Fault{name: "field named like a method", gens: []string{"object"}, needle: p.dir}
	default:
		k.opts["crd"] = "crd:crdVersions={v1,v0}"
		return &c13Fault{name: "no such CRD version", gens: []string{"crd"}, needle: "v0", fatal: true}
	}
}

// outFile draws a file that is written, and the generator that writes it.
func (k *c13Case) outFile() (string, []string) {
	kinds := sortedKeys(k.m.kinds)
	gk := kinds[k.r.Intn(len(kinds))]
	g, kind := filepath.Split(gk)
	switch k.r.Intn(5) {
	case 0:
		return "manifests.yaml", []string{"webhook"}
	case 1:
		return "role.yaml", []string{"rbac"}
	case 2:
		return strings.ToLower(kind) + ".yaml", []string{"schemapatch"}
	case 3:
		return "zz_generated.deepcopy.go", []string{"object"}
	default:
		return strings.TrimSuffix(g, "/") + "_" + k.m.kinds[gk] + ".yaml", []string{"crd"}
	}
}

func mkdirAll(p string) {
	if err := os.MkdirAll(p, 0o755); err != nil {
		panic(err)
	}
}

func checkC13(c *Ctx) {
	c.Rule("A case is one run of the real tool on a random valid project into which known faults were put (or none), or one run of the generators in process with an output that fails at a chosen operation, or of generators that report chosen errors. Exit status, and what is reported, are compared with what is known of the faults. Distinct cases differ in faults, generators and project.")
	c.Assume("type errors of Go code that no output depends on may go unreported: the tool checks types only as far as it needs to")
	c.Min("faulty_runs", 50)
	c.Min("clean_runs", 5)
	c.Min("api_runs", 150)
	n := c.N(110, 1500)
	parallel(n, 8, func(i int) { c13Run(c, i) })
	c13Env(c)
	self, _ := os.Executable()
	parallel(c.N(3, 40), 6, func(i int) {
		dir := c.CaseDir("c13api")
		res := runCmd(dir, nil, 2*toolTimeout, self, "-sub", "c13api", dir, fmt.Sprint(c.Rng("api", i).Int63()))
		var o struct {
			Bad   []string
			Runs  int
			Kinds map[string]int
		}
		if err := json.Unmarshal([]byte(res.Stdout), &o); err != nil {
			c.Violate("crash", "generators with faulty outputs: "+clip(res.Stderr, 4000), nil, dir)
			return
		}
		c.Count("api_runs", int64(o.Runs))
		for kd, v := range o.Kinds {
			c.See("api_faults", kd)
			c.Count("api_failures", int64(v))
		}
		c.Eval(fmt.Sprint("api", i))
		if len(o.Bad) > 0 {
			if len(o.Bad) > 8 {
				o.Bad = o.Bad[:8]
			}
			c.Violate("api", strings.Join(o.Bad, "\n"), nil, dir)
			return
		}
		_ = os.RemoveAll(dir)
	})
}

// c13Env: nothing can be loaded at all, however the packages are named.
func c13Env(c *Ctx) {
	type fault struct {
		name, mod, needle string
		env               []string
	}
	faults := []fault{
		{"none", "", "", nil},
		{"go.mod does not parse", "modul example.test/m\n", "go.mod", nil},
		{"go.mod wants a newer go", "module example.test/m\n\ngo 1.999\n", "1.999", []string{"GOTOOLCHAIN=local"}},
		{"no go command", "", "go", []string{"PATH=/nonexistent"}},
		{"flags of the go command", "", "bogus", []string{"GOFLAGS=-mod=bogus"}},
		{"no module", "-", "", nil},
	}
	paths := [][]string{
		{"./..."}, {"./a"}, {"./a", "./b"}, {"./a/..."}, {"example.test/m/a"}, {"example.test/m/..."}, {"example.test/m/a", "example.test/m/b"}, {"./b", "example.test/m/a"}, {"{./a,./b/...}"},
	}
	type cs struct {
		f fault
		p []string
	}
	var l []cs
	for _, f := range faults {
		for _, p := range paths {
			if f.name == "no module" && p[0] == "example.test/m/..." {
				continue // a recursive pattern that matches nothing is no error
			}
			l = append(l, cs{f, p})
		}
	}
	parallel(len(l), 8, func(i int) {
		k := l[i]
		dir := c.CaseDir("c13env")
		mod := k.f.mod
		if mod == "" {
			mod = "module example.test/m\n\ngo 1.24\n"
		}
		if mod != "-" {
			writeFile(filepath.Join(dir, "go.mod"), mod)
		}
		for _, p := range []string{"a", "b"} {
			writeFile(filepath.Join(dir, p, p+".go"), "package "+p+"\n\n// +kubebuilder:rbac:groups=g"+p+",resources=r,verbs=get\n\n// +kubebuilder:object:generate=true\n// T is a type.\ntype T struct {\n\tA []string `json:\"a\"`\n}\n")
		}
		args := append([]string{"rbac:roleName=role", "object"}, "output:rbac:dir=out")
		for _, p := range k.p {
			args = append(args, "paths="+p)
		}
		res := runCmd(dir, k.f.env, toolTimeout, filepath.Join(c.Bin, "controller-gen"), args...)
		c.judgeRun(dir, res, args)
		c.Eval(fmt.Sprint("env", k.f.name, k.p))
		c.Count("env_runs", 1)
		what := fmt.Sprintf("%s: controller-gen %s", k.f.name, strings.Join(args, " "))
		_, err := os.Stat(filepath.Join(dir, "out", "role.yaml"))
		if k.f.name == "none" {
			if res.Code != 0 || res.Stderr != "" || err != nil {
				c.Violate("env", fmt.Sprintf("%s: exit %d, %s", what, res.Code, clip(res.Stderr, 1500)), nil, dir)
			}
			return
		}
		if res.Code == 0 {
			c.Violate("env", what+" succeeds", nil, dir)
		} else if l := strings.Split(res.Stderr, "Usage:")[0]; strings.TrimSpace(l) == "" || !strings.Contains(l, k.f.needle) {
			c.Violate("env", fmt.Sprintf("%s does not say why: %s", what, clip(l, 1500)), nil, dir)
		}
		_ = os.RemoveAll(dir)
	})
}

func c13Run(c *Ctx, i int) {
	r := c.Rng("case", i)
	dir := c.CaseDir("c13")
	m := genFull(r, dir, "example.test/mod", fullOpts{apis: 2 + r.Intn(2), kinds: 1 + r.Intn(2), fields: 3, ac: true})
	k := &c13Case{dir: dir, m: m, r: r, opts: map[string]string{}, used: map[string]bool{}}
	mkdirAll(filepath.Join(dir, "base"))
	// the manifests are those of the project before the faults, written by hand as far as they matter
	for gk := range m.kinds {
		g, kind := filepath.Split(gk)
		g = strings.TrimSuffix(g, "/")
		s := fmt.Sprintf("apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\nmetadata:\n  name: x\nspec:\n  group: %s\n  names:\n    kind: %s\n  versions:\n", g, kind)
		for _, p := range m.apis {
			if p.group == g {
				s += "  - name: " + p.version + "\n"
			}
		}
		writeFile(filepath.Join(dir, "base", strings.ToLower(kind)+".yaml"), s)
	}
	nf := pick(r, 1, 1, 1, 2, 3)
	if chance(r, 18) {
		nf = 0
	}
	var faults []*c13Fault
	for len(faults) < nf {
		what, round := i%22, i/22
		if len(faults) > 0 {
			what, round = r.Intn(22), r.Intn(100)
		}
		f := k.inject(what, round)
		if f == nil {
			nf--
			continue
		}
		faults = append(faults, f)
	}
	gens := subset(r, 25, c13Gens...)
	for _, f := range faults { // mostly, somebody has to meet the fault
		if len(f.gens) > 0 && chance(r, 85) {
			gens = append(gens, f.gens[r.Intn(len(f.gens))])
		}
	}
	if len(gens) == 0 {
		gens = []string{c13Gens[r.Intn(len(c13Gens))]}
	}
	gens = uniqSorted(gens)
	has := map[string]bool{}
	for _, g := range gens {
		has[g] = true
	}
	var args []string
	for _, g := range gens {
		if o := k.opts[g]; o != "" {
			args = append(args, o)
		} else {
			args = append(args, c13Opt(g))
		}
	}
	if k.out == nil {
		k.out = []string{"output:crd:dir=out", "output:rbac:dir=out", "output:webhook:dir=out", "output:schemapatch:dir=out2"}
	}
	for _, o := range k.out {
		if p := strings.Split(o, ":"); len(p) == 3 && !has[p[1]] {
			continue
		}
		args = append(args, o)
	}
	paths := append([]string{"paths=./..."}, k.paths...)
	if chance(r, 40) {
		paths = k.paths
		for _, j := range r.Perm(len(m.pkgs)) {
			paths = append(paths, "paths=./"+m.pkgs[j].dir)
		}
	}
	args = append(args, paths...)
	r.Shuffle(len(args), func(a, b int) { args[a], args[b] = args[b], args[a] })
	tool := append(append([]string{}, k.wrap...), filepath.Join(c.Bin, "controller-gen"))
	c.Count("tool_runs", 1)
	res := runCmd(dir, nil, toolTimeout, tool[0], append(append([]string{}, tool[1:]...), args...)...)
	c.judgeRun(dir, res, args)
	must, fatal := false, false
	var names []string
	var expect []*c13Fault
	for _, f := range faults {
		names = append(names, f.name)
		hit := f.gens == nil
		for _, g := range f.gens {
			hit = hit || has[g]
		}
		if hit {
			must = true
			fatal = fatal || f.fatal
			expect = append(expect, f)
		}
	}
	sort.Strings(names)
	sort.Strings(gens)
	c.Eval(fmt.Sprint(i, names, gens))
	what := fmt.Sprintf("controller-gen %s, with the faults %q", strings.Join(args, " "), names)
	show := fmt.Sprintf("%s: exit %d, standard error:\n%s", what, res.Code, clip(res.Stderr, 3000))
	if !must {
		c.Count("clean_runs", 1)
		for _, n := range names {
			c.See("irrelevant_faults", n)
		}
		if res.Code != 0 || strings.TrimSpace(res.Stderr) != "" {
			c.Violate("alarm", "no generator has a reason to fail or to report anything: "+show, nil, dir)
			return
		}
		_ = os.RemoveAll(dir)
		return
	}
	c.Count("faulty_runs", 1)
	for _, f := range expect {
		c.See("faults", f.name)
	}
	if res.Code == 0 {
		c.Violate("success", "the run reports success: "+show, nil, dir)
		return
	}
	missing := 0
	for _, f := range expect {
		if !strings.Contains(res.Stderr, f.needle) {
			missing++
			if !fatal || f.fatal && missing == len(expect) {
				c.Violate("unreported", fmt.Sprintf("the fault %q (%q) is not named: %s", f.name, f.needle, show), nil, dir)
				return
			}
		}
	}
	if strings.TrimSpace(strings.ReplaceAll(res.Stderr, "Error: not all generators ran successfully", "")) == "" || missing == len(expect) {
		c.Violate("unreported", "nothing is reported: "+show, nil, dir)
		return
	}
	_ = os.RemoveAll(dir)
}

// ---- in process ----

type c13Out struct {
	failAt int // the operation that fails, counted over all outputs
	how    string
	n      int
	failed bool
	opened []string
	mem    *memOut
}

type c13W struct {
	o *c13Out
	w io.Writer
}

var errC13 = errors.New("injected failure 4711")

func (o *c13Out) step() bool {
	o.n++
	if o.n-1 == o.failAt {
		o.failed = true
		return true
	}
	return false
}

func (o *c13Out) Open(pkg *loader.Package, p string) (io.WriteCloser, error) {
	o.opened = append(o.opened, p)
	if o.how == "open" && o.step() {
		return nil, errC13
	}
	w, err := o.mem.Open(pkg, p)
	return &c13W{o, w}, err
}

func (w *c13W) Write(b []byte) (int, error) {
	if w.o.how == "write" && w.o.step() {
		return 0, errC13
	}
	if w.o.how == "partial" && w.o.step() {
		n, _ := w.w.Write(b[:len(b)/2])
		return n, errC13
	}
	if w.o.how == "short" && len(b) > 0 && w.o.step() {
		n, _ := w.w.Write(b[:len(b)-1])
		return n, io.ErrShortWrite
	}
	return w.w.Write(b)
}

func (w *c13W) Close() error {
	if w.o.how == "close" && w.o.step() {
		return errC13
	}
	return nil
}

// c13Fake is a generator that does as it is told.
type c13Fake struct {
	err     error
	add     []error
	ran     *int
	markers bool
	seen    *bool
}

func (f c13Fake) RegisterMarkers(into *markers.Registry) error { return nil }
func (f c13Fake) Generate(ctx *genall.GenerationContext) error {
	*f.ran++
	for _, e := range f.add {
		ctx.Roots[len(ctx.Roots)-1].AddError(e)
	}
	return f.err
}

func c13API(args []string) {
	dir := args[0]
	var seed int64
	fmt.Sscan(args[1], &seed)
	r := rand.New(rand.NewSource(seed))
	var o struct {
		Bad   []string
		Runs  int
		Kinds map[string]int
	}
	o.Kinds = map[string]int{}
	genFull(r, dir, "example.test/mod", fullOpts{apis: 2, kinds: 2, fields: 2})
	bad := func(f string, a ...any) { o.Bad = append(o.Bad, fmt.Sprintf(f, a...)) }
	emb := true
	base := filepath.Join(dir, "base")
	// manifests
	run := func(gens genall.Generators, out genall.OutputRule) (bool, string, error) {
		o.Runs++
		rt, err := gens.ForRootsWithConfig(&packages.Config{Dir: dir}, "./...")
		if err != nil {
			return false, "", err
		}
		rt.OutputRules.Default = out
		var buf bytes.Buffer
		rt.ErrorWriter = &buf
		old := os.Stderr
		rd, wr, _ := os.Pipe()
		os.Stderr = wr
		done := make(chan string)
		go func() { b, _ := io.ReadAll(rd); done <- string(b) }()
		had := rt.Run()
		os.Stderr = old
		wr.Close()
		return had, buf.String() + <-done, nil
	}
	gen := func(g genall.Generator) *genall.Generator { return &g }
	mo := newMemOut()
	if had, msg, err := run(genall.Generators{gen(crd.Generator{})}, mo); had || err != nil {
		bad("the CRD generator fails on a valid project: %v %s", err, msg)
	}
	for f, s := range mo.snap() {
		writeFile(filepath.Join(base, f), s)
	}
	all := map[string]func() genall.Generators{
		"crd": func() genall.Generators {
			return genall.Generators{gen(crd.Generator{GenerateEmbeddedObjectMeta: &emb})}
		},
		"object":      func() genall.Generators { return genall.Generators{gen(deepcopy.Generator{})} },
		"rbac":        func() genall.Generators { return genall.Generators{gen(rbac.Generator{RoleName: "role"})} },
		"webhook":     func() genall.Generators { return genall.Generators{gen(webhook.Generator{})} },
		"schemapatch": func() genall.Generators { return genall.Generators{gen(schemapatcher.Generator{ManifestsPath: base})} },
	}
	for _, name := range sortedKeys(all) {
		for _, how := range []string{"open", "write", "partial", "short", "close"} {
			probe := &c13Out{how: how, failAt: -1, mem: newMemOut()}
			had, msg, err := run(all[name](), probe)
			if had || err != nil || msg != "" {
				bad("%s fails on a valid project: %v %s", name, err, msg)
				continue
			}
			if probe.n == 0 {
				continue
			}
			// with another generator before and after it
			at := r.Intn(probe.n)
			if r.Intn(3) == 0 {
				at = probe.n - 1
			}
			out := &c13Out{how: how, failAt: at, mem: newMemOut()}
			had, msg, err = run(all[name](), out)
			if err != nil {
				bad("%s: %v", name, err)
				continue
			}
			if !out.failed {
				bad("%s: operation %d of %d (%s) did not happen again", name, at, probe.n, how)
				continue
			}
			o.Kinds[name+" "+how]++
			if !had {
				bad("%s: %s number %d of %d fails (%v), but the run reports success (reported: %q)", name, how, at, probe.n, out.opened, msg)
			} else if how != "short" && !strings.Contains(msg, errC13.Error()) {
				bad("%s: %s number %d of %d fails, which is not reported: %q", name, how, at, probe.n, msg)
			} else if msg == "" {
				bad("%s: %s number %d of %d fails, but nothing is reported", name, how, at, probe.n)
			}
		}
	}
	// generators that report errors
	for t := 0; t < 12; t++ {
		var gens genall.Generators
		n := 1 + r.Intn(4)
		runs := make([]int, n)
		var want []string
		fails := false
		for j := 0; j < n; j++ {
			f := c13Fake{ran: &runs[j]}
			switch r.Intn(6) {
			case 0:
				f.err = fmt.Errorf("generator error %d.%d", t, j)
				want = append(want, f.err.Error())
			case 1:
				f.add = append(f.add, fmt.Errorf("added error %d.%d", t, j))
				want = append(want, f.add[0].Error())
			case 2:
				f.add = append(f.add, loader.ErrList{fmt.Errorf("list error %d.%d.a", t, j), loader.MaybeErrList([]error{fmt.Errorf("list error %d.%d.b", t, j)})})
				want = append(want, fmt.Sprintf("list error %d.%d.a", t, j), fmt.Sprintf("list error %d.%d.b", t, j))
			case 3:
				f.add = append(f.add, packages.Error{Kind: pick(r, packages.ListError, packages.ParseError, packages.UnknownError), Msg: fmt.Sprintf("packages error %d.%d", t, j)})
				want = append(want, f.add[0].(packages.Error).Msg)
			}
			gens = append(gens, gen(f))
		}
		fails = len(want) > 0
		had, msg, err := run(gens, newMemOut())
		if err != nil {
			bad("fake generators: %v", err)
			continue
		}
		o.Kinds[fmt.Sprintf("fake fails=%v", fails)]++
		if had != fails {
			bad("generators report %q, the run reports failure=%v (%s)", want, had, msg)
		}
		for _, w := range want {
			if !strings.Contains(msg, w) {
				bad("error %q is not printed: %s", w, msg)
			}
		}
		if !fails && msg != "" {
			bad("nothing fails, but %q is printed", msg)
		}
		for j, k := range runs {
			if k != 1 {
				bad("generator %d of %d ran %d times (errors %q)", j, n, k, want)
			}
		}
	}
	b, _ := json.Marshal(o)
	os.Stdout.Write(b)
}
