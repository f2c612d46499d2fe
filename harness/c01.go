package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// C01: the same run again, with other map seeds, schedules and orders of the paths.

func init() { register("C01", checkC01) }

func checkC01(c *Ctx) {
	c.Rule("A case is one random project and one set of generators; it is run several times with different GOMAXPROCS, and with its packages given as paths in different orders. Bytes of every file, exit status, standard output and the set of diagnostics of every run are compared with the first. Distinct cases produce different output.")
	c.Assume("Go randomises map iteration per loop, so repeated runs sample iteration orders; an order dependence that needs a rare order may be missed in one run of the check")
	c.Min("comparisons", 150)
	c.Min("artifacts", 100)
	c.Min("failing_runs", 5)
	n := c.N(11, 120)
	light := c.N(14, 150)
	parallel(n+light, 7, func(i int) {
		if i < n {
			c01Case(c, i)
		} else {
			c01Light(c, i-n)
		}
	})
}

type c01Out struct {
	code          int
	stdout, diags string
	files         map[string]string
}

// runSnap runs the tool in dir, takes the files it made and removes them again.
func c01Run(c *Ctx, dir string, before map[string]string, env []string, args []string) c01Out {
	c.Count("tool_runs", 1)
	res := runCmd(dir, env, toolTimeout, filepath.Join(c.Bin, "controller-gen"), args...)
	c.judgeRun(dir, res, args)
	o := c01Out{code: res.Code, stdout: res.Stdout, diags: strings.Join(diagSet(res.Stderr), "\n"), files: map[string]string{}}
	for f, b := range snapshot(dir) {
		if old, ok := before[f]; !ok || old != b {
			o.files[f] = b
			if ok {
				writeFile(filepath.Join(dir, f), old)
			} else {
				_ = os.Remove(filepath.Join(dir, f))
			}
		}
	}
	return o
}

var lineOnly = regexp.MustCompile(`^\s*$`)

// diagSet is the set of lines written to standard error, but for the usage text.
func diagSet(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if !lineOnly.MatchString(l) && !strings.HasPrefix(l, "run `controller-gen ") { // that line repeats the command
			out = append(out, l)
		}
	}
	return uniqSorted(out)
}

func (a c01Out) diff(b c01Out) string {
	var d []string
	if a.code != b.code {
		d = append(d, fmt.Sprintf("exit status %d and %d", a.code, b.code))
	}
	if a.stdout != b.stdout {
		d = append(d, "standard output: "+lineDiff(a.stdout, b.stdout))
	}
	if a.diags != b.diags {
		d = append(d, "diagnostics: "+lineDiff(a.diags, b.diags))
	}
	if x := diffSnap(a.files, b.files); x != "" {
		d = append(d, x)
	}
	return strings.Join(d, "\n")
}

func c01Case(c *Ctx, i int) {
	r := c.Rng("case", i)
	dir := c.CaseDir("c01")
	var pkgs []string
	kind := i % 7
	var gens [][]string
	what := ""
	switch kind {
	case 0, 1, 2:
		what = "project"
		m := genFull(r, dir, "example.test/mod", fullOpts{apis: 3 + r.Intn(3), ac: kind == 2})
		for _, p := range m.pkgs {
			pkgs = append(pkgs, "./"+p.dir)
		}
		gens = [][]string{{"crd", "rbac:roleName=role", "webhook", "output:dir=out"}, {"object", "crd:maxDescLen=20", "output:crd:dir=out"}}
		if kind == 1 {
			gens = append(gens, []string{"schemapatch:manifests=./base", "output:dir=out"}, []string{"schemapatch:manifests=./base,maxDescLen=9", "output:stdout"})
			c01Base(c, r, dir)
		}
		if kind == 2 {
			gens = append(gens, []string{"applyconfiguration"})
		}
	case 3:
		what = "crds"
		cs := genCRDCase(r, dir, "example.test/mod")
		for _, p := range cs.pkgs {
			pkgs = append(pkgs, "./"+p.dir)
		}
		pkgs = append(pkgs, "./api/plain")
		gens = [][]string{{"crd", "output:dir=out"}, {"crd:generateEmbeddedObjectMeta=true", "output:stdout"}}
	case 4:
		what = "model"
		p := c04Profile()
		g := genModel(r, "example.test/mod", p)
		g.write(dir, r)
		for _, p := range append(append([]*Pkg{}, g.libs...), g.apis...) {
			pkgs = append(pkgs, "./"+p.Dir)
		}
		gens = [][]string{{optArgs(g.p.opts), "output:dir=out"}}
	case 5, 6:
		what = "faulty project"
		m := genFull(r, dir, "example.test/mod", fullOpts{apis: 3})
		for _, p := range m.pkgs {
			pkgs = append(pkgs, "./"+p.dir)
		}
		c01Faults(r, m)
		gens = [][]string{{"crd", "rbac:roleName=role", "webhook", "output:dir=out"}, {"object", "crd", "output:crd:dir=out"}, {"rbac:roleName=r", "output:stdout"}}
	}
	c01Compare(c, r, dir, what, pkgs, gens, kind < 3, c.N(5, 10))
}

// c01Light is a project without dependencies: markers that differ in one part only, and types to copy.
func c01Light(c *Ctx, i int) {
	r := c.Rng("light", i)
	dir := c.CaseDir("c01l")
	newModule(dir, "example.test/mod")
	var pkgs []string
	if i%3 == 2 {
		g := &dcGen{r: r, mod: "example.test/mod", feat: map[string]int{}}
		for _, d := range []string{"base", "grp/v1", "other/v1", "core"} {
			p := &dcPkg{name: filepath.Base(d), dir: d, path: g.mod + "/" + d, enabled: chance(r, 80)}
			g.pkgs = append(g.pkgs, p)
			g.genPackage(p, 8)
			writeFile(filepath.Join(dir, d, "types.go"), p.source(false))
			writeFile(filepath.Join(dir, d, "manual.go"), "package "+p.name+"\n\n// Manual counts calls of hand-written methods.\nvar Manual = map[string]int{}\n")
			pkgs = append(pkgs, "./"+d)
		}
		c01Compare(c, r, dir, "deepcopy", pkgs, [][]string{{"object"}}, true, c.N(6, 12))
		return
	}
	var marks []rbacMark
	for p := 0; p < 4; p++ {
		files := make([][]string, 1+r.Intn(3))
		put := func(s string) {
			k := r.Intn(len(files))
			files[k] = append(files[k], s)
		}
		for k := 0; k < 2+r.Intn(10); k++ {
			m := genRBACMark(r, false)
			if len(marks) > 0 && chance(r, 50) { // one that differs in one part
				n := genRBACMark(r, false)
				m = marks[r.Intn(len(marks))]
				if m.urls != nil || chance(r, 20) {
					m.urls, m.ns = pickSome(r, rURLs, 3), ""
				}
				switch r.Intn(5) {
				case 0:
					m.verbs = n.verbs
				case 1:
					if m.urls == nil {
						m.names = pickSome(r, rNames, 2)
					}
				case 2:
					if m.urls == nil {
						m.ns = n.ns
					}
				case 3:
					if m.groups != nil {
						m.groups = append([]string{}, m.groups...)
						r.Shuffle(len(m.groups), func(a, b int) { m.groups[a], m.groups[b] = m.groups[b], m.groups[a] })
					}
				case 4:
					if m.resources != nil && n.resources != nil {
						m.resources = n.resources
					}
				}
			}
			marks = append(marks, m)
			put(m.text(r))
		}
		for k := 0; k < r.Intn(8); k++ {
			put(whText(r, genWebhook(r, p*100+k).args))
		}
		c10Place(r, filepath.Join(dir, fmt.Sprintf("p%d", p)), files)
		pkgs = append(pkgs, fmt.Sprintf("./p%d", p))
	}
	c01Compare(c, r, dir, "markers", pkgs, [][]string{{"rbac:roleName=role", "webhook", "output:dir=out"}}, true, c.N(8, 20))
}

// c01Compare runs the generators several times and compares.
func c01Compare(c *Ctx, r *rand.Rand, dir, what string, pkgs []string, gens [][]string, valid bool, runs int) {
	before := snapshot(dir)
	paths := func(order []int) []string {
		var a []string
		if order == nil {
			return []string{"paths=./..."}
		}
		for _, k := range order {
			a = append(a, "paths="+pkgs[k])
		}
		return a
	}
	for _, g := range gens {
		all := chance(r, 50)
		first := r.Perm(len(pkgs))
		var ref c01Out
		var refArgs []string
		for k := 0; k < runs; k++ {
			order := first
			if k >= runs/2 {
				order = r.Perm(len(pkgs))
			}
			ps := paths(order)
			if all {
				ps = paths(nil)
			}
			args := append(append([]string{}, g...), ps...)
			if k >= runs/2 { // the position of the paths among the other options does not matter either
				args = append(append([]string{}, ps...), g...)
			}
			o := c01Run(c, dir, before, []string{fmt.Sprintf("GOMAXPROCS=%d", pick(r, 1, 2, 8))}, args)
			if k == 0 {
				ref, refArgs = o, args
				c.Eval(fmt.Sprint(o))
				c.Count("artifacts", int64(len(o.files)))
				if o.code != 0 {
					c.Count("failing_runs", 1)
				}
				if o.code != 0 && valid {
					c.Violate("rejected", fmt.Sprintf("controller-gen %s fails on a valid project:\n%s", strings.Join(args, " "), clip(o.diags, 3000)), nil, dir)
					return
				}
				continue
			}
			c.Count("comparisons", 1)
			if d := ref.diff(o); d != "" {
				c.Violate("nondeterministic", fmt.Sprintf("%s: two runs differ\n1: controller-gen %s\n2: controller-gen %s\n%s", what, strings.Join(refArgs, " "), strings.Join(args, " "), clip(d, 4000)), nil, dir)
				return
			}
		}
	}
}

// c01Base makes manifests to patch out of what the CRD generator writes.
func c01Base(c *Ctx, r *rand.Rand, dir string) {
	res := c.Gen(dir, "crd:maxDescLen=0", "paths=./...", "output:dir=base")
	if res.Code != 0 {
		c.Violate("rejected", "controller-gen crd fails on a valid project:\n"+clip(res.Stderr, 3000), nil, dir)
	}
}

// c01Faults adds several mistakes to a project.
func c01Faults(r *rand.Rand, m *fullMod) {
	n := 2 + r.Intn(5)
	for i := 0; i < n; i++ {
		p := m.apis[r.Intn(len(m.apis))]
		f := filepath.Join(m.dir, p.dir, fmt.Sprintf("bad%d.go", i))
		k := p.kinds[0]
		switch r.Intn(6) {
		case 0:
			writeFile(f, fmt.Sprintf("package %s\n\n// +kubebuilder:validation:Minimum=x\n// +kubebuilder:validation:MaxLength=y\ntype Bad%d string\n\ntype Bads%d struct {\n\t// +kubebuilder:validation:Maximum=z\n\tA int `json:\"a\"`\n\t// +kubebuilder:default\n\tB int `json:\"b\"`\n\tC float64 `json:\"c\"`\n}\n", p.name, i, i))
		case 1:
			writeFile(f, fmt.Sprintf("package %s\n\n// +kubebuilder:rbac:groups=a,resources=b,verbs=c,nonsense=%d\n\n// +kubebuilder:webhook:path=/x\n\n// +kubebuilder:rbac:groups={a\n\nvar _ = 1\n", p.name, i))
		case 2:
			writeFile(f, fmt.Sprintf("package %s\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n// +kubebuilder:object:root=true\n// +kubebuilder:validation:MaxLength=4\ntype Kind%d struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tA float64 `json:\"a\"`\n\tB map[int]string `json:\"b\"`\n\tC chan int `json:\"c\"`\n\tD %sSpec\n}\n", p.name, i, k))
		case 3:
			writeFile(f, fmt.Sprintf("package %s\n\ntype X%d struct {\n\tA int json\n\tB string y\n}\n", p.name, i))
		case 4:
			writeFile(f, fmt.Sprintf("package %s\n\nimport nothere \"example.test/mod/nothere%d\"\n\nvar _ = nothere.X\n", p.name, i))
		case 5:
			writeFile(f, fmt.Sprintf("package %s\n\n// +kubebuilder:webhook:path=/x,mutating=maybe\n\n// +kubebuilder:webhook:path=/y,mutating=true,failurePolicy=fail,groups=a,resources=b,verbs=create,versions=v1,name=n%d,timeoutSeconds=99999999999,admissionReviewVersions=v1,sideEffects=None\n\nvar _ = 2\n", p.name, i))
		}
	}
}
