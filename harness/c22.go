package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"sigs.k8s.io/controller-tools/pkg/genall"
)

// C22: option lists, against the same generators configured through their Go fields.

func init() {
	register("C22", checkC22)
	subs["c22ref"] = c22Sub
}

type c22Spec struct {
	Gen      string
	Opts     map[string]any // by Go field name
	Tags     string
	Patterns []string
}

// c22Sub reads a spec and runs the generator with its fields set.
func c22Sub(args []string) {
	var s c22Spec
	if err := json.Unmarshal([]byte(args[0]), &s); err != nil {
		panic(err)
	}
	v := reflect.New(reflect.TypeOf(genByName[s.Gen]))
	b, _ := json.Marshal(s.Opts)
	if err := json.Unmarshal(b, v.Interface()); err != nil {
		panic(err)
	}
	var res artifactsRes
	g := v.Elem().Interface().(genall.Generator)
	rt, err := (genall.Generators{&g}).ForRootsWithConfig(&packages.Config{BuildFlags: []string{"-tags=" + s.Tags}}, s.Patterns...)
	if err == nil {
		rt.OutputRules.Default = recOut{&res.Arts}
		res.Failed = rt.Run()
	} else {
		res.Failed, res.Msg = true, err.Error()
	}
	b, _ = json.Marshal(res)
	os.Stdout.Write(b)
}

// c22Opt is an option a generator has: its name on the command line, its Go field, and its kind.
var c22Opts = map[string][][3]string{
	"crd": {
		{"ignoreUnexportedFields", "IgnoreUnexportedFields", "bool"}, {"allowDangerousTypes", "AllowDangerousTypes", "true"}, {"maxDescLen", "MaxDescLen", "int"},
		{"crdVersions", "CRDVersions", "versions"}, {"generateEmbeddedObjectMeta", "GenerateEmbeddedObjectMeta", "bool"}, {"headerFile", "HeaderFile", "yamlheader"},
		{"year", "Year", "year"}, {"deprecatedV1beta1CompatibilityPreserveUnknownFields", "DeprecatedV1beta1CompatibilityPreserveUnknownFields", "bool"},
	},
	"rbac":               {{"roleName", "RoleName", "role"}, {"fileName", "FileName", "file"}, {"headerFile", "HeaderFile", "yamlheader"}, {"year", "Year", "year"}},
	"webhook":            {{"headerFile", "HeaderFile", "yamlheader"}, {"year", "Year", "year"}},
	"object":             {{"headerFile", "HeaderFile", "goheader"}, {"year", "Year", "year"}},
	"schemapatch":        {{"manifests", "ManifestsPath", "manifests"}, {"maxDescLen", "MaxDescLen", "int"}, {"generateEmbeddedObjectMeta", "GenerateEmbeddedObjectMeta", "bool"}},
	"applyconfiguration": {{"headerFile", "HeaderFile", "goheader"}},
}

func c22Str(r *rand.Rand, s string) string {
	bare := !strings.ContainsAny(s, " :,;{}=\"`'") && s != "" && s != "true" && s != "false"
	if bare && chance(r, 60) {
		return s
	}
	if chance(r, 40) && !strings.Contains(s, "`") {
		return "`" + s + "`"
	}
	return fmt.Sprintf("%q", s)
}

// c22Draw gives a generator random options: what is written, and what the fields have to be.
func c22Draw(r *rand.Rand, gen string) (string, map[string]any) {
	fields := map[string]any{}
	var parts []string
	for _, o := range c22Opts[gen] {
		must := o[2] == "role" || o[2] == "manifests"
		if !must && !chance(r, 35) {
			continue
		}
		var text string
		var v any
		switch o[2] {
		case "true":
			v, text = true, "true"
		case "bool":
			b := chance(r, 60)
			v, text = b, fmt.Sprint(b)
		case "int":
			n := pick(r, 0, 1, 8, 20, 1000)
			v, text = n, fmt.Sprint(n)
		case "versions":
			n := 1 + r.Intn(2)
			l := []string{"v1", "v1"}[:n]
			v = l
			text = pick(r, "{"+strings.Join(l, ",")+"}", strings.Join(l, ";"), "{ "+strings.Join(l, " , ")+" }")
		case "yamlheader":
			v = pick(r, "hack/header.txt", "hack/plain header.txt")
			text = c22Str(r, v.(string))
		case "goheader":
			v = pick(r, "hack/go.txt", "./hack/go2.txt")
			text = c22Str(r, v.(string))
		case "year":
			v = pick(r, "2031", "1999-2024", "year of the \"rat\"")
			if v == "2031" { // numbers are strings when quoted
				text = pick(r, `"2031"`, "`2031`", "2031")
			} else {
				text = c22Str(r, v.(string))
			}
		case "role":
			v = pick(r, "manager-role", "a:b", "my role")
			text = c22Str(r, v.(string))
		case "file":
			v = pick(r, "r.yaml", "sub/roles.yaml")
			text = c22Str(r, v.(string))
		case "manifests":
			v = pick(r, "./base", "base")
			text = c22Str(r, v.(string))
		}
		fields[o[1]] = v
		parts = append(parts, o[0]+"="+text)
	}
	r.Shuffle(len(parts), func(a, b int) { parts[a], parts[b] = parts[b], parts[a] })
	s := gen
	if len(parts) > 0 {
		s += ":" + strings.Join(parts, ",")
	}
	if chance(r, 20) {
		s = "+" + s
	}
	return s, fields
}

var c22Headers = map[string]string{
	"hack/header.txt":       "# Copyright YEAR The Authors, YEAR.\n# notYEAR YEARLY\n",
	"hack/plain header.txt": "# No year here.\n\n# second\n",
	"hack/go.txt":           "/*\nCopyright YEAR The Authors.\n*/",
	"./hack/go2.txt":        "// Copyright The Authors (c) YEAR.\n// Line two.\n",
}

func checkC22(c *Ctx) {
	c.Rule("A case is one command line: generators with random options, output rules and paths, whose artifacts are compared with those of the generators configured through their fields in process and with what the options say; or a command line with a known mistake, which must be rejected before anything is written. Distinct cases are distinct command lines and projects.")
	c.Assume("a generator configured through its Go fields does what it is configured to do; the checks of the generators judge that")
	c.Min("runs", 50)
	c.Min("artifacts", 100)
	c.Min("rejections", 60)
	n := c.N(56, 600)
	parallel(n, 8, func(i int) { c22Run(c, i) })
	c22Reject(c)
}

func c22Project(r *rand.Rand, dir string, ac bool) *fullMod {
	m := genFull(r, dir, "example.test/mod", fullOpts{apis: 2 + r.Intn(2), kinds: 1 + r.Intn(2), fields: 3, ac: ac})
	for f, s := range c22Headers {
		writeFile(filepath.Join(dir, f), s)
	}
	p := m.apis[r.Intn(len(m.apis))]
	// something for every option to act on
	writeFile(filepath.Join(dir, p.dir, "zextra.go"), fmt.Sprintf("package %s\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n// Extra is extra. It has two sentences, of which the second is long.\n// +kubebuilder:object:root=true\ntype Extra struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\t// Template holds metadata. A second sentence.\n\tTemplate Template `json:\"template\"`\n}\n\ntype Template struct {\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tA string `json:\"a\"`\n}\n", p.name))
	// packages below and beside one another, with names that begin alike
	for _, d := range []string{p.dir + "x", p.dir + "/x", m.apis[0].dir + "-x", "apix"} {
		if chance(r, 60) {
			n := fmt.Sprintf("Beside%c", 'A'+len(m.beside))
			writeFile(filepath.Join(dir, d, "types.go"), fmt.Sprintf("// Package x is x.\n// +kubebuilder:object:generate=true\n// +groupName=%s.example.test\npackage x\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n// +kubebuilder:rbac:groups=apps,resources=%s,verbs=get\n\n// %s is beside others.\n// +kubebuilder:object:root=true\ntype %s struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n}\n", strings.ToLower(n), strings.ToLower(n), n, n))
			m.beside = append(m.beside, d)
		}
	}
	writeFile(filepath.Join(dir, p.dir, "zspecial.go"), fmt.Sprintf("//go:build special\n\npackage %s\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n// +kubebuilder:object:root=true\ntype Special struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n}\n", p.name))
	return m
}

func c22Run(c *Ctx, i int) {
	r := c.Rng("case", i)
	dir := c.CaseDir("c22")
	ac := chance(r, 12)
	m := c22Project(r, dir, ac)
	self, _ := os.Executable()
	ref := func(s c22Spec) (*artifactsRes, string) {
		b, _ := json.Marshal(s)
		res := runCmd(dir, nil, toolTimeout, self, "-sub", "c22ref", string(b))
		var o artifactsRes
		if err := json.Unmarshal([]byte(res.Stdout), &o); err != nil {
			return nil, fmt.Sprintf("exit %d: %s", res.Code, clip(res.Stderr, 3000))
		}
		return &o, res.Stderr
	}
	base, msg := ref(c22Spec{Gen: "crd", Opts: map[string]any{"MaxDescLen": 0}, Tags: "ignore_autogenerated", Patterns: []string{"./..."}})
	if base == nil || base.Failed {
		c.Violate("rejected", "crd fails on a valid project: "+msg, nil, dir)
		return
	}
	for _, a := range base.Arts {
		writeFile(filepath.Join(dir, "base", a.Path), a.Data)
	}
	var gens []string
	for _, g := range c13Gens {
		if g == "applyconfiguration" {
			if ac {
				gens = append(gens, g)
			}
			continue
		}
		if chance(r, 50) {
			gens = append(gens, g)
		}
	}
	if len(gens) == 0 {
		gens = []string{"crd"}
	}
	r.Shuffle(len(gens), func(a, b int) { gens[a], gens[b] = gens[b], gens[a] })
	// paths
	var patterns, args []string
	all := len(m.pkgs)
	switch r.Intn(3) {
	case 0:
		patterns = []string{"./..."}
		args = append(args, "paths=./...")
	default:
		for _, j := range r.Perm(all)[:1+r.Intn(all)] {
			patterns = append(patterns, "./"+m.pkgs[j].dir)
		}
		for _, d := range m.beside {
			if chance(r, 60) {
				patterns = append(patterns, "./"+d)
			}
		}
		for _, p := range m.apis { // with a version comes the one that is stored
			first := m.apis[0]
			for _, q := range m.apis {
				if q.group == p.group {
					first = q
					break
				}
			}
			if l := strings.Join(patterns, " ") + " "; strings.Contains(l, "./"+p.dir+" ") && !strings.Contains(l, "./"+first.dir+" ") {
				patterns = append(patterns, "./"+first.dir)
			}
		}
		for k := range patterns {
			if chance(r, 25) {
				patterns[k] += "/..."
			}
		}
		r.Shuffle(len(patterns), func(a, b int) { patterns[a], patterns[b] = patterns[b], patterns[a] })
		for k := 0; k < len(patterns); {
			n := 1 + r.Intn(len(patterns)-k)
			if chance(r, 50) {
				n = 1
			}
			l := patterns[k : k+n]
			k += n
			if n == 1 {
				args = append(args, "paths="+c22Str(r, l[0]))
			} else {
				args = append(args, pick(r, "paths="+strings.Join(l, ";"), "paths={"+strings.Join(l, ",")+"}", "paths={"+strings.Join(l, ", ")+"}"))
			}
		}
	}
	tags := "ignore_autogenerated"
	if chance(r, 30) {
		tags = pick(r, "ignore_autogenerated,special", "special,ignore_autogenerated")
		if chance(r, 50) {
			args = append(args, "--load-build-tags="+tags)
		} else {
			for _, t := range strings.Split(tags, ",") {
				args = append(args, "--load-build-tags", t)
			}
		}
	}
	// a rule for all generators, but for those that have their own
	rule := ""
	if chance(r, 30) && !ac {
		rule = pick(r, "everything", "config")
		if chance(r, 30) {
			args = append(args, "output:dir=elsewhere", "output:dir="+rule)
		} else {
			args = append(args, "output:dir="+rule)
		}
	}
	opts := map[string]map[string]any{}
	outDir := map[string]string{}
	ruled := false
	for _, g := range gens {
		o, f := c22Draw(r, g)
		opts[g] = f
		args = append(args, o)
		if g == "applyconfiguration" {
			continue
		}
		outDir[g] = "out-" + g
		switch {
		case g == "object":
			outDir[g] = ""
			if chance(r, 30) {
				args = append(args, "output:object:none") // the last of them counts
			}
			if rule != "" || chance(r, 30) || len(args) > 0 && args[len(args)-1] == "output:object:none" {
				args = append(args, "output:object:artifacts:config=outx")
			}
		case rule != "" && !ruled: // one of them, so that nothing is written twice
			ruled = true
			outDir[g] = rule
			c.Count("default_rules", 1)
		case rule == "" && chance(r, 40):
			outDir[g] = "config/" + g // the default
		case chance(r, 15):
			args = append(args, "output:"+g+":none", "output:"+g+":dir="+outDir[g])
		default:
			args = append(args, "output:"+g+":dir="+outDir[g])
		}
	}
	// anything may stand anywhere, as long as the same options stay in order
	if chance(r, 70) {
		args = c22Mix(r, args)
	}
	want := map[string]string{}
	for _, g := range gens {
		if g == "applyconfiguration" {
			continue
		}
		o, msg := ref(c22Spec{Gen: g, Opts: opts[g], Tags: tags, Patterns: patterns})
		if o == nil || o.Failed {
			c.Violate("rejected", fmt.Sprintf("%s with %v fails on a valid project: %s", g, opts[g], msg), nil, dir)
			return
		}
		for _, a := range o.Arts {
			p := filepath.Join(outDir[g], a.Path)
			if a.Pkg != "" {
				p, _ = filepath.Rel(dir, filepath.Join(a.Dir, a.Path))
			}
			want[p] = a.Data
		}
	}
	before := snapshot(dir)
	c.Count("tool_runs", 1)
	c.Count("runs", 1)
	res := runCmd(dir, nil, toolTimeout, filepath.Join(c.Bin, "controller-gen"), args...)
	what := fmt.Sprintf("controller-gen %q", args)
	c.judgeRun(dir, res, args)
	c.Eval(fmt.Sprint(i, args))
	if res.Code != 0 {
		c.Violate("rejected", fmt.Sprintf("%s fails: %s", what, clip(res.Stderr, 3000)), nil, dir)
		return
	}
	after := snapshot(dir)
	var bad []string
	for f, s := range after {
		if old, ok := before[f]; ok && old == s && want[f] == "" {
			continue
		}
		if ac && strings.Contains(f, "/applyconfiguration/") {
			// the year in it is filled in by gengo
			if _, ok := opts["applyconfiguration"]["HeaderFile"]; ok != strings.Contains(clip(s, 120), "The Authors") {
				bad = append(bad, fmt.Sprintf("%s has the header file: want %v: %s", f, ok, clip(s, 200)))
			}
			c.Count("artifacts", 1)
			continue
		}
		w, ok := want[f]
		if !ok {
			bad = append(bad, f+" should not be written or changed")
			continue
		}
		if w != s {
			bad = append(bad, f+": "+clip(lineDiff(w, s), 800))
		}
		c.Count("artifacts", 1)
	}
	for f := range want {
		if _, ok := after[f]; !ok {
			bad = append(bad, f+" is not written")
		}
	}
	// what the options say, whoever applied them
	for _, g := range gens {
		f := opts[g]
		year, _ := f["Year"].(string)
		hdr := ""
		if h, ok := f["HeaderFile"]; ok {
			hdr = strings.ReplaceAll(c22Headers[h.(string)], " YEAR", " "+year)
			c.See("options", g+" headerFile")
		}
		for k := range f {
			c.See("options", g+" "+k)
		}
		n := 0
		for p, s := range after {
			if before[p] == s || g == "applyconfiguration" {
				continue
			}
			switch {
			case g == "object" && strings.HasSuffix(p, "zz_generated.deepcopy.go"):
				n++
				if hdr != "" && !strings.Contains(s, strings.TrimSpace(hdr)) {
					bad = append(bad, p+" has not the header "+hdr)
				}
				if hdr == "" && strings.Contains(s, "The Authors") {
					bad = append(bad, p+" has a header nobody asked for")
				}
			case outDir[g] != "" && strings.HasPrefix(p, outDir[g]+"/"):
				n++
				if !strings.HasPrefix(s, hdr+"---\n") && g != "schemapatch" {
					bad = append(bad, p+" does not begin with the header "+hdr+": "+clip(s, 200))
				}
				if g == "rbac" {
					role := f["RoleName"].(string)
					if !strings.Contains(s, "name: "+role+"\n") {
						bad = append(bad, p+" does not name the role "+role)
					}
					name := "role.yaml"
					if x, ok := f["FileName"]; ok {
						name = x.(string)
					}
					if p != outDir[g]+"/"+name {
						bad = append(bad, "roles are in "+p+", not in "+name)
					}
				}
				if n, ok := f["MaxDescLen"]; ok && n == 0 && strings.Contains(s, "description: ") {
					bad = append(bad, p+" has descriptions")
				}
				if x, ok := f["DeprecatedV1beta1CompatibilityPreserveUnknownFields"]; ok && !strings.Contains(s, fmt.Sprintf("\n  preserveUnknownFields: %v\n", x)) {
					bad = append(bad, fmt.Sprintf("%s does not say preserveUnknownFields: %v", p, x))
				}
				if g == "crd" && strings.Contains(p, "extra") {
					emb, _ := f["GenerateEmbeddedObjectMeta"].(bool)
					if emb != strings.Contains(s, "annotations:\n                      additionalProperties") && emb != strings.Contains(s, "finalizers") {
						bad = append(bad, fmt.Sprintf("%s: embedded metadata generated: want %v", p, emb))
					}
				}
			}
		}
		if g == "crd" && patterns[0] == "./..." {
			sp := false
			for p := range after {
				sp = sp || strings.HasPrefix(p, outDir[g]+"/") && strings.Contains(p, "_specials.yaml")
			}
			if sp != strings.Contains(tags, "special") {
				bad = append(bad, fmt.Sprintf("the kind that needs a build tag is there: %v, with tags %s", sp, tags))
			}
		}
	}
	if len(bad) > 0 {
		sort.Strings(bad)
		if len(bad) > 8 {
			bad = bad[:8]
		}
		c.Violate("options", what+":\n"+strings.Join(bad, "\n"), nil, dir)
		return
	}
	_ = os.RemoveAll(dir)
}

// c22Mix shuffles options, but keeps flags with their values and output rules of one generator in order.
func c22Mix(r *rand.Rand, args []string) []string {
	type item struct {
		a   []string
		key string
	}
	var items []item
	for k := 0; k < len(args); k++ {
		a := args[k]
		it := item{a: []string{a}, key: fmt.Sprint(k)}
		if a == "--load-build-tags" {
			it = item{a: args[k : k+2], key: "tags"}
			k++
		} else if p := strings.Split(a, ":"); p[0] == "output" {
			it.key = p[1]
			if len(p) == 2 { // the rule for all
				it.key = "output"
			}
		}
		items = append(items, it)
	}
	perm := r.Perm(len(items))
	// where several share a key, give them their places in order
	places := map[string][]int{}
	for pos, k := range perm {
		places[items[k].key] = append(places[items[k].key], pos)
	}
	out := make([][]string, len(items))
	next := map[string]int{}
	for _, it := range items {
		pos := places[it.key][next[it.key]]
		next[it.key]++
		out[pos] = it.a
	}
	var flat []string
	for _, a := range out {
		flat = append(flat, a...)
	}
	return flat
}

// c22Reject: command lines with one mistake.
func c22Reject(c *Ctx) {
	r := c.Rng("reject", 0)
	dir := c.CaseDir("c22r")
	c22Project(r, dir, true)
	mistakes := [][2]string{ // the mistake, and what has to be named
		{"foo", "foo"}, {"crds", "crds"}, {"crd2:maxDescLen=1", "crd2"}, {"Crd", "Crd"}, {"object:paths=./...", "paths"}, {"deepcopy", "deepcopy"},
		{"crd:nope=1", "nope"}, {"crd:maxDescLen=x", "crd:maxDescLen=x"}, {"crd:maxDescLen=1.5", "crd:maxDescLen=1.5"}, {"crd:maxDescLen=", "crd:maxDescLen="},
		{"crd:allowDangerousTypes=maybe", "allowDangerousTypes=maybe"}, {"crd:maxDescLen=1,maxdesclen=2", "maxdesclen"}, {"crd:maxDescLen=3 nope", "crd:maxDescLen=3 nope"},
		{"crd:crdVersions={v1", "crdVersions={v1"}, {"crd:headerFile=\"abc", "headerFile"}, {"crd:maxDescLen=99999999999999999999", "99999999999999999999"},
		{"rbac", "rbac"}, {"rbac:fileName=x", "rbac:fileName=x"}, {"rbac:rolename=x", "rbac:rolename=x"}, {"rbac:roleName=x,roleNames=y", "roleNames"},
		{"schemapatch", "schemapatch"}, {"schemapatch:maxDescLen=3", "schemapatch:maxDescLen=3"}, {"webhook:nothing=x", "nothing"}, {"object:year=2020,month=2", "month"},
		{"output:dir", "output:dir"}, {"output:crd:dir", "output:crd:dir"}, {"output:artifacts", "output:artifacts"}, {"output:artifacts:code=x", "output:artifacts:code=x"},
		{"output:artifacts:config=a,file=b", "file"}, {"output:file=x", "output:file"}, {"output:crd:file=x", "output:crd:file"}, {"output:nothing", "output:nothing"},
		{"output:webhook:dir=x", "webhook"}, {"output:rbac:none", "rbac"}, {"output:nope:dir=x", "output:nope:dir=x"}, {"output:crd", "output:crd"}, {"output", "output"},
		{"output:crd:crd:dir=x", "output:crd:crd:dir=x"}, {"paths", "paths"}, {"path=./...", "path"}, {"paths:./...", "paths"}, {"paths={./a", "paths"},
		{"", ""}, {"+", ""}, {"./...", "./..."}, {"--load-build-tag=x", "load-build-tag"}, {"--no-such-flag", "no-such-flag"}, {"-x", "x"},
	}
	before := treeSnap(dir)
	var mu = make(chan struct{}, 1)
	parallel(len(mistakes)+15, 8, func(i int) {
		rr := c.Rng("rejectcase", i)
		var args []string
		needle := ""
		if i < len(mistakes) {
			args = append(subset(rr, 50, "object", "output:object:artifacts:config=x"), "paths=./...", mistakes[i][0])
			if !strings.HasPrefix(strings.TrimPrefix(mistakes[i][0], "+"), "crd:") && !strings.HasPrefix(mistakes[i][0], "crd") {
				args = append(args, "crd", "output:crd:dir=rejected")
			}
			if len(args) > 0 && args[0] == "output:object:artifacts:config=x" {
				args = args[1:]
			}
			if chance(rr, 40) {
				args = append(args, "output:dir=rejected")
			}
			needle = mistakes[i][1]
		} else {
			k := i - len(mistakes)
			lists := []struct {
				args   []string
				needle string
			}{
				{[]string{"crd", "crd", "paths=./...", "output:dir=rejected"}, "crd"},
				{[]string{"crd:maxDescLen=1", "object", "crd", "paths=./..."}, "crd"},
				{[]string{"rbac:roleName=a", "paths=./...", "rbac:roleName=b"}, "rbac"},
				{[]string{"paths=./..."}, "no generators"},
				{[]string{"paths=./...", "output:dir=rejected"}, "no generators"},
				{[]string{}, "no generators"},
				{[]string{"output:stdout"}, "no generators"},
				{[]string{"+object", "object", "paths=./..."}, "object"},
				{[]string{"crd", "paths=./...", "output:object:dir=rejected"}, "object"},
				{[]string{"output:object:dir=rejected", "object:year=2", "paths=./...", "foo"}, "foo"},
				{[]string{"object", "paths=./...", "output:object:dir=rejected", "output:object:file=rejected"}, "output:object:file"},
				{[]string{"webhook", "webhook:year=1", "paths=./..."}, "webhook"},
				{[]string{"crd", "paths=./...", "output:object:dir=rejected", "output:dir=rejected"}, "object"},
				{[]string{"output:stdout", "output:webhook:none", "paths=./...", "object"}, "webhook"},
				{[]string{"output:none", "object", "output:rbac:stdout", "output:object:none", "paths=./..."}, "rbac"},
			}
			args, needle = lists[k].args, lists[k].needle
		}
		if chance(rr, 60) && i < len(mistakes) {
			rr.Shuffle(len(args), func(a, b int) { args[a], args[b] = args[b], args[a] })
		}
		c.Count("tool_runs", 1)
		c.Count("rejections", 1)
		res := runCmd(dir, nil, toolTimeout, filepath.Join(c.Bin, "controller-gen"), args...)
		c.judgeRun(dir, res, args)
		c.Eval(fmt.Sprint("reject", args))
		what := fmt.Sprintf("controller-gen %q", args)
		errLine := ""
		for _, l := range strings.Split(res.Stderr, "\n") {
			if strings.HasPrefix(l, "Error: ") {
				errLine += l
			}
		}
		if res.Code == 0 {
			c.Violate("accepted", what+" is accepted", nil, "")
			return
		}
		if !strings.Contains(errLine, needle) && !strings.Contains(errLine, fmt.Sprintf("%q", needle)) && !strings.Contains(strings.ReplaceAll(errLine, `\"`, `"`), needle) {
			c.Violate("unnamed", fmt.Sprintf("%s: %q is not named: %s", what, needle, errLine), nil, "")
			return
		}
		mu <- struct{}{}
		after := treeSnap(dir)
		<-mu
		if d := diffSnap(before, after); d != "" {
			c.Violate("wrote", what+" is rejected, but something was written: "+clip(d, 1500), nil, "")
		}
	})
	// asking for help or the version writes nothing either
	for _, args := range [][]string{{"crd", "object", "paths=./...", "-w"}, {"crd", "object", "paths=./...", "-www"}, {"object", "paths=./...", "-h"}, {"object", "paths=./...", "--version"}, {"object", "paths=./...", "--help"}, {"crd", "paths=./...", "-hhhh"}} {
		res := c.Gen(dir, args...)
		c.Count("help_runs", 1)
		if res.Code != 0 {
			c.Violate("help", fmt.Sprintf("controller-gen %q fails: %s", args, clip(res.Stderr, 2000)), nil, "")
		}
		if res.Stdout+res.Stderr == "" {
			c.Violate("help", fmt.Sprintf("controller-gen %q says nothing", args), nil, "")
		}
		if d := diffSnap(before, treeSnap(dir)); d != "" {
			c.Violate("wrote", fmt.Sprintf("controller-gen %q writes something: %s", args, clip(d, 1500)), nil, "")
		}
	}
}
