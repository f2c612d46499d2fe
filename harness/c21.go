package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/typescaffold"
)

// C21: scaffolded types, compiled, executed and put through the generators.

func init() { register("C21", checkC21) }

func checkC21(c *Ctx) {
	c.Rule("A case is one scaffold: kind, resource and scope given by flags in some notation, or the options of the package with extra help and client generation. The types are compiled, registered and copied by a program, and the CRDs written for them compared with what was asked for. Invalid names have to be rejected. Distinct cases differ in the options.")
	c.Assume("the deep copy and CRD generators work on such types; C05 and C11 judge them")
	c.Min("scaffolds", 60)
	c.Min("crds", 60)
	c.Min("programs", 2)
	c.Min("rejected", 25)
	n := c.N(8, 40)
	parallel(n, 3, func(i int) { c21Run(c, i) })
	c21Bad(c)
}

type c21Scaffold struct {
	kind, resource, plural string
	namespaced             bool
	text, how              string
	group, version, dir    string
}

// the last words of kinds, with their plurals in lower case
var c21Tails = [][2]string{{"Foo", "foos"}, {"Proxy", "proxies"}, {"Policy", "policies"}, {"Class", "classes"}, {"Box", "boxes"}, {"Ingress", "ingresses"}, {"Series", "series"}, {"Gateway", "gateways"}, {"Address", "addresses"}, {"Node", "nodes"}, {"URL", "urls"}, {"Widget", "widgets"}, {"Branch", "branches"}, {"Repository", "repositories"}, {"Status", "statuses"}, {"Spec", "specs"}, {"Type", "types"}, {"Key", "keys"}, {"Cache", "caches"}, {"List", "lists"}, {"Item", "items"}, {"Func", "funcs"}}
var c21Heads = []string{"", "", "Big", "HTTP", "Storage", "My", "API", "Cluster", "Virtual", "Go", "Object", "Meta", "Runtime", "Cron"}

func c21Gen(c *Ctx, r *rand.Rand, used map[string]bool) *c21Scaffold {
	s := &c21Scaffold{namespaced: true}
	for {
		t := pick(r, c21Tails...)
		h := pick(r, c21Heads...)
		s.kind, s.plural = h+t[0], strings.ToLower(h)+t[1]
		if h != "" && chance(r, 20) {
			h2 := pick(r, "Deep", "New", "Red", "Old") + h
			s.kind, s.plural = h2+t[0], strings.ToLower(h2)+t[1]
		}
		if !used[s.kind] {
			used[s.kind] = true
			break
		}
	}
	if chance(r, 40) {
		s.resource = pick(r, "things", "foobars", "x", "my-things", "a1", strings.ToLower(s.kind), s.plural, strings.ToLower(s.kind)+"z")
		s.plural = s.resource
	}
	if chance(r, 65) {
		// the tool
		args := pick(r, []string{"--kind", s.kind}, []string{"--kind=" + s.kind})
		if s.resource != "" {
			args = append(args, pick(r, []string{"--resource", s.resource}, []string{"--resource=" + s.resource})...)
		} else if chance(r, 10) {
			args = append(args, "--resource=")
		}
		switch r.Intn(5) {
		case 0:
			args = append(args, pick(r, "--namespaced", "--namespaced=true", "--namespaced=1"))
		case 1, 2:
			args = append(args, pick(r, "--namespaced=false", "--namespaced=0", "--namespaced=F"))
			s.namespaced = false
		}
		c.Count("tool_runs", 1)
		res := runCmd(c.Scratch, nil, toolTimeout, filepath.Join(c.Bin, "type-scaffold"), args...)
		s.how = "type-scaffold " + strings.Join(args, " ")
		if res.Code != 0 || res.Stderr != "" {
			c.Violate("rejected", s.how+" fails: "+clip(res.Stderr, 2000), nil, "")
			return nil
		}
		s.text = res.Stdout
	} else {
		o := &typescaffold.ScaffoldOptions{Resource: typescaffold.Resource{Kind: s.kind, Resource: s.resource, Namespaced: chance(r, 50)}, GenerateClients: chance(r, 50)}
		s.namespaced = o.Resource.Namespaced
		if chance(r, 60) {
			o.AdditionalHelp = pick(r, "Some help.", "Some help.\nMore of it.", "a\n\nb\n", "}\ntype Broken struct {\n*/ /*", "\"`'{{.}} %s\\", "tab\there")
		}
		s.how = fmt.Sprintf("%+v", *o)
		if err := o.Validate(); err != nil {
			c.Violate("rejected", s.how+": "+err.Error(), nil, "")
			return nil
		}
		var b, b2 bytes.Buffer
		if err := o.Scaffold(&b); err != nil {
			c.Violate("rejected", s.how+": "+err.Error(), nil, "")
			return nil
		}
		if err := o.Scaffold(&b2); err != nil || b2.String() != b.String() {
			c.Violate("unstable", s.how+": a second scaffold differs from the first", nil, "")
		}
		if err := o.Scaffold(failWriter{}); err == nil {
			c.Violate("writer", s.how+": the error of the writer is lost", nil, "")
		}
		s.text = b.String()
		for _, l := range strings.Split(o.AdditionalHelp, "\n") {
			if l = strings.TrimSpace(l); l != "" && strings.Count(s.text, l) < 2 {
				c.Violate("help", s.how+": the additional help is not in the scaffold of both specification and status", nil, "")
			}
		}
		if g := strings.Contains(s.text, "+genclient\n"); g != o.GenerateClients {
			c.Violate("genclient", fmt.Sprintf("%s: marked for client generation: %v", s.how, g), nil, "")
		}
		if g := strings.Contains(s.text, "+genclient:nonNamespaced\n"); g != (o.GenerateClients && !o.Resource.Namespaced) {
			c.Violate("genclient", fmt.Sprintf("%s: marked as not namespaced for client generation: %v", s.how, g), nil, "")
		}
	}
	return s
}

type failWriter struct{}

func (failWriter) Write([]byte) (int, error) { return 0, fmt.Errorf("the disk is full") }

func c21Run(c *Ctx, i int) {
	r := c.Rng("scaffold", i)
	dir := c.CaseDir("c21")
	mod := "example.test/mod"
	newModule(dir, mod)
	var all []*c21Scaffold
	var imp, body strings.Builder
	for k := 0; k < 7; k++ {
		// several kinds in one package
		used := map[string]bool{}
		version := pick(r, "v1", "v1alpha1", "v2beta3")
		group := fmt.Sprintf("g%d.test", k)
		pdir := fmt.Sprintf("api/g%d/%s", k, version)
		src := "// +groupName=" + group + "\n"
		if chance(r, 50) {
			src += pick(r, "// +kubebuilder:object:generate=true\n", "// +k8s:deepcopy-gen=package,register\n", "// +k8s:deepcopy-gen=package\n")
		}
		src += "package " + version + "\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n"
		names := map[string]bool{} // of the types
		resources := map[string]bool{}
		for j := 0; j < 4; j++ {
			s := c21Gen(c, r, used)
			if s == nil {
				continue
			}
			clash := resources[s.plural]
			for _, suffix := range []string{"", "Spec", "Status", "List"} {
				clash = clash || names[s.kind+suffix]
			}
			if clash {
				continue
			}
			resources[s.plural] = true
			for _, suffix := range []string{"", "Spec", "Status", "List"} {
				names[s.kind+suffix] = true
			}
			c.Eval(s.how)
			s.group, s.version, s.dir = group, version, pdir
			if chance(r, 50) {
				src += s.text + "\n"
			} else {
				writeFile(filepath.Join(dir, pdir, fmt.Sprintf("f%d.go", j)), "package "+version+"\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n"+s.text)
			}
			all = append(all, s)
			c.Count("scaffolds", 1)
			fmt.Fprintf(&body, "\ttry(%q, schema.GroupVersion{Group: %q, Version: %q}, &p%d.%s{}, &p%d.%sList{Items: []p%d.%s{{}, {}}}, func() any { return &p%d.%s{Spec: p%d.%sSpec{}, Status: p%d.%sStatus{}} })\n", s.kind, group, version, k, s.kind, k, s.kind, k, s.kind, k, s.kind, k, s.kind, k, s.kind)
		}
		writeFile(filepath.Join(dir, pdir, "types.go"), src+"\nvar _ metav1.TypeMeta\n")
		fmt.Fprintf(&imp, "\tp%d %q\n", k, mod+"/"+pdir)
	}
	how := func() string {
		var b strings.Builder
		for _, s := range all {
			fmt.Fprintf(&b, "%s: %s\n", s.dir, s.how)
		}
		return b.String()
	}
	files := map[string]string{"scaffolds.txt": how()}
	before := snapshot(dir)
	res := c.Gen(dir, "object", "crd", "paths=./...", "output:crd:dir=crds")
	if res.Code != 0 || strings.TrimSpace(res.Stderr) != "" {
		c.Violate("generators", fmt.Sprintf("the generators fail or complain (exit %d) about scaffolded types: %s", res.Code, clip(res.Stderr, 3000)), files, dir)
		return
	}
	_ = before
	// the CRDs
	want := map[string]*c21Scaffold{}
	for _, s := range all {
		want[fmt.Sprintf("%s_%s.yaml", s.group, s.plural)] = s
	}
	ents, _ := os.ReadDir(filepath.Join(dir, "crds"))
	for _, e := range ents {
		s := want[e.Name()]
		if s == nil {
			c.Violate("crd", "an unexpected CRD "+e.Name(), files, dir)
			continue
		}
		delete(want, e.Name())
		v, err := yamlToAny(readFile(filepath.Join(dir, "crds", e.Name())))
		if err != nil {
			c.Violate("crd", fmt.Sprintf("%s does not parse: %v", e.Name(), err), files, dir)
			continue
		}
		c.Count("crds", 1)
		scope := "Namespaced"
		if !s.namespaced {
			scope = "Cluster"
		}
		for _, x := range []struct {
			want string
			path []string
		}{
			{s.plural + "." + s.group, []string{"metadata", "name"}},
			{s.group, []string{"spec", "group"}},
			{s.kind, []string{"spec", "names", "kind"}},
			{s.kind + "List", []string{"spec", "names", "listKind"}},
			{s.plural, []string{"spec", "names", "plural"}},
			{strings.ToLower(s.kind), []string{"spec", "names", "singular"}},
			{scope, []string{"spec", "scope"}},
		} {
			if got := asStr(jget(v, x.path...)); got != x.want {
				c.Violate("crd", fmt.Sprintf("%s: the CRD says %s is %q, not %q", s.how, strings.Join(x.path, "."), got, x.want), files, dir)
			}
		}
		vs := asSlice(jget(v, "spec", "versions"))
		if len(vs) != 1 || asStr(jget(vs[0], "name")) != s.version {
			c.Violate("crd", fmt.Sprintf("%s: the CRD's versions are %s", s.how, canon(vs)), files, dir)
			continue
		}
		props, _ := jget(vs[0], "schema", "openAPIV3Schema", "properties").(map[string]any)
		if got := strings.Join(sortedKeys(props), " "); got != "apiVersion kind metadata spec status" {
			c.Violate("crd", fmt.Sprintf("%s: the CRD's properties are %s", s.how, got), files, dir)
		}
		for _, p := range []string{"spec", "status"} {
			if t := asStr(jget(props[p], "type")); t != "object" {
				c.Violate("crd", fmt.Sprintf("%s: the CRD's %s is of type %q", s.how, p, t), files, dir)
			}
		}
	}
	for f, s := range want {
		c.Violate("crd", fmt.Sprintf("%s: no CRD %s", s.how, f), files, dir)
	}
	// the program
	writeFile(filepath.Join(dir, "cmd", "main.go"), `package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"

	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
`+imp.String()+`)

func fail(format string, a ...any) { fmt.Printf("FAIL "+format+"\n", a...) }

func try(kind string, gv schema.GroupVersion, o, l runtime.Object, mk func() any) {
	s := runtime.NewScheme()
	s.AddKnownTypes(gv, o, l)
	metav1.AddToGroupVersion(s, gv)
	for k, x := range map[string]runtime.Object{kind: o, kind + "List": l} {
		n, err := s.New(gv.WithKind(k))
		if err != nil {
			fail("%s: %v", k, err)
		} else if reflect.TypeOf(n) != reflect.TypeOf(x) {
			fail("%s: the scheme makes a %T", k, n)
		}
	}
	a, err := meta.Accessor(o)
	if err != nil {
		fail("%s: %v", kind, err)
		return
	}
	a.SetName("n")
	a.SetLabels(map[string]string{"a": "b"})
	c := o.DeepCopyObject()
	if !reflect.DeepEqual(o, c) || reflect.TypeOf(c) != reflect.TypeOf(o) {
		fail("%s: the copy differs", kind)
	}
	a.GetLabels()["a"] = "changed"
	ca, _ := meta.Accessor(c)
	if ca.GetLabels()["a"] != "b" {
		fail("%s: the copy shares its labels", kind)
	}
	lc := l.DeepCopyObject()
	if !reflect.DeepEqual(l, lc) {
		fail("%sList: the copy differs", kind)
	}
	items, err := meta.ExtractList(l)
	if err != nil || len(items) != 2 {
		fail("%sList: %v, %d items", kind, err, len(items))
	} else if reflect.TypeOf(items[0]) != reflect.TypeOf(o) {
		fail("%sList: items are %T", kind, items[0])
	} else {
		ia, _ := meta.Accessor(items[0])
		ia.SetName("changed")
		citems, _ := meta.ExtractList(lc)
		if x, _ := meta.Accessor(citems[0]); x.GetName() != "" {
			fail("%sList: the copy shares its items", kind)
		}
	}
	if _, err := meta.ListAccessor(l); err != nil {
		fail("%sList: %v", kind, err)
	}
	b, err := json.Marshal(mk())
	if err != nil {
		fail("%s: %v", kind, err)
	}
	var m map[string]any
	if err := json.Unmarshal(b, &m); err != nil || len(m) != 3 {
		fail("%s: encodes as %s", kind, b)
	}
	in := []byte(fmt.Sprintf("{\"apiVersion\":%q,\"kind\":%q,\"metadata\":{\"name\":\"x\"},\"spec\":{},\"status\":{}}", gv, kind))
	n, _ := s.New(gv.WithKind(kind))
	d := json.NewDecoder(bytes.NewReader(in))
	d.DisallowUnknownFields()
	if err := d.Decode(n); err != nil {
		fail("%s: %v", kind, err)
	}
	if k := n.GetObjectKind().GroupVersionKind(); k != gv.WithKind(kind) {
		fail("%s: decodes as %s", kind, k)
	}
	fmt.Println("OK")
}

func main() {
`+body.String()+`	fmt.Println("DONE")
}
`)
	out := runCmd(dir, nil, 2*toolTimeout, "go", "run", "./cmd")
	if out.TimedOut {
		c.Inconclusive("compiling takes too long")
		return
	}
	if out.Code != 0 || !strings.Contains(out.Stdout, "DONE\n") {
		c.Violate("compile", "scaffolded types with their generated methods do not compile or run: "+clip(out.Stderr, 3000), files, dir)
		return
	}
	c.Count("programs", 1)
	c.Count("tried", int64(strings.Count(out.Stdout, "OK\n")))
	for _, l := range strings.Split(out.Stdout, "\n") {
		if strings.HasPrefix(l, "FAIL ") {
			c.Violate("behaviour", l[5:], files, dir)
		}
	}
	_ = os.RemoveAll(dir)
}

// c21Bad scaffolds what cannot be scaffolded.
func c21Bad(c *Ctx) {
	r := c.Rng("bad", 0)
	bad := [][]string{
		{}, {"--kind"}, {"--kind", ""}, {"--kind="}, {"--kind", "Foo", "--namespaced=maybe"}, {"--kind", "Foo", "--unknown"}, {"--kind", "Foo", "--kind", "foo"},
	}
	kinds := []string{"foo", "fooBar", "Foo_Bar", "Foo-Bar", "Foo Bar", " Foo", "Foo ", "Foo.Bar", "2Foo", "9", "_Foo", "Foo!", "Foo/Bar", "Foo{}", "Foo\n", "Foo\ntype X int", "Foo;", "F\"oo", "Foo`", "Müller", "Éa", "日本", "Foo日", "Foo\x00", "$Foo", "Foo[T any]", "*Foo", "Foo,Bar", "Foo:Bar", "func", "type", strings.Repeat("Long", 20)}
	for i := 0; i < c.N(8, 200); i++ { // a foreign character somewhere
		k := []rune(pick(r, c21Tails...)[0])
		at := r.Intn(len(k) + 1)
		x := []rune(pick(r, "_", "-", " ", ".", "/", "!", "é", "ß", "\t", "+", "~", "λ", "$", "{", "}", "\"", "\\", "%", "#", "😀", "１"))
		kinds = append(kinds, string(k[:at])+string(x)+string(k[at:]))
	}
	for _, k := range kinds {
		if strings.Contains(k, "\x00") {
			continue
		}
		bad = append(bad, []string{"--kind", k})
	}
	parallel(len(bad), 8, func(i int) {
		args := bad[i]
		c.Count("tool_runs", 1)
		c.Eval("bad " + strings.Join(args, " "))
		res := runCmd(c.Scratch, nil, toolTimeout, filepath.Join(c.Bin, "type-scaffold"), args...)
		if res.Code == 0 {
			c.Violate("accepted", fmt.Sprintf("type-scaffold %q succeeds: %s", args, clip(res.Stdout, 500)), nil, "")
		} else if res.Panicked() || res.TimedOut {
			c.Violate("panic", fmt.Sprintf("type-scaffold %q: %s", args, clip(res.Stderr, 2000)), nil, "")
		} else if strings.TrimSpace(res.Stderr) == "" {
			c.Violate("silent", fmt.Sprintf("type-scaffold %q fails without a word", args), nil, "")
		} else if strings.Contains(res.Stdout, "struct {") {
			c.Violate("output", fmt.Sprintf("type-scaffold %q fails, but writes types", args), nil, "")
		} else {
			c.Count("rejected", 1)
		}
	})
	for _, k := range kinds {
		o := typescaffold.ScaffoldOptions{Resource: typescaffold.Resource{Kind: k}}
		if err := o.Validate(); err == nil {
			c.Violate("accepted", fmt.Sprintf("kind %q is valid", k), nil, "")
		}
	}
	// an output that cannot be written
	full := runCmd(c.Scratch, nil, toolTimeout, "bash", "-c", `"$0" --kind Foo > /dev/full`, filepath.Join(c.Bin, "type-scaffold"))
	if full.Code == 0 {
		c.Violate("writer", "type-scaffold succeeds although its output cannot be written", nil, "")
	}
}
