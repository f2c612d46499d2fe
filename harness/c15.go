package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"
)

// C15: manifests before and after patching, node by node.

func init() { register("C15", checkC15) }

func checkC15(c *Ctx) {
	c.Rule("A case is one directory of manifests, with comments, unknown keys, kinds and versions, other documents and other files, patched from a random project. Every document before and after is compared node by node, the schemas with what the CRD generator writes for that version, and a second run with the first. Distinct cases differ in project and manifests.")
	c.Assume("the schemas in the CRD generator's output are right; other checks judge them")
	c.Min("documents", 150)
	c.Min("schemas", 150)
	c.Min("comments", 400)
	c.Min("unknown_kinds", 15)
	c.Min("reruns", 20)
	n := c.N(48, 500)
	parallel(n, 8, func(i int) { c15Run(c, i) })
	c15Bad(c)
}

// c15Bad patches manifests that cannot be patched: an error, and the manifest stays as it is.
func c15Bad(c *Ctx) {
	head := "apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\n"
	spec := head + "spec:\n  group: g.test\n  names: {kind: K}\n"
	cases := []struct {
		name, text string
		fails      bool
	}{
		{"noname", spec + "  versions:\n  - name: v1\n  - served: true\n", true},
		{"emptyname", spec + "  versions:\n  - name: v1\n  - name: \"\"\n", true},
		{"old", "apiVersion: apiextensions.k8s.io/v1beta1\nkind: CustomResourceDefinition\n", true},
		{"scalarschema", spec + "  versions:\n  - name: v1\n    schema: x\n", true},
		{"listschema", spec + "  versions:\n  - name: v1\n    schema: []\n", true},
		{"second", spec + "  versions:\n  - name: v1\n---\n" + spec + "  versions:\n  - name: v1\n    schema: x\n", true},
		{"noversions", spec, false},
		{"nospec", head, false},
		{"nothing", spec + "  versions: []\n", false},
		{"mapspec", head + "spec: []\n", false},
		{"scalar", head + "spec: x\n", false},
	}
	parallel(len(cases), 8, func(i int) {
		x := cases[i]
		dir := c.CaseDir("c15bad")
		newModule(dir, "example.test/mod")
		writeFile(filepath.Join(dir, "v1", "t.go"), "// +groupName=g.test\n"+c15Kind("v1", "K", "\tA string `json:\"a\"`\n", false))
		writeFile(filepath.Join(dir, "m", "m.yaml"), x.text)
		before := snapshot(dir)
		res := c.Gen(dir, "schemapatch:manifests=m", "paths=./...", "output:dir=m")
		c.Eval("bad " + x.name)
		c.Count("unpatchable", 1)
		if x.fails && res.Code == 0 {
			c.Violate("accepted", "schemapatch succeeds on the manifest of case "+x.name+":\n"+x.text, nil, dir)
		} else if !x.fails && res.Code != 0 {
			c.Violate("rejected", "schemapatch fails on the manifest of case "+x.name+": "+clip(res.Stderr, 2000)+"\n"+x.text, nil, dir)
		} else if res.Panicked() {
			c.Violate("panic", "schemapatch panics on the manifest of case "+x.name+": "+clip(res.Stderr, 2000), nil, dir)
		} else if x.fails {
			if d := diffSnap(before, snapshot(dir)); d != "" {
				c.Violate("patch", "schemapatch fails on the manifest of case "+x.name+", but changes something: "+clip(d, 2000), nil, dir)
			}
		}
		_ = os.RemoveAll(dir)
	})
}

// c15Nasty are strings that need care in YAML.
var c15Nasty = []string{"yes", "no", "on", "null", "~", "1", "1.0", "1e3", "0x10", "0o17", "1:30", "2001-01-01", "true", "", " lead", "trail ", "a: b", "a #b", "# c", "- d", "[x", "{y", "*z", "&w", "!v", "%u", "@t", "|", ">", "'", "\\", "é", "日本", "😀", "<a>&", "=", "<<", ".", "..", "...", "---", "a\\tb"}

type c15Doc struct {
	crd      bool
	group    string
	kind     string
	versions []string
	known    bool
	text     string
}

func c15Run(c *Ctx, i int) {
	r := c.Rng("case", i)
	dir := c.CaseDir("c15")
	m := genFull(r, dir, "example.test/mod", fullOpts{apis: 2 + r.Intn(2), kinds: 1 + r.Intn(2), fields: 3, noRBAC: true, noWebhooks: true})
	// a kind of one version only, a package that adds to the group and version of another one, and a kind that is hard to write
	first := m.apis[0]
	writeFile(filepath.Join(dir, first.dir, "zonly.go"), c15Kind(first.name, "Only", "\tA string `json:\"a\"`\n", false))
	writeFile(filepath.Join(dir, "api", "second", "types.go"), fmt.Sprintf("// Package second is a part of the group.\n// +groupName=%s\n// +versionName=%s\npackage second\n", first.group, first.version)+strings.TrimPrefix(c15Kind("second", "Second", "\tA string `json:\"a\"`\n", true), "package second\n"))
	var nasty strings.Builder
	for k, s := range c15Nasty {
		if chance(r, 50) {
			continue
		}
		switch r.Intn(4) {
		case 0:
			fmt.Fprintf(&nasty, "\t// +kubebuilder:validation:Enum=%q;%q\n", s, "other")
		case 1:
			fmt.Fprintf(&nasty, "\t// +kubebuilder:default=%q\n", s)
		case 2:
			fmt.Fprintf(&nasty, "\t// +kubebuilder:example=%q\n", s)
		default:
			fmt.Fprintf(&nasty, "\t// Doc: %s\n\t//\n\t//   %s: |\n\t//     x\n\t//\n\t// end: %q #\n", s, s, s)
		}
		fmt.Fprintf(&nasty, "\tN%d string `json:\"n%d\"`\n", k, k)
	}
	for k, s := range []string{"y", "n", "on", "off", "yes", "no", "true", "null", "~", "1", "01", "0x1", "1e3", "1_000", ".5", "a.b", "=", "<<", "-", "2001-01-01", "12:30:45", "$ref", "x y", "a:b", "é"} {
		if chance(r, 50) {
			fmt.Fprintf(&nasty, "\tK%d %s `json:%q`\n", k, pick(r, "string", "*bool", "[]string"), s+pick(r, "", ",omitempty"))
		}
	}
	nasty.WriteString("\t// +kubebuilder:validation:Minimum=-5\n\t// +kubebuilder:validation:Maximum=1000000000\n\t// +kubebuilder:validation:MultipleOf=2\n\tNum int64 `json:\"num\"`\n\t// +kubebuilder:default={a:{1,2},b:\"x\",c:true}\n\tObj map[string]string `json:\"obj\"`\n\tMeta metav1.ObjectMeta `json:\"meta\"`\n")
	writeFile(filepath.Join(dir, first.dir, "znasty.go"), c15Kind(first.name, "Nasty", nasty.String(), false))

	opts := subset(r, 40, "maxDescLen="+fmt.Sprint(pick(r, 0, 10, 60)), "generateEmbeddedObjectMeta=true")
	crdOpt := "crd"
	if len(opts) > 0 {
		crdOpt += ":" + strings.Join(opts, ",")
	}
	ref := c.Gen(dir, crdOpt, "paths=./...", "output:dir=ref")
	if ref.Code != 0 {
		c.Violate("rejected", "controller-gen crd fails on a valid project: "+clip(ref.Stderr, 3000), nil, dir)
		return
	}
	// group/kind -> version -> schema
	schemas := map[string]map[string]any{}
	for f, s := range snapshot(filepath.Join(dir, "ref")) {
		v, err := yamlToAny(strings.TrimPrefix(s, "---\n"))
		if err != nil {
			c.Violate("rejected", "the CRD generator's "+f+" does not parse: "+err.Error(), nil, dir)
			return
		}
		spec := v.(map[string]any)["spec"].(map[string]any)
		gk := spec["group"].(string) + "/" + spec["names"].(map[string]any)["kind"].(string)
		schemas[gk] = map[string]any{}
		for _, x := range spec["versions"].([]any) {
			x := x.(map[string]any)
			schemas[gk][x["name"].(string)] = x["schema"].(map[string]any)["openAPIV3Schema"]
		}
	}
	_ = os.RemoveAll(filepath.Join(dir, "ref"))
	// manifests
	mdir := filepath.Join(dir, "manifests")
	files := map[string][]*c15Doc{}
	n := 0
	for _, gk := range sortedKeys(schemas) {
		if chance(r, 10) {
			continue // no manifest
		}
		g, k := filepath.Split(gk)
		vs := sortedKeys(schemas[gk])
		copies := 1
		if chance(r, 10) {
			copies = 2
		}
		for j := 0; j < copies; j++ {
			d := &c15Doc{crd: true, group: strings.TrimSuffix(g, "/"), kind: k, known: true}
			d.versions = subset(r, 80, vs...)
			if len(d.versions) == 0 {
				d.versions = vs
			}
			if chance(r, 30) {
				d.versions = append(d.versions, pick(r, "v0", "v9", "v1alpha7"))
			}
			if chance(r, 30) { // a version the group has, but not this kind
				for _, p := range m.apis {
					if p.group == d.group && schemas[gk][p.version] == nil {
						d.versions = uniqSorted(append(d.versions, p.version))
					}
				}
			}
			r.Shuffle(len(d.versions), func(a, b int) { d.versions[a], d.versions[b] = d.versions[b], d.versions[a] })
			n++
			files[fmt.Sprintf("f%d.yaml", n)] = []*c15Doc{d}
		}
	}
	for j := 0; j < 1+r.Intn(2); j++ {
		n++
		d := &c15Doc{crd: true, group: pick(r, first.group, "unknown.test"), kind: fmt.Sprintf("Unknown%d", j), versions: []string{"v1"}}
		if chance(r, 50) {
			d.kind, d.group = first.kinds[0], "unknown.test"
		}
		files[fmt.Sprintf("f%d.yaml", n)] = []*c15Doc{d}
	}
	names := sortedKeys(files)
	for _, f := range names { // some files have several documents
		if chance(r, 25) {
			docs := files[f]
			if chance(r, 50) {
				docs = append(docs, &c15Doc{})
			}
			if chance(r, 50) {
				o := names[r.Intn(len(names))]
				if o != f && len(files[o]) == 1 {
					docs = append(docs, files[o]...)
					delete(files, o)
				}
			}
			if chance(r, 30) {
				docs = append([]*c15Doc{{}}, docs...)
			}
			if files[f] != nil {
				files[f] = docs
			}
		}
	}
	for f, docs := range files {
		var parts []string
		for _, d := range docs {
			d.text = c15Text(r, d)
			parts = append(parts, d.text)
		}
		s := strings.Join(parts, "---\n")
		if chance(r, 40) {
			s = "---\n" + s
		} else if chance(r, 30) {
			s = "# A license.\n# Of two lines.\n\n" + s
		}
		if chance(r, 10) {
			s = strings.TrimSuffix(s, "\n")
		}
		writeFile(filepath.Join(mdir, f), s)
	}
	// what is not for patching
	other := map[string]string{
		"README.md": "# Not YAML\n", "kustomization.yaml": "resources:\n  - a.yaml   # odd   spacing\n", "cr.yaml": "apiVersion: " + first.group + "/v1\nkind: " + first.kinds[0] + "\nmetadata: {name:   x}\n",
		"crd.yml": "apiVersion: apiextensions.k8s.io/v1\nkind: CustomResourceDefinition\nmetadata:   {name:   y}\n", "broken.yaml": "a: [\n", "template.yaml": "{{ if x }}\napiVersion: apiextensions.k8s.io/v1\n", "empty.yaml": "",
		"sub/crd.yaml": "apiVersion: apiextensions.k8s.io/v1\nkind:    CustomResourceDefinition\n", "dir.yaml/x": "x\n", "list.yaml": "apiVersion: v1\nkind: List\nitems:   []\n", "crd.json": "{}",
	}
	for f, s := range other {
		if chance(r, 70) {
			writeFile(filepath.Join(mdir, f), s)
		}
	}
	before := snapshot(dir)
	inPlace := chance(r, 50)
	out := "out"
	if inPlace {
		out = "manifests"
	}
	arg := "schemapatch:" + strings.Join(append(opts, "manifests=./manifests"), ",")
	args := []string{arg, "paths=./...", "output:dir=" + out}
	res := c.Gen(dir, args...)
	what := "controller-gen " + strings.Join(args, " ")
	c.Eval(fmt.Sprint(i, len(files)))
	if res.Code != 0 || strings.TrimSpace(res.Stderr) != "" {
		c.Violate("rejected", fmt.Sprintf("%s fails (%d) on valid manifests:\n%s", what, res.Code, clip(res.Stderr, 3000)), nil, dir)
		return
	}
	after := snapshot(dir)
	var bad []string
	for _, f := range sortedKeys(files) {
		p := filepath.Join(out, f)
		s, ok := after[p]
		if !ok {
			bad = append(bad, p+" is not written")
			continue
		}
		for _, b := range c15Compare(c, before[filepath.Join("manifests", f)], s, files[f], schemas) {
			bad = append(bad, p+": "+b)
		}
	}
	for _, p := range sortedKeys(after) {
		old, had := before[p]
		if filepath.Dir(p) == out && files[filepath.Base(p)] != nil {
			continue
		}
		if !had {
			bad = append(bad, p+" should not be written")
		} else if old != after[p] {
			bad = append(bad, p+" should not be changed")
		}
	}
	for p := range before {
		if _, ok := after[p]; !ok {
			bad = append(bad, p+" is gone")
		}
	}
	if len(bad) == 0 {
		// once more, from what was written
		if !inPlace {
			args = []string{strings.Replace(arg, "./manifests", "./out", 1), "paths=./...", "output:dir=out"}
		}
		c.Count("reruns", 1)
		res = c.Gen(dir, args...)
		if res.Code != 0 {
			bad = append(bad, "patching again fails: "+clip(res.Stderr, 2000))
		} else if d := diffSnap(after, snapshot(dir)); d != "" {
			bad = append(bad, "patching again changes something: "+clip(d, 2000))
		}
	}
	if len(bad) > 0 {
		if len(bad) > 8 {
			bad = bad[:8]
		}
		c.Violate("patch", what+":\n"+strings.Join(bad, "\n"), nil, dir)
		return
	}
	_ = os.RemoveAll(dir)
}

func c15Kind(pkg, kind, fields string, ac bool) string {
	return fmt.Sprintf("package %s\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n// %s is a kind.\n// +kubebuilder:object:root=true\n// +kubebuilder:storageversion\ntype %s struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec %sSpec `json:\"spec\"`\n}\n\ntype %sSpec struct {\n%s}\n", pkg, kind, kind, kind, kind, fields)
}

// c15Text writes a document by hand.
func c15Text(r *rand.Rand, d *c15Doc) string {
	var b strings.Builder
	cm := 0
	ind := 0
	// line writes a line, with comments before or behind it at times
	line := func(s string, noComment ...bool) {
		pad := strings.Repeat(" ", ind)
		if len(noComment) == 0 && chance(r, 12) {
			cm++
			fmt.Fprintf(&b, "%s# comment %d\n", pad, cm)
		}
		fmt.Fprintf(&b, "%s%s", pad, s)
		if len(noComment) == 0 && chance(r, 12) && !strings.HasSuffix(s, ":") && !strings.HasSuffix(s, "|") {
			cm++
			fmt.Fprintf(&b, " # behind %d", cm)
		}
		b.WriteString("\n")
	}
	in := func(f func()) { ind += 2; f(); ind -= 2 }
	shuffle := func(fs ...func()) {
		r.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
		for _, f := range fs {
			f()
		}
	}
	if !d.crd {
		line("apiVersion: " + pick(r, "v1", "apps/v1"))
		line("kind: " + pick(r, "ConfigMap", "Secret", "CustomResource"))
		line("data:", true)
		in(func() {
			line("a: \"1\"")
			line("b: yes")
			line("c: |", true)
			b.WriteString("    text\n     indented\n")
		})
		return b.String()
	}
	line("apiVersion: " + pick(r, "apiextensions.k8s.io/v1", "\"apiextensions.k8s.io/v1\""))
	line("kind: CustomResourceDefinition")
	shuffle(func() {
		line("metadata:", true)
		in(func() {
			shuffle(func() { line("name: " + strings.ToLower(d.kind) + "s." + d.group) },
				func() {
					line("annotations:", true)
					in(func() {
						line("example.test/a: \"true\"")
						line("example.test/b: 'it''s'")
						line("x: |-", true)
						b.WriteString("      several\n      lines\n")
					})
				},
				func() {
					if chance(r, 50) {
						line("labels: {}")
					}
				})
		})
	}, func() {
		if chance(r, 40) {
			line("status:", true)
			in(func() { line("conditions: []"); line("storedVersions: [v1,   v2]") })
		}
	}, func() {
		line("spec:", true)
		in(func() {
			shuffle(
				func() { line("group: " + d.group) },
				func() {
					if chance(r, 50) {
						line("scope: Namespaced")
					}
				},
				func() {
					line("names:", true)
					in(func() {
						shuffle(func() { line("kind: " + d.kind) }, func() { line("plural: " + strings.ToLower(d.kind) + "s") }, func() { line("shortNames: [a, b]") },
							func() { line("unknownKey: 0x10") }, func() { line("listKind: " + d.kind + "List") })
					})
				},
				func() {
					if chance(r, 30) {
						line("conversion:", true)
						in(func() {
							line("strategy: Webhook")
							line("webhook:", true)
							in(func() { line("clientConfig: {caBundle: Cg==}") })
						})
					}
				},
				func() {
					if chance(r, 30) {
						line("validation:", true)
						in(func() {
							line("openAPIV3Schema:", true)
							in(func() { line("type: object", true) })
						})
					}
				},
				func() {
					if chance(r, 20) {
						line("preserveUnknownFields: false")
					}
				},
				func() {
					line("versions:", true)
					for _, v := range d.versions {
						var parts []func()
						parts = append(parts, func() { line(pick(r, "name: "+v, "name: \""+v+"\"")) })
						if chance(r, 70) {
							parts = append(parts, func() { line("served: true") }, func() { line("storage: " + pick(r, "true", "false")) })
						}
						if chance(r, 50) {
							parts = append(parts, func() {
								line("additionalPrinterColumns:", true)
								line("- jsonPath: .a")
								in(func() { line("name: A"); line("type: string") })
							})
						}
						if chance(r, 50) {
							parts = append(parts, func() { line("subresources: {status: {}}") })
						}
						if chance(r, 75) {
							parts = append(parts, func() {
								line("schema:", true)
								in(func() {
									line("openAPIV3Schema:", true)
									in(func() {
										line("description: old", true)
										line("type: object", true)
										if chance(r, 50) {
											line("properties:", true)
											in(func() { line("old: {type: string}", true) })
										}
									})
								})
							})
						}
						r.Shuffle(len(parts), func(a, b int) { parts[a], parts[b] = parts[b], parts[a] })
						// the dash goes where the first line begins
						start := b.Len()
						in(func() {
							for _, f := range parts {
								f()
							}
						})
						s := b.String()
						head, body := s[:start], s[start:]
						b.Reset()
						b.WriteString(head + c15Dash(body, ind))
					}
				})
		})
	})
	return b.String()
}

// c15Dash makes a sequence item of lines indented by ind+2.
func c15Dash(body string, ind int) string {
	lines := strings.SplitAfter(body, "\n")
	for k, l := range lines {
		if strings.HasPrefix(strings.TrimSpace(l), "#") {
			lines[k] = l[2:]
			continue
		}
		lines[k] = l[:ind] + "- " + l[ind+2:]
		break
	}
	return strings.Join(lines, "")
}

func yamlDocs(s string) ([]*yaml.Node, error) {
	dec := yaml.NewDecoder(bytes.NewReader([]byte(s)))
	var out []*yaml.Node
	for {
		n := &yaml.Node{}
		err := dec.Decode(n)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		out = append(out, n)
	}
}

var commentRE = regexp.MustCompile(`#[^\n]*`)

func c15Compare(c *Ctx, before, after string, docs []*c15Doc, schemas map[string]map[string]any) []string {
	old, err := yamlDocs(before)
	if err != nil {
		panic(fmt.Sprintf("%v\n%s", err, before))
	}
	new, err := yamlDocs(after)
	if err != nil {
		return []string{"does not parse: " + err.Error() + "\n" + after}
	}
	if len(old) != len(docs) {
		panic(fmt.Sprintf("%d documents of %d:\n%s", len(old), len(docs), before))
	}
	if len(new) != len(docs) {
		return []string{fmt.Sprintf("has %d documents, was %d", len(new), len(docs))}
	}
	var bad []string
	var oldC, newC []string
	for k, d := range docs {
		c.Count("documents", 1)
		var patched map[string]any
		if d.crd && d.known {
			for _, v := range d.versions {
				if schemas[d.group+"/"+d.kind][v] != nil {
					patched = schemas[d.group+"/"+d.kind]
				}
			}
		}
		if d.crd && !d.known {
			c.Count("unknown_kinds", 1)
		}
		// versions other manifests of the kind name are patched as well
		w := &c15Walk{c: c, patched: patched}
		if w.patched == nil && d.known {
			w.patched = map[string]any{}
		}
		w.walk(old[k], new[k], nil)
		bad = append(bad, w.bad...)
		oldC = append(oldC, w.oldC...)
		newC = append(newC, w.newC...)
	}
	sort.Strings(oldC)
	sort.Strings(newC)
	c.Count("comments", int64(len(oldC)))
	if a, b := strings.Join(oldC, "\n"), strings.Join(newC, "\n"); a != b {
		bad = append(bad, "comments: "+lineDiff(a, b))
	}
	return bad
}

type c15Walk struct {
	c          *Ctx
	patched    map[string]any // version -> schema, nil if nothing is to be patched
	bad        []string
	oldC, newC []string
}

func c15Comments(n *yaml.Node) []string {
	return commentRE.FindAllString(n.HeadComment+"\n"+n.LineComment+"\n"+n.FootComment, -1)
}

func (w *c15Walk) walk(a, b *yaml.Node, path []string) {
	at := strings.Join(path, ".")
	w.oldC = append(w.oldC, c15Comments(a)...)
	w.newC = append(w.newC, c15Comments(b)...)
	if a.Kind != b.Kind || a.ShortTag() != b.ShortTag() || a.Value != b.Value {
		w.bad = append(w.bad, fmt.Sprintf("%s is %s %q, was %s %q", at, b.ShortTag(), b.Value, a.ShortTag(), a.Value))
		return
	}
	switch a.Kind {
	case yaml.DocumentNode, yaml.SequenceNode:
		if len(a.Content) != len(b.Content) {
			w.bad = append(w.bad, fmt.Sprintf("%s has %d items, had %d", at, len(b.Content), len(a.Content)))
			return
		}
		for k := range a.Content {
			p := path
			if a.Kind == yaml.SequenceNode {
				p = append(append([]string{}, path...), "[]")
			}
			w.walk(a.Content[k], b.Content[k], p)
		}
	case yaml.MappingNode:
		type pair struct{ k, v *yaml.Node }
		list := func(n *yaml.Node) (out []pair) {
			for k := 0; k+1 < len(n.Content); k += 2 {
				out = append(out, pair{n.Content[k], n.Content[k+1]})
			}
			return
		}
		pa, pb := list(a), list(b)
		get := func(l []pair, key string) *yaml.Node {
			for _, p := range l {
				if p.k.Value == key {
					return p.v
				}
			}
			return nil
		}
		drop := func(l []pair, key string) (out []pair) {
			for _, p := range l {
				if p.k.Value != key {
					out = append(out, p)
				}
			}
			return
		}
		if w.patched != nil && len(w.patched) > 0 && at == "spec" {
			pa = drop(pa, "validation")
		}
		if w.patched != nil && len(w.patched) > 0 && at == "spec.versions.[]" {
			name := get(pa, "name").Value
			want := w.patched[name]
			if want == nil { // wiped
				pa = drop(pa, "schema")
			} else {
				w.c.Count("schemas", 1)
				got := get(pb, "schema")
				if got == nil {
					w.bad = append(w.bad, "version "+name+" has no schema")
					return
				}
				var gs *yaml.Node
				for _, p := range list(got) {
					if p.k.Value == "openAPIV3Schema" {
						gs = p.v
					}
				}
				if len(list(got)) != 1 || gs == nil {
					w.bad = append(w.bad, "version "+name+" has an odd schema")
					return
				}
				text, err := yaml.Marshal(gs)
				if err != nil {
					w.bad = append(w.bad, err.Error())
					return
				}
				v, err := yamlToAny(string(text))
				if err != nil {
					w.bad = append(w.bad, fmt.Sprintf("schema of version %s: %v", name, err))
					return
				}
				if x, y := canon(want), canon(v); x != y {
					w.bad = append(w.bad, fmt.Sprintf("schema of version %s is not that of the CRD generator: %s", name, lineDiff(strings.ReplaceAll(x, ",", ",\n"), strings.ReplaceAll(y, ",", ",\n"))))
				}
				if get(pa, "schema") == nil {
					pb = drop(pb, "schema")
				} else { // in its place, compared
					for _, l := range [][]pair{pa, pb} {
						for k := range l {
							if l[k].k.Value == "schema" {
								l[k].v = &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!null"}
							}
						}
					}
				}
			}
		}
		if len(pa) != len(pb) {
			ka, kb := []string{}, []string{}
			for _, p := range pa {
				ka = append(ka, p.k.Value)
			}
			for _, p := range pb {
				kb = append(kb, p.k.Value)
			}
			w.bad = append(w.bad, fmt.Sprintf("%s has the keys %v, had %v", at, kb, ka))
			return
		}
		for k := range pa {
			if pa[k].k.Value != pb[k].k.Value {
				w.bad = append(w.bad, fmt.Sprintf("%s: key %s where %s was", at, pb[k].k.Value, pa[k].k.Value))
				return
			}
			p := append(append([]string{}, path...), pa[k].k.Value)
			w.walk(pa[k].k, pb[k].k, append(append([]string{}, p...), "key"))
			w.walk(pa[k].v, pb[k].v, p)
		}
	}
}
