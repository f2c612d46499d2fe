package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// C05: one complete CRD per kind, against an independent assembly of the markers.

func init() { register("C05", checkC05) }

var pluralOf = map[string]string{"Widget": "widgets", "Policy": "policies", "Box": "boxes", "Class": "classes", "Gateway": "gateways",
	"Status": "statuses", "Bundle": "bundles", "HTTPRoute": "httproutes", "Mesh": "meshes", "Proxy": "proxies", "VM": "vms", "Cache": "caches"}

type kver struct {
	pkg     *apiPkg
	version string
	skip    bool
	storage bool
	unserv  bool
	dep     *string // nil: no; "" without warning
	depOn   bool
	status  bool
	scale   map[string]any
	cols    []any
	sel     []any
	marks   []string
	field   string
}

type apiPkg struct {
	dir, name, version, group string
	override                  bool
	files                     [2]strings.Builder
	skip                      bool
}

type kindM struct {
	group, kind string
	vers        []*kver
	plural      string
	singular    string
	short, cats []any
	scope       string
	ann, lab    map[string]any
}

func strList(r *rand.Rand, l []any) string {
	var s []string
	for _, x := range l {
		t := x.(string)
		if strings.ContainsAny(t, "=;,{} ") || chance(r, 20) {
			t = strconv.Quote(t)
		}
		s = append(s, t)
	}
	if chance(r, 50) {
		return "{" + strings.Join(s, ",") + "}"
	}
	return strings.Join(s, ";")
}

func mq(r *rand.Rand, s string) string {
	if !strings.ContainsAny(s, "`") && chance(r, 40) {
		return "`" + s + "`"
	}
	if !strings.ContainsAny(s, " ,;{}\"'`\\=:[]") && s != "" && chance(r, 60) {
		return s
	}
	return strconv.Quote(s)
}

// shuffled joins marker arguments in random order.
func shuffled(r *rand.Rand, a []string) string {
	r.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
	return strings.Join(a, pick(r, ",", ","))
}

type crdCase struct {
	pkgs  []*apiPkg
	kinds []*kindM
	fail  string // "" or what has to be reported
}

func genCRDCase(r *rand.Rand, dir, mod string) *crdCase {
	cs := &crdCase{}
	newModule(dir, mod)
	ng := 1 + r.Intn(3)
	uniq := 0
	u := func() string { uniq++; return strconv.Itoa(uniq) }
	for gi := 0; gi < ng; gi++ {
		group := fmt.Sprintf("%s%d.example.test", pick(r, "apps", "net", "x-y."), gi)
		var pkgs []*apiPkg
		vs := subset(r, 55, "v1", "v1alpha1", "v1beta1", "v2", "v2beta3", "v10")
		if len(vs) == 0 {
			vs = []string{"v1"}
		}
		for _, v := range vs {
			p := &apiPkg{dir: fmt.Sprintf("api/g%d/%s", gi, v), name: v, version: v, group: group}
			if chance(r, 25) {
				p.name, p.override = pick(r, "api", "types")+u(), true
				p.dir = fmt.Sprintf("api/g%d/%s", gi, p.name)
			}
			pkgs = append(pkgs, p)
		}
		cs.pkgs = append(cs.pkgs, pkgs...)
		names := sortedKeys(pluralOf)
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		for _, kn := range names[:1+r.Intn(4)] {
			k := &kindM{group: group, kind: kn, plural: pluralOf[kn], singular: strings.ToLower(kn), scope: "Namespaced", ann: map[string]any{}, lab: map[string]any{}}
			for _, p := range pkgs {
				if len(k.vers) == 0 || chance(r, 70) {
					v := &kver{pkg: p, version: p.version, field: "only" + u()}
					k.vers = append(k.vers, v)
				}
			}
			r.Shuffle(len(k.vers), func(i, j int) { k.vers[i], k.vers[j] = k.vers[j], k.vers[i] })
			left := 0
			for _, v := range k.vers {
				if chance(r, 15) {
					v.skip = true
				} else {
					left++
				}
			}
			stored := false
			for _, v := range k.vers {
				if !v.skip && !stored && (left > 1 || chance(r, 40)) {
					v.storage, stored = true, true
				}
			}
			served := 0
			for _, v := range k.vers {
				if !v.skip {
					if chance(r, 25) {
						v.unserv = true
					} else {
						served++
					}
				}
			}
			if served == 0 {
				for _, v := range k.vers {
					v.unserv = false
				}
			}
			for _, v := range k.vers {
				k.versionMarks(r, v, u)
			}
			k.kindMarks(r, u)
			cs.kinds = append(cs.kinds, k)
		}
	}
	// one thing that has to fail, sometimes
	if chance(r, 30) {
		k := cs.kinds[r.Intn(len(cs.kinds))]
		switch pick(r, "storage", "serve", "label", "annotation", "skipall") {
		case "storage":
			n := 0
			for _, v := range k.vers {
				v.storage = false
				if !v.skip {
					n++
				}
			}
			if n > 1 {
				cs.fail = "no storage version"
			}
		case "serve":
			n := 0
			for _, v := range k.vers {
				if !v.skip {
					v.unserv = true
					n++
				}
			}
			if n > 0 {
				cs.fail = "does not serve any version"
			}
		case "label":
			k.vers[0].marks = append(k.vers[0].marks, "kubebuilder:metadata:labels=novalue"+u())
			cs.fail = "novalue"
		case "annotation":
			k.vers[0].marks = append(k.vers[0].marks, "kubebuilder:metadata:annotations={a=b,novalue"+u()+"}")
			cs.fail = "novalue"
		case "skipall":
			for _, v := range k.vers {
				v.skip, v.storage, v.unserv = true, false, false
			}
		}
	}
	for _, k := range cs.kinds {
		for _, v := range k.vers {
			k.write(r, v)
		}
	}
	// packages and types that are no API kinds
	for i, p := range cs.pkgs {
		b := &p.files[0]
		fmt.Fprintf(b, "type OnlyType%d struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n}\n\n", i)
		fmt.Fprintf(b, "type OnlyMeta%d struct {\n\tmetav1.ObjectMeta `json:\"metadata\"`\n}\n\n", i)
		fmt.Fprintf(b, "type Some%dList struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ListMeta `json:\"metadata\"`\n\tItems []OnlyMeta%d `json:\"items\"`\n}\n\n", i, i)
		fmt.Fprintf(b, "// Named%d has fields of those types.\ntype Named%d struct {\n\tT metav1.TypeMeta `json:\"t\"`\n\tO metav1.ObjectMeta `json:\"o\"`\n}\n\n", i, i)
		fmt.Fprintf(b, "type TypeMeta struct{}\ntype ObjectMeta struct{}\n\ntype Lookalike%d struct {\n\tTypeMeta `json:\",inline\"`\n\tObjectMeta `json:\"metadata\"`\n}\n\n", i)
		p.write(r, dir)
	}
	writeFile(filepath.Join(dir, "api/plain/p.go"), "package plain\n\n// T is a type.\ntype T struct {\n\tA string `json:\"a\"`\n}\n")
	writeFile(filepath.Join(dir, "api/skipped/v1/p.go"), "// +groupName=skipped.example.test\n// +kubebuilder:skip\npackage v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n// +kubebuilder:object:root=true\ntype Skipped struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n}\n")
	writeFile(filepath.Join(dir, "api/nogroup/v1/p.go"), "package v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n// +kubebuilder:object:root=true\ntype Groupless struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n}\n")
	writeFile(filepath.Join(dir, "outside/v1/p.go"), "// +groupName=outside.example.test\npackage v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n// +kubebuilder:object:root=true\ntype Outside struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec OutsideSpec `json:\"spec\"`\n}\n\ntype OutsideSpec struct {\n\tO string `json:\"o\"`\n}\n")
	return cs
}

func (k *kindM) versionMarks(r *rand.Rand, v *kver, u func() string) {
	if chance(r, 30) {
		v.depOn = true
		if chance(r, 60) {
			w := pick(r, "use another, please", "gone soon; really", "v"+u())
			v.dep = &w
			v.marks = append(v.marks, "kubebuilder:deprecatedversion:warning="+mq(r, w))
		} else {
			v.marks = append(v.marks, "kubebuilder:deprecatedversion")
		}
	}
	if chance(r, 45) {
		v.status = true
		v.marks = append(v.marks, "kubebuilder:subresource:status")
	}
	if chance(r, 30) {
		v.scale = map[string]any{"specReplicasPath": ".spec.r" + u(), "statusReplicasPath": ".status.r" + u()}
		a := []string{"specpath=" + v.scale["specReplicasPath"].(string), "statuspath=" + v.scale["statusReplicasPath"].(string)}
		s := ".status.sel" + u()
		v.scale["labelSelectorPath"] = s
		a = append(a, "selectorpath="+s)
		v.marks = append(v.marks, "kubebuilder:subresource:scale:"+shuffled(r, a))
	}
	for i := 0; i < r.Intn(5)*r.Intn(4); i++ {
		col := map[string]any{"name": pick(r, "Age", "Ready State", "C") + u(), "type": pick(r, "string", "date", "integer"), "jsonPath": pick(r, ".metadata.creationTimestamp", ".status.conditions[?(@.type==\"Ready\")].status", ".spec.x"+u())}
		a := []string{"name=" + mq(r, col["name"].(string)), "type=" + mq(r, col["type"].(string)), "JSONPath=" + mq(r, col["jsonPath"].(string))}
		if chance(r, 30) {
			col["description"] = "what, it is " + u()
			a = append(a, "description="+mq(r, col["description"].(string)))
		}
		if chance(r, 30) {
			col["format"] = pick(r, "int32", "date-time")
			a = append(a, "format="+mq(r, col["format"].(string)))
		}
		if chance(r, 40) {
			n := r.Intn(5)
			if n > 0 {
				col["priority"] = n
			}
			a = append(a, "priority="+strconv.Itoa(n))
		}
		v.cols = append(v.cols, col)
		v.marks = append(v.marks, "kubebuilder:printcolumn:"+shuffled(r, a))
	}
	for i := 0; i < r.Intn(3)*r.Intn(3); i++ {
		s := ".spec.sel" + u()
		v.sel = append(v.sel, map[string]any{"jsonPath": s})
		v.marks = append(v.marks, "kubebuilder:selectablefield:JSONPath="+mq(r, s))
	}
}

func (k *kindM) kindMarks(r *rand.Rand, u func() string) {
	var res []string
	if chance(r, 60) {
		var a []string
		if chance(r, 50) {
			k.plural = pick(r, "things", "customs", "x") + u()
			a = append(a, "path="+k.plural)
		}
		if chance(r, 40) {
			k.singular = "one" + u()
			a = append(a, "singular="+k.singular)
		}
		if chance(r, 50) {
			k.scope = pick(r, "Cluster", "Cluster", "Namespaced")
			a = append(a, "scope="+mq(r, k.scope))
		}
		if chance(r, 50) {
			for i := 0; i <= r.Intn(3); i++ {
				k.short = append(k.short, "s"+u())
			}
			a = append(a, "shortName="+strList(r, k.short))
		}
		if chance(r, 50) {
			for i := 0; i <= r.Intn(3); i++ {
				k.cats = append(k.cats, "cat"+u())
			}
			a = append(a, "categories="+strList(r, k.cats))
		}
		if len(a) > 0 {
			res = append(res, "kubebuilder:resource:"+shuffled(r, a))
		}
	}
	var meta []string
	kvs := func(into map[string]any) []any {
		var l []any
		for i := 0; i <= r.Intn(3); i++ {
			key, val := pick(r, "k", "example.test/a", "b.c")+u(), pick(r, "v", "a=b", "with space", "x,y;z", "")+pick(r, "", u())
			into[key] = val
			l = append(l, key+"="+val)
		}
		return l
	}
	for i := 0; i < r.Intn(3); i++ {
		var a []string
		if chance(r, 60) {
			a = append(a, "annotations="+strList(r, kvs(k.ann)))
		}
		if chance(r, 60) {
			a = append(a, "labels="+strList(r, kvs(k.lab)))
		}
		if len(a) > 0 {
			meta = append(meta, "kubebuilder:metadata:"+shuffled(r, a))
		}
	}
	// the resource marker on one version or the same one on every version; metadata spread over them
	all := chance(r, 50)
	for i, v := range k.vers {
		if all || i == 0 {
			v.marks = append(v.marks, res...)
		}
	}
	for _, m := range meta {
		v := k.vers[r.Intn(len(k.vers))]
		v.marks = append(v.marks, m)
	}
}

// write adds the type to its package.
func (k *kindM) write(r *rand.Rand, v *kver) {
	b := &v.pkg.files[r.Intn(2)]
	marks := append([]string{}, v.marks...)
	for _, m := range []struct {
		on bool
		t  string
	}{{v.skip, "skipversion"}, {v.storage, "storageversion"}, {v.unserv, "unservedversion"}} {
		if m.on {
			i := r.Intn(len(marks) + 1)
			marks = append(marks[:i], append([]string{"kubebuilder:" + m.t}, marks[i:]...)...)
		}
	}
	cut := 0
	if chance(r, 30) && len(marks) > 0 { // some in a block of their own before the documentation
		cut = r.Intn(len(marks))
	}
	for _, m := range marks[:cut] {
		b.WriteString("// +" + m + "\n")
	}
	if cut > 0 {
		b.WriteString("\n")
	}
	if chance(r, 70) {
		b.WriteString("// +kubebuilder:object:root=true\n")
	}
	doc := r.Intn(len(marks) - cut + 1)
	for i, m := range marks[cut:] {
		if i == doc {
			fmt.Fprintf(b, "// %s is a kind.\n//\n", k.kind)
		}
		b.WriteString(pick(r, "// +", "//+", "// +") + m + "\n")
	}
	fmt.Fprintf(b, "type %s struct {\n", k.kind)
	e := []string{"\tmetav1.TypeMeta `json:\",inline\"`\n", "\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n", fmt.Sprintf("\tSpec %sSpec `json:\"spec,omitempty\"`\n", k.kind)}
	if chance(r, 20) {
		e[0], e[1] = e[1], e[0]
	}
	if chance(r, 20) {
		e[0], e[2] = e[2], e[0]
	}
	b.WriteString(strings.Join(e, "") + "}\n\n")
	fmt.Fprintf(b, "type %sSpec struct {\n\t%s string `json:%q`\n}\n\n", k.kind, "F"+v.field, v.field)
	if chance(r, 50) {
		fmt.Fprintf(b, "// +kubebuilder:object:root=true\ntype %sList struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ListMeta `json:\"metadata,omitempty\"`\n\tItems []%s `json:\"items\"`\n}\n\n", k.kind, k.kind)
	}
}

func (p *apiPkg) write(r *rand.Rand, dir string) {
	marks := []string{"groupName=" + p.group}
	if p.override {
		marks = append(marks, "versionName="+p.version)
	}
	imp := pick(r, "import metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n", "import (\n\tmetav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n)\n\n")
	head, tail := "", ""
	line := func(m string) string { return "// +" + m + "\n" }
	where := r.Intn(3)
	for _, m := range marks {
		switch where {
		case 0:
			head += line(m)
		case 1:
			tail += line(m)
		}
	}
	doc := ""
	if where == 2 {
		doc = "// Package docs.\n"
		for _, m := range marks {
			doc += line(m)
		}
		writeFile(filepath.Join(dir, p.dir, "doc.go"), doc+"package "+p.name+"\n")
	}
	for i := range p.files {
		body := p.files[i].String()
		if body == "" {
			continue
		}
		h := ""
		if i == 0 {
			h = head
			if head != "" && chance(r, 50) {
				h += "\n" // a block of its own before the package clause
			}
		}
		use := imp
		if !strings.Contains(body, "metav1.") {
			use = ""
		}
		t := ""
		if i == 0 {
			t = tail
		}
		writeFile(filepath.Join(dir, p.dir, fmt.Sprintf("f%d.go", i)), h+"package "+p.name+"\n\n"+use+body+t)
	}
}

// want assembles the expected CRD without schemas.
func (k *kindM) want() (string, map[string]any) {
	var vers []any
	vs := append([]*kver{}, k.vers...)
	sort.Slice(vs, func(i, j int) bool { return vs[i].version < vs[j].version })
	left := 0
	for _, v := range vs {
		if !v.skip {
			left++
		}
	}
	if left == 0 {
		return "", nil
	}
	for _, v := range vs {
		if v.skip {
			continue
		}
		m := map[string]any{"name": v.version, "served": !v.unserv, "storage": v.storage || left == 1}
		if v.depOn {
			m["deprecated"] = true
			if v.dep != nil {
				m["deprecationWarning"] = *v.dep
			}
		}
		sub := map[string]any{}
		if v.status {
			sub["status"] = map[string]any{}
		}
		if v.scale != nil {
			sub["scale"] = v.scale
		}
		if len(sub) > 0 {
			m["subresources"] = sub
		}
		if len(v.cols) > 0 {
			m["additionalPrinterColumns"] = v.cols
		}
		if len(v.sel) > 0 {
			m["selectableFields"] = v.sel
		}
		m["_spec"] = v.field
		vers = append(vers, m)
	}
	names := map[string]any{"kind": k.kind, "listKind": k.kind + "List", "plural": k.plural, "singular": k.singular}
	if len(k.short) > 0 {
		names["shortNames"] = k.short
	}
	if len(k.cats) > 0 {
		names["categories"] = k.cats
	}
	meta := map[string]any{"name": k.plural + "." + k.group}
	ann := map[string]any{"controller-gen.kubebuilder.io/version": "*"}
	for a, b := range k.ann {
		ann[a] = b
	}
	meta["annotations"] = ann
	if len(k.lab) > 0 {
		meta["labels"] = k.lab
	}
	return k.group + "_" + k.plural + ".yaml", map[string]any{"apiVersion": "apiextensions.k8s.io/v1", "kind": "CustomResourceDefinition", "metadata": meta,
		"spec": map[string]any{"group": k.group, "scope": k.scope, "names": names, "versions": vers}}
}

// got reduces a written CRD to the same form.
func reduceCRD(v any) (any, []string) {
	var bad []string
	m, _ := v.(map[string]any)
	if a, ok := jget(m, "metadata", "annotations").(map[string]any); ok {
		if asStr(a["controller-gen.kubebuilder.io/version"]) != "" {
			a["controller-gen.kubebuilder.io/version"] = "*"
		}
	}
	for _, x := range asSlice(jget(m, "spec", "versions")) {
		vm, _ := x.(map[string]any)
		if s, ok := vm["subresources"].(map[string]any); ok && len(s) == 0 {
			delete(vm, "subresources")
		}
		sch := jget(vm, "schema", "openAPIV3Schema")
		props, _ := jget(sch, "properties").(map[string]any)
		if strings.Join(sortedKeys(props), ",") != "apiVersion,kind,metadata,spec" {
			bad = append(bad, fmt.Sprintf("version %v: properties %v", vm["name"], sortedKeys(props)))
		}
		if canon(props["metadata"]) != `{"type":"object"}` {
			bad = append(bad, fmt.Sprintf("version %v: metadata schema %s", vm["name"], canon(props["metadata"])))
		}
		if t := asStr(jget(sch, "type")); t != "object" {
			bad = append(bad, fmt.Sprintf("version %v: type %q", vm["name"], t))
		}
		sp, _ := jget(props["spec"], "properties").(map[string]any)
		vm["_spec"] = strings.Join(sortedKeys(sp), ",")
		delete(vm, "schema")
	}
	return m, bad
}

func checkC05(c *Ctx) {
	c.Rule("Random modules with several groups, versions per group and kinds per version (and packages and types that are no kinds, or lie outside the roots), with random sets of CRD-level markers, are run through controller-gen; the set of files and everything in every CRD but the schema details must equal an independent assembly of the markers, and invalid combinations must be reported. One evaluation is one kind or one rejected case.")
	n := c.N(90, 800)
	parallel(n, 6, func(i int) {
		r := c.Rng("crd", i)
		dir := c.CaseDir("k")
		mod := "example.test/k"
		cs := genCRDCase(r, dir, mod)
		out := filepath.Join(dir, "out")
		args := []string{"crd", "paths=./api/...", "output:dir=" + out}
		if chance(r, 40) { // the roots one by one, in any order
			args = []string{"crd", "output:dir=" + out, "paths=./api/plain", "paths=./api/skipped/v1", "paths=./api/nogroup/v1"}
			for _, p := range cs.pkgs {
				args = append(args, "paths=./"+p.dir)
			}
			r.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
		}
		res := c.Gen(dir, args...)
		if cs.fail != "" {
			c.Eval("fail " + cs.fail + fmt.Sprint(i))
			c.Count("rejected", 1)
			if res.Code == 0 {
				c.Violate("accepted", fmt.Sprintf("run succeeded, but: %s", cs.fail), nil, dir)
			} else if !strings.Contains(res.Stderr, cs.fail) {
				c.Violate("unnamed", fmt.Sprintf("%q is not reported:\n%s", cs.fail, res.Stderr), nil, dir)
			}
			return
		}
		if res.Code != 0 || strings.TrimSpace(res.Stderr) != "" {
			c.Violate("model-rejected", fmt.Sprintf("valid packages rejected (exit %d):\n%s", res.Code, clip(res.Stderr, 2000)), nil, dir)
			return
		}
		files := snapshot(out)
		want := map[string]map[string]any{}
		for _, k := range cs.kinds {
			f, w := k.want()
			if w != nil {
				want[f] = w
				c.See("versions_per_kind", fmt.Sprint(len(k.vers)))
			} else {
				c.Count("all_versions_skipped", 1)
			}
		}
		for f := range files {
			if _, ok := want[f]; !ok {
				c.Violate("extra-file", fmt.Sprintf("unexpected file %s:\n%s", f, clip(files[f], 1500)), nil, dir)
			}
		}
		for _, f := range sortedKeys(want) {
			w := want[f]
			src, ok := files[f]
			if !ok {
				c.Violate("missing-file", fmt.Sprintf("no file %s; written: %v", f, sortedKeys(files)), nil, dir)
				continue
			}
			docs := splitDocs(src)
			var v any
			var err error
			if len(docs) == 1 {
				v, err = yamlToAny(docs[0])
			}
			if v == nil || err != nil {
				c.Violate("bad-file", fmt.Sprintf("%s is not one YAML document: %v", f, err), nil, dir)
				continue
			}
			got, bad := reduceCRD(v)
			c.Eval(src)
			c.Count("versions", int64(len(asSlice(jget(w, "spec", "versions")))))
			for _, b := range bad {
				c.Violate("schema", f+": "+b, nil, dir)
			}
			if canon(got) != canon(w) {
				a, _ := json.MarshalIndent(w, "", " ")
				b, _ := json.MarshalIndent(got, "", " ")
				c.Violate("crd-differs", fmt.Sprintf("%s (expected first):\n%s", f, lineDiff(string(a), string(b))), nil, dir)
			}
			if i < 2 {
				c.Sample(clip(canon(w), 800))
			}
		}
	})
	checkC05Metas(c)
	c.Min("evaluations", 200)
	c.Min("rejected", 5)
	c.Min("all_versions_skipped", 1)
	c.Min("versions_per_kind", 3)
}

// checkC05Metas: what makes a type a kind is which types it embeds, not by what names
// it gets hold of them. One kind is written with TypeMeta and ObjectMeta taken from metav1
// and again with other names for them, and both have to yield the same CRD.
func checkC05Metas(c *Ctx) {
	n := c.N(12, 60)
	const metav1 = "k8s.io/apimachinery/pkg/apis/meta/v1"
	parallel(n, 6, func(i int) {
		r := c.Rng("metas", i)
		dir := c.CaseDir("m")
		mod := "example.test/m"
		newModule(dir, mod)
		time := chance(r, 40)    // the package uses other types of metav1, too
		other := chance(r, 40)   // so does another input package
		swapped := chance(r, 20) // ObjectMeta first
		kind := pick(r, sortedKeys(pluralOf)...)
		writeFile(filepath.Join(dir, "shared/s.go"), "package shared\n\nimport k \""+metav1+"\"\n\ntype TypeMeta = k.TypeMeta\ntype Meta = k.ObjectMeta\n")
		if other {
			writeFile(filepath.Join(dir, "api/other/o.go"), "package other\n\nimport k \""+metav1+"\"\n\ntype T struct {\n\tA k.Time `json:\"a\"`\n}\n")
		}
		write := func(sub, tHow, oHow string) {
			imports := map[string]string{}
			var decls strings.Builder
			embed := func(how, name, ofShared string) string {
				switch how {
				case "local":
					imports[metav1] = "metav1"
					decls.WriteString("type My" + name + " = metav1." + name + "\n\n")
					return "My" + name
				case "same name":
					imports[metav1] = "metav1"
					decls.WriteString("type " + name + " = metav1." + name + "\n\n")
					return name
				case "chain":
					imports[mod+"/shared"] = "shared"
					decls.WriteString("type My" + name + " = shared." + ofShared + "\n\n")
					return "My" + name
				case "shared":
					imports[mod+"/shared"] = "shared"
					return "shared." + ofShared
				case "import name":
					imports[metav1] = "metav1"
					return "metav1." + name
				default: // dot
					imports[metav1] = "."
					return name
				}
			}
			e := []string{"\t" + embed(tHow, "TypeMeta", "TypeMeta") + " `json:\",inline\"`\n", "\t" + embed(oHow, "ObjectMeta", "Meta") + " `json:\"metadata,omitempty\"`\n"}
			if swapped {
				e[0], e[1] = e[1], e[0]
			}
			var b strings.Builder
			b.WriteString("// +groupName=metas.example.test\npackage v1\n\n")
			for _, p := range sortedKeys(imports) {
				fmt.Fprintf(&b, "import %s %q\n", imports[p], p)
			}
			if time {
				fmt.Fprintf(&b, "import extra %q\n", metav1)
			}
			b.WriteString("\n" + decls.String())
			fmt.Fprintf(&b, "// %s is a kind.\n// +kubebuilder:subresource:status\ntype %s struct {\n%s\tA string `json:\"a\"`\n", kind, kind, strings.Join(e, ""))
			if time {
				b.WriteString("\tT extra.Time `json:\"t\"`\n")
			}
			b.WriteString("}\n")
			writeFile(filepath.Join(dir, sub, "t.go"), b.String())
		}
		hows := []string{"local", "same name", "chain", "shared", "import name", "dot"}
		tHow, oHow := hows[i%len(hows)], hows[(i+i/len(hows))%len(hows)]
		if (tHow == "dot") != (oHow == "dot") { // one file can't import a package by both
			oHow = tHow
		}
		write("direct/v1", "import name", "import name")
		write("api/v1", tHow, oHow)
		args := []string{"crd", "output:stdout"}
		if chance(r, 30) {
			args = []string{"crd:generateEmbeddedObjectMeta=true", "output:stdout"}
		}
		want := c.Gen(dir, append(args, "paths=./direct/...")...)
		got := c.Gen(dir, append(args, "paths=./api/...")...)
		what := fmt.Sprintf("TypeMeta: %s, ObjectMeta: %s, other metav1 types: %v, other input package: %v", tHow, oHow, time, other)
		if want.Code != 0 || !strings.Contains(want.Stdout, "kind: "+kind+"\n") {
			c.Violate("metas-direct", fmt.Sprintf("no CRD for a plain kind (exit %d):\n%s", want.Code, clip(want.Stderr, 1500)), nil, dir)
			return
		}
		c.Eval("metas " + what + want.Stdout)
		c.See("metas", tHow+" "+oHow)
		if got.Code != 0 || strings.TrimSpace(got.Stderr) != "" {
			c.Violate("metas-rejected", fmt.Sprintf("%s: rejected (exit %d):\n%s", what, got.Code, clip(got.Stderr, 1500)), nil, dir)
		} else if got.Stdout != want.Stdout {
			c.Violate("metas-differ", fmt.Sprintf("%s: the CRD differs from that of the same kind embedding metav1's types directly:\n%s", what, clip(lineDiff(want.Stdout, got.Stdout), 2000)), nil, dir)
		}
	})
	c.Min("metas", 8)
}
