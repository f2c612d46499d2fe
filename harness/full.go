package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"
)

// A whole small project: API packages of several groups and versions that share types, with CRD,
// deepcopy, RBAC, webhook and apply-configuration markers, all of them valid. What it has many of is
// ties and repetitions, so that any result that depends on an iteration order shows.

type fullPkg struct {
	dir, path, name, group, version string
	kinds                           []string
	gen                             bool // object:generate
	ac                              bool // ac:generate
	rbac, wh                        bool
	types                           []string
}

type fullMod struct {
	dir, mod string
	pkgs     []*fullPkg // all packages
	apis     []*fullPkg
	beside   []string          // further packages, of some users
	kinds    map[string]string // group/kind -> plural
}

type fullOpts struct {
	apis, kinds, fields int
	ac                  bool
	noWebhooks, noRBAC  bool
}

var fullWords = []string{"Alpha", "Beta", "Gamma", "Delta", "Omega", "Widget", "Policy", "Box", "Gateway", "Route", "Proxy", "Bundle"}

func genFull(r *rand.Rand, dir, mod string, o fullOpts) *fullMod {
	m := &fullMod{dir: dir, mod: mod, kinds: map[string]string{}}
	newModule(dir, mod)
	n := 0
	u := func() int { n++; return n }
	if o.apis == 0 {
		o.apis = 2 + r.Intn(3)
	}
	if o.kinds == 0 {
		o.kinds = 1 + r.Intn(3)
	}
	if o.fields == 0 {
		o.fields = 4 + r.Intn(8)
	}
	// shared library
	lib := &fullPkg{dir: "lib/common", name: "common", gen: true}
	lib.path = mod + "/" + lib.dir
	lib.ac = false
	var b strings.Builder
	b.WriteString("// Package common is shared.\n// +kubebuilder:object:generate=true\npackage common\n\n")
	for i := 0; i < 4; i++ {
		fmt.Fprintf(&b, "// Shared%d is shared.\n// +kubebuilder:validation:MinProperties=%d\ntype Shared%d struct {\n", i, i, i)
		fmt.Fprintf(&b, "\t// A of %d.\n\t// +kubebuilder:validation:MaxLength=%d\n\t// +kubebuilder:validation:Pattern=`^a+$`\n\tA string `json:\"a\"`\n", i, 5+i)
		fmt.Fprintf(&b, "\t// +optional\n\tM map[string][]string `json:\"m,omitempty\"`\n\tN *Num `json:\"n,omitempty\"`\n")
		if i > 0 {
			fmt.Fprintf(&b, "\tL []Shared%d `json:\"l,omitempty\"`\n", i-1)
		}
		b.WriteString("}\n\n")
		lib.types = append(lib.types, fmt.Sprintf("Shared%d", i))
	}
	b.WriteString("// Num is a number.\n// +kubebuilder:validation:Minimum=1\n// +kubebuilder:validation:Maximum=100\ntype Num int32\n\n// Mode is a mode.\n// +kubebuilder:validation:Enum=x;y;z\ntype Mode string\n")
	writeFile(filepath.Join(dir, lib.dir, "types.go"), b.String())
	m.pkgs = append(m.pkgs, lib)
	groups := []string{"apps.example.test", "net.example.test", "x.example.test"}
	versions := []string{"v1", "v1beta1", "v2", "v1alpha1"}
	kindsOf := map[string][]string{}
	gi, vi := 0, 0
	for i := 0; i < o.apis; i++ {
		if i > 0 {
			if chance(r, 50) && vi < len(versions)-1 {
				vi++
			} else {
				gi, vi = gi+1, 0
			}
		}
		g := groups[gi%len(groups)]
		if gi >= len(groups) {
			g = fmt.Sprintf("g%d.example.test", gi)
		}
		p := &fullPkg{dir: fmt.Sprintf("api/g%d/%s", gi, versions[vi]), name: versions[vi], version: versions[vi], group: g, gen: true, ac: o.ac, wh: !o.noWebhooks && chance(r, 60), rbac: !o.noRBAC && chance(r, 50)}
		p.path = mod + "/" + p.dir
		ks := kindsOf[g]
		if ks == nil {
			idx := r.Perm(len(fullWords))
			for j := 0; j < o.kinds; j++ {
				ks = append(ks, fullWords[idx[j]]+string(rune('A'+gi)))
			}
			kindsOf[g] = ks
		}
		p.kinds = ks
		for _, k := range ks {
			m.kinds[g+"/"+k] = strings.ToLower(k) + "stuff"
		}
		m.pkgs = append(m.pkgs, p)
		m.apis = append(m.apis, p)
		first := vi == 0
		var f [2]strings.Builder
		for j := range f {
			if j == 0 {
				fmt.Fprintf(&f[j], "// Package %s is an API.\n// +groupName=%s\n// +kubebuilder:object:generate=true\n", p.name, g)
				if o.ac {
					fmt.Fprintf(&f[j], "// +kubebuilder:ac:generate=true\n")
				}
			}
			fmt.Fprintf(&f[j], "package %s\n\nimport (\n\tcommon %q\n\tmetav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n)\n\nvar _ common.Num\nvar _ metav1.TypeMeta\n\n", p.name, lib.path)
		}
		if p.rbac {
			f[0].WriteString(fullRBAC(r, 2+r.Intn(6)))
		}
		for _, k := range ks {
			w := &f[r.Intn(2)]
			fmt.Fprintf(w, "// %sPart is a part.\ntype %sPart struct {\n", k, k)
			for j := 0; j < o.fields; j++ {
				w.WriteString(fullField(r, u(), lib))
			}
			w.WriteString("}\n\n")
			fmt.Fprintf(w, "// %sSpec is what is wanted.\n// +kubebuilder:validation:XValidation:rule=\"has(self.x)\",message=\"m\"\n// +kubebuilder:validation:XValidation:rule=\"!has(self.y)\",message=\"m\"\ntype %sSpec struct {\n\t// Part is a part.\n\tPart %sPart `json:\"part\"`\n\tParts []%sPart `json:\"parts,omitempty\"`\n\tPtr *%sPart `json:\"ptr,omitempty\"`\n", k, k, k, k, k)
			for j := 0; j < o.fields; j++ {
				w.WriteString(fullField(r, u(), lib))
			}
			w.WriteString("}\n\n")
			if first {
				w.WriteString("// +kubebuilder:storageversion\n")
			}
			fmt.Fprintf(w, "// +kubebuilder:object:root=true\n// +kubebuilder:resource:path=%sstuff,shortName=a%d;b%d,categories=all;some\n// +kubebuilder:subresource:status\n// +kubebuilder:printcolumn:name=Age,type=date,JSONPath=.metadata.creationTimestamp\n// +kubebuilder:printcolumn:name=X,type=string,JSONPath=.spec.x\n// +kubebuilder:metadata:annotations={a=b,c=d},labels={e=f,g=h}\n", strings.ToLower(k), gi, gi)
			if p.wh {
				fmt.Fprintf(w, "// %s is a kind.\ntype %s struct {\n", k, k)
			} else {
				fmt.Fprintf(w, "\n// %s is a kind.\ntype %s struct {\n", k, k)
			}
			fmt.Fprintf(w, "\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n\tSpec %sSpec `json:\"spec,omitempty\"`\n\tStatus %sSpec `json:\"status,omitempty\"`\n}\n\n// %sList lists.\n// +kubebuilder:object:root=true\ntype %sList struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ListMeta `json:\"metadata,omitempty\"`\n\tItems []%s `json:\"items\"`\n}\n\n", k, k, k, k, k)
		}
		if p.wh {
			f[1].WriteString(fullWebhooks(r, gi*10+vi, 2+r.Intn(4)))
		}
		for j := range f {
			writeFile(filepath.Join(dir, p.dir, fmt.Sprintf("z%d_types.go", j)), f[j].String())
		}
	}
	ctl := &fullPkg{dir: "controllers", path: mod + "/controllers", name: "controllers", rbac: !o.noRBAC}
	txt := "package controllers\n\n"
	if !o.noRBAC {
		txt += fullRBAC(r, 4+r.Intn(10)) + "func Reconcile() {}\n\n" + fullRBAC(r, 3)
	}
	writeFile(filepath.Join(dir, "controllers", "c.go"), txt+"var X = 1\n")
	m.pkgs = append(m.pkgs, ctl)
	if !o.noWebhooks {
		wp := &fullPkg{dir: "hooks", path: mod + "/hooks", name: "hooks", wh: true}
		writeFile(filepath.Join(dir, "hooks", "h.go"), "package hooks\n\n"+fullWebhooks(r, 900, 3+r.Intn(4))+"func Hook() {}\n")
		m.pkgs = append(m.pkgs, wp)
	}
	return m
}

func fullField(r *rand.Rand, n int, lib *fullPkg) string {
	t := pick(r, "string", "int32", "int64", "bool", "*string", "[]string", "map[string]string", "common.Shared0", "*common.Shared1", "[]common.Shared2", "map[string]common.Shared3", "common.Mode", "[]common.Mode", "*common.Num", "metav1.Time", "metav1.LabelSelector", "[]metav1.Condition", "[]byte", "map[string][]common.Shared1")
	var s strings.Builder
	fmt.Fprintf(&s, "\t// F%d is a field. It is number %d.\n", n, n)
	if chance(r, 30) {
		s.WriteString("\t// +optional\n")
	} else if chance(r, 20) {
		s.WriteString("\t// +kubebuilder:validation:Required\n")
	}
	switch t {
	case "string":
		for _, x := range subset(r, 40, "kubebuilder:validation:MaxLength=9", "kubebuilder:validation:MinLength=1", "kubebuilder:validation:Pattern=`^x`", "kubebuilder:validation:Enum=a;b;c", "kubebuilder:default=a", "kubebuilder:validation:Format=uuid", "kubebuilder:validation:XValidation:rule=\"self!=''\"", "kubebuilder:example=b") {
			s.WriteString("\t// +" + x + "\n")
		}
	case "int32", "int64":
		for _, x := range subset(r, 40, "kubebuilder:validation:Maximum=9", "kubebuilder:validation:Minimum=1", "kubebuilder:validation:MultipleOf=2", "kubebuilder:default=4", "kubebuilder:validation:ExclusiveMaximum=true") {
			s.WriteString("\t// +" + x + "\n")
		}
	case "[]string":
		for _, x := range subset(r, 40, "kubebuilder:validation:MaxItems=9", "listType=set", "kubebuilder:validation:items:MaxLength=3", "kubebuilder:validation:items:Pattern=`^y`", "kubebuilder:validation:UniqueItems=false") {
			s.WriteString("\t// +" + x + "\n")
		}
	case "map[string]string":
		for _, x := range subset(r, 40, "kubebuilder:validation:MaxProperties=9", "mapType=atomic", "kubebuilder:validation:MinProperties=1") {
			s.WriteString("\t// +" + x + "\n")
		}
	}
	fmt.Fprintf(&s, "\tF%d %s `json:\"f%d%s\"`\n", n, t, n, pick(r, "", ",omitempty"))
	return s.String()
}

func fullRBAC(r *rand.Rand, n int) string {
	var s strings.Builder
	for i := 0; i < n; i++ {
		var a []string
		a = append(a, "groups="+strings.Join(append([]string{pick(r, "apps", "\"\"", "batch", "x.test")}, subset(r, 30, "y.test", "z.test")...), ";"))
		a = append(a, "resources="+strings.Join(append([]string{pick(r, "pods", "jobs", "deployments")}, subset(r, 30, "services", "jobs/status")...), ";"))
		a = append(a, "verbs="+strings.Join(append([]string{pick(r, "get", "list", "watch")}, subset(r, 40, "create", "delete", "patch", "get")...), ";"))
		if chance(r, 20) {
			a = append(a, "resourceNames=n1;n2")
		}
		if chance(r, 35) {
			a = append(a, "namespace="+pick(r, "ns1", "ns2", "ns3"))
		}
		s.WriteString("// +kubebuilder:rbac:" + shuffled(r, a) + "\n")
	}
	if chance(r, 40) {
		s.WriteString("// +kubebuilder:rbac:urls=/metrics;/healthz,verbs=get\n")
	}
	return s.String() + "\n"
}

func fullWebhooks(r *rand.Rand, base, n int) string {
	var s strings.Builder
	for i := 0; i < n; i++ {
		a := []string{fmt.Sprintf("path=/hook-%d-%d", base, i), "mutating=" + pick(r, "true", "false"), "failurePolicy=" + pick(r, "fail", "ignore"), "groups=apps;x.test", "resources=" + pick(r, "pods", "jobs"), "verbs=create;update", "versions=v1;v2", "sideEffects=None", "admissionReviewVersions=v1;v1beta1", fmt.Sprintf("name=h%d.%d.example.test", base, i)}
		if chance(r, 30) {
			a = append(a, "timeoutSeconds=7")
		}
		s.WriteString("// +kubebuilder:webhook:" + shuffled(r, a) + "\n")
	}
	return s.String() + "\n"
}
