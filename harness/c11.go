package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"
)

// C11: generated deepcopy code is compiled and executed on random values; a reflection-based monitor
// compares the copy with the original and looks for shared memory.

func init() { register("C11", checkC11) }

type dcPkg struct {
	path, name string
	dir        string
	types      []dcType
	imports    map[string]string // alias -> path
	decls      []string
	generics   []string // generic types whose instances (of plain arguments) can be copied
	enabled    bool
}

type dcType struct {
	name    string
	kind    string // struct, slice, map, basic, alias, ptr
	manual  string // "", into, copy, both
	root    bool
	methods bool // expected to get (or have) methods
	shallow bool
	hidden  bool // copying it in place means naming an unexported type
	key     bool // usable as a map key
}

type dcGen struct {
	r       *rand.Rand
	mod     string
	pkgs    []*dcPkg
	feat    map[string]int
	cur     *dcPkg
	visible []*dcPkg
	hid     bool // an expression built since the last reset names an unexported type
}

func (g *dcGen) use(alias, path string) string {
	if g.cur.imports == nil {
		g.cur.imports = map[string]string{}
	}
	for {
		if p, ok := g.cur.imports[alias]; !ok || p == path {
			g.cur.imports[alias] = path
			return alias
		}
		for a, p := range g.cur.imports {
			if p == path {
				return a
			}
		}
		alias += "x"
	}
}

var dcBasics = []string{"string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "bool", "byte", "rune", "float32", "float64", "complex128", "uintptr"}

func (g *dcGen) f(s string) { g.feat[s]++ }

// known gives a type from a library package.
func (g *dcGen) known() string {
	switch g.r.Intn(13) {
	case 0:
		return g.use("metav1", "k8s.io/apimachinery/pkg/apis/meta/v1") + ".Time"
	case 1:
		return g.use("metav1", "k8s.io/apimachinery/pkg/apis/meta/v1") + ".ObjectMeta"
	case 2:
		return g.use("metav1", "k8s.io/apimachinery/pkg/apis/meta/v1") + ".Duration"
	case 3:
		return g.use("metav1", "k8s.io/apimachinery/pkg/apis/meta/v1") + ".LabelSelector"
	case 4:
		return g.use("metav1", "k8s.io/apimachinery/pkg/apis/meta/v1") + ".MicroTime"
	case 5:
		return g.use("metav1", "k8s.io/apimachinery/pkg/apis/meta/v1") + ".Condition"
	case 6:
		return g.use("intstr", "k8s.io/apimachinery/pkg/util/intstr") + ".IntOrString"
	case 7:
		return g.use("resource", "k8s.io/apimachinery/pkg/api/resource") + ".Quantity"
	case 8:
		return g.use("runtime", "k8s.io/apimachinery/pkg/runtime") + ".RawExtension"
	case 9:
		return g.use("apiext", "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1") + ".JSON"
	case 10:
		return g.use("json", "encoding/json") + ".RawMessage"
	case 11:
		return g.use("types", "k8s.io/apimachinery/pkg/types") + ".NamespacedName"
	}
	return g.use("types", "k8s.io/apimachinery/pkg/types") + ".UID"
}

// named picks a declared type satisfying ok.
func (g *dcGen) named(ok func(*dcPkg, dcType) bool) string {
	type cand struct {
		p *dcPkg
		t dcType
	}
	var cs []cand
	for _, p := range g.visible {
		for _, t := range p.types {
			if p != g.cur && (t.hidden || t.name[0] < 'A' || t.name[0] > 'Z') {
				continue
			}
			if ok(p, t) {
				cs = append(cs, cand{p, t})
			}
		}
	}
	if len(cs) == 0 {
		return ""
	}
	c := cs[g.r.Intn(len(cs))]
	if c.t.hidden || c.t.name[0] >= 'a' {
		g.hid = true
	}
	if c.p == g.cur {
		return c.t.name
	}
	g.f("imported")
	alias := c.p.name
	if alias == "string" || chance(g.r, 20) { // by another name (string would be no type any more)
		alias = "pkg" + alias
	}
	return g.use(alias, c.p.path) + "." + c.t.name
}

func (g *dcGen) namedLocal(ok func(dcType) bool) *dcType {
	var cs []dcType
	for _, t := range g.cur.types {
		if ok(t) {
			cs = append(cs, t)
		}
	}
	if len(cs) == 0 {
		return nil
	}
	return &cs[g.r.Intn(len(cs))]
}

// usable as a component: structs need methods unless shallow, others are copied in place.
func dcUsable(p *dcPkg, t dcType) bool {
	if t.kind == "struct" && !t.shallow && !t.methods {
		return false
	}
	return true
}

func (g *dcGen) key() string {
	if chance(g.r, 40) {
		if n := g.named(func(p *dcPkg, t dcType) bool { return t.key }); n != "" {
			g.f("key-named")
			return n
		}
	}
	return pick(g.r, "string", "int", "int64", "uint8", "bool", "string", "string")
}

// instance gives an instance of a generic type.
func (g *dcGen) instance(depth int) string {
	p := g.visible[g.r.Intn(len(g.visible))]
	if len(p.generics) == 0 {
		return ""
	}
	n := p.generics[g.r.Intn(len(p.generics))]
	if p != g.cur {
		alias := p.name
		if alias == "string" {
			alias = "pkg" + alias
		}
		n = g.use(alias, p.path) + "." + n
	}
	arg := func() string {
		if depth > 0 && chance(g.r, 20) {
			for _, q := range g.visible {
				if q == g.cur && len(q.generics) > 0 && strings.HasPrefix(q.generics[0], "GP") {
					return q.generics[0] + "[" + g.key() + ", " + g.key() + "]"
				}
			}
		}
		return g.key()
	}
	g.f("instance")
	switch {
	case strings.HasSuffix(n, "GP"):
		g.f("instance-plain")
		return n + "[" + g.key() + ", " + arg() + "]"
	case strings.HasSuffix(n, "GM"):
		g.f("instance-manual")
	case strings.HasSuffix(n, "GS"):
		g.f("instance-slice")
	case strings.HasSuffix(n, "GA"):
		g.f("instance-alias")
	}
	return n + "[" + arg() + "]"
}

func (g *dcGen) expr(depth int) string {
	if chance(g.r, 8) {
		if e := g.instance(1); e != "" {
			return e
		}
	}
	x := g.r.Intn(100)
	if depth <= 0 && x >= 45 {
		x = g.r.Intn(45)
	}
	switch {
	case x < 12:
		g.f("basic")
		return pick(g.r, dcBasics...)
	case x < 36:
		if n := g.named(dcUsable); n != "" {
			g.f("named")
			return n
		}
		return "string"
	case x < 45:
		g.f("known")
		return g.known()
	case x < 62:
		g.f("ptr")
		return "*" + g.expr(depth-1)
	case x < 82:
		g.f("slice")
		return "[]" + g.expr(depth-1)
	default:
		g.f("map")
		return "map[" + g.key() + "]" + g.expr(depth-1)
	}
}

const dcManualStruct = `
type %[1]s struct {
	S string
	L []string
	p *int
}
`

func (g *dcGen) genPackage(p *dcPkg, nTypes int) {
	r := g.r
	g.cur = p
	g.visible = append(g.visible, p)
	add := func(t dcType, decl string) {
		p.types = append(p.types, t)
		p.decls = append(p.decls, decl)
	}
	pre := func(t *dcType) string {
		var l []string
		exported := t.name[0] >= 'A' && t.name[0] <= 'Z'
		en := p.enabled
		if !p.enabled && exported && chance(r, 80) || p.enabled && chance(r, 8) {
			l = append(l, "// +kubebuilder:object:generate=true")
			en = true
		} else if p.enabled && t.shallow && t.manual == "" && chance(r, 15) {
			l = append(l, "// +kubebuilder:object:generate=false")
			en = false
		}
		if exported && t.kind == "struct" && chance(r, 25) && t.manual == "" && !t.shallow {
			l = append(l, "// +kubebuilder:object:root=true")
			if !(len(l) == 2 && strings.HasSuffix(l[0], "false")) {
				en = true
			}
			t.root = en
		}
		t.methods = en && exported && t.kind != "basic" && t.kind != "alias" && t.kind != "ptr"
		if len(l) == 0 {
			return ""
		}
		return strings.Join(l, "\n") + "\n"
	}
	// leaf types first
	bn := "NB" + p.name
	p1 := dcType{name: bn, kind: "basic", shallow: true, key: true}
	add(p1, fmt.Sprintf("%stype %s %s\n", pre(&p1), bn, pick(r, "string", "int", "uint16")))
	ps := dcType{name: pick(r, "Plain", "plain"), kind: "struct", shallow: true, key: true}
	ps.manual = "-"
	d := pre(&ps)
	ps.manual = ""
	add(ps, d+fmt.Sprintf("type %s struct {\n\tA int\n\tB %s\n}\n", ps.name, bn))
	if chance(r, 60) {
		off := ""
		if p.enabled {
			off = "// +kubebuilder:object:generate=false\n"
		}
		for _, n := range subset(r, 70, "GP", "GM", "GS", "GA") {
			p.generics = append(p.generics, n)
			switch n {
			case "GP":
				p.decls = append(p.decls, off+"type GP[K comparable, V any] struct {\n\tK K\n\tV V\n\tN int\n}\n")
			case "GM":
				if chance(r, 50) { // nothing to generate for it in any case
					off = ""
				}
				p.decls = append(p.decls, off+"type GM[T any] struct {\n\tL []string\n\tV T\n}\n\nfunc (in *GM[T]) DeepCopyInto(out *GM[T]) {\n\t*out = *in\n\tif in.L != nil {\n\t\tout.L = append([]string{}, in.L...)\n\t}\n}\n\nfunc (in *GM[T]) DeepCopy() *GM[T] {\n\tif in == nil {\n\t\treturn nil\n\t}\n\tout := new(GM[T])\n\tin.DeepCopyInto(out)\n\treturn out\n}\n")
				if p.enabled {
					off = "// +kubebuilder:object:generate=false\n"
				}
			case "GS":
				p.decls = append(p.decls, off+"type GS[T any] []T\n")
			case "GA":
				p.decls = append(p.decls, off+"type GA[T any] = map[string]*T\n")
			}
		}
	}
	if p.enabled && chance(r, 80) {
		for i, how := range subset(r, 60, "into", "copy", "copynn", "both", "valcopy", "slicecopy", "mapinto", "basiccopy", "basicinto") {
			n := fmt.Sprintf("M%d%s", i, how)
			t := dcType{name: n, kind: "struct", manual: how, methods: true}
			switch how {
			case "into":
				add(t, fmt.Sprintf(dcManualStruct, n)+fmt.Sprintf("func (in *%[1]s) DeepCopyInto(out *%[1]s) {\n\tManual[\"%[1]s\"]++\n\t*out = *in\n\tout.L = append([]string(nil), in.L...)\n\tif in.L != nil && out.L == nil {\n\t\tout.L = []string{}\n\t}\n\tif in.p != nil {\n\t\tx := *in.p\n\t\tout.p = &x\n\t}\n}\n", n))
			case "copy":
				add(t, fmt.Sprintf(dcManualStruct, n)+fmt.Sprintf("func (in *%[1]s) DeepCopy() *%[1]s {\n\tif in == nil {\n\t\treturn nil\n\t}\n\tManual[\"%[1]s\"]++\n\tout := new(%[1]s)\n\t*out = *in\n\tif in.L != nil {\n\t\tout.L = append([]string{}, in.L...)\n\t}\n\tif in.p != nil {\n\t\tx := *in.p\n\t\tout.p = &x\n\t}\n\treturn out\n}\n", n))
			case "copynn":
				add(t, fmt.Sprintf(dcManualStruct, n)+fmt.Sprintf("func (in *%[1]s) DeepCopy() *%[1]s {\n\tout := new(%[1]s)\n\t*out = *in\n\tManual[\"%[1]s\"]++\n\tif in.L != nil {\n\t\tout.L = append([]string{}, in.L...)\n\t}\n\tif in.p != nil {\n\t\tx := *in.p\n\t\tout.p = &x\n\t}\n\treturn out\n}\n", n))
			case "both":
				add(t, fmt.Sprintf(dcManualStruct, n)+fmt.Sprintf("func (in *%[1]s) DeepCopyInto(out *%[1]s) {\n\tManual[\"%[1]s\"]++\n\tin.copyTo(out)\n}\nfunc (in *%[1]s) copyTo(out *%[1]s) {\n\t*out = *in\n\tif in.L != nil {\n\t\tout.L = append([]string{}, in.L...)\n\t}\n\tif in.p != nil {\n\t\tx := *in.p\n\t\tout.p = &x\n\t}\n}\nfunc (in *%[1]s) DeepCopy() *%[1]s {\n\tif in == nil {\n\t\treturn nil\n\t}\n\tManual[\"%[1]s\"]++\n\tout := new(%[1]s)\n\tin.copyTo(out)\n\treturn out\n}\n", n))
			case "valcopy":
				add(t, fmt.Sprintf(dcManualStruct, n)+fmt.Sprintf("func (in %[1]s) DeepCopy() %[1]s {\n\tManual[\"%[1]s\"]++\n\tout := in\n\tif in.L != nil {\n\t\tout.L = append([]string{}, in.L...)\n\t}\n\tif in.p != nil {\n\t\tx := *in.p\n\t\tout.p = &x\n\t}\n\treturn out\n}\n", n))
			case "slicecopy":
				t.kind = "slice"
				add(t, fmt.Sprintf("type %[1]s []string\nfunc (in %[1]s) DeepCopy() %[1]s {\n\tManual[\"%[1]s\"]++\n\tif in == nil {\n\t\treturn nil\n\t}\n\treturn append(%[1]s{}, in...)\n}\n", n))
			case "basiccopy":
				t.kind = "basic"
				add(t, fmt.Sprintf("type %[1]s string\nfunc (in %[1]s) DeepCopy() %[1]s {\n\tManual[\"%[1]s\"]++\n\treturn in\n}\n", n))
			case "basicinto":
				t.kind = "basic"
				add(t, fmt.Sprintf("type %[1]s int\nfunc (in *%[1]s) DeepCopyInto(out *%[1]s) {\n\tManual[\"%[1]s\"]++\n\t*out = *in\n}\n", n))
			case "mapinto":
				t.kind = "map"
				add(t, fmt.Sprintf("type %[1]s map[string]int\nfunc (in %[1]s) DeepCopyInto(out *%[1]s) {\n\tManual[\"%[1]s\"]++\n\tif in == nil {\n\t\t*out = nil\n\t\treturn\n\t}\n\t*out = %[1]s{}\n\tfor k, v := range in {\n\t\t(*out)[k] = v\n\t}\n}\n", n))
			}
			g.f("manual-" + how)
		}
	}
	// declare structs up front so that types can be recursive
	for i := 0; i < nTypes; i++ {
		t := dcType{name: fmt.Sprintf("T%d", i)}
		switch x := r.Intn(100); {
		case x < 58:
			t.kind = "struct"
			if chance(r, 10) {
				t.name = fmt.Sprintf("E%d", i)
			}
		case x < 72:
			t.kind = "slice"
		case x < 86:
			t.kind = "map"
		case x < 93:
			t.kind = "alias"
		default:
			t.kind = "ptr"
		}
		if chance(r, 12) && p.enabled {
			if of := g.namedLocal(func(t dcType) bool {
				return t.manual == "" && t.methods && (t.kind == "struct" || t.kind == "slice" || t.kind == "map")
			}); of != nil {
				g.f("derived")
				t.kind, t.hidden, t.methods = of.kind, of.hidden, true
				add(t, fmt.Sprintf("type %s %s\n", t.name, of.name))
				continue
			}
		}
		if chance(r, 12) && t.kind != "struct" {
			t.name = "u" + t.name
		}
		switch t.kind {
		case "struct":
			d := pre(&t)
			if !t.methods { // not enabled: its fields have to be plain
				t.shallow = true
			}
			recursive := t
			if t.methods {
				p.types = append(p.types, recursive) // visible to its own fields
			}
			var b strings.Builder
			n := 1 + r.Intn(6)
			if chance(r, 4) {
				n = 0
			}
			emb := map[string]bool{}
			if t.root {
				fmt.Fprintf(&b, "\t%s.TypeMeta\n", g.use("metav1", "k8s.io/apimachinery/pkg/apis/meta/v1"))
				emb["TypeMeta"] = true
			}
			for j := 0; j < n; j++ {
				var e string
				if t.shallow {
					e = pick(r, "int", "string", bn, ps.name)
				} else {
					e = g.expr(3)
				}
				// a struct cannot contain itself by value
				if e == t.name {
					e = "*" + e
				}
				fn := fmt.Sprintf("F%d", j)
				if chance(r, 8) {
					fn = fmt.Sprintf("f%d", j)
				}
				if chance(r, 4) {
					fn = pick(r, "In", "Out", "in", "out", "Val", "key", "DeepCopied") + fmt.Sprint(j)
				}
				base := strings.TrimPrefix(e, "*")
				if i := strings.LastIndex(base, "."); i >= 0 {
					base = base[i+1:]
				}
				if chance(r, 12) && !strings.ContainsAny(e, "[]") && !strings.HasPrefix(e, "**") && !emb[base] && !strings.Contains(strings.Join(dcBasics, " "), base) && g.embeddable(e) {
					emb[base] = true
					g.f("embedded")
					fmt.Fprintf(&b, "\t%s\n", e)
					continue
				}
				fmt.Fprintf(&b, "\t%s %s\n", fn, e)
			}
			for chance(r, 12) { // nothing can refer to these
				g.f("blank")
				e := pick(r, "struct{}", "int", "[0]int", "string")
				if !t.shallow && chance(r, 50) {
					e = pick(r, "[0]func()", "[]string", "*int", "map[string]int", "any", "[2][]byte")
				}
				lines := strings.SplitAfter(b.String(), "\n")
				at := r.Intn(len(lines))
				b.Reset()
				b.WriteString(strings.Join(lines[:at], "") + "\t_ " + e + "\n" + strings.Join(lines[at:], ""))
			}
			decl := d + fmt.Sprintf("type %s struct {\n%s}\n", t.name, b.String())
			if t.methods {
				p.decls = append(p.decls, decl)
			} else {
				add(t, decl)
			}
		case "slice":
			d := pre(&t)
			g.hid = false
			decl := d + fmt.Sprintf("type %s []%s\n", t.name, g.expr(2))
			t.hidden = g.hid
			add(t, decl)
		case "map":
			d := pre(&t)
			g.hid = false
			decl := d + fmt.Sprintf("type %s map[%s]%s\n", t.name, g.key(), g.expr(2))
			t.hidden = g.hid
			add(t, decl)
		case "alias":
			d := pre(&t)
			g.f("alias")
			g.hid = false
			decl := d + fmt.Sprintf("type %s = %s\n", t.name, g.expr(2))
			t.hidden = g.hid
			add(t, decl)
		case "ptr":
			d := pre(&t)
			g.f("named-ptr")
			g.hid = false
			decl := d + fmt.Sprintf("type %s *%s\n", t.name, g.expr(2))
			t.hidden = g.hid
			add(t, decl)
		}
	}
}

// embeddable: an embedded field must be a type name or *type name that is neither pointer nor interface.
func (g *dcGen) embeddable(e string) bool {
	ptr := strings.HasPrefix(e, "*")
	e = strings.TrimPrefix(e, "*")
	if strings.HasPrefix(e, "*") {
		return false
	}
	for _, p := range g.visible {
		for _, t := range p.types {
			n := t.name
			if p != g.cur {
				n = "." + n
			}
			if e == n || p != g.cur && strings.HasSuffix(e, n) && (t.kind == "ptr" || t.kind == "alias") {
				if t.kind == "ptr" || t.kind == "alias" {
					return false
				}
				// embedding promotes methods of the element, which is no business of this check when
				// the embedded type's methods would then stand in for the outer type's own
				return !(ptr && t.kind != "struct")
			}
		}
	}
	return true
}

func (p *dcPkg) source(helper bool) string {
	var b strings.Builder
	if p.enabled {
		b.WriteString("// +kubebuilder:object:generate=true\n")
	}
	fmt.Fprintf(&b, "package %s\n\n", p.name)
	var used []string
	for _, a := range sortedKeys(p.imports) {
		used = append(used, fmt.Sprintf("\t%s %q", a, p.imports[a]))
	}
	if len(used) > 0 {
		fmt.Fprintf(&b, "import (\n%s\n)\n\n", strings.Join(used, "\n"))
	}
	b.WriteString(strings.Join(p.decls, "\n"))
	return b.String()
}

func checkC11(c *Ctx) {
	c.Rule("one evaluation = one type of a random package whose generated methods were compiled and executed on random values; distinct by declaration")
	c.Assume("struct types used by copied types have copy methods of their own, hand-written or generated, or can be copied by assignment")
	n := c.N(36, 300)
	parallel(n, 6, func(i int) { c11Case(c, i) })
	c11Rejects(c)
	c11Either(c)
	c11Findings(c)
	c.Min("evaluations", 100)
	c.Min("values", 2000)
	c.Min("manual_calls", 50)
	c.Min("refused", 8)
}

func c11Case(c *Ctx, i int) {
	r := c.Rng("dc", i)
	dir := c.CaseDir("dc")
	mod := "dc.test/m"
	newModule(dir, mod)
	g := &dcGen{r: r, mod: mod, feat: map[string]int{}}
	names := []string{"base", "v1", pick(r, "core", "out", "key", "inVal", "copy"), "v1", pick(r, "api", "string", "range_", "x")}
	dirs := []string{"base", "grp/v1", pick(r, names[2], "types/"+names[2]), "other/v1", pick(r, "api-x/9api", "api/2023", "api/type", "api.d/go-"+names[4], "lib/kit", "kit")}
	r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a]; dirs[a], dirs[b] = dirs[b], dirs[a] })
	for j := range names {
		p := &dcPkg{name: names[j], dir: dirs[j], path: mod + "/" + dirs[j], enabled: chance(r, 75)}
		g.pkgs = append(g.pkgs, p)
		g.genPackage(p, 10)
		writeFile(filepath.Join(dir, dirs[j], "types.go"), p.source(false))
		writeFile(filepath.Join(dir, dirs[j], "manual.go"), "package "+p.name+"\n\n// Manual counts calls of hand-written methods.\nvar Manual = map[string]int{}\n")
	}
	res := c.Gen(dir, "object", "paths=./...")
	if res.TimedOut || res.Panicked() {
		return
	}
	if res.Code != 0 {
		if out := runCmd(dir, nil, toolTimeout, "go", "build", "./..."); out.Code != 0 && !strings.Contains(out.Stderr, "zz_generated") {
			c.Inconclusive("generated package does not compile: %s", clip(out.Stderr, 1500))
			return
		}
		c.Violate("refused", fmt.Sprintf("object refused packages made of copyable types only (exit %d):\n%s", res.Code, clip(res.Stderr, 3000)), nil, dir)
		return
	}
	c11Run(c, dir, g.pkgs, r.Int63())
	for k, v := range g.feat {
		c.See("constructs", k)
		c.Count("construct_uses", int64(v))
	}
}

// c11Run compiles the module with the driver and judges its report.
func c11Run(c *Ctx, dir string, pkgs []*dcPkg, seed int64) {
	var imp, reg strings.Builder
	nt := 0
	for j, p := range pkgs {
		any := false
		var rs strings.Builder
		for _, t := range p.types {
			if !t.methods {
				continue
			}
			any = true
			nt++
			fmt.Fprintf(&rs, "\t{name: %q, v: new(p%d.%s), manual: p%d.Manual, root: %v},\n", p.path+"."+t.name, j, t.name, j, t.root)
		}
		if any {
			fmt.Fprintf(&imp, "\tp%d %q\n", j, p.path)
			reg.WriteString(rs.String())
		}
		fmt.Fprintf(&reg, "")
	}
	writeFile(filepath.Join(dir, "drv", "main.go"), strings.Replace(strings.Replace(dcDriver, "//IMPORTS", imp.String(), 1), "//TYPES", reg.String(), 1))
	out := runCmd(dir, nil, toolTimeout, "go", "build", "-o", "drv/drv", "./drv")
	if out.Code != 0 {
		c.Violate("compile", "the package does not compile with its generated deepcopy code (or lacks methods):\n"+clip(out.Stderr, 3000), nil, dir)
		return
	}
	out = runCmd(dir, []string{"DRV_SEED=" + fmt.Sprint(seed), "DRV_N=" + fmt.Sprint(c.N(60, 400))}, toolTimeout, filepath.Join(dir, "drv", "drv"))
	var bad []string
	for _, l := range strings.Split(out.Stdout, "\n") {
		fs := strings.SplitN(l, "\t", 4)
		switch fs[0] {
		case "OK":
			var vals, manual int64
			fmt.Sscan(fs[2], &vals)
			fmt.Sscan(fs[3], &manual)
			c.Eval(dir + fs[1])
			c.Count("values", vals)
			c.Count("manual_calls", manual)
		case "BAD":
			bad = append(bad, l)
		}
	}
	if len(bad) > 0 {
		c.Violate("copy:"+strings.SplitN(bad[0], "\t", 4)[2], strings.Join(bad, "\n"), nil, dir)
		return
	}
	if out.Code != 0 || !strings.Contains(out.Stdout, "DONE") {
		c.Violate("crash", fmt.Sprintf("executing the generated methods crashed (exit %d):\n%s", out.Code, clip(out.Stderr, 3000)), nil, dir)
	}
}

// c11Rejects: types that cannot be deep-copied are refused, naming the package.
func c11Rejects(c *Ctx) {
	cases := []string{
		"F any", "F interface{}", "F error", "F func()", "F chan int", "F []any", "F []interface{}", "F map[string]any", "F *any", "F []error", "F map[string]func()",
		"F []chan int", "F **any", "F [][]any", "F map[string][]any", "F []map[string]error",
		// generic types have no methods that could be generated
		"type G[E any] struct{ L []E }", "type G[E any] struct{ A int }", "type G[K comparable, V any] map[K]V", "type G[E ~string] []E",
		"F []func()", "F map[string]chan int", "F map[string]map[string]any", "F Iface", "F []Iface", "F map[string]Iface", "F *Iface", "F Fn", "F []Fn", "F map[string]*Fn",
	}
	parallel(len(cases), 6, func(i int) {
		dir := c.CaseDir("rej")
		newModule(dir, "dc.test/r")
		writeFile(filepath.Join(dir, "p/types.go"), "// +kubebuilder:object:generate=true\npackage p\n\ntype Iface interface{ X() }\n\ntype Fn func()\n\ntype T struct {\n\tA int\n\t"+cases[i]+"\n}\n")
		// interface and func types are themselves no candidates for methods
		if strings.HasPrefix(cases[i], "type ") {
			writeFile(filepath.Join(dir, "p/types.go"), "// +kubebuilder:object:generate=true\npackage p\n\n"+cases[i]+"\n\ntype T struct{ A []int }\n")
		}
		src := "// +kubebuilder:object:generate=false\n"
		b := readFile(filepath.Join(dir, "p/types.go"))
		b = strings.Replace(b, "type Iface", src+"type Iface", 1)
		b = strings.Replace(b, "type Fn", src+"type Fn", 1)
		writeFile(filepath.Join(dir, "p/types.go"), b)
		res := c.Gen(dir, "object", "paths=./...")
		c.Eval("rej" + cases[i])
		if res.TimedOut || res.Panicked() {
			return
		}
		if res.Code == 0 {
			c.Violate("accepted:"+cases[i], "object accepted a field that it cannot deep-copy: "+cases[i], nil, dir)
			return
		}
		if strings.TrimSpace(res.Stderr) == "" {
			c.Violate("silent:"+cases[i], "object refused a field without saying why: "+cases[i], nil, dir)
			return
		}
		c.Count("refused", 1)
	})
}

// c11Either: constructs that may be refused, but if accepted must be copied properly.
func c11Either(c *Ctx) {
	cases := []string{"F [3]int", "F [2]*int", "F [2][]string", "F struct{ A []int }", "F struct{ A int }", "F []struct{ A *int }", "F map[string]struct{ A []int }",
		"F *struct{ A *int }", "F [2]struct{ A map[string]int }", "F *[2]*int", "F [][2]*int", "F map[string][2][]int", "F map[[2]int]int", "F map[Key]int", "F G", "F *G", "F []G", "F []*P", "F **P", "F Arr", "F []Arr"}
	parallel(len(cases), 6, func(i int) {
		dir := c.CaseDir("either")
		newModule(dir, "dc.test/e")
		off := "// +kubebuilder:object:generate=false\n"
		writeFile(filepath.Join(dir, "p/types.go"), "// +kubebuilder:object:generate=true\npackage p\n\n"+off+"type Arr [2]*int\n\ntype Key struct{ A [2]int }\n\ntype P *[]int\n\ntype G struct{ A struct{ B []int } }\n\ntype T struct {\n\tA int\n\t"+cases[i]+"\n}\n")
		writeFile(filepath.Join(dir, "p/manual.go"), "package p\n\nvar Manual map[string]int\n")
		if !strings.Contains(cases[i], "Key") {
			b := readFile(filepath.Join(dir, "p/types.go"))
			writeFile(filepath.Join(dir, "p/types.go"), strings.Replace(b, "type Key", off+"type Key", 1))
		}
		if !strings.Contains(cases[i], "G") {
			b := readFile(filepath.Join(dir, "p/types.go"))
			writeFile(filepath.Join(dir, "p/types.go"), strings.Replace(b, "type G", off+"type G", 1))
		}
		res := c.Gen(dir, "object", "paths=./...")
		if res.TimedOut || res.Panicked() {
			return
		}
		c.Eval("either" + cases[i])
		if res.Code != 0 {
			if strings.TrimSpace(res.Stderr) == "" {
				c.Violate("silent:"+cases[i], "object refused a field without saying why: "+cases[i], nil, dir)
			}
			c.Count("refused", 1)
			return
		}
		c.Count("accepted_unusual", 1)
		c11Run(c, dir, []*dcPkg{{path: "dc.test/e/p", types: []dcType{{name: "T", methods: true}}}}, c.Seed)
	})
}

// c11Findings reproduces the listed findings (see known_findings.txt).
func c11Findings(c *Ctx) {
	dir := c.CaseDir("find")
	newModule(dir, "dc.test/f")
	writeFile(filepath.Join(dir, "p/types.go"), "// +kubebuilder:object:generate=true\npackage p\n\ntype Ref map[string]string\n\nfunc (in Ref) DeepCopyInto(out *Ref) {\n\t*out = Ref{}\n\tfor k, v := range in {\n\t\t(*out)[k] = v\n\t}\n}\n\ntype T struct {\n\tM map[string]*Ref\n}\n")
	writeFile(filepath.Join(dir, "drv/main.go"), "package main\n\nimport \"dc.test/f/p\"\n\nfunc main() {\n\tt := &p.T{M: map[string]*p.Ref{\"a\": nil}}\n\tc := t.DeepCopy()\n\tif v, ok := c.M[\"a\"]; !ok || v != nil {\n\t\tpanic(\"copy differs\")\n\t}\n}\n")
	if res := c.Gen(dir, "object", "paths=./p"); res.Code == 0 {
		c.Eval("finding1")
		if out := runCmd(dir, nil, toolTimeout, "go", "run", "./drv"); out.Code != 0 {
			c.Violate("nil-map-value-of-pointer-to-reference-type-with-methods", "copying map[string]*Ref{\"a\": nil}, where Ref is a map with a hand-written DeepCopyInto, panics:\n"+clip(out.Stderr, 1500), nil, dir)
		}
	} else {
		c.Violate("refused", "object refused map[string]*Ref:\n"+res.Stderr, nil, dir)
	}
	dir = c.CaseDir("find")
	newModule(dir, "dc.test/f")
	writeFile(filepath.Join(dir, "p/types.go"), "// +kubebuilder:object:generate=true\npackage p\n\ntype in struct{ A int }\n\ntype T struct {\n\tM []in\n}\n")
	if res := c.Gen(dir, "object", "paths=./p"); res.Code == 0 {
		c.Eval("finding2")
		if out := runCmd(dir, nil, toolTimeout, "go", "build", "./..."); out.Code != 0 {
			c.Violate("unexported-type-named-like-a-generated-variable", "a slice of an unexported type named \"in\" gives code that does not compile:\n"+clip(out.Stderr, 1500), nil, dir)
		}
	}
}

const dcDriver = `package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"k8s.io/apimachinery/pkg/api/resource"
	rtm "k8s.io/apimachinery/pkg/runtime"
//IMPORTS
)

type entry struct {
	name   string
	v      any
	manual map[string]int
	root   bool
}

var entries = []entry{
//TYPES
}

var timeT = reflect.TypeOf(time.Time{})
var qtyT = reflect.TypeOf(resource.Quantity{})

var r *rand.Rand

// settable gives access to unexported fields too.
func settable(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// fill gives v (addressable) a random value.
func fill(v reflect.Value, depth int) {
	v = settable(v)
	switch v.Type() {
	case timeT:
		v.Set(reflect.ValueOf(time.Unix(int64(r.Intn(1e9)), int64(r.Intn(1e9))).UTC()))
		return
	case qtyT:
		v.Set(reflect.ValueOf(resource.MustParse([]string{"1", "100m", "1Gi", "12345678901234567890123", "0"}[r.Intn(5)])))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.Intn(200) - 100))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(r.Intn(200)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.Intn(1000)) / 8)
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(r.Intn(9)), float64(r.Intn(9))))
	case reflect.String:
		v.SetString(strconv.Itoa(r.Intn(1e6)))
	case reflect.Pointer:
		if depth <= 0 || r.Intn(4) == 0 {
			v.SetZero()
			return
		}
		n := reflect.New(v.Type().Elem())
		fill(n.Elem(), depth-1)
		v.Set(n.Convert(v.Type()))
	case reflect.Slice:
		if depth <= 0 || r.Intn(5) == 0 {
			if r.Intn(2) == 0 {
				v.SetZero()
			} else {
				v.Set(reflect.MakeSlice(v.Type(), 0, 0))
			}
			return
		}
		n := r.Intn(4)
		s := reflect.MakeSlice(v.Type(), n, n+r.Intn(3))
		for i := 0; i < n; i++ {
			fill(s.Index(i), depth-1)
		}
		v.Set(s)
	case reflect.Map:
		if depth <= 0 || r.Intn(5) == 0 {
			if r.Intn(2) == 0 {
				v.SetZero()
			} else {
				v.Set(reflect.MakeMap(v.Type()))
			}
			return
		}
		m := reflect.MakeMap(v.Type())
		for i := r.Intn(4); i > 0; i-- {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			fill(k, depth-1)
			fill(e, depth-1)
			if et := e.Type(); et.Kind() == reflect.Pointer && os.Getenv("DRV_NILMAPPTR") == "" {
				// a listed finding has a workload of its own
				if n := et.Elem().Name(); strings.HasPrefix(n, "M") && (strings.HasSuffix(n, "slicecopy") || strings.HasSuffix(n, "mapinto")) && e.IsNil() {
					continue
				}
			}
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name == "_" {
				continue
			}
			fill(v.Field(i), depth-1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i), depth-1)
		}
	case reflect.Interface:
		v.SetZero()
	default:
		panic("cannot fill " + v.Type().String())
	}
}

type span struct {
	lo, hi uintptr
	path   string
}

// isPlain tells whether assigning values of a type copies everything.
func isPlain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Name != "_" && !isPlain(t.Field(i).Type) {
				return false
			}
		}
		return true
	case reflect.Pointer, reflect.Slice, reflect.Map, reflect.Interface, reflect.Func, reflect.Chan, reflect.Array:
		return false
	}
	return true
}

// spans collects the memory v refers to, and counts instances of hand-written types.
func spans(v reflect.Value, path string, out *[]span, count map[string][2]int, plain bool) {
	t := v.Type()
	if n := t.Name(); len(n) > 2 && n[0] == 'M' && n[1] >= '0' && n[1] <= '9' && strings.Contains(t.PkgPath(), "dc.test") {
		x := count[t.PkgPath()+"."+n]
		x[1]++
		if !plain && !((v.Kind() == reflect.Slice || v.Kind() == reflect.Map) && v.IsNil()) {
			x[0]++
		}
		count[t.PkgPath()+"."+n] = x
	}
	if t == timeT {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if sz := t.Elem().Size(); sz > 0 {
			*out = append(*out, span{v.Pointer(), v.Pointer() + sz, path})
		}
		spans(v.Elem(), path+".*", out, count, plain)
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		if sz := t.Elem().Size(); sz > 0 {
			*out = append(*out, span{v.Pointer(), v.Pointer() + uintptr(v.Cap())*sz, path})
		}
		for i := 0; i < v.Len(); i++ {
			spans(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out, count, plain)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		*out = append(*out, span{v.Pointer(), v.Pointer() + 1, path})
		it := v.MapRange()
		for it.Next() {
			spans(it.Value(), path+"[k]", out, count, plain)
		}
	case reflect.Struct:
		if path != "v" && path != "copy" && isPlain(t) {
			plain = true // copied by assignment as a whole
		}
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).Name == "_" {
				continue
			}
			spans(v.Field(i), path+"."+t.Field(i).Name, out, count, plain)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			spans(v.Index(i), path, out, count, plain)
		}
	}
}

func overlap(a, b []span) string {
	for _, x := range a {
		for _, y := range b {
			if x.lo < y.hi && y.lo < x.hi {
				return x.path + " and " + y.path
			}
		}
	}
	return ""
}

func bad(e entry, sig, format string, a ...any) {
	fmt.Printf("BAD\t%s\t%s\t%s\n", e.name, sig, strings.ReplaceAll(fmt.Sprintf(format, a...), "\n", " "))
}

func total() map[string]int {
	out := map[string]int{}
	for _, e := range entries {
		pk := e.name[:strings.LastIndex(e.name, ".")]
		for k, v := range e.manual {
			out[pk+"."+k] = v
		}
	}
	return out
}

func main() {
	seed, _ := strconv.ParseInt(os.Getenv("DRV_SEED"), 10, 64)
	num, _ := strconv.Atoi(os.Getenv("DRV_N"))
	r = rand.New(rand.NewSource(seed))
	for _, e := range entries {
		vals, man, ok := 0, 0, true
		T := reflect.TypeOf(e.v).Elem()
		for i := 0; i < num && ok; i++ {
			orig := reflect.New(T)
			if i > 0 {
				fill(orig.Elem(), 2+r.Intn(7))
			}
			byRef := T.Kind() == reflect.Slice || T.Kind() == reflect.Map
			vals++
			check := func(how string, copied reflect.Value, before map[string]int) {
				var a, b []span
				cnt, cnt2 := map[string][2]int{}, map[string][2]int{}
				spans(orig.Elem(), "v", &a, cnt, false)
				spans(copied, "copy", &b, cnt2, false)
				a = append(a, span{orig.Pointer(), orig.Pointer() + max(T.Size(), 1), "v"})
				if copied.CanAddr() && T.Size() > 0 {
					p := copied.Addr().Pointer()
					b = append(b, span{p, p + T.Size(), "copy"})
				}
				if !reflect.DeepEqual(orig.Elem().Interface(), copied.Interface()) {
					ok = false
					bad(e, "unequal", "%s: copy differs: %+v versus %+v", how, orig.Elem().Interface(), copied.Interface())
					return
				}
				if o := overlap(a, b); T.Size() > 0 && o != "" {
					ok = false
					bad(e, "shared", "%s: memory shared at %s", how, o)
					return
				}
				after := total()
				for k, n := range cnt {
					d := after[k] - before[k]
					man += d
					if d < n[0] || d > n[1] {
						ok = false
						bad(e, "manual", "%s: hand-written method of %s called %d times for %d to %d values", how, k, d, n[0], n[1])
						return
					}
				}
			}
			// DeepCopyInto
			m := orig.MethodByName("DeepCopyInto")
			if !m.IsValid() {
				ok = false
				bad(e, "missing", "no DeepCopyInto")
				break
			}
			if m.Type().NumIn() != 1 || m.Type().In(0) != reflect.PointerTo(T) || m.Type().NumOut() != 0 {
				ok = false
				bad(e, "signature", "DeepCopyInto is %s", m.Type())
				break
			}
			if !(byRef && orig.Elem().IsNil()) {
				dst := reflect.New(T)
				if r.Intn(2) == 0 {
					fill(dst.Elem(), 4) // stale contents must not survive
				}
				b4 := total()
				m.Call([]reflect.Value{dst})
				check("DeepCopyInto", dst.Elem(), b4)
			}
			if !ok {
				break
			}
			m = orig.MethodByName("DeepCopy")
			if !m.IsValid() || m.Type().NumIn() != 0 || m.Type().NumOut() != 1 {
				ok = false
				bad(e, "missing", "no DeepCopy")
				break
			}
			rt := m.Type().Out(0)
			b4 := total()
			out := m.Call(nil)[0]
			switch rt {
			case T:
				cp := reflect.New(T).Elem()
				cp.Set(out)
				check("DeepCopy", cp, b4)
			case reflect.PointerTo(T):
				if out.IsNil() {
					ok = false
					bad(e, "nil", "DeepCopy of a value gave nil")
				} else {
					check("DeepCopy", out.Elem(), b4)
				}
				if strings.HasSuffix(T.Name(), "copynn") {
					// the hand-written method does not take nil
				} else if z := reflect.Zero(reflect.PointerTo(T)).MethodByName("DeepCopy").Call(nil)[0]; !z.IsNil() {
					ok = false
					bad(e, "nil", "DeepCopy of nil gave a value")
				}
			default:
				ok = false
				bad(e, "signature", "DeepCopy is %s", m.Type())
			}
			if !ok {
				break
			}
			if e.root {
				o, is := orig.Interface().(interface{ DeepCopyObject() rtm.Object })
				if !is {
					ok = false
					bad(e, "missing", "no DeepCopyObject")
					break
				}
				b4 := total()
				x := o.DeepCopyObject()
				xv := reflect.ValueOf(x)
				if x == nil || xv.Type() != reflect.PointerTo(T) {
					ok = false
					bad(e, "object", "DeepCopyObject gave %T", x)
					break
				}
				check("DeepCopyObject", xv.Elem(), b4)
				z := reflect.Zero(reflect.PointerTo(T)).Interface().(interface{ DeepCopyObject() rtm.Object }).DeepCopyObject()
				if z != nil {
					ok = false
					bad(e, "nil", "DeepCopyObject of nil gave %T", z)
				}
			}
		}
		if ok {
			fmt.Printf("OK\t%s\t%d\t%d\n", e.name, vals, man)
		}
	}
	fmt.Println("DONE")
}
`
