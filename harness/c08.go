package main

import (
	"fmt"
	"go/ast"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

// C08: every marker occurrence carries a unique id; the generator of files knows which declaration
// each occurrence belongs to, and the collected markers are compared with that.

func init() { register("C08", checkC08) }

// marker names and the targets they are registered for (p: package, t: type, f: field).
var c08Names = map[string]string{"verif:p": "p", "verif:t": "t", "verif:f": "f", "verif:tp": "tp", "verif:fp": "fp", "verif:tf": "tf", "verif:tpf": "tpf", "verif:none": "",
	"verif:sub:t": "t", "verif:sub": "p", "verif:sub:t:f": "f"}

type c08Args struct {
	ID string `marker:"id"`
	N  int    `marker:",optional"`
}

func c08Registry() *markers.Registry {
	reg := &markers.Registry{}
	tt := map[byte]markers.TargetType{'p': markers.DescribesPackage, 't': markers.DescribesType, 'f': markers.DescribesField}
	for n, ts := range c08Names {
		for i := 0; i < len(ts); i++ {
			if err := reg.Define(n, tt[ts[i]], ""); err != nil {
				panic(err)
			}
			if strings.HasPrefix(n, "verif:sub") {
				continue
			}
			if err := reg.Define(n+"s", tt[ts[i]], c08Args{}); err != nil {
				panic(err)
			}
		}
	}
	return reg
}

type c08Mk struct {
	name, id string
	bad      bool
}

type c08Exp struct {
	vals map[string]map[string][]string // target → name → ids
	all  map[string]int                 // every id that must be collected
	bad  map[string]bool                // ids whose parse error must be reported
}

// c08File writes one file and keeps track of what its markers belong to.
type c08File struct {
	r       *rand.Rand
	sb      *strings.Builder
	exp     *c08Exp
	next    *int
	nl      string
	badPct  int
	pkgvals []c08Mk // package-level occurrences in source order
	shape   []string
	prefix  string
}

func (f *c08File) p(s string) { f.sb.WriteString(strings.ReplaceAll(s, "\n", f.nl)) }

func (f *c08File) mk() c08Mk {
	*f.next++
	n := pick(f.r, sortedKeys(c08Names)...)
	if !strings.HasPrefix(n, "verif:sub") && chance(f.r, 40) {
		n += "s"
	}
	return c08Mk{name: n, id: fmt.Sprintf("id%s%dx", f.prefix, *f.next), bad: strings.HasSuffix(n, "s") && n != "verif:nones" && chance(f.r, f.badPct)}
}

func (m c08Mk) text() string {
	if !strings.HasSuffix(m.name, "s") || m.name == "verif:nones" {
		return "+" + m.name + "=" + m.id
	}
	if m.bad {
		return "+" + m.name + ":id=" + m.id + ",n=zzz"
	}
	return "+" + m.name + ":id=" + m.id
}

// group writes one comment group (adjacent lines) and gives its markers in order.
func (f *c08File) group(indent string, markerPct int) []c08Mk {
	var ms []c08Mk
	n := 1 + f.r.Intn(3)
	for i := 0; i < n; i++ {
		if chance(f.r, markerPct) {
			m := f.mk()
			switch f.r.Intn(12) {
			case 0: // looks like a marker, but is in a block comment
				f.p(indent + "/* " + m.text() + " */\n")
				continue
			case 1: // not at the start of the comment
				f.p(indent + "// see " + m.text() + "\n")
				continue
			}
			f.p(indent + pick(f.r, "// ", "//", "//   ", "//\t") + m.text() + pick(f.r, "", "", "  ") + "\n")
			ms = append(ms, m)
			continue
		}
		f.p(indent + pick(f.r, "// Some text.", "// More text, without a plus.", "//", "// - item", "/* block */", "// +", "// x +y") + "\n")
	}
	return ms
}

// blocks writes n free-standing comment groups and gives their markers by group.
func (f *c08File) blocks(indent string, n int) [][]c08Mk {
	var out [][]c08Mk
	for i := 0; i < n; i++ {
		out = append(out, f.group(indent, 75))
		f.p("\n")
	}
	return out
}

func (f *c08File) has(name string, target byte) bool {
	n := name
	if _, ok := c08Names[n]; !ok {
		n = strings.TrimSuffix(n, "s")
	}
	return strings.IndexByte(c08Names[n], target) >= 0
}

// give records that target key of the given kind must receive the markers registered for that kind.
func (f *c08File) give(key string, kind byte, ms []c08Mk) {
	for _, m := range ms {
		if !f.has(m.name, kind) {
			continue
		}
		if m.bad {
			f.exp.bad[m.id] = true
			continue
		}
		if kind == 'p' {
			f.pkgvals = append(f.pkgvals, m)
		}
		f.exp.all[m.id]++
		if key == "" {
			continue
		}
		if f.exp.vals[key] == nil {
			f.exp.vals[key] = map[string][]string{}
		}
		f.exp.vals[key][m.name] = append(f.exp.vals[key][m.name], m.id)
	}
}

func (f *c08File) givePkg(blocks [][]c08Mk) {
	for _, b := range blocks {
		f.give("pkg", 'p', b)
	}
}

func splitLast(bs [][]c08Mk) (rest [][]c08Mk, last []c08Mk) {
	if len(bs) == 0 {
		return nil, nil
	}
	return bs[:len(bs)-1], bs[len(bs)-1]
}

func (f *c08File) trailing(pct int) {
	if chance(f.r, pct) {
		f.p(" // " + pick(f.r, f.mk().text(), f.mk().text(), "text"))
	}
	f.p("\n")
}

func (f *c08File) doc(indent string, pct int) []c08Mk {
	if !chance(f.r, pct) {
		return nil
	}
	return f.group(indent, 55)
}

// freeForType applies the rule for the closest free-standing block above a type.
func (f *c08File) freeForType(key string, ms []c08Mk) {
	for _, m := range ms {
		if f.has(m.name, 't') {
			f.give(key, 't', []c08Mk{m})
		} else {
			f.give("pkg", 'p', []c08Mk{m})
		}
	}
}

func (f *c08File) fields(typ string, indent string, deep bool) {
	n := f.r.Intn(4)
	fi := 0
	// a comment behind the opening brace is the first comment above the first field
	var lead []c08Mk
	hasLead := false
	if chance(f.r, 15) {
		m := f.mk()
		f.p(" // " + m.text())
		lead, hasLead = []c08Mk{m}, true
		f.shape = append(f.shape, "brace")
	}
	f.p("\n")
	for i := 0; i < n; i++ {
		bs := f.blocks(indent, pick(f.r, 0, 0, 0, 1, 1, 2))
		if hasLead {
			bs = append([][]c08Mk{lead}, bs...)
			hasLead = false
		}
		_, last := splitLast(bs)
		d := f.doc(indent, 60)
		names := 1
		key := func(k int) string {
			if !deep {
				return ""
			}
			return fmt.Sprintf("field %s#%d", typ, fi+k)
		}
		nested := false
		switch k := f.r.Intn(10); {
		case k == 0:
			f.p(fmt.Sprintf("%sA%d, B%d int", indent, i, i))
			names = 2
			f.shape = append(f.shape, "multi")
		case k == 1:
			f.p(fmt.Sprintf("%s*Emb%d", indent, i))
			f.shape = append(f.shape, "embedded")
		case k == 2 && deep:
			nested = true
			f.p(fmt.Sprintf("%sA%d struct {", indent, i))
			f.shape = append(f.shape, "nested")
		case k == 3:
			f.p(fmt.Sprintf("%sA%d func(int) string", indent, i))
		default:
			f.p(fmt.Sprintf("%sA%d %s", indent, i, pick(f.r, "string", "map[string]int", "[]*int", "*string `json:\"x\"`")))
		}
		// the shared declaration of several names is one occurrence delivered for each name
		f.give(key(0), 'f', append(append([]c08Mk{}, last...), d...))
		if names == 2 && deep {
			f.exp.vals[key(1)] = f.exp.vals[key(0)]
		}
		if nested {
			f.fields(typ, indent+"\t", false)
			f.p(indent + "}")
		}
		f.trailing(25)
		fi += names
		if chance(f.r, 40) {
			f.p("\n")
		}
	}
	if chance(f.r, 20) { // left over before the closing brace
		f.p("\n")
		f.group(indent, 80)
		f.shape = append(f.shape, "leftover")
	}
}

// typeSpec writes one type specification (without the type keyword) and returns its name.
func (f *c08File) typeSpec(name, indent string) {
	switch f.r.Intn(9) {
	case 0:
		f.p(name + " string")
		f.shape = append(f.shape, "basic")
	case 1:
		f.p(name + " = map[string]int")
		f.shape = append(f.shape, "alias")
	case 2:
		f.p(name + " interface {\n")
		if chance(f.r, 60) {
			_, last := splitLast(f.blocks(indent+"\t", f.r.Intn(2)))
			d := f.doc(indent+"\t", 60)
			f.p(indent + "\tM()")
			f.give("", 'f', append(append([]c08Mk{}, last...), d...))
			f.trailing(20)
		}
		f.p(indent + "}")
		f.shape = append(f.shape, "interface")
	case 3:
		f.p(name + "[T any] struct {")
		f.fields(name, indent+"\t", true)
		f.p(indent + "}")
		f.shape = append(f.shape, "generic")
	default:
		f.p(name + " struct {")
		f.fields(name, indent+"\t", true)
		f.p(indent + "}")
		f.shape = append(f.shape, "struct")
	}
}

func (f *c08File) body() {
	f.p(" {\n")
	if chance(f.r, 60) {
		f.p("\t// " + f.mk().text() + "\n\n")
	}
	f.p("\t_ = 1")
	f.trailing(30)
	if chance(f.r, 40) {
		f.p("\tif true {\n\t\t// " + f.mk().text() + "\n\t}\n")
	}
	f.p("}\n")
}

func (f *c08File) write(pkg string, no int) {
	name := func(i int) string { return fmt.Sprintf("T%s%dN%d", f.prefix, no, i) }
	f.givePkg(f.blocks("", pick(f.r, 0, 0, 1, 2)))
	f.give("pkg", 'p', f.doc("", 50))
	f.p("package " + pkg + "\n\n")
	if chance(f.r, 50) {
		f.givePkg(f.blocks("", f.r.Intn(3)))
		f.doc("", 30) // godoc of an import declaration
		if chance(f.r, 50) {
			f.p("import _ \"fmt\"")
			f.trailing(30)
		} else {
			f.p("import (\n")
			if chance(f.r, 50) {
				f.group("\t", 80)
			}
			f.p("\t_ \"fmt\"")
			f.trailing(30)
			f.p(")\n")
		}
		f.p("\n")
		f.shape = append(f.shape, "import")
	}
	n := 1 + f.r.Intn(6)
	for i := 0; i < n; i++ {
		bs := f.blocks("", pick(f.r, 0, 0, 1, 1, 2, 3))
		switch k := f.r.Intn(10); {
		case k < 5: // a type
			rest, last := splitLast(bs)
			f.givePkg(rest)
			f.freeForType("type "+name(i), last)
			f.give("type "+name(i), 't', f.doc("", 65))
			f.p("type ")
			f.typeSpec(name(i), "")
			f.trailing(30)
		case k < 7: // a group of types
			f.givePkg(bs)
			f.doc("", 25) // godoc of the group
			f.p("type (\n")
			f.shape = append(f.shape, "group")
			for j := 0; j <= f.r.Intn(3); j++ {
				nm := fmt.Sprintf("%sG%d", name(i), j)
				rest, last := splitLast(f.blocks("\t", pick(f.r, 0, 0, 1, 1, 2)))
				f.givePkg(rest)
				f.freeForType("type "+nm, last)
				f.give("type "+nm, 't', f.doc("\t", 65))
				f.p("\t")
				f.typeSpec(nm, "\t")
				f.trailing(25)
			}
			if chance(f.r, 20) {
				f.p("\n")
				f.give("pkg", 'p', f.group("\t", 80))
				f.shape = append(f.shape, "groupend")
			}
			f.p(")\n")
		case k == 7: // functions
			f.givePkg(bs)
			f.doc("", 50)
			f.p("func F" + name(i) + "(a int, b ...string)")
			f.body()
			f.shape = append(f.shape, "func")
		case k == 8:
			f.givePkg(bs)
			f.doc("", 50)
			f.p(pick(f.r, "var", "const") + " V" + name(i) + " = 1")
			f.trailing(40)
			f.shape = append(f.shape, "var")
		default:
			f.givePkg(bs)
			f.doc("", 50)
			f.p(pick(f.r, "var", "const") + " (\n")
			f.group("\t", 60)
			f.p("\tV" + name(i) + " = 1")
			f.trailing(40)
			if chance(f.r, 30) {
				f.p("\n")
				f.group("\t", 80)
			}
			f.p(")\n")
			f.shape = append(f.shape, "vargroup")
		}
		if chance(f.r, 85) {
			f.p("\n")
		}
	}
	if chance(f.r, 50) {
		f.p("\n")
		f.givePkg(f.blocks("", 1+f.r.Intn(2)))
	}
}

func c08IDs(vals []any) []string {
	var out []string
	for _, v := range vals {
		switch x := v.(type) {
		case string:
			out = append(out, x)
		case c08Args:
			out = append(out, x.ID)
		default:
			out = append(out, fmt.Sprintf("%T", v))
		}
	}
	return out
}

func checkC08(c *Ctx) {
	c.Rule("a file set is nontrivial if it has collected markers; distinct by the shape of declarations and blocks and the attribution computed")
	c.Assume("attribution rules as documented on Collector.MarkersInPackage: markers in function bodies, in the docs of functions, variables, imports and type groups, behind code, or between fields but not closest to one belong to nothing")
	rounds := c.N(12, 150)
	for round := 0; round < rounds; round++ {
		r := c.Rng("files", round)
		dir := c.CaseDir("c08")
		newModule(dir, "example.com/m")
		npkg := 40
		exps := make([]*c08Exp, npkg)
		shapes := make([]string, npkg)
		for k := 0; k < npkg; k++ {
			e := &c08Exp{vals: map[string]map[string][]string{}, all: map[string]int{}, bad: map[string]bool{}}
			exps[k] = e
			next := 0
			badPct := pick(r, 0, 0, 0, 10)
			nfiles := 1 + r.Intn(3)
			for fn := 0; fn < nfiles; fn++ {
				f := &c08File{r: r, sb: &strings.Builder{}, exp: e, next: &next, nl: pick(r, "\n", "\n", "\n", "\r\n"), badPct: badPct, prefix: fmt.Sprintf("P%dF", k)}
				f.write("v1", fn)
				var emb strings.Builder
				if fn == 0 {
					emb.WriteString("package v1\n\ntype Emb0 struct{}\n\ntype Emb1 struct{}\n\ntype Emb2 struct{}\n\ntype Emb3 struct{}\n")
					writeFile(filepath.Join(dir, fmt.Sprintf("p%d", k), "zz.go"), emb.String())
				}
				writeFile(filepath.Join(dir, fmt.Sprintf("p%d", k), fmt.Sprintf("f%d.go", fn)), f.sb.String())
				shapes[k] += strings.Join(f.shape, ",") + ";"
			}
			if chance(r, 30) { // markers in test files are not part of the package
				writeFile(filepath.Join(dir, fmt.Sprintf("p%d", k), "f_test.go"), "// +verif:p=testfile\n\n// +verif:ps:n=bad\npackage v1\n\n// +verif:t=testfile\ntype InTest struct{}\n")
			}
		}
		roots, err := loadPkgs(dir, "./...")
		if err != nil {
			c.Violate("load-failed", fmt.Sprintf("loading generated packages failed: %v", err), nil, dir)
			return
		}
		byp := byPath(roots)
		col := &markers.Collector{Registry: c08Registry()}
		for k := 0; k < npkg; k++ {
			p := byp[fmt.Sprintf("example.com/m/p%d", k)]
			if p == nil {
				c.Violate("package-missing", fmt.Sprintf("package p%d was not loaded", k), nil, dir)
				continue
			}
			c08Judge(c, col, p, exps[k], shapes[k], filepath.Join(dir, fmt.Sprintf("p%d", k)))
		}
		_ = os.RemoveAll(dir)
	}
	c.Min("collected", 1000)
	c.Min("errors", 10)
}

func c08Judge(c *Ctx, col *markers.Collector, p *loader.Package, e *c08Exp, shape, dir string) {
	nodes, err := col.MarkersInPackage(p)
	if errs := pkgErrors([]*loader.Package{p}); len(e.bad) == 0 && len(errs) > 0 {
		c.Violate("unexpected-errors", fmt.Sprintf("valid package has errors: %v", errs), nil, dir)
		return
	}
	if len(e.bad) > 0 {
		// exactly the markers that do not parse are reported, each at its own place
		want := map[string]bool{}
		for id := range e.bad {
			want[c08Line(dir, id)] = true
		}
		for try := 0; try < 2; try++ {
			if err == nil {
				c.Violate("errors-lost", fmt.Sprintf("markers %v do not parse, but no error was given (call %d)", sortedKeys(e.bad), try+1), nil, dir)
				return
			}
			got := map[string]bool{}
			before := len(p.Errors)
			p.AddError(err)
			list := p.Errors[before:]
			for _, x := range list {
				fs := strings.Split(filepath.Base(x.Pos), ":")
				if len(fs) < 2 {
					c.Violate("error-without-position", fmt.Sprintf("error %v has no position", x), nil, dir)
					return
				}
				got[fs[0]+":"+fs[1]] = true
			}
			if strings.Join(sortedKeys(got), " ") != strings.Join(sortedKeys(want), " ") || len(list) != len(want) {
				c.Violate("wrong-errors", fmt.Sprintf("marker errors reported at %v, expected at %v (%d errors)", sortedKeys(got), sortedKeys(want), len(list)), nil, dir)
				return
			}
			c.Count("errors", int64(len(list)))
			if markers.EachType(col, p, func(*markers.TypeInfo) {}) == nil {
				c.Violate("errors-lost", "EachType succeeded on a package whose markers do not parse", nil, dir)
				return
			}
			_, err = col.MarkersInPackage(p)
		}
		c.Eval("bad/" + shape)
		return
	}
	if err != nil {
		c.Violate("unexpected-errors", fmt.Sprintf("collecting valid markers failed: %v", err), nil, dir)
		return
	}
	// nothing lost, nothing delivered twice
	all := map[string]int{}
	for n, vs := range nodes {
		for _, v := range vs {
			for _, id := range c08IDs(v) {
				all[id]++
			}
		}
		if _, isFile := n.(*ast.File); isFile {
			c.Count("file_nodes", 1)
		}
	}
	var diff []string
	for id, n := range e.all {
		if all[id] != n {
			diff = append(diff, fmt.Sprintf("%s (%s): collected %d times, expected %d", id, c08Line(dir, id), all[id], n))
		}
	}
	for id, n := range all {
		if e.all[id] == 0 {
			diff = append(diff, fmt.Sprintf("%s (%s): collected %d times, expected none", id, c08Line(dir, id), n))
		}
	}
	sort.Strings(diff)
	if len(diff) > 0 {
		c.Violate("lost-or-extra", "markers collected differ from the markers written:\n"+strings.Join(diff, "\n"), nil, dir)
		return
	}
	got := map[string]map[string][]string{}
	rec := func(key string, vs markers.MarkerValues) {
		for n, v := range vs {
			if len(v) == 0 {
				continue
			}
			if got[key] == nil {
				got[key] = map[string][]string{}
			}
			got[key][n] = append(got[key][n], c08IDs(v)...)
		}
	}
	pm, err := markers.PackageMarkers(col, p)
	if err != nil {
		c.Violate("unexpected-errors", fmt.Sprintf("PackageMarkers failed: %v", err), nil, dir)
		return
	}
	rec("pkg", pm)
	err = markers.EachType(col, p, func(info *markers.TypeInfo) {
		rec("type "+info.Name, info.Markers)
		for i, fl := range info.Fields {
			rec(fmt.Sprintf("field %s#%d", info.Name, i), fl.Markers)
		}
	})
	if err != nil {
		c.Violate("unexpected-errors", fmt.Sprintf("EachType failed: %v", err), nil, dir)
		return
	}
	keys := map[string]bool{}
	for k := range got {
		keys[k] = true
	}
	for k := range e.vals {
		keys[k] = true
	}
	n := 0
	for _, k := range sortedKeys(keys) {
		ns := map[string]bool{}
		for x := range got[k] {
			ns[x] = true
		}
		for x := range e.vals[k] {
			ns[x] = true
		}
		for _, x := range sortedKeys(ns) {
			g, w := strings.Join(got[k][x], " "), strings.Join(e.vals[k][x], " ")
			if g != w {
				c.Violate("wrong-attribution", fmt.Sprintf("%s of package %s has %s = [%s], expected [%s]", k, filepath.Base(dir), x, g, w), nil, dir)
				return
			}
			n += len(got[k][x])
		}
	}
	c.Count("collected", int64(n))
	c.Count("targets", int64(len(keys)))
	for _, s := range strings.Split(strings.ReplaceAll(shape, ";", ","), ",") {
		if s != "" {
			c.See("constructs", s)
		}
	}
	if n > 0 {
		c.Eval(fmt.Sprint(shape, len(keys), n))
	} else {
		c.Eval("")
	}
}

// c08Line gives the file and line of the marker with the given id.
func c08Line(dir, id string) string {
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, m := range ms {
		for i, l := range strings.Split(readFile(m), "\n") {
			if strings.Contains(l, id) {
				return fmt.Sprintf("%s:%d", filepath.Base(m), i+1)
			}
		}
	}
	return "?"
}
