package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/genall/help"
	prettyhelp "sigs.k8s.io/controller-tools/pkg/genall/help/pretty"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

// C19: the help output of the tools, against the registered definitions and the source.

func init() { register("C19", checkC19) }

type hArg struct {
	Type     string `json:"type"`
	Optional bool   `json:"optional"`
	ItemType *hArg  `json:"itemType,omitempty"`
}

type hField struct {
	Name string `json:"name"`
	hArg
	Summary string `json:"summary"`
	Details string `json:"details,omitempty"`
}

type hMarker struct {
	Name       string   `json:"name"`
	Target     string   `json:"target"`
	Summary    string   `json:"summary"`
	Details    string   `json:"details,omitempty"`
	Category   string   `json:"category"`
	Deprecated *string  `json:"deprecatedInFavorOf,omitempty"`
	Fields     []hField `json:"fields,omitempty"`
}

type hCategory struct {
	Category string    `json:"category"`
	Markers  []hMarker `json:"markers"`
}

func checkC19(c *Ctx) {
	c.Rule("The help of the built tool for each generator and for random sets of them (text and JSON, several runs each) is compared with the registered definitions, whose arguments are derived by reflection and whose documentation is read from the source; random definitions go through the help model in process; random marker types go through the built helpgen, and the generated code is compiled and run. One evaluation is one set of generators, one registry or one package.")
	c.Assume("the registries are right about which markers are understood; C03, C06 and C08 judge what is accepted")
	c.Min("listed_markers", 500)
	c.Min("documented_markers", 100)
	c.Min("text_entries", 500)
	c.Min("random_definitions", 500)
	c.Min("helpgen_types", 100)
	tool(c)
	optionsHelp(c)
	randomDefs(c)
	n := c.N(40, 300)
	parallel(n, 8, func(i int) { helpgenCase(c, i) })
}

// argModel derives an argument's type from the Go type.
func argModel(t reflect.Type) hArg {
	switch t {
	case reflect.TypeOf(markers.RawArguments(nil)):
		return hArg{Type: "raw"}
	case reflect.TypeOf((*interface{})(nil)).Elem():
		return hArg{Type: "any"}
	}
	var a hArg
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
		a.Optional = true
	}
	switch t.Kind() {
	case reflect.String:
		a.Type = "string"
	case reflect.Int, reflect.Int32:
		a.Type = "int"
	case reflect.Float64:
		a.Type = "number"
	case reflect.Bool:
		a.Type = "bool"
	case reflect.Slice, reflect.Map:
		a.Type = t.Kind().String()
		x := argModel(t.Elem())
		a.ItemType = &x
	default:
		panic("no argument type for " + t.String())
	}
	return a
}

type argInfo struct {
	arg   hArg
	field string
}

// argsModel derives a definition's arguments from its Go type.
func argsModel(t reflect.Type) map[string]argInfo {
	out := map[string]argInfo{}
	if t.Kind() != reflect.Struct {
		out[""] = argInfo{argModel(t), ""}
		return out
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.IsExported() {
			continue
		}
		a := argModel(f.Type)
		parts := strings.Split(f.Tag.Get("marker"), ",")
		name := parts[0]
		if name == "" {
			name = lowerFirstWord(f.Name)
		}
		for _, p := range parts[1:] {
			a.Optional = a.Optional || p == "optional"
		}
		out[name] = argInfo{a, f.Name}
	}
	return out
}

// lowerFirstWord turns the first letter to lower case.
func lowerFirstWord(s string) string { return strings.ToLower(s[:1]) + s[1:] }

// goDocs holds the documentation of a type, read from the source.
type goDocs struct {
	doc      string
	fields   map[string]string
	help     bool // has +controllertools:marker:generateHelp
	category string
}

func commentRaw(g *ast.CommentGroup) []string {
	if g == nil {
		return nil
	}
	var out []string
	for _, c := range g.List {
		out = append(out, c.Text)
	}
	return out
}

var helpMarker = regexp.MustCompile(`^//\s*\+controllertools:marker:generateHelp(?::category=(.*))?$`)

func readGoDocs(dir string) map[string]*goDocs {
	out := map[string]*goDocs{}
	fset := token.NewFileSet()
	entries, err := os.ReadDir(dir)
	if err != nil {
		panic(err)
	}
	for _, e := range entries {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		// the closest and the second closest comment group above a type may hold markers
		ends := map[int]*ast.CommentGroup{}
		for _, g := range f.Comments {
			ends[fset.Position(g.End()).Line] = g
		}
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.TYPE {
				continue
			}
			for _, s := range gd.Specs {
				ts := s.(*ast.TypeSpec)
				doc := ts.Doc
				start := ts.Pos()
				if !gd.Lparen.IsValid() {
					start = gd.Pos()
					if doc == nil {
						doc = gd.Doc
					}
				}
				x := &goDocs{doc: docText(commentRaw(doc)), fields: map[string]string{}}
				groups := []*ast.CommentGroup{doc}
				if doc != nil {
					start = doc.Pos()
				}
				groups = append(groups, ends[fset.Position(start).Line-2])
				for _, g := range groups {
					for _, l := range commentRaw(g) {
						if m := helpMarker.FindStringSubmatch(strings.TrimRight(l, " \t")); m != nil {
							x.help = true
							x.category = strings.Trim(m[1], "\"`")
						}
					}
				}
				if st, ok := ts.Type.(*ast.StructType); ok {
					for _, f := range st.Fields.List {
						for _, n := range f.Names {
							x.fields[n.Name] = docText(commentRaw(f.Doc))
						}
					}
				}
				out[ts.Name.Name] = x
			}
		}
	}
	return out
}

// summaryOf splits documentation in a summary and details, leaving out the name at its beginning.
func summaryOf(name, doc string) (string, string) {
	first, rest, _ := strings.Cut(doc, "\n")
	if first == name {
		first = ""
	} else {
		first = strings.TrimPrefix(first, name+" ")
	}
	return first, strings.TrimSpace(rest)
}

var docCache = map[string]map[string]*goDocs{}

// docsOf finds the documentation of a type of the repository.
func docsOf(t reflect.Type) *goDocs {
	const mod = "sigs.k8s.io/controller-tools"
	if t.Name() == "" || !strings.HasPrefix(t.PkgPath(), mod) {
		return nil
	}
	if docCache[t.PkgPath()] == nil {
		docCache[t.PkgPath()] = readGoDocs(filepath.Join(repoDir, strings.TrimPrefix(t.PkgPath(), mod)))
	}
	return docCache[t.PkgPath()][t.Name()]
}

// wantMarker is the help a definition ought to have; text tells whether its texts are known.
//
// Markers of the apply category share a type with other ones, but are described by hand.
func wantMarker(d *markers.Definition, reg *markers.Registry) (m hMarker, text bool) {
	m = hMarker{Name: d.Name, Target: map[markers.TargetType]string{markers.DescribesPackage: "package", markers.DescribesType: "type", markers.DescribesField: "field"}[d.Target]}
	docs := docsOf(d.Output)
	text = docs != nil && docs.help
	if h := reg.HelpFor(d); text && h != nil && h.Category == "apply" && docs.category != "apply" {
		text = false
	}
	if text {
		m.Category = docs.category
		m.Summary, m.Details = summaryOf(d.Output.Name(), docs.doc)
		if strings.HasPrefix(d.Name, "kubebuilder:validation:items:") {
			m.Summary = "for array items " + m.Summary
		}
	}
	args := argsModel(d.Output)
	if d.AnonymousField() {
		// a struct's only field may stand for the marker's value, and the value may be optional
		for _, a := range args {
			if d.Output.Kind() != reflect.Struct {
				a.arg.Optional = a.arg.Optional || d.Fields[""].Optional
			}
			args = map[string]argInfo{"": a}
		}
	}
	for _, n := range sortedKeys(args) {
		f := hField{Name: n, hArg: args[n].arg}
		if text && args[n].field != "" {
			f.Summary, f.Details = summaryOf(args[n].field, docs.fields[args[n].field])
		}
		m.Fields = append(m.Fields, f)
	}
	return
}

func markerKey(m hMarker) string { return m.Name + " (" + m.Target + ")" }

// compareHelp compares listed markers with definitions.
func compareHelp(c *Ctx, got []hCategory, defs []*markers.Definition, reg *markers.Registry, grouped bool) []string {
	var bad []string
	seen := map[string]hMarker{}
	for _, cat := range got {
		for _, m := range cat.Markers {
			k := markerKey(m)
			if _, dup := seen[k]; dup {
				bad = append(bad, k+" is listed twice")
			}
			seen[k] = m
			if grouped && m.Category != cat.Category {
				bad = append(bad, fmt.Sprintf("%s of category %q is listed under %q", k, m.Category, cat.Category))
			}
		}
	}
	for _, d := range defs {
		want, text := wantMarker(d, reg)
		k := markerKey(want)
		m, ok := seen[k]
		delete(seen, k)
		if !ok {
			bad = append(bad, k+" is not listed")
			continue
		}
		c.Count("listed_markers", 1)
		if text {
			c.Count("documented_markers", 1)
		} else {
			if m.Summary == "" {
				bad = append(bad, k+" has no summary")
			}
			if grouped && m.Category == "" {
				bad = append(bad, k+" has no category")
			}
			want.Summary, want.Details, want.Category = m.Summary, m.Details, m.Category
			for i := range want.Fields {
				if i < len(m.Fields) {
					want.Fields[i].Summary, want.Fields[i].Details = m.Fields[i].Summary, m.Fields[i].Details
				}
			}
		}
		want.Deprecated = m.Deprecated
		if m.Deprecated != nil && *m.Deprecated != "" {
			found := false
			for _, o := range defs {
				found = found || o.Name == *m.Deprecated
			}
			if !found {
				bad = append(bad, k+" is said to be deprecated in favor of the unknown "+*m.Deprecated)
			}
		}
		a, _ := json.MarshalIndent(want, "", " ")
		b, _ := json.MarshalIndent(m, "", " ")
		if string(a) != string(b) {
			bad = append(bad, k+" is not described as it is: "+lineDiff(string(a), string(b)))
		}
	}
	for k := range seen {
		bad = append(bad, k+" is listed, but not understood")
	}
	sort.Strings(bad)
	return bad
}

// genOpts returns the least that selects a generator.
var genOpts = map[string]string{"crd": "crd", "rbac": "rbac:roleName=x", "object": "object", "webhook": "webhook", "schemapatch": "schemapatch:manifests=x", "applyconfiguration": "applyconfiguration"}

func tool(c *Ctx) {
	r := c.Rng("sets", 0)
	var sets [][]string
	for _, n := range sortedKeys(genOpts) {
		sets = append(sets, []string{n})
	}
	for i := 0; i < c.N(12, 60); i++ {
		sets = append(sets, subset(r, 50, sortedKeys(genOpts)...))
	}
	sets = append(sets, sortedKeys(genOpts))
	for _, s := range sets { // fills the cache
		reg := &markers.Registry{}
		for _, n := range s {
			if err := genByName[n].RegisterMarkers(reg); err != nil {
				c.Violate("register", n+" cannot register its markers: "+err.Error(), nil, "")
			}
		}
		for _, d := range reg.AllDefinitions() {
			docsOf(d.Output)
		}
	}
	parallel(len(sets), 8, func(i int) {
		r := c.Rng("set", i)
		s := append([]string{}, sets[i]...)
		r.Shuffle(len(s), func(a, b int) { s[a], s[b] = s[b], s[a] })
		reg := &markers.Registry{}
		var args []string
		for _, n := range s {
			_ = genByName[n].RegisterMarkers(reg)
			args = append(args, genOpts[n])
		}
		if chance(r, 30) {
			args = append(args, "paths=./nonexistent/...")
		}
		if chance(r, 30) {
			args = append(args, "output:none")
		}
		defs := reg.AllDefinitions()
		c.Eval(strings.Join(args, " "))
		for level := 1; level <= 4; level++ {
			var runs []string
			for k := 0; k < 3; k++ {
				res := c.Gen("/", append(append([]string{}, args...), "-"+strings.Repeat("w", level))...)
				if res.Code != 0 {
					c.Violate("fails", fmt.Sprintf("controller-gen %s -%s fails (%d): %s", strings.Join(args, " "), strings.Repeat("w", level), res.Code, clip(res.Stderr, 2000)), nil, "")
					return
				}
				runs = append(runs, res.Stdout+res.Stderr)
			}
			for _, x := range runs[1:] {
				c.Count("repeated_runs", 1)
				if x != runs[0] {
					c.Violate("unstable", fmt.Sprintf("controller-gen %s -%s differs from run to run: %s", strings.Join(args, " "), strings.Repeat("w", level), lineDiff(strings.ReplaceAll(runs[0], "{", "\n{"), strings.ReplaceAll(x, "{", "\n{"))), nil, "")
					return
				}
			}
			var bad []string
			if level == 4 {
				var got []hCategory
				dec := json.NewDecoder(strings.NewReader(runs[0]))
				dec.DisallowUnknownFields()
				if err := dec.Decode(&got); err != nil {
					bad = append(bad, "JSON help: "+err.Error())
				} else {
					bad = compareHelp(c, got, defs, reg, true)
				}
			} else {
				bad = textHelp(c, runs[0], defs, level, reg)
			}
			if len(bad) > 0 {
				c.Violate("help", fmt.Sprintf("controller-gen %s -%s:\n%s", strings.Join(args, " "), strings.Repeat("w", level), clip(strings.Join(bad, "\n"), 6000)), nil, "")
				return
			}
		}
	})
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func argSyntax(name string, a hArg) string {
	var typ func(hArg) string
	typ = func(a hArg) string {
		switch a.Type {
		case "slice":
			return "[]" + typ(*a.ItemType)
		case "map":
			return "map[string]" + typ(*a.ItemType)
		}
		return a.Type
	}
	return name + "=<" + typ(a) + ">"
}

// textHelp checks that the text help has exactly one entry for each of the definitions.
func textHelp(c *Ctx, text string, defs []*markers.Definition, level int, reg *markers.Registry) []string {
	var bad []string
	text = ansi.ReplaceAllString(text, "")
	lines := strings.Split(text, "\n")
	starts := map[string]string{} // name and target -> entry
	var key string
	for _, l := range lines {
		if strings.HasPrefix(l, "+") {
			if level == 1 {
				f := strings.Fields(l)
				name := f[0]
				// the name ends where the arguments begin
				if i := strings.IndexAny(name, "[="); i >= 0 {
					name = name[:i]
				}
				key = strings.TrimPrefix(name, "+")
				target := "?"
				if len(f) > 1 {
					target = f[1]
				}
				key = "\x00" + key + "\x00" + target // arguments may follow the name directly
			} else {
				f := strings.Fields(l)
				if len(f) != 2 {
					bad = append(bad, "odd line: "+l)
					continue
				}
				key = strings.TrimPrefix(f[0], "+") + " (" + f[1] + ")"
			}
			if level > 1 {
				if _, dup := starts[key]; dup {
					bad = append(bad, key+" has two entries")
				}
			} else {
				for n := 0; starts[key] != ""; n++ {
					key += "\x00"
				}
			}
		}
		if key != "" {
			starts[key] += l + "\n"
		}
	}
	if len(starts) != len(defs) {
		bad = append(bad, fmt.Sprintf("%d entries for %d markers", len(starts), len(defs)))
	}
	for _, d := range defs {
		want, documented := wantMarker(d, reg)
		if !documented {
			if h := reg.HelpFor(d); h != nil {
				want.Summary, want.Details = h.Summary, h.Details
			}
		}
		c.Count("text_entries", 1)
		var entry string
		if level == 1 {
			// +name:a=<b>[,c=<d>]  target  summary
			var syn strings.Builder
			syn.WriteString("+" + want.Name)
			sep := ":"
			if len(want.Fields) == 1 && want.Fields[0].Name == "" {
				sep = ""
			}
			for _, f := range want.Fields {
				s := sep + argSyntax(f.Name, f.hArg)
				if f.Optional {
					s = "[" + s + "]"
				}
				syn.WriteString(s)
				sep = ","
			}
			n := 0
			for _, l := range lines {
				if strings.HasPrefix(l, syn.String()+" ") {
					rest := strings.Fields(l[len(syn.String()):])
					if len(rest) > 0 && rest[0] == want.Target {
						n++
						entry = l
					}
				}
			}
			if n != 1 {
				bad = append(bad, fmt.Sprintf("%d entries for %s of %s", n, syn.String(), want.Target))
				continue
			}
			if !strings.Contains(entry, want.Summary) {
				bad = append(bad, markerKey(want)+" without its summary: "+entry)
			}
			continue
		}
		entry, ok := starts[markerKey(want)]
		if !ok {
			bad = append(bad, "no entry for "+markerKey(want))
			continue
		}
		flat := strings.Join(strings.Fields(entry), " ")
		has := func(s string) {
			if !strings.Contains(flat, strings.Join(strings.Fields(s), " ")) {
				bad = append(bad, fmt.Sprintf("entry of %s lacks %q:\n%s", markerKey(want), s, entry))
			}
		}
		has(want.Summary)
		if level == 3 {
			has(want.Details)
		}
		for _, f := range want.Fields {
			s := argSyntax(f.Name, f.hArg)
			if f.Optional {
				s = "[" + s + "]"
			}
			has(s)
			has(f.Summary)
			if level == 3 {
				has(f.Details)
			}
		}
	}
	return bad
}

// optionsHelp checks the help for command line options.
func optionsHelp(c *Ctx) {
	var defs []*markers.Definition
	def := func(name string, x interface{}) {
		d, err := markers.MakeDefinition(name, markers.DescribesPackage, x)
		if err != nil {
			panic(err)
		}
		docsOf(d.Output)
		defs = append(defs, d)
	}
	rules := map[string]interface{}{"dir": genall.OutputToDirectory(""), "none": genall.OutputToNothing, "stdout": genall.OutputToStdout, "artifacts": genall.OutputArtifacts{}}
	for n, g := range genByName {
		def(n, g)
		for k, x := range rules {
			def("output:"+n+":"+k, x)
		}
	}
	for k, x := range rules {
		def("output:"+k, x)
	}
	def("paths", genall.InputPaths(nil))
	for level := 1; level <= 4; level++ {
		var runs []string
		for k := 0; k < 4; k++ {
			res := c.Gen("/", "-"+strings.Repeat("h", level))
			if res.Code != 0 {
				c.Violate("fails", fmt.Sprintf("controller-gen -%s fails: %s", strings.Repeat("h", level), clip(res.Stderr, 2000)), nil, "")
				return
			}
			runs = append(runs, res.Stdout+res.Stderr)
			if runs[k] != runs[0] {
				c.Violate("unstable", fmt.Sprintf("controller-gen -%s differs from run to run: %s", strings.Repeat("h", level), lineDiff(runs[0], runs[k])), nil, "")
				return
			}
		}
		c.Eval(fmt.Sprint("options", level))
		if level < 4 {
			continue
		}
		text := runs[0]
		i := strings.Index(text, "[{")
		if i < 0 {
			c.Violate("help", "controller-gen -hhhh prints no JSON", nil, "")
			return
		}
		var got []hCategory
		if err := json.NewDecoder(strings.NewReader(text[i:])).Decode(&got); err != nil {
			c.Violate("help", "controller-gen -hhhh: "+err.Error(), nil, "")
			return
		}
		if bad := compareHelp(c, got, defs, &markers.Registry{}, false); len(bad) > 0 {
			c.Violate("help", "controller-gen -hhhh:\n"+clip(strings.Join(bad, "\n"), 6000), nil, "")
		}
	}
	// the text lists the generators, the default output rules, and the paths
	for level := 1; level <= 3; level++ {
		res := c.Gen("/", "-"+strings.Repeat("h", level))
		all := res.Stdout + res.Stderr
		_, text, _ := strings.Cut(all, "\nOptions\n")
		var shown []*markers.Definition
		for _, d := range defs {
			if strings.Count(d.Name, ":") < 2 {
				shown = append(shown, d)
			}
		}
		if bad := textHelp(c, text, shown, level, &markers.Registry{}); len(bad) > 0 {
			c.Violate("help", fmt.Sprintf("controller-gen -%s:\n%s", strings.Repeat("h", level), clip(strings.Join(bad, "\n"), 6000)), nil, "")
		}
	}
}

func randArgType(r *rand.Rand, depth int) reflect.Type {
	switch r.Intn(10) {
	case 0:
		return reflect.TypeOf("")
	case 1:
		return reflect.TypeOf(0)
	case 2:
		return reflect.TypeOf(int32(0))
	case 3:
		return reflect.TypeOf(0.5)
	case 4:
		return reflect.TypeOf(true)
	case 5:
		return reflect.TypeOf((*interface{})(nil)).Elem()
	case 6, 7:
		if depth > 0 {
			return reflect.SliceOf(randArgType(r, depth-1))
		}
	case 8:
		if depth > 0 {
			return reflect.MapOf(reflect.TypeOf(""), randArgType(r, depth-1))
		}
	case 9:
		t := randArgType(r, depth)
		if t.Kind() != reflect.Ptr && t.Kind() != reflect.Interface {
			return reflect.PointerTo(t)
		}
		return t
	}
	return reflect.TypeOf("")
}

// randomDefs puts random definitions through the help model.
func randomDefs(c *Ctx) {
	n := c.N(400, 4000)
	parallel(n, 8, func(i int) {
		r := c.Rng("defs", i)
		reg := &markers.Registry{}
		want := map[string]hMarker{} // by key
		cats := map[string][]string{}
		k := 1 + r.Intn(12)
		for j := 0; j < k; j++ {
			name := pick(r, "a", "b", "a:b", "a:b:c", "a.b/c", "A", "zz", "é", "output:x", "output:x:y", "paths") + pick(r, "", "", "1", ":x")
			target := markers.TargetType(r.Intn(3))
			key := name + " (" + target.String() + ")"
			if _, dup := want[key]; dup {
				continue
			}
			var t reflect.Type
			switch {
			case chance(r, 30):
				t = randArgType(r, 3)
				if chance(r, 20) {
					t = reflect.TypeOf(markers.RawArguments(nil))
				}
			default:
				var fs []reflect.StructField
				names := map[string]bool{}
				for f := 0; f < r.Intn(5); f++ {
					fn := pick(r, "Name", "URL", "HTTPPort", "X", "XY", "XYz", "JSONPath", "A1", "ÜName", "Value_2", "IDs")
					arg := lowerFirstWord(fn)
					tag := ""
					if chance(r, 40) {
						arg = pick(r, "custom", "other", "with space", "UPPER", arg)
						tag = "marker:\"" + arg + pick(r, "", ",optional", ",optional", ",x") + "\""
					} else if chance(r, 30) {
						tag = "marker:\",optional\""
					}
					if strings.HasPrefix(fn, "Ü") && !strings.Contains(tag, "\"custom") && !strings.Contains(tag, "\"other") {
						continue // what the name is then isn't documented
					}
					if names[fn] || names["="+arg] {
						continue
					}
					names[fn], names["="+arg] = true, true
					fs = append(fs, reflect.StructField{Name: fn, Type: randArgType(r, 2), Tag: reflect.StructTag(tag)})
				}
				t = reflect.StructOf(fs)
			}
			if t.Kind() == reflect.Interface {
				continue // has no values to make the definition from
			}
			d, err := markers.MakeDefinition(name, target, reflect.Zero(t).Interface())
			if err != nil {
				c.Violate("define", fmt.Sprintf("cannot define %s with %s: %v", name, t, err), nil, "")
				return
			}
			if err := reg.Register(d); err != nil {
				c.Violate("define", fmt.Sprintf("cannot register %s with %s: %v", name, t, err), nil, "")
				return
			}
			c.Count("random_definitions", 1)
			w, _ := wantMarker(d, reg)
			if chance(r, 85) {
				h := &markers.DefinitionHelp{Category: pick(r, "", "one", "two", "Three"), FieldHelp: map[string]markers.DetailedHelp{}}
				h.Summary, h.Details = "s of "+key, pick(r, "", "d of "+key)
				if chance(r, 20) {
					x := pick(r, "", "a")
					h.DeprecatedInFavorOf = &x
				}
				w.Summary, w.Details, w.Category, w.Deprecated = h.Summary, h.Details, h.Category, h.DeprecatedInFavorOf
				args := argsModel(t)
				for a, info := range args {
					if chance(r, 80) {
						h.FieldHelp[info.field] = markers.DetailedHelp{Summary: "f of " + info.field + key, Details: pick(r, "", "fd")}
						for q := range w.Fields {
							if w.Fields[q].Name == a {
								w.Fields[q].Summary, w.Fields[q].Details = h.FieldHelp[info.field].Summary, h.FieldHelp[info.field].Details
							}
						}
					}
				}
				reg.AddHelp(d, h)
			}
			want[key] = w
			cats[w.Category] = append(cats[w.Category], key)
		}
		var first string
		for round := 0; round < 6; round++ {
			docs := help.ByCategory(reg, help.SortByCategory)
			b, err := json.Marshal(docs)
			if err != nil {
				c.Violate("help", err.Error(), nil, "")
				return
			}
			var text strings.Builder
			for _, cat := range docs {
				_ = prettyhelp.MarkersSummary(cat.Category, cat.Markers).WriteTo(&text)
				_ = prettyhelp.MarkersDetails(round%2 == 0, cat.Category, cat.Markers).WriteTo(&text)
			}
			if len(text.String()) == 0 && len(want) > 0 {
				c.Violate("help", "no text help", nil, "")
			}
			if round == 0 {
				first = string(b)
				c.Eval(first)
				var got []hCategory
				if err := json.Unmarshal(b, &got); err != nil {
					c.Violate("help", err.Error(), nil, "")
					return
				}
				var bad []string
				listed := 0
				for _, cat := range got {
					for _, m := range cat.Markers {
						listed++
						w, ok := want[markerKey(m)]
						x, _ := json.Marshal(w)
						y, _ := json.Marshal(m)
						if !ok || string(x) != string(y) || cat.Category != m.Category {
							bad = append(bad, fmt.Sprintf("%s under %q:\n%s\nwant\n%s", markerKey(m), cat.Category, y, x))
						}
					}
				}
				if listed != len(want) || len(got) != len(cats) {
					bad = append(bad, fmt.Sprintf("%d markers in %d categories, want %d in %d", listed, len(got), len(want), len(cats)))
				}
				if len(bad) > 0 {
					c.Violate("help", "help model: "+strings.Join(bad, "\n"), nil, "")
					return
				}
			} else if string(b) != first {
				c.Violate("unstable", "the help of one registry differs from call to call: "+lineDiff(strings.ReplaceAll(first, "{", "\n{"), strings.ReplaceAll(string(b), "{", "\n{")), nil, "")
				return
			}
		}
	})
}

// helpgenCase generates help for random marker types, and compiles and runs it.
func helpgenCase(c *Ctx, i int) {
	r := c.Rng("helpgen", i)
	dir := c.CaseDir("c19")
	newModule(dir, "example.test/mod")
	mod, _ := os.ReadFile(filepath.Join(dir, "go.mod"))
	writeFile(filepath.Join(dir, "go.mod"), string(mod)+"\nrequire sigs.k8s.io/controller-tools v0.0.0\n\nreplace sigs.k8s.io/controller-tools => "+repoDir+"\n")
	type want struct {
		Category, Summary, Details string
		Fields                     map[string][2]string
	}
	wants := map[string]map[string]want{} // package -> type
	npkg := 1 + r.Intn(2)
	var main strings.Builder
	main.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"os\"\n\n\t\"sigs.k8s.io/controller-tools/pkg/markers\"\n")
	var calls strings.Builder
	for p := 0; p < npkg; p++ {
		pkg := fmt.Sprintf("p%d", p)
		wants[pkg] = map[string]want{}
		var b strings.Builder
		b.WriteString("// Package " + pkg + " has markers.\npackage " + pkg + "\n\n")
		for k := 0; k < 2+r.Intn(8); k++ {
			name := fmt.Sprintf("%s%d", pick(r, "Marker", "M", "marker", "URL"), k)
			raw, doc := rawDoc(r, name, chance(r, 50))
			if chance(r, 10) {
				raw, doc = nil, ""
			}
			has := chance(r, 85)
			cat := ""
			mk := "// +controllertools:marker:generateHelp"
			if chance(r, 70) {
				cat = pick(r, "CRD", "CRD validation", "a b c", "x%d", "é", "with-dash")
				mk += ":category=" + pick(r, "\""+cat+"\"", "`"+cat+"`")
			}
			if chance(r, 10) {
				mk = "//+" + strings.TrimPrefix(mk, "// +")
			}
			w := want{Category: cat, Fields: map[string][2]string{}}
			w.Summary, w.Details = summaryOf(name, doc)
			group := chance(r, 20)
			ind := ""
			if group {
				b.WriteString("type (\n")
				ind = "\t"
			}
			if has {
				switch {
				case raw == nil || chance(r, 40):
					b.WriteString(ind + mk + "\n")
					if raw != nil {
						b.WriteString("\n")
					}
				default: // a marker in the doc comment
					raw = append([]string{mk}, raw...)
				}
			}
			for _, l := range raw {
				b.WriteString(ind + l + "\n")
			}
			typ := "type "
			if group {
				typ = "\t"
			}
			switch r.Intn(5) {
			case 0:
				b.WriteString(typ + name + " " + pick(r, "string", "[]string", "map[string]int", "bool", "float64") + "\n")
			default:
				b.WriteString(typ + name + " struct {\n")
				for f := 0; f < r.Intn(5); f++ {
					fn := fmt.Sprintf("%s%d", pick(r, "Field", "F", "private", "URL"), f)
					fraw, fdoc := rawDoc(r, fn, chance(r, 50))
					if chance(r, 15) {
						fraw, fdoc = nil, ""
					}
					if chance(r, 10) {
						b.WriteString("\t// loose comment\n\n")
					}
					for _, l := range fraw {
						b.WriteString("\t" + l + "\n")
					}
					names := []string{fn}
					b.WriteString("\t" + fn)
					b.WriteString(" " + pick(r, "string", "*int", "[]string", "interface{}") + pick(r, "", " `marker:\",optional\"`", " `marker:\"x"+fn+"\"`") + pick(r, "", " // trailing "+fn) + "\n")
					for _, n := range names {
						s, d := summaryOf(n, fdoc)
						w.Fields[n] = [2]string{s, d}
					}
				}
				b.WriteString(ind + "}\n")
			}
			if group {
				b.WriteString(")\n")
			}
			b.WriteString("\n")
			if has {
				wants[pkg][name] = w
			}
		}
		writeFile(filepath.Join(dir, pkg, "types.go"), b.String())
		var vals strings.Builder
		vals.WriteString("package " + pkg + "\n\nimport \"sigs.k8s.io/controller-tools/pkg/markers\"\n\nvar All = map[string]*markers.DefinitionHelp{\n")
		for _, n := range sortedKeys(wants[pkg]) {
			fmt.Fprintf(&vals, "\t%q: (*new(%s)).Help(),\n", n, n)
		}
		vals.WriteString("}\n")
		writeFile(filepath.Join(dir, pkg, "all.go"), "//go:build run\n\n"+vals.String())
		fmt.Fprintf(&main, "\t%q\n", "example.test/mod/"+pkg)
		fmt.Fprintf(&calls, "\t\t%q: %s.All,\n", pkg, pkg)
		if len(wants[pkg]) > 0 {
			c.Count("helpgen_types", int64(len(wants[pkg])))
		}
	}
	main.WriteString(")\n\nfunc main() {\n\t_ = json.NewEncoder(os.Stdout).Encode(map[string]map[string]*markers.DefinitionHelp{\n" + calls.String() + "\t})\n}\n")
	writeFile(filepath.Join(dir, "cmd", "main.go"), "//go:build run\n\n"+main.String())
	opt := "generate"
	header := ""
	if chance(r, 60) {
		header = pick(r, "/* Copyright, the authors. 100% %s %[1]s */\n", "// Copyright.\n// All rights.\n")
		writeFile(filepath.Join(dir, "hack", "header.txt"), header)
		opt = "generate:headerFile=./hack/header.txt,year=2019"
	}
	var snaps []string
	for k := 0; k < 2; k++ {
		res := runCmd(dir, nil, toolTimeout, filepath.Join(c.Bin, "helpgen"), opt, "paths=./...")
		if res.Code != 0 {
			c.Violate("helpgen", "helpgen fails: "+clip(res.Stderr, 3000), nil, dir)
			return
		}
		var s strings.Builder
		for p := range wants {
			b, _ := os.ReadFile(filepath.Join(dir, p, "zz_generated.markerhelp.go"))
			if (len(b) > 0) != (len(wants[p]) > 0) {
				c.Violate("helpgen", fmt.Sprintf("%s has %d types with help, and %d bytes of generated code", p, len(wants[p]), len(b)), nil, dir)
				return
			}
			if len(b) > 0 && header != "" && !strings.Contains(string(b), strings.TrimSpace(header)) {
				c.Violate("helpgen", "the generated file lacks the header "+header, nil, dir)
				return
			}
		}
		for _, p := range sortedKeys(wants) {
			b, _ := os.ReadFile(filepath.Join(dir, p, "zz_generated.markerhelp.go"))
			s.Write(b)
		}
		snaps = append(snaps, s.String())
	}
	if snaps[0] != snaps[1] {
		c.Violate("unstable", "helpgen writes different code the second time: "+lineDiff(snaps[0], snaps[1]), nil, dir)
		return
	}
	res := runCmd(dir, nil, toolTimeout, "go", "run", "-tags=run", "-mod=mod", "./cmd")
	c.Eval(snaps[0])
	if res.Code != 0 {
		c.Violate("helpgen", "the generated help does not compile or run: "+clip(res.Stderr, 3000), nil, dir)
		return
	}
	var got map[string]map[string]*markers.DefinitionHelp
	if err := json.Unmarshal([]byte(res.Stdout), &got); err != nil {
		c.Violate("helpgen", err.Error(), nil, dir)
		return
	}
	for p, ts := range wants {
		for n, w := range ts {
			h := got[p][n]
			if h == nil {
				c.Violate("helpgen", n+" has no help", nil, dir)
				return
			}
			x := want{Category: h.Category, Summary: h.Summary, Details: h.Details, Fields: map[string][2]string{}}
			for f, d := range h.FieldHelp {
				x.Fields[f] = [2]string{d.Summary, d.Details}
			}
			c.Count("help_fields", int64(len(w.Fields)))
			if a, b := jsonIndent(w), jsonIndent(x); a != b {
				c.Violate("helpgen", "help of "+p+"."+n+" is not its documentation: "+lineDiff(a, b), nil, dir)
				return
			}
		}
	}
	_ = os.RemoveAll(dir)
}

func jsonIndent(v any) string {
	b, _ := json.MarshalIndent(v, "", " ")
	return string(b)
}
