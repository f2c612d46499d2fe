package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"sigs.k8s.io/controller-tools/pkg/applyconfiguration"
	"sigs.k8s.io/controller-tools/pkg/crd"
	"sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/markers"
	"sigs.k8s.io/controller-tools/pkg/rbac"
	"sigs.k8s.io/controller-tools/pkg/schemapatcher"
	"sigs.k8s.io/controller-tools/pkg/webhook"
)

// C07: nothing that is written in comments or options crashes or hangs the tools.

func init() { register("C07", checkC07) }

func allDefs() []*markers.Definition {
	reg := &markers.Registry{}
	gens := []genall.Generator{crd.Generator{}, rbac.Generator{}, webhook.Generator{}, deepcopy.Generator{}, applyconfiguration.Generator{}, schemapatcher.Generator{}}
	for _, g := range gens {
		if err := g.RegisterMarkers(reg); err != nil {
			panic(err)
		}
	}
	_ = genall.RegisterOptionsMarkers(reg)
	defs := reg.AllDefinitions()
	for i, out := range []any{struct{}{}, "", 0, false, 1.5, []string(nil), map[string]any(nil), []any(nil), (*int)(nil), markers.RawArguments(nil), map[string][]map[string]any(nil),
		struct {
			A any   `marker:",optional"`
			B []any `marker:",optional"`
			C map[string]any
			D *[]string
		}{}} {
		d, err := markers.MakeDefinition(fmt.Sprintf("zz:fuzz%d", i), markers.DescribesType, out)
		if err != nil {
			panic(err)
		}
		defs = append(defs, d)
	}
	d, _ := markers.MakeAnyTypeDefinition("zz:any", markers.DescribesType, anyHolder{})
	defs = append(defs, d)
	sort.Slice(defs, func(i, j int) bool {
		return defs[i].Name+defs[i].Target.String() < defs[j].Name+defs[j].Target.String()
	})
	return defs
}

var hostile = []string{"", "{", "}", "{}", "{{", "}}", "{{}}", "{,}", "{,", "{:}", ":", ";", ",", ";;", ",,", "=", "==", "\"", "\"\"", "\"\\", "\"\\u", "\"\\x1\"", "`", "``", "'", "''", "'a", "-", "--1", "- ", "+", "+1", "0", "-0", "08", "0x", "0b2", "0x1p", "1e", "1e999", ".", "..", "1.", ".5", "_", "1_0", "999999999999999999999", "-9223372036854775808", "9223372036854775808", "2147483648", "true", "false", "tru", "t", "f", "truefalse", "null", "nil", "NaN", "//", "/*", "*/", "\\", "\\n", "é", "☃", "\u200b", "\u2028", "\ufeff", "😀", "\x7f", "\x01", "\t", " ", "  ", "{a", "{a:", "{a:1", "{a:1,", "{a:{", "{a:{b:", "{\"a", "{\"a\"", "{`a`:", "{true:1}", "{1:2}", "{a:b:c}", "a;b;", ";a", "{a;b,c;d}", "[", "[1,2]", "[{", "]", "(", ")", "{\"a\":[1,{\"b\":null}]}", "{\"type\":\"object\"}", "null", "[]", "^(", "[a-", "(?<", "*", "/", "group/version", "a.b.c", ".spec.x", "$ref", "%s%d%n", "%!", "\\\\", "&#0;", "<a>", "$(x)", "${y}", "../../x", "C:\\x", "v1", "core", "Always"}

func fuzzValue(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return pick(r, hostile...) + pick(r, hostile...)
	case 1:
		return strings.Repeat(pick(r, "{", "{a:", "}", "[", "(", ";", ",", "a;", "a,", "\"", "-", "{a;", "{\"x\":", "{,", "1;", "{{},"), r.Intn(pick(r, 10, 100, 3000)))
	case 2:
		var b strings.Builder
		for i, n := 0, r.Intn(40); i < n; i++ {
			b.WriteString(pick(r, hostile...))
		}
		return b.String()
	case 3:
		b := make([]byte, r.Intn(30))
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return string(b)
	case 4:
		b := make([]rune, r.Intn(20))
		for i := range b {
			b[i] = pick(r, rune(r.Intn(128)), rune(r.Intn(0x3000)), ',', ';', ':', '{', '}', '"', '`', '=')
		}
		return string(b)
	}
	return pick(r, hostile...)
}

// typedValue writes a value the argument's type admits, but of whatever content.
func typedValue(r *rand.Rand, a *markers.Argument, depth int) string {
	switch a.Type {
	case markers.IntType:
		return pick(r, "0", "1", "-1", "5", "2147483647", "-2147483648")
	case markers.NumberType:
		return pick(r, "0", "1", "-1", "1.5", "1e300", "-1e300", "5e-324", "9007199254740993")
	case markers.StringType:
		return strconv.Quote(pick(r, pick(r, hostile...), genAnyText(r), "string", "integer", "object", "array", "atomic", "map", "set", "granular", "int-or-string", "v1", "Cluster", "fail", "None"))
	case markers.BoolType:
		return pick(r, "true", "false")
	case markers.SliceType:
		var p []string
		for i, n := 0, r.Intn(4); i < n; i++ {
			p = append(p, typedValue(r, a.ItemType, depth-1))
		}
		return "{" + strings.Join(p, ",") + "}"
	case markers.MapType:
		var p []string
		for i, n := 0, r.Intn(3); i < n; i++ {
			p = append(p, strconv.Quote(genAnyText(r))+":"+typedValue(r, a.ItemType, depth-1))
		}
		return "{" + strings.Join(p, ",") + "}"
	case markers.RawType:
		return pick(r, hostile...)
	}
	v := genFree(r, 3, true)
	return render(r, &mtype{kind: "any"}, v, true)
}

func fuzzMarker(r *rand.Rand, d *markers.Definition, typed bool) string {
	val := func(a *markers.Argument) string {
		if typed || chance(r, 30) {
			return typedValue(r, a, 2)
		}
		return fuzzValue(r)
	}
	if !typed && chance(r, 4) {
		return "+" + fuzzValue(r)
	}
	if d.Empty() {
		if typed || chance(r, 50) {
			return "+" + d.Name
		}
		return "+" + d.Name + pick(r, "=", ":", ":=", ":x=", "") + fuzzValue(r)
	}
	if d.AnonymousField() {
		a := d.Fields[""]
		s := "+" + d.Name + pick(r, "=", "=", "=", ":=") + val(&a)
		if !typed && chance(r, 10) {
			s = "+" + d.Name + fuzzValue(r)
		}
		return s
	}
	var p []string
	for _, k := range sortedKeys(d.Fields) {
		a := d.Fields[k]
		if a.Optional && chance(r, 60) {
			continue
		}
		if !typed && chance(r, 5) {
			k = fuzzValue(r)
		}
		p = append(p, k+"="+val(&a))
		if !typed && chance(r, 5) {
			p = append(p, p[len(p)-1])
		}
	}
	r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
	if len(p) == 0 {
		return "+" + d.Name
	}
	sep := ","
	if !typed && chance(r, 10) {
		sep = pick(r, ";", ",,", " ", "", ", ")
	}
	return "+" + d.Name + ":" + strings.Join(p, sep)
}

type running struct {
	text  atomic.Pointer[string]
	since atomic.Int64
}

func checkC07(c *Ctx) {
	c.Rule("one evaluation = one marker text parsed and, if accepted, applied in-process, or one tool run over hostile comments or options; distinct by marker and kind of outcome")
	c.Assume("marker texts of up to some 10 kB and option lists of up to 6 options; a text or run that takes longer than 30 s (150 s for a tool run) counts as a hang, 4 GB of memory as exhaustion")
	c07Parse(c)
	parallel(c.N(36, 700), 8, func(i int) { c07Source(c, i) })
	parallel(c.N(400, 8000), 8, func(i int) { c07Options(c, i) })
	parallel(c.N(40, 600), 8, func(i int) { c07Helpgen(c, i) })
	c.Min("texts", 60000)
	c.Min("accepted", 10000)
	c.Min("applied", 3000)
	c.Min("source_runs", 30)
	c.Min("option_runs", 350)
}

// c07Parse: lookup, parsing and application of markers, in-process, under a watchdog.
func c07Parse(c *Ctx) {
	defs := allDefs()
	reg := &markers.Registry{}
	for _, d := range defs {
		if err := reg.Register(d); err != nil {
			panic(err)
		}
	}
	const workers = 8
	var slots [workers]running
	done := make(chan struct{})
	var wd sync.WaitGroup
	wd.Add(1)
	go func() {
		defer wd.Done()
		var ms runtime.MemStats
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
			}
			runtime.ReadMemStats(&ms)
			for i := range slots {
				t := slots[i].text.Load()
				if t == nil {
					continue
				}
				took := time.Since(time.Unix(0, slots[i].since.Load()))
				if took > 30*time.Second || ms.HeapAlloc > 4<<30 && took > 2*time.Second {
					func() {
						defer func() { _ = recover() }()
						c.Violate("hang", fmt.Sprintf("marker takes %s and %d MB: %q", took, ms.HeapAlloc>>20, clip(*t, 3000)), nil, "")
					}()
					c.finish()
				}
			}
		}
	}()
	n := c.N(80000, 3000000)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			r := c.Rng("c07p", w)
			for k := 0; k < n/workers && c.Violations() < 4; k++ {
				d := defs[r.Intn(len(defs))]
				text := fuzzMarker(r, d, chance(r, 35))
				if chance(r, 3) {
					text = pick(r, "", "+", "+:", "+=", "+:=", "x", "++", fuzzValue(r))
				}
				slots[w].since.Store(time.Now().UnixNano())
				slots[w].text.Store(&text)
				c07One(c, r, reg, text)
				slots[w].text.Store(nil)
			}
		}(w)
	}
	wg.Wait()
	close(done)
	wd.Wait()
	if v := c.Violations(); v > 0 {
		return
	}
}

func c07One(c *Ctx, r *rand.Rand, reg *markers.Registry, text string) {
	stage := "lookup"
	defer func() {
		if p := recover(); p != nil {
			if _, stop := p.(stopCheck); stop {
				return
			}
			func() {
				defer func() { _ = recover() }()
				c.Violate("panic", fmt.Sprintf("%s of %q panicked: %v\n%s", stage, clip(text, 3000), p, clip(string(debug.Stack()), 4000)), nil, "")
			}()
		}
	}()
	c.Count("texts", 1)
	for _, tgt := range []markers.TargetType{markers.DescribesPackage, markers.DescribesType, markers.DescribesField} {
		stage = "lookup"
		d := reg.Lookup(text, tgt)
		if d == nil {
			continue
		}
		stage = "parsing"
		v, err := d.Parse(text)
		if err != nil {
			_ = err.Error()
			c.Count("rejected", 1)
			c.Eval(d.Name + " rejected")
			continue
		}
		c.Count("accepted", 1)
		c.Eval(d.Name + " accepted")
		stage = "application"
		switch m := v.(type) {
		case crd.SchemaMarker:
			for i := 0; i < 3; i++ {
				s := randomSchema(r, 2)
				_ = m.ApplyToSchema(s)
				c.Count("applied", 1)
			}
		case crd.SpecMarker:
			spec := randomCRD(r).Spec
			_ = m.ApplyToCRD(&spec, pick(r, "v1", "v2", "v3"))
			c.Count("applied", 1)
		case crd.Marker:
			_ = m.ApplyToCRD(randomCRD(r), pick(r, "v1", "v2", "v3"))
			c.Count("applied", 1)
		}
	}
}

func randomSchema(r *rand.Rand, depth int) *apiext.JSONSchemaProps {
	s := &apiext.JSONSchemaProps{Type: pick(r, "", "string", "integer", "number", "boolean", "object", "array")}
	if depth > 0 && s.Type == "array" && chance(r, 80) {
		s.Items = &apiext.JSONSchemaPropsOrArray{Schema: randomSchema(r, depth-1)}
	}
	if depth > 0 && s.Type == "object" && chance(r, 60) {
		s.Properties = map[string]apiext.JSONSchemaProps{"a": *randomSchema(r, depth-1)}
	}
	if depth > 0 && s.Type == "object" && chance(r, 40) {
		s.AdditionalProperties = &apiext.JSONSchemaPropsOrBool{Allows: true, Schema: randomSchema(r, depth-1)}
	}
	if chance(r, 20) {
		ref := "#/definitions/x"
		s.Ref = &ref
	}
	if chance(r, 10) {
		s.XIntOrString = true
	}
	return s
}

func randomCRD(r *rand.Rand) *apiext.CustomResourceDefinition {
	o := &apiext.CustomResourceDefinition{}
	o.Spec.Names.Kind = "K"
	for _, v := range []string{"v1", "v2"}[:1+r.Intn(2)] {
		ver := apiext.CustomResourceDefinitionVersion{Name: v, Served: true}
		if chance(r, 70) {
			ver.Schema = &apiext.CustomResourceValidation{OpenAPIV3Schema: randomSchema(r, 2)}
		}
		o.Spec.Versions = append(o.Spec.Versions, ver)
	}
	return o
}

// cleanComment makes a text fit for a // comment of a Go file.
func cleanComment(s string) string {
	s = strings.ToValidUTF8(s, "?")
	return strings.Map(func(c rune) rune {
		if c == '\n' || c == '\r' || c == 0 || c == 0xfeff {
			return ' '
		}
		return c
	}, s)
}

// c07Source: a package full of hostile comments through all generators.
func c07Source(c *Ctx, i int) {
	r := c.Rng("c07s", i)
	defs := allDefs()
	byT := map[markers.TargetType][]*markers.Definition{}
	for _, d := range defs {
		if !strings.HasPrefix(d.Name, "zz:") {
			byT[d.Target] = append(byT[d.Target], d)
		}
	}
	typed := i%3 != 0 // well-typed, so that they get applied
	dir := c.CaseDir("c07s")
	newModule(dir, "fz.test/s")
	var b strings.Builder
	dens := pick(r, 3, 10, 40)
	mk := func(t markers.TargetType, indent string) {
		n := r.Intn(dens)
		if chance(r, 50) {
			n = r.Intn(3)
		}
		for k := 0; k < n; k++ {
			d := byT[t][r.Intn(len(byT[t]))]
			if chance(r, 5) && !typed {
				d = defs[r.Intn(len(defs))]
			}
			fmt.Fprintf(&b, "%s// %s\n", indent, cleanComment(fuzzMarker(r, d, typed)))
			if chance(r, 5) {
				fmt.Fprintf(&b, "%s// %s\n", indent, cleanComment(fuzzValue(r)))
			}
		}
	}
	b.WriteString("// +kubebuilder:object:generate=true\n// +groupName=fz.test\n// +kubebuilder:ac:generate=true\n")
	if chance(r, 60) {
		mk(markers.DescribesPackage, "")
	}
	b.WriteString("package v1\n\nimport metav1 \"k8s.io/apimachinery/pkg/apis/meta/v1\"\n\n")
	names := []string{}
	ft := func() string {
		t := pick(r, "string", "int32", "int64", "bool", "[]string", "map[string]string", "*string", "[]byte", "metav1.Time", "interface{}", "float64", "struct{}", "[][]string", "map[string][]string", "metav1.ObjectMeta", "func()", "chan int", "uint8", "[3]int", "error")
		if len(names) > 0 && chance(r, 40) {
			t = pick(r, "", "*", "[]", "map[string]") + names[r.Intn(len(names))]
		}
		if typed && (strings.Contains(t, "interface") || t == "func()" || t == "chan int" || t == "error" || t == "float64" || t == "struct{}" || t == "[3]int" || t == "uint8") {
			t = "string"
		}
		return t
	}
	for k, n := 0, 2+r.Intn(8); k < n; k++ {
		nm := fmt.Sprintf("T%d", k)
		mk(markers.DescribesType, "")
		if chance(r, 30) {
			b.WriteString("\n") // detached
		}
		if chance(r, 35) {
			fmt.Fprintf(&b, "type %s %s\n\n", nm, pick(r, "string", "int", "[]string", "map[string]string", "bool", "[]byte"))
			names = append(names, nm)
			continue
		}
		fmt.Fprintf(&b, "type %s struct {\n", nm)
		for f, m := 0, r.Intn(5); f < m; f++ {
			mk(markers.DescribesField, "\t")
			fmt.Fprintf(&b, "\tF%d %s `json:\"f%d%s\"`\n", f, ft(), f, pick(r, "", ",omitempty", ",inline"))
		}
		b.WriteString("}\n\n")
		names = append(names, nm)
	}
	b.WriteString("// +kubebuilder:object:root=true\n")
	if chance(r, 70) {
		b.WriteString("// +kubebuilder:storageversion\n")
	}
	mk(markers.DescribesType, "")
	b.WriteString("type Root struct {\n\tmetav1.TypeMeta `json:\",inline\"`\n\tmetav1.ObjectMeta `json:\"metadata,omitempty\"`\n")
	for f, n := range names {
		mk(markers.DescribesField, "\t")
		fmt.Fprintf(&b, "\tR%d %s `json:\"r%d\"`\n", f, n, f)
	}
	b.WriteString("}\n")
	writeFile(filepath.Join(dir, "v1", "t.go"), b.String())
	gens := [][]string{{"crd"}, {"object"}, {"webhook"}, {"rbac:roleName=x"}, {"applyconfiguration"}, {"crd:maxDescLen=10,allowDangerousTypes=true,generateEmbeddedObjectMeta=true"}}
	r.Shuffle(len(gens), func(i, j int) { gens[i], gens[j] = gens[j], gens[i] })
	// one generator at a time, so that none hides what another would do
	for _, g := range gens[:2+r.Intn(2)] {
		args := append(append([]string{}, g...), "paths=./...", "output:dir=out")
		if g[0] == "object" || g[0] == "applyconfiguration" {
			args = append(append([]string{}, g...), "paths=./...", "output:none")
		}
		res := c.Gen(dir, args...)
		c.Count("source_runs", 1)
		c.Eval(fmt.Sprintf("source %s typed=%v exit=%d", g[0], typed, res.Code))
		if res.Code != 0 && strings.TrimSpace(res.Stderr) == "" {
			c.Violate("silent-failure", fmt.Sprintf("%v exits %d without a diagnostic", args, res.Code), nil, dir)
		}
		if res.Code == 0 {
			c.Count("source_ok", 1)
		}
	}
}

// c07Options: hostile option lists.
func c07Options(c *Ctx, i int) {
	r := c.Rng("c07o", i)
	dir := c.CaseDir("c07o")
	newModule(dir, "fz.test/o")
	writeFile(filepath.Join(dir, "v1", "t.go"), "package v1\n\ntype X struct{}\n")
	names := []string{"crd", "rbac", "webhook", "object", "schemapatch", "applyconfiguration", "paths", "output", "output:dir", "output:crd:dir", "output:none", "output:stdout", "output:artifacts", "output:object:artifacts"}
	opts := []string{"maxDescLen", "roleName", "headerFile", "year", "manifests", "config", "code", "crdVersions", "allowDangerousTypes", "x"}
	one := func() string {
		switch r.Intn(7) {
		case 0:
			return fuzzValue(r)
		case 1:
			return pick(r, names...)
		case 2:
			return pick(r, "", "+", "++crd", "-x", "--", "-", "--nope", "-wx", "--load-build-tags", "--load-build-tags=,", "--load-build-tags=a b", "-hw", "--help=maybe", "crd ", " crd", "crd\n", "paths=./v1")
		}
		s := pick(r, names...)
		for k, n := 0, r.Intn(3); k < n; k++ {
			s += pick(r, ":", ",", "=", ":", "") + pick(r, opts...) + pick(r, "=", "=", ":", "") + fuzzValue(r)
		}
		if chance(r, 30) {
			s += "=" + fuzzValue(r)
		}
		return s
	}
	var args []string
	for k, n := 0, 1+r.Intn(4); k < n; k++ {
		a := one()
		// nothing that is written may leave the scratch directory, and no paths that take the whole disk
		a = strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(a, "..", "__"), "\x00", "?"), "/", "_")
		args = append(args, a)
	}
	if chance(r, 30) {
		args = append(args, "paths=./v1")
	}
	res := c.Gen(dir, args...)
	c.Count("option_runs", 1)
	c.Eval(fmt.Sprintf("options exit=%d", res.Code))
	if res.Code != 0 && strings.TrimSpace(res.Stderr) == "" {
		c.Violate("silent-failure", fmt.Sprintf("%q exits %d without a diagnostic", args, res.Code), nil, dir)
	}
}

// c07Helpgen: the other two tools.
func c07Helpgen(c *Ctx, i int) {
	r := c.Rng("c07h", i)
	dir := c.CaseDir("c07h")
	if i%2 == 0 {
		args := []string{"--kind", strings.ReplaceAll(fuzzValue(r), "\x00", "?")}
		if chance(r, 50) {
			args = append(args, "--resource", strings.ReplaceAll(fuzzValue(r), "\x00", "?"))
		}
		if chance(r, 20) {
			args = args[1:]
		}
		res := runCmd(dir, nil, toolTimeout, filepath.Join(c.Bin, "type-scaffold"), args...)
		c.judgeRun(dir, res, append([]string{"type-scaffold"}, args...))
		c.Eval(fmt.Sprintf("type-scaffold exit=%d", res.Code))
		if res.Code != 0 && strings.TrimSpace(res.Stderr) == "" {
			c.Violate("silent-failure", fmt.Sprintf("type-scaffold %q exits %d without a diagnostic", args, res.Code), nil, dir)
		}
		return
	}
	newModule(dir, "fz.test/h")
	var b strings.Builder
	b.WriteString("package h\n\n")
	for k := 0; k < 6; k++ {
		for m, n := 0, r.Intn(3); m < n; m++ {
			fmt.Fprintf(&b, "// %s\n", cleanComment(genAnyText(r)))
		}
		fmt.Fprintf(&b, "// +controllertools:marker:generateHelp%s\n", cleanComment(pick(r, "", "", ":category=x", ":category=", ":category="+fuzzValue(r), "=", ":"+fuzzValue(r), fuzzValue(r))))
		fmt.Fprintf(&b, "type T%d %s\n\n", k, pick(r, "struct{}", "string", "struct {\n\t// F "+cleanComment(genAnyText(r))+"\n\tF string `marker:\""+pick(r, "", "x", ",optional", ",", "y,optional,z")+"\"`\n\tg int\n}", "[]string", "map[string]int", "int", "struct {\n\tstring\n}", "*int", "func()", "struct{ A, B int }", "struct{ _ int }"))
	}
	writeFile(filepath.Join(dir, "h.go"), b.String())
	args := []string{"paths=."}
	if chance(r, 30) {
		args = append(args, strings.ReplaceAll(strings.ReplaceAll(fuzzValue(r), "\x00", "?"), "/", "_"))
	}
	if chance(r, 70) {
		writeFile(filepath.Join(dir, "hdr.txt"), pick(r, "// x", "", "/* YEAR */", "garbage"))
		args = append(args, "generate:headerFile=hdr.txt")
	} else {
		args = append(args, pick(r, "generate:year=2020", "generate:headerFile=nope.txt", "generate"))
	}
	res := runCmd(dir, nil, toolTimeout, filepath.Join(c.Bin, "helpgen"), args...)
	c.judgeRun(dir, res, append([]string{"helpgen"}, args...))
	c.Eval(fmt.Sprintf("helpgen exit=%d", res.Code))
	if res.Code != 0 && strings.TrimSpace(res.Stderr) == "" {
		c.Violate("silent-failure", fmt.Sprintf("helpgen %q exits %d without a diagnostic", args, res.Code), nil, dir)
	}
}

var _ = reflect.TypeOf
var _ = os.Remove
