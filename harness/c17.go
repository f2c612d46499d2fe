package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	crdgen "sigs.k8s.io/controller-tools/pkg/crd"
	dcgen "sigs.k8s.io/controller-tools/pkg/deepcopy"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
	rbacgen "sigs.k8s.io/controller-tools/pkg/rbac"
	whgen "sigs.k8s.io/controller-tools/pkg/webhook"
)

// C17: races and schedule dependence. The workloads run in processes of their own, built with the race
// detector, which logs to files; what concurrent work gives is compared with sequential work.

func init() {
	register("C17", checkC17)
	subs["c17"] = c17Sub
}

type c17Out struct {
	Bad      []string         `json:"bad"`
	Counters map[string]int64 `json:"counters"`
	Orders   []string         `json:"orders"`
	mu       sync.Mutex
}

func (o *c17Out) bad(f string, a ...any) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if len(o.Bad) < 10 {
		o.Bad = append(o.Bad, fmt.Sprintf(f, a...))
	}
}
func (o *c17Out) count(k string, n int64) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.Counters[k] += n
}
func (o *c17Out) order(k, s string) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.Orders = append(o.Orders, k+":"+s)
}

type c17Job struct {
	kind string
	dir  string
	seed int64
	iter int
}

func checkC17(c *Ctx) {
	c.Rule("A case is one workload process of the race-detector build (or one run of the race-built controller-gen). It is judged by (1) the race reports whose stacks contain controller-tools code, (2) equality of every concurrent result with the sequential one. Distinct cases differ in workload, module and the observed orders of completion.")
	c.Assume("the Go race detector reports the races of the executions seen; a schedule that was not taken is not judged")
	c.Assume("types of packages that are reached only through untagged fields may be placeholders, depending on what else was checked, as documented; they are not compared")
	for _, k := range []string{"registry", "collect", "check", "lazy", "errors", "generate"} {
		c.Min("runs_"+k, 1)
	}
	c.Min("orders", 20)
	var jobs []c17Job
	scale := c.N(1, 10)
	add := func(kind string, n, iter int) {
		for i := 0; i < n*scale; i++ {
			r := c.Rng(kind, i)
			j := c17Job{kind: kind, seed: r.Int63(), iter: iter}
			if kind != "registry" {
				j.dir = c.CaseDir("c17" + kind)
				if kind == "generate" || kind == "cli" {
					genFull(r, j.dir, "example.test/mod", fullOpts{})
				} else {
					genDAG(r, j.dir, kind == "errors" || kind == "clierr")
				}
			}
			jobs = append(jobs, j)
		}
	}
	add("registry", 4, 60)
	add("collect", 8, 6)
	add("check", 14, 8)
	add("lazy", 6, 8)
	add("errors", 6, 6)
	add("generate", 4, 2)
	add("cli", 4, 1)
	add("clierr", 5, 3)
	parallel(len(jobs), 4, func(i int) {
		j := jobs[i]
		if j.kind == "cli" || j.kind == "clierr" {
			c17CLI(c, j)
		} else {
			c17Run(c, j)
		}
	})
}

func raceEnv(log string) []string {
	return []string{"GORACE=halt_on_error=0 exitcode=0 log_path=" + log + " history_size=4"}
}

func c17Run(c *Ctx, j c17Job) {
	log := filepath.Join(c.CaseDir("log"), "race")
	self, _ := os.Executable()
	r := c.Rng("procs"+j.kind, int(j.seed%1000003))
	env := append(raceEnv(log), fmt.Sprintf("GOMAXPROCS=%d", pick(r, 2, 4, 8, 8)))
	res := runCmd(c.Scratch, env, 400*time.Second, self, "-sub", "c17", j.kind, j.dir, strconv.FormatInt(j.seed, 10), strconv.Itoa(j.iter))
	c.Count("runs_"+j.kind, 1)
	if n := c17Races(c, j, log); n > 0 {
		return
	}
	what := fmt.Sprintf("workload %s (seed %d)", j.kind, j.seed)
	if res.TimedOut {
		c.Violate("hang-"+j.kind, what+" did not end: deadlock or endless loop", nil, j.dir)
		return
	}
	if strings.Contains(res.Stderr, "INCONCLUSIVE") {
		c.Inconclusive("%s: %s", what, clip(res.Stderr, 2000))
		return
	}
	if res.Code != 0 {
		if strings.Contains(res.Stderr, "sigs.k8s.io/controller-tools/") {
			c.Violate("crash-"+j.kind, what+" crashed:\n"+clip(res.Stderr, 6000), map[string]string{"stderr": res.Stderr}, j.dir)
		} else {
			c.Inconclusive("%s failed: %s", what, clip(res.Stderr, 2000))
		}
		return
	}
	var o c17Out
	if err := json.Unmarshal([]byte(res.Stdout), &o); err != nil {
		c.Inconclusive("%s: %v: %s", what, err, clip(res.Stdout, 500))
		return
	}
	for k, n := range o.Counters {
		c.Count(k, n)
	}
	for _, s := range o.Orders {
		c.See("orders", j.kind+s)
	}
	c.Eval(fmt.Sprintf("%s/%d/%v", j.kind, j.seed, o.Orders))
	if len(o.Bad) > 0 {
		c.Violate("result-"+j.kind, what+": concurrent work differs from sequential work:\n"+strings.Join(o.Bad, "\n"), nil, j.dir)
	}
}

var raceFrame = regexp.MustCompile(`(?m)^  (sigs\.k8s\.io/controller-tools/\S+)\(`)

// c17Races reads the logs of the race detector.
func c17Races(c *Ctx, j c17Job, log string) int {
	fs, _ := filepath.Glob(log + ".*")
	n := 0
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			fr := raceFrame.FindAllStringSubmatch(rep, -1)
			if len(fr) == 0 {
				c.Count("foreign_races", 1)
				continue
			}
			n++
			set := map[string]bool{}
			for _, x := range fr {
				set[x[1]] = true
			}
			c.Violate("race", fmt.Sprintf("data race in workload %s (functions %v):\n%s", j.kind, sortedKeys(set), clip(rep, 4000)), map[string]string{"race.log": string(b)}, j.dir)
			return n
		}
	}
	return n
}

// ---- modules ----

// genDAG writes a module of packages that import each other through tagged, untagged, embedded and
// function-only references. With broken, several files do not parse.
func genDAG(r *rand.Rand, dir string, broken bool) {
	writeFile(filepath.Join(dir, "go.mod"), "module example.test/dag\n\ngo 1.21\n")
	n := 5 + r.Intn(5)
	for i := 0; i < n; i++ {
		nf := 1 + r.Intn(4)
		if broken {
			nf = 2 + r.Intn(8)
		}
		for f := 0; f < nf; f++ {
			var b strings.Builder
			fmt.Fprintf(&b, "// +test:pkg=p%d.%d\n// +test:list={a,b%d}\npackage p%d\n\n", i, f, f, i)
			imps := map[int]bool{}
			var body strings.Builder
			for t := 0; t < 1+r.Intn(4); t++ {
				fmt.Fprintf(&body, "// T%d_%d is a type.\n// +test:str=%q\n// +test:map={a:{1,2},b:{%d}}\n", f, t, fmt.Sprintf("s%d", t), t)
				fmt.Fprintf(&body, "type T%d_%d struct {\n", f, t)
				for k := 0; k < 1+r.Intn(5); k++ {
					tag := " `json:\"f" + strconv.Itoa(k) + "\"`"
					fmt.Fprintf(&body, "\t// F%d is a field.\n\t// +test:str=x%d\n\t// +test:any:a=%d\n", k, k, k)
					switch {
					case i > 0 && chance(r, 60):
						x := r.Intn(i)
						imps[x] = true
						if chance(r, 30) {
							tag = ""
						}
						fmt.Fprintf(&body, "\tF%d %sp%d.Common%s\n", k, pick(r, "", "*", "[]", "map[string]"), x, tag)
					default:
						fmt.Fprintf(&body, "\tF%d %s%s\n", k, pick(r, "string", "int", "[]bool", "map[string]int"), tag)
					}
				}
				body.WriteString("}\n\n")
			}
			if f == 0 {
				body.WriteString("// +test:str=common\ntype Common struct {\n\tA string `json:\"a\"`\n")
				if i > 0 && chance(r, 80) {
					x := r.Intn(i)
					imps[x] = true
					fmt.Fprintf(&body, "\tB *p%d.Common%s\n", x, pick(r, " `json:\"b\"`", ""))
				}
				body.WriteString("}\n\n")
			} else if i > 0 && chance(r, 30) {
				x := r.Intn(i)
				imps[x] = true
				fmt.Fprintf(&body, "func use%d(x p%d.Common) {}\n", f, x)
			}
			for _, x := range sortedInts(imps) {
				fmt.Fprintf(&b, "import \"example.test/dag/p%d\"\n", x)
			}
			txt := b.String() + "\n" + body.String()
			if broken && chance(r, 60) {
				// keep the imports and the package clause, so that it loads
				for k := 0; k <= r.Intn(3); k++ {
					txt += pick(r, "type Bad struct {\n\tX string y\n}\n", "func ( {\n}\n", "type = int\n", "var x = = 2\n", "}\n")
				}
			}
			writeFile(filepath.Join(dir, fmt.Sprintf("p%d/f%d.go", i, f)), txt)
		}
	}
}

func sortedInts(m map[int]bool) []int {
	var l []int
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}

// ---- workloads ----

func c17Sub(args []string) {
	kind, dir := args[0], args[1]
	seed, _ := strconv.ParseInt(args[2], 10, 64)
	iter, _ := strconv.Atoi(args[3])
	o := &c17Out{Counters: map[string]int64{}}
	for i := 0; i < iter; i++ {
		r := rand.New(rand.NewSource(seed + int64(i)*7919))
		switch kind {
		case "registry":
			c17Registry(o, r)
		case "collect":
			c17Collect(o, r, dir)
		case "check":
			c17Check(o, r, dir)
		case "lazy":
			c17Lazy(o, r, dir)
		case "errors":
			c17Errors(o, r, dir)
		case "generate":
			c17Generate(o, r, dir)
		}
	}
	b, _ := json.Marshal(o)
	os.Stdout.Write(b)
}

// together runs n functions at once and returns the order in which they ended.
func together(n int, fn func(i int)) string {
	start := make(chan struct{})
	var wg sync.WaitGroup
	var mu sync.Mutex
	var ord []string
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			fn(i)
			mu.Lock()
			ord = append(ord, strconv.Itoa(i))
			mu.Unlock()
		}(i)
	}
	close(start)
	wg.Wait()
	return strings.Join(ord, ",")
}

type testAny struct {
	A int `marker:"a"`
}

func testDefs(reg *markers.Registry) {
	for _, t := range []markers.TargetType{markers.DescribesPackage, markers.DescribesType, markers.DescribesField} {
		for n, v := range map[string]any{"test:pkg": "", "test:list": []string{}, "test:str": "", "test:map": map[string][]int{}, "test:any": testAny{}, "test:obj": (*interface{})(nil)} {
			if n == "test:obj" {
				continue
			}
			if err := reg.Define(n, t, v); err != nil {
				panic(err)
			}
		}
	}
}

func c17Registry(o *c17Out, r *rand.Rand) {
	reg := &markers.Registry{} // the zero value is usable
	g := 2 + r.Intn(7)
	per := 3 + r.Intn(10)
	seeds := make([]int64, g)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	yield := func(rr *rand.Rand) {
		if rr.Intn(3) == 0 {
			runtime.Gosched()
		}
	}
	shared := markers.Must(markers.MakeDefinition("shared", markers.DescribesType, map[string][]int{}))
	var began atomic.Int64
	ord := together(g, func(i int) {
		rr := rand.New(rand.NewSource(seeds[i]))
		began.Add(1)
		var mine []*markers.Definition
		for k := 0; k < per; k++ {
			t := pick(rr, markers.DescribesPackage, markers.DescribesType, markers.DescribesField)
			name := fmt.Sprintf("m%d:x%d", i, k)
			d := markers.Must(markers.MakeDefinition(name, t, ""))
			if rr.Intn(4) == 0 {
				if err := reg.Define(name, t, ""); err != nil {
					o.bad("Define: %v", err)
				}
				d = reg.Lookup("+"+name+"=a", t)
				if d == nil {
					o.bad("marker %s cannot be looked up right after Define", name)
					continue
				}
			} else if err := reg.Register(d); err != nil {
				o.bad("Register: %v", err)
			}
			mine = append(mine, d)
			yield(rr)
			if got := reg.Lookup("+"+name+"=a", t); got != d {
				o.bad("goroutine %d: lookup of %s right after its registration gives %v", i, name, got)
			}
			if rr.Intn(2) == 0 {
				h := &markers.DefinitionHelp{Category: name}
				reg.AddHelp(d, h)
				yield(rr)
				if got := reg.HelpFor(d); got != h {
					o.bad("goroutine %d: help of %s right after adding it is %v", i, name, got)
				}
			}
			if rr.Intn(3) == 0 { // registering the same definition from everywhere
				_ = reg.Register(shared)
				if got := reg.Lookup("+shared={a:{1}}", markers.DescribesType); got != shared {
					o.bad("shared definition: %v", got)
				}
				v, err := shared.Parse("+shared={a:{1,2},b:{3}}")
				if m, ok := v.(map[string][]int); err != nil || !ok || len(m) != 2 || len(m["a"]) != 2 {
					o.bad("parsing: %v %v", v, err)
				}
			}
			if rr.Intn(3) == 0 {
				all := map[*markers.Definition]int{}
				for _, x := range reg.AllDefinitions() {
					all[x]++
				}
				for _, x := range mine {
					if all[x] != 1 {
						o.bad("goroutine %d: own definition %s occurs %d times in AllDefinitions", i, x.Name, all[x])
					}
				}
			}
			o.count("registry_ops", 1)
		}
	})
	o.order("reg", ord)
	names := map[string]int{}
	for _, d := range reg.AllDefinitions() {
		names[d.Name]++
	}
	delete(names, "shared")
	if len(names) != g*per {
		o.bad("%d definitions registered by %d goroutines, %d in the registry", g*per, g, len(names))
	}
	for i := 0; i < g; i++ {
		for k := 0; k < per; k++ {
			if n := names[fmt.Sprintf("m%d:x%d", i, k)]; n != 1 {
				o.bad("definition m%d:x%d occurs %d times", i, k, n)
			}
		}
	}
}

// nodeKey names a node in a way that is the same in every load.
func nodeKey(pkg *loader.Package, fset *token.FileSet, n ast.Node) string {
	p := fset.Position(n.Pos())
	return fmt.Sprintf("%T@%s:%d:%d", n, filepath.Base(p.Filename), p.Line, p.Column)
}

// markerSummary is everything the collector says about a package.
func markerSummary(col *markers.Collector, pkg *loader.Package, how int) (string, error) {
	var out []string
	switch how % 3 {
	case 0:
		ms, err := col.MarkersInPackage(pkg)
		if err != nil {
			return "", err
		}
		for n, v := range ms {
			out = append(out, fmt.Sprintf("%T %d %s", n, n.Pos()-filePos(pkg, n), valSummary(v)))
		}
	case 1:
		v, err := markers.PackageMarkers(col, pkg)
		if err != nil {
			return "", err
		}
		out = append(out, valSummary(v))
	case 2:
		if err := markers.EachType(col, pkg, func(info *markers.TypeInfo) {
			s := info.Name + " " + info.Doc + " " + valSummary(info.Markers)
			for _, f := range info.Fields {
				s += fmt.Sprintf("\n  %s %q %q %s", f.Name, f.Doc, f.Tag, valSummary(f.Markers))
			}
			out = append(out, s)
		}); err != nil {
			return "", err
		}
		return strings.Join(out, "\n"), nil
	}
	sort.Strings(out)
	return strings.Join(out, "\n"), nil
}

// filePos is the start of the file a node is in: file sets are filled concurrently.
func filePos(pkg *loader.Package, n ast.Node) token.Pos {
	for _, f := range pkg.Syntax {
		if f.FileStart <= n.Pos() && n.Pos() <= f.FileEnd {
			return f.FileStart - token.Pos(100000*(len(f.Name.Name)+1)) // any constant will do
		}
	}
	return 0
}

func valSummary(v markers.MarkerValues) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

func mustLoad(dir string, pats ...string) []*loader.Package {
	roots, err := loader.LoadRootsWithConfig(&packages.Config{Dir: dir}, pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE load:", err)
		os.Exit(3)
	}
	return roots
}

// reach is every package reachable from the roots, by path, within the module.
func reach(roots []*loader.Package) map[string]*loader.Package {
	m := map[string]*loader.Package{}
	var visit func(p *loader.Package)
	visit = func(p *loader.Package) {
		if m[p.PkgPath] != nil {
			return
		}
		m[p.PkgPath] = p
		for _, i := range p.Imports() {
			visit(i)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return m
}

// All of these are loaded by one call to the go command, so that there's one object per package.
var c17Pats = [][]string{{"./..."}, {"./..."}, {"example.test/dag/p3", "example.test/dag/p2", "example.test/dag/p4"}, {"./p4"}, {"example.test/dag/p4", "example.test/dag/p1"}}

func c17Collect(o *c17Out, r *rand.Rand, dir string) {
	pats := pick(r, c17Pats...)
	col := &markers.Collector{Registry: &markers.Registry{}}
	testDefs(col.Registry)
	ref := map[string]string{}
	seq := reach(mustLoad(dir, pats...))
	for p, pkg := range seq {
		for how := 0; how < 3; how++ {
			s, err := markerSummary(col, pkg, how)
			if err != nil {
				fmt.Fprintln(os.Stderr, "INCONCLUSIVE sequential:", err)
				os.Exit(3)
			}
			ref[fmt.Sprintf("%s/%d", p, how)] = s
		}
	}
	// Packages are lazily parsed by whoever comes first.
	roots := mustLoad(dir, pats...)
	pkgs := reach(roots)
	paths := sortedKeys(pkgs)
	cols := []*markers.Collector{{Registry: col.Registry}, {Registry: col.Registry}}
	g := 3 + r.Intn(6)
	seeds := make([]int64, g)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	ord := together(g, func(i int) {
		rr := rand.New(rand.NewSource(seeds[i]))
		order := rr.Perm(len(paths))
		if i%2 == 0 {
			sort.Ints(order) // many start with the same one
		}
		for _, k := range order {
			p := paths[k]
			how := rr.Intn(3)
			s, err := markerSummary(cols[rr.Intn(2)*rr.Intn(2)], pkgs[p], how)
			if err != nil {
				o.bad("%s: %v", p, err)
				continue
			}
			o.count("collections", 1)
			if want := ref[fmt.Sprintf("%s/%d", p, how)]; s != want {
				o.bad("package %s, view %d: markers differ from those of sequential collection:\n%s\n--- want\n%s", p, how, clip(s, 1500), clip(want, 1500))
			}
		}
	})
	o.order("col", ord)
}

// tagFilter follows fields with a JSON tag, as the CRD generator does.
func tagFilter(events *[]string, mu *sync.Mutex, rr *rand.Rand) loader.NodeFilter {
	return func(n ast.Node) bool {
		f, isField := n.(*ast.Field)
		if !isField {
			return true
		}
		mu.Lock()
		d := rr.Intn(12)
		if events != nil && len(*events) < 200 && len(f.Names) > 0 {
			*events = append(*events, fmt.Sprintf("%d", f.Pos()))
		}
		mu.Unlock()
		switch { // injected delays
		case d == 0:
			time.Sleep(time.Duration(50) * time.Microsecond)
		case d < 4:
			runtime.Gosched()
		}
		_, has := loader.ParseAstTag(f.Tag).Lookup("json")
		return has
	}
}

// typeSummary describes the fields with a JSON tag of every struct type of a checked package.
func typeSummary(pkg *loader.Package) string {
	if pkg.TypesInfo == nil || pkg.Types == nil {
		return "not checked"
	}
	sc := pkg.Types.Scope()
	var out []string
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		s := n
		if st, ok := tn.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if strings.Contains(st.Tag(i), "json:") {
					t := st.Field(i).Type()
					s += fmt.Sprintf("\n  %s %s", st.Field(i).Name(), t)
					switch x := t.(type) {
					case *types.Pointer:
						t = x.Elem()
					case *types.Slice:
						t = x.Elem()
					case *types.Map:
						t = x.Elem()
					}
					s += fmt.Sprintf(" = %s", t.Underlying())
				}
			}
		}
		out = append(out, s)
	}
	defs := 0
	for _, d := range pkg.TypesInfo.Defs {
		if d != nil {
			defs++
		}
	}
	return fmt.Sprintf("complete=%v files=%d defs=%d\n%s", pkg.Types.Complete(), len(pkg.Syntax), defs, strings.Join(out, "\n"))
}

// untag removes what may be a placeholder from the underlying type shown.
func c17Check(o *c17Out, r *rand.Rand, dir string) {
	pats := pick(r, c17Pats...)
	var mu sync.Mutex
	refRoots := mustLoad(dir, pats...)
	seqChk := &loader.TypeChecker{NodeFilters: []loader.NodeFilter{tagFilter(nil, &mu, rand.New(rand.NewSource(1)))}}
	for _, p := range refRoots {
		seqChk.Check(p)
	}
	ref := map[string]string{}
	for p, pkg := range reach(refRoots) {
		ref[p] = structural(typeSummary(pkg))
	}
	roots := mustLoad(dir, pats...)
	var events []string
	base := map[string]bool{}
	_ = base
	delay := rand.New(rand.NewSource(r.Int63()))
	mk := func() *loader.TypeChecker {
		return &loader.TypeChecker{NodeFilters: []loader.NodeFilter{tagFilter(&events, &mu, delay)}}
	}
	shared := mk()
	g := 1 + r.Intn(6)
	several := chance(r, 50)
	perms := make([][]int, g)
	own := make([]bool, g)
	for i := range perms {
		perms[i] = r.Perm(len(roots))
		own[i] = several && chance(r, 50)
	}
	ord := together(g, func(i int) {
		chk := shared
		if own[i] {
			chk = mk()
		}
		for _, k := range perms[i] {
			chk.Check(roots[k])
			if roots[k].TypesInfo == nil {
				o.bad("%s has no type information after it was checked", roots[k].PkgPath)
			}
			o.count("checks", 1)
		}
	})
	o.order("chk", ord+"/"+strings.Join(firsts(events), "-"))
	for p, pkg := range reach(roots) {
		if s := structural(typeSummary(pkg)); s != ref[p] {
			o.bad("package %s: types differ from those of sequential checking (%d goroutines, roots %v):\n%s\n--- want\n%s", p, g, pats, clip(s, 2000), clip(ref[p], 2000))
		}
		o.count("packages_compared", 1)
	}
}

// structural drops the untagged fields out of struct types shown: they may be of placeholder types.
var untaggedField = regexp.MustCompile(`[A-Za-z_0-9]+ [^;{}"]+(; |})`)

func structural(s string) string { return untaggedField.ReplaceAllString(s, "$1") }

// firsts compresses a sequence of positions to the order in which the 200-byte blocks were met.
func firsts(ev []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, e := range ev {
		n, _ := strconv.Atoi(e)
		k := strconv.Itoa(n / 400)
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

func c17Lazy(o *c17Out, r *rand.Rand, dir string) {
	pats := pick(r, c17Pats...)
	roots := mustLoad(dir, pats...)
	refPkgs := reach(mustLoad(dir, pats...))
	g := 3 + r.Intn(6)
	seen := make([]map[string]*loader.Package, g)
	files := make([]map[string]*ast.File, g)
	nodes := make([]map[string]int, g)
	var umu sync.Mutex
	ord := together(g, func(i int) {
		m := map[string]*loader.Package{}
		fs := map[string]*ast.File{}
		tn := map[string]int{}
		var visit func(p *loader.Package)
		visit = func(p *loader.Package) {
			if m[p.ID] != nil {
				if m[p.ID] != p {
					o.bad("two objects for package %s", p.ID)
				}
				return
			}
			m[p.ID] = p
			p.NeedSyntax()
			for _, f := range p.Syntax {
				fs[p.ID+"/"+filepath.Base(fileName(p, f))] = f
			}
			loader.EachType(p, func(*ast.File, *ast.GenDecl, *ast.TypeSpec) { tn[p.PkgPath]++ })
			imps := p.Imports()
			for _, k := range sortedKeys(imps) {
				visit(imps[k])
			}
			o.count("lazy_loads", 1)
		}
		for k := range roots {
			visit(roots[(k+i)%len(roots)])
		}
		umu.Lock()
		seen[i], files[i], nodes[i] = m, fs, tn
		umu.Unlock()
	})
	o.order("lazy", ord)
	for i := 0; i < g; i++ {
		if len(seen[i]) != len(refPkgs) {
			o.bad("goroutine %d saw %d packages, %d sequentially", i, len(seen[i]), len(refPkgs))
		}
		for id, p := range seen[i] {
			if seen[0][id] != p {
				o.bad("package %s is a different object in goroutines 0 and %d", id, i)
			}
		}
		if len(files[i]) != len(files[0]) {
			o.bad("goroutine %d saw %d files, goroutine 0 %d", i, len(files[i]), len(files[0]))
		}
		for n, f := range files[i] {
			if files[0][n] != f {
				o.bad("file %s is a different tree in goroutines 0 and %d: nodes cannot be used as keys", n, i)
				break
			}
		}
		for p, n := range nodes[i] {
			if nodes[0][p] != n {
				o.bad("package %s: %d and %d types", p, n, nodes[0][p])
			}
		}
	}
}

// fileName is the name of the file of a package whose tree f is.
func fileName(p *loader.Package, f *ast.File) string {
	for i, x := range p.Syntax {
		if x == f {
			return p.CompiledGoFiles[i]
		}
	}
	return "?"
}

// parseErrs is what go/parser says about the files of a package.
func parseErrs(files []string) []string {
	var out []string
	for _, f := range files {
		_, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.AllErrors|parser.ParseComments)
		if l, ok := err.(scanner.ErrorList); ok {
			for _, e := range l {
				out = append(out, e.Pos.String()+": "+e.Msg)
			}
		}
	}
	return uniqSorted(out)
}

func uniqSorted(l []string) []string {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return sortedKeys(m)
}

func c17Errors(o *c17Out, r *rand.Rand, dir string) {
	roots := mustLoad(dir, "./...")
	g := 1 + r.Intn(5)
	var ord string
	if g == 1 { // as the tool does: the files of a package at once
		for _, p := range roots {
			p.NeedSyntax()
		}
	} else {
		perms := make([][]int, g)
		for i := range perms {
			perms[i] = r.Perm(len(roots))
		}
		col := &markers.Collector{Registry: &markers.Registry{}}
		testDefs(col.Registry)
		chk := &loader.TypeChecker{}
		ord = together(g, func(i int) {
			for _, k := range perms[i] {
				switch (i + k) % 3 {
				case 0:
					roots[k].NeedSyntax()
				case 1:
					_, _ = col.MarkersInPackage(roots[k])
				case 2:
					chk.Check(roots[k])
				}
			}
		})
	}
	o.order("err", ord)
	for _, p := range roots {
		want := parseErrs(p.CompiledGoFiles)
		var got []string
		for _, e := range p.Errors {
			if e.Kind == packages.ParseError {
				got = append(got, e.Pos+": "+e.Msg)
			}
		}
		got = uniqSorted(got)
		o.count("parse_errors", int64(len(want)))
		have := map[string]bool{}
		for _, x := range got {
			have[x] = true
		}
		for _, w := range want {
			if !have[w] {
				o.bad("%s (%d goroutines): parse error %q was lost; reported:\n%s", p.PkgPath, g, w, strings.Join(got, "\n"))
				break
			}
		}
	}
}

// c17Generate: whole generations at once, each on packages of its own.
func c17Generate(o *c17Out, r *rand.Rand, dir string) {
	run := func(which int) map[string]string {
		gen := []genall.Generator{crdgen.Generator{}, dcgen.Generator{}, rbacgen.Generator{RoleName: "r"}, whgen.Generator{}}[which]
		roots := mustLoad(dir, "./...")
		out := newMemOut()
		ctx := genCtx(gen, newCollector(gen), roots, out)
		if err := gen.Generate(ctx); err != nil {
			o.bad("generator %d: %v", which, err)
		}
		s := out.snap()
		for i, e := range pkgErrors(roots) {
			s[fmt.Sprintf("error%d", i)] = e
		}
		return s
	}
	var ref [4]map[string]string
	for i := range ref {
		ref[i] = run(i)
	}
	g := 4 + r.Intn(5)
	off := r.Intn(4)
	ord := together(g, func(i int) {
		k := (i + off) % 4
		got := run(k)
		o.count("generations", 1)
		o.count("artifacts", int64(len(got)))
		if d := diffSnap(ref[k], got); d != "" {
			o.bad("generator %d beside others: %s", k, clip(d, 3000))
		}
	})
	o.order("gen", ord)
}

// c17CLI: the tool itself, built with the race detector.
func c17CLI(c *Ctx, j c17Job) {
	args := []string{"object", "paths=./..."}
	if j.kind == "cli" {
		args = []string{"crd", "rbac:roleName=r", "webhook", "paths=./...", "output:stdout"}
	} else {
		args = []string{"crd", "object", "paths=./...", "output:none"}
	}
	var base Result
	for k := 0; k < j.iter; k++ {
		log := filepath.Join(c.CaseDir("log"), "race")
		res := runCmd(j.dir, raceEnv(log), 400*time.Second, filepath.Join(c.Bin, "controller-gen-race"), args...)
		c.Count("runs_"+j.kind, 1)
		c.Count("tool_runs", 1)
		if c17Races(c, j, log) > 0 {
			return
		}
		c.judgeRun(j.dir, res, args)
		if k == 0 {
			base = runCmd(j.dir, nil, toolTimeout, filepath.Join(c.Bin, "controller-gen"), args...)
			c.Eval(j.kind + base.Stdout + base.Stderr)
		}
		if base.Code != res.Code || base.Stdout != res.Stdout || strings.Join(uniqSorted(strings.Split(base.Stderr, "\n")), "\n") != strings.Join(uniqSorted(strings.Split(res.Stderr, "\n")), "\n") {
			c.Violate("cli-differs", fmt.Sprintf("two runs of controller-gen %s differ:\nexit %d\n%s\n%s\n--- and exit %d\n%s\n%s", strings.Join(args, " "), base.Code, clip(base.Stdout, 1000), clip(base.Stderr, 2000), res.Code, clip(res.Stdout, 1000), clip(res.Stderr, 2000)), nil, j.dir)
			return
		}
		if j.kind == "clierr" { // every file that does not parse is named
			fs, _ := filepath.Glob(filepath.Join(j.dir, "p*", "*.go"))
			for _, e := range parseErrs(fs) {
				if !strings.Contains(res.Stderr, e) {
					c.Violate("cli-lost-error", fmt.Sprintf("parse error %q is not reported by controller-gen %s:\n%s", e, strings.Join(args, " "), clip(res.Stderr, 3000)), nil, j.dir)
					return
				}
			}
		}
	}
}
