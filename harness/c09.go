package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	rbacv1 "k8s.io/api/rbac/v1"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/rbac"
)

// C09: access decisions of the generated roles against those of the written markers.

func init() { register("C09", checkC09) }

type rbacMark struct {
	groups, resources, names, verbs, urls []string
	ns                                    string
}

func (m rbacMark) text(r *rand.Rand) string {
	var args []string
	list := func(key string, xs []string) {
		if xs == nil {
			return
		}
		q := make([]string, len(xs))
		for i, x := range xs {
			if x == "" || strings.ContainsAny(x, " ,;:{}") || chance(r, 20) {
				q[i] = strconv.Quote(x)
			} else {
				q[i] = x
			}
		}
		if len(q) > 0 && chance(r, 25) {
			args = append(args, key+"={"+strings.Join(q, ",")+"}")
		} else {
			args = append(args, key+"="+strings.Join(q, ";"))
		}
	}
	list("groups", m.groups)
	list("resources", m.resources)
	list("resourceNames", m.names)
	list("verbs", m.verbs)
	list("urls", m.urls)
	if m.ns != "" {
		args = append(args, "namespace="+m.ns)
	}
	r.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
	return "// +kubebuilder:rbac:" + strings.Join(args, ",")
}

var (
	rGroups = []string{"core", "", "apps", "batch", "*"}
	rRes    = []string{"pods", "jobs", "pods/log", "svcs", "*"}
	rNames  = []string{"n1", "n2", "n1&n2", "N1"}
	rVerbs  = []string{"get", "list", "watch", "create", "*"}
	rURLs   = []string{"/metrics", "/healthz", "/apis/*", "/Metrics"}
	rNS     = []string{"", "", "", "ns1", "ns2"}
)

func pickSome(r *rand.Rand, xs []string, max int) []string {
	n := 1 + r.Intn(max)
	out := make([]string, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, xs[r.Intn(len(xs))])
	}
	return out
}

func genRBACMark(r *rand.Rand, wild bool) rbacMark {
	cut := func(xs []string) []string {
		if wild {
			return xs
		}
		return xs[:len(xs)-1]
	}
	m := rbacMark{verbs: pickSome(r, cut(rVerbs), 3), ns: rNS[r.Intn(len(rNS))]}
	if chance(r, 25) {
		m.urls = pickSome(r, rURLs, 3)
		if chance(r, 30) { // both kinds in one marker
			m.groups = pickSome(r, cut(rGroups), 2)
			m.resources = pickSome(r, cut(rRes), 2)
		}
		if m.ns != "" {
			m.ns = ""
		}
		return m
	}
	m.groups = pickSome(r, cut(rGroups), 3)
	m.resources = pickSome(r, cut(rRes), 3)
	if chance(r, 25) {
		m.names = pickSome(r, rNames, 2)
	}
	return m
}

type grantFn func(verb, group, resource, name string) bool
type urlFn func(verb, url string) bool

func has(xs []string, x string) bool {
	for _, y := range xs {
		if y == x || y == "*" {
			return true
		}
	}
	return false
}
func hasExact(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

// resource matching as the Kubernetes authorizer does it ("*" matches everything)
func markAllows(ms []rbacMark, verb, group, res, name string) bool {
	for _, m := range ms {
		gs := make([]string, len(m.groups))
		for i, g := range m.groups {
			if g == "core" {
				g = ""
			}
			gs[i] = g
		}
		if has(m.verbs, verb) && has(gs, group) && has(m.resources, res) && (len(m.names) == 0 || hasExact(m.names, name)) {
			return true
		}
	}
	return false
}
func markAllowsURL(ms []rbacMark, verb, url string) bool {
	for _, m := range ms {
		if has(m.verbs, verb) && urlMatch(m.urls, url) {
			return true
		}
	}
	return false
}
func urlMatch(us []string, url string) bool {
	for _, u := range us {
		if u == url || u == "*" || (strings.HasSuffix(u, "*") && strings.HasPrefix(url, strings.TrimRight(u, "*"))) {
			return true
		}
	}
	return false
}
func ruleAllows(rs []rbacv1.PolicyRule, verb, group, res, name string) bool {
	for _, r := range rs {
		if has(r.Verbs, verb) && has(r.APIGroups, group) && has(r.Resources, res) && (len(r.ResourceNames) == 0 || hasExact(r.ResourceNames, name)) {
			return true
		}
	}
	return false
}
func ruleAllowsURL(rs []rbacv1.PolicyRule, verb, url string) bool {
	for _, r := range rs {
		if has(r.Verbs, verb) && urlMatch(r.NonResourceURLs, url) {
			return true
		}
	}
	return false
}

func checkC09(c *Ctx) {
	c.Rule("Marker multisets over a small alphabet of groups, resources, names, verbs and URLs (so that merging collides often), spread over 1-2 files per package and 1-3 packages; each set is generated several times. Every probe (verb, group, resource, name | verb, url) per namespace is decided both from the markers and from the written roles. A case is non-trivial if its markers ask for at least two different rules; distinct by marker text.")
	nPk := c.N(2500, 8000)
	reps := c.N(6, 12)
	dir := c.CaseDir("rbac")
	newModule(dir, "example.test/rbac")
	r := c.Rng("gen", 0)
	var all [][]rbacMark
	for i := 0; i < nPk; i++ {
		n := 1 + r.Intn(7)
		if chance(r, 10) {
			n = 0
		}
		wild := chance(r, 30)
		var ms []rbacMark
		files := 1 + r.Intn(2)
		lines := make([][]string, files)
		for k := 0; k < n; k++ {
			m := genRBACMark(r, wild)
			if k > 0 && chance(r, 40) { // near-copy of an earlier marker: collisions in merging
				m2 := ms[r.Intn(len(ms))]
				switch r.Intn(7) {
				case 5: // URLs alone
					if m2.urls != nil {
						m2.groups, m2.resources, m2.names = nil, nil, nil
					}
				case 6: // URLs, too
					if m2.ns == "" && m2.urls == nil {
						m2.urls = rURLs[:1]
						if chance(r, 60) {
							m2.groups = pickSome(r, rGroups[:2], 2)
						}
					}
				case 4:
					if m2.urls == nil {
						m2.names = nil
						if chance(r, 70) {
							m2.names = pickSome(r, rNames, 2)
						}
					}
				case 0:
					m2.verbs = m.verbs
				case 1:
					if m2.groups != nil {
						m2.groups = pickSome(r, rGroups[:4], 2)
					}
				case 2:
					if m2.resources != nil {
						m2.resources = pickSome(r, rRes[:4], 2)
					}
				case 3:
					if m2.urls != nil {
						m2.urls = pickSome(r, rURLs, 2)
						m2.verbs = m.verbs
					}
				}
				m = m2
			}
			ms = append(ms, m)
			f := r.Intn(files)
			lines[f] = append(lines[f], m.text(r))
		}
		if i >= 40 && i < 100 { // two markers that differ in exactly one list, and a third that meets one of them
			base := rbacMark{groups: []string{"apps"}, resources: []string{"pods"}, names: []string{"n1"}, verbs: []string{"get"}}
			vary := func(b rbacMark, k int) rbacMark {
				switch k {
				case 0:
					b.groups = []string{"batch"}
				case 1:
					b.resources = []string{"jobs"}
				case 2:
					b.names = []string{"n2"}
				case 3:
					b.names = nil
				case 4:
					b.verbs = []string{"list"}
				}
				return b
			}
			ms = []rbacMark{base, vary(base, i%5), vary(vary(base, i%5), (i/5)%5)}
			if i >= 70 {
				ms = ms[:2]
			}
			r.Shuffle(len(ms), func(a, b int) { ms[a], ms[b] = ms[b], ms[a] })
			lines = [][]string{{}}
			for _, m := range ms {
				lines[0] = append(lines[0], m.text(r))
			}
		}
		if i < 40 { // enumerate the three-marker family in which partial merges meet: {a,b}xV, {a}xW, {b}xW
			mk := func(res bool, xs []string, v string) rbacMark {
				if res {
					return rbacMark{groups: xs, resources: []string{"pods"}, verbs: []string{v}}
				}
				return rbacMark{urls: xs, verbs: []string{v}}
			}
			set := []string{"apps", "batch"}
			if i%2 == 1 {
				set = []string{"/metrics", "/healthz"}
			}
			res := i%2 == 0
			ms = []rbacMark{mk(res, set, "get"), mk(res, set[:1], "list"), mk(res, set[1:], "list")}
			r.Shuffle(3, func(a, b int) { ms[a], ms[b] = ms[b], ms[a] })
			lines = [][]string{{}}
			for _, m := range ms {
				lines[0] = append(lines[0], m.text(r))
			}
		}
		all = append(all, ms)
		p := filepath.Join(dir, fmt.Sprintf("p%d", i))
		for f := range lines {
			var b strings.Builder
			if f == 0 {
				for _, l := range lines[f] {
					b.WriteString(l + "\n")
				}
				b.WriteString("package p\n")
			} else {
				b.WriteString("package p\n\n")
				for k, l := range lines[f] {
					b.WriteString(l + "\n")
					if k%2 == 0 {
						// (a blank line: markers in the Godoc of a function belong to no package)
						b.WriteString(fmt.Sprintf("\nfunc f%d() {}\n\n", k))
					}
				}
			}
			writeFile(filepath.Join(p, fmt.Sprintf("f%d.go", f)), b.String())
		}
	}
	roots, err := loadPkgs(dir, "./...")
	if err != nil {
		panic(err)
	}
	m := byPath(roots)
	sets := make([][]int, 0, nPk*5/4)
	for i := range all {
		sets = append(sets, []int{i})
	}
	for i := 0; i < nPk/4; i++ {
		s := []int{r.Intn(nPk), r.Intn(nPk)}
		if chance(r, 50) {
			s = append(s, r.Intn(nPk))
		}
		sets = append(sets, s)
	}
	parallel(len(sets), 8, func(k int) {
		var pk []*loader.Package
		var ms []rbacMark
		seen := map[int]bool{}
		for _, i := range sets[k] {
			if seen[i] {
				continue
			}
			seen[i] = true
			pk = append(pk, m[fmt.Sprintf("example.test/rbac/p%d", i)])
			ms = append(ms, all[i]...)
		}
		role := "role-x"
		var first map[string]string
		for rep := 0; rep < reps; rep++ {
			g := rbac.Generator{RoleName: role}
			out := newMemOut()
			col := newCollector(g)
			if err := g.Generate(genCtx(g, col, pk, out)); err != nil {
				c.Violate("rbac-error", fmt.Sprintf("valid RBAC markers rejected: %v", err), nil, filepath.Join(dir, fmt.Sprintf("p%d", sets[k][0])))
				return
			}
			if errs := pkgErrors(pk); len(errs) > 0 {
				c.Violate("rbac-pkg-error", fmt.Sprintf("valid RBAC markers rejected: %v", errs), nil, filepath.Join(dir, fmt.Sprintf("p%d", sets[k][0])))
				return
			}
			s := out.snap()
			if rep == 0 {
				first = s
			}
			key := ""
			if rep == 0 && len(ms) > 1 {
				key = fmt.Sprint(ms)
			}
			c.Eval(key)
			if msg := judgeRBAC(c, ms, s, role); msg != "" {
				var in []string
				for _, x := range ms {
					in = append(in, x.text(c.Rng("x", 0)))
				}
				c.Violate("rbac", msg+"\n\nmarkers:\n"+strings.Join(in, "\n")+"\n\noutput:\n"+s["role.yaml"], map[string]string{"role.yaml": s["role.yaml"], "markers.go": "package p\n" + strings.Join(in, "\n")}, "")
				return
			}
			_ = first
		}
		if k < 2 {
			c.Sample(map[string]any{"markers": fmt.Sprint(ms), "role": first["role.yaml"]})
		}
	})
	c.Min("evaluations", int64(nPk))
	c.Min("probes", 1000)

	// the same through the command line, with file name and header options
	for i := 0; i < c.N(6, 40); i++ {
		k := r.Intn(nPk)
		o := c.CaseDir("rbacout")
		fn := pick(r, "", "roles.yaml", "sub.yml")
		hdr := ""
		arg := "rbac:roleName=cli-role"
		if fn != "" {
			arg += ",fileName=" + fn
		}
		if chance(r, 50) {
			hdr = "# header YEAR\n# second\n"
			writeFile(filepath.Join(o, "h.txt"), hdr)
			arg += ",headerFile=" + filepath.Join(o, "h.txt") + ",year=2031"
		}
		res := c.Gen(dir, arg, fmt.Sprintf("paths=./p%d", k), "output:dir="+filepath.Join(o, "out"))
		if res.Code != 0 {
			c.Violate("rbac-cli", "valid run failed: "+res.Stderr, nil, "")
			continue
		}
		s := snapshot(filepath.Join(o, "out"))
		name := fn
		if name == "" {
			name = "role.yaml"
		}
		if len(all[k]) == 0 {
			if len(s) != 0 {
				c.Violate("rbac-cli-empty", fmt.Sprintf("files written without markers: %v", sortedKeys(s)), nil, "")
			}
			continue
		}
		if len(s) != 1 || s[name] == "" {
			c.Violate("rbac-cli-files", fmt.Sprintf("expected exactly %s, got %v", name, sortedKeys(s)), nil, "")
			continue
		}
		body := s[name]
		if hdr != "" {
			h := strings.ReplaceAll(hdr, " YEAR", " 2031")
			if !strings.HasPrefix(body, h) {
				c.Violate("rbac-cli-header", "header missing or altered: "+clip(body, 200), nil, "")
				continue
			}
			body = body[len(h):]
		}
		c.Eval(fmt.Sprintf("cli%d", k))
		if msg := judgeRBAC(c, all[k], map[string]string{"role.yaml": body}, "cli-role"); msg != "" {
			c.Violate("rbac", msg+"\n"+body, nil, "")
		}
	}
}

// judgeRBAC decides every probe both ways.
func judgeRBAC(c *Ctx, ms []rbacMark, files map[string]string, role string) string {
	byNS := map[string][]rbacMark{}
	for _, m := range ms {
		byNS[m.ns] = append(byNS[m.ns], m)
	}
	if len(byNS) == 0 {
		if len(files) != 0 {
			return fmt.Sprintf("artifacts without any marker: %v", sortedKeys(files))
		}
		return ""
	}
	if len(files) != 1 {
		return fmt.Sprintf("expected one artifact, got %v", sortedKeys(files))
	}
	got := map[string][]rbacv1.PolicyRule{}
	var order []string
	for _, d := range splitDocs(files["role.yaml"]) {
		var o rbacv1.Role
		if err := yamlInto(d, &o); err != nil {
			return "unparsable role: " + err.Error()
		}
		ns := o.Namespace
		want := "ClusterRole"
		if ns != "" {
			want = "Role"
		}
		if o.Kind != want || o.APIVersion != "rbac.authorization.k8s.io/v1" || o.Name != role {
			return fmt.Sprintf("bad object %s %s %s/%s", o.APIVersion, o.Kind, ns, o.Name)
		}
		if _, dup := got[ns]; dup {
			return "two objects for namespace " + strconv.Quote(ns)
		}
		if _, ok := byNS[ns]; !ok {
			return "object for a namespace without markers: " + ns
		}
		if len(o.Rules) == 0 {
			return "object without rules"
		}
		got[ns] = o.Rules
		order = append(order, ns)
	}
	if !sort.StringsAreSorted(order) {
		return fmt.Sprintf("objects not in stable namespace order: %q", order)
	}
	verbs := []string{"get", "list", "watch", "create", "delete"}
	groups := []string{"", "apps", "batch", "other.io"}
	ress := []string{"pods", "jobs", "pods/log", "svcs", "nodes"}
	names := []string{"", "n1", "n2", "n3", "n1&n2", "N1"}
	urls := []string{"/metrics", "/healthz", "/apis/x", "/other", "/Metrics"}
	for ns, mm := range byNS {
		rules, ok := got[ns]
		if !ok {
			return "no object for namespace " + strconv.Quote(ns)
		}
		n := 0
		for _, v := range verbs {
			for _, g := range groups {
				for _, re := range ress {
					for _, na := range names {
						n++
						a, b := markAllows(mm, v, g, re, na), ruleAllows(rules, v, g, re, na)
						if a != b {
							return fmt.Sprintf("ns %q: %s %s/%s name %q: markers grant=%v, generated role grants=%v", ns, v, g, re, na, a, b)
						}
					}
				}
			}
			for _, u := range urls {
				n++
				a, b := markAllowsURL(mm, v, u), ruleAllowsURL(rules, v, u)
				if a != b {
					return fmt.Sprintf("ns %q: %s %s: markers grant=%v, generated role grants=%v", ns, v, u, a, b)
				}
			}
		}
		c.Count("probes", int64(n))
	}
	return ""
}
