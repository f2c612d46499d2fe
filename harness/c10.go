package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// C10: the written webhook configurations against the webhooks in the markers.

func init() { register("C10", checkC10) }

// whMark is one kubebuilder:webhook marker: the argument texts and the webhook it stands for.
type whMark struct {
	mutating bool
	name     string
	args     map[string]string // argument → rendered value
	want     any
}

// whStr renders a string argument in one of its spellings.
func whStr(r *rand.Rand, s string) string {
	switch {
	case s == "" || strings.ContainsAny(s, " ,;{}\"`\\") || chance(r, 25):
		if !strings.ContainsAny(s, "`") && chance(r, 40) {
			return "`" + s + "`"
		}
		return strconv.Quote(s)
	}
	return s
}

func whList(r *rand.Rand, xs []string) string {
	q := make([]string, len(xs))
	for i, x := range xs {
		q[i] = whStr(r, x)
	}
	if chance(r, 30) {
		return "{" + strings.Join(q, pick(r, ",", ", ")) + "}"
	}
	return strings.Join(q, ";")
}

func whCase(r *rand.Rand, s string) string {
	switch r.Intn(3) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	}
	return s
}

func strs(xs []string) []any {
	o := make([]any, len(xs))
	for i, x := range xs {
		o[i] = x
	}
	return o
}

func genWebhook(r *rand.Rand, k int) whMark {
	m := whMark{mutating: chance(r, 50), args: map[string]string{}}
	m.name = fmt.Sprintf("%s%d.kb.io", pick(r, "m", "v", "a-b", "z", "A"), k)
	if chance(r, 15) {
		m.name = pick(r, "dup.kb.io", "x y.kb.io")
	}
	w := map[string]any{"name": m.name}
	m.args["name"] = whStr(r, m.name)
	m.args["mutating"] = strconv.FormatBool(m.mutating)
	groups := subset(r, 40, "core", "apps", "*", "batch.example.com", "")
	if len(groups) == 0 {
		groups = []string{pick(r, "apps", "core")}
	}
	r.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	m.args["groups"] = whList(r, groups)
	wg := make([]any, len(groups))
	for i, g := range groups {
		if g == "core" {
			g = ""
		}
		wg[i] = g
	}
	some := func(xs ...string) []string {
		o := subset(r, 45, xs...)
		if len(o) == 0 {
			o = []string{xs[r.Intn(len(xs))]}
		}
		r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
		return o
	}
	res := some("pods", "pods/status", "*", "*/*", "cronjobs", "core")
	m.args["resources"] = whList(r, res)
	vers := some("v1", "v1beta1", "*", "v2", "core")
	m.args["versions"] = whList(r, vers)
	verbs := some("CREATE", "UPDATE", "DELETE", "CONNECT", "*")
	vs := make([]string, len(verbs))
	for i, v := range verbs {
		vs[i] = whCase(r, v)
	}
	m.args["verbs"] = whList(r, vs)
	w["rules"] = []any{map[string]any{"apiGroups": wg, "apiVersions": strs(vers), "resources": strs(res), "operations": strs(verbs)}}
	fp := pick(r, "Fail", "Ignore")
	m.args["failurePolicy"] = whStr(r, whCase(r, fp))
	w["failurePolicy"] = fp
	if chance(r, 50) {
		mp := pick(r, "Exact", "Equivalent")
		m.args["matchPolicy"] = whStr(r, whCase(r, mp))
		w["matchPolicy"] = mp
	}
	se := pick(r, "None", "NoneOnDryRun")
	m.args["sideEffects"] = whStr(r, whCase(r, se))
	w["sideEffects"] = se
	if chance(r, 50) {
		t := pick(r, 1, 30, 10, 2+r.Intn(28), 0)
		m.args["timeoutSeconds"] = fmt.Sprint(t)
		if t != 0 { // zero stands for unset
			w["timeoutSeconds"] = t
		}
	}
	arv := some("v1", "v1beta1", "v2")
	m.args["admissionReviewVersions"] = whList(r, arv)
	w["admissionReviewVersions"] = strs(arv)
	if chance(r, 40) {
		rp := pick(r, "Never", "IfNeeded")
		m.args["reinvocationPolicy"] = whStr(r, whCase(r, rp))
		if m.mutating {
			w["reinvocationPolicy"] = rp
		}
	}
	if chance(r, 30) {
		m.args["webhookVersions"] = pick(r, "v1", "{v1}", "v1;v1", `"v1"`)
	}
	if chance(r, 30) {
		u := pick(r, "https://example.com:8443/mutate", "https://h/p?x=1,2;3")
		m.args["url"] = strconv.Quote(u)
		w["clientConfig"] = map[string]any{"url": u}
		if chance(r, 20) {
			m.args["serviceName"] = "ignored-svc" // says how a path is served, and there is none
		}
	} else {
		p := pick(r, "/mutate-x", "/validate-batch-example-com-v1-cronjob", "/a b", "/")
		m.args["path"] = whStr(r, p)
		svc := map[string]any{"name": "webhook-service", "namespace": "system", "path": p}
		if chance(r, 30) {
			s := pick(r, "svc", "my-svc")
			m.args["serviceName"] = whStr(r, s)
			svc["name"] = s
		}
		if chance(r, 30) {
			s := pick(r, "ns1", "default")
			m.args["serviceNamespace"] = whStr(r, s)
			svc["namespace"] = s
		}
		if chance(r, 30) {
			n := pick(r, 443, 1, 65535, 8443)
			m.args["servicePort"] = fmt.Sprint(n)
			svc["port"] = n
		}
		w["clientConfig"] = map[string]any{"service": svc}
	}
	m.want = w
	return m
}

func whText(r *rand.Rand, args map[string]string) string {
	ks := sortedKeys(args)
	r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	var p []string
	for _, k := range ks {
		p = append(p, k+"="+args[k])
	}
	return "// +kubebuilder:webhook:" + strings.Join(p, pick(r, ",", ",", ", "))
}

func checkC10(c *Ctx) {
	c.Rule("one evaluation = one run whose manifests (or rejection) were compared with the model; distinct by attributes used")
	n := c.N(240, 2000)
	parallel(n, 8, func(i int) { c10Case(c, i) })
	parallel(c.N(12, 80), 8, func(i int) { c10Invalid(c, i) })
	c.Min("evaluations", 90)
	c.Min("webhooks", 200)
	c.Min("rejected", 60)
	c.Min("no_file", 1)
}

func c10Place(r *rand.Rand, dir string, files [][]string) {
	for k, ms := range files {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\n", filepath.Base(dir))
		for _, m := range ms {
			b.WriteString(m + "\n")
			if chance(r, 60) {
				b.WriteString("\n")
			}
		}
		if chance(r, 50) {
			fmt.Fprintf(&b, "\ntype T%d struct{}\n", k)
		}
		writeFile(filepath.Join(dir, fmt.Sprintf("f%d.go", k)), b.String())
	}
}

func c10Case(c *Ctx, i int) {
	r := c.Rng("wh10", i)
	dir := c.CaseDir("wh10")
	newModule(dir, "wh.test/s")
	cfgName := map[bool]string{true: "mutating-webhook-configuration", false: "validating-webhook-configuration"}
	want := map[bool][]any{}
	perPkg := map[bool][][]string{}
	var texts []string
	np := 1 + r.Intn(3)
	named := map[bool]string{true: pick(r, "my-mutating", "m c"), false: "my-validating"}
	for p := 0; p < np; p++ {
		nf := 1 + r.Intn(3)
		files := make([][]string, nf)
		put := func(s string) {
			texts = append(texts, s)
			k := r.Intn(nf)
			files[k] = append(files[k], s)
		}
		nw := r.Intn(6)
		if i%9 == 0 {
			nw = 0
		}
		names := map[bool][]string{}
		for k := 0; k < nw; k++ {
			m := genWebhook(r, k)
			put(whText(r, m.args))
			want[m.mutating] = append(want[m.mutating], m.want)
			names[m.mutating] = append(names[m.mutating], canon(m.want))
			c.Count("webhooks", 1)
			for _, a := range sortedKeys(m.args) {
				c.See("attributes", a+fmt.Sprint(m.mutating))
			}
		}
		for _, mu := range []bool{true, false} {
			if chance(r, 25) { // every package that names the configuration names it alike
				a := []string{"mutating=" + strconv.FormatBool(mu)}
				if chance(r, 75) {
					a = append(a, "name="+whStr(r, named[mu]))
					cfgName[mu] = named[mu]
				}
				r.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
				put("// +kubebuilder:webhookconfiguration:" + strings.Join(a, ","))
			}
			perPkg[mu] = append(perPkg[mu], names[mu])
		}
		if chance(r, 30) {
			put("// +kubebuilder:rbac:groups=apps,resources=x,verbs=get")
		}
		c10Place(r, filepath.Join(dir, fmt.Sprintf("p%d", p)), files)
	}
	args := []string{"webhook", "paths=./...", "output:dir=out"}
	header := ""
	if chance(r, 20) {
		writeFile(filepath.Join(dir, "hdr.txt"), "# Copyright YEAR x, YEARLY\n")
		args[0] = "webhook:headerFile=hdr.txt,year=" + pick(r, "2031", "1999")
		header = strings.ReplaceAll("# Copyright YEAR x, YEARLY\n", " YEAR", " "+args[0][len(args[0])-4:])
	}
	res := c.Gen(dir, args...)
	key := fmt.Sprintf("m%d v%d %v", len(want[true]), len(want[false]), cfgName)
	c.Eval(key)
	if res.Code != 0 {
		c.Violate("valid-webhooks-rejected", fmt.Sprintf("case %d: exit %d on valid markers\n%s", i, res.Code, clip(res.Stderr, 2000)), nil, dir)
		return
	}
	total := len(want[true]) + len(want[false])
	out := snapshot(filepath.Join(dir, "out"))
	if total == 0 {
		c.Count("no_file", 1)
		if len(out) != 0 {
			c.Violate("file-without-webhooks", fmt.Sprintf("case %d: files written although no webhook is marked: %v", i, sortedKeys(out)), nil, dir)
		}
		return
	}
	if len(out) != 1 || out["manifests.yaml"] == "" {
		c.Violate("files", fmt.Sprintf("case %d: expected manifests.yaml only, found %v", i, sortedKeys(out)), nil, dir)
		return
	}
	text := readFile(filepath.Join(dir, "out", "manifests.yaml"))
	if !strings.HasPrefix(text, header) {
		c.Violate("header", fmt.Sprintf("case %d: header missing: %q", i, clip(text, 200)), nil, dir)
	}
	got := map[bool]any{}
	for _, d := range splitDocs(text) {
		v, err := yamlToAny(d)
		if err != nil {
			c.Violate("bad-yaml", fmt.Sprintf("case %d: %v", i, err), nil, dir)
			return
		}
		if v == nil {
			continue
		}
		kind := asStr(jget(v, "kind"))
		mu := kind == "MutatingWebhookConfiguration"
		if !mu && kind != "ValidatingWebhookConfiguration" || got[mu] != nil {
			c.Violate("objects", fmt.Sprintf("case %d: unexpected or repeated object of kind %q", i, kind), nil, dir)
			return
		}
		got[mu] = v
	}
	for _, mu := range []bool{true, false} {
		if (got[mu] != nil) != (len(want[mu]) > 0) {
			c.Violate("objects", fmt.Sprintf("case %d: mutating=%v: %d webhooks marked, configuration present: %v", i, mu, len(want[mu]), got[mu] != nil), nil, dir)
			continue
		}
		if got[mu] == nil {
			continue
		}
		hooks := asSlice(jget(got[mu], "webhooks"))
		var gs, ws []string
		for _, h := range hooks {
			gs = append(gs, canon(h))
		}
		for _, h := range want[mu] {
			ws = append(ws, canon(h))
		}
		sortedGs := append([]string(nil), gs...)
		sort.Strings(sortedGs)
		sort.Strings(ws)
		if a, b := strings.Join(ws, "\n"), strings.Join(sortedGs, "\n"); a != b {
			c.Violate("webhooks", fmt.Sprintf("case %d: mutating=%v webhooks differ from those marked (-marked +written):\n%s", i, mu, lineDiff(a, b)), nil, dir)
		}
		// the rest of the object
		rest := map[string]any{}
		for k, v := range got[mu].(map[string]any) {
			if k != "webhooks" {
				rest[k] = v
			}
		}
		kind := "ValidatingWebhookConfiguration"
		if mu {
			kind = "MutatingWebhookConfiguration"
		}
		wr := map[string]any{"apiVersion": "admissionregistration.k8s.io/v1", "kind": kind, "metadata": map[string]any{"name": cfgName[mu]}}
		if canon(rest) != canon(wr) {
			c.Violate("configuration", fmt.Sprintf("case %d: configuration is %s, expected %s", i, canon(rest), canon(wr)), nil, dir)
		}
	}
	c.Sample(map[string]any{"markers": len(texts), "example": texts[0], "configurations": cfgName})
}

// c10Invalid makes one setting of one of several valid webhooks invalid; the run has to fail.
func c10Invalid(c *Ctx, i int) {
	type bad struct {
		name string
		do   func(r *rand.Rand, m *whMark) []string // returns extra markers
	}
	set := func(k string, vs ...string) bad {
		return bad{k + "=" + strings.Join(vs, "|"), func(r *rand.Rand, m *whMark) []string { m.args[k] = vs[r.Intn(len(vs))]; return nil }}
	}
	del := func(k string) bad {
		return bad{"-" + k, func(r *rand.Rand, m *whMark) []string { delete(m.args, k); return nil }}
	}
	extra := func(name string, xs ...string) bad {
		return bad{name, func(r *rand.Rand, m *whMark) []string { return xs }}
	}
	bads := []bad{
		{"path and url", func(r *rand.Rand, m *whMark) []string {
			m.args["path"], m.args["url"] = "/x", `"https://x/y"`
			return nil
		}},
		{"neither path nor url", func(r *rand.Rand, m *whMark) []string { delete(m.args, "path"); delete(m.args, "url"); return nil }},
		set("sideEffects", "Some", "Unknown", "some", "unknown", "bogus", `""`), del("sideEffects"),
		set("timeoutSeconds", "31"), set("timeoutSeconds", "-1"), set("timeoutSeconds", "4294967306"), set("timeoutSeconds", "100", "2147483648"), set("timeoutSeconds", "ten", "1.5"),
		set("admissionReviewVersions", "{}"), del("admissionReviewVersions"), del("name"), del("mutating"), del("groups"), del("resources"), del("verbs"), del("versions"), del("failurePolicy"),
		set("unknownArg", "1"), set("matchpolicy", "Exact"), set("matchPolicy", "Bogus", "exactly"), set("webhookVersions", "v1beta1", "v2", "v1;v1beta1", "{v1beta1,v1}"),
		set("servicePort", "4294967739", "-4294966853"), set("servicePort", "http"), set("mutating", "maybe", "1"),
		{"reinvocationPolicy", func(r *rand.Rand, m *whMark) []string {
			m.args["mutating"] = "true"
			m.args["reinvocationPolicy"] = pick(r, "Always", "if-needed")
			return nil
		}},
		extra("dup mutating", "// +kubebuilder:webhookconfiguration:mutating=true,name=a", "// +kubebuilder:webhookconfiguration:mutating=true,name=b"),
		extra("dup validating", "// +kubebuilder:webhookconfiguration:mutating=false,name=a", "// +kubebuilder:webhookconfiguration:mutating=false,name=b"),
		extra("config without mutating", "// +kubebuilder:webhookconfiguration:name=a"),
		extra("config unknown argument", "// +kubebuilder:webhookconfiguration:mutating=true,nam=a"),
	}
	for k, bd := range bads {
		r := c.Rng("wh10bad", i*1000+k)
		dir := c.CaseDir("wh10b")
		newModule(dir, "wh.test/s")
		nw := 1 + r.Intn(4)
		at := r.Intn(nw)
		var valid, broken []string
		for j := 0; j < nw; j++ {
			m := genWebhook(r, j)
			valid = append(valid, whText(r, m.args))
			if j == at {
				ex := bd.do(r, &m)
				broken = append(broken, ex...)
			}
			broken = append(broken, whText(r, m.args))
		}
		r.Shuffle(len(broken), func(i, j int) { broken[i], broken[j] = broken[j], broken[i] })
		np := 1 + r.Intn(2)
		for p := 0; p < np; p++ {
			ms := broken
			if p != 0 {
				ms = valid
			}
			files := make([][]string, 1+r.Intn(2))
			for _, m := range ms {
				f := r.Intn(len(files))
				files[f] = append(files[f], m)
			}
			c10Place(r, filepath.Join(dir, fmt.Sprintf("p%d", p)), files)
		}
		res := c.Gen(dir, "webhook", "paths=./...", "output:dir=out")
		c.Eval("bad " + bd.name)
		if res.Code == 0 {
			c.Violate("invalid-webhook-accepted", fmt.Sprintf("exit 0 although %s (%d.%d)\nstderr: %s\nwritten:\n%s", bd.name, i, k, clip(res.Stderr, 800),
				clip(readFile(filepath.Join(dir, "out", "manifests.yaml")), 3000)), nil, dir)
			continue
		}
		if strings.TrimSpace(res.Stderr) == "" {
			c.Violate("silent-rejection", fmt.Sprintf("exit %d without a diagnostic: %s", res.Code, bd.name), nil, dir)
		}
		c.Count("rejected", 1)
	}
	// names in conflict between packages
	r := c.Rng("wh10cf", i)
	dir := c.CaseDir("wh10c")
	newModule(dir, "wh.test/s")
	mu := strconv.FormatBool(chance(r, 50))
	for p := 0; p < 2; p++ {
		m := genWebhook(r, 0)
		c10Place(r, filepath.Join(dir, fmt.Sprintf("p%d", p)), [][]string{{whText(r, m.args), fmt.Sprintf("// +kubebuilder:webhookconfiguration:mutating=%s,name=n%d", mu, p)}})
	}
	res := c.Gen(dir, "webhook", "paths=./...", "output:dir=out")
	c.Eval("bad conflicting names")
	if res.Code == 0 {
		c.Violate("invalid-webhook-accepted", "exit 0 although two packages name the configuration differently", nil, dir)
	} else {
		c.Count("rejected", 1)
	}
}
