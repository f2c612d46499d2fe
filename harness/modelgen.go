package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// profile weights what a generated model contains.
type profile struct {
	marks      int // percent chance of each further marker on a node
	maxMarks   int
	typeMarks  int
	docs       int // percent of documented nodes
	refs       int // percent of fields that refer to named types
	aliases    int
	embeds     int
	reqMarks   int
	maxSize    int
	fields     int
	decls      int
	kinds      int
	libs, apis int
	detach     int
	rawDocs    func(r *rand.Rand, uniq string) (raw []string, desc string)
	opts       modelOpts
	odd        bool // odd JSON tags, skipped and unexported fields, custom marshalers
	noise      bool // comments that belong to nothing
	retype     int  // percent of nodes whose type is overridden by a marker
	repeat     bool // repeat single-valued markers: the last one counts
	values     bool // the types will be compiled and encoded: no Schemaless, Type overrides etc.
}

type mgen struct {
	lastRule string
	r        *rand.Rand
	p        profile
	mod      string
	n        int
	libs     []*Pkg
	apis     []*Pkg
	seen     map[string]int
}

func (g *mgen) uniq() string { g.n++; return strconv.Itoa(g.n) }

func genModel(r *rand.Rand, mod string, p profile) *mgen {
	g := &mgen{r: r, p: p, mod: mod, seen: map[string]int{}}
	for i := 0; i < p.libs; i++ {
		k := &Pkg{Name: fmt.Sprintf("lib%d", i), Alias: fmt.Sprintf("lib%d", i), lib: true, OptDefault: chance(r, 30)}
		k.Dir = "lib/" + k.Name
		if chance(r, 40) { // packages of the same name
			k.Name = "v1"
			k.Dir += "/v1"
		}
		k.Path = mod + "/" + k.Dir
		g.libs = append(g.libs, k)
		g.decls(k, p.decls/2+1)
	}
	for i := 0; i < p.apis; i++ {
		k := &Pkg{Name: "v1", Group: fmt.Sprintf("g%d.example.test", i), OptDefault: chance(r, 30), Version: "v1"}
		k.Dir = fmt.Sprintf("api/g%d/v1", i)
		k.Path = mod + "/" + k.Dir
		g.apis = append(g.apis, k)
		g.decls(k, p.decls)
		for j := 0; j < p.kinds; j++ {
			g.kind(k)
		}
	}
	return g
}

func (g *mgen) doc(what string) []string {
	if !chance(g.r, g.p.docs) {
		return nil
	}
	u := g.uniq()
	var out []string
	for i := 0; i <= g.r.Intn(3); i++ {
		out = append(out, fmt.Sprintf("%s %s line %d.", what, u, i))
	}
	return out
}

func (g *mgen) raw(what string) ([]string, *string) {
	if g.p.rawDocs == nil || !chance(g.r, 85) {
		return nil, nil
	}
	raw, d := g.p.rawDocs(g.r, what+g.uniq())
	return raw, &d
}

// candidates: named types usable from package p so far.
func (g *mgen) named(p *Pkg) *Decl {
	var c []*Decl
	for _, d := range p.Decls {
		if d.size < g.p.maxSize {
			c = append(c, d)
		}
	}
	for _, l := range g.libs {
		if l == p {
			break
		}
		for _, d := range l.Decls {
			if d.size < g.p.maxSize {
				c = append(c, d)
			}
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[g.r.Intn(len(c))]
}

var plainBasics = []string{"string", "string", "string", "bool", "int", "int8", "int16", "int32", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte", "rune"}

func (g *mgen) basic() *Ref {
	b := plainBasics[g.r.Intn(len(plainBasics))]
	if g.p.opts.dangerous && chance(g.r, 25) {
		b = pick(g.r, "float32", "float64")
	}
	return &Ref{K: "basic", Basic: b}
}

func (g *mgen) leaf(p *Pkg) *Ref {
	if chance(g.r, g.p.refs) {
		if d := g.named(p); d != nil {
			return &Ref{K: "named", Decl: d}
		}
	}
	if chance(g.r, 18) {
		return &Ref{K: "ext", Ext: extTypes[g.r.Intn(len(extTypes))]}
	}
	return g.basic()
}

func (g *mgen) expr(p *Pkg, depth int) *Ref {
	if depth > 0 && chance(g.r, 45) {
		switch g.r.Intn(8) {
		case 0, 1:
			return &Ref{K: "ptr", Elem: g.expr(p, depth-1)}
		case 2, 3, 4:
			return &Ref{K: "slice", Elem: g.expr(p, depth-1)}
		case 5:
			if chance(g.r, 30) {
				return &Ref{K: "array", Elem: g.expr(p, depth-1)}
			}
			return &Ref{K: "slice", Elem: g.expr(p, depth-1)}
		default:
			m := &Ref{K: "map", Elem: g.expr(p, depth-1)}
			if chance(g.r, 30) {
				if k := g.stringDecl(p); k != nil {
					m.Key = k
				}
			}
			return m
		}
	}
	return g.leaf(p)
}

// composite is a list or map, often of lists, maps and pointers.
func (g *mgen) composite(p *Pkg, depth int) *Ref {
	var e *Ref
	switch {
	case depth > 0 && chance(g.r, 35):
		e = g.composite(p, depth-1)
	default:
		e = g.leaf(p)
	}
	if chance(g.r, 35) {
		e = &Ref{K: "ptr", Elem: e}
	}
	return &Ref{K: pick(g.r, "slice", "map", "map"), Elem: e}
}

func isStringDecl(d *Decl) bool {
	for d.Kind == "def" || d.Kind == "alias" {
		if d.Ref.K == "basic" {
			return d.Ref.Basic == "string"
		}
		if d.Ref.K != "named" {
			return false
		}
		d = d.Ref.Decl
	}
	return false
}

func (g *mgen) stringDecl(p *Pkg) *Decl {
	var c []*Decl
	for _, l := range append([]*Pkg{p}, g.libs...) {
		if l != p && p != nil && p.lib {
			continue
		}
		for _, d := range l.Decls {
			if isStringDecl(d) {
				c = append(c, d)
			}
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[g.r.Intn(len(c))]
}

// refSize bounds the expansion of a type expression.
func refSize(r *Ref) int {
	switch {
	case r.Decl != nil:
		return r.Decl.size + 1
	case r.Elem != nil:
		return refSize(r.Elem) + 1
	}
	return 1
}

func usesPtrAtTop(r *Ref) bool { return r.K == "ptr" }

func (g *mgen) decls(p *Pkg, n int) {
	for i := 0; i < n; i++ {
		d := &Decl{Pkg: p, Name: "T" + g.uniq() + pick(g.r, "", "Spec", "Ref", "_x", "List")}
		if chance(g.r, 15) { // a name another package has as well
			d.Name = g.sameName(p, d.Name)
		}
		x := g.r.Intn(100)
		switch {
		case g.p.odd && x < 8:
			d.Kind = "json"
			t := pick(g.r, "string", "integer", "object", "boolean")
			d.marshal = map[string]string{"string": `"s"`, "integer": "3", "object": `{}`, "boolean": "true"}[t]
			d.Marks = []*Mark{typeMark(t)}
		case g.p.odd && x < 13:
			d.Kind = "text"
			d.marshal = "tt"
			if g.p.values {
				d.marshal = "ttv"
			}
		case x < 40:
			d.Kind = "def"
			composite := false
			if x := g.r.Intn(100); x < 35 {
				d.Ref = g.basic()
			} else if x < 60 {
				d.Ref, composite = g.composite(p, 2), true
			} else {
				d.Ref = g.expr(p, 2)
			}
			for d.Ref.K == "ptr" { // pointers have no methods and little use as declared types
				d.Ref = d.Ref.Elem
			}
			if d.Ref.K == "ext" && d.Ref.Ext.expr != "metav1.ObjectMeta" && d.Ref.Ext.expr != "apiextensionsv1.JSON" || hasMarshal(d.Ref) {
				// a type defined from one with marshalers does not inherit them: its encoding is another one
				d.Ref = g.basic()
			}
			if d.Ref.K == "ext" {
				d.Ref = g.basic()
			}
			if composite && chance(g.r, 60) {
				d.Marks = append(d.Marks, g.xval())
			}
		case x < 40+g.p.aliases:
			d.Kind = "alias"
			switch g.r.Intn(3) {
			case 0:
				d.Ref = g.basic()
			case 1:
				d.Ref = &Ref{K: "slice", Elem: g.leaf(p)}
			default:
				if t := g.named(p); t != nil {
					d.Ref = &Ref{K: "named", Decl: t}
				} else {
					d.Ref = g.basic()
				}
			}
			if d.Ref.K == "slice" && isByteRef(d.Ref.Elem) {
				d.Ref = g.basic()
			}
		default:
			d.Kind = "struct"
		}
		if d.Kind == "struct" {
			g.structFields(d, 1+g.r.Intn(g.p.fields))
		}
		bare := d.Kind == "alias" && d.Ref.K == "named" // what is written at such an alias is not part of the target
		if !bare {
			d.Doc = g.doc("Type")
			if raw, s := g.raw("Type"); raw != nil && d.Kind != "json" && d.Kind != "text" {
				d.rawDoc, d.descStr = raw, s
			}
			if d.Kind != "json" {
				var x *X
				switch d.Kind {
				case "struct":
					x = &X{vis: kwN("type", `"object"`)}
				case "text":
					x = &X{vis: kwN("type", `"string"`)}
				default:
					x = exprX(d.Ref, p, g.p.opts)
				}
				if keep := g.p.retype; d.Kind == "alias" { // both the alias and what it stands for are described where it is used
					g.p.retype = 0
					d.Marks = append(d.Marks, g.marks(x, false, g.p.typeMarks)...)
					g.p.retype = keep
				} else {
					d.Marks = append(d.Marks, g.marks(x, false, g.p.typeMarks)...)
				}
			} else {
				d.Marks = append(d.Marks, g.marks(&X{vis: declVis(d)}, false, g.p.typeMarks)...)
			}
		}
		fixOrder(d.Marks)
		d.size = declN(d, g.p.opts).size()
		if d.size > 4*g.p.maxSize {
			i--
			continue
		}
		p.Decls = append(p.Decls, d)
	}
}

// sameName gives the name of a type of another package that p has no type of.
func (g *mgen) sameName(p *Pkg, other string) string {
	has := map[string]bool{}
	for _, d := range append(append([]*Decl{}, p.Decls...), p.Kinds...) {
		has[d.Name] = true
	}
	var c []string
	for _, l := range append(append([]*Pkg{}, g.libs...), g.apis...) {
		if l == p {
			continue
		}
		for _, d := range l.Decls {
			if !has[d.Name] {
				c = append(c, d.Name)
			}
		}
	}
	if len(c) == 0 {
		return other
	}
	return c[g.r.Intn(len(c))]
}

func declVis(d *Decl) *N {
	n := newN()
	for _, m := range d.Marks {
		m.Do(n)
	}
	return n
}

func hasMarshal(r *Ref) bool {
	switch r.K {
	case "named":
		if r.Decl.marshal != "" {
			return true
		}
		if r.Decl.Ref != nil {
			return hasMarshal(r.Decl.Ref)
		}
		return false
	case "ext":
		return true
	}
	return false
}

func (g *mgen) jsonName() string {
	u := g.uniq()
	if g.p.odd {
		return pick(g.r, "f"+u, "f"+u, "someField"+u, "x-"+u, "a.b"+u, "UP"+u, "_u"+u, "$d"+u, "n_"+u, "a/b"+u, u+"num")
	}
	return pick(g.r, "f"+u, "someField"+u, "items"+u)
}

func (g *mgen) structFields(d *Decl, n int) {
	p := d.Pkg
	d.embeds = map[*Decl]bool{}
	total := 0
	for i := 0; i < n; i++ {
		if chance(g.r, g.p.embeds) {
			// embed a struct (possibly from another package, possibly by pointer)
			e := g.named(p)
			if e != nil && e.Kind == "struct" && goEmbeddable(e, p) {
				clash := d.embeds[e] || embedsByName(d, e)
				for x := range e.embeds {
					if d.embeds[x] {
						clash = true
					}
				}
				if !clash && total+e.size < g.p.maxSize {
					d.embeds[e] = true
					for x := range e.embeds {
						d.embeds[x] = true
					}
					ref := &Ref{K: "named", Decl: e}
					if chance(g.r, 40) {
						ref = &Ref{K: "ptr", Elem: ref}
					}
					f := &Field{Inline: true, Ref: ref, Opts: pick(g.r, "inline", "inline", "omitempty", "inline,omitempty", "omitzero")}
					if chance(g.r, 15) {
						f.Marks = append(f.Marks, reqMark(pick(g.r, "required", "kubebuilder:validation:Required", "optional")))
					}
					f.Doc = g.doc("Embed")
					if chance(g.r, g.p.marks/2) {
						f.Marks = append(f.Marks, g.xval())
					}
					d.Fields = append(d.Fields, f)
					total += e.size
					continue
				}
			}
		}
		u := g.uniq()
		f := &Field{Go: "F" + u, JSON: g.jsonName()}
		if g.p.odd {
			switch g.r.Intn(22) {
			case 0: // not serialised
				f.Skip, f.Tag = true, "`json:\"-\"`"
				f.Ref = pick(g.r, g.basic(), &Ref{K: "basic", Basic: "chan int"}, &Ref{K: "basic", Basic: "func()"}, &Ref{K: "basic", Basic: "interface{}"})
				if g.p.values {
					f.Ref = g.basic()
				}
				d.Fields = append(d.Fields, f)
				continue
			case 1:
				f.JSON, f.Tag = "-", "`json:\"-,\"`"
				for _, o := range d.Fields {
					if o.JSON == "-" {
						f.JSON, f.Tag = "dash"+u, ""
					}
				}
				if f.JSON == "-" {
					d.noEmbed = true // keeps names unique
				}
			case 2: // the Go name is the JSON name
				f.Opts = pick(g.r, "omitempty", "omitempty", "omitzero")
				f.JSON, f.Tag = f.Go, "`json:\","+f.Opts+"\"`"
			case 3:
				if g.p.opts.ignoreUnx {
					f.Go, f.Skip, f.Tag = "f"+u, true, pick(g.r, " ", "`json:\"hidden"+u+"\"`")
					f.Ref = g.basic()
					d.Fields = append(d.Fields, f)
					continue
				}
			}
		}
		for try := 0; ; try++ {
			f.Ref = g.expr(p, 3)
			if total+refSize(f.Ref) < 2*g.p.maxSize || try > 20 {
				break
			}
		}
		total += refSize(f.Ref)
		if f.Tag == "" {
			f.Opts = pick(g.r, "", "", "", "", "omitempty", "omitempty", "omitempty", "omitzero", "omitempty,omitzero")
			if q := quotable(f.Ref, 0); g.p.odd && (q == 1 && chance(g.r, 12) || q == 0 && chance(g.r, 2)) {
				f.Quoted = q == 1
				f.Opts = strings.TrimPrefix(pick(g.r, f.Opts+",string", "string,"+f.Opts), ",")
				f.Opts = strings.TrimSuffix(f.Opts, ",")
			}
		}
		f.Doc = g.doc("Field")
		if raw, s := g.raw("Field"); raw != nil {
			f.rawDoc, f.descStr = raw, s
		}
		if !g.p.values && g.p.odd && chance(g.r, 4) {
			f.Less = true
			f.Marks = append(f.Marks, &Mark{Text: "kubebuilder:validation:Schemaless", Do: func(*N) {}})
			if chance(g.r, 50) {
				f.Ref = &Ref{K: "basic", Basic: pick(g.r, "interface{}", "any", "chan int", "[]interface{}")}
			}
		}
		g.fieldReq(f, p)
		x := &X{vis: newN()}
		if f.Quoted && !f.Less {
			x = quotedX()
		} else if !f.Less {
			x = exprX(f.Ref, p, g.p.opts)
		}
		f.Marks = append(f.Marks, g.marks(x, true, g.p.marks)...)
		g.r.Shuffle(len(f.Marks), func(i, j int) { f.Marks[i], f.Marks[j] = f.Marks[j], f.Marks[i] })
		fixOrder(f.Marks)
		d.Fields = append(d.Fields, f)
	}
}

func embedsByName(d, e *Decl) bool {
	for x := range d.embeds {
		if x.Name == e.Name {
			return true
		}
	}
	return false
}

// goEmbeddable: embedding promotes methods, so nothing with marshalers underneath may be embedded.
func goEmbeddable(e *Decl, from *Pkg) bool { return e.marshal == "" && !e.noEmbed }

func reqMark(name string) *Mark { return &Mark{Text: name, Do: func(*N) {}} }

// fieldReq decides how the field is marked and whether it has to be listed as required.
func (g *mgen) fieldReq(f *Field, p *Pkg) {
	names := []string{"kubebuilder:validation:Optional", "kubebuilder:validation:Required", "optional", "required"}
	var on [4]bool
	if chance(g.r, g.p.reqMarks) {
		on[g.r.Intn(4)] = true
		if chance(g.r, 20) {
			on[g.r.Intn(4)] = true
		}
	}
	for i, n := range names {
		if on[i] {
			f.Marks = append(f.Marks, reqMark(n))
		}
	}
	switch {
	case on[0]:
	case on[1]:
		f.Reqd = true
	case on[2]:
	case on[3]:
		f.Reqd = true
	default:
		f.Reqd = !p.OptDefault && !leaves(f.Opts)
	}
}

// leaves tells whether tag options make a field one that is left out when it has no value.
func leaves(opts string) bool {
	return strings.Contains(opts, "omitempty") || strings.Contains(opts, "omitzero")
}

func (g *mgen) kind(p *Pkg) {
	d := &Decl{Pkg: p, Kind: "kind", Name: fmt.Sprintf("Kd%sx", g.uniq())}
	d.Doc = g.doc("Kind")
	if raw, s := g.raw("Kind"); raw != nil {
		d.rawDoc, d.descStr = raw, s
	}
	for _, n := range []string{"Spec", "Status"} {
		f := &Field{Go: n, JSON: strings.ToLower(n), Opts: pick(g.r, "", "omitempty", "omitempty", "omitzero")}
		var t *Decl
		for i := 0; i < 50; i++ {
			t = g.named(p)
			if t != nil && t.Kind == "struct" && t.Pkg == p {
				break
			}
			t = nil
		}
		if t == nil {
			f.Ref = g.basic()
		} else {
			f.Ref = &Ref{K: "named", Decl: t}
		}
		f.Doc = g.doc("Field")
		g.fieldReq(f, p)
		d.Fields = append(d.Fields, f)
	}
	d.Marks = g.marks(&X{vis: kwN("type", `"object"`)}, false, g.p.typeMarks)
	for _, m := range d.Marks {
		m.Detach = false
	}
	p.Kinds = append(p.Kinds, d)
}

// ---- markers ----

func typeMark(t string) *Mark {
	return &Mark{First: true, Text: "kubebuilder:validation:Type=" + t, Do: func(n *N) { n.set("type", strconv.Quote(t)) }}
}

func (g *mgen) xval() *Mark {
	u := g.uniq()
	rule := pick(g.r, "self.x"+u+" > 0", "has(self.a"+u+") && self.b != 'x'", "self == oldSelf || size(self) < "+u, "self.all(k, k != \""+u+"\")", "'{a,b}' in self"+u)
	again := g.lastRule != "" && chance(g.r, 30) // more rules of the same text, told apart by their messages
	if again {
		rule = g.lastRule
	}
	g.lastRule = rule
	o := map[string]any{"rule": rule}
	q := func(s string) string {
		if !strings.Contains(s, "`") && chance(g.r, 30) {
			return "`" + s + "`"
		}
		return strconv.Quote(s)
	}
	args := []string{"rule=" + q(rule)}
	if again || chance(g.r, 50) {
		m := pick(g.r, "must hold, "+u+"; really", "bad value")
		if again {
			m = "must hold again " + u
		}
		o["message"] = m
		args = append(args, "message="+q(m))
	}
	if chance(g.r, 20) {
		m := "'x' + string(self." + u + ")"
		o["messageExpression"] = m
		args = append(args, "messageExpression="+q(m))
	}
	if chance(g.r, 25) {
		v := pick(g.r, "FieldValueRequired", "FieldValueInvalid", "FieldValueForbidden", "FieldValueDuplicate")
		o["reason"] = v
		args = append(args, "reason="+v)
	}
	if chance(g.r, 20) {
		v := ".spec.f" + u
		o["fieldPath"] = v
		args = append(args, "fieldPath="+q(v))
	}
	if chance(g.r, 20) {
		v := chance(g.r, 50)
		o["optionalOldSelf"] = v
		args = append(args, fmt.Sprintf("optionalOldSelf=%v", v))
	}
	c := canon(o)
	g.r.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
	return &Mark{Text: "kubebuilder:validation:XValidation:" + strings.Join(args, ","), Do: func(n *N) {
		n.own = append(n.own, c)
	}}
}

// marks picks markers that are valid for what is visible at a node.
func (g *mgen) marks(x *X, field bool, pct int) []*Mark {
	var out []*Mark
	used := map[string]bool{}
	if t := x.vis.typ(); t != "" && x.ref == nil && chance(g.r, g.p.retype) {
		nt := pick(g.r, "string", "integer", "number", "boolean", "object", "Any", t)
		if t != "array" && t != "object" || nt == t {
			out = append(out, typeMark(nt))
			used["Type"] = true
			x = &X{vis: x.vis.clone(), items: x.items, addl: x.addl}
			x.vis.set("type", strconv.Quote(nt))
			if nt == "Any" {
				x.vis.set("type", `"any"`) // no typed markers
				out[0].Do = func(n *N) { n.set("type", `"Any"`) }
			}
		}
	}
	if (field || x.ref == nil) && chance(g.r, g.p.retype) {
		out = append(out, &Mark{First: true, Text: "kubebuilder:validation:XIntOrString", Do: func(n *N) { n.set("x-kubernetes-int-or-string", "true") }})
		used["XIntOrString"] = true
	}
	for i := 0; i < g.p.maxMarks && chance(g.r, pct); i++ {
		out = append(out, g.someMarks(x, field, false, used)...)
	}
	if x.items != nil {
		iu := map[string]bool{}
		for i := 0; i < 2+g.p.maxMarks/4 && chance(g.r, pct/2+g.p.retype); i++ {
			for _, m := range g.someMarks(x.items, field, true, iu) {
				m.Text = "kubebuilder:validation:items:" + strings.TrimPrefix(m.Text, "kubebuilder:validation:")
				m.Items = true
				out = append(out, m)
			}
		}
	}
	for _, m := range out {
		m.Detach = chance(g.r, g.p.detach)
	}
	g.r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	fixOrder(out)
	for _, m := range out {
		n := m.Text
		if i := strings.IndexAny(n, "="); i > 0 {
			n = n[:i]
		}
		g.seen[n]++
	}
	return out
}

// fixOrder makes the order in which the markers are written the order in which the model applies
// list-valued ones: detached markers come first in the text.
func fixOrder(ms []*Mark) {
	var a, b []*Mark
	for _, m := range ms {
		if m.Detach {
			a = append(a, m)
		} else {
			b = append(b, m)
		}
	}
	copy(ms, append(a, b...))
}

func kwMark(text, kw, val string) *Mark {
	return &Mark{Text: text, Do: func(n *N) { n.set(kw, val) }}
}

func (g *mgen) someMarks(x *X, field, items bool, used map[string]bool) []*Mark {
	r := g.r
	v := "kubebuilder:validation:"
	one := func(m *Mark, key string) []*Mark {
		if used[key] && (!g.p.repeat || key == "Type" || key == "mapType" || strings.HasPrefix(key, "Exclusive") || key == "UniqueItems") {
			return nil
		}
		used[key] = true
		return []*Mark{m}
	}
	t := x.vis.typ()
	eq := pick(r, "=", "=", "=", ":=")
	var opts []func() []*Mark
	numeric := t == "integer" || t == "number"
	if numeric {
		num := func() (string, string) {
			if t == "number" && chance(r, 50) {
				s := pick(r, "1.5", "-2.25", "0.125", "100.5")
				return s, s
			}
			s := fmt.Sprint(r.Intn(2001) - 1000)
			if chance(r, 10) {
				s = pick(r, "0", "2147483647", "-2147483648", "1000000")
			}
			return s, s
		}
		for _, k := range []string{"Maximum", "Minimum", "MultipleOf"} {
			k := k
			opts = append(opts, func() []*Mark {
				s, c := num()
				return one(kwMark(v+k+eq+s, strings.ToLower(k[:1])+k[1:], c), k)
			})
		}
		for _, k := range []string{"Maximum", "Minimum"} {
			k := k
			opts = append(opts, func() []*Mark { // an exclusive limit
				s, c := num()
				if chance(r, 30) {
					s, c = "5", "5"
				}
				ms := one(kwMark(v+k+eq+s, strings.ToLower(k[:1])+k[1:], c), k)
				if ms == nil {
					return nil
				}
				return append(ms, one(kwMark(v+"Exclusive"+k+eq+"true", "exclusive"+k, "true"), "Exclusive"+k)...)
			})
		}
		for _, k := range []string{"ExclusiveMaximum", "ExclusiveMinimum"} {
			k := k
			opts = append(opts, func() []*Mark {
				if chance(r, 25) {
					return one(&Mark{Text: v + k + eq + "false", Do: func(*N) {}}, k)
				}
				return one(kwMark(v+k+eq+"true", strings.ToLower(k[:1])+k[1:], "true"), k)
			})
		}
	}
	cnt := func(k string) func() []*Mark {
		return func() []*Mark {
			s := fmt.Sprint(r.Intn(300))
			return one(kwMark(v+k+eq+s, strings.ToLower(k[:1])+k[1:], s), k)
		}
	}
	intOrStr := used["XIntOrString"]
	if t == "string" || intOrStr {
		pat := func() []*Mark {
			p := pick(r, "^[a-z]+$", `^\d{1,3}\.(a|b)$`, "^a,b;c$", "x", `^"q"$`, "^[^=]+=.*$", "^é+$") + g.uniq()
			txt := strconv.Quote(p)
			switch {
			case !strings.Contains(p, "`") && chance(r, 50):
				txt = "`" + p + "`"
			case !strings.ContainsAny(p, "\\\";,") && chance(r, 50):
				txt = p
			}
			return one(kwMark(v+"Pattern"+eq+txt, "pattern", canon(p)), "Pattern")
		}
		opts = append(opts, cnt("MaxLength"), cnt("MinLength"), pat)
	}
	if t == "array" {
		opts = append(opts, cnt("MaxItems"), cnt("MinItems"), func() []*Mark {
			if chance(r, 30) {
				return one(&Mark{Text: v + "UniqueItems" + eq + "false", Do: func(*N) {}}, "UniqueItems")
			}
			return one(kwMark(v+"UniqueItems"+eq+"true", "uniqueItems", "true"), "UniqueItems")
		})
		if !items {
			opts = append(opts, func() []*Mark {
				if used["listType"] {
					return nil
				}
				used["listType"] = true
				lt := pick(r, "atomic", "set", "map", "map")
				ms := []*Mark{kwMark("listType"+pick(r, "=", ":=")+lt, "x-kubernetes-list-type", strconv.Quote(lt))}
				if lt == "map" {
					nk := 1 + r.Intn(3)
					ks := []string{"key" + g.uniq(), "key" + g.uniq(), "key" + g.uniq()}
					if chance(r, 40) { // one's name is part of the other's
						ks[1] = pick(r, "host"+ks[0], ks[0]+"s")
						r.Shuffle(3, func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
					}
					for i := 0; i < nk; i++ {
						k := ks[i]
						ms = append(ms, &Mark{Text: "listMapKey=" + k, Do: func(n *N) {
							var have []string
							for c := range n.Kw["x-kubernetes-list-map-keys"] {
								_ = json.Unmarshal([]byte(c), &have)
							}
							n.set("x-kubernetes-list-map-keys", canon(append(have, k)))
						}})
					}
				}
				return ms
			})
		}
	}
	if t == "object" {
		opts = append(opts, cnt("MinProperties"), cnt("MaxProperties"))
		if !items {
			opts = append(opts, func() []*Mark {
				m := pick(r, "atomic", "granular")
				return one(&Mark{Text: "mapType=" + m, Do: func(n *N) { n.MapType = m }}, "mapType")
			})
		}
	}
	if !items && (t == "object" || t == "" && x.ref != nil && x.ref.typ() == "object") {
		opts = append(opts, func() []*Mark {
			m := pick(r, "atomic", "granular")
			return one(&Mark{Text: "structType=" + m, Do: func(n *N) { n.MapType = m }}, "mapType")
		})
	}
	enum := func() []*Mark {
		n := 1 + r.Intn(4)
		var txt []string
		var vals []any
		for i := 0; i < n; i++ {
			switch {
			case numeric:
				k := r.Intn(1000)
				txt, vals = append(txt, fmt.Sprint(k)), append(vals, k)
			case t == "boolean":
				txt, vals = append(txt, "true"), append(vals, true)
			default:
				s := "e" + g.uniq()
				switch r.Intn(5) {
				case 0:
					s = "with space," + s
					txt, vals = append(txt, strconv.Quote(s)), append(vals, s)
				case 1:
					txt, vals = append(txt, strconv.Quote(s)), append(vals, s)
				case 2:
					s = "5"
					txt, vals = append(txt, `"5"`), append(vals, s)
				default:
					txt, vals = append(txt, s), append(vals, s)
				}
			}
		}
		s := strings.Join(txt, ";")
		if chance(r, 40) {
			s = "{" + strings.Join(txt, pick(r, ",", ", ")) + "}"
		}
		return one(kwMark(v+"Enum"+eq+s, "enum", canon(vals)), "Enum")
	}
	format := func() []*Mark {
		f := pick(r, "date-time", "int32", "email", "uri", "cidr")
		txt := f
		if chance(r, 30) {
			txt = strconv.Quote(f)
		}
		return one(kwMark(v+"Format"+eq+txt, "format", strconv.Quote(f)), "Format")
	}
	opts = append(opts, enum, format, func() []*Mark { return []*Mark{g.xval()} })
	opts = append(opts, func() []*Mark { return []*Mark{g.xval()} })
	opts = append(opts, func() []*Mark {
		return one(kwMark(v+"XEmbeddedResource", "x-kubernetes-embedded-resource", "true"), "embres")
	})
	if !items || true {
		opts = append(opts, func() []*Mark {
			return one(kwMark(v+"XPreserveUnknownFields", "x-kubernetes-preserve-unknown-fields", "true"), "preserve")
		})
	}
	if !items {
		opts = append(opts, func() []*Mark {
			return one(kwMark("kubebuilder:pruning:PreserveUnknownFields", "x-kubernetes-preserve-unknown-fields", "true"), "preserve")
		})
		if field {
			opts = append(opts, func() []*Mark { return one(kwMark("nullable", "nullable", "true"), "nullable") },
				func() []*Mark {
					return one(kwMark(v+"EmbeddedResource", "x-kubernetes-embedded-resource", "true"), "embres")
				},
				func() []*Mark {
					if used["title"] {
						return nil
					}
					s := "Title " + g.uniq()
					return one(&Mark{Text: "kubebuilder:title=" + strconv.Quote(s), Do: func(n *N) { n.Title = s }}, "title")
				},
				func() []*Mark { return one(g.defaultMark(t, "kubebuilder:example"), "example") },
				func() []*Mark {
					return g.defaults(t, used)
				},
				func() []*Mark { return g.defaults(t, used) })
		}
	}
	// the type of a reference is not visible: it may be stated again, which makes typed markers possible
	if t == "" && x.ref != nil && !g.p.values {
		if rt := x.ref.typ(); rt != "" && len(x.ref.Kw["type"]) == 1 {
			opts = append(opts, func() []*Mark {
				ms := one(typeMark(rt), "Type")
				if ms != nil {
					x2 := &X{vis: kwN("type", strconv.Quote(rt))}
					ms = append(ms, g.someMarks(x2, field, items, used)...)
				}
				return ms
			})
		}
	}
	return opts[r.Intn(len(opts))]()
}

// anyVal yields a free-form value in marker syntax with its JSON meaning.
func (g *mgen) anyVal(t string, depth int) (string, any) {
	r := g.r
	if t == "" || t == "any" {
		t = pick(r, "string", "integer", "boolean", "array", "object")
		if depth <= 0 {
			t = pick(r, "string", "integer", "boolean")
		}
	}
	switch t {
	case "integer":
		n := r.Intn(500) - 100
		return fmt.Sprint(n), n
	case "number":
		s := pick(r, "1.5", "-0.25", "3")
		return s, json.Number(s)
	case "boolean":
		b := chance(r, 50)
		return fmt.Sprint(b), b
	case "array":
		n := r.Intn(4)
		et := pick(r, "string", "integer", "boolean")
		if depth > 1 && chance(r, 25) {
			et = pick(r, "array", "object")
		}
		var tx []string
		vs := []any{}
		for i := 0; i < n; i++ {
			a, b := g.anyVal(et, depth-1)
			if et == "array" && a == "{}" { // an empty {} is a map
				a, b = "{x}", []any{"x"}
			}
			tx, vs = append(tx, a), append(vs, b)
		}
		if et == "array" || et == "object" { // element types have to agree: keep one element
			if n > 1 {
				tx, vs = tx[:1], vs[:1]
			}
		}
		return "{" + strings.Join(tx, pick(r, ",", ", ")) + "}", vs
	case "object":
		n := 1 + r.Intn(3)
		var tx []string
		m := map[string]any{}
		for i := 0; i < n; i++ {
			k := "k" + g.uniq()
			kt := k
			if chance(r, 40) {
				k = "q " + k
				kt = strconv.Quote(k)
			}
			a, b := g.anyVal(pick(r, "string", "integer", "boolean"), 0)
			tx = append(tx, kt+": "+a)
			m[k] = b
		}
		return "{" + strings.Join(tx, ",") + "}", m
	}
	s := "v" + g.uniq()
	switch r.Intn(5) {
	case 0:
		s = "a, b; {c}: \"" + s + "\""
		return strconv.Quote(s), s
	case 1:
		s = "é " + s + " 世"
		return "`" + s + "`", s
	case 2:
		s = "10"
		return `"10"`, s
	case 3:
		return strconv.Quote(s), s
	}
	return s, s
}

func (g *mgen) defaultMark(t, name string) *Mark {
	tx, v := g.anyVal(t, 2)
	if chance(g.r, 8) && t == "array" {
		tx, v = "{}", []any{}
	}
	c := canon(v)
	text := name + pick(g.r, "=", "=", ":=", ":value=") + tx
	if name == "kubebuilder:example" {
		if c == "[]" { // {} without a type is an empty object
			c = "{}"
		}
		return &Mark{Text: text, Do: func(n *N) { n.Example = c }}
	}
	return &Mark{Text: text, Do: func(n *N) {
		c := c
		if c == "[]" && n.typ() != "array" {
			c = "{}"
		}
		n.set("default", c)
	}}
}

// defaults gives a kubebuilder default, a Kubernetes default, or both (the former wins).
func (g *mgen) defaults(t string, used map[string]bool) []*Mark {
	if used["default"] {
		return nil
	}
	used["default"] = true
	kb := g.defaultMark(t, "kubebuilder:default")
	_, v := g.anyVal(t, 2)
	jb, _ := json.Marshal(v)
	if t == "" || t == "any" {
		jb = []byte(pick(g.r, `"s"`, "5", "true", `{"a": {"b": [1, 2]}}`, `[{"x":null}]`, `[]`))
		var y any
		dec := json.NewDecoder(strings.NewReader(string(jb)))
		dec.UseNumber()
		_ = dec.Decode(&y)
		v = y
	}
	ktext := "default=" + string(jb)
	switch g.r.Intn(4) {
	case 0: // both
		k := &Mark{Text: ktext, Do: func(*N) {}}
		return []*Mark{kb, k}
	case 1:
		return []*Mark{kwMark(ktext, "default", canon(v))}
	case 2:
		if chance(g.r, 20) {
			return []*Mark{{Text: "default=ref(Something)", Do: func(*N) {}}}
		}
	}
	return []*Mark{kb}
}
