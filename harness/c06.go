package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"sigs.k8s.io/controller-tools/pkg/markers"
)

// C06: marker arguments are parsed back to the value they were written from; texts that an independent
// reading of the syntax rejects are rejected, and those it accepts give the value it gives.

func init() { register("C06", checkC06) }

// mtype describes the type of a marker argument.
type mtype struct {
	kind  string // string int int32 number bool any slice map ptr
	named bool
	elem  *mtype
}

type (
	mStr string
	mInt int
	mI32 int32
	mBoo bool
	mNum float64
)

func (t *mtype) String() string {
	n := ""
	if t.named {
		n = "named "
	}
	if t.elem != nil {
		return t.kind + "(" + t.elem.String() + ")"
	}
	return n + t.kind
}

var anyType = reflect.TypeOf((*any)(nil)).Elem()

func (t *mtype) reflect() reflect.Type {
	pickT := func(plain, named any) reflect.Type {
		if t.named {
			return reflect.TypeOf(named)
		}
		return reflect.TypeOf(plain)
	}
	switch t.kind {
	case "string":
		return pickT("", mStr(""))
	case "int":
		return pickT(0, mInt(0))
	case "int32":
		return pickT(int32(0), mI32(0))
	case "number":
		return pickT(0.0, mNum(0))
	case "bool":
		return pickT(false, mBoo(false))
	case "any":
		return anyType
	case "slice":
		return reflect.SliceOf(t.elem.reflect())
	case "map":
		k := reflect.TypeOf("")
		if t.named {
			k = reflect.TypeOf(mStr(""))
		}
		return reflect.MapOf(k, t.elem.reflect())
	case "ptr":
		return reflect.PointerTo(t.elem.reflect())
	}
	panic(t.kind)
}

func genMType(r *rand.Rand, depth int, top bool) *mtype {
	n := r.Intn(14)
	named := chance(r, 20)
	switch {
	case top && n == 13:
		for {
			if e := genMType(r, depth, false); e.kind != "any" {
				return &mtype{kind: "ptr", elem: e}
			}
		}
	case n < 3:
		return &mtype{kind: "string", named: named}
	case n < 5:
		return &mtype{kind: "int", named: named}
	case n == 5:
		return &mtype{kind: "int32", named: named}
	case n == 6:
		return &mtype{kind: "number", named: named}
	case n == 7:
		return &mtype{kind: "bool", named: named}
	case n == 8:
		return &mtype{kind: "any"}
	}
	if depth <= 0 {
		return &mtype{kind: pick(r, "string", "int", "bool"), named: named}
	}
	if n < 12 {
		return &mtype{kind: "slice", elem: genMType(r, depth-1, false)}
	}
	return &mtype{kind: "map", named: named, elem: genMType(r, depth-1, false)}
}

// ---- values: the normal form is nil-free: string, int, float64, bool, []any, map[string]any ----

func genAnyText(r *rand.Rand) string {
	switch r.Intn(9) {
	case 0:
		return ""
	case 1:
		return pick(r, "some string here!", "a b", "v1", "http//x", "k=v", "it's", "-", "+x", "a{b", "(x)", "#", "tru", "falsey", "x08", "v1-08", "a 08", "^[a-z]+$", "ünïcødé ☃", "日本")
	case 2:
		return pick(r, "a,b", "x;y", "p:q", "{", "}", "{a: 1}", `"`, "`", `\`, `\n`, "a\nb", "\t", " lead", "trail ", "//", "/* c */", "a//b", "true", "12", "-1.5", "08", "0x", "'q'", "\x00", "\u200b", "😀", ",", ";", ":", "=", "{}")
	}
	n := r.Intn(12)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(pick(r, 'a', 'b', 'Z', '0', '9', ' ', ',', ';', ':', '{', '}', '"', '\\', '`', '\'', '=', '-', '.', '/', 'é', '☃', '\n', '😀', '+', '_'))
	}
	return b.String()
}

func genInt(r *rand.Rand, t *mtype) int {
	if t.kind == "int32" {
		return int(pick(r, 0, 1, -1, math.MaxInt32, math.MinInt32, int(int32(r.Uint32())), r.Intn(100)))
	}
	return pick(r, 0, 1, -1, 42, math.MaxInt64, math.MinInt64, int(r.Uint64()), r.Intn(1000)-500, math.MaxInt32+1)
}

func genNum(r *rand.Rand) float64 {
	return pick(r, 0, 1, -1, 1.5, -0.25, 1e300, 5e-324, math.MaxFloat64, 1e21, 123456789.125, r.NormFloat64(), r.NormFloat64()*1e10, float64(r.Intn(1000)))
}

func genMVal(r *rand.Rand, t *mtype, depth int) any {
	switch t.kind {
	case "string":
		return genAnyText(r)
	case "int", "int32":
		return genInt(r, t)
	case "number":
		return genNum(r)
	case "bool":
		return chance(r, 50)
	case "ptr":
		return genMVal(r, t.elem, depth)
	case "slice":
		n := pick(r, 0, 1, 1, 2, 3, 5)
		o := make([]any, n)
		for i := range o {
			o[i] = genMVal(r, t.elem, depth-1)
		}
		return o
	case "map":
		o := map[string]any{}
		for i, n := 0, pick(r, 0, 1, 2, 3); i < n; i++ {
			o[genAnyText(r)] = genMVal(r, t.elem, depth-1)
		}
		return o
	case "any":
		return genFree(r, depth, true)
	}
	panic(t.kind)
}

// genFree makes a value that the guessing of free-form values can express: slices have items of one type.
func genFree(r *rand.Rand, depth int, maps bool) any {
	n := r.Intn(8)
	if depth <= 0 {
		n = r.Intn(5)
	}
	switch n {
	case 0, 1:
		return genAnyText(r)
	case 2:
		return genInt(r, &mtype{kind: "int"})
	case 3:
		f := genNum(r)
		return f
	case 4:
		return chance(r, 50)
	case 5:
		o := map[string]any{}
		for i, n := 0, pick(r, 0, 1, 2, 3); i < n; i++ {
			o[genAnyText(r)] = genFree(r, depth-1, true)
		}
		return o
	}
	k := pick(r, 1, 1, 2, 3) // an empty one can't be told from an empty map
	o := make([]any, k)
	o[0] = genFree(r, depth-1, true)
	for i := 1; i < k; i++ {
		o[i] = sameShape(r, o[0], depth-1)
	}
	return o
}

func sameShape(r *rand.Rand, v any, depth int) any {
	switch x := v.(type) {
	case string:
		return genAnyText(r)
	case int:
		return genInt(r, &mtype{kind: "int"})
	case float64:
		return genNum(r)
	case bool:
		return chance(r, 50)
	case map[string]any:
		o := map[string]any{}
		for i, n := 0, pick(r, 0, 1, 2); i < n; i++ {
			o[genAnyText(r)] = genFree(r, depth-1, true)
		}
		return o
	case []any:
		o := make([]any, 1+r.Intn(2))
		for i := range o {
			o[i] = sameShape(r, x[0], depth-1)
		}
		return o
	}
	panic("shape")
}

// ---- rendering ----

func ws(r *rand.Rand) string {
	if chance(r, 80) {
		return ""
	}
	return pick(r, " ", "  ", "\t")
}

var bareRE = regexp.MustCompile("^[^,;:{}\"`\\s\\x00-\\x1f\\x{feff}]([^,;:}\"`\\x00-\\x1f]*[^,;:}\"`\\s\\x00-\\x1f])?$")

func plainSpace(s string) bool {
	for _, c := range s {
		if c != ' ' && unicode.IsSpace(c) {
			return false
		}
	}
	return true
}

func renderStr(r *rand.Rand, s string, free bool) string {
	bareOK := bareRE.MatchString(s) && plainSpace(s) && utf8.ValidString(s)
	if free && bareOK { // must not look like something else
		if m, _ := regexp.MatchString(`^(true|false)([^\pL\pN_]|$)|^-?\s*\.?[0-9]|^'`, s); m {
			bareOK = false
		}
	}
	rawOK := !strings.ContainsAny(s, "`\r\x00\ufeff")
	switch {
	case bareOK && chance(r, 50):
		return s
	case rawOK && chance(r, 35):
		return "`" + s + "`"
	}
	if chance(r, 20) {
		return strconv.QuoteToASCII(s)
	}
	return strconv.Quote(s)
}

func renderNum(r *rand.Rand, f float64, free bool) string {
	s := strconv.FormatFloat(f, pick[byte](r, 'g', 'g', 'f', 'e'), -1, 64)
	if free && !strings.ContainsAny(s, ".e") {
		s += pick(r, ".0", "e0", ".")
	}
	return s
}

// render writes v in marker syntax. semi: a semicolon-separated list may stand here.
func render(r *rand.Rand, t *mtype, v any, semi bool) string {
	free := t.kind == "any"
	if t.kind == "ptr" {
		return render(r, t.elem, v, semi)
	}
	switch x := v.(type) {
	case string:
		return renderStr(r, x, free)
	case int:
		s := strconv.Itoa(x)
		if x < 0 && chance(r, 10) {
			s = "- " + s[1:]
		}
		return s
	case float64:
		return renderNum(r, x, free)
	case bool:
		return strconv.FormatBool(x)
	case []any:
		et := t
		if !free {
			et = t.elem
		}
		scalars := true
		for _, e := range x {
			switch e.(type) {
			case []any, map[string]any:
				scalars = false
			}
		}
		legacyTyped := !free && scalars && et.kind != "any" && len(x) >= 1
		legacyFree := free && scalars && len(x) >= 2
		if semi && (legacyTyped || legacyFree) && chance(r, 40) {
			var p []string
			for _, e := range x {
				s := render(r, et, e, false)
				p = append(p, ws(r)+s+ws(r))
			}
			return strings.Join(p, ";")
		}
		var p []string
		for _, e := range x {
			p = append(p, ws(r)+render(r, et, e, free || et.kind != "any")+ws(r))
		}
		s := strings.Join(p, ",")
		if len(p) > 0 && chance(r, 5) {
			s += ","
		}
		return "{" + s + "}"
	case map[string]any:
		et := t
		if !free {
			et = t.elem
		}
		ks := sortedKeys(x)
		r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		var p []string
		for i, k := range ks {
			p = append(p, ws(r)+renderStr(r, k, free && i == 0)+ws(r)+":"+ws(r)+render(r, et, x[k], true)+ws(r))
		}
		s := strings.Join(p, ",")
		if len(p) > 0 && chance(r, 5) {
			s += ","
		}
		return "{" + s + "}"
	}
	panic(fmt.Sprintf("render %T", v))
}

// ---- normal form of what the parser returned ----

func norm(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return norm(v.Elem())
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int32:
		return int(v.Int())
	case reflect.Float64:
		return v.Float()
	case reflect.Bool:
		return v.Bool()
	case reflect.Slice:
		o := make([]any, v.Len())
		for i := range o {
			o[i] = norm(v.Index(i))
		}
		return o
	case reflect.Map:
		o := map[string]any{}
		for _, k := range v.MapKeys() {
			o[k.String()] = norm(v.MapIndex(k))
		}
		return o
	}
	return fmt.Sprintf("<%s>", v.Type())
}

// ---- the reading of typed values that the parser is compared with ----

var errDontCare = fmt.Errorf("don't care")
var errBad = fmt.Errorf("rejected")

type refp struct {
	s   string
	pos int
}

func (p *refp) skip() {
	for p.pos < len(p.s) && strings.IndexByte(" \t\n\r", p.s[p.pos]) >= 0 {
		p.pos++
	}
}

func (p *refp) peek() byte {
	p.skip()
	if p.pos >= len(p.s) {
		return 0
	}
	return p.s[p.pos]
}

func (p *refp) eat(c byte) bool {
	if p.peek() == c {
		p.pos++
		return true
	}
	return false
}

var (
	refInt   = regexp.MustCompile(`^-?[ \t\n\r]*(0[0-7]*|[1-9][0-9]*)`)
	refFloat = regexp.MustCompile(`^-?[ \t\n\r]*(([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?)`)
	refIdent = regexp.MustCompile(`^[\pL_][\pL\pN_]*`)
	refOctal = regexp.MustCompile(`^0[0-9]+$`)
)

// quoted scans a string literal and returns where it ends, or -1.
func quotedEnd(s string, i int) int {
	q := s[i]
	for j := i + 1; j < len(s); j++ {
		switch {
		case s[j] == q:
			return j + 1
		case s[j] == '\\' && q == '"':
			j++
		case s[j] == '\n' && q == '"':
			return -1
		}
	}
	return -1
}

func (p *refp) str() (string, error) {
	c := p.peek()
	switch c {
	case '"', '`':
		e := quotedEnd(p.s, p.pos)
		if e < 0 {
			return "", errBad
		}
		v, err := strconv.Unquote(p.s[p.pos:e])
		if err != nil {
			return "", errBad
		}
		p.pos = e
		return v, nil
	case ',', ';':
		return "", nil
	case ':', '}':
		return "", errDontCare
	}
	start, end := p.pos, p.pos
	for p.pos < len(p.s) {
		switch c := p.s[p.pos]; c {
		case ',', ';', ':', '}':
			return p.s[start:end], nil
		case '"', '`':
			return "", errDontCare // quotes inside of a bare string
		case ' ', '\t', '\n', '\r':
			p.pos++
		default:
			p.pos++
			end = p.pos
		}
	}
	return p.s[start:end], nil
}

func (p *refp) val(t *mtype) (any, error) {
	p.skip()
	rest := p.s[p.pos:]
	switch t.kind {
	case "ptr":
		return p.val(t.elem)
	case "string":
		return p.str()
	case "bool":
		id := refIdent.FindString(rest)
		p.pos += len(id)
		switch id {
		case "true":
			return true, nil
		case "false":
			return false, nil
		}
		return nil, errBad
	case "int", "int32":
		m := refInt.FindStringSubmatch(rest)
		if m == nil {
			return nil, errBad
		}
		p.pos += len(m[0])
		if next := p.s[p.pos:]; next != "" && (next[0] == '.' || next[0] == '_' || next[0] < 0x80 && unicode.IsLetter(rune(next[0])) || next[0] >= '0' && next[0] <= '9') {
			return nil, errBad
		}
		txt := m[1]
		if strings.HasPrefix(strings.TrimSpace(m[0]), "-") {
			txt = "-" + txt
		}
		v, err := strconv.Atoi(txt)
		if err != nil || t.kind == "int32" && (v > math.MaxInt32 || v < math.MinInt32) {
			return nil, errBad
		}
		return v, nil
	case "number":
		m := refFloat.FindStringSubmatch(rest)
		if m == nil {
			if regexp.MustCompile(`^-?[ \t\r\n]*[0-9.]`).MatchString(rest) {
				return nil, errDontCare
			}
			return nil, errBad
		}
		p.pos += len(m[0])
		if next := p.s[p.pos:]; next != "" && (next[0] == '.' || next[0] == '_' || next[0] < 0x80 && unicode.IsLetter(rune(next[0]))) || refOctal.MatchString(m[1]) {
			return nil, errDontCare
		}
		txt := m[1]
		if strings.HasPrefix(strings.TrimSpace(m[0]), "-") {
			txt = "-" + txt
		}
		v, err := strconv.ParseFloat(txt, 64)
		if err != nil {
			return nil, errBad
		}
		return v, nil
	case "slice":
		o := []any{}
		if p.eat('{') {
			for p.peek() != '}' {
				if p.peek() == 0 {
					return nil, errBad
				}
				v, err := p.val(t.elem)
				if err != nil {
					return nil, err
				}
				o = append(o, v)
				if p.peek() == '}' {
					break
				}
				if !p.eat(',') {
					return nil, errBad
				}
			}
			p.eat('}')
			return o, nil
		}
		for {
			c := p.peek()
			if c == ',' || c == '}' || c == 0 {
				return o, nil
			}
			v, err := p.val(t.elem)
			if err != nil {
				return nil, err
			}
			o = append(o, v)
			c = p.peek()
			if c == ',' || c == '}' || c == 0 {
				return o, nil
			}
			if !p.eat(';') {
				return nil, errBad
			}
		}
	case "map":
		o := map[string]any{}
		if !p.eat('{') {
			return nil, errBad
		}
		for p.peek() != '}' {
			if p.peek() == 0 {
				return nil, errBad
			}
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			if !p.eat(':') {
				return nil, errBad
			}
			v, err := p.val(t.elem)
			if err != nil {
				return nil, err
			}
			o[k] = v
			if p.peek() == '}' {
				break
			}
			if !p.eat(',') {
				return nil, errBad
			}
		}
		p.eat('}')
		return o, nil
	}
	return nil, errDontCare
}

// refParse reads the text after "+name" for a definition.
func (d *mdef) refParse(text string) (map[string]any, error) {
	if strings.ContainsAny(text, "\x00\ufeff") || !utf8.ValidString(text) {
		return nil, errDontCare
	}
	out := map[string]any{}
	if d.anon != nil {
		if !strings.HasPrefix(text, "=") {
			return nil, errDontCare
		}
		if text == "=" {
			if d.anon.kind == "ptr" {
				return out, nil
			}
			return nil, errBad
		}
		p := &refp{s: text, pos: 1}
		v, err := p.val(d.anon)
		if err != nil {
			return nil, err
		}
		if p.peek() != 0 {
			return nil, errBad
		}
		out[""] = v
		return out, nil
	}
	if text == "" {
		for _, f := range d.fields {
			if !f.optional {
				return nil, errBad
			}
		}
		return out, nil
	}
	if !strings.HasPrefix(text, ":") {
		return nil, errDontCare
	}
	p := &refp{s: text, pos: 1}
	first := true
	for {
		if !first {
			p.skip()
		}
		id := refIdent.FindString(p.s[p.pos:])
		if first && !strings.HasPrefix(p.s[p.pos+len(id):], "=") {
			return nil, errDontCare // names a different marker
		}
		first = false
		p.pos += len(id)
		f := d.byArg(id)
		if !p.eat('=') || f == nil {
			return nil, errBad
		}
		v, err := p.val(f.typ)
		if err != nil {
			return nil, err
		}
		out[id] = v
		if p.peek() == 0 {
			if p.pos > len(strings.TrimRight(p.s, " \t\r\n")) {
				return nil, errDontCare // white space at the end never gets here
			}
			break
		}
		if !p.eat(',') {
			return nil, errBad
		}
		p.skip()
	}
	for _, f := range d.fields {
		if _, ok := out[f.arg]; !ok && !f.optional {
			return nil, errBad
		}
	}
	return out, nil
}

// ---- definitions ----

type mfield struct {
	goName, arg string
	optional    bool
	typ         *mtype
}

type mdef struct {
	name   string
	anon   *mtype
	fields []mfield
	def    *markers.Definition
}

func (d *mdef) byArg(a string) *mfield {
	for i := range d.fields {
		if d.fields[i].arg == a {
			return &d.fields[i]
		}
	}
	return nil
}

func (d *mdef) hasAny() bool {
	s := ""
	if d.anon != nil {
		s = d.anon.String()
	}
	for _, f := range d.fields {
		s += f.typ.String()
	}
	return strings.Contains(s, "any")
}

type anyHolder struct{ Value any }

func genMDef(r *rand.Rand) (*mdef, error) {
	d := &mdef{name: pick(r, "k", "a:b", "kubebuilder:x:y")}
	var err error
	if chance(r, 30) {
		d.anon = genMType(r, 2, true)
		if d.anon.kind == "any" {
			d.def, err = markers.MakeAnyTypeDefinition(d.name, markers.DescribesType, anyHolder{})
			return d, err
		}
		d.def, err = markers.MakeDefinition(d.name, markers.DescribesType, reflect.New(d.anon.reflect()).Elem().Interface())
		return d, err
	}
	var fs []reflect.StructField
	for i, n := 0, r.Intn(6); i < n; i++ {
		f := mfield{goName: fmt.Sprintf("%s%d", pick(r, "Arg", "URL", "X", "É"), i), typ: genMType(r, 2, true)}
		rr := []rune(f.goName)
		f.arg = string(unicode.ToLower(rr[0])) + string(rr[1:])
		tag := ""
		nm := ""
		if chance(r, 25) {
			nm = pick(r, "other", "Weird_Name", "x") + fmt.Sprint(i)
			f.arg = nm
		}
		opt := chance(r, 50)
		switch {
		case opt:
			tag = fmt.Sprintf(`marker:"%s,optional"`, nm)
		case nm != "":
			tag = fmt.Sprintf(`marker:"%s"`, nm)
		}
		f.optional = opt || f.typ.kind == "ptr"
		d.fields = append(d.fields, f)
		fs = append(fs, reflect.StructField{Name: f.goName, Type: f.typ.reflect(), Tag: reflect.StructTag(tag)})
	}
	d.def, err = markers.MakeDefinition(d.name, markers.DescribesType, reflect.New(reflect.StructOf(fs)).Elem().Interface())
	return d, err
}

func (d *mdef) out(v any) map[string]any {
	o := map[string]any{}
	rv := reflect.ValueOf(v)
	if d.anon != nil {
		if h, ok := v.(anyHolder); ok {
			rv = reflect.ValueOf(&h.Value).Elem()
		}
		o[""] = norm(rv)
		return o
	}
	for _, f := range d.fields {
		o[f.arg] = norm(rv.FieldByName(f.goName))
	}
	return o
}

// zero is what an argument that was not given has.
func (t *mtype) zero() any { return norm(reflect.New(t.reflect()).Elem()) }

func (d *mdef) full(given map[string]any) map[string]any {
	o := map[string]any{}
	if d.anon != nil {
		o[""] = d.anon.zero()
	}
	for _, f := range d.fields {
		o[f.arg] = f.typ.zero()
	}
	for k, v := range given {
		o[k] = v
	}
	return o
}

func (d *mdef) describe() string {
	if d.anon != nil {
		return d.name + " " + d.anon.String()
	}
	var p []string
	for _, f := range d.fields {
		p = append(p, fmt.Sprintf("%s %s opt=%v", f.arg, f.typ, f.optional))
	}
	return d.name + " struct{" + strings.Join(p, "; ") + "}"
}

// parseMarker looks the marker up the way the collector does, and parses it.
func (d *mdef) parse(text string) (res map[string]any, found bool, err error, panicked any) {
	defer func() {
		if p := recover(); p != nil {
			panicked = p
		}
	}()
	reg := &markers.Registry{}
	if e := reg.Register(d.def); e != nil {
		return nil, false, e, nil
	}
	raw := "+" + d.name + text
	def := reg.Lookup(raw, markers.DescribesType)
	if def == nil {
		return nil, false, nil, nil
	}
	v, e := def.Parse(raw)
	return d.out(v), true, e, nil
}

func deepEq(a, b any) bool { return reflect.DeepEqual(a, b) }

func checkC06(c *Ctx) {
	c.Rule("one evaluation = one marker text parsed by the real parser and compared with the value it was written from, or with an independent reading of the text; distinct by argument types and kind of text")
	c.Assume("bare strings that contain quotes, or start with a colon or brace, are not judged; free-form values are judged when written from a value, not when mutated")
	n := c.N(120000, 4000000)
	const batch = 500
	parallel(n/batch, 8, func(b int) {
		r := c.Rng("c06", b)
		for k := 0; k < batch && c.Violations() < 4; k++ {
			c06One(c, r, fmt.Sprintf("%d.%d", b, k))
		}
	})
	c06Table(c)
	c.Min("roundtrips", 90000)
	c.Min("agree_accept", 20000)
	c.Min("agree_reject", 60000)
	c.Min("broken_rejected", 100000)
}

func c06One(c *Ctx, r *rand.Rand, id string) {
	d, err := genMDef(r)
	if err != nil {
		c.Violate("definition", fmt.Sprintf("no definition for %s: %v", d.describe(), err), nil, "")
		return
	}
	// a value, written
	given := map[string]any{}
	var text string
	var args []string
	if d.anon != nil {
		v := genMVal(r, d.anon, 3)
		given[""] = v
		s := render(r, d.anon, v, true)
		text = "=" + s
		if chance(r, 10) {
			text = ":=" + s
		}
		if s == "" || strings.TrimSpace(s) == "" {
			return
		}
	} else {
		for _, f := range d.fields {
			if f.optional && chance(r, 40) {
				continue
			}
			v := genMVal(r, f.typ, 3)
			given[f.arg] = v
			args = append(args, f.arg+ws(r)+"="+ws(r)+render(r, f.typ, v, true))
		}
		r.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
		if len(args) > 0 {
			// the first argument is a part of the marker's name
			k := strings.Index(args[0], "=")
			args[0] = strings.TrimSpace(args[0][:k]) + args[0][k:]
			text = ":" + strings.Join(args, pick(r, ",", ",", ", "))
		}
	}
	text = strings.TrimRight(text, " \t")
	got, found, err, p := d.parse(text)
	c.Eval("rt " + d.describe())
	report := func(sig, msg string) {
		c.Violate(sig, fmt.Sprintf("case %s: %s\ndefinition: %s\nmarker: +%s%s\n(quoted: %q)", id, msg, d.describe(), d.name, text, "+"+d.name+text), nil, "")
	}
	want := d.full(given)
	switch {
	case p != nil:
		report("panic", fmt.Sprintf("panic: %v", p))
		return
	case !found:
		report("not-found", "the marker is not found")
		return
	case err != nil:
		report("valid-rejected", fmt.Sprintf("rejected: %v\nwritten from %s", err, canonGo(want)))
		return
	case !deepEq(got, want):
		report("different-value", fmt.Sprintf("parsed as %s\nwritten from %s", canonGo(got), canonGo(want)))
		return
	}
	c.Count("roundtrips", 1)
	if len(text) > 25 {
		c.Sample(map[string]any{"definition": d.describe(), "marker": "+" + d.name + text})
	}
	// definitely broken variants
	for _, b := range d.broken(r, text, given, args) {
		_, found, err, p := d.parse(b.text)
		c.Eval("broken " + b.how)
		if p != nil {
			report("panic", fmt.Sprintf("panic on %q: %v", b.text, p))
		} else if found && err == nil {
			report("broken-accepted", fmt.Sprintf("accepted, although %s: +%s%s", b.how, d.name, b.text))
		} else {
			c.Count("broken_rejected", 1)
		}
	}
	// random edits against the independent reading
	if d.hasAny() {
		return
	}
	for k := 0; k < 4; k++ {
		m := text
		for e := 0; e <= r.Intn(3); e++ {
			m = mutate(r, m)
		}
		ref, rerr := d.refParse(m)
		got, found, err, p := d.parse(m)
		if p != nil {
			report("panic", fmt.Sprintf("panic on %q: %v", m, p))
			continue
		}
		if rerr == errDontCare || !found {
			continue
		}
		c.Eval("mut " + d.describe())
		switch {
		case rerr == nil && err != nil:
			report("valid-rejected", fmt.Sprintf("%q rejected: %v\nit stands for %s", m, err, canonGo(ref)))
		case rerr == nil && !deepEq(got, d.full(ref)):
			report("different-value", fmt.Sprintf("%q parsed as %s\nit stands for %s", m, canonGo(got), canonGo(d.full(ref))))
		case rerr != nil && err == nil:
			report("broken-accepted", fmt.Sprintf("%q accepted as %s", m, canonGo(got)))
		case rerr == nil:
			c.Count("agree_accept", 1)
		default:
			c.Count("agree_reject", 1)
		}
	}
}

func canonGo(v any) string { return clip(fmt.Sprintf("%#v", v), 1500) }

func mutate(r *rand.Rand, s string) string {
	if len(s) < 2 {
		return s + pick(r, ",", "=", "x")
	}
	rs := []rune(s)
	i := 1 + r.Intn(len(rs)-1)
	ins := pick(r, ",", ";", ":", "{", "}", "=", " ", "-", "1", "a", "0", ".", "9999999999", "true", "e5", "x=1", "\"", "`", "{}", ",,", ";;", "{a}", "{a:b}", "_", "(", "é")
	switch r.Intn(4) {
	case 0:
		return string(rs[:i]) + string(rs[i+1:])
	case 1:
		j := i + r.Intn(len(rs)-i)
		return string(rs[:i]) + string(rs[j:])
	case 2:
		return string(rs[:i]) + ins + string(rs[i:])
	}
	return string(rs[:i]) + ins + string(rs[i+1:])
}

type brokenText struct{ how, text string }

// broken gives texts that no reading may accept.
func (d *mdef) broken(r *rand.Rand, text string, given map[string]any, args []string) []brokenText {
	var o []brokenText
	add := func(how, t string) { o = append(o, brokenText{how, t}) }
	bad := func(t *mtype) (string, string) {
		for t.kind == "ptr" {
			t = t.elem
		}
		switch t.kind {
		case "int":
			return "an int is mistyped or out of range", pick(r, "x", "1.5", "9223372036854775808", "-9223372036854775809", "99999999999999999999", `"1"`, "1 2", "--1", "{1}", "1;2", "true", "")
		case "int32":
			return "an int32 is mistyped or out of range", pick(r, "2147483648", "-2147483649", "4294967296", "4294967297", "-4294967295", "9223372036854775808", "1.0", `"1"`, "x", "")
		case "number":
			return "a number is mistyped or out of range", pick(r, "1e999", "x", `"1"`, "1 2", "true", "--1", "NaN", "Inf", "")
		case "bool":
			return "a bool is mistyped", pick(r, "yes", "1", "True", `"true"`, "truex", "true false", "0", "TRUE", "")
		case "string":
			return "a string has trailing garbage or is unterminated", pick(r, `"a`, "`a", `"a" b`, `"a"b`, "a:b", "a;b", "a}", `"\q"`, `"a";"b"`)
		case "slice":
			return "a slice is malformed", pick(r, "{", "{{", `{"a"`, `{"a" "b"}`, `{"a"}}`, `{"a"} "b"`, `{"a"};"b"`, `"a";"b"}`)
		case "map":
			return "a map is malformed", pick(r, "{", "x", `{"a"}`, `{"a" "b"}`, `{"a":"b"`, `a:b`, `{"a":"b" "c":"d"}`, `{"a":"b";"c":"d"}`, "")
		}
		return "a free-form value is malformed", pick(r, `{"a":1`, `{"a" 1}`, `{1 2}`, `"a`, `"a" b`, `{1,"x"}`, `{1,2}}`, `{"a":1 "b":2}`, `{true,1}`, `9223372036854775808`, `{1,2.5}`, "1 2", "true false", `{"a":1}{}`)
	}
	if d.anon != nil {
		how, t := bad(d.anon)
		if strings.TrimSpace(t) != "" {
			add(how, "="+t)
		}
		return o
	}
	if len(args) == 0 {
		add("an argument is unknown", ":nope=1")
		return o
	}
	sep := ","
	join := func(xs []string) string { return ":" + strings.TrimRight(strings.Join(xs, sep), " \t") }
	cp := func() []string { return append([]string(nil), args...) }
	k := r.Intn(len(args))
	nm := strings.TrimSpace(args[k][:strings.Index(args[k], "=")])
	{ // unknown
		x := cp()
		u := "unknown" + nm + "=1"
		x = append(x[:k], append([]string{u}, x[k:]...)...)
		add("an argument is unknown", join(x))
	}
	{ // other case
		x := cp()
		if up := strings.ToUpper(nm); up != nm && d.byArg(up) == nil {
			x[k] = up + args[k][strings.Index(args[k], "="):]
			add("an argument is spelt differently", join(x))
		}
	}
	{ // missing
		if f := d.byArg(nm); !f.optional && len(args) > 1 {
			x := append(cp()[:k], args[k+1:]...)
			add("a required argument is missing", join(x))
		}
	}
	{ // mistyped
		how, t := bad(d.byArg(nm).typ)
		x := append(cp()[:k], args[k+1:]...) // at the end, where nothing can complete it
		x = append(x, nm+"="+t)
		// an empty value of the last argument is no value at all, but then it isn't one of the type either
		add(how, join(x))
	}
	add("there is garbage at the end", text+pick(r, ",", "}", `,"x"`, ",=", ",a", ",1=2"))
	add("the name of an argument is missing", join(append([]string{args[0]}, "=1")))
	sort.Slice(o, func(i, j int) bool { return o[i].how < o[j].how })
	return o
}

// c06Table: what registers, and the names that are looked up.
func c06Table(c *Ctx) {
	type row struct {
		defs []string // name/kind
		text string
		want string // name of the definition that is to be found, "" for none
	}
	rows := []row{
		{[]string{"a:b"}, "+a:b=1", "a:b"}, {[]string{"a:b"}, "+a:b", "a:b"}, {[]string{"a:b"}, "+a:b:=1", "a:b"}, {[]string{"a:b"}, "+a:b:c=1", ""},
		{[]string{"a:b", "a:b:c"}, "+a:b:c=1", "a:b:c"}, {[]string{"a:b"}, "+a=1", ""}, {[]string{"a"}, "+a:b=1", ""}, {[]string{"a:b"}, "+a:b:c:d=1", ""},
		{[]string{"S"}, "+S:x=1", "S"}, {[]string{"S"}, "+S", "S"}, {[]string{"S", "S:x"}, "+S:x=1", "S:x"}, {[]string{"S"}, "+S:x:y=1", ""}, {[]string{"a"}, "", ""}, {[]string{"a"}, "+", ""}, {[]string{"a"}, "+=1", ""},
	}
	for _, ro := range rows {
		reg := &markers.Registry{}
		for _, n := range ro.defs {
			var out any = 0
			if n == "S" {
				out = struct {
					X int `marker:",optional"`
				}{}
			}
			d, err := markers.MakeDefinition(n, markers.DescribesType, out)
			if err != nil {
				c.Violate("definition", err.Error(), nil, "")
				continue
			}
			if err := reg.Register(d); err != nil {
				c.Violate("definition", err.Error(), nil, "")
			}
		}
		c.Eval("lookup " + ro.text)
		func() {
			defer func() {
				if p := recover(); p != nil {
					c.Violate("panic", fmt.Sprintf("Lookup(%q) panicked: %v", ro.text, p), nil, "")
				}
			}()
			got := ""
			if d := reg.Lookup(ro.text, markers.DescribesType); d != nil {
				got = d.Name
			}
			if got != ro.want {
				c.Violate("lookup", fmt.Sprintf("Lookup(%q) among %v found %q, expected %q", ro.text, ro.defs, got, ro.want), nil, "")
			}
			for _, t := range []markers.TargetType{markers.DescribesPackage, markers.DescribesField} {
				if d := reg.Lookup(ro.text, t); d != nil {
					c.Violate("lookup", fmt.Sprintf("Lookup(%q) found a definition for another target", ro.text), nil, "")
				}
			}
		}()
	}
}
