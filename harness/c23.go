package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
)

// C23: descriptions against the comments the model wrote.

func init() { register("C23", checkC23) }

var directive = regexp.MustCompile(`^[a-z0-9]+:[a-z0-9]`)

// docText extracts documentation from raw comment lines following the documented rules.
func docText(raw []string) string {
	var lines []string
	block := false
	for _, c := range raw {
		if strings.HasPrefix(c, "/*") {
			block = true
			for _, l := range strings.Split(c[2:len(c)-2], "\n") {
				lines = append(lines, l)
			}
			continue
		}
		t := c[2:]
		if strings.HasPrefix(strings.TrimSpace(t), "+") { // a marker
			continue
		}
		if t != "" && t[0] == ' ' {
			t = t[1:]
		} else if directive.MatchString(t) || strings.HasPrefix(t, "line ") {
			continue
		}
		lines = append(lines, t)
	}
	var para []string
	for _, l := range lines {
		l = strings.TrimRight(l, " \t\r")
		if l == "" && (len(para) == 0 || para[len(para)-1] == "") {
			continue
		}
		para = append(para, l)
	}
	for len(para) > 0 && para[len(para)-1] == "" {
		para = para[:len(para)-1]
	}
	var out []string
	code := false
	for _, l := range para {
		if block {
			l = strings.TrimSpace(l)
		}
		if strings.HasPrefix(l, "```") || strings.HasPrefix(l, "~~~") {
			code = !code
		}
		if !code && strings.HasPrefix(l, "TODO") {
			continue
		}
		if !code && strings.HasPrefix(l, "---") {
			break
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

// rawDoc writes a random doc comment; plain ones are long running text.
func rawDoc(r *rand.Rand, u string, plain bool) ([]string, string) {
	var raw []string
	text := func() string {
		var w []string
		for i := 0; i <= r.Intn(9); i++ {
			w = append(w, strings.ReplaceAll(strings.ReplaceAll(descWords[r.Intn(len(descWords))], "```", "`x`"), "\u00a0", "_"))
		}
		s := strings.TrimSpace(strings.Join(w, pick(r, " ", " ", "  ")))
		if s == "" || strings.HasPrefix(s, "\u3000") {
			s = "Text"
		}
		return s
	}
	first := pick(r, u+" does things.", u+" "+text(), u, u+pick(r, "s of text", ": text", "'s text", "x", "-text", ", "+text(), "."), u+"  "+text())
	if plain {
		raw = append(raw, "// "+first)
		for i := 0; i < r.Intn(6); i++ {
			raw = append(raw, "// "+text())
		}
		return raw, docText(raw)
	}
	if chance(r, 18) { // a block comment
		b := pick(r, "/* ", "/*\n", "/*\n\n") + first
		for i := 0; i < r.Intn(5); i++ {
			b += "\n" + pick(r, "", "  ", "\t", "\t\t", " * ") + pick(r, text(), text(), "", "TODO: "+u, "---", "```", "---- "+u)
		}
		b += pick(r, " */", "\n*/", "\n\t*/")
		raw = append(raw, b)
		if chance(r, 30) {
			raw = append(raw, "// "+text())
		}
		if chance(r, 30) {
			raw = append([]string{"// Before " + u}, raw...)
		}
		return raw, docText(raw)
	}
	if chance(r, 85) {
		raw = append(raw, pick(r, "// ", "// ", "//")+first)
	}
	n := r.Intn(9)
	for i := 0; i < n; i++ {
		switch r.Intn(22) {
		case 0, 1:
			raw = append(raw, pick(r, "//", "// ", "//  "))
		case 2:
			raw = append(raw, "//", "//")
		case 3:
			raw = append(raw, pick(r, "// +foo:bar=baz", "//+unknownmarker", "//   +some:thing", "// +"+u, "// + item"))
		case 4:
			raw = append(raw, pick(r, "// TODO: "+u, "// TODO(me): fix", "// TODO", "// TODOs are dropped"))
		case 5:
			raw = append(raw, pick(r, "//  TODO kept "+u, "// not TODO", "// todo kept", "// Todo"))
		case 6:
			raw = append(raw, "//   indented "+u, "//\ttabbed "+u)
		case 7:
			raw = append(raw, "// - item one", "//   * item two", "// 1. number")
		case 8:
			raw = append(raw, "// "+pick(r, "```", "```go", "~~~"), "// TODO in code "+u, "// --- in code", "//   code {", "//", "// "+pick(r, "```", "~~~"))
		case 9:
			raw = append(raw, pick(r, "// ---", "// --- notes", "// -----", "//---"))
		case 10:
			raw = append(raw, pick(r, "// --", "//  ---", "// - --", "// a --- b"))
		case 11:
			raw = append(raw, pick(r, "//nolint:lll", "//go:generate foo", "//foo:bar baz"))
		case 12:
			raw = append(raw, pick(r, "//no space", "//nolint", "//Foo:Bar", "// foo:bar", "// http://example.com/x?y=z#w"))
		case 13:
			raw = append(raw, "// trailing space "+u+"   ", "// trailing tab\t")
		case 14:
			raw = append(raw, pick(r, "// # Heading", "// key: value", "// @tag", "// {curly} [square]", "// 100% \\n \"q\" 'q' `b`", "// <b>&amp;</b>", "// '*'", "// | pipe", "// > quote", "// !bang", "// ? what"))
		case 15:
			raw = append(raw, "// "+strings.Repeat("long ", 40)+u)
		default:
			raw = append(raw, "// "+text())
		}
	}
	if len(raw) == 0 {
		raw = []string{"// " + first}
	}
	return raw, docText(raw)
}

func checkC23(c *Ctx) {
	c.Rule("Random packages whose types and fields carry doc comments with every line form (blank, indented, list, fenced code, TODO, rulers, markers of known and unknown kinds, directives, block comments, other scripts), surrounded by comments that are not documentation, are run through controller-gen; the description at every schema node must be the text extracted by an independent implementation of the rules from exactly the comment the model attached there. One evaluation is one kind; distinct by written schema.")
	n := c.N(120, 700)
	parallel(n, 6, func(i int) {
		r := c.Rng("model", i)
		p := profile{marks: 20, maxMarks: 3, typeMarks: 30, refs: 55, aliases: 8, embeds: 15, reqMarks: 20, maxSize: 50,
			fields: 7, decls: 14, kinds: 3, libs: 1, apis: 2, detach: 15, noise: true}
		p.rawDocs = func(r *rand.Rand, u string) ([]string, string) {
			raw, d := rawDoc(r, u, false)
			c.Count("comments", 1)
			for _, l := range raw {
				switch t := strings.TrimSpace(strings.TrimPrefix(l, "//")); {
				case strings.HasPrefix(l, "/*"):
					c.See("forms", "block")
				case strings.HasPrefix(t, "+"):
					c.See("forms", "marker")
				case strings.HasPrefix(t, "TODO"):
					c.See("forms", "TODO")
				case strings.HasPrefix(t, "---"):
					c.See("forms", "ruler")
				case strings.HasPrefix(t, "```"), strings.HasPrefix(t, "~~~"):
					c.See("forms", "fence")
				case t == "":
					c.See("forms", "blank")
				default:
					c.See("forms", "text")
				}
			}
			return raw, d
		}
		g := genModel(r, "example.test/m", p)
		dir := c.CaseDir("m")
		g.write(dir, r)
		runCRDModel(c, g, dir, r, cmpOpts{desc: true})
		if i == 0 {
			c.Sample(clip(fmt.Sprint(snapshot(dir)["api/g0/v1/z0_types.go"]), 1500))
		}
	})
	c.Min("evaluations", 100)
	c.Min("comments", 1000)
	c.Min("forms", 7)
}
