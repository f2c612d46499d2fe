package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"sigs.k8s.io/controller-tools/pkg/crd"
)

// C16: description truncation, observed in process on arbitrary schemas and through the command line.

func init() { register("C16", checkC16) }

var descWords = []string{"the", "quick", "Kubernetes", "résumé", "世界", "文。", "fin.", "really?", "yes!", "a", "x", "émigré", "𝔘𝔫𝔦", "one.two", "e.g.", "नमस्ते।", "…", "#hash", "- item", "key: value", "{}", "%d", "ok。next", "؟", "\"quoted\"", "'s", "\\", "```", "\u00a0", "\u3000", "漢字仮名交じり文"}

func randDesc(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return ""
	case 1:
		return strings.Repeat(pick(r, "x", "é", "世", "𝔘"), 1+r.Intn(60))
	case 2:
		return pick(r, ".", "。", " ", "\n", "!", "世") + strings.Repeat(pick(r, "x", "é"), 1+r.Intn(40))
	case 3: // no sentence end
		var w []string
		for i := 0; i < 2+r.Intn(15); i++ {
			w = append(w, pick(r, "word", "Wörter", "世界", "xx"))
		}
		return strings.Join(w, pick(r, " ", "\n", "\u3000", "\t"))
	}
	var b strings.Builder
	for i := 0; i < 1+r.Intn(25); i++ {
		if i > 0 {
			b.WriteString(pick(r, " ", " ", " ", "\n", "  ", "\n\n", "\t"))
		}
		b.WriteString(descWords[r.Intn(len(descWords))])
	}
	return b.String()
}

func randProps(r *rand.Rand, depth int) apiext.JSONSchemaProps {
	s := apiext.JSONSchemaProps{Description: randDesc(r), Type: pick(r, "", "object", "string", "array"), Title: pick(r, "", "A long title that stays. Really."), Format: pick(r, "", "byte"), Pattern: pick(r, "", "^a. b$"), Nullable: chance(r, 20)}
	if chance(r, 20) {
		s.Enum = []apiext.JSON{{Raw: []byte(`{"description":"this is a value. it stays."}`)}}
	}
	if chance(r, 20) {
		s.Default = &apiext.JSON{Raw: []byte(`{"description":"default value. it stays."}`)}
	}
	if chance(r, 15) {
		s.Example = &apiext.JSON{Raw: []byte(`"an example. it stays"`)}
	}
	if chance(r, 15) {
		s.ExternalDocs = &apiext.ExternalDocumentation{Description: "external documentation. it stays.", URL: "http://x"}
	}
	if chance(r, 20) {
		s.XValidations = apiext.ValidationRules{{Rule: "self.x > 1", Message: "a message. it stays."}}
	}
	if chance(r, 10) {
		ref := "#/definitions/x"
		s.Ref = &ref
	}
	if depth <= 0 {
		return s
	}
	sub := func() apiext.JSONSchemaProps { return randProps(r, depth-1) }
	psub := func() *apiext.JSONSchemaProps { x := sub(); return &x }
	lst := func() []apiext.JSONSchemaProps {
		var l []apiext.JSONSchemaProps
		for i := 0; i <= r.Intn(3); i++ {
			l = append(l, sub())
		}
		return l
	}
	mp := func() map[string]apiext.JSONSchemaProps {
		m := map[string]apiext.JSONSchemaProps{}
		for i := 0; i <= r.Intn(3); i++ {
			m[pick(r, "description", "a", "b", "c", "items", "é")] = sub()
		}
		return m
	}
	if chance(r, 40) {
		s.Properties = mp()
	}
	if chance(r, 25) {
		s.Items = &apiext.JSONSchemaPropsOrArray{Schema: psub()}
		if chance(r, 30) {
			s.Items.JSONSchemas = lst()
		}
	}
	if chance(r, 15) {
		s.Items = &apiext.JSONSchemaPropsOrArray{JSONSchemas: lst()}
	}
	if chance(r, 25) {
		s.AdditionalProperties = &apiext.JSONSchemaPropsOrBool{Allows: true}
		if chance(r, 80) {
			s.AdditionalProperties.Schema = psub()
		}
	}
	if chance(r, 15) {
		s.AdditionalItems = &apiext.JSONSchemaPropsOrBool{Allows: true, Schema: psub()}
	}
	if chance(r, 15) {
		s.AllOf = lst()
	}
	if chance(r, 15) {
		s.OneOf = lst()
	}
	if chance(r, 15) {
		s.AnyOf = lst()
	}
	if chance(r, 15) {
		s.Not = psub()
	}
	if chance(r, 15) {
		s.PatternProperties = mp()
	}
	if chance(r, 12) {
		s.Definitions = mp()
	}
	if chance(r, 12) {
		s.Dependencies = apiext.JSONSchemaDependencies{"d": {Schema: psub()}, "e": {Property: []string{"x"}}}
	}
	return s
}

// wantDesc is the specified result for one description.
func wantDesc(d string, n int) string {
	switch {
	case n < 0:
		return d
	case n == 0:
		return ""
	case len(d) <= n:
		return d
	}
	// byte offsets of the characters that fit whole
	var starts []int
	end := 0
	for i, ru := range d {
		w := utf8.RuneLen(ru)
		if i+w > n {
			break
		}
		starts = append(starts, i)
		end = i + w
	}
	for k := len(starts) - 1; k > 0; k-- {
		ru, w := utf8.DecodeRuneInString(d[starts[k]:])
		if unicode.Is(unicode.Sentence_Terminal, ru) {
			return d[:starts[k]+w]
		}
	}
	for k := len(starts) - 1; k > 0; k-- {
		ru, _ := utf8.DecodeRuneInString(d[starts[k]:])
		if unicode.IsSpace(ru) {
			return d[:starts[k]] + "..."
		}
	}
	return d[:end] + "..."
}

// walkDescs visits every schema below v by reflection, independent of the visitor in the code.
func walkDescs(v reflect.Value, path string, fn func(path string, s *apiext.JSONSchemaProps)) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			walkDescs(v.Elem(), path, fn)
		}
	case reflect.Struct:
		if s, ok := v.Addr().Interface().(*apiext.JSONSchemaProps); ok {
			fn(path, s)
		}
		for i := 0; i < v.NumField(); i++ {
			walkDescs(v.Field(i), path+"."+v.Type().Field(i).Name, fn)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			walkDescs(v.Index(i), fmt.Sprintf("%s[%d]", path, i), fn)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			c := reflect.New(v.Type().Elem()).Elem()
			c.Set(v.MapIndex(k))
			walkDescs(c, path+"{"+k.String()+"}", fn)
			v.SetMapIndex(k, c)
		}
	}
}

func checkC16(c *Ctx) {
	c.Rule("In-process cases: random schemas using every position a schema can hold another schema in, with descriptions in several scripts around every boundary, truncated with random limits; every node found by reflection must have exactly the specified description and the rest of the schema must be unchanged. Command-line cases: the same packages generated without and with crd:maxDescLen=n, compared the same way. One evaluation is one truncated schema; distinct by its content and limit.")
	n := c.N(4000, 60000)
	parallel(n, 8, func(i int) {
		r := c.Rng("proc", i)
		s := randProps(r, 1+r.Intn(4))
		lim := pick(r, 0, 1, 2, 3, 5, 8, 10, 20, 33, 50, 80, 1000, -1, 1+r.Intn(120))
		before := s.DeepCopy()
		crd.TruncateDescription(&s, lim)
		want := before.DeepCopy()
		cut := 0
		walkDescs(reflect.ValueOf(want), "", func(_ string, x *apiext.JSONSchemaProps) {
			w := wantDesc(x.Description, lim)
			if w != x.Description {
				cut++
			}
			x.Description = w
			c.Count("descriptions", 1)
		})
		c.Count("shortened", int64(cut))
		bb, _ := json.Marshal(before)
		if cut > 0 {
			c.Eval(fmt.Sprintf("%d %s", lim, bb))
		} else {
			c.Eval("")
		}
		if i < 2 {
			c.Sample(map[string]any{"limit": lim, "schema": clip(string(bb), 400)})
		}
		if !reflect.DeepEqual(want, &s) {
			wb, _ := json.MarshalIndent(want, "", " ")
			gb, _ := json.MarshalIndent(s, "", " ")
			c.Violate("truncate", fmt.Sprintf("limit %d: truncation differs from its specification (expected first):\n%s", lim, lineDiff(string(wb), string(gb))), map[string]string{"before.json": string(bb), "got.json": string(gb), "want.json": string(wb)}, "")
		}
	})
	m := c.N(6, 40)
	parallel(m, 4, func(i int) {
		r := c.Rng("cli", i)
		p := profile{marks: 15, maxMarks: 2, typeMarks: 20, refs: 50, aliases: 8, embeds: 15, maxSize: 50, fields: 6, decls: 12, kinds: 3, libs: 1, apis: 2}
		p.rawDocs = func(r *rand.Rand, u string) ([]string, string) { return rawDoc(r, u, true) }
		g := genModel(r, "example.test/m", p)
		dir := c.CaseDir("t")
		g.write(dir, r)
		full := c.Gen(dir, "crd", "paths=./...", "output:dir="+filepath.Join(dir, "full"))
		if full.Code != 0 {
			c.Violate("model-rejected", full.Stderr, nil, dir)
			return
		}
		fc := snapshot(filepath.Join(dir, "full"))
		for _, lim := range []int{-1, 0, 1, 1 + r.Intn(30), 10 + r.Intn(100), 5000} {
			out := filepath.Join(dir, fmt.Sprintf("o%d", lim+1))
			res := c.Gen(dir, fmt.Sprintf("crd:maxDescLen=%d", lim), "paths=./...", "output:dir="+out)
			if res.Code != 0 {
				c.Violate("limit-rejected", fmt.Sprintf("maxDescLen=%d: %s", lim, res.Stderr), nil, dir)
				continue
			}
			oc := snapshot(out)
			if strings.Join(sortedKeys(oc), ",") != strings.Join(sortedKeys(fc), ",") {
				c.Violate("files", fmt.Sprintf("maxDescLen=%d writes %v instead of %v", lim, sortedKeys(oc), sortedKeys(fc)), nil, dir)
				continue
			}
			for _, f := range sortedKeys(fc) {
				var a, b apiext.CustomResourceDefinition
				if yamlInto(fc[f], &a) != nil || yamlInto(oc[f], &b) != nil {
					c.Violate("unreadable", f, nil, dir)
					continue
				}
				cut := 0
				for vi := range a.Spec.Versions {
					walkDescs(reflect.ValueOf(a.Spec.Versions[vi].Schema), "", func(_ string, x *apiext.JSONSchemaProps) {
						w := wantDesc(x.Description, lim)
						if w != x.Description {
							cut++
						}
						x.Description = w
					})
				}
				c.Count("cli_shortened", int64(cut))
				c.Eval(fmt.Sprintf("%d %s", lim, fc[f]))
				if ca, cb := canon(a), canon(b); ca != cb {
					ja, _ := json.MarshalIndent(a, "", " ")
					jb, _ := json.MarshalIndent(b, "", " ")
					c.Violate("cli-truncate", fmt.Sprintf("maxDescLen=%d %s differs (expected first):\n%s", lim, f, lineDiff(string(ja), string(jb))), nil, dir)
				}
			}
		}
	})
	c.Min("evaluations", 1000)
	c.Min("shortened", 2000)
	c.Min("cli_shortened", 100)
}
