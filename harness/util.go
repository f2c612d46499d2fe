package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"

	sigsyaml "sigs.k8s.io/yaml"
)

func runtimeStack(b []byte) int { return runtime.Stack(b, false) }

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }
func chance(r *rand.Rand, pct int) bool   { return r.Intn(100) < pct }

// subset picks each element with the given percentage.
func subset[T any](r *rand.Rand, pct int, xs ...T) []T {
	var out []T
	for _, x := range xs {
		if chance(r, pct) {
			out = append(out, x)
		}
	}
	return out
}

// splitDocs splits a YAML stream as written by the tools into documents.
func splitDocs(s string) []string {
	var docs []string
	var cur []string
	for _, l := range strings.Split(s, "\n") {
		if l == "---" {
			docs = append(docs, strings.Join(cur, "\n"))
			cur = nil
			continue
		}
		cur = append(cur, l)
	}
	docs = append(docs, strings.Join(cur, "\n"))
	var out []string
	for _, d := range docs {
		if strings.TrimSpace(d) != "" {
			out = append(out, d)
		}
	}
	return out
}

func yamlToAny(s string) (any, error) {
	j, err := sigsyaml.YAMLToJSONStrict([]byte(s))
	if err != nil {
		return nil, err
	}
	dec := json.NewDecoder(strings.NewReader(string(j)))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	return v, nil
}

func yamlInto(s string, v any) error { return sigsyaml.UnmarshalStrict([]byte(s), v) }

// canon renders a JSON value canonically (sorted keys, numbers by value).
func canon(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case json.Number:
		return canonNum(x.String())
	case float64:
		return canonNum(fmt.Sprintf("%v", x))
	case int:
		return canonNum(fmt.Sprintf("%d", x))
	case int64:
		return canonNum(fmt.Sprintf("%d", x))
	case int32:
		return canonNum(fmt.Sprintf("%d", x))
	case string:
		b, _ := json.Marshal(x)
		return string(b)
	case bool:
		return fmt.Sprint(x)
	case []any:
		var p []string
		for _, e := range x {
			p = append(p, canon(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	case map[string]any:
		var p []string
		for _, k := range sortedKeys(x) {
			b, _ := json.Marshal(k)
			p = append(p, string(b)+":"+canon(x[k]))
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("<%v>", err)
	}
	var y any
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	if dec.Decode(&y) != nil {
		return string(b)
	}
	return canon(y)
}

func canonNum(s string) string {
	if !strings.ContainsAny(s, ".eE") {
		return s
	}
	var f float64
	if _, err := fmt.Sscanf(s, "%g", &f); err != nil {
		return s
	}
	if f == float64(int64(f)) && f < 1e15 && f > -1e15 {
		return fmt.Sprintf("%d", int64(f))
	}
	b, _ := json.Marshal(f)
	return string(b)
}

func jget(v any, path ...string) any {
	for _, p := range path {
		m, ok := v.(map[string]any)
		if !ok {
			return nil
		}
		v = m[p]
	}
	return v
}

func asSlice(v any) []any {
	s, _ := v.([]any)
	return s
}
func asStr(v any) string {
	s, _ := v.(string)
	return s
}

func readFile(p string) string {
	b, _ := os.ReadFile(p)
	return string(b)
}
