package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

const verifDir = "/verif"
const repoDir = "/repo"

type stopCheck struct{}

// Ctx carries one check run: its randomness, its verdicts and its evidence.
type Ctx struct {
	ID      string
	Seed    int64
	Tier    string
	Scratch string
	Bin     string
	start   time.Time

	mu         sync.Mutex
	evals      int64
	distinct   map[string]struct{}
	samples    []any
	rule       string
	counters   map[string]int64
	sets       map[string]map[string]struct{}
	assume     []string
	violations []violation
	known      map[string]bool // signatures of listed findings
	knownHit   map[string]string
	inconcl    []string
	minima     map[string]int64
	caseNo     int
}

type violation struct{ sig, msg, replay string }

func newCtx(id string, seed int64, tier, scratch, bin string) *Ctx {
	c := &Ctx{ID: id, Seed: seed, Tier: tier, Scratch: scratch, Bin: bin, start: time.Now(),
		distinct: map[string]struct{}{}, counters: map[string]int64{}, sets: map[string]map[string]struct{}{},
		known: map[string]bool{}, knownHit: map[string]string{}, minima: map[string]int64{}}
	f, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err == nil {
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			l := strings.TrimSpace(sc.Text())
			// finding: property=C11 sig=<signature> :: description
			if !strings.HasPrefix(l, "finding:") {
				continue
			}
			fs := strings.Fields(strings.SplitN(l, "::", 2)[0])
			var p, s string
			for _, x := range fs {
				if strings.HasPrefix(x, "property=") {
					p = x[len("property="):]
				}
				if strings.HasPrefix(x, "sig=") {
					s = x[len("sig="):]
				}
			}
			if p == id && s != "" {
				c.known[s] = true
			}
		}
		f.Close()
	}
	_ = os.RemoveAll(c.replayRoot())
	return c
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks a case count by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Rng gives a generator determined by the seed and a label.
func (c *Ctx) Rng(label string, n int) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d/%s/%d", c.ID, c.Seed, label, n)))
	var s int64
	for i := 0; i < 8; i++ {
		s = s<<8 | int64(h[i])
	}
	return rand.New(rand.NewSource(s))
}

func (c *Ctx) Rule(s string)         { c.rule = s }
func (c *Ctx) Assume(s string)       { c.assume = append(c.assume, s) }
func (c *Ctx) Min(k string, n int64) { c.minima[k] = n }

// Eval counts one evaluated case; key identifies it for the distinct count ("" if trivial).
func (c *Ctx) Eval(key string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if key != "" {
		h := sha256.Sum256([]byte(key))
		c.distinct[hex.EncodeToString(h[:8])] = struct{}{}
	}
}
func (c *Ctx) Count(k string, n int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.counters[k] += n
}

// See records that item was observed in a named set (its size is reported).
func (c *Ctx) See(set, item string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	m := c.sets[set]
	if m == nil {
		m = map[string]struct{}{}
		c.sets[set] = m
	}
	m[item] = struct{}{}
}
func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 3 {
		if _, err := json.Marshal(v); err != nil {
			v = fmt.Sprintf("%+v", v)
		}
		c.samples = append(c.samples, v)
	}
}

func (c *Ctx) replayRoot() string { return filepath.Join(verifDir, "evidence", "replay", c.ID) }

// Violate records a violation. sig identifies what failed precisely enough for the known-findings
// file; files are written into a replay directory. It stops the check after a few violations.
func (c *Ctx) Violate(sig, msg string, files map[string]string, copyDir string) {
	c.mu.Lock()
	if c.known[sig] {
		if _, ok := c.knownHit[sig]; !ok {
			c.knownHit[sig] = msg
		}
		c.mu.Unlock()
		return
	}
	n := len(c.violations)
	if n >= 4 {
		c.mu.Unlock()
		if os.Getenv("VERIF_DEBUG") == "" {
			panic(stopCheck{})
		}
		return
	}
	dir := filepath.Join(c.replayRoot(), fmt.Sprintf("v%d", n+1))
	c.violations = append(c.violations, violation{sig, msg, dir})
	c.mu.Unlock()
	_ = os.MkdirAll(dir, 0o755)
	_ = os.WriteFile(filepath.Join(dir, "VIOLATION.txt"), []byte(fmt.Sprintf("property=%s sig=%s seed=%d tier=%s\n\n%s\n", c.ID, sig, c.Seed, c.Tier, msg)), 0o644)
	for n, b := range files {
		p := filepath.Join(dir, n)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		_ = os.WriteFile(p, []byte(b), 0o644)
	}
	if copyDir != "" {
		_ = copyTree(copyDir, filepath.Join(dir, "input"))
	}
	fmt.Fprintf(os.Stderr, "---- violation %s [%s]\n%s\n", c.ID, sig, clip(msg, 3000))
}

func (c *Ctx) Violations() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.violations)
}

// Inconclusive records that part of the run gave no verdict.
func (c *Ctx) Inconclusive(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.inconcl = append(c.inconcl, fmt.Sprintf(format, a...))
}

func (c *Ctx) finish() {
	c.mu.Lock()
	cov := map[string]any{"evaluations": c.evals, "distinct_nontrivial": len(c.distinct), "rule": c.rule, "samples": c.samples}
	for k, v := range c.counters {
		cov[k] = v
	}
	for k, m := range c.sets {
		cov["distinct_"+k] = len(m)
		if len(m) <= 60 {
			var l []string
			for x := range m {
				l = append(l, x)
			}
			sort.Strings(l)
			cov["seen_"+k] = l
		}
	}
	ev := map[string]any{"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": levelOf(c.ID), "coverage": cov,
		"assumptions": c.assume, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.violations)}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	if c.samples == nil {
		cov["samples"] = []any{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
	_ = os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for k, n := range c.minima {
		got := c.counters[k]
		if m, ok := c.sets[k]; ok {
			got = int64(len(m))
		}
		if k == "evaluations" {
			got = c.evals
		}
		if got < n && len(c.violations) == 0 {
			c.inconcl = append(c.inconcl, fmt.Sprintf("observed only %d %s, need %d", got, k, n))
		}
	}
	var ks []string
	for k := range c.knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, k, clip(strings.SplitN(c.knownHit[k], "\n", 2)[0], 200))
	}
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct, %.1fs", c.ID, c.Tier, c.Seed, c.evals, len(c.distinct), time.Since(c.start).Seconds())
	ks = ks[:0]
	for k := range c.counters {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf(", %s=%d", k, c.counters[k])
	}
	for k, m := range c.sets {
		fmt.Printf(", #%s=%d", k, len(m))
	}
	fmt.Println()
	if len(c.violations) > 0 {
		for _, v := range c.violations {
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, v.replay)
		}
		os.Exit(1)
	}
	if c.evals == 0 {
		c.inconcl = append(c.inconcl, "nothing was evaluated")
	}
	if len(c.inconcl) > 0 {
		for _, s := range c.inconcl {
			fmt.Printf("INCONCLUSIVE property=%s %s\n", c.ID, clip(s, 2000))
		}
		os.Exit(2)
	}
	os.Exit(0)
}

func levelOf(id string) string {
	switch id {
	default:
		return "exploration"
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// ---- running tools ----

type Result struct {
	Stdout, Stderr string
	Code           int
	TimedOut       bool
}

func (r Result) Panicked() bool {
	return strings.Contains(r.Stderr, "goroutine ") && (strings.Contains(r.Stderr, "panic: ") || strings.Contains(r.Stderr, "fatal error: "))
}

const toolTimeout = 150 * time.Second

func runCmd(dir string, env []string, timeout time.Duration, name string, args ...string) Result {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.WaitDelay = 5 * time.Second
	err := cmd.Run()
	r := Result{Stdout: so.String(), Stderr: se.String()}
	if ctx.Err() != nil {
		r.TimedOut = true
		r.Code = -1
		return r
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			r.Code = ee.ExitCode()
		} else {
			r.Code = -2
			r.Stderr += "\n" + err.Error()
		}
	}
	return r
}

// Gen runs controller-gen in dir.
func (c *Ctx) Gen(dir string, args ...string) Result {
	c.Count("tool_runs", 1)
	r := runCmd(dir, nil, toolTimeout, filepath.Join(c.Bin, "controller-gen"), args...)
	c.judgeRun(dir, r, args)
	return r
}

// judgeRun: whatever else a run is for, the tool may neither hang nor panic.
func (c *Ctx) judgeRun(dir string, r Result, args []string) {
	if r.TimedOut {
		c.Violate("hang", fmt.Sprintf("controller-gen %s did not end within %s", strings.Join(args, " "), toolTimeout), nil, dir)
	} else if r.Panicked() {
		c.Violate("panic", fmt.Sprintf("controller-gen %s panicked (exit %d):\n%s", strings.Join(args, " "), r.Code, clip(r.Stderr, 3000)), nil, dir)
	}
}

func (c *Ctx) CaseDir(prefix string) string {
	c.mu.Lock()
	c.caseNo++
	n := c.caseNo
	c.mu.Unlock()
	d := filepath.Join(c.Scratch, "work", fmt.Sprintf("%s%d", prefix, n))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

// parallel runs fn(i) for i in [0,n) on several workers.
func parallel(n, workers int, fn func(i int)) {
	ch := make(chan int)
	var wg sync.WaitGroup
	var pmu sync.Mutex
	var pval any
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				func() {
					defer func() {
						if r := recover(); r != nil {
							pmu.Lock()
							if pval == nil {
								if _, ok := r.(stopCheck); ok {
									pval = r
								} else {
									buf := make([]byte, 1<<14)
									buf = buf[:runtimeStack(buf)]
									pval = fmt.Sprintf("%v\n%s", r, buf)
								}
							}
							pmu.Unlock()
						}
					}()
					fn(i)
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		pmu.Lock()
		p := pval
		pmu.Unlock()
		if p != nil {
			break
		}
		ch <- i
	}
	close(ch)
	wg.Wait()
	if pval != nil {
		panic(pval)
	}
}

// ---- files ----

func writeFile(p, s string) {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
		panic(err)
	}
}

func copyTree(src, dst string) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		t := filepath.Join(dst, rel)
		if d.IsDir() {
			return os.MkdirAll(t, 0o755)
		}
		if !d.Type().IsRegular() {
			if l, err := os.Readlink(p); err == nil {
				_ = os.Symlink(l, t)
			}
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		return os.WriteFile(t, b, 0o644)
	})
}

// snapshot maps relative file path to content for every regular file below dir.
func snapshot(dir string) map[string]string {
	out := map[string]string{}
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if !d.Type().IsRegular() {
			l, _ := os.Readlink(p)
			out[rel] = "<special> " + l
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			out[rel] = "<unreadable>"
			return nil
		}
		out[rel] = string(b)
		return nil
	})
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// diffSnap describes how two snapshots differ ("" if equal).
func diffSnap(a, b map[string]string) string {
	var out []string
	for _, k := range sortedKeys(a) {
		if v, ok := b[k]; !ok {
			out = append(out, "only in first: "+k)
		} else if v != a[k] {
			out = append(out, "differs: "+k+"\n"+lineDiff(a[k], v))
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			out = append(out, "only in second: "+k)
		}
	}
	return strings.Join(out, "\n")
}

func lineDiff(a, b string) string {
	al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
	i := 0
	for i < len(al) && i < len(bl) && al[i] == bl[i] {
		i++
	}
	j := 0
	for j < len(al)-i && j < len(bl)-i && al[len(al)-1-j] == bl[len(bl)-1-j] {
		j++
	}
	cut := func(l []string) string {
		if len(l) > 25 {
			l = l[:25]
		}
		return strings.Join(l, "\n")
	}
	return fmt.Sprintf("@line %d\n<<<\n%s\n===\n%s\n>>>", i+1, cut(al[i:len(al)-j]), cut(bl[i:len(bl)-j]))
}

// ---- scratch Go modules ----

var goModTail string
var goSum string
var modOnce sync.Once

// newModule writes a go.mod/go.sum that gives a scratch module /repo's dependencies.
func newModule(dir, modpath string) {
	modOnce.Do(func() {
		b, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
		if err != nil {
			panic(err)
		}
		s := string(b)
		i := strings.Index(s, "\ngo ")
		goModTail = s[i:]
		b, err = os.ReadFile(filepath.Join(repoDir, "go.sum"))
		if err != nil {
			panic(err)
		}
		goSum = string(b)
	})
	writeFile(filepath.Join(dir, "go.mod"), "module "+modpath+"\n"+goModTail)
	writeFile(filepath.Join(dir, "go.sum"), goSum)
}
