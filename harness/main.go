// Command vchk runs one property check: vchk -check C09 -scratch DIR -bin DIR.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
)

type checkFn func(c *Ctx)

var checks = map[string]checkFn{}

func register(id string, fn checkFn) { checks[id] = fn }

func main() {
	// sub-process entry points (used to contain panics and hangs of in-process code)
	if len(os.Args) > 2 && os.Args[1] == "-sub" {
		runSub(os.Args[2], os.Args[3:])
		return
	}
	id := flag.String("check", "", "property id")
	scratch := flag.String("scratch", "", "scratch directory")
	bin := flag.String("bin", "", "directory with the tools built from /repo")
	flag.Parse()
	fn, ok := checks[*id]
	if !ok {
		fmt.Fprintf(os.Stderr, "no check %q\n", *id)
		os.Exit(2)
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fmt.Fprintf(os.Stderr, "bad VERIF_SEED %q\n", s)
			os.Exit(2)
		}
		seed = v
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c := newCtx(*id, seed, tier, *scratch, *bin)
	defer func() {
		if r := recover(); r != nil {
			if _, stop := r.(stopCheck); stop {
				c.finish()
			}
			st := fmt.Sprint(r) + string(debug.Stack())
			if strings.Contains(st, "sigs.k8s.io/controller-tools/") { // the code under test panicked in-process
				func() {
					defer func() { _ = recover() }()
					c.Violate("panic", "panic in the code under test:\n"+clip(st, 6000), nil, "")
				}()
				c.finish()
			}
			fmt.Fprintf(os.Stderr, "INCONCLUSIVE %s: harness panic: %v\n%s\n", *id, r, debug.Stack())
			os.Exit(2)
		}
	}()
	fn(c)
	c.finish()
}

// subs are in-process workloads run in a child process of their own.
var subs = map[string]func(args []string){}

func runSub(name string, args []string) {
	fn, ok := subs[name]
	if !ok {
		fmt.Fprintf(os.Stderr, "no sub %q\n", name)
		os.Exit(2)
	}
	fn(args)
}
