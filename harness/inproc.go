package main

import (
	"bytes"
	"fmt"
	"io"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

// memOut is an output rule that records every artifact written.
type memOut struct {
	mu    sync.Mutex
	files map[string]*bytes.Buffer
	opens int
}

func newMemOut() *memOut { return &memOut{files: map[string]*bytes.Buffer{}} }

type memW struct {
	*bytes.Buffer
}

func (memW) Close() error { return nil }

func (m *memOut) Open(pkg *loader.Package, path string) (io.WriteCloser, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.opens++
	key := path
	if pkg != nil {
		key = pkg.PkgPath + "!" + path
	}
	if _, dup := m.files[key]; dup {
		key = fmt.Sprintf("%s#dup%d", key, m.opens)
	}
	b := &bytes.Buffer{}
	m.files[key] = b
	return memW{b}, nil
}

func (m *memOut) snap() map[string]string {
	out := map[string]string{}
	for k, v := range m.files {
		out[k] = v.String()
	}
	return out
}

func loadPkgs(dir string, patterns ...string) ([]*loader.Package, error) {
	return loader.LoadRootsWithConfig(&packages.Config{Dir: dir}, patterns...)
}

// genCtx builds a generation context for one generator over some roots.
func genCtx(g genall.Generator, col *markers.Collector, roots []*loader.Package, out genall.OutputRule) *genall.GenerationContext {
	ctx := &genall.GenerationContext{Collector: col, Roots: roots, OutputRule: out, InputRule: genall.InputFromFileSystem}
	if tc, ok := g.(genall.NeedsTypeChecking); ok {
		ctx.Checker = &loader.TypeChecker{NodeFilters: []loader.NodeFilter{tc.CheckFilter()}}
	}
	return ctx
}

func newCollector(gs ...genall.Generator) *markers.Collector {
	col := &markers.Collector{Registry: &markers.Registry{}}
	for _, g := range gs {
		if err := g.RegisterMarkers(col.Registry); err != nil {
			panic(err)
		}
	}
	return col
}

// pkgErrors collects the non-type errors of roots and their imports.
func pkgErrors(roots []*loader.Package) []string {
	var out []string
	var raw []*packages.Package
	for _, r := range roots {
		raw = append(raw, r.Package)
	}
	packages.Visit(raw, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if e.Kind == packages.TypeError {
				continue
			}
			out = append(out, e.Error())
		}
	})
	sort.Strings(out)
	return out
}

func byPath(roots []*loader.Package) map[string]*loader.Package {
	m := map[string]*loader.Package{}
	for _, r := range roots {
		m[r.PkgPath] = r
	}
	return m
}

func readDirFile(dir, name string) string { return filepath.Join(dir, name) }

var _ = strings.TrimSpace
