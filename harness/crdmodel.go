package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"
)

// Running the CRD generator over a model and comparing what it writes.

type crdRun struct {
	dir   string
	g     *mgen
	files map[string]string
	byGK  map[string]any // group/kind -> CRD document
	res   Result
}

func (g *mgen) write(dir string, r *rand.Rand) {
	newModule(dir, g.mod)
	for _, p := range append(append([]*Pkg{}, g.libs...), g.apis...) {
		p.noise = g.p.noise
		p.render(dir, r)
	}
}

func optArgs(o modelOpts) string {
	var a []string
	if o.dangerous {
		a = append(a, "allowDangerousTypes=true")
	}
	if o.embedMeta {
		a = append(a, "generateEmbeddedObjectMeta=true")
	}
	if o.ignoreUnx {
		a = append(a, "ignoreUnexportedFields=true")
	}
	if len(a) == 0 {
		return "crd"
	}
	return "crd:" + strings.Join(a, ",")
}

// parseCRDs reads written CRD files.
func parseCRDs(files map[string]string) (map[string]any, []string) {
	out := map[string]any{}
	var bad []string
	for _, f := range sortedKeys(files) {
		docs := splitDocs(files[f])
		if len(docs) != 1 {
			bad = append(bad, fmt.Sprintf("%s: %d documents", f, len(docs)))
			continue
		}
		v, err := yamlToAny(docs[0])
		if err != nil {
			bad = append(bad, f+": "+err.Error())
			continue
		}
		if asStr(jget(v, "kind")) != "CustomResourceDefinition" || asStr(jget(v, "apiVersion")) != "apiextensions.k8s.io/v1" {
			bad = append(bad, f+": not a CustomResourceDefinition")
			continue
		}
		k := asStr(jget(v, "spec", "group")) + "/" + asStr(jget(v, "spec", "names", "kind"))
		if _, dup := out[k]; dup {
			bad = append(bad, "two files for "+k)
		}
		out[k] = v
	}
	return out, bad
}

// versionSchema finds the schema of one version of a CRD.
func versionSchema(crd any, version string) any {
	for _, v := range asSlice(jget(crd, "spec", "versions")) {
		if asStr(jget(v, "name")) == version {
			return jget(v, "schema", "openAPIV3Schema")
		}
	}
	return nil
}

// runCRDModel generates CRDs for the model in dir and judges every kind.
func runCRDModel(c *Ctx, g *mgen, dir string, r *rand.Rand, o cmpOpts, extra ...string) *crdRun {
	out := filepath.Join(dir, "out")
	args := append([]string{optArgs(g.p.opts)}, extra...)
	if len(extra) == 0 {
		args = append(args, "paths=./...")
	}
	args = append(args, "output:dir="+out)
	res := c.Gen(dir, args...)
	run := &crdRun{dir: dir, g: g, res: res}
	if res.TimedOut {
		c.Inconclusive("controller-gen timed out in %s", dir)
		return run
	}
	if res.Code != 0 || strings.TrimSpace(res.Stderr) != "" {
		c.Violate("model-rejected", fmt.Sprintf("valid packages rejected (exit %d):\n%s", res.Code, clip(res.Stderr, 3000)), nil, dir)
		return run
	}
	run.files = snapshot(out)
	crds, bad := parseCRDs(run.files)
	for _, b := range bad {
		c.Violate("crd-file", b, nil, dir)
	}
	run.byGK = crds
	n := 0
	for _, p := range g.apis {
		for _, k := range p.Kinds {
			n++
			key := p.Group + "/" + k.Name
			crd, ok := crds[key]
			if !ok {
				c.Violate("crd-missing", "no CRD written for "+key, nil, dir)
				continue
			}
			exp := declN(k, g.p.opts)
			act := normSchema(versionSchema(crd, p.Version), false)
			c.Eval(fmt.Sprintf("%v", canon(versionSchema(crd, p.Version))))
			c.Count("schema_nodes", int64(exp.size()))
			if diffs := compareN(exp, act, k.Name, o); len(diffs) > 0 {
				if len(diffs) > 12 {
					diffs = append(diffs[:12], "…")
				}
				c.Violate("schema-differs", key+":\n"+strings.Join(diffs, "\n"), nil, dir)
			}
		}
	}
	if len(crds) != n {
		c.Violate("crd-extra", fmt.Sprintf("%d kinds, %d CRDs written: %v", n, len(crds), sortedKeys(crds)), nil, dir)
	}
	return run
}
