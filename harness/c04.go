package main

import (
	"fmt"
)

func init() { register("C04", checkC04) }

func checkC04(c *Ctx) {
	c.Rule("Random acyclic graphs of named types over several packages, each used many times at fields, elements, map values and embeddings with markers and documentation both at the type and at the uses, are generated as Go source, run through controller-gen, and every node of every written schema (with allOf branches conjoined) is compared with the constraints in force there according to the model. One evaluation is one kind; distinct by its written schema.")
	c.Assume("Recursive types are outside the property (CRDs cannot express them).")
	n := c.N(160, 900)
	parallel(n, 6, func(i int) {
		r := c.Rng("model", i)
		g := genModel(r, "example.test/m", c04Profile())
		dir := c.CaseDir("m")
		g.write(dir, r)
		run := runCRDModel(c, g, dir, r, cmpOpts{desc: true})
		_ = run
		for k := range g.seen {
			c.See("markers", k)
		}
		_ = fmt.Sprint
	})
	c.Min("evaluations", 100)
	c.Min("schema_nodes", 2000)
	c.Min("markers", 15)
}

func c04Profile() profile {
	return profile{marks: 30, maxMarks: 4, typeMarks: 45, docs: 60, refs: 75, aliases: 12, embeds: 22, reqMarks: 20, maxSize: 60,
		fields: 5, decls: 14, kinds: 3, libs: 2, apis: 2, detach: 15}
}
