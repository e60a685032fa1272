package checks

import (
	"verif/harness/css"
	"verif/harness/fw"
	"verif/harness/gen"
)

func countNodes(nodes []*css.Node, f func(*css.Node)) {
	for _, n := range nodes {
		f(n)
		for _, it := range n.Items {
			if it.Node != nil {
				countNodes([]*css.Node{it.Node}, f)
			}
		}
	}
}

func init() {
	fw.Register(&fw.Check{
		ID: "C03", Level: "exploration", Quick: 540000, Thorough: 13500000,
		Rule:        "one stylesheet per case with 1-6 random selector lists (all selector kinds, nesting up to 3, random formatting and escapes); non-trivial if it has a combinator, attribute, functional pseudo-class or escape; distinct by source text",
		Assumptions: []string{commonAssumption, "selectors compare equal modulo whitespace, comments, quotes, escapes of the same characters and An+B spelling"},
		Run: func(c *fw.Ctx) {
			g := gen.New(c.R)
			n := 1 + c.R.Intn(6)
			g.Opt()
			for i := 0; i < n; i++ {
				wrap := g.Chance(.1)
				if wrap {
					g.T("@media print").Opt().T("{").Opt()
				}
				g.SelectorList(2)
				g.Opt().T("{").Opt().Tf("p:%d", i).Opt().T("}")
				if wrap {
					g.Opt().T("}")
				}
				g.Opt()
			}
			src, _ := gen.Render(g.P, gen.RandomStyle(c.R))
			compareCanon(c, src, css.Options{NoDecls: true})
			selectors := 0
			countNodes(mustParse(src), func(n *css.Node) {
				if !n.At {
					for _, s := range css.SplitTop(n.Prelude, css.Comma) {
						selectors++
						c.State(css.CanonSelector(s))
						if len(s) > 2 {
							c.Nontrivial(src)
						}
					}
				}
			})
			c.Count("selectors", selectors)
			c.Sample(src)
		},
	})

	fw.Register(&fw.Check{
		ID: "C04", Level: "exploration", Quick: 480000, Thorough: 12000000,
		Rule:        "one stylesheet per case with 1-4 rules of up to 8 random declarations (all value kinds, nested functions, math, escapes, strings, urls, !important, declarations that are carried through verbatim), random formatting; non-trivial if it has at least two declarations; distinct by source text",
		Assumptions: []string{commonAssumption, "whitespace between value tokens is insignificant; math functions are compared without whitespace (known finding: cssc prints none)"},
		RunKnown: func(c *fw.Ctx, f fw.Finding) {
			out, _, _ := oneFile(f)
			if !mathSpaces(out) {
				c.Violate(f.Files["in.css"], "whitespace around + or - in a math function is lost: %s", out)
			}
		},
		Run: func(c *fw.Ctx) {
			g := gen.New(c.R)
			n := 1 + c.R.Intn(4)
			g.Opt()
			for i := 0; i < n; i++ {
				switch {
				case g.Chance(.1):
					g.T("@font-face").Opt().T("{").Opt()
					g.Declarations(1, 4)
					g.T("}")
				case g.Chance(.1):
					g.T("@media").Req().T("print").Opt().T("{").Opt().T("a{").Opt()
					g.Declarations(1, 4)
					g.T("}").Opt().T("}")
				case g.Chance(.05):
					g.T("@keyframes x{to{").Opt()
					g.Declarations(1, 4)
					g.T("}").Opt().T("}")
				default:
					g.Tf(".r%d{", i).Opt()
					g.Declarations(1, 8)
					g.T("}")
				}
				g.Opt()
			}
			src, _ := gen.Render(g.P, gen.RandomStyle(c.R))
			compareCanon(c, src, css.Options{NoSelectors: true})
			decls := 0
			countNodes(mustParse(src), func(n *css.Node) {
				for _, it := range n.Items {
					if it.Node == nil {
						decls++
						c.State(css.CanonDecl(it))
					}
				}
			})
			c.Count("declarations", decls)
			if decls >= 2 {
				c.Nontrivial(src)
			}
			c.Sample(src)
		},
	})

	fw.Register(&fw.Check{
		ID: "C05", Level: "exploration", Quick: 576000, Thorough: 14400000,
		Rule:        "one stylesheet per case with 1-7 random rules and at-rules (media, keyframes, imports, font-face, page, supports, layer, container, namespace, charset, unknown ones; nesting up to 3), each rule carrying a unique number, random formatting; non-trivial if it has an at-rule; distinct by source text",
		Assumptions: []string{commonAssumption, "style rules without declarations have no effect and may be dropped"},
		RunKnown: func(c *fw.Ctx, f fw.Finding) {
			compareCanon(c, f.Files["in.css"], css.Options{StrictPreludes: true})
		},
		Run: func(c *fw.Ctx) {
			g := gen.New(c.R)
			g.NoRaw = g.Chance(.5)
			g.Sheet(gen.SheetOptions{AtRules: true, Values: g.Chance(.1), Min: 1, Max: 7, Depth: 3})
			src, _ := gen.Render(g.P, gen.RandomStyle(c.R))
			compareCanon(c, src, css.Options{StrictPreludes: noComments(src)})
			countNodes(mustParse(src), func(n *css.Node) {
				c.Count("rules", 1)
				if n.At {
					c.Nontrivial(src)
					c.State("@" + n.Name + " " + css.CanonTight(n.Prelude))
				}
			})
			c.Sample(src)
		},
	})
}
