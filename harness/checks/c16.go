package checks

import (
	"fmt"
	"strings"

	"verif/harness/css"
	"verif/harness/drive"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/media"
)

// customDefs collects the definitions of custom media queries; the last one wins.
func customDefs(nodes []*css.Node, defs map[string]*media.Query) {
	for _, n := range nodes {
		if !n.At || !strings.EqualFold(n.Name, "custom-media") || len(n.Prelude) == 0 {
			continue
		}
		q := media.ParseQuery(n.Prelude[1:])
		if q.Problem != "" {
			panic("generated custom media query is invalid: " + q.Problem)
		}
		defs[n.Prelude[0].Value] = q
	}
}

// reaches lists the custom media queries that q uses, directly or not.
func reaches(q *media.Query, defs map[string]*media.Query, seen map[string]bool) map[string]bool {
	q.Cond.Walk(func(x *media.Cond) {
		if x.Op == "custom" && defs[x.Name] != nil && !seen[x.Name] {
			seen[x.Name] = true
			reaches(defs[x.Name], defs, seen)
		}
	})
	return seen
}

// expanded describes what a query is after substitution, or that there's no way to write it.
type expanded struct {
	typed   bool // has a media type
	negated bool // starts with "not type"
	only    bool // starts with "only type"
	ok      bool
}

func expressible(q *media.Query, defs map[string]*media.Query, onlySet map[*media.Query]bool) expanded {
	e := expanded{typed: q.Type != "", negated: q.Not, only: onlySet[q], ok: true}
	if q.Cond == nil {
		return e
	}
	if q.Type == "" && q.Cond.Op == "custom" && defs[q.Cond.Name] != nil && !q.Cond.Parens {
		return expressible(defs[q.Cond.Name], defs, onlySet)
	}
	// How often custom queries with a type appear in the different places.
	var inside func(x *media.Cond, top bool)
	top, deep := []expanded{}, 0
	inside = func(x *media.Cond, isTop bool) {
		if x.Op == "custom" && defs[x.Name] != nil {
			d := expressible(defs[x.Name], defs, onlySet)
			if !d.ok {
				e.ok = false
			}
			if d.typed {
				if isTop && !x.Parens {
					top = append(top, d)
				} else {
					deep++
				}
			}
			return
		}
		for _, k := range x.Kids {
			inside(k, isTop && x.Op == "and" && !x.Parens)
		}
	}
	if q.Type == "" && q.Cond.Op == "not" && !q.Cond.Parens && q.Cond.Kids[0].Op == "custom" && !q.Cond.Kids[0].Parens {
		if def := defs[q.Cond.Kids[0].Name]; def != nil {
			d := expressible(def, defs, onlySet)
			if d.typed {
				d.ok = d.ok && !d.negated && !d.only
				d.negated = true
				return d
			}
		}
	}
	inside(q.Cond, true)
	switch {
	case deep > 0 || len(top) > 1:
		e.ok = false
	case len(top) == 1:
		e.ok = e.ok && q.Type == "" && !top[0].negated
		e.typed, e.only = true, top[0].only
	}
	return e
}

func init() {
	fw.Register(&fw.Check{
		ID: "C16", Level: "exploration", Quick: 270000, Thorough: 6750000,
		Rule:        "each case compiles a stylesheet (or several that are inlined) with definitions of custom media queries in random places, redefined, using each other, and uses in random positions of conditions, and evaluates every query of input and output in 60 environments, in which the input's custom media queries have their last definition; non-trivial with at least two uses of defined names, distinct by source",
		Assumptions: []string{commonAssumption, "media types are independent of each other", "queries that reach a cycle have no meaning and are not compared"},
		Run: func(c *fw.Ctx) {
			r := c.R
			g := mediaGen{G: gen.New(r), ranges: r.Intn(2) == 0}
			names := []string{"--m1", "--m2", "--m3", "--m4", "--m5"}
			if r.Intn(3) == 0 {
				// Names that can be taken for each other.
				names = []string{"--m1", "--M1", "---m1", "--m", "--m11"}
			}
			names = names[:1+r.Intn(5)]
			cycles := r.Intn(8) == 0
			style := gen.RandomStyle(r)
			define := func(g mediaGen) {
				i := r.Intn(len(names))
				g.custom = nil
				if cycles {
					g.custom = names
				} else if i > 0 {
					g.custom = names[:i]
				}
				g.At("@custom-media").Req().T(names[i]).Req()
				if len(g.custom) > 0 && r.Intn(5) == 0 {
					g.T("(").Opt().T(g.Pick(g.custom...)).Opt().T(")")
				} else if r.Intn(4) == 0 {
					if r.Intn(2) == 0 {
						g.T(g.Pick("not", "only")).Req()
					}
					g.T(g.Pick("print", "screen"))
				} else {
					g.query()
				}
				g.Opt().T(";").Opt()
			}
			part := func(n int) string {
				p := g
				p.G = gen.New(r)
				p.custom = append([]string{"--undefined"}, names...)
				p.Opt()
				for i := 0; i < n; i++ {
					if r.Intn(2) == 0 {
						define(p)
					} else {
						p.rules(1, 1)
						p.Opt()
					}
					if r.Intn(4) == 0 {
						p.At("@media").Req().T("(").Opt().T(p.Pick(names...)).Opt().T(")").Opt().T("{a{b:c}}").Opt()
					}
				}
				s, _ := gen.Render(p.P, noBOM(style))
				return s
			}
			opts := "m" + []string{"", "", "r", "a", "c", "rapc"}[r.Intn(6)]
			files := map[string]string{}
			var flat string
			if r.Intn(3) == 0 {
				// a imports b and c, b imports c.
				opts += "i"
				b, cc, a := part(1+r.Intn(3)), part(1+r.Intn(3)), part(1+r.Intn(4))
				files["b.css"] = "@import './c';\n" + b
				files["c.css"] = cc
				files["in.css"] = "@import './b';\n@import './c';\n" + a
				flat = cc + "\n" + b + "\n" + cc + "\n" + a
			} else {
				flat = part(2 + r.Intn(6))
				files["in.css"] = flat
			}
			out := drive.Compile(drive.Job{Files: files, Entries: []string{"in.css"}, Opts: opts})
			input := drive.Describe(files, nil, opts)
			text, ok := out.Files["in.css"]
			if !ok {
				c.Violate(input, "no output; errors: %s", quoteList(out.Errs))
				return
			}
			nodes, problems := css.Parse(text)
			if len(problems) > 0 {
				c.Violate(input, "output is not well-formed: %v\noutput: %s", problems, text)
				return
			}
			in := mustParse(flat)
			defs := map[string]*media.Query{}
			customDefs(in, defs)
			onlySet := map[*media.Query]bool{}
			for _, n := range in {
				if n.At && strings.EqualFold(n.Name, "custom-media") {
					q := defs[n.Prelude[0].Value]
					for _, t := range n.Prelude[1:] {
						if t.Kind == css.Whitespace {
							continue
						}
						// The last definition is the one in defs.
						onlySet[q] = t.Kind == css.Ident && strings.EqualFold(t.Value, "only")
						break
					}
				}
			}
			var rest []*css.Node
			for _, n := range in {
				if !(n.At && strings.EqualFold(n.Name, "custom-media")) {
					rest = append(rest, n)
				}
			}
			if d := css.Diff(css.Canon(rest, css.Options{NoMedia: true}), css.Canon(nodes, css.Options{NoMedia: true})); d != "" {
				c.Violate(input, "something else has changed: %s\noutput: %s", d, text)
				return
			}
			cyclic := map[string]bool{}
			for n, q := range defs {
				if reaches(q, defs, map[string]bool{})[n] {
					cyclic[n] = true
				}
			}
			was, is := mediaLists(rest), mediaLists(nodes)
			uses, excuses, left := 0, 0, 0
			for i := range was {
				if len(was[i]) != len(is[i]) {
					c.Violate(input, "%d queries became %d\noutput: %s", len(was[i]), len(is[i]), text)
					return
				}
				for k, w := range was[i] {
					q := is[i][k]
					if w.Problem != "" {
						panic(fmt.Sprintf("generated query is invalid: %s\n%q", w.Problem, flat))
					}
					if q.Problem != "" {
						c.Violate(input, "query %d of rule %d has become invalid: %s\noutput: %s", k, i, q.Problem, text)
						return
					}
					reach := reaches(w, defs, map[string]bool{})
					uses += len(reach)
					skip := false
					for n := range reach {
						skip = skip || cyclic[n]
					}
					if skip {
						c.Count("queries_with_cycles", 1)
						continue
					}
					excused := !expressible(w, defs, onlySet).ok
					if excused {
						excuses++
					}
					remains, ranges := "", ""
					q.Cond.Walk(func(x *media.Cond) {
						if x.Op == "custom" && defs[x.Name] != nil {
							remains = x.Name
						}
						if x.Range && strings.Contains(opts, "r") {
							ranges = x.Name
						}
					})
					if ranges != "" {
						c.Violate(input, "a range is left: %s\noutput: %s", ranges, text)
						return
					}
					if remains != "" {
						left++
						if !excused {
							c.Violate(input, "%s is left in query %d of rule %d\noutput: %s\nerrors: %s", remains, k, i, text, quoteList(out.Errs))
							return
						}
					}
					if d := compareQuery(c, w, q, defs); d != "" {
						c.Violate(input, "query %d of rule %d: %s\noutput: %s", k, i, d, text)
						return
					}
					c.Count("queries_compared", 1)
				}
			}
			if left > 0 && len(out.Errs) == 0 {
				c.Violate(input, "uses are left without an error\noutput: %s", text)
				return
			}
			if len(out.Errs) > 0 && excuses == 0 && len(cyclic) == 0 {
				c.Violate(input, "unexpected errors: %s", quoteList(out.Errs))
				return
			}
			c.Count("uses", uses)
			c.Count("left_with_error", left)
			c.State(fmt.Sprint(uses, len(defs), left))
			if uses >= 2 {
				c.Nontrivial(flat)
				c.Sample(flat)
			}
		},
	})
}
