package checks

import (
	"fmt"
	"math"
	"strings"

	"verif/harness/css"
	"verif/harness/drive"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/media"
)

// mediaLists returns all media query lists: those of @media rules and of imports, at any depth.
func mediaLists(nodes []*css.Node) [][]*media.Query {
	var out [][]*media.Query
	var visit func(n *css.Node)
	visit = func(n *css.Node) {
		switch lower := strings.ToLower(n.Name); {
		case n.At && lower == "media":
			out = append(out, media.Parse(n.Prelude))
		case n.At && lower == "import" && len(n.Prelude) > 0:
			rest := n.Prelude[1:]
			if n.Prelude[0].Kind == css.Function {
				for i := range n.Prelude {
					if n.Prelude[i].Kind == css.RParen {
						rest = n.Prelude[i+1:]
						break
					}
				}
			}
			out = append(out, media.Parse(rest))
		}
		for _, it := range n.Items {
			if it.Node != nil {
				visit(it.Node)
			}
		}
	}
	for _, n := range nodes {
		visit(n)
	}
	return out
}

// mediaGen generates media queries.
type mediaGen struct {
	*gen.G
	ranges bool
	odd    bool     // bounds that aren't numbers
	mixed  bool     // a < b <= c, which need not be supported
	custom []string // names to use
}

func (g mediaGen) num() string {
	n := g.Pick("0", "1", "2", "100", "100.5", ".5", "+3", "-4", "-.25", "1e2", "0.001", "640", "640.001", "99999", "1E+3", "5e-3", "0.0005", "300.0010", "1000000", "-0", "0012.50")
	if g.Chance(.3) {
		n = fmt.Sprintf("%d.%d", g.R.Intn(2000), g.R.Intn(1000))
	}
	return n
}

func (g mediaGen) bound() {
	if g.odd && g.Chance(.15) {
		g.T(g.Pick("calc(1px * 2)", "1e400px", "env(x)", "calc(1px*(2/3))"))
		return
	}
	g.T(g.num() + g.Pick("px", "px", "px", "em", "", "dppx", "PX"))
}

func (g mediaGen) feature() {
	g.T("(").Opt()
	name := g.Pick("width", "width", "height", "resolution", "Width", "-webkit-device-pixel-ratio", "-Webkit-device-pixel-ratio", "device-width")
	if g.Chance(.06) {
		name = g.Near("width", "height", "device-width", "color")
	}
	integers := g.Chance(.12)
	if integers {
		name = g.Pick("color", "color-index", "monochrome", "Color", "horizontal-viewport-segments")
	}
	bound := func() {
		if integers {
			g.T(g.Pick("0", "1", "2", "8", "16", "256", "+4", "-1", "00", "007", "24"))
			return
		}
		g.bound()
	}
	switch k := g.R.Intn(10); {
	case k < 3 && len(g.custom) > 0:
		g.T(g.Pick(g.custom...))
	case k < 5 && g.ranges:
		g.T(name).Opt().T(g.Pick("<", "<=", ">", ">=")).Opt()
		bound()
	case k < 6 && g.ranges:
		bound()
		g.Opt().T(g.Pick("<", "<=", ">", ">=")).Opt().T(name)
	case k < 8 && g.ranges:
		op := g.Pick("<", "<=", ">", ">=")
		bound()
		g.Opt().T(op).Opt().T(name).Opt()
		if g.mixed && g.Chance(.5) {
			op = map[string]string{"<": "<=", "<=": "<", ">": ">=", ">=": ">"}[op]
		}
		g.T(op).Opt()
		bound()
	case k < 9:
		g.T(g.Pick("color", "hover", "grid", "--undefined"))
	default:
		if integers || strings.HasPrefix(name, "-") {
			name = "height"
		}
		name = g.Pick("min-", "max-", "") + name
		if len(g.custom) > 0 && g.Chance(.2) {
			// This is a feature that does not exist.
			name = g.Pick(g.custom...)
		}
		g.T(name).Opt().T(":").Opt().T(g.num() + "px")
	}
	g.Opt().T(")")
}

func (g mediaGen) inParens(depth int) {
	if n := g.Deep(); n > 0 && depth > 0 {
		g.Nest(n, func() {
			g.T("(")
			switch g.R.Intn(4) {
			case 0:
				g.Opt().T("not").Req()
			case 1:
				g.Opt()
				g.feature()
				g.Req().T(g.Pick("and", "or")).Req()
			}
		}, func() { g.feature() })
		return
	}
	if depth > 0 && g.Chance(.25) {
		g.T("(").Opt()
		g.condition(depth-1, true)
		g.Opt().T(")")
		return
	}
	g.feature()
}

func (g mediaGen) condition(depth int, or bool) {
	if g.Chance(.18) {
		g.T(g.Pick("not", "not", "NOT")).Req()
		g.inParens(depth)
		return
	}
	op := g.Pick("and", "and", "AND")
	if or && g.Chance(.5) {
		op = g.Pick("or", "or", "OR")
	}
	for i, n := 0, 1+g.R.Intn(3)+g.Many(); i < n; i++ {
		if i > 0 {
			g.Req().T(op).Req()
		}
		g.inParens(depth)
	}
}

func (g mediaGen) query() {
	if g.Chance(.35) {
		if g.Chance(.35) {
			g.T(g.Pick("not", "only", "Not")).Req()
		}
		g.T(g.Pick("screen", "print", "all", "Print"))
		if g.Chance(.7) {
			g.Req().T(g.Pick("and", "And")).Req()
			g.condition(1, false)
		}
		return
	}
	g.condition(2, true)
}

func (g mediaGen) list() {
	g.query()
	more := g.Many()
	for g.Chance(.3) || more > 0 {
		more--
		g.Opt().T(",").Opt()
		g.query()
	}
}

// rules adds rules, some of them in media rules.
func (g mediaGen) rules(depth, n int) {
	for i := 0; i < n; i++ {
		switch k := g.R.Intn(8); {
		case k < 5:
			g.At("@media").Req()
			g.list()
			g.Opt().T("{").Opt()
			if depth > 0 {
				g.rules(depth-1, g.R.Intn(3))
			} else {
				g.T("a{b:c}")
			}
			g.T("}")
		case k < 6 && depth > 0:
			g.T(g.Pick("@supports (width > 1px)", "@layer x", "@container (width >= 5px)")).Opt().T("{").Opt()
			g.rules(depth-1, 1+g.R.Intn(2))
			g.T("}")
		case k < 7:
			g.T("a{content:").Opt().Str("(width > 1px) and (--m1)").T(";--x:").Opt().T("(1px < width)").T("}")
		default:
			g.Tf(".r%d{p:q}", g.Fresh())
		}
		g.Opt()
	}
}

// anyWith is whether some condition in q is as f says.
func anyWith(q *media.Query, f func(*media.Cond) bool) bool {
	found := false
	q.Cond.Walk(func(c *media.Cond) { found = found || f(c) })
	return found
}

// compareQuery evaluates both queries in many environments. defs are the custom media queries that are in force.
func compareQuery(c *fw.Ctx, was, is *media.Query, defs map[string]*media.Query) string {
	// The bounds decide which values are interesting.
	type info struct{ all, strict []float64 }
	vars := map[string]*info{}
	seen := map[string]bool{}
	var collect func(q *media.Query)
	collect = func(q *media.Query) {
		q.Cond.Walk(func(x *media.Cond) {
			for _, b := range x.Bounds {
				k := b.Key(x.Feature)
				if vars[k] == nil {
					vars[k] = &info{}
				}
				vars[k].all = append(vars[k].all, b.Val)
				if b.Cmp == "<" || b.Cmp == ">" {
					vars[k].strict = append(vars[k].strict, b.Val)
				}
			}
			if x.Op == "custom" && defs[x.Name] != nil && !seen[x.Name] {
				seen[x.Name] = true
				collect(defs[x.Name])
			}
		})
	}
	collect(was)
	r := c.R
	var keys []string
	for k := range vars {
		keys = append(keys, k)
	}
	truths := [2]int{}
	for n := 0; n < 60; n++ {
		env := &media.Env{Salt: fmt.Sprint(r.Int63()), Values: map[string]float64{}, Defs: defs}
		for _, k := range keys {
			in := vars[k]
			for try := 0; ; try++ {
				b := in.all[r.Intn(len(in.all))]
				if media.TakesIntegers(strings.Fields(k)[0]) {
					env.Values[k] = math.Round(b) + []float64{0, 0, 1, -1, 2, -2, 7, -300}[r.Intn(8)]
					break
				}
				v := b + []float64{0, 0, 0, .00101, -.00101, .002, -.002, .5, -.5, 1, -1, 50, -50, 1e6, -1e6}[r.Intn(15)]
				ok := true
				for _, s := range in.strict {
					if d := math.Abs(v - s); d != 0 && d < .001005 {
						ok = false
					}
				}
				if ok || try > 40 {
					env.Values[k] = v
					if !ok {
						env.Values[k] = 3e6
					}
					break
				}
			}
		}
		a, b := env.Query(was), env.Query(is)
		c.Count("evaluations_of_queries", 1)
		if a {
			truths[1]++
		} else {
			truths[0]++
		}
		if a != b {
			return fmt.Sprintf("the query is %v, but was %v at %v", b, a, env.Values)
		}
	}
	if truths[0] > 0 && truths[1] > 0 {
		c.Count("queries_both_ways", 1)
	}
	return ""
}

func hasRange(c *media.Cond) bool { return c.Range }

// stuck is whether a range can't be converted.
func stuck(c *media.Cond) bool {
	for _, b := range c.Bounds {
		if c.Range && b.Unit == "?" && len(b.Cmp) == 1 {
			return true
		}
	}
	return false
}

// mixesOperators is whether some range has two different operators.
func mixesOperators(src string) bool {
	found := false
	for _, l := range mediaLists(mustParse(src)) {
		for _, q := range l {
			q.Cond.Walk(func(x *media.Cond) {
				found = found || x.Range && len(x.Bounds) == 2 && len(x.Bounds[0].Cmp) != len(x.Bounds[1].Cmp)
			})
		}
	}
	return found
}

func init() {
	fw.Register(&fw.Check{
		ID: "C15", Level: "exploration", Quick: 240000, Thorough: 6000000,
		Rule:        "each case compiles a stylesheet with random media queries (one- and two-sided ranges in either direction, nested conditions, types, lists, nested rules, imports that stay) and evaluates every query of input and output in 60 environments that include the bounds, values next to them and values far away; non-trivial with at least two ranges, distinct by source",
		Assumptions: []string{commonAssumption, "features of different units are independent", "values at a strict bound or more than .001 from it are compared"},
		Run: func(c *fw.Ctx) {
			r := c.R
			g := mediaGen{G: gen.New(r), ranges: true, odd: r.Intn(5) == 0, mixed: r.Intn(15) == 0}
			files := map[string]string{}
			opts := "r"
			for k := 0; k < 2; k++ {
				g.Opt()
				if r.Intn(4) == 0 {
					// This one can't be resolved, so it stays.
					g.At("@import").Req().T(g.Pick("url(nope.css)", "'nope'", "url( \"nope\" )")).Req()
					g.list()
					g.Opt().T(";").Opt()
				}
			}
			g.rules(2, 1+r.Intn(4))
			src, _ := gen.Render(g.P, gen.RandomStyle(r))
			if r.Intn(5) == 0 && !strings.Contains(src, "nope") {
				files["x.css"] = src
				files["in.css"] = "@import './x';"
				opts += "i"
			} else {
				files["in.css"] = src
			}
			opts += []string{"", "", "m", "a", "p", "c", "mapc"}[r.Intn(7)]
			out := drive.Compile(drive.Job{Files: files, Entries: []string{"in.css"}, Opts: opts, Resolver: nil})
			input := src + "\noptions " + opts
			text, ok := out.Files["in.css"]
			if g.mixed && (!ok || files["x.css"] != "" && strings.HasPrefix(text, "@import")) && len(out.Errs) > 0 && mixesOperators(src) {
				// Refused, which is fine. Anything that is accepted has to mean the same.
				c.Count("mixed_operators_refused", 1)
				return
			}
			if !ok {
				c.Violate(input, "no output; errors: %s", quoteList(out.Errs))
				return
			}
			nodes, problems := css.Parse(text)
			if len(problems) > 0 {
				c.Violate(input, "output is not well-formed: %v\noutput: %s", problems, text)
				return
			}
			in := mustParse(src)
			if d := css.Diff(css.Canon(in, css.Options{NoMedia: true}), css.Canon(nodes, css.Options{NoMedia: true})); d != "" {
				c.Violate(input, "something else has changed: %s\noutput: %s", d, text)
				return
			}
			was, is := mediaLists(in), mediaLists(nodes)
			ranges, left, expectErrs := 0, 0, 0
			for i := range was {
				if len(was[i]) != len(is[i]) {
					c.Violate(input, "%d queries became %d\noutput: %s", len(was[i]), len(is[i]), text)
					return
				}
				for k, w := range was[i] {
					q := is[i][k]
					if w.Problem != "" {
						panic(fmt.Sprintf("generated query is invalid: %s\n%q", w.Problem, src))
					}
					if q.Problem != "" {
						c.Violate(input, "query %d of rule %d has become invalid: %s\noutput: %s", k, i, q.Problem, text)
						return
					}
					w.Cond.Walk(func(x *media.Cond) {
						if x.Range {
							ranges++
						}
						if stuck(x) {
							expectErrs++
						}
					})
					bad := ""
					q.Cond.Walk(func(x *media.Cond) {
						if x.Range && !stuck(x) {
							bad = x.Name
						} else if x.Range {
							left++
						}
					})
					if bad != "" {
						c.Violate(input, "a range is left: %s\noutput: %s", bad, text)
						return
					}
					if d := compareQuery(c, w, q, nil); d != "" {
						c.Violate(input, "query %d of rule %d: %s\noutput: %s", k, i, d, text)
						return
					}
				}
			}
			problemsReported := 0
			for _, e := range out.Errs {
				if isUnlocated(e) && strings.Contains(e, "nope") {
					continue
				}
				problemsReported++
			}
			if (problemsReported > 0) != (expectErrs > 0) || expectErrs != left {
				c.Violate(input, "%d ranges with bounds that are no numbers, %d left, errors: %s\noutput: %s", expectErrs, left, quoteList(out.Errs), text)
				return
			}
			c.Count("ranges", ranges)
			c.Count("not_convertible", left)
			c.State(fmt.Sprint(ranges, len(was)))
			if ranges >= 2 {
				c.Nontrivial(src)
				c.Sample(src)
			}
		},
	})
}
