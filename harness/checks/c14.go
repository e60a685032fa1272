package checks

import (
	"fmt"
	"strings"

	"verif/harness/css"
	"verif/harness/dom"
	"verif/harness/drive"
	"verif/harness/fw"
	"verif/harness/gen"
)

// styleRules lists the style rules of a stylesheet, at any depth.
func styleRules(nodes []*css.Node) []*css.Node {
	var out []*css.Node
	var visit func(n *css.Node, keyframes bool)
	visit = func(n *css.Node, keyframes bool) {
		if !n.At && !keyframes {
			out = append(out, n)
		}
		for _, it := range n.Items {
			if it.Node != nil {
				visit(it.Node, n.At && strings.HasSuffix(strings.ToLower(n.Name), "keyframes"))
			}
		}
	}
	for _, n := range nodes {
		visit(n, false)
	}
	return out
}

func init() {
	fw.Register(&fw.Check{
		ID: "C14", Level: "exploration", Quick: 96000, Thorough: 2400000,
		Rule:        "each case compiles a stylesheet with many :any-link (in compounds, arguments, pseudo-elements, nested at-rules, sometimes inlined) and evaluates all selectors of input and output on random documents, where simple selectors are arbitrary predicates; non-trivial if there is :any-link in at least two selectors and a rule matches some but not all elements; distinct by source",
		Assumptions: []string{commonAssumption, "unknown functional pseudo-classes match if one of their arguments matches some element"},
		Run: func(c *fw.Ctx) {
			r := c.R
			g := gen.New(r)
			g.AnyLink = []float64{.15, .4, .6, .9}[r.Intn(4)]
			if r.Intn(12) == 0 {
				// Too many for the compiler, or close to that.
				for i, n := 0, 8+r.Intn(6); i < n; i++ {
					g.T("a:any-link").Opt().T(g.Pick(">", "+", "~")).Opt()
				}
				g.T("b{c:d}")
				g.Opt()
			}
			for i, n := 0, 1+r.Intn(4)+g.Many(); i < n; i++ {
				if r.Intn(4) == 0 {
					g.AtRule(gen.SheetOptions{Selectors: true, AtRules: true}, 2, true)
				} else {
					g.SelectorList(2)
					g.Opt().T("{").Opt()
					switch r.Intn(4) {
					case 0:
						g.T("content:").Opt().Str(":any-link")
					case 1:
						g.T("--x:").Opt().T("a:any-link")
					default:
						g.T("p").Opt().T(":").Opt().Tf("%d", g.Fresh())
					}
					g.Opt().T("}")
				}
				g.Opt()
			}
			src, _ := gen.Render(g.P, gen.RandomStyle(r))
			job := drive.Job{Files: map[string]string{"in.css": src}, Entries: []string{"in.css"}, Opts: "a"}
			if r.Intn(5) == 0 {
				job.Files = map[string]string{"x.css": src, "in.css": "@import './x';"}
				job.Opts = "ai"
			}
			for _, o := range "rmc" {
				// These have nothing to do here (ranges would change the media rules).
				if r.Intn(3) == 0 && o != 'r' {
					job.Opts += string(o)
				}
			}
			if strings.Contains(src, "calc") || strings.Contains(src, "--custom") {
				job.Opts = strings.Trim(job.Opts, "cm")
			}
			out := drive.Compile(job)
			text, ok := out.Files["in.css"]
			input := src + "\noptions " + job.Opts
			if !ok {
				c.Violate(input, "no output; errors: %s", quoteList(out.Errs))
				return
			}
			nodes, problems := css.Parse(text)
			if len(problems) > 0 {
				c.Violate(input, "output is not well-formed: %v\noutput: %s", problems, text)
				return
			}
			in := mustParse(src)
			if d := css.Diff(css.Canon(in, css.Options{NoSelectors: true}), css.Canon(nodes, css.Options{NoSelectors: true})); d != "" {
				c.Violate(input, "something else has changed: %s\noutput: %s", d, text)
				return
			}
			var before []*css.Node
			for _, n := range styleRules(in) {
				if len(n.Items) > 0 { // others are dropped
					before = append(before, n)
				}
			}
			after := styleRules(nodes)
			if len(before) != len(after) {
				c.Violate(input, "%d style rules became %d\noutput: %s", len(before), len(after), text)
				return
			}
			tooMany := 0
			for _, e := range out.Errs {
				if !strings.Contains(e, "too many") {
					c.Violate(input, "unexpected error: %s", e)
					return
				}
				tooMany++
			}
			var docs []*dom.Doc
			for i := 0; i < 4; i++ {
				docs = append(docs, dom.New(r, 4+r.Intn(12)))
			}
			uses, some, huge := 0, false, false
			for i := range before {
				was, is := dom.Parse(before[i].Prelude), dom.Parse(after[i].Prelude)
				excused := false
				for _, s := range was {
					if s.AnyLinks > 0 {
						uses++
					}
					// More than 1024 alternatives, together with the selectors nested in each of them.
					if s.AnyLinks > 10 || 1<<s.AnyLinks*(1+strings.Count(s.Canon, "(")) > 1024 {
						excused, huge = true, true
						c.Count("huge_selectors", 1)
					}
				}
				excused = excused && tooMany > 0
				// The others stay as they are, in order.
				k := 0
				for _, s := range was {
					if s.AnyLinks > 0 {
						continue
					}
					for k < len(is) && is[k].Canon != s.Canon {
						k++
					}
					if k == len(is) {
						c.Violate(input, "selector %s has changed or moved\noutput: %s", s.Canon, text)
						return
					}
					k++
				}
				for _, s := range is {
					if s.AnyLinks > 0 && !excused {
						c.Violate(input, ":any-link remains in %s\noutput: %s", s.Canon, text)
						return
					}
				}
				for _, d := range docs {
					a, b := d.Match(was), d.Match(is)
					if strings.Join(a, " ") != strings.Join(b, " ") {
						c.Violate(input, "rule %d matches other elements: %v instead of %v of %+v\noutput: %s", i, b, a, *d, text)
						return
					}
					c.Count("selector_lists_evaluated", 1)
					if len(a) > 0 {
						c.Count("with_matches", 1)
						some = some || len(a) < d.Size()
					}
				}
			}
			if tooMany > 0 && !huge {
				c.Violate(input, "unexpected error: %s", out.Errs[0])
				return
			}
			if tooMany > 0 {
				c.Count("too_many", 1)
			}
			c.Count("uses", uses)
			c.State(fmt.Sprint(uses, len(before)))
			if uses >= 2 && some {
				c.Nontrivial(src)
				c.Sample(src)
			}
		},
	})
}
