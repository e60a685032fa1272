package checks

import (
	"fmt"
	"strings"

	"verif/harness/css"
	"verif/harness/drive"
	"verif/harness/fw"
	"verif/harness/gen"
)

// mixedSheet is any kind of stylesheet.
func mixedSheet(c *fw.Ctx, g *gen.G, odd bool) {
	varMath := !g.NoPlusMinusMath
	switch c.R.Intn(3) {
	case 0:
		g.Sheet(gen.SheetOptions{Selectors: true, Values: true, AtRules: true, Min: 1, Max: 5, Depth: 2})
	case 1:
		o := gen.AllRich()
		o.Odd, o.NoVarMath = odd, !varMath
		g.Rich(o)
	default:
		o := gen.AllRich()
		o.Odd, o.NoVarMath = odd, !varMath
		o.Max = 3
		g.Rich(o)
		g.Opt()
		g.Sheet(gen.SheetOptions{Selectors: true, Values: true, Min: 1, Max: 3})
	}
}

// messages are the texts of the errors, without positions.
func messages(errs []string) []string {
	var out []string
	for _, e := range errs {
		out = append(out, message(e))
	}
	return out
}

func countStrings(s []string) map[string]int {
	m := map[string]int{}
	for _, x := range s {
		m[x]++
	}
	return m
}

// sameMultiset describes a difference between two lists, ignoring order.
func sameMultiset(a, b []string) string {
	ca, cb := countStrings(a), countStrings(b)
	for k, n := range ca {
		if cb[k] != n {
			return fmt.Sprintf("%q: %d times vs. %d times", k, n, cb[k])
		}
	}
	for k, n := range cb {
		if ca[k] != n {
			return fmt.Sprintf("%q: %d times vs. %d times", k, ca[k], n)
		}
	}
	return ""
}

// faults are inserted into a stylesheet to make it invalid; formatting must not change the report.
var faults = []string{"}", "a{b:c", "a{b:\"x", ".{}", "a[=]{}", "a:not({}", "@media (", "a{b:f(}", "a{b:url(x"}

func init() {
	fw.Register(&fw.Check{
		ID: "C06", Level: "exploration", Quick: 280000, Thorough: 7000000,
		Rule:        "each case renders one random token sequence (every construct the generators know, sometimes with an imported stylesheet or a fault) in two random formattings (whitespace, comments, LF/CRLF/CR/FF, BOM, quotes, last semicolon) and compiles both under the same random options; non-trivial if the sources differ and there is an output; distinct by both sources",
		Assumptions: []string{commonAssumption, "outputs are equivalent if their canonical forms are equal, errors if their messages are (positions differ)"},
		Run: func(c *fw.Ctx) {
			r := c.R
			g := gen.New(r)
			mixedSheet(c, g, r.Intn(2) == 0)
			if r.Intn(12) == 0 {
				g.T("\n").T(faults[r.Intn(len(faults))])
			}
			pieces := g.P
			var imported []gen.Piece
			if r.Intn(4) == 0 {
				h := gen.New(r)
				mixedSheet(c, h, true)
				imported = h.P
				imp := gen.New(r)
				imp.Import("./x.css")
				pieces = append(append([]gen.Piece{}, imp.P...), pieces...)
			}
			opts := randomOpts(r)
			run := func() (map[string]string, *drive.Out) {
				files := map[string]string{}
				files["in.css"], _ = gen.Render(pieces, gen.RandomStyle(r))
				if imported != nil {
					files["x.css"], _ = gen.Render(imported, gen.RandomStyle(r))
				}
				return files, drive.Compile(drive.Job{Files: files, Entries: []string{"in.css"}, Opts: opts})
			}
			fa, a := run()
			fb, b := run()
			input := drive.Describe(fa, []string{"in.css"}, opts) + "------ second formatting\n" + drive.Describe(fb, []string{"in.css"}, opts)
			if d := sameMultiset(messages(a.Errs), messages(b.Errs)); d != "" {
				c.Violate(input, "errors differ: %s", d)
				return
			}
			if ka, kb := strings.Join(keys(a.Files), " "), strings.Join(keys(b.Files), " "); ka != kb {
				c.Violate(input, "outputs differ: %s vs. %s (%v)", ka, kb, a.Errs)
				return
			}
			for name := range a.Files {
				na, pa := css.Parse(a.Files[name])
				nb, pb := css.Parse(b.Files[name])
				if len(pa)+len(pb) > 0 {
					c.Violate(input, "output of %s isn't well-formed: %v %v\n%s\n---\n%s", name, pa, pb, a.Files[name], b.Files[name])
					return
				}
				o := css.Options{}
				if d := css.Diff(css.Canon(na, o), css.Canon(nb, o)); d != "" {
					c.Violate(input, "output of %s differs: %s\n%s\n---\n%s", name, d, a.Files[name], b.Files[name])
					return
				}
			}
			c.Count("outputs_compared", len(a.Files))
			c.Count("errors_compared", len(a.Errs))
			c.State(opts)
			if fa["in.css"] != fb["in.css"] && len(a.Files) > 0 {
				c.Nontrivial(input)
				c.Sample(input)
			}
		},
	})

	fw.Register(&fw.Check{
		ID: "C07", Level: "exploration", Quick: 144000, Thorough: 3600000,
		Rule:        "each case compiles a random set of 1-3 stylesheets (imports, every construct the generators know, without sums or var() in math functions) three times under random options, and then each output without transforms; non-trivial if there is an output with at least two rules; distinct by source",
		Assumptions: []string{"sums in math functions lose their whitespace (known finding), so they are left out of recompiled stylesheets", "a list that is substituted into a math function leaves invalid math, which is left out, too"},
		RunKnown: func(c *fw.Ctx, f fw.Finding) {
			out, _, _ := oneFile(f)
			again, errs, _ := drive.One(out, "")
			if again != out || len(errs) > 0 {
				c.Violate(out, "output isn't a fixed point: %q, then %q %v", out, again, errs)
			}
		},
		Run: func(c *fw.Ctx) {
			r := c.R
			files := map[string]string{}
			var entries []string
			n := 1 + r.Intn(3)
			sums := r.Intn(4) == 0 // then only determinism is checked
			for i := 0; i < n; i++ {
				g := gen.New(r)
				g.NoPlusMinusMath = !sums
				for j := 0; j < n; j++ {
					if j != i && r.Intn(2) == 0 {
						g.Import(fmt.Sprintf("./f%d.css", j))
						g.Opt()
					}
				}
				mixedSheet(c, g, r.Intn(4) == 0)
				name := fmt.Sprintf("f%d.css", i)
				files[name], _ = gen.Render(g.P, gen.RandomStyle(r))
				if i == 0 || r.Intn(2) == 0 {
					entries = append(entries, name)
				}
			}
			opts := randomOpts(r)
			input := drive.Describe(files, entries, opts)
			dir := drive.TempDir()
			defer removeAll(dir)
			drive.Write(dir, files)
			first := drive.CompileIn(dir, drive.Job{Entries: entries, Opts: opts})
			for i := 0; i < 2; i++ {
				r.Shuffle(len(entries), func(i, j int) { entries[i], entries[j] = entries[j], entries[i] })
				again := drive.CompileIn(dir, drive.Job{Entries: entries, Opts: opts})
				if d := diffMaps(first.Raw, again.Raw); d != "" {
					c.Violate(input, "repeated compilation differs: %s", d)
					return
				}
				if d := sameMultiset(stacksOff(first.Errs), stacksOff(again.Errs)); d != "" {
					c.Violate(input, "repeated compilation has different errors: %s", d)
					return
				}
			}
			rules := 0
			for name, out := range first.Files {
				rules += strings.Count(out, "{")
				c.State(fw.Hash(out))
				if sums {
					continue
				}
				again := drive.Compile(drive.Job{Files: map[string]string{"in.css": out}, Entries: []string{"in.css"}, Resolver: anyResolver{}})
				if len(again.Errs) > 0 {
					c.Violate(input, "output of %s isn't accepted: %s\noutput: %s", name, again.Errs[0], out)
					return
				}
				if again.Files["in.css"] != out {
					c.Violate(input, "output of %s isn't a fixed point: %s", name, firstDiff(out, again.Files["in.css"]))
					return
				}
				c.Count("fixed_points", 1)
			}
			c.Count("outputs", len(first.Files))
			if rules >= 2 {
				c.Nontrivial(input)
				c.Sample(input)
			}
		},
	})
}
