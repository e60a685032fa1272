package checks

import (
	"fmt"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/css"
	"verif/harness/drive"
	"verif/harness/fw"
	"verif/harness/gen"
)

// importsOf lists the imports of a stylesheet canonically.
func importsOf(s string) ([]string, []string) {
	nodes, problems := css.Parse(strings.TrimPrefix(s, "\uFEFF"))
	var out []string
	for _, n := range nodes {
		if n.At && strings.EqualFold(n.Name, "import") {
			out = append(out, css.CanonImport(n.Prelude))
		}
	}
	return out, problems
}

func graphBody(c *fw.Ctx, odd bool) func(int) string {
	return func(n int) string {
		g := gen.New(c.R)
		o := gen.AllRich()
		o.Odd = odd
		o.Max = 4
		o.NoVarMath = true
		g.Rich(o)
		if c.R.Intn(3) == 0 {
			// Everything else in stylesheets.
			g.Sheet(gen.SheetOptions{Selectors: true, Values: true, AtRules: true, Min: 1, Max: 3, Depth: 1})
		}
		g.T("\n").Tf(".file%d{order:%d}", n, n)
		s, _ := gen.Render(g.P, noBOM(gen.RandomStyle(c.R)))
		return s
	}
}

func toSet(s []string) []string {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func init() {
	fw.Register(&fw.Check{
		ID: "C09", Level: "exploration", Quick: 105000, Thorough: 2625000,
		Rule:        "each case is a random import graph of 1-6 files in several directories (same base names, diamonds, repeated imports, cycles, missing and unparsable targets, every way to write a path) that is inlined under random transforms; the reference is the concatenation of the files by a model of the import rules, compared as text without transforms and compiled as one file with them; non-trivial if at least one file is inlined; distinct by content",
		Assumptions: []string{commonAssumption, "with transforms, what the concatenation compiles to as one file is the reference (decided by C14-C18)", "import conditions don't restrict what is inlined, which cssc warns about"},
		Run: func(c *fw.Ctx) {
			r := c.R
			g := randomGraph(c, 6, []float64{0, 0, .2, .7}[r.Intn(4)], graphBody(c, r.Intn(4) == 0))
			if r.Intn(5) == 0 {
				g.addConditions(c)
			}
			opts := strings.TrimRight(randomOpts(r), "if")
			if r.Intn(3) == 0 {
				opts = ""
			}
			var entries []string
			var indices []int
			for i := range g.files {
				if i == 0 || r.Intn(4) == 0 {
					indices = append(indices, i)
					entries = append(entries, g.files[i].name)
				}
			}
			flats := map[string]*flat{}
			total := 0
			conds := map[string]bool{}
			for _, i := range indices {
				f := &flat{limit: 150}
				var b strings.Builder
				g.flatten(i, nil, f, &b)
				if f.files > f.limit || b.Len() > 1<<20 {
					c.Count("too_big", 1)
					return
				}
				f.text = b.String()
				flats[g.files[i].name] = f
				total += f.files
				for k := range f.conds {
					conds[k] = true
				}
			}
			input := g.input(entries, opts+"i")
			c.Trying(input)
			out := drive.Compile(drive.Job{Files: g.contents(), Entries: entries, Opts: opts + "i"})
			if out.Truncated {
				c.Count("too_big", 1)
				return
			}
			var bad []string
			var wantMsgs []string
			for name, f := range flats {
				bad = append(bad, f.bad...)
				actual, ok := out.Files[name]
				if !ok {
					c.Violate(input, "no output for %s: %v", name, out.Errs)
					return
				}
				got, problems := css.Parse(actual)
				if len(problems) > 0 {
					c.Violate(input, "output of %s isn't well-formed: %v\n%s", name, problems, actual)
					return
				}
				ref := drive.Compile(drive.Job{Files: map[string]string{"flat.css": f.text}, Entries: []string{"flat.css"}, Opts: opts, Resolver: stubResolver{}})
				if ref.Truncated {
					c.Count("too_big", 1)
					return
				}
				for _, e := range ref.Errs {
					if !strings.Contains(e, errStub.Error()) {
						wantMsgs = append(wantMsgs, message(e))
					}
				}
				var want []*css.Node
				if opts == "" {
					want = withoutCustomMedia(mustParse(f.text))
					c.Count("compared_with_text", 1)
				} else {
					refOut, ok := ref.Files["flat.css"]
					if !ok {
						c.Violate(input, "the concatenation for %s doesn't compile: %v\n%s", name, ref.Errs, f.text)
						return
					}
					want, problems = css.Parse(refOut)
					if len(problems) > 0 {
						c.Violate(input, "output of the concatenation for %s isn't well-formed: %v\n%s", name, problems, refOut)
						return
					}
					c.Count("compared_with_compilation", 1)
				}
				if d := css.Diff(css.Canon(want, css.Options{}), css.Canon(got, css.Options{})); d != "" {
					c.Violate(input, "inlined output of %s differs: %s\noutput: %s", name, d, actual)
					return
				}
			}
			for k := range out.Files {
				if flats[k] == nil {
					c.Violate(input, "unexpected output %s", k)
					return
				}
			}
			// Every import that stays has to be reported, and nothing else may be.
			bad = toSet(bad)
			mentioned := map[string]bool{}
			var gotMsgs []string
			warned := map[string]bool{}
			for _, e := range out.Errs {
				fault := false
				if strings.Contains(e, "@import transform does not yet support") {
					if loc := locationRE.FindStringSubmatch(e); loc != nil {
						warned[loc[1]+":"+loc[2]+":"+loc[3]] = true
						continue
					}
				}
				for _, b := range bad {
					if isUnlocated(e) && strings.Contains(e, b) || !isUnlocated(e) && path.Base(errorPath(e)) == b && !isGraphFile(g, b) {
						mentioned[b] = true
						fault = true
					}
				}
				if !fault {
					gotMsgs = append(gotMsgs, message(e))
				}
			}
			for _, b := range bad {
				if !mentioned[b] {
					c.Violate(input, "no error for the import of %s, which can't be inlined: %v", b, out.Errs)
					return
				}
			}
			if len(warned) != len(conds) {
				c.Violate(input, "%d imports with conditions are inlined, but %d reported: %v", len(conds), len(warned), out.Errs)
				return
			}
			c.Count("conditions_reported", len(warned))
			if w, m := strings.Join(toSet(wantMsgs), "\n"), strings.Join(toSet(gotMsgs), "\n"); w != m {
				c.Violate(input, "messages differ:\n%s\n--- expected:\n%s", m, w)
				return
			}
			c.Count("files_inlined", total-len(flats))
			c.Count("imports_left", len(bad))
			c.State(fmt.Sprintf("files %d bad %d", total, len(bad)))
			if total > len(flats) {
				c.Nontrivial(input)
				c.Sample(input)
			}
		},
	})

	fw.Register(&fw.Check{
		ID: "C10", Level: "exploration", Quick: 100000, Thorough: 2500000,
		Rule:        "each case is a random import graph (as in C09) that is compiled with followed imports and with imports passed through; the reference for the set of outputs is reachability in the model, for each output the compilation of that file alone, for import rules the source; non-trivial if a file is reached by an import; distinct by content",
		Assumptions: []string{commonAssumption},
		Run: func(c *fw.Ctx) {
			r := c.R
			g := randomGraph(c, 8, []float64{0, .2, .7, 1}[r.Intn(4)], graphBody(c, r.Intn(4) == 0))
			if r.Intn(2) == 0 {
				// An import with conditions is also followed and kept.
				i := r.Intn(len(g.files))
				f := &g.files[i]
				t := r.Intn(len(g.files))
				dir := path.Dir(f.name)
				if dir == "." {
					dir = ""
				}
				spec := specFor(c, g, dir, g.files[t].name)
				f.edges = append(f.edges, edge{spec: spec, target: t, text: fmt.Sprintf("@import \"%s\" %s;", spec, []string{"screen", "screen and (color), print", "(min-width:1px)"}[r.Intn(3)])})
			}
			opts := strings.TrimRight(randomOpts(r), "if")
			var entries []string
			var indices []int
			for i := range g.files {
				if i == 0 || r.Intn(5) == 0 {
					indices = append(indices, i)
					entries = append(entries, g.files[i].name)
				}
			}
			dir := drive.TempDir()
			defer removeAll(dir)
			contents := g.contents()
			drive.Write(dir, contents)
			for _, follow := range []bool{true, false} {
				o := opts
				expected := map[int]bool{}
				if follow {
					o += "f"
					expected = g.reachable(indices)
				} else {
					for _, i := range indices {
						expected[i] = true
					}
				}
				input := g.input(entries, o)
				c.Trying(input)
				out := drive.CompileIn(dir, drive.Job{Entries: entries, Opts: o})
				for k := range out.Files {
					found := false
					for i := range expected {
						found = found || filepath.Clean(g.files[i].name) == k
					}
					if !found {
						c.Violate(input, "unexpected output %q (follow %v)", k, follow)
						return
					}
				}
				for i := range expected {
					name := g.files[i].name
					raw, ok := out.Raw[name]
					if !ok {
						c.Violate(input, "no output for %s (follow %v): %v", name, follow, out.Errs)
						return
					}
					alone := drive.CompileIn(dir, drive.Job{Entries: []string{name}, Opts: opts, Resolver: stubResolver{}})
					if alone.Raw[name] != raw {
						c.Violate(input, "output of %s differs from its own compilation:\n%s\n---\n%s", name, drive.StripMap(raw), alone.Files[name])
						return
					}
					want, _ := importsOf(contents[name])
					got, problems := importsOf(out.Files[name])
					if len(problems) > 0 {
						c.Violate(input, "output of %s isn't well-formed: %v", name, problems)
						return
					}
					if strings.Join(want, "\n") != strings.Join(got, "\n") {
						c.Violate(input, "imports of %s changed (follow %v):\n%s\n--- expected:\n%s", name, follow, strings.Join(got, "\n"), strings.Join(want, "\n"))
						return
					}
					c.Count("imports_kept", len(got))
				}
				c.Count("outputs", len(expected))
				c.State(fmt.Sprintf("follow %v: %d of %d", follow, len(expected), len(g.files)))
				if follow && len(expected) > len(indices) {
					c.Nontrivial(input)
					c.Sample(input)
				}
			}
		},
	})
}

func isGraphFile(g *graph, base string) bool {
	for i := range g.files {
		if path.Base(g.files[i].name) == base {
			return true
		}
	}
	return false
}

// withoutCustomMedia removes definitions of custom media queries, which cssc never outputs (known finding).
func withoutCustomMedia(nodes []*css.Node) []*css.Node {
	var out []*css.Node
	for _, n := range nodes {
		if n.At && strings.EqualFold(n.Name, "custom-media") {
			continue
		}
		out = append(out, n)
	}
	return out
}
