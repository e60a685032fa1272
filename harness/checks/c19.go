package checks

import (
	"fmt"
	"sort"
	"strings"

	"verif/harness/css"
	"verif/harness/drive"
	"verif/harness/fw"
	"verif/harness/gen"
)

const allFeatures = "rapmc"

func union(a, b string) string {
	var out strings.Builder
	for _, f := range allFeatures {
		if strings.ContainsRune(a, f) || strings.ContainsRune(b, f) {
			out.WriteRune(f)
		}
	}
	return out.String()
}

func intersect(a, b string) string {
	var out strings.Builder
	for _, f := range allFeatures {
		if strings.ContainsRune(a, f) && strings.ContainsRune(b, f) {
			out.WriteRune(f)
		}
	}
	return out.String()
}

// featuresOf is a superset of the features that a stylesheet uses.
func featuresOf(src string) string {
	s := strings.ToLower(src)
	f := ""
	if strings.Contains(strings.ToLower(s), "any-link") {
		f += "a"
	}
	if strings.Contains(s, "var") || strings.Contains(s, "root") {
		f += "p"
	}
	if strings.Contains(s, "calc") {
		f += "c"
	}
	if strings.Contains(s, "custom-media") || strings.Contains(s, "@media") && strings.Contains(s, "--") {
		f += "m"
	}
	if (strings.Contains(s, "@media") || strings.Contains(s, "@custom-media")) && strings.ContainsAny(s, "<>=") {
		f += "r"
	}
	return union(f, "")
}

// featureGen generates rules that use any features.
type featureGen struct {
	*gen.G
	plusMinus bool
	odd       bool // also add what transforms complain about
	n         int
}

func (g *featureGen) some(features, f string) bool {
	return strings.Contains(features, f) && g.R.Intn(3) > 0
}

func (g *featureGen) calc(depth int, vars bool) {
	g.T(g.Pick("calc(", "calc(", "Calc(")).Opt()
	g.mathTerm(depth, vars)
	for i, n := 0, 1+g.R.Intn(2); i < n; i++ {
		if g.plusMinus && g.R.Intn(2) == 0 {
			g.Req().T(g.Pick("+", "-")).Req()
			g.mathTerm(depth, vars)
		} else {
			g.Opt().T(g.Pick("*", "/")).Opt().T(g.Pick("2", "4", ".5", "1"))
		}
	}
	g.Opt().T(")")
}

func (g *featureGen) mathTerm(depth int, vars bool) {
	switch k := g.R.Intn(6); {
	case k == 0 && depth > 0:
		g.calc(depth-1, vars)
	case k < 3 && vars:
		g.T("var(").Opt().T(g.Pick("--x", "--u")).Opt().T(")")
	default:
		g.T(g.Pick("1px", "8px", "12px", "3rem", "0px"))
	}
}

func (g *featureGen) value(features string, depth int) {
	switch g.R.Intn(7) {
	case 0, 1:
		if strings.Contains(features, "p") {
			if g.odd && g.R.Intn(4) == 0 {
				g.T(g.Pick("var()", "var(5)", "var(--x --y)", "var(\"s\")", "var(a)", "VAR(,)"))
				return
			}
			g.T(g.Pick("var(", "var(", "VAR(")).Opt().T(g.Pick("--x", "--y", "--u"))
			if g.R.Intn(2) == 0 {
				g.Opt().T(",").Opt()
				g.value(features, depth-1)
			}
			g.Opt().T(")")
			return
		}
	case 2, 3:
		if strings.Contains(features, "c") {
			g.calc(2, strings.Contains(features, "p"))
			return
		}
	case 4:
		if depth > 0 {
			g.T(g.Pick("foo(", "rgba(", "translate(")).Opt()
			g.value(features, depth-1)
			if g.R.Intn(2) == 0 {
				g.Opt().T(",").Opt()
				g.value(features, depth-1)
			}
			g.Opt().T(")")
			return
		}
	}
	switch g.R.Intn(4) {
	case 0:
		g.Str(g.Pick("calc(1px + 1px)", "var(--x)", ":any-link", "(--m)"))
	default:
		g.T(g.Pick("1px", "red", "#fff", "2em", "--x", "50%"))
	}
}

func (g *featureGen) declarations(features string) {
	for i, n := 0, 1+g.R.Intn(3)+g.Many(); i < n; i++ {
		if i > 0 {
			g.T(";").Opt()
		}
		g.T(g.Pick("width", "color", "--local", "--x", "margin")).Opt().T(":").Opt()
		for j, m := 0, 1+g.R.Intn(3)+g.Many(); j < m; j++ {
			if j > 0 {
				if g.R.Intn(4) == 0 {
					g.Opt().T(",").Opt()
				} else {
					g.Req()
				}
			}
			g.value(features, 2)
		}
		g.Opt()
	}
	g.Semi().Opt()
}

func (g *featureGen) rule(features string) {
	g.Tf(".r%d", g.n)
	g.n++
	if strings.Contains(features, "a") {
		switch g.R.Intn(4) {
		case 0:
			g.T(g.Pick(":any-link", ":any-link", ":Any-LINK"))
		case 1:
			g.Opt().T(">").Opt().T("a:any-link").Req().T("b,").Opt().T(":hover")
		case 2:
			g.T(":not(").Opt().T(":any-link").Opt().T(")")
		default:
			g.T(",").Opt().T("c:any-link:any-link::before")
		}
	} else {
		g.T(g.Pick("", ":link", ":not(.b)", ">b", ",a:visited", "[href]"))
	}
	g.Opt().T("{").Opt()
	g.declarations(features)
	g.T("}").Opt()
}

func (g *featureGen) query(features string, oneSided bool) {
	feature := func() {
		switch k := g.R.Intn(5); {
		case k < 3 && strings.Contains(features, "r"):
			if !oneSided && g.R.Intn(3) == 0 {
				op := g.Pick("<", "<=")
				g.T("(").Opt().T("1px").Opt().T(op).Opt().T("width").Opt().T(op).Opt().T("100px").Opt().T(")")
			} else {
				g.T("(").Opt().T(g.Pick("width", "height")).Opt().T(g.Pick("<=", ">", ">=", "<")).Opt().T("30em").Opt().T(")")
			}
		case k >= 2 && strings.Contains(features, "m"):
			g.T("(").Opt().T(g.Pick("--m1", "--m2", "--mu")).Opt().T(")")
		default:
			g.T(g.Pick("(color)", "(min-width:1px)", "(hover:hover)"))
		}
	}
	switch g.R.Intn(4) {
	case 0:
		g.T("screen").Req().T("and").Req()
		feature()
	case 1:
		feature()
		for g.R.Intn(2) == 0 {
			g.Req().T("and").Req()
			feature()
		}
	case 2:
		feature()
		g.Req().T("or").Req()
		feature()
	default:
		feature()
	}
}

// unit adds a rule that uses (some of) the features.
func (g *featureGen) unit(features string) {
	switch k := g.R.Intn(8); {
	case k < 3 && (strings.Contains(features, "r") || strings.Contains(features, "m")):
		g.At("@media").Req()
		g.query(features, false)
		g.Opt().T("{").Opt()
		g.rule(features)
		g.T("}").Opt()
	case k == 3:
		g.At("@supports").Req().T("(a:b)").Opt().T("{").Opt()
		g.rule(features)
		g.T("}").Opt()
	case k == 4:
		g.At("@font-face").Opt().T("{").Opt()
		g.declarations(features)
		g.T("}").Opt()
	case k == 5:
		g.At("@keyframes").Req().T("x").Opt().T("{").Opt().T("50%").Opt().T("{").Opt()
		g.declarations(features)
		g.T("}").Opt().T("}").Opt()
	default:
		g.rule(features)
	}
}

// definitions of custom media queries and custom properties.
func (g *featureGen) definitions(features string) {
	if strings.Contains(features, "m") && g.R.Intn(2) == 0 {
		g.At("@custom-media").Req().T(g.Pick("--m1", "--m2")).Req()
		without := "r"
		if !strings.Contains(features, "r") {
			without = ""
		}
		g.query(without, true)
		g.Opt().T(";").Opt()
		return
	}
	if strings.Contains(features, "p") {
		g.T(":root").Opt().T("{").Opt()
		g.T(g.Pick("--x", "--y")).Opt().T(":").Opt()
		switch {
		case strings.Contains(features, "c") && g.R.Intn(2) == 0:
			g.calc(1, false)
		default:
			g.T(g.Pick("4px", "8px", "2rem"))
		}
		g.Opt().T("}").Opt()
		return
	}
	g.T("a{").Opt().T("b:c}").Opt()
}

type featureUnit struct {
	src      string
	features string
	defines  bool
}

// sliceOutput cuts the output into what the units have become.
func sliceOutput(out string, n int) ([]string, bool) {
	slices := make([]string, n)
	for i := 0; i < n; i++ {
		sep := fmt.Sprintf(".sep%d{k:v}", i)
		k := strings.Index(out, sep)
		if k < 0 {
			return nil, false
		}
		slices[i], out = out[:k], out[k+len(sep):]
	}
	return append(slices, out), true
}

func init() {
	fw.Register(&fw.Check{
		ID: "C19", Level: "exploration", Quick: 35000, Thorough: 875000,
		Rule:        "each case compiles a stylesheet of rules that use known subsets of the transformed features with 10 combinations of transforms and compares each rule to its compilation with only the transforms of its own features, the whole to one pass per transform in random order (math without sums), disabled features to opaque constructs in their place, and the import modes to each other; non-trivial if at least three features are used, distinct by source",
		Assumptions: []string{commonAssumption, "definitions of custom media queries are dropped if the transform is off (known finding)"},
		RunKnown: func(c *fw.Ctx, f fw.Finding) {
			compareCanon(c, f.Files["in.css"], css.Options{StrictPreludes: true})
		},
		Run: func(c *fw.Ctx) {
			r := c.R
			g := &featureGen{plusMinus: r.Intn(2) == 0, odd: r.Intn(3) == 0}
			var available string
			for available == "" {
				for _, f := range allFeatures {
					if r.Intn(4) > 0 {
						available += string(f)
					}
				}
			}
			style := noBOM(gen.RandomStyle(r))
			style.Escape = 0 // the features of a rule are told by its text
			var units []featureUnit
			for i, n := 0, 2+r.Intn(5); i < n; i++ {
				g.G = gen.New(r)
				g.NoPlusMinusMath = !g.plusMinus
				u := featureUnit{}
				k := r.Intn(10)
				switch {
				case k < 2:
					g.definitions(available)
					u.defines = true
				case k < 4:
					g.G.Sheet(gen.SheetOptions{Selectors: true, Values: true, AtRules: true, Min: 1, Max: 1, Depth: 1})
				default:
					// Any subset of the features.
					subset := ""
					for _, f := range available {
						if r.Intn(2) == 0 {
							subset += string(f)
						}
					}
					g.unit(subset)
				}
				u.src, _ = gen.Render(g.P, style)
				if strings.HasPrefix(strings.ToLower(strings.TrimSpace(u.src)), "@namespace") {
					i--
					continue
				}
				u.features = featuresOf(u.src)
				units = append(units, u)
			}
			// Definitions have effects elsewhere.
			inVars, inMedia := "", ""
			for _, u := range units {
				if strings.Contains(u.features, "p") && strings.Contains(u.src, "oot") {
					inVars = union(inVars, u.features)
				}
				if strings.Contains(u.features, "m") && strings.Contains(strings.ToLower(u.src), "@custom-media") {
					inMedia = union(inMedia, u.features)
				}
			}
			used := ""
			var b strings.Builder
			for i := range units {
				u := &units[i]
				if strings.Contains(u.features, "p") {
					u.features = union(u.features, inVars)
				}
				if strings.Contains(u.features, "m") {
					u.features = union(u.features, inMedia)
				}
				used = union(used, u.features)
				if i > 0 {
					fmt.Fprintf(&b, "\n.sep%d{k:v}\n", i-1)
				}
				b.WriteString(u.src)
			}
			src := b.String()
			mustParse(src)
			cache := map[string]string{}
			problems := map[string][]string{}
			compile := func(opts string) (string, bool) {
				opts = union(opts, "")
				if out, ok := cache[opts]; ok {
					return out, true
				}
				_, errs, res := drive.One(src, opts)
				raw, ok := res.Raw["in.css"]
				if !ok {
					c.Violate(src, "no output with %q; errors: %s", opts, quoteList(errs))
					return "", false
				}
				out := res.Files["in.css"]
				if m, err := drive.Map(raw); err == nil {
					out += "\n/*# sourceMappingURL=data:application/json;base64," + m[max(0, strings.Index(m, "\"mappings\"")):]
				}
				cache[opts] = out
				sort.Strings(errs)
				problems[opts] = errs
				if opts == "" && len(errs) > 0 {
					c.Violate(src, "without transforms, problems are reported: %s", quoteList(errs))
					return "", false
				}
				return out, true
			}
			if _, ok := compile(""); !ok {
				return
			}
			for round := 0; round < 6; round++ {
				s := ""
				for _, f := range allFeatures {
					if r.Intn(3) > 0 || round == 0 {
						s += string(f)
					}
				}
				s = union(s, "")
				raw, ok := compile(s)
				if !ok {
					return
				}
				less, ok := compile(intersect(s, used))
				if !ok {
					return
				}
				if raw != less {
					c.Violate(src, "only %q are used, but with %q the output is\n%s\ninstead of\n%s", used, s, raw, less)
					return
				}
				if a, b := quoteList(problems[s]), quoteList(problems[intersect(s, used)]); a != b {
					c.Violate(src, "only %q are used, but with %q these problems are reported:\n%s\ninstead of\n%s", used, s, a, b)
					return
				}
				c.Count("problems", len(problems[s]))
				out := drive.StripMap(raw)
				slices, ok := sliceOutput(out, len(units)-1)
				if !ok {
					c.Violate(src, "with %q, rules without any feature have changed: %s", s, out)
					return
				}
				for i, u := range units {
					alone, ok := compile(intersect(s, u.features))
					if !ok {
						return
					}
					others, ok := sliceOutput(drive.StripMap(alone), len(units)-1)
					if !ok {
						c.Violate(src, "with %q, rules without any feature have changed: %s", intersect(s, u.features), alone)
						return
					}
					if slices[i] != others[i] {
						c.Violate(src, "%q only uses %q, but with %q it becomes\n%s\ninstead of\n%s", u.src, u.features, s, slices[i], others[i])
						return
					}
					c.Count("rules_compared", 1)
				}
				// Features that are off behave as if they were nothing special.
				masked := src
				masks := [][3]string{}
				mask := func(f, from, to string) {
					if !strings.Contains(s, f) {
						masks = append(masks, [3]string{f, from, to})
						masked = replaceFold(masked, from, to)
					}
				}
				mask("a", ":any-link", ":zzz-link")
				mask("p", "var(", "zar(")
				mask("m", "--m1", "zzm1")
				mask("m", "--m2", "zzm2")
				mask("c", "calc(", "clamp(")
				if len(masks) > 0 && masked != src && !strings.Contains(strings.ToLower(src), "custom-media") {
					got, errs, res := drive.One(masked, s)
					if _, ok := res.Files["in.css"]; !ok {
						c.Violate(masked, "no output with %q; errors: %s", s, quoteList(errs))
						return
					}
					expected := out
					for _, m := range masks {
						expected = replaceFold(expected, m[1], m[2])
					}
					if got != expected {
						c.Violate(src, "with %q, %q are not treated like anything else: the output is\n%s\nbut with other names\n%s", s, masks, expected, got)
						return
					}
					if len(errs) != len(problems[s]) {
						c.Violate(src, "with %q, %q are not treated like anything else: the problems are\n%s\nbut with other names\n%s", s, masks, quoteList(problems[s]), quoteList(errs))
						return
					}
					c.Count("masked_compared", 1)
				}
				// One pass per transform.
				if !g.plusMinus {
					// The definitions of custom media queries don't survive a pass, and calc() needs the custom properties.
					order := []rune(allFeatures)
					r.Shuffle(len(order), func(i, k int) { order[i], order[k] = order[k], order[i] })
					seq := ""
					if strings.Contains(s, "m") {
						seq = "m"
					}
					if strings.Contains(s, "p") {
						seq += "p"
					}
					for _, f := range order {
						if f != 'm' && f != 'p' && strings.ContainsRune(s, f) {
							if k := strings.IndexByte(seq, 'p'); k >= 0 && f != 'c' && r.Intn(2) == 0 {
								seq = seq[:k] + string(f) + seq[k:]
							} else {
								seq += string(f)
							}
						}
					}
					text := src
					for _, f := range seq {
						got, errs, res := drive.One(text, string(f))
						if _, ok := res.Files["in.css"]; !ok {
							c.Violate(src, "no output of pass %c of %q; errors: %s", f, seq, quoteList(errs))
							return
						}
						text = got
					}
					if seq != "" {
						a, p1 := css.Parse(out)
						b, p2 := css.Parse(text)
						if len(p1)+len(p2) > 0 {
							c.Violate(src, "with %q the output is not well-formed: %v %v\n%s\n%s", s, p1, p2, out, text)
							return
						}
						if d := css.Diff(css.Canon(b, css.Options{}), css.Canon(a, css.Options{})); d != "" {
							c.Violate(src, "one pass with %q differs from passes with %q: %s\n%s\n%s", s, seq, d, out, text)
							return
						}
						c.Count("sequences_compared", 1)
					}
				}
				// Import modes.
				if r.Intn(3) == 0 {
					cut := r.Intn(len(units))
					var x, in strings.Builder
					for i, u := range units {
						w := &in
						if i < cut {
							w = &x
						}
						if i > 0 {
							sep := fmt.Sprintf("\n.sep%d{k:v}\n", i-1)
							w.WriteString(sep)
						}
						w.WriteString(u.src)
					}
					files := map[string]string{"x.css": x.String(), "in.css": "@import './x.css';\n" + in.String()}
					inline := drive.Compile(drive.Job{Files: files, Entries: []string{"in.css"}, Opts: s + "i"})
					if inline.Files["in.css"] != out {
						c.Violate(drive.Describe(files, nil, s+"i"), "inlined output is\n%s\nbut as one file it is\n%s\nerrors: %s", inline.Files["in.css"], out, quoteList(inline.Errs))
						return
					}
					follow := drive.Compile(drive.Job{Files: files, Entries: []string{"in.css"}, Opts: s + "f"})
					pass := drive.Compile(drive.Job{Files: files, Entries: []string{"in.css"}, Opts: s})
					one, _, _ := drive.One(in.String(), s)
					two, _, _ := drive.One(x.String(), s)
					if follow.Files["x.css"] != two {
						c.Violate(drive.Describe(files, nil, s+"f"), "x.css becomes\n%s\ninstead of\n%s", follow.Files["x.css"], two)
						return
					}
					for mode, o := range map[string]*drive.Out{"follow": follow, "passthrough": pass} {
						got := o.Files["in.css"]
						if !strings.HasPrefix(got, "@import") || got[strings.IndexByte(got, ';')+1:] != one {
							c.Violate(drive.Describe(files, nil, s), "in.css becomes with %s of imports\n%s\ninstead of an import and\n%s", mode, got, one)
							return
						}
					}
					c.Count("import_modes_compared", 1)
				}
				c.State(s + "/" + used)
			}
			if len(used) >= 3 {
				c.Nontrivial(src)
				c.Sample(src)
			}
		},
	})
}

// replaceFold replaces text whatever its case.
func replaceFold(s, from, to string) string {
	lower := strings.ToLower(s)
	if len(lower) != len(s) {
		return strings.ReplaceAll(s, from, to)
	}
	var b strings.Builder
	for {
		i := strings.Index(lower, from)
		if i < 0 {
			b.WriteString(s)
			return b.String()
		}
		b.WriteString(s[:i])
		b.WriteString(to)
		s, lower = s[i+len(from):], lower[i+len(from):]
	}
}
