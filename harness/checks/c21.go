package checks

import (
	"regexp"
	"sort"
	"strings"

	"verif/harness/css"
	"verif/harness/drive"
	"verif/harness/effect"
	"verif/harness/fw"
	"verif/harness/gen"
)

// misspelled is a word with an error in it.
func misspelled(c *fw.Ctx, word string) string {
	w := []rune(word)
	k := c.R.Intn(len(w))
	other := string(rune('a' + c.R.Intn(26)))
	switch c.R.Intn(4) {
	case 0:
		other = ""
	case 1:
		other += string(w[k])
	}
	return string(w[:k]) + other + string(w[k+1:])
}

// invalidTokens are put into stylesheets to make parts of them invalid.
var invalidTokens = []string{",", ":", "::", "+", "-", "=", "<", ">", "*", "~", "|", "^", "$", "!", "/", ".", "#", "(", ")", "[", "]", "()", "[]", "(a)", "[a]",
	"2", "+3", "-1", "+ 3", "- 1", "n", "-n", "2n", "2n-1", "2n-", "n-", "n-2", "+n", "1.5", "0", "a", "b", "--x", "#a", "#1", ".a", "@a", "\"s\"", "\"^\"", "\"=\"", "'+'", "'i'", "5%", "1px", "url(x)",
	"f()", "f(a)", "not", "and", "or", "only", "screen", "not(", "!important", "! important", "important", "<!--", "-->", "\\", "/**/", "from", "to", "i", "s", "even", "odd", "<=", ">=", "> =", "< =", "= =", "^ =", "*=", "% ", "\n", " ", "\t", ":hover", ":not()", ":is()", "1e3", "1e3px", "var(--x)", "{", "}", ";"}

// spoil changes a random place in the part [start, end) of a stylesheet.
func spoil(c *fw.Ctx, src string, start, end int) string {
	toks, _ := css.Tokenize(src)
	var in []css.Token
	for _, t := range toks {
		if t.Start >= start && t.End <= end {
			in = append(in, t)
		}
	}
	if len(in) == 0 {
		return src[:start] + invalidTokens[c.R.Intn(len(invalidTokens))] + src[start:]
	}
	k := c.R.Intn(len(in))
	t := in[k]
	some := invalidTokens[c.R.Intn(len(invalidTokens))]
	if c.R.Intn(12) == 0 {
		some = "!" + misspelled(c, "important")
	}
	if c.R.Intn(8) == 0 && (t.Kind == css.Ident || t.Kind == css.Function || t.Kind == css.AtKeyword) {
		return src[:t.Start] + misspelled(c, src[t.Start:t.End]) + src[t.End:]
	}
	switch c.R.Intn(9) {
	case 0:
		return src[:t.Start] + src[t.End:]
	case 1:
		return src[:t.End] + src[t.Start:t.End] + src[t.End:]
	case 2:
		return src[:t.End] + " " + src[t.Start:t.End] + src[t.End:]
	case 3:
		if k+1 < len(in) {
			n := in[k+1]
			return src[:t.Start] + src[n.Start:n.End] + src[t.End:n.Start] + src[t.Start:t.End] + src[n.End:]
		}
		return src[:t.Start] + " " + src[t.Start:]
	case 4:
		return src[:t.Start] + some + src[t.End:]
	case 5:
		return src[:t.End] + " " + some + src[t.End:]
	case 6:
		return src[:t.Start] + " " + src[t.Start:]
	case 7:
		return src[:t.Start] + "/**/" + some + src[t.Start:]
	}
	return src[:t.Start] + some + src[t.Start:]
}

// places are the parts of a stylesheet that can be made invalid.
func places(nodes []*css.Node) (out [][2]int) {
	countNodes(nodes, func(n *css.Node) {
		if len(n.Prelude) > 0 {
			p := [2]int{n.Prelude[0].Start, n.Prelude[len(n.Prelude)-1].End}
			out = append(out, p, p, p)
			if !n.At {
				// functions and attributes are the interesting ones
				for _, t := range n.Prelude {
					if t.Kind == css.Function || t.Kind == css.LBracket {
						out = append(out, p)
					}
				}
			}
		}
		for _, it := range n.Items {
			if it.Node == nil {
				out = append(out, [2]int{it.Start, it.End})
			}
		}
	})
	return out
}

// strip removes parts of a stylesheet (outermost first), except those of another kind than rules, which are only
// removed if they are not inside of something that is removed.
func strip(src string, parts []effect.Ignored) string {
	sort.Slice(parts, func(i, j int) bool { return parts[i].Start < parts[j].Start })
	var b strings.Builder
	at := 0
	for _, p := range parts {
		if p.Start < at {
			continue
		}
		b.WriteString(src[at:p.Start])
		at = p.End
	}
	b.WriteString(src[at:])
	return b.String()
}

// invalidSheet is a stylesheet in which something may be invalid.
func invalidSheet(c *fw.Ctx) string {
	g := gen.New(c.R)
	if g.Chance(.25) {
		g.Import(g.Pick("x", "./a.css"))
		if g.Chance(.7) {
			last := &g.P[len(g.P)-1]
			if last.Text == ";" {
				*last = gen.Piece{Kind: gen.POpt}
				g.Req()
				g.MediaList()
				g.Opt().T(";")
			}
		}
	}
	if g.Chance(.3) {
		g.Opt().T(":root{--x:").T(g.Pick("1px", "a b", "calc(1px * 2)")).T("}")
	}
	switch g.R.Intn(6) {
	case 0:
		g.Opt().T(g.Pick(":nth-child(", "li:nth-last-of-type(", "a:not(:nth-of-type(")).Opt()
		not := strings.Contains(g.P[len(g.P)-2].Text, "not")
		g.Nth()
		g.Opt().T(")")
		if not {
			g.T(")")
		}
		g.Opt().T("{a:b}")
	case 1:
		g.Opt()
		g.Attribute()
		g.Opt().T("{a:b}")
	case 2:
		g.Opt().T("@media").Req()
		g.MediaList()
		g.Opt().T("{a{b:c}}")
	}
	g.Opt()
	g.Sheet(gen.SheetOptions{Selectors: g.Chance(.7), Values: g.Chance(.4), AtRules: true, Min: 0, Max: 2, Depth: 1})
	if g.Chance(.5) {
		g.T("last{a:var(--x)}")
	}
	src, _ := gen.Render(g.P, gen.RandomStyle(c.R))
	for i, n := 0, 1+c.R.Intn(2); i < n; i++ {
		nodes, problems := css.Parse(src)
		if len(problems) > 0 {
			break
		}
		where := places(nodes)
		if len(where) == 0 {
			break
		}
		p := where[c.R.Intn(len(where))]
		src = spoil(c, src, p[0], p[1])
	}
	return src
}

var minusURL = regexp.MustCompile(`-(\s|/\*.*?\*/)+(?i:u|\\0*[57]5\s?)(?i:r|\\)`)

// checkIgnored compiles a stylesheet and compares what takes effect.
func checkIgnored(c *fw.Ctx, src, opts string) {
	nodes, problems := css.Parse(src)
	if len(problems) > 0 {
		c.Count("not balanced", 1)
		return
	}
	want, ignored := effect.Of(nodes)
	if minusURL.MatchString(src) {
		// White space in calc() is lost (known finding of C04), which makes a name of a minus and an unquoted url.
		c.Count("not judged", 1)
		return
	}
	if strings.Contains(strings.Join(want, "\n"), "(nth?") {
		// An invalid selector inside of a pseudo-class that may be forgiving.
		c.Count("not judged", 1)
		return
	}
	compile := func(src, opts string) (eff []string, ok bool, out string) {
		o := drive.Compile(drive.Job{Files: map[string]string{"in.css": src}, Entries: []string{"in.css"}, Opts: opts, Resolver: anyResolver{}})
		if len(o.Errs) > 0 {
			return nil, false, ""
		}
		out = o.Files["in.css"]
		nodes, problems := css.Parse(out)
		if len(problems) > 0 {
			c.Violate(src, "options %q: output is not well-formed: %v\noutput: %s", opts, problems, out)
			return nil, false, ""
		}
		eff, _ = effect.Of(nodes)
		return eff, true, out
	}
	got, ok, out := compile(src, "")
	switch {
	case !ok:
		c.Count("refused", 1)
	default:
		c.Count("accepted", 1)
		if d := css.Diff(want, got); d != "" {
			c.Violate(src, "what takes effect differs: %s\noutput: %s", d, out)
		}
	}
	for _, i := range ignored {
		c.Count("ignored "+i.Kind, 1)
		if ok {
			c.Count("accepted with ignored "+i.Kind, 1)
			c.State(i.Kind + " " + src[i.Start:i.End])
		}
	}
	if len(ignored) > 0 {
		c.Nontrivial(src)
	}
	c.Sample(src)
	if opts == "" || len(ignored) == 0 {
		return
	}

	// With transforms, what is ignored has to make no difference.
	got, ok, out = compile(src, opts)
	if !ok {
		c.Count("refused with transforms", 1)
		return
	}
	stripped := strip(src, ignored)
	if _, problems := css.Parse(stripped); len(problems) > 0 {
		return
	}
	want, ok, ref := compile(stripped, opts)
	if !ok {
		c.Count("only accepted with ignored parts", 1)
		return
	}
	c.Count("compared with transforms", 1)
	if d := css.Diff(want, got); d != "" {
		c.Violate(src, "options %q: what is ignored makes a difference: %s\noutput: %s\nwithout what is ignored: %s", opts, d, out, ref)
	}
}

func init() {
	fw.Register(&fw.Check{
		ID: "C21", Level: "exploration", Quick: 810000, Thorough: 20250000,
		Rule:        "one stylesheet per case with 1-6 rules and at-rules in which 1-2 tokens of preludes and declarations are removed, doubled, swapped, replaced, separated or inserted; compiled without and (two thirds) with random transforms; non-trivial if a browser ignores a part of it; distinct by source text",
		Assumptions: []string{commonAssumption, "what a browser ignores is decided by harness/effect and harness/media as css-syntax-3, selectors-4, css-values-4 and mediaqueries-4 say; property names and values are not judged", "stylesheets whose brackets are not balanced are not judged"},
		RunKnown: func(c *fw.Ctx, f fw.Finding) {
			checkIgnored(c, f.Files["in.css"], f.Opts)
		},
		Run: func(c *fw.Ctx) {
			src := invalidSheet(c)
			opts := ""
			if c.R.Intn(3) > 0 {
				for _, o := range "rapmc" {
					if c.R.Intn(2) == 0 {
						opts += string(o)
					}
				}
			}
			checkIgnored(c, src, opts)
		},
	})
}
