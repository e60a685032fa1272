package checks

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"verif/harness/css"
	"verif/harness/drive"
	"verif/harness/fw"
	"verif/harness/gen"
)

// varDef is a definition of a custom property.
type varDef struct {
	value     []css.Token
	important bool
	cyclic    bool // or invalid in another way
	raw       bool // not supported
}

// isRootRule is whether the prelude is exactly :root.
func isRootRule(n *css.Node) bool {
	if n.At {
		return false
	}
	var t []css.Token
	for _, x := range n.Prelude {
		if x.Kind != css.Whitespace {
			t = append(t, x)
		}
	}
	return len(t) == 2 && t[0].Kind == css.Colon && t[1].Kind == css.Ident && strings.EqualFold(t[1].Value, "root") && t[0].End == t[1].Start
}

// collectVars removes the definitions of custom properties from :root rules.
func collectVars(nodes []*css.Node) map[string]*varDef {
	defs := map[string]*varDef{}
	for _, n := range nodes {
		if !isRootRule(n) {
			continue
		}
		var rest []css.Item
		for _, it := range n.Items {
			if !strings.HasPrefix(it.Prop, "--") {
				rest = append(rest, it)
				continue
			}
			raw := unsupportedValue(it.Value)
			if raw {
				rest = append(rest, it)
			}
			if d := defs[it.Prop]; d != nil && d.important && !it.Important {
				continue
			}
			if raw {
				defs[it.Prop] = &varDef{raw: true, important: it.Important}
				continue
			}
			defs[it.Prop] = &varDef{value: it.Value, important: it.Important, cyclic: wideKeyword(it.Value)}
		}
		n.Items = rest
	}
	// The ones that reach themselves are cyclic.
	for name, d := range defs {
		seen := map[string]bool{}
		var walk func(t []css.Token)
		walk = func(t []css.Token) {
			for _, ref := range varRefs(t) {
				if next := defs[ref]; next != nil && !seen[ref] {
					seen[ref] = true
					walk(next.value)
				}
			}
		}
		walk(d.value)
		d.cyclic = d.cyclic || seen[name]
	}
	return defs
}

// wideKeyword is whether a value is a keyword that makes a custom property of the root element invalid.
func wideKeyword(t []css.Token) bool {
	word := ""
	for _, x := range t {
		switch {
		case x.Kind == css.Whitespace:
		case x.Kind == css.Ident && word == "":
			word = strings.ToLower(x.Value)
		default:
			return false
		}
	}
	switch word {
	case "initial", "inherit", "unset", "revert", "revert-layer":
		return true
	}
	return false
}

// unsupportedValue is whether cssc carries a declaration with that value through verbatim.
func unsupportedValue(t []css.Token) bool {
	return len(t) == 0 || t[0].Kind == css.LParen || t[0].Kind == css.LCurly
}

// varName returns the index of the name of the var() at t[i], if there is a name.
func varName(t []css.Token, i int) int {
	k := i + 1
	for k < len(t) && t[k].Kind == css.Whitespace {
		k++
	}
	if k < len(t) && t[k].Kind == css.Ident {
		return k
	}
	return -1
}

func isVar(t css.Token) bool { return t.Kind == css.Function && strings.EqualFold(t.Value, "var") }

// varRefs lists the names used with var(), including in fallbacks.
func varRefs(t []css.Token) []string {
	var out []string
	for i, x := range t {
		if isVar(x) {
			if k := varName(t, i); k >= 0 {
				out = append(out, t[k].Value)
			}
		}
	}
	return out
}

type varSubst struct {
	defs      map[string]*varDef
	done      map[string][]css.Token
	undefined map[string]bool
	// unsupported are the names used with an unsupported definition, and rawUses the unsupported values with uses.
	unsupported map[string]bool
	rawUses     int
	uses        int
	fallbacks   int
	depth       int
	maxDepth    int
}

// expand substitutes custom properties in tokens.
func (v *varSubst) expand(t []css.Token) []css.Token {
	var out []css.Token
	for i := 0; i < len(t); i++ {
		if !isVar(t[i]) {
			out = append(out, t[i])
			continue
		}
		end := i + 1
		for depth := 1; end < len(t); end++ {
			switch t[end].Kind {
			case css.LParen, css.Function, css.LBracket, css.LCurly:
				depth++
			case css.RParen, css.RBracket, css.RCurly:
				depth--
			}
			if depth == 0 {
				break
			}
		}
		k := varName(t, i)
		comma := k + 1
		for comma < end && t[comma].Kind == css.Whitespace {
			comma++
		}
		v.uses++
		if d := v.defs[t[k].Value]; d != nil && d.raw {
			v.unsupported[t[k].Value] = true
			out = append(out, t[i:end+1]...)
		} else if d != nil && !d.cyclic {
			value, ok := v.done[t[k].Value]
			if !ok {
				v.depth++
				if v.depth > v.maxDepth {
					v.maxDepth = v.depth
				}
				value = v.expand(d.value)
				v.depth--
				v.done[t[k].Value] = value
			}
			out = append(out, value...)
		} else if comma < end && t[comma].Kind == css.Comma {
			v.fallbacks++
			out = append(out, v.expand(t[comma+1:end])...)
		} else {
			v.undefined[t[k].Value] = true
			out = append(out, t[i:end+1]...)
		}
		i = end
	}
	return out
}

func (v *varSubst) nodes(nodes []*css.Node) {
	for _, n := range nodes {
		v.items(n.Items)
	}
}

func (v *varSubst) items(items []css.Item) {
	for i := range items {
		if items[i].Node != nil {
			v.items(items[i].Node.Items)
		} else if items[i].Raw == nil && unsupportedValue(items[i].Value) {
			if len(varRefs(items[i].Value)) > 0 {
				v.rawUses++
			}
		} else if items[i].Raw == nil {
			items[i].Value = v.expand(items[i].Value)
		}
	}
}

// varGen generates stylesheets with custom properties.
type varGen struct {
	*gen.G
	names []string
	calc  bool
	raw   bool
}

func (g *varGen) value(uses []string, depth int) {
	if n := g.Deep(); n > 0 && depth > 0 {
		g.Nest(n, func() {
			if g.R.Intn(3) > 0 && len(uses) > 0 {
				g.T("var(").Opt().T(g.Pick(uses...)).Opt().T(",")
			} else {
				g.T(g.Pick("foo(", "X("))
			}
		}, func() { g.values(uses, 0) })
		return
	}
	k := g.R.Intn(14)
	if len(uses) == 0 && k < 6 || depth <= 0 && k >= 9 {
		k = 6 + g.R.Intn(3)
	}
	switch {
	case k < 6:
		g.use(uses, depth)
	case k < 8:
		g.Dimension()
	case k == 8:
		switch g.R.Intn(5) {
		case 0:
			g.Str(g.Pick("var(--v0)", "a b", ";", ""))
		case 1:
			g.T("#" + g.Pick("fff", "12345678", "a1b2c3"))
		case 2:
			g.URL()
		default:
			g.T(g.Pick("red", "solid", "none", "--v0", "é"))
		}
	case k == 9:
		// Only whitespace separates the values in brackets.
		g.T("[").Opt()
		for i, n := 0, 1+g.R.Intn(2)+g.Many(); i < n; i++ {
			if i > 0 {
				g.Req()
			}
			g.value(uses, depth-1)
		}
		g.Opt().T("]")
	case k == 10 && g.calc:
		g.T(g.Pick("calc(", "calc(", "Calc(", "max(1px,")).Opt()
		if len(uses) == 0 {
			g.math(nil, depth-1)
		} else {
			g.math(mathNames, depth-1)
		}
		g.Opt().T(")")
	default:
		if g.Chance(.1) {
			// Nothing is substituted for this.
			g.T(g.Near("var", "var", "env", "calc") + "(").Opt().T(g.Pick(append([]string{"--v0"}, uses...)...))
			if g.Chance(.3) {
				g.Opt().T(",").Opt().T("1px")
			}
			g.Opt().T(")")
			break
		}
		g.T(g.Pick("rgba(", "foo(", "translate(", "linear-gradient(", "X(")).Opt()
		g.values(uses, depth-1)
		g.Opt().T(")")
	}
}

// mathNames are the custom properties that are used in math: other values are printed without the whitespace that
// they need, see known_findings.
var mathNames = []string{"--n0", "--n1", "--n2", "--u"}

func (g *varGen) math(uses []string, depth int) {
	n := 1 + g.R.Intn(3) + g.Many()
	for i := 0; i < n; i++ {
		if i > 0 {
			if g.R.Intn(2) == 0 {
				g.Req().T(g.Pick("+", "-")).Req()
			} else {
				g.Opt().T(g.Pick("*", "/")).Opt()
			}
		}
		switch k := g.R.Intn(6); {
		case k < 3 && len(uses) > 0:
			g.use(uses, 0)
		case k == 3 && depth > 0:
			g.T("(").Opt()
			g.math(uses, depth-1)
			g.Opt().T(")")
		case k == 4 && depth > 0:
			g.T("calc(").Opt()
			g.math(uses, depth-1)
			g.Opt().T(")")
		default:
			g.T(g.Pick("1px", "2", "50%", "3em"))
		}
	}
}

// use adds a var().
func (g *varGen) use(uses []string, depth int) {
	name := "var("
	if g.R.Intn(12) == 0 {
		name = g.Pick("VAR(", "Var(")
	}
	g.T(name).Opt().T(g.Pick(uses...))
	if depth > 0 && g.R.Intn(3) == 0 || depth <= 0 && g.R.Intn(4) == 0 {
		g.Opt().T(",").Opt()
		switch {
		case g.R.Intn(10) == 0:
		case depth > 0:
			if g.R.Intn(8) == 0 {
				g.T(",").Opt()
			}
			g.values(uses, depth-1)
			if g.R.Intn(12) == 0 {
				g.Opt().T(",")
			}
		default:
			g.T(g.Pick("1px", "2", "3em"))
		}
	}
	g.Opt().T(")")
}

func (g *varGen) values(uses []string, depth int) {
	n := 1
	for n < 4 && g.Chance(.4) {
		n++
	}
	if depth > 0 {
		n += g.Many()
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			switch g.R.Intn(8) {
			case 0:
				g.Opt().T(",").Opt()
			case 1:
				g.Opt().T("/").Opt()
			default:
				g.Req()
			}
		}
		if len(uses) > 0 && g.R.Intn(10) == 0 {
			g.use(uses, depth) // no whitespace: nothing that's substituted may be merged
			g.use(uses, depth)
			if g.R.Intn(3) == 0 {
				g.T(g.Pick("1px", "a", "-b", "#fff"))
			}
			continue
		}
		g.value(uses, depth)
	}
}

// uses are the names that a definition of name can use.
func (g *varGen) usesFor(i int, cycles bool) []string {
	var out []string
	if cycles {
		out = append(out, g.names...)
	} else {
		out = append(out, g.names[i+1:]...)
	}
	if g.R.Intn(6) == 0 || len(out) == 0 && g.R.Intn(3) == 0 {
		out = append(out, "--u")
	}
	return out
}

func (g *varGen) define(cycles bool, depth int) {
	if g.calc && g.R.Intn(3) == 0 {
		i := g.R.Intn(len(mathNames) - 1)
		g.T(mathNames[i]).Opt().T(":").Opt()
		if g.R.Intn(2) == 0 {
			g.T(g.Pick("1px", "2", "50%", "3em"))
		} else if cycles {
			g.T(g.Pick("calc(", "max(")).Opt()
			g.math(mathNames, depth)
			g.Opt().T(")")
		} else {
			g.T(g.Pick("calc(", "max(")).Opt()
			g.math(mathNames[i+1:], depth)
			g.Opt().T(")")
		}
		return
	}
	i := g.R.Intn(len(g.names))
	g.T(g.names[i]).Opt().T(":").Opt()
	if g.raw && g.R.Intn(5) == 0 {
		g.T(g.Pick("", "", "{a:b}", "(a)", "(var(--v0))", "{}", "(a!important)", "{a:b!important}"))
		if g.R.Intn(3) == 0 {
			g.Opt().T("!").Opt().T(g.Pick("important", "IMPORTANT"))
		}
		return
	}
	if g.R.Intn(15) == 0 {
		g.T(g.Pick("initial", "INITIAL", "inherit", "unset", "revert", "revert-layer", "Inherit", "initial unset", "initial,", "\"initial\"", "initially"))
	} else {
		g.values(g.usesFor(i, cycles), depth)
	}
	if g.R.Intn(12) == 0 || g.raw && g.R.Intn(4) == 0 {
		g.Opt().T("!").Opt().T(g.Pick("important", "IMPORTANT"))
	}
}

// rules adds rules in any of which custom properties are used.
func (g *varGen) rule(cycles bool, depth int) {
	all := append([]string{"--u", "--Und", "--v00", "--v", "--V0", "---v0", "--v0-"}, g.names...)
	decls := func() {
		g.Opt().T("{").Opt()
		for i, n := 0, 1+g.R.Intn(3)+g.Many(); i < n; i++ {
			if i > 0 {
				g.T(";").Opt()
			}
			switch g.R.Intn(9) {
			case 0:
				g.define(cycles, 1)
			case 1:
				g.T(g.Pick("color", "x", "*z")).Opt().T(":").Opt()
				g.values(nil, 2)
			case 2:
				if g.raw {
					g.T("x").Opt().T(":").Opt().T(g.Pick("(var(--v0))", "(VAR(--u))", "(a)", "{}"))
					break
				}
				fallthrough
			default:
				g.T(g.Pick("color", "width", "-x-y", "--other", "*zoom")).Opt().T(":").Opt()
				g.values(all, 3)
				if g.R.Intn(8) == 0 {
					g.Opt().T("!important")
				}
			}
			g.Opt()
		}
		g.Semi().Opt().T("}")
	}
	block := func() {
		g.Opt().T("{").Opt()
		for i, n := 0, 1+g.R.Intn(2); i < n; i++ {
			g.rule(cycles, depth-1)
			g.Opt()
		}
		g.T("}")
	}
	k := g.R.Intn(16)
	if depth <= 0 && k >= 12 {
		k = g.R.Intn(12)
	}
	switch k {
	case 0:
		g.At("@font-face")
		decls()
	case 1:
		g.At("@page")
		decls()
	case 2:
		g.At("@keyframes").Req().T("k").Opt().T("{").Opt()
		g.T(g.Pick("from", "50%", "from, to"))
		decls()
		g.T("}")
	case 3:
		g.T(g.Pick(":root,a", ":root:hover", "html:root", ":root a", ":root .b", ":where(:root)", ":not(:root)", ".root", ":root::before", "root", ":root>a", ":root,:root", "*:root", ":roots", ":root-x", ":roo", "::root", "#root", "[root]", ":root(a)", ":root:root", ":root.x", ":root#x", ":root[a]", ":-root", "::before"))
		decls()
	case 12:
		g.At("@media").Req().T(g.Pick("print", "(min-width:1px)", "screen and (color)"))
		block()
	case 13:
		g.At("@supports").Req().T(g.Pick("(color:var(--v0))", "(--v0:var(--v1))", "not (a:b)"))
		block()
	case 14:
		g.At("@layer").Req().T("x")
		block()
	case 15:
		if depth > 1 {
			g.At("@media").Req().T("print").Opt().T("{").Opt()
			g.T(":root")
			g.Opt().T("{").Opt()
			g.define(cycles, 1)
			g.Opt().T("}").Opt()
			g.T("}")
			break
		}
		fallthrough
	default:
		g.T(g.Pick("a", ".b", "a>b", ":hover", "a:not(.c)", ":any-link"))
		decls()
	}
}

func (g *varGen) sheet(n int, cycles bool) {
	g.Opt()
	for i := 0; i < n; i++ {
		switch g.R.Intn(2) {
		case 0:
			g.T(g.Pick(":root", ":root", ":root", ":ROOT", ":Root")).Opt().T("{").Opt()
			for k, m := 0, 1+g.R.Intn(4)+g.Many(); k < m; k++ {
				if k > 0 {
					g.T(";").Opt()
				}
				if g.R.Intn(6) == 0 {
					g.T(g.Pick("color", "margin", "_x")).Opt().T(":").Opt()
					g.values(append([]string{"--u"}, g.names...), 2)
				} else {
					g.define(cycles, 2)
				}
				g.Opt()
			}
			g.Semi().Opt().T("}")
		default:
			g.rule(cycles, 2)
		}
		g.Opt()
	}
}

var unsupportedRE = regexp.MustCompile(`cannot substitute custom property, because its value is not supported: ([^\n:]*)`)
var undefinedRE = regexp.MustCompile(`use of undefined variable without fallback: ([^\n:]*)`)

func init() {
	fw.Register(&fw.Check{
		ID: "C17", Level: "exploration", Quick: 192000, Thorough: 4800000,
		Rule:        "each case compiles a stylesheet (or several that are inlined) with definitions of custom properties in and outside of :root rules, before and after their uses, redefined, marked important, using each other in values and fallbacks (chains, cycles) and uses at any depth and in every kind of rule, and compares the output to a token-level substitution on the input; non-trivial with at least two uses, one of them of a defined name, distinct by source",
		Assumptions: []string{commonAssumption, "custom property definitions that start with a brace or parenthesis, or have no value, are the ones that are not understood"},
		Run: func(c *fw.Ctx) {
			r := c.R
			g := &varGen{names: []string{"--v0", "--v1", "--V1", "--é", "--v-2", "--_3"}[:1+r.Intn(6)]}
			cycles := r.Intn(4) == 0
			g.calc = r.Intn(2) == 0
			g.raw = r.Intn(8) == 0
			style := gen.RandomStyle(r)
			part := func(n int) string {
				g.G = gen.New(r)
				g.sheet(n, cycles)
				s, _ := gen.Render(g.P, noBOM(style))
				return s
			}
			chain := 0
			if r.Intn(12) == 0 {
				chain = 2 + r.Intn(300)
			}
			opts := "p" + []string{"", "", "m", "r", "mr"}[r.Intn(5)]
			if !g.calc && r.Intn(3) == 0 {
				opts += "c"
			}
			files := map[string]string{}
			var flat string
			if r.Intn(3) == 0 {
				opts += "i"
				b, cc, a := part(1+r.Intn(3)), part(1+r.Intn(3)), part(1+r.Intn(4))
				files["b.css"] = "@import './c';\n" + b
				files["c.css"] = cc
				files["in.css"] = "@import './b';\n@import './c';\n" + a
				flat = cc + "\n" + b + "\n" + cc + "\n" + a
			} else {
				flat = part(2 + r.Intn(7))
				if chain > 0 {
					// A long chain, in random order.
					var b strings.Builder
					for _, i := range r.Perm(chain) {
						next := fmt.Sprintf("a%d var(--chain%d)", i, i+1)
						switch {
						case i == chain-1 && cycles && r.Intn(2) == 0:
							next = "var(--chain0)"
						case i == chain-1:
							next = "end"
						case r.Intn(4) == 0:
							next = fmt.Sprintf("var(--u, var(--chain%d))", i+1)
						}
						fmt.Fprintf(&b, ":root{--chain%d: %s}\n", i, next)
					}
					flat = "b{c: var(--chain0) var(--chain1, x)}\n" + b.String() + flat
				}
				files["in.css"] = flat
			}
			input := drive.Describe(files, nil, opts)
			out := drive.Compile(drive.Job{Files: files, Entries: []string{"in.css"}, Opts: opts})
			text, ok := out.Files["in.css"]
			if !ok {
				c.Violate(input, "no output; errors: %s", quoteList(out.Errs))
				return
			}
			nodes, problems := css.Parse(text)
			if len(problems) > 0 {
				c.Violate(input, "output is not well-formed: %v\noutput: %s", problems, text)
				return
			}
			want := mustParse(flat)
			v := &varSubst{defs: collectVars(want), done: map[string][]css.Token{}, unsupported: map[string]bool{}, undefined: map[string]bool{}}
			defined := 0
			for _, d := range v.defs {
				if !d.cyclic && !d.raw {
					defined++
				} else if d.cyclic {
					c.Count("cyclic_definitions", 1)
				}
			}
			v.nodes(want)
			if d := css.Diff(css.Canon(want, css.Options{}), css.Canon(nodes, css.Options{})); d != "" {
				c.Violate(input, "output differs from the substitution: %s\noutput: %s", d, text)
				return
			}
			warned, unsupported, rawUses := map[string]bool{}, map[string]bool{}, 0
			for _, e := range out.Errs {
				if m := unsupportedRE.FindStringSubmatch(e); m != nil {
					unsupported[m[1]] = true
					continue
				}
				if strings.Contains(e, "cannot substitute custom properties in a value") {
					rawUses++
					continue
				}
				m := undefinedRE.FindStringSubmatch(e)
				if m == nil {
					c.Violate(input, "unexpected error: %s", e)
					return
				}
				warned[m[1]] = true
			}
			if a, b := keyList(v.undefined), keyList(warned); a != b {
				c.Violate(input, "uses of %q are left, but %q are reported\noutput: %s", a, b, text)
				return
			}
			if a, b := keyList(v.unsupported), keyList(unsupported); a != b {
				c.Violate(input, "uses of %q cannot be substituted, but %q are reported\noutput: %s", a, b, text)
				return
			}
			if rawUses != v.rawUses {
				c.Violate(input, "%d unsupported values have uses, but %d are reported\noutput: %s", v.rawUses, rawUses, text)
				return
			}
			c.Count("unsupported_definitions_used", len(unsupported))
			c.Count("uses", v.uses)
			c.Count("definitions", len(v.defs))
			c.Count("fallbacks_used", v.fallbacks)
			c.Count("undefined_left", len(v.undefined))
			c.State(fmt.Sprint(v.uses, defined, v.maxDepth, v.fallbacks, len(v.undefined)))
			if v.uses >= 2 && len(v.done) > 0 {
				c.Nontrivial(flat)
				c.Sample(flat)
			}
		},
	})
}

func keyList(m map[string]bool) string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}
