package gen

import (
	"fmt"
	"math/rand"
	"strings"
)

// G generates well-formed CSS that cssc supports.
type G struct {
	B
	// NoPlusMinusMath leaves out sums in math functions (see known_findings: their whitespace is lost).
	NoPlusMinusMath bool
	// NoRaw leaves out declarations that cssc carries through verbatim.
	NoRaw bool
	// PlainNames leaves out escapes and non-ASCII names.
	PlainNames bool
	// AnyLink is the probability that a simple selector is :any-link.
	AnyLink float64
	n       int
}

// New returns a generator.
func New(r *rand.Rand) *G { return &G{B: B{R: r}} }

// Fresh returns a number that wasn't returned before.
func (g *G) Fresh() int { g.n++; return g.n }

var plainIdents = []string{"a", "b", "red", "foo", "bar-baz", "x1", "_u", "-moz-x", "Camel", "n", "e3", "url-x", "important", "from", "to", "and", "not", "only", "U", "i", "s", "media", "w-1", "a_b", "--x", "even", "nn", "n-1", "auto"}
var weirdIdents = []string{"é", "日本語", "😀x", "a\\:b", "a\\.b", "\\31 a", "\\66oo", "x\\2c y", "a\\000041z", "\\@x", "-\\31 x", "a\\\\b", "sm\\:w-1\\/2", "\\e9 ", "b\\)", "q\\\"", "z\\'", "k\\{", "\\1F600 ", "u\\}v", "w\\;", "a\\ b", "\\--", "--\\!"}

// IdentText is a random identifier.
func (g *G) IdentText() string {
	if !g.PlainNames && g.Chance(.15) {
		return g.Pick(weirdIdents...)
	}
	if g.Chance(.1) {
		return fmt.Sprintf("z%d", g.R.Intn(1000))
	}
	if g.Chance(.06) {
		return g.Near(nearWords...)
	}
	if g.Chance(.002) {
		return "l" + strings.Repeat(g.Pick("o", "ng-", "X", "_9"), g.Long()) + "z"
	}
	return g.Pick(plainIdents...)
}

var tags = []string{"a", "div", "h1", "input", "svg", "x-foo", "li", "html", "i", "n", "b", "td"}

// Many is how much to add to the number of items of a list: rarely that many that
// shortcuts for common sizes do not suffice.
func (g *G) Many() int {
	if !g.Chance(.008) {
		return 0
	}
	if g.Chance(.1) {
		return 20 + g.R.Intn(60)
	}
	return 4 + g.R.Intn(16)
}

// Deep is how many levels of nesting to add to a construct: rarely more than a few.
func (g *G) Deep() int {
	if !g.Chance(.006) {
		return 0
	}
	if g.Chance(.1) {
		return 10 + g.R.Intn(60)
	}
	return 3 + g.R.Intn(6)
}

// Nest wraps what inner adds in n levels of the brackets that open starts.
func (g *G) Nest(n int, open func(), inner func()) {
	for i := 0; i < n; i++ {
		open()
		g.Opt()
	}
	inner()
	for i := 0; i < n; i++ {
		g.Opt().T(")")
	}
}

// Long is a number of repetitions, for tokens that are longer than any buffer for common sizes.
func (g *G) Long() int {
	if g.Chance(.1) {
		return 500 + g.R.Intn(4000)
	}
	return 10 + g.R.Intn(120)
}

// SelectorList adds a selector list.
func (g *G) SelectorList(depth int) {
	n := 1
	for n < 5 && g.Chance(.35) {
		n++
	}
	if depth > 1 {
		n += g.Many()
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			g.Opt().T(",").Opt()
		}
		g.Selector(depth)
	}
}

// Selector adds a complex selector.
func (g *G) Selector(depth int) {
	n := 1
	for n < 6 && g.Chance(.4) {
		n++
	}
	n += g.Many()
	for i := 0; i < n; i++ {
		if i > 0 {
			g.Combinator()
		}
		g.Compound(depth, i == n-1)
	}
}

// Combinator adds a combinator.
func (g *G) Combinator() {
	if g.Chance(.45) {
		g.Req()
		return
	}
	g.Opt().T(g.Pick(">", "+", "~")).Opt()
}

// Compound adds a compound selector.
func (g *G) Compound(depth int, last bool) {
	some := false
	sep := func() {
		if some {
			g.Cmt()
		}
		some = true
	}
	if g.Chance(.6) {
		sep()
		switch g.R.Intn(9) {
		case 0:
			g.T("*")
		case 1:
			g.T(g.Pick("svg|a", "*|*", "ns|*", "*|div"))
		case 2:
			g.T(g.IdentText())
		default:
			g.T(g.Pick(tags...))
		}
	}
	n := g.R.Intn(3) + g.Many()
	if !some && n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		sep()
		if g.AnyLink > 0 && g.Chance(g.AnyLink) {
			g.T(g.Pick(":any-link", ":any-link", ":any-link", ":any-link", ":Any-Link", ":ANY-LINK"))
			continue
		}
		switch g.R.Intn(7) {
		case 0, 1:
			g.T("." + g.IdentText())
		case 2:
			g.T("#" + g.IdentText())
		case 3, 4:
			g.Attribute()
		default:
			g.PseudoClass(depth)
		}
	}
	if last && g.Chance(.15) {
		sep()
		switch g.R.Intn(5) {
		case 0:
			g.T(g.Pick("::slotted(", "::slotted(", "::cue(")).Opt()
			g.Compound(0, false)
			g.Opt().T(")")
		case 1:
			g.T("::part(").Opt().T(g.IdentText()).Opt().T(")")
		default:
			if g.Chance(.1) {
				g.T("::" + g.Near(nearPseudos...))
				break
			}
			g.T(g.Pick("::before", ":after", "::first-line", "::-webkit-scrollbar", "::placeholder", "::selection", ":first-letter"))
		}
		if g.Chance(.2) {
			g.T(":hover")
		}
	}
}

var strContents = []string{"", "x", "a b", "é", "日本", "😀", "it's", "say \\\"hi\\\"", "\\201C", "\\a b", "a\\\\", "\\\nnext", "{};", "/* no */", "url(x)", "\\'", "<!--", "a,b", "!important", "0", "--", "\t", "\\\\\\\"", "*/", "\\0041 b", "\\41\nb", "\\000041\fb", "\\41\r\nb", "\\41\tb"}

// StrText is the content of a string.
func (g *G) StrText() string {
	if g.Chance(.004) {
		t := g.Pick("x", "é", "ab ", "😀", "\\\"", "\\a ", "'", "\\\n")
		return strings.Repeat(t, g.Long())
	}
	return g.Pick(strContents...)
}

// Attribute adds an attribute selector.
func (g *G) Attribute() {
	g.T("[").Opt().T(g.Pick("href", "data-x", "type", "lang", g.IdentText()))
	if g.Chance(.25) {
		g.Opt().T("]")
		return
	}
	g.Opt().T(g.Pick("=", "=", "~=", "|=", "^=", "$=", "*=")).Opt()
	if g.Chance(.5) {
		g.T(g.IdentText())
		if g.Chance(.35) {
			g.Req().T(g.Pick("i", "s"))
		}
	} else {
		g.Str(g.StrText())
		if g.Chance(.35) {
			g.Opt().T(g.Pick("i", "s"))
		}
	}
	g.Opt().T("]")
}

// PseudoClass adds a pseudo-class.
func (g *G) PseudoClass(depth int) {
	if n := g.Deep(); n > 0 && depth > 0 {
		g.Nest(n, func() { g.T(g.Pick(":not(", ":is(", ":where(", ":is(", ":matches(")) }, func() { g.SelectorList(0) })
		return
	}
	if g.Chance(.05) {
		g.T(":" + g.Near(nearPseudos...))
		if g.Chance(.3) {
			g.T("(").Opt().T(g.Pick("a", ".b", "en", "x-y")).Opt().T(")")
		}
		return
	}
	switch k := g.R.Intn(12); {
	case k < 4:
		g.T(g.Pick(":hover", ":first-child", ":root", ":focus-within", ":any-link", ":link", ":-moz-focusring", ":checked", ":empty"))
	case k < 7:
		g.T(":" + g.Pick("nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type") + "(").Opt()
		g.Nth()
		g.Opt().T(")")
	case k < 8:
		g.T(g.Pick(":lang(", ":dir(")).Opt().T(g.Pick("en", "ltr", "zh-Hans")).Opt().T(")")
	default:
		if depth <= 0 {
			g.T(":not(").Opt().T("." + g.IdentText()).Opt().T(")")
			return
		}
		name := g.Pick("not", "is", "where", "has", "-webkit-any", "matches", "not", "host", "host-context")
		if g.Chance(.03) {
			g.T(":" + strings.ToUpper(name) + "(").Opt()
		} else {
			g.T(":" + name + "(").Opt()
		}
		switch name {
		case "has":
			if g.Chance(.4) {
				g.T(g.Pick(">", "+", "~")).Opt()
			}
			g.Selector(depth - 1)
		case "host", "host-context":
			g.Compound(depth-1, false)
		default:
			g.SelectorList(depth - 1)
		}
		g.Opt().T(")")
	}
}

// Nth adds An+B in the spellings cssc supports.
func (g *G) Nth() {
	n := func() string { return fmt.Sprint(g.R.Intn(12)) }
	switch g.R.Intn(13) {
	case 10:
		// The minus sign may be followed by whitespace.
		g.T(g.Pick("n-", "-n-", n()+"n-", "-"+n()+"n-", "+"+n()+"n-", "+n-", "N-", n()+"N-")).Req().T(n())
		return
	case 11:
		g.T(g.Pick("+n", "+N", "+n-"+n(), "+n+"+n(), "N-"+n(), "-N-"+n(), "-N", n()+"N", n()+"N-"+n(), n()+"N+"+n()))
		return
	case 12:
		g.T(g.Pick("+n", "+N", "-N", n()+"N")).Req().T(g.Pick("+", "-")).Req().T(n())
		return
	case 0:
		g.T(g.Pick("even", "odd", "even", "odd", "EVEN", "Odd"))
	case 1:
		g.T(n())
	case 2:
		g.T(g.Pick("+", "-") + n())
	case 3:
		g.T(g.Pick("n", "-n", "0n", "+2n", "-3n", "1n", "+1n", "-1n", n()+"n"))
	case 4:
		g.T(g.Pick("n", "-n", n()+"n", "-"+n()+"n", "+"+n()+"n")).Opt().T(g.Pick("+", "-")).Opt().T(n())
	case 5:
		g.T(g.Pick("2n", "-2n", "4n") + g.Pick("+", "-") + n())
	case 6:
		g.T(n() + "n").Req().T(g.Pick("+", "-") + n())
	case 7:
		g.T(g.Pick("-n+", "n-", "-n-", "n+") + n())
	case 8:
		g.T("n").Opt().T("+").Opt().T(n())
	default:
		g.T(n() + "n").Opt().T(g.Pick("+", "-")).Req().T(n())
	}
	g.fixNth()
}

func (g *G) fixNth() {
	// The sign must not be glued to n.
	for i := len(g.P) - 1; i >= 0 && i >= len(g.P)-5; i-- {
		if g.P[i].Kind == PText && (g.P[i].Text == "-" || g.P[i].Text == "+") && i > 0 && g.P[i-1].Kind == POpt {
			g.P[i-1].Kind = PReq
			if i+1 < len(g.P) && g.P[i+1].Kind == POpt {
				g.P[i+1].Kind = PReq
			}
			return
		}
	}
}

var props = []string{"color", "width", "background", "margin", "--x", "-webkit-box-shadow", "font", "grid-area", "content", "z-index", "--Foo", "transition", "Width"}

// Declarations adds the declarations of a block.
func (g *G) Declarations(min, max int) {
	n := min + g.R.Intn(max-min+1)
	if max > 1 {
		n += g.Many()
	}
	for i := 0; i < n; i++ {
		g.Declaration()
		g.Opt()
		if i+1 < n {
			g.T(";").Opt()
		} else {
			g.Semi().Opt()
		}
	}
}

// Declaration adds a declaration without semicolon.
func (g *G) Declaration() {
	if !g.NoRaw && g.Chance(.1) {
		g.RawDeclaration()
		return
	}
	p := g.Pick(props...)
	if !g.PlainNames && g.Chance(.05) {
		p = g.IdentText()
	}
	if g.Chance(.03) {
		p = g.Near(nearProps...)
	}
	if g.Chance(.04) {
		p = g.Pick("*", "_") + p
	}
	g.T(p).Opt().T(":").Opt()
	g.Values(2)
	if g.Chance(.15) {
		g.Opt().T("!").Opt().T(g.Pick("important", "IMPORTANT", "Important"))
	}
}

// RawDeclaration adds a declaration that isn't made of ordinary values.
func (g *G) RawDeclaration() {
	switch g.R.Intn(9) {
	case 0:
		g.T("filter").Opt().T(":").Opt().T("progid:DXImageTransform.Microsoft.gradient(startColorstr=").Str("#80000000").T(",").Opt().T("endColorstr=").Str("#80000000").T(")")
	case 1:
		g.T("--x:").Opt().T("{a:b;c:d}")
	case 2:
		g.T("--y:").Opt().T("{").Str("};").T("}")
	case 3:
		g.T("unicode-range:").Opt().T(g.Pick("U+26", "U+0-7F,U+0025-00FF", "u+4??", "U+0025-00FF"))
	case 4:
		g.T("--e:")
	case 5:
		g.T("--m:").Opt().T("a:b").Req().T("[c;d]")
	case 6:
		g.T("filter:").Opt().T("alpha(opacity=50)").Opt()
	case 7:
		g.T("--p:").Opt().T("(a").Req().T("b)")
	default:
		g.T("--j:").Opt().T("foo(").Str(g.StrText()).T(";").Str(")").T(")")
	}
}

// NumText is a number as CSS text.
func (g *G) NumText() string {
	if g.Chance(.003) {
		d := strings.Repeat(g.Pick("1", "90", "123456789", "0", "5"), 1+g.Long()/9)
		return g.Pick(d, "."+d, d+"."+d, "-"+d, "0."+d+"1", d+".50")
	}
	switch g.R.Intn(11) {
	case 10:
		return fmt.Sprintf("%s%d.%0*d%s", g.Pick("", "", "-", "0"), g.R.Intn(20), 1+g.R.Intn(3), g.R.Intn(20), g.Pick("", "0", "00", "000"))
	case 0:
		return fmt.Sprintf("%d.%d", g.R.Intn(10), g.R.Intn(100))
	case 1:
		return fmt.Sprintf(".%d", g.R.Intn(100))
	case 2:
		return fmt.Sprintf("-%d", g.R.Intn(100))
	case 3:
		return fmt.Sprintf("+%d", g.R.Intn(100))
	case 4:
		return g.Pick("-.5", "+.5", "1e3", "1E-2", "1e+2", "-0", "0.10", "00.5", "1.5e3", "-1.e"[:2], "2147483648", "1.500", "2.00", "-.3000", "+10.0000", "0.0", "100.000", "99999999999999999999", "0.000001")
	default:
		return fmt.Sprint(g.R.Intn(1000))
	}
}

var units = []string{"px", "em", "rem", "%", "vw", "s", "ms", "deg", "fr", "PX", "Q", "x", "dpi", "e", "E", "ex", "e-x", "n", "-a", "_u", "é", "h\\31 "}

// Dimension adds a number, percentage or dimension.
func (g *G) Dimension() {
	if g.Chance(.3) {
		g.T(g.NumText())
		return
	}
	n := g.NumText()
	u := g.Pick(units...)
	if g.PlainNames {
		u = g.Pick(units[:13]...)
	}
	g.T(n + u)
}

// Values adds a declaration value.
func (g *G) Values(depth int) {
	n := 1
	for n < 7 && g.Chance(.45) {
		n++
	}
	n += g.Many()
	for i := 0; i < n; i++ {
		if i > 0 {
			switch k := g.R.Intn(10); {
			case k == 0 && i > 0:
				g.Opt().T("/").Opt()
			case k < 3:
				g.Opt().T(",").Opt()
			default:
				g.Req()
			}
		}
		g.Value(depth)
	}
}

// Value adds a single value.
func (g *G) Value(depth int) {
	k := g.R.Intn(16)
	if depth <= 0 && k >= 11 {
		k = g.R.Intn(11)
	}
	if n := g.Deep(); n > 0 && depth > 0 {
		g.Nest(n, func() {
			switch g.R.Intn(4) {
			case 0:
				g.T("var(").Opt().T("--x").Opt().T(",")
			case 1:
				g.T("foo(").Opt()
				g.Value(0)
				g.Opt().T(",")
			default:
				g.T(g.Pick("foo(", "f-1(", "linear-gradient(", "image-set("))
			}
		}, func() { g.Values(0) })
		return
	}
	switch k {
	case 0, 1, 2, 3:
		g.Dimension()
	case 4, 5, 6:
		g.T(g.valueIdent())
	case 7:
		g.T("#" + g.Pick("fff", "000000", "aBc", "12345678", "0f0", "1e3", "face", "12a"))
	case 8:
		g.Str(g.StrText())
	case 9:
		g.URL()
	case 10:
		g.T(g.Pick("inherit", "none", "auto", "currentColor"))
	case 11:
		g.MathFunction(depth)
	case 12:
		g.T("[").Opt()
		for i, n := 0, g.R.Intn(4); i < n; i++ {
			if i > 0 {
				g.Req()
			}
			g.T(g.valueIdent())
		}
		g.Opt().T("]")
	default:
		g.FunctionValue(depth)
	}
}

func (g *G) valueIdent() string {
	for {
		s := g.IdentText()
		// U+... would be a unicode range in older syntaxes; keep it simple.
		if s != "U" {
			return s
		}
	}
}

// URLName is the start of a URL.
func (g *G) URLName() string {
	return g.Pick("url(", "url(", "url(", "url(", "URL(", "Url(", "uRl(", "urL(", "UrL(", "URl(")
}

// URL adds a url.
func (g *G) URL() {
	t := g.Pick("x.png", "a/b.css?x=1#y", "data:image/png;base64,iVBORw0KGgo=", "http://e.com/a,b;c", "é.png", "a\\)b", "a\\ b", "//x", "/*", "{}", "", "u\\\"q", "!x", "a&b=c|d", "\\28 x")
	if g.Chance(.01) {
		t = "data:x;base64," + strings.Repeat(g.Pick("iVBOR", "A", "+/", "é"), g.Long()) + "="
	}
	switch g.R.Intn(3) {
	case 0:
		g.T(g.URLName()).Ws().Str(g.Pick("x.png", "a b", "é(1).png", "a\\\"b", "it's", "", ")")).Ws().T(")")
	case 1:
		g.T(g.URLName() + t + ")")
	default:
		g.T(g.URLName()).Ws().T(t).Ws().T(")")
	}
}

// FunctionValue adds a function.
func (g *G) FunctionValue(depth int) {
	if g.Chance(.12) {
		g.T(g.Near(nearFunctions...) + "(").Opt()
		g.Values(depth - 1)
		g.Opt().T(")")
		return
	}
	switch g.R.Intn(6) {
	case 0:
		g.T("rgba(").Opt()
		for i := 0; i < 4; i++ {
			if i > 0 {
				g.Opt().T(",").Opt()
			}
			g.T(g.NumText())
		}
		g.Opt().T(")")
	case 1:
		g.T("rgb(").Opt().T(g.NumText()).Req().T(g.NumText()).Req().T(g.NumText()).Opt().T("/").Opt().T("50%").Opt().T(")")
	case 2:
		g.T("var(").Opt().T(g.Pick("--x", "--y-z", "--é"))
		if g.Chance(.5) {
			g.Opt().T(",").Opt()
			g.Values(depth - 1)
		}
		g.Opt().T(")")
	case 3:
		g.T(g.Pick("linear-gradient(", "-webkit-gradient(", "foo(", "Foo(", "counter(")).Opt()
		g.Values(depth - 1)
		g.Opt().T(")")
	case 4:
		g.T(g.Pick("foo(", "translate(", "attr("))
		g.Opt().T(")")
	default:
		g.T("local(").Opt().Str(g.StrText()).Opt().T(")")
	}
}

// MathFunction adds calc(), min(), max() or clamp().
func (g *G) MathFunction(depth int) {
	switch g.R.Intn(5) {
	case 0:
		g.T(g.Pick("min(", "max(")).Opt()
		g.MathExpr(depth)
		g.Opt().T(",").Opt()
		g.MathExpr(depth)
		g.Opt().T(")")
	case 1:
		g.T("clamp(").Opt()
		g.MathExpr(depth)
		g.Opt().T(",").Opt()
		g.MathExpr(depth)
		g.Opt().T(",").Opt()
		g.MathExpr(depth)
		g.Opt().T(")")
	default:
		g.T("calc(").Opt()
		g.MathExpr(depth)
		g.Opt().T(")")
	}
}

// MathExpr adds a math expression.
func (g *G) MathExpr(depth int) {
	if n := g.Deep(); n > 0 && depth > 0 {
		g.Nest(n, func() { g.T(g.Pick("(", "(", "(", "calc(", "min(")) }, func() { g.MathExpr(0) })
		return
	}
	n := 1 + g.R.Intn(3) + g.Many()
	for i := 0; i < n; i++ {
		if i > 0 {
			if !g.NoPlusMinusMath && g.Chance(.6) {
				g.Req().T(g.Pick("+", "-")).Req()
			} else {
				g.Opt().T(g.Pick("*", "/")).Opt()
			}
		}
		switch k := g.R.Intn(8); {
		case k == 0 && depth > 0:
			g.T("(").Opt()
			g.MathExpr(depth - 1)
			g.Opt().T(")")
		case k == 1 && depth > 0 && !g.NoPlusMinusMath:
			g.T("var(").Opt().T("--x").Opt().T(")")
		case k == 2 && depth > 0:
			g.MathFunction(depth - 1)
		default:
			g.mathOperand()
		}
	}
}

func (g *G) mathOperand() {
	n := strings.TrimLeft(g.NumText(), "+-")
	if g.Chance(.15) && !g.NoPlusMinusMath {
		n = "-" + n
	}
	g.T(n + g.Pick("px", "", "%", "em", "rem", "vh"))
}
