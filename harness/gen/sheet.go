package gen

import (
	"fmt"
	"strings"
)

// SheetOptions says what a sheet contains.
type SheetOptions struct {
	// Selectors, Values: whether or not these are complex.
	Selectors, Values bool
	// AtRules: whether or not there are at-rules.
	AtRules bool
	// Imports is how to generate import targets; nil for none.
	Imports func(g *G) string
	// CustomMedia: whether or not there are custom media queries (which cssc never outputs).
	CustomMedia bool
	Min, Max    int
	Depth       int
}

// Sheet adds a stylesheet.
func (g *G) Sheet(o SheetOptions) {
	if o.AtRules && g.Chance(.2) {
		g.T("@charset").Req().T("\"utf-8\"").Opt().T(";")
	}
	g.Opt()
	if o.Imports != nil {
		for g.Chance(.5) {
			g.Import(o.Imports(g))
			g.Opt()
		}
	}
	n := o.Min + g.R.Intn(o.Max-o.Min+1)
	if o.Max > o.Min {
		n += g.Many()
	}
	for i := 0; i < n; i++ {
		g.Markup()
		g.Rule(o, o.Depth, true)
		g.Opt()
	}
	g.Markup()
}

// Markup sometimes adds what hides stylesheets from ancient browsers, which is ignored between top-level rules.
func (g *G) Markup() {
	if g.Chance(.04) {
		g.T(g.Pick("<!--", "-->", "-->")).Opt()
	}
}

// Import adds an import.
func (g *G) Import(target string) {
	g.At("@import")
	switch g.R.Intn(3) {
	case 0:
		g.Opt().Str(target)
	case 1:
		g.Req().T(g.URLName()).Ws().Str(target).Ws().T(")")
	default:
		g.Req().T(g.URLName()).Ws().T(EscapeURL(target)).Ws().T(")")
	}
	g.Opt().T(";")
}

// EscapeURL escapes what unquoted URLs can't contain.
func EscapeURL(s string) string {
	var b strings.Builder
	for _, c := range s {
		if strings.ContainsRune(" \"'()\\\t", c) {
			b.WriteByte('\\')
		}
		b.WriteRune(c)
	}
	return b.String()
}

// Rule adds a rule or at-rule.
func (g *G) Rule(o SheetOptions, depth int, top bool) {
	if o.AtRules && g.Chance(.45) {
		g.AtRule(o, depth, top)
		return
	}
	g.StyleRule(o)
}

// StyleRule adds a style rule.
func (g *G) StyleRule(o SheetOptions) {
	if o.Selectors {
		g.SelectorList(2)
	} else {
		g.T(fmt.Sprintf(".r%d", g.Fresh()))
		if g.Chance(.2) {
			g.Opt().T(",").Opt().T("a")
		}
	}
	g.Opt().T("{").Opt()
	g.decls(o)
	g.T("}")
}

func (g *G) decls(o SheetOptions) {
	if o.Values {
		g.Declarations(1, 4)
		return
	}
	g.T("p").Opt().T(":").Opt().Tf("%d", g.Fresh()).Opt().Semi().Opt()
}

// At adds the name of an at-rule, which is case-insensitive.
func (g *G) At(name string) *B {
	if g.Chance(.05) {
		name = g.Pick(strings.ToUpper(name), "@"+strings.ToUpper(name[1:2])+name[2:])
	}
	return g.T(name)
}

// AtRule adds an at-rule.
func (g *G) AtRule(o SheetOptions, depth int, top bool) {
	block := func() {
		g.Opt().T("{").Opt()
		if n := g.Deep(); n > 0 && depth > 0 {
			for i := 0; i < n; i++ {
				g.T(g.Pick("@media print", "@supports (a:b)", "@media (width:1px)", "@layer x", "@MEDIA screen")).Opt().T("{").Opt()
			}
			g.StyleRule(o)
			for i := 0; i < n; i++ {
				g.Opt().T("}")
			}
			g.Opt()
		}
		for i, n := 0, g.R.Intn(4)+g.Many(); i < n; i++ {
			if depth > 0 {
				g.Rule(o, depth-1, false)
			} else {
				g.StyleRule(o)
			}
			g.Opt()
		}
		g.T("}")
	}
	decl := func() {
		g.Opt().T("{").Opt()
		if !g.Chance(.06) {
			g.decls(o)
		}
		g.T("}")
	}
	if g.Chance(.04) {
		g.T("@" + g.Near(nearAtRules...))
		switch g.R.Intn(4) {
		case 0:
			g.Req().T(g.IdentText())
		case 1:
			g.Req().Str(g.Pick("x", "a.css"))
		case 2:
			g.Req().T("(a:").Opt().T("b)")
		}
		if g.Chance(.5) {
			g.Opt().T(";")
		} else {
			decl()
		}
		return
	}
	switch k := g.R.Intn(16); {
	case k < 4:
		g.At("@media")
		if g.Chance(.97) {
			g.Req()
			g.MediaList()
		}
		block()
	case k < 7:
		g.At(g.Pick("@keyframes", "@-webkit-keyframes", "@-moz-keyframes", "@-o-keyframes", "@keyframes", "@-ms-keyframes"))
		if g.Chance(.2) {
			g.Opt().Str(g.Pick("an im", "x", "é"))
		} else {
			g.Req().T(g.IdentText())
		}
		g.Opt().T("{").Opt()
		for i, n := 0, g.R.Intn(4)+g.Many(); i < n; i++ {
			for j, m := 0, 1+g.R.Intn(3)+g.Many(); j < m; j++ {
				if j > 0 {
					g.Opt().T(",").Opt()
				}
				g.T(g.Pick("from", "to", "From", "TO", "0%", "50%", "33.3%", ".5%", "100%", fmt.Sprintf("%d%%", g.R.Intn(100))))
			}
			decl()
			g.Opt()
		}
		g.T("}")
	case k < 8:
		g.At("@font-face")
		decl()
	case k < 9:
		g.At("@page")
		if g.Chance(.6) {
			g.Req().T(g.Pick(":first", "wide", "toc:left", ":left, :right"))
		}
		decl()
	case k < 11:
		g.At("@supports").Req()
		switch g.R.Intn(5) {
		case 0:
			g.T("(display:").Opt().T("grid)")
		case 1:
			g.T("not").Req().T("(").Opt().T("display:").Opt().T("grid").Opt().T(")")
		case 2:
			g.T("((a:b)").Req().T("and").Req().T("(c:d))").Req().T("or").Req().T("(--x:y)")
		case 3:
			g.T("selector(a").Opt().T(">").Opt().T("b)")
		default:
			g.T("(content:").Opt().Str(g.Pick("a{b", ";", "}", "x")).T(")")
		}
		block()
	case k < 12:
		if g.Chance(.5) {
			g.At("@layer").Req().T("a").Opt().T(",").Opt().T("b.c").Opt().T(";")
		} else {
			g.At("@layer")
			if g.Chance(.7) {
				g.Req().T(g.IdentText())
			}
			block()
		}
	case k < 13:
		g.At("@container").Req()
		if g.Chance(.5) {
			g.T("sidebar").Req()
		}
		g.T("(min-width:").Opt().T("10px)")
		block()
	case k < 14:
		if top {
			g.At("@namespace").Req().T("svg").Req().T("url(http://www.w3.org/2000/svg)").Opt().T(";")
		} else {
			g.At("@font-face")
			decl()
		}
	case k < 15:
		g.T(g.Pick("@counter-style x", "@property --p", "@-ms-viewport", "@viewport", "@font-feature-values Foo", "@x-unknown a [b] (c) \"d;{\"", "@color-profile --z", "@font-palette-values --q"))
		decl()
	default:
		g.T(g.Pick("@unknown", "@x")).Req().T(g.Pick("a", "(a b)", "[x]", "1px", "a, b", "f(a, b)")).Opt().T(";")
	}
}

// MediaList adds a media query list.
func (g *G) MediaList() {
	n := 1
	for n < 4 && g.Chance(.3) {
		n++
	}
	n += g.Many()
	for i := 0; i < n; i++ {
		if i > 0 {
			g.Opt().T(",").Opt()
		}
		g.MediaQuery()
	}
}

// MediaQuery adds a media query.
func (g *G) MediaQuery() {
	if g.Chance(.5) {
		if g.Chance(.3) {
			g.T(g.Pick("not", "only", "NOT")).Req()
		}
		if g.Chance(.08) {
			g.T(g.Near(nearTypes...))
		} else {
			g.T(g.Pick("screen", "print", "all", "x-media", "Screen"))
		}
		for i, n := 0, g.R.Intn(3)+g.Many(); i < n; i++ {
			g.Req().T(g.Pick("and", "and", "AND")).Req()
			g.MediaInParens(1)
		}
		return
	}
	g.MediaCondition(2)
}

// MediaCondition adds a condition without media type.
func (g *G) MediaCondition(depth int) {
	if g.Chance(.15) {
		g.T("not").Req()
		g.MediaInParens(depth)
		return
	}
	op := g.Pick("and", "and", "or")
	for i, n := 0, 1+g.R.Intn(3)+g.Many(); i < n; i++ {
		if i > 0 {
			g.Req().T(op).Req()
		}
		g.MediaInParens(depth)
	}
}

// MediaInParens adds a feature or a nested condition.
func (g *G) MediaInParens(depth int) {
	if n := g.Deep(); n > 0 && depth > 0 {
		g.Nest(n, func() {
			g.T("(")
			if g.Chance(.3) {
				g.Opt().T("not").Req()
				return
			}
			if g.Chance(.3) {
				g.Opt()
				g.MediaFeature()
				g.Req().T("and").Req()
			}
		}, func() { g.MediaFeature() })
		return
	}
	if depth > 0 && g.Chance(.2) {
		g.T("(").Opt()
		g.MediaConditionNested(depth - 1)
		g.Opt().T(")")
		return
	}
	g.MediaFeature()
}

// MediaConditionNested adds a condition that is in parentheses.
func (g *G) MediaConditionNested(depth int) { g.MediaCondition(depth) }

// MediaFeature adds a media feature.
func (g *G) MediaFeature() {
	g.T("(").Opt()
	val := func() {
		g.T(g.Pick("100px", "20.5em", "0", "1dppx", "640px", ".5in", "-1px", "1e2px"))
	}
	if g.Chance(.06) {
		g.T(g.Near(nearFeatures...))
		switch g.R.Intn(3) {
		case 0:
			g.Opt().T(":").Opt()
			val()
		case 1:
			g.Opt().T(g.Pick("<", "<=", ">", ">=")).Opt()
			val()
		}
		g.Opt().T(")")
		return
	}
	switch g.R.Intn(8) {
	case 0:
		g.T(g.Pick("color", "hover", "grid", "-webkit-transform-3d", "monochrome", "--custom"))
	case 1:
		g.T(g.Pick("orientation", "display-mode", "prefers-color-scheme")).Opt().T(":").Opt().T(g.Pick("landscape", "dark", "a-b"))
	case 2:
		g.T("min-aspect-ratio").Opt().T(":").Opt().T("16").Opt().T("/").Opt().T("9")
	case 3:
		g.T("width").Opt().T(g.Pick("<", "<=", ">", ">=")).Opt()
		val()
	case 4:
		val()
		g.Opt().T(g.Pick("<", "<=", ">", ">=")).Opt().T("height")
	case 5:
		op := g.Pick("<", "<=", ">", ">=")
		val()
		g.Opt().T(op).Opt().T("width").Opt().T(op).Opt()
		val()
	default:
		g.T(g.Pick("min-width", "max-width", "width", "-webkit-min-device-pixel-ratio", "min-resolution")).Opt().T(":").Opt()
		val()
	}
	g.Opt().T(")")
}
