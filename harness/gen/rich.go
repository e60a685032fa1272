package gen

import "fmt"

// RichOptions says which features a rich stylesheet uses.
type RichOptions struct {
	Vars, CustomMedia, Ranges, AnyLink, Calc, Plain bool
	// Odd adds constructs that cause warnings or errors in transforms.
	Odd      bool
	Min, Max int
	Imports  func(g *G) string
	// NoDefs leaves out definitions (of custom properties and custom media).
	NoDefs bool
	// NoVarMath leaves out var() in math, which is no math anymore if a list is substituted.
	NoVarMath bool
}

// AllRich has every feature.
func AllRich() RichOptions {
	return RichOptions{Vars: true, CustomMedia: true, Ranges: true, AnyLink: true, Calc: true, Plain: true, Min: 2, Max: 8}
}

// Rich adds a stylesheet that uses the features which transforms work on.
func (g *G) Rich(o RichOptions) {
	g.Opt()
	if o.Imports != nil {
		for n := 0; n < 3 && g.Chance(.5); n++ {
			g.Import(o.Imports(g))
			g.Opt()
		}
	}
	n := o.Min + g.R.Intn(o.Max-o.Min+1) + g.Many()
	for i := 0; i < n; i++ {
		g.Markup()
		switch k := g.R.Intn(10); {
		case k < 2 && o.Vars && !o.NoDefs:
			g.RootRule(o)
		case k < 4 && o.CustomMedia && !o.NoDefs:
			g.At("@custom-media").Req().T(g.Pick("--m1", "--m2", "--m3")).Req()
			g.richQuery(o)
			g.Opt().T(";")
		case k < 6 && (o.CustomMedia || o.Ranges):
			g.At("@media").Req()
			g.richQuery(o)
			for g.Chance(.3) {
				g.Opt().T(",").Opt()
				g.richQuery(o)
			}
			g.Opt().T("{").Opt()
			for j, m := 0, 1+g.R.Intn(2); j < m; j++ {
				g.richRule(o)
				g.Opt()
			}
			g.T("}")
		case k < 7 && o.Plain:
			g.AtRule(SheetOptions{AtRules: true}, 1, false)
		default:
			g.richRule(o)
		}
		g.Opt()
	}
}

var varNames = []string{"--v1", "--v2", "--v3", "--v4"}

// RootRule adds definitions of custom properties.
func (g *G) RootRule(o RichOptions) {
	g.T(":root").Opt().T("{").Opt()
	n := 1 + g.R.Intn(3) + g.Many()
	for i := 0; i < n; i++ {
		if o.Plain && g.Chance(.15) {
			g.T("color:").Opt().T("red")
		} else {
			g.T(g.Pick(varNames...)).Opt().T(":").Opt()
			g.RichValues(o, 2)
			if g.Chance(.1) {
				g.Opt().T("!important")
			}
		}
		g.Opt()
		if i+1 < n {
			g.T(";").Opt()
		} else {
			g.Semi().Opt()
		}
	}
	g.T("}")
}

func (g *G) richRule(o RichOptions) {
	if o.AnyLink && g.Chance(.5) {
		g.richSelector()
		if g.Chance(.3) {
			g.Opt().T(",").Opt()
			g.richSelector()
		}
	} else {
		g.Tf(".r%d", g.Fresh())
	}
	g.Opt().T("{").Opt()
	n := 1 + g.R.Intn(3) + g.Many()
	for i := 0; i < n; i++ {
		g.T(g.Pick("color", "width", "margin", "--local", "background")).Opt().T(":").Opt()
		g.RichValues(o, 2)
		g.Opt()
		if i+1 < n {
			g.T(";").Opt()
		} else {
			g.Semi().Opt()
		}
	}
	g.T("}")
}

func (g *G) richSelector() {
	switch g.R.Intn(7) {
	case 0:
		g.T(":any-link")
	case 1:
		g.T("a:any-link").Opt().T(">").Opt().T("b")
	case 2:
		g.T(".x").Req().T(":any-link:hover").Req().T("a:any-link")
	case 3:
		g.T(":not(").Opt().T(":any-link").Opt().T(")")
	case 4:
		g.T(":is(").Opt().T("a:any-link").Opt().T(",").Opt().T(".y").Opt().T(")::before")
	case 5:
		g.T("::slotted(").Opt().T(":any-link").Opt().T(")")
	default:
		g.T(".z:link")
	}
}

// RichValues adds values.
func (g *G) RichValues(o RichOptions, depth int) {
	for i, n := 0, 1+g.R.Intn(3); i < n; i++ {
		if i > 0 {
			if g.Chance(.3) {
				g.Opt().T(",").Opt()
			} else {
				g.Req()
			}
		}
		g.richValue(o, depth)
	}
}

func (g *G) richValue(o RichOptions, depth int) {
	switch k := g.R.Intn(9); {
	case k < 3 && o.Vars && depth > 0:
		g.richVar(o, depth)
	case k < 5 && o.Calc && depth > 0:
		g.T("calc(").Opt()
		g.richExpr(o, depth-1)
		g.Opt().T(")")
	case k == 5 && depth > 0:
		g.T("f(").Opt()
		g.RichValues(o, depth-1)
		g.Opt().T(")")
	case k == 6:
		g.Str("s")
	case k == 7:
		g.T(g.Pick("#fff", "auto", "none"))
	default:
		g.T(fmt.Sprintf("%d%s", g.R.Intn(50), g.Pick("px", "em", "%", "")))
	}
}

func (g *G) richVar(o RichOptions, depth int) {
	g.T("var(").Opt().T(g.Pick(append(varNames, "--undef")...))
	if g.Chance(.5) || !o.Odd {
		g.Opt().T(",").Opt()
		g.RichValues(o, depth-1)
	}
	g.Opt().T(")")
}

func (g *G) richExpr(o RichOptions, depth int) {
	operand := func(unit string) {
		switch k := g.R.Intn(6); {
		case k == 0 && depth > 0:
			g.T("(").Opt()
			g.richExpr(o, depth-1)
			g.Opt().T(")")
		case k == 1 && o.Vars && !o.NoVarMath && depth > 0:
			g.richVar(o, 1)
		default:
			g.T(fmt.Sprintf("%d%s", 1+g.R.Intn(20), unit))
		}
	}
	unit := g.Pick("px", "px", "em", "")
	operand(unit)
	for i, n := 0, g.R.Intn(3); i < n; i++ {
		if !g.NoPlusMinusMath && g.Chance(.6) {
			g.Req().T(g.Pick("+", "-")).Req()
			if o.Odd && g.Chance(.2) {
				unit = g.Pick("px", "", "em")
			}
			operand(unit)
			continue
		}
		g.Opt().T(g.Pick("*", "/")).Opt()
		if o.Odd && g.Chance(.2) {
			g.T(g.Pick("2px", "0", "0px"))
		} else {
			g.T(g.Pick("2", "4", ".5", "8"))
		}
	}
}

func (g *G) richQuery(o RichOptions) {
	if g.Chance(.3) {
		if g.Chance(.3) {
			g.T(g.Pick("not", "only")).Req()
		}
		g.T(g.Pick("screen", "print"))
		for g.Chance(.5) {
			g.Req().T("and").Req()
			g.richFeature(o, 1)
		}
		return
	}
	g.richCondition(o, 1)
}

func (g *G) richCondition(o RichOptions, depth int) {
	if g.Chance(.15) {
		g.T("not").Req()
		g.richFeature(o, depth)
		return
	}
	op := g.Pick("and", "or")
	for i, n := 0, 1+g.R.Intn(3); i < n; i++ {
		if i > 0 {
			g.Req().T(op).Req()
		}
		g.richFeature(o, depth)
	}
}

func (g *G) richFeature(o RichOptions, depth int) {
	bound := func() { g.T(fmt.Sprintf("%d", g.R.Intn(900)) + g.Pick("px", "em", ".5px")) }
	switch k := g.R.Intn(9); {
	case k < 3 && o.CustomMedia:
		g.T("(").Opt().T(g.Pick("--m1", "--m2", "--m3", "--undef")).Opt().T(")")
	case k < 5 && o.Ranges:
		g.T("(").Opt().T("width").Opt().T(g.Pick("<", "<=", ">", ">=")).Opt()
		bound()
		g.Opt().T(")")
	case k < 6 && o.Ranges:
		op := g.Pick("<", "<=", ">", ">=")
		g.T("(").Opt()
		bound()
		g.Opt().T(op).Opt().T("height").Opt().T(op).Opt()
		bound()
		g.Opt().T(")")
	case k < 7 && depth > 0:
		g.T("(").Opt()
		g.richCondition(o, depth-1)
		g.Opt().T(")")
	default:
		g.T("(").Opt().T(g.Pick("color", "hover", "grid")).Opt().T(")")
	}
}
