package checks

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"verif/harness/css"
	"verif/harness/drive"
	"verif/harness/fw"
	"verif/harness/gen"
)

// expr is a value: a number with a unit, an operation, something in parentheses, a function or any other text.
type expr struct {
	kind string // "num", "op", "paren", "call", "text", "var"
	num  string
	unit string
	op   string
	l, r *expr
	name string
	args []*expr
	text string
}

// mathValue is what is known about an expression.
type mathValue struct {
	known bool
	unit  string
	v     *big.Rat
	err   *big.Rat // bound of the error of double precision arithmetic
	// typ is "number", "dimension" or "" if it depends on something unknown.
	typ string
	// reported is whether or not an operation on known values is invalid; invalid whether or not the types don't fit.
	reported, invalid bool
	// ambiguous is whether the outcome depends on rounding.
	ambiguous bool
	// reducible is whether it's made of operations on numbers.
	operation bool
	// multi is whether there are several values where one is expected; then the rest isn't evaluated.
	multi bool
}

var (
	eps      = new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 51))
	tiny     = new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 1060))
	maxFloat = func() *big.Rat {
		r, _ := new(big.Rat).SetString("1.7976931348623157e308")
		return r
	}()
)

func ratAbs(r *big.Rat) *big.Rat    { return new(big.Rat).Abs(r) }
func ratMul(a, b *big.Rat) *big.Rat { return new(big.Rat).Mul(a, b) }
func ratAdd(a, b *big.Rat) *big.Rat { return new(big.Rat).Add(a, b) }

// rounded adds the error of rounding v.
func rounded(v, err *big.Rat) *big.Rat {
	return ratAdd(ratAdd(err, ratMul(ratAbs(v), eps)), tiny)
}

func parseRat(s string) *big.Rat {
	s = strings.TrimPrefix(s, "+")
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("not a number: " + s)
	}
	return r
}

// eval evaluates an expression. For calc() it's the value it is replaced with, if known.
func (e *expr) eval() mathValue {
	switch e.kind {
	case "num":
		v := parseRat(e.num)
		m := mathValue{known: true, unit: e.unit, v: v, err: rounded(v, new(big.Rat)), typ: "dimension"}
		if e.unit == "" {
			m.typ = "number"
		}
		return m
	case "paren":
		return e.l.eval()
	case "multi":
		return mathValue{invalid: true, multi: true}
	case "text":
		return mathValue{invalid: strings.HasPrefix(e.text, "\"") || strings.HasPrefix(e.text, "#")}
	case "var":
		m := e.l.eval()
		m.operation = false
		return m
	case "call":
		if strings.EqualFold(e.name, "calc") && len(e.args) == 1 {
			m := e.args[0].eval()
			if !m.operation {
				// Something like calc(1px) is not an operation.
				m.known = false
			}
			m.reported, m.multi = false, false // by itself
			m.operation = false
			return m
		}
		return mathValue{}
	}
	a, b := e.l.eval(), e.r.eval()
	m := mathValue{
		reported: a.reported || b.reported, invalid: a.invalid || b.invalid,
		ambiguous: a.ambiguous || b.ambiguous, operation: true, multi: a.multi || b.multi,
	}
	bad := false
	switch e.op {
	case "+", "-":
		bad = a.typ != "" && b.typ != "" && a.typ != b.typ
		m.typ = a.typ
		if m.typ == "" {
			m.typ = b.typ
		}
	case "*":
		bad = a.typ == "dimension" && b.typ == "dimension"
		switch {
		case a.typ == "dimension" || b.typ == "dimension":
			m.typ = "dimension"
		case a.typ == "number" && b.typ == "number":
			m.typ = "number"
		}
	case "/":
		bad = b.typ == "dimension"
		m.typ = a.typ
	}
	m.invalid = m.invalid || bad
	if e.op == "/" && b.known && b.unit == "" {
		if b.v.Sign() == 0 && b.exactZero(e.r) {
			m.invalid = true
			if a.known {
				m.reported = true
			}
			return m
		}
		if ratAbs(b.v).Cmp(b.err) <= 0 {
			m.ambiguous = true
			return m
		}
	}
	if !a.known || !b.known || bad {
		m.reported = m.reported || bad && a.known && b.known
		return m
	}
	m.unit = a.unit
	switch e.op {
	case "+", "-":
		if a.unit != b.unit {
			return m
		}
		if e.op == "+" {
			m.v = ratAdd(a.v, b.v)
		} else {
			m.v = new(big.Rat).Sub(a.v, b.v)
		}
		m.err = ratAdd(a.err, b.err)
	case "*":
		if m.unit == "" {
			m.unit = b.unit
		}
		m.v = ratMul(a.v, b.v)
		m.err = ratAdd(ratAdd(ratMul(ratAbs(a.v), b.err), ratMul(ratAbs(b.v), a.err)), ratMul(a.err, b.err))
	case "/":
		m.v = new(big.Rat).Quo(a.v, b.v)
		// |a/b - a'/b'| <= (|a| eb + |b| ea) / (|b| (|b| - eb))
		low := new(big.Rat).Sub(ratAbs(b.v), b.err)
		m.err = new(big.Rat).Quo(ratAdd(ratMul(ratAbs(a.v), b.err), ratMul(ratAbs(b.v), a.err)), ratMul(ratAbs(b.v), low))
	}
	m.err = rounded(m.v, m.err)
	switch {
	case ratAbs(m.v).Cmp(ratMul(maxFloat, big.NewRat(1001, 1000))) > 0:
		m.reported, m.invalid = true, true
		return m
	case ratAbs(m.v).Cmp(ratMul(maxFloat, big.NewRat(999, 1000))) > 0:
		m.ambiguous = true
		return m
	}
	m.known = true
	return m
}

// exactZero is whether rounding cannot turn the zero into something else.
func (m mathValue) exactZero(e *expr) bool {
	for e.kind == "paren" {
		e = e.l
	}
	return e.kind == "num"
}

// hole is a number in the expected text.
type chunk struct {
	text string
	v    *big.Rat
	err  *big.Rat
}

type expectation struct {
	chunks    []chunk
	replaced  int
	left      int
	reported  bool
	invalid   bool
	ambiguous bool
	// verbatim is whether nothing in the value may be replaced.
	verbatim bool
}

func (x *expectation) lit(s string) { x.chunks = append(x.chunks, chunk{text: s}) }

// expect appends what becomes of e.
func (x *expectation) expect(e *expr) {
	switch e.kind {
	case "num":
		x.chunks = append(x.chunks, chunk{v: parseRat(e.num), err: new(big.Rat)})
		x.lit(e.unit)
	case "op":
		x.expect(e.l)
		x.lit(e.op)
		x.expect(e.r)
	case "paren":
		x.lit("(")
		x.expect(e.l)
		x.lit(")")
	case "multi":
		for i, a := range e.args {
			if i > 0 {
				x.lit(e.op)
			}
			x.expect(a)
		}
	case "text":
		x.lit(e.text)
	case "var":
		x.expect(e.l)
	case "call":
		if strings.EqualFold(e.name, "calc") {
			if len(e.args) != 1 {
				x.reported, x.invalid = true, true
			} else {
				m := e.args[0].eval()
				x.reported = x.reported || m.reported && !m.multi
				x.invalid = x.invalid || m.invalid
				x.ambiguous = x.ambiguous || m.ambiguous
				if m.known && m.operation {
					x.chunks = append(x.chunks, chunk{v: m.v, err: m.err})
					x.lit(m.unit)
					x.replaced++
					return
				}
			}
			x.left++
		}
		x.lit(e.name + "(")
		for i, a := range e.args {
			if i > 0 {
				x.lit(",")
			}
			x.expect(a)
		}
		x.lit(")")
	}
}

var numberRE = regexp.MustCompile(`^[-+]?(\d+\.\d+|\.\d+|\d+)([eE][-+]?\d+)?`)

// matches compares text to what is expected.
func (x *expectation) matches(text string) string {
	rest := text
	for i := 0; i < len(x.chunks); i++ {
		ch := x.chunks[i]
		if ch.v == nil {
			if !strings.HasPrefix(rest, ch.text) {
				return fmt.Sprintf("expected %q at %q", ch.text, rest)
			}
			rest = rest[len(ch.text):]
			continue
		}
		n := numberRE.FindString(rest)
		if n == "" {
			return fmt.Sprintf("expected a number at %q", rest)
		}
		got := parseRat(n)
		diff := ratAbs(new(big.Rat).Sub(got, ch.v))
		if diff.Cmp(ch.err) > 0 {
			return fmt.Sprintf("expected about %s, not %s", ch.v.FloatString(20), n)
		}
		rest = rest[len(n):]
	}
	if rest != "" {
		return fmt.Sprintf("unexpected %q", rest)
	}
	return ""
}

// tightText removes the whitespace of values, except for the one between values.
func tightText(t []css.Token, src string) string {
	var b strings.Builder
	math, depth := -1, 0
	for i, x := range t {
		switch x.Kind {
		case css.Function, css.LParen, css.LBracket:
			name := x.Value
			if k := strings.LastIndexByte(name, '-'); k >= 0 {
				name = name[k+1:] // an operator that is printed without whitespace
			}
			// An operator without whitespace can also hide the function in a unit or identifier.
			if math < 0 && x.Kind == css.Function && css.IsMath(name) {
				math = depth
			}
			depth++
		case css.RParen, css.RBracket:
			depth--
			if depth == math {
				math = -1
			}
		}
		if x.Kind == css.Whitespace {
			if math >= 0 || i == 0 || i == len(t)-1 {
				continue
			}
			p, n := t[i-1], t[i+1]
			sep := func(k css.Kind, v string) bool { return k == css.Comma || k == css.Delim && v == "/" }
			if sep(p.Kind, p.Value) || sep(n.Kind, n.Value) || closer(n.Kind) || p.Kind == css.Function || p.Kind == css.LBracket {
				continue
			}
			b.WriteByte(' ')
			continue
		}
		b.WriteString(css.Source(x, src))
	}
	return b.String()
}

func closer(k css.Kind) bool { return k == css.RParen || k == css.RBracket }

// calcGen generates values with calc().
type calcGen struct {
	*gen.G
	vars    map[string]*expr
	names   []string
	unknown []string // names that aren't defined
	units   []string
	faults  bool
	commas  bool
}

func (g *calcGen) number() string {
	switch g.R.Intn(12) {
	case 0:
		return g.Pick("0", "0", "1", "-1", "0.0", "-0")
	case 1:
		return fmt.Sprintf("%d.%d", g.R.Intn(100), g.R.Intn(1000))
	case 2:
		return fmt.Sprintf(".%d", g.R.Intn(1000))
	case 3:
		return fmt.Sprintf("-%d.%d", g.R.Intn(100), g.R.Intn(1000))
	case 4:
		return g.Pick("+", "-") + fmt.Sprint(g.R.Intn(100))
	case 5:
		return g.Pick("1e3", "1E-2", "2.5e+2", "1e308", "1e-300", "99999999999999999999", "0.1", ".3", "1e15", "-7e-9", "123456789.987654321")
	default:
		return fmt.Sprint(g.R.Intn(100))
	}
}

func (g *calcGen) num() *expr {
	return &expr{kind: "num", num: g.number(), unit: g.Pick(g.units...)}
}

// term generates an operand; typ is what would make the expression valid.
func (g *calcGen) term(depth int, typ string) *expr {
	if n := g.Deep(); n > 0 && depth > 0 {
		e := g.sum(0, typ)
		for ; n > 0; n-- {
			if g.R.Intn(4) == 0 {
				e = &expr{kind: "call", name: "calc", args: []*expr{e}}
			} else {
				e = &expr{kind: "paren", l: e}
			}
		}
		return e
	}
	k := g.R.Intn(16)
	if depth <= 0 && k < 6 {
		k = 6 + g.R.Intn(10)
	}
	switch {
	case k < 3:
		return &expr{kind: "paren", l: g.sum(depth-1, typ)}
	case k < 5:
		return g.calc(depth-1, typ)
	case k == 5:
		if g.R.Intn(2) == 0 {
			return &expr{kind: "call", name: g.Pick("min", "max", "clamp"), args: []*expr{g.sum(depth-1, typ), g.sum(depth-1, typ)}}
		}
		return &expr{kind: "call", name: g.Pick("foo", "env", "sin", g.Near("calc", "min", "var")), args: []*expr{g.num(), g.calc(depth-1, typ)}}
	case k == 6 && len(g.unknown) > 0 && g.R.Intn(2) == 0:
		return &expr{kind: "call", name: "var", args: []*expr{{kind: "text", text: g.Pick(g.unknown...)}}}
	case k < 9 && len(g.names) > 0:
		n := g.Pick(g.names...)
		return &expr{kind: "var", text: n, l: g.vars[n]}
	case k == 9 && g.faults && g.R.Intn(6) == 0:
		return &expr{kind: "text", text: g.Pick("\"a\"", "#fff")}
	}
	n := g.num()
	switch {
	case g.faults && g.R.Intn(8) == 0:
	case typ == "number":
		n.unit = ""
	case n.unit == "":
		n.unit = g.units[0]
	}
	return n
}

func (g *calcGen) product(depth int, typ string) *expr {
	e := g.term(depth, typ)
	isDimension := typ != "number"
	for more := g.Many(); g.R.Intn(3) == 0 || more > 0; more-- {
		if g.R.Intn(2) == 0 {
			e = &expr{kind: "op", op: "/", l: e, r: g.term(depth-1, "number")}
		} else if isDimension && g.R.Intn(2) == 0 && e.kind != "op" {
			e = &expr{kind: "op", op: "*", l: g.term(depth-1, "number"), r: e}
		} else {
			e = &expr{kind: "op", op: "*", l: e, r: g.term(depth-1, "number")}
		}
	}
	return e
}

func (g *calcGen) sum(depth int, typ string) *expr {
	e := g.product(depth, typ)
	for more := g.Many(); g.R.Intn(5) < 2 || more > 0; more-- {
		e = &expr{kind: "op", op: g.Pick("+", "-"), l: e, r: g.product(depth, typ)}
	}
	return e
}

func (g *calcGen) calc(depth int, typ string) *expr {
	name := "calc"
	if g.R.Intn(12) == 0 {
		name = g.Pick("CALC", "Calc")
	}
	e := &expr{kind: "call", name: name, args: []*expr{g.sum(depth, typ)}}
	if g.commas && g.R.Intn(10) == 0 {
		e.args = append(e.args, g.sum(0, typ))
	}
	return e
}

// write renders an expression.
func (g *calcGen) write(e *expr) {
	switch e.kind {
	case "num":
		g.T(e.num + e.unit)
	case "op":
		g.write(e.l)
		if e.op == "+" || e.op == "-" {
			g.Req().T(e.op).Req()
		} else {
			g.Opt().T(e.op).Opt()
		}
		g.write(e.r)
	case "paren":
		g.T("(").Opt()
		g.write(e.l)
		g.Opt().T(")")
	case "multi":
		for i, a := range e.args {
			if i > 0 && e.op == "" {
				g.Req()
			} else if i > 0 {
				g.Opt().T(e.op).Opt()
			}
			g.write(a)
		}
	case "text":
		g.T(e.text)
	case "var":
		g.T("var(").Opt().T(e.text).Opt().T(")")
	case "call":
		g.T(e.name + "(").Opt()
		for i, a := range e.args {
			if i > 0 {
				g.Opt().T(",").Opt()
			}
			g.write(a)
		}
		g.Opt().T(")")
	}
}

// countVars returns whether variables are used.
func (e *expr) vars() bool {
	if e == nil {
		return false
	}
	if e.kind == "var" {
		return true
	}
	for _, a := range e.args {
		if a.vars() {
			return true
		}
	}
	return e.l.vars() || e.r.vars()
}

func init() {
	fw.Register(&fw.Check{
		ID: "C18", Level: "exploration", Quick: 36000, Thorough: 900000,
		Rule:        "each case compiles declarations with calc() expressions (numbers in all notations, the four operators, parentheses, nested calc() and other functions, defined and undefined custom properties, all positions in values), with calc reduction and possibly other transforms, and compares the output to an evaluation in exact rational arithmetic with error bounds of double precision; non-trivial if at least one calc() is replaced and one is not, or at least three are replaced, distinct by source",
		Assumptions: []string{commonAssumption, "whitespace around operators in math is not compared (known finding of C04)"},
		Run: func(c *fw.Ctx) {
			r := c.R
			g := &calcGen{G: gen.New(r), vars: map[string]*expr{}}
			g.units = [][]string{{"px"}, {"px", ""}, {"px", "rem", "%", ""}, {"%", "px"}, {"PX", "px", ""}, {"deg", "s", ""}, {"rem", "vh", "em", "fr"}}[r.Intn(7)]
			g.faults = r.Intn(4) == 0
			g.commas = r.Intn(10) == 0
			opts := "c" + []string{"", "", "m", "r", "a", "rma"}[r.Intn(6)]
			if r.Intn(3) == 0 {
				g.unknown = []string{"--u"}
			}
			g.Opt()
			if r.Intn(3) == 0 {
				opts += "p"
				g.T(":root{").Opt()
				for i := 0; i < 3; i++ {
					n := fmt.Sprintf("--k%d", i)
					var e *expr
					typ := g.Pick("number", "dimension")
					if r.Intn(5) == 0 {
						// Several values, which make the calc() invalid.
						e = &expr{kind: "multi", op: g.Pick("", ","), args: []*expr{{kind: "text", text: "red"}, g.calc(1, typ)}}
						if r.Intn(2) == 0 {
							e.args[1] = g.num()
						}
						if r.Intn(2) == 0 {
							e.args[0], e.args[1] = e.args[1], e.args[0]
						}
					} else if r.Intn(2) == 0 {
						e = g.num()
					} else {
						e = g.calc(1, typ)
					}
					g.T(n).Opt().T(":").Opt()
					g.write(e)
					g.Opt().T(";").Opt()
					g.vars[n] = e
					g.names = append(g.names, n)
				}
				g.T("}").Opt()
			}
			var want []*expectation
			defined := &expectation{}
			for _, n := range g.names {
				defined.expect(g.vars[n])
			}
			ambiguous := defined.ambiguous
			rules := 1 + r.Intn(3)
			varsUsed := false
			for i := 0; i < rules; i++ {
				closeWith := "}"
				switch r.Intn(8) {
				case 0:
					g.T("@media print").Opt().T("{").Opt().T("a{")
					closeWith = "}}"
				case 1:
					g.T("@keyframes x{to{")
					closeWith = "}}"
				case 2:
					g.T("@supports (width:calc(1px + 2px)){a{")
					closeWith = "}}"
				case 3:
					g.T("@page{")
				default:
					g.T("a{").Opt()
				}
				for k, n := 0, 1+r.Intn(4)+g.Many(); k < n; k++ {
					x := &expectation{}
					if k > 0 {
						g.T(";").Opt()
					}
					g.T(g.Pick("width", "--w", "margin", "x-y")).Opt().T(":").Opt()
					if r.Intn(20) == 0 {
						// Sums need whitespace on both sides of the operator.
						x.verbatim, x.invalid = true, true
						a, b := g.num(), g.num()
						paren := func(e *expr) { g.T("("); g.write(e); g.T(")") }
						before := g.Pick("", "", "calc(1px + 2px) ", "foo(") + g.Pick("calc(", "calc((", "calc(2 * (", "min(1px,calc(", "CALC(")
						g.T(before).Opt()
						switch r.Intn(5) {
						case 0:
							g.write(a)
							g.Cmt().T("+").Req()
							g.write(b)
						case 1:
							paren(a)
							g.T(g.Pick("+", "-"))
							paren(b)
						case 2:
							paren(a)
							g.T(g.Pick("+", "-")).Req()
							g.write(b)
						case 3:
							paren(a)
							g.Req().T(g.Pick("+", "-"))
							paren(b)
						default:
							g.write(a)
							g.Req().T(g.Pick("+", "-"))
							paren(b)
						}
						g.Opt().T(strings.Repeat(")", strings.Count(before, "(")-strings.Count(before, ")")))
						want = append(want, x)
						continue
					}
					for j, m := 0, 1+r.Intn(3)+g.Many(); j < m; j++ {
						if j > 0 {
							switch r.Intn(4) {
							case 0:
								g.Opt().T(",").Opt()
								x.lit(",")
							case 1:
								g.Opt().T("/").Opt()
								x.lit("/")
							default:
								g.Req()
								x.lit(" ")
							}
						}
						typ := g.Pick("dimension", "dimension", "number")
						var e *expr
						switch r.Intn(8) {
						case 0:
							e = g.num()
						case 1:
							e = &expr{kind: "call", name: g.Pick("foo", "min", "rgba", "translate", g.Near("calc", "min", "var")), args: []*expr{g.calc(2, typ), g.num(), g.calc(1, typ)}}
						case 2:
							e = &expr{kind: "text", text: g.Pick("calc", "calc-x", "red", "\"calc(1px + 2px)\"", "#123")}
						default:
							e = g.calc(1+r.Intn(3), typ)
						}
						g.write(e)
						x.expect(e)
						varsUsed = varsUsed || e.vars()
					}
					want = append(want, x)
					ambiguous = ambiguous || x.ambiguous
				}
				g.Opt().Semi().Opt().T(closeWith).Opt()
			}
			src, _ := gen.Render(g.P, gen.RandomStyle(r))
			if ambiguous {
				c.Count("ambiguous_skipped", 1)
				return
			}
			input := src + "\noptions " + opts
			text, errs, out := drive.One(src, opts)
			if _, ok := out.Files["in.css"]; !ok {
				c.Violate(input, "no output; errors: %s", quoteList(errs))
				return
			}
			mustParse(src)
			nodes, problems := css.Parse(text)
			if len(problems) > 0 {
				c.Violate(input, "output is not well-formed: %v\noutput: %s", problems, text)
				return
			}
			var items []css.Item
			var collect func(nodes []*css.Node)
			var collectItems func([]css.Item)
			collect = func(nodes []*css.Node) {
				for _, n := range nodes {
					collectItems(n.Items)
				}
			}
			collectItems = func(its []css.Item) {
				for _, it := range its {
					if it.Node != nil {
						collect([]*css.Node{it.Node})
					} else {
						items = append(items, it)
					}
				}
			}
			collect(mustParse(src))
			sources := items
			items = nil
			collect(nodes)
			if len(items) != len(want) {
				c.Violate(input, "%d declarations became %d\noutput: %s", len(want), len(items), text)
				return
			}
			replaced, left := 0, 0
			reported, invalid := false, false
			for i, x := range want {
				got := tightText(items[i].Value, text)
				if x.verbatim {
					c.Count("without_whitespace", 1)
					if source := tightText(sources[i+len(sources)-len(want)].Value, src); got != source {
						c.Violate(input, "declaration %d without whitespace around an operator: %s becomes %s\noutput: %s", i, source, got, text)
						return
					}
					invalid = true
					continue
				}
				if d := x.matches(got); d != "" {
					c.Violate(input, "declaration %d: %s\nin %s\noutput: %s\nerrors: %s", i, d, got, text, quoteList(errs))
					return
				}
				replaced += x.replaced
				left += x.left
				reported = reported || x.reported
				invalid = invalid || x.invalid
			}
			var calcErrs []string
			for _, e := range errs {
				if strings.Contains(e, "use of undefined variable") {
					if strings.Contains(opts, "p") {
						continue
					}
				}
				calcErrs = append(calcErrs, e)
			}
			if len(calcErrs) > 0 && !invalid && !(varsUsed && defined.invalid) {
				c.Violate(input, "unexpected error: %s\noutput: %s", calcErrs[0], text)
				return
			}
			if reported && len(calcErrs) == 0 {
				c.Violate(input, "an invalid operation is not reported\noutput: %s", text)
				return
			}
			c.Count("replaced", replaced)
			c.Count("left", left)
			if reported {
				c.Count("with_reported_errors", 1)
			}
			c.State(fmt.Sprint(replaced, left, len(want), reported, invalid))
			if replaced > 0 && left > 0 || replaced >= 3 {
				c.Nontrivial(src)
				c.Sample(src)
			}
		},
	})
}
