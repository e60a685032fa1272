// Package media parses and evaluates media query lists. It shares no code with cssc.
package media

import (
	"fmt"
	"hash/fnv"
	"math"
	"strconv"
	"strings"

	"verif/harness/css"
)

// Query is a media query.
type Query struct {
	Problem string // why it's invalid
	Not     bool
	Type    string // lower case
	Cond    *Cond  // may be nil if there's a type
}

// Cond is a condition.
type Cond struct {
	Op   string // and, or, not, atom, range, custom
	Kids []*Cond
	// Parens is whether it stands in parentheses of its own.
	Parens bool
	// Name is the canonical text of an atom, or the name of a custom media query.
	Name string
	// ranges: the values are Bounds[i] Cmp[i] feature
	Feature string
	Bounds  []Bound
	// Range is whether it was written with comparison operators.
	Range bool
}

// Bound is a bound of a feature: feature Cmp value.
type Bound struct {
	Cmp  string // <, <=, >, >=, =
	Val  float64
	Unit string // "?" if it's no number
	Text string
	num  string // as it is written
}

// Key is the variable that a bound is about.
func (b Bound) Key(feature string) string { return feature + " " + b.Unit }

// parser is strict, but whitespace around keywords is optional (as long as they are tokens of their own).
type parser struct {
	t []css.Token
	i int
}

func (p *parser) ws() bool {
	some := false
	for p.i < len(p.t) && p.t[p.i].Kind == css.Whitespace {
		p.i++
		some = true
	}
	return some
}

func (p *parser) ident() string {
	if p.i < len(p.t) && p.t[p.i].Kind == css.Ident {
		return strings.ToLower(p.t[p.i].Value)
	}
	return ""
}

type problem string

func fail(f string, a ...any) { panic(problem(fmt.Sprintf(f, a...))) }

// Parse parses a media query list.
func Parse(t []css.Token) []*Query {
	var out []*Query
	if len(trim(t)) == 0 {
		return nil
	}
	for _, q := range css.SplitTop(t, css.Comma) {
		out = append(out, ParseQuery(q))
	}
	return out
}

func trim(t []css.Token) []css.Token {
	for len(t) > 0 && t[0].Kind == css.Whitespace {
		t = t[1:]
	}
	for len(t) > 0 && t[len(t)-1].Kind == css.Whitespace {
		t = t[:len(t)-1]
	}
	return t
}

// ParseQuery parses a single query.
func ParseQuery(t []css.Token) (q *Query) {
	q = &Query{}
	defer func() {
		if r := recover(); r != nil {
			why, ok := r.(problem)
			if !ok {
				panic(r)
			}
			q.Problem = string(why)
		}
	}()
	p := &parser{t: trim(t)}
	first := p.ident()
	if first == "" {
		q.Cond = p.condition(true)
		p.end()
		return q
	}
	if first == "not" || first == "only" {
		save := p.i
		p.i++
		p.ws()
		if p.ident() == "" {
			if first == "only" {
				fail("only without media type")
			}
			p.i = save
			q.Cond = p.condition(true)
			p.end()
			return q
		}
		q.Not = first == "not"
	}
	q.Type = p.ident()
	switch q.Type {
	case "and", "or", "not", "only", "layer":
		fail("%s is no media type", q.Type)
	}
	p.i++
	p.ws()
	if p.i == len(p.t) {
		return q
	}
	if p.ident() != "and" {
		fail("unexpected token after media type")
	}
	p.i++
	p.ws()
	q.Cond = p.condition(false)
	p.end()
	return q
}

func (p *parser) end() {
	p.ws()
	if p.i < len(p.t) {
		fail("unexpected token %q", p.t[p.i].Value)
	}
}

func (p *parser) condition(or bool) *Cond {
	p.ws()
	if p.ident() == "not" {
		p.i++
		p.ws()
		return &Cond{Op: "not", Kids: []*Cond{p.inParens()}}
	}
	kids := []*Cond{p.inParens()}
	op := ""
	for {
		save := p.i
		p.ws()
		x := p.ident()
		if x != "and" && x != "or" {
			p.i = save
			break
		}
		if op != "" && op != x {
			fail("and mixed with or")
		}
		if x == "or" && !or {
			fail("or after a media type")
		}
		op = x
		p.i++
		p.ws()
		kids = append(kids, p.inParens())
	}
	if op == "" {
		return kids[0]
	}
	return &Cond{Op: op, Kids: kids}
}

func (p *parser) inParens() *Cond {
	if p.i >= len(p.t) {
		fail("condition is missing")
	}
	x := p.t[p.i]
	if x.Kind != css.LParen && x.Kind != css.Function {
		fail("unexpected token %q", x.Value)
	}
	st := p.i
	depth := 0
	for ; p.i < len(p.t); p.i++ {
		switch p.t[p.i].Kind {
		case css.LParen, css.Function, css.LBracket, css.LCurly:
			depth++
		case css.RParen, css.RBracket, css.RCurly:
			depth--
		}
		if depth == 0 {
			break
		}
	}
	if p.i == len(p.t) {
		fail("unclosed parenthesis")
	}
	p.i++
	if x.Kind == css.Function {
		return &Cond{Op: "atom", Name: css.CanonTight(p.t[st:p.i])}
	}
	inner := trim(p.t[st+1 : p.i-1])
	if len(inner) == 0 {
		fail("empty parentheses")
	}
	if inner[0].Kind == css.LParen || strings.EqualFold(inner[0].Value, "not") && inner[0].Kind == css.Ident && len(inner) > 1 {
		in := &parser{t: inner}
		c := in.condition(true)
		in.end()
		c.Parens = true
		return c
	}
	return feature(inner)
}

func feature(t []css.Token) *Cond {
	atom := &Cond{Op: "atom", Name: css.CanonValue(t)}
	var parts [][]css.Token
	var ops []string
	st := 0
	depth := 0
	for i := 0; i < len(t); i++ {
		switch t[i].Kind {
		case css.LParen, css.Function, css.LBracket, css.LCurly:
			depth++
		case css.RParen, css.RBracket, css.RCurly:
			depth--
		case css.Delim:
			v := t[i].Value
			if depth > 0 || v != "<" && v != ">" && v != "=" {
				continue
			}
			parts = append(parts, trim(t[st:i]))
			if v != "=" && i+1 < len(t) && t[i+1].Kind == css.Delim && t[i+1].Value == "=" {
				v += "="
				i++
			}
			ops = append(ops, v)
			st = i + 1
		}
	}
	parts = append(parts, trim(t[st:]))
	for _, p := range parts {
		if len(p) == 0 {
			fail("empty operand")
		}
	}
	switch len(ops) {
	case 0:
		if t[0].Kind != css.Ident {
			fail("no feature")
		}
		if len(t) == 1 {
			if strings.HasPrefix(t[0].Value, "--") {
				return &Cond{Op: "custom", Name: t[0].Value}
			}
			return atom
		}
		rest := trim(t[1:])
		if rest[0].Kind != css.Colon || len(trim(rest[1:])) == 0 {
			fail("no value")
		}
		name := strings.ToLower(t[0].Value)
		cmp := "="
		switch {
		case strings.HasPrefix(name, "min--webkit-"), strings.HasPrefix(name, "max--webkit-"):
			// There is no such feature.
		case strings.HasPrefix(name, "min-"):
			cmp, name = ">=", name[4:]
		case strings.HasPrefix(name, "max-"):
			cmp, name = "<=", name[4:]
		case strings.HasPrefix(name, "-webkit-min-"):
			cmp, name = ">=", "-webkit-"+name[12:]
		case strings.HasPrefix(name, "-webkit-max-"):
			cmp, name = "<=", "-webkit-"+name[12:]
		}
		v := value(trim(rest[1:]))
		v.Cmp = cmp
		return &Cond{Op: "range", Feature: name, Bounds: []Bound{v}, Name: atom.Name}
	case 1:
		// Either side may be the feature.
		if len(parts[0]) == 1 && parts[0][0].Kind == css.Ident {
			v := value(parts[1])
			v.Cmp = ops[0]
			return &Cond{Op: "range", Range: true, Feature: strings.ToLower(parts[0][0].Value), Bounds: []Bound{v}, Name: atom.Name}
		}
		if len(parts[1]) != 1 || parts[1][0].Kind != css.Ident {
			fail("no feature in range")
		}
		v := value(parts[0])
		v.Cmp = flip(ops[0])
		return &Cond{Op: "range", Range: true, Feature: strings.ToLower(parts[1][0].Value), Bounds: []Bound{v}, Name: atom.Name}
	case 2:
		if len(parts[1]) != 1 || parts[1][0].Kind != css.Ident {
			fail("no feature in range")
		}
		if ops[0] == "=" || ops[0][0] != ops[1][0] {
			fail("mixed directions")
		}
		a, b := value(parts[0]), value(parts[2])
		a.Cmp, b.Cmp = flip(ops[0]), ops[1]
		return &Cond{Op: "range", Range: true, Feature: strings.ToLower(parts[1][0].Value), Bounds: []Bound{a, b}, Name: atom.Name}
	}
	fail("too many comparisons")
	return nil
}

func flip(op string) string {
	switch op[0] {
	case '<':
		return ">" + op[1:]
	case '>':
		return "<" + op[1:]
	}
	return op
}

func value(t []css.Token) Bound {
	b := Bound{Text: css.CanonValue(t), Unit: "?"}
	if len(t) == 1 && (t[0].Kind == css.Number || t[0].Kind == css.Percentage || t[0].Kind == css.Dimension) {
		f, err := strconv.ParseFloat(t[0].Num, 64)
		if err == nil {
			b.Val, b.Unit, b.num = f, "u:"+t[0].Unit, t[0].Num
			return b
		}
	}
	h := fnv.New32a()
	h.Write([]byte(b.Text))
	b.Val = float64(h.Sum32()%1000) / 10
	return b
}

// TakesIntegers is whether a feature only has integers as values (and bounds).
func TakesIntegers(feature string) bool {
	switch feature {
	case "color", "color-index", "monochrome", "horizontal-viewport-segments", "vertical-viewport-segments":
		return true
	}
	return false
}

// Valid is whether the feature can be compared with the bound.
func (b Bound) Valid(feature string) bool {
	return !TakesIntegers(feature) || b.Unit == "u:" && strings.Trim(b.num, "+-0123456789") == ""
}

// Walk visits all conditions.
func (c *Cond) Walk(f func(*Cond)) {
	if c == nil {
		return
	}
	f(c)
	for _, k := range c.Kids {
		k.Walk(f)
	}
}

// Env is a state of the world.
type Env struct {
	Salt   string
	Values map[string]float64 // by Bound.Key
	// Defs has the custom media queries.
	Defs map[string]*Query
}

func (e *Env) coin(s string) bool {
	h := fnv.New64a()
	h.Write([]byte(e.Salt))
	h.Write([]byte{0})
	h.Write([]byte(s))
	v := h.Sum64()
	v ^= v >> 31
	v *= 0x9E3779B97F4A7C15
	v ^= v >> 29
	return v>>40&1 == 1
}

// Query evaluates a query.
func (e *Env) Query(q *Query) bool {
	if q.Problem != "" {
		return false
	}
	v := true
	if q.Type != "" && q.Type != "all" {
		v = e.coin("type " + q.Type)
	}
	if v && q.Cond != nil {
		v = e.Cond(q.Cond)
	}
	return v != q.Not
}

// Cond evaluates a condition.
func (e *Env) Cond(c *Cond) bool {
	switch c.Op {
	case "not":
		return !e.Cond(c.Kids[0])
	case "and":
		for _, k := range c.Kids {
			if !e.Cond(k) {
				return false
			}
		}
		return true
	case "or":
		for _, k := range c.Kids {
			if e.Cond(k) {
				return true
			}
		}
		return false
	case "custom":
		if d, ok := e.Defs[c.Name]; ok {
			return e.Query(d)
		}
		return e.coin("custom " + c.Name)
	case "range":
		for _, b := range c.Bounds {
			if !b.Valid(c.Feature) {
				return e.coin("invalid")
			}
			v, ok := e.Values[b.Key(c.Feature)]
			if !ok {
				v = float64(int(math.Float64bits(float64(len(e.Salt)))%7)) + .5
			}
			ok = false
			switch b.Cmp {
			case "<":
				ok = v < b.Val
			case "<=":
				ok = v <= b.Val
			case ">":
				ok = v > b.Val
			case ">=":
				ok = v >= b.Val
			case "=":
				ok = v == b.Val
			}
			if !ok {
				return false
			}
		}
		return true
	}
	return e.coin("atom " + c.Name)
}
