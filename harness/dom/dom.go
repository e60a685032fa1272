// Package dom decides which elements selectors match, on abstract documents: simple selectors whose meaning doesn't
// matter are arbitrary (but fixed) predicates over elements. It shares no code with cssc.
package dom

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strings"

	"verif/harness/css"
)

// Doc is a document.
type Doc struct {
	parent []int
	index  []int // among siblings
	kids   [][]int
	link   []int // 0: no link, 1: unvisited, 2: visited
	salt   string
	// P is the probability that an arbitrary predicate holds.
	P float64
}

// New makes a random document with n elements.
func New(r *rand.Rand, n int) *Doc {
	d := &Doc{parent: make([]int, n), index: make([]int, n), kids: make([][]int, n), link: make([]int, n), salt: fmt.Sprint(r.Int63()), P: .55 + .4*r.Float64()}
	for i := range d.parent {
		d.parent[i] = -1
		if i > 0 {
			p := r.Intn(i)
			if r.Intn(2) == 0 {
				p = i - 1
			}
			d.parent[i] = p
			d.index[i] = len(d.kids[p])
			d.kids[p] = append(d.kids[p], i)
		}
		d.link[i] = r.Intn(3)
	}
	return d
}

func (d *Doc) hash(s ...string) float64 {
	h := fnv.New64a()
	h.Write([]byte(d.salt))
	for _, x := range s {
		h.Write([]byte{0})
		h.Write([]byte(x))
	}
	v := h.Sum64()
	v ^= v >> 31
	v *= 0x9E3779B97F4A7C15
	v ^= v >> 29
	return float64(v>>11) / (1 << 53)
}

// target is an element or a pseudo-element of it.
type target struct {
	elem int
	key  string // "" for the element
}

func (t target) String() string { return fmt.Sprint(t.elem, t.key) }

func (d *Doc) linkState(t target) int {
	if t.key == "" {
		return d.link[t.elem]
	}
	return int(d.hash("link", t.String()) * 3)
}

// Simple is a simple selector.
type Simple struct {
	Kind  string // "atom", "class" (pseudo-class), "element" (pseudo-element), "scope"
	Name  string // lower case
	Canon string
	Args  []*Complex // for functional ones with selectors
	Func  bool
}

// Complex is a complex selector.
type Complex struct {
	Compounds   [][]Simple
	Combinators []string // before each compound; the first is "" or a combinator of a relative selector
	// Canon is the canonical form.
	Canon string
	// AnyLinks counts :any-link in it, at any depth.
	AnyLinks int
}

// Parse parses a selector list.
func Parse(t []css.Token) []*Complex {
	var out []*Complex
	for _, s := range css.SplitTop(t, css.Comma) {
		out = append(out, parseComplex(s))
	}
	return out
}

func parseComplex(t []css.Token) *Complex {
	c := &Complex{Canon: css.CanonSelector(t)}
	comb := ""
	var cur []Simple
	flush := func() {
		if len(cur) > 0 {
			c.Compounds = append(c.Compounds, cur)
			c.Combinators = append(c.Combinators, comb)
			cur, comb = nil, ""
		}
	}
	for i := 0; i < len(t); i++ {
		x := t[i]
		switch {
		case x.Kind == css.Whitespace:
			flush()
			if comb == "" && len(c.Compounds) > 0 {
				comb = " "
			}
		case x.Kind == css.Delim && (x.Value == ">" || x.Value == "+" || x.Value == "~"):
			flush()
			comb = x.Value
		case x.Kind == css.Colon:
			st := i
			i++
			kind := "class"
			if i < len(t) && t[i].Kind == css.Colon {
				kind = "element"
				i++
			}
			if i >= len(t) {
				cur = append(cur, Simple{Kind: "atom", Canon: "?:"})
				continue
			}
			s := Simple{Kind: kind, Name: strings.ToLower(t[i].Value)}
			switch s.Name {
			case "before", "after", "first-line", "first-letter":
				s.Kind = "element"
			}
			if t[i].Kind == css.Function {
				e := closing(t, i)
				inner := t[i+1 : e]
				s.Func = true
				s.Canon = css.CanonSelector(t[st:min(e+1, len(t))])
				if !strings.HasPrefix(s.Name, "nth-") {
					s.Args = Parse(inner)
					for _, a := range s.Args {
						c.AnyLinks += a.AnyLinks
					}
				}
				i = e
			} else {
				s.Canon = css.CanonSelector(t[st : i+1])
				if s.Kind == "class" && s.Name == "any-link" {
					c.AnyLinks++
				}
			}
			cur = append(cur, s)
		case x.Kind == css.LBracket:
			e := closing(t, i)
			cur = append(cur, Simple{Kind: "atom", Canon: css.CanonSelector(t[i:min(e+1, len(t))])})
			i = e
		case x.Kind == css.Delim && x.Value == "." && i+1 < len(t):
			cur = append(cur, Simple{Kind: "atom", Canon: css.CanonSelector(t[i : i+2])})
			i++
		case x.Kind == css.Delim && x.Value == "*" && !(i+1 < len(t) && t[i+1].Kind == css.Delim && t[i+1].Value == "|"):
			// Everything.
			cur = append(cur, Simple{Kind: "any"})
		default:
			// A type selector, maybe with a namespace.
			st := i
			for i+1 < len(t) && (t[i+1].Kind == css.Delim && t[i+1].Value == "|" || t[i].Kind == css.Delim && t[i].Value == "|") {
				i++
			}
			cur = append(cur, Simple{Kind: "atom", Canon: css.CanonSelector(t[st : i+1])})
		}
	}
	flush()
	return c
}

func closing(t []css.Token, i int) int {
	depth := 0
	for ; i < len(t); i++ {
		switch t[i].Kind {
		case css.LParen, css.Function, css.LBracket, css.LCurly:
			depth++
		case css.RParen, css.RBracket, css.RCurly:
			if depth--; depth == 0 {
				return i
			}
		}
	}
	return len(t)
}

// compound returns the targets that a compound selector selects at t.
func (d *Doc) compound(s []Simple, t target, scope int) []target {
	targets := []target{t}
	for _, x := range s {
		var next []target
		for _, t := range targets {
			if x.Kind != "element" {
				if d.simple(x, t, scope) {
					next = append(next, t)
				}
				continue
			}
			if !x.Func {
				next = append(next, target{t.elem, t.key + "::" + x.Name})
				continue
			}
			// One for each element that the arguments match.
			for e := range d.parent {
				for _, a := range x.Args {
					if d.matches(a, target{elem: e}, scope) {
						next = append(next, target{t.elem, fmt.Sprintf("%s::%s(%d)", t.key, x.Name, e)})
						break
					}
				}
			}
		}
		targets = next
	}
	return targets
}

func (d *Doc) anyOf(args []*Complex, t target, scope int) bool {
	for _, a := range args {
		if d.matches(a, t, scope) {
			return true
		}
	}
	return false
}

func (d *Doc) simple(x Simple, t target, scope int) bool {
	switch x.Kind {
	case "any":
		return true
	case "scope":
		return t.key == "" && t.elem == scope
	case "class":
		if !x.Func {
			switch x.Name {
			case "any-link":
				return d.linkState(t) != 0
			case "link":
				return d.linkState(t) == 1
			case "visited":
				return d.linkState(t) == 2
			}
			break
		}
		switch x.Name {
		case "is", "where", "matches", "-webkit-any", "-moz-any":
			return d.anyOf(x.Args, t, scope)
		case "not":
			return !d.anyOf(x.Args, t, scope)
		case "has":
			for _, a := range x.Args {
				rel := &Complex{Compounds: append([][]Simple{{{Kind: "scope"}}}, a.Compounds...), Combinators: append([]string{""}, a.Combinators...)}
				if rel.Combinators[1] == "" {
					rel.Combinators[1] = " "
				}
				for e := range d.parent {
					if d.matches(rel, target{elem: e}, t.elem) {
						return true
					}
				}
			}
			return false
		}
		if x.Args != nil {
			// Matches if the arguments match some related element.
			other := int(d.hash("related", x.Name, t.String()) * float64(len(d.parent)))
			return d.anyOf(x.Args, target{elem: other}, scope)
		}
	}
	return d.hash("atom", x.Canon, t.String()) < d.P
}

// matches is whether a complex selector matches a target (without pseudo-elements in it).
func (d *Doc) matches(c *Complex, t target, scope int) bool {
	for _, x := range d.selects(c, t, scope) {
		if x == t {
			return true
		}
	}
	return false
}

// selects returns the targets that the last compound selects at t if the rest of the selector matches.
func (d *Doc) selects(c *Complex, t target, scope int) []target {
	if len(c.Compounds) == 0 {
		return nil
	}
	last := len(c.Compounds) - 1
	got := d.compound(c.Compounds[last], t, scope)
	if len(got) == 0 || !d.before(c, last, t.elem, scope) {
		return nil
	}
	return got
}

// before is whether the compounds before the k-th match, if that one matches e.
func (d *Doc) before(c *Complex, k, e, scope int) bool {
	if k == 0 {
		return true
	}
	var candidates []int
	p := d.parent[e]
	switch c.Combinators[k] {
	case " ":
		for ; p >= 0; p = d.parent[p] {
			candidates = append(candidates, p)
		}
	case ">":
		if p >= 0 {
			candidates = []int{p}
		}
	case "+":
		if p >= 0 && d.index[e] > 0 {
			candidates = []int{d.kids[p][d.index[e]-1]}
		}
	case "~":
		if p >= 0 {
			candidates = d.kids[p][:d.index[e]]
		}
	}
	for _, x := range candidates {
		if len(d.compound(c.Compounds[k-1], target{elem: x}, scope)) > 0 && d.before(c, k-1, x, scope) {
			return true
		}
	}
	return false
}

// Match returns everything that a selector list selects, sorted.
func (d *Doc) Match(list []*Complex) []string {
	set := map[string]bool{}
	for e := range d.parent {
		for _, c := range list {
			for _, t := range d.selects(c, target{elem: e}, -1) {
				set[t.String()] = true
			}
		}
	}
	out := make([]string, 0, len(set))
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Size is the number of elements.
func (d *Doc) Size() int { return len(d.parent) }
