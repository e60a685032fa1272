// Package effect says what a stylesheet means to a browser that recovers from errors as css-syntax-3, selectors-4,
// mediaqueries-4 and css-values say: rules, declarations, media queries, keyframes and imports that are invalid
// are ignored. It shares no code with cssc.
package effect

import (
	"fmt"
	"strconv"
	"strings"

	"verif/harness/css"
	"verif/harness/media"
)

// Ignored is a part of a stylesheet that is ignored.
type Ignored struct {
	Start, End int
	Kind       string
}

// Of lists what takes effect, and what is ignored.
func Of(nodes []*css.Node) (eff []string, ignored []Ignored) {
	w := &walker{}
	w.rules(nodes, "", false)
	return w.out, w.ignored
}

type walker struct {
	out     []string
	ignored []Ignored
}

func (w *walker) ignore(start, end int, kind string) {
	w.ignored = append(w.ignored, Ignored{start, end, kind})
}

func (w *walker) line(ind, f string, a ...any) { w.out = append(w.out, ind+fmt.Sprintf(f, a...)) }

func (w *walker) rules(nodes []*css.Node, ind string, keyframes bool) {
	for _, n := range nodes {
		before := len(w.out)
		switch {
		case !n.At && keyframes:
			if !Keyframe(n.Prelude) {
				w.ignore(n.Start, n.End, "keyframe")
				continue
			}
			w.line(ind, "frame %s", strings.ToLower(css.CanonValue(n.Prelude)))
			w.decls(n.Items, ind+"  ")

		case !n.At:
			if !Selectors(n.Prelude) {
				w.ignore(n.Start, n.End, "selector")
				continue
			}
			w.line(ind, "rule %s", css.CanonSelectorList(n.Prelude))
			w.decls(n.Items, ind+"  ")
			if len(w.out) == before+1 {
				w.out = w.out[:before] // nothing in it
			}

		case keyframes:
			w.ignore(n.Start, n.End, "at-rule in keyframes")

		default:
			w.atRule(n, ind)
		}
	}
}

func (w *walker) atRule(n *css.Node, ind string) {
	before := len(w.out)
	name := strings.ToLower(n.Name)
	switch {
	case name == "custom-media":
		// Never printed, see the known findings.

	case name == "media":
		queries, any := Media(n.Prelude)
		if !any || !n.HasBlock {
			w.ignore(n.Start, n.End, "media")
			return
		}
		w.line(ind, "@media %s", queries)
		w.items(n.Items, ind+"  ", false)
		if len(w.out) == before+1 {
			w.out = w.out[:before]
		}

	case name == "import":
		target, rest, ok := Import(n.Prelude)
		if !ok || n.HasBlock || ind != "" {
			w.ignore(n.Start, n.End, "import")
			return
		}
		queries, any := Media(rest)
		if !any {
			w.ignore(n.Start, n.End, "import")
			return
		}
		w.line(ind, "@import %s %s", strconv.Quote(target), queries)

	case name == "keyframes" || strings.HasPrefix(name, "-") && strings.HasSuffix(name, "-keyframes"):
		if len(n.Prelude) != 1 || n.Prelude[0].Kind != css.Ident && n.Prelude[0].Kind != css.String || !n.HasBlock {
			w.ignore(n.Start, n.End, "keyframes")
			return
		}
		// The names of keyframes may be strings, so that these two are the same (unless they are keywords).
		w.line(ind, "@%s %s", name, css.CanonValue(n.Prelude))
		w.items(n.Items, ind+"  ", true)

	default:
		w.line(ind, "@%s %s", strconv.Quote(name), css.CanonValue(n.Prelude))
		if !n.HasBlock {
			return
		}
		if css.BlockKind(name) == "rules" {
			w.items(n.Items, ind+"  ", false)
			return
		}
		w.decls(n.Items, ind+"  ")
	}
}

func (w *walker) items(items []css.Item, ind string, keyframes bool) {
	for _, it := range items {
		if it.Node != nil {
			w.rules([]*css.Node{it.Node}, ind, keyframes)
		}
	}
}

func (w *walker) decls(items []css.Item, ind string) {
	for _, it := range items {
		if it.Node != nil {
			w.rules([]*css.Node{it.Node}, ind, false)
			continue
		}
		if !Declaration(it) {
			w.ignore(it.Start, it.End, "declaration")
			continue
		}
		w.line(ind, "%s", css.CanonDecl(it))
	}
}

// Declaration is whether a declaration is syntactically valid.
func Declaration(it css.Item) bool {
	if it.Prop == "" || strings.HasPrefix(it.Prop, "*") {
		return false
	}
	custom := strings.HasPrefix(it.Prop, "--")
	if len(it.Value) == 0 && !custom {
		return false
	}
	var open []css.Kind
	for _, t := range it.Value {
		switch t.Kind {
		case css.BadString, css.BadURL:
			return false
		case css.LParen, css.Function:
			open = append(open, css.RParen)
		case css.LBracket:
			open = append(open, css.RBracket)
		case css.LCurly:
			if !custom {
				return false
			}
			open = append(open, css.RCurly)
		case css.RParen, css.RBracket, css.RCurly:
			if len(open) == 0 || open[len(open)-1] != t.Kind {
				return false
			}
			open = open[:len(open)-1]
		case css.Semicolon:
			if !custom || len(open) == 0 {
				return false
			}
		case css.Delim:
			if t.Value == "!" && len(open) == 0 {
				return false
			}
		}
	}
	return len(open) == 0
}

// Keyframe is whether it is a valid list of keyframe selectors.
func Keyframe(t []css.Token) bool {
	for _, s := range css.SplitTop(t, css.Comma) {
		if len(s) != 1 {
			return false
		}
		switch x := s[0]; x.Kind {
		case css.Percentage:
		case css.Ident:
			if !strings.EqualFold(x.Value, "from") && !strings.EqualFold(x.Value, "to") {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// Import splits the prelude of an import.
func Import(t []css.Token) (target string, rest []css.Token, ok bool) {
	if len(t) == 0 {
		return "", nil, false
	}
	switch x := t[0]; {
	case x.Kind == css.String || x.Kind == css.URL:
		return x.Value, t[1:], true
	case x.Kind == css.Function && strings.EqualFold(x.Value, "url"):
		i := 1
		for i < len(t) && t[i].Kind == css.Whitespace {
			i++
		}
		if i >= len(t) || t[i].Kind != css.String {
			return "", nil, false
		}
		target = t[i].Value
		i++
		for i < len(t) && t[i].Kind == css.Whitespace {
			i++
		}
		if i >= len(t) || t[i].Kind != css.RParen {
			return "", nil, false
		}
		return target, t[i+1:], true
	}
	return "", nil, false
}

// Media is the canonical form of the queries that can be true; any is whether there are some.
func Media(t []css.Token) (queries string, any bool) {
	empty := true
	for _, x := range t {
		if x.Kind != css.Whitespace {
			empty = false
		}
	}
	if empty {
		return "", true
	}
	var out []string
	for _, q := range css.SplitTop(t, css.Comma) {
		if media.ParseQuery(q).Problem == "" {
			out = append(out, strings.ToLower(css.CanonValue(q)))
		}
	}
	return strings.Join(out, " , "), len(out) > 0
}

// sel reads selectors.
type sel struct {
	t []css.Token
	i int
}

func (s *sel) peek() css.Token {
	if s.i < len(s.t) {
		return s.t[s.i]
	}
	return css.Token{}
}

func (s *sel) delim(v string) bool {
	x := s.peek()
	return x.Kind == css.Delim && x.Value == v
}

func (s *sel) ws() bool {
	some := false
	for s.peek().Kind == css.Whitespace {
		s.i++
		some = true
	}
	return some
}

// Selectors is whether it is a valid list of complex selectors.
func Selectors(t []css.Token) bool { return list(t, false) }

func list(t []css.Token, relative bool) bool {
	for _, x := range css.SplitTop(t, css.Comma) {
		s := &sel{t: x}
		if !s.complex(relative) {
			return false
		}
	}
	return true
}

func (s *sel) combinator() bool {
	for _, c := range []string{">", "+", "~"} {
		if s.delim(c) {
			s.i++
			return true
		}
	}
	return false
}

func (s *sel) complex(relative bool) bool {
	s.ws()
	if relative && s.combinator() {
		s.ws()
	}
	for {
		if !s.compound() {
			return false
		}
		gap := s.ws()
		if s.i == len(s.t) {
			return true
		}
		if s.combinator() {
			s.ws()
			continue
		}
		if !gap {
			return false
		}
	}
}

// wqName reads a name with an optional namespace.
func (s *sel) wqName(star bool) bool {
	part := func() bool {
		if s.peek().Kind == css.Ident || star && s.delim("*") {
			s.i++
			return true
		}
		return false
	}
	save := s.i
	if s.peek().Kind == css.Ident || s.delim("*") {
		s.i++
	}
	if s.delim("|") {
		s.i++
		if part() {
			return true
		}
	}
	s.i = save
	return part()
}

func (s *sel) compound() bool {
	some := s.wqName(true)
	element := false
	for {
		x := s.peek()
		switch {
		case x.Kind == css.Hash && !element:
			// Hashes that are no identifiers (e.g. #1a) are no id selectors.
			if !identLike(x.Value) {
				return false
			}
			s.i++
		case x.Kind == css.Delim && x.Value == "." && !element:
			s.i++
			if s.peek().Kind != css.Ident {
				return false
			}
			s.i++
		case x.Kind == css.LBracket && !element:
			if !s.attribute() {
				return false
			}
		case x.Kind == css.Colon:
			s.i++
			if s.peek().Kind == css.Colon {
				s.i++
				element = true
			}
			if !s.pseudo() {
				return false
			}
		default:
			return some
		}
		some = true
	}
}

// identLike is whether the value of a hash could be an identifier (escapes aside, which are rare enough).
func identLike(v string) bool {
	if v == "" || v[0] >= '0' && v[0] <= '9' {
		return false
	}
	if v[0] == '-' {
		return len(v) > 1 && (v[1] < '0' || v[1] > '9')
	}
	return true
}

func (s *sel) block() (inner []css.Token, ok bool) {
	depth := 0
	for st := s.i; s.i < len(s.t); s.i++ {
		switch s.t[s.i].Kind {
		case css.LParen, css.Function, css.LBracket, css.LCurly:
			depth++
		case css.RParen, css.RBracket, css.RCurly:
			depth--
			if depth == 0 {
				inner = s.t[st+1 : s.i]
				s.i++
				return inner, true
			}
		}
	}
	return nil, false
}

func (s *sel) attribute() bool {
	inner, ok := s.block()
	if !ok {
		return false
	}
	a := &sel{t: inner}
	a.ws()
	if !a.wqName(false) {
		return false
	}
	a.ws()
	if a.i == len(a.t) {
		return true
	}
	for _, c := range []string{"^", "~", "$", "*", "|"} {
		if a.delim(c) {
			a.i++
			break
		}
	}
	if !a.delim("=") {
		return false
	}
	a.i++
	a.ws()
	if k := a.peek().Kind; k != css.Ident && k != css.String {
		return false
	}
	a.i++
	a.ws()
	if x := a.peek(); x.Kind == css.Ident && (strings.EqualFold(x.Value, "i") || strings.EqualFold(x.Value, "s")) {
		a.i++
		a.ws()
	}
	return a.i == len(a.t)
}

// pseudo reads the part of a pseudo-class or pseudo-element after the colons.
func (s *sel) pseudo() bool {
	x := s.peek()
	switch x.Kind {
	case css.Ident:
		s.i++
		switch strings.ToLower(x.Value) {
		case "nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type", "not", "is", "where", "has", "lang", "dir":
			return false // these need arguments
		}
		return true
	case css.Function:
		inner, ok := s.block()
		if !ok {
			return false
		}
		switch strings.ToLower(x.Value) {
		case "nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type":
			return Nth(inner)
		case "not":
			return list(inner, false)
		case "has":
			return list(inner, true)
		}
		// Forgiving lists, and those whose syntax we do not know: anything that isn't empty.
		for _, t := range inner {
			if t.Kind != css.Whitespace {
				return true
			}
		}
	}
	return false
}

func digits(s string) bool { return s != "" && strings.Trim(s, "0123456789") == "" }

// Nth is whether it is valid An+B.
func Nth(t []css.Token) bool {
	for len(t) > 0 && t[0].Kind == css.Whitespace {
		t = t[1:]
	}
	for len(t) > 0 && t[len(t)-1].Kind == css.Whitespace {
		t = t[:len(t)-1]
	}
	if len(t) == 0 {
		return false
	}
	integer := func(num string) bool { return digits(strings.TrimLeft(num, "+-")) }
	signed := func(x css.Token) bool {
		return x.Kind == css.Number && integer(x.Num) && (x.Num[0] == '+' || x.Num[0] == '-')
	}
	signless := func(x css.Token) bool { return x.Kind == css.Number && digits(x.Num) }

	plus := false
	if t[0].Kind == css.Delim && t[0].Value == "+" {
		// +n, without whitespace in between
		plus = true
		t = t[1:]
		if len(t) == 0 || t[0].Kind != css.Ident {
			return false
		}
	}
	x := t[0]
	rest := t[1:]
	name := ""
	switch x.Kind {
	case css.Number:
		return integer(x.Num) && len(rest) == 0
	case css.Dimension:
		if !integer(x.Num) {
			return false
		}
		name = strings.ToLower(x.Unit)
	case css.Ident:
		name = strings.ToLower(x.Value)
		if !plus && (name == "even" || name == "odd") {
			return len(rest) == 0
		}
		if !plus {
			name = strings.TrimPrefix(name, "-")
		}
	default:
		return false
	}
	for len(rest) > 0 && rest[0].Kind == css.Whitespace {
		rest = rest[1:]
	}
	switch {
	case name == "n":
		if len(rest) == 0 {
			return true
		}
		if signed(rest[0]) {
			return len(rest) == 1
		}
		if rest[0].Kind != css.Delim || rest[0].Value != "+" && rest[0].Value != "-" {
			return false
		}
		rest = rest[1:]
		for len(rest) > 0 && rest[0].Kind == css.Whitespace {
			rest = rest[1:]
		}
		return len(rest) == 1 && signless(rest[0])
	case name == "n-":
		return len(rest) == 1 && signless(rest[0])
	case strings.HasPrefix(name, "n-") && digits(name[2:]):
		return len(rest) == 0
	}
	return false
}
