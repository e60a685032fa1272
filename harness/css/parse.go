package css

import "strings"

// Node is a rule or an at-rule.
type Node struct {
	At       bool
	Name     string // at-rules
	Prelude  []Token
	HasBlock bool
	Items    []Item
	Start    int
	End      int
	// Open is the offset of the left curly brace.
	Open int
}

// Item is something in a block: a nested node, a declaration or something that isn't understood.
type Item struct {
	Node      *Node
	Prop      string
	Value     []Token
	Important bool
	Raw       []Token
	Start     int
	End       int
}

type parser struct {
	t    []Token
	i    int
	Errs []string
}

// Parse parses a stylesheet. problems lists everything that a well-formed stylesheet doesn't have.
func Parse(s string) (nodes []*Node, problems []string) {
	toks, unterminated := Tokenize(s)
	p := &parser{t: toks}
	if unterminated {
		p.Errs = append(p.Errs, "unterminated comment")
	}
	for _, t := range toks {
		if t.Unterminated || t.Kind == BadString || t.Kind == BadURL {
			p.Errs = append(p.Errs, "bad token "+s[t.Start:t.End])
		}
	}
	nodes = p.rules(true)
	if p.i < len(p.t) {
		p.Errs = append(p.Errs, "trailing tokens")
	}
	return nodes, p.Errs
}

func (p *parser) peek() Token {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return Token{}
}

func closer(k Kind) Kind {
	switch k {
	case LParen, Function:
		return RParen
	case LBracket:
		return RBracket
	case LCurly:
		return RCurly
	}
	return EOF
}

// until collects tokens up to (excluding) a top-level token for which stop is true, or an unbalanced closer.
func (p *parser) until(stop func(Token) bool) []Token {
	st := p.i
	var stack []Kind
	for p.i < len(p.t) {
		t := p.t[p.i]
		if len(stack) == 0 && stop(t) {
			break
		}
		if c := closer(t.Kind); c != EOF {
			stack = append(stack, c)
		} else if t.Kind == RParen || t.Kind == RBracket || t.Kind == RCurly {
			if len(stack) > 0 && stack[len(stack)-1] == t.Kind {
				stack = stack[:len(stack)-1]
			} else if len(stack) == 0 && t.Kind == RCurly {
				break
			} else {
				p.Errs = append(p.Errs, "unbalanced closer")
			}
		}
		p.i++
	}
	if len(stack) > 0 {
		p.Errs = append(p.Errs, "unclosed block")
	}
	return p.t[st:p.i]
}

func (p *parser) rules(top bool) []*Node {
	var out []*Node
	for p.i < len(p.t) {
		t := p.t[p.i]
		switch t.Kind {
		case Whitespace, CDO, CDC, Semicolon:
			p.i++
		case RCurly:
			if !top {
				return out
			}
			p.Errs = append(p.Errs, "stray }")
			p.i++
		case AtKeyword:
			out = append(out, p.atRule())
		default:
			n := &Node{Start: t.Start}
			n.Prelude = trim(p.until(func(t Token) bool { return t.Kind == LCurly }))
			if p.peek().Kind != LCurly {
				p.Errs = append(p.Errs, "rule without block")
				n.End = lastEnd(n.Prelude)
				out = append(out, n)
				continue
			}
			p.block(n, "")
			out = append(out, n)
		}
	}
	return out
}

func lastEnd(t []Token) int {
	if len(t) == 0 {
		return 0
	}
	return t[len(t)-1].End
}

// BlockKind returns what the block of an at-rule contains: rules or declarations.
func BlockKind(name string) string {
	switch strings.ToLower(name) {
	case "media", "supports", "layer", "container", "scope", "starting-style", "document", "-moz-document",
		"keyframes", "-webkit-keyframes", "-moz-keyframes", "-ms-keyframes", "-o-keyframes":
		return "rules"
	}
	return "declarations"
}

func (p *parser) atRule() *Node {
	t := p.t[p.i]
	p.i++
	n := &Node{At: true, Name: t.Value, Start: t.Start, End: t.End}
	n.Prelude = trim(p.until(func(t Token) bool { return t.Kind == LCurly || t.Kind == Semicolon }))
	if e := lastEnd(n.Prelude); e > n.End {
		n.End = e
	}
	switch p.peek().Kind {
	case LCurly:
		p.block(n, BlockKind(n.Name))
	case Semicolon:
		p.i++
	}
	return n
}

func (p *parser) block(n *Node, kind string) {
	n.HasBlock = true
	n.Open = p.t[p.i].Start
	p.i++
	if kind == "rules" {
		for _, c := range p.rules(false) {
			n.Items = append(n.Items, Item{Node: c, Start: c.Start, End: c.End})
		}
	} else {
		n.Items = p.decls()
	}
	if p.peek().Kind != RCurly {
		p.Errs = append(p.Errs, "unclosed {")
		return
	}
	n.End = p.t[p.i].End
	p.i++
}

func (p *parser) decls() []Item {
	var out []Item
	for p.i < len(p.t) {
		t := p.t[p.i]
		switch t.Kind {
		case Whitespace, Semicolon:
			p.i++
		case RCurly:
			return out
		default:
			toks := trim(p.until(func(t Token) bool { return t.Kind == Semicolon }))
			if len(toks) > 0 {
				out = append(out, declaration(toks))
			}
		}
	}
	return out
}

func declaration(toks []Token) Item {
	it := Item{Start: toks[0].Start, End: lastEnd(toks)}
	// A leading star is a well-known hack.
	star := 0
	if len(toks) > 1 && toks[0].Kind == Delim && toks[0].Value == "*" && toks[1].Kind == Ident {
		star = 1
	}
	if toks[star].Kind == Ident {
		k := skipWS(toks, star+1)
		if k < len(toks) && toks[k].Kind == Colon {
			it.Prop = strings.Repeat("*", star) + toks[star].Value
			v := trim(toks[k+1:])
			// A trailing ! important.
			if n := len(v); n > 0 && v[n-1].Kind == Ident && strings.EqualFold(v[n-1].Value, "important") {
				rest := trim(v[:n-1])
				if m := len(rest); m > 0 && rest[m-1].Kind == Delim && rest[m-1].Value == "!" {
					it.Important = true
					v = trim(rest[:m-1])
				}
			}
			it.Value = v
			return it
		}
	}
	it.Raw = toks
	return it
}

func skipWS(t []Token, i int) int {
	for i < len(t) && t[i].Kind == Whitespace {
		i++
	}
	return i
}

func trim(t []Token) []Token {
	for len(t) > 0 && t[0].Kind == Whitespace {
		t = t[1:]
	}
	for len(t) > 0 && t[len(t)-1].Kind == Whitespace {
		t = t[:len(t)-1]
	}
	return t
}

// SplitTop splits tokens at top-level separators.
func SplitTop(toks []Token, sep Kind) [][]Token {
	var out [][]Token
	depth, st := 0, 0
	for i, t := range toks {
		switch t.Kind {
		case LParen, Function, LBracket, LCurly:
			depth++
		case RParen, RBracket, RCurly:
			depth--
		case sep:
			if depth == 0 {
				out = append(out, trim(toks[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, trim(toks[st:]))
}

// match returns the index of the token closing the block opened at i (or len).
func match(t []Token, i int) int {
	depth := 0
	for ; i < len(t); i++ {
		switch t[i].Kind {
		case LParen, Function, LBracket, LCurly:
			depth++
		case RParen, RBracket, RCurly:
			depth--
			if depth == 0 {
				return i
			}
		}
	}
	return len(t)
}
