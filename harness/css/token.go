// Package css is an independent implementation of the CSS Syntax Level 3 tokenizer and parser
// plus canonical forms. It shares no code with cssc; the oracles compare what it reads in the input
// of a compilation with what it reads in the output.
package css

import (
	"math/big"
	"strings"
	"unicode/utf8"
)

// Kind is the type of a token.
type Kind int

// Token kinds.
const (
	EOF Kind = iota
	Ident
	Function
	AtKeyword
	Hash
	String
	BadString
	URL
	BadURL
	Delim
	Number
	Percentage
	Dimension
	Whitespace
	CDO
	CDC
	Colon
	Semicolon
	Comma
	LBracket
	RBracket
	LParen
	RParen
	LCurly
	RCurly
)

// Token is a CSS token. Offsets are byte offsets.
type Token struct {
	Kind  Kind
	Value string // unescaped
	Num   string // number as written
	Unit  string // unescaped
	Start int
	End   int
	// Unterminated is set for strings, urls and comments closed by the end of the file.
	Unterminated bool
}

type tokenizer struct {
	s            string
	i            int
	toks         []Token
	unterminated bool
}

// Tokenize tokenizes s. Comments are skipped. unterminated reports an unclosed comment.
func Tokenize(s string) (toks []Token, unterminated bool) {
	t := &tokenizer{s: s}
	if strings.HasPrefix(s, "\uFEFF") {
		t.i = len("\uFEFF")
	}
	for {
		tok, ok := t.next()
		if !ok {
			return t.toks, t.unterminated
		}
		if n := len(t.toks); n > 0 && tok.Kind == Whitespace && t.toks[n-1].Kind == Whitespace {
			t.toks[n-1].End = tok.End // there is a comment in between
			continue
		}
		t.toks = append(t.toks, tok)
	}
}

func isNewline(c byte) bool { return c == '\n' || c == '\r' || c == '\f' }
func isWS(c byte) bool      { return c == ' ' || c == '\t' || isNewline(c) }
func isDigit(c byte) bool   { return c >= '0' && c <= '9' }
func isHex(c byte) bool {
	return isDigit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}
func isNameStart(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80 || c == 0
}
func isName(c byte) bool { return isNameStart(c) || isDigit(c) || c == '-' }

func (t *tokenizer) at(k int) byte {
	if t.i+k < len(t.s) {
		return t.s[t.i+k]
	}
	return 1 // never meaningful; callers that care check eof
}
func (t *tokenizer) eof(k int) bool { return t.i+k >= len(t.s) }

func (t *tokenizer) validEscape(k int) bool {
	return !t.eof(k) && t.s[t.i+k] == '\\' && !(!t.eof(k+1) && isNewline(t.s[t.i+k+1]))
}

func (t *tokenizer) startsIdent(k int) bool {
	if t.eof(k) {
		return false
	}
	c := t.at(k)
	switch {
	case c == '-':
		return !t.eof(k+1) && (isNameStart(t.at(k+1)) || t.at(k+1) == '-') || t.validEscape(k+1) && !t.eof(k+2)
	case isNameStart(c):
		return true
	case c == '\\':
		return t.validEscape(k)
	}
	return false
}

func (t *tokenizer) startsNumber() bool {
	c := t.at(0)
	k := 0
	if c == '+' || c == '-' {
		k = 1
	}
	if t.eof(k) {
		return false
	}
	if isDigit(t.at(k)) {
		return true
	}
	return t.at(k) == '.' && !t.eof(k+1) && isDigit(t.at(k+1))
}

func (t *tokenizer) skipNewline() {
	if t.s[t.i] == '\r' && !t.eof(1) && t.s[t.i+1] == '\n' {
		t.i++
	}
	t.i++
}

// escape consumes an escape after the backslash.
func (t *tokenizer) escape() string {
	if t.eof(0) {
		return "\uFFFD"
	}
	if !isHex(t.at(0)) {
		r, n := utf8.DecodeRuneInString(t.s[t.i:])
		t.i += n
		if r == 0 {
			return "\uFFFD"
		}
		return string(r)
	}
	v := 0
	for n := 0; n < 6 && !t.eof(0) && isHex(t.at(0)); n++ {
		c := t.at(0)
		d := 0
		switch {
		case isDigit(c):
			d = int(c - '0')
		case c >= 'a':
			d = int(c-'a') + 10
		default:
			d = int(c-'A') + 10
		}
		v = v*16 + d
		t.i++
	}
	if !t.eof(0) && isWS(t.at(0)) {
		if isNewline(t.at(0)) {
			t.skipNewline()
		} else {
			t.i++
		}
	}
	if v == 0 || v >= 0xD800 && v <= 0xDFFF || v > 0x10FFFF {
		return "\uFFFD"
	}
	return string(rune(v))
}

func (t *tokenizer) name() string {
	var b strings.Builder
	for !t.eof(0) {
		c := t.at(0)
		switch {
		case c == 0:
			b.WriteString("\uFFFD")
			t.i++
		case isName(c):
			b.WriteByte(c)
			t.i++
		case t.validEscape(0):
			t.i++
			b.WriteString(t.escape())
		default:
			return b.String()
		}
	}
	return b.String()
}

func (t *tokenizer) number() string {
	st := t.i
	if c := t.at(0); c == '+' || c == '-' {
		t.i++
	}
	for !t.eof(0) && isDigit(t.at(0)) {
		t.i++
	}
	if !t.eof(1) && t.at(0) == '.' && isDigit(t.at(1)) {
		t.i++
		for !t.eof(0) && isDigit(t.at(0)) {
			t.i++
		}
	}
	if !t.eof(0) && (t.at(0) == 'e' || t.at(0) == 'E') {
		k := 1
		if !t.eof(1) && (t.at(1) == '+' || t.at(1) == '-') {
			k = 2
		}
		if !t.eof(k) && isDigit(t.at(k)) {
			t.i += k
			for !t.eof(0) && isDigit(t.at(0)) {
				t.i++
			}
		}
	}
	return t.s[st:t.i]
}

func (t *tokenizer) str(q byte) Token {
	st := t.i
	t.i++
	var b strings.Builder
	for {
		if t.eof(0) {
			return Token{Kind: String, Value: b.String(), Start: st, End: t.i, Unterminated: true}
		}
		c := t.at(0)
		switch {
		case c == q:
			t.i++
			return Token{Kind: String, Value: b.String(), Start: st, End: t.i}
		case isNewline(c):
			return Token{Kind: BadString, Start: st, End: t.i}
		case c == '\\':
			t.i++
			if t.eof(0) {
				continue
			}
			if isNewline(t.at(0)) {
				t.skipNewline()
				continue
			}
			b.WriteString(t.escape())
		case c == 0:
			b.WriteString("\uFFFD")
			t.i++
		default:
			b.WriteByte(c)
			t.i++
		}
	}
}

func (t *tokenizer) url(st int) Token {
	for !t.eof(0) && isWS(t.at(0)) {
		t.i++
	}
	var b strings.Builder
	bad := func() Token {
		for !t.eof(0) && t.at(0) != ')' {
			if t.validEscape(0) {
				t.i++
				t.escape()
				continue
			}
			t.i++
		}
		if !t.eof(0) {
			t.i++
		}
		return Token{Kind: BadURL, Start: st, End: t.i}
	}
	for {
		if t.eof(0) {
			return Token{Kind: URL, Value: b.String(), Start: st, End: t.i, Unterminated: true}
		}
		c := t.at(0)
		switch {
		case c == ')':
			t.i++
			return Token{Kind: URL, Value: b.String(), Start: st, End: t.i}
		case isWS(c):
			for !t.eof(0) && isWS(t.at(0)) {
				t.i++
			}
			if t.eof(0) {
				continue
			}
			if t.at(0) == ')' {
				continue
			}
			return bad()
		case c == '"' || c == '\'' || c == '(' || c != 0 && c < 9 || c == 0xb || c >= 0xe && c < 0x20 || c == 0x7f:
			return bad()
		case c == '\\':
			if !t.validEscape(0) {
				return bad()
			}
			t.i++
			b.WriteString(t.escape())
		case c == 0:
			b.WriteString("\uFFFD")
			t.i++
		default:
			b.WriteByte(c)
			t.i++
		}
	}
}

func (t *tokenizer) next() (Token, bool) {
	for strings.HasPrefix(t.s[t.i:], "/*") {
		e := strings.Index(t.s[t.i+2:], "*/")
		if e < 0 {
			t.i = len(t.s)
			t.unterminated = true
			break
		}
		t.i += 2 + e + 2
	}
	if t.eof(0) {
		return Token{}, false
	}
	st := t.i
	simple := func(k Kind, n int) (Token, bool) {
		t.i += n
		return Token{Kind: k, Value: t.s[st:t.i], Start: st, End: t.i}, true
	}
	c := t.at(0)
	switch {
	case isWS(c):
		for !t.eof(0) && isWS(t.at(0)) {
			t.i++
		}
		return Token{Kind: Whitespace, Start: st, End: t.i}, true
	case c == '"' || c == '\'':
		return t.str(c), true
	case c == '#':
		if !t.eof(1) && isName(t.at(1)) || t.validEscape(1) {
			t.i++
			n := t.name()
			return Token{Kind: Hash, Value: n, Start: st, End: t.i}, true
		}
		return simple(Delim, 1)
	case c == '(':
		return simple(LParen, 1)
	case c == ')':
		return simple(RParen, 1)
	case c == '[':
		return simple(LBracket, 1)
	case c == ']':
		return simple(RBracket, 1)
	case c == '{':
		return simple(LCurly, 1)
	case c == '}':
		return simple(RCurly, 1)
	case c == ',':
		return simple(Comma, 1)
	case c == ':':
		return simple(Colon, 1)
	case c == ';':
		return simple(Semicolon, 1)
	case c == '<' && strings.HasPrefix(t.s[t.i:], "<!--"):
		return simple(CDO, 4)
	case c == '@':
		if t.startsIdent(1) {
			t.i++
			n := t.name()
			return Token{Kind: AtKeyword, Value: n, Start: st, End: t.i}, true
		}
		return simple(Delim, 1)
	case (c == '+' || c == '-' || c == '.' || isDigit(c)) && t.startsNumber():
		num := t.number()
		if t.startsIdent(0) {
			u := t.name()
			return Token{Kind: Dimension, Num: num, Unit: u, Start: st, End: t.i}, true
		}
		if !t.eof(0) && t.at(0) == '%' {
			t.i++
			return Token{Kind: Percentage, Num: num, Unit: "%", Start: st, End: t.i}, true
		}
		return Token{Kind: Number, Num: num, Start: st, End: t.i}, true
	case c == '-' && strings.HasPrefix(t.s[t.i:], "-->"):
		return simple(CDC, 3)
	case t.startsIdent(0):
		n := t.name()
		if !t.eof(0) && t.at(0) == '(' {
			t.i++
			if strings.EqualFold(n, "url") {
				j := t.i
				for j < len(t.s) && isWS(t.s[j]) {
					j++
				}
				if j >= len(t.s) || t.s[j] != '"' && t.s[j] != '\'' {
					return t.url(st), true
				}
			}
			return Token{Kind: Function, Value: n, Start: st, End: t.i}, true
		}
		return Token{Kind: Ident, Value: n, Start: st, End: t.i}, true
	}
	_, n := utf8.DecodeRuneInString(t.s[t.i:])
	return simple(Delim, n)
}

// NormNumber returns a canonical spelling of a number as written in CSS, keeping an explicit sign.
func NormNumber(num string) string {
	sign := ""
	if num != "" && (num[0] == '+' || num[0] == '-') {
		sign, num = num[:1], num[1:]
	}
	if len(num) > 400 || expTooBig(num) {
		return sign + num
	}
	r, ok := new(big.Rat).SetString(num)
	if !ok {
		return sign + "?" + num
	}
	return sign + r.RatString()
}

func expTooBig(num string) bool {
	i := strings.IndexAny(num, "eE")
	return i >= 0 && len(strings.TrimLeft(num[i+1:], "+-0")) > 3
}

// Source is the text of a token.
func Source(t Token, src string) string { return src[t.Start:t.End] }
