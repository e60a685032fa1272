// Package gen generates stylesheets. A stylesheet is a sequence of pieces; how the
// insignificant parts of it are written is only decided when it is rendered.
package gen

import (
	"fmt"
	"math/rand"
	"strings"

	"verif/harness/css"
)

// PieceKind says what a piece is.
type PieceKind int

// Piece kinds.
const (
	PText PieceKind = iota // verbatim text
	POpt                   // optional whitespace or comments
	PReq                   // whitespace is required
	PCmt                   // comments are possible, whitespace isn't
	PStr                   // a string with this content
	PSemi                  // a semicolon that may be left out
	PWs                    // optional whitespace, but no comments
	PMark                  // zero-width: records the offset under Text
)

// Piece is a part of a stylesheet.
type Piece struct {
	Kind PieceKind
	Text string
}

// B builds pieces.
type B struct {
	R *rand.Rand
	P []Piece
}

// T adds text.
func (b *B) T(s string) *B { b.P = append(b.P, Piece{PText, s}); return b }

// Tf adds formatted text.
func (b *B) Tf(f string, a ...any) *B { return b.T(fmt.Sprintf(f, a...)) }

// Opt adds a place for optional whitespace.
func (b *B) Opt() *B { b.P = append(b.P, Piece{Kind: POpt}); return b }

// Req adds required whitespace.
func (b *B) Req() *B { b.P = append(b.P, Piece{Kind: PReq}); return b }

// Cmt adds a place for comments.
func (b *B) Cmt() *B { b.P = append(b.P, Piece{Kind: PCmt}); return b }

// Ws adds a place for whitespace.
func (b *B) Ws() *B { b.P = append(b.P, Piece{Kind: PWs}); return b }

// Str adds a string.
func (b *B) Str(s string) *B { b.P = append(b.P, Piece{PStr, s}); return b }

// Semi adds an optional semicolon.
func (b *B) Semi() *B { b.P = append(b.P, Piece{Kind: PSemi}); return b }

// Mark adds a position mark.
func (b *B) Mark(name string) *B { b.P = append(b.P, Piece{PMark, name}); return b }

// Append adds other pieces.
func (b *B) Append(p []Piece) *B { b.P = append(b.P, p...); return b }

// Chance is true with probability p.
func (b *B) Chance(p float64) bool { return b.R.Float64() < p }

// Pick returns one of the strings.
func (b *B) Pick(s ...string) string { return s[b.R.Intn(len(s))] }

// Style decides how pieces are rendered.
type Style struct {
	R          *rand.Rand
	Newline    string  // "\n", "\r\n", "\r", "\f"
	Whitespace float64 // probability of optional whitespace
	Comment    float64 // probability of comments
	Quote      byte    // '"', '\'' or 0 for either
	LastSemi   float64 // probability of keeping optional semicolons
	BOM        bool
	LongGaps   bool
	Escape     float64 // probability of writing a character of a name as an escape
}

// Minimal has no optional parts.
func Minimal() Style { return Style{R: rand.New(rand.NewSource(1)), Newline: "\n", Quote: '"'} }

// RandomStyle picks a style.
func RandomStyle(r *rand.Rand) Style {
	s := Style{R: r, Newline: []string{"\n", "\n", "\r\n", "\r", "\f"}[r.Intn(5)]}
	s.Whitespace = []float64{0, .2, .5, .9}[r.Intn(4)]
	s.Comment = []float64{0, 0, .03, .3}[r.Intn(4)]
	s.Quote = []byte{'"', '\'', 0}[r.Intn(3)]
	s.LastSemi = []float64{0, .5, 1}[r.Intn(3)]
	s.BOM = r.Intn(8) == 0
	s.LongGaps = r.Intn(10) == 0
	if r.Intn(12) == 0 {
		s.Escape = []float64{.05, .3}[r.Intn(2)]
	}
	return s
}

var commentBodies = []string{"", "c", "*", " } ", "{", "\"", "'", ";", "!", "/", "//", " @media ", "url(", "é日本😀", "**", "\\", "<!--", "-->", "[", ")"}

func (s *Style) comment() string {
	c := "/*" + commentBodies[s.R.Intn(len(commentBodies))] + "*/"
	if s.LongGaps && s.R.Intn(30) == 0 {
		c = "/*" + strings.Repeat([]string{"c", "*", "é", "/ "}[s.R.Intn(4)], 100+s.R.Intn(3000)) + " */"
	} else if s.R.Intn(6) == 0 {
		c = "/*" + s.Newline + " x" + s.Newline + "*/"
	}
	return c
}

func (s *Style) ws() string {
	n := 1
	if s.R.Intn(4) == 0 {
		n = 1 + s.R.Intn(3)
	}
	if s.LongGaps && s.R.Intn(8) == 0 {
		n = 200 + s.R.Intn(300)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch s.R.Intn(5) {
		case 0:
			b.WriteString("\t")
		case 1, 2:
			b.WriteString(s.Newline)
		default:
			b.WriteString(" ")
		}
	}
	return b.String()
}

// Render renders pieces; marks has the byte offsets of the marks.
func Render(p []Piece, s Style) (string, map[string]int) {
	var b strings.Builder
	marks := map[string]int{}
	if s.BOM {
		b.WriteString("\uFEFF")
	}
	for _, x := range p {
		switch x.Kind {
		case PText:
			b.WriteString(s.escapeNames(x.Text))
		case PMark:
			off := b.Len()
			if s.BOM {
				off -= len("\uFEFF")
			}
			marks[x.Text] = off
		case POpt, PReq:
			wrote := false
			for s.Comment > 0 && s.R.Float64() < s.Comment {
				if s.Whitespace > 0 && s.R.Float64() < s.Whitespace {
					b.WriteString(s.ws())
					wrote = true
				}
				b.WriteString(s.comment())
			}
			if x.Kind == PReq && !wrote {
				if s.Whitespace > 0 && s.R.Float64() < s.Whitespace {
					b.WriteString(s.ws())
				} else {
					b.WriteString(" ")
				}
			} else if s.Whitespace > 0 && s.R.Float64() < s.Whitespace {
				b.WriteString(s.ws())
			}
		case PWs:
			if s.Whitespace > 0 && s.R.Float64() < s.Whitespace {
				b.WriteString(s.ws())
			}
		case PCmt:
			if s.Comment > .1 && s.R.Float64() < .15 {
				b.WriteString(s.comment())
			}
		case PStr:
			q := s.Quote
			if q == 0 {
				q = []byte{'"', '\''}[s.R.Intn(2)]
			}
			b.WriteByte(q)
			b.WriteString(escapeString(x.Text, q))
			b.WriteByte(q)
		case PSemi:
			if s.LastSemi > 0 && s.R.Float64() < s.LastSemi {
				b.WriteString(";")
			}
		}
	}
	return b.String(), marks
}

// escapeNames writes some characters of names as escapes, which mean the same.
func (s *Style) escapeNames(text string) string {
	if s.Escape == 0 || strings.ContainsAny(text, "+\\") {
		// U+26 and \31 stay as they are.
		return text
	}
	var b strings.Builder
	toks, _ := css.Tokenize(text)
	last := 0
	for _, t := range toks {
		from, to := t.Start, t.End
		switch t.Kind {
		case css.Ident:
		case css.AtKeyword:
			from++
		case css.Function:
			to--
		default:
			continue
		}
		b.WriteString(text[last:from])
		for _, c := range text[from:to] {
			switch {
			case s.R.Float64() >= s.Escape:
				b.WriteRune(c)
			case s.R.Intn(3) == 0 && !strings.ContainsRune("0123456789abcdefABCDEF", c):
				b.WriteByte('\\')
				b.WriteRune(c)
			case s.R.Intn(4) == 0:
				fmt.Fprintf(&b, "\\%06X ", c)
			default:
				fmt.Fprintf(&b, "\\%x ", c)
			}
		}
		last = to
	}
	b.WriteString(text[last:])
	return b.String()
}

// escapeString escapes the quote; everything else in the text (incl. escapes) is kept.
func escapeString(s string, q byte) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\' && i+1 < len(s):
			b.WriteByte(s[i])
			i++
			b.WriteByte(s[i])
		case s[i] == q:
			b.WriteByte('\\')
			b.WriteByte(q)
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}
