package css

import (
	"strconv"
	"strings"
)

// CanonSelectorList is the canonical form of a selector list.
func CanonSelectorList(t []Token) string {
	var out []string
	for _, s := range SplitTop(trim(t), Comma) {
		out = append(out, CanonSelector(s))
	}
	return strings.Join(out, " , ")
}

// CanonSelectors is the same, one by one.
func CanonSelectors(t []Token) []string {
	var out []string
	for _, s := range SplitTop(trim(t), Comma) {
		out = append(out, CanonSelector(s))
	}
	return out
}

func isCombinator(t Token) bool {
	return t.Kind == Delim && (t.Value == ">" || t.Value == "+" || t.Value == "~")
}

// CanonSelector is the canonical form of a complex selector.
func CanonSelector(t []Token) string {
	t = trim(t)
	var b strings.Builder
	for i := 0; i < len(t); i++ {
		x := t[i]
		switch {
		case x.Kind == Whitespace:
			next := skipWS(t, i)
			if i > 0 && isCombinator(t[i-1]) || next < len(t) && isCombinator(t[next]) {
				continue
			}
			b.WriteString(" <desc> ")
			i = next - 1
		case isCombinator(x):
			b.WriteString(" <" + x.Value + "> ")
		case x.Kind == LBracket:
			e := match(t, i)
			if e >= len(t) {
				e = len(t) - 1
			}
			b.WriteString(canonAttribute(t[i+1 : e]))
			i = e
		case x.Kind == Function:
			e := match(t, i)
			inner := t[i+1 : min(e, len(t))]
			b.WriteString(strconv.Quote(x.Value) + "(")
			switch strings.ToLower(x.Value) {
			case "nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type":
				b.WriteString(CanonNth(inner))
			default:
				b.WriteString(CanonSelectorList(inner))
			}
			b.WriteString(")")
			i = e
		default:
			b.WriteString("{" + TokenText(x) + "}")
		}
	}
	return b.String()
}

func canonAttribute(t []Token) string {
	var out []string
	seenEq := false
	for _, x := range t {
		if x.Kind == Whitespace {
			continue
		}
		if x.Kind == Delim && x.Value == "=" {
			seenEq = true
			out = append(out, "=")
			continue
		}
		if seenEq && (x.Kind == Ident || x.Kind == String) {
			if out[len(out)-1] == "=" {
				out = append(out, "v:"+strconv.Quote(x.Value))
				continue
			}
			out = append(out, "flag:"+strings.ToLower(x.Value))
			continue
		}
		out = append(out, TokenText(x))
	}
	return "[" + strings.Join(out, "") + "]"
}

// CanonNth is the canonical form of An+B.
func CanonNth(t []Token) string {
	var b strings.Builder
	for _, x := range t {
		switch x.Kind {
		case Whitespace:
		case Number, Dimension:
			b.WriteString(x.Num + x.Unit)
		default:
			b.WriteString(x.Value)
		}
	}
	s := strings.ToLower(b.String())
	a, c, ok := ParseNth(s)
	if !ok {
		return "nth?" + s
	}
	return "nth:" + strconv.Itoa(a) + "n+" + strconv.Itoa(c)
}

// ParseNth parses An+B without whitespace.
func ParseNth(s string) (a, b int, ok bool) {
	switch s {
	case "even":
		return 2, 0, true
	case "odd":
		return 2, 1, true
	}
	n := strings.IndexByte(s, 'n')
	if n < 0 {
		b, err := strconv.Atoi(s)
		return 0, b, err == nil
	}
	switch as := s[:n]; as {
	case "", "+":
		a = 1
	case "-":
		a = -1
	default:
		v, err := strconv.Atoi(as)
		if err != nil {
			return 0, 0, false
		}
		a = v
	}
	rest := s[n+1:]
	if rest == "" {
		return a, 0, true
	}
	if rest[0] != '+' && rest[0] != '-' {
		return 0, 0, false
	}
	v, err := strconv.Atoi(rest)
	if err != nil {
		return 0, 0, false
	}
	return a, v, true
}
