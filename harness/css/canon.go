package css

import (
	"fmt"
	"strconv"
	"strings"
)

// TokenText is the canonical text of a token that isn't whitespace.
func TokenText(t Token) string {
	switch t.Kind {
	case Ident:
		return "i:" + strconv.Quote(t.Value)
	case Function:
		return "f:" + strconv.Quote(t.Value) + "("
	case AtKeyword:
		return "@:" + strconv.Quote(t.Value)
	case Hash:
		return "#:" + strconv.Quote(t.Value)
	case String:
		return "s:" + strconv.Quote(t.Value)
	case URL:
		return "u:" + strconv.Quote(t.Value)
	case Number, Percentage, Dimension:
		n := NormNumber(t.Num)
		n = strings.TrimPrefix(n, "+")
		if n == "-0" {
			n = "0"
		}
		if t.Unit != "" {
			return "n:" + n + " " + strconv.Quote(t.Unit)
		}
		return "n:" + n
	case BadString:
		return "BAD-STRING"
	case BadURL:
		return "BAD-URL"
	case Whitespace:
		return " "
	}
	return t.Value
}

// IsMath is whether a function's arguments are math expressions.
func IsMath(name string) bool {
	switch strings.ToLower(name) {
	case "calc", "min", "max", "clamp":
		return true
	}
	return false
}

// mathText is the text of a math function without any whitespace: cssc (and its tests) print
// math expressions without spaces, see known_findings.
func mathText(t []Token) string {
	var b strings.Builder
	for _, x := range t {
		switch x.Kind {
		case Whitespace:
		case Number, Percentage, Dimension:
			b.WriteString(x.Num)
			b.WriteString(x.Unit)
		case Function:
			b.WriteString(x.Value + "(")
		case String, URL:
			b.WriteString(TokenText(x))
		case Hash:
			b.WriteString("#" + x.Value)
		default:
			b.WriteString(x.Value)
		}
	}
	return b.String()
}

// CanonValue is the canonical form of a sequence of value tokens.
func CanonValue(t []Token) string {
	var out []string
	for i := 0; i < len(t); i++ {
		x := t[i]
		switch {
		case x.Kind == Whitespace:
		case x.Kind == Function && IsMath(x.Value):
			e := match(t, i)
			if e >= len(t) {
				e = len(t) - 1
			}
			out = append(out, "m:"+mathText(t[i:e+1]))
			i = e
		case x.Kind == Function && strings.EqualFold(x.Value, "url"):
			e := match(t, i)
			inner := []Token{}
			if e > i && e <= len(t) {
				inner = trim(t[i+1 : min(e, len(t))])
			}
			if len(inner) == 1 && inner[0].Kind == String {
				out = append(out, "u:"+strconv.Quote(inner[0].Value))
				i = e
				continue
			}
			out = append(out, TokenText(x))
		default:
			out = append(out, TokenText(x))
		}
	}
	return strings.Join(out, " ")
}

// CanonTight is like CanonValue, but keeps where whitespace is (collapsed).
func CanonTight(t []Token) string {
	var b strings.Builder
	for _, x := range trim(t) {
		if x.Kind == Whitespace {
			b.WriteString(" _ ")
			continue
		}
		b.WriteString(TokenText(x))
		b.WriteString(" ")
	}
	return b.String()
}

// CanonDecl is the canonical form of a declaration (or what stands in its place).
func CanonDecl(it Item) string {
	if it.Raw != nil {
		return "raw " + CanonValue(it.Raw)
	}
	s := strconv.Quote(it.Prop) + ": " + CanonValue(it.Value)
	if it.Important {
		s += " !important"
	}
	return s
}

// CanonImport is the canonical form of the prelude of @import.
func CanonImport(t []Token) string {
	t = trim(t)
	if len(t) > 0 && t[0].Kind == String {
		return strings.TrimSpace("u:" + strconv.Quote(t[0].Value) + " " + CanonValue(t[1:]))
	}
	return CanonValue(t)
}

// Options selects what a canonical form contains.
type Options struct {
	// StrictPreludes keeps whitespace of preludes of generic at-rules.
	StrictPreludes bool
	// NoSelectors, NoDecls leave out selectors or declarations.
	NoSelectors, NoDecls bool
	// NoMedia leaves out media queries.
	NoMedia bool
}

// Canon is the canonical form of a stylesheet.
func Canon(nodes []*Node, o Options) []string {
	var out []string
	for _, n := range nodes {
		canonNode(n, o, "", false, &out)
	}
	return out
}

func canonNode(n *Node, o Options, ind string, keyframes bool, out *[]string) {
	if !n.At {
		if len(n.Items) == 0 && !keyframes {
			// The compiler drops style rules without declarations, which have no effect.
			return
		}
		sel := ""
		if keyframes {
			sel = strings.ToLower(CanonValue(n.Prelude))
		} else if !o.NoSelectors {
			sel = CanonSelectorList(n.Prelude)
		}
		*out = append(*out, fmt.Sprintf("%srule %s {", ind, sel))
		canonItems(n.Items, o, ind+"  ", false, out)
		*out = append(*out, ind+"}")
		return
	}
	prelude := ""
	switch lower := strings.ToLower(n.Name); {
	case lower == "import" && o.NoMedia:
		if len(n.Prelude) > 0 {
			e := 0
			if n.Prelude[0].Kind == Function {
				e = match(n.Prelude, 0)
			}
			prelude = CanonImport(n.Prelude[:min(e+1, len(n.Prelude))])
		}
	case lower == "media" && o.NoMedia:
	case lower == "import":
		prelude = CanonImport(n.Prelude)
	case lower == "media" || lower == "custom-media" || strings.HasSuffix(lower, "keyframes") || !o.StrictPreludes:
		prelude = CanonValue(n.Prelude)
	default:
		prelude = CanonTight(n.Prelude)
	}
	if !n.HasBlock {
		*out = append(*out, fmt.Sprintf("%s@%s %s;", ind, strconv.Quote(strings.ToLower(n.Name)), prelude))
		return
	}
	*out = append(*out, fmt.Sprintf("%s@%s %s {", ind, strconv.Quote(strings.ToLower(n.Name)), prelude))
	canonItems(n.Items, o, ind+"  ", strings.HasSuffix(strings.ToLower(n.Name), "keyframes"), out)
	*out = append(*out, ind+"}")
}

func canonItems(items []Item, o Options, ind string, keyframes bool, out *[]string) {
	for _, it := range items {
		if it.Node != nil {
			canonNode(it.Node, o, ind, keyframes, out)
			continue
		}
		if o.NoDecls {
			continue
		}
		*out = append(*out, ind+CanonDecl(it))
	}
}

// Diff returns a description of the first difference between two canonical forms, or "".
func Diff(want, got []string) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "(end)", "(end)"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			return fmt.Sprintf("line %d: expected\n  %s\ngot\n  %s", i, w, g)
		}
	}
	return ""
}
