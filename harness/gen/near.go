package gen

import "strings"

// special has the names that CSS or cssc treat specially. Near never returns one of these.
var special = map[string]bool{}

var (
	nearFunctions = []string{"url", "url", "var", "calc", "min", "max", "clamp", "attr", "env", "local", "rgb", "rgba"}
	nearPseudos   = []string{"root", "any-link", "not", "is", "where", "has", "nth-child", "nth-last-child", "nth-of-type", "matches", "host", "link", "lang", "slotted"}
	nearAtRules   = []string{"import", "media", "custom-media", "keyframes", "supports", "layer", "font-face", "page", "charset", "namespace", "container", "property"}
	nearProps     = []string{"unicode-range", "filter", "content", "--x", "progid", "important", "src", "width"}
	nearWords     = []string{"important", "url", "even", "odd", "from", "to", "and", "or", "not", "only", "all", "screen", "inherit", "progid", "n", "i", "s"}
	nearTypes     = []string{"screen", "print", "all"}
	nearFeatures  = []string{"width", "height", "min-width", "max-height", "aspect-ratio", "color", "hover", "orientation", "prefers-color-scheme"}
)

func init() {
	for _, l := range [][]string{nearFunctions, nearPseudos, nearAtRules, nearProps, nearWords, nearTypes, nearFeatures, {
		"translate", "foo", "counter", "element", "expression", "src", "url-prefix", "domain", "regexp", "or", "and", "not", "only", "layer", "supports", "selector",
		"first-line", "first-letter", "before", "after", "any", "-webkit-any", "-moz-any", "current", "past", "future", "nth-last-of-type", "nth-col", "nth-last-col", "host-context", "cue", "part", "dir", "state", "popover",
		"max-width", "min-height", "-webkit-keyframes", "-moz-keyframes", "-o-keyframes", "-ms-keyframes", "-moz-document", "document", "viewport", "starting-style", "scope", "counter-style", "tan", "sin", "cos", "asin", "acos", "atan", "atan2", "mod", "rem", "round", "abs", "sign", "exp", "log", "pow", "sqrt", "hypot", "calc-size", "-webkit-calc", "-moz-calc", "-o-calc", "-ms-calc",
	}} {
		for _, w := range l {
			special[w] = true
		}
	}
}

// Near returns a name that resembles one of words but means something else.
func (g *G) Near(words ...string) string {
	for {
		w := g.Pick(words...)
		switch g.R.Intn(9) {
		case 0:
			w = g.Pick("x", "x-", "my-", "-my-", "_", "un") + w
		case 1, 2:
			w += g.Pick("s", "x", "-x", "2", "_", "-prefix", "-", "é")
		case 3:
			w = w[:len(w)-1]
		case 4:
			w = w[1:]
		case 5:
			w += w
		case 6:
			w += "-" + g.Pick(words...)
		case 7:
			k := g.R.Intn(len(w))
			w = w[:k] + g.Pick("a", "z", "-", "_") + w[k+1:]
		default:
			k := g.R.Intn(len(w))
			w = w[:k] + w[k:k+1] + w[k:]
		}
		if g.PlainNames {
			w = strings.ReplaceAll(w, "é", "e")
		}
		if g.Chance(.1) {
			w = strings.ToUpper(w)
		}
		if c := strings.TrimLeft(w, "-"); len(c) < 2 || len(w)-len(c) > 1 || c[0] < 'A' && c[0] != '_' {
			continue
		}
		if l := strings.ToLower(w); special[l] || strings.HasPrefix(l, "nth-") && special[strings.TrimSuffix(l, "-")] {
			continue
		}
		return w
	}
}
