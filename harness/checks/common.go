// Package checks has one check per property.
package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"verif/harness/css"
	"verif/harness/drive"
	"verif/harness/fw"
	"verif/harness/gen"
)

const commonAssumption = "the independent CSS tokenizer/parser in harness/css reads CSS as css-syntax-3 says"

func quoteList(errs []string) string { return strings.Join(errs, "\n") }

// mustParse parses generated CSS; the generator is wrong if there are problems.
func mustParse(s string) []*css.Node {
	nodes, problems := css.Parse(s)
	if len(problems) > 0 {
		panic(fmt.Sprintf("generated css is not well-formed: %v\n%q", problems, s))
	}
	return nodes
}

// compareCanon compiles src without transforms and compares the canonical forms of input and output.
func compareCanon(c *fw.Ctx, src string, o css.Options) (ok bool) {
	want := css.Canon(mustParse(src), o)
	out, errs, res := drive.One(src, "")
	if len(errs) > 0 {
		c.Violate(src, "errors for a well-formed stylesheet: %s", quoteList(errs))
		return false
	}
	if _, there := res.Files["in.css"]; !there {
		c.Violate(src, "no output and no error")
		return false
	}
	nodes, problems := css.Parse(out)
	if len(problems) > 0 {
		c.Violate(src, "output is not well-formed: %v\noutput: %s", problems, out)
		return false
	}
	if d := css.Diff(want, css.Canon(nodes, o)); d != "" {
		c.Violate(src, "output differs: %s\noutput: %s", d, out)
		return false
	}
	return true
}

// fullSheet is the most general stylesheet.
func fullSheet(c *fw.Ctx) *gen.G {
	g := gen.New(c.R)
	g.Sheet(gen.SheetOptions{Selectors: true, Values: true, AtRules: true, Min: 1, Max: 6, Depth: 2})
	return g
}

func noComments(s string) bool { return !strings.Contains(s, "/*") }

func oneFile(f fw.Finding) (string, []string, *drive.Out) {
	return drive.One(f.Files["in.css"], f.Opts)
}

// mathSpaces is whether every + and - operator in the text has whitespace on both sides.
func mathSpaces(out string) bool {
	return strings.Contains(out, " + ") || strings.Contains(out, " - ")
}

var locationRE = regexp.MustCompile(`(?s)^(.*?):(\d+):(\d+)\n(.*?):\n\t`)

// message is the text of an error without its location.
func message(e string) string {
	if m := locationRE.FindStringSubmatch(e); m != nil {
		return m[4]
	}
	return trimStack(e)
}

// firstWords is the beginning of a message, for counting kinds of messages.
func firstWords(s string) string {
	w := strings.Fields(s)
	if len(w) > 4 {
		w = w[:4]
	}
	return strings.Join(w, " ")
}

func removeAll(dir string) { os.RemoveAll(dir) }

// diffMaps describes a difference between two sets of outputs.
func diffMaps(a, b map[string]string) string {
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return "missing " + k
		}
		if w != v {
			return fmt.Sprintf("%s:\n%s\n---\n%s", k, v, w)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return "additional " + k
		}
	}
	return ""
}

// stacksOff removes stack traces.
func stacksOff(errs []string) []string {
	out := make([]string, 0, len(errs))
	for _, e := range errs {
		out = append(out, trimStack(e))
	}
	return out
}

// anyResolver resolves everything to an empty file next to the importing one.
type anyResolver struct{}

func (anyResolver) Resolve(spec, from string) (string, error) {
	p := filepath.Join(from, "empty.css")
	if err := os.WriteFile(p, nil, 0o644); err != nil {
		panic(err)
	}
	return p, nil
}

// firstDiff shows where two texts start to differ.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-200)
	return fmt.Sprintf("at byte %d:\n%q\nbecomes\n%q", i, a[from:min(len(a), i+200)], b[from:min(len(b), i+200)])
}

// bigPad is a comment that makes offsets, columns or line numbers big. It has no tabs.
func bigPad(g *gen.G) {
	unit := g.Pick("x", "é", "\n", "\r\n", "x\n")
	sizes := []int{100, 255, 256, 1000, 4096, 9999, 32767, 32768, 65535, 65536, 70000, 140000}
	g.T("/*" + strings.Repeat(unit, sizes[g.R.Intn(len(sizes))]) + "*/")
}
