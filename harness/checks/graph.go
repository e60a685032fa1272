package checks

import (
	"errors"
	"fmt"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/drive"
	"verif/harness/fw"
	"verif/harness/gen"
)

// edge is an import.
type edge struct {
	text   string // the whole rule
	spec   string
	target int    // index of the file, or -1 if it can't be imported
	bad    string // what an error has to mention if target is -1
	cond   bool   // whether or not it has conditions
}

// graphFile is a file of an import graph.
type graphFile struct {
	name   string
	header string // before the imports
	edges  []edge
	body   string
	bom    bool
}

// graph is a set of files that import each other.
type graph struct {
	files []graphFile
	extra map[string]string // unparsable files etc.
}

// text is the content of a file.
func (f *graphFile) text() string {
	var b strings.Builder
	if f.bom {
		b.WriteString("\uFEFF")
	}
	b.WriteString(f.header)
	for _, e := range f.edges {
		b.WriteString(e.text)
		b.WriteString("\n")
	}
	b.WriteString(f.body)
	return b.String()
}

func (g *graph) contents() map[string]string {
	m := map[string]string{}
	for i := range g.files {
		m[g.files[i].name] = g.files[i].text()
	}
	for k, v := range g.extra {
		m[k] = v
	}
	return m
}

var graphDirs = []string{"", "", "d", "d/e", "o", "node_modules/pkg", "d/node_modules/pkg", "node_modules/@s/q", "é ü"}

// oddNames are names next to which a sloppy treatment of paths finds another file.
var oddNames = []string{" x.css", "x ", "y", " x", "y ", "x?y", "x.css?y", "y?.css", "x#y", "x#y.css", "x%20.css", "x.css.css", "X.css", "y'(1).css", "x~.css", "*.css", "[x].css", "x:y.css", "x&.css", "x;y", "x,y.css", "\u00a0x", "y\u2028.css", "x\u0301.css", "é.css", "e\u0301.css", "-x", "@x.css", "x.", "index", "index.css.css"}

// specFor is a way to write the path of target in a file of dir.
func specFor(c *fw.Ctx, g *graph, dir, target string) string {
	r := c.R
	rel, err := filepath.Rel("/"+dir, "/"+target)
	if err != nil {
		panic(err)
	}
	taken := func(name string) bool { // there's something else at that path
		for i := range g.files {
			if g.files[i].name == name || strings.HasPrefix(g.files[i].name, name+"/") {
				return true
			}
		}
		for k := range g.extra {
			if k == name || strings.HasPrefix(k, name+"/") {
				return true
			}
		}
		return false
	}
	if r.Intn(3) == 0 && strings.HasSuffix(target, ".css") && !taken(strings.TrimSuffix(target, ".css")) {
		rel = strings.TrimSuffix(rel, ".css")
	} else if r.Intn(2) == 0 && path.Base(target) == "index.css" && path.Dir(target) != "." && !taken(path.Dir(target)+".css") {
		if d, err := filepath.Rel("/"+dir, "/"+path.Dir(target)); err == nil {
			rel = d
		}
	}
	// The nearest node_modules wins, so only the one next to the importer is used.
	prefix := "node_modules/"
	if dir != "" {
		prefix = dir + "/node_modules/"
	}
	if r.Intn(2) == 0 && strings.HasPrefix(target, prefix) {
		return strings.TrimPrefix(target, prefix)
	}
	if rel == "." || rel == ".." || strings.HasPrefix(rel, "../") {
		return rel
	}
	switch r.Intn(5) {
	case 0:
		return "./nope/../" + rel
	case 1:
		return "/" + rel
	case 2:
		return ".//" + rel
	}
	return "./" + rel
}

// randomGraph makes an import graph. bodies generates the content of the n-th file.
func randomGraph(c *fw.Ctx, maxFiles int, cycles float64, body func(n int) string) *graph {
	r := c.R
	g := &graph{extra: map[string]string{}}
	n := 1 + r.Intn(maxFiles)
	long, wide := false, false
	if r.Intn(120) == 0 {
		// Long chains, or a file that imports many.
		n = 10 + r.Intn(70)
		long = r.Intn(2) == 0
		wide = !long
	}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		var name string
		for {
			base := []string{"x.css", "y.css", "index.css", fmt.Sprintf("f%d.css", i), fmt.Sprintf("f%d", i), "x", "a.b.css", "Ü x.css"}[r.Intn(8)]
			if r.Intn(4) == 0 {
				base = oddNames[r.Intn(len(oddNames))]
			}
			name = path.Join(graphDirs[r.Intn(len(graphDirs))], base)
			// x.css and x next to each other would make specifiers ambiguous.
			stem := strings.TrimSuffix(name, ".css")
			if !used[stem] {
				used[stem] = true
				break
			}
		}
		g.files = append(g.files, graphFile{name: name, bom: r.Intn(8) == 0})
	}
	for k := 0; k < 2; k++ {
		if r.Intn(2) == 0 {
			g.extra[fmt.Sprintf("d/broken%d.css", k)] = brokenSheets[r.Intn(len(brokenSheets))]
		}
	}
	var extras []string
	for k := range g.extra {
		extras = append(extras, k)
	}
	sort.Strings(extras)
	for i := range g.files {
		f := &g.files[i]
		f.body = body(i)
		dir := path.Dir(f.name)
		if dir == "." {
			dir = ""
		}
		h := gen.New(r)
		h.Opt()
		if r.Intn(10) == 0 {
			h.T("@layer").Req().T("base").Opt().T(";").Opt()
		}
		f.header, _ = gen.Render(h.P, noBOM(gen.RandomStyle(r)))
		count := r.Intn(4)
		if long {
			count = 1 + r.Intn(30)/28
		} else if wide && i == 0 {
			count = n + r.Intn(4)
		} else if wide {
			count = r.Intn(10) / 9
		}
		for e := count; e > 0; e-- {
			var ed edge
			switch {
			case long && e == 1 && r.Intn(200) > 0 && i+1 < n:
				ed = edge{spec: specFor(c, g, dir, g.files[i+1].name), target: i + 1}
			case r.Intn(9) == 0:
				ed = edge{spec: fmt.Sprintf("./missing%d-%d", i, e), target: -1, bad: fmt.Sprintf("missing%d-%d", i, e)}
				if r.Intn(3) == 0 {
					ed.spec = ed.spec[2:]
				}
			case r.Intn(9) == 0 && len(extras) > 0:
				x := extras[r.Intn(len(extras))]
				ed = edge{spec: specFor(c, g, dir, x), target: -1, bad: path.Base(x)}
			default:
				t := r.Intn(n)
				if r.Float64() > cycles {
					// No cycle: only import later files.
					if i+1 == n {
						continue
					}
					t = i + 1 + r.Intn(n-i-1)
				}
				ed = edge{spec: specFor(c, g, dir, g.files[t].name), target: t}
			}
			b := gen.New(r)
			if r.Intn(5) == 0 {
				// Written with escapes; the pieces of strings keep them.
				switch esc := escapeSpec(c, ed.spec); r.Intn(2) {
				case 0:
					b.T("@import").Opt().Str(esc).Opt().T(";")
				default:
					b.T("@import").Req().T("url(").Ws().Str(esc).Ws().T(")").Opt().T(";")
				}
			} else {
				b.Import(ed.spec)
			}
			ed.text, _ = gen.Render(b.P, noBOM(gen.RandomStyle(r)))
			f.edges = append(f.edges, ed)
		}
	}
	return g
}

func noBOM(s gen.Style) gen.Style { s.BOM = false; return s }

// escapeSpec writes some characters of a specifier as escapes.
func escapeSpec(c *fw.Ctx, spec string) string {
	r := c.R
	var b strings.Builder
	for i, x := range spec {
		switch {
		case r.Intn(8) > 0:
			b.WriteRune(x)
		case r.Intn(3) == 0 && !strings.ContainsRune("0123456789abcdefABCDEF\n\r\f", x):
			b.WriteByte('\\')
			b.WriteRune(x)
		case r.Intn(2) == 0 && !strings.HasPrefix(spec[i+len(string(x)):], " "):
			fmt.Fprintf(&b, "\\%06x", x)
		default:
			fmt.Fprintf(&b, "\\%X%s", x, []string{" ", "\n", "\t", " "}[r.Intn(4)])
		}
	}
	return b.String()
}

// addConditions adds conditions to some imports.
func (g *graph) addConditions(c *fw.Ctx) {
	for i := range g.files {
		for k := range g.files[i].edges {
			e := &g.files[i].edges[k]
			if end := strings.LastIndexByte(e.text, ';'); c.R.Intn(3) == 0 && end >= 0 {
				conds := []string{"screen", "screen and (color), print", "(min-width:1px)", " not print", "(color) and (hover)"}
				e.text = e.text[:end] + " " + conds[c.R.Intn(len(conds))] + e.text[end:]
				e.cond = true
			}
		}
	}
}

// flat is what inlining has to make of a graph.
type flat struct {
	conds map[string]bool // imports with conditions that are inlined
	text  string
	bad   []string // what errors have to mention
	files int
	limit int
}

func (g *graph) flatten(i int, chain []int, out *flat, b *strings.Builder) {
	out.files++
	if out.files > out.limit {
		return
	}
	f := &g.files[i]
	b.WriteString(f.header)
	chain = append(append([]int{}, chain...), i)
	for n, e := range f.edges {
		fails := e.bad
		if e.target >= 0 {
			for _, k := range chain {
				if k == e.target {
					fails = path.Base(g.files[k].name)
				}
			}
		}
		if fails != "" {
			out.bad = append(out.bad, fails)
			b.WriteString(e.text)
			b.WriteString("\n")
			continue
		}
		if e.cond {
			if out.conds == nil {
				out.conds = map[string]bool{}
			}
			out.conds[fmt.Sprintf("%s %d", f.name, n)] = true
		}
		g.flatten(e.target, chain, out, b)
		b.WriteString("\n")
	}
	b.WriteString(f.body)
}

// reachable lists the files that can be reached from the entries.
func (g *graph) reachable(entries []int) map[int]bool {
	seen := map[int]bool{}
	for len(entries) > 0 {
		i := entries[0]
		entries = entries[1:]
		if seen[i] {
			continue
		}
		seen[i] = true
		for _, e := range g.files[i].edges {
			if e.target >= 0 {
				entries = append(entries, e.target)
			}
		}
	}
	return seen
}

var errStub = errors.New("stub-resolver-says-no")

// stubResolver resolves nothing.
type stubResolver struct{}

func (stubResolver) Resolve(string, string) (string, error) { return "", errStub }

// isUnlocated is whether an error has no position.
func isUnlocated(e string) bool { return !locationRE.MatchString(e) }

// errorPath is the file of a located error.
func errorPath(e string) string {
	if m := locationRE.FindStringSubmatch(e); m != nil {
		return m[1]
	}
	return ""
}

// graphInput describes a graph.
func (g *graph) input(entries []string, opts string) string {
	return drive.Describe(g.contents(), entries, opts)
}
