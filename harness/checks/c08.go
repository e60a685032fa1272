package checks

import (
	"fmt"
	"strings"

	"verif/harness/css"
	"verif/harness/drive"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/srcmap"
)

// construct is a rule or an at-rule in a text.
type construct struct {
	node  *css.Node
	label string
}

// constructs lists the rules in the order of the text, except for those that cssc doesn't output (opts says
// which transforms are on).
func constructs(nodes []*css.Node, opts string) []construct {
	var out []construct
	var visit func(n *css.Node, keyframes, top bool)
	visit = func(n *css.Node, keyframes, top bool) {
		lower := strings.ToLower(n.Name)
		if n.At && lower == "custom-media" && top {
			return
		}
		if !n.At && !keyframes {
			left := 0
			root := top && strings.Contains(opts, "p") && css.CanonSelectorList(n.Prelude) == rootSelector
			for _, it := range n.Items {
				if root && it.Raw == nil && strings.HasPrefix(it.Prop, "--") {
					continue
				}
				left++
			}
			if left == 0 {
				return
			}
		}
		l := "rule"
		if n.At {
			l = "@" + lower
		}
		out = append(out, construct{n, l})
		for _, it := range n.Items {
			if it.Node != nil {
				visit(it.Node, n.At && strings.HasSuffix(lower, "keyframes"), false)
			}
		}
	}
	for _, n := range nodes {
		visit(n, false, true)
	}
	return out
}

var rootSelector = func() string {
	n, _ := css.Parse(":root{}")
	return css.CanonSelectorList(n[0].Prelude)
}()

// checkMap compares the source map of raw with the source text. constructs that can't be paired are counted.
func checkMap(c *fw.Ctx, input, source, raw, opts string) {
	text, err := drive.Map(raw)
	if err != nil {
		c.Violate(input, "%v", err)
		return
	}
	m, err := srcmap.Decode(text)
	if err != nil {
		c.Violate(input, "source map: %v\n%s", err, text)
		return
	}
	if len(m.Sources) != 1 || len(m.SourcesContent) != 1 {
		c.Violate(input, "%d sources, %d contents, expected one of each", len(m.Sources), len(m.SourcesContent))
		return
	}
	noBOM := strings.TrimPrefix(source, "\uFEFF")
	embedded := m.SourcesContent[0]
	if embedded != source && embedded != noBOM {
		c.Violate(input, "source map embeds another text: %q", embedded)
		return
	}
	src, problems := css.Parse(noBOM)
	if len(problems) > 0 {
		panic(fmt.Sprintf("generated css is not well-formed: %v\n%q", problems, source))
	}
	out := drive.StripMap(raw)
	gen, problems := css.Parse(out)
	if len(problems) > 0 {
		c.Violate(input, "output is not well-formed: %v", problems)
		return
	}
	bom := len(embedded) - len(noBOM)
	st, gt := srcmap.NewText(embedded), srcmap.NewText(out)
	at := map[[2]int][]srcmap.Segment{}
	lastLine, lastCol := -1, -1
	for _, s := range m.Segments {
		if !s.HasSource {
			c.Violate(input, "segment without source at %d:%d", s.GenLine, s.GenCol)
			return
		}
		if s.GenLine >= gt.Lines() || s.GenCol > gt.LineUnits(s.GenLine) {
			c.Violate(input, "segment at %d:%d is outside of the output", s.GenLine, s.GenCol)
			return
		}
		if s.Line >= st.Lines() || s.Col > st.LineUnits(s.Line) {
			c.Violate(input, "segment at %d:%d points to %d:%d, outside of the source", s.GenLine, s.GenCol, s.Line, s.Col)
			return
		}
		if s.GenLine == lastLine && s.GenCol < lastCol {
			c.Violate(input, "segments are not sorted at %d:%d", s.GenLine, s.GenCol)
			return
		}
		lastLine, lastCol = s.GenLine, s.GenCol
		k := [2]int{s.GenLine, s.GenCol}
		at[k] = append(at[k], s)
	}
	want, got := constructs(src, opts), constructs(gen, "")
	if len(want) != len(got) {
		// That's a matter of C05, C16 and C17.
		c.Count("unpaired", 1)
		return
	}
	for i := range want {
		if want[i].label != got[i].label {
			c.Count("unpaired", 1)
			return
		}
	}
	for i, w := range want {
		g := got[i]
		gl, gc := gt.Pos(g.node.Start)
		sl, sc := st.Pos(w.node.Start + bom)
		found := false
		for _, s := range at[[2]int{gl, gc}] {
			if s.Line == sl && s.Col == sc {
				found = true
			}
		}
		if !found {
			c.Violate(input, "%s at %d:%d of the output starts at %d:%d in the source, segments there: %v\noutput: %s", w.label, gl, gc, sl, sc, at[[2]int{gl, gc}], clip(out, 2000))
			return
		}
	}
	c.Count("constructs_located", len(want))
	c.Count("segments", len(m.Segments))
	if len(want) >= 3 {
		c.Nontrivial(source)
		c.Sample(source)
	}
	c.State(fmt.Sprintf("%d lines %d constructs", st.Lines(), len(want)))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var fileNames = []string{"in.css", "in.css", "a b.css", "q\"uote.css", "back\\slash.css", "é日本😀.css", "<script>&.css", "new\nline.css", "tab\t.css", "per%cent%s.css", strings.Repeat("long", 60) + ".css", "\x01\x7f\u2028.css", "deep/er/dir/in.css", "bad\xff\xfe.css"}

var oddChars = []string{"\x00", "\x01", "\x07\x08\v", "\x1b", "\x7f", "\u0080\u009f", "\u00ad", "\u2028\u2029", "\u200b\u202e", "\uE000", "\uFEFF", "\uFFFD", "\uFFFE", "\U000E0001", "\U0010FFFF", "\U0001F468\u200d\U0001F469", "\"", "\\", "\\\"", "</style>&lt;", "'`${x}"}

func init() {
	fw.Register(&fw.Check{
		ID: "C08", Level: "exploration", Quick: 160000, Thorough: 4000000,
		Rule:        "each case compiles a random stylesheet (any construct, any formatting, sometimes with huge gaps, lines or astral characters, under odd file names) with random transforms but without inlining, decodes the source map and locates every rule of the output; non-trivial with at least three located constructs; distinct by source",
		Assumptions: []string{commonAssumption, "lines end at CSS newlines (LF, CR, CR LF, FF)", "rules of source and output correspond in order (transforms remove definitions, but don't move anything)"},
		Run: func(c *fw.Ctx) {
			r := c.R
			g := gen.New(r)
			pad := func() {
				// Big offsets, columns and line numbers.
				unit := g.Pick("x", "é", "😀", "日", "\n", " ", "\r\n", "\f", "a\r")
				n := []int{15, 16, 31, 32, 511, 512, 513, 1023, 1024, 16383, 16384, 16400, 33000, 65535, 65536, 70000}[r.Intn(16)]
				if r.Intn(60) == 0 {
					n = []int{530000, 1050000}[r.Intn(2)]
				}
				g.T("/*" + strings.Repeat(unit, n) + "*/")
			}
			for i, n := 0, 1+r.Intn(3); i < n; i++ {
				if r.Intn(4) == 0 {
					pad()
				}
				mixedSheet(c, g, r.Intn(6) == 0)
				g.Opt()
				if r.Intn(3) == 0 {
					// Characters that encoders of JSON have to get right.
					g.T("/*" + oddChars[r.Intn(len(oddChars))] + "*/")
				}
				if r.Intn(6) == 0 {
					g.T(".odd{content:\"" + strings.TrimRight(oddChars[r.Intn(len(oddChars))], "\\\"\x00") + "\"}")
				}
			}
			src, _ := gen.Render(g.P, gen.RandomStyle(r))
			name := fileNames[r.Intn(len(fileNames))]
			opts := strings.TrimRight(randomOpts(r), "if")
			files := map[string]string{name: src}
			entries := []string{name}
			if r.Intn(6) == 0 {
				// Other files don't matter.
				opts += "f"
				h := gen.New(r)
				h.Import("./" + "x.css")
				h.Opt()
				mixedSheet(c, h, false)
				other, _ := gen.Render(h.P, gen.RandomStyle(r))
				files["other.css"] = other
				files["x.css"] = "a{b:c}\n\n b{c:d}"
				entries = append(entries, "other.css")
			}
			out := drive.Compile(drive.Job{Files: files, Entries: entries, Opts: opts})
			for n, raw := range out.Raw {
				checkMap(c, clip(drive.Describe(map[string]string{n: files[n]}, entries, opts), 200000), files[n], raw, opts)
			}
			if len(out.Raw) < len(files) {
				c.Count("no_output", 1)
			}
		},
	})
}
