package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"

	"verif/harness/css"
	"verif/harness/drive"
	"verif/harness/fw"
	"verif/harness/gen"

	"github.com/stephen/cssc"
)

// cost is what a compilation used.
type cost struct {
	cpu   float64 // ms
	bytes float64
	count float64
}

// discard is a reporter that only counts.
type discard struct{ n int }

func (d *discard) AddError(error) { d.n++ }

func cpuMillis() float64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		panic(err)
	}
	return float64(ru.Utime.Nano()+ru.Stime.Nano()) / 1e6
}

// costOf measures the compilation of files.
func costOf(dir string, entries []string, opts string) cost {
	var paths []string
	for _, e := range entries {
		paths = append(paths, filepath.Join(dir, e))
	}
	runtime.GC()
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	t := cpuMillis()
	cssc.Compile(cssc.Options{Entry: paths, Reporter: &discard{}, Transforms: drive.ParseT(opts)})
	t = cpuMillis() - t
	runtime.ReadMemStats(&after)
	return cost{cpu: t, bytes: float64(after.TotalAlloc - before.TotalAlloc), count: float64(after.Mallocs - before.Mallocs)}
}

// scaled is something that can be repeated any number of times.
type scaled struct {
	kind string
	make func(n int) map[string]string
	// entries are all files unless there's in.css.
}

func one(kind string, f func(n int) string) scaled {
	return scaled{kind, func(n int) map[string]string { return map[string]string{"in.css": f(n)} }}
}

// around is a repeated text with something before and after it.
func around(kind, before, unit, after string) scaled {
	return one(kind, func(n int) string { return before + strings.Repeat(unit, n) + after })
}

// numbered is like around, with "#" replaced by the number of the repetition.
func numbered(kind, before, unit, after string) scaled {
	return one(kind, func(n int) string {
		var b strings.Builder
		b.WriteString(before)
		for i := 0; i < n; i++ {
			b.WriteString(strings.ReplaceAll(unit, "#", fmt.Sprint(i)))
		}
		b.WriteString(after)
		return b.String()
	})
}

// piecesText renders pieces.
func piecesText(c *fw.Ctx, f func(g *gen.G)) string {
	g := gen.New(c.R)
	f(g)
	s, _ := gen.Render(g.P, noBOM(gen.RandomStyle(c.R)))
	return s
}

func randomScaled(c *fw.Ctx) scaled {
	r := c.R
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	nl := pick("", "\n", "\r\n", " ", "\n\n\n", "/**/")
	switch r.Intn(20) {
	case 0, 1, 2, 3, 4:
		// A whole stylesheet, again and again.
		for try := 0; try < 20; try++ {
			o := gen.AllRich()
			o.Min, o.Max = 1, 1+r.Intn(5)
			text := piecesText(c, func(g *gen.G) { g.Rich(o) })
			if _, problems := css.Parse(text + "\n" + text); len(problems) == 0 && len(text) > 0 && len(text) < 6000 {
				return around("sheet", "", text+pick("\n", "\r\n", " "), "")
			}
		}
		return around("rules", "", "a{b:c}"+nl, "")
	case 5:
		sel := pick("a", ".a", "a b", "a>b", "a:any-link", ":not(a:any-link)", "a:nth-child(2n+1)", "[a=b]", "a::before", "a /**/ + b", "\\61 b", "é")
		return around("selector list", "", sel+","+nl, "a{b:c}")
	case 6:
		return around("compound", "", pick(".a", ":hover", "[a]", "#a", ":not(.a)", ":is(a,b)"), "{b:c}")
	case 7:
		return around("complex selector", "", pick("a ", "a>", "a + ", ".a~", "a\n"), "a{b:c}")
	case 8:
		return around("declarations", "a{", pick("b:c;", "b:1px solid red;", "--x:y;", "*b:c;", "b:{x};", "b:(c;", "é:url(x);", "b:c!important;", "b:var(--u);", "b:calc(1px + 2px);", ";", "b:calc(1px + 1);")+nl, "}")
	case 9:
		return around("values", "a{b:", pick("1px ", "a,", "\"s\" ", "url(x)", "f(a) ", "#fff ", "1px/2px,", "\"\\61 \"", "calc(1px + 2px) ", "[a] ", "var(--x) ", "var(--u,1px) ", "rgb(1,2,3)/**/", "\"é\" ")+nl, "1px}:root{--x:y}")
	case 10:
		return around("arguments", "a{b:f(", pick("1px ", "a,", "g(1,2),", "\"s\",", "url(x) ", "var(--x,2),")+nl, "1px)}:root{--x:y}")
	case 11:
		return around("math", "a{b:calc(", pick("1px + ", "1px - ", "2 * ", "1px + 2px * 3 - ", "(1px + 2px) + ", "var(--x) + ", "1em + 1px + "), "1px)}:root{--x:1px}")
	case 12:
		return around("media list", "@media ", pick("print", "(width>1px)", "(1px<=width<2px)", "not all and (color)", "(--m)", "screen and (--m)")+","+nl, "print{a{b:c}}@custom-media --m (color);")
	case 13:
		return around("media conditions", "@media ", pick("(width>1px)", "(1px<=width<2px)", "(color)", "(--m)", "(not (color))")+" and ", "(color){a{b:c}}@custom-media --m (color) and (width>2px);")
	case 14:
		return numbered("definitions", "", pick(":root{--x#:1px}a{b:var(--x#)}", "@custom-media --m# (width>#px);@media (--m#){a{b:c}}", ":root{--x#:var(--y) var(--y)}", "a{b:var(--x#)}:root{--x#:f(#,a)}", ":root{--x:#}a{b:var(--x)}", ".a#:any-link{b:c#}", "@media (width>#px){.a#{b:c}}", "@keyframes k#{from{a:b}to{a:c}}")+nl, ":root{--y:2px}")
	case 15:
		return around("blank", "", pick("\n", " ", "/* x */", "\r\n", "\t", "\r", "\f", "/*\n*/", "<!--", "-->", "/*é*/"), "a{b:c}")
	case 16:
		return around("one token", pick("a{b:\"", "a{b:url(", "@import \"", "a{b:", "", "@foo \"")+"x", pick("x", "é", "\\61 ", "-", "_x"), "")
	case 17:
		unit := pick("a ", "(a) ", "{a}", "a,", "\"s\" ", "[a]", "x:y;")
		return around("unknown at-rule", "@foo ", unit, pick(";", "{a:b}", "{a{b:c}}"))
	case 18:
		return around("rules in at-rule", pick("@media print{", "@supports (a:b){", "@layer x{", "@keyframes k{", "@font-face{"), pick("from{a:b}", "50%,to{a:b;c:d}", "a{b:c}", "a:b;")+nl, "}")
	}
	kind := r.Intn(4)
	return scaled{fmt.Sprint("files ", kind), func(n int) map[string]string {
		n = n/8 + 1
		files := map[string]string{}
		switch kind {
		case 0:
			for i := 0; i < n; i++ {
				files[fmt.Sprintf("e%d.css", i)] = "a{b:c}"
			}
		case 1:
			var b strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "@import './f%d.css';", i)
				files[fmt.Sprintf("f%d.css", i)] = "a{b:c}"
			}
			files["in.css"] = b.String()
		case 2:
			files["in.css"] = strings.Repeat("@import './f.css';", n)
			files["f.css"] = "a{b:c}"
		case 3:
			for i := 0; i < n; i++ {
				files[fmt.Sprintf("e%d.css", i)] = "@import './f.css';"
			}
			files["f.css"] = "a{b:c}"
		}
		return files
	}}
}

// sizeOf is the number of bytes of files.
func sizeOf(files map[string]string) (n int) {
	for k, v := range files {
		n += len(k) + len(v)
	}
	return n
}

const (
	scaleBy = 16
	// Proportional cost is scaleBy times as much; cost that is quadratic is scaleBy*scaleBy times as much.
	bytesLimit = 2.5 * scaleBy
	cpuLimit   = 5 * scaleBy
)

func init() {
	fw.Register(&fw.Check{
		ID: "C24", Level: "exploration", Quick: 4800, Thorough: 120000,
		Rule:        "each case measures the allocated bytes, the allocations and the CPU time of compiling something repeated n and 16n times (random stylesheets; lists of selectors, parts, declarations, values, arguments, operands, media queries, conditions, definitions, gaps; long tokens; unknown at-rules; many files) under random transforms; non-trivial if the larger one has at least 20 KB; distinct by kind and unit",
		Assumptions: []string{"a cost is called proportional if 16 times the input costs less than 40 times the memory and 80 times the CPU time (quadratic: 256 times); CPU time is measured up to six times and has to exceed the limit every time"},
		Run: func(c *fw.Ctx) {
			s := randomScaled(c)
			opts := randomOpts(c.R)
			n := 1
			for sizeOf(s.make(n)) < 16000 && n < 2000 {
				n *= 2
			}
			measure := func(n int) (cost, map[string]string) {
				files := s.make(n)
				dir := drive.TempDir()
				defer os.RemoveAll(dir)
				drive.Write(dir, files)
				var entries []string
				if _, ok := files["in.css"]; ok {
					entries = []string{"in.css"}
				} else {
					for k := range files {
						if strings.HasPrefix(k, "e") {
							entries = append(entries, k)
						}
					}
				}
				return costOf(dir, entries, opts), files
			}
			unit := s.make(1)
			input := fmt.Sprintf("%s, %d and %d times, options %q\n%s", s.kind, n, n*scaleBy, opts, drive.Describe(unit, nil, opts))
			c.Trying(input)
			measure(n) // Things that are only done once.
			small, _ := measure(n)
			big, files := measure(n * scaleBy)
			if big.bytes > bytesLimit*small.bytes+2e6 {
				c.Violate(input, "%.1f MB are allocated for 16 times what takes %.3f MB", big.bytes/1e6, small.bytes/1e6)
			}
			if big.count > bytesLimit*small.count+20000 {
				c.Violate(input, "%.0f allocations for 16 times what takes %.0f", big.count, small.count)
			}
			// CPU times are noisy, so they are measured again before they are believed.
			for try := 0; try < 5 && big.cpu > cpuLimit*max(small.cpu, 2); try++ {
				again, _ := measure(n)
				small.cpu = max(small.cpu, again.cpu)
				if again, _ = measure(n * scaleBy); again.cpu < big.cpu {
					big.cpu = again.cpu
				}
				c.Count("measured again", 1)
			}
			if big.cpu > cpuLimit*max(small.cpu, 2) {
				c.Violate(input, "%.0f ms of CPU time are used for 16 times what takes %.1f ms", big.cpu, small.cpu)
			}
			size := sizeOf(files)
			c.Count("bytes compiled", size)
			c.Count("ms of CPU time", int(big.cpu))
			if size > 20000 {
				c.Nontrivial(input)
			}
			c.State(s.kind + opts)
			c.Sample(clip(input, 3000))
		},
	})
}
