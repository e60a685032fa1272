package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"verif/harness/drive"
	"verif/harness/fw"
	"verif/harness/gen"
)

// randomOpts picks transform options.
func randomOpts(r *rand.Rand) string {
	s := ""
	for _, l := range "rapmc" {
		if r.Intn(2) == 0 {
			s += string(l)
		}
	}
	return s + []string{"", "i", "f", "i"}[r.Intn(4)]
}

var corpusFiles []string

// corpusText returns a random part of a real stylesheet.
func corpusText(r *rand.Rand) string {
	if corpusFiles == nil {
		dir := fw.Verif + "/corpus"
		es, err := os.ReadDir(dir)
		if err != nil {
			panic(err)
		}
		for _, e := range es {
			b, err := os.ReadFile(filepath.Join(dir, e.Name()))
			if err != nil {
				panic(err)
			}
			corpusFiles = append(corpusFiles, string(b))
		}
	}
	s := corpusFiles[r.Intn(len(corpusFiles))]
	if len(s) < 1500 {
		return s
	}
	n := 200 + r.Intn(1200)
	i := r.Intn(len(s) - n)
	// Usually start at a rule.
	if j := strings.Index(s[i:], "\n}\n"); j >= 0 && r.Intn(4) > 0 {
		i = min(i+j+3, len(s)-n)
	}
	return s[i : i+n]
}

var fragments = []string{"{", "}", "(", ")", "[", "]", ";", ":", ",", "\"", "'", "/*", "*/", "\\", "@", "#", ".", "!", "!important", "url(", "u+", "--", "-", "+", "<", ">", "<=", "=", "~=", "|", "||", "&", "*", "/", "%", "~", "^", "$",
	"@media", "@import", "@import url(", "@custom-media --m1", "@keyframes", "@charset", "@font-face", "calc(", "var(", "var(--v1", ":not(", ":nth-child(", "::", "::slotted(", ":any-link", ":root{--v1:", "and", "or", "not", "only",
	"1e", "1e999", "1e-", "9999999999999999999999", ".5", "5.", "-.", "+.5", "0x", "#\\", "\\\n", "\\0", "\\ffffff", "\\d800", "\x00", "\x7f", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f", "\uFEFF", "\r", "\f", "\n", "\t", " ", "<!--", "-->", "é", "😀", "\u2028",
	"()", "[]", "{}", "{;}", "(,)", "var()", "var(,)", "var(--v1,)", "calc()", "calc(1px + )", "calc(/)", "@media{}", "@media (", "@media (width", "@media (width >", "@media (1px<width<", "@media not", "@media ,", "[a=", "[a=b", "[a=\"b", "a[", ":", "::", "a >", "> a", "a,,b", "@", "@;", "@{}", "!", "* {", "--x:{", "2n+", "2n-1", "-n+", "n"}

// mutate changes text in random places.
func mutate(r *rand.Rand, s string) string {
	for n := 1 + r.Intn(4); n > 0; n-- {
		if s == "" {
			s = fragments[r.Intn(len(fragments))]
		}
		i := r.Intn(len(s) + 1)
		switch r.Intn(9) {
		case 0: // truncate
			s = s[:i]
		case 1: // delete
			j := min(len(s), i+1+r.Intn(8))
			s = s[:i] + s[j:]
		case 2: // duplicate
			j := min(len(s), i+1+r.Intn(60))
			s = s[:j] + s[i:j] + s[j:]
		case 3: // overwrite
			if i < len(s) {
				s = s[:i] + string([]byte{byte(r.Intn(256))}) + s[i+1:]
			}
		case 4: // move
			j := min(len(s), i+1+r.Intn(40))
			k := r.Intn(len(s) + 1)
			part := s[i:j]
			s = s[:k] + part + s[k:]
		case 5: // tail only
			s = s[i:]
		default:
			s = s[:i] + fragments[r.Intn(len(fragments))] + s[i:]
		}
	}
	return s
}

// bomb is a stylesheet that is hard on recursion or on sizes.
func bomb(r *rand.Rand, big int) string {
	n := 1 + r.Intn(big)
	if r.Intn(3) == 0 {
		n = 990 + r.Intn(30) // close to the nesting limit
	}
	rep := strings.Repeat
	closed := r.Intn(2) == 0
	end := func(s string) string {
		if closed {
			return rep(s, n)
		}
		return ""
	}
	switch r.Intn(27) {
	case 24, 25, 26: // different ones, in each other
		openers := []string{"f(", "calc(", "(", "[", "{", "b:{", "a{b:", "a{b:c;", ":not(", ":is(a:any-link ", "::slotted(", ":nth-child(2n+1 of ", "@media (", "@media print{", "@media (a) and (not (", "@supports (", "@supports (a:b){", "@x{", "@x ", "var(--x,", "var(--x,var(", "@layer a{", "@keyframes k{from{", "--x:{", "--x:(", "*b:(", "b!{", "1px + (", "min(1px,", "1 * (2 + ", ":root{--a:", "@custom-media --m (", "@import url() (", "\"", "url(", "[a=", "[a|", "a|", "a,", "<!--", ";"}
		m := 1 + r.Intn(60)
		if r.Intn(3) == 0 {
			m = 1 + r.Intn(2000)
		}
		// Few kinds, so that the ones that lead to each other meet.
		k := 1 + r.Intn(4)
		var some []string
		for i := 0; i < k; i++ {
			some = append(some, openers[r.Intn(len(openers))])
		}
		var b, e strings.Builder
		b.WriteString([]string{"", "a{b:", "a{", "@media (", "@x{", "@media print{a{"}[r.Intn(6)])
		for i := 0; i < m; i++ {
			o := some[i%k]
			if r.Intn(8) == 0 {
				o = some[r.Intn(k)]
			}
			b.WriteString(o)
			for _, ch := range o {
				switch ch {
				case '(':
					e.WriteByte(')')
				case '[':
					e.WriteByte(']')
				case '{':
					e.WriteByte('}')
				}
			}
		}
		ends := []byte(e.String())
		for i, j := 0, len(ends)-1; i < j; i, j = i+1, j-1 {
			ends[i], ends[j] = ends[j], ends[i]
		}
		if !closed {
			ends = ends[:r.Intn(len(ends)+1)]
		}
		return b.String() + "1px" + string(ends) + "}"
	case 0:
		return "a{b:" + rep("f(", n) + "1" + end(")") + "}"
	case 1:
		return "a{b:" + rep("calc(", n) + "1px + 2px" + end(")") + "}"
	case 2:
		return "a{b:calc(" + rep("(", n) + "1px*2" + end(")") + ")}"
	case 3:
		return "@media " + rep("(", n) + "width>1px" + end(")") + "{a{b:c}}"
	case 4:
		return rep(":not(", n) + ":any-link" + end(")") + "{b:c}"
	case 5:
		return rep("@media print{", n) + "a{b:c}" + end("}")
	case 6:
		return "a{b:" + rep("[", n) + "c" + end("]") + "}"
	case 7:
		return "a{--b:" + rep("{", n) + "c" + end("}") + "}"
	case 8:
		return rep("@supports (a:b){", n) + "a{b:c}" + end("}")
	case 9:
		return "a{b:calc(1px" + rep(" + 1px", n) + ")}"
	case 10:
		return "a{b:calc(1px" + rep("*2", n) + ")}"
	case 11: // chain of custom properties
		var b strings.Builder
		m := min(n, 3000)
		for i := 0; i < m; i++ {
			fmt.Fprintf(&b, ":root{--c%d:var(--c%d)}", i, i+1)
		}
		fmt.Fprintf(&b, ":root{--c%d:1px}a{b:var(--c0)}", m)
		return b.String()
	case 12: // exponential growth of custom properties
		var b strings.Builder
		m := 5 + r.Intn(40)
		wraps := []string{"# #", "f(#,#)", "[# #]", "calc(# + #)", "calc((# + 1px) * (#))", "var(--u,# #)", "f(g([#])) f(#)", "var(--u,f(#)) h(calc(2*(#)))"}
		wrap := wraps[r.Intn(len(wraps))]
		mixed := r.Intn(4) == 0
		for i := 0; i < m; i++ {
			if mixed {
				wrap = wraps[r.Intn(len(wraps))]
			}
			fmt.Fprintf(&b, ":root{--c%d:%s}", i, strings.ReplaceAll(wrap, "#", fmt.Sprintf("var(--c%d)", i+1)))
		}
		fmt.Fprintf(&b, ":root{--c%d:1px}a{b:var(--c0)}", m)
		return b.String()
	case 13: // cycles
		m := 1 + r.Intn(20)
		var b strings.Builder
		for i := 0; i < m; i++ {
			fmt.Fprintf(&b, ":root{--c%d:var(--c%d) f(var(--c%d,1))}", i, (i+1)%m, r.Intn(m))
		}
		for i := 0; i < m; i++ {
			fmt.Fprintf(&b, "a{b:var(--c%d)}", i)
		}
		return b.String()
	case 14: // chains, cycles and growth of custom media
		m := 1 + r.Intn(30)
		var b strings.Builder
		for i := 0; i < m; i++ {
			switch r.Intn(6) {
			case 3:
				fmt.Fprintf(&b, "@custom-media --m%d (--m%d), (--m%d);", i, i+1, i+1)
			case 4:
				fmt.Fprintf(&b, "@custom-media --m%d screen and (--m%d), not all and (--m%d);", i, i+1, r.Intn(m+1))
			case 5:
				fmt.Fprintf(&b, "@custom-media --m%d ((--m%d) or (--m%d)) and (not (--m%d));", i, i+1, i+1, i+1)
			case 0:
				fmt.Fprintf(&b, "@custom-media --m%d (--m%d);", i, (i+1)%m)
			case 1:
				fmt.Fprintf(&b, "@custom-media --m%d (--m%d) and (--m%d);", i, i+1, i+1)
			default:
				fmt.Fprintf(&b, "@custom-media --m%d not (--m%d);", i, r.Intn(m+1))
			}
		}
		fmt.Fprintf(&b, "@custom-media --m%d (width>1px);@media (--m0){a{b:c}}", m)
		return b.String()
	case 15:
		m := min(n, 2000)
		var b strings.Builder
		for i := 0; i < m; i++ {
			fmt.Fprintf(&b, "@custom-media --m%d (--m%d);", i, i+1)
		}
		fmt.Fprintf(&b, "@custom-media --m%d (color);@media (--m0){a{b:c}}", m)
		return b.String()
	case 16:
		if r.Intn(2) == 0 {
			m := 1 + r.Intn(30)
			head := []string{":is(", ":not(:any-link ", ":is(:any-link, a ", "::slotted(:any-link ", ":where(:any-link,:any-link"}[r.Intn(5)]
			return rep(head, m) + ":any-link" + rep([]string{")", ":any-link)", ",:any-link)", " :any-link)"}[r.Intn(4)], m) + "{b:c}"
		}
		return rep("a:any-link ", min(n, 40)) + "{b:c}"
	case 17:
		return "::slotted(" + rep(":any-link ", min(n, 40)) + "){b:c}"
	case 18:
		return rep("a,", n) + "a{b:c}"
	case 19:
		return "a{" + rep("b:c;", n) + "}"
	case 20:
		return rep("\n", n) + "a{b:c}" + rep(" ", n)
	case 21:
		return "a{b:" + rep(rep("x", 50)+" ", n/20) + "}"
	case 22:
		return "a{b:\"" + rep("\\a ", n) + "\"}"
	default:
		return "a{b:var(--x" + rep(",var(--x", n) + end(")") + ")}"
	}
}

// bombFiles are stylesheets that import each other very often.
func bombFiles(r *rand.Rand) map[string]string {
	files := map[string]string{}
	last := []string{"a{b:c}", "a{b", strings.Repeat("a:any-link{b:calc(1px + 2px)}", 1+r.Intn(2000)), "@import './in.css';"}[r.Intn(4)]
	n := 1 + r.Intn(40)
	switch r.Intn(3) {
	case 0: // each one imports the next one twice (or more often)
		times := 2 + r.Intn(3)
		for i := 0; i < n; i++ {
			files[fmt.Sprintf("f%d.css", i)] = strings.Repeat(fmt.Sprintf("@import './f%d.css';", i+1), times)
		}
	case 1: // all import all the others
		n = min(n, 14)
		for i := 0; i < n; i++ {
			var b strings.Builder
			for j := 0; j <= n; j++ {
				fmt.Fprintf(&b, "@import './f%d.css';", j)
			}
			files[fmt.Sprintf("f%d.css", i)] = b.String()
		}
	default: // random ones of the others
		for i := 0; i < n; i++ {
			var b strings.Builder
			for j := 0; j < 1+r.Intn(4); j++ {
				fmt.Fprintf(&b, "@import './f%d.css';", r.Intn(n+1))
			}
			files[fmt.Sprintf("f%d.css", i)] = b.String() + "d{e:f}"
		}
	}
	files[fmt.Sprintf("f%d.css", n)] = last
	files["in.css"] = "@import './f0.css';g{h:i}"
	return files
}

func init() {
	fw.Register(&fw.Check{
		ID: "C01", Level: "exploration", Quick: 52800, Thorough: 1320000,
		Rule:        "each case compiles up to 12 hostile variants (truncations, mutations, splices, random bytes, nesting and growth bombs, also by imports) of a generated or real stylesheet, each as an entry or as an imported file, under random transform options; non-trivial if at least one variant reached an output and at least one an error, or the case is a bomb; distinct by text",
		Assumptions: []string{"a compilation that uses more than 20 s of CPU time or 3 GB of live heap on inputs below 200 KB doesn't finish for practical purposes"},
		Run: func(c *fw.Ctx) {
			r := c.R
			base := ""
			bombCase := r.Intn(24) == 0
			var variants []string
			if bombCase {
				base = bomb(r, 20000)
				variants = append(variants, base)
			} else {
				switch r.Intn(5) {
				case 0:
					base = corpusText(r)
				case 1:
					b := make([]byte, r.Intn(200))
					r.Read(b)
					base = string(b)
				case 2:
					var b strings.Builder
					for i, n := 0, 1+r.Intn(25); i < n; i++ {
						b.WriteString(fragments[r.Intn(len(fragments))])
						if r.Intn(2) == 0 {
							b.WriteString([]string{" ", "a", "{", "}", ";", ":"}[r.Intn(6)])
						}
					}
					base = b.String()
				case 3:
					g := gen.New(r)
					g.Sheet(gen.SheetOptions{Selectors: true, Values: true, AtRules: true, Min: 1, Max: 4, Depth: 2})
					base, _ = gen.Render(g.P, gen.RandomStyle(r))
				default:
					g := gen.New(r)
					o := gen.AllRich()
					o.Odd = true
					o.Imports = func(g *gen.G) string { return g.Pick("./other.css", "./x.css", "missing", "") }
					g.Rich(o)
					base, _ = gen.Render(g.P, gen.RandomStyle(r))
				}
				variants = append(variants, base)
				for i := 0; i < 11; i++ {
					switch r.Intn(3) {
					case 0:
						variants = append(variants, base[:r.Intn(len(base)+1)])
					default:
						variants = append(variants, mutate(r, base))
					}
				}
			}
			outputs, failures := 0, 0
			for _, v := range variants {
				opts := randomOpts(r)
				job := drive.Job{Files: map[string]string{"in.css": v}, Entries: []string{"in.css"}, Opts: opts}
				switch r.Intn(4) {
				case 0:
					job.Files["other.css"] = ":root{--v1:2px}@custom-media --m1 print;a:any-link{b:c}"
				case 1:
					job.Files = map[string]string{"in.css": "@import './x.css';a{b:var(--v1)}@media (--m1){c{d:e}}", "x.css": v}
				}
				if bombCase && r.Intn(10) == 0 {
					job.Files = bombFiles(r)
					if job.Opts = strings.Trim(opts, "fi"); r.Intn(6) != 0 {
						job.Opts = "i" + job.Opts
					} else {
						job.Opts = "f" + job.Opts
					}
					opts = job.Opts
					c.Count("import_bombs", 1)
				}
				input := drive.Describe(job.Files, job.Entries, opts)
				c.Trying(input)
				out := drive.Compile(job)
				_, there := out.Files["in.css"]
				if !there && len(out.Errs) == 0 {
					c.Violate(input, "no output and no error")
				}
				if there {
					outputs++
				}
				if len(out.Errs) > 0 {
					failures++
				}
				for _, e := range out.Errs {
					c.State(firstWords(message(e)))
				}
			}
			c.Count("compilations", len(variants))
			c.Count("outputs", outputs)
			c.Count("with_errors", failures)
			if outputs > 0 && failures > 0 || bombCase {
				c.Nontrivial(base)
				c.Sample(base)
			}
		},
	})
}
