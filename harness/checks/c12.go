package checks

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/harness/drive"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/srcmap"
)

// syntaxFaults are unparsable; the error has to be between the ‹ and the ›.
var syntaxFaults = []string{
	"‹}›", "a{b:c}‹}›x{y:z}", "a[‹=›]{b:c}", "a[b‹=]›{b:c}", "a[b~‹x›]{b:c}", "‹.1a›{b:c}", ".‹{›b:c}", "a:not(‹{›b:c}", ":‹{›b:c}",
	"a{b:‹\"x\n›}", "a{b:c;d:‹'y\n›}",
	"@import ‹5›;", "@import ‹;›", "@import ‹x›;", "@media ‹5› {a{b:c}}", "@media (width > ‹)›{a{b:c}}", "@media ‹()›{a{b:c}}", "@media (‹1px < 2px›){a{b:c}}",
	"@keyframes ‹{›from{a:b}}", "@keyframes x{‹middle›{a:b}}", "@keyframes x{‹1px›{a:b}}", "@keyframes x{from,‹{›a:b}}", "@custom-media ‹(color)›;", "@custom-media --x ‹;›",
	":nth-child(‹x› y){b:c}", ":nth-child(2n ‹x›){b:c}", "a{b:‹url(x\"›y)}", "a{b:‹url(x(›y)}", "a,‹{›b:c}",
	"@media print{‹@import› \"x\";}",
	// At the end of the file.
	"a{b:c‹›", "a{b:‹f(1px}x{y:z}›", "a{‹›", "a‹›", "a{b:f(x‹›", "@media print{a{b:c}‹›", "@media (color‹›", "a{b:‹\"x›", "‹/* x›", "a{b:‹url(x›", "@keyframes x{from{a:b}‹›", "a:not(.b‹›", "a[b=c‹›", "a{b:‹'x\\\n›", "@supports (a:b){c{d:e}‹›",
}

// planted is a problem and where it has to be reported.
type planted struct {
	file       string
	what       *regexp.Regexp
	start, end int
	exact      bool // the error is about exactly this text
	seen       int
}

// diagFile generates a file with transform problems.
type diagFile struct {
	name  string
	g     *gen.G
	plans []func(marks map[string]int, file string) *planted
}

var plantN int

func (d *diagFile) plant(what string, exact bool, body func()) {
	plantN++
	id := fmt.Sprintf("p%d", plantN)
	re := regexp.MustCompile(what)
	d.g.Mark(id + "<")
	body()
	d.g.Mark(id + ">")
	d.plans = append(d.plans, func(m map[string]int, file string) *planted {
		return &planted{file: file, what: re, start: m[id+"<"], end: m[id+">"], exact: exact}
	})
}

func (d *diagFile) filler(c *fw.Ctx) {
	d.g.Opt()
	if c.R.Intn(1500) == 0 {
		bigPad(d.g)
	}
	if c.R.Intn(3) == 0 {
		d.g.T(d.g.Pick("/*é日😀*/", "/*\n\n*/", "/* x\t*/"))
	}
	d.g.Sheet(gen.SheetOptions{Selectors: true, Min: 0, Max: 2})
	d.g.Opt()
}

// undefVar adds a use of an undefined property.
func (d *diagFile) undefVar() {
	plantN++
	name := fmt.Sprintf("--undef%d", plantN)
	d.plant("^use of undefined variable without fallback: "+name+"$", true, func() {
		d.g.T("var(").Opt().T(name).Opt().T(")")
	})
}

// badCalc adds an expression that can't be evaluated.
func (d *diagFile) badCalc(operand func() bool) {
	g := d.g
	d.plant("type together|must be a number|divide by zero|could not parse|cannot perform", false, func() {
		g.T("calc(").Opt()
		l, r := "1px", "2"
		op := g.Pick("+", "-")
		switch g.R.Intn(5) {
		case 0:
			l, r = r, l
		case 1:
			op, r = "*", "3em"
		case 2:
			op, r = "/", "0"
		case 3:
			op, l, r = "/", "6", "2px"
		}
		if g.Chance(.3) {
			g.T("(").Opt().T(l).Opt().T(")")
		} else {
			g.T(l)
		}
		g.Req().T(op).Req().T(r).Opt().T(")")
	})
}

func init() {
	fw.Register(&fw.Check{
		ID: "C12", Level: "exploration", Quick: 600000, Thorough: 15000000,
		Rule:        "each case plants problems at known offsets (a syntax fault, or several problems of transforms, in the entry, in inlined files or in definitions used elsewhere) in random stylesheets with all newline styles, multi-byte characters, tabs and byte order marks, and checks path, line, column, quoted line and underline of every message; non-trivial if a problem was located; distinct by content",
		Assumptions: []string{"lines end at CSS newlines (LF, CR, CR LF, FF); columns count bytes, without a byte order mark", "underlines of lines with tabs after the construct are not compared (known finding)"},
		RunKnown: func(c *fw.Ctx, f fw.Finding) {
			src := f.Files["in.css"]
			_, errs, out := drive.One(src, f.Opts)
			if len(errs) != 1 {
				c.Violate(src, "%d errors", len(errs))
				return
			}
			off := strings.Index(src, f.Kind)
			checkRendering(c, src, src, errs[0], off, off+len(f.Kind), true, true)
			_ = out
		},
		Run: func(c *fw.Ctx) {
			r := c.R
			if r.Intn(2) == 0 {
				syntaxCase(c)
				return
			}
			transformCase(c)
		},
	})
}

func syntaxCase(c *fw.Ctx) {
	r := c.R
	fault := syntaxFaults[r.Intn(len(syntaxFaults))]
	i, j := strings.Index(fault, "‹"), strings.Index(fault, "›")
	end := j == len(fault)-len("›") && strings.Count(fault, "") > 0 && atEOF(fault)
	st := gen.RandomStyle(r)
	fix := func(s string) string { return strings.ReplaceAll(s, "\n", st.Newline) }
	g := gen.New(r)
	g.Opt()
	g.Sheet(gen.SheetOptions{Selectors: true, Values: true, AtRules: r.Intn(2) == 0, Min: 0, Max: 3, Depth: 1})
	g.Opt()
	if r.Intn(700) == 0 {
		bigPad(g)
	}
	g.T(fix(fault[:i])).Mark("<").T(fix(fault[i+len("‹") : j])).Mark(">").T(fix(fault[j+len("›"):]))
	if !end {
		g.Opt()
		if r.Intn(2) == 0 {
			g.Sheet(gen.SheetOptions{Selectors: true, Values: true, Min: 0, Max: 2})
		}
	} else if r.Intn(3) == 0 && !strings.ContainsAny(fault, "\"'/") && !strings.Contains(fault, "url(") {
		g.Opt()
	}
	src, marks := gen.Render(g.P, st)
	content := strings.TrimPrefix(src, "\uFEFF")
	from, to := marks["<"], marks[">"]
	if end {
		to = len(content)
	}
	name := []string{"in.css", "dir/ä ö.css", "x:1:2.css"}[r.Intn(3)]
	files := map[string]string{name: src}
	entries := []string{name}
	// Only the syntax fault is reported.
	opts := []string{"", "a", "i", "f", "ai", "af"}[r.Intn(6)]
	if r.Intn(3) == 0 {
		files["main.css"] = "a{b:c}\n\n@import \"./" + name + "\";"
		entries = []string{"main.css"}
	}
	input := drive.Describe(files, entries, opts)
	c.Trying(input)
	out := drive.Compile(drive.Job{Files: files, Entries: entries, Opts: opts})
	if len(out.Errs) != 1 {
		c.Violate(input, "%d errors for one fault (%s): %v", len(out.Errs), fault, out.Errs)
		return
	}
	m := locationRE.FindStringSubmatch(out.Errs[0])
	if m == nil {
		c.Violate(input, "error without position: %s", out.Errs[0])
		return
	}
	if m[1] != filepath.Join("$DIR", name) {
		c.Violate(input, "error in %s, expected %s", m[1], name)
		return
	}
	off, ok := offsetOf(content, m[2], m[3])
	if !ok {
		c.Violate(input, "position %s:%s doesn't exist", m[2], m[3])
		return
	}
	if off < from || off > to || off == to && to > from && !end {
		c.Violate(input, "fault %s is reported at offset %d, expected %d-%d: %s", fault, off, from, to, out.Errs[0])
		return
	}
	checkRendering(c, input, content, out.Errs[0], off, 0, false, false)
	c.Count("syntax_faults_located", 1)
	c.State("syntax " + fault)
	c.Nontrivial(input)
	c.Sample(src)
}

// atEOF is whether a fault is the missing rest of a construct.
func atEOF(fault string) bool {
	for i, f := range syntaxFaults {
		if f == fault {
			return i >= eofFaults
		}
	}
	return false
}

var eofFaults = func() int {
	for i, f := range syntaxFaults {
		if f == "a{b:c‹›" {
			return i
		}
	}
	panic("no faults at the end")
}()

func offsetOf(content, line, col string) (int, bool) {
	l, err1 := strconv.Atoi(line)
	k, err2 := strconv.Atoi(col)
	t := srcmap.NewText(content)
	if err1 != nil || err2 != nil || l < 1 || l > t.Lines() || k < 1 {
		return 0, false
	}
	off := t.Offset(l-1) + k - 1
	if off > len(content) {
		return 0, false
	}
	if gl, _ := t.BytePos(off); gl != l {
		return 0, false
	}
	return off, true
}

func expandTabs(s string) string { return strings.ReplaceAll(s, "\t", "  ") }

// checkRendering checks the quoted line and the underline of a message.
func checkRendering(c *fw.Ctx, input, content, e string, start, end int, exact, strictTabs bool) {
	t := srcmap.NewText(content)
	line, col := t.BytePos(start)
	text := t.LineText(line - 1)
	m := locationRE.FindStringSubmatch(e)
	rest := strings.TrimPrefix(e, m[0])
	if !strings.HasPrefix(rest, expandTabs(text)+"\n\t") {
		c.Violate(input, "message doesn't quote line %d %q: %s", line, text, e)
		return
	}
	under := rest[len(expandTabs(text))+2:]
	if strings.Trim(under, " ~>") != "" {
		c.Violate(input, "unexpected underline %q: %s", under, e)
		return
	}
	if !strictTabs && strings.Contains(text[col-1:], "\t") {
		c.Count("underlines_with_tabs", 1)
		return
	}
	indent := len(under) - len(strings.TrimLeft(under, " "))
	marks := strings.TrimLeft(under, " ")
	want := utf8.RuneCountInString(expandTabs(text[:col-1]))
	if marks == "" {
		// An empty construct, like the end of the file.
		return
	}
	if indent != want {
		c.Violate(input, "underline starts at character %d, expected %d: %s", indent, want, e)
		return
	}
	tail := utf8.RuneCountInString(text[col-1:])
	tildes := strings.Count(marks, "~")
	if tildes > tail {
		c.Violate(input, "underline is longer than the line: %s", e)
		return
	}
	if exact {
		length := end - start
		more := ""
		if length > len(text)-(col-1) {
			length = len(text) - (col - 1)
			more = ">"
		}
		if w := strings.Repeat("~", utf8.RuneCountInString(text[col-1:col-1+length])) + more; marks != w {
			c.Violate(input, "underline %q, expected %q: %s", marks, w, e)
		}
	}
	c.Count("underlines_checked", 1)
}

func transformCase(c *fw.Ctx) {
	r := c.R
	n := 1 + r.Intn(3)
	var files []*diagFile
	for i := 0; i < n; i++ {
		d := &diagFile{name: []string{"in.css", "sub/b.css", "sub/ünï cödé.css"}[i], g: gen.New(r)}
		files = append(files, d)
	}
	decl := func(d *diagFile, body func()) {
		g := d.g
		g.T(g.Pick(".x", "é>b", "@media print{.y")).Opt()
		nested := strings.HasPrefix(g.P[len(g.P)-2].Text, "@")
		g.T("{").Opt().T(g.Pick("color", "--local", "margin")).T(":").Opt()
		if g.Chance(.3) {
			g.T("1px").Req()
		}
		wrap := g.Chance(.3)
		if wrap {
			g.T("f(").Opt().T("é").Opt().T(",").Opt()
		}
		body()
		if wrap {
			g.Opt().T(")")
		}
		if g.Chance(.3) {
			g.Req().T("\"é\"")
		}
		g.Opt().T("}")
		if nested {
			g.T("}")
		}
	}
	// Imports come first: the entry imports all other files.
	for i := n - 1; i > 0; i-- {
		files[0].g.Opt()
		files[0].g.Import("./" + files[i].name)
		files[0].g.T("\n")
	}
	defs := 0
	for _, d := range files {
		d := d
		g := d.g
		d.filler(c)
		for k, m := 0, r.Intn(4); k < m; k++ {
			switch r.Intn(7) {
			case 0, 1:
				decl(d, d.undefVar)
			case 2:
				decl(d, func() { d.badCalc(nil) })
			case 3:
				// A problem in a definition, which is used in some file.
				defs++
				name := fmt.Sprintf("--def%d", defs)
				g.T(":root{").Opt().T(name).T(":").Opt()
				if r.Intn(2) == 0 {
					d.undefVar()
				} else {
					d.badCalc(nil)
				}
				g.Opt().T("}")
				user := files[r.Intn(n)]
				decl(user, func() { user.g.T("var(" + name + ")") })
			case 4:
				// A problem that comes from a definition of another file.
				defs++
				name := fmt.Sprintf("--def%d", defs)
				user := files[r.Intn(n)]
				g.T(":root{" + name + ":3}")
				decl(user, func() {
					user.plant("type together", false, func() { user.g.T("calc(1px +").Req().T("var(" + name + "))") })
				})
			case 5:
				g.T("@media").Req()
				d.plant("non-numeric|tried to modify|could not parse", false, func() {
					g.T("(").Opt().T("width").Opt().T(g.Pick("<", ">")).Opt().T(g.Pick("auto", "calc(1px)")).Opt().T(")")
				})
				g.T("{a{b:c}}")
			default:
				defs++
				name := fmt.Sprintf("--media%d", defs)
				user := files[r.Intn(n)]
				g.T("@custom-media " + name + " print;")
				user.g.T("@media").Req()
				user.plant("media type", false, func() { user.g.T("(color) or").Req().T("(").Opt().T(name).Opt().T(")") })
				user.g.T("{a{b:c}}")
			}
			d.filler(c)
		}
	}
	contents := map[string]string{}
	stripped := map[string]string{}
	var all []*planted
	for _, d := range files {
		src, marks := gen.Render(d.g.P, gen.RandomStyle(r))
		contents[d.name] = src
		stripped[d.name] = strings.TrimPrefix(src, "\uFEFF")
		for _, p := range d.plans {
			all = append(all, p(marks, d.name))
		}
	}
	input := drive.Describe(contents, []string{"in.css"}, "rpmci")
	c.Trying(input)
	out := drive.Compile(drive.Job{Files: contents, Entries: []string{"in.css"}, Opts: "rpmci"})
	for _, e := range out.Errs {
		m := locationRE.FindStringSubmatch(e)
		if m == nil {
			c.Violate(input, "error without position: %s", e)
			return
		}
		name, ok := strings.CutPrefix(m[1], "$DIR/")
		content, known := stripped[name]
		if !ok || !known {
			c.Violate(input, "error in an unknown file: %s", e)
			return
		}
		off, ok := offsetOf(content, m[2], m[3])
		if !ok {
			c.Violate(input, "position doesn't exist: %s", e)
			return
		}
		var at *planted
		for _, p := range all {
			if p.file == name && p.what.MatchString(m[4]) && (p.exact && off == p.start || !p.exact && off >= p.start && off < p.end) {
				at = p
			}
		}
		if at == nil {
			c.Violate(input, "nothing like this is at offset %d of %s: %s", off, name, e)
			return
		}
		at.seen++
		checkRendering(c, input, content, e, off, at.end, at.exact, false)
		c.State(firstWords(m[4]) + " in " + name)
	}
	for _, p := range all {
		if p.seen == 0 {
			c.Violate(input, "%s at %d-%d of %s isn't reported: %v", p.what, p.start, p.end, p.file, out.Errs)
			return
		}
	}
	c.Count("transform_problems_located", len(all))
	if len(all) > 0 {
		c.Nontrivial(input)
		c.Sample(input)
	}
}
