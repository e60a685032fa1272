package checks

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/drive"
	"verif/harness/fw"
	"verif/harness/gen"

	"github.com/stephen/cssc/resolver"
)

// brokenSheets are stylesheets that cannot be parsed.
var brokenSheets = []string{"a{", "a{b:c", "}", "a", "a{b:\"x\n}", "@media (", "/*", "a{b:url(x", ".{}", "a[=]{}", "@media print{a{b:c}", "a{b:f(}", "a:not({b:c}", ":nth-child(x y){}", "a,{b:c}", "@import ;", "@import url(;", "\"x", "@keyframes{", "@media (width > ) {a{b:c}}", "@{}"}

// faultyResolver wraps the default resolver.
type faultyResolver struct {
	resolver.NodeResolver
}

var errResolver = errors.New("resolver failure")

func (f *faultyResolver) Resolve(spec, from string) (string, error) {
	switch {
	case strings.Contains(spec, "fail"):
		return "", errResolver
	case strings.Contains(spec, "ghost"):
		return filepath.Join(from, "ghost-does-not-exist.css"), nil
	}
	return f.NodeResolver.Resolve(spec, from)
}

// dedupe returns the distinct messages, sorted.
func dedupe(errs []string) []string {
	m := map[string]bool{}
	for _, e := range errs {
		m[trimStack(e)] = true
	}
	out := make([]string, 0, len(m))
	for e := range m {
		out = append(out, e)
	}
	sort.Strings(out)
	return out
}

// trimStack removes the stack traces of wrapped errors, but keeps what they say.
func trimStack(e string) string {
	i := strings.Index(e, "\n\n")
	if i < 0 {
		return e
	}
	out := e[:i]
	for _, l := range strings.Split(e[i+2:], "\n") {
		if j := strings.Index(l, ": "); j >= 0 && !strings.HasPrefix(l, "\t") {
			out += " | " + l[j+2:]
		}
	}
	return out
}

// richText is a small stylesheet.
func richText(c *fw.Ctx, marker string, o gen.RichOptions) string {
	g := gen.New(c.R)
	g.Rich(o)
	st := gen.RandomStyle(c.R)
	st.BOM = false
	s, _ := gen.Render(g.P, st)
	return s + "\n." + marker + "{m:0}"
}

func init() {
	fw.Register(&fw.Check{
		ID: "C02", Level: "exploration", Quick: 120000, Thorough: 3000000,
		Rule:        "each case compiles 1-8 entries (readable, unparsable, missing, directories, symlinks, dangling or looping ones, below linked directories, with broken or missing imports, under relative, absolute and unclean paths, repeated) together and one by one, under random options and possibly a failing resolver, or about a hundred files while 20 can be open; non-trivial if good and faulty entries are mixed; distinct by layout",
		Assumptions: []string{"what an entry compiles to on its own is the reference (its content is decided by C03-C05, C09)"},
		Run: func(c *fw.Ctx) {
			r := c.R
			if r.Intn(150) == 0 {
				manyFiles(c)
				return
			}
			dir := drive.TempDir()
			defer os.RemoveAll(dir)
			cwd, err := os.Getwd()
			if err != nil {
				panic(err)
			}
			opts := randomOpts(r)
			follow := strings.Contains(opts, "f")
			o := gen.AllRich()
			o.Max = 3
			o.Odd = r.Intn(2) == 0
			files := map[string]string{
				"shared/ok.css":     richText(c, "shared-ok", o),
				"shared/broken.css": brokenSheets[r.Intn(len(brokenSheets))],
				"shared/deep.css":   "@import './broken.css';@import './ok.css';.shared-deep{m:0}",
			}
			type entry struct {
				name, kind string
				good       bool
			}
			var entries []entry
			n := 1 + r.Intn(8)
			imports := 0
			var setup []func()
			for i := 0; i < n; i++ {
				name := fmt.Sprintf([]string{"e%d.css", "sub/e%d.css", "e %d.css", "é%d.css", "e%d", "a.b/c.%d.css"}[r.Intn(6)], i)
				e := entry{name: name, good: true}
				up := "./"
				if strings.Contains(name, "/") {
					up = "../"
				}
				body := richText(c, fmt.Sprintf("marker%d", i), o)
				imp := func(target string) {
					imports++
					files[name] = "@import \"" + target + "\";\n" + body
				}
				switch k := r.Intn(19); k {
				case 0, 1, 2:
					e.kind = "good"
					files[name] = body
				case 3:
					e.kind = "import"
					imp(up + "shared/ok")
				case 4:
					e.kind = "import-missing"
					imp(up + "nope.css")
				case 5:
					e.kind = "import-broken"
					imp(up + "shared/broken.css")
				case 6:
					e.kind = "import-deep"
					imp(up + "shared/deep.css")
				case 7:
					e.kind = "import-fail"
					imp(up + "fail")
				case 8:
					e.kind = "import-ghost"
					imp(up + "ghost")
				case 9, 10:
					e.kind, e.good = "broken", false
					files[name] = brokenSheets[r.Intn(len(brokenSheets))]
				case 11:
					e.kind, e.good = "broken-late", false
					files[name] = body + brokenSheets[r.Intn(len(brokenSheets))]
				case 12:
					e.kind, e.good = "missing", false
				case 13:
					e.kind, e.good = "directory", false
					setup = append(setup, func() { os.MkdirAll(filepath.Join(dir, name), 0o755) })
				case 14:
					e.kind, e.good = "dangling", false
					setup = append(setup, func() {
						os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755)
						os.Symlink("nowhere", filepath.Join(dir, name))
					})
				case 15:
					e.kind, e.good = "loop", false
					setup = append(setup, func() {
						os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755)
						os.Symlink(filepath.Base(name), filepath.Join(dir, name))
					})
				case 16:
					// The output belongs to the name that was given, not to what it links to.
					e.kind = "link"
					files[fmt.Sprintf("real/r%d.css", i)] = body
					setup = append(setup, func() {
						os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755)
						os.Symlink(filepath.Join(dir, fmt.Sprintf("real/r%d.css", i)), filepath.Join(dir, name))
					})
				case 17:
					e.kind = "linked-dir"
					files[fmt.Sprintf("real/d%d/in.css", i)] = body
					e.name = fmt.Sprintf("link%d/in.css", i)
					target := []string{fmt.Sprintf("real/d%d", i), filepath.Join(dir, fmt.Sprintf("real/d%d", i))}[r.Intn(2)]
					setup = append(setup, func() { os.Symlink(target, filepath.Join(dir, fmt.Sprintf("link%d", i))) })
				default:
					e.kind = "empty"
					files[name] = []string{"", " ", "/**/", "\uFEFF", "\n"}[r.Intn(5)]
				}
				entries = append(entries, e)
			}
			if r.Intn(4) == 0 {
				// What others import is an entry, too.
				entries = append(entries, entry{"shared/ok.css", "shared", true})
				files["shared/ok.css"] += fmt.Sprintf(".marker%d{m:0}", len(entries)-1)
				if r.Intn(2) == 0 {
					entries = append(entries, entry{"shared/deep.css", "shared-deep", true})
					files["shared/deep.css"] += fmt.Sprintf(".marker%d{m:0}", len(entries)-1)
				}
				if r.Intn(2) == 0 {
					entries = append(entries, entry{"shared/broken.css", "broken", false})
				}
			}
			var crowd []string
			if r.Intn(80) == 0 {
				// Many importers of the same file.
				for i, n := 0, 20+r.Intn(200); i < n; i++ {
					name := fmt.Sprintf("crowd/c%d.css", i)
					files[name] = "@import '../shared/ok.css';"
					crowd = append(crowd, name)
				}
			}
			drive.Write(dir, files)
			for _, f := range setup {
				f()
			}
			rel, err := filepath.Rel(cwd, dir)
			if err != nil {
				panic(err)
			}
			spell := func(name string) string {
				switch r.Intn(6) {
				case 0:
					return "cwd:" + filepath.Join(rel, name)
				case 1:
					return "cwd:./" + filepath.Join(rel, name)
				case 2:
					return dir + "/shared/../" + name
				case 3:
					return dir + "//" + name
				}
				return dir + "/" + name
			}
			job := drive.Job{Opts: opts}
			if r.Intn(4) > 0 {
				job.Resolver = &faultyResolver{}
			}
			var all []string
			var alone []int // index of the entry per element of spelled
			var spelled []string
			for i, e := range entries {
				for again := true; again; again = r.Intn(5) == 0 {
					alone = append(alone, i)
					spelled = append(spelled, spell(e.name))
				}
			}
			all = append(all, spelled...)
			if len(crowd) == 0 || r.Intn(2) == 0 {
				all = append(all, crowd...)
				r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
			} else {
				all = append(crowd, all...)
			}
			input := drive.Describe(files, all, opts)
			c.Trying(input)

			want := map[string]string{}
			var wantErrs []string
			good, bad := 0, 0
			for k, i := range alone {
				e := entries[i]
				j := job
				j.Entries = []string{spelled[k]}
				out := drive.CompileIn(dir, j)
				c.State(e.kind + opts)
				css, there := out.Files[e.name]
				if there != e.good {
					c.Violate(input, "entry %s (%s) compiled on its own: output %v, expected %v; errors %v", e.name, e.kind, there, e.good, out.Errs)
					return
				}
				if !follow && len(out.Files) > 1 {
					c.Violate(input, "more outputs than entries: %v", keys(out.Files))
					return
				}
				if !e.good {
					bad++
					mentioned := false
					for _, m := range out.Errs {
						mentioned = mentioned || strings.Contains(m, filepath.Base(e.name))
					}
					if !mentioned {
						c.Violate(input, "no error mentions %s (%s): %v", e.name, e.kind, out.Errs)
						return
					}
				} else {
					good++
					if e.kind != "empty" && !strings.Contains(css, fmt.Sprintf(".marker%d", i)) {
						c.Violate(input, "output of %s lacks its own rule: %s", e.name, css)
						return
					}
					if strings.HasPrefix(e.kind, "import-") && len(out.Errs) == 0 && (job.Resolver != nil || e.kind != "import-ghost") {
						c.Violate(input, "faulty import of %s (%s) isn't reported", e.name, e.kind)
						return
					}
				}
				for k, v := range out.Files {
					want[k] = v
				}
				wantErrs = append(wantErrs, out.Errs...)
			}
			for i, name := range crowd {
				if i == 0 {
					j := job
					j.Entries = []string{name}
					out := drive.CompileIn(dir, j)
					for k, v := range out.Files {
						want[k] = v
					}
					wantErrs = append(wantErrs, out.Errs...)
				}
				want[name] = want[crowd[0]]
				good++
			}
			job.Entries = all
			out := drive.CompileIn(dir, job)
			for k := range out.Raw {
				if _, ok := want[k]; !ok {
					c.Violate(input, "unexpected output %s", k)
				}
			}
			for k, v := range want {
				got, ok := out.Files[k]
				if !ok {
					c.Violate(input, "output of %s is missing when compiled with others; errors %v", k, out.Errs)
				} else if got != v {
					c.Violate(input, "output of %s differs when compiled with others:\n%s\n---\n%s", k, got, v)
				}
			}
			w, g := dedupe(wantErrs), dedupe(out.Errs)
			if out.Truncated {
				c.Count("errors_not_compared", 1)
			} else if strings.Join(w, "\n") != strings.Join(g, "\n") {
				c.Violate(input, "errors differ when compiled with others:\n%s\n--- alone:\n%s", strings.Join(g, "\n"), strings.Join(w, "\n"))
			}
			c.Count("entries_good", good)
			c.Count("entries_faulty", bad)
			c.Count("faulty_imports", imports)
			if good > 0 && (bad > 0 || imports > 0) {
				c.Nontrivial(input)
				c.Sample(fmt.Sprintf("%v", entries))
			}
		},
	})
}

func keys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// manyFiles compiles more files than can be open at the same time.
func manyFiles(c *fw.Ctx) {
	r := c.R
	files := map[string]string{}
	var entries []string
	n := 60 + r.Intn(140)
	kind := r.Intn(3)
	// Files that take longer to read are more often open at the same time.
	padding := "/*" + strings.Repeat(" ", []int{0, 1 << 12, 1 << 16}[r.Intn(3)]) + "*/"
	var imports strings.Builder
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("f%d.css", i)
		files[name] = fmt.Sprintf(".m%d{a:b}", i) + padding
		fmt.Fprintf(&imports, "@import './f%d.css';", i)
		if kind == 0 {
			entries = append(entries, name)
		}
	}
	opts := ""
	if kind > 0 {
		opts = []string{"i", "f"}[kind-1]
		files["in.css"] = imports.String()
		entries = []string{"in.css"}
	}
	job := drive.Job{Files: files, Entries: entries, Opts: opts}
	input := fmt.Sprintf("%d files of a rule each, options %q, imported by one file: %v; at most 20 files can be open", n, opts, kind > 0)
	c.Trying(input)
	var out *drive.Out
	drive.WithOpenFiles(20, func() { out = drive.Compile(job) })
	if len(out.Errs) > 0 {
		c.Violate(input, "%d errors: %s", len(out.Errs), quoteList(out.Errs[:1]))
		return
	}
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("f%d.css", i)
		if kind == 1 {
			name = "in.css"
		}
		if !strings.Contains(out.Files[name], fmt.Sprintf(".m%d{a:b}", i)) {
			c.Violate(input, "f%d.css has no output", i)
			return
		}
	}
	c.Count("files_with_few_descriptors", n)
	c.Nontrivial(input)
}
