package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/evanw/esbuild/pkg/api"
	"github.com/stephen/cssc"
	"github.com/stephen/cssc/esbuildplugin"

	"verif/harness/drive"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/srcmap"
)

// warningTexts are the problems that are only warnings.
var warningTexts = []string{
	"@import transform does not yet support", "cannot substitute custom propert", "use of undefined variable", "expected single argument for calc",
}

// fakeBuild records what a plugin registers.
type fakeBuild struct {
	loads    []func(api.OnLoadArgs) (api.OnLoadResult, error)
	filters  []string
	resolves int
}

func (f *fakeBuild) OnResolve(api.OnResolveOptions, func(api.OnResolveArgs) (api.OnResolveResult, error)) {
	f.resolves++
}

func (f *fakeBuild) OnLoad(o api.OnLoadOptions, cb func(api.OnLoadArgs) (api.OnLoadResult, error)) {
	f.filters = append(f.filters, o.Filter)
	f.loads = append(f.loads, cb)
}

// collector is a reporter.
type collector []error

func (c *collector) AddError(err error) { *c = append(*c, err) }

// textBuild is a build that passes contents on as text: esbuild's own CSS parser doesn't end for some stylesheets.
type textBuild struct{ api.PluginBuild }

func (b textBuild) OnLoad(o api.OnLoadOptions, cb func(api.OnLoadArgs) (api.OnLoadResult, error)) {
	b.PluginBuild.OnLoad(o, func(a api.OnLoadArgs) (api.OnLoadResult, error) {
		res, err := cb(a)
		res.Loader = api.LoaderText
		return res, err
	})
}

// warningFaults are problems that are warnings at most.
var warningFaults = []string{
	"a{b:var(--undefined)}", "é{\n\tb: 'é' f(var( --u2\n))}", "a{b:calc(1px, 2px)}", "a{b:x calc()}", ":root{--e:{}}a{b:var(--e)}", ":root{--x:{a:b}}",
}

// compileFor compiles a file like the plugin should, and converts the problems from their text.
func compileFor(path string, o drive.T, resolver cssc.Resolver) (text string, ok bool, errs, warns []api.Message) {
	var rep collector
	res := cssc.Compile(cssc.Options{Entry: []string{path}, Reporter: &rep, Transforms: o, Resolver: resolver})
	text, ok = res.Files[path]
	for _, err := range rep {
		m := api.Message{Text: err.Error()}
		warning := false
		if g := locationRE.FindStringSubmatch(m.Text); g != nil {
			line, _ := strconv.Atoi(g[2])
			col, _ := strconv.Atoi(g[3])
			content, e := os.ReadFile(g[1])
			if e != nil {
				panic(e)
			}
			t := srcmap.NewText(strings.TrimPrefix(string(content), "\uFEFF"))
			m.Location = &api.Location{File: g[1], Line: line, Column: col - 1}
			if line >= 1 && line <= t.Lines() {
				m.Location.LineText = t.LineText(line - 1)
			}
			for _, w := range warningTexts {
				warning = warning || strings.HasPrefix(g[4], w)
			}
		}
		if warning {
			warns = append(warns, m)
		} else {
			errs = append(errs, m)
		}
	}
	return text, ok, errs, warns
}

// describeMessages renders messages for comparison, without order and lengths.
func describeMessages(ms []api.Message) string {
	var out []string
	for _, m := range ms {
		s := fmt.Sprintf("%q", trimStack(m.Text))
		if l := m.Location; l != nil {
			s = fmt.Sprintf("%s:%d:%d %q %s", l.File, l.Line, l.Column, l.LineText, s)
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// lengthProblem checks the length of a location.
func lengthProblem(m api.Message) string {
	l := m.Location
	if l == nil {
		return ""
	}
	if l.Column < 0 || l.Column > len(l.LineText) || l.Length < 0 || l.Column+l.Length > len(l.LineText) {
		return fmt.Sprintf("column %d and length %d don't fit line %q", l.Column, l.Length, l.LineText)
	}
	return ""
}

// mapResolver resolves some specifiers to files.
type mapResolver struct {
	files map[string]string
	calls atomic.Int64
}

func (m *mapResolver) Resolve(spec, from string) (string, error) {
	m.calls.Add(1)
	if p, ok := m.files[spec]; ok {
		return p, nil
	}
	return "", errStub
}

// faultText is a rule with a problem.
func faultText(g *gen.G) string {
	switch g.R.Intn(10) {
	case 0, 1:
		f := syntaxFaults[g.R.Intn(len(syntaxFaults))]
		return strings.NewReplacer("‹", "", "›", "").Replace(f)
	case 2:
		return "a{b:\tcalc(1px + 2)}"
	case 3:
		return "é{b:f(é, calc(2px * 3px)) x}"
	case 4:
		return "a{\n\tb: var(--undefined) calc(1 / 0) var( --u2\n)}"
	case 5:
		return "a{b:calc(1px, 2px)}"
	case 6:
		return ":root{--e:{}}a{b:var(--e)}"
	case 7:
		return "@custom-media --p print;@media (color) or (--p){a{b:c}}"
	default:
		return "a{b:VAR(5) var()}"
	}
}

func init() {
	fw.Register(&fw.Check{
		ID: "C20", Level: "exploration", Quick: 30000, Thorough: 750000,
		Rule:        "each case loads a stylesheet (without problems, with syntax faults or with problems of transforms in it or in its imports) through the plugin's load callback and through a real esbuild build with random transforms, import modes and resolvers, and compares the text and messages to those of a direct compilation, whose messages are converted from their text; non-trivial if the text is not empty or problems are reported, distinct by source",
		Assumptions: []string{"which problems are warnings is a list by message", "lines end at CSS newlines"},
		Run: func(c *fw.Ctx) {
			r := c.R
			style := gen.RandomStyle(r)
			simple := r.Intn(3) == 0
			sheet := func(min int) string {
				g := gen.New(r)
				if simple {
					s := ""
					for i, n := 0, min+r.Intn(3); i < n; i++ {
						s += []string{"a{b:c}\n", ":root{--x:1px}\n", ".a > b, c:hover { d: var(--x) calc(1px*2) }\n", "@media (width >= 100px) {\n  a:any-link { b: url(data:;) }\n}\n", "@custom-media --m print;@media (--m){\te{f:g}}", "é{è:'ü'}", "x{y:z;w:var(--x,5)}"}[r.Intn(7)]
					}
					return s
				}
				if r.Intn(2) == 0 {
					o := gen.AllRich()
					o.Min = min
					o.Odd = r.Intn(3) == 0
					g.Rich(o)
				} else {
					g.Sheet(gen.SheetOptions{Selectors: true, Values: true, AtRules: true, Min: min, Max: 4, Depth: 1})
				}
				s, _ := gen.Render(g.P, noBOM(style))
				return s
			}
			faulty := r.Intn(3)
			g := gen.New(r)
			warnOnly := simple && faulty > 0 && r.Intn(2) == 0
			withFaults := func(s string) string {
				if faulty == 0 {
					return s
				}
				if r.Intn(200) == 0 {
					b := gen.New(r)
					bigPad(b)
					p, _ := gen.Render(b.P, noBOM(style))
					s += p
				}
				if warnOnly {
					for i, n := 0, r.Intn(3); i < n; i++ {
						s += "\n" + warningFaults[r.Intn(len(warningFaults))]
					}
					return s
				}
				for i, n := 0, r.Intn(3); i < n; i++ {
					if r.Intn(2) == 0 {
						s += "\n" + faultText(g)
					} else {
						s = faultText(g) + "\n" + s
					}
				}
				if r.Intn(10) == 0 && len(s) > 0 {
					s = strings.ToValidUTF8(s[:r.Intn(len(s))], "")
				}
				return s
			}
			opts := ""
			for _, f := range "rapmc" {
				if r.Intn(2) == 0 {
					opts += string(f)
				}
			}
			opts += []string{"", "i", "i", "f"}[r.Intn(4)]
			dir := drive.TempDir()
			defer removeAll(dir)
			entry := filepath.Join(dir, []string{"in.css", "in put.css", "ünï.css", "sub/in.css", "a.b.css", "in.css.css"}[r.Intn(6)])
			rel, _ := filepath.Rel(dir, entry)
			files := map[string]string{}
			imports := ""
			var resolver cssc.Resolver
			special := &mapResolver{files: map[string]string{}}
			custom := r.Intn(4) == 0
			other := filepath.Join(filepath.Dir(rel), "other.css")
			if r.Intn(2) == 0 {
				files[other] = withFaults(sheet(0))
				imports = "@import \"./other.css\";\n"
				if r.Intn(5) == 0 {
					imports = "@import \"./other.css\" print;\n"
				}
				special.files["./other.css"] = filepath.Join(dir, other)
			}
			if custom && strings.ContainsAny(opts, "if") {
				files["hidden/z.css"] = "z{z:z}" + withFaults("")
				imports += "@import \"pkg:z\";\n"
				special.files["pkg:z"] = filepath.Join(dir, "hidden/z.css")
			}
			if custom {
				resolver = special
			}
			if faulty > 0 && !warnOnly && r.Intn(6) == 0 {
				imports += "@import \"./missing\";"
			}
			files[rel] = imports + withFaults(sheet(1))
			if style.BOM {
				files[rel] = "\uFEFF" + files[rel]
			}
			drive.Write(dir, files)
			input := drive.Describe(files, []string{rel}, opts)
			c.Trying(input)
			transforms := drive.ParseT(opts)

			text, ok, errs, warns := compileFor(entry, transforms, resolver)
			if !ok && len(errs) == 0 {
				c.Violate(input, "no output and no error")
				return
			}

			if warnOnly {
				if len(errs) > 0 {
					c.Violate(input, "what should be a warning isn't: %s", describeMessages(errs))
					return
				}
				c.Count("with_warnings_at_most", 1)
			}

			var pluginOpts []esbuildplugin.Option
			if opts != "" || r.Intn(2) == 0 {
				pluginOpts = append(pluginOpts, esbuildplugin.WithTransforms(transforms))
			}
			if resolver != nil {
				pluginOpts = append(pluginOpts, esbuildplugin.WithResolver(resolver))
				if r.Intn(2) == 0 && len(pluginOpts) == 2 {
					pluginOpts[0], pluginOpts[1] = pluginOpts[1], pluginOpts[0]
				}
			}
			plugin := esbuildplugin.Plugin(pluginOpts...)
			fake := &fakeBuild{}
			plugin.Setup(fake)
			if len(fake.loads) != 1 || fake.resolves != 0 {
				c.Violate(input, "the plugin registers %d load and %d resolve callbacks", len(fake.loads), fake.resolves)
				return
			}
			// More than once: nothing of a load may affect the next.
			for round := 0; round < 2; round++ {
				special.calls.Store(0)
				res, err := fake.loads[0](api.OnLoadArgs{Path: entry, Namespace: "file"})
				if err != nil {
					c.Violate(input, "load callback fails: %v", err)
					return
				}
				if a, b := describeMessages(errs), describeMessages(res.Errors); a != b {
					c.Violate(input, "expected errors\n%s\ngot\n%s", a, b)
					return
				}
				if a, b := describeMessages(warns), describeMessages(res.Warnings); a != b {
					c.Violate(input, "expected warnings\n%s\ngot\n%s", a, b)
					return
				}
				for _, m := range append(append([]api.Message{}, res.Errors...), res.Warnings...) {
					if p := lengthProblem(m); p != "" {
						c.Violate(input, "%s", p)
						return
					}
				}
				if len(errs) == 0 {
					if res.Contents == nil || *res.Contents != text {
						c.Violate(input, "contents differ from the compilation: %v", describeContents(res.Contents, text))
						return
					}
					if res.Loader != api.LoaderCSS {
						c.Violate(input, "loader %v", res.Loader)
						return
					}
				}
				if resolver != nil && imports != "" && strings.ContainsAny(opts, "if") && special.calls.Load() == 0 && !strings.Contains(describeMessages(errs), rel) {
					c.Violate(input, "the resolver is not used")
					return
				}
			}

			// A real build, compared to one with a plugin that returns what is expected.
			reference := api.Plugin{Name: plugin.Name, Setup: func(b api.PluginBuild) {
				b.OnLoad(api.OnLoadOptions{Filter: `\.css$`}, func(a api.OnLoadArgs) (api.OnLoadResult, error) {
					text, _, errs, warns := compileFor(a.Path, transforms, resolver)
					out := api.OnLoadResult{Loader: api.LoaderCSS, Errors: errs, Warnings: warns}
					if len(errs) == 0 {
						out.Contents = &text
					}
					return out, nil
				})
			}}
			start := entry
			if r.Intn(3) == 0 {
				start = filepath.Join(dir, "main.js")
				js := "import './" + rel + "';\nconsole.log(1)"
				for i, n := 0, r.Intn(4); i < n; i++ {
					// Files are loaded at the same time.
					name := fmt.Sprintf("more%d.css", i)
					js += "\nimport x" + strconv.Itoa(i) + " from './" + name + "';\nconsole.log(x" + strconv.Itoa(i) + ")"
					drive.Write(dir, map[string]string{name: withFaults(sheet(1))})
				}
				if r.Intn(2) == 0 {
					// These are no stylesheets.
					name := []string{"a.css.js", "a.cssx", "a.css.txt", "css.js", "a.css.json", "a.xcss", "x.css/a.txt"}[r.Intn(7)]
					js += "\nimport * as other from './" + name + "';\nconsole.log(other)"
					content := "{\"a{\": 1}"
					if strings.HasSuffix(name, ".js") {
						content = "export let a = 'a{b:c'"
					}
					drive.Write(dir, map[string]string{name: content})
					c.Count("other_files", 1)
				}
				drive.Write(dir, map[string]string{"main.js": js})
			}
			build := func(p api.Plugin) api.BuildResult {
				if !simple {
					setup := p.Setup
					p.Setup = func(b api.PluginBuild) { setup(textBuild{b}) }
				}
				o := api.BuildOptions{EntryPoints: []string{start}, Bundle: true, Loader: map[string]api.Loader{".cssx": api.LoaderText, ".txt": api.LoaderText, ".xcss": api.LoaderText}, Outdir: filepath.Join(dir, "out"), Plugins: []api.Plugin{p}, LogLevel: api.LogLevelSilent}
				if c.Case%8 == 0 {
					// Rendering messages must work too.
					o.LogLevel = api.LogLevelInfo
				}
				return api.Build(o)
			}
			want, got := build(reference), build(plugin)
			if a, b := describeMessages(want.Errors), describeMessages(got.Errors); a != b {
				c.Violate(input, "expected errors of the build\n%s\ngot\n%s", a, b)
				return
			}
			if a, b := describeMessages(want.Warnings), describeMessages(got.Warnings); a != b {
				c.Violate(input, "expected warnings of the build\n%s\ngot\n%s", a, b)
				return
			}
			if len(want.OutputFiles) != len(got.OutputFiles) {
				c.Violate(input, "%d output files instead of %d", len(got.OutputFiles), len(want.OutputFiles))
				return
			}
			for i := range want.OutputFiles {
				if w, g := want.OutputFiles[i], got.OutputFiles[i]; w.Path != g.Path || string(w.Contents) != string(g.Contents) {
					c.Violate(input, "output %s is\n%s\ninstead of\n%s", g.Path, g.Contents, w.Contents)
					return
				}
			}
			c.Count("errors", len(errs))
			c.Count("warnings", len(warns))
			if len(errs) == 0 {
				c.Count("texts_compared", 1)
			}
			c.Count("build_outputs", len(got.OutputFiles))
			c.State(fmt.Sprint(opts, len(errs), len(warns), len(got.OutputFiles)))
			if len(errs) > 0 || len(warns) > 0 || len(drive.StripMap(text)) > 0 {
				c.Nontrivial(input)
				c.Sample(files[rel])
			}
		},
	})
}

func describeContents(got *string, want string) string {
	if got == nil {
		return "none"
	}
	return fmt.Sprintf("%s\ninstead of\n%s", *got, want)
}
