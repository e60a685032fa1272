bug("percent-message", "C22",
  [(O, "	fmt.Fprintln(w, err.Error())\n", "	fmt.Fprintf(w, err.Error()+\"\\n\")\n")],
  "no reporter, and a problem on a line with a percent sign",
  "what is printed to standard error has %!(NOVERB) in it instead of the source text",
  r'''
func check() {
	if path := os.Getenv("DEMO_CHILD"); path != "" {
		cssc.Compile(cssc.Options{Entry: []string{path}, Transforms: all})
		return
	}
	write(map[string]string{"in.css": "a{b:20% var(--x)}"})
	exe, _ := os.Executable()
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "DEMO_CHILD="+filepath.Join(tempDir, "in.css"))
	var buf strings.Builder
	cmd.Stderr = &buf
	if err := cmd.Run(); err != nil {
		fail("%v", err)
	}
	if !strings.Contains(buf.String(), "a{b:20% var(--x)}") {
		fail("%s", buf.String())
	}
}''')

bug("default-base-url", "C22",
  [(A, "		resolver:       &resolver.NodeResolver{},\n", "		resolver:       &resolver.NodeResolver{BaseURL: \".\"},\n")],
  "no resolver, and a bare import of a package whose name is also a file or folder in the working directory",
  "the file in the working directory is used instead of the package",
  r'''
func check() {
	write(map[string]string{"cwd/pkg.css": "wrong{a:b}", "x/node_modules/pkg/index.css": "right{a:b}", "x/in.css": "@import 'pkg';"})
	if err := os.Chdir(filepath.Join(tempDir, "cwd")); err != nil {
		panic(err)
	}
	out, _ := compile(nil, all, "x/in.css")
	os.Chdir("/")
	expect(out["x/in.css"], "right{a:b}")
}''')

bug("content-cache", "C23",
  [(A, "	in, err := ioutil.ReadFile(abs)\n", "	in, err := readFile(abs)\n"),
   (A, '''func newResult() *Result {
''', '''// contents has the files that were already read, which speeds up watch mode.
var contents sync.Map

type content struct {
	modified, size int64
	data           []byte
}

func readFile(path string) ([]byte, error) {
	info, err := os.Stat(path)
	if err != nil {
		return nil, err
	}
	if c, ok := contents.Load(path); ok && c.(content).modified == info.ModTime().Unix() && c.(content).size == info.Size() {
		return c.(content).data, nil
	}
	data, err := ioutil.ReadFile(path)
	if err == nil {
		contents.Store(path, content{info.ModTime().Unix(), info.Size(), data})
	}
	return data, err
}

func newResult() *Result {
'''), (A, '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n')],
  "a file that is edited within a second without changing its size, between two compilations",
  "the old content is compiled again",
  r'''
func check() {
	for i := 0; i < 8; i++ {
		src := fmt.Sprintf("a%d{b:c}", i)
		expect(one(src, transforms.Options{}), src)
	}
}''')

bug("resolve-cache", "C23",
  [(R, '''	currentDir := fromDir
''', '''	key := [2]string{module, fromDir}
	if res, ok := found.Load(key); ok {
		if _, err := os.Stat(res.(string)); err == nil {
			return res.(string), nil
		}
	}
	currentDir := fromDir
'''), (R, '''		if res, err := r.resolve(modulePkgPath); err == nil {
			return res, nil
		}

''', '''		if res, err := r.resolve(modulePkgPath); err == nil {
			found.Store(key, res)
			return res, nil
		}

'''), (R, '''// resolveAsNodeModule walks''', '''// found has the modules that were already found.
var found sync.Map

// resolveAsNodeModule walks'''), (R, '	"strings"\n', '	"strings"\n	"sync"\n'),
   (R, 'type packageJSON struct {\n	Style string `json:"style"`\n}', '// packageJSON is a package.json.\ntype packageJSON struct {\n	// Style is the stylesheet.\n	Style string `json:"style,omitempty"`\n}')],
  "a package that is installed nearer to the importing file between two compilations",
  "the package that was found earlier is still used",
  r'''
func check() {
	files := map[string]string{"node_modules/pkg/index.css": "a{b:c}", "x/in.css": "@import 'pkg';"}
	out, _ := compile(files, all, "x/in.css")
	expect(out["x/in.css"], "a{b:c}")
	files["x/node_modules/pkg/index.css"] = "d{e:f}"
	out, _ = compile(files, all, "x/in.css")
	expect(out["x/in.css"], "d{e:f}")
}''')

bug("open-file", "C23",
  [(A, '''	c.reads <- struct{}{}
	in, err := ioutil.ReadFile(abs)
	<-c.reads
	if err != nil {
''', '''	c.reads <- struct{}{}
	f, err := os.Open(abs)
	if err != nil {
		<-c.reads
		return 0, oops.Wrapf(err, "failed to open file: %s", path)
	}
	in, err := ioutil.ReadAll(f)
	<-c.reads
	if err != nil {
'''), (A, '	"io/ioutil"\n', '	"io/ioutil"\n	"os"\n')],
  "many files, or counting the open files after a compilation",
  "the stylesheets stay open",
  r'''
func check() {
	debug.SetGCPercent(-1)
	before, _ := ioutil.ReadDir("/proc/self/fd")
	for i := 0; i < 20; i++ {
		one("a{b:c}", transforms.Options{})
	}
	after, _ := ioutil.ReadDir("/proc/self/fd")
	if len(after) > len(before)+10 {
		fail("%d open files, then %d", len(before), len(after))
	}
}''')

bug("linear-lines", "C24",
  [(X, '''	line := sort.Search(len(s.Lines), func(i int) bool {
		return loc.Start < s.Lines[i]
	})

''', '''	line := 0
	for line < len(s.Lines) && s.Lines[line] <= loc.Start {
		line++
	}

'''), (X, '''import (
	"sort"

	"github''', '''import (
	"github''')],
  "a stylesheet of many lines",
  "finding the line of every rule takes time proportional to the number of lines, so compiling is quadratic",
  r'''
func timed(lines int) time.Duration {
	src := strings.Repeat("a{b:c}\n", lines)
	best := time.Hour
	for i := 0; i < 3; i++ {
		start := time.Now()
		one(src, transforms.Options{})
		if d := time.Since(start); d < best {
			best = d
		}
	}
	return best
}

func check() {
	if a, b := timed(10000), timed(160000); b > 60*a {
		fail("%v for 10000 lines, %v for 160000", a, b)
	}
}''')

bug("copied-rules", "C24",
  [(T, '''			if node.Block == nil {
				continue
			}
			rv = append(rv, node)
''', '''			if node.Block == nil {
				continue
			}
			// Nodes of inlined files must not be overwritten.
			rv = append(rv[:len(rv):len(rv)], node)
''')],
  "a stylesheet with many rules",
  "all rules so far are copied for every rule, so time and memory are quadratic",
  r'''
func allocated(rules int) uint64 {
	src := strings.Repeat("a{b:c}", rules)
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	one(src, transforms.Options{})
	runtime.ReadMemStats(&after)
	return after.TotalAlloc - before.TotalAlloc
}

func check() {
	if a, b := allocated(1000), allocated(16000); b > 32*a {
		fail("%d bytes for 1000 rules, %d for 16000", a, b)
	}
}''')

bug("cdc", "C05",
  [(P, "		case lexer.CDO, lexer.CDC:\n", "		case lexer.CDO:\n")],
  "a stylesheet in <!-- and -->",
  "the --> is taken for the beginning of a rule",
  r'''
func check() {
	expect(one("<!-- a{b:c} --> d{e:f}", transforms.Options{}), "a{b:c}d{e:f}")
}''', also=("C06",))

bug("comment-slash", "C06",
  [(L, '''			l.step()
			l.step()
			start, end := l.lastPos, -1

		commentToken:
''', '''			l.step()
			start, end := l.lastPos+1, -1

		commentToken:
''')],
  "a comment that begins with a slash",
  "/*/ is taken for a whole comment",
  r'''
func check() {
	expect(one("a{b:c}/*/ x */d{e:f}", transforms.Options{}), "a{b:c}d{e:f}")
}''')

bug("important-caps", "C17",
  [(P, '''		(in[8] == 't' || in[8] == 'T')
''', '''		in[8] == 't'
''')],
  "a declaration with !IMPORTANT in capital letters",
  "the declaration is taken as it is, so its custom properties are not substituted",
  r'''
func check() {
	out, errs := compile(map[string]string{"in.css": ":root{--x:1px}a{b:var(--x)!IMPORTANT}"}, all, "in.css")
	expect(strings.ToLower(out["in.css"])+strings.Join(errs, ""), "a{b:1px!important}")
}''', also=("C06", "C19"))

bug("warn-first", "C19",
  [(T, '''				if t.variables == nil {
					return
				}

				if len(v.Arguments) == 0 {
					t.addError(v, "expected at least one argument to var()")
					return
				}
''', '''				if len(v.Arguments) == 0 {
					t.addError(v, "expected at least one argument to var()")
					return
				}

				if t.variables == nil {
					return
				}
''')],
  "var() without arguments, with the custom property transform disabled",
  "an error is reported for a construct that should not be looked at",
  r'''
func check() {
	out, errs := compile(map[string]string{"in.css": "a{b:var()}"}, transforms.Options{}, "in.css")
	expect(out["in.css"]+strings.Join(errs, ""), "a{b:var()}")
}''')

bug("warnings-are-errors", "C20",
  [(T, "	t.Reporter.AddError(logging.LocationWarnf(t.OriginalSource, loc.Location(), fmt, args...))\n",
       "	t.addError(loc, \"warning: \"+fmt, args...)\n")],
  "a warning in the plugin",
  "the build fails with an error instead of a warning",
  r'''
func check() {
	write(map[string]string{"in.css": "a{b:var(--x)}"})
	res := api.Build(api.BuildOptions{EntryPoints: []string{filepath.Join(tempDir, "in.css")}, Bundle: true, LogLevel: api.LogLevelSilent,
		Plugins: []api.Plugin{esbuildplugin.Plugin(esbuildplugin.WithTransforms(all))}})
	if len(res.Errors) != 0 || len(res.Warnings) != 1 {
		fail("%v %v", res.Errors, res.Warnings)
	}
}''')

bug("zero-px", "C18",
  [(W, '''	case *ast.Dimension:
		p.s.WriteString(node.Value)
		p.s.WriteString(node.Unit)
''', '''	case *ast.Dimension:
		p.s.WriteString(node.Value)
		if node.Value != "0" || node.Unit != "px" {
			p.s.WriteString(node.Unit)
		}
''')],
  "0px in calc()",
  "calc(0px + 1em) becomes calc(0 + 1em), which is invalid",
  r'''
func check() {
	if out := one("a{b:calc(1em + 0px)}", transforms.Options{}); !strings.Contains(out, "0px") {
		fail("%s", out)
	}
}''', also=("C04",))

bug("last-declaration", "C04",
  [(W, '''		for i, d := range node.Declarations {
			p.print(d)
''', '''		for i, d := range node.Declarations {
			if i+1 < len(node.Declarations) {
				decl, ok := d.(*ast.Declaration)
				next, nextOk := node.Declarations[i+1].(*ast.Declaration)
				if ok && nextOk && decl.Property == next.Property && decl.Important == next.Important {
					// It is overridden.
					continue
				}
			}
			p.print(d)
''')] + [(W, '''			if i+1 < len(node.Declarations) {
				p.s.WriteRune(';')
			}
		}

	case *ast.Declaration:''', '''			if hasNext := i+1 < len(node.Declarations); hasNext {
				p.s.WriteRune(';')
			}
		}

	case *ast.Declaration:''')],
  "two declarations of the same property behind each other, the second of which not all browsers understand",
  "the first, which is the fallback, is removed",
  r'''
func check() {
	expect(one("a{color:red;color:rgb(1 2 3)}", transforms.Options{}), "a{color:red;color:rgb(1 2 3)}")
}''')

bug("conditional-silently", "C09",
  [(T, "				if len(node.Preludes) > 1 {\n", "				if len(node.Preludes) > 2 {\n")],
  "an import with a media query that is inlined",
  "the content is inlined unconditionally without a warning",
  r'''
func check() {
	_, errs := compile(map[string]string{"in.css": "@import './b.css' print;", "b.css": "a{b:c}"}, all, "in.css")
	if len(errs) != 1 {
		fail("%q", errs)
	}
}''')
