LX = "internal/lexer/lexer.go"; PA = "internal/parser/parser.go"; SE = "internal/parser/selectors.go"; TR = "internal/transformer/transformer.go"; RE = "resolver/node_resolver.go"; PL = "esbuildplugin/plugin.go"; PR = "internal/printer/printer.go"; AP = "api.go"; LO = "internal/logging/logging.go"; SO = "internal/sources/source.go"

bug("late-expect", "C12",
  [(LX, '''	if l.Current != token {
		l.Errorf("expected %s, but got %s instead", token, l.Current)
	}
	l.Next()
''', '''	current := l.Current
	l.Next()
	if current != token {
		l.Errorf("expected %s, but got %s instead", token, current)
	}
''')],
  "a syntax error at a token that has to be another one, e.g. a missing name of a class",
  "the position of the token after it is reported",
  r'''
func check() {
	_, errs := compile(map[string]string{"in.css": "a{b:c}\n  ..b {c:d}"}, transforms.Options{}, "in.css")
	if len(errs) != 1 || !strings.Contains(errs[0], "in.css:2:4\n") {
		fail("%q", errs)
	}
}''')

bug("skip-node-modules", "C13",
  [(RE, '''		modulePkgPath := filepath.Join(currentDir, "node_modules", module)

		if res, err := r.resolve(modulePkgPath); err == nil {
			return res, nil
		}
''', '''		if filepath.Base(currentDir) != "node_modules" {
			modulePkgPath := filepath.Join(currentDir, "node_modules", module)

			if res, err := r.resolve(modulePkgPath); err == nil {
				return res, nil
			}
		}
''')],
  "an import from a folder named node_modules that has one of its own (or from below it)",
  "that folder is not looked at, so another package is used or none is found",
  r'''
func check() {
	out, errs := compile(map[string]string{"node_modules/x.css": "@import 'pkg/a';", "node_modules/node_modules/pkg/a.css": "a{b:right}", "node_modules/pkg/a.css": "a{b:wrong}"},
		transforms.Options{ImportRules: transforms.ImportRulesInline}, "node_modules/x.css")
	if len(errs) > 0 || out["node_modules/x.css"] != "a{b:right}" {
		fail("%q %v", out, errs)
	}
}''')

bug("absolute-spec", "C13",
  [(RE, '''		path := filepath.Join(fromDir, spec)
''', '''		path := spec
		if !filepath.IsAbs(path) {
			path = filepath.Join(fromDir, spec)
		}
''')],
  "a specifier that starts with a slash",
  "it refers to the root of the file system instead of the importing directory",
  r'''
func check() {
	out, errs := compile(map[string]string{"in.css": "@import '/x/a.css';", "x/a.css": "a{b:right}"},
		transforms.Options{ImportRules: transforms.ImportRulesInline}, "in.css")
	if len(errs) > 0 || out["in.css"] != "a{b:right}" {
		fail("%q %v", out, errs)
	}
}''')

bug("plugin-filter", "C20",
  [(PL, '''api.OnLoadOptions{Filter: `\\.css$`},
''', '''api.OnLoadOptions{Filter: `.css$`},
''')],
  "a file of another type whose name ends with css, e.g. data.xcss",
  "the plugin takes over files that are left to esbuild (or other plugins)",
  r'''
func check() {
	write(map[string]string{"in.js": "import x from './data.xcss'; console.log(x)", "data.xcss": "not { a stylesheet"})
	res := api.Build(api.BuildOptions{
		EntryPoints: []string{filepath.Join(tempDir, "in.js")}, Bundle: true, Write: false,
		Loader:  map[string]api.Loader{".xcss": api.LoaderText},
		Plugins: []api.Plugin{esbuildplugin.Plugin()},
	})
	if len(res.Errors) > 0 || !strings.Contains(string(res.OutputFiles[0].Contents), "not { a stylesheet") {
		fail("%v", res.Errors)
	}
}''')

bug("any-url", "C04",
  [(LX, '''	return len(in) == 3 && (in[0] == 'u' || in[0] == 'U')''', '''	return len(in) >= 3 && (in[0] == 'u' || in[0] == 'U')''')],
  "a function whose name starts with url, e.g. url-prefix(a b)",
  "its arguments are taken for a url",
  r'''
func check() {
	out, errs := compile(map[string]string{"in.css": "a{b:urls(  c , d  )}"}, transforms.Options{}, "in.css")
	if len(errs) > 0 || out["in.css"] != "a{b:urls(c,d)}" {
		fail("%q %v", out, errs)
	}
}''')

bug("letters-only", "C03",
  [("internal/lexer/tokens.go", "r >= 0x80 || r == '_'", "(r >= 0x80 && r < 0x10000) || r == '_'")],
  "names with characters beyond the basic plane, such as emojis",
  "such names are refused (or cut short in values)",
  r'''
func check() {
	for _, s := range []string{".\U0001F600", ".a\U0001F600", "#x\U0001F600y"} {
		out, errs := compile(map[string]string{"in.css": s + "{b:c}"}, transforms.Options{}, "in.css")
		if len(errs) > 0 || out["in.css"] != s+"{b:c}" {
			fail("%s: %q %v", s, out["in.css"], errs)
		}
	}
}''')

bug("real-path", "C02",
  [(AP, '''	abs, err := filepath.Abs(path)
	if err != nil {
		return 0, oops.Wrapf(err, "failed to make path absolute: %s", path)
	}
''', '''	abs, err := filepath.Abs(path)
	if err == nil {
		// Links to the same file are the same source.
		abs, err = filepath.EvalSymlinks(abs)
	}
	if err != nil {
		return 0, oops.Wrapf(err, "failed to find the source: %s", path)
	}
''')],
  "an entry that is a symbolic link, or inside of a folder that is one",
  "the output is stored under another path",
  r'''
func check() {
	write(map[string]string{"a.css": "a{b:c}"})
	if err := os.Symlink("a.css", filepath.Join(tempDir, "link.css")); err != nil {
		panic(err)
	}
	out, errs := compile(nil, transforms.Options{}, "a.css", "link.css")
	if len(errs) > 0 || out["a.css"] != "a{b:c}" || out["link.css"] != "a{b:c}" {
		fail("%q %v", out, errs)
	}
}''')
