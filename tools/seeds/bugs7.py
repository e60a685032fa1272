LX = "internal/lexer/lexer.go"; PA = "internal/parser/parser.go"; SE = "internal/parser/selectors.go"; TR = "internal/transformer/transformer.go"; RE = "resolver/node_resolver.go"; PL = "esbuildplugin/plugin.go"; PR = "internal/printer/printer.go"; AP = "api.go"; LO = "internal/logging/logging.go"; SO = "internal/sources/source.go"
bug("important-letters", "C21",
  [(PA, '''		(in[3] == 'o' || in[3] == 'O') &&
		(in[4] == 'r' || in[4] == 'R') &&
''', '''		(in[3] == 'o' || in[3] == 'O' || in[3] == 'r' || in[3] == 'R') &&
		(in[4] == 'r' || in[4] == 'R' || in[4] == 'o' || in[4] == 'O') &&
''')],
  "a misspelled !improtant", "it is printed as !important: a declaration that browsers ignore comes into effect", r'''
func check() {
	got := one("a{b:c !improtant}", transforms.Options{})
	if strings.Contains(got, "!important") {
		fail("%s", got)
	}
}''')

bug("zero-bound", "C15",
  [(TR, '''	if diff == 0 {
		return v
	}
''', '''	if zero, ok := v.(*ast.Dimension); diff == 0 || ok && zero.Value == "0" {
		// Nothing is below zero.
		return v
	}
''')],
  "a strict range with a bound of zero, e.g. (width > 0)", "it includes zero", r'''
func check() {
	got := one("@media (width > 0px){a{b:c}}", all)
	expect(got, "@media (min-width:0.001px){a{b:c}}")
}''')

bug("extension-dir", "C13",
  [(RE, '''			if info.IsDir() {
				return "", oops.Wrapf(ErrNotFound, "%s exists, but is directory", withExtension)
			}

			return withExtension, nil
''', '''			if info.IsDir() {
				return r.resolveAsDir(withExtension)
			}

			return withExtension, nil
''')],
  "a specifier without extension and a folder of that name with .css", "the folder is resolved instead of what comes next in the lookup order", r'''
func check() {
	write(map[string]string{"lib.css/index.css": "a{b:c}", "node_modules/lib/index.css": "d{e:f}"})
	r := &resolver.NodeResolver{BaseURL: tempDir}
	got, err := r.Resolve("lib", tempDir)
	if err != nil || got != filepath.Join(tempDir, "node_modules/lib/index.css") {
		fail("%s %v", got, err)
	}
}''')

bug("style-default", "C13",
  [(RE, '''	if pkgContent.Style == "" {
		return "", oops.Wrapf(ErrNotFound, "package.json exists, but has no style attribute: %s", pkgPath)
	}
''', '''	if pkgContent.Style == "" {
		pkgContent.Style = "style.css"
	}
''')],
  "a package whose package.json has no style attribute but that has a style.css", "it is resolved although the documented order doesn't have it", r'''
func check() {
	write(map[string]string{"node_modules/p/package.json": "{}", "node_modules/p/style.css": "a{b:c}"})
	r := &resolver.NodeResolver{}
	if got, err := r.Resolve("p", tempDir); err == nil {
		fail("%s", got)
	}
}''')

bug("comment-stars", "C06",
  [(LX, '''					if l.ch == '/' {
						l.step()
						end = maybeEnd
						break commentToken
					}
''', '''					switch {
					case l.ch == '/':
						l.step()
						end = maybeEnd
						break commentToken
					case l.ch == '*' && l.peek(0) == '*':
						// Banners have lots of stars.
						l.step()
						l.step()
					}
''')],
  "a comment that ends with at least four stars", "some of what follows is skipped as a part of the comment", r'''
func check() {
	for i := 1; i < 9; i++ {
		expect(one("/"+strings.Repeat("*", i)+" x "+strings.Repeat("*", i)+"/a{b:c}/**/d{e:f}", transforms.Options{}), "a{b:c}d{e:f}")
	}
}''')

bug("import-limit", "C10",
  [(AP, '''		wg.Go(func() error {
			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
			if err != nil {
				c.addError(err)
				return nil
			}

			// If import follow is on, then every referenced file makes it to the output.
''', '''		wg.Go(func() error {
			imports <- struct{}{}
			defer func() { <-imports }()

			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
			if err != nil {
				c.addError(err)
				return nil
			}

			// If import follow is on, then every referenced file makes it to the output.
'''), (AP, '''// Compile runs a compilation with the specified Options.
func Compile(opts Options) *Result {
''', '''// imports limits how many imports are read at the same time.
var imports = make(chan struct{}, 32)

// Compile compiles with the specified Options.
func Compile(opts Options) *Result {
''')],
  "a chain of more than 32 imports", "the compilation never ends, because every importing file waits for the imported one", r'''
func check() {
	files := map[string]string{"40.css": "a{b:c}"}
	for i := 0; i < 40; i++ {
		files[fmt.Sprintf("%d.css", i)] = fmt.Sprintf("@import \"./%d.css\";", i+1)
	}
	done := make(chan map[string]string)
	go func() {
		out, _ := compile(files, transforms.Options{ImportRules: transforms.ImportRulesFollow}, "0.css")
		done <- out
	}()
	select {
	case out := <-done:
		expect(out["40.css"], "a{b:c}")
	case <-time.After(20 * time.Second):
		fail("no end")
	}
}''', also=("C01",))

bug("message-limit", "C20",
  [(PL, '''	for _, err := range *r {

''', '''	for i, err := range *r {
		if i == 10 {
			// As many as esbuild prints by default.
			break
		}

''')],
  "more than ten problems in a file", "the rest is lost, errors too if ten warnings come first", r'''
func check() {
	write(map[string]string{"in.css": strings.Repeat("a{b:var(--x)}", 14)})
	res := api.Build(api.BuildOptions{EntryPoints: []string{filepath.Join(tempDir, "in.css")}, Plugins: []api.Plugin{esbuildplugin.Plugin(esbuildplugin.WithTransforms(all))}, LogLevel: api.LogLevelSilent})
	if len(res.Warnings)+len(res.Errors) != 14 {
		fail("%d %d", len(res.Warnings), len(res.Errors))
	}
}''')
