T = "internal/transformer/transformer.go"; P = "internal/parser/parser.go"; S = "internal/parser/selectors.go"
L = "internal/lexer/lexer.go"; W = "internal/printer/printer.go"; M = "internal/printer/sourcemaps.go"
A = "api.go"; R = "resolver/node_resolver.go"; G = "esbuildplugin/plugin.go"; O = "internal/logging/logging.go"; X = "internal/sources/source.go"

bug("cdo-slice", "C01",
  [(L, '''			if p0, p1, p2 := l.peek(0), l.peek(1), l.peek(2); p0 == '!' && p1 == '-' && p2 == '-' {
''', '''			if rest := l.source.Content[l.pos:]; rest[:1] == "!" && rest[:3] == "!--" {
''')],
  "a < (or <! or <!-) that is at the very end of the file and not in a declaration, such as a truncated media query",
  "slicing past the end of the file panics and takes the process down",
  r'''
func check() {
	for _, src := range []string{"@media (width <", "a{b:c}<", "a{b:c}<!", "a{b:c} <!-"} {
		one(src, transforms.Options{})
	}
}''')

bug("math-twice", "C01",
  [(T, '''		if evaluated := t.evaluateMathExpression(expr.Left, expr.Right, expr.Operator); evaluated != nil {
			l = evaluated
		}
''', '''		if t.evaluateMathExpression(expr.Left, expr.Right, expr.Operator) != nil {
			l = t.evaluateMathExpression(expr.Left, expr.Right, expr.Operator)
		}
''')],
  "a calc() with a chain of some dozens of operations and reduction turned on",
  "every operation of the chain doubles the time, so compilation practically never ends",
  r'''
func check() {
	done := make(chan bool)
	go func() {
		one("a{b:calc(1px"+strings.Repeat(" + 1px", 60)+")}", all)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("it takes too long")
	}
}''')

bug("entry-parsed-as-import", "C02",
  [(A, '''	if hasOutput {
''', '''	c.astsByIndexMu.RLock()
	_, seen := c.astsByIndex[idx]
	c.astsByIndexMu.RUnlock()
	if hasOutput && !seen {
''')],
  "an entry that is also imported by another one, and whose goroutine gets to run after the import was already followed (or a cycle of follow imports)",
  "the entry gets no output, and no error",
  r'''
func check() {
	files := map[string]string{"last.css": "a{b:c}"}
	var entries []string
	for i := 0; i < 500; i++ {
		name := fmt.Sprintf("e%d.css", i)
		files[name] = "@import './last.css';"
		entries = append(entries, name)
	}
	entries = append(entries, "last.css")
	write(files)
	for i := 0; i < 30; i++ {
		var r reporter
		var paths []string
		// The last goroutine that is started runs first, so put it in all positions.
		for k := range entries {
			paths = append(paths, filepath.Join(tempDir, entries[(k+i*16)%len(entries)]))
		}
		res := cssc.Compile(cssc.Options{Entry: paths, Reporter: &r})
		if len(res.Files) != 501 {
			fail("%d files", len(res.Files))
		}
	}
}''')

bug("anb-zeros", "C03",
  [(S, '''		v.B = numeral[1:]
		if len(v.B) == 0 {
''', '''		v.B = strings.Trim(numeral, "-+0")
		if len(numeral) < 2 {
''')],
  "An+B with a step and without spaces before the minus sign, in which B ends with a zero (3n-10)",
  "the zeros at the end of B are lost: 3n-10 becomes 3n-1",
  r'''
func check() {
	expect(one("a:nth-child(3n-10){b:c}", transforms.Options{}), "a:nth-child(3n-10){b:c}")
}''')

bug("quiet-universal", "C03",
  [(S, '''			case "*":
				s.Parts = append(s.Parts, &ast.TypeSelector{
					Span: p.lexer.TokenSpan(),
					Name: p.lexer.CurrentString,
				})
				p.lexer.Next()
''', '''			case "*":
				star := &ast.TypeSelector{Span: p.lexer.TokenSpan(), Name: p.lexer.CurrentString}
				p.lexer.Next()
				if d := p.lexer.CurrentString; p.lexer.Current == lexer.Hash || p.lexer.Current == lexer.LBracket ||
					p.lexer.Current == lexer.Colon || (p.lexer.Current == lexer.Delim && d == ".") {
					// *.a is the same as .a.
					break
				}
				s.Parts = append(s.Parts, star)
''')],
  "a universal selector that follows a namespace (ns|*.a), or that separates a compound from a combinator-less neighbour such as ns|*:hover",
  "the namespace's universal selector disappears, so that ns|*.a becomes ns|.a, which is invalid",
  r'''
func check() {
	got := one("ns|*.a{b:c}", transforms.Options{})
	expect(got, "ns|*.a{b:c}")
}''')

bug("attribute-case-flag", "C03",
  [(S, '''	if p.lexer.Current == lexer.Ident && (p.lexer.CurrentString == "s" || p.lexer.CurrentString == "i") {
		attr.Modifier = p.lexer.CurrentString
''', '''	if p.lexer.Current == lexer.Ident && (p.lexer.CurrentString == "s" || p.lexer.CurrentString == "i") {
		if p.lexer.CurrentString == "i" {
			// Case-sensitive is the default.
			attr.Modifier = p.lexer.CurrentString
		}
''')],
  "an attribute selector with the s flag, which matters for attributes like type that HTML compares without case",
  "the s flag is dropped",
  r'''
func check() {
	expect(one("[type=a s]{b:c}", transforms.Options{}), "[type=a s]{b:c}")
}''')

bug("math-parens", "C04",
  [(W, '''		p.s.WriteRune('(')
		p.print(node.Value)
		p.s.WriteRune(')')

	case *ast.MathExpression:
''', '''		if inner, ok := node.Value.(*ast.MathExpression); ok && (inner.Operator == "*" || inner.Operator == "/") {
			// Products bind tighter than anything around them.
			p.print(inner)
		} else {
			p.s.WriteRune('(')
			p.print(node.Value)
			p.s.WriteRune(')')
		}

	case *ast.MathExpression:
''')],
  "a math function that divides by a parenthesized product or quotient",
  "24px / (3 * 4) is printed as 24px/3*4, which has another value",
  r'''
func check() {
	got := strings.ReplaceAll(one("a{b:calc(24px / (3 * 4))}", transforms.Options{}), " ", "")
	expect(got, "a{b:calc(24px/(3*4))}")
}''')

bug("url-escaped-paren", "C04",
  [(L, '''				if startsEscape(l.ch, l.peek(0)) {
					l.nextEscaped()
					urlEnd''', '''				if startsEscape(l.ch, l.peek(0)) {
					l.step()
					urlEnd''')],
  "an unquoted url with an escaped parenthesis, followed by characters that end the declaration",
  "the url ends at the escaped parenthesis, so what follows is taken for declarations of its own",
  r'''
func check() {
	expect(one(`a{b:url(x\);y:z);c:d}`, transforms.Options{}), `a{b:url(x\);y:z);c:d}`)
}''')

bug("url-spelling", "C04",
  [(L, '''	return len(in) == 3 && (in[0] == 'u' || in[0] == 'U') && (in[1] == 'r' || in[1] == 'R') && (in[2] == 'l' || in[2] == 'L')
''', '''	return in == "url" || in == "URL"
''')],
  "an unquoted url in a function name of mixed case, with a semicolon in it (Url(data:image/png;base64,x))",
  "the url's characters are taken for tokens of their own, so the declaration ends in the middle of it",
  r'''
func check() {
	got := one("a{b:Url(data:a;base64,x//y);c:d}", transforms.Options{})
	if strings.ToLower(got) != "a{b:url(data:a;base64,x//y);c:d}" {
		fail("%s", got)
	}
}''')

bug("keyframes-name", "C05",
  [(P, '''		r.Preludes = append(r.Preludes, &ast.String{
			Span:  p.lexer.TokenSpan(),
			Value: p.lexer.CurrentString,
		})

	case lexer.Ident:
''', '''		if name := p.lexer.CurrentString; strings.Trim(strings.ToLower(name), "abcdefghijklmnopqrstuvwxyz-") == "" {
			// Names that look like identifiers don't need quotes.
			r.Preludes = append(r.Preludes, &ast.Identifier{Span: p.lexer.TokenSpan(), Value: name})
		} else {
			r.Preludes = append(r.Preludes, &ast.String{Span: p.lexer.TokenSpan(), Value: name})
		}

	case lexer.Ident:
''')],
  "keyframes whose name is a string that cannot be an identifier, such as a css-wide keyword, or - or an empty name",
  "@keyframes \"none\" becomes @keyframes none, which is invalid, and @keyframes \"\" loses its name",
  r'''
func check() {
	expect(one("@keyframes 'none'{from{b:c}}", transforms.Options{}), "@keyframes \"none\"{from{b:c}}")
	expect(one("@keyframes ''{from{b:c}}", transforms.Options{}), "@keyframes \"\"{from{b:c}}")
}''')

bug("mixed-operators", "C15",
  [(P, "			if op != r.Operator {\n", "			if op[0] != r.Operator[0] {\n")],
  "a range with two bounds of which only one is inclusive: (1px <= width < 2px)",
  "both bounds become inclusive (or strict) instead of an error",
  r'''
func check() {
	out, errs := compile(map[string]string{"in.css": "@media (1px < width <= 2px){a{b:c}}"}, all, "in.css")
	got, ok := out["in.css"]
	if ok && got != "@media (min-width:1.001px) and (max-width:2px){a{b:c}}" {
		fail("%s %v", got, errs)
	}
}''', also=("C05",))

bug("one-zero", "C07",
  [(W, '''	case *ast.Dimension:
		p.s.WriteString(node.Value)
''', '''	case *ast.Dimension:
		value := node.Value
		if dot := strings.IndexByte(value, '.'); dot >= 0 && len(value)-dot > 2 && strings.Trim(value[dot+1:], "0123456789") == "" {
			// Zeros at the end aren't needed.
			value = strings.TrimSuffix(value, "0")
		}
		p.s.WriteString(value)
''')],
  "a number with at least two zeros at the end of its decimals",
  "each time the output is compiled, it loses another zero",
  r'''
func check() {
	opts := transforms.Options{}
	first := one("a{b:1.5000px}", opts)
	expect(one(first, opts), first)
}''')

bug("newline-count", "C12",
  [(X, '''	line := sort.Search(len(s.Lines), func(i int) bool {
		return loc.Start < s.Lines[i]
	})
''', '''	line := strings.Count(s.Content[:loc.Start], "\\n") + 1
	if line > len(s.Lines) {
		line = len(s.Lines)
	}
'''.replace("\\\\n", "\\n")), (X, '	"sort"\n', '	"strings"\n')],
  "a problem after a newline that is a carriage return or form feed only",
  "the line number is too small, and the column too large",
  r'''
func check() {
	_, errs := compile(map[string]string{"in.css": "a{b:c}\rd{e:f}\r\f  g[{h:i}\n"}, transforms.Options{}, "in.css")
	if len(errs) != 1 || !strings.Contains(errs[0], ":4:5\n") {
		fail("%v", errs)
	}
}''', also=("C08",))

bug("result-lock", "C11",
  [(A, '''			c.result.mu.Lock()
			defer c.result.mu.Unlock()
			c.result.Files[source.Path] = out
			return nil
''', '''			if _, ok := c.result.Files[source.Path]; ok {
				return nil
			}
			c.result.mu.Lock()
			c.result.Files[source.Path] = out
			c.result.mu.Unlock()
			return nil
''')],
  "two outputs that are printed at the same time",
  "the outputs are read while another goroutine adds one: a data race that can end the process",
  r'''
func check() {
	files := map[string]string{}
	var entries []string
	for i := 0; i < 40; i++ {
		name := fmt.Sprintf("f%d.css", i)
		files[name] = "a{b:c}"
		entries = append(entries, name)
	}
	for i := 0; i < 20; i++ {
		if out, _ := compile(files, transforms.Options{}, entries...); len(out) != 40 {
			fail("%d files", len(out))
		}
	}
}''', race=True)

bug("vlq-scratch", "C11",
  [(M, '''	var rv []byte
	for {
''', '''	rv := scratch[:0]
	for {
'''), (M, '''// VLQEncode encodes a signed int into base64 byte slice.
''', '''// scratch avoids an allocation per number.
var scratch = make([]byte, 0, 8)

// VLQEncode encodes a signed int into base64 byte slice.
''')],
  "two files that are printed at the same time, with offsets of more than one digit",
  "the printers overwrite each other's digits, so the source maps are wrong",
  r'''
func check() {
	files := map[string]string{}
	var entries []string
	for i := 0; i < 40; i++ {
		name := fmt.Sprintf("f%d.css", i)
		files[name] = strings.Repeat("a{b:c}"+strings.Repeat(" ", 20+i), 200)
		entries = append(entries, name)
	}
	want := map[string]string{}
	for _, e := range entries {
		out, _ := compileFull(files, transforms.Options{}, e)
		want[e] = out[e]
	}
	for i := 0; i < 20; i++ {
		out, _ := compileFull(files, transforms.Options{}, entries...)
		for e, text := range want {
			if out[e] != text {
				fail("%s differs", e)
			}
		}
	}
}''', race=True)

bug("name-cache", "C11",
  [(L, '''				l.CurrentString = l.source.Content[start:l.lastPos]
				return
			}

			l.nextDelimToken()

		case ',':
''', '''				name := l.source.Content[start:l.lastPos]
				if _, ok := hashNames[name]; !ok {
					hashNames[name] = name
				}
				l.CurrentString = hashNames[name]
				return
			}

			l.nextDelimToken()

		case ',':
'''), (L, '''// NewLexer creates a new lexer for the source.
''', '''// hashNames lets sources share the names of their ids.
var hashNames = map[string]string{}

// NewLexer creates a new lexer for the source.
''')],
  "two files with ids that are parsed at the same time",
  "a map is written by several goroutines: a data race that can end the process",
  r'''
func check() {
	files := map[string]string{}
	var entries []string
	for i := 0; i < 40; i++ {
		name := fmt.Sprintf("f%d.css", i)
		var ids strings.Builder
		for j := 0; j < 300; j++ {
			fmt.Fprintf(&ids, "#x%d{a:b}", j)
		}
		files[name] = ids.String()
		entries = append(entries, name)
	}
	for i := 0; i < 20; i++ {
		if out, _ := compile(files, transforms.Options{}, entries...); len(out) != 40 {
			fail("%d files", len(out))
		}
	}
}''', race=True)

bug("nearest-module-only", "C13",
  [(R, '''		if res, err := r.resolve(modulePkgPath); err == nil {
			return res, nil
		}
''', '''		res, err := r.resolve(modulePkgPath)
		if err == nil {
			return res, nil
		}
		if info, statErr := os.Stat(modulePkgPath); statErr == nil && info.IsDir() {
			// This is the module, but it has no styles.
			return "", err
		}
''')],
  "a module folder without usable styles in a nearer node_modules than the one with styles",
  "the lookup doesn't go on to the node_modules of ancestors",
  r'''
func check() {
	write(map[string]string{"node_modules/m/index.css": "a{b:c}", "sub/node_modules/m/readme": "", "sub/x.css": ""})
	r := resolver.NodeResolver{}
	got, err := r.Resolve("m", filepath.Join(tempDir, "sub"))
	if err != nil {
		fail("%v", err)
	}
	expect(got, filepath.Join(tempDir, "node_modules/m/index.css"))
}''')

bug("style-fallback", "C13",
  [(R, '''			return "", oops.Wrapf(ErrNotFound, "package.json has style attribute, but it cannot be resolved: %s (to %s)", pkgContent.Style, stylePath)
''', '''			indexPath := filepath.Join(path, "index.css")
			if info, err := os.Stat(indexPath); err == nil && !info.IsDir() {
				return indexPath, nil
			}
			return "", oops.Wrapf(ErrNotFound, "package.json has style attribute, but it cannot be resolved: %s (to %s)", pkgContent.Style, stylePath)
'''), (R, '	if info, err := os.Stat(stylePath); err != nil || info.IsDir() {\n', '	info, err := os.Stat(stylePath)\n	if err != nil || info.IsDir() {\n')],
  "a package.json whose style file is missing, in a folder that has an index.css",
  "index.css is used although there is a package.json, instead of going on with the next folder",
  r'''
func check() {
	write(map[string]string{"node_modules/m/index.css": "", "node_modules/m/package.json": `{"style": "dist/missing.css"}`})
	r := resolver.NodeResolver{}
	if got, err := r.Resolve("m", tempDir); err == nil {
		fail("%s", got)
	}
}''')

bug("base-only", "C13",
  [(R, '''	if r.BaseURL != "" {
		if res, err := r.resolve(filepath.Join(r.BaseURL, spec)); err == nil {
			return res, nil
		}
	}
''', '''	if r.BaseURL != "" {
		res, err := r.resolve(filepath.Join(r.BaseURL, spec))
		if err == nil {
			return res, nil
		}
		if !errors.Is(err, ErrNotFound) {
			return "", err
		}
	}
''')],
  "a folder under the base URL whose package.json is not valid JSON (or whose lookup fails in some other way than with a missing file), while node_modules has the module",
  "the lookup doesn't go on to node_modules",
  r'''
func check() {
	write(map[string]string{"node_modules/m/index.css": "", "base/m/package.json": `{`})
	r := resolver.NodeResolver{BaseURL: filepath.Join(tempDir, "base")}
	got, err := r.Resolve("m", tempDir)
	if err != nil {
		fail("%v", err)
	}
	expect(got, filepath.Join(tempDir, "node_modules/m/index.css"))
}''')

bug("local-properties", "C17",
  [(T, '''			d.Values = t.transformValues(d.Values)
			newDecls''', '''			if !strings.HasPrefix(d.Property, "--") {
				// Properties defined elsewhere are left untouched.
				d.Values = t.transformValues(d.Values)
			}
			newDecls''')],
  "a custom property that is defined outside of :root and uses one that is defined there",
  "the var() is left, although its definition is gone",
  r'''
func check() {
	expect(one(":root{--a:1px}b{--c:var(--a)}", all), "b{--c:1px}")
}''')

bug("percent-plus-number", "C18",
  [(T, '''				if left.Unit != "" && right.Unit == "" {
''', '''				if left.Unit != "" && right.Unit == "" && left.Unit != "%" {
''')],
  "a sum of a percentage and a number, in that order",
  "calc(50% + 2) is not reported",
  r'''
func check() {
	_, errs := compile(map[string]string{"in.css": "a{b:calc(50% + 2)}"}, all, "in.css")
	if len(errs) != 1 {
		fail("%v", errs)
	}
}''')

bug("line-text-trim", "C20",
  [(G, '''					LineText: source.Content[lineSpan.Start:lineSpan.End],
''', '''					LineText: strings.TrimSpace(source.Content[lineSpan.Start:lineSpan.End]),
'''), (G, '	"runtime/pprof"\n', '	"runtime/pprof"\n	"strings"\n')],
  "a problem on an indented line",
  "the line text doesn't agree with the column any more",
  r'''
func check() {
	write(map[string]string{"in.css": "a{\n\t  b:var(--x)}"})
	res := api.Build(api.BuildOptions{EntryPoints: []string{filepath.Join(tempDir, "in.css")}, Plugins: []api.Plugin{esbuildplugin.Plugin(esbuildplugin.WithTransforms(all))}})
	if len(res.Warnings) != 1 || res.Warnings[0].Location.LineText != "\t  b:var(--x)}" {
		fail("%v", res.Warnings)
	}
}''')

bug("css-suffix", "C20",
  [(G, "api.OnLoadOptions{Filter: `\\.css$`}", "api.OnLoadOptions{Filter: `\\.css`}"),
   (G, '''					f, ok := result.Files[args.Path]
''', '''					f, ok := result.Files[strings.TrimSuffix(args.Path, ".map")]
'''), (G, '	"runtime/pprof"\n', '	"runtime/pprof"\n	"strings"\n')],
  "a module that isn't a stylesheet but has .css in its name (x.css.js)",
  "the plugin compiles a script as a stylesheet",
  r'''
func check() {
	write(map[string]string{"in.css.js": "console.log(1)"})
	res := api.Build(api.BuildOptions{EntryPoints: []string{filepath.Join(tempDir, "in.css.js")}, Plugins: []api.Plugin{esbuildplugin.Plugin(esbuildplugin.WithTransforms(all))}})
	if len(res.Errors) > 0 {
		fail("%v", res.Errors)
	}
}''')

bug("resolver-after-transforms", "C20",
  [(G, '''		opts.Transforms = transforms
		return opts
''', '''		return cssc.Options{Entry: opts.Entry, Reporter: opts.Reporter, Transforms: transforms}
''')],
  "a resolver that is given to the plugin before its transforms",
  "the resolver is forgotten",
  r'''
type r struct{}

func (r) Resolve(spec, from string) (string, error) { return filepath.Join(tempDir, "other.css"), nil }

func check() {
	write(map[string]string{"in.css": "@import 'x';", "other.css": "a{b:c}"})
	res := api.Build(api.BuildOptions{EntryPoints: []string{filepath.Join(tempDir, "in.css")}, Plugins: []api.Plugin{esbuildplugin.Plugin(esbuildplugin.WithResolver(r{}), esbuildplugin.WithTransforms(all))}})
	if len(res.Errors) > 0 || len(res.OutputFiles) != 1 || !strings.Contains(string(res.OutputFiles[0].Contents), "b: c") {
		fail("%v", res.Errors)
	}
}''')
