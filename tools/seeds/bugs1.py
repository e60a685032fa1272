bug("unclean-entry-path", "C02",
  [("api.go", '''	abs, err := filepath.Abs(path)
	if err != nil {
		return 0, oops.Wrapf(err, "failed to make path absolute: %s", path)
	}
''', '''	abs := path
	if !filepath.IsAbs(path) {
		var err error
		if abs, err = filepath.Abs(path); err != nil {
			return 0, oops.Wrapf(err, "failed to make path absolute: %s", path)
		}
	}
''')],
  "an entry given by an absolute path that isn't clean (a/./b or a/x/../b), possibly together with its clean spelling",
  "the output is stored under the unclean path, and a file that is given in two spellings gets two outputs",
  r'''
func check() {
	out, errs := compile(map[string]string{"a.css": "a{b:c}", "sub/x": ""}, transforms.Options{}, "a.css")
	if len(out) != 1 || len(errs) > 0 {
		fail("%v %v", out, errs)
	}
	var r reporter
	p := filepath.Join(tempDir, "a.css")
	res := cssc.Compile(cssc.Options{Entry: []string{p, tempDir + "/sub/../a.css", tempDir + "//./a.css"}, Reporter: &r})
	if _, ok := res.Files[p]; !ok || len(res.Files) != 1 {
		fail("%d files", len(res.Files))
	}
}''')

bug("id-escape", "C03",
  [("internal/parser/selectors.go", '''			s.Parts = append(s.Parts, &ast.IDSelector{
				Span: p.lexer.TokenSpan(),
				Name: p.lexer.CurrentString,
			})''', '''			s.Parts = append(s.Parts, &ast.IDSelector{
				Span: p.lexer.TokenSpan(),
				Name: strings.TrimSpace(p.lexer.CurrentString),
			})''')],
  "an id that ends with a hexadecimal escape and its terminating space, followed by more of the compound selector (#a\\31 .b)",
  "the space that ends the escape is lost, so the following selector's characters become part of the escape, or the descendant combinator is lost",
  r'''
func check() {
	expect(one("#a\\31 .b{c:d}", transforms.Options{}), "#a\\31 .b{c:d}")
	expect(one("#a\\31  b{c:d}", transforms.Options{}), "#a\\31  b{c:d}")
}''')

bug("negative-exponent", "C04",
  [("internal/lexer/lexer.go", '''		if l.ch == '+' || l.ch == '-' {
			l.step()
		}

		for isDigit(l.ch) {
			l.step()
		}
	}
}''', '''		if l.ch == '+' {
			l.step()
		}

		for isDigit(l.ch) {
			l.step()
		}
	}
}''')],
  "a number in scientific notation with a negative exponent",
  "1e-3px becomes the two values 1e and -3px",
  r'''
func check() {
	expect(one("a{b:1e-3px 2E+2 1e3}", transforms.Options{}), "a{b:1e-3px 2E+2 1e3}")
}''')

bug("url-leading-space", "C06",
  [("internal/lexer/lexer.go", '''		for i := l.lastPos; i < len(l.source.Content) && isWhitespace(l.ch); i++ {
			l.step()
		}
''', '''		if isWhitespace(l.ch) {
			l.step()
		}
''')],
  "a quoted url with at least two whitespace characters (such as a newline and indentation) after the parenthesis",
  "the url is reported as broken (or carried through as text) depending on formatting",
  r'''
func check() {
	expect(one("a{b:url(\n  'x')}", transforms.Options{}), one("a{b:url( 'x')}", transforms.Options{}))
	expect(one("@import url(\n  'x') print;", transforms.Options{}), one("@import url('x') print;", transforms.Options{}))
}''')

bug("map-newline-column", "C08",
  [("internal/printer/printer.go", '''			p.lastMappingState.generatedColumn = 0
			newState.generatedColumn = 0
''', '''			newState.generatedColumn = 0
''')],
  "a newline in the output (in a declaration that is carried through, or an escaped newline in a string) between two rules",
  "the generated column of the first rule after the newline is relative to the previous line's last one, so the positions of all later rules on the line are wrong",
  r'''
func check() {
	out, _ := compileFull(map[string]string{"in.css": "a{b:c}d{e:'f\\\ng'}h{i:j}"}, transforms.Options{}, "in.css")
	i := strings.Index(out["in.css"], "base64,")
	end := strings.Index(out["in.css"][i:], " */")
	b, err := base64.StdEncoding.DecodeString(out["in.css"][i+len("base64,") : i+end])
	if err != nil {
		fail("%v", err)
	}
	var m struct{ Mappings string }
	if err := json.Unmarshal(b, &m); err != nil {
		fail("%v", err)
	}
	lines := strings.Split(m.Mappings, ";")
	// The output is a{b:c}d{e:"f\ and g"}h{i:j}, where h is in column 3.
	if len(lines) != 2 || !strings.HasPrefix(lines[1], "G") {
		fail("mappings %q", m.Mappings)
	}
}''')

bug("map-content-quoting", "C08",
  [("internal/printer/printer.go", '''	out, err := json.Marshal(p.options.OriginalSource.Content)
	if err != nil {
		panic(err)
	}
	b.Write(out)
''', '''	b.WriteString(strconv.Quote(p.options.OriginalSource.Content))
'''), ("internal/printer/printer.go", '	"reflect"\n	"strings"\n', '	"reflect"\n	"strconv"\n	"strings"\n')],
  "a stylesheet with control characters other than the usual whitespace, or with unprintable characters outside of the basic multilingual plane",
  "the source map isn't valid JSON",
  r'''
func check() {
	for _, c := range []string{"\v", "\x7f", "\U000E0001", "\x01", "\n", "\""} {
		out, _ := compileFull(map[string]string{"in.css": "a{b:'\u00e9'}/*" + c + "*/"}, transforms.Options{}, "in.css")
		i := strings.Index(out["in.css"], "base64,")
		end := strings.Index(out["in.css"][i:], " */")
		b, err := base64.StdEncoding.DecodeString(out["in.css"][i+len("base64,") : i+end])
		if err != nil {
			fail("%v", err)
		}
		var m struct{ SourcesContent []string }
		if err := json.Unmarshal(b, &m); err != nil {
			fail("%q: %v", c, err)
		}
	}
}''')

bug("eager-any-link-test", "C14",
  [("internal/transformer/transformer.go", "			selList.Selectors = t.transformSelectors(selList.Selectors)\n", '''			// Most stylesheets don't use it at all.
			if strings.Contains(t.OriginalSource.Content, "any-link") {
				selList.Selectors = t.transformSelectors(selList.Selectors)
			}
''')],
  "the pseudo-class spelled with an upper case letter or an escape, in a stylesheet without any lower case spelling",
  ":any-LINK is left in the output",
  r'''
func check() {
	expect(one("a:any-Link{b:c}", all), one("a:any-link{b:c}", all))
}''', also=("C19",))

bug("range-precision", "C15",
  [("internal/transformer/transformer.go", "		return &ast.Dimension{Value: strconv.FormatFloat(f+diff, 'f', -1, 64), Unit: oldValue.Unit}\n", "		return &ast.Dimension{Value: strconv.FormatFloat(f+diff, 'f', -1, 32), Unit: oldValue.Unit}\n")],
  "a strict bound that needs more than single precision once .001 is added, such as 65536px",
  "(width < 65536px) becomes (max-width:65536px), which includes the bound",
  r'''
func check() {
	expect(one("@media (width < 65536px) and (height > 20000.25px){a{b:c}}", all), "@media (max-width:65535.999px) and (min-height:20000.251px){a{b:c}}")
}''')

bug("calc-with-properties", "C19",
  [("internal/transformer/transformer.go", '				if t.CalcReduction == transforms.CalcReductionPassthrough {\n', '				if t.CalcReduction == transforms.CalcReductionPassthrough && t.variables == nil {\n')],
  "calc reduction off while custom properties are substituted, and a calc() that can be reduced",
  "calc() is reduced although its transform is off",
  r'''
func check() {
	expect(one("a{b:calc(1px * 2)}", transforms.Options{CustomProperties: transforms.CustomPropertiesTransformRoot}), one("a{b:calc(1px * 2)}", transforms.Options{}))
}''')

bug("ranges-with-custom-media", "C19",
  [("internal/transformer/transformer.go", "	if t.MediaFeatureRanges == transforms.MediaFeatureRangesPassthrough {\n		return asIs\n	}\n", "	if t.MediaFeatureRanges == transforms.MediaFeatureRangesPassthrough && t.customMedia == nil {\n		return asIs\n	}\n")],
  "the range transform off while custom media queries are substituted, and a range in a media query",
  "ranges are rewritten although their transform is off",
  r'''
func check() {
	expect(one("@media (width<=5px){a{b:c}}", transforms.Options{CustomMediaQueries: transforms.CustomMediaQueriesTransform}), "@media (width<=5px){a{b:c}}")
}''')

bug("unlocked-source-table", "C11",
  [("api.go", '''	c.sourcesByIndexMu.RLock()
	source := c.sourcesByIndex[idx]
	c.sourcesByIndexMu.RUnlock()
	ss, err''', '''	source := c.sourcesByIndex[idx]
	ss, err''')],
  "two files that are read at the same time",
  "the table of sources is read while another goroutine writes it: a data race that can end the process",
  r'''
func check() {
	files := map[string]string{}
	var entries []string
	for i := 0; i < 40; i++ {
		name := fmt.Sprintf("f%d.css", i)
		files[name] = "a{b:c}"
		entries = append(entries, name)
	}
	for i := 0; i < 20; i++ {
		if out, _ := compile(files, transforms.Options{}, entries...); len(out) != 40 {
			fail("%d files", len(out))
		}
	}
}''', race=True)

bug("unlocked-reporter", "C11",
  [("api.go", '''	c.mu.Lock()
	defer c.mu.Unlock()
	c.reporter.AddError(err)
''', '''	c.reporter.AddError(err)
''')],
  "problems in two files that are found at the same time",
  "calls of the reporter overlap",
  r'''
type overlap struct{ active, most, calls int32 }

func (o *overlap) AddError(err error) {
	if n := atomic.AddInt32(&o.active, 1); n > 1 {
		atomic.StoreInt32(&o.most, n)
	}
	time.Sleep(time.Millisecond)
	atomic.AddInt32(&o.active, -1)
	atomic.AddInt32(&o.calls, 1)
}

func check() {
	var entries []string
	for i := 0; i < 200; i++ {
		entries = append(entries, fmt.Sprintf("%s/missing%d.css", tempDir, i))
	}
	var o overlap
	cssc.Compile(cssc.Options{Entry: entries, Reporter: &o})
	if o.most > 1 || o.calls != 200 {
		fail("%d calls at once, %d in all", o.most, o.calls)
	}
}''')

bug("package-json-fallback", "C13",
  [("resolver/node_resolver.go", '''	if pkgContent.Style == "" {
		return "", oops''', '''	if pkgContent.Style == "" {
		if index := filepath.Join(path, "index.css"); r.BaseURL != "" {
			if info, err := os.Stat(index); err == nil && !info.IsDir() {
				return index, nil
			}
		}
		return "", oops''')] if False else
  [("resolver/node_resolver.go", '''	stylePath := filepath.Join(path, pkgContent.Style)
''', '''	stylePath := pkgContent.Style
	if !filepath.IsAbs(stylePath) {
		stylePath = filepath.Join(path, stylePath)
	}
''')],
  "a package.json whose style attribute starts with a slash",
  "the style is looked up from the root of the file system instead of the package",
  r'''
func check() {
	write(map[string]string{"node_modules/m/package.json": `{"style": "/dist/x.css"}`, "node_modules/m/dist/x.css": ""})
	r := resolver.NodeResolver{}
	got, err := r.Resolve("m", tempDir)
	if err != nil {
		fail("%v", err)
	}
	expect(got, filepath.Join(tempDir, "node_modules/m/dist/x.css"))
}''')
