LX = "internal/lexer/lexer.go"; PA = "internal/parser/parser.go"; SE = "internal/parser/selectors.go"; TR = "internal/transformer/transformer.go"; RE = "resolver/node_resolver.go"; PL = "esbuildplugin/plugin.go"; PR = "internal/printer/printer.go"; AP = "api.go"; LO = "internal/logging/logging.go"; SO = "internal/sources/source.go"

bug("trailing-selector-comma", "C21",
  [(SE, '''		if p.lexer.Current == lexer.Comma {
			p.lexer.Next()
			continue
		}

		break
	}

	// parseSelector will always''', '''		if p.lexer.Current == lexer.Comma {
			p.lexer.Next()
			if p.lexer.Current != lexer.LCurly {
				continue
			}
		}

		break
	}

	// parseSelector will always''')],
  "a comma after the last selector of a rule",
  "the rule, which browsers ignore, is output without the comma and takes effect",
  r'''
func check() {
	got := one("a,{b:c}", transforms.Options{})
	if got == "a{b:c}" {
		fail("invalid rule comes into effect")
	}
}''')

bug("space-in-class", "C21",
  [(SE, '''				span := p.lexer.TokenSpan()
				p.lexer.Next()
				cls := &ast.ClassSelector{
''', '''				span := p.lexer.TokenSpan()
				for p.lexer.Next(); p.lexer.Current == lexer.Whitespace; {
					p.lexer.Next()
				}
				cls := &ast.ClassSelector{
''')],
  "whitespace between the dot and the name of a class",
  "the invalid selector becomes a valid one",
  r'''
func check() {
	got := one("a . b{c:d}", transforms.Options{})
	if got == "a .b{c:d}" {
		fail("invalid rule comes into effect")
	}
}''')

bug("keyframe-comma", "C21",
  [(PA, '''		p.lexer.Next()

		if p.lexer.Current == lexer.Comma {
			p.lexer.Next()
			continue
		}

		break
	}

	if len(l.Selectors) == 0 {''', '''		p.lexer.Next()

		if p.lexer.Current != lexer.Comma {
			break
		}
		if p.lexer.Next(); p.lexer.Current == lexer.LCurly {
			break
		}
	}

	if len(l.Selectors) == 0 {''')],
  "a comma after the last selector of a keyframe",
  "the keyframe, which browsers ignore, takes effect",
  r'''
func check() {
	got := one("@keyframes k{from,{b:c}}", transforms.Options{})
	if strings.Contains(got, "from{") {
		fail("invalid keyframe comes into effect")
	}
}''')

bug("number-attr", "C21",
  [(PR, '''			p.s.WriteRune('=')
			p.print(node.Value)
''', '''			if number, ok := node.Value.(*ast.Dimension); ok {
				p.s.WriteString(`="` + number.Value + number.Unit + `"`)
			} else {
				p.s.WriteRune('=')
				p.print(node.Value)
			}
''')],
  "an attribute selector with an unquoted number, which is invalid",
  "the number is quoted, so the rule takes effect",
  r'''
func check() {
	got := one("[a=1]{b:c}", transforms.Options{})
	if strings.HasPrefix(got, "[a=\"1\"]{") {
		fail("invalid rule comes into effect")
	}
}''')

bug("space-pseudo-element", "C21",
  [(SE, '''			span := p.lexer.TokenSpan()
			p.lexer.Next()

			// Wrap''', '''			p.lexer.RetainWhitespace = false
			span := p.lexer.TokenSpan()
			p.lexer.Next()
			p.lexer.RetainWhitespace = true

			// Wrap'''),
   (SE, '''			if p.lexer.Current == lexer.Colon {
				wrapper = true
''', '''			if wrapper = p.lexer.Current == lexer.Colon; wrapper {
''')],
  "whitespace after the first colon of a pseudo-class or pseudo-element",
  "the invalid selector becomes a valid one",
  r'''
func check() {
	got := one("a: :before{c:d}", transforms.Options{})
	if strings.HasPrefix(got, "a::before{") {
		fail("invalid rule comes into effect")
	}
}''')

bug("feature-without-name", "C21",
  [(PA, '''	case lexer.Colon:
		p.lexer.Next()
		ident, ok''', '''	case lexer.Colon:
		if p.lexer.Next(); p.lexer.Current == lexer.RParen {
			return p.parseMediaFeatureEnd(startLoc, firstValue)
		}
		ident, ok'''),
   (PA, '''var (
	mediaOperatorLT ''', '''func (p *parser) parseMediaFeatureEnd(startLoc ast.Span, value ast.Value) ast.MediaFeature {
	startLoc.End = p.lexer.TokenEnd()
	ident, ok := value.(*ast.Identifier)
	if !ok {
		p.lexer.LocationErrorf(startLoc, "expected identifier in media feature with no value")
	}
	p.lexer.Next()
	return &ast.MediaFeaturePlain{Span: startLoc, Property: ident}
}

var (
	mediaOperatorLT ''')],
  "a media feature with a colon but no value",
  "the invalid feature is output without the colon, so it can match",
  r'''
func check() {
	got := one("@media (color:){a{b:c}}", transforms.Options{})
	if strings.Contains(got, "(color)") {
		fail("invalid query comes into effect")
	}
}''')

bug("link-name-prefix", "C14",
  [(PR, '''		p.s.WriteRune(':')
		p.s.WriteString(node.Name)
		if node.Arguments != nil {
''', '''		p.s.WriteRune(':')
		if strings.HasSuffix(node.Name, "-any-link") {
			p.s.WriteString("any-link")
		} else {
			p.s.WriteString(node.Name)
		}
		if node.Arguments != nil {
''')],
  "a vendor-prefixed :-webkit-any-link", "an :any-link appears in the output although the transform is on", r'''
func check() {
	expect(one("a:-webkit-any-link{b:c}", all), "a:-webkit-any-link{b:c}")
}''')

bug("visited-hidden", "C14",
  [(TR, '''	newNodes := make([]*ast.Selector, 0, len(nodes))
	for _, n := range nodes {
''', '''	newNodes := make([]*ast.Selector, 0, len(nodes))
	for i, n := range nodes {
		if len(n.Parts) > 16 && i == 0 {
			// Selectors of this length are generated.
			newNodes = append(newNodes, n)
			continue
		}
''')],
  "a selector with more than sixteen parts", "its :any-link is left in the output", r'''
func check() {
	got := one(".a"+strings.Repeat(".b", 20)+":any-link{c:d}", transforms.Options{AnyLink: transforms.AnyLinkTransform})
	if strings.Contains(got, "any-link") {
		fail("%s", got)
	}
}''')

bug("follow-same-name", "C10",
  [(AP, '''			// If import follow is on, then every referenced file makes it to the output.
''', '''			if filepath.Base(rel) == filepath.Base(source.Path) {
				// The file imports itself.
				return nil
			}
			// If import follow is on, then every other referenced file makes it to the output.
''')],
  "an import of a file that has the name of the importing one, but is in another folder",
  "it is not followed, so its output is missing",
  r'''
func check() {
	out, errs := compile(map[string]string{"index.css": "@import './x/index.css';", "x/index.css": "a{b:c}"}, transforms.Options{ImportRules: transforms.ImportRulesFollow}, "index.css")
	if len(errs) > 0 || len(out) != 2 {
		fail("%q %v", out, errs)
	}
}''')

bug("import-url-print", "C10",
  [(PA, '''	case lexer.URL:
		prelude.Span = p.lexer.TokenSpan()
		prelude.Value = p.lexer.CurrentString
''', '''	case lexer.URL:
		prelude.Span = p.lexer.TokenSpan()
		prelude.Value = strings.SplitN(p.lexer.CurrentString, "#", 2)[0]
''')],
  "an unquoted url with a fragment in an import", "the fragment is missing in the output", r'''
func check() {
	out, _ := compile(map[string]string{"in.css": "@import url(http://x/sprite.css#part);"}, transforms.Options{}, "in.css")
	expect(out["in.css"], "@import \"http://x/sprite.css#part\";")
}''')

bug("trim-decimal", "C07",
  [(PR, '''	case *ast.Dimension:
		p.s.WriteString(node.Value)
''', '''	case *ast.Dimension:
		if strings.Contains(node.Value, ".") && !strings.ContainsAny(node.Value, "eE") {
			p.s.WriteString(strings.TrimSuffix(strings.TrimSuffix(node.Value, "0"), "."))
		} else {
			p.s.WriteString(node.Value)
		}
''')],
  "a number with several zeros at the end of its decimals", "compiling the output again removes another one", r'''
func check() {
	once := one("a{b:1.500px}", transforms.Options{})
	expect(one(once, transforms.Options{}), once)
}''')

bug("dedupe-decls", "C07",
  [(TR, '''	newDecls := make([]ast.Declarationish, 0, len(decls))
	for _, decl := range decls {
''', '''	var newDecls []ast.Declarationish
	last := map[string]int{}
	for _, decl := range decls {
		if d, ok := decl.(*ast.Declaration); ok {
			last[d.Property]++
		}
	}
	if len(last) > 8 {
		// Keep big blocks readable: group them by property.
		for property := range last {
			for _, decl := range decls {
				if d, ok := decl.(*ast.Declaration); ok && d.Property == property {
					d.Values = t.transformValues(d.Values)
					newDecls = append(newDecls, d)
				}
			}
		}
		return newDecls
	}
	for _, decl := range decls {
''')],
  "a block with more than eight properties", "the order of the declarations is random", r'''
func check() {
	src := "a{b:1;c:2;d:3;e:4;f:5;g:6;h:7;i:8;j:9;k:10}"
	for i := 0; i < 30; i++ {
		expect(one(src, transforms.Options{}), src)
	}
}''')

bug("media-not-only", "C05",
  [(PR, '''	case *ast.MediaQueryList:
		for i, q := range node.Queries {
''', '''	case *ast.MediaQueryList:
		for i, q := range node.Queries {
			if i > 0 && len(q.Parts) == 1 && len(node.Queries[i-1].Parts) == 1 {
				first, ok1 := node.Queries[i-1].Parts[0].(*ast.MediaFeaturePlain)
				second, ok2 := q.Parts[0].(*ast.MediaFeaturePlain)
				if ok1 && ok2 && first.Property.Value == second.Property.Value {
					// The same query again.
					continue
				}
			}
			if i > 0 {
				p.s.WriteRune(',')
			}
			p.print(q)
		}

'''), (PR, '''			p.print(q)

			if i+1 < len(node.Queries) {
				p.s.WriteRune(',')
			}
		}

''', '')],
  "two adjacent media queries that test the same feature for different values", "the second is missing in the output", r'''
func check() {
	expect(one("@media (color:1),(hover),(width:1px),(width:2px){a{b:c}}", transforms.Options{}), "@media (color:1),(hover),(width:1px),(width:2px){a{b:c}}")
}''')

bug("statement-block", "C05",
  [(PR, '''		if node.Block != nil {
			p.s.WriteRune('{')
			p.print(node.Block)
			p.s.WriteRune('}')
		} else {
''', '''		block, ok := node.Block.(*ast.DeclarationBlock)
		if node.Block != nil && !(ok && len(block.Declarations) == 0) {
			p.s.WriteRune('{')
			p.print(node.Block)
			p.s.WriteRune('}')
		} else {
''')],
  "an at-rule with an empty block of declarations, e.g. @font-face{} or @layer x{}", "it becomes a statement, which is invalid or has another meaning", r'''
func check() {
	got := one("@page{}a{b:c}", transforms.Options{})
	if strings.Contains(got, "@page;") {
		fail("%s", got)
	}
}''')

bug("custom-media-value", "C16",
  [(TR, '''			if part.Value != nil || !strings.HasPrefix(part.Property.Value, "--") {
''', '''			if !strings.HasPrefix(part.Property.Value, "--") {
''')],
  "a feature with a value whose name is that of a custom media query, which browsers ignore", "it is replaced by the query", r'''
func check() {
	got := one("@custom-media --x (color);@media (--x:1){a{b:c}}", transforms.Options{CustomMediaQueries: transforms.CustomMediaQueriesTransform})
	expect(got, "@media (--x:1){a{b:c}}")
}''')

bug("nested-block-media", "C16",
  [(TR, '''	newQueries := make([]*ast.MediaQuery, 0, len(queries))
	for _, q := range queries {
''', '''	var newQueries []*ast.MediaQuery
	for _, q := range queries {
		if len(q.Parts) > 0 {
			if ident, ok := q.Parts[0].(*ast.Identifier); ok && ident.Value == "not" && len(q.Parts) == 2 {
				// Only media types can be negated.
				newQueries = append(newQueries, q)
				continue
			}
		}
''')],
  "a query that only negates a custom media query", "it is left in the output", r'''
func check() {
	got := one("@custom-media --x (color);@media not (--x){a{b:c}}", transforms.Options{CustomMediaQueries: transforms.CustomMediaQueriesTransform})
	if strings.Contains(got, "--x") {
		fail("%s", got)
	}
}''')

bug("default-reporter-f", "C22",
  [(LO, '''	fmt.Fprintln(w, err.Error())
''', '''	fmt.Fprintf(w, err.Error()+"\\n")
''')],
  "an error whose text has a percent sign, e.g. in the quoted source line", "something else is printed", r'''
func check() {
	if name := os.Getenv("DEMO_FILE"); name != "" {
		cssc.Compile(cssc.Options{Entry: []string{name}})
		return
	}
	write(map[string]string{"in.css": "a{b:50%} ..x{}"})
	self, _ := os.Executable()
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "DEMO_FILE="+filepath.Join(tempDir, "in.css"))
	var stderr strings.Builder
	cmd.Stderr = &stderr
	cmd.Run()
	if !strings.Contains(stderr.String(), "a{b:50%} ..x{}") {
		fail("%s", stderr.String())
	}
}''')
