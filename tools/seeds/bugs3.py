bug("form-feed", "C06",
  [(L, "	if cp == '\\r' || cp == '\\f' {\n		next, nextSize", "	if cp == '\\r' {\n		next, nextSize")],
  "a stylesheet with form feeds",
  "form feeds are not whitespace any more",
  r'''
func check() {
	expect(one("a\fb{c:d}", transforms.Options{}), "a b{c:d}")
}''')

bug("keyframe-mapping", "C08",
  [(W, '''		p.addMapping(node.Location())
		p.print(node.Prelude)
''', '''		if _, ok := node.Prelude.(*ast.SelectorList); ok {
			p.addMapping(node.Location())
		}
		p.print(node.Prelude)
''')],
  "keyframes",
  "the rules inside of keyframes have no position in the source map",
  r'''
func check() {
	out, _ := compileFull(map[string]string{"in.css": "@keyframes x{from{b:c}to{b:d}}"}, transforms.Options{}, "in.css")
	i := strings.Index(out["in.css"], "base64,")
	end := strings.Index(out["in.css"][i:], " */")
	b, _ := base64.StdEncoding.DecodeString(out["in.css"][i+len("base64,") : i+end])
	var m struct{ Mappings string }
	if err := json.Unmarshal(b, &m); err != nil {
		fail("%v", err)
	}
	if strings.Count(m.Mappings, ",") != 2 {
		fail("%s", m.Mappings)
	}
}''')

bug("base64-url", "C08",
  [(W, "base64.StdEncoding.EncodeToString", "base64.URLEncoding.EncodeToString")],
  "a source text for which the encoding of the source map has a + or /",
  "the source map can't be decoded, as data urls don't use the url-safe alphabet",
  r'''
func check() {
	out, _ := compileFull(map[string]string{"in.css": "a{b:c}/* \u00fb\u00ff ??>>??>>?>?>?>?>~~~~~ \u07ff\u07ff */"}, transforms.Options{}, "in.css")
	i := strings.Index(out["in.css"], "base64,")
	end := strings.Index(out["in.css"][i:], " */")
	if _, err := base64.StdEncoding.DecodeString(out["in.css"][i+len("base64,") : i+end]); err != nil {
		fail("%v", err)
	}
}''')

bug("crlf-line-text", "C12",
  [(X, '''	lineEnd := len(s.Content)
	for i, ch := range s.Content[loc.Start:] {
''', '''	lineEnd, rest := len(s.Content), s.Content[loc.Start:]
	if int(lineNumber) < len(s.Lines) && s.Lines[lineNumber] > loc.Start {
		// The lexer already knows where the line ends.
		return ast.Span{Start: lineStart, End: s.Lines[lineNumber] - 1}
	}
	for i, ch := range rest {
''')],
  "a problem on a line that ends with CR LF and was already passed",
  "the line that is shown has a carriage return at its end",
  r'''
func check() {
	_, errs := compile(map[string]string{"in.css": "a{b:var(--x)}\r\nd{e:f}\r\n"}, all, "in.css")
	if len(errs) != 1 || strings.Contains(errs[0], "\r") {
		fail("%q", errs)
	}
}''', also=("C20",))

bug("rune-columns", "C12",
  [(X, '''	return int32(line), int32(loc.Start - s.Lines[line-1] + 1)
''', '''	return int32(line), int32(utf8.RuneCountInString(s.Content[s.Lines[line-1]:loc.Start]) + 1)
'''), (X, '	"sort"\n', '	"sort"\n	"unicode/utf8"\n')],
  "a problem behind a character that takes more than one byte, on the same line",
  "the column is too small, and the underline is in the wrong place",
  r'''
func check() {
	_, errs := compile(map[string]string{"in.css": "é{b:var(--x)}"}, all, "in.css")
	if len(errs) != 1 || !strings.Contains(errs[0], ":1:6\n") {
		fail("%q", errs)
	}
}''', also=("C08",))

bug("inline-once", "C09",
  [(T, '''				imported, ok := t.ImportReplacements[node]
				if !ok {
''', '''				imported, ok := t.replacement(node)
				if imported == nil && ok {
					// The rules are already there.
					break
				}
				if !ok {
'''), (T, '''type transformer struct {
	Options
''', '''type transformer struct {
	Options

	// inlined is the paths of the imports that are part of the output.
	inlined map[string]bool
'''), (T, '''func (t *transformer) transformNodes(''', '''func (t *transformer) replacement(node *ast.AtRule) (*ast.Stylesheet, bool) {
	imported, ok := t.ImportReplacements[node]
	source := t.ImportSources[node]
	if !ok || source == nil {
		return imported, ok
	}
	if t.inlined == nil {
		t.inlined = make(map[string]bool)
	}
	if t.inlined[source.Path] {
		return nil, true
	}
	t.inlined[source.Path] = true
	return imported, true
}

func (t *transformer) transformNodes(''')],
  "a file that is reached through several imports, where the rules between them override its own",
  "only the first of the imports is replaced, so the cascade changes",
  r'''
func check() {
	out, _ := compile(map[string]string{"in.css": "@import './a.css';@import './b.css';@import './a.css';", "a.css": "a{b:c}", "b.css": "a{b:d}"},
		transforms.Options{ImportRules: transforms.ImportRulesInline}, "in.css")
	expect(out["in.css"], "a{b:c}a{b:d}a{b:c}")
}''')

bug("inline-shared-name", "C09",
  [(P, '''	case lexer.String:
		prelude.Span = p.lexer.TokenSpan()
		prelude.Value = p.lexer.CurrentString
''', '''	case lexer.String:
		prelude.Span = p.lexer.TokenSpan()
		prelude.Value = strings.TrimSpace(p.lexer.CurrentString)
		p.lexer.CurrentString = prelude.Value
''')],
  "an import of a file whose name starts or ends with a space",
  "another file, or none, is inlined",
  r'''
func check() {
	out, _ := compile(map[string]string{"in.css": "@import './a ';", "a ": "a{b:c}", "a": "d{e:f}"},
		transforms.Options{ImportRules: transforms.ImportRulesInline}, "in.css")
	expect(out["in.css"], "a{b:c}")
}''')

bug("import-query", "C10",
  [(A, '''			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
			if err != nil {
				c.addError(err)
				return nil
			}

			// If import follow''', '''			rel, err := c.resolver.Resolve(strings.SplitN(imp.Value, "?", 2)[0], filepath.Dir(source.Path))
			if err != nil {
				c.addError(err)
				return nil
			}

			// If import follow''')],
  "an import of a file with a question mark in its name, possibly next to one without it",
  "another file than the imported one is followed, or the import is reported although the file is there",
  r'''
func check() {
	out, errs := compile(map[string]string{"in.css": "@import './a?b.css';", "a?b.css": "a{b:c}", "a": "d{e:f}"},
		transforms.Options{ImportRules: transforms.ImportRulesFollow}, "in.css")
	if len(errs) > 0 || len(out) != 2 {
		fail("%v %v", out, errs)
	}
	expect(out["a?b.css"], "a{b:c}")
}''')

bug("follow-styles-only", "C10",
  [(A, "			c.parseFile(rel, c.transforms.ImportRules == transforms.ImportRulesFollow)\n",
       "			// Only stylesheets make it to the output.\n			c.parseFile(rel, c.transforms.ImportRules == transforms.ImportRulesFollow && filepath.Ext(rel) == \".css\")\n")],
  "an import of a file whose name doesn't end with .css, with import following",
  "the imported file has no output",
  r'''
func check() {
	out, _ := compile(map[string]string{"in.css": "@import './a.CSS';@import './b.pcss';", "a.CSS": "a{b:c}", "b.pcss": "d{e:f}"},
		transforms.Options{ImportRules: transforms.ImportRulesFollow}, "in.css")
	if len(out) != 3 {
		fail("%v", out)
	}
}''')

bug("range-three-decimals", "C15",
  [(T, "		return &ast.Dimension{Value: strconv.FormatFloat(f+diff, 'f', -1, 64), Unit: oldValue.Unit}\n",
    '		// The difference only has three decimals.\n		value := strings.TrimRight(strconv.FormatFloat(f+diff, \'f\', 3, 64), "0")\n		return &ast.Dimension{Value: strings.TrimSuffix(value, "."), Unit: oldValue.Unit}\n')],
  "a strict bound with more than three decimals",
  "(width < 1.0004px) becomes (max-width:.999px), which excludes .9992px",
  r'''
func check() {
	got := one("@media (width < 1.25049px){a{b:c}}", all)
	number := strings.TrimSuffix(strings.TrimPrefix(got, "@media (max-width:"), "px){a{b:c}}")
	f, err := strconv.ParseFloat(number, 64)
	if err != nil || f < 1.249489 || f > 1.249491 {
		fail("%s", got)
	}
}''')

bug("calc-precision", "C18",
  [(T, '''				Value: strconv.FormatFloat(newValue, 'f', -1, 64),
				Unit:  left.Unit,
			}

		// case *ast.MathExpression:
''', '''				Value: strconv.FormatFloat(newValue, 'f', -1, 32),
				Unit:  left.Unit,
			}

		// case *ast.MathExpression:
''')],
  "a sum that needs more than single precision",
  "calc(16777216px + 1px) becomes 16777216px",
  r'''
func check() {
	expect(one("a{b:calc(16777216px + 1px)}", all), "a{b:16777217px}")
}''')

bug("fold-in-place", "C18",
  [(T, '''		if evaluated := t.evaluateMathExpression(expr.Left, expr.Right, expr.Operator); evaluated != nil {
			r = evaluated
		}
''', '''		evaluated := t.evaluateMathExpression(expr.Left, expr.Right, expr.Operator)
		if evaluated != nil {
			r = evaluated
			expr.Left, expr.Right, expr.Operator = evaluated, &ast.Dimension{Value: "1"}, "*"
		}
''')],
  "a calc() that can't be reduced as a whole, with a right operand that can be",
  "the expression is rewritten although it isn't reduced",
  r'''
func check() {
	expect(one("a{b:calc(1rem - 2px*3)}", all), one("a{b:calc(1rem - 2px*3)}", transforms.Options{}))
}''')


bug("media-once", "C16",
  [(T, '''			if part.Value != nil || !strings.HasPrefix(part.Property.Value, "--") {
				newParts = append(newParts, p)
				break
			}
''', '''			if part.Value != nil || !strings.HasPrefix(part.Property.Value, "--") || (i > 0 && isKeyword(parts[i-1], "or")) {
				newParts = append(newParts, p)
				break
			}
''')],
  "a custom media query on the right side of an or",
  "the use is left although its definition is gone",
  r'''
func check() {
	expect(one("@custom-media --m (color);@media (hover) or (--m){a{b:c}}", all), "@media (hover) or (color){a{b:c}}")
}''')

bug("custom-media-list-order", "C16",
  [(T, '''	newQueries := make([]*ast.MediaQuery, 0, len(queries))
	for _, q := range queries {
''', '''	newQueries := make([]*ast.MediaQuery, 0, len(queries))
	seen := make(map[string]bool)
	for i := range queries {
		q := queries[i]
		if feature, ok := q.Parts[len(q.Parts)-1].(*ast.MediaFeaturePlain); ok && feature.Value == nil {
			// The same custom media query doesn't need to be repeated.
			if strings.HasPrefix(feature.Property.Value, "--") && seen[feature.Property.Value] {
				continue
			}
			seen[feature.Property.Value] = true
		}
''')],
  "a list of media queries of which two end with the same custom media query but differ otherwise",
  "the second of the queries is dropped",
  r'''
func check() {
	expect(one("@custom-media --m (color);@media print and (--m),screen and (--m){a{b:c}}", all), "@media print and (color),screen and (color){a{b:c}}")
}''')

bug("var-comma", "C17",
  [(T, '''				if t.variables == nil {
					return
				}

				if len(v.Arguments) == 0 {
''', '''				if t.variables == nil || len(v.Arguments) > 5 {
					return
				}

				if len(v.Arguments) == 0 {
''')],
  "a var() whose fallback has several values or commas",
  "the var() is left, although its definition is gone",
  r'''
func check() {
	expect(one(":root{--a:1px}b{c:var(--a, 1px 2px 3px 4px)}", all), "b{c:1px}")
}''')

bug("important-in-root", "C17",
  [(P, '''			p.lexer.Next()
			decl.Important = true
''', '''			p.lexer.Next()
			decl.Important = !strings.HasPrefix(decl.Property, "--")
''')],
  "a custom property that is marked as important, and another definition of it after that",
  "the later definition wins over the important one",
  r'''
func check() {
	expect(one(":root{--a:1px!important}:root{--a:2px}b{c:var(--a)}", all), "b{c:1px}")
	expect(one("b{--a:1px!important}", transforms.Options{}), "b{--a:1px!important}")
}''')


