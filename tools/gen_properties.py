#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

API="api.go"; LEX="internal/lexer/lexer.go"; PAR="internal/parser/parser.go"; SEL="internal/parser/selectors.go"
PRI="internal/printer/printer.go"; SM="internal/printer/sourcemaps.go"; TR="internal/transformer/transformer.go"
RES="resolver/node_resolver.go"; LOG="internal/logging/logging.go"; SRC="internal/sources/source.go"; ESB="esbuildplugin/plugin.go"; TRO="transforms/transforms.go"

prop("C01","Compiling any bytes terminates, never crashes, and yields output or an error",
 "For every byte sequence used as the content of an entry or imported stylesheet, and for every combination of transform options, compilation finishes without panicking, hanging or exhausting memory. Afterwards every readable entry either has an output or at least one error was reported.",
 ["inputs","configurations"],"all byte strings as stylesheet content, all transform option combinations",
 "The tests feed a few dozen well-formed snippets; truncated, malformed or hostile bytes reach lexer and parser loops and recover paths that no test reaches, and a panic in a compile goroutine kills the whole process.",
 [API,LEX,PAR,SEL,PRI,TR],[("panic-to-error conversion","parser.Parse / printer.Print recover"),("error raising","Lexer.Errorf"),("raw declaration fallback","parser.parseDeclarationOrFallback, parseRaw")],
 ["cssc.Compile result and reporter, process exit status"])
prop("C02","Every entry is accounted for and a failing file harms only itself",
 "After compiling a set of entries, the output map has exactly one output, under its absolute path, for each distinct entry that could be read and parsed, and nothing for the others, each of which causes a reported error. Missing, unreadable or unparsable entries, unresolvable imports and failing resolvers never remove or change the output of any other entry.",
 ["inputs","fault_sequences","configurations"],"all sets of entries (including duplicates and different spellings of a path) with faults injected at any subset of files, imports and resolver calls",
 "Tests compile one entry at a time with at most one fault; the accounting over several entries and mixed faults is never exercised.",
 [API,RES],[("source index assignment","compilation.addSource"),("output selection","Compile print loop"),("error reporting","compilation.addError")],
 ["Result.Files keys and contents","errors passed to the Reporter"],
 [dict(name="outputsByIndex",meaning="files that must be in the output",where=API)])
prop("C03","Selectors keep their meaning from input to output",
 "With no transforms enabled, every style rule of a well-formed stylesheet appears in the output with the same selectors: the same compounds in the same order joined by the same combinators, with the same type, class, id, attribute (operator, value, case flag), pseudo-class and pseudo-element parts, arguments and escapes. Only insignificant whitespace, comments, quoting and the spelling of an equal An+B may differ; rules without declarations may be dropped, and selectors the compiler does not support are reported as errors.",
 ["inputs"],"all selector lists over type, universal, class, id, attribute, pseudo-class (functional, nested, nth-*), pseudo-element, namespace and combinator parts, with any formatting and escapes",
 "Printer tests compare a handful of fixed selectors; combinations (attribute operators followed by a descendant, escaped names, negative An+B) are not reached and the integration test over real files never looks at the output.",
 [LEX,SEL,PRI],[("selector parsing","parseSelector, parseAttributeSelector, parseANPlusB"),("selector printing","printer.print selector cases")],
 ["Result.Files content"])
prop("C04","Declarations and values keep their meaning from input to output",
 "With no transforms enabled, every declaration of a well-formed stylesheet appears in the output, in order, with the same property name, the same sequence of value tokens (numbers, units, strings, urls, colours, identifiers, functions and their separators, operators) and the same importance. Declarations the compiler does not understand are carried through verbatim, and never swallow, merge with or alter neighbouring declarations or rules.",
 ["inputs"],"all declaration lists over all value kinds and nestings, with any quoting, escapes and formatting, mixed with unrecognised declarations",
 "Tests print about ten fixed declarations; function arguments, quoting, escapes, separators and the fallback for unknown declarations are combined in ways no test samples.",
 [LEX,PAR,PRI],[("value parsing","parseValue, parseMathExpression, parseDeclaration"),("fallback","parseRaw"),("value printing","printer.print value cases")],
 ["Result.Files content"])
prop("C05","At-rules and rule structure survive compilation",
 "With no transforms enabled, the output has the same rules and at-rules as the input, in the same order and nesting: media queries with the same conditions, keyframes with the same name and selector lists, and other at-rules (font-face, page, supports, charset, vendor-prefixed ones) with the same name, prelude and body. Nothing is dropped, duplicated, merged or moved, except that style rules without declarations may be dropped; constructs the compiler does not support are reported as errors.",
 ["inputs"],"all sequences of style rules, @media, @keyframes (prefixed or not), @import, statement and block at-rules, with any formatting",
 "Tests print single rules; sequences mixing at-rule kinds and preludes are never compared with their input.",
 [PAR,PRI],[("at-rule parsing","parseAtRule and the parse*AtRule functions"),("at-rule printing","printer.print AtRule, MediaQuery*, KeyframeSelectorList")],
 ["Result.Files content"])
prop("C06","Formatting of the source does not change what is compiled",
 "Two stylesheets that differ only in insignificant whitespace, comments between tokens, newline style (LF, CRLF, CR, FF), a byte-order mark, quote style, or an absent last semicolon compile to equivalent outputs and the same errors. This holds for every transform setting.",
 ["inputs","configurations"],"all pairs of formattings of the same token sequence, all transform options",
 "Each test uses one formatting of each snippet; the only CRLF test checks that there is no error.",
 [LEX,PAR,SEL],[("newline normalisation and whitespace skipping","Lexer.step, Lexer.Next"),("whitespace retention in selectors","RetainWhitespace in parseSelector")],
 ["Result.Files content of both formattings"])
prop("C07","Output is deterministic and a fixed point of the compiler",
 "Compiling the same files with the same options always gives byte-identical outputs. Compiling an output again with no transforms is accepted without error and reproduces the same stylesheet text (sums inside math functions excepted).",
 ["inputs","schedules","configurations"],"all well-formed stylesheets and options; repeated runs under any schedule",
 "No test compiles an output or compiles the same input twice.",
 [LEX,PAR,PRI,API],[("deterministic printing","printer.Print")],["Result.Files content across runs"])
prop("C08","Source maps point every rule at its origin",
 "Every output ends with an inline version-3 source map that is valid JSON and embeds the original text. For every rule and at-rule of a stylesheet compiled on its own, decoding the map gives a segment from the position where the construct starts in the output to the position (line, UTF-16 column) where it starts in the source, whatever the sizes of lines, characters or file paths.",
 ["inputs"],"all stylesheets (any line count, line length, newline style, non-ASCII text, unparsed declarations) and file names; content inlined from other files is excluded",
 "Tests check four VLQ values; no test decodes a generated map.",
 [PRI,SM,SRC,LEX],[("mapping emission","printer.addMapping"),("VLQ encoding","VLQEncode"),("line table","Source.Lines, Source.LineAndCol, Lexer.step")],
 ["sourceMappingURL comment at the end of each output"])
prop("C09","Inlining replaces every import by the imported content, in place",
 "With inlining on, the output of an entry is what a browser would see: each resolvable unconditional import is replaced at its position by the full, recursively inlined content of the file it refers to, each import by its own file, in order, nothing lost or duplicated; enabled transforms act as if the inlined text had been written in one file. An import that cannot be resolved, read or parsed, or that closes an import cycle, is reported and left in place, as are all imports of an entry into which tens of megabytes would have to be inlined. An import whose conditions get lost by inlining is warned about.",
 ["inputs","schedules","configurations"],"all import graphs (several imports per file, chains, diamonds, cycles, shared and missing files), all schedules, all transform options",
 "Tests inline one chain with one import per file and only count outputs.",
 [API,TR,RES],[("import discovery","compilation.parseFile"),("replacement","transformer import case")],["Result.Files content","reported errors"],
 [dict(name="replacements",meaning="imported stylesheet per import rule",where=API)])
prop("C10","Follow and passthrough keep imports and compile exactly the right files",
 "With import following, the outputs are exactly the files reachable from the entries through resolvable imports, each compiled as if it were an entry; with passthrough they are exactly the entries. In both modes every import rule appears once in the output of its file, unchanged, and import cycles or self-imports neither hang nor fail.",
 ["inputs","schedules"],"all import graphs and entry sets, all schedules",
 "Tests use one acyclic chain with a single import per file and only count outputs.",
 [API,TR],[("output marking","compilation.parseFile hasOutput"),("import passthrough","transformer import case")],["Result.Files keys and contents"])
prop("C11","Concurrent compilation is race-free and schedule-independent",
 "Whatever the scheduling of the compiler's goroutines and the timing of resolvers and file reads, a compilation of many entries gives the same outputs and the same set of errors as compiling each entry on its own, with no data race and no overlapping calls of the error reporter. Independent compilations running at the same time do not affect each other.",
 ["schedules","inputs"],"all interleavings of parsing, importing, transforming, reporting and printing goroutines for many entries sharing imports",
 "Tests compile one entry with one import per file and do not run under the race detector.",
 [API,TR],[("locks","compilation.mu, sourcesMu, sourcesByIndexMu, astsByIndexMu, Result.mu"),("fan-out","errgroup in Compile and parseFile")],
 ["race detector reports","Reporter call overlap","Result.Files"],
 [dict(name="compilation maps",meaning="shared per-compilation tables",where=API)])
prop("C12","Diagnostics name the right file and position",
 "Every syntax or transform problem found in a stylesheet is reported with the path of the file that contains it and the 1-based line and column (in bytes) of the construct concerned, followed by that source line with the construct underlined. Rendering a diagnostic never fails, wherever it points, including in imported files and at the end of the file.",
 ["inputs","configurations"],"all positions of faults in files of any shape, in entries and imported files, for parse errors and transform errors and warnings",
 "One test checks one lexer error and one parser error on the third and second line of tiny inputs.",
 [LOG,SRC,LEX,TR],[("position lookup","Source.LineAndCol, FullLine"),("rendering","locationError.Error, AnnotateSourceSpan")],["errors passed to the Reporter"])
prop("C13","The default resolver follows the documented lookup order",
 "Specifiers that are . or .. or start with ./, ../ or / resolve against the importing directory only; others first against the base URL when set and then through node_modules of the importing directory and its ancestors, nearest first. A candidate path resolves to itself when it is a file, to path.css when no file is there, and otherwise, when it is a directory, to the style file of its package.json or, without package.json, its index.css; the result is always an existing file, and otherwise an error and no path.",
 ["inputs","configurations"],"all directory layouts, specifiers, importing directories (absolute or relative) and base URLs",
 "Tests look up about twenty fixed specifiers in one fixed tree.",
 [RES],[("lookup","NodeResolver.Resolve, resolve, resolveAsDir, resolveFromNodeModules")],["Resolve return values"])
prop("C14","any-link transformation matches exactly the same elements",
 "With the any-link transform on, no :any-link pseudo-class remains anywhere in the output, including inside media rules, functional pseudo-classes and selectors with several occurrences. Every rule matches exactly the elements it matched before, where :any-link means :link or :visited, and all other selectors and declarations are unchanged; only a selector that would expand to more than 1024 alternatives (counting those inside its arguments) is reported and left.",
 ["inputs"],"all selector lists containing any number of :any-link at any position and nesting",
 "Tests have three selectors with one occurrence each at the top level.",
 [TR,TRO],[("expansion","transformer.transformSelectors")],["Result.Files content"])
prop("C15","Media range transformation keeps what queries match",
 "With the range transform on, every range comparison in a media query, anywhere in the stylesheet, becomes min-/max- features (whose names keep a vendor prefix in front) and no comparison operator remains. For every value of the feature that equals a strict bound or is further than .001 from it (any value, for features that only take integers), the new query is true exactly when the original was; inclusive bounds are kept exactly, strict bounds that are not numbers are reported and left, and nothing else in the query changes. A range that the compiler cannot express (two different comparison operators) is refused with an error rather than given another meaning.",
 ["inputs"],"all media query lists with one- and two-sided ranges in either direction, any numeric bounds (up to 10^9) and units, combined with and/or/not/only and other features",
 "Tests fix about ten ranges and compare strings.",
 [TR,TRO,PAR],[("rewriting","transformer.transformMediaFeatureRange, addToValue")],["Result.Files content"])
prop("C16","Custom media queries are replaced by their definitions",
 "With the custom-media transform on, every use of a defined custom media query in a media rule is replaced so that the query keeps its meaning, wherever the definition stands in the stylesheet or the stylesheets inlined into it, including definitions that use other definitions; the last definition of a name wins and all definitions are removed from the output. Uses of undefined names are left unchanged, uses that cannot be expressed (a media type needed inside parentheses, or or not) and self-referential definitions are reported and left, and neither hangs.",
 ["inputs","configurations"],"all sets of definitions and uses (any order, nesting, redefinition), combined with the range and import transforms",
 "Tests have one definition before two uses.",
 [TR,TRO],[("substitution","transformer custom-media case, transformMediaQueryParts")],["Result.Files content"])
prop("C17","Root custom properties are substituted everywhere they are used",
 "With the custom-property transform on, every var() naming a property defined in a top-level :root rule is replaced, at any depth of functions, math and fallbacks and in any rule, by that property's value, which is its last :root definition in the stylesheet (with inlined imports; one marked !important wins), itself fully substituted; the :root definitions disappear. A var() of an undefined name, or of one that depends on itself or is set to a CSS-wide keyword, becomes its fallback, or is left unchanged and warned about when it has none; properties defined elsewhere are left untouched. Values the compiler does not understand, and substitutions past a size budget, are reported and left.",
 ["inputs","configurations"],"all placements, orders and nestings of definitions and uses, including cycles, combined with other transforms",
 "Tests have single definitions used once at the top level of a declaration, before the use.",
 [TR,TRO],[("collection and substitution","transformer.transformNodes :root handling, transformValues")],["Result.Files content","reported warnings"])
prop("C18","Calc is only replaced by the value it is equal to",
 "With calc reduction on, a calc() whose operations all combine known values of one unit (or numbers) is replaced by the number, percentage or dimension it is equal to, and anything else (also a sum that lacks the whitespace around its operator) is left as it was written. Valid expressions that cannot be reduced (single values, mixed units, var(), other functions) cause no error, invalid ones (mixed numbers and dimensions in a sum, products of two dimensions, division by a dimension or zero, results out of range) are reported and left, and values outside calc() are unchanged.",
 ["inputs"],"all calc() expressions over numbers, units, the four operators, parentheses, nested functions and variables",
 "Tests reduce about ten two-operand expressions.",
 [TR,TRO],[("evaluation","transformer.evaluateMathExpression, doMath")],["Result.Files content","reported errors"])
prop("C19","Disabled transforms change nothing and enabled ones only their feature",
 "With a transform disabled, its constructs pass through unchanged whatever other transforms are on; with it enabled, parts of the stylesheet that do not use its feature compile to exactly what they compile to without it. Transform outputs compose: enabling several gives the result of applying each to its own feature.",
 ["inputs","configurations"],"all stylesheets, all 2^5 transform combinations times the import modes",
 "Tests enable one transform at a time on snippets that only use that feature.",
 [TR,TRO,API],[("feature switches","transformer.Transform and the option checks")],["Result.Files content across option combinations"])
prop("C20","The esbuild plugin returns exactly the compilation result",
 "Loading a stylesheet through the esbuild plugin yields the same text as compiling that file with the same options when no error is reported. In any case esbuild receives one message (error or warning) per reported problem, with the file, 1-based line, 0-based column and line text of the problem when it has a position; problems that leave a usable output (undefined variables without fallback, unsupported values, conditions of inlined imports) are warnings and don't fail the load; transform and resolver options given to the plugin are honoured. Files whose name does not end in .css are left to esbuild.",
 ["inputs","configurations"],"all stylesheets (valid and faulty) loaded through the plugin, all plugin options",
 "The plugin has no tests.",
 [ESB],[("message conversion","csscReporter.toEsbuild"),("load callback","Plugin OnLoad")],["esbuild build result and messages"])
prop("C21","What browsers ignore as invalid never comes into effect by compilation",
 "A rule, selector, media query, keyframe, import or declaration that CSS tells browsers to ignore because its prelude, syntax or position in a block is invalid never comes into effect by being compiled: either an error is reported for the stylesheet or the construct is still invalid in the output, and what surrounds it takes effect as before. With transforms on, ignored constructs have no influence on the rest of the output. Excluded: validity of property names and values, semicolons between rules, and imports that follow other rules.",
 ["inputs","configurations"],"all stylesheets with tokens missing, doubled, swapped or added, under all transforms",
 "Tests only compile valid stylesheets and a handful of errors.",
 [PAR,SEL,PRI] if "SEL" in globals() else [PAR,PRI],[("selectors and An+B","parser.parseSelector, parseANPlusB, parseAttributeSelector"),("media queries","parser.parseMediaQuery"),("declarations","parser.parseDeclarationBlock")],["Result.Files content","reported errors"])
prop("C22","Options that are left out mean their documented defaults",
 "Compiling without a reporter gives the same outputs and prints each error and warning that a reporter would get to standard error, completely and nothing else; with a reporter nothing is printed. Compiling without a resolver resolves imports like a NodeResolver without base URL, wherever the process's working directory is, and transforms that are not set are passthrough. Compiling no entries gives an empty, usable result and no errors.",
 ["inputs","configurations"],"all stylesheets, faults and import graphs, with each combination of options left out",
 "No test leaves out the reporter or captures standard error.",
 [API,LOG,TRO],[("defaults","newCompilation"),("default reporter","logging.DefaultReporter, WriterReporter.AddError")],["standard error of the process","Result.Files"])
prop("C23","A compilation leaves nothing behind and sees files as they are",
 "When Compile returns, all of its work is done: none of its goroutines, calls of resolver or reporter, or open files remain. Compiling changes no file, option, working directory or environment and prints nothing when a reporter is given. Each compilation in a process depends only on its options and the current files: what earlier compilations read, resolved or returned (even if the caller changed their result) has no influence, also when files were edited, replaced, added or removed in between.",
 ["inputs","histories"],"all sequences of compilations and file changes in one process",
 "Every test compiles files that never change, once, and only looks at the result.",
 [API,RES],[("per-compilation state","newCompilation, compilation.addSource"),("joining goroutines","Compile, compilation.followImports, compilation.parseImports")],["process state after Compile","Result.Files of later compilations"])
prop("C24","Compilation cost grows in proportion to the size of the input",
 "The time and memory of compiling are proportional to the size of the stylesheets and of what is substituted or inlined into them: repeating any part (rules, declarations, selectors, values, conditions, definitions, imports, comments, gaps, long tokens, files) sixteen times as often costs about sixteen times as much, not its square, whatever transforms are on and however long the lines are.",
 ["inputs","sizes"],"all stylesheets of any length under all options",
 "Tests compile inputs of a few lines; the benchmark is not checked against a bound.",
 [LEX,PAR,PRI,TR],[("scanning","lexer.Next"),("printing and source maps","printer.Print"),("substitution","transformer.transformNodes")],["CPU time and allocations of Compile"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
