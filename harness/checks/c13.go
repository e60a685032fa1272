package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/stephen/cssc/resolver"

	"verif/harness/drive"
	"verif/harness/fw"
)

// tree is a directory tree that the oracle knows without looking at the file system.
type tree struct {
	files map[string]string // path -> content
	dirs  map[string]bool
	links map[string]string // path -> target (a path in the tree)
}

func newTree() *tree {
	return &tree{files: map[string]string{}, dirs: map[string]bool{".": true}, links: map[string]string{}}
}

// kind is 'f', 'd', or 0 if there's nothing (or a dangling link). broken is set if a part of the path is no directory.
func (t *tree) kind(p string) (k byte, broken bool) {
	parts := strings.Split(filepath.Clean(p), "/")
	cur := "."
	for i, x := range parts {
		if x == "." {
			continue
		}
		cur = filepath.Join(cur, x)
		for hops := 0; t.links[cur] != ""; hops++ {
			if cur = t.links[cur]; hops > 20 {
				panic("link loop in the generator")
			}
		}
		switch _, isFile := t.files[cur]; {
		case isFile:
			if i < len(parts)-1 {
				return 0, true
			}
			return 'f', false
		case !t.dirs[cur]:
			return 0, false
		}
	}
	return 'd', false
}

// real follows links.
func (t *tree) content(p string) string {
	parts := strings.Split(filepath.Clean(p), "/")
	cur := "."
	for _, x := range parts {
		cur = filepath.Join(cur, x)
		for t.links[cur] != "" {
			cur = t.links[cur]
		}
	}
	return t.files[cur]
}

// candidate is what a path resolves to, and by which rule ("" if it doesn't).
func (t *tree) candidate(p string) (string, string) {
	k, broken := t.kind(p)
	if broken {
		return "", "no-dir"
	}
	ext, _ := t.kind(p + ".css")
	switch {
	case k == 'f':
		return p, "file"
	case ext == 'f':
		if k == 'd' {
			return p + ".css", "ext-before-dir"
		}
		return p + ".css", "ext"
	case k != 'd':
		return "", "nothing"
	}
	pj := p + "/package.json"
	if k, _ := t.kind(pj); k == 'f' {
		style, ok := styles[t.content(pj)]
		if !ok {
			panic("unknown package.json")
		}
		if style == "" {
			return "", "no-style"
		}
		target := filepath.Join(p, style)
		if k, broken := t.kind(target); k != 'f' || broken {
			return "", "style-missing"
		}
		return target, "style"
	}
	if k, _ := t.kind(p + "/index.css"); k == 'f' {
		return p + "/index.css", "index"
	}
	return "", "empty-dir"
}

// resolve is the documented lookup.
func (t *tree) resolve(spec, from, base string) (string, string) {
	if spec == "." || spec == ".." || strings.HasPrefix(spec, "./") || strings.HasPrefix(spec, "../") || strings.HasPrefix(spec, "/") {
		p, why := t.candidate(filepath.Join(from, spec))
		return p, "relative " + why
	}
	if base != "" {
		if p, why := t.candidate(filepath.Join(base, spec)); p != "" {
			return p, "base " + why
		}
	}
	for level := 0; ; level++ {
		if p, why := t.candidate(filepath.Join(from, "node_modules", spec)); p != "" {
			return p, fmt.Sprintf("modules%d %s", level, why)
		}
		if from == "." {
			return "", "nowhere"
		}
		from = filepath.Dir(from)
	}
}

// styles has the package.json files and their style ("" if they have none).
var styles = map[string]string{
	`{"style":"index.css"}`:                      "index.css",
	`{"name":"x","style":"x.css","main":"y.js"}`: "x.css",
	`{"style":"./x.css"}`:                        "./x.css",
	`{"style":"a/b.css"}`:                        "a/b.css",
	`{"style":"a/../x.css"}`:                     "a/../x.css",
	`{"style":"x"}`:                              "x",
	`{"style":"../x.css"}`:                       "../x.css",
	`{"style":"a"}`:                              "a",
	`{"style":"missing.css"}`:                    "missing.css",
	`{"style":"/x.css"}`:                         "/x.css",
	"{\n  \"main\": \"index.js\",\n  \"style\": \"\\u0078.css\"}": "x.css",
	`{"style":""}`:              "",
	`{"main":"x.css"}`:          "",
	`{}`:                        "",
	`null`:                      "",
	`{"style":7}`:               "",
	`{"style":{"css":"x.css"}}`: "",
	`{"style":"x.css"`:          "",
	``:                          "",
	`[]`:                        "",
	`{"main":"main.css","css":"x.css","sass":"a.css","less":"b.css","styles":"x.css"}`: "",
	`{"exports":{".":{"style":"./x.css"},"./a":"./a.css"}}`:                            "",
	`{"exports":"./x.css","module":"x.css","browser":"x.css","unpkg":"x.css"}`:         "",
	`{"style":null,"main":"x.css"}`:                                                    "",
	`{"style":["x.css"]}`:                                                              "",
	`{"style":true}`:                                                                   "",
	`"x.css"`:                                                                          "",
	`{"style":"x.css",}`:                                                               "",
	"// style\n{\"style\":\"x.css\"}":                                                  "",
	`{"style":"a.css","style":"x.css"}`:                                                "x.css",
	`{"exports":{".":"./a.css"},"style":"x.css"}`:                                      "x.css",
	`{"style":"style"}`:                                                                "style",
	`{"style":"./"}`:                                                                   "./",
	`{"style":"x.min.css","main":"x.css"}`:                                             "x.min.css",
}

var stylesKeys = func() []string {
	var k []string
	for s := range styles {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}()

func init() {
	fw.Register(&fw.Check{
		ID: "C13", Level: "exploration", Quick: 72000, Thorough: 1800000,
		Rule:        "each case makes a random directory tree (colliding names with and without .css, directories named like files, package.json variants, index.css, nested node_modules, symbolic links) and resolves about 40 specifiers from random directories (absolute and relative) with and without base URL, twice and concurrently (sometimes again while no files can be opened), against a reference lookup on the model of the tree; non-trivial if at least five specifiers resolve and three do not; distinct by tree and queries",
		Assumptions: []string{"file system without permission problems (the checks run as root)", "no node_modules above the scratch directory"},
		Run: func(c *fw.Ctx) {
			r := c.R
			t := newTree()
			pick := func(s ...string) string { return s[r.Intn(len(s))] }
			names := []string{"x", "x.css", "index.css", "a", "a.css", "b.css", "b", "y.scss", "x.css.css", "package.json", "q r", "é", "c.css",
				// Names that other tools look for.
				"style.css", "styles.css", "main.css", "x.scss", "index.js", "index", "style", "x.min.css"}
			dirNames := []string{"a", "x", "pkg", "@s", "b.css", "d", "x.css", "q r", "pkg.css", "index.css", "package.json", "a.css"}
			var paths []string // everything
			dirs := []string{"."}
			add := func(p string) bool {
				if _, ok := t.files[p]; ok || t.dirs[p] || t.links[p] != "" {
					return false
				}
				paths = append(paths, p)
				return true
			}
			addDir := func(p string) {
				if add(p) {
					t.dirs[p] = true
					dirs = append(dirs, p)
				}
			}
			for i, n := 0, 2+r.Intn(14); i < n; i++ {
				d := dirs[r.Intn(len(dirs))]
				if strings.Count(d, "/") > 5 {
					continue
				}
				if r.Intn(3) == 0 && (filepath.Base(d) != "node_modules" || r.Intn(3) == 0) {
					addDir(filepath.Join(d, "node_modules"))
				} else {
					addDir(filepath.Join(d, pick(dirNames...)))
				}
			}
			for i, n := 0, 4+r.Intn(30); i < n; i++ {
				p := filepath.Join(dirs[r.Intn(len(dirs))], pick(names...))
				if !add(p) {
					continue
				}
				t.files[p] = "a{b:c}"
				if filepath.Base(p) == "package.json" {
					t.files[p] = pick(stylesKeys...)
				}
			}
			// Links point to files, directories that don't contain them, or nowhere.
			for i, n := 0, r.Intn(4); i < n; i++ {
				p := filepath.Join(dirs[r.Intn(len(dirs))], pick("x", "x.css", "l", "l.css", "index.css", "pkg", "a"))
				target := "nowhere"
				if len(paths) > 0 && r.Intn(4) > 0 {
					target = paths[r.Intn(len(paths))]
				}
				if t.links[target] != "" || strings.HasPrefix(p+"/", target+"/") || filepath.Base(target) == "package.json" {
					continue
				}
				if add(p) {
					t.links[p] = target
				}
			}
			dir := drive.TempDir()
			defer os.RemoveAll(dir)
			must := func(err error) {
				if err != nil {
					panic(err)
				}
			}
			for _, d := range dirs {
				must(os.MkdirAll(filepath.Join(dir, d), 0o755))
			}
			for p, s := range t.files {
				must(os.WriteFile(filepath.Join(dir, p), []byte(s), 0o644))
			}
			for p, s := range t.links {
				must(os.Symlink(filepath.Join(dir, s), filepath.Join(dir, p)))
			}
			old, err := os.Getwd()
			must(err)
			must(os.Chdir(dir))
			defer os.Chdir(old)

			type query struct{ spec, from, base string }
			var qs []query
			for i := 0; i < 40; i++ {
				q := query{from: dirs[r.Intn(len(dirs))]}
				if r.Intn(2) == 0 {
					q.base = dirs[r.Intn(len(dirs))]
				}
				name := func() string {
					if len(paths) > 0 && r.Intn(3) > 0 {
						// Something that is there, seen from a random directory.
						p := paths[r.Intn(len(paths))]
						if r.Intn(2) == 0 {
							p = strings.TrimSuffix(p, ".css")
						}
						if r.Intn(2) == 0 {
							q.from = filepath.Dir(p)
							for q.from != "." && r.Intn(3) == 0 {
								q.from = filepath.Dir(q.from)
							}
							if !t.dirs[q.from] {
								q.from = "."
							}
						}
						if i := strings.LastIndex(p, "node_modules/"); i >= 0 && r.Intn(2) == 0 {
							// As a module, from somewhere below.
							rest := p[i+len("node_modules/"):]
							at := filepath.Clean(p[:i])
							var below []string
							for _, d := range dirs {
								if at == "." || d == at || strings.HasPrefix(d, at+"/") {
									below = append(below, d)
								}
							}
							if len(below) > 0 {
								q.from = below[r.Intn(len(below))]
							}
							return rest
						}
						if q.base != "" && r.Intn(3) == 0 {
							if rel, err := filepath.Rel(q.base, p); err == nil && !strings.HasPrefix(rel, ".") {
								return rel
							}
						}
						rel, err := filepath.Rel(q.from, p)
						must(err)
						if !strings.HasPrefix(rel, ".") {
							return pick("./", "./", "/", "", "./a/../", ".//") + rel
						}
						return rel
					}
					return pick("./", "../", "/", "", "./d/", "../../", "") + pick("x", "x.css", "a", "pkg", "pkg/x", "@s/x", "nope", "b.css", "index.css", "a/b", ".x", "..x", "x/", "pkg/../x", "a/", "x.css/y", "pkg/package.json")
				}
				q.spec = name()
				if r.Intn(30) == 0 {
					q.spec = pick(".", "..", "./", "../", "/", "./.", "./..")
				}
				if q.spec == "" {
					continue
				}
				qs = append(qs, q)
			}
			var desc strings.Builder
			sort.Strings(paths)
			for _, p := range paths {
				switch {
				case t.dirs[p]:
					fmt.Fprintf(&desc, "%s/\n", p)
				case t.links[p] != "":
					fmt.Fprintf(&desc, "%s -> %s\n", p, t.links[p])
				case filepath.Base(p) == "package.json":
					fmt.Fprintf(&desc, "%s %s\n", p, t.files[p])
				default:
					fmt.Fprintln(&desc, p)
				}
			}
			found, lost := 0, 0
			for round := 0; round < 2; round++ {
				var wg sync.WaitGroup
				var mu sync.Mutex
				one := func(q query, absFrom, absBase bool) {
					want, why := t.resolve(q.spec, q.from, q.base)
					from, base := q.from, q.base
					if absFrom {
						from = filepath.Join(dir, from)
					}
					if absBase && base != "" {
						base = filepath.Join(dir, base)
					}
					got, err := (&resolver.NodeResolver{BaseURL: base}).Resolve(q.spec, from)
					outside := false
					if rel, e := filepath.Rel(dir, filepath.Join(dir, q.from, q.spec)); e == nil && strings.HasPrefix(rel, "..") {
						outside = true
					}
					if outside {
						return // leaves the tree
					}
					mu.Lock()
					defer mu.Unlock()
					c.State(why)
					in := fmt.Sprintf("%sspec %q from %q (absolute: %v) base URL %q (absolute: %v)", desc.String(), q.spec, q.from, absFrom, q.base, absBase)
					switch {
					case (err == nil) != (got != ""):
						c.Violate(in, "both or neither of a path and an error: %q, %v", got, err)
					case want == "" && got != "":
						c.Violate(in, "resolved to %q, but must not be found (%s)", got, why)
					case want != "" && got == "":
						c.Violate(in, "must resolve to %q (%s), but: %v", want, why, err)
					case want != "":
						abs, e := filepath.Abs(got)
						if e != nil || abs != filepath.Join(dir, want) {
							c.Violate(in, "must resolve to %q (%s), but got %q", want, why, got)
						}
						if st, e := os.Stat(abs); e != nil || st.IsDir() {
							c.Violate(in, "%q is no file", got)
						}
					}
					if round == 0 {
						if want != "" {
							found++
						} else {
							lost++
						}
					}
				}
				for _, q := range qs {
					af, ab := r.Intn(2) == 0, r.Intn(2) == 0
					if round == 0 {
						one(q, af, ab)
						continue
					}
					wg.Add(1)
					go func() { defer wg.Done(); one(q, af, ab) }()
				}
				wg.Wait()
			}
			if r.Intn(4) == 0 {
				// Nothing can be opened: files that cannot be read aren't missing.
				type answer struct {
					q    query
					got  string
					err  error
					want string
				}
				var answers []answer
				drive.WithOpenFiles(0, func() {
					for _, q := range qs {
						want, why := t.resolve(q.spec, q.from, q.base)
						if strings.HasPrefix(why, "relative") {
							got, err := (&resolver.NodeResolver{BaseURL: q.base}).Resolve(q.spec, filepath.Join(dir, q.from))
							answers = append(answers, answer{q, got, err, want})
						}
					}
				})
				for _, a := range answers {
					in := fmt.Sprintf("%sspec %q from %q, while no files can be opened", desc.String(), a.q.spec, a.q.from)
					if rel, e := filepath.Rel(dir, filepath.Join(dir, a.q.from, a.q.spec)); e == nil && strings.HasPrefix(rel, "..") {
						continue
					}
					if (a.err == nil) != (a.got != "") {
						c.Violate(in, "both or neither of a path and an error: %q, %v", a.got, a.err)
					} else if a.got != "" && (a.want == "" || a.got != filepath.Join(dir, a.want)) {
						c.Violate(in, "resolved to %q instead of %q or an error", a.got, a.want)
					}
					if a.want != "" && a.got == "" {
						c.Count("not_resolved_without_files", 1)
					}
				}
			}
			c.Count("resolved", found)
			c.Count("unresolved", lost)
			if found >= 5 && lost >= 3 {
				c.Nontrivial(desc.String() + fmt.Sprint(qs))
				c.Sample(desc.String() + fmt.Sprint(qs))
			}
		},
	})
}
