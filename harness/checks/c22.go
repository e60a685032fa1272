package checks

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"

	"verif/harness/drive"
	"verif/harness/fw"
	"verif/harness/gen"

	"github.com/stephen/cssc"
	"github.com/stephen/cssc/resolver"
	"github.com/stephen/cssc/transforms"
)

// captured runs f while what the process writes to a descriptor goes to a file, and returns what was written.
func captured(fd int, f func()) string {
	tmp, err := os.CreateTemp(drive.Scratch, "fd")
	if err != nil {
		panic(err)
	}
	defer os.Remove(tmp.Name())
	defer tmp.Close()
	saved, err := syscall.Dup(fd)
	if err != nil {
		panic(err)
	}
	syscall.CloseOnExec(saved)
	if err := syscall.Dup3(int(tmp.Fd()), fd, 0); err != nil {
		panic(err)
	}
	func() {
		defer func() {
			if err := syscall.Dup3(saved, fd, 0); err != nil {
				panic(err)
			}
			syscall.Close(saved)
		}()
		f()
	}()
	if _, err := tmp.Seek(0, io.SeekStart); err != nil {
		panic(err)
	}
	b, err := io.ReadAll(tmp)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// listReporter collects errors.
type listReporter struct{ errs []error }

func (l *listReporter) AddError(err error) { l.errs = append(l.errs, err) }

// defaultsCase is a set of files with something to report.
func defaultsCase(c *fw.Ctx) (files map[string]string, entries []string) {
	r := c.R
	files = map[string]string{}
	if r.Intn(2) == 0 {
		g := randomGraph(c, 5, .1, graphBody(c, r.Intn(2) == 0))
		files = g.contents()
		for i := range g.files {
			if i == 0 || r.Intn(2) == 0 {
				entries = append(entries, g.files[i].name)
			}
		}
		for k := range g.extra {
			entries = append(entries, k)
		}
	} else {
		o := gen.AllRich()
		o.Max = 4
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			name := fmt.Sprintf("e%d.css", i)
			files[name] = richText(c, fmt.Sprintf("marker%d", i), o)
			switch r.Intn(5) {
			case 0:
				files[name] += brokenSheets[r.Intn(len(brokenSheets))]
			case 1:
				files[name] = "@import \"./nope\";@import 'pkg';" + files[name]
			case 2:
				files[name] += "a{b:var(--undefined-name) calc(1px + 2) calc(1px / 0)}"
			}
			entries = append(entries, name)
		}
		if r.Intn(2) == 0 {
			// What the working directory contains doesn't matter.
			files["e0.css"] = "@import \"" + []string{"pkg", "e1.css", "e1", "only", "only.css", "x", "cwd/only.css"}[r.Intn(7)] + "\";" + files["e0.css"]
		}
		files["node_modules/pkg/package.json"] = `{"style":"s.css"}`
		files["node_modules/pkg/s.css"] = ".pkg{a:b}"
	}
	for _, name := range []string{"pkg.css", "pkg/index.css", "only.css", "x.css", "y/index.css", "e1.css", "node_modules/only.css", "s/q.css"} {
		if files["cwd/"+name] == "" && r.Intn(2) == 0 {
			files["cwd/"+name] = ".cwd{a:b}"
		}
	}
	files["cwd/z"] = ""
	if r.Intn(4) == 0 {
		entries = append(entries, "missing.css")
	}
	sort.Strings(entries)
	return files, entries
}

func init() {
	fw.Register(&fw.Check{
		ID: "C22", Level: "exploration", Quick: 96000, Thorough: 2400000,
		Rule:        "each case compiles 0-9 entries with faults, imports and random transforms twice: with an explicit reporter, NodeResolver and spelled-out passthrough options, and with those left out; the standard error of the process is captured; non-trivial if something was reported; distinct by content",
		Assumptions: []string{"what is reported (C02, C12) and resolved (C13) is decided elsewhere"},
		Run: func(c *fw.Ctx) {
			r := c.R
			files, entries := defaultsCase(c)
			opts := randomOpts(r)
			if r.Intn(3) == 0 {
				opts = ""
			}
			switch r.Intn(12) {
			case 0:
				entries = nil
			case 1:
				entries = []string{}
			}
			dir := drive.TempDir()
			defer removeAll(dir)
			drive.Write(dir, files)
			must := func(err error) {
				if err != nil {
					panic(err)
				}
			}
			old, err := os.Getwd()
			must(err)
			must(os.Chdir(filepath.Join(dir, "cwd")))
			defer func() { must(os.Chdir(old)) }()
			input := drive.Describe(files, entries, opts)
			var paths []string
			for _, e := range entries {
				paths = append(paths, filepath.Join(dir, e))
			}
			if entries == nil {
				paths = nil
			}
			t := drive.ParseT(opts)
			explicit := t
			if opts == "" {
				explicit = transforms.Options{
					ImportRules:        transforms.ImportRulesPassthrough,
					MediaFeatureRanges: transforms.MediaFeatureRangesPassthrough,
					AnyLink:            transforms.AnyLinkPassthrough,
					CustomProperties:   transforms.CustomPropertiesPassthrough,
					CustomMediaQueries: transforms.CustomMediaQueriesPassthrough,
					CalcReduction:      transforms.CalcReductionPassthrough,
				}
			}
			rep := &listReporter{}
			var res *cssc.Result
			said := captured(2, func() {
				res = cssc.Compile(cssc.Options{Entry: paths, Reporter: rep, Resolver: &resolver.NodeResolver{}, Transforms: explicit})
			})
			if said != "" {
				c.Violate(input, "with a reporter, something is written to stderr: %s", clip(said, 2000))
			}
			if res == nil || res.Files == nil {
				c.Violate(input, "no result")
				return
			}
			want := res.Files
			for variant := 0; variant < 3; variant++ {
				o := cssc.Options{Entry: paths, Reporter: rep, Resolver: &resolver.NodeResolver{}, Transforms: t}
				what := ""
				before := len(rep.errs)
				if variant != 1 {
					o.Reporter = nil
					what += " without reporter"
				}
				if variant != 0 {
					o.Resolver = nil
					what += " without resolver"
				}
				said := captured(2, func() { res = cssc.Compile(o) })
				if res == nil || res.Files == nil {
					c.Violate(input, "no result%s", what)
					return
				}
				if d := diffMaps(want, res.Files); d != "" {
					c.Violate(input, "outputs%s differ: %s", what, clip(d, 4000))
				}
				var got []string
				plain := stackOff(said)
				if o.Reporter == nil {
					got = lines(plain)
				} else {
					for _, e := range rep.errs[before:] {
						got = append(got, lines(stackOff(e.Error()+"\n"))...)
					}
					if said != "" {
						c.Violate(input, "with a reporter, something is written to stderr: %s", clip(said, 2000))
					}
				}
				var expect []string
				for _, e := range rep.errs[:before] {
					text := stackOff(e.Error() + "\n")
					expect = append(expect, lines(text)...)
					if o.Reporter == nil && !strings.Contains(plain, text) {
						c.Violate(input, "%s, stderr does not have %q: %s", what, text, clip(said, 4000))
						return
					}
				}
				if variant == 1 {
					rep.errs = rep.errs[:before]
				}
				if d := sameMultiset(expect, got); d != "" {
					c.Violate(input, "what is reported%s differs: %s", what, d)
				}
				c.Count("compilations"+what, 1)
				c.Count("errors on stderr", len(expect))
			}
			if len(paths) == 0 && (len(want) > 0 || len(rep.errs) > 0) {
				c.Violate(input, "something came out of compiling nothing: %v %v", want, rep.errs)
			}
			if len(rep.errs) > 0 {
				c.Nontrivial(input)
			}
			c.State(fmt.Sprint(len(entries), " ", len(rep.errs), " ", len(want), opts))
			c.Sample(input)
		},
	})
}

func lines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

var frameRE = regexp.MustCompile(`^\S+\.[^\s:]+(: .*)?$`)
var sourceRE = regexp.MustCompile(`^\t/.*\.go:\d+$`)

// stackOff removes the stack traces from text with errors, but keeps what they say.
func stackOff(s string) string {
	if !strings.Contains(s, "\n\t/") {
		return s
	}
	in := strings.Split(s, "\n")
	out := make([]string, 0, len(in))
	for i := 0; i < len(in); i++ {
		if i+2 < len(in) && strings.HasPrefix(in[i+1], "\t/") && sourceRE.MatchString(in[i+1]) {
			if m := frameRE.FindStringSubmatch(in[i]); m != nil {
				out = append(out, m[1])
				i++
				continue
			}
		}
		out = append(out, in[i])
	}
	return strings.Join(out, "\n")
}
