package checks

import (
	"crypto/sha256"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"verif/harness/drive"
	"verif/harness/fw"

	"github.com/stephen/cssc"
	"github.com/stephen/cssc/resolver"
)

// snapshot describes everything below a directory.
func snapshot(dir string) string {
	var b strings.Builder
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		info, err := d.Info()
		if err != nil {
			return err
		}
		fmt.Fprintf(&b, "%s %v %d %d", p, info.Mode(), info.Size(), info.ModTime().UnixNano())
		switch {
		case info.Mode()&fs.ModeSymlink != 0:
			to, _ := os.Readlink(p)
			fmt.Fprintf(&b, " -> %s", to)
		case info.Mode().IsRegular():
			content, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			fmt.Fprintf(&b, " %x", sha256.Sum256(content))
		}
		b.WriteByte('\n')
		return nil
	})
	if err != nil {
		panic(err)
	}
	return b.String()
}

// descriptors lists the open files of the process.
func descriptors() (out []string) {
	ds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, d := range ds {
		to, err := os.Readlink("/proc/self/fd/" + d.Name())
		if err != nil || strings.HasPrefix(to, "/proc/") || strings.HasPrefix(to, "/sys/") || strings.HasPrefix(to, "anon_inode:") {
			continue
		}
		out = append(out, d.Name()+" "+to)
	}
	return out
}

// leftover returns the stacks of goroutines that belong to a compilation.
func leftover() string {
	var found []string
	for wait := time.Microsecond; ; wait *= 2 {
		found = found[:0]
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		for i, s := range strings.Split(string(buf), "\n\n") {
			if i > 0 && (strings.Contains(s, "github.com/stephen/cssc") || strings.Contains(s, "sync/errgroup")) {
				found = append(found, s)
			}
		}
		// A goroutine may take a while to go away after it has said that it's done.
		if len(found) == 0 || wait > 2*time.Second {
			return strings.Join(found, "\n\n")
		}
		time.Sleep(wait)
	}
}

// lateWatch notices calls after the end of a compilation.
type lateWatch struct {
	done     atomic.Bool
	late     atomic.Int64
	calls    atomic.Int64
	delay    time.Duration
	resolver cssc.Resolver
	errs     drive.Reporter
}

func (l *lateWatch) AddError(err error) {
	l.note()
	l.errs.AddError(err)
	l.note()
}

func (l *lateWatch) note() {
	l.calls.Add(1)
	if l.done.Load() {
		l.late.Add(1)
	}
}

func (l *lateWatch) Resolve(spec, from string) (string, error) {
	l.note()
	if l.delay > 0 {
		time.Sleep(l.delay)
	}
	defer l.note()
	return l.resolver.Resolve(spec, from)
}

// changeFiles changes files on disk between two compilations, and returns the new contents.
func changeFiles(c *fw.Ctx, dir string, files map[string]string) map[string]string {
	r := c.R
	out := map[string]string{}
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		out[n] = files[n]
		p := filepath.Join(dir, n)
		switch r.Intn(4) {
		case 0:
			// The same size and time.
			info, err := os.Stat(p)
			if err != nil {
				panic(err)
			}
			changed := strings.NewReplacer("marker", "MARKER", "red", "tan", "a", "b", "1", "2").Replace(files[n])
			if strings.Contains(files[n], "@") {
				changed = strings.NewReplacer("marker", "MARKER", "red", "tan").Replace(files[n])
			}
			out[n] = changed
			if err := os.WriteFile(p, []byte(changed), 0o644); err != nil {
				panic(err)
			}
			if err := os.Chtimes(p, info.ModTime(), info.ModTime()); err != nil {
				panic(err)
			}
			c.Count("files_changed_in_place", 1)
		case 1:
			out[n] = files[n] + ".appended{x:y}"
			if err := os.Remove(p); err != nil {
				panic(err)
			}
			drive.Write(dir, map[string]string{n: out[n]})
			c.Count("files_replaced", 1)
		case 2:
			if r.Intn(3) == 0 {
				if err := os.Remove(p); err != nil {
					panic(err)
				}
				delete(out, n)
				c.Count("files_removed", 1)
			}
		}
	}
	if r.Intn(3) == 0 {
		// Something else may be found now.
		n := []string{"nope.css", "nope/index.css", "node_modules/pkg/package.json", "node_modules/pkg.css", "x.css", "d/x.css"}[r.Intn(6)]
		if _, ok := out[n]; !ok {
			content := ".new{a:b}"
			if strings.HasSuffix(n, ".json") {
				content = `{"style":"none.css"}`
			}
			if _, err := os.Lstat(filepath.Join(dir, n)); err != nil {
				if info, err := os.Stat(filepath.Join(dir, filepath.Dir(n))); err != nil || info.IsDir() {
					if os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0o755) == nil && os.WriteFile(filepath.Join(dir, n), []byte(content), 0o644) == nil {
						out[n] = content
						c.Count("files_added", 1)
					}
				}
			}
		}
	}
	return out
}

// plainOutputs removes what depends on the directory.
func plainOutputs(dir string, files map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range files {
		m, err := drive.Map(v)
		if err != nil {
			m = err.Error()
		}
		out[strings.ReplaceAll(k, dir, "$DIR")] = drive.StripMap(v) + "\n" + strings.ReplaceAll(m, dir, "$DIR")
	}
	return out
}

func init() {
	fw.Register(&fw.Check{
		ID: "C23", Level: "exploration", Quick: 56000, Thorough: 1400000,
		Rule:        "each case compiles 0-9 entries with faults, imports and random transforms, with a resolver that may be slow, and watches files, open descriptors, goroutines, standard output and error, working directory, environment and late callbacks; then it changes the result, the reporter and the files (contents of the same size and time, replaced, removed, added) and compiles again, compared with a compilation of the new files elsewhere; non-trivial if files were changed; distinct by content",
		Assumptions: []string{"what a compilation gives in a directory that was never compiled before is the reference"},
		Run: func(c *fw.Ctx) {
			r := c.R
			files, entries := defaultsCase(c)
			opts := randomOpts(r)
			dir := drive.TempDir()
			defer removeAll(dir)
			drive.Write(dir, files)
			input := drive.Describe(files, entries, opts)
			var paths []string
			for _, e := range entries {
				paths = append(paths, filepath.Join(dir, e))
			}
			given := append([]string{}, paths...)
			shared := &resolver.NodeResolver{}
			if r.Intn(4) == 0 {
				shared.BaseURL = dir
			}
			watch := func() *lateWatch {
				l := &lateWatch{resolver: shared}
				if r.Intn(4) == 0 {
					l.delay = time.Duration(r.Intn(1500)) * time.Microsecond
				}
				return l
			}
			cwd, _ := os.Getwd()
			env := strings.Join(os.Environ(), "\n")
			before, open := snapshot(dir), descriptors()

			first := watch()
			options := cssc.Options{Entry: paths, Reporter: first, Resolver: first, Transforms: drive.ParseT(opts)}
			var res *cssc.Result
			var stderr string
			stdout := captured(1, func() {
				stderr = captured(2, func() {
					res = cssc.Compile(options)
					first.done.Store(true)
				})
			})
			firstFiles := map[string]string{}
			for k, v := range res.Files {
				firstFiles[k] = v
			}
			if s := leftover(); s != "" {
				c.Violate(input, "goroutines are left after the compilation: %s", clip(s, 3000))
			}
			if n := first.late.Load(); n > 0 {
				c.Violate(input, "%d calls of resolver or reporter after the compilation ended", n)
			}
			if stdout != "" || stderr != "" {
				c.Violate(input, "a compilation with a reporter prints %q to stdout, %q to stderr", clip(stdout, 1000), clip(stderr, 1000))
			}
			if after := snapshot(dir); after != before {
				c.Violate(input, "files changed: %s", firstDiff(before, after))
			}
			if d := sameMultiset(open, descriptors()); d != "" {
				// Descriptors of other parts of the harness do not come and go.
				c.Violate(input, "open files changed: %s", d)
			}
			if now, _ := os.Getwd(); now != cwd {
				c.Violate(input, "the working directory changed from %s to %s", cwd, now)
			}
			if strings.Join(os.Environ(), "\n") != env {
				c.Violate(input, "the environment changed")
			}
			if strings.Join(given, "\n") != strings.Join(paths, "\n") {
				c.Violate(input, "the caller's entries changed: %q, %q", given, paths)
			}
			if options.Transforms != drive.ParseT(opts) {
				c.Violate(input, "the caller's options changed")
			}

			// A second compilation is not influenced by what happened to the result of the first.
			for k := range res.Files {
				res.Files[k] = "overwritten"
			}
			res.Files["more"] = "more"
			for i := range paths {
				paths[i] = "/overwritten"
			}
			compile := func(dir string, res cssc.Resolver) (map[string]string, []string) {
				l := &lateWatch{resolver: res}
				var paths []string
				for _, e := range entries {
					paths = append(paths, filepath.Join(dir, e))
				}
				out := cssc.Compile(cssc.Options{Entry: paths, Reporter: l, Resolver: l, Transforms: drive.ParseT(opts)}).Files
				l.done.Store(true)
				var errs []string
				for _, e := range l.errs.Errs() {
					errs = append(errs, strings.ReplaceAll(trimStack(e.Error()), dir, "$DIR"))
				}
				return out, errs
			}
			again, errs := compile(dir, shared)
			if d := diffMaps(firstFiles, again); d != "" {
				c.Violate(input, "the second compilation of the same files differs: %s", clip(d, 4000))
			}
			var firstErrs []string
			for _, e := range first.errs.Errs() {
				firstErrs = append(firstErrs, strings.ReplaceAll(trimStack(e.Error()), dir, "$DIR"))
			}
			if d := sameMultiset(firstErrs, errs); d != "" {
				c.Violate(input, "the second compilation of the same files reports something else: %s", d)
			}
			c.Count("compilations", 2)
			c.Count("callbacks", int(first.calls.Load()))
			c.State(fmt.Sprint(len(entries), opts, len(firstErrs), len(firstFiles)))

			changed := changeFiles(c, dir, files)
			parents := map[string]bool{} // directories stay when the files in them are removed
			for _, m := range []map[string]string{files, changed} {
				for n := range m {
					parents[filepath.Dir(n)] = true
				}
			}
			for round := 0; round < 2; round++ {
				// The second time, what was there first is there again.
				if round == 1 {
					if r.Intn(2) == 0 {
						break
					}
					for n := range changed {
						if _, ok := files[n]; !ok {
							os.Remove(filepath.Join(dir, n))
						}
					}
					changed = files
					drive.Write(dir, files)
				}
				got, gotErrs := compile(dir, shared)
				fresh := drive.TempDir()
				defer removeAll(fresh)
				drive.Write(fresh, changed)
				for p := range parents {
					if err := os.MkdirAll(filepath.Join(fresh, p), 0o755); err != nil {
						panic(err)
					}
				}
				other := &resolver.NodeResolver{}
				if shared.BaseURL != "" {
					other.BaseURL = fresh
				}
				want, wantErrs := compile(fresh, other)
				input := input + "changed to\n" + drive.Describe(changed, entries, opts)
				if d := diffMaps(plainOutputs(fresh, want), plainOutputs(dir, got)); d != "" {
					c.Violate(input, "after files changed, the outputs are not those of the new files: %s", clip(d, 4000))
				}
				if d := sameMultiset(wantErrs, gotErrs); d != "" {
					c.Violate(input, "after files changed, the errors are not those of the new files: %s", d)
				}
				c.Count("compilations_of_changed_files", 1)
			}
			c.Nontrivial(input)
			c.Sample(input)
		},
	})
}
