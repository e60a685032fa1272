// Package drive runs cssc through its public API on files in a scratch directory and records
// everything that is observable.
package drive

import (
	"encoding/base64"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/stephen/cssc"
	"github.com/stephen/cssc/transforms"
)

// T abbreviates the transform options.
type T = transforms.Options

// ParseT makes transform options from letters: i inline, f follow, r ranges, a any-link, p custom properties,
// m custom media, c calc.
func ParseT(letters string) T {
	var t T
	for _, c := range letters {
		switch c {
		case 'i':
			t.ImportRules = transforms.ImportRulesInline
		case 'f':
			t.ImportRules = transforms.ImportRulesFollow
		case 'r':
			t.MediaFeatureRanges = transforms.MediaFeatureRangesTransform
		case 'a':
			t.AnyLink = transforms.AnyLinkTransform
		case 'p':
			t.CustomProperties = transforms.CustomPropertiesTransformRoot
		case 'm':
			t.CustomMediaQueries = transforms.CustomMediaQueriesTransform
		case 'c':
			t.CalcReduction = transforms.CalcReductionReduce
		}
	}
	return t
}

// Job is a compilation.
type Job struct {
	Files   map[string]string // relative path -> content
	Entries []string          // relative, unless absolute
	Opts    string            // see ParseT
	// Setup may do more to the directory (symlinks, permissions).
	Setup func(dir string)
	// Resolver, if any.
	Resolver cssc.Resolver
	// OnError is called by the reporter, under overlap monitoring.
	OnError func()
	// Bare uses a reporter without any synchronization, so that the race detector sees that of cssc only.
	Bare bool
	// KeepErrs keeps the error values without rendering them.
	KeepErrs bool
}

// Out is what a compilation did.
type Out struct {
	Dir      string
	Files    map[string]string // relative path -> css, without the source map comment
	Raw      map[string]string // relative path -> full output
	Errs     []string          // rendered, with the directory removed, sorted by nothing (arrival order)
	Values   []error
	Overlaps int64
	// Truncated is whether or not there are so many errors that some aren't rendered.
	Truncated bool
}

// Reporter collects errors and notices overlapping calls.
type Reporter struct {
	in       int64
	overlaps int64
	mu       sync.Mutex
	errs     []error
	hook     func()
}

// AddError implements cssc.Reporter.
func (r *Reporter) AddError(err error) {
	if atomic.AddInt64(&r.in, 1) != 1 {
		atomic.AddInt64(&r.overlaps, 1)
	}
	r.mu.Lock()
	r.errs = append(r.errs, err)
	r.mu.Unlock()
	if r.hook != nil {
		r.hook()
	}
	atomic.AddInt64(&r.in, -1)
}

// bareReporter relies on cssc for synchronization.
type bareReporter Reporter

func (r *bareReporter) AddError(err error) {
	r.errs = append(r.errs, err)
}

// Write writes files below dir.
func Write(dir string, files map[string]string) {
	for name, content := range files {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
			panic(err)
		}
	}
}

// Scratch is where directories are made.
var Scratch = os.TempDir()

// TempDir makes a fresh directory.
func TempDir() string {
	dir, err := os.MkdirTemp(Scratch, "c")
	if err != nil {
		panic(err)
	}
	if dir, err = filepath.EvalSymlinks(dir); err != nil {
		panic(err)
	}
	return dir
}

// Compile runs a job in a fresh directory.
func Compile(j Job) *Out {
	dir := TempDir()
	defer os.RemoveAll(dir)
	Write(dir, j.Files)
	if j.Setup != nil {
		j.Setup(dir)
	}
	return CompileIn(dir, j)
}

// CompileIn runs a job in a directory that is already there.
func CompileIn(dir string, j Job) *Out {
	entries := make([]string, 0, len(j.Entries))
	for _, e := range j.Entries {
		if strings.HasPrefix(e, "cwd:") {
			entries = append(entries, e[4:])
			continue
		}
		if !filepath.IsAbs(e) {
			e = dir + string(filepath.Separator) + e
		}
		entries = append(entries, e)
	}
	rep := &Reporter{hook: j.OnError}
	var used cssc.Reporter = rep
	if j.Bare {
		used = (*bareReporter)(rep)
	}
	res := cssc.Compile(cssc.Options{Entry: entries, Reporter: used, Transforms: ParseT(j.Opts), Resolver: j.Resolver})
	out := &Out{Dir: dir, Files: map[string]string{}, Raw: map[string]string{}, Overlaps: atomic.LoadInt64(&rep.overlaps)}
	for k, v := range res.Files {
		// Keys that aren't clean absolute paths are kept, so that they match no file.
		if r, err := filepath.Rel(dir, k); err == nil && filepath.IsAbs(k) && filepath.Clean(k) == k {
			k = r
		}
		out.Raw[k] = v
		out.Files[k] = StripMap(v)
	}
	rendered := 0
	for i, e := range rep.errs {
		out.Values = append(out.Values, e)
		if j.KeepErrs || i >= 5000 && rendered > 16<<20 {
			out.Truncated = true
			out.Errs = append(out.Errs, "(not rendered)")
			continue
		}
		text := strings.ReplaceAll(e.Error(), dir, "$DIR")
		rendered += len(text)
		out.Errs = append(out.Errs, text)
	}
	return out
}

const mapPrefix = "\n/*# sourceMappingURL=data:application/json;base64,"

// StripMap removes the source map comment.
func StripMap(out string) string {
	if i := strings.LastIndex(out, mapPrefix); i >= 0 {
		return out[:i]
	}
	return out
}

// Map returns the text of the source map.
func Map(out string) (string, error) {
	i := strings.LastIndex(out, mapPrefix)
	if i < 0 {
		return "", errors.New("no source map comment")
	}
	rest := out[i+len(mapPrefix):]
	e := strings.Index(rest, " */")
	if e < 0 || strings.TrimSpace(rest[e+3:]) != "" {
		return "", errors.New("source map comment does not end the output")
	}
	b, err := base64.StdEncoding.DecodeString(rest[:e])
	return string(b), err
}

// One compiles a single stylesheet.
func One(css, opts string) (string, []string, *Out) {
	o := Compile(Job{Files: map[string]string{"in.css": css}, Entries: []string{"in.css"}, Opts: opts})
	return o.Files["in.css"], o.Errs, o
}

// Describe renders files for a report.
func Describe(files map[string]string, entries []string, opts string) string {
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	var b strings.Builder
	fmt.Fprintf(&b, "entries %q options %q\n", entries, opts)
	for _, n := range names {
		fmt.Fprintf(&b, "== %s\n%s\n", n, files[n])
	}
	return b.String()
}

// Errs returns the collected errors.
func (r *Reporter) Errs() []error {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]error{}, r.errs...)
}

// WithOpenFiles calls f while only n more files can be opened by this process.
func WithOpenFiles(n int, f func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
		panic(err)
	}
	// The next file gets the lowest number that is free, and the limit is about these numbers.
	var free []*os.File
	for i := 0; i <= n; i++ {
		f, err := os.Open("/dev/null")
		if err != nil {
			panic(err)
		}
		free = append(free, f)
	}
	limit := old
	limit.Cur = uint64(free[n].Fd())
	for _, f := range free {
		f.Close()
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &limit); err != nil {
		panic(err)
	}
	defer func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
			panic(err)
		}
	}()
	f()
}
