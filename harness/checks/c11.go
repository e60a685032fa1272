package checks

import (
	"fmt"
	"math/rand"
	"path"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/drive"
	"verif/harness/fw"

	"github.com/stephen/cssc"
	"github.com/stephen/cssc/resolver"
)

// schedule injects delays and records the order of observable events.
type schedule struct {
	mu     sync.Mutex
	r      *rand.Rand
	mode   int
	trace  strings.Builder
	ended  atomic.Bool
	late   atomic.Int64
	active atomic.Int64
	most   int64
	seen   int
	gate   chan struct{}
}

func newSchedule(seed int64) *schedule {
	r := rand.New(rand.NewSource(seed))
	s := &schedule{r: r, mode: r.Intn(5)}
	return s
}

func (s *schedule) event(what string) {
	if s.ended.Load() {
		s.late.Add(1)
	}
	s.mu.Lock()
	s.trace.WriteString(what)
	s.trace.WriteByte(' ')
	n := s.r.Intn(100)
	mode := s.mode
	s.seen++
	s.mu.Unlock()
	switch mode {
	case 0:
	case 1:
		runtime.Gosched()
	case 2:
		time.Sleep(time.Duration(n*5) * time.Microsecond)
	case 3:
		if n < 20 {
			time.Sleep(time.Duration(n*50) * time.Microsecond)
		}
	case 4:
		for i := 0; i < n; i++ {
			runtime.Gosched()
		}
	}
}

// slowResolver is the default resolver with delays.
type slowResolver struct {
	s    *schedule
	next cssc.Resolver
}

func (r *slowResolver) Resolve(spec, from string) (string, error) {
	n := r.s.active.Add(1)
	r.s.mu.Lock()
	if n > r.s.most {
		r.s.most = n
	}
	r.s.mu.Unlock()
	r.s.event("r:" + path.Base(spec))
	p, err := r.next.Resolve(spec, from)
	r.s.event("d:" + path.Base(spec))
	r.s.active.Add(-1)
	return p, err
}

// bareResolver is the default resolver with delays that depend on the arguments only.
type bareResolver struct {
	seed int64
	next cssc.Resolver
}

func (r *bareResolver) Resolve(spec, from string) (string, error) {
	h := uint64(r.seed)
	for i := 0; i < len(spec); i++ {
		h = h*1099511628211 ^ uint64(spec[i])
	}
	h ^= h >> 29
	if h%4 > 0 {
		time.Sleep(time.Duration(h%400) * time.Microsecond)
	}
	return r.next.Resolve(spec, from)
}

func init() {
	fw.Register(&fw.Check{
		ID: "C11", Level: "exploration", Quick: 1500, Thorough: 37500, Race: true, Workers: 4, CPU: 120,
		Rule:        "each case compiles 1-10 entries of a random import graph (with shared, cyclic and faulty imports) under the race detector: first one by one, then together several times with different GOMAXPROCS, delays in the resolver and the reporter, and up to four compilations (with different options) at once; non-trivial if at least two entries and two interleavings of resolver calls were seen; distinct by content; states are distinct interleavings of the observable events",
		Assumptions: []string{"the Go race detector reports every race it observes", "goroutine schedules are sampled through delays and GOMAXPROCS, not enumerated"},
		Run: func(c *fw.Ctx) {
			r := c.R
			g := randomGraph(c, 12, []float64{0, .1, .5}[r.Intn(3)], graphBody(c, r.Intn(2) == 0))
			var entries []string
			for i := range g.files {
				if i == 0 || r.Intn(3) > 0 {
					entries = append(entries, g.files[i].name)
				}
			}
			for k := range g.extra {
				if r.Intn(2) == 0 {
					entries = append(entries, k)
				}
			}
			if r.Intn(3) == 0 {
				entries = append(entries, "missing.css", entries[0])
			}
			sort.Strings(entries)
			// Inlining is exponential in cyclic graphs.
			for i := range g.files {
				f := &flat{limit: 60}
				var b strings.Builder
				g.flatten(i, nil, f, &b)
				if f.files > f.limit || b.Len() > 200000 {
					c.Count("too_big", 1)
					return
				}
			}
			dir := drive.TempDir()
			defer removeAll(dir)
			drive.Write(dir, g.contents())

			type reference struct {
				files map[string]string
				errs  []string
			}
			refs := map[string]*reference{}
			refFor := func(opts string) *reference {
				if refs[opts] == nil {
					ref := &reference{files: map[string]string{}}
					for _, e := range entries {
						out := drive.CompileIn(dir, drive.Job{Entries: []string{e}, Opts: opts})
						for k, v := range out.Raw {
							if old, ok := ref.files[k]; ok && old != v {
								c.Violate(g.input(entries, opts), "output of %s depends on the entry", k)
							}
							ref.files[k] = v
						}
						ref.errs = append(ref.errs, out.Errs...)
					}
					ref.errs = dedupe(ref.errs)
					refs[opts] = ref
				}
				return refs[opts]
			}
			all := []string{randomOpts(r), randomOpts(r)}
			for _, o := range all {
				refFor(o)
			}
			procs := runtime.GOMAXPROCS(0)
			defer runtime.GOMAXPROCS(procs)
			traces := map[string]bool{}
			counts := map[string]string{} // options -> multiset of errors
			var most int64
			for round := 0; round < 6; round++ {
				runtime.GOMAXPROCS([]int{1, 2, 3, 8}[r.Intn(4)])
				// Without the harness' locks, which order events of different goroutines, races are easier to see.
				bare := round%2 == 1
				n := 1
				if r.Intn(2) == 0 {
					n = 2 + r.Intn(3)
				}
				type run struct {
					opts string
					s    *schedule
					out  *drive.Out
					seed int64
				}
				runs := make([]*run, n)
				shared := &resolver.NodeResolver{}
				var wg sync.WaitGroup
				for i := range runs {
					u := &run{opts: all[r.Intn(2)], s: newSchedule(r.Int63()), seed: r.Int63()}
					runs[i] = u
					order := append([]string{}, entries...)
					r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
					wg.Add(1)
					go func() {
						defer wg.Done()
						if bare {
							u.out = drive.CompileIn(dir, drive.Job{Entries: order, Opts: u.opts, Bare: true, Resolver: &bareResolver{u.seed, shared}})
							return
						}
						u.out = drive.CompileIn(dir, drive.Job{Entries: order, Opts: u.opts, Resolver: &slowResolver{u.s, shared}, OnError: func() { u.s.event("e") }})
						u.s.ended.Store(true)
					}()
				}
				wg.Wait()
				for _, u := range runs {
					input := g.input(entries, u.opts)
					ref := refFor(u.opts)
					if u.out.Overlaps > 0 {
						c.Violate(input, "%d overlapping calls of the reporter", u.out.Overlaps)
					}
					if d := diffMaps(ref.files, u.out.Raw); d != "" {
						c.Violate(input, "outputs differ from those of compiling each entry on its own: %s\nschedule: %s", clip(d, 4000), u.s.trace.String())
					}
					if u.out.Truncated {
						c.Count("too_many_errors", 1)
						continue
					}
					errs := dedupe(u.out.Errs)
					if d := sameMultiset(ref.errs, errs); d != "" {
						c.Violate(input, "errors differ from those of compiling each entry on its own: %s\nschedule: %s", d, u.s.trace.String())
					}
					list := stacksOff(u.out.Errs)
					sort.Strings(list)
					ms := strings.Join(list, "\n")
					if old, ok := counts[u.opts]; ok && old != ms {
						c.Violate(input, "the number of errors depends on the schedule: %s", sameMultiset(strings.Split(old, "\n"), list))
					}
					counts[u.opts] = ms
					if u.s.active.Load() != 0 || u.s.late.Load() != 0 {
						c.Violate(input, "the compilation ended while its goroutines still ran")
					}
					c.Count("compilations", 1)
					if bare {
						c.Count("compilations_without_harness_locks", 1)
						continue
					}
					tr := fw.Hash(u.opts + u.s.trace.String())
					traces[tr] = true
					c.State(tr)
					c.Count("events", u.s.seen)
					if u.s.most > most {
						most = u.s.most
					}
				}
			}
			c.Count(fmt.Sprintf("max_parallel_resolves_%d", min(most, 8)), 1)
			if len(entries) >= 2 && len(traces) >= 2 {
				c.Nontrivial(g.input(entries, ""))
				c.Sample(fmt.Sprintf("%d entries, %d files, options %v", len(entries), len(g.files), all))
			}
		},
	})
}
