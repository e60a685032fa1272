package fw

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

const (
	exitWatchdog = 97
	exitHarness  = 98
	memLimit     = 3 << 30
)

type workerState struct {
	cur      atomic.Int64 // case number + 1, or 0 between cases
	started  atomic.Int64 // wall clock, ns
	startCPU atomic.Int64
	out      *bufio.Writer
	outMu    chan struct{}
}

func cpuNanos() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func (w *workerState) emit(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	w.outMu <- struct{}{}
	w.out.Write(b)
	w.out.WriteByte('\n')
	w.out.Flush()
	<-w.outMu
}

// allBlocked is whether no goroutine except for the caller could ever run again: all wait on
// locks or channels.
func allBlocked() (bool, string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	blocks := strings.Split(string(buf), "\n\n")
	for i, b := range blocks {
		if i == 0 { // ourselves
			continue
		}
		st := strings.IndexByte(b, '[')
		en := strings.IndexByte(b, ']')
		if st < 0 || en < st {
			continue
		}
		state := b[st+1 : en]
		if c := strings.IndexByte(state, ','); c >= 0 {
			state = state[:c]
		}
		switch state {
		case "semacquire", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.WaitGroup.Wait", "chan receive", "chan send", "select", "sync.Cond.Wait", "select (no cases)", "chan receive (nil chan)", "chan send (nil chan)":
		default:
			return false, ""
		}
	}
	s := string(buf)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return true, s
}

func (w *workerState) watchdog(cpuLimit int) {
	samples := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	fail := func(f string, a ...any) {
		w.emit(Result{Case: int(w.cur.Load() - 1), Violation: fmt.Sprintf(f, a...)})
		os.Exit(exitWatchdog)
	}
	blockedFor := 0
	for n := 0; ; n++ {
		time.Sleep(20 * time.Millisecond)
		cur := w.cur.Load()
		if cur == 0 {
			blockedFor = 0
			continue
		}
		metrics.Read(samples)
		if samples[0].Value.Uint64() > memLimit {
			fail("memory runaway: more than %d MB of live heap", memLimit>>20)
		}
		if n%10 != 0 {
			continue
		}
		startCPU := w.startCPU.Load()
		cpu := cpuNanos() - startCPU
		if w.cur.Load() == cur && cpu > int64(cpuLimit)*1e9 {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			if len(buf) > 3000 {
				buf = buf[:3000]
			}
			fail("hang: more than %d s of CPU time used\n%s", cpuLimit, buf)
		}
		// A deadlock is decided by the states of all goroutines (none can run), not by the clock.
		if time.Now().UnixNano()-w.started.Load() > 8e9 && n%50 == 0 {
			if ok, st := allBlocked(); ok && w.cur.Load() == cur {
				if blockedFor++; blockedFor >= 4 {
					fail("deadlock: every goroutine waits\n%s", st)
				}
			} else {
				blockedFor = 0
			}
		}
	}
}

// inCssc is whether a stack trace of a panic comes from the code under test.
func inCssc(stack string) bool {
	i := strings.Index(stack, "panic(")
	if i < 0 {
		i = strings.Index(stack, "goroutine ")
	}
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(l, "github.com/stephen/cssc") {
			return true
		}
		if strings.HasPrefix(l, "verif/") || strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

// RunCase runs one case.
func RunCase(ck *Check, tier string, seed int64, n int, known *Finding) (res Result, harnessErr string) {
	res = Result{Case: n}
	ctx := &Ctx{Seed: seed, Tier: tier, Case: n, R: rand.New(rand.NewSource(CaseSeed(ck.ID, seed, n))), Res: &res}
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if inCssc(st) {
				if len(st) > 2500 {
					st = st[:2500]
				}
				ctx.Violate("", "panic: %v\n%s", r, st)
				return
			}
			harnessErr = fmt.Sprintf("%v\n%s", r, st)
		}
	}()
	if known != nil {
		ck.RunKnown(ctx, *known)
	} else {
		ck.Run(ctx)
	}
	return res, ""
}

// Worker runs the cases from, from+step, ... below to.
func Worker(ck *Check, tier string, seed int64, from, step, to int, findings []Finding) {
	w := &workerState{out: bufio.NewWriter(os.Stdout), outMu: make(chan struct{}, 1)}
	limit := ck.CPU
	if limit == 0 {
		limit = 20
	}
	go w.watchdog(limit)
	for n := from; n < to; n += step {
		var known *Finding
		if findings != nil {
			known = &findings[n]
		}
		w.startCPU.Store(cpuNanos())
		w.started.Store(time.Now().UnixNano())
		w.emit(map[string]int{"start": n})
		w.cur.Store(int64(n) + 1)
		res, herr := RunCase(ck, tier, seed, n, known)
		w.cur.Store(0)
		if herr != "" {
			fmt.Fprintf(os.Stderr, "HARNESS ERROR in case %d: %s\n", n, herr)
			os.Exit(exitHarness)
		}
		w.emit(res)
	}
}
