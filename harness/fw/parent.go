package fw

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type parent struct {
	ck      *Check
	tier    string
	seed    int64
	total   int
	verif   string
	scratch string

	mu         sync.Mutex
	early      bool // out of time: cases that are running are finished
	results    int
	keys       map[string]bool
	states     map[string]bool
	counts     map[string]int
	samples    []string
	violations []Result
	inconcl    []string
	harness    string
	stop       bool
	procs      map[*exec.Cmd]bool
}

const maxViolations = 4

type tail struct {
	mu   sync.Mutex
	head []byte
	buf  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.head) < 6000 {
		t.head = append(t.head, p...)
	}
	t.buf = append(t.buf, p...)
	if len(t.buf) > 20000 {
		t.buf = t.buf[len(t.buf)-20000:]
	}
	return len(p), nil
}

func (p *parent) args(mode string, from, step, to int) []string {
	return []string{"-mode", mode, "-id", p.ck.ID, "-tier", p.tier, "-seed", strconv.FormatInt(p.seed, 10),
		"-from", strconv.Itoa(from), "-step", strconv.Itoa(step), "-to", strconv.Itoa(to), "-verif", p.verif}
}

// runWorker runs one worker process. It returns the case that was running when it died, or -1 if it finished.
func (p *parent) runWorker(mode string, from, step, to int, onResult func(Result)) (died int, how, input string) {
	cmd := exec.Command(os.Args[0], p.args(mode, from, step, to)...)
	procs := "2"
	if p.ck.Workers == 1 {
		procs = "8"
	}
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOMAXPROCS=") && !strings.HasPrefix(e, "GORACE=") && !strings.HasPrefix(e, "TMPDIR=") {
			env = append(env, e)
		}
	}
	cmd.Env = append(env, "GOMAXPROCS="+procs, "GOGC=400", "GOMEMLIMIT=1GiB", "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "TMPDIR="+p.scratch)
	cmd.Dir = p.scratch
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	t := &tail{}
	cmd.Stderr = t
	pipe, err := cmd.StdoutPipe()
	if err == nil {
		err = cmd.Start()
	}
	if err != nil {
		p.fail("cannot start worker: %v", err)
		return -1, "", ""
	}
	p.mu.Lock()
	p.procs[cmd] = true
	p.mu.Unlock()
	current, watchdog := -1, false
	sc := bufio.NewScanner(pipe)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	for sc.Scan() {
		line := sc.Bytes()
		if bytes.HasPrefix(line, []byte(`{"start":`)) {
			var s struct{ Start int }
			json.Unmarshal(line, &s)
			current = s.Start
			if to != from+1 && p.outOfTime() {
				cmd.Process.Kill()
				cmd.Wait()
				p.mu.Lock()
				delete(p.procs, cmd)
				p.mu.Unlock()
				os.Remove(filepath.Join(p.scratch, fmt.Sprintf("trying-%d", cmd.Process.Pid)))
				return -1, "", ""
			}
			continue
		}
		var r Result
		if err := json.Unmarshal(line, &r); err != nil {
			continue
		}
		if r.Case == current && strings.HasPrefix(r.Violation, "hang:") || strings.HasPrefix(r.Violation, "memory runaway") || strings.HasPrefix(r.Violation, "deadlock:") {
			watchdog = true
			how = r.Violation
			break
		}
		onResult(r)
		current = -1
	}
	if watchdog {
		cmd.Process.Kill()
	}
	err = cmd.Wait()
	tryingFile := filepath.Join(p.scratch, fmt.Sprintf("trying-%d", cmd.Process.Pid))
	b, _ := os.ReadFile(tryingFile)
	os.Remove(tryingFile)
	trying := string(b)
	p.mu.Lock()
	delete(p.procs, cmd)
	stopped := p.stop
	p.mu.Unlock()
	if stopped {
		return -1, "", ""
	}
	if watchdog {
		return current, how, trying
	}
	if err == nil {
		return -1, "", ""
	}
	code := cmd.ProcessState.ExitCode()
	head, full := string(t.head), string(t.buf)
	switch {
	case code == exitHarness:
		p.fail("%s", full)
		return -1, "", ""
	case code == 66 && strings.Contains(head, "DATA RACE"):
		if !strings.Contains(head, "github.com/stephen/cssc") {
			p.fail("data race in the harness: %s", head)
			return -1, "", ""
		}
		return current, "data race\n" + clip(head, 5000), trying
	case strings.Contains(head, "fatal error:") || strings.Contains(head, "panic:"):
		if i := strings.Index(head, "goroutine "); i >= 0 && !inCssc("panic(\n"+head[i:]) && !strings.Contains(head, "github.com/stephen/cssc") {
			p.fail("crash in the harness: %s", head)
			return -1, "", ""
		}
		return current, "crash\n" + clip(head, 5000), trying
	case cmd.ProcessState.Sys().(syscall.WaitStatus).Signaled():
		return current, "killed", trying
	}
	p.fail("worker exit %d: %s", code, full)
	return -1, "", ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (p *parent) fail(f string, a ...any) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.harness == "" {
		p.harness = fmt.Sprintf(f, a...)
	}
	p.halt()
}

func (p *parent) halt() {
	p.stop = true
	for c := range p.procs {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
}

func (p *parent) result(r Result) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.stop {
		return
	}
	p.results++
	for k, v := range r.Counts {
		p.counts[k] += v
	}
	for _, s := range r.States {
		p.states[s] = true
	}
	if r.Inconcl != "" {
		p.inconcl = append(p.inconcl, fmt.Sprintf("case %d: %s", r.Case, r.Inconcl))
	}
	if r.Nontrivial && r.Key != "" {
		if !p.keys[r.Key] && r.Sample != "" && len(p.samples) < 6 {
			p.samples = append(p.samples, r.Sample)
		}
		p.keys[r.Key] = true
	}
	if r.Violation != "" {
		p.violations = append(p.violations, r)
		if len(p.violations) >= maxViolations {
			p.halt()
		}
	}
}

func (p *parent) stopped() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.stop
}

func (p *parent) outOfTime() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.early
}

func (p *parent) shard(k, step int) {
	killed := 0
	for from := k; from < p.total && !p.stopped(); {
		last := -1
		died, how, input := p.runWorker("worker", from, step, p.total, func(r Result) { last = r.Case; p.result(r) })
		if died < 0 {
			return
		}
		_ = last
		if how == "killed" {
			// Someone else ended it (out of memory?): no verdict for this case.
			if killed++; killed > 3 {
				p.fail("workers are being killed")
				return
			}
			p.result(Result{Case: died, Inconcl: "worker was killed"})
		} else {
			if strings.HasPrefix(how, "hang:") || strings.HasPrefix(how, "memory") {
				// Confirm it in a process of its own.
				d2, how2, _ := p.runWorker("worker", died, 1, died+1, func(Result) {})
				if d2 != died || how2 == "killed" {
					p.result(Result{Case: died, Inconcl: "not confirmed: " + clip(how, 200)})
					from = died + step
					continue
				}
			}
			p.result(Result{Case: died, Violation: how, Input: input})
		}
		from = died + step
	}
}

// LoadFindings reads known_findings.jsonl.
func LoadFindings(verif, id string) ([]Finding, error) {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.jsonl"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []Finding
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var f Finding
		if err := json.Unmarshal([]byte(l), &f); err != nil {
			return nil, fmt.Errorf("known_findings.jsonl: %v", err)
		}
		if f.Property == id && f.Status == "known" {
			out = append(out, f)
		}
	}
	return out, nil
}

// scratchRoot is where to put files: in memory if there's room, because the checks write millions of them.
func scratchRoot() string {
	const dir = "/dev/shm"
	var st syscall.Statfs_t
	if os.Getenv("TMPDIR") != "" || syscall.Statfs(dir, &st) != nil {
		return ""
	}
	if st.Bavail*uint64(st.Bsize) < 4<<30 || st.Type != 0x01021994 || st.Files > 0 && st.Ffree < 1e6 {
		return ""
	}
	return dir
}

// Replay runs a single case again.
func Replay(ck *Check, tier string, seed int64, verif string, n int, path string) int {
	scratch, err := os.MkdirTemp(scratchRoot(), "verif-"+ck.ID+"-")
	if err != nil {
		fmt.Println("ERROR", err)
		return 3
	}
	defer os.RemoveAll(scratch)
	p := &parent{ck: ck, tier: tier, seed: seed, verif: verif, scratch: scratch, total: n + 1, keys: map[string]bool{}, states: map[string]bool{},
		counts: map[string]int{}, procs: map[*exec.Cmd]bool{}}
	p.shard(n, 1)
	for _, v := range p.violations {
		fmt.Printf("VIOLATION property=%s replay=%s\n%s\n--- input: %s\n", ck.ID, path, printable(v.Violation), printable(v.Input))
		return 1
	}
	if p.harness != "" || p.results == 0 {
		fmt.Println("ERROR", p.harness, p.inconcl)
		return 3
	}
	fmt.Println("OK")
	return 0
}

// quickTime is how long the cases of a quick check take at most.
const quickTime = 100 * time.Second

// Main runs a check and returns the exit code.
func Main(ck *Check, tier string, seed int64, verif string) int {
	start := time.Now()
	p := &parent{ck: ck, tier: tier, seed: seed, verif: verif, keys: map[string]bool{}, states: map[string]bool{},
		counts: map[string]int{}, procs: map[*exec.Cmd]bool{}}
	p.total = ck.Quick
	if tier == "thorough" {
		p.total = ck.Thorough
	}
	if v := os.Getenv("VERIF_CASES"); v != "" { // debugging aid
		p.total, _ = strconv.Atoi(v)
	}
	scratch, err := os.MkdirTemp(scratchRoot(), "verif-"+ck.ID+"-")
	if err != nil {
		fmt.Println("ERROR", err)
		return 3
	}
	defer os.RemoveAll(scratch)
	p.scratch = scratch

	// Known findings: report each one that still fails.
	findings, err := LoadFindings(verif, ck.ID)
	if err != nil {
		fmt.Println("ERROR", err)
		return 3
	}
	for i := range findings {
		failed := ""
		died, how, _ := p.runWorker("known", i, 1, i+1, func(r Result) { failed = r.Violation })
		if died >= 0 {
			failed = how
		}
		if failed != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, findings[i].What)
		}
	}

	workers := ck.Workers
	if workers == 0 {
		workers = 8
	}
	var deadline *time.Timer
	if tier == "quick" {
		// On a slow or busy machine a quick check judges what it got to.
		deadline = time.AfterFunc(quickTime, func() {
			p.mu.Lock()
			defer p.mu.Unlock()
			p.early = true
		})
	}
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() { defer wg.Done(); p.shard(k, workers) }()
	}
	wg.Wait()
	if deadline != nil {
		deadline.Stop()
	}
	if p.early {
		p.total = p.results
	}

	if p.harness != "" && len(p.violations) == 0 {
		fmt.Printf("ERROR property=%s the check itself failed:\n%s\n", ck.ID, printable(p.harness))
		return 3
	}

	wall := time.Since(start).Seconds()
	var rc int
	replays := filepath.Join(verif, "evidence", "replays")
	os.MkdirAll(replays, 0o755)
	old, _ := filepath.Glob(filepath.Join(replays, ck.ID+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	sort.Slice(p.violations, func(i, j int) bool { return p.violations[i].Case < p.violations[j].Case })
	for i, v := range p.violations {
		path := filepath.Join(replays, fmt.Sprintf("%s-%d.json", ck.ID, i))
		b, _ := json.MarshalIndent(map[string]any{"property": ck.ID, "tier": tier, "seed": seed, "case": v.Case,
			"violation": v.Violation, "input": v.Input, "rerun": fmt.Sprintf("./check.sh %s --replay %s", ck.ID, path)}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
		fmt.Println(printable(clip(v.Violation, 1500)))
		if v.Input != "" {
			fmt.Println("--- input:", printable(clip(v.Input, 1500)))
		}
		rc = 1
	}
	samples := make([]any, 0, len(p.samples))
	for _, s := range p.samples {
		samples = append(samples, s)
	}
	cov := map[string]any{"evaluations": p.results, "distinct_nontrivial": len(p.keys), "rule": ck.Rule, "samples": samples,
		"observed": p.counts, "distinct_states": len(p.states), "inconclusive": len(p.inconcl)}
	if len(p.inconcl) > 0 {
		cov["inconclusive_cases"] = p.inconcl[:min(5, len(p.inconcl))]
	}
	ev := map[string]any{"property": ck.ID, "tier": tier, "seed": seed, "level": ck.Level, "coverage": cov,
		"assumptions": ck.Assumptions, "wall_s": wall, "violations": len(p.violations)}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", ck.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("ERROR", err)
		return 3
	}
	if rc == 0 {
		share := ck.MinNontrivial
		if share == 0 {
			share = .3
		}
		if float64(len(p.keys)) < share*float64(p.total) {
			fmt.Printf("ERROR property=%s observed too little: %d distinct nontrivial of %d cases\n", ck.ID, len(p.keys), p.total)
			return 3
		}
		if len(p.inconcl)*20 > p.total {
			fmt.Printf("ERROR property=%s inconclusive: %v\n", ck.ID, p.inconcl)
			return 3
		}
		fmt.Printf("OK property=%s cases=%d distinct_nontrivial=%d observed=%v states=%d inconclusive=%d wall=%.1fs\n",
			ck.ID, p.results, len(p.keys), p.counts, len(p.states), len(p.inconcl), wall)
	}
	return rc
}

// printable replaces what isn't UTF-8, e.g. because it was cut off.
func printable(s string) string { return strings.ToValidUTF8(s, "\uFFFD") }
