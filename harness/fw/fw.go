// Package fw runs checks: a parent process hands out case numbers to worker processes, which run the real
// code; crashes, hangs and memory runaways of a worker are observed from outside or by the worker's watchdog.
package fw

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Ctx is a case.
type Ctx struct {
	Seed int64
	Tier string
	Case int
	R    *rand.Rand
	Res  *Result
}

// Result is what happened in a case.
type Result struct {
	Case       int            `json:"case"`
	Key        string         `json:"key,omitempty"`    // identifies distinct cases
	Nontrivial bool           `json:"nt,omitempty"`     // by the check's rule
	Sample     string         `json:"sample,omitempty"` // for the evidence
	Counts     map[string]int `json:"counts,omitempty"`
	States     []string       `json:"states,omitempty"` // distinct states observed
	Violation  string         `json:"violation,omitempty"`
	Input      string         `json:"input,omitempty"` // for the replay
	Inconcl    string         `json:"inconclusive,omitempty"`
}

// Check decides a property.
type Check struct {
	ID          string
	Rule        string
	Level       string
	Quick       int // number of cases
	Thorough    int
	Race        bool // needs the race detector
	Run         func(*Ctx)
	Assumptions []string
	// CPU is the limit per case in seconds (default 20).
	CPU int
	// Workers is the number of processes (default 8).
	Workers int
	// RunKnown runs the oracle on an input of a known finding, for checks that have them.
	RunKnown func(c *Ctx, f Finding)
	// MinNontrivial is the share of cases that have to be nontrivial (default .3).
	MinNontrivial float64
}

// Finding is an entry of known_findings.jsonl.
type Finding struct {
	Property string            `json:"property"`
	Status   string            `json:"status"` // "known" or "fixed"
	What     string            `json:"what"`
	Commit   string            `json:"commit,omitempty"`
	Files    map[string]string `json:"files,omitempty"`
	Opts     string            `json:"opts,omitempty"`
	Kind     string            `json:"kind,omitempty"`
}

// Violate records a violation (the first one of the case is kept).
func (c *Ctx) Violate(input, f string, args ...any) {
	if c.Res.Violation == "" {
		c.Res.Violation = fmt.Sprintf(f, args...)
		c.Res.Input = input
	}
}

// Trying records the input that is about to be compiled, for the report if the process dies.
func (c *Ctx) Trying(input string) {
	os.WriteFile(filepath.Join(os.TempDir(), fmt.Sprintf("trying-%d", os.Getpid())), []byte(input), 0o644)
}

// Count counts something that was observed.
func (c *Ctx) Count(name string, n int) {
	if c.Res.Counts == nil {
		c.Res.Counts = map[string]int{}
	}
	c.Res.Counts[name] += n
}

// State records a distinct state.
func (c *Ctx) State(s string) {
	if len(s) > 60 {
		s = Hash(s)
	}
	c.Res.States = append(c.Res.States, s)
}

// Nontrivial marks the case.
func (c *Ctx) Nontrivial(key string) {
	c.Res.Nontrivial = true
	c.Res.Key = Hash(key)
}

// Sample gives an example for the evidence.
func (c *Ctx) Sample(s string) {
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	c.Res.Sample = strings.ToValidUTF8(s, "?")
}

// Hash is a short hash.
func Hash(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:8])
}

// CaseSeed derives the seed of a case.
func CaseSeed(id string, seed int64, n int) int64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d/%d", id, seed, n)))
	var v int64
	for i := 0; i < 8; i++ {
		v = v<<8 | int64(h[i])
	}
	return v
}

// Verif is the directory of the framework.
var Verif = "/verif"

// Registry has all checks.
var Registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { Registry[c.ID] = c }

// IDs lists the checks.
func IDs() []string {
	var ids []string
	for id := range Registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}
