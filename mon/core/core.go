// Package core runs the cases of a property in worker processes, watches them,
// and turns what the monitors observed into a verdict and an evidence file.
package core

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
)

// Property is one decided property.
type Property struct {
	ID    string
	Level string
	Rule  string
	// Cases is the number of cases of a tier.
	Cases func(tier string) int
	// Run executes and judges one case.
	Run func(c *Ctx)
	// Require lists counters that must be at least 1 at the end (else the run
	// observed too little and is inconclusive).
	Require []string
	// CPULimit is the CPU time in seconds one case may use (0 = 120).
	CPULimit float64
	// Workers is the number of worker processes (0 = 8).
	Workers int
	// MaxAS limits the address space of a worker (bytes, 0 = none).
	MaxAS       uint64
	Assumptions []string
}

var registry = map[string]*Property{}

// Register adds a property.
func Register(p *Property) { registry[p.ID] = p }

// Ctx is the context of one case.
type Ctx struct {
	Prop  *Property
	Tier  string
	Seed  uint64
	Case  int
	R     *rand.Rand
	Repo  string
	Verif string
	Tmp   string

	mu    sync.Mutex
	viols []Violation
	st    *Stats
	trace []string
}

// Violation is one refuted expectation.
type Violation struct {
	Key string `json:"key"`
	Msg string `json:"msg"`
}

// Stats is what a worker observed. A decoder left running in the background by
// one case may still report to it while the next ones run.
type Stats struct {
	mu        sync.Mutex
	Evals     int64            `json:"evals"`
	Counters  map[string]int64 `json:"counters"`
	Distinct  map[uint64]bool  `json:"-"`
	DistinctL []uint64         `json:"distinct"`
	Samples   []string         `json:"samples"`
}

func newStats() *Stats {
	return &Stats{Counters: map[string]int64{}, Distinct: map[uint64]bool{}}
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))

	return h.Sum64()
}

func newCtx(p *Property, tier string, seed uint64, idx int, st *Stats) *Ctx {
	return &Ctx{
		Prop: p, Tier: tier, Seed: seed, Case: idx, st: st,
		R: rand.New(rand.NewPCG(seed*0x9e3779b97f4a7c15+hash64(p.ID), uint64(idx)+1)),
	}
}

// Thorough tells the tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Fail records a violation. key identifies what failed, independent of the case.
func (c *Ctx) Fail(key, format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()

	if len(c.viols) < 50 {
		c.viols = append(c.viols, Violation{key, fmt.Sprintf(format, a...)})
	}
}

// Failed tells whether the case already has a violation.
func (c *Ctx) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()

	return len(c.viols) > 0
}

// recorded returns a copy of the violations and the trace so far.
func (c *Ctx) recorded() ([]Violation, []string) {
	c.mu.Lock()
	defer c.mu.Unlock()

	return append([]Violation(nil), c.viols...), append([]string(nil), c.trace...)
}

// Trace adds context to the replay file of a failing case.
func (c *Ctx) Trace(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()

	if len(c.trace) < 400 {
		c.trace = append(c.trace, fmt.Sprintf(format, a...))
	}
}

// Eval counts n judged executions.
func (c *Ctx) Eval(n int) {
	c.st.mu.Lock()
	c.st.Evals += int64(n)
	c.st.mu.Unlock()
}

// Count adds to a named counter of observed events.
func (c *Ctx) Count(name string, n int64) {
	c.st.mu.Lock()
	c.st.Counters[name] += n
	c.st.mu.Unlock()
}

// Distinct records a non-trivial case by its identity.
func (c *Ctx) Distinct(format string, a ...any) {
	h := hash64(fmt.Sprintf(format, a...))

	c.st.mu.Lock()
	c.st.Distinct[h] = true
	c.st.mu.Unlock()
}

// Sample keeps a written-out case for the evidence.
func (c *Ctx) Sample(format string, a ...any) {
	c.st.mu.Lock()
	if len(c.st.Samples) < 3 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}

		c.st.Samples = append(c.st.Samples, s)
	}
	c.st.mu.Unlock()
}

// Guard runs f; a panic of the code under test is a violation.
func (c *Ctx) Guard(what string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if s, is := e.(string); is && strings.HasPrefix(s, "szw:") {
				panic(e) // a fault of the harness, not of the code under test
			}

			st := string(debug.Stack())
			c.Fail("panic:"+panicSite(st), "%s: panic: %v\n%s", what, e, clip(st, 3000))

			ok = false
		}
	}()

	f()

	return true
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}

	return s
}

// panicSite names the function in which a stack panicked.
func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			for _, m := range lines[i+1:] {
				if strings.HasPrefix(m, "\t") || strings.HasPrefix(m, "runtime.") || strings.HasPrefix(m, "panic(") {
					continue
				}

				if k := strings.LastIndex(m, "("); k > 0 {
					m = m[:k]
				}

				return m
			}
		}
	}

	return "unknown"
}

func (s *Stats) sorted() []string {
	var k []string
	for n := range s.Counters {
		k = append(k, n)
	}

	sort.Strings(k)

	return k
}

// Main dispatches the command line.
func Main(cmd string, args []string) int {
	switch cmd {
	case "run":
		return parent(args)
	case "worker":
		return worker(args)
	case "replay":
		return replay(args)
	case "list":
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}

		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))

		return 0
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)

		return 2
	}
}
