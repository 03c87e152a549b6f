package core

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"maps"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

type finding struct {
	Case  int       `json:"case"`
	V     Violation `json:"violation"`
	Trace []string  `json:"trace,omitempty"`
	on    *stride
}

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`
	Case     int      `json:"case"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace,omitempty"`
	How      string   `json:"how"`
	// Arch is the platform of the worker, OneCPU whether it had just one.
	Arch   string `json:"arch"`
	OneCPU bool   `json:"one_cpu,omitempty"`
}

// stride is a sequence of cases and how to run them.
type stride struct {
	exe               string
	arch              string
	oneCPU            bool
	cpu               int
	seed              uint64
	base              []string
	from, total, step int
}

// start starts a worker, which inherits the set of CPUs: runtime.NumCPU() is
// what the reader sizes its pool by.
func (s *stride) start(cmd *exec.Cmd) error {
	if !s.oneCPU {
		return cmd.Start()
	}

	runtime.LockOSThread()
	defer runtime.UnlockOSThread()

	var all, one [16]uint64

	size := unsafe.Sizeof(all)
	n, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, size, uintptr(unsafe.Pointer(&all)))

	if e != 0 || n == 0 {
		return cmd.Start()
	}

	var cpus []int

	for i := range 1024 {
		if all[i/64]>>(i%64)&1 != 0 {
			cpus = append(cpus, i)
		}
	}

	k := cpus[s.cpu%len(cpus)]
	one[k/64] = 1 << (k % 64)

	if _, _, e := syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, size, uintptr(unsafe.Pointer(&one))); e != 0 {
		return cmd.Start()
	}

	defer func() {
		_, _, _ = syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, size, uintptr(unsafe.Pointer(&all)))
	}()

	return cmd.Start()
}

type collector struct {
	mu     sync.Mutex
	stats  *Stats
	dist   map[uint64]bool
	finds  []finding
	errs   []string
	killed map[int]int
	cases  map[string]int64  // per platform
	known  map[string]string // key → text
	knownS map[string]bool   // observed
	stop   bool
	procs  map[*os.Process]bool
	timer  bool
}

// found records a finding; the search goes on for a while to find others. The
// caller holds the lock.
func (co *collector) found(f finding) {
	co.finds = append(co.finds, f)

	if len(co.finds) >= 40 || strings.HasPrefix(f.V.Key, "stuck") {
		co.stop = true
	}

	if !co.timer {
		co.timer = true

		time.AfterFunc(30*time.Second, co.end)
	}

	if co.stop {
		go co.end()
	}
}

// end stops all of the workers.
func (co *collector) end() {
	co.mu.Lock()
	defer co.mu.Unlock()

	co.stop = true
	for p := range co.procs {
		_ = p.Kill()
	}
}

func (co *collector) full() bool {
	co.mu.Lock()
	defer co.mu.Unlock()

	return co.stop
}

func lastFatal(stderr string) string {
	for _, m := range []string{"WARNING: DATA RACE", "fatal error: ", "panic: ", "unexpected fault", "SIGSEGV"} {
		if i := strings.Index(stderr, m); i >= 0 {
			return clip(stderr[i:], 6000)
		}
	}

	return clip(stderr, 3000)
}

func crashKey(stderr string) string {
	switch {
	case strings.Contains(stderr, "WARNING: DATA RACE"):
		return "race"
	case strings.Contains(stderr, "out of memory"), strings.Contains(stderr, "cannot allocate memory"):
		return "crash:out-of-memory"
	case strings.Contains(stderr, "fatal error:"):
		return "crash:fatal"
	case strings.Contains(stderr, "panic:"):
		return "crash:panic"
	default:
		return "crash"
	}
}

// runStride runs cases from, from+step, ... in worker processes, restarting
// after a crash behind the case that crashed.
func (co *collector) runStride(s *stride) {
	step := s.step

	for next := s.from; next < s.total; {
		if co.full() {
			return
		}

		cmd := exec.Command(s.exe, append(append([]string{"worker", fmt.Sprintf("-seed=%d", s.seed)}, s.base...),
			fmt.Sprintf("-from=%d", next), fmt.Sprintf("-to=%d", s.total), fmt.Sprintf("-step=%d", step))...)
		cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")

		var errb bytes.Buffer

		cmd.Stderr = &limitWriter{b: &errb, n: 1 << 20}

		pipe, err := cmd.StdoutPipe()
		if err == nil {
			err = s.start(cmd)
		}

		if err != nil {
			co.mu.Lock()
			co.errs = append(co.errs, err.Error())
			co.stop = true
			co.mu.Unlock()

			return
		}

		co.mu.Lock()
		co.procs[cmd.Process] = true

		if co.stop {
			_ = cmd.Process.Kill()
		}
		co.mu.Unlock()

		cur, done, reported := -1, false, false
		sc := bufio.NewScanner(pipe)
		sc.Buffer(make([]byte, 1<<16), 64<<20)

		for sc.Scan() {
			var e event
			if json.Unmarshal(sc.Bytes(), &e) != nil {
				continue
			}

			co.mu.Lock()

			switch e.T {
			case "start":
				cur = e.Case
			case "end":
				co.cases[s.arch]++
				if s.oneCPU {
					co.cases["one CPU"]++
				}

				next = e.Case + step
				cur = -1
			case "viol":
				if t, ok := co.known[e.Viol.Key]; ok {
					co.knownS[t] = true

					break
				}

				reported = true
				co.found(finding{e.Case, *e.Viol, e.Trace, s})
			case "error":
				reported = true
				co.errs = append(co.errs, fmt.Sprintf("case %d: %s", e.Case, e.Err))
				co.stop = true
			case "stats":
				done = true

				co.stats.Evals += e.Stats.Evals
				for k, v := range e.Stats.Counters {
					co.stats.Counters[k] += v
				}

				for _, h := range e.Stats.DistinctL {
					co.dist[h] = true
				}

				co.stats.Samples = append(co.stats.Samples, e.Stats.Samples...)
			}

			stop := co.stop
			co.mu.Unlock()

			if stop {
				_ = cmd.Process.Kill()
			}
		}

		werr := cmd.Wait()

		co.mu.Lock()
		delete(co.procs, cmd.Process)
		co.mu.Unlock()

		if done || co.full() {
			return
		}

		co.mu.Lock()
		crashed := cur

		if crashed < 0 {
			crashed = next
		}

		if !reported {
			stderr := errb.String()

			if strings.Contains(fmt.Sprint(werr), "signal: killed") {
				co.killed[crashed]++
				if co.killed[crashed] < 2 {
					next = crashed
					co.mu.Unlock()

					continue
				}
			}

			co.found(finding{crashed, Violation{crashKey(stderr),
				fmt.Sprintf("worker ended with %v during case %d\n%s", werr, crashed, lastFatal(stderr))}, nil, s})
			if len(co.finds) >= 8 {
				co.stop = true
			}
		}

		next = crashed + step
		co.mu.Unlock()
	}
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if k := w.n - w.b.Len(); k > 0 {
		w.b.Write(p[:min(k, len(p))])
	}

	return len(p), nil
}

func parent(args []string) int {
	if len(args) < 1 {
		return 2
	}

	id := args[0]
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	only := fs.Int("case", -1, "")
	cases := fs.Int("cases", 0, "")
	oneCPU := fs.Bool("one-cpu", false, "")
	alt := fs.String("alt", "", "a build for 386 that runs some cases as well")
	_ = fs.Parse(args[1:])

	p := registry[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)

		return 2
	}

	t0 := time.Now()

	tmp, err := os.MkdirTemp("", "mon-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)

		return 2
	}

	defer os.RemoveAll(tmp)

	total := p.Cases(*tier)
	if *cases > 0 {
		total = *cases
	}

	base := []string{"-prop=" + id, "-tier=" + *tier, "-repo=" + *repo, "-verif=" + *verif, "-tmp=" + tmp}
	co := &collector{stats: newStats(), dist: map[uint64]bool{}, killed: map[int]int{}, cases: map[string]int64{}, known: loadKnown(*verif, id), knownS: map[string]bool{}, procs: map[*os.Process]bool{}}

	main := stride{exe: os.Args[0], arch: runtime.GOARCH, seed: *seed, base: base, total: total, step: 1, oneCPU: *oneCPU}

	if *only >= 0 {
		main.from, main.total = *only, *only+1
		co.runStride(&main)
	} else {
		co.runAll(p, main)

		if *alt != "" && !co.full() {
			main.exe, main.arch, main.seed = *alt, "386", *seed+386000
			main.total = (total + 3) / 4
			co.runAll(p, main)
		}
	}

	return co.verdict(p, *tier, *seed, *verif, t0, *only >= 0, total)
}

// runAll runs all cases in several processes, of which one has a single CPU.
func (co *collector) runAll(p *Property, s stride) {
	n := p.Workers
	if n == 0 {
		n = 8
	}

	n = min(n, s.total)

	var wg sync.WaitGroup

	for w := range n {
		s := s
		s.from, s.step, s.cpu = w, n, w
		s.oneCPU = s.oneCPU || w == 3

		wg.Add(1)

		go func() {
			defer wg.Done()
			co.runStride(&s)
		}()
	}

	wg.Wait()
}

// loadKnown reads the "known:" lines of the known-findings file:
//
//	known: property=C07 key=<violation key> <what fails>
func loadKnown(verif, prop string) map[string]string {
	out := map[string]string{}

	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return out
	}

	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "key=") {
			out[f[2][4:]] = strings.Join(f[3:], " ")
		}
	}

	return out
}

func (co *collector) verdict(p *Property, tier string, seed uint64, verif string, t0 time.Time, single bool, total int) int {
	for _, e := range co.errs {
		fmt.Fprintln(os.Stderr, "ERROR", e)
	}

	seen := map[string]bool{}
	viol := 0
	rdir := filepath.Join(verif, "evidence", "replay")

	for _, t := range slices.Sorted(maps.Keys(co.knownS)) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, t)
	}

	for _, f := range co.finds {
		viol++

		if seen[f.V.Key] || len(seen) > 8 {
			continue
		}

		seen[f.V.Key] = true

		_ = os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d-%d-%08x.json", p.ID, tier, f.on.seed, f.Case, uint32(hash64(f.V.Key))))
		b, _ := json.MarshalIndent(replayFile{p.ID, tier, f.on.seed, f.Case, f.V.Key, f.V.Msg, f.Trace,
			"./run.sh replay " + path, f.on.arch, f.on.oneCPU}, "", " ")
		_ = os.WriteFile(path, b, 0o644)

		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		fmt.Printf("  case %d, %s: %s\n", f.Case, f.V.Key, clip(f.V.Msg, 1500))
	}

	co.stats.Distinct = co.dist

	cov := map[string]any{
		"evaluations":         co.stats.Evals,
		"distinct_nontrivial": len(co.dist),
		"rule":                p.Rule,
		"cases":               total,
	}

	if len(co.stats.Samples) > 8 {
		co.stats.Samples = co.stats.Samples[:8]
	}

	cov["samples"] = co.stats.Samples
	obs := map[string]int64{}

	for _, k := range co.stats.sorted() {
		obs[k] = co.stats.Counters[k]
	}

	for k, n := range co.cases {
		obs["cases."+k] = n
	}

	cov["observed"] = obs

	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"wall_s": float64(int(time.Since(t0).Seconds()*100)) / 100, "violations": viol,
	}
	if len(p.Assumptions) > 0 {
		ev["assumptions"] = p.Assumptions
	}

	if !single {
		_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)

		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "ERROR", err)

			return 2
		}
	}

	fmt.Printf("%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d violations=%d wall=%.1fs\n",
		p.ID, tier, seed, total, co.stats.Evals, len(co.dist), viol, time.Since(t0).Seconds())

	if viol > 0 {
		return 1
	}

	if len(co.errs) > 0 {
		return 2
	}

	if !single {
		for _, r := range p.Require {
			if co.stats.Counters[r] == 0 {
				fmt.Fprintf(os.Stderr, "INCONCLUSIVE: nothing observed for %q\n", r)

				return 2
			}
		}

		if co.stats.Evals == 0 {
			fmt.Fprintln(os.Stderr, "INCONCLUSIVE: nothing evaluated")

			return 2
		}
	}

	return 0
}

func replay(args []string) int {
	if len(args) < 1 {
		return 2
	}

	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)

		return 2
	}

	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)

		return 2
	}

	return parent(append([]string{r.Property, "-tier=" + r.Tier, fmt.Sprintf("-seed=%d", r.Seed), fmt.Sprintf("-case=%d", r.Case), fmt.Sprintf("-one-cpu=%t", r.OneCPU)}, args[1:]...))
}
