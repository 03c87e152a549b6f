package core

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type event struct {
	T     string     `json:"t"`
	Case  int        `json:"c"`
	Viol  *Violation `json:"v,omitempty"`
	Trace []string   `json:"trace,omitempty"`
	Stats *Stats     `json:"stats,omitempty"`
	Err   string     `json:"err,omitempty"`
}

type workerOut struct {
	mu sync.Mutex
	w  *bufio.Writer
}

func (o *workerOut) emit(e event) {
	o.mu.Lock()
	defer o.mu.Unlock()

	b, _ := json.Marshal(e)
	_, _ = o.w.Write(append(b, '\n'))
	_ = o.w.Flush()
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}

	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func worker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	step := fs.Int("step", 1, "")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	tmp := fs.String("tmp", "", "")
	_ = fs.Parse(args)

	p := registry[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)

		return 2
	}

	if p.MaxAS > 0 {
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: p.MaxAS, Max: p.MaxAS})
	}

	limit := p.CPULimit
	if limit == 0 {
		limit = 60
	}

	if runtime.GOARCH == "386" {
		limit *= 5 // no assembler for most of the cryptography
	}

	// The monitors own the real stdout.
	out := &workerOut{w: bufio.NewWriter(os.Stdout)}
	st := newStats()

	var (
		cur      atomic.Int64
		startCPU atomic.Value
	)

	cur.Store(-1)
	startCPU.Store(0.0)

	dump := func() string {
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)

		return clip(string(buf[:n]), 12000)
	}

	_ = pprof.Profiles

	go func() {
		lastCPU, lastChange, lastCase := 0.0, time.Now(), int64(-1)

		for {
			time.Sleep(500 * time.Millisecond)

			k := cur.Load()
			now := cpuSeconds()

			if k != lastCase || now-lastCPU > 0.2 {
				lastCPU, lastChange, lastCase = now, time.Now(), k
			}

			if k < 0 {
				continue
			}

			if used := now - startCPU.Load().(float64); used > limit {
				out.emit(event{T: "viol", Case: int(k), Viol: &Violation{"stuck:cpu",
					fmt.Sprintf("case still running after %.0f CPU seconds (limit %.0f)\n%s", used, limit, dump())}})
				os.Exit(3)
			}

			if time.Since(lastChange) > 120*time.Second {
				out.emit(event{T: "viol", Case: int(k), Viol: &Violation{"stuck:idle",
					"no CPU time used for 120 s while a case is running: deadlock\n" + dump()}})
				os.Exit(3)
			}
		}
	}()

	for i := *from; i < *to; i += *step {
		c := newCtx(p, *tier, *seed, i, st)
		c.Repo, c.Verif, c.Tmp = *repo, *verif, *tmp

		out.emit(event{T: "start", Case: i})
		startCPU.Store(cpuSeconds())
		cur.Store(int64(i))
		runCase(c, out)
		cur.Store(-1)

		viols, trace := c.recorded()

		for k := range viols {
			e := event{T: "viol", Case: i, Viol: &viols[k]}
			if k == 0 {
				e.Trace = trace
			}

			out.emit(e)
		}

		out.emit(event{T: "end", Case: i})
	}

	st.mu.Lock()
	defer st.mu.Unlock()

	for h := range st.Distinct {
		st.DistinctL = append(st.DistinctL, h)
	}

	out.emit(event{T: "stats", Stats: st})

	return 0
}

func runCase(c *Ctx, out *workerOut) {
	defer func() {
		if e := recover(); e != nil {
			out.emit(event{T: "error", Case: c.Case, Err: fmt.Sprintf("harness panic: %v\n%s", e, stack())})
			os.Exit(4)
		}
	}()

	c.Prop.Run(c)
}

func stack() string {
	b := make([]byte, 1<<14)

	return string(b[:runtime.Stack(b, false)])
}
