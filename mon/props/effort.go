package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"path/filepath"
	"runtime"
	"slices"
	"strings"
	"syscall"

	"github.com/bodgit/sevenzip"

	"verif/mon/core"
	"verif/mon/gen"
	"verif/mon/szw"
)

// C22: the effort stays in proportion.
func init() {
	core.Register(&core.Property{
		ID: "C22", Level: "exploration",
		Rule:     "case = a shape of archive (many streams, one solid stream, many coders, many directories, deep names, equal names, empty streams, repeated properties, decoy signatures, volumes, one long entry per method, streams sharing a key) at a size n and at 16n; the process's CPU time for opening, listing, walking, paging, opening and reading all entries at 16n may be at most 64 times that at n plus 0.2 s (a quadratic step costs 256 times as much), confirmed by a second and third measurement; deriving a shared key again per stream is seen by comparing all streams with the first one. Distinct = (shape, header form, operation) measured.",
		Cases:    tierN(3*len(effortShapes), 12*len(effortShapes)),
		CPULimit: 400,
		Require:  []string{"op.open", "op.walk", "op.stat", "op.page", "op.entries", "op.extract", "op.tiny-reads", "op.skip", "op.handles", "shared-key", "volumes", "decoys", "equal-names", "deep-names", "equal-properties"},
		Run:      runC22,
	})
}

func cpuTime() float64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		panic("szw: getrusage: " + err.Error())
	}

	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

type effortOp struct {
	name string
	f    func() error
}

type effortShape struct {
	name string
	n    int
	prep func(c *core.Ctx, r *rand.Rand, n int) []effortOp
}

const effortFactor = 16

var errNotAll = errors.New("not all entries seen")

// listOps are the operations on an archive of n entries.
// Those named in but are left out.
func listOps(c *core.Ctx, bt *szw.Built, extract bool, but ...string) []effortOp {
	var zr *sevenzip.Reader

	ops := []effortOp{
		{"open", func() (err error) {
			zr, err = open(newImage(bt), "")

			return err
		}},
		{"walk", func() error {
			var paths []string

			_ = fs.WalkDir(zr, ".", func(p string, _ fs.DirEntry, err error) error {
				paths = append(paths, p)

				return err
			})

			if len(paths) == 0 {
				return errNotAll
			}

			return nil
		}},
		{"stat", func() error {
			for _, f := range zr.File {
				if !fs.ValidPath(f.Name) {
					continue
				}

				if _, err := fs.Stat(zr, f.Name); err != nil && !errors.Is(err, fs.ErrNotExist) {
					c.Count("stat-errors", 1)
				}

				_ = f.FileInfo().Mode()
			}

			return nil
		}},
		{"page", func() error {
			d, err := zr.Open(".")
			if err != nil {
				return err
			}

			for {
				if _, err := d.(fs.ReadDirFile).ReadDir(1); err != nil {
					break
				}
			}

			return d.Close()
		}},
	}

	if extract {
		ops = append(ops, effortOp{"entries", func() error {
			for _, f := range zr.File {
				rc, err := f.Open()
				if err != nil {
					return err
				}

				if err := rc.Close(); err != nil {
					return err
				}
			}

			return nil
		}}, effortOp{"extract", func() error {
			for _, f := range zr.File {
				rc, err := f.Open()
				if err != nil {
					return err
				}

				if _, err := io.Copy(io.Discard, rc); err != nil {
					return err
				}

				if err := rc.Close(); err != nil {
					return err
				}
			}

			return nil
		}})
	}

	return slices.DeleteFunc(ops, func(o effortOp) bool { return slices.Contains(but, o.name) })
}

// many is an archive of n entries in streams of per entries each.
func many(r *rand.Rand, n, per int, m func() *szw.Method, name func(i int) string) *szw.Archive {
	a := &szw.Archive{}

	if gen.Chance(r, 2) {
		a.Opts.EncodeHeader = szw.MLZMA(szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 20})
		a.Opts.HeaderCRC = true
	}

	a.Opts.PackCRC = gen.Chance(r, 2)
	a.Opts.ExplicitBits = gen.Chance(r, 2)
	a.Opts.ExplicitIO = gen.Chance(r, 4)

	for i := range n {
		f := &szw.File{Name: name(i), Data: []byte{byte(i)}}

		if r.IntN(2) == 0 {
			t := 132000000000000000 + r.Uint64N(1<<50)
			f.MTime = &t
		}

		if i%per == 0 {
			a.Folders = append(a.Folders, &szw.Folder{Method: m()})
		}

		a.Folders[len(a.Folders)-1].N++
		a.Files = append(a.Files, f)
	}

	return a
}

func flat(i int) string { return fmt.Sprintf("f%07d", i) }

var effortShapes = []effortShape{
	{"separate", 8000, func(c *core.Ctx, r *rand.Rand, n int) []effortOp {
		return listOps(c, many(r, n, 1, szw.MCopy, flat).Build(), true)
	}},
	{"solid", 5000, func(c *core.Ctx, r *rand.Rand, n int) []effortOp {
		return listOps(c, many(r, n, n, szw.MCopy, flat).Build(), true)
	}},
	{"blocks", 12000, func(c *core.Ctx, r *rand.Rand, n int) []effortOp {
		return listOps(c, many(r, n, 8, func() *szw.Method {
			return szw.MDelta(1).Over(szw.MARM())
		}, func(i int) string { return fmt.Sprintf("d%d/e%d/f%d", i/100, i/10, i) }).Build(), true)
	}},
	{"branches", 1000, func(c *core.Ctx, r *rand.Rand, n int) []effortOp {
		return listOps(c, many(r, n, 1, func() *szw.Method {
			return szw.MBCJ2(szw.BCJ2Default)
		}, flat).Build(), true)
	}},
	{"directories", 5000, func(c *core.Ctx, r *rand.Rand, n int) []effortOp {
		a := &szw.Archive{}

		for i := range n {
			f := &szw.File{Name: fmt.Sprintf("%c/%d/x%d", 'a'+i%20, i%500, i), Kind: szw.Dir}
			if gen.Chance(r, 3) {
				f.Kind = szw.Empty
			}

			a.Files = append(a.Files, f)
		}

		return listOps(c, a.Build(), true)
	}},
	{"implied", 2500, func(c *core.Ctx, _ *rand.Rand, n int) []effortOp {
		a := &szw.Archive{}

		for i := range n {
			a.Files = append(a.Files, &szw.File{Name: fmt.Sprintf("p%d/q/r/s", i), Kind: szw.Empty})
		}

		return listOps(c, a.Build(), true)
	}},
	{"equal names", 5000, func(c *core.Ctx, r *rand.Rand, n int) []effortOp {
		c.Count("equal-names", 1)

		return listOps(c, many(r, n, 1+n/2, szw.MCopy, func(i int) string {
			return []string{"same", "same/other", "./same"}[i%3]
		}).Build(), true)
	}},
	{"empty streams", 5000, func(c *core.Ctx, r *rand.Rand, n int) []effortOp {
		a := many(r, 3, 1, szw.MCopy, flat)
		f := a.Folders[2]
		a.Folders = a.Folders[:2]

		for range n {
			a.Folders = append(a.Folders, &szw.Folder{Method: szw.MCopy()})
		}

		a.Folders = append(a.Folders, f)

		return listOps(c, a.Build(), true)
	}},
	{"decoys", 4000, func(c *core.Ctx, r *rand.Rand, n int) []effortOp {
		a := many(r, 10, 2, szw.MCopy, flat)
		a.Opts.Prefix = append([]byte("MZ"), bytes.Repeat(szw.SignatureHeader(4, 0, 0, 0)[:6+r.IntN(6)], n)...)

		if len(a.Opts.Prefix) > 1000000 {
			a.Opts.Prefix = a.Opts.Prefix[:1000000]
		}

		c.Count("decoys", 1)

		return listOps(c, a.Build(), true)
	}},
	{"volumes", 50, func(c *core.Ctx, r *rand.Rand, n int) []effortOp {
		dir := mkdir(c)
		a := many(r, 3000, 1, szw.MCopy, flat)
		names := splitAt(r, filepath.Join(dir, "v.7z"), a.Build().Bytes, n)
		c.Count("volumes", 1)

		var zr *sevenzip.ReadCloser

		return []effortOp{
			{"open", func() (err error) {
				if zr != nil {
					_ = zr.Close()
				}

				zr, err = sevenzip.OpenReader(names[0])

				return err
			}},
			{"extract", func() error {
				for _, f := range zr.File {
					rc, err := f.Open()
					if err != nil {
						return err
					}

					if _, err := io.Copy(io.Discard, rc); err != nil {
						return err
					}

					_ = rc.Close()
				}

				return nil
			}},
			{"close", func() error {
				err := zr.Close()
				zr = nil

				return err
			}},
		}
	}},
	{"equal properties", 4000, func(c *core.Ctx, r *rand.Rand, n int) []effortOp {
		// The property that tells the empty file, time and again
		a := many(r, n, n, szw.MCopy, flat)
		a.Files = slices.Insert(a.Files, r.IntN(n), &szw.File{Name: "empty", Kind: szw.Empty})
		a.Opts.EditRaw = func(b []byte) []byte {
			end := len(b) - 2

			return slices.Concat(b[:end], bytes.Repeat([]byte{0x0f, 1, 0x80}, n), b[end:])
		}
		c.Count("equal-properties", 1)

		return listOps(c, a.Build(), false)
	}},
	{"deep names", 500, func(c *core.Ctx, r *rand.Rand, n int) []effortOp {
		// Twenty entries in a directory n levels down
		dir := strings.Repeat(gen.Pick(r, "a/", "bc/", "é/"), n)
		a := many(r, 20, 7, szw.MCopy, func(i int) string { return dir + flat(i) })
		a.Files[3].Name = "top"
		c.Count("deep-names", 1)

		return listOps(c, a.Build(), true, "walk")
	}},
	{"long entry", 150000, longOps},
	{"long entry", 150000, longOps},
	{"long entry", 150000, longOps},
	{"handles", 2000, func(c *core.Ctx, r *rand.Rand, n int) []effortOp {
		bt := many(r, n, gen.Pick(r, 1, n), szw.MCopy, flat).Build()

		return []effortOp{{"handles", func() error {
			zr, err := open(newImage(bt), "")
			if err != nil {
				return err
			}

			var h []io.ReadCloser

			for i := range min(n, 400) {
				// Only the first ones of a solid block
				rc, err := zr.File[i].Open()
				if err != nil {
					return err
				}

				h = append(h, rc)
			}

			for range n {
				i := r.IntN(len(h))

				_ = h[i].Close()

				if h[i], err = zr.File[r.IntN(400)].Open(); err != nil {
					return err
				}
			}

			return nil
		}}}
	}},
	{"shared key", 0, nil},
}

// longOps are operations on an entry of n bytes in front of a short one.
func longOps(c *core.Ctx, r *rand.Rand, n int) []effortOp {
	m := gen.Tree(r, &gen.Tune{Cheap: true})
	a := &szw.Archive{
		Files:   []*szw.File{{Name: "long", Data: gen.Content(r, n)}, {Name: "short", Data: []byte("tail")}},
		Folders: []*szw.Folder{{Method: m, N: 2}},
	}
	bt := a.Build()
	c.Trace("%s, %d bytes", m, n)
	c.Distinct("long %s", m)

	read := func(k, size int) func() error {
		return func() error {
			zr, err := open(newImage(bt), "")
			if err != nil {
				return err
			}

			rc, err := zr.File[k].Open()
			if err != nil {
				return err
			}

			b := make([]byte, size)

			for {
				if _, err = rc.Read(b); err != nil {
					break
				}
			}

			if err != io.EOF { //nolint:errorlint
				return err
			}

			return rc.Close()
		}
	}

	return []effortOp{
		{"tiny-reads", read(0, 1+r.IntN(3))},
		{"skip", read(1, 100)},
	}
}

func runC22(c *core.Ctx) {
	s := effortShapes[c.Case%len(effortShapes)]

	if s.prep == nil {
		c.Guard("shared key", func() { sharedKey(c) })

		return
	}

	n := s.n + c.R.IntN(s.n/4)
	if c.Thorough() && s.name != "volumes" && s.name != "decoys" {
		n *= 1 + c.R.IntN(4)
	}

	c.Trace("%s, n=%d and %d", s.name, n, n*effortFactor)

	c.Guard(s.name, func() {
		seed := c.R.Uint64()
		small := s.prep(c, gen.New(seed, 1), n)
		big := s.prep(c, gen.New(seed, 1), n*effortFactor)

		var worst map[string]string

		for try := range 3 {
			bad := map[string]string{}
			base := make([]float64, len(small))

			for range 3 {
				for i, op := range small {
					t, ok := effort(c, s.name, op)
					if !ok {
						return
					}

					base[i] += t / 3
				}
			}

			for i, op := range big {
				t, ok := effort(c, s.name, op)
				if !ok {
					return
				}

				if limit := 4*effortFactor*base[i] + 0.2; t > limit {
					bad[op.name] = fmt.Sprintf("%s: %.3f CPU seconds at n=%d but %.3f at n=%d (limit %.3f)", op.name, base[i], n, t, n*effortFactor, limit)
				}

				c.Eval(1)
				c.Count("op."+op.name, 1)
				c.Distinct("%s %s %d", s.name, op.name, seed)

				if s.name != "long entry" {
					c.Sample("%s: %s takes %.4f s at n=%d and %.4f s at n=%d", s.name, op.name, base[i], n, t, n*effortFactor)
				}
			}

			if try > 0 {
				for k := range worst {
					if bad[k] == "" {
						delete(worst, k)
					}
				}
			} else {
				worst = bad
			}

			if len(worst) == 0 {
				return
			}
		}

		for k, v := range worst {
			c.Fail("superlinear:"+s.name+":"+k, "%s", v)
		}
	})
}

func effort(c *core.Ctx, shape string, op effortOp) (float64, bool) {
	runtime.GC()

	t := cpuTime()
	err := op.f()
	t = cpuTime() - t

	if err != nil {
		c.Fail("error", "%s: %s: %v", shape, op.name, err)

		return 0, false
	}

	return t, true
}

// sharedKey: streams with the same key derivation parameters derive it once.
func sharedKey(c *core.Ctx) {
	r := c.R
	o := gen.AES(r, fmt.Sprintf("pw%d", r.Uint64()))
	o.Cycles = 18 + r.IntN(2)

	if c.Case/len(effortShapes)%2 == 0 {
		o.Salt = nil // as 7-Zip does
	}

	a := many(r, 60, 1, func() *szw.Method {
		o.IV = make([]byte, 1+r.IntN(16))
		for i := range o.IV {
			o.IV[i] = byte(r.IntN(256))
		}

		return szw.MAES(o)
	}, flat)
	a.Opts.EncodeHeader = nil
	bt := a.Build()
	c.Trace("60 streams, rounds 2^%d, salt of %d bytes", o.Cycles, len(o.Salt))

	zr, err := open(newImage(bt), o.Password)
	if err != nil {
		c.Fail("error", "open: %v", err)

		return
	}

	ops := make([]float64, 0, 60)

	for i, f := range zr.File {
		t, ok := effort(c, "shared key", effortOp{"extract", func() error {
			rc, err := f.Open()
			if err != nil {
				return err
			}

			b, err := io.ReadAll(rc)
			if err != nil {
				return err
			}

			if !bytes.Equal(b, a.Files[i].Data) {
				c.Fail("wrong-data", "entry %d: %x", i, b)
			}

			return rc.Close()
		}})
		if !ok {
			return
		}

		ops = append(ops, t)
	}

	rest := 0.0
	for _, t := range ops[1:] {
		rest += t
	}

	if rest > 8*ops[0]+0.3 {
		c.Fail("key-derived-again", "the first entry took %.3f CPU seconds, the other %d with the same key parameters %.3f", ops[0], len(ops)-1, rest)
	}

	c.Eval(1)
	c.Count("shared-key", 1)
	c.Distinct("key %d %d", o.Cycles, len(o.Salt))
	c.Sample("60 streams with one key: first %.3f s, the others %.3f s", ops[0], rest)
}
