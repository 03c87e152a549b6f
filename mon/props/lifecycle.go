package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/bodgit/sevenzip"

	"verif/mon/core"
	"verif/mon/gen"
	"verif/mon/szw"
)

// C18: ownership and release of decoders, files and goroutines.
func init() {
	core.Register(&core.Property{
		ID: "C18", Level: "exploration",
		Rule:    "case = archives in which a monitoring coder sits above and below every built-in coder and records construction, use and Close of each instance (use by two goroutines at once, use after Close, Close twice, instances alive), under the race detector: random histories by one or up to 12 goroutines with handles held open, failing constructors of every kind at every place of the coder tree, damaged streams, damaged headers; archives opened by name and as volumes, damaged, cut or with unreadable volumes, with the process's open files compared before and after; and the number of goroutines over repeated extraction. Distinct = distinct (kind, coder trees, history or failure).",
		Cases:   tierN(600, 12000),
		Require: []string{"instances", "uses", "closes", "goroutine-histories", "sequential-histories", "failed-opens", "failed-opens.multi-input", "failed-reads", "failed-seeks", "parked", "evictions", "headers", "failed-headers", "fd-failed-opens", "fd-opens", "fd-volumes", "goroutine-counts"},
		Run:     runC18, CPULimit: 300, Workers: 6,
		Assumptions: []string{"goroutine schedules are not reproducible from the seed; a replay repeats the workload"},
	})
}

// life watches the instances of one coder of an archive.
type life struct {
	c          *core.Ctx
	name       string
	live, made atomic.Int64
	most       atomic.Int64
	pause      bool
}

type lifeReader struct {
	in   io.ReadCloser
	l    *life
	busy atomic.Int32
	done atomic.Bool
	n    int
}

func (l *life) new(_ []byte, _ uint64, in []io.ReadCloser) (io.ReadCloser, error) {
	n := l.live.Add(1)
	l.made.Add(1)
	l.c.Count("instances", 1)

	for {
		m := l.most.Load()
		if n <= m || l.most.CompareAndSwap(m, n) {
			break
		}
	}

	return &lifeReader{in: in[0], l: l}, nil
}

func (r *lifeReader) enter(what string) {
	if !r.busy.CompareAndSwap(0, 1) {
		r.l.c.Fail("shared", "%s: %s while another goroutine uses the decoder", r.l.name, what)
	}

	if r.done.Load() {
		r.l.c.Fail("use-after-close", "%s: %s after Close", r.l.name, what)
	}
}

func (r *lifeReader) Read(p []byte) (int, error) {
	r.enter("Read")
	defer r.busy.Store(0)

	if r.n++; r.l.pause && r.n%3 == 0 {
		runtime.Gosched()
	}

	n, err := r.in.Read(p)

	if r.n&15 == 1 {
		r.l.c.Count("uses", 1)
	}

	return n, err //nolint:wrapcheck
}

func (r *lifeReader) Close() error {
	if !r.busy.CompareAndSwap(0, 1) {
		r.l.c.Fail("closed-in-use", "%s: Close while another goroutine uses the decoder", r.l.name)
	}

	defer r.busy.Store(0)

	if r.done.Swap(true) {
		r.l.c.Fail("closed-twice", "%s: closed twice", r.l.name)

		return nil
	}

	r.l.live.Add(-1)
	r.l.c.Count("closes", 1)

	return r.in.Close() //nolint:wrapcheck
}

// lives is the set of monitors of one archive.
type lives struct {
	c   *core.Ctx
	all []*life
	ids *int
}

// watch puts a monitor above m and below each of its leaves.
func (ls *lives) watch(m *szw.Method, where string) *szw.Method {
	l := &life{c: ls.c, name: where}
	ls.all = append(ls.all, l)
	*ls.ids++
	id := customID(ls.c, *ls.ids)
	sevenzip.RegisterDecompressor(id, l.new)

	w := identity("L", id)

	if m == nil {
		return w
	}

	l.name += " above " + m.Name
	n := *m
	n.Sub = append([]*szw.Method(nil), m.Sub...)

	for k := range n.Sub {
		n.Sub[k] = ls.watch(n.Sub[k], fmt.Sprintf("%s, input %d of %s", where, k, m.Name))
	}

	return w.Over(&n)
}

func (ls *lives) alive() (n int64) {
	for _, l := range ls.all {
		n += l.live.Load()
	}

	return n
}

func (ls *lives) atMost(c *core.Ctx, what string, limit int64) {
	for _, l := range ls.all {
		if n := l.live.Load(); n > limit {
			c.Fail("left-open", "%s: %d decoders of %s left open (%d constructed), at most %d expected", what, n, l.name, l.made.Load(), limit)

			return
		}
	}
}

func runC18(c *core.Ctx) {
	switch c.Case % 6 {
	case 0, 1:
		historyC18(c, c.Case%6 == 1)
	case 2, 3:
		failuresC18(c)
	case 4:
		filesC18(c)
	default:
		if c.Case%12 == 5 {
			goroutinesC18(c)
		} else {
			headersC18(c)
		}
	}
}

func lifeTune(r *rand.Rand) gen.ArchTune {
	t := gen.ArchTune{MaxFile: 3000, MaxFiles: 10, MaxFolders: 3, PlainNames: true, EncHeader: 1}
	t.Cheap = true
	t.MaxDict = 1 << 14

	if r.IntN(5) == 0 {
		t.MaxFile = 30000
		t.MaxFiles, t.MaxFolders = 4, 2
	}

	return t
}

func historyC18(c *core.Ctx, parallel bool) {
	r := c.R
	t := lifeTune(r)

	if gen.Chance(r, 4) {
		t.MaxFile, t.MaxFiles, t.MaxFolders = 600, 40, 1
	}

	if parallel {
		t.MaxFile = min(t.MaxFile, 2000)
		t.MaxFiles = min(t.MaxFiles, 16)
	}

	a, pw := drawArchive(c, t)
	a.Opts.PackGapVirtual = false
	a.Opts.PackGap = min(a.Opts.PackGap, 1000)
	ids := 0

	var per []*lives

	for k, fd := range a.Folders {
		ls := &lives{c: c, ids: &ids}
		fd.Method = ls.watch(fd.Method, fmt.Sprintf("stream %d", k))
		per = append(per, ls)
	}

	bt := a.Build()
	want := wantData(a)
	folder := folderOf(a)
	bad := -1

	if r.IntN(4) == 0 {
		bad = r.IntN(len(a.Folders))

		for _, rg := range bt.FolderPack[bad] {
			for o := rg.Off; o < rg.Off+rg.Len; o++ {
				if r.IntN(30) == 0 {
					bt.Bytes[o] ^= byte(1 + r.IntN(255))
				}
			}
		}

		c.Count("failed-reads", 1)
	}

	c.Trace("%s parallel %v bad %d", describe(a), parallel, bad)
	c.Sample("%s parallel %v", describe(a), parallel)

	workers := 1
	if parallel {
		workers = 2 + r.IntN(11)

		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(gen.Pick(r, 2, 4, 8)))

		for _, ls := range per {
			for _, l := range ls.all {
				l.pause = true
			}
		}

		c.Count("goroutine-histories", 1)
	} else {
		c.Count("sequential-histories", 1)
	}

	zr, err := open(&image{b: bt.Bytes}, pw)
	if err != nil {
		c.Fail("archive-error", "%v", err)

		return
	}

	if len(zr.File) != len(want) {
		c.Fail("file-count", "%d entries, want %d", len(zr.File), len(want))

		return
	}

	var wg sync.WaitGroup

	steps := 20 + r.IntN(50)
	hold := r.IntN(14)
	start := make(chan struct{})

	for k := range workers {
		gr := gen.New(r.Uint64(), uint64(k))

		wg.Add(1)

		go func() {
			defer wg.Done()

			<-start

			c.Guard("history", func() {
				x := &carch{a: a, want: want, zr: zr, bad: map[int]bool{bad: true}}

				for _, f := range a.Files {
					k := -1
					if f.Kind == szw.Stream {
						k = folder[f]
					}

					x.fold = append(x.fold, k)
				}

				g := &goroutine{id: k, r: gr, counts: map[string]int64{}}

				for range steps {
					i := gr.IntN(len(want))

					switch gr.IntN(6) {
					case 0, 1:
						g.whole("read", x, zr.File[i].Open, i)
					case 2, 3:
						g.partial(x, i)
					default:
						if len(g.held) > hold {
							h := gr.IntN(len(g.held))
							_ = g.held[h].rc.Close()
							g.held = append(g.held[:h], g.held[h+1:]...)

							continue
						}

						rc, err := zr.File[i].Open()
						if err != nil {
							if !x.isBad(i) {
								g.fail("open-error", "file %d: %v", i, err)
							}

							continue
						}

						h := &heldFile{x, i, rc, 0}
						g.held = append(g.held, h)
						g.resume(h)
					}
				}

				for _, h := range g.held {
					_ = h.rc.Close()
				}

				for _, f := range g.fails {
					c.Fail("contents", "%s", f)
				}

				c.Eval(g.evals)
			})
		}()
	}

	close(start)
	wg.Wait()

	sig := ""

	for k, ls := range per {
		limit := int64(runtime.NumCPU())
		if a.Folders[k].N < 2 {
			limit = 0
		}

		ls.atMost(c, fmt.Sprintf("after all handles of a history by %d goroutines were closed", workers), limit)

		if ls.alive() > 0 {
			c.Count("parked", 1)
		}

		top := ls.all[0]
		if top.live.Load() == int64(runtime.NumCPU()) {
			c.Count("evictions", 1)
		}

		// All instances of a coder live and die with the stream's
		for _, l := range ls.all {
			if l.live.Load() != top.live.Load() && k != bad {
				c.Fail("half-closed", "stream %d: %d instances of %s alive, but %d of %s", k, l.live.Load(), l.name, top.live.Load(), top.name)
			}
		}

		sig += fmt.Sprintf("%d/%d/%d ", top.made.Load(), top.live.Load(), top.most.Load())
	}

	c.Distinct("%s %v %s", shape(a), parallel, sig)
}

// breakCoder spoils one coder of the tree so that it can't be constructed.
func breakCoder(c *core.Ctx, m *szw.Method, id []byte) string {
	r := c.R

	var nodes []*szw.Method

	var walk func(m *szw.Method)

	walk = func(m *szw.Method) {
		nodes = append(nodes, m)

		for _, s := range m.Sub {
			if s != nil {
				walk(s)
			}
		}
	}

	walk(m)

	n := nodes[r.IntN(len(nodes))]
	enc := n.Enc

	if m.In > 1 || len(nodes) > 0 && nodes[0] != n && n.In > 1 {
		c.Count("failed-opens.multi-input", 1)
	}

	switch k := r.IntN(4); k {
	case 0:
		n.ID = append([]byte{0x7d}, id[1:]...)

		return n.Name + " not registered"
	case 1:
		n.ID = id
		sevenzip.RegisterDecompressor(id, func([]byte, uint64, []io.ReadCloser) (io.ReadCloser, error) { return nil, errPlug })

		return n.Name + " failing"
	case 2: // a coder with properties gets wrong ones
		bad := [][]byte{{0xff, 0xff, 0xff, 0xff, 0xff}, {}, {1}, {0xff}, make([]byte, 40)}[r.IntN(5)]
		ids := [][]byte{szw.IDLZMA, szw.IDLZMA2, szw.IDAES, szw.IDPPMD, szw.IDDelta, szw.IDBCJ2, szw.IDZstd, szw.IDDeflate}

		if n.Name == "L" || r.IntN(2) == 0 {
			n.ID = ids[r.IntN(len(ids))]
		}

		n.Enc = func(d []byte) ([][]byte, []byte) {
			s, _ := enc(d)

			return s, bad
		}

		return fmt.Sprintf("%s: %x with properties %x", n.Name, n.ID, bad)
	default: // a coder with a wrong number of inputs
		n.In++
		n.Sub = append(append([]*szw.Method(nil), n.Sub...), nil)
		n.Enc = func(d []byte) ([][]byte, []byte) {
			s, p := enc(d)

			return append(s, []byte("more")), p
		}

		return n.Name + " with another input"
	}
}

func failuresC18(c *core.Ctx) {
	r := c.R
	ids := 0

	for range 6 {
		t := lifeTune(r)
		t.MaxFolders = 1
		t.MaxFile = 2000

		a, pw := drawArchive(c, t)
		ls := &lives{c: c, ids: &ids}
		fd := a.Folders[0]
		fd.Method = ls.watch(fd.Method, "stream")
		ids++
		what := breakCoder(c, fd.Method, customID(c, ids))

		fd.Permute = nil
		a.Opts.PackGapVirtual = false
		a.Opts.PackGap = 0
		bt := a.Build()

		c.Trace("%s: %s", describe(a), what)

		c.Guard(what, func() {
			zr, err := open(&image{b: bt.Bytes}, pw)
			if err != nil { // the header says too much about a broken coder graph
				return
			}

			opened := false

			for k := range 5 {
				i := r.IntN(len(zr.File))

				rc, err := zr.File[i].Open()
				if err != nil {
					c.Count("failed-opens", 1)
					c.Eval(1)
					ls.atMost(c, fmt.Sprintf("%s, Open failed (%v)", what, err), 0)
				} else if a.Files[i].Kind == szw.Stream {
					// Some of the wrong properties are only noticed later
					opened = true
					d := drain(rc, fixed(500), 1<<20)

					if d.err != nil {
						c.Count("failed-reads", 1)
					}

					_ = rc.Close()

					if d.err != nil && k == 0 {
						ls.atMost(c, fmt.Sprintf("%s, Read failed (%v) and closed", what, d.err), 0)
					}

					limit := int64(runtime.NumCPU())
					if a.Folders[0].N < 2 {
						limit = 0
					}

					ls.atMost(c, what, limit)

					if limit > 0 {
						return // parked ones would be taken for leaks
					}
				}
			}

			if !opened && ls.alive() != 0 {
				c.Fail("left-open", "%s: %d decoders left open", what, ls.alive())
			}
		})

		c.Distinct("%s %s", shape(a), what)
	}

	// A stream that fails while the entries in front are skipped
	t := lifeTune(r)
	t.MaxFolders = 1
	a := &szw.Archive{Folders: []*szw.Folder{{N: 3}}}

	m := gen.Pick(r, szw.MZstd(1, 1), szw.MLZMA(szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 14}), szw.MDeflate(6), szw.MLZ4(4<<16, false), szw.MBzip2(1000), szw.MBrotli(3, true), szw.MLZMA2(szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 14}))
	if r.IntN(2) == 0 {
		m = gen.Filter(r).Over(m)
	}

	ls := &lives{c: c, ids: &ids}
	a.Folders[0].Method = ls.watch(m, "stream")

	for k := range 3 {
		a.Files = append(a.Files, &szw.File{Name: fmt.Sprint(k), Data: gen.ContentKind(r, 2000+r.IntN(3000), 1)})
	}

	bt := a.Build()
	rg := bt.FolderPack[0][0]

	for o := rg.Off + rg.Len/4; o < rg.Off+rg.Len; o++ {
		bt.Bytes[o] = byte(r.Uint32())
	}

	c.Guard("skip", func() {
		zr, err := open(&image{b: bt.Bytes}, "")
		if err != nil {
			c.Fail("archive-error", "%v", err)

			return
		}

		for range 3 {
			rc, err := zr.File[2].Open()
			if err != nil {
				c.Count("failed-seeks", 1)
				c.Eval(1)
				ls.atMost(c, fmt.Sprintf("Open failed while skipping (%v)", err), 0)

				continue
			}

			d := drain(rc, fixed(300), 1<<20)
			_ = rc.Close()

			if d.err != nil || d.eof {
				ls.atMost(c, fmt.Sprintf("closed after %v", d.err), 0)
			}
		}
	})
}

func headersC18(c *core.Ctx) {
	r := c.R
	ids := 0

	for range 8 {
		t := lifeTune(r)
		t.MaxFile = 200
		a, pw := drawArchive(c, t)
		a.Opts.PackGapVirtual = false
		a.Opts.PackGap = 0
		ls := &lives{c: c, ids: &ids}

		m := gen.Tree(r, &t.Tune)
		for m.In != 1 || encryptedTree(m) {
			m = gen.Tree(r, &t.Tune)
		}

		what := ""
		a.Opts.EncodeHeader = ls.watch(m, "header")
		a.Opts.HeaderCRC = true

		if r.IntN(2) == 0 {
			ids++
			what = breakCoder(c, a.Opts.EncodeHeader, customID(c, ids))
		}

		bt := a.Build()
		b := bt.Bytes

		if what == "" && r.IntN(2) == 0 {
			for _, rg := range bt.Regions {
				if rg.Name == "hdrpack" && rg.Len > 0 {
					b[rg.Off+r.Int64N(rg.Len)] ^= byte(1 + r.IntN(255))
				}
			}

			what = "damaged"
		}

		c.Trace("%s: %s", describe(a), what)

		c.Guard("header", func() {
			_, err := open(&image{b: b}, pw)

			c.Eval(1)
			c.Count("headers", 1)

			if err != nil {
				c.Count("failed-headers", 1)
			}

			if err != nil && what == "" {
				c.Fail("archive-error", "%v", err)
			}

			ls.atMost(c, fmt.Sprintf("opening with header coders %s %s: %v", m, what, err), 0)
		})

		c.Distinct("header %s %s", m, what)
	}
}

// filesC18 compares the open files around successful and failing opens.
func filesC18(c *core.Ctx) {
	r := c.R
	dir := mkdir(c)

	defer os.RemoveAll(dir)

	for k := range 12 {
		t := lifeTune(r)
		t.MaxFile = 500
		t.EncHeader = r.IntN(3)
		a, pw := drawArchive(c, t)
		a.Opts.PackGapVirtual = false
		a.Opts.PackGap = min(a.Opts.PackGap, 1000)
		bt := a.Build()
		b := bt.Bytes
		what := ""

		switch r.IntN(6) {
		case 0:
			b = b[:r.IntN(len(b))]
			what = "cut"
		case 1:
			b = append([]byte(nil), b...)
			b[r.IntN(min(len(b), 32))] ^= byte(1 + r.IntN(255))
			what = "start header damaged"
		case 2:
			b = append([]byte(nil), b...)
			b[int(bt.HeaderOff)+r.IntN(int(bt.HeaderLen))] ^= byte(1 + r.IntN(255))
			what = "header damaged"
		case 3:
			b = mangle(r, b, 1+r.IntN(4))
			what = "mangled"
		case 4:
			pw = "wrong" + pw
		}

		base := filepath.Join(dir, fmt.Sprintf("f%d.7z", k))
		name := base

		if len(b) > 3 && r.IntN(2) == 0 {
			c.Count("fd-volumes", 1)

			names := splitAt(r, base, b, 2+r.IntN(4))
			name = names[0]

			switch r.IntN(6) {
			case 0:
				_ = os.Remove(names[len(names)-1])
				what += " volume missing"
			case 1:
				last := names[len(names)-1]
				_ = os.Remove(last)
				_ = os.Mkdir(last, 0o755)
				what += " volume is a directory"
			case 2: // a volume that can't be opened, for a reason other than its absence
				last := names[len(names)-1]
				_ = os.Remove(last)
				_ = os.Symlink(last, last)
				what += " volume can't be opened"
			}
		} else {
			put(base, b)

			switch r.IntN(12) {
			case 0:
				name = filepath.Join(dir, "absent.7z")
				what += " absent"
			case 1:
				name = dir
				what += " directory"
			}
		}

		c.Trace("%s %s", describe(a), what)

		c.Guard("files", func() {
			arc, err := sevenzip.OpenReaderWithPassword(name, pw)

			c.Eval(1)

			if err != nil {
				c.Count("fd-failed-opens", 1)
				noFDs(c, fmt.Sprintf("opening (%s) failed with %v", what, err), dir)

				return
			}

			c.Count("fd-opens", 1)

			for _, f := range arc.File {
				if r.IntN(2) == 0 {
					continue
				}

				if rc, err := f.Open(); err == nil {
					_, _ = io.CopyN(io.Discard, rc, int64(r.IntN(400)))

					if r.IntN(3) > 0 {
						_ = rc.Close()
					}
				}
			}

			_ = arc.Close()

			noFDs(c, fmt.Sprintf("archive (%s) closed", what), dir)
		})

		c.Distinct("files %s %s %v", shape(a), what, name == base)
	}
}

// goroutinesC18 counts goroutines over repeated extraction.
func goroutinesC18(c *core.Ctx) {
	r := c.R
	a := &szw.Archive{}

	for k := range 3 {
		m := gen.Pick(r, szw.MZstd(1, 1+r.IntN(3)), szw.MZstd(3, 1), szw.MLZ4(4<<16, false), szw.MBrotli(3, true), szw.MDeflate(6), szw.MLZMA2(szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 14}))
		if k == 0 {
			m = szw.MZstd(1, 1)
		}

		n := 1 + r.IntN(5)
		a.Folders = append(a.Folders, &szw.Folder{Method: m, N: n})

		for range n {
			a.Files = append(a.Files, &szw.File{Name: fmt.Sprint(len(a.Files)), Data: gen.ContentKind(r, r.IntN(150000), 1+r.IntN(2))})
		}
	}

	bt := a.Build()
	bad := bytes.Clone(bt.Bytes)
	rg := bt.FolderPack[0][0]

	for o := rg.Off + rg.Len/2; o < rg.Off+rg.Len; o++ {
		bad[o] ^= byte(r.Uint32())
	}

	c.Trace("%s", describe(a))

	// settled is the number of goroutines once those that end have ended
	settled := func(want int) int {
		n := runtime.NumGoroutine()

		for k := 0; k < 150 && n > want; k++ {
			if k%5 == 0 {
				runtime.GC()
			}

			time.Sleep(20 * time.Millisecond)

			n = runtime.NumGoroutine()
		}

		return n
	}

	round := func(times int) error {
		for range times {
			for _, b := range [][]byte{bt.Bytes, bad} {
				zr, err := open(&image{b: b}, "")
				if err != nil {
					return err
				}

				for i, f := range zr.File {
					rc, err := f.Open()
					if err != nil {
						continue
					}

					if (i+times)%2 == 0 {
						_, _ = io.Copy(io.Discard, rc)
					} else {
						_, _ = io.CopyN(io.Discard, rc, int64(1+len(a.Files[i].Data)/3))
					}

					if err := rc.Close(); err != nil && len(b) == 0 {
						return err
					}
				}
			}
		}

		return nil
	}

	c.Guard("goroutines", func() {
		if err := errors.Join(round(2)); err != nil {
			c.Fail("archive-error", "%v", err)

			return
		}

		before := settled(2)

		if err := round(8); err != nil {
			c.Fail("archive-error", "%v", err)

			return
		}

		// The streams given up half-way wait for a reuse or the collector
		limit := before + 6
		if n := settled(limit); n > limit {
			buf := make([]byte, 1<<16)
			c.Fail("goroutines", "%d goroutines after 16 more extractions, %d before\n%s", n, before, buf[:min(4000, runtime.Stack(buf, true))])
		}

		c.Eval(1)
		c.Count("goroutine-counts", 1)
		c.Distinct("goroutines %s", shape(a))
	})
}
