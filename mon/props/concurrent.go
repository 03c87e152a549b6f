package props

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/bodgit/sevenzip"

	"verif/mon/core"
	"verif/mon/gen"
	"verif/mon/szw"
)

// C04: concurrent use.
func init() {
	core.Register(&core.Property{
		ID: "C04", Level: "exploration",
		Rule:    "case = 1 to 12 archives used by 2 to 16 goroutines at once under the race detector, with yields and sleeps injected into the storage and between operations and GOMAXPROCS varied: opening, reading (whole, partly, held open and resumed), closing, in-order extraction of the same solid stream, listing, file-system calls (the first ones included), opening further readers on the same storage or file, registering decompressors and using them, encrypted archives with more keys than the key cache holds, damaged streams in between; every goroutine compares what it gets with what the archive's writer recorded. Goroutines share nothing of the harness that would order them. Distinct = distinct interleavings of operations (goroutine and operation in order of time).",
		Cases:   tierN(280, 4000),
		Require: []string{"interleavings", "switches", "ops", "op.read", "op.partial", "op.hold", "op.inorder", "op.list", "op.walk", "op.fsopen", "op.reopen", "op.register", "op.file", "aes-mode", "hot-mode", "pools-mode", "fs-mode", "damaged", "yields"},
		Run:     runC04, CPULimit: 400, Workers: 5,
		Assumptions: []string{"the race detector sees only the accesses of the schedules that ran", "goroutine schedules are not reproducible from the seed; a replay repeats the workload"},
	})
}

// yieldReader is storage that gives other goroutines a chance. It must not
// synchronise its users, else it would hide races from the detector.
type yieldReader struct {
	b    []byte
	rate uint64
}

func (y *yieldReader) ReadAt(p []byte, off int64) (int, error) {
	y.pause(uint64(off))

	if off < 0 || off >= int64(len(y.b)) {
		return 0, io.EOF
	}

	n := copy(p, y.b[off:])
	if n < len(p) {
		return n, io.EOF
	}

	return n, nil
}

func (y *yieldReader) pause(k uint64) {
	if y.rate == 0 {
		return
	}

	h := (uint64(time.Now().UnixNano()) ^ k*0x9e3779b97f4a7c15) * 0xbf58476d1ce4e5b9 >> 20

	switch {
	case h%(64*y.rate) == 0:
		time.Sleep(time.Duration(h>>8%100) * time.Microsecond)
	case h%y.rate == 0:
		runtime.Gosched()
	}
}

type carch struct {
	a     *szw.Archive
	b     []byte
	pw    string
	im    *yieldReader
	want  [][]byte
	bad   map[int]bool // damaged folders
	fold  []int        // folder of each entry, -1 without
	solid [][]int      // entries of each folder in order
	ref   []listed
	walk  string
	paths []string // of entries that the file system shows, by entry
	zr    *sevenzip.Reader
	file  string
}

func (x *carch) open() (*sevenzip.Reader, error) {
	if x.pw != "" {
		return sevenzip.NewReaderWithPassword(x.im, int64(len(x.b)), x.pw)
	}

	return sevenzip.NewReader(x.im, int64(len(x.b)))
}

func walkString(fsys fs.FS) string {
	var b strings.Builder

	_ = fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			fmt.Fprintf(&b, "%s: %v\n", p, err)

			return nil
		}

		fi, err := d.Info()
		if err != nil {
			fmt.Fprintf(&b, "%s: info %v\n", p, err)

			return nil
		}

		fmt.Fprintf(&b, "%s %s\n", p, fs.FormatFileInfo(fi))

		return nil
	})

	return b.String()
}

// goroutine is what one goroutine of a case keeps for itself.
type goroutine struct {
	id     int
	r      *rand.Rand
	log    []opEvent
	counts map[string]int64
	evals  int
	held   []*heldFile
	fails  []string
}

type opEvent struct {
	t  int64
	g  int
	op byte
}

type heldFile struct {
	x   *carch
	i   int
	rc  io.ReadCloser
	pos int
}

func (g *goroutine) fail(key, format string, a ...any) {
	if len(g.fails) < 5 {
		g.fails = append(g.fails, key+"\x00"+fmt.Sprintf("goroutine %d: ", g.id)+fmt.Sprintf(format, a...))
	}
}

func (g *goroutine) event(op byte, name string) {
	g.log = append(g.log, opEvent{time.Now().UnixNano(), g.id, op})
	g.counts["op."+name]++
	g.counts["ops"]++
}

func runC04(c *core.Ctx) {
	r := c.R
	mode := []string{"mix", "hot", "aes", "pools", "fs"}[c.Case%5]
	c.Count(mode+"-mode", 1)

	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(gen.Pick(r, 2, 4, 8, 16)))

	n := 1 + r.IntN(3)
	t := gen.ArchTune{MaxFile: 7000, MaxFiles: 8, MaxFolders: 3, PlainNames: true}
	t.Cheap = true

	switch mode {
	case "hot":
		n = 1
		t.MaxFile, t.MaxFiles, t.MaxFolders = 3000, 16, 1
	case "aes":
		n = 6 + r.IntN(7)
		t.MaxFile, t.MaxFiles, t.MaxFolders = 600, 4, 2
	case "pools":
		n = 1 + r.IntN(4)
		t.MaxFolders = 5
	case "fs":
		t.MaxFile, t.MaxFiles = 300, 20
	}

	rate := uint64(gen.Pick(r, 0, 2, 5, 20))
	if rate > 0 {
		c.Count("yields", 1)
	}

	var all []*carch

	for k := range n {
		tt := t

		switch mode {
		case "aes":
			tt.Password = fmt.Sprintf("pw%d-%d", c.Case, k%gen.Pick(r, 1, 3, 12))
			tt.OneCoder = func(r *rand.Rand) *szw.Method {
				m := szw.MAES(gen.AES(r, tt.Password))
				if r.IntN(2) == 0 {
					m = gen.Compressor(r, &gen.Tune{Cheap: true, MaxDict: 1 << 14}).Over(m)
				}

				return m
			}
		case "pools":
			seed := r.Uint64()
			tt.OneCoder = func(r *rand.Rand) *szw.Method {
				for {
					m := gen.Compressor(gen.New(seed, r.Uint64N(3)), &gen.Tune{MaxDict: 1 << 16})
					seed++

					switch m.Name, _, _ = strings.Cut(m.Name, ":"); m.Name {
					case "Zstd", "LZ4", "Deflate", "Brotli", "Bzip2":
						return m
					}
				}
			}
		}

		x := &carch{bad: map[int]bool{}}
		x.a, x.pw = drawArchive(c, tt)
		x.a.Opts.PackGapVirtual = false
		x.a.Opts.PackGap = min(x.a.Opts.PackGap, 1000)

		if mode == "aes" {
			x.pw = tt.Password
		}

		if mode == "hot" {
			x.a.Folders[0].N = 0

			for _, f := range x.a.Files {
				if f.Kind == szw.Stream {
					x.a.Folders[0].N++
				}
			}
		}

		bt := x.a.Build()
		x.b = bt.Bytes
		x.want = wantData(x.a)
		x.im = &yieldReader{x.b, rate}

		if len(bt.FolderPack) > 1 && r.IntN(3) == 0 && x.a.Opts.EncodeHeader == nil {
			bad := r.IntN(len(bt.FolderPack))
			x.bad[bad] = true

			c.Count("damaged", 1)

			for _, rg := range bt.FolderPack[bad] {
				for o := rg.Off; o < rg.Off+rg.Len; o++ {
					if r.IntN(20) == 0 {
						x.b[o] ^= byte(1 + r.IntN(255))
					}
				}
			}
		}

		of := folderOf(x.a)
		x.solid = make([][]int, len(x.a.Folders))

		for i, f := range x.a.Files {
			k := -1

			if f.Kind == szw.Stream {
				k = of[f]
				x.solid[k] = append(x.solid[k], i)
			}

			x.fold = append(x.fold, k)
		}

		noteArchive(c, x.a)
		all = append(all, x)
	}

	c.Trace("mode %s, %d archives, rate %d", mode, n, rate)

	for _, x := range all {
		c.Trace("%s bad=%v pw=%q", describe(x.a), x.bad, x.pw)
	}

	c.Sample("mode %s, %d archives, first %s", mode, n, describe(all[0].a))

	ok := c.Guard("alone", func() {
		for k, x := range all {
			ref, err := x.open()
			if err != nil {
				c.Fail("archive-error", "%v", err)

				return
			}

			if len(ref.File) != len(x.want) {
				c.Fail("file-count", "%d entries, want %d", len(ref.File), len(x.want))

				return
			}

			x.ref = listing(ref)
			x.walk = walkString(ref)

			for i, f := range x.a.Files {
				p := ""
				if x.fold[i] >= 0 || f.Kind == szw.Empty {
					p = modelPath(f.Name)
				}

				x.paths = append(x.paths, p)
			}

			if x.zr, err = x.open(); err != nil { // the shared one, nothing of it used yet
				c.Fail("archive-error", "%v", err)

				return
			}

			if mode == "mix" || r.IntN(3) == 0 {
				x.file = filepath.Join(c.Tmp, fmt.Sprintf("c%d-%d.7z", c.Case, k))
				put(x.file, x.b)
			}
		}
	})
	if !ok || c.Failed() {
		return
	}

	defer func() {
		for _, x := range all {
			if x.file != "" {
				_ = os.Remove(x.file)
			}
		}
	}()

	// Archives whose coder gets registered during the run
	workers := 2 + r.IntN(15)

	var (
		regIDs  [][]byte
		regArch [][]byte
	)

	for g := range workers + 1 {
		id := customID(c, g)
		a := &szw.Archive{Files: []*szw.File{{Name: "x", Data: []byte(fmt.Sprintf("contents %d", g))}}, Folders: []*szw.Folder{{Method: identity("Custom", id), N: 1}}}
		regIDs = append(regIDs, id)
		regArch = append(regArch, a.Build().Bytes)
	}

	var (
		start = make(chan struct{})
		wg    sync.WaitGroup
		gs    []*goroutine
	)

	steps := 12 + r.IntN(20)

	for k := range workers {
		g := &goroutine{id: k, r: gen.New(r.Uint64(), uint64(k)), counts: map[string]int64{}}
		gs = append(gs, g)

		wg.Add(1)

		go func() {
			defer wg.Done()

			<-start

			c.Guard(fmt.Sprintf("goroutine %d", k), func() {
				for range steps {
					if len(g.fails) > 0 {
						break
					}

					g.step(mode, all, regIDs, regArch)

					switch g.r.IntN(12) {
					case 0:
						runtime.Gosched()
					case 1:
						time.Sleep(time.Duration(g.r.IntN(60)) * time.Microsecond)
					}
				}

				for _, h := range g.held {
					_ = h.rc.Close()
				}
			})
		}()
	}

	close(start)
	wg.Wait()

	var log []opEvent

	for _, g := range gs {
		for _, f := range g.fails {
			key, msg, _ := strings.Cut(f, "\x00")
			c.Fail(key, "%s", msg)
		}

		for k, v := range g.counts {
			c.Count(k, v)
		}

		c.Eval(g.evals)

		log = append(log, g.log...)
	}

	sort.SliceStable(log, func(i, j int) bool { return log[i].t < log[j].t })

	h := fnv.New64a()

	for i, e := range log {
		_, _ = h.Write([]byte{byte(e.g), e.op})

		if i > 0 && log[i-1].g != e.g {
			c.Count("switches", 1)
		}
	}

	c.Distinct("%x", h.Sum64())
	c.Count("interleavings", 1)

	if c.Failed() {
		return
	}

	c.Guard("afterwards", func() {
		for _, x := range all {
			for i, f := range x.zr.File {
				if x.fold[i] < 0 || !x.bad[x.fold[i]] {
					checkFile(c, "afterwards", f, i, x.want[i], fixed(4000))
				}
			}

			if w := walkString(x.zr); w != x.walk {
				c.Fail("walk-differs", "afterwards: %q, want %q", w, x.walk)
			}
		}
	})
}

func (g *goroutine) step(mode string, all []*carch, regIDs, regArch [][]byte) {
	r := g.r
	x := all[r.IntN(len(all))]
	i := r.IntN(len(x.want))
	op := r.IntN(12)

	if mode == "hot" && op > 5 {
		op = r.IntN(5)
	}

	if mode == "fs" && op < 6 {
		op = 6 + r.IntN(3)
	}

	switch op {
	case 0, 1:
		g.event('r', "read")
		g.whole("read", x, x.zr.File[i].Open, i)
	case 2:
		g.event('p', "partial")
		g.partial(x, i)
	case 3:
		g.event('h', "hold")

		if len(g.held) > 0 && (len(g.held) > 3 || r.IntN(2) == 0) {
			k := r.IntN(len(g.held))
			g.resume(g.held[k])

			if r.IntN(2) == 0 {
				if err := g.held[k].rc.Close(); err != nil && !g.held[k].x.isBad(g.held[k].i) {
					g.fail("close-error", "%v", err)
				}

				g.held = append(g.held[:k], g.held[k+1:]...)
			}

			return
		}

		rc, err := x.zr.File[i].Open()
		if err != nil {
			if !x.isBad(i) {
				g.fail("open-error", "file %d: %v", i, err)
			}

			return
		}

		h := &heldFile{x, i, rc, 0}
		g.held = append(g.held, h)
		g.resume(h)
	case 4, 5:
		g.event('s', "inorder")

		ent := x.solid[r.IntN(len(x.solid))]
		for _, i := range ent {
			if len(g.fails) > 0 {
				return
			}

			if r.IntN(4) == 0 {
				g.partial(x, i)
			} else {
				g.whole("in order", x, x.zr.File[i].Open, i)
			}
		}
	case 6:
		g.event('l', "list")

		if d := sameListing(x.ref, listing(x.zr)); d != "" {
			g.fail("listing-differs", "%s", d)
		}

		g.evals++
	case 7:
		g.event('w', "walk")

		if w := walkString(x.zr); w != x.walk {
			g.fail("walk-differs", "%q, want %q", w, x.walk)
		}

		g.evals++
	case 8:
		g.event('f', "fsopen")

		if x.paths[i] == "" {
			if _, err := x.zr.Open("no/such/path"); !errors.Is(err, fs.ErrNotExist) {
				g.fail("missing-path", "%v", err)
			}

			return
		}

		g.whole("fs", x, func() (io.ReadCloser, error) { return x.zr.Open(x.paths[i]) }, i)
	case 9:
		g.event('o', "reopen")

		zr, err := x.open()
		if err != nil {
			g.fail("archive-error", "%v", err)

			return
		}

		g.whole("new reader", x, zr.File[i].Open, i)
	case 10:
		g.event('g', "register")

		k := g.id + 1
		if r.IntN(3) == 0 {
			k = 0 // several register the same method
		}

		sevenzip.RegisterDecompressor(regIDs[k], func(_ []byte, _ uint64, in []io.ReadCloser) (io.ReadCloser, error) { return in[0], nil })

		zr, err := sevenzip.NewReader(bytes.NewReader(regArch[k]), int64(len(regArch[k])))
		if err != nil {
			g.fail("archive-error", "%v", err)

			return
		}

		b, err := fs.ReadFile(zr, "x")
		if err != nil || string(b) != fmt.Sprintf("contents %d", k) {
			g.fail("registered", "%v, %q", err, b)
		}

		g.evals++
	default:
		if x.file == "" {
			g.event('r', "read")
			g.whole("read", x, x.zr.File[i].Open, i)

			return
		}

		g.event('O', "file")

		zr, err := sevenzip.OpenReaderWithPassword(x.file, x.pw)
		if err != nil {
			g.fail("archive-error", "%v", err)

			return
		}

		if v := zr.Volumes(); len(v) != 1 || v[0] != x.file {
			g.fail("volumes", "%q", v)
		}

		g.whole("file", x, zr.File[i].Open, i)

		if err := zr.Close(); err != nil {
			g.fail("close-error", "archive: %v", err)
		}
	}
}

func (x *carch) isBad(i int) bool { return x.fold[i] >= 0 && x.bad[x.fold[i]] }

func (g *goroutine) whole(what string, x *carch, open func() (io.ReadCloser, error), i int) {
	rc, err := open()
	if err != nil {
		if !x.isBad(i) {
			g.fail("open-error", "%s: file %d: %v", what, i, err)
		}

		return
	}

	d := drain(rc, readSizes(g.r), int64(len(x.want[i]))+1<<16)
	g.evals++

	if !x.isBad(i) {
		switch {
		case d.bad != "" || d.err != nil:
			g.fail("read-error", "%s: file %d at %d of %d: %v %s", what, i, len(d.data), len(x.want[i]), d.err, d.bad)
		case !bytes.Equal(d.data, x.want[i]):
			g.fail("wrong-data", "%s: file %d: %s", what, i, diff(d.data, x.want[i]))
		}
	} else if len(d.data) > len(x.want[i]) {
		g.fail("too-much", "%s: damaged file %d: %d of %d bytes", what, i, len(d.data), len(x.want[i]))
	}

	if err := rc.Close(); err != nil && !x.isBad(i) {
		g.fail("close-error", "%s: file %d: %v", what, i, err)
	}
}

func (g *goroutine) partial(x *carch, i int) {
	rc, err := x.zr.File[i].Open()
	if err != nil {
		if !x.isBad(i) {
			g.fail("open-error", "file %d: %v", i, err)
		}

		return
	}

	h := &heldFile{x, i, rc, 0}
	g.resume(h)

	if err := rc.Close(); err != nil && !x.isBad(i) {
		g.fail("close-error", "file %d at %d: %v", i, h.pos, err)
	}
}

// resume reads some more of an open entry.
func (g *goroutine) resume(h *heldFile) {
	w := h.x.want[h.i]
	b := make([]byte, g.r.IntN(len(w)-h.pos+1))
	n, err := io.ReadFull(h.rc, b)
	g.evals++

	if h.pos+n > len(w) {
		g.fail("too-much", "file %d: %d of %d bytes", h.i, h.pos+n, len(w))

		return
	}

	if !h.x.isBad(h.i) && (err != nil || !bytes.Equal(b[:n], w[h.pos:h.pos+n])) {
		g.fail("wrong-data", "file %d at %d: %v, %s", h.i, h.pos, err, diff(b[:n], w[h.pos:h.pos+n]))
	}

	h.pos += n
}
