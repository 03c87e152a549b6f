package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"time"

	"github.com/bodgit/sevenzip"
	"github.com/pierrec/lz4/v4"

	"verif/mon/core"
	"verif/mon/gen"
	"verif/mon/szw"
)

// C23: memory does not grow with use.
func init() {
	core.Register(&core.Property{
		ID: "C23", Level: "exploration",
		Rule:    "case = a use repeated many times (opening, reading, failing on, abandoning, closing entries or archives in all ways, with ever new passwords, names, handles and goroutines, on several processors and on one) with the live heap measured by full garbage collections after a warm-up and after each of up to six further rounds, not all of which may have grown by more than 48 bytes per repetition (16 KiB at least; 1 MiB for long entries abandoned half read); or one long entry per method read, copied out or skipped with the live heap measured again and again on the way, which may never exceed the decoder's window by more than 4 MiB while 9 to 28 MiB pass through. Distinct = distinct (use, archive) or (method, way of reading).",
		Cases:   tierN(2*len(memUses)+len(memMethods), 20*len(memUses)+6*len(memMethods)),
		Require: []string{"uses", "use.reread", "use.partly", "use.archives", "use.abandoned", "use.one-processor", "use.named", "use.passwords", "use.damaged", "use.storage", "use.malformed", "use.fs", "use.lookups", "use.goroutines", "use.handles", "measurements", "stream.read", "stream.copy", "stream.skip", "stream.packed-header"},
		Run:     runC23, CPULimit: 300,
	})
}

// liveHeap is what remains in use after collecting garbage, pools included.
func liveHeap() int64 {
	var ms runtime.MemStats

	for range 4 {
		runtime.GC()
		time.Sleep(time.Millisecond) // finalizers
	}

	runtime.ReadMemStats(&ms)

	return int64(ms.HeapAlloc)
}

type memUse struct {
	name   string
	rounds int
	// prep returns the use to repeat; k counts the repetitions
	prep func(c *core.Ctx, a *szw.Archive, pw string) func(k int)
}

func memArchive(c *core.Ctx, password string) *szw.Archive {
	t := gen.ArchTune{MaxFile: 3000, MaxFiles: 4, MaxFolders: 3}
	t.MaxDict, t.NoPPMd, t.Password = 1<<13, true, password
	a := gen.Archive(c.R, &t)

	if len(a.Opts.Prefix) > 5000 {
		a.Opts.Prefix = a.Opts.Prefix[:0]
	}

	return a
}

// useEntry opens an entry and reads at most n bytes of it.
func useEntry(f *sevenzip.File, buf []byte, n int) (io.ReadCloser, error) {
	rc, err := f.Open()
	if err != nil {
		return nil, err //nolint:wrapcheck
	}

	for n > 0 {
		k, err := rc.Read(buf[:min(n, len(buf))])
		if err != nil {
			return rc, err //nolint:wrapcheck
		}

		n -= k
	}

	return rc, nil
}

func mustOpen(c *core.Ctx, im *image, pw string) *sevenzip.Reader {
	zr, err := open(im, pw)
	if err != nil {
		c.Fail("archive-error", "%v", err)

		return nil
	}

	return zr
}

var memUses = []memUse{
	{"reread", 700, func(c *core.Ctx, a *szw.Archive, pw string) func(int) {
		zr, buf := mustOpen(c, newImage(a.Build()), pw), make([]byte, 4096)

		return func(int) {
			for _, f := range zr.File {
				if rc, err := useEntry(f, buf, 1<<30); rc != nil {
					if err != io.EOF { //nolint:errorlint
						c.Fail("read-error", "%v", err)
					}

					_ = rc.Close()
				}
			}
		}
	}},
	{"partly", 700, func(c *core.Ctx, a *szw.Archive, pw string) func(int) {
		zr, buf := mustOpen(c, newImage(a.Build()), pw), make([]byte, 4096)

		return func(int) {
			f := zr.File[c.R.IntN(len(zr.File))]
			if rc, _ := useEntry(f, buf, c.R.IntN(int(f.UncompressedSize)+1)); rc != nil {
				_ = rc.Close()
			}
		}
	}},
	{"archives", 300, func(c *core.Ctx, a *szw.Archive, pw string) func(int) {
		im, buf := newImage(a.Build()), make([]byte, 4096)
		return func(k int) {
			zr := mustOpen(c, im, pw)
			_, _ = fs.Stat(zr, "f")

			for i, f := range zr.File {
				// Some are left half read and open
				if rc, _ := useEntry(f, buf, 1+c.R.IntN(2000)); rc != nil && (i+k)%2 == 0 {
					_ = rc.Close()
				}
			}
		}
	}},
	{"abandoned", 20, func(c *core.Ctx, a *szw.Archive, pw string) func(int) {
		// Much longer than what is read of it, some decoders working on in the background
		m := []func() *szw.Method{
			func() *szw.Method { return szw.MZstd(1, 3) },
			func() *szw.Method { return szw.MZstdMT(1, 3) },
			func() *szw.Method { return szw.MLZ4(lz4.Block256Kb, true) },
			func() *szw.Method { return szw.MBrotliMT(1, 3) },
			func() *szw.Method { return szw.MLZMA2(szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 16}) },
			func() *szw.Method { return szw.MDeflate(1) },
		}[max(c.R.IntN(8)-2, 0)]()
		a = &szw.Archive{
			Files:   []*szw.File{{Name: "f", Data: noise(c, 2<<20)}, {Name: "g", Data: noise(c, 100)}},
			Folders: []*szw.Folder{{Method: m, N: 2}},
		}
		c.Trace("%s", describe(a))
		im, buf := newImage(a.Build()), make([]byte, 4096)

		return func(k int) {
			for _, f := range mustOpen(c, im, pw).File[:1+k%2] {
				_, _ = useEntry(f, buf, 1+c.R.IntN(2000))
			}
		}
	}},
	{"one-processor", 100, func(c *core.Ctx, a *szw.Archive, pw string) func(int) {
		m := szw.MZstd(1, 3)
		if c.R.IntN(2) == 0 {
			m = szw.MZstdMT(1, 3)
		}

		for _, f := range a.Folders { // whose decoder then works in the foreground
			f.Method = m
		}

		im, buf := newImage(a.Build()), make([]byte, 4096)

		return func(k int) {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))

			zr := mustOpen(c, im, pw)
			for i, f := range zr.File {
				if rc, _ := useEntry(f, buf, 1+c.R.IntN(2000)); rc != nil && (i+k)%3 != 0 {
					_ = rc.Close()
				}
			}

			if k%10 == 0 { // the pool loses what it holds
				runtime.GC()
				runtime.GC()
			}
		}
	}},
	{"named", 200, func(c *core.Ctx, a *szw.Archive, pw string) func(int) {
		b, buf := a.Build().Bytes, make([]byte, 4096)

		dir, err := os.MkdirTemp(c.Tmp, "m")
		if err != nil {
			panic("szw: " + err.Error())
		}

		write := func(name string, b []byte) {
			if err := os.WriteFile(name, b, 0o600); err != nil {
				panic("szw: " + err.Error())
			}
		}

		one, parts := filepath.Join(dir, "a.7z"), filepath.Join(dir, "b.7z.")
		write(one, b)

		for i := range 3 {
			write(fmt.Sprintf("%s%03d", parts, i+1), b[i*len(b)/3:(i+1)*len(b)/3])
		}

		return func(k int) {
			name := one
			if k%2 == 1 {
				name = parts + "001"
			}

			zr, err := sevenzip.OpenReaderWithPassword(name, pw)
			if err != nil {
				c.Fail("archive-error", "%v", err)

				return
			}

			_ = zr.Volumes()

			var open []io.ReadCloser

			for i, f := range zr.File {
				if rc, _ := useEntry(f, buf, 1+c.R.IntN(2000)); rc != nil {
					if (i+k)%3 == 0 {
						open = append(open, rc)
					} else {
						_ = rc.Close()
					}
				}
			}

			_ = zr.Close()

			for _, rc := range open {
				_ = rc.Close()
			}

			_, _ = sevenzip.OpenReader(name + fmt.Sprint(k))
		}
	}},
	{"passwords", 400, func(c *core.Ctx, a *szw.Archive, pw string) func(int) {
		for _, f := range a.Folders {
			f.Method = szw.MAES(szw.AESOpt{Password: "right", Cycles: 3, IV: []byte("initvect"), Salt: []byte{1, 2}})
		}

		a.Opts.EncodeHeader = nil
		im, buf := newImage(a.Build()), make([]byte, 4096)

		return func(k int) {
			// Ever new passwords, of several kilobytes each
			zr := mustOpen(c, im, fmt.Sprintf("%d%s", k, bytes.Repeat([]byte{'x'}, c.R.IntN(3000))))

			for _, f := range zr.File {
				if rc, _ := useEntry(f, buf, 1<<30); rc != nil {
					_ = rc.Close()
				}
			}
		}
	}},
	{"damaged", 500, func(c *core.Ctx, a *szw.Archive, pw string) func(int) {
		bt := a.Build()
		buf, b := make([]byte, 4096), bytes.Clone(bt.Bytes)

		if bt.PackedTotal > 0 {
			for range 1 + c.R.IntN(20) {
				b[bt.PackStart+c.R.Int64N(bt.PackedTotal)] ^= byte(1 + c.R.IntN(255))
			}
		}

		zr, err := open(&image{b: b}, pw)
		if err != nil { // the packed header was hit
			return func(int) { _, _ = open(&image{b: b}, pw) }
		}

		return func(int) {
			for _, f := range zr.File {
				if rc, _ := useEntry(f, buf, 1<<30); rc != nil {
					_ = rc.Close()
				}
			}
		}
	}},
	{"storage", 500, func(c *core.Ctx, a *szw.Archive, pw string) func(int) {
		im, buf := newImage(a.Build()), make([]byte, 4096)
		zr := mustOpen(c, im, pw)
		left := int64(0)
		fail := errors.New("storage") //nolint:err113
		im.fault = func(int64, int64, int) error {
			if left--; left < 0 {
				return fail
			}

			return nil
		}

		return func(k int) {
			left = c.R.Int64N(6)

			if k%4 == 0 {
				_, _ = open(im, pw)

				return
			}

			for _, f := range zr.File {
				if rc, _ := useEntry(f, buf, 1<<30); rc != nil {
					_ = rc.Close()
				}
			}
		}
	}},
	{"malformed", 600, func(c *core.Ctx, a *szw.Archive, pw string) func(int) {
		bt := a.Build()
		b := bytes.Clone(bt.Bytes)

		return func(int) {
			at := c.R.IntN(len(b))
			old := b[at]
			b[at] ^= byte(1 + c.R.IntN(255))

			_, _ = open(&image{b: b}, pw)

			cut := c.R.IntN(len(b))
			_, _ = open(&image{b: b[:cut]}, pw)
			_, _ = open(&image{b: b}, "wrong")
			b[at] = old
		}
	}},
	{"fs", 400, func(c *core.Ctx, a *szw.Archive, pw string) func(int) {
		zr := mustOpen(c, newImage(a.Build()), pw)

		return func(k int) {
			_ = fs.WalkDir(zr, ".", func(p string, d fs.DirEntry, err error) error {
				if err == nil && d.IsDir() {
					if f, err := zr.Open(p); err == nil {
						_, _ = f.(fs.ReadDirFile).ReadDir(1 + k%3) //nolint:forcetypeassert
						_ = f.Close()
					}
				} else if err == nil {
					_, _ = fs.ReadFile(zr, p)
				}

				return nil
			})
			_, _ = fs.Glob(zr, "*/*")

			if s, err := fs.Sub(zr, "d1"); err == nil {
				_, _ = fs.ReadDir(s, ".")
			}
		}
	}},
	{"lookups", 2000, func(c *core.Ctx, a *szw.Archive, pw string) func(int) {
		zr := mustOpen(c, newImage(a.Build()), pw)

		return func(k int) {
			// Ever new names
			_, _ = fs.Stat(zr, fmt.Sprintf("d1/%d/%x", k, k*k))
			_, _ = zr.Open(fmt.Sprintf("../%d", k))
			_, _ = fs.ReadDir(zr, fmt.Sprintf("e%d", k))
			_, _ = fs.Stat(zr, "d1")
		}
	}},
	{"goroutines", 150, func(c *core.Ctx, a *szw.Archive, pw string) func(int) {
		zr := mustOpen(c, newImage(a.Build()), pw)

		return func(k int) {
			var wg sync.WaitGroup

			for g := range 6 {
				wg.Go(func() {
					r, buf := rand.New(rand.NewPCG(uint64(k), uint64(g))), make([]byte, 1000)

					for range 4 {
						f := zr.File[r.IntN(len(zr.File))]
						if rc, _ := useEntry(f, buf, r.IntN(3000)); rc != nil {
							_ = rc.Close()
						}
					}
				})
			}

			wg.Wait()
		}
	}},
	{"handles", 300, func(c *core.Ctx, a *szw.Archive, pw string) func(int) {
		zr, buf := mustOpen(c, newImage(a.Build()), pw), make([]byte, 100)

		return func(int) {
			var all []io.ReadCloser

			// More at once than are kept
			for range 24 {
				if rc, _ := useEntry(zr.File[c.R.IntN(len(zr.File))], buf, c.R.IntN(200)); rc != nil {
					all = append(all, rc)
				}
			}

			for _, rc := range all {
				_ = rc.Close()
				_, _ = rc.Read(buf)
				_ = rc.Close()
			}
		}
	}},
}

const memRounds = 6

func runC23(c *core.Ctx) {
	if c.Case%(len(memUses)*2+len(memMethods)) < 2*len(memUses) {
		useC23(c, memUses[c.Case%(len(memUses)*2+len(memMethods))/2])

		return
	}

	streamC23(c, c.Case%(len(memUses)*2+len(memMethods))-2*len(memUses))
}

func useC23(c *core.Ctx, u memUse) {
	pw := "secret"
	a := memArchive(c, pw)
	c.Trace("%s: %s", u.name, describe(a))
	c.Sample("%s: %s", u.name, describe(a))
	c.Distinct("%s %s", u.name, shape(a))

	c.Guard(u.name, func() {
		use := u.prep(c, a, pw)
		if c.Failed() {
			return
		}

		k := 0
		round := func(n int) int64 {
			for range n {
				use(k)
				k++
			}

			c.Count("measurements", 1)

			return liveHeap()
		}

		heap := []int64{round(u.rounds/3 + 20)}
		limit := max(int64(u.rounds)*48, 16<<10)
		if u.name == "abandoned" { // few and large, some still on the way to being released
			limit = 1 << 20
		}

		// Some rounds may fill caches; only growth that doesn't end is growth.
		for range memRounds {
			heap = append(heap, round(u.rounds))
			c.Eval(1)

			if c.Failed() || heap[len(heap)-1]-heap[len(heap)-2] <= limit {
				break
			}
		}

		c.Count("uses", int64(k))
		c.Count("use."+u.name, 1)
		c.Trace("live heap %d", heap)

		if n := len(heap); n > memRounds && heap[n-1]-heap[n-2] > limit {
			c.Fail("grows:"+u.name, "%s: the live heap goes on growing, %d bytes after each %d repetitions", u.name, heap, u.rounds)
		}
	})
}

type memMethod struct {
	window int64
	kind   int // 0: blocks of noise, 1: mostly zeros, 2: a few megabytes of noise
	m      func() *szw.Method
}

var memLZ = szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 20}

var memMethods = []memMethod{
	{0, 0, szw.MCopy},
	{0, 0, func() *szw.Method { return szw.MDelta(4).Over(szw.MBCJ()) }},
	{0, 0, func() *szw.Method { return szw.MARM().Over(szw.MPPC()) }},
	{0, 0, func() *szw.Method { return szw.MARM64().Over(szw.MSPARC()) }},
	{0, 0, func() *szw.Method {
		return szw.MAES(szw.AESOpt{Password: "secret", Cycles: 3, IV: []byte("initvect")})
	}},
	{1 << 20, 1, func() *szw.Method { return szw.MLZMA(memLZ) }},
	{1 << 20, 1, func() *szw.Method { return szw.MLZMA2(memLZ) }},
	{1 << 20, 1, func() *szw.Method { return szw.MLZMA2Multi(memLZ, 1<<20) }},
	{0, 0, func() *szw.Method { return szw.MDeflate(0) }},
	{0, 1, func() *szw.Method { return szw.MDeflate(6) }},
	{4 << 20, 1, func() *szw.Method { return szw.MBzip2(300000) }},
	{8 << 20, 0, func() *szw.Method { return szw.MZstd(1, 3) }},
	{8 << 20, 1, func() *szw.Method { return szw.MZstdMT(1, 9) }},
	{8 << 20, 1, func() *szw.Method { return szw.MBrotli(3, true) }},
	{8 << 20, 1, func() *szw.Method { return szw.MBrotliMT(3, 9) }},
	{1 << 20, 0, func() *szw.Method { return szw.MLZ4(lz4.Block256Kb, true) }},
	{4 << 20, 0, func() *szw.Method { return szw.MLZ4MT(lz4.Block1Mb, 8, true) }},
	{2 << 20, 1, func() *szw.Method { return szw.MPPMd(4, 2<<20) }},
	{1 << 20, 2, func() *szw.Method { return szw.MLZMA(memLZ) }},
	{1 << 20, 2, func() *szw.Method { return szw.MLZMA2(memLZ) }},
	{0, 2, func() *szw.Method { return szw.MDeflate(1) }},
	{4 << 20, 2, func() *szw.Method { return szw.MBzip2(100000) }},
	{8 << 20, 2, func() *szw.Method { return szw.MZstdMT(1, 4) }},
	{8 << 20, 2, func() *szw.Method { return szw.MBrotli(0, false) }},
	{8 << 20, 2, func() *szw.Method { return szw.MBrotli(0, true) }},
	{8 << 20, 2, func() *szw.Method { return szw.MBrotliMT(0, 4) }},
	{0, 2, func() *szw.Method { return szw.MBCJ2(szw.BCJ2Default) }},
	{3 << 20, 1, func() *szw.Method {
		return szw.MBCJ2(szw.BCJ2Default, szw.MLZMA(memLZ), szw.MLZMA(memLZ), szw.MLZMA(memLZ))
	}},
}

const memSlack = 4 << 20

// heapWatch measures the live heap whenever a part of the data has passed.
type heapWatch struct {
	c            *core.Ctx
	what         string
	base, window int64
	step, seen   int64
	next         int64
	most         int64
}

func (w *heapWatch) passed(n int64) {
	if w.seen += n; w.seen < w.next {
		return
	}

	w.next = w.seen + w.step
	h := liveHeap() - w.base
	w.most = max(w.most, h)
	w.c.Count("measurements", 1)
	w.c.Eval(1)

	if h > w.window+memSlack {
		w.c.Fail("holds:"+w.what, "%s: %d bytes in use for a window of %d after %d bytes", w.what, h, w.window, w.seen)
	}
}

func (w *heapWatch) Write(p []byte) (int, error) {
	w.passed(int64(len(p)))

	return len(p), nil
}

// watchedImage is the storage as seen by a heapWatch.
type watchedImage struct {
	*image
	w *heapWatch
}

func (im watchedImage) ReadAt(p []byte, off int64) (int, error) {
	if im.w != nil {
		im.w.passed(int64(len(p)))
	}

	return im.image.ReadAt(p, off)
}

func streamC23(c *core.Ctx, k int) {
	r := c.R
	mm := memMethods[k]
	size := 24<<20 + r.IntN(4<<20)

	if mm.kind == 2 {
		size = 9<<20 + r.IntN(1<<20)
	}

	data := make([]byte, size)

	switch mm.kind {
	case 2:
		copy(data, gen.ContentKind(r, size, 1))
	case 0:
		block := gen.ContentKind(r, 1<<20+1, 1)
		for i := 0; i < size; i += len(block) {
			n := copy(data[i:], block)

			for j := range min(n, 5000) { // no two blocks are equal
				data[i+j] ^= byte(i >> 20)
			}
		}
	default:
		for i := 0; i < size; i += 40000 {
			copy(data[i:], gen.ContentKind(r, 300, 2))
		}
	}

	m := mm.m()
	a := &szw.Archive{
		Files:   []*szw.File{{Name: "long", Data: data, NoCRC: true}, {Name: "next", Data: []byte("next entry")}},
		Folders: []*szw.Folder{{Method: m, N: 2}},
	}

	if k == 0 {
		packedHeader(c, r)
	}

	bt := a.Build()
	a = nil
	data = nil
	_ = data

	c.Trace("%s, %d bytes", m, size)
	c.Distinct("stream %s", m)

	run := func(way string, use func(zr *sevenzip.Reader, w *heapWatch)) {
		w := &heapWatch{c: c, what: m.Name + "/" + way, window: mm.window, step: int64(size / 8)}
		im := watchedImage{image: newImage(bt)}

		if way == "skip" {
			im.w = w
			w.step = bt.PackedTotal / 8
		}

		w.next = w.step
		w.base = liveHeap()

		c.Guard(w.what, func() {
			zr, err := sevenzip.NewReaderWithPassword(im, im.Size(), "secret")
			if err != nil {
				c.Fail("archive-error", "%s: %v", m, err)

				return
			}

			use(zr, w)
			runtime.KeepAlive(zr)
		})

		c.Count("stream."+way, 1)
		c.Trace("%s: at most %d bytes in use", w.what, w.most)
	}

	run("read", func(zr *sevenzip.Reader, w *heapWatch) {
		rc, err := zr.File[0].Open()
		if err != nil {
			c.Fail("open-error", "%v", err)

			return
		}
		defer rc.Close()

		buf := make([]byte, gen.Pick(r, 4096, 65536, 10000))

		for {
			n, err := rc.Read(buf)
			w.passed(int64(n))

			if err != nil {
				if err != io.EOF || w.seen != int64(size) { //nolint:errorlint
					c.Fail("read-error", "%s: %v after %d of %d bytes", w.what, err, w.seen, size)
				}

				return
			}
		}
	})

	run("copy", func(zr *sevenzip.Reader, w *heapWatch) {
		f, err := zr.Open("long")
		if err != nil {
			c.Fail("open-error", "%v", err)

			return
		}
		defer f.Close()

		if n, err := io.Copy(w, f); err != nil || n != int64(size) {
			c.Fail("read-error", "%s: %d of %d bytes, %v", w.what, n, size, err)
		}
	})

	run("skip", func(zr *sevenzip.Reader, w *heapWatch) {
		b, err := fs.ReadFile(zr, "next")
		if err != nil || string(b) != "next entry" {
			c.Fail("read-error", "%s: %q, %v", w.what, b, err)
		}

		w.passed(w.step)
	})

	runtime.KeepAlive(bt)
}

// packedHeader: opening an archive whose packed header is large must not keep
// more than what the entries take.
func packedHeader(c *core.Ctx, r *rand.Rand) {
	a := &szw.Archive{}

	for k := range 4000 {
		a.Files = append(a.Files, &szw.File{Name: fmt.Sprintf("%05d", k), Kind: szw.Empty})
	}

	// 24 MiB of padding in the header
	a.Opts.Dummy = []int{24 << 20}
	a.Opts.EncodeHeader = szw.MDeflate(6)
	bt := a.Build()
	a = nil
	base := liveHeap()

	c.Guard("packed header", func() {
		zr := mustOpen(c, newImage(bt), "")
		if zr == nil {
			return
		}

		h := liveHeap() - base
		c.Count("stream.packed-header", 1)
		c.Count("measurements", 1)
		c.Trace("%d entries hold %d bytes", len(zr.File), h)

		if h > memSlack {
			c.Fail("holds:header", "an open archive of %d entries holds %d bytes", len(zr.File), h)
		}

		runtime.KeepAlive(zr)
	})

	runtime.KeepAlive(bt)
}

func noise(c *core.Ctx, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(c.R.Uint32())
	}

	return b
}
