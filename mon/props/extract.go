package props

import (
	"bytes"
	"encoding/binary"
	"io"
	"io/fs"
	"runtime/debug"

	"github.com/bodgit/sevenzip"
	"github.com/pierrec/lz4/v4"

	"verif/mon/core"
	"verif/mon/gen"
	"verif/mon/szw"
)

func tierN(quick, thorough int) func(string) int {
	return func(t string) int {
		if t == "thorough" {
			return thorough
		}

		return quick
	}
}

// drawArchive draws an archive with its password ("" when nothing needs one).
func drawArchive(c *core.Ctx, t gen.ArchTune) (*szw.Archive, string) {
	r := c.R
	if t.Password == "" && gen.Chance(r, 3) {
		t.Password = gen.Passwords[r.IntN(len(gen.Passwords))]
	}

	a := gen.Archive(r, &t)

	return a, t.Password
}

func noteArchive(c *core.Ctx, a *szw.Archive) {
	for _, f := range a.Folders {
		countCoders(c, f.Method)

		if f.N > 1 {
			c.Count("solid-folders", 1)
		}
	}

	if a.Opts.EncodeHeader != nil {
		c.Count("encoded-headers", 1)
	} else {
		c.Count("plain-headers", 1)
	}
}

func stdTune(c *core.Ctx) gen.ArchTune {
	t := gen.ArchTune{MaxFile: 60000, MaxFiles: 6, MaxFolders: 3}

	switch c.R.IntN(12) {
	case 0:
		t.MaxFile, t.MaxFiles, t.MaxFolders = 400000, 3, 2
	case 1:
		t.MaxFile, t.MaxFiles, t.MaxFolders = 300, 40, 8
	case 2:
		t.MaxFile, t.MaxFiles, t.MaxFolders = 140000, 3, 2
	}

	return t
}

// C01: extraction fidelity.
func init() {
	virtual := 8 + 10 + len(largeMethods)

	core.Register(&core.Property{
		ID: "C01", Level: "exploration",
		Rule:        "case = archive drawn by the reference writer (coder tree per folder x solid/non-solid x header form x content kind), or a 7-Zip-made sample, or an archive with offsets/sizes beyond 2^32, or a filtered stream in which addresses wrap around at 2^32, or a stream with references many megabytes back or that asks for hundreds of megabytes, or entries of several megabytes in each codec; every entry is read to the end and compared byte for byte with what was encoded. Distinct = distinct (coder trees, solidity, header coding) shapes.",
		Cases:       tierN(len(samples)+virtual+1100, len(samples)+virtual+12000),
		Require:     []string{"coder.Copy", "coder.Delta", "coder.LZMA", "coder.LZMA2", "coder.LZMA2multi", "coder.BCJ", "coder.BCJ2", "coder.PPC", "coder.ARM", "coder.ARM64", "coder.ARM64+", "coder.SPARC", "coder.Deflate", "coder.Bzip2", "coder.Zstd", "coder.Brotli", "coder.Brotli7z", "coder.BrotliMT", "coder.LZ4", "coder.LZ4MT", "coder.ZstdMT", "coder.AES", "coder.PPMD", "samples", "beyond-4GiB", "filter-beyond-4GiB", "far-references", "roomy-streams", "large-entries"},
		Run:         runC01,
		Assumptions: []string{"the reference writer's encoders are right; BCJ, ARM, ARM64, PPC, SPARC, Delta and bzip2 were validated against liblzma/libbz2, LZMA/LZMA2/deflate/zstd/brotli/LZ4 use public encoders, PPMd uses the inverse of the decoder's own model"},
	})
}

func runC01(c *core.Ctx) {
	idx := c.Case
	if idx < len(samples) {
		sampleC01(c, samples[idx])

		return
	}

	idx -= len(samples)
	if idx < 8+10 {
		bigC01(c, idx)

		return
	}

	idx -= 8 + 10
	if idx < len(largeMethods) {
		largeC01(c, idx)

		return
	}

	a, pw := drawArchive(c, stdTune(c))
	bt := a.Build()
	want := wantData(a)

	noteArchive(c, a)
	c.Distinct("%s|%v", shape(a), a.Opts.EncodeHeader)
	c.Sample("%s", describe(a))
	c.Trace("%s", describe(a))

	c.Guard("extract", func() {
		im := newImage(bt)
		im.eofMode = c.R.IntN(2)

		zr, err := open(im, pw)
		if err != nil {
			c.Fail("archive-error", "well-formed archive rejected: %v", err)

			return
		}

		checkAll(c, "in order", zr, want, fixed(32<<10))

		// Through io.Copy, whose WriterTo/ReaderFrom paths differ.
		zr2, err := open(newImage(bt), pw)
		if err != nil {
			c.Fail("archive-error", "second open rejected: %v", err)

			return
		}

		for i, f := range zr2.File {
			rc, err := f.Open()
			if err != nil {
				c.Fail("open-error", "second reader: file %d: %v", i, err)

				continue
			}

			var b bytes.Buffer

			n, err := io.Copy(&b, rc)
			c.Eval(1)

			if err != nil || n != int64(len(want[i])) || !bytes.Equal(b.Bytes(), want[i]) {
				c.Fail("wrong-data", "io.Copy of file %d (%q): n=%d err=%v: %s", i, f.Name, n, err, diff(b.Bytes(), want[i]))
			}

			if c.R.IntN(2) == 0 { // without closing in between nothing is reused
				_ = rc.Close()
			}
		}

		// And through the file system view.
		if c.Case%4 == 0 {
			for i, f := range zr.File {
				if a.Files[i].Kind != szw.Stream {
					continue
				}

				b, err := fs.ReadFile(zr, f.Name)
				c.Eval(1)

				if err != nil || !bytes.Equal(b, want[i]) {
					c.Fail("wrong-data-fs", "fs.ReadFile(%q): err=%v: %s", f.Name, err, diff(b, want[i]))
				}
			}
		}
	})
}

// sampleC01 reads an archive made by 7-Zip and compares with its stored CRCs.
func sampleC01(c *core.Ctx, s sampleArchive) {
	b := loadSample(c, s)

	c.Guard(s.name, func() {
		zr, err := open(&image{b: b}, s.password)
		if err != nil {
			c.Fail("archive-error", "%s: %v", s.name, err)

			return
		}

		for i, f := range zr.File {
			rc, err := f.Open()
			if err != nil {
				c.Fail("open-error", "%s: file %d: %v", s.name, i, err)

				continue
			}

			d := drain(rc, fixed(4096), int64(f.UncompressedSize)+10)
			c.Eval(1)

			if d.bad != "" || d.err != nil || uint64(len(d.data)) != f.UncompressedSize {
				c.Fail("read-error", "%s: file %d: %s %v, %d of %d bytes", s.name, i, d.bad, d.err, len(d.data), f.UncompressedSize)
			} else if f.CRC32 != 0 && crcOf(d.data) != f.CRC32 {
				c.Fail("wrong-data", "%s: file %d: CRC %08x, stored %08x", s.name, i, crcOf(d.data), f.CRC32)
			}

			if err := rc.Close(); err != nil {
				c.Fail("close-error", "%s: file %d: %v", s.name, i, err)
			}
		}

		c.Count("samples", 1)
		c.Distinct("sample %s", s.name)
	})
}

// bigC01 covers offsets and sizes that do not fit 32 bits.
func bigC01(c *core.Ctx, k int) {
	if k >= 8 {
		farC01(c, k-8)

		return
	}

	const gib = 1 << 30

	r := c.R
	small := func(n string) *szw.File { return &szw.File{Name: n, Data: gen.Content(r, 5000+r.IntN(1000))} }
	z := szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 16}

	switch k {
	case 0: // the packed streams start beyond 4 GiB, the header too
		a := &szw.Archive{Files: []*szw.File{small("a"), small("b"), small("c")}, Folders: []*szw.Folder{
			{Method: szw.MLZMA(z), N: 1}, {Method: szw.MBCJ().Over(szw.MLZMA2(z)), N: 2},
		}}
		a.Opts.PackGap, a.Opts.PackGapVirtual = 5*gib+17, true
		a.Opts.EncodeHeader, a.Opts.HeaderCRC = szw.MLZMA(z), true
		bt := a.Build()

		c.Guard("offset beyond 4 GiB", func() {
			zr, err := open(newImage(bt), "")
			if err != nil {
				c.Fail("archive-error", "pack position 5 GiB: %v", err)

				return
			}

			checkAll(c, "pack position 5 GiB", zr, wantData(a), fixed(8192))
			c.Count("beyond-4GiB", 1)
			c.Distinct("big offset")
		})
	case 1: // a stored file larger than 4 GiB in front of small ones
		bigStored(c, 4*gib+4097, false)
	case 2: // several folders whose sum exceeds 4 GiB
		bigStored(c, 3*gib+11, true)
	case 3:
		bigFilter(c, szw.MBCJ(), szw.BCJX86At)
	case 4:
		bigFilter(c, szw.MARM(), szw.ARMAt)
	case 5:
		bigFilter(c, szw.MARM64(), szw.ARM64At)
	case 6:
		bigFilter(c, szw.MPPC(), szw.PPCAt)
	case 7:
		bigFilter(c, szw.MSPARC(), szw.SPARCAt)
	}
}

// farC01: a random block comes again at a distance of many megabytes, which the
// stream refers back to.
func farC01(c *core.Ctx, k int) {
	const mib = 1 << 20

	r := c.R
	methods := []struct {
		dict int
		m    func(dict int) *szw.Method
	}{
		{16 * mib, func(d int) *szw.Method { return szw.MLZMA(szw.LZMAOpt{LC: 3, PB: 2, Dict: d}) }},
		{24 * mib, func(d int) *szw.Method { return szw.MLZMA2(szw.LZMAOpt{LC: 3, PB: 2, Dict: d}) }},
		{16 * mib, func(d int) *szw.Method { return szw.MLZMA2(szw.LZMAOpt{LC: 3, PB: 2, Dict: d}) }},
		{32 * mib, szw.MZstdWindow},
		{16 * mib, func(int) *szw.Method { return szw.MBrotliWindow(9, 24) }},
	}
	if k >= len(methods) {
		roomyC01(c, k-len(methods))

		return
	}

	m := methods[k]
	block := gen.ContentKind(r, 100000, 1)
	gap := m.dict - m.dict/4 - r.IntN(m.dict/8) - len(block)
	data := append(append(append([]byte(nil), block...), bytes.Repeat([]byte{'.'}, gap)...), block...)

	a := &szw.Archive{Files: []*szw.File{{Name: "far", Data: data}}, Folders: []*szw.Folder{{Method: m.m(m.dict), N: 1}}}
	bt := a.Build()

	c.Trace("%s, distance %d of %d", a.Folders[0].Method.Name, gap+len(block), m.dict)

	if bt.PackedTotal < int64(2*len(block)) {
		c.Count("far-references", 1)
	}

	c.Guard("far references", func() {
		zr, err := open(newImage(bt), "")
		if err != nil {
			c.Fail("archive-error", "%v", err)

			return
		}

		checkAll(c, "far reference", zr, wantData(a), fixed(1<<16))
		c.Distinct("far %d", k)
	})
}

// askProps rewrites the properties that m records.
func askProps(m *szw.Method, edit func(p []byte)) *szw.Method {
	enc := m.Enc
	m.Enc = func(d []byte) ([][]byte, []byte) {
		s, p := enc(d)
		edit(p)

		return s, p
	}

	return m
}

// roomyC01: streams that ask for much more memory than their contents need, as
// those made with the strongest settings do.
func roomyC01(c *core.Ctx, k int) {
	const mib = 1 << 20

	r := c.R
	z := szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 20}

	var m *szw.Method

	switch k {
	case 0:
		m = szw.MPPMd(32, 192*mib)
	case 1:
		m = szw.MPPMd(gen.Pick[uint32](r, 6, 16, 64), 64*mib)
	case 2:
		m = askProps(szw.MLZMA(z), func(p []byte) { binary.LittleEndian.PutUint32(p[1:], gen.Pick[uint32](r, 256*mib, 384*mib, 64*mib)) })
	case 3:
		m = askProps(szw.MLZMA2(z), func(p []byte) { p[0] = 33 })
	default:
		m = askProps(szw.MLZMA2(z), func(p []byte) { p[0] = 32 })
	}

	a := &szw.Archive{Files: []*szw.File{{Name: "x", Data: gen.ContentKind(r, 300000, 3)}, {Name: "y", Data: gen.Content(r, 50000)}}, Folders: []*szw.Folder{{Method: m, N: 2}}}
	bt := a.Build()

	c.Guard("roomy", func() {
		zr, err := open(newImage(bt), "")
		if err != nil {
			c.Fail("archive-error", "%s: %v", m.Name, err)

			return
		}

		checkAll(c, "roomy "+m.Name, zr, wantData(a), fixed(1<<16))
		c.Count("roomy-streams", 1)
		c.Distinct("roomy %d", k)
	})

	debug.FreeOSMemory()
}

// largeMethods are used for entries of several megabytes.
var largeMethods = []func(c *core.Ctx) *szw.Method{
	func(*core.Ctx) *szw.Method { return szw.MCopy() },
	func(*core.Ctx) *szw.Method { return szw.MDelta(3).Over(szw.MDelta(256)) },
	func(*core.Ctx) *szw.Method { return szw.MLZMA(szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 16}) },
	func(*core.Ctx) *szw.Method {
		return szw.MBCJ().Over(szw.MLZMA(szw.LZMAOpt{LC: 8, PB: 2, Dict: 1 << 20}))
	},
	func(*core.Ctx) *szw.Method {
		return szw.MARM64().Over(szw.MLZMA2(szw.LZMAOpt{LC: 1, LP: 3, PB: 0, Dict: 1 << 18}))
	},
	func(*core.Ctx) *szw.Method { return szw.MLZMA2Multi(szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 20}, 700001) },
	func(*core.Ctx) *szw.Method { return szw.MDeflate(6) },
	func(*core.Ctx) *szw.Method { return szw.MDeflate(0) },
	func(*core.Ctx) *szw.Method { return szw.MBzip2(700000) },
	func(*core.Ctx) *szw.Method { return szw.MZstd(3, 1) },
	func(*core.Ctx) *szw.Method { return szw.MZstdMT(3, 5) },
	func(*core.Ctx) *szw.Method { return szw.MBrotli(5, false) },
	func(*core.Ctx) *szw.Method { return szw.MBrotliMT(5, 7) },
	func(*core.Ctx) *szw.Method { return szw.MLZ4(lz4.Block4Mb, true) },
	func(*core.Ctx) *szw.Method { return szw.MLZ4(lz4.Block1Mb, false) },
	func(*core.Ctx) *szw.Method { return szw.MLZ4MT(lz4.Block4Mb, 3, true) },
	func(*core.Ctx) *szw.Method { return szw.MPPMd(6, 16<<20) },
	func(*core.Ctx) *szw.Method { return szw.MPPMd(8, 2<<20) },
	func(c *core.Ctx) *szw.Method {
		z := func() *szw.Method { return szw.MLZMA(szw.LZMAOpt{LC: 0, LP: 2, PB: 2, Dict: 1 << 20}) }

		return szw.MBCJ2(szw.BCJ2Default, z(), z(), z(), szw.MCopy())
	},
	func(c *core.Ctx) *szw.Method {
		return szw.MSPARC().Over(szw.MAES(gen.AES(c.R, largePassword)))
	},
	func(c *core.Ctx) *szw.Method {
		return szw.MPPC().Over(szw.MLZMA2(szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 22}).Over(szw.MAES(gen.AES(c.R, largePassword))))
	},
}

const largePassword = "large"

// largeC01: several megabytes in each codec, read in large and in odd portions.
func largeC01(c *core.Ctx, k int) {
	r := c.R
	m := largeMethods[k](c)
	scale := 1

	if m.Name == "Bzip2" || m.Name == "PPMD" { // whose encoders are slow
		scale = 4
	}

	big := func(kind int) []byte { return gen.ContentKind(r, (3<<20+r.IntN(3<<20))/scale, kind) }
	a := &szw.Archive{
		Files: []*szw.File{
			{Name: "first", Data: gen.Content(r, 100)},
			{Name: "code", Data: big(gen.Pick(r, 3, 4, 6))},
			{Name: "noise", Data: gen.ContentKind(r, 600000, 1)},
			{Name: "big", Data: big(r.IntN(12))},
		},
		Folders: []*szw.Folder{{Method: m, N: 4}},
	}
	bt := a.Build()

	c.Trace("%s", describe(a))

	c.Guard("large", func() {
		for _, n := range []int{8 << 20, 65537, 1000} {
			zr, err := open(newImage(bt), largePassword)
			if err != nil {
				c.Fail("archive-error", "%s: %v", m, err)

				return
			}

			checkAll(c, m.String(), zr, wantData(a), fixed(n))
		}

		countCoders(c, m)
		c.Count("large-entries", 1)
		c.Distinct("large %d", k)
	})
}

// bigFilter: a filtered solid block of nearly 4 GiB of zeros followed by code
// across the place where 32-bit addresses wrap around.
func bigFilter(c *core.Ctx, m *szw.Method, enc func([]byte, uint32) []byte) {
	r := c.R
	n := uint64(1)<<32 - uint64(gen.Pick(r, 4, 4096, 65536, 4*r.IntN(20000)))
	kind := 6

	// A block of its own begins at address 0
	if m.Name == "ARM" {
		n = 1<<32 - 4
	}

	if m.Name == "BCJ" {
		kind = 4
	}

	data := gen.ContentKind(r, 100000+r.IntN(1000), kind)
	tail := enc(data, uint32(n))
	a := &szw.Archive{
		Files: []*szw.File{
			{Name: "zeros", Virtual: true, VSize: n, NoCRC: true},
			{Name: "code", Virtual: true, VSize: uint64(len(data)), NoCRC: true},
		},
		Folders: []*szw.Folder{{Method: m, N: 2, Virtual: true}},
	}
	bt := a.BuildVirtual(n + uint64(len(tail)))
	c.Trace("%s, %d zeros and %d bytes of code", m.Name, n, len(data))

	c.Guard("filter beyond 4 GiB", func() {
		im := newImage(bt)
		im.fill = func(p []byte, off int64) {
			clear(p)

			if over := off + int64(len(p)) - int64(n); over > 0 {
				d := int64(len(p)) - over // where the tail starts in p
				if d >= 0 {
					copy(p[d:], tail)
				} else {
					copy(p, tail[-d:])
				}
			}
		}

		zr, err := open(im, "")
		if err != nil {
			c.Fail("archive-error", "%s over %d bytes: %v", m.Name, n, err)

			return
		}

		checkFile(c, m.Name+" across 4 GiB", zr.File[1], 1, data, fixed(4096))
		c.Count("filter-beyond-4GiB", 1)
		c.Distinct("big %s", m.Name)
	})
}

// bigStored: two Copy folders of size n (virtual zero bytes), then a real one.
func bigStored(c *core.Ctx, n uint64, two bool) {
	r := c.R
	data := gen.Content(r, 7000)
	a := &szw.Archive{Files: []*szw.File{{Name: "big", Virtual: true, VSize: n, NoCRC: true}}, Folders: []*szw.Folder{{Method: szw.MCopy(), N: 1, Virtual: true}}}
	gap := n

	if two {
		a.Files = append(a.Files, &szw.File{Name: "big2", Virtual: true, VSize: n, NoCRC: true})
		a.Folders = append(a.Folders, &szw.Folder{Method: szw.MCopy(), N: 1, Virtual: true})
		gap += n
	}

	a.Files = append(a.Files, &szw.File{Name: "tail", Data: data})
	a.Folders = append(a.Folders, &szw.Folder{Method: szw.MLZMA2(szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 16}), N: 1})
	bt := a.BuildVirtual(gap)

	c.Guard("file beyond 4 GiB", func() {
		im := newImage(bt)
		im.fill = func(p []byte, off int64) {
			for i := range p {
				p[i] = byte((off + int64(i)) >> 20)
			}
		}

		zr, err := open(im, "")
		if err != nil {
			c.Fail("archive-error", "%d-byte stored file: %v", n, err)

			return
		}

		last := len(zr.File) - 1
		checkFile(c, "behind big files", zr.File[last], last, data, fixed(4096))

		for i := range last {
			if zr.File[i].UncompressedSize != n {
				c.Fail("metadata", "size of file %d is %d, want %d", i, zr.File[i].UncompressedSize, n)
			}

			if two && i == 0 && !c.Thorough() {
				continue
			}

			rc, err := zr.File[i].Open()
			if err != nil {
				c.Fail("open-error", "big file: %v", err)

				continue
			}

			buf := make([]byte, 1<<20)
			base := int64(i) * int64(n)

			var got int64

			for {
				k, err := rc.Read(buf)
				for j := 0; j < k; j += 4093 {
					if want := byte((base + got + int64(j)) >> 20); buf[j] != want {
						c.Fail("wrong-data", "big file %d: byte %d is %02x, want %02x", i, got+int64(j), buf[j], want)

						k, err = 0, io.EOF

						break
					}
				}

				got += int64(k)

				if err != nil {
					if err != io.EOF || uint64(got) != n { //nolint:errorlint
						c.Fail("read-error", "big file %d: %v after %d of %d bytes", i, err, got, n)
					}

					break
				}

				if two && got > 1<<28 && !c.Thorough() {
					break
				}
			}

			c.Eval(1)

			if err := rc.Close(); err != nil {
				c.Fail("close-error", "big file %d: %v", i, err)
			}
		}

		c.Count("beyond-4GiB", 1)
		c.Distinct("big stored %v", two)
	})
}

// C02: the bytes delivered do not depend on how they are asked for.
func init() {
	core.Register(&core.Property{
		ID: "C02", Level: "exploration",
		Rule:  "case = one archive; every entry is read several times with different sequences of buffer sizes (1 byte, primes around block sizes, random, with zero-length reads interleaved) and readers that return EOF with or after the last bytes; all must equal the encoded content. Distinct = distinct (coder tree, buffer pattern class).",
		Cases: tierN(700, 9000),
		Run:   runC02,
	})
}

func runC02(c *core.Ctx) {
	t := gen.ArchTune{MaxFile: 30000, MaxFiles: 4, MaxFolders: 2}
	if c.R.IntN(10) == 0 {
		t.MaxFile, t.MaxFiles, t.MaxFolders = 200000, 2, 1
	}

	a, pw := drawArchive(c, t)
	bt := a.Build()
	want := wantData(a)

	c.Trace("%s", describe(a))
	c.Sample("%s", describe(a))
	noteArchive(c, a)

	c.Guard("chunked reads", func() {
		for k := range 5 {
			im := newImage(bt)
			im.eofMode = c.R.IntN(2)

			zr, err := open(im, pw)
			if err != nil {
				c.Fail("archive-error", "%v", err)

				return
			}

			if len(zr.File) != len(want) {
				c.Fail("file-count", "%d entries, want %d", len(zr.File), len(want))

				return
			}

			one := k == 0

			for i, f := range zr.File {
				next := readSizes(c.R)
				if one {
					next = fixed(1)
				}

				checkFile(c, "chunked", f, i, want[i], next)
			}

			c.Distinct("%s %d", shape(a), k)
		}
	})
}

// C03: any sequential history of opens, partial reads, closes and re-opens.
func init() {
	core.Register(&core.Property{
		ID: "C03", Level: "exploration",
		Rule:  "case = one archive (favouring solid folders with many files) and a random history of open / partial read / read to the end / close / re-open steps with up to 40 handles live at once, including more parked positions than the reader pool holds; every byte delivered is compared online with the model (content[file][pos:]). Distinct = distinct (shape, history hash).",
		Cases: tierN(500, 7000),
		Run:   runC03,
	})
}

type handle struct {
	rc   io.ReadCloser
	file int
	pos  int
}

func runC03(c *core.Ctx) {
	r := c.R
	t := gen.ArchTune{MaxFile: 20000, MaxFiles: 30, MaxFolders: 2}

	if gen.Chance(r, 3) {
		t.MaxFile, t.MaxFiles = 2000, 60
	}

	var (
		zr   *sevenzip.Reader
		want [][]byte
		sig  string
	)

	if c.Case%25 == 3 {
		s := samples[r.IntN(len(samples))]
		b := loadSample(c, s)

		ok := c.Guard("reference", func() {
			z0, err := open(&image{b: b}, s.password)
			if err != nil {
				c.Fail("archive-error", "%s: %v", s.name, err)

				return
			}

			if want, err = reference(z0); err != nil {
				c.Fail("read-error", "%s: %v", s.name, err)

				return
			}

			if zr, err = open(&image{b: b}, s.password); err != nil {
				c.Fail("archive-error", "%s: %v", s.name, err)
			}
		})
		if !ok || c.Failed() {
			return
		}

		sig = s.name
	} else {
		a, pw := drawArchive(c, t)
		bt := a.Build()
		want = wantData(a)
		sig = shape(a)
		c.Trace("%s", describe(a))
		c.Sample("%s", describe(a))

		var err error

		if !c.Guard("open", func() { zr, err = open(newImage(bt), pw) }) {
			return
		}

		if err != nil {
			c.Fail("archive-error", "%v", err)

			return
		}
	}

	if len(zr.File) != len(want) {
		c.Fail("file-count", "%d entries, want %d", len(zr.File), len(want))

		return
	}

	if len(zr.File) == 0 {
		return
	}

	history(c, zr, want, sig, 150)
}

// history drives one random sequential history against the model.
func history(c *core.Ctx, zr *sevenzip.Reader, want [][]byte, sig string, steps int) {
	r := c.R

	var live []*handle

	ops := ""
	maxLive := gen.Pick(r, 1, 2, 5, 40)
	last := 0

	closeAt := func(k int) {
		h := live[k]
		live = append(live[:k], live[k+1:]...)

		c.Trace("close %d at %d", h.file, h.pos)

		if err := h.rc.Close(); err != nil {
			c.Fail("close-error", "Close of file %d at %d: %v", h.file, h.pos, err)
		}
	}

	read := func(h *handle, n int) (eof bool) {
		buf := make([]byte, n)

		k, err := h.rc.Read(buf)
		c.Eval(1)

		w := want[h.file]
		if k < 0 || k > n || h.pos+k > len(w) {
			c.Fail("read-contract", "file %d: Read(%d) at %d of %d returned %d", h.file, n, h.pos, len(w), k)

			return true
		}

		if !bytes.Equal(buf[:k], w[h.pos:h.pos+k]) {
			c.Fail("wrong-data", "file %d at %d: %s", h.file, h.pos, diff(buf[:k], w[h.pos:h.pos+k]))

			return true
		}

		h.pos += k

		if err != nil {
			if err != io.EOF || h.pos != len(w) { //nolint:errorlint
				c.Fail("read-error", "file %d: %v at %d of %d", h.file, err, h.pos, len(w))
			}

			return true
		}

		return false
	}

	c.Guard("history", func() {
		for range steps {
			if c.Failed() {
				return
			}

			switch k := r.IntN(10); {
			case len(live) == 0 || k < 4 && len(live) < maxLive:
				f := r.IntN(len(zr.File))

				switch r.IntN(4) {
				case 0:
					f = last
				case 1:
					f = (last + 1) % len(zr.File)
				case 2:
					f = max(0, last-1)
				}

				last = f

				c.Trace("open %d", f)

				rc, err := zr.File[f].Open()
				if err != nil {
					c.Fail("open-error", "Open of file %d: %v", f, err)

					return
				}

				live = append(live, &handle{rc: rc, file: f})
				ops += "o"
				c.Count("opens", 1)
			case k < 7:
				h := live[r.IntN(len(live))]
				n := 1 + r.IntN(1<<r.IntN(15))
				c.Trace("read %d n=%d at %d", h.file, n, h.pos)
				read(h, n)

				ops += "r"
			case k == 7:
				h := live[r.IntN(len(live))]
				c.Trace("drain %d from %d", h.file, h.pos)

				for n := 0; !read(h, 1+r.IntN(20000)); n++ {
					if n > 5000+len(want[h.file]) {
						c.Fail("no-progress", "file %d: no end after %d reads", h.file, n)

						return
					}
				}

				ops += "d"
				c.Count("drains", 1)
			default:
				closeAt(r.IntN(len(live)))

				ops += "c"
				c.Count("closes", 1)
			}
		}

		for len(live) > 0 {
			closeAt(len(live) - 1)
		}
		// Afterwards a plain pass still gives everything.
		if !c.Failed() {
			checkAll(c, "after the history", zr, want, fixed(9000))
		}

		c.Distinct("%s %s", sig, ops)
	})
}
