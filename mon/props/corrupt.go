package props

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"time"

	"github.com/bodgit/sevenzip"

	"verif/mon/core"
	"verif/mon/gen"
	"verif/mon/szw"
)

// C06: damaged headers are detected.
func init() {
	core.Register(&core.Property{
		ID: "C06", Level: "fault_enumeration",
		Rule:    "case = one archive; evaluation = one damaged copy: every single-bit flip of the signature, of the start header, of the header and of the packed bytes of an encoded header with a digest, every truncation point of a small archive (a sample of a larger one, and of headers of more than 64 KiB and of more than 1 MiB), and random bursts of up to 32 bits in the header; headers that are cut short although all checksums are right; opening must fail or list exactly what the undamaged archive lists. Distinct = distinct (header form, region, byte, bit or length).",
		Cases:   tierN(160, 3000),
		Require: []string{"flips.sig", "flips.start", "flips.header", "flips.hdrpack", "truncations", "bursts", "detected", "samples", "short-headers", "overlong-padding", "long-headers"},
		Run:     runC06,
	})
}

type listed struct {
	Name       string
	C, A, M    time.Time
	Attr, CRC  uint32
	Size       uint64
	Stream     int
	dir        bool
	modeString string
}

func listing(zr *sevenzip.Reader) []listed {
	out := make([]listed, 0, len(zr.File))
	for _, f := range zr.File {
		fi := f.FileInfo()
		out = append(out, listed{f.Name, f.Created, f.Accessed, f.Modified, f.Attributes, f.CRC32, f.UncompressedSize, f.Stream, fi.IsDir(), fi.Mode().String()})
	}

	return out
}

func sameListing(a, b []listed) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d entries instead of %d", len(a), len(b))
	}

	for i := range a {
		x, y := a[i], b[i]
		if !x.C.Equal(y.C) || !x.A.Equal(y.A) || !x.M.Equal(y.M) {
			return fmt.Sprintf("entry %d: times %v %v %v instead of %v %v %v", i, x.C, x.A, x.M, y.C, y.A, y.M)
		}

		x.C, x.A, x.M, y.C, y.A, y.M = time.Time{}, time.Time{}, time.Time{}, time.Time{}, time.Time{}, time.Time{}

		if x != y {
			return fmt.Sprintf("entry %d: %+v instead of %+v", i, x, y)
		}
	}

	return ""
}

func runC06(c *core.Ctx) {
	r := c.R

	var (
		b       []byte
		pw      string
		regions []szw.Region
		form    string
		end     int64
	)

	if c.Case < len(samples) && samples[c.Case].name != "sfx.exe" {
		s := samples[c.Case]
		b, pw, form = loadSample(c, s), s.password, s.name

		off, size := int64(binary.LittleEndian.Uint64(b[12:])), int64(binary.LittleEndian.Uint64(b[20:]))
		end = 32 + off + size
		regions = []szw.Region{{Name: "sig", Len: 32}, {Name: "header", Off: 32 + off, Len: size}}
		c.Count("samples", 1)
	} else {
		t := gen.ArchTune{MaxFile: 60, MaxFiles: 3, MaxFolders: 2}
		t.NoPPMd = true

		a, p := drawArchive(c, t)
		if r.IntN(3) == 0 {
			a = metaArchiveSmall(c)
			p = ""
		}

		if c.Case%20 == 15 {
			a, p = longHeaderC06(c), ""
		}

		if a.Opts.EncodeHeader != nil {
			a.Opts.HeaderCRC = true
		}

		a.Opts.Prefix = nil
		bt := a.Build()
		b, pw, regions, form = bt.Bytes, p, bt.Regions, fmt.Sprintf("%v %d", a.Opts.EncodeHeader, len(a.Files))
		end = bt.HeaderOff + bt.HeaderLen
		c.Sample("%s", describe(a))

		defer func() { shortHeaders(c, a, pw, bt.RawHeader) }()
	}

	var want []listed

	ok := c.Guard("undamaged", func() {
		zr, err := open(&image{b: b}, pw)
		if err != nil {
			c.Fail("archive-error", "undamaged archive: %v", err)

			return
		}

		want = listing(zr)
	})
	if !ok || c.Failed() {
		return
	}

	try := func(what string, d []byte, mustFail bool) {
		c.Eval(1)

		c.Guard(what, func() {
			zr, err := open(&image{b: d}, pw)
			if err != nil {
				c.Count("detected", 1)

				return
			}

			if mustFail {
				c.Fail("undetected", "%s: opened without an error", what)

				return
			}

			c.Count("harmless", 1)

			if m := sameListing(listing(zr), want); m != "" {
				c.Fail("undetected", "%s: opened, and lists %s", what, m)
			}
		})
	}

	d := append([]byte(nil), b...)

	for _, rg := range regions {
		step := int64(1)
		if rg.Len > 1500 && !c.Thorough() {
			step = rg.Len / 700
		}

		if rg.Len > 1<<15 {
			step = rg.Len/100 + int64(r.IntN(100))
		}

		for o := int64(0); o < rg.Len && !c.Failed(); o += step {
			name := rg.Name
			if name == "sig" {
				switch {
				case o < 6:
				case o < 8:
					continue // the version is not covered by a checksum
				default:
					name = "start"
				}
			}

			if name == "pack" {
				continue
			}

			for bit := range 8 {
				if rg.Len > 600 && !c.Thorough() && r.IntN(3) > 0 {
					continue
				}

				d[rg.Off+o] ^= 1 << bit
				c.Count("flips."+name, 1)
				c.Distinct("%s %s %d %d", form, name, o, bit)
				try(fmt.Sprintf("bit %d of byte %d of %s (%s) flipped", bit, o, rg.Name, form), d, name == "start" || name == "header")
				d[rg.Off+o] ^= 1 << bit
			}

			// Whole bytes.
			old := d[rg.Off+o]
			d[rg.Off+o] = byte(r.Uint32())

			if d[rg.Off+o] != old {
				try(fmt.Sprintf("byte %d of %s (%s) set to %#x", o, rg.Name, form, d[rg.Off+o]), d, name == "start" || name == "header")
			}

			d[rg.Off+o] = old
		}

		if rg.Name == "header" || rg.Name == "hdrpack" {
			// Bursts of up to 32 bits are always detected by a CRC-32.
			for range 200 {
				if rg.Len < 5 {
					break
				}

				o := rg.Off + int64(r.IntN(int(rg.Len)-4))
				m := r.Uint64N(1<<32-1) + 1
				m <<= r.IntN(8)

				for k := range 5 {
					d[o+int64(k)] ^= byte(m >> (8 * k))
				}

				c.Count("bursts", 1)
				try(fmt.Sprintf("burst %#x at byte %d of %s (%s)", m, o-rg.Off, rg.Name, form), d, rg.Name == "header")

				for k := range 5 {
					d[o+int64(k)] ^= byte(m >> (8 * k))
				}
			}
		}
	}

	few := int64(2000)
	if end > 1<<15 {
		few = 100
	}

	for n := int64(0); n < int64(len(b)) && !c.Failed(); n++ {
		if end > 3000 && n > 64 && n < end-64 && r.Int64N(end) > few {
			continue
		}

		if n > end+64 {
			break
		}

		c.Count("truncations", 1)
		c.Distinct("%s cut %d", form, n)
		try(fmt.Sprintf("cut to %d of %d bytes (%s)", n, len(b), form), b[:n:n], n < end)
	}

	// The header replaced by another one of the same length and a wrong CRC is
	// what a crash between two writes leaves behind.
	if hd := regions[len(regions)-1]; hd.Name == "header" && hd.Len > 40 {
		for range 20 {
			q := append([]byte(nil), b...)
			z := q[hd.Off : hd.Off+hd.Len]

			for k := r.IntN(len(z)); k < len(z); k++ {
				z[k] = 0
			}

			if crc32.ChecksumIEEE(z) == crc32.ChecksumIEEE(b[hd.Off:hd.Off+hd.Len]) {
				continue
			}

			try(fmt.Sprintf("tail of the header zeroed (%s)", form), q, true)
		}
	}
}

// longHeaderC06 draws an archive with a header of more than 64 KiB, in some cases
// of more than a mebibyte, packed or not.
func longHeaderC06(c *core.Ctx) *szw.Archive {
	r := c.R
	a := metaArchiveSmall(c)
	size := 1<<16 + r.IntN(1<<17)

	if c.Case%40 == 15 {
		size = 1<<20 + r.IntN(1<<17)
	}

	for k := 0; size > 0; k++ {
		n := 100 + r.IntN(5000)
		b := make([]byte, n)

		for i := range b {
			b[i] = byte('a' + r.IntN(26))
		}

		a.Files = append(a.Files, &szw.File{Kind: szw.Empty, Name: fmt.Sprintf("long/%d/%s", k, b)})
		size -= 2 * n
	}

	a.Opts.EncodeHeader = gen.Pick(r, nil, szw.MCopy(), szw.MDeflate(1))
	a.Opts.LongNumbers = nil
	c.Count("long-headers", 1)

	return a
}

// shortHeaders: headers that end early although all of their checksums are
// right, as a faulty writer leaves behind.
func shortHeaders(c *core.Ctx, a *szw.Archive, pw string, raw []byte) {
	if c.Failed() {
		return
	}

	n := len(raw)
	if a.Opts.EncodeHeader != nil {
		n = 25
	} else if n > 300 && !c.Thorough() {
		n = 300
	}

	for i := range n {
		k := i
		if n < len(raw) {
			k = c.R.IntN(len(raw))
		}

		if k == 0 {
			continue
		}

		cut := raw[:k:k]
		what := fmt.Sprintf("header cut to %d of %d bytes, checksums right", k, len(raw))

		// Or in the middle of padding that claims to be longer.
		if end := len(raw) - 2; i%25 == 24 && len(a.Files) > 0 {
			pad := gen.Pick(c.R, 3, 100, 1<<31, 1<<32+1, 1<<62, 1<<63-1, 1<<63, 1<<63+1, 1<<64-1, c.R.Uint64()|4)
			cut = binary.LittleEndian.AppendUint64(append(raw[:end:end], szw.PDummy, 0xff), pad)
			cut = append(cut, raw[end:]...)
			what = fmt.Sprintf("%d bytes of padding in front of the last 2 bytes", pad)

			c.Count("overlong-padding", 1)
		}

		a.Opts.EditRaw = func([]byte) []byte { return cut }
		b := a.Build().Bytes

		c.Eval(1)
		c.Count("short-headers", 1)
		c.Guard(what, func() {
			if zr, err := open(&image{b: b}, pw); err == nil {
				c.Fail("undetected", "%s: opened, lists %d entries", what, len(zr.File))
			}
		})

		if c.Failed() {
			return
		}
	}
}

// metaArchiveSmall is a metadata-rich archive that is small enough to damage
// everywhere.
func metaArchiveSmall(c *core.Ctx) *szw.Archive {
	for {
		a := metaArchive(c, 0)
		n := 0

		for _, f := range a.Files {
			n += len(f.Name)
		}

		if len(a.Files) < 10 && n < 600 {
			return a
		}
	}
}
