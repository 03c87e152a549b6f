package props

import (
	"fmt"
	"io/fs"
	"math/rand/v2"
	"strings"
	"testing/fstest"
	"time"
	"unicode/utf16"

	"github.com/bodgit/sevenzip"

	"verif/mon/core"
	"verif/mon/gen"
	"verif/mon/szw"
)

// C05: metadata fidelity.
func init() {
	core.Register(&core.Property{
		ID: "C05", Level: "exploration",
		Rule:    "case = archive with up to thousands of entries (in a few cases more than 65,536 entries, folders or files in one folder) of all kinds (files in solid, one-file and zero-file folders, empty files, directories), names over the whole of Unicode, timestamps over all 64-bit ticks, attributes over all 32-bit values (directories also without any), digests present or absent, and every header form; each listed field is compared with the value written, times by calendar arithmetic from 1601. Distinct = distinct (entry kinds, folder layout, header form) shapes.",
		Cases:   tierN(2500, 40000),
		Require: []string{"entries", "dirs", "bare-dirs", "empty-files", "undefined-times", "extreme-times", "many-entries", "crowded", "long-names", "huge-names", "zero-stream-folders", "folder-digests", "omitted-substreams", "long-numbers", "nonbmp-names", "nameless", "no-header", "coder-orders", "huge-sizes", "number-bytes.7", "number-bytes.8", "number-bytes.9"},
		Run:     runC05,
	})
}

var nameParts = []string{"a", "b.txt", "Dir", "ü", "文件", "𝄞clef", "x y", "-", "...", "..a", "a..", "\u00a0", "e\u0301", "\ufeffbom", "\uffff", "\u0001", "con", "%2e", "ﬀ", "\U0010ffff", "\ue000"}

func drawName(r *rand.Rand, id int) string {
	var b strings.Builder

	for range r.IntN(4) {
		b.WriteString(nameParts[r.IntN(len(nameParts))])
		b.WriteByte('/')
	}

	b.WriteString(fmt.Sprintf("n%d", id))

	switch r.IntN(12) {
	case 0:
		if r.IntN(8) == 0 { // as long as a path can be on Windows, or longer
			for part := nameParts[r.IntN(len(nameParts))]; b.Len() < 1<<16+r.IntN(1<<18); {
				b.WriteString(part)
			}

			break
		}

		for range 1 + r.IntN(12000) {
			b.WriteByte(byte('a' + r.IntN(26)))
		}
	case 1:
		for range 1 + r.IntN(3000) {
			b.WriteString(nameParts[r.IntN(len(nameParts))])
		}
	default:
		for range r.IntN(3) {
			b.WriteString(nameParts[r.IntN(len(nameParts))])
		}
	}

	return b.String()
}

func drawTicks(c *core.Ctx, r *rand.Rand) uint64 {
	const unix = 116444736000000000

	switch r.IntN(8) {
	case 0:
		c.Count("extreme-times", 1)

		return gen.Pick[uint64](r, 0, 1, 9, 10, 1<<31, 1<<32-1, 1<<32, 1<<63-1, 1<<63, 1<<64-1, 1<<62)
	case 1:
		return unix + uint64(r.IntN(5)) - 2
	case 2: // around 1677-09-21 and 2262-04-11
		return gen.Pick[uint64](r, unix-92233720368547758, unix+92233720368547758) + r.Uint64N(1<<20) - 1<<19
	case 3:
		return r.Uint64()
	default:
		return unix + r.Uint64N(1<<55)
	}
}

// ticksTime converts by the calendar.
func ticksTime(t uint64) time.Time {
	const day = 24 * 3600 * 10000000

	d := time.Date(1601, 1, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, int(t/day))
	rem := t % day

	return d.Add(time.Duration(rem/10000000) * time.Second).Add(time.Duration(rem%10000000) * 100)
}

// metaArchive draws an archive whose point is its header; crowd asks for more
// than 65,536 of something (1: entries, 2: folders, 3: files in one folder).
func metaArchive(c *core.Ctx, crowd int) *szw.Archive {
	r := c.R
	a := &szw.Archive{}
	id := 0
	entries := 1 + r.IntN(12)

	if gen.Chance(r, 40) {
		entries = 1000 + r.IntN(3000)
		c.Count("many-entries", 1)
	}

	if crowd > 0 {
		entries = 1<<16 + 1 + r.IntN(500)
		c.Count("crowded", 1)
	}

	pAttr, pTime, pEmpty := r.IntN(4), r.IntN(4), r.IntN(3)
	if crowd > 1 {
		pEmpty = 0
	}

	file := func(k szw.Kind) *szw.File {
		id++

		f := &szw.File{Kind: k, Name: drawName(r, id)}
		if entries > 100 {
			f.Name = fmt.Sprintf("dir%d/e%05d-%s", r.IntN(9), id, nameParts[r.IntN(len(nameParts))])
		}

		for _, t := range []**uint64{&f.CTime, &f.ATime, &f.MTime} {
			if r.IntN(3) < pTime {
				v := drawTicks(c, r)
				*t = &v
			}
		}

		if k == szw.Dir {
			v := gen.Pick[uint32](r, 0x10, 0x11, 0x30, 0x41ed8010, 0x41c00010, 0x10|r.Uint32()&0x0fffffff, 0)
			if v != 0 || gen.Chance(r, 3) {
				f.Attr = &v
			}
		} else if r.IntN(3) < pAttr {
			v := r.Uint32()
			if v&0xf0000000 == 0x40000000 {
				v |= 0xc0000000 // not a directory
			}

			if v&0xf0000000 == 0 {
				v &^= 0x10
			}

			f.Attr = &v
		}

		f.NoCRC = gen.Chance(r, 6)

		return f
	}

	for len(a.Files) < entries {
		if r.IntN(4) < pEmpty {
			a.Files = append(a.Files, file(gen.Pick(r, szw.Empty, szw.Dir)))

			continue
		}

		fd := &szw.Folder{Method: szw.MCopy(), N: gen.Pick(r, 1, 1, 1, 2, 3, r.IntN(9)), FolderCRC: gen.Chance(r, 2)}

		switch crowd {
		case 2:
			fd.N = 1
		case 3:
			fd.N = entries
		}

		if fd.N == 0 {
			c.Count("zero-stream-folders", 1)
		}

		if crowd > 0 || gen.Chance(r, 6) {
			fd.Method = gen.Pick(r, szw.MDelta(3).Over(szw.MBCJ()), szw.MCopy())
		} else if gen.Chance(r, 6) {
			// Coders with outputs of different sizes, recorded in any order.
			lz := func() *szw.Method { return szw.MLZMA(szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 12}) }
			fd.Method = gen.Pick(r, lz().Over(szw.MCopy()), szw.MDelta(1).Over(lz().Over(szw.MCopy())), szw.MBCJ2(szw.BCJ2Default, lz(), nil, lz().Over(szw.MCopy()), nil))
			fd.Shuffle = r
			c.Count("coder-orders", 1)
		}

		for range fd.N {
			for r.IntN(6) < pEmpty {
				a.Files = append(a.Files, file(gen.Pick(r, szw.Empty, szw.Dir)))
			}

			f := file(szw.Stream)
			f.Data = gen.ContentKind(r, gen.Pick(r, 0, 1, 2, r.IntN(40)), 1)

			if fd.N == 1 && len(f.Data) == 0 && gen.Chance(r, 2) {
				f.Data = []byte{1}
			}

			a.Files = append(a.Files, f)
		}

		a.Folders = append(a.Folders, fd)
	}

	gen.Forms(r, a, &gen.Tune{Cheap: true, MaxDict: 1 << 16})

	if crowd > 0 && a.Opts.EncodeHeader != nil {
		a.Opts.EncodeHeader = szw.MLZMA(szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 20})
	} else if a.Opts.EncodeHeader != nil && !gen.Chance(r, 4) {
		a.Opts.EncodeHeader = nil
	}

	if gen.Chance(r, 6) { // one file per folder: substreams may be left out
		one := true
		for _, fd := range a.Folders {
			one = one && fd.N == 1
		}

		if one && len(a.Folders) > 0 {
			a.Opts.OmitSubStreams, a.Opts.ForceNumUnpack = true, false

			for _, fd := range a.Folders {
				fd.FolderCRC = true
			}
		}
	}

	return a
}

// hugeSizes gives stored files in front of all others sizes of any magnitude;
// it returns their sum.
func hugeSizes(r *rand.Rand, a *szw.Archive) (gap uint64) {
	var (
		files   []*szw.File
		folders []*szw.Folder
	)

	for k := range 1 + r.IntN(3) {
		fd := &szw.Folder{Method: szw.MCopy(), N: 1 + r.IntN(3), Virtual: true}

		for j := range fd.N {
			f := &szw.File{Name: fmt.Sprintf("huge/%d-%d", k, j), Kind: szw.Stream, Virtual: true, VSize: 1 + r.Uint64()>>(6+r.IntN(56)), VCRC: r.Uint32(), NoCRC: r.IntN(2) == 0}

			switch r.IntN(4) {
			case 0: // the ends of what n bytes can say
				f.VSize = uint64(1)<<(7*(1+r.IntN(8))) + uint64(r.IntN(3)) - 1
			case 1:
				f.VSize = uint64(1)<<r.IntN(58) + uint64(r.IntN(3))
			}

			gap += f.VSize
			files = append(files, f)
		}

		folders = append(folders, fd)
	}

	a.Files = append(files, a.Files...)
	a.Folders = append(folders, a.Folders...)
	a.Opts.PackGap, a.Opts.PackGapVirtual, a.Opts.OmitSubStreams = 0, false, false

	return gap
}

// nameless leaves out the names, as a writer of a single unnamed stream does,
// and in some cases every other property there is a choice about.
func nameless(c *core.Ctx, a *szw.Archive) {
	a.Opts.NoNames = true
	bare := gen.Chance(c.R, 2)

	for _, f := range a.Files {
		f.Name, f.Wide = "", nil

		if bare && f.Kind == szw.Stream {
			f.CTime, f.ATime, f.MTime, f.Attr = nil, nil, nil, nil
		}
	}

	if bare && gen.Chance(c.R, 2) {
		a.Opts.Dummy = nil
	}

	c.Count("nameless", 1)
}

// emptyArchive is what 7-Zip writes for an archive without entries.
func emptyArchive(c *core.Ctx) {
	b := szw.SignatureHeader(4, 0, 0, 0)
	if c.R.IntN(2) == 0 {
		b = append(prefix(c.R, c.R.IntN(5000)), b...)
	}

	c.Count("no-header", 1)

	zr, err := open(&image{b: b, eofMode: c.R.IntN(2)}, "")
	if err != nil {
		c.Fail("archive-error", "archive without a header rejected: %v", err)

		return
	}

	if len(zr.File) != 0 {
		c.Fail("file-count", "%d entries in an archive without a header", len(zr.File))
	}

	if err := fstest.TestFS(zr); err != nil {
		c.Fail("testfs", "archive without a header: %v", err)
	}
}

func runC05(c *core.Ctx) {
	if c.Case%50 == 7 {
		c.Guard("no header", func() { emptyArchive(c) })
	}

	for range 4 {
		crowd := 0
		if c.Case >= 20 && c.Case <= 22 {
			crowd = c.Case - 19
		}

		a := metaArchive(c, crowd)

		var (
			gap uint64
			bt  *szw.Built
		)

		if crowd == 0 && gen.Chance(c.R, 4) {
			gap = hugeSizes(c.R, a)
		}

		if crowd == 0 && gen.Chance(c.R, 12) {
			nameless(c, a)
		}

		if gap > 0 {
			bt = a.BuildVirtual(gap)
		} else {
			bt = a.Build()
		}

		sig := ""

		for _, f := range a.Files {
			sig += string("fed"[f.Kind])
			if len(sig) > 40 {
				break
			}
		}

		for _, f := range a.Folders {
			sig += fmt.Sprint(f.N, f.FolderCRC)
			if len(sig) > 120 {
				break
			}
		}

		o := a.Opts
		c.Distinct("%s %v %v %v %v %v %d", sig, o.EncodeHeader, o.ExplicitBits, o.OmitSubStreams, o.PackCRC, o.PropOrder != nil, len(o.Dummy))
		c.Trace("%d entries, %d folders, opts %+v", len(a.Files), len(a.Folders), o)

		if len(a.Files) < 8 {
			c.Sample("%s", describe(a))
		}

		if o.OmitSubStreams {
			c.Count("omitted-substreams", 1)
		}

		if o.LongNumbers != nil {
			c.Count("long-numbers", 1)
		}

		if gap > 0 {
			c.Count("huge-sizes", 1)
			c.Count(fmt.Sprintf("number-bytes.%d", 1+szw.NumLen(gap)), 1)
		}

		c.Guard("list", func() {
			zr, err := open(newImage(bt), "")
			if err != nil {
				c.Fail("archive-error", "well-formed archive rejected: %v", err)

				return
			}

			checkListing(c, zr, a)
		})

		if crowd > 0 {
			break
		}
	}
}

// folderOf is the folder of every stream file.
func folderOf(a *szw.Archive) map[*szw.File]int {
	out := map[*szw.File]int{}
	k, left := 0, 0

	if len(a.Folders) > 0 {
		left = a.Folders[0].N
	}

	for _, f := range a.Files {
		if f.Kind != szw.Stream {
			continue
		}

		for left == 0 {
			k++
			left = a.Folders[k].N
		}

		out[f] = k
		left--
	}

	return out
}

func checkListing(c *core.Ctx, zr *sevenzip.Reader, a *szw.Archive) {
	if len(zr.File) != len(a.Files) {
		c.Fail("file-count", "%d entries, want %d", len(zr.File), len(a.Files))

		return
	}

	folder := folderOf(a)
	byStream, byFolder := map[int]int{}, map[int]int{}
	count := map[int]int{}

	for _, k := range folder {
		count[k]++
	}

	for i, w := range a.Files {
		f := zr.File[i]
		c.Eval(1)
		c.Count("entries", 1)

		name := w.Name
		if w.Wide != nil {
			name = string(utf16.Decode(w.Wide))
		}

		if len(name) > 5000 {
			c.Count("long-names", 1)
		}

		if len(name) > 1<<16 {
			c.Count("huge-names", 1)
		}

		if strings.ContainsAny(name, "𝄞\U0010ffff") {
			c.Count("nonbmp-names", 1)
		}

		switch w.Kind {
		case szw.Dir:
			c.Count("dirs", 1)

			if w.Attr == nil || *w.Attr == 0 {
				c.Count("bare-dirs", 1)
			}

			if !strings.HasSuffix(name, "/") {
				name += "/"
			}
		case szw.Empty:
			c.Count("empty-files", 1)
		}

		if f.Name != name && !(f.Name == "" && w.Name == "" && w.Wide == nil) {
			c.Fail("name", "entry %d: name %.200q, want %.200q", i, f.Name, name)
		}

		for _, t := range []struct {
			what string
			got  time.Time
			want *uint64
		}{{"Created", f.Created, w.CTime}, {"Accessed", f.Accessed, w.ATime}, {"Modified", f.Modified, w.MTime}} {
			if t.want == nil {
				c.Count("undefined-times", 1)

				if !t.got.IsZero() {
					c.Fail("time", "entry %d: %s is %v, but the archive has none", i, t.what, t.got)
				}

				continue
			}

			if want := ticksTime(*t.want); !t.got.Equal(want) {
				c.Fail("time", "entry %d: %s is %v, want %v (%d ticks)", i, t.what, t.got, want, *t.want)
			}
		}

		attr := uint32(0)
		if w.Attr != nil {
			attr = *w.Attr
		}

		if f.Attributes != attr {
			c.Fail("attributes", "entry %d: attributes %#x, want %#x", i, f.Attributes, attr)
		}

		crc, size := uint32(0), uint64(0)
		if w.Kind == szw.Stream {
			size = w.Size()
			if !w.NoCRC {
				crc = w.CRC()
			}
		}

		if f.UncompressedSize != size {
			c.Fail("size", "entry %d: size %d, want %d", i, f.UncompressedSize, size)
		}

		if f.CRC32 != crc {
			c.Fail("crc", "entry %d: CRC %08x, want %08x", i, f.CRC32, crc)
		}

		fi := f.FileInfo()
		if fi.Size() != int64(size) || fi.IsDir() != (w.Kind == szw.Dir) || !fi.ModTime().Equal(f.Modified) || fi.Mode() != f.Mode() || fi.Sys() != any(&f.FileHeader) {
			c.Fail("fileinfo", "entry %d: FileInfo %v differs from the header", i, fs.FormatFileInfo(fi))
		}

		if w.Kind == szw.Stream {
			k := folder[w]
			if a.Folders[k].FolderCRC && a.Folders[k].N == 1 && !w.NoCRC {
				c.Count("folder-digests", 1)
			}

			if s, ok := byFolder[k]; ok && s != f.Stream {
				c.Fail("stream", "entry %d: in the same compressed stream as another entry, but Stream differs (%d, %d)", i, s, f.Stream)
			}

			if s, ok := byStream[f.Stream]; ok && s != k {
				c.Fail("stream", "entry %d: in another compressed stream, but Stream %d is the same", i, f.Stream)
			}

			byFolder[k], byStream[f.Stream] = f.Stream, k
		}
	}
}

// C19: attributes to file mode.
func init() {
	core.Register(&core.Property{
		ID: "C19", Level: "exploration",
		Rule:    "evaluation = one 32-bit attribute value whose mode, type and directory flag are compared with a table oracle. quick: all 2^16 Unix halves with 24 DOS halves and all 2^16 DOS halves with 40 Unix halves; thorough: all 2^32 values. Distinct = distinct resulting modes, from archives too.",
		Cases:   func(t string) int { return 64 + 8 },
		Require: []string{"values", "in-archives"},
		Run:     runC19,
	})
}

var (
	c19Low  = []uint32{0, 1, 0x10, 0x11, 2, 4, 0x20, 0x21, 0x30, 0x31, 0x400, 0x410, 0x411, 0x8000, 0x8001, 0x8010, 0x8011, 0x8020, 0xffff, 0xffee, 0x7fef, 0x2010, 0x80, 0x90}
	c19High = []uint32{0, 0x81a4, 0x41ed, 0xa1ff, 0x0001, 0x0fff, 0x1000, 0x2000, 0x6000, 0xc000, 0x8000, 0x4000, 0xf000, 0x3000, 0x5000, 0x7000, 0x9000, 0xb000, 0xd000, 0xe000, 0x8fff, 0x4fff, 0x8800, 0x8400, 0x8200, 0x0800, 0x0400, 0x0200, 0x0111, 0x0222, 0x0444, 0x01a4, 0x01ed, 0x8100, 0x8001, 0x4001, 0xa001, 0x6001, 0x2001, 0xffff}
)

// wantMode is the mode of an attribute value; typed tells whether the file
// type is defined by it.
func wantMode(a uint32) (m fs.FileMode, typed bool) {
	u := a >> 16
	if u>>12 == 0 { // DOS attributes only
		m = 0o666
		if a&0x10 != 0 {
			m = fs.ModeDir | 0o777
		}

		if a&1 != 0 {
			m &= ^fs.FileMode(0o222)
		}

		return m, true
	}

	types := [16]fs.FileMode{
		1: fs.ModeNamedPipe, 2: fs.ModeDevice | fs.ModeCharDevice, 4: fs.ModeDir, 6: fs.ModeDevice, 8: 0, 10: fs.ModeSymlink, 12: fs.ModeSocket,
	}
	t := u >> 12
	m = fs.FileMode(u&0x1ff) | types[t]

	for bit, f := range map[uint32]fs.FileMode{0x800: fs.ModeSetuid, 0x400: fs.ModeSetgid, 0x200: fs.ModeSticky} {
		if u&bit != 0 {
			m |= f
		}
	}

	return m, types[t] != 0 || t == 8
}

var modeTable [1 << 16]struct {
	m     fs.FileMode
	typed bool
}

func runC19(c *core.Ctx) {
	if c.Case >= 64 {
		modesInArchives(c)

		return
	}

	for u := range modeTable {
		modeTable[u].m, modeTable[u].typed = wantMode(uint32(u) << 16)
	}

	n := 0
	seen := map[fs.FileMode]bool{}

	one := func(a uint32) bool {
		n++

		want, typed := modeTable[a>>16].m, modeTable[a>>16].typed
		if a>>28 == 0 {
			want, typed = wantMode(a)
		}

		h := sevenzip.FileHeader{Attributes: a}
		got := h.Mode()

		if !typed {
			got, want = got&^fs.ModeType, want&^fs.ModeType
		}

		if got != want {
			c.Fail("mode", "attributes %#08x: mode %v (%#o), want %v (%#o)", a, got, uint32(got), want, uint32(want))

			return false
		}

		if n&0xff == 0 {
			fi := h.FileInfo()
			if fi.Mode() != h.Mode() || fi.IsDir() != h.Mode().IsDir() {
				c.Fail("fileinfo", "attributes %#08x: FileInfo mode %v, IsDir %v, header mode %v", a, fi.Mode(), fi.IsDir(), h.Mode())

				return false
			}
		}

		seen[want] = true

		return true
	}

	c.Guard("Mode", func() {
		if c.Thorough() {
			span := uint64(1) << 26
			for v := span * uint64(c.Case); v < span*uint64(c.Case+1); v++ {
				if !one(uint32(v)) {
					return
				}
			}
		} else {
			for v := uint32(c.Case) << 10; v < uint32(c.Case+1)<<10; v++ {
				for _, l := range c19Low {
					if !one(v<<16 | l) {
						return
					}
				}

				for _, h := range c19High {
					if !one(h<<16 | v) {
						return
					}
				}
			}
		}
	})

	for m := range seen {
		c.Distinct("%d", m)
	}

	c.Eval(n)
	c.Count("values", int64(n))

	if c.Case == 0 {
		c.Sample("attributes 0x81a48020 -> %v; 0x11 -> %v", (&sevenzip.FileHeader{Attributes: 0x81a48020}).Mode(), (&sevenzip.FileHeader{Attributes: 0x11}).Mode())
	}
}

// modesInArchives: the same through archives and their file system view.
func modesInArchives(c *core.Ctx) {
	r := c.R

	a := &szw.Archive{}

	var attrs []uint32

	for i := range 500 {
		v := r.Uint32()

		switch r.IntN(4) {
		case 0:
			v = c19High[r.IntN(len(c19High))]<<16 | c19Low[r.IntN(len(c19Low))]
		case 1:
			v &= 0xffff
		}

		m, _ := wantMode(v)

		k := szw.Empty
		if m.IsDir() {
			k = szw.Dir
		}

		// Without attributes it is what else the archive says
		if i%50 == 7 {
			k, v = szw.Dir, 0
			c.Count("bare-dirs", 1)
		}

		attrs = append(attrs, v)
		f := &szw.File{Name: fmt.Sprintf("e%d", i), Kind: k, Attr: &v}
		if v == 0 && i%100 == 7 {
			f.Attr = nil
		}

		a.Files = append(a.Files, f)
	}

	gen.Forms(r, a, &gen.Tune{MaxDict: 1 << 16})

	c.Guard("modes in archive", func() {
		zr, err := open(newImage(a.Build()), "")
		if err != nil {
			c.Fail("archive-error", "%v", err)

			return
		}

		for i, v := range attrs {
			want, typed := wantMode(v)
			if v == 0 && a.Files[i].Kind == szw.Dir {
				want, typed = wantMode(0x10)
			}

			f := zr.File[i]
			c.Eval(1)
			c.Count("in-archives", 1)
			c.Distinct("%d", want)

			if got := f.FileInfo().Mode(); typed && got != want {
				c.Fail("mode", "attributes %#08x in an archive: %v, want %v", v, got, want)
			}

			if !want.IsDir() && typed {
				fi, err := fs.Stat(zr, fmt.Sprintf("e%d", i))
				if err != nil || fi.Mode() != want {
					c.Fail("mode-fs", "fs.Stat of attributes %#08x: %v %v, want %v", v, fi, err, want)
				}
			}
		}
	})
}
