package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"io/fs"
	"math/bits"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"runtime/metrics"

	"github.com/bodgit/sevenzip"
	"github.com/pierrec/lz4/v4"

	"verif/mon/core"
	"verif/mon/gen"
	"verif/mon/szw"
)

// C07: hostile input never panics or hangs.
func init() {
	core.Register(&core.Property{
		ID: "C07", Level: "exploration",
		Rule:     "case = 40 hostile archives of one class: bytes of the plain or encoded header mutated (checksums recomputed), numbers of the header replaced by extreme values, headers from a random grammar, random bytes behind a valid signature header, packed data damaged or cut, coder properties damaged, coder graphs rewired, hostile entry names, raw file mutations; each is opened, listed, walked and read. A panic, a crash of the process, a read that breaks the io.Reader contract or a case that burns more than its CPU budget is a violation. Distinct = distinct (class, outcome of opening, outcomes of reading).",
		Cases:    tierN(2200, 40000),
		CPULimit: 100,
		Workers:  8,
		Require:  []string{"opened", "rejected", "read-ok", "read-error", "open-file-error", "class.raw", "class.final", "class.numbers", "class.grammar", "class.noise", "class.pack", "class.props", "class.file", "class.graph", "class.sample", "class.names"},
		Run:      runC07,
	})
}

var interesting = []uint64{
	0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1000, 1023, 1024, 1025, 65535, 65536, 1 << 20, 1<<24 - 1, 1<<31 - 1, 1 << 31,
	1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40, 1<<62 - 1, 1 << 62, 1<<63 - 33, 1<<63 - 32, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 33, 1<<64 - 32, 1<<64 - 2, 1<<64 - 1,
}

// mangle applies a few edits to b.
func mangle(r *rand.Rand, b []byte, edits int) []byte {
	b = append([]byte(nil), b...)

	for range edits {
		if len(b) == 0 {
			b = append(b, byte(r.Uint32()))

			continue
		}

		o := r.IntN(len(b))

		switch r.IntN(9) {
		case 0:
			b[o] ^= 1 << r.IntN(8)
		case 1:
			b[o] = byte(r.Uint32())
		case 2:
			b[o] = gen.Pick[byte](r, 0, 1, 2, 0x7f, 0x80, 0xff, 0xfe, b[o]+1, b[o]-1)
		case 3: // insert a number
			n := szw.AppendNumber(nil, interesting[r.IntN(len(interesting))], 8)
			if r.IntN(2) == 0 {
				v := interesting[r.IntN(len(interesting))]
				n = szw.AppendNumber(nil, v, szw.NumLen(v))
			}

			b = append(b[:o:o], append(n, b[o:]...)...)
		case 4: // overwrite with a number
			v := interesting[r.IntN(len(interesting))]
			copy(b[o:], szw.AppendNumber(nil, v, szw.NumLen(v)))
		case 5: // delete
			e := min(len(b), o+1+r.IntN(6))
			b = append(b[:o:o], b[e:]...)
		case 6: // duplicate
			e := min(len(b), o+1+r.IntN(30))
			b = append(b[:e:e], b[o:]...)
		case 7: // cut
			if r.IntN(4) == 0 {
				b = b[:o]
			}
		case 8: // property ids in other places
			b[o] = byte(r.IntN(26))
		}
	}

	return b
}

// grammar writes a header of random structure.
type grammar struct {
	r *rand.Rand
	b []byte
}

func (g *grammar) n(v uint64) {
	if g.r.IntN(25) == 0 {
		v = interesting[g.r.IntN(len(interesting))]
	}

	g.b = szw.AppendNumber(g.b, v, szw.NumLen(v))
}

func (g *grammar) id(v byte) {
	if g.r.IntN(60) == 0 {
		v = byte(g.r.IntN(27))
	}

	if g.r.IntN(60) == 0 {
		return
	}

	g.b = append(g.b, v)
}

func (g *grammar) junk(n int) {
	for range n {
		g.b = append(g.b, byte(g.r.Uint32()))
	}
}

func (g *grammar) bits(n int) {
	if g.r.IntN(2) == 0 {
		g.b = append(g.b, 1)

		return
	}

	g.b = append(g.b, 0)
	g.junk((n + 7) / 8)
}

var coderIDs = [][]byte{
	{0}, {3}, {3, 1, 1}, {3, 3, 1, 3}, {3, 3, 1, 0x1b}, {3, 3, 2, 5}, {3, 3, 5, 1}, {3, 3, 8, 5}, {4, 1, 8}, {4, 2, 2}, {4, 0xf7, 0x11, 1}, {4, 0xf7, 0x11, 2},
	{4, 0xf7, 0x11, 4}, {6, 0xf1, 7, 1}, {0x0a}, {0x21}, {3, 4, 1}, {}, {9, 9, 9},
}

// harmless limits the memory a coder may legitimately ask for.
func props(r *rand.Rand, id []byte) []byte {
	switch fmt.Sprintf("%x", id) {
	case "030101":
		return binary.LittleEndian.AppendUint32([]byte{byte(r.IntN(226))}, uint32(r.IntN(1<<22)))
	case "21":
		return []byte{byte(r.IntN(20))}
	case "030401":
		return binary.LittleEndian.AppendUint32([]byte{byte(r.IntN(66))}, uint32(r.IntN(1<<22)))
	case "06f10701":
		n := r.IntN(36)
		p := make([]byte, n)
		for i := range p {
			p[i] = byte(r.Uint32())
		}

		if n > 0 {
			p[0] = p[0]&0xc0 | gen.Pick[byte](r, 0, 3, 8, 0x3f, 25, 62)
		}

		return p
	case "03":
		return []byte{byte(r.Uint32())}
	default:
		p := make([]byte, r.IntN(7))
		for i := range p {
			p[i] = byte(r.Uint32())
		}

		return p
	}
}

func (g *grammar) folder() (out int) {
	r := g.r
	n := 1 + r.IntN(3)
	g.n(uint64(n))

	in := 0

	for range n {
		id := coderIDs[r.IntN(len(coderIDs))]
		p := props(r, id)
		if r.IntN(8) == 0 {
			p = nil
		}

		k := 1
		if len(id) == 4 && id[3] == 0x1b {
			k = 4
		}

		if r.IntN(10) == 0 {
			k = 1 + r.IntN(5)
		}

		o := 1
		if r.IntN(15) == 0 {
			o = 1 + r.IntN(2)
		}

		f := byte(len(id))
		if k != 1 || o != 1 || r.IntN(9) == 0 {
			f |= 0x10
		}

		if len(p) > 0 {
			f |= 0x20
		}

		g.b = append(g.b, f)
		g.b = append(g.b, id...)

		if f&0x10 != 0 {
			g.n(uint64(k))
			g.n(uint64(o))
		} else {
			k, o = 1, 1
		}

		if f&0x20 != 0 {
			g.n(uint64(len(p)))
			g.b = append(g.b, p...)
		}

		in += k
		out += o
	}

	used := 0

	for i := range out - 1 {
		a, b := r.IntN(in), r.IntN(out)
		if r.IntN(2) == 0 { // a plain chain
			a, b = min(i+1, in-1), i
		}

		g.n(uint64(a))
		g.n(uint64(b))

		used++
	}

	if k := in - used; k > 1 {
		for i := range k {
			if r.IntN(2) == 0 {
				g.n(uint64(i))
			} else {
				g.n(uint64(r.IntN(in)))
			}
		}
	}

	return out
}

func (g *grammar) streams(pack int, depth int) (folders int) {
	r := g.r

	if r.IntN(20) > 0 {
		g.id(szw.PPackInfo)
		g.n(uint64(r.IntN(3)) * uint64(r.IntN(40)))

		n := 1 + r.IntN(4)
		g.n(uint64(n))

		if r.IntN(20) > 0 {
			g.id(szw.PSize)

			for range n {
				g.n(uint64(r.IntN(pack + 1)))
			}
		}

		if r.IntN(5) == 0 {
			g.id(szw.PCRC)
			g.bits(n)
			g.junk(4 * n)
		}

		g.id(szw.PEnd)
	}

	if r.IntN(20) > 0 {
		g.id(szw.PUnpackInfo)
		g.id(szw.PFolder)

		folders = 1 + r.IntN(3)
		if depth == 1 && r.IntN(4) > 0 {
			folders = 1
		}

		g.n(uint64(folders))
		g.id(0)

		total := 0
		for range folders {
			total += g.folder()
		}

		g.id(szw.PUnpackSize)

		for range total {
			g.n(uint64(r.IntN(2 * pack)))
		}

		if r.IntN(3) == 0 {
			g.id(szw.PCRC)
			g.bits(folders)
			g.junk(4 * folders)
		}

		g.id(szw.PEnd)
	}

	if r.IntN(3) > 0 {
		g.id(szw.PSubStreams)

		total := folders

		if r.IntN(2) == 0 {
			g.id(szw.PNumUnpackStream)

			total = 0

			for range folders {
				k := r.IntN(4)
				g.n(uint64(k))
				total += k
			}
		}

		if total > folders || r.IntN(9) == 0 {
			g.id(szw.PSize)

			for range max(0, total-folders) {
				g.n(uint64(r.IntN(pack + 1)))
			}
		}

		if r.IntN(2) == 0 {
			g.id(szw.PCRC)
			g.bits(total)
			g.junk(4 * total)
		}

		g.id(szw.PEnd)
	}

	g.id(szw.PEnd)

	return folders
}

func (g *grammar) files() {
	r := g.r
	n := 1 + r.IntN(7)

	g.id(szw.PFilesInfo)
	g.n(uint64(n))

	for range r.IntN(7) {
		id := byte(szw.PEmptyStream + r.IntN(12))
		start := len(g.b)
		body := &grammar{r: r}

		switch id {
		case szw.PEmptyStream, szw.PEmptyFile, szw.PAnti:
			body.junk((n + 7) / 8)
		case szw.PName:
			body.b = append(body.b, 0)

			for k := range n {
				for range r.IntN(6) {
					body.b = append(body.b, gen.Pick[byte](r, 'a', '/', '.', '\\', byte(k)), gen.Pick[byte](r, 0, 0, 0, 0xd8, 0xdc))
				}

				body.b = append(body.b, 0, 0)
			}
		case szw.PCTime, szw.PATime, szw.PMTime, szw.PStartPos:
			body.bits(n)
			body.b = append(body.b, 0)
			body.junk(8 * n)
		case szw.PAttr:
			body.bits(n)
			body.b = append(body.b, 0)
			body.junk(4 * n)
		default:
			body.junk(r.IntN(9))
		}

		g.id(id)
		g.n(uint64(len(body.b)))
		g.b = append(g.b, body.b...)

		_ = start
	}

	g.id(szw.PEnd)
}

// header writes a whole random header.
func (g *grammar) header(pack int) {
	if g.r.IntN(5) == 0 {
		g.b = append(g.b, szw.PEncodedHeader)
		g.streams(pack, 1)

		return
	}

	g.b = append(g.b, szw.PHeader)

	if g.r.IntN(12) > 0 {
		g.id(szw.PMainStreams)
		g.streams(pack, 0)
	}

	if g.r.IntN(12) > 0 {
		g.files()
	}

	g.id(szw.PEnd)
}

func wrapFile(pack, header []byte) []byte {
	b := szw.SignatureHeader(4, uint64(len(pack)), uint64(len(header)), crc32.ChecksumIEEE(header))
	b = append(b, pack...)

	return append(b, header...)
}

// anyMethod picks a coder of a tree.
func anyMethod(r *rand.Rand, m *szw.Method) *szw.Method {
	var all []*szw.Method

	var walk func(*szw.Method)

	walk = func(m *szw.Method) {
		if m == nil {
			return
		}

		all = append(all, m)
		for _, s := range m.Sub {
			walk(s)
		}
	}
	walk(m)

	return all[r.IntN(len(all))]
}

func hostileTune(c *core.Ctx) gen.ArchTune {
	t := gen.ArchTune{MaxFile: 3000, MaxFiles: 4, MaxFolders: 2}
	t.MaxDict = 1 << 18

	if c.R.IntN(4) == 0 {
		t.MaxFile = 100
	}

	if c.R.IntN(10) == 0 {
		t.MaxFile = 70000
	}

	return t
}

var classes = []string{"raw", "final", "numbers", "grammar", "noise", "pack", "props", "file", "graph", "pack", "raw", "numbers", "sample", "names"}

func runC07(c *core.Ctx) {
	class := classes[c.Case%len(classes)]
	r := c.R
	n := 40

	a, pw := drawArchive(c, hostileTune(c))
	noteArchive(c, a)
	c.Trace("class %s base %s", class, describe(a))

	base := a.Build()

	for k := range n {
		if c.Failed() {
			return
		}

		b := a.Opts // restored below

		var file []byte

		switch class {
		case "raw":
			a.Opts.EditRaw = func(h []byte) []byte { return mangle(r, h, 1+r.IntN(4)) }
			if r.IntN(8) > 0 {
				a.Opts.EncodeHeader = nil
			}

			file = a.Build().Bytes
		case "final":
			if a.Opts.EncodeHeader == nil {
				a.Opts.EncodeHeader = szw.MDelta(1 + r.IntN(4))
			}

			a.Opts.EditFinal = func(h []byte) []byte { return mangle(r, h, 1+r.IntN(4)) }
			file = a.Build().Bytes
		case "numbers":
			if r.IntN(4) > 0 {
				a.Opts.EncodeHeader = nil
			}

			total := 0
			a.Opts.Override = func(k int, v uint64) uint64 { total = k + 1; return v }
			a.Build()

			sel := map[int]uint64{}
			for range 1 + r.IntN(3) {
				sel[r.IntN(total)] = interesting[r.IntN(len(interesting))]
			}

			a.Opts.Override = func(k int, v uint64) uint64 {
				if x, ok := sel[k]; ok {
					switch x % 5 {
					case 0:
						return v + 1
					case 1:
						return v - 1
					}

					return x
				}

				return v
			}

			if r.IntN(6) == 0 {
				a.Opts.SigOff = interesting[r.IntN(len(interesting))]
			}

			if r.IntN(6) == 0 {
				a.Opts.SigSize = interesting[r.IntN(len(interesting))]
			}

			file = a.Build().Bytes
		case "grammar":
			g := &grammar{r: r}
			pack := gen.Content(r, 1+r.IntN(500))
			g.header(len(pack))
			file = wrapFile(pack, g.b)
		case "noise":
			h := gen.Content(r, 1+r.IntN(300))
			h[0] = gen.Pick[byte](r, szw.PHeader, szw.PEncodedHeader, h[0])
			file = wrapFile(gen.Content(r, r.IntN(100)), h)
		case "pack":
			a.Opts.EditPack = func(p []byte) []byte {
				if r.IntN(3) == 0 && len(p) > 40 { // keep the start intact
					return append(append([]byte(nil), p[:len(p)/2]...), mangle(r, p[len(p)/2:], 1+r.IntN(9))...)
				}

				return mangle(r, p, 1+r.IntN(6))
			}
			file = a.Build().Bytes
		case "props":
			fd := a.Folders[r.IntN(len(a.Folders))]
			m := anyMethod(r, fd.Method)

			if r.IntN(6) == 0 && a.Opts.EncodeHeader != nil {
				m = anyMethod(r, a.Opts.EncodeHeader)
			}

			enc, id := m.Enc, m.ID
			m.Enc = func(data []byte) ([][]byte, []byte) {
				in, p := enc(data)

				switch r.IntN(4) {
				case 0:
					p = props(r, m.ID)
				case 1:
					p = p[:r.IntN(len(p)+1)]
				case 2:
					p = append(append([]byte(nil), p...), byte(r.Uint32()))
				default:
					if len(p) > 0 && len(p) != 5 {
						p = append([]byte(nil), p...)
						p[r.IntN(len(p))] ^= 1 << r.IntN(8)
					}
				}

				if len(p) > 0 && bytes.Equal(id, szw.IDAES) && p[0]&0x3f > 12 && p[0]&0x3f < 25 {
					p[0] -= 12 // deriving such keys is slow, legitimately
				}

				return in, p
			}

			if r.IntN(6) == 0 { // the same bytes as another method
				m.ID = coderIDs[r.IntN(len(coderIDs))]
			}

			file = a.Build().Bytes
			m.Enc, m.ID = enc, id
		case "names":
			files := a.Files
			a.Files = nil

			for _, f := range files {
				g := *f
				g.Wide = hostileName(r)
				a.Files = append(a.Files, &g)
			}

			for range gen.Pick(r, 1, 5, 60) {
				attr := gen.Pick[uint32](r, 0, 0x10, 0x20, 0x8010, r.Uint32())
				a.Files = append(a.Files, &szw.File{Wide: hostileName(r), Kind: gen.Pick(r, szw.Empty, szw.Dir), Attr: &attr})
			}

			file = a.Build().Bytes
			a.Files = files
		case "file":
			file = mangle(r, base.Bytes, 1+r.IntN(5))
		case "graph":
			g := &grammar{r: r}
			pack := gen.Content(r, 1+r.IntN(300))
			g.b = append(g.b, szw.PHeader, szw.PMainStreams, szw.PPackInfo, 0)
			np := 1 + r.IntN(5)
			g.b = append(g.b, byte(np), szw.PSize)

			for range np {
				g.b = append(g.b, byte(r.IntN(60)))
			}

			g.b = append(g.b, szw.PEnd, szw.PUnpackInfo, szw.PFolder, 1, 0)
			out := g.folder()
			g.b = append(g.b, szw.PUnpackSize)

			for range out {
				g.b = append(g.b, byte(r.IntN(100)))
			}

			g.b = append(g.b, szw.PEnd, szw.PEnd, szw.PFilesInfo, 1, szw.PName, 5, 0, 'a', 0, 0, 0, szw.PEnd, szw.PEnd)
			file = wrapFile(pack, g.b)
		case "sample":
			s := samples[(c.Case/len(classes)+k)%len(samples)]
			raw := loadSample(c, s)
			pw = s.password

			if len(raw) > 1<<20 || s.name == "sfx.exe" {
				continue
			}

			off := int(binary.LittleEndian.Uint64(raw[12:]))
			size := int(binary.LittleEndian.Uint64(raw[20:]))
			pack, hdr := raw[32:32+off], raw[32+off:32+off+size]

			switch r.IntN(3) {
			case 0:
				hdr = mangle(r, hdr, 1+r.IntN(3))
			case 1:
				pack = append(mangle(r, pack[:min(len(pack), 2000)], 1+r.IntN(4)), pack[min(len(pack), 2000):]...)
			default:
				pack = mangle(r, pack, 1+r.IntN(4))
			}

			file = wrapFile(pack, hdr)
		}

		a.Opts = b

		c.Count("class."+class, 1)
		out := exercise(c, fmt.Sprintf("%s %d", class, k), file, pw)
		c.Eval(1)
		c.Distinct("%s %s", class, out)

		if c.Failed() {
			c.Trace("archive of %d bytes: %s", len(file), clipHex(file))
		}

		if k == 0 {
			c.Sample("%s, %d bytes: %s", class, len(file), out)
		}
	}

	var m runtime.MemStats

	runtime.ReadMemStats(&m)

	if m.HeapSys-m.HeapReleased > 1<<30 {
		debug.FreeOSMemory()
	}
}

// hostileName is a name made to confuse whatever cleans, splits or sorts names.
func hostileName(r *rand.Rand) []uint16 {
	w := []uint16{}
	sep := func() uint16 { return gen.Pick[uint16](r, '/', '/', '/', '\\') }

	for range r.IntN(4) { // leading separators
		w = append(w, sep())
	}

	n := r.IntN(6)
	if gen.Chance(r, 60) {
		n = 1000 + r.IntN(6000)
	}

	for range n {
		for _, c := range gen.Pick(r, "", ".", "..", "...", "a", "b", "a", "C:", "C:.", ". ", "..a", " ", "a.", "con", "~") {
			w = append(w, uint16(c))
		}

		if gen.Chance(r, 5) {
			w = append(w, gen.Pick[uint16](r, 0xd800, 0xdc00, 0xfffd, 0xfeff, 1, 0x2215, 0xff0f, uint16(1+r.IntN(0xffff))))
		}

		for range gen.Pick(r, 0, 1, 1, 1, 1, 2, 3) {
			w = append(w, sep())
		}
	}

	return w
}

func clipHex(b []byte) string {
	if len(b) > 6000 {
		return fmt.Sprintf("%x...", b[:6000])
	}

	return fmt.Sprintf("%x", b)
}

// exercise opens, lists, walks and reads; only contract violations count.
func exercise(c *core.Ctx, what string, file []byte, pw string) (outcome string) {
	r := c.R

	c.Guard(what, func() {
		zr, err := open(&image{b: file}, pw)
		if err != nil {
			c.Count("rejected", 1)

			outcome = "rejected: " + trimErr(err)

			return
		}

		c.Count("opened", 1)

		outcome = fmt.Sprintf("%d entries", len(zr.File))

		budget := int64(2 << 20)

		for i, f := range zr.File {
			if i >= 30 || budget <= 0 {
				break
			}

			fi := f.FileInfo()
			_, _, _, _, _ = fi.Name(), fi.Size(), fi.IsDir(), fi.Mode(), fi.ModTime().String()

			rc, err := f.Open()
			if err != nil {
				c.Count("open-file-error", 1)

				var re *sevenzip.ReadError
				if !errors.As(err, &re) {
					c.Fail("open-error-type", "%s: File.Open failed with %T %v, not a *ReadError", what, err, err)
				}

				outcome += " o:" + trimErr(err)

				continue
			}

			limit := min(f.UncompressedSize, uint64(budget))
			d := drain(&capReader{r: rc, left: int64(limit) + 1}, readSizes(r), int64(limit)+(1<<21))
			budget -= int64(len(d.data)) + 1000

			switch {
			case d.bad != "":
				c.Fail("read-contract", "%s: file %d: %s", what, i, d.bad)
			case uint64(len(d.data)) > f.UncompressedSize:
				c.Fail("read-too-much", "%s: file %d: more than the declared %d bytes delivered", what, i, f.UncompressedSize)
			case errors.Is(d.err, errNoProgress):
				c.Fail("no-progress", "%s: file %d: 1000 reads returned 0, nil", what, i)
			case d.err != nil:
				c.Count("read-error", 1)

				outcome += " r:" + trimErr(d.err)
			default:
				c.Count("read-ok", 1)

				outcome += " ok"
			}

			if r.IntN(8) > 0 {
				_ = rc.Close()
			}
		}

		n := 0
		err = fs.WalkDir(zr, ".", func(p string, d fs.DirEntry, err error) error {
			if n++; n > 400 {
				return fs.SkipAll
			}

			if !fs.ValidPath(p) {
				c.Fail("walk-path", "%s: walk visits the invalid path %q", what, p)
			}

			if d != nil {
				_, _ = d.Info()
			}

			return nil
		})
		if err != nil {
			c.Count("walk-error", 1)
		}

		_, _ = fs.Stat(zr, "a")
	})

	if len(outcome) > 300 {
		outcome = outcome[:300]
	}

	return outcome
}

// capReader stops after a number of bytes as if at the end.
type capReader struct {
	r    io.Reader
	left int64
}

func (c *capReader) Read(p []byte) (int, error) {
	if c.left <= 0 {
		return 0, io.EOF
	}

	n, err := c.r.Read(p)
	c.left -= int64(n)

	return n, err
}

func trimErr(err error) string {
	s := err.Error()
	if len(s) > 70 {
		s = s[:70]
	}

	return s
}

// heapAllocated is the total of bytes ever allocated.
func heapAllocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)

	return s[0].Value.Uint64()
}

// C20: memory is bounded by the input, not by what the header claims.
func init() {
	core.Register(&core.Property{
		ID: "C20", Level: "fault_enumeration",
		Rule:     "case = one archive (coders without a dictionary size of their own); every number of its header (counts, sizes, positions, lengths, coder graph indices; also those of an encoded header and of the start header) is replaced, one at a time, by each of 15 extreme values (thorough: all 46, and pairs), checksums recomputed; opening, listing, walking and reading the first bytes must stay below 16 MiB + 4096 bytes of allocation per byte of input, under an address space limit; and coders with dictionaries, windows or models of 4 KiB to 64 MiB, which opening the archive must not allocate and starting to read an entry at most one and a half times plus 12 MiB. Distinct = distinct (number index, value, outcome).",
		Cases:    tierN(120, 1500),
		MaxAS:    8 << 30,
		CPULimit: 200,
		Require:  []string{"numbers", "opened", "rejected", "sig-fields", "dictionaries", "several-numbers"},
		Run:      runC20,
	})
}

var extreme = []uint64{0, 1, 255, 65535, 1 << 20, 1 << 24, 1<<28 + 3, 1<<31 - 1, 1<<32 - 1, 1 << 32, 1 << 40, 1<<62 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}

func plainCoder(r *rand.Rand) *szw.Method {
	switch r.IntN(9) {
	case 0:
		return szw.MDeflate(6)
	case 1:
		return szw.MBzip2(3000)
	case 2:
		return szw.MLZ4(lz4.Block64Kb, false)
	case 3:
		return szw.MBrotli(3, r.IntN(2) == 0)
	case 4:
		return szw.MZstd(1, 1)
	case 5:
		return szw.MDelta(1 + r.IntN(256)).Over(szw.MBCJ())
	case 6:
		return szw.MBCJ2(szw.BCJ2Default)
	default:
		return szw.MCopy()
	}
}

// dictionaries: what starting to read takes beside the recorded sizes.
func dictionaries(c *core.Ctx) {
	const mib = 1 << 20

	r := c.R
	size := gen.Pick(r, 1<<12, 1<<16, 1<<20, 3<<20, 16<<20, 40<<20, 1<<(12+r.IntN(15)))
	z := szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 16}

	m := gen.Pick(r, func() *szw.Method {
		return askProps(szw.MLZMA(z), func(p []byte) { binary.LittleEndian.PutUint32(p[1:], uint32(size)) })
	}, func() *szw.Method {
		b := byte(0)
		for ; (2|(int(b)&1))<<(b/2+11) < size; b++ { //nolint:revive
		}

		size = (2 | (int(b) & 1)) << (b/2 + 11)

		return askProps(szw.MLZMA2(z), func(p []byte) { p[0] = b })
	}, func() *szw.Method {
		return szw.MPPMd(6, uint32(size))
	}, func() *szw.Method {
		size = max(1<<10, 1<<(bits.Len(uint(size))-1))

		return szw.MZstdWindow(size)
	}, func() *szw.Method {
		n := min(24, max(10, bits.Len(uint(size))))
		size = 1 << n

		return szw.MBrotliWindow(5, n)
	})()

	a := &szw.Archive{}
	folders := 1 + r.IntN(3)

	for k := range folders {
		a.Files = append(a.Files, &szw.File{Name: fmt.Sprint(k), Data: gen.ContentKind(r, 2000, 2)})
		a.Folders = append(a.Folders, &szw.Folder{Method: m, N: 1})
	}

	bt := a.Build()
	c.Trace("%d x %s, %d", folders, m.Name, size)
	c.Distinct("dictionary %s %d", m.Name, size)

	c.Guard("dictionary", func() {
		before := heapAllocated()

		zr, err := open(newImage(bt), "")
		if err != nil {
			c.Fail("archive-error", "%s of %d: %v", m.Name, size, err)

			return
		}

		c.Eval(1)

		if d := heapAllocated() - before; d > 8*mib {
			c.Fail("memory:open", "opening an archive with %s of %d allocated %d bytes", m.Name, size, d)
		}

		for _, f := range zr.File {
			before = heapAllocated()

			rc, err := f.Open()
			if err == nil {
				_, err = rc.Read(make([]byte, 100))
			}

			if err != nil {
				c.Fail("read-error", "%s of %d: %v", m.Name, size, err)

				return
			}

			d := heapAllocated() - before
			c.Eval(1)
			c.Count("dictionaries", 1)
			c.Trace("%d bytes", d)

			if d > uint64(size)*3/2+12*mib {
				c.Fail("memory:start", "starting to read %s of %d allocated %d bytes", m.Name, size, d)
			}

			_ = rc.Close()
		}
	})
}

func runC20(c *core.Ctx) {
	if c.Case%6 == 5 {
		for range 10 {
			dictionaries(c)
		}

		return
	}

	r := c.R
	t := gen.ArchTune{MaxFile: 300, MaxFiles: 5, MaxFolders: 3, OneCoder: plainCoder}
	a := gen.Archive(r, &t)
	a.Opts.Prefix, a.Opts.LongNumbers = nil, nil

	if a.Opts.EncodeHeader != nil {
		a.Opts.EncodeHeader = gen.Pick(r, szw.MCopy(), szw.MDelta(2), szw.MDeflate(6))
	}

	total := 0
	a.Opts.Override = func(k int, v uint64) uint64 { total = k + 1; return v }
	a.Build()

	c.Sample("%s: %d numbers", describe(a), total)
	c.Trace("%s: %d numbers", describe(a), total)

	values := extreme
	if c.Thorough() {
		values = interesting
	}

	try := func(what string) {
		file := a.Build().Bytes
		bound := uint64(16<<20) + 4096*uint64(len(file))

		c.Eval(1)

		before := heapAllocated()
		out := ""

		c.Guard(what, func() {
			zr, err := open(&image{b: file}, "")
			if err != nil {
				c.Count("rejected", 1)

				out = "rejected"
			} else {
				c.Count("opened", 1)

				out = fmt.Sprintf("opened %d", len(zr.File))
				_ = listing(zr)
			}

			if d := heapAllocated() - before; d > bound {
				c.Fail("memory:open", "%s: opening and listing an archive of %d bytes allocated %d bytes (%s)", what, len(file), d, out)
			}

			if err != nil {
				return
			}

			// Reading: not more than what was asked for, plus the decoders' state.
			buf := make([]byte, 32<<10)
			before = heapAllocated()
			opens := 0

			for i, f := range zr.File {
				if i > 4 {
					break
				}

				rc, err := f.Open()
				opens++

				if err != nil {
					continue
				}

				for range 8 {
					if _, err := rc.Read(buf); err != nil {
						break
					}
				}

				_ = rc.Close()
			}

			if d := heapAllocated() - before; d > uint64(opens)*(12<<20)+bound {
				c.Fail("memory:read", "%s: reading the first 256 KiB of %d files of an archive of %d bytes allocated %d bytes", what, opens, len(file), d)
			}

			before = heapAllocated()

			_ = fs.WalkDir(zr, ".", func(string, fs.DirEntry, error) error { return nil })

			if d := heapAllocated() - before; d > bound {
				c.Fail("memory:walk", "%s: walking an archive of %d bytes allocated %d bytes", what, len(file), d)
			}
		})

		c.Distinct("%s %s", what, out)
	}

	for k := 0; k < total && !c.Failed(); k++ {
		for _, v := range values {
			k2, v2 := -1, uint64(0)
			if c.Thorough() && r.IntN(2) == 0 {
				k2, v2 = r.IntN(total), extreme[r.IntN(len(extreme))]
			}

			a.Opts.Override = func(n int, old uint64) uint64 {
				switch n {
				case k:
					return v
				case k2:
					return v2
				}

				return old
			}

			c.Count("numbers", 1)
			try(fmt.Sprintf("number %d of %d set to %d (%d: %d)", k, total, v, k2, v2))
		}
	}

	// Several at once: a count, and the length of what is counted.
	for range 500 {
		if c.Failed() || total < 2 {
			break
		}

		set := map[int]uint64{}
		for range 2 + r.IntN(2) {
			set[r.IntN(total)] = gen.Pick(r, values...)
		}

		a.Opts.Override = func(n int, old uint64) uint64 {
			if v, ok := set[n]; ok {
				return v
			}

			return old
		}

		c.Count("several-numbers", 1)
		try(fmt.Sprintf("of %d numbers %v", total, set))
	}

	a.Opts.Override = nil

	for _, v := range values {
		for f := range 3 {
			a.Opts.SigOff, a.Opts.SigSize = 0, 0

			if f != 1 {
				a.Opts.SigOff = v
			}

			if f != 0 {
				a.Opts.SigSize = v
			}

			c.Count("sig-fields", 1)
			try(fmt.Sprintf("start header fields +%d (%d)", v, f))
		}
	}
}
