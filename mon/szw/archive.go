package szw

import (
	"encoding/binary"
	"hash/crc32"
	"math/rand/v2"
	"unicode/utf16"
)

// Property ids of the format.
const (
	PEnd = iota
	PHeader
	PArchiveProperties
	PAdditionalStreams
	PMainStreams
	PFilesInfo
	PPackInfo
	PUnpackInfo
	PSubStreams
	PSize
	PCRC
	PFolder
	PUnpackSize
	PNumUnpackStream
	PEmptyStream
	PEmptyFile
	PAnti
	PName
	PCTime
	PATime
	PMTime
	PAttr
	PComment
	PEncodedHeader
	PStartPos
	PDummy
)

// Kind of a file entry.
type Kind int

// File kinds.
const (
	Stream Kind = iota // has content
	Empty              // an empty file
	Dir                // a directory
)

// File is one entry.
type File struct {
	Name  string
	Wide  []uint16 // overrides Name when not nil
	Kind  Kind
	Data  []byte
	CTime *uint64
	ATime *uint64
	MTime *uint64
	Attr  *uint32
	NoCRC bool
	// Size and CRC override those of Data (for virtual content).
	Virtual bool
	VSize   uint64
	VCRC    uint32
}

// Size is the uncompressed size.
func (f *File) Size() uint64 {
	if f.Virtual {
		return f.VSize
	}

	return uint64(len(f.Data))
}

// CRC is the CRC-32 of the content.
func (f *File) CRC() uint32 {
	if f.Virtual {
		return f.VCRC
	}

	return crc32.ChecksumIEEE(f.Data)
}

// Folder is a compressed stream holding the next N stream files in order.
type Folder struct {
	Method *Method
	N      int
	// Tail bytes follow the last file's content in the folder's output without
	// belonging to a file. Not allowed by the format; leave 0.
	Permute []int // order of the packed streams, nil for ascending
	// FolderCRC puts the CRC of a one-file folder in the folder digests
	// instead of the sub-stream digests, and that of any other folder in
	// addition to them.
	FolderCRC bool
	// Virtual: the packed stream's size (Copy only); its bytes are not written.
	Virtual bool
	// Shuffle records the coders in a random order (nil: children first). The
	// library lists such archives but only decodes the usual order.
	Shuffle *rand.Rand
}

// Opts are the choices a writer is free to make.
type Opts struct {
	EncodeHeader   *Method
	HeaderCRC      bool // CRC of the encoded header's folder present
	LongNumbers    *rand.Rand
	PackGap        uint64
	PackGapVirtual bool
	PackCRC        bool
	SomePackCRC    bool
	OmitSubStreams bool // only when every folder has one file
	ExplicitBits   bool // write bitmaps even when all are defined
	Dummy          []int
	PropOrder      *rand.Rand // shuffles the order of file properties
	Prefix         []byte
	Trailer        []byte
	ForceNumUnpack bool
	Minor          byte
	ExplicitIO     bool // write in/out counts for simple coders too
	OmitEmptySize  bool
	NamesFirst     bool
	NoNames        bool
	virtualPack    uint64
	// Override replaces the k-th number of the header (counted in the order of
	// writing, property lengths included) by another value.
	Override func(k int, v uint64) uint64
	// EditRaw and EditFinal rewrite the plain and the final header.
	EditRaw, EditFinal func([]byte) []byte
	// EditPack rewrites the packed streams (not that of the header).
	EditPack func([]byte) []byte
	// SigOff and SigSize are added to the fields of the start header.
	SigOff, SigSize uint64
}

// Archive is a logical archive.
type Archive struct {
	Files   []*File
	Folders []*Folder
	Opts    Opts
}

// Region is a named byte range of the produced archive.
type Region struct {
	Name     string
	Off, Len int64
	Folder   int
}

// Built is the physical archive.
type Built struct {
	Bytes   []byte // signature header at len(Prefix); header at the end
	Regions []Region
	// PackStart is the offset of the first byte after the signature header.
	PackStart int64
	// HeaderOff is where the (possibly encoded) header starts in Bytes.
	HeaderOff int64
	HeaderLen int64
	// RawHeader is the plain header (before encoding).
	RawHeader []byte
	// VirtualGap > 0: that many bytes are missing from Bytes at PackStart.
	VirtualGap  uint64
	FolderPack  [][]Region
	PackedTotal int64
}

type buf struct {
	b    []byte
	r    *rand.Rand
	k    *int
	over func(k int, v uint64) uint64
}

func (w *buf) u8(v byte)      { w.b = append(w.b, v) }
func (w *buf) raw(p []byte)   { w.b = append(w.b, p...) }
func (w *buf) u32(v uint32)   { w.b = binary.LittleEndian.AppendUint32(w.b, v) }
func (w *buf) u64le(v uint64) { w.b = binary.LittleEndian.AppendUint64(w.b, v) }

// NumLen is the least number of extra bytes of v's encoding.
func NumLen(v uint64) int {
	for n := range 8 {
		if v < 1<<(7*(n+1)) {
			return n
		}
	}

	return 8
}

// AppendNumber encodes v with n extra bytes (n >= NumLen(v)).
func AppendNumber(b []byte, v uint64, n int) []byte {
	if n == 8 {
		b = append(b, 0xff)

		return binary.LittleEndian.AppendUint64(b, v)
	}

	first := byte(uint32(0xff00) >> n)
	if n < 7 {
		first |= byte(v >> (8 * n))
	}

	b = append(b, first)
	for i := range n {
		b = append(b, byte(v>>(8*i)))
	}

	return b
}

func (w *buf) num(v uint64) {
	if w.over != nil {
		v = w.over(*w.k, v)
		*w.k++
	}

	n := NumLen(v)
	if w.r != nil && w.r.IntN(3) == 0 {
		n += w.r.IntN(9 - n)
	}

	w.b = AppendNumber(w.b, v, n)
}

func (w *buf) bits(v []bool) {
	var b, m byte = 0, 0x80

	for _, x := range v {
		if x {
			b |= m
		}

		if m >>= 1; m == 0 {
			w.u8(b)
			b, m = 0, 0x80
		}
	}

	if m != 0x80 {
		w.u8(b)
	}
}

func (w *buf) optBits(v []bool, explicit bool) {
	all := true
	for _, x := range v {
		all = all && x
	}

	if all && !explicit {
		w.u8(1)
	} else {
		w.u8(0)
		w.bits(v)
	}
}

type folderOut struct {
	coders []*Method
	props  [][]byte
	sizes  []uint64
	bind   [][2]int
	packed []int
	data   [][]byte
	psize  []uint64
	in     int
}

// build emits m's subtree (children first) and returns m's coder index.
func (fo *folderOut) build(m *Method, data []byte) int {
	ins, props := m.Enc(data)
	subOut := make([]int, m.In)

	for k := range m.In {
		subOut[k] = -1
		if m.Sub[k] != nil {
			subOut[k] = fo.build(m.Sub[k], ins[k])
		}
	}

	idx := len(fo.coders)
	fo.coders = append(fo.coders, m)
	fo.props = append(fo.props, props)
	fo.sizes = append(fo.sizes, uint64(len(data)))

	for k := range m.In {
		if subOut[k] >= 0 {
			fo.bind = append(fo.bind, [2]int{fo.in + k, subOut[k]})
		} else {
			fo.packed = append(fo.packed, fo.in+k)
			fo.data = append(fo.data, ins[k])
			fo.psize = append(fo.psize, uint64(len(ins[k])))
		}
	}

	fo.in += m.In

	return idx
}

// shuffle changes the order in which the coders are recorded.
func (fo *folderOut) shuffle(r *rand.Rand) {
	p := r.Perm(len(fo.coders)) // new position -> old position

	var oldIn []int // first input of an old coder

	for i, n := 0, 0; i < len(fo.coders); i++ {
		oldIn = append(oldIn, n)
		n += fo.coders[i].In
	}

	in, out := map[int]int{}, map[int]int{}

	for i, n := 0, 0; i < len(p); i++ {
		out[p[i]] = i

		for k := range fo.coders[p[i]].In {
			in[oldIn[p[i]]+k] = n
			n++
		}
	}

	fo.coders, fo.props, fo.sizes = permute(fo.coders, p), permute(fo.props, p), permute(fo.sizes, p)

	for i, b := range fo.bind {
		fo.bind[i] = [2]int{in[b[0]], out[b[1]]}
	}

	r.Shuffle(len(fo.bind), func(i, j int) { fo.bind[i], fo.bind[j] = fo.bind[j], fo.bind[i] })

	for i, k := range fo.packed {
		fo.packed[i] = in[k]
	}
}

func permute[T any](s []T, p []int) []T {
	if len(p) != len(s) {
		return s
	}

	out := make([]T, len(s))
	for i, k := range p {
		out[i] = s[k]
	}

	return out
}

func (w *buf) folder(fo *folderOut, explicitIO bool) {
	w.num(uint64(len(fo.coders)))

	for i, c := range fo.coders {
		flag := byte(len(c.ID))
		if c.In != 1 || explicitIO {
			flag |= 0x10
		}

		if len(fo.props[i]) > 0 {
			flag |= 0x20
		}

		w.u8(flag)
		w.raw(c.ID)

		if flag&0x10 != 0 {
			w.num(uint64(c.In))
			w.num(1)
		}

		if flag&0x20 != 0 {
			w.num(uint64(len(fo.props[i])))
			w.raw(fo.props[i])
		}
	}

	for _, b := range fo.bind {
		w.num(uint64(b[0]))
		w.num(uint64(b[1]))
	}

	if len(fo.packed) > 1 {
		for _, p := range fo.packed {
			w.num(uint64(p))
		}
	}
}

func (w *buf) digests(def []bool, crc []uint32, explicit bool) {
	w.u8(PCRC)
	w.optBits(def, explicit)

	for i, d := range def {
		if d {
			w.u32(crc[i])
		}
	}
}

func (w *buf) packInfo(pos uint64, fos []*folderOut, o *Opts) {
	w.u8(PPackInfo)
	w.num(pos)

	var (
		sizes []uint64
		def   []bool
		crcs  []uint32
	)

	for _, fo := range fos {
		sizes = append(sizes, fo.psize...)
		for _, d := range fo.data {
			def = append(def, true)
			crcs = append(crcs, crc32.ChecksumIEEE(d))
		}
	}

	w.num(uint64(len(sizes)))
	w.u8(PSize)

	for _, s := range sizes {
		w.num(s)
	}

	if o.PackCRC {
		if o.SomePackCRC { // not of every stream
			for i := range def {
				def[i] = (i+len(sizes))%3 != 0
			}
		}

		w.digests(def, crcs, o.ExplicitBits)
	}

	w.u8(PEnd)
}

func (w *buf) unpackInfo(fos []*folderOut, def []bool, crcs []uint32, o *Opts) {
	w.u8(PUnpackInfo)
	w.u8(PFolder)
	w.num(uint64(len(fos)))
	w.u8(0)

	for _, fo := range fos {
		w.folder(fo, o.ExplicitIO)
	}

	w.u8(PUnpackSize)

	for _, fo := range fos {
		for _, s := range fo.sizes {
			w.num(s)
		}
	}

	for _, d := range def {
		if d {
			w.digests(def, crcs, o.ExplicitBits)

			break
		}
	}

	w.u8(PEnd)
}

func ptr64(f *File, k int) *uint64 {
	switch k {
	case PCTime:
		return f.CTime
	case PATime:
		return f.ATime
	default:
		return f.MTime
	}
}

func (f *File) wide() []uint16 {
	if f.Wide != nil {
		return f.Wide
	}

	return utf16.Encode([]rune(f.Name))
}

func (a *Archive) filesInfo(w *buf) {
	o := &a.Opts

	w.u8(PFilesInfo)
	w.num(uint64(len(a.Files)))

	type prop struct {
		id   byte
		body []byte
	}

	var head, rest []prop

	empty := make([]bool, len(a.Files))
	anyEmpty := false

	var emptyFile []bool

	anyEmptyFile := false

	for i, f := range a.Files {
		if f.Kind != Stream {
			empty[i] = true
			anyEmpty = true

			emptyFile = append(emptyFile, f.Kind == Empty)
			anyEmptyFile = anyEmptyFile || f.Kind == Empty
		}
	}

	if anyEmpty {
		b := &buf{}
		b.bits(empty)
		head = append(head, prop{PEmptyStream, b.b})

		if anyEmptyFile {
			b := &buf{}
			b.bits(emptyFile)
			head = append(head, prop{PEmptyFile, b.b})
		}
	}

	b := &buf{}
	b.u8(0)

	for _, f := range a.Files {
		for _, u := range f.wide() {
			b.u8(byte(u))
			b.u8(byte(u >> 8))
		}

		b.u8(0)
		b.u8(0)
	}

	if !o.NoNames {
		rest = append(rest, prop{PName, b.b})
	}

	for _, k := range []byte{PCTime, PATime, PMTime} {
		def := make([]bool, len(a.Files))
		some := false

		for i, f := range a.Files {
			def[i] = ptr64(f, int(k)) != nil
			some = some || def[i]
		}

		if !some {
			continue
		}

		b := &buf{}
		b.optBits(def, o.ExplicitBits)
		b.u8(0)

		for _, f := range a.Files {
			if t := ptr64(f, int(k)); t != nil {
				b.u64le(*t)
			}
		}

		rest = append(rest, prop{k, b.b})
	}

	def := make([]bool, len(a.Files))
	some := false

	for i, f := range a.Files {
		def[i] = f.Attr != nil
		some = some || def[i]
	}

	if some {
		b := &buf{}
		b.optBits(def, o.ExplicitBits)
		b.u8(0)

		for _, f := range a.Files {
			if f.Attr != nil {
				b.u32(*f.Attr)
			}
		}

		rest = append(rest, prop{PAttr, b.b})
	}

	for _, n := range o.Dummy {
		rest = append(rest, prop{PDummy, make([]byte, n)})
	}

	if o.PropOrder != nil {
		o.PropOrder.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	}

	if o.NamesFirst && !o.NoNames {
		head, rest = append([]prop{rest[0]}, head...), rest[1:]
	}

	for _, p := range append(head, rest...) {
		w.u8(p.id)
		w.num(uint64(len(p.body)))
		w.raw(p.body)
	}

	w.u8(PEnd)
}

// SignatureHeader is the 32-byte start of an archive.
func SignatureHeader(minor byte, off, size uint64, crc uint32) []byte {
	h := make([]byte, 32)
	copy(h, []byte{'7', 'z', 0xbc, 0xaf, 0x27, 0x1c, 0, minor})
	binary.LittleEndian.PutUint64(h[12:], off)
	binary.LittleEndian.PutUint64(h[20:], size)
	binary.LittleEndian.PutUint32(h[28:], crc)
	binary.LittleEndian.PutUint32(h[8:], crc32.ChecksumIEEE(h[12:]))

	return h
}

// Build writes the archive.
func (a *Archive) Build() *Built {
	o := &a.Opts
	bt := &Built{}

	var streams []*File

	for _, f := range a.Files {
		if f.Kind == Stream {
			streams = append(streams, f)
		}
	}

	var fos []*folderOut

	next := 0
	groups := make([][]*File, len(a.Folders))

	for i, fd := range a.Folders {
		groups[i] = streams[next : next+fd.N]
		next += fd.N

		var data []byte

		for _, f := range groups[i] {
			data = append(data, f.Data...)
		}

		fo := &folderOut{}

		if fd.Virtual {
			var n uint64
			for _, f := range groups[i] {
				n += f.Size()
			}

			fo.coders = []*Method{fd.Method}
			fo.props = [][]byte{nil}
			fo.sizes = []uint64{n}
			fo.packed = []int{0}
			fo.data = [][]byte{nil}
			fo.psize = []uint64{n}
			fo.in = 1
		} else {
			fo.build(fd.Method, data)

			if fd.Shuffle != nil {
				fo.shuffle(fd.Shuffle)
			}
		}

		fo.packed = permute(fo.packed, fd.Permute)
		fo.data = permute(fo.data, fd.Permute)
		fo.psize = permute(fo.psize, fd.Permute)
		fos = append(fos, fo)
	}

	if next != len(streams) {
		panic("szw: folders do not cover the stream files")
	}

	var pack []byte

	if o.PackGapVirtual {
		bt.VirtualGap = o.PackGap
	} else if o.virtualPack > 0 {
		bt.VirtualGap = o.virtualPack
	} else {
		for i := range o.PackGap {
			pack = append(pack, byte(i*7))
		}
	}

	base := int64(len(o.Prefix)) + 32

	for i, fo := range fos {
		bt.FolderPack = append(bt.FolderPack, nil)
		for k, d := range fo.data {
			bt.FolderPack[i] = append(bt.FolderPack[i], Region{
				Name: "pack", Off: base + int64(len(pack)), Len: int64(fo.psize[k]), Folder: i,
			})
			pack = append(pack, d...)
		}
	}

	if o.EditPack != nil {
		pack = o.EditPack(pack)
	}

	numbers := 0
	hdr := &buf{r: o.LongNumbers, k: &numbers, over: o.Override}
	hdr.u8(PHeader)

	if len(fos) > 0 {
		hdr.u8(PMainStreams)
		hdr.packInfo(o.PackGap, fos, o)

		fdef := make([]bool, len(fos))
		fcrc := make([]uint32, len(fos))

		for i, fd := range a.Folders {
			if fd.FolderCRC && fd.N == 1 && !groups[i][0].NoCRC {
				fdef[i] = true
				fcrc[i] = groups[i][0].CRC()
			}

			// That of a stream of several files says nothing about the files.
			if fd.FolderCRC && fd.N != 1 && !fd.Virtual {
				fdef[i] = true

				for _, f := range groups[i] {
					fcrc[i] = crc32.Update(fcrc[i], crc32.IEEETable, f.Data)
				}
			}
		}

		hdr.unpackInfo(fos, fdef, fcrc, o)

		if !o.OmitSubStreams {
			hdr.u8(PSubStreams)

			allOne := true
			for _, fd := range a.Folders {
				allOne = allOne && fd.N == 1
			}

			if !allOne || o.ForceNumUnpack {
				hdr.u8(PNumUnpackStream)

				for _, fd := range a.Folders {
					hdr.num(uint64(fd.N))
				}
			}

			anySize := false
			for _, fd := range a.Folders {
				anySize = anySize || fd.N > 1
			}

			if anySize {
				hdr.u8(PSize)

				for _, g := range groups {
					for k := 0; k+1 < len(g); k++ {
						hdr.num(g[k].Size())
					}
				}
			}

			var (
				def  []bool
				crcs []uint32
			)

			for i, g := range groups {
				if len(g) == 1 && fdef[i] {
					continue
				}

				for _, f := range g {
					def = append(def, !f.NoCRC)
					crcs = append(crcs, f.CRC())
				}
			}

			some := false
			for _, d := range def {
				some = some || d
			}

			if some {
				hdr.digests(def, crcs, o.ExplicitBits)
			}

			hdr.u8(PEnd)
		}

		hdr.u8(PEnd)
	}

	if len(a.Files) > 0 {
		a.filesInfo(hdr)
	}

	hdr.u8(PEnd)
	if o.EditRaw != nil {
		hdr.b = o.EditRaw(hdr.b)
	}

	bt.RawHeader = append([]byte(nil), hdr.b...)

	final := hdr.b

	if o.EncodeHeader != nil {
		fo := &folderOut{}
		fo.build(o.EncodeHeader, hdr.b)

		e := &buf{r: o.LongNumbers, k: &numbers, over: o.Override}
		e.u8(PEncodedHeader)

		pos := uint64(len(pack)) + bt.VirtualGap
		for _, d := range fo.data {
			bt.Regions = append(bt.Regions, Region{Name: "hdrpack", Off: base + int64(len(pack)), Len: int64(len(d)), Folder: -1})
			pack = append(pack, d...)
		}

		e.packInfo(pos, []*folderOut{fo}, o)
		e.unpackInfo([]*folderOut{fo}, []bool{o.HeaderCRC}, []uint32{crc32.ChecksumIEEE(hdr.b)}, o)
		e.u8(PEnd)
		final = e.b
	}

	if o.EditFinal != nil {
		final = o.EditFinal(final)
	}

	bt.PackStart = base
	bt.PackedTotal = int64(len(pack))
	bt.HeaderOff = base + int64(len(pack))
	bt.HeaderLen = int64(len(final))

	minor := o.Minor
	if minor == 0 {
		minor = 4
	}

	out := append([]byte(nil), o.Prefix...)

	if len(final) == 1 && o.EditFinal == nil && o.EditRaw == nil { // no content at all: "empty header" form is PHeader PEnd, keep as is
		panic("szw: impossible header")
	}

	out = append(out, SignatureHeader(minor, uint64(len(pack))+bt.VirtualGap+o.SigOff, uint64(len(final))+o.SigSize, crc32.ChecksumIEEE(final))...)
	out = append(out, pack...)
	out = append(out, final...)
	bt.Regions = append(bt.Regions,
		Region{Name: "sig", Off: int64(len(o.Prefix)), Len: 32, Folder: -1},
		Region{Name: "header", Off: bt.HeaderOff, Len: bt.HeaderLen, Folder: -1})
	out = append(out, o.Trailer...)
	bt.Bytes = out

	return bt
}

// BuildVirtual builds an archive whose first folders are virtual; together
// their packed streams take gap bytes, which are left out of Bytes.
func (a *Archive) BuildVirtual(gap uint64) *Built {
	a.Opts.virtualPack = gap
	bt := a.Build()

	return bt
}
