// Package gen draws contents, coder trees and whole archives from a PRNG.
package gen

import (
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/pierrec/lz4/v4"

	"verif/mon/szw"
)

// Rand is the only source of choices.
type Rand = rand.Rand

// New derives a generator from numbers.
func New(seed uint64, stream uint64) *Rand { return rand.New(rand.NewPCG(seed, stream)) }

// Pick returns one of the arguments.
func Pick[T any](r *Rand, v ...T) T { return v[r.IntN(len(v))] }

// Chance is true with probability 1/n.
func Chance(r *Rand, n int) bool { return r.IntN(n) == 0 }

// Size draws a size up to limit, often next to an interesting boundary.
func Size(r *Rand, limit int) int {
	var n int

	switch r.IntN(6) {
	case 0:
		n = Pick(r, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33)
	case 1:
		n = Pick(r, 255, 256, 257, 4095, 4096, 4097, 4100, 8191, 8192, 8193)
	case 2:
		n = Pick(r, 32767, 32768, 32769, 65535, 65536, 65537, 65540, 131072, 131073)
	case 3:
		n = 1 + r.IntN(limit)
	default:
		n = 1 + r.IntN(1<<(1+r.IntN(18)))
	}

	if n > limit {
		n = 1 + r.IntN(limit)
	}

	return n
}

var words = strings.Fields("the quick brown fox jumps over a lazy dog archive stream header coder folder pack unpack size digest seven zip lorem ipsum dolor sit amet 0x90 call jmp 12345 return if else while 漢字 naïve")

// Content draws n bytes.
func Content(r *Rand, n int) []byte { return ContentKind(r, n, r.IntN(12)) }

// ContentKind draws n bytes of a kind (0..11).
func ContentKind(r *Rand, n, kind int) []byte {
	b := make([]byte, 0, n+64)

	switch kind {
	case 0: // zeros
		b = b[:n]
	case 1: // random
		for len(b) < n {
			b = binary.LittleEndian.AppendUint64(b, r.Uint64())
		}
	case 2, 3: // text
		for len(b) < n {
			b = append(b, words[r.IntN(len(words))]...)
			b = append(b, ' ')

			if Chance(r, 9) {
				b = append(b, '\n')
			}
		}
	case 4: // x86
		for len(b) < n {
			switch r.IntN(6) {
			case 0:
				b = append(b, Pick[byte](r, 0xe8, 0xe9))
				b = binary.LittleEndian.AppendUint32(b, uint32(r.IntN(2*n+1)-len(b)))
			case 1:
				b = append(b, 0x0f, 0x80|byte(r.IntN(16)))
				b = binary.LittleEndian.AppendUint32(b, uint32(r.IntN(2*n+1)-len(b)))
			case 2:
				b = append(b, Pick[byte](r, 0xe8, 0xe9, 0x00, 0xff, 0x0f, 0x84, 0xff, 0x00))

				if Chance(r, 3) { // the ends of the displacements' range
					b = binary.LittleEndian.AppendUint32(b, Pick[uint32](r, 0, 0xffffff, 0x1000000, 0xff000000, 0xfeffffff, 0xffffffff, -uint32(len(b)), 0x1000000-uint32(len(b))))
				}
			default:
				for range r.IntN(7) {
					b = append(b, Pick[byte](r, 0x48, 0x89, 0x8b, 0x90, 0xc3, 0x55, 0x00, byte(r.Uint32())))
				}
			}
		}
	case 5: // hostile x86
		for len(b) < n {
			b = append(b, Pick[byte](r, 0xe8, 0xe9, 0xe8, 0x00, 0xff, 0x0f, 0x80, 0x8f, byte(r.Uint32())))
		}
	case 6: // 4-byte ISAs
		for len(b) < n {
			switch r.IntN(9) {
			case 7: // one off the patterns of the instructions
				b = binary.LittleEndian.AppendUint32(b, Pick[uint32](r, 0x94000000, 0x97ffffff, 0x98000000, 0x93ffffff, 0x90000000, 0x9fffffff, 0xeb000000, 0xebffffff, 0xec000000, 0xeaffffff, 0xb0000000, 0xf0ffffff, 0x90e00000, 0x901fffff, 0x90200000, 0x90dfffff)+Pick[uint32](r, 0, 0, 1, 0xffffffff))
			case 8:
				b = binary.BigEndian.AppendUint32(b, Pick[uint32](r, 0x48000001, 0x4bfffffd, 0x48000000, 0x4bffffff, 0x4c000001, 0x47fffffd, 0x40000000, 0x403fffff, 0x40400000, 0x7fc00000, 0x7fffffff, 0x7fbfffff, 0x3fffffff, 0x80000000)+Pick[uint32](r, 0, 0, 1, 0xffffffff))
			case 0: // ARM BL
				b = append(b, byte(r.Uint32()), byte(r.Uint32()), byte(r.Uint32()), 0xeb)
			case 1: // PPC BL
				b = binary.BigEndian.AppendUint32(b, 0x48000001|r.Uint32()&0x03fffffc)
			case 2: // SPARC CALL
				b = binary.BigEndian.AppendUint32(b, Pick[uint32](r, 0x40000000, 0x7fc00000)|r.Uint32()&0x3fffff)
			case 3: // ARM64 BL
				b = binary.LittleEndian.AppendUint32(b, 0x94000000|r.Uint32()&0x03ffffff)
			case 4: // ARM64 ADRP, small
				b = binary.LittleEndian.AppendUint32(b, 0x90000000|r.Uint32()&0x6003ffff|Pick[uint32](r, 0, 0x00e00000, 0x00c00000, 0x00200000))
			default:
				b = binary.LittleEndian.AppendUint32(b, r.Uint32())
			}
		}
	case 7: // ramp (delta)
		ch := 1 + r.IntN(8)
		acc := make([]byte, ch)

		for len(b) < n {
			for c := range acc {
				acc[c] += byte(c + r.IntN(3))
				b = append(b, acc[c])
			}
		}
	case 8: // period
		p := make([]byte, 1+r.IntN(300))
		for i := range p {
			p[i] = byte(r.Uint32())
		}

		for len(b) < n {
			b = append(b, p...)
		}
	case 9: // runs
		for len(b) < n {
			c := byte(r.Uint32())
			for range 1 + r.IntN(600) {
				b = append(b, c)
			}
		}
	case 10: // few symbols
		for len(b) < n {
			b = append(b, "ab\x00\xff"[r.IntN(4)])
		}
	default: // segments of the others
		for len(b) < n {
			b = append(b, ContentKind(r, 1+r.IntN(n/3+1), r.IntN(11))...)
		}
	}

	return b[:n:n]
}

// Tune restricts the coder trees drawn.
type Tune struct {
	Password string // used when encryption is drawn; "" = no encryption
	Encrypt  bool   // always encrypt
	MaxDict  int
	Cheap    bool // only coders with small decoder state
	NoPPMd   bool
}

func lzmaOpt(r *Rand, t *Tune) szw.LZMAOpt {
	o := szw.LZMAOpt{LC: r.IntN(5), LP: r.IntN(5), PB: r.IntN(5)}
	if o.LC+o.LP > 4 {
		o.LP = 4 - o.LC
	}

	if Chance(r, 2) {
		o.LC, o.LP, o.PB = 3, 0, 2
	}

	top := 20
	if t.MaxDict > 0 {
		for top > 12 && 1<<top > t.MaxDict {
			top--
		}
	}

	o.Dict = 1 << (12 + r.IntN(top-11))
	if Chance(r, 4) {
		o.Dict += o.Dict / 2
	}

	return o
}

// AES draws encryption parameters.
func AES(r *Rand, password string) szw.AESOpt {
	o := szw.AESOpt{Password: password, Cycles: r.IntN(8)}

	switch r.IntN(12) {
	case 0:
		o.Cycles = 0x3f
	case 1:
		o.Cycles = 8 + r.IntN(6)
	}

	salt := Pick(r, 0, 0, 1, 8, 15, 16, r.IntN(17))
	iv := Pick(r, 8, 16, 1, 15, r.IntN(17))

	if salt == 0 && iv == 0 {
		iv = 8
	}

	for range salt {
		o.Salt = append(o.Salt, byte(r.Uint32()))
	}

	for range iv {
		o.IV = append(o.IV, byte(r.Uint32()))
	}

	return o
}

// Compressor draws a coder that can stand at the bottom of a chain.
func Compressor(r *Rand, t *Tune) *szw.Method {
	for {
		switch r.IntN(12) {
		case 0:
			return szw.MCopy()
		case 1, 2:
			o := lzmaOpt(r, t)
			o.EOS = r.IntN(2) == 0

			if Chance(r, 5) { // LZMA2 doesn't have these
				o.LC, o.LP = r.IntN(9), r.IntN(5)
			}

			return szw.MLZMA(o)
		case 3:
			return szw.MLZMA2(lzmaOpt(r, t))
		case 4:
			return szw.MLZMA2Multi(lzmaOpt(r, t), 1+r.IntN(40000))
		case 5:
			return szw.MDeflate(Pick(r, 0, 1, 6, 9, -2))
		case 6:
			return szw.MBzip2(Pick(r, 1000+r.IntN(9000), 100000, 700000))
		case 7:
			if Chance(r, 3) {
				return szw.MZstdMT(1+r.IntN(3), 1+r.IntN(4))
			}

			return szw.MZstd(1+r.IntN(3), 1+r.IntN(3))
		case 8:
			if Chance(r, 3) {
				return szw.MBrotliMT(r.IntN(6), 1+r.IntN(5))
			}

			return szw.MBrotli(r.IntN(6), Chance(r, 2))
		case 9:
			if Chance(r, 3) {
				return szw.MLZ4MT(Pick(r, lz4.Block64Kb, lz4.Block256Kb), 1+r.IntN(4), Chance(r, 2))
			}

			return szw.MLZ4(Pick(r, lz4.Block64Kb, lz4.Block256Kb), Chance(r, 2))
		case 10, 11:
			if t.NoPPMd {
				continue
			}

			return szw.MPPMd(uint32(Pick(r, 2, 3, 4, 6, 8, 16, 32, 64, 2+r.IntN(63))), uint32(Pick(r, 1<<11, 1<<14, 1<<16, 1<<18, 1<<20, 1<<11+r.IntN(1<<18))))
		}
	}
}

// Filter draws a one-stream filter.
func Filter(r *Rand) *szw.Method {
	switch r.IntN(6) {
	case 0:
		return szw.MDelta(Pick(r, 1, 2, 3, 4, 8, 255, 256, 1+r.IntN(256)))
	case 1:
		return szw.MBCJ()
	case 2:
		return szw.MARM()
	case 3:
		if Chance(r, 4) {
			return szw.MARM64At(4 * Pick(r, 0, 1, 1024, 1<<30-1, r.Uint32()>>2))
		}

		return szw.MARM64()
	case 4:
		return szw.MPPC()
	default:
		return szw.MSPARC()
	}
}

func base(r *Rand, t *Tune, enc bool) *szw.Method {
	m := Compressor(r, t)
	if enc {
		m.Over(szw.MAES(AES(r, t.Password)))
	}

	return m
}

func policy(r *Rand) szw.BCJ2Policy {
	switch r.IntN(3) {
	case 0:
		return szw.BCJ2Default
	case 1:
		return func(_, _ int, rel uint32) bool { return rel&1 == 0 }
	default:
		return func(int, int, uint32) bool { return true }
	}
}

// Tree draws a coder tree.
func Tree(r *Rand, t *Tune) *szw.Method {
	enc := t.Encrypt || t.Password != "" && Chance(r, 3)

	switch r.IntN(10) {
	case 0, 1, 2:
		return base(r, t, enc)
	case 3, 4, 5:
		return Filter(r).Over(base(r, t, enc))
	case 6: // filter alone on a packed stream (or on AES)
		m := Filter(r)
		if enc {
			m.Over(szw.MAES(AES(r, t.Password)))
		}

		return m
	case 7: // longer chains
		m := base(r, t, enc)
		for range 1 + r.IntN(3) {
			if Chance(r, 4) {
				c := Compressor(r, t)
				m = c.Over(m)
			} else {
				m = Filter(r).Over(m)
			}
		}

		return m
	case 8:
		m := szw.MBCJ2(policy(r))

		for k := range 4 {
			switch {
			case k == 3 && !enc:
			case Chance(r, 4) && !enc:
			case k == 3:
				m.Sub[k] = szw.MAES(AES(r, t.Password))
			default:
				m.Sub[k] = base(r, t, enc)
			}
		}

		return m
	default: // what 7-Zip writes for executables
		a := func() *szw.Method {
			if enc {
				return szw.MAES(AES(r, t.Password))
			}

			return nil
		}
		m := szw.MBCJ2(szw.BCJ2Default, szw.MLZMA(lzmaOpt(r, t)).Over(a()), szw.MLZMA(lzmaOpt(r, t)).Over(a()), szw.MLZMA(lzmaOpt(r, t)).Over(a()))
		m.Sub[3] = a()

		return m
	}
}

// Leaves counts the packed streams of a tree.
func Leaves(m *szw.Method) int {
	n := 0

	for _, s := range m.Sub {
		if s == nil {
			n++
		} else {
			n += Leaves(s)
		}
	}

	return n
}

// Passwords to draw from.
var Passwords = []string{"a", "secret", "Пароль", "パスワード", "p𝄞ss", strings.Repeat("long", 16), "with space", "é"}

// ArchTune restricts the archives drawn.
type ArchTune struct {
	Tune
	MaxFile     int // largest file
	MaxFiles    int
	MaxFolders  int
	PlainNames  bool // f0000.. names, unique
	Plain       bool // canonical header choices
	NoEmptyData bool // no zero-length stream files
	EncHeader   int  // 0 draw, 1 never, 2 always
	OneCoder    func(r *Rand) *szw.Method
}

// Bool attaches optional metadata.
func u64(v uint64) *uint64 { return &v }

// Archive draws a whole archive.
func Archive(r *Rand, t *ArchTune) *szw.Archive {
	a := &szw.Archive{}
	nf := 1 + r.IntN(t.MaxFolders)
	id := 0

	name := func() string {
		id++

		return fmt.Sprintf("d%d/f%04d.bin", id%3, id)
	}

	extra := func() {
		for Chance(r, 5) {
			k := Pick(r, szw.Empty, szw.Dir)
			n := name()

			f := &szw.File{Name: n, Kind: k}
			if k == szw.Dir && !Chance(r, 3) { // the kind is enough
				at := uint32(0x10)
				f.Attr = &at
			}

			a.Files = append(a.Files, f)
		}
	}

	for range nf {
		fd := &szw.Folder{N: 1}
		if Chance(r, 2) {
			fd.N = 1 + r.IntN(t.MaxFiles)
		}

		if t.OneCoder != nil {
			fd.Method = t.OneCoder(r)
		} else {
			fd.Method = Tree(r, &t.Tune)
		}

		fd.FolderCRC = Chance(r, 2)

		if n := Leaves(fd.Method); n > 1 && Chance(r, 2) {
			fd.Permute = r.Perm(n)
		}

		total := 0

		for range fd.N {
			extra()

			sz := Size(r, t.MaxFile)
			if !t.NoEmptyData && fd.N > 1 && Chance(r, 25) {
				sz = 0
			}

			kind := r.IntN(12)
			if (fd.Method.Name == "BCJ" || fd.Method.Name == "BCJ2") && !Chance(r, 4) {
				kind = 4 + r.IntN(2)
			} else if fd.Method.In == 1 && len(fd.Method.Sub) == 1 && Chance(r, 2) && strings.Contains("ARM ARM64 ARM64+ PPC SPARC", fd.Method.Name) {
				kind = 6
			}

			f := &szw.File{Name: name(), Data: ContentKind(r, sz, kind), NoCRC: Chance(r, 10)}
			if Chance(r, 2) {
				f.MTime = u64(116444736000000000 + r.Uint64N(1<<54))
			}

			if Chance(r, 3) {
				at := Pick[uint32](r, 0x20, 0x21, 0x81a48020)
				f.Attr = &at
			}

			total += sz
			a.Files = append(a.Files, f)
		}

		a.Folders = append(a.Folders, fd)
	}

	extra()

	if !t.Plain {
		Forms(r, a, &t.Tune)
	}

	switch {
	case t.EncHeader == 1:
		a.Opts.EncodeHeader = nil
	case t.EncHeader == 2 && a.Opts.EncodeHeader == nil:
		a.Opts.EncodeHeader = szw.MLZMA(szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 16})
		a.Opts.HeaderCRC = true
	}

	return a
}

// Forms draws the writer's free choices.
func Forms(r *Rand, a *szw.Archive, t *Tune) {
	o := &a.Opts
	if Chance(r, 2) {
		o.EncodeHeader = Tree(r, t)
		for o.EncodeHeader.In != 1 {
			o.EncodeHeader = Tree(r, t)
		}

		o.HeaderCRC = !Chance(r, 6)
	}

	if Chance(r, 3) {
		o.LongNumbers = r
	}

	if Chance(r, 4) {
		o.PackGap = uint64(Pick(r, 1, 32, 1000, r.IntN(100000)))
	}

	o.PackCRC = Chance(r, 4)
	o.SomePackCRC = Chance(r, 3)
	o.ExplicitBits = Chance(r, 3)
	o.ExplicitIO = Chance(r, 6)
	o.ForceNumUnpack = Chance(r, 4)
	o.Minor = byte(Pick(r, 2, 3, 4))

	one := true
	for _, f := range a.Folders {
		one = one && f.N == 1
	}

	if one && Chance(r, 6) {
		o.OmitSubStreams = true

		for _, f := range a.Folders {
			f.FolderCRC = true
		}
	}

	for range r.IntN(3) {
		o.Dummy = append(o.Dummy, r.IntN(40))
	}

	if Chance(r, 3) {
		o.PropOrder = r
	}

	o.NamesFirst = o.PropOrder == nil && Chance(r, 8)

	if Chance(r, 6) {
		o.Trailer = Content(r, 1+r.IntN(5000))
	}
}
