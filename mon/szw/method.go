package szw

import (
	"bytes"
	"compress/flate"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"unicode/utf16"

	"github.com/andybalholm/brotli"
	"github.com/klauspost/compress/zstd"
	"github.com/pierrec/lz4/v4"
	"github.com/ulikunitz/xz/lzma"

	"verif/mon/internal/h7z"
)

// Method is one node of a folder's coder tree. Enc turns the coder's output
// (what a reader gets) into its input streams and property bytes. Sub[k], when
// not nil, encodes input stream k further; otherwise the stream is packed.
type Method struct {
	Name string
	ID   []byte
	In   int
	Enc  func(data []byte) (ins [][]byte, props []byte)
	Sub  []*Method
}

// String is the chain in reading order, e.g. "BCJ<LZMA<AES".
func (m *Method) String() string {
	s := m.Name
	if m.In == 1 {
		if m.Sub[0] != nil {
			s += "<" + m.Sub[0].String()
		}

		return s
	}

	s += "("

	for i, c := range m.Sub {
		if i > 0 {
			s += ","
		}

		if c == nil {
			s += "-"
		} else {
			s += c.String()
		}
	}

	return s + ")"
}

// Uses reports whether the tree has a node of that name.
func (m *Method) Uses(name string) bool {
	if m == nil {
		return false
	}

	if m.Name == name {
		return true
	}

	for _, c := range m.Sub {
		if c.Uses(name) {
			return true
		}
	}

	return false
}

// Over puts m on top of sub (sub encodes m's first input) and returns m.
func (m *Method) Over(sub *Method) *Method {
	m.Sub[0] = sub

	return m
}

func one(name string, id []byte, enc func([]byte) ([]byte, []byte)) *Method {
	return &Method{Name: name, ID: id, In: 1, Sub: make([]*Method, 1), Enc: func(d []byte) ([][]byte, []byte) {
		s, p := enc(d)

		return [][]byte{s}, p
	}}
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("szw: encoder: %v", err))
	}
}

// Method identifiers.
var (
	IDCopy    = []byte{0x00}
	IDDelta   = []byte{0x03}
	IDARM64   = []byte{0x0a}
	IDLZMA2   = []byte{0x21}
	IDLZMA    = []byte{0x03, 0x01, 0x01}
	IDBCJ     = []byte{0x03, 0x03, 0x01, 0x03}
	IDBCJ2    = []byte{0x03, 0x03, 0x01, 0x1b}
	IDPPC     = []byte{0x03, 0x03, 0x02, 0x05}
	IDARM     = []byte{0x03, 0x03, 0x05, 0x01}
	IDSPARC   = []byte{0x03, 0x03, 0x08, 0x05}
	IDPPMD    = []byte{0x03, 0x04, 0x01}
	IDDeflate = []byte{0x04, 0x01, 0x08}
	IDBzip2   = []byte{0x04, 0x02, 0x02}
	IDZstd    = []byte{0x04, 0xf7, 0x11, 0x01}
	IDBrotli  = []byte{0x04, 0xf7, 0x11, 0x02}
	IDLZ4     = []byte{0x04, 0xf7, 0x11, 0x04}
	IDAES     = []byte{0x06, 0xf1, 0x07, 0x01}
)

// MCopy stores.
func MCopy() *Method {
	return one("Copy", IDCopy, func(d []byte) ([]byte, []byte) { return append([]byte(nil), d...), nil })
}

// MDelta is the delta filter.
func MDelta(dist int) *Method {
	return one(fmt.Sprintf("Delta:%d", dist), IDDelta, func(d []byte) ([]byte, []byte) {
		return Delta(d, dist), []byte{byte(dist - 1)}
	})
}

func filter(name string, id []byte, f func([]byte) []byte) *Method {
	return one(name, id, func(d []byte) ([]byte, []byte) { return f(d), nil })
}

// Branch filters.
func MBCJ() *Method   { return filter("BCJ", IDBCJ, BCJX86) }
func MARM() *Method   { return filter("ARM", IDARM, ARM) }
func MARM64() *Method { return filter("ARM64", IDARM64, ARM64) }
func MPPC() *Method   { return filter("PPC", IDPPC, PPC) }
func MSPARC() *Method { return filter("SPARC", IDSPARC, SPARC) }

// MARM64At is MARM64 with the offset of the code as its properties.
func MARM64At(offset uint32) *Method {
	return one("ARM64+", IDARM64, func(d []byte) ([]byte, []byte) {
		return ARM64At(append([]byte(nil), d...), offset), binary.LittleEndian.AppendUint32(nil, offset)
	})
}

// MBCJ2 splits x86 code in four streams; subs encode main, call and jump.
func MBCJ2(conv BCJ2Policy, subs ...*Method) *Method {
	m := &Method{Name: "BCJ2", ID: IDBCJ2, In: 4, Sub: make([]*Method, 4)}
	copy(m.Sub, subs)
	m.Enc = func(d []byte) ([][]byte, []byte) {
		a, b, c, r := BCJ2(d, conv)

		return [][]byte{a, b, c, r}, nil
	}

	return m
}

// LZMAOpt are LZMA parameters.
type LZMAOpt struct {
	LC, LP, PB int
	Dict       int
	EOS        bool
}

func (o LZMAOpt) props() []byte {
	p := make([]byte, 5)
	p[0] = byte((o.PB*5+o.LP)*9 + o.LC)
	binary.LittleEndian.PutUint32(p[1:], uint32(o.Dict))

	return p
}

// MLZMA is raw LZMA.
func MLZMA(o LZMAOpt) *Method {
	return one("LZMA", IDLZMA, func(d []byte) ([]byte, []byte) {
		var b bytes.Buffer

		w, err := lzma.WriterConfig{
			Properties: &lzma.Properties{LC: o.LC, LP: o.LP, PB: o.PB}, DictCap: o.Dict,
			SizeInHeader: !o.EOS, Size: int64(len(d)), EOSMarker: o.EOS,
		}.NewWriter(&b)
		must(err)
		_, err = w.Write(d)
		must(err)
		must(w.Close())

		return append([]byte(nil), b.Bytes()[13:]...), o.props()
	})
}

func lzma2DictByte(n int) byte {
	for i := range byte(40) {
		if (2|(int(i)&1))<<(i/2+11) >= n {
			return i
		}
	}

	return 40
}

// MLZMA2 is LZMA2; stored > 0 writes the first stored bytes as uncompressed
// chunks of at most chunk bytes.
func MLZMA2(o LZMAOpt) *Method {
	return one("LZMA2", IDLZMA2, func(d []byte) ([]byte, []byte) {
		var b bytes.Buffer

		w, err := lzma.Writer2Config{
			Properties: &lzma.Properties{LC: o.LC, LP: o.LP, PB: o.PB}, DictCap: o.Dict,
		}.NewWriter2(&b)
		must(err)
		writeLZMA2(w, d, o.Dict)

		return b.Bytes(), []byte{lzma2DictByte(o.Dict)}
	})
}

// writeLZMA2 ends the chunks at least every dict bytes: the encoder writes
// broken stored chunks when they are larger than its dictionary.
func writeLZMA2(w *lzma.Writer2, d []byte, dict int) {
	for len(d) > 0 {
		n := min(len(d), dict, 1<<20)

		_, err := w.Write(d[:n])
		must(err)

		if d = d[n:]; dict < 1<<17 {
			must(w.Flush())
		}
	}

	must(w.Close())
}

// MLZMA2Multi is LZMA2 as independent parts of part bytes each (what 7-Zip
// writes with several threads): dictionary resets in the middle; every third
// part is stored uncompressed.
func MLZMA2Multi(o LZMAOpt, part int) *Method {
	return one("LZMA2multi", IDLZMA2, func(d []byte) ([]byte, []byte) {
		var out []byte

		for k := 0; len(d) > 0; k++ {
			n := min(part, len(d))
			p := d[:n]
			d = d[n:]

			if k%3 == 2 {
				for first := true; len(p) > 0; first = false {
					m := min(len(p), 1<<16)
					c := byte(2)

					if first {
						c = 1
					}

					out = append(out, c, byte((m-1)>>8), byte(m-1))
					out = append(out, p[:m]...)
					p = p[m:]
				}

				continue
			}

			var b bytes.Buffer

			w, err := lzma.Writer2Config{
				Properties: &lzma.Properties{LC: o.LC, LP: o.LP, PB: o.PB}, DictCap: o.Dict,
			}.NewWriter2(&b)
			must(err)
			writeLZMA2(w, p, o.Dict)

			out = append(out, b.Bytes()[:b.Len()-1]...)
		}

		return append(out, 0), []byte{lzma2DictByte(o.Dict)}
	})
}

// MDeflate is raw deflate.
func MDeflate(level int) *Method {
	return one("Deflate", IDDeflate, func(d []byte) ([]byte, []byte) {
		var b bytes.Buffer

		w, err := flate.NewWriter(&b, level)
		must(err)
		_, err = w.Write(d)
		must(err)
		must(w.Close())

		return b.Bytes(), nil
	})
}

// MBzip2 is bzip2 with blocks of at most block input bytes.
func MBzip2(block int) *Method {
	return one("Bzip2", IDBzip2, func(d []byte) ([]byte, []byte) { return Bzip2(d, block), nil })
}

// MZstd is Zstandard, in frames frames.
func MZstd(level, frames int) *Method {
	return one("Zstd", IDZstd, func(d []byte) ([]byte, []byte) {
		var out []byte

		w, err := zstd.NewWriter(nil, zstd.WithEncoderLevel(zstd.EncoderLevel(level)), zstd.WithEncoderConcurrency(1))
		must(err)

		for f := range frames {
			a, b := len(d)*f/frames, len(d)*(f+1)/frames
			out = w.EncodeAll(d[a:b], out)
		}

		must(w.Close())

		return out, []byte{1, 5, 3, 0, 0}
	})
}

// mtFrame is the skippable frame that the multithreading variants put in front
// of every chunk.
func mtFrame(size int, extra ...byte) []byte {
	h := make([]byte, 12, 12+len(extra))
	binary.LittleEndian.PutUint32(h, 0x184d2a50)
	binary.LittleEndian.PutUint32(h[4:], uint32(4+len(extra)))
	binary.LittleEndian.PutUint32(h[8:], uint32(size))

	return append(h, extra...)
}

// chunks splits d evenly.
func chunks(d []byte, n int) (out [][]byte) {
	for f := range n {
		out = append(out, d[len(d)*f/n:len(d)*(f+1)/n])
	}

	return out
}

// MZstdWindow is Zstd with a large window.
func MZstdWindow(window int) *Method {
	return one("Zstd", IDZstd, func(d []byte) ([]byte, []byte) {
		w, err := zstd.NewWriter(nil, zstd.WithWindowSize(window), zstd.WithEncoderConcurrency(1), zstd.WithEncoderLevel(zstd.SpeedBetterCompression))
		must(err)

		var b bytes.Buffer

		w.Reset(&b)
		_, err = w.Write(d)
		must(err)
		must(w.Close())

		return b.Bytes(), []byte{1, 5, 22, 0, 0}
	})
}

// MBrotliWindow is Brotli with a window of 2^lgwin bytes.
func MBrotliWindow(quality, lgwin int) *Method {
	return one("Brotli", IDBrotli, func(d []byte) ([]byte, []byte) {
		var b bytes.Buffer

		w := brotli.NewWriterOptions(&b, brotli.WriterOptions{Quality: quality, LGWin: lgwin})
		_, err := w.Write(d)
		must(err)
		must(w.Close())

		return b.Bytes(), []byte{1, 0, 11, 0, 0}
	})
}

// MZstdMT is Zstandard as written with several threads.
func MZstdMT(level, frames int) *Method {
	return one("ZstdMT", IDZstd, func(d []byte) ([]byte, []byte) {
		var out []byte

		w, err := zstd.NewWriter(nil, zstd.WithEncoderLevel(zstd.EncoderLevel(level)), zstd.WithEncoderConcurrency(1))
		must(err)

		for _, x := range chunks(d, frames) {
			f := w.EncodeAll(x, nil)
			out = append(append(out, mtFrame(len(f))...), f...)
		}

		must(w.Close())

		return out, []byte{1, 5, 3, 0, 0}
	})
}

// MLZ4MT is LZ4 as written with several threads.
func MLZ4MT(bs lz4.BlockSize, frames int, size bool) *Method {
	return one("LZ4MT", IDLZ4, func(d []byte) ([]byte, []byte) {
		var out []byte

		for _, x := range chunks(d, frames) {
			var b bytes.Buffer

			w := lz4.NewWriter(&b)
			must(w.Apply(lz4.BlockSizeOption(bs), lz4.ConcurrencyOption(1)))

			if size {
				must(w.Apply(lz4.SizeOption(uint64(len(x)))))
			}

			_, err := w.Write(x)
			must(err)
			must(w.Close())

			out = append(append(out, mtFrame(b.Len())...), b.Bytes()...)
		}

		return out, []byte{1, 9, 3, 0, 0}
	})
}

// MBrotliMT is Brotli as written with several threads.
func MBrotliMT(quality, frames int) *Method {
	return one("BrotliMT", IDBrotli, func(d []byte) ([]byte, []byte) {
		var out []byte

		for _, x := range chunks(d, frames) {
			var b bytes.Buffer

			w := brotli.NewWriterLevel(&b, quality)
			_, err := w.Write(x)
			must(err)
			must(w.Close())

			n := (len(x) + 65535) >> 16
			out = append(append(out, mtFrame(b.Len(), 'B', 'R', byte(n), byte(n>>8))...), b.Bytes()...)
		}

		return out, []byte{1, 0, 3}
	})
}

// MBrotli is Brotli, with 7-Zip's frame header in front when frame is set.
func MBrotli(quality int, frame bool) *Method {
	name := "Brotli"
	if frame {
		name = "Brotli7z"
	}

	return one(name, IDBrotli, func(d []byte) ([]byte, []byte) {
		var b bytes.Buffer

		w := brotli.NewWriterLevel(&b, quality)
		_, err := w.Write(d)
		must(err)
		must(w.Close())

		out := b.Bytes()
		if frame {
			h := make([]byte, 16, 16+len(out))
			binary.LittleEndian.PutUint32(h, 0x184d2a50)
			binary.LittleEndian.PutUint32(h[4:], 8)
			binary.LittleEndian.PutUint32(h[8:], uint32(len(out)))
			binary.LittleEndian.PutUint16(h[12:], 0x5242)
			binary.LittleEndian.PutUint16(h[14:], uint16((len(d)+65535)>>16))
			out = append(h, out...)
		}

		return out, []byte{1, 0, 3}
	})
}

// MLZ4 is an LZ4 frame.
func MLZ4(bs lz4.BlockSize, linked bool) *Method {
	return one("LZ4", IDLZ4, func(d []byte) ([]byte, []byte) {
		var b bytes.Buffer

		w := lz4.NewWriter(&b)
		must(w.Apply(lz4.BlockSizeOption(bs), lz4.ChecksumOption(linked), lz4.ConcurrencyOption(1)))
		_, err := w.Write(d)
		must(err)
		must(w.Close())

		return b.Bytes(), []byte{1, 9, 3, 0, 0}
	})
}

// MPPMd is PPMd variant H.
func MPPMd(order, mem uint32) *Method {
	return one("PPMD", IDPPMD, func(d []byte) ([]byte, []byte) {
		p := make([]byte, 5)
		p[0] = byte(order)
		binary.LittleEndian.PutUint32(p[1:], mem)

		return h7z.Encode(d, order, mem), p
	})
}

// AESOpt are the parameters of the AES coder.
type AESOpt struct {
	Password string
	Cycles   int // 0..24, or 0x3f for the raw key
	Salt     []byte
	IV       []byte // 0..16 bytes, zero-extended
}

// Key derives the AES key from a password.
func (o AESOpt) Key() []byte {
	b := append([]byte(nil), o.Salt...)
	for _, u := range utf16.Encode([]rune(o.Password)) {
		b = append(b, byte(u), byte(u>>8))
	}

	if o.Cycles == 0x3f {
		key := make([]byte, 32)
		copy(key, b)

		return key
	}

	h := sha256.New()
	n := len(b)
	b = append(b, make([]byte, 8)...)

	for i := range uint64(1) << o.Cycles {
		binary.LittleEndian.PutUint64(b[n:], i)
		h.Write(b)
	}

	return h.Sum(nil)
}

// Props are the property bytes.
func (o AESOpt) Props() []byte {
	p := []byte{byte(o.Cycles), 0}
	if n := len(o.Salt); n > 0 {
		p[0] |= 0x80
		p[1] |= byte(n-1) << 4
	}

	if n := len(o.IV); n > 0 {
		p[0] |= 0x40
		p[1] |= byte(n - 1)
	}

	p = append(p, o.Salt...)

	return append(p, o.IV...)
}

// MAES encrypts with AES-256-CBC.
func MAES(o AESOpt) *Method {
	return one("AES", IDAES, func(d []byte) ([]byte, []byte) {
		out := make([]byte, (len(d)+15)/16*16)
		copy(out, d)

		blk, err := aes.NewCipher(o.Key())
		must(err)

		iv := make([]byte, 16)
		copy(iv, o.IV)

		if len(out) > 0 {
			cipher.NewCBCEncrypter(blk, iv).CryptBlocks(out, out)
		}

		return [][]byte{out}[0], o.Props()
	})
}
