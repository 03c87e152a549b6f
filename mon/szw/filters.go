// Package szw writes 7-Zip archives. It is the reference model the monitors
// compare github.com/bodgit/sevenzip with: it shares no code with it, and every
// filter below is the encoding direction, written from the format's definition.
package szw

import (
	"encoding/binary"
	"hash/crc32"
)

// Delta applies the delta filter with distance dist (1..256).
func Delta(in []byte, dist int) []byte {
	out := make([]byte, len(in))
	for i := range in {
		if i >= dist {
			out[i] = in[i] - in[i-dist]
		} else {
			out[i] = in[i]
		}
	}

	return out
}

func ms86(b byte) bool { return b == 0 || b == 0xff }

// BCJX86 is the x86 branch converter (encoder) over a whole buffer starting at
// virtual address 0.
func BCJX86(in []byte) []byte { return BCJX86At(in, 0) }

// BCJX86At is BCJX86 for a part of a stream that starts at an address.
func BCJX86At(in []byte, ip uint32) []byte {
	buf := append([]byte(nil), in...)
	size := len(buf)

	if size < 5 {
		return buf
	}

	allowed := [8]bool{true, true, true, false, true, false, false, false}
	bitno := [5]uint32{0, 1, 2, 2, 3}

	var (
		prevMask uint32
		prevPos  = ^uint32(4) // -5
		pos      int
	)

	for pos <= size-5 {
		b := buf[pos]
		if b != 0xe8 && b != 0xe9 {
			pos++

			continue
		}

		off := uint32(pos) - prevPos
		prevPos = uint32(pos)

		if off > 5 {
			prevMask = 0
		} else {
			for range off {
				prevMask &= 0x77
				prevMask <<= 1
			}
		}

		b = buf[pos+4]
		if ms86(b) && allowed[(prevMask>>1)&7] && (prevMask>>1) < 0x10 {
			src := binary.LittleEndian.Uint32(buf[pos+1:])

			var dest uint32

			for {
				dest = src + ip + uint32(pos) + 5
				if prevMask == 0 {
					break
				}

				i := bitno[prevMask>>1]
				if !ms86(byte(dest >> (24 - i*8))) {
					break
				}

				src = dest ^ ((uint32(1) << (32 - i*8)) - 1)
			}

			buf[pos+4] = ^(byte((dest>>24)&1) - 1)
			buf[pos+3] = byte(dest >> 16)
			buf[pos+2] = byte(dest >> 8)
			buf[pos+1] = byte(dest)
			pos += 5
			prevMask = 0
		} else {
			pos++
			prevMask |= 1

			if ms86(b) {
				prevMask |= 0x10
			}
		}
	}

	return buf
}

// ARM is the 32-bit ARM (little endian) BL converter.
func ARM(in []byte) []byte { return ARMAt(in, 0) }

// ARMAt is ARM for a part of a stream that starts at an address.
func ARMAt(in []byte, ip uint32) []byte {
	buf := append([]byte(nil), in...)
	for i := 0; i+4 <= len(buf); i += 4 {
		if buf[i+3] != 0xeb {
			continue
		}

		src := uint32(buf[i+2])<<16 | uint32(buf[i+1])<<8 | uint32(buf[i])
		dest := (src<<2 + ip + uint32(i) + 8) >> 2
		buf[i+2], buf[i+1], buf[i] = byte(dest>>16), byte(dest>>8), byte(dest)
	}

	return buf
}

// PPC is the big endian PowerPC BL converter.
func PPC(in []byte) []byte { return PPCAt(in, 0) }

// PPCAt is PPC for a part of a stream that starts at an address.
func PPCAt(in []byte, ip uint32) []byte {
	buf := append([]byte(nil), in...)
	for i := 0; i+4 <= len(buf); i += 4 {
		if buf[i]>>2 != 0x12 || buf[i+3]&3 != 1 {
			continue
		}

		src := uint32(buf[i]&3)<<24 | uint32(buf[i+1])<<16 | uint32(buf[i+2])<<8 | uint32(buf[i+3]&^3)
		dest := ip + uint32(i) + src
		buf[i] = 0x48 | byte(dest>>24)&3
		buf[i+1] = byte(dest >> 16)
		buf[i+2] = byte(dest >> 8)
		buf[i+3] = buf[i+3]&3 | byte(dest)&^3
	}

	return buf
}

// SPARC is the SPARC CALL converter.
func SPARC(in []byte) []byte { return SPARCAt(in, 0) }

// SPARCAt is SPARC for a part of a stream that starts at an address.
func SPARCAt(in []byte, ip uint32) []byte {
	buf := append([]byte(nil), in...)
	for i := 0; i+4 <= len(buf); i += 4 {
		if !(buf[i] == 0x40 && buf[i+1]&0xc0 == 0) && !(buf[i] == 0x7f && buf[i+1]&0xc0 == 0xc0) {
			continue
		}

		src := binary.BigEndian.Uint32(buf[i:]) << 2
		dest := (ip + uint32(i) + src) >> 2
		dest = ((-((dest >> 22) & 1)) << 22 & 0x3fffffff) | (dest & 0x3fffff) | 0x40000000
		binary.BigEndian.PutUint32(buf[i:], dest)
	}

	return buf
}

// ARM64 is the AArch64 BL/ADRP converter.
func ARM64(in []byte) []byte { return ARM64At(in, 0) }

// ARM64At is ARM64 for a part of a stream that starts at an address.
func ARM64At(in []byte, ip uint32) []byte {
	buf := append([]byte(nil), in...)
	for i := 0; i+4 <= len(buf); i += 4 {
		pc := ip + uint32(i)
		ins := binary.LittleEndian.Uint32(buf[i:])

		switch {
		case ins>>26 == 0x25:
			ins = 0x94000000 | (ins+pc>>2)&0x03ffffff
		case ins&0x9f000000 == 0x90000000:
			src := (ins>>29)&3 | (ins>>3)&0x001ffffc
			if (src+0x00020000)&0x001c0000 != 0 {
				continue
			}

			ins &= 0x9000001f
			dest := src + pc>>12
			ins |= (dest & 3) << 29
			ins |= (dest & 0x0003fffc) << 3
			ins |= (0 - dest&0x00020000) & 0x00e00000
		default:
			continue
		}

		binary.LittleEndian.PutUint32(buf[i:], ins)
	}

	return buf
}

// rangeEnc is the carry-propagating range encoder of LZMA, BCJ2 and PPMd7z.
type rangeEnc struct {
	low       uint64
	rng       uint32
	cache     byte
	cacheSize uint64
	out       []byte
}

func newRangeEnc() *rangeEnc { return &rangeEnc{rng: 0xffffffff, cacheSize: 1} }

func (e *rangeEnc) shiftLow() {
	if uint32(e.low) < 0xff000000 || e.low>>32 != 0 {
		c := e.cache
		for ; e.cacheSize != 0; e.cacheSize-- {
			e.out = append(e.out, c+byte(e.low>>32))
			c = 0xff
		}

		e.cache = byte(e.low >> 24)
	}

	e.cacheSize++
	e.low = uint64(uint32(e.low) << 8)
}

func (e *rangeEnc) normalize() {
	for e.rng < 1<<24 {
		e.rng <<= 8
		e.shiftLow()
	}
}

func (e *rangeEnc) flush() []byte {
	for range 5 {
		e.shiftLow()
	}

	return e.out
}

// BCJ2Policy decides whether the branch at index pos (of its opcode byte) with
// relative operand rel in a buffer of n bytes is converted.
type BCJ2Policy func(pos, n int, rel uint32) bool

// BCJ2Default converts branches whose target lies inside the buffer.
func BCJ2Default(pos, n int, rel uint32) bool {
	return rel+uint32(pos)+5 < uint32(n)
}

// BCJ2 splits in into the four streams main, call, jump and rc.
func BCJ2(in []byte, conv BCJ2Policy) (mainS, call, jump, rc []byte) {
	var probs [258]uint32
	for i := range probs {
		probs[i] = 1024
	}

	// Newer encoders normalize in front of a bit, which may leave out the last
	// byte, and have no bit for a branch that is the last byte.
	sum := crc32.ChecksumIEEE(in)
	lazy, noTail := sum&1 != 0, sum&2 != 0

	e := newRangeEnc()
	bit := func(i int, one bool) {
		if lazy {
			e.normalize()
		}

		bound := (e.rng >> 11) * probs[i]
		if !one {
			e.rng = bound
			probs[i] += (2048 - probs[i]) >> 5
		} else {
			e.low += uint64(bound)
			e.rng -= bound
			probs[i] -= probs[i] >> 5
		}

		if !lazy {
			e.normalize()
		}
	}

	var prev byte

	for i := 0; i < len(in); i++ {
		b := in[i]
		mainS = append(mainS, b)

		if b&0xfe != 0xe8 && !(prev == 0x0f && b&0xf0 == 0x80) {
			prev = b

			continue
		}

		idx := 257
		if b == 0xe8 {
			idx = int(prev)
		} else if b == 0xe9 {
			idx = 256
		}

		if noTail && i == len(in)-1 {
			break
		}

		if i+5 <= len(in) {
			rel := binary.LittleEndian.Uint32(in[i+1:])
			if conv(i, len(in), rel) {
				bit(idx, true)

				dest := rel + uint32(i) + 5
				if b == 0xe8 {
					call = binary.BigEndian.AppendUint32(call, dest)
				} else {
					jump = binary.BigEndian.AppendUint32(jump, dest)
				}

				prev = in[i+4]
				i += 4

				continue
			}
		}

		bit(idx, false)

		prev = b
	}

	return mainS, call, jump, e.flush()
}
