// Package h7z is a copy of the PPMd7 model of github.com/stangelandcl/ppmd
// (see LICENSE) turned around: the range decoder is replaced by an encoder and
// the decision taken at each node comes from the symbol to be coded.
package h7z

type encoder struct {
	rng       uint32
	low       uint64
	cache     byte
	cacheSize uint64
	out       []byte
}

func newEncoder() *encoder { return &encoder{rng: 0xffffffff, cacheSize: 1} }

func (e *encoder) shiftLow() {
	if uint32(e.low) < 0xff000000 || e.low>>32 != 0 {
		c := e.cache
		for ; e.cacheSize != 0; e.cacheSize-- {
			e.out = append(e.out, c+byte(e.low>>32))
			c = 0xff
		}

		e.cache = byte(e.low >> 24)
	}

	e.cacheSize++
	e.low = uint64(uint32(e.low) << 8)
}

func (e *encoder) normalize() {
	for e.rng < 1<<24 {
		e.rng <<= 8
		e.shiftLow()
	}
}

func (e *encoder) encode(start, size, total uint32) {
	e.rng /= total
	e.low += uint64(start) * uint64(e.rng)
	e.rng *= size
	e.normalize()
}

func (e *encoder) encodeBit(size0 uint32, bits uint, bit int) {
	bound := (e.rng >> bits) * size0
	if bit == 0 {
		e.rng = bound
	} else {
		e.low += uint64(bound)
		e.rng -= bound
	}

	e.normalize()
}

// Encode compresses in with the given order and memory size.
func Encode(in []byte, order, mem uint32) []byte {
	m := newModel(order, mem)
	for _, b := range in {
		m.encodeChar(b)
	}

	for range 5 {
		m.enc.shiftLow()
	}

	return m.enc.out
}
