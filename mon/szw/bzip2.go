package szw

import (
	"bytes"
	"sort"
)

// bzip2 encoder: naive but complete (RLE1, BWT, MTF/RLE2, canonical Huffman
// with two identical tables), enough to produce valid multi-block streams.

type bitWriter struct {
	out  []byte
	acc  uint64
	bits uint
}

func (w *bitWriter) write(n uint, v uint64) {
	for n > 0 {
		k := min(n, 32)
		w.acc = w.acc<<k | (v>>(n-k))&(1<<k-1)
		w.bits += k
		n -= k

		for w.bits >= 8 {
			w.out = append(w.out, byte(w.acc>>(w.bits-8)))
			w.bits -= 8
		}
	}
}

func bzCRC(p []byte) uint32 {
	c := ^uint32(0)

	for _, b := range p {
		c ^= uint32(b) << 24
		for range 8 {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
	}

	return ^c
}

func huffLengths(freq []int, maxLen int) []int {
	n := len(freq)

	for scale := 0; ; scale++ {
		type node struct{ w, l, r, sym int }

		var nodes []node

		live := []int{}

		for i, f := range freq {
			w := f
			if w == 0 {
				w = 1
			}

			w = w>>scale | 1
			nodes = append(nodes, node{w, -1, -1, i})
			live = append(live, i)
		}

		for len(live) > 1 {
			sort.SliceStable(live, func(a, b int) bool { return nodes[live[a]].w < nodes[live[b]].w })
			nodes = append(nodes, node{nodes[live[0]].w + nodes[live[1]].w, live[0], live[1], -1})
			live = append(live[2:], len(nodes)-1)
		}

		lens := make([]int, n)
		ok := true

		var walk func(i, d int)

		walk = func(i, d int) {
			if nodes[i].sym >= 0 {
				lens[nodes[i].sym] = max(d, 1)
				if d > maxLen {
					ok = false
				}

				return
			}

			walk(nodes[i].l, d+1)
			walk(nodes[i].r, d+1)
		}
		walk(live[0], 0)

		if ok {
			return lens
		}
	}
}

func huffCodes(lens []int) []uint32 {
	codes := make([]uint32, len(lens))

	var code uint32

	for l := 1; l <= 20; l++ {
		for i, x := range lens {
			if x == l {
				codes[i] = code
				code++
			}
		}

		code <<= 1
	}

	return codes
}

// bwt by prefix doubling over the cyclic rotations.
func bwt(s []byte) ([]byte, int) {
	n := len(s)
	sa := make([]int, n)
	rank := make([]int, n)
	tmp := make([]int, n)

	for i := range sa {
		sa[i] = i
		rank[i] = int(s[i])
	}

	for k := 1; ; k *= 2 {
		key := func(i int) (int, int) { return rank[i], rank[(i+k)%n] }
		sort.Slice(sa, func(a, b int) bool {
			a1, a2 := key(sa[a])
			b1, b2 := key(sa[b])

			if a1 != b1 {
				return a1 < b1
			}

			return a2 < b2
		})

		tmp[sa[0]] = 0
		for i := 1; i < n; i++ {
			a1, a2 := key(sa[i-1])
			b1, b2 := key(sa[i])
			tmp[sa[i]] = tmp[sa[i-1]]

			if a1 != b1 || a2 != b2 {
				tmp[sa[i]]++
			}
		}

		copy(rank, tmp)

		if rank[sa[n-1]] == n-1 || k >= n {
			break
		}
	}

	out := make([]byte, n)
	orig := -1

	for i, p := range sa {
		out[i] = s[(p+n-1)%n]
		if p == 0 {
			orig = i
		}
	}

	return out, orig
}

func bzBlock(w *bitWriter, raw []byte) uint32 {
	crc := bzCRC(raw)

	// RLE1
	var s []byte

	for i := 0; i < len(raw); {
		j := i
		for j < len(raw) && raw[j] == raw[i] && j-i < 255 {
			j++
		}

		run := j - i
		for k := 0; k < run && k < 4; k++ {
			s = append(s, raw[i])
		}

		if run >= 4 {
			s = append(s, byte(run-4))
		}

		i = j
	}

	last, orig := bwt(s)

	var used [256]bool
	for _, b := range last {
		used[b] = true
	}

	var mtf []byte

	for i := range used {
		if used[i] {
			mtf = append(mtf, byte(i))
		}
	}

	nsym := len(mtf) + 2
	eob := nsym - 1

	var syms []int

	zeros := 0
	flush := func() {
		for zeros > 0 {
			if zeros&1 == 1 {
				syms = append(syms, 0)
				zeros = (zeros - 1) / 2
			} else {
				syms = append(syms, 1)
				zeros = (zeros - 2) / 2
			}
		}
	}

	for _, b := range last {
		k := bytes.IndexByte(mtf, b)
		copy(mtf[1:k+1], mtf[:k])
		mtf[0] = b

		if k == 0 {
			zeros++
		} else {
			flush()

			syms = append(syms, k+1)
		}
	}

	flush()

	syms = append(syms, eob)

	w.write(48, 0x314159265359)
	w.write(32, uint64(crc))
	w.write(1, 0)
	w.write(24, uint64(orig))

	var big uint64

	for i := range 16 {
		for j := range 16 {
			if used[i*16+j] {
				big |= 1 << (15 - i)

				break
			}
		}
	}

	w.write(16, big)

	for i := range 16 {
		if big>>(15-i)&1 == 0 {
			continue
		}

		var m uint64

		for j := range 16 {
			if used[i*16+j] {
				m |= 1 << (15 - j)
			}
		}

		w.write(16, m)
	}

	freq := make([]int, nsym)
	for _, x := range syms {
		freq[x]++
	}

	lens := huffLengths(freq, 17)
	codes := huffCodes(lens)
	nsel := (len(syms) + 49) / 50

	w.write(3, 2)
	w.write(15, uint64(nsel))

	for range nsel {
		w.write(1, 0)
	}

	for range 2 {
		cur := lens[0]
		w.write(5, uint64(cur))

		for _, l := range lens {
			for cur < l {
				w.write(2, 2)
				cur++
			}

			for cur > l {
				w.write(2, 3)
				cur--
			}

			w.write(1, 0)
		}
	}

	for _, x := range syms {
		w.write(uint(lens[x]), uint64(codes[x]))
	}

	return crc
}

// Bzip2 compresses in into blocks of at most blockSize bytes of input.
func Bzip2(in []byte, blockSize int) []byte {
	w := &bitWriter{}
	w.write(24, 0x425a68)
	w.write(8, '9')

	var all uint32

	for len(in) > 0 {
		k := min(blockSize, len(in))
		c := bzBlock(w, in[:k])
		all = all<<1 | all>>31
		all ^= c
		in = in[k:]
	}

	w.write(48, 0x177245385090)
	w.write(32, uint64(all))

	if w.bits > 0 {
		w.write(8-w.bits, 0)
	}

	return w.out
}
