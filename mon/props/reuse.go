package props

import (
	"bytes"
	"fmt"
	"io"
	"sync/atomic"

	"github.com/bodgit/sevenzip"

	"verif/mon/core"
	"verif/mon/gen"
	"verif/mon/szw"
)

// C15: sequential extraction is linear.
func init() {
	core.Register(&core.Property{
		ID: "C15", Level: "exploration",
		Rule:    "case = solid archive (up to 400 entries per stream, up to 16 MiB per entry) extracted in order, each entry read completely, partly or not at all, then closed before the next is opened, some entries left out, with the streams interleaved or not; a monitor behind the io.ReaderAt counts how often every packed byte is delivered, and a counting coder on top of each stream how often its coders are started: both at most once per pass. Distinct = distinct (coder trees, pattern of reading).",
		Cases:   tierN(700, 9000),
		Require: []string{"passes", "partial", "skipped-entries", "interleaved-streams", "coder-starts", "many-entries", "large-entries", "second-pass"},
		Run:     runC15,
	})
}

// startCounter is a coder that changes nothing and counts its constructions.
type startCounter struct {
	starts atomic.Int64
	live   atomic.Int64
}

type counted struct {
	io.ReadCloser
	s *startCounter
}

func (x *counted) Close() error {
	x.s.live.Add(-1)

	return x.ReadCloser.Close() //nolint:wrapcheck
}

func (s *startCounter) dcomp(_ []byte, _ uint64, in []io.ReadCloser) (io.ReadCloser, error) {
	s.starts.Add(1)
	s.live.Add(1)

	return &counted{in[0], s}, nil
}

// customID is a method id that no other case uses.
func customID(c *core.Ctx, k int) []byte {
	return []byte{0x7e, byte(c.Case >> 16), byte(c.Case >> 8), byte(c.Case), byte(k)}
}

func identity(name string, id []byte) *szw.Method {
	return &szw.Method{Name: name, ID: id, In: 1, Sub: make([]*szw.Method, 1), Enc: func(d []byte) ([][]byte, []byte) {
		return [][]byte{d}, nil
	}}
}

// largeSolid is a solid block with entries of megabytes.
func largeSolid(c *core.Ctx) *szw.Archive {
	r := c.R
	a := &szw.Archive{}
	n := 4 + r.IntN(5)

	for i := range n {
		size := gen.Pick(r, 1+r.IntN(1000), 1<<(17+r.IntN(7)), r.IntN(1<<22))
		data := bytes.Repeat([]byte{byte(i)}, size)
		copy(data[size/2:], fmt.Sprintf("middle of %d", i))

		a.Files = append(a.Files, &szw.File{Name: fmt.Sprint("large", i), Data: data})
	}

	z := szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 16}
	a.Folders = []*szw.Folder{{N: n, Method: gen.Pick(r, szw.MCopy(), szw.MLZMA2(z), szw.MZstd(1, 1), szw.MDelta(1).Over(szw.MCopy()))}}

	c.Count("large-entries", 1)

	return a
}

func runC15(c *core.Ctx) {
	r := c.R
	t := gen.ArchTune{MaxFile: 3000, MaxFiles: 12, MaxFolders: 3, NoEmptyData: true}
	t.Cheap = true

	switch r.IntN(8) {
	case 0:
		t.MaxFile, t.MaxFiles = 400, 400
		c.Count("many-entries", 1)
	case 1:
		t.MaxFile = 100000
	}

	a, pw := drawArchive(c, t)
	if c.Case%70 == 35 {
		a, pw = largeSolid(c), ""
	}

	a.Opts.PackGapVirtual = false
	a.Opts.PackGap = min(a.Opts.PackGap, 1000)

	var counters []*startCounter

	for k, fd := range a.Folders {
		s := &startCounter{}
		id := customID(c, k)
		sevenzip.RegisterDecompressor(id, s.dcomp)

		fd.Method = identity("Counter", id).Over(fd.Method)
		counters = append(counters, s)
	}

	bt := a.Build()
	want := wantData(a)
	folder := folderOf(a)

	c.Trace("%s", describe(a))
	c.Sample("%s", describe(a))
	noteArchive(c, a)

	hits := make([]uint8, len(bt.Bytes))
	counting := false
	im := &image{b: bt.Bytes, eofMode: 1}
	im.fault = nil
	mon := &hitReader{im, hits, &counting}

	var files [][]int // stream entries by folder

	for range a.Folders {
		files = append(files, nil)
	}

	for i, f := range a.Files {
		if f.Kind == szw.Stream {
			files[folder[f]] = append(files[folder[f]], i)
		}
	}

	c.Guard("passes", func() {
		var (
			zr  *sevenzip.Reader
			err error
		)

		if pw != "" {
			zr, err = sevenzip.NewReaderWithPassword(mon, im.Size(), pw)
		} else {
			zr, err = sevenzip.NewReader(mon, im.Size())
		}

		if err != nil {
			c.Fail("archive-error", "%v", err)

			return
		}

		if len(zr.File) != len(want) {
			c.Fail("file-count", "%d entries, want %d", len(zr.File), len(want))

			return
		}

		for pass := range 2 {
			if c.Failed() {
				return
			}

			counting = true
			clear(hits)

			for _, s := range counters {
				s.starts.Store(0)
			}

			next := make([]int, len(files))
			pattern := ""
			inter := r.IntN(2) == 0
			how := r.IntN(4) // 0 complete, 1 mixed, 2 partial, 3 with gaps

			for {
				var open []int

				for k := range files {
					if next[k] < len(files[k]) {
						open = append(open, k)
					}
				}

				if len(open) == 0 {
					break
				}

				k := open[0]
				if inter {
					k = open[r.IntN(len(open))]

					c.Count("interleaved-streams", 1)
				}

				i := files[k][next[k]]
				next[k]++

				if how == 3 && r.IntN(3) == 0 {
					c.Count("skipped-entries", 1)

					pattern += "-"

					continue
				}

				full := how == 0 || how != 2 && r.IntN(2) == 0
				if full {
					checkFile(c, fmt.Sprintf("pass %d", pass), zr.File[i], i, want[i], readSizes(r))

					pattern += "f"

					continue
				}

				c.Count("partial", 1)

				pattern += "p"

				rc, err := zr.File[i].Open()
				if err != nil {
					c.Fail("open-error", "file %d: %v", i, err)

					return
				}

				b := make([]byte, r.IntN(len(want[i])+1))
				if r.IntN(4) == 0 {
					b = b[:min(len(b), r.IntN(100))]
				}

				if m, err := io.ReadFull(rc, b); err != nil || !bytes.Equal(b[:m], want[i][:m]) {
					c.Fail("wrong-data", "file %d: %v, %s", i, err, diff(b[:m], want[i]))
				}

				if err := rc.Close(); err != nil {
					c.Fail("close-error", "file %d: %v", i, err)
				}
			}

			counting = false

			c.Eval(1)
			c.Count("passes", 1)
			c.Distinct("%s %v %s", shape(a), inter, pattern)

			for k, s := range counters {
				n := s.starts.Load()
				c.Count("coder-starts", n)

				if pass > 0 {
					c.Count("second-pass", 1)
				}

				if n > 1 {
					c.Fail("restarted", "pass %d (%s): the coders of stream %d with %d entries were started %d times", pass, pattern, k, len(files[k]), n)
				}
			}

			// A reader that the first pass left behind may take over in the
			// middle of the second one, behind what the other has buffered
			most := uint8(1 + pass)

			for k, regs := range bt.FolderPack {
				for _, rg := range regs {
					for o := rg.Off; o < rg.Off+rg.Len; o++ {
						if hits[o] > most {
							c.Fail("read-twice", "pass %d (%s): byte %d of the packed stream of %d bytes of stream %d was read %d times", pass, pattern, o-rg.Off, rg.Len, k, hits[o])

							return
						}
					}
				}
			}
		}
	})
}

type hitReader struct {
	im   *image
	hits []uint8
	on   *bool
}

func (h *hitReader) ReadAt(p []byte, off int64) (int, error) {
	n, err := h.im.ReadAt(p, off)
	if *h.on {
		for k := range n {
			if o := off + int64(k); h.hits[o] < 255 {
				h.hits[o]++
			}
		}
	}

	return n, err
}
