// Package props holds the monitors, one file per group of properties.
package props

import (
	"bytes"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/bodgit/sevenzip"

	"verif/mon/core"
	"verif/mon/gen"
	"verif/mon/szw"
)

// image is the archive file: bytes, optionally with a virtual gap of generated
// bytes, counting what is read.
type image struct {
	b       []byte
	gapAt   int64
	gap     int64
	fill    func(p []byte, off int64) // content of the gap, nil = zeros
	reads   atomic.Int64
	bytes   atomic.Int64
	maxOff  atomic.Int64
	fault   func(call int64, off int64, n int) error // decides the fate of a read
	partial bool                                     // deliver half of a faulty read
	eofMode int                                      // 0: io.EOF with the last bytes; 1: nil with the last bytes when the read is complete
}

func newImage(bt *szw.Built) *image {
	im := &image{b: bt.Bytes}
	if bt.VirtualGap > 0 {
		im.gapAt, im.gap = bt.PackStart, int64(bt.VirtualGap)
	}

	return im
}

func (im *image) Size() int64 { return int64(len(im.b)) + im.gap }

func (im *image) ReadAt(p []byte, off int64) (int, error) {
	call := im.reads.Add(1)

	if off < 0 {
		return 0, errors.New("image: negative offset")
	}

	if im.fault != nil {
		if err := im.fault(call, off, len(p)); err != nil {
			n := 0
			if im.partial {
				n, _ = im.read(p[:len(p)/2], off)
			}

			return n, err
		}
	}

	n, err := im.read(p, off)
	im.bytes.Add(int64(n))

	return n, err
}

func (im *image) read(p []byte, off int64) (int, error) {
	n := 0

	for n < len(p) {
		o := off + int64(n)

		switch {
		case im.gap > 0 && o >= im.gapAt && o < im.gapAt+im.gap:
			k := min(int64(len(p)-n), im.gapAt+im.gap-o)
			if im.fill != nil {
				im.fill(p[n:n+int(k)], o-im.gapAt)
			} else {
				clear(p[n : n+int(k)])
			}

			n += int(k)
		default:
			q, lim := o, int64(len(im.b))
			if im.gap > 0 && o < im.gapAt {
				lim = im.gapAt
			} else if im.gap > 0 {
				q = o - im.gap
			}

			if q >= int64(len(im.b)) {
				return n, io.EOF
			}

			n += copy(p[n:], im.b[q:lim])
		}
	}

	if im.eofMode == 0 && off+int64(n) == im.Size() {
		return n, io.EOF
	}

	return n, nil
}

// open opens an archive through NewReader.
func open(im *image, password string) (*sevenzip.Reader, error) {
	if password != "" {
		return sevenzip.NewReaderWithPassword(im, im.Size(), password)
	}

	return sevenzip.NewReader(im, im.Size())
}

var errNoProgress = errors.New("monitor: 1000 reads in a row returned 0, nil")

type drained struct {
	data  []byte
	err   error // nil after io.EOF
	eof   bool
	calls int
	empty int // (0, nil) results
	bad   string
}

// drain reads r until an error, with read sizes from next, at most limit bytes.
func drain(r io.Reader, next func() int, limit int64) (d drained) {
	streak := 0

	var buf []byte

	for {
		n := next()
		if n > len(buf) {
			buf = make([]byte, n)
		}

		k, err := r.Read(buf[:n:n])
		d.calls++

		if k < 0 || k > n {
			d.bad = fmt.Sprintf("Read returned n=%d for a buffer of %d", k, n)

			return d
		}

		d.data = append(d.data, buf[:k]...)

		if err != nil {
			// The contract of io.Reader asks for io.EOF itself: callers
			// compare with ==.
			if err == io.EOF { //nolint:errorlint
				d.eof = true
			} else {
				d.err = err
			}

			return d
		}

		if k == 0 && n > 0 {
			d.empty++

			if streak++; streak > 1000 {
				d.err = errNoProgress

				return d
			}
		} else {
			streak = 0
		}

		if int64(len(d.data)) > limit {
			d.bad = "more bytes than the limit"

			return d
		}
	}
}

func fixed(n int) func() int { return func() int { return n } }

func readSizes(r *gen.Rand) func() int {
	switch r.IntN(7) {
	case 0:
		return fixed(1 + r.IntN(16))
	case 1:
		return fixed(gen.Pick(r, 511, 512, 4095, 4096, 4097, 32768, 65536, 1<<20))
	case 2:
		return func() int { return 1 + r.IntN(7) }
	case 3:
		return func() int { return 1 + r.IntN(9000) }
	case 4:
		return func() int { return gen.Pick(r, 0, 1, 2, 3, 5, 4096, 70000) }
	default:
		return func() int { return 1 + r.IntN(1<<r.IntN(18)) }
	}
}

// diff describes the first difference of two byte strings.
func diff(got, want []byte) string {
	n := min(len(got), len(want))
	for i := range n {
		if got[i] != want[i] {
			return fmt.Sprintf("first difference at byte %d of %d (got %d bytes): %02x, want %02x", i, len(want), len(got), got[i], want[i])
		}
	}

	return fmt.Sprintf("got %d bytes, want %d (common prefix equal)", len(got), len(want))
}

// describe writes out an archive.
func describe(a *szw.Archive) string {
	s := ""
	for i, f := range a.Folders {
		s += fmt.Sprintf("[%d]%s x%d ", i, f.Method, f.N)
	}

	if a.Opts.EncodeHeader != nil {
		s += "hdr=" + a.Opts.EncodeHeader.String()
	}

	sizes := []string{}
	for _, f := range a.Files {
		sizes = append(sizes, fmt.Sprint(len(f.Data)))
	}

	if len(sizes) > 20 {
		sizes = append(sizes[:20], "...")
	}

	return s + " sizes=" + strings.Join(sizes, ",")
}

// shape identifies what an archive exercises.
func shape(a *szw.Archive) string {
	s := ""
	for _, f := range a.Folders {
		s += f.Method.String() + solid(f.N) + ";"
	}

	return s
}

func solid(n int) string {
	if n > 1 {
		return "*"
	}

	return ""
}

func countCoders(c *core.Ctx, m *szw.Method) {
	if m == nil {
		return
	}

	name, _, _ := strings.Cut(m.Name, ":")
	c.Count("coder."+name, 1)

	for _, s := range m.Sub {
		countCoders(c, s)
	}
}

// wantData is the content by position in File.
func wantData(a *szw.Archive) [][]byte {
	out := make([][]byte, len(a.Files))
	for i, f := range a.Files {
		out[i] = f.Data
		if out[i] == nil {
			out[i] = []byte{}
		}
	}

	return out
}

// checkAll reads every file in order and compares.
func checkAll(c *core.Ctx, what string, zr *sevenzip.Reader, want [][]byte, next func() int) bool {
	if len(zr.File) != len(want) {
		c.Fail("file-count", "%s: %d entries, want %d", what, len(zr.File), len(want))

		return false
	}

	ok := true

	for i, f := range zr.File {
		ok = checkFile(c, what, f, i, want[i], next) && ok
	}

	return ok
}

func checkFile(c *core.Ctx, what string, f *sevenzip.File, i int, want []byte, next func() int) bool {
	rc, err := f.Open()
	if err != nil {
		c.Fail("open-error", "%s: file %d (%q): Open: %v", what, i, f.Name, err)

		return false
	}

	d := drain(rc, next, int64(len(want))+1<<16)
	c.Eval(1)
	c.Count("bytes", int64(len(d.data)))
	c.Count("reads", int64(d.calls))

	ok := judge(c, what, f.Name, i, d, want)

	if err := rc.Close(); err != nil {
		c.Fail("close-error", "%s: file %d (%q): Close: %v", what, i, f.Name, err)

		ok = false
	}

	return ok
}

// judge compares what a full read delivered with the content written.
func judge(c *core.Ctx, what, name string, i int, d drained, want []byte) bool {
	switch {
	case d.bad != "":
		c.Fail("read-contract", "%s: file %d (%q): %s", what, i, name, d.bad)
	case d.err != nil:
		c.Fail("read-error", "%s: file %d (%q): %v after %d of %d bytes", what, i, name, d.err, len(d.data), len(want))
	case !bytes.Equal(d.data, want):
		c.Fail("wrong-data", "%s: file %d (%q): %s", what, i, name, diff(d.data, want))
	default:
		return true
	}

	return false
}

// sample is an archive of the repository's test data, made by 7-Zip itself.
type sampleArchive struct {
	name     string
	password string
}

var samples = []sampleArchive{
	{"t0.7z", ""}, {"t1.7z", ""}, {"t2.7z", "password"}, {"t3.7z", "password"}, {"t4.7z", "password"}, {"t5.7z", "password"},
	{"arm.7z", ""}, {"arm64.7z", ""}, {"bcj.7z", ""}, {"bcj2.7z", ""}, {"brotli.7z", ""}, {"bzip2.7z", ""},
	{"copy.7z", ""}, {"deflate.7z", ""}, {"delta.7z", ""}, {"empty.7z", ""}, {"empty2.7z", ""}, {"file_and_empty.7z", ""},
	{"issue87.7z", ""}, {"lz4.7z", ""}, {"lzma.7z", ""}, {"lzma1900.7z", ""}, {"lzma2.7z", ""}, {"ppc.7z", ""}, {"ppmd.7z", ""},
	{"sparc.7z", ""}, {"zstd.7z", ""}, {"sfx.exe", ""}, {"aes7z.7z", "password"}, {"7zcracker.7z", "876"},
	{"multi.7z.001", ""},
}

func loadSample(c *core.Ctx, s sampleArchive) []byte {
	var out []byte

	if strings.HasSuffix(s.name, ".001") {
		for i := 1; ; i++ {
			b, err := os.ReadFile(filepath.Join(c.Repo, "testdata", fmt.Sprintf("%s.%03d", strings.TrimSuffix(s.name, ".001"), i)))
			if err != nil {
				break
			}

			out = append(out, b...)
		}

		return out
	}

	out, err := os.ReadFile(filepath.Join(c.Repo, "testdata", s.name))
	if err != nil {
		panic(fmt.Sprintf("szw: sample %s: %v", s.name, err))
	}

	return out
}

// reference is what a plain front-to-back read of an archive delivers.
func reference(zr *sevenzip.Reader) (data [][]byte, err error) {
	for _, f := range zr.File {
		rc, err := f.Open()
		if err != nil {
			return nil, err
		}

		b, err := io.ReadAll(rc)
		if err != nil {
			return nil, err
		}

		if err := rc.Close(); err != nil {
			return nil, err
		}

		data = append(data, b)
	}

	return data, nil
}

func crcOf(b []byte) uint32 { return crc32.ChecksumIEEE(b) }

var _ sync.Mutex
