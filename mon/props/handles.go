package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"

	"github.com/bodgit/sevenzip"

	"verif/mon/core"
	"verif/mon/gen"
	"verif/mon/szw"
)

// C14: the contract of handles.
func init() {
	core.Register(&core.Property{
		ID: "C14", Level: "exploration",
		Rule:    "case = one archive and a random history over handles from File.Open and Reader.Open (files with contents, empty files, directories, also of streams that fail; directories of the file system view with their ReadDir): reads of zero and other sizes, Stat, Close, Close again, reads after io.EOF, after an error and after Close, and for archives opened by name Close of the archive in the middle, twice, and everything again afterwards, in some also crowds of up to 70 half-read handles closed and used again; each result is judged by a model of the handle's state. Distinct = distinct (coder trees, history).",
		Cases:   tierN(1800, 30000),
		Require: []string{"zero-reads", "read-after-eof", "read-after-close", "double-close", "stat", "stat-after-close", "empty-handles", "dir-handles", "fs-dir-handles", "dir-closes", "fs-handles", "archive-closed", "read-after-archive-close", "open-after-archive-close", "archive-closed-twice", "failed-stream", "read-after-error", "crowds", "failing-closes"},
		Run:     runC14,
	})
}

type hstate struct {
	rc     io.ReadCloser
	i      int
	pos    int
	closed bool
	eof    bool
	failed bool
	viaFS  bool
}

func runC14(c *core.Ctx) {
	r := c.R

	if c.Case%8 == 5 {
		sourC14(c)

		return
	}

	t := gen.ArchTune{MaxFile: 3000, MaxFiles: 5, MaxFolders: 3, PlainNames: true}
	a, pw := drawArchive(c, t)
	a.Opts.PackGapVirtual = false
	a.Opts.PackGap = min(a.Opts.PackGap, 1000)
	want := wantData(a)
	folder := folderOf(a)
	bt := a.Build()
	b := bt.Bytes
	bad := -1

	if gen.Chance(r, 3) && a.Opts.EncodeHeader == nil {
		bad = r.IntN(len(bt.FolderPack))
		b = append([]byte(nil), b...)

		for _, rg := range bt.FolderPack[bad] {
			for k := rg.Off; k < rg.Off+rg.Len; k++ {
				if r.IntN(3) == 0 {
					b[k] = byte(r.Uint32())
				}
			}
		}

		c.Count("failed-stream", 1)
	}

	c.Trace("%s bad=%d", describe(a), bad)
	c.Sample("%s", describe(a))

	var (
		zr  *sevenzip.Reader
		arc *sevenzip.ReadCloser
	)

	c.Guard("open", func() {
		var err error

		if r.IntN(2) == 0 {
			name := filepath.Join(c.Tmp, fmt.Sprintf("h%d.7z", c.Case))
			put(name, b)
			defer os.Remove(name)

			if arc, err = sevenzip.OpenReaderWithPassword(name, pw); err == nil {
				zr = &arc.Reader
			}
		} else {
			zr, err = open(&image{b: b}, pw)
		}

		if err != nil {
			c.Fail("archive-error", "%v", err)
		}
	})

	if c.Failed() || zr == nil {
		return
	}

	if len(zr.File) != len(want) {
		c.Fail("file-count", "%d entries, want %d", len(zr.File), len(want))

		return
	}

	var hs []*hstate

	hist := ""
	gone := false // the archive is closed
	isBad := func(i int) bool { return a.Files[i].Kind == szw.Stream && folder[a.Files[i]] == bad }

	c.Guard("history", func() {
		for range 80 {
			if c.Failed() {
				return
			}

			k := r.IntN(12)

			switch {
			case len(hs) == 0 || k < 2:
				i := r.IntN(len(want))
				h := &hstate{i: i}

				var err error

				h.viaFS = r.IntN(3) == 0 && fs.ValidPath(a.Files[i].Name) && a.Files[i].Kind != szw.Dir
				if h.viaFS {
					var f fs.File
					if f, err = zr.Open(a.Files[i].Name); err == nil {
						h.rc = f.(interface {
							io.ReadCloser
							Stat() (fs.FileInfo, error)
						})
					}

					c.Count("fs-handles", 1)
				} else {
					h.rc, err = zr.File[i].Open()
				}

				c.Trace("open %d fs=%v: %v", i, h.viaFS, err)

				if gone {
					c.Count("open-after-archive-close", 1)
				}

				if err != nil {
					if !gone && !isBad(i) {
						c.Fail("open-error", "file %d: %v", i, err)
					}

					if h.rc != nil {
						c.Fail("open-both", "file %d: a handle and the error %v", i, err)
					}

					continue
				}

				switch a.Files[i].Kind {
				case szw.Dir:
					c.Count("dir-handles", 1)
				case szw.Empty:
					c.Count("empty-handles", 1)
				case szw.Stream:
				}

				hs = append(hs, h)
				hist += "o"
			case k < 7:
				h := hs[r.IntN(len(hs))]
				n := gen.Pick(r, 0, 0, 1, 2, 100, r.IntN(5000))
				readC14(c, h, n, want[h.i], gone, isBad(h.i))

				hist += "r"
			case k == 7:
				h := hs[r.IntN(len(hs))]
				for n := 0; n < 4000 && !h.eof && !h.failed && !h.closed && !c.Failed(); n++ {
					readC14(c, h, 1+r.IntN(4000), want[h.i], gone, isBad(h.i))
				}

				hist += "d"
			case k == 8:
				h := hs[r.IntN(len(hs))]

				st, ok := h.rc.(interface{ Stat() (fs.FileInfo, error) })
				if !ok {
					c.Fail("no-stat", "file %d: the handle %T has no Stat", h.i, h.rc)

					return
				}

				fi, err := st.Stat()
				c.Count("stat", 1)

				if h.closed {
					c.Count("stat-after-close", 1)
				}

				if err == nil {
					w := zr.File[h.i].FileInfo()
					if fi.Name() != w.Name() || fi.Size() != int64(len(want[h.i])) || fi.Mode() != w.Mode() || !fi.ModTime().Equal(zr.File[h.i].Modified) || fi.IsDir() != (a.Files[h.i].Kind == szw.Dir) {
						c.Fail("stat", "file %d: Stat %v, want %v", h.i, fs.FormatFileInfo(fi), fs.FormatFileInfo(w))
					}
				} else {
					c.Fail("stat-error", "file %d (closed: %v): %v", h.i, h.closed, err)
				}

				hist += "s"
			case k == 9 && arc != nil && r.IntN(6) == 0:
				err := arc.Close()
				c.Trace("close archive: %v", err)

				if gone {
					c.Count("archive-closed-twice", 1)
				} else {
					c.Count("archive-closed", 1)

					if err != nil {
						c.Fail("archive-close", "%v", err)
					}
				}

				gone = true
				hist += "A"
			default:
				h := hs[r.IntN(len(hs))]
				err := h.rc.Close()
				c.Trace("close %d at %d: %v", h.i, h.pos, err)

				if h.closed {
					c.Count("double-close", 1)
				} else if err != nil && !gone && !isBad(h.i) {
					c.Fail("close-error", "file %d at %d: %v", h.i, h.pos, err)
				}

				h.closed = true
				hist += "c"
			}
		}

		for _, h := range hs {
			_ = h.rc.Close()
		}

		if !c.Failed() {
			dirsC14(c, zr, a, arc, &gone)
		}

		if !gone && bad < 0 && c.Case%3 == 0 && !c.Failed() {
			crowdC14(c, zr, want, false)
		}

		if !gone && bad < 0 {
			checkAll(c, "after the history", zr, want, fixed(5000))
		}

		if arc != nil && !gone {
			if err := arc.Close(); err != nil {
				c.Fail("archive-close", "%v", err)
			}
		}
	})

	if arc != nil && gone {
		noFDs(c, "archive closed", c.Tmp)
	}

	c.Distinct("%s %d %s", shape(a), bad, hist)
}

// dirsC14: a random history over handles of directories of the file system
// view, also in a closed archive.
func dirsC14(c *core.Ctx, zr *sevenzip.Reader, a *szw.Archive, arc *sevenzip.ReadCloser, gone *bool) {
	r := c.R
	children := map[string]map[string]bool{".": {}}

	for _, f := range a.Files {
		n := path.Clean(f.Name)
		if !fs.ValidPath(n) {
			return
		}

		if f.Kind == szw.Dir && children[n] == nil {
			children[n] = map[string]bool{}
		}

		for n != "." {
			d := path.Dir(n)
			if children[d] == nil {
				children[d] = map[string]bool{}
			}

			children[d][path.Base(n)] = true
			n = d
		}
	}

	var dirs []string
	for d := range children {
		dirs = append(dirs, d)
	}

	sort.Strings(dirs)

	type dstate struct {
		name   string
		f      fs.ReadDirFile
		closed bool
		seen   map[string]bool
	}

	var hs []*dstate

	for range 30 {
		if c.Failed() {
			return
		}

		if len(hs) == 0 || r.IntN(6) == 0 {
			d := dirs[r.IntN(len(dirs))]

			f, err := zr.Open(d)
			if err != nil {
				if !*gone {
					c.Fail("open-error", "directory %q: %v", d, err)
				}

				continue
			}

			rd, ok := f.(fs.ReadDirFile)
			if !ok {
				c.Fail("no-readdir", "directory %q: the handle %T has no ReadDir", d, f)

				return
			}

			hs = append(hs, &dstate{name: d, f: rd, seen: map[string]bool{}})
			c.Count("fs-dir-handles", 1)
		}

		h := hs[r.IntN(len(hs))]
		c.Eval(1)

		switch r.IntN(6) {
		case 0:
			c.Guard(fmt.Sprintf("directory %q (closed: %v): Stat", h.name, h.closed), func() {
				fi, err := h.f.Stat()
				if err == nil && (!fi.IsDir() || h.name != "." && fi.Name() != path.Base(h.name)) {
					c.Fail("stat", "directory %q: Stat %v", h.name, fs.FormatFileInfo(fi))
				} else if err != nil {
					c.Fail("stat-error", "directory %q (closed: %v): %v", h.name, h.closed, err)
				}
			})
		case 1:
			c.Guard(fmt.Sprintf("directory %q (closed: %v): Read", h.name, h.closed), func() {
				b := make([]byte, r.IntN(3))
				if n, err := h.f.Read(b); n != 0 || err == nil && len(b) > 0 {
					c.Fail("dir-read", "directory %q: Read = %d, %v", h.name, n, err)
				}
			})
		case 2, 3:
			n := r.IntN(4) - 1

			c.Guard(fmt.Sprintf("directory %q (closed: %v): ReadDir(%d)", h.name, h.closed, n), func() {
				l, err := h.f.ReadDir(n)
				if err != nil && !errors.Is(err, io.EOF) && !h.closed && !*gone {
					c.Fail("readdir-error", "directory %q: %v", h.name, err)
				}

				for _, e := range l {
					if !children[h.name][e.Name()] || h.seen[e.Name()] {
						c.Fail("readdir", "directory %q: ReadDir(%d) lists %q", h.name, n, e.Name())
					}

					h.seen[e.Name()] = true
				}

				if err == nil && n <= 0 && !h.closed && !*gone && len(h.seen) != len(children[h.name]) {
					c.Fail("readdir", "directory %q: %d of %d names listed", h.name, len(h.seen), len(children[h.name]))
				}
			})
		default:
			c.Guard(fmt.Sprintf("directory %q (closed: %v): Close", h.name, h.closed), func() {
				if err := h.f.Close(); err != nil && !h.closed && !*gone {
					c.Fail("close-error", "directory %q: %v", h.name, err)
				}
			})

			if h.closed {
				c.Count("double-close", 1)
			}

			h.closed = true
			c.Count("dir-closes", 1)
		}

		if arc != nil && !*gone && r.IntN(60) == 0 {
			_ = arc.Close()
			*gone = true
		}
	}
}

// sourReader is a decoder whose Close may fail. Once its Close was called it
// must not be used any more.
type sourReader struct {
	io.ReadCloser
	c      *core.Ctx
	fail   bool
	closed bool
}

var errSour = errors.New("sour close")

func (s *sourReader) Read(p []byte) (int, error) {
	if s.closed {
		s.c.Fail("use-after-close", "a decoder is read after its Close")
	}

	return s.ReadCloser.Read(p) //nolint:wrapcheck
}

func (s *sourReader) Close() error {
	if s.closed {
		s.c.Fail("closed-twice", "a decoder is closed twice")

		return nil
	}

	s.closed = true
	err := s.ReadCloser.Close()

	if s.fail {
		return errSour
	}

	return err //nolint:wrapcheck
}

// sourC14: decoders that fail to close, at any place of the coder graph.
func sourC14(c *core.Ctx) {
	r := c.R
	rate := gen.Pick(r, 1, 2, 5)
	id := customID(c, 1)

	sevenzip.RegisterDecompressor(id, func(_ []byte, _ uint64, in []io.ReadCloser) (io.ReadCloser, error) {
		return &sourReader{ReadCloser: in[0], c: c, fail: r.IntN(rate) == 0}, nil
	})

	a := gen.Archive(r, &gen.ArchTune{Tune: gen.Tune{Cheap: true}, MaxFile: 1000, MaxFiles: 30, MaxFolders: 2, PlainNames: true})
	a.Opts.EncodeHeader = nil
	a.Opts.PackGapVirtual, a.Opts.PackGap = false, 0

	for _, fd := range a.Folders {
		switch r.IntN(3) {
		case 0: // on top
			fd.Method = identity("sour", id).Over(fd.Method)
		case 1: // below
			fd.Method = gen.Filter(r).Over(identity("sour", id).Over(fd.Method))
		default:
			fd.Method = gen.Filter(r).Over(identity("sour", id))
		}
	}

	want := wantData(a)
	c.Trace("sour 1/%d %s", rate, describe(a))

	c.Guard("failing Close", func() {
		zr, err := open(newImage(a.Build()), "")
		if err != nil {
			c.Fail("archive-error", "%v", err)

			return
		}

		if len(want) > 0 {
			crowdC14(c, zr, want, true)
		}

		checkData(c, "after failing closes", zr, want)
	})

	c.Distinct("sour %s", shape(a))
}

// checkData reads all entries and ignores what their Close says.
func checkData(c *core.Ctx, what string, zr *sevenzip.Reader, want [][]byte) {
	for i, f := range zr.File {
		rc, err := f.Open()
		if err != nil {
			c.Fail("open-error", "%s: file %d: %v", what, i, err)

			return
		}

		b, err := io.ReadAll(rc)
		if err != nil || !bytes.Equal(b, want[i]) {
			c.Fail("wrong-data", "%s: file %d: %v %s", what, i, err, diff(b, want[i]))
		}

		_ = rc.Close()
		_ = rc.Close()
	}
}

// crowdC14 closes many half-read handles, more than the library may keep
// streams for, and uses them all again.
func crowdC14(c *core.Ctx, zr *sevenzip.Reader, want [][]byte, sour bool) {
	r := c.R

	var hs []*hstate

	for range 12 + r.IntN(60) {
		h := &hstate{i: r.IntN(len(want))}

		var err error
		if h.rc, err = zr.File[h.i].Open(); err != nil {
			c.Fail("open-error", "crowd: file %d: %v", h.i, err)

			return
		}

		for n := 1 + r.IntN(len(want[h.i])+1); h.pos < n && !h.eof && !c.Failed(); {
			readC14(c, h, n-h.pos, want[h.i], false, false)
		}

		hs = append(hs, h)
	}

	use := func(h *hstate) {
		switch r.IntN(4) {
		case 0:
			_ = h.rc.Close()
		default:
			readC14(c, h, 1+r.IntN(300), want[h.i], false, false)
		}
	}

	for i, k := range r.Perm(len(hs)) {
		if err := hs[k].rc.Close(); err != nil && sour {
			c.Count("failing-closes", 1)
		} else if err != nil {
			c.Fail("close-error", "crowd: file %d at %d: %v", hs[k].i, hs[k].pos, err)
		}

		hs[k].closed = true

		if r.IntN(3) == 0 {
			use(hs[k])
		}

		if h := hs[r.IntN(len(hs))]; h.closed || i%2 == 0 {
			readC14(c, h, 1+r.IntN(300), want[h.i], false, false)
		}
	}

	for _, k := range r.Perm(len(hs)) {
		use(hs[k])
	}

	c.Count("crowds", 1)
}

// readC14 reads n bytes and judges the result by the state of the handle.
func readC14(c *core.Ctx, h *hstate, n int, w []byte, gone, bad bool) {
	buf := bytes.Repeat([]byte{0xa5}, n+8)
	m, err := h.rc.Read(buf[:n:n])

	c.Eval(1)
	c.Trace("read %d n=%d at %d: %d, %v", h.i, n, h.pos, m, err)

	if m < 0 || m > n {
		c.Fail("read-contract", "file %d: Read(%d bytes) returned %d", h.i, n, m)

		return
	}

	if !bytes.Equal(buf[n:], bytes.Repeat([]byte{0xa5}, 8)) {
		c.Fail("overrun", "file %d: Read(%d bytes) wrote behind the buffer", h.i, n)
	}

	if n == 0 {
		c.Count("zero-reads", 1)

		if err != nil && !h.closed && !gone && !h.eof && !h.failed && h.pos < len(w) {
			c.Fail("zero-read", "file %d at %d of %d: a read of nothing failed: %v", h.i, h.pos, len(w), err)
		}

		return
	}

	switch {
	case h.closed:
		c.Count("read-after-close", 1)

		if m != 0 || err == nil {
			c.Fail("read-after-close", "file %d: Read after Close returned %d, %v", h.i, m, err)
		}

		return
	case h.eof:
		c.Count("read-after-eof", 1)

		if m != 0 || err != io.EOF { //nolint:errorlint
			c.Fail("eof-sticky", "file %d: Read after io.EOF returned %d, %v", h.i, m, err)
		}

		return
	case h.failed:
		c.Count("read-after-error", 1)

		if err == io.EOF && h.pos+m < len(w) { //nolint:errorlint
			c.Fail("eof-after-error", "file %d: io.EOF at %d of %d after an error", h.i, h.pos, len(w))
		}

		if h.pos+m > len(w) {
			c.Fail("too-much", "file %d: %d of %d bytes", h.i, h.pos+m, len(w))
		}

		h.pos += m

		return
	}

	if gone {
		c.Count("read-after-archive-close", 1)
	}

	if h.pos+m > len(w) {
		c.Fail("too-much", "file %d: %d bytes at %d of %d", h.i, m, h.pos, len(w))

		return
	}

	if !bad && !bytes.Equal(buf[:m], w[h.pos:h.pos+m]) {
		c.Fail("wrong-data", "file %d at %d: %s", h.i, h.pos, diff(buf[:m], w[h.pos:h.pos+m]))
	}

	h.pos += m

	switch {
	case err == io.EOF: //nolint:errorlint
		h.eof = true

		if h.pos < len(w) && !bad { // C08 judges damaged streams
			c.Fail("short-eof", "file %d: io.EOF at %d of %d", h.i, h.pos, len(w))
		}
	case err != nil:
		h.failed = true

		if !gone && !bad {
			c.Fail("read-error", "file %d at %d: %v", h.i, h.pos, err)
		}

		if errors.Is(err, io.EOF) {
			c.Fail("wrapped-eof", "file %d: %v wraps io.EOF", h.i, err)
		}
	}
}
