package props

import (
	"bytes"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"io/fs"
	"maps"
	"math/rand/v2"
	"slices"

	"github.com/bodgit/sevenzip"

	"verif/mon/core"
	"verif/mon/gen"
	"verif/mon/szw"
)

// cuttable builds an archive whose packed streams can be cut off at any point:
// the header follows right behind what is left of them.
func cuttable(a *szw.Archive) (at func(cut int64) []byte, start, end int64, ends []int64) {
	o := a.Opts
	a.Opts.EncodeHeader, a.Opts.Prefix, a.Opts.Trailer = nil, nil, nil
	a.Opts.PackGapVirtual = false
	bt := a.Build()
	a.Opts = o

	for _, f := range bt.FolderPack {
		e := int64(0)
		for _, p := range f {
			e = max(e, p.Off+p.Len)
		}

		ends = append(ends, e)
	}

	h := bt.RawHeader

	return func(cut int64) []byte {
		b := szw.SignatureHeader(4, uint64(cut-32), uint64(len(h)), crc32.ChecksumIEEE(h))
		b = append(b, bt.Bytes[32:cut]...)

		return append(b, h...)
	}, min(bt.PackStart, bt.HeaderOff), bt.HeaderOff, ends
}

// C08: the length contract.
func init() {
	core.Register(&core.Property{
		ID: "C08", Level: "fault_enumeration",
		Rule:    "case = one archive, well-formed, cut off at enumerated points of its packed streams (which the header still declares in full), with one packed stream shortened, or with a declared size smaller or larger than the stream yields; every file is read to its end: never more than its declared size, never different bytes, and io.EOF only when the declared size was delivered. Distinct = distinct (class, coder trees, outcomes).",
		Cases:   tierN(900, 12000),
		Require: []string{"class.exact", "class.cut", "class.short-pack", "class.larger", "class.smaller", "complete", "errors", "cut-points", "behind-the-end"},
		Run:     runC08,
	})
}

func runC08(c *core.Ctx) {
	switch {
	case c.Case == 0:
		pinnedOverdeclared(c)
	case c.Case%10 < 1:
		exactC08(c)
	case c.Case%10 < 6:
		cutC08(c)
	case c.Case%10 < 7:
		shortPackC08(c)
	default:
		declaredC08(c)
	}
}

// pinnedOverdeclared is the known finding: all packed bytes are there, but the
// stream in them ends before the size the header declares.
func pinnedOverdeclared(c *core.Ctx) {
	data := bytes.Repeat([]byte("sevenzip "), 50)
	enc := szw.MLZMA2(szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 16})
	m := &szw.Method{Name: "LZMA2", ID: enc.ID, In: 1, Sub: make([]*szw.Method, 1), Enc: func(d []byte) ([][]byte, []byte) { return enc.Enc(d[:300]) }}
	a := &szw.Archive{Files: []*szw.File{{Name: "a", Data: data}}, Folders: []*szw.Folder{{Method: m, N: 1}}}

	c.Guard("declared larger", func() {
		zr, err := open(newImage(a.Build()), "")
		if err != nil {
			c.Fail("archive-error", "%v", err)

			return
		}

		lengthJudge(c, "LZMA2 stream of 300 bytes, 450 declared", zr, wantData(a), true, "overdeclared")
		c.Count("class.larger", 1)
	})
}

// lengthJudge reads all files. incomplete allows errors and wrong or missing
// data may only be reported by an error.
func lengthJudge(c *core.Ctx, what string, zr *sevenzip.Reader, want [][]byte, incomplete bool, class string) (out string) {
	if len(zr.File) != len(want) {
		c.Fail("file-count", "%s: %d entries, want %d", what, len(zr.File), len(want))

		return
	}

	for i, f := range zr.File {
		w := want[i]

		c.Eval(1)

		if uint64(len(w)) != f.UncompressedSize {
			c.Fail("size", "%s: file %d: size %d, want %d", what, i, f.UncompressedSize, len(w))
		}

		rc, err := f.Open()
		if err != nil {
			if !incomplete {
				c.Fail("open-error", "%s: file %d: %v", what, i, err)
			}

			c.Count("errors", 1)

			out += "o"

			continue
		}

		if st, ok := rc.(fs.File); ok {
			if fi, err := st.Stat(); err != nil || fi.Size() != int64(len(w)) {
				c.Fail("stat-size", "%s: file %d: Stat %v %v, want size %d", what, i, fi, err, len(w))
			}
		}

		d := drain(rc, readSizes(c.R), int64(len(w))+1<<16)

		switch {
		case d.bad != "":
			c.Fail("read-contract", "%s: file %d: %s", what, i, d.bad)
		case errors.Is(d.err, errNoProgress):
			c.Fail("no-progress", "%s: file %d: reads return 0, nil for ever", what, i)
		case len(d.data) > len(w):
			c.Fail("too-much", "%s: file %d: %d bytes delivered, %d declared", what, i, len(d.data), len(w))
		case !bytes.Equal(d.data, w[:len(d.data)]):
			c.Fail("wrong-data", "%s: file %d: %s", what, i, diff(d.data, w))
		case d.eof && len(d.data) < len(w):
			c.Fail("short-eof:"+class, "%s: file %d: io.EOF after %d of %d bytes", what, i, len(d.data), len(w))

			out += "s"
		case d.err != nil && !incomplete:
			c.Fail("read-error", "%s: file %d: %v", what, i, d.err)
		case d.err != nil:
			c.Count("errors", 1)

			out += "e"
		default:
			c.Count("complete", 1)

			out += "."

			// The end is final.
			b := make([]byte, 10)
			if n, err := rc.Read(b); n != 0 || err != io.EOF { //nolint:errorlint
				c.Fail("eof-sticky", "%s: file %d: Read after io.EOF returned %d, %v", what, i, n, err)
			}
		}

		_ = rc.Close()
	}

	return out
}

func exactC08(c *core.Ctx) {
	a, pw := drawArchive(c, stdTune(c))

	c.Trace("%s", describe(a))
	c.Guard("exact", func() {
		zr, err := open(newImage(a.Build()), pw)
		if err != nil {
			c.Fail("archive-error", "%v", err)

			return
		}

		lengthJudge(c, "well-formed", zr, wantData(a), false, "well-formed")
		c.Count("class.exact", 1)
		c.Distinct("exact %s", shape(a))
	})
}

func cutC08(c *core.Ctx) {
	r := c.R
	t := gen.ArchTune{MaxFile: 6000, MaxFiles: 4, MaxFolders: 3, PlainNames: true}

	if gen.Chance(r, 4) {
		t.MaxFile = 60000
	}

	a, pw := drawArchive(c, t)
	at, start, end, ends := cuttable(a)
	want := wantData(a)
	folder := folderOf(a)

	c.Trace("%s", describe(a))
	c.Sample("cut: %s", describe(a))
	noteArchive(c, a)

	points := map[int64]bool{end: true, start: true, end - 1: true, end - 2: true}
	for _, e := range ends {
		for _, d := range []int64{-17, -16, -15, -8, -5, -4, -3, -2, -1, 0, 1, 2} {
			points[e+d] = true
		}
	}

	for range 25 {
		points[start+r.Int64N(end-start+1)] = true
	}

	for _, cut := range slices.Sorted(maps.Keys(points)) {
		if cut < start || cut > end || c.Failed() {
			continue
		}

		what := fmt.Sprintf("cut to %d of %d bytes", cut, end)

		c.Guard(what, func() {
			im := &image{b: at(cut), eofMode: r.IntN(2)}

			zr, err := open(im, pw)
			if err != nil {
				c.Fail("archive-error", "%s: the header is intact, but: %v", what, err)

				return
			}

			c.Count("cut-points", 1)

			if len(zr.File) != len(want) {
				c.Fail("file-count", "%s: %d entries, want %d", what, len(zr.File), len(want))

				return
			}

			out := lengthJudge(c, what, zr, want, true, "truncated")
			c.Distinct("cut %s %s", shape(a), out)

			// Folders entirely in front of the cut are not affected.
			for i, f := range a.Files {
				if f.Kind == szw.Stream && ends[folder[f]] <= cut {
					checkFile(c, what+" behind the file's stream", zr.File[i], i, want[i], fixed(5000))
				}
			}
		})
	}

	c.Count("class.cut", 1)
}

// shortPackC08: the packed stream itself is shorter, consistently declared.
func shortPackC08(c *core.Ctx) {
	r := c.R
	t := gen.ArchTune{MaxFile: 4000, MaxFiles: 4, MaxFolders: 2}
	a, pw := drawArchive(c, t)
	want := wantData(a)
	m := anyMethod(r, a.Folders[r.IntN(len(a.Folders))].Method)
	enc := m.Enc
	k := r.IntN(m.In)

	if m.Sub[k] != nil {
		for m.Sub[k] != nil {
			m, k = m.Sub[k], 0
		}

		enc = m.Enc
	}

	m.Enc = func(d []byte) ([][]byte, []byte) {
		in, p := enc(d)
		n := len(in[k])

		cut := min(n, gen.Pick(r, 1, 2, 4, 5, 8, 16, 1+r.IntN(n+1)))
		in[k] = in[k][:n-cut]

		return in, p
	}

	c.Trace("%s, %s cut", describe(a), m.Name)
	c.Guard("short pack", func() {
		zr, err := open(newImage(a.Build()), pw)
		if err != nil {
			return // the header's coders may share the method
		}

		// What comes out of a chain that ends without noticing is not told
		// apart from a complete stream; that is the known finding.
		out := lengthJudgeLoose(c, "packed stream shortened: "+m.Name, zr, want)
		c.Distinct("short %s %s", shape(a), out)
		c.Count("class.short-pack", 1)
	})
}

// lengthJudgeLoose is lengthJudge for streams whose decoder may deliver other
// bytes than the original (a filter flushing its tail, a guessing range coder).
func lengthJudgeLoose(c *core.Ctx, what string, zr *sevenzip.Reader, want [][]byte) (out string) {
	for i, f := range zr.File {
		c.Eval(1)

		rc, err := f.Open()
		if err != nil {
			out += "o"

			continue
		}

		d := drain(rc, readSizes(c.R), int64(f.UncompressedSize)+1<<16)

		switch {
		case d.bad != "":
			c.Fail("read-contract", "%s: file %d: %s", what, i, d.bad)
		case errors.Is(d.err, errNoProgress):
			c.Fail("no-progress", "%s: file %d: reads return 0, nil for ever", what, i)
		case uint64(len(d.data)) > f.UncompressedSize:
			c.Fail("too-much", "%s: file %d: %d bytes delivered, %d declared", what, i, len(d.data), f.UncompressedSize)
		case d.eof && len(d.data) < len(want[i]):
			c.Fail("short-eof:overdeclared", "%s: file %d: io.EOF after %d of %d bytes", what, i, len(d.data), len(want[i]))

			out += "s"
		case d.err != nil:
			out += "e"
		default:
			out += "."
		}

		_ = rc.Close()
	}

	return out
}

// declaredC08: the main coder's declared size differs from what it yields.
func declaredC08(c *core.Ctx) {
	r := c.R
	larger := r.IntN(2) == 0
	t := gen.ArchTune{MaxFile: 4000, MaxFiles: 1, MaxFolders: 1, NoEmptyData: true}

	if larger && r.IntN(2) == 0 {
		t.MaxFiles = 5
	}

	if t.Password == "" && gen.Chance(r, 4) {
		t.Password = "pw"
	}

	a := gen.Archive(r, &t)
	a.Opts.EncodeHeader = nil

	for _, f := range a.Files {
		f.NoCRC = true
	}

	fd := a.Folders[0]
	m := fd.Method
	enc := m.Enc
	full := want1(a)
	real := full

	if larger {
		n := r.IntN(len(full)) // the stream yields only n bytes
		real = full[:n]
		m.Enc = func(d []byte) ([][]byte, []byte) { return enc(d[:n]) }
	} else {
		extra := gen.Content(r, 1+r.IntN(3000))
		m.Enc = func(d []byte) ([][]byte, []byte) { return enc(append(append([]byte(nil), d...), extra...)) }
	}

	c.Trace("larger=%v %s", larger, describe(a))
	c.Guard("declared size", func() {
		zr, err := open(newImage(a.Build()), t.Password)
		if err != nil {
			c.Fail("archive-error", "%v", err)

			return
		}

		if !larger {
			out := lengthJudge(c, "declared smaller", zr, wantData(a), m.Name == "LZMA", "smaller")
			c.Count("class.smaller", 1)
			c.Distinct("smaller %s %s", shape(a), out)

			return
		}

		c.Count("class.larger", 1)

		at := make([]int, len(zr.File)) // of each entry in the stream
		for i, p := 0, 0; i < len(at); i++ {
			at[i] = p
			p += int(zr.File[i].UncompressedSize)
		}

		order := make([]int, len(at))
		for i := range order {
			order[i] = i
		}

		if r.IntN(2) == 0 {
			order = r.Perm(len(at))
		}

		for _, i := range order {
			f := zr.File[i]
			size := int(f.UncompressedSize)

			if size == 0 {
				continue
			}

			c.Eval(1)

			// The entry's part of what the stream yields.
			w := full[at[i] : at[i]+size]
			has := w[:max(0, min(size, len(real)-at[i]))]

			if at[i] > len(real) {
				c.Count("behind-the-end", 1)
			}

			rc, err := f.Open()
			if err != nil {
				if len(has) == size && size > 0 && len(at) == 1 {
					c.Fail("open-error", "file %d is complete, but: %v", i, err)
				}

				continue
			}

			d := drain(rc, readSizes(r), int64(len(full))+1<<16)
			_ = rc.Close()

			switch {
			case d.bad != "":
				c.Fail("read-contract", "declared larger: %s", d.bad)
			case errors.Is(d.err, errNoProgress):
				c.Fail("no-progress", "declared larger: reads return 0, nil for ever")
			case len(d.data) > size:
				c.Fail("too-much", "file %d: %d bytes delivered, %d declared", i, len(d.data), size)
			case d.eof && at[i] > len(real):
				c.Fail("short-eof:behind", "file %d starts %d bytes behind the end of its stream, but reads as %d of %d bytes without an error: %s", i, at[i]-len(real), len(d.data), size, describe(a))
			case len(d.data) < len(has) && d.eof:
				c.Fail("short-eof:lost", "file %d: io.EOF after %d bytes, but the stream has %d (%d declared): %s", i, len(d.data), len(has), size, describe(a))
			case d.eof && len(d.data) < size:
				c.Fail("short-eof:overdeclared", "file %d: io.EOF after %d of %d declared bytes", i, len(d.data), size)
			}

			c.Distinct("larger %s %v", shape(a), d.err != nil)
		}
	})
}

// want1 is the content of a one-folder archive.
func want1(a *szw.Archive) (b []byte) {
	for _, f := range a.Files {
		if f.Kind == szw.Stream {
			b = append(b, f.Data...)
		}
	}

	return b
}

// C16: I/O faults.
func init() {
	core.Register(&core.Property{
		ID: "C16", Level: "fault_enumeration",
		Rule:    "case = one archive; a fault-free run counts the ReadAt calls of opening and reading everything, then one run per call and fault kind (an error once, an error from there on, an error after half of the bytes, io.EOF or io.ErrUnexpectedEOF in the middle, an error that wraps one of them): opening fails or lists the right entries, each read delivers right bytes and then the rest or an error, never a clean early end; a one-shot fault is noticed by one entry only, and everything is readable again afterwards. Distinct = distinct (coder trees, call, kind, outcome).",
		Cases:   tierN(220, 3000),
		Require: []string{"faults.open", "faults.read", "surfaced", "recovered", "kind.once", "kind.persistent", "kind.partial", "kind.eof", "kind.unexpected-eof", "kind.wrapped-eof", "kind.wrapped-unexpected", "cause-kept", "long-headers"},
		Run:     runC16,
	})
}

var (
	errInjected error = errors.New("injected fault")
	// What a connection that is closed ends in, among others. It is not the
	// end of the data.
	errInjectedEOF              = fmt.Errorf("injected fault: %w", io.EOF)
	errInjectedUnexpected error = &fs.PathError{Op: "read", Path: "injected", Err: io.ErrUnexpectedEOF}
	errInjectedClosed     error = &fs.PathError{Op: "read", Path: "injected", Err: fs.ErrClosed}
)

func runC16(c *core.Ctx) {
	r := c.R
	t := gen.ArchTune{MaxFile: 3000, MaxFiles: 4, MaxFolders: 2}

	if gen.Chance(r, 5) {
		t.MaxFile, t.MaxFolders, t.MaxFiles = 100000, 1, 3
	}

	a, pw := drawArchive(c, t)
	a.Opts.Prefix = nil

	long := gen.Chance(r, 4)
	if long {
		longHeader(c, a)
	}

	want := wantData(a)
	bt := a.Build()

	c.Trace("%s", describe(a))
	c.Sample("%s", describe(a))
	noteArchive(c, a)

	base := newImage(bt)
	openCalls := int64(0)

	ok := c.Guard("fault-free", func() {
		zr, err := open(base, pw)
		if err != nil {
			c.Fail("archive-error", "%v", err)

			return
		}

		openCalls = base.reads.Load()
		checkAll(c, "fault-free", zr, want, fixed(4096))
	})
	if !ok || c.Failed() {
		return
	}

	var ref []listed
	if zr, err := open(newImage(bt), pw); err == nil {
		ref = listing(zr)
	}

	calls := base.reads.Load()
	kinds := []string{"once", "persistent", "partial", "eof", "unexpected-eof", "wrapped-eof", "wrapped-unexpected"}

	for k := int64(1); k <= calls && !c.Failed(); k++ {
		if calls > 120 && k > openCalls && r.Int64N(calls) > 120 {
			continue
		}

		if long && k > openCalls+2 {
			break // the reads of opening matter
		}

		for _, kind := range kinds {
			faultRun(c, bt, pw, want, ref, k, kind, k <= openCalls)
		}
	}

	c.Count("reads-enumerated", calls)
}

// longHeader makes the header long enough that it is read in several steps,
// which begin in any of its sections.
func longHeader(c *core.Ctx, a *szw.Archive) {
	r := c.R
	n := 50 + r.IntN(400)

	if r.IntN(2) == 0 { // mostly in the sections about streams
		one := szw.MCopy()

		for i := range n {
			a.Files = append(a.Files, &szw.File{Name: fmt.Sprint(i), Data: []byte{byte(i)}, NoCRC: r.IntN(4) == 0})
			a.Folders = append(a.Folders, &szw.Folder{Method: one, N: 1, FolderCRC: a.Opts.OmitSubStreams})
		}

		n /= 8
	}

	part := r.IntN(4)

	for i := range n {
		f := &szw.File{Name: fmt.Sprintf("x%d", i), Kind: gen.Pick(r, szw.Empty, szw.Dir)}
		v, w := r.Uint64()>>8, r.Uint32()&0x0fffffef

		if f.Kind == szw.Dir {
			w |= 0x10
		}

		if part != 1 || f.Kind == szw.Dir {
			f.Attr = &w
		}

		if part == 0 || part == 3 && i%3 == 0 {
			f.CTime = &v
		}

		if part >= 2 {
			f.MTime, f.ATime = &v, &v
		}

		a.Files = append(a.Files, f)
	}

	if r.IntN(3) > 0 {
		a.Opts.EncodeHeader = nil
		c.Count("long-headers", 1)
	}
}

func faultRun(c *core.Ctx, bt *szw.Built, pw string, want [][]byte, ref []listed, k int64, kind string, opening bool) {
	what := fmt.Sprintf("fault %q at ReadAt call %d", kind, k)
	fired, over := false, false
	injected := errInjected

	switch kind {
	case "wrapped-eof":
		injected = errInjectedEOF
	case "wrapped-unexpected":
		injected = errInjectedUnexpected
	}

	im := newImage(bt)
	im.partial = kind == "partial"
	im.fault = func(call, _ int64, _ int) error {
		if !over && (call == k || kind == "persistent" && call > k) {
			fired = true

			switch kind {
			case "eof":
				return io.EOF
			case "unexpected-eof":
				return io.ErrUnexpectedEOF
			default:
				return injected
			}
		}

		return nil
	}

	c.Count("kind."+kind, 1)
	c.Eval(1)

	if opening {
		c.Count("faults.open", 1)
	} else {
		c.Count("faults.read", 1)
	}

	out := ""

	cause := func(err error) {
		if errors.Is(err, injected) {
			c.Count("cause-kept", 1)
		} else if kind != "eof" && kind != "unexpected-eof" {
			c.Fail("cause", "%s: the cause is not in the chain of %v", what, err)
		}
	}

	c.Guard(what, func() {
		zr, err := open(im, pw)
		if err != nil {
			if !fired {
				c.Fail("spurious", "%s: opening failed before the fault: %v", what, err)
			}

			cause(err)
			c.Count("surfaced", 1)

			out = "open"

			return
		}

		if m := sameListing(listing(zr), ref); m != "" {
			c.Fail("wrong-listing", "%s: opened, and lists %s", what, m)

			return
		}

		r := c.R
		errs := 0

		for i, f := range zr.File {
			rc, err := f.Open()
			if err != nil {
				errs++
				out += "o"

				cause(err)

				continue
			}

			d := drain(rc, readSizes(r), int64(len(want[i]))+1<<16)

			switch {
			case d.bad != "":
				c.Fail("read-contract", "%s: file %d: %s", what, i, d.bad)
			case errors.Is(d.err, errNoProgress):
				c.Fail("no-progress", "%s: file %d: reads return 0, nil for ever", what, i)
			case len(d.data) > len(want[i]) || !bytes.Equal(d.data, want[i][:len(d.data)]):
				c.Fail("wrong-data", "%s: file %d (err %v): %s", what, i, d.err, diff(d.data, want[i]))
			case d.eof && len(d.data) < len(want[i]):
				c.Fail("short-eof", "%s: file %d: io.EOF after %d of %d bytes", what, i, len(d.data), len(want[i]))
			case d.err != nil:
				errs++
				out += "e"

				cause(d.err)

				var re *sevenzip.ReadError
				if !errors.As(d.err, &re) {
					c.Fail("error-type", "%s: file %d: Read failed with %T %v, not a *ReadError", what, i, d.err, d.err)
				}
			default:
				out += "."
			}

			_ = rc.Close()
		}

		if errs > 0 {
			c.Count("surfaced", 1)

			if !fired {
				c.Fail("spurious", "%s: errors without a fault", what)
			}
		}

		if kind == "persistent" || c.Failed() {
			return
		}

		// A reader that has failed is not used for another entry.
		if errs > 1 {
			c.Fail("failed-again", "%s: %d entries could not be read (%s)", what, errs, out)

			return
		}

		over = true // even if it has not come up

		// The fault is over: the same reader delivers everything.
		checkAll(c, what+", afterwards", zr, want, fixed(7000))
		c.Count("recovered", 1)
	})

	c.Distinct("%d %s %s", k, kind, out)
}

// C21: damage stays where it is.
func init() {
	core.Register(&core.Property{
		ID: "C21", Level: "fault_enumeration",
		Rule:    "case = archive with several compressed streams, some damaged (bytes changed, stream cut, wrong key material), whose files are opened, partly read, closed and re-opened in random order, with another intact archive's files in between: every file of an intact stream delivers exactly its content every time. Distinct = distinct (coder trees, damaged set, history).",
		Cases:   tierN(700, 9000),
		Require: []string{"damage-noticed", "intact-files", "other-archive", "coder.Zstd", "coder.LZ4", "coder.Bzip2", "coder.Deflate", "coder.LZMA2", "coder.LZMA", "coder.PPMD", "coder.Brotli", "coder.AES"},
		Run:     runC21,
	})
}

func runC21(c *core.Ctx) {
	r := c.R
	t := gen.ArchTune{MaxFile: 20000, MaxFiles: 5, MaxFolders: 5, PlainNames: true}

	var kind func(*rand.Rand) *szw.Method
	if r.IntN(2) == 0 { // all streams with the same coder share its pools
		m := r.Uint64()
		kind = func(*rand.Rand) *szw.Method {
			return gen.Compressor(gen.New(m, 1), &gen.Tune{MaxDict: 1 << 16})
		}
	}

	t.OneCoder = kind

	var (
		a  *szw.Archive
		pw string
	)

	for {
		a, pw = drawArchive(c, t)
		if len(a.Folders) > 1 {
			break
		}
	}

	a.Opts.EncodeHeader = nil
	noteArchive(c, a)

	bt := a.Build()
	want := wantData(a)
	folder := folderOf(a)
	good := newImage(bt)
	b := append([]byte(nil), bt.Bytes...)
	bad := map[int]bool{}

	for i, regs := range bt.FolderPack {
		if r.IntN(2) == 0 || i == len(bt.FolderPack)-1 && len(bad) == 0 {
			for _, rg := range regs {
				if rg.Len == 0 {
					continue
				}

				bad[i] = true
				p := b[rg.Off : rg.Off+rg.Len]

				switch r.IntN(4) {
				case 0:
					for range 1 + r.IntN(5) {
						p[r.IntN(len(p))] ^= byte(1 + r.IntN(255))
					}
				case 1:
					clear(p[r.IntN(len(p)):])
				case 2:
					for k := range p {
						p[k] = byte(r.Uint32())
					}
				case 3:
					p[r.IntN(min(len(p), 20))] ^= 0xff
				}
			}
		}
	}

	c.Trace("%s damaged %v", describe(a), bad)
	c.Sample("%s damaged %v", describe(a), bad)

	c.Guard("damage", func() {
		zb, err := open(&image{b: b}, pw)
		if err != nil {
			c.Fail("archive-error", "the header is intact, but: %v", err)

			return
		}

		zg, err := open(good, pw)
		if err != nil {
			c.Fail("archive-error", "%v", err)

			return
		}

		if len(zb.File) != len(want) || len(zg.File) != len(want) {
			c.Fail("file-count", "%d, %d entries, want %d", len(zb.File), len(zg.File), len(want))

			return
		}

		var parked []io.Closer

		hist := ""

		for range 60 {
			if c.Failed() {
				break
			}

			i := r.IntN(len(want))
			f := zb.File[i]
			intact := a.Files[i].Kind != szw.Stream || !bad[folder[a.Files[i]]]

			if r.IntN(4) == 0 {
				f, intact = zg.File[i], true
				c.Count("other-archive", 1)
			}

			rc, err := f.Open()
			if err != nil {
				if intact {
					c.Fail("open-error", "file %d in an intact stream: %v", i, err)
				}

				c.Count("damage-noticed", 1)

				hist += "o"

				continue
			}

			if r.IntN(3) == 0 { // partly
				buf := make([]byte, 1+r.IntN(len(want[i])+1))
				n, err := io.ReadFull(rc, buf)

				if intact && (!bytes.Equal(buf[:n], want[i][:min(n, len(want[i]))]) || err != nil && n != len(want[i])) {
					c.Fail("wrong-data", "file %d in an intact stream: %v, %s", i, err, diff(buf[:n], want[i]))
				}

				hist += "p"

				if r.IntN(4) == 0 {
					parked = append(parked, rc)

					continue
				}

				_ = rc.Close()

				continue
			}

			d := drain(rc, readSizes(r), int64(len(want[i]))+1<<16)

			if intact {
				c.Eval(1)
				c.Count("intact-files", 1)
				judge(c, "intact stream next to damaged ones", f.Name, i, d, want[i])

				if err := rc.Close(); err != nil {
					c.Fail("close-error", "file %d in an intact stream: Close: %v", i, err)
				}
			} else {
				if d.err != nil || !bytes.Equal(d.data, want[i]) {
					c.Count("damage-noticed", 1)
				}

				if d.bad != "" || uint64(len(d.data)) > f.UncompressedSize || errors.Is(d.err, errNoProgress) {
					c.Fail("read-contract", "damaged file %d: %s %v, %d of %d bytes", i, d.bad, d.err, len(d.data), f.UncompressedSize)
				}

				_ = rc.Close()
			}

			hist += "."
		}

		for _, p := range parked {
			_ = p.Close()
		}

		if !c.Failed() {
			checkAll(c, "intact archive afterwards", zg, want, fixed(5000))
		}

		c.Distinct("%s %v %s", shape(a), bad, hist)
	})
}
