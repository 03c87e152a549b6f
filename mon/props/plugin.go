package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"slices"

	"github.com/bodgit/sevenzip"

	"verif/mon/core"
	"verif/mon/gen"
	"verif/mon/szw"
)

// C17: registered decompressors.
func init() {
	core.Register(&core.Property{
		ID: "C17", Level: "exploration",
		Rule:    "case = archive whose streams (and possibly header) go through recording decompressors registered for method ids of 1 to 15 bytes (also ids that are prefixes of each other), alone, above, below and between built-in coders, with 1 to 4 inputs, 0 to 300 property bytes, with and without a password; each recorder compares properties, size, number of inputs, every input byte and the password with what was written, and may deliver data in any way io.Reader allows, too much of it, or fail when constructed, given the password, read or closed; unregistered ids and re-registrations in between. Distinct = distinct (trees, behaviours).",
		Cases:   tierN(6000, 150000),
		Require: []string{"constructed", "inputs-compared", "passwords", "multi-input", "above-builtin", "below-builtin", "header", "fail-new", "fail-read", "fail-password", "fail-close", "close-errors", "fail-eof", "unregistered", "re-registered", "too-much", "data-with-eof", "empty-reads", "closed", "id-prefixes", "long-ids", "empty-props", "long-props", "wrong-size-ids"},
		Run:     runC17,
	})
}

var (
	errPlug = errors.New("error of the registered decompressor")
	// What goes wrong may well be that something else has ended.
	errPlugEOF        = fmt.Errorf("%w: %w", errPlug, io.EOF)
	errPlugUnexpected = fmt.Errorf("%w: %w", errPlug, io.ErrUnexpectedEOF)
)

// plug is one coder of an archive with the decompressor that belongs to it.
type plug struct {
	c     *core.Ctx
	id    []byte
	props []byte
	key   byte
	in    int

	out []byte   // what it decodes to
	ins [][]byte // what its inputs deliver

	crypto   bool
	password string
	greedy   bool // reads its inputs when constructed
	extra    int  // bytes delivered behind the recorded size
	eofWith  bool
	empties  bool
	short    int
	mode     string // "", new, read, password, close: what fails
	failAt   int
	err      error // what it fails with

	constructed, closed int
	sour                int // times Close failed
	live                int
	used                bool // by any archive structure
}

func (p *plug) method(sub ...*szw.Method) *szw.Method {
	m := &szw.Method{Name: fmt.Sprintf("Plug%d", p.in), ID: p.id, In: p.in, Sub: make([]*szw.Method, p.in), Enc: func(d []byte) ([][]byte, []byte) {
		p.out = append([]byte(nil), d...)
		p.ins = make([][]byte, p.in)

		for i, b := range d {
			p.ins[i%p.in] = append(p.ins[i%p.in], b^p.key)
		}

		for k := range p.ins {
			if p.ins[k] == nil {
				p.ins[k] = []byte{}
			}
		}

		return p.ins, p.props
	}}

	copy(m.Sub, sub)

	return m
}

type plugReader struct {
	p       *plug
	in      []io.ReadCloser
	bufs    [][]byte
	loaded  bool
	pos     int
	calls   int
	pw      int
	closed  bool
	started bool
}

type plugCrypto struct{ *plugReader }

func (r plugCrypto) Password(pw string) error {
	p := r.p
	r.pw++

	p.c.Count("passwords", 1)
	p.c.Eval(1)

	if pw != p.password {
		p.c.Fail("password", "decompressor %x was given the password %q, want %q", p.id, pw, p.password)
	}

	if r.pw > 1 || r.started {
		p.c.Fail("password-late", "decompressor %x: password given %d times, read before: %v", p.id, r.pw, r.started)
	}

	if p.mode == "password" {
		return p.err
	}

	return nil
}

func (p *plug) register() { sevenzip.RegisterDecompressor(p.id, p.new) }

func (p *plug) new(props []byte, size uint64, in []io.ReadCloser) (io.ReadCloser, error) {
	p.c.Count("constructed", 1)
	p.c.Eval(1)
	p.used = true

	if !bytes.Equal(props, p.props) {
		p.c.Fail("properties", "decompressor %x: properties %x, want %x", p.id, props, p.props)
	}

	if size != uint64(len(p.out)) {
		p.c.Fail("size", "decompressor %x: size %d, want %d", p.id, size, len(p.out))
	}

	if len(in) != p.in {
		p.c.Fail("inputs", "decompressor %x: %d inputs, want %d", p.id, len(in), p.in)

		return nil, errPlug
	}

	if i := slices.Index(in, nil); i >= 0 {
		p.c.Fail("inputs", "decompressor %x: input %d is nil", p.id, i)

		return nil, errPlug
	}

	if p.mode == "new" {
		return nil, p.err
	}

	r := &plugReader{p: p, in: slices.Clone(in)}
	p.constructed++
	p.live++

	if p.greedy && !p.crypto {
		if err := r.load(); err != nil {
			p.constructed--
			p.live--

			return nil, err
		}
	}

	if p.crypto {
		return plugCrypto{r}, nil
	}

	return r, nil
}

// load reads all inputs to their end and compares them.
func (r *plugReader) load() error {
	if r.loaded {
		return nil
	}

	r.loaded = true
	order := r.p.c.R.Perm(len(r.in))

	r.bufs = make([][]byte, len(r.in))

	for _, k := range order {
		b, err := io.ReadAll(r.in[k])
		if err != nil {
			return err //nolint:wrapcheck
		}

		r.compare(k, b, true)
		r.bufs[k] = b
	}

	return nil
}

func (r *plugReader) compare(k int, b []byte, all bool) {
	p := r.p
	p.c.Count("inputs-compared", 1)
	p.c.Eval(1)

	w := p.ins[k]
	if !all {
		w = w[:min(len(b), len(w))]
	}

	if !bytes.Equal(b, w) {
		p.c.Fail("input", "decompressor %x: input %d: %s", p.id, k, diff(b, p.ins[k]))
	}
}

func (r *plugReader) Read(b []byte) (int, error) {
	p := r.p

	if r.closed {
		p.c.Fail("use-after-close", "decompressor %x read after Close", p.id)

		return 0, errPlug
	}

	r.started = true
	r.calls++

	if p.crypto && r.pw == 0 {
		p.c.Fail("no-password", "decompressor %x read without having been given the password", p.id)
	}

	if len(b) == 0 {
		return 0, nil
	}

	if p.empties && r.calls%3 == 0 {
		p.c.Count("empty-reads", 1)

		return 0, nil
	}

	if p.short > 0 && len(b) > p.short {
		b = b[:p.short]
	}

	if p.mode == "read" && r.pos >= p.failAt {
		return 0, p.err
	}

	if err := r.load(); err != nil {
		return 0, err
	}

	total := 0
	for _, x := range r.bufs {
		total += len(x)
	}

	end := total + p.extra
	if p.mode == "read" {
		end = min(end, p.failAt)
	}

	n := 0

	for ; n < len(b) && r.pos < end; n++ {
		if r.pos >= total {
			b[n] = 0xee
		} else {
			b[n] = r.bufs[r.pos%p.in][r.pos/p.in] ^ p.key
		}

		r.pos++
	}

	if r.pos >= total && p.extra > 0 && n > 0 {
		p.c.Count("too-much", 1)
	}

	if r.pos == end {
		switch {
		case p.mode == "read" && (n == 0 || p.eofWith):
			return n, p.err
		case p.mode == "read":
		case n == 0:
			return 0, io.EOF
		case p.eofWith:
			p.c.Count("data-with-eof", 1)

			return n, io.EOF
		}
	}

	return n, nil
}

func (r *plugReader) Close() error {
	if r.closed {
		r.p.c.Fail("closed-twice", "decompressor %x closed twice", r.p.id)

		return errPlug
	}

	r.closed = true
	r.p.closed++
	r.p.live--
	r.p.c.Count("closed", 1)

	var errs []error
	for _, in := range r.in {
		errs = append(errs, in.Close())
	}

	if r.p.mode == "close" {
		r.p.sour++

		errs = append(errs, errPlug)
	}

	return errors.Join(errs...) //nolint:wrapcheck
}

type plugCase struct {
	c     *core.Ctx
	plugs []*plug
	pw    string
}

var builtinIDs = [][]byte{szw.IDCopy, szw.IDDelta, szw.IDARM64, szw.IDLZMA2, szw.IDLZMA, szw.IDBCJ, szw.IDBCJ2, szw.IDPPC, szw.IDARM, szw.IDSPARC, szw.IDPPMD, szw.IDDeflate, szw.IDBzip2, szw.IDZstd, szw.IDBrotli, szw.IDLZ4, szw.IDAES}

func (pc *plugCase) taken(id []byte) bool {
	for _, b := range builtinIDs {
		if bytes.Equal(b, id) {
			return true
		}
	}

	for _, p := range pc.plugs {
		if bytes.Equal(p.id, id) {
			return true
		}
	}

	return false
}

func (pc *plugCase) drawID() []byte {
	r := pc.c.R

	for {
		var id []byte

		switch r.IntN(6) {
		case 0: // related to another one
			if len(pc.plugs) == 0 {
				continue
			}

			o := pc.plugs[r.IntN(len(pc.plugs))].id
			id = append(slices.Clone(o), make([]byte, 1+r.IntN(2))...)

			if r.IntN(2) == 0 {
				id = slices.Clone(o[:max(1, len(o)-1)])
			}

			pc.c.Count("id-prefixes", 1)
		case 1: // related to a built-in one
			o := builtinIDs[r.IntN(len(builtinIDs))]
			id = append(slices.Clone(o), byte(r.IntN(3)))

			if r.IntN(2) == 0 {
				id = append([]byte{0}, o...)
			}

			pc.c.Count("wrong-size-ids", 1)
		case 2:
			id = make([]byte, 12+r.IntN(4))
			for k := range id {
				id[k] = byte(r.Uint32())
			}

			pc.c.Count("long-ids", 1)
		default:
			id = make([]byte, 1+r.IntN(8))
			for k := range id {
				id[k] = byte(r.Uint32())
			}
		}

		if len(id) <= 15 && !pc.taken(id) {
			return id
		}
	}
}

func (pc *plugCase) draw() *plug {
	c, r := pc.c, pc.c.R
	p := &plug{c: c, id: pc.drawID(), key: byte(r.Uint32()), in: gen.Pick(r, 1, 1, 1, 2, 3, 4), crypto: r.IntN(3) == 0, password: pc.pw}

	switch r.IntN(4) {
	case 0:
		c.Count("empty-props", 1)
	case 1:
		p.props = make([]byte, 128+r.IntN(200))

		c.Count("long-props", 1)
	default:
		p.props = make([]byte, 1+r.IntN(20))
	}

	for k := range p.props {
		p.props[k] = byte(r.Uint32())
	}

	p.greedy = r.IntN(4) == 0
	p.eofWith = r.IntN(3) == 0
	p.empties = r.IntN(4) == 0

	if r.IntN(4) == 0 {
		p.short = 1 + r.IntN(100)
	}

	if r.IntN(4) == 0 {
		p.extra = 1 + r.IntN(300)
	}

	if p.in > 1 {
		c.Count("multi-input", 1)
	}

	pc.plugs = append(pc.plugs, p)

	return p
}

// tree draws a coder tree with at least one registered coder; top is the
// registered coder whose output is the stream itself (nil when none).
func (pc *plugCase) tree() (m *szw.Method, used []*plug, top *plug) {
	c, r := pc.c, pc.c.R
	t := &gen.Tune{Cheap: true, MaxDict: 1 << 14}
	p := pc.draw()
	used = []*plug{p}

	base := func() *szw.Method {
		switch r.IntN(3) {
		case 0:
			return nil
		case 1:
			return gen.Compressor(r, t)
		default:
			return gen.Filter(r)
		}
	}

	switch r.IntN(4) {
	case 0: // on top
		var subs []*szw.Method
		for range p.in {
			subs = append(subs, base())
		}

		c.Count("above-builtin", 1)

		return p.method(subs...), used, p
	case 1: // at the bottom
		c.Count("below-builtin", 1)

		return gen.Compressor(r, t).Over(p.method()), used, nil
	case 2: // two
		q := pc.draw()
		used = append(used, q)
		m = q.method()

		if r.IntN(2) == 0 {
			m = gen.Filter(r).Over(m)
		}

		subs := make([]*szw.Method, p.in)
		subs[r.IntN(p.in)] = m

		return p.method(subs...), used, p
	default: // between and beside
		m = szw.MBCJ2(szw.BCJ2Default)
		m.Sub[r.IntN(4)] = p.method()

		c.Count("below-builtin", 1)

		return m, used, nil
	}
}

func runC17(c *core.Ctx) {
	r := c.R
	pc := &plugCase{c: c}

	if r.IntN(2) == 0 {
		pc.pw = gen.Passwords[r.IntN(len(gen.Passwords))]
	}

	a := &szw.Archive{}

	type stream struct {
		plugs []*plug
		top   *plug
		files []int
		kind  string // what goes wrong
		bad   *plug
	}

	var streams []*stream

	sig := ""

	for range 1 + r.IntN(4) {
		s := &stream{}
		fd := &szw.Folder{N: gen.Pick(r, 1, 1, 2, 4), FolderCRC: r.IntN(2) == 0}

		if r.IntN(5) == 0 {
			fd.Method = gen.Tree(r, &gen.Tune{Cheap: true, MaxDict: 1 << 14})
		} else {
			fd.Method, s.plugs, s.top = pc.tree()
		}

		for range fd.N {
			s.files = append(s.files, len(a.Files))
			a.Files = append(a.Files, &szw.File{Name: fmt.Sprintf("f%d", len(a.Files)), Data: gen.Content(r, gen.Size(r, 3000))})
		}

		if len(s.plugs) > 0 && r.IntN(3) == 0 {
			s.kind = gen.Pick(r, "new", "read", "password", "unregistered", "close")
			s.bad = s.plugs[r.IntN(len(s.plugs))]

			if s.kind == "password" {
				s.bad.crypto = true
			}
		}

		sig += fmt.Sprintf("%s*%d %s;", fd.Method, fd.N, s.kind)

		for _, p := range s.plugs {
			sig += fmt.Sprintf("%d%v%v%v%v%d ", p.in, p.crypto, p.greedy, p.eofWith, p.empties, len(p.id))
		}

		a.Folders = append(a.Folders, fd)
		streams = append(streams, s)
	}

	gen.Forms(r, a, &gen.Tune{Cheap: true, MaxDict: 1 << 14})
	a.Opts.PackGap = min(a.Opts.PackGap, 300)

	var hp *plug

	hkind := ""

	if a.Opts.EncodeHeader != nil && r.IntN(2) == 0 {
		hp = pc.draw()
		hp.extra = 0
		a.Opts.EncodeHeader = hp.method()

		if r.IntN(2) == 0 && hp.in == 1 {
			a.Opts.EncodeHeader = szw.MLZMA(szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 14}).Over(hp.method())
		}

		if r.IntN(3) == 0 {
			hkind = gen.Pick(r, "new", "password", "unregistered", "read", "close")
			if hkind == "password" {
				hp.crypto = true
			}
		}

		c.Count("header", 1)
	}

	bt := a.Build()
	want := wantData(a)

	c.Distinct("%s %v %s", sig, hp != nil, hkind)
	c.Trace("%s header %v %s pw %q: %s", describe(a), hp != nil, hkind, pc.pw, sig)
	c.Sample("%s: %s", describe(a), sig)

	fail := func(p *plug, kind string) {
		p.err = gen.Pick(r, errPlug, errPlug, errPlugEOF, errPlugUnexpected)
		if p.err == errPlugEOF { //nolint:errorlint
			c.Count("fail-eof", 1)
		}

		switch kind {
		case "new", "password", "close":
			p.mode = kind
		case "read":
			p.mode = kind
			p.failAt = r.IntN(len(p.out) + 1)
			p.greedy = false
		case "unregistered":
			// Others may have used the id before: a nil decompressor is none
			sevenzip.RegisterDecompressor(p.id, nil)

			if r.IntN(2) == 0 { // and another id that has never been seen
				p.register()
			}
		}

		c.Count(map[string]string{"new": "fail-new", "read": "fail-read", "password": "fail-password", "unregistered": "unregistered", "close": "fail-close"}[kind], 1)
	}

	for _, p := range pc.plugs {
		p.register()
	}

	for _, s := range streams {
		if s.kind != "" {
			fail(s.bad, s.kind)

			if s.kind == "unregistered" {
				sevenzip.RegisterDecompressor(s.bad.id, nil)
			}
		}
	}

	c.Guard("plugins", func() {
		if hkind != "" {
			fail(hp, hkind)

			if hkind == "unregistered" {
				sevenzip.RegisterDecompressor(hp.id, nil)
			}

			if hkind == "read" && hp.failAt >= len(hp.out) {
				hp.failAt = r.IntN(len(hp.out))
			}

			zr, err := open(newImage(bt), pc.pw)
			c.Eval(1)

			if err == nil {
				c.Fail("header-error", "opening succeeds with %d entries although the header's decompressor fails (%s)", len(zr.File), hkind)

				return
			}

			var re *sevenzip.ReadError
			if !errors.As(err, &re) {
				c.Fail("no-read-error", "header, %s: %v is not a ReadError", hkind, err)
			}

			if hkind != "unregistered" && !errors.Is(err, errPlug) {
				c.Fail("cause-lost", "header, %s: %v does not wrap the decompressor's error", hkind, err)
			}

			if hp.live != 0 && hkind != "new" {
				c.Fail("not-closed", "header, %s: %d decompressors left open", hkind, hp.live)
			}

			hp.mode = ""
			hp.register()
		}

		zr, err := open(newImage(bt), pc.pw)
		if err != nil {
			c.Fail("archive-error", "%v", err)

			return
		}

		if len(zr.File) != len(want) {
			c.Fail("file-count", "%d entries, want %d", len(zr.File), len(want))

			return
		}

		if hp != nil && (!hp.used || hp.live != 0) {
			c.Fail("header-decompressor", "used: %v, left open: %d", hp.used, hp.live)
		}

		var order []int
		for i := range want {
			order = append(order, i, i)
		}

		r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })

		of := make([]int, len(want))
		for k, s := range streams {
			for _, i := range s.files {
				of[i] = k
			}
		}

		for _, i := range order {
			s := streams[of[i]]
			if s.kind == "" {
				checkFile(c, "registered", zr.File[i], i, want[i], readSizes(r))

				continue
			}

			before := 0
			for _, j := range s.files {
				if j < i {
					before += len(want[j])
				}
			}

			badPlug(c, zr.File[i], i, want[i], s.kind, s.bad, s.bad == s.top, before)
		}

		if c.Failed() {
			return
		}

		// Another registration takes the place of the failing one
		for _, s := range streams {
			if s.kind == "" {
				continue
			}

			s.bad.mode = ""
			s.bad.register()
			c.Count("re-registered", 1)

			// A decoder that was given up half-way may have met the failure
			// while reading ahead and not shown it yet
			if s.kind == "read" {
				if zr, err = open(newImage(bt), pc.pw); err != nil {
					c.Fail("archive-error", "%v", err)

					return
				}
			}
		}

		// In order, so that every solid stream is read to its end
		checkAll(c, "registered again", zr, want, fixed(1000))

		for k, s := range streams {
			for _, p := range s.plugs {
				if !p.used && len(s.files) > 0 {
					c.Fail("not-used", "stream %d: decompressor %x was never called", k, p.id)
				}

				if len(s.files) == 1 && p.live != 0 {
					c.Fail("not-closed", "stream %d: %d of %d decompressors left open", k, p.live, p.constructed)
				}
			}
		}
	})

	for _, p := range pc.plugs { // keeps the registry of a long run clean of closures
		sevenzip.RegisterDecompressor(p.id, nil)
	}
}

// badPlug reads an entry of a stream whose decompressor fails.
func badPlug(c *core.Ctx, f *sevenzip.File, i int, want []byte, kind string, p *plug, top bool, before int) {
	c.Eval(1)

	sour := p.sour

	rc, err := f.Open()
	if err == nil && kind == "close" {
		d := drain(rc, fixed(1+c.R.IntN(700)), int64(len(want))+1000)
		cerr := rc.Close()

		if d.bad != "" || !bytes.HasPrefix(want, d.data) || d.err == nil && len(d.data) < len(want) {
			c.Fail("wrong-data", "file %d with a decompressor that fails to close: %s %s", i, d.bad, diff(d.data, want))
		}

		switch seen := errors.Join(d.err, cerr); {
		case p.sour > sour && !errors.Is(seen, errPlug):
			c.Fail("close-error-lost", "file %d: the decompressor failed to close, reading and closing the entry report %v", i, seen)
		case p.sour == sour && seen != nil:
			c.Fail("spurious-error", "file %d: %v although nothing failed", i, seen)
		case p.sour > sour:
			c.Count("close-errors", 1)
		}

		return
	}

	if err == nil {
		d := drain(rc, fixed(1+c.R.IntN(700)), int64(len(want))+1000)

		_ = rc.Close()

		if kind != "read" {
			c.Fail("no-error", "file %d opens although its decompressor fails (%s)", i, kind)

			return
		}

		if d.bad != "" || !bytes.HasPrefix(want, d.data) {
			c.Fail("wrong-data", "file %d with a failing decompressor: %s %s", i, d.bad, diff(d.data, want))
		}

		if top {
			if n := max(0, min(p.failAt-before, len(want))); len(d.data) != n && !(d.err != nil && len(d.data) < n) {
				c.Fail("fail-length", "file %d: %d bytes delivered, the decompressor fails after %d", i, len(d.data), n)
			}
		}

		if d.err == nil {
			if !bytes.Equal(d.data, want) {
				c.Fail("clean-end", "file %d: clean end at %d of %d bytes although the decompressor failed", i, len(d.data), len(want))
			}

			return
		}

		err = d.err
	}

	var re *sevenzip.ReadError
	if !errors.As(err, &re) {
		c.Fail("no-read-error", "file %d, %s: %v is not a ReadError", i, kind, err)
	} else if kind == "password" && !re.Encrypted {
		c.Fail("hint", "file %d: %v: Encrypted is not set", i, err)
	}

	if kind != "unregistered" && !errors.Is(err, errPlug) {
		c.Fail("cause-lost", "file %d, %s: %v does not wrap the decompressor's error", i, kind, err)
	}
}

var _ = rand.New
