package props

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math/rand/v2"
	"strings"

	"github.com/bodgit/sevenzip"

	"verif/mon/core"
	"verif/mon/gen"
	"verif/mon/szw"
)

// C12: decryption.
func init() {
	core.Register(&core.Property{
		ID: "C12", Level: "exploration",
		Rule:    "case = 1 to 16 encrypted archives (passwords over Unicode including the empty one, salts of 0-16 and vectors of 0-16 bytes, 2^0 to 2^14 and occasionally up to 2^20 rounds, the raw mode, parameters shared, differing in one component only or equal after a careless comparison (concatenated, trimmed, folded), encrypted headers) opened, re-opened, tried with wrong passwords and read in random interleavings; contents must be what was encrypted with the harness's own key derivation. Unsupported parameters must be rejected. Distinct = distinct (parameters, history).",
		Cases:   tierN(420, 6000),
		Require: []string{"keys", "raw-mode", "empty-password", "wrong-password", "encrypted-headers", "evictions", "rejected-params", "rounds>=2^14", "one-component", "aliases", "interleaved", "rejected-rounds", "limit-rounds"},
		Run:     runC12,
	})
}

func drawPassword(r *rand.Rand) string {
	switch r.IntN(6) {
	case 0:
		return ""
	case 1:
		return gen.Passwords[r.IntN(len(gen.Passwords))]
	case 2:
		b := make([]byte, 1+r.IntN(20))
		for i := range b {
			b[i] = byte(' ' + r.IntN(95))
		}

		return string(b)
	case 3:
		n := 1 + r.IntN(300)
		if gen.Chance(r, 4) {
			n = 1 + r.IntN(5000)
		}

		return strings.Repeat(gen.Pick(r, "x", "é", "文", "𝄞", "pass"), n)
	default:
		s := []rune{}
		for range 1 + r.IntN(12) {
			s = append(s, gen.Pick(r, rune('a'+r.IntN(26)), rune(0x100+r.IntN(0x500)), rune(0x4e00+r.IntN(0x5000)), rune(0x10000+r.IntN(0x10000)), 0xfeff, 0xfffd, 0))
		}

		return string(s)
	}
}

// alias changes parameters into different ones that careless comparisons (of
// concatenations, in another encoding, trimmed, folded) take for the same.
func alias(r *rand.Rand, o szw.AESOpt) szw.AESOpt {
	o.Salt = append([]byte(nil), o.Salt...)
	n := len(o.Salt)
	k := 0

	if n > 0 {
		k = r.IntN(n)
	}

	tail, head := o.Salt[k:], o.Salt[:k]

	switch r.IntN(11) {
	case 0: // hexadecimal salt in front of the password
		o.Password, o.Salt = hex.EncodeToString(tail)+o.Password, head
	case 1: // or behind it
		o.Password, o.Salt = o.Password+hex.EncodeToString(head), tail
	case 2:
		o.Password, o.Salt = strings.ToUpper(hex.EncodeToString(tail))+o.Password, head
	case 3: // the bytes of the salt
		o.Password, o.Salt = string(bytes.ToValidUTF8(tail, []byte("?")))+o.Password, head
	case 4:
		o.Password, o.Salt = o.Password+string(bytes.ToValidUTF8(head, []byte("?"))), tail
	case 5: // zeros
		if n < 16 {
			o.Salt = append(o.Salt, 0)
		} else {
			o.Salt = o.Salt[:15]
		}
	case 6:
		if n < 16 {
			o.Salt = append([]byte{0}, o.Salt...)
		}
	case 7: // digits of the number of rounds
		if o.Cycles < 10 {
			o.Password, o.Cycles = o.Password+"1", max(o.Cycles, 0)
		} else {
			o.Cycles %= 10
			o.Password += "1"
		}
	case 8:
		o.Password += gen.Pick(r, " ", "\x00", "\n", "\ufeff", "\ufffd", "\u0301")
	case 9:
		o.Password = gen.Pick(r, strings.ToUpper, strings.ToLower, strings.TrimSpace)(o.Password + "aB ")
	default: // characters beyond the basic plane and what they get cut to
		o.Password = strings.Map(func(c rune) rune {
			if c > 0xffff {
				return c & 0xffff
			}

			return c + 0x100
		}, o.Password)
		o.Password = strings.ToValidUTF8(o.Password, "?")
	}

	return o
}

type secret struct {
	a    *szw.Archive
	b    []byte
	opt  szw.AESOpt
	want [][]byte
	ref  []listed
	enc  bool // the header is encrypted, with a digest
	zr   *sevenzip.Reader
}

func aesArchive(c *core.Ctx, o szw.AESOpt, big int) *secret {
	r := c.R
	s := &secret{opt: o, a: &szw.Archive{}}
	solid := 1 + r.IntN(3)

	for range 1 + r.IntN(2) {
		fd := &szw.Folder{N: solid, FolderCRC: r.IntN(2) == 0}
		fd.Method = szw.MAES(o)

		if r.IntN(2) == 0 {
			fd.Method = gen.Compressor(r, &gen.Tune{Cheap: true, MaxDict: 1 << 14}).Over(fd.Method)
		}

		for range fd.N {
			s.a.Files = append(s.a.Files, &szw.File{Name: fmt.Sprintf("f%d", len(s.a.Files)), Data: gen.Content(r, gen.Size(r, big))})
		}

		s.a.Folders = append(s.a.Folders, fd)
	}

	if r.IntN(3) == 0 {
		s.a.Opts.EncodeHeader = szw.MAES(o)
		if r.IntN(2) == 0 {
			s.a.Opts.EncodeHeader = szw.MLZMA(szw.LZMAOpt{LC: 3, PB: 2, Dict: 1 << 14}).Over(szw.MAES(o))
		}

		s.a.Opts.HeaderCRC, s.enc = true, true

		c.Count("encrypted-headers", 1)
	}

	s.b = s.a.Build().Bytes
	s.want = wantData(s.a)

	return s
}

func runC12(c *core.Ctx) {
	r := c.R

	if c.Case%7 == 3 {
		badParams(c)

		return
	}

	n := gen.Pick(r, 1, 2, 3, 5, 8, 16)
	base := gen.AES(r, drawPassword(r))

	if len(base.Salt) == 0 && r.IntN(2) == 0 {
		base.Salt = []byte{byte(r.IntN(256)), byte('a' + r.IntN(26))}
	}

	if c.Case%20 == 1 {
		base.Cycles = 14 + r.IntN(3)
		if c.Case%60 == 1 {
			base.Cycles = 19
		}

		n = min(n, 3)

		c.Count("rounds>=2^14", 1)
	}

	var all []*secret

	for k := range n {
		o := base

		if k > 0 {
			switch r.IntN(9) {
			case 6, 7, 8:
				o = alias(r, o)
				c.Count("aliases", 1)
			case 0:
				o.Password = drawPassword(r)

				c.Count("one-component", 1)
			case 1:
				o.Salt = gen.AES(r, "").Salt

				c.Count("one-component", 1)
			case 2:
				if o.Cycles < 14 {
					o.Cycles = gen.Pick(r, 0x3f, r.IntN(8))
				}
			case 3:
				o.IV = gen.AES(r, "").IV
			case 4: // the concatenation of salt and password stays the same
				if len(o.Salt) >= 2 && len(o.Salt)%2 == 0 && o.Password != "" && o.Password[0] < 0x80 {
					o.Salt = append(append([]byte(nil), o.Salt...), o.Password[0], 0)
					o.Password = o.Password[1:]
				}

				if len(o.Salt) > 16 {
					o = base
				}
			default:
				o = gen.AES(r, drawPassword(r))
			}

			if len(o.Salt) == 0 && len(o.IV) == 0 {
				o.IV = []byte{1}
			}
		}

		if o.Cycles == 0x3f {
			c.Count("raw-mode", 1)
		}

		if o.Password == "" {
			c.Count("empty-password", 1)
		}

		all = append(all, aesArchive(c, o, gen.Pick(r, 40, 600, 9000)))
		c.Trace("%d: password %q cycles %d salt %x iv %x %s", k, o.Password, o.Cycles, o.Salt, o.IV, describe(all[k].a))
	}

	if n > 10 {
		c.Count("evictions", 1)
	}

	c.Count("keys", int64(n))

	hist := ""

	var parked []*handle

	owner := map[*handle]*secret{}

	c.Guard("decryption", func() {
		for range 10 + 4*n {
			if c.Failed() {
				return
			}

			k := r.IntN(n)
			s := all[k]

			switch r.IntN(8) {
			case 0:
				wrong := drawPassword(r)
				if r.IntN(2) == 0 && s.opt.Password != "" {
					wrong = s.opt.Password[:len(s.opt.Password)-1] + "\u00ff"
				}

				if r.IntN(3) == 0 {
					wrong = all[r.IntN(n)].opt.Password
				}

				w := s.opt
				w.Password = wrong

				if bytes.Equal(w.Key(), s.opt.Key()) {
					continue
				}

				c.Count("wrong-password", 1)
				wrongPassword(c, s, wrong)

				hist += "w"
			case 1, 2: // part of a file, left open
				if s.zr == nil || len(parked) > 20 {
					continue
				}

				i := r.IntN(len(s.want))

				rc, err := s.zr.File[i].Open()
				if err != nil {
					c.Fail("open-error", "archive %d file %d: %v", k, i, err)

					return
				}

				h := &handle{rc: rc, file: i}
				owner[h] = s
				parked = append(parked, h)
				hist += "p"
			case 3:
				if len(parked) == 0 {
					continue
				}

				x := r.IntN(len(parked))
				h := parked[x]
				w := owner[h].want[h.file]
				b := make([]byte, 1+r.IntN(300))
				m, err := h.rc.Read(b)
				c.Eval(1)

				if m > len(w)-h.pos || !bytes.Equal(b[:m], w[h.pos:h.pos+m]) {
					c.Fail("wrong-data", "interleaved: file %d at %d of %d: %x", h.file, h.pos, len(w), b[:m])

					return
				}

				h.pos += m

				c.Count("interleaved", 1)

				if err != nil {
					if err != io.EOF || h.pos != len(w) { //nolint:errorlint
						c.Fail("read-error", "interleaved: file %d at %d of %d: %v", h.file, h.pos, len(w), err)
					}

					_ = h.rc.Close()
					parked = append(parked[:x], parked[x+1:]...)
				}

				hist += "r"
			case 4:
				if s.zr != nil {
					i := r.IntN(len(s.want))
					checkFile(c, "again", s.zr.File[i], i, s.want[i], readSizes(r))

					hist += "f"

					continue
				}

				fallthrough
			default:
				zr, err := open(&image{b: s.b}, s.opt.Password)
				c.Eval(1)

				if err != nil {
					c.Fail("archive-error", "archive %d (password %q): %v", k, s.opt.Password, err)

					return
				}

				if s.ref == nil {
					s.ref = listing(zr)
					checkListing(c, zr, s.a)
				} else if m := sameListing(listing(zr), s.ref); m != "" {
					c.Fail("listing", "archive %d: %s", k, m)

					return
				}

				checkAll(c, fmt.Sprintf("archive %d", k), zr, s.want, readSizes(r))
				s.zr = zr
				hist += fmt.Sprint("o", k)
			}
		}
	})

	for _, h := range parked {
		_ = h.rc.Close()
	}

	c.Distinct("%d %d %d %d %s", base.Cycles, len(base.Salt), len(base.IV), n, hist)
	c.Sample("%d archives, first: cycles %d salt %x iv %x password %.40q; history %s", n, base.Cycles, base.Salt, base.IV, base.Password, hist)
}

// wrongPassword opens with a password that is not the right one: errors are
// flagged as involving encryption, an encrypted header is not believed.
func wrongPassword(c *core.Ctx, s *secret, pw string) {
	zr, err := open(&image{b: s.b}, pw)

	if s.enc {
		if err == nil {
			c.Fail("wrong-password-header", "an encrypted header opened with the wrong password %q", pw)
		} else {
			hint(c, "encrypted header, wrong password", err, true)
		}

		return
	}

	if err != nil {
		c.Fail("archive-error", "plain header: %v", err)

		return
	}

	for i, f := range zr.File {
		w := s.want[i]

		rc, err := f.Open()
		if err != nil {
			hint(c, "wrong password, Open", err, true)

			continue
		}

		d := drain(rc, fixed(777), int64(len(w))+1000)
		_ = rc.Close()

		if d.err != nil {
			hint(c, "wrong password, Read", d.err, true)
		} else if len(w) >= 32 && bytes.Equal(d.data, w) {
			c.Fail("wrong-password-data", "file %d: the right contents with the wrong password %q", i, pw)
		}
	}
}

// badParams are parameters the format or the library does not allow.
func badParams(c *core.Ctx) {
	r := c.R
	o := gen.AES(r, drawPassword(r))
	o.Cycles = r.IntN(8)
	good := aesArchive(c, o, 300)
	what := ""
	edit := func(p []byte) []byte { return p }

	switch r.IntN(5) {
	case 0, 1:
		k := 25 + r.IntN(38)
		what = fmt.Sprintf("2^%d rounds", k)
		edit = func(p []byte) []byte { p[0] = p[0]&0xc0 | byte(k); return p }

		c.Count("rejected-rounds", 1)
	case 2:
		what = "a property byte missing"
		edit = func(p []byte) []byte { return p[:len(p)-1] }
	case 3:
		what = "a property byte too many"
		edit = func(p []byte) []byte { return append(p, 0) }
	default:
		n := r.IntN(2)
		what = fmt.Sprintf("%d property bytes", n)
		edit = func(p []byte) []byte { return p[:n] }
	}

	if c.Case%70 == 3 || c.Thorough() && c.Case%7 == 3 && r.IntN(8) == 0 {
		// The most rounds that are allowed, and used.
		k := 20
		if c.Thorough() || c.Case == 3 {
			k = 24
		}

		o.Cycles = k
		s := aesArchive(c, o, 300)
		c.Guard("many rounds", func() {
			zr, err := open(&image{b: s.b}, o.Password)
			if err != nil {
				c.Fail("archive-error", "2^%d rounds: %v", k, err)

				return
			}

			checkAll(c, fmt.Sprintf("2^%d rounds", k), zr, s.want, fixed(500))
		})
		c.Count("limit-rounds", 1)
	}

	c.Trace("%s: %s", what, describe(good.a))

	bad := good.a.Folders[0].Method
	for bad.Name != "AES" {
		bad = bad.Sub[0]
	}

	good.a.Opts.EncodeHeader = nil

	enc := bad.Enc
	bad.Enc = func(d []byte) ([][]byte, []byte) {
		in, p := enc(d)

		return in, edit(append([]byte(nil), p...))
	}
	b := good.a.Build().Bytes

	c.Guard(what, func() {
		zr, err := open(&image{b: b}, o.Password)
		c.Eval(1)
		c.Count("rejected-params", 1)

		if err != nil {
			return // malformed properties may also be noticed here
		}

		if len(zr.File) != len(good.want) {
			c.Fail("file-count", "%d entries", len(zr.File))

			return
		}

		for i, f := range zr.File {
			if i < good.a.Folders[0].N && f.UncompressedSize > 0 {
				rc, err := f.Open()
				if err == nil {
					_ = rc.Close()

					c.Fail("bad-params-accepted", "%s: file %d opened", what, i)
				}

				continue
			}

			if i >= good.a.Folders[0].N {
				checkFile(c, "other folder", f, i, good.want[i], fixed(1000))
			}
		}

		c.Distinct("%s %d %d", what, len(o.Salt), len(o.IV))
	})
}

// hint checks the error of a stream that is (not) encrypted.
func hint(c *core.Ctx, what string, err error, encrypted bool) {
	var re *sevenzip.ReadError

	switch {
	case !errors.As(err, &re):
		c.Fail("no-read-error", "%s: %T %v has no *ReadError in its chain", what, err, err)
	case re.Encrypted != encrypted:
		c.Fail("hint", "%s: Encrypted = %v on %v", what, re.Encrypted, err)
	}
}

// C13: the encryption hint.
func init() {
	core.Register(&core.Property{
		ID: "C13", Level: "fault_enumeration",
		Rule:    "case = archive of encrypted and unencrypted streams with a plain, packed or encrypted header, opened with the right, wrong, empty and no password, with packed data damaged, cut off or failing to be read in chosen streams, or with coders that are unknown or have other properties; every error is checked for a *ReadError whose Encrypted equals whether the failing stream (or header) is encrypted, for the injected cause, and an encrypted header with a digest must never open with a wrong password. Distinct = distinct (coder trees, damage, outcome).",
		Cases:   tierN(1500, 25000),
		Require: []string{"hint.true", "hint.false", "header.encrypted", "header.packed-damaged", "wrong-password", "io-error", "damaged", "mixed", "coder-fails", "coder-fails.encrypted", "registered"},
		Run:     runC13,
	})
}

func encryptedTree(m *szw.Method) bool { return m != nil && (m.Uses("AES") || m.Uses("Own")) }

// own is a registered decompressor that takes a password: a checksum of it,
// followed by the data combined with it.
type own struct {
	io.ReadCloser
	pos   int
	pw    string
	begun bool
}

var (
	idOwn       = []byte{0x7d, 0x01}
	errOwnWrong = errors.New("own: wrong password")
)

func ownMethod(r *rand.Rand, pw string) *szw.Method {
	early := byte(r.IntN(2))

	return &szw.Method{Name: "Own", ID: idOwn, In: 1, Sub: make([]*szw.Method, 1), Enc: func(d []byte) ([][]byte, []byte) {
		b := binary.LittleEndian.AppendUint32(nil, crc32.ChecksumIEEE([]byte(pw)))
		for i, x := range d {
			b = append(b, x^pw[i%len(pw)])
		}

		if early == 1 { // the password is checked when it is given
			return [][]byte{b}, []byte{1, b[0], b[1], b[2], b[3]}
		}

		return [][]byte{b}, []byte{0}
	}}
}

func newOwn(props []byte, _ uint64, in []io.ReadCloser) (io.ReadCloser, error) {
	if len(in) != 1 || len(props) != 1 && len(props) != 5 {
		return nil, errors.New("own: wrong properties")
	}

	o := &own{ReadCloser: in[0]}
	if props[0] == 1 && len(props) == 5 {
		return &ownEarly{o, binary.LittleEndian.Uint32(props[1:])}, nil
	}

	return o, nil
}

type ownEarly struct {
	*own
	crc uint32
}

func (o *ownEarly) Password(pw string) error {
	if crc32.ChecksumIEEE([]byte(pw)) != o.crc {
		return errOwnWrong
	}

	return o.own.Password(pw)
}

func (o *own) Password(pw string) error {
	o.pw = pw

	return nil
}

func (o *own) Read(p []byte) (int, error) {
	if !o.begun {
		var b [4]byte
		if _, err := io.ReadFull(o.ReadCloser, b[:]); err != nil {
			return 0, err
		}

		if crc32.ChecksumIEEE([]byte(o.pw)) != binary.LittleEndian.Uint32(b[:]) || o.pw == "" {
			return 0, errOwnWrong
		}

		o.begun = true
	}

	n, err := o.ReadCloser.Read(p)
	for i := range p[:n] {
		p[i] ^= o.pw[(o.pos+i)%len(o.pw)]
	}

	o.pos += n

	return n, err
}

// treeNodes lists the coders of a tree.
func treeNodes(m *szw.Method) (nodes []*szw.Method) {
	if m == nil {
		return nil
	}

	nodes = append(nodes, m)

	for _, s := range m.Sub {
		nodes = append(nodes, treeNodes(s)...)
	}

	return nodes
}

func runC13(c *core.Ctx) {
	r := c.R
	pw := drawPassword(r)

	// The wrong passwords below give other keys even in the raw mode.
	for pw == "" || pw[0] == 0 || strings.HasPrefix(pw, "\u0101") {
		pw = drawPassword(r)
	}

	a := &szw.Archive{}
	mixed := 0

	for range 1 + r.IntN(4) {
		t := gen.Tune{MaxDict: 1 << 16}
		if r.IntN(2) == 0 {
			t.Password, t.Encrypt = pw, true
			mixed |= 1
		} else {
			mixed |= 2
		}

		fd := &szw.Folder{N: 1 + r.IntN(3), Method: gen.Tree(r, &t)}

		if t.Encrypt && r.IntN(4) == 0 {
			c.Count("registered", 1)

			sevenzip.RegisterDecompressor(idOwn, newOwn)

			switch fd.Method = ownMethod(r, pw); r.IntN(4) {
			case 0:
			case 1:
				fd.Method = gen.Compressor(r, &gen.Tune{MaxDict: 1 << 16}).Over(fd.Method)
			case 2:
				fd.Method = gen.Filter(r).Over(gen.Compressor(r, &gen.Tune{MaxDict: 1 << 16}).Over(fd.Method))
			default:
				m := szw.MBCJ2(szw.BCJ2Default)
				m.Sub[r.IntN(4)] = fd.Method
				fd.Method = m
			}
		}

		for range fd.N {
			a.Files = append(a.Files, &szw.File{Name: fmt.Sprintf("f%d", len(a.Files)), Data: gen.Content(r, 1+gen.Size(r, 9000))})
		}

		a.Folders = append(a.Folders, fd)
	}

	if mixed == 3 {
		c.Count("mixed", 1)
	}

	headerEnc := false

	switch r.IntN(3) {
	case 0:
		m := gen.Tree(r, &gen.Tune{Password: pw, Encrypt: true, MaxDict: 1 << 16})
		for m.In != 1 {
			m = gen.Tree(r, &gen.Tune{Password: pw, Encrypt: true, MaxDict: 1 << 16})
		}

		a.Opts.EncodeHeader, a.Opts.HeaderCRC = m, true
		headerEnc = encryptedTree(m)
	case 1:
		a.Opts.EncodeHeader, a.Opts.HeaderCRC = gen.Compressor(r, &gen.Tune{MaxDict: 1 << 14}), true
	}

	bt := a.Build()
	want := wantData(a)
	folder := folderOf(a)

	c.Trace("%s", describe(a))
	c.Sample("%s password %.30q", describe(a), pw)

	note := func(err error) {
		var re *sevenzip.ReadError
		if errors.As(err, &re) {
			if re.Encrypted {
				c.Count("hint.true", 1)
			} else {
				c.Count("hint.false", 1)
			}
		}
	}

	// files reads everything; every error must carry the hint of its stream.
	files := func(what string, zr *sevenzip.Reader, cause error) (out string) {
		if len(zr.File) != len(want) {
			c.Fail("file-count", "%s: %d entries", what, len(zr.File))

			return
		}

		for _, i := range r.Perm(len(want)) {
			enc := encryptedTree(a.Folders[folder[a.Files[i]]].Method)

			rc, err := zr.File[i].Open()
			if err == nil {
				d := drain(rc, readSizes(r), int64(len(want[i]))+1<<16)
				err = d.err
				_ = rc.Close()
			}

			c.Eval(1)

			if err == nil {
				continue
			}

			out += fmt.Sprint(folder[a.Files[i]])

			note(err)
			hint(c, fmt.Sprintf("%s: file %d in %s", what, i, a.Folders[folder[a.Files[i]]].Method), err, enc)

			if cause != nil && !errors.Is(err, cause) {
				c.Fail("cause", "%s: file %d in %s: the cause is not in the chain of %v", what, i, a.Folders[folder[a.Files[i]]].Method, err)
			}
		}

		return out
	}

	c.Guard("passwords", func() {
		for _, p := range []string{"", "\u0101" + pw, "\u0101" + pw[1:]} {
			zr, err := open(&image{b: bt.Bytes}, p)
			c.Eval(1)
			c.Count("wrong-password", 1)

			switch {
			case err != nil && !headerEnc:
				c.Fail("archive-error", "the header is not encrypted, but with a wrong password: %v", err)
			case err == nil && headerEnc:
				c.Fail("wrong-password-header", "an encrypted header (%s) opened with the wrong password %q", a.Opts.EncodeHeader, p)
			case err != nil:
				note(err)
				hint(c, "encrypted header", err, true)
				c.Count("header.encrypted", 1)
			default:
				c.Distinct("pw %s %s", shape(a), files("wrong password", zr, nil))
			}
		}
	})

	if c.Failed() {
		return
	}

	// Damage to packed data, the right password.
	for range 4 {
		b := append([]byte(nil), bt.Bytes...)
		k := r.IntN(len(bt.FolderPack))

		for _, rg := range bt.FolderPack[k] {
			if rg.Len == 0 {
				continue
			}

			p := b[rg.Off : rg.Off+rg.Len]

			switch r.IntN(3) {
			case 0:
				p[r.IntN(len(p))] ^= byte(1 + r.IntN(255))
			case 1:
				for i := range p {
					p[i] = byte(r.Uint32())
				}
			default:
				clear(p[r.IntN(len(p)):])
			}
		}

		c.Guard("damage", func() {
			zr, err := open(&image{b: b}, pw)
			if err != nil {
				c.Fail("archive-error", "the header is intact, but: %v", err)

				return
			}

			c.Count("damaged", 1)
			c.Distinct("damage %s %s", shape(a), files("damaged", zr, nil))
		})
	}

	// A coder that cannot be started.
	c.Guard("coders", func() {
		fd := a.Folders[r.IntN(len(a.Folders))]
		nodes := treeNodes(fd.Method)
		m := nodes[r.IntN(len(nodes))]

		if encryptedTree(fd.Method) && !fd.Method.Uses("AES") {
			return // only the decompressors themselves tell
		}

		saved := *m
		what := ""

		if saved.Name != "AES" && r.IntN(2) == 0 {
			m.ID = []byte{0x7e, byte(r.IntN(256))}
			what = "unknown"
		} else {
			what = "other properties"
			k := r.IntN(4)
			m.Enc = func(d []byte) ([][]byte, []byte) {
				in, p := saved.Enc(d)
				p = append([]byte(nil), p...)

				switch {
				case k == 0 || len(p) == 0:
					p = append(p, byte(r.IntN(256)))
				case k == 1:
					p = p[:r.IntN(len(p))]
				case k == 2:
					p = nil
				case saved.Name == "AES":
					p[0] = p[0]&0xc0 | byte(25+r.IntN(38))
				default:
					p[0] = 0xff
				}

				return in, p
			}
		}

		eh := a.Opts.EncodeHeader
		a.Opts.EncodeHeader = nil
		b := a.Build().Bytes
		*m, a.Opts.EncodeHeader = saved, eh

		zr, err := open(&image{b: b}, pw)
		if err != nil {
			return // malformed properties may also be noticed here
		}

		c.Count("coder-fails", 1)

		if encryptedTree(fd.Method) {
			c.Count("coder-fails.encrypted", 1)
		}

		c.Distinct("coder %s %s %s %s", shape(a), saved.Name, what, files(what+" of "+saved.Name, zr, nil))
	})

	// Reads of some streams fail.
	c.Guard("i/o errors", func() {
		im := &image{b: bt.Bytes}

		zr, err := open(im, pw)
		if err != nil {
			c.Fail("archive-error", "%v", err)

			return
		}

		k := r.IntN(len(bt.FolderPack))
		im.partial = r.IntN(2) == 0
		cause := gen.Pick(r, errInjected, errInjected, errInjectedEOF, errInjectedUnexpected, errInjectedClosed)
		im.fault = func(_ int64, off int64, n int) error {
			for _, rg := range bt.FolderPack[k] {
				if off < rg.Off+rg.Len && off+int64(n) > rg.Off && rg.Len > 0 {
					return cause
				}
			}

			return nil
		}

		c.Count("io-error", 1)
		c.Distinct("io %s %s", shape(a), files("failing reads", zr, cause))
	})

	// Damage to a packed header.
	if a.Opts.EncodeHeader != nil {
		c.Guard("header damage", func() {
			for _, rg := range bt.Regions {
				if rg.Name != "hdrpack" || rg.Len == 0 {
					continue
				}

				b := append([]byte(nil), bt.Bytes...)
				b[rg.Off+r.Int64N(rg.Len)] ^= byte(1 + r.IntN(255))

				zr, err := open(&image{b: b}, pw)
				if err == nil {
					if m := files("header damaged without effect", zr, nil); m != "" {
						c.Fail("archive-error", "errors after opening a damaged header")
					}

					continue
				}

				note(err)
				hint(c, fmt.Sprintf("header packed with %s, damaged", a.Opts.EncodeHeader), err, headerEnc)
				c.Count("header.packed-damaged", 1)
			}
		})
	}
}
