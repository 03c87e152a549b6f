package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/bodgit/sevenzip"

	"verif/mon/core"
	"verif/mon/gen"
	"verif/mon/szw"
)

// openFDs lists the files of dir that the process has open.
func openFDs(dir string) []string {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic("szw: " + err.Error())
	}

	var out []string

	for _, e := range ents {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, dir) {
			out = append(out, strings.TrimSuffix(t, " (deleted)"))
		}
	}

	return out
}

func noFDs(c *core.Ctx, what, dir string) {
	if o := openFDs(dir); len(o) != 0 {
		c.Fail("fd-leak", "%s: still open: %v", what, o)
	}
}

func mkdir(c *core.Ctx) string {
	d, err := os.MkdirTemp(c.Tmp, "d")
	if err != nil {
		panic("szw: " + err.Error())
	}

	return d
}

func readerOf(rc *sevenzip.ReadCloser) *sevenzip.Reader {
	if rc == nil {
		return nil
	}

	return &rc.Reader
}

func sorted(s []string) []string {
	s = slices.Clone(s)
	slices.Sort(s)

	return s
}

func put(path string, b []byte) {
	if err := os.WriteFile(path, b, 0o600); err != nil {
		panic("szw: " + err.Error())
	}
}

// splitAt cuts b at random points into n volumes named base.001...
func splitAt(r *rand.Rand, base string, b []byte, n int) (names []string) {
	cuts := []int{0, len(b)}

	if n > 500 {
		for _, p := range r.Perm(len(b) - 1)[:min(n, len(b)-1)-1] {
			cuts = append(cuts, p+1)
		}

		n = 1
	}

	for range n - 1 {
		p := 1 + r.IntN(max(1, len(b)-1))
		if r.IntN(3) == 0 {
			p = gen.Pick(r, 1, 5, 6, 7, 11, 12, 13, 31, 32, 33, 4095, 4096, 4097, len(b)-1, len(b)-2)
		}

		if p > 0 && p < len(b) {
			cuts = append(cuts, p)
		}
	}

	slices.Sort(cuts)
	cuts = slices.Compact(cuts)

	// Nothing says that a volume can't be empty
	if r.IntN(4) == 0 && len(cuts) < 900 {
		for range 1 + r.IntN(3) {
			cuts = append(cuts, cuts[r.IntN(len(cuts))])
		}

		slices.Sort(cuts)
	}

	for i := range len(cuts) - 1 {
		name := fmt.Sprintf("%s.%03d", base, i+1)
		put(name, b[cuts[i]:cuts[i+1]])
		names = append(names, name)
	}

	return names
}

// C10: opening functions and volumes.
func init() {
	core.Register(&core.Property{
		ID: "C10", Level: "exploration",
		Rule:    "case = one archive opened in every way: io.ReaderAt (memory, os.File, with and without a needless password), file by name (relative, unclean, odd names), volumes split at 1 to over 999 places including one-byte and empty volumes and splits inside of the start header and header; listing, contents and Volumes() must be those of the archive, the open descriptors exactly the volumes until Close; missing files, directories, garbage and missing or unopenable volumes must fail (or deliver right data) and leave no descriptor. Distinct = distinct (coder trees, split class).",
		Cases:   tierN(1500, 25000),
		Require: []string{"volumes.1", "volumes.few", "volumes.many", "volumes.thousand", "volumes.missing", "volumes.link", "volumes.strange", "volumes.unopenable", "by-name", "needless-password", "relative", "os-file", "samples", "not-exist", "garbage", "prefix"},
		Run:     runC10,
	})
}

func volClass(n int) string {
	switch {
	case n == 1:
		return "1"
	case n <= 12:
		return "few"
	case n > 999:
		return "thousand"
	default:
		return "many"
	}
}

func runC10(c *core.Ctx) {
	r := c.R
	top := mkdir(c)

	defer os.RemoveAll(top)

	// The names of directories mean nothing.
	dir := filepath.Join(top, gen.Pick(r, ".", ".", "x.001", "x.7z.001", "a.002", "d.001.d", "two words", "ä"))
	if err := os.MkdirAll(dir, 0o700); err != nil {
		panic("szw: " + err.Error())
	}

	var (
		b    []byte
		pw   string
		want [][]byte
		sig  string
	)

	if c.Case%13 == 5 {
		s := samples[r.IntN(len(samples))]
		b, pw, sig = loadSample(c, s), s.password, s.name

		c.Count("samples", 1)
	} else {
		t := gen.ArchTune{MaxFile: 8000, MaxFiles: 4, MaxFolders: 3}
		a, p := drawArchive(c, t)

		switch {
		case c.Case%60 == 7: // The archive proper ends in volume 1000 or later
			a.Opts.Prefix = prefix(r, 1500+r.IntN(1000))
		case gen.Chance(r, 5):
			a.Opts.Prefix = prefix(r, 1+r.IntN(9000))
			c.Count("prefix", 1)
		}

		if a.Opts.PackGap > 1<<20 {
			a.Opts.PackGap = 0
		}

		a.Opts.PackGapVirtual = false
		b, pw, want, sig = a.Build().Bytes, p, wantData(a), shape(a)
		c.Trace("%s", describe(a))
		c.Sample("%s", describe(a))
	}

	var ref []listed

	ok := c.Guard("reference", func() {
		zr, err := sevenzip.NewReaderWithPassword(bytes.NewReader(b), int64(len(b)), pw)
		if err != nil {
			c.Fail("archive-error", "NewReaderWithPassword: %v", err)

			return
		}

		ref = listing(zr)

		if want == nil {
			if want, err = reference(zr); err != nil {
				c.Fail("read-error", "%v", err)
			}
		} else {
			checkAll(c, "NewReaderWithPassword", zr, want, fixed(8192))
		}
	})
	if !ok || c.Failed() {
		return
	}

	same := func(what string, zr *sevenzip.Reader, err error) {
		c.Eval(1)

		if err != nil {
			c.Fail("archive-error", "%s: %v", what, err)

			return
		}

		if m := sameListing(listing(zr), ref); m != "" {
			c.Fail("listing", "%s: %s", what, m)

			return
		}

		checkAll(c, what, zr, want, readSizes(r))
	}

	c.Guard("memory", func() {
		im := &image{b: b, eofMode: 1}
		zr, err := sevenzip.NewReaderWithPassword(im, im.Size(), pw)
		same("NewReaderWithPassword", zr, err)

		if pw == "" {
			zr, err := sevenzip.NewReader(im, im.Size())
			same("NewReader", zr, err)

			zr, err = sevenzip.NewReaderWithPassword(im, im.Size(), "needless")
			same("needless password", zr, err)
			c.Count("needless-password", 1)
		}

		if _, err := sevenzip.NewReaderWithPassword(im, -1-r.Int64N(1<<40), pw); err == nil {
			c.Fail("negative-size", "a negative size was accepted")
		}
	})

	// closing checks the open descriptors and Volumes around Close.
	closing := func(what string, rc *sevenzip.ReadCloser, names []string) {
		v := rc.Volumes()
		if strings.HasSuffix(what, "by another name") {
			for i := range v { // the same files
				v[i], _ = filepath.Abs(v[i])
			}
		}

		if !slices.Equal(v, names) {
			c.Fail("volumes", "%s: Volumes() = %.300q, want %.300q", what, v, names)
		}

		open := openFDs(dir)
		slices.Sort(open)

		abs := make([]string, 0, len(names))

		for _, n := range names {
			p, _ := filepath.Abs(n)
			abs = append(abs, p)
		}

		slices.Sort(abs)

		if !slices.Equal(open, abs) {
			c.Fail("fd-open", "%s: open files %.400q, want %.400q", what, open, abs)
		}

		if err := rc.Close(); err != nil {
			c.Fail("close-error", "%s: Close: %v", what, err)
		}

		noFDs(c, what+" after Close", dir)
	}

	base := filepath.Join(dir, gen.Pick(r, "x.7z", "x", "with space.7z", "100%d%s.7z", "a.001", "ünïcode.7z", "x.exe", "x.7Z.002"))

	c.Guard("by name", func() {
		put(base, b)

		if filepath.Ext(base) != ".001" {
			name := base
			if r.IntN(3) == 0 {
				name = dir + "/./../" + filepath.Base(dir) + "//" + filepath.Base(base)
			}

			rc, err := sevenzip.OpenReaderWithPassword(name, pw)
			if err == nil {
				same("OpenReaderWithPassword", &rc.Reader, nil)
				closing("OpenReaderWithPassword", rc, []string{base})
			} else {
				same("OpenReaderWithPassword", nil, err)
			}

			if pw == "" {
				rc, err := sevenzip.OpenReader(name)
				if err == nil {
					same("OpenReader", &rc.Reader, nil)
					closing("OpenReader", rc, []string{base})
				} else {
					same("OpenReader", nil, err)
				}
			}

			c.Count("by-name", 1)
		}

		f, err := os.Open(base)
		if err != nil {
			panic("szw: " + err.Error())
		}

		zr, err := sevenzip.NewReaderWithPassword(f, int64(len(b)), pw)
		same("os.File", zr, err)
		c.Count("os-file", 1)
		f.Close()
		os.Remove(base)
		noFDs(c, "os.File", dir)
	})

	var names []string

	c.Guard("volumes", func() {
		for range 3 {
			n := gen.Pick(r, 1, 2, 3, 3, 5, 8, 30)
			if c.Case%60 == 7 {
				n = 1100 + r.IntN(300)
			}

			for _, f := range names {
				os.Remove(f)
			}

			names = splitAt(r, base, b, n)
			what, first := fmt.Sprintf("%d volumes", len(names)), names[0]

			switch r.IntN(4) {
			case 0:
				first = filepath.Dir(first) + "/./../" + filepath.Base(dir) + "//" + filepath.Base(first)
				what += " by another name"
			case 1:
				if cwd, err := os.Getwd(); err == nil {
					if rel, err := filepath.Rel(cwd, first); err == nil {
						first = rel
						what += " by another name"

						c.Count("relative", 1)
					}
				}
			}

			rc, err := sevenzip.OpenReaderWithPassword(first, pw)

			if err != nil {
				same(what, nil, err)

				return
			}

			same(what, &rc.Reader, nil)
			closing(what, rc, names)
			c.Count("volumes."+volClass(len(names)), 1)

			for _, f := range names {
				if fi, err := os.Stat(f); err == nil && fi.Size() == 0 {
					c.Count("volumes.empty", 1)
				}
			}

			c.Distinct("%s %s", sig, volClass(len(names)))
		}
	})

	if c.Failed() {
		return
	}

	c.Guard("paths", func() {
		if len(names) < 2 || len(names) > 50 {
			return
		}

		// Leads to another set of the same volumes when "link/.." is followed
		// by the system, and back to this one when it's removed beforehand.
		other := mkdir(c)
		link := filepath.Join(dir, "link")

		if err := os.Mkdir(filepath.Join(other, "sub"), 0o700); err != nil {
			panic("szw: " + err.Error())
		}

		if err := os.Symlink(filepath.Join(other, "sub"), link); err != nil {
			panic("szw: " + err.Error())
		}

		there := make([]string, 0, len(names))

		for _, f := range names {
			b, err := os.ReadFile(f)
			if err != nil {
				panic("szw: " + err.Error())
			}

			there = append(there, filepath.Join(other, filepath.Base(f)))
			put(there[len(there)-1], b)
		}

		rc, err := sevenzip.OpenReaderWithPassword(link+"/../"+filepath.Base(names[0]), pw)
		same("volumes behind a link", readerOf(rc), err)

		if err == nil {
			here, others := openFDs(dir), openFDs(other)
			slices.Sort(here)
			slices.Sort(others)

			if !slices.Equal(here, sorted(names)) && !slices.Equal(others, sorted(there)) || len(here) > 0 && len(others) > 0 {
				c.Fail("mixed-volumes", "volumes behind a link: open files %.400q and %.400q", here, others)
			}

			if err := rc.Close(); err != nil {
				c.Fail("close-error", "%v", err)
			}
		}

		noFDs(c, "volumes behind a link", dir)
		noFDs(c, "volumes behind a link", other)
		c.Count("volumes.link", 1)

		// Without that directory either way
		os.Remove(link)
		put(filepath.Join(dir, "whole.7z"), b)

		one, oneErr := sevenzip.OpenReaderWithPassword(link+"/../whole.7z", pw)
		if oneErr == nil {
			one.Close()
		}

		set, err := sevenzip.OpenReaderWithPassword(link+"/../"+filepath.Base(names[0]), pw)
		if err == nil {
			same("volumes by a strange name", &set.Reader, nil)
			set.Close()
		}

		if (oneErr == nil) != (err == nil) {
			c.Fail("volumes-differ", "a path through a missing directory and its parent: the archive opens with %v, its volumes with %v", oneErr, err)
		}

		os.Remove(filepath.Join(dir, "whole.7z"))
		noFDs(c, "volumes by a strange name", dir)
		c.Count("volumes.strange", 1)
	})

	c.Guard("missing volume", func() {
		if len(names) < 2 {
			return
		}

		k := 1 + r.IntN(len(names)-1)
		os.Remove(names[k])

		// One that is there and cannot be opened is no end of the set.
		loop := filepath.Base(names[k])
		if err := os.Symlink(loop, names[k]); err != nil {
			panic("szw: " + err.Error())
		}

		if rc, err := sevenzip.OpenReaderWithPassword(names[0], pw); err == nil {
			rc.Close()
			c.Fail("unopenable-volume", "volume %d of %d cannot be opened, opening the set succeeded", k+1, len(names))
		}

		c.Eval(1)
		c.Count("volumes.unopenable", 1)
		noFDs(c, "unopenable volume", dir)
		os.Remove(names[k])

		// A directory in its place opens and has a size.
		if err := os.Mkdir(names[k], 0o700); err != nil {
			panic("szw: " + err.Error())
		}

		if rc, err := sevenzip.OpenReaderWithPassword(names[0], pw); err == nil {
			for i, f := range rc.File {
				if f.FileInfo().IsDir() {
					continue
				}

				if o, err := f.Open(); err == nil {
					if got, err := io.ReadAll(o); err == nil && i < len(want) && !bytes.Equal(got, want[i]) {
						c.Fail("content", "volume %d of %d is a directory: entry %d delivers other data", k+1, len(names), i)
					}

					o.Close()
				}
			}

			rc.Close()
		}

		noFDs(c, "directory for a volume", dir)
		os.Remove(names[k])

		rc, err := sevenzip.OpenReaderWithPassword(names[0], pw)
		c.Eval(1)
		c.Count("volumes.missing", 1)

		if err == nil {
			// Possible when only what follows the archive is missing.
			if m := sameListing(listing(&rc.Reader), ref); m != "" {
				c.Fail("listing", "volume %d of %d missing: %s", k+1, len(names), m)
			} else {
				checkAll(c, "volume missing", &rc.Reader, want, fixed(4096))
			}

			if err := rc.Close(); err != nil {
				c.Fail("close-error", "%v", err)
			}
		}

		noFDs(c, "missing volume", dir)

		os.Remove(names[0])

		if _, err := sevenzip.OpenReaderWithPassword(names[0], pw); !errors.Is(err, fs.ErrNotExist) {
			c.Fail("not-exist", "first volume missing: %v", err)
		}

		noFDs(c, "first volume missing", dir)
	})

	c.Guard("errors", func() {
		if _, err := sevenzip.OpenReader(filepath.Join(dir, "absent.7z")); !errors.Is(err, fs.ErrNotExist) {
			c.Fail("not-exist", "missing file: %v", err)
		}

		c.Count("not-exist", 1)

		if _, err := sevenzip.OpenReader(dir); err == nil {
			c.Fail("directory", "a directory opened as an archive")
		}

		g := filepath.Join(dir, gen.Pick(r, "g.7z", "g.001"))
		junk := gen.Content(r, r.IntN(3000))

		switch r.IntN(3) {
		case 0:
			junk = append([]byte(nil), b[:r.IntN(min(len(b), 64))]...)
		case 1:
			junk = append([]byte("7z\xbc\xaf\x27\x1c"), junk...)
		}

		put(g, junk)

		if _, err := sevenzip.OpenReader(g); err == nil {
			c.Fail("garbage", "%d bytes of garbage opened as an archive", len(junk))
		}

		c.Count("garbage", 1)
		noFDs(c, "failed opens", dir)
	})
}

// prefix draws a stub of n bytes that does not start with the signature.
func prefix(r *rand.Rand, n int) []byte {
	sigb := []byte("7z\xbc\xaf\x27\x1c")
	b := make([]byte, n)

	switch r.IntN(5) {
	case 0:
		for i := range b {
			b[i] = byte(r.Uint32())
		}
	case 1: // full of beginnings of the signature
		for i := 0; i < n; {
			i += copy(b[i:], sigb[:1+r.IntN(5)])
		}
	case 2:
		for i := range b {
			b[i] = sigb[r.IntN(6)]
		}

		for i := bytes.Index(b, sigb); i >= 0; i = bytes.Index(b, sigb) {
			b[i+5] = 0
		}
	case 3:
		copy(b, "MZ\x90\x00")
	default:
		for i := range b {
			b[i] = 0xff
		}
	}

	// decoys: the signature without an archive
	if r.IntN(2) == 0 && n > 8 {
		for range 1 + r.IntN(6) {
			p := 1 + r.IntN(n-6)

			switch r.IntN(4) {
			case 0: // right in front
				p = n - 6 - r.IntN(min(n-6, 40))
			case 1: // across the search buffer's end
				if n > 4096+8 {
					p = 4096*(1+r.IntN((n-8)/4096)) - r.IntN(8)
				}
			}

			if p > 0 && p+6 <= n {
				copy(b[p:], sigb)
			}
		}
	}

	if k := r.IntN(8); k > 0 && k < 6 { // a beginning of the signature directly in front
		copy(b[max(0, n-k):], sigb[:k])
	}

	if bytes.HasPrefix(b, sigb) {
		b[0] = 'M'
	}

	return b
}

// crowd is a stub of n bytes full of signatures without an archive.
func crowd(r *rand.Rand, n int) []byte {
	sigb := []byte("7z\xbc\xaf\x27\x1c")
	gap := gen.Pick(r, 0, 0, 1, r.IntN(30), 26)
	b := make([]byte, n)

	for i := range b {
		b[i] = byte(1 + r.IntN(255))
	}

	for p := 1 + r.IntN(8); p+6 <= n; p += 6 + gap {
		copy(b[p:], sigb)
	}

	return b
}

// C11: archives behind a prefix.
func init() {
	core.Register(&core.Property{
		ID: "C11", Level: "exploration",
		Rule:    "case = a small archive behind prefixes whose lengths enumerate all residues around multiples of 4096 and the ends of the searched megabyte (random stubs, repeated beginnings of the signature, complete decoy signatures anywhere, also across the search buffer's end and directly in front) and in front of trailing data (random, a signature, a whole archive); listing and contents must be those of the bare archive. Data without an archive must be rejected. Distinct = distinct (prefix length, kind).",
		Cases:   tierN(3000, 50000),
		Require: []string{"prefix.short", "prefix.boundary", "prefix.mebibyte", "decoys", "crowded", "trailing", "rejected", "by-name"},
		Run:     runC11,
	})
}

func runC11(c *core.Ctx) {
	r := c.R
	t := gen.ArchTune{MaxFile: 1500, MaxFiles: 3, MaxFolders: 2}
	t.Cheap = true

	a, pw := drawArchive(c, t)
	a.Opts.PackGapVirtual, a.Opts.Trailer, a.Opts.Prefix = false, nil, nil
	bare := a.Build().Bytes
	want := wantData(a)

	c.Trace("%s", describe(a))

	var ref []listed

	c.Guard("bare", func() {
		zr, err := open(&image{b: bare}, pw)
		if err != nil {
			c.Fail("archive-error", "%v", err)

			return
		}

		ref = listing(zr)
		checkAll(c, "bare", zr, want, fixed(4096))
	})

	if c.Failed() {
		return
	}

	const mib = 1 << 20

	for k := range 12 {
		if c.Failed() {
			return
		}

		n := 0

		switch {
		case k < 2:
			n = r.IntN(80)
			c.Count("prefix.short", 1)
		case k == 2 && c.Case%4 == 0:
			n = mib - r.IntN(8)
			c.Count("prefix.mebibyte", 1)
		case k == 3:
			n = r.IntN(mib + 1)
		case k < 8:
			// every residue around the boundaries, over the cases
			n = 4096*(1+r.IntN(6)) - 40 + (c.Case*12+k)%80
			c.Count("prefix.boundary", 1)
		default:
			n = r.IntN(20000)
		}

		p := prefix(r, n)

		if k > 8 && r.IntN(3) == 0 {
			if r.IntN(40) == 0 {
				n = mib - r.IntN(50)
			}

			p = crowd(r, n)
		}

		if d := bytes.Count(p, []byte("7z\xbc\xaf\x27\x1c")); d > 0 {
			if d > 100 {
				c.Count("crowded", 1)
			}
		}

		if bytes.Contains(p, []byte("7z\xbc\xaf\x27\x1c")) {
			c.Count("decoys", 1)
		}

		b := append(append([]byte(nil), p...), bare...)

		if bytes.HasPrefix(b, []byte("7z\xbc\xaf\x27\x1c")) && n > 0 {
			continue // the prefix and the archive form a signature at the start
		}

		trail := ""

		switch r.IntN(5) {
		case 0:
			b = append(b, gen.Content(r, 1+r.IntN(9000))...)
			trail = "content"
		case 1:
			b = append(b, "7z\xbc\xaf\x27\x1c\x00\x04"...)
			trail = "signature"
		case 2:
			b = append(b, bare...)
			trail = "archive"
		}

		if trail != "" {
			c.Count("trailing", 1)
		}

		what := fmt.Sprintf("prefix of %d bytes, trailing %q", n, trail)

		c.Guard(what, func() {
			im := &image{b: b, eofMode: r.IntN(2)}

			var (
				zr  *sevenzip.Reader
				err error
			)

			if r.IntN(6) == 0 {
				name := filepath.Join(c.Tmp, fmt.Sprintf("sfx%d.exe", c.Case))
				if r.IntN(2) == 0 {
					name += ".001"
				}

				put(name, b)
				defer os.Remove(name)

				var rc *sevenzip.ReadCloser
				if rc, err = sevenzip.OpenReaderWithPassword(name, pw); err == nil {
					zr = &rc.Reader

					defer rc.Close()
				}

				c.Count("by-name", 1)
			} else {
				zr, err = open(im, pw)
			}

			c.Eval(1)

			if err != nil {
				c.Fail("not-found", "%s: %v", what, err)

				return
			}

			if m := sameListing(listing(zr), ref); m != "" {
				c.Fail("listing", "%s: %s", what, m)

				return
			}

			checkAll(c, what, zr, want, fixed(4096))
			c.Distinct("%d %s", n, trail)
		})
	}

	c.Guard("no archive", func() {
		for range 4 {
			b := prefix(r, r.IntN(30000))

			switch r.IntN(4) {
			case 0:
				b = nil
			case 1:
				b = append(b, bare[:r.IntN(32)]...)
			case 2:
				x := append([]byte(nil), bare...)
				x[12+r.IntN(20)] ^= byte(1 << r.IntN(8))
				b = append(b, x...)
			}

			if r.IntN(3) == 0 {
				b = append([]byte("7z\xbc\xaf\x27\x1c"), b...)
			}

			if zr, err := open(&image{b: b, eofMode: r.IntN(2)}, pw); err == nil {
				c.Fail("accepted", "%d bytes without an archive opened with %d entries", len(b), len(zr.File))
			}

			c.Count("rejected", 1)
		}
	})
}

var _ io.Reader
var _ szw.Kind
