package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"slices"
	"sort"
	"strings"
	"testing/fstest"
	"time"

	"github.com/bodgit/sevenzip"

	"verif/mon/core"
	"verif/mon/gen"
	"verif/mon/szw"
)

// C09: the archive as an io/fs file system.
func init() {
	core.Register(&core.Property{
		ID: "C09", Level: "exploration",
		Rule:    "case = archive with up to hundreds of entries (once more than 65,536 in one directory, once more than 1,000 levels) whose names are drawn from adversarial elements (separators of both kinds, drive letters, UNC and absolute forms, empty, dot and dot-dot elements anywhere, characters sorting around '/', control characters, long names), unambiguous, with paths claimed several times, or wild; an independent model splits the names with a stack and derives the tree; testing/fstest, WalkDir, ReadDir with random page sizes, Stat, Sub, Glob, ReadFile and lookups of invalid and missing paths are compared with it. Distinct = distinct (mode, tree) shapes.",
		Cases:   tierN(12000, 300000),
		Require: []string{"testfs", "walks", "paged-listings", "invalid-paths", "missing-paths", "claimed-twice", "file-and-dir", "implied-dirs", "recorded-dirs", "bare-dirs", "dotdot-names", "backslash-names", "absolute-names", "rootless-names", "subs", "big-trees", "crowded", "wild", "unusual-modes"},
		Run:     runC09,
	})
}

var fsElems = []string{"a", "b", "ab", "a!", "a-", "a.", "a.b", "a b", "A", "0", "~", "é", "文", "𝄞", "...", "..a", "a..", ".a", "\u0001", "\x7f", "con", "C:", "a:b", "*", "?", "[a]", "%2f", "\u2215", "\ufffd", "x\ny", "lib", "lib-1", "lib.so", "LIB"}

func drawPathName(c *core.Ctx) string {
	r := c.R

	var b strings.Builder

	switch r.IntN(14) {
	case 0:
		b.WriteString(gen.Pick(r, "/", "//", `\`, `\\srv\share\`))
		c.Count("absolute-names", 1)
	case 1:
		b.WriteString(gen.Pick(r, "C:/", `C:\`, "c:"))
	case 2:
		b.WriteString(gen.Pick(r, "./", "../", "../../", `..\`, "/../", "./../", "..//"))
		c.Count("dotdot-names", 1)
	}

	depth := 1 + r.IntN(1+r.IntN(6))

	for k := range depth {
		if k > 0 {
			s := "/"
			if gen.Chance(r, 8) {
				s = `\`

				c.Count("backslash-names", 1)
			}

			b.WriteString(s)
		}

		if k < depth-1 && gen.Chance(r, 8) {
			b.WriteString(gen.Pick(r, "..", ".", ""))
			c.Count("dotdot-names", 1)

			continue
		}

		n := 6
		if r.IntN(2) == 0 {
			n = len(fsElems)
		}

		b.WriteString(fsElems[r.IntN(n)])

		if gen.Chance(r, 30) {
			b.WriteString(strings.Repeat("L", r.IntN(300)))
		}
	}

	return b.String()
}

// modelPath is the path of an entry in the tree, "" when it has none.
func modelPath(name string) string {
	var st []string

	for _, e := range strings.FieldsFunc(name, func(r rune) bool { return r == '/' || r == '\\' }) {
		switch e {
		case ".":
		case "..":
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
		default:
			st = append(st, e)
		}
	}

	return strings.Join(st, "/")
}

func parents(p string) (out []string) {
	for i := len(p) - 1; i > 0; i-- {
		if p[i] == '/' {
			out = append(out, p[:i])
		}
	}

	return out
}

// fsModel is the tree that the entries' names describe.
type fsModel struct {
	claims   map[string][]int // entries by path
	dir      func(i int) bool
	implied  map[string]bool
	children map[string]map[string]bool // names by directory
}

func newModel(names []string, dir func(i int) bool) *fsModel {
	m := &fsModel{map[string][]int{}, dir, map[string]bool{}, map[string]map[string]bool{".": {}}}

	for i, n := range names {
		p := modelPath(n)
		if p == "" {
			continue
		}

		m.claims[p] = append(m.claims[p], i)

		for _, d := range parents(p) {
			m.implied[d] = true
		}
	}

	add := func(p string) {
		d := "."
		if k := strings.LastIndexByte(p, '/'); k >= 0 {
			d = p[:k]
		}

		if m.children[d] == nil {
			m.children[d] = map[string]bool{}
		}

		m.children[d][p] = true
	}

	for p := range m.claims {
		add(p)
	}

	for p := range m.implied {
		add(p)
	}

	return m
}

func (m *fsModel) exists(p string) bool { return p == "." || len(m.claims[p]) > 0 || m.implied[p] }

func (m *fsModel) ambiguous(p string) bool {
	return len(m.claims[p]) > 1 || len(m.claims[p]) == 1 && m.implied[p] && !m.dir(m.claims[p][0])
}

// isDir is only meaningful for unambiguous paths.
func (m *fsModel) isDir(p string) bool {
	return p == "." || m.implied[p] || len(m.claims[p]) == 1 && m.dir(m.claims[p][0])
}

func (m *fsModel) list(d string) (out []string) {
	for p := range m.children[d] {
		out = append(out, p)
	}

	sort.Strings(out)

	return out
}

// crowdedFS: a directory with more than 65,536 entries, or more than a thousand
// directories inside one another.
func crowdedFS(c *core.Ctx, deep bool) {
	r := c.R
	a := &szw.Archive{}

	var (
		names []string
		dirs  []bool
	)

	add := func(name string, kind szw.Kind) {
		f := &szw.File{Name: name, Kind: kind}

		switch kind {
		case szw.Dir:
			f.Attr = new(uint32)
			*f.Attr = 0x10
		case szw.Stream:
			f.Data = []byte(name)
			a.Folders = append(a.Folders, &szw.Folder{Method: szw.MCopy(), N: 1})
		}

		names = append(names, name)
		dirs = append(dirs, kind == szw.Dir)
		a.Files = append(a.Files, f)
	}

	if deep {
		p := ""

		for k := range 1100 + r.IntN(300) {
			p += gen.Pick(r, "d", "e", "f!") + gen.Pick(r, "/", `\`)

			if k%97 == 0 {
				add(p+"leaf", szw.Stream)
				add(p+"d-", szw.Dir)
			}
		}

		add(p+"bottom", szw.Stream)
	} else {
		for k := range 1<<16 + 200 + r.IntN(3000) {
			kind := szw.Empty
			if r.IntN(100) == 0 {
				kind = gen.Pick(r, szw.Stream, szw.Dir)
			}

			add(fmt.Sprintf("d/%x%d", r.IntN(16), k), kind)
		}

		add("d-", szw.Stream)
		add("d.x/y", szw.Stream)
		add("e", szw.Stream)
	}

	bt := a.Build()
	m := newModel(names, func(i int) bool { return dirs[i] })

	c.Count("crowded", 1)
	c.Distinct("crowded %v", deep)
	c.Trace("%d entries, deep %v", len(names), deep)

	c.Guard("file system", func() {
		zr, err := open(newImage(bt), "")
		if err != nil {
			c.Fail("archive-error", "%v", err)

			return
		}

		v := &fsView{c, zr, m, a.Files}
		v.tree()
		v.lookups(names[len(names)-5:])
	})
}

func runC09(c *core.Ctx) {
	if c.Case == 30 || c.Case == 31 {
		crowdedFS(c, c.Case == 31)

		return
	}

	r := c.R
	mode := gen.Pick(r, 0, 0, 0, 0, 1, 1, 2) // unambiguous, ambiguous, wild
	n := 1 + r.IntN(24)

	if gen.Chance(r, 40) {
		n = 200 + r.IntN(400)

		c.Count("big-trees", 1)
	}

	a := &szw.Archive{}
	plainModes := r.IntN(3) > 0

	var (
		names []string
		dirs  []bool
	)

	isDir := func(i int) bool { return dirs[i] }
	used := newModel(nil, nil)

	for len(a.Files) < n {
		f := &szw.File{Name: drawPathName(c), Kind: gen.Pick(r, szw.Stream, szw.Stream, szw.Empty, szw.Dir)}

		switch {
		case mode == 2 && gen.Chance(r, 4):
			f.Name = gen.Pick(r, "", "/", ".", "..", "../..", "a/..", `\`, "a/", `a\`, "a//", "./", "//", "a/.", "a/..//..", "C:", "\u0001/")
		case gen.Chance(r, 25):
			f.Name = gen.Pick(r, "/", ".", "..", "../..", "a/..", `..\..`, "x/../..")
			f.Kind = szw.Dir

			c.Count("rootless-names", 1)
		case f.Kind == szw.Dir && gen.Chance(r, 4):
			f.Name += gen.Pick(r, "/", `\`, "//", "/.")
		}

		p := modelPath(f.Name)

		if mode == 0 && p != "" {
			bad := len(used.claims[p]) > 0 || used.implied[p] && f.Kind != szw.Dir
			for _, d := range parents(p) {
				bad = bad || len(used.claims[d]) > 0 && !dirs[used.claims[d][0]]
			}

			if bad {
				n-- // keeps the loop finite

				continue
			}

			used.claims[p] = []int{len(names)}
			for _, d := range parents(p) {
				used.implied[d] = true
			}
		}

		if r.IntN(2) == 0 {
			t := 116444736000000000 + r.Uint64N(1<<54)
			f.MTime = &t
		}

		switch {
		case f.Kind == szw.Dir:
			if at := gen.Pick[uint32](r, 0x10, 0x11, 0x41ed8010, 0x41c08010, 0); at != 0 {
				f.Attr = &at
			} else {
				c.Count("bare-dirs", 1)
			}

			c.Count("recorded-dirs", 1)
		case r.IntN(3) == 0:
			at := gen.Pick[uint32](r, 0x20, 0x21, 0x81a48020, 0x81ed8000, 0x80008000)
			if !plainModes && gen.Chance(r, 2) {
				at = gen.Pick[uint32](r, 0xa1ff8000, 0xc1a48000, 0x11a48000, 0x61a48000, 0x21a48000, 0x89ed8000, 0x85ed8000, 0x83ed8000)

				c.Count("unusual-modes", 1)
			}

			f.Attr = &at
		}

		if f.Kind == szw.Stream {
			f.Data = []byte(fmt.Sprintf("entry %d ", len(names)))
			f.Data = append(f.Data, gen.ContentKind(r, r.IntN(60), 1)...)
		}

		names = append(names, f.Name)
		dirs = append(dirs, f.Kind == szw.Dir)
		a.Files = append(a.Files, f)
	}

	streams := 0

	for _, f := range a.Files {
		if f.Kind == szw.Stream {
			streams++
		}
	}

	for streams > 0 {
		k := min(streams, 1+r.IntN(8))
		a.Folders = append(a.Folders, &szw.Folder{Method: gen.Pick(r, szw.MCopy, func() *szw.Method { return szw.MDelta(2) })(), N: k})
		streams -= k
	}

	bt := a.Build()
	m := newModel(names, isDir)

	c.Trace("mode %d names %q dirs %v", mode, names, dirs)

	var keys []string
	for p := range m.claims {
		keys = append(keys, p)
	}

	sort.Strings(keys)
	c.Distinct("%d %q", mode, keys)

	if len(names) < 8 {
		c.Sample("mode %d names %q", mode, names)
	}

	for p := range m.implied {
		if len(m.claims[p]) == 0 {
			c.Count("implied-dirs", 1)
		}
	}

	c.Guard("file system", func() {
		zr, err := open(newImage(bt), "")
		if err != nil {
			c.Fail("archive-error", "%v", err)

			return
		}

		if len(zr.File) != len(names) {
			c.Fail("file-count", "%d entries, want %d", len(zr.File), len(names))

			return
		}

		if mode == 2 {
			wildFS(c, zr, len(names))

			return
		}

		v := &fsView{c, zr, m, a.Files}
		v.tree()
		v.lookups(names)

		if mode == 0 && plainModes && len(names) < 40 && !c.Failed() {
			var files []string

			for p := range m.children {
				for f := range m.children[p] {
					files = append(files, f)
				}
			}

			// fstest's own patterns trip over these
			special := slices.ContainsFunc(files, func(p string) bool { return strings.ContainsAny(p, `*?[]-\\`) })

			if len(files) > 0 && !special {
				c.Count("testfs", 1)
				c.Eval(1)

				if err := fstest.TestFS(zr, files...); err != nil {
					c.Fail("testfs", "%v", err)
				}
			}
		}
	})
}

type fsView struct {
	c     *core.Ctx
	zr    *sevenzip.Reader
	m     *fsModel
	files []*szw.File
}

// tree compares the whole tree with the model.
func (v *fsView) tree() {
	c, m, r := v.c, v.m, v.c.R
	dirs := []string{"."}

	for d := range m.children {
		if d != "." {
			dirs = append(dirs, d)
		}
	}

	for p, cl := range m.claims { // directories without children
		if len(cl) == 1 && m.dir(cl[0]) && m.children[p] == nil {
			dirs = append(dirs, p)
		}
	}

	sort.Strings(dirs)

	clean := true

	for _, d := range dirs {
		want := m.list(d)
		dup := false

		for _, p := range want {
			if m.ambiguous(p) {
				dup = true

				c.Count("claimed-twice", 1)

				if m.implied[p] {
					c.Count("file-and-dir", 1)
				}
			}
		}

		clean = clean && !dup

		if !m.ambiguous(d) {
			v.directory(d, want, dup)
		}

		for _, p := range want {
			v.entry(p)
		}

		if c.Failed() {
			return
		}
	}

	// The walk
	var got []string

	limit := 10*(len(m.claims)+len(m.implied)) + 100
	err := fs.WalkDir(v.zr, ".", func(p string, d fs.DirEntry, err error) error {
		if len(got) > limit {
			return errors.New("endless walk")
		}

		if err != nil {
			if clean {
				return err
			}

			return nil
		}

		if p != "." && !m.ambiguous(p) && d.IsDir() != m.isDir(p) {
			c.Fail("walk-type", "%q: directory %v", p, d.IsDir())
		}

		got = append(got, p)

		return nil
	})

	c.Count("walks", 1)
	c.Eval(1)

	if err != nil {
		c.Fail("walk-error", "%v", err)
	}

	for _, p := range got {
		if !m.exists(p) {
			c.Fail("walk-extra", "walk reached %q, which no entry has", p)
		}
	}

	if k := len(got); len(slices.Compact(slices.Sorted(slices.Values(got)))) != k {
		c.Fail("walk-twice", "walk reached a path twice: %q", got)
	}

	if clean {
		want := map[string]bool{".": true}

		for _, ps := range m.children {
			for p := range ps {
				want[p] = true
			}
		}

		for _, p := range got {
			delete(want, p)
		}

		if len(want) > 0 {
			c.Fail("walk-missing", "walk did not reach %d paths, e.g. %v", len(want), want)
		}

		if d := dirs[r.IntN(len(dirs))]; d != "." && r.IntN(2) == 0 {
			v.sub(d)
		}
	}
}

// directory compares the listing of a directory, in one go and by pages.
func (v *fsView) directory(d string, want []string, dup bool) {
	c, r := v.c, v.c.R
	list, err := fs.ReadDir(v.zr, d)

	c.Eval(1)

	if dup {
		if err == nil {
			c.Fail("dup-listed", "listing %q, in which a path is claimed twice, succeeds: %v", d, list)
		}

		return
	}

	if err != nil {
		c.Fail("readdir", "%q: %v", d, err)

		return
	}

	var got []string
	for _, e := range list {
		got = append(got, path.Join(d, e.Name()))
	}

	if !slices.Equal(got, want) {
		c.Fail("listing", "%q: %q, want %q", d, got, want)

		return
	}

	for i, e := range list {
		v.dirEntry(want[i], e)
	}

	// Pages
	f, err := v.zr.Open(d)
	if err != nil {
		c.Fail("open-dir", "%q: %v", d, err)

		return
	}
	defer f.Close()

	rd, ok := f.(fs.ReadDirFile)
	if !ok {
		c.Fail("no-readdir", "%q: %T", d, f)

		return
	}

	if n, err := f.Read(make([]byte, 8)); n != 0 || err == nil || err == io.EOF { //nolint:errorlint
		c.Fail("read-dir", "%q: reading the directory: %d, %v", d, n, err)
	}

	var paged []string

	for range 3*len(want) + 10 {
		n := gen.Pick(r, 1, 1, 2, 3, r.IntN(len(want)+2), len(want), len(want)+5)
		if r.IntN(6) == 0 {
			n = -r.IntN(2)
		}

		l, err := rd.ReadDir(n)

		c.Count("paged-listings", 1)

		switch left := len(want) - len(paged); {
		case n > 0 && left == 0:
			if len(l) != 0 || err != io.EOF { //nolint:errorlint
				c.Fail("page-end", "%q: ReadDir(%d) at the end: %d entries, %v", d, n, len(l), err)
			}
		case err != nil:
			c.Fail("page-error", "%q: ReadDir(%d): %v", d, n, err)
		case n > 0 && (len(l) == 0 || len(l) > n):
			c.Fail("page-size", "%q: ReadDir(%d) returned %d entries", d, n, len(l))
		case n <= 0 && len(l) != left:
			c.Fail("page-rest", "%q: ReadDir(%d) returned %d of the %d entries left", d, n, len(l), left)
		}

		if c.Failed() {
			return
		}

		for _, e := range l {
			paged = append(paged, path.Join(d, e.Name()))
		}
	}

	if rest, err := rd.ReadDir(-1); err != nil {
		c.Fail("page-error", "%q: %v", d, err)
	} else {
		for _, e := range rest {
			paged = append(paged, path.Join(d, e.Name()))
		}
	}

	if !slices.Equal(paged, want) {
		c.Fail("pages", "%q by pages: %q, want %q", d, paged, want)
	}
}

// dirEntry compares an entry of a listing with what else is known about it.
func (v *fsView) dirEntry(p string, e fs.DirEntry) {
	c := v.c

	fi, err := e.Info()
	if err != nil {
		c.Fail("info", "%q: %v", p, err)

		return
	}

	st, err := fs.Stat(v.zr, p)
	if err != nil {
		c.Fail("stat", "%q: %v", p, err)

		return
	}

	if !sameInfo(fi, st) || e.Name() != st.Name() || e.IsDir() != st.IsDir() || e.Type() != st.Mode().Type() {
		c.Fail("info-differs", "%q: listed as %v (%v), Stat %v", p, fs.FormatFileInfo(fi), fs.FormatDirEntry(e), fs.FormatFileInfo(st))
	}

	v.info(p, st)
}

func sameInfo(a, b fs.FileInfo) bool {
	return a.Name() == b.Name() && a.Size() == b.Size() && a.Mode() == b.Mode() && a.ModTime().Equal(b.ModTime()) && a.IsDir() == b.IsDir()
}

// info compares the FileInfo of an unambiguous path with the entry.
func (v *fsView) info(p string, fi fs.FileInfo) {
	c := v.c

	if fi.Name() != path.Base(p) {
		c.Fail("info-name", "%q: name %q", p, fi.Name())
	}

	if fi.IsDir() != v.m.isDir(p) || fi.Mode().IsDir() != fi.IsDir() {
		c.Fail("info-dir", "%q: %v", p, fs.FormatFileInfo(fi))
	}

	if len(v.m.claims[p]) == 0 {
		return
	}

	f := v.files[v.m.claims[p][0]]
	h := v.zr.File[v.m.claims[p][0]]

	if !fi.IsDir() {
		if fi.Size() != int64(len(f.Data)) {
			c.Fail("info-size", "%q: size %d, want %d", p, fi.Size(), len(f.Data))
		}

		if fi.Mode() != h.Mode() {
			c.Fail("info-mode", "%q: mode %v, want %v", p, fi.Mode(), h.Mode())
		}
	}

	var want time.Time
	if f.MTime != nil {
		want = ticksTime(*f.MTime)
	}

	if !fi.ModTime().Equal(want) {
		c.Fail("info-time", "%q: time %v, want %v", p, fi.ModTime(), want)
	}
}

// entry opens a path of the tree.
func (v *fsView) entry(p string) {
	c, m := v.c, v.m
	f, err := v.zr.Open(p)

	c.Eval(1)

	if m.ambiguous(p) {
		if err != nil {
			return
		}

		defer f.Close()

		fi, err := f.Stat()
		if err != nil || fi.IsDir() {
			return
		}

		b, err := io.ReadAll(f)
		if err != nil {
			c.Fail("read-error", "%q: %v", p, err)
		}

		for _, i := range m.claims[p] {
			if bytes.Equal(b, v.files[i].Data) {
				return
			}
		}

		c.Fail("wrong-data", "%q, claimed by entries %v, delivers %q", p, m.claims[p], b)

		return
	}

	if err != nil {
		c.Fail("open", "%q: %v", p, err)

		return
	}
	defer f.Close()

	fi, err := f.Stat()
	if err != nil {
		c.Fail("stat", "%q: %v", p, err)

		return
	}

	v.info(p, fi)

	if m.isDir(p) {
		if _, ok := f.(fs.ReadDirFile); !ok {
			c.Fail("no-readdir", "%q: %T", p, f)
		}

		return
	}

	if _, ok := f.(fs.ReadDirFile); ok {
		c.Fail("file-is-dir", "%q: %T", p, f)
	}

	want := v.files[m.claims[p][0]].Data

	b, err := io.ReadAll(f)
	if err != nil || !bytes.Equal(b, want) {
		c.Fail("wrong-data", "%q: %v, %s", p, err, diff(b, want))
	}

	if v.c.R.IntN(4) == 0 {
		b, err = fs.ReadFile(v.zr, p)
		if err != nil || !bytes.Equal(b, want) {
			c.Fail("wrong-data", "ReadFile %q: %v, %s", p, err, diff(b, want))
		}
	}
}

// sub compares the walk of a subtree.
func (v *fsView) sub(d string) {
	c, m := v.c, v.m
	c.Count("subs", 1)

	s, err := fs.Sub(v.zr, d)
	if err != nil {
		c.Fail("sub", "%q: %v", d, err)

		return
	}

	want := map[string]bool{".": true}

	for _, ps := range m.children {
		for p := range ps {
			if q, ok := strings.CutPrefix(p, d+"/"); ok {
				want[q] = true
			}
		}
	}

	err = fs.WalkDir(s, ".", func(p string, _ fs.DirEntry, err error) error {
		if err != nil {
			return err
		}

		if !want[p] {
			c.Fail("sub-extra", "%q below %q", p, d)
		}

		delete(want, p)

		return nil
	})
	if err != nil || len(want) > 0 {
		c.Fail("sub-walk", "%q: %v, not reached: %v", d, err, want)
	}

	// Glob of the directory's children
	if !strings.ContainsAny(d, `*?[\`) {
		g, err := fs.Glob(v.zr, d+"/*")
		if err != nil || !slices.Equal(g, m.list(d)) {
			sort.Strings(g)

			if err != nil || !slices.Equal(g, m.list(d)) {
				c.Fail("glob", "%q: %v, %q, want %q", d, err, g, m.list(d))
			}
		}
	}
}

// lookups opens paths that are invalid or missing.
func (v *fsView) lookups(names []string) {
	c, r, m := v.c, v.c.R, v.m

	var paths []string
	for p := range m.claims {
		paths = append(paths, p)
	}

	for p := range m.implied {
		paths = append(paths, p)
	}

	paths = append(paths, ".", "a", "")
	sort.Strings(paths)

	for range 60 {
		p := paths[r.IntN(len(paths))]

		switch r.IntN(14) {
		case 0:
			p = "/" + p
		case 1:
			p += "/"
		case 2:
			p = "./" + p
		case 3:
			p = "../" + p
		case 4:
			p += "/.."
		case 5:
			p = strings.Replace(p, "/", "//", 1)
		case 6:
			p = strings.Replace(p, "/", "/./", 1)
		case 7:
			p += "\xff"
		case 8:
			p = strings.ReplaceAll(p, "/", `\`)
		case 9:
			p += "/" + fsElems[r.IntN(len(fsElems))]
		case 10:
			p += gen.Pick(r, "x", "!", " ", ".")
		case 11:
			if k := len(p) - 1; k > 0 {
				p = p[:k]
			}
		case 12:
			p = names[r.IntN(len(names))]
		default:
			if k := strings.IndexByte(p, '/'); k > 0 {
				p = p[k+1:]
			}
		}

		f, err := v.zr.Open(p)

		c.Eval(1)

		var pe *fs.PathError

		switch {
		case !fs.ValidPath(p):
			c.Count("invalid-paths", 1)

			if !errors.Is(err, fs.ErrInvalid) || !errors.As(err, &pe) || pe.Path != p {
				c.Fail("invalid-path", "Open(%q): %v, want fs.ErrInvalid", p, err)
			}
		case !m.exists(p):
			c.Count("missing-paths", 1)

			if !errors.Is(err, fs.ErrNotExist) || !errors.As(err, &pe) || pe.Path != p {
				c.Fail("missing-path", "Open(%q): %v, want fs.ErrNotExist", p, err)
			}
		case err != nil && !m.ambiguous(p):
			c.Fail("open", "Open(%q): %v", p, err)
		}

		if f != nil && err == nil {
			_ = f.Close()
		}
	}
}

// wildFS only asks for an end, valid paths and no panic.
func wildFS(c *core.Ctx, zr *sevenzip.Reader, n int) {
	c.Count("wild", 1)

	seen := 0
	err := fs.WalkDir(zr, ".", func(p string, d fs.DirEntry, err error) error {
		if seen++; seen > 100*n+1000 {
			return errors.New("endless walk")
		}

		if !fs.ValidPath(p) {
			c.Fail("wild-path", "walk reached the invalid path %q", p)
		}

		if err == nil && d != nil {
			if f, err := zr.Open(p); err == nil {
				_, _ = f.Stat()
				_ = f.Close()
			} else {
				c.Fail("wild-open", "listed path %q: %v", p, err)
			}
		}

		return nil
	})

	c.Eval(1)

	if err != nil {
		c.Fail("wild-walk", "%v", err)
	}
}
