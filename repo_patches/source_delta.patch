From 89f3be3f874286d60ccbedfc2df9ad41b483e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:36 +0000
Subject: [PATCH 01/57] fix: delta filter with a distance of 256 never returned

The property byte is the distance minus one, adding one to it as a byte
overflowed to a distance of zero and Read looped forever.
---
 internal/delta/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/delta/reader.go b/internal/delta/reader.go
index 0926a17..d4dce31 100644
--- a/internal/delta/reader.go
+++ b/internal/delta/reader.go
@@ -84,6 +84,6 @@ func NewReader(p []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 
 	return &readCloser{
 		rc:    readers[0],
-		delta: int(p[0] + 1),
+		delta: int(p[0]) + 1,
 	}, nil
 }
-- 
2.43.0


From ea91b2d2217648e73f780b0a7d5a6ddbf0027ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:36 +0000
Subject: [PATCH 02/57] fix: delta filter swallowed the end of its input

Read dropped io.EOF, so a stream shorter than its declared size made the
reader return 0, nil forever.
---
 internal/delta/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/delta/reader.go b/internal/delta/reader.go
index d4dce31..4b12d30 100644
--- a/internal/delta/reader.go
+++ b/internal/delta/reader.go
@@ -69,7 +69,7 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	copy(rc.state[:], buffer[j:rc.delta])
 	copy(rc.state[rc.delta-j:], buffer[:j])
 
-	return n, nil
+	return n, err
 }
 
 // NewReader returns a new Delta io.ReadCloser.
-- 
2.43.0


From 93ffc8dcd3ed4c310e2a3f7e1626555d572c097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:57 +0000
Subject: [PATCH 03/57] fix: delta filter passed on unfiltered bytes next to an
 error

The bytes that arrive together with a read error are part of the stream
and have to be filtered as well.
---
 internal/delta/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/delta/reader.go b/internal/delta/reader.go
index 4b12d30..9221652 100644
--- a/internal/delta/reader.go
+++ b/internal/delta/reader.go
@@ -44,7 +44,7 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 
 	n, err := rc.rc.Read(p)
 	if err != nil && !errors.Is(err, io.EOF) {
-		return n, fmt.Errorf("delta: error reading: %w", err)
+		err = fmt.Errorf("delta: error reading: %w", err)
 	}
 
 	var (
-- 
2.43.0


From a335e00be88bc82e7113614230792346d9b42118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:57 +0000
Subject: [PATCH 04/57] fix: brotli streams shorter than the 7-Zip frame were
 rejected

The optional frame is 16 bytes, a pure Brotli stream can be shorter.
---
 internal/brotli/reader.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/brotli/reader.go b/internal/brotli/reader.go
index a07b764..c169527 100644
--- a/internal/brotli/reader.go
+++ b/internal/brotli/reader.go
@@ -82,11 +82,10 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 	// the data which will confuse a pure Brotli implementation. Read it
 	// but keep a copy so we can add it back if it doesn't look right
 	if err := binary.Read(io.TeeReader(readers[0], b), binary.LittleEndian, hr); err != nil {
-		if !errors.Is(err, io.EOF) {
-			err = fmt.Errorf("brotli: error reading frame: %w", err)
+		// A stream shorter than the frame can only be pure Brotli
+		if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
+			return nil, fmt.Errorf("brotli: error reading frame: %w", err)
 		}
-
-		return nil, err
 	}
 
 	var reader io.ReadCloser
-- 
2.43.0


From c4ec7a7fd14a6b0ce866b56eed94fa339a2f9b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:57 +0000
Subject: [PATCH 05/57] fix: header parsing failed on short reads

The reader of an encoded header may return fewer bytes than asked for
which is not an error.
---
 types.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/types.go b/types.go
index dfeb2b2..ba24824 100644
--- a/types.go
+++ b/types.go
@@ -47,7 +47,6 @@ const (
 )
 
 var (
-	errIncompleteRead         = errors.New("sevenzip: incomplete read")
 	errUnexpectedID           = errors.New("sevenzip: unexpected id")
 	errMissingUnpackInfo      = errors.New("sevenzip: missing unpack info")
 	errWrongNumberOfFilenames = errors.New("sevenzip: wrong number of filenames")
@@ -269,12 +268,8 @@ func readCoder(r util.Reader) (*coder, error) {
 	}
 
 	c.id = make([]byte, v&0xf)
-	if n, err := r.Read(c.id); err != nil || n != int(v&0xf) {
-		if err != nil {
-			return nil, fmt.Errorf("readCoder: Read error: %w", err)
-		}
-
-		return nil, errIncompleteRead
+	if _, err := io.ReadFull(r, c.id); err != nil {
+		return nil, fmt.Errorf("readCoder: Read error: %w", err)
 	}
 
 	if v&0x10 != 0 {
@@ -298,12 +293,8 @@ func readCoder(r util.Reader) (*coder, error) {
 		}
 
 		c.properties = make([]byte, size)
-		if n, err := r.Read(c.properties); err != nil || uint64(n) != size { //nolint:gosec
-			if err != nil {
-				return nil, fmt.Errorf("readCoder: Read error: %w", err)
-			}
-
-			return nil, errIncompleteRead
+		if _, err := io.ReadFull(r, c.properties); err != nil {
+			return nil, fmt.Errorf("readCoder: Read error: %w", err)
 		}
 	}
 
-- 
2.43.0


From 2c176a30b392e149676d1d8fddc887cd77bd1eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:43 +0000
Subject: [PATCH 06/57] fix: archives without substreams information mapped
 every file to the first folder

Without that optional structure every folder holds exactly one stream.
---
 struct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index bb6ddca..5cb47d2 100644
--- a/struct.go
+++ b/struct.go
@@ -217,7 +217,10 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 		crc     uint32
 	)
 
-	if si.subStreamsInfo != nil {
+	if si.subStreamsInfo == nil {
+		// There's exactly one stream per folder
+		folder = file
+	} else {
 		total := uint64(0)
 
 		for folder, streams = range si.subStreamsInfo.streams {
-- 
2.43.0


From 2616e24978a02825194e1bb37cf504a2c020ff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:44 +0000
Subject: [PATCH 07/57] fix: digests of substreams were assigned to the wrong
 files

A digest is only stored for the streams whose digest is not already known
from a folder with just that stream, and a folder without a digest does not
replace the one of its stream.
---
 struct.go | 11 ++++++++---
 types.go  | 56 +++++++++++++++++++++++++++++++++++++++++++------------
 2 files changed, 52 insertions(+), 15 deletions(-)

diff --git a/struct.go b/struct.go
index 5cb47d2..eb07a4f 100644
--- a/struct.go
+++ b/struct.go
@@ -186,8 +186,13 @@ func (f *folder) unpackSize() uint64 {
 }
 
 type unpackInfo struct {
-	folder []*folder
-	digest []uint32
+	folder  []*folder
+	digest  []uint32
+	defined []bool
+}
+
+func (u *unpackInfo) hasDigest(folder int) bool {
+	return folder < len(u.defined) && u.defined[folder]
 }
 
 type subStreamsInfo struct {
@@ -236,7 +241,7 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 	}
 
 	if streams == 1 {
-		if len(si.unpackInfo.digest) > 0 {
+		if si.unpackInfo.hasDigest(folder) {
 			crc = si.unpackInfo.digest[folder]
 		}
 
diff --git a/types.go b/types.go
index ba24824..9f69a58 100644
--- a/types.go
+++ b/types.go
@@ -185,14 +185,14 @@ func readSizes(r io.ByteReader, count uint64) ([]uint64, error) {
 	return sizes, nil
 }
 
-func readCRC(r util.Reader, count uint64) ([]uint32, error) {
+func readCRC(r util.Reader, count uint64) ([]uint32, []bool, error) {
 	if err := checkUint64(count, true); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	defined, err := readOptionalBool(r, count)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	crcs := make([]uint32, count)
@@ -200,12 +200,12 @@ func readCRC(r util.Reader, count uint64) ([]uint32, error) {
 	for i := range defined {
 		if defined[i] {
 			if err := binary.Read(r, binary.LittleEndian, &crcs[i]); err != nil {
-				return nil, fmt.Errorf("readCRC: Read error: %w", err)
+				return nil, nil, fmt.Errorf("readCRC: Read error: %w", err)
 			}
 		}
 	}
 
-	return crcs, nil
+	return crcs, defined, nil
 }
 
 //nolint:cyclop
@@ -241,7 +241,7 @@ func readPackInfo(r util.Reader) (*packInfo, error) {
 	}
 
 	if id == idCRC {
-		if p.digest, err = readCRC(r, p.streams); err != nil {
+		if p.digest, _, err = readCRC(r, p.streams); err != nil {
 			return nil, err
 		}
 
@@ -457,7 +457,7 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 	}
 
 	if id == idCRC {
-		if u.digest, err = readCRC(r, folders); err != nil {
+		if u.digest, u.defined, err = readCRC(r, folders); err != nil {
 			return nil, err
 		}
 
@@ -474,8 +474,40 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 	return u, nil
 }
 
+// readSubStreamsCRC reads the digests of the streams which aren't already known
+// from their folder and returns the digests of all streams.
+func readSubStreamsCRC(r util.Reader, streams []uint64, u *unpackInfo) ([]uint32, error) {
+	unknown := uint64(0)
+
+	for i, v := range streams {
+		if v != 1 || !u.hasDigest(i) {
+			unknown += v
+		}
+	}
+
+	crcs, _, err := readCRC(r, unknown)
+	if err != nil {
+		return nil, err
+	}
+
+	var digest []uint32
+
+	for i, v := range streams {
+		if v == 1 && u.hasDigest(i) {
+			digest = append(digest, u.digest[i])
+
+			continue
+		}
+
+		digest = append(digest, crcs[:v]...)
+		crcs = crcs[v:]
+	}
+
+	return digest, nil
+}
+
 //nolint:cyclop,funlen,gocognit
-func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error) {
+func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 	s := new(subStreamsInfo)
 
 	id, err := r.ReadByte()
@@ -483,7 +515,7 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 		return nil, fmt.Errorf("readSubStreamsInfo: ReadByte error: %w", err)
 	}
 
-	s.streams = make([]uint64, len(folder))
+	s.streams = make([]uint64, len(u.folder))
 	if id == idNumUnpackStream {
 		for i := range s.streams {
 			if s.streams[i], err = readUint64(r); err != nil {
@@ -531,7 +563,7 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 				k++
 			}
 
-			s.size[k] = folder[i].unpackSize() - total
+			s.size[k] = u.folder[i].unpackSize() - total
 			k++
 		}
 
@@ -542,7 +574,7 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 	}
 
 	if id == idCRC {
-		if s.digest, err = readCRC(r, files); err != nil {
+		if s.digest, err = readSubStreamsCRC(r, s.streams, u); err != nil {
 			return nil, err
 		}
 
@@ -595,7 +627,7 @@ func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 			return nil, errMissingUnpackInfo
 		}
 
-		if s.subStreamsInfo, err = readSubStreamsInfo(r, s.unpackInfo.folder); err != nil {
+		if s.subStreamsInfo, err = readSubStreamsInfo(r, s.unpackInfo); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From 2c32fca46c3137ea69d7a8935debe94c8d62e741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:21 +0000
Subject: [PATCH 08/57] fix: deriving a key overwrote the initialization vector

The buffer used to build the salt and password shared its backing array with
the coder properties, so the password overwrote the initialization vector
following the salt and every later use of the same stream decrypted to
garbage; opening two files concurrently was also a data race.
---
 internal/aes7z/key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/aes7z/key.go b/internal/aes7z/key.go
index eb25326..1cc583b 100644
--- a/internal/aes7z/key.go
+++ b/internal/aes7z/key.go
@@ -54,7 +54,8 @@ func calculateKey(password string, cycles int, salt []byte) ([]byte, error) {
 		return key, nil
 	}
 
-	b := bytes.NewBuffer(salt)
+	// Don't append to salt, its backing array holds the other properties
+	b := bytes.NewBuffer(bytes.Clone(salt))
 
 	// Convert password to UTF-16LE
 	utf16le := unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)
-- 
2.43.0


From f5de22656c534dc5e49dfef50f907016cacd9430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:19 +0000
Subject: [PATCH 09/57] fix: a byte read together with an error was dropped

ReadByte discarded the byte when the underlying Read returned it along with
io.EOF, as readers are allowed to do, so headers and BCJ2 streams decoded by
such a reader lost their last byte.
---
 internal/util/reader.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/util/reader.go b/internal/util/reader.go
index 21d2c94..a246a11 100644
--- a/internal/util/reader.go
+++ b/internal/util/reader.go
@@ -46,15 +46,16 @@ func (rc *byteReadCloser) ReadByte() (byte, error) {
 	var b [1]byte
 
 	n, err := rc.Read(b[:])
-	if err != nil {
-		return 0, err //nolint:wrapcheck
+	if n > 0 {
+		// Any error will be returned by the next call
+		return b[0], nil
 	}
 
-	if n == 0 {
-		return 0, io.ErrNoProgress
+	if err != nil {
+		return 0, err //nolint:wrapcheck
 	}
 
-	return b[0], nil
+	return 0, io.ErrNoProgress
 }
 
 // ByteReadCloser returns a ReadCloser either by returning the io.ReadCloser
-- 
2.43.0


From 70f086978507bca4bd4edf2c58c747f32c00570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:41 +0000
Subject: [PATCH 10/57] fix: closing a zstd stream early raced with its
 background reads

The decoder reads ahead in its own goroutine, which kept using the underlying
reader after Close had closed it; closing a partially read file could crash
the whole program with a nil pointer dereference.
---
 internal/zstd/reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/zstd/reader.go b/internal/zstd/reader.go
index 6817f1a..bbef7e0 100644
--- a/internal/zstd/reader.go
+++ b/internal/zstd/reader.go
@@ -29,6 +29,12 @@ func (rc *readCloser) Close() error {
 		return errAlreadyClosed
 	}
 
+	// The decoder reads ahead in the background, stop it before the
+	// underlying reader is closed
+	if err := rc.r.Reset(nil); err != nil {
+		return fmt.Errorf("zstd: error resetting: %w", err)
+	}
+
 	if err := rc.c.Close(); err != nil {
 		return fmt.Errorf("zstd: error closing: %w", err)
 	}
-- 
2.43.0


From ea309a1ce9a200c32b8e47c4c511479e0ca0dcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:09 +0000
Subject: [PATCH 11/57] fix: a truncated stream was reported as the regular end
 of the file

When the stream ended before the whole of a file was read, Read returned
io.EOF, or an error wrapping it, and the caller mistook the truncated content
for the complete file.
---
 reader.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 8ff32ef..36811b1 100644
--- a/reader.go
+++ b/reader.go
@@ -103,7 +103,16 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 	n, err := fr.rc.Read(p)
 	fr.n -= int64(n)
 
-	if err != nil && !errors.Is(err, io.EOF) {
+	if err != nil {
+		if errors.Is(err, io.EOF) {
+			if fr.n <= 0 {
+				return n, io.EOF
+			}
+
+			// The stream ended before all of the file was read
+			err = io.ErrUnexpectedEOF
+		}
+
 		e := &ReadError{
 			Err: err,
 		}
@@ -115,7 +124,7 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 		return n, e
 	}
 
-	return n, err //nolint:wrapcheck
+	return n, nil
 }
 
 func (fr *fileReader) Close() error {
-- 
2.43.0


From 1cceab83cca01f028ec6994526c8fed251f071fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:09 +0000
Subject: [PATCH 12/57] fix: a stream that failed was reused for other files

After a read error the decoder isn't in a defined state, yet Close returned it
to the pool from where it delivered wrong content, or the same error again,
for another file. A stream that failed when seeking was never closed.
---
 reader.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/reader.go b/reader.go
index 36811b1..1a4dfa3 100644
--- a/reader.go
+++ b/reader.go
@@ -78,9 +78,10 @@ type File struct {
 }
 
 type fileReader struct {
-	rc util.SizeReadSeekCloser
-	f  *File
-	n  int64
+	rc     util.SizeReadSeekCloser
+	f      *File
+	n      int64
+	failed bool
 }
 
 func (fr *fileReader) Stat() (iofs.FileInfo, error) {
@@ -113,6 +114,8 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 			err = io.ErrUnexpectedEOF
 		}
 
+		fr.failed = true
+
 		e := &ReadError{
 			Err: err,
 		}
@@ -137,7 +140,7 @@ func (fr *fileReader) Close() error {
 		return fmt.Errorf("sevenzip: error seeking current position: %w", err)
 	}
 
-	if offset == fr.rc.Size() { // EOF reached
+	if offset == fr.rc.Size() || fr.failed { // EOF reached or the reader can't be used any further
 		if err := fr.rc.Close(); err != nil {
 			return fmt.Errorf("sevenzip: error closing: %w", err)
 		}
@@ -186,6 +189,8 @@ func (f *File) Open() (io.ReadCloser, error) {
 			e.Encrypted = fr.hasEncryption
 		}
 
+		_ = rc.Close()
+
 		return nil, e
 	}
 
-- 
2.43.0


From be234b9a244c37292fb26992d5c0d3a8f5d9b451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:10 +0000
Subject: [PATCH 13/57] fix: reading a closed file panicked

Return an error wrapping fs.ErrClosed instead of dereferencing a nil reader.
---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index 1a4dfa3..3a18a73 100644
--- a/reader.go
+++ b/reader.go
@@ -89,6 +89,10 @@ func (fr *fileReader) Stat() (iofs.FileInfo, error) {
 }
 
 func (fr *fileReader) Read(p []byte) (int, error) {
+	if fr.rc == nil {
+		return 0, &iofs.PathError{Op: "read", Path: fr.f.Name, Err: iofs.ErrClosed}
+	}
+
 	if len(p) == 0 {
 		return 0, nil
 	}
-- 
2.43.0


From 2958019a7aa33022e3ff96fe00d970dafd0ff853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:10 +0000
Subject: [PATCH 14/57] fix: opening an empty file through the fs.FS interface
 panicked

The reader for empty files didn't implement fs.File.
---
 reader.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 3a18a73..5663a7e 100644
--- a/reader.go
+++ b/reader.go
@@ -160,12 +160,21 @@ func (fr *fileReader) Close() error {
 	return nil
 }
 
+type emptyReader struct {
+	io.ReadCloser
+	f *File
+}
+
+func (er *emptyReader) Stat() (iofs.FileInfo, error) {
+	return headerFileInfo{&er.f.FileHeader}, nil
+}
+
 // Open returns an [io.ReadCloser] that provides access to the [File]'s
 // contents. Multiple files may be read concurrently.
 func (f *File) Open() (io.ReadCloser, error) {
 	if f.isEmptyStream || f.isEmptyFile {
 		// Return empty reader for directory or empty file
-		return io.NopCloser(bytes.NewReader(nil)), nil
+		return &emptyReader{io.NopCloser(bytes.NewReader(nil)), f}, nil
 	}
 
 	rc, _ := f.zip.pool[f.folder].Get(f.offset)
-- 
2.43.0


From bdc01d682c10a616dcb82e036e6b97e35a88a651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:10 +0000
Subject: [PATCH 15/57] fix: entries named "." or ".." appeared in the file
 system

Names such as ".", "./", ".." or "a/../.." were listed as entries "." and ".."
which aren't valid paths, walking the file system never ended.
---
 reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reader.go b/reader.go
index 5663a7e..9e3d2ad 100644
--- a/reader.go
+++ b/reader.go
@@ -690,6 +690,11 @@ func toValidName(name string) string {
 		p = p[len("../"):]
 	}
 
+	// Neither the root nor its parent are valid
+	if p == "." || p == ".." {
+		return ""
+	}
+
 	return p
 }
 
-- 
2.43.0


From 6d1f2460372f11605a020ae85bb5914789865575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:10 +0000
Subject: [PATCH 16/57] fix: names of files differed from their names in the
 file system

For a name with backslashes or dot elements the fs.FileInfo had a different
name than the directory entry.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index eb07a4f..a379aac 100644
--- a/struct.go
+++ b/struct.go
@@ -383,7 +383,7 @@ type headerFileInfo struct {
 	fh *FileHeader
 }
 
-func (fi headerFileInfo) Name() string        { return path.Base(fi.fh.Name) }
+func (fi headerFileInfo) Name() string        { return path.Base(toValidName(fi.fh.Name)) }
 func (fi headerFileInfo) Size() int64         { return int64(fi.fh.UncompressedSize) } //nolint:gosec
 func (fi headerFileInfo) IsDir() bool         { return fi.Mode().IsDir() }
 func (fi headerFileInfo) ModTime() time.Time  { return fi.fh.Modified.UTC() }
-- 
2.43.0


From 7f44ed88f5e5bf4782fec0309c3fa2c61c379d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 17/57] fix: some errors of encrypted streams lacked the
 encryption hint

An error setting the password and a decoded header failing its checksum didn't
set Encrypted on the returned ReadError.
---
 reader.go | 5 ++++-
 struct.go | 8 ++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/reader.go b/reader.go
index 9e3d2ad..81caf36 100644
--- a/reader.go
+++ b/reader.go
@@ -545,7 +545,10 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 		}
 
 		if crc != 0 && !util.CRC32Equal(fr.Checksum(), crc) {
-			return errChecksum
+			return &ReadError{
+				Encrypted: fr.hasEncryption,
+				Err:       errChecksum,
+			}
 		}
 	}
 
diff --git a/struct.go b/struct.go
index a379aac..2ddfaaa 100644
--- a/struct.go
+++ b/struct.go
@@ -313,14 +313,14 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 		)
 
 		out[output], isEncrypted, err = f.coderReader(in[input:input+c.in], uint64(i), password)
-		if err != nil {
-			return nil, 0, hasEncryption, err
-		}
-
 		if isEncrypted {
 			hasEncryption = true
 		}
 
+		if err != nil {
+			return nil, 0, hasEncryption, err
+		}
+
 		input += c.in
 		output += c.out
 	}
-- 
2.43.0


From cd95182ed444fce78687f497d06ac133f7b55bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 18/57] fix: small multi-volume archives behind other data
 couldn't be opened

The reader used for volumes returns io.ErrUnexpectedEOF rather than io.EOF for
a read past the end.
---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 81caf36..dded46b 100644
--- a/reader.go
+++ b/reader.go
@@ -396,7 +396,7 @@ func findSignature(r io.ReaderAt, search []byte) ([]int64, error) {
 		}
 
 		if err != nil {
-			if errors.Is(err, io.EOF) {
+			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
 				break
 			}
 
-- 
2.43.0


From bacccb8b6057445b995a8f287ff180cd1fd448de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:11 +0000
Subject: [PATCH 19/57] fix: timestamps outside of 1678-2262 were wrong

The conversion to nanoseconds since 1970 overflowed.
---
 types.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 9f69a58..e1f97ca 100644
--- a/types.go
+++ b/types.go
@@ -644,6 +644,11 @@ func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 	return s, nil
 }
 
+const (
+	ticksPerSecond = 10000000    // 100 nanosecond intervals
+	secondsTo1970  = 11644473600 // From January 1, 1601
+)
+
 func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 	if err := checkUint64(count, true); err != nil {
 		return nil, err
@@ -682,7 +687,9 @@ func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 				return nil, fmt.Errorf("readTimes: Read error: %w", err)
 			}
 
-			times[i] = time.Unix(0, ft.Nanoseconds()).UTC()
+			// The nanoseconds since 1970 would overflow outside of 1678-2262
+			ticks := uint64(ft.HighDateTime)<<32 | uint64(ft.LowDateTime)
+			times[i] = time.Unix(int64(ticks/ticksPerSecond)-secondsTo1970, int64(ticks%ticksPerSecond)*100).UTC() //nolint:gosec,lll,mnd
 		}
 	}
 
-- 
2.43.0


From 30c5c747e0213ce1fc746770b50616994f053998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:35 +0000
Subject: [PATCH 20/57] fix: malformed folders in the header caused panics

Bind pairs and packed streams out of range, missing packed streams, and sizes
and offsets too large for an int64 were used unchecked. A folder could also
claim billions of streams for which memory was then allocated.
---
 types.go | 71 +++++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 65 insertions(+), 6 deletions(-)

diff --git a/types.go b/types.go
index e1f97ca..343302e 100644
--- a/types.go
+++ b/types.go
@@ -53,8 +53,14 @@ var (
 	errUint64NonZero          = errors.New("sevenzip: uint64 value must be non-zero")
 	errUint64TooLarge         = errors.New("sevenzip: uint64 value too large")
 	errInvalidBindPair        = errors.New("sevenzip: invalid bind pair")
+	errInvalidPackedStream    = errors.New("sevenzip: invalid packed stream")
+	errTooManyCoders          = errors.New("sevenzip: too many coders or streams in folder")
 )
 
+// maxCoderStreams limits the number of coders, and their streams, per folder;
+// it's the same limit that 7-Zip uses.
+const maxCoderStreams = 64
+
 func checkUint64(v uint64, nonZero bool) error {
 	if nonZero && v == 0 {
 		return errUint64NonZero
@@ -310,6 +316,10 @@ func readFolder(r util.Reader) (*folder, error) {
 		return nil, err
 	}
 
+	if coders > maxCoderStreams {
+		return nil, errTooManyCoders
+	}
+
 	f.coder = make([]*coder, 0, min(coders, 16))
 
 	for range coders {
@@ -324,12 +334,8 @@ func readFolder(r util.Reader) (*folder, error) {
 		f.out += coder.out
 	}
 
-	if err := checkUint64(f.in, true); err != nil {
-		return nil, err
-	}
-
-	if err := checkUint64(f.out, true); err != nil {
-		return nil, err
+	if f.in > maxCoderStreams || f.out > maxCoderStreams {
+		return nil, errTooManyCoders
 	}
 
 	if f.in < f.out {
@@ -351,6 +357,10 @@ func readFolder(r util.Reader) (*folder, error) {
 			return nil, err
 		}
 
+		if in >= f.in || out >= f.out {
+			return nil, errInvalidBindPair
+		}
+
 		f.bindPair = append(f.bindPair, &bindPair{
 			in:  in,
 			out: out,
@@ -366,12 +376,20 @@ func readFolder(r util.Reader) (*folder, error) {
 				f.packed = append(f.packed, i)
 			}
 		}
+
+		if len(f.packed) != 1 {
+			return nil, errInvalidBindPair
+		}
 	} else {
 		f.packed = make([]uint64, f.packedStreams)
 		for i := range f.packedStreams {
 			if f.packed[i], err = readUint64(r); err != nil {
 				return nil, err
 			}
+
+			if f.packed[i] >= f.in {
+				return nil, errInvalidPackedStream
+			}
 		}
 	}
 
@@ -448,6 +466,10 @@ func readUnpackInfo(r util.Reader) (*unpackInfo, error) {
 			if f.size[i], err = readUint64(r); err != nil {
 				return nil, err
 			}
+
+			if f.size[i] > math.MaxInt64 {
+				return nil, errUint64TooLarge
+			}
 		}
 	}
 
@@ -591,6 +613,39 @@ func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 	return s, nil
 }
 
+// checkPackedStreams checks that all of the packed streams the folders refer to
+// exist.
+func (si *streamsInfo) checkPackedStreams() error {
+	if si.unpackInfo == nil {
+		return nil
+	}
+
+	streams := uint64(0)
+	for _, f := range si.unpackInfo.folder {
+		streams += f.packedStreams
+	}
+
+	if si.packInfo == nil || streams > uint64(len(si.packInfo.size)) {
+		return errInvalidPackedStream
+	}
+
+	end := si.packInfo.position
+
+	for _, size := range si.packInfo.size {
+		if end > math.MaxInt64 || size > math.MaxInt64 {
+			return errInvalidPackedStream
+		}
+
+		end += size
+	}
+
+	if end > math.MaxInt64 {
+		return errInvalidPackedStream
+	}
+
+	return nil
+}
+
 //nolint:cyclop
 func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 	s := new(streamsInfo)
@@ -641,6 +696,10 @@ func readStreamsInfo(r util.Reader) (*streamsInfo, error) {
 		return nil, errUnexpectedID
 	}
 
+	if err := s.checkPackedStreams(); err != nil {
+		return nil, err
+	}
+
 	return s, nil
 }
 
-- 
2.43.0


From a091b8d1796c73fc68b95dd80fb996b81dbafa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 21/57] fix: malformed substreams in the header caused panics

Substreams without sizes weren't expected, sizes exceeding their folder wrapped
around and their number was trusted for allocating memory.
---
 types.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/types.go b/types.go
index 343302e..2308bd4 100644
--- a/types.go
+++ b/types.go
@@ -54,6 +54,7 @@ var (
 	errUint64TooLarge         = errors.New("sevenzip: uint64 value too large")
 	errInvalidBindPair        = errors.New("sevenzip: invalid bind pair")
 	errInvalidPackedStream    = errors.New("sevenzip: invalid packed stream")
+	errInvalidSubStreams      = errors.New("sevenzip: invalid substreams")
 	errTooManyCoders          = errors.New("sevenzip: too many coders or streams in folder")
 )
 
@@ -557,7 +558,17 @@ func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 
 	// Count the files in each stream
 	files := uint64(0)
+
 	for _, v := range s.streams {
+		// Without sizes there can't be more than one
+		if v > 1 && id != idSize {
+			return nil, errInvalidSubStreams
+		}
+
+		if err := checkUint64(v, false); err != nil {
+			return nil, err
+		}
+
 		files += v
 	}
 
@@ -566,27 +577,30 @@ func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 	}
 
 	if id == idSize {
-		s.size = make([]uint64, files)
-		k := 0
+		s.size = make([]uint64, 0, min(files, 1024))
 
 		for i := range s.streams {
 			if s.streams[i] == 0 {
 				continue
 			}
 
-			total := uint64(0)
+			remaining := u.folder[i].unpackSize()
 
-			for j := uint64(1); j < s.streams[i]; j++ {
-				if s.size[k], err = readUint64(r); err != nil {
+			for range s.streams[i] - 1 {
+				size, err := readUint64(r)
+				if err != nil {
 					return nil, err
 				}
 
-				total += s.size[k]
-				k++
+				if size > remaining {
+					return nil, errInvalidSubStreams
+				}
+
+				s.size = append(s.size, size)
+				remaining -= size
 			}
 
-			s.size[k] = u.folder[i].unpackSize() - total
-			k++
+			s.size = append(s.size, remaining)
 		}
 
 		id, err = r.ReadByte()
-- 
2.43.0


From e56279bab996ddd0dd6210ad9cb79ee36cac84ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 22/57] fix: headers with more files than streams caused panics

Also an empty stream property following the empty file property left files
marked empty even though they have content.
---
 struct.go | 14 ++++++++++++++
 types.go  | 12 ++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index 2ddfaaa..5fe14c7 100644
--- a/struct.go
+++ b/struct.go
@@ -215,6 +215,20 @@ func (si *streamsInfo) Folders() int {
 	return 0
 }
 
+// SubStreams returns the number of files in all of the folders.
+func (si *streamsInfo) SubStreams() uint64 {
+	if si == nil || si.subStreamsInfo == nil {
+		return uint64(si.Folders()) //nolint:gosec
+	}
+
+	total := uint64(0)
+	for _, streams := range si.subStreamsInfo.streams {
+		total += streams
+	}
+
+	return total
+}
+
 func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 	var (
 		folder  int
diff --git a/types.go b/types.go
index 2308bd4..10cb3be 100644
--- a/types.go
+++ b/types.go
@@ -55,6 +55,7 @@ var (
 	errInvalidBindPair        = errors.New("sevenzip: invalid bind pair")
 	errInvalidPackedStream    = errors.New("sevenzip: invalid packed stream")
 	errInvalidSubStreams      = errors.New("sevenzip: invalid substreams")
+	errTooManyFiles           = errors.New("sevenzip: more files than streams")
 	errTooManyCoders          = errors.New("sevenzip: too many coders or streams in folder")
 )
 
@@ -907,8 +908,11 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			emptyStreams = 0
+
 			for i := range f.file {
 				f.file[i].isEmptyStream = empty[i]
+				f.file[i].isEmptyFile = false
 
 				if empty[i] {
 					emptyStreams++
@@ -1042,17 +1046,21 @@ func readHeader(r util.Reader) (*header, error) {
 		return nil, errUnexpectedID
 	}
 
-	if h.streamsInfo == nil || h.filesInfo == nil {
+	if h.filesInfo == nil {
 		return h, nil
 	}
 
-	j := 0
+	j, streams := 0, h.streamsInfo.SubStreams()
 
 	for i := range h.filesInfo.file {
 		if h.filesInfo.file[i].isEmptyStream {
 			continue
 		}
 
+		if uint64(j) >= streams {
+			return nil, errTooManyFiles
+		}
+
 		_, h.filesInfo.file[i].UncompressedSize, h.filesInfo.file[i].CRC32 = h.streamsInfo.FileFolderAndSize(j)
 		j++
 	}
-- 
2.43.0


From 6151d50feeaebf756dc7db86742a7e214c01e96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 23/57] fix: the size of a file was that of the last coder of
 its folder

The size of the folder's contents is that of the coder whose output isn't bound
to another one, which need not be the last.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 5fe14c7..e4b0c81 100644
--- a/struct.go
+++ b/struct.go
@@ -259,7 +259,7 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 			crc = si.unpackInfo.digest[folder]
 		}
 
-		return folder, si.unpackInfo.folder[folder].size[len(si.unpackInfo.folder[folder].coder)-1], crc
+		return folder, si.unpackInfo.folder[folder].unpackSize(), crc
 	}
 
 	return folder, si.subStreamsInfo.size[file], crc
-- 
2.43.0


From d76186b466254cdf337bd2fe40fbbcb61b115fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 24/57] fix: tell the end of the archive from the end of a
 stream

A packed stream cut short by the end of the archive is reported where it is
read, as filters and stored data can't tell. A decoder that ended on its own
without an error still ends the file, as it did before.
---
 reader.go | 10 +++++-----
 struct.go | 19 ++++++++++++++++++-
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/reader.go b/reader.go
index dded46b..e1d923c 100644
--- a/reader.go
+++ b/reader.go
@@ -109,12 +109,12 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 	fr.n -= int64(n)
 
 	if err != nil {
-		if errors.Is(err, io.EOF) {
-			if fr.n <= 0 {
-				return n, io.EOF
-			}
+		if err == io.EOF || fr.n <= 0 && errors.Is(err, io.EOF) { //nolint:errorlint
+			return n, io.EOF
+		}
 
-			// The stream ended before all of the file was read
+		// A wrapped io.EOF means that a decoder ran out of data
+		if errors.Is(err, io.EOF) {
 			err = io.ErrUnexpectedEOF
 		}
 
diff --git a/struct.go b/struct.go
index e4b0c81..6d099a4 100644
--- a/struct.go
+++ b/struct.go
@@ -185,6 +185,23 @@ func (f *folder) unpackSize() uint64 {
 	return f.size[len(f.size)-1]
 }
 
+// packedReader reads a packed stream and returns io.ErrUnexpectedEOF when the
+// archive ends before the stream does.
+type packedReader struct {
+	sr *io.SectionReader
+}
+
+func (r *packedReader) Read(p []byte) (int, error) {
+	n, err := r.sr.Read(p)
+	if err == io.EOF { //nolint:errorlint
+		if offset, serr := r.sr.Seek(0, io.SeekCurrent); serr != nil || offset < r.sr.Size() {
+			err = io.ErrUnexpectedEOF
+		}
+	}
+
+	return n, err //nolint:wrapcheck
+}
+
 type unpackInfo struct {
 	folder  []*folder
 	digest  []uint32
@@ -294,7 +311,7 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 
 	for i, input := range f.packed {
 		size := int64(si.packInfo.size[packedOffset+i]) //nolint:gosec
-		in[input] = util.NopCloser(bufio.NewReader(io.NewSectionReader(r, si.folderOffset(folder)+offset, size)))
+		in[input] = util.NopCloser(bufio.NewReader(&packedReader{io.NewSectionReader(r, si.folderOffset(folder)+offset, size)}))
 		offset += size
 	}
 
-- 
2.43.0


From 4336a5ff0ce511467f5c2156690976d606dc9218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 25/57] fix: sizes in the header were trusted for allocating
 memory

A header of a few bytes could claim billions of files, digests or property
bytes, for all of which memory was allocated before noticing that there's no
such amount of data; running out of memory can't be recovered from.
---
 struct.go |  2 +-
 types.go  | 88 ++++++++++++++++++++++++++++++++++++++++---------------
 2 files changed, 65 insertions(+), 25 deletions(-)

diff --git a/struct.go b/struct.go
index 6d099a4..0f47e2f 100644
--- a/struct.go
+++ b/struct.go
@@ -209,7 +209,7 @@ type unpackInfo struct {
 }
 
 func (u *unpackInfo) hasDigest(folder int) bool {
-	return folder < len(u.defined) && u.defined[folder]
+	return folder < len(u.digest) && (u.defined == nil || u.defined[folder])
 }
 
 type subStreamsInfo struct {
diff --git a/types.go b/types.go
index 10cb3be..37aebf5 100644
--- a/types.go
+++ b/types.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"math"
 	"math/bits"
+	"slices"
 	"time"
 
 	"github.com/bodgit/sevenzip/internal/util"
@@ -149,6 +150,7 @@ func readBool(r io.ByteReader, count uint64) ([]bool, error) {
 	return defined, nil
 }
 
+// readOptionalBool returns nil if all count items are defined.
 func readOptionalBool(r io.ByteReader, count uint64) ([]bool, error) {
 	if err := checkUint64(count, true); err != nil {
 		return nil, err
@@ -163,12 +165,7 @@ func readOptionalBool(r io.ByteReader, count uint64) ([]bool, error) {
 		return readBool(r, count)
 	}
 
-	defined := make([]bool, count)
-	for i := range defined {
-		defined[i] = true
-	}
-
-	return defined, nil
+	return nil, nil
 }
 
 func readSizes(r io.ByteReader, count uint64) ([]uint64, error) {
@@ -203,14 +200,18 @@ func readCRC(r util.Reader, count uint64) ([]uint32, []bool, error) {
 		return nil, nil, err
 	}
 
-	crcs := make([]uint32, count)
+	crcs := make([]uint32, 0, min(count, 1024))
 
-	for i := range defined {
-		if defined[i] {
-			if err := binary.Read(r, binary.LittleEndian, &crcs[i]); err != nil {
+	for i := range count {
+		var crc uint32
+
+		if defined == nil || defined[i] {
+			if err := binary.Read(r, binary.LittleEndian, &crc); err != nil {
 				return nil, nil, fmt.Errorf("readCRC: Read error: %w", err)
 			}
 		}
+
+		crcs = append(crcs, crc)
 	}
 
 	return crcs, defined, nil
@@ -300,10 +301,16 @@ func readCoder(r util.Reader) (*coder, error) {
 			return nil, err
 		}
 
-		c.properties = make([]byte, size)
-		if _, err := io.ReadFull(r, c.properties); err != nil {
+		// Don't allocate the memory before knowing that the data is there
+		if c.properties, err = io.ReadAll(io.LimitReader(r, int64(size))); err != nil { //nolint:gosec
 			return nil, fmt.Errorf("readCoder: Read error: %w", err)
 		}
+
+		if uint64(len(c.properties)) != size {
+			return nil, fmt.Errorf("readCoder: Read error: %w", io.ErrUnexpectedEOF)
+		}
+
+		c.properties = slices.Clip(c.properties)
 	}
 
 	return c, nil
@@ -752,10 +759,12 @@ func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 		return nil, errors.New("sevenzip: TODO readTimes external") //nolint:err113
 	}
 
-	times := make([]time.Time, count)
+	times := make([]time.Time, 0, min(count, 1024))
+
+	for i := range count {
+		var t time.Time
 
-	for i := range defined {
-		if defined[i] {
+		if defined == nil || defined[i] {
 			var ft windows.Filetime
 			if err := binary.Read(r, binary.LittleEndian, &ft); err != nil {
 				return nil, fmt.Errorf("readTimes: Read error: %w", err)
@@ -763,8 +772,10 @@ func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 
 			// The nanoseconds since 1970 would overflow outside of 1678-2262
 			ticks := uint64(ft.HighDateTime)<<32 | uint64(ft.LowDateTime)
-			times[i] = time.Unix(int64(ticks/ticksPerSecond)-secondsTo1970, int64(ticks%ticksPerSecond)*100).UTC() //nolint:gosec,lll,mnd
+			t = time.Unix(int64(ticks/ticksPerSecond)-secondsTo1970, int64(ticks%ticksPerSecond)*100).UTC() //nolint:gosec,lll,mnd
 		}
+
+		times = append(times, t)
 	}
 
 	return times, nil
@@ -814,7 +825,7 @@ func readNames(r util.Reader, count, length uint64) ([]string, error) {
 	scanner := bufio.NewScanner(transform.NewReader(io.LimitReader(r, int64(length-1)), utf16le.NewDecoder())) //nolint:gosec,lll
 	scanner.Split(splitNull)
 
-	names, i := make([]string, 0, count), uint64(0)
+	names, i := make([]string, 0, min(count, 1024)), uint64(0)
 	for scanner.Scan() {
 		names = append(names, scanner.Text())
 		i++
@@ -860,21 +871,25 @@ func readAttributes(r util.Reader, count uint64) ([]uint32, error) {
 		return nil, errors.New("sevenzip: TODO readAttributes external") //nolint:err113
 	}
 
-	attributes := make([]uint32, count)
+	attributes := make([]uint32, 0, min(count, 1024))
+
+	for i := range count {
+		var a uint32
 
-	for i := range defined {
-		if defined[i] {
-			if err := binary.Read(r, binary.LittleEndian, &attributes[i]); err != nil {
+		if defined == nil || defined[i] {
+			if err := binary.Read(r, binary.LittleEndian, &a); err != nil {
 				return nil, fmt.Errorf("readAttributes: Read error: %w", err)
 			}
 		}
+
+		attributes = append(attributes, a)
 	}
 
 	return attributes, nil
 }
 
 //nolint:cyclop,funlen,gocognit,gocyclo
-func readFilesInfo(r util.Reader) (*filesInfo, error) {
+func readFilesInfo(r util.Reader, streams uint64) (*filesInfo, error) {
 	f := new(filesInfo)
 
 	files, err := readUint64Bounded(r, true)
@@ -882,7 +897,13 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 		return nil, err
 	}
 
-	f.file = make([]FileHeader, files)
+	// The number of files is only trusted once there's a property with a
+	// value for each of them
+	allocate := func() {
+		if f.file == nil {
+			f.file = make([]FileHeader, files)
+		}
+	}
 
 	var emptyStreams uint64
 
@@ -893,6 +914,13 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 		}
 
 		if property == idEnd {
+			// Without any property all files have a stream
+			if f.file == nil && files > streams {
+				return nil, errTooManyFiles
+			}
+
+			allocate()
+
 			break
 		}
 
@@ -908,6 +936,8 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			allocate()
+
 			emptyStreams = 0
 
 			for i := range f.file {
@@ -938,6 +968,8 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			allocate()
+
 			for i, t := range times {
 				f.file[i].Created = t
 			}
@@ -947,6 +979,8 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			allocate()
+
 			for i, t := range times {
 				f.file[i].Accessed = t
 			}
@@ -956,6 +990,8 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			allocate()
+
 			for i, t := range times {
 				f.file[i].Modified = t
 			}
@@ -965,6 +1001,8 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			allocate()
+
 			for i, n := range names {
 				f.file[i].Name = n
 			}
@@ -974,6 +1012,8 @@ func readFilesInfo(r util.Reader) (*filesInfo, error) {
 				return nil, err
 			}
 
+			allocate()
+
 			for i, a := range attributes {
 				f.file[i].Attributes = a
 			}
@@ -1032,7 +1072,7 @@ func readHeader(r util.Reader) (*header, error) {
 	}
 
 	if id == idFilesInfo {
-		if h.filesInfo, err = readFilesInfo(r); err != nil {
+		if h.filesInfo, err = readFilesInfo(r, h.streamsInfo.SubStreams()); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From 4b20e255639913a0603766e63cf6338e8cda2002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 26/57] fix: a stream not taken by the pool was never closed

When there is already a reader at the same offset the other one was dropped
without closing it.
---
 internal/pool/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pool/pool.go b/internal/pool/pool.go
index bd7194d..fc1283b 100644
--- a/internal/pool/pool.go
+++ b/internal/pool/pool.go
@@ -88,7 +88,7 @@ func (p *pool) Put(offset int64, rc util.SizeReadSeekCloser) (bool, error) {
 	defer p.mutex.Unlock()
 
 	if _, ok := p.items[offset]; ok {
-		return false, nil
+		return false, rc.Close() //nolint:wrapcheck
 	}
 
 	ent := &entry{offset, rc}
-- 
2.43.0


From b09c3a31dd5d0d3e08bebe120853dc00bb62b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 27/57] fix: PPMd returned wrong data next to a read error

The model ignores some errors of its input and decodes garbage instead.
---
 internal/ppmd/reader.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/internal/ppmd/reader.go b/internal/ppmd/reader.go
index 22dabd7..fd970c6 100644
--- a/internal/ppmd/reader.go
+++ b/internal/ppmd/reader.go
@@ -19,6 +19,23 @@ var (
 type readCloser struct {
 	c io.Closer
 	r io.Reader
+	e *errorReader
+}
+
+// errorReader remembers an error other than io.EOF as the model carries on
+// decoding without the missing data.
+type errorReader struct {
+	r   io.Reader
+	err error
+}
+
+func (er *errorReader) Read(p []byte) (int, error) {
+	n, err := er.r.Read(p)
+	if err != nil && !errors.Is(err, io.EOF) {
+		er.err = err
+	}
+
+	return n, err //nolint:wrapcheck
 }
 
 func (rc *readCloser) Close() error {
@@ -41,6 +58,10 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	}
 
 	n, err := rc.r.Read(p)
+	if rc.e.err != nil {
+		n, err = 0, rc.e.err
+	}
+
 	if err != nil && !errors.Is(err, io.EOF) {
 		err = fmt.Errorf("ppmd: error reading: %w", err)
 	}
@@ -61,7 +82,9 @@ func NewReader(p []byte, uncompressedSize uint64, readers []io.ReadCloser) (io.R
 	order := p[0]
 	memory := binary.LittleEndian.Uint32(p[1:])
 
-	pr, err := ppmd.NewH7zReader(readers[0], int(order), int(memory), int(uncompressedSize)) //nolint:gosec
+	er := &errorReader{r: readers[0]}
+
+	pr, err := ppmd.NewH7zReader(er, int(order), int(memory), int(uncompressedSize)) //nolint:gosec
 	if err != nil {
 		return nil, fmt.Errorf("ppmd: error creating reader: %w", err)
 	}
@@ -69,5 +92,6 @@ func NewReader(p []byte, uncompressedSize uint64, readers []io.ReadCloser) (io.R
 	return &readCloser{
 		c: readers[0],
 		r: &pr,
+		e: er,
 	}, nil
 }
-- 
2.43.0


From b9b380116da21d5581fd146a0c60f35dcbbc7423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 28/57] fix: decoders were left open when opening a file failed

A decoder that fails to initialise left those set up before it unclosed; a
Zstandard decoder then keeps its goroutines and buffers forever.
---
 struct.go | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/struct.go b/struct.go
index 0f47e2f..500ea0b 100644
--- a/struct.go
+++ b/struct.go
@@ -90,20 +90,35 @@ func (f *folder) findOutBindPair(i uint64) *bindPair {
 	return nil
 }
 
+func closeReaders(readers []io.ReadCloser) {
+	for _, r := range readers {
+		if r != nil {
+			_ = r.Close()
+		}
+	}
+}
+
+// coderReader owns the readers, on error they have been closed.
 func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password string) (io.ReadCloser, bool, error) {
 	dcomp := decompressor(f.coder[coder].id)
 	if dcomp == nil {
+		closeReaders(readers)
+
 		return nil, false, errAlgorithm
 	}
 
 	cr, err := dcomp(f.coder[coder].properties, f.size[coder], readers)
 	if err != nil {
+		closeReaders(readers)
+
 		return nil, false, err
 	}
 
 	crc, ok := cr.(CryptoReadCloser)
 	if ok {
 		if err = crc.Password(password); err != nil {
+			_ = cr.Close()
+
 			return nil, true, fmt.Errorf("sevenzip: error setting password: %w", err)
 		}
 	}
@@ -297,7 +312,7 @@ func (si *streamsInfo) folderOffset(folder int) int64 {
 }
 
 //nolint:cyclop,funlen,lll
-func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string) (*folderReadCloser, uint32, bool, error) {
+func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string) (_ *folderReadCloser, _ uint32, _ bool, err error) {
 	f := si.unpackInfo.folder[folder]
 	in := make([]io.ReadCloser, f.in)
 	out := make([]io.ReadCloser, f.out)
@@ -320,6 +335,14 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 		input, output uint64
 	)
 
+	// On error close all of the readers that aren't owned by another one
+	defer func() {
+		if err != nil {
+			closeReaders(in[input:])
+			closeReaders(out)
+		}
+	}()
+
 	for i, c := range f.coder {
 		if c.out != 1 {
 			return nil, 0, hasEncryption, errMultipleOutputStreams
@@ -335,15 +358,15 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 				return nil, 0, hasEncryption, errNoBoundStream
 			}
 
-			in[j] = out[bp.out]
+			in[j], out[bp.out] = out[bp.out], nil
 		}
 
-		var (
-			isEncrypted bool
-			err         error
-		)
+		var isEncrypted bool
 
-		out[output], isEncrypted, err = f.coderReader(in[input:input+c.in], uint64(i), password)
+		readers := in[input : input+c.in]
+		input += c.in
+
+		out[output], isEncrypted, err = f.coderReader(readers, uint64(i), password)
 		if isEncrypted {
 			hasEncryption = true
 		}
@@ -352,7 +375,6 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 			return nil, 0, hasEncryption, err
 		}
 
-		input += c.in
 		output += c.out
 	}
 
-- 
2.43.0


From 44ec4cbf250500d576d36022565df27f03204722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 29/57] fix: ARM branches beyond 4 GiB could be converted
 wrongly

The instruction pointer wrapping around to zero was mistaken for the start of
the stream.
---
 internal/bra/arm.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/bra/arm.go b/internal/bra/arm.go
index de8676f..ab1f7ee 100644
--- a/internal/bra/arm.go
+++ b/internal/bra/arm.go
@@ -18,10 +18,6 @@ func (c *arm) Convert(b []byte, encoding bool) int {
 		return 0
 	}
 
-	if c.ip == 0 {
-		c.ip = armAlignment
-	}
-
 	var i int
 
 	for i = 0; i < len(b) & ^(armAlignment-1); i += armAlignment {
@@ -48,5 +44,5 @@ func (c *arm) Convert(b []byte, encoding bool) int {
 
 // NewARMReader returns a new ARM io.ReadCloser.
 func NewARMReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
-	return newReader(readers, new(arm))
+	return newReader(readers, &arm{ip: armAlignment})
 }
-- 
2.43.0


From ad7403d5b3a03788de32b9f97bc4dfb8366a9ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 30/57] fix: corrupt PPMd data caused panics

---
 internal/ppmd/reader.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/ppmd/reader.go b/internal/ppmd/reader.go
index fd970c6..d728f5f 100644
--- a/internal/ppmd/reader.go
+++ b/internal/ppmd/reader.go
@@ -14,6 +14,7 @@ var (
 	errAlreadyClosed          = errors.New("ppmd: already closed")
 	errNeedOneReader          = errors.New("ppmd: need exactly one reader")
 	errInsufficientProperties = errors.New("ppmd: not enough properties")
+	errCorrupt                = errors.New("ppmd: corrupt data")
 )
 
 type readCloser struct {
@@ -52,12 +53,27 @@ func (rc *readCloser) Close() error {
 	return nil
 }
 
-func (rc *readCloser) Read(p []byte) (int, error) {
+// decode reads from the model, which can panic on corrupt data. It can't be used
+// any further afterwards.
+func (rc *readCloser) decode(p []byte) (n int, err error) {
+	defer func() {
+		if recover() != nil {
+			rc.e.err = errCorrupt
+		}
+	}()
+
+	return rc.r.Read(p) //nolint:wrapcheck
+}
+
+func (rc *readCloser) Read(p []byte) (n int, err error) {
 	if rc.r == nil {
 		return 0, errAlreadyClosed
 	}
 
-	n, err := rc.r.Read(p)
+	if rc.e.err == nil {
+		n, err = rc.decode(p)
+	}
+
 	if rc.e.err != nil {
 		n, err = 0, rc.e.err
 	}
-- 
2.43.0


From cd590f9b5ff58f524506948c6af3bda9a5ba6df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 31/57] fix: truncated zstd streams were reported as complete

The Zstandard decoder treats a bare io.ErrUnexpectedEOF from its input
at the start of a frame as the regular end of the stream.
---
 struct.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index 500ea0b..516047f 100644
--- a/struct.go
+++ b/struct.go
@@ -24,6 +24,7 @@ var (
 	errMultipleOutputStreams = errors.New("more than one output stream")
 	errNoBoundStream         = errors.New("cannot find bound stream")
 	errNoUnboundStream       = errors.New("expecting one unbound output stream")
+	errUnexpectedEOF         = fmt.Errorf("sevenzip: unexpected end of archive: %w", io.ErrUnexpectedEOF)
 )
 
 // CryptoReadCloser adds a Password method to decompressors.
@@ -200,18 +201,23 @@ func (f *folder) unpackSize() uint64 {
 	return f.size[len(f.size)-1]
 }
 
-// packedReader reads a packed stream and returns io.ErrUnexpectedEOF when the
-// archive ends before the stream does.
+// packedReader reads a packed stream and returns errUnexpectedEOF when the
+// archive ends before the stream does. This wraps io.ErrUnexpectedEOF as some
+// decompressors otherwise mistake that for the regular end of their input.
 type packedReader struct {
 	sr *io.SectionReader
 }
 
 func (r *packedReader) Read(p []byte) (int, error) {
 	n, err := r.sr.Read(p)
-	if err == io.EOF { //nolint:errorlint
+
+	switch err { //nolint:errorlint
+	case io.EOF:
 		if offset, serr := r.sr.Seek(0, io.SeekCurrent); serr != nil || offset < r.sr.Size() {
-			err = io.ErrUnexpectedEOF
+			err = errUnexpectedEOF
 		}
+	case io.ErrUnexpectedEOF:
+		err = errUnexpectedEOF
 	}
 
 	return n, err //nolint:wrapcheck
-- 
2.43.0


From ca8932e8deaf1e1767609b851cc448f8a3321caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 32/57] fix: bzip2 could return wrong data next to a read error

---
 internal/bzip2/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/bzip2/reader.go b/internal/bzip2/reader.go
index 3e82498..9fe91fb 100644
--- a/internal/bzip2/reader.go
+++ b/internal/bzip2/reader.go
@@ -39,7 +39,8 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 
 	n, err := rc.r.Read(p)
 	if err != nil && !errors.Is(err, io.EOF) {
-		err = fmt.Errorf("bzip2: error reading: %w", err)
+		// The block might be incomplete so none of this can be trusted
+		n, err = 0, fmt.Errorf("bzip2: error reading: %w", err)
 	}
 
 	return n, err
-- 
2.43.0


From 0dab6379cb06d6fe5b3850a6d582dbf9e36459cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 33/57] fix: damaged brotli stream broke other streams

The input buffered by a pooled reader and its state after an error
survived the reset and corrupted the next stream it was used for.
---
 internal/brotli/reader.go | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/internal/brotli/reader.go b/internal/brotli/reader.go
index c169527..2540e3d 100644
--- a/internal/brotli/reader.go
+++ b/internal/brotli/reader.go
@@ -7,7 +7,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"sync"
 
 	"github.com/andybalholm/brotli"
 	"github.com/bodgit/plumbing"
@@ -25,9 +24,6 @@ const (
 )
 
 var (
-	//nolint:gochecknoglobals
-	brotliReaderPool sync.Pool
-
 	errAlreadyClosed = errors.New("brotli: already closed")
 	errNeedOneReader = errors.New("brotli: need exactly one reader")
 )
@@ -50,7 +46,6 @@ func (rc *readCloser) Close() error {
 		return fmt.Errorf("brotli: error closing: %w", err)
 	}
 
-	brotliReaderPool.Put(rc.r)
 	rc.c, rc.r = nil, nil
 
 	return nil
@@ -98,15 +93,10 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		reader = plumbing.MultiReadCloser(io.NopCloser(b), readers[0])
 	}
 
-	r, ok := brotliReaderPool.Get().(*brotli.Reader)
-	if ok {
-		_ = r.Reset(reader)
-	} else {
-		r = brotli.NewReader(reader)
-	}
-
+	// Resetting a reader doesn't discard any input that it has buffered so
+	// unlike the other decompressors these can't be reused
 	return &readCloser{
 		c: readers[0],
-		r: r,
+		r: brotli.NewReader(reader),
 	}, nil
 }
-- 
2.43.0


From 801ab44c5d87d353ca4933be31ad925016aa8d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 34/57] fix: brotli ignored a truncated input and read past the
 error

---
 internal/brotli/reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/brotli/reader.go b/internal/brotli/reader.go
index 2540e3d..fe8c97b 100644
--- a/internal/brotli/reader.go
+++ b/internal/brotli/reader.go
@@ -77,8 +77,9 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 	// the data which will confuse a pure Brotli implementation. Read it
 	// but keep a copy so we can add it back if it doesn't look right
 	if err := binary.Read(io.TeeReader(readers[0], b), binary.LittleEndian, hr); err != nil {
-		// A stream shorter than the frame can only be pure Brotli
-		if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
+		// A stream shorter than the frame can only be pure Brotli. A wrapped
+		// error is one from the underlying reader instead
+		if err != io.EOF && err != io.ErrUnexpectedEOF { //nolint:errorlint
 			return nil, fmt.Errorf("brotli: error reading frame: %w", err)
 		}
 	}
-- 
2.43.0


From b5cacd0732f7d7a9fab7a40d782715578927d07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 35/57] fix: decoders were read again after an error

The LZMA decoder returns wrong data when that happens, which the Brotli
decoder does when the error comes alongside some data.
---
 struct.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 516047f..3cad368 100644
--- a/struct.go
+++ b/struct.go
@@ -124,7 +124,25 @@ func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password str
 		}
 	}
 
-	return plumbing.LimitReadCloser(cr, int64(f.size[coder])), ok, nil //nolint:gosec
+	return plumbing.LimitReadCloser(&coderReadCloser{ReadCloser: cr}, int64(f.size[coder])), ok, nil //nolint:gosec
+}
+
+// coderReadCloser keeps returning the first error. Not every decompressor can
+// be read again after one, and not every one stops reading its input on an
+// error that's returned alongside some data.
+type coderReadCloser struct {
+	io.ReadCloser
+	err error
+}
+
+func (rc *coderReadCloser) Read(p []byte) (n int, err error) {
+	if rc.err != nil {
+		return 0, rc.err
+	}
+
+	n, rc.err = rc.ReadCloser.Read(p)
+
+	return n, rc.err //nolint:wrapcheck
 }
 
 type folderReadCloser struct {
-- 
2.43.0


From 7a9d62f4d254b4734bc89c64235d1ce2dc3b8d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 36/57] fix: archives without a header were rejected

That's how 7-Zip stores an archive without any entries.
---
 reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reader.go b/reader.go
index e1d923c..1b96785 100644
--- a/reader.go
+++ b/reader.go
@@ -473,6 +473,11 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 	z.start += off
 	z.end += off
 
+	// An archive without any entries doesn't need to have a header
+	if start.Size == 0 && start.CRC == 0 {
+		return nil
+	}
+
 	h.Reset()
 
 	// Bound bufio.Reader otherwise it can read trailing garbage which screws up the CRC check
-- 
2.43.0


From 097fe13645ce8ba3f297e20b63aad86cb458d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:49 +0000
Subject: [PATCH 37/57] fix: PPMd hid the cause of a read error

---
 internal/ppmd/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ppmd/reader.go b/internal/ppmd/reader.go
index d728f5f..a7029cc 100644
--- a/internal/ppmd/reader.go
+++ b/internal/ppmd/reader.go
@@ -57,7 +57,7 @@ func (rc *readCloser) Close() error {
 // any further afterwards.
 func (rc *readCloser) decode(p []byte) (n int, err error) {
 	defer func() {
-		if recover() != nil {
+		if recover() != nil && rc.e.err == nil {
 			rc.e.err = errCorrupt
 		}
 	}()
-- 
2.43.0


From 4ca53997c4e8c8b93aa6ecf6e9c79b6e29d7d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 38/57] fix: bzip2 hid the cause of a read error

---
 struct.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index 3cad368..f01732e 100644
--- a/struct.go
+++ b/struct.go
@@ -221,12 +221,19 @@ func (f *folder) unpackSize() uint64 {
 
 // packedReader reads a packed stream and returns errUnexpectedEOF when the
 // archive ends before the stream does. This wraps io.ErrUnexpectedEOF as some
-// decompressors otherwise mistake that for the regular end of their input.
+// decompressors otherwise mistake that for the regular end of their input. An
+// error is returned again by all further reads as some decompressors only
+// notice the last one.
 type packedReader struct {
-	sr *io.SectionReader
+	sr  *io.SectionReader
+	err error
 }
 
 func (r *packedReader) Read(p []byte) (int, error) {
+	if r.err != nil {
+		return 0, r.err
+	}
+
 	n, err := r.sr.Read(p)
 
 	switch err { //nolint:errorlint
@@ -238,6 +245,8 @@ func (r *packedReader) Read(p []byte) (int, error) {
 		err = errUnexpectedEOF
 	}
 
+	r.err = err
+
 	return n, err //nolint:wrapcheck
 }
 
@@ -350,7 +359,9 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 
 	for i, input := range f.packed {
 		size := int64(si.packInfo.size[packedOffset+i]) //nolint:gosec
-		in[input] = util.NopCloser(bufio.NewReader(&packedReader{io.NewSectionReader(r, si.folderOffset(folder)+offset, size)}))
+		in[input] = util.NopCloser(bufio.NewReader(&packedReader{
+			sr: io.NewSectionReader(r, si.folderOffset(folder)+offset, size),
+		}))
 		offset += size
 	}
 
-- 
2.43.0


From bd669d356f790b8f9b800ddd234387de17aa62c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:03 +0000
Subject: [PATCH 39/57] fix: empty reads of a registered decompressor broke
 other decoders

---
 struct.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index f01732e..fbc2a88 100644
--- a/struct.go
+++ b/struct.go
@@ -129,20 +129,30 @@ func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password str
 
 // coderReadCloser keeps returning the first error. Not every decompressor can
 // be read again after one, and not every one stops reading its input on an
-// error that's returned alongside some data.
+// error that's returned alongside some data. It also repeats reads that return
+// nothing at all, which some of the decompressors take for an error or the end.
 type coderReadCloser struct {
 	io.ReadCloser
 	err error
 }
 
+const maxEmptyReads = 100
+
 func (rc *coderReadCloser) Read(p []byte) (n int, err error) {
 	if rc.err != nil {
 		return 0, rc.err
 	}
 
-	n, rc.err = rc.ReadCloser.Read(p)
+	for range maxEmptyReads {
+		n, rc.err = rc.ReadCloser.Read(p)
+		if n != 0 || rc.err != nil || len(p) == 0 {
+			return n, rc.err //nolint:wrapcheck
+		}
+	}
+
+	rc.err = io.ErrNoProgress
 
-	return n, rc.err //nolint:wrapcheck
+	return 0, rc.err
 }
 
 type folderReadCloser struct {
-- 
2.43.0


From 1de574e9b1721d1da4c95623dd5855d6e6cc6317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 40/57] fix: opening archives of many streams took quadratic
 time

---
 struct.go | 43 +++++++++++--------------------------------
 types.go  |  7 ++++++-
 2 files changed, 17 insertions(+), 33 deletions(-)

diff --git a/struct.go b/struct.go
index fbc2a88..41a7449 100644
--- a/struct.go
+++ b/struct.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	iofs "io/fs"
 	"path"
+	"sort"
 	"time"
 
 	"github.com/bodgit/plumbing"
@@ -49,6 +50,7 @@ type packInfo struct {
 	position uint64
 	streams  uint64
 	size     []uint64
+	offset   []uint64 // of each stream
 	digest   []uint32
 }
 
@@ -65,6 +67,7 @@ type bindPair struct {
 type folder struct {
 	in, out       uint64
 	packedStreams uint64
+	firstPacked   int
 	coder         []*coder
 	bindPair      []*bindPair
 	size          []uint64
@@ -272,6 +275,7 @@ func (u *unpackInfo) hasDigest(folder int) bool {
 
 type subStreamsInfo struct {
 	streams []uint64
+	total   []uint64 // streams of each folder and of those in front of it
 	size    []uint64
 	digest  []uint32
 }
@@ -315,14 +319,10 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 		// There's exactly one stream per folder
 		folder = file
 	} else {
-		total := uint64(0)
-
-		for folder, streams = range si.subStreamsInfo.streams {
-			total += streams
-			if uint64(file) < total { //nolint:gosec
-				break
-			}
-		}
+		folder = sort.Search(len(si.subStreamsInfo.total)-1, func(i int) bool {
+			return uint64(file) < si.subStreamsInfo.total[i] //nolint:gosec
+		})
+		streams = si.subStreamsInfo.streams[folder]
 
 		if len(si.subStreamsInfo.digest) > 0 {
 			crc = si.subStreamsInfo.digest[file]
@@ -340,39 +340,18 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 	return folder, si.subStreamsInfo.size[file], crc
 }
 
-func (si *streamsInfo) folderOffset(folder int) int64 {
-	offset := uint64(0)
-
-	for i, k := 0, uint64(0); i < folder; i++ {
-		for j := k; j < k+si.unpackInfo.folder[i].packedStreams; j++ {
-			offset += si.packInfo.size[j]
-		}
-
-		k += si.unpackInfo.folder[i].packedStreams
-	}
-
-	return int64(si.packInfo.position + offset) //nolint:gosec
-}
-
 //nolint:cyclop,funlen,lll
 func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string) (_ *folderReadCloser, _ uint32, _ bool, err error) {
 	f := si.unpackInfo.folder[folder]
 	in := make([]io.ReadCloser, f.in)
 	out := make([]io.ReadCloser, f.out)
 
-	packedOffset := 0
-	for i := range folder {
-		packedOffset += len(si.unpackInfo.folder[i].packed)
-	}
-
-	offset := int64(0)
-
 	for i, input := range f.packed {
-		size := int64(si.packInfo.size[packedOffset+i]) //nolint:gosec
+		offset := int64(si.packInfo.offset[f.firstPacked+i]) //nolint:gosec
+		size := int64(si.packInfo.size[f.firstPacked+i])     //nolint:gosec
 		in[input] = util.NopCloser(bufio.NewReader(&packedReader{
-			sr: io.NewSectionReader(r, si.folderOffset(folder)+offset, size),
+			sr: io.NewSectionReader(r, offset, size),
 		}))
-		offset += size
 	}
 
 	var (
diff --git a/types.go b/types.go
index 37aebf5..7648a09 100644
--- a/types.go
+++ b/types.go
@@ -566,6 +566,7 @@ func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 
 	// Count the files in each stream
 	files := uint64(0)
+	s.total = make([]uint64, 0, len(s.streams))
 
 	for _, v := range s.streams {
 		// Without sizes there can't be more than one
@@ -578,6 +579,7 @@ func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 		}
 
 		files += v
+		s.total = append(s.total, files)
 	}
 
 	if err := checkUint64(files, false); err != nil {
@@ -636,7 +638,7 @@ func readSubStreamsInfo(r util.Reader, u *unpackInfo) (*subStreamsInfo, error) {
 }
 
 // checkPackedStreams checks that all of the packed streams the folders refer to
-// exist.
+// exist and works out where they are.
 func (si *streamsInfo) checkPackedStreams() error {
 	if si.unpackInfo == nil {
 		return nil
@@ -644,6 +646,7 @@ func (si *streamsInfo) checkPackedStreams() error {
 
 	streams := uint64(0)
 	for _, f := range si.unpackInfo.folder {
+		f.firstPacked = int(streams) //nolint:gosec
 		streams += f.packedStreams
 	}
 
@@ -652,12 +655,14 @@ func (si *streamsInfo) checkPackedStreams() error {
 	}
 
 	end := si.packInfo.position
+	si.packInfo.offset = make([]uint64, 0, len(si.packInfo.size))
 
 	for _, size := range si.packInfo.size {
 		if end > math.MaxInt64 || size > math.MaxInt64 {
 			return errInvalidPackedStream
 		}
 
+		si.packInfo.offset = append(si.packInfo.offset, end)
 		end += size
 	}
 
-- 
2.43.0


From a718a15bb00f86cce0c54fbb077eedef42bc6076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:08 +0000
Subject: [PATCH 41/57] fix: failing to close a packed header's decoder wasn't
 a ReadError

---
 reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 1b96785..1a262c8 100644
--- a/reader.go
+++ b/reader.go
@@ -539,7 +539,12 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 		}
 
 		defer func() {
-			err = errors.Join(err, fr.Close())
+			if cerr := fr.Close(); cerr != nil {
+				err = errors.Join(err, &ReadError{
+					Encrypted: fr.hasEncryption,
+					Err:       cerr,
+				})
+			}
 		}()
 
 		if header, err = readEncodedHeader(util.ByteReadCloser(fr)); err != nil {
-- 
2.43.0


From 46823142bfe4a6bd55de68c702b543ad8f481c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:04 +0000
Subject: [PATCH 42/57] fix: a handle whose Close failed kept its closed or
 pooled reader

---
 reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 1a262c8..fc5bbf9 100644
--- a/reader.go
+++ b/reader.go
@@ -139,6 +139,9 @@ func (fr *fileReader) Close() error {
 		return nil
 	}
 
+	// Even when there's an error the reader is closed or with the pool
+	defer func() { fr.rc = nil }()
+
 	offset, err := fr.rc.Seek(0, io.SeekCurrent)
 	if err != nil {
 		return fmt.Errorf("sevenzip: error seeking current position: %w", err)
@@ -155,8 +158,6 @@ func (fr *fileReader) Close() error {
 		}
 	}
 
-	fr.rc = nil
-
 	return nil
 }
 
-- 
2.43.0


From 8a2d230fb26540c90914170674d7dc8e15b91f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 43/57] fix: brotli streams of several frames were cut after
 the first one

---
 internal/brotli/reader.go | 55 +++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/internal/brotli/reader.go b/internal/brotli/reader.go
index fe8c97b..df0735d 100644
--- a/internal/brotli/reader.go
+++ b/internal/brotli/reader.go
@@ -14,7 +14,7 @@ import (
 
 type readCloser struct {
 	c io.Closer
-	r *brotli.Reader
+	r io.Reader
 }
 
 const (
@@ -26,6 +26,7 @@ const (
 var (
 	errAlreadyClosed = errors.New("brotli: already closed")
 	errNeedOneReader = errors.New("brotli: need exactly one reader")
+	errInvalidFrame  = errors.New("brotli: invalid frame")
 )
 
 // This isn't part of the Brotli format but is prepended by the 7-zip implementation.
@@ -37,6 +38,41 @@ type headerFrame struct {
 	UncompressedSize uint16 // * 64 KB
 }
 
+func (hr *headerFrame) valid() bool {
+	return hr.FrameMagic == frameMagic && hr.FrameSize == frameSize && hr.BrotliMagic == brotliMagic
+}
+
+// framesReader reads the frames one after the other. There's more than one of
+// them when the stream has been compressed by several threads.
+type framesReader struct {
+	rc io.Reader
+	r  io.Reader
+}
+
+func (fr *framesReader) frame(hr *headerFrame) {
+	fr.r = brotli.NewReader(io.LimitReader(fr.rc, int64(hr.CompressedSize)))
+}
+
+func (fr *framesReader) Read(p []byte) (int, error) {
+	for {
+		n, err := fr.r.Read(p)
+		if err != io.EOF { //nolint:errorlint
+			return n, err //nolint:wrapcheck
+		}
+
+		hr := new(headerFrame)
+		if err := binary.Read(fr.rc, binary.LittleEndian, hr); err != nil {
+			return 0, err //nolint:wrapcheck
+		}
+
+		if !hr.valid() {
+			return 0, errInvalidFrame
+		}
+
+		fr.frame(hr)
+	}
+}
+
 func (rc *readCloser) Close() error {
 	if rc.c == nil || rc.r == nil {
 		return errAlreadyClosed
@@ -84,20 +120,23 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		}
 	}
 
-	var reader io.ReadCloser
+	var reader io.Reader
+
+	// Resetting a reader doesn't discard any input that it has buffered so
+	// unlike the other decompressors these can't be reused
 
 	// If the header looks right, continue reading from that point
 	// onwards, otherwise prepend it again and hope for the best
-	if hr.FrameMagic == frameMagic && hr.FrameSize == frameSize && hr.BrotliMagic == brotliMagic {
-		reader = readers[0]
+	if hr.valid() {
+		fr := &framesReader{rc: readers[0]}
+		fr.frame(hr)
+		reader = fr
 	} else {
-		reader = plumbing.MultiReadCloser(io.NopCloser(b), readers[0])
+		reader = brotli.NewReader(plumbing.MultiReadCloser(io.NopCloser(b), readers[0]))
 	}
 
-	// Resetting a reader doesn't discard any input that it has buffered so
-	// unlike the other decompressors these can't be reused
 	return &readCloser{
 		c: readers[0],
-		r: brotli.NewReader(reader),
+		r: reader,
 	}, nil
 }
-- 
2.43.0


From 69a0b1eaf10e8d248ec7f89d6887cf317e4443e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 44/57] fix: the offset of the ARM64 filter was ignored

---
 internal/bra/arm64.go  | 19 ++++++++++++++++---
 internal/bra/reader.go |  5 +++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/internal/bra/arm64.go b/internal/bra/arm64.go
index 128155c..0116b78 100644
--- a/internal/bra/arm64.go
+++ b/internal/bra/arm64.go
@@ -72,7 +72,20 @@ func (c *arm64) Convert(b []byte, encoding bool) int {
 	return i
 }
 
-// NewARM64Reader returns a new ARM64 io.ReadCloser.
-func NewARM64Reader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
-	return newReader(readers, new(arm64))
+// NewARM64Reader returns a new ARM64 io.ReadCloser. The optional properties are
+// the offset that's added to the position within the stream.
+func NewARM64Reader(p []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, error) {
+	conv := new(arm64)
+
+	if len(p) > 0 {
+		if len(p) != 4 {
+			return nil, errInvalidProperties
+		}
+
+		if conv.ip = binary.LittleEndian.Uint32(p); conv.ip%arm64Alignment != 0 {
+			return nil, errInvalidProperties
+		}
+	}
+
+	return newReader(readers, conv)
 }
diff --git a/internal/bra/reader.go b/internal/bra/reader.go
index 0cbee98..4fe898d 100644
--- a/internal/bra/reader.go
+++ b/internal/bra/reader.go
@@ -15,8 +15,9 @@ type readCloser struct {
 }
 
 var (
-	errAlreadyClosed = errors.New("bra: already closed")
-	errNeedOneReader = errors.New("bra: need exactly one reader")
+	errAlreadyClosed     = errors.New("bra: already closed")
+	errNeedOneReader     = errors.New("bra: need exactly one reader")
+	errInvalidProperties = errors.New("bra: invalid properties")
 )
 
 func (rc *readCloser) Close() error {
-- 
2.43.0


From f0e4b5f94580d1d1bb5040fa535dbfe4051caeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 45/57] fix: directories without attributes were listed as
 empty files

---
 struct.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index 41a7449..7b7f4b3 100644
--- a/struct.go
+++ b/struct.go
@@ -491,10 +491,14 @@ const (
 
 // Mode returns the permission and mode bits for the FileHeader.
 func (h *FileHeader) Mode() (mode iofs.FileMode) {
-	// Prefer the POSIX attributes if they're present
-	if h.Attributes&0xf0000000 != 0 {
+	switch {
+	case h.Attributes&0xf0000000 != 0:
+		// Prefer the POSIX attributes if they're present
 		mode = unixModeToFileMode(h.Attributes >> 16)
-	} else {
+	case h.Attributes == 0 && h.isEmptyStream && !h.isEmptyFile:
+		// Without any attributes that's what makes it a directory
+		mode = msdosModeToFileMode(msdosDir)
+	default:
 		mode = msdosModeToFileMode(h.Attributes)
 	}
 
-- 
2.43.0


From 37d966294d2e655b50bda91d3e71a68f40b08907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 46/57] fix: BCJ2 kept ever more of a stream without branches
 in memory

---
 internal/bcj2/reader.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/bcj2/reader.go b/internal/bcj2/reader.go
index 4cc99b4..dfc80ed 100644
--- a/internal/bcj2/reader.go
+++ b/internal/bcj2/reader.go
@@ -34,6 +34,7 @@ const (
 	bitModelTotal        uint = 1 << numbitModelTotalBits
 	numTopBits                = 24
 	topValue             uint = 1 << numTopBits
+	bufferSize                = 1 << 16
 )
 
 var (
@@ -74,7 +75,7 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		nrange: 0xffffffff,
 		buf:    new(bytes.Buffer),
 	}
-	rc.buf.Grow(1 << 16)
+	rc.buf.Grow(bufferSize)
 
 	b := make([]byte, 5)
 	if _, err := io.ReadFull(rc.rd, b); err != nil {
@@ -115,8 +116,10 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 		return 0, errAlreadyClosed
 	}
 
-	if err := rc.read(); err != nil && !errors.Is(err, io.EOF) {
-		return 0, err
+	if rc.buf.Len() == 0 {
+		if err := rc.read(); err != nil && !errors.Is(err, io.EOF) {
+			return 0, err
+		}
 	}
 
 	n, err := rc.buf.Read(p)
@@ -191,7 +194,7 @@ func (rc *readCloser) read() error {
 
 		rc.previous = b
 
-		if rc.buf.Len() == rc.buf.Cap() {
+		if rc.buf.Len() >= bufferSize {
 			return nil
 		}
 	}
-- 
2.43.0


From df42fa8c9bcf3f91a7bfa8601a94a6ec03ceb408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 47/57] fix: Zstandard lost the cause of a read error in a
 skippable frame

---
 internal/zstd/reader.go | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/internal/zstd/reader.go b/internal/zstd/reader.go
index bbef7e0..22f71ea 100644
--- a/internal/zstd/reader.go
+++ b/internal/zstd/reader.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"runtime"
 	"sync"
+	"sync/atomic"
 
 	"github.com/klauspost/compress/zstd"
 )
@@ -14,6 +15,24 @@ import (
 type readCloser struct {
 	c io.Closer
 	r *zstd.Decoder
+	e *errorReader
+}
+
+// errorReader remembers an error other than io.EOF as the decoder replaces it
+// when it happens within a skippable frame. The decoder reads ahead in the
+// background.
+type errorReader struct {
+	r   io.Reader
+	err atomic.Pointer[error]
+}
+
+func (er *errorReader) Read(p []byte) (int, error) {
+	n, err := er.r.Read(p)
+	if err != nil && !errors.Is(err, io.EOF) {
+		er.err.Store(&err)
+	}
+
+	return n, err //nolint:wrapcheck
 }
 
 var (
@@ -40,7 +59,7 @@ func (rc *readCloser) Close() error {
 	}
 
 	zstdReaderPool.Put(rc.r)
-	rc.c, rc.r = nil, nil
+	rc.c, rc.r, rc.e = nil, nil, nil
 
 	return nil
 }
@@ -51,6 +70,12 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	}
 
 	n, err := rc.r.Read(p)
+	if errors.Is(err, io.ErrUnexpectedEOF) {
+		if cause := rc.e.err.Load(); cause != nil {
+			err = *cause
+		}
+	}
+
 	if err != nil && !errors.Is(err, io.EOF) {
 		err = fmt.Errorf("zstd: error reading: %w", err)
 	}
@@ -66,13 +91,15 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 
 	var err error
 
+	er := &errorReader{r: readers[0]}
+
 	r, ok := zstdReaderPool.Get().(*zstd.Decoder)
 	if ok {
-		if err = r.Reset(readers[0]); err != nil {
+		if err = r.Reset(er); err != nil {
 			return nil, fmt.Errorf("zstd: error resetting: %w", err)
 		}
 	} else {
-		if r, err = zstd.NewReader(readers[0]); err != nil {
+		if r, err = zstd.NewReader(er); err != nil {
 			return nil, fmt.Errorf("zstd: error creating reader: %w", err)
 		}
 
@@ -82,5 +109,6 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 	return &readCloser{
 		c: readers[0],
 		r: r,
+		e: er,
 	}, nil
 }
-- 
2.43.0


From 63325c12967efcce355ed8cac34184be70d21946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 48/57] fix: names of more than 64 KiB were rejected

---
 types.go | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/types.go b/types.go
index 7648a09..d948a90 100644
--- a/types.go
+++ b/types.go
@@ -2,7 +2,6 @@ package sevenzip
 
 import (
 	"bufio"
-	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -10,6 +9,7 @@ import (
 	"math"
 	"math/bits"
 	"slices"
+	"strings"
 	"time"
 
 	"github.com/bodgit/sevenzip/internal/util"
@@ -786,22 +786,6 @@ func readTimes(r util.Reader, count uint64) ([]time.Time, error) {
 	return times, nil
 }
 
-func splitNull(data []byte, atEOF bool) (advance int, token []byte, err error) {
-	if atEOF && len(data) == 0 {
-		return 0, nil, nil
-	}
-
-	if i := bytes.IndexRune(data, rune(0)); i >= 0 {
-		return i + 1, data[0:i], nil
-	}
-
-	if atEOF {
-		return len(data), data, nil
-	}
-
-	return
-}
-
 func readNames(r util.Reader, count, length uint64) ([]string, error) {
 	if err := checkUint64(count, true); err != nil {
 		return nil, err
@@ -827,17 +811,22 @@ func readNames(r util.Reader, count, length uint64) ([]string, error) {
 	}
 
 	utf16le := unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)
-	scanner := bufio.NewScanner(transform.NewReader(io.LimitReader(r, int64(length-1)), utf16le.NewDecoder())) //nolint:gosec,lll
-	scanner.Split(splitNull)
+	br := bufio.NewReader(transform.NewReader(io.LimitReader(r, int64(length-1)), utf16le.NewDecoder())) //nolint:gosec,lll
 
 	names, i := make([]string, 0, min(count, 1024)), uint64(0)
-	for scanner.Scan() {
-		names = append(names, scanner.Text())
-		i++
-	}
 
-	if err = scanner.Err(); err != nil {
-		return nil, fmt.Errorf("readNames: Scan error: %w", err)
+	for {
+		name, err := br.ReadString(0)
+		if err != nil && err != io.EOF { //nolint:errorlint
+			return nil, fmt.Errorf("readNames: ReadString error: %w", err)
+		}
+
+		if name == "" {
+			break
+		}
+
+		names = append(names, strings.TrimSuffix(name, "\x00"))
+		i++
 	}
 
 	if i != count {
-- 
2.43.0


From 4039d076dbda06c4a76dbd931ff3efe32268bda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:40 +0000
Subject: [PATCH 49/57] fix: volume sets with an empty volume couldn't be read

---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index fc5bbf9..eb129e1 100644
--- a/reader.go
+++ b/reader.go
@@ -12,6 +12,7 @@ import (
 	iofs "io/fs"
 	"path"
 	"path/filepath"
+	"slices"
 	"sort"
 	"strings"
 	"sync"
@@ -270,6 +271,9 @@ func openReader(fs afero.Fs, name string) (io.ReaderAt, int64, []afero.File, err
 			sr = append(sr, io.NewSectionReader(f, 0, info.Size()))
 		}
 
+		// Reading stops at an empty volume
+		sr = slices.DeleteFunc(sr, func(v readerutil.SizeReaderAt) bool { return v.Size() == 0 })
+
 		mr := readerutil.NewMultiReaderAt(sr...)
 		reader, size = mr, mr.Size()
 	}
-- 
2.43.0


From 8908a1e339e9f003460f441af3a4684a51be1b66 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 50/57] fix: don't take an error that wraps io.EOF for the end
 of the data

A storage error that wraps io.EOF, as those of closed network connections
do, was taken for the regular end of a packed stream by some of the
decompressors, which resulted in truncated or wrong contents, and for the
end of the archive while searching for the signature.
---
 reader.go |  3 ++-
 struct.go | 24 +++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index eb129e1..ee3fd78 100644
--- a/reader.go
+++ b/reader.go
@@ -401,7 +401,8 @@ func findSignature(r io.ReaderAt, search []byte) ([]int64, error) {
 		}
 
 		if err != nil {
-			if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
+			// An error that wraps one of these isn't the end of the file
+			if err == io.EOF || err == io.ErrUnexpectedEOF { //nolint:errorlint
 				break
 			}
 
diff --git a/struct.go b/struct.go
index 7b7f4b3..a7a0f91 100644
--- a/struct.go
+++ b/struct.go
@@ -236,7 +236,7 @@ func (f *folder) unpackSize() uint64 {
 // archive ends before the stream does. This wraps io.ErrUnexpectedEOF as some
 // decompressors otherwise mistake that for the regular end of their input. An
 // error is returned again by all further reads as some decompressors only
-// notice the last one.
+// notice the last one. An error that wraps io.EOF isn't the end of the stream.
 type packedReader struct {
 	sr  *io.SectionReader
 	err error
@@ -256,6 +256,10 @@ func (r *packedReader) Read(p []byte) (int, error) {
 		}
 	case io.ErrUnexpectedEOF:
 		err = errUnexpectedEOF
+	default:
+		if errors.Is(err, io.EOF) {
+			err = &notEOFError{err}
+		}
 	}
 
 	r.err = err
@@ -263,6 +267,24 @@ func (r *packedReader) Read(p []byte) (int, error) {
 	return n, err //nolint:wrapcheck
 }
 
+// notEOFError is an error which isn't io.EOF, even when the underlying one
+// wraps it, but still anything else that one is.
+type notEOFError struct {
+	err error
+}
+
+func (e *notEOFError) Error() string {
+	return e.err.Error()
+}
+
+func (e *notEOFError) Is(target error) bool {
+	return target != io.EOF && errors.Is(e.err, target) //nolint:errorlint
+}
+
+func (e *notEOFError) As(target any) bool {
+	return errors.As(e.err, target)
+}
+
 type unpackInfo struct {
 	folder  []*folder
 	digest  []uint32
-- 
2.43.0


From 6b05264683850fcc43ebe0a2388c6556de0e2b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:08 +0000
Subject: [PATCH 51/57] fix: don't lose a decompressor's error that wraps
 io.EOF

When a registered decompressor feeds another one and fails with an error
that wraps io.EOF the other one took that for the regular end, delivering
truncated or wrong contents, and the error itself was always replaced with
io.ErrUnexpectedEOF.
---
 struct.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index a7a0f91..f474b61 100644
--- a/struct.go
+++ b/struct.go
@@ -127,15 +127,19 @@ func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password str
 		}
 	}
 
-	return plumbing.LimitReadCloser(&coderReadCloser{ReadCloser: cr}, int64(f.size[coder])), ok, nil //nolint:gosec
+	size := int64(f.size[coder]) //nolint:gosec
+
+	return plumbing.LimitReadCloser(&coderReadCloser{ReadCloser: cr, n: size}, size), ok, nil
 }
 
 // coderReadCloser keeps returning the first error. Not every decompressor can
 // be read again after one, and not every one stops reading its input on an
 // error that's returned alongside some data. It also repeats reads that return
-// nothing at all, which some of the decompressors take for an error or the end.
+// nothing at all, which some of the decompressors take for an error or the end,
+// and doesn't let them take an error that just wraps io.EOF for the end either.
 type coderReadCloser struct {
 	io.ReadCloser
+	n   int64 // bytes left
 	err error
 }
 
@@ -148,6 +152,12 @@ func (rc *coderReadCloser) Read(p []byte) (n int, err error) {
 
 	for range maxEmptyReads {
 		n, rc.err = rc.ReadCloser.Read(p)
+		rc.n -= int64(n)
+
+		if rc.err != io.EOF && errors.Is(rc.err, io.EOF) && rc.n > 0 { //nolint:errorlint
+			rc.err = &notEOFError{rc.err}
+		}
+
 		if n != 0 || rc.err != nil || len(p) == 0 {
 			return n, rc.err //nolint:wrapcheck
 		}
-- 
2.43.0


From fac04e77d3286c52dfeb7b95bf4c20f2b1bf79f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:38 +0000
Subject: [PATCH 52/57] fix: coders that couldn't be started lacked the
 encryption hint

---
 register.go |  2 +-
 struct.go   | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/register.go b/register.go
index 30fb465..24e5d69 100644
--- a/register.go
+++ b/register.go
@@ -69,7 +69,7 @@ func init() {
 	// LZ4
 	RegisterDecompressor([]byte{0x04, 0xf7, 0x11, 0x04}, Decompressor(lz4.NewReader))
 	// AES-CBC-256 & SHA-256
-	RegisterDecompressor([]byte{0x06, 0xf1, 0x07, 0x01}, Decompressor(aes7z.NewReader))
+	RegisterDecompressor(methodAES, Decompressor(aes7z.NewReader))
 	// ARM64
 	RegisterDecompressor([]byte{0x0a}, Decompressor(bra.NewARM64Reader))
 	// LZMA2
diff --git a/struct.go b/struct.go
index f474b61..9f4be6b 100644
--- a/struct.go
+++ b/struct.go
@@ -2,6 +2,7 @@ package sevenzip
 
 import (
 	"bufio"
+	"bytes"
 	"errors"
 	"fmt"
 	"hash"
@@ -9,6 +10,7 @@ import (
 	"io"
 	iofs "io/fs"
 	"path"
+	"slices"
 	"sort"
 	"time"
 
@@ -28,6 +30,9 @@ var (
 	errUnexpectedEOF         = fmt.Errorf("sevenzip: unexpected end of archive: %w", io.ErrUnexpectedEOF)
 )
 
+//nolint:gochecknoglobals
+var methodAES = []byte{0x06, 0xf1, 0x07, 0x01}
+
 // CryptoReadCloser adds a Password method to decompressors.
 type CryptoReadCloser interface {
 	Password(password string) error
@@ -94,6 +99,11 @@ func (f *folder) findOutBindPair(i uint64) *bindPair {
 	return nil
 }
 
+// isEncrypted reports if any of the coders is the AES one.
+func (f *folder) isEncrypted() bool {
+	return slices.ContainsFunc(f.coder, func(c *coder) bool { return bytes.Equal(c.id, methodAES) })
+}
+
 func closeReaders(readers []io.ReadCloser) {
 	for _, r := range readers {
 		if r != nil {
@@ -386,10 +396,10 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 		}))
 	}
 
-	var (
-		hasEncryption bool
-		input, output uint64
-	)
+	// Coders which can't be started don't tell
+	hasEncryption := f.isEncrypted()
+
+	var input, output uint64
 
 	// On error close all of the readers that aren't owned by another one
 	defer func() {
-- 
2.43.0


From ccba6b11a362924959f47523524b44f2644a2e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:36 +0000
Subject: [PATCH 53/57] fix: padding of more than 2^63 bytes was taken for none

---
 types.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/types.go b/types.go
index d948a90..e4d3eba 100644
--- a/types.go
+++ b/types.go
@@ -1014,6 +1014,11 @@ func readFilesInfo(r util.Reader, streams uint64) (*filesInfo, error) {
 		case idStartPos:
 			return nil, errors.New("sevenzip: TODO idStartPos") //nolint:err113
 		case idDummy:
+			// Copying a negative number of bytes would succeed
+			if length > math.MaxInt64 {
+				return nil, errUint64TooLarge
+			}
+
 			if _, err := io.CopyN(io.Discard, r, int64(length)); err != nil { //nolint:gosec
 				return nil, fmt.Errorf("readFilesInfo: CopyN error: %w", err)
 			}
-- 
2.43.0


From f22b1dcb84a03898f8a1fcba91ab0b3189a78f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 54/57] fix: deep names took quadratic time in the file system
 view

---
 reader.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index ee3fd78..ed0eba8 100644
--- a/reader.go
+++ b/reader.go
@@ -745,7 +745,19 @@ func (z *Reader) initFileList() {
 				continue
 			}
 
-			for dir := path.Dir(name); dir != "."; dir = path.Dir(dir) {
+			for dir := name; ; {
+				idx := strings.LastIndexByte(dir, '/')
+				if idx < 0 {
+					break
+				}
+
+				dir = dir[:idx]
+
+				// The directories above have been seen as well
+				if _, ok := dirs[dir]; ok {
+					break
+				}
+
 				dirs[dir] = struct{}{}
 			}
 
-- 
2.43.0


From bd9b36745eeac80161eec95ef61a5ef7471f53da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:20 +0000
Subject: [PATCH 55/57] fix: volumes were looked for by the name as given, the
 first one by the clean one

---
 reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index ed0eba8..b0005ed 100644
--- a/reader.go
+++ b/reader.go
@@ -217,7 +217,10 @@ func (f *File) Open() (io.ReadCloser, error) {
 }
 
 func openReader(fs afero.Fs, name string) (io.ReaderAt, int64, []afero.File, error) {
-	f, err := fs.Open(filepath.Clean(name))
+	// All of the volumes need to come from the same directory
+	name = filepath.Clean(name)
+
+	f, err := fs.Open(name)
 	if err != nil {
 		return nil, 0, nil, fmt.Errorf("sevenzip: error opening: %w", err)
 	}
-- 
2.43.0


From 66051a7780cd61c107a287a48d1d5fa3cf598315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:48 +0000
Subject: [PATCH 56/57] fix: repeated properties took time for all of the files
 each

---
 types.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/types.go b/types.go
index e4d3eba..4b139e4 100644
--- a/types.go
+++ b/types.go
@@ -899,7 +899,7 @@ func readFilesInfo(r util.Reader, streams uint64) (*filesInfo, error) {
 		}
 	}
 
-	var emptyStreams uint64
+	var emptyStreams []int // indices of the files
 
 	for {
 		property, err := r.ReadByte()
@@ -932,29 +932,24 @@ func readFilesInfo(r util.Reader, streams uint64) (*filesInfo, error) {
 
 			allocate()
 
-			emptyStreams = 0
+			emptyStreams = emptyStreams[:0]
 
 			for i := range f.file {
 				f.file[i].isEmptyStream = empty[i]
 				f.file[i].isEmptyFile = false
 
 				if empty[i] {
-					emptyStreams++
+					emptyStreams = append(emptyStreams, i)
 				}
 			}
 		case idEmptyFile:
-			empty, err := readBool(r, emptyStreams)
+			empty, err := readBool(r, uint64(len(emptyStreams)))
 			if err != nil {
 				return nil, err
 			}
 
-			j := 0
-
-			for i := range f.file {
-				if f.file[i].isEmptyStream {
-					f.file[i].isEmptyFile = empty[j]
-					j++
-				}
+			for j, i := range emptyStreams {
+				f.file[i].isEmptyFile = empty[j]
 			}
 		case idCTime:
 			times, err := readTimes(r, files)
-- 
2.43.0


From 2c1eaaad22e0df5518cd17ad7df8bd04ee6ccae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:38 +0000
Subject: [PATCH 57/57] fix: zstd decoders dropped by the garbage collector
 leaked

With a single CPU the decoder refers to itself, so that its finalizer never
ran, and one dropped without closing it is kept alive by its goroutine.
---
 internal/zstd/reader.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/internal/zstd/reader.go b/internal/zstd/reader.go
index 22f71ea..a4e9063 100644
--- a/internal/zstd/reader.go
+++ b/internal/zstd/reader.go
@@ -12,9 +12,15 @@ import (
 	"github.com/klauspost/compress/zstd"
 )
 
+// decoder is closed when it's no longer used. The finalizer can't be on the
+// zstd.Decoder, which refers to itself and is also referred to by its goroutine.
+type decoder struct {
+	*zstd.Decoder
+}
+
 type readCloser struct {
 	c io.Closer
-	r *zstd.Decoder
+	r *decoder
 	e *errorReader
 }
 
@@ -70,6 +76,9 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	}
 
 	n, err := rc.r.Read(p)
+
+	runtime.KeepAlive(rc.r)
+
 	if errors.Is(err, io.ErrUnexpectedEOF) {
 		if cause := rc.e.err.Load(); cause != nil {
 			err = *cause
@@ -89,21 +98,23 @@ func NewReader(_ []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 		return nil, errNeedOneReader
 	}
 
-	var err error
-
 	er := &errorReader{r: readers[0]}
 
-	r, ok := zstdReaderPool.Get().(*zstd.Decoder)
+	r, ok := zstdReaderPool.Get().(*decoder)
 	if ok {
-		if err = r.Reset(er); err != nil {
+		if err := r.Reset(er); err != nil {
 			return nil, fmt.Errorf("zstd: error resetting: %w", err)
 		}
 	} else {
-		if r, err = zstd.NewReader(er); err != nil {
+		d, err := zstd.NewReader(er)
+		if err != nil {
 			return nil, fmt.Errorf("zstd: error creating reader: %w", err)
 		}
 
-		runtime.SetFinalizer(r, (*zstd.Decoder).Close)
+		r = &decoder{d}
+
+		// Closing waits for a read of the input to return
+		runtime.SetFinalizer(r, func(r *decoder) { go r.Close() })
 	}
 
 	return &readCloser{
-- 
2.43.0

