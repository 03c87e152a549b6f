#!/usr/bin/env python3
"""Writes properties.jsonl; run from /verif: python3 tools/props.py"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Extraction is faithful",
  "For every well-formed archive using only supported methods (Copy, LZMA, LZMA2, PPMd, BZip2, Deflate, Brotli, LZ4, Zstandard, Delta, BCJ x86/PPC/ARM/ARM64/SPARC, BCJ2, AES-256, alone or combined in any acyclic coder graph whose coders are recorded in the order 7-Zip records them, solid or not, with a plain, packed or encrypted header), opening it succeeds and reading every entry to the end delivers exactly the bytes that were archived, followed by io.EOF. This includes empty entries, single-byte entries, entries that straddle any internal buffer boundary, filters whose state crosses those boundaries, and streams located beyond 4 GiB. It does not depend on how many bytes the underlying storage returns per read.",
  ["inputs", "configurations"],
  "all well-formed archives over supported coder trees, contents, header forms and positions; all ways an io.ReaderAt may split its reads",
  "The tests extract a few dozen fixed sample archives, at most one per method, and mostly only check a CRC of regular contents; coder combinations, parameters, content alignments and sizes form an unbounded space.",
  ["reader.go", "struct.go", "types.go", "register.go", "internal/bra", "internal/bcj2", "internal/delta", "internal/lzma", "internal/lzma2", "internal/aes7z", "internal/brotli", "internal/ppmd"],
  [("folderReader builds the coder graph", "struct.go"), ("decompressor registry", "register.go"), ("header parser", "types.go"), ("filters and decoders", "internal/*/reader.go")],
  ["File.Open/Read results against the bytes the harness's own archive writer encoded", "7-Zip-made samples against their stored digests"],
  [("folder", "coders, bind pairs, sizes, packed streams of one stream", "struct.go")])

p("C02", "Contents do not depend on how they are read",
  "The sequence of bytes an entry delivers, and where it ends, is independent of the sizes of the buffers passed to Read (including one byte, zero bytes, and sizes that do not divide any block size) and of whether io.WriteTo/io.Copy, ReadByte-like wrappers or plain reads are used. Every Read obeys the io.Reader contract: 0 <= n <= len(p), nothing written beyond n that changes data already delivered, no endless run of empty reads.",
  ["inputs", "histories"],
  "all coder trees and contents x all sequences of read sizes",
  "The tests read with io.Copy's one buffer size; chunk-dependent state (filters' look-ahead, decoders' carry-over) shows only for particular sizes at particular offsets.",
  ["reader.go", "internal/bra", "internal/bcj2", "internal/delta", "internal/lzma", "internal/lzma2", "internal/ppmd", "internal/aes7z"],
  [("filter look-ahead buffers", "internal/bra/reader.go"), ("BCJ2 branch state", "internal/bcj2/reader.go")],
  ["concatenated reads against the archived bytes"])

p("C03", "Handles are independent under any history",
  "For every interleaving of opening, partially reading, seeking forward by discarding, closing and re-opening entries of one archive from one goroutine, with any number of handles live at once, every byte a handle delivers is the byte of its own entry at its own position. Re-opening an entry always starts at its beginning, and closing or abandoning one handle never changes what another delivers.",
  ["histories"],
  "all sequences of open/read/close over the entries of an archive, any number of live handles",
  "The tests read files one after the other, each completely; the reuse of half-read streams between handles of the same solid block depends on the whole history.",
  ["reader.go", "struct.go", "internal/pool/pool.go"],
  [("pool of parked stream readers keyed by offset", "internal/pool/pool.go"), ("hand-over on Close", "reader.go")],
  ["bytes delivered by each handle against a model (content, position)"],
  [("pool", "readers parked at an offset per stream", "reader.go")])

p("C04", "Concurrent use is safe and changes nothing",
  "One opened archive may be used from any number of goroutines at once (opening, reading and closing different entries, listing, file-system operations, several archives at once, registering further decompressors meanwhile) without data races, deadlocks or panics. Every goroutine observes exactly the contents, listings and errors it would observe alone, whatever the schedule.",
  ["schedules", "histories"],
  "all interleavings of concurrent API calls on one or several archives with any number of goroutines",
  "The concurrent tests run one schedule per run over one or two archives and do not verify the bytes under contention; a lost update or a doubly handed-out stream needs a particular interleaving.",
  ["reader.go", "internal/pool/pool.go", "internal/aes7z/key.go", "register.go", "internal/zstd", "internal/lz4", "internal/deflate"],
  [("pool mutex", "internal/pool/pool.go"), ("fileList sync.Once", "reader.go"), ("key cache", "internal/aes7z/key.go"), ("sync.Pool of decoders", "internal/*/reader.go"), ("sync.Map registry", "register.go")],
  ["race detector", "per-goroutine byte comparison", "watchdog"])

p("C05", "Listing reports what the archive records",
  "For every well-formed header the reader lists exactly the recorded entries in recorded order with their recorded names (of any length, empty when none are recorded), uncompressed sizes, CRC-32 values (zero when none is recorded), attributes, creation/access/modification times (exact to 100 ns, zero when not recorded), and a stream number that is equal exactly for entries sharing a compressed stream. This holds for empty files, directories (an empty entry not marked as an empty file is one, also when no attributes say so), streams without entries, absent optional header sections, any legal ordering of the properties, and plain, packed or encrypted headers alike.",
  ["inputs", "configurations"],
  "all well-formed headers: entry counts and kinds, names, 64-bit times, attributes, optional sections, orderings and encodings of numbers",
  "The tests look at a handful of listings; the bit-vector, default and optional-section logic has a combinatorial number of forms that no sample archive exercises.",
  ["types.go", "struct.go", "reader.go"],
  [("header parser", "types.go"), ("assigning streams, sizes and digests to entries", "reader.go, struct.go")],
  ["Reader.File fields against the fields the harness's writer recorded"])

p("C06", "A damaged header is never believed",
  "If any bits of the signature, the start header, or the checksummed header (stored plainly or packed with a digest) of an archive are changed in a way a CRC-32 detects (in particular any single bit, or any burst of up to 32 bits), or the archive is cut short in front of the end of its header, or the header ends early although every checksum around it is right, opening it fails with an error. It never succeeds with a listing that differs from the undamaged one.",
  ["inputs", "fault_sequences"],
  "every bit position and burst of header bytes, every truncation point, of archives with all header forms",
  "The tests contain two or three damaged files; which bytes are covered by which check is only settled by damaging each of them.",
  ["reader.go", "types.go"],
  [("start header and header CRC checks", "reader.go"), ("digest of an encoded header", "reader.go")],
  ["error or listing after opening a damaged copy"])

p("C07", "Hostile input never crashes or hangs",
  "For every byte sequence given as an archive (or as one of several volumes) opening it, listing it, walking it as a file system and reading from any entry ends with a result or an error: no panic, no fatal runtime error, no endless loop, no read that makes no progress for ever. This includes archives whose checksums are valid but whose header is nonsense, whose coder graph is cyclic or inconsistent, or whose packed data is damaged.",
  ["inputs"],
  "all byte sequences, in particular those with valid checksums around malformed structures",
  "A fuzz target exists but has no structure awareness, so that almost every mutation dies at the first CRC; a unit test samples single malformed files.",
  ["types.go", "reader.go", "struct.go", "internal"],
  [("bounds checks in the header parser", "types.go"), ("coder graph validation", "types.go, struct.go"), ("decoders' own validation", "internal")],
  ["panics and crashes of the process", "CPU-time watchdog", "io.Reader contract monitor"])

p("C08", "Entry lengths are exact",
  "Reading an entry never delivers more bytes than its recorded size, and io.EOF is reported only after exactly that many bytes were delivered. A packed stream that ends early, an archive whose data is cut off, or a stream that decodes to fewer bytes than recorded therefore surfaces as an error other than io.EOF, and a stream that decodes to more is cut at the recorded size.",
  ["inputs", "fault_sequences"],
  "all archives x all truncation points of the packed data x declared sizes smaller or larger than the stream yields",
  "The tests read intact archives only, where the stream and its recorded size agree.",
  ["reader.go", "struct.go", "internal"],
  [("limit per coder and per entry", "struct.go, reader.go"), ("error when an entry ends early", "reader.go"), ("packed stream reader", "struct.go")],
  ["bytes and final error of reading truncated or inconsistent archives"])

p("C09", "The file-system view obeys io/fs",
  "The opened archive used as an fs.FS satisfies the io/fs contract for every archive whatever its entry names: a tree rooted at \".\" in which every listed path is valid and can be opened, directories implied by entry names exist, listings are sorted, free of duplicates and complete, and Stat, ReadDir, Open and the entries of a listing agree in name, size, mode and time. Names with backslashes, drive letters, leading slashes, \".\" and \"..\" elements or empty elements never lead outside the tree; an invalid path is reported as such and a missing one as fs.ErrNotExist. A path that several entries claim is reported as an error when it is listed or opened as what it is not, and never hides other entries from Open. Walking the tree always terminates and, where no path is claimed twice, reaches every regular entry that has a valid path, with that entry's contents.",
  ["inputs", "histories"],
  "all sets of entry names (adversarial included) and all paths, all ReadDir page sizes",
  "The tests run fstest.TestFS on fixed archives with ordinary names; conflicting, duplicate, absolute or dotted names are not covered.",
  ["reader.go"],
  [("building the sorted directory list", "reader.go"), ("toValidName", "reader.go"), ("openLookup/openReadDir", "reader.go")],
  ["fstest.TestFS", "fs.WalkDir against an independent path model"])

p("C10", "All ways of opening an archive are equivalent",
  "The same archive opened from a file, from an io.ReaderAt with its size, with or without a password argument, or as a set of volumes split at arbitrary points (empty volumes included), by whatever path, lists the same entries with the same contents; the reported volume names are the files actually used, in order. A reader over an io.ReaderAt reports no volumes. A missing volume makes opening or reading fail, it never yields other contents, and a volume that is there but cannot be opened makes opening fail.",
  ["configurations", "inputs"],
  "all archives x all splits into volumes x all opening functions",
  "The tests open one multi-volume sample with fixed split points and otherwise each archive in one way.",
  ["reader.go"],
  [("openReader volume discovery", "reader.go"), ("multi ReaderAt", "reader.go")],
  ["listing and contents per opening function", "Volumes()", "open file descriptors"])

p("C11", "An archive is found behind a prefix",
  "An archive preceded by any data of up to 1 MiB (an executable stub) that does not itself start with the signature, even data that contains the archive signature bytes or parts of it further in without being an archive, and followed by any trailing data, opens and extracts exactly as it does on its own. Data without an archive in it is rejected with an error.",
  ["inputs"],
  "all prefixes up to 1 MiB (all alignments relative to internal search buffers, decoy signatures anywhere), all trailing data",
  "The tests have a single SFX sample; a signature that straddles a search buffer or follows decoys needs specific offsets.",
  ["reader.go"],
  [("findSignature", "reader.go"), ("trying each candidate offset", "reader.go")],
  ["listing and contents with prefixes of enumerated lengths"])

p("C12", "Decryption is right for every parameter",
  "For every password (any Unicode string, the empty one included), salt length, initialisation vector length and number of key-derivation rounds that the format allows, an AES-encrypted archive opened with its password lists and extracts exactly what was encrypted, in any order, repeatedly, and next to any number of other encrypted archives with other passwords, salts or rounds used before or at the same time. Parameters that the library does not support are rejected with an error and not with wrong data.",
  ["inputs", "histories", "configurations"],
  "all passwords, salts, IVs, cycle counts and lengths; all histories of other keys used in the same process",
  "The tests use two or three samples with one set of parameters each and one key at a time; the key cache and the parameter parsing have many more states.",
  ["internal/aes7z/key.go", "internal/aes7z/reader.go", "struct.go"],
  [("key derivation and LRU cache", "internal/aes7z/key.go"), ("property parsing", "internal/aes7z/reader.go")],
  ["contents against what the harness encrypted with an independent key derivation"])

p("C13", "Errors tell wrong passwords from other damage",
  "When reading or opening fails, the error chain contains a ReadError whose Encrypted field is true whenever the failing stream is encrypted (with AES, or with a registered decompressor that was asked to take the password; so that a wrong or missing password can be told), and false when it is not. An archive whose header is encrypted and checksummed never opens with a wrong password, and an error caused by the underlying reader keeps that cause in its chain.",
  ["inputs", "configurations", "fault_sequences"],
  "all encrypted and unencrypted archives x right, wrong and missing passwords x damage",
  "The tests check one archive with one wrong password; the hint must be right on every path an error can take (opening, decoding, short data, I/O).",
  ["reader.go", "struct.go"],
  [("ReadError construction", "reader.go"), ("hasEncryption tracking", "struct.go")],
  ["errors.As on every error returned"])

p("C14", "Entry handles keep their contract",
  "Every handle for an entry, from whichever opening function and in whatever state, behaves as io.ReadCloser and fs.File prescribe: a read of zero bytes returns zero bytes, io.EOF repeats, Stat describes the entry (after Close as well), closing it again is harmless, reads after Close report an error (io.EOF for an empty entry) and deliver nothing, and none of these ever panics. Closing the archive while handles are open, closing it twice, or using handles afterwards yields errors or right data, never wrong data and never a panic.",
  ["histories"],
  "all sequences of Read, Close, Stat and archive Close calls on all kinds of handles",
  "The tests call Close once at the end of complete reads.",
  ["reader.go"],
  [("fileReader state", "reader.go"), ("ReadCloser.Close", "reader.go")],
  ["results of call sequences against a handle model"])

p("C15", "Sequential extraction of a solid block is linear",
  "Extracting the entries of a solid block in order, each opened, read (completely or partly) and closed before the next, decodes the block once: every packed byte is read from the underlying storage at most once apart from bounded buffering, and each coder is started once. Opening entries in order after only partly reading earlier ones skips forward instead of starting over.",
  ["histories", "inputs"],
  "all solid archives x all in-order histories (complete or partial reads)",
  "The benchmarks measure time but assert nothing; a lost reuse shows only as quadratic work.",
  ["reader.go", "internal/pool/pool.go"],
  [("parking the stream reader on Close", "reader.go"), ("choosing the parked reader closest in front", "internal/pool/pool.go")],
  ["bytes requested from the io.ReaderAt", "number of coder constructions"])

p("C16", "I/O errors surface and pass",
  "If any single read of the underlying storage fails, or returns fewer bytes with an error, or ends early, then every entry delivers a (possibly empty) prefix of its right contents followed by an error whose chain contains the cause, or is not affected at all; never wrong bytes, never a clean early end, and opening never succeeds with a wrong listing. After a failure has passed, opening the entry again on the same archive delivers it in full, and a single failure is not reported by more than one entry.",
  ["fault_sequences", "inputs"],
  "every read call of opening and extracting x every kind of failure, once or persistent",
  "No test injects a read error.",
  ["reader.go", "struct.go", "internal"],
  [("error propagation through coders", "internal/*/reader.go"), ("not parking failed streams", "reader.go")],
  ["results under a fault-injecting io.ReaderAt, one run per call and fault kind"])

p("C17", "Registered decompressors are used as documented",
  "A decompressor registered for a method id is called for every stream using that id with exactly the coder's recorded properties, the recorded uncompressed size and one reader per input delivering exactly the packed (or upstream-decoded) bytes in order; what it returns is read, given the password first if it accepts one, and closed. Its own errors, and a missing decompressor for an id, surface as errors from opening, reading or closing the entry or opening the archive without disturbing entries of other streams.",
  ["configurations", "inputs", "histories"],
  "all method ids of legal lengths, properties, input counts and decompressor behaviours the io.Reader contract allows",
  "The tests use the built-in decompressors only, except for one registration call.",
  ["register.go", "struct.go"],
  [("RegisterDecompressor / decompressor", "register.go"), ("coderReader", "struct.go")],
  ["recording decompressors"])

p("C18", "Decoders and files are owned and released",
  "Every decoder the library starts is used by one handle at a time, never used after it was closed, closed exactly once, and not kept beyond a bounded number per archive once no handle is open; closing the archive releases the files it opened, on success and on every error path of opening. Extraction leaves no goroutines behind that keep running or grow with the number of entries read.",
  ["histories", "schedules", "fault_sequences"],
  "all histories and schedules of handle use, all failing opens",
  "Leaks and double uses are invisible to tests that only compare contents.",
  ["reader.go", "struct.go", "internal/pool/pool.go", "internal/zstd/reader.go"],
  [("pool eviction closes readers", "internal/pool/pool.go"), ("closing on error", "struct.go, reader.go")],
  ["instrumented decompressors recording construction, use and Close", "/proc/self/fd", "goroutine counts"])

p("C19", "Attributes map to modes correctly",
  "For every 32-bit attribute value the reported file mode has exactly the permission, type, set-id and sticky bits the Unix half prescribes when the attributes carry a Unix half, and otherwise directory or regular-file mode with write permission removed exactly for read-only entries. Without any attributes an entry recorded as a directory has the mode of one. FileInfo agrees with it in mode, type and directory flag.",
  ["inputs"],
  "all 2^32 attribute values",
  "The tests check a few values.",
  ["struct.go"],
  [("FileHeader.Mode", "struct.go")],
  ["Mode() and FileInfo() for every value against a table oracle"])

p("C20", "Memory use is bounded by the input",
  "Opening and listing any archive allocates memory bounded by a small constant plus a moderate multiple of the archive's own size (a packed header counts with its unpacked size), whatever counts, sizes or lengths its header claims; starting to read an entry adds at most what its coders' recorded dictionary sizes call for.",
  ["inputs"],
  "all headers, in particular every number in a header replaced by an extreme value",
  "A test would have to contain the one malformed number that is trusted for an allocation.",
  ["types.go", "reader.go"],
  [("incremental reading of counted items", "types.go")],
  ["runtime allocation counters under an address-space limit"])

p("C21", "Damage stays local",
  "Damage to the packed data of one stream, and reading, failing on, abandoning or re-opening its entries in any order, never changes what the entries of undamaged streams deliver, in the same archive or in any other opened in the process, at any time.",
  ["histories", "fault_sequences"],
  "all sets of damaged streams x all histories of using good and bad entries",
  "The tests never mix intact and damaged streams; decoders shared between streams carry state over only after a failure.",
  ["reader.go", "internal/zstd/reader.go", "internal/lz4/reader.go", "internal/deflate/reader.go", "internal/brotli/reader.go", "internal/pool/pool.go"],
  [("decoder pools are reset before reuse", "internal/*/reader.go"), ("failed readers are not parked", "reader.go")],
  ["contents of intact entries interleaved with failing ones"])

p("C22", "Effort stays in proportion",
  "Opening an archive, listing it, walking or paging through it as a file system, opening its entries and reading them in order takes computing time that grows about in proportion to what there is: with many times the entries, compressed streams, directories, levels of directories, header properties, volumes or bytes each of these steps takes about as many times as long (and not that number squared), whether the entries share a compressed stream or have one each, and whatever the sizes of the reads. Deriving an encryption key, which is slow on purpose, is not repeated for every stream of an archive that uses the same password and key parameters.",
  ["inputs", "configurations"],
  "all shapes of archives (entries per stream, coders, names, empty streams, decoy signatures, volumes) at growing sizes",
  "The tests' archives have a few entries; a step that is quadratic in the number of entries is not noticeable below many thousands of them.",
  ["reader.go", "struct.go", "types.go", "internal/pool/pool.go", "internal/aes7z/key.go"],
  [("assigning entries to streams", "struct.go FileFolderAndSize"), ("where packed streams are", "struct.go folderReader"), ("sorted directory list and its binary search", "reader.go"), ("key cache", "internal/aes7z/key.go")],
  ["CPU time of the process for the same operations at sizes n and 16n"])

p("C23", "Memory does not grow with use",
  "Reading an entry of any length, in any way (plain reads, io.Copy, the file system view, skipping over it to reach a later entry of its stream), holds no more memory than its coders' windows and fixed buffers call for, however much data passes through. Opening, reading, abandoning, failing on, closing and re-opening entries and archives, looking names up, walking, and trying passwords any number of times, from one goroutine or many, does not make the memory in use grow without bound: what is kept for reuse is limited per archive and in the process, and an archive that is no longer referenced is released with everything it decoded.",
  ["inputs", "histories"],
  "all lengths of entries and all numbers of repetitions of all operations",
  "A test ends before what is left behind adds up, and its entries are too short for a buffer that never shrinks to matter.",
  ["reader.go", "register.go", "internal/pool/pool.go", "internal/aes7z/key.go", "internal/bcj2/reader.go", "internal/zstd/reader.go", "internal/lz4/reader.go", "internal/deflate/reader.go", "internal/brotli/reader.go"],
  [("readers kept for reuse", "internal/pool/pool.go"), ("key cache", "internal/aes7z/key.go"), ("buffer between branches", "internal/bcj2/reader.go read")],
  ["live heap after full garbage collections, over repetitions and while data passes through"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
