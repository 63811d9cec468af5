From 84a3b08ffeebf2eb2976b2da03c5fb9418ee9501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:54 +0000
Subject: [PATCH 01/21] fix: aes7z: don't overwrite the IV in the coder
 properties

The salt is a sub-slice of the coder properties and is followed by the
IV. Appending the UTF-16 password to a buffer backed by the salt wrote
over the IV, so opening the same encrypted stream a second time used the
wrong IV and decrypted the first block incorrectly.
---
 internal/aes7z/key.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/aes7z/key.go b/internal/aes7z/key.go
index eb25326..875115c 100644
--- a/internal/aes7z/key.go
+++ b/internal/aes7z/key.go
@@ -54,7 +54,9 @@ func calculateKey(password string, cycles int, salt []byte) ([]byte, error) {
 		return key, nil
 	}
 
-	b := bytes.NewBuffer(salt)
+	// The salt is part of the coder properties, appending to it must not
+	// overwrite the bytes that follow it
+	b := bytes.NewBuffer(bytes.Clone(salt))
 
 	// Convert password to UTF-16LE
 	utf16le := unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)
-- 
2.43.0


From 173a342fda5a3fa0ef58622c49b0096679a2b9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:54 +0000
Subject: [PATCH 02/21] fix: delta: support a distance of 256

The property byte holds the distance minus one, adding one to the byte
wrapped a distance of 256 to zero and made Read loop forever.
---
 internal/delta/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/delta/reader.go b/internal/delta/reader.go
index 0926a17..d4dce31 100644
--- a/internal/delta/reader.go
+++ b/internal/delta/reader.go
@@ -84,6 +84,6 @@ func NewReader(p []byte, _ uint64, readers []io.ReadCloser) (io.ReadCloser, erro
 
 	return &readCloser{
 		rc:    readers[0],
-		delta: int(p[0] + 1),
+		delta: int(p[0]) + 1,
 	}, nil
 }
-- 
2.43.0


From 3e37169f703d72341f3d15e46ef3e5302dbaf9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:55 +0000
Subject: [PATCH 03/21] fix: delta: report the end of the input

Read dropped io.EOF and returned 0, nil forever once the input was
exhausted, so reading a stream shorter than its recorded size never
ended.
---
 internal/delta/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/delta/reader.go b/internal/delta/reader.go
index d4dce31..9d07ce1 100644
--- a/internal/delta/reader.go
+++ b/internal/delta/reader.go
@@ -69,7 +69,7 @@ func (rc *readCloser) Read(p []byte) (int, error) {
 	copy(rc.state[:], buffer[j:rc.delta])
 	copy(rc.state[rc.delta-j:], buffer[:j])
 
-	return n, nil
+	return n, err //nolint:wrapcheck
 }
 
 // NewReader returns a new Delta io.ReadCloser.
-- 
2.43.0


From 2ae68bb20296875b3c9dbb11c4b21d6315a42868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:55 +0000
Subject: [PATCH 04/21] fix: return an fs.File for empty files

Reader.Open asserts that whatever File.Open returns is an fs.File, which
panicked for empty files.
---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 8ff32ef..569daae 100644
--- a/reader.go
+++ b/reader.go
@@ -149,7 +149,7 @@ func (fr *fileReader) Close() error {
 func (f *File) Open() (io.ReadCloser, error) {
 	if f.isEmptyStream || f.isEmptyFile {
 		// Return empty reader for directory or empty file
-		return io.NopCloser(bytes.NewReader(nil)), nil
+		return &fileReader{f: f}, nil
 	}
 
 	rc, _ := f.zip.pool[f.folder].Get(f.offset)
-- 
2.43.0


From d4cc2a64f1d182d972c4902278466901240af61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:55 +0000
Subject: [PATCH 05/21] fix: don't panic when reading a closed file

---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index 569daae..4476c5c 100644
--- a/reader.go
+++ b/reader.go
@@ -96,6 +96,10 @@ func (fr *fileReader) Read(p []byte) (int, error) {
 		return 0, io.EOF
 	}
 
+	if fr.rc == nil {
+		return 0, &iofs.PathError{Op: "read", Path: fr.f.Name, Err: iofs.ErrClosed}
+	}
+
 	if int64(len(p)) > fr.n {
 		p = p[0:fr.n]
 	}
-- 
2.43.0


From 282a67da0d43b9262a9db089e9f5e7689a495721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:56 +0000
Subject: [PATCH 06/21] fix: don't list "." and ".." as directory entries

An entry stored as "./" was listed as a child of the root directory named
".", so walking the filesystem never ended. Likewise ".." is not a valid
name.
---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 4476c5c..506913b 100644
--- a/reader.go
+++ b/reader.go
@@ -682,7 +682,7 @@ func (z *Reader) initFileList() {
 			isDir := len(file.Name) > 0 && file.Name[len(file.Name)-1] == '/'
 
 			name := toValidName(file.Name)
-			if name == "" {
+			if name == "." || !iofs.ValidPath(name) {
 				continue
 			}
 
-- 
2.43.0


From 525921d975b9599b90ddde97bdd5d98253fa0c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:57 +0000
Subject: [PATCH 07/21] fix: keep the encryption hint if setting the password
 fails

---
 struct.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index bb6ddca..ff6359f 100644
--- a/struct.go
+++ b/struct.go
@@ -305,14 +305,14 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 		)
 
 		out[output], isEncrypted, err = f.coderReader(in[input:input+c.in], uint64(i), password)
-		if err != nil {
-			return nil, 0, hasEncryption, err
-		}
-
 		if isEncrypted {
 			hasEncryption = true
 		}
 
+		if err != nil {
+			return nil, 0, hasEncryption, err
+		}
+
 		input += c.in
 		output += c.out
 	}
-- 
2.43.0


From c9ae5d8000928e256dda5aa1fa12da4dd55d5b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:57 +0000
Subject: [PATCH 08/21] fix: pool: close a reader that can't be pooled

---
 internal/pool/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pool/pool.go b/internal/pool/pool.go
index bd7194d..fc1283b 100644
--- a/internal/pool/pool.go
+++ b/internal/pool/pool.go
@@ -88,7 +88,7 @@ func (p *pool) Put(offset int64, rc util.SizeReadSeekCloser) (bool, error) {
 	defer p.mutex.Unlock()
 
 	if _, ok := p.items[offset]; ok {
-		return false, nil
+		return false, rc.Close() //nolint:wrapcheck
 	}
 
 	ent := &entry{offset, rc}
-- 
2.43.0


From 633dfa74c4a9587a1d5ac1546a411ac05ea909b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:58 +0000
Subject: [PATCH 09/21] fix: close the stream if seeking to the start of a file
 fails

---
 reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reader.go b/reader.go
index 506913b..e40a5f1 100644
--- a/reader.go
+++ b/reader.go
@@ -181,6 +181,8 @@ func (f *File) Open() (io.ReadCloser, error) {
 			e.Encrypted = fr.hasEncryption
 		}
 
+		e.Err = errors.Join(e.Err, rc.Close())
+
 		return nil, e
 	}
 
-- 
2.43.0


From 49b87ce7b9484289bedbbf7cfc2407e783656af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:58 +0000
Subject: [PATCH 10/21] fix: bcj2: report a truncated call or jump stream

Running out of addresses was treated as the regular end of the data and
the following bytes were decoded as if nothing was missing.
---
 internal/bcj2/reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/bcj2/reader.go b/internal/bcj2/reader.go
index 4cc99b4..0f7acb3 100644
--- a/internal/bcj2/reader.go
+++ b/internal/bcj2/reader.go
@@ -212,11 +212,11 @@ func (rc *readCloser) read() error {
 
 		var dest uint32
 		if err = binary.Read(r, binary.BigEndian, &dest); err != nil {
-			if !errors.Is(err, io.EOF) {
-				err = fmt.Errorf("bcj2: error reading uint32: %w", err)
+			if errors.Is(err, io.EOF) {
+				err = io.ErrUnexpectedEOF
 			}
 
-			return err
+			return fmt.Errorf("bcj2: error reading uint32: %w", err)
 		}
 
 		dest -= rc.written + 4
-- 
2.43.0


From 332cf6a23014d9abeb495694f8fcd1ff585cde4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:40 +0000
Subject: [PATCH 11/21] fix: cap the preallocation of file names

Same as the other lists that are read item by item.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index dfeb2b2..f2e4f84 100644
--- a/types.go
+++ b/types.go
@@ -710,7 +710,7 @@ func readNames(r util.Reader, count, length uint64) ([]string, error) {
 	scanner := bufio.NewScanner(transform.NewReader(io.LimitReader(r, int64(length-1)), utf16le.NewDecoder())) //nolint:gosec,lll
 	scanner.Split(splitNull)
 
-	names, i := make([]string, 0, count), uint64(0)
+	names, i := make([]string, 0, min(count, 1024)), uint64(0)
 	for scanner.Scan() {
 		names = append(names, scanner.Text())
 		i++
-- 
2.43.0


From 0569a62b03a8564da76f279272e9be55780e5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:41 +0000
Subject: [PATCH 12/21] fix: check the number of substreams for overflow

The sum of the substreams could wrap around, which caused an index out of
range when reading their sizes.
---
 types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/types.go b/types.go
index f2e4f84..391a15f 100644
--- a/types.go
+++ b/types.go
@@ -495,7 +495,7 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 	s.streams = make([]uint64, len(folder))
 	if id == idNumUnpackStream {
 		for i := range s.streams {
-			if s.streams[i], err = readUint64(r); err != nil {
+			if s.streams[i], err = readUint64Bounded(r, false); err != nil {
 				return nil, err
 			}
 		}
@@ -514,10 +514,10 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 	files := uint64(0)
 	for _, v := range s.streams {
 		files += v
-	}
 
-	if err := checkUint64(files, false); err != nil {
-		return nil, err
+		if err := checkUint64(files, false); err != nil {
+			return nil, err
+		}
 	}
 
 	if id == idSize {
-- 
2.43.0


From bb34498b2af95719ba5410d2e5360bee5d34c15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:41 +0000
Subject: [PATCH 13/21] fix: reject substreams larger than their folder

The size of the last substream wrapped around if the preceding substreams
were larger than the folder.
---
 types.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index 391a15f..43b7daf 100644
--- a/types.go
+++ b/types.go
@@ -54,6 +54,7 @@ var (
 	errUint64NonZero          = errors.New("sevenzip: uint64 value must be non-zero")
 	errUint64TooLarge         = errors.New("sevenzip: uint64 value too large")
 	errInvalidBindPair        = errors.New("sevenzip: invalid bind pair")
+	errInvalidSubStreamSize   = errors.New("sevenzip: invalid substream size")
 )
 
 func checkUint64(v uint64, nonZero bool) error {
@@ -529,18 +530,22 @@ func readSubStreamsInfo(r util.Reader, folder []*folder) (*subStreamsInfo, error
 				continue
 			}
 
-			total := uint64(0)
+			remaining := folder[i].unpackSize()
 
 			for j := uint64(1); j < s.streams[i]; j++ {
 				if s.size[k], err = readUint64(r); err != nil {
 					return nil, err
 				}
 
-				total += s.size[k]
+				if s.size[k] > remaining {
+					return nil, errInvalidSubStreamSize
+				}
+
+				remaining -= s.size[k]
 				k++
 			}
 
-			s.size[k] = folder[i].unpackSize() - total
+			s.size[k] = remaining
 			k++
 		}
 
-- 
2.43.0


From 00cd7f39a04e646714900af36e00ea88df0b81cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:42 +0000
Subject: [PATCH 14/21] fix: reject archives with files that have no stream

Files without any streams information, more files than substreams or
missing substream sizes caused a panic when opening the archive.
---
 reader.go |  5 ++++-
 struct.go | 19 ++++++++++++++++---
 types.go  |  8 ++++++--
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/reader.go b/reader.go
index e40a5f1..2fed13c 100644
--- a/reader.go
+++ b/reader.go
@@ -548,7 +548,10 @@ func (z *Reader) init(r io.ReaderAt, size int64) (err error) {
 			}
 
 			if !fh.isEmptyStream && !fh.isEmptyFile {
-				f.folder, _, _ = header.streamsInfo.FileFolderAndSize(j)
+				f.folder, _, _, err = header.streamsInfo.FileFolderAndSize(j)
+				if err != nil {
+					return err
+				}
 
 				// Make an exported copy of the folder index
 				f.Stream = f.folder
diff --git a/struct.go b/struct.go
index ff6359f..177c2e1 100644
--- a/struct.go
+++ b/struct.go
@@ -24,6 +24,7 @@ var (
 	errMultipleOutputStreams = errors.New("more than one output stream")
 	errNoBoundStream         = errors.New("cannot find bound stream")
 	errNoUnboundStream       = errors.New("expecting one unbound output stream")
+	errMissingSubStream      = errors.New("sevenzip: missing substream")
 )
 
 // CryptoReadCloser adds a Password method to decompressors.
@@ -210,7 +211,11 @@ func (si *streamsInfo) Folders() int {
 	return 0
 }
 
-func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
+func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32, error) {
+	if si == nil || si.unpackInfo == nil {
+		return 0, 0, 0, errMissingUnpackInfo
+	}
+
 	var (
 		folder  int
 		streams uint64 = 1
@@ -227,6 +232,10 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 			}
 		}
 
+		if uint64(file) >= total { //nolint:gosec
+			return 0, 0, 0, errMissingSubStream
+		}
+
 		if len(si.subStreamsInfo.digest) > 0 {
 			crc = si.subStreamsInfo.digest[file]
 		}
@@ -237,10 +246,14 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32) {
 			crc = si.unpackInfo.digest[folder]
 		}
 
-		return folder, si.unpackInfo.folder[folder].size[len(si.unpackInfo.folder[folder].coder)-1], crc
+		return folder, si.unpackInfo.folder[folder].size[len(si.unpackInfo.folder[folder].coder)-1], crc, nil
+	}
+
+	if si.subStreamsInfo == nil || file >= len(si.subStreamsInfo.size) {
+		return 0, 0, 0, errMissingSubStream
 	}
 
-	return folder, si.subStreamsInfo.size[file], crc
+	return folder, si.subStreamsInfo.size[file], crc, nil
 }
 
 func (si *streamsInfo) folderOffset(folder int) int64 {
diff --git a/types.go b/types.go
index 43b7daf..6801edd 100644
--- a/types.go
+++ b/types.go
@@ -944,7 +944,7 @@ func readHeader(r util.Reader) (*header, error) {
 		return nil, errUnexpectedID
 	}
 
-	if h.streamsInfo == nil || h.filesInfo == nil {
+	if h.filesInfo == nil {
 		return h, nil
 	}
 
@@ -955,7 +955,11 @@ func readHeader(r util.Reader) (*header, error) {
 			continue
 		}
 
-		_, h.filesInfo.file[i].UncompressedSize, h.filesInfo.file[i].CRC32 = h.streamsInfo.FileFolderAndSize(j)
+		_, h.filesInfo.file[i].UncompressedSize, h.filesInfo.file[i].CRC32, err = h.streamsInfo.FileFolderAndSize(j)
+		if err != nil {
+			return nil, err
+		}
+
 		j++
 	}
 
-- 
2.43.0


From 925cdd47dbc34cba65efef87ef3aade45b4cc11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:42 +0000
Subject: [PATCH 15/21] fix: map files to folders if there is no substreams
 info

Without substreams info each folder contains exactly one file, however
every file was assumed to be in the first folder.
---
 struct.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/struct.go b/struct.go
index 177c2e1..3c4226f 100644
--- a/struct.go
+++ b/struct.go
@@ -239,6 +239,13 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32, error)
 		if len(si.subStreamsInfo.digest) > 0 {
 			crc = si.subStreamsInfo.digest[file]
 		}
+	} else {
+		// Each folder contains exactly one file
+		if file >= len(si.unpackInfo.folder) {
+			return 0, 0, 0, errMissingSubStream
+		}
+
+		folder = file
 	}
 
 	if streams == 1 {
-- 
2.43.0


From 01fd946a99515a1a92f6de2ce286f1a94598d931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:43 +0000
Subject: [PATCH 16/21] fix: reject folders with invalid packed streams or bind
 pairs

Missing pack info, packed stream sizes that are missing or packed streams
and bind pairs that refer to streams that don't exist caused a panic when
opening a file.
---
 struct.go | 12 +++++++++++-
 types.go  |  4 ++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 3c4226f..8a2ffe6 100644
--- a/struct.go
+++ b/struct.go
@@ -21,9 +21,11 @@ var (
 	errNegativeSeek          = errors.New("negative seek")
 	errSeekBackwards         = errors.New("cannot seek backwards")
 	errSeekEOF               = errors.New("cannot seek beyond EOF")
+	errInvalidPackedStream   = errors.New("sevenzip: invalid packed stream")
 	errMultipleOutputStreams = errors.New("more than one output stream")
 	errNoBoundStream         = errors.New("cannot find bound stream")
 	errNoUnboundStream       = errors.New("expecting one unbound output stream")
+	errMissingPackInfo       = errors.New("sevenzip: missing pack info")
 	errMissingSubStream      = errors.New("sevenzip: missing substream")
 )
 
@@ -279,6 +281,10 @@ func (si *streamsInfo) folderOffset(folder int) int64 {
 
 //nolint:cyclop,funlen,lll
 func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string) (*folderReadCloser, uint32, bool, error) {
+	if si == nil || si.unpackInfo == nil || si.packInfo == nil {
+		return nil, 0, false, errMissingPackInfo
+	}
+
 	f := si.unpackInfo.folder[folder]
 	in := make([]io.ReadCloser, f.in)
 	out := make([]io.ReadCloser, f.out)
@@ -291,6 +297,10 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 	offset := int64(0)
 
 	for i, input := range f.packed {
+		if input >= f.in || packedOffset+i >= len(si.packInfo.size) {
+			return nil, 0, false, errInvalidPackedStream
+		}
+
 		size := int64(si.packInfo.size[packedOffset+i]) //nolint:gosec
 		in[input] = util.NopCloser(bufio.NewReader(io.NewSectionReader(r, si.folderOffset(folder)+offset, size)))
 		offset += size
@@ -312,7 +322,7 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 			}
 
 			bp := f.findInBindPair(j)
-			if bp == nil || out[bp.out] == nil {
+			if bp == nil || bp.out >= f.out || out[bp.out] == nil {
 				return nil, 0, hasEncryption, errNoBoundStream
 			}
 
diff --git a/types.go b/types.go
index 6801edd..9f868ee 100644
--- a/types.go
+++ b/types.go
@@ -376,6 +376,10 @@ func readFolder(r util.Reader) (*folder, error) {
 				f.packed = append(f.packed, i)
 			}
 		}
+
+		if len(f.packed) != 1 {
+			return nil, errInvalidBindPair
+		}
 	} else {
 		f.packed = make([]uint64, f.packedStreams)
 		for i := range f.packedStreams {
-- 
2.43.0


From 73da1d5ac2378e63a11d1adf724961731dd5ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:23 +0000
Subject: [PATCH 17/21] fix: use the sanitised name in the file info of a
 member

An entry stored as "b/a/.." was listed in the root directory with the name
"..", and one stored as "d\f" was found at d/f but listed as "d\f".
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 8a2ffe6..1b42b2d 100644
--- a/struct.go
+++ b/struct.go
@@ -405,7 +405,7 @@ type headerFileInfo struct {
 	fh *FileHeader
 }
 
-func (fi headerFileInfo) Name() string        { return path.Base(fi.fh.Name) }
+func (fi headerFileInfo) Name() string        { return path.Base(toValidName(fi.fh.Name)) }
 func (fi headerFileInfo) Size() int64         { return int64(fi.fh.UncompressedSize) } //nolint:gosec
 func (fi headerFileInfo) IsDir() bool         { return fi.Mode().IsDir() }
 func (fi headerFileInfo) ModTime() time.Time  { return fi.fh.Modified.UTC() }
-- 
2.43.0


From 593ec0f288e8bd438762e46774cc53fb7a70f6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 18/21] fix: don't keep a reader that has been handed to the
 pool

If adding the reader to the pool evicts another reader and closing that
fails, Close returned the error but kept the reader, so it was shared
with whoever gets it from the pool.
---
 reader.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 2fed13c..ce0caa2 100644
--- a/reader.go
+++ b/reader.go
@@ -137,8 +137,11 @@ func (fr *fileReader) Close() error {
 			return fmt.Errorf("sevenzip: error closing: %w", err)
 		}
 	} else {
-		f := fr.f
-		if _, err := f.zip.pool[f.folder].Put(offset, fr.rc); err != nil {
+		// The pool owns the reader from now on, even if evicting another one fails
+		f, rc := fr.f, fr.rc
+		fr.rc = nil
+
+		if _, err := f.zip.pool[f.folder].Put(offset, rc); err != nil {
 			return fmt.Errorf("sevenzip: error adding to pool: %w", err)
 		}
 	}
-- 
2.43.0


From 10908175535f317b626caf3cc8307d9bab2e136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:16 +0000
Subject: [PATCH 19/21] fix: close the streams already created if opening a
 folder fails

The decoders of the coders before the failing one were dropped without
closing them, which leaks goroutines with some of them. An output
stream that is bound to more than one input or to none is rejected as
it would be closed more than once or never.
---
 struct.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/struct.go b/struct.go
index 1b42b2d..d707ad7 100644
--- a/struct.go
+++ b/struct.go
@@ -107,7 +107,7 @@ func (f *folder) coderReader(readers []io.ReadCloser, coder uint64, password str
 	crc, ok := cr.(CryptoReadCloser)
 	if ok {
 		if err = crc.Password(password); err != nil {
-			return nil, true, fmt.Errorf("sevenzip: error setting password: %w", err)
+			return cr, true, fmt.Errorf("sevenzip: error setting password: %w", err)
 		}
 	}
 
@@ -311,9 +311,20 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 		input, output uint64
 	)
 
+	// Close everything that has been created so far and isn't part of another stream
+	fail := func(err error) (*folderReadCloser, uint32, bool, error) {
+		for _, rc := range append(in[input:], out...) {
+			if rc != nil {
+				err = errors.Join(err, rc.Close())
+			}
+		}
+
+		return nil, 0, hasEncryption, err
+	}
+
 	for i, c := range f.coder {
 		if c.out != 1 {
-			return nil, 0, hasEncryption, errMultipleOutputStreams
+			return fail(errMultipleOutputStreams)
 		}
 
 		for j := input; j < input+c.in; j++ {
@@ -323,10 +334,10 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 
 			bp := f.findInBindPair(j)
 			if bp == nil || bp.out >= f.out || out[bp.out] == nil {
-				return nil, 0, hasEncryption, errNoBoundStream
+				return fail(errNoBoundStream)
 			}
 
-			in[j] = out[bp.out]
+			in[j], out[bp.out] = out[bp.out], nil
 		}
 
 		var (
@@ -339,11 +350,14 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 			hasEncryption = true
 		}
 
+		if out[output] != nil {
+			input += c.in
+		}
+
 		if err != nil {
-			return nil, 0, hasEncryption, err
+			return fail(err)
 		}
 
-		input += c.in
 		output += c.out
 	}
 
@@ -356,7 +370,13 @@ func (si *streamsInfo) folderReader(r io.ReaderAt, folder int, password string)
 	}
 
 	if len(unbound) != 1 || out[unbound[0]] == nil {
-		return nil, 0, hasEncryption, errNoUnboundStream
+		return fail(errNoUnboundStream)
+	}
+
+	for i, rc := range out {
+		if rc != nil && uint64(i) != unbound[0] {
+			return fail(errNoUnboundStream)
+		}
 	}
 
 	fr := newFolderReadCloser(out[unbound[0]], int64(f.unpackSize()), hasEncryption) //nolint:gosec
-- 
2.43.0


From 3173b38ecabbc911b89a6b944ccafb86c07355b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 20/21] fix: keep the ARM position across its wrap at 4 GiB

A position that wrapped to exactly zero was taken for the start of the
stream, which depends on how the stream is read.
---
 internal/bra/arm.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/internal/bra/arm.go b/internal/bra/arm.go
index de8676f..f92c633 100644
--- a/internal/bra/arm.go
+++ b/internal/bra/arm.go
@@ -5,7 +5,10 @@ import (
 	"io"
 )
 
-const armAlignment = 4
+const (
+	armAlignment = 4
+	armPC        = 8 // PC is two instructions ahead
+)
 
 type arm struct {
 	ip uint32
@@ -18,28 +21,24 @@ func (c *arm) Convert(b []byte, encoding bool) int {
 		return 0
 	}
 
-	if c.ip == 0 {
-		c.ip = armAlignment
-	}
-
 	var i int
 
 	for i = 0; i < len(b) & ^(armAlignment-1); i += armAlignment {
 		v := binary.LittleEndian.Uint32(b[i:])
 
-		c.ip += armAlignment
-
 		if b[i+3] == 0xeb {
 			if encoding {
-				v += c.ip >> 2
+				v += (c.ip + armPC) >> 2
 			} else {
-				v -= c.ip >> 2
+				v -= (c.ip + armPC) >> 2
 			}
 
 			v &= 0x00ffffff
 			v |= 0xeb000000
 		}
 
+		c.ip += armAlignment
+
 		binary.LittleEndian.PutUint32(b[i:], v)
 	}
 
-- 
2.43.0


From a0ecb1a5b7c5940aef1485ab4a7fed092c7a1682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 21/21] fix: report the size of a folder's unbound output as
 the size of its only file

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index d707ad7..11a5c9e 100644
--- a/struct.go
+++ b/struct.go
@@ -255,7 +255,7 @@ func (si *streamsInfo) FileFolderAndSize(file int) (int, uint64, uint32, error)
 			crc = si.unpackInfo.digest[folder]
 		}
 
-		return folder, si.unpackInfo.folder[folder].size[len(si.unpackInfo.folder[folder].coder)-1], crc, nil
+		return folder, si.unpackInfo.folder[folder].unpackSize(), crc, nil
 	}
 
 	if si.subStreamsInfo == nil || file >= len(si.subStreamsInfo.size) {
-- 
2.43.0

