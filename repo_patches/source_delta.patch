From 1f6e4e130cf3e5dd4ded5ecd1082a7b20ffd8133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:12 +0000
Subject: [PATCH 01/57] fix: read continuation areas when listing an opened
 directory

---
 pkg/iso9660/file.go | 3 ++-
 pkg/iso9660/walk.go | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/file.go b/pkg/iso9660/file.go
index 5408633..911ab2b 100644
--- a/pkg/iso9660/file.go
+++ b/pkg/iso9660/file.go
@@ -24,6 +24,7 @@ import (
 type File struct {
 	name string
 	fi   *FileInfo
+	iso  io.ReaderAt
 	r    *io.SectionReader
 	pos  int64
 }
@@ -62,7 +63,7 @@ func (f *File) ReadDir() ([]*FileInfo, error) {
 	}
 
 	var entries []*FileInfo
-	err := iterDir(f.r, 0, f.r.Size(), func(fi *FileInfo) bool {
+	err := iterDir(f.iso, f.fi.Extent(), f.fi.Size(), func(fi *FileInfo) bool {
 		entries = append(entries, fi)
 		return true
 	})
diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index a786237..deffd09 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -122,6 +122,7 @@ func (w *Walker) Open(name string) (*File, error) {
 	return &File{
 		name: name,
 		fi:   fi,
+		iso:  w.iso,
 		r:    io.NewSectionReader(w.iso, int64(fi.Extent())*LogicalBlockSize, fi.Size()),
 	}, nil
 }
-- 
2.43.0


From d81cd70237bbe1d860826774601d7d0bbb061e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:12 +0000
Subject: [PATCH 02/57] fix: decode symlink targets that end in ".", ".." or
 "/"

---
 pkg/iso9660/rrip/sl.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/pkg/iso9660/rrip/sl.go b/pkg/iso9660/rrip/sl.go
index e3c7e19..259ded1 100644
--- a/pkg/iso9660/rrip/sl.go
+++ b/pkg/iso9660/rrip/sl.go
@@ -228,23 +228,16 @@ func DecodeSymlink(entries []susp.SystemUseEntry) (string, bool) {
 
 			if comp.Flags()&SymlinkComponentFlagCurrent != 0 {
 				parts = append(parts, ".")
-				continue
-			}
-
-			if comp.Flags()&SymlinkComponentFlagParent != 0 {
+			} else if comp.Flags()&SymlinkComponentFlagParent != 0 {
 				parts = append(parts, "..")
-				continue
-			}
-
-			if comp.Flags()&SymlinkComponentFlagRoot != 0 {
+			} else if comp.Flags()&SymlinkComponentFlagRoot != 0 {
 				parts = append(parts, "")
-				continue
-			}
-
-			partial = partial + comp.Data()
-			if comp.Flags()&SymlinkComponentFlagContinue == 0 {
-				parts = append(parts, partial)
-				partial = ""
+			} else {
+				partial = partial + comp.Data()
+				if comp.Flags()&SymlinkComponentFlagContinue == 0 {
+					parts = append(parts, partial)
+					partial = ""
+				}
 			}
 			if !v.Continue() {
 				return strings.Join(parts, string(os.PathSeparator)), true
-- 
2.43.0


From 18e0d347d6536ba998e82e0ac6b0886d3e231782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:12 +0000
Subject: [PATCH 03/57] fix: report the right paths when walking deep trees

---
 pkg/iso9660/walk.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index deffd09..8966597 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -80,8 +80,10 @@ func (w *Walker) Walk(root string, walkFn filepath.WalkFunc) (err error) {
 			}
 
 			if fi.IsDir() && fi.Name() != "." && fi.Name() != ".." {
+				// Siblings must not share a backing array.
+				parts := append([]string{}, item.parts...)
 				q.Enqueue(&walkItem{
-					parts: append(item.parts, fi.Name()),
+					parts: append(parts, fi.Name()),
 					fi:    fi,
 				})
 			}
-- 
2.43.0


From d6af3a5f79904d56fe04991458071dd6705058a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:12 +0000
Subject: [PATCH 04/57] fix: resolve absolute symlink targets from the volume
 root

---
 pkg/iso9660/walk.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 8966597..52bdec2 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -171,7 +171,10 @@ func (w *Walker) stat(parts []string) (*FileInfo, error) {
 				// If the symlink is a file, only join the directory part of the path
 				path = filepath.Dir(path)
 			}
-			joined := filepath.Clean(filepath.Join(path, fi.Target()))
+			joined := fi.Target()
+			if !filepath.IsAbs(joined) {
+				joined = filepath.Join(path, joined)
+			}
 			parts = w.pathParts(joined)
 		} else {
 			return fi, nil
-- 
2.43.0


From 0d653b6885cfeb2185f767d7d733a18be4aaaad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:30 +0000
Subject: [PATCH 05/57] fix: keep the path lookup cache keyed by full paths

---
 pkg/iso9660/walk.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 52bdec2..c7f34dd 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -144,8 +144,10 @@ func (w *Walker) ReadDir(dirname string) ([]*FileInfo, error) {
 	}
 
 	err = iterDir(w.iso, fi.Extent(), fi.Size(), func(fi *FileInfo) bool {
-		cacheKey := filepath.Join(filepath.Clean("/"+dirname), fi.Name())
-		w.lstatCache.Add(cacheKey, fi)
+		if fi.Name() != "." && fi.Name() != ".." {
+			cacheKey := filepath.Join(filepath.Clean("/"+dirname), fi.Name())
+			w.lstatCache.Add(cacheKey, fi)
+		}
 		entries = append(entries, fi)
 		return true
 	})
@@ -187,7 +189,8 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 	var start LogicalBlockAddress
 	var size int64
 	var cached *FileInfo
-	cached, parts = w.lstatCacheSearch(append([]string{"."}, parts...))
+	all := append([]string{"."}, parts...)
+	cached, parts = w.lstatCacheSearch(all)
 	if cached == nil {
 		var pvd PrimaryVolumeDescriptor
 		pvdSector := io.NewSectionReader(w.iso, 16*LogicalBlockSize, LogicalBlockSize)
@@ -198,20 +201,25 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 		start = pvd.RootStart
 		size = int64(pvd.RootLength)
 	} else if len(parts) > 0 {
+		if !cached.IsDir() {
+			return nil, syscall.ENOTDIR
+		}
 		start = cached.Extent()
 		size = cached.Size()
 	} else {
 		return cached, nil
 	}
 
-	var path []string
+	// Cache keys are relative to the root, so start from the components
+	// the cache has already resolved.
+	path := append([]string{}, all[:len(all)-len(parts)]...)
 	for len(parts) > 0 {
 		part := parts[0]
 		parts = parts[1:]
 
 		var partInfo *FileInfo
 		err := iterDir(w.iso, start, size, func(fi *FileInfo) bool {
-			if fi.IsDir() {
+			if fi.IsDir() && fi.Name() != "." && fi.Name() != ".." {
 				w.lstatCacheAdd(append(path, fi.Name()), fi)
 			}
 
-- 
2.43.0


From 25991916e65c66238cb4ad746c6f60ef4b4017b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:53 +0000
Subject: [PATCH 06/57] fix: write the sector allocated to an empty file

---
 pkg/iso9660/volume.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/iso9660/volume.go b/pkg/iso9660/volume.go
index 2184966..63185c2 100644
--- a/pkg/iso9660/volume.go
+++ b/pkg/iso9660/volume.go
@@ -394,15 +394,17 @@ func (v *Volume) WriteTo(w io.Writer) (int64, error) {
 			return nil
 		}
 		assertLBA(finode.Start())
-		if _, err := finode.WriteTo(cw); err != nil {
+		n, err := finode.WriteTo(cw)
+		if err != nil {
 			return err
 		}
 
-		if err := padOutSector(); err != nil {
-			return err
+		if n == 0 {
+			// empty files still occupy one sector
+			return pad(cw, LogicalBlockSize)
 		}
 
-		return nil
+		return padOutSector()
 	})
 
 	return cw.Written(), err
-- 
2.43.0


From ac8baae6365f2141c54b0fa923046f4d7c2a7be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:46 +0000
Subject: [PATCH 07/57] fix: report read errors and truncation while iterating
 a directory

---
 pkg/iso9660/walk.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index c7f34dd..48935b2 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -314,6 +314,9 @@ func allSystemUseEntries(iso io.ReaderAt, rec *DirectoryRecord) ([]susp.SystemUs
 			if err != nil {
 				return nil, err
 			}
+			if pos, _ := ce.Seek(0, io.SeekCurrent); pos < ce.Size() {
+				return nil, io.ErrUnexpectedEOF
+			}
 
 			unconsumed = append(unconsumed, more...)
 		default:
@@ -524,9 +527,14 @@ func (it *DirectoryRecordIterator) Next() bool {
 			it.recLen = -1
 			if err == io.EOF {
 				it.err = nil
+				if it.Tell() < it.dir.Size() {
+					// the volume ends before the directory does
+					it.err = io.ErrUnexpectedEOF
+				}
 				return false
 			}
 			it.err = err
+			return false
 		}
 
 		if rlen == 0 {
-- 
2.43.0


From 320d9b4eab2a715c132f5168b2641b9a9543b4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:46 +0000
Subject: [PATCH 08/57] fix: address directories beyond the first 4 GiB of a
 volume

---
 pkg/iso9660/walk.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 48935b2..4618c4a 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -307,9 +307,9 @@ func allSystemUseEntries(iso io.ReaderAt, rec *DirectoryRecord) ([]susp.SystemUs
 		switch v := entry.(type) {
 		case *susp.ContinuationAreaEntry:
 
-			ceStart := v.ContinuationStart()*LogicalBlockSize + v.ContinuationOffset()
+			ceStart := int64(v.ContinuationStart())*LogicalBlockSize + int64(v.ContinuationOffset())
 			ceLen := v.ContinuationLength()
-			ce := io.NewSectionReader(iso, int64(ceStart), int64(ceLen))
+			ce := io.NewSectionReader(iso, ceStart, int64(ceLen))
 			more, err := DecodeSystemUseEntries(ce)
 			if err != nil {
 				return nil, err
@@ -486,7 +486,7 @@ func (it *ReadDirIterator) FileInfoAndLen() (*FileInfo, int64) {
 // DirectoryRecords for a directory with start and size and off offset
 // into the directory.
 func NewDirectoryRecordIterator(iso io.ReaderAt, start LogicalBlockAddress, size int64, off int64) *DirectoryRecordIterator {
-	dir := io.NewSectionReader(iso, int64(start*LogicalBlockSize), size)
+	dir := io.NewSectionReader(iso, int64(start)*LogicalBlockSize, size)
 	_, err := dir.Seek(off, io.SeekStart)
 	return &DirectoryRecordIterator{
 		dir:    dir,
-- 
2.43.0


From e1c3ad7f5859fc4fff4d1e8c2ab865aa41c10dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:50 +0000
Subject: [PATCH 09/57] fix: number path table records from 1

---
 pkg/iso9660/directoryinode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/directoryinode.go b/pkg/iso9660/directoryinode.go
index 59b390b..9e71a3c 100644
--- a/pkg/iso9660/directoryinode.go
+++ b/pkg/iso9660/directoryinode.go
@@ -353,7 +353,8 @@ func (d *DirectoryInode) toDirectory(contStart LogicalBlockAddress) (Directory,
 
 //ToPathTable computes the PathTable for the inode
 func (d *DirectoryInode) ToPathTable() PathTable {
-	var idx uint16
+	// path table parent numbers count from 1
+	idx := uint16(1)
 	indices := make(map[Inode]uint16)
 	var table PathTable
 
-- 
2.43.0


From e65d841dfc07fc6342709d0eabc4ba9b6be8f726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:50 +0000
Subject: [PATCH 10/57] fix: stop visiting files when the visitor fails

---
 pkg/iso9660/directoryinode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/iso9660/directoryinode.go b/pkg/iso9660/directoryinode.go
index 9e71a3c..01aa23f 100644
--- a/pkg/iso9660/directoryinode.go
+++ b/pkg/iso9660/directoryinode.go
@@ -248,12 +248,14 @@ func (d *DirectoryInode) VisitFiles(visit Visitor) error {
 			case InodeTypeDirectory:
 				q.Enqueue(dent.child)
 			case InodeTypeFile:
-				visit(Relationship{
+				if err := visit(Relationship{
 					Parent:     parent,
 					Identifier: ident,
 					Name:       dent.name,
 					Child:      dent.child,
-				})
+				}); err != nil {
+					return err
+				}
 			}
 		}
 	}
-- 
2.43.0


From 5bb5a3159f91132bff04cb07c4dc222ff10f2583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:50 +0000
Subject: [PATCH 11/57] fix: give each part of a file its own system use
 entries

---
 pkg/iso9660/directoryinode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/iso9660/directoryinode.go b/pkg/iso9660/directoryinode.go
index 01aa23f..3b49da2 100644
--- a/pkg/iso9660/directoryinode.go
+++ b/pkg/iso9660/directoryinode.go
@@ -287,7 +287,7 @@ func (d *DirectoryInode) toDirectory(contStart LogicalBlockAddress) (Directory,
 				Start:      part.Start(),
 				Length:     part.Size(),
 				Recorded:   inode.Modified(),
-				SystemUse:  systemUseEntries,
+				SystemUse:  append([]susp.SystemUseEntry(nil), systemUseEntries...),
 				VolumeID:   1,
 			}
 
-- 
2.43.0


From 53582cd9b16a619f698443aa206355569ad2a08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:17 +0000
Subject: [PATCH 12/57] fix: record the right URL for files that share an
 object

---
 pkg/vdisc/builder.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/vdisc/builder.go b/pkg/vdisc/builder.go
index 970ffa0..3050550 100644
--- a/pkg/vdisc/builder.go
+++ b/pkg/vdisc/builder.go
@@ -183,8 +183,11 @@ func (b *builder) Build() (string, error) {
 	trie := NewTrieMap()
 	trie.Put(muBase.String(), 0)
 	b.volume.VisitFileInodes(func(finode *iso9660.FileInode) error {
-		obj := finode.Object()
-		trie.Put(obj.URL(), finode.Start())
+		// files sharing a URL share its entry
+		url := finode.Object().URL()
+		if _, ok := trie.Get(url); !ok {
+			trie.Put(url, finode.Start())
+		}
 		return nil
 	})
 
@@ -253,7 +256,8 @@ func (b *builder) Build() (string, error) {
 		padding := uint16(sectorsToBytes(blocks) - obj.Size())
 
 		entry := extents.At(currExtent)
-		leaf := leaves[finode.Start()]
+		lba, _ := trie.Get(obj.URL())
+		leaf := leaves[lba]
 		entry.SetUriPrefix(safecast.IntToUint32(leaf.Parent))
 		entry.SetUriSuffix(leaf.Content)
 		entry.SetBlocks(blocks)
-- 
2.43.0


From c0d14e1c676024c13bbe9a31bd8b1aa4c3411e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:32 +0000
Subject: [PATCH 13/57] fix: resolve extent URLs against relative vdisc URLs

---
 pkg/vdisc/extent.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/vdisc/extent.go b/pkg/vdisc/extent.go
index 63aa210..2ab701f 100644
--- a/pkg/vdisc/extent.go
+++ b/pkg/vdisc/extent.go
@@ -20,6 +20,7 @@ import (
 	"io"
 	stdurl "net/url"
 	"os"
+	"path"
 	"strings"
 
 	"github.com/NVIDIA/vdisc/pkg/safecast"
@@ -70,11 +71,22 @@ func (e *extent) URL() string {
 		panic(err)
 	}
 
-	resolved := e.baseURL.ResolveReference(u)
-	if !strings.HasPrefix(e.baseURL.Path, "/") {
-		resolved.Path = strings.TrimPrefix(resolved.Path, "/")
+	base := e.baseURL.Path
+	if e.baseURL.Opaque != "" {
+		base = e.baseURL.Opaque
+	}
+	if u.IsAbs() || u.Host != "" || strings.HasPrefix(u.Path, "/") || strings.HasPrefix(base, "/") || e.baseURL.Host != "" {
+		return e.baseURL.ResolveReference(u).String()
 	}
 
+	// Both are relative to the working directory
+	resolved := *u
+	resolved.Path = path.Join(path.Dir(base), u.Path)
+	resolved.RawPath = ""
+	if e.baseURL.Scheme != "" {
+		resolved.Scheme = e.baseURL.Scheme
+		resolved.Opaque = resolved.Path
+	}
 	return resolved.String()
 }
 
-- 
2.43.0


From 0f397189454746fa7f1024463d736654657a7de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:37 +0000
Subject: [PATCH 14/57] fix: report committed local files by URL

---
 pkg/storage/file/writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/file/writer.go b/pkg/storage/file/writer.go
index 7b57030..0d7fbf8 100644
--- a/pkg/storage/file/writer.go
+++ b/pkg/storage/file/writer.go
@@ -15,6 +15,7 @@
 package filedriver
 
 import (
+	stdurl "net/url"
 	"os"
 
 	"golang.org/x/sys/unix"
@@ -42,7 +43,8 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 		return nil, err
 	}
 
-	return driver.NewCommitInfo(ow.path), nil
+	u := stdurl.URL{Path: ow.path}
+	return driver.NewCommitInfo(u.String()), nil
 }
 
 func (ow *objectWriter) Write(p []byte) (n int, err error) {
-- 
2.43.0


From 0e17955a2baeb498c3cbf89243ec2fdcd3f8bcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:44 +0000
Subject: [PATCH 15/57] fix: report a bad gzip header when loading a vdisc

---
 pkg/vdisc/loader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/vdisc/loader.go b/pkg/vdisc/loader.go
index e20bd09..41ed488 100644
--- a/pkg/vdisc/loader.go
+++ b/pkg/vdisc/loader.go
@@ -184,7 +184,10 @@ func downloadMemoryMapped(url string) ([]byte, io.Closer, error) {
 
 	var src io.Reader
 	if bytes.Equal(hdr, []byte{0x1f, 0x8b, 0x08, 0x00}) {
-		src, _ = gzip.NewReader(br)
+		src, err = gzip.NewReader(br)
+		if err != nil {
+			return nil, nil, err
+		}
 	} else {
 		src = br
 	}
-- 
2.43.0


From 3212ff2db193a752377569f0188c118007970e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:18 +0000
Subject: [PATCH 16/57] fix: refuse to load messages that hold no vdisc

---
 pkg/vdisc/loader.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/vdisc/loader.go b/pkg/vdisc/loader.go
index 41ed488..64dde72 100644
--- a/pkg/vdisc/loader.go
+++ b/pkg/vdisc/loader.go
@@ -63,12 +63,27 @@ func Load(url string, cache caching.Cache) (VDisc, error) {
 	}
 	msg.TraverseLimit = math.MaxUint64
 
+	seg, err := msg.Segment(0)
+	if err != nil {
+		mmapHandle.Close()
+		return nil, err
+	}
+	if len(seg.Data()) < 8 {
+		mmapHandle.Close()
+		return nil, fmt.Errorf("not a vdisc: %s", url)
+	}
+
 	root, err := vdisc_types.ReadRootVDisc(msg)
 	if err != nil {
 		mmapHandle.Close()
 		return nil, err
 	}
 
+	if !root.HasV1() {
+		mmapHandle.Close()
+		return nil, fmt.Errorf("not a vdisc: %s", url)
+	}
+
 	v1, err := root.V1()
 	if err != nil {
 		mmapHandle.Close()
-- 
2.43.0


From 2f46a19dd78efbe418bb1de769dcca2835262176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:34 +0000
Subject: [PATCH 17/57] fix: read past the end of a concatenation whose last
 part is empty

A read reaching beyond the end started from the empty trailing part and
stopped there, failing with an unexpected end of data.
---
 pkg/storage/concat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/concat.go b/pkg/storage/concat.go
index 3807cdd..d62e355 100644
--- a/pkg/storage/concat.go
+++ b/pkg/storage/concat.go
@@ -106,7 +106,7 @@ func (c *concatenated) ReadAt(p []byte, off int64) (n int, err error) {
 	var wg sync.WaitGroup
 	var workItems []*workItem
 
-	c.parts.DescendLessOrEqual(part{off + int64(len(p)) - 1, nil}, func(i btree.Item) bool {
+	c.parts.DescendLessOrEqual(part{end - 1, nil}, func(i btree.Item) bool {
 		part := i.(part)
 
 		y := interval.Interval{part.Offset, part.Offset + part.Obj.Size()}
-- 
2.43.0


From 0ebc755394de65b7ab1531393b4f204144de6dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:41 +0000
Subject: [PATCH 18/57] fix: report a missing object as such when HEAD is not
 allowed

The plain GET made in place of the HEAD reported HTTP 404 as any other
failure.
---
 pkg/storage/http/finfo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/storage/http/finfo.go b/pkg/storage/http/finfo.go
index 18a8813..90c2a76 100644
--- a/pkg/storage/http/finfo.go
+++ b/pkg/storage/http/finfo.go
@@ -43,6 +43,9 @@ func Stat(c *http.Client, url string) (int64, error) {
 			return -1, err
 		}
 		defer resp.Body.Close()
+		if resp.StatusCode == 404 {
+			return -1, os.ErrNotExist
+		}
 		if resp.StatusCode != 200 {
 			return -1, fmt.Errorf("http get %q: HTTP %d", url, resp.StatusCode)
 		}
-- 
2.43.0


From 690b31df792c5314ced2805c964a3eadc07aded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:49 +0000
Subject: [PATCH 19/57] fix: refuse a Content-Range of 2^63 bytes or more
 without panicking

The length of the range was converted before the range was compared with
the one asked for.
---
 pkg/storage/http/object.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/storage/http/object.go b/pkg/storage/http/object.go
index 71b1ec1..7e43b12 100644
--- a/pkg/storage/http/object.go
+++ b/pkg/storage/http/object.go
@@ -144,13 +144,13 @@ func (o *object) ReadAt(p []byte, off int64) (n int, err error) {
 		return
 	}
 
-	if safecast.Uint64ToInt64(contentRange.Len()) != resp.ContentLength {
-		err = fmt.Errorf("http get %q: mismatch: Content-Range total %d, Content-Length %d", o.url, contentRange.Total, resp.ContentLength)
+	if contentRange.First != safecast.Int64ToUint64(off) || contentRange.Last != safecast.Int64ToUint64(end-1) {
+		err = fmt.Errorf("http get %q: range/content-range mismatch: \"range=%d-%d\" vs %q", o.url, off, end-1, resp.Header.Get("Content-Range"))
 		return
 	}
 
-	if contentRange.First != safecast.Int64ToUint64(off) || contentRange.Last != safecast.Int64ToUint64(end-1) {
-		err = fmt.Errorf("http get %q: range/content-range mismatch: \"range=%d-%d\" vs %q", o.url, off, end-1, resp.Header.Get("Content-Range"))
+	if safecast.Uint64ToInt64(contentRange.Len()) != resp.ContentLength {
+		err = fmt.Errorf("http get %q: mismatch: Content-Range total %d, Content-Length %d", o.url, contentRange.Total, resp.ContentLength)
 		return
 	}
 
-- 
2.43.0


From 24d75590fa3fb6c938a43bb7c1eafa71d3d1ba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:37 +0000
Subject: [PATCH 20/57] fix: close the responses of attempts that are retried

Their connections were never released.
---
 pkg/httputil/retry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/httputil/retry.go b/pkg/httputil/retry.go
index f17c43e..ee2b6e3 100644
--- a/pkg/httputil/retry.go
+++ b/pkg/httputil/retry.go
@@ -68,6 +68,9 @@ type retryingRoundTripper struct {
 
 func (r *retryingRoundTripper) RoundTrip(req *http.Request) (resp *http.Response, err error) {
 	retry(func() (retry bool) {
+		if resp != nil {
+			resp.Body.Close()
+		}
 		resp, err = r.rt.RoundTrip(req)
 		retry = err != nil || resp.StatusCode >= 500 || resp.StatusCode == 429
 		if retry {
-- 
2.43.0


From 926bfcd5a556c8b4940bcf1c052efd2d7d77dceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:37 +0000
Subject: [PATCH 21/57] fix: send the request body again when retrying

Retries sent what was left of the body, which is nothing. A request whose
body cannot be had again is not retried.
---
 pkg/httputil/retry.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/httputil/retry.go b/pkg/httputil/retry.go
index ee2b6e3..f55baff 100644
--- a/pkg/httputil/retry.go
+++ b/pkg/httputil/retry.go
@@ -67,12 +67,26 @@ type retryingRoundTripper struct {
 }
 
 func (r *retryingRoundTripper) RoundTrip(req *http.Request) (resp *http.Response, err error) {
+	attempts := 0
+	hasBody := req.Body != nil && req.Body != http.NoBody
 	retry(func() (retry bool) {
 		if resp != nil {
 			resp.Body.Close()
 		}
+		if attempts > 0 && hasBody {
+			// the body was consumed by the previous attempt
+			req = req.WithContext(req.Context())
+			if req.Body, err = req.GetBody(); err != nil {
+				resp = nil
+				return
+			}
+		}
+		attempts++
 		resp, err = r.rt.RoundTrip(req)
 		retry = err != nil || resp.StatusCode >= 500 || resp.StatusCode == 429
+		if hasBody && req.GetBody == nil {
+			retry = false
+		}
 		if retry {
 			if err != nil {
 				warnf("retrying %s: %s\n", req.URL.String(), err)
-- 
2.43.0


From da2f05d9ffb630233c3bf05cc87da5deef89ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:05 +0000
Subject: [PATCH 22/57] fix: keep depth-first visits from overwriting pending
 directories

The remaining stack shared its backing array with the directories being
handed to the workers.  Appending a subdirectory overwrote one that had
not been handed out yet.
---
 pkg/storage/driver/visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/driver/visitor.go b/pkg/storage/driver/visitor.go
index f59ccbc..fd74cab 100644
--- a/pkg/storage/driver/visitor.go
+++ b/pkg/storage/driver/visitor.go
@@ -117,7 +117,7 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 			// If in depth-first mode, we want to keep grabbing the top of the stack and process only that each iteration.
 			amt := len(nextPaths) - minI(len(nextPaths), maxWorkers)
 			paths = nextPaths[amt:]
-			nextPaths = nextPaths[:amt]
+			nextPaths = nextPaths[:amt:amt]
 		} else {
 			paths = nextPaths
 			nextPaths = make([]string, 0)
-- 
2.43.0


From 9654ad054a6a291e64e5faa72ebbe595524a4ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:05 +0000
Subject: [PATCH 23/57] fix: stop feeding visit workers once the visit ended

When the workers quit early the feeding goroutine was blocked for ever.
---
 pkg/storage/driver/visitor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/driver/visitor.go b/pkg/storage/driver/visitor.go
index fd74cab..86f20f9 100644
--- a/pkg/storage/driver/visitor.go
+++ b/pkg/storage/driver/visitor.go
@@ -139,7 +139,10 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 		// Feed workers.
 		go func() {
 			for _, p := range paths {
-				inputPaths <- p
+				select {
+				case inputPaths <- p:
+				case <-ctx.Done():
+				}
 			}
 			// Signal there's no more work.
 			close(inputPaths)
-- 
2.43.0


From c269613119bb8c778c1bf27e8310e00ffd8e6199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:05 +0000
Subject: [PATCH 24/57] fix: report the error that ended a visit

When the last worker failed or the context was cancelled, the end of the
results could be seen first and the visit returned success.
---
 pkg/storage/driver/visitor.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/storage/driver/visitor.go b/pkg/storage/driver/visitor.go
index 86f20f9..05fd1db 100644
--- a/pkg/storage/driver/visitor.go
+++ b/pkg/storage/driver/visitor.go
@@ -166,6 +166,16 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 				return ctx.Err()
 			}
 		}
+
+		// All workers ended, but maybe not because the work was done.
+		select {
+		case err := <-errors:
+			return err
+		default:
+		}
+		if err := ctx.Err(); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 320ab7cc0b9edbfbc951a6aef3053e7e5a788df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:26 +0000
Subject: [PATCH 25/57] fix: do not remember blocks that could not be read
 ahead

After a failed read-ahead the buffer was kept as if it held the block,
with no bytes in it.  Reads of the block then ended early.
---
 pkg/caching/mem.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/caching/mem.go b/pkg/caching/mem.go
index bd2d1ce..a62cc8f 100644
--- a/pkg/caching/mem.go
+++ b/pkg/caching/mem.go
@@ -192,6 +192,12 @@ func (b *memBuf) Fill(key string, ff memBufFillFunc) (err error) {
 		b.key = key
 		b.n, err = ff(b.buf)
 	}
+
+	if err != nil {
+		// Reset the buffer on error, see FillAndCopyAt.
+		b.key = ""
+		b.n = 0
+	}
 	return
 }
 
-- 
2.43.0


From e773a5220b6303f2efb05e092172fa0c06461d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:55 +0000
Subject: [PATCH 26/57] fix: close the cached block opened while filling the
 disk cache

---
 pkg/caching/disk.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index b86afc2..b82b328 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -262,6 +262,8 @@ func (ds *diskSlice) fill(p []byte, off int64) (n int, err error) {
 	// Double check that we didn't lose the race trying to write to the cache
 	cobj, serr := storage.Open(fname)
 	if serr == nil {
+		defer cobj.Close()
+
 		switch xobj := cobj.(type) {
 		case driver.XattrObject:
 			ckey, xerr := xobj.GetXattr(XattrKey)
-- 
2.43.0


From c20b448862fe78675e29edc2cd75572d9f5c86e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:41 +0000
Subject: [PATCH 27/57] fix: wait for the upload to start before committing an
 object

---
 pkg/storage/s3/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/s3/writer.go b/pkg/storage/s3/writer.go
index 0b43593..b7d929b 100644
--- a/pkg/storage/s3/writer.go
+++ b/pkg/storage/s3/writer.go
@@ -112,7 +112,7 @@ func (ow *objectWriter) ReadFrom(r io.Reader) (int64, error) {
 func (ow *objectWriter) Write(b []byte) (int, error) {
 	if atomic.CompareAndSwapInt32(&ow.state, writerStateOpened, writerStatePiped) {
 		ow.pipeReader, ow.pipeWriter = io.Pipe()
-		go ow.startPiped()
+		ow.startPiped()
 	} else if atomic.LoadInt32(&ow.state) == writerStateDirect {
 		return 0, fmt.Errorf("can't mix ReadFrom and Write")
 	}
@@ -123,7 +123,7 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 	if atomic.CompareAndSwapInt32(&ow.state, writerStateOpened, writerStatePiped) {
 		// Nothing written yet, start the writer now to produce a zero-byte file.
 		ow.pipeReader, ow.pipeWriter = io.Pipe()
-		go ow.startPiped()
+		ow.startPiped()
 	}
 	if atomic.LoadInt32(&ow.state) == writerStatePiped {
 		ow.pipeWriter.Close()
-- 
2.43.0


From f957b03d41269ad87a097bd723a89f19e3bb653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:41 +0000
Subject: [PATCH 28/57] fix: do not publish an object after its writer was
 aborted

---
 pkg/storage/s3/writer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/s3/writer.go b/pkg/storage/s3/writer.go
index b7d929b..f50a9ce 100644
--- a/pkg/storage/s3/writer.go
+++ b/pkg/storage/s3/writer.go
@@ -34,8 +34,11 @@ const (
 	writerStateOpened int32 = iota
 	writerStatePiped
 	writerStateDirect
+	writerStateAborted
 )
 
+var errAborted = errors.New("abort file creation")
+
 func NewObjectWriter(svc s3iface.S3API, bucket, key, canonicalURL string) driver.ObjectWriter {
 	return &objectWriter{
 		uploader:     s3util.NewS3Uploader(svc),
@@ -115,6 +118,8 @@ func (ow *objectWriter) Write(b []byte) (int, error) {
 		ow.startPiped()
 	} else if atomic.LoadInt32(&ow.state) == writerStateDirect {
 		return 0, fmt.Errorf("can't mix ReadFrom and Write")
+	} else if atomic.LoadInt32(&ow.state) == writerStateAborted {
+		return 0, errAborted
 	}
 	return ow.pipeWriter.Write(b)
 }
@@ -125,6 +130,9 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 		ow.pipeReader, ow.pipeWriter = io.Pipe()
 		ow.startPiped()
 	}
+	if atomic.LoadInt32(&ow.state) == writerStateAborted {
+		return nil, errAborted
+	}
 	if atomic.LoadInt32(&ow.state) == writerStatePiped {
 		ow.pipeWriter.Close()
 		ow.wg.Wait()
@@ -137,9 +145,12 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 }
 
 func (ow *objectWriter) Abort() {
+	if atomic.CompareAndSwapInt32(&ow.state, writerStateOpened, writerStateAborted) {
+		return
+	}
 	if atomic.LoadInt32(&ow.state) == writerStatePiped {
 		// TODO: log error
-		ow.pipeWriter.CloseWithError(errors.New("abort file creation"))
+		ow.pipeWriter.CloseWithError(errAborted)
 		ow.wg.Wait()
 	}
 }
-- 
2.43.0


From bd3d1365866982e4c9f8e0f251d587bad6cd0d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:41 +0000
Subject: [PATCH 29/57] fix: fail the commit of an object whose streaming
 failed

---
 pkg/storage/s3/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/storage/s3/writer.go b/pkg/storage/s3/writer.go
index f50a9ce..b99cfeb 100644
--- a/pkg/storage/s3/writer.go
+++ b/pkg/storage/s3/writer.go
@@ -94,6 +94,7 @@ func (ow *objectWriter) ReadFromContext(ctx context.Context, r io.Reader, counte
 			u.ProgressCounter = counter
 		})
 		if err != nil {
+			ow.err = err
 			return err
 		}
 		if resp.VersionID != nil {
-- 
2.43.0


From aa365ca3ff0370f1727c08869db6cbc7784e833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:41 +0000
Subject: [PATCH 30/57] fix: upload a seekable body from its current position

---
 pkg/s3util/uploader.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/s3util/uploader.go b/pkg/s3util/uploader.go
index 70657da..1a5a7e5 100644
--- a/pkg/s3util/uploader.go
+++ b/pkg/s3util/uploader.go
@@ -98,6 +98,7 @@ type uploader struct {
 
 	in *S3UploadInput
 
+	bodyPos   int64 // position of a seekable body when the upload began
 	readerPos int64 // current reader position
 	totalSize int64 // set to -1 if the size is not known
 
@@ -157,6 +158,11 @@ func (u *uploader) initSize() {
 		if err != nil {
 			return
 		}
+		pos, err := r.Seek(0, io.SeekCurrent)
+		if err != nil {
+			return
+		}
+		u.bodyPos = pos
 		u.totalSize = n
 
 		// Try to adjust partSize if it is too small and account for
@@ -191,7 +197,7 @@ func (u *uploader) nextReader() (readerAtSeeker, int, []byte, error) {
 				n = bytesLeft
 			}
 		}
-		reader := io.NewSectionReader(r, u.readerPos, n)
+		reader := io.NewSectionReader(r, u.bodyPos+u.readerPos, n)
 		u.readerPos += n
 
 		return reader, int(n), nil, err
-- 
2.43.0


From ad5540ab55359267701fa3a6c26a8725376107ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:41 +0000
Subject: [PATCH 31/57] fix: abort a multipart upload whose context was
 cancelled

---
 pkg/s3util/uploader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/s3util/uploader.go b/pkg/s3util/uploader.go
index 1a5a7e5..1e23950 100644
--- a/pkg/s3util/uploader.go
+++ b/pkg/s3util/uploader.go
@@ -445,7 +445,8 @@ func (u *multiuploader) fail() {
 		Key:      u.in.Key,
 		UploadId: &u.uploadID,
 	}
-	u.cfg.S3.AbortMultipartUploadWithContext(u.ctx, params)
+	// The upload may have failed because its context was cancelled.
+	u.cfg.S3.AbortMultipartUploadWithContext(aws.BackgroundContext(), params)
 }
 
 // complete successfully completes a multipart upload and returns the response.
-- 
2.43.0


From fa956c8ca6610096198ef2cdbc6031592b0c9ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:41 +0000
Subject: [PATCH 32/57] fix: dial IPv6 addresses of round robin hosts

---
 pkg/httputil/rr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/httputil/rr.go b/pkg/httputil/rr.go
index 79cb3e4..a850ce0 100644
--- a/pkg/httputil/rr.go
+++ b/pkg/httputil/rr.go
@@ -289,5 +289,5 @@ func (d *staticIPDialer) Dial(network string, addr string) (conn net.Conn, err e
 
 func (d *staticIPDialer) DialContext(ctx context.Context, network string, addr string) (conn net.Conn, err error) {
 	separator := strings.LastIndex(addr, ":")
-	return d.dial(ctx, network, d.ipaddr+addr[separator:])
+	return d.dial(ctx, network, net.JoinHostPort(d.ipaddr, addr[separator+1:]))
 }
-- 
2.43.0


From 010d4296afc9be9ab0be2cece9720411693585da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:41 +0000
Subject: [PATCH 33/57] fix: stop the resolver of a host dropped from the round
 robin transport

---
 pkg/httputil/rr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/httputil/rr.go b/pkg/httputil/rr.go
index a850ce0..f9aeb0d 100644
--- a/pkg/httputil/rr.go
+++ b/pkg/httputil/rr.go
@@ -166,6 +166,7 @@ func newHostRoundRobinTransport(host string, cfg RoundRobinTransportConfig) *hos
 		host: host,
 		cfg:  cfg,
 		rand: rand.New(rand.NewSource(time.Now().UnixNano())),
+		done: make(chan interface{}),
 	}
 	// ensure Resolve() has been run at least once
 	t.Resolve()
-- 
2.43.0


From d603e38fd59a0da9b1b5447e60f6b8224afcf057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:41 +0000
Subject: [PATCH 34/57] fix: shuffle a copy of the resolver's address list

---
 pkg/httputil/rr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/httputil/rr.go b/pkg/httputil/rr.go
index f9aeb0d..b951a3f 100644
--- a/pkg/httputil/rr.go
+++ b/pkg/httputil/rr.go
@@ -214,6 +214,8 @@ func (hrrt *hostRoundRobinTransport) Resolve() {
 		return
 	}
 
+	// The list is the resolver's.
+	ips = append([]string(nil), ips...)
 	hrrt.rand.Shuffle(len(ips), func(i, j int) {
 		ips[i], ips[j] = ips[j], ips[i]
 	})
-- 
2.43.0


From 8bef0a34b1d48d209ca61914e6c6ac68c304922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:04:29 +0000
Subject: [PATCH 35/57] fix: map the location constraint of a bucket to its
 region

---
 pkg/storage/s3/region.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/s3/region.go b/pkg/storage/s3/region.go
index cf52c12..89f1d07 100644
--- a/pkg/storage/s3/region.go
+++ b/pkg/storage/s3/region.go
@@ -25,6 +25,7 @@ import (
 
 	"github.com/aws/aws-sdk-go/aws/ec2metadata"
 	"github.com/aws/aws-sdk-go/aws/session"
+	"github.com/aws/aws-sdk-go/service/s3"
 )
 
 const DefaultRegion = "us-east-1"
@@ -97,7 +98,9 @@ func getBucketRegion(c *http.Client, bucketName string) regionPromise {
 			return "", err
 		}
 
-		return res.Location, nil
+		// Buckets in us-east-1 have no location constraint and old ones in
+		// eu-west-1 have the constraint EU.
+		return s3.NormalizeBucketLocation(res.Location), nil
 	})
 }
 
-- 
2.43.0


From 3d29931208100060eb7ab88a24031ff3596be767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:04:29 +0000
Subject: [PATCH 36/57] fix: use endpoints every region has for buckets

---
 pkg/storage/s3/s3.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/s3/s3.go b/pkg/storage/s3/s3.go
index 40ff199..118f8f6 100644
--- a/pkg/storage/s3/s3.go
+++ b/pkg/storage/s3/s3.go
@@ -188,7 +188,11 @@ func (d *Driver) parseURL(url string) (*parsedURL, error) {
 	}
 
 	u.Scheme = "https"
-	u.Host = fmt.Sprintf("%s.s3-%s.amazonaws.com", bucket, bucketRegion)
+	domain := "com"
+	if strings.HasPrefix(bucketRegion, "cn-") {
+		domain = "com.cn"
+	}
+	u.Host = fmt.Sprintf("%s.s3.%s.amazonaws.%s", bucket, bucketRegion, domain)
 
 	return &parsedURL{
 		URL:          u,
-- 
2.43.0


From 0f580e118042866147ea4f640ed2e8eaa09286d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:11:10 +0000
Subject: [PATCH 37/57] fix: pass the version marker on when listing a bucket

---
 pkg/s3util/listbucket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/s3util/listbucket.go b/pkg/s3util/listbucket.go
index 5b8809e..c1f3d3e 100644
--- a/pkg/s3util/listbucket.go
+++ b/pkg/s3util/listbucket.go
@@ -91,7 +91,7 @@ func ListBucket(client *http.Client, url string, callback ListBucketCallback) er
 		nextUrl := url
 		if nextVersionId != nil || nextKey != nil {
 			if nextKey != nil && nextVersionId != nil {
-				nextUrl = fmt.Sprintf("%s&key-marker=%s&verion-id-marker%s", url, stdurl.QueryEscape(*nextKey), stdurl.QueryEscape(*nextVersionId))
+				nextUrl = fmt.Sprintf("%s&key-marker=%s&version-id-marker=%s", url, stdurl.QueryEscape(*nextKey), stdurl.QueryEscape(*nextVersionId))
 			} else if nextKey != nil {
 				nextUrl = fmt.Sprintf("%s&key-marker=%s", url, stdurl.QueryEscape(*nextKey))
 			} else if nextVersionId != nil {
-- 
2.43.0


From dd75dd82360c34b2183f34b876a0a9e74fc16615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:11:10 +0000
Subject: [PATCH 38/57] fix: fail listings that do not advance

---
 pkg/s3util/listbucket.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pkg/s3util/listbucket.go b/pkg/s3util/listbucket.go
index c1f3d3e..eccc3e2 100644
--- a/pkg/s3util/listbucket.go
+++ b/pkg/s3util/listbucket.go
@@ -130,6 +130,10 @@ func ListBucket(client *http.Client, url string, callback ListBucketCallback) er
 			return err
 		}
 
+		if page.IsTruncated && !advances(&page, nextKey, nextVersionId) {
+			return fmt.Errorf("s3 readdir: truncated bucket listing without a new marker")
+		}
+
 		nextVersionId = page.NextVersionIdMarker
 		nextKey = page.NextKeyMarker
 
@@ -143,3 +147,19 @@ func ListBucket(client *http.Client, url string, callback ListBucketCallback) er
 
 	return nil
 }
+
+// advances tells whether the next page differs from the one the markers given
+// were for.
+func advances(page *ListBucketPage, key, versionId *string) bool {
+	value := func(s *string) string {
+		if s == nil {
+			return ""
+		}
+		return *s
+	}
+	nextKey, nextVersionId := value(page.NextKeyMarker), value(page.NextVersionIdMarker)
+	if nextKey == "" && nextVersionId == "" {
+		return false
+	}
+	return nextKey != value(key) || nextVersionId != value(versionId)
+}
-- 
2.43.0


From 9c5238d310748e8864ab5b0975528d884e034749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:11:10 +0000
Subject: [PATCH 39/57] fix: reject listed prefixes without a separator

---
 pkg/storage/s3/s3.go       | 3 +++
 pkg/storage/swift/swift.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/storage/s3/s3.go b/pkg/storage/s3/s3.go
index 118f8f6..a004988 100644
--- a/pkg/storage/s3/s3.go
+++ b/pkg/storage/s3/s3.go
@@ -150,6 +150,9 @@ func (d *Driver) Readdir(ctx context.Context, url string) ([]os.FileInfo, error)
 
 		for _, entry := range page.CommonPrefixes {
 			parts := strings.Split(entry.Prefix, "/")
+			if len(parts) < 2 {
+				return fmt.Errorf("s3driver: bad prefix in bucket listing: %q", entry.Prefix)
+			}
 			results = append(results, &finfo{
 				name:    parts[len(parts)-2],
 				size:    4096,
diff --git a/pkg/storage/swift/swift.go b/pkg/storage/swift/swift.go
index c8b3980..811968b 100644
--- a/pkg/storage/swift/swift.go
+++ b/pkg/storage/swift/swift.go
@@ -151,6 +151,9 @@ func (d *Driver) Readdir(ctx context.Context, url string) ([]os.FileInfo, error)
 
 		for _, entry := range page.CommonPrefixes {
 			parts := strings.Split(entry.Prefix, "/")
+			if len(parts) < 2 {
+				return fmt.Errorf("swiftdriver: bad prefix in bucket listing: %q", entry.Prefix)
+			}
 			results = append(results, &finfo{
 				name:    parts[len(parts)-2],
 				size:    4096,
-- 
2.43.0


From 829a9c810299c7c0e53dd6a0cde92c2402bbceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:11:20 +0000
Subject: [PATCH 40/57] fix: list the container a swift URL names

---
 pkg/s3util/listbucket.go   | 9 +++++++--
 pkg/storage/swift/swift.go | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/s3util/listbucket.go b/pkg/s3util/listbucket.go
index eccc3e2..39af58a 100644
--- a/pkg/s3util/listbucket.go
+++ b/pkg/s3util/listbucket.go
@@ -62,6 +62,11 @@ type ListBucketPage struct {
 type ListBucketCallback func(page *ListBucketPage) error
 
 func ListBucket(client *http.Client, url string, callback ListBucketCallback) error {
+	return ListBucketAt(client, url, "/", callback)
+}
+
+// ListBucketAt lists a directory of a bucket found at the given path.
+func ListBucketAt(client *http.Client, url string, bucketPath string, callback ListBucketCallback) error {
 	v := stdurl.Values{}
 	v.Set("delimiter", "/")
 
@@ -70,14 +75,14 @@ func ListBucket(client *http.Client, url string, callback ListBucketCallback) er
 		return err
 	}
 
-	dirpath := u.Path
+	dirpath := strings.TrimPrefix(u.Path, bucketPath)
 	if strings.HasPrefix(dirpath, "/") {
 		dirpath = dirpath[1:]
 	}
 	if !strings.HasSuffix(dirpath, "/") {
 		dirpath += "/"
 	}
-	u.Path = "/"
+	u.Path = bucketPath
 	if dirpath != "/" {
 		v.Set("prefix", dirpath)
 	}
diff --git a/pkg/storage/swift/swift.go b/pkg/storage/swift/swift.go
index 811968b..97e3d9e 100644
--- a/pkg/storage/swift/swift.go
+++ b/pkg/storage/swift/swift.go
@@ -124,7 +124,7 @@ func (d *Driver) Readdir(ctx context.Context, url string) ([]os.FileInfo, error)
 	c := d.newClient(ctx, parsed.Account)
 
 	var results []os.FileInfo
-	err = s3util.ListBucket(c, parsed.URL.String(), func(page *s3util.ListBucketPage) error {
+	err = s3util.ListBucketAt(c, parsed.URL.String(), "/"+parsed.Container, func(page *s3util.ListBucketPage) error {
 		for _, entry := range page.Version {
 			if !entry.IsLatest {
 				continue
-- 
2.43.0


From e7400e9cbc38c31fce36fecc0d50c898771a5721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:18 +0000
Subject: [PATCH 41/57] fix: keep the swift region apart from the timeout in
 contexts

---
 pkg/storage/swift/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/swift/context.go b/pkg/storage/swift/context.go
index 9aaf364..f9f4f4d 100644
--- a/pkg/storage/swift/context.go
+++ b/pkg/storage/swift/context.go
@@ -44,7 +44,7 @@ func TimeoutFromCtx(ctx context.Context) (*time.Duration, bool) {
 }
 
 func CtxWithRegion(ctx context.Context, region string) context.Context {
-	return context.WithValue(ctx, ctxTimeoutKey, region)
+	return context.WithValue(ctx, ctxRegionKey, region)
 }
 
 func RegionFromCtx(ctx context.Context) (string, bool) {
-- 
2.43.0


From 4fc9f2db1d0c620d543ddbbac144c0d92fbcd702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:18 +0000
Subject: [PATCH 42/57] fix: give every context option a key of its own

---
 pkg/storage/http/context.go  |  8 +++++---
 pkg/storage/s3/context.go    |  8 +++++---
 pkg/storage/swift/context.go | 10 ++++++----
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/pkg/storage/http/context.go b/pkg/storage/http/context.go
index b6f8e74..ec3159d 100644
--- a/pkg/storage/http/context.go
+++ b/pkg/storage/http/context.go
@@ -19,9 +19,11 @@ import (
 	"time"
 )
 
-var (
-	ctxAuthzKey   int
-	ctxTimeoutKey int
+type ctxKey int
+
+const (
+	ctxAuthzKey ctxKey = iota
+	ctxTimeoutKey
 )
 
 func CtxWithAuthz(ctx context.Context, authz string) context.Context {
diff --git a/pkg/storage/s3/context.go b/pkg/storage/s3/context.go
index b734dae..fcb2674 100644
--- a/pkg/storage/s3/context.go
+++ b/pkg/storage/s3/context.go
@@ -21,9 +21,11 @@ import (
 	"github.com/aws/aws-sdk-go/aws/credentials"
 )
 
-var (
-	ctxCredentialsKey int
-	ctxTimeoutKey     int
+type ctxKey int
+
+const (
+	ctxCredentialsKey ctxKey = iota
+	ctxTimeoutKey
 )
 
 func CtxWithCredentials(ctx context.Context, creds *credentials.Credentials) context.Context {
diff --git a/pkg/storage/swift/context.go b/pkg/storage/swift/context.go
index f9f4f4d..d4a2aa6 100644
--- a/pkg/storage/swift/context.go
+++ b/pkg/storage/swift/context.go
@@ -19,10 +19,12 @@ import (
 	"time"
 )
 
-var (
-	ctxCredentialsKey int
-	ctxRegionKey      int
-	ctxTimeoutKey     int
+type ctxKey int
+
+const (
+	ctxCredentialsKey ctxKey = iota
+	ctxRegionKey
+	ctxTimeoutKey
 )
 
 func CtxWithCredentials(ctx context.Context, creds *SwiftCreds) context.Context {
-- 
2.43.0


From 241316deb953e795f72c07f2752c4311e02c8bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:33 +0000
Subject: [PATCH 43/57] fix: upload to swift with the credentials of the
 context

---
 pkg/storage/swift/swift.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/swift/swift.go b/pkg/storage/swift/swift.go
index 97e3d9e..a8161c8 100644
--- a/pkg/storage/swift/swift.go
+++ b/pkg/storage/swift/swift.go
@@ -62,7 +62,12 @@ func (d *Driver) Create(ctx context.Context, url string) (driver.ObjectWriter, e
 		return nil, err
 	}
 
-	creds := credentials.NewCredentials(NewSwiftEnvProvider(parsed.Account))
+	var prov credentials.Provider
+	if creds, ok := CredentialsFromCtx(ctx); ok {
+		prov = NewSwiftCtxProvider(parsed.Account, creds)
+	} else {
+		prov = NewSwiftEnvProvider(parsed.Account)
+	}
 
 	region, ok := RegionFromCtx(ctx)
 	if !ok {
@@ -73,7 +78,7 @@ func (d *Driver) Create(ctx context.Context, url string) (driver.ObjectWriter, e
 		WithRegion(region).
 		WithEndpoint(fmt.Sprintf("https://%s", parsed.URL.Host)).
 		WithS3ForcePathStyle(true).
-		WithCredentials(creds).
+		WithCredentials(credentials.NewCredentials(prov)).
 		WithMaxRetries(100)
 
 	svc := s3.New(d.sess, config)
-- 
2.43.0


From d81017eaf389f53d920f5c46e68666ad594c6fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:22:20 +0000
Subject: [PATCH 44/57] fix: write data URLs with a media type that can be read
 back

---
 pkg/storage/data/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/data/writer.go b/pkg/storage/data/writer.go
index e87efcc..1e1b1ef 100644
--- a/pkg/storage/data/writer.go
+++ b/pkg/storage/data/writer.go
@@ -35,7 +35,7 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 		return nil, driver.CommitOnAbortedObjectWriter
 	}
 
-	durl := dataurl.New(ow.buf.Bytes(), "binary/octet-stream")
+	durl := dataurl.New(ow.buf.Bytes(), "application/octet-stream")
 
 	return driver.NewCommitInfo(durl.String()), nil
 }
-- 
2.43.0


From ebd8c252690521160f45edc20a441307ef00eb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:22:20 +0000
Subject: [PATCH 45/57] fix: refuse writing to an aborted data writer

---
 pkg/storage/data/writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/storage/data/writer.go b/pkg/storage/data/writer.go
index 1e1b1ef..a8ddc03 100644
--- a/pkg/storage/data/writer.go
+++ b/pkg/storage/data/writer.go
@@ -16,6 +16,7 @@ package datadriver
 
 import (
 	"bytes"
+	"os"
 
 	"github.com/vincent-petithory/dataurl"
 
@@ -41,6 +42,9 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 }
 
 func (ow *objectWriter) Write(p []byte) (n int, err error) {
+	if ow.buf == nil {
+		return 0, os.ErrClosed
+	}
 	n, err = ow.buf.Write(p)
 	return
 }
-- 
2.43.0


From ee3a036f3f5f99ec5163627229941fbfe53c7cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:22:20 +0000
Subject: [PATCH 46/57] fix: report URLs that name the ram object

---
 pkg/storage/ram/ram.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/ram/ram.go b/pkg/storage/ram/ram.go
index 9664449..54c9edd 100644
--- a/pkg/storage/ram/ram.go
+++ b/pkg/storage/ram/ram.go
@@ -293,7 +293,7 @@ func urlToPath(url string) (string, error) {
 func pathToUrl(path string) string {
 	var u stdurl.URL
 	u.Scheme = "ram"
-	u.Path = path
+	u.Path = "/" + path
 	return u.String()
 }
 
-- 
2.43.0


From ee1950509cd3820ea612f50f19f35cb6fa4a92b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:22:20 +0000
Subject: [PATCH 47/57] fix: keep the root directory of the ram driver

---
 pkg/storage/ram/ram.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/storage/ram/ram.go b/pkg/storage/ram/ram.go
index 54c9edd..87a072a 100644
--- a/pkg/storage/ram/ram.go
+++ b/pkg/storage/ram/ram.go
@@ -166,6 +166,10 @@ func (d *Driver) Remove(ctx context.Context, url string) error {
 		return err
 	}
 
+	if f.Ino == rootIno {
+		return os.NewSyscallError("remove", syscall.EBUSY)
+	}
+
 	f.Parent.Dir.Delete(f.Name)
 	delete(d.inodes, f.Ino)
 	return nil
-- 
2.43.0


From 20d773e7cb47078a41348abad5633ab768a19a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:22:20 +0000
Subject: [PATCH 48/57] fix: remember that a ram object could not be committed

---
 pkg/storage/ram/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/storage/ram/writer.go b/pkg/storage/ram/writer.go
index 151b44a..7225f03 100644
--- a/pkg/storage/ram/writer.go
+++ b/pkg/storage/ram/writer.go
@@ -45,6 +45,7 @@ func (w *writer) Write(b []byte) (int, error) {
 func (w *writer) Commit() (driver.CommitInfo, error) {
 	if atomic.CompareAndSwapInt32(&w.state, stateCreating, stateClosed) {
 		if err := w.commit(w.path, w.buf.Bytes()); err != nil {
+			atomic.StoreInt32(&w.state, stateAborted)
 			return nil, err
 		}
 		return driver.NewCommitInfo(w.url), nil
-- 
2.43.0


From 7f14a91dc0f77a5acf5c32cd1f59081a92122c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:39:03 +0000
Subject: [PATCH 49/57] fix: go on collecting garbage when a block cannot be
 removed

---
 pkg/caching/disk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index b82b328..9077e02 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -116,7 +116,7 @@ func (ds *DiskSlicer) Gc(threshold GcThreshold) {
 		// Unlink the victim and then fsync the parent dir
 		if err := storage.Remove(victim); err != nil {
 			cacheLogger().Error("failed to evict victim", zap.String("victim", victim), zap.Error(err))
-			return
+			continue
 		}
 
 		cacheLogger().Debug("garbage collected", zap.String("victim", victim))
-- 
2.43.0


From 5266e15f6c865a933f7be9c86e6eb773cd1ca960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:39:03 +0000
Subject: [PATCH 50/57] fix: close cached blocks once they are checked

---
 pkg/caching/disk.go | 50 +++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index 9077e02..8e6759a 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -131,36 +131,42 @@ func (ds *DiskSlicer) CheckIntegrity() error {
 			return nil
 		}
 
-		cobj, err := storage.Open(fname)
-		if err != nil {
-			if os.IsNotExist(err) {
-				continue
-			}
+		if err := checkBlock(fname); err != nil {
 			return err
 		}
-		defer cobj.Close()
-
-		var expected uint64
-		switch xobj := cobj.(type) {
-		case driver.XattrObject:
-			csumEnc, err := xobj.GetXattr(XattrChecksum)
-			if err != nil {
-				return err
-			}
+	}
+}
 
-			expected = binary.LittleEndian.Uint64(csumEnc)
-		default:
-			return fmt.Errorf("object missing checksum xattr: %q", fname)
+func checkBlock(fname string) error {
+	cobj, err := storage.Open(fname)
+	if err != nil {
+		if os.IsNotExist(err) {
+			return nil
 		}
+		return err
+	}
+	defer cobj.Close()
 
-		csum := xxhash.New64()
-		if _, err := io.Copy(csum, cobj); err != nil {
+	var expected uint64
+	switch xobj := cobj.(type) {
+	case driver.XattrObject:
+		csumEnc, err := xobj.GetXattr(XattrChecksum)
+		if err != nil {
 			return err
 		}
 
-		if csum.Sum64() != expected {
-			return fmt.Errorf("Bad checksum: %q", fname)
-		}
+		expected = binary.LittleEndian.Uint64(csumEnc)
+	default:
+		return fmt.Errorf("object missing checksum xattr: %q", fname)
+	}
+
+	csum := xxhash.New64()
+	if _, err := io.Copy(csum, cobj); err != nil {
+		return err
+	}
+
+	if csum.Sum64() != expected {
+		return fmt.Errorf("Bad checksum: %q", fname)
 	}
 	return nil
 }
-- 
2.43.0


From fedd9cac06d488c91ac73412418bd4cf112684dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:39:03 +0000
Subject: [PATCH 51/57] fix: report cached blocks with a malformed checksum

---
 pkg/caching/disk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index 8e6759a..b6e4d16 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -155,6 +155,9 @@ func checkBlock(fname string) error {
 			return err
 		}
 
+		if len(csumEnc) != 8 {
+			return fmt.Errorf("Malformed checksum: %q", fname)
+		}
 		expected = binary.LittleEndian.Uint64(csumEnc)
 	default:
 		return fmt.Errorf("object missing checksum xattr: %q", fname)
-- 
2.43.0


From 6a3889a1d7bfa84047c801983f41901cb8dac859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:39:03 +0000
Subject: [PATCH 52/57] fix: fail integrity checks of caches that cannot be
 listed

---
 pkg/caching/disk.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index b6e4d16..57c3d5f 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -128,7 +128,7 @@ func (ds *DiskSlicer) CheckIntegrity() error {
 	for {
 		fname, ok := it.Next()
 		if !ok {
-			return nil
+			return it.err
 		}
 
 		if err := checkBlock(fname); err != nil {
@@ -405,6 +405,14 @@ type diskIter struct {
 	prime   sync.Once
 	parentQ []string
 	victimQ []string
+	err     error
+}
+
+// failed remembers the first directory that could not be listed.
+func (it *diskIter) failed(err error) {
+	if it.err == nil && !os.IsNotExist(err) {
+		it.err = err
+	}
 }
 
 func (it *diskIter) Next() (string, bool) {
@@ -413,6 +421,7 @@ func (it *diskIter) Next() (string, bool) {
 		finfos, err := storage.Readdir(root)
 		if err != nil {
 			cacheLogger().Error("failed to list cache root", zap.Error(err))
+			it.failed(err)
 			return
 		}
 
@@ -444,6 +453,7 @@ func (it *diskIter) Next() (string, bool) {
 		finfos, err := storage.Readdir(parent)
 		if err != nil {
 			cacheLogger().Error("failed to list cache parent", zap.String("parent", parent), zap.Error(err))
+			it.failed(err)
 			continue
 		}
 
-- 
2.43.0


From da9a274d9bd77d7d9c94500c9e3d8a3bc231b303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:51:25 +0000
Subject: [PATCH 53/57] fix: refuse releasing file handles that are not open

---
 pkg/isofuse/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/isofuse/file.go b/pkg/isofuse/file.go
index 53ff241..48a1cf3 100644
--- a/pkg/isofuse/file.go
+++ b/pkg/isofuse/file.go
@@ -60,9 +60,9 @@ func (fs *isoFS) ReleaseFileHandle(ctx context.Context, op *fuseops.ReleaseFileH
 	obj, ok := fs.fileHandles[op.Handle]
 	if !ok {
 		fs.logger.Warn("release of unknown file handle", zap.Uint64("handle", uint64(op.Handle)))
-	} else {
-		delete(fs.fileHandles, op.Handle)
+		return fuse.EINVAL
 	}
+	delete(fs.fileHandles, op.Handle)
 	if err := obj.Close(); err != nil {
 		fs.logger.Error("close file handle", zap.Uint64("handle", uint64(op.Handle)), zap.Error(err))
 	}
-- 
2.43.0


From af293630418366d90def7a2f32c60d21d74e3752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:25:56 +0000
Subject: [PATCH 54/57] fix: truncate inquiry data to the initiator's buffer

---
 pkg/blockdev/cmd_handler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/blockdev/cmd_handler.go b/pkg/blockdev/cmd_handler.go
index 9f299ba..ab5afa6 100644
--- a/pkg/blockdev/cmd_handler.go
+++ b/pkg/blockdev/cmd_handler.go
@@ -37,7 +37,12 @@ func (h readerAtCmdHandler) HandleCommand(cmd *tcmu.SCSICmd) (tcmu.SCSIResponse,
 				ProductRev: "0001",
 			}
 		}
-		return tcmu.EmulateInquiry(cmd, h.Inq)
+		rsp, err := tcmu.EmulateInquiry(cmd, h.Inq)
+		if err != nil {
+			// The initiator asked for less than the whole answer.
+			return cmd.Ok(), nil
+		}
+		return rsp, nil
 	case scsi.TestUnitReady:
 		return tcmu.EmulateTestUnitReady(cmd)
 	case scsi.ServiceActionIn16:
-- 
2.43.0


From bf295fcf8594282b45d8afd69c72af28a1eb21aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:25:56 +0000
Subject: [PATCH 55/57] fix: refuse short mode select parameter lists

---
 pkg/blockdev/cmd_handler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/blockdev/cmd_handler.go b/pkg/blockdev/cmd_handler.go
index ab5afa6..b51e842 100644
--- a/pkg/blockdev/cmd_handler.go
+++ b/pkg/blockdev/cmd_handler.go
@@ -50,7 +50,11 @@ func (h readerAtCmdHandler) HandleCommand(cmd *tcmu.SCSICmd) (tcmu.SCSIResponse,
 	case scsi.ModeSense, scsi.ModeSense10:
 		return tcmu.EmulateModeSense(cmd, false)
 	case scsi.ModeSelect, scsi.ModeSelect10:
-		return tcmu.EmulateModeSelect(cmd, false)
+		rsp, err := tcmu.EmulateModeSelect(cmd, false)
+		if err != nil {
+			return cmd.IllegalRequest(), nil
+		}
+		return rsp, nil
 	case scsi.Read6, scsi.Read10, scsi.Read12, scsi.Read16:
 		return tcmu.EmulateRead(cmd, h.R)
 	default:
-- 
2.43.0


From 36b68f22358d953d2f35eb0a2aac9eba9d1d4b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:25:56 +0000
Subject: [PATCH 56/57] fix: refuse six-byte reads, whose address is decoded
 wrongly

---
 pkg/blockdev/cmd_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/blockdev/cmd_handler.go b/pkg/blockdev/cmd_handler.go
index b51e842..6ff798c 100644
--- a/pkg/blockdev/cmd_handler.go
+++ b/pkg/blockdev/cmd_handler.go
@@ -55,7 +55,7 @@ func (h readerAtCmdHandler) HandleCommand(cmd *tcmu.SCSICmd) (tcmu.SCSIResponse,
 			return cmd.IllegalRequest(), nil
 		}
 		return rsp, nil
-	case scsi.Read6, scsi.Read10, scsi.Read12, scsi.Read16:
+	case scsi.Read10, scsi.Read12, scsi.Read16:
 		return tcmu.EmulateRead(cmd, h.R)
 	default:
 		zap.L().Sugar().Warnf("Ignore unknown SCSI command 0x%x", cmd.Command())
-- 
2.43.0


From 6f87a816dbf1ea82ea42dbe64749a5e39b70fce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:25:56 +0000
Subject: [PATCH 57/57] fix: refuse reads beyond the end of the device

---
 pkg/blockdev/cmd_handler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/blockdev/cmd_handler.go b/pkg/blockdev/cmd_handler.go
index 6ff798c..0936fd9 100644
--- a/pkg/blockdev/cmd_handler.go
+++ b/pkg/blockdev/cmd_handler.go
@@ -16,6 +16,7 @@ package blockdev
 
 import (
 	"io"
+	"math"
 
 	"github.com/tnarg/go-tcmu"
 	"github.com/tnarg/go-tcmu/scsi"
@@ -56,6 +57,12 @@ func (h readerAtCmdHandler) HandleCommand(cmd *tcmu.SCSICmd) (tcmu.SCSIResponse,
 		}
 		return rsp, nil
 	case scsi.Read10, scsi.Read12, scsi.Read16:
+		sizes := cmd.Device().Sizes()
+		blocks := uint64(sizes.VolumeSize / sizes.BlockSize)
+		lba, n := cmd.LBA(), uint64(cmd.XferLen())
+		if lba > blocks || n > blocks-lba || n*uint64(sizes.BlockSize) > math.MaxUint32 {
+			return cmd.IllegalRequest(), nil
+		}
 		return tcmu.EmulateRead(cmd, h.R)
 	default:
 		zap.L().Sugar().Warnf("Ignore unknown SCSI command 0x%x", cmd.Command())
-- 
2.43.0

