From bb3e433b3127f99afb0d89a8fe27686627a33e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 01/66] fix: Keep LRUCache within its limit on setdefault and
 consistent after missing keys

setdefault did not evict and indexing a missing key registered it as used,
which later made an eviction raise KeyError.
---
 core/ratarmountcore/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/utils.py b/core/ratarmountcore/utils.py
index ca00933..79159c2 100644
--- a/core/ratarmountcore/utils.py
+++ b/core/ratarmountcore/utils.py
@@ -98,8 +98,9 @@ class LRUCache(Generic[KeyType, ValueType]):
         self.lastUsed.append(key)
 
     def __getitem__(self, key: KeyType):
+        value = self.data.__getitem__(key)  # Must raise for missing keys before registering them as used.
         self._refresh(key)
-        return self.data.__getitem__(key)
+        return value
 
     def get(self, key: KeyType, default: Optional[ValueType] = None):
         if key in self.lastUsed:
@@ -142,8 +143,10 @@ class LRUCache(Generic[KeyType, ValueType]):
         return self.data.values()
 
     def setdefault(self, key: KeyType, default: ValueType):
-        self._refresh(key)
-        return self.data.setdefault(key, default)
+        if key not in self.data:
+            self[key] = default  # Heeds the size limit.
+            return default
+        return self[key]
 
     def __bool__(self):
         return bool(self.data)
-- 
2.43.0


From 49207283e025c8e57e7d1b7abbed82a4960e593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 02/66] fix: Keep the file position when refusing to seek
 before the start of a file

---
 core/ratarmountcore/StenciledFile.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/core/ratarmountcore/StenciledFile.py b/core/ratarmountcore/StenciledFile.py
index 7bce4b0..895feab 100644
--- a/core/ratarmountcore/StenciledFile.py
+++ b/core/ratarmountcore/StenciledFile.py
@@ -158,16 +158,14 @@ class RawStenciledFile(FixedRawIOBase):
     @overrides(io.RawIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
         if whence == io.SEEK_CUR:
-            self.offset += offset
+            offset += self.offset
         elif whence == io.SEEK_END:
-            self.offset = self.cumsizes[-1] + offset
-        elif whence == io.SEEK_SET:
-            self.offset = offset
+            offset += self.cumsizes[-1]
 
-        if self.offset < 0:
+        # Do not change the position when the seek is refused.
+        if offset < 0:
             raise ValueError("Trying to seek before the start of the file!")
-        if self.offset >= self.cumsizes[-1]:
-            return self.offset
+        self.offset = offset
 
         return self.offset
 
@@ -393,16 +391,14 @@ class LambdaReaderFile(io.RawIOBase):
     @overrides(io.RawIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
         if whence == io.SEEK_CUR:
-            self.offset += offset
+            offset += self.offset
         elif whence == io.SEEK_END:
-            self.offset = self.size + offset
-        elif whence == io.SEEK_SET:
-            self.offset = offset
+            offset += self.size
 
-        if self.offset < 0:
+        # Do not change the position when the seek is refused.
+        if offset < 0:
             raise ValueError("Trying to seek before the start of the file!")
-        if self.offset >= self.size:
-            return self.offset
+        self.offset = offset
 
         return self.offset
 
-- 
2.43.0


From 6e4c5f463f709bc526b1b2ffacd8c90739464ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 03/66] fix: Return no data when reading after the end of blobs
 inside SQLAR archives

---
 core/ratarmountcore/StenciledFile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/StenciledFile.py b/core/ratarmountcore/StenciledFile.py
index 895feab..44f0c6f 100644
--- a/core/ratarmountcore/StenciledFile.py
+++ b/core/ratarmountcore/StenciledFile.py
@@ -384,7 +384,11 @@ class LambdaReaderFile(io.RawIOBase):
 
     @overrides(io.RawIOBase)
     def read(self, size: int = -1) -> bytes:
-        result = self.rawRead(self.offset, min(self.size if size < 0 else size, max(0, self.size - self.offset)))
+        size = min(self.size if size < 0 else size, max(0, self.size - self.offset))
+        if size == 0:
+            # The offset may be out of range here, which not all rawRead implementations accept.
+            return b''
+        result = self.rawRead(self.offset, size)
         self.offset += len(result)
         return result
 
-- 
2.43.0


From a0e0006b168fb53b86b56f4938af946a96fdea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 04/66] fix: Keep the position of parallel readers when
 refusing to seek before the start

---
 core/ratarmountcore/BlockParallelReaders.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/BlockParallelReaders.py b/core/ratarmountcore/BlockParallelReaders.py
index b22e206..d5f1f52 100644
--- a/core/ratarmountcore/BlockParallelReaders.py
+++ b/core/ratarmountcore/BlockParallelReaders.py
@@ -134,14 +134,14 @@ class BlockParallelReader(io.BufferedIOBase):
     @overrides(io.BufferedIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
         if whence == io.SEEK_CUR:
-            self._offset += offset
+            offset += self._offset
         elif whence == io.SEEK_END:
-            self._offset = self.blockBoundaries[-1] + offset
-        elif whence == io.SEEK_SET:
-            self._offset = offset
+            offset += self.blockBoundaries[-1]
 
-        if self._offset < 0:
+        # Do not change the position when the seek is refused.
+        if offset < 0:
             raise ValueError("Trying to seek before the start of the file!")
+        self._offset = offset
 
         return self._offset
 
-- 
2.43.0


From ef400117467d25499b1f9e4141b312be37ccaf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 05/66] fix: Read to the end of file for negative sizes in the
 parallel XZ and Zstandard readers

---
 core/ratarmountcore/BlockParallelReaders.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ratarmountcore/BlockParallelReaders.py b/core/ratarmountcore/BlockParallelReaders.py
index d5f1f52..7681cd8 100644
--- a/core/ratarmountcore/BlockParallelReaders.py
+++ b/core/ratarmountcore/BlockParallelReaders.py
@@ -154,6 +154,8 @@ class BlockParallelReader(io.BufferedIOBase):
         blockNumber = self._find_block(self.blockBoundaries, self._offset)
         if blockNumber is None:
             return b""
+        if size is None or size < 0:
+            size = self.blockBoundaries[-1] - self._offset
 
         self.requestCount += 1
         firstBlockOffset = self._offset - self.blockBoundaries[blockNumber]
-- 
2.43.0


From 967d5c5486b8a02866d569d856fe2cc40b2eb32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 06/66] fix: Limit positioned reads of TAR members to the
 member and lock the shared file object

---
 core/ratarmountcore/mountsource/formats/tar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 65a6dc8..00530ea 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1107,8 +1107,11 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 return file.read(size)
 
         # For non-sparse files, we can simply seek to the offset and read from it.
-        self.tarFileObject.seek(tarFileInfo.offset + offset, os.SEEK_SET)
-        return self.tarFileObject.read(size)
+        # Do not read past the end of the file into the next TAR member.
+        maxSize = max(0, fileInfo.size - offset)
+        with self.fileObjectLock:
+            self.tarFileObject.seek(tarFileInfo.offset + offset, os.SEEK_SET)
+            return self.tarFileObject.read(maxSize if size < 0 else min(size, maxSize))
 
     @overrides(MountSource)
     def statfs(self) -> dict[str, Any]:
-- 
2.43.0


From 5b4aa91e25ad4edfc7e2b24bc807cb6b1b66661d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 07/66] fix: Open sparse TAR members which contain no holes

---
 core/ratarmountcore/mountsource/formats/tar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 00530ea..d403b21 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1092,7 +1092,7 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
             if lastEnd < realFileSize:
                 stencils.append((True, 0, realFileSize - lastEnd))
 
-            zeros = cast(IO[bytes], ZeroFile(max(x[2] for x in stencils if x[0])))
+            zeros = cast(IO[bytes], ZeroFile(max((x[2] for x in stencils if x[0]), default=0)))
             return self._open_stencil(
                 [(zeros if is_null else self.tarFileObject, offset, size) for is_null, offset, size in stencils],
                 buffering,
-- 
2.43.0


From dcaa2e0206d964e212abfeec3870fb81a2e3cb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 08/66] fix: Make empty files inside archives opened with
 libarchive readable

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index d4af1c5..f279d6d 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -390,6 +390,7 @@ class LibarchiveFile(io.RawIOBase):
             if self._entry is None:
                 break
             if self._entry.entry_index == self.entry_index:
+                self._bufferIO = io.BytesIO()  # Empty files will not trigger a buffer refill.
                 self._refill_buffer()
                 break
 
-- 
2.43.0


From da54f71930d3088d88402179b2a38086b4377fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 09/66] fix: Implement readinto for files opened with
 libarchive

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index f279d6d..36bbfde 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -456,6 +456,13 @@ class LibarchiveFile(io.RawIOBase):
         self._refill_buffer()
         return self._bufferIO.read(size)
 
+    @overrides(io.RawIOBase)
+    def readinto(self, buffer):
+        with memoryview(buffer) as view, view.cast("B") as byteView:  # type: ignore
+            readBytes = self.read(len(byteView))
+            byteView[: len(readBytes)] = readBytes
+        return len(readBytes)
+
     @overrides(io.RawIOBase)
     def read(self, size: int = -1) -> bytes:
         result = bytearray()
-- 
2.43.0


From d3ea372dc8a7ace3bbdd502c709f86db90068054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 10/66] fix: Resolve long names in GNU AR archives by byte
 offset

---
 core/ratarmountcore/mountsource/formats/ar.py | 30 +++++--------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/ar.py b/core/ratarmountcore/mountsource/formats/ar.py
index 6e4e8a4..70305b1 100644
--- a/core/ratarmountcore/mountsource/formats/ar.py
+++ b/core/ratarmountcore/mountsource/formats/ar.py
@@ -72,9 +72,8 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
     POSIX_SYMBOL_TABLE_NAME = b'/'
     GNU_INDEX_NAME = b'//'
     BSD_LONG_NAME_PREFIX = b'#1/'
-    # For thin archives, it simply is bytes because for some reason thin archives use byte indexes while
-    # normal archives index by file name entry.
-    long_names: Optional[Union[bytes, list[bytes]]] = None
+    # Table of null- or newline-terminated names, which are referenced by byte offset.
+    long_names: Optional[bytes] = None
 
     # It could be argued that the special 'debian-binary' text file could be ignored because it should be
     # interpreted as some kind of magic bytes, but I am not fully convinced of that. Simply also display
@@ -83,14 +82,10 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
     def get_long_file_name(name: bytes):
         if long_names and name.startswith(b'/') and name[1:].isdigit():
             index = int(name[1:])
-            if index >= 0 and index < len(long_names):
-                if not is_thin:
-                    return long_names[index]
-
-                if isinstance(long_names, bytes):  # Should always be the case for is_thin.
-                    end = long_names.find(b'/\n', index)
-                    if end >= index:
-                        return long_names[index:end]
+            # Names are terminated with '/\n' in GNU archives and with a null byte in COFF archives.
+            match = re.compile(b'(.*?)(?:/\n|\0|$)', re.DOTALL).match(long_names, index)
+            if index < len(long_names) and match:
+                return match.group(1)
         return name
 
     while header_data := fileObject.read(HEADER_SIZE):
@@ -138,17 +133,8 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
             continue
 
         if name == GNU_INDEX_NAME:
-            if is_thin:
-                long_names = fileObject.read(size)
-            else:
-                long_names = fileObject.read(size).split(b'/\n')
-
-                # GNU ar pads the table internally to an even size.
-                if size % 2 == 0:
-                    if long_names and long_names[-1] in (b'\x60', b'\x0a'):
-                        long_names.pop()
-                else:
-                    fileObject.seek(size % 2, io.SEEK_CUR)  # Skip padding
+            long_names = fileObject.read(size)
+            fileObject.seek(size % 2, io.SEEK_CUR)  # Skip padding
 
             # Retroactively apply the index if it is not the very first entry in the archive.
             for file in files:
-- 
2.43.0


From f3a89bad1a46be6f2a3a76478a26a1cd81a50330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 11/66] fix: Advance the position of files in SquashFS images
 when reading

---
 .../ratarmountcore/mountsource/formats/squashfs.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/squashfs.py b/core/ratarmountcore/mountsource/formats/squashfs.py
index 6e99e9b..85b497c 100644
--- a/core/ratarmountcore/mountsource/formats/squashfs.py
+++ b/core/ratarmountcore/mountsource/formats/squashfs.py
@@ -214,12 +214,13 @@ class SquashFSFile(io.RawIOBase):
             raise RuntimeError("Closed file cannot be read from!")
         result = self._bufferIO.read(size)
         # An empty buffer signals the end of the file!
-        if result or not self._buffer:
-            return result
+        if not result and self._buffer and size != 0:
+            self._blockIndex += 1
+            self._refill_buffer(self._blockIndex)
+            result = self._bufferIO.read(size)
 
-        self._blockIndex += 1
-        self._refill_buffer(self._blockIndex)
-        return self._bufferIO.read(size)
+        self._offset += len(result)
+        return result
 
     @overrides(io.RawIOBase)
     def read(self, size: int = -1) -> bytes:
@@ -259,7 +260,8 @@ class SquashFSFile(io.RawIOBase):
         elif whence == io.SEEK_END:
             offset += self._size
 
-        self._offset = max(0, min(offset, self._size))
+        offset = max(0, min(offset, self._size))
+        self._offset = offset
         bufferOffset = self._blockIndex * self._block_size
         if offset < bufferOffset or offset >= bufferOffset + len(self._buffer):
             self._refill_buffer(offset // self._block_size)  # Updates self._blockIndex!
-- 
2.43.0


From 60853b668c7017a79580d0dbff301edd5522d740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:23 +0000
Subject: [PATCH 12/66] fix: Keep positions of files inside ZIPs independent
 when seeking

---
 core/ratarmountcore/mountsource/formats/zip.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/zip.py b/core/ratarmountcore/mountsource/formats/zip.py
index 894316a..469c143 100644
--- a/core/ratarmountcore/mountsource/formats/zip.py
+++ b/core/ratarmountcore/mountsource/formats/zip.py
@@ -1,5 +1,6 @@
 import contextlib
 import datetime
+import io
 import logging
 import stat
 import sys
@@ -135,6 +136,19 @@ class ZipMountSource(SQLiteIndexMountSource):
         if fileObject := getattr(self, 'fileObject', None):
             fileObject.close()
 
+    @staticmethod
+    def _make_relative_seeks_absolute(file) -> None:
+        """
+        Some CPython 3.12+ versions seek in uncompressed files with _SharedFile.seek(..., io.SEEK_CUR), which is
+        erroneously relative to the last position of any file object opened from the same ZIP.
+        """
+        shared = getattr(file, '_fileobj', None)
+        if isinstance(shared, getattr(zipfile, '_SharedFile', ())):
+            seek, tell = shared.seek, shared.tell
+            shared.seek = lambda offset, whence=io.SEEK_SET: (
+                seek(tell() + offset) if whence == io.SEEK_CUR else seek(offset, whence)
+            )
+
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
         # I do not see any obvious option to zipfile.ZipFile to apply the specified buffer size.
@@ -144,4 +158,6 @@ class ZipMountSource(SQLiteIndexMountSource):
         # same underlying file object concurrently by using a _SharedFile class that even includes a lock.
         # Very nice!
         # https://github.com/python/cpython/blob/a87c46eab3c306b1c5b8a072b7b30ac2c50651c0/Lib/zipfile/__init__.py#L1569
-        return self.fileObject.open(info, 'r')  # https://github.com/pauldmccarthy/indexed_gzip/issues/85
+        file = self.fileObject.open(info, 'r')
+        ZipMountSource._make_relative_seeks_absolute(file)
+        return file  # https://github.com/pauldmccarthy/indexed_gzip/issues/85
-- 
2.43.0


From 8d4359bc5fe02d690124b3e065d4b75cc8748dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 13/66] fix: Show block devices in TAR archives with their type

---
 core/ratarmountcore/mountsource/formats/tar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index d403b21..fd3489c 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -145,6 +145,7 @@ class _TarFileMetadataReader:
             | ( stat.S_IFREG if tarInfo.isfile() or tarInfo.type == b'D' else 0 )
             | ( stat.S_IFLNK if tarInfo.issym () else 0 )
             | ( stat.S_IFCHR if tarInfo.ischr () else 0 )
+            | ( stat.S_IFBLK if tarInfo.isblk () else 0 )
             | ( stat.S_IFIFO if tarInfo.isfifo() else 0 )
         )
         # fmt: on
-- 
2.43.0


From ff6859be4aedb531cb90408bef9019570e023183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 14/66] fix: Do not invent version folders for missing files
 and versions other than the existing ones

---
 core/ratarmountcore/mountsource/compositing/versioning.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index 73f6cbf..d446df9 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -64,6 +64,7 @@ class FileVersionLayer(MountSource):
                 try:
                     fileVersion = int(part)
                     assert str(fileVersion) == part
+                    assert fileVersion > 0
                 except Exception:
                     return None
                 pathIsSpecialVersionsFolder = False
@@ -77,7 +78,11 @@ class FileVersionLayer(MountSource):
                 continue
 
             # If current path does not exist, check if it is a special versions path
-            if part.endswith('.versions') and len(part) > len('.versions'):
+            if (
+                part.endswith('.versions')
+                and len(part) > len('.versions')
+                and self.mountSource.lookup(tmpFilePath[: -len('.versions')])
+            ):
                 pathIsSpecialVersionsFolder = True
                 fileVersion = 0
                 filePath = tmpFilePath[: -len('.versions')]
-- 
2.43.0


From e203dca1bd66818ddd7a398646c4dceefe958141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:56 +0000
Subject: [PATCH 15/66] fix: Resolve hard links for older versions and
 self-references to the preceding version

---
 .../mountsource/compositing/versioning.py        | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index d446df9..314b330 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -103,15 +103,17 @@ class FileVersionLayer(MountSource):
         return bool(not stat.S_ISREG(fileInfo.mode) and not stat.S_ISLNK(fileInfo.mode) and fileInfo.linkname)
 
     @staticmethod
-    def _resolve_hard_links(mountSource: MountSource, path: str) -> Optional[FileInfo]:
+    def _resolve_hard_links(mountSource: MountSource, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
         """path : Simple path. Should contain no special versioning folders!"""
 
-        fileInfo = mountSource.lookup(path)
+        fileInfo = mountSource.lookup(path, fileVersion=fileVersion)
         if not fileInfo:
             return None
 
         resolvedPath = '/' + fileInfo.linkname.lstrip('/') if FileVersionLayer._is_hard_link(fileInfo) else None
-        fileVersion = 0
+        # Count versions from the newest one to be able to go back to earlier versions for self-references.
+        if resolvedPath and fileVersion > 0:
+            fileVersion -= mountSource.versions(path)
         hardLinkCount = 0
 
         while resolvedPath and hardLinkCount < 128:  # For comparison, the maximum symbolic link chain in Linux is 40.
@@ -120,9 +122,9 @@ class FileVersionLayer(MountSource):
             # get that using the full path instead of calling lookup on the deepest mount source.
             mountPoint, _, _ = mountSource.get_mount_source(fileInfo)
 
-            resolvedPath = os.path.join(mountPoint, resolvedPath.lstrip('/'))
+            resolvedPath = os.path.normpath(os.path.join(mountPoint, resolvedPath.lstrip('/')))
 
-            if resolvedPath != path:  # noqa: SIM108
+            if resolvedPath != os.path.normpath('/' + path.lstrip('/')):  # noqa: SIM108
                 # The file version is only of importance to resolve self-references.
                 # It seems undecidable to me whether to return the given fileVersion or 0 here.
                 # Returning 0 would feel more correct because the we switched to another file and the version
@@ -138,7 +140,7 @@ class FileVersionLayer(MountSource):
                 # If file is referencing itself, try to access earlier version of it.
                 # The check for fileVersion against the total number of available file versions is omitted because
                 # that check is done implicitly inside the mount sources lookup method!
-                fileVersion = fileVersion + 1 if fileVersion >= 0 else fileVersion - 1
+                fileVersion -= 1
 
             path = resolvedPath
             fileInfo = mountSource.lookup(path, fileVersion)
@@ -228,7 +230,7 @@ class FileVersionLayer(MountSource):
             # fmt: on
 
         # 3.) At this point the request is for an actually older version of a file or folder
-        fileInfo = self.mountSource.lookup(path, fileVersion=fileVersion)
+        fileInfo = FileVersionLayer._resolve_hard_links(self.mountSource, path, fileVersion)
         if fileInfo:
             fileInfo.userdata.append(FileType.FILE)
         return fileInfo
-- 
2.43.0


From ee64412a8edbb576e0bc1f4bc8c2b638ee753997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 16/66] fix: Return a usable file info from
 FileVersionLayer.get_mount_source

---
 .../mountsource/compositing/versioning.py            | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index 314b330..ae1862a 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -261,13 +261,11 @@ class FileVersionLayer(MountSource):
 
     @overrides(MountSource)
     def get_mount_source(self, fileInfo: FileInfo) -> tuple[str, MountSource, FileInfo]:
-        fileType = fileInfo.userdata.pop()
-        try:
-            if fileType == FileType.VERSIONS_FOLDER:
-                return '/', self, fileInfo
-            return self.mountSource.get_mount_source(fileInfo)
-        finally:
-            fileInfo.userdata.append(fileType)
+        sourceFileInfo = fileInfo.clone()
+        fileType = sourceFileInfo.userdata.pop()
+        if fileType == FileType.VERSIONS_FOLDER:
+            return '/', self, fileInfo
+        return self.mountSource.get_mount_source(sourceFileInfo)
 
     @overrides(MountSource)
     def list_xattr(self, fileInfo: FileInfo) -> builtins.list[str]:
-- 
2.43.0


From 1e250381d5a4e028ee663af65258f79e1576c5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 17/66] fix: Find files which have the same path as a cached
 folder of another source in union mounts

---
 core/ratarmountcore/mountsource/compositing/union.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/union.py b/core/ratarmountcore/mountsource/compositing/union.py
index 73f56ed..33ff03c 100644
--- a/core/ratarmountcore/mountsource/compositing/union.py
+++ b/core/ratarmountcore/mountsource/compositing/union.py
@@ -106,11 +106,9 @@ class UnionMountSource(MountSource):
         if not path.strip('/'):
             return self.rootFileInfo.clone()
 
-        if path in self.folderCache:
-            # This case might be triggered when path is a folder
-            cachedMountSources = self.folderCache[path]
-        elif self.folderCache and self.folderCacheDepth > 0 and path.startswith('/'):
-            # This should be the most common case, i.e., for regular files. Look up the parent folder in this case.
+        if self.folderCache and self.folderCacheDepth > 0 and path.startswith('/'):
+            # Look up the parent folder even if path itself is a cached folder because other mount sources,
+            # which are not cached for path, may contain something else than a folder at that path.
             parentFolder = '/'.join(path.split('/', self.folderCacheDepth + 1)[:-1])
             if not parentFolder:
                 parentFolder = '/'
-- 
2.43.0


From dc86aec930561bd218575cd5dc62436093730760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 18/66] fix: Let the rightmost source win in listings of union
 mounts

---
 core/ratarmountcore/mountsource/compositing/union.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/union.py b/core/ratarmountcore/mountsource/compositing/union.py
index 33ff03c..16b917e 100644
--- a/core/ratarmountcore/mountsource/compositing/union.py
+++ b/core/ratarmountcore/mountsource/compositing/union.py
@@ -155,13 +155,15 @@ class UnionMountSource(MountSource):
 
             if files is None:
                 if isinstance(result, dict):
-                    files = result
+                    files = result.copy()
                 elif result is not None:
                     files = set(result)
 
             elif isinstance(result, dict):
                 if isinstance(files, dict):
-                    files.update(result)
+                    # The rightmost mount source, for which files was initialized, has the highest precedence.
+                    for name, value in result.items():
+                        files.setdefault(name, value)
                 else:
                     files = files.union(result.keys())
 
-- 
2.43.0


From 43b3c8343554e0607316868ac8ceae93a7d22455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 19/66] fix: Find subvolumes mounted at nested paths when
 opening files

---
 .../mountsource/compositing/subvolumes.py     | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index 7465677..3a9b6bb 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -100,6 +100,13 @@ class SubvolumesMountSource(MountSource):
 
         return mountSource
 
+    def _get_mounted(self, subvolume: str) -> MountSource:
+        """Returns the mount source mounted at the possibly nested path appended to FileInfo.userdata by lookup."""
+        mountSource = self._get_by_path(subvolume)
+        if not isinstance(mountSource, MountSource):
+            raise RatarmountError(f"Nothing is mounted at '{subvolume}' anymore!")
+        return mountSource
+
     def _find_mount_source(self, path: str) -> Optional[tuple[str, str, Union[MountSource, dict[str, Any]]]]:
         """
         Implements recursive lookup in self.mountSources.
@@ -176,7 +183,7 @@ class SubvolumesMountSource(MountSource):
         if subvolume is None:
             raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
         try:
-            return self.mountSources[subvolume].open(fileInfo, buffering=buffering)
+            return self._get_mounted(subvolume).open(fileInfo, buffering=buffering)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -186,7 +193,7 @@ class SubvolumesMountSource(MountSource):
         if subvolume is None:
             raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
         try:
-            return self.mountSources[subvolume].read(fileInfo, size, offset)
+            return self._get_mounted(subvolume).read(fileInfo, size, offset)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -194,7 +201,7 @@ class SubvolumesMountSource(MountSource):
     def list_xattr(self, fileInfo: FileInfo) -> builtins.list[str]:
         subvolume = fileInfo.userdata.pop()
         try:
-            return [] if subvolume is None else self.mountSources[subvolume].list_xattr(fileInfo)
+            return [] if subvolume is None else self._get_mounted(subvolume).list_xattr(fileInfo)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -202,7 +209,7 @@ class SubvolumesMountSource(MountSource):
     def get_xattr(self, fileInfo: FileInfo, key: str) -> Optional[bytes]:
         subvolume = fileInfo.userdata.pop()
         try:
-            return None if subvolume is None else self.mountSources[subvolume].get_xattr(fileInfo, key)
+            return None if subvolume is None else self._get_mounted(subvolume).get_xattr(fileInfo, key)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -211,9 +218,9 @@ class SubvolumesMountSource(MountSource):
         sourceFileInfo = fileInfo.clone()
         subvolume = sourceFileInfo.userdata.pop()
 
-        if subvolume is None or subvolume not in self.mountSources:
+        if subvolume is None:
             return '/', self, fileInfo
-        mountSource = self.mountSources[subvolume]
+        mountSource = self._get_mounted(subvolume)
 
         subpath, subMountSource, subFileInfo = mountSource.get_mount_source(sourceFileInfo)
         return posixpath.normpath(f"/{subvolume}/{subpath}"), subMountSource, subFileInfo
-- 
2.43.0


From 6dc8d06853e5c137a74ae87f72be47644c551bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 20/66] fix: Close nested subvolumes and join their threads

---
 .../mountsource/compositing/subvolumes.py            | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index 3a9b6bb..44ea1d5 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -100,6 +100,14 @@ class SubvolumesMountSource(MountSource):
 
         return mountSource
 
+    @staticmethod
+    def _iterate_mounted(folder: dict[str, Any]) -> Iterable[MountSource]:
+        for value in folder.values():
+            if isinstance(value, MountSource):
+                yield value
+            else:
+                yield from SubvolumesMountSource._iterate_mounted(value)
+
     def _get_mounted(self, subvolume: str) -> MountSource:
         """Returns the mount source mounted at the possibly nested path appended to FileInfo.userdata by lookup."""
         mountSource = self._get_by_path(subvolume)
@@ -227,10 +235,10 @@ class SubvolumesMountSource(MountSource):
 
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
-        for mountSource in self.mountSources.values():
+        for mountSource in self._iterate_mounted(self.mountSources):
             mountSource.__exit__(exception_type, exception_value, exception_traceback)
 
     def join_threads(self):
-        for mountSource in self.mountSources:
+        for mountSource in self._iterate_mounted(self.mountSources):
             if hasattr(mountSource, 'join_threads'):
                 mountSource.join_threads()
-- 
2.43.0


From 101b0e1756cee01f857e87af66f8c94917f1fe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 21/66] fix: Do not create parent folders when only querying
 whether a path is mountable

---
 core/ratarmountcore/mountsource/compositing/subvolumes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index 44ea1d5..58489b8 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -38,10 +38,11 @@ class SubvolumesMountSource(MountSource):
         # Ensuring a leading slash before calling normpath has the effect of eating all leading '/..'.
         parent, name = ('/' + posixpath.normpath('/' + path).strip('/')).rsplit('/', maxsplit=1)
         try:
-            folder = self._get_by_path(parent, create=True)
+            folder = self._get_by_path(parent)
         except RatarmountError:
             return False
-        return bool(name) and folder is not None and isinstance(folder, dict) and (name not in folder)
+        # Missing parent folders will be created by mount.
+        return bool(name) and (folder is None or (isinstance(folder, dict) and name not in folder))
 
     def mount(self, path: str, target: MountSource) -> bool:
         """Adds a mount source at the specified path. Must not overlap with existing mounts. Return true on success."""
-- 
2.43.0


From 46fb832ba6f72d5610e4bdeb86806a3519ddc2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 22/66] fix: Mount to the path relative to our mount point when
 it is given as an absolute path

---
 ratarmount/FuseMount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 91a5275..2143a49 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -599,7 +599,8 @@ class FuseMount(fuse.Operations):
                 return None
 
             # subpath is not None and not empty, i.e., we mount into ourselves!
-            args.mount_point = args.mount_source.pop()
+            args.mount_source.pop()
+            args.mount_point = subpath
         else:
             try:
                 self._lookup(lastArgument)
-- 
2.43.0


From 36fc70cb0730957bcdfe3de9ba4300e659916477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:16 +0000
Subject: [PATCH 23/66] fix: Offer the control interface also when union
 mounting is disabled

---
 ratarmount/FuseMount.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 2143a49..d1e6843 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -223,6 +223,7 @@ class FuseMount(fuse.Operations):
 
             openLog = _get_log
 
+        controlLayer: Optional[MountSource] = None
         if self._enableControlInterface:
             controlFiles = [
                 SingleFileMountSource('command', (lambda _: cast(IO[bytes], CommandFile(self._parse_command))))
@@ -235,7 +236,6 @@ class FuseMount(fuse.Operations):
                 self._subvolumes = SubvolumesMountSource({})
                 mountSources.append(('/', self._subvolumes))
             controlLayer = RemovePrefixMountSource(self._controlLayerPrefix, UnionMountSource(controlFiles))
-            mountSources.append(('/', controlLayer))
 
         if not mountSources:
             raise ValueError("Mount point is empty! Either specify some input files or enable the control interface!")
@@ -245,6 +245,9 @@ class FuseMount(fuse.Operations):
         )
         if isinstance(self.mountSource, SubvolumesMountSource):
             self._subvolumes = self.mountSource
+        # The control layer must always be merged into the root, even when the inputs should not be union mounted.
+        if controlLayer is not None:
+            self.mountSource = UnionMountSource([self.mountSource, controlLayer], **options)
 
         if determine_recursion_depth(**options) > 0:
             self.mountSource = AutoMountLayer(self.mountSource, **options)
-- 
2.43.0


From 9184eef820aa7bb003ebbe7c7c5ef5e162cfbe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 24/66] fix: Run the unmount command for mount points outside
 of our own mount point

---
 ratarmount/FuseMount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index d1e6843..ed917e5 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -620,8 +620,8 @@ class FuseMount(fuse.Operations):
             # We need to parse the arguments to test for relative paths or absolute paths pointing into our mount point.
             # This already processes direct actions such as --help without us having to start a subprocess.
             parsed = create_parser().parse_args(args)
-            if self._process_parsed_arguments(parsed):
-                return
+            # May return changed arguments, e.g., only the mount points to unmount that are not our own subvolumes.
+            args = self._process_parsed_arguments(parsed) or args
 
             if len(self._subprocesses) > 100:
                 # Filter finished processes.
-- 
2.43.0


From 841032b82e11fea806b75919042ac326bfcdcd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 25/66] fix: Do not use the command name as argument when no
 arguments are given to the control interface

---
 ratarmount/FuseMount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index ed917e5..50dbd67 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -38,7 +38,7 @@ def split_command_line(command: bytes, name: bytes = b'ratarmount') -> list[str]
         raise ValueError(f"Command must start with: {name.decode()}")
 
     if command == name:
-        return [name.decode()]
+        return []
 
     delimiter = command[len(name) : len(name) + 1]
     command = command[len(name) + 1 :]
-- 
2.43.0


From d268fc215d1a1c31f8fde085d92bbaf5950321d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 26/66] fix: Forget released file handles

---
 ratarmount/FuseMount.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 50dbd67..2a4f907 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -799,12 +799,11 @@ class FuseMount(fuse.Operations):
         if fh not in self.openedFiles:
             raise fuse.FuseOSError(errno.ESTALE)
 
-        openedFile = self._resolve_file_handle(fh)
+        _flags, openedFile = self.openedFiles.pop(fh)
         if isinstance(openedFile, int):
             os.close(openedFile)
         else:
             openedFile.close()
-            del openedFile
 
         return fh
 
-- 
2.43.0


From 7eb4ca91854a8a5079b7f8d0211dd9e2b53fd155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 27/66] fix: Report the file system statistics of the write
 overlay

---
 ratarmount/FuseMount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 2a4f907..3f2cba8 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -904,8 +904,8 @@ class FuseMount(fuse.Operations):
             keys = ['f_bsize', 'f_frsize']
             result = self.writeOverlay.statfs(path).copy()
             result.update({key: value for key, value in self.mountSource.statfs().items() if key in keys})
-
-        result = self.mountSource.statfs()
+        else:
+            result = self.mountSource.statfs()
 
         # Use a relatively large minimum 256 KiB block size to direct filesystem users to use larger reads
         # because they have a relative large overhead because of the fusepy, libfuse, kernel FUSE, SQLite,
-- 
2.43.0


From 0f23557b2a97399b667999dc0a3551509d9ea0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:26 +0000
Subject: [PATCH 28/66] fix: Show implied parent folders in SQLAR archives and
 list only the given folder

---
 .../mountsource/formats/sqlar.py              | 75 ++++++++++++-------
 1 file changed, 48 insertions(+), 27 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 4142310..3da86a5 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -1,6 +1,7 @@
 import posixpath
 import shutil
 import sqlite3
+import stat
 import sys
 import tempfile
 import urllib.parse
@@ -187,15 +188,22 @@ class SQLARMountSource(MountSource):
 
         self.options = options
 
-        # Check for denormal names and store a normalized list if necessary.
-        self._files: dict[str, int] = {}
-        if any(
-            posixpath.normpath(name.lstrip('/')) != name for name, in self.connection.execute("SELECT name FROM sqlar;")
-        ):
-            self._files = {
-                posixpath.normpath(name.lstrip('/')): rowid
-                for name, rowid in self.connection.execute("SELECT name,rowid FROM sqlar ORDER BY rowid;")
-            }
+        # Check for denormal names and missing parent folders and store a normalized and complete list if necessary.
+        self._files: dict[str, Optional[int]] = {}
+        files: dict[str, Optional[int]] = {}
+        isNormal = True
+        for name, rowid in self.connection.execute("SELECT name,rowid FROM sqlar ORDER BY rowid;"):
+            normalizedName = posixpath.normpath('/' + name).strip('/')
+            isNormal = isNormal and normalizedName == name
+            if normalizedName:
+                files[normalizedName] = rowid
+        parents = {parent for name in files if (parent := posixpath.dirname(name)) and parent not in files}
+        while parents:
+            isNormal = False
+            files.update(dict.fromkeys(parents))
+            parents = {parent for name in parents if (parent := posixpath.dirname(name)) and parent not in files}
+        if not isNormal:
+            self._files = files
 
     @staticmethod
     def _quick_check_file(fileObject: IO[bytes], name: str, passwords: Optional[Sequence[bytes]]) -> bytes:
@@ -277,66 +285,79 @@ class SQLARMountSource(MountSource):
         if not self._files:
             return None
 
-        path = path.lstrip('/')
-        if path and not path.endswith('/'):
+        path = path.strip('/')
+        if path:
             path = path + '/'
 
-        # Use list instead of set to keep the order.
-        names = []
+        # Use a dictionary instead of set to keep the order.
+        names: dict[str, None] = {}
         for name in self._files:
             if not name.startswith(path):
                 continue
-            name = name[len(path) :].split('/', maxsplit=1)[0]
-            if name not in names:
-                names.append(name)
-        return names
+            names[name[len(path) :].split('/', maxsplit=1)[0]] = None
+        return names.keys()
+
+    def _is_folder(self, path: str) -> bool:
+        fileInfo = self.lookup(path)
+        return fileInfo is not None and stat.S_ISDIR(fileInfo.mode)
 
     @overrides(MountSource)
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
+        if not self._is_folder(path):
+            return None
+
         if self._files:
             return self._list_names(path)
 
-        pathGlob = "*" if path == "/" else path.strip("/") + "/*"
+        prefix = path.strip("/") + "/" if path.strip("/") else ""
         return {
             name: SQLARMountSource._convert_to_file_info(rowid, mode, mtime, size, linkname)
             for name, rowid, mode, mtime, size, linkname in self.connection.execute(
                 f"SELECT substr(name,(?)),{SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar "
-                "WHERE name GLOB (?) AND substr(name,(?)) NOT GLOB '*/*'",
-                (len(pathGlob), pathGlob, len(pathGlob)),
+                "WHERE substr(name,1,(?)) == (?) AND substr(name,(?)) NOT GLOB '*/*'",
+                (len(prefix) + 1, len(prefix), prefix, len(prefix) + 1),
             )
         }
 
     @overrides(MountSource)
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
+        if not self._is_folder(path):
+            return None
+
         if self._files:
             return self._list_names(path)
 
-        pathGlob = "*" if path == "/" else path.strip("/") + "/*"
+        prefix = path.strip("/") + "/" if path.strip("/") else ""
         return dict(
             self.connection.execute(
-                "SELECT substr(name,(?)), mode FROM sqlar WHERE name GLOB (?) AND substr(name,(?)) NOT GLOB '*/*'",
-                (len(pathGlob), pathGlob, len(pathGlob)),
+                "SELECT substr(name,(?)), mode FROM sqlar "
+                "WHERE substr(name,1,(?)) == (?) AND substr(name,(?)) NOT GLOB '*/*'",
+                (len(prefix) + 1, len(prefix), prefix, len(prefix) + 1),
             )
         )
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
-        if path == "/":
+        path = path.strip('/')
+        if not path:
             return create_root_file_info([-1])
 
         if self._files:
-            path = path.lstrip('/')
-            # We assume here that all parent folders to files appear in the table.
             if path not in self._files:
                 return None
             rowid = self._files[path]
+            if rowid is None:
+                # Parent folder, which does not have an entry of its own.
+                fileInfo = create_root_file_info([-1])
+                fileInfo.mode = 0o555 | stat.S_IFDIR
+                return fileInfo
 
             result = self.connection.execute(
                 f"SELECT {SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar WHERE rowid=(?)", (rowid,)
             ).fetchone()
         else:
             result = self.connection.execute(
-                f"SELECT {SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar WHERE name=(?)", (path.strip("/"),)
+                f"SELECT {SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar WHERE name=(?)", (path,)
             ).fetchone()
 
         return self._convert_to_file_info(*result) if result else None
-- 
2.43.0


From f06894c21474409b9df09a9bdf868be451255943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:23 +0000
Subject: [PATCH 29/66] fix: Close nested archives before the archives which
 contain them

---
 core/ratarmountcore/mountsource/compositing/automount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 1c6c283..6cf318e 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -414,7 +414,8 @@ class AutoMountLayer(MountSource):
 
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
-        for mountInfo in self.mounted.values():
+        # Close nested archives first because they might still access the file object opened from the outer archive.
+        for mountInfo in reversed(list(self.mounted.values())):
             mountInfo.mountSource.__exit__(exception_type, exception_value, exception_traceback)
 
     def join_threads(self):
-- 
2.43.0


From 6ef4b320ab95ef9c170b0b3d88155625b07341fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:46 +0000
Subject: [PATCH 30/66] fix: list the types of pipes and devices in mounted
 folders correctly

---
 core/ratarmountcore/mountsource/formats/folder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index 198453c..d4bcb15 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -148,12 +148,14 @@ class FolderMountSource(MountSource):
         # > All os.DirEntry methods may perform a system call, but is_dir() and is_file() usually
         # > only require a system call for symbolic links; os.DirEntry.stat() always requires a
         # > system call on Unix but only requires one for symbolic links on Windows.
-        # Unfortunately, I am not sure whether it would be sufficient to build the file mode from these
-        # two getters. For now, I'd say that all the esoteric stuff is simply not supported.
+        # Therefore, build the file type for the common cases from these getters.
         def make_mode(dirEntry):
             mode = stat.S_IFDIR if dirEntry.is_dir(follow_symlinks=False) else stat.S_IFREG
             if dirEntry.is_symlink():
                 mode = stat.S_IFLNK
+            elif stat.S_ISREG(mode) and not dirEntry.is_file(follow_symlinks=False):
+                # Sockets, pipes, and device files.
+                mode = stat.S_IFMT(dirEntry.stat(follow_symlinks=False).st_mode)
             return mode
 
         return {os.fsdecode(dirEntry.name): make_mode(dirEntry) for dirEntry in os.scandir(realpath)}
-- 
2.43.0


From 9f872940c60c499e08a6d30f03fb88fb8b8f1760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:46 +0000
Subject: [PATCH 31/66] fix: truncate files opened with O_TRUNC in the write
 overlay only when opening

---
 ratarmount/FuseMount.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 3f2cba8..e213709 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -780,6 +780,12 @@ class FuseMount(fuse.Operations):
     def open(self, path: str, flags: int) -> int:
         """Returns file handle of opened path."""
 
+        if self.writeOverlay and flags & os.O_TRUNC and flags & (os.O_WRONLY | os.O_RDWR):
+            self._lookup(path)
+            self.truncate(path, 0)
+        # These must not be applied again when reopening the file on the first write.
+        flags &= ~(os.O_TRUNC | os.O_CREAT | os.O_EXCL)
+
         fileInfo = self._lookup(path)
 
         try:
-- 
2.43.0


From f7c9d091ba070aa8ef329c50a2f973018fa6ca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:46 +0000
Subject: [PATCH 32/66] fix: hide the overlay database consistently and check
 both names of renames

---
 ratarmount/WriteOverlay.py | 55 +++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 34 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index c14ca4c..d3856ba 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -1,5 +1,7 @@
+import copy
 import errno
 import functools
+import io
 import os
 import shutil
 import sqlite3
@@ -21,7 +23,7 @@ from ratarmountcore.utils import RatarmountError, overrides
 from .fuse import fuse
 
 
-def check_ignored_prefixes(parameter_name: str = 'path'):
+def check_ignored_prefixes(parameter_name: str = 'path', position: int = 0):
     def decorator(func):
         @functools.wraps(func)
         def wrapper(self, *args, **kwargs):
@@ -31,14 +33,13 @@ def check_ignored_prefixes(parameter_name: str = 'path'):
             if parameter_name in kwargs:
                 path = kwargs[parameter_name]
             elif args:
-                # We assume that the first parameter is the one to be checked.
-                path = args[0]
+                path = args[position]
             else:
                 return func(self, *args, **kwargs)
 
             # Check if path starts with any ignored prefix.
             if any(path.startswith(prefix) for prefix in self.ignoredPrefixes):
-                raise FileNotFoundError(f"Accessing forbidden folder: {path}")
+                raise FileNotFoundError(errno.ENOENT, f"Accessing forbidden folder: {path}")
 
             return func(self, *args, **kwargs)
 
@@ -67,6 +68,15 @@ class WritableFolderMountSource(fuse.Operations):
     """
 
     hiddenDatabaseName = '.ratarmount.overlay.sqlite'
+    temporaryFileName = hiddenDatabaseName + '-temporary'
+    # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
+    hiddenNames = (
+        hiddenDatabaseName,
+        hiddenDatabaseName + '-journal',
+        hiddenDatabaseName + '-shm',
+        hiddenDatabaseName + '-wal',
+        temporaryFileName,
+    )
 
     def __init__(self, path: str, mountSource: MountSource, ignoredPrefixes: Optional[list[str]] = None) -> None:
         if os.path.lexists(path):
@@ -168,18 +178,6 @@ class WritableFolderMountSource(fuse.Operations):
         ):
             shutil.copyfileobj(sourceObject, targetObject)
 
-    def _open(self, path: str, mode):
-        self._ensure_parent_exists(path)
-        folder, name = self._split_path(path)
-
-        self.sqlConnection.execute(
-            'INSERT OR IGNORE INTO "files" (path,name,mode,deleted) VALUES (?,?,?,?)', (folder, name, mode, False)
-        )
-        self.sqlConnection.execute(
-            'UPDATE "files" SET deleted=0 WHERE path == (?) AND name == (?)',
-            (folder, name),
-        )
-
     def _mark_as_deleted(self, path: str):
         """Hides the given path if it exists in the underlying mount source."""
         folder, name = self._split_path(path)
@@ -197,11 +195,15 @@ class WritableFolderMountSource(fuse.Operations):
             'SELECT name FROM "files" WHERE path == (?) AND deleted == 1', (path.rstrip('/'),)
         )
 
-        # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
-        suffixes = ['', '-journal', '-shm', '-wal']
-        return [x[0] for x in result] + [self.hiddenDatabaseName + suffix for suffix in suffixes]
+        return [x[0] for x in result] + ([] if path.strip('/') else list(self.hiddenNames))
+
+    def _is_hidden(self, path: str) -> bool:
+        folder, name = self._split_path(path)
+        return not folder and name in self.hiddenNames
 
     def is_deleted(self, path: str) -> bool:
+        if self._is_hidden(path):
+            return True
         folder, name = self._split_path(path)
         result = self.sqlConnection.execute(
             'SELECT COUNT(*) > 0 FROM "files" WHERE path == (?) AND name == (?) AND deleted == 1', (folder, name)
@@ -231,21 +233,6 @@ class WritableFolderMountSource(fuse.Operations):
             (*values, folder, name),
         )
 
-    def _init_file_metadata(self, path: str):
-        # Note that we do not have to check the overlay folder assuming that it is inside the (union) mount source!
-        sourceFileInfo = self.mountSource.lookup(path)
-        if not sourceFileInfo:
-            raise fuse.FuseOSError(errno.ENOENT)
-
-        # Initialize new metadata entry from existing file
-        sfi = self.mountSource.get_mount_source(sourceFileInfo)[2]
-        folder, name = self._split_path(path)
-
-        self.sqlConnection.execute(
-            f'INSERT OR REPLACE INTO "files" VALUES ({",".join(["?"] * 7)})',
-            (folder, name, sfi.mtime, sfi.mode, sfi.uid, sfi.gid, False),
-        )
-
     def _set_file_metadata(self, path: str, applyMetadataToFile: Callable[[str], None], metadata: dict[str, Any]):
         folder, name = self._split_path(path)
 
-- 
2.43.0


From a898e60b8a06050bb983e4f2a0e1a7a103ebfd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:46 +0000
Subject: [PATCH 33/66] fix: keep content, attributes and types of files when
 they get copied into the write overlay

---
 ratarmount/WriteOverlay.py | 86 +++++++++++++++++++++++++++++++-------
 1 file changed, 71 insertions(+), 15 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index d3856ba..97f7796 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -168,15 +168,63 @@ class WritableFolderMountSource(fuse.Operations):
         """
         parentPath = self._split_path(path)[0]
         if not os.path.exists(self._realpath(parentPath)) and self.mountSource.is_dir(parentPath):
+            self._ensure_parent_exists(parentPath)
+            # The created folder hides the one in the archive, so remember the attributes of the latter.
+            self._preserve_metadata(parentPath)
             os.makedirs(self._realpath(parentPath), exist_ok=True)
 
+    def _preserve_metadata(self, path: str, keys: tuple[str, ...] = ('mtime', 'mode', 'uid', 'gid')):
+        """Stores the metadata in the database, so that it persists when the path gets created in the overlay folder."""
+        sourceFileInfo = self.mountSource.lookup(path)
+        if not sourceFileInfo:
+            raise fuse.FuseOSError(errno.ENOENT)
+        fileInfo = self.mountSource.get_mount_source(sourceFileInfo)[2]
+
+        folder, name = self._split_path(path)
+        self.sqlConnection.execute(
+            'INSERT OR IGNORE INTO "files" (path,name,deleted) VALUES (?,?,?)', (folder, name, False)
+        )
+        self.sqlConnection.execute(
+            f"""UPDATE "files" SET {', '.join(f'{key} = COALESCE({key}, ?)' for key in keys)}
+                WHERE path == (?) AND name == (?)""",
+            (*(getattr(fileInfo, key) for key in keys), folder, name),
+        )
+
     def _ensure_file_is_modifiable(self, path):
+        """Copies the file into the overlay folder if it does not exist there yet."""
+        if os.path.lexists(self._realpath(path)):
+            return
         self._ensure_parent_exists(path)
-        with (
-            self.mountSource.open(self.mountSource.lookup(path)) as sourceObject,
-            open(self._realpath(path), 'wb') as targetObject,
-        ):
-            shutil.copyfileobj(sourceObject, targetObject)
+        self._preserve_metadata(path, ('mode', 'uid', 'gid'))
+        self._copy_to_overlay(path, path)
+
+    def _copy_to_overlay(self, source: str, target: str):
+        """The target only appears after everything has been copied, so that nothing gets hidden too early."""
+        temporaryPath = self._clean_temporary_path()
+        fileInfo = self.mountSource.lookup(source)
+        if fileInfo is None:
+            raise fuse.FuseOSError(errno.ENOENT)
+
+        if stat.S_ISLNK(fileInfo.mode):
+            os.symlink(fileInfo.linkname, temporaryPath)
+        else:
+            with self.mountSource.open(fileInfo) as sourceObject, open(temporaryPath, 'wb') as targetObject:
+                shutil.copyfileobj(sourceObject, targetObject)
+            os.chmod(temporaryPath, stat.S_IMODE(fileInfo.mode) | stat.S_IWUSR | stat.S_IRUSR)
+        os.replace(temporaryPath, self._realpath(target))
+
+    def _clean_temporary_path(self) -> str:
+        temporaryPath = self._realpath(self.temporaryFileName)
+        if os.path.lexists(temporaryPath):
+            os.unlink(temporaryPath)
+        return temporaryPath
+
+    def _reset_modification_time(self, path: str):
+        """Show the modification time of the file in the overlay folder instead of one that has been set before."""
+        self.sqlConnection.execute(
+            'UPDATE "files" SET mtime = NULL WHERE path == (?) AND name == (?) AND mtime IS NOT NULL',
+            self._split_path(path),
+        )
 
     def _mark_as_deleted(self, path: str):
         """Hides the given path if it exists in the underlying mount source."""
@@ -234,14 +282,16 @@ class WritableFolderMountSource(fuse.Operations):
         )
 
     def _set_file_metadata(self, path: str, applyMetadataToFile: Callable[[str], None], metadata: dict[str, Any]):
-        folder, name = self._split_path(path)
-
-        existsInMetadata = self.sqlConnection.execute(
-            'SELECT COUNT(*) > 0 FROM "files" WHERE "path" == (?) and "name" == (?)', (folder, name)
-        ).fetchone()[0]
+        if not metadata:
+            return
+        if not self.mountSource.exists(path) or self.is_deleted(path):
+            raise fuse.FuseOSError(errno.ENOENT)
 
-        if not existsInMetadata:
-            self._init_file_metadata(path)
+        # All other metadata is still looked up from the existing file.
+        folder, name = self._split_path(path)
+        self.sqlConnection.execute(
+            'INSERT OR IGNORE INTO "files" (path,name,deleted) VALUES (?,?,?)', (folder, name, False)
+        )
         self._set_metadata(path, metadata)
 
         # Apply the metadata change for the file in the overlay folder if it exists there.
@@ -264,11 +314,14 @@ class WritableFolderMountSource(fuse.Operations):
         if not row:
             return fileInfo
 
+        # The type can never be changed without creating the file anew.
+        mode = stat.S_IFMT(fileInfo.mode) | stat.S_IMODE(row['mode'] or 0)
+
         # fmt: off
         return FileInfo(
             size     = fileInfo.size,
             mtime    = row['mtime'] if row['mtime'] is not None else fileInfo.mtime,
-            mode     = row['mode'] if row['mode'] is not None else fileInfo.mode,
+            mode     = fileInfo.mode if row['mode'] is None else mode,
             linkname = fileInfo.linkname,
             uid      = row['uid'] if row['uid'] is not None else fileInfo.uid,
             gid      = row['gid'] if row['gid'] is not None else fileInfo.gid,
@@ -305,7 +358,7 @@ class WritableFolderMountSource(fuse.Operations):
         mtime = time.time() if times is None else times[1] / 1e9
         ns = (int(mtime * 1e9), int(mtime * 1e9)) if times is None else times
 
-        self._set_file_metadata(path, lambda p: os.utime(p, ns=ns), {'mtime': mtime})
+        self._set_file_metadata(path, lambda p: os.utime(p, ns=ns, follow_symlinks=False), {'mtime': mtime})
 
     @overrides(fuse.Operations)
     def rename(self, old: str, new: str):
@@ -434,6 +487,7 @@ class WritableFolderMountSource(fuse.Operations):
     def truncate(self, path: str, length: int, fh=None):
         self._ensure_file_is_modifiable(path)
         os.truncate(self._realpath(path), length)
+        self._reset_modification_time(path)
 
     # Actual writing
 
@@ -441,7 +495,9 @@ class WritableFolderMountSource(fuse.Operations):
     @check_ignored_prefixes('path')
     def write(self, path: str, data, offset: int, fh):
         os.lseek(fh, offset, 0)
-        return os.write(fh, data)
+        result = os.write(fh, data)
+        self._reset_modification_time(path)
+        return result
 
     # Flushing
 
-- 
2.43.0


From 4426795112aaa5315b63299bf7ac737956075bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:46 +0000
Subject: [PATCH 34/66] fix: do not show deleted contents or stale attributes
 for paths created or removed in the write overlay

---
 ratarmount/WriteOverlay.py | 117 ++++++++++++++++++++++++++++++++-----
 1 file changed, 102 insertions(+), 15 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 97f7796..58db1ac 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -219,6 +219,28 @@ class WritableFolderMountSource(fuse.Operations):
             os.unlink(temporaryPath)
         return temporaryPath
 
+    def _prepare_creation(self, path: str):
+        if self._is_hidden(path):
+            raise fuse.FuseOSError(errno.EACCES)
+        self._ensure_parent_exists(path)
+        # Can only happen if we were interrupted before. Only what is not marked as deleted is visible.
+        if self.is_deleted(path):
+            self._remove_from_overlay(path)
+
+    def _remove_from_overlay(self, path: str):
+        realpath = self._realpath(path)
+        if os.path.isdir(realpath) and not os.path.islink(realpath):
+            shutil.rmtree(realpath)
+        elif os.path.lexists(realpath):
+            os.unlink(realpath)
+
+    def _mark_as_existing(self, path: str, mode: Optional[int] = None):
+        """Must be called after the path has been created in the overlay folder. Resets all metadata."""
+        folder, name = self._split_path(path)
+        self.sqlConnection.execute(
+            'INSERT OR REPLACE INTO "files" (path,name,mode,deleted) VALUES (?,?,?,?)', (folder, name, mode, False)
+        )
+
     def _reset_modification_time(self, path: str):
         """Show the modification time of the file in the overlay folder instead of one that has been set before."""
         self.sqlConnection.execute(
@@ -226,6 +248,43 @@ class WritableFolderMountSource(fuse.Operations):
             self._split_path(path),
         )
 
+    def _copy_metadata(self, source: str, target: str):
+        """
+        Also includes the metadata for everything inside if it is a folder.
+        If the target is marked as deleted, then it stays so until calling _mark_as_visible.
+        """
+        deleted = self.is_deleted(target)
+        self.sqlConnection.execute('BEGIN')
+        self._remove_metadata(target)
+        self.sqlConnection.execute(
+            'INSERT OR IGNORE INTO "files" SELECT ?,?,mtime,mode,uid,gid,? FROM "files" WHERE path == ? AND name == ?',
+            (*self._split_path(target), deleted, *self._split_path(source)),
+        )
+        self.sqlConnection.execute(
+            'INSERT OR IGNORE INTO "files" (path,name,deleted) VALUES (?,?,?)', (*self._split_path(target), deleted)
+        )
+        self.sqlConnection.execute(
+            """INSERT INTO "files" SELECT ? || substr(path, ?),name,mtime,mode,uid,gid,deleted FROM "files"
+               WHERE path == ? OR substr(path, 1, ?) == ?""",
+            (target, len(source) + 1, source, len(source) + 1, source + '/'),
+        )
+        self.sqlConnection.execute('COMMIT')
+
+    def _mark_as_visible(self, path: str):
+        self.sqlConnection.execute(
+            'UPDATE "files" SET deleted = 0 WHERE path == (?) AND name == (?)', self._split_path(path)
+        )
+
+    def _remove_metadata(self, path: str):
+        self.sqlConnection.execute(
+            'DELETE FROM "files" WHERE (path,name) == (?,?) OR path == ? OR substr(path, 1, ?) == ?',
+            (*self._split_path(path), path, len(path) + 1, path + '/'),
+        )
+
+    def _exists_below_overlay(self, path: str) -> bool:
+        """Whether there is something at that path, deleted or not, without considering the overlay folder itself."""
+        return self.mountSource.versions(path) > int(os.path.lexists(self._realpath(path)))
+
     def _mark_as_deleted(self, path: str):
         """Hides the given path if it exists in the underlying mount source."""
         folder, name = self._split_path(path)
@@ -237,6 +296,29 @@ class WritableFolderMountSource(fuse.Operations):
         else:
             self.sqlConnection.execute('DELETE FROM "files" WHERE (path,name) == (?,?)', (folder, name))
 
+    def _remove(self, path: str):
+        """
+        Removes and hides the path. If necessary, it gets hidden first, so that the path in the underlying mount source
+        does not become visible even if this gets interrupted.
+        """
+        if self._exists_below_overlay(path):
+            folder, name = self._split_path(path)
+            query = 'INSERT OR REPLACE INTO "files" VALUES (?,?,?,?,?,?,?)'
+            oldRow = self.sqlConnection.execute(
+                'SELECT * FROM "files" WHERE path == (?) AND name == (?)', (folder, name)
+            ).fetchone()
+            self.sqlConnection.execute(query, (folder, name, None, None, None, None, True))
+            try:
+                self._remove_from_overlay(path)
+            except Exception:
+                self.sqlConnection.execute('DELETE FROM "files" WHERE (path,name) == (?,?)', (folder, name))
+                if oldRow:
+                    self.sqlConnection.execute(query, tuple(oldRow))
+                raise
+        else:
+            self._remove_from_overlay(path)
+            self._remove_metadata(path)
+
     def list_deleted(self, path: str) -> list[str]:
         """Return list of files marked as deleted in the given path."""
         result = self.sqlConnection.execute(
@@ -389,7 +471,9 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('target')
     def symlink(self, target: str, source: str):
+        self._prepare_creation(target)
         os.symlink(source, self._realpath(target))
+        self._mark_as_existing(target)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('target')
@@ -399,18 +483,24 @@ class WritableFolderMountSource(fuse.Operations):
         if not os.path.lexists(overlaySource) and self.mountSource.lookup(source):
             raise fuse.FuseOSError(errno.EXDEV)
 
-        target = self._realpath(target)
-
-        os.link(overlaySource, target)
+        self._prepare_creation(target)
+        self._copy_metadata(source, target)
+        os.link(overlaySource, self._realpath(target), follow_symlinks=False)
+        self._mark_as_visible(target)
 
     # Folders
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def mkdir(self, path: str, mode: int):
-        self._open(path, mode | stat.S_IFDIR)
+        self._prepare_creation(path)
         os.mkdir(self._realpath(path), mode)
 
+        # If there was a folder with the same path that has been deleted, then its contents must stay hidden.
+        for name in self.mountSource.list_mode(path) or []:
+            self._mark_as_deleted(path.rstrip('/') + '/' + name)
+        self._mark_as_existing(path, mode | stat.S_IFDIR)
+
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def rmdir(self, path: str):
@@ -424,13 +514,10 @@ class WritableFolderMountSource(fuse.Operations):
                 raise fuse.FuseOSError(errno.ENOTEMPTY)
 
         try:
-            if os.path.exists(self._realpath(path)):
-                os.rmdir(self._realpath(path))
+            self._remove(path)
         except Exception as exception:
             traceback.print_exc()
             raise fuse.FuseOSError(errno.EIO) from exception
-        finally:
-            self._mark_as_deleted(path)
 
     # Files
 
@@ -451,11 +538,13 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def create(self, path: str, mode: int, fi=None):
-        self._open(path, mode)
+        self._prepare_creation(path)
         # TODO Use the correct flags according after fixing argument forwarding in mfusepy.
         #      https://github.com/mxmlnkn/ratarmount/issues/172#issuecomment-3312526348
         # I see no downside to always adding read-mode by default, until then.
-        return os.open(self._realpath(path), os.O_RDWR | os.O_CREAT | os.O_TRUNC, mode)
+        fd = os.open(self._realpath(path), os.O_RDWR | os.O_CREAT | os.O_TRUNC, mode)
+        self._mark_as_existing(path, mode)
+        return fd
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
@@ -468,19 +557,17 @@ class WritableFolderMountSource(fuse.Operations):
             raise fuse.FuseOSError(errno.ENOENT)
 
         try:
-            if os.path.lexists(self._realpath(path)):
-                os.unlink(self._realpath(path))
+            self._remove(path)
         except Exception as exception:
             traceback.print_exc()
             raise fuse.FuseOSError(errno.EIO) from exception
-        finally:
-            self._mark_as_deleted(path)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def mknod(self, path: str, mode: int, dev: int):
-        self._ensure_parent_exists(path)
+        self._prepare_creation(path)
         os.mknod(self._realpath(path), mode, dev)
+        self._mark_as_existing(path, mode)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
-- 
2.43.0


From f9ed6b2fc747d74ff64e8baa1fd0057b28eb2304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:46 +0000
Subject: [PATCH 35/66] fix: rename files and folders in the write overlay with
 their attributes and without losing data

---
 ratarmount/WriteOverlay.py | 60 ++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 58db1ac..4249d29 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -213,6 +213,16 @@ class WritableFolderMountSource(fuse.Operations):
             os.chmod(temporaryPath, stat.S_IMODE(fileInfo.mode) | stat.S_IWUSR | stat.S_IRUSR)
         os.replace(temporaryPath, self._realpath(target))
 
+    def _link_in_overlay(self, source: str, target: str):
+        """Replaces the target with a hard link to source if possible or else simply moves it."""
+        temporaryPath = self._clean_temporary_path()
+        try:
+            os.link(self._realpath(source), temporaryPath, follow_symlinks=False)
+        except OSError:
+            os.rename(self._realpath(source), self._realpath(target))
+            return
+        os.replace(temporaryPath, self._realpath(target))
+
     def _clean_temporary_path(self) -> str:
         temporaryPath = self._realpath(self.temporaryFileName)
         if os.path.lexists(temporaryPath):
@@ -443,28 +453,46 @@ class WritableFolderMountSource(fuse.Operations):
         self._set_file_metadata(path, lambda p: os.utime(p, ns=ns, follow_symlinks=False), {'mtime': mtime})
 
     @overrides(fuse.Operations)
+    @check_ignored_prefixes('old')
+    @check_ignored_prefixes('new', 1)
     def rename(self, old: str, new: str):
-        if not self.mountSource.exists(old) or self.is_deleted(old):
+        fileInfo = self.mountSource.lookup(old)
+        if fileInfo is None or self.is_deleted(old):
             raise fuse.FuseOSError(errno.ENOENT)
 
-        folder, name = self._split_path(new)
-
-        # Delete target path from metadata database to avoid uniqueness restraint being invalidated
-        self.sqlConnection.execute('DELETE FROM "files" WHERE "path" == (?) and "name" == (?)', (folder, name))
-        self._set_file_metadata(old, lambda p: None, {'path': folder, 'name': name})
-
-        self._ensure_parent_exists(new)
-        if os.path.lexists(self._realpath(old)):
+        existsInOverlay = os.path.lexists(self._realpath(old))
+        if stat.S_ISDIR(fileInfo.mode):
+            # Callers such as mv fall back to recursive copies when receiving this error.
+            if not existsInOverlay or self._exists_below_overlay(old) or self._exists_below_overlay(new):
+                raise fuse.FuseOSError(errno.EXDEV)
+            if self.mountSource.list_mode(new):
+                raise fuse.FuseOSError(errno.ENOTEMPTY)
+            self._prepare_creation(new)
+            self._copy_metadata(old, new)
             os.rename(self._realpath(old), self._realpath(new))
-        else:
-            fileInfo = self.mountSource.lookup(old)
-            if fileInfo is None:
-                raise fuse.FuseOSError(errno.ENOENT)
+            self._remove_metadata(old)
+            return
 
-            with self.mountSource.open(fileInfo) as sourceObject, open(self._realpath(new), 'wb') as targetObject:
-                shutil.copyfileobj(sourceObject, targetObject)
+        if not existsInOverlay and not stat.S_ISREG(fileInfo.mode) and not stat.S_ISLNK(fileInfo.mode):
+            raise fuse.FuseOSError(errno.EXDEV)
 
-            self._mark_as_deleted(old)
+        self._prepare_creation(new)
+        if existsInOverlay:
+            if os.path.lexists(self._realpath(new)) and os.path.samestat(
+                os.lstat(self._realpath(old)), os.lstat(self._realpath(new))
+            ):
+                return  # Nothing is to be done for hard links to the same file.
+            self._copy_metadata(old, new)
+            if self._exists_below_overlay(old) or self.is_deleted(new):
+                self._link_in_overlay(old, new)
+            else:
+                os.rename(self._realpath(old), self._realpath(new))
+        else:
+            self._preserve_metadata(old)
+            self._copy_metadata(old, new)
+            self._copy_to_overlay(old, new)
+        self._mark_as_visible(new)
+        self._remove(old)
 
     # Links
 
-- 
2.43.0


From a1a10ce905400dc2680a5f1852b7c92a4da0421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:46 +0000
Subject: [PATCH 36/66] fix: commit folders, links, attributes and files with
 pattern characters in their names

---
 ratarmount/WriteOverlay.py | 145 +++++++++++++++++++++++++++----------
 1 file changed, 105 insertions(+), 40 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 4249d29..d45c749 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -632,6 +632,77 @@ class WritableFolderMountSource(fuse.Operations):
         return self._statfs.copy()
 
 
+def _apply_metadata(tarInfo: tarfile.TarInfo, metadata: Optional[tuple]) -> None:
+    mtime, mode, uid, gid = metadata or (None, None, None, None)
+    if mtime is not None:
+        tarInfo.mtime = mtime
+        tarInfo.pax_headers.pop('mtime', None)
+    if mode is not None:
+        tarInfo.mode = stat.S_IMODE(mode)
+    if uid is not None:
+        tarInfo.uid, tarInfo.uname = uid, ''
+    if gid is not None:
+        tarInfo.gid, tarInfo.gname = gid, ''
+
+
+def _append_to_tar(archive: tarfile.TarFile, realpath: str, path: str, metadata: Optional[tuple]) -> None:
+    tarInfo = archive.gettarinfo(realpath, arcname=path)
+    if tarInfo is None:
+        return  # Sockets are not supported by TAR
+    _apply_metadata(tarInfo, metadata)
+    if tarInfo.isreg():
+        with open(realpath, 'rb') as file:
+            archive.addfile(tarInfo, file)
+    else:
+        archive.addfile(tarInfo)
+
+
+def _append_copies(
+    writeOverlay: str, tarFile: str, encoding: str, changes: dict[str, tuple], removed: set[str]
+) -> None:
+    """
+    Append copies of files for which only the metadata has been changed and of files
+    that are only stored as hard links to members about to be removed.
+    """
+
+    def normalize(path: str) -> str:
+        return os.path.normpath('/' + path).lstrip('/')
+
+    with tarfile.open(tarFile, encoding=encoding) as source:
+        members = {normalize(member.name): member for member in source}
+        paths = set(changes) | {
+            path for path, member in members.items() if member.islnk() and normalize(member.linkname) in removed
+        }
+        if not paths.intersection(members) - removed:
+            return
+
+        with tarfile.open(tarFile, 'a', encoding=encoding) as archive:
+            for path in sorted(paths.intersection(members) - removed):
+                tarInfo = copy.copy(members[path])
+                tarInfo.pax_headers = tarInfo.pax_headers.copy()
+                content = None
+                if tarInfo.isreg():
+                    content = source.extractfile(members[path])
+                elif tarInfo.islnk():
+                    target = os.path.join(writeOverlay, normalize(tarInfo.linkname))
+                    if os.path.isfile(target) and not os.path.islink(target):
+                        content = open(target, 'rb')
+                    elif not os.path.lexists(target):
+                        content = source.extractfile(members[path])
+                    if not content:
+                        continue
+                    tarInfo.type = tarfile.REGTYPE
+                    tarInfo.linkname = ""
+                    tarInfo.pax_headers.pop('linkpath', None)
+                    tarInfo.size = content.seek(0, io.SEEK_END)
+                    content.seek(0)
+                if path in changes:
+                    _apply_metadata(tarInfo, changes[path])
+                archive.addfile(tarInfo, content)
+                if content:
+                    content.close()
+
+
 def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCODING, printDebug: int = 0) -> None:
     if not os.path.isdir(writeOverlay):
         raise RatarmountError("Need an existing write overlay folder for committing changes.")
@@ -658,10 +729,13 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
     def add_to_deletion_file(deletionListFile, pathRelativeToRoot: str):
         # Delete with and without leading slash because GNU tar matches exactly while
         # ratarmount does not discern between these two cases.
+        removed.add(pathRelativeToRoot)
         deletionListFile.write(f"{pathRelativeToRoot}\0")
         deletionListFile.write(f"/{pathRelativeToRoot}\0")
         deletionListFile.write(f"./{pathRelativeToRoot}\0")
 
+    removed: set[str] = set()
+    metadata: dict[str, tuple] = {}
     databasePath = os.path.join(writeOverlay, WritableFolderMountSource.hiddenDatabaseName)
     if os.path.exists(databasePath):
         uriPath = urllib.parse.quote(databasePath)
@@ -671,38 +745,35 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
             for path, name in sqlConnection.execute("SELECT path,name FROM files WHERE deleted == 1;"):
                 add_to_deletion_file(deletionListFile, f"{path}/{name}".lstrip('/'))
 
-    # Delete all files to be replaced with other files
-    with (
-        open(deletionList, 'a', encoding=encoding) as deletionListFile,
-        open(appendList, 'a', encoding=encoding) as appendListFile,
-    ):
-        # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
-        suffixes = ['', '-journal', '-shm', '-wal']
-        toBeIgnored = [WritableFolderMountSource.hiddenDatabaseName + suffix for suffix in suffixes]
-
-        writeOverlayWithTrailingSlash = writeOverlay
-        if not writeOverlayWithTrailingSlash.endswith('/'):
-            writeOverlayWithTrailingSlash += '/'
+        for path, name, *row in sqlConnection.execute("SELECT path,name,mtime,mode,uid,gid FROM files WHERE deleted == 0"):
+            metadata[f"{path}/{name}".lstrip('/')] = tuple(row)
+        sqlConnection.close()
 
-        for dirpath, _, filenames in os.walk(writeOverlay, topdown=False):
+    # Delete all files to be replaced with other files. Folders are only appended, so that their contents are kept.
+    pathsToAppend: list[str] = []
+    with open(deletionList, 'a', encoding=encoding) as deletionListFile:
+        for dirpath, dirnames, filenames in os.walk(writeOverlay):
             # dirpath should be a relative path (without leading slash) as seen from the overlay folder
-            if dirpath.startswith(writeOverlayWithTrailingSlash):
-                dirpath = dirpath[len(writeOverlayWithTrailingSlash) :]
-            elif dirpath == writeOverlay:
-                dirpath = ""
+            dirpath = os.path.relpath(dirpath, writeOverlay)
+            dirpath = "" if dirpath == '.' else dirpath
 
-            for name in filenames:
+            if dirpath:
+                pathsToAppend.append(dirpath)
+
+            for name in sorted(filenames + [n for n in dirnames if os.path.islink(os.path.join(writeOverlay, dirpath, n))]):
                 pathRelativeToRoot = f"{dirpath}/{name}".lstrip('/')
-                if pathRelativeToRoot in toBeIgnored:
+                if pathRelativeToRoot in WritableFolderMountSource.hiddenNames:
                     continue
                 add_to_deletion_file(deletionListFile, pathRelativeToRoot)
-                appendListFile.write(f"{pathRelativeToRoot}\0")
+                pathsToAppend.append(pathRelativeToRoot)
+
+    # Files for which only the metadata has been changed
+    changes = {path: row for path, row in metadata.items() if not os.path.lexists(os.path.join(writeOverlay, path))}
 
-            # Append empty folders
-            if not filenames and dirpath:
-                appendListFile.write(f"{dirpath}\0")
+    with open(appendList, 'w', encoding=encoding) as appendListFile:
+        appendListFile.writelines(f"{path}\0" for path in pathsToAppend)
 
-    if os.stat(deletionList).st_size == 0 and os.stat(appendList).st_size == 0:
+    if os.stat(deletionList).st_size == 0 and os.stat(appendList).st_size == 0 and not changes:
         if printDebug >= 1:
             print("Nothing to commit.")
         return
@@ -717,13 +788,13 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
         print()
 
         if os.stat(deletionList).st_size > 0:
-            print(f"    tar --delete --null --verbatim-files-from --files-from='{deletionList}' \\")
+            print(f"    tar --delete --no-wildcards --null --verbatim-files-from --files-from='{deletionList}' \\")
             print(f"        --file '{tarFile}' 2>&1 |")
             print("       sed '/^tar: Exiting with failure/d; /^tar.*Not found in archive/d'")
 
         if os.stat(appendList).st_size > 0:
             print(
-                f"    tar --append -C '{writeOverlay}' --null --verbatim-files-from --files-from='{appendList}' "
+                f"    tar --append --no-recursion -C '{writeOverlay}' --null --verbatim-files-from --files-from='{appendList}' "
                 f"--file '{tarFile}'"
             )
         print()
@@ -742,11 +813,14 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
     print("> ", end='')
     try:
         if input() == 'commit':
+            _append_copies(writeOverlay, tarFile, encoding, changes, removed.difference(pathsToAppend))
+
             if os.stat(deletionList).st_size > 0:
                 tarDelete = run_without_locale(
                     [
                         "tar",
                         "--delete",
+                        "--no-wildcards",
                         "--null",
                         f"--files-from={deletionList}",
                         "--file",
@@ -767,20 +841,11 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
                         print(line)
                     raise RatarmountError("There were problems when trying to delete files.")
 
-            if os.stat(appendList).st_size > 0:
-                run_without_locale(
-                    [
-                        "tar",
-                        "--append",
-                        "-C",
-                        writeOverlay,
-                        "--null",
-                        f"--files-from={appendList}",
-                        "--file",
-                        tarFile,
-                    ],
-                    check=True,
-                )
+            if pathsToAppend:
+                # GNU tar has no option to set the metadata of each file.
+                with tarfile.open(tarFile, 'a', encoding=encoding) as archive:
+                    for path in pathsToAppend:
+                        _append_to_tar(archive, os.path.join(writeOverlay, path), path, metadata.get(path))
 
             if printDebug >= 1:
                 print(f"Committed successfully. You can now remove the overlay folder at {writeOverlay}.")
-- 
2.43.0


From f62ee015ff2fbea80f84c2aa238a9bf6213f51a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 37/66] fix: Do not find paths below files in git repositories
 and use the time of the chosen commit

---
 core/ratarmountcore/mountsource/formats/git.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/git.py b/core/ratarmountcore/mountsource/formats/git.py
index 683b0ed..ea5e45a 100644
--- a/core/ratarmountcore/mountsource/formats/git.py
+++ b/core/ratarmountcore/mountsource/formats/git.py
@@ -30,7 +30,7 @@ class GitMountSource(MountSource):
         self.reference = reference or self._get_default_reference(self.repository)
         commit, reference = self.repository.resolve_refish(self.reference)  # type: ignore
         self.tree = commit.tree
-        self.commitTime = self.repository[self.repository.head.target].commit_time  # type: ignore
+        self.commitTime = commit.commit_time
         self.prefix = ""
 
     @staticmethod
@@ -52,8 +52,8 @@ class GitMountSource(MountSource):
     def _look_up_path(self, path: str) -> Optional[Any]:
         tree: Any = self.tree
         for name in self.prefix.split("/") + path.split("/"):
-            if name and isinstance(tree, pygit2.Tree):
-                if name not in tree:
+            if name:
+                if not isinstance(tree, pygit2.Tree) or name not in tree:
                     return None
                 tree = tree[name]
         return tree
-- 
2.43.0


From 06ba5829aa99ce67b574ef8aaac7239be6705c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 38/66] fix: list implied folders and find all versions of
 paths in RAR archives

---
 .../ratarmountcore/mountsource/formats/rar.py | 80 +++++++------------
 1 file changed, 30 insertions(+), 50 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index 2c54b45..5267899 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -51,12 +51,20 @@ class RarMountSource(MountSource):
         self.files = {RarMountSource._clean_path(info.filename): info for info in self.fileObject.infolist()}
         self.options = options
 
+        # Maps folders, including parent folders without an entry of their own, to the names of their children.
+        self._children: dict[str, dict[str, None]] = {'': {}}
+        for normalizedPath in self.files:
+            path = normalizedPath.rstrip('/')
+            if normalizedPath.endswith('/'):
+                self._children.setdefault(path, {})
+            while path:
+                parent, _, name = path.rpartition('/')
+                self._children.setdefault(parent, {})[name] = None
+                path = parent
+
     @staticmethod
     def _clean_path(path):
-        result = posixpath.normpath(path) + ('/' if path.endswith('/') else '')
-        while result.startswith('../'):
-            result = result[3:]
-        return result
+        return posixpath.normpath('/' + path).lstrip('/') + ('/' if path.endswith('/') else '')
 
     @staticmethod
     def _find_password(fileobj: "rarfile.RarFile", passwords):
@@ -117,66 +125,36 @@ class RarMountSource(MountSource):
     def is_immutable(self) -> bool:
         return True
 
-    # TODO How to behave with files in archive with absolute paths? Currently, they would never be shown.
-    @staticmethod
-    def _get_name(folderPath, filePath):
-        if not filePath.startswith(folderPath):
-            return None
-
-        filePath = filePath[len(folderPath) :].strip('/')
-        if not filePath:
+    def _list(self, path: str) -> Optional[dict[str, FileInfo]]:
+        path = path.strip('/')
+        if path not in self._children:
             return None
-
-        # This effectively adds all parent paths as folders. It is easy to create
-        # RARs and ZIPs with nested files without information on the parent directories!
-        if '/' in filePath:
-            firstSlash = filePath.index('/')
-            filePath = filePath[:firstSlash]
-
-        return filePath
+        return {name: self._lookups(path + '/' + name)[-1] for name in self._children[path]}
 
     @overrides(MountSource)
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
-        path = path.strip('/')
-        if path:
-            path += '/'
-
-        # The "filename" member is wrongly named as it returns the full path inside the archive not just the name part.
-        return {
-            self._get_name(path, normalizedPath): self._convert_to_file_info(normalizedPath, info)
-            for normalizedPath, info in self.files.items()
-            if self._get_name(path, normalizedPath)
-        }
+        return self._list(path)
 
     @overrides(MountSource)
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
-        path = path.strip('/')
-        if path:
-            path += '/'
-
-        # The "filename" member is wrongly named as it returns the full path inside the archive not just the name part.
-        return {
-            self._get_name(path, normalizedPath): RarMountSource._get_mode(info)
-            for normalizedPath, info in self.files.items()
-            if self._get_name(path, normalizedPath)
-        }
+        fileInfos = self._list(path)
+        return None if fileInfos is None else {name: fileInfo.mode for name, fileInfo in fileInfos.items()}
 
     def _lookups(self, path: str) -> builtins.list[FileInfo]:
-        # If we have a fileInfo for the given directory path, then everything is fine.
-        pathAsDir = path.strip('/') + '/'
-        if pathAsDir == '/':
+        path = path.strip('/')
+        if not path:
             return [create_root_file_info(userdata=[None])]
 
+        # If we have a fileInfo for the given directory path, then everything is fine.
+        pathAsDir = path + '/'
         infoList = [
-            RarMountSource._convert_to_file_info(normalizedPath, info)
-            for normalizedPath, info in self.files.items()
-            if normalizedPath.rstrip('/') == path.lstrip('/')
+            RarMountSource._convert_to_file_info(normalizedPath, self.files[normalizedPath])
+            for normalizedPath in (path, pathAsDir)
+            if normalizedPath in self.files
         ]
 
         # Check whether some parent directories of files do not exist as separate entities in the archive.
-        if not any(info.userdata[-1][0] == pathAsDir for info in infoList) and any(
-            normalizedPath.rstrip('/').startswith(pathAsDir) for normalizedPath, info in self.files.items()
-        ):
+        if pathAsDir not in self.files and path in self._children:
             # fmt: off
             infoList.append(
                 FileInfo(
@@ -196,7 +174,9 @@ class RarMountSource(MountSource):
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
         infos = self._lookups(path)
-        return infos[fileVersion] if -len(infos) <= fileVersion < len(infos) else None
+        # Versions are counted from 1. Version 0 is the newest one.
+        index = fileVersion - 1 if fileVersion > 0 else len(infos) - 1 + fileVersion
+        return infos[index] if 0 <= index < len(infos) else None
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
-- 
2.43.0


From 05e99488f5f3bea67f4e730f3ef98c518e6ec773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 39/66] fix: do not fail or report versions for paths below
 files in EXT4 and FAT images, read only the contents of EXT4 files, and
 resolve EXT4 links

---
 .../mountsource/formats/ext4.py               | 29 ++++++++++++-------
 .../ratarmountcore/mountsource/formats/fat.py | 10 +++----
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/ext4.py b/core/ratarmountcore/mountsource/formats/ext4.py
index 15bb35a..d5281fd 100644
--- a/core/ratarmountcore/mountsource/formats/ext4.py
+++ b/core/ratarmountcore/mountsource/formats/ext4.py
@@ -1,9 +1,11 @@
+import os
 import types
 from collections.abc import Iterable
-from typing import IO, Any, Optional, Union
+from typing import IO, Any, Optional, Union, cast
 
 from ratarmountcore.formats import FileFormatID, replace_format_check
 from ratarmountcore.mountsource import FileInfo, MountSource
+from ratarmountcore.StenciledFile import LambdaReaderFile
 from ratarmountcore.utils import overrides
 
 try:
@@ -60,7 +62,7 @@ class EXT4MountSource(MountSource):
             size     = inode.i_size,
             mtime    = inode.i_mtime,
             mode     = inode.i_mode.value if hasattr(inode.i_mode, 'value') else inode.i_mode,
-            linkname = "",  # TODO I don't see any data for links... in the Inode struct
+            linkname = os.fsdecode(inode.readlink()) if isinstance(inode, ext4.inode.SymbolicLink) else "",
             uid      = inode.i_uid,
             gid      = inode.i_gid,
             userdata = [inode.i_no],
@@ -75,14 +77,14 @@ class EXT4MountSource(MountSource):
     def exists(self, path: str) -> bool:
         try:
             self.fileSystem.inode_at(path)
-        except FileNotFoundError:
+        except (FileNotFoundError, NotADirectoryError):
             return False
         return True
 
     def _list(self, path: str, getValue) -> Optional[dict[str, Any]]:
         try:
             inode = self.fileSystem.inode_at(path)
-        except FileNotFoundError:
+        except (FileNotFoundError, NotADirectoryError):
             return None
 
         if not isinstance(inode, ext4.inode.Directory):
@@ -104,21 +106,28 @@ class EXT4MountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        # There is only one version. Versions are counted from 1 and 0 is the newest version.
+        if fileVersion not in [0, 1]:
+            return None
+
         try:
             return self._convert_ext4_directory_entry_to_file_info(self.fileSystem.inode_at(path))
-        except FileNotFoundError:
+        except (FileNotFoundError, NotADirectoryError):
             pass
         return None
 
-    @overrides(MountSource)
-    def versions(self, path: str) -> int:
-        return 1
-
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
         inode = fileInfo.userdata[-1]
         assert isinstance(inode, int)
-        return self.fileSystem.inodes[inode].open()
+        file = self.fileSystem.inodes[inode].open()
+
+        # The file object returned by ext4 reads past the end of the file up to the end of its last block.
+        def pread(offset: int, size: int) -> bytes:
+            file.seek(offset)
+            return file.read(size)
+
+        return cast(IO[bytes], LambdaReaderFile(pread, fileInfo.size))
 
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
diff --git a/core/ratarmountcore/mountsource/formats/fat.py b/core/ratarmountcore/mountsource/formats/fat.py
index f67376b..c07ed52 100644
--- a/core/ratarmountcore/mountsource/formats/fat.py
+++ b/core/ratarmountcore/mountsource/formats/fat.py
@@ -88,7 +88,7 @@ class FATMountSource(MountSource):
         try:
             self.fileSystem.root_dir.get_entry(path)
         except PyFATException as exception:
-            if exception.errno == errno.ENOENT:
+            if exception.errno in [errno.ENOTDIR, errno.ENOENT]:
                 return False
             raise exception
         return True
@@ -109,6 +109,10 @@ class FATMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        # There is only one version. Versions are counted from 1 and 0 is the newest version.
+        if fileVersion not in [0, 1]:
+            return None
+
         try:
             entry = self.fileSystem.root_dir.get_entry(path)
         except PyFATException as exception:
@@ -117,10 +121,6 @@ class FATMountSource(MountSource):
             raise exception
         return self._convert_fatdirectory_entry_to_file_info(entry, path)
 
-    @overrides(MountSource)
-    def versions(self, path: str) -> int:
-        return 1
-
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
         path = fileInfo.userdata[-1]
-- 
2.43.0


From 1edccabc6ded8b5a8eddb88d1216039b5767d584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 40/66] fix: open empty PDF attachments

---
 core/ratarmountcore/mountsource/formats/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/pdf.py b/core/ratarmountcore/mountsource/formats/pdf.py
index ca2a50f..506bb44 100644
--- a/core/ratarmountcore/mountsource/formats/pdf.py
+++ b/core/ratarmountcore/mountsource/formats/pdf.py
@@ -222,7 +222,7 @@ class PDFMountSource(SQLiteIndexMountSource):
     def open(self, fileInfo: FileInfo, buffering: int = -1) -> IO[bytes]:
         userdata = SQLiteIndex.get_index_userdata(fileInfo.userdata)
         data = self._open_with_offset(userdata.offsetheader)
-        if not data:
+        if data is None:
             raise RatarmountError(f"Failed to find PDF object stream at offset {userdata.offsetheader}.")
         return io.BytesIO(data)
 
-- 
2.43.0


From 608a2529908223937e6cb92bc3c1786c2fb977ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 41/66] fix: return the link target and path in listings of
 folders

---
 core/ratarmountcore/mountsource/formats/folder.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index d4bcb15..a478065 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -82,13 +82,16 @@ class FolderMountSource(MountSource):
         # fmt: on
 
     @staticmethod
-    def _dir_entry_to_file_info(dirEntry: os.DirEntry, path: str, realpath: str):
+    def _dir_entry_to_file_info(dirEntry: os.DirEntry, path: str):
         try:
-            linkname = os.readlink(realpath) if dirEntry.is_symlink() else ""
+            linkname = os.readlink(dirEntry.path) if dirEntry.is_symlink() else ""
         except OSError:
             linkname = ""
 
-        return FolderMountSource._stats_to_file_info(dirEntry.stat(follow_symlinks=False), linkname, path)
+        name = os.fsdecode(dirEntry.name)
+        return FolderMountSource._stats_to_file_info(
+            dirEntry.stat(follow_symlinks=False), f"{path.strip('/')}/{name}".lstrip('/'), linkname
+        )
 
     @overrides(MountSource)
     def is_immutable(self) -> bool:
@@ -134,7 +137,7 @@ class FolderMountSource(MountSource):
             return None
 
         return {
-            os.fsdecode(dirEntry.name): FolderMountSource._dir_entry_to_file_info(dirEntry, path, realpath)
+            os.fsdecode(dirEntry.name): FolderMountSource._dir_entry_to_file_info(dirEntry, path)
             for dirEntry in os.scandir(realpath)
         }
 
-- 
2.43.0


From 09053b736676c57733c17877a99373c6079a2f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 42/66] fix: return in listings the attributes found for mount
 points and forward versions

---
 .../mountsource/compositing/removeprefix.py   | 22 +++++++++++++++----
 .../mountsource/compositing/subvolumes.py     |  9 ++++++--
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/removeprefix.py b/core/ratarmountcore/mountsource/compositing/removeprefix.py
index 53a7978..831c419 100644
--- a/core/ratarmountcore/mountsource/compositing/removeprefix.py
+++ b/core/ratarmountcore/mountsource/compositing/removeprefix.py
@@ -27,24 +27,38 @@ class RemovePrefixMountSource(MountSource):
         if not path.endswith('/'):
             path = path + '/'
         if path.startswith(self.prefix):
-            return queryMountSource(path[len(self.prefix) - 1 : -1])
+            return queryMountSource(path[len(self.prefix) - 1 : -1] or '/')
         if self.prefix.startswith(path):
             return queryDir(self.prefix.removeprefix(path).split('/', maxsplit=1)[0])
         return defaultValue
 
+    def _list_parent(self, path: str, name: str) -> dict[str, FileInfo]:
+        fileInfo = self.lookup(f"{path.rstrip('/')}/{name}")
+        return {name: self._directory_info.clone() if fileInfo is None else fileInfo}
+
     # Methods with 'path' argument
 
     @overrides(MountSource)
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
-        return self._parse_path(path, self.mountSource.list, lambda name: {name: self._directory_info.clone()}, None)
+        return self._parse_path(path, self.mountSource.list, lambda name: self._list_parent(path, name), None)
 
     @overrides(MountSource)
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
-        return self._parse_path(path, self.mountSource.list_mode, lambda name: {name: self._directory_info.mode}, None)
+        return self._parse_path(
+            path,
+            self.mountSource.list_mode,
+            lambda name: {name: info.mode for name, info in self._list_parent(path, name).items()},
+            None,
+        )
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
-        return self._parse_path(path, self.mountSource.lookup, lambda _: self._directory_info.clone(), None)
+        return self._parse_path(
+            path,
+            lambda subpath: self.mountSource.lookup(subpath, fileVersion),
+            lambda _: self._directory_info.clone() if fileVersion in [0, 1] else None,
+            None,
+        )
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index 58489b8..26e99f2 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -147,7 +147,11 @@ class SubvolumesMountSource(MountSource):
 
         subvolume, subpath, mounted = result
         if not isinstance(mounted, MountSource):
-            return self.rootFileInfo.clone()
+            return self.rootFileInfo.clone() if fileVersion in [0, 1] else None
+
+        # Mount points are folders and have, like roots of mount sources, only one version.
+        if subpath == '/' and fileVersion not in [0, 1]:
+            return None
 
         fileInfo = mounted.lookup(subpath, fileVersion=fileVersion)
         if isinstance(fileInfo, FileInfo):
@@ -174,7 +178,8 @@ class SubvolumesMountSource(MountSource):
 
         _subvolume, subpath, mounted = result
         if not isinstance(mounted, MountSource):
-            return {name: self.rootFileInfo.mode if onlyMode else self.rootFileInfo.clone() for name in mounted}
+            fileInfos = {name: self.lookup(f"{path.rstrip('/')}/{name}") or self.rootFileInfo.clone() for name in mounted}
+            return {name: info.mode for name, info in fileInfos.items()} if onlyMode else fileInfos
 
         return mounted.list_mode(subpath) if onlyMode else mounted.list(subpath)
 
-- 
2.43.0


From 0f6b2850099a3cc43686cba2b934483dead40a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 43/66] fix: do not find versions that do not exist

---
 core/ratarmountcore/SQLiteIndex.py                        | 3 +++
 core/ratarmountcore/mountsource/compositing/singlefile.py | 4 ++++
 core/ratarmountcore/mountsource/formats/fsspec.py         | 4 ++++
 core/ratarmountcore/mountsource/formats/git.py            | 8 ++++----
 core/ratarmountcore/mountsource/formats/sqlar.py          | 4 ++++
 5 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 015f928..27dcd6e 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -951,6 +951,9 @@ class SQLiteIndex:
 
         path = self._query_normpath(path)
         if path == '/':
+            # The root always has exactly one version.
+            if fileVersion not in [0, 1]:
+                return None
             return create_root_file_info(userdata=[SQLiteIndexedTarUserData(0, 0, False, False, True, 0)])
 
         path, name = path.rsplit('/', 1)
diff --git a/core/ratarmountcore/mountsource/compositing/singlefile.py b/core/ratarmountcore/mountsource/compositing/singlefile.py
index d65ce36..f6307d1 100644
--- a/core/ratarmountcore/mountsource/compositing/singlefile.py
+++ b/core/ratarmountcore/mountsource/compositing/singlefile.py
@@ -138,6 +138,10 @@ class SingleFileMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        # There is only one version. Versions are counted from 1 and 0 is the newest version.
+        if fileVersion not in [0, 1]:
+            return None
+
         if not path or path == '/':
             return self._create_file_info(size=0, isdir=True)
         if path.strip('/') == self.path:
diff --git a/core/ratarmountcore/mountsource/formats/fsspec.py b/core/ratarmountcore/mountsource/formats/fsspec.py
index 1cb7eb2..05b60fb 100644
--- a/core/ratarmountcore/mountsource/formats/fsspec.py
+++ b/core/ratarmountcore/mountsource/formats/fsspec.py
@@ -271,6 +271,10 @@ class FSSpecMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        # There is only one version. Versions are counted from 1 and 0 is the newest version.
+        if fileVersion not in [0, 1]:
+            return None
+
         if isinstance(self.fileSystem, fsspec.implementations.http.HTTPFileSystem):
             return self._lookup_http(path)
 
diff --git a/core/ratarmountcore/mountsource/formats/git.py b/core/ratarmountcore/mountsource/formats/git.py
index ea5e45a..679bd1c 100644
--- a/core/ratarmountcore/mountsource/formats/git.py
+++ b/core/ratarmountcore/mountsource/formats/git.py
@@ -109,13 +109,13 @@ class GitMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        # There is only one version. Versions are counted from 1 and 0 is the newest version.
+        if fileVersion not in [0, 1]:
+            return None
+
         obj = self._look_up_path(path)
         return None if obj is None else self._convert_to_file_info(obj, path)
 
-    @overrides(MountSource)
-    def versions(self, path: str) -> int:
-        return 1
-
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
         path = fileInfo.userdata[-1]
diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 3da86a5..4aa34da 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -338,6 +338,10 @@ class SQLARMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        # There is only one version. Versions are counted from 1 and 0 is the newest version.
+        if fileVersion not in [0, 1]:
+            return None
+
         path = path.strip('/')
         if not path:
             return create_root_file_info([-1])
-- 
2.43.0


From 59e9c16e6454fea8dd0f0a703aabed96954ce32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 44/66] fix: find all data URLs in HTML files, decode arbitrary
 bytes, and read names in EXT4 folders correctly

---
 .../mountsource/formats/ext4.py               |  5 ++-
 .../mountsource/formats/html.py               | 40 +++++++++++++------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/ext4.py b/core/ratarmountcore/mountsource/formats/ext4.py
index d5281fd..131aff6 100644
--- a/core/ratarmountcore/mountsource/formats/ext4.py
+++ b/core/ratarmountcore/mountsource/formats/ext4.py
@@ -90,10 +90,11 @@ class EXT4MountSource(MountSource):
         if not isinstance(inode, ext4.inode.Directory):
             return None
 
+        # Names are not necessarily terminated by a null byte. The member 'name' may contain bytes of the next entry.
         return {
-            entry.name.decode(self.encoding): getValue(self.fileSystem.inodes[entry.inode])
+            entry.name[: entry.name_len].decode(self.encoding): getValue(self.fileSystem.inodes[entry.inode])
             for entry, _ in inode.opendir()
-            if entry.name not in (b'.', b'..')
+            if entry.name[: entry.name_len] not in (b'.', b'..')
         }
 
     @overrides(MountSource)
diff --git a/core/ratarmountcore/mountsource/formats/html.py b/core/ratarmountcore/mountsource/formats/html.py
index d2f694e..0859264 100644
--- a/core/ratarmountcore/mountsource/formats/html.py
+++ b/core/ratarmountcore/mountsource/formats/html.py
@@ -255,8 +255,9 @@ class DataURLFile(io.BytesIO):
         self.encoding = 'ascii'  # https://docs.python.org/3/library/codecs.html#standard-encodings
         self.is_base64 = False
 
-        data = urllib.parse.unquote(html.unescape(data_url or ""))
-        match = DATA_URL_REGEX.match(data)
+        # Only unquote the header as text because percent-encoded data may consist of arbitrary bytes.
+        header, _, data = html.unescape(data_url or "").partition(',')
+        match = DATA_URL_REGEX.match(urllib.parse.unquote(header) + ',')
         if not match:
             super().__init__()
             return
@@ -286,8 +287,14 @@ class DataURLFile(io.BytesIO):
                 if standard_encoding := encodings.search_function(value.strip()):
                     self.encoding = standard_encoding.name
 
-        data = data[match.end() :]
-        decoded = base64.b64decode(data) if self.is_base64 else data.encode(self.encoding)
+        if self.is_base64:
+            decoded = base64.b64decode(urllib.parse.unquote(data))
+        else:
+            try:
+                encoded = data.encode(self.encoding)
+            except UnicodeEncodeError:
+                encoded = data.encode()
+            decoded = urllib.parse.unquote_to_bytes(encoded)
         super().__init__(decoded)
 
 
@@ -366,6 +373,8 @@ def gather_embedded_files(fileobj: IO[str]) -> list[EmbeddedFile]:
         processed_data_size += len(data)
 
         parser.feed(data)
+    # The parser may buffer data.
+    parser.close()
     file_size = processed_data_size
 
     def to_char_offset(line_offset: LineOffset):
@@ -430,16 +439,20 @@ class HTMLMountSource(SQLiteIndexMountSource):
         self.mtime = os.stat(fileOrPath).st_mtime if isinstance(fileOrPath, str) else time.time()
 
         # html.parser seems to be very lenient. Therefore, check manually and hope that the check is lenient enough.
-        with open(fileOrPath, 'rb') if isinstance(fileOrPath, str) else fileOrPath as file:
-            if not is_html_file(file):
+        rawFile = open(fileOrPath, 'rb') if isinstance(fileOrPath, str) else fileOrPath
+        try:
+            if not is_html_file(rawFile):
                 raise ValueError("Not a valid HTML file!")
+        except Exception:
+            if isinstance(fileOrPath, str):
+                rawFile.close()
+            raise
+        rawFile.seek(0)
 
         self.fileObjectLock = threading.Lock()
-        self.fileObject = (
-            open(fileOrPath, encoding=encoding)  # open in text mode!
-            if isinstance(fileOrPath, str)
-            else io.TextIOWrapper(fileOrPath, encoding=encoding)
-        )
+        self.encoding = encoding
+        # Do not translate newlines because it would make it impossible to compute byte offsets.
+        self.fileObject = io.TextIOWrapper(rawFile, encoding=encoding, newline='\n')
 
         indexOptions = {
             'archiveFilePath': fileOrPath if isinstance(fileOrPath, str) else None,
@@ -500,8 +513,9 @@ class HTMLMountSource(SQLiteIndexMountSource):
             return DataURLFile()
 
         with self.fileObjectLock:
-            self.fileObject.seek(start)
-            return DataURLFile(self.fileObject.read(end - start))
+            # The span consists of byte offsets.
+            self.fileObject.buffer.seek(start)
+            return DataURLFile(self.fileObject.buffer.read(end - start).decode(self.encoding))
 
     @overrides(SQLiteIndexMountSource)
     def open(self, fileInfo: FileInfo, buffering: int = -1) -> IO[bytes]:
-- 
2.43.0


From 990c64c507761af3289db452f1ddd20d7f3445cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 45/66] fix: do not mix up the positions of several members
 opened in an archive given as file object

---
 .../mountsource/formats/libarchive.py         | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 36bbfde..36fec8f 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -8,15 +8,17 @@ import logging
 import os
 import stat
 import sys
+import threading
 from collections.abc import Sequence
 from pathlib import Path
-from typing import IO, Callable, Optional, Union, cast
+from typing import IO, Any, Callable, Optional, Union, cast
 
 from ratarmountcore.compressions import COMPRESSION_BACKENDS
 from ratarmountcore.formats import FILE_FORMATS
 from ratarmountcore.mountsource import FileInfo, MountSource
 from ratarmountcore.mountsource.SQLiteIndexMountSource import SQLiteIndexMountSource
 from ratarmountcore.SQLiteIndex import SQLiteIndex
+from ratarmountcore.StenciledFile import RawStenciledFile
 from ratarmountcore.utils import InvalidIndexError, overrides
 
 try:
@@ -196,8 +198,10 @@ class IterableArchive:
         encoding='utf-8',
         passwords: Optional[Sequence[Union[str, bytes]]] = None,
         bufferSize=1024 * 1024,
+        fileObjectLock=None,
     ):
         self.encoding = encoding
+        self._fileObjectLock = fileObjectLock
         self.bufferSize = bufferSize
         self._file = file
         self._entryIndex = 0  # A consecutive number to identify entries even if they have the same name.
@@ -270,26 +274,30 @@ class IterableArchive:
     def _open_with_file_object(self):
         if not hasattr(self._file, 'readinto'):
             return
+        file: Any = self._file
+        if hasattr(file, 'seekable') and file.seekable() and hasattr(file, 'tell'):
+            # The same file object is used by all opened archive members, so that each needs its own file position.
+            file = RawStenciledFile([(file, 0, file.seek(0, io.SEEK_END))], self._fileObjectLock)
         self._buffer = ctypes.create_string_buffer(self.bufferSize)
 
         def read_from_file_object(_archive, _context, pointerToBufferPointer):
             try:
-                size = self._file.readinto(self._buffer)
+                size = file.readinto(self._buffer)
             except (NotImplementedError, AttributeError):
-                result = self._file.read(self.bufferSize)
+                result = file.read(self.bufferSize)
                 size = len(result)
                 self._buffer = ctypes.c_char_p(result)
             pointerToBufferPointer = ctypes.cast(pointerToBufferPointer, ctypes.POINTER(ctypes.c_void_p))
             pointerToBufferPointer[0] = ctypes.cast(self._buffer, ctypes.c_void_p)
             return size
 
-        if hasattr(self._file, 'seekable') and self._file.seekable() and hasattr(self._file, 'tell'):
+        if hasattr(file, 'seekable') and file.seekable() and hasattr(file, 'tell'):
 
             def seek_file_object(_archive, _context, offset, whence):
-                self._file.seek(offset, whence)
-                return self._file.tell()
+                file.seek(offset, whence)
+                return file.tell()
 
-            self._file.seek(0)
+            file.seek(0)
             self._seekCallback = laffi.SEEK_CALLBACK(seek_file_object)
             # Needs to be assigned to self, or else, ctypes lifetime issues result in a segfault!
             laffi.read_set_seek_callback(self._archive, self._seekCallback)
@@ -362,9 +370,11 @@ class LibarchiveFile(io.RawIOBase):
         fileSize,
         passwords: Optional[Sequence[str]] = None,
         archiveCache: Optional[IterableArchiveCache] = None,
+        fileObjectLock=None,
     ):
         io.RawIOBase.__init__(self)
         self.file = file
+        self._fileObjectLock = fileObjectLock
         self.fileSize = fileSize
         self.entry_index = entry_index
         self.passwords = passwords
@@ -383,7 +393,7 @@ class LibarchiveFile(io.RawIOBase):
 
         self._archive = self._archiveCache.take(self.entry_index)
         if self._archive is None:
-            self._archive = IterableArchive(self.file, passwords=self.passwords)
+            self._archive = IterableArchive(self.file, passwords=self.passwords, fileObjectLock=self._fileObjectLock)
 
         while True:
             self._entry = self._archive.next_entry()
@@ -523,6 +533,7 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
         self.passwords = options.get("passwords", [])
         self.tarFileName = tarFileName
         self._archiveCache = IterableArchiveCache()
+        self._fileObjectLock = threading.Lock()
 
         # Determine an archive file name to show for debug output and as file name inside the mount point for
         # simple non-TAR gzip/bzip2 stream-compressed files.
@@ -557,7 +568,7 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
         triedToOpen = False
         fileInfos = []
         gotAnyEntry = False
-        with IterableArchive(self.fileOrPath, passwords=self.passwords) as archive:
+        with IterableArchive(self.fileOrPath, passwords=self.passwords, fileObjectLock=self._fileObjectLock) as archive:
             while True:
                 entry = archive.next_entry()
                 if entry is None:
@@ -616,5 +627,6 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
                 fileSize=fileInfo.size,
                 passwords=self.passwords,
                 archiveCache=self._archiveCache,
+                fileObjectLock=self._fileObjectLock,
             ),
         )
-- 
2.43.0


From 1730d5c84dbb163c28b298e843374969b3684161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 46/66] fix: refuse to seek before the start of files in FAT
 images

---
 core/ratarmountcore/_external/pyfatfs/FatIO.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ratarmountcore/_external/pyfatfs/FatIO.py b/core/ratarmountcore/_external/pyfatfs/FatIO.py
index 5531cb8..ef2904a 100644
--- a/core/ratarmountcore/_external/pyfatfs/FatIO.py
+++ b/core/ratarmountcore/_external/pyfatfs/FatIO.py
@@ -86,6 +86,9 @@ class FatIO(io.RawIOBase):
         elif whence != 0:
             raise ValueError(f"Invalid whence {whence}, should be 0, 1 or 2")
 
+        if offset < 0:
+            raise ValueError(f"Negative seek position {offset}")
+
         offset = min(offset, self.dir_entry.filesize)
         prev_index = self.__cindex
 
-- 
2.43.0


From 9344bb17620b22c4c0bc89a5e4cd1d67b72de47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 47/66] fix: do not write to existing indexes needlessly so
 that archives can be mounted several times at once

---
 .../mountsource/SQLiteIndexMountSource.py          | 14 ++++++++++----
 .../ratarmountcore/mountsource/formats/squashfs.py |  2 ++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index 2df1a3a..d7e290c 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -115,9 +115,10 @@ class SQLiteIndexMountSource(MountSource):
         if 'backendName' not in metadata:
             self.index.try_to_open_first_file(lambda path: self.open(self.lookup(path)))
 
-    def _compute_and_store_hashes(self) -> None:
+    def _compute_and_store_hashes(self) -> bool:
+        """Returns true if there were files with missing hashes."""
         if not self.hashes:
-            return
+            return False
 
         # We want to find all rows in "files" that are missing any of the self.hashes in "xattrs".
         # This makes it possible to interrupt the slow checksumming and resume it later!
@@ -166,6 +167,7 @@ class SQLiteIndexMountSource(MountSource):
             f'SELECT * FROM {subquery} ORDER BY "offsetheader" ASC;', (*required_xattrs, len(required_xattrs))
         )
         xattrs: list[tuple[int, str, bytes]] = []
+        hasMissingHashes = False
         hashedBytes = 0
         with ProgressBar(totalBytes, description="Checksumming", showRate=True) as progressBar:
 
@@ -173,6 +175,7 @@ class SQLiteIndexMountSource(MountSource):
                 progressBar.update(hashedBytes + byteCount)
 
             for row in rows:
+                hasMissingHashes = True
                 fileInfo = self.index._row_to_file_info(row)  # pylint: disable=protected-access
                 if not fileInfo.userdata:
                     continue
@@ -208,6 +211,8 @@ class SQLiteIndexMountSource(MountSource):
         if xattrs:
             self.index.setxattrs(xattrs)
 
+        return hasMissingHashes
+
     def _finalize_index(
         self,
         create_index: Callable[[], None],
@@ -220,8 +225,9 @@ class SQLiteIndexMountSource(MountSource):
             # index_is_loaded checks for completed 'files' (stats etc.) table.
             # It does not check regarding xattrs completenes. We need to check whether some hashes
             # should still be computed.
-            self._compute_and_store_hashes()
-            callable_store_metadata()
+            # Do not write to the index needlessly. It might be in use by other mounts, in which case it is locked.
+            if self._compute_and_store_hashes():
+                callable_store_metadata()
             self.index.reload_index_read_only()
             return
 
diff --git a/core/ratarmountcore/mountsource/formats/squashfs.py b/core/ratarmountcore/mountsource/formats/squashfs.py
index 85b497c..751ed81 100644
--- a/core/ratarmountcore/mountsource/formats/squashfs.py
+++ b/core/ratarmountcore/mountsource/formats/squashfs.py
@@ -466,6 +466,8 @@ class SquashFSMountSource(SQLiteIndexMountSource):
 
     @overrides(SQLiteIndexMountSource)
     def close(self) -> None:
+        super().close()
+
         if rawFileObject := getattr(self, 'rawFileObject', None):
             rawFileObject.close()
 
-- 
2.43.0


From 155932ba3acb1ce54e3742e41af4db39e92cfb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:34 +0000
Subject: [PATCH 48/66] fix: do not use indexes of archives that grew, rebuild
 those of TAR archives that do not fit, and hash appended files

---
 core/ratarmountcore/SQLiteIndex.py            | 20 ++++++++++++++++---
 .../ratarmountcore/mountsource/formats/tar.py |  3 ++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 27dcd6e..924534c 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -270,6 +270,8 @@ class SQLiteIndex:
         self.backendName = backendName
         self._insertedRowCount = 0
         self._temporaryIndexFile: Optional[Any] = None
+        # In contrast to indexFilePath, this is the found path for compressed indexes, not that of the temporary copy.
+        self._loadedIndexFilePath: Optional[str] = None
 
         if indexFolders is None:
             indexFolders = ['', os.path.join("~", ".ratarmount")]
@@ -538,10 +540,10 @@ class SQLiteIndex:
         if (
             hasattr(archiveStats, 'st_size')
             and 'st_size' in storedStats
-            and archiveStats.st_size < storedStats['st_size']
+            and archiveStats.st_size != storedStats['st_size']
         ):
             raise InvalidIndexError(
-                f"Archive for this SQLite index has shrunk in size from "
+                f"Archive for this SQLite index has changed in size from "
                 f"{storedStats['st_size']} to {archiveStats.st_size}"
             )
 
@@ -1198,6 +1200,7 @@ class SQLiteIndex:
             indexFilePath = indexFilePath.removeprefix(fileURLPrefix)
 
         temporaryFolder = os.environ.get("RATARMOUNT_INDEX_TMPDIR", None)
+        self._temporaryIndexFile = None  # May still be set because of a prior attempt to load another index.
 
         def _undo_compression(file):
             compression = detect_compression(file)
@@ -1384,7 +1387,18 @@ class SQLiteIndex:
                     exc_info=logger.isEnabledFor(logging.DEBUG),
                 )
 
-        return self.index_is_loaded()
+        if self.index_is_loaded():
+            self._loadedIndexFilePath = indexFilePath
+            return True
+        return False
+
+    def discard_loaded_index(self):
+        """Closes and removes a loaded index that was found out to not fit the archive."""
+        loadedIndexFilePath = self._loadedIndexFilePath
+        self.close()
+        if loadedIndexFilePath and not self.readOnly and '://' not in loadedIndexFilePath:
+            unchecked_remove(loadedIndexFilePath)
+        self._loadedIndexFilePath = None
 
     def clear_compression_offsets(self):
         for table in ['bzip2blocks', 'gzipindex', 'gzipindexes', 'gztoolindex', 'zstdblocks']:
diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index fd3489c..a8b3d65 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -713,13 +713,14 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 self.index.create_index_timed(
                     create_index=lambda: self._create_index(appendedPartAsFile, streamOffset=pastEndOffset)
                 )
+                self._compute_and_store_hashes()
 
                 self.index.drop_metadata()
                 self._store_metadata()
                 self.index.reload_index_read_only()
                 return
 
-            self.index.close()
+            self.index.discard_loaded_index()
             logger.warning("The loaded index does not match the archive. Will recreate it.")
 
         # At this point, self.index.index_is_loaded() should return false because either it was false already
-- 
2.43.0


From 6731488d97593289766080debf9fe0bf0dd549ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 49/66] fix: Recognize interrupted index creations and complete
 them

Interrupted index creations could be mistaken for complete indexes because the marker table was dropped before
hashes and metadata were stored, the writability test used the name of the table with all files, and
changes to existing indexes were done without a journal.
---
 core/ratarmountcore/SQLiteIndex.py            | 113 ++++++++++++------
 .../mountsource/SQLiteIndexMountSource.py     |  16 ++-
 .../ratarmountcore/mountsource/formats/tar.py |  12 +-
 3 files changed, 94 insertions(+), 47 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 924534c..464ed78 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -363,7 +363,12 @@ class SQLiteIndex:
     def clear_indexes(self):
         for indexPath in self.possibleIndexFilePaths:
             if indexPath and os.path.isfile(indexPath):
-                os.remove(indexPath)
+                SQLiteIndex._remove_index(indexPath)
+
+    @staticmethod
+    def _remove_index(path: str) -> None:
+        unchecked_remove(path)
+        unchecked_remove(path + '-journal')
 
     def open_existing(self, checkMetadata: Optional[Callable[[dict[str, Any]], None]] = None):
         """Tries to find an already existing index."""
@@ -603,7 +608,8 @@ class SQLiteIndex:
 
         try:
             connection = SQLiteIndex._open_sql_db(path)
-            connection.executescript('CREATE TABLE "files" ( "path" VARCHAR(65535) NOT NULL );')
+            # Do not use the name of a table of the index, or else it might be mistaken for one if this gets interrupted.
+            connection.executescript('CREATE TABLE "test" ( "path" VARCHAR(65535) NOT NULL );')
             connection.commit()
             connection.close()
             return True
@@ -622,17 +628,22 @@ class SQLiteIndex:
         # do not point to a self-bind mount point.
         sqlConnection = sqlite3.connect(path, **kwargs)
         sqlConnection.row_factory = sqlite3.Row
-        sqlConnection.executescript(
-            # Locking mode exclusive leads to a measurable speedup. E.g., find on 2k recursive files tar
-            # improves from ~1s to ~0.4s!
-            # https://blog.devart.com/increasing-sqlite-performance.html
-            """
-            PRAGMA LOCKING_MODE = EXCLUSIVE;
-            PRAGMA TEMP_STORE = MEMORY;
-            PRAGMA JOURNAL_MODE = OFF;
-            PRAGMA SYNCHRONOUS = OFF;
-            """
-        )
+        try:
+            sqlConnection.executescript(
+                # Locking mode exclusive leads to a measurable speedup. E.g., find on 2k recursive files tar
+                # improves from ~1s to ~0.4s!
+                # https://blog.devart.com/increasing-sqlite-performance.html
+                """
+                PRAGMA LOCKING_MODE = EXCLUSIVE;
+                PRAGMA TEMP_STORE = MEMORY;
+                PRAGMA JOURNAL_MODE = OFF;
+                PRAGMA SYNCHRONOUS = OFF;
+                """
+            )
+        except sqlite3.Error:
+            # Else, the database might stay locked.
+            sqlConnection.close()
+            raise
 
         if hasattr(sqlConnection, 'setconfig'):
             ENVIRONMENT_YES_VALUES = ('1', 'yes', 'on', 'enable', 'enabled')
@@ -641,6 +652,11 @@ class SQLiteIndex:
             sqlConnection.setconfig(sqlite3.SQLITE_DBCONFIG_DQS_DML, enable_double_quotes)
         return sqlConnection
 
+    @staticmethod
+    def _enable_journal(connection: sqlite3.Connection) -> None:
+        """Complete indexes may only be changed with a journal so that they stay intact when being interrupted."""
+        connection.executescript("PRAGMA JOURNAL_MODE = DELETE;")
+
     @staticmethod
     def _create_sql_db(indexFilePath: Optional[str]) -> tuple[str, sqlite3.Connection]:
         indexFilePath = indexFilePath or ':memory:'
@@ -706,7 +722,7 @@ class SQLiteIndex:
         searchByConcat = """path || '/' || name NOT IN ( SELECT path || '/' || name"""
         cleanUpDatabase = f"""
             INSERT OR REPLACE INTO "files" SELECT * FROM "filestmp" ORDER BY "path","name",rowid;
-            DROP TABLE "filestmp";
+            DELETE FROM "filestmp";
             INSERT OR IGNORE INTO "files"
                 /* path name offsetheader offset size mtime mode type */
                 SELECT path,name,offsetheader,offset,0,0,{int(0o555 | stat.S_IFDIR)},{int(tarfile.DIRTYPE)},
@@ -727,10 +743,18 @@ class SQLiteIndex:
 
         connection.executescript(cleanUpDatabase)
 
-    def finalize(self):
-        SQLiteIndex._finalize_files_table(self.sqlConnection)
-
-    def create_index_timed(self, create_index: Callable[[], None]):
+    def finalize(self, store_metadata: Optional[Callable[[], None]] = None):
+        connection = self.get_connection()
+        SQLiteIndex._finalize_files_table(connection)
+        SQLiteIndex._enable_journal(connection)
+        if store_metadata:
+            store_metadata()
+        # This table marks incomplete indexes and therefore must be dropped after everything else has been stored.
+        connection.executescript('DROP TABLE IF EXISTS "filestmp";')
+
+    def create_index_timed(
+        self, create_index: Callable[[], None], store_metadata: Optional[Callable[[], None]] = None
+    ):
         if logger.isEnabledFor(logging.WARNING):
             print(f"Creating offset dictionary for {self.archiveFilePath} ...")
         t0 = timer()
@@ -738,7 +762,7 @@ class SQLiteIndex:
         # Ensure that all tables exist. This is necessary for TARs detected as being appended to.
         self.get_connection().executescript(SQLiteIndex._CREATE_TABLES)
         create_index()
-        self.finalize()
+        self.finalize(store_metadata)
 
         if logger.isEnabledFor(logging.WARNING):
             print(f"Creating offset dictionary for {self.archiveFilePath} took {timer() - t0:.2f}s")
@@ -749,8 +773,14 @@ class SQLiteIndex:
         store_metadata: Optional[Callable[[], None]] = None,
         isFileObject: Optional[bool] = None,
         writeIndex: bool = False,
+        post_process: Optional[Callable[[], Any]] = None,
     ):
-        """If the index could not be loaded, creates it fully. The index is read-only after finalization."""
+        """
+        If the index could not be loaded, creates it fully. The index is read-only after finalization.
+
+        post_process
+            Called after the index is complete but can still be extended, e.g., with slow-to-compute attributes.
+        """
         if self.index_is_loaded():
             self.reload_index_read_only()
             return
@@ -769,11 +799,11 @@ class SQLiteIndex:
         else:
             self.indexFilePath, self.sqlConnection = SQLiteIndex._create_sql_db(':memory:')
 
-        self.create_index_timed(create_index)
+        self.create_index_timed(create_index, store_metadata if callable(store_metadata) else None)
 
         if self.index_is_loaded():
-            if callable(store_metadata):
-                store_metadata()
+            if post_process:
+                post_process()
             self.reload_index_read_only()
 
     def file_count(self) -> int:
@@ -1265,17 +1295,21 @@ class SQLiteIndex:
             self.sqlConnection = SQLiteIndex._open_sql_db(f"file:{uriPath}?mode=ro", uri=True, check_same_thread=False)
         else:
             self.sqlConnection = SQLiteIndex._open_sql_db(temporaryIndexFilePath)
-        tables = get_sqlite_tables(self.sqlConnection)
-        versions = None
-        try:
-            rows = self.sqlConnection.execute('SELECT * FROM versions;')
-            versions = {}
-            for row in rows:
-                versions[row[0]] = (row[2], row[3], row[4])
-        except sqlite3.OperationalError:
-            pass
 
         try:
+            if not self.readOnly:
+                SQLiteIndex._enable_journal(self.sqlConnection)
+
+            tables = get_sqlite_tables(self.sqlConnection)
+            versions = None
+            try:
+                rows = self.sqlConnection.execute('SELECT * FROM versions;')
+                versions = {}
+                for row in rows:
+                    versions[row[0]] = (row[2], row[3], row[4])
+            except sqlite3.OperationalError:
+                pass
+
             # Check indexes created with bugged bz2 decoder (bug existed when I did not store versions yet)
             if 'bzip2blocks' in tables and 'versions' not in tables:
                 raise InvalidIndexError(
@@ -1292,6 +1326,17 @@ class SQLiteIndex:
             if 'filestmp' in tables or 'parentfolders' in tables:
                 raise InvalidIndexError("SQLite index is incomplete")
 
+            columns = [row[0] for row in self.sqlConnection.execute("SELECT name FROM PRAGMA_TABLE_INFO('files');")]
+            if not {'path', 'name', 'offset', 'size', 'mtime', 'mode'}.issubset(columns):
+                raise InvalidIndexError("SQLite index is incomplete")
+
+            # The backend name is always stored since 0.5.0, and it is stored after all files.
+            if 'isgenerated' in columns and (
+                'metadata' not in tables
+                or not self.sqlConnection.execute("SELECT 1 FROM metadata WHERE key == 'backendName';").fetchone()
+            ):
+                raise InvalidIndexError("SQLite index is incomplete")
+
             # Check for pre-sparse support indexes
             if (
                 'versions' not in tables
@@ -1379,7 +1424,7 @@ class SQLiteIndex:
 
             try:
                 if not self.readOnly and '://' not in indexFilePath:
-                    os.remove(indexFilePath)
+                    SQLiteIndex._remove_index(indexFilePath)
             except OSError:
                 logger.warning(
                     "Failed to remove corrupted old cached index file: %s",
@@ -1397,7 +1442,7 @@ class SQLiteIndex:
         loadedIndexFilePath = self._loadedIndexFilePath
         self.close()
         if loadedIndexFilePath and not self.readOnly and '://' not in loadedIndexFilePath:
-            unchecked_remove(loadedIndexFilePath)
+            SQLiteIndex._remove_index(loadedIndexFilePath)
         self._loadedIndexFilePath = None
 
     def clear_compression_offsets(self):
diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index d7e290c..0f782fa 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -117,7 +117,7 @@ class SQLiteIndexMountSource(MountSource):
 
     def _compute_and_store_hashes(self) -> bool:
         """Returns true if there were files with missing hashes."""
-        if not self.hashes:
+        if not self.hashes or self.index.readOnly:
             return False
 
         # We want to find all rows in "files" that are missing any of the self.hashes in "xattrs".
@@ -204,12 +204,14 @@ class SQLiteIndexMountSource(MountSource):
                 ]
                 if len(xattrs) >= 1000:
                     self.index.setxattrs(xattrs)
+                    self.index.get_connection().commit()
                     xattrs.clear()
 
             progressBar.update(totalBytes)
 
         if xattrs:
             self.index.setxattrs(xattrs)
+            self.index.get_connection().commit()
 
         return hasMissingHashes
 
@@ -231,18 +233,14 @@ class SQLiteIndexMountSource(MountSource):
             self.index.reload_index_read_only()
             return
 
-        def create_index_and_post_process(index=self.index):
-            create_index()
-            # Finalize the 'files' table from 'filestmp' and 'parentfolders' so that
-            # the by magnitudes costlier checksumming can be interrupted and resumed.
-            index.finalize()
-            self._compute_and_store_hashes()
-
+        # Checksumming is by magnitudes costlier than everything before it. Therefore, it is done after the index
+        # is complete so that it can be interrupted and resumed.
         self.index.finalize_index(
-            create_index=create_index_and_post_process,
+            create_index=create_index,
             store_metadata=callable_store_metadata,
             isFileObject=isFileObject,
             writeIndex=self.writeIndex,
+            post_process=self._compute_and_store_hashes,
         )
 
     @staticmethod
diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index a8b3d65..c55be50 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -690,6 +690,8 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
         if self.index.index_is_loaded():
             if not self.hasBeenAppendedTo:  # indirectly set by a successful call to _try_load_index
                 self._load_or_store_compression_offsets()  # load
+                if self._compute_and_store_hashes():
+                    self._store_metadata()
                 self.index.reload_index_read_only()
                 return
 
@@ -710,13 +712,15 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 appendedPartAsFile = StenciledFile(
                     fileStencils=[(self.tarFileObject, pastEndOffset, archiveSize - pastEndOffset)]
                 )
+                def replace_metadata():
+                    self.index.drop_metadata()
+                    self._store_metadata()
+
                 self.index.create_index_timed(
-                    create_index=lambda: self._create_index(appendedPartAsFile, streamOffset=pastEndOffset)
+                    create_index=lambda: self._create_index(appendedPartAsFile, streamOffset=pastEndOffset),
+                    store_metadata=replace_metadata,
                 )
                 self._compute_and_store_hashes()
-
-                self.index.drop_metadata()
-                self._store_metadata()
                 self.index.reload_index_read_only()
                 return
 
-- 
2.43.0


From 6c7a92846e11ec69b66bc9ca368d5fd0bde36b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 50/66] fix: Do not remove files that are not indexes

Files mistakenly given as index file, e.g., the archive itself, were removed when they could not be loaded or
with --recreate-index.
---
 core/ratarmountcore/SQLiteIndex.py | 47 ++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 464ed78..d097f75 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -363,13 +363,51 @@ class SQLiteIndex:
     def clear_indexes(self):
         for indexPath in self.possibleIndexFilePaths:
             if indexPath and os.path.isfile(indexPath):
-                SQLiteIndex._remove_index(indexPath)
+                if SQLiteIndex._may_be_removed(indexPath):
+                    SQLiteIndex._remove_index(indexPath)
+                else:
+                    logger.warning("Will not remove the file %s because it is not an index.", indexPath)
 
     @staticmethod
     def _remove_index(path: str) -> None:
         unchecked_remove(path)
         unchecked_remove(path + '-journal')
 
+    @staticmethod
+    def _may_be_removed(path: str) -> bool:
+        """
+        Returns true if the given existing file is an index, possibly an incomplete or compressed one,
+        and not, e.g., an archive or database that was mistakenly specified as index file.
+        """
+        SQLITE_MAGIC = SQLiteIndex.MAGIC_BYTES
+        with open(path, 'rb') as file:
+            start = file.read(1024 * 1024)
+            if not start.strip(b'\0') and not file.read(1):
+                return True  # Left over by ensure_writable_path
+            file.seek(0)
+            compression = detect_compression(file)
+            backend = find_available_backend(compression) if compression else None
+            if backend:
+                try:
+                    with backend.open(file) as decompressed:
+                        return decompressed.read(len(SQLITE_MAGIC)) == SQLITE_MAGIC
+                except Exception:
+                    return False
+
+        if not start.startswith(SQLITE_MAGIC[: len(start)]):
+            return False
+
+        try:
+            connection = sqlite3.connect(f"file:{urllib.parse.quote(path)}?mode=ro", uri=True)
+            try:
+                tables = set(get_sqlite_tables(connection))
+            finally:
+                connection.close()
+        except sqlite3.Error:
+            return True  # A database that has not been written fully
+
+        return not tables or bool(tables & {"files", "filestmp", "parentfolders", "xattrs", "test"}) and "sqlar" not in tables
+
     def open_existing(self, checkMetadata: Optional[Callable[[dict[str, Any]], None]] = None):
         """Tries to find an already existing index."""
         for indexPath in self.possibleIndexFilePaths:
@@ -1423,8 +1461,11 @@ class SQLiteIndex:
             logger.warning("e.g., by opening an issue on the public github page.")
 
             try:
-                if not self.readOnly and '://' not in indexFilePath:
-                    SQLiteIndex._remove_index(indexFilePath)
+                if not self.readOnly and '://' not in indexFilePath and os.path.isfile(indexFilePath):
+                    if SQLiteIndex._may_be_removed(indexFilePath):
+                        SQLiteIndex._remove_index(indexFilePath)
+                    else:
+                        logger.warning("Will not remove the file %s because it is not an index.", indexFilePath)
             except OSError:
                 logger.warning(
                     "Failed to remove corrupted old cached index file: %s",
-- 
2.43.0


From 775557161d8852df119ca2150ce88ad36a1b9bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:44 +0000
Subject: [PATCH 51/66] fix: Keep the index in memory usable when there is no
 writable location for it

---
 core/ratarmountcore/SQLiteIndex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index d097f75..2b189fe 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -738,7 +738,8 @@ class SQLiteIndex:
         self.open_writable()
         if oldIndexFilePath == self.indexFilePath:
             logger.info("Tried to write the database to disk but found no other path than: %s", self.indexFilePath)
-            self.sqlConnection.close()
+            if self.sqlConnection is not oldSqlConnection:
+                self.sqlConnection.close()
             self.indexFilePath, self.sqlConnection = oldIndexFilePath, oldSqlConnection
             return
 
-- 
2.43.0


From 63edea0856496db635ee01fbd293e972fa9d0f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:44 +0000
Subject: [PATCH 52/66] fix: Do not write indexes with writeIndex=False

---
 core/ratarmountcore/SQLiteIndex.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 2b189fe..e79af36 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -269,6 +269,8 @@ class SQLiteIndex:
         self.indexMinimumFileCount = indexMinimumFileCount
         self.backendName = backendName
         self._insertedRowCount = 0
+        # Is true if the index must not be written out even when there are locations for it.
+        self._keepInMemory = False
         self._temporaryIndexFile: Optional[Any] = None
         # In contrast to indexFilePath, this is the found path for compressed indexes, not that of the temporary copy.
         self._loadedIndexFilePath: Optional[str] = None
@@ -730,7 +732,12 @@ class SQLiteIndex:
     def _reload_index_on_disk(self):
         logger.info("Try to reopen SQLite database on disk at: %s", self.indexFilePath)
         logger.info("other index paths: %s", self.possibleIndexFilePaths)
-        if not self.indexFilePath or self.indexFilePath != ':memory:' or not self.sqlConnection:
+        if (
+            not self.indexFilePath
+            or self.indexFilePath != ':memory:'
+            or not self.sqlConnection
+            or self._keepInMemory
+        ):
             return
 
         oldIndexFilePath, oldSqlConnection = self.indexFilePath, self.sqlConnection
@@ -837,6 +844,7 @@ class SQLiteIndex:
             self.open_writable()
         else:
             self.indexFilePath, self.sqlConnection = SQLiteIndex._create_sql_db(':memory:')
+            self._keepInMemory = True
 
         self.create_index_timed(create_index, store_metadata if callable(store_metadata) else None)
 
-- 
2.43.0


From c47964bdfa71d5eb0981d3a2390f3df7b873f2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 53/66] fix: Do not create files next to SQLAR archives in
 write-ahead logging mode

---
 core/ratarmountcore/mountsource/formats/sqlar.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 4aa34da..cea296f 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -1,3 +1,4 @@
+import os
 import posixpath
 import shutil
 import sqlite3
@@ -170,6 +171,11 @@ class SQLARMountSource(MountSource):
             self.indexFilePath = self._temporaryFile.name
 
         uriPath = f"file:{urllib.parse.quote(self.indexFilePath)}?mode=ro"
+        # For databases in write-ahead logging mode, even read-only connections create further files next to them.
+        with open(self.indexFilePath, 'rb') as file:
+            usesWAL = file.read(20)[18:] == b'\x02\x02'
+        if usesWAL and not os.path.exists(self.indexFilePath + '-wal'):
+            uriPath += '&immutable=1'
         connection: Optional[Any] = None
         try:
             # check_same_thread=False can be used because it is read-only and allows to enable FUSE multithreading.
-- 
2.43.0


From 54fba1df67cddc0162224be56df326c3597125a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 54/66] fix: Do not leave files behind when the index path is a
 dangling symbolic link

---
 core/ratarmountcore/SQLiteIndex.py | 2 +-
 core/ratarmountcore/utils.py       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index e79af36..eb93956 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -656,7 +656,7 @@ class SQLiteIndex:
         except sqlite3.OperationalError:
             logger.debug("Could not create SQLite database at: %s", path, exc_info=True)
         finally:
-            unchecked_remove(path)
+            unchecked_remove(os.path.realpath(path))
 
         return False
 
diff --git a/core/ratarmountcore/utils.py b/core/ratarmountcore/utils.py
index 79159c2..8c741dd 100644
--- a/core/ratarmountcore/utils.py
+++ b/core/ratarmountcore/utils.py
@@ -433,7 +433,8 @@ def ensure_writable_path(path: str) -> bool:
         return False
 
     try:
-        file = Path(path)
+        # Resolve links or else only the link but not the created file would be removed.
+        file = Path(os.path.realpath(path))
         if file.exists() and file.stat().st_size > 0:
             logger.debug(
                 "Path already exists. Will not overwrite it: %s", path, exc_info=logger.isEnabledFor(logging.DEBUG)
-- 
2.43.0


From 8c6b9493a10b52ec2979dfb0d788e83543d6206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 55/66] fix: Do not show the extended attributes of files for
 their implied parent folders

---
 core/ratarmountcore/SQLiteIndex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index eb93956..7becc2f 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -773,7 +773,7 @@ class SQLiteIndex:
                 /* path name offsetheader offset size mtime mode type */
                 SELECT path,name,offsetheader,offset,0,0,{int(0o555 | stat.S_IFDIR)},{int(tarfile.DIRTYPE)},
                        /* linkname uid gid istar issparse isgenerated recursiondepth */
-                       '',0,0,0,0,0,0
+                       '',0,0,0,0,1,0
                 FROM "parentfolders"
                 WHERE {searchByTuple if _get_libsqlite_version() >= (3, 22, 0) else searchByConcat}
                     FROM "files" WHERE mode & (1 << 14) != 0
-- 
2.43.0


From c8b3a9b8b0d96a8a0685164419ec0a165f1cdf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 56/66] fix: Do not share attributes such as hashes between all
 files of ASAR archives

---
 core/ratarmountcore/mountsource/formats/asar.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/asar.py b/core/ratarmountcore/mountsource/formats/asar.py
index 04fe9a2..e9a902b 100644
--- a/core/ratarmountcore/mountsource/formats/asar.py
+++ b/core/ratarmountcore/mountsource/formats/asar.py
@@ -94,7 +94,7 @@ class ASARMountSource(SQLiteIndexMountSource):
 
         self._finalize_index(self._create_index)
 
-    def _convert_to_row(self, fullPath, entry: dict[str, Any], dataOffset: int) -> tuple:
+    def _convert_to_row(self, fullPath, entry: dict[str, Any], dataOffset: int, entryIndex: int) -> tuple:
         path, name = SQLiteIndex.normpath(self.transform(fullPath)).rsplit("/", 1)
 
         isFile = 'offset' in entry and 'size' in entry
@@ -109,7 +109,8 @@ class ASARMountSource(SQLiteIndexMountSource):
         fileInfo : tuple = (
             path              ,  # 0  : path
             name              ,  # 1  : file name
-            0                 ,  # 2  : header offset
+            # Entries do not have their own header, but attributes such as hashes are stored by header offset.
+            entryIndex        ,  # 2  : header offset
             offset            ,  # 3  : data offset
             size              ,  # 4  : file size
             0                 ,  # 5  : modification time
@@ -135,12 +136,17 @@ class ASARMountSource(SQLiteIndexMountSource):
 
         # This code is complex to avoid recursion.
         toProcess = [("/", header)]
-        fileInfos = [self._convert_to_row("/", header, self._dataOffset)]
+        fileInfos = [self._convert_to_row("/", header, self._dataOffset, 0)]
+        entryCount = 1
         while toProcess:
             prefix, entry = toProcess.pop()
             children = [(prefix + "/" + path, nestedEntry) for path, nestedEntry in entry['files'].items()]
             # toProcess must only contain folder entries, which have a 'files' key mapping to a dictionary.
-            fileInfos += [self._convert_to_row(path, nestedEntry, self._dataOffset) for path, nestedEntry in children]
+            fileInfos += [
+                self._convert_to_row(path, nestedEntry, self._dataOffset, entryIndex)
+                for entryIndex, (path, nestedEntry) in enumerate(children, start=entryCount)
+            ]
+            entryCount += len(children)
             # Appending leads to depth-first traversal, while prepending leads to breadth-first traversal.
             # Depth-first should be slightly less memory intensive. Note that the dictionary should only store
             # a pointer to the shared mutable Python object, but the path strings will use up memory.
-- 
2.43.0


From a0720e69b7f967390d30ae27100a3495c0fc5f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 57/66] fix: Compute hashes also for compressed files that are
 not archives

---
 core/ratarmountcore/SQLiteIndex.py                        | 4 ++--
 core/ratarmountcore/mountsource/SQLiteIndexMountSource.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 7becc2f..e92acd2 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -1069,7 +1069,7 @@ class SQLiteIndex:
             return [
                 row[0]
                 for row in self.get_connection().execute(
-                    "SELECT key FROM xattrs WHERE offsetheader=(?);", (userData.offsetheader,)
+                    "SELECT key FROM xattrs WHERE offsetheader=(?);", (userData.offsetheader or 0,)
                 )
             ]
         except sqlite3.OperationalError:
@@ -1088,7 +1088,7 @@ class SQLiteIndex:
         try:
             row = (
                 self.get_connection()
-                .execute("SELECT value FROM xattrs WHERE (offsetheader,key)=(?,?);", (userData.offsetheader, key))
+                .execute("SELECT value FROM xattrs WHERE (offsetheader,key)=(?,?);", (userData.offsetheader or 0, key))
                 .fetchone()
             )
             return row[0] if row else None
diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index 0f782fa..dd5a105 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -146,10 +146,9 @@ class SQLiteIndexMountSource(MountSource):
             SELECT files.*
             FROM "files"
             LEFT JOIN xattrs
-                   ON xattrs.offsetheader = files.offsetheader
+                   ON xattrs.offsetheader = COALESCE(files.offsetheader, 0)
                   AND xattrs.key IN ({",".join("?" for _ in required_xattrs)})
             WHERE (mode & 0xF000) == 0x8000
-              AND files.offsetheader IS NOT NULL
               AND NOT isgenerated
             GROUP BY files.path, files.name, files.offsetheader
             HAVING COUNT(DISTINCT xattrs.key) < ?
@@ -198,8 +197,9 @@ class SQLiteIndexMountSource(MountSource):
                 finally:
                     hashedBytes += fileInfo.size
 
+                # The header offset is None for compressed files that are not archives.
                 xattrs += [
-                    (userData.offsetheader, f"user.hash.{name}", value.encode('utf-8'))
+                    (userData.offsetheader or 0, f"user.hash.{name}", value.encode('utf-8'))
                     for name, value in computed.items()
                 ]
                 if len(xattrs) >= 1000:
-- 
2.43.0


From 6887573c1b20c34ce6a696bb088917156b4fcfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 58/66] fix: Also clean up after interrupted changes to indexes
 so that they can be reopened

---
 core/ratarmountcore/SQLiteIndex.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index e92acd2..e7845f8 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -661,7 +661,7 @@ class SQLiteIndex:
         return False
 
     @staticmethod
-    def _open_sql_db(path: AnyStr, **kwargs) -> sqlite3.Connection:
+    def _open_sql_db(path: AnyStr, journalMode: str = 'OFF', **kwargs) -> sqlite3.Connection:
         # Even when given a relative path, sqlite3.connect seems to access the path absolute instead of from the
         # current working directory! This will lead to hangs for self-bind mounts because of a recursive FUSE call.
         # I don't know how to circumvent this here. The caller must ensure that the possible index file paths
@@ -673,10 +673,10 @@ class SQLiteIndex:
                 # Locking mode exclusive leads to a measurable speedup. E.g., find on 2k recursive files tar
                 # improves from ~1s to ~0.4s!
                 # https://blog.devart.com/increasing-sqlite-performance.html
-                """
+                f"""
                 PRAGMA LOCKING_MODE = EXCLUSIVE;
                 PRAGMA TEMP_STORE = MEMORY;
-                PRAGMA JOURNAL_MODE = OFF;
+                PRAGMA JOURNAL_MODE = {journalMode};
                 PRAGMA SYNCHRONOUS = OFF;
                 """
             )
@@ -1341,12 +1341,10 @@ class SQLiteIndex:
             # check_same_thread=False can be used because it is read-only and it allows to enable FUSE multithreading
             self.sqlConnection = SQLiteIndex._open_sql_db(f"file:{uriPath}?mode=ro", uri=True, check_same_thread=False)
         else:
-            self.sqlConnection = SQLiteIndex._open_sql_db(temporaryIndexFilePath)
+            # A journal left behind by an interrupted process is only cleaned up when there always has been a journal.
+            self.sqlConnection = SQLiteIndex._open_sql_db(temporaryIndexFilePath, journalMode='DELETE')
 
         try:
-            if not self.readOnly:
-                SQLiteIndex._enable_journal(self.sqlConnection)
-
             tables = get_sqlite_tables(self.sqlConnection)
             versions = None
             try:
-- 
2.43.0


From c0045d829425a11ed67549eb1db363be0ad2a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 59/66] fix: Resolve hard links inside of TARs that are
 contained in TARs

---
 core/ratarmountcore/mountsource/formats/tar.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index c55be50..e6bc3a4 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -236,6 +236,11 @@ class _TarFileMetadataReader:
             fullPath += "/"
         path, name = SQLiteIndex.normpath(transform(fullPath)).rsplit("/", 1)
 
+        # Hard links inside nested archives are relative to the root of the nested archive.
+        linkname = tarInfo.linkname
+        if tarInfo.islnk() and pathPrefix:
+            linkname = pathPrefix.lstrip('/') + '/' + linkname
+
         # TODO: As for the tarfile type SQLite expects int but it is generally bytes.
         #       Most of them would be convertible to int like tarfile.SYMTYPE which is b'2',
         #       but others should throw errors, like GNUTYPE_SPARSE which is b'S'.
@@ -250,7 +255,7 @@ class _TarFileMetadataReader:
             tarInfo.mtime                                   ,  # 5  : modification time
             _TarFileMetadataReader._tar_info_full_mode(tarInfo),  # 6  : file mode / permissions
             tarInfo.type                                    ,  # 7  : TAR file type. Currently unused.
-            tarInfo.linkname                                ,  # 8  : linkname
+            linkname                                        ,  # 8  : linkname
             tarInfo.uid                                     ,  # 9  : user ID
             tarInfo.gid                                     ,  # 10 : group ID
             False                                           ,  # 11 : is TAR (unused?)
-- 
2.43.0


From ce07f7004b9ebefaada8be34e82f8154104c4de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 60/66] fix: Do not show files with TAR extension inside of
 TARs as empty folders if they are no TARs

---
 core/ratarmountcore/mountsource/formats/tar.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index e6bc3a4..d021726 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -370,10 +370,10 @@ class _TarFileMetadataReader:
             if type_flag != b'0':
                 skip_next_blocks += 1
 
-    def _open_tar(self, fileObject: IO[bytes]):
+    def _open_tar(self, fileObject: IO[bytes], isNested: bool):
         """
         Opens the fileObject with the appropriate settings using the tarfile module.
-        Instead of throwing, an empty iterable might be returned.
+        Instead of throwing, an empty iterable might be returned except for nested archives.
         """
 
         if not self._parent.isTar:
@@ -391,7 +391,9 @@ class _TarFileMetadataReader:
             )
             # fmt: on
         except tarfile.ReadError:
-            pass
+            # Contained files that only have the extension of a TAR must stay files.
+            if isNested:
+                raise
 
         return []
 
@@ -404,7 +406,7 @@ class _TarFileMetadataReader:
         if self._recursionDepth > self._parent.maxRecursionDepth:
             return []
 
-        loadedTarFile: Any = self._open_tar(fileObject)
+        loadedTarFile: Any = self._open_tar(fileObject, isNested=bool(pathPrefix))
 
         # Iterate over files inside TAR and add them to the database
         fileInfos: list[tuple] = []
@@ -498,6 +500,8 @@ class _TarFileMetadataReader:
                     "The TAR file is incomplete. Ratarmount will work but some files might be cut off. "
                     "If the TAR file size changes, ratarmount will recreate the index during the next mounting.",
                     exc_info=logger.isEnabledFor(logging.DEBUG))
+            elif pathPrefix:
+                raise
 
         return []
 
-- 
2.43.0


From 0b52c77244d23eaaae0ddd28af619760b972dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 61/66] fix: Do not interpret the packed data of sparse TARs
 inside of TARs as TAR

---
 core/ratarmountcore/mountsource/formats/tar.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index d021726..99480ce 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -267,7 +267,13 @@ class _TarFileMetadataReader:
 
         fileInfos = [fileInfo]
 
-        if mountRecursively and tarInfo.isfile() and tarInfo.name.lower().endswith('.tar'):
+        # The contents of sparse files are not stored contiguously.
+        if (
+            mountRecursively
+            and tarInfo.isfile()
+            and not tarInfo.issparse()
+            and tarInfo.name.lower().endswith('.tar')
+        ):
             return fileInfos, xattrRows, True, isGnuIncremental
 
         # Add GNU incremental TAR directory metadata files also as directories
-- 
2.43.0


From 68f4be5babb9bfb98b94f54317b595cd68972e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 62/66] fix: Do not mix the contents of multiple versions of a
 TAR inside of TARs

---
 core/ratarmountcore/mountsource/formats/tar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 99480ce..398cb27 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -882,7 +882,8 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
         # 4. Open contained TARs for recursive mounting
         oldPos = fileObject.tell()
         oldPrintName = self.tarFileName
-        for fileInfo in filesToMountRecursively:
+        # Only show the contents of the newest version when there are multiple versions of a nested TAR.
+        for fileInfo in {(fileInfo[0], fileInfo[1]): fileInfo for fileInfo in filesToMountRecursively}.values():
             modifiedFolder = fileInfo[0]
             modifiedName = fileInfo[1]
 
-- 
2.43.0


From d37e29e70441a2f648818f42e0d16cf190023754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 63/66] fix: Versions of archives mounted inside of other
 mounted archives

---
 .../mountsource/compositing/automount.py      | 48 ++++++++++---------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 6cf318e..ba104c0 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -265,6 +265,12 @@ class AutoMountLayer(MountSource):
 
         return self._simply_find_mounted(path)
 
+    def _find_parent_mounted(self, mountPoint: str) -> tuple[str, str]:
+        """Returns the mount point, which contains the given one, and the path of the latter inside of it."""
+        parentFolder, name = os.path.split(mountPoint)
+        parentMountPoint, pathInParent = self._simply_find_mounted(parentFolder)
+        return parentMountPoint, '/' + f'{pathInParent}/{name}'.lstrip('/')
+
     @overrides(MountSource)
     def is_immutable(self) -> bool:
         return self.mounted['/'].mountSource.is_immutable()
@@ -283,30 +289,27 @@ class AutoMountLayer(MountSource):
         mountPoint, pathInMountPoint = self._find_mounted(path)
         mountInfo = self.mounted[mountPoint]
 
-        originalFileVersions = 0
-        if mountPoint != '/' and pathInMountPoint == '/':
-            originalFileVersions = self.mounted['/'].mountSource.versions(path)
-
-        def normalize_file_version(version, versions):
-            return ((version - 1) % versions + 1) % versions if versions > 1 else version
+        if mountPoint == '/' or pathInMountPoint != '/':
+            fileInfo = mountInfo.mountSource.lookup(pathInMountPoint, fileVersion)
+            if fileInfo:
+                fileInfo.userdata.append(mountPoint)
+            return fileInfo
 
+        # The mount point is the newest version. The versions of the mounted file itself come before it.
         # fileVersion=0 is the most recent. Version 1..fileVersions number from the first occurrence / oldest
         # version to the most recent, i.e., fileVersion = 0 is equivalent to fileVersion = fileVersions.
-        fileVersions = self.versions(path)
-        fileVersion = normalize_file_version(fileVersion, fileVersions)
-        if fileVersion == 0 and pathInMountPoint == '/':
+        parentMountPoint, pathInParent = self._find_parent_mounted(mountPoint)
+        parentMountSource = self.mounted[parentMountPoint].mountSource
+        originalFileVersions = parentMountSource.versions(pathInParent)
+        if fileVersion in (0, originalFileVersions + 1):
             return mountInfo.rootFileInfo.clone()
 
-        if fileVersions <= 1 or pathInMountPoint != '/' or fileVersion == 0 or fileVersion > originalFileVersions:
-            fileInfo = mountInfo.mountSource.lookup(pathInMountPoint, fileVersion - originalFileVersions)
-            if fileInfo:
-                fileInfo.userdata.append(mountPoint)
-            return fileInfo
-
-        # We are here if: fileVersions > 1 and 0 < fileVersion <= originalFileVersions and pathInMountPoint == '/'
-        fileInfo = self.mounted['/'].mountSource.lookup(path, fileVersion % originalFileVersions)
+        if fileVersion < 0:
+            # Version 0 would be the mount point, therefore -1 is the newest version of the mounted file.
+            fileVersion += 1
+        fileInfo = parentMountSource.lookup(pathInParent, fileVersion) if originalFileVersions else None
         if fileInfo:
-            fileInfo.userdata.append('/')
+            fileInfo.userdata.append(parentMountPoint)
         return fileInfo
 
     def _append_mount_points(self, path: str, files, onlyMode: bool):
@@ -361,10 +364,11 @@ class AutoMountLayer(MountSource):
     @overrides(MountSource)
     def versions(self, path: str) -> int:
         mountPoint, pathInMountPoint = self._find_mounted(path)
-        fileVersions = self.mounted[mountPoint].mountSource.versions(pathInMountPoint)
-        if mountPoint != '/' and pathInMountPoint == '/':
-            fileVersions += self.mounted['/'].mountSource.versions(path)
-        return fileVersions
+        if mountPoint == '/' or pathInMountPoint != '/':
+            return self.mounted[mountPoint].mountSource.versions(pathInMountPoint)
+
+        parentMountPoint, pathInParent = self._find_parent_mounted(mountPoint)
+        return self.mounted[parentMountPoint].mountSource.versions(pathInParent) + 1
 
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
-- 
2.43.0


From d915a37841b02c14d66e44c83f5e989ab5a950c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 64/66] fix: Do not show hard links to recursively mounted
 archives as folders

---
 core/ratarmountcore/mountsource/compositing/versioning.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index ae1862a..c0af36c 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -144,6 +144,11 @@ class FileVersionLayer(MountSource):
 
             path = resolvedPath
             fileInfo = mountSource.lookup(path, fileVersion)
+            if fileInfo and fileVersion == 0 and stat.S_ISDIR(fileInfo.mode):
+                # There are no hard links to folders. It must be an archive that has been mounted over the linked file.
+                linkedFileInfo = mountSource.lookup(path, -1)
+                if linkedFileInfo and stat.S_ISREG(linkedFileInfo.mode):
+                    fileInfo = linkedFileInfo
             if not fileInfo:
                 return None
 
-- 
2.43.0


From 0afa84a39d5744beddc921fa1cd1a811e39a6785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 65/66] fix: Respect the recursive extensions option also for
 TARs inside of TARs

---
 core/ratarmountcore/mountsource/formats/tar.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 398cb27..59b1e69 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -21,7 +21,13 @@ with contextlib.suppress(ImportError):
     import rapidgzip
 
 from ratarmountcore.BlockParallelReaders import ParallelXZReader
-from ratarmountcore.compressions import COMPRESSION_BACKENDS, get_gzip_info, open_compressed_file
+from ratarmountcore.compressions import (
+    COMPRESSION_BACKENDS,
+    compile_suffix_rules,
+    get_gzip_info,
+    open_compressed_file,
+    strip_suffix,
+)
 from ratarmountcore.formats import FileFormatID, might_be_format
 from ratarmountcore.mountsource import FileInfo, MountSource
 from ratarmountcore.mountsource.SQLiteIndexMountSource import SQLiteIndexMountSource
@@ -657,6 +663,12 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
             if not recursive and recursionDepth is None:
                 self.maxRecursionDepth = 1
 
+        # TARs inside of this TAR are mounted based solely on their extension just as for all other archives.
+        if 'recursiveExtensions' in kwargs:
+            rules = compile_suffix_rules(kwargs['recursiveExtensions'])
+            if strip_suffix('archive.tar', rules) == 'archive.tar':
+                self.maxRecursionDepth = min(self.maxRecursionDepth, self._recursionDepth + 1)
+
         # Can only be set correctly after the compression has been detected because it determines the default
         # recursion depth. This is legacy, i.e., only to add the correct value to 'metadata' to be backward compatible.
         self.mountRecursively = self.maxRecursionDepth > 0
-- 
2.43.0


From 354c1431b7c8e914a3127e11d57471ba3241bfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 66/66] fix: Do not lazily mount folders that have the
 extension of an archive

---
 core/ratarmountcore/mountsource/compositing/automount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index ba104c0..be1951b 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -158,7 +158,7 @@ class AutoMountLayer(MountSource):
         parentMountSource = parentMountInfo.mountSource
 
         archiveFileInfo = parentMountSource.lookup(pathInsideParentMountPoint)
-        if archiveFileInfo is None:
+        if archiveFileInfo is None or stat.S_ISDIR(archiveFileInfo.mode):
             return None
 
         # Do not mount uncompressed TARs inside SQLiteIndexedTar when they already were mounted recursively!
-- 
2.43.0

