From efc4aed0217bc126594c9c294c1bed2c2f7ef509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:38 +0000
Subject: [PATCH 01/56] fix: roll back failed image edits completely

begin_transaction kept views of the data being modified, so a rollback
restored nothing, and only AtrError triggered it.
---
 atrcopy/diskimages.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index b40d00e..fa5e9cf 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -159,6 +159,7 @@ class DiskImageBase(Bootable):
         self.get_metadata()
 
     def get_metadata(self):
+        self.all_sane = True
         self.get_boot_sector_info()
         self.get_vtoc()
         self.get_directory()
@@ -322,12 +323,14 @@ class DiskImageBase(Bootable):
     # file writing methods
 
     def begin_transaction(self):
-        state = self.bytes[:], self.style[:]
+        # must be copies: slices of numpy arrays are only views of the data that
+        # is about to be modified
+        state = np.array(self.bytes[:]), np.array(self.style[:])
         return state
 
     def rollback_transaction(self, state):
         self.bytes[:], self.style[:] = state
-        return
+        self.get_metadata()
 
     def get_vtoc_object(self):
         vtoc_segments = self.get_vtoc_segments()
@@ -353,11 +356,12 @@ class DiskImageBase(Bootable):
             self.write_sector_list(sector_list)
             self.write_sector_list(vtoc)
             self.write_sector_list(directory)
-        except errors.AtrError:
+            self.get_metadata()
+        except BaseException:
+            # not only AtrError: the image must also survive e.g. MemoryError or
+            # KeyboardInterrupt
             self.rollback_transaction(state)
             raise
-        finally:
-            self.get_metadata()
 
     def build_sectors(self, data):
         data = to_numpy(data)
@@ -387,11 +391,12 @@ class DiskImageBase(Bootable):
             directory.remove_dirent(self, dirent, vtoc, sector_list)
             self.write_sector_list(vtoc)
             self.write_sector_list(directory)
-        except errors.AtrError:
+            self.get_metadata()
+        except BaseException:
+            # not only AtrError: the image must also survive e.g. MemoryError or
+            # KeyboardInterrupt
             self.rollback_transaction(state)
             raise
-        finally:
-            self.get_metadata()
 
     def shred(self, fill_value=0):
         state = self.begin_transaction()
@@ -400,8 +405,9 @@ class DiskImageBase(Bootable):
             for sector_num, pos, size in vtoc.iter_free_sectors():
                 if _xd: log.debug("shredding: sector %s at %d, fill value=%d" % (sector_num, pos, fill_value))
                 self.bytes[pos:pos + size] = fill_value
-        except errors.AtrError:
+            self.get_metadata()
+        except BaseException:
+            # not only AtrError: the image must also survive e.g. MemoryError or
+            # KeyboardInterrupt
             self.rollback_transaction(state)
             raise
-        finally:
-            self.get_metadata()
-- 
2.43.0


From 8403bb01245abdb8a1406bcf25074dca5bd412be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:01 +0000
Subject: [PATCH 02/56] fix: limit Atari DOS directories to 64 entries

Adding a 65th file wrote directory entries over the data sectors that
follow the directory.
---
 atrcopy/ataridos.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 5b17b8a..b40121d 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -48,6 +48,9 @@ class AtariDosVTOC(VTOC):
 
 
 class AtariDosDirectory(Directory):
+    def __init__(self, header, num_dirents=64, sector_class=WriteableSector):
+        Directory.__init__(self, header, num_dirents, sector_class)
+
     @property
     def dirent_class(self):
         return AtariDosDirent
-- 
2.43.0


From 7023e8b448e9166ea6cc98f11560529a1c8a0995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:08 +0000
Subject: [PATCH 03/56] fix: keep the Atari DOS VTOC free sector count up to
 date

---
 atrcopy/ataridos.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index b40121d..85af19e 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -42,6 +42,9 @@ class AtariDosVTOC(VTOC):
         if _xd: log.debug("vtoc after:\n%s" % str(self))
         packed = np.packbits(self.sector_map[0:720])
         self.vtoc1[0x0a:0x64] = packed
+        hi, lo = divmod(int(np.sum(self.sector_map[0:720])), 256)
+        self.vtoc1[3] = lo
+        self.vtoc1[4] = hi
         s = WriteableSector(self.sector_size, self.vtoc1)
         s.sector_num = 360
         self.sectors.append(s)
-- 
2.43.0


From 269ee411c92c880cad235ba0d0ed63dd6e64baa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:37 +0000
Subject: [PATCH 04/56] fix: keep file names in Atari DOS directories as they
 are

Every add or delete rewrote the names of all entries padded with NULs, which
Atari DOS does not match, and dropped the 0x08 flag bit.
---
 atrcopy/ataridos.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 85af19e..414d54c 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -97,6 +97,7 @@ class AtariDosDirent(Dirent):
         self.starting_sector = 0
         self.basename = b''
         self.ext = b''
+        self.raw_name = None  # name and extension as found on disk
         self.is_sane = True
         self.current_sector = 0
         self.current_read = 0
@@ -154,6 +155,7 @@ class AtariDosDirent(Dirent):
         self.deleted = (flag&0x80) > 0
         self.num_sectors = int(values[1])
         self.starting_sector = int(values[2])
+        self.raw_name = np.array(data[5:16])
         self.basename = bytes(values[3]).rstrip()
         self.ext = bytes(values[4]).rstrip()
         self.is_sane = self.sanity_check(image)
@@ -161,12 +163,17 @@ class AtariDosDirent(Dirent):
     def encode_dirent(self):
         data = np.zeros([self.format.itemsize], dtype=np.uint8)
         values = data.view(dtype=self.format)[0]
-        flag = (1 * int(self.opened_output)) | (2 * int(self.dos_2)) | (4 * int(self.mydos)) | (0x10 * int(self.is_dir)) | (0x20 * int(self.locked)) | (0x40 * int(self.in_use)) | (0x80 * int(self.deleted))
+        # flag bits not represented by attributes are kept as they were
+        flag = (int(self.flag) & 0x08) | (1 * int(self.opened_output)) | (2 * int(self.dos_2)) | (4 * int(self.mydos)) | (0x10 * int(self.is_dir)) | (0x20 * int(self.locked)) | (0x40 * int(self.in_use)) | (0x80 * int(self.deleted))
         values[0] = flag
         values[1] = self.num_sectors
         values[2] = self.starting_sector
-        values[3] = self.basename
-        values[4] = self.ext
+        if self.raw_name is None:
+            # names are padded with spaces
+            values[3] = b'%-8s' % self.basename
+            values[4] = b'%-3s' % self.ext
+        else:
+            data[5:16] = self.raw_name
         return data
 
     def mark_deleted(self):
@@ -235,6 +242,7 @@ class AtariDosDirent(Dirent):
             ext = b'   '
         self.basename = b'%-8s' % filename[0:8]
         self.ext = ext
+        self.raw_name = None
         self.file_num = index
         self.dos_2 = True
         self.in_use = True
-- 
2.43.0


From a4c091380a68e36e464ef4035a0c9b69918f4509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:07 +0000
Subject: [PATCH 05/56] fix: use 8 directory entries per sector on double
 density disks

Atari DOS only uses the first 128 bytes of a directory sector. Files beyond
the eighth of a double density disk were not found and an add overwrote
entries; files added here were not visible to Atari DOS.
---
 atrcopy/ataridos.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 414d54c..1b0205a 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -58,6 +58,10 @@ class AtariDosDirectory(Directory):
     def dirent_class(self):
         return AtariDosDirent
 
+    def get_dirent_sector(self):
+        # 8 entries per sector, even if the sectors are larger than 128 bytes
+        return self.sector_class(128)
+
     def encode_empty(self):
         return np.zeros([16], dtype=np.uint8)
 
@@ -70,6 +74,9 @@ class AtariDosDirectory(Directory):
         num = 361
         for sector in self.sectors:
             sector.sector_num = num
+            # the part of the sector not used for entries remains as it is
+            raw, _, _ = image.get_raw_bytes(num)
+            sector.data = np.append(sector.data, raw[128:])
             num += 1
 
 
@@ -564,7 +571,8 @@ class AtariDosDiskImage(DiskImageBase):
             self.unused_sectors += extra_free
 
     def get_directory(self, directory=None):
-        dir_bytes, style = self.get_sectors(361, 368)
+        # 8 entries per sector, even if the sectors are larger than 128 bytes
+        dir_bytes = np.concatenate([self.get_sectors(s)[0][0:128] for s in range(361, 369)])
         i = 0
         num = 0
         files = []
-- 
2.43.0


From f70f6dcdfb47e35a861d9a5ec81df01e23ed272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:44 +0000
Subject: [PATCH 06/56] fix: support the second VTOC of enhanced density disks

DOS 2.5 files using sectors above 719 (flag 0x03) were treated as unused
directory slots and got overwritten, their sectors leaked when deleted, and
the sectors above 719 counted as free were never used.
---
 atrcopy/ataridos.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 1b0205a..bfba83a 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -36,6 +36,11 @@ class AtariDosVTOC(VTOC):
         self.vtoc1 = segments[0].data
         bits = np.unpackbits(self.vtoc1[0x0a:0x64])
         self.sector_map[0:720] = bits
+        self.vtoc2 = None
+        if len(segments) > 1:
+            # enhanced density: the bits for 720-1023, where 720 is not used
+            self.vtoc2 = segments[1].data
+            self.sector_map[721:1024] = np.unpackbits(self.vtoc2[0x54:0x7a])[1:]
         if _xd: log.debug("vtoc before:\n%s" % str(self))
 
     def calc_bitmap(self):
@@ -48,6 +53,17 @@ class AtariDosVTOC(VTOC):
         s = WriteableSector(self.sector_size, self.vtoc1)
         s.sector_num = 360
         self.sectors.append(s)
+        if self.vtoc2 is not None:
+            self.vtoc2[0x00:0x54] = packed[6:]
+            bits = np.unpackbits(self.vtoc2[0x54:0x7a])
+            bits[1:] = self.sector_map[721:1024]
+            self.vtoc2[0x54:0x7a] = np.packbits(bits)
+            hi, lo = divmod(int(np.sum(bits[1:])), 256)
+            self.vtoc2[0x7a] = lo
+            self.vtoc2[0x7b] = hi
+            s = WriteableSector(self.sector_size, self.vtoc2)
+            s.sector_num = 1024
+            self.sectors.append(s)
 
 
 class AtariDosDirectory(Directory):
@@ -99,6 +115,7 @@ class AtariDosDirent(Dirent):
         self.is_dir = False
         self.locked = False
         self.in_use = False
+        self.dos_25 = False  # uses sectors above 719, hidden from DOS 2.0
         self.deleted = False
         self.num_sectors = 0
         self.starting_sector = 0
@@ -158,7 +175,8 @@ class AtariDosDirent(Dirent):
         self.mydos = (flag&0x04) > 0
         self.is_dir = (flag&0x10) > 0
         self.locked = (flag&0x20) > 0
-        self.in_use = (flag&0x40) > 0
+        self.dos_25 = (flag&0xdf) == 0x03
+        self.in_use = (flag&0x40) > 0 or self.dos_25
         self.deleted = (flag&0x80) > 0
         self.num_sectors = int(values[1])
         self.starting_sector = int(values[2])
@@ -171,7 +189,7 @@ class AtariDosDirent(Dirent):
         data = np.zeros([self.format.itemsize], dtype=np.uint8)
         values = data.view(dtype=self.format)[0]
         # flag bits not represented by attributes are kept as they were
-        flag = (int(self.flag) & 0x08) | (1 * int(self.opened_output)) | (2 * int(self.dos_2)) | (4 * int(self.mydos)) | (0x10 * int(self.is_dir)) | (0x20 * int(self.locked)) | (0x40 * int(self.in_use)) | (0x80 * int(self.deleted))
+        flag = (int(self.flag) & 0x08) | (1 * int(self.opened_output)) | (2 * int(self.dos_2)) | (4 * int(self.mydos)) | (0x10 * int(self.is_dir)) | (0x20 * int(self.locked)) | (0x40 * int(self.in_use and not self.dos_25)) | (0x80 * int(self.deleted))
         values[0] = flag
         values[1] = self.num_sectors
         values[2] = self.starting_sector
@@ -190,6 +208,9 @@ class AtariDosDirent(Dirent):
     def update_sector_info(self, sector_list):
         self.num_sectors = sector_list.num_sectors
         self.starting_sector = sector_list.first_sector
+        if any(sector.sector_num >= 720 for sector in sector_list):
+            self.dos_25 = True
+            self.opened_output = True
 
     def add_metadata_sectors(self, vtoc, sector_list, header):
         # no extra sectors are needed for an Atari DOS file; the links to the
-- 
2.43.0


From ff3cfc916cde38dd235dbd4edca90cf4ee13fee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:11 +0000
Subject: [PATCH 07/56] fix: don't reuse the directory slots of MyDOS
 subdirectories

---
 atrcopy/ataridos.py | 4 ++++
 atrcopy/utils.py    | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index bfba83a..dba8475 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -74,6 +74,10 @@ class AtariDosDirectory(Directory):
     def dirent_class(self):
         return AtariDosDirent
 
+    def is_free(self, dirent):
+        # MyDOS subdirectories don't have the in use flag
+        return not dirent.in_use and (dirent.deleted or not dirent.is_dir)
+
     def get_dirent_sector(self):
         # 8 entries per sector, even if the sectors are larger than 128 bytes
         return self.sector_class(128)
diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index 3bf1790..29e9c12 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -195,13 +195,16 @@ class Directory(BaseSectorList):
         self.dirents[index] = dirent
         if _xd: log.debug("set dirent #%d: %s" % (index, dirent))
 
+    def is_free(self, dirent):
+        return not dirent.in_use
+
     def get_free_dirent(self):
         used = set()
         d = list(self.dirents.items())
         if d:
             d.sort()
             for i, dirent in d:
-                if not dirent.in_use:
+                if self.is_free(dirent):
                     return i
                 used.add(i)
             if self.num_dirents > 0 and (len(used) >= self.num_dirents):
-- 
2.43.0


From 868c25e80f7542f7e66193451b2ee7c0f282e281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:17 +0000
Subject: [PATCH 08/56] fix: don't find deleted files when deleting a file

If a deleted entry with the same name came first, its sectors were freed
again and the file itself was not removed.
---
 atrcopy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index 29e9c12..0c37079 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -226,11 +226,11 @@ class Directory(BaseSectorList):
         if hasattr(filename, "filename"):
             # we've been passed a dirent instead of a filename
             for dirent in list(self.dirents.values()):
-                if dirent == filename:
+                if dirent.in_use and dirent == filename:
                     return dirent
         else:
             for dirent in list(self.dirents.values()):
-                if filename == dirent.filename:
+                if dirent.in_use and filename == dirent.filename:
                     return dirent
         raise errors.FileNotFound("%s not found on disk" % filename)
 
-- 
2.43.0


From 26e12104eb24d757a31fd3d12c1cc15220432004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:06 +0000
Subject: [PATCH 09/56] fix: keep DOS 3.3 files locked when the catalog is
 rewritten

The lock flag was encoded as 0x80 * 0x80, which is lost in a byte.
---
 atrcopy/dos33.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index b1c4c15..c7a13e9 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -239,7 +239,7 @@ class Dos33Dirent(Dirent):
             self.deleted = False
         self.sector = values[1]
         self._file_type = values[2] & 0x7f
-        self.locked = values[2] & 0x80
+        self.locked = bool(values[2] & 0x80)
         self.filename = (data[3:0x20] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
         self.num_sectors = int(values[4])
         self.is_sane = self.sanity_check(image)
-- 
2.43.0


From 0688f33dde8446122c4958a1fd995fcfbb686d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:12 +0000
Subject: [PATCH 10/56] fix: recognize unlocked text files in DOS 3.3 catalogs

An entry of type zero was taken as the end of the catalog sector, hiding it
and the following files, whose entries were then overwritten by an add.
---
 atrcopy/dos33.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index c7a13e9..d445362 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -459,18 +459,22 @@ class Dos33DiskImage(DiskImageBase):
 
     def get_directory(self, directory=None):
         sector = self.header.first_directory
-        num = 0
+        first_num = 0
         files = []
         while sector > 0:
+            num = first_num
+            first_num += 7
             self.assert_valid_sector(sector)
             if _xd: log.debug("reading catalog sector: %d" % sector)
             values, style = self.get_sectors(sector)
             sector = self.header.sector_from_track(values[1], values[2])
             i = 0xb
             while i < 256:
-                dirent = Dos33Dirent(self, num, values[i:i+0x23])
-                if dirent.flag == 0:
+                if values[i] == 0:
+                    # unused entry. The type can't be used to detect this
+                    # because an unlocked text file has type zero.
                     break
+                dirent = Dos33Dirent(self, num, values[i:i+0x23])
                 if not dirent.is_sane:
                     log.warning("Illegally formatted directory entry %s" % dirent)
                     self.all_sane = False
-- 
2.43.0


From 36ab3d576e30471d9d8a59f3520c30cd4f01244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:37 +0000
Subject: [PATCH 11/56] fix: keep file names in DOS 3.3 catalogs as they are

Every add or delete re-encoded all names, losing the 30th character and
characters that are not normal ascii, and the types of deleted files.
---
 atrcopy/dos33.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index d445362..d0d6b4e 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -166,6 +166,7 @@ class Dos33Dirent(Dirent):
         self.track = 0
         self.sector = 0
         self.filename = ""
+        self.raw = None  # entry as found on disk
         self.num_sectors = 0
         self.is_sane = True
         self.current_sector_index = 0
@@ -240,7 +241,8 @@ class Dos33Dirent(Dirent):
         self.sector = values[1]
         self._file_type = values[2] & 0x7f
         self.locked = bool(values[2] & 0x80)
-        self.filename = (data[3:0x20] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
+        self.raw = np.array(data)
+        self.filename = (data[3:0x20 if self.deleted else 0x21] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
         self.num_sectors = int(values[4])
         self.is_sane = self.sanity_check(image)
 
@@ -249,10 +251,14 @@ class Dos33Dirent(Dirent):
         values = data.view(dtype=self.format)[0]
         values[0] = 0xff if self.deleted else self.track
         values[1] = self.sector
-        values[2] = self.flag
-        n = min(len(self.filename), 30)
-        data[3:3+n] = np.frombuffer(self.filename.encode("ascii"), dtype=np.uint8) | 0x80
-        data[3+n:] = ord(' ') | 0x80
+        if self.raw is None:
+            values[2] = self.flag
+            n = min(len(self.filename), 30)
+            data[3:3+n] = np.frombuffer(self.filename.encode("ascii"), dtype=np.uint8) | 0x80
+            data[3+n:] = ord(' ') | 0x80
+        else:
+            # not every name can be represented in ascii
+            data[2:0x21] = self.raw[2:0x21]
         if self.deleted:
             data[0x20] = self.track
         values[4] = self.num_sectors
@@ -348,6 +354,7 @@ class Dos33Dirent(Dirent):
 
     def set_values(self, filename, filetype, index):
         self.filename = '%-30s' % filename[0:30]
+        self.raw = None
         self._file_type = self.text_to_type.get(filetype, 0x04)
         self.locked = False
         self.deleted = False
-- 
2.43.0


From 464257b98b57b72436565300c8712a759af43597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:44 +0000
Subject: [PATCH 12/56] fix: use the last sector of DOS 3.3 catalogs

A catalog sector without a successor was taken as full.
---
 atrcopy/dos33.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index d0d6b4e..19d040f 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -142,9 +142,8 @@ class Dos33Directory(Directory):
         for sector in self.sectors:
             current_sector, next_sector = image.get_directory_sector_links(current_sector)
             sector.sector_num = current_sector
-            t, s = image.header.track_from_sector(next_sector)
-            sector.data[1] = t
-            sector.data[2] = s
+            raw, _, _ = image.get_raw_bytes(current_sector)
+            sector.data[0:0x0b] = raw[0:0x0b]
             if _xd: log.debug("directory sector %d -> next = %d" % (sector.sector_num, next_sector))
             current_sector = next_sector
 
@@ -575,12 +574,12 @@ class Dos33DiskImage(DiskImageBase):
     def get_directory_sector_links(self, sector_num):
         if sector_num == -1:
             sector_num = self.header.first_directory
+        elif sector_num == 0:
+            raise errors.NoSpaceInDirectory("No space left in catalog")
         self.assert_valid_sector(sector_num)
         raw, _, _ = self.get_raw_bytes(sector_num)
         next_sector = self.header.sector_from_track(raw[1], raw[2])
         if _xd: log.debug("checking catalog sector %d, next catalog sector: %d" % (sector_num, next_sector))
-        if next_sector == 0:
-            raise errors.NoSpaceInDirectory("No space left in catalog")
         return sector_num, next_sector
 
     def get_file_segment(self, dirent):
-- 
2.43.0


From 0d2aecf7aaec40b067d707dcf490c1c127b0e039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:10 +0000
Subject: [PATCH 13/56] fix: return no data for empty files on a disk image

Reading an empty file returned the whole disk image.
---
 atrcopy/segments.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 403348b..5f0b7ec 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1108,6 +1108,10 @@ class EmptySegment(DefaultSegment):
     def __len__(self):
         return 0
 
+    def tobytes(self):
+        # rawdata is the whole disk image
+        return b''
+
 
 class ObjSegment(DefaultSegment):
     extra_serializable_attributes = ['metadata_start', 'data_start']
-- 
2.43.0


From 02cfb1e733ed47d685518fc0c7fb6a098b485cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:17 +0000
Subject: [PATCH 14/56] fix: allow empty files

Adding an empty file to an Atari disk stored an invalid first sector and made
the disk unreadable; on DOS 3.3 it failed, as did reading a DOS 3.3 file
without data sectors.
---
 atrcopy/diskimages.py | 3 ++-
 atrcopy/dos33.py      | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index fa5e9cf..9a7bb38 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -367,7 +367,8 @@ class DiskImageBase(Bootable):
         data = to_numpy(data)
         sectors = BaseSectorList(self.header)
         index = 0
-        while index < len(data):
+        # even an empty file needs a sector
+        while index < len(data) or len(sectors) == 0:
             count = min(self.header.payload_bytes, len(data) - index)
             sector = self.header.create_sector(data[index:index + count])
             sectors.append(sector)
diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 19d040f..086fb45 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -585,7 +585,7 @@ class Dos33DiskImage(DiskImageBase):
     def get_file_segment(self, dirent):
         byte_order = []
         dirent.start_read(self)
-        while True:
+        while dirent.sector_map:
             bytes, last, pos, size = dirent.read_sector(self)
             byte_order.extend(list(range(pos, pos + size)))
             if last:
-- 
2.43.0


From fd52870a30cf970caacf02afcff103f83446edcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:39 +0000
Subject: [PATCH 15/56] fix: save the image if any of the added files was
 written

If the last file was skipped the other files were reported as copied but the
image was not saved.
---
 atrcopy/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 76beb62..58df276 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -154,7 +154,8 @@ def add_files(image, files):
         with open(name, "rb") as fh:
             data = fh.read()
         name = os.path.basename(name)
-        changed = save_file(image, name, filetype, data)
+        if save_file(image, name, filetype, data):
+            changed = True
     if changed:
         image.save()
 
-- 
2.43.0


From 01f6bb6685f3d2366adec0f4a41d5b3f1f9d7ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:04 +0000
Subject: [PATCH 16/56] fix: don't delete locked files without -f

The -f option of delete is documented to be needed to remove a locked file
but was ignored.
---
 atrcopy/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 58df276..51f30ca 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -168,6 +168,9 @@ def remove_files(image, files):
         except errors.FileNotFound:
             print("%s not in %s" % (name, image))
             continue
+        if getattr(dirent, "locked", False) and not options.force:
+            print("skipping %s, file is locked. Use -f to remove" % (name))
+            continue
         print("removing %s from %s" % (name, image))
         if not options.dry_run:
             image.delete_file(name)
-- 
2.43.0


From f064c8181e1fbd249ec65e1abcacf694a2cbb30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:11 +0000
Subject: [PATCH 17/56] fix: respect --dry-run in boot and extract -d

boot saved the disk image and extract created the directory.
---
 atrcopy/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 51f30ca..5471c76 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -110,8 +110,8 @@ def extract_files(image, files):
         if options.lower:
             output = output.lower()
         if options.dir:
-            if not os.path.exists(options.dir):
-                os.makedirs(options.dir)
+            if not options.dry_run:
+                os.makedirs(options.dir, exist_ok=True)
             output = os.path.join(options.dir, output)
         if not options.dry_run:
             data = image.get_file(dirent)
@@ -296,7 +296,8 @@ def boot_image(image_name, source_files, data_files, obj_files, run_addr=""):
     if segments:
         image = image_cls.create_boot_image(segments, run_addr)
         print("saving boot disk %s" % (image_name))
-        image.save(image_name)
+        if not options.dry_run:
+            image.save(image_name)
     else:
         print("No segments to save to boot disk")
 
-- 
2.43.0


From ed5d5d8840a4372aebcc2546fc8603d31820c508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:23 +0000
Subject: [PATCH 18/56] fix: allow creating images from templates whose name is
 part of another

E.g. dos2sd and dos33 were reported as ambiguous.
---
 atrcopy/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 5471c76..119120c 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -374,6 +374,10 @@ def get_template_info():
 
 def get_template_data(template):
     possibilities = get_template_images(template)
+    # the exact name of a template may also be part of the names of others
+    exact = {k: v for k, v in possibilities.items() if template in (k, os.path.splitext(k)[0])}
+    if len(exact) == 1:
+        possibilities = exact
     if not possibilities:
         raise errors.InvalidDiskImage("Unknown template disk image %s" % template)
     if len(possibilities) > 1:
-- 
2.43.0


From d7e02891ff3ebbc2eaf6bd6b148d7494c57c1b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:23 +0000
Subject: [PATCH 19/56] fix: write disk images completely or not at all

Images were truncated and written in place, so an error or a crash while
saving destroyed them. An error when closing the file (e.g. disk full) was
even lost by numpy's tofile. A create without -f could replace a file created
meanwhile.
---
 atrcopy/__init__.py   |  8 +++---
 atrcopy/diskimages.py |  3 +--
 atrcopy/utils.py      | 62 +++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 67 insertions(+), 6 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 119120c..6561a4a 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -22,7 +22,7 @@ from .spartados import SpartaDosDiskImage
 from .cartridge import A8CartHeader, AtariCartImage, RomImage
 from .parsers import SegmentParser, DefaultSegmentParser, guess_parser_by_size, guess_parser_for_mime, guess_parser_for_system, guess_container, iter_parsers, iter_known_segment_parsers, mime_parse_order, parsers_for_filename
 from .magic import guess_detail_for_mime
-from .utils import to_numpy, text_to_int
+from .utils import to_numpy, text_to_int, write_local_file
 from .dummy import LocalFilesystem
 
 
@@ -403,11 +403,11 @@ def create_image(template, name):
         return
     print("Using template %s:\n  %s" % (inf['name'], "\n  ".join(textwrap.wrap(inf["description"], 77))))
     if not options.dry_run:
-        if os.path.exists(name) and not options.force:
+        try:
+            write_local_file(name, data, options.force)
+        except FileExistsError:
             print("skipping %s, use -f to overwrite" % (name))
         else:
-            with open(name, "wb") as fh:
-                fh.write(data)
             parser, _ = find_diskimage(name, options.verbose)
             print("created %s: %s" % (name, str(parser.image)))
             list_files(parser.image, [])
diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 9a7bb38..f55394b 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -192,8 +192,7 @@ class DiskImageBase(Bootable):
         if not filename:
             raise RuntimeError("No filename specified for save!")
         data = self.bytes[:]
-        with open(filename, "wb") as fh:
-            data.tofile(fh)
+        write_local_file(filename, data.tobytes())
 
     def assert_valid_sector(self, sector):
         if not self.header.sector_is_valid(sector):
diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index 0c37079..5aaf838 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -1,3 +1,7 @@
+import errno
+import os
+import stat
+import tempfile
 import types
 import uuid as stdlib_uuid
 
@@ -35,6 +39,64 @@ def to_numpy(value):
     raise TypeError("Can't convert to numpy data")
 
 
+def write_local_file(filename, data, overwrite=True):
+    """ Write bytes to a file on the local filesystem, completely or not at all
+
+    The data is written to a temporary file in the same directory which then
+    takes the place of the file, so neither an error nor a crash can leave a
+    partially written file or destroy an existing one.
+
+    If not overwriting, FileExistsError is raised if the file exists.
+    """
+    path = os.path.realpath(filename)  # replace the target of a symlink, not the link
+    if overwrite and os.path.exists(path):
+        if not os.path.isfile(path):
+            # a device or the like can't be replaced
+            with open(path, "wb") as fh:
+                fh.write(data)
+            return
+        if not os.access(path, os.W_OK):
+            raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), filename)
+        mode = stat.S_IMODE(os.stat(path).st_mode)
+    else:
+        if not overwrite and os.path.lexists(filename):
+            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), filename)
+        umask = os.umask(0o077)
+        os.umask(umask)
+        mode = 0o666 & ~umask
+    fd, temp = tempfile.mkstemp(prefix=".atrcopy-", suffix=".tmp", dir=os.path.dirname(path))
+    try:
+        with os.fdopen(fd, "wb") as fh:
+            fh.write(data)
+            fh.flush()
+            os.fsync(fd)
+        os.chmod(temp, mode)
+        if overwrite:
+            os.replace(temp, path)
+            return
+        # unlike a rename, this fails if the file has been created meanwhile
+        try:
+            os.link(temp, path)
+        except FileExistsError:
+            raise
+        except OSError:
+            # no hard links on this filesystem
+            if os.path.lexists(path):
+                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), filename)
+            os.rename(temp, path)
+            return
+    except BaseException:
+        try:
+            os.unlink(temp)
+        except OSError:
+            pass
+        raise
+    try:
+        os.unlink(temp)
+    except OSError:
+        pass
+
+
 def to_numpy_list(value):
     if type(value) is np.ndarray:
         return value
-- 
2.43.0


From 9b4b39d40c115f0eb6705429c00acc177f161337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:30 +0000
Subject: [PATCH 20/56] fix: extract files only to the specified directory

Names stored on the disk image may contain path separators.
---
 atrcopy/__init__.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 6561a4a..116a696 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -97,6 +97,17 @@ def find_diskimage(filename, verbose=False):
     return parser, mime
 
 
+def local_filename(name):
+    """Name for a file on the local filesystem that can't refer to anything in
+    another directory, whatever name is stored on the disk image
+    """
+    for c in ["/", "\\", os.sep, "\0"]:
+        name = name.replace(c, "_")
+    if name in ["", os.curdir, os.pardir]:
+        name = "_" + name
+    return name
+
+
 def extract_files(image, files):
     if options.all:
         files = image.files
@@ -106,7 +117,7 @@ def extract_files(image, files):
         except errors.FileNotFound:
             print("%s not in %s" % (name, image))
             continue
-        output = dirent.filename
+        output = local_filename(dirent.filename)
         if options.lower:
             output = output.lower()
         if options.dir:
-- 
2.43.0


From ab7d0d5418b5ae52c6d1cc3ac4552e9314a75ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:54 +0000
Subject: [PATCH 21/56] fix: don't leave partial files or replace new ones when
 extracting

An error while writing left a partial file that a second extract then skipped,
and a file created meanwhile by another program was overwritten.
---
 atrcopy/__init__.py | 6 ++++--
 atrcopy/dummy.py    | 5 ++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 116a696..69fe9a3 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -133,8 +133,10 @@ def extract_files(image, files):
             if options.text:
                 data = data.replace(b'\x7f', b'\t')
                 data = data.replace(b'\x9b', b'\n')
-            with open(output, "wb") as fh:
-                fh.write(data)
+            try:
+                write_local_file(output, data, options.force)
+            except FileExistsError:
+                print("skipping %s, file exists. Use -f to overwrite" % output)
         else:
             print("extracting %s -> %s" % (name, output))
 
diff --git a/atrcopy/dummy.py b/atrcopy/dummy.py
index 7482d52..cb9bf8f 100644
--- a/atrcopy/dummy.py
+++ b/atrcopy/dummy.py
@@ -5,7 +5,7 @@ import numpy as np
 from . import errors
 from .segments import SegmentData, EmptySegment, ObjSegment
 from .diskimages import DiskImageBase
-from .utils import to_numpy
+from .utils import to_numpy, write_local_file
 
 import logging
 log = logging.getLogger(__name__)
@@ -32,8 +32,7 @@ class LocalFilesystemImage(DiskImageBase):
 
     def write_file(self, name, filetype, data):
         path = os.path.join(self.path, name)
-        with open(path, "wb") as fh:
-            fh.write(data)
+        write_local_file(path, data)
 
     def delete_file(self, name):
         pass
-- 
2.43.0


From b14689a0ff75e4cc8aba24f12bd99c8bf864e74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:26 +0000
Subject: [PATCH 22/56] fix: don't loop forever on cyclic DOS 3.3 catalogs and
 track/sector lists

---
 atrcopy/dos33.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 086fb45..bc6afc1 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -302,8 +302,12 @@ class Dos33Dirent(Dirent):
         tslist = BaseSectorList(image.header)
         sector_num = image.header.sector_from_track(self.track, self.sector)
         sector_map = []
+        seen = set()
         while sector_num > 0:
             image.assert_valid_sector(sector_num)
+            if sector_num in seen:
+                raise errors.InvalidFile("Bad track/sector list: attempting to reread sector %d" % sector_num)
+            seen.add(sector_num)
             if _xd: log.debug("reading track/sector list at %d for %s" % (sector_num, self))
             data, _ = image.get_sectors(sector_num)
             sector = Dos33TSSector(image.header, data=data)
@@ -311,7 +315,7 @@ class Dos33Dirent(Dirent):
             sector_map.extend(sector.get_tslist())
             tslist.append(sector)
             sector_num = sector.next_sector_num
-        self.sector_map = sector_map[0:self.num_sectors - len(tslist)]
+        self.sector_map = sector_map[0:max(0, self.num_sectors - len(tslist))]
         self.track_sector_list = tslist
         return tslist
 
@@ -467,7 +471,11 @@ class Dos33DiskImage(DiskImageBase):
         sector = self.header.first_directory
         first_num = 0
         files = []
+        seen = set()
         while sector > 0:
+            if sector in seen:
+                raise errors.InvalidDiskImage("Bad catalog: attempting to reread sector %d" % sector)
+            seen.add(sector)
             num = first_num
             first_num += 7
             self.assert_valid_sector(sector)
-- 
2.43.0


From 0142d4b75fe41aacbea2aba17c8784cab7b2da53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:34 +0000
Subject: [PATCH 23/56] fix: don't loop forever on cyclic MyDOS and SpartaDOS
 sector links

---
 atrcopy/ataridos.py  | 6 +++++-
 atrcopy/spartados.py | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index dba8475..643d69a 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -285,7 +285,11 @@ class MydosDirent(AtariDosDirent):
     def process_raw_sector(self, image, raw):
         # No file number stored in the sector data; two full bytes available
         # for next sector
-        self.current_sector = (raw[-3] << 8) + raw[-2]
+        self.sectors_seen.add(self.current_sector)
+        next_sector = (raw[-3] << 8) + raw[-2]
+        if next_sector in self.sectors_seen:
+            raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
+        self.current_sector = next_sector
         num_bytes = raw[-1]
         return raw[0:num_bytes], num_bytes
 
diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index abd749d..95307b3 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -209,7 +209,11 @@ class SpartaDosDiskImage(AtariDosDiskImage):
 
     def get_sector_map(self, sector):
         m = None
+        seen = set()
         while sector > 0:
+            if sector in seen:
+                raise errors.InvalidFile("Bad sector map: attempting to reread sector %d" % sector)
+            seen.add(sector)
             b, _ = self.get_sectors(sector)
             sector, prev = b[0:4].view(dtype='<u2')
             if m is None:
-- 
2.43.0


From ebe3d747eb48fa03926e6f9c3fe9e8d600f4d0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:06 +0000
Subject: [PATCH 24/56] fix: NameError instead of ByteNotInFile166 for invalid
 DOS 3.3 sectors

---
 atrcopy/diskimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index f55394b..e3bba61 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -68,7 +68,7 @@ class BaseHeader:
         order starting from the beginning of the raw data.
         """
         if not self.sector_is_valid(sector):
-            raise ByteNotInFile166("Sector %d out of range" % sector)
+            raise errors.ByteNotInFile166("Sector %d out of range" % sector)
         pos = sector * self.sector_size + self.header_offset
         size = self.sector_size
         return pos, size
-- 
2.43.0


From d574d075c6d67eb20f74811d67370433899e4ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:13 +0000
Subject: [PATCH 25/56] fix: position of the boot sectors of double density
 Atari disks

---
 atrcopy/ataridos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 643d69a..dad1077 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -467,7 +467,7 @@ class AtrHeader(BaseHeader):
         if not self.sector_is_valid(sector):
             raise errors.ByteNotInFile166("Sector %d out of range" % sector)
         if sector <= self.num_initial_sectors:
-            pos = self.num_initial_sectors * (sector - 1)
+            pos = self.initial_sector_size * (sector - 1)
             size = self.initial_sector_size
         else:
             pos = self.num_initial_sectors * self.initial_sector_size + (sector - 1 - self.num_initial_sectors) * self.sector_size
-- 
2.43.0


From 7a0fc09ec339a44e7138c78542782200c36c257f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:20 +0000
Subject: [PATCH 26/56] fix: don't clear used sectors of SpartaDOS and MyDOS
 disks

vtoc -e interpreted the SpartaDOS bitmap, and the VTOC of MyDOS disks with more
than one VTOC sector, as an Atari DOS VTOC at the wrong place.
---
 atrcopy/ataridos.py  |  3 ++-
 atrcopy/spartados.py | 15 +++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index dad1077..b0b1e6e 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -33,7 +33,8 @@ class AtariDosWriteableSector(WriteableSector):
 
 class AtariDosVTOC(VTOC):
     def parse_segments(self, segments):
-        self.vtoc1 = segments[0].data
+        # MyDOS may have more VTOC sectors, stored below 360
+        self.vtoc1 = segments[0].data[-self.sector_size:]
         bits = np.unpackbits(self.vtoc1[0x0a:0x64])
         self.sector_map[0:720] = bits
         self.vtoc2 = None
diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 95307b3..dd03309 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -3,6 +3,7 @@ import numpy as np
 from . import errors
 from .ataridos import AtariDosDirent, AtariDosDiskImage, XexSegment
 from .segments import DefaultSegment, EmptySegment, ObjSegment, RawSectorsSegment, SegmentSaver
+from .utils import VTOC
 
 import logging
 log = logging.getLogger(__name__)
@@ -106,6 +107,16 @@ class SpartaDosDirent(AtariDosDirent):
         return raw[0:num_data_bytes], sector == 0, pos, num_data_bytes
 
 
+class SpartaDosVTOC(VTOC):
+    def parse_segments(self, segments):
+        # one bit per sector starting at sector zero, without any header
+        bits = np.unpackbits(segments[0].data)
+        num = self.header.max_sectors + self.header.starting_sector_label
+        self.sector_map = np.zeros([max(num, 1280)], dtype=np.uint8)
+        bits = bits[0:num]
+        self.sector_map[0:len(bits)] = bits
+
+
 class SpartaDosDiskImage(AtariDosDiskImage):
     def __init__(self, *args, **kwargs):
         self.first_bitmap = 0
@@ -115,6 +126,10 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         self.fs_version = 0
         AtariDosDiskImage.__init__(self, *args, **kwargs)
 
+    @property
+    def vtoc_class(self):
+        return SpartaDosVTOC
+
     def __str__(self):
         return "%s Sparta DOS Format: %d usable sectors (%d free), %d files" % (self.header, self.total_sectors, self.unused_sectors, len(self.files))
 
-- 
2.43.0


From 6ab75710a99d7b4b0e8887c333c526a00af03df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:57 +0000
Subject: [PATCH 27/56] fix: report operations that a disk image doesn't
 support as AtrError

Instead of an IndexError, TypeError or AttributeError.
---
 atrcopy/diskimages.py | 2 ++
 atrcopy/errors.py     | 4 ++++
 atrcopy/spartados.py  | 4 +++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index e3bba61..9f607dc 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -333,6 +333,8 @@ class DiskImageBase(Bootable):
 
     def get_vtoc_object(self):
         vtoc_segments = self.get_vtoc_segments()
+        if not vtoc_segments:
+            raise errors.UnsupportedDiskImage("No VTOC in %s" % self)
         vtoc = self.vtoc_class(self.header, vtoc_segments)
         return vtoc
 
diff --git a/atrcopy/errors.py b/atrcopy/errors.py
index f27abee..506ed4f 100644
--- a/atrcopy/errors.py
+++ b/atrcopy/errors.py
@@ -73,3 +73,7 @@ class UnsupportedContainer(AtrError):
 
 class InvalidContainer(AtrError):
     pass
+
+
+class NotImplementedError(AtrError):
+    pass
diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index dd03309..2ae40fd 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -179,7 +179,9 @@ class SpartaDosDiskImage(AtariDosDiskImage):
     def get_vtoc(self):
         pass
 
-    def get_directory(self):
+    def get_directory(self, directory=None):
+        if directory is not None:
+            raise errors.UnsupportedDiskImage("Modifying SpartaDOS disks is not supported")
         self.files = []
         dir_map = self.get_sector_map(self.root_dir)
         sector = dir_map[0]
-- 
2.43.0


From 72df4d17d9fef45eb77b1c777542dcd783df5ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:24 +0000
Subject: [PATCH 28/56] fix: don't fail with foreign errors on damaged gzip and
 zip files

---
 atrcopy/container.py |  3 ++-
 atrcopy/mame.py      | 11 ++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/atrcopy/container.py b/atrcopy/container.py
index dbb8f66..4ae929f 100644
--- a/atrcopy/container.py
+++ b/atrcopy/container.py
@@ -2,6 +2,7 @@ import gzip
 import bz2
 import lzma
 import io
+import zlib
 
 import numpy as np
 
@@ -25,7 +26,7 @@ class DiskImageContainer:
         raw = data.tobytes()
         try:
             unpacked = self.unpack_bytes(raw)
-        except EOFError as e:
+        except (EOFError, zlib.error) as e:
             raise errors.InvalidContainer(e)
         return to_numpy(unpacked)
 
diff --git a/atrcopy/mame.py b/atrcopy/mame.py
index 20850f1..a6d6a49 100644
--- a/atrcopy/mame.py
+++ b/atrcopy/mame.py
@@ -1,4 +1,5 @@
 import zipfile
+import zlib
 
 import numpy as np
 
@@ -16,9 +17,13 @@ class MameZipImage(DiskImageBase):
         self.zipdata = rawdata
         fh = self.zipdata.bufferedio
         if zipfile.is_zipfile(fh):
-            with zipfile.ZipFile(fh) as zf:
-                self.check_zip_size(zf)
-                self.create_rawdata(zf)
+            try:
+                with zipfile.ZipFile(fh) as zf:
+                    self.check_zip_size(zf)
+                    self.create_rawdata(zf)
+            except (zipfile.BadZipFile, zlib.error, EOFError, OSError, ValueError, NotImplementedError, RuntimeError) as e:
+                # damaged, encrypted or compressed by an unsupported method
+                raise errors.InvalidDiskImage("Unreadable zip file: %s" % e)
         else:
             raise errors.InvalidDiskImage("Not a MAME zip file")
         DiskImageBase.__init__(self, self.rawdata, filename)
-- 
2.43.0


From dfb3a327da01b4389cfdf5fdf2c9f8cf02c28ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:32 +0000
Subject: [PATCH 29/56] fix: refuse segments that can't be represented in an
 executable

Addresses beyond 64k wrapped around and empty segments resulted in an end
address before the start.
---
 atrcopy/executables.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/atrcopy/executables.py b/atrcopy/executables.py
index fc1ffb1..e53b5b9 100644
--- a/atrcopy/executables.py
+++ b/atrcopy/executables.py
@@ -12,7 +12,19 @@ except NameError:
     _xd = False
 
 
+def check_segments(segments):
+    """Make sure the segments can be represented in an executable file"""
+    if not segments:
+        raise errors.InvalidBinaryFile("No data segments")
+    for s in segments:
+        if len(s) == 0:
+            raise errors.InvalidBinaryFile("No data in segment at $%04x" % s.origin)
+        if s.origin < 0 or s.origin + len(s) > 0x10000:
+            raise errors.InvalidBinaryFile("Segment at $%04x outside of 64k address space" % s.origin)
+
+
 def get_xex(segments, run_addr=None):
+    check_segments(segments)
     segments_copy = [s for s in segments]  # don't affect the original list!
     main_segment = None
     sub_segments = []
@@ -66,6 +78,7 @@ def get_bsave(segments, run_addr=None):
     # Apple 2 executables get executed at the first address loaded. If the
     # run_addr is not the first byte of the combined data, have to create a
     # new 3-byte segment with a "JMP run_addr" to go at the beginning
+    check_segments(segments)
     origin = 100000000
     last = -1
 
@@ -83,6 +96,8 @@ def get_bsave(segments, run_addr=None):
         if not found:
             raise errors.InvalidBinaryFile("Run address points outside data segments")
         origin -= 3
+        if origin < 0:
+            raise errors.InvalidBinaryFile("No space for jump to run address before first segment")
         hi, lo = divmod(run_addr, 256)
         raw = SegmentData([0x4c, lo, hi])
         all_segments = [DefaultSegment(raw, origin=origin)]
@@ -90,6 +105,8 @@ def get_bsave(segments, run_addr=None):
     else:
         all_segments = segments
     size = last - origin
+    if size > 0xffff:
+        raise errors.InvalidBinaryFile("Segments too far apart for a BSAVE file")
     image = np.zeros([size + 4], dtype=np.uint8)
     words = image[0:4].view(dtype="<u2")  # always little endian
     words[0] = origin
-- 
2.43.0


From f51aac8efdbb464d66918c2ccdc7ae88c10d3816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:53 +0000
Subject: [PATCH 30/56] fix: use the specified run address for KBoot disks

It was ignored, and the size of executables larger than 64k was stored modulo
64k.
---
 atrcopy/kboot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index 010d74a..0e11a18 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -69,7 +69,7 @@ class KBootImage(AtariDosDiskImage):
 
     @classmethod
     def create_boot_image(cls, segments, run_addr=None):
-        data_segment, _ = get_xex(segments)
+        data_segment, _ = get_xex(segments, run_addr)
         payload_bytes = add_xexboot_header(data_segment.data)
         data_bytes = np.zeros(len(payload_bytes) + 16, np.uint8)
         data_bytes[16:] = payload_bytes[:]
@@ -96,6 +96,9 @@ def insert_bytes(data, offset, string, color):
 def add_xexboot_header(bytes, bootcode=None, title=b"DEMO", author=b"an atari user"):
     sec_size = 128
     xex_size = len(bytes)
+    if xex_size > 0xffff:
+        # the boot code has a 16 bit counter
+        raise errors.InvalidBinaryFile("Executable too large for boot disk: %d bytes" % xex_size)
     num_sectors = (xex_size + sec_size - 1) // sec_size
     padded_size = num_sectors * sec_size
     if xex_size < padded_size:
-- 
2.43.0


From 325a2ed3a23666c112372fd8a0699622076e6f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:02 +0000
Subject: [PATCH 31/56] fix: load all data of segments in Apple boot disks

Segments sharing a page overwrote each other's data with zeros, and page
numbers above $bf were taken as loader commands.
---
 atrcopy/standard_delivery.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index ccd8622..5b73e85 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -3,6 +3,7 @@ import numpy as np
 from . import errors
 from .segments import SegmentData
 from .diskimages import BaseHeader, DiskImageBase
+from .executables import check_segments
 
 import logging
 log = logging.getLogger(__name__)
@@ -69,8 +70,16 @@ class StandardDeliveryImage(DiskImageBase):
         if run_addr is None:
             run_addr = segments[0].origin
 
+        check_segments(segments)
         chunks = []
 
+        # segments may share a page, so the chunks have to include the data of
+        # all segments in their pages
+        memory = np.zeros([0x10000], dtype=np.uint8)
+        for s in segments:
+            origin = s.origin - 1 if s.origin in (0x2001, 0x4001) else s.origin
+            memory[origin:origin + len(s)] = s[:]
+
         for s in segments:
             # find size in 256 byte chunks that start on a page boundary
             # since the loader only deals with page boundaries
@@ -82,8 +91,10 @@ class StandardDeliveryImage(DiskImageBase):
             else:
                 show_hgr = True
             size = ((len(s) + padding + 255) // 256) * 256
-            chunk = np.zeros([size], dtype=np.uint8)
-            chunk[padding:padding + len(s)] = s[:]
+            if chunk_start + size // 256 > 0xc0:
+                # higher page numbers are commands for the loader
+                raise errors.InvalidBinaryFile("Segment at $%04x not below $c000" % s.origin)
+            chunk = memory[chunk_start * 256:chunk_start * 256 + size]
             chunks.append((chunk_start, chunk, show_hgr))
             print("segment: %s, pages=%d" % (str(s), len(chunk) // 256))
             log.debug(" last chunk=%s" % str(chunks[-1]))
@@ -169,4 +180,6 @@ def get_fstbt_code(data, address_list, run_addr):
     hi, lo = divmod(run_addr, 256)
     data[pointer:pointer + 2] = (lo, hi)
     address_list.append(0xc0)  # last sector flag
+    if pointer + 2 + len(address_list) > len(data):
+        raise errors.InvalidBinaryFile("Too many segments for boot disk")
     data[pointer + 2:pointer + 2 + len(address_list)] = address_list
-- 
2.43.0


From 60b207cc2399cf0cd2896f70acc309faa9713e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:28 +0000
Subject: [PATCH 32/56] fix: default run address of Apple boot disks

boot without -r failed, and an invalid run address was silently ignored.
---
 atrcopy/__init__.py          | 2 +-
 atrcopy/standard_delivery.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 69fe9a3..17671ce 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -286,7 +286,7 @@ def assemble_segments(source_files, data_files, obj_files, run_addr=""):
             try:
                 run_addr = int(run_addr)
             except ValueError:
-                run_addr = None
+                raise errors.AtrError("Invalid run address %s" % run_addr)
 
     return segments, run_addr
 
diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index 5b73e85..42a0cf0 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -67,10 +67,11 @@ class StandardDeliveryImage(DiskImageBase):
     def create_boot_image(cls, segments, run_addr=None):
         raw = SegmentData(np.zeros([143360], dtype=np.uint8))
         dsk = cls(raw, create=True)
-        if run_addr is None:
-            run_addr = segments[0].origin
-
         check_segments(segments)
+        if not run_addr:
+            run_addr = segments[0].origin
+        if run_addr < 0 or run_addr > 0xffff:
+            raise errors.InvalidBinaryFile("Run address outside of 64k address space")
         chunks = []
 
         # segments may share a page, so the chunks have to include the data of
-- 
2.43.0


From d3cdc8c47c304f4ea11b17cc81d6f84fa188cc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:11 +0000
Subject: [PATCH 33/56] fix: don't take images starting with zeros as empty
 LZMA containers

A double density XFD image with empty boot sectors was shown as an empty
executable.
---
 atrcopy/container.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/container.py b/atrcopy/container.py
index 4ae929f..716c231 100644
--- a/atrcopy/container.py
+++ b/atrcopy/container.py
@@ -28,6 +28,10 @@ class DiskImageContainer:
             unpacked = self.unpack_bytes(raw)
         except (EOFError, zlib.error) as e:
             raise errors.InvalidContainer(e)
+        if not unpacked:
+            # e.g. zeros at the start of an uncompressed image are taken as the
+            # header of an empty LZMA file
+            raise errors.InvalidContainer("Nothing in container")
         return to_numpy(unpacked)
 
     def unpack_bytes(self, byte_data):
-- 
2.43.0


From 2e51e7a3eee40e3606ca7779d92726212743d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:41 +0000
Subject: [PATCH 34/56] fix: names too long for the disk image were stored more
 than once

The name is cut to the length allowed when it is stored, so the existing file
was not found and another of the same name added, with and without -f. Commands
on executables raised AttributeError.
---
 atrcopy/__init__.py   |  1 +
 atrcopy/ataridos.py   |  5 +++++
 atrcopy/diskimages.py | 22 ++++++++++++++++++++++
 atrcopy/dos33.py      |  3 +++
 4 files changed, 31 insertions(+)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 17671ce..dba5187 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -142,6 +142,7 @@ def extract_files(image, files):
 
 
 def save_file(image, name, filetype, data):
+    name = image.get_stored_filename(name)
     try:
         dirent = image.find_dirent(name)
         if options.force:
diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index b0b1e6e..90f848c 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -525,6 +525,11 @@ class AtariDosDiskImage(DiskImageBase):
     def directory_class(self):
         return AtariDosDirectory
 
+    def get_stored_filename(self, filename):
+        basename, dot, ext = filename.partition(".")
+        basename, ext = basename[0:8].rstrip(), ext[0:3].rstrip()
+        return basename + "." + ext if ext else basename
+
     def __str__(self):
         return "%s Atari DOS Format: %d usable sectors (%d free), %d files" % (self.header, self.total_sectors, self.unused_sectors, len(self.files))
 
diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 9f607dc..f1c0e1b 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -96,6 +96,28 @@ class Bootable:
     def create_emulator_boot_segment(self):
         return ObjSegment(self.rawdata, 0, 0, 0)
 
+    # Executables and the like don't contain files
+
+    default_filetype = ""
+
+    def find_dirent(self, filename):
+        raise errors.FileNotFound("%s not found on disk" % str(filename))
+
+    def get_vtoc_object(self):
+        raise errors.UnsupportedDiskImage("No VTOC in %s" % self.__class__.__name__)
+
+    def create_executable_file_image(self, output_name, segments, run_addr=None):
+        raise errors.UnsupportedDiskImage("Can't store files in %s" % self.__class__.__name__)
+
+    def get_stored_filename(self, filename):
+        """Name the file will have in the directory, e.g. due to limits on its
+        length
+        """
+        return filename
+
+    def write_file(self, filename, filetype, data):
+        raise errors.UnsupportedDiskImage("Can't store files in %s" % self.__class__.__name__)
+
 
 class DiskImageBase(Bootable):
     default_executable_extension = None
diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index bc6afc1..2ba3158 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -398,6 +398,9 @@ class Dos33DiskImage(DiskImageBase):
         DiskImageBase.__init__(self, rawdata, filename)
         self.default_filetype = "B"
 
+    def get_stored_filename(self, filename):
+        return filename[0:30].rstrip()
+
     def __str__(self):
         return str(self.header)
 
-- 
2.43.0


From 790e26d392ea24e1dc552c62151a5a5b179a4014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:26 +0000
Subject: [PATCH 35/56] fix: use the arguments of all -s, -d and -b options

---
 atrcopy/__init__.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index dba5187..b11be0c 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -217,6 +217,11 @@ def crc_files(image, files):
             print("%s: %08x" % (dirent.filename, crc))
 
 
+def flatten_lists(lists):
+    """All arguments of an option that may be given more than once"""
+    return [item for sublist in lists or [] for item in sublist]
+
+
 def assemble_segments(source_files, data_files, obj_files, run_addr=""):
     if source_files:
         try:
@@ -624,9 +629,9 @@ def run():
     if command == "create":
         create_image(options.template[0], disk_image_name)
     elif command == "boot":
-        asm = options.asm[0] if options.asm else []
-        data = options.data[0] if options.data else []
-        obj = options.obj[0] if options.obj else []
+        asm = flatten_lists(options.asm)
+        data = flatten_lists(options.data)
+        obj = flatten_lists(options.obj)
         boot_image(disk_image_name, asm, data, obj, options.run_addr)
     else:
         try:
@@ -652,9 +657,9 @@ def run():
             elif command == "extract":
                 extract_files(parser.image, options.files)
             elif command == "assemble":
-                asm = options.asm[0] if options.asm else []
-                data = options.data[0] if options.data else []
-                obj = options.obj[0] if options.obj else []
+                asm = flatten_lists(options.asm)
+                data = flatten_lists(options.data)
+                obj = flatten_lists(options.obj)
                 assemble(parser.image, asm, data, obj, options.run_addr)
             elif command == "segments":
                 print("\n".join([str(a) for a in parser.segments]))
-- 
2.43.0


From cdf53c3f3515ea26e5b942fd0cc924972b9880f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:51 +0000
Subject: [PATCH 36/56] fix: read SpartaDOS files that use their sector map
 completely

---
 atrcopy/spartados.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 2ae40fd..6302bfb 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -97,6 +97,9 @@ class SpartaDosDirent(AtariDosDirent):
         self.length_remaining = self.length
 
     def read_sector(self, image):
+        # a sector map that is completely used has no terminating zero
+        if self.sector_map_index >= len(self.sector_map):
+            return None, True, 0, self.length_remaining
         sector = self.sector_map[self.sector_map_index]
         if sector == 0:
             return None, True, 0, self.length_remaining
-- 
2.43.0


From b47d46e883197e097f20368d75567f822e9c4f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:57 +0000
Subject: [PATCH 37/56] fix: don't list deleted files of SpartaDOS disks

---
 atrcopy/spartados.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 6302bfb..94915bb 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -195,7 +195,8 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         s = self.get_file_segment(d)
         for filenum, i in enumerate(range(23, d.length, 23)):
             dirent = SpartaDosDirent(self, filenum + 1, s[i:i + 23])
-            self.files.append(dirent)
+            if dirent.in_use:
+                self.files.append(dirent)
         self.root_dir_dirent = d
 
     def get_boot_segments(self):
-- 
2.43.0


From a383099039961dcb80c18e539c498035921ddec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:23 +0000
Subject: [PATCH 38/56] fix: don't overwrite the disk image with a file
 extracted from it

---
 atrcopy/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index b11be0c..c066d56 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -126,6 +126,9 @@ def extract_files(image, files):
             output = os.path.join(options.dir, output)
         if not options.dry_run:
             data = image.get_file(dirent)
+            if os.path.exists(output) and os.path.samefile(output, image.filename):
+                print("skipping %s, it is the disk image itself" % output)
+                continue
             if os.path.exists(output) and not options.force:
                 print("skipping %s, file exists. Use -f to overwrite" % output)
                 continue
-- 
2.43.0


From 15ed8a18dfe8f7cf901e28920115d8300ba17455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:22 +0000
Subject: [PATCH 39/56] fix: IndexError when detecting the type of truncated
 images

---
 atrcopy/magic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atrcopy/magic.py b/atrcopy/magic.py
index 324afda..5ffa719 100644
--- a/atrcopy/magic.py
+++ b/atrcopy/magic.py
@@ -53,7 +53,11 @@ magic = [
 
 def check_signature(raw, sig):
     for index, expected in sig:
-        actual = raw.data[index].tolist()
+        try:
+            actual = raw.data[index].tolist()
+        except IndexError:
+            log.debug(" no data at %s" % str(index))
+            return False
         if actual == expected:
             log.debug(" match at %s: %s" % (str(index), str(expected)))
         if actual != expected:
-- 
2.43.0


From b322e5230bce0668f8193ce2cce9355a74d1629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:02 +0000
Subject: [PATCH 40/56] fix: TypeError instead of an atrcopy error when
 modifying KBoot disks

---
 atrcopy/kboot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index 0e11a18..50bb91d 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -46,7 +46,9 @@ class KBootImage(AtariDosDiskImage):
     def get_vtoc(self):
         pass
 
-    def get_directory(self):
+    def get_directory(self, directory=None):
+        if directory is not None:
+            raise errors.UnsupportedDiskImage("Can't modify files of KBoot disk images")
         dirent = KBootDirent(self)
         if not dirent.is_sane:
             self.all_sane = False
-- 
2.43.0


From 57b559eb147bca64eebdcff6e52735c786580422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:03 +0000
Subject: [PATCH 41/56] fix: IndexError when the VTOC of a DOS 3.3 disk claims
 too many tracks

---
 atrcopy/dos33.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 2ba3158..3e1616b 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -463,7 +463,8 @@ class Dos33DiskImage(DiskImageBase):
         if self.header.sector_size != 256:
             log.warning(f"Nonstandard sector size {self.header.sector_size}; this is likely an error, setting to 256")
             self.header.sector_size = 256
-        self.header.max_sectors = int(values['num_tracks']) * int(values['sectors_per_track'])
+        # the disk can't have more sectors than the image, whatever the VTOC says
+        self.header.max_sectors = min(int(values['num_tracks']) * int(values['sectors_per_track']), self.size // self.header.sector_size)
         self.header.ts_pairs = int(values['max_pairs'])
         self.header.dos_release = values['dos_release']
         self.header.last_track_num = values['last_track']
-- 
2.43.0


From 5a3fa12e374e98c65b3ff5de9a3ffe051bf68bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:59 +0000
Subject: [PATCH 42/56] fix: AttributeError instead of an atrcopy error when
 adding files to cartridges

---
 atrcopy/diskimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index f1c0e1b..ba08623 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -157,7 +157,7 @@ class DiskImageBase(Bootable):
 
     @property
     def directory_class(self):
-        return Directory
+        raise errors.UnsupportedDiskImage("Can't store files in %s" % self.__class__.__name__)
 
     def set_filename(self, filename):
         if '.' in filename:
-- 
2.43.0


From 6b62d383389d597aaa1cf0e40a657b17567d8f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:40 +0000
Subject: [PATCH 43/56] fix: foreign errors for damaged SpartaDOS root
 directories

---
 atrcopy/spartados.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index 94915bb..12b5ee0 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -14,7 +14,7 @@ class SpartaDosDirent(AtariDosDirent):
         ('status', 'u1'),
         ('sector', '<u2'),
         ('len_l', '<u2'),
-        ('len_h', 'i1'),
+        ('len_h', 'u1'),
         ('filename','S8'),
         ('ext','S3'),
         ('date','S3'),
@@ -70,7 +70,7 @@ class SpartaDosDirent(AtariDosDirent):
             self.ext = b""
         else:
             self.ext = bytes(values[5]).rstrip()
-        self.length = 256*256*values[3] + values[2]
+        self.length = 256*256*int(values[3]) + int(values[2])
         self.date_array = tuple(data[17:20])
         self.time_array = tuple(data[20:23])
         self.is_sane = self.sanity_check(image)
@@ -175,7 +175,7 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         self.total_sectors = values['num_sectors']
         self.unused_sectors = values['num_free']
         num = self.header.max_sectors
-        self.is_sane = self.total_sectors == num and values['first_free'] <= num and self.first_bitmap <= num and self.root_dir <= num and self.fs_version in [0x11, 0x20, 0x21] and self.sector_size != -1
+        self.is_sane = self.total_sectors == num and values['first_free'] <= num and self.first_bitmap <= num and 0 < self.root_dir <= num and self.fs_version in [0x11, 0x20, 0x21] and self.sector_size != -1
         if not self.is_sane:
             raise errors.InvalidDiskImage("Invalid SpartaDos parameters in boot header")
 
@@ -189,11 +189,12 @@ class SpartaDosDiskImage(AtariDosDiskImage):
         dir_map = self.get_sector_map(self.root_dir)
         sector = dir_map[0]
         if sector == 0:
-            return
+            raise errors.InvalidDiskImage("No SpartaDos root directory")
         bytes, pos, size = self.get_raw_bytes(sector)
         d = SpartaDosDirent(self, 0, bytes[0:23], starting_sector=self.root_dir)
         s = self.get_file_segment(d)
-        for filenum, i in enumerate(range(23, d.length, 23)):
+        # ignore incomplete entries if the directory is shorter than it claims
+        for filenum, i in enumerate(range(23, min(d.length, len(s)) - 22, 23)):
             dirent = SpartaDosDirent(self, filenum + 1, s[i:i + 23])
             if dirent.in_use:
                 self.files.append(dirent)
-- 
2.43.0


From e55358b749bef4cde38b024cce0e3fca91c87a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:09 +0000
Subject: [PATCH 44/56] fix: deleting DOS 3.3 files freed the boot sector or
 failed with IndexError

---
 atrcopy/dos33.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 3e1616b..391af54 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -324,6 +324,10 @@ class Dos33Dirent(Dirent):
         sectors = BaseSectorList(image.header)
         sectors.extend(self.track_sector_list)
         for sector_num in self.sector_map:
+            if sector_num == 0:
+                # hole in a sparse file, not the boot sector
+                continue
+            image.assert_valid_sector(sector_num)
             sector = WriteableSector(image.header.sector_size, None, sector_num)
             sectors.append(sector)
         return sectors
@@ -466,6 +470,9 @@ class Dos33DiskImage(DiskImageBase):
         # the disk can't have more sectors than the image, whatever the VTOC says
         self.header.max_sectors = min(int(values['num_tracks']) * int(values['sectors_per_track']), self.size // self.header.sector_size)
         self.header.ts_pairs = int(values['max_pairs'])
+        if not 0 < self.header.ts_pairs <= 122:
+            log.warning(f"Invalid number of track/sector pairs {self.header.ts_pairs}; setting to 122")
+            self.header.ts_pairs = 122
         self.header.dos_release = values['dos_release']
         self.header.last_track_num = values['last_track']
         self.header.track_alloc_dir = values['track_dir']
-- 
2.43.0


From d5c4bc63d7aa33bf9b29fed1221667207d412abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:02 +0000
Subject: [PATCH 45/56] fix: ValueError when the VTOC of a double density disk
 has free boot sectors

---
 atrcopy/diskimages.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index ba08623..b9a78f4 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -402,6 +402,9 @@ class DiskImageBase(Bootable):
         for sector in sector_list:
             pos, size = self.header.get_pos(sector.sector_num)
             if _xd: log.debug("writing: %s at %d" % (sector, pos))
+            if size != len(sector.data):
+                # e.g. boot sector of a double density disk marked as free
+                raise errors.InvalidDiskImage("Sector %d can't be used for %d bytes" % (sector.sector_num, len(sector.data)))
             self.bytes[pos:pos + size] = sector.data
 
     def delete_file(self, filename):
-- 
2.43.0


From 3d87d1a2adbc08afa8374bc55e7db65ea3239b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:10 +0000
Subject: [PATCH 46/56] fix: report sectors with impossible byte counts instead
 of reading the following sector

---
 atrcopy/ataridos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 90f848c..0532f90 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -264,6 +264,8 @@ class AtariDosDirent(Dirent):
             raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
         self.current_sector = next_sector
         num_bytes = raw[-1]
+        if num_bytes > len(raw) - 3:
+            raise errors.InvalidFile("Bad sector data: %d bytes don't fit in a sector" % num_bytes)
         return raw[0:num_bytes], num_bytes
 
     def set_values(self, filename, filetype, index):
@@ -292,6 +294,8 @@ class MydosDirent(AtariDosDirent):
             raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
         self.current_sector = next_sector
         num_bytes = raw[-1]
+        if num_bytes > len(raw) - 3:
+            raise errors.InvalidFile("Bad sector data: %d bytes don't fit in a sector" % num_bytes)
         return raw[0:num_bytes], num_bytes
 
 
-- 
2.43.0


From 26c3beae942978de4cbf7958cba8a73770253484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:12 +0000
Subject: [PATCH 47/56] fix: refuse segments starting at $ffff in Atari
 executables

---
 atrcopy/executables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/executables.py b/atrcopy/executables.py
index e53b5b9..d94ed24 100644
--- a/atrcopy/executables.py
+++ b/atrcopy/executables.py
@@ -33,6 +33,9 @@ def get_xex(segments, run_addr=None):
     runad = False
     for s in segments:
         total += 4 + len(s)
+        if s.origin == 0xffff:
+            # would be taken as the $ffff header
+            raise errors.InvalidBinaryFile("Segment can't start at $ffff")
         if s.origin == 0x2e0:
             runad = True
     if not runad:
-- 
2.43.0


From dad482d1eb472574aa329dd8b99279d662648290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:35 +0000
Subject: [PATCH 48/56] fix: run address zero was taken as not specified

---
 atrcopy/__init__.py          | 2 ++
 atrcopy/executables.py       | 4 ++--
 atrcopy/standard_delivery.py | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index c066d56..cc173d0 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -296,6 +296,8 @@ def assemble_segments(source_files, data_files, obj_files, run_addr=""):
                 run_addr = int(run_addr)
             except ValueError:
                 raise errors.AtrError("Invalid run address %s" % run_addr)
+    else:
+        run_addr = None
 
     return segments, run_addr
 
diff --git a/atrcopy/executables.py b/atrcopy/executables.py
index d94ed24..e1e60d0 100644
--- a/atrcopy/executables.py
+++ b/atrcopy/executables.py
@@ -40,7 +40,7 @@ def get_xex(segments, run_addr=None):
             runad = True
     if not runad:
         words = np.empty([1], dtype='<u2')
-        if run_addr:
+        if run_addr is not None:
             found = False
             for s in segments:
                 if run_addr >= s.origin and run_addr < s.origin + len(s):
@@ -89,7 +89,7 @@ def get_bsave(segments, run_addr=None):
         origin = min(origin, s.origin)
         last = max(last, s.origin + len(s))
         if _xd: log.debug("contiguous bytes needed: %04x - %04x" % (origin, last))
-    if run_addr and run_addr != origin:
+    if run_addr is not None and run_addr != origin:
         # check if run_addr points to some location that has data
         found = False
         for s in segments:
diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index 42a0cf0..ff2f9f2 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -68,7 +68,7 @@ class StandardDeliveryImage(DiskImageBase):
         raw = SegmentData(np.zeros([143360], dtype=np.uint8))
         dsk = cls(raw, create=True)
         check_segments(segments)
-        if not run_addr:
+        if run_addr is None:
             run_addr = segments[0].origin
         if run_addr < 0 or run_addr > 0xffff:
             raise errors.InvalidBinaryFile("Run address outside of 64k address space")
-- 
2.43.0


From ebc1f6a2203ae588adad44131ef7a8325261c1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:51 +0000
Subject: [PATCH 49/56] fix: don't take images starting with zeros as LZMA
 files

---
 atrcopy/container.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/container.py b/atrcopy/container.py
index 716c231..8b6bcd8 100644
--- a/atrcopy/container.py
+++ b/atrcopy/container.py
@@ -78,6 +78,10 @@ class BZipContainer(DiskImageContainer):
 
 class LZMAContainer(DiskImageContainer):
     def unpack_bytes(self, byte_data):
+        if byte_data[5:13] == b'\0' * 8:
+            # zeros at the start of an uncompressed image would be skipped as
+            # headers of empty LZMA files
+            raise errors.InvalidContainer("Empty LZMA file")
         try:
             buf = io.BytesIO(byte_data)
             with lzma.LZMAFile(buf, mode='rb') as f:
-- 
2.43.0


From 2177635609dab0d0e1fba76718f805be2e921bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:27 +0000
Subject: [PATCH 50/56] fix: a damaged stream in a multi-stream bzip2 or xz
 file is reported, not dropped

BZ2File and LZMAFile take a stream after the first that can't be decoded as
trailing garbage, so part of a damaged image was presented as all of it.
---
 atrcopy/container.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/atrcopy/container.py b/atrcopy/container.py
index 8b6bcd8..b00a11e 100644
--- a/atrcopy/container.py
+++ b/atrcopy/container.py
@@ -11,6 +11,23 @@ from .segments import SegmentData
 from .utils import to_numpy
 
 
+def unpack_streams(decompressor_class, byte_data):
+    """Unpack everything in a file that may consist of several compressed
+    streams.
+
+    The file objects of the bz2 and lzma modules take a damaged stream after
+    the first one as garbage to be ignored, and return incomplete data.
+    """
+    unpacked = []
+    while byte_data:
+        decompressor = decompressor_class()
+        unpacked.append(decompressor.decompress(byte_data))
+        if not decompressor.eof:
+            raise EOFError("Compressed file ended before the end-of-stream marker was reached")
+        byte_data = decompressor.unused_data.lstrip(b'\0')  # padding is allowed
+    return b''.join(unpacked)
+
+
 class DiskImageContainer:
     """Unpacker for disk image compression.
 
@@ -68,9 +85,7 @@ class GZipContainer(DiskImageContainer):
 class BZipContainer(DiskImageContainer):
     def unpack_bytes(self, byte_data):
         try:
-            buf = io.BytesIO(byte_data)
-            with bz2.BZ2File(buf, mode='rb') as f:
-                unpacked = f.read()
+            unpacked = unpack_streams(bz2.BZ2Decompressor, byte_data)
         except OSError as e:
             raise errors.InvalidContainer(e)
         return unpacked
@@ -83,9 +98,7 @@ class LZMAContainer(DiskImageContainer):
             # headers of empty LZMA files
             raise errors.InvalidContainer("Empty LZMA file")
         try:
-            buf = io.BytesIO(byte_data)
-            with lzma.LZMAFile(buf, mode='rb') as f:
-                unpacked = f.read()
+            unpacked = unpack_streams(lzma.LZMADecompressor, byte_data)
         except lzma.LZMAError as e:
             raise errors.InvalidContainer(e)
         return unpacked
-- 
2.43.0


From 3ab52b32152a974f57a67ed6655f9f4786ae5638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:27 +0000
Subject: [PATCH 51/56] fix: comments of a non-contiguous segment could not be
 iterated or copied

The last raw index was looked up one beyond the end of the index list, and
the range from the first to the last position is not what is in the segment.
---
 atrcopy/segments.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 5f0b7ec..cbdd70e 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1052,12 +1052,12 @@ class DefaultSegment:
         return sorted([[k, v] for k, v in self.rawdata.extra.comments.items()])
 
     def iter_comments_in_segment(self):
-        start = self.origin
-        start_index = self.get_raw_index(0)
-        end_index = self.get_raw_index(len(self.rawdata))
-        for k, v in self.rawdata.extra.comments.items():
-            if k >= start_index and k < end_index:
-                yield self.rawdata.get_reverse_index(k), v
+        for k, v in list(self.rawdata.extra.comments.items()):
+            try:
+                index = self.get_index_from_base_index(k)
+            except IndexError:
+                continue
+            yield index, v
 
     def copy_user_data(self, source, index_offset=0):
         """Copy comments and other user data from the source segment to this
-- 
2.43.0


From 551d0d73bb79b5129b74a36659d97b02367c01a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:50 +0000
Subject: [PATCH 52/56] fix: interleaving non-contiguous segments failed

---
 atrcopy/segments.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index cbdd70e..50a4083 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -295,7 +295,7 @@ class SegmentData:
         indexed.
         """
         if self.is_indexed:
-            return np.copy(self.order[i])
+            return np.copy(self.order)
         if self.data.base is None:
             i = 0
         else:
@@ -333,13 +333,7 @@ class SegmentData:
         return copy
 
     def get_bases(self):
-        if self.data.base is None:
-            data_base = self.data
-            style_base = self.style
-        else:
-            data_base = self.data.base
-            style_base = self.style.base
-        return data_base, style_base
+        return self.data_base, self.style_base
 
     def get_indexed(self, index):
         index = to_numpy_list(index)
-- 
2.43.0


From d3dfa949ecbd1e57e8fa6e25d1b7dd83939f5e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:58 +0000
Subject: [PATCH 53/56] fix: an empty non-contiguous segment was restored as
 the whole image

---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 50a4083..88dcbc0 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -530,7 +530,7 @@ class DefaultSegment:
         r = rawdata[start:end]
         delattr(self, '_rawdata_bounds')
         try:
-            if self._order_list:
+            if self._order_list is not None:
                 order = to_numpy_list(self._order_list)
                 r = r.get_indexed(order)
                 delattr(self, '_order_list')
-- 
2.43.0


From 2f7cbdb1802a69a801252342824700dfb32bf4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:45 +0000
Subject: [PATCH 54/56] fix: saving an image of another user kept its contents
 but not its owner

---
 atrcopy/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index 5aaf838..c886ea9 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -57,19 +57,25 @@ def write_local_file(filename, data, overwrite=True):
             return
         if not os.access(path, os.W_OK):
             raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), filename)
-        mode = stat.S_IMODE(os.stat(path).st_mode)
+        st = os.stat(path)
+        mode, owner = stat.S_IMODE(st.st_mode), (st.st_uid, st.st_gid)
     else:
         if not overwrite and os.path.lexists(filename):
             raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), filename)
         umask = os.umask(0o077)
         os.umask(umask)
-        mode = 0o666 & ~umask
+        mode, owner = 0o666 & ~umask, None
     fd, temp = tempfile.mkstemp(prefix=".atrcopy-", suffix=".tmp", dir=os.path.dirname(path))
     try:
         with os.fdopen(fd, "wb") as fh:
             fh.write(data)
             fh.flush()
             os.fsync(fd)
+        if owner is not None and hasattr(os, "chown"):
+            try:
+                os.chown(temp, *owner)
+            except OSError:
+                pass  # only a privileged user can keep another owner
         os.chmod(temp, mode)
         if overwrite:
             os.replace(temp, path)
-- 
2.43.0


From b66ac333cefdede27b253c886f76de3e0447da7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:17 +0000
Subject: [PATCH 55/56] fix: create failed if another process replaced the new
 image at once

---
 atrcopy/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index cc173d0..1340ddd 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -432,7 +432,8 @@ def create_image(template, name):
         except FileExistsError:
             print("skipping %s, use -f to overwrite" % (name))
         else:
-            parser, _ = find_diskimage(name, options.verbose)
+            # not from the file, which another process may have replaced already
+            parser, _ = find_diskimage_from_data(data, options.verbose)
             print("created %s: %s" % (name, str(parser.image)))
             list_files(parser.image, [])
     else:
-- 
2.43.0


From bade04bd965259ee341684ae158f8fa2f77c86f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:32 +0000
Subject: [PATCH 56/56] fix: an ATR header with a sector size below 128 caused
 a foreign error

---
 atrcopy/ataridos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 0532f90..10c477c 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -457,6 +457,8 @@ class AtrHeader(BaseHeader):
             self.initial_sector_size = 128
             self.num_initial_sectors = 3
         else:
+            if self.sector_size < 128:
+                raise errors.InvalidDiskImage("Invalid sector size %d in header" % self.sector_size)
             self.image_size = size
         self.first_vtoc = 360
         self.num_vtoc = 1
-- 
2.43.0

