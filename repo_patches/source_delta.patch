From cf64226b7aab150f0e1799ec67c99d1e93a181a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 01/34] fix: iterating a File yields its datasets instead of
 raising TypeError

---
 freesif/data/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index d136794..b3b8b51 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -159,7 +159,7 @@ class File(object):
         return s
 
     def __iter__(self):  # NOT dict behaviour! values instead of keys
-        return self.values()
+        return iter(self.values())
 
     def _check_isopen(self):
         if not self._isopen:
-- 
2.43.0


From cf182579627be7a2b57a411d5a852da863a29527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 02/34] fix: repr() of a File with more than one dataset

---
 freesif/data/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index b3b8b51..3430118 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -154,7 +154,7 @@ class File(object):
             return '<Closed File object>'
 
         s = ''
-        for d in sorted(self._data.values()):
+        for _, d in sorted(self._data.items()):
             s += '{!r}\n'.format(d)
         return s
 
-- 
2.43.0


From 5e5997ad801620c6172289af561c3022e390f50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 03/34] fix: close_all_files() modified the set of open files
 while iterating it

---
 freesif/data/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 3430118..b9dcfa4 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -44,7 +44,7 @@ def open_sif(filename):
 
 def close_all_files():
     global _open_files
-    for f in _open_files:
+    for f in list(_open_files):
         f.close()
     _open_files = set()
 
-- 
2.43.0


From 0b5769077ff6d7d5807f11cc58bbb182514599cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 04/34] fix: disconnected node results of a model with nodes
 not used by any element

---
 freesif/data/strucdata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index a279c34..139fa65 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -570,7 +570,8 @@ class FirstLevelData(StrucData):
         # disconnect
         if disconnected:
             indices = self._get_nodeindices(sets, kind, disconnected)
-            indices = self._update_connectivity(indices)
+            if sets or kind:
+                indices = self._update_connectivity(indices)
             axis = 0 if nres == 1 else 1
             return data.take(indices, axis=axis)
 
-- 
2.43.0


From 73a3c728bb5c7e2994f49b1bef05035ce1deef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 05/34] fix: read all values of complex node results

---
 freesif/sequentialparser/parsers.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index a1b33bd..a3eedda 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1887,9 +1887,9 @@ atoms['RVNODACC'] = [('acc', tb.Float32Atom(), ())]
 atoms['RVNODDIS'] = [('dis', tb.Float32Atom(), ())]
 atoms['RVNODVEL'] = [('vel', tb.Float32Atom(), ())]
 
-# each row in a 'rvnodres' vlarray will have nres 32-bit floats, where
-# nres = (nfield - 5) / (icompl + 1). If results are complex the dtype should
-# be changed from float32 to complex64 before use
+# each row in a 'rvnodres' vlarray will have nfield - 5 32-bit floats. If
+# results are complex the dtype should be changed from float32 to complex64
+# before use
 
 
 def rvnodres_reader(rec_name, rec, in_file, out_file):
@@ -1903,11 +1903,8 @@ def rvnodres_reader(rec_name, rec, in_file, out_file):
 
         rec += in_file.read_floats(1)
         nfield = int(rec[0])
-        ires = int(rec[1])
-        icompl = rdresref_data[ires]
-        nres = (nfield - 5) // (icompl + 1)
 
-        res.add(in_file.read_floats(nres))
+        res.add(in_file.read_floats(nfield - 5))
         recs.add(rec)
 
         rec_name, rec = in_file.read_headerrec()
-- 
2.43.0


From f0374ba53ac0324d6859b5ea4a14585f668d6114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 06/34] fix: store fractional shear factors and GCHANR radius
 of section records

---
 freesif/sequentialparser/parsers.py | 42 ++++++++++++++---------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index a3eedda..f234b2b 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1009,8 +1009,8 @@ class GBOX_rec(tb.IsDescription):
     t_b = tb.Float32Col(pos=3)
     tt = tb.Float32Col(pos=4)
     by = tb.Float32Col(pos=5)
-    sfy = tb.Int32Col(pos=6)
-    sfz = tb.Int32Col(pos=7)
+    sfy = tb.Float32Col(pos=6)
+    sfz = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
 
@@ -1026,8 +1026,8 @@ class GCHAN_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     empty = tb.Int32Col(pos=7)
     k = tb.Int32Col(pos=8)
     nloby = tb.Int32Col(pos=9)
@@ -1045,11 +1045,11 @@ class GCHANR_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     empty = tb.Int32Col(pos=7)
     k = tb.Int32Col(pos=8)
-    r = tb.Int32Col(pos=9)
+    r = tb.Float32Col(pos=9)
     nloby = tb.Int32Col(pos=10)
     nlobz = tb.Int32Col(pos=11)
 
@@ -1066,8 +1066,8 @@ class GDOBO_rec(tb.IsDescription):
     by = tb.Float32Col(pos=3)
     tt = tb.Float32Col(pos=4)
     t_b = tb.Float32Col(pos=5)
-    sfy = tb.Int32Col(pos=6)
-    sfz = tb.Int32Col(pos=7)
+    sfy = tb.Float32Col(pos=6)
+    sfz = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
 
@@ -1085,8 +1085,8 @@ class GIORH_rec(tb.IsDescription):
     tt = tb.Float32Col(pos=4)
     bb = tb.Float32Col(pos=5)
     t_b = tb.Float32Col(pos=6)
-    sfy = tb.Int32Col(pos=7)
-    sfz = tb.Int32Col(pos=8)
+    sfy = tb.Float32Col(pos=7)
+    sfz = tb.Float32Col(pos=8)
     nlobyt = tb.Int32Col(pos=9)
     nlobyb = tb.Int32Col(pos=10)
     nlobz = tb.Int32Col(pos=11)
@@ -1105,8 +1105,8 @@ class GIORHR_rec(tb.IsDescription):
     tt = tb.Float32Col(pos=4)
     bb = tb.Float32Col(pos=5)
     t_b = tb.Float32Col(pos=6)
-    sfy = tb.Int32Col(pos=7)
-    sfz = tb.Int32Col(pos=8)
+    sfy = tb.Float32Col(pos=7)
+    sfz = tb.Float32Col(pos=8)
     rt = tb.Float32Col(pos=9)
     rb = tb.Float32Col(pos=10)
     nlobyt = tb.Int32Col(pos=11)
@@ -1125,8 +1125,8 @@ class GLSEC_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     k = tb.Float32Col(pos=7)
     nloby = tb.Int32Col(pos=8)
     nlobz = tb.Int32Col(pos=9)
@@ -1143,8 +1143,8 @@ class GLSECR_rec(tb.IsDescription):
     ty = tb.Float32Col(pos=2)
     by = tb.Float32Col(pos=3)
     tz = tb.Float32Col(pos=4)
-    sfy = tb.Int32Col(pos=5)
-    sfz = tb.Int32Col(pos=6)
+    sfy = tb.Float32Col(pos=5)
+    sfz = tb.Float32Col(pos=6)
     k = tb.Float32Col(pos=7)
     r = tb.Float32Col(pos=8)
     nloby = tb.Int32Col(pos=9)
@@ -1161,8 +1161,8 @@ class GPIPE_rec(tb.IsDescription):
     di = tb.Float32Col(pos=1)
     dy = tb.Float32Col(pos=2)
     t = tb.Float32Col(pos=3)
-    sfy = tb.Int32Col(pos=4)
-    sfz = tb.Int32Col(pos=5)
+    sfy = tb.Float32Col(pos=4)
+    sfz = tb.Float32Col(pos=5)
     ncir = tb.Int32Col(pos=6)
     nrad = tb.Int32Col(pos=7)
 
@@ -1182,8 +1182,8 @@ class GUSYI_rec(tb.IsDescription):
     bb = tb.Float32Col(pos=6)
     b2 = tb.Float32Col(pos=7)
     t_b = tb.Float32Col(pos=8)
-    sfy = tb.Int32Col(pos=9)
-    sfz = tb.Int32Col(pos=10)
+    sfy = tb.Float32Col(pos=9)
+    sfz = tb.Float32Col(pos=10)
     nlobyt = tb.Int32Col(pos=11)
     nlobyb = tb.Int32Col(pos=12)
     nlobz = tb.Int32Col(pos=13)
-- 
2.43.0


From ecb3cae0a39540211f13b7629b5cf5bd453b76a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 07/34] fix: GIORHR records without the optional fields
 consumed the next record

---
 freesif/sequentialparser/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index f234b2b..4c898f3 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -1114,7 +1114,7 @@ class GIORHR_rec(tb.IsDescription):
     nlobz = tb.Int32Col(pos=13)
 
 descriptors['GIORHR'] = GIORHR_rec
-readers['GIORHR'] = reader_optionalfields('GIORHR', GIORHR_rec, 8, 3)
+readers['GIORHR'] = reader_optionalfields('GIORHR', GIORHR_rec, 8, 2)
 
 
 # ---GLSEC------------------------------------------------------------------- #
-- 
2.43.0


From 557abbc9c51d1aac0b90526b42f6d34828ed7c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 08/34] fix: record names missing from or misspelled in the
 table of known records

---
 freesif/sequentialparser/sequentialfiles.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 85d2aa5..eb3f805 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -36,12 +36,13 @@ allowed_record_names_str = set([
 'RSUMMASS', 'RSUMREAC', 'RSUPTRAN', 'RVABSCIS', 'RVELNFOR', 'RVFORCES',
 'RVNODACC', 'RVNODDIS', 'RVNODVEL', 'RVNODREA', 'RVORDINA', 'RVSTRAIN',
 'RVSTRESS', 'TNODE', 'TELEMENT', 'TDRESREF', 'TDSERIES', 'TDSUPNAM',
-'W1EXFORC', 'W1MATRIX', 'WIMOTION','WISFORCE', 'W2EXFDIF', 'W2EXFSUM',
-'W2FLUDIF', 'W2FLUSUM', 'W2HDRIFT', 'W2MDRIFI', 'WBODCON', 'WBODY', 'WDRESREF',
+'W1EXFORC', 'W1MATRIX', 'W1MOTION', 'W1SFORCE', 'W2EXFDIF', 'W2EXFSUM',
+'W2FLUDIF', 'W2FLUSUM', 'W2HDRIFT', 'W2MDRIFT', 'WBODCON', 'WBODY', 'WDRESREF',
 'WFKPOINT', 'WFLUIDKN', 'WGLOBDEF', 'WGRESPON', 'WSCATTER', 'WSECTION',
 'WSURFACE', 'TDBODNAM', 'TDRSNAM', 'TDSCATTER', 'TDSCONC', 'SCONCEPT',
 'SCONMESH', 'SCONPLIS', 'SPROSELE', 'SPROMATR', 'SPROSEGM', 'SPROHYDR',
-'SPROCODE', 'SPROORIE', 'SPROECCE', 'SPROPILE', 'SPROSOIL', 'IRECSIZE', 'W1PANPRE'])
+'SPROCODE', 'SPROORIE', 'SPROECCE', 'SPROPILE', 'SPROSOIL', 'IRECSIZE', 'W1PANPRE',
+'TDLOAD', 'WINPUT'])
 
 allowed_record_names_b = set([
 b'DATE', b'IDENT', b'IEND', b'TDMATER', b'TDSECT', b'TDSETNAM', b'TDSUPNAM',
@@ -68,12 +69,13 @@ b'RDRESREF', b'RDSERIES', b'RDSTRAIN', b'RDSTRESS', b'RDTRANS', b'RSUMLOAD',
 b'RSUMMASS', b'RSUMREAC', b'RSUPTRAN', b'RVABSCIS', b'RVELNFOR', b'RVFORCES',
 b'RVNODACC', b'RVNODDIS', b'RVNODVEL', b'RVNODREA', b'RVORDINA', b'RVSTRAIN',
 b'RVSTRESS', b'TNODE', b'TELEMENT', b'TDRESREF', b'TDSERIES', b'TDSUPNAM',
-b'W1EXFORC', b'W1MATRIX', b'WIMOTION','WISFORCE', b'W2EXFDIF', b'W2EXFSUM',
-b'W2FLUDIF', b'W2FLUSUM', b'W2HDRIFT', b'W2MDRIFI', b'WBODCON', b'WBODY', b'WDRESREF',
+b'W1EXFORC', b'W1MATRIX', b'W1MOTION', b'W1SFORCE', b'W2EXFDIF', b'W2EXFSUM',
+b'W2FLUDIF', b'W2FLUSUM', b'W2HDRIFT', b'W2MDRIFT', b'WBODCON', b'WBODY', b'WDRESREF',
 b'WFKPOINT', b'WFLUIDKN', b'WGLOBDEF', b'WGRESPON', b'WSCATTER', b'WSECTION',
 b'WSURFACE', b'TDBODNAM', b'TDRSNAM', b'TDSCATTER', b'TDSCONC', b'SCONCEPT',
 b'SCONMESH', b'SCONPLIS', b'SPROSELE', b'SPROMATR', b'SPROSEGM', b'SPROHYDR',
-b'SPROCODE', b'SPROORIE', b'SPROECCE', b'SPROPILE', b'SPROSOIL', b'IRECSIZE', b'W1PANPRE'])
+b'SPROCODE', b'SPROORIE', b'SPROECCE', b'SPROPILE', b'SPROSOIL', b'IRECSIZE', b'W1PANPRE',
+b'TDLOAD', b'WINPUT'])
 
 
 class SequentialFile(object):
-- 
2.43.0


From f1eccb2b0444a1352774aad2798f421f617bc4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 09/34] fix: superelements of an assembly lost the reference to
 their top level data

---
 freesif/data/file.py      | 4 ++--
 freesif/data/strucdata.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index b9dcfa4..5493760 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -104,10 +104,10 @@ class File(object):
                 level = subgr._f_getattr('LEVEL')
                 key = gr._v_name + '/' + subgr._v_name
                 if level == 'INTERLEVEL':
-                    self._data[key] = InterLevelData(subgr, data)
+                    self._data[key] = InterLevelData(subgr, self, data)
 
                 elif level == 'FIRSTLEVEL':
-                    self._data[key] = FirstLevelData(subgr, data)
+                    self._data[key] = FirstLevelData(subgr, self, data)
 
         _open_files.add(self)
         self._isopen = True
diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 139fa65..a1bba74 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -321,8 +321,8 @@ class FirstLevelData(StrucData):
             [ 0. ,  0. ,  0. ,  0. ,  1.5,  0. ,  0. ,  0. ,  0. ,  0. ]])
 
 
-    def __init__(self, tbgroup, toplevel=None):
-        super(FirstLevelData, self).__init__(tbgroup, toplevel)
+    def __init__(self, tbgroup, fileinstance=None, toplevel=None):
+        super(FirstLevelData, self).__init__(tbgroup, fileinstance, toplevel)
         if self._filetype == 'R':
             self._index = tbgroup._f_getattr('INDEX')
 
@@ -461,6 +461,8 @@ class FirstLevelData(StrucData):
                     raise ValueError(
                         'Transformation matrix must have shape (4,4), got '
                         '({},{})'.format(*trans.shape))
+            elif self._has_record('rsuptran') and trans=='top':
+                trans = self._get_record('rsuptran')[0]['t']
             elif self._toplevel:
                 if isinstance(trans, str):
                     if trans == 'top':
@@ -471,8 +473,6 @@ class FirstLevelData(StrucData):
                 elif isinstance(trans, int):
                     trans = self._toplevel.get_transformation(self._seltyp,
                                                               index, trans)
-            elif self._has_record('rsuptran') and trans=='top':
-                trans = self._get_record('rsuptran')[0]['t']
             else:
                 raise HierarchyError(
                     '{0}: No transformation data for trans={1}. {0} has no '
-- 
2.43.0


From f043f0d20b0739e9b06b86eae81eb887ca9bc087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:14 +0000
Subject: [PATCH 10/34] fix: writing of formatted files

---
 freesif/sequentialparser/sequentialfiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index eb3f805..4d4ca24 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -354,7 +354,7 @@ class FormattedFile(SequentialFile):
             # self.write(' '*self.float_places_left*16 + '\n')
             self.f.write('\n')
 
-        self.write('{:<8}'.format(header))
+        self.f.write('{:<8}'.format(header))
         for f in rec:
             self.f.write('{:>16.8e}'.format(f))
 
@@ -365,6 +365,7 @@ class FormattedFile(SequentialFile):
     def write_string(self, string, leading_blanks=8):
         if self.float_places_left:
             self.f.write('\n')
+            self.float_places_left = 0
 
         self.f.write(' '*leading_blanks + string + '\n')
 
-- 
2.43.0


From 7508bcea3e45379c175ce055ed674f06a6c7aff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 11/34] fix: file names with a lower case file type letter or
 extension

---
 freesif/data/helpers.py              | 2 +-
 freesif/sequentialparser/sif2hdf5.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/freesif/data/helpers.py b/freesif/data/helpers.py
index b0dde68..7bab50d 100644
--- a/freesif/data/helpers.py
+++ b/freesif/data/helpers.py
@@ -43,4 +43,4 @@ def parse_sifname(filename):
         raise ValueError('{} is not a valid SESAM file name.'.format(fname))
 
     d = match.groupdict()
-    return d['prefix'], d['letter'], d['selno'], d['ext']
+    return d['prefix'], d['letter'].upper(), d['selno'], d['ext']
diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index d2b8070..6b3f56b 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -188,7 +188,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
 
     groupdict = match.groupdict()
     fileprefix = groupdict['prefix']
-    letter = groupdict['letter']
+    letter = groupdict['letter'].upper()
     extension = groupdict['ext']
 
     if extension.upper() == 'SIN':
@@ -256,7 +256,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
         # generate candidate file names
         fnames = []
         ihref = []
-        if extension in ('SIF', 'SIU'):  # structural results files
+        if extension.upper() in ('SIF', 'SIU'):  # structural results files
             for r in hierarch_table[1:]:
                 if r['islevl'] == 1:  # 1st level
                     fnames.append(fileprefix +
-- 
2.43.0


From 0d6722203a400cee7ee22dbe78e67f091d7213bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:37 +0000
Subject: [PATCH 12/34] fix: conversion with 'only' of unformatted files needs
 not list IEND

---
 freesif/sequentialparser/parsers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 4c898f3..f82ae73 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -449,7 +449,8 @@ def parse_file(in_file, out_file, only=None):
 
     if only:
         while rec_name:
-            if rec_name in only:
+            # IEND is needed in order to stop at the end of the file
+            if rec_name in only or rec_name == 'IEND':
                 rec_name, rec = general_parser(rec_name, rec, in_file,
                                                   out_file)
             else:
-- 
2.43.0


From 08129862432be71628866a903eb4a44cf7b5bb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:08 +0000
Subject: [PATCH 13/34] fix: forget element types of the previous file when a
 file is read

---
 freesif/sequentialparser/parsers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index f82ae73..b422e8e 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -107,6 +107,7 @@ record_count = {}
 
 # Dict to hold element type info
 # element_data[elno] = eltyp
+# (should be reset for each in_file)
 elem_data = {}
 
 # Dict to (temporary) hold nlay, nok, noj, noi from the RDPOINTS record.
@@ -139,7 +140,7 @@ def reset(reset_toplevel=True):
     global rec_size, current_ihref, current_seltyp, tables, record_names, \
         rdpoints_data, nsp_data, rdresref_data, lenrec_data, has_hierarch, \
         hierarch_table, record_count, attoplevel, filetypeid, current_indsel, \
-        current_hrec, hierarch_ihsref, toplevel_hrec
+        current_hrec, hierarch_ihsref, toplevel_hrec, elem_data
 
     rec_size = 1024
     current_ihref = None
@@ -149,6 +150,7 @@ def reset(reset_toplevel=True):
     attoplevel = False
     tables = {}
     record_names = []
+    elem_data = {}
     rdpoints_data = {}
     nsp_data = {}
     rdresref_data = {}
-- 
2.43.0


From 194c1312aba0b7b45bc6cdf30b8631cdc300e2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 14/34] fix: close the files of a conversion that fails

---
 freesif/sequentialparser/sif2hdf5.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 6b3f56b..028763e 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -11,6 +11,18 @@ from . import parsers
 from .sequentialfiles import FormattedFile, UnformattedFile
 
 
+def _parse_file(in_file, out_file, only):
+    """Parse and close in_file. out_file is closed if in_file cannot be parsed.
+    """
+    try:
+        parsers.parse_file(in_file, out_file, only)
+    except BaseException:
+        out_file.close()
+        raise
+    finally:
+        in_file.close()
+
+
 def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
             prefix='', only=None, in_memory=False):
 
@@ -235,8 +247,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     parsers.set_filetypeid(filetypeid)
 
     # parse first file
-    parsers.parse_file(in_file, out_file, only)
-    in_file.close()
+    _parse_file(in_file, out_file, only)
 
     # parse additional lower level files
 
@@ -288,8 +299,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
 
                 parsers.reset(reset_toplevel=False)
                 parsers.set_current_ihref(ihref[i])
-                parsers.parse_file(in_file, out_file, only)
-                in_file.close()
+                _parse_file(in_file, out_file, only)
 
             else:
                 print('file not found: ' + fname)
-- 
2.43.0


From c64f8aabb9133a0e8592626c7def9ada23e5d430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:21 +0000
Subject: [PATCH 15/34] fix: report transformation arrays that are not
 two-dimensional as ValueError

---
 freesif/data/strucdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index a1bba74..65c680c 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -460,7 +460,7 @@ class FirstLevelData(StrucData):
                 if trans.shape != (4,4):
                     raise ValueError(
                         'Transformation matrix must have shape (4,4), got '
-                        '({},{})'.format(*trans.shape))
+                        '{}'.format(trans.shape))
             elif self._has_record('rsuptran') and trans=='top':
                 trans = self._get_record('rsuptran')[0]['t']
             elif self._toplevel:
-- 
2.43.0


From ad4f2bd4e8563900b20cfcb5b11d6b9bc6e4f820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:15 +0000
Subject: [PATCH 16/34] fix: VtuWriter permuted the caller's connectivity and
 result arrays in place

---
 freesif/utils/writers.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 27079c9..6670875 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -41,23 +41,25 @@ numpy2vtk_datatype = {'int8'    : 'Int8',
                       'float64' : 'Float64'}
 
 def _reorder_data(data, offsets, types, indexarr_map):
+    data = data.copy()
     start = 0
     for stop, typ in zip(offsets, types):
         indarr = indexarr_map.get(typ)
         if indarr is not None:
             data[start:stop] = data[start:stop][indarr]
         start = stop
+    return data
 
 def _reorder_connectivity_vtk(cells):
-    """Perform inplace reordering of connectivity array
+    """Return a reordered copy of the connectivity array
     """
     con, offsets, types = cells
-    _reorder_data(con, offsets, types, sesam2vtk_connectivity)
+    return _reorder_data(con, offsets, types, sesam2vtk_connectivity)
 
 def _reorder_cellpointdata_vtk(resultarr, offsets, types):
-    """Perform inplace reordering of element node results
+    """Return a reordered copy of element node results
     """
-    _reorder_data(resultarr, offsets, types, sesam2vtk_elemresults)
+    return _reorder_data(resultarr, offsets, types, sesam2vtk_elemresults)
 
 
 class VtuWriter(object):
@@ -106,8 +108,8 @@ class VtuWriter(object):
         self._close_piece()
         self._piece_open = True
 
-        _reorder_connectivity_vtk(cells)
-        connectivity, offsets, types = cells
+        connectivity = _reorder_connectivity_vtk(cells)
+        _, offsets, types = cells
 
         # keep reference to offsets and types
         self._current_offsets = offsets
@@ -146,7 +148,7 @@ class VtuWriter(object):
     def add_data_cellpoints(self, arr, name, compnames=None):
         """
         """
-        _reorder_cellpointdata_vtk(
+        arr = _reorder_cellpointdata_vtk(
             arr, self._current_offsets, self._current_types)
         self.add_data(arr, name, compnames)
 
-- 
2.43.0


From 5873cbdaed23ea2370b7726769e0b52015ede706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:20 +0000
Subject: [PATCH 17/34] fix: VtuWriter wrote array and component names without
 escaping them

---
 freesif/utils/writers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 6670875..f5dc64b 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -6,6 +6,7 @@
 import numpy as np
 from struct import pack
 from base64 import b64encode
+from xml.sax.saxutils import quoteattr
 
 from ..exceptions import VtkError
 
@@ -229,7 +230,7 @@ class VtuWriter(object):
         s += b'<%s' % tag.encode()
         if kwargs:
             s += b' '
-            s += b' '.join([b'%s="%s"' % (str(k).encode(), str(v).encode())
+            s += b' '.join([b'%s=%s' % (str(k).encode(), quoteattr(str(v)).encode())
                 for k, v in list(kwargs.items())])
         if selfclosing:
             s += b' />\n'
-- 
2.43.0


From fc789349bf31b1ee4b78e287b2bd9274d37538b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 18/34] fix: WDRESREF rows without directions, frequencies or
 times referred to those of the row before

---
 freesif/sequentialparser/parsers.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index b422e8e..f9def29 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -2040,17 +2040,17 @@ def wdresref_reader(rec_name, rec, in_file, out_file):
     times = vldata(time_arr)
     recs = recdata(table, dirs, freqs, times)
     while rec_name == 'WDRESREF':
+        dat = {1: [], 2: [], 3: []}
         for _ in range(int(rec[3])):
             irefty = int(in_file.read_floats(1)[0])
-            dat = []
             for __ in range(int(rec[2])):
-                dat.append(in_file.read_floats(2))
-            if irefty == 1:
-                dirs.add(dat)
-            elif irefty == 2:
-                freqs.add(dat)
-            elif irefty == 3:
-                times.add(dat)
+                values = in_file.read_floats(2)
+                if irefty in dat:
+                    dat[irefty].append(values)
+        # also add the reference types not present (as empty)
+        dirs.add(dat[1])
+        freqs.add(dat[2])
+        times.add(dat[3])
         recs.add(rec)
         rec_name, rec = in_file.read_headerrec()
     recs.write()
-- 
2.43.0


From 04421a03771f69c3584510496bd1b869bd5753b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 19/34] fix: the dot before the extension of a file name is a
 dot, and the extension is last

---
 freesif/data/helpers.py              | 4 ++--
 freesif/sequentialparser/sif2hdf5.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/helpers.py b/freesif/data/helpers.py
index 7bab50d..517600f 100644
--- a/freesif/data/helpers.py
+++ b/freesif/data/helpers.py
@@ -34,8 +34,8 @@ def parse_sifname(filename):
     name_pattern = '(?i)(?P<prefix>[\w-]*?)' + \
                    '(?P<letter>[rtgl])' + \
                    '(?P<selno>[1-9]\d*)' + \
-                   '(H[1-9]\d*)?.' + \
-                   '(?P<ext>(si[fun]|fem))'
+                   '(H[1-9]\d*)?[.]' + \
+                   '(?P<ext>(si[fun]|fem))$'
 
     match = re.match(name_pattern, fname)
 
diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 028763e..0de8931 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -190,8 +190,8 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
 
     name_pattern = '(?i)(?P<prefix>[\w-]*?)' + \
                    '(?P<letter>[rtgl])' + \
-                   '[1-9]\d*(H[1-9]\d*)?.' + \
-                   '(?P<ext>(si[fun]|fem))'
+                   '[1-9]\d*(H[1-9]\d*)?[.]' + \
+                   '(?P<ext>(si[fun]|fem))$'
 
     match = re.match(name_pattern, fname)
 
-- 
2.43.0


From 7e823b568c0342cc285f51df205a259627a53123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 20/34] fix: changing the returned frequencies, periods,
 directions or times changed the data object

---
 freesif/data/hydrodata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index f5df243..cd2e710 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -122,13 +122,13 @@ class HydroData(SifData):
         """Get angular frequencies.
         """
         self._assert_domaintype('frequency')
-        return self._angfreqs
+        return self._angfreqs.copy()
 
     def get_periods(self):
         """Get periods.
         """
         self._assert_domaintype('frequency')
-        return self._periods
+        return self._periods.copy()
 
     def get_directions(self, unit='degrees'):
         """Get wave directions in 'degrees' (default) or 'radians'
@@ -138,7 +138,7 @@ class HydroData(SifData):
         if unit == 'degrees':
             return self._directions * 180. / np.pi
         elif unit == 'radians':
-            return self._directions
+            return self._directions.copy()
         else:
             raise ValueError("unit must be 'degrees' or 'radians'")
 
@@ -146,7 +146,7 @@ class HydroData(SifData):
         """Get time instants.
         """
         self._assert_domaintype('time')
-        return self._timesteps
+        return self._timesteps.copy()
 
     def get_sections(self):
         """Get section definitions
-- 
2.43.0


From c227843006c4ce9a0e427e6d1da768b0fe6b6574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 21/34] fix: set names as returned by get_setnames were not
 accepted

---
 freesif/data/strucdata.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 65c680c..4fbac16 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -38,10 +38,14 @@ class StrucData(SifData):
         tdsetnam, tdsetnam_text = self._get_record('tdsetnam')
         gsetmemb, irmemb = self._get_record('gsetmemb')
 
-        setnames = (setnames,) if isinstance(setnames, str) else setnames
+        if isinstance(setnames, (str, bytes)):
+            setnames = (setnames,)
         setmembs = []
         for setname in setnames:
-            cond = 'name==b{}'.format(repr(setname))
+            # names are bytes when they come from get_setnames
+            if isinstance(setname, str):
+                setname = setname.encode()
+            cond = 'name=={}'.format(repr(bytes(setname)))
             isref = getrow(tdsetnam, cond)['idno']
             cond = '(isref=={})&(istype=={})'.format(isref, istype)
             for r in gsetmemb.where(cond):
-- 
2.43.0


From a5a4273dcb2bd5f3e8ccf7589c6791127890bd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 22/34] fix: result case numbers as returned by
 get_resultcase_names were not accepted

---
 freesif/data/strucdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index 4fbac16..af5ba79 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -165,7 +165,7 @@ class StrucData(SifData):
 
         if isinstance(rescases, (list, tuple, np.ndarray)):
             rescases = set(rescases)
-        elif isinstance(rescases, int):
+        elif isinstance(rescases, (int, np.integer)):
             rescases = set([rescases])
         elif rescases is None:
             indices = rdresref.get_where_list('irno=={}'.format(run))
-- 
2.43.0


From 06086a1b91704c0c253867de550b1dcee70bf652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:01 +0000
Subject: [PATCH 23/34] fix: find_elemres_indices took the results of another
 node of SCTS elements

---
 freesif/calc/general.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/freesif/calc/general.py b/freesif/calc/general.py
index 2bc5a78..7708f18 100644
--- a/freesif/calc/general.py
+++ b/freesif/calc/general.py
@@ -30,5 +30,10 @@ def find_elemres_indices(pairs, elems, elemnumb, nodenumb):
         elind, = np.where(elemnumb==elno)[0]
         tmp_arr = offset[elind] - nodeind_arr
         tmp_ind = tmp_arr[tmp_arr>0].argmin()
-        indices.append(nodeind_arr[tmp_ind])
+        index = nodeind_arr[tmp_ind]
+        if eltyp[elind] == 26:
+            # corners come first in the connectivity, but not in the results
+            start = offset[elind] - 6
+            index = start + (0, 2, 4, 1, 3, 5)[index - start]
+        indices.append(index)
     return np.array(indices)
-- 
2.43.0


From 954be09fe952a44838a2642dc3bf90d89101938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 24/34] fix: results of cases with other nodes or elements were
 mixed up

---
 freesif/data/strucdata.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/freesif/data/strucdata.py b/freesif/data/strucdata.py
index af5ba79..17c5270 100644
--- a/freesif/data/strucdata.py
+++ b/freesif/data/strucdata.py
@@ -184,6 +184,20 @@ class StrucData(SifData):
                 'Result cases must all be either real or complex')
         return complexflag
 
+    def _check_rescases(self, rows, ires):
+        """Check that all result cases (`ires`) have results of the same nodes
+        or elements in the same order, one case at a time.
+        `rows` is a list of (result case, node or element) tuples.
+        """
+        n = len(rows) // len(ires)
+        items = [item for _, item in rows]
+        cases = [case for case, _ in rows]
+        if set(cases) != ires or items != items[:n] * len(ires) or any(
+                cases[i] != cases[i - i % n] for i in range(len(cases))):
+            raise ResultError(
+                'Result cases do not have results of the same nodes or '
+                'elements')
+
     def get_setnames(self):
         """Get names of all sets in superelement.Returns None if no sets exist
         """
@@ -554,9 +568,12 @@ class FirstLevelData(StrucData):
         ires = set(resrefs['ires'])
 
         data = []
+        rows = []
         for r in rvnodres.iterrows():
             if r['ires'] in ires and r['iinod'] in nodenumbs:
                 data.append(res[r[start]:r[stop]])  # lookup in res is slow..
+                rows.append((r['ires'], r['iinod']))
+        self._check_rescases(rows, ires)
         data = np.concatenate(data)
 
         # change dtype if complex
@@ -785,6 +802,7 @@ class FirstLevelData(StrucData):
         ires = set(resrefs['ires'])
 
         data = []
+        rows = []
         for r in rvres.iterrows():
             if r['ires'] in ires and r['iielno'] in elemnumbs:
 
@@ -796,7 +814,9 @@ class FirstLevelData(StrucData):
 
                 data.append(
                     self._process_element_results(eltyp, restype, pos, d))
+                rows.append((r['ires'], r['iielno']))
 
+        self._check_rescases(rows, ires)
         data = np.concatenate(data)  # shape is (nres*npos, comp)
                                      # or (nres*npos, surface, comp)
 
-- 
2.43.0


From 0fc943567c071e6f760e4016f0c1551d630cb4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 25/34] fix: body number 0 gave the results of all bodies

---
 freesif/data/hydrodata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index cd2e710..3c74f46 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -101,7 +101,7 @@ class HydroData(SifData):
         """
 
         res = self._get_record(rec_name)
-        if bodyid:
+        if bodyid is not None:
             ibcond = self._get_ibcond(bodyid)
             # get all records for this ibcond
             res_recs = res.read_where('ibcond=={}'.format(ibcond))
-- 
2.43.0


From 3ffc31d201d3931f0284fd7f5dc3da4771663817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 26/34] fix: an empty array was returned for added mass and
 damping not on the file

---
 freesif/data/hydrodata.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/freesif/data/hydrodata.py b/freesif/data/hydrodata.py
index 3c74f46..b3d0a43 100644
--- a/freesif/data/hydrodata.py
+++ b/freesif/data/hydrodata.py
@@ -8,7 +8,7 @@ from __future__ import division
 import numpy as np
 from .sifdata import SifData
 from .helpers import getrow
-from ..exceptions import ResultError, NoSuchRecordError
+from ..exceptions import ConditionError, NoSuchRecordError, ResultError
 
 
 class HydroData(SifData):
@@ -328,7 +328,11 @@ class HydroData(SifData):
         if mtyp in (11, 22, 31, 32):  # freq indep
             return getrow(w1matrix, cond)['hmat']
         elif mtyp in (12, 21):  # freq dep
-            return np.rollaxis(w1matrix.read_where(cond)['hmat'], 0, 3)
+            mats = w1matrix.read_where(cond)['hmat']
+            if not len(mats):
+                raise ConditionError('Table "{}" has no row fulfilling '
+                                     'condition'.format(w1matrix.name))
+            return np.rollaxis(mats, 0, 3)
         else:
             raise ValueError('mtyp must be 11, 12, 21, 22, 31 or 32, '
                              'got {}'.format(mtyp))
-- 
2.43.0


From 180980fb314b567b063d20588849a0e55146cfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 27/34] fix: unformatted file whose last record is IEND with 1
 was refused

---
 freesif/sequentialparser/sequentialfiles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freesif/sequentialparser/sequentialfiles.py b/freesif/sequentialparser/sequentialfiles.py
index 4d4ca24..bd1e76e 100644
--- a/freesif/sequentialparser/sequentialfiles.py
+++ b/freesif/sequentialparser/sequentialfiles.py
@@ -199,6 +199,8 @@ class UnformattedFile(SequentialFile):
         return self.tofloatrec(self.read_stringrec()[skipfirst:])
 
     def read_headerrec(self):
+        if not self.f.peek(1):  # end of file
+            return '', ()
         stringrec = self.read_stringrec()
         return stringrec[:8].decode().strip(), self.tofloatrec(stringrec[8:])
 
-- 
2.43.0


From e68e84662d06f6b2d5f3e6a7c1cc3452293105b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 28/34] fix: a file that breaks off was silently converted in
 part

---
 freesif/sequentialparser/parsers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index f9def29..2091ff5 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -449,8 +449,10 @@ def parse_file(in_file, out_file, only=None):
 
     rec_name, rec = in_file.read_headerrec()
 
+    last_name = None
     if only:
         while rec_name:
+            last_name = rec_name
             # IEND is needed in order to stop at the end of the file
             if rec_name in only or rec_name == 'IEND':
                 rec_name, rec = general_parser(rec_name, rec, in_file,
@@ -461,8 +463,12 @@ def parse_file(in_file, out_file, only=None):
                     rec_name, rec = in_file.skip_restofrecord(rec_name, rec)
     else:
         while rec_name:
+            last_name = rec_name
             rec_name, rec = general_parser(rec_name, rec, in_file, out_file)
 
+    if last_name != 'IEND':
+        raise IOError('unexpected end of file, no IEND record')
+
     # set attributes on superelement group
     # ------------------------------------
 
-- 
2.43.0


From 6964059428b93e7b40dc59171d93ed77c022c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 29/34] fix: a failed conversion left a part of the data set,
 database could not be opened

---
 freesif/sequentialparser/sif2hdf5.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/freesif/sequentialparser/sif2hdf5.py b/freesif/sequentialparser/sif2hdf5.py
index 0de8931..b2850e8 100644
--- a/freesif/sequentialparser/sif2hdf5.py
+++ b/freesif/sequentialparser/sif2hdf5.py
@@ -11,13 +11,18 @@ from . import parsers
 from .sequentialfiles import FormattedFile, UnformattedFile
 
 
-def _parse_file(in_file, out_file, only):
-    """Parse and close in_file. out_file is closed if in_file cannot be parsed.
+def _parse_file(in_file, out_file, only, old_groups):
+    """Parse and close in_file. If in_file cannot be parsed, everything but
+    the old_groups is removed from out_file, which is closed.
     """
     try:
         parsers.parse_file(in_file, out_file, only)
     except BaseException:
-        out_file.close()
+        try:
+            for name in set(out_file.root._v_children) - old_groups:
+                out_file.remove_node('/', name, recursive=True)
+        finally:
+            out_file.close()
         raise
     finally:
         in_file.close()
@@ -241,13 +246,14 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
     else:
         out_file = tb.open_file(hdf5name, 'a' if append else 'w')
 
-    # TODO: check if group name allready exist
+    # groups of data sets that are kept if the conversion fails
+    old_groups = set(out_file.root._v_children)
 
     # set filetypeid
     parsers.set_filetypeid(filetypeid)
 
     # parse first file
-    _parse_file(in_file, out_file, only)
+    _parse_file(in_file, out_file, only, old_groups)
 
     # parse additional lower level files
 
@@ -299,7 +305,7 @@ def sif2hdf5(sifname, hdf5name=None, append=False, usefileprefix=True,
 
                 parsers.reset(reset_toplevel=False)
                 parsers.set_current_ihref(ihref[i])
-                _parse_file(in_file, out_file, only)
+                _parse_file(in_file, out_file, only, old_groups)
 
             else:
                 print('file not found: ' + fname)
-- 
2.43.0


From 157a852583c784ed50ba4299e235c305f607f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 30/34] fix: records of an appended hierarchy were put in an
 existing data set of the same name

---
 freesif/sequentialparser/parsers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freesif/sequentialparser/parsers.py b/freesif/sequentialparser/parsers.py
index 2091ff5..b3b2981 100644
--- a/freesif/sequentialparser/parsers.py
+++ b/freesif/sequentialparser/parsers.py
@@ -293,6 +293,8 @@ def get_table(rec_name, out_file):
 
     else:
         where = root_group + get_path()
+        if not tables and where in out_file:
+            raise ValueError('"{}" already exists'.format(where))
         descriptor = descriptors[rec_name]
         atom_data = atoms.get(rec_name, None)
         nrecs = record_count.get(rec_name, 10000)
-- 
2.43.0


From 4f73747489584b1d3cfdc6d87491ed3f93de0841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 31/34] fix: the HDF5 file was kept open when it could not be
 opened as a database

---
 freesif/data/file.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/freesif/data/file.py b/freesif/data/file.py
index 5493760..c050485 100644
--- a/freesif/data/file.py
+++ b/freesif/data/file.py
@@ -81,6 +81,16 @@ class File(object):
             self.filename = self._tbfile.filename
 
         self._data = {}
+        try:
+            self._load_data()
+        except BaseException:
+            self._tbfile.close()
+            raise
+
+        _open_files.add(self)
+        self._isopen = True
+
+    def _load_data(self):
         # loop over independent (top level or non-hierarhcy) groups
         for gr in self._tbfile.root._f_iter_nodes('Group'):
 
@@ -109,9 +119,6 @@ class File(object):
                 elif level == 'FIRSTLEVEL':
                     self._data[key] = FirstLevelData(subgr, self, data)
 
-        _open_files.add(self)
-        self._isopen = True
-
     def __getitem__(self, name):  # dict interface
         self._check_isopen()
         return self._data[name]
-- 
2.43.0


From 84ad8165016343471a07cf5fc424fe98ffaabb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:48 +0000
Subject: [PATCH 32/34] fix: VtuWriter wrote arrays of big-endian numbers byte
 by byte into files that say LittleEndian

---
 freesif/utils/writers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index f5dc64b..451a922 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -194,6 +194,7 @@ class VtuWriter(object):
 #        self._file.write(b64encode(arr.T.ravel().tostring(order='F')))
 
         header = pack('<Q', nbytes)
+        arr = arr.astype(arr.dtype.newbyteorder('<'), copy=False)
         arrstr = arr.ravel().tostring()
         self._file.write(b64encode(header + arrstr))
 
-- 
2.43.0


From f10d9a5fd7daf8f15d956c88574cc944fbd6f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:01 +0000
Subject: [PATCH 33/34] fix: VtuWriter.new_piece closed the current piece
 before it refused elements it has no cells for

---
 freesif/utils/writers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 451a922..509cdc6 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -105,19 +105,19 @@ class VtuWriter(object):
     def new_piece(self, points, cells):
         """
         """
+        # element types that are not supported are refused here
+        connectivity = _reorder_connectivity_vtk(cells)
+        _, offsets, types = cells
+        vtktypes = typeidmapper(types)
+
         self._close_data()
         self._close_piece()
         self._piece_open = True
 
-        connectivity = _reorder_connectivity_vtk(cells)
-        _, offsets, types = cells
-
         # keep reference to offsets and types
         self._current_offsets = offsets
         self._current_types = types
 
-        types = typeidmapper(types)
-
         self._open_element('Piece', NumberOfPoints=len(points),
                            NumberOfCells=len(offsets))
 
@@ -130,7 +130,7 @@ class VtuWriter(object):
         self._open_element('Cells')
         self._write_array(connectivity, 'connectivity')
         self._write_array(offsets, 'offsets')
-        self._write_array(types, 'types')
+        self._write_array(vtktypes, 'types')
         self._close_element('Cells')
 
     def start_pointdata(self):
-- 
2.43.0


From ab1cd5b83c7a554da353ce28cd7c4f480ab7fdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:01 +0000
Subject: [PATCH 34/34] fix: VtuWriter.add_data_cellpoints before new_piece
 failed with TypeError, not VtkError

---
 freesif/utils/writers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freesif/utils/writers.py b/freesif/utils/writers.py
index 509cdc6..652dec2 100644
--- a/freesif/utils/writers.py
+++ b/freesif/utils/writers.py
@@ -149,6 +149,8 @@ class VtuWriter(object):
     def add_data_cellpoints(self, arr, name, compnames=None):
         """
         """
+        if not self._pointdata_open and not self._celldata_open:
+            raise VtkError('Call start_pointdata() or start_celldata() first')
         arr = _reorder_cellpointdata_vtk(
             arr, self._current_offsets, self._current_types)
         self.add_data(arr, name, compnames)
-- 
2.43.0

