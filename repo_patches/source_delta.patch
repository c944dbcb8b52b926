From b4745b5fa5f9139ba312ec3a2eec2d6f09bb0221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 01/19] fix: keep prolonged sound mark offsets right for
 replacement symbols longer than one character

---
 sudachipy/plugin/input_text/prolongedsoundmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/plugin/input_text/prolongedsoundmark.py b/sudachipy/plugin/input_text/prolongedsoundmark.py
index 6bfb2aa..0a0bc47 100644
--- a/sudachipy/plugin/input_text/prolongedsoundmark.py
+++ b/sudachipy/plugin/input_text/prolongedsoundmark.py
@@ -44,7 +44,7 @@ class ProlongedSoundMarkInputTextPlugin(InputTextPlugin):
             elif is_psm and cp not in self._psm_set:
                 if i - m_start_idx > 1:
                     builder.replace(m_start_idx - offset, i - offset, self._replace_symbol)
-                    offset += i - m_start_idx - 1
+                    offset += i - m_start_idx - len(self._replace_symbol)
                 is_psm = False
         if is_psm and n - m_start_idx > 1:
             builder.replace(m_start_idx - offset, n - offset, self._replace_symbol)
-- 
2.43.0


From 184d00d093e31d420cb327ecbb55c131634113d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 02/19] fix: drop lattice nodes left behind by an analysis that
 ended in an error

---
 sudachipy/lattice.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/lattice.pyx b/sudachipy/lattice.pyx
index fdb120e..46daaab 100644
--- a/sudachipy/lattice.pyx
+++ b/sudachipy/lattice.pyx
@@ -35,6 +35,8 @@ cdef class Lattice:
         self.connect_costs = self.grammar._matrix_view
 
     cpdef void resize(self, int size):
+        # a preceding analysis may have ended in an error and left its nodes behind
+        self.clear()
         if size > self.capacity:
             self.expand(size)
         self.size = size
-- 
2.43.0


From f18a4a58ff6ed51a99d460b21a3730b8a75bb6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 03/19] fix: LexiconSet.get_word_id returned "not found" for
 found words and vice versa

---
 sudachipy/dictionarylib/lexiconset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/lexiconset.py b/sudachipy/dictionarylib/lexiconset.py
index 6cc3d99..1a8bac4 100644
--- a/sudachipy/dictionarylib/lexiconset.py
+++ b/sudachipy/dictionarylib/lexiconset.py
@@ -80,7 +80,7 @@ class LexiconSet(Lexicon):
     def get_word_id(self, headword: str, pos_id: int, reading_form: str) -> int:
         for dic_id in range(len(self.lexicons)):
             wid = self.lexicons[dic_id].get_word_id(headword, pos_id, reading_form)
-            if wid <= 0:
+            if wid >= 0:
                 return self.build_word_id(dic_id, wid)
         return self.lexicons[0].get_word_id(headword, pos_id, reading_form)
 
-- 
2.43.0


From 4fa5b2b6a2286cb0d1ec7e80e954113cfaad12de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 04/19] fix: accept character definitions without any code
 point range

---
 sudachipy/dictionarylib/charactercategory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/charactercategory.py b/sudachipy/dictionarylib/charactercategory.py
index fdecef3..eff8ff9 100644
--- a/sudachipy/dictionarylib/charactercategory.py
+++ b/sudachipy/dictionarylib/charactercategory.py
@@ -59,6 +59,8 @@ class CharacterCategory(object):
         to apply binary search in get_category_types
         :return:
         """
+        if not self.range_list:
+            return
         self.range_list.sort(key=lambda x: x.high)
         self.range_list.sort(key=lambda x: x.low)
         new_range_list = []
-- 
2.43.0


From 348b3ffc6fc82084c7ed6a098c98755fef43045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 05/19] fix: read non-square connection matrices in the layout
 they are written in

---
 sudachipy/dictionarylib/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/grammar.py b/sudachipy/dictionarylib/grammar.py
index 4118bd9..1ffd0cc 100644
--- a/sudachipy/dictionarylib/grammar.py
+++ b/sudachipy/dictionarylib/grammar.py
@@ -42,7 +42,7 @@ class Grammar:
         self._matrix_view = \
             memoryview(bytes_)[connect_table_offset: connect_table_offset + 2 * left_id_size * right_id_size]
         if left_id_size * right_id_size != 0:
-            self._matrix_view = self._matrix_view.cast('h', shape=[left_id_size, right_id_size])
+            self._matrix_view = self._matrix_view.cast('h', shape=[right_id_size, left_id_size])
         bytes_.seek(original_offset)
 
     def get_storage_size(self):
-- 
2.43.0


From dee4230fcdd8403e84e8ba8cb60499d714629baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 06/19] fix: read part-of-speech strings with the length and
 byte order they are written with

---
 sudachipy/dictionarylib/grammar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/grammar.py b/sudachipy/dictionarylib/grammar.py
index 1ffd0cc..9297eb8 100644
--- a/sudachipy/dictionarylib/grammar.py
+++ b/sudachipy/dictionarylib/grammar.py
@@ -98,8 +98,10 @@ class Grammar:
     @staticmethod
     def bytes_get_string(bytes_):
         length = bytes_.read_byte()
+        if length >= 128:
+            length = ((length & 0x7F) << 8) | bytes_.read_byte()
         string = bytes_.read(2 * length)
-        return string.decode('utf-16')
+        return string.decode('utf-16-le')
 
     @staticmethod
     def bytes_get_short(bytes_):
-- 
2.43.0


From aef491f812b860050349709d234860f7c302e084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 07/19] fix: decode \\u{...} literals of any length

---
 sudachipy/dictionarylib/dictionarybuilder.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index bde5871..09ead9d 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -305,11 +305,7 @@ class DictionaryBuilder(object):
 
     def decode(self, str_):
         def replace(match):
-            uni_text = match.group()
-            uni_text = uni_text.replace('{', '').replace('}', '')
-            if len(uni_text) > 6:
-                uni_text = ('\\U000{}'.format(uni_text[2:]))
-            return uni_text.encode('ascii').decode('unicode-escape')
+            return chr(int(match.group(1).strip('{}'), 16))
         return re.sub(self.__PATTERN_UNICODE_LITERAL, replace, str_)
 
     def check_splitinfo_format(self, str_):
-- 
2.43.0


From 5c6e844494c822f860f79283c30753db79a8dc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 08/19] fix: refuse part-of-speech columns that contain a comma

---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 09ead9d..1540f23 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -118,6 +118,8 @@ class DictionaryBuilder(object):
         # left-id, right-id, connect_cost
         entry.parameters = [int(cols[i]) for i in [1, 2, 3]]
         # part of speech
+        if any(',' in col for col in cols[5:11]):
+            raise ValueError('invalid part of speech')
         pos_id = self.get_posid(cols[5:11])
         if pos_id < 0:
             raise ValueError('invalid part of speech')
-- 
2.43.0


From aca35bd20c301342190497bbfcd89b5f6e6d51da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 09/19] fix: refuse strings that are too long in UTF-16 code
 units, the unit of the stored length

---
 sudachipy/dictionarylib/dictionarybuilder.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 1540f23..d87d4df 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -148,9 +148,7 @@ class DictionaryBuilder(object):
     def __is_length_valid(self, cols):
         head_length = len(cols[0].encode('utf-8'))
         return head_length <= self.__STRING_MAX_LENGTH \
-            and len(cols[4]) <= self.__STRING_MAX_LENGTH \
-            and len(cols[11]) <= self.__STRING_MAX_LENGTH \
-            and len(cols[12]) <= self.__STRING_MAX_LENGTH
+            and all(self.__utf16_length(col) <= self.__STRING_MAX_LENGTH for col in cols[4:13])
 
     def add_to_trie(self, headword, word_id):
         key = headword.encode('utf-8')
@@ -376,14 +374,18 @@ class DictionaryBuilder(object):
             raise ValueError("too many units")
         return [int(synonym_group_id) for synonym_group_id in synonym_group_ids]
 
-    def write_string(self, text):
+    @staticmethod
+    def __utf16_length(text):
         len_ = 0
         for c in text:
             if 0x10000 <= ord(c) <= 0x10FFFF:
                 len_ += 2
             else:
                 len_ += 1
-        self.write_stringlength(len_)
+        return len_
+
+    def write_string(self, text):
+        self.write_stringlength(self.__utf16_length(text))
         self.byte_buffer.write_str(text)
 
     def write_stringlength(self, len_):
-- 
2.43.0


From 0e6d06df62505a8c49a968e58aabfed0209d14bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 10/19] fix: hold word ids of the eighth and later user
 dictionaries without overflow

---
 sudachipy/latticenode.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/latticenode.pxd b/sudachipy/latticenode.pxd
index f931fb8..258e8e1 100644
--- a/sudachipy/latticenode.pxd
+++ b/sudachipy/latticenode.pxd
@@ -3,7 +3,7 @@ cdef class LatticeNode:
     cdef int begin
     cdef int end
     cdef int total_cost
-    cdef int word_id
+    cdef long long word_id
     cdef bint _is_oov
     cdef LatticeNode best_previous_node
     cdef bint is_connected_to_bos
-- 
2.43.0


From 7963eb3b03e94cdedfba322bf4a8b7d2dcea5dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 11/19] fix: accumulate path costs without overflow

---
 sudachipy/lattice.pxd     | 2 +-
 sudachipy/lattice.pyx     | 5 +++--
 sudachipy/latticenode.pxd | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/sudachipy/lattice.pxd b/sudachipy/lattice.pxd
index ec2ce35..713fd5d 100644
--- a/sudachipy/lattice.pxd
+++ b/sudachipy/lattice.pxd
@@ -1,7 +1,7 @@
 from .latticenode cimport LatticeNode
 
 cdef extern from "limits.h":
-    cdef int INT_MAX
+    cdef long long LLONG_MAX
 
 cdef class Lattice:
 
diff --git a/sudachipy/lattice.pyx b/sudachipy/lattice.pyx
index 46daaab..db1d575 100644
--- a/sudachipy/lattice.pyx
+++ b/sudachipy/lattice.pyx
@@ -89,7 +89,7 @@ cdef class Lattice:
 
     cdef void connect_node(self, LatticeNode r_node):
         begin = r_node.begin
-        r_node.total_cost = INT_MAX
+        r_node.total_cost = LLONG_MAX
 
         cdef LatticeNode l_node
         cdef int connect_cost
@@ -107,7 +107,8 @@ cdef class Lattice:
                 r_node.best_previous_node = l_node
 
         r_node.is_connected_to_bos = r_node.best_previous_node is not None
-        r_node.total_cost += r_node.cost
+        if r_node.is_connected_to_bos:
+            r_node.total_cost += r_node.cost
 
     cdef void connect_eos_node(self):
         self.connect_node(self.eos_node)
diff --git a/sudachipy/latticenode.pxd b/sudachipy/latticenode.pxd
index 258e8e1..ff11c27 100644
--- a/sudachipy/latticenode.pxd
+++ b/sudachipy/latticenode.pxd
@@ -2,7 +2,7 @@ cdef class LatticeNode:
 
     cdef int begin
     cdef int end
-    cdef int total_cost
+    cdef long long total_cost
     cdef long long word_id
     cdef bint _is_oov
     cdef LatticeNode best_previous_node
-- 
2.43.0


From 9f60d0528619dea705cc790ce9c8954edad87fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 12/19] fix: keep OOV prefixes that fit when a grouping
 category has several rules

---
 sudachipy/plugin/oov/mecab_oov_plugin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index 123b638..9421977 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -77,7 +77,7 @@ class MeCabOovPlugin(OovProviderPlugin):
                 s = input_text.get_substring(offset, offset + length)
                 for oov in oovs:
                     nodes.append(self.get_oov_node(s, oov, length))
-                    llength -= 1
+                llength -= 1
             for i in range(1, cinfo.length + 1):
                 sublength = input_text.get_code_points_offset_length(offset, i)
                 if sublength > llength:
-- 
2.43.0


From 4a4f33415d113d3ebcf5006a7ae6beb35ff106ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 13/19] fix: write the whole connection matrix when its last
 costs are not given

---
 sudachipy/dictionarylib/dictionarybuilder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index d87d4df..b31142c 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -198,7 +198,8 @@ class DictionaryBuilder(object):
         self.byte_buffer.write_int(lsize, 'short')
         self.byte_buffer.write_int(rsize, 'short')
 
-        matrix = JTypedByteBuffer()
+        # costs that are not given are 0
+        matrix = JTypedByteBuffer(b'\x00' * (2 * lsize * rsize))
 
         for i, line in enumerate(matrix_input.readlines()):
             line = line.strip()
-- 
2.43.0


From 5dd04c12a20340a05786936c3043dace54046792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 14/19] fix: refuse connection ids outside the declared matrix
 size

---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index b31142c..84677b0 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -210,6 +210,8 @@ class DictionaryBuilder(object):
                 self.logger.warn('invalid format at line {}'.format(i))
                 continue
             l, r, cost = [int(col) for col in cols]
+            if not (0 <= l < lsize and 0 <= r < rsize):
+                raise ValueError('invalid connection id at line {}'.format(i))
             pos = matrix.tell()
             matrix.seek(2 * (l + lsize * r))
             matrix.write_int(cost, 'short')
-- 
2.43.0


From f6235b255e604898bcc0a7bf2c5e2c9c4117d9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 15/19] fix: read the dictionary form without following its own
 dictionary form

---
 sudachipy/dictionarylib/wordinfolist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudachipy/dictionarylib/wordinfolist.py b/sudachipy/dictionarylib/wordinfolist.py
index 6a62ebb..bfa7efe 100644
--- a/sudachipy/dictionarylib/wordinfolist.py
+++ b/sudachipy/dictionarylib/wordinfolist.py
@@ -48,8 +48,8 @@ class WordInfoList(object):
 
         dictionary_form = surface
         if dictionary_form_word_id >= 0 and dictionary_form_word_id != word_id:
-            wi = self.get_word_info(dictionary_form_word_id)
-            dictionary_form = wi.surface
+            self.bytes.seek(self.word_id_to_offset(dictionary_form_word_id))
+            dictionary_form = self.buffer_to_string()
 
         self.bytes.seek(orig_pos)
 
-- 
2.43.0


From 30842318757c2e23f9d866711eba763fdff058bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 16/19] fix: refuse dictionary form ids that are not in the
 dictionary

---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 84677b0..e16418b 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -278,6 +278,8 @@ class DictionaryBuilder(object):
         base = io_out.tell()
         for entry in self.entries:
             wi = entry.wordinfo
+            if wi.dictionary_form_word_id >= len(self.entries):
+                raise ValueError('invalid dictionary form word ID')
             offsets.write_int(io_out.tell(), 'int')
             self.write_string(wi.surface)
             self.write_stringlength(wi.length())
-- 
2.43.0


From 27fc2c5ab852c8b17ea871172a73d298619e5c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 17/19] fix: refuse separators that a unit follows and commas
 after the decimal point

---
 sudachipy/plugin/path_rewrite/numericparser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sudachipy/plugin/path_rewrite/numericparser.py b/sudachipy/plugin/path_rewrite/numericparser.py
index f48daf1..d03386e 100644
--- a/sudachipy/plugin/path_rewrite/numericparser.py
+++ b/sudachipy/plugin/path_rewrite/numericparser.py
@@ -208,7 +208,7 @@ class NumericParser(object):
             self._has_comma = False
             return True
         if char == ',':
-            if not self.check_comma():
+            if self._tmp.point >= 0 or not self.check_comma():
                 self._error_state = self.Error.COMMA
                 return False
             self._has_comma = True
@@ -219,6 +219,14 @@ class NumericParser(object):
             return False
 
         num = self._char_to_num[char]
+        if num < 0:
+            # a unit ends the number before it
+            if self._has_hanging_point:
+                self._error_state = self.Error.POINT
+                return False
+            if self._has_comma and self._digit_length != 3:
+                self._error_state = self.Error.COMMA
+                return False
         if self.is_small_unit(num):
             self._tmp.shift_scale(-num)
             if not self._sub_total.add(self._tmp):
-- 
2.43.0


From a0058fa3bd601f065be89b83a1f53d17fb5b32d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:21 +0000
Subject: [PATCH 18/19] fix: give up on separators that are numeric characters
 themselves instead of rescanning forever

---
 sudachipy/plugin/path_rewrite/join_numeric_plugin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
index 060423c..861440f 100644
--- a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
+++ b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
@@ -59,10 +59,10 @@ class JoinNumericPlugin(PathRewritePlugin):
                 for c in s:
                     if not parser.append(c):
                         if begin_index >= 0:
-                            if parser.error_state == NumericParser.Error.COMMA:
+                            if parser.error_state == NumericParser.Error.COMMA and comma_as_digit:
                                 comma_as_digit = False
                                 i = begin_index - 1
-                            elif parser.error_state == NumericParser.Error.POINT:
+                            elif parser.error_state == NumericParser.Error.POINT and period_as_digit:
                                 period_as_digit = False
                                 i = begin_index - 1
                             begin_index = -1
-- 
2.43.0


From 9f7bc453a67ab7a291c5e0cfe928f0f16290b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:24 +0000
Subject: [PATCH 19/19] fix: do not normalize a numeral to 0 when its last
 number does not fit and a separator follows

---
 sudachipy/plugin/path_rewrite/numericparser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sudachipy/plugin/path_rewrite/numericparser.py b/sudachipy/plugin/path_rewrite/numericparser.py
index d03386e..62cab3c 100644
--- a/sudachipy/plugin/path_rewrite/numericparser.py
+++ b/sudachipy/plugin/path_rewrite/numericparser.py
@@ -255,14 +255,15 @@ class NumericParser(object):
         return True
 
     def done(self) -> bool:
-        ret = self._sub_total.add(self._tmp) and self._total.add(self._sub_total)
+        if not (self._sub_total.add(self._tmp) and self._total.add(self._sub_total)):
+            return False
         if self._has_hanging_point:
             self._error_state = self.Error.POINT
             return False
         if self._has_comma and self._digit_length != 3:
             self._error_state = self.Error.COMMA
             return False
-        return ret
+        return True
 
     def get_normalized(self) -> str:
         return str(self._total)
-- 
2.43.0

