From d753956590932443b52d7650b0c97373b6945942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:54 +0000
Subject: [PATCH 01/36] fix: an explicit flags=BibleFlag.NONE argument
 overrides the global flags

---
 src/bibleref/parser.py |  2 +-
 src/bibleref/ref.py    | 27 ++++++++++++++++-----------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 19ed9aa..fd1b1e8 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -52,7 +52,7 @@ def _parse(string, flags: ref.BibleFlag = None):
         raise new_error
     
     try:
-        flags = flags or bibleref.flags or ref.BibleFlag.NONE
+        flags = ref._resolve_flags(flags)
         _transformer().flags = flags
         range_groups_list = _transformer().transform(tree)
     except VisitError as e:
diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 421ffa1..1536c84 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -38,6 +38,11 @@ class BibleFlag(Flag):
 bibleref.flags = BibleFlag.NONE # Default setting for global flags attribute.
 
 
+def _resolve_flags(flags: BibleFlag) -> BibleFlag:
+    '''Returns the flags in effect for a method: its `flags` argument or, only if that is `None`, the global flags.'''
+    return (bibleref.flags or BibleFlag.NONE) if flags is None else flags
+
+
 class BibleBook(Enum):
     '''An enum of books in the Bible.
 
@@ -176,7 +181,7 @@ class BibleBook(Enum):
     def min_verse_num(self, chap_num: int, flags: BibleFlag = None) -> int:
         '''Return the lowest verse number (0 or 1) for the specified chapter number of this `BibleBook`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         if chap_num < self.min_chap_num() or chap_num > self.max_chap_num():
             raise InvalidReferenceError(f"No chapter {chap_num} in {self.title}")
         return 0 if (BibleFlag.VERSE_0 in flags and chap_num in self._verse_0s) else 1
@@ -470,7 +475,7 @@ class BibleVerse:
         '''
         if not isinstance(num_verses, int):
             raise TypeError(f"Cannot add a {type(num_verses)} to a BibleVerse")
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         book = self.book
         chap_num = self.chap_num
         if self.verse_num == 0:
@@ -507,7 +512,7 @@ class BibleVerse:
 
         Using the `-` operator is equivalent to calling `subtract()` with `flags = None`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         if isinstance(other, int):
             book = self.book
             chap_num = self.chap_num
@@ -609,7 +614,7 @@ class BibleRange:
     def whole_bible(cls, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns a `BibleRange` representing the whole Bible.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         # By definition, we need to allow multibook to encompass whole Bible
         flags |= BibleFlag.MULTIBOOK
         start_book = bible_data().book_order[0]
@@ -661,7 +666,7 @@ class BibleRange:
         or using the `flags` argument, a `MultibookRangeNotAllowedError` is raised. If the arguments are of an
         incorrect number or type, a `ValueError` is raised.     
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         if len(args) == 0:
             if BibleFlag.MULTIBOOK not in flags and start.book != end.book:
                 raise MultibookRangeNotAllowedError(f"Multi-book ranges not allowed " + 
@@ -857,7 +862,7 @@ class BibleRange:
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         return BibleRange(start=self.start.first_verse(flags=flags), end=self.end.last_verse(), flags=flags)
 
@@ -866,7 +871,7 @@ class BibleRange:
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         return BibleRange(start=self.start.book.first_verse(flags=flags), end=self.end.book.last_verse(), flags=flags)
 
@@ -881,7 +886,7 @@ class BibleRange:
           `BibleRangeList` will contain this range only.
         - If `regroup` is `True`, regroup() is called on the resulting `BibleRangeList`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         # Set flags if our attributes imply they should be set
         if self.start.book != self.end.book:
             flags |= BibleFlag.MULTIBOOK
@@ -1229,7 +1234,7 @@ class BibleRangeList(util.GroupedList):
             
         3. As a copy of an existing BibleRangeList: `BibleRangeList(existing_bible_range_list)`
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
 
         if len(args) == 1:
             if isinstance(args[0], str):
@@ -1316,7 +1321,7 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
         max_range: BibleRange = max(self)
@@ -1329,7 +1334,7 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
         max_range: BibleRange = max(self)
-- 
2.43.0


From 40f5e54dedcfb0947be7d6583db2d07b15d30e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:23 +0000
Subject: [PATCH 02/36] fix: BibleVerse.subtract(int) honours flags in the
 chapters it moves back into

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 1536c84..853d400 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -532,7 +532,7 @@ class BibleVerse:
                         chap_num = book.max_chap_num()
                 
                 verse_num = verse_num + book.max_verse_num(chap_num) - min_verse_num + 1 
-                min_verse_num = book.min_verse_num(chap_num)
+                min_verse_num = book.min_verse_num(chap_num, flags)
             return BibleVerse(book, chap_num, verse_num, flags=flags)
         elif isinstance(other, BibleVerse):
             bible_range = BibleRange(start=self, end=other) # Bible will swap start and end as necessary
-- 
2.43.0


From bd8fcf77ae4475ab1f31886c7de87b43dee68a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:23 +0000
Subject: [PATCH 03/36] fix: BibleVerse.subtract(BibleVerse) and
 BibleRange.verse_count() honour their flags argument

---
 src/bibleref/ref.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 853d400..bd6696c 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -535,8 +535,8 @@ class BibleVerse:
                 min_verse_num = book.min_verse_num(chap_num, flags)
             return BibleVerse(book, chap_num, verse_num, flags=flags)
         elif isinstance(other, BibleVerse):
-            bible_range = BibleRange(start=self, end=other) # Bible will swap start and end as necessary
-            difference = bible_range.verse_count() - 1
+            bible_range = BibleRange(start=self, end=other, flags=flags) # Bible will swap start and end as necessary
+            difference = bible_range.verse_count(flags=flags) - 1
             if self < other:
                 difference *= -1
             return difference
@@ -822,7 +822,7 @@ class BibleRange:
     def verse_count(self, flags: BibleFlag = None):
         '''Returns the number of verses in this range.'''
         # We split the range into chapters, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_chap=True) # Each range will thus be within its own chapter
+        bible_ranges = self.split(by_chap=True, flags=flags) # Each range will thus be within its own chapter
         count = 0
         for bible_range in bible_ranges:
             count += (bible_range.end.verse_num - bible_range.start.verse_num + 1)
-- 
2.43.0


From d75a6f08a79adee6eb100a13f2c53b1c7127b965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:23 +0000
Subject: [PATCH 04/36] fix: BibleBook.first_verse() passes its flags on to the
 verse it creates

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index bd6696c..35a5f72 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -199,7 +199,7 @@ class BibleBook(Enum):
         '''
         if chap_num is None:
             chap_num = self.min_chap_num()
-        return BibleVerse(self, chap_num, self.min_verse_num(chap_num, flags))        
+        return BibleVerse(self, chap_num, self.min_verse_num(chap_num, flags), flags=flags)
 
     def last_verse(self, chap_num: int = None) -> 'BibleVerse':
         '''Returns a `BibleVerse` for the last verse of the specified chapter of this `BibleBook`.
-- 
2.43.0


From 2dcd342b71ade4c0174f559ab7fd0777ed2a44cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:23 +0000
Subject: [PATCH 05/36] fix: BibleRange.chap_count() and book_count() honour
 their flags argument

---
 src/bibleref/ref.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 35a5f72..53a7b87 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -834,12 +834,12 @@ class BibleRange:
         If `whole` is True, only whole chapters are counted. Otherwise partial chapters are also included in the
         count.'''
         # We split the range into chapters, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_chap=True)
+        bible_ranges = self.split(by_chap=True, flags=flags)
         count = len(bible_ranges)
         if whole:
-            if not bible_ranges[0].is_whole_chap():
+            if not bible_ranges[0].is_whole_chap(flags):
                 count -= 1
-            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_chap():
+            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_chap(flags):
                 count -= 1
         return count
 
@@ -848,12 +848,12 @@ class BibleRange:
         
         If `whole` is True, only whole books are counted. Otherwise, partial books are also included in the count.'''
         # We split the range into books, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_book=True)
+        bible_ranges = self.split(by_book=True, flags=flags)
         count = len(bible_ranges)
         if whole:
-            if not bible_ranges[0].is_whole_book():
+            if not bible_ranges[0].is_whole_book(flags):
                 count -= 1
-            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_book():
+            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_book(flags):
                 count -= 1
         return count
 
-- 
2.43.0


From 23f46a4d071b21c92efdfa332fc44b4d5a66b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:23 +0000
Subject: [PATCH 06/36] fix: BibleRange.str(), BibleRangeList.str() and
 regrouping honour their flags argument

---
 src/bibleref/ref.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 53a7b87..499eab9 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -933,7 +933,7 @@ class BibleRange:
         
         range_list = BibleRangeList(split_result, flags=flags)
         if regroup:
-            range_list.regroup()
+            range_list.regroup(flags=flags)
         return range_list
 
     def is_disjoint(self, other_ref: 'BibleRef') -> bool:
@@ -1146,11 +1146,11 @@ class BibleRange:
         - If `force_start_verses` is `True`, the start verse of a range is made explicit if the end
           verse of the range is also being shown. Otherwise, the start verse is omitted where possible.
         '''
-        if self.spans_start_book():
+        if self.spans_start_book(flags):
             start_parts = BibleVersePart.BOOK
             at_verse_level = False
-        elif self.spans_start_chap():
-            if force_start_verses and not self.spans_end_chap():
+        elif self.spans_start_chap(flags):
+            if force_start_verses and not self.spans_end_chap(flags):
                 start_parts = BibleVersePart.FULL_REF
                 at_verse_level = True
             else:
@@ -1365,7 +1365,7 @@ class BibleRangeList(util.GroupedList):
             else:
                 # The two ranges can't be merged, so move on
                 node = node.next
-        self.regroup()
+        self.regroup(flags=flags)
 
     def is_disjoint(self, other_ref: 'BibleRef') -> bool:
         '''Returns `True` if every `BibleRange` is disjoint with all the verses in `other_ref`, otherwise `False`.
@@ -1614,7 +1614,7 @@ class BibleRangeList(util.GroupedList):
                 show_start_verse = True
 
             cur_book = bible_range.start.book
-            if (not show_start_verse) and (not bible_range.spans_end_chap()):
+            if (not show_start_verse) and (not bible_range.spans_end_chap(flags)):
                 # End verse will show verse num, and we've been asked to show start verse num in such cases
                 show_start_verse = True
                 at_verse_level = True
@@ -1743,7 +1743,7 @@ class BibleRangeList(util.GroupedList):
 
                 cur_book = bible_range.start.book
                 if force_start_verses and (BibleVersePart.VERSE not in start_parts) and \
-                   (not bible_range.spans_end_chap()):
+                   (not bible_range.spans_end_chap(flags)):
                     # End verse will show verse num, and we've been asked to show start verse num in such cases
                     start_parts |= BibleVersePart.VERSE
                     at_verse_level = True
-- 
2.43.0


From 4387137d291e7b96517c87ac532d4104c8d7081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:23 +0000
Subject: [PATCH 07/36] fix: BibleRange.is_adjacent() honours flags when given
 a list

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 499eab9..3a4834c 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -960,7 +960,7 @@ class BibleRange:
         if isinstance(other_ref, BibleRangeList):
             # BibleRangeList doesn't define is_adjacent(), so we have to implement here
             return other_ref.is_disjoint(self) and \
-                   any(self.is_adjacent(other_range) for other_range in other_ref) 
+                   any(self.is_adjacent(other_range, flags=flags) for other_range in other_ref) 
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
-- 
2.43.0


From 47003ab501158f1ec3770740323d6d8d9551ee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:04 +0000
Subject: [PATCH 08/36] fix: union and intersection of existing multibook
 ranges work when MULTIBOOK is unset

---
 src/bibleref/ref.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 3a4834c..eb3f85a 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1026,7 +1026,8 @@ class BibleRange:
             else:
                 start = min(self.start, other_ref.start)
                 end = max(self.end, other_ref.end)
-                return BibleRangeList([BibleRange(start=start, end=end, flags=flags)], flags=BibleFlag.ALL)
+                # We don't enforce existing flags on existing multibook ranges
+                return BibleRangeList([BibleRange(start=start, end=end, flags=BibleFlag.ALL)], flags=BibleFlag.ALL)
         else:
             raise ValueError(f"{other_ref} is not a valid BibleRef")
 
@@ -1050,7 +1051,8 @@ class BibleRange:
             else:
                 start = max(self.start, other_ref.start)
                 end = min(self.end, other_ref.end)
-                return BibleRangeList([BibleRange(start=start, end=end, flags=flags)], flags=BibleFlag.ALL)
+                # We don't enforce existing flags on existing multibook ranges
+                return BibleRangeList([BibleRange(start=start, end=end, flags=BibleFlag.ALL)], flags=BibleFlag.ALL)
         else:
             raise ValueError(f"{other_ref} is not a valid BibleRef")
 
-- 
2.43.0


From e08da404fa8e889ffd32832d92771ed203bef880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:04 +0000
Subject: [PATCH 09/36] fix: BibleRange.difference() at book boundaries and for
 existing multibook ranges

---
 src/bibleref/ref.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index eb3f85a..5b7ad58 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1075,14 +1075,15 @@ class BibleRange:
         if other_ref.contains(self):
             return BibleRangeList()
 
-        lower_range = BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags))
-        upper_range = BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end)
-        if self.surrounds(other_ref):
-            return BibleRangeList([lower_range, upper_range], flags=BibleFlag.ALL)
-        if self < other_ref:
-            return BibleRangeList([lower_range], flags=BibleFlag.ALL)
-        else:
-            return BibleRangeList([upper_range], flags=BibleFlag.ALL)
+        # We don't enforce existing flags on existing multibook ranges
+        flags = _resolve_flags(flags) | BibleFlag.MULTIBOOK
+        remaining_ranges = []
+        if self.start < other_ref.start: # There's a lower section
+            remaining_ranges.append(BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags),
+                                               flags=flags))
+        if self.end > other_ref.end: # There's an upper section
+            remaining_ranges.append(BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end, flags=flags))
+        return BibleRangeList(remaining_ranges, flags=BibleFlag.ALL)
 
     def sym_difference(self, other_ref: Union[BibleVerse, 'BibleRange'],
                    flags: BibleFlag = None) -> 'BibleRangeList':
-- 
2.43.0


From d571417367ad1eba49e3fda813cb225a9c405213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:04 +0000
Subject: [PATCH 10/36] fix: BibleRange.sym_difference() honours its flags
 argument

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 5b7ad58..79d2aae 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1107,7 +1107,7 @@ class BibleRange:
             # as the symmetric difference
             return union
         else: # Self and other_ref overlap
-            return union[0].difference(intersection[0])
+            return union[0].difference(intersection[0], flags=flags)
 
     def __iter__(self):
         verse = self.start
-- 
2.43.0


From 8a1e20b0045c65cb812fe42e7777d19dea352aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:04 +0000
Subject: [PATCH 11/36] fix: difference and symmetric difference of a
 BibleRange and a BibleRangeList

---
 src/bibleref/ref.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 79d2aae..49a858d 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1067,6 +1067,9 @@ class BibleRange:
 
         Using the `-` operator is equivalent to calling `difference()` with `flags = None`.
         '''
+        if isinstance(other_ref, BibleRangeList):
+            # difference() is not commutative, but we still use the BibleRangeList implementation.
+            return BibleRangeList([self]).difference(other_ref, flags=flags)
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
@@ -1095,6 +1098,9 @@ class BibleRange:
 
         Using the `^` operator is equivalent to calling `sym_difference()` with `flags = None`.
         '''
+        if isinstance(other_ref, BibleRangeList):
+            # Use the BibleRangeList implementation
+            return other_ref.sym_difference(self, flags=flags)
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
-- 
2.43.0


From af413927b4187706cc45a601b0dd19f37ed13c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:29 +0000
Subject: [PATCH 12/36] fix: BibleRangeList.difference_update() removes ranges
 that are wholly contained in other_ref

---
 src/bibleref/ref.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 49a858d..b5bfb76 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1501,9 +1501,10 @@ class BibleRangeList(util.GroupedList):
         #
         # In-place set difference requires us to make many updates to this list during iteration,
         # beyond what a for-loop can cope with. Therefore we use a while loop.
+        other_ranges = list(other_ref) # A copy, in case other_ref is this list
         self_node = self._first
         while self_node is not None:
-            for other_range in other_ref:
+            for other_range in other_ranges:
                 self_range = self_node.value
                 item_difference_list = self_range.difference(other_range, flags=flags)
                 if len(item_difference_list) > 0:
@@ -1515,8 +1516,15 @@ class BibleRangeList(util.GroupedList):
                         self._insert_before(self_node, difference_range)
                         self_node = self_node.prev
                     self._pop_node(old_self_node)
-            self_node = self_node.next
-        self.merge()
+                else:
+                    # Nothing remains of this item
+                    next_node = self_node.next
+                    self._pop_node(self_node)
+                    break
+            else:
+                next_node = self_node.next
+            self_node = next_node
+        self.merge(flags=flags)
 
     def sym_difference(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are either in this `BibleRangeList`, or in `other_ref`,
-- 
2.43.0


From 0940b339e6c157069ccb185cc27c7020448fe274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:29 +0000
Subject: [PATCH 13/36] fix: BibleRangeList in-place set operators return the
 list rather than None

---
 src/bibleref/ref.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index b5bfb76..31d7d42 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1572,16 +1572,20 @@ class BibleRangeList(util.GroupedList):
         return self.sym_difference(other_ref)
 
     def __ior__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.union_update(other_ref)    
+        self.union_update(other_ref)
+        return self
 
     def __iand__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.intersection_update(other_ref)
+        self.intersection_update(other_ref)
+        return self
 
     def __isub__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.difference_update(other_ref)
+        self.difference_update(other_ref)
+        return self
 
     def __ixor__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.sym_difference_update(other_ref)
+        self.sym_difference_update(other_ref)
+        return self
 
     def __repr__(self):
         return f'BibleRangeList("{self.str()}")'
-- 
2.43.0


From 61f0f25a0f8caaff51c7d615b7bd05c64d30b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:29 +0000
Subject: [PATCH 14/36] fix: extending a GroupedList with itself or one of its
 own groups terminates

---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 00623d6..0d0612e 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -482,13 +482,13 @@ class GroupedList(MutableSequence):
         
         The new items all form a single new group.'''
         is_first_item = True
-        for item in iterable:
+        for item in list(iterable): # A copy, in case iterable is (a view of) this list
             self.append(item, new_group=is_first_item)
             is_first_item = False
 
     def extend(self, iterable):
         '''Appends each item of `iterable` to the end of this list.'''
-        for item in iterable:
+        for item in list(iterable): # A copy, in case iterable is (a view of) this list
             self.append(item)
 
     def insert(self, index: int, value):
-- 
2.43.0


From 59e8ceddb3c622d1c63be11debde1bcef8a6c210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:54 +0000
Subject: [PATCH 15/36] fix: in-place intersection and symmetric difference
 keep the groups of the consolidated result

---
 src/bibleref/ref.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 31d7d42..8b16e48 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1465,7 +1465,8 @@ class BibleRangeList(util.GroupedList):
         '''
         intersection_list = self.intersection(other_ref, flags=flags)
         self.clear()
-        self.extend(intersection_list)
+        for group in intersection_list.groups:
+            self.append_group(group)
 
     def difference(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are in this `BibleRangeList`, but not in `other_ref`.
@@ -1552,7 +1553,8 @@ class BibleRangeList(util.GroupedList):
         '''
         sym_difference_list = self.sym_difference(other_ref, flags=flags)
         self.clear()
-        self.extend(sym_difference_list)
+        for group in sym_difference_list.groups:
+            self.append_group(group)
 
     def __contains__(self, bible_ref) -> bool:
         '''Returns True if item is a BibleRef that falls within this range, otherwise False.
-- 
2.43.0


From 2584db1c5508d40af2980094fe9c18f506815998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:54 +0000
Subject: [PATCH 16/36] fix: BibleRangeList.range(), chap_range() and
 book_range() include ranges nested in or overlapping others

---
 src/bibleref/ref.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 8b16e48..b9083de 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1321,8 +1321,8 @@ class BibleRangeList(util.GroupedList):
         BibleFlag.ALL is always set for this method, regardless of the value of `bibleref.flags`.
         '''
         min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start, end=max_range.end, flags=BibleFlag.ALL)
+        max_end: BibleVerse = max(bible_range.end for bible_range in self)
+        return BibleRange(start=min_range.start, end=max_end, flags=BibleFlag.ALL)
 
     def chap_range(self, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns a new minimum `BibleRange` that includes every verse in this list, and begins and ends at
@@ -1333,8 +1333,8 @@ class BibleRangeList(util.GroupedList):
         flags = _resolve_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start.first_verse(flags=flags), end=max_range.end.last_verse(),
+        max_end: BibleVerse = max(bible_range.end for bible_range in self)
+        return BibleRange(start=min_range.start.first_verse(flags=flags), end=max_end.last_verse(),
                           flags=flags)
 
     def book_range(self, flags: BibleFlag = None) -> 'BibleRange':
@@ -1346,8 +1346,8 @@ class BibleRangeList(util.GroupedList):
         flags = _resolve_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start.book.first_verse(flags=flags), end=max_range.end.book.last_verse(),
+        max_end: BibleVerse = max(bible_range.end for bible_range in self)
+        return BibleRange(start=min_range.start.book.first_verse(flags=flags), end=max_end.book.last_verse(),
                           flags=flags)
 
     def sort(self, regroup: bool = True):
-- 
2.43.0


From bc1913283758f19b484ddc63f4655b8038453436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:54 +0000
Subject: [PATCH 17/36] fix: BibleRangeList.contains() recognises existing
 multibook ranges when MULTIBOOK is unset

---
 src/bibleref/ref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index b9083de..0ef4cb6 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1397,9 +1397,9 @@ class BibleRangeList(util.GroupedList):
             other_ref = BibleRangeList([BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)])
         elif isinstance(other_ref, BibleRange):
             other_ref = BibleRangeList([other_ref])
-        # Create a consolidated copy of ourselves
+        # Create a consolidated copy of ourselves (and we don't enforce existing flags on multibook ranges)
         self_copy = BibleRangeList(self)
-        self_copy.merge(flags=flags)
+        self_copy.merge(flags=_resolve_flags(flags) | BibleFlag.MULTIBOOK)
         # Every one of the other list's ranges must be contained by at least one of the our ranges
         return all(any(self_range.contains(other_range) for self_range in self_copy) for other_range in other_ref)
 
-- 
2.43.0


From 56b1b113d314fdfdb10e4dde1f93845f1b2b9ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:16 +0000
Subject: [PATCH 18/36] fix: iterating over a BibleRange includes verse 0s when
 VERSE_0 is set

---
 src/bibleref/ref.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 0ef4cb6..2e9d1f1 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1116,10 +1116,13 @@ class BibleRange:
             return union[0].difference(intersection[0], flags=flags)
 
     def __iter__(self):
+        flags = _resolve_flags(None) | BibleFlag.MULTIBOOK
+        if self.start.verse_num == 0 or self.end.verse_num == 0:
+            flags |= BibleFlag.VERSE_0 # Honour existing verse 0s
         verse = self.start
         while verse is not None and verse <= self.end:
             yield verse
-            verse = verse.add(1, BibleFlag.MULTIBOOK) # `verse`` will be None if we're on the last verse of the Bible
+            verse = verse.add(1, flags) # `verse`` will be None if we're on the last verse of the Bible
 
     def __contains__(self, bible_ref) -> bool:
         '''Returns True if item is a BibleRef that falls within this range, otherwise False.
-- 
2.43.0


From 91174a976dc88511edd7badd95033774f3f5ee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:28 +0000
Subject: [PATCH 19/36] fix: GroupedList raises IndexError for negative indices
 that are out of range

---
 src/bibleref/util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 0d0612e..4ea886f 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -89,7 +89,7 @@ class GroupedList(MutableSequence):
             '''
             if group_index < 0:
                 group_index += self.parent._group_count
-            if group_index >= self.parent._group_count:
+            if group_index < 0 or group_index >= self.parent._group_count:
                 raise IndexError(f"Group index {group_index} out of range")
             return group_index
 
@@ -215,7 +215,7 @@ class GroupedList(MutableSequence):
         '''
         if index < 0:
             index += self._node_count
-        if index >= self._node_count:
+        if index < 0 or index >= self._node_count:
             raise IndexError(f"List index {index} out of range")
         return index
 
@@ -508,8 +508,7 @@ class GroupedList(MutableSequence):
     def pop(self, index: int = None):
         '''Removes the item at the given `index`, and returns its value.'''
         if index is None:
-            index = self._node_count - 1
-        index = self._conform_index(index)
+            index = -1
         return self._pop_node(self._node_at(index))
 
     def remove(self, value):
-- 
2.43.0


From 6ecc4942843c44bbab322138670ebe2a3f183bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:28 +0000
Subject: [PATCH 20/36] fix: GroupedList.insert_group_at() an existing group
 start leaves the groups unchanged

---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 4ea886f..c40df45 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -318,8 +318,8 @@ class GroupedList(MutableSequence):
             self._first_head = node
 
     def _insert_new_group_at_node(self, node: 'GroupedList._Node'):
-        if node is self._first:
-            # First node is always already a group.
+        if node.is_group_head:
+            # Node already starts a group (as the first node always does).
             return
         node.is_group_head = True
         prev_group_head = self._find_group_head(node.prev)
-- 
2.43.0


From 86f59f93d8b2a811c5c214d2ac5122f6a7d8407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:28 +0000
Subject: [PATCH 21/36] fix: GroupedList.clear() invalidates existing views of
 the cleared groups

---
 src/bibleref/util.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index c40df45..1991715 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -190,7 +190,7 @@ class GroupedList(MutableSequence):
         
         If the items of `iterable` are Python lists or tuples, each element of `iterable` is added as a
         separate group.'''
-        self.clear()
+        self._reset()
         if iterable is None:
             return
         for item in iterable:
@@ -525,6 +525,14 @@ class GroupedList(MutableSequence):
 
     def clear(self):
         '''Removes all items from the list.'''
+        for node in self._node_iter():
+            # Any existing views of the list's groups are no longer valid
+            node.parent = None
+            node.clear_group_head()
+        self._reset()
+
+    def _reset(self):
+        '''Sets up the attributes of an empty list.'''
         self._first: GroupedList._Node = None          # First node
         self._last: GroupedList._Node = None           # Last node
         self._node_count: int = 0                    # Count of nodes
-- 
2.43.0


From 5ed6de983d7414a5ae2c8c7d68400717c77f30d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:55 +0000
Subject: [PATCH 22/36] fix: sorting (and merging) lists longer than the
 recursion limit

---
 src/bibleref/util.py | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 1991715..208f31a 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -615,25 +615,29 @@ class GroupedList(MutableSequence):
                               first_node_B: 'GroupedList._Node', last_node_B: 'GroupedList._Node'):
         '''Combines two sublists (A and B) into a single sorted list. Returns a tuple of
         (new_first_node, new_last_node)'''
-        if first_node_A is None:
-            return (first_node_B, last_node_B)
-        if first_node_B is None:
-            return (first_node_A, last_node_A)
-        
-        if first_node_A <=  first_node_B: # Nodes compare using their values
-            (next_first_node, new_last_node) = self._merge_sublists(first_node_A.next, last_node_A,
-                                                                    first_node_B, last_node_B)
-            first_node_A.next = next_first_node
-            next_first_node.prev = first_node_A
-            first_node_A.prev = None
-            return (first_node_A, new_last_node)
-        else: # first_node_B is less than first_node_A
-            (next_first_node, new_last_node) = self._merge_sublists(first_node_A, last_node_A,
-                                                                    first_node_B.next, last_node_B)
-            first_node_B.next = next_first_node
-            next_first_node.prev = first_node_B
-            first_node_B.prev = None
-            return (first_node_B, new_last_node)
+        # We merge iteratively, as a recursive merge is limited by the recursion limit for long lists.
+        new_first_node = None
+        new_last_node = None
+        while first_node_A is not None and first_node_B is not None:
+            if first_node_A <= first_node_B: # Nodes compare using their values
+                node = first_node_A
+                first_node_A = first_node_A.next
+            else: # first_node_B is less than first_node_A
+                node = first_node_B
+                first_node_B = first_node_B.next
+            node.prev = new_last_node
+            if new_last_node is None:
+                new_first_node = node
+            else:
+                new_last_node.next = node
+            new_last_node = node
+
+        # One of the sublists is used up, so add on all of what remains of the other
+        (rest_first_node, rest_last_node) = (first_node_A, last_node_A) if first_node_A is not None else \
+                                            (first_node_B, last_node_B)
+        new_last_node.next = rest_first_node
+        rest_first_node.prev = new_last_node
+        return (new_first_node, rest_last_node)
 
     #
     # End of sort-related methods
-- 
2.43.0


From d58339a64b38093aec1978b360ac165a9afdcb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:55 +0000
Subject: [PATCH 23/36] fix: comparing a GroupedList for equality with an
 object that has no length

---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 208f31a..2154068 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -661,11 +661,11 @@ class GroupedList(MutableSequence):
         
         If `compare_groups` is `True`, `other_iterable` must also be a `GroupedList` and the groups of the
         two lists must match, otherwise returns `False`.'''
+        if compare_groups and not isinstance(other_iterable, GroupedList):
+            return False
         if len(self) != len(other_iterable):
             return False
         if compare_groups:
-            if not isinstance(other_iterable, GroupedList):
-                return False
             if self._group_count != other_iterable._group_count:
                 return False
             self_groups = list(self.groups)
-- 
2.43.0


From 5a7badd74c8b23b69967f43211ec98432217ab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:55 +0000
Subject: [PATCH 24/36] fix: GroupedList.index() on an empty list raises
 ValueError

---
 src/bibleref/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 2154068..2c63421 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -436,6 +436,8 @@ class GroupedList(MutableSequence):
         if limit_index is None:
             limit_index = self._node_count
         self._check_type(value)
+        if self._node_count == 0:
+            raise ValueError(f"Value {value} not found in list")
         min_index = self._conform_index(min_index)
         limit_index = self._conform_index(limit_index-1) + 1
         if min_index > limit_index: # Swap
-- 
2.43.0


From 0d13c863b8b8a8117d5ad596b29163e8ed0feefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:50 +0000
Subject: [PATCH 25/36] fix: parsing a string no longer depends on strings
 parsed earlier or in other threads

---
 src/bibleref/parser.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index fd1b1e8..b9a5f9e 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -28,17 +28,6 @@ def _parser():
     return _parser_obj
 
 
-_transformer_obj = None
-
-def _transformer():
-    '''Return a Lark Transformer singleton.'''
-    global _transformer_obj
-
-    if _transformer_obj is None:
-        _transformer_obj = _BibleRefTransformer()
-    return _transformer_obj
-
-
 def _parse(string, flags: ref.BibleFlag = None):
     '''Parse `string` as a `bibleref.ref.BibleRefList` using `BibleRefTransformer`.'''
     try:
@@ -53,8 +42,8 @@ def _parse(string, flags: ref.BibleFlag = None):
     
     try:
         flags = ref._resolve_flags(flags)
-        _transformer().flags = flags
-        range_groups_list = _transformer().transform(tree)
+        # Each parse needs its own transformer, as it holds the implied book and chapter of the string being parsed
+        range_groups_list = _BibleRefTransformer(flags=flags).transform(tree)
     except VisitError as e:
         raise e.orig_exc
     return range_groups_list
-- 
2.43.0


From 0d8d1c9b57621952074af4597a7f73fe1c918ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:50 +0000
Subject: [PATCH 26/36] fix: parsing a range of whole chapters or books whose
 end precedes its start

---
 src/bibleref/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index b9a5f9e..f1935bc 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -82,6 +82,8 @@ class _BibleRefTransformer(Transformer):
     def dual_ref(self, meta, children): # Children: single_ref RANGE_SEP single_ref
         first: ref.BibleRange = children[0]
         second: ref.BibleRange = children[2]
+        if first.start > second.end: # Swap around, as BibleRange() does
+            (first, second) = (second, first)
         # We don't need to update self.cur_book or self.cur_chap_num as they will
         # have already been updated by the parsing of the second BibleRange child.
         try:
-- 
2.43.0


From edde5ac9ccead536aa15457031f965e580f8aa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:50 +0000
Subject: [PATCH 27/36] fix: position of parsing errors at the end of the
 string

---
 src/bibleref/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index f1935bc..8fd74cf 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -35,6 +35,8 @@ def _parse(string, flags: ref.BibleFlag = None):
     except UnexpectedInput as orig:
         start_pos=orig.pos_in_stream
         end_pos=orig.pos_in_stream + 1
+        if start_pos < 0: # Unexpected end of the string
+            start_pos = end_pos = len(string)
         new_error = ref.BibleRefParsingError(f"Unexpected text: {string[start_pos:end_pos]}",
                                          start_pos, end_pos)
         new_error.orig = orig
-- 
2.43.0


From e8c731f6324381b42a78bafdb4e16e84df25931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:50 +0000
Subject: [PATCH 28/36] fix: numbers too long for int() raise a
 BibleRefParsingError

---
 src/bibleref/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 8fd74cf..2e54207 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -190,7 +190,10 @@ class _BibleRefTransformer(Transformer):
         return book
 
     def NUM(self, token):
-        return int(token)
+        try:
+            return int(token)
+        except ValueError: # Python limits the number of digits it will convert
+            raise ref.BibleRefParsingError("Number too long", token.start_pos, token.end_pos)
 
 def _recreate_parser():
     global _parser_obj
-- 
2.43.0


From cc67b64d6bc39904be8345420a1d1255bde7ecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:50 +0000
Subject: [PATCH 29/36] fix: chap_num argument of BibleVerse.max_verse_num() is
 optional, as documented

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 2e9d1f1..cd35de9 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -399,7 +399,7 @@ class BibleVerse:
             chap_num = self.chap_num
         return self.book.min_verse_num(chap_num, flags=flags)
 
-    def max_verse_num(self, chap_num: int) -> int:
+    def max_verse_num(self, chap_num: int = None) -> int:
         '''Return the highest verse number for the specified chapter of the `BibleBook` containing this verse.
         If no chapter is specified, it returns the highest verse number of the chapter containing this `BibleVerse`.
         '''
-- 
2.43.0


From 32d95ae8a2d97ec04b196054257956cf32c133b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:50 +0000
Subject: [PATCH 30/36] fix: BibleRange() without both start and end verses
 raises ValueError

---
 src/bibleref/ref.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index cd35de9..fe1ea1e 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -668,6 +668,8 @@ class BibleRange:
         '''
         flags = _resolve_flags(flags)
         if len(args) == 0:
+            if not isinstance(start, BibleVerse) or not isinstance(end, BibleVerse):
+                raise ValueError("BibleRange needs both a start and an end BibleVerse")
             if BibleFlag.MULTIBOOK not in flags and start.book != end.book:
                 raise MultibookRangeNotAllowedError(f"Multi-book ranges not allowed " + 
                                                     f"({start.book.abbrev} and {end.book.abbrev} are different)")
-- 
2.43.0


From cd39e1009653da661da9df4e15d89a84417bc273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:33 +0000
Subject: [PATCH 31/36] fix: BibleRangeList.str() no longer displays every
 single reference after a forced range as a range

---
 src/bibleref/ref.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index fe1ea1e..f9d2dc2 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1694,6 +1694,7 @@ class BibleRangeList(util.GroupedList):
         for group in self.groups:
             for bible_range in group:
                 bible_range: BibleRange = bible_range # Typecast                
+                force_dual_ref = False
                 if bible_range.spans_start_book(flags): # Range start includes an entire book
                     # Even if already in same book, whole book references repeat the whole book name.
                     start_parts = BibleVersePart.BOOK
-- 
2.43.0


From 925c532be4588776f2ca1935bf0c5f193d4e7585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:33 +0000
Subject: [PATCH 32/36] fix: force_start_verses shows the start chapter and
 verse of ranges that begin with a whole book

---
 src/bibleref/ref.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index f9d2dc2..35c1b58 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1161,7 +1161,10 @@ class BibleRange:
           verse of the range is also being shown. Otherwise, the start verse is omitted where possible.
         '''
         if self.spans_start_book(flags):
-            start_parts = BibleVersePart.BOOK
+            if force_start_verses and not self.spans_end_chap(flags):
+                start_parts = BibleVersePart.FULL_REF
+            else:
+                start_parts = BibleVersePart.BOOK
             at_verse_level = False
         elif self.spans_start_chap(flags):
             if force_start_verses and not self.spans_end_chap(flags):
@@ -1774,7 +1777,7 @@ class BibleRangeList(util.GroupedList):
                 if force_start_verses and (BibleVersePart.VERSE not in start_parts) and \
                    (not bible_range.spans_end_chap(flags)):
                     # End verse will show verse num, and we've been asked to show start verse num in such cases
-                    start_parts |= BibleVersePart.VERSE
+                    start_parts |= BibleVersePart.CHAP_VERSE
                     at_verse_level = True
 
                 start_str = bible_range.start.str(abbrev, alt_sep, nospace, start_parts) 
-- 
2.43.0


From 0a791835f0b952335e7228f3a90ce471f0efe8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:33 +0000
Subject: [PATCH 33/36] fix: full book titles are recognised without their
 spaces, as produced by the nospace option

---
 src/bibleref/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index 63b9697..c497d8e 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -158,8 +158,8 @@ class BibleData:
                     full_title_pattern += "(" + char
                 full_title_pattern += ")?" * (len(full_title)-min_chars)
 
-                # Allow for extra whitespace.
-                full_title_pattern = full_title_pattern.replace(" ",r"\s+")
+                # Allow for extra (or no) whitespace.
+                full_title_pattern = full_title_pattern.replace(" ",r"\s*")
 
                 # Collate the extra acceptable abbreviations, and combine everything into a final,
                 # single regex for the book
-- 
2.43.0


From 5d504e00df5ab581dd42782a8a6e22f2e5e90faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:10 +0000
Subject: [PATCH 34/36] fix: a book without versification data has no chapters,
 and its references are refused as invalid

---
 src/bibleref/ref.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 35c1b58..af25e5d 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -165,10 +165,7 @@ class BibleBook(Enum):
     def min_chap_num(self) -> int:
         '''Return lowest chapter number (currently always 1) for this `BibleBook`.
         '''
-        if self._max_verses is None:
-            return 0
-        else:
-            return 1    # Currently always 1. Perhaps in future some books may have a chapter-0 prologue included?
+        return 1    # Currently always 1. Perhaps in future some books may have a chapter-0 prologue included?
 
     def max_chap_num(self) -> int:
         '''Return highest chapter number for this `BibleBook`.
-- 
2.43.0


From 0f11945b7ea4230e74b814b8247cce06b75917a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:56 +0000
Subject: [PATCH 35/36] fix: copies and pickles of a list get nodes of their
 own

---
 src/bibleref/util.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 2c63421..934ada8 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -645,6 +645,16 @@ class GroupedList(MutableSequence):
     # End of sort-related methods
     #
 
+    # Copies and pickles are made from the items and groups only, so that a copy gets nodes of its own.
+
+    def __getstate__(self):
+        return self.to_nested_lists()
+
+    def __setstate__(self, state):
+        self._reset()
+        for group in state:
+            self.append_group(group)
+
     def __len__(self):
         return self._node_count
     
-- 
2.43.0


From 2fdac59948228f87dec4e7dc965203058b4b7e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:06 +0000
Subject: [PATCH 36/36] fix: splitting by less than one verse is refused
 instead of looping forever

---
 src/bibleref/ref.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index af25e5d..4bf5c30 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -885,6 +885,8 @@ class BibleRange:
           `BibleRangeList` will contain this range only.
         - If `regroup` is `True`, regroup() is called on the resulting `BibleRangeList`.
         '''
+        if num_verses is not None and num_verses < 1:
+            raise ValueError("num_verses must be at least 1")
         flags = _resolve_flags(flags)
         # Set flags if our attributes imply they should be set
         if self.start.book != self.end.book:
-- 
2.43.0

