From b9358268efdb0c22254b91f2feb5b698e3f752c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 01/42] fix: collation.unescape decodes every escape, in one
 pass

re.I was passed as the count argument of re.sub, so only the first two \u
escapes were decoded, lower case hex digits were not, and a later pass could
take an escaped backslash for the start of another escape.
---
 lib/sldr/collation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 7e64c67..3d8733c 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -35,10 +35,12 @@ def escape(s, allchars=False):
 
 def unescape(s):
     '''Parse tailoring escaped characters into normal Unicode'''
-    s = re.sub(r'(?:\\U([0-9A-F]{8})|\\u([0-9A-F]{4}))', lambda m: chr(int(m.group(m.lastindex), 16)), s, re.I)
-    s = re.sub(r'\\(.)', r'\1', s)
-    s = s.replace("''", "'")
-    return s
+    def unesc(m):
+        if m.group(1) or m.group(2):
+            return chr(int(m.group(m.lastindex), 16))
+        return m.group(3) or "'"
+    # one pass, so that the output of one escape is never taken as part of another
+    return re.sub(r"\\U([0-9A-Fa-f]{8})|\\u([0-9A-Fa-f]{4})|\\(.)|''", unesc, s)
 
 def ducetSortKey(d, k, extra=None, fn=None):
     '''Turn a sequence of sort keys for the given string into a single
-- 
2.43.0


From a47cf2c4886d7571083ba55b9b87b98408c3384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 02/42] fix: equal SortKeys compare equal and hash alike

cmp() returned 4 for equal keys, so k == k was False and k > k True, and
keys differing only in trailing zeros, which compare equal, hashed apart.
---
 lib/sldr/collation.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 3d8733c..63b7662 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -158,13 +158,8 @@ class SortKey(list):
 
     def cmp(self, other):
         ''' Returns the level of the difference and negative if self < other '''
-        return diffLevel(other, self)
-        for i, z in enumerate(zip_longest(self, other)):
-            if z[0] < z[1]:
-                return -(i+1)
-            elif z[0] > z[1]:
-                return i+1
-        return 0
+        res = diffLevel(other, self)
+        return 0 if res == 4 else res      # 4 is no difference at any level
 
     def __lt__(self, other):
         return self.cmp(other) < 0
@@ -191,7 +186,7 @@ class SortKey(list):
         return self.__class__([v.copy() for v in self])
 
     def __hash__(self):
-        return hash(tuple(tuple(x) for x in self))
+        return hash(tuple(tuple(stripzero(x)) for x in self[:3]))   # as compared by __eq__
 
 
 class Collation(UserDict):
-- 
2.43.0


From 3aca0ed9434d6a1fd845a52871eb4acc1cc2921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 03/42] fix: SortKey + SortKey is a SortKey

It gave a plain list, whose copy() is shallow, so calculating the key of an
element tailored after an expansion changed the keys of the others. += lost
the key altogether.
---
 lib/sldr/collation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 63b7662..1dc8dfd 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -147,8 +147,8 @@ class SortKey(list):
     """ List of subkeys for each level. Each subkey is a list of values """
     def add(self, other):
         if other is None:
-            return self[:]
-        return [a[0]+a[1] for a in zip_longest(self, other)]
+            return self.copy()
+        return self.__class__([a[0]+a[1] for a in zip_longest(self, other)])
 
     def append(self, other):
         self[:] = self.add(other)
@@ -177,7 +177,8 @@ class SortKey(list):
         return self.cmp(other) <= 0
 
     def __iadd__(self, other):
-        return self.append(other)
+        self.append(other)
+        return self
 
     def __ne__(self, other):
         return self.cmp(other) != 0
-- 
2.43.0


From a7d3a874ca868b20a315c506fe9cd813aa467e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 04/42] fix: all of planes 15 and 16 is private use

is_pua only knew the last 126 characters of each, so other private use
characters were written to exemplars without a hex escape.
---
 lib/sldr/ldml_exemplars.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index db0cf76..0bcf94b 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -162,9 +162,9 @@ class UCD(object):
         numeric_char = ord(char)
         if 0xE000 <= numeric_char <= 0xF8FF:
             return True
-        if 0xFFF80 <= numeric_char < 0xFFFFE:
+        if 0xF0000 <= numeric_char < 0xFFFFE:
             return True
-        if 0x10FF80 <= numeric_char < 0x10FFFE:
+        if 0x100000 <= numeric_char < 0x10FFFE:
             return True
         return False
 
-- 
2.43.0


From c7e3737990fed1f7b0a8914165a7f55188e1be25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:56 +0000
Subject: [PATCH 05/42] fix: UnicodeSets.parse reads back what list2us writes

An escaped backslash could be taken for the start of a hex escape or for the
escape of a following ] or }, and a space given as \u0020 was dropped along
with the unescaped ones.
---
 lib/sldr/UnicodeSets.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index a9957b3..8e5f300 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -25,8 +25,9 @@
 import unicodedata
 import re
 
-hexescre = re.compile(r"(?:\\(?:ux)\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})|\\x([0-9a-fA-F]{2}))")
-hexgre = re.compile(r"\\u\{([0-9a-fA-F]+)\}")
+# the leading \\\\ in these skips an escaped backslash, which can't start a hex escape
+hexescre = re.compile(r"(?:\\\\|\\(?:ux)\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})|\\x([0-9a-fA-F]{2}))")
+hexgre = re.compile(r"\\\\|\\u\{([0-9a-fA-F]+)\}")
 simpleescs = {
     'a' : "\u0007",
     'b' : "\u0008",
@@ -37,6 +38,7 @@ simpleescs = {
     'r' : "\u000D",
     '\\' : "\u005C"
 }
+spacere = re.compile(r"(\\.)| ", re.S)
 simpleescsre = re.compile(r"\\([^0-9])")
 groupsre = re.compile(r"\\([0-9]+)")
 
@@ -188,8 +190,20 @@ def flatten(s, normal=None):
         yield "".join(_expand(p, vals, i, x) for i, x in enumerate(indices))
 
 
+def _unhex(m):
+    return escapechar(chr(int(m.group(m.lastindex), 16))) if m.lastindex else m.group(0)
+
+
+def _findclose(s, c, ind):
+    '''Returns the index of the first c, from ind, that is not escaped'''
+    e = s.index(c, ind)
+    while (e - ind - len(s[ind:e].rstrip('\\'))) % 2:     # odd number of \s before it
+        e = s.index(c, e+1)
+    return e
+
+
 def struni(s, groups=None):
-    s = hexescre.sub(lambda m:escapechar(chr(int(m.group(m.lastindex), 16))), s)
+    s = hexescre.sub(_unhex, s)
     s = simpleescsre.sub(lambda m:simpleescs.get(m.group(1), m.group(1)), s)
     if groups is not None:
         s = groupsre.sub(lambda m:groups[int(m.group(1)) - 1], s)
@@ -199,10 +213,10 @@ def struni(s, groups=None):
 def parse(s, normal=None):
     '''Returns a sequence of UnicodeSet'''
     # convert escapes
-    s = hexescre.sub(lambda m:escapechar(chr(int(m.group(m.lastindex), 16))), s)
+    s = hexescre.sub(lambda m:_unhex(m).replace(' ', '\\ '), s)
     # don't flatten \\ escapes here since we need to differentiate with action chars {}[]
-    s = hexgre.sub(lambda m:"{"+"".join(escapechar(chr(int(x, 16))) for x in m.group(1).split())+"}", s)
-    s = s.replace(' ', '')
+    s = hexgre.sub(lambda m:"{"+"".join(escapechar(chr(int(x, 16))) for x in m.group(1).split())+"}" if m.group(1) else m.group(0), s)
+    s = spacere.sub(lambda m:m.group(1) or '', s)
     res = UnicodeSetSequence()
     i = 0
     currgroup = -1
@@ -232,9 +246,7 @@ def parseitem(s, ind, lastitem, end, usegroups=False):
             ind += 1
         item = None
         res.setclass(True)
-        e = s.index(']', ind)
-        while e > 0 and s[e-1] == '\\' and s[e-2] != '\\':
-            e = s.index(']', e+1)
+        e = _findclose(s, ']', ind)
         while ind < e:
             (ind, item, nextitem) = parseitem(s, ind, item, e)
             if item:
@@ -296,9 +308,7 @@ def parseitem(s, ind, lastitem, end, usegroups=False):
             else:
                 res.add(op)
     elif s[ind] == '{':
-        e = s.index('}', ind+1)
-        while e > 0 and s[e-1] == '\\':
-            e = s.index('}', e+1)
+        e = _findclose(s, '}', ind+1)
         res.add(simpleescsre.sub(lambda m:simpleescs.get(m.group(1), m.group(1)), s[ind+1:e]))
         ind = e + 1
     elif s[ind] == '\\':
-- 
2.43.0


From 19950391ec7effd5ec4cfb9feadf0c13dc678853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:09 +0000
Subject: [PATCH 06/42] fix: UnicodeSets.flatten gives every combination

It stepped to the second combination before giving the first, so 'a' gave
nothing, and took a backslash for a group reference.
---
 lib/sldr/UnicodeSets.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index 8e5f300..370bf9b 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -164,7 +164,7 @@ class UnicodeSet(set):
 
 
 def _expand(p, vals, ind, indval):
-    if vals[ind][indval].startswith("\\"):
+    if groupsre.match(vals[ind][indval]):
         g = p.group(int(vals[ind][indval][1]))
         return "".join(_expand(p, vals, i, indices[i]) for i in range(g[0], g[1]))
     else:
@@ -178,6 +178,7 @@ def flatten(s, normal=None):
     num = len(vals)
     indices = [0] * num
     while True:
+        yield "".join(_expand(p, vals, i, x) for i, x in enumerate(indices))
         for i in range(num):
             if indices[i] == lens[i] - 1:
                 indices[i] = 0
@@ -186,8 +187,6 @@ def flatten(s, normal=None):
                 break
         else:
             return
-        res = []
-        yield "".join(_expand(p, vals, i, x) for i, x in enumerate(indices))
 
 
 def _unhex(m):
-- 
2.43.0


From eb7229e476f9bf6db133d5eba278bcc7ed57bcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 07/42] fix: IterDict iterates over every combination of its
 values

Lists were always wrapped, giving the whole list as the one value, and
earlier positions were not reset when a later one was stepped.
---
 lib/sldr/xmltemplate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/xmltemplate.py b/lib/sldr/xmltemplate.py
index 20ab8c9..6eb33a2 100644
--- a/lib/sldr/xmltemplate.py
+++ b/lib/sldr/xmltemplate.py
@@ -14,7 +14,7 @@ class IterDict(object) :
         self.atstart = True
 
     def __setitem__(self, key, value) :
-        if isinstance(value, str) or not hasattr(value, 'len') :
+        if not isinstance(value, list) :
             value = [value]
         self.keys[key] = len(self.values)
         self.values.append(value)
@@ -32,11 +32,14 @@ class IterDict(object) :
     def __next__(self) :
         if self.atstart :
             self.atstart = False
+            if not all(self.values) :       # a key with no values has no combinations
+                raise StopIteration
             return self.asdict()
         for i in range(len(self.indices)) :
             if self.indices[i] + 1 < len(self.values[i]) : 
                 self.indices[i] += 1
                 return self.asdict()
+            self.indices[i] = 0
         raise StopIteration
 
 def asstr(v) :
-- 
2.43.0


From edf37d515ff2abcf2011ad558477071ce8233da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 08/42] fix: a refused LangTag.merge_equivalent changes nothing

On a region mismatch hidescript had already been set, so en-Latn-US was
written en-US after failing to merge with en-GB.
---
 lib/sldr/langtags_full.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 5d01620..bb4e5fb 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -172,7 +172,8 @@ class LangTag(object) :
         if len(extensions) : self.extensions = extensions
 
     def merge_equivalent(self, tag) :
-        oldscript = self.script
+        if self.region is not None and tag.region is not None and self.region != tag.region:
+            return False
         if self.script is None and self.script != tag.script:
             self.script = tag.script
         elif tag.script is not None and self.script != tag.script:
@@ -183,9 +184,6 @@ class LangTag(object) :
             self.hidescript = True
         if self.region is None and self.region != tag.region:
             self.region = tag.region
-        elif tag.region is not None and tag.region != self.region:
-            self.script = oldscript
-            return False
         elif tag.region is None:
             self.hidescript = True  # yes really script
         if self.region == tag.region and not self.hideregion:
-- 
2.43.0


From 4e1267e918c22c3d506ee10e0dcbd602e735f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 09/42] fix: Iana keeps each registry record's fields to itself

Records for whole tags added their fields to the subtag record before them,
a folded line after a repeated field was added a letter at a time, and a
folded line with a colon in it was also taken for a field.
---
 lib/sldr/iana.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/iana.py b/lib/sldr/iana.py
index bc9f9ed..9914d58 100644
--- a/lib/sldr/iana.py
+++ b/lib/sldr/iana.py
@@ -35,8 +35,14 @@ class Iana(object):
         currtag = {}
         with open(path, "r", encoding='utf-8') as fh:
             for l in fh.readlines():
-                if l.startswith(" "):
-                    currtag[currfield] += " " + l.strip()
+                if l.startswith(" "):       # continues the last field
+                    if isinstance(currtag[currfield], list):
+                        currtag[currfield][-1] += " " + l.strip()
+                    else:
+                        currtag[currfield] += " " + l.strip()
+                    continue
+                if l.strip() == "%%":       # start of a new record
+                    currtag = {}
                 try:
                     f, v = l.strip().split(":", 1)
                 except ValueError:
-- 
2.43.0


From 975ea7ed8782874b3f00c35f1c0e3ffd6e02e70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 10/42] fix: get_parent_locales reads the text of a fallback
 element

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 86d12a7..33a1c76 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -744,7 +744,7 @@ class Ldml(ETWriter):
             self.__class__.ReadSupplementalData()
         fall = self.root.find('fallback')
         if fall is not None:
-            return fall.split()
+            return fall.text.split()
         elif thislangtag in self.parentLocales:
             return self.parentLocales[thislangtag]
         else:
-- 
2.43.0


From 68ac3450dda21b026de875291a97daf37b1ca78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:25 +0000
Subject: [PATCH 11/42] fix: writing a document does not depend on what was
 written before it

The namespaces found while writing were kept in a default argument, so with
topns false a later document lacked declarations an earlier one had made.
---
 lib/sldr/ldml.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 33a1c76..9ec2eeb 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -132,9 +132,10 @@ class ETWriter(object):
             return self.attributeOrder.get(n.tag, {}).get(x, self.maxAts)
         return sorted((attribs if attribs is not None else n.keys()), key=lambda x:(getorder(x), x))
 
-    def serialize_xml(self, write, base = None, indent = '', topns = True, namespaces = {}):
+    def serialize_xml(self, write, base = None, indent = '', topns = True, namespaces = None):
         """ Output the object using write() in a normalised way:
             topns if set puts all namespaces in root element else put them as low as possible"""
+        namespaces = {} if namespaces is None else namespaces.copy()
         if base is None:
             base = self.root
             write('<?xml version="1.0" encoding="utf-8"?>\n')
@@ -183,7 +184,7 @@ class ETWriter(object):
         for c in getattr(base, 'commentsafter', []):
             write('{}<!--{}-->\n'.format(indent, c))
 
-    def save_as(self, fname, base = None, indent = '', topns = True, namespaces = {}):
+    def save_as(self, fname, base = None, indent = '', topns = True, namespaces = None):
         """ A more comfortable serialize_xml using a filename"""
         with codecs.open(fname, "w", encoding="utf-8") as outf:
             self.serialize_xml(outf.write, base=base, indent=indent, topns=topns, namespaces=namespaces)
@@ -864,7 +865,7 @@ class Ldml(ETWriter):
         res += n.tag + "".join('[@{}="{}"]'.format(*x) for x in tests)
         return res
 
-    def serialize_xml(self, write, base = None, indent = '', topns = True, namespaces = {}, nouid=True):
+    def serialize_xml(self, write, base = None, indent = '', topns = True, namespaces = None, nouid=True):
         """ Output this LDML to the given io stream """
         if base is None and getattr(self, 'uid', None) is not None and not nouid:
             dstatus = self.use_draft
-- 
2.43.0


From de3d9400472c85840a2f5d5080fd7538296039d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:14 +0000
Subject: [PATCH 12/42] fix: a promoted alternate stays in the document when it
 is written

Writing marks the alternates it puts in temporarily, and the mark was left on
them, so one that became the primary node later was dropped by the next write.
---
 lib/sldr/ldml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 9ec2eeb..8b51ff1 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -892,6 +892,7 @@ class Ldml(ETWriter):
             for c in list(n):
                 if hasattr(c, 'tempnode') and c.tempnode:
                     n.remove(c)
+                    c.tempnode = False
 
     def get_draft(self, e, default=None):
         """ Return a draft numeric level for this node """
-- 
2.43.0


From 471663e7ce786147f601feefe5442e5c035732cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:36 +0000
Subject: [PATCH 13/42] fix: change_draft does not drop an alternate that has
 the same alt

---
 lib/sldr/ldml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 8b51ff1..07e340d 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -596,8 +596,8 @@ class Ldml(ETWriter):
         node.set('draft', draft)
         if best is None:
             return node
-        elif alt is None:
-            alt = best
+        elif alt is None or alt in node.alternates:
+            alt = best              # the one being vacated, don't lose another alternate
         return self._promote(node, node.alternates[best], alt=alt)
 
     def _add_inserted_node(self, before, draft, text, parent, tag, **kw):
-- 
2.43.0


From 6f3f7dc20e4906b2efad29e1327e7de3546328bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 14/42] fix: text with ]]> in it is written as well formed
 CDATA

---
 lib/sldr/ldml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 07e340d..eb355e9 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -177,7 +177,8 @@ class ETWriter(object):
             if tag not in self.takesCData:
                 t = self._protect(base.text.replace('\n', '\n' + indent), base=_elementprotect)
             else:
-                t = "<![CDATA[\n\t" + indent + base.text.replace('\n', '\n\t' + indent) + "\n" + indent + "]]>"
+                t = base.text.replace(']]>', ']]]]><![CDATA[>').replace('\n', '\n\t' + indent)
+                t = "<![CDATA[\n\t" + indent + t + "\n" + indent + "]]>"
             write('>{}</{}>\n'.format(t, tag))
         else:
             write('/>\n')
-- 
2.43.0


From 7efc9cdec6fd95b0e2eaa0dc311a80b218162d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:38 +0000
Subject: [PATCH 15/42] fix: line ends and tabs in attribute values survive
 being written

XML reads them back as spaces unless they are written as character references.
---
 lib/sldr/ldml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index eb355e9..0ac0617 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -52,8 +52,11 @@ def getldml(loc, indirs):
 _elementprotect = {
     '&': '&amp;',
     '<': '&lt;',
-    '>': '&gt;' }
+    '>': '&gt;',
+    '\r': '&#13;' }
 _attribprotect = dict(_elementprotect)
+_attribprotect['\n'] = '&#10;'       # else read back as a space
+_attribprotect['\t'] = '&#9;'
 _attribprotect['"'] = '&quot;'
 _attribprotect["'"] = '&apos;'
 
-- 
2.43.0


From c4662abfe1bff24331726d984fcca8c8bddd70f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 16/42] fix: an attribute only changed here is not a clash when
 merging

If other still has the base value there is nothing to report. Also allow for
there being no base, as merge() says there may be.
---
 lib/sldr/ldml_merge.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 18b26a4..26198e7 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -325,13 +325,14 @@ class LdmlMerge(Ldml):
         elif self.useDrafts:
             res |= self._merge_with_alts(base, other, this, default=default, copycomments=copycomments)
         oattrs = set(other.keys() if other is not None else [])
+        battrs = base.attrib if base is not None else {}
         for k in list(this.keys()):                                  # go through our attributes
             if k in oattrs:
-                if k in base.attrib and base.get(k) == this.get(k) and this.get(k) != other.get(k):
+                if k in battrs and battrs[k] == this.get(k) and this.get(k) != other.get(k):
                     res = True
                     this.set(k, other.get(k))                       # t == b && t != o
-                elif this.get(k) != other.get(k):
-                    self.clash_attrib(k, this.get(k), other.get(k), base.get(k), this, other, base, usedrafts=self.useDrafts)    # t != o
+                elif this.get(k) != other.get(k) and (k not in battrs or battrs[k] != other.get(k)):
+                    self.clash_attrib(k, this.get(k), other.get(k), battrs.get(k), this, other, base, usedrafts=self.useDrafts)    # t != o && o != b
                     res = True
                 oattrs.remove(k)
             elif base is not None and k in base.attrib:                        # o deleted it
-- 
2.43.0


From 765f485a8897eb3ddd19d908297f862c967f5113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 17/42] fix: keyboard transforms can be added to a rule set

---
 lib/sldr/ldml_keyboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index a5ba4f9..2ae0685 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -331,7 +331,7 @@ class Rules(object):
                         j.default = Rule()
                     newjobs.add(j.default)
                 if isFinal:
-                    for j, string in newjobs:
+                    for j in newjobs:
                         j.merge(transform.attrib)
             jobs = newjobs
 
-- 
2.43.0


From fefa49eb79d416db86dadd1dcbb76c154b0a490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:02 +0000
Subject: [PATCH 18/42] fix: a multigraph straight after another one is
 recognised

After finding one the next cluster was taken without looking for multigraphs,
so ngng was counted as ng, n and g.
---
 lib/sldr/ldml_exemplars.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index 0bcf94b..7a9a3d3 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -712,7 +712,13 @@ class Exemplars(object):
                     self.clusters[exemplar] += 1
                     i += multigraph_length
                     break
-            
+            else:
+                multigraph_length = 0
+
+            # There may be another multigraph straight after one that was found.
+            if multigraph_length:
+                continue
+
             if maxmultigraphs:
                 #swap max multigraph length to 4 to start
                 for multigraph_length in range(4, 0, -1):
-- 
2.43.0


From 040da31a88797d25f2de7246116aa5671cca75ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 19/42] fix: splitting a cluster at several marks counts it
 once

Each of the marks was split off the whole cluster, which added its count to
the base and the marks again every time.
---
 lib/sldr/ldml_exemplars.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index 7a9a3d3..664e142 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -497,6 +497,11 @@ class Exemplars(object):
         if exemplar.base == '':
             return
 
+        # Nor if it has just been split at another of its marks. The rest of
+        # its marks get looked at again in what that left.
+        if exemplar not in self.clusters:
+            return
+
         mark = exemplar.trailers[index]
         before_current_mark = exemplar.trailers[:index]
         after_current_mark = exemplar.trailers[index+1:]
-- 
2.43.0


From ad2cf4c76bfd9e49b2b6c601f4d01451ea8c7ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 20/42] fix: minutes and seconds take the sign of their degrees
 in zonetab

---
 scripts/zonetab | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/zonetab b/scripts/zonetab
index 48538b5..f38471f 100755
--- a/scripts/zonetab
+++ b/scripts/zonetab
@@ -5,11 +5,11 @@
 import argparse, re
 
 def latlongdeg(sign, deg, mins, secs):
-    res = float(sign+deg)
+    res = float(deg)
     res += float(mins) / 60.
     if secs is not None:
         res += float(secs) / 3600.
-    return res
+    return -res if sign == "-" else res
 
 fixzones = {
     "America/Atikokan": "America/Coral_Harbour",
-- 
2.43.0


From b232bee5f99c5cdbb4a5fe859f9bf1de19cdbfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 21/42] fix: fontmatch can match against a langtag in a string

---
 scripts/fontmatch | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fontmatch b/scripts/fontmatch
index 3c91c0d..0b7e9bd 100755
--- a/scripts/fontmatch
+++ b/scripts/fontmatch
@@ -6,7 +6,7 @@ from langtag import lookup, langtag
 keyfields = {'scr': 'script', 'lang': 'lang', 'reg': 'region'}
 def match1(rules, ltag):
     if isinstance(ltag, str):
-        ltag = langtag(str)
+        ltag = langtag(ltag)
     for r in rules:
         for k, v in r["match"].items():
             if isinstance(v, str):
-- 
2.43.0


From 590f9dd41d7321de933cb1ee8468e72071129b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 22/42] fix: merging compares the draft of the other alternate

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 26198e7..deece48 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -246,7 +246,7 @@ class LdmlMerge(Ldml):
         for k in allkeys:
             if k not in balt:
                 if k not in other.alternates: continue
-                if k not in target.alternates or self.get_draft(target.alternates[k], default) > self.get_draft(other.alternates, default):
+                if k not in target.alternates or self.get_draft(target.alternates[k], default) > self.get_draft(other.alternates[k], default):
                     target.alternates[k] = other.alternates[k]
                     res = True
             elif k not in other.alternates:
-- 
2.43.0


From aecdd61ba162947b7d64e7973c564fb72502bf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:38 +0000
Subject: [PATCH 23/42] fix: an expansion can have an element in it that is
 tailored later

---
 lib/sldr/collation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 1dc8dfd..0810f89 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -55,7 +55,7 @@ def ducetSortKey(d, k, extra=None, fn=None):
         singlechar = True
     while i > 0:
         if extra and k[:i] in extra:
-            key = extra[k[:i]].key
+            key = getattr(extra[k[:i]], 'key', None)    # not there until it is calculated
         else:
             key = fn(k[:i])
         if key is None or not len(key):
-- 
2.43.0


From 6497ea7945486ea3e75ed0fc1d7694f96e3ead0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:29 +0000
Subject: [PATCH 24/42] fix: elements are copied with the copy module, they
 have no copy method

---
 lib/sldr/ldml.py       | 4 ++--
 lib/sldr/ldml_merge.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 0ac0617..d145ac0 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -26,7 +26,7 @@
 from xml.etree import ElementTree as et
 from xml.etree import ElementPath as ep
 import itertools
-import re, os, codecs
+import re, os, codecs, copy
 import xml.parsers.expat
 import functools
 from math import log10
@@ -484,7 +484,7 @@ class Ldml(ETWriter):
         self.normalise(self.root, usedrafts=usedrafts)
 
     def _copynode(self, n, parent=None):
-        res = n.copy()
+        res = copy.copy(n)
         for a in ('contentHash', 'attrHash', 'comments', 'commentsafter', 'parent', 'document'):
             if hasattr(n, a):
                 setattr(res, a, getattr(n, a, None))
diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index deece48..0f843c1 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -24,7 +24,7 @@
 # SUCH DAMAGE.
 
 from sldr.ldml import Ldml, _alldrafts
-import os
+import copy, os
 
 class _arrayDict(dict):
     def set(self, k, v):
@@ -272,7 +272,7 @@ class LdmlMerge(Ldml):
 
     
     def _add_alt(self, target, origin, default='unconfirmed'):
-        self._add_alt_leaf(target, origin.copy(),
+        self._add_alt_leaf(target, copy.copy(origin),
                 default=default, leaf=origin.contentHash is not None,
                 alt = self.alt())
 
-- 
2.43.0


From 3250c571f49275468b944320b73a6988e8b74004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 25/42] fix: merge without a default draft takes that of the
 document

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 0f843c1..f54ec09 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -191,7 +191,7 @@ class LdmlMerge(Ldml):
            Returns True if the merge did the work."""
         res = False
         if default is None:
-            default = base.default_draft
+            default = self.default_draft
         # if base != target && base better than target
         if base is not None and base.contentHash != target.contentHash and base.text and self.get_draft(base) < self.get_draft(target, default):
             res = True
-- 
2.43.0


From 750762ad72325a167e3a7c704e1d7f86ce34594c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:39 +0000
Subject: [PATCH 26/42] fix: a carriage return in CDATA text survives being
 written

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index d145ac0..f442dbd 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -180,7 +180,7 @@ class ETWriter(object):
             if tag not in self.takesCData:
                 t = self._protect(base.text.replace('\n', '\n' + indent), base=_elementprotect)
             else:
-                t = base.text.replace(']]>', ']]]]><![CDATA[>').replace('\n', '\n\t' + indent)
+                t = base.text.replace(']]>', ']]]]><![CDATA[>').replace('\r', ']]>&#13;<![CDATA[').replace('\n', '\n\t' + indent)
                 t = "<![CDATA[\n\t" + indent + t + "\n" + indent + "]]>"
             write('>{}</{}>\n'.format(t, tag))
         else:
-- 
2.43.0


From 5a5595e5e6e2bc5195d58e18a02b17fcaead84d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:02 +0000
Subject: [PATCH 27/42] fix: keyboard output after a temporary result is
 temporary too

---
 lib/sldr/ldml_keyboard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index 2ae0685..408b231 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -474,10 +474,11 @@ class Context(object):
         ind = self.index(name)
         leftlen = len(self.outputs[ind-1]) - self.offsets[ind] - length
         prevleft = len(self.outputs[ind-2]) - self.offsets[ind-1] if ind > 1 else 0
+        settled = self.outputs[ind] == self.stables[ind]    # nothing temporary before us
         self.outputs[ind] += res
         # only add to stables if everything to be consumed is already in the stables
         # of the previous layer. Otherwise, our results can only be temporary.
-        if leftlen > prevleft:
+        if settled and leftlen > prevleft:
             self.stables[ind] += res
             self.offsets[ind] += length
 
-- 
2.43.0


From 66f218b77df56ea16de5a281d41a6cb9552b2f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 28/42] fix: an element can be tailored after a string that
 starts with it

---
 lib/sldr/collation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 0810f89..15510b1 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -620,7 +620,7 @@ class CollElement(object):
             return self.key
         self.key = ducetSortKey(ducetDict, self.base)   # stop lookup loops
         b = collations.get(self.base, None)
-        if b is not None and b.order <= self.order:
+        if b is not None and b is not self and b.order <= self.order:
             b.sortkey(collations, ducetDict, inc, beforeshift, force=force)
             basekey = b.shortkey.copy()
         else:
-- 
2.43.0


From 69d51b410b2e89d88b25f88ceca51a11ee8abc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:49 +0000
Subject: [PATCH 29/42] fix: a four character variant like 1901 is not a script

---
 lib/sldr/langtags_full.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index bb4e5fb..89f46a0 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -133,7 +133,7 @@ class LangTag(object) :
                 curr += 1
             self.lang = self.lang[:-1]
         if curr >= len(bits) : return
-        if len(bits[curr]) == 4 :
+        if len(bits[curr]) == 4 and bits[curr][0] not in "0123456789":
             self.script = bits[curr].title()
             curr += 1
             self.hideboth = False
@@ -146,7 +146,7 @@ class LangTag(object) :
             curr += 1
             self.hideboth = False
         if curr >= len(bits): return
-        if len(bits[curr]) == 4 and self.script is None:
+        if len(bits[curr]) == 4 and bits[curr][0] not in "0123456789" and self.script is None:
             self.lang += "-"+self.region
             self.script = bits[curr]
             self.region = None
-- 
2.43.0


From 1b4afa8aa46ab439daf6547d4becd7aa8023ea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:49 +0000
Subject: [PATCH 30/42] fix: an extended language subtag is in lower case

---
 lib/sldr/langtags_full.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 89f46a0..2f30659 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -138,7 +138,7 @@ class LangTag(object) :
             curr += 1
             self.hideboth = False
         elif len(bits[curr]) == 3 and bits[curr][0] not in "0123456789":
-            self.lang += "-" + bits[curr]
+            self.lang += "-" + bits[curr].lower()
             curr += 1
         if curr >= len(bits) : return
         if 1 < len(bits[curr]) < 4 :
-- 
2.43.0


From 3efad1d4eb0d0cedb612d7454577705842cb8f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:50 +0000
Subject: [PATCH 31/42] fix: a one character private use subtag does not start
 an extension

---
 lib/sldr/langtags_full.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 2f30659..d16a23a 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -160,7 +160,7 @@ class LangTag(object) :
         extensions = {}
         variants = []
         while curr < len(bits) :
-            if len(bits[curr]) == 1 :
+            if len(bits[curr]) == 1 and ns != 'x':      # the rest of the tag is private use
                 ns = bits[curr].lower()
                 extensions[ns] = []
             elif ns == '' :
-- 
2.43.0


From 5e86842a94f02ad3954e994ab35077812a64ea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:51 +0000
Subject: [PATCH 32/42] fix: the subtags of a language tag extension keep their
 order

---
 lib/sldr/langtags_full.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index d16a23a..997d746 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -79,7 +79,7 @@ class LangTag(object) :
         res = []
         for ns in sorted(self.extensions.keys()) :
             res.append(ns)
-            res.extend(sorted(self.extensions[ns]))
+            res.extend(self.extensions[ns])     # their order has meaning, as in u-nu-latn
         return res
 
     def __str__(self) :
@@ -230,16 +230,17 @@ class LangTag(object) :
             extravars = [None]
         extraexts = []
         if self.extensions is not None :
-            extset = set((k, x) for k, v in self.extensions.items() for x in v)
+            extlist = [(k, x) for k, v in self.extensions.items() for x in v]
             if self.hideextensions is None:
                 removes = [set()]
             else:
                 removes = powerset([(k, x) for k, v in self.hideextensions.items() for x in v])
             for r in removes:
                 short = {}
-                for k, v in (extset - r):
-                    short.setdefault(k, []).append(v)
-                extraexts.append("-".join(["-".join([k] + sorted(v)) for k, v in sorted(short.items())]))
+                for k, v in extlist:
+                    if (k, v) not in r:
+                        short.setdefault(k, []).append(v)
+                extraexts.append("-".join(["-".join([k] + v) for k, v in sorted(short.items())]))
         else:
             extraexts = [None]
         res = []
-- 
2.43.0


From 1a211735d3c8a93269406ab2c85fb1bdc30cf712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:54 +0000
Subject: [PATCH 33/42] fix: writing a document leaves its draft marks in the
 document

---
 lib/sldr/ldml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index f442dbd..30dbf5b 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -876,11 +876,12 @@ class Ldml(ETWriter):
             self.use_draft = None
             self.ensure_path('identity/special/sil:identity[@uid="{}"]'.format(self.uid))
             self.use_draft = dstatus
+        olddraft = None
         if self.useDrafts:
             n = base if base is not None else self.root
             draft = n.get('draft', '')
             if draft and (len(n) or draft == self.default_draft) and n.tag != "{" + self.silns + "}identity":
-                del n.attrib['draft']
+                olddraft = n.attrib.pop('draft')
             offset = 0
             alt = n.get('alt', '')
             for (i, c) in enumerate(list(n)):
@@ -893,6 +894,8 @@ class Ldml(ETWriter):
         super(Ldml, self).serialize_xml(write, base, indent, topns, namespaces)
         if self.useDrafts:
             n = base if base is not None else self.root
+            if olddraft is not None:
+                n.set('draft', olddraft)
             for c in list(n):
                 if hasattr(c, 'tempnode') and c.tempnode:
                     n.remove(c)
-- 
2.43.0


From 9783b423f6c64870ae8dfa43974f26a616fef31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:35 +0000
Subject: [PATCH 34/42] fix: the content hash of an element depends on where in
 it a value is

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 30dbf5b..e0d78b4 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -260,7 +260,7 @@ class _minhash(object):
 
     def merge(self, aminh):
         if self.minhash is not None and aminh.minhash is not None: self._minhashupdate(aminh.minhash)
-        self.hashed = (self.hashed * 1000003 + aminh.hashed) & self._mask
+        self.hashed = hash((self.hashed, aminh.hashed)) & self._mask   # not a sum: values can move between levels
 
     def _minhashupdate(self, ahash):
         x = (1 << self._bits) - 1
-- 
2.43.0


From af0a0d8fc3af30ad3310f33f88ade81ca10aa0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 35/42] fix: the private use part of a language tag is written
 last

---
 lib/sldr/langtags_full.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 997d746..fdba302 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -77,7 +77,7 @@ class LangTag(object) :
     def _extensions(self) :
         if self.extensions is None : return []
         res = []
-        for ns in sorted(self.extensions.keys()) :
+        for ns in sorted(self.extensions.keys(), key=lambda k: (k == 'x', k)) :    # private use is last
             res.append(ns)
             res.extend(self.extensions[ns])     # their order has meaning, as in u-nu-latn
         return res
@@ -240,7 +240,7 @@ class LangTag(object) :
                 for k, v in extlist:
                     if (k, v) not in r:
                         short.setdefault(k, []).append(v)
-                extraexts.append("-".join(["-".join([k] + v) for k, v in sorted(short.items())]))
+                extraexts.append("-".join(["-".join([k] + v) for k, v in sorted(short.items(), key=lambda e: (e[0] == 'x', e))]))
         else:
             extraexts = [None]
         res = []
-- 
2.43.0


From 423e9f5c1d4db4aca836ce73597931d7106728c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:18 +0000
Subject: [PATCH 36/42] fix: a language tag can have an extended language and a
 script

---
 lib/sldr/langtags_full.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index fdba302..b33b39d 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -133,13 +133,14 @@ class LangTag(object) :
                 curr += 1
             self.lang = self.lang[:-1]
         if curr >= len(bits) : return
+        if len(bits[curr]) == 3 and bits[curr][0] not in "0123456789":
+            self.lang += "-" + bits[curr].lower()
+            curr += 1
+            if curr >= len(bits) : return
         if len(bits[curr]) == 4 and bits[curr][0] not in "0123456789":
             self.script = bits[curr].title()
             curr += 1
             self.hideboth = False
-        elif len(bits[curr]) == 3 and bits[curr][0] not in "0123456789":
-            self.lang += "-" + bits[curr].lower()
-            curr += 1
         if curr >= len(bits) : return
         if 1 < len(bits[curr]) < 4 :
             self.region = bits[curr].upper()
-- 
2.43.0


From 79ef85d3cc9ca3939da517d598045b9cbd4998b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 37/42] fix: splitting a run of repeated spreadsheet cells
 keeps the neighbours' value

---
 lib/sldr/sheet.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index 0a6c100..fc72413 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -140,6 +140,14 @@ class Sheet(object):
             if dataitem != "":
                 self._writeldmlitem(p1[colnum] + rowitem + p2[colnum], datarow[colnum + 2])
 
+    def _copyodscell(self, cell):
+        """A new cell with the text of the given one, for the rest of a run of repeated cells"""
+        res = TableCell()
+        for e in cell.childNodes:
+            if e.tagName == 'text:p':
+                res.addElement(P(text=str(e)))
+        return res
+
     def _writeodsitem(self, col, value):
         """Uses col and value to make entry in ods file (using self.currentrow)"""
         # column numbering starts at 1 for spreadsheet column A
@@ -158,13 +166,13 @@ class Sheet(object):
         countbefore = targetcol - curcol - 1
         countafter = curcol + repcount - targetcol
         if countbefore > 0:
-            c1 = TableCell()
+            c1 = self._copyodscell(c)
             c1.setAttribute('numbercolumnsrepeated', str(countbefore))
             c.setAttribute('numbercolumnsrepeated', str(countafter + 1))
             x = r.insertBefore(c1, c)
         if countafter > 0:
             c.setAttribute('numbercolumnsrepeated', '1')
-            c2 = TableCell()
+            c2 = self._copyodscell(c)
             c2.setAttribute('numbercolumnsrepeated', str(countafter))
             if c == r.lastChild:
                 x = r.appendChild(c2)
-- 
2.43.0


From 2760490ddc9a66366bda2baa766bd347783001f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:42 +0000
Subject: [PATCH 38/42] fix: a backspaced character does not come back with the
 next key

---
 lib/sldr/ldml_keyboard.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index 408b231..12f308b 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -294,6 +294,10 @@ class Keyboard(object):
             instr = instr[1:]
         # and reverse back again
         context.outputs[-1] = instr[::-1]
+        # what is left is settled, or the next key would bring back what was deleted
+        for i in range(1, len(context.outputs)):
+            context.stables[i] = context.outputs[i]
+            context.offsets[i] = len(context.outputs[i-1])
         return True
 
 
-- 
2.43.0


From 37570d40826afbbaa932737a7d61121274808684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:27 +0000
Subject: [PATCH 39/42] fix: a text both sides changed alike is not a clash
 when merging

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index f54ec09..ec6bc7e 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -316,7 +316,7 @@ class LdmlMerge(Ldml):
                 this.text = None
                 this.contentHash = None
             if self.useDrafts: res |= self._merge_with_alts(base, other, this, default=default, copycomments=copycomments)
-        elif base is not None and other is not None and other.text != base.text:
+        elif base is not None and other is not None and other.text != base.text and other.text != this.text:
             self.clash_text(this.text, other.text, (base.text if base is not None else None),
                                         this, other, base, usedrafts=self.useDrafts)
             if self.useDrafts:
-- 
2.43.0


From 966151c867f763e6b0e0e8b83a5486a38fe957ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:47 +0000
Subject: [PATCH 40/42] fix: attributes are merged also where the texts clash
 with drafts

---
 lib/sldr/ldml_merge.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index ec6bc7e..edfe0ac 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -284,6 +284,7 @@ class LdmlMerge(Ldml):
         if other is not None and hasattr(other, 'root'): other = other.root
         if base is not None and hasattr(base, 'root'): base = base.root
         self._align(this, other, base)
+        settled = ()            # attributes already dealt with
         # other and base can be None
         for t in list(this):       # go through children merging them
             if t.mergeBase is None:
@@ -321,12 +322,14 @@ class LdmlMerge(Ldml):
                                         this, other, base, usedrafts=self.useDrafts)
             if self.useDrafts:
                 res |= self._merge_with_alts(base, other, this, default=default, copycomments=copycomments)
-                return res
+                settled = ('alt', 'draft')
         elif self.useDrafts:
             res |= self._merge_with_alts(base, other, this, default=default, copycomments=copycomments)
         oattrs = set(other.keys() if other is not None else [])
         battrs = base.attrib if base is not None else {}
         for k in list(this.keys()):                                  # go through our attributes
+            if k in settled:
+                continue
             if k in oattrs:
                 if k in battrs and battrs[k] == this.get(k) and this.get(k) != other.get(k):
                     res = True
@@ -339,6 +342,8 @@ class LdmlMerge(Ldml):
                 this.attrib.pop(k)
                 res = True
         for k in oattrs:                                       # attributes in o not in t
+            if k in settled:
+                continue
             if base is None or k not in base.attrib or base.get(k) != other.get(k):
                 this.set(k, other.get(k))                           # if new in o or o changed it and we deleted it
                 res = True
-- 
2.43.0


From bfe9d4ca070a3792dd106809d6abfddb71f44fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:41 +0000
Subject: [PATCH 41/42] fix: a content hash can be compared with None, that of
 no content

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index e0d78b4..9e8daa2 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -244,7 +244,7 @@ class _minhash(object):
         self.hasher = hasher
 
     def __eq__(self, other):
-        return self.hashed == other.hashed and self.minhash == other.minhash
+        return isinstance(other, _minhash) and self.hashed == other.hashed and self.minhash == other.minhash
 
     def __repr__(self):
         return "<{} {:0X}>".format(type(self), self.hashed)
-- 
2.43.0


From 6e4ad3979919a87e52b99193a7f7a18ae8c938f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:48 +0000
Subject: [PATCH 42/42] fix: IterDict does not multiply the combinations when a
 name is set again

---
 lib/sldr/xmltemplate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/sldr/xmltemplate.py b/lib/sldr/xmltemplate.py
index 6eb33a2..e67dfe0 100644
--- a/lib/sldr/xmltemplate.py
+++ b/lib/sldr/xmltemplate.py
@@ -16,6 +16,10 @@ class IterDict(object) :
     def __setitem__(self, key, value) :
         if not isinstance(value, list) :
             value = [value]
+        if key in self.keys :
+            self.values[self.keys[key]] = value
+            self.indices[self.keys[key]] = 0
+            return
         self.keys[key] = len(self.values)
         self.values.append(value)
         self.indices.append(0)
-- 
2.43.0

