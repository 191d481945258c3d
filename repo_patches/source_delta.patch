From 1eee4bd75f14c9eb2ff8f6840f2910f0f89d5653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:17 +0000
Subject: [PATCH 01/71] fix: copy elements with copy.copy (Element.copy was
 removed in Python 3.9)

---
 lib/sldr/ldml.py       | 4 ++--
 lib/sldr/ldml_merge.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 86d12a7..d05f86a 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -26,7 +26,7 @@
 from xml.etree import ElementTree as et
 from xml.etree import ElementPath as ep
 import itertools
-import re, os, codecs
+import re, os, codecs, copy
 import xml.parsers.expat
 import functools
 from math import log10
@@ -479,7 +479,7 @@ class Ldml(ETWriter):
         self.normalise(self.root, usedrafts=usedrafts)
 
     def _copynode(self, n, parent=None):
-        res = n.copy()
+        res = copy.copy(n)
         for a in ('contentHash', 'attrHash', 'comments', 'commentsafter', 'parent', 'document'):
             if hasattr(n, a):
                 setattr(res, a, getattr(n, a, None))
diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 18b26a4..fa719f5 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -24,7 +24,7 @@
 # SUCH DAMAGE.
 
 from sldr.ldml import Ldml, _alldrafts
-import os
+import copy, os
 
 class _arrayDict(dict):
     def set(self, k, v):
@@ -272,7 +272,7 @@ class LdmlMerge(Ldml):
 
     
     def _add_alt(self, target, origin, default='unconfirmed'):
-        self._add_alt_leaf(target, origin.copy(),
+        self._add_alt_leaf(target, copy.copy(origin),
                 default=default, leaf=origin.contentHash is not None,
                 alt = self.alt())
 
-- 
2.43.0


From 2079c2833ee817efa7c78d174789a68b808195b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:17 +0000
Subject: [PATCH 02/71] fix: compare the draft of the incoming alternate, not
 of the alternates dict, in merge

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index fa719f5..658783c 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -246,7 +246,7 @@ class LdmlMerge(Ldml):
         for k in allkeys:
             if k not in balt:
                 if k not in other.alternates: continue
-                if k not in target.alternates or self.get_draft(target.alternates[k], default) > self.get_draft(other.alternates, default):
+                if k not in target.alternates or self.get_draft(target.alternates[k], default) > self.get_draft(other.alternates[k], default):
                     target.alternates[k] = other.alternates[k]
                     res = True
             elif k not in other.alternates:
-- 
2.43.0


From 4ce867ef0accabd8ff9ee4bb6994c4c093d3f497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 03/71] fix: keep packed alternates when a document is
 normalised again, and search alternates by element

---
 lib/sldr/ldml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index d05f86a..7a4ea21 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -700,7 +700,7 @@ class Ldml(ETWriter):
             curr = newcurr
             newcurr = []
             for job in curr:
-                extras = [] if draft is None or not hasattr(job, 'alternates') else job.alternates.keys()
+                extras = [] if draft is None or not hasattr(job, 'alternates') else job.alternates.values()
                 for j in itertools.chain([job], extras):
                     if j.text == text:
                         if draft is not None and self.get_draft(j) > draftratings.get(draft, len(draftratings)):
@@ -791,7 +791,8 @@ class Ldml(ETWriter):
                     resk = None
                 else:
                     resk = min(v.keys(), key=lambda x: self.get_draft(v[x], self.default_draft))
-                newalts = {nk: nv for nk, nv in v.items() if nk is not resk}
+                newalts = dict(getattr(v[resk], 'alternates', {}))  # may have been packed up already
+                newalts.update({nk: nv for nk, nv in v.items() if nk is not resk})
                 for nk in list(v.keys()):
                     if nk is not resk:
                         del v[nk]
-- 
2.43.0


From 91406a8efc753b914811170c9d730ef66f61a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 04/71] fix: rank an item without @draft by the document's
 default draft when adding alternates

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 7a4ea21..6865d30 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -507,7 +507,7 @@ class Ldml(ETWriter):
             if len(equivs):
                 if 'alt' not in e.attrib:
                     e.set('alt', alt)
-                newhead = self._add_alt_leaf(equivs[0], e, default=e.get('draft', None), leaf=True, alt=alt)
+                newhead = self._add_alt_leaf(equivs[0], e, default=self.default_draft, leaf=True, alt=alt)
                 return e if returnnew else newhead
         parent.append(e)
         return e
-- 
2.43.0


From adde4cfb82a5da696becfda65101135760a6de48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:00 +0000
Subject: [PATCH 05/71] fix: do not share one namespaces dict between all calls
 of serialize_xml and save_as

---
 lib/sldr/ldml.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 6865d30..304a617 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -132,9 +132,11 @@ class ETWriter(object):
             return self.attributeOrder.get(n.tag, {}).get(x, self.maxAts)
         return sorted((attribs if attribs is not None else n.keys()), key=lambda x:(getorder(x), x))
 
-    def serialize_xml(self, write, base = None, indent = '', topns = True, namespaces = {}):
+    def serialize_xml(self, write, base = None, indent = '', topns = True, namespaces = None):
         """ Output the object using write() in a normalised way:
             topns if set puts all namespaces in root element else put them as low as possible"""
+        if namespaces is None:
+            namespaces = {}
         if base is None:
             base = self.root
             write('<?xml version="1.0" encoding="utf-8"?>\n')
@@ -154,7 +156,7 @@ class ETWriter(object):
             for c in base:
                 (lt, lq, lns) = self._localisens(c.tag)
                 if lns and lns not in namespaces:
-                    namespaces[lns] = q # TODO: Confirm if this really should be q or is a typo for lq
+                    namespaces[lns] = lq
                     localattribs['xmlns:'+lq] = lns
         self._nsprotectattribs(getattr(base, 'attrib', None), localattribs, namespaces)
         for c in getattr(base, 'comments', []):
@@ -183,7 +185,7 @@ class ETWriter(object):
         for c in getattr(base, 'commentsafter', []):
             write('{}<!--{}-->\n'.format(indent, c))
 
-    def save_as(self, fname, base = None, indent = '', topns = True, namespaces = {}):
+    def save_as(self, fname, base = None, indent = '', topns = True, namespaces = None):
         """ A more comfortable serialize_xml using a filename"""
         with codecs.open(fname, "w", encoding="utf-8") as outf:
             self.serialize_xml(outf.write, base=base, indent=indent, topns=topns, namespaces=namespaces)
@@ -865,7 +867,7 @@ class Ldml(ETWriter):
         res += n.tag + "".join('[@{}="{}"]'.format(*x) for x in tests)
         return res
 
-    def serialize_xml(self, write, base = None, indent = '', topns = True, namespaces = {}, nouid=True):
+    def serialize_xml(self, write, base = None, indent = '', topns = True, namespaces = None, nouid=True):
         """ Output this LDML to the given io stream """
         if base is None and getattr(self, 'uid', None) is not None and not nouid:
             dstatus = self.use_draft
-- 
2.43.0


From b068953401b30fd55114c0cb3d73e2cacbce7c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 06/71] fix: always remove temporary alternates after
 serialising, and only those

---
 lib/sldr/ldml.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 304a617..e8ed679 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -879,21 +879,24 @@ class Ldml(ETWriter):
             draft = n.get('draft', '')
             if draft and (len(n) or draft == self.default_draft) and n.tag != "{" + self.silns + "}identity":
                 del n.attrib['draft']
-            offset = 0
-            alt = n.get('alt', '')
-            for (i, c) in enumerate(list(n)):
-                if not hasattr(c, 'alternates'): continue
-                for a in sorted(c.alternates.keys()):
-                    c.alternates[a].set('alt', (alt+"-"+a if alt else a))
-                    offset += 1
-                    n.insert(i + offset, c.alternates[a])
-                    c.alternates[a].tempnode = True
-        super(Ldml, self).serialize_xml(write, base, indent, topns, namespaces)
-        if self.useDrafts:
-            n = base if base is not None else self.root
-            for c in list(n):
-                if hasattr(c, 'tempnode') and c.tempnode:
-                    n.remove(c)
+        try:
+            if self.useDrafts:
+                offset = 0
+                alt = n.get('alt', '')
+                for (i, c) in enumerate(list(n)):
+                    if not hasattr(c, 'alternates'): continue
+                    for a in sorted(c.alternates.keys()):
+                        c.alternates[a].set('alt', (alt+"-"+a if alt else a))
+                        offset += 1
+                        c.alternates[a].tempnode = True
+                        n.insert(i + offset, c.alternates[a])
+            super(Ldml, self).serialize_xml(write, base, indent, topns, namespaces)
+        finally:            # even if writing fails, leave the document as it was
+            if self.useDrafts:
+                for c in list(n):
+                    if hasattr(c, 'tempnode') and c.tempnode:
+                        n.remove(c)
+                        c.tempnode = False      # it may get promoted later
 
     def get_draft(self, e, default=None):
         """ Return a draft numeric level for this node """
-- 
2.43.0


From ab639ed53cf4ada4787856cf4cba5ab472575454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 07/71] fix: replace locale files atomically when saving, in
 the library and in the tools

---
 lib/sldr/ldml.py    | 33 +++++++++++++++++++++++++++++----
 scripts/cldrimport  |  4 +---
 scripts/fixsldr     |  4 +---
 scripts/ldmlflatten |  4 +---
 scripts/ldmlmerge   | 11 +++--------
 5 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index e8ed679..d34c2e3 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -26,9 +26,9 @@
 from xml.etree import ElementTree as et
 from xml.etree import ElementPath as ep
 import itertools
-import re, os, codecs, copy
+import re, os, codecs, copy, shutil
 import xml.parsers.expat
-import functools
+import contextlib, functools, threading
 from math import log10
 from .py3xmlparser import XMLParser, TreeBuilder
 
@@ -49,6 +49,30 @@ def getldml(loc, indirs):
     return None
     
 
+@contextlib.contextmanager
+def atomic_open(fname):
+    """ Context manager giving a utf-8 text file to write that takes the place of fname only
+        once all of it has been written. If the block fails fname is left as it was."""
+    fname = os.path.realpath(fname)
+    if os.path.exists(fname) and not os.path.isfile(fname):     # e.g. /dev/stdout
+        with codecs.open(fname, "w", encoding="utf-8") as outf:
+            yield outf
+        return
+    temp = os.path.join(os.path.dirname(fname), ".{}.{}-{}.tmp".format(os.path.basename(fname),
+                                                            os.getpid(), threading.get_ident()))
+    try:
+        with codecs.open(temp, "w", encoding="utf-8") as outf:
+            yield outf
+            outf.flush()
+            os.fsync(outf.fileno())
+        if os.path.exists(fname):
+            shutil.copymode(fname, temp)
+        os.replace(temp, fname)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.unlink(temp)
+        raise
+
 _elementprotect = {
     '&': '&amp;',
     '<': '&lt;',
@@ -186,8 +210,9 @@ class ETWriter(object):
             write('{}<!--{}-->\n'.format(indent, c))
 
     def save_as(self, fname, base = None, indent = '', topns = True, namespaces = None):
-        """ A more comfortable serialize_xml using a filename"""
-        with codecs.open(fname, "w", encoding="utf-8") as outf:
+        """ A more comfortable serialize_xml using a filename. The file is replaced
+            atomically: if anything goes wrong, any existing file is left untouched."""
+        with atomic_open(fname) as outf:
             self.serialize_xml(outf.write, base=base, indent=indent, topns=topns, namespaces=namespaces)
 
     def add_namespace(self, q, ns):
diff --git a/scripts/cldrimport b/scripts/cldrimport
index f8a6eae..b083e84 100755
--- a/scripts/cldrimport
+++ b/scripts/cldrimport
@@ -103,9 +103,7 @@ def doit(a) :
         # finds/makes the alphabetized directories in the output directory, makes the filepath for the new file, and makes the new file
         p = os.path.join(args.outdir, a[0])
         os.makedirs(p, exist_ok=True)
-        outfh = codecs.open(os.path.join(p, a + '.xml'), "w", encoding="utf-8")
-        curr.serialize_xml(outfh.write, topns=args.topns)
-        outfh.close()
+        curr.save_as(os.path.join(p, a + '.xml'), topns=args.topns)
 
 def dohg(l, files) :
     cmd = ["hg", "log", "-R", os.path.join(args.indir, '..'), "-l", "1", "--template", "{svnrev}\n{isodate(date)}"]
diff --git a/scripts/fixsldr b/scripts/fixsldr
index fa77b08..4edd8b5 100755
--- a/scripts/fixsldr
+++ b/scripts/fixsldr
@@ -176,9 +176,7 @@ def doit(l) :
             i = lang.get('type')
             lang.comments = [' name.en({0})="{1}" '.format(i, langmap.get(i, 'Unknown'))]
     curr.normalise()
-    outfh = codecs.open(os.path.join(args.outdir, os.path.basename(l)), "w", encoding="utf-8")
-    curr.serialize_xml(outfh.write)
-    outfh.close()
+    curr.save_as(os.path.join(args.outdir, os.path.basename(l)))
 
 if not args.single :
     pool = Pool()
diff --git a/scripts/ldmlflatten b/scripts/ldmlflatten
index 0db8b6f..b521e8e 100755
--- a/scripts/ldmlflatten
+++ b/scripts/ldmlflatten
@@ -99,9 +99,7 @@ def doit(l) :
         curr.normalise()
         if int(args.debug) & 2:
             print(outf)
-        outfh = codecs.open(outf, "w", encoding="utf-8")
-        curr.serialize_xml(outfh.write, topns = args.topns)
-        outfh.close()
+        curr.save_as(outf, topns = args.topns)
         return (True, l, "")
     return (False, l, "")
 
diff --git a/scripts/ldmlmerge b/scripts/ldmlmerge
index 5bb397a..96544d5 100755
--- a/scripts/ldmlmerge
+++ b/scripts/ldmlmerge
@@ -103,14 +103,9 @@ if args.git :
             if k in idnode.attrib : del idnode.attrib[k]
     this = flattenlocale(this, rev='r', dirs=args.dirs, fname=args.this)
 
+this.normalise(usedrafts=True)
 if not args.output :
-    outfh = sys.stdout
+    this.serialize_xml(sys.stdout.write)
 else :
-    outfh = codecs.open(args.output, "w", encoding="utf-8")
-
-this.normalise(usedrafts=True)
-this.serialize_xml(outfh.write)
-
-if args.output :
-    outfh.close()
+    this.save_as(args.output)
 
-- 
2.43.0


From c5725bca189279db83c0a639c46ebf3f940590ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 08/71] fix: only use the LDML metadata once all of it has been
 read

---
 lib/sldr/ldml.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index d34c2e3..211da95 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -306,6 +306,8 @@ class Ldml(ETWriter):
     use_draft = None
     nonkeyContexts = {}         # cls.nonkeyContexts[element] = set(attributes)
     keyContexts = {}            # cls.keyContexts[element] = set(attributes)
+    _metadata_read = False      # only True once everything has been read
+    _metadata_lock = threading.RLock()
 
     @classmethod
     def ReadMetadata(cls, fname = None):
@@ -342,6 +344,7 @@ class Ldml(ETWriter):
         cls.keyContexts['{'+cls.silns+'}matched-pair'] = set(['open', 'close'])
         cls.keyContexts['{'+cls.silns+'}quotation'] = set(['level'])
         cls.keyContexts['{'+cls.silns+'}punctuation-pattern'] = set(['context', 'pattern'])
+        cls._metadata_read = True
 
     @classmethod
     def ReadSupplementalData(cls, fname = None):
@@ -349,15 +352,17 @@ class Ldml(ETWriter):
         if fname is None:
             fname = os.path.join(os.path.dirname(__file__), 'supplementalData.xml')
         doc = et.parse(fname)
-        cls.parentLocales = {}
+        parentLocales = {}
         ps = doc.getroot().find('parentLocales')
         for p in ps.findall('parentLocale'):
             parent = p.get('parent')
             for l in p.get('locales').split():
-                if l in cls.parentLocales:
-                    cls.parentLocales[l].append(parent)
+                if l in parentLocales:
+                    parentLocales[l].append(parent)
                 else:
-                    cls.parentLocales[l] = [parent]
+                    parentLocales[l] = [parent]
+        cls.parentLocales = parentLocales
+
     @classmethod
     def ReadDTD(cls, fname = None):
         """ Reads LDML DTD to get element and attribute orders"""
@@ -439,8 +444,10 @@ class Ldml(ETWriter):
         cls.attribvals.setdefault('zone', {})['type'] = {v:ndig.format(i+1) for i,v in enumerate(vals)}
 
     def __init__(self, fname, usedrafts=True, uparrows=False):
-        if not hasattr(self, 'elementOrder'):
-            self.__class__.ReadMetadata()
+        if not self._metadata_read:
+            with self._metadata_lock:
+                if not self._metadata_read:
+                    self.__class__.ReadMetadata()
         self.namespaces = {'http://www.w3.org/XML/1998/namespace': 'xml'}
         self.namespaces[self.silns] = 'sil'
         self.useDrafts = usedrafts
@@ -771,7 +778,7 @@ class Ldml(ETWriter):
             self.__class__.ReadSupplementalData()
         fall = self.root.find('fallback')
         if fall is not None:
-            return fall.split()
+            return fall.text.split() if fall.text else []
         elif thislangtag in self.parentLocales:
             return self.parentLocales[thislangtag]
         else:
-- 
2.43.0


From f44a5b4319f714561256829e99d74c69a7586b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 09/71] fix: report failed locales and keep one from taking
 down the rest of its batch

---
 scripts/cldrimport  | 18 +++++++++++++++---
 scripts/fixsldr     | 23 +++++++++++++++++------
 scripts/ldmlflatten | 10 ++++++++--
 3 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/scripts/cldrimport b/scripts/cldrimport
index b083e84..7cf3610 100755
--- a/scripts/cldrimport
+++ b/scripts/cldrimport
@@ -120,17 +120,29 @@ def dohg(l, files) :
         d = et.SubElement(i, "generation")
     d.set("date", "$Date: {} $".format(date))
 
+def dosafe(a) :
+    try :
+        doit(a)
+    except Exception as e :     # don't take the rest of the batch down with us
+        return (a, str(e) or repr(e))
+    return None
+
 if not args.single :
     pool = Pool()
-    pool.map_async(doit, alllocales)
+    results = pool.map_async(dosafe, sorted(alllocales)).get()
     pool.close()
     pool.join()
 else :
-    for l in alllocales :
-        doit(l)
+    results = [dosafe(l) for l in sorted(alllocales)]
+failures = [r for r in results if r is not None]
+for r in failures :
+    print("Error in {} problem: {}".format(*r))
 
 if args.remove:
     for l in existinglocales - alllocales:
         fp = os.path.join(args.outdir, l[0], l+".xml")
         if os.path.exists(fp):
             os.unlink(fp)
+
+if len(failures) :
+    sys.exit(1)
diff --git a/scripts/fixsldr b/scripts/fixsldr
index 4edd8b5..8caa45f 100755
--- a/scripts/fixsldr
+++ b/scripts/fixsldr
@@ -117,13 +117,13 @@ def doit(l) :
     try :
         curr = Ldml(l)
     except Exception as e :
-        print("Failed in " + l.encode('utf-8'))
+        print("Failed in " + l)
         raise e
     if curr is None : 
-        print("Reading resulted in nothing for " + l.encode('utf-8'))
+        print("Reading resulted in nothing for " + l)
         return
     elif args.debug :
-        print("Processing " + l.encode('utf-8'))
+        print("Processing " + l)
 
     # handle demoting orientation too layout/orientation
     orient = curr.root.find('orientation')
@@ -178,11 +178,22 @@ def doit(l) :
     curr.normalise()
     curr.save_as(os.path.join(args.outdir, os.path.basename(l)))
 
+def dosafe(l) :
+    try :
+        doit(l)
+    except Exception as e :     # don't take the rest of the batch down with us
+        return (l, str(e) or repr(e))
+    return None
+
 if not args.single :
     pool = Pool()
-    res = pool.map_async(doit, args.locale)
+    results = pool.map_async(dosafe, args.locale).get()
     pool.close()
     pool.join()
 else :
-    for l in args.locale :
-        doit(l)
+    results = [dosafe(l) for l in args.locale]
+failures = [r for r in results if r is not None]
+for r in failures :
+    print("Error in {} problem: {}".format(*r))
+if len(failures) :
+    sys.exit(1)
diff --git a/scripts/ldmlflatten b/scripts/ldmlflatten
index b521e8e..fb8c8ef 100755
--- a/scripts/ldmlflatten
+++ b/scripts/ldmlflatten
@@ -81,7 +81,7 @@ def doit(l) :
                                  skipstubs=args.skipstubs, resolveAlias=args.antialias)
         except Exception as e :
             print(e)
-            return (False, l, str(e))
+            return (False, l, str(e) or repr(e))
     if args.debug & 4:
         print(l + (" Failed" if curr is None else ""))
     if curr is not None :
@@ -115,9 +115,15 @@ def dogit(l) :
 if args.debug & 1:
     print(args.locale)
 
+def dosafe(l) :
+    try :
+        return doit(l)
+    except Exception as e :     # don't take the rest of the batch down with us
+        return (False, l, str(e) or repr(e))
+
 if not args.single :
     pool = Pool()
-    results = list(pool.map_async(doit, args.locale).get())
+    results = list(pool.map_async(dosafe, args.locale).get())
     pool.close()
     pool.join()
 else :
-- 
2.43.0


From 18d977eaa253adbfb30473d2ddef853f85be5ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 10/71] fix: only strip XML whitespace from text when
 normalising

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 211da95..18b66c1 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -808,7 +808,7 @@ class Ldml(ETWriter):
             children = sorted(base, key=keyel)
             base[:] = children
         if base.text:
-            t = base.text.strip()
+            t = base.text.strip(' \t\r\n')     # other spaces (e.g. NBSP) are content
             base.text = re.sub(r'[ \t]*\n[ \t]*', '\n', t)       # content hash has text in lines
         base.tail = None
         if usedrafts or addguids:
-- 
2.43.0


From 7fe2aa78a07b3b2bbb0b4f714834742a1216decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:33 +0000
Subject: [PATCH 11/71] fix: write text and attribute values so that they read
 back the same

---
 lib/sldr/ldml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 18b66c1..33569e2 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -76,8 +76,10 @@ def atomic_open(fname):
 _elementprotect = {
     '&': '&amp;',
     '<': '&lt;',
-    '>': '&gt;' }
+    '>': '&gt;',
+    '\r': '&#13;' }
 _attribprotect = dict(_elementprotect)
+_attribprotect.update({'\n': '&#10;', '\t': '&#9;'})    # else they get read back as spaces
 _attribprotect['"'] = '&quot;'
 _attribprotect["'"] = '&apos;'
 
@@ -202,7 +204,8 @@ class ETWriter(object):
             if tag not in self.takesCData:
                 t = self._protect(base.text.replace('\n', '\n' + indent), base=_elementprotect)
             else:
-                t = "<![CDATA[\n\t" + indent + base.text.replace('\n', '\n\t' + indent) + "\n" + indent + "]]>"
+                t = base.text.replace(']]>', ']]]]><![CDATA[>').replace('\r', ']]>&#13;<![CDATA[')
+                t = "<![CDATA[\n\t" + indent + t.replace('\n', '\n\t' + indent) + "\n" + indent + "]]>"
             write('>{}</{}>\n'.format(t, tag))
         else:
             write('/>\n')
-- 
2.43.0


From e7c87acbe72b4a90fab44e2475cdf9ec84d4cb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:47 +0000
Subject: [PATCH 12/71] fix: keep the text that follows a comment inside an
 element

---
 lib/sldr/ldml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 33569e2..88b9f45 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -499,7 +499,12 @@ class Ldml(ETWriter):
             elif elem.tag == '!--':
                 if curr is not None:
                     curr.remove(elem)
+                    curr.__dict__.setdefault('removed', []).append(elem)
             else:
+                if hasattr(elem, 'removed'):
+                    if not len(elem):       # text continues after a comment
+                        elem.text = "".join(x or "" for x in [elem.text] + [c.tail for c in elem.removed]) or None
+                    del elem.removed
                 if len(comments) and len(elem):
                     elem[-1].commentsafter = comments
                     comments = []
-- 
2.43.0


From f9be4de4ca1669706bc6c10a1d1c886dd664777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:56 +0000
Subject: [PATCH 13/71] fix: keep comments that follow the root element

---
 lib/sldr/ldml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 88b9f45..5830545 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -516,6 +516,8 @@ class Ldml(ETWriter):
                         curr.hasdeletedchild = True
                     elif curr is not None:
                         curr.hasdeletedchild = False
+        if len(comments):       # after everything else
+            self.root.commentsafter = comments
         fh.close()
         self._analyse()
         self.normalise(self.root, usedrafts=usedrafts)
-- 
2.43.0


From 3726a09743c887517e5b7785cb255f63146501ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 14/71] fix: close a locale file that turns out not to load

---
 lib/sldr/ldml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 5830545..6e496ec 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -480,7 +480,10 @@ class Ldml(ETWriter):
             parser.parser.StartElementHandler("!--", ('text', data))
             parser.parser.EndElementHandler("!--")
         parser.parser.CommentHandler = doComment
-        for event, elem in et.iterparse(fh, events=('start', 'start-ns', 'end'), parser=parser):
+        def events():
+            with contextlib.closing(fh):        # even if parsing fails
+                yield from et.iterparse(fh, events=('start', 'start-ns', 'end'), parser=parser)
+        for event, elem in events():
             if event == 'start-ns':
                 self.namespaces[elem[1]] = elem[0]
             elif event == 'start':
@@ -518,7 +521,6 @@ class Ldml(ETWriter):
                         curr.hasdeletedchild = False
         if len(comments):       # after everything else
             self.root.commentsafter = comments
-        fh.close()
         self._analyse()
         self.normalise(self.root, usedrafts=usedrafts)
 
-- 
2.43.0


From 2f378967158f2c85c3843739ca867dfa55ef3479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 15/71] fix: do not write comments (e.g. of merge clashes) that
 cannot be read back

---
 lib/sldr/ldml.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 6e496ec..29dd536 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -141,6 +141,10 @@ class ETWriter(object):
         ''' Turn key characters into entities'''
         return re.sub('['+"".join(base.keys())+"]", lambda m: base[m.group(0)], txt)
 
+    def _protectcomment(self, txt):
+        ''' -- may not occur in a comment '''
+        return re.sub('-(?=-|$)', '- ', txt)
+
     def _nsprotectattribs(self, attribs, localattribs, namespaces):
         ''' Prepare attributes for output by protecting, converting ns: form
             and collecting any xmlns attributes needing to be added'''
@@ -186,7 +190,7 @@ class ETWriter(object):
                     localattribs['xmlns:'+lq] = lns
         self._nsprotectattribs(getattr(base, 'attrib', None), localattribs, namespaces)
         for c in getattr(base, 'comments', []):
-            write('{}<!--{}-->\n'.format(indent, c))
+            write('{}<!--{}-->\n'.format(indent, self._protectcomment(c)))
         write('{}<{}'.format(indent, tag))
         if len(localattribs):
             def getorder(x):
@@ -210,7 +214,7 @@ class ETWriter(object):
         else:
             write('/>\n')
         for c in getattr(base, 'commentsafter', []):
-            write('{}<!--{}-->\n'.format(indent, c))
+            write('{}<!--{}-->\n'.format(indent, self._protectcomment(c)))
 
     def save_as(self, fname, base = None, indent = '', topns = True, namespaces = None):
         """ A more comfortable serialize_xml using a filename. The file is replaced
-- 
2.43.0


From 40a19e712cd2bbf0a31c31944eb8321cbca2d95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 16/71] fix: let merge be called without a base and without a
 default draft

---
 lib/sldr/ldml_merge.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 658783c..af2ac79 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -191,7 +191,7 @@ class LdmlMerge(Ldml):
            Returns True if the merge did the work."""
         res = False
         if default is None:
-            default = base.default_draft
+            default = self.default_draft
         # if base != target && base better than target
         if base is not None and base.contentHash != target.contentHash and base.text and self.get_draft(base) < self.get_draft(target, default):
             res = True
@@ -327,11 +327,12 @@ class LdmlMerge(Ldml):
         oattrs = set(other.keys() if other is not None else [])
         for k in list(this.keys()):                                  # go through our attributes
             if k in oattrs:
-                if k in base.attrib and base.get(k) == this.get(k) and this.get(k) != other.get(k):
+                if base is not None and k in base.attrib and base.get(k) == this.get(k) and this.get(k) != other.get(k):
                     res = True
                     this.set(k, other.get(k))                       # t == b && t != o
                 elif this.get(k) != other.get(k):
-                    self.clash_attrib(k, this.get(k), other.get(k), base.get(k), this, other, base, usedrafts=self.useDrafts)    # t != o
+                    self.clash_attrib(k, this.get(k), other.get(k), (base.get(k) if base is not None else None),
+                                        this, other, base, usedrafts=self.useDrafts)    # t != o
                     res = True
                 oattrs.remove(k)
             elif base is not None and k in base.attrib:                        # o deleted it
-- 
2.43.0


From 18754ad9ab9928e39211a208b39dfcc0af6c166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:06 +0000
Subject: [PATCH 17/71] fix: record a merge clash once even if it is merged
 again

---
 lib/sldr/ldml_merge.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index af2ac79..fe3dec0 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -365,12 +365,15 @@ class LdmlMerge(Ldml):
                 this.text = btext
                 this.contentHash = base.contentHash
                 return
+        self._add_clash(this, 'Clash: "{}" or "{}" from "{}"'.format(ttext, otext, btext))
+
+    def _add_clash(self, this, comment):
         if not hasattr(this, 'comments'): this.comments = []
-        this.comments.append('Clash: "{}" or "{}" from "{}"'.format(ttext, otext, btext))
+        if self._protectcomment(comment) not in (self._protectcomment(c) for c in this.comments):
+            this.comments.append(comment)
 
     def clash_attrib(self, key, tval, oval, bval, this, other, base, usedrafts = False):
-        if not hasattr(this, 'comments'): this.comments = []
-        this.comments.append('Attribute ({}) clash: "{}" or "{}" from "{}"'.format(key, tval, oval, bval))
+        self._add_clash(this, 'Attribute ({}) clash: "{}" or "{}" from "{}"'.format(key, tval, oval, bval))
         return tval        # not sure what to do here. 'We' win!
 
 
-- 
2.43.0


From fe3f95336e5c778448748f8382bd9cefdc93293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 18/71] fix: an element taken from another document belongs to
 its new parent

---
 lib/sldr/ldml_merge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index fe3dec0..231a252 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -94,6 +94,7 @@ class LdmlMerge(Ldml):
                     t.text = o.text
             break  # only do one alignment
         if addme and (o.tag != "alias" or not len(this)):  # alias in effect turns it into blocking
+            o.parent = this
             this.append(o)
 
     def _overlay_external_resources(self, other, this, usedrafts):
@@ -120,6 +121,7 @@ class LdmlMerge(Ldml):
                             if t in tt:
                                 f.set('types', " ".join(x for x in tt if x != t))
                         fonts = [x for x in fonts if x.get('types', '') != '']
+                o.parent = this
                 this.append(o)
             else:
                 self._overlay_child(o, this, usedrafts)
@@ -295,6 +297,7 @@ class LdmlMerge(Ldml):
                     if not self.useDrafts or \
                             not self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments):
                         this.remove(t)                                  # swap us out
+                        t.mergeOther.parent = this
                         this.append(t.mergeOther)
                         res = True
                 elif t.mergeBase.contentHash != t.mergeOther.contentHash:
-- 
2.43.0


From 81637a34a247a649a7ceaf7d2e5cc569bc037e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:36 +0000
Subject: [PATCH 19/71] fix: allow inheriting external resources into a locale
 that has none of its own

---
 lib/sldr/ldml_merge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 231a252..130521a 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -79,7 +79,7 @@ class LdmlMerge(Ldml):
             # simple if for now, if more use a dict
             if o.tag in self.blocks:
                 continue
-            if o.tag == '{'+self.silns+'}external-resources':
+            if o.tag == '{'+self.silns+'}external-resources' and any(x.attrHash == o.attrHash for x in this):
                 self._overlay_external_resources(o, this, usedrafts)
             else:
                 self._overlay_child(o, this, usedrafts)
@@ -137,7 +137,7 @@ class LdmlMerge(Ldml):
         """Handle @draft and @alt"""
         if not hasattr(o, 'alternates'): return
         if hasattr(b, 'alternates'):
-            for (k, v) in o.items():
+            for (k, v) in o.alternates.items():
                 if k not in b.alternates: b.alternates[k] = v
         else:
             b.alternates = o.alternates
-- 
2.43.0


From f7b74c0bfd57410ea3cbe4817608cb3fea8582ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:36 +0000
Subject: [PATCH 20/71] fix: alias loop report and subelement no longer raise

---
 lib/sldr/ldml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 29dd536..6a307fd 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -249,7 +249,7 @@ class ETWriter(object):
         """ Create a new SubElement and do localns replacement as in ns:tag -> {url}tag"""
         tag = self._reverselocalns(tag)
         kw = {self._reverselocalns(k): v for k, v in kw.items() if v is not None}
-        return et.SubElement(parent, tag, **k)
+        return et.SubElement(parent, tag, **kw)
 
 
 def etwrite(et, write, topns = True, namespaces = None):
@@ -970,7 +970,7 @@ class Ldml(ETWriter):
                 children = this.findall(v)
                 if children is None or not len(children): continue
                 if children[0] in _cache:
-                    print("Alias loop discovered {} in {}".format(children[0], self.name))
+                    print("Alias loop discovered {} in {}".format(children[0].tag, getattr(self, 'fname', None)))
                     return True
                 _cache.add(children[0])
                 self.resolve_aliases(children[0], _cache)
-- 
2.43.0


From 4c94a44f6c1f24d8b73cbd22bef51750dd708733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 21/71] fix: ldmlmerge output to stdout and its -g option under
 python 3

---
 scripts/ldmlmerge | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/ldmlmerge b/scripts/ldmlmerge
index 96544d5..c5b06cc 100755
--- a/scripts/ldmlmerge
+++ b/scripts/ldmlmerge
@@ -27,7 +27,7 @@
 import os, sys, codecs
 from argparse import ArgumentParser
 from subprocess import check_output
-from io import StringIO
+from io import BytesIO
 from xml.etree import ElementTree as et
 from datetime import datetime
 from sldr.ldml_merge import LdmlMerge, flattenlocale
@@ -68,12 +68,12 @@ if args.git :
         fpath = find_ldml(args.base, args.dirs)
         if fpath is None : raise SyntaxError("Bad base value: " + args.base + ", or search dirs: " + args.dirs)
         base_str = check_output(["git", "show", revid+":"+fpath])
-        basefh = StringIO(base_str)
+        basefh = BytesIO(base_str)
         base = flattenlocale(basefh, dirs=args.dirs, rev='f', fname=args.base)
-        latestid = check_output(["git", "log", "-n", "1", '--pretty=format:%H', revid+"..", fpath])
+        latestid = check_output(["git", "log", "-n", "1", '--pretty=format:%H', revid+"..", fpath]).decode("utf-8")
         if latestid :
             other_str = check_output(["git", "show", latestid+":"+fpath])
-            otherfh = StringIO(other_str)
+            otherfh = BytesIO(other_str)
             other = flattenlocale(otherfh, dirs=args.dirs, rev='f', fname=args.base)
 else :
     base = LdmlMerge(args.base)
@@ -82,7 +82,7 @@ else :
 
 if args.verbose:
     print(f"{args=}")
-    print(f"{this.default_draft=} {base.default_draft=} {other.default_draft=}")
+    print(f"{this.default_draft=} {base.default_draft=} {getattr(other, 'default_draft', None)=}")
 if this.merge(other, base, default=args.default, copycomments=args.copycomments) and not args.nogeneration :
     # update the date
     idnode = this.find("./identity/generation")
@@ -93,7 +93,7 @@ if this.merge(other, base, default=args.default, copycomments=args.copycomments)
     currdate = datetime.now()
     #currdate.microsecond = 0
     #idnode.set("date","$Date: " + currdate.isoformat() + " $")
-sys.stdout = codecs.getwriter("UTF-8")(sys.stdout)
+sys.stdout = codecs.getwriter("UTF-8")(sys.stdout.buffer)
 this.normalise()
 
 if args.git :
-- 
2.43.0


From d7243087e2b1944ec207e47893f8d89e90130618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 22/71] fix: cldrimport --hg under python 3

---
 scripts/cldrimport | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/cldrimport b/scripts/cldrimport
index 7cf3610..312debd 100755
--- a/scripts/cldrimport
+++ b/scripts/cldrimport
@@ -32,6 +32,7 @@ import os, sys, codecs, subprocess
 from argparse import ArgumentParser
 from sldr.ldml_merge import LdmlMerge
 from langtag import lookup
+from xml.etree import ElementTree as et
 
 from multiprocessing import Pool
 
@@ -109,7 +110,7 @@ def dohg(l, files) :
     cmd = ["hg", "log", "-R", os.path.join(args.indir, '..'), "-l", "1", "--template", "{svnrev}\n{isodate(date)}"]
     cmd.extend(files)
     clog = subprocess.check_output(cmd)
-    (rev, date) = clog.split("\n")
+    (rev, date) = clog.decode("utf-8").split("\n")
     i = l.root.find("identity")
     r = i.find("version")
     if r is None :
-- 
2.43.0


From 130dd24e5bdaed650857902954fda221e8e6289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 23/71] fix: exemplars no longer depend on the order in which
 the text is processed

---
 lib/sldr/ldml_exemplars.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index db0cf76..f7ac7cd 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -351,12 +351,11 @@ class Exemplars(object):
 
     def _get_script(self):
         """Return most frequently occurring script."""
-        script_code_and_count_list = self.scripts.most_common(1)
-        if len(script_code_and_count_list) == 0:
+        if len(self.scripts) == 0:
             return ''
         else:
-            script_code_and_count = script_code_and_count_list[0]
-            script_code = script_code_and_count[0]
+            # if scripts are equally frequent, the choice must not depend on which came first.
+            script_code = max(self.scripts, key=lambda s: (self.scripts[s], s))
             script = self.codes_for_scripts[script_code]
             script_name = Script.getShortName(script)
             return script_name
@@ -497,6 +496,11 @@ class Exemplars(object):
         if exemplar.base == '':
             return
 
+        # The same goes for an exemplar that has just been split:
+        # its occurrences must not be counted again.
+        if exemplar not in self.clusters:
+            return
+
         mark = exemplar.trailers[index]
         before_current_mark = exemplar.trailers[:index]
         after_current_mark = exemplar.trailers[index+1:]
@@ -598,7 +602,7 @@ class Exemplars(object):
         """Move Default_Ignorable_Code_Point characters to auxiliary."""
         for exemplar in list(self.clusters.keys()):
             if exemplar.base == '':
-                return
+                continue
             if Char.hasBinaryProperty(exemplar.base, UProperty.DEFAULT_IGNORABLE_CODE_POINT):
                 # The base is a Default_Ignorable_Code_Point
                 # which needs to go in the auxiliary list.
-- 
2.43.0


From db894ed3aff7fd514af25bc10ade8e8f8bebe6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 24/71] fix: exemplars with equal sort keys are written in a
 fixed order

---
 lib/sldr/ldml_exemplars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index f7ac7cd..3929be5 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -393,7 +393,7 @@ class Exemplars(object):
             # Exemplars mentioned in UTS #35 need to be sorted.
             collator = self.collator if self.collator else Collator.createInstance()
             list_exemplars = list()
-            for exemplar in sorted(exemplars, key=collator.getSortKey):
+            for exemplar in sorted(exemplars, key=lambda x: (collator.getSortKey(x), x)):
                 list_exemplars.append(exemplar)
         else:
             # Graphemes should be sorted by frequency,
-- 
2.43.0


From e7a8f8160f848ff776943259269b72f75f1bc5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 25/71] fix: the default font does not depend on the hash seed

---
 scripts/sldraddfonts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/sldraddfonts b/scripts/sldraddfonts
index b8541fc..4727d5a 100755
--- a/scripts/sldraddfonts
+++ b/scripts/sldraddfonts
@@ -359,7 +359,7 @@ def write_font_data(xml_locale, filepath, preferred_fonts):
         only_csv = sorted(set(preferred_fonts_from_csv) - set(preferred_fonts_from_css))
         only_css = sorted(set(preferred_fonts_from_css) - set(preferred_fonts_from_csv))
 
-        common = set(preferred_fonts_from_csv) & set(preferred_fonts_from_css)
+        common = sorted(set(preferred_fonts_from_csv) & set(preferred_fonts_from_css))
 
         message = ''
         # fonts
-- 
2.43.0


From d0f4ff4c64102067989b9f70e759833347120f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 26/71] fix: judge all currencies of a coverage run by the same
 date

---
 scripts/sldrcoverage | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/sldrcoverage b/scripts/sldrcoverage
index ba3ba5a..3c4cd70 100755
--- a/scripts/sldrcoverage
+++ b/scripts/sldrcoverage
@@ -12,8 +12,10 @@ except NameError:
     def cmp(a, b):
         return -1 if a < b else (1 if a > b else 0)
 
+today = datetime.date.today()       # one date for the whole run
+
 def compare_now(s):
-    n = datetime.date.today()
+    n = today
     t = [int(x) for x in s.split("-")]
     return cmp(n.year, t[0]) or cmp(n.month, t[1]) or cmp(n.day, t[2])
 
-- 
2.43.0


From f9d3ffbc7f5ab37f58460931f3fd418b8992b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:02 +0000
Subject: [PATCH 27/71] fix: an interrupt while reading the DUCET is not a
 missing table

---
 lib/sldr/collation.py | 2 +-
 lib/sldr/ducet.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 7e64c67..0627040 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -133,7 +133,7 @@ def readDucet(path="") :
                 key = "".join(chr(int(x, 16)) for x in keyre.findall(parts[0]))
                 vals = valre.findall(parts[1])
                 result[key] = tuple(tuple(int(x, 16) for x in v) for v in vals)
-    except :
+    except (OSError, UnicodeError):
         print("ERROR: unable to read DUCET data in allkeys.txt")
         return {}
     if not path:
diff --git a/lib/sldr/ducet.py b/lib/sldr/ducet.py
index b12e885..da9541b 100644
--- a/lib/sldr/ducet.py
+++ b/lib/sldr/ducet.py
@@ -8,7 +8,7 @@ def readDucet(path="") :
     try :
         with open(ducetFilename, 'r') as f :
             content = f.readlines()
-    except :
+    except (OSError, UnicodeError):
         print("ERROR: unable to read DUCET data in allkeys.txt")
         return {}
 
-- 
2.43.0


From aaa88a8c20a4647e8194960c886acd9051280f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:11 +0000
Subject: [PATCH 28/71] fix: a damaged file is not an empty collation when
 flattening imports

---
 lib/sldr/ldml_merge.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 130521a..8f45763 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -469,12 +469,13 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
                 else:
                     c = getldml(('root' if lang == 'und' else lang), dirs)
                 col = c.root.find('collations/collation[@type="{}"]/cr'.format(collmap.get(coll, coll)))
-                return col.text
-            except:
+                return col.text or ''
+            except AttributeError:      # no such locale or collation
                 return ''
             
         for i in l.root.findall('collations/collation/cr'):
-            i.text = l.flatten_collation(i.text, getcollator)
+            if i.text:
+                i.text = l.flatten_collation(i.text, getcollator)
 
     return l
 
-- 
2.43.0


From 228f95936a93b58e09aedc8426604ed1ff8ae258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:25 +0000
Subject: [PATCH 29/71] fix: sldraddkeymans report has the fields of its rows

---
 scripts/sldraddkeymans | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/sldraddkeymans b/scripts/sldraddkeymans
index 65c998a..97bf214 100755
--- a/scripts/sldraddkeymans
+++ b/scripts/sldraddkeymans
@@ -40,8 +40,8 @@ for a in alldat["keyboard"]:
                 entry[s+'source'] = k[s]['source'][0]
 if args.output:
     with open(args.output, "w") as outf:
-        fieldnames = ['langtag', 'fontfamily', 'fontsource',
-                    'oskfamily', 'osksource']
+        fieldnames = ['langtag', 'id', 'fontfamily', 'fontsource',
+                    'oskfontfamily', 'oskfontsource']
         writer = csv.DictWriter(outf, fieldnames = fieldnames)
         writer.writeheader()
         for k, v in sorted(results.items()):
-- 
2.43.0


From 7de14c82acad1f9d7af5f44727fbd4d7ce240ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:16 +0000
Subject: [PATCH 30/71] fix: find and findall with // find descendants

---
 lib/sldr/ldml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 6a307fd..e542c69 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -680,6 +680,8 @@ class Ldml(ETWriter):
                 tag, attrs = (p, {})
             if tag == ".":
                 newcurr = curr
+            elif tag == "":         # from // in the path
+                newcurr = [c for job in curr for c in job.iter()]
             else:
                 for job in curr:
                     for c in job:
-- 
2.43.0


From 2556be11d86b5dde54f947e1eab9d40ba0f6522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:07 +0000
Subject: [PATCH 31/71] fix: fixsldr and cldrimport can add elements to a
 document

---
 lib/sldr/ldml.py   | 4 +++-
 scripts/cldrimport | 4 ++--
 scripts/fixsldr    | 8 ++++----
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index e542c69..f4f3f27 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -249,7 +249,9 @@ class ETWriter(object):
         """ Create a new SubElement and do localns replacement as in ns:tag -> {url}tag"""
         tag = self._reverselocalns(tag)
         kw = {self._reverselocalns(k): v for k, v in kw.items() if v is not None}
-        return et.SubElement(parent, tag, **kw)
+        res = parent.makeelement(tag, kw)       # et.SubElement only takes its own kind of element
+        parent.append(res)
+        return res
 
 
 def etwrite(et, write, topns = True, namespaces = None):
diff --git a/scripts/cldrimport b/scripts/cldrimport
index 312debd..9d02505 100755
--- a/scripts/cldrimport
+++ b/scripts/cldrimport
@@ -114,11 +114,11 @@ def dohg(l, files) :
     i = l.root.find("identity")
     r = i.find("version")
     if r is None :
-        r = et.SubElement(i, "version")
+        r = l.subelement(i, "version")
     r.set('number', "$Revision: {} $".format(rev))
     d = i.find("generation")
     if d is None :
-        d = et.SubElement(i, "generation")
+        d = l.subelement(i, "generation")
     d.set("date", "$Date: {} $".format(date))
 
 def dosafe(a) :
diff --git a/scripts/fixsldr b/scripts/fixsldr
index 8caa45f..bac361a 100755
--- a/scripts/fixsldr
+++ b/scripts/fixsldr
@@ -106,11 +106,11 @@ def add_silidentity(ldml) :
     ldml.add_namespace('sil', silns[1:-1])
     identity = ldml.root.find('identity')
     if identity is None :
-        identity = SubElement(ldml.root, 'identity')
+        identity = ldml.subelement(ldml.root, 'identity')
     silident = identity.find('special/'+silns+'identity')
     if silident is None :
-        temp = SubElement(identity, 'special')
-        silident = SubElement(temp, silns+'identity')
+        temp = ldml.subelement(identity, 'special')
+        silident = ldml.subelement(temp, silns+'identity')
     return silident
 
 def doit(l) :
@@ -138,7 +138,7 @@ def doit(l) :
         if len(orient) > 0 :
             layout = curr.root.find('layout')
             if layout is None :
-                layout = SubElement(curr.root, 'layout')
+                layout = curr.subelement(curr.root, 'layout')
             layout.append(orient)
     status = curr.root.find('status')
     if status is not None :
-- 
2.43.0


From c997502da0bf51a57fb87d5b0b12d76e0e64c91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:41 +0000
Subject: [PATCH 32/71] fix: elements made by subelement are full members of
 the document

---
 lib/sldr/ldml.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index f4f3f27..81fef7e 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -564,6 +564,13 @@ class Ldml(ETWriter):
         parent.append(e)
         return e
 
+    def subelement(self, parent, tag, **kw):
+        res = super().subelement(parent, tag, **kw)
+        res.parent = parent
+        res.document = self
+        self._calc_hashes(res, self.useDrafts)
+        return res
+
     def _add_alt_leaf(self, target, origin, default='unconfirmed', leaf=True, alt=None):
         odraft = self.get_draft(origin, default)
         res = origin
-- 
2.43.0


From 4474b212e6f54d1017b6e96a71c83d2c449f3707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:08 +0000
Subject: [PATCH 33/71] fix: ldmlflatten --single names the locale whose save
 failed

---
 scripts/ldmlflatten | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/scripts/ldmlflatten b/scripts/ldmlflatten
index fb8c8ef..2d94984 100755
--- a/scripts/ldmlflatten
+++ b/scripts/ldmlflatten
@@ -67,14 +67,9 @@ elif args.copy :
     
 def doit(l) :
     if args.single :
-        try:
-            curr = flattenlocale(l, dirs=args.indir, rev=action,
-                                 skipstubs=args.skipstubs, flattencollation=True,
-                                 resolveAlias=args.antialias)
-        except Exception as e:
-            print("Failed in " + l)
-            raise e
-            return (False, l)
+        curr = flattenlocale(l, dirs=args.indir, rev=action,
+                             skipstubs=args.skipstubs, flattencollation=True,
+                             resolveAlias=args.antialias)
     else :
         try :
             curr = flattenlocale(l, dirs=args.indir, rev=action,
@@ -119,6 +114,9 @@ def dosafe(l) :
     try :
         return doit(l)
     except Exception as e :     # don't take the rest of the batch down with us
+        if args.single :
+            print("Failed in " + l)
+            raise
         return (False, l, str(e) or repr(e))
 
 if not args.single :
@@ -127,7 +125,7 @@ if not args.single :
     pool.close()
     pool.join()
 else :
-    results = [doit(l) for l in args.locale]
+    results = [dosafe(l) for l in args.locale]
 for r in [x for x in results if not x[0]]:
     print("Error in "+r[1] + " problem: " + r[2])
 
-- 
2.43.0


From 35879dae3cf6f47882e24bcd6e01690f1a12e5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:22 +0000
Subject: [PATCH 34/71] fix: ldmlnormalize passes over files that are not
 locale files

---
 scripts/ldmlnormalize | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ldmlnormalize b/scripts/ldmlnormalize
index 6dbd0fb..c2b282e 100755
--- a/scripts/ldmlnormalize
+++ b/scripts/ldmlnormalize
@@ -21,7 +21,7 @@ else:
         if di.endswith(".xml") or di.endswith(".ldml"):
             allins.append(di)
             allouts.append(do)
-        else:
+        elif os.path.isdir(di):
             for f in os.listdir(di):
                 fi = os.path.join(di, f)
                 fo = os.path.join(do, f)
-- 
2.43.0


From 4bfbb748ceccdbd0648bae67fb865e56b6fcea8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:21 +0000
Subject: [PATCH 35/71] fix: merge winner other keeps what other changed and
 this removed

---
 lib/sldr/ldml_merge.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 8f45763..eb93ca3 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -150,6 +150,7 @@ class LdmlMerge(Ldml):
         for t in list(this):
             t.mergeOther = olist.get(t.contentHash, None)
             t.mergeBase = blist.get(t.contentHash, None)
+            t.mergeAdded = False
             if t.mergeOther is not None:
                 del olist[t.contentHash]
                 if t.mergeBase is not None:
@@ -186,6 +187,7 @@ class LdmlMerge(Ldml):
             else:
                 newe.mergeBase = None
             newe.mergeOther = None     # don't do anything with this in merge()
+            newe.mergeAdded = True
             this.append(newe)
 
     def _merge_with_alts(self, base, other, target, default=None, copycomments=None):
@@ -304,7 +306,8 @@ class LdmlMerge(Ldml):
                     res |= self.merge(t.mergeOther, t.mergeBase, t, default=default)        # could be a clash so recurse
                 elif self.useDrafts:       # base == other
                     res |= self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
-            elif t.mergeOther is None and (t.mergeBase.contentHash == t.contentHash or self.winner == "other"):
+            elif t.mergeOther is None and (t.mergeBase.contentHash == t.contentHash \
+                                            or (self.winner == "other" and not t.mergeAdded)):
                 this.remove(t)
                 res = True
             elif self.useDrafts:
-- 
2.43.0


From e956a7cb4a42d807f461ac2371cc5b5ad351ed86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:21 +0000
Subject: [PATCH 36/71] fix: merge takes items both sides added inside a new
 section

---
 lib/sldr/ldml_merge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index eb93ca3..cc74f6f 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -291,7 +291,11 @@ class LdmlMerge(Ldml):
         # other and base can be None
         for t in list(this):       # go through children merging them
             if t.mergeBase is None:
-                if self.useDrafts and t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:
+                if t.mergeOther is None or t.mergeOther.contentHash == t.contentHash:
+                    continue
+                if len(t) or len(t.mergeOther):    # both added it, take what each put in
+                    res |= self.merge(t.mergeOther, None, t, default=default)
+                elif self.useDrafts:
                     self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
                 continue
             if t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:     # other differs
-- 
2.43.0


From 15a2273f585a1ee390fe3f2c1842d8774239dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:22 +0000
Subject: [PATCH 37/71] fix: merge keeps the alternates of an added item

---
 lib/sldr/ldml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 81fef7e..304b107 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -535,6 +535,8 @@ class Ldml(ETWriter):
         for a in ('contentHash', 'attrHash', 'comments', 'commentsafter', 'parent', 'document'):
             if hasattr(n, a):
                 setattr(res, a, getattr(n, a, None))
+        if hasattr(n, 'alternates'):
+            res.alternates = dict(n.alternates)
         if parent is not None:
             res.parent = parent
         return res
-- 
2.43.0


From 48944cd77c46a94bcd34b350fb7166654bd2b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:26 +0000
Subject: [PATCH 38/71] fix: the draft status of an item does not change the
 hash of its section

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 304b107..d611e4a 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -826,7 +826,7 @@ class Ldml(ETWriter):
             def cmpat(x, y):
                 return cmp(getorder(x), getorder(y)) or cmp(x, y)
             def keyel(x):
-                xl = self._sortedattrs(x)
+                xl = self._sortedattrs(x, [k for k in x.keys() if k != 'draft' or not usedrafts])
                 res = [self.elementOrder.get(base.tag, {}).get(x.tag, self.maxEls), x.tag]
                 for k, a in ((l, x.get(l)) for l in xl):
                     if x.tag in self.attribvals and k in self.attribvals[x.tag]:
-- 
2.43.0


From 8c62bb959a2740ff45e1227b54e9d2ee1348c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:33 +0000
Subject: [PATCH 39/71] fix: items differing in letter case only have a fixed
 order

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index d611e4a..4ff0763 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -833,7 +833,7 @@ class Ldml(ETWriter):
                         res += (k, self.attribvals[x.tag][k].get(a, "{}{}".format(len(self.attribvals[x.tag][k]), a)))
                     else:
                         res += (k, a.lower())
-                return res
+                return (res, [x.get(l) for l in xl])        # ignoring case, but always in the same order
             children = sorted(base, key=keyel)
             base[:] = children
         if base.text:
-- 
2.43.0


From e6c1eb0f96937865c522e1ba9126e8ca31e726b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:23 +0000
Subject: [PATCH 40/71] fix: items have the same order whatever their draft
 status

---
 lib/sldr/ldml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 4ff0763..32991d8 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -826,14 +826,15 @@ class Ldml(ETWriter):
             def cmpat(x, y):
                 return cmp(getorder(x), getorder(y)) or cmp(x, y)
             def keyel(x):
-                xl = self._sortedattrs(x, [k for k in x.keys() if k != 'draft' or not usedrafts])
+                xl = self._sortedattrs(x, [k for k in x.keys() if k != 'draft'])
                 res = [self.elementOrder.get(base.tag, {}).get(x.tag, self.maxEls), x.tag]
                 for k, a in ((l, x.get(l)) for l in xl):
                     if x.tag in self.attribvals and k in self.attribvals[x.tag]:
                         res += (k, self.attribvals[x.tag][k].get(a, "{}{}".format(len(self.attribvals[x.tag][k]), a)))
                     else:
                         res += (k, a.lower())
-                return (res, [x.get(l) for l in xl])        # ignoring case, but always in the same order
+                # ignoring case and draft, but always in the same order
+                return (res, [x.get(l) for l in xl], x.get('draft', ''))
             children = sorted(base, key=keyel)
             base[:] = children
         if base.text:
-- 
2.43.0


From bd131b7557ab8622e874e457d7655b4db537f3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:15 +0000
Subject: [PATCH 41/71] fix: flattening does not add root to the shared table
 of parent locales

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index cc74f6f..3f6fb4b 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -435,7 +435,7 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
     if skipstubs and len(l.root) == 1 and l.root[0].tag == 'identity': return None
     ls = getscript(l)
     if rev != 'c':
-        fallbacks = l.get_parent_locales(lname)
+        fallbacks = list(l.get_parent_locales(lname))
         if not len(fallbacks):
             fallbacks = [trimtag(lname)]
         if 'root' not in fallbacks and lname != 'root':
-- 
2.43.0


From 40271e309d2c41bf114645299a625909afa3918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:17 +0000
Subject: [PATCH 42/71] fix: the fallback chain of a parent locale follows the
 parent locales, too

---
 lib/sldr/ldml_merge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 3f6fb4b..cd77b16 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -412,6 +412,10 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
         else:
             return s[:r]
 
+    def parentof(f):
+        p = (l.parentLocales.get(f, None) or [trimtag(f)])[0]
+        return '' if p == 'root' else p     # root comes last anyway
+
     def getscript(l):
         ls = None
         ltemp = l.find("identity/special/sil:identity")
@@ -462,7 +466,7 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
                             if f == 'root':
                                 l.flag_nonroots()
                             l.overlay(o)
-                f = trimtag(f)
+                f = parentof(f)
             if not dome: break
     if resolveAlias:
         l.resolve_aliases()
-- 
2.43.0


From 521906d807ccae0ad04f5a61da42fb965b2d02ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:44 +0000
Subject: [PATCH 43/71] fix: flattening only what changed looks at the whole
 fallback chain

---
 lib/sldr/ldml_merge.py | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index cd77b16..5f91ce2 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -444,30 +444,26 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
             fallbacks = [trimtag(lname)]
         if 'root' not in fallbacks and lname != 'root':
             fallbacks += ['root']
-        if len(changed):       # check against changed
-            dome = False
-            for f in fallbacks:
-                if f in changed:
-                    dome = True
-                    break
-            if not dome: return None
-        dome = True
-        for f in fallbacks:    # apply each fallback
+        chain = []
+        for f in fallbacks:
             while len(f):
-                o = getldml(f, dirs)
-                if o is not None:
-                    os = getscript(o)
-                    if os is None or os == ls:
-                        if rev == 'r':
-                            l.difference(o)
-                            dome = False
-                            break   # only need one for unflatten
-                        else:
-                            if f == 'root':
-                                l.flag_nonroots()
-                            l.overlay(o)
+                if f not in chain:
+                    chain.append(f)
                 f = parentof(f)
-            if not dome: break
+        if len(changed) and not any(f in changed for f in chain):       # check against changed
+            return None
+        for f in chain:        # apply each fallback
+            o = getldml(f, dirs)
+            if o is not None:
+                os = getscript(o)
+                if os is None or os == ls:
+                    if rev == 'r':
+                        l.difference(o)
+                        break   # only need one for unflatten
+                    else:
+                        if f == 'root':
+                            l.flag_nonroots()
+                        l.overlay(o)
     if resolveAlias:
         l.resolve_aliases()
     if skipstubs and len(l.root) == 1 and l.root[0].tag == 'identity': return None
-- 
2.43.0


From 54bd1daef8cd78b3e831fa3de6bb4d3da4794c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:49 +0000
Subject: [PATCH 44/71] fix: an interrupt while parsing a DUCET line is not a
 bad line

---
 lib/sldr/ducet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ducet.py b/lib/sldr/ducet.py
index da9541b..4b015a1 100644
--- a/lib/sldr/ducet.py
+++ b/lib/sldr/ducet.py
@@ -27,7 +27,7 @@ def readDucet(path="") :
             key = "".join(chr(int(x, 16)) for x in keyre.findall(parts[0]))
             vals = valre.findall(parts[1])
             result[key] = tuple(tuple(int(x, 16) for x in v) for v in vals)
-        except:
+        except ValueError:
             print("Error processing DUCET line: " + str(lineno + 1))
 
     return result
-- 
2.43.0


From 0fd059fab058135e16fe3d0f945085a473878043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:49 +0000
Subject: [PATCH 45/71] fix: a language tag table that cannot be read is not a
 missing one

---
 lib/sldr/langtags_full.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 5d01620..cd6d0f1 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -339,7 +339,7 @@ class LangTags(with_metaclass(Singleton, dict)):
                                 ltag.merge_equivalent(lt)
                             self[t] = ltag
                 return True
-            except IOError:
+            except FileNotFoundError:
                 continue
         return False
 
-- 
2.43.0


From 5172bbfaeed06b579399c3ebcc1dde40e3f004d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:32 +0000
Subject: [PATCH 46/71] fix: metadata is read for all classes of documents at
 once

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 32991d8..3f5a9ab 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -456,7 +456,7 @@ class Ldml(ETWriter):
         if not self._metadata_read:
             with self._metadata_lock:
                 if not self._metadata_read:
-                    self.__class__.ReadMetadata()
+                    Ldml.ReadMetadata()     # shared by all subclasses
         self.namespaces = {'http://www.w3.org/XML/1998/namespace': 'xml'}
         self.namespaces[self.silns] = 'sil'
         self.useDrafts = usedrafts
-- 
2.43.0


From 128e55363431e40cc03e34ae4eb48ae68d069351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:16 +0000
Subject: [PATCH 47/71] fix: an alternate without @draft has the draft of the
 document when the best is looked for

---
 lib/sldr/ldml.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 3f5a9ab..78c5bc8 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -604,21 +604,20 @@ class Ldml(ETWriter):
     def _find_best(self, node, threshold=len(draftratings), alt=None):
         ''' Find the best alternate in node. The alt parameter chooses that alt
             if it is a possible winner'''
-        maxr = len(draftratings)
         if not hasattr(node, 'alternates'):
             return None
         res = None
         if alt is not None:
             bestalt = node.alternates.get(alt, None)
             if bestalt is not None:
-                bestalt = draftratings.get(bestalt.get('draft', None), maxr)
+                bestalt = self.get_draft(bestalt, self.default_draft)
             else:
                 bestalt = None
         else:
             bestalt = None
 
         for k, v in node.alternates.items():
-            d = draftratings.get(v.get('draft', self.use_draft), maxr)
+            d = self.get_draft(v, self.default_draft)
             if d < threshold:
                 res = k
                 threshold = d
-- 
2.43.0


From a3e95d897fa64ff622f41f0322ef4aa45e1c3cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 48/71] fix: changing the draft of an alternate may make it the
 primary value, and takes nobody else's place

---
 lib/sldr/ldml.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 78c5bc8..53b7d66 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -631,12 +631,14 @@ class Ldml(ETWriter):
         oalt = getattr(old, 'alternates', {})
         if nalt is not None:
             old.alternates = nalt
-        if oalt is not None:
-            new.alternates = oalt
-        if alt is None:
-            alt = new.get('alt', None)
-        elif 'alt' in new.attrib and new.attrib['alt'] in new.alternates:
-            del new.alternates[new.attrib['alt']]
+        elif hasattr(old, 'alternates'):
+            del old.alternates
+        new.alternates = oalt
+        newalt = new.get('alt', None)
+        if oalt.get(newalt, None) is new:
+            del oalt[newalt]
+        if newalt is not None and (alt is None or alt in oalt):     # alt may be someone else's
+            alt = newalt
         new.alternates[alt] = old
         if 'alt' in new.attrib:
             del new.attrib['alt']
@@ -651,6 +653,14 @@ class Ldml(ETWriter):
     def change_draft(self, node, draft, alt=None):
         ''' Change the draft on a node, moving it in the alts hierarchy if necessary. '''
         alt = self.alt(alt)
+        primary = None
+        if getattr(node, "parent", None) is not None and not any(c is node for c in node.parent):
+            primary = next((c for c in node.parent if any(a is node for a in getattr(c, 'alternates', {}).values())), None)
+        if primary is not None:         # node is an alternate
+            node.set('draft', draft)
+            if self.get_draft(node) < self.get_draft(primary):
+                return self._promote(primary, node)
+            return node
         best = self._find_best(node, draftratings.get(draft, len(draftratings)), alt=alt)
         node.set('draft', draft)
         if best is None:
-- 
2.43.0


From 3fba61850b10bf2dd0040988e890f465e97503d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:10 +0000
Subject: [PATCH 49/71] fix: a proposal without a draft status is found among
 the alternates, too

---
 lib/sldr/ldml.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 53b7d66..b64e075 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -654,7 +654,7 @@ class Ldml(ETWriter):
         ''' Change the draft on a node, moving it in the alts hierarchy if necessary. '''
         alt = self.alt(alt)
         primary = None
-        if getattr(node, "parent", None) is not None and not any(c is node for c in node.parent):
+        if getattr(node, 'parent', None) is not None and not any(c is node for c in node.parent):
             primary = next((c for c in node.parent if any(a is node for a in getattr(c, 'alternates', {}).values())), None)
         if primary is not None:         # node is an alternate
             node.set('draft', draft)
@@ -772,8 +772,7 @@ class Ldml(ETWriter):
             curr = newcurr
             newcurr = []
             for job in curr:
-                extras = [] if draft is None or not hasattr(job, 'alternates') else job.alternates.values()
-                for j in itertools.chain([job], extras):
+                for j in [job] + list(getattr(job, 'alternates', {}).values()):
                     if j.text == text:
                         if draft is not None and self.get_draft(j) > draftratings.get(draft, len(draftratings)):
                             self.change_draft(j, draft, alt=alt)
-- 
2.43.0


From 546a6411e00c9203029697d912eea34c95df5ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:12 +0000
Subject: [PATCH 50/71] fix: a demoted primary value takes the place of the
 promoted alternate unless another is named

---
 lib/sldr/ldml.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index b64e075..1667ba5 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -652,7 +652,6 @@ class Ldml(ETWriter):
 
     def change_draft(self, node, draft, alt=None):
         ''' Change the draft on a node, moving it in the alts hierarchy if necessary. '''
-        alt = self.alt(alt)
         primary = None
         if getattr(node, 'parent', None) is not None and not any(c is node for c in node.parent):
             primary = next((c for c in node.parent if any(a is node for a in getattr(c, 'alternates', {}).values())), None)
@@ -661,12 +660,11 @@ class Ldml(ETWriter):
             if self.get_draft(node) < self.get_draft(primary):
                 return self._promote(primary, node)
             return node
-        best = self._find_best(node, draftratings.get(draft, len(draftratings)), alt=alt)
+        best = self._find_best(node, draftratings.get(draft, len(draftratings)), alt=self.alt(alt))
         node.set('draft', draft)
         if best is None:
             return node
-        elif alt is None:
-            alt = best
+        alt = self.alt(alt) if alt is not None else best
         return self._promote(node, node.alternates[best], alt=alt)
 
     def _add_inserted_node(self, before, draft, text, parent, tag, **kw):
-- 
2.43.0


From c9437307f8610176d818fea136357e76092bd334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:59 +0000
Subject: [PATCH 51/71] fix: sldraddkeymans and sldraddfonts write what they
 add in its place

---
 scripts/sldraddfonts   | 1 +
 scripts/sldraddkeymans | 1 +
 2 files changed, 2 insertions(+)

diff --git a/scripts/sldraddfonts b/scripts/sldraddfonts
index 4727d5a..c83d6f1 100755
--- a/scripts/sldraddfonts
+++ b/scripts/sldraddfonts
@@ -420,6 +420,7 @@ def write_font_data(xml_locale, filepath, preferred_fonts):
             resource = ldml.ensure_path(resource_path)[0]
             if url != '':
                 resource.text = url
+            ldml.normalise()
             ldml.save_as(filepath, topns=True)
 
             # only the first font is the default font
diff --git a/scripts/sldraddkeymans b/scripts/sldraddkeymans
index 97bf214..1c9d258 100755
--- a/scripts/sldraddkeymans
+++ b/scripts/sldraddkeymans
@@ -94,6 +94,7 @@ if args.sldr:
             res = l.ensure_path('special/sil:external-resources/sil:kbd[@id="{}"][@type="kmp"]/sil:url'\
                                 .format(basename), draft="generated")[0]
             res.text = "https://keyman.com/go/keyboard/{}/download/kmp".format(basename)
+        l.normalise()
         l.save_as(fpath)
         
             
-- 
2.43.0


From 0006867265ec6663265566d0e6b6535698eb6b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:45 +0000
Subject: [PATCH 52/71] fix: tailorings are made smaller the same way in every
 process

---
 lib/sldr/collation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 0627040..76e7652 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -394,7 +394,7 @@ class Collation(UserDict):
                 chains.setdefault(v.head(k, self), []).append((k, v))
         for k, v in chains.items():
             v.append((k, None))
-        ksorts = set(sum(chains.values(), []))
+        ksorts = list(dict.fromkeys(sum(chains.values(), [])))     # in a fixed order, some sort equal
         if not len(ksorts):
             return
         torder = [y[0] for y in sorted(ksorts, key=lambda x:ducetSortKey(self.ducet, x[0]))]
@@ -427,7 +427,7 @@ class Collation(UserDict):
 
     def minimise_old(self):
         self._setSortKeys()
-        allkeys = set(self.keys()) | set([v.base for v in self.values() if v.base is not None])
+        allkeys = list(dict.fromkeys(list(self.keys()) + [v.base for v in self.values() if v.base is not None]))
         order = sorted(self.keys(), key=lambda k:self[k].key)
         kducet = {k: ducetSortKey(self.ducet, k) for k in allkeys}
         korder = sorted(kducet.keys(), key=lambda k:kducet[k])
@@ -545,7 +545,7 @@ class Collation(UserDict):
     def _insertBefore(self):
         self._setSortKeys()
         outlist = sorted(self.keys(), key=lambda k:self[k].key)
-        inlist = sorted(set((k for k in self.keys() if k in self.ducet)), key=lambda k:ducetSortKey(self.ducet, k))
+        inlist = sorted((k for k in self.keys() if k in self.ducet), key=lambda k:ducetSortKey(self.ducet, k))
         for m in SequenceMatcher(a=inlist, b=outlist).get_opcodes():
             if m[0] in ("replace", "insert") and m[4] < len(outlist):
                 newbase = outlist[m[4]]
-- 
2.43.0


From ca790e5aeff33d73480c5c24ee3c99564a279329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:18 +0000
Subject: [PATCH 53/71] fix: splitting of stacked marks no longer depends on
 the order of the text

---
 lib/sldr/ldml_exemplars.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index 3929be5..94f3f07 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -514,9 +514,13 @@ class Exemplars(object):
         del self.clusters[exemplar]
         self.need_splitting = True
 
+    def ordered_clusters(self):
+        """Return the clusters, the longest first, in an order that does not depend on which came first in the text."""
+        return sorted(self.clusters, key=lambda x: (-len(x.trailers), x.base, x.trailers))
+
     def find_indic_matras_and_viramas(self):
         """Indic matras and viramas are always separate marks."""
-        for exemplar in list(self.clusters.keys()):
+        for exemplar in self.ordered_clusters():
             count = self.clusters[exemplar]
             for trailer_index in range(len(exemplar.trailers)):
                 trailer = exemplar.trailers[trailer_index]
@@ -526,7 +530,7 @@ class Exemplars(object):
 
     def find_marks_on_same_bases(self):
         """If a set of diacritics has the sames bases, the diacritics are separate."""
-        for exemplar in list(self.clusters.keys()):
+        for exemplar in self.ordered_clusters():
             count = self.clusters[exemplar]
             for trailer_index in range(len(exemplar.trailers)):
                 trailer = exemplar.trailers[trailer_index]
@@ -546,7 +550,7 @@ class Exemplars(object):
 
     def find_productive_marks(self):
         """Split clusters if a mark occurs on many bases."""
-        for exemplar in list(self.clusters.keys()):
+        for exemplar in self.ordered_clusters():
             count = self.clusters[exemplar]
             for trailer_index in range(len(exemplar.trailers)):
                 trailer = exemplar.trailers[trailer_index]
@@ -563,7 +567,7 @@ class Exemplars(object):
 
     def find_second_marks(self):
         """Split clusters if a mark is a second or later stacking diacritic."""
-        for exemplar in list(self.clusters.keys()):
+        for exemplar in self.ordered_clusters():
             count = self.clusters[exemplar]
             for trailer_index in range(len(exemplar.trailers)):
                 trailer = exemplar.trailers[trailer_index]
-- 
2.43.0


From 622399600c6518322c531c464ea64cb080b4386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:16 +0000
Subject: [PATCH 54/71] fix: writing a document does not take draft attributes
 out of it

---
 lib/sldr/ldml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 1667ba5..5a0dce4 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -942,11 +942,12 @@ class Ldml(ETWriter):
             self.use_draft = None
             self.ensure_path('identity/special/sil:identity[@uid="{}"]'.format(self.uid))
             self.use_draft = dstatus
+        draft = ''
         if self.useDrafts:
             n = base if base is not None else self.root
             draft = n.get('draft', '')
             if draft and (len(n) or draft == self.default_draft) and n.tag != "{" + self.silns + "}identity":
-                del n.attrib['draft']
+                del n.attrib['draft']           # not written, but still there afterwards
         try:
             if self.useDrafts:
                 offset = 0
@@ -965,6 +966,8 @@ class Ldml(ETWriter):
                     if hasattr(c, 'tempnode') and c.tempnode:
                         n.remove(c)
                         c.tempnode = False      # it may get promoted later
+            if draft:
+                n.set('draft', draft)
 
     def get_draft(self, e, default=None):
         """ Return a draft numeric level for this node """
-- 
2.43.0


From c649fc2f2fb3e118788b6cca570fd22cb89ee8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:33 +0000
Subject: [PATCH 55/71] fix: merge reports no clash on an attribute only one
 side changed

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 5f91ce2..e1ff943 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -340,7 +340,7 @@ class LdmlMerge(Ldml):
                 if base is not None and k in base.attrib and base.get(k) == this.get(k) and this.get(k) != other.get(k):
                     res = True
                     this.set(k, other.get(k))                       # t == b && t != o
-                elif this.get(k) != other.get(k):
+                elif this.get(k) != other.get(k) and (base is None or base.get(k) != other.get(k)):
                     self.clash_attrib(k, this.get(k), other.get(k), (base.get(k) if base is not None else None),
                                         this, other, base, usedrafts=self.useDrafts)    # t != o
                     res = True
-- 
2.43.0


From 06d298f1d566815c3fa61d36c003585f01c8291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:10 +0000
Subject: [PATCH 56/71] fix: merge keeps an attribute this side changed and the
 other removed

---
 lib/sldr/ldml_merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index e1ff943..2542049 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -345,7 +345,8 @@ class LdmlMerge(Ldml):
                                         this, other, base, usedrafts=self.useDrafts)    # t != o
                     res = True
                 oattrs.remove(k)
-            elif base is not None and k in base.attrib:                        # o deleted it
+            elif base is not None and k in base.attrib \
+                    and (base.get(k) == this.get(k) or self.winner == "other"):     # o deleted it
                 this.attrib.pop(k)
                 res = True
         for k in oattrs:                                       # attributes in o not in t
-- 
2.43.0


From 1590677b50bb7763719af77aa99c04a25b901ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:25 +0000
Subject: [PATCH 57/71] fix: changes in different places no longer give the
 same content hash

---
 lib/sldr/ldml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 5a0dce4..036c0f7 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -287,11 +287,12 @@ class _minhash(object):
         h = [self.hasher(x) for x in vec]
         if self.minhash is not None:
             for x in h: self._minhashupdate(h)
-        self.hashed = functools.reduce(lambda x,y:x * 1000003 + y, h, self.hashed) & self._mask
+        self.hashed = functools.reduce(lambda x,y: hash((x, y)), h, self.hashed) & self._mask
 
     def merge(self, aminh):
         if self.minhash is not None and aminh.minhash is not None: self._minhashupdate(aminh.minhash)
-        self.hashed = (self.hashed * 1000003 + aminh.hashed) & self._mask
+        # not linear, else the same change in two places can give the same hash
+        self.hashed = hash((self.hashed, aminh.hashed)) & self._mask
 
     def _minhashupdate(self, ahash):
         x = (1 << self._bits) - 1
-- 
2.43.0


From 8b017c30dff9f2cb6d0bef6c7ef2ef78315ef975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:49 +0000
Subject: [PATCH 58/71] fix: namespaced content from other documents is written
 with its namespace, default namespaces and prefix clashes survive a save

---
 lib/sldr/ldml.py       | 21 +++++++++++++--------
 lib/sldr/ldml_merge.py | 13 +++++++++++--
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 036c0f7..8350e1b 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -128,12 +128,8 @@ class ETWriter(object):
         ''' Convert {url}localname into ns:localname'''
         if tag[0] == '{':
             ns, localname = tag[1:].split('}', 1)
-            qname = self.namespaces.get(ns, '')
-            if qname:
-                return ('{}:{}'.format(qname, localname), qname, ns)
-            else:
-                self.nscount += 1
-                return (localname, 'ns' + str(self.nscount), ns)
+            qname = self.add_namespace('', ns)
+            return ('{}:{}'.format(qname, localname), qname, ns)
         else:
             return (tag, '', None)
 
@@ -178,6 +174,9 @@ class ETWriter(object):
             localattribs['xmlns:'+q] = ns
         if topns:
             if base == self.root:
+                for e in base.iter():           # may have come from somewhere else
+                    for n in [e.tag] + list(e.attrib):
+                        self._localisens(n)
                 for n,q in self.namespaces.items():
                     if q == "xml": continue
                     localattribs['xmlns:'+q] = n
@@ -223,8 +222,13 @@ class ETWriter(object):
             self.serialize_xml(outf.write, base=base, indent=indent, topns=topns, namespaces=namespaces)
 
     def add_namespace(self, q, ns):
-        """ Adds a namespace mapping"""
+        """ Adds a namespace mapping. A prefix that is empty or that already stands for another
+            namespace is replaced by one of our own. Returns the prefix."""
         if ns in self.namespaces: return self.namespaces[ns]
+        if ns == 'http://www.w3.org/XML/1998/namespace': q = 'xml'
+        while not q or q in self.namespaces.values():
+            self.nscount += 1
+            q = 'ns' + str(self.nscount)
         self.namespaces[ns] = q
         return q
 
@@ -492,7 +496,8 @@ class Ldml(ETWriter):
                 yield from et.iterparse(fh, events=('start', 'start-ns', 'end'), parser=parser)
         for event, elem in events():
             if event == 'start-ns':
-                self.namespaces[elem[1]] = elem[0]
+                if elem[1]:
+                    self.add_namespace(elem[0], elem[1])
             elif event == 'start':
                 elem.document = self
                 if elem.tag == '!--':
diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 2542049..808b5ca 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -71,10 +71,17 @@ class LdmlMerge(Ldml):
                 break
         return not len(this) and (not this.text or this.text == other.text)
 
+    def _take_namespaces(self, other):
+        """Know the namespaces of what may come from other by the prefixes they have there"""
+        for ns, q in other.namespaces.items():
+            self.add_namespace(q, ns)
+
     def overlay(self, other, usedrafts=False, this=None):
         """Add missing information in self from other. Honours @draft attributes"""
         if this == None: this = self.root
-        other = getattr(other, 'root', other)
+        if hasattr(other, 'root'):
+            self._take_namespaces(other)
+            other = other.root
         for o in other:
             # simple if for now, if more use a dict
             if o.tag in self.blocks:
@@ -285,7 +292,9 @@ class LdmlMerge(Ldml):
             Returns True if any changes were made."""
         res = False
         if this == None: this = self.root
-        if other is not None and hasattr(other, 'root'): other = other.root
+        if other is not None and hasattr(other, 'root'):
+            self._take_namespaces(other)
+            other = other.root
         if base is not None and hasattr(base, 'root'): base = base.root
         self._align(this, other, base)
         # other and base can be None
-- 
2.43.0


From 66caaee79a1d763a400aeccdc1185a8dd139e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:49 +0000
Subject: [PATCH 59/71] fix: a locale does not inherit the fallback of its
 parent

---
 lib/sldr/ldml_merge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 808b5ca..dac923a 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -58,6 +58,8 @@ class LdmlMerge(Ldml):
         if (not len(other) and not len(this)) or this.tag in self.blocks:
             return (other.contentHash == this.contentHash)
         for o in other:
+            if o.tag == 'fallback':
+                continue
             for t in filter(lambda x: x.attrHash == o.attrHash, this):
                 if o.contentHash == t.contentHash or self.difference(o, this=t):
                     if hasattr(t, 'alternates') and hasattr(o, 'alternates'):
@@ -84,7 +86,7 @@ class LdmlMerge(Ldml):
             other = other.root
         for o in other:
             # simple if for now, if more use a dict
-            if o.tag in self.blocks:
+            if o.tag in self.blocks or o.tag == 'fallback':     # whose fallback it is decides the chain
                 continue
             if o.tag == '{'+self.silns+'}external-resources' and any(x.attrHash == o.attrHash for x in this):
                 self._overlay_external_resources(o, this, usedrafts)
-- 
2.43.0


From 2c0a788ae28357b14391d2d926b293050fbc9302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:04 +0000
Subject: [PATCH 60/71] fix: unflattening removed alternates that flattening
 did not restore

---
 lib/sldr/ldml_merge.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index dac923a..64c3a5d 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -63,10 +63,9 @@ class LdmlMerge(Ldml):
             for t in filter(lambda x: x.attrHash == o.attrHash, this):
                 if o.contentHash == t.contentHash or self.difference(o, this=t):
                     if hasattr(t, 'alternates') and hasattr(o, 'alternates'):
-                        for (k, v) in o.alternates.items():
-                            if k in t.alternates and v.contentHash == t.alternates[k].contentHash:
-                                del t.alternates[k]
-                        if len(t.alternates) == 0:
+                        # flattening restores alternates only along with what they are of
+                        if all(k in o.alternates and v.contentHash == o.alternates[k].contentHash
+                                    for (k, v) in t.alternates.items()):
                             this.remove(t)
                     else:
                         this.remove(t)
-- 
2.43.0


From dc06ec36416e083e40adeb5030dc13bf76bcd434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:57 +0000
Subject: [PATCH 61/71] fix: a locale's own fonts come before the inherited
 ones, not the other way round, and are not lost in unflattening

---
 lib/sldr/ldml_merge.py | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 64c3a5d..9b3b237 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -57,8 +57,11 @@ class LdmlMerge(Ldml):
         # if empty elements, test .text and all the attributes
         if (not len(other) and not len(this)) or this.tag in self.blocks:
             return (other.contentHash == this.contentHash)
+        silfonttag = '{'+self.silns+'}font'
+        # which fonts are inherited depends on all those there are, so they go together or stay
+        fonts, ofonts = [set(x.contentHash for x in e if x.tag == silfonttag) for e in (this, other)]
         for o in other:
-            if o.tag == 'fallback':
+            if o.tag == 'fallback' or (o.tag == silfonttag and fonts != ofonts):
                 continue
             for t in filter(lambda x: x.attrHash == o.attrHash, this):
                 if o.contentHash == t.contentHash or self.difference(o, this=t):
@@ -108,32 +111,27 @@ class LdmlMerge(Ldml):
     def _overlay_external_resources(self, other, this, usedrafts):
         """Handle sil:font fallback mechanism"""
         silfonttag = '{'+self.silns+'}font'
-        fonts = []
         this = [x for x in this if x.attrHash == other.attrHash][0]
-        for t in list(this):
-            if t.tag == silfonttag:
-                fonts.append(t)
-                this.remove(t)
+        own = [x for x in this if x.tag == silfonttag]
+        fonts = []
         for o in other:
             if o.tag == silfonttag:
-                types = o.get('types', '').split(' ')
-                if not len(types):
-                    types = ['default']
-                for t in types:
-                    if t == 'default':
-                        fonts = []
-                        break
-                    else:
-                        for f in fonts:
-                            tt = f.get('types', 'default').split(' ')
-                            if t in tt:
-                                f.set('types', " ".join(x for x in tt if x != t))
-                        fonts = [x for x in fonts if x.get('types', '') != '']
-                o.parent = this
-                this.append(o)
+                fonts.append(o)
             else:
                 self._overlay_child(o, this, usedrafts)
+        for o in own:           # inherit fonts only for the types there are none for
+            for t in (o.get('types', '').split() or ['default']):
+                if t == 'default':
+                    fonts = []
+                    break
+                for f in list(fonts):
+                    tt = f.get('types', '').split()
+                    if t in tt:
+                        f.set('types', " ".join(x for x in tt if x != t))
+                        if f.get('types') == '':
+                            fonts.remove(f)
         for f in fonts:
+            f.parent = this
             this.append(f)
 
     def flag_nonroots(self):
-- 
2.43.0


From 2b9183fdfb68241ffd582e3086748bb0154dd00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:49 +0000
Subject: [PATCH 62/71] fix: unflattening part of the collations, which
 flattening does not restore

---
 lib/sldr/ldml_merge.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 9b3b237..8aba7b0 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -57,6 +57,9 @@ class LdmlMerge(Ldml):
         # if empty elements, test .text and all the attributes
         if (not len(other) and not len(this)) or this.tag in self.blocks:
             return (other.contentHash == this.contentHash)
+        if this.tag == 'collations':    # having any stops all inheriting of them, so all go or none
+            mine, theirs = [set(x.contentHash for x in e if x.tag == 'collation') for e in (this, other)]
+            return mine == theirs and all(any(o.contentHash == t.contentHash and self._same_alternates(t, o) for o in other) for t in this)
         silfonttag = '{'+self.silns+'}font'
         # which fonts are inherited depends on all those there are, so they go together or stay
         fonts, ofonts = [set(x.contentHash for x in e if x.tag == silfonttag) for e in (this, other)]
@@ -65,16 +68,17 @@ class LdmlMerge(Ldml):
                 continue
             for t in filter(lambda x: x.attrHash == o.attrHash, this):
                 if o.contentHash == t.contentHash or self.difference(o, this=t):
-                    if hasattr(t, 'alternates') and hasattr(o, 'alternates'):
-                        # flattening restores alternates only along with what they are of
-                        if all(k in o.alternates and v.contentHash == o.alternates[k].contentHash
-                                    for (k, v) in t.alternates.items()):
-                            this.remove(t)
-                    else:
+                    if self._same_alternates(t, o):
                         this.remove(t)
                 break
         return not len(this) and (not this.text or this.text == other.text)
 
+    def _same_alternates(self, this, other):
+        """Flattening restores alternates only along with what they are of"""
+        alts = getattr(other, 'alternates', {})
+        return all(k in alts and v.contentHash == alts[k].contentHash
+                    for (k, v) in getattr(this, 'alternates', {}).items())
+
     def _take_namespaces(self, other):
         """Know the namespaces of what may come from other by the prefixes they have there"""
         for ns, q in other.namespaces.items():
-- 
2.43.0


From 0ca45384044c781d9a2207404b8e4af9b605b591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:59 +0000
Subject: [PATCH 63/71] fix: unflattening dropped the identity of a locale that
 has the same as its parent

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 8aba7b0..b726851 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -64,7 +64,7 @@ class LdmlMerge(Ldml):
         # which fonts are inherited depends on all those there are, so they go together or stay
         fonts, ofonts = [set(x.contentHash for x in e if x.tag == silfonttag) for e in (this, other)]
         for o in other:
-            if o.tag == 'fallback' or (o.tag == silfonttag and fonts != ofonts):
+            if o.tag in ('identity', 'fallback') or (o.tag == silfonttag and fonts != ofonts):
                 continue
             for t in filter(lambda x: x.attrHash == o.attrHash, this):
                 if o.contentHash == t.contentHash or self.difference(o, this=t):
-- 
2.43.0


From 088cff4f48f16008c92bc2ddd6c956e3841083f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:55 +0000
Subject: [PATCH 64/71] fix: ensure_path put the text meant for the item into
 the elements created on the way to it

---
 lib/sldr/ldml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 8350e1b..dbe64f9 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -738,7 +738,8 @@ class Ldml(ETWriter):
                             newcurr.append(r)
             if not len(newcurr):
                 if action == "add":
-                    newcurr.append(self._add_inserted_node(before, draft, text, parent, tag, attrib=attrs, alt=alt))
+                    newcurr.append(self._add_inserted_node(before, draft, text if i == len(path)-1 else None,
+                                                            parent, tag, attrib=attrs, alt=alt))
                 else:
                     return []
             parent = newcurr[0]
-- 
2.43.0


From fe2e0f8e15da203befdbbe7eff7c268bbe50f24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:25 +0000
Subject: [PATCH 65/71] fix: a worse proposal put its text into the better one
 of the same alternate name

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index dbe64f9..3f27652 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -676,7 +676,7 @@ class Ldml(ETWriter):
     def _add_inserted_node(self, before, draft, text, parent, tag, **kw):
         if draft is not None:
             kw['draft'] = draft
-        se = self.addnode(parent, tag, **kw)
+        se = self.addnode(parent, tag, returnnew=True, **kw)    # not a better one of that alt that is there already
         if before is not None:
             for j, e in enumerate(parent):
                 if e.tag == before:
-- 
2.43.0


From 3812ed41eed1823f933b96be71ef1759d29ff0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:40 +0000
Subject: [PATCH 66/71] fix: alternates packed under an alternate survive when
 its primary turns up

---
 lib/sldr/ldml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 3f27652..928b5b2 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -868,7 +868,9 @@ class Ldml(ETWriter):
                     resk = None
                 else:
                     resk = min(v.keys(), key=lambda x: self.get_draft(v[x], self.default_draft))
-                newalts = dict(getattr(v[resk], 'alternates', {}))  # may have been packed up already
+                newalts = {}
+                for nv in v.values():               # may have been packed up already
+                    newalts.update(nv.__dict__.pop('alternates', {}))
                 newalts.update({nk: nv for nk, nv in v.items() if nk is not resk})
                 for nk in list(v.keys()):
                     if nk is not resk:
-- 
2.43.0


From d1ef20273817326d20cccfdbbdeff3021deda392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:40 +0000
Subject: [PATCH 67/71] fix: cldrimport removes references from all files,
 before they are put together

---
 scripts/cldrimport | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/cldrimport b/scripts/cldrimport
index 9d02505..99b97a0 100755
--- a/scripts/cldrimport
+++ b/scripts/cldrimport
@@ -78,6 +78,10 @@ def doit(a) :
         if os.path.exists(f) :
             allfiles.append(f)
             l = LdmlMerge(f)
+            for b in list(l.root.iter()):
+                for e in [b] + list(getattr(b, 'alternates', {}).values()):
+                    e.attrib.pop("references", None)        # remove all reference attributes
+            l.normalise(usedrafts=True)     # elements that only differed in those belong together
             if curr is not None :
                 curr.overlay(l)     # overlays the data from each different subdirectory file to make one LDML file with all the info
             else :
@@ -97,8 +101,6 @@ def doit(a) :
             curr.add_silidentity(draft = 'unconfirmed', source = 'cldrseed', **extras)
         else :
             curr.add_silidentity(source = 'cldr', **extras)
-        for b in list(l.root.iter()):
-            b.attrib.pop("references", None)        # remove all reference attributes
         if args.hg :
             dohg(curr, allfiles)
         # finds/makes the alphabetized directories in the output directory, makes the filepath for the new file, and makes the new file
-- 
2.43.0


From b1875d28a9717cfbad89c604478cf0cac268e7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:02 +0000
Subject: [PATCH 68/71] fix: iterate_files fails over a directory it cannot
 list

---
 lib/sldr/ldml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 928b5b2..6002fc9 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -35,9 +35,11 @@ from .py3xmlparser import XMLParser, TreeBuilder
 
 def iterate_files(root, ext=".xml"):
     """ Iterate a directory and subdirectories finding files with given extension """
+    def fail(e):                    # os.walk() otherwise passes over what it cannot list
+        raise e
     return sorted(functools.reduce(lambda a,x: a + x,
             ([os.path.join(w[0], f) for f in w[2] if f.endswith(ext)]
-                    for w in os.walk(root)), []))
+                    for w in os.walk(root, onerror=fail)), []))
 
 def getldml(loc, indirs):
     """ Given a langtag and list of root directories, seach for an LDML file and return the object """
-- 
2.43.0


From 04ed855a64f682217d548bedbfe1424d520a8ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:23 +0000
Subject: [PATCH 69/71] fix: ldmlmerge takes what is inherited from the locale,
 not from the path or extension of its file

---
 scripts/ldmlmerge | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scripts/ldmlmerge b/scripts/ldmlmerge
index c5b06cc..ae1f010 100755
--- a/scripts/ldmlmerge
+++ b/scripts/ldmlmerge
@@ -54,9 +54,12 @@ parser.add_argument('-G','--nogeneration',action="store_true",help="Don't update
 parser.add_argument('-v','--verbose',action="store_true",help="Be verbose")
 args = parser.parse_args()
 
+# the locale, which decides what is inherited
+locale = os.path.splitext(os.path.basename(args.base if args.git else args.this))[0]
+
 this = LdmlMerge(args.this, winner=args.winner)
 if args.dirs :
-    this = flattenlocale(this, dirs=args.dirs, rev='f', fname=args.this)
+    this = flattenlocale(this, dirs=args.dirs, rev='f', fname=locale)
 
 other = None
 if args.git :
@@ -69,12 +72,12 @@ if args.git :
         if fpath is None : raise SyntaxError("Bad base value: " + args.base + ", or search dirs: " + args.dirs)
         base_str = check_output(["git", "show", revid+":"+fpath])
         basefh = BytesIO(base_str)
-        base = flattenlocale(basefh, dirs=args.dirs, rev='f', fname=args.base)
+        base = flattenlocale(basefh, dirs=args.dirs, rev='f', fname=locale)
         latestid = check_output(["git", "log", "-n", "1", '--pretty=format:%H', revid+"..", fpath]).decode("utf-8")
         if latestid :
             other_str = check_output(["git", "show", latestid+":"+fpath])
             otherfh = BytesIO(other_str)
-            other = flattenlocale(otherfh, dirs=args.dirs, rev='f', fname=args.base)
+            other = flattenlocale(otherfh, dirs=args.dirs, rev='f', fname=locale)
 else :
     base = LdmlMerge(args.base)
     if args.other :
@@ -101,7 +104,7 @@ if args.git :
     if idnode is not None :
         for k in ('uid', 'revid') :
             if k in idnode.attrib : del idnode.attrib[k]
-    this = flattenlocale(this, rev='r', dirs=args.dirs, fname=args.this)
+    this = flattenlocale(this, rev='r', dirs=args.dirs, fname=locale)
 
 this.normalise(usedrafts=True)
 if not args.output :
-- 
2.43.0


From 37a0e082705af08839f699ec4d61d6cdef98075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:23 +0000
Subject: [PATCH 70/71] fix: ldmlmerge --git lost what the copy had not changed
 where nothing was committed since

---
 scripts/ldmlmerge | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scripts/ldmlmerge b/scripts/ldmlmerge
index ae1f010..2ea111f 100755
--- a/scripts/ldmlmerge
+++ b/scripts/ldmlmerge
@@ -74,10 +74,9 @@ if args.git :
         basefh = BytesIO(base_str)
         base = flattenlocale(basefh, dirs=args.dirs, rev='f', fname=locale)
         latestid = check_output(["git", "log", "-n", "1", '--pretty=format:%H', revid+"..", fpath]).decode("utf-8")
-        if latestid :
-            other_str = check_output(["git", "show", latestid+":"+fpath])
-            otherfh = BytesIO(other_str)
-            other = flattenlocale(otherfh, dirs=args.dirs, rev='f', fname=locale)
+        other_str = check_output(["git", "show", latestid+":"+fpath]) if latestid else base_str
+        otherfh = BytesIO(other_str)
+        other = flattenlocale(otherfh, dirs=args.dirs, rev='f', fname=locale)
 else :
     base = LdmlMerge(args.base)
     if args.other :
-- 
2.43.0


From 382ad4c8fecc0c5fc55420c442b3064edb1f47de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:23 +0000
Subject: [PATCH 71/71] fix: unflattening removes what is inherited from
 further up, too

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index b726851..0a3f2fc 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -471,7 +471,7 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
                 os = getscript(o)
                 if os is None or os == ls:
                     if rev == 'r':
-                        l.difference(o)
+                        l.difference(flattenlocale(f, dirs=dirs))   # with all that it inherits
                         break   # only need one for unflatten
                     else:
                         if f == 'root':
-- 
2.43.0

