From f618ef63bdaa2caa33d30a1c2b463a18e1c268f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 01/49] fix: CtsSinglePassageId length and depth ignore dots
 inside the subreference

---
 MyCapytain/common/reference/_capitains_cts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index 0353b07..c6cb954 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -103,11 +103,11 @@ class CtsSinglePassageId(str):
         yield from subref.split(".")
 
     def __len__(self) -> int:
-        return self.count(".") + 1
+        return self.depth
 
     @property
     def depth(self) -> int:
-        return self.count(".") + 1
+        return self.split("@")[0].count(".") + 1
 
 
 class CtsReference(BaseReference):
-- 
2.43.0


From 39324aec976305ab7de6e6dbd2befbc720f9f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:34 +0000
Subject: [PATCH 02/49] fix: Metadata.get and get_single fail on URI values
 when a language is asked

---
 MyCapytain/common/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 082e1c2..dfcd54e 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -87,7 +87,7 @@ class Metadata(Exportable):
         """
         if lang is not None:
             for o in self.graph.objects(self.asNode(), key):
-                if o.language == lang:
+                if getattr(o, "language", None) == lang:
                     yield o
         else:
             for o in self.graph.objects(self.asNode(), key):
@@ -107,7 +107,7 @@ class Metadata(Exportable):
             default = None
             for o in self.graph.objects(self.asNode(), key):
                 default = o
-                if o.language == lang:
+                if getattr(o, "language", None) == lang:
                     return o
             return default
         else:
-- 
2.43.0


From 62a657555e10744ecbb867fbe69dbcf7d7ec5e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:38 +0000
Subject: [PATCH 03/49] fix: Metadata export modifies the list of terms given
 as only

---
 MyCapytain/common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index dfcd54e..83888f0 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -166,7 +166,7 @@ class Metadata(Exportable):
         graph.namespace_manager = get_graph().namespace_manager
 
         if only is not None:
-            _only = only
+            _only = list(only)
             only = [str(s) for s in only]
             for predicate in set(self.graph.predicates(subject=self.asNode())):
                 if str(predicate) not in only:
-- 
2.43.0


From 661de170fceb592573fc2de2cc150ccce31117f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:41 +0000
Subject: [PATCH 04/49] fix: a reference set built from a single reference is
 made of the parts of that reference

---
 MyCapytain/common/reference/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index 674042a..7656c16 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -356,7 +356,7 @@ class BaseReferenceSet(tuple):
 
     """
     def __new__(cls, *refs, citation: BaseCitationSet=None, level: int=1):
-        if len(refs) == 1 and not isinstance(refs, BaseReference):
+        if len(refs) == 1 and not isinstance(refs[0], BaseReference):
             refs = refs[0]
         obj = tuple.__new__(cls, refs)
         obj._citation = None
-- 
2.43.0


From 9efc52f36ce9c49a381e5ae4740eb1cc2c39b3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:41 +0000
Subject: [PATCH 05/49] fix: DTS references and reference sets can be both
 equal and different, and cannot be hashed

---
 MyCapytain/common/reference/_dts_1.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/reference/_dts_1.py b/MyCapytain/common/reference/_dts_1.py
index 6074313..640b5f9 100644
--- a/MyCapytain/common/reference/_dts_1.py
+++ b/MyCapytain/common/reference/_dts_1.py
@@ -37,6 +37,11 @@ class DtsReference(BaseReference):
             isinstance(other, DtsReference) and \
             self.type == other.type
 
+    def __ne__(self, other):
+        return not self == other
+
+    __hash__ = BaseReference.__hash__
+
     def __repr__(self):
         return "<DtsReference <{}> [{}]>".format(
             "><".join([str(x) for x in self if x]),
@@ -51,10 +56,15 @@ class DtsReferenceSet(BaseReferenceSet):
 
     def __eq__(self, other):
         return super(DtsReferenceSet, self).__eq__(other) and \
-            self.level == other.level and \
             isinstance(other, DtsReferenceSet) and \
+            self.level == other.level and \
             self.citation == other.citation
 
+    def __ne__(self, other):
+        return not self == other
+
+    __hash__ = BaseReferenceSet.__hash__
+
 
 class DtsCitation(BaseCitation):
     def __init__(self, name=None, children=None, root=None):
-- 
2.43.0


From 927342863e60edfbfc9b94291364a95a58938833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 06/49] fix: the next or previous passage of a passage cannot
 reach its own siblings

---
 MyCapytain/resources/texts/local/capitains/cts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index ef01fc8..ba601e0 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -678,14 +678,14 @@ class CapitainsCtsPassage(_SharedMethods, PrototypeCtsPassage):
         """ Next CapitainsCtsPassage (Interactive CapitainsCtsPassage)
         """
         if self.nextId is not None:
-            return super(CapitainsCtsPassage, self).getTextualNode(subreference=self.nextId)
+            return self.getTextualNode(subreference=self.nextId)
 
     @property
     def prev(self):
         """ Previous CapitainsCtsPassage (Interactive CapitainsCtsPassage)
         """
         if self.prevId is not None:
-            return super(CapitainsCtsPassage, self).getTextualNode(subreference=self.prevId)
+            return self.getTextualNode(subreference=self.prevId)
 
     def getTextualNode(self, subreference=None, *args, **kwargs):
         if not isinstance(subreference, CtsReference):
-- 
2.43.0


From 12534221bf23e6db1f114ff572133ea9351376a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:57 +0000
Subject: [PATCH 07/49] fix: extracting a passage adds an attribute to the root
 of its document

---
 MyCapytain/common/utils/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 8b9d15d..92e65b8 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -171,7 +171,7 @@ def copyNode(node, children=False, parent=False):
     else:
         element = Element(
             node.tag,
-            attrib=node.attrib,
+            attrib=dict(node.attrib),
             nsmap={None: "http://www.tei-c.org/ns/1.0"}
         )
     if children:
-- 
2.43.0


From 1d5a83dfe118bb80a9bcd7af92b475e6d95c5723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:40 +0000
Subject: [PATCH 08/49] fix: select the elements of a passage by identity, not
 by value

Objectified elements without children compare equal when their text does,
so passages with repeated lines were duplicated or cut short.
---
 MyCapytain/common/utils/xml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 92e65b8..209b542 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -223,7 +223,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         # For each sibling, when we need them in the context of a range
         if preceding_siblings or following_siblings:
             for sibling in xmliter(parent):
-                if sibling == result_1:
+                if sibling is result_1:
                     central = True
                     # We copy the node we looked for (Result_1)
                     child = copyNode(result_1, children=has_no_queue, parent=new_tree)
@@ -264,7 +264,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         else:
             result_2 = result_1
 
-        if result_1 == result_2:
+        if result_1 is result_2:
             has_no_queue = len(queue_1) == 0
             child = copyNode(result_1, children=has_no_queue, parent=new_tree)
             if not has_no_queue:
@@ -283,13 +283,13 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
                 if start:
                     # If we are at the end
                     # We break the copy
-                    if sibling == result_2:
+                    if sibling is result_2:
                         break
                     else:
                         copyNode(sibling, parent=new_tree, children=True)
                 # If this is start
                 # Then we copy it and initiate star
-                elif sibling == result_1:
+                elif sibling is result_1:
                     start = True
                     has_no_queue_1 = len(queue_1) == 0
                     node = copyNode(sibling, children=has_no_queue_1, parent=new_tree)
-- 
2.43.0


From 67cce457d4f1ebfec898587e8228a7962166b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 09/49] fix: do not turn comments and instructions between
 passages into elements

In a range, a comment or a processing instruction between two passages was
copied as a <comment/> or <pi/> element.
---
 MyCapytain/common/utils/xml.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 209b542..15a48a4 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -67,14 +67,15 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
     return "<{}>".format(name)
 
 
-def xmliter(node):
+def xmliter(node, tag=None):
     """ Provides a simple XML Iter method which complies with either _Element or _ObjectifiedElement
 
     :param node: XML Node
+    :param tag: Kind of children to iterate over (eg. etree.Element to leave comments and instructions out)
     :return: Iterator for iterating over children of said node.
     """
     if hasattr(node, "iterchildren"):
-        return node.iterchildren()
+        return node.iterchildren(tag)
     else:
         return node
 
@@ -222,7 +223,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         has_no_queue = len(queue_1) == 0
         # For each sibling, when we need them in the context of a range
         if preceding_siblings or following_siblings:
-            for sibling in xmliter(parent):
+            for sibling in xmliter(parent, tag=etree.Element):
                 if sibling is result_1:
                     central = True
                     # We copy the node we looked for (Result_1)
@@ -277,7 +278,7 @@ def passageLoop(parent, new_tree, xpath1, xpath2=None, preceding_siblings=False,
         else:
             start = False
             # For each sibling
-            for sibling in xmliter(parent):
+            for sibling in xmliter(parent, tag=etree.Element):
                 # If we have found start
                 # We copy the node because we are between start and end
                 if start:
-- 
2.43.0


From bcdb98a0508da104a630e4d572d9068ea38357cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:48 +0000
Subject: [PATCH 10/49] fix: removing a member erases the statements of the
 collection it is removed from

---
 MyCapytain/resources/prototypes/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 7209e90..eefdffd 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -231,8 +231,8 @@ class Collection(Exportable):
         # Delete the graph Item
         self.graph.remove((item.asNode(), None, None))
         self.graph.remove((None, None, item.asNode()))
-        self.metadata.remove()
-        self.metadata.unlink()
+        item.metadata.remove()
+        item.metadata.unlink()
         # Delete the Python item
         if len(item.parents) > 0:
             del item.parents[0].children[item.id]
-- 
2.43.0


From 7bfa4d5e74e5f5fe912731c86e5619e06f9b51a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:38 +0000
Subject: [PATCH 11/49] fix: pagination past the last item gives an empty or
 negative slice, or no page number

---
 MyCapytain/resolvers/cts/local.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 0b22428..589d873 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -403,8 +403,8 @@ class CtsCapitainsLocalResolver(Resolver):
         :param length: Length of the list to paginate
         :return: (Start Index, End Index, Page Number, Item Count)
         """
-        realpage = page
         page = page or CtsCapitainsLocalResolver.DEFAULT_PAGE
+        realpage = page
         limit = limit or CtsCapitainsLocalResolver.PER_PAGE[1]
 
         if limit < CtsCapitainsLocalResolver.PER_PAGE[0] or limit > CtsCapitainsLocalResolver.PER_PAGE[2]:
@@ -412,8 +412,8 @@ class CtsCapitainsLocalResolver(Resolver):
 
         page = (page - 1) * limit
 
-        if page > length:
-            realpage = int(ceil(length / limit))
+        if page >= length:
+            realpage = max(1, int(ceil(length / limit)))
             page = limit * (realpage - 1)
             count = length - 1
         elif limit - 1 + page < length:
-- 
2.43.0


From 16914ed6a302655f2be430cb9e730b43088d8071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:38 +0000
Subject: [PATCH 12/49] fix: the edition of a work can be an edition of another
 work whose URN starts the same

---
 MyCapytain/resolvers/cts/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 589d873..36bd377 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -326,7 +326,7 @@ class CtsCapitainsLocalResolver(Resolver):
                 urn = [
                     t.id
                     for t in self.texts
-                    if t.id.startswith(str(urn)) and isinstance(t, CtsEditionMetadata)
+                    if t.urn.upTo(URN.WORK) == str(urn) and isinstance(t, CtsEditionMetadata)
                 ]
                 if len(urn) > 0:
                     urn = URN(urn[0])
-- 
2.43.0


From dd343d6c17803a53c44aaea459cc48e14050f7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:38 +0000
Subject: [PATCH 13/49] fix: filtering texts with a URN object never finds any

---
 MyCapytain/resolvers/cts/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 36bd377..6a9f238 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -381,7 +381,7 @@ class CtsCapitainsLocalResolver(Resolver):
             for text in self.texts
             if
             (lang is None or (lang is not None and lang == text.lang)) and
-            (urn is None or (urn is not None and text.urn.upTo(__PART) == urn)) and
+            (urn is None or (urn is not None and text.urn.upTo(__PART) == str(_urn))) and
             (text.citation is not None) and
             (
                 category not in ["edition", "translation", "commentary"] or
-- 
2.43.0


From 66e40250e72867129d3513aaaa5d80c37b5380b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:57 +0000
Subject: [PATCH 14/49] fix: XML export of a passage no longer carries the text
 that follows it

---
 MyCapytain/resources/texts/base/tei.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/base/tei.py b/MyCapytain/resources/texts/base/tei.py
index 96bdd68..1b133e8 100644
--- a/MyCapytain/resources/texts/base/tei.py
+++ b/MyCapytain/resources/texts/base/tei.py
@@ -101,7 +101,7 @@ class TeiResource(InteractiveTextualNode):
 
         elif output == Mimetypes.XML.Std or output == Mimetypes.XML.TEI:
             # Exports the whole resource formatted as XML but as string object
-            return tostring(self.resource, encoding=str)
+            return tostring(self.resource, encoding=str, with_tail=False)
 
         elif output == Mimetypes.PYTHON.NestedDict:
             # Exports the whole resource into a NestedDict
-- 
2.43.0


From 6a962017ff85b21ed56fc5430d77003e5ec9688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:47 +0000
Subject: [PATCH 15/49] fix: attribute values of XML nodes are escaped

---
 MyCapytain/common/utils/xml.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index 15a48a4..c78ce88 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -1,6 +1,6 @@
 from copy import copy
 from io import StringIO, IOBase
-from xml.sax.saxutils import escape
+from xml.sax.saxutils import escape, quoteattr
 
 from lxml.etree import SubElement
 import lxml.etree as etree
@@ -44,7 +44,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
                 name,
                 " ".join(
                     [
-                        "{}=\"{}\"".format(attr_name, attr_value)
+                        "{}={}".format(attr_name, quoteattr(str(attr_value)))
                         for attr_name, attr_value in attributes.items()
                     ]
                 ),
@@ -59,7 +59,7 @@ def make_xml_node(graph, name, close=False, attributes=None, text="", complete=F
             name,
             " ".join(
                 [
-                    "{}=\"{}\"".format(attr_name, attr_value)
+                    "{}={}".format(attr_name, quoteattr(str(attr_value)))
                     for attr_name, attr_value in attributes.items()
                 ]
             )
-- 
2.43.0


From a903e784b7d89ffaba9d6aa443c2d895537616e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 16/49] fix: XML catalogues without any CTS statement declare
 the namespace of their elements

---
 MyCapytain/resources/prototypes/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index eefdffd..7ee222f 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -286,7 +286,7 @@ class Collection(Exportable):
         """
         nm = self.graph.namespace_manager
         bindings = {}
-        for predicate in set(self.graph.predicates()):
+        for predicate in set(self.graph.predicates()) | {self.TYPE_URI}:
             prefix, namespace, name = nm.compute_qname(predicate)
             if prefix != "":
                 bindings["xmlns:" + prefix] = str(URIRef(namespace))#[:-1]
-- 
2.43.0


From eaaeb494ca81ab462a4149a23c955cdfbba7db6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:20 +0000
Subject: [PATCH 17/49] fix: structured metadata keep their datatype when
 written and read again

---
 MyCapytain/common/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/metadata.py b/MyCapytain/common/metadata.py
index 83888f0..75b395c 100644
--- a/MyCapytain/common/metadata.py
+++ b/MyCapytain/common/metadata.py
@@ -223,7 +223,7 @@ class Metadata(Exportable):
                 if hasattr(obj, "language") and obj.language is not None:
                     kwargs["xml:lang"] = obj.language
                 if hasattr(obj, "datatype") and obj.datatype is not None:
-                    kwargs["rdf:type"] = obj.datatype
+                    kwargs["rdf:datatype"] = obj.datatype
                 strings.append(make_xml_node(graph, pred, text=obj, attributes=kwargs, complete=True))
             del graph
             return "\n".join(strings)
-- 
2.43.0


From f51cfeba44782090ebf0268f8f2f376d0eb5c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:22 +0000
Subject: [PATCH 18/49] fix: the parent of a top level passage of a CTS server
 was the reference 'None'

---
 MyCapytain/resources/texts/remote/cts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 3abdd76..1433135 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -425,7 +425,8 @@ class CtsPassage(_SharedMethod, PrototypeCtsPassage, TeiResource):
         :rtype: CtsReference
         :returns: Following passage reference
         """
-        return str(self.urn.reference.parent)
+        parent = self.urn.reference.parent
+        return str(parent) if parent is not None else None
 
     @property
     def nextId(self):
-- 
2.43.0


From 0d32fa60e1c146ccf60bad19df5fa4c8d490b6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:59 +0000
Subject: [PATCH 19/49] fix: last passage below a passage of a CTS server
 without any was an IndexError

---
 MyCapytain/resources/texts/remote/cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 1433135..c6c30fc 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -267,7 +267,7 @@ class _SharedMethod(InteractiveTextualNode):
         """
         if self._last is False:
             # Request the next urn
-            self._last = self.childIds[-1]
+            self._last = self.childIds[-1] if len(self.childIds) > 0 else None
         return self._last
 
     @staticmethod
-- 
2.43.0


From 733ebde00e5792a66bd36abd404a17ee3e5387cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:27 +0000
Subject: [PATCH 20/49] fix: names given by a CTS server lost their language

---
 MyCapytain/resources/texts/remote/cts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index c6c30fc..3b02f93 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -159,22 +159,22 @@ class _SharedMethod(InteractiveTextualNode):
         :type xml: Union[lxml.etree._Element]
         """
         for node in xml.xpath(".//ti:groupname", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.groupname, lang=lang, value=node.text)
             self.set_creator(node.text, lang)
 
         for node in xml.xpath(".//ti:title", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.title, lang=lang, value=node.text)
             self.set_title(node.text, lang)
 
         for node in xml.xpath(".//ti:label", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.label, lang=lang, value=node.text)
             self.set_subject(node.text, lang)
 
         for node in xml.xpath(".//ti:description", namespaces=XPATH_NAMESPACES):
-            lang = node.get("xml:lang") or CtsText.DEFAULT_LANG
+            lang = node.get("{http://www.w3.org/XML/1998/namespace}lang") or CtsText.DEFAULT_LANG
             self.metadata.add(RDF_NAMESPACES.CTS.description, lang=lang, value=node.text)
             self.set_description(node.text, lang)
 
-- 
2.43.0


From f75c9481aecbe787f68103998998ce75dfc6d7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:12 +0000
Subject: [PATCH 21/49] fix: pagination links without a page, or whose first
 parameter is the page, were an error

---
 MyCapytain/common/utils/_http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_http.py b/MyCapytain/common/utils/_http.py
index 68d212f..5eae50f 100644
--- a/MyCapytain/common/utils/_http.py
+++ b/MyCapytain/common/utils/_http.py
@@ -16,7 +16,7 @@ def parse_pagination(headers):
     :rtype: _Navigation
     """
     links = {
-        link.rel: parse_qs(link.href).get("page", None)
+        link.rel: parse_qs(urlparse(link.href).query).get("page", [None])
         for link in link_header.parse(headers.get("Link", "")).links
     }
     return _Navigation(
-- 
2.43.0


From e1d6e9b7fa9bcef26eba8cbf833d9124d8da1c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:18 +0000
Subject: [PATCH 22/49] fix: DTS metadata whose value is a resource could not
 be read

---
 MyCapytain/common/utils/_json_ld.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index ffcdeb6..1fb4200 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -22,6 +22,8 @@ def literal_to_dict(value):
 def dict_to_literal(dict_container: dict):
     """ Transforms a JSON+LD PyLD dictionary into
     an RDFLib object"""
+    if "@id" in dict_container:
+        return URIRef(dict_container["@id"]),
     if isinstance(dict_container["@value"], int):
         return dict_container["@value"],
     else:
-- 
2.43.0


From 315d3eb6ddc63de9b93ce29e8a573d580e14a9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:18 +0000
Subject: [PATCH 23/49] fix: a DTS navigation answer without data raised an
 AttributeError instead of its error

---
 MyCapytain/resolvers/dts/api_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resolvers/dts/api_v1.py b/MyCapytain/resolvers/dts/api_v1.py
index 1defc8a..a12959d 100644
--- a/MyCapytain/resolvers/dts/api_v1.py
+++ b/MyCapytain/resolvers/dts/api_v1.py
@@ -113,7 +113,7 @@ class HttpDtsResolver(Resolver):
             data = expand(data)
             if not len(data):
                 raise PaginationBrowsingError(
-                    "The contacted endpoint seems to not have any data about collection %s " % self.id
+                    "The contacted endpoint seems to not have any data about collection %s " % textId
                 )
             data = data[0]
 
-- 
2.43.0


From 9ce27986f89a8d61f787a57d591e841cb42e818c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:18 +0000
Subject: [PATCH 24/49] fix: container and last passage of a DTS document were
 never read from its links

---
 MyCapytain/resources/texts/remote/dts/_resolver_v1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
index 19c466f..d6ad6da 100644
--- a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
+++ b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
@@ -96,11 +96,11 @@ class DtsResolverDocument(TeiResource):
             o._next_id = o._dict_to_ref(links.get("next"))
         if links.get("prev"):
             o._prev_id = o._dict_to_ref(links.get("prev"))
-        if links.get("parent"):
+        if links.get("up"):
             o._parent = o._dict_to_ref(links.get("up"))
         if links.get("first"):
             o._first_id = o._dict_to_ref(links.get("first"))
-        if links.get("parent"):
+        if links.get("last"):
             o._last_id = o._dict_to_ref(links.get("last"))
         if links.get("collection"):
             o._collection = o._dict_to_ref(links.get("collection"))
-- 
2.43.0


From c8fc4c3b6f4a16e812cb3906f9654855d3f0e80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:18 +0000
Subject: [PATCH 25/49] fix: the level was ignored when asking a DTS document
 for its references

---
 MyCapytain/resources/texts/remote/dts/_resolver_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
index d6ad6da..2a4a63c 100644
--- a/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
+++ b/MyCapytain/resources/texts/remote/dts/_resolver_v1.py
@@ -66,7 +66,7 @@ class DtsResolverDocument(TeiResource):
         return obj
 
     def getReffs(self, level: int=1, subreference: DtsReference=None):
-        return self.resolver.getReffs(textId=self.id, subreference=(subreference or self.reference))
+        return self.resolver.getReffs(textId=self.id, level=level, subreference=(subreference or self.reference))
 
     def _dict_to_ref(self, header_dic):
         ref = header_dic.get("ref", [None])[0]
-- 
2.43.0


From 22a80e13101b09c3a884a85c90cf3124770f221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:28 +0000
Subject: [PATCH 26/49] fix: members of a DTS collection were incomplete once
 its parents were known

---
 MyCapytain/resources/collections/dts/_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index cb07add..0693e3a 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -89,7 +89,7 @@ class HttpResolverDtsCollection(DtsCollection):
             self,
             "_children",
             update_lambda=lambda: self._parse_paginated_members(direction="children"),
-            condition_lambda=lambda: self._parsed["parents"]
+            condition_lambda=lambda: self._parsed["children"]
         )
         self._parents = PaginatedProxy(
             self,
-- 
2.43.0


From c31bf202a80d5e94126f33b76a3f098af3be6456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:33 +0000
Subject: [PATCH 27/49] fix: the collection a DTS member was reached from was
 twice among its parents

---
 MyCapytain/resources/collections/dts/_resolver.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index 0693e3a..2d3533b 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -134,12 +134,13 @@ class HttpResolverDtsCollection(DtsCollection):
                     )
                 })
             else:
-                self.parents.update({
-                    o
-                    for o in type(self).parse_member(
-                        obj=data, collection=self, direction=direction, resolver=self._resolver
-                    )
-                })
+                members = type(self).parse_member(
+                    obj=data, collection=self, direction=direction, resolver=self._resolver
+                )
+                parents = self.parents
+                # The collection this one was reached from is already one of its parents
+                known = {o.id for o in getattr(parents, "_proxied", parents)}
+                parents.update({o for o in members if o.id not in known})
             self._last_page_parsed[direction] = page
 
             page = None
-- 
2.43.0


From d147b2c0914e9fcaf3fac4365f8e3eb26fd0d3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:33 +0000
Subject: [PATCH 28/49] fix: DTS collections whose members are parents could
 not be parsed

---
 MyCapytain/resources/collections/dts/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/dts/_base.py b/MyCapytain/resources/collections/dts/_base.py
index 91af7fe..e4ab733 100644
--- a/MyCapytain/resources/collections/dts/_base.py
+++ b/MyCapytain/resources/collections/dts/_base.py
@@ -111,7 +111,7 @@ class DtsCollection(Collection):
                 for coll in members
             })
         else:
-            self.parents.add(members)
+            self.parents.update(members)
 
     def _parse_metadata(self, data: dict):
 
-- 
2.43.0


From 9df4ea9f2385cbab93182f65b07b2780e5435fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:56 +0000
Subject: [PATCH 29/49] fix: export collections in JSON-LD and RDF/XML
 (namespace managers are not dictionaries)

---
 MyCapytain/resources/prototypes/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 7ee222f..483bda4 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -349,7 +349,7 @@ class Collection(Exportable):
                 nsm["dct"] = DCTERMS
 
             else:
-                nsm = namespace_manager.namespaces()
+                nsm = dict(namespace_manager.namespaces())
 
             # Set-up a derived graph
             store = Subgraph(nsm)
@@ -432,7 +432,7 @@ class Collection(Exportable):
                 or output == Mimetypes.XML.RDF:
 
             # We create a temp graph
-            store = Subgraph(get_graph().namespace_manager)
+            store = Subgraph(dict(get_graph().namespace_manager.namespaces()))
             store.graphiter(self.graph, self.asNode(), ascendants=1, descendants=-1)
 
             o = store.serialize(format=RDFLIB_MAPPING[output], auto_compact=True, indent="")
-- 
2.43.0


From 836cc90712160d20dda14ed9966f5aca3a932dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:56 +0000
Subject: [PATCH 30/49] fix: expand_namespace replaces the leading prefix only

---
 MyCapytain/common/utils/_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_graph.py b/MyCapytain/common/utils/_graph.py
index fe043b0..61b995e 100644
--- a/MyCapytain/common/utils/_graph.py
+++ b/MyCapytain/common/utils/_graph.py
@@ -78,5 +78,5 @@ def expand_namespace(nsmap, string):
     """
     for ns in nsmap:
         if isinstance(string, str) and isinstance(ns, str) and string.startswith(ns+":"):
-            return string.replace(ns+":", nsmap[ns])
+            return nsmap[ns] + string[len(ns)+1:]
     return string
\ No newline at end of file
-- 
2.43.0


From 61dfcaf131bdec74a7bdd73dacbc68d21cb60ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:56 +0000
Subject: [PATCH 31/49] fix: declare the prefixes of the types written in the
 DTS JSON export of collections

---
 MyCapytain/resources/prototypes/metadata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 483bda4..70159af 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -366,6 +366,12 @@ class Collection(Exportable):
                 if prefix not in bindings and str(namespace) not in ignore_ns_for_bindings:
                     bindings[prefix] = str(URIRef(namespace))
 
+            # Types of the collection and of its members are written with prefixes as well
+            for collection in [self] + self.members:
+                prefix, namespace, name = nsm.compute_qname(collection.type)
+                if prefix not in bindings and str(namespace) != _ns_hydra_str:
+                    bindings[prefix] = str(URIRef(namespace))
+
             # Builds the specific Store data
             extensions = {}
             dublincore = {}
-- 
2.43.0


From 371bd593d2a00f43d085e95ebd9c36e486fe289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:56 +0000
Subject: [PATCH 32/49] fix: DTS JSON export of a collection of inventories
 without inventory

---
 MyCapytain/resources/prototypes/cts/inventory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index d8003e4..2959899 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -742,7 +742,7 @@ class CtsTextInventoryCollection(PrototypeCtsCollection):
                 output=Mimetypes.XML.CTS
             )
         elif output == Mimetypes.JSON.DTS.Std:
-            if len(self.members) > 1:
+            if len(self.members) != 1:
                 return Collection.__export__(self, output=output)
             else:
                 return self.members[0].export(output=output)
-- 
2.43.0


From b0f4b11dd37e035eb8801abbf7903d3cb83555ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:56 +0000
Subject: [PATCH 33/49] fix: get_cts_property of a property without value is
 None and not an error

---
 MyCapytain/resources/prototypes/cts/inventory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 2959899..6aaf639 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -80,7 +80,7 @@ class PrototypeCtsCollection(Collection):
         if lang is not None:
             if lang in x:
                 return x[lang]
-            return next(iter(x.values()))
+            return next(iter(x.values()), None)
         return x
 
     def set_cts_property(self, prop, value, lang=None):
-- 
2.43.0


From 31342bb619115ebb328c7f624f36e387f755aadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:56 +0000
Subject: [PATCH 34/49] fix: creator and title of CTS texts are the labels of
 their text group and work

---
 MyCapytain/resources/prototypes/cts/inventory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resources/prototypes/cts/inventory.py b/MyCapytain/resources/prototypes/cts/inventory.py
index 6aaf639..47e6a1c 100644
--- a/MyCapytain/resources/prototypes/cts/inventory.py
+++ b/MyCapytain/resources/prototypes/cts/inventory.py
@@ -346,7 +346,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
         :return: Creator string representation
         :rtype: Literal
         """
-        return self.parent.parent.metadata.get_label(lang=lang)
+        return self.parent.parent.get_label(lang=lang)
 
     def get_title(self, lang=None):
         """ Get the DC Title of the object
@@ -355,7 +355,7 @@ class CtsTextMetadata(ResourceCollection, PrototypeCtsCollection):
         :return: Title string representation
         :rtype: Literal
         """
-        return self.parent.metadata.get_label(lang=lang)
+        return self.parent.get_label(lang=lang)
 
     def get_description(self, lang=None):
         """ Get the DC description of the object
-- 
2.43.0


From 89504be60902123d9af378b98fa203ff89e84ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:23 +0000
Subject: [PATCH 35/49] fix: subgraphs tell literals from resources written
 alike

---
 MyCapytain/common/utils/_graph.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/MyCapytain/common/utils/_graph.py b/MyCapytain/common/utils/_graph.py
index 61b995e..ef120e4 100644
--- a/MyCapytain/common/utils/_graph.py
+++ b/MyCapytain/common/utils/_graph.py
@@ -38,28 +38,26 @@ class Subgraph(object):
         if desc != 0:
             desc -= 1
 
-        t = str(target)
-
-        if descendants != 0 and self.downwards[t] is True:
-            self.downwards[t] = False
+        if descendants != 0 and self.downwards[target] is True:
+            self.downwards[target] = False
             for pred, obj in graph.predicate_objects(target):
                 if desc == 0 and isinstance(obj, BNode):
                     continue
                 self.add((target, pred, obj))
 
                 # Retrieve triples about the object
-                if desc != 0 and self.downwards[str(obj)] is True:
+                if desc != 0 and self.downwards[obj] is True:
                     self.graphiter(graph, target=obj, ascendants=0, descendants=desc)
 
-        if ascendants != 0 and self.updwards[t] is True:
-            self.updwards[t] = False
+        if ascendants != 0 and self.updwards[target] is True:
+            self.updwards[target] = False
             for s, p in graph.subject_predicates(object=target):
                 if desc == 0 and isinstance(s, BNode):
                     continue
                 self.add((s, p, target))
 
                 # Retrieve triples about the parent as object
-                if asc != 0 and self.updwards[str(s)] is True:
+                if asc != 0 and self.updwards[s] is True:
                     self.graphiter(graph, target=s, ascendants=asc, descendants=0)
 
     def serialize(self, *args, **kwargs):
-- 
2.43.0


From 058cbb89e3b22c2e63d537a6bc52b4df3b224cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:23 +0000
Subject: [PATCH 36/49] fix: DTS JSON export of texts whose citation has a
 single level names that level

---
 MyCapytain/resources/prototypes/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/resources/prototypes/metadata.py b/MyCapytain/resources/prototypes/metadata.py
index 70159af..00b949a 100644
--- a/MyCapytain/resources/prototypes/metadata.py
+++ b/MyCapytain/resources/prototypes/metadata.py
@@ -13,6 +13,7 @@ from MyCapytain.common.utils import literal_to_dict, Subgraph
 from MyCapytain.common.constants import RDF_NAMESPACES, RDFLIB_MAPPING, Mimetypes, get_graph
 from MyCapytain.common.base import Exportable
 from MyCapytain.common.reference import BaseCitationSet
+from MyCapytain.common.reference._base import BaseCitation
 from rdflib import URIRef, RDF, Literal, Graph, RDFS
 from rdflib.namespace import SKOS, DC, DCTERMS
 from typing import List
@@ -425,7 +426,8 @@ class Collection(Exportable):
                 if self.citation.depth:
                     o[graph.qname(RDF_NAMESPACES.DTS.term("citeDepth"))] = self.citation.depth
 
-                if not self.citation.is_empty():
+                if not self.citation.is_empty() or \
+                        (isinstance(self.citation, BaseCitation) and self.citation.is_set()):
                     o[graph.qname(RDF_NAMESPACES.DTS.term("citeStructure"))] = self.citation.export(
                         Mimetypes.JSON.DTS.Std,
                         context=False,
-- 
2.43.0


From e2624a91c0b69a9636cd636db56c321d3f167719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:24 +0000
Subject: [PATCH 37/49] fix: values of literals that JSON cannot represent are
 written as text

---
 MyCapytain/common/utils/_json_ld.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_json_ld.py b/MyCapytain/common/utils/_json_ld.py
index 1fb4200..0011cb0 100644
--- a/MyCapytain/common/utils/_json_ld.py
+++ b/MyCapytain/common/utils/_json_ld.py
@@ -11,7 +11,10 @@ def literal_to_dict(value):
     if isinstance(value, Literal):
         if value.language is not None:
             return {"@value": str(value), "@language": value.language}
-        return value.toPython()
+        python_value = value.toPython()
+        if isinstance(python_value, (str, bool, int, float)):
+            return python_value
+        return str(value)
     elif isinstance(value, URIRef):
         return {"@id": str(value)}
     elif value is None:
-- 
2.43.0


From 3c11b573dfb905a9011f6698ea58e3b753d40819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:59 +0000
Subject: [PATCH 38/49] fix: skip catalogue files that cannot be parsed when
 asked not to raise

With RAISE_ON_GENERIC_PARSING_ERROR set to False, a catalogue file that
cannot be parsed made CtsCapitainsLocalResolver.parse fail with a TypeError
as the wrappers return None.
---
 MyCapytain/resolvers/cts/local.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index 6a9f238..d10647c 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -286,15 +286,20 @@ class CtsCapitainsLocalResolver(Resolver):
         for folder in resource:
             cts_files = glob("{base_folder}/data/*/__cts__.xml".format(base_folder=folder))
             for cts_file in cts_files:
-                textgroup, cts_file = self._parse_textgroup_wrapper(cts_file)
-                textgroups.append((textgroup, cts_file))
+                parsed = self._parse_textgroup_wrapper(cts_file)
+                # Nothing is returned for a file that could not be parsed
+                if parsed is not None:
+                    textgroups.append(parsed)
 
         for textgroup, cts_textgroup_file in textgroups:
             cts_work_files = glob("{parent}/*/__cts__.xml".format(parent=os.path.dirname(cts_textgroup_file)))
 
             for cts_work_file in cts_work_files:
-                _, parsed_texts, directory = self._parse_work_wrapper(cts_work_file, textgroup)
-                texts.extend([(text, directory) for text in parsed_texts])
+                parsed = self._parse_work_wrapper(cts_work_file, textgroup)
+                # Nothing is returned for a file that could not be parsed
+                if parsed is not None:
+                    _, parsed_texts, directory = parsed
+                    texts.extend([(text, directory) for text in parsed_texts])
 
         for text, directory in texts:
             # If text_id is not none, the text parsing errored
-- 
2.43.0


From 17033f4b776e7ead784e6681e1c6a61123cd498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:59 +0000
Subject: [PATCH 39/49] fix: send a tuple given as reference to a DTS endpoint
 as a range

The documentation of get_navigation and get_document says that a tuple is
treated as a range; only instances of BaseReference were.
---
 MyCapytain/retrievers/dts/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MyCapytain/retrievers/dts/__init__.py b/MyCapytain/retrievers/dts/__init__.py
index cf833bf..1b701b3 100644
--- a/MyCapytain/retrievers/dts/__init__.py
+++ b/MyCapytain/retrievers/dts/__init__.py
@@ -25,6 +25,8 @@ def _parse_ref_parameters(parameters, ref):
             parameters["start"], parameters["end"] = ref
         else:
             parameters["ref"] = ref.start
+    elif isinstance(ref, tuple):
+        parameters["start"], parameters["end"] = ref
     elif ref:
         parameters["ref"] = ref
 
-- 
2.43.0


From 656ffa8cf95c87deda720e8a80cc8f517be12323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:25 +0000
Subject: [PATCH 40/49] fix: ask a CTS server for passages of the text and not
 of the passage at hand

A passage read from a server asked for getTextualNode, getPassagePlus and
getValidReff by adding the reference to its own URN, which has one already
(urn:cts:ns:tg.wk.vs:1:1.1). A plain text given to getTextualNode was right.
---
 MyCapytain/resources/texts/remote/cts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resources/texts/remote/cts.py b/MyCapytain/resources/texts/remote/cts.py
index 3b02f93..1ad7e48 100644
--- a/MyCapytain/resources/texts/remote/cts.py
+++ b/MyCapytain/resources/texts/remote/cts.py
@@ -71,7 +71,7 @@ class _SharedMethod(InteractiveTextualNode):
         :returns: List of levels
         """
         if reference:
-            urn = "{0}:{1}".format(self.urn, reference)
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), reference)
         else:
             urn = str(self.urn)
 
@@ -100,14 +100,14 @@ class _SharedMethod(InteractiveTextualNode):
         if isinstance(subreference, URN):
             urn = str(subreference)
         elif isinstance(subreference, CtsReference):
-            urn = "{0}:{1}".format(self.urn, str(subreference))
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), str(subreference))
         elif isinstance(subreference, str):
             if ":" in subreference:
                 urn = subreference
             else:
                 urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), subreference)
         elif isinstance(subreference, list):
-            urn = "{0}:{1}".format(self.urn, ".".join(subreference))
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), ".".join(subreference))
         else:
             urn = str(self.urn)
 
@@ -141,7 +141,7 @@ class _SharedMethod(InteractiveTextualNode):
         :raises: *TypeError* when reference is not a list or a Reference
         """
         if reference:
-            urn = "{0}:{1}".format(self.urn, reference)
+            urn = "{0}:{1}".format(self.urn.upTo(URN.NO_PASSAGE), reference)
         else:
             urn = str(self.urn)
 
-- 
2.43.0


From d17b820ba356d99dc01ff1c44086899a93247e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:26 +0000
Subject: [PATCH 41/49] fix: read the number of the next DTS page from its own
 parameter

In a link such as ...?per_page=20&page=2 the number read was 20.
---
 MyCapytain/resolvers/dts/api_v1.py                | 2 +-
 MyCapytain/resources/collections/dts/_resolver.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/resolvers/dts/api_v1.py b/MyCapytain/resolvers/dts/api_v1.py
index a12959d..b6b12c2 100644
--- a/MyCapytain/resolvers/dts/api_v1.py
+++ b/MyCapytain/resolvers/dts/api_v1.py
@@ -26,7 +26,7 @@ __all__ = [
 ]
 
 _empty = [{"@value": None}]
-_re_page = re.compile("page=(\d+)")
+_re_page = re.compile(r"[?&]page=(\d+)")
 
 
 def _parse_ref(ref_dict, default_type: str=None):
diff --git a/MyCapytain/resources/collections/dts/_resolver.py b/MyCapytain/resources/collections/dts/_resolver.py
index 2d3533b..6a6aded 100644
--- a/MyCapytain/resources/collections/dts/_resolver.py
+++ b/MyCapytain/resources/collections/dts/_resolver.py
@@ -9,7 +9,7 @@ from ._base import DtsCollection
 
 _hyd = RDF_NAMESPACES.HYDRA
 _empty = [{"@value": None}]
-_re_page = re.compile("page=(\d+)")
+_re_page = re.compile(r"[?&]page=(\d+)")
 
 
 class PaginatedProxy:
-- 
2.43.0


From bfc3e054b65266aa08fda5c733d870b5a4d1f269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:00 +0000
Subject: [PATCH 42/49] fix: keep the texts of structured metadata as they are
 written

---
 MyCapytain/resources/collections/cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index 0b19ef7..9973ff7 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -111,7 +111,7 @@ def _parse_structured_metadata(obj, xml):
         if "{" in tag:
             ns, tag = tuple(tag.split("}"))
             tag = URIRef(ns[1:]+tag)
-            s_m = str(metadata)
+            s_m = metadata.text or ""
             if s_m.startswith("urn:") or s_m.startswith("http:") or s_m.startswith("https:") or s_m.startswith("hdl:"):
                 obj.metadata.add(
                     tag,
-- 
2.43.0


From bd2446464f01dae629e33da24893318c994b33d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:08 +0000
Subject: [PATCH 43/49] fix: give every citation level the top of its scheme as
 root

---
 MyCapytain/common/reference/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MyCapytain/common/reference/_base.py b/MyCapytain/common/reference/_base.py
index 7656c16..e0d3863 100644
--- a/MyCapytain/common/reference/_base.py
+++ b/MyCapytain/common/reference/_base.py
@@ -231,6 +231,8 @@ class BaseCitation(BaseCitationSet):
         """
         if self._root is None:
             return self
+        elif isinstance(self._root, BaseCitation):
+            return self._root.root
         return self._root
 
     @root.setter
-- 
2.43.0


From 5277bbe5c6e5d43c8989bdcf64ebd9da99e76662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:25 +0000
Subject: [PATCH 44/49] fix: read the files of the local resolver in the
 encoding they declare

---
 MyCapytain/resolvers/cts/local.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MyCapytain/resolvers/cts/local.py b/MyCapytain/resolvers/cts/local.py
index d10647c..676cac4 100644
--- a/MyCapytain/resolvers/cts/local.py
+++ b/MyCapytain/resolvers/cts/local.py
@@ -118,7 +118,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :return: Parsed Text
         :rtype: CapitainsCtsText
         """
-        with open(path) as f:
+        with open(path, "rb") as f:
             o = self.classes["text"](urn=identifier, resource=self.xmlparse(f))
         return o
 
@@ -143,7 +143,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :type cts_file: str
         :return: CtsTextgroupMetadata and Current file
         """
-        with io.open(cts_file) as __xml__:
+        with io.open(cts_file, "rb") as __xml__:
             return self.classes["textgroup"].parse(
                 resource=__xml__
             ), cts_file
@@ -173,7 +173,7 @@ class CtsCapitainsLocalResolver(Resolver):
         :type textgroup: CtsTextgroupMetadata
         :return: Parsed Work and the Texts, as well as the current file directory
         """
-        with io.open(cts_file) as __xml__:
+        with io.open(cts_file, "rb") as __xml__:
             work, texts = self.classes["work"].parse(
                 resource=__xml__,
                 parent=textgroup,
@@ -343,7 +343,7 @@ class CtsCapitainsLocalResolver(Resolver):
         text = self.inventory[str(urn)]
 
         if os.path.isfile(text.path):
-            with io.open(text.path) as __xml__:
+            with io.open(text.path, "rb") as __xml__:
                 resource = self.classes["text"](urn=urn, resource=self.xmlparse(__xml__))
         else:
             resource = None
-- 
2.43.0


From 67b765419f72ad6181ca7271fea71afda8c9fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:25 +0000
Subject: [PATCH 45/49] fix: accept decoded XML whose declaration names an
 encoding

---
 MyCapytain/common/utils/xml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/xml.py b/MyCapytain/common/utils/xml.py
index c78ce88..9b801d5 100644
--- a/MyCapytain/common/utils/xml.py
+++ b/MyCapytain/common/utils/xml.py
@@ -1,3 +1,4 @@
+import re
 from copy import copy
 from io import StringIO, IOBase
 from xml.sax.saxutils import escape, quoteattr
@@ -22,6 +23,7 @@ __all__ = [
 
 
 _parser = etree.XMLParser(collect_ids=False, resolve_entities=False)
+_declared_encoding = re.compile(r"^(<\?xml\s[^>]*?)\bencoding\s*=\s*(\"[^\"]*\"|'[^']*')")
 
 
 def make_xml_node(graph, name, close=False, attributes=None, text="", complete=False, innerXML=""):
@@ -94,7 +96,8 @@ def xmlparser(xml, objectify=True):
     if isinstance(xml, (etree._Element, ObjectifiedElement, etree._ElementTree)):
         return xml
     elif isinstance(xml, text_type):
-        xml = StringIO(xml)
+        # The text is decoded already, whatever encoding its declaration names
+        xml = StringIO(_declared_encoding.sub(r"\1", xml))
         doclose = True
     elif not isinstance(xml, IOBase):
         raise TypeError("Unsupported type of resource {}".format(type(xml)))
-- 
2.43.0


From aa892ab336b358676b81075c385a0317152d450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:24 +0000
Subject: [PATCH 46/49] fix: give passages to a text whose URN has no version

---
 MyCapytain/resources/texts/local/capitains/cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/texts/local/capitains/cts.py b/MyCapytain/resources/texts/local/capitains/cts.py
index ba601e0..089e01a 100644
--- a/MyCapytain/resources/texts/local/capitains/cts.py
+++ b/MyCapytain/resources/texts/local/capitains/cts.py
@@ -40,7 +40,7 @@ def _make_passage_kwargs(urn, reference):
     kwargs = {}
     if urn is not None:
         if reference is not None:
-            kwargs["urn"] = URN("{}:{}".format(urn.upTo(URN.VERSION), reference))
+            kwargs["urn"] = URN("{}:{}".format(urn.upTo(URN.NO_PASSAGE), reference))
         else:
             kwargs["urn"] = urn
     return kwargs
-- 
2.43.0


From 7fa8066424e2e27fc9b71b49dc422150941f7a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:01 +0000
Subject: [PATCH 47/49] fix: keep the server of DTS routes announced as
 absolute URIs

---
 MyCapytain/common/utils/_http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/common/utils/_http.py b/MyCapytain/common/utils/_http.py
index 5eae50f..92807f9 100644
--- a/MyCapytain/common/utils/_http.py
+++ b/MyCapytain/common/utils/_http.py
@@ -40,6 +40,6 @@ def parse_uri(uri, endpoint_uri):
     """
     temp_parse = urlparse(uri)
     return _Route(
-        urljoin(endpoint_uri, temp_parse.path),
+        urljoin(endpoint_uri, temp_parse._replace(query="", fragment="").geturl()),
         parse_qs(temp_parse.query)
     )
-- 
2.43.0


From cbaa63ba2340605470cda723fa186ce69bbca835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:47 +0000
Subject: [PATCH 48/49] fix: escape labels and patterns in the TEI export of
 citations

---
 MyCapytain/common/reference/_capitains_cts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MyCapytain/common/reference/_capitains_cts.py b/MyCapytain/common/reference/_capitains_cts.py
index c6cb954..55fc74f 100644
--- a/MyCapytain/common/reference/_capitains_cts.py
+++ b/MyCapytain/common/reference/_capitains_cts.py
@@ -1,6 +1,7 @@
 import re
 from typing import Optional, List, Union, Tuple
 from lxml.etree import _Element
+from xml.sax.saxutils import escape
 
 from MyCapytain.common.constants import Mimetypes, get_graph, RDF_NAMESPACES, XPATH_NAMESPACES
 from MyCapytain.common.utils.xml import make_xml_node
@@ -910,8 +911,8 @@ class Citation(BaseCitation):
             return \
                 "<tei:cRefPattern n=\"{label}\" matchPattern=\"{regexp}\" replacementPattern=\"#xpath({refsDecl})\">" \
                 "<tei:p>This pointer pattern extracts {label}</tei:p></tei:cRefPattern>".format(
-                    refsDecl=self.refsDecl,
-                    label=label,
+                    refsDecl=escape(self.refsDecl),
+                    label=escape(label, {'"': "&quot;"}),
                     regexp="\.".join(["(\w+)"]*self.refsDecl.count("$"))
                 )
 
-- 
2.43.0


From 2e974897d0461105acf8de9f4d0a77063691ff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:40 +0000
Subject: [PATCH 49/49] fix: keep identifiers in the structured metadata of
 plain XML elements

---
 MyCapytain/resources/collections/cts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MyCapytain/resources/collections/cts.py b/MyCapytain/resources/collections/cts.py
index 9973ff7..f26e66c 100644
--- a/MyCapytain/resources/collections/cts.py
+++ b/MyCapytain/resources/collections/cts.py
@@ -115,7 +115,7 @@ def _parse_structured_metadata(obj, xml):
             if s_m.startswith("urn:") or s_m.startswith("http:") or s_m.startswith("https:") or s_m.startswith("hdl:"):
                 obj.metadata.add(
                     tag,
-                    URIRef(str(metadata))
+                    URIRef(s_m)
                 )
             elif '{http://www.w3.org/XML/1998/namespace}lang' in metadata.attrib:
                 obj.metadata.add(
-- 
2.43.0

