From 26f98aac5a97b941ba157e190801328f94151c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:02 +0000
Subject: [PATCH 01/59] fix: only None is a wildcard in match patterns, not the
 empty IRI

---
 src/pymantic/primitives.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 27ca35c..9b256a6 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -416,9 +416,9 @@ class Graph:
         This method implements AND functionality, so only triples matching all
         of the given non-null arguments will be included in the result.
         """
-        if subject:
-            if predicate:  # s, p, ???
-                if object:  # s, p, o
+        if subject is not None:
+            if predicate is not None:  # s, p, ???
+                if object is not None:  # s, p, o
                     if Triple(subject, predicate, object) in self:
                         yield Triple(subject, predicate, object)
                 else:  # s, p, ?var
@@ -426,7 +426,7 @@ class Graph:
                         for triple in self._spo[subject][predicate].values():
                             yield triple
             else:  # s, ?var, ???
-                if object:  # s, ?var, o
+                if object is not None:  # s, ?var, o
                     if object in self._osp and subject in self._osp[object]:
                         for triple in self._osp[object][subject].values():
                             yield triple
@@ -435,8 +435,8 @@ class Graph:
                         for predicate in self._spo[subject]:
                             for triple in self._spo[subject][predicate].values():
                                 yield triple
-        elif predicate:  # ?var, p, ???
-            if object:  # ?var, p, o
+        elif predicate is not None:  # ?var, p, ???
+            if object is not None:  # ?var, p, o
                 if predicate in self._pos and object in self._pos[predicate]:
                     for triple in self._pos[predicate][object].values():
                         yield triple
@@ -445,7 +445,7 @@ class Graph:
                     for object in self._pos[predicate]:
                         for triple in self._pos[predicate][object].values():
                             yield triple
-        elif object:  # ?var, ?var, o
+        elif object is not None:  # ?var, ?var, o
             if object in self._osp:
                 for subject in self._osp[object]:
                     for triple in self._osp[object][subject].values():
@@ -531,7 +531,7 @@ class Dataset:
         return self._graphs.values()
 
     def match(self, subject=None, predicate=None, object=None, graph=None):
-        if graph:
+        if graph is not None:
             matches = self._graphs[graph].match(subject, predicate, object)
             for match in matches:
                 yield t_as_q(graph, match)
-- 
2.43.0


From 54f83a41da9473a1913accb15801816676dba6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:02 +0000
Subject: [PATCH 02/59] fix: terms no longer used are dropped from subjects(),
 predicates(), objects()

---
 src/pymantic/primitives.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 9b256a6..4c5b021 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -393,11 +393,21 @@ class Graph:
         """Removes the specified Triple from the graph. This method returns the
         graph instance it was called on."""
         self._triples.remove(triple)
-        del self._spo[triple.subject][triple.predicate][triple.object]
-        del self._pos[triple.predicate][triple.object][triple.subject]
-        del self._osp[triple.object][triple.subject][triple.predicate]
+        self._unindex(self._spo, triple.subject, triple.predicate, triple.object)
+        self._unindex(self._pos, triple.predicate, triple.object, triple.subject)
+        self._unindex(self._osp, triple.object, triple.subject, triple.predicate)
         return self
 
+    @staticmethod
+    def _unindex(index, a, b, c):
+        # Drop emptied levels too, so that they don't linger in subjects(),
+        # predicates() and objects().
+        del index[a][b][c]
+        if not index[a][b]:
+            del index[a][b]
+        if not index[a]:
+            del index[a]
+
     def match(self, subject=None, predicate=None, object=None):
         """This method returns a new sequence of triples which is comprised of
         all those triples in the current instance which match the given
-- 
2.43.0


From fa99b209fc40a18c86d369f551b82d0c95526be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:02 +0000
Subject: [PATCH 03/59] fix: removeMatches no longer mutates the index it is
 iterating over

---
 src/pymantic/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 4c5b021..69bad5e 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -467,7 +467,7 @@ class Graph:
     def removeMatches(self, subject, predicate, object):
         """This method removes those triples in the current graph which match
         the given arguments."""
-        for triple in self.match(subject, predicate, object):
+        for triple in list(self.match(subject, predicate, object)):
             self.remove(triple)
         return self
 
@@ -553,7 +553,7 @@ class Dataset:
     def removeMatches(self, subject=None, predicate=None, object=None, graph=None):
         """This method removes those triples in the current graph which match
         the given arguments."""
-        for quad in self.match(subject, predicate, object, graph):
+        for quad in list(self.match(subject, predicate, object, graph)):
             self.remove(quad)
         return self
 
-- 
2.43.0


From 3174d553cba8ba1c8f500dcd38a464be4dd79e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:02 +0000
Subject: [PATCH 04/59] fix: a graph that was given no name has no name, rather
 than "None"

---
 src/pymantic/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 69bad5e..7415233 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -362,7 +362,7 @@ class Graph:
     set/sequence API for `in`, `for`, and `len`"""
 
     def __init__(self, graph_uri=None):
-        if not isinstance(graph_uri, NamedNode):
+        if graph_uri is not None and not isinstance(graph_uri, NamedNode):
             graph_uri = NamedNode(graph_uri)
         self._uri = graph_uri
         self._triples = set()
-- 
2.43.0


From bc4310452f7bd59d528b2b34b8a41f67cb4164f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:02 +0000
Subject: [PATCH 05/59] fix: querying a dataset for an unknown graph no longer
 creates that graph

---
 src/pymantic/primitives.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 7415233..23aa6c9 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -523,6 +523,8 @@ class Dataset:
         self._graphs[quad.graph].add(q_as_t(quad))
 
     def remove(self, quad):
+        if quad.graph not in self._graphs:
+            raise KeyError(quad)
         self._graphs[quad.graph].remove(q_as_t(quad))
 
     def add_graph(self, graph, named=None):
@@ -542,9 +544,9 @@ class Dataset:
 
     def match(self, subject=None, predicate=None, object=None, graph=None):
         if graph is not None:
-            matches = self._graphs[graph].match(subject, predicate, object)
-            for match in matches:
-                yield t_as_q(graph, match)
+            if graph in self._graphs:
+                for match in self._graphs[graph].match(subject, predicate, object):
+                    yield t_as_q(graph, match)
         else:
             for graph_uri, graph in self._graphs.items():
                 for match in graph.match(subject, predicate, object):
-- 
2.43.0


From f31213222ddc8ead2218264d7cfbc36e5ae9d8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:02 +0000
Subject: [PATCH 06/59] fix: Dataset.remove_graph removes the graph instead of
 doing nothing

---
 src/pymantic/primitives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 23aa6c9..4d5b14d 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -536,7 +536,9 @@ class Dataset:
             raise ValueError("Graph must be named")
 
     def remove_graph(self, graph_or_uri):
-        pass
+        if isinstance(graph_or_uri, Graph):
+            graph_or_uri = graph_or_uri.uri
+        del self._graphs[graph_or_uri]
 
     @property
     def graphs(self):
-- 
2.43.0


From 764aa221c2c626690defd544c397f5f2887a9ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:20 +0000
Subject: [PATCH 07/59] fix: to_curie abbreviates only the leading occurrence
 of the namespace

---
 src/pymantic/primitives.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 4d5b14d..aef09aa 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -106,10 +106,11 @@ def to_curie(uri, namespaces, seperator=":", explicit=False):
             matches.append((prefix, namespace))
     if len(matches) > 0:
         prefix, namespace = sorted(matches, key=lambda pair: -len(pair[1]))[0]
+        curie = prefix + seperator + uri[len(namespace) :]
         if explicit:
-            return f"[{uri.replace(namespace, prefix + seperator)}]"
+            return f"[{curie}]"
         else:
-            return uri.replace(namespace, prefix + seperator)
+            return curie
     return uri
 
 
-- 
2.43.0


From 02da0b8f3c28d5677dbd4c3d3df74116a9889d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:20 +0000
Subject: [PATCH 08/59] fix: a CURIE with an empty reference is resolved in its
 own namespace

---
 src/pymantic/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index aef09aa..4847086 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -72,7 +72,7 @@ def parse_curie(curie, prefixes):
     if not definitely_curie:
         if prefix in uri_schemes.schemes:
             return NamedNode(curie)
-    if not reference and "" in prefixes:
+    if not sep and "" in prefixes:
         reference = prefix
         return Prefix(prefixes[""])(reference)
     if prefix in prefixes:
-- 
2.43.0


From 1e736c555d608b4d9020032a8d6c01fc13470cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:20 +0000
Subject: [PATCH 09/59] fix: Profile keeps a term map that only has a default
 vocabulary

---
 src/pymantic/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 4847086..81067d8 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -736,8 +736,8 @@ class Profile:
     Terms and IRIs."""
 
     def __init__(self, prefixes=None, terms=None):
-        self.prefixes = prefixes or PrefixMap()
-        self.terms = terms or TermMap()
+        self.prefixes = PrefixMap() if prefixes is None else prefixes
+        self.terms = TermMap() if terms is None else terms
         if "rdf" not in self.prefixes:
             self.prefixes["rdf"] = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
         if "xsd" not in self.prefixes:
-- 
2.43.0


From a5db23a420fd5ff39c3193c12c6e1a557f988334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:20 +0000
Subject: [PATCH 10/59] fix: a created profile is independent of its
 environment and keeps the default vocabulary

---
 src/pymantic/primitives.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 81067d8..a63c9fd 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -830,13 +830,16 @@ class RDFEnvironment(Profile):
         if empty:
             return Profile()
         else:
-            return Profile(self.prefixes, self.terms)
+            return Profile(self.createPrefixMap(), self.createTermMap())
 
     def createTermMap(self, empty=False):
         if empty:
             return TermMap()
         else:
-            return TermMap(self.terms)
+            terms = TermMap(self.terms)
+            if hasattr(self.terms, "default"):
+                terms.setDefault(self.terms.default)
+            return terms
 
     def createPrefixMap(self, empty=False):
         if empty:
-- 
2.43.0


From 4e7ccbd2f86bc7c58d0130e82a62009fbf746141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:49 +0000
Subject: [PATCH 11/59] fix: N-Triples language tags may contain digits in
 their subtags

---
 src/pymantic/parsers/lark/ntriples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 533cb4e..51aad40 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -33,7 +33,7 @@ quad: subject predicate object graph "."
 ?graph: iriref
 literal: STRING_LITERAL_QUOTE ("^^" iriref | LANGTAG)?
 
-LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0_9]/+)*
+LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0-9]/+)*
 EOL: /[\r\n]/+
 iriref: "<" (/[^\x00-\x20<>"{}|^`\\]/ | UCHAR)* ">"
 STRING_LITERAL_QUOTE: "\"" (/[^\x22\\\x0A\x0D]/ | ECHAR | UCHAR)* "\""
-- 
2.43.0


From e246d3e6b1a79fce1bb8aa7a23e5a8c47599aeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:49 +0000
Subject: [PATCH 12/59] fix: N-Triples blank node labels end where the grammar
 says they do

---
 src/pymantic/parsers/lark/ntriples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 51aad40..a76f6a7 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -40,7 +40,7 @@ STRING_LITERAL_QUOTE: "\"" (/[^\x22\\\x0A\x0D]/ | ECHAR | UCHAR)* "\""
 BLANK_NODE_LABEL: "_:" (PN_CHARS_U | "0".."9") ((PN_CHARS | ".")* PN_CHARS)?
 UCHAR: "\\u" HEX~4 | "\\U" HEX~8
 ECHAR: "\\" /[tbnrf"'\\]/
-PN_CHARS_BASE: /[A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\u10000-\uEFFFF]/
+PN_CHARS_BASE: /[A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]/
 PN_CHARS_U: PN_CHARS_BASE | "_" | ":"
 PN_CHARS: PN_CHARS_U | /[\-0-9\u00B7\u0300-\u036F\u203F-\u2040]/
 HEX: /[0-9A-Fa-f]/
-- 
2.43.0


From bed0cb7a5825107085fc2b25eacd8990a1af380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:49 +0000
Subject: [PATCH 13/59] fix: N-Triples rejects whitespace inside an IRI instead
 of deleting it

---
 src/pymantic/parsers/lark/ntriples.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index a76f6a7..2d3912b 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -35,7 +35,8 @@ literal: STRING_LITERAL_QUOTE ("^^" iriref | LANGTAG)?
 
 LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0-9]/+)*
 EOL: /[\r\n]/+
-iriref: "<" (/[^\x00-\x20<>"{}|^`\\]/ | UCHAR)* ">"
+iriref: IRIREF
+IRIREF: "<" (/[^\x00-\x20<>"{}|^`\\]/ | UCHAR)* ">"
 STRING_LITERAL_QUOTE: "\"" (/[^\x22\\\x0A\x0D]/ | ECHAR | UCHAR)* "\""
 BLANK_NODE_LABEL: "_:" (PN_CHARS_U | "0".."9") ((PN_CHARS | ".")* PN_CHARS)?
 UCHAR: "\\u" HEX~4 | "\\U" HEX~8
@@ -57,8 +58,8 @@ class NTriplesTransformer(BaseParser, Transformer):
         return self.make_blank_node(bn_label.value)
 
     def iriref(self, children):
-        iri = "".join(children)
-        iri = decode_literal(iri)
+        (iri,) = children
+        iri = decode_literal(iri[1:-1])  # Remove <>s
         return self.make_named_node(iri)
 
     def literal(self, children):
-- 
2.43.0


From 7ed5c3bc5cbac7014897135bdd63e9865d038848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:49 +0000
Subject: [PATCH 14/59] fix: N-Triples and N-Quads documents may contain
 comments and blank lines

---
 src/pymantic/parsers/lark/ntriples.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 2d3912b..dfaf170 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -18,10 +18,10 @@ from pymantic.util import decode_literal
 
 from .base import LarkParser
 
-grammar = r"""triples_start: triple? (EOL triple)* EOL?
+grammar = r"""triples_start: (triple? EOL)* triple?
 triple: subject predicate object "."
 
-quads_start: quad? (EOL quad)* EOL?
+quads_start: (quad? EOL)* quad?
 quad: subject predicate object graph "."
 
 ?subject: iriref
@@ -46,7 +46,10 @@ PN_CHARS_U: PN_CHARS_BASE | "_" | ":"
 PN_CHARS: PN_CHARS_U | /[\-0-9\u00B7\u0300-\u036F\u203F-\u2040]/
 HEX: /[0-9A-Fa-f]/
 
+COMMENT: "#" /[^\r\n]/*
+
 %ignore /[ \t]/+
+%ignore COMMENT
 """
 
 
-- 
2.43.0


From c34cd362c8b760ec79d55a8eae057fd1b021dd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:49 +0000
Subject: [PATCH 15/59] fix: reading N-Triples from a stream copes with blank
 lines and bare CR line ends

---
 src/pymantic/parsers/lark/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/base.py b/src/pymantic/parsers/lark/base.py
index 06425cf..f5f262f 100644
--- a/src/pymantic/parsers/lark/base.py
+++ b/src/pymantic/parsers/lark/base.py
@@ -9,7 +9,7 @@ class LarkParser:
     def line_by_line_parser(self, stream):
         for line in stream:  # Equivalent to readline
             if line:
-                yield next(self.lark.parse(line))
+                yield from self.lark.parse(line)
 
     def parse(self, string_or_stream, graph=None):
         """Parse a string or file-like object into RDF primitives and add
-- 
2.43.0


From c2bbb4e5ceb25b247cab933064de52a85c23d191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:49 +0000
Subject: [PATCH 16/59] fix: N-Quads graph labels are optional and may be blank
 nodes

---
 src/pymantic/parsers/lark/nquads.py   | 3 ++-
 src/pymantic/parsers/lark/ntriples.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/parsers/lark/nquads.py b/src/pymantic/parsers/lark/nquads.py
index 1041663..da35146 100644
--- a/src/pymantic/parsers/lark/nquads.py
+++ b/src/pymantic/parsers/lark/nquads.py
@@ -22,7 +22,8 @@ class NQuadsTransformer(NTriplesTransformer):
     """Transform the tokenized nquads into RDF primitives."""
 
     def quad(self, children):
-        subject, predicate, object_, graph = children
+        subject, predicate, object_ = children[:3]
+        graph = children[3] if len(children) == 4 else None
         return self.make_quad(subject, predicate, object_, graph)
 
     def quads_start(self, children):
diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index dfaf170..eaf4bf6 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -22,7 +22,7 @@ grammar = r"""triples_start: (triple? EOL)* triple?
 triple: subject predicate object "."
 
 quads_start: (quad? EOL)* quad?
-quad: subject predicate object graph "."
+quad: subject predicate object graph? "."
 
 ?subject: iriref
         | BLANK_NODE_LABEL -> blank_node_label
@@ -31,6 +31,7 @@ quad: subject predicate object graph "."
        | BLANK_NODE_LABEL -> blank_node_label
        | literal
 ?graph: iriref
+      | BLANK_NODE_LABEL -> blank_node_label
 literal: STRING_LITERAL_QUOTE ("^^" iriref | LANGTAG)?
 
 LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0-9]/+)*
-- 
2.43.0


From a741a020d49f86f3f542ebf4850ee8961f415277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:49 +0000
Subject: [PATCH 17/59] fix: N-Quads are parsed into a new Dataset when no
 graph is given

---
 src/pymantic/parsers/lark/nquads.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymantic/parsers/lark/nquads.py b/src/pymantic/parsers/lark/nquads.py
index da35146..4b457b5 100644
--- a/src/pymantic/parsers/lark/nquads.py
+++ b/src/pymantic/parsers/lark/nquads.py
@@ -21,6 +21,9 @@ from .ntriples import NTriplesTransformer, grammar
 class NQuadsTransformer(NTriplesTransformer):
     """Transform the tokenized nquads into RDF primitives."""
 
+    def _make_graph(self):
+        return self.env.createDataset()
+
     def quad(self, children):
         subject, predicate, object_ = children[:3]
         graph = children[3] if len(children) == 4 else None
-- 
2.43.0


From 37f7bef51021bd8f0a23f4c2cd661417ab194c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:49 +0000
Subject: [PATCH 18/59] fix: the string form of a Quad, and so
 serialize_nquads, is N-Quads

---
 src/pymantic/primitives.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index a63c9fd..fb03f69 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -212,7 +212,10 @@ class Quad(tuple):
     graph = property(itemgetter(3))
 
     def __str__(self):
-        return f"{str(self.subject)} {str(self.predicate)} {str(self.object)} {str(self.graph)} .\n"
+        terms = [self.subject, self.predicate, self.object]
+        if self.graph is not None:
+            terms.append(self.graph)
+        return " ".join(term.toNT() for term in terms) + " .\n"
 
 
 def q_as_t(quad):
-- 
2.43.0


From 801f90fa6cdd1ac77bf310ea2d58167df83e84b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:49 +0000
Subject: [PATCH 19/59] fix: nt_escape escapes control characters instead of
 dropping them

---
 src/pymantic/serializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index dffe7fe..95cff5b 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -24,7 +24,7 @@ def nt_escape(node_string):
             and char <= "\u007E"
         ):
             output_string += char
-        elif char >= "\u007F" and char <= "\uFFFF":
+        elif char < "\u0020" or char >= "\u007F" and char <= "\uFFFF":
             output_string += "\\u%04X" % ord(char)
         elif char >= "\U00010000" and char <= "\U0010FFFF":
             output_string += "\\U%08X" % ord(char)
-- 
2.43.0


From c5fb509190451f60e388c947332d84b62041fdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:49 +0000
Subject: [PATCH 20/59] fix: turtle_parser.parse accepts file-like objects, as
 documented

---
 src/pymantic/parsers/lark/turtle.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index cde16f6..3993717 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -289,10 +289,8 @@ def parse(string_or_stream, graph=None, base=""):
         # Presume string.
         string = string_or_stream
 
-    if isinstance(string_or_stream, bytes):
-        string = string_or_stream.decode("utf-8")
-    else:
-        string = string_or_stream
+    if isinstance(string, bytes):
+        string = string.decode("utf-8")
 
     tree = turtle_lark.parse(string)
     tr = TurtleTransformer(base_iri=base)
-- 
2.43.0


From 0ac635eeac15bff4edd5795ac576d56efc8d101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:49 +0000
Subject: [PATCH 21/59] fix: Turtle object lists may contain collections and
 blank node property lists

---
 src/pymantic/parsers/lark/turtle.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index 3993717..4c7dec6 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -122,16 +122,14 @@ def unpack_predicate_object_list(subject, pol):
                 raise ValueError(predicate)
             predicate = RDF_TYPE
 
-        if not isinstance(object_, (NamedNode, Literal, BlankNode)):
-            if isinstance(object_, Tree):
-                object_ = object_.children
-            for triple_or_node in object_:
-                if isinstance(triple_or_node, Triple):
-                    yield triple_or_node
-                else:
-                    object_ = triple_or_node
-                    yield Triple(subject, predicate, object_)
-        else:
+        objects = object_.children if isinstance(object_, Tree) else [object_]
+        for object_ in objects:
+            if not isinstance(object_, (NamedNode, Literal, BlankNode)):
+                for triple_or_node in object_:
+                    if isinstance(triple_or_node, Triple):
+                        yield triple_or_node
+                    else:
+                        object_ = triple_or_node
             yield Triple(subject, predicate, object_)
 
 
-- 
2.43.0


From 7f9b5de6f25bffd45eab323efa5281183b919ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:49 +0000
Subject: [PATCH 22/59] fix: relative IRIs are resolved the way RFC 3986
 prescribes

---
 src/pymantic/util.py | 56 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/pymantic/util.py b/src/pymantic/util.py
index 47cb589..49c6537 100644
--- a/src/pymantic/util.py
+++ b/src/pymantic/util.py
@@ -89,16 +89,56 @@ def quote_normalized_iri(normalized_iri):
     return quote(normalized_uri, safe="".join(reserved_in_iri))
 
 
+iri_parts_re = re.compile(
+    r"(?:([A-Za-z][A-Za-z0-9+.-]*):)?(?://([^/?#]*))?([^?#]*)(\?[^#]*)?(#.*)?",
+    re.DOTALL,
+)
+
+
+def remove_dot_segments(path):
+    """Remove the . and .. segments of a path, see RFC 3986 5.2.4."""
+    segments = []
+    for segment in path.split("/"):
+        if segment == "..":
+            if len(segments) > 1:
+                segments.pop()
+        elif segment != ".":
+            segments.append(segment)
+    if path.endswith(("/.", "/..")):
+        segments.append("")
+    return "/".join(segments)
+
+
 def smart_urljoin(base, url):
-    """urljoin, only an empty fragment from the relative(?) URL will be
-    preserved.
+    """Resolve a reference against a base IRI, see RFC 3986 5.2. Unlike urljoin
+    this depends neither on the scheme nor drops empty queries and fragments.
     """
-    from urllib.parse import urljoin
-
-    joined = urljoin(base, url)
-    if url.endswith("#") and not joined.endswith("#"):
-        joined += "#"
-    return joined
+    scheme, authority, path, query, fragment = iri_parts_re.fullmatch(url).groups()
+    if not base or scheme is not None:
+        return url
+    b_scheme, b_authority, b_path, b_query, _ = iri_parts_re.fullmatch(base).groups()
+    if authority is None:
+        authority = b_authority
+        if not path:
+            path = b_path
+            query = b_query if query is None else query
+        elif path.startswith("/"):
+            path = remove_dot_segments(path)
+        elif b_authority is not None and not b_path:
+            path = remove_dot_segments("/" + path)
+        else:
+            path = remove_dot_segments(b_path[: b_path.rfind("/") + 1] + path)
+    else:
+        path = remove_dot_segments(path)
+    return "".join(
+        (
+            "" if b_scheme is None else b_scheme + ":",
+            "" if authority is None else "//" + authority,
+            path,
+            query or "",
+            fragment or "",
+        )
+    )
 
 
 def grouper(iterable, n, fillvalue=None):
-- 
2.43.0


From 5f05e22d081d9d51f06fa4813fdd802c2e712d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 23/59] fix: Turtle strings are escaped, so quotes, backslashes
 and newlines survive

---
 src/pymantic/serializers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 95cff5b..07ac412 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -61,9 +61,7 @@ def turtle_string_escape(string):
     """Escape a string appropriately for output in turtle form."""
     from pymantic.util import ECHAR_MAP
 
-    for escaped, value in ECHAR_MAP.items():
-        string = string.replace(value, "\\" + escaped)
-    return '"' + string + '"'
+    return '"' + "".join(ECHAR_MAP.get(char, char) for char in string) + '"'
 
 
 def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
-- 
2.43.0


From f29ae6232b9bd8e3ba4e7a815204e90abf42c264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 24/59] fix: graphs with blank nodes can be serialized as
 Turtle

---
 src/pymantic/serializers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 07ac412..0dfc33c 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -46,7 +46,7 @@ def serialize_nquads(dataset, f):
 def default_bnode_name_generator():
     i = 0
     while True:
-        yield "_b" + str(i)
+        yield "_:b" + str(i)
         i += 1
 
 
@@ -81,7 +81,7 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
         if node in name_map:
             name = name_map[node]
         else:
-            name = bnode_name_maker.next()
+            name = next(bnode_name_maker)
             name_map[node] = name
     elif node.interfaceName == "Literal":
         if node.datatype == profile.resolve("xsd:string"):
-- 
2.43.0


From bcd751ad0b1a1d5e772685daa1d1d8ffcc4e6798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 25/59] fix: Turtle writes an IRI relative to the base only if
 it resolves back to that IRI

---
 src/pymantic/serializers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 0dfc33c..b34f34c 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -66,13 +66,17 @@ def turtle_string_escape(string):
 
 def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
     """Turn a node in an RDF graph into its turtle representation."""
+    from pymantic.util import smart_urljoin
+
     if node.interfaceName == "NamedNode":
         name = profile.prefixes.shrink(node)
-        if base and name.startswith(base):
+        if base and name == node and name.startswith(base):
+            relative = name[len(base) :]
             if base.endswith("#"):
-                name = f"<{str(name.replace(base, '#'))}>"
-            else:
-                name = f"<{str(name.replace(base, ''))}>"
+                relative = "#" + relative
+            # Not everything that starts with base can be written relative to it.
+            if smart_urljoin(base, relative) == node:
+                return f"<{relative}>"
         if name == node:
             name = f"<{str(name)}>"
         else:
-- 
2.43.0


From 730f92af85271e9bab07f0ce996e59371a8bec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 26/59] fix: Turtle escapes local names, and writes those that
 can't be escaped as IRIs

---
 src/pymantic/serializers.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index b34f34c..176ec81 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -1,4 +1,5 @@
 from collections import OrderedDict
+import re
 
 
 def nt_escape(node_string):
@@ -50,9 +51,20 @@ def default_bnode_name_generator():
         i += 1
 
 
+# What may be left in a local name once everything escapable is escaped.
+LOCAL_CHARS = (
+    r"A-Za-z0-9_:\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D\u037F-\u1FFF"
+    r"\u200C-\u200D\u203F-\u2040\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF"
+    r"\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF"
+)
+ESCAPED_LOCAL = re.compile(
+    rf"(?:(?![\u00B7\u0300-\u036F\u203F-\u2040])(?:[{LOCAL_CHARS}]|\\.)+)?"
+)
+
+
 def escape_prefix_local(prefix):
     prefix, colon, local = prefix.partition(":")
-    for esc_char in "~.-!$&'()*+,;=:/?#@%_":
+    for esc_char in "~.-!$&'()*+,;=/?#@%":
         local = local.replace(esc_char, "\\" + esc_char)
     return "".join((prefix, colon, local))
 
@@ -80,7 +92,9 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
         if name == node:
             name = f"<{str(name)}>"
         else:
-            escape_prefix_local(name)
+            name = escape_prefix_local(name)
+            if not ESCAPED_LOCAL.fullmatch(name.partition(":")[2]):
+                name = f"<{str(node)}>"
     elif node.interfaceName == "BlankNode":
         if node in name_map:
             name = name_map[node]
-- 
2.43.0


From 7e2679c4c21d07da8eec46bf7ac1ceeafde1cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 27/59] fix: Turtle documents separate a literal from its
 datatype with ^^

---
 src/pymantic/serializers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 176ec81..a879ee8 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -76,7 +76,9 @@ def turtle_string_escape(string):
     return '"' + "".join(ECHAR_MAP.get(char, char) for char in string) + '"'
 
 
-def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
+def turtle_repr(
+    node, profile, name_map, bnode_name_maker, base=None, datatype_sep="^"
+):
     """Turn a node in an RDF graph into its turtle representation."""
     from pymantic.util import smart_urljoin
 
@@ -121,7 +123,7 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
         else:
             # Unrecognized data-type.
             name = turtle_string_escape(node.value)
-            name += "^" + turtle_repr(node.datatype, profile, None, None)
+            name += datatype_sep + turtle_repr(node.datatype, profile, None, None)
     return name
 
 
@@ -151,7 +153,7 @@ def serialize_turtle(
     bnode_name_maker = bnode_name_generator()
 
     def name_maker(n):
-        return turtle_repr(n, profile, name_map, bnode_name_maker, base)
+        return turtle_repr(n, profile, name_map, bnode_name_maker, base, "^^")
 
     from pymantic.rdf import List
 
-- 
2.43.0


From 9aaad13a5ba20681ef6639eda1d4961c93376cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 28/59] fix: Turtle writes a number or boolean bare only if it
 reads back as the same literal

---
 src/pymantic/serializers.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index a879ee8..55156ea 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -76,6 +76,15 @@ def turtle_string_escape(string):
     return '"' + "".join(ECHAR_MAP.get(char, char) for char in string) + '"'
 
 
+# Lexical forms which turtle allows to be written without quotes.
+BARE_LITERALS = {
+    "xsd:integer": re.compile(r"[+-]?[0-9]+"),
+    "xsd:decimal": re.compile(r"[+-]?[0-9]*\.[0-9]+"),
+    "xsd:double": re.compile(r"[+-]?([0-9]+\.[0-9]*|\.?[0-9]+)[eE][+-]?[0-9]+"),
+    "xsd:boolean": re.compile(r"true|false"),
+}
+
+
 def turtle_repr(
     node, profile, name_map, bnode_name_maker, base=None, datatype_sep="^"
 ):
@@ -112,13 +121,10 @@ def turtle_repr(
             name = turtle_string_escape(node.value)
             if node.language:
                 name += "@" + node.language
-        elif node.datatype == profile.resolve("xsd:integer"):
-            name = node.value
-        elif node.datatype == profile.resolve("xsd:decimal"):
-            name = node.value
-        elif node.datatype == profile.resolve("xsd:double"):
-            name = node.value
-        elif node.datatype == profile.resolve("xsd:boolean"):
+        elif any(
+            node.datatype == profile.resolve(datatype) and bare.fullmatch(node.value)
+            for datatype, bare in BARE_LITERALS.items()
+        ):
             name = node.value
         else:
             # Unrecognized data-type.
-- 
2.43.0


From dd21a93364bfbf22c48ae8a6f42462f6cdd94e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 29/59] fix: Turtle serialization of lists loses neither items
 nor statements

---
 src/pymantic/serializers.py | 55 +++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 55156ea..bc7a5d0 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -138,6 +138,21 @@ def turtle_sorted_names(nodes, name_maker):
     return sorted((name_maker(node), node) for node in nodes)
 
 
+RDF_FIRST = "http://www.w3.org/1999/02/22-rdf-syntax-ns#first"
+RDF_REST = "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest"
+RDF_NIL = "http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"
+
+
+def is_list_cell(node, graph):
+    """Can a node be written as part of a list? Only if there is nothing to it
+    but one rdf:first and one rdf:rest, and one reference to it."""
+    return (
+        node.interfaceName == "BlankNode"
+        and sorted(t.predicate for t in graph.match(node)) == [RDF_FIRST, RDF_REST]
+        and len(list(graph.match(object=node))) == 1
+    )
+
+
 def serialize_turtle(
     graph, f, base=None, profile=None, bnode_name_generator=default_bnode_name_generator
 ):
@@ -161,11 +176,31 @@ def serialize_turtle(
     def name_maker(n):
         return turtle_repr(n, profile, name_map, bnode_name_maker, base, "^^")
 
-    from pymantic.rdf import List
-
-    subjects = [subj for subj in graph.subjects() if not List.is_list(subj, graph)]
-
-    for subject_name, subject in turtle_sorted_names(subjects, name_maker):
+    cells = {subj for subj in graph.subjects() if is_list_cell(subj, graph)}
+    inlined = set()
+
+    def object_maker(n):
+        items = []
+        cell = n
+        while cell in cells:
+            items.append(next(graph.match(cell, RDF_FIRST)).object)
+            cell = next(graph.match(cell, RDF_REST)).object
+        if not items or cell != RDF_NIL:
+            return name_maker(n)
+        while n != RDF_NIL:
+            inlined.add(n)
+            n = next(graph.match(n, RDF_REST)).object
+        return "(" + " ".join(object_maker(item) for item in items) + ")"
+
+    def sorted_subjects():
+        subjects = [subj for subj in graph.subjects() if subj not in cells]
+        yield from turtle_sorted_names(subjects, name_maker)
+        # Whatever has not been written as part of a list by now can't be.
+        subjects = cells - inlined
+        cells.clear()
+        yield from turtle_sorted_names(subjects, name_maker)
+
+    for subject_name, subject in sorted_subjects():
         subj_indent_size = len(subject_name) + 1
         f.write(subject_name + " ")
         predicates = set(t.predicate for t in graph.match(subject=subject))
@@ -180,14 +215,6 @@ def serialize_turtle(
             ):
                 if j != 0:
                     f.write(",\n" + " " * pred_indent_size)
-                if List.is_list(triple.object, graph):
-                    f.write("(")
-                    for k, o in enumerate(List(graph, triple.object)):
-                        if k != 0:
-                            f.write(" ")
-                        f.write(name_maker(o))
-                    f.write(")")
-                else:
-                    f.write(name_maker(triple.object))
+                f.write(object_maker(triple.object))
             f.write(" ;\n")
         f.write(" " * subj_indent_size + ".\n\n")
-- 
2.43.0


From f4178a7e1e6704b8d42761cd495f98a8f26057bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:52 +0000
Subject: [PATCH 30/59] fix: Turtle documents that use the rdf prefix declare
 it

---
 src/pymantic/serializers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index bc7a5d0..7efcf1a 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -1,4 +1,5 @@
 from collections import OrderedDict
+from io import StringIO
 import re
 
 
@@ -166,10 +167,16 @@ def serialize_turtle(
         from pymantic.primitives import Profile
 
         profile = Profile()
+    body = StringIO()
+    write_turtle_subjects(graph, body, base, profile, bnode_name_generator)
     for prefix, iri in profile.prefixes.items():
-        if prefix != "rdf":
+        if prefix != "rdf" or "rdf:" in body.getvalue():
             f.write("@prefix " + prefix + ": <" + iri + "> .\n")
+    f.write(body.getvalue())
 
+
+def write_turtle_subjects(graph, f, base, profile, bnode_name_generator):
+    """Write everything but the directives of a turtle document to f."""
     name_map = OrderedDict()
     bnode_name_maker = bnode_name_generator()
 
-- 
2.43.0


From 95d35f1d13852e65a0c4c13334688a2f1279c8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 31/59] fix: Turtle literals don't depend on what the profile's
 xsd prefix is bound to

---
 src/pymantic/serializers.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 7efcf1a..d3ce160 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -77,12 +77,14 @@ def turtle_string_escape(string):
     return '"' + "".join(ECHAR_MAP.get(char, char) for char in string) + '"'
 
 
+XSD = "http://www.w3.org/2001/XMLSchema#"
+
 # Lexical forms which turtle allows to be written without quotes.
 BARE_LITERALS = {
-    "xsd:integer": re.compile(r"[+-]?[0-9]+"),
-    "xsd:decimal": re.compile(r"[+-]?[0-9]*\.[0-9]+"),
-    "xsd:double": re.compile(r"[+-]?([0-9]+\.[0-9]*|\.?[0-9]+)[eE][+-]?[0-9]+"),
-    "xsd:boolean": re.compile(r"true|false"),
+    XSD + "integer": re.compile(r"[+-]?[0-9]+"),
+    XSD + "decimal": re.compile(r"[+-]?[0-9]*\.[0-9]+"),
+    XSD + "double": re.compile(r"[+-]?([0-9]+\.[0-9]*|\.?[0-9]+)[eE][+-]?[0-9]+"),
+    XSD + "boolean": re.compile(r"true|false"),
 }
 
 
@@ -114,7 +116,7 @@ def turtle_repr(
             name = next(bnode_name_maker)
             name_map[node] = name
     elif node.interfaceName == "Literal":
-        if node.datatype == profile.resolve("xsd:string"):
+        if node.datatype == XSD + "string":
             # Simple string.
             name = turtle_string_escape(node.value)
         elif node.datatype is None:
@@ -122,10 +124,9 @@ def turtle_repr(
             name = turtle_string_escape(node.value)
             if node.language:
                 name += "@" + node.language
-        elif any(
-            node.datatype == profile.resolve(datatype) and bare.fullmatch(node.value)
-            for datatype, bare in BARE_LITERALS.items()
-        ):
+        elif node.datatype in BARE_LITERALS and BARE_LITERALS[
+            node.datatype
+        ].fullmatch(node.value):
             name = node.value
         else:
             # Unrecognized data-type.
-- 
2.43.0


From 2a062393e8039a8d0b83a6314bbdd433afc45b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 32/59] fix: Resource.new keeps a blank node subject a blank
 node

---
 src/pymantic/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 5c0a48d..d0ff7d3 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -129,7 +129,7 @@ class Resource(metaclass=MetaResource):
         # graph.bind(prefix, Prefix)
         if subject is None:
             subject = BlankNode()
-        if not isinstance(subject, NamedNode):
+        if not isinstance(subject, NamedNode) and not isinstance(subject, BlankNode):
             subject = NamedNode(subject)
         for rdf_class in cls.rdf_classes:
             graph.add(Triple(subject, cls.resolve("rdf:type"), rdf_class))
-- 
2.43.0


From 562d7737668acc235cdade3e1a6a9db41da28c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 33/59] fix: Resource.copy adds Triples, and not to what it is
 iterating over

---
 src/pymantic/rdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index d0ff7d3..dc6d0f8 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -540,8 +540,8 @@ class Resource(metaclass=MetaResource):
             target_subject, BlankNode
         ):
             target_subject = NamedNode(target_subject)
-        for t in self.graph.match(self.subject, None, None):
-            self.graph.add((target_subject, t.predicate, t.object))
+        for t in list(self.graph.match(self.subject, None, None)):
+            self.graph.add(Triple(target_subject, t.predicate, t.object))
         return self.classify(self.graph, target_subject)
 
     def as_(self, target_class):
-- 
2.43.0


From e6415a230cffb2d39b37ba3c4950103968814ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 34/59] fix: Resource.in_graph yields only resources that have
 all the RDF classes

---
 src/pymantic/rdf.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index dc6d0f8..6725523 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -362,23 +362,16 @@ class Resource(metaclass=MetaResource):
     @classmethod
     def in_graph(cls, graph):
         """Iterate through all instances of this Resource in the graph."""
-        subjects = set()
+        subjects = None
         for rdf_class in cls.rdf_classes:
-            if not subjects:
-                subjects.update(
-                    [
-                        t.subject
-                        for t in graph.match(None, cls.resolve("rdf:type"), rdf_class)
-                    ]
-                )
+            instances = [
+                t.subject for t in graph.match(None, cls.resolve("rdf:type"), rdf_class)
+            ]
+            if subjects is None:
+                subjects = set(instances)
             else:
-                subjects.intersection_update(
-                    [
-                        t.subject
-                        for t in graph.match(None, cls.resolve("rdf:type"), rdf_class)
-                    ]
-                )
-        return set(cls(graph, subject) for subject in subjects)
+                subjects.intersection_update(instances)
+        return set(cls(graph, subject) for subject in subjects or ())
 
     def __repr__(self):
         return "<%r: %s>" % (type(self), self.subject)
-- 
2.43.0


From 304793f36b76214b3fa4bb5a61f587e5def2d1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 35/59] fix: keys that don't resolve raise a ValueError instead
 of matching any predicate

---
 src/pymantic/rdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 6725523..0ab87c1 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -157,7 +157,10 @@ class Resource(metaclass=MetaResource):
         try:
             return cls.prefixes.resolve(key)
         except ValueError:
-            return cls.global_profile.resolve(key)
+            resolved = cls.global_profile.resolve(key)
+            if resolved is None:
+                raise ValueError(f"Could not resolve term {key}")
+            return resolved
 
     def __eq__(self, other):
         if isinstance(other, Resource):
-- 
2.43.0


From 9dc303fcf3350ee3c15e5395e4dd244608b1dc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 36/59] fix: normalize_iri leaves percent-encodings that aren't
 UTF-8 alone

---
 src/pymantic/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/util.py b/src/pymantic/util.py
index 49c6537..03fa8b0 100644
--- a/src/pymantic/util.py
+++ b/src/pymantic/util.py
@@ -61,7 +61,10 @@ def percent_decode(regmatch):
     encoded = b""
     for group in regmatch.group(0)[1:].split("%"):
         encoded += int(group, 16).to_bytes(1, "big")
-    uni = encoded.decode("utf-8")
+    try:
+        uni = encoded.decode("utf-8")
+    except UnicodeDecodeError:
+        return regmatch.group(0)
     for res in reserved_in_iri:
         uni = uni.replace(res, "%%%02X" % ord(res))
     return uni
-- 
2.43.0


From 2d2e0306308eaed9e092466bc66e10995330710c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 37/59] fix: iterating over a List yields items whatever their
 language

---
 src/pymantic/rdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 0ab87c1..b31b294 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -556,7 +556,8 @@ class List(Resource):
         """Iterating over lists works differently from normal Resources."""
         current = self
         while current.subject != self.resolve("rdf:nil"):
-            yield current["rdf:first"]
+            # Without a filter only one language would be considered.
+            yield util.one_or_none(list(current["rdf:first", None]))
             current = current["rdf:rest"]
             if current.subject != self.resolve("rdf:nil"):
                 current = current.as_(type(self))
-- 
2.43.0


From 135f579d85a6aad92ea4178d8df93c392f48c036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 38/59] fix: classify resources whose registered classes derive
 from one another

---
 src/pymantic/rdf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index b31b294..cbb2d9b 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -402,10 +402,16 @@ class Resource(metaclass=MetaResource):
         types = frozenset(
             [t.object for t in graph.match(obj, cls.resolve("rdf:type"), None)]
         )
-        python_classes = tuple(
+        python_classes = {
             cls._meta_resource._classes[t]
             for t in types
             if t in cls._meta_resource._classes
+        }
+        # A class can't be combined with itself or its own superclasses.
+        python_classes = tuple(
+            c
+            for c in python_classes
+            if not any(issubclass(o, c) for o in python_classes - {c})
         )
         if len(python_classes) == 0:
             return Resource(graph, obj)
-- 
2.43.0


From 7917ef93cb27dcdc1c8548fc35056986e0b8da38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 39/59] fix: combined classes take into account classes
 registered later

---
 src/pymantic/rdf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index cbb2d9b..d7dbc8b 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -418,16 +418,18 @@ class Resource(metaclass=MetaResource):
         elif len(python_classes) == 1:
             return python_classes[0](graph, obj)
         else:
-            if types not in cls._meta_resource._classes:
+            # The same types may have more classes registered for them later.
+            key = (types, frozenset(python_classes))
+            if key not in cls._meta_resource._classes:
                 the_class = cls._meta_resource.__new__(
                     cls._meta_resource,
                     "".join(python_class.__name__ for python_class in python_classes),
                     python_classes,
                     {"_autocreate": True},
                 )
-                cls._meta_resource._classes[types] = the_class
+                cls._meta_resource._classes[key] = the_class
                 the_class.rdf_classes = frozenset(types)
-            return cls._meta_resource._classes[types](graph, obj)
+            return cls._meta_resource._classes[key](graph, obj)
 
     def _interpret_key(self, key):
         """Break up a key into a predicate name and optional language or
-- 
2.43.0


From ec368a0d9ac1dfd5f27f2f8d30749ac7bdbead88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 40/59] fix: references to resources can be set with a language
 or datatype filter

---
 src/pymantic/rdf.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index d7dbc8b..a8c7724 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -517,7 +517,7 @@ class Resource(metaclass=MetaResource):
         dictionary-style set with explicit type information."""
         if not check_objects(self.graph, value, lang, datatype, rdf_class):
             raise ValueError("Improper value provided.")
-        if lang and predicate in self.scalars:
+        if lang and predicate in self.scalars and not isinstance(value, Resource):
             return (
                 self.objects_by_lang(predicate, lang)
                 + self.objects_by_datatype(predicate)
@@ -608,20 +608,19 @@ def check_objects(graph, value, lang, datatype, rdf_class):
     if isinstance(value, frozenset) or (
         isinstance(value, tuple) and not isinstance(value, Literal)
     ):
-        for v in value:
-            if (
-                (
-                    lang
-                    and (not hasattr(v, "language") or not lang_match(v.language, lang))
-                )
-                or (datatype and v.datatype != datatype)
-                or (rdf_class and not isinstance(v, rdf_class))
-            ):
-                return False
+        return all(check_object(v, lang, datatype, rdf_class) for v in value)
+    else:
+        return check_object(value, lang, datatype, rdf_class)
+
+
+def check_object(value, lang, datatype, rdf_class):
+    """Determine that a single value is appropriate for the specified explicit
+    object access key."""
+    if rdf_class:
+        return isinstance(value, rdf_class)
+    elif isinstance(value, Resource):
         return True
     else:
-        return (
-            (lang and lang_match(value.language, lang))
-            or (datatype and value.datatype == datatype)
-            or (rdf_class and isinstance(value, rdf_class))
+        return (not lang or lang_match(value.language, lang)) and (
+            not datatype or value.datatype == datatype
         )
-- 
2.43.0


From 60a4f08cdfc15cc804d0f6f8231ce19eb8ecbf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 41/59] fix: setting a predicate with a filter of None replaces
 all its objects

---
 src/pymantic/rdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index a8c7724..dc4607d 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -535,6 +535,8 @@ class Resource(metaclass=MetaResource):
             )
         elif rdf_class:
             return self.objects_by_type(predicate, rdf_class)
+        else:
+            return self.objects(predicate)
 
     def copy(self, target_subject):
         """Create copies of all triples with this resource as their subject
-- 
2.43.0


From 41dafb3b7c5065216a993de5dbfd4ff05389d7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 42/59] fix: plain strings can be accessed as xsd:string and
 set with a plain filter

---
 src/pymantic/rdf.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index dc4607d..40e0082 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -4,6 +4,7 @@ Python objects."""
 import logging
 
 from pymantic.primitives import (
+    XSD,
     BlankNode,
     Literal,
     NamedNode,
@@ -488,6 +489,8 @@ class Resource(metaclass=MetaResource):
             objects = self.objects_by_type(predicate, rdf_class)
         elif lang == "" or datatype == "":
             objects = self.bare_literals(predicate)
+            if datatype == "":
+                objects += self.objects_by_datatype(predicate, XSD("string"))
         else:
             raise KeyError("Invalid key: " + repr(key))
         return predicate, objects
@@ -535,6 +538,12 @@ class Resource(metaclass=MetaResource):
             )
         elif rdf_class:
             return self.objects_by_type(predicate, rdf_class)
+        elif datatype == "":
+            return self.bare_literals(predicate) + self.objects_by_datatype(
+                predicate, XSD("string")
+            )
+        elif lang == "":
+            return self.bare_literals(predicate)
         else:
             return self.objects(predicate)
 
@@ -599,7 +608,7 @@ def objectify_value(graph, value, lang=None, datatype=None):
     elif isinstance(value, Literal) or isinstance(value, Resource):
         return value
     elif isinstance(value, str):
-        return Literal(value, language=lang, datatype=datatype)
+        return Literal(value, language=lang or None, datatype=datatype or None)
     else:
         return Literal(value)
 
@@ -622,6 +631,10 @@ def check_object(value, lang, datatype, rdf_class):
         return isinstance(value, rdf_class)
     elif isinstance(value, Resource):
         return True
+    elif lang == "":
+        return value.language is None and value.datatype is None
+    elif datatype == "":
+        return value.language is None and value.datatype in (None, XSD("string"))
     else:
         return (not lang or lang_match(value.language, lang)) and (
             not datatype or value.datatype == datatype
-- 
2.43.0


From 71f61bb0877d2d6a1d8c3a7cc6a934a599eb683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 43/59] fix: JSON-LD literals with a language don't have a
 datatype too

---
 src/pymantic/parsers/jsonld.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index 29541fa..788f9b1 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -51,13 +51,14 @@ class PyLDLoader(BaseParser):
         elif triple_fragment["type"] == "blank node":
             return self._call_state.bnodes[triple_fragment["value"]]
         elif triple_fragment["type"] == "literal":
-            language = None
             if "language" in triple_fragment:
-                language = triple_fragment["language"]
+                return self.env.createLiteral(
+                    value=triple_fragment["value"],
+                    language=triple_fragment["language"],
+                )
             return self.env.createLiteral(
                 value=triple_fragment["value"],
                 datatype=self.env.createNamedNode(triple_fragment["datatype"]),
-                language=language,
             )
 
     def process_jobj(self, jobj, options=None):
-- 
2.43.0


From e51cac097ec773dfcd57e591f47167db55af77a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 44/59] fix: JSON-LD graphs named by a blank node are

---
 src/pymantic/parsers/jsonld.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index 788f9b1..97c0b58 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -66,11 +66,12 @@ class PyLDLoader(BaseParser):
 
         dataset = to_rdf(jobj, options=options)
         for graph_name, triples in dataset.items():
-            graph_iri = (
-                self.env.createNamedNode(graph_name)
-                if graph_name != "@default"
-                else None
-            )
+            if graph_name == "@default":
+                graph_iri = None
+            elif graph_name.startswith("_:"):
+                graph_iri = self._call_state.bnodes[graph_name]
+            else:
+                graph_iri = self.env.createNamedNode(graph_name)
             for triple in triples:
                 self.make_quad(
                     (
-- 
2.43.0


From e9f18a5a2a5c28efc6892073c008407b03a61df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 45/59] fix: jsonld_parser.document parses files and strings

---
 src/pymantic/parsers/jsonld.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index 97c0b58..88aea77 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -17,12 +17,10 @@ class PyLDLoader(BaseParser):
             self.pyld_loader = pyld_loader
 
         def parse_file(self, f):
-            jobj = json.load(f)
-            self.pyld_loader.process_jobj(jobj)
+            return self.pyld_loader.parse_json(json.load(f))
 
         def parse(self, string):
-            jobj = json.loads(string)
-            self.pyld_loader.process_jobj(jobj)
+            return self.pyld_loader.parse_json(json.loads(string))
 
     def parse_json(self, jobj, sink=None, options=None):
         if sink is None:
-- 
2.43.0


From bc78b079e3d7e89c02580790d36b0eff2c3d338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 46/59] fix: the SKOS vocabulary can be imported

---
 src/pymantic/vocab/skos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/vocab/skos.py b/src/pymantic/vocab/skos.py
index 36c23a7..b34e2b4 100644
--- a/src/pymantic/vocab/skos.py
+++ b/src/pymantic/vocab/skos.py
@@ -5,9 +5,9 @@ NS_DICT = dict(skos=SKOS_NS)
 
 
 class SKOSResource(Resource):
-    namespaces = NS_DICT
+    prefixes = NS_DICT
 
-    scaler = ["skos:prefLabel"]
+    scalars = ["skos:prefLabel"]
 
 
 @register_class("skos:Concept")
-- 
2.43.0


From 9737faffd65c1e3b824a12c1510a86d3915b235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 47/59] fix: SPARQL results in XML, RDF/XML and Turtle can be
 read

---
 src/pymantic/sparql.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 848625c..10e7562 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -1,7 +1,7 @@
 """Provide an interface to SPARQL query endpoints."""
 
 import datetime
-from io import StringIO
+from io import BytesIO
 import json
 import logging
 from lxml import objectify
@@ -145,7 +145,9 @@ class _Select(_SelectOrUpdate):
 
         if format:
             graph = rdflib.ConjunctiveGraph()
-            graph.parse(StringIO(response.content), self.query_url, format=format)
+            graph.parse(
+                BytesIO(response.content), self.server.query_url, format=format
+            )
             return graph
         elif response.headers["content-type"].startswith(
             "application/sparql-results+json"
@@ -154,7 +156,7 @@ class _Select(_SelectOrUpdate):
         elif response.headers["content-type"].startswith(
             "application/sparql-results+xml"
         ):
-            return objectify.parse(StringIO(response.content))
+            return objectify.parse(BytesIO(response.content))
         else:
             raise UnknownSPARQLReturnTypeException(
                 "Got content of type: %s" % response.headers["content-type"]
@@ -255,13 +257,13 @@ class UpdateableGraphStore(SPARQLServer):
             )
         graph = rdflib.ConjunctiveGraph()
         if response.headers["content-type"].startswith("text/plain"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="nt")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="nt")
         elif response.headers["content-type"].startswith("application/rdf+xml"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="xml")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="xml")
         elif response.headers["content-type"].startswith("text/turtle"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="turtle")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="turtle")
         elif response.headers["content-type"].startswith("text/rdf+n3"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="n3")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="n3")
         return graph
 
     def delete(self, graph_uri):
-- 
2.43.0


From 974a3d1d68b76b023ddc041b6d4bea54fd4da92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 48/59] fix: graph store requests can be made

---
 src/pymantic/sparql.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 10e7562..ee83f24 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -8,8 +8,7 @@ from lxml import objectify
 import pytz
 import rdflib
 import requests
-import urllib
-from urllib.parse import urlparse
+from urllib.parse import quote_plus, urlencode, urljoin
 
 log = logging.getLogger(__name__)
 
@@ -240,15 +239,15 @@ class UpdateableGraphStore(SPARQLServer):
 
     def request_url(self, graph_uri):
         if self.param_style:
-            return self.dataset_url + "?" + urllib.urlencode({"graph": graph_uri})
+            return self.dataset_url + "?" + urlencode({"graph": graph_uri})
         else:
-            return urlparse.urljoin(self.dataset_url, urllib.quote_plus(graph_uri))
+            return urljoin(self.dataset_url, quote_plus(graph_uri))
 
     def get(self, graph_uri):
         response = self.s.get(
             self.request_url(graph_uri),
             headers={"Accept": ",".join(self.acceptable_graph_responses)},
-            **self.server.requests_kwargs
+            **self.requests_kwargs
         )
         if response.status_code != 200:
             raise Exception(
@@ -268,7 +267,7 @@ class UpdateableGraphStore(SPARQLServer):
 
     def delete(self, graph_uri):
         response = self.s.delete(
-            self.request_url(graph_uri), **self.server.request_kwargs
+            self.request_url(graph_uri), **self.requests_kwargs
         )
         if response.status_code not in (200, 202):
             raise Exception(
@@ -282,7 +281,7 @@ class UpdateableGraphStore(SPARQLServer):
             self.request_url(graph_uri),
             data=graph_triples,
             headers={"content-type": "text/plain"},
-            **self.server.requests_kwargs
+            **self.requests_kwargs
         )
         if response.status_code not in (200, 201, 204):
             raise Exception(
@@ -297,7 +296,7 @@ class UpdateableGraphStore(SPARQLServer):
                 self.request_url(graph_uri),
                 data=graph_triples,
                 headers={"content-type": "text/plain"},
-                **self.server.requests_kwargs
+                **self.requests_kwargs
             )
             if response.status_code not in (200, 201, 204):
                 raise Exception(
@@ -309,7 +308,7 @@ class UpdateableGraphStore(SPARQLServer):
                 self.dataset_url,
                 data=graph_triples,
                 headers={"content-type": "text/plain"},
-                **self.server.requests_kwargs
+                **self.requests_kwargs
             )
             if response.status_code != 201:
                 raise Exception(
@@ -328,7 +327,7 @@ class PatchableGraphStore(UpdateableGraphStore):
             self.request_url(graph_uri),
             data=graph_xml,
             headers={"content-type": "application/vnd.talis.changeset+xml"},
-            **self.server.requests_kwargs
+            **self.requests_kwargs
         )
         if response.status_code not in (200, 201, 204):
             raise Exception(
-- 
2.43.0


From cb47f10638119f2f8ebbd721a9d7f2973b4b8763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:40 +0000
Subject: [PATCH 49/59] fix: deleting a graph succeeds when the graph store
 answers 204 No Content

---
 src/pymantic/sparql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index ee83f24..0c4a275 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -269,7 +269,7 @@ class UpdateableGraphStore(SPARQLServer):
         response = self.s.delete(
             self.request_url(graph_uri), **self.requests_kwargs
         )
-        if response.status_code not in (200, 202):
+        if response.status_code not in (200, 202, 204):
             raise Exception(
                 "Error from Graph Store (%s): %s"
                 % (response.status_code, response.content)
-- 
2.43.0


From a3c13039b2c7fe0a95fe60907f94b8f4da5fbb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:40 +0000
Subject: [PATCH 50/59] fix: a query answered with 204 No Content raises a
 SPARQLQueryException

---
 src/pymantic/sparql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 0c4a275..474ac16 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -136,6 +136,8 @@ class _Select(_SelectOrUpdate):
 
     def execute(self):
         response = super(_Select, self).execute()
+        if response is True:
+            raise SPARQLQueryException("No Content\nQuery: %s" % self.sparql)
         format = None
         if response.headers["content-type"].startswith("application/rdf+xml"):
             format = "xml"
-- 
2.43.0


From 6922184462490f3d4fab59f8c14afd80c380cb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:40 +0000
Subject: [PATCH 51/59] fix: normalize_iri doesn't decode what is not allowed
 in IRIs

---
 src/pymantic/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/util.py b/src/pymantic/util.py
index 03fa8b0..cb6fe52 100644
--- a/src/pymantic/util.py
+++ b/src/pymantic/util.py
@@ -56,6 +56,8 @@ reserved_in_iri = [
     "=",
 ]
 
+illegal_in_iri_re = re.compile(r'["<>\\^`{|}\x7F-\x9F]')
+
 
 def percent_decode(regmatch):
     encoded = b""
@@ -67,7 +69,7 @@ def percent_decode(regmatch):
         return regmatch.group(0)
     for res in reserved_in_iri:
         uni = uni.replace(res, "%%%02X" % ord(res))
-    return uni
+    return illegal_in_iri_re.sub(lambda illegal: percent_encode(illegal.group(0)), uni)
 
 
 def normalize_iri(iri):
-- 
2.43.0


From 6e0b847b0efb6d49d7811fb1c5d29494c9525086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:29 +0000
Subject: [PATCH 52/59] fix: dot segments of paths without a root are removed
 as RFC 3986 has it

---
 src/pymantic/util.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/pymantic/util.py b/src/pymantic/util.py
index cb6fe52..4a67fd7 100644
--- a/src/pymantic/util.py
+++ b/src/pymantic/util.py
@@ -102,16 +102,17 @@ iri_parts_re = re.compile(
 
 def remove_dot_segments(path):
     """Remove the . and .. segments of a path, see RFC 3986 5.2.4."""
-    segments = []
-    for segment in path.split("/"):
-        if segment == "..":
-            if len(segments) > 1:
-                segments.pop()
-        elif segment != ".":
+    # Dot segments at the beginning of a path without a root just vanish.
+    path = re.sub(r"^(\.\.?(/|$))+", "", path)
+    segments = []  # each but the first with the / in front of it
+    for segment in re.findall(r"^[^/]+|/[^/]*", path):
+        if segment == "/..":
+            del segments[-1:]
+        elif segment != "/.":
             segments.append(segment)
     if path.endswith(("/.", "/..")):
-        segments.append("")
-    return "/".join(segments)
+        segments.append("/")
+    return "".join(segments)
 
 
 def smart_urljoin(base, url):
-- 
2.43.0


From e6b6beacc45c77ae13b48183fc54906d7cd73ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:10 +0000
Subject: [PATCH 53/59] fix: end Turtle comments at a carriage return too

---
 src/pymantic/parsers/lark/turtle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index 4c7dec6..fc821d5 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -91,7 +91,7 @@ HEX: /[0-9A-Fa-f]/
 PN_LOCAL_ESC: "\\" /[_~\.\-!$&'()*+,;=\/?#@%]/
 
 %ignore WS
-COMMENT: "#" /[^\n]/*
+COMMENT: "#" /[^\r\n]/*
 %ignore COMMENT
 """
 
-- 
2.43.0


From 16deefc9f14d17c0f5dffee902f2943e87f6cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:29 +0000
Subject: [PATCH 54/59] fix: normalize the case of everything that stays
 percent-encoded in an IRI

---
 src/pymantic/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/util.py b/src/pymantic/util.py
index 4a67fd7..d48ca04 100644
--- a/src/pymantic/util.py
+++ b/src/pymantic/util.py
@@ -77,7 +77,11 @@ def normalize_iri(iri):
     Percent-Encoding Normalization (5.3.2.3) from RFC 3987. The IRI should be a
     unicode object."""
 
-    return percent_encoding_re.sub(percent_decode, iri)
+    normalized = percent_encoding_re.sub(percent_decode, iri)
+    # Whatever stays percent-encoded has upper case digits.
+    return re.sub(
+        "%[0-9a-fA-F]{2}", lambda encoded: encoded.group(0).upper(), normalized
+    )
 
 
 def percent_encode(char):
-- 
2.43.0


From c093fc37f6209b0b80fd3bce44fcf815edcbda47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:04 +0000
Subject: [PATCH 55/59] fix: Turtle rejects IRIs that end in an escaped line
 break

---
 src/pymantic/parsers/lark/turtle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index fc821d5..83005a7 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -98,11 +98,11 @@ COMMENT: "#" /[^\r\n]/*
 turtle_lark = Lark(grammar, start="turtle_doc", parser="lalr")
 
 
-LEGAL_IRI = re.compile(r'^[^\x00-\x20<>"{}|^`\\]*$')
+LEGAL_IRI = re.compile(r'[^\x00-\x20<>"{}|^`\\]*')
 
 
 def validate_iri(iri):
-    if not LEGAL_IRI.match(iri):
+    if not LEGAL_IRI.fullmatch(iri):
         raise ValueError("Illegal characters in IRI: " + iri)
     return iri
 
-- 
2.43.0


From 894fb43e0db4b5cead78b99f7a1182b34964b6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:50 +0000
Subject: [PATCH 56/59] fix: a parse started while another one goes on doesn't
 take its blank nodes

---
 src/pymantic/parsers/base.py      | 5 +++++
 src/pymantic/parsers/jsonld.py    | 6 ++++--
 src/pymantic/parsers/lark/base.py | 8 ++++----
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/pymantic/parsers/base.py b/src/pymantic/parsers/base.py
index 6c130fe..e5a1bd4 100644
--- a/src/pymantic/parsers/base.py
+++ b/src/pymantic/parsers/base.py
@@ -42,12 +42,17 @@ class BaseParser:
         return self.env.createQuad(subject, predicate, object, graph)
 
     def _prepare_parse(self, graph):
+        # What a stream or a graph does may lead to another parse in between.
+        self._call_state.outer = self._call_state.__dict__.copy()
         self._call_state.bnodes = defaultdict(self.env.createBlankNode)
         self._call_state.graph = graph
 
     def _cleanup_parse(self):
+        outer = self._call_state.outer
         del self._call_state.bnodes
         del self._call_state.graph
+        del self._call_state.outer
+        self._call_state.__dict__.update(outer)
 
     def _make_graph(self):
         return self.env.createGraph()
diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index 88aea77..03a0b13 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -26,8 +26,10 @@ class PyLDLoader(BaseParser):
         if sink is None:
             sink = self._make_graph()
         self._prepare_parse(sink)
-        self.process_jobj(jobj, options)
-        self._cleanup_parse()
+        try:
+            self.process_jobj(jobj, options)
+        finally:
+            self._cleanup_parse()
 
         return sink
 
diff --git a/src/pymantic/parsers/lark/base.py b/src/pymantic/parsers/lark/base.py
index f5f262f..afc8bd9 100644
--- a/src/pymantic/parsers/lark/base.py
+++ b/src/pymantic/parsers/lark/base.py
@@ -17,12 +17,12 @@ class LarkParser:
         """
         tf = self.lark.options.transformer
 
-        try:
-            if graph is None:
-                graph = tf._make_graph()
+        if graph is None:
+            graph = tf._make_graph()
 
-            tf._prepare_parse(graph)
+        tf._prepare_parse(graph)
 
+        try:
             if hasattr(string_or_stream, "readline"):
                 triples = self.line_by_line_parser(string_or_stream)
             else:
-- 
2.43.0


From 64ba5a6f78ae62eae1f43f924402c38d31e002df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:12 +0000
Subject: [PATCH 57/59] fix: Turtle documents can be nested to any depth

---
 src/pymantic/parsers/lark/turtle.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index 83005a7..fb33398 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -12,8 +12,9 @@ parse turtle line by line. If a file-like object is provided, the entire file
 will be read into memory and parsed there.
 """
 
-from lark import Lark, Transformer, Tree
+from lark import Lark, Tree
 from lark.lexer import Token
+from lark.visitors import Transformer_NonRecursive
 import re
 
 from pymantic.parsers.base import BaseParser
@@ -133,7 +134,7 @@ def unpack_predicate_object_list(subject, pol):
             yield Triple(subject, predicate, object_)
 
 
-class TurtleTransformer(BaseParser, Transformer):
+class TurtleTransformer(BaseParser, Transformer_NonRecursive):
     def __init__(self, base_iri=""):
         super().__init__()
         self.base_iri = base_iri
@@ -206,12 +207,14 @@ class TurtleTransformer(BaseParser, Transformer):
             raise NotImplementedError()
 
     def blank_node_property_list(self, children):
+        # Not as a generator: nested ones would nest as deeply as the document.
         pl_root = self.make_blank_node()
-        for pl_item in unpack_predicate_object_list(pl_root, children[0]):
-            yield pl_item
-        yield pl_root
+        return [*unpack_predicate_object_list(pl_root, children[0]), pl_root]
 
     def collection(self, children):
+        return list(self.unpack_collection(children))
+
+    def unpack_collection(self, children):
         prev_node = RDF_NIL
         for value in reversed(children):
             this_bn = self.make_blank_node()
-- 
2.43.0


From 1624c4127a72f176a7ed2a8a89d11234d3b6cab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:28 +0000
Subject: [PATCH 58/59] fix: Turtle serialization of lists nested more deeply
 than calls can be

---
 src/pymantic/serializers.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index d3ce160..988207c 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -187,18 +187,33 @@ def write_turtle_subjects(graph, f, base, profile, bnode_name_generator):
     cells = {subj for subj in graph.subjects() if is_list_cell(subj, graph)}
     inlined = set()
 
-    def object_maker(n):
+    def list_items(n):
         items = []
         cell = n
         while cell in cells:
             items.append(next(graph.match(cell, RDF_FIRST)).object)
             cell = next(graph.match(cell, RDF_REST)).object
         if not items or cell != RDF_NIL:
-            return name_maker(n)
+            return []
         while n != RDF_NIL:
             inlined.add(n)
             n = next(graph.match(n, RDF_REST)).object
-        return "(" + " ".join(object_maker(item) for item in items) + ")"
+        return items
+
+    def object_maker(n):
+        # Not recursive, as lists can be nested more deeply than calls can.
+        parts = []
+        remaining = [(n, "")]
+        while remaining:
+            n, end = remaining.pop()
+            items = list_items(n)
+            if items:
+                parts.append("(")
+                ends = [" "] * (len(items) - 1) + [")" + end]
+                remaining.extend(reversed(list(zip(items, ends))))
+            else:
+                parts.append(name_maker(n) + end)
+        return "".join(parts)
 
     def sorted_subjects():
         subjects = [subj for subj in graph.subjects() if subj not in cells]
-- 
2.43.0


From aff54f845b0b986b77f14e67797a20d071804406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:57 +0000
Subject: [PATCH 59/59] fix: a dataset's quads are in the graphs by the names
 they have in it

A graph that was then added to another dataset by another name was called by
the latter when iterating over the first one (and by its own in match()).
---
 src/pymantic/primitives.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index fb03f69..36289d9 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -586,9 +586,10 @@ class Dataset:
                     return True
 
     def __iter__(self):
-        for graph in self._graphs.values():
+        # By the name it has here: graph.uri is that of where it was added last.
+        for graph_uri, graph in self._graphs.items():
             for triple in graph:
-                yield t_as_q(graph.uri, triple)
+                yield t_as_q(graph_uri, triple)
 
     def toArray(self):
         return frozenset(self)
-- 
2.43.0

