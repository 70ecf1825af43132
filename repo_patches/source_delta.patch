From f5baa9178cf27f6518923239ef86d89f1af3ea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:08 +0000
Subject: [PATCH 01/46] fix: prp-key compares every key property, including the
 last one

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 33f1b63..0abd84a 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -610,7 +610,7 @@ class OWLRL_Semantics(Core):
                             # 'calculate' the keys for the y values and see if there is a match
                             for vals in valueList:
                                 same = True
-                                for i in range(0, len(pis) - 1):
+                                for i in range(0, len(pis)):
                                     if (y, pis[i], vals[i]) not in self.graph:
                                         same = False
                                         # No use going with this property line
-- 
2.43.0


From e78d8d53a7ad0d97e5da38869168f2508fbe325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:32 +0000
Subject: [PATCH 02/46] fix: eq-diff2/eq-diff3 compare every pair of an
 AllDifferent list, including the last member

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 0abd84a..e7fff4b 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -424,7 +424,7 @@ class OWLRL_Semantics(Core):
                 zis = self._list(y)
                 for i in range(0, len(zis) - 1):
                     zi = zis[i]
-                    for j in range(i + 1, len(zis) - 1):
+                    for j in range(i + 1, len(zis)):
                         zj = zis[j]
                         if (
                             (zi, OWL.sameAs, zj) in self.graph
-- 
2.43.0


From 8a9f33de71a1f800702a77d91b8793c0ea0bf1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:34 +0000
Subject: [PATCH 03/46] fix: prp-adp compares every pair of an
 AllDisjointProperties list, including the last member

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index e7fff4b..f288010 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -520,7 +520,7 @@ class OWLRL_Semantics(Core):
                     pis = self._list(y)
                     for i in range(0, len(pis) - 1):
                         pi = pis[i]
-                        for j in range(i + 1, len(pis) - 1):
+                        for j in range(i + 1, len(pis)):
                             pj = pis[j]
                             for x, y in self.graph.subject_objects(pi):
                                 if (x, pj, y) in self.graph:
-- 
2.43.0


From ab12fd85f3323a44963c91e30b6a9312546f362a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:37 +0000
Subject: [PATCH 04/46] fix: do not crash on a max(Qualified)Cardinality whose
 value is not a literal

---
 owlrl/OWLRL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index f288010..3367e46 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -726,7 +726,7 @@ class OWLRL_Semantics(Core):
                     self.store_triple((u, RDF.type, xx))
 
         # RULES cls-maxc1 and cls-maxc1
-        elif p == OWL.maxCardinality:
+        elif p == OWL.maxCardinality and isinstance(x, rdflib.Literal):
             # This one is a bit complicated, because the literals have been
             # exchanged against bnodes...
             #
@@ -753,7 +753,7 @@ class OWLRL_Semantics(Core):
                                     self.store_triple((y1, OWL.sameAs, y2))
 
         # RULES cls-maxqc1, cls-maxqc2, cls-maxqc3, cls-maxqc4
-        elif p == OWL.maxQualifiedCardinality:
+        elif p == OWL.maxQualifiedCardinality and isinstance(x, rdflib.Literal):
             # This one is a bit complicated, because the literals have been
             # exchanged against bnodes...
             #
-- 
2.43.0


From b4bb49c1cc2167986c118860c5bab4141d045c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 05/46] fix: owl:sameAs hands over the datatypes of a resource,
 not the resource itself

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index 3367e46..e61c8ff 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -185,7 +185,7 @@ class OWLRL_Semantics(Core):
 
         # noinspection PyShadowingNames
         def _append_to_explicit(s, o):
-            explicit[s].add(o)
+            explicit[s].update(explicit[o])
 
         # noinspection PyShadowingNames
         def _handle_subsumptions(r, dt):
-- 
2.43.0


From c4bee480288d28e0b780e4c8c21ac5680974d8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 06/46] fix: cls-com reports the offending element, not the
 complement class

---
 owlrl/OWLRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index e61c8ff..f9ff6d9 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -687,7 +687,7 @@ class OWLRL_Semantics(Core):
                 if (x1, RDF.type, c2) in self.graph:
                     self.add_error(
                         "Violation of complementarity for classes %s and %s on element %s"
-                        % (c1, c2, x)
+                        % (c1, c2, x1)
                     )
 
         # RULES cls-svf1 and cls=svf2
-- 
2.43.0


From 8efecf4dafac6b73805b07a28e85d8dbd55d93f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:57 +0000
Subject: [PATCH 07/46] fix: rdfs4a/rdfs4b apply to derived triples too, not
 only in the first cycle

---
 owlrl/RDFSClosure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index c3020b8..5bfc2f6 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -157,11 +157,9 @@ class RDFS_Semantics(Core):
         # rdf1
         self.store_triple((p, RDF.type, RDF.Property))
         # rdfs4a
-        if cycle_num == 1:
-            self.store_triple((s, RDF.type, RDFS.Resource))
+        self.store_triple((s, RDF.type, RDFS.Resource))
         # rdfs4b
-        if cycle_num == 1:
-            self.store_triple((o, RDF.type, RDFS.Resource))
+        self.store_triple((o, RDF.type, RDFS.Resource))
         if p == RDFS.domain:
             # rdfs2
             for uuu, Y, yyy in self.graph.triples((None, s, None)):
-- 
2.43.0


From e0b30712e56df58bda68c740326a321ea9aee854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:18 +0000
Subject: [PATCH 08/46] fix: container membership axioms for every rdf:_n in
 use, not only for a run that starts at rdf:_1

---
 owlrl/Closure.py     | 27 +++++++++++++--------------
 owlrl/RDFSClosure.py |  2 +-
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/owlrl/Closure.py b/owlrl/Closure.py
index 6cfd747..28d6bdd 100755
--- a/owlrl/Closure.py
+++ b/owlrl/Closure.py
@@ -25,6 +25,7 @@ __author__ = "Ivan Herman"
 __contact__ = "Ivan Herman, ivan@w3.org"
 __license__ = "W3C® SOFTWARE NOTICE AND LICENSE, http://www.w3.org/Consortium/Legal/2002/copyright-software-20021231"
 
+import re
 from typing import Union
 
 import rdflib
@@ -70,6 +71,9 @@ class Core:
     :var IMaxNum: Maximal index of :code:`rdf:_i` occurrence in the graph.
     :type IMaxNum: int
 
+    :var container_indices: The indices of the :code:`rdf:_i` predicates that occur in the graph.
+    :type container_indices: set of int
+
     :var graph: The real graph.
     :type graph: :class:`rdflib.Graph`
 
@@ -108,24 +112,19 @@ class Core:
         """
         self._debug = debugGlobal
 
-        # Calculate the maximum 'n' value for the '_i' type predicates (see Horst's paper)
-        n = 1
-        maxnum = 0
-        cont = True
-        while cont:
-            cont = False
-            predicate = RDF[("_%d" % n)]
-            for (s, p, o) in graph.triples((None, predicate, None)):
-                # there is at least one if we got here
-                maxnum = n
-                n += 1
-                cont = True
-        self.IMaxNum = maxnum
-
         self.graph = graph
         if isinstance(self.graph, (Dataset, ConjunctiveGraph)):
             self.graph.default_union = True
 
+        # Collect the 'n' values of the '_n' type predicates that occur (see Horst's paper). These are not necessarily
+        # contiguous, and do not necessarily start with 1
+        self.container_indices = set()
+        for (s, p, o) in graph.triples((None, None, None)):
+            match = re.fullmatch("_([1-9][0-9]*)", p[len(str(RDF)) :]) if p.startswith(str(RDF)) else None
+            if match is not None:
+                self.container_indices.add(int(match.group(1)))
+        self.IMaxNum = max(self.container_indices, default=0)
+
         if destination is None:
             if isinstance(graph, (Dataset, ConjunctiveGraph)):
                 self.destination = graph.default_context
diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index 5bfc2f6..500e32a 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -90,7 +90,7 @@ class RDFS_Semantics(Core):
         """
         for t in RDFS_Axiomatic_Triples:
             self.destination.add(t)
-        for i in range(1, self.IMaxNum + 1):
+        for i in sorted(self.container_indices):
             ci = RDF[("_%d" % i)]
             self.destination.add((ci, RDF.type, RDF.Property))
             self.destination.add((ci, RDFS.domain, RDFS.Resource))
-- 
2.43.0


From c323c2df4749f6d1e622602b1a0caa18d357e91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 09/46] fix: expand leaves the process-wide datatype tables as
 it found them, also when the closure fails

---
 owlrl/DatatypeHandling.py | 22 ++++++++++++++++++++++
 owlrl/__init__.py         | 28 ++++++++++++++--------------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 19b3531..fcb61d9 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -39,8 +39,11 @@ from rdflib.namespace import RDF, XSD
 from rdflib.term import XSDToPython, Literal, _toPythonMapping
 
 import datetime, time, re
+from contextlib import contextmanager
 from decimal import Decimal
 
+from .XsdDatatypes import OWL_RL_Datatypes, OWL_Datatype_Subsumptions
+
 
 # noinspection PyMissingConstructor,PyPep8Naming
 class _namelessTZ(datetime.tzinfo):
@@ -698,6 +701,25 @@ def use_RDFLib_lexical_conversions():
     _toPythonMapping.update(XSDToPython)
 
 
+@contextmanager
+def preserved_datatype_tables():
+    """
+    Context manager restoring, on exit, the tables that a closure calculation may change: RDFLib's lexical conversion
+    routines, and the datatypes (with their conversions and subsumptions) that are known to the OWL 2 RL rules.
+    """
+    tables = (_toPythonMapping, AltXSDToPYTHON, OWL_Datatype_Subsumptions)
+    saved = [dict(table) for table in tables]
+    saved_datatypes = list(OWL_RL_Datatypes)
+    try:
+        yield
+    finally:
+        for table, original in zip(tables, saved):
+            for key in [key for key in table if key not in original]:
+                del table[key]
+            table.update(original)
+        OWL_RL_Datatypes[:] = saved_datatypes
+
+
 #######################################################################################
 # This module can pretty much tested individually...
 
diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 8f86445..51f8e02 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -395,20 +395,20 @@ class DeductiveClosure:
         :param destination: The RDF graph to which the results are written. If not specified, the graph is modified in-place.
         :type destination: :class:`rdflib.Graph`
         """
-        if (not DeductiveClosure.improved_datatype_generic) and self.improved_datatypes:
-            DatatypeHandling.use_Alt_lexical_conversions()
-
-        if self.closure_class is not None:
-            self.closure_class(
-                graph,
-                self.axiomatic_triples,
-                self.datatype_axioms,
-                rdfs=self.rdfs_closure,
-                destination=destination
-            ).closure()
-
-        if (not DeductiveClosure.improved_datatype_generic) and self.improved_datatypes:
-            DatatypeHandling.use_RDFLib_lexical_conversions()
+        # The datatype tables are shared by the whole process, and a closure class may extend them (see
+        # RDFS_OWLRL_Semantics.add_new_datatype): whatever happens, they are put back as they were
+        with DatatypeHandling.preserved_datatype_tables():
+            if (not DeductiveClosure.improved_datatype_generic) and self.improved_datatypes:
+                DatatypeHandling.use_Alt_lexical_conversions()
+
+            if self.closure_class is not None:
+                self.closure_class(
+                    graph,
+                    self.axiomatic_triples,
+                    self.datatype_axioms,
+                    rdfs=self.rdfs_closure,
+                    destination=destination
+                ).closure()
 
     @staticmethod
     def use_improved_datatypes_conversions():
-- 
2.43.0


From 993a571a6395fa09a199bbceb508ba5ed4659aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 10/46] fix: expansions in several threads do not overwrite
 each other's datatype tables

---
 owlrl/DatatypeHandling.py |  6 +++++-
 owlrl/__init__.py         | 12 +++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index fcb61d9..97973bb 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -38,7 +38,7 @@ from rdflib.namespace import RDF, XSD
 
 from rdflib.term import XSDToPython, Literal, _toPythonMapping
 
-import datetime, time, re
+import datetime, time, re, threading
 from contextlib import contextmanager
 from decimal import Decimal
 
@@ -701,6 +701,10 @@ def use_RDFLib_lexical_conversions():
     _toPythonMapping.update(XSDToPython)
 
 
+# The tables are shared by all the threads of the process: only one of them may rely on a specific content at a time
+datatype_tables_lock = threading.RLock()
+
+
 @contextmanager
 def preserved_datatype_tables():
     """
diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 51f8e02..dfadd6f 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -397,7 +397,7 @@ class DeductiveClosure:
         """
         # The datatype tables are shared by the whole process, and a closure class may extend them (see
         # RDFS_OWLRL_Semantics.add_new_datatype): whatever happens, they are put back as they were
-        with DatatypeHandling.preserved_datatype_tables():
+        with DatatypeHandling.datatype_tables_lock, DatatypeHandling.preserved_datatype_tables():
             if (not DeductiveClosure.improved_datatype_generic) and self.improved_datatypes:
                 DatatypeHandling.use_Alt_lexical_conversions()
 
@@ -415,16 +415,18 @@ class DeductiveClosure:
         """
         Switch the system to use the improved datatype conversion routines.
         """
-        DeductiveClosure.improved_datatype_generic = True
-        DatatypeHandling.use_Alt_lexical_conversions()
+        with DatatypeHandling.datatype_tables_lock:
+            DeductiveClosure.improved_datatype_generic = True
+            DatatypeHandling.use_Alt_lexical_conversions()
 
     @staticmethod
     def use_rdflib_datatypes_conversions():
         """
         Switch the system to use the generic (RDFLib) datatype conversion routines
         """
-        DeductiveClosure.improved_datatype_generic = False
-        DatatypeHandling.use_RDFLib_lexical_conversions()
+        with DatatypeHandling.datatype_tables_lock:
+            DeductiveClosure.improved_datatype_generic = False
+            DatatypeHandling.use_RDFLib_lexical_conversions()
 
 
 ###############################################################################################################
-- 
2.43.0


From 1145d5cb2768762e2b46cee963405acb8632b16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 11/46] fix: use_RDFLib_lexical_conversions also removes the
 conversions that RDFLib does not have

---
 owlrl/DatatypeHandling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 97973bb..84b3679 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -698,6 +698,10 @@ def use_RDFLib_lexical_conversions():
     """
     Restore the original (ie, RDFLib) set of lexical conversion routines.
     """
+    for datatype in AltXSDToPYTHON:
+        if datatype not in XSDToPython:
+            # RDFLib has no conversion of its own for this one
+            _toPythonMapping.pop(datatype, None)
     _toPythonMapping.update(XSDToPython)
 
 
-- 
2.43.0


From ca7c5d0b05780a9a6a05f9c90f2e143065cbb437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 12/46] fix: cls-avf checks the facets of a restricted datatype
 (the literal proxies it relied on are gone)

---
 owlrl/OWLRLExtras.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 64c3734..cd07a56 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -201,10 +201,8 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
             for rt in self.restricted_datatypes:
                 if rt.datatype == t:
                     # bingo
-                    if v in self.literal_proxies.bnode_to_lit:
-                        return rt.checkValue(
-                            self.literal_proxies.bnode_to_lit[v].lit.toPython()
-                        )
+                    if isinstance(v, rdflib.Literal):
+                        return rt.checkValue(v.toPython())
                     else:
                         return True
             # if we got here, no restriction applies
-- 
2.43.0


From 2e594922767f30719aab1d066d83e9f270e15201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 13/46] fix: a failure of the store is not swallowed while
 restricted datatypes are extracted or checked

---
 owlrl/OWLRLExtras.py        |  9 +++---
 owlrl/RestrictedDatatype.py | 62 +++++++++++++++++++++----------------
 2 files changed, 40 insertions(+), 31 deletions(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index cd07a56..8d73b5a 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -174,11 +174,12 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
                 if (lt, RDF.type, base_type) in self.graph:
                     try:
                         # the conversion or the check may go wrong and raise an exception; then simply move on
-                        if rt.checkValue(lt.toPython()):
-                            # yep, this is also of type 'rt'
-                            self.store_triple((lt, RDF.type, rt.datatype))
-                    except:
+                        fits = rt.checkValue(lt.toPython())
+                    except Exception:
                         continue
+                    if fits:
+                        # yep, this is also of type 'rt'
+                        self.store_triple((lt, RDF.type, rt.datatype))
 
     def restriction_typing_check(self, v, t):
         """
diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index ac45d78..35117a4 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -212,10 +212,20 @@ def extract_faceted_datatypes(core, graph):
     """
     retval = []
     for dtype in graph.subjects(RDF.type, RDFS.Datatype):
-        base_type = None
-        facets = []
+        # Get everything from the graph first: a failure of its store is not an error in a datatype definition
+        base_types = [x for x in graph.objects(dtype, OWL.onDatatype)]
+        rlists = [x for x in graph.objects(dtype, OWL.withRestrictions)]
+        restrictions = []
+        if len(rlists) == 1 and len(base_types) == 1 and base_types[0] in facetable_datatypes:
+            try:
+                items = [r for r in graph.items(rlists[0])]
+            except ValueError as msg:
+                # the list is not well-formed
+                core.add_error(msg)
+                continue
+            for r in items:
+                restrictions.extend(graph.predicate_objects(r))
         try:
-            base_types = [x for x in graph.objects(dtype, OWL.onDatatype)]
             if len(base_types) > 0:
                 if len(base_types) > 1:
                     raise Exception(
@@ -224,7 +234,6 @@ def extract_faceted_datatypes(core, graph):
                 else:
                     base_type = base_types[0]
                     if base_type in facetable_datatypes:
-                        rlists = [x for x in graph.objects(dtype, OWL.withRestrictions)]
                         if len(rlists) > 1:
                             raise Exception(
                                 "More than one facet lists for the same restriction %s"
@@ -232,30 +241,29 @@ def extract_faceted_datatypes(core, graph):
                             )
                         elif len(rlists) > 0:
                             final_facets = []
-                            for r in graph.items(rlists[0]):
-                                for (facet, lit) in graph.predicate_objects(r):
-                                    if isinstance(lit, rdflibLiteral):
-                                        # the python value of the literal should be extracted
-                                        # note that this call may lead to an exception, but that is fine,
-                                        # it is caught some lines below anyway...
-                                        try:
-                                            if (
-                                                lit.datatype is None
-                                                or lit.datatype == XSD.string
-                                            ):
-                                                final_facets.append((facet, str(lit)))
-                                            else:
-                                                final_facets.append(
-                                                    (
-                                                        facet,
-                                                        AltXSDToPYTHON[lit.datatype](
-                                                            str(lit)
-                                                        ),
-                                                    )
+                            for (facet, lit) in restrictions:
+                                if isinstance(lit, rdflibLiteral):
+                                    # the python value of the literal should be extracted
+                                    # note that this call may lead to an exception, but that is fine,
+                                    # it is caught some lines below anyway...
+                                    try:
+                                        if (
+                                            lit.datatype is None
+                                            or lit.datatype == XSD.string
+                                        ):
+                                            final_facets.append((facet, str(lit)))
+                                        else:
+                                            final_facets.append(
+                                                (
+                                                    facet,
+                                                    AltXSDToPYTHON[lit.datatype](
+                                                        str(lit)
+                                                    ),
                                                 )
-                                        except Exception as msg:
-                                            core.add_error(msg)
-                                            continue
+                                            )
+                                    except Exception as msg:
+                                        core.add_error(msg)
+                                        continue
                                 # We do have everything we need:
                             new_datatype = RestrictedDatatype(
                                 dtype, base_type, final_facets
-- 
2.43.0


From 0e3f3171df1f3bfe35c6c4dcf278fdd9a3b79618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 14/46] fix: an expansion with a separate destination does not
 remove anything from the source graph

---
 owlrl/Closure.py | 5 +++++
 owlrl/OWLRL.py   | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/owlrl/Closure.py b/owlrl/Closure.py
index 28d6bdd..ee983b0 100755
--- a/owlrl/Closure.py
+++ b/owlrl/Closure.py
@@ -77,6 +77,9 @@ class Core:
     :var graph: The real graph.
     :type graph: :class:`rdflib.Graph`
 
+    :var in_place: Whether the results are written to the real graph itself, ie, there is no separate destination.
+    :type in_place: bool
+
     :var axioms: Whether axioms should be added or not.
     :type axioms: bool
 
@@ -112,6 +115,8 @@ class Core:
         """
         self._debug = debugGlobal
 
+        self.in_place = destination is None
+
         self.graph = graph
         if isinstance(self.graph, (Dataset, ConjunctiveGraph)):
             self.graph.default_union = True
diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index f9ff6d9..e1888cf 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -135,7 +135,8 @@ class OWLRL_Semantics(Core):
                     to_be_removed.append(t)
         for t in to_be_removed:
             self.destination.remove(t)
-            self.graph.remove(t)
+            if self.in_place:
+                self.graph.remove(t)
 
     def add_axioms(self):
         """
-- 
2.43.0


From 1b9a976cb063ea668580344c1f2c9d08b7c076cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 15/46] fix: a plain source graph with a separate destination
 reaches the full closure, and terminates

---
 owlrl/Closure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/owlrl/Closure.py b/owlrl/Closure.py
index ee983b0..9deac78 100755
--- a/owlrl/Closure.py
+++ b/owlrl/Closure.py
@@ -31,6 +31,7 @@ from typing import Union
 import rdflib
 from rdflib.namespace import RDF
 from rdflib import BNode, Literal, Graph, Dataset
+from rdflib.graph import ReadOnlyGraphAggregate
 from .Namespaces import ERRNS
 
 try:
@@ -147,6 +148,9 @@ class Core:
                 if source_store is not dest_store:
                     raise ValueError("The source and destination graphs share the same backing store")
                 self.destination = destination
+                if destination != graph and not isinstance(graph, (Dataset, ConjunctiveGraph)):
+                    # the rules also have to see the triples that are only in the destination
+                    self.graph = ReadOnlyGraphAggregate([graph, destination])
 
         self.axioms = axioms
         self.daxioms = daxioms
-- 
2.43.0


From 9778464ce986062bfc16ae83d675b9096fea0adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 16/46] fix: cyclic owl:imports terminate, and a failed import
 does not lose its import statements

---
 owlrl/__init__.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index dfadd6f..7d88913 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -243,23 +243,26 @@ def interpret_owl_imports(iformat, graph):
     :param graph: The RDFLib Graph instance to parse into.
     :type graph: :class:`RDFLib.Graph`
     """
+    # the vocabularies that have been imported: these may import one another
+    imported = set()
     while True:
         # 1. collect the import statements:
         all_imports = [t for t in graph.triples((None, OWL.imports, None))]
         if len(all_imports) == 0:
             # no import statement whatsoever, we can go on...
             return
-        # 2. remove all the import statements from the graph
-        for t in all_imports:
-            graph.remove(t)
-        # 3. get all the imported vocabularies and import them
+        # 2. get all the imported vocabularies and import them, each of them once
         for (s, p, uri) in all_imports:
-            # this is not 100% kosher. The expected object for an import statement is a URI. However,
-            # on local usage, a string would also make sense, so I do that one, too
-            if isinstance(uri, Literal):
-                __parse_input(iformat, str(uri), graph)
-            else:
-                __parse_input(iformat, uri, graph)
+            if str(uri) not in imported:
+                # this is not 100% kosher. The expected object for an import statement is a URI. However,
+                # on local usage, a string would also make sense, so I do that one, too
+                if isinstance(uri, Literal):
+                    __parse_input(iformat, str(uri), graph)
+                else:
+                    __parse_input(iformat, uri, graph)
+                imported.add(str(uri))
+            # 3. the import statement is done, remove it from the graph
+            graph.remove((s, p, uri))
             # 4. start all over again to see if import statements have been imported
 
 
-- 
2.43.0


From 62d442169c670afcc96a75bcd021ce2d0d5deec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:35 +0000
Subject: [PATCH 17/46] fix: convert_graph accepts both names of RDF/XML, 'xml'
 (command line) and 'rdfxml' (documentation)

---
 owlrl/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/__init__.py b/owlrl/__init__.py
index 7d88913..1dcc1ff 100755
--- a/owlrl/__init__.py
+++ b/owlrl/__init__.py
@@ -211,7 +211,7 @@ def __parse_input(iformat, inp, graph):
         format = "turtle"
     elif iformat == RDFA:
         format = "rdfa1.1"
-    elif iformat == RDFXML:
+    elif iformat in ("rdfxml", RDFXML):
         format = "xml"
     elif iformat == JSON:
         format = "json-ld"
@@ -591,7 +591,7 @@ def convert_graph(options, closureClass=None):
         datatype_axioms=daxioms,
     ).expand(graph)
 
-    if options.format == "rdfxml":
+    if options.format in ("rdfxml", RDFXML):
         return graph.serialize(format="pretty-xml")
     elif options.format == "json":
         return graph.serialize(format="json-ld")
-- 
2.43.0


From b0725a14bcc6e392071667d03e8a8b090197ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 18/46] fix: owlrl --maximal switches RDFS on, as documented

---
 scripts/owlrl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/owlrl b/scripts/owlrl
index fa8be8c..e25bf53 100755
--- a/scripts/owlrl
+++ b/scripts/owlrl
@@ -83,6 +83,7 @@ def main():
         options.sources = ["-"]
 
     if options.maximal == "yes":
+        options.rdfsClosure = "yes"
         options.trimming = "yes"
         options.owlClosure = "yes"
         options.owlExtras = "yes"
-- 
2.43.0


From b9d22496c67dd879c1a6a102026501c19d7a0988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 19/46] fix: an xsd:pattern facet has to match the whole
 lexical value

---
 owlrl/RestrictedDatatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 35117a4..4c048da 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -549,7 +549,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         else:
             val = value
         for p in self.pattern:
-            if p.match(val) is None:
+            if p.fullmatch(val) is None:
                 return False
         return True
 
-- 
2.43.0


From 8bd5581dfe20e343c586d7265107bd5dd8f7190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 20/46] fix: the combined closure includes the RDFS rule on
 literals with identical values

---
 owlrl/CombinedClosure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/owlrl/CombinedClosure.py b/owlrl/CombinedClosure.py
index 9ea95c9..a41f196 100755
--- a/owlrl/CombinedClosure.py
+++ b/owlrl/CombinedClosure.py
@@ -177,6 +177,7 @@ class RDFS_OWLRL_Semantics(RDFS_Semantics, OWLRL_Semantics):
         for t in self.full_binding_triples:
             self.store_triple(t)
 
-        # Note that the RL one time rules include the management of datatype which is a true superset
-        # of the rules in RDFS. It is therefore unnecessary to add those even self.rdfs is True.
+        # The RL one time rules do not cover the RDFS rule on literals with identical values
+        if self.rdfs:
+            RDFS_Semantics.one_time_rules(self)
         OWLRL_Semantics.one_time_rules(self)
-- 
2.43.0


From a6cfe60b22eb3d32a75e6ce5c6f27e39c1e4a63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:00 +0000
Subject: [PATCH 21/46] fix: an invalid decimal or an empty date/time literal
 is an inconsistency, not a crash

---
 owlrl/DatatypeHandling.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 84b3679..b005504 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -81,7 +81,7 @@ def _returnTimeZone(incoming_v):
     @return (v,timezone) tuple; 'v' is the input string with the timezone info cut off, 'timezone' is a L{_namelessTZ}
     instance or None
     """
-    if incoming_v[-1] == "Z":
+    if incoming_v.endswith("Z"):
         v = incoming_v[:-1]
         tzone = _namelessTZ(0, 0)
     else:
@@ -132,7 +132,10 @@ def _strToDecimal(v):
         # this is an invalid lexical form, though would be accepted by Python
         raise ValueError("Invalid decimal literal value %s" % v)
     else:
-        return Decimal(v)
+        try:
+            return Decimal(v)
+        except ArithmeticError:
+            raise ValueError("Invalid decimal literal value %s" % v)
 
 
 # ANY URIS ##################################################
-- 
2.43.0


From f65bc46875e822e9bfae7e1eef1847b47fbd610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:02 +0000
Subject: [PATCH 22/46] fix: xsd:hexBinary literals denote octets, and need an
 even number of digits

---
 owlrl/DatatypeHandling.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index b005504..05fa621 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -38,7 +38,7 @@ from rdflib.namespace import RDF, XSD
 
 from rdflib.term import XSDToPython, Literal, _toPythonMapping
 
-import datetime, time, re, threading
+import binascii, datetime, time, re, threading
 from contextlib import contextmanager
 from decimal import Decimal
 
@@ -320,16 +320,19 @@ def _strToFloat(v):
 # hexa ##################################################
 # noinspection PyPep8Naming
 def _strToHexBinary(v):
-    """Test (and convert) hexa integer values. The number of characters should be even.
+    """Test (and convert) hexa binary values. The number of characters should be even.
     @param v: the literal string defined as a hexa number
-    @return long value
+    @return the decoded (binary) content
     @raise ValueError: invalid value
     """
     # first of all, the number of characters must be even according to the xsd spec:
     length = len(v)
-    if (length / 2) * 2 != length:
+    if length % 2 != 0:
+        raise ValueError("Invalid hex binary number %s" % v)
+    try:
+        return binascii.unhexlify(v)
+    except ValueError:
         raise ValueError("Invalid hex binary number %s" % v)
-    return int(v, 16)
 
 
 # Datetime, date timestamp, etc ################################
-- 
2.43.0


From 242bc3358a6b59b07e06331ac42cbf0d9aceb4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 23/46] fix: zero, INF, -INF and NaN are valid doubles and
 floats

---
 owlrl/DatatypeHandling.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 05fa621..3661ea4 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -269,6 +269,10 @@ def _strToBoundNumeral(v, interval, conversion):
 
 
 # Double and float ##################################################
+# lexical values that are not numbers
+_special_floats = ["INF", "-INF", "NaN"]
+
+
 # noinspection PyPep8Naming
 def _strToDouble(v):
     """Test and convert a double value into a Decimal or float. Raises an exception if the number is outside the
@@ -284,7 +288,7 @@ def _strToDouble(v):
         value = Decimal(v)
         upper = Decimal("1.0E+310")
         lower = Decimal("1.0E-330")
-        if lower < abs(value) < upper:
+        if v in _special_floats or value == 0 or lower < abs(value) < upper:
             # bingo
             return value
         else:
@@ -307,7 +311,7 @@ def _strToFloat(v):
         value = Decimal(v)
         upper = Decimal("1.0E+40")
         lower = Decimal("1.0E-50")
-        if lower < abs(value) < upper:
+        if v in _special_floats or value == 0 or lower < abs(value) < upper:
             # bingo
             return value
         else:
-- 
2.43.0


From b2c8fffa4b7b8c4d7c512f8a85ddc9aa9f9941cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:33 +0000
Subject: [PATCH 24/46] fix: literals with different languages, or a boolean
 and a number, do not have identical values

---
 owlrl/RDFSClosure.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index 500e32a..240b0d1 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -111,7 +111,13 @@ class RDFS_Semantics(Core):
 
     @staticmethod
     def _literals_same_as(lt1, lt2):
+        if lt1.language != lt2.language:
+            # the language is part of the value
+            return False
         if lt1.value is not None and lt2.value is not None:
+            if isinstance(lt1.value, bool) != isinstance(lt2.value, bool):
+                # Python's booleans are numbers, XSD's are not
+                return False
             return lt1.value == lt2.value
         elif lt1.datatype is not None and lt2.datatype is not None:
             return lt1.__eq__(lt2)
-- 
2.43.0


From a102d7a83bb8cc053674d4590d751af6c6d7efa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 25/46] fix: xsd:NMTOKEN is not a subtype of xsd:Name

---
 owlrl/XsdDatatypes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/owlrl/XsdDatatypes.py b/owlrl/XsdDatatypes.py
index adb4a9a..d881af3 100755
--- a/owlrl/XsdDatatypes.py
+++ b/owlrl/XsdDatatypes.py
@@ -145,7 +145,6 @@ _Common_Datatype_Subsumptions = {
         XSD.string,
     ],
     XSD.NMTOKEN: [
-        XSD.Name,
         XSD.token,
         XSD.normalizedString,
         XSD.string,
-- 
2.43.0


From 1fada821498722202044d9eef9c351d33bd1c9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 26/46] fix: a value that cannot be compared with a facet is an
 inconsistency, not a crash

---
 owlrl/RestrictedDatatype.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 4c048da..bd23678 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -142,7 +142,12 @@ def _lit_to_value(dt, v):
     for cat in Datatypes_per_facets:
         if dt.base_type in Datatypes_per_facets[cat]:
             # yep, this is to be checked.
-            if not dt.checkValue(value):
+            try:
+                fits = dt.checkValue(value)
+            except (TypeError, ArithmeticError):
+                # the value cannot be compared with those of the facets
+                fits = False
+            if not fits:
                 raise ValueError(
                     "Literal value %s does not fit the faceted datatype %s" % (v, dt)
                 )
-- 
2.43.0


From 30177e666bb9d29b9b9edb46b555152109c453ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:38 +0000
Subject: [PATCH 27/46] fix: rdf:langRange does not crash on a plain literal
 without a language

---
 owlrl/RestrictedDatatype.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index bd23678..2cc88c9 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -174,6 +174,9 @@ def _lang_range_check(range, lang):
         """
         return r == "*" or r == l
 
+    if lang is None:
+        # a literal without a language is not in any range
+        return False
     rangeList = range.strip().lower().split("-")
     langList = lang.strip().lower().split("-")
     if not _match(rangeList[0], langList[0]):
-- 
2.43.0


From 4a6643a66f6ece143239e0f77205e956e3fd41db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 28/46] fix: the xsd:pattern facet applies to rdf:PlainLiteral,
 too

---
 owlrl/RestrictedDatatype.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 2cc88c9..c664300 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -435,6 +435,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
                 RestrictedDatatype._check_min_length,
                 RestrictedDatatype._check_max_length,
                 RestrictedDatatype._check_length,
+                RestrictedDatatype._check_pattern,
                 RestrictedDatatype._check_lang_range,
             ],
         }
-- 
2.43.0


From 8e89262b957e32ecb5c4777343e16f2f79f9a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 29/46] fix: facets on xsd:int and xsd:token are not ignored

---
 owlrl/RestrictedDatatype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index c664300..4c8d7b9 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -83,6 +83,7 @@ Datatypes_per_facets = {
         XSD.positiveInteger,
         XSD.negativeInteger,
         XSD.long,
+        XSD.int,
         XSD.short,
         XSD.byte,
         XSD.unsignedLong,
@@ -105,6 +106,7 @@ Datatypes_per_facets = {
         XSD.NCName,
         XSD.language,
         XSD.normalizedString,
+        XSD.token,
     ],
     LENGTH_PATTERN_LRANGE: [RDF.PlainLiteral],
 }
-- 
2.43.0


From 2ae681e818a6ffb11d6386caf32eabbb8aeda8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 30/46] fix: negative timezone offsets are not an hour off

---
 owlrl/DatatypeHandling.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 3661ea4..a1d8788 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -91,10 +91,9 @@ def _returnTimeZone(incoming_v):
             v = incoming_v
             tzone = None
         else:
-            hours = int(match.groups()[1])
-            if match.groups()[0] == "-":
-                hours = -hours - 1
-            minutes = int(match.groups()[2])
+            sign = -1 if match.groups()[0] == "-" else 1
+            hours = sign * int(match.groups()[1])
+            minutes = sign * int(match.groups()[2])
             v = incoming_v[:-6]
             tzone = _namelessTZ(hours, minutes)
     return v, tzone
-- 
2.43.0


From 6b73a9ac6ad61087fd52e6a11222b6c90165d656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 31/46] fix: the fraction of a second is a decimal fraction,
 not a number of microseconds

---
 owlrl/DatatypeHandling.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index a1d8788..8036b59 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -359,13 +359,14 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
     # The microseconds should be handled here...
     final_v = v
     milliseconds = 0
-    milpattern = r"(.*)(\.)([0-9]*)"
+    milpattern = r"(.*)(\.)([0-9]+)$"
     match = re.match(milpattern, v)
     if match is not None:
         # we have a millisecond portion...
         try:
             final_v = match.groups()[0]
-            milliseconds = int(match.groups()[2])
+            # up to microseconds, that is what Python can handle
+            milliseconds = int((match.groups()[2] + "000000")[:6])
         except:
             raise ValueError("Invalid datetime %s" % incoming_v)
     #
@@ -413,13 +414,14 @@ def _strToTime(incoming_v):
     # The microseconds should be handled here...
     final_v = v
     milliseconds = 0
-    milpattern = r"(.*)(\.)([0-9]*)"
+    milpattern = r"(.*)(\.)([0-9]+)$"
     match = re.match(milpattern, v)
     if match is not None:
         # we have a millisecond portion...
         try:
             final_v = match.groups()[0]
-            milliseconds = int(match.groups()[2])
+            # up to microseconds, that is what Python can handle
+            milliseconds = int((match.groups()[2] + "000000")[:6])
         except:
             raise ValueError("Invalid datetime %s" % incoming_v)
     #
-- 
2.43.0


From 8698eba22b2bd6d43bffc4810d22056fb89aad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:25 +0000
Subject: [PATCH 32/46] fix: length and pattern facets are not rejected because
 rdf:langRange is not in RDFLib's RDF namespace

---
 owlrl/RestrictedDatatype.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 4c8d7b9..527193c 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -57,11 +57,14 @@ __license__ = "W3C® SOFTWARE NOTICE AND LICENSE, http://www.w3.org/Consortium/L
 import re
 
 from rdflib.namespace import OWL, RDF, RDFS, XSD
-from rdflib import Literal as rdflibLiteral
+from rdflib import Literal as rdflibLiteral, URIRef
 
 from .DatatypeHandling import AltXSDToPYTHON
 from functools import reduce
 
+# The term is not part of the (closed) RDF namespace of RDFLib
+RDF_langRange = URIRef(str(RDF) + "langRange")
+
 # Constant for datatypes using min, max (inclusive and exclusive):
 MIN_MAX = 0
 # Constant for datatypes using length, minLength, and maxLength (and nothing else)
@@ -399,7 +402,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
                 self.maxExclusive is None or value < self.maxExclusive
             ):
                 self.maxExclusive = value
-            elif facet == RDF.langRange:
+            elif facet == RDF_langRange:
                 self.langRange.append(value)
             elif facet == XSD.length:
                 self.length = value
-- 
2.43.0


From d4dc3a5142d494dcd57e9d34a882d756c8c89c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:55 +0000
Subject: [PATCH 33/46] fix: facets and container properties that are (partly)
 in a separate destination graph are seen

---
 owlrl/Closure.py     | 18 +++++++++---------
 owlrl/OWLRLExtras.py |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/owlrl/Closure.py b/owlrl/Closure.py
index 9deac78..da533d3 100755
--- a/owlrl/Closure.py
+++ b/owlrl/Closure.py
@@ -122,15 +122,6 @@ class Core:
         if isinstance(self.graph, (Dataset, ConjunctiveGraph)):
             self.graph.default_union = True
 
-        # Collect the 'n' values of the '_n' type predicates that occur (see Horst's paper). These are not necessarily
-        # contiguous, and do not necessarily start with 1
-        self.container_indices = set()
-        for (s, p, o) in graph.triples((None, None, None)):
-            match = re.fullmatch("_([1-9][0-9]*)", p[len(str(RDF)) :]) if p.startswith(str(RDF)) else None
-            if match is not None:
-                self.container_indices.add(int(match.group(1)))
-        self.IMaxNum = max(self.container_indices, default=0)
-
         if destination is None:
             if isinstance(graph, (Dataset, ConjunctiveGraph)):
                 self.destination = graph.default_context
@@ -152,6 +143,15 @@ class Core:
                     # the rules also have to see the triples that are only in the destination
                     self.graph = ReadOnlyGraphAggregate([graph, destination])
 
+        # Collect the 'n' values of the '_n' type predicates that occur (see Horst's paper). These are not necessarily
+        # contiguous, and do not necessarily start with 1
+        self.container_indices = set()
+        for (s, p, o) in self.graph.triples((None, None, None)):
+            match = re.fullmatch("_([1-9][0-9]*)", p[len(str(RDF)) :]) if p.startswith(str(RDF)) else None
+            if match is not None:
+                self.container_indices.add(int(match.group(1)))
+        self.IMaxNum = max(self.container_indices, default=0)
+
         self.axioms = axioms
         self.daxioms = daxioms
 
diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 8d73b5a..ae8d978 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -143,7 +143,7 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
             subsumption_list=[OWL.rational],
         )
 
-        self.restricted_datatypes = extract_faceted_datatypes(self, graph)
+        self.restricted_datatypes = extract_faceted_datatypes(self, self.graph)
         for dt in self.restricted_datatypes:
             self.add_new_datatype(
                 dt.datatype,
-- 
2.43.0


From da1fb8ca9a8f4b2326310284febd82e199ddeb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:02 +0000
Subject: [PATCH 34/46] fix: every xsd:length facet of a restricted datatype
 counts, not only the last one

---
 owlrl/RestrictedDatatype.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/owlrl/RestrictedDatatype.py b/owlrl/RestrictedDatatype.py
index 527193c..c275156 100644
--- a/owlrl/RestrictedDatatype.py
+++ b/owlrl/RestrictedDatatype.py
@@ -355,6 +355,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         is around.
     :ivar length: Value for the :code:`xsd:length` facet, initialized to :code:`None` and set to the right value if a facet is
         around.
+    :ivar lengths: Array of the values of all the :code:`xsd:length` facets.
     :ivar pattern: Array of patterns for the :code:`xsd:pattern` facet, initialized to :code:`[]` and set to the right value if a
         facet is around.
     :ivar langRange: Array of language ranges for the :code:`rdf:langRange` facet, initialized to :code:`[]` and set to the right
@@ -381,6 +382,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
         self.minInclusive = None
         self.maxInclusive = None
         self.length = None
+        self.lengths = []
         self.maxLength = None
         self.minLength = None
         self.pattern = []
@@ -406,6 +408,7 @@ class RestrictedDatatype(RestrictedDatatypeCore):
                 self.langRange.append(value)
             elif facet == XSD.length:
                 self.length = value
+                self.lengths.append(value)
             elif facet == XSD.maxLength and (
                 self.maxLength is None or value < self.maxLength
             ):
@@ -547,10 +550,10 @@ class RestrictedDatatype(RestrictedDatatypeCore):
             val = str(value)
         else:
             val = value
-        if self.length is not None:
-            return self.length == len(val)
-        else:
-            return True
+        for length in self.lengths:
+            if length != len(val):
+                return False
+        return True
 
     def _check_pattern(self, value):
         """
-- 
2.43.0


From 27705f16fddd103c79295ab5c18c123c7b43ed86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:46 +0000
Subject: [PATCH 35/46] fix: literals are compared with facets as converted by
 the library, so doubles and PlainLiterals fit

---
 owlrl/OWLRLExtras.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index ae8d978..61ef1aa 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -93,6 +93,19 @@ def _strToRational(v):
         raise ValueError("Invalid Rational literal value %s" % v)
 
 
+def _facet_value(lt):
+    """Value of a literal to be compared with facets. The facet values are converted by :code:`AltXSDToPYTHON`; the
+    literal must be converted the same way for the two to be comparable (RDFLib uses, eg, floats for xsd:double).
+
+    @param lt: the literal
+    @return Python value
+    @raise ValueError: invalid literal
+    """
+    if lt.datatype in AltXSDToPYTHON:
+        return AltXSDToPYTHON[lt.datatype](str(lt))
+    return lt.toPython()
+
+
 #######################################################################################################################
 
 
@@ -174,7 +187,7 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
                 if (lt, RDF.type, base_type) in self.graph:
                     try:
                         # the conversion or the check may go wrong and raise an exception; then simply move on
-                        fits = rt.checkValue(lt.toPython())
+                        fits = rt.checkValue(_facet_value(lt))
                     except Exception:
                         continue
                     if fits:
@@ -203,7 +216,7 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
                 if rt.datatype == t:
                     # bingo
                     if isinstance(v, rdflib.Literal):
-                        return rt.checkValue(v.toPython())
+                        return rt.checkValue(_facet_value(v))
                     else:
                         return True
             # if we got here, no restriction applies
-- 
2.43.0


From 8bfde8ded43e36ee233b35112f759b73e9e0d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:17 +0000
Subject: [PATCH 36/46] fix: web service: the error page crashed, cgi.escape no
 longer exists

---
 scripts/RDFConvertService | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/RDFConvertService b/scripts/RDFConvertService
index 1e6ca66..858e1c0 100755
--- a/scripts/RDFConvertService
+++ b/scripts/RDFConvertService
@@ -17,6 +17,7 @@ import os
 import sys
 import cgi
 import cgitb
+import html
 # prevent accidentally importing `scripts/owlrl` file when calling
 # `from owlrl import ...` below.
 HERE_DIR = os.path.abspath(os.path.dirname(__file__))
@@ -97,9 +98,9 @@ class Options:
         if len(self.sources) == 0:
             print("none")
         elif len(self.sources) == 1:
-            print(cgi.escape(self.sources[0]))
+            print(html.escape(self.sources[0]))
         else:
-            print(cgi.escape(self.sources[0]), ", ", cgi.escape(self.sources[1]))
+            print(html.escape(self.sources[0]), ", ", html.escape(self.sources[1]))
         print('</dd>')
         
         print('<dt>Input format:</dt>')
@@ -114,7 +115,7 @@ class Options:
             print('<dt>Turtle code added to the graph:</dt>')
         print('<dl>')
         if self.text is not None:
-            print(cgi.escape(self.text).replace('\n', '<br/>'))
+            print(html.escape(self.text).replace('\n', '<br/>'))
 
 # ---------------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From b97ec7f6a49ab1ffa5c7d5d5b9028ac9c96758f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:38 +0000
Subject: [PATCH 37/46] fix: web service: request fields and messages went into
 the error page as markup

---
 scripts/RDFConvertService | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/scripts/RDFConvertService b/scripts/RDFConvertService
index 858e1c0..c158c16 100755
--- a/scripts/RDFConvertService
+++ b/scripts/RDFConvertService
@@ -104,13 +104,13 @@ class Options:
         print('</dd>')
         
         print('<dt>Input format:</dt>')
-        print('<dd>%s</dd>' % self.iformat)
-        print('<dt>Output format:</dt><dd>%s</dd>' % self.format)
-        print('<dt>OWL 2 RL Processing:</dt><dd>%s</dd>' % self.owlClosure)
-        print('<dt>RDFS Processing:</dt><dd>%s</dd>' % self.rdfsClosure)
-        print('<dt>Extra OWL Processing:</dt><dd>%s</dd>' % self.owlExtras)
-        print('<dt>Axiomatic triples added:</dt><dd>%s</dd>' % self.axioms)
-        print('<dt>Datatype Axiomatic triples added:</dt><dd>%s</dd>' % self.daxioms)
+        print('<dd>%s</dd>' % html.escape(self.iformat))
+        print('<dt>Output format:</dt><dd>%s</dd>' % html.escape(self.format))
+        print('<dt>OWL 2 RL Processing:</dt><dd>%s</dd>' % html.escape(self.owlClosure))
+        print('<dt>RDFS Processing:</dt><dd>%s</dd>' % html.escape(self.rdfsClosure))
+        print('<dt>Extra OWL Processing:</dt><dd>%s</dd>' % html.escape(self.owlExtras))
+        print('<dt>Axiomatic triples added:</dt><dd>%s</dd>' % html.escape(self.axioms))
+        print('<dt>Datatype Axiomatic triples added:</dt><dd>%s</dd>' % html.escape(self.daxioms))
         if self.text is not None:
             print('<dt>Turtle code added to the graph:</dt>')
         print('<dl>')
@@ -140,7 +140,7 @@ except:
     print("<title>Error in RDF Closure processing</title>")
     print("</head><body>")
     print("<h1>Error in RDF Closure processing:</h1>")
-    print("<pre>%s</pre>" % value)
+    print("<pre>%s</pre>" % html.escape(str(value)))
     print("<h1>For reference, the input arguments were:</h1>")
     options.to_html()
     print("</body>")
-- 
2.43.0


From 44c0432d3fe54bce42a8ca221b830a6eb45767ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:54 +0000
Subject: [PATCH 38/46] fix: web service: JSON-LD and Turtle were served as
 RDF/XML for formats other than turtle

---
 scripts/RDFConvertService | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scripts/RDFConvertService b/scripts/RDFConvertService
index c158c16..8c3d56e 100755
--- a/scripts/RDFConvertService
+++ b/scripts/RDFConvertService
@@ -35,7 +35,7 @@ if 'owlrl' in parent_dir_list:
 __version__ = "4.0"
 cgitb.enable()
 form = cgi.FieldStorage()
-from owlrl import convert_graph, RDFXML, TURTLE, AUTO
+from owlrl import convert_graph, RDFXML, TURTLE, JSON, AUTO
 
 # ---------------------------------------------------------------------------------------------------------------------
 
@@ -124,10 +124,12 @@ options = Options(form)
 
 try:
     retval = convert_graph(options)
-    if options.format == TURTLE:
-        print('Content-Type: text/turtle; charset=utf-8')
-    else:
+    if options.format in ("rdfxml", RDFXML):
         print('Content-Type: application/rdf+xml; charset=utf-8')
+    elif options.format == JSON:
+        print('Content-Type: application/ld+json; charset=utf-8')
+    else:
+        print('Content-Type: text/turtle; charset=utf-8')
     print()
     print(retval)
 except:
-- 
2.43.0


From 9a6b42ee59c218ce3f1cf0e997ab56145e983d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:01 +0000
Subject: [PATCH 39/46] fix: web service: a form field given twice crashed the
 service

---
 scripts/RDFConvertService | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/scripts/RDFConvertService b/scripts/RDFConvertService
index 8c3d56e..3c8d2f3 100755
--- a/scripts/RDFConvertService
+++ b/scripts/RDFConvertService
@@ -53,20 +53,20 @@ class Options:
         self.format = TURTLE
 
         if "source_1" in list(frm.keys()):
-            self.sources.append(frm["source_1"].value)
+            self.sources.append(frm.getfirst("source_1"))
         if "source_2" in list(frm.keys()):
-            self.sources.append(frm["source_2"].value)
+            self.sources.append(frm.getfirst("source_2"))
         
         if "text" in list(frm.keys()):
-            self.text = frm["text"].value
+            self.text = frm.getfirst("text")
         if "format" in list(frm.keys()):
-            self.format = frm["format"].value
+            self.format = frm.getfirst("format")
         if "iformat" in list(frm.keys()):
-            v = frm["iformat"].value
+            v = frm.getfirst("iformat")
             if v == "xml" or v == "turtle":
                 self.iformat = v
             
-        if "fullClosure" in list(frm.keys()) and frm["fullClosure"].value == "yes":
+        if "fullClosure" in list(frm.keys()) and frm.getfirst("fullClosure") == "yes":
             self.owlClosure = "yes"
             self.rdfsClosure = "yes"
             self.axioms = "no"
@@ -74,21 +74,21 @@ class Options:
             self.owlExtras = "no"
         else:
             if "owlClosure" in list(frm.keys()):
-                self.owlClosure = frm["owlClosure"].value
+                self.owlClosure = frm.getfirst("owlClosure")
             if "rdfsClosure" in list(frm.keys()):
-                self.rdfsClosure = frm["rdfsClosure"].value
+                self.rdfsClosure = frm.getfirst("rdfsClosure")
             if "owlExtras" in list(frm.keys()):
-                self.owlExtras = frm["owlExtras"].value
+                self.owlExtras = frm.getfirst("owlExtras")
             if "axioms" in list(frm.keys()):
-                self.axioms = frm["axioms"].value
+                self.axioms = frm.getfirst("axioms")
             if "daxioms" in list(frm.keys()):
-                self.daxioms = frm["daxioms"].value
+                self.daxioms = frm.getfirst("daxioms")
 
         # this one is for backward compatibility...
         if "uri" in list(frm.keys()):
-            self.sources.append(frm["uri"].value)
+            self.sources.append(frm.getfirst("uri"))
         if "source" in list(frm.keys()):
-            self.sources.append(frm["source"].value)
+            self.sources.append(frm.getfirst("source"))
         
     def to_html(self):
         print('<dl>')
-- 
2.43.0


From 4709abe2ba594418ef55c8958f6da5e784fe398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:36 +0000
Subject: [PATCH 40/46] fix: do not copy what the source asserts into a
 separate destination

The axioms and the triples of the RDFS rule on literals of equal value were written
without looking whether the source has them already, unlike everything else.
---
 owlrl/OWLRL.py       |  4 ++--
 owlrl/OWLRLExtras.py |  2 +-
 owlrl/RDFSClosure.py | 16 ++++++++--------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/owlrl/OWLRL.py b/owlrl/OWLRL.py
index e1888cf..7e8db10 100755
--- a/owlrl/OWLRL.py
+++ b/owlrl/OWLRL.py
@@ -143,14 +143,14 @@ class OWLRL_Semantics(Core):
         Add axioms
         """
         for t in OWLRL_Axiomatic_Triples:
-            self.destination.add(t)
+            self.store_triple(t)
 
     def add_d_axioms(self):
         """
         Add the datatype axioms
         """
         for t in OWLRL_D_Axiomatic_Triples:
-            self.destination.add(t)
+            self.store_triple(t)
 
     def restriction_typing_check(self, v, t):
         """
diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 61ef1aa..12d1210 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -243,7 +243,7 @@ class OWLRL_Extension(RDFS_OWLRL_Semantics):
         """
         RDFS_OWLRL_Semantics.add_axioms(self)
         for t in self.extra_axioms:
-            self.destination.add(t)
+            self.store_triple(t)
 
     def rules(self, t, cycle_num):
         """
diff --git a/owlrl/RDFSClosure.py b/owlrl/RDFSClosure.py
index 240b0d1..c169e53 100755
--- a/owlrl/RDFSClosure.py
+++ b/owlrl/RDFSClosure.py
@@ -89,13 +89,13 @@ class RDFS_Semantics(Core):
         Add axioms
         """
         for t in RDFS_Axiomatic_Triples:
-            self.destination.add(t)
+            self.store_triple(t)
         for i in sorted(self.container_indices):
             ci = RDF[("_%d" % i)]
-            self.destination.add((ci, RDF.type, RDF.Property))
-            self.destination.add((ci, RDFS.domain, RDFS.Resource))
-            self.destination.add((ci, RDFS.range, RDFS.Resource))
-            self.destination.add((ci, RDF.type, RDFS.ContainerMembershipProperty))
+            self.store_triple((ci, RDF.type, RDF.Property))
+            self.store_triple((ci, RDFS.domain, RDFS.Resource))
+            self.store_triple((ci, RDFS.range, RDFS.Resource))
+            self.store_triple((ci, RDF.type, RDFS.ContainerMembershipProperty))
 
     def add_d_axioms(self):
         """
@@ -104,10 +104,10 @@ class RDFS_Semantics(Core):
         # #1
         literals = (lt for lt in self._literals() if lt.datatype is not None)
         for lt in literals:
-            self.destination.add((lt, RDF.type, lt.datatype))
+            self.store_triple((lt, RDF.type, lt.datatype))
 
         for t in RDFS_D_Axiomatic_Triples:
-            self.destination.add(t)
+            self.store_triple(t)
 
     @staticmethod
     def _literals_same_as(lt1, lt2):
@@ -147,7 +147,7 @@ class RDFS_Semantics(Core):
             # effect. In RDFS this is not possible, so the sameAs rule is,
             # essentially replicated...
             for (s, p, o) in self.graph.triples((None, None, lt1)):
-                self.destination.add((s, p, lt2))
+                self.store_triple((s, p, lt2))
 
     def rules(self, t, cycle_num):
         """
-- 
2.43.0


From fc0c408c49f5961177758a4b15f095f67a228645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:28 +0000
Subject: [PATCH 41/46] fix: numbers with underscores or other digits, decimal
 NaN/INF, were taken as well-typed

---
 owlrl/DatatypeHandling.py | 55 +++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 8036b59..8eed943 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -115,6 +115,29 @@ def _strToBool(v):
         raise ValueError("Invalid boolean literal value %s" % v)
 
 
+# Numbers, in general ########################################
+# noinspection PyPep8Naming
+def _is_numeral(v):
+    """The Python conversions to a number are too lax: they accept "_" among the digits, the digits of any other script,
+    and (for decimals) several forms of "NaN" and "Infinity". None of these is allowed in XSD.
+    @param v: the literal string defined as a number
+    @return whether the string uses no other characters than those of the XSD numbers
+    """
+    return re.match(r"[-+.0-9Ee\s]*$", v) is not None
+
+
+# noinspection PyPep8Naming
+def _strToInteger(v):
+    """The built in conversion to an integer, without what XSD does not allow for.
+    @param v: the literal string defined as an integer
+    @return int
+    @raise ValueError: invalid integer value
+    """
+    if not _is_numeral(v):
+        raise ValueError("Invalid integer literal value %s" % v)
+    return int(v)
+
+
 # Decimals ##################################################
 # noinspection PyPep8Naming
 def _strToDecimal(v):
@@ -127,7 +150,7 @@ def _strToDecimal(v):
     @raise ValueError: invalid decimal value
     """
     # check whether the lexical form of 'v' is o.k.
-    if v.find("E") != -1 or v.find("e") != -1:
+    if v.find("E") != -1 or v.find("e") != -1 or not _is_numeral(v):
         # this is an invalid lexical form, though would be accepted by Python
         raise ValueError("Invalid decimal literal value %s" % v)
     else:
@@ -284,6 +307,8 @@ def _strToDouble(v):
     @raise ValueError: invalid value
     """
     try:
+        if v not in _special_floats and not _is_numeral(v):
+            raise ValueError("Invalid number %s" % v)
         value = Decimal(v)
         upper = Decimal("1.0E+310")
         lower = Decimal("1.0E-330")
@@ -307,6 +332,8 @@ def _strToFloat(v):
     @raise ValueError: invalid value
     """
     try:
+        if v not in _special_floats and not _is_numeral(v):
+            raise ValueError("Invalid number %s" % v)
         value = Decimal(v)
         upper = Decimal("1.0E+40")
         lower = Decimal("1.0E-50")
@@ -660,27 +687,27 @@ AltXSDToPYTHON = {
     XSD.base64Binary: _strToBase64Binary,
     XSD.double: _strToDouble,
     XSD.float: _strToFloat,
-    XSD.byte: lambda v: _strToBoundNumeral(v, _limits_byte, int),
-    XSD.int: lambda v: _strToBoundNumeral(v, _limits_int, int),
-    XSD.long: lambda v: _strToBoundNumeral(v, _limits_long, int),
-    XSD.positiveInteger: lambda v: _strToBoundNumeral(v, _limits_positiveInteger, int),
+    XSD.byte: lambda v: _strToBoundNumeral(v, _limits_byte, _strToInteger),
+    XSD.int: lambda v: _strToBoundNumeral(v, _limits_int, _strToInteger),
+    XSD.long: lambda v: _strToBoundNumeral(v, _limits_long, _strToInteger),
+    XSD.positiveInteger: lambda v: _strToBoundNumeral(v, _limits_positiveInteger, _strToInteger),
     XSD.nonPositiveInteger: lambda v: _strToBoundNumeral(
-        v, _limits_nonPositiveInteger, int
+        v, _limits_nonPositiveInteger, _strToInteger
     ),
-    XSD.negativeInteger: lambda v: _strToBoundNumeral(v, _limits_negativeInteger, int),
+    XSD.negativeInteger: lambda v: _strToBoundNumeral(v, _limits_negativeInteger, _strToInteger),
     XSD.nonNegativeInteger: lambda v: _strToBoundNumeral(
-        v, _limits_nonNegativeInteger, int
+        v, _limits_nonNegativeInteger, _strToInteger
     ),
-    XSD.short: lambda v: _strToBoundNumeral(v, _limits_short, int),
-    XSD.unsignedByte: lambda v: _strToBoundNumeral(v, _limits_unsignedByte, int),
-    XSD.unsignedShort: lambda v: _strToBoundNumeral(v, _limits_unsignedShort, int),
-    XSD.unsignedInt: lambda v: _strToBoundNumeral(v, _limits_unsignedInt, int),
-    XSD.unsignedLong: lambda v: _strToBoundNumeral(v, _limits_unsignedLong, int),
+    XSD.short: lambda v: _strToBoundNumeral(v, _limits_short, _strToInteger),
+    XSD.unsignedByte: lambda v: _strToBoundNumeral(v, _limits_unsignedByte, _strToInteger),
+    XSD.unsignedShort: lambda v: _strToBoundNumeral(v, _limits_unsignedShort, _strToInteger),
+    XSD.unsignedInt: lambda v: _strToBoundNumeral(v, _limits_unsignedInt, _strToInteger),
+    XSD.unsignedLong: lambda v: _strToBoundNumeral(v, _limits_unsignedLong, _strToInteger),
     XSD.hexBinary: _strToHexBinary,
     XSD.dateTime: lambda v: _strToDateTimeAndStamp(v, False),
     XSD.dateTimeStamp: lambda v: _strToDateTimeAndStamp(v, True),
     RDF.XMLLiteral: _strToXMLLiteral,
-    XSD.integer: int,
+    XSD.integer: _strToInteger,
     XSD.string: lambda v: v,
     RDF.HTML: lambda v: v,
     XSD.normalizedString: lambda v: _strToVal_Regexp(v, _re_token),
-- 
2.43.0


From 33ee48303f32f11ec6b30336c570bc760d46a3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:30 +0000
Subject: [PATCH 42/46] fix: booleans in upper case were taken as well-typed

---
 owlrl/DatatypeHandling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 8eed943..7c98cc6 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -107,9 +107,9 @@ def _strToBool(v):
     @return corresponding boolean value
     @raise ValueError: invalid boolean values
     """
-    if v.lower() == "true" or v.lower() == "1":
+    if v == "true" or v == "1":
         return True
-    elif v.lower() == "false" or v.lower() == "0":
+    elif v == "false" or v == "0":
         return False
     else:
         raise ValueError("Invalid boolean literal value %s" % v)
-- 
2.43.0


From 75efd751cbaa3ac396de2a55384108e47e16e691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:57 +0000
Subject: [PATCH 43/46] fix: well-typed empty base64Binary and
 normalizedString, multi-line PlainLiteral and XMLLiteral content were
 reported as ill-typed

---
 owlrl/DatatypeHandling.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 7c98cc6..b78d8b8 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -213,6 +213,9 @@ def _strToBase64Binary(v):
     """
     import base64
 
+    if len(v) == 0:
+        # no content at all is fine
+        return b""
     if v.replace("=", "x").replace("+", "y").replace("/", "z").isalnum():
         try:
             return base64.standard_b64decode(v)
@@ -565,13 +568,14 @@ def _strTogMonth(v):
 def _strToXMLLiteral(v):
     """Test (and convert) XML Literal values.
     @param v: the literal string defined as an xml literal
-    @return the canonical version of the same xml text
+    @return the canonical version of the same xml text (wrapped into an element)
     @raise ValueError: incorrect xml string
     """
     import xml.dom.minidom
 
     try:
-        dom = xml.dom.minidom.parseString(v)
+        # the literal is the content of an element: text, or several elements, are also all right
+        dom = xml.dom.minidom.parseString("<content>%s</content>" % v)
         return dom.toxml()
     except:
         raise ValueError("Invalid XML Literal %s" % v)
@@ -623,6 +627,18 @@ def _strToVal_Regexp(v, regexp, flag=0, excludeStart=[]):
 _re_token = "[^\n\t\r]+"
 
 
+# noinspection PyPep8Naming
+def _strToNormalizedString(v):
+    """Test (and convert) a string to a normalized string.
+    @param v: the literal string to be converted
+    @return original string
+    @raise ValueError: invalid value
+    """
+    if len(v) == 0:
+        return v
+    return _strToVal_Regexp(v, _re_token)
+
+
 # noinspection PyPep8Naming
 def _strToToken(v):
     """Test (and convert) a string to a token.
@@ -653,7 +669,7 @@ def _strToPlainLiteral(v):
     """
     reg = "(.*)@([^@]*)"
     # a plain literal must match this regexp!
-    match = re.match(reg, v)
+    match = re.match(reg, v, re.S)
     if match is None:
         raise ValueError("Invalid plain literal %s" % v)
     else:
@@ -710,7 +726,7 @@ AltXSDToPYTHON = {
     XSD.integer: _strToInteger,
     XSD.string: lambda v: v,
     RDF.HTML: lambda v: v,
-    XSD.normalizedString: lambda v: _strToVal_Regexp(v, _re_token),
+    XSD.normalizedString: _strToNormalizedString,
     # These are RDFS specific...
     XSD.time: _strToTime,
     XSD.date: _strToDate,
-- 
2.43.0


From 0d49778c94a35a33c604c3d53ea0b3eaeafb1688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:18 +0000
Subject: [PATCH 44/46] fix: dates and times with missing digits or an
 impossible time zone were taken as well-typed

---
 owlrl/DatatypeHandling.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index b78d8b8..8b8e1a3 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -74,6 +74,23 @@ class _namelessTZ(datetime.tzinfo):
         return datetime.timedelta(0)
 
 
+# the lexical forms of the date and time datatypes: the Python conversions also accept, e.g., "2001-1-1"
+_re_timezone = r"(Z|[+-](0[0-9]|1[0-3]):[0-5][0-9]|[+-]14:00)?$"
+_re_date = r"[0-9]{4}-[0-9]{2}-[0-9]{2}"
+_re_time = r"[0-9]{2}:[0-9]{2}:[0-9]{2}(\.[0-9]+)?"
+
+
+# noinspection PyPep8Naming
+def _checkLexicalForm(v, regexp):
+    """Check a date and/or time against the lexical form prescribed by XSD.
+    @param v: the literal string defined as the date and/or time
+    @param regexp: the regular expression of the date and/or time, without the time zone
+    @raise ValueError: invalid lexical form
+    """
+    if re.match(regexp + _re_timezone, v) is None:
+        raise ValueError("Invalid date or time %s" % v)
+
+
 # noinspection PyPep8Naming
 def _returnTimeZone(incoming_v):
     """Almost all time/date related methods require the extraction of optional time zone information.
@@ -379,6 +396,7 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
     @raise ValueError: invalid datetime or date timestamp
     """
 
+    _checkLexicalForm(incoming_v, _re_date + "T" + _re_time)
     # First, handle the timezone portion, if there is any
     (v, tzone) = _returnTimeZone(incoming_v)
 
@@ -438,6 +456,7 @@ def _strToTime(incoming_v):
     @raise ValueError: invalid datetime or date timestamp
     """
 
+    _checkLexicalForm(incoming_v, _re_time)
     # First, handle the timezone portion, if there is any
     (v, tzone) = _returnTimeZone(incoming_v)
 
@@ -478,6 +497,7 @@ def _strToDate(incoming_v):
     @raise ValueError: invalid datetime or date timestamp
     """
 
+    _checkLexicalForm(incoming_v, _re_date)
     # First, handle the timezone portion, if there is any
     (final_v, tzone) = _returnTimeZone(incoming_v)
 
-- 
2.43.0


From 35370cccc9ea14ea3786bdc7f1a367674ce28f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:20 +0000
Subject: [PATCH 45/46] fix: the end of a day (24:00:00) was reported as
 ill-typed

---
 owlrl/DatatypeHandling.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/owlrl/DatatypeHandling.py b/owlrl/DatatypeHandling.py
index 8b8e1a3..59f6a4d 100755
--- a/owlrl/DatatypeHandling.py
+++ b/owlrl/DatatypeHandling.py
@@ -421,6 +421,10 @@ def _strToDateTimeAndStamp(incoming_v, timezone_required=False):
     # By now, the pattern should be clear
     # This may raise an exception...
     try:
+        if final_v.endswith("T24:00:00") and milliseconds == 0:
+            # the end of a day is the beginning of the next one
+            day = datetime.datetime.strptime(final_v[:-9], "%Y-%m-%d")
+            return (day + datetime.timedelta(days=1)).replace(tzinfo=tzone)
         tstr = time.strptime(final_v, "%Y-%m-%dT%H:%M:%S")
         if tzone is not None:
             return datetime.datetime(
@@ -477,6 +481,9 @@ def _strToTime(incoming_v):
     # By now, the pattern should be clear
     # This may raise an exception...
     try:
+        if final_v == "24:00:00" and milliseconds == 0:
+            # the end of a day is the beginning of the next one
+            final_v = "00:00:00"
         tstr = time.strptime(final_v, "%H:%M:%S")
         if tzone is not None:
             return datetime.time(
-- 
2.43.0


From cb19499092c6794c456985961594bfb81abef118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:43 +0000
Subject: [PATCH 46/46] fix: an owl:rational literal has at most one
 denominator

---
 owlrl/OWLRLExtras.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/owlrl/OWLRLExtras.py b/owlrl/OWLRLExtras.py
index 12d1210..5614010 100755
--- a/owlrl/OWLRLExtras.py
+++ b/owlrl/OWLRLExtras.py
@@ -76,7 +76,9 @@ def _strToRational(v):
     """
     try:
         r = v.split("/")
-        if len(r) == 2:
+        if len(r) > 2:
+            raise ValueError("Invalid Rational literal value %s" % v)
+        elif len(r) == 2:
             n_str = r[0]
             d_str = r[1]
         else:
-- 
2.43.0

