From 89f032a35bcb50e41a9c44f5531e597dc6f68e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:21 +0000
Subject: [PATCH 01/45] fix: citing a label that is not a bibliography item no
 longer crashes

---
 rsm/transformer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index eee8528..a1cb1fb 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -178,6 +178,13 @@ class Transformer:
             logger.warning(f'Reference to nonexistent label "{label}"')
             return default(f'[unknown label "{label}"]')
 
+    def _label_to_bibitem(self, label: str) -> nodes.Bibitem:
+        target = self._label_to_node(label, nodes.UnknownBibitem)
+        if not isinstance(target, nodes.Bibitem):
+            logger.warning(f'Label "{label}" cited, but it is not a bibliography item')
+            return nodes.UnknownBibitem(f'[not a bibliography item "{label}"]')
+        return target
+
     def resolve_pending_references(self) -> None:
         classes = [
             nodes.PendingReference,
@@ -200,8 +207,7 @@ class Transformer:
                     )
             elif isinstance(pending, nodes.PendingCite):
                 targets = [
-                    self._label_to_node(label, nodes.UnknownBibitem)
-                    for label in pending.targetlabels
+                    self._label_to_bibitem(label) for label in pending.targetlabels
                 ]
                 cite = nodes.Cite(targets=targets)
                 cite.label = f"cite-{next(counter)}"
-- 
2.43.0


From 653445de5a8eaccdbe2a587db5f7167f61d45cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:40 +0000
Subject: [PATCH 02/45] fix: a bibliography item with no year no longer crashes
 the translator

---
 rsm/translator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index e487f5d..fedb14c 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1042,8 +1042,8 @@ class Translator:
                 items.append(node.publisher)
             else:
                 logger.warning(f"Bibitem {node.label} has no publisher")
-        if node.year:
-            items.append(node.year)
+        if node.year and node.year != -1:  # -1 is the default, i.e. not given
+            items.append(str(node.year))
         else:
             logger.warning(f"Bibitem {node.label} has no year")
         text = ". ".join([i.strip(".") for i in items]) + "."
-- 
2.43.0


From 5a96865886ef9849362fc0956e03ef0ce6843b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:32 +0000
Subject: [PATCH 03/45] fix: math blocks outside paragraphs, and several math
 blocks in one paragraph, yield balanced HTML

---
 rsm/translator.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index fedb14c..01316ab 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -767,14 +767,20 @@ class Translator:
             ]
         )
 
+    @staticmethod
+    def _is_inside_p_tag(node: nodes.MathBlock) -> bool:
+        # Only Paragraph nodes leave a <p> tag open for their mathblocks to close, see
+        # visit_paragraph().  Other kinds of parents (steps, items, theorems, etc) have
+        # their own visit methods, which do not.
+        return type(node.parent) is nodes.Paragraph
+
     def visit_mathblock(self, node: nodes.MathBlock) -> EditCommand:
-        assert isinstance(node.parent, nodes.Paragraph)
         return AppendBatchAndDefer(
             [
                 # A paragraph that contains a mathblock cannot _start_ with a mathblock,
                 # so this mathblock must always contain some previous siblings that must
                 # be enclosed in <p> tags.  (See comment in visit_paragraph().)
-                AppendText("</p>"),
+                AppendText("</p>" if self._is_inside_p_tag(node) else ""),
                 # This is the actual tag corresponding to the mathblock.
                 AppendNodeTag(node, "div"),
                 # The contents of a mathblock must be enclosed in '$$' and '$$' due to
@@ -787,14 +793,15 @@ class Translator:
         # See also the comment in visit_paragraph().
         batch = self.leave_node(node)
 
-        # The paragraph-specific logic only applies when the parent is a BaseParagraph
+        # The paragraph-specific logic only applies when the parent is a Paragraph
         # With grammar changes, MathBlocks can now have other types of parents
-        if not isinstance(node.parent, nodes.BaseParagraph):
+        if not self._is_inside_p_tag(node):
             return batch
 
         # In case this mathblock is the last child of the paragraph, there is nothing
         # special to do since visit_mathblock() already handled the remaining </p> tag.
         if not node.next_sibling():
+            node.parent._must_close_p_tag = False
             return batch
 
         # If there are more children, we need to close this mathblock, start a new <p>
@@ -1822,7 +1829,7 @@ class HandrailsTranslator(Translator):
             collapse_in_hr=False,
             menu_label="Equation" if node.nonum else node.long_reftext,
         )
-        batch.items.insert(0, AppendText("</p>"))
+        batch.items.insert(0, AppendText("</p>" if self._is_inside_p_tag(node) else ""))
         batch.items.append(AppendTextAndDefer("$$\n", "\n$$"))
         batch.items[1].classes += ["hr-hidden", "hr-offset"]
         return batch
-- 
2.43.0


From 100a3023c66beea1e75b5dbe5c9c1c9ba8e711f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:40 +0000
Subject: [PATCH 04/45] fix: rsm.make() honours handrails, lint and log_lineno

---
 rsm/app.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rsm/app.py b/rsm/app.py
index 19c3bee..2d99ec3 100644
--- a/rsm/app.py
+++ b/rsm/app.py
@@ -242,7 +242,14 @@ class FullBuildApp(ProcessorApp):
         run_linter: bool = False,
     ):
         super().__init__(
-            srcpath, plain, loglevel, log_format, log_time, handrails, run_linter
+            srcpath,
+            plain,
+            loglevel,
+            log_format,
+            log_time,
+            log_lineno,
+            handrails=handrails,
+            run_linter=run_linter,
         )
         self.add_task(Task("builder", b := builder.FullBuilder(), b.build))
         self.add_task(Task("writer", w := writer.Writer(), w.write))
@@ -302,6 +309,7 @@ def make(
     return FullBuildApp(
         srcpath=path,
         plain=source,
+        handrails=handrails,
         run_linter=lint,
         loglevel=loglevel,
         log_format=log_format,
-- 
2.43.0


From 1cad588f5a8c800bfc1b01bb307636f3969c409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:46 +0000
Subject: [PATCH 05/45] fix: Writer writes to its dstpath

---
 rsm/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/writer.py b/rsm/writer.py
index 6b53ff3..10ca200 100644
--- a/rsm/writer.py
+++ b/rsm/writer.py
@@ -20,4 +20,4 @@ class Writer:
 
     def write(self, web: WebManuscript) -> None:
         self.web = web
-        copy_fs(web, "./")
+        copy_fs(web, str(self.dstpath))
-- 
2.43.0


From 31ff4d19f2ea8743ffe8987397b710f67fed8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 06/45] fix: only sections are lettered after :appendix:, and
 there may be more than 26 of them

---
 rsm/transformer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index a1cb1fb..da71a7b 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -26,7 +26,7 @@ place is of utmost importance.
 
 import logging
 from collections import defaultdict
-from itertools import count
+from itertools import count, product
 from string import ascii_uppercase
 from typing import Generator, Optional, Type
 
@@ -282,7 +282,7 @@ class Transformer:
         within_appendix = False
         for node in self.tree.traverse():
             if isinstance(node, nodes.Appendix):
-                counts[nodes.Manuscript] = defaultdict(lambda: iter(ascii_uppercase))
+                counts[nodes.Manuscript][nodes.Section] = self._appendix_letters()
                 within_appendix = True
                 continue
             if isinstance(node, (nodes.Proof, nodes.Subproof)):
@@ -300,6 +300,13 @@ class Transformer:
                         "{nodeclass}", "Appendix"
                     )
 
+    @staticmethod
+    def _appendix_letters() -> Generator[str, None, None]:
+        """Yield A, B, ..., Z, AA, AB, ..."""
+        for length in count(start=1):
+            for letters in product(ascii_uppercase, repeat=length):
+                yield "".join(letters)
+
     def _autonumber_steps(self, proof: nodes.Proof) -> None:
         step_gen = (s for s in proof.children if isinstance(s, nodes.Step))
         for idx, step in enumerate(step_gen, start=1):
-- 
2.43.0


From 89fc6b76bee8b8504f7b5810955272544967aa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:37 +0000
Subject: [PATCH 07/45] fix: handrail_depth counts each ancestor once, whatever
 its base classes

---
 rsm/transformer.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index da71a7b..e172ca7 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -363,14 +363,9 @@ class Transformer:
                 construct.types.append("assumption")
 
     def add_handrail_depth(self) -> None:
-        for nc in nodes.all_node_subtypes():
-            if nc.has_handrail:
-                self._add_handrail_depth_for_class(nc)
-
-    def _add_handrail_depth_for_class(self, nodeclass) -> None:
-        for node in self.tree.traverse(nodeclass=nodeclass):
+        for node in self.tree.traverse(condition=lambda n: n.has_handrail):
             for desc in node.traverse():
-                if desc == node:
+                if desc is node:
                     continue
                 desc.handrail_depth += 1
 
-- 
2.43.0


From 44e1356d5575a388f2c1c7d227a68175d343a3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 08/45] fix: append, prepend and replace_self leave the tree
 consistent when they raise

---
 rsm/nodes.py | 51 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 669f1ae..b49c07e 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -389,17 +389,16 @@ class Node:
 
     @parent.setter
     def parent(self, node: Optional["NodeWithChildren"]) -> None:
-        if node is None:
-            self._parent = None
-        elif not self.__class__.possible_parents:
-            self._parent = node
-        else:
-            possible_parents = self.__class__.possible_parents
-            if possible_parents and type(node) not in possible_parents:
-                raise RSMNodeError(
-                    f"Node of type {type(self)} cannot have parent of type {type(node)}"
-                )
-            self._parent = node
+        if node is not None:
+            self._validate_parent(node)
+        self._parent = node
+
+    def _validate_parent(self, node: "NodeWithChildren") -> None:
+        possible_parents = self.__class__.possible_parents
+        if possible_parents and type(node) not in possible_parents:
+            raise RSMNodeError(
+                f"Node of type {type(self)} cannot have parent of type {type(node)}"
+            )
 
     @property
     def children(self) -> tuple:
@@ -808,17 +807,21 @@ class Node:
         """
         if not self.parent:
             raise RSMNodeError("Can only call replace_self on a node with parent")
-        ids = [id(c) for c in self.parent.children]
-        index = ids.index(id(self))
         parent = self.parent
-        self.parent.remove(self)
-        if not isinstance(replacement, Node):
-            for idx, rep in enumerate(replacement):
-                parent._children.insert(index + idx, rep)
-                rep.parent = parent
-        else:
-            parent._children.insert(index, replacement)
-            replacement.parent = parent
+        replacements = (
+            [replacement] if isinstance(replacement, Node) else list(replacement)
+        )
+        # Check everything before modifying the tree
+        for rep in replacements:
+            if rep.parent is not None and rep is not self:
+                raise RSMNodeError("Attempting to replace with a node with a parent")
+            rep._validate_parent(parent)
+        ids = [id(c) for c in parent.children]
+        index = ids.index(id(self))
+        parent.remove(self)
+        for idx, rep in enumerate(replacements):
+            parent._children.insert(index + idx, rep)
+            rep.parent = parent
 
     def remove_self(self) -> None:
         """Remove this Node from its parent's children.
@@ -940,8 +943,8 @@ class NodeWithChildren(Node):
         elif isinstance(child, Node):
             if child.parent:
                 raise RSMNodeError("Attempting to append child to a new parent")
+            child.parent = self  # may raise, so do this before modifying self
             self._children.append(child)
-            child.parent = self
         else:
             raise TypeError("Can only append a Node or iterable of Nodes as children")
         return self
@@ -962,8 +965,10 @@ class NodeWithChildren(Node):
         elif isinstance(child, Node):
             if child.parent and child.parent is not self:
                 raise RSMNodeError("Attempting to prepend child to a different parent")
+            if child.parent is self:
+                self.remove(child)
+            child.parent = self  # may raise, so do this before modifying self
             self._children.insert(0, child)
-            child.parent = self
         else:
             raise TypeError("Can only prepend a Node or iterable of Nodes as children")
         return self
-- 
2.43.0


From c7218f918c8a7a62e5277f4dec310afac28f3b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:51 +0000
Subject: [PATCH 09/45] fix: translating with handrails does not modify the
 manuscript's text

---
 rsm/translator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 01316ab..f538708 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1803,7 +1803,8 @@ class HandrailsTranslator(Translator):
         # that starts with a dot "."; in this case, the math and the dot may be
         # separated if the browser's viewport is too narrow, which looks ugly.  The only
         # way to fix it is to wrap the math and the dot in a span, and remove the dot
-        # from the subsequent text.  The span is then dealt with using CSS.
+        # from the subsequent text (see visit_text).  The span is then dealt with using
+        # CSS.
         node._followed_by_dot = True
         batch.items.insert(
             0,
@@ -1813,9 +1814,14 @@ class HandrailsTranslator(Translator):
                 newline_outer=False,
             ),
         )
-        sib.text = sib.text[1:]
         return batch
 
+    def visit_text(self, node: nodes.Text) -> EditCommand:
+        # See comment in visit_math().
+        if isinstance(node.prev_sibling(), nodes.Math) and node.text.startswith("."):
+            return AppendText(node.text[1:])
+        return super().visit_text(node)
+
     def leave_math(self, node: nodes.Math) -> EditCommand:
         batch = self.leave_node(node)
         if not getattr(node, "_followed_by_dot", False):
-- 
2.43.0


From d022fbf7e1e404e41717087958167173d1b920ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 10/45] fix: a Transformer forgets the labels of the previous
 manuscript

---
 rsm/transformer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index e172ca7..71e4a8e 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -135,6 +135,7 @@ class Transformer:
         """
         logger.info("Transforming...")
         self.tree = tree
+        self.labels_to_nodes = {}
 
         self.collect_labels()
         self.resolve_pending_references()
-- 
2.43.0


From 4c5f5e77874723332bfb90ba1016007708485238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:07 +0000
Subject: [PATCH 11/45] fix: a figure's label is the id of one element only

---
 rsm/translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index f538708..5643006 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1095,7 +1095,7 @@ class Translator:
                 AppendText(
                     _make_tag(
                         "img",
-                        id_=node.label,
+                        id_="",  # the label is the id of the <figure>
                         classes=[],
                         src=node.path,
                         alt=f"{node.__class__.__name__} {node.full_number}.",
-- 
2.43.0


From 5d28e50396a5753bf46f83083fcb37de031b9801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:15 +0000
Subject: [PATCH 12/45] fix: lint records can be formatted in the default
 format, which honours log_lineno

---
 rsm/linter.py    | 2 ++
 rsm/rsmlogger.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsm/linter.py b/rsm/linter.py
index 72be60e..fa9456a 100644
--- a/rsm/linter.py
+++ b/rsm/linter.py
@@ -44,6 +44,8 @@ class Linter:
         return {
             "start_row": node.start_point[0] + 1,
             "start_col": node.start_point[1] + 1,
+            "end_row": node.end_point[0] + 1,
+            "end_col": node.end_point[1] + 1,
         }
 
     def lint_manuscript_title(self) -> None:
diff --git a/rsm/rsmlogger.py b/rsm/rsmlogger.py
index a7a613c..c8b02fd 100644
--- a/rsm/rsmlogger.py
+++ b/rsm/rsmlogger.py
@@ -71,7 +71,7 @@ class RSMFormatter(logging.Formatter):
             + self.COLORS.get(record.levelno, self.grey)
             + self.msgformat
             + (self.point if hasattr(record, "start_row") else "")
-            + self.suffix
+            + (self.suffix if self.log_lineno else "")
         )
         formatter = logging.Formatter(fmt, datefmt="%H:%M:%S")
         return formatter.format(record)
-- 
2.43.0


From 17b59414e49acfc277d28ad2138c3dcf9790160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:25 +0000
Subject: [PATCH 13/45] fix: the space between two consecutive references,
 citations, or URLs is not lost

---
 rsm/tsparser.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 71bd272..be4e22e 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -413,11 +413,25 @@ def _normalize_text(root: TSNode) -> str:
 
         # Finally we handle the space between non-Text children of a paragraph, for
         # example two Spans together, or a Span followed by a Construct.  In all cases,
-        # we simply insert a single space between them.
+        # we simply insert a single space between them.  References, citations, and URLs
+        # may be adjacent on purpose, so these are only spaced if they are in the source.
         classes = [nodes.Span, nodes.Construct, nodes.Math]
+        links = [
+            nodes.PendingReference,
+            nodes.PendingPrev,
+            nodes.PendingCite,
+            nodes.URL,
+        ]
         sibling = node.next_sibling()
         if sibling and type(node) in classes and type(sibling) in classes:
             node.replace_self([node, nodes.Text(" ")])
+        elif (
+            sibling
+            and type(node) in classes + links
+            and type(sibling) in classes + links
+            and node.end_point != sibling.start_point
+        ):
+            node.replace_self([node, nodes.Text(" ")])
 
         # Manage escaped characters.
         if isinstance(node, nodes.Text) and not node.asis:
-- 
2.43.0


From 65187f5f7b606992dcc4cff7a5d6eb404e5b88d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 14/45] fix: a bibliography item with no author or no title
 shows nothing in its place

---
 rsm/translator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 5643006..ac551e2 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1036,7 +1036,8 @@ class Translator:
         )
 
     def visit_bibitem(self, node: nodes.Bibitem) -> EditCommand:
-        items = [node.author, f'"{node.title}"']
+        items = [node.author, f'"{node.title}"' if node.title else ""]
+        items = [item for item in items if item]
         if node.number:
             items.insert(0, f"{node.number}.")
         if node.kind == "article":
-- 
2.43.0


From f3c9df42fb7756cc98899c07007b1f1192a5bdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:14 +0000
Subject: [PATCH 15/45] fix: figures and tables that are not numbered do not
 show 'None' as their number

---
 rsm/translator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index ac551e2..46ae014 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1090,6 +1090,7 @@ class Translator:
         )
 
     def visit_figure(self, node: nodes.Figure) -> EditCommand:
+        number = "" if node.nonum else f" {node.full_number}"
         return AppendBatchAndDefer(
             [
                 AppendNodeTag(node, "figure"),
@@ -1099,7 +1100,7 @@ class Translator:
                         id_="",  # the label is the id of the <figure>
                         classes=[],
                         src=node.path,
-                        alt=f"{node.__class__.__name__} {node.full_number}.",
+                        alt=f"{node.__class__.__name__}{number}.",
                         onload=""
                         if node.scale == 1.0
                         else f"this.width*={node.scale};",
@@ -1110,9 +1111,10 @@ class Translator:
 
     def visit_caption(self, node: nodes.Caption) -> EditCommand:
         parent = node.parent
+        number = "" if parent.nonum else f" {parent.full_number}"
         caption = AppendOpenCloseTag(
             tag="span",
-            content=f"{parent.__class__.__name__} {parent.full_number}. ",
+            content=f"{parent.__class__.__name__}{number}. ",
             classes=["label"],
             newline_inner=False,
             newline_outer=False,
-- 
2.43.0


From 57ae67ea8b0c9d86ae93c9cb6a08ea27d6f18563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:46 +0000
Subject: [PATCH 16/45] fix: appending or prepending a list with a bad node
 changes nothing, and no node is placed inside itself or twice

---
 rsm/nodes.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index b49c07e..5bf6bdb 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -399,6 +399,11 @@ class Node:
             raise RSMNodeError(
                 f"Node of type {type(self)} cannot have parent of type {type(node)}"
             )
+        ancestor: Optional["Node"] = node
+        while ancestor is not None:
+            if ancestor is self:
+                raise RSMNodeError("A node cannot be placed inside itself")
+            ancestor = ancestor.parent
 
     @property
     def children(self) -> tuple:
@@ -812,6 +817,8 @@ class Node:
             [replacement] if isinstance(replacement, Node) else list(replacement)
         )
         # Check everything before modifying the tree
+        if len({id(rep) for rep in replacements}) < len(replacements):
+            raise RSMNodeError("Attempting to replace with the same node twice")
         for rep in replacements:
             if rep.parent is not None and rep is not self:
                 raise RSMNodeError("Attempting to replace with a node with a parent")
@@ -938,8 +945,13 @@ class NodeWithChildren(Node):
 
         """
         if isinstance(child, Iterable):
-            for c in child:
-                self.append(c)
+            original = list(self._children)
+            try:
+                for c in child:
+                    self.append(c)
+            except Exception:
+                self._restore(original)
+                raise
         elif isinstance(child, Node):
             if child.parent:
                 raise RSMNodeError("Attempting to append child to a new parent")
@@ -960,8 +972,13 @@ class NodeWithChildren(Node):
 
         """
         if isinstance(child, list):
-            for c in reversed(child):
-                self.prepend(c)
+            original = list(self._children)
+            try:
+                for c in reversed(child):
+                    self.prepend(c)
+            except Exception:
+                self._restore(original)
+                raise
         elif isinstance(child, Node):
             if child.parent and child.parent is not self:
                 raise RSMNodeError("Attempting to prepend child to a different parent")
@@ -973,6 +990,14 @@ class NodeWithChildren(Node):
             raise TypeError("Can only prepend a Node or iterable of Nodes as children")
         return self
 
+    def _restore(self, original: list[Node]) -> None:
+        """Undo the additions made since the children were those in ``original``."""
+        ids = {id(c) for c in original}
+        for c in self._children:
+            if id(c) not in ids:
+                c.parent = None
+        self._children = original
+
     def remove(self, child: "Node") -> None:
         """Remove child."""
         ids = [id(c) for c in self._children]
-- 
2.43.0


From d12a3699ef0ef00c74f6d18ad91eaf8ae8dbc50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:42 +0000
Subject: [PATCH 17/45] fix: the backslash of an escape is removed from theorem
 titles and reference texts too

---
 rsm/tsparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index be4e22e..2777a53 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -438,8 +438,12 @@ def _normalize_text(root: TSNode) -> str:
             node.text = EscapedString(node.text, DELIMS).escape()
         if isinstance(node, nodes.Section):
             node.title = EscapedString(node.title, DELIMS).escape()
-        if isinstance(node, nodes.Manuscript):
+        if isinstance(node, (nodes.Manuscript, nodes.Theorem)):
             node.title = EscapedString(node.title, DELIMS).escape()
+        if isinstance(node, nodes.BaseReference) and node.overwrite_reftext:
+            node.overwrite_reftext = EscapedString(
+                node.overwrite_reftext, DELIMS
+            ).escape()
     
     return ""  # This function modifies nodes in place
 
-- 
2.43.0


From 6303e290f05ea81d476ddd9bdbd20b4604c80763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:50 +0000
Subject: [PATCH 18/45] fix: the documented constructs :suppose: and :wlog: no
 longer crash the parser

---
 rsm/nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 5bf6bdb..98d87c5 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -1216,6 +1216,8 @@ class Construct(NodeWithChildren):
         "claimblock": "⊢",
         "qed": "QED",
         "st": "SUCH THAT",
+        "suppose": "SUPPOSE",
+        "wlog": "WLOG",
     }
 
     def __init__(self, kind: str = "", **kwargs: Any):
-- 
2.43.0


From 1949bb48d2a407ad8b1ab597ba4b692fb123d665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:11 +0000
Subject: [PATCH 19/45] fix: an author without name, affiliation, and email no
 longer crashes the handrails

---
 rsm/translator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 46ae014..726c688 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1654,7 +1654,8 @@ class HandrailsTranslator(Translator):
         hr = self._replace_node_with_handrails(
             node, additional_classes=["hr-hidden"], collapse_in_hr=False
         )
-        hr.items += batch.items[2:-1]
+        if isinstance(batch, AppendBatchAndDefer):  # else the author has no data
+            hr.items += batch.items[2:-1]
         return hr
 
     def leave_author(self, node: nodes.Author) -> EditCommand:
-- 
2.43.0


From 2d0f02aaad270f1a0329b4f6c9d847c851facc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:40 +0000
Subject: [PATCH 20/45] fix: steps and text after an explicit subproof no
 longer crash the transformer

---
 rsm/transformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 71e4a8e..6175681 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -270,8 +270,9 @@ class Transformer:
                 subproof = nodes.Subproof()
                 subproof.append(children[split_at_idx:])
             elif isinstance(children[split_at_idx], nodes.Subproof):
-                assert split_at_idx == len(children) - 1
+                # whatever comes after the explicit subproof belongs to it, too
                 subproof = children[split_at_idx]
+                subproof.append(children[split_at_idx + 1 :])
             else:
                 raise RSMTransformerError("How did we get here?")
             step.append([statement, subproof])
-- 
2.43.0


From d9d8e2cf95bef7bcae2fe35a327533af09c1fd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:03 +0000
Subject: [PATCH 21/45] fix: the linter counts columns in characters, not bytes

---
 rsm/linter.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/rsm/linter.py b/rsm/linter.py
index fa9456a..62e49db 100644
--- a/rsm/linter.py
+++ b/rsm/linter.py
@@ -40,14 +40,28 @@ class Linter:
 
     def _extra(self, node: nodes.Node) -> dict:
         """Make the extra arguments for the logger.lint call."""
-        # Most editors start counting lines of code at 1, but TS starts at 0
+        start_row, start_col = self._position(node.start_point)
+        end_row, end_col = self._position(node.end_point)
         return {
-            "start_row": node.start_point[0] + 1,
-            "start_col": node.start_point[1] + 1,
-            "end_row": node.end_point[0] + 1,
-            "end_col": node.end_point[1] + 1,
+            "start_row": start_row,
+            "start_col": start_col,
+            "end_row": end_row,
+            "end_col": end_col,
         }
 
+    def _position(self, point: tuple[int, int]) -> tuple[int, int]:
+        """Convert a TS point to the row and column shown by most editors."""
+        # Most editors start counting at 1 and count characters, but TS starts at 0 and
+        # counts bytes
+        row, col = point
+        first_row, first_col = self.tree.start_point
+        lines = self.tree.src.split("\n")
+        if 0 <= row - first_row < len(lines):
+            before = first_col if row == first_row else 0
+            line = lines[row - first_row].encode("utf-8")
+            col = before + len(line[: col - before].decode("utf-8", "ignore"))
+        return row + 1, col + 1
+
     def lint_manuscript_title(self) -> None:
         """Manuscript should have a title."""
         if not self.tree.title:
-- 
2.43.0


From fa2b854e99972d1d83d2900b54732678138df6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:35 +0000
Subject: [PATCH 22/45] fix: linting no longer lets messages below the
 configured log level through

---
 rsm/rsmlogger.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsm/rsmlogger.py b/rsm/rsmlogger.py
index c8b02fd..1d364b1 100644
--- a/rsm/rsmlogger.py
+++ b/rsm/rsmlogger.py
@@ -179,5 +179,4 @@ def _set_level(level: int) -> None:
     level = max(level, logging.DEBUG)
     logger.setLevel(level)
     for h in logger.handlers:
-        if h.level > level:
-            h.setLevel(level)
+        h.setLevel(level)
-- 
2.43.0


From e58f1bab105808f5e4336cbd2a5a888ecc393205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 23/45] fix: sources are read as UTF-8 whatever the locale

---
 rsm/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/reader.py b/rsm/reader.py
index 0c16b0f..7f805e0 100644
--- a/rsm/reader.py
+++ b/rsm/reader.py
@@ -43,6 +43,6 @@ class Reader:
         if not path:
             raise TypeError("Expected path, got None")
         self.path = Path(path)
-        with open(path) as file:
+        with open(path, encoding="utf-8") as file:
             self.src = file.read()
         return self.src
-- 
2.43.0


From 6c5d463067331feb17ce72fb5eb1e9dc7bb97ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:07 +0000
Subject: [PATCH 24/45] fix: figures are built where the page looks for them,
 also if their names are equal

---
 rsm/builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsm/builder.py b/rsm/builder.py
index 3c8552f..cb92b4c 100644
--- a/rsm/builder.py
+++ b/rsm/builder.py
@@ -9,6 +9,7 @@ from typing import Optional
 
 from fs import open_fs
 from fs.copy import copy_file
+from fs.path import dirname, normpath, relpath
 from icecream import ic
 
 from .manuscript import WebManuscript
@@ -129,4 +130,7 @@ class FullBuilder(SingleFileBuilder):
         source = open_fs(str(Path().resolve()))
 
         for fn in self.required_assets:
-            copy_file(source, str(fn), self.web, f"static/{fn.name}")
+            # the page looks for the file under the path given by the author
+            dst = relpath(normpath(str(fn)))
+            self.web.makedirs(dirname(dst), recreate=True)
+            copy_file(source, str(fn), self.web, dst)
-- 
2.43.0


From 046084ba0cf60503067770c1889346c45ac4fe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:15 +0000
Subject: [PATCH 25/45] fix: text that reads src="..." is no longer taken for a
 file that the page needs

---
 rsm/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/builder.py b/rsm/builder.py
index cb92b4c..9f3b97a 100644
--- a/rsm/builder.py
+++ b/rsm/builder.py
@@ -46,7 +46,7 @@ class BaseBuilder(ABC):
 
     def find_required_assets(self) -> None:
         self.required_assets = [
-            Path(x) for x in re.findall(r'src="(.*?)"', str(self.body))
+            Path(x) for x in re.findall(r'<img\b[^>]*?\bsrc="(.*?)"', str(self.body))
         ]
 
 
-- 
2.43.0


From 5a1ea5cb8d1f7cadaba574205f261418b9555049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:31 +0000
Subject: [PATCH 26/45] fix: a translator can be used again after a translation
 has failed

---
 rsm/translator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsm/translator.py b/rsm/translator.py
index 726c688..4608f45 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -554,6 +554,7 @@ class Translator:
             logger.info("Translating...")
         if new:
             self.body = ""
+            self.deferred = []
         self.tree = tree
 
         if self.deferred:
-- 
2.43.0


From 2c841c3a64a2b45c53f116f7065314218b0f8c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:39 +0000
Subject: [PATCH 27/45] fix: types given to notes and algorithms become classes
 of their elements

---
 rsm/translator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 4608f45..5f7f4af 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -753,7 +753,7 @@ class Translator:
                 AppendOpenTag(
                     "span",
                     id=node.label,
-                    classes=["note__content"],
+                    classes=["note__content", *node.types],
                     newline_inner=False,
                 ),
             ]
@@ -853,7 +853,7 @@ class Translator:
     def visit_algorithm(self, node: nodes.Algorithm) -> EditCommand:
         return AppendBatchAndDefer(
             [
-                AppendOpenTag(id=node.label, classes=["algorithm"]),
+                AppendOpenTag(id=node.label, classes=["algorithm", *node.types]),
                 AppendOpenTag("pre", classes=["pseudocode"]),
             ]
         )
-- 
2.43.0


From 96726aebe166f094344df28cd0233856c0bbc73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 28/45] fix: meta keys of table cells written with :td: are
 accepted

---
 rsm/tsparser.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 2777a53..cd07ee3 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -503,6 +503,7 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
         # equal to cst_node.type, or neither, or both!  For this reason, from now on, DO
         # NOT use cst_node.tpye, always use ast_node_type instead.
         ast_node_type = ""
+        meta = None
         if cst_node.type == "source_file" or cst_node.type.endswith("section"):
             meta = cst_node.child_by_field_name("meta")
             ast_node_type = cst_node.type
@@ -551,11 +552,12 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             ast_node_type = "mathblock"
 
         elif cst_node.type == "td":
-            # td tags are special because the entire contents are in the first children,
-            # so we might as well add that with the current parent and ignore the
-            # current node
-            stack.append((parent, cst_node.named_children[0]))
-            continue
+            # td tags are special because the entire contents are in the last child, so we
+            # might as well use that instead of the current node; only the meta, if there
+            # is any, is outside of it
+            meta = cst_node.child_by_field_name("meta")
+            cst_node = cst_node.named_children[-1]
+            ast_node_type = cst_node.type
 
         elif cst_node.type == "paragraph":
             first = cst_node.named_children[0]
@@ -602,7 +604,7 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             raise RSMParserError(msg=f"not found {ast_node_type}")
 
         # process meta
-        meta = cst_node.child_by_field_name("meta")
+        meta = meta or cst_node.child_by_field_name("meta")
         if meta:
             ast_node.ingest_dict_as_meta(_parse_meta_into_dict(meta))
 
-- 
2.43.0


From 1ca29297ba82d25b745d59e285b2883154967513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:57 +0000
Subject: [PATCH 29/45] fix: code in an unknown language is shown without
 highlighting

---
 rsm/util.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/rsm/util.py b/rsm/util.py
index 61523cb..2cf0f14 100644
--- a/rsm/util.py
+++ b/rsm/util.py
@@ -6,12 +6,16 @@ Utilities.
 
 """
 
+import logging
 import textwrap
 from typing import Any, Generator, Optional, Union
 
 from pygments import highlight
 from pygments.formatters import HtmlFormatter  # pylint: disable=no-name-in-module
-from pygments.lexers import get_lexer_by_name
+from pygments.lexers import TextLexer, get_lexer_by_name
+from pygments.util import ClassNotFound
+
+logger = logging.getLogger("RSM").getChild("util")
 
 
 # pylint: disable-next=too-few-public-methods
@@ -27,11 +31,12 @@ class RSMPygmentsFormatter(HtmlFormatter):
 
 
 def highlight_code(source: str, lang: str) -> str:
-    highlighted = highlight(
-        source,
-        get_lexer_by_name(lang),
-        RSMPygmentsFormatter(),
-    )
+    try:
+        lexer = get_lexer_by_name(lang)
+    except ClassNotFound:
+        logger.warning(f'Unknown language "{lang}", showing code without highlighting')
+        lexer = TextLexer()
+    highlighted = highlight(source, lexer, RSMPygmentsFormatter())
     return highlighted  # type: ignore[no-any-return]
 
 
-- 
2.43.0


From 52863e90753a824c4c9a0fedc177e4b45e944d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:34 +0000
Subject: [PATCH 30/45] fix: captions get no stray handrail info zone

---
 rsm/translator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsm/translator.py b/rsm/translator.py
index 5f7f4af..3051432 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1728,6 +1728,10 @@ class HandrailsTranslator(Translator):
         batch.items.insert(-1, self._hr_info_zone_icon(getattr(node, "icon", None)))
         return batch
 
+    def leave_caption(self, node: nodes.Caption) -> EditCommand:
+        # Captions have no handrails, so they must not get an info zone either.
+        return super().leave_paragraph(node)
+
     def visit_theorem(self, node: nodes.Theorem) -> EditCommand:
         batch = super().visit_theorem(node)
         hr = self._replace_node_with_handrails(node, additional_classes=["hr-labeled"])
-- 
2.43.0


From afa7f74aab0665084cf2f4ba79a13f45a7689b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:46 +0000
Subject: [PATCH 31/45] fix: the backslash of an escape is removed from
 paragraph titles too

---
 rsm/tsparser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index cd07ee3..995a067 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -436,9 +436,7 @@ def _normalize_text(root: TSNode) -> str:
         # Manage escaped characters.
         if isinstance(node, nodes.Text) and not node.asis:
             node.text = EscapedString(node.text, DELIMS).escape()
-        if isinstance(node, nodes.Section):
-            node.title = EscapedString(node.title, DELIMS).escape()
-        if isinstance(node, (nodes.Manuscript, nodes.Theorem)):
+        if isinstance(node, nodes.Heading):
             node.title = EscapedString(node.title, DELIMS).escape()
         if isinstance(node, nodes.BaseReference) and node.overwrite_reftext:
             node.overwrite_reftext = EscapedString(
-- 
2.43.0


From 5d7c888680e3c10f6614ac80cc2ecb99b0756e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:28 +0000
Subject: [PATCH 32/45] fix: steps that are not numbered take no number

---
 rsm/transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 6175681..84103da 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -310,7 +310,9 @@ class Transformer:
                 yield "".join(letters)
 
     def _autonumber_steps(self, proof: nodes.Proof) -> None:
-        step_gen = (s for s in proof.children if isinstance(s, nodes.Step))
+        step_gen = (
+            s for s in proof.children if isinstance(s, nodes.Step) and not s.nonum
+        )
         for idx, step in enumerate(step_gen, start=1):
             step.number = idx
 
-- 
2.43.0


From 60cd0e8ad6fd47e04b84cb93555361101fc5af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:39 +0000
Subject: [PATCH 33/45] fix: notes that are not numbered do not show 'None' as
 their number

---
 rsm/translator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 3051432..3e5cbb9 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -746,7 +746,8 @@ class Translator:
                 AppendOpenTag("span", classes=["note"]),
                 AppendOpenCloseTag(
                     "sup",
-                    content=f'<a class="note__link">{node.full_number}</a>',
+                    content='<a class="note__link">'
+                    f'{"*" if node.nonum else node.full_number}</a>',
                     classes=["note__number"],
                     newline_inner=False,
                 ),
-- 
2.43.0


From 20c2085c5e55534fe2de0bb1a399f15b196514f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:52 +0000
Subject: [PATCH 34/45] fix: menus of handrails of unnumbered nodes do not show
 'None' as their number

---
 rsm/translator.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 3e5cbb9..4c739fe 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1246,6 +1246,12 @@ class HandrailsTranslator(Translator):
             classes=["hr-collapse-zone"],
         )
 
+    @staticmethod
+    def _menu_label(node: nodes.Node) -> str:
+        if node.nonum and "{number}" in node.reftext_template:
+            return node.__class__.__name__
+        return node.reftext
+
     def _hr_menu_label(self, label: str) -> str:
         return f"""
   <div class="hr-menu-label">
@@ -1440,7 +1446,7 @@ class HandrailsTranslator(Translator):
             handrail,
             self._hr_collapse_zone(collapse_in_hr),
             self._hr_menu_zone(
-                label=menu_label or node.reftext,
+                label=menu_label or self._menu_label(node),
                 collapse=collapse_in_menu,
                 collapse_all=collapse_all_in_menu,
                 link=(True if node.label else "disabled"),
@@ -1467,18 +1473,18 @@ class HandrailsTranslator(Translator):
         link: bool | Literal["disabled"] = True if node.label else "disabled"
         if sub is None:
             menu_zone = self._hr_menu_zone(
-                label=node.reftext,
+                label=self._menu_label(node),
                 collapse="disabled",
                 collapse_all="disabled",
                 link=link,
             )
         elif sub and sub.first_of_type(nodes.Step) is None:
             menu_zone = self._hr_menu_zone(
-                label=node.reftext, collapse=True, collapse_all="disabled", link=link
+                label=self._menu_label(node), collapse=True, collapse_all="disabled", link=link
             )
         else:
             menu_zone = self._hr_menu_zone(
-                label=node.reftext, collapse=True, collapse_all=True, link=link
+                label=self._menu_label(node), collapse=True, collapse_all=True, link=link
             )
         newitems = [
             self._hr_from_node(node),
@@ -1672,7 +1678,7 @@ class HandrailsTranslator(Translator):
             batch,
             icon=getattr(node, "icon", None),
             classes=["heading"],
-            menu_label=node.reftext,
+            menu_label=self._menu_label(node),
             link=True if node.label else "disabled",
         )
 
@@ -1682,7 +1688,7 @@ class HandrailsTranslator(Translator):
             1,
             batch,
             classes=["heading"],
-            menu_label=node.reftext,
+            menu_label=self._menu_label(node),
             link=True if node.label else "disabled",
         )
 
@@ -1692,7 +1698,7 @@ class HandrailsTranslator(Translator):
             1,
             batch,
             classes=["heading"],
-            menu_label=node.reftext,
+            menu_label=self._menu_label(node),
             link=True if node.label else "disabled",
         )
         batch.items = (
@@ -1709,7 +1715,7 @@ class HandrailsTranslator(Translator):
             1,
             batch,
             classes=["heading"],
-            menu_label=node.reftext,
+            menu_label=self._menu_label(node),
             link=True if node.label else "disabled",
         )
 
-- 
2.43.0


From e91fc34572a0569db0f5854e08668d84e250964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:14 +0000
Subject: [PATCH 35/45] fix: unnumbered notes show no number at all, as other
 notes do

---
 rsm/translator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 4c739fe..6aeb2e6 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -746,8 +746,7 @@ class Translator:
                 AppendOpenTag("span", classes=["note"]),
                 AppendOpenCloseTag(
                     "sup",
-                    content='<a class="note__link">'
-                    f'{"*" if node.nonum else node.full_number}</a>',
+                    content=f'<a class="note__link">{node.full_number or ""}</a>',
                     classes=["note__number"],
                     newline_inner=False,
                 ),
-- 
2.43.0


From d088500994669c1d77655e7b6689e69e28992c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:02 +0000
Subject: [PATCH 36/45] fix: collapsing a handrail switches its own icon, not
 that of a handrail inside it

---
 rsm/static/handrails.js | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rsm/static/handrails.js b/rsm/static/handrails.js
index 8b584ff..ef1b521 100644
--- a/rsm/static/handrails.js
+++ b/rsm/static/handrails.js
@@ -67,11 +67,17 @@ export function toggleHandrail(target) {
 };
 
 
+function ownIcon(hr, name) {
+  // Not those of the handrails inside
+  return hr.querySelector(`& > .hr-collapse-zone .icon.${name}, & > .hr-menu-zone .icon.${name}`);
+}
+
+
 function openHandrail(hr) {
   hr.classList.remove("hr-collapsed");
   const rest = getRest(hr);
   rest.forEach(el => { el.classList.remove("hide"); });
-  const icon = hr.querySelector("& .icon.expand");
+  const icon = ownIcon(hr, "expand");
   if (!icon) return;
   icon.classList.remove("expand");
   icon.classList.add("collapse");
@@ -89,7 +95,7 @@ function closeHandrail(hr) {
   hr.classList.add("hr-collapsed");
   const rest = getRest(hr);
   rest.forEach(el => { el.classList.add("hide"); });
-  const icon = hr.querySelector("& .icon.collapse");
+  const icon = ownIcon(hr, "collapse");
   if (!icon) return;
   icon.classList.remove("collapse");
   icon.classList.add("expand");
@@ -125,7 +131,7 @@ export function collapseAll(target, withinSubproof = true) {
   }
 
   const hr = target.closest(".hr");
-  const ex_icon = hr.querySelector("& .icon.expand-all");
+  const ex_icon = ownIcon(hr, "expand-all");
   if (ex_icon) {
     hr.querySelectorAll(qry).forEach(st => openHandrail(st));
     ex_icon.classList.remove("expand-all");
@@ -142,7 +148,7 @@ export function collapseAll(target, withinSubproof = true) {
     return;
   }
 
-  const co_icon = hr.querySelector("& .icon.collapse-all");
+  const co_icon = ownIcon(hr, "collapse-all");
   if (co_icon) {
     hr.querySelectorAll(qry).forEach(st => closeHandrail(st));
     co_icon.classList.remove("collapse-all");
-- 
2.43.0


From 6cdd8e697b74b909f68511568d411014f0ddd607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:12 +0000
Subject: [PATCH 37/45] fix: the link to a labelled abstract has its own anchor

---
 rsm/static/handrails.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/handrails.js b/rsm/static/handrails.js
index ef1b521..6281afb 100644
--- a/rsm/static/handrails.js
+++ b/rsm/static/handrails.js
@@ -175,7 +175,7 @@ async function copyLink(target) {
   if (!hr.classList.contains("heading")) {
     anchor = hr.id;
   } else {
-    const section = hr.closest("section");
+    const section = hr.parentElement;
     if (!section.classList.contains("level-1")) {
       anchor = section.id;
     } else {
-- 
2.43.0


From 74b8ae1a2b6f11eb76c3f07f5d660a7bdfa9cbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:22 +0000
Subject: [PATCH 38/45] fix: the key H goes to the top of the page again

---
 rsm/static/keyboard.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index b669d10..5447697 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -25,7 +25,7 @@ export function setup(root) {
 
   // Navigation: back to top
   root.addEventListener('keydown', (event) => {
-    if (event.key == "H") { event.stopPropagation(); focusTop(); };
+    if (event.key == "H") { event.stopPropagation(); focusTop(root); };
   });
 
   // Basic actions on the currently focused element
-- 
2.43.0


From 7f47f3d4cf831daa4f452e64427b9316f052f5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:31 +0000
Subject: [PATCH 39/45] fix: Enter on the marked 'collapse all' of a proof
 collapses its steps

---
 rsm/static/keyboard.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 5447697..e708d85 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -108,7 +108,7 @@ function executeActiveMenuItem(el) {
       toggleHandrail(el);
       break;
     case "collapse-steps":
-      collapseAll(el);
+      collapseAll(el, el.classList.contains("step"));
       break;
     case true:
       console.log($`unknown item class: ${cls[0]}`);
-- 
2.43.0


From b794375cf3dc187fffe4f27d8ecd3bf9345590d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:41 +0000
Subject: [PATCH 40/45] fix: the arrow keys do nothing while no menu is open

---
 rsm/static/keyboard.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index e708d85..4a356c1 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -118,7 +118,7 @@ function executeActiveMenuItem(el) {
 
 function menuUpOrDown(el, direction) {
   const menu = el.querySelector("& > .hr-menu-zone");
-  if (!getComputedStyle(menu).display == "none") return;
+  if (!menu || getComputedStyle(menu).display == "none") return;
 
   const qry = `
       & > .hr-menu > .hr-menu-item:hover,
-- 
2.43.0


From 9200a1d3489f8690a0a4d225f68163411ca98ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:50 +0000
Subject: [PATCH 41/45] fix: the first press of j or k focuses the top element

---
 rsm/static/keyboard.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 4a356c1..89a2f0c 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -151,6 +151,7 @@ function focusUpOrDown(direction, root) {
 
   // If not focused on anything, just focus the top element.
   if (index == -1) {
+    focusableElements[0].focus();
     maybeScrollToMiddle(focusableElements[0], direction);
     return;
   }
-- 
2.43.0


From 56c0f88da2816809eab68b6d6a1985d0bb684f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:59 +0000
Subject: [PATCH 42/45] fix: j and k do not move the focus into what is hidden

---
 rsm/static/keyboard.js | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 89a2f0c..c78dd97 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -285,9 +285,8 @@ function toggleMenu(el) {
 
 
 function isFocusable(el) {
-  if (el.classList.contains("hr-collapsed") && !el.classList.contains("hide")) return true;
-  if (el.closest(".hr-collapsed") || el.closest(".hide")) return false;
-  return true;
+  if (el.closest(".hide")) return false;
+  return el.classList.contains("hr-collapsed") || !el.closest(".hr-collapsed");
 }
 
 
-- 
2.43.0


From 89e9724c68e2dc336319f5df28c8c8bddb6412f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:09 +0000
Subject: [PATCH 43/45] fix: moving the focus scrolls the page towards the
 element, not away from it

---
 rsm/static/keyboard.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index c78dd97..e5eaf6f 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -316,11 +316,11 @@ function maybeScrollToMiddle(element, direction) {
   let scrollAmount;
   if (elementHeight > viewportHeight) {
     // element taller than viewport: just align its top with the top of the viewport
-    scrollAmount = -elementTop;
+    scrollAmount = elementTop;
   } else {
     // If scrolling would push the element's top above the viewport,
     // limit the scroll to align the top of the element with the top of the viewport
-    if (elementTop + offset < 0) scrollAmount = -elementTop;
+    if (elementTop - offset < 0) scrollAmount = elementTop;
     // Otherwise, scroll to center the element (if far enough from center)
     else if (farEnoughFromCenter) scrollAmount = offset;
     else return;
-- 
2.43.0


From 2d1c50db93c9b12998b6bb950bc254c21aa7290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:19 +0000
Subject: [PATCH 44/45] fix: scrolling a page without a table of contents no
 longer fails

---
 rsm/static/minimap.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsm/static/minimap.js b/rsm/static/minimap.js
index 491963e..1388e13 100644
--- a/rsm/static/minimap.js
+++ b/rsm/static/minimap.js
@@ -20,7 +20,8 @@ export function setup() {
   window.addEventListener('scroll', () => {
     const toc_mm = document.querySelector(".toc-wrapper > .minimap");
     const float_mm = document.querySelector(".float-minimap-wrapper > .minimap");
-    if (withinView(toc_mm, false)) {
+    if (!float_mm) return;
+    if (toc_mm && withinView(toc_mm, false)) {
       float_mm.classList.add("hide");
     } else {
       float_mm.classList.remove("hide");
-- 
2.43.0


From 74674d388dfab9c7ee803f229d219bbcb481172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:11 +0000
Subject: [PATCH 45/45] fix: no id on the doi link of a bibliography item
 without a label

Items whose key repeats an earlier one lose their label, and all of
their links were given the same id, '-doi'.
---
 rsm/translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 6aeb2e6..8fad403 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1059,7 +1059,7 @@ class Translator:
         if node.doi:
             a_tag = _make_tag(
                 "a",
-                id_=f"{node.label}-doi",
+                id_=f"{node.label}-doi" if node.label else "",
                 classes=["bibitem-doi"],
                 href=f"https://doi.org/{node.doi}",
                 target="_blank",
-- 
2.43.0

