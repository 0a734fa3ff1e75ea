From fe8d5144b4db3da42fb9d71bb18cda4fdcf78921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:27 +0000
Subject: [PATCH 01/26] fix: emit balanced <p> tags around mathblocks, whatever
 their parent and number

---
 rsm/translator.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index e487f5d..008007b 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -768,13 +768,8 @@ class Translator:
         )
 
     def visit_mathblock(self, node: nodes.MathBlock) -> EditCommand:
-        assert isinstance(node.parent, nodes.Paragraph)
-        return AppendBatchAndDefer(
+        batch = AppendBatchAndDefer(
             [
-                # A paragraph that contains a mathblock cannot _start_ with a mathblock,
-                # so this mathblock must always contain some previous siblings that must
-                # be enclosed in <p> tags.  (See comment in visit_paragraph().)
-                AppendText("</p>"),
                 # This is the actual tag corresponding to the mathblock.
                 AppendNodeTag(node, "div"),
                 # The contents of a mathblock must be enclosed in '$$' and '$$' due to
@@ -782,14 +777,24 @@ class Translator:
                 AppendTextAndDefer("$$\n", "\n$$"),
             ]
         )
+        if self._is_inside_p_tag(node):
+            # (See comment in visit_paragraph().)
+            batch.items.insert(0, AppendText("</p>"))
+        return batch
+
+    @staticmethod
+    def _is_inside_p_tag(node: nodes.Node) -> bool:
+        # Only visit_paragraph() opens a <p> tag around the node's children.  Subclasses
+        # of Paragraph (Step, Caption) have their own visit_* methods, which do not.
+        return type(node.parent) is nodes.Paragraph
 
     def leave_mathblock(self, node: nodes.MathBlock) -> EditCommand:
         # See also the comment in visit_paragraph().
         batch = self.leave_node(node)
 
-        # The paragraph-specific logic only applies when the parent is a BaseParagraph
+        # The paragraph-specific logic only applies when the parent is a Paragraph
         # With grammar changes, MathBlocks can now have other types of parents
-        if not isinstance(node.parent, nodes.BaseParagraph):
+        if not self._is_inside_p_tag(node):
             return batch
 
         # In case this mathblock is the last child of the paragraph, there is nothing
@@ -797,18 +802,20 @@ class Translator:
         if not node.next_sibling():
             return batch
 
-        # If there are more children, we need to close this mathblock, start a new <p>
-        # tag, and defer its closing.  This tag must close at the time that we leave the
-        # parent paragraph.  The least hacky way I found to control the parent node's
-        # deferred commands was to use a special attribute.
+        # If there are more children, we need to close this mathblock and start a new <p>
+        # tag.  This tag must close either when visiting the next mathblock, or at the
+        # time that we leave the parent paragraph.
         else:
-            node.parent._must_close_p_tag = True
             batch.items.append(AppendText("<p>"))
             return AppendBatch(batch.items)
 
     def leave_paragraph(self, node: nodes.Paragraph) -> EditCommand:
         batch = self.leave_node(node)
-        if getattr(node, "_must_close_p_tag", False):
+        if (
+            type(node) is nodes.Paragraph
+            and node.first_of_type(nodes.MathBlock)
+            and not isinstance(node.children[-1], nodes.MathBlock)
+        ):
             batch.items.insert(0, AppendText("</p>"))
         return batch
 
@@ -1822,9 +1829,10 @@ class HandrailsTranslator(Translator):
             collapse_in_hr=False,
             menu_label="Equation" if node.nonum else node.long_reftext,
         )
-        batch.items.insert(0, AppendText("</p>"))
         batch.items.append(AppendTextAndDefer("$$\n", "\n$$"))
-        batch.items[1].classes += ["hr-hidden", "hr-offset"]
+        batch.items[0].classes += ["hr-hidden", "hr-offset"]
+        if self._is_inside_p_tag(node):
+            batch.items.insert(0, AppendText("</p>"))
         return batch
 
     def leave_mathblock(self, node: nodes.MathBlock) -> EditCommand:
-- 
2.43.0


From de089d3bc32c55fb80446d2f11749019fa9cfbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 02/26] fix: render an author block without metadata when using
 handrails

---
 rsm/translator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 008007b..a4cc5f9 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1651,7 +1651,8 @@ class HandrailsTranslator(Translator):
         hr = self._replace_node_with_handrails(
             node, additional_classes=["hr-hidden"], collapse_in_hr=False
         )
-        hr.items += batch.items[2:-1]
+        if isinstance(batch, EditCommandBatch):
+            hr.items += batch.items[2:-1]
         return hr
 
     def leave_author(self, node: nodes.Author) -> EditCommand:
-- 
2.43.0


From 79df8a31ca0ef3d40612c47eb804071944524f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 03/26] fix: give :suppose: and :wlog: constructs a keyword
 instead of crashing

---
 rsm/nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 669f1ae..28a8c3a 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -1186,6 +1186,8 @@ class Construct(NodeWithChildren):
         "claimblock": "⊢",
         "qed": "QED",
         "st": "SUCH THAT",
+        "suppose": "SUPPOSE",
+        "wlog": "WLOG",
     }
 
     def __init__(self, kind: str = "", **kwargs: Any):
-- 
2.43.0


From 55284402093307132bd894af9cfa38f3d2301061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 04/26] fix: render bibliography items that have no year

---
 rsm/translator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index a4cc5f9..be8fee2 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1049,8 +1049,8 @@ class Translator:
                 items.append(node.publisher)
             else:
                 logger.warning(f"Bibitem {node.label} has no publisher")
-        if node.year:
-            items.append(node.year)
+        if node.year and node.year != -1:
+            items.append(str(node.year))
         else:
             logger.warning(f"Bibitem {node.label} has no year")
         text = ". ".join([i.strip(".") for i in items]) + "."
-- 
2.43.0


From 55b44951b73393d19758d97ece33be9b6fe7f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 05/26] fix: honor log_lineno in the default log formatter

---
 rsm/rsmlogger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/rsmlogger.py b/rsm/rsmlogger.py
index a7a613c..c8b02fd 100644
--- a/rsm/rsmlogger.py
+++ b/rsm/rsmlogger.py
@@ -71,7 +71,7 @@ class RSMFormatter(logging.Formatter):
             + self.COLORS.get(record.levelno, self.grey)
             + self.msgformat
             + (self.point if hasattr(record, "start_row") else "")
-            + self.suffix
+            + (self.suffix if self.log_lineno else "")
         )
         formatter = logging.Formatter(fmt, datefmt="%H:%M:%S")
         return formatter.format(record)
-- 
2.43.0


From d0e15662ec27467e83903144cfae14bf944f3a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 06/26] fix: EscapedString.index raises when every occurrence
 is escaped, instead of looping forever

---
 rsm/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/util.py b/rsm/util.py
index 61523cb..5c8bcd6 100644
--- a/rsm/util.py
+++ b/rsm/util.py
@@ -140,7 +140,7 @@ class EscapedString:
             # exception instead), so no need to check for that.
             return index
         while self._src[index - 1] == "\\":
-            index = self._src.find(sub, index + 1, end)
+            index = self._src.index(sub, index + 1, end)
         return index
 
     def rindex(
-- 
2.43.0


From 957a56ce5c3174a7347e31c988dec5d8bc98bf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 07/26] fix: Writer writes to its dstpath

---
 rsm/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/writer.py b/rsm/writer.py
index 6b53ff3..10ca200 100644
--- a/rsm/writer.py
+++ b/rsm/writer.py
@@ -20,4 +20,4 @@ class Writer:
 
     def write(self, web: WebManuscript) -> None:
         self.web = web
-        copy_fs(web, "./")
+        copy_fs(web, str(self.dstpath))
-- 
2.43.0


From 56f276300cb8154d793bcb51d096378823a9ce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 08/26] fix: lint records carry the end position the default
 log format needs

---
 rsm/linter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsm/linter.py b/rsm/linter.py
index 72be60e..fa9456a 100644
--- a/rsm/linter.py
+++ b/rsm/linter.py
@@ -44,6 +44,8 @@ class Linter:
         return {
             "start_row": node.start_point[0] + 1,
             "start_col": node.start_point[1] + 1,
+            "end_row": node.end_point[0] + 1,
+            "end_col": node.end_point[1] + 1,
         }
 
     def lint_manuscript_title(self) -> None:
-- 
2.43.0


From 3e6422be1b3c999ba80617fc44a99176b23ac0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 09/26] fix: pass handrails, lint and log_lineno options of
 make() to the stages they name

---
 rsm/app.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rsm/app.py b/rsm/app.py
index 19c3bee..2d99ec3 100644
--- a/rsm/app.py
+++ b/rsm/app.py
@@ -242,7 +242,14 @@ class FullBuildApp(ProcessorApp):
         run_linter: bool = False,
     ):
         super().__init__(
-            srcpath, plain, loglevel, log_format, log_time, handrails, run_linter
+            srcpath,
+            plain,
+            loglevel,
+            log_format,
+            log_time,
+            log_lineno,
+            handrails=handrails,
+            run_linter=run_linter,
         )
         self.add_task(Task("builder", b := builder.FullBuilder(), b.build))
         self.add_task(Task("writer", w := writer.Writer(), w.write))
@@ -302,6 +309,7 @@ def make(
     return FullBuildApp(
         srcpath=path,
         plain=source,
+        handrails=handrails,
         run_linter=lint,
         loglevel=loglevel,
         log_format=log_format,
-- 
2.43.0


From 06bc96f6bc1c0eb40acacbb4f91579cb716c4516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 10/26] fix: a Transformer forgets the labels of the previous
 manuscript

---
 rsm/transformer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index eee8528..51f861d 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -135,6 +135,7 @@ class Transformer:
         """
         logger.info("Transforming...")
         self.tree = tree
+        self.labels_to_nodes = {}
 
         self.collect_labels()
         self.resolve_pending_references()
-- 
2.43.0


From ac7781dd90631d76b0582de903beba4c743b4a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 11/26] fix: a Translator can be used again after a translation
 that failed

---
 rsm/translator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsm/translator.py b/rsm/translator.py
index be8fee2..b92857f 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -554,6 +554,7 @@ class Translator:
             logger.info("Translating...")
         if new:
             self.body = ""
+            self.deferred = []
         self.tree = tree
 
         if self.deferred:
-- 
2.43.0


From 42a57807708477e1ce94df564a3e37b62711d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 12/26] fix: AppendOpenTagManualClose passes custom attributes
 by name

---
 rsm/translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index b92857f..60b4d66 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -288,7 +288,7 @@ class AppendOpenTagManualClose(AppendText):
         outer = "\n" if self.newline_outer else ""
         inner = "\n" if self.newline_inner else ""
         tag = _make_tag(
-            self.tag, self.id, self.classes, self.is_selectable, *self.custom_attrs
+            self.tag, self.id, self.classes, self.is_selectable, **self.custom_attrs
         )
         return outer + tag + inner + self.content
 
-- 
2.43.0


From efa015206e490aa4f92657a12b0c2f5d17968970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 13/26] fix: tree mutators validate before they modify parent
 and child links

---
 rsm/nodes.py | 51 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 28a8c3a..7c885c5 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -389,17 +389,15 @@ class Node:
 
     @parent.setter
     def parent(self, node: Optional["NodeWithChildren"]) -> None:
-        if node is None:
-            self._parent = None
-        elif not self.__class__.possible_parents:
-            self._parent = node
-        else:
-            possible_parents = self.__class__.possible_parents
-            if possible_parents and type(node) not in possible_parents:
-                raise RSMNodeError(
-                    f"Node of type {type(self)} cannot have parent of type {type(node)}"
-                )
-            self._parent = node
+        if not self._admits_parent(node):
+            raise RSMNodeError(
+                f"Node of type {type(self)} cannot have parent of type {type(node)}"
+            )
+        self._parent = node
+
+    def _admits_parent(self, node: Optional["NodeWithChildren"]) -> bool:
+        possible_parents = self.__class__.possible_parents
+        return node is None or not possible_parents or type(node) in possible_parents
 
     @property
     def children(self) -> tuple:
@@ -808,17 +806,22 @@ class Node:
         """
         if not self.parent:
             raise RSMNodeError("Can only call replace_self on a node with parent")
-        ids = [id(c) for c in self.parent.children]
-        index = ids.index(id(self))
-        parent = self.parent
-        self.parent.remove(self)
-        if not isinstance(replacement, Node):
-            for idx, rep in enumerate(replacement):
-                parent._children.insert(index + idx, rep)
-                rep.parent = parent
+        if isinstance(replacement, Node):
+            replacement = [replacement]
         else:
-            parent._children.insert(index, replacement)
-            replacement.parent = parent
+            replacement = list(replacement)
+        parent = self.parent
+        if any(rep.parent and rep is not self for rep in replacement):
+            raise RSMNodeError("Attempting to replace with a node that has a parent")
+        if not all(rep._admits_parent(parent) for rep in replacement):
+            raise RSMNodeError(f"Replacement cannot have parent of type {type(parent)}")
+
+        ids = [id(c) for c in parent.children]
+        index = ids.index(id(self))
+        parent.remove(self)
+        for idx, rep in enumerate(replacement):
+            parent._children.insert(index + idx, rep)
+            rep.parent = parent
 
     def remove_self(self) -> None:
         """Remove this Node from its parent's children.
@@ -940,8 +943,8 @@ class NodeWithChildren(Node):
         elif isinstance(child, Node):
             if child.parent:
                 raise RSMNodeError("Attempting to append child to a new parent")
+            child.parent = self  # raises if self is not an admissible parent
             self._children.append(child)
-            child.parent = self
         else:
             raise TypeError("Can only append a Node or iterable of Nodes as children")
         return self
@@ -962,8 +965,10 @@ class NodeWithChildren(Node):
         elif isinstance(child, Node):
             if child.parent and child.parent is not self:
                 raise RSMNodeError("Attempting to prepend child to a different parent")
+            if child.parent is self:
+                self.remove(child)
+            child.parent = self  # raises if self is not an admissible parent
             self._children.insert(0, child)
-            child.parent = self
         else:
             raise TypeError("Can only prepend a Node or iterable of Nodes as children")
         return self
-- 
2.43.0


From 2d257826a13963ff4ca02ef55269ce1f923646c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 14/26] fix: count each ancestor with a handrail only once
 towards the handrail depth

---
 rsm/transformer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 51f861d..1b75e42 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -356,9 +356,11 @@ class Transformer:
                 self._add_handrail_depth_for_class(nc)
 
     def _add_handrail_depth_for_class(self, nodeclass) -> None:
-        for node in self.tree.traverse(nodeclass=nodeclass):
+        # Compare types exactly, as subclasses inherit has_handrail and thus have their
+        # own call to this method.
+        for node in self.tree.traverse(condition=lambda n: type(n) is nodeclass):
             for desc in node.traverse():
-                if desc == node:
+                if desc is node:
                     continue
                 desc.handrail_depth += 1
 
-- 
2.43.0


From c4ed6934759766675734de511cd1fa3cffab4d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 15/26] fix: translating a manuscript leaves its tree
 unmodified, so it can be translated again

---
 rsm/transformer.py | 12 ++++++++++++
 rsm/translator.py  | 34 +++++++++++++++++++---------------
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 1b75e42..875de5a 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -140,6 +140,7 @@ class Transformer:
         self.collect_labels()
         self.resolve_pending_references()
         self.add_necessary_subproofs()
+        self.add_types_for_output()
         self.autonumber_nodes()
         self.make_toc()
         self.add_keywords_to_constructs()
@@ -270,6 +271,17 @@ class Transformer:
                 raise RSMTransformerError("How did we get here?")
             step.append([statement, subproof])
 
+    def add_types_for_output(self) -> None:
+        """Add the types that only matter to the output, which cannot be added later."""
+        for section in self.tree.traverse(nodeclass=nodes.Section):
+            section.types.insert(0, f"level-{section.level}")
+        for cite in self.tree.traverse(nodeclass=nodes.Cite):
+            cite.types.insert(0, "reference")
+        for proof in self.tree.traverse(nodeclass=nodes.Proof):
+            last = proof.last_of_type(nodes.Step)
+            if last:
+                last.types.append("last")
+
     def autonumber_nodes(self) -> None:
         counts: dict[Type[nodes.Node], dict[Type[nodes.Node], Generator]] = defaultdict(
             lambda: defaultdict(lambda: count(start=1))
diff --git a/rsm/translator.py b/rsm/translator.py
index 60b4d66..f7ef227 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -710,13 +710,14 @@ class Translator:
         return AppendNodeTag(node)
 
     def visit_section(self, node: nodes.Section) -> EditCommand:
-        node.types.insert(0, f"level-{node.level}")
         heading = (
             f"{node.full_number}. {node.title}" if not node.nonum else f"{node.title}"
         )
         return AppendBatchAndDefer(
             [
-                AppendNodeTag(node, "section"),
+                AppendNodeTag(
+                    node, "section", additional_classes=[f"level-{node.level}"]
+                ),
                 AppendHeading(node.level, heading),
             ]
         )
@@ -903,7 +904,7 @@ class Translator:
             reftext = node.overwrite_reftext
         else:
             reftext = getattr(tgt, "reftext", tgt)
-        classes = node.types
+        classes = list(node.types)
         if not isinstance(node, nodes.URL) and "reference" not in classes:
             classes.insert(0, "reference")
         tag = (
@@ -934,7 +935,7 @@ class Translator:
     def _make_title_node(
         self, label: str, desc: str = "", types: list = ["hr-label"]
     ) -> nodes.Node:
-        para = nodes.Paragraph(types=types)
+        para = nodes.Paragraph(types=list(types))
         if label:
             span = nodes.Span(types=["label"])
             span.append(nodes.Text(text=label))
@@ -977,10 +978,6 @@ class Translator:
         )
 
     def visit_proof(self, node: nodes.Proof) -> EditCommandBatch:
-        last = node.last_of_type(nodes.Step)
-        if last:
-            last.types.append("last")
-
         classname = node.__class__.__name__.lower()
         title = self._make_title_node(label=f"{classname.capitalize()}.")
         return AppendBatchAndDefer(
@@ -1793,12 +1790,21 @@ class HandrailsTranslator(Translator):
         batch = AppendBatch(batch.items)
         return batch
 
+    @staticmethod
+    def _is_followed_by_dot(node: nodes.Math) -> bool:
+        sib = node.next_sibling()
+        return type(sib) is nodes.Text and sib.text.startswith(".")
+
+    def visit_text(self, node: nodes.Text) -> EditCommand:
+        # The leading dot was already output by leave_math().
+        prev = node.prev_sibling()
+        if isinstance(prev, nodes.Math) and self._is_followed_by_dot(prev):
+            return AppendText(node.text[1:])
+        return super().visit_text(node)
+
     def visit_math(self, node: nodes.Math) -> EditCommand:
         batch = super().visit_math(node)
-        sib = node.next_sibling()
-        if not isinstance(sib, nodes.Text):
-            return batch
-        if not sib.text.startswith("."):
+        if not self._is_followed_by_dot(node):
             return batch
 
         # We reach this branch only if the Math node is immediately followed by Text
@@ -1806,7 +1812,6 @@ class HandrailsTranslator(Translator):
         # separated if the browser's viewport is too narrow, which looks ugly.  The only
         # way to fix it is to wrap the math and the dot in a span, and remove the dot
         # from the subsequent text.  The span is then dealt with using CSS.
-        node._followed_by_dot = True
         batch.items.insert(
             0,
             AppendOpenTagManualClose(
@@ -1815,12 +1820,11 @@ class HandrailsTranslator(Translator):
                 newline_outer=False,
             ),
         )
-        sib.text = sib.text[1:]
         return batch
 
     def leave_math(self, node: nodes.Math) -> EditCommand:
         batch = self.leave_node(node)
-        if not getattr(node, "_followed_by_dot", False):
+        if not self._is_followed_by_dot(node):
             return batch
         batch.items.extend([AppendText("<span>.</span>"), AppendText("</span>")])
         return batch
-- 
2.43.0


From 07e86c6af44d1ea557a9faf897a14d5c781c66fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:06 +0000
Subject: [PATCH 16/26] fix: a labeled figure outputs its label as an id only
 once

---
 rsm/translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index f7ef227..ae021dd 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1093,7 +1093,7 @@ class Translator:
                 AppendText(
                     _make_tag(
                         "img",
-                        id_=node.label,
+                        id_="",
                         classes=[],
                         src=node.path,
                         alt=f"{node.__class__.__name__} {node.full_number}.",
-- 
2.43.0


From 45fec370696411d82becf20456ce7187b882753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:06 +0000
Subject: [PATCH 17/26] fix: a labeled caption outputs its label as an id

---
 rsm/translator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index ae021dd..adbc54e 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1117,7 +1117,8 @@ class Translator:
         return AppendBatchAndDefer(
             [
                 AppendOpenTag(
-                    "figcaption" if isinstance(parent, nodes.Figure) else "caption"
+                    "figcaption" if isinstance(parent, nodes.Figure) else "caption",
+                    id=node.label,
                 ),
                 caption,
             ]
-- 
2.43.0


From 9a6b23f2839006544162047bbf1c9cd90e5a324c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:06 +0000
Subject: [PATCH 18/26] fix: captions do not output the info zone of a handrail
 they do not have

---
 rsm/translator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsm/translator.py b/rsm/translator.py
index adbc54e..da3b181 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1124,6 +1124,9 @@ class Translator:
             ]
         )
 
+    def leave_caption(self, node: nodes.Caption) -> EditCommand:
+        return self.leave_node(node)
+
     def visit_appendix(self, node: nodes.Appendix) -> EditCommand:
         # Appendix nodes are used during the transform phase, but do not apear in the
         # output in any way.
-- 
2.43.0


From 90f0ec1d50fe8f4b4dd5466bd0eb4935d90d114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:06 +0000
Subject: [PATCH 19/26] fix: name the bibliography item in the warning about
 its missing link

---
 rsm/translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index da3b181..f8a8362 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1868,7 +1868,7 @@ class HandrailsTranslator(Translator):
         pat = r'(<a.*?class="bibitem-doi".*?>).*?</a>'
         mobj = re.search(pat, text)
         if mobj is None:
-            logger.warning("Unable to extract link from {node}")
+            logger.warning(f"Unable to extract link from {node}")
             return hr
 
         # ...remove it from the content zone...
-- 
2.43.0


From 3f85354d5b329d3dc20ee12d7f4b28f5bee5f169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:06 +0000
Subject: [PATCH 20/26] fix: output code in an unknown language as plain text
 instead of crashing

---
 rsm/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsm/util.py b/rsm/util.py
index 5c8bcd6..05f88b0 100644
--- a/rsm/util.py
+++ b/rsm/util.py
@@ -12,6 +12,7 @@ from typing import Any, Generator, Optional, Union
 from pygments import highlight
 from pygments.formatters import HtmlFormatter  # pylint: disable=no-name-in-module
 from pygments.lexers import get_lexer_by_name
+from pygments.util import ClassNotFound
 
 
 # pylint: disable-next=too-few-public-methods
@@ -27,9 +28,13 @@ class RSMPygmentsFormatter(HtmlFormatter):
 
 
 def highlight_code(source: str, lang: str) -> str:
+    try:
+        lexer = get_lexer_by_name(lang)
+    except ClassNotFound:
+        lexer = get_lexer_by_name("text")
     highlighted = highlight(
         source,
-        get_lexer_by_name(lang),
+        lexer,
         RSMPygmentsFormatter(),
     )
     return highlighted  # type: ignore[no-any-return]
-- 
2.43.0


From b78c9d864ea0cd84300adff67bf85b694afda4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:07 +0000
Subject: [PATCH 21/26] fix: comments and syntax errors between the parts of a
 construct are taken for one of its parts

---
 rsm/tsparser.py | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 71bd272..bee170d 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -307,12 +307,17 @@ CST_TYPE_TO_AST_TYPE: dict[str, Callable] = {
 }
 
 
+def _parts(cst_node: TSNode) -> list[TSNode]:
+    """Named children of a node, sans the comments and errors found among them."""
+    return [c for c in cst_node.named_children if c.type not in ("comment", "ERROR")]
+
+
 def _parse_metakey_list(cst_key: TSNode, cst_val: TSNode) -> tuple[str, list[str]]:
     key = cst_key.named_children[0].type
     if cst_val.named_children:
-        val = [c.text.decode("utf-8").strip() for c in cst_val.named_children if c.text is not None]
+        val = [c.text.decode("utf-8").strip() for c in _parts(cst_val) if c.text is not None]
     else:
-        val = [c.text.decode("utf-8").strip() for c in cst_val.named_children if c.text is not None]
+        val = [c.text.decode("utf-8").strip() for c in _parts(cst_val) if c.text is not None]
     return key, val
 
 
@@ -334,10 +339,11 @@ def _parse_metakey_bool(cst_key: TSNode, _: TSNode) -> tuple[str, bool]:
 def _parse_meta_into_dict(node: TSNode) -> dict[str, Any]:
     pairs = {}
     for pair in [c for c in node.named_children if c.type.endswith("pair")]:
-        if len(pair.named_children) == 1:  # bool meta key
-            cst_key, cst_val = pair.named_children[0], None
+        parts = _parts(pair)
+        if len(parts) == 1:  # bool meta key
+            cst_key, cst_val = parts[0], None
         else:
-            cst_key, cst_val = pair.named_children
+            cst_key, cst_val = parts
         key, val = globals()[f"_parse_{cst_key.type}"](cst_key, cst_val)
         pairs[key] = val
     return pairs
@@ -471,7 +477,7 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             bib_node.kind = cst_node.child_by_field_name("kind").text.decode("utf-8")
             bib_node.label = cst_node.child_by_field_name("label").text.decode("utf-8")
             for pair in [c for c in cst_node.named_children if c.type == "bibitempair"]:
-                key, value = pair.named_children
+                key, value = _parts(pair)
                 key, value = key.text.decode("utf-8"), value.text.decode("utf-8")
                 setattr(bib_node, key, value)
 
@@ -536,11 +542,17 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             # td tags are special because the entire contents are in the first children,
             # so we might as well add that with the current parent and ignore the
             # current node
-            stack.append((parent, cst_node.named_children[0]))
+            stack += reversed(
+                [
+                    (parent, c)
+                    for c in cst_node.named_children
+                    if c.type in PUSH_THESE_TYPES
+                ]
+            )
             continue
 
         elif cst_node.type == "paragraph":
-            first = cst_node.named_children[0]
+            first = next(iter(_parts(cst_node)), cst_node)
             if first.type in ["item", "caption"]:
                 cst_node = first
             ast_node_type = cst_node.type
@@ -592,7 +604,7 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
         if ast_node_type in ["math", "code", "mathblock", "codeblock", "algorithm"]:
             # "asis_text" is not pushed to the stack for further processing so must
             # handle it here
-            asis = cst_node.named_children[-1]
+            asis = _parts(cst_node)[-1]
             assert asis.type == "asis_text"
             text = asis.text.decode("utf-8")
             if ast_node_type in ["code", "codeblock"]:
@@ -615,12 +627,11 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
                 ast_node.kind = tag.type
 
         if ast_node_type in ["ref", "previous", "url"]:
-            target_node = cst_node.named_children[1]
+            target_node = cst_node.child_by_field_name("target")
             ast_node.target = target_node.text.decode("utf-8")
             skip_these_ids.add(target_node.id)
 
-            if len(cst_node.named_children) > 2:
-                reftext_node = cst_node.named_children[2]
+            if reftext_node := cst_node.child_by_field_name("reftext"):
                 ast_node.overwrite_reftext = reftext_node.text.decode("utf-8")
                 skip_these_ids.add(reftext_node.id)
 
@@ -632,7 +643,7 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             ast_node.target = target
 
         if ast_node_type == "cite":
-            target_node = cst_node.named_children[1]
+            target_node = cst_node.child_by_field_name("targetlabels")
             labels = target_node.text.decode("utf-8").split(",")
             ast_node.targetlabels = [l.strip() for l in labels]
             skip_these_ids.add(target_node.id)
-- 
2.43.0


From 8e4891c056faf4a6d11dd9cc381eced7632e33a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 22/26] fix: syntax errors inside metadata, references and
 bibliography entries are ignored without a warning

---
 rsm/tsparser.py | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index bee170d..c422b1a 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -436,8 +436,36 @@ def _normalize_text(root: TSNode) -> str:
     return ""  # This function modifies nodes in place
 
 
+def _warn_error(cst_node: TSNode) -> None:
+    start_row, start_col = cst_node.start_point
+    end_row, end_col = cst_node.end_point
+    logger.warning(
+        "The CST contains errors.",
+        extra=dict(
+            start_row=start_row,
+            start_col=start_col,
+            end_row=end_row,
+            end_col=end_col,
+        ),
+    )
+
+
+def _warn_unreported_errors(root: TSNode, reported: set) -> None:
+    """Report the errors that have no place in the abstract tree, e.g. inside meta."""
+    stack = [root]
+    while stack:
+        cst_node = stack.pop()
+        if cst_node.id in reported:
+            continue
+        if cst_node.type == "ERROR":
+            _warn_error(cst_node)
+        else:
+            stack += reversed(cst_node.children)
+
+
 def _abstractify(cst: TSTree) -> nodes.Manuscript:
     ast_root_node = None
+    reported_errors = set()
     bibliography_node = None
     stack = [(None, cst.root_node)]
     while stack:
@@ -469,6 +497,7 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             )
 
             for c in [c for c in cst_node.named_children if c.type == "ERROR"]:
+                reported_errors.add(c.id)
                 logger.warning(msg=f"Bibitem at {(c.start_point)} has an error")
 
             continue
@@ -578,15 +607,8 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
         elif ast_node_type == "ERROR":
             start_row, start_col = cst_node.start_point
             end_row, end_col = cst_node.end_point
-            logger.warning(
-                "The CST contains errors.",
-                extra=dict(
-                    start_row=start_row,
-                    start_col=start_col,
-                    end_row=end_row,
-                    end_col=end_col,
-                ),
-            )
+            _warn_error(cst_node)
+            reported_errors.add(cst_node.id)
             ast_node = nodes.Error(
                 f"[CST error at ({start_row}, {start_col}) - ({end_row}, {end_col})]",
                 start_point=cst_node.start_point,
@@ -673,5 +695,6 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             ]
         )
 
+    _warn_unreported_errors(cst.root_node, reported_errors)
     _normalize_text(ast_root_node)
     return ast_root_node
-- 
2.43.0


From c2e76edc0331b7c37c0e6ea36b63725d271adb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:09 +0000
Subject: [PATCH 23/26] fix: keep the space that separates adjacent references,
 citations and links

---
 rsm/tsparser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index c422b1a..bc585f0 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -425,6 +425,14 @@ def _normalize_text(root: TSNode) -> str:
         if sibling and type(node) in classes and type(sibling) in classes:
             node.replace_self([node, nodes.Text(" ")])
 
+        # References and such may abut their neighbors, e.g. "$x$:cite:a::", so there is
+        # a space only if there is one in the source.
+        classes += [nodes.Code, nodes.Draft, nodes.PendingCite]
+        classes += [nodes.PendingPrev, nodes.PendingReference, nodes.URL]
+        if sibling and type(node) in classes and type(sibling) in classes:
+            if node.next_sibling() is sibling and node.end_point != sibling.start_point:
+                node.replace_self([node, nodes.Text(" ")])
+
         # Manage escaped characters.
         if isinstance(node, nodes.Text) and not node.asis:
             node.text = EscapedString(node.text, DELIMS).escape()
-- 
2.43.0


From 43c1bb5f9ad260ae853727545403a75ef38d6d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:07 +0000
Subject: [PATCH 24/26] fix: let prepend take any iterable of nodes

---
 rsm/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 7c885c5..b9d528f 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -959,8 +959,8 @@ class NodeWithChildren(Node):
         :meth:`append`
 
         """
-        if isinstance(child, list):
-            for c in reversed(child):
+        if isinstance(child, Iterable):
+            for c in reversed(list(child)):
                 self.prepend(c)
         elif isinstance(child, Node):
             if child.parent and child.parent is not self:
-- 
2.43.0


From 1a00b1b914e8ec5ef4740cfd3d7812fe9dd64fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:54 +0000
Subject: [PATCH 25/26] fix: citing the label of an element that is no
 bibliography entry crashes the transformer

---
 rsm/transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 875de5a..d3f2864 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -209,7 +209,9 @@ class Transformer:
                 cite.label = f"cite-{next(counter)}"
                 pending.replace_self(cite)
                 for tgt in targets:
-                    tgt.backlinks.append(cite.label)
+                    # only bibliography items keep track of who cites them
+                    if isinstance(tgt, (nodes.Bibitem, nodes.UnknownBibitem)):
+                        tgt.backlinks.append(cite.label)
             elif isinstance(pending, nodes.PendingPrev):
                 try:
                     step = pending.first_ancestor_of_type(nodes.Step)
-- 
2.43.0


From d7dde3b3f24fef82b28924a77602b020f39d7344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:33 +0000
Subject: [PATCH 26/26] fix: references to lemmas, definitions, proofs and
 other labelled blocks have an empty tooltip

---
 rsm/static/tooltips.js | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rsm/static/tooltips.js b/rsm/static/tooltips.js
index b63294b..ef5d72d 100644
--- a/rsm/static/tooltips.js
+++ b/rsm/static/tooltips.js
@@ -49,7 +49,7 @@ export function createTooltips() {
 
       let clone = undefined;
 
-      if (["P", "LI", "FIGURE"].includes(tag)) {
+      if (["P", "LI", "OL", "UL", "FIGURE"].includes(tag)) {
         content = $(target).html();
         content = `<div>${content}</div>`;
       } else if (tag == "SPAN" && classes.contains("math")) {
@@ -82,7 +82,11 @@ export function createTooltips() {
           case Array.from(classes).filter(cls => ["math", "algorithm"].includes(cls)).length > 0:
             content = $(target).html();
             break;
-          case Array.from(classes).filter(cls => ["paragraph", "mathblock", "theorem", "proposition", "remark", "bibitem"].includes(cls)).length > 0:
+          case Array.from(classes).filter(cls => [
+            "paragraph", "mathblock", "bibitem", "author", "abstract", "codeblock", "claimblock",
+            "theorem", "lemma", "proposition", "corollary", "definition", "example", "exercise", "problem", "porism",
+            "remark", "sketch", "proof", "subproof", "statement",
+          ].includes(cls)).length > 0:
             clone = $(target).clone();
             stripHandrail(clone);
             content = $(clone).html();
-- 
2.43.0

