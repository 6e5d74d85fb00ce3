From 252fe04ffe713e6a25cecf97559e04edcef62a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 01/15] fix: pass ignore_error down to every nested
 to_markdown() call

One bad inline node made its whole paragraph, list item, task item or
table row disappear (or, inside a list, the flag had no effect below
the first level), although the flag is documented as recursive.
---
 atlas_doc_parser/markdown_helpers.py        | 6 +++---
 atlas_doc_parser/nodes/node_bullet_list.py  | 7 +++++--
 atlas_doc_parser/nodes/node_ordered_list.py | 7 +++++--
 atlas_doc_parser/nodes/node_table.py        | 2 +-
 atlas_doc_parser/nodes/node_task_list.py    | 2 +-
 5 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index 3eceed0..c4f500d 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -91,7 +91,7 @@ def content_to_markdown(
         lst = list()
         for node in content:
             try:
-                md = node.to_markdown()
+                md = node.to_markdown(ignore_error=ignore_error)
                 lst.append(md)
             except Exception as e:  # pragma: no cover
                 if ignore_error:
@@ -147,9 +147,9 @@ def doc_content_to_markdown(
                         TypeEnum.codeBlock,
                     ]
                 ):
-                    md = "\n" + node.to_markdown() + "\n"
+                    md = "\n" + node.to_markdown(ignore_error=ignore_error) + "\n"
                 else:
-                    md = node.to_markdown()
+                    md = node.to_markdown(ignore_error=ignore_error)
                 # print(f"{node = }")  # for debug only
                 # print(f"{md = }")  # for debug only
                 lst.append(md)
diff --git a/atlas_doc_parser/nodes/node_bullet_list.py b/atlas_doc_parser/nodes/node_bullet_list.py
index 285ca45..94e7337 100644
--- a/atlas_doc_parser/nodes/node_bullet_list.py
+++ b/atlas_doc_parser/nodes/node_bullet_list.py
@@ -76,7 +76,10 @@ class NodeBulletList(BaseNode):
                     if node.is_type_of(TypeEnum.bulletList):
                         # Nested list - increase level
                         try:
-                            md = node.to_markdown(level=level + 1)
+                            md = node.to_markdown(
+                                level=level + 1,
+                                ignore_error=ignore_error,
+                            )
                             content_lines.append(md)
                         except Exception as e:
                             if ignore_error:
@@ -86,7 +89,7 @@ class NodeBulletList(BaseNode):
                     else:
                         # Regular content (like paragraph)
                         try:
-                            md = node.to_markdown().rstrip()
+                            md = node.to_markdown(ignore_error=ignore_error).rstrip()
                             content_lines.append(md)
                         except Exception as e:
                             if ignore_error:
diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index 250772b..c38b68c 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -98,7 +98,10 @@ class NodeOrderedList(BaseNode):
                     if node.is_type_of(TypeEnum.orderedList):
                         # Nested list - increase level
                         try:
-                            md = node.to_markdown(level=level + 1)
+                            md = node.to_markdown(
+                                level=level + 1,
+                                ignore_error=ignore_error,
+                            )
                             content_lines.append(md)
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
@@ -108,7 +111,7 @@ class NodeOrderedList(BaseNode):
                     else:
                         # Regular content (like paragraph)
                         try:
-                            md = node.to_markdown().rstrip()
+                            md = node.to_markdown(ignore_error=ignore_error).rstrip()
                             content_lines.append(md)
                         except Exception as e:  # pragma: no cover
                             if ignore_error:
diff --git a/atlas_doc_parser/nodes/node_table.py b/atlas_doc_parser/nodes/node_table.py
index ca343e1..2ea786b 100644
--- a/atlas_doc_parser/nodes/node_table.py
+++ b/atlas_doc_parser/nodes/node_table.py
@@ -76,7 +76,7 @@ class NodeTable(BaseNode):
         lines = list()
         for row in self.content:
             try:
-                md = row.to_markdown()
+                md = row.to_markdown(ignore_error=ignore_error)
                 lines.append(md)
                 if row.content[0].is_type_of(TypeEnum.tableHeader):
                     lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
diff --git a/atlas_doc_parser/nodes/node_task_list.py b/atlas_doc_parser/nodes/node_task_list.py
index de78202..256c119 100644
--- a/atlas_doc_parser/nodes/node_task_list.py
+++ b/atlas_doc_parser/nodes/node_task_list.py
@@ -91,7 +91,7 @@ class NodeTaskList(BaseNode):
                 content_parts = []
                 for node in item.content:
                     try:
-                        md = node.to_markdown()
+                        md = node.to_markdown(ignore_error=ignore_error)
                         content_parts.append(md)
                     except Exception as e:
                         if ignore_error:
-- 
2.43.0


From 99cca1f2ba3c8892f43c47a096e987d1d02ed8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 02/15] fix: render an orderedList that has no attrs

attrs is optional on orderedList, but to_markdown() read attrs.order
unconditionally and raised AttributeError without it.
---
 atlas_doc_parser/nodes/node_ordered_list.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index c38b68c..f4c6576 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -85,7 +85,11 @@ class NodeOrderedList(BaseNode):
         indent = "    " * level  # 4 spaces per level
 
         # Start numbering from attrs.order (or 1 for inner levels)
-        if level == 0 and isinstance(self.attrs.order, int):
+        if (
+            level == 0
+            and self.attrs is not OPT
+            and isinstance(self.attrs.order, int)
+        ):
             current_num = self.attrs.order
         else:
             current_num = 1
-- 
2.43.0


From cef1a92a7641b7ef7799357c7f357f9444d747a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 03/15] fix: render a taskItem that has no content

content is optional on taskItem, but the enclosing taskList iterated over
it unconditionally and raised TypeError. Let the item convert itself, and
keep a failing item from taking the whole list with it.
---
 atlas_doc_parser/nodes/node_task_list.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/atlas_doc_parser/nodes/node_task_list.py b/atlas_doc_parser/nodes/node_task_list.py
index 256c119..9a221c9 100644
--- a/atlas_doc_parser/nodes/node_task_list.py
+++ b/atlas_doc_parser/nodes/node_task_list.py
@@ -88,20 +88,14 @@ class NodeTaskList(BaseNode):
         for item in self.content:
             if item.is_type_of(TypeEnum.taskItem):
                 # Process the task item content (text nodes)
-                content_parts = []
-                for node in item.content:
-                    try:
-                        md = node.to_markdown(ignore_error=ignore_error)
-                        content_parts.append(md)
-                    except Exception as e:
-                        if ignore_error:
-                            pass
-                        else:
-                            raise e
-
-                # Join content parts (they should be on the same line)
                 # Use rstrip() on the final result to remove trailing whitespace
-                item_content = "".join(content_parts).rstrip()
+                try:
+                    item_content = item.to_markdown(ignore_error=ignore_error).rstrip()
+                except Exception as e:
+                    if ignore_error:
+                        continue
+                    else:
+                        raise e
 
                 # Determine checkbox state based on item.attrs.state
                 checkbox = "[x]" if item.attrs.state == "DONE" else "[ ]"
-- 
2.43.0


From 41295fbb2fec3516b8958a72bd0d7abd6ad00ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 04/15] fix: keep the text an indentation mark is applied to

to_markdown() returned only the tabs, so every indented paragraph lost
its text.
---
 atlas_doc_parser/marks/mark_indentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/marks/mark_indentation.py b/atlas_doc_parser/marks/mark_indentation.py
index 64c6a5f..4fbd406 100644
--- a/atlas_doc_parser/marks/mark_indentation.py
+++ b/atlas_doc_parser/marks/mark_indentation.py
@@ -36,4 +36,4 @@ class MarkIndentation(BaseMark):
         self,
         text: str,
     ) -> str:
-        return self.attrs.level * "\t"
+        return self.attrs.level * "\t" + text
-- 
2.43.0


From 6decd113d7cf6d06321d099ac346f35414f6ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 05/15] fix: do not swallow an AttributeError raised by a mark

add_style_to_markdown() guarded the whole mark loop with
'except AttributeError' to cope with nodes without marks, which also hid
errors of the marks themselves: even in strict mode the remaining
formatting was dropped silently.
---
 atlas_doc_parser/markdown_helpers.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/atlas_doc_parser/markdown_helpers.py b/atlas_doc_parser/markdown_helpers.py
index c4f500d..0bce6f4 100644
--- a/atlas_doc_parser/markdown_helpers.py
+++ b/atlas_doc_parser/markdown_helpers.py
@@ -190,13 +190,11 @@ def add_style_to_markdown(
         md = add_style_to_markdown(md, self)
         return md
     """
-    try:
-        if isinstance(node.marks, list):
-            for mark in node.marks:
-                md = mark.to_markdown(md)
     # some node doesn't have marks attribute (don't support styles)
-    except AttributeError:
-        pass
+    marks = getattr(node, "marks", OPT)
+    if isinstance(marks, list):
+        for mark in marks:
+            md = mark.to_markdown(md)
     return md
 
 
-- 
2.43.0


From 931d438e497f91904dab86e45aad7331ca675537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 06/15] fix: fail on the text node itself when its text is not
 a string

A null or numeric text was returned as is and only failed later, in the
join over all siblings, outside the per-node error handling: with
ignore_error=True it took the whole paragraph with it.
---
 atlas_doc_parser/nodes/node_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atlas_doc_parser/nodes/node_text.py b/atlas_doc_parser/nodes/node_text.py
index e4e908b..7636abd 100644
--- a/atlas_doc_parser/nodes/node_text.py
+++ b/atlas_doc_parser/nodes/node_text.py
@@ -53,6 +53,8 @@ class NodeText(BaseNode):
         self,
         ignore_error: bool = False,
     ):
+        if not isinstance(self.text, str):
+            raise TypeError(f"text must be a string, got {type(self.text).__name__}")
         md = self.text
         md = add_style_to_markdown(md=md, node=self)
         return md
-- 
2.43.0


From 1f9d04e61c9b3a87e06551f5fb3c7d808c1fb77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 07/15] fix: render a table row that has no cells

A row whose cells were all skipped as unimplemented types (or that is
empty) made the whole table raise IndexError.
---
 atlas_doc_parser/nodes/node_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_table.py b/atlas_doc_parser/nodes/node_table.py
index 2ea786b..94f8e29 100644
--- a/atlas_doc_parser/nodes/node_table.py
+++ b/atlas_doc_parser/nodes/node_table.py
@@ -78,7 +78,7 @@ class NodeTable(BaseNode):
             try:
                 md = row.to_markdown(ignore_error=ignore_error)
                 lines.append(md)
-                if row.content[0].is_type_of(TypeEnum.tableHeader):
+                if row.content and row.content[0].is_type_of(TypeEnum.tableHeader):
                     lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
             except Exception as e:  # pragma: no cover
                 if ignore_error:
-- 
2.43.0


From dc33bb8951491656c525f8e02f980b676073844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 08/15] fix: a failing table cell must not take its row with it

With ignore_error=True the row was dropped as a whole when one of its
cells could not be converted.
---
 atlas_doc_parser/nodes/node_table_row.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/atlas_doc_parser/nodes/node_table_row.py b/atlas_doc_parser/nodes/node_table_row.py
index eaa548c..842ccbb 100644
--- a/atlas_doc_parser/nodes/node_table_row.py
+++ b/atlas_doc_parser/nodes/node_table_row.py
@@ -53,6 +53,12 @@ class NodeTableRow(BaseNode):
     ) -> str:
         cells = []
         for cell in self.content:
-            md = cell.to_markdown(ignore_error=ignore_error)
+            try:
+                md = cell.to_markdown(ignore_error=ignore_error)
+            except Exception as e:
+                if ignore_error:
+                    md = ""  # keep the column of the cell that failed
+                else:
+                    raise e
             cells.append(md)
         return "| " + " | ".join(cells) + " |"
-- 
2.43.0


From c4ba4f94b577c8d87e9bc23225ae3e5bdff35ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 09/15] fix: a broken list item must not take its list with it

A listItem whose content is not a list (e.g. null) made the enclosing
list fail as a whole even with ignore_error=True.
---
 atlas_doc_parser/nodes/node_bullet_list.py  | 9 ++++++++-
 atlas_doc_parser/nodes/node_ordered_list.py | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/nodes/node_bullet_list.py b/atlas_doc_parser/nodes/node_bullet_list.py
index 94e7337..e06cf7d 100644
--- a/atlas_doc_parser/nodes/node_bullet_list.py
+++ b/atlas_doc_parser/nodes/node_bullet_list.py
@@ -72,7 +72,14 @@ class NodeBulletList(BaseNode):
             if item.is_type_of(TypeEnum.listItem):
                 # Process the list item content
                 content_lines = []
-                for node in item.content:
+                try:
+                    children = list(item.content)
+                except Exception as e:
+                    if ignore_error:
+                        continue
+                    else:
+                        raise e
+                for node in children:
                     if node.is_type_of(TypeEnum.bulletList):
                         # Nested list - increase level
                         try:
diff --git a/atlas_doc_parser/nodes/node_ordered_list.py b/atlas_doc_parser/nodes/node_ordered_list.py
index f4c6576..d760fbc 100644
--- a/atlas_doc_parser/nodes/node_ordered_list.py
+++ b/atlas_doc_parser/nodes/node_ordered_list.py
@@ -98,7 +98,14 @@ class NodeOrderedList(BaseNode):
             if item.is_type_of(TypeEnum.listItem):
                 # Process the list item content
                 content_lines = []
-                for node in item.content:
+                try:
+                    children = list(item.content)
+                except Exception as e:
+                    if ignore_error:
+                        continue
+                    else:
+                        raise e
+                for node in children:
                     if node.is_type_of(TypeEnum.orderedList):
                         # Nested list - increase level
                         try:
-- 
2.43.0


From ff06b7d24bc20cffc7a38da45d5fa77cdcc5f273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 10/15] fix: leave absent optional attributes out of a
 serialised mark

BaseMark.to_dict() looked for to_dict() on the already converted dict, so
it never ran: a link without title, id, collection or occurrenceKey
serialised with OPT sentinel objects, which json.dumps() rejects.
---
 atlas_doc_parser/mark_or_node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/mark_or_node.py b/atlas_doc_parser/mark_or_node.py
index 984aabf..8301849 100644
--- a/atlas_doc_parser/mark_or_node.py
+++ b/atlas_doc_parser/mark_or_node.py
@@ -163,8 +163,8 @@ class BaseMark(BaseMarkOrNode):
     def to_dict(self) -> T_DATA:
         """Serialize to dictionary, handling nested attrs."""
         data = super().to_dict()
-        if "attrs" in data and hasattr(data["attrs"], "to_dict"):
-            data["attrs"] = remove_optional(**data["attrs"])
+        if "attrs" in data and hasattr(self.attrs, "to_dict"):
+            data["attrs"] = self.attrs.to_dict()
         return data
 
     def to_markdown(self, text: str) -> str:
-- 
2.43.0


From bf71ee34bae27c985a7cd1fe0d3c2ade188483ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 11/15] fix: do not overwrite the API module when a source
 directory cannot be listed

---
 atlas_doc_parser/gen_code.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/gen_code.py b/atlas_doc_parser/gen_code.py
index 8fb44be..d48303e 100644
--- a/atlas_doc_parser/gen_code.py
+++ b/atlas_doc_parser/gen_code.py
@@ -131,13 +131,14 @@ def scan_all_modules() -> dict[str, list[PublicAPI]]:
 
     # Scan marks directory
     marks_dir = path_enum.dir_package / "marks"
-    for module_path in sorted(marks_dir.glob("mark_*.py")):
+    # Path.glob() hides an unreadable directory, iterdir() does not
+    for module_path in sorted(p for p in marks_dir.iterdir() if p.match("mark_*.py")):
         apis = scan_module_for_public_apis(module_path, base_classes)
         result["marks"].extend(apis)
 
     # Scan nodes directory
     nodes_dir = path_enum.dir_package / "nodes"
-    for module_path in sorted(nodes_dir.glob("node_*.py")):
+    for module_path in sorted(p for p in nodes_dir.iterdir() if p.match("node_*.py")):
         apis = scan_module_for_public_apis(module_path, base_classes)
         result["nodes"].extend(apis)
 
-- 
2.43.0


From 2b0272d5a6cf1aceb231b567be52b496e429716b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 12/15] fix: restore the working directory when interrupted
 right after changing it

---
 atlas_doc_parser/vendor/pytest_cov_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atlas_doc_parser/vendor/pytest_cov_helper.py b/atlas_doc_parser/vendor/pytest_cov_helper.py
index cc1c0e6..fe9085f 100644
--- a/atlas_doc_parser/vendor/pytest_cov_helper.py
+++ b/atlas_doc_parser/vendor/pytest_cov_helper.py
@@ -16,8 +16,8 @@ def temp_cwd(path: Path):
     switch back when it's done.
     """
     cwd = os.getcwd()
-    os.chdir(str(path))
     try:
+        os.chdir(str(path))
         yield path
     finally:
         os.chdir(cwd)
-- 
2.43.0


From e139a23d7f7e3cd4dbb93f8fa4e3d21bd6b704aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 13/15] fix: ignore content and marks on nodes that define no
 such field

---
 atlas_doc_parser/mark_or_node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atlas_doc_parser/mark_or_node.py b/atlas_doc_parser/mark_or_node.py
index 8301849..45b58b0 100644
--- a/atlas_doc_parser/mark_or_node.py
+++ b/atlas_doc_parser/mark_or_node.py
@@ -250,7 +250,7 @@ class BaseNode(BaseMarkOrNode):
                     dct["attrs"] = attrs_field.type.from_dict(dct["attrs"])
 
         # Deserialize content (child nodes)
-        if "content" in dct:
+        if "content" in dct and "content" in cls.get_fields():
             if isinstance(dct["content"], list) and parse_node is not None:
                 new_content = []
                 for d in dct["content"]:
@@ -266,7 +266,7 @@ class BaseNode(BaseMarkOrNode):
                 dct["content"] = new_content
 
         # Deserialize marks
-        if "marks" in dct:
+        if "marks" in dct and "marks" in cls.get_fields():
             if isinstance(dct["marks"], list) and parse_mark is not None:
                 new_marks = []
                 for d in dct["marks"]:
-- 
2.43.0


From 66b2f07f516e4eeb852df61166dfcfab34dbd2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 14/15] fix: keep the unimplemented-type error intact when it
 is copied or pickled

---
 atlas_doc_parser/exc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atlas_doc_parser/exc.py b/atlas_doc_parser/exc.py
index 39623c1..bca3f08 100644
--- a/atlas_doc_parser/exc.py
+++ b/atlas_doc_parser/exc.py
@@ -38,3 +38,7 @@ class UnimplementedTypeError(Exception):
             f"Please submit an issue at https://github.com/MacHu-GWU/atlas_doc_parser-project/issues "
             f"with this type name so it can be added in a future release."
         )
+
+    def __reduce__(self):
+        # args holds the message; copies and unpickling call __init__
+        return type(self), (self.type_value, self.category), self.__dict__
-- 
2.43.0


From 1f84d03b5f295583a9a17b314ee844419d56d56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:37 +0000
Subject: [PATCH 15/15] fix: generate mixin stubs atomically, so that an
 interrupted run leaves no truncated stub that is preserved

---
 scripts/s02-nodes-code-gen/s1_gen_code.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/scripts/s02-nodes-code-gen/s1_gen_code.py b/scripts/s02-nodes-code-gen/s1_gen_code.py
index 5f34c07..7a9314e 100644
--- a/scripts/s02-nodes-code-gen/s1_gen_code.py
+++ b/scripts/s02-nodes-code-gen/s1_gen_code.py
@@ -490,6 +490,19 @@ def generate_mixin_stub(names: DefinitionNames, is_mark: bool) -> str:
     )
 
 
+def write_new_file(path: Path, content: str):
+    """
+    Create a file that later runs never overwrite.
+
+    It appears under its name only when it is complete, so that an interrupted
+    run cannot leave a truncated file that would be preserved from then on.
+    """
+    path_temp = path.with_name(path.name + ".tmp")
+    with open(path_temp, "w") as f:
+        f.write(content)
+    path_temp.replace(path)
+
+
 # =============================================================================
 # Main
 # =============================================================================
@@ -569,8 +582,7 @@ def main():
         else:
             names = def_name_to_names(f"{info['type_name']}_mark")
             mixin_content = generate_mixin_stub(names, is_mark=True)
-            with open(path_mixin, "w") as f:
-                f.write(mixin_content)
+            write_new_file(path_mixin, mixin_content)
             print(f"Created mixin stub: {path_mixin.name}")
             mixin_created += 1
 
@@ -581,8 +593,7 @@ def main():
         else:
             names = def_name_to_names(f"{info['type_name']}_node")
             mixin_content = generate_mixin_stub(names, is_mark=False)
-            with open(path_mixin, "w") as f:
-                f.write(mixin_content)
+            write_new_file(path_mixin, mixin_content)
             print(f"Created mixin stub: {path_mixin.name}")
             mixin_created += 1
 
-- 
2.43.0

