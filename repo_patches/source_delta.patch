From b93879b8f081f0b7fe95ed9606561f9e36891d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 01/39] fix: parse a range only if it makes up the whole range
 cell

A prefix of the cell matching was enough, so '16*n+15:16*n' became the
numeric range 16:16 and '85:64 (note)' silently lost its remainder.
---
 src/spex/jsonspec/extractors/regular_expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/extractors/regular_expressions.py b/src/spex/jsonspec/extractors/regular_expressions.py
index 69e2f00..4cd6b47 100644
--- a/src/spex/jsonspec/extractors/regular_expressions.py
+++ b/src/spex/jsonspec/extractors/regular_expressions.py
@@ -56,7 +56,7 @@ VALUE_LABEL_REGEX = ContentRegex(
     )
 )
 
-RANGE_REGEX = compile(r"(?P<high>\d+)\s*(:\s*(?P<low>\d+))?")
+RANGE_REGEX = compile(r"(?P<high>\d+)\s*(:\s*(?P<low>\d+)\s*)?\Z")
 
 DYNAMIC_RANGE_REGEX = compile(
     r"^(?P<low>[a-zA-Z0-9+\-*()\s]+):(?P<high>[a-zA-Z0-9+\-*()\s]+)"
-- 
2.43.0


From a9042cefe36eb05b6cbc937dd6e9cf5cda7be913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 02/39] fix: parse a dynamic range only if it makes up the
 whole range cell

---
 src/spex/jsonspec/extractors/regular_expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/extractors/regular_expressions.py b/src/spex/jsonspec/extractors/regular_expressions.py
index 4cd6b47..82e803a 100644
--- a/src/spex/jsonspec/extractors/regular_expressions.py
+++ b/src/spex/jsonspec/extractors/regular_expressions.py
@@ -59,7 +59,7 @@ VALUE_LABEL_REGEX = ContentRegex(
 RANGE_REGEX = compile(r"(?P<high>\d+)\s*(:\s*(?P<low>\d+)\s*)?\Z")
 
 DYNAMIC_RANGE_REGEX = compile(
-    r"^(?P<low>[a-zA-Z0-9+\-*()\s]+):(?P<high>[a-zA-Z0-9+\-*()\s]+)"
+    r"^(?P<low>[a-zA-Z0-9+\-*()\s]+):(?P<high>[a-zA-Z0-9+\-*()\s]+)\Z"
 )
 
 ELLIPSIS_LABEL_REGEX = compile(r"^[\s]*[\.\.\.]|[…][\s]*$")
-- 
2.43.0


From 6140e0825a01f39236a025dbb3dc3a59808414b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 03/39] fix: exempt only the ellipsis from label validation

The alternation let every label starting with a full stop and every label
ending in an ellipsis pass unreported.
---
 src/spex/jsonspec/extractors/regular_expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/extractors/regular_expressions.py b/src/spex/jsonspec/extractors/regular_expressions.py
index 82e803a..d639851 100644
--- a/src/spex/jsonspec/extractors/regular_expressions.py
+++ b/src/spex/jsonspec/extractors/regular_expressions.py
@@ -62,7 +62,7 @@ DYNAMIC_RANGE_REGEX = compile(
     r"^(?P<low>[a-zA-Z0-9+\-*()\s]+):(?P<high>[a-zA-Z0-9+\-*()\s]+)\Z"
 )
 
-ELLIPSIS_LABEL_REGEX = compile(r"^[\s]*[\.\.\.]|[…][\s]*$")
+ELLIPSIS_LABEL_REGEX = compile(r"^\s*(\.\.\.|…)\s*$")
 
 LABEL_VALIDATION_REGEX = compile(r"^[a-zA-Z][\w]*$")
 
-- 
2.43.0


From 402d4c285e1a57debb7f27ef54fd9ace37346994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 04/39] fix: compare each field with the one before it in the
 row order check

Every field was compared with the first one, so a table with offsets
0, 16, 8 passed as ordered.
---
 src/spex/jsonspec/extractors/structtable.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index 926ebee..ad1a9cc 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -242,8 +242,7 @@ class StructTableExtractor(FigureExtractor, ABC):
                 ):
                     self.add_issue(LintErr.TBL_ROW_ORDER_REVERSED)
                     return
-            else:
-                prev_range = field_range
+            prev_range = field_range
 
         labels = {fields[0]["label"]}
         prev_range = field_get_range(fields[0])
-- 
2.43.0


From 0a93f546830c066480c6df81fcc5587b7bd06caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:18 +0000
Subject: [PATCH 05/39] fix: drop all white space from the bounds of a dynamic
 range

Tabs and no-break spaces stayed in the bounds.
---
 src/spex/jsonspec/extractors/structtable.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index ad1a9cc..3af3aaa 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -427,9 +427,7 @@ class StructTableExtractor(FigureExtractor, ABC):
         return content_extract_brief(content, self.BRIEF_MAXLEN)
 
     def _parse_dynamic_range(self, field_range: str) -> MaybeRange:
-        range_match = DYNAMIC_RANGE_REGEX.match(
-            field_range.replace("\n", "").replace(" ", "")
-        )
+        range_match = DYNAMIC_RANGE_REGEX.match("".join(field_range.split()))
         if range_match is None:
             self.add_issue(LintErr.RANGE_INVALID, row_key=field_range)
             return field_range
-- 
2.43.0


From 7f2827d699c7edfa82db549f4d93e18d002d9bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 06/39] fix: parse ranges of reserved rows in a dynamic list as
 dynamic ranges

Placeholder rows behind a list section header were parsed with the rules
for plain ranges, which do not know formulas.
---
 src/spex/jsonspec/extractors/structtable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index 3af3aaa..e501335 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -176,7 +176,11 @@ class StructTableExtractor(FigureExtractor, ABC):
                     continue
                 elif field := self.handle_special_case(
                     content=content_field,
-                    range=self._parse_range(range_field, range_field),
+                    range=(
+                        self._parse_dynamic_range(field_range=range_field)
+                        if is_dynamic_table_mode
+                        else self._parse_range(range_field, range_field)
+                    ),
                 ):
                     fields.append(field)
                 continue
-- 
2.43.0


From f55b916f3da3f0f84c0b21ad0c7f37c381da8572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 07/39] fix: keep the placeholder of a row whose attribute
 column says reserved

The row was recognised as a special case by its label, but looked up by
its description, and so vanished from the table unless both said the same.
---
 src/spex/jsonspec/extractors/structtable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index e501335..ae8e7f1 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -175,7 +175,11 @@ class StructTableExtractor(FigureExtractor, ABC):
                 if self.is_special_case(range_field):
                     continue
                 elif field := self.handle_special_case(
-                    content=content_field,
+                    content=(
+                        label_field
+                        if self.is_special_case(label_field)
+                        else content_field
+                    ),
                     range=(
                         self._parse_dynamic_range(field_range=range_field)
                         if is_dynamic_table_mode
-- 
2.43.0


From 30e3a3d6b4e01267d8d0a05a688bc0bf8a62cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 08/39] fix: collapse every run of separators in a label to one
 underscore

Only pairs were collapsed, 'a - b' became 'A__B'.
---
 src/spex/jsonspec/extractors/helpers.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/spex/jsonspec/extractors/helpers.py b/src/spex/jsonspec/extractors/helpers.py
index 1f995ca..31a7cb8 100644
--- a/src/spex/jsonspec/extractors/helpers.py
+++ b/src/spex/jsonspec/extractors/helpers.py
@@ -3,6 +3,7 @@
 # SPDX-License-Identifier: BSD-3-Clause
 
 from dataclasses import dataclass, fields
+from re import sub
 from typing import TYPE_CHECKING, Optional, Union
 
 from spex.jsonspec.extractors.regular_expressions import (
@@ -93,15 +94,11 @@ def normalize_label(label: str) -> str:
     Returns:
         str: Normalized string
     """
-    return (
-        label.lstrip()
-        .rstrip()
-        .replace(" ", "_")
-        .replace("/", "")
-        .replace("-", "_")
-        .replace("__", "_")
-        .upper()
-    )
+    return sub(
+        "_+",
+        "_",
+        label.lstrip().rstrip().replace(" ", "_").replace("/", "").replace("-", "_"),
+    ).upper()
 
 
 def validate_label(lbl: str, fig_id: str, row_key: str, linter: Linter) -> None:
-- 
2.43.0


From febe64e8a3fcd7b67d77c5f99ac4cd7b5985e7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 09/39] fix: keep all of a label whose leading number is moved
 to the end

Text behind a line break was dropped.
---
 src/spex/jsonspec/extractors/regular_expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/extractors/regular_expressions.py b/src/spex/jsonspec/extractors/regular_expressions.py
index d639851..f3376bf 100644
--- a/src/spex/jsonspec/extractors/regular_expressions.py
+++ b/src/spex/jsonspec/extractors/regular_expressions.py
@@ -66,6 +66,6 @@ ELLIPSIS_LABEL_REGEX = compile(r"^\s*(\.\.\.|…)\s*$")
 
 LABEL_VALIDATION_REGEX = compile(r"^[a-zA-Z][\w]*$")
 
-LABEL_NUMERICAL_REARRANGE_REGEX = compile(r"^(\d+)(.*)")
+LABEL_NUMERICAL_REARRANGE_REGEX = compile(r"^(\d+)(.*)", DOTALL)
 
 TABLE_ID_REGEX = compile(r"^Figure (?P<id>\d+):.*")
-- 
2.43.0


From 992f6e790f5c86cf8f7f0adb95ce6db073c8ca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 10/39] fix: trim a label after dropping its slashes

The blank in front of a trailing slash survived as an underscore or line
break at the end of the label.
---
 src/spex/jsonspec/extractors/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/extractors/helpers.py b/src/spex/jsonspec/extractors/helpers.py
index 31a7cb8..c1cb97f 100644
--- a/src/spex/jsonspec/extractors/helpers.py
+++ b/src/spex/jsonspec/extractors/helpers.py
@@ -97,7 +97,7 @@ def normalize_label(label: str) -> str:
     return sub(
         "_+",
         "_",
-        label.lstrip().rstrip().replace(" ", "_").replace("/", "").replace("-", "_"),
+        label.replace("/", "").strip().replace(" ", "_").replace("-", "_"),
     ).upper()
 
 
-- 
2.43.0


From 96ea9608c88fb41aae253d69f7299aaa34c4f9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 11/39] fix: read cells by logical column rather than by their
 position in the row

A cell spanning columns shifted all cells behind it, so a row was read from
the wrong columns or failed the table. With repeated headings the last one
was used, although the first is documented to be.
---
 src/spex/jsonspec/extractors/figure.py      | 36 +++++++++++++++++++++
 src/spex/jsonspec/extractors/structtable.py |  8 ++---
 src/spex/jsonspec/extractors/valuetable.py  |  8 ++---
 3 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/spex/jsonspec/extractors/figure.py b/src/spex/jsonspec/extractors/figure.py
index dcf5045..d348797 100644
--- a/src/spex/jsonspec/extractors/figure.py
+++ b/src/spex/jsonspec/extractors/figure.py
@@ -7,6 +7,7 @@ from enum import Enum
 from typing import TYPE_CHECKING, Dict, Iterator, List, Optional, Tuple
 
 from spex.jsonspec.defs import JSON
+from spex.jsonspec.exceptions import XPathElementNotFoundException
 from spex.jsonspec.extractors.helpers import (
     StructTableMapping,
     ValueTableMapping,
@@ -107,6 +108,41 @@ class FigureExtractor(ABC):
         # -> filters out header (th) rows
         yield from row_iter(self.tbl)
 
+    def col_ndxs(self) -> Dict[str, int]:
+        """Return the logical column at which the cell of each heading starts.
+
+        Note:
+            if a heading occurs repeatedly, its first occurrence is used.
+        """
+        ndxs: Dict[str, int] = {}
+        col_off = 0
+        for hdr, cell in zip(self.tbl_hdrs, Xpath.elems(self.tbl, "./tr[1]/*")):
+            ndxs.setdefault(hdr, col_off)
+            col_off += int(cell.get("colspan", 1))
+        return ndxs
+
+    def col_elem(self, row: Element, col_ndx: int) -> Element:
+        """Return the cell covering a given logical column of the row.
+
+        Args:
+            row: the row to query
+            col_ndx: offset of the logical column
+
+        Returns:
+            The cell. Raises XPathElementNotFoundException if the row has no such
+            cell or if its one and only cell does not start at this column.
+        """
+        tds = Xpath.elems(row, "./td")
+        if len(tds) > 1 or col_ndx == 0:
+            col_off = 0
+            for td in tds:
+                col_off += int(td.get("colspan", 1))
+                if col_ndx < col_off:
+                    return td
+        raise XPathElementNotFoundException(
+            message=f"row has no cell covering column {col_ndx}", query=None
+        )
+
     def extract_data_sub_table(
         self, entity_base: "EntityMeta", data: Element
     ) -> Iterator["Entity"]:
diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index ae8e7f1..34c4118 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -77,7 +77,7 @@ class StructTableExtractor(FigureExtractor, ABC):
 
     def __init__(self, *args: Any, mapping: StructTableMapping, **kwargs: Any):
         super().__init__(*args, **kwargs)
-        col_ndxs = {hdr: ndx for ndx, hdr in enumerate(self.tbl_hdrs)}
+        col_ndxs = self.col_ndxs()
 
         self._col_ndx_range = col_ndxs[cast(str, mapping.range_column)]
         self._col_ndx_label = col_ndxs[cast(str, mapping.label_column)]
@@ -302,7 +302,7 @@ class StructTableExtractor(FigureExtractor, ABC):
             an XPathElementNotFoundException
         """
 
-        return Xpath.elem_first_req(row, f"./td[{self._col_ndx_range + 1}]")
+        return self.col_elem(row, self._col_ndx_range)
 
     def content_elem(self, row: Element) -> Element:
         """Query row to find content element
@@ -315,7 +315,7 @@ class StructTableExtractor(FigureExtractor, ABC):
             an XPathElementNotFoundException
         """
 
-        return Xpath.elem_first_req(row, f"./td[{self._col_ndx_content + 1}]")
+        return self.col_elem(row, self._col_ndx_content)
 
     def label_elem(self, row: Element) -> Element:
         """Query row to find label element
@@ -327,7 +327,7 @@ class StructTableExtractor(FigureExtractor, ABC):
             Element: If label element is found return it, this method can raise
             an XPathElementNotFoundException
         """
-        return Xpath.elem_first_req(row, f"./td[{self._col_ndx_label + 1}]/p[1]")
+        return Xpath.elem_first_req(self.col_elem(row, self._col_ndx_label), "./p[1]")
 
     def _struct_field(
         self, maybe_range: MaybeRange, label: str, brief: Optional[str] = None
diff --git a/src/spex/jsonspec/extractors/valuetable.py b/src/spex/jsonspec/extractors/valuetable.py
index d4c50c6..0302dbc 100644
--- a/src/spex/jsonspec/extractors/valuetable.py
+++ b/src/spex/jsonspec/extractors/valuetable.py
@@ -59,7 +59,7 @@ class ValueTableExtractor(FigureExtractor):
 
     def __init__(self, *args: Any, mapping: ValueTableMapping, **kwargs: Any) -> None:
         super().__init__(*args, **kwargs)
-        col_ndxs = {hdr: ndx for ndx, hdr in enumerate(self.tbl_hdrs)}
+        col_ndxs = self.col_ndxs()
 
         self._col_ndx_value = col_ndxs[cast(str, mapping.value_column)]
         self._col_ndx_label = col_ndxs[cast(str, mapping.label_column)]
@@ -221,18 +221,18 @@ class ValueTableExtractor(FigureExtractor):
             values.add(field_value)
 
     def val_elem(self, row: Element) -> Element:
-        return Xpath.elem_first_req(row, f"./td[{self._col_ndx_value + 1}]")
+        return self.col_elem(row, self._col_ndx_value)
 
     def val_clean(self, row: Element, val_cell: Element) -> Union[str, int]:
         return XmlUtils.to_text(val_cell).lower()
 
     def content_elem(self, row: Element) -> Element:
-        return Xpath.elem_first_req(row, f"./td[{self._col_ndx_content + 1}]")
+        return self.col_elem(row, self._col_ndx_content)
 
     def _extract_label_dedicated_col(self, row: Element, row_key: str) -> str:
         # if we hit this, some document actually has a value table with a
         # dedicated 'attribute' column
-        p1 = Xpath.elem_first_req(row, f"./td[{self._col_ndx_label + 1}]/p[1]")
+        p1 = Xpath.elem_first_req(self.col_elem(row, self._col_ndx_label), "./p[1]")
         txt = XmlUtils.to_text(p1).lower()
         if txt == "reserved":
             return RESERVED
-- 
2.43.0


From b738abc3c75feaec279020789ef0b918a14958c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 12/39] fix: let rowspans end where they should

Header rows and rows all of whose cells are spanned from above were not
counted, so the spanned cells reached into rows they do not cover.
---
 src/spex/jsonspec/rowiter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/spex/jsonspec/rowiter.py b/src/spex/jsonspec/rowiter.py
index f20fc82..749e72b 100644
--- a/src/spex/jsonspec/rowiter.py
+++ b/src/spex/jsonspec/rowiter.py
@@ -82,14 +82,15 @@ def alst_repr(alst: List[ALST]) -> str:
 
 
 def row_iter(tbl: Element) -> Iterator[Element]:
-    it = Xpath.elems(tbl, "./tr/td[1]/parent::tr | ./tr/th[1]/parent::tr")
-    # it = Xpath.elems(tbl, "./tr/td[1]/parent::tr")
     alst: List[ALST] = []
 
     row_cnt = 1
-    for row in it:
+    for row in Xpath.elems(tbl, "./tr"):
         if contains_th(row):
             yield row
+            alst = alst_count_decr(alst)
+            continue
+        if not alst and len(row) == 0:
             continue
         if alst:
             row_ = row
-- 
2.43.0


From 3c77bc576a3ad1c5c57283a0799c8273cb0780a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 13/39] fix: pick the columns of a table by heading priority,
 not by column order

---
 src/spex/jsonspec/extractors/structtable.py | 6 +++---
 src/spex/jsonspec/extractors/valuetable.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index 34c4118..5afbf3d 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -87,13 +87,13 @@ class StructTableExtractor(FigureExtractor, ABC):
     def _can_apply(cls, tbl_col_hdrs: List[str]) -> "Mapping":
         return StructTableMapping(
             range_column=next(
-                (hdr for hdr in tbl_col_hdrs if hdr in cls.range_column_hdrs()), None
+                (hdr for hdr in cls.range_column_hdrs() if hdr in tbl_col_hdrs), None
             ),
             label_column=next(
-                (hdr for hdr in tbl_col_hdrs if hdr in cls.label_column_hdrs()), None
+                (hdr for hdr in cls.label_column_hdrs() if hdr in tbl_col_hdrs), None
             ),
             content_column=next(
-                (hdr for hdr in tbl_col_hdrs if hdr in cls.content_column_hdrs()), None
+                (hdr for hdr in cls.content_column_hdrs() if hdr in tbl_col_hdrs), None
             ),
         )
 
diff --git a/src/spex/jsonspec/extractors/valuetable.py b/src/spex/jsonspec/extractors/valuetable.py
index 0302dbc..535da93 100644
--- a/src/spex/jsonspec/extractors/valuetable.py
+++ b/src/spex/jsonspec/extractors/valuetable.py
@@ -36,13 +36,13 @@ class ValueTableExtractor(FigureExtractor):
     def _can_apply(cls, tbl_col_hdrs: List[str]) -> "Mapping":
         m = ValueTableMapping(
             value_column=next(
-                (hdr for hdr in tbl_col_hdrs if hdr in cls.value_column_hdrs()), None
+                (hdr for hdr in cls.value_column_hdrs() if hdr in tbl_col_hdrs), None
             ),
             label_column=next(
-                (hdr for hdr in tbl_col_hdrs if hdr in cls.label_column_hdrs()), None
+                (hdr for hdr in cls.label_column_hdrs() if hdr in tbl_col_hdrs), None
             ),
             content_column=next(
-                (hdr for hdr in tbl_col_hdrs if hdr in cls.content_column_hdrs()), None
+                (hdr for hdr in cls.content_column_hdrs() if hdr in tbl_col_hdrs), None
             ),
         )
         if not mapping_incomplete(m):
-- 
2.43.0


From b9ecdd5ed9ec1c50968cc99fbc754fda4896a3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 14/39] fix: skip tables without rows, they are not figures

---
 src/spex/jsonspec/document.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/document.py b/src/spex/jsonspec/document.py
index 4e31b50..91daddb 100644
--- a/src/spex/jsonspec/document.py
+++ b/src/spex/jsonspec/document.py
@@ -193,7 +193,9 @@ class DocumentParser:
             if inner_tbl is not None and inner_tbl.tag == "table":
                 tbl = inner_tbl
 
-            fig_tr = Xpath.elem_first_req(tbl, "./tr[1]")
+            fig_tr = Xpath.elem_first(tbl, "./tr[1]")
+            if fig_tr is None:
+                continue  # an empty table, not a figure
             # remove entire tr to simplify downstream processing between top-level and
             # nested figures.
             parent = fig_tr.getparent()
-- 
2.43.0


From f940c7ec711f6ecec5705c10474ae84bcb2fe893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 15/39] fix: accept the formula ranges of dynamic lists in the
 stage 2 schema

---
 src/spex/resources/stage2.schema.json | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/spex/resources/stage2.schema.json b/src/spex/resources/stage2.schema.json
index c7eaea1..50d500c 100644
--- a/src/spex/resources/stage2.schema.json
+++ b/src/spex/resources/stage2.schema.json
@@ -150,6 +150,18 @@
                             }
                           }
                         },
+                        {
+                          "description": "a range in a dynamic list, its bounds are formulas",
+                          "type": "object",
+                          "properties": {
+                            "low": {
+                              "type": "string"
+                            },
+                            "high": {
+                              "type": "string"
+                            }
+                          }
+                        },
                         {
                           "description": "special range signifying a gap in the data-structure's definition",
                           "type": "object",
-- 
2.43.0


From 73320efd498771d998958b667e01d6cb2ed2b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:06 +0000
Subject: [PATCH 16/39] fix: accept value tables without entries in the stage 2
 schema

---
 src/spex/resources/stage2.schema.json | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spex/resources/stage2.schema.json b/src/spex/resources/stage2.schema.json
index 50d500c..c7d5f14 100644
--- a/src/spex/resources/stage2.schema.json
+++ b/src/spex/resources/stage2.schema.json
@@ -101,8 +101,7 @@
                     }
                   },
                   "required": ["val", "label"]
-                },
-                "minItems": 1
+                }
               }
             },
             "required": [
-- 
2.43.0


From 46d775c4dd3fdaa25fe866848343e42327de174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 17/39] fix: apply label overrides to the rows of bits and
 bytes tables

---
 src/spex/jsonspec/extractors/structtable.py | 30 ++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index 5afbf3d..5c9f610 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -139,7 +139,9 @@ class StructTableExtractor(FigureExtractor, ABC):
 
             # Extract string representations of the fields: range, label and brief
             try:
-                range_field, content_field, label_field = self._extract_fields(row)
+                range_field, content_field, label_field = self._extract_fields(
+                    row, is_dynamic_table_mode
+                )
             except XPathElementNotFoundException as e:
                 row_txt = XmlUtils.to_text(row).lower()
                 if row_txt.startswith(ELLIPSIS):
@@ -344,7 +346,9 @@ class StructTableExtractor(FigureExtractor, ABC):
                 "range": maybe_range,
             }
 
-    def _extract_fields(self, row: Element) -> Tuple[str, str, str]:
+    def _extract_fields(
+        self, row: Element, is_dynamic: bool = False
+    ) -> Tuple[str, str, str]:
         """Extract the range/content/label elements from row
 
         Will return a tuple containing strings
@@ -352,6 +356,7 @@ class StructTableExtractor(FigureExtractor, ABC):
         Args:
             row (Element): A row element to extract the inner elements of the
             range, label and content columns.
+            is_dynamic (bool): Whether the row is part of a dynamic list
 
         Returns:
             Tuple[Element, Element]:
@@ -359,9 +364,24 @@ class StructTableExtractor(FigureExtractor, ABC):
         """
         range = XmlUtils.to_text(self.range_elem(row))
         content = XmlUtils.to_text(self.content_elem(row))
-        label = XmlUtils.to_text(self.label_elem(row))
+        try:
+            label = XmlUtils.to_text(self.label_elem(row))
+        except XPathElementNotFoundException:
+            # the row may yet be named by an override
+            if is_dynamic:
+                m = DYNAMIC_RANGE_REGEX.match("".join(range.split()))
+                row_key = m.group("high") if m else range
+            else:
+                m = RANGE_REGEX.match(range)
+                row_key = str(int(m.group("low") or m.group("high"))) if m else range
+            if self._label_override(row_key) is None:
+                raise
+            label = ""
         return (range, content, label)
 
+    def _label_override(self, row_key: str) -> Optional[str]:
+        return self.doc_parser.label_overrides.get((self.fig_id, row_key), None)
+
     def _extract_label_separate_column(self, label: str, row_key: str) -> str:
         txt_parts = label.split(":", 1)
         if len(txt_parts) == 1:
@@ -396,6 +416,10 @@ class StructTableExtractor(FigureExtractor, ABC):
         return label
 
     def _parse_label(self, label: str, row_key: str) -> str:
+        override = self._label_override(row_key)
+        if override is not None:
+            self.add_issue(LintErr.LBL_OVERRIDDEN, row_key=row_key)
+            return override
         try:
             if self._col_ndx_content != self._col_ndx_label:
                 label = self._extract_label_separate_column(label, row_key)
-- 
2.43.0


From d6776e29af0b7ecabbbd4b2d397d3b637687b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 18/39] fix: apply brief overrides

---
 src/spex/jsonspec/extractors/structtable.py | 3 +++
 src/spex/jsonspec/extractors/valuetable.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index 5c9f610..0c08960 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -456,6 +456,9 @@ class StructTableExtractor(FigureExtractor, ABC):
             return {"low": low, "high": high}
 
     def _parse_brief(self, content: str, row_key: str) -> Optional[str]:
+        override = self.doc_parser.brief_overrides.get((self.fig_id, row_key), None)
+        if override is not None:
+            return override
         return content_extract_brief(content, self.BRIEF_MAXLEN)
 
     def _parse_dynamic_range(self, field_range: str) -> MaybeRange:
diff --git a/src/spex/jsonspec/extractors/valuetable.py b/src/spex/jsonspec/extractors/valuetable.py
index 535da93..ecb50c2 100644
--- a/src/spex/jsonspec/extractors/valuetable.py
+++ b/src/spex/jsonspec/extractors/valuetable.py
@@ -276,5 +276,8 @@ class ValueTableExtractor(FigureExtractor):
     def _content_extract_brief(
         self, row: Element, row_key: str, data: Element
     ) -> Optional[str]:
+        override = self.doc_parser.brief_overrides.get((self.fig_id, row_key), None)
+        if override is not None:
+            return override
         content = self.content_elem(row)
         return content_extract_brief(XmlUtils.to_text(content), self.BRIEF_MAXLEN)
-- 
2.43.0


From 47fb1d54e5b47d644549dae64c7a3a5272f458d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 19/39] fix: extract all runs of hyperlinks and simple fields

---
 src/spex/htmlspec/parser.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index 5755a2a..a94ed18 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -206,15 +206,13 @@ class SpexParser:
     def _select_runs(self, p: _Element) -> Iterator[_Element]:
         # we also want to extract text from hyperlinks, so loop over top-level
         # children, extracting runs (w:r) and hyperlinks (w:hyperlink)
-        # if a hyperlink, strip and yield the run.
+        # if a hyperlink (or simple field), yield the runs inside of it.
         # TODO: works, but need to satisfy mypy somehow...
         for child in p.iterchildren():
             if child.tag == Tag.r.value:
                 yield child
-            elif child.tag == Tag.hyperlink.value:
-                yield Xpath.elem_first_req(child, "./w:r")
-            elif child.tag == Tag.fldSimple.value:
-                yield Xpath.elem_first_req(child, "./w:r")
+            elif child.tag in (Tag.hyperlink.value, Tag.fldSimple.value):
+                yield from self._select_runs(child)
 
     def _parse_spans(self, p: _Element) -> Iterator[Span]:
         for r in self._select_runs(p):
-- 
2.43.0


From b0b0e8b8d430b54e1f56a3fec36564537210fe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 20/39] fix: extract all text elements of a run

---
 src/spex/htmlspec/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index a94ed18..068ab71 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -216,11 +216,11 @@ class SpexParser:
 
     def _parse_spans(self, p: _Element) -> Iterator[Span]:
         for r in self._select_runs(p):
-            txt = Xpath.elem_first(r, "./w:t")
-            if txt is None or txt.text is None:
+            txt = "".join(t.text or "" for t in Xpath.elems(r, "./w:t"))
+            if txt == "":
                 continue
             r_rpr = self._document.extract_r_rpr(r)
-            yield Span(style=r_rpr, text=txt.text)
+            yield Span(style=r_rpr, text=txt)
 
     def _parse_table(self, stream: Stream[_Element]) -> Optional[Table]:
         tbl = stream.consume()
-- 
2.43.0


From 5ffc4006963056736ac48595c2c517bda60f1f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 21/39] fix: keep line breaks of the text in the HTML

---
 src/spex/htmlspec/htmlrenderer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index 81e6e16..ec4cb1b 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -166,7 +166,8 @@ class SpexHtmlRenderer:
         s.dedent().emitln("</p>")
 
     def _render_span(self, s: Section, span: Span) -> None:
-        txt = html_escape(span.text)
+        # `Section.emit` would turn a line break into a literal "\\n"
+        txt = html_escape(span.text).replace("\n", "&#10;")
         if span.style is not None:
             clsname = self._css_txtfmt_cache.get_clsname(span.style)
         else:
-- 
2.43.0


From 1d415f1e9b36d7b2df76ae3c373bd24ba6cddbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 22/39] fix: escape title, revision and file name in the HTML
 head

---
 src/spex/htmlspec/htmlrenderer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index ec4cb1b..c4f63da 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -132,16 +132,17 @@ class SpexHtmlRenderer:
         s.emitln("<!DOCTYPE html>")
         s.emitln('<html lang="en">')
         s.emitln("<head>").indent()
-        title = self._document.header.title
+        fname = html_escape(self._fname)
+        title = html_escape(self._document.header.title)
         revision = self._document.header.revision
         s.emit(f'<meta charset="utf-8" data-spec="{title}"')
         if revision is not None:
-            s.emit(f' data-revision="{revision}"')
+            s.emit(f' data-revision="{html_escape(revision)}"')
         s.emitln("/>")
         s.emitln(f'<meta name="spexVersion" content="{__version__}" />')
-        s.emitln(f"<title>{self._fname}</title>")
+        s.emitln(f"<title>{fname}</title>")
         s.add_section(self._html_head)
-        s.emitln(f'<link rel="stylesheet" href="{self._fname}.css"/>')
+        s.emitln(f'<link rel="stylesheet" href="{fname}.css"/>')
         s.dedent().emitln("</head>")
         s.emitln("<body>").indent()
         s.add_section(self._html_body)
-- 
2.43.0


From c4f0ae19c00768ac545685953b161fcc3f544645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 23/39] fix: accept explicitly continued vertical merges

---
 src/spex/htmlspec/docx/tablewrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/docx/tablewrap.py b/src/spex/htmlspec/docx/tablewrap.py
index e6bc9ca..c4b9603 100644
--- a/src/spex/htmlspec/docx/tablewrap.py
+++ b/src/spex/htmlspec/docx/tablewrap.py
@@ -52,7 +52,7 @@ class TableWrap:
                 return VerticalMergeState.NONE
             assert isinstance(merge_elem, _Element)
             row_val = Xpath.attr_first(merge_elem, "@w:val")
-            if row_val:
+            if row_val and row_val != "continue":
                 assert row_val == "restart"
                 return VerticalMergeState.RESTART
             else:
-- 
2.43.0


From f9f813bf2ffeabb5dcc2604ce09a41d5794b996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 24/39] fix: recognise grey header cells whatever the case of
 the fill

---
 src/spex/htmlspec/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index 068ab71..2e43931 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -260,7 +260,7 @@ class SpexParser:
                 if (
                     tcpr is not None
                     and shd_fill is not None
-                    and (shd_fill[0:2] == shd_fill[2:4] == shd_fill[4:6])
+                    and len({shd_fill[i : i + 2].lower() for i in (0, 2, 4)}) == 1
                 ):
                     # heuristic: specs uses various greytone colors
                     # to mark table headers
-- 
2.43.0


From 1eefa845a9151ef12664b0135da03c3cf135434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 25/39] fix: find list levels by their number rather than their
 position

---
 src/spex/htmlspec/docx/numbering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/docx/numbering.py b/src/spex/htmlspec/docx/numbering.py
index 678da38..22fa56f 100644
--- a/src/spex/htmlspec/docx/numbering.py
+++ b/src/spex/htmlspec/docx/numbering.py
@@ -94,7 +94,7 @@ class AbstractNum:
     ilvls: List[AbstractNumLvl]
 
     def get_ilvl(self, ilvl: Union[str, int]) -> AbstractNumLvl:
-        return self.ilvls[int(ilvl)]
+        return next(lvl for lvl in self.ilvls if lvl.ilvl == int(ilvl))
 
 
 class NumberingDocument:
-- 
2.43.0


From 35271775acc7c53d60af6e79c74f2d8cba8d74c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 26/39] fix: treat list levels with text before the number as
 ordered

---
 src/spex/htmlspec/docx/numbering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/docx/numbering.py b/src/spex/htmlspec/docx/numbering.py
index 22fa56f..fb1fb7c 100644
--- a/src/spex/htmlspec/docx/numbering.py
+++ b/src/spex/htmlspec/docx/numbering.py
@@ -32,7 +32,7 @@ class AbstractNumLvl:
 
     @property
     def is_ordered(self) -> bool:
-        return self.lvl_text.startswith("%")
+        return "%" in self.lvl_text
 
     @property
     def tag(self) -> str:
-- 
2.43.0


From 8bb9b62786aaa4fb51b03c2dc91ebef0a976e9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 27/39] fix: accept list paragraphs without an explicit level

---
 src/spex/htmlspec/parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index 2e43931..ebf07d7 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -137,6 +137,10 @@ class SpexParser:
             return False
         return self._document.numbering_xml.has_num_id(num_id)
 
+    def __p_ilvl(self, e: _Element) -> int:
+        # the level is optional, the outermost one is the default
+        return int(Xpath.attr_first(e, "./w:pPr/w:numPr/w:ilvl/@w:val") or 0)
+
     def _parse_list(self, stream: Stream[_Element]) -> List:
         current = stream.peek()
         assert current.tag == Tag.p.value, f"assumed w:p tag, got {current.tag!r}"
@@ -148,7 +152,7 @@ class SpexParser:
         ), "cannot have numbering styles w/o a numbering document"
         style = self._document.numbering_xml.get_style(num_id)
 
-        ilvl = int(Xpath.attr_first_req(current, "./w:pPr/w:numPr/w:ilvl/@w:val"))
+        ilvl = self.__p_ilvl(current)
         slvl = style.get_ilvl(ilvl)
 
         return List(
@@ -181,9 +185,7 @@ class SpexParser:
                 # different list
                 break
 
-            child_ilvl = int(
-                Xpath.attr_first_req(child, "./w:pPr/w:numPr/w:ilvl/@w:val")
-            )
+            child_ilvl = self.__p_ilvl(child)
             if child_ilvl > ilvl:
                 # nested list
                 yield self._parse_list(stream)
-- 
2.43.0


From 08ffefd4d8ca7022c2576bebfbf03574b513f9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 28/39] fix: do not decorate text whose underline or
 strike-through is off

---
 src/spex/htmlspec/docx/runproperties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spex/htmlspec/docx/runproperties.py b/src/spex/htmlspec/docx/runproperties.py
index d01644d..769e06b 100644
--- a/src/spex/htmlspec/docx/runproperties.py
+++ b/src/spex/htmlspec/docx/runproperties.py
@@ -173,9 +173,9 @@ class RunProperties:
         # underline and strikethrough (line-through) are governed by the same
         # css property.
         txt_dec_line = []
-        if self.__underline is not None:
+        if self.__underline:
             txt_dec_line.append("underline")
-        if self.__strikethrough is not None:
+        if self.__strikethrough:
             txt_dec_line.append("line-through")
         if txt_dec_line:
             attrs["text-decoration-line"] = " ".join(txt_dec_line)
-- 
2.43.0


From 9bd90324acc19c72b4acab67c9e0099fedff3609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 29/39] fix: accept all spellings of an explicit off

---
 src/spex/htmlspec/docx/runproperties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spex/htmlspec/docx/runproperties.py b/src/spex/htmlspec/docx/runproperties.py
index 769e06b..e727798 100644
--- a/src/spex/htmlspec/docx/runproperties.py
+++ b/src/spex/htmlspec/docx/runproperties.py
@@ -209,12 +209,12 @@ class RunProperties:
             #   ...because we use this value to signal that the rPr did
             #   not explicitly disable the prop either.
             # if present w/o w:val attr -> True
-            # if present with w:val attr -> "1" is True, "0" is false
+            # if present with w:val attr -> "0", "false" and "off" are False
             r1 = Xpath.elem_first(e, selector)
             if r1 is None:
                 return None
             r2 = Xpath.attr_first(r1, "./@w:val")
-            return r2 is None or r2.strip() != "0"
+            return r2 is None or r2.strip() not in ("0", "false", "off")
 
         def u_val(e: _Element) -> Optional[bool]:
             r1 = Xpath.elem_first(e, "./w:u")
-- 
2.43.0


From ad472f2fa9d362b25a8ac196c89e1f9bd1e1bfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 30/39] fix: let an automatic color override an inherited one

---
 src/spex/htmlspec/docx/runproperties.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/spex/htmlspec/docx/runproperties.py b/src/spex/htmlspec/docx/runproperties.py
index e727798..c3f6b8f 100644
--- a/src/spex/htmlspec/docx/runproperties.py
+++ b/src/spex/htmlspec/docx/runproperties.py
@@ -62,9 +62,6 @@ class RunProperties:
         # w:sz
         self.__size = int(size) if size else None
         # w:color
-        if color is not None and len(color) != 6:
-            # disregard 'auto' and similar non-hex values.
-            color = None
         self.__color = color
         self.__css_attrs = self.__compute_css_attrs()
 
@@ -194,7 +191,8 @@ class RunProperties:
             # TODO: should we do more than converting to points?
             sz = int(self.__size) / 2.0
             attrs["font-size"] = f"{sz}pt"
-        if self.__color is not None:
+        if self.__color is not None and len(self.__color) == 6:
+            # 'auto' and similar non-hex values only override inherited colors.
             attrs["color"] = f"#{self.__color}"
         return attrs
 
-- 
2.43.0


From a3eef8a3ef62724a099ea21406e481d85e827cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 31/39] fix: never resolve the id of a style to a style with
 that alias

---
 src/spex/htmlspec/docx/styles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/docx/styles.py b/src/spex/htmlspec/docx/styles.py
index 1a5e56f..6a1cd6d 100644
--- a/src/spex/htmlspec/docx/styles.py
+++ b/src/spex/htmlspec/docx/styles.py
@@ -32,7 +32,7 @@ class StyleResolver:
 
             aliases = Xpath.attr_first(style, "./w:aliases/@w:val") or ""
             for alias in (a.strip() for a in aliases.split(",")):
-                alias_dct[alias] = canonical_style_name
+                alias_dct.setdefault(alias, canonical_style_name)
 
         return alias_dct
 
-- 
2.43.0


From 816e539b1d636d11f31cc8932a8dbdf335667025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 32/39] fix: answer 404 for reports that do not exist

Looking up the JSON, HTML or report page of an unknown hash raised a
TypeError (status 500).
---
 src/spexsrv/application/app.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index 542d847..ed9c356 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -107,14 +107,18 @@ async def index() -> str:
     return await render_template("upload-form.html", title="Upload Specification")
 
 
-@app.route("/report/<hash>")
-async def report(hash: str) -> str:
-    # TODO: enable this part again this actually looks for the document requested
+def cached_report(hash: str) -> Path:
+    """path of the JSON document of the report, 404 if there is no such report"""
     json_fpath = app.config[SPEX_CACHE_LOOKUP].get(hash)
-    html_fpath = Path(app.config[SPEX_CACHE_LOOKUP].get(hash)).with_suffix(".html")
-
     if json_fpath is None or not json_fpath.is_file():
         abort(404)
+    return json_fpath  # type: ignore
+
+
+@app.route("/report/<hash>")
+async def report(hash: str) -> str:
+    json_fpath = cached_report(hash)
+    html_fpath = json_fpath.with_suffix(".html")
 
     with open(json_fpath) as fh:
         report_json = json.load(fh)
@@ -147,13 +151,13 @@ async def report(hash: str) -> str:
 
 @app.route("/json/<hash>")
 async def json_report(hash: str) -> Response:
-    json_fpath = Path(app.config[SPEX_CACHE_LOOKUP].get(hash))
+    json_fpath = cached_report(hash)
     return await quart.helpers.send_file(json_fpath)
 
 
 @app.route("/html/<hash>")
 async def html_report(hash: str) -> Response:
-    html_fpath = Path(app.config[SPEX_CACHE_LOOKUP].get(hash)).with_suffix(".html")
+    html_fpath = cached_report(hash).with_suffix(".html")
     return await quart.helpers.send_file(html_fpath)
 
 
-- 
2.43.0


From 1b844fe988ff78ad340b6aa7edda1d5c60efa0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 33/39] fix: compare figure ids as text when selecting
 erroneous figures

The id was spliced unquoted into an XPath query: ids which are no numbers
were never found, and numeric comparison mixed up ids such as 7 and 07.
---
 src/spexsrv/application/report_view.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/spexsrv/application/report_view.py b/src/spexsrv/application/report_view.py
index 26b377d..155306e 100644
--- a/src/spexsrv/application/report_view.py
+++ b/src/spexsrv/application/report_view.py
@@ -5,9 +5,6 @@
 from pathlib import Path
 from typing import Dict, List
 
-import lxml
-import lxml.etree
-
 from spex.xml import XmlUtils, Xpath, etree
 
 
@@ -16,11 +13,9 @@ def get_erroneous_figures(figures: List[str], html_doc: Path) -> Dict[str, str]:
     _err_figures: Dict[str, str] = {}
     for figure in figures:
         figure_id = figure.split("_")[0]
-        try:
-            p = Xpath.elem_first(doc, f"./body/table[@id={figure_id}]")
-            if p is not None:
-                _err_figures[figure] = XmlUtils.fmt(p)
-        except lxml.etree.XPathEvalError:
-            ...
+        for table in Xpath.elems(doc, "./body/table"):
+            if table.get("id") == figure_id:
+                _err_figures[figure] = XmlUtils.fmt(table)
+                break
 
     return _err_figures
-- 
2.43.0


From e29b271fb497ac8e070a381644278b5871d72044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 34/39] fix: cache reports by content hash

Cached reports were stored under the name of the uploaded file: uploading
a different document of the same name replaced an earlier report.
---
 src/spexsrv/application/app.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index ed9c356..610d1bd 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -204,11 +204,9 @@ async def spec_parse() -> Response | Tuple[str, int, Dict[Any, Any]]:
                 json_fpath = e.value
                 html_path = Path(json_fpath.with_suffix(".html"))
 
-                cache_entry = Path(app.config[SPEX_CACHE_TMPDIR].name) / json_fpath.name
+                cache_entry = Path(app.config[SPEX_CACHE_TMPDIR].name) / f"{hash}.json"
                 shutil.copy(json_fpath, cache_entry)
-                shutil.copy(
-                    html_path, Path(app.config[SPEX_CACHE_TMPDIR].name) / html_path.name
-                )
+                shutil.copy(html_path, cache_entry.with_suffix(".html"))
                 app.config[SPEX_CACHE_LOOKUP][hash] = cache_entry
                 yield json_to_sse({"type": "report-completed", "url": report_url})
         finally:
-- 
2.43.0


From e139176d84a69763d0535f7655c256b2fca14e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 35/39] fix: store an upload inside its own directory whatever
 its name

An absolute file name, or one with .. components, made the server write
outside of the directory of the upload.
---
 src/spexsrv/application/app.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index 610d1bd..126a123 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -173,9 +173,14 @@ async def spec_parse() -> Response | Tuple[str, int, Dict[Any, Any]]:
 
     spec = files["document"]
 
+    # the name is chosen by the client, never let it name another directory
+    filename = Path((spec.filename or "").replace("\\", "/")).name
+    if filename in ("", ".", ".."):
+        abort(400)
+
     temp_dir = tempfile.TemporaryDirectory()
     temp_dir_path = Path(temp_dir.name)
-    destination = temp_dir_path / spec.filename
+    destination = temp_dir_path / filename
 
     await spec.save(destination)
     hash = md5sum(destination)
-- 
2.43.0


From c47888ca180ea8c73424b1de8fb4ad28ca68cc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 36/39] fix: account for figures whose extractor cannot be set
 up like for other failures

A figure a document treats specially, but whose columns are not the expected
ones, and a figure with a malformed colspan in its heading row raised outside
of the error handling: the whole run was aborted in spite of
--skip-figure-on-error and without a T1000 lint entry.
---
 src/spex/jsonspec/document.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/spex/jsonspec/document.py b/src/spex/jsonspec/document.py
index 91daddb..f3739aa 100644
--- a/src/spex/jsonspec/document.py
+++ b/src/spex/jsonspec/document.py
@@ -294,27 +294,29 @@ class DocumentParser:
         else:
             # extractor_cls not None, class gotten from override
             mapping = extractor_cls.can_apply(tbl_hdrs)
+
+        def extract(cls: Type["FigureExtractor"]) -> Iterator[Entity]:
             if mapping is None:
                 raise RuntimeError(
                     "override class failed to detect columns to extract from"
                 )
+            e = cls(
+                doc_parser=self,
+                entity_meta=entity,
+                tbl=tbl,
+                tbl_hdrs=tbl_hdrs,
+                parse_fn=self._on_parse_fig,
+                linter=self.__linter,
+                mapping=mapping,
+            )
+            yield from e()
 
-        assert mapping is not None  # only needed to appease type-checking
-        e = extractor_cls(
-            doc_parser=self,
-            entity_meta=entity,
-            tbl=tbl,
-            tbl_hdrs=tbl_hdrs,
-            parse_fn=self._on_parse_fig,
-            linter=self.__linter,
-            mapping=mapping,
-        )
         with logger.contextualize(
             entity=entity,
             doc={"spec": self.spec, "revision": self.revision},
             extractor_cls=extractor_cls.__qualname__,
         ):
-            gen = e()
+            gen = extract(extractor_cls)
             while True:
                 try:
                     yield from gen
-- 
2.43.0


From 7628b14ea1b5a87d0dc97d6a56e3971206e1635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:29 +0000
Subject: [PATCH 37/39] fix: progress of an upload stays within its number of
 figures

---
 src/spex/parse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spex/parse.py b/src/spex/parse.py
index a1bddf2..567c02e 100644
--- a/src/spex/parse.py
+++ b/src/spex/parse.py
@@ -50,9 +50,13 @@ def parse_spec(
         dparser = sdoc.get_parser(args)
         if yield_progress:
             num_figures = dparser.num_figures
-            for fig_ndx, entity in enumerate(dparser.parse()):
+            fig_ndx = 0
+            for entity in dparser.parse():
                 yield ("json", fig_ndx, num_figures)
                 w.write_entity(cast(JSON, entity))
+                # entities of nested tables precede, and are part of, their figure
+                if "parent_fig_id" not in entity:
+                    fig_ndx += 1
         else:
             for entity in dparser.parse():
                 w.write_entity(cast(JSON, entity))
-- 
2.43.0


From cb0efa7bc95de60b892d93970fd4d92056f61d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:44 +0000
Subject: [PATCH 38/39] fix: keep carriage returns of a text run

---
 src/spex/htmlspec/htmlrenderer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index c4f63da..4b071e7 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -167,8 +167,9 @@ class SpexHtmlRenderer:
         s.dedent().emitln("</p>")
 
     def _render_span(self, s: Section, span: Span) -> None:
-        # `Section.emit` would turn a line break into a literal "\\n"
-        txt = html_escape(span.text).replace("\n", "&#10;")
+        # `Section.emit` would turn a line break into a literal "\\n", and a
+        # carriage return is read back as a line break
+        txt = html_escape(span.text).replace("\n", "&#10;").replace("\r", "&#13;")
         if span.style is not None:
             clsname = self._css_txtfmt_cache.get_clsname(span.style)
         else:
-- 
2.43.0


From e87a5a2710013958fd444635dbdda4c4a00d0313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:44 +0000
Subject: [PATCH 39/39] fix: title and revision of a page header with tabs and
 line breaks

---
 src/spex/htmlspec/docx/header.py  |  3 ++-
 src/spex/htmlspec/htmlrenderer.py | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/spex/htmlspec/docx/header.py b/src/spex/htmlspec/docx/header.py
index 8b145eb..61ef715 100644
--- a/src/spex/htmlspec/docx/header.py
+++ b/src/spex/htmlspec/docx/header.py
@@ -3,13 +3,14 @@
 # SPDX-License-Identifier: BSD-3-Clause
 
 from pathlib import Path
+from re import DOTALL
 from re import compile as re_compile
 from typing import Optional
 
 from spex.htmlspec.docx.docxutils import docx_extract_contents
 from spex.xml import Xpath
 
-_rgx_revision = re_compile(r".*[Rr]evision\s+(?P<rev>\S+).*")
+_rgx_revision = re_compile(r".*[Rr]evision\s+(?P<rev>\S+).*", DOTALL)
 
 
 class Header:
diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index 4b071e7..afe7176 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -133,11 +133,11 @@ class SpexHtmlRenderer:
         s.emitln('<html lang="en">')
         s.emitln("<head>").indent()
         fname = html_escape(self._fname)
-        title = html_escape(self._document.header.title)
+        title = self._escape_attr(self._document.header.title)
         revision = self._document.header.revision
         s.emit(f'<meta charset="utf-8" data-spec="{title}"')
         if revision is not None:
-            s.emit(f' data-revision="{html_escape(revision)}"')
+            s.emit(f' data-revision="{self._escape_attr(revision)}"')
         s.emitln("/>")
         s.emitln(f'<meta name="spexVersion" content="{__version__}" />')
         s.emitln(f"<title>{fname}</title>")
@@ -160,6 +160,16 @@ class SpexHtmlRenderer:
 
         self.__write_css_epilog()
 
+    @staticmethod
+    def _escape_attr(val: str) -> str:
+        # white space other than blanks is read back as blanks unless escaped
+        return (
+            html_escape(val)
+            .replace("\t", "&#9;")
+            .replace("\n", "&#10;")
+            .replace("\r", "&#13;")
+        )
+
     def _render_paragraph(self, s: Section, p: Paragraph) -> None:
         s.emitln("<p>").indent()
         for span in p.spans:
-- 
2.43.0

