From b61554eaab0bfaa78c602c49e97d339867242d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:26 +0000
Subject: [PATCH 01/65] fix: keep tabs in Gerber source when parsing

pyparsing expands tabs by default, so tabs in comments and names were
replaced with spaces and node locations did not match the source code.
---
 src/pygerber/gerber/parser/pyparsing/grammar.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pygerber/gerber/parser/pyparsing/grammar.py b/src/pygerber/gerber/parser/pyparsing/grammar.py
index a67d268..726fe96 100644
--- a/src/pygerber/gerber/parser/pyparsing/grammar.py
+++ b/src/pygerber/gerber/parser/pyparsing/grammar.py
@@ -211,6 +211,9 @@ class Grammar:
             )
             .set_results_name("root_node")
             .set_parse_action(_)
+            # Tabs must not be expanded, otherwise node locations would not match
+            # source code and tabs in comments would be replaced with spaces.
+            .parse_with_tabs()
         )
 
         if self.enable_packrat:
@@ -247,6 +250,9 @@ class Grammar:
             )
             .set_results_name("root_node")
             .set_parse_action(_)
+            # Tabs must not be expanded, otherwise node locations would not match
+            # source code and tabs in comments would be replaced with spaces.
+            .parse_with_tabs()
         )
 
         if self.enable_packrat:
-- 
2.43.0


From f0489d092e42e501a3ee06cd5e82b09ddb2d8b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:00 +0000
Subject: [PATCH 02/65] fix: format each SR parameter only when it is present

Y, I and J were guarded by presence of X, so they were dropped when X was
omitted and written as literal None when X was present and they were not.
---
 src/pygerber/gerber/formatter/formatter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 7471884..d0d29a3 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -510,13 +510,13 @@ class Formatter(AstVisitor):
             if node.x is not None:
                 self._write(f"X{node.x}")
 
-            if node.x is not None:
+            if node.y is not None:
                 self._write(f"Y{node.y}")
 
-            if node.x is not None:
+            if node.i is not None:
                 self._write(f"I{node.i}")
 
-            if node.x is not None:
+            if node.j is not None:
                 self._write(f"J{node.j}")
 
         return node
-- 
2.43.0


From 9205e118eec6edc35ed0ad5b22c9b8824a9e0175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:22 +0000
Subject: [PATCH 03/65] fix: never format floats in exponent notation

Small and large values were written as for example 1e-05, which is not valid
Gerber. Macro aperture parameters and OF offsets are now formatted in the same
way as all other values.
---
 src/pygerber/gerber/formatter/formatter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index d0d29a3..126ba49 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -5,6 +5,7 @@ configurable Gerber code formatting.
 from __future__ import annotations
 
 from contextlib import contextmanager
+from decimal import Decimal
 from functools import wraps
 from io import StringIO
 from typing import (
@@ -373,7 +374,9 @@ class Formatter(AstVisitor):
 
     def _fmt_double(self, value: Double) -> str:
         if self.float_decimal_places < 0:
-            return str(value)
+            text = str(value)
+            # There is no exponent notation in Gerber, so it has to be expanded.
+            return format(Decimal(text), "f") if "e" in text else text
         double = f"{value:.{self.float_decimal_places}f}"
         if self.float_trim_trailing_zeros:
             return double.rstrip("0").rstrip(".")
@@ -473,9 +476,9 @@ class Formatter(AstVisitor):
         with self._extended_command(f"AD{node.aperture_id}{node.name}"):
             if node.params is not None:
                 first, *rest = node.params
-                self._write(f",{first}")
+                self._write(f",{self._fmt_double(first)}")
                 for param in rest:
-                    self._write(f"X{param}")
+                    self._write(f"X{self._fmt_double(param)}")
         return node
 
     @_decorator_insert_base_indent
@@ -1498,9 +1501,9 @@ class Formatter(AstVisitor):
         """Handle `OF` node."""
         with self._extended_command("OF"):
             if node.a_offset is not None:
-                self._write(f"A{node.a_offset}")
+                self._write(f"A{self._fmt_double(node.a_offset)}")
             if node.b_offset is not None:
-                self._write(f"B{node.b_offset}")
+                self._write(f"B{self._fmt_double(node.b_offset)}")
         return node
 
     @_decorator_insert_base_indent
-- 
2.43.0


From 0f73bd85b58dd71acfe7601dd24899aad94643cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:22 +0000
Subject: [PATCH 04/65] fix: trim only fractional zeros and only when requested

With float_decimal_places=0 integers lost their trailing zeros (10 became 1) and
FloatTrimTrailingZeros.No was ignored because enum members are always truthy.
---
 src/pygerber/gerber/formatter/formatter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 126ba49..516b2b4 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -131,6 +131,7 @@ from pygerber.gerber.ast.nodes import (
 from pygerber.gerber.formatter.enums import (
     EmptyLineBeforePolaritySwitch,
     ExplicitParenthesis,
+    FloatTrimTrailingZeros,
     KeepNonStandaloneCodes,
     MacroEndInNewLine,
     MacroSplitMode,
@@ -280,7 +281,9 @@ class Formatter(AstVisitor):
 
         self.float_decimal_places = self.options.float_decimal_places
 
-        self.float_trim_trailing_zeros = self.options.float_trim_trailing_zeros
+        self.float_trim_trailing_zeros = (
+            self.options.float_trim_trailing_zeros == FloatTrimTrailingZeros.Yes
+        )
 
         if isinstance(self.options.d01_indent, int):
             self.d01_indent = self.options.indent_character * self.options.d01_indent
@@ -378,9 +381,9 @@ class Formatter(AstVisitor):
             # There is no exponent notation in Gerber, so it has to be expanded.
             return format(Decimal(text), "f") if "e" in text else text
         double = f"{value:.{self.float_decimal_places}f}"
-        if self.float_trim_trailing_zeros:
+        if self.float_trim_trailing_zeros and "." in double:
             return double.rstrip("0").rstrip(".")
-        return double  # type: ignore[unreachable]
+        return double
 
     def _insert_base_indent(self) -> None:
         self._write(self._base_indent)
-- 
2.43.0


From a5c0eb0b35db6569d61b0e9179dc74cfa12e0b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:22 +0000
Subject: [PATCH 05/65] fix: do not add empty fields to .GenerationSoftware and
 .ProjectId

Missing trailing fields were formatted as empty strings, which changed meaning
of the attribute.
---
 src/pygerber/gerber/formatter/formatter.py | 32 +++++++---------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 516b2b4..9dbd91e 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -411,6 +411,14 @@ class Formatter(AstVisitor):
     def _write(self, value: str) -> None:
         self.output.write(value)
 
+    def _write_fields(self, *fields: Optional[str]) -> None:
+        """Write comma prefixed fields, omit missing trailing fields."""
+        while fields and fields[-1] is None:
+            fields = fields[:-1]
+
+        for field in fields:
+            self._write(f",{field or ''}")
+
     @_decrease_base_indent("block_aperture_body_indent")
     @_decorator_insert_base_indent
     def on_ab_close(self, node: ABclose) -> ABclose:
@@ -684,17 +692,7 @@ class Formatter(AstVisitor):
     ) -> TF_GenerationSoftware:
         """Handle `TF_GenerationSoftware` node."""
         with self._extended_command("TF.GenerationSoftware"):
-            self._write(",")
-            if node.vendor is not None:
-                self._write(node.vendor)
-
-            self._write(",")
-            if node.application is not None:
-                self._write(node.application)
-
-            self._write(",")
-            if node.version is not None:
-                self._write(node.version)
+            self._write_fields(node.vendor, node.application, node.version)
 
         return node
 
@@ -702,17 +700,7 @@ class Formatter(AstVisitor):
     def on_tf_project_id(self, node: TF_ProjectId) -> TF_ProjectId:
         """Handle `TF_ProjectId` node."""
         with self._extended_command("TF.ProjectId"):
-            self._write(",")
-            if node.name is not None:
-                self._write(node.name)
-
-            self._write(",")
-            if node.guid is not None:
-                self._write(node.guid)
-
-            self._write(",")
-            if node.revision is not None:
-                self._write(node.revision)
+            self._write_fields(node.name, node.guid, node.revision)
 
         return node
 
-- 
2.43.0


From e3ac6daa8f03bf88b0b37551709aff55194c18bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:12 +0000
Subject: [PATCH 06/65] fix: report values rejected by node validation as
 syntax errors

pydantic ValidationError escaped from the parser, so single attribute with
unknown value aborted parsing even in resilient mode.
---
 .../gerber/parser/pyparsing/grammar.py        | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/pygerber/gerber/parser/pyparsing/grammar.py b/src/pygerber/gerber/parser/pyparsing/grammar.py
index 726fe96..5a1a253 100644
--- a/src/pygerber/gerber/parser/pyparsing/grammar.py
+++ b/src/pygerber/gerber/parser/pyparsing/grammar.py
@@ -8,7 +8,7 @@ from enum import IntFlag
 from typing import Any, Callable, Iterable, Literal, Optional, Type, TypeVar, cast
 
 import pyparsing as pp
-from pydantic import BaseModel
+from pydantic import BaseModel, ValidationError
 
 from pygerber.gerber.ast.nodes import (
     AB,
@@ -336,13 +336,18 @@ class Grammar:
         """Create a callback for unpacking the results of the parser."""
 
         def _(s: str, loc: int, tokens: pp.ParseResults) -> Node:
-            return self.get_cls(node_type)(
-                source_info=SourceInfo(
-                    source=s, location=loc, length=sum(len(t) for t in tokens.as_list())
-                ),
-                **tokens.as_dict(),
-                **kwargs,
-            )
+            try:
+                return self.get_cls(node_type)(
+                    source_info=SourceInfo(
+                        source=s,
+                        location=loc,
+                        length=sum(len(t) for t in tokens.as_list()),
+                    ),
+                    **tokens.as_dict(),
+                    **kwargs,
+                )
+            except ValidationError as e:
+                raise pp.ParseException(s, loc, str(e)) from e
 
         return _
 
-- 
2.43.0


From c17bcef9bbbed5fd191246c8e641980f96f115ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:32 +0000
Subject: [PATCH 07/65] fix: draw all vertices of rotated regular polygons

The loop started at the base rotation and stopped at 360 degrees, so a polygon
rotated by more than one step lost vertices.
---
 src/pygerber/vm/commands/shape.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pygerber/vm/commands/shape.py b/src/pygerber/vm/commands/shape.py
index 1b460fa..2263b55 100644
--- a/src/pygerber/vm/commands/shape.py
+++ b/src/pygerber/vm/commands/shape.py
@@ -234,10 +234,8 @@ class Shape(Command):
         local_vertex_offset = local_vertex_offset.transform(
             Matrix3x3.new_rotate(base_rotation)
         )
-        current_angle = base_rotation
 
-        while current_angle < FULL_ANGLE_DEGREES:
-            current_angle += angle_step
+        for _ in range(vertices_count):
             new_local_vertex_offset = local_vertex_offset.transform(transform_matrix)
 
             commands.append(
-- 
2.43.0


From b85ef0c301190fe4d37bddc4eff9844c84e61261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:32 +0000
Subject: [PATCH 08/65] fix: rotate macro polygon primitive once, about the
 macro origin

---
 src/pygerber/gerber/compiler/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 72f10f7..49c4a7b 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -910,7 +910,7 @@ class MacroEvalVisitor(AstVisitor):
             (center_x, center_y),
             diameter,
             number_of_vertices,
-            rotation,
+            0.0,
             is_negative=(exposure == 0),
             metadata=self._metadata,
         )
-- 
2.43.0


From ffd273e10965d22bc79a50b170f0463411b65497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:32 +0000
Subject: [PATCH 09/65] fix: apply aperture mirroring before rotation

---
 src/pygerber/gerber/compiler/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 49c4a7b..14ef905 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -660,7 +660,8 @@ class Compiler(StateTrackingVisitor):
         rotation_matrix = Matrix3x3.new_rotate(transform.rotation)
         scale_matrix = Matrix3x3.new_scale(transform.scaling, transform.scaling)
 
-        transform_matrix = mirroring_matrix @ rotation_matrix @ scale_matrix
+        # Mirroring is performed before the rotation. (Spec reference: 4.9.3)
+        transform_matrix = scale_matrix @ rotation_matrix @ mirroring_matrix
 
         return self._get_buffer_with_transform(aperture_id, transform_matrix)
 
-- 
2.43.0


From 532686ee0f6afe2ee209d898b6277382f77c9110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:32 +0000
Subject: [PATCH 10/65] fix: toggle polarity of block contents when flashed
 with clear polarity

---
 src/pygerber/gerber/compiler/compiler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 14ef905..06bb606 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -739,6 +739,13 @@ class Compiler(StateTrackingVisitor):
             buffer, Matrix3x3.new_translate(x=self.coordinate_x, y=self.coordinate_y)
         )
 
+        if self.is_negative:
+            # Clear polarity toggles polarity of all objects in the block.
+            tmp_buffer.commands = [
+                cmd.model_copy(update={"is_negative": not cmd.is_negative})
+                for cmd in tmp_buffer.commands
+            ]
+
         self._expand_buffer_to_current_buffer(tmp_buffer)
 
     def _apply_transform_to_buffer_non_recursive_tmp(
-- 
2.43.0


From 110cb3ae37e7675e3f1ac3aeaab1bf19cca6172d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:32 +0000
Subject: [PATCH 11/65] fix: place step and repeat copies at multiples of the
 step

Copies were additionally shifted by the last coordinate inside of the repeated
block.
---
 src/pygerber/gerber/compiler/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 06bb606..150e199 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -240,8 +240,8 @@ class Compiler(StateTrackingVisitor):
 
         for x in range(node.open.x_repeats):
             for y in range(node.open.y_repeats):
-                x_coordinate = self.coordinate_x + (x * x_delta)
-                y_coordinate = self.coordinate_y + (y * y_delta)
+                x_coordinate = x * x_delta
+                y_coordinate = y * y_delta
                 tmp_buffer = self._apply_transform_to_buffer_non_recursive_tmp(
                     buffer, Matrix3x3.new_translate(x=x_coordinate, y=y_coordinate)
                 )
-- 
2.43.0


From 131d7ce0cb96d7ac0b4ed26599f5a0a7dc491c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:12 +0000
Subject: [PATCH 12/65] fix: do not carry cached outer box over to transformed
 shape

---
 src/pygerber/vm/commands/shape.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/vm/commands/shape.py b/src/pygerber/vm/commands/shape.py
index 2263b55..9a74b94 100644
--- a/src/pygerber/vm/commands/shape.py
+++ b/src/pygerber/vm/commands/shape.py
@@ -47,10 +47,10 @@ class Shape(Command):
 
     def transform(self, transform: Matrix3x3) -> Self:
         """Transpose shape by vector."""
-        return self.model_copy(
-            update={
-                "commands": [segment.transform(transform) for segment in self.commands]
-            }
+        return self.__class__(
+            commands=[segment.transform(transform) for segment in self.commands],
+            is_negative=self.is_negative,
+            metadata=self.metadata,
         )
 
     def visit(self, visitor: CommandVisitor) -> None:
-- 
2.43.0


From 192f1962945bcd24ed3ec63c72c0b94ec275f76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:12 +0000
Subject: [PATCH 13/65] fix: give every thermal primitive and repeated block
 its own layer id

Ids were made of object identity and current time, so two apertures made from the
same macro shared (and overwrote) one layer and output differed between runs.
---
 src/pygerber/gerber/compiler/compiler.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 150e199..4e9e741 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -5,7 +5,6 @@ abstract syntax tree to PyGerber rendering VM commands (RVMC).
 from __future__ import annotations
 
 import math
-import time
 from math import cos, radians, sin
 from typing import TYPE_CHECKING, ClassVar, Optional
 
@@ -133,6 +132,7 @@ class Compiler(StateTrackingVisitor):
         self._include_metadata = include_metadata
         self._buffers: dict[str, CommandBuffer] = {}
         self._buffer_stack: list[str] = []
+        self._internal_aperture_count = 0
         self._contour_buffer: Optional[list[ShapeSegment]] = []
         self._create_main_buffer()
 
@@ -225,7 +225,7 @@ class Compiler(StateTrackingVisitor):
     def on_sr(self, node: SR) -> SR:
         """Handle `SR` node."""
         aperture_buffer = self._create_aperture_buffer(
-            ApertureIdStr(f"%%SR%{id(node)}%{time.time():.0f}")
+            self._create_internal_aperture_id("SR")
         )
         self._push_buffer(aperture_buffer.id_str)
 
@@ -296,6 +296,10 @@ class Compiler(StateTrackingVisitor):
 
         return buffer
 
+    def _create_internal_aperture_id(self, tag: str) -> ApertureIdStr:
+        self._internal_aperture_count += 1
+        return ApertureIdStr(f"%%{tag}%{self._internal_aperture_count}")
+
     def on_adr(self, node: ADR) -> ADR:
         """Handle `AD` rectangle node."""
         self.on_ad(node)
@@ -1022,7 +1026,9 @@ class MacroEvalVisitor(AstVisitor):
         if thickness <= 0:
             return node
 
-        aperture_id = ApertureIdStr(f"%%Code7%{id(node)}%{time.time():.0f}")
+        aperture_id = self._compiler._create_internal_aperture_id(  # noqa: SLF001
+            "Code7"
+        )
         aperture_buffer = self._compiler._create_aperture_buffer(  # noqa: SLF001
             aperture_id
         )
-- 
2.43.0


From 784a03cbba3754887d27b2f4cbeb886a4d821d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:12 +0000
Subject: [PATCH 14/65] fix: define every layer once and in a stable order

---
 src/pygerber/gerber/compiler/compiler.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 4e9e741..b2ce364 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -787,15 +787,23 @@ class Compiler(StateTrackingVisitor):
 
     def _resolve_buffer_submit_order(self) -> list[CommandBuffer]:
         buffer_submit_order: list[str] = []
+        parents: list[str] = []
 
         def _(buffer: CommandBuffer) -> None:
-            for dependency_id in buffer.depends_on:
-                dependency = self._get_buffer(dependency_id)
-                _(dependency)
+            if buffer.id_str in buffer_submit_order:
+                return
+
+            parents.append(buffer.id_str)
 
-                if buffer.id_str in buffer_submit_order:
+            # Sorted for the same output regardless of the string hash seed.
+            for dependency_id in sorted(buffer.depends_on):
+                dependency = self._get_buffer(dependency_id)
+                if dependency_id in parents:
                     raise CyclicBufferDependencyError(buffer, dependency)
 
+                _(dependency)
+
+            parents.pop()
             buffer_submit_order.append(buffer.id_str)
 
         _(self._get_buffer(self.MAIN_BUFFER_ID))
-- 
2.43.0


From e548ef26ca8f9a65c5f6a5367b04cb83b5314022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:12 +0000
Subject: [PATCH 15/65] fix: apply aperture scaling to draws and arcs

---
 src/pygerber/gerber/compiler/compiler.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index b2ce364..a9ca653 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -194,20 +194,23 @@ class Compiler(StateTrackingVisitor):
     def _get_line_thickness(self, line_direction: Vector) -> float:
         current_aperture = self.state.current_aperture
         if isinstance(current_aperture, ADC):
-            return current_aperture.diameter
+            return current_aperture.diameter * self.state.transform.scaling
 
         if isinstance(current_aperture, (ADR, ADO)):
             angle = line_direction.angle_between(Vector.unit.x)
             sin_angle = sin(radians(-angle))
             cos_angle = cos(radians(-angle))
 
-            return Vector(
-                x=current_aperture.width * cos_angle,
-                y=current_aperture.height * sin_angle,
-            ).length()
+            return (
+                Vector(
+                    x=current_aperture.width * cos_angle,
+                    y=current_aperture.height * sin_angle,
+                ).length()
+                * self.state.transform.scaling
+            )
 
         if isinstance(current_aperture, ADP):
-            return current_aperture.outer_diameter
+            return current_aperture.outer_diameter * self.state.transform.scaling
 
         raise NotImplementedError(type(current_aperture))
 
-- 
2.43.0


From fb8d3ee27d51eb49c9e31a279d12aca1399c7d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:12 +0000
Subject: [PATCH 16/65] fix: include aperture and object attributes in region
 metadata

---
 src/pygerber/gerber/compiler/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index a9ca653..210efe7 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -612,11 +612,12 @@ class Compiler(StateTrackingVisitor):
     def _get_region_metadata(self) -> Optional[dict[str, str]]:
         if self._include_metadata:
             metadata = _convert_attributes_to_metadata(
-                self.state.attributes.object_attributes
+                self.state.attributes.aperture_attributes
             )
             metadata.update(
                 _convert_attributes_to_metadata(self.state.attributes.object_attributes)
             )
+            return metadata
         return None
 
     def on_flush_region(self) -> None:
-- 
2.43.0


From 0f074e6a357ac62c431b06323f6da0995c9c2e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:12 +0000
Subject: [PATCH 17/65] fix: stop at M00 and M02 unless program stop is ignored

---
 src/pygerber/gerber/ast/state_tracking_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index 94467ce..54d1c26 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -948,6 +948,6 @@ class StateTrackingVisitor(AstVisitor):
     def on_exception(self, node: Node, exception: Exception) -> bool:  # noqa: ARG002
         """Handle exception."""
         if isinstance(exception, ProgramStop):
-            return bool(self._ignore_program_stop)
+            return not self._ignore_program_stop
 
         return True
-- 
2.43.0


From f32c50b95315ffad975f436854b2840afa74f822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:12 +0000
Subject: [PATCH 18/65] fix: do not reuse I and J offsets of previous
 operations

---
 src/pygerber/gerber/ast/state_tracking_visitor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index 54d1c26..ec90417 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -614,6 +614,9 @@ class StateTrackingVisitor(AstVisitor):
             self.state.current_x = self.state.coordinate_x
         if self.state.coordinate_y is not None:
             self.state.current_y = self.state.coordinate_y
+        # Unlike X and Y, offsets are not modal.
+        self.state.coordinate_i = None
+        self.state.coordinate_j = None
 
     def on_d02(self, node: D02) -> D02:
         """Handle `D02` node."""
-- 
2.43.0


From 9e86b8794ccaacca4c7526230a743a371aa533c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:12 +0000
Subject: [PATCH 19/65] fix: honour incremental coordinate notation

---
 .../gerber/ast/state_tracking_visitor.py       | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index ec90417..71d3c08 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -842,13 +842,24 @@ class StateTrackingVisitor(AstVisitor):
         """Handle `M02` node."""
         raise ProgramStop(node)
 
+    @property
+    def _is_incremental(self) -> bool:
+        return (
+            self.state.coordinate_format is not None
+            and self.state.coordinate_format.coordinate_mode
+            == CoordinateNotation.INCREMENTAL
+        )
+
     def on_coordinate_x(self, node: CoordinateX) -> CoordinateX:
         """Handle `Coordinate` node."""
         super().on_coordinate_x(node)
         if self.state.coordinate_format is None:
             raise CoordinateFormatNotSetError(node)
 
-        self.state.coordinate_x = self.state.coordinate_format.unpack_x(node.value)
+        coordinate = self.state.coordinate_format.unpack_x(node.value)
+        if self._is_incremental:
+            coordinate += self.state.current_x
+        self.state.coordinate_x = coordinate
         return node
 
     def on_coordinate_y(self, node: CoordinateY) -> CoordinateY:
@@ -857,7 +868,10 @@ class StateTrackingVisitor(AstVisitor):
         if self.state.coordinate_format is None:
             raise CoordinateFormatNotSetError(node)
 
-        self.state.coordinate_y = self.state.coordinate_format.unpack_y(node.value)
+        coordinate = self.state.coordinate_format.unpack_y(node.value)
+        if self._is_incremental:
+            coordinate += self.state.current_y
+        self.state.coordinate_y = coordinate
         return node
 
     def on_coordinate_i(self, node: CoordinateI) -> CoordinateI:
-- 
2.43.0


From 2fc935bc1ccdb5f27006399e2ab48804b4050ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:29 +0000
Subject: [PATCH 20/65] fix: draw innermost moire ring as disc when it has no
 hole

---
 src/pygerber/gerber/compiler/compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 210efe7..9ea178a 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -989,7 +989,11 @@ class MacroEvalVisitor(AstVisitor):
             current_inner_diameter = outer_diameter - (ring_thickness * 2)
 
             for _ in range(int(max_ring_count)):
-                if current_outer_diameter <= ring_thickness:
+                if current_outer_diameter <= 0:
+                    break
+
+                if current_inner_diameter <= 0:
+                    # Not enough space for a ring, it becomes a full disc.
                     shapes.append(
                         Shape.new_circle(
                             center, current_outer_diameter, is_negative=False
-- 
2.43.0


From a0b01e8931176a4196471b03e05f8c9c7aac3547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:29 +0000
Subject: [PATCH 21/65] fix: draw thermals whose gaps cover the inner circle or
 which have none

Specification calls these valid, they were dropped or raised AssertionError.
---
 src/pygerber/gerber/compiler/compiler.py | 28 ++++++++++++++++--------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 9ea178a..2d5d597 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -1036,7 +1036,7 @@ class MacroEvalVisitor(AstVisitor):
 
         thickness = outer_diameter - inner_diameter
 
-        if gap_thickness * math.sqrt(2) >= inner_diameter:
+        if gap_thickness * math.sqrt(2) >= outer_diameter:
             return node
 
         if thickness <= 0:
@@ -1050,15 +1050,25 @@ class MacroEvalVisitor(AstVisitor):
         )
 
         shapes: list[Shape] = []
-        shapes.extend(
-            Shape.new_ring(
-                (0, 0),
-                outer_diameter,
-                inner_diameter,
-                is_negative=False,
-                metadata=self._metadata,
+        if inner_diameter > 0:
+            shapes.extend(
+                Shape.new_ring(
+                    (0, 0),
+                    outer_diameter,
+                    inner_diameter,
+                    is_negative=False,
+                    metadata=self._metadata,
+                )
+            )
+        else:
+            shapes.append(
+                Shape.new_circle(
+                    (0, 0),
+                    outer_diameter,
+                    is_negative=False,
+                    metadata=self._metadata,
+                )
             )
-        )
 
         # Compensate rounding errors with rotation.
         radius_delta = outer_diameter / 2 + thickness / 1.99
-- 
2.43.0


From 078f8730eaf6cbadae1b8200a33131adfe97023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:01 +0000
Subject: [PATCH 22/65] fix: render empty programs and empty layers as empty
 images

Layers without any drawing commands were left in unfinished state, which caused
AssertionError when such layer was the main layer or was pasted.
---
 src/pygerber/vm/pillow/vm.py  |  2 +-
 src/pygerber/vm/shapely/vm.py |  8 ++++++--
 src/pygerber/vm/vm.py         | 31 +++++++++++++++++++++----------
 3 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/pygerber/vm/pillow/vm.py b/src/pygerber/vm/pillow/vm.py
index b57a680..5ac2315 100644
--- a/src/pygerber/vm/pillow/vm.py
+++ b/src/pygerber/vm/pillow/vm.py
@@ -515,7 +515,7 @@ class PillowVirtualMachine(VirtualMachine):
         """Execute all commands."""
         super().run(rvmc)
 
-        layer = self._layers.get(self.MAIN_LAYER_ID, None)
+        layer = self._get_main_layer()
 
         if layer is None:
             if self._fail_on_empty_auto_sized_layer:
diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 84e6113..c61c871 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -413,10 +413,14 @@ class ShapelyVirtualMachine(VirtualMachine):
         """Execute all commands."""
         super().run(rvmc)
 
-        layer = self._layers.get(self.MAIN_LAYER_ID, None)
+        layer = self._get_main_layer()
 
         if layer is None:
-            raise NoMainLayerError
+            if self._fail_on_empty_auto_sized_layer:
+                raise NoMainLayerError
+            return ShapelyResult(
+                Box(min_x=0, min_y=0, max_x=0, max_y=0), sh.GeometryCollection()
+            )
 
         assert isinstance(layer, ShapelyEagerLayer)
         return ShapelyResult(layer.box, sh.unary_union(layer.shape))
diff --git a/src/pygerber/vm/vm.py b/src/pygerber/vm/vm.py
index d6d5752..8b327b7 100644
--- a/src/pygerber/vm/vm.py
+++ b/src/pygerber/vm/vm.py
@@ -131,6 +131,7 @@ class VirtualMachine(CommandVisitor):
         self._fail_on_empty_auto_sized_layer = fail_on_empty_auto_sized_layer
         self._layers: dict[LayerID, Layer] = {}
         self._layer_stack: list[Layer] = []
+        self._empty_layers: set[LayerID] = set()
 
     def set_handlers_for_layer(self, layer: Layer) -> None:
         """Set handlers for given layer."""
@@ -176,6 +177,9 @@ class VirtualMachine(CommandVisitor):
 
     def on_paste_layer(self, command: PasteLayer) -> None:
         """Visit `PasteLayer` command."""
+        if command.source_layer_id in self._empty_layers:
+            return
+
         self._on_paste_layer_handler(command)
 
     def on_paste_layer_eager(self, command: PasteLayer) -> None:
@@ -262,17 +266,18 @@ class VirtualMachine(CommandVisitor):
             if box is None:
                 if self._fail_on_empty_auto_sized_layer:
                     raise EmptyAutoSizedLayerNotAllowedError(top_layer.layer_id)
-                return
+                self._empty_layers.add(top_layer.layer_id)
 
-            new_layer = self.create_eager_layer(
-                top_layer.layer_id, top_layer.origin, box
-            )
-            self.set_layer(top_layer.layer_id, new_layer)
+            else:
+                new_layer = self.create_eager_layer(
+                    top_layer.layer_id, top_layer.origin, box
+                )
+                self.set_layer(top_layer.layer_id, new_layer)
 
-            self.push_layer_to_stack(new_layer)
-            self.set_eager_handlers()
-            self._eval_deferred_commands(top_layer.commands)
-            self.pop_layer_from_stack()
+                self.push_layer_to_stack(new_layer)
+                self.set_eager_handlers()
+                self._eval_deferred_commands(top_layer.commands)
+                self.pop_layer_from_stack()
 
         else:
             raise NotImplementedError(type(top_layer))
@@ -325,11 +330,17 @@ class VirtualMachine(CommandVisitor):
         for cmd in commands:
             cmd.visit(self)
 
+    def _get_main_layer(self) -> Optional[Layer]:
+        """Get main layer, None if there is no main layer or nothing was drawn."""
+        if self.MAIN_LAYER_ID in self._empty_layers:
+            return None
+        return self._layers.get(self.MAIN_LAYER_ID, None)
+
     def run(self, rvmc: RVMC) -> Result:
         """Execute all commands."""
         for command in rvmc.commands:
             command.visit(self)
-        layer = self._layers.get(self.MAIN_LAYER_ID, None)
+        layer = self._get_main_layer()
 
         if layer is None:
             if self._fail_on_empty_auto_sized_layer:
-- 
2.43.0


From b617317862727f99848e1debaadb48c339adf9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:35 +0000
Subject: [PATCH 23/65] fix: raise documented errors when pasting missing or
 unfinished layer

Pasting into auto-sized layer raised KeyError or AssertionError instead.
---
 src/pygerber/vm/vm.py | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/src/pygerber/vm/vm.py b/src/pygerber/vm/vm.py
index 8b327b7..e2fbf2e 100644
--- a/src/pygerber/vm/vm.py
+++ b/src/pygerber/vm/vm.py
@@ -15,6 +15,7 @@ from pygerber.vm.types import (
     LayerNotFoundError,
     NoLayerSetError,
     NoMainLayerError,
+    PasteDeferredLayerNotAllowedError,
     Style,
     Vector,
 )
@@ -293,37 +294,23 @@ class VirtualMachine(CommandVisitor):
     def _calculate_deferred_layer_box(
         self, deferred_layer: DeferredLayer
     ) -> Optional[Box]:
-        commands = deferred_layer.commands
         box: Optional[Box] = None
 
-        if len(commands) == 0:
-            return None
-
-        cmd = commands[0]
-
-        if isinstance(cmd, Shape):
-            box = cmd.outer_box
-
-        elif isinstance(cmd, PasteLayer):
-            layer = self._layers[cmd.source_layer_id]
-            assert isinstance(layer, EagerLayer)
-            box = layer.box + cmd.center - layer.origin
-
-        else:
-            raise NotImplementedError(type(cmd))
-
-        for cmd in commands[1:]:
+        for cmd in deferred_layer.commands:
             if isinstance(cmd, Shape):
-                box = box + cmd.outer_box
+                cmd_box = cmd.outer_box
 
             elif isinstance(cmd, PasteLayer):
-                layer = self._layers[cmd.source_layer_id]
-                assert isinstance(layer, EagerLayer)
-                box = box + (layer.box + cmd.center - layer.origin)
+                layer = self.get_layer(cmd.source_layer_id)
+                if not isinstance(layer, EagerLayer):
+                    raise PasteDeferredLayerNotAllowedError(cmd.source_layer_id)
+                cmd_box = layer.box + cmd.center - layer.origin
 
             else:
                 raise NotImplementedError(type(cmd))
 
+            box = cmd_box if box is None else box + cmd_box
+
         return box
 
     def _eval_deferred_commands(self, commands: list[DrawCmdT]) -> None:
-- 
2.43.0


From 9b0e22f70d29b0ada7ba63668363124401e1ee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:06 +0000
Subject: [PATCH 24/65] fix: render arcs and shapes without extent instead of
 hanging

Zero size apertures, which are valid, made the vector renderer loop forever and the
raster renderer raise AssertionError, as did arcs starting and ending at one angle.
---
 src/pygerber/vm/pillow/vm.py  |  9 ++++++---
 src/pygerber/vm/shapely/vm.py | 11 ++++++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/vm/pillow/vm.py b/src/pygerber/vm/pillow/vm.py
index 5ac2315..ba51710 100644
--- a/src/pygerber/vm/pillow/vm.py
+++ b/src/pygerber/vm/pillow/vm.py
@@ -323,8 +323,8 @@ class PillowVirtualMachine(VirtualMachine):
 
     def create_eager_layer(self, layer_id: LayerID, origin: Vector, box: Box) -> Layer:
         """Create new eager layer instances (factory method)."""
-        assert box.width > 0
-        assert box.height > 0
+        assert box.width >= 0
+        assert box.height >= 0
         return PillowEagerLayer(self.dpmm, layer_id, box, origin)
 
     def create_deferred_layer(self, layer_id: LayerID, origin: Vector) -> Layer:
@@ -381,7 +381,8 @@ class PillowVirtualMachine(VirtualMachine):
         assert start_angle < FULL_ANGLE_DEGREES
         assert end_angle < FULL_ANGLE_DEGREES
 
-        angle_delta = abs(start_angle - end_angle)
+        # Start and end at the same angle make a full circle.
+        angle_delta = abs(start_angle - end_angle) or FULL_ANGLE_DEGREES
         angle_length = (angle_delta / 360) * (command.get_radius() * 2 * math.pi)
         angle_length_pixels = self.to_pixel(angle_length)
         segment_count = self.angle_length_to_segment_count(angle_length_pixels)
@@ -401,6 +402,8 @@ class PillowVirtualMachine(VirtualMachine):
                     start_angle, end_angle, angle_delta, *DECREASE_ANGLE
                 )
             else:
+                if start_angle == end_angle:
+                    end_angle += FULL_ANGLE_DEGREES
                 angle_generator = self._generate_arc_angles(
                     start_angle, end_angle, angle_delta, *INCREASE_ANGLE
                 )
diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index c61c871..b30746f 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -25,6 +25,8 @@ from pygerber.vm.vm import DeferredLayer, EagerLayer, Layer, Result, VirtualMach
 
 FULL_ANGLE_DEGREES = 360
 
+MIN_LINEAR_RING_LENGTH = 4
+
 DECREASE_ANGLE = (operator.sub, operator.gt)
 INCREASE_ANGLE = (operator.add, operator.lt)
 
@@ -262,6 +264,10 @@ class ShapelyVirtualMachine(VirtualMachine):
         if points:
             points.append(points[0])
 
+        if len(points) < MIN_LINEAR_RING_LENGTH:
+            # Shape has no area.
+            return
+
         self._add_polygon(points, is_negative=command.is_negative)
 
     def _add_polygon(
@@ -317,7 +323,8 @@ class ShapelyVirtualMachine(VirtualMachine):
         assert start_angle < FULL_ANGLE_DEGREES
         assert end_angle < FULL_ANGLE_DEGREES
 
-        angle_delta = abs(start_angle - end_angle)
+        # Start and end at the same angle make a full circle.
+        angle_delta = abs(start_angle - end_angle) or FULL_ANGLE_DEGREES
         angle_length = (angle_delta / 360) * (command.get_radius() * 2 * math.pi)
         segment_count = self.angle_length_to_segment_count(angle_length)
 
@@ -333,6 +340,8 @@ class ShapelyVirtualMachine(VirtualMachine):
                     start_angle, end_angle, angle_delta, *DECREASE_ANGLE
                 )
             else:
+                if start_angle == end_angle:
+                    end_angle += FULL_ANGLE_DEGREES
                 angle_generator = self._generate_arc_angles(
                     start_angle, end_angle, angle_delta, *INCREASE_ANGLE
                 )
-- 
2.43.0


From c97b369860b9a0de9a3303cbb494af5ff5067dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:06 +0000
Subject: [PATCH 25/65] fix: never return 360 degrees as angle between vectors

---
 src/pygerber/vm/commands/shape_segments/arc.py | 3 +++
 src/pygerber/vm/types/vector.py                | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/vm/commands/shape_segments/arc.py b/src/pygerber/vm/commands/shape_segments/arc.py
index 616851d..32a378d 100644
--- a/src/pygerber/vm/commands/shape_segments/arc.py
+++ b/src/pygerber/vm/commands/shape_segments/arc.py
@@ -72,6 +72,9 @@ class Arc(ShapeSegment):
         total_angle = relative_start.angle_between(
             self.get_relative_end_point(),
         )
+        if total_angle == 0 and self.clockwise:
+            # Start and end at the same angle make a full circle.
+            total_angle = 360
 
         angle_x_plus = relative_start.angle_between(Vector.unit.x) % 360
         angle_y_minus = relative_start.angle_between(-Vector.unit.y) % 360
diff --git a/src/pygerber/vm/types/vector.py b/src/pygerber/vm/types/vector.py
index 772dea1..0d1020b 100644
--- a/src/pygerber/vm/types/vector.py
+++ b/src/pygerber/vm/types/vector.py
@@ -126,7 +126,7 @@ class Vector(ModelType):
         >>> e.angle_between(s)
         270.0
         """
-        return 360 - self.angle_between_cc(other)
+        return (360 - self.angle_between_cc(other)) % 360
 
     def angle_between_cc(self, other: Vector) -> float:
         """Calculate counter clockwise angle between two vectors in degrees.
-- 
2.43.0


From 027913acd9ed582b2cb233f05b0366f5c84f2e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:06 +0000
Subject: [PATCH 26/65] fix: decide about arc direction change by determinant
 of transform

---
 src/pygerber/vm/commands/shape_segments/arc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/vm/commands/shape_segments/arc.py b/src/pygerber/vm/commands/shape_segments/arc.py
index 32a378d..89dec40 100644
--- a/src/pygerber/vm/commands/shape_segments/arc.py
+++ b/src/pygerber/vm/commands/shape_segments/arc.py
@@ -112,7 +112,7 @@ class Arc(ShapeSegment):
             center=self.center.transform(transform),
             clockwise=(
                 self.clockwise
-                if transform[0][0] * transform[1][1] > 0
+                if transform[0][0] * transform[1][1] > transform[0][1] * transform[1][0]
                 else not self.clockwise
             ),
         )
-- 
2.43.0


From 5d508718033691c1b2b299121edb396bec57a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:06 +0000
Subject: [PATCH 27/65] fix: accept any binary file object as SVG destination

---
 src/pygerber/vm/shapely/vm.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index b30746f..165a6ef 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -9,7 +9,6 @@ import importlib.util
 import math
 import operator
 from contextlib import suppress
-from io import BytesIO
 from pathlib import Path
 from typing import Any, BinaryIO, Callable, Generator, Optional, Sequence
 
@@ -131,11 +130,8 @@ class ShapelyResult(Result):
             with Path(destination).open("wb") as file:
                 self._dump_svg(file, color, encoding=encoding)
 
-        elif isinstance(destination, (BinaryIO, BytesIO)):
-            self._dump_svg(destination, color, encoding=encoding)
-
         else:
-            raise NotImplementedError(type(destination))
+            self._dump_svg(destination, color, encoding=encoding)
 
     def _dump_svg(
         self, out: BinaryIO, color: Style, *, encoding: str = "utf-8"
-- 
2.43.0


From 7a341d13ef50262dc8a6c42eed31f06b22d5f94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:17 +0000
Subject: [PATCH 28/65] fix: bound number of points of nearly closed arcs

Number of points of an arc was derived from difference of its start and end angles
even when the arc goes the other way around, hence almost closed arcs were made of
millions of points.
---
 src/pygerber/vm/pillow/vm.py  |  3 ++-
 src/pygerber/vm/shapely/vm.py | 31 +++++++++++--------------------
 2 files changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/pygerber/vm/pillow/vm.py b/src/pygerber/vm/pillow/vm.py
index ba51710..7224bbe 100644
--- a/src/pygerber/vm/pillow/vm.py
+++ b/src/pygerber/vm/pillow/vm.py
@@ -39,6 +39,7 @@ DECREASE_ANGLE = (operator.sub, operator.gt)
 INCREASE_ANGLE = (operator.add, operator.lt)
 
 MIN_SEGMENT_COUNT = 12
+MIN_ANGLE_STEP_DEGREES = 0.05
 
 
 class PillowResult(Result):
@@ -390,7 +391,7 @@ class PillowVirtualMachine(VirtualMachine):
         if segment_count < 1:
             raise DPMMTooSmallError(self.dpmm)
 
-        angle_delta = angle_delta / segment_count
+        angle_delta = max(angle_delta / segment_count, MIN_ANGLE_STEP_DEGREES)
         assert angle_delta > 0
 
         angle_generator: Generator[float, None, None]
diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 165a6ef..559aded 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -319,36 +319,27 @@ class ShapelyVirtualMachine(VirtualMachine):
         assert start_angle < FULL_ANGLE_DEGREES
         assert end_angle < FULL_ANGLE_DEGREES
 
+        # Clockwise arc goes from start to end with decreasing angle.
+        angle_delta = (
+            start_angle - end_angle if command.clockwise else end_angle - start_angle
+        ) % FULL_ANGLE_DEGREES
         # Start and end at the same angle make a full circle.
-        angle_delta = abs(start_angle - end_angle) or FULL_ANGLE_DEGREES
-        angle_length = (angle_delta / 360) * (command.get_radius() * 2 * math.pi)
+        arc_angle = angle_delta or FULL_ANGLE_DEGREES
+        angle_length = (arc_angle / 360) * (command.get_radius() * 2 * math.pi)
         segment_count = self.angle_length_to_segment_count(angle_length)
 
-        angle_delta = angle_delta / segment_count
-        assert angle_delta >= 0
+        angle_delta = arc_angle / segment_count
+        assert angle_delta > 0
 
         angle_generator: Generator[float, None, None]
 
-        if start_angle <= end_angle:
-            if command.clockwise:
-                end_angle -= FULL_ANGLE_DEGREES
-                angle_generator = self._generate_arc_angles(
-                    start_angle, end_angle, angle_delta, *DECREASE_ANGLE
-                )
-            else:
-                if start_angle == end_angle:
-                    end_angle += FULL_ANGLE_DEGREES
-                angle_generator = self._generate_arc_angles(
-                    start_angle, end_angle, angle_delta, *INCREASE_ANGLE
-                )
-        elif command.clockwise:
+        if command.clockwise:
             angle_generator = self._generate_arc_angles(
-                start_angle, end_angle, angle_delta, *DECREASE_ANGLE
+                start_angle, start_angle - arc_angle, angle_delta, *DECREASE_ANGLE
             )
         else:
-            end_angle += FULL_ANGLE_DEGREES
             angle_generator = self._generate_arc_angles(
-                start_angle, end_angle, angle_delta, *INCREASE_ANGLE
+                start_angle, start_angle + arc_angle, angle_delta, *INCREASE_ANGLE
             )
 
         radius = command.get_radius()
-- 
2.43.0


From 257f8c1ce02cdc9b428983a6d64664d07f4f9d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:28 +0000
Subject: [PATCH 29/65] fix: accept decimals with no digits after the point

Gerber specification allows 1. as well as .5, such files were rejected.
---
 src/pygerber/gerber/parser/pyparsing/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/parser/pyparsing/grammar.py b/src/pygerber/gerber/parser/pyparsing/grammar.py
index 5a1a253..4fa2c65 100644
--- a/src/pygerber/gerber/parser/pyparsing/grammar.py
+++ b/src/pygerber/gerber/parser/pyparsing/grammar.py
@@ -309,7 +309,7 @@ class Grammar:
     @pp.cached_property
     def double(self) -> pp.ParserElement:
         """Create a parser element capable of parsing doubles."""
-        return pp.Regex(r"[+-]?(([0-9]+(\.[0-9]+)?)|(\.[0-9]+))").set_results_name(
+        return pp.Regex(r"[+-]?(([0-9]+(\.[0-9]*)?)|(\.[0-9]+))").set_results_name(
             "double"
         )
 
-- 
2.43.0


From dc5648f9a5668f90b3afce26996f43e165a6ba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:44 +0000
Subject: [PATCH 30/65] fix: use exact arc end points in regions and paths

Both end points were generated a second time from the arc angles, so rounding
noise made contours with arcs self-touching and the whole region was dropped.
---
 src/pygerber/vm/shapely/vm.py | 37 ++++++-----------------------------
 1 file changed, 6 insertions(+), 31 deletions(-)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 559aded..48f4659 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -7,7 +7,6 @@ from __future__ import annotations
 import importlib
 import importlib.util
 import math
-import operator
 from contextlib import suppress
 from pathlib import Path
 from typing import Any, BinaryIO, Callable, Generator, Optional, Sequence
@@ -26,9 +25,6 @@ FULL_ANGLE_DEGREES = 360
 
 MIN_LINEAR_RING_LENGTH = 4
 
-DECREASE_ANGLE = (operator.sub, operator.gt)
-INCREASE_ANGLE = (operator.add, operator.lt)
-
 _IS_shapely_AVAILABLE: Optional[bool] = None
 
 
@@ -300,7 +296,7 @@ class ShapelyVirtualMachine(VirtualMachine):
     def _calculate_arc_points(
         self, command: Arc
     ) -> Generator[tuple[float, float], None, None]:
-        """Calculate points on arc."""
+        """Calculate points on arc, without its start and end."""
         start_angle = (
             command.get_relative_start_point().angle_between(
                 Vector.unit.x,
@@ -331,20 +327,13 @@ class ShapelyVirtualMachine(VirtualMachine):
         angle_delta = arc_angle / segment_count
         assert angle_delta > 0
 
-        angle_generator: Generator[float, None, None]
-
-        if command.clockwise:
-            angle_generator = self._generate_arc_angles(
-                start_angle, start_angle - arc_angle, angle_delta, *DECREASE_ANGLE
-            )
-        else:
-            angle_generator = self._generate_arc_angles(
-                start_angle, start_angle + arc_angle, angle_delta, *INCREASE_ANGLE
-            )
-
+        direction = -1 if command.clockwise else 1
         radius = command.get_radius()
 
-        for angle in angle_generator:
+        # Start and end points of the arc are known exactly, recalculating them from
+        # angles would only introduce rounding errors making the polygon invalid.
+        for i in range(1, segment_count):
+            angle = start_angle + direction * i * angle_delta
             offset_vector = Vector(
                 x=radius * math.cos(math.radians(angle)),
                 y=radius * math.sin(math.radians(angle)),
@@ -352,20 +341,6 @@ class ShapelyVirtualMachine(VirtualMachine):
 
             yield (command.center + offset_vector).xy
 
-    def _generate_arc_angles(
-        self,
-        start: float,
-        end: float,
-        delta: float,
-        apply_delta: Callable[[float, float], float],
-        compare_angles: Callable[[float, float], bool],
-    ) -> Generator[float, None, None]:
-        current_angle = start
-        while compare_angles(current_angle, end):
-            yield current_angle
-            current_angle = apply_delta(current_angle, delta)
-        yield end
-
     def on_paste_layer_eager(self, command: PasteLayer) -> None:
         """Visit `PasteLayer` command."""
         source_layer = self.get_layer(command.source_layer_id)
-- 
2.43.0


From e2704eff74af8eb91f27cc4034a0f13f02ab8c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:51 +0000
Subject: [PATCH 31/65] fix: round macro vertex and ring counts instead of
 truncating

Counts given by expressions (e.g. 2.8-1.8) evaluate to slightly less than the
integer they denote, which dropped a ring or failed on a vertex assertion.
---
 src/pygerber/gerber/compiler/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 2d5d597..4c901d2 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -924,7 +924,7 @@ class MacroEvalVisitor(AstVisitor):
     def on_code_5(self, node: Code5) -> Code5:
         """Handle `Code5` node."""
         exposure = self._eval(node.exposure)
-        number_of_vertices = int(self._eval(node.number_of_vertices))
+        number_of_vertices = round(self._eval(node.number_of_vertices))
         center_x = self._eval(node.center_x)
         center_y = self._eval(node.center_y)
         diameter = self._eval(node.diameter)
@@ -988,7 +988,7 @@ class MacroEvalVisitor(AstVisitor):
             # Diameter is reduced from both sides, hence ring_thickness * 2.
             current_inner_diameter = outer_diameter - (ring_thickness * 2)
 
-            for _ in range(int(max_ring_count)):
+            for _ in range(round(max_ring_count)):
                 if current_outer_diameter <= 0:
                     break
 
-- 
2.43.0


From 3c6f450f12a64a711e725d9e8caf28a2bb74af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:51 +0000
Subject: [PATCH 32/65] fix: attach metadata to rings of moire primitive

---
 src/pygerber/gerber/compiler/compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 4c901d2..6e2c67b 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -996,7 +996,10 @@ class MacroEvalVisitor(AstVisitor):
                     # Not enough space for a ring, it becomes a full disc.
                     shapes.append(
                         Shape.new_circle(
-                            center, current_outer_diameter, is_negative=False
+                            center,
+                            current_outer_diameter,
+                            is_negative=False,
+                            metadata=self._metadata,
                         )
                     )
                     break
@@ -1007,6 +1010,7 @@ class MacroEvalVisitor(AstVisitor):
                         current_outer_diameter,
                         current_inner_diameter,
                         is_negative=False,
+                        metadata=self._metadata,
                     )
                 )
                 current_outer_diameter -= diameter_delta
-- 
2.43.0


From adf37e15e97e31aa59b6c3b7730e0db1b8f2705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:56 +0000
Subject: [PATCH 33/65] fix: evaluate undefined macro variables as 0

---
 src/pygerber/gerber/ast/expression_eval_visitor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/ast/expression_eval_visitor.py b/src/pygerber/gerber/ast/expression_eval_visitor.py
index 056c604..9d10c5d 100644
--- a/src/pygerber/gerber/ast/expression_eval_visitor.py
+++ b/src/pygerber/gerber/ast/expression_eval_visitor.py
@@ -102,8 +102,11 @@ class ExpressionEvalVisitor(AstVisitor):
         return node
 
     def on_variable(self, node: Variable) -> Variable:
-        """Handle `Variable` node."""
-        self.return_value = self.scope[node.variable]
+        """Handle `Variable` node.
+
+        Value of variable which was not defined is 0.
+        """
+        self.return_value = self.scope.get(node.variable, Double(0.0))
         return node
 
     def on_constant(self, node: Constant) -> Constant:
-- 
2.43.0


From 6505d5838d0e41b2f65c4c24fe88a3623a2e406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:08 +0000
Subject: [PATCH 34/65] fix: use specified name of TO.CMPN attribute

---
 src/pygerber/gerber/ast/nodes/attribute/TO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/ast/nodes/attribute/TO.py b/src/pygerber/gerber/ast/nodes/attribute/TO.py
index c7b25fc..3d1265a 100644
--- a/src/pygerber/gerber/ast/nodes/attribute/TO.py
+++ b/src/pygerber/gerber/ast/nodes/attribute/TO.py
@@ -155,14 +155,14 @@ class TO_CMfr(TO):  # noqa: N801
 
 
 class TO_CMNP(TO):  # noqa: N801
-    """Represents TO Gerber extended command with .CMNP attribute."""
+    """Represents TO Gerber extended command with .CMPN attribute."""
 
     part_number: str
 
     @property
     def attribute_name(self) -> str:
         """Get attribute name."""
-        return ".CMNP"
+        return ".CMPN"
 
     def visit(self, visitor: AstVisitor) -> TO_CMNP:
         """Handle visitor call."""
-- 
2.43.0


From 60f175740b69155861b406a350f6112ce4d41a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:08 +0000
Subject: [PATCH 35/65] fix: allow pasting layers without contents in clear
 polarity

---
 src/pygerber/vm/shapely/vm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 48f4659..0c3ee8e 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -350,6 +350,10 @@ class ShapelyVirtualMachine(VirtualMachine):
 
         assert isinstance(source_layer, ShapelyEagerLayer), type(source_layer)
 
+        if len(source_layer.shape) == 0:
+            # Nothing was drawn to source layer.
+            return
+
         layer = self.layer
         x_offset = -layer.origin.x + command.center.x
         y_offset = -layer.origin.y + command.center.y
-- 
2.43.0


From d29e5ceb3561e24f3a454372498acd91edce3579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:15 +0000
Subject: [PATCH 36/65] fix: never return 360 degrees as counter clockwise
 angle

---
 src/pygerber/vm/types/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/vm/types/vector.py b/src/pygerber/vm/types/vector.py
index 0d1020b..b9e2e6e 100644
--- a/src/pygerber/vm/types/vector.py
+++ b/src/pygerber/vm/types/vector.py
@@ -140,7 +140,7 @@ class Vector(ModelType):
             ((v0.x * v1.x) + (v0.y * v1.y)),  # dot product
         )
         angle_degrees = math.degrees(angle_radians)
-        return angle_degrees + (360 * (angle_degrees < 0))
+        return (angle_degrees + (360 * (angle_degrees < 0))) % 360
 
     def normalized(self) -> Vector:
         """Return normalized (unit length) vector."""
-- 
2.43.0


From a25bed3c8a347de71b3fd4ecc8c9d92c9e679d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:17 +0000
Subject: [PATCH 37/65] fix: keep track of plot mode used by regions in builder

---
 src/pygerber/builder/gerber.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygerber/builder/gerber.py b/src/pygerber/builder/gerber.py
index fe9fd49..8bab33b 100644
--- a/src/pygerber/builder/gerber.py
+++ b/src/pygerber/builder/gerber.py
@@ -1639,6 +1639,8 @@ class RegionCreator:
                 else:
                     raise NotImplementedError
 
+            self._builder._plot_mode = mode  # noqa: SLF001
+
             yield G37()
             yield D02(
                 x=self._builder._pack_x(self._begin[0]),  # noqa: SLF001
-- 
2.43.0


From c7c6a0ff5201d554823917671af78543f2170e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:56 +0000
Subject: [PATCH 38/65] fix: add drill map to default color map with alpha
 channel

---
 src/pygerber/gerber/api/_enums.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygerber/gerber/api/_enums.py b/src/pygerber/gerber/api/_enums.py
index 1437b4d..c20546d 100644
--- a/src/pygerber/gerber/api/_enums.py
+++ b/src/pygerber/gerber/api/_enums.py
@@ -243,6 +243,7 @@ DEFAULT_ALPHA_COLOR_MAP: COLOR_MAP_T = {
     FileTypeEnum.VCUT: Style.presets.PASTE_MASK_ALPHA,
     FileTypeEnum.VIAFILL: Style.presets.PASTE_MASK_ALPHA,
     FileTypeEnum.PADS: Style.presets.PASTE_MASK_ALPHA,
+    FileTypeEnum.DRILLMAP: Style.presets.SILK_ALPHA,
     FileTypeEnum.FABRICATIONDRAWING: Style.presets.SILK_ALPHA,
     FileTypeEnum.VCUTMAP: Style.presets.SILK_ALPHA,
     FileTypeEnum.ASSEMBLYDRAWING: Style.presets.SILK_ALPHA,
-- 
2.43.0


From e60c5e71f635a552910481b5579ccc2761cbb05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:56 +0000
Subject: [PATCH 39/65] fix: recognize numbered file extensions regardless of
 case

---
 src/pygerber/gerber/api/_enums.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/api/_enums.py b/src/pygerber/gerber/api/_enums.py
index c20546d..9719c90 100644
--- a/src/pygerber/gerber/api/_enums.py
+++ b/src/pygerber/gerber/api/_enums.py
@@ -156,6 +156,8 @@ class FileTypeEnum(Enum):
 
     @classmethod
     def infer_from_extension(cls, extension: str) -> FileTypeEnum:
+        extension = extension.lower()
+
         if re.match(r"\.g[0-9]+", extension):
             return FileTypeEnum.COPPER
 
@@ -166,7 +168,7 @@ class FileTypeEnum(Enum):
             return FileTypeEnum.COPPER
 
         return GERBER_EXTENSION_TO_FILE_TYPE_MAPPING.get(
-            extension.lower(), FileTypeEnum.UNDEFINED
+            extension, FileTypeEnum.UNDEFINED
         )
 
 
-- 
2.43.0


From 0957faf7ff0e6c7a8c3526b789d73a18649a43f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:56 +0000
Subject: [PATCH 40/65] fix: look up file type given in command line by name

---
 src/pygerber/console/gerber.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pygerber/console/gerber.py b/src/pygerber/console/gerber.py
index c8e88ee..825e560 100644
--- a/src/pygerber/console/gerber.py
+++ b/src/pygerber/console/gerber.py
@@ -144,7 +144,7 @@ def png(
 ) -> None:
     """Convert Gerber image file to PNG image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -231,7 +231,7 @@ def jpeg(  # noqa: PLR0913
 ) -> None:
     """Convert Gerber image file to JPEG image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -299,7 +299,7 @@ def tiff(  # noqa: PLR0913
 ) -> None:
     """Convert Gerber image file to TIFF image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -336,7 +336,7 @@ def bmp(
 ) -> None:
     """Convert Gerber image file to BMP image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -387,7 +387,7 @@ def webp(  # noqa: PLR0913
 ) -> None:
     """Convert Gerber image file to WEBP image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -419,7 +419,7 @@ if is_shapely_available():
     ) -> None:
         """Convert Gerber image file to SVG image."""
         style_obj = _sanitize_style(style, foreground, background)
-        file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+        file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
         if implementation.lower() == "shapely":
             result = file.render_with_shapely(style_obj)
@@ -529,7 +529,7 @@ def merge_convert_png(
     SOURCES - paths to files which are supposed to be rendered and merged.
     """
     view = CompositeView(
-        GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+        GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
         for source in sources
     )
 
@@ -563,7 +563,7 @@ def merge_convert_jpeg(
     SOURCES - paths to files which are supposed to be rendered and merged.
     """
     view = CompositeView(
-        GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+        GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
         for source in sources
     )
 
-- 
2.43.0


From 15c92d31d9eb390b7a3289c5819ba49a553e6514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:56 +0000
Subject: [PATCH 41/65] fix: do not truncate output of format command when
 formatting fails

---
 src/pygerber/console/gerber.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/console/gerber.py b/src/pygerber/console/gerber.py
index 825e560..e8a7584 100644
--- a/src/pygerber/console/gerber.py
+++ b/src/pygerber/console/gerber.py
@@ -497,8 +497,11 @@ def format_cmd(
     output_path = Path(output)
     file = GerberFile.from_file(source)
 
-    with output_path.open("w") as f:
-        file.format(f, options=options)
+    # Format first, so output is not touched when source can not be formatted.
+    formatted_code = file.formats(options=options)
+
+    with output_path.open("w", encoding="utf-8") as f:
+        f.write(formatted_code)
 
 
 @gerber.group("merge-convert")
-- 
2.43.0


From 169fefdec9573c878ee1386dcfb46baf86314403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:56 +0000
Subject: [PATCH 42/65] fix: keep inner layers of job file in stack order

---
 src/pygerber/gerber/api/_gerber_job_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/api/_gerber_job_file.py b/src/pygerber/gerber/api/_gerber_job_file.py
index ad41c84..368ec74 100644
--- a/src/pygerber/gerber/api/_gerber_job_file.py
+++ b/src/pygerber/gerber/api/_gerber_job_file.py
@@ -229,7 +229,7 @@ class GerberJobFile(_ModelType):
             top=CompositeView(extract_and_sort_files(top)),
             inner=(
                 CompositeView(extract_and_sort_files(inner[key]))
-                for key in sorted(inner)
+                for key in sorted(inner, key=int)
             ),
             bottom=CompositeView(extract_and_sort_files(bottom)),
         )
-- 
2.43.0


From a13241c8b18fb229443f27afd8a14e0de7453f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:56 +0000
Subject: [PATCH 43/65] fix: allow creating job file objects not loaded from
 disk

---
 src/pygerber/gerber/api/_gerber_job_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/api/_gerber_job_file.py b/src/pygerber/gerber/api/_gerber_job_file.py
index 368ec74..f02a8d8 100644
--- a/src/pygerber/gerber/api/_gerber_job_file.py
+++ b/src/pygerber/gerber/api/_gerber_job_file.py
@@ -102,7 +102,8 @@ class GerberJobFile(_ModelType):
     __file_path__: Optional[Path] = None
 
     def model_post_init(self, __context: Any) -> None:
-        self.__file_path__ = Path(__context["__file_path__"])
+        if __context is not None and "__file_path__" in __context:
+            self.__file_path__ = Path(__context["__file_path__"])
         return super().model_post_init(__context)
 
     @classmethod
-- 
2.43.0


From 121ca625dfa217881fe67f7f3349e8a70b82c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:09 +0000
Subject: [PATCH 44/65] fix: render files in inches with requested resolution

---
 src/pygerber/gerber/api/_gerber_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/api/_gerber_file.py b/src/pygerber/gerber/api/_gerber_file.py
index f21ece3..d6f08d4 100644
--- a/src/pygerber/gerber/api/_gerber_file.py
+++ b/src/pygerber/gerber/api/_gerber_file.py
@@ -610,10 +610,12 @@ class GerberFile:
         style = self._dispatch_style(style)
 
         rvmc = self._get_rvmc()
+        # RVMC uses units of Gerber file, hence resolution has to be adjusted for inches.
+        is_imperial = self._get_final_state().unit_mode == UnitMode.IMPERIAL
         result = render(
             rvmc,
             backend="pillow",
-            dpmm=dpmm,
+            dpmm=dpmm * 25.4 if is_imperial else dpmm,
         )
         assert isinstance(result, PillowResult)
         return PillowImage(
-- 
2.43.0


From 1e3effda8c67359b9bd942d8ccdb9581283b8e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:09 +0000
Subject: [PATCH 45/65] fix: align layers in different units in composite view

---
 src/pygerber/gerber/api/_composite_view.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/api/_composite_view.py b/src/pygerber/gerber/api/_composite_view.py
index 29eee02..0b79399 100644
--- a/src/pygerber/gerber/api/_composite_view.py
+++ b/src/pygerber/gerber/api/_composite_view.py
@@ -67,10 +67,10 @@ class CompositeView:
             file.render_with_pillow(dpmm=dpmm) for file in self.files
         ]
 
-        max_x_image = max(sub_images, key=lambda x: x.get_image_space().max_x)
-        max_y_image = max(sub_images, key=lambda x: x.get_image_space().max_y)
-        min_x_image = min(sub_images, key=lambda x: x.get_image_space().min_x)
-        min_y_image = min(sub_images, key=lambda x: x.get_image_space().min_y)
+        max_x_image = max(sub_images, key=lambda x: x.get_image_space().max_x_mm)
+        max_y_image = max(sub_images, key=lambda x: x.get_image_space().max_y_mm)
+        min_x_image = min(sub_images, key=lambda x: x.get_image_space().min_x_mm)
+        min_y_image = min(sub_images, key=lambda x: x.get_image_space().min_y_mm)
 
         width_pixels = (
             max_x_image.get_image_space().max_x_pixels
-- 
2.43.0


From ce5554185beb017a5f8fefe2b00d9e473827a1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:09 +0000
Subject: [PATCH 46/65] fix: keep colors of translucent layers in composite
 view

---
 src/pygerber/gerber/api/_composite_view.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/api/_composite_view.py b/src/pygerber/gerber/api/_composite_view.py
index 0b79399..f5b0687 100644
--- a/src/pygerber/gerber/api/_composite_view.py
+++ b/src/pygerber/gerber/api/_composite_view.py
@@ -84,7 +84,7 @@ class CompositeView:
         image = Image.new("RGBA", (width_pixels, height_pixels))
 
         for sub_image in sub_images:
-            image.paste(
+            image.alpha_composite(
                 sub_image.get_image(),
                 (
                     abs(
@@ -96,7 +96,6 @@ class CompositeView:
                         - sub_image.get_image_space().max_y_pixels
                     ),
                 ),
-                mask=sub_image.get_image().getchannel("A"),
             )
 
         return CompositePillowImage(sub_images, image)
-- 
2.43.0


From 828dd10733c7adff6023ced7833957c901bc5b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:00 +0000
Subject: [PATCH 47/65] fix: notify linter rules once about every node

---
 .../gerber/linter/event_ast_visitor.py        | 34 -------------------
 1 file changed, 34 deletions(-)

diff --git a/src/pygerber/gerber/linter/event_ast_visitor.py b/src/pygerber/gerber/linter/event_ast_visitor.py
index 8b996c3..4164999 100644
--- a/src/pygerber/gerber/linter/event_ast_visitor.py
+++ b/src/pygerber/gerber/linter/event_ast_visitor.py
@@ -10,7 +10,6 @@ from pygerber.gerber.ast.nodes import Node
 if TYPE_CHECKING:
     from pygerber.gerber.ast.nodes import (
         AB,
-        AD,
         ADC,
         ADO,
         ADP,
@@ -51,11 +50,8 @@ if TYPE_CHECKING:
         OF,
         SF,
         SR,
-        TA,
         TD,
-        TF,
         TF_MD5,
-        TO,
         TO_C,
         TO_CMNP,
         TO_N,
@@ -78,14 +74,12 @@ if TYPE_CHECKING:
         Code21,
         Code22,
         Constant,
-        Coordinate,
         CoordinateI,
         CoordinateJ,
         CoordinateX,
         CoordinateY,
         Div,
         Dnn,
-        Expression,
         File,
         Invalid,
         Mul,
@@ -158,10 +152,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_ab_open(node)
 
-    def on_ad(self, node: AD) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_ad(node)
-
     def on_adc(self, node: ADC) -> ADC:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_adc(node)
@@ -206,10 +196,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_sr_open(node)
 
-    def on_ta(self, node: TA) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_ta(node)
-
     def on_ta_user_name(self, node: TA_UserName) -> TA_UserName:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_ta_user_name(node)
@@ -234,10 +220,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_td(node)
 
-    def on_tf(self, node: TF) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_tf(node)
-
     def on_tf_user_name(self, node: TF_UserName) -> TF_UserName:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_tf_user_name(node)
@@ -284,10 +266,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_tf_md5(node)
 
-    def on_to(self, node: TO) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_to(node)
-
     def on_to_user_name(self, node: TO_UserName) -> TO_UserName:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_to_user_name(node)
@@ -488,10 +466,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_constant(node)
 
-    def on_expression(self, node: Expression) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_expression(node)
-
     def on_parenthesis(self, node: Parenthesis) -> Parenthesis:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_parenthesis(node)
@@ -504,10 +478,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_variable(node)
 
-    def on_coordinate(self, node: Coordinate) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_coordinate(node)
-
     def on_coordinate_x(self, node: CoordinateX) -> CoordinateX:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_coordinate_x(node)
@@ -604,10 +574,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_file(node)
 
-    def on_end_of_file(self, node: File) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_end_of_file(node)
-
     def on_invalid(self, node: Invalid) -> Invalid:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_invalid(node)
-- 
2.43.0


From cd8146e5132f854cf2fbbebc86b126f54b8c1acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:29 +0000
Subject: [PATCH 48/65] fix: give composite views of empty files at least one
 pixel

---
 src/pygerber/gerber/api/_composite_view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/api/_composite_view.py b/src/pygerber/gerber/api/_composite_view.py
index f5b0687..8107e53 100644
--- a/src/pygerber/gerber/api/_composite_view.py
+++ b/src/pygerber/gerber/api/_composite_view.py
@@ -81,7 +81,8 @@ class CompositeView:
             - min_y_image.get_image_space().min_y_pixels
         )
 
-        image = Image.new("RGBA", (width_pixels, height_pixels))
+        # Image without pixels can not be saved, hence at least one, like empty files.
+        image = Image.new("RGBA", (max(width_pixels, 1), max(height_pixels, 1)))
 
         for sub_image in sub_images:
             image.alpha_composite(
-- 
2.43.0


From 61d3c29b14e955ad51d4d5c98227517b07dc0888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:07 +0000
Subject: [PATCH 49/65] fix: pass options of high level SVG export to
 implementation

---
 src/pygerber/gerber/api/_gerber_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/api/_gerber_file.py b/src/pygerber/gerber/api/_gerber_file.py
index d6f08d4..1554068 100644
--- a/src/pygerber/gerber/api/_gerber_file.py
+++ b/src/pygerber/gerber/api/_gerber_file.py
@@ -372,7 +372,7 @@ class ShapelyImage(Image):
     def save_svg(
         self,
         destination: str | Path | BinaryIO,
-        **kwargs: Any,  # noqa: ARG002
+        **kwargs: Any,
     ) -> None:
         """Save result to a file or buffer in SVG format.
 
@@ -386,7 +386,7 @@ class ShapelyImage(Image):
             Additional keyword arguments to pass to SVG save implementation.
 
         """
-        self._result.save_svg(destination, self._style)
+        self._result.save_svg(destination, self._style, **kwargs)
 
 
 class GerberFile:
-- 
2.43.0


From 07ed3595db50a58e7f8158b378423670c7c493b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:43 +0000
Subject: [PATCH 50/65] fix: highlight axes of signed coordinates

---
 src/pygerber/gerber/pygments.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/pygments.py b/src/pygerber/gerber/pygments.py
index 777cb84..097f544 100644
--- a/src/pygerber/gerber/pygments.py
+++ b/src/pygerber/gerber/pygments.py
@@ -40,10 +40,10 @@ if is_pygments_available():
 
         tokens: ClassVar[Dict[str, Any]] = {
             "root": [
-                (r"X(?=[0-9]+)", Keyword),
-                (r"Y(?=[0-9]+)", Keyword),
-                (r"I(?=[0-9]+)", Keyword),
-                (r"J(?=[0-9]+)", Keyword),
+                (r"X(?=[+-]?[0-9]+)", Keyword),
+                (r"Y(?=[+-]?[0-9]+)", Keyword),
+                (r"I(?=[+-]?[0-9]+)", Keyword),
+                (r"J(?=[+-]?[0-9]+)", Keyword),
                 # properties
                 (r"(?<=%)FS", Keyword),
                 (r"(?<=%FS)[LT][AI]", Keyword.Constant),
-- 
2.43.0


From 81d47c8eb4e9176d9419be405871f51448120dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:43 +0000
Subject: [PATCH 51/65] fix: allow using docs lexer outside of documentation
 build

---
 src/pygerber/gerber/pygments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/pygments.py b/src/pygerber/gerber/pygments.py
index 097f544..8ea7c85 100644
--- a/src/pygerber/gerber/pygments.py
+++ b/src/pygerber/gerber/pygments.py
@@ -181,7 +181,7 @@ if is_pygments_available():
 
         def get_tokens_unprocessed(self, text: Any) -> Any:
             """Get tokens from the text."""
-            if os.environ["MKDOCS_MODE"] == "1":
+            if os.environ.get("MKDOCS_MODE") == "1":
                 for index, token, value in super().get_tokens_unprocessed(text):
                     if token is Name and value in self.EXTRA_SYMBOLS:
                         yield index, self.EXTRA_SYMBOLS[value], value
-- 
2.43.0


From 722ee4645d8545a9caba04fbe22c2aed4f0d5f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:04 +0000
Subject: [PATCH 52/65] fix: spell name of .CLbN attribute as in specification

---
 src/pygerber/gerber/formatter/formatter.py      | 2 +-
 src/pygerber/gerber/parser/pyparsing/grammar.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 9dbd91e..b9742c6 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -840,7 +840,7 @@ class Formatter(AstVisitor):
     @_decorator_insert_base_indent
     def on_to_clbn(self, node: TO_CLbN) -> TO_CLbN:
         """Handle `TO_CLbN` node."""
-        with self._extended_command("TO.CLbn"):
+        with self._extended_command("TO.CLbN"):
             self._write(",")
             self._write(node.name)
 
diff --git a/src/pygerber/gerber/parser/pyparsing/grammar.py b/src/pygerber/gerber/parser/pyparsing/grammar.py
index 4fa2c65..ff31238 100644
--- a/src/pygerber/gerber/parser/pyparsing/grammar.py
+++ b/src/pygerber/gerber/parser/pyparsing/grammar.py
@@ -1082,11 +1082,11 @@ class Grammar:
         return (
             self._extended_command(
                 self._to
-                + pp.CaselessLiteral(".CLbn")
+                + pp.CaselessLiteral(".CLbN")
                 + self.comma
                 + self.field.set_results_name("name")
             )
-            .set_name("TO.CLbn")
+            .set_name("TO.CLbN")
             .set_parse_action(self.make_unpack_callback(TO_CLbN))
         )
 
-- 
2.43.0


From 30860d668fb898cb9fe15fddd8236d134115e17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:04 +0000
Subject: [PATCH 53/65] fix: keep indentation after nested block which adds no
 indentation

---
 src/pygerber/gerber/formatter/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index b9742c6..4788119 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -182,7 +182,7 @@ def _decrease_base_indent(
             assert isinstance(self, Formatter)
 
             indent_delta = getattr(self, variable_name)
-            if self._base_indent.endswith(indent_delta):
+            if indent_delta and self._base_indent.endswith(indent_delta):
                 self._base_indent = self._base_indent[: -len(indent_delta)]
 
             return function(*args, **kwargs)
-- 
2.43.0


From 6bfb2632ba588bbbb66c982e088d9ecb99038c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:04 +0000
Subject: [PATCH 54/65] fix: indent codes following removed G54 and G55 codes

---
 src/pygerber/gerber/formatter/formatter.py | 27 +++++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 4788119..2c44832 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -335,6 +335,7 @@ class Formatter(AstVisitor):
 
         self._output: Optional[TextIO] = None
         self._base_indent: str = ""
+        self._merged_code_removed = False
 
     def format(self, source: File, output: TextIO) -> None:
         """Format Gerber AST according to rules specified in Formatter constructor."""
@@ -344,6 +345,7 @@ class Formatter(AstVisitor):
         finally:
             self._output = None
             self._base_indent = ""
+            self._merged_code_removed = False
 
     def formats(self, source: File) -> str:
         """Format Gerber AST according to rules specified in Formatter constructor."""
@@ -359,6 +361,7 @@ class Formatter(AstVisitor):
         finally:
             self._output = None
             self._base_indent = ""
+            self._merged_code_removed = False
 
     def formats_node(self, node: Node) -> str:
         """Format single node according to rules specified in Formatter constructor."""
@@ -871,9 +874,19 @@ class Formatter(AstVisitor):
 
     # D codes
 
+    def _is_line_start(self, node: D01 | D02 | D03 | Dnn) -> bool:
+        is_line_start = (
+            node.is_standalone
+            or not self.keep_non_standalone_codes
+            # Code merged with this one is not there any more.
+            or self._merged_code_removed
+        )
+        self._merged_code_removed = False
+        return is_line_start
+
     def on_d01(self, node: D01) -> D01:
         """Handle `D01` node."""
-        if node.is_standalone or not self.keep_non_standalone_codes:
+        if self._is_line_start(node):
             self._insert_base_indent()
             self._insert_extra_indent(self.d01_indent)
 
@@ -885,7 +898,7 @@ class Formatter(AstVisitor):
 
     def on_d02(self, node: D02) -> D02:
         """Handle `D02` node."""
-        if node.is_standalone or not self.keep_non_standalone_codes:
+        if self._is_line_start(node):
             self._insert_base_indent()
             self._insert_extra_indent(self.d02_indent)
 
@@ -897,7 +910,7 @@ class Formatter(AstVisitor):
 
     def on_d03(self, node: D03) -> D03:
         """Handle `D03` node."""
-        if node.is_standalone or not self.keep_non_standalone_codes:
+        if self._is_line_start(node):
             self._insert_base_indent()
             self._insert_extra_indent(self.d03_indent)
 
@@ -909,7 +922,7 @@ class Formatter(AstVisitor):
 
     def on_dnn(self, node: Dnn) -> Dnn:
         """Handle `Dnn` node."""
-        if node.is_standalone or not self.keep_non_standalone_codes:
+        if self._is_line_start(node):
             self._insert_base_indent()
 
         with self._command(node.aperture_id):
@@ -964,19 +977,21 @@ class Formatter(AstVisitor):
         self._handle_g(node, G37)
         return node
 
-    @_decorator_insert_base_indent
     def on_g54(self, node: G54) -> G54:
         """Handle `G54` node."""
         if self.remove_g54:
+            self._merged_code_removed = not node.is_standalone
             return node
+        self._insert_base_indent()
         self._handle_g(node, G54)
         return node
 
-    @_decorator_insert_base_indent
     def on_g55(self, node: G55) -> G55:
         """Handle `G55` node."""
         if self.remove_g55:
+            self._merged_code_removed = not node.is_standalone
             return node
+        self._insert_base_indent()
         self._handle_g(node, G55)
         return node
 
-- 
2.43.0


From 07e6253efeae189cec06bbf505b2d28924a673ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:04 +0000
Subject: [PATCH 55/65] fix: find nodes nested in single compound node and
 multi-line commands

---
 src/pygerber/gerber/ast/node_finder.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pygerber/gerber/ast/node_finder.py b/src/pygerber/gerber/ast/node_finder.py
index 002c0b4..3eea8d4 100644
--- a/src/pygerber/gerber/ast/node_finder.py
+++ b/src/pygerber/gerber/ast/node_finder.py
@@ -50,10 +50,6 @@ class NodeFinder(AstVisitor):
         if len(node.nodes) == 0:
             return node
 
-        if len(node.nodes) == 1:
-            self.return_node = node.nodes[0]
-            return node
-
         self.return_node = self._bin_search(node.nodes)
 
         return node
@@ -77,7 +73,13 @@ class NodeFinder(AstVisitor):
         if len(nodes) == 1:
             self.return_node = nodes[0]
             source_info = self.return_node.source_info
-            if source_info is not None and self.location.column < source_info.column:
+            if (
+                source_info is not None
+                and self.location.column < source_info.column
+                and not isinstance(self.return_node, (AM, AB, SR))
+                and (self.location.line, self.location.column)
+                >= (source_info.end_line, source_info.end_column)
+            ):
                 self.return_node = None
                 return None
 
-- 
2.43.0


From 73ba611c8ff0183b5b282606122a8e2844073269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:04 +0000
Subject: [PATCH 56/65] fix: complete aperture codes in documents with
 incorrect commands

---
 .../gerber/ast/state_tracking_visitor.py      |  7 +++++--
 .../_server/documents/gerber.py               | 20 ++++++++++++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index 71d3c08..ed4601e 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -362,8 +362,11 @@ class ApertureStorage(_StateModel):
         """Get next free aperture code."""
         return (
             max(
-                int(aperture_id.lstrip("D"))
-                for aperture_id in chain(self.apertures.keys(), self.blocks.keys())
+                (
+                    int(aperture_id.lstrip("D"))
+                    for aperture_id in chain(self.apertures.keys(), self.blocks.keys())
+                ),
+                default=9,
             )
             + 1
         )
diff --git a/src/pygerber/gerber/language_server/_server/documents/gerber.py b/src/pygerber/gerber/language_server/_server/documents/gerber.py
index f782d09..52f355f 100644
--- a/src/pygerber/gerber/language_server/_server/documents/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/documents/gerber.py
@@ -6,8 +6,12 @@ from io import StringIO
 from typing import Optional
 
 from pygerber.gerber.ast.node_finder import NodeFinder, ZeroBasedPosition
-from pygerber.gerber.ast.nodes import File, Invalid
-from pygerber.gerber.ast.state_tracking_visitor import State, StateTrackingVisitor
+from pygerber.gerber.ast.nodes import File, Invalid, Node
+from pygerber.gerber.ast.state_tracking_visitor import (
+    ProgramStop,
+    State,
+    StateTrackingVisitor,
+)
 from pygerber.gerber.formatter import Formatter
 from pygerber.gerber.language_server._server.documents.document import Document
 from pygerber.gerber.language_server._server.hover.gerber import GerberHoverCreator
@@ -19,6 +23,16 @@ if is_language_server_available():
     from pygls.server import LanguageServer  # noqa: TC002
 
 
+class TolerantStateTrackingVisitor(StateTrackingVisitor):
+    """Visitor skipping over commands which are not correct, as they are expected to
+    show up in documents during edition.
+    """
+
+    def on_exception(self, node: Node, exception: Exception) -> bool:  # noqa: ARG002
+        """Skip incorrect command."""
+        return isinstance(exception, ProgramStop)
+
+
 def sha256(s: str) -> str:
     """Calculate SHA256 hash of the input."""
     return hashlib.sha256(s.encode("utf-8")).hexdigest()
@@ -173,7 +187,7 @@ class GerberDocument(Document):
     def get_gerber_state(self) -> Optional[State]:
         """Get the state of the document."""
         if self.state is None:
-            visitor = StateTrackingVisitor(ignore_program_stop=True)
+            visitor = TolerantStateTrackingVisitor(ignore_program_stop=True)
             if self.ast is None:
                 return None
 
-- 
2.43.0


From 437354fa6457652313b8955f3bf211825266479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:04 +0000
Subject: [PATCH 57/65] fix: hover over commands in documents with incorrect
 commands

---
 .../language_server/_server/hover/gerber.py   | 41 +++++++++++++++----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/pygerber/gerber/language_server/_server/hover/gerber.py b/src/pygerber/gerber/language_server/_server/hover/gerber.py
index 17c2ca9..5cf3c42 100644
--- a/src/pygerber/gerber/language_server/_server/hover/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/hover/gerber.py
@@ -8,6 +8,7 @@ from typing import TYPE_CHECKING, Generator, Optional, cast
 
 from pygerber.gerber import formatter
 from pygerber.gerber.ast.ast_visitor import AstVisitor
+from pygerber.gerber.ast.errors import AstError, CoordinateFormatNotSetError
 from pygerber.gerber.ast.nodes import (
     AD,
     ADC,
@@ -20,6 +21,7 @@ from pygerber.gerber.ast.nodes import (
     FS,
     G01,
     G02,
+    G03,
     G74,
     G75,
     LM,
@@ -62,7 +64,7 @@ from pygerber.gerber.ast.nodes import (
     TO_CVal,
     TO_UserName,
 )
-from pygerber.gerber.ast.nodes.enums import Mirroring, Polarity
+from pygerber.gerber.ast.nodes.enums import CoordinateNotation, Mirroring, Polarity
 from pygerber.gerber.ast.state_tracking_visitor import (
     ArcInterpolation,
     PlotMode,
@@ -109,6 +111,10 @@ class LimitedStateTrackingVisitor(StateTrackingVisitor):
 
         return node
 
+    def on_exception(self, node: Node, exception: Exception) -> bool:  # noqa: ARG002
+        """Skip incorrect commands, document may be in the middle of edition."""
+        return isinstance(exception, ProgramStop)
+
 
 class ToMarkdown(AstVisitor):
     """Convert Gerber Node to markdown."""
@@ -272,7 +278,8 @@ class GerberHoverCreator(AstVisitor):
         self.hover_markdown = StringIO()
 
         source_info = node.source_info
-        assert source_info is not None
+        if source_info is None:
+            return ""
 
         visitor = LimitedStateTrackingVisitor(source_info.location)
         self.ast.visit(visitor)
@@ -323,8 +330,15 @@ class GerberHoverCreator(AstVisitor):
         if fmt is None:
             return
 
-        x_value = fmt.unpack_x(x.value) if x else default_x
-        y_value = fmt.unpack_y(y.value) if y else default_y
+        try:
+            x_value = fmt.unpack_x(x.value) if x else default_x
+            y_value = fmt.unpack_y(y.value) if y else default_y
+        except AstError:
+            return
+
+        if fmt.coordinate_mode == CoordinateNotation.INCREMENTAL:
+            x_value += default_x if x else 0.0
+            y_value += default_y if y else 0.0
 
         self._sep()
         self._print_line(
@@ -413,8 +427,15 @@ class GerberHoverCreator(AstVisitor):
         return f'<p align="center"><img src="data:image/png;base64,{encoded_image}" alt="Embedded Image" /></p>'
 
     def _visualize_draw_op(self, extra_commands: list[Node]) -> None:
+        try:
+            self._try_visualize_draw_op(extra_commands)
+        except Exception as e:  # noqa: BLE001
+            self._print_line(f"Not available: `{type(e).__name__}`")
+
+    def _try_visualize_draw_op(self, extra_commands: list[Node]) -> None:
         nodes: list[Node] = []
-        assert self.state.coordinate_format is not None
+        if self.state.coordinate_format is None:
+            raise CoordinateFormatNotSetError(extra_commands[-1])
 
         nodes.append(
             FS(
@@ -440,13 +461,13 @@ class GerberHoverCreator(AstVisitor):
         )
         nodes.extend(self.state.apertures.macros.values())
         nodes.extend(self.state.apertures.apertures.values())
-        nodes.extend(self.state.apertures.macros.values())
+        nodes.extend(self.state.apertures.blocks.values())
 
         nodes.append(
             {
                 PlotMode.LINEAR: G01(),
                 PlotMode.ARC: G02(),
-                PlotMode.CCW_ARC: G02(),
+                PlotMode.CCW_ARC: G03(),
             }[self.state.plot_mode]
         )
         nodes.append(
@@ -470,7 +491,11 @@ class GerberHoverCreator(AstVisitor):
         bytecode = compile(File(nodes=nodes))
         temp_result = render(bytecode, dpmm=1)
 
-        dpmm = 200 / temp_result.main_box.width
+        size = max(temp_result.main_box.width, temp_result.main_box.height)
+        if size <= 0:
+            return
+
+        dpmm = 200 / size
         result = render(bytecode, dpmm=dpmm)
         assert isinstance(result, PillowResult)
 
-- 
2.43.0


From 9e61e8b03ed04d001a5edee931f42e0a62ca1511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:23 +0000
Subject: [PATCH 58/65] fix: record full length of commands containing white
 space

Length of macros, blocks and other commands split in multiple lines or containing
white space was recorded without the white space, so it ended too early.
---
 .../gerber/parser/pyparsing/grammar.py        | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/parser/pyparsing/grammar.py b/src/pygerber/gerber/parser/pyparsing/grammar.py
index ff31238..8f55245 100644
--- a/src/pygerber/gerber/parser/pyparsing/grammar.py
+++ b/src/pygerber/gerber/parser/pyparsing/grammar.py
@@ -341,7 +341,7 @@ class Grammar:
                     source_info=SourceInfo(
                         source=s,
                         location=loc,
-                        length=sum(len(t) for t in tokens.as_list()),
+                        length=self._get_end_location(s, loc, tokens) - loc,
                     ),
                     **tokens.as_dict(),
                     **kwargs,
@@ -351,6 +351,24 @@ class Grammar:
 
         return _
 
+    @staticmethod
+    def _get_end_location(s: str, loc: int, tokens: pp.ParseResults) -> int:
+        """Get location of the end of source code of tokens, including whitespace
+        between them.
+        """
+        for token in tokens.as_list():
+            if isinstance(token, Node) and token.source_info is not None:
+                loc = token.source_info.end_location
+                continue
+
+            if not s.startswith(str(token), loc):
+                while loc < len(s) and s[loc].isspace():
+                    loc += 1
+
+            loc += len(token)
+
+        return loc
+
     #  █████  ██████  ███████ ██████  ████████ ██    ██ ██████  ███████
     # ██   ██ ██   ██ ██      ██   ██    ██    ██    ██ ██   ██ ██
     # ███████ ██████  █████   ██████     ██    ██    ██ ██████  █████
-- 
2.43.0


From a5ec04736abcae1f346ba111e9f1356cd4acc7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:46 +0000
Subject: [PATCH 59/65] fix: repair geometry made invalid by shifting a pasted
 layer

---
 src/pygerber/vm/shapely/vm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 0c3ee8e..bfc0d34 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -373,6 +373,11 @@ class ShapelyVirtualMachine(VirtualMachine):
             for geom in source_layer.shape
         ]
 
+        # Rounding of shifted coordinates may turn a thin part of geometry inside out.
+        transformed_shape = [
+            geom if geom.is_valid else geom.buffer(0) for geom in transformed_shape
+        ]
+
         if command.is_negative:
             dest_layer_tree = shtree.STRtree(self.layer.shape)
             dest_idx = dest_layer_tree.query(transformed_shape).T
-- 
2.43.0


From 753b86095523e4c6250fedc15875186896ba42a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:14 +0000
Subject: [PATCH 60/65] fix: pack coordinates in formats without integer or
 without decimal digits

---
 src/pygerber/gerber/ast/state_tracking_visitor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index ed4601e..44ac058 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -201,15 +201,16 @@ class CoordinateFormat(_StateModel):
         decimal: int,
     ) -> Callable[[Double], PackedCoordinateStr]:
         def _(coordinate: Double) -> PackedCoordinateStr:
-            integer_str, decimal_str = f"{coordinate:.{decimal}f}".split(".")
+            integer_str, _, decimal_str = f"{coordinate:.{decimal}f}".partition(".")
             assert len(integer_str) > 0
-            assert len(decimal_str) > 0
 
             if integer_str[0] in ("+", "-"):
                 sign, integer_str = integer_str[0], integer_str[1:]
             else:
                 sign = ""
 
+            integer_str = integer_str.lstrip("0")
+
             if len(integer_str) > integer:
                 raise PackedCoordinateTooLongError(str(coordinate), integer, decimal)
 
@@ -225,15 +226,16 @@ class CoordinateFormat(_StateModel):
         decimal: int,
     ) -> Callable[[Double], PackedCoordinateStr]:
         def _(coordinate: Double) -> PackedCoordinateStr:
-            integer_str, decimal_str = f"{coordinate:.{decimal}f}".split(".")
+            integer_str, _, decimal_str = f"{coordinate:.{decimal}f}".partition(".")
             assert len(integer_str) > 0
-            assert len(decimal_str) > 0
 
             if integer_str[0] in ("+", "-"):
                 sign, integer_str = integer_str[0], integer_str[1:]
             else:
                 sign = ""
 
+            integer_str = integer_str.lstrip("0")
+
             if len(integer_str) > integer:
                 raise PackedCoordinateTooLongError(str(coordinate), integer, decimal)
 
-- 
2.43.0


From 71aa53652f579a74b7aa6faa9bba028d61bd9eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:36 +0000
Subject: [PATCH 61/65] fix: ignore leading zeros of aperture numbers

---
 src/pygerber/gerber/ast/nodes/types.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/nodes/types.py b/src/pygerber/gerber/ast/nodes/types.py
index 71a9acf..ebfbd18 100644
--- a/src/pygerber/gerber/ast/nodes/types.py
+++ b/src/pygerber/gerber/ast/nodes/types.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import re
 from typing import TYPE_CHECKING, Any
 
 from pydantic_core import CoreSchema, core_schema
@@ -23,7 +24,14 @@ class ApertureIdStr(str):
     def __get_pydantic_core_schema__(
         cls, source_type: Any, handler: GetCoreSchemaHandler
     ) -> CoreSchema:
-        return core_schema.no_info_after_validator_function(cls, handler(str))
+        return core_schema.no_info_after_validator_function(
+            cls._normalize, handler(str)
+        )
+
+    @classmethod
+    def _normalize(cls, value: str) -> ApertureIdStr:
+        """Remove leading zeros, they are not a part of the aperture number."""
+        return cls(re.sub(r"^D0+(?=[1-9])", "D", value))
 
 
 class PackedCoordinateStr(str):
-- 
2.43.0


From bfc7ea4c97a69ec70e0d33f6861553c10b9d652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:26 +0000
Subject: [PATCH 62/65] fix: MD5 attribute verification without a line break
 before it

---
 src/pygerber/gerber/ast/nodes/attribute/TF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/nodes/attribute/TF.py b/src/pygerber/gerber/ast/nodes/attribute/TF.py
index e16002f..eece283 100644
--- a/src/pygerber/gerber/ast/nodes/attribute/TF.py
+++ b/src/pygerber/gerber/ast/nodes/attribute/TF.py
@@ -225,7 +225,7 @@ class TF_MD5(TF):  # noqa: N801
             raise SourceNotAvailableError(self)
 
         source = (
-            self.source_info.source[: self.source_info.location - 1]
+            self.source_info.source[: self.source_info.location]
             .replace("\n", "")
             .replace("\r", "")
             .encode("utf-8")
-- 
2.43.0


From 102dbcae8e6a8f55c8308d5e54bd477d2b99d675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:59 +0000
Subject: [PATCH 63/65] fix: count language server positions in units used by
 the client

---
 .../_server/documents/gerber.py               | 52 +++++++++++++++----
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/pygerber/gerber/language_server/_server/documents/gerber.py b/src/pygerber/gerber/language_server/_server/documents/gerber.py
index 52f355f..3907335 100644
--- a/src/pygerber/gerber/language_server/_server/documents/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/documents/gerber.py
@@ -87,13 +87,10 @@ class GerberDocument(Document):
 
     async def on_hover(self, params: lspt.HoverParams) -> lspt.Hover | None:
         """Handle the hover event."""
-        position = ZeroBasedPosition(
-            line=params.position.line, column=params.position.character
-        ).to_one_based()
-
         if self.ast is None:
             return None
 
+        position = self._from_client_position(params.position).to_one_based()
         node = NodeFinder(self.ast).find_node(position)
 
         if node is None:
@@ -108,11 +105,50 @@ class GerberDocument(Document):
         return lspt.Hover(
             contents=lspt.MarkupContent(value=message, kind=lspt.MarkupKind.Markdown),
             range=lspt.Range(
-                start=lspt.Position(source_info.line - 1, source_info.column - 1),
-                end=lspt.Position(source_info.end_line - 1, source_info.end_column - 1),
+                start=self._to_client_position(
+                    source_info.line - 1, source_info.column - 1
+                ),
+                end=self._to_client_position(
+                    source_info.end_line - 1, source_info.end_column - 1
+                ),
             ),
         )
 
+    def _get_line(self, index: int) -> str:
+        """Get text of the line, empty if there is no such line."""
+        if self.ast is None or self.ast.source_info is None:
+            return ""
+        lines = self.ast.source_info.source.split("\n")
+        return lines[index] if index < len(lines) else ""
+
+    def _encode_client_units(self, text: str) -> tuple[bytes, int]:
+        """Encode text as the client does, return it with size of encoding unit."""
+        encoding = self.gls.workspace.position_encoding
+        if encoding == lspt.PositionEncodingKind.Utf8:
+            return text.encode("utf-8", "surrogatepass"), 1
+        if encoding == lspt.PositionEncodingKind.Utf32:
+            return text.encode("utf-32-le", "surrogatepass"), 4
+        return text.encode("utf-16-le", "surrogatepass"), 2
+
+    def _from_client_position(self, position: lspt.Position) -> ZeroBasedPosition:
+        """Convert position counted in encoding units to one counted in characters."""
+        column = 0
+        remaining = position.character
+        for char in self._get_line(position.line):
+            encoded, unit = self._encode_client_units(char)
+            if len(encoded) // unit > remaining:
+                break
+            remaining -= len(encoded) // unit
+            column += 1
+        else:
+            column += remaining
+        return ZeroBasedPosition(line=position.line, column=column)
+
+    def _to_client_position(self, line: int, column: int) -> lspt.Position:
+        """Convert position counted in characters to one counted in encoding units."""
+        encoded, unit = self._encode_client_units(self._get_line(line)[:column])
+        return lspt.Position(line, len(encoded) // unit)
+
     async def on_completion(
         self, params: lspt.CompletionParams
     ) -> lspt.CompletionList | None:
@@ -120,9 +156,7 @@ class GerberDocument(Document):
         if self.ast is None:
             return None
 
-        position = ZeroBasedPosition(
-            line=params.position.line, column=params.position.character
-        ).to_one_based()
+        position = self._from_client_position(params.position).to_one_based()
         node = NodeFinder(self.ast).find_node(position)
         self.gls.show_message_log(str(node))
 
-- 
2.43.0


From d6fe7b67558da0c7d89cbf6f05cfcfff5a9d9f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:22 +0000
Subject: [PATCH 64/65] fix: complete apertures defined after the end of
 program again

---
 .../gerber/language_server/_server/documents/gerber.py      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/language_server/_server/documents/gerber.py b/src/pygerber/gerber/language_server/_server/documents/gerber.py
index 3907335..e3e8a1f 100644
--- a/src/pygerber/gerber/language_server/_server/documents/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/documents/gerber.py
@@ -28,9 +28,11 @@ class TolerantStateTrackingVisitor(StateTrackingVisitor):
     show up in documents during edition.
     """
 
-    def on_exception(self, node: Node, exception: Exception) -> bool:  # noqa: ARG002
+    def on_exception(self, node: Node, exception: Exception) -> bool:
         """Skip incorrect command."""
-        return isinstance(exception, ProgramStop)
+        if isinstance(exception, ProgramStop):
+            return super().on_exception(node, exception)
+        return False
 
 
 def sha256(s: str) -> str:
-- 
2.43.0


From eba9cf0b5a85fccd8ca29df3437cef1f2d37de26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:40 +0000
Subject: [PATCH 65/65] fix: infer type of file rendered by multiple threads

Intermediate results were stored in the file, so a thread could see the type
change between its check and its use of it and raise NotImplementedError.
---
 src/pygerber/gerber/api/_gerber_file.py | 31 +++++++++++++++----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/pygerber/gerber/api/_gerber_file.py b/src/pygerber/gerber/api/_gerber_file.py
index 1554068..b5fd067 100644
--- a/src/pygerber/gerber/api/_gerber_file.py
+++ b/src/pygerber/gerber/api/_gerber_file.py
@@ -631,34 +631,41 @@ class GerberFile:
         if style is not None:
             return style
 
-        if self._file_type in (FileTypeEnum.INFER_FROM_EXTENSION, FileTypeEnum.INFER):
-            self._file_type = self._get_file_type_from_extension()
+        # File may be rendered by multiple threads, hence intermediate results are not
+        # stored in the file.
+        file_type = self._file_type
 
-        if self._file_type in (FileTypeEnum.INFER_FROM_ATTRIBUTES, FileTypeEnum.INFER):
-            self._file_type = self._get_file_type_from_attributes()
+        if file_type in (FileTypeEnum.INFER_FROM_EXTENSION, FileTypeEnum.INFER):
+            file_type = self._get_file_type_from_extension(file_type)
 
-        return self._color_map[self._file_type]
+        if file_type in (FileTypeEnum.INFER_FROM_ATTRIBUTES, FileTypeEnum.INFER):
+            file_type = self._get_file_type_from_attributes()
 
-    def _get_file_type_from_extension(self) -> FileTypeEnum:
+        self._file_type = file_type
+        return self._color_map[file_type]
+
+    def _get_file_type_from_extension(
+        self, inferred_from: FileTypeEnum
+    ) -> FileTypeEnum:
         if not isinstance(self._source_type_or_path, Path):
-            if self._file_type == FileTypeEnum.INFER_FROM_EXTENSION:
+            if inferred_from == FileTypeEnum.INFER_FROM_EXTENSION:
                 return FileTypeEnum.UNDEFINED
 
-            if self._file_type == FileTypeEnum.INFER:
+            if inferred_from == FileTypeEnum.INFER:
                 return FileTypeEnum.INFER_FROM_ATTRIBUTES
 
-            raise NotImplementedError(self._file_type)
+            raise NotImplementedError(inferred_from)
 
         file_type = FileTypeEnum.infer_from_extension(self._source_type_or_path.suffix)
 
         if file_type == FileTypeEnum.UNDEFINED:
-            if self._file_type == FileTypeEnum.INFER_FROM_EXTENSION:
+            if inferred_from == FileTypeEnum.INFER_FROM_EXTENSION:
                 return file_type
 
-            if self._file_type == FileTypeEnum.INFER:
+            if inferred_from == FileTypeEnum.INFER:
                 return FileTypeEnum.INFER_FROM_ATTRIBUTES
 
-            raise NotImplementedError(self._file_type)
+            raise NotImplementedError(inferred_from)
 
         return file_type
 
-- 
2.43.0

