From 9b7c61ad6b26b93b9d7899c575b424573d5603bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 01/17] fix: keep the text of a comment that has a blank line,
 in CRLF files

is_next_line_comment looked at the raw character behind the sigil, so a
'#' followed by CRLF was not seen as part of the comment: the comment
was split there, and the text above the blank line was dropped.
---
 fluent.syntax/fluent/syntax/stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/stream.py b/fluent.syntax/fluent/syntax/stream.py
index 0e276fc..d424530 100644
--- a/fluent.syntax/fluent/syntax/stream.py
+++ b/fluent.syntax/fluent/syntax/stream.py
@@ -206,7 +206,8 @@ class FluentParserStream(ParserStream):
             i += 1
 
         # The first char after #, ## or ###.
-        if self.peek() in (" ", EOL):
+        self.peek()
+        if self.current_peek in (" ", EOL):
             self.reset_peek()
             return True
 
-- 
2.43.0


From c8afccee74c1b30e128db5572e30924ba95cb044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 02/17] fix: accept an empty comment line at the end of the
 file

The grammar's line_end includes the end of the text, but a comment sigil
right at the end was reported as Junk.
---
 fluent.syntax/fluent/syntax/parser.py | 4 ++--
 fluent.syntax/fluent/syntax/stream.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/parser.py b/fluent.syntax/fluent/syntax/parser.py
index 5999f97..096bf6d 100644
--- a/fluent.syntax/fluent/syntax/parser.py
+++ b/fluent.syntax/fluent/syntax/parser.py
@@ -3,7 +3,7 @@ from typing import Any, Callable, List, Set, TypeVar, Union, cast
 
 from . import ast
 from .errors import ParseError
-from .stream import EOL, FluentParserStream
+from .stream import EOF, EOL, FluentParserStream
 
 R = TypeVar("R", bound=ast.SyntaxNode)
 
@@ -169,7 +169,7 @@ class FluentParser:
             if level == -1:
                 level = i
 
-            if ps.current_char != EOL:
+            if ps.current_char not in (EOL, EOF):
                 ps.expect_char(" ")
                 ch = ps.take_char(lambda x: x != EOL)
                 while ch:
diff --git a/fluent.syntax/fluent/syntax/stream.py b/fluent.syntax/fluent/syntax/stream.py
index d424530..e6dcc5e 100644
--- a/fluent.syntax/fluent/syntax/stream.py
+++ b/fluent.syntax/fluent/syntax/stream.py
@@ -207,7 +207,7 @@ class FluentParserStream(ParserStream):
 
         # The first char after #, ## or ###.
         self.peek()
-        if self.current_peek in (" ", EOL):
+        if self.current_peek in (" ", EOL, EOF):
             self.reset_peek()
             return True
 
-- 
2.43.0


From aa1ed5fbcf8f7cd83b195330a53f5f40270a9e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 03/17] fix: don't indent inside text that has other Unicode
 line breaks

The serializer used str.splitlines to indent patterns, which also splits
at VT, FF, FS, GS, RS, NEL, LS, PS and a lone CR. Those are ordinary
characters in Fluent, and the inserted spaces changed the text.
---
 fluent.syntax/fluent/syntax/serializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/serializer.py b/fluent.syntax/fluent/syntax/serializer.py
index 3659154..1be8aaf 100644
--- a/fluent.syntax/fluent/syntax/serializer.py
+++ b/fluent.syntax/fluent/syntax/serializer.py
@@ -1,10 +1,12 @@
+import re
 from typing import List, Union
 
 from . import ast
 
 
 def indent_except_first_line(content: str) -> str:
-    return "    ".join(content.splitlines(True))
+    # Only LF is a line break in a pattern; str.splitlines knows many more.
+    return re.sub(r"\n(?!\Z)", "\n    ", content)
 
 
 def includes_new_line(elem: Union[ast.TextElement, ast.Placeable]) -> bool:
-- 
2.43.0


From 8f2856a4afd858888f2b7d40cd83b72cc5fcd199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 04/17] fix: replace escapes beyond U+10FFFF by U+FFFD

A string literal with such an escape is well-formed, but reading its
value raised ValueError, out of get_message too.
---
 fluent.syntax/fluent/syntax/ast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/ast.py b/fluent.syntax/fluent/syntax/ast.py
index c47244e..2d51f90 100644
--- a/fluent.syntax/fluent/syntax/ast.py
+++ b/fluent.syntax/fluent/syntax/ast.py
@@ -217,11 +217,11 @@ class StringLiteral(Literal):
             if c:
                 return cast(str, c)
             codepoint = int(codepoint4 or codepoint6, 16)
-            if codepoint <= 0xD7FF or 0xE000 <= codepoint:
+            if codepoint <= 0xD7FF or 0xE000 <= codepoint <= 0x10FFFF:
                 return chr(codepoint)
-            # Escape sequences reresenting surrogate code points are
-            # well-formed but invalid in Fluent. Replace them with U+FFFD
-            # REPLACEMENT CHARACTER.
+            # Escape sequences reresenting surrogate code points, or values
+            # beyond Unicode, are well-formed but invalid in Fluent. Replace
+            # them with U+FFFD REPLACEMENT CHARACTER.
             return "�"
 
         value = re.sub(
-- 
2.43.0


From 17b8b46da4a05ba875d7d658184b6e00ab81c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 05/17] fix: detect cycles through patterns of a single
 placeable

Such patterns were compiled to the bare placeable, which takes part in
neither the cycle detection nor the limit on the number of parts: 'm = {m}'
ended in RecursionError, and nested calls could do unbounded work.
---
 fluent.runtime/fluent/runtime/prepare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/prepare.py b/fluent.runtime/fluent/runtime/prepare.py
index 418b33b..2c974b5 100644
--- a/fluent.runtime/fluent/runtime/prepare.py
+++ b/fluent.runtime/fluent/runtime/prepare.py
@@ -34,7 +34,7 @@ class Compiler:
     def compile_Pattern(self, _: Any, elements: List[Any], **kwargs: Any) -> Any:
         if len(elements) == 1 and isinstance(elements[0], resolver.Placeable):
             # Don't isolate isolated placeables
-            return resolver.NeverIsolatingPlaceable(elements[0].expression)
+            elements = [resolver.NeverIsolatingPlaceable(elements[0].expression)]
         if any(not isinstance(child, resolver.Literal) for child in elements):
             return resolver.Pattern(elements=elements, **kwargs)
         if len(elements) == 1:
-- 
2.43.0


From 2ab305e403757a6be4be0813a7e17146084200a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 06/17] fix: don't report errors inside a referenced pattern as
 a missing one

The handlers for missing entries also wrapped the evaluation of the
pattern, so that any LookupError or TypeError raised while formatting
it was reported as an unknown message, or as a message without value.
---
 fluent.runtime/fluent/runtime/resolver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 1961a96..b91adc9 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -236,15 +236,15 @@ def resolveEntryReference(
             pattern = entry.attributes[ref.attribute.name]
         else:
             pattern = entry.value  # type: ignore
-        return pattern(env)
     except LookupError:
         ref_id = reference_to_id(ref)
         env.errors.append(unknown_reference_error_obj(ref_id))
         return FluentNone(f"{{{ref_id}}}")
-    except TypeError:
+    if pattern is None:
         ref_id = reference_to_id(ref)
         env.errors.append(FluentReferenceError(f"No pattern: {ref_id}"))
         return FluentNone(ref_id)
+    return pattern(env)
 
 
 class MessageReference(FTL.MessageReference, BaseResolver):
-- 
2.43.0


From cc320cb84a1a282c274e800726e6242e58125d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 07/17] fix: report any error while formatting instead of
 raising it

format_pattern only caught ValueError, but options for NUMBER and DATETIME
coming from translations can also cause TypeError, LookupError and
decimal.InvalidOperation, and long reference chains RecursionError.
---
 fluent.runtime/fluent/runtime/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 6a0f254..f95776c 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -106,7 +106,7 @@ class FluentBundle:
         )
         try:
             result = pattern(env)
-        except ValueError as e:
+        except Exception as e:
             errors.append(e)
             result = "{???}"
         return (result, errors)
-- 
2.43.0


From 8febfa466ff417364cedf17b0c8dcc1c990ef22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 08/17] fix: get_message doesn't return terms

The cache of compiled entries kept terms under '-id', where
get_message('-id') found them once a message had used the term.
---
 fluent.runtime/fluent/runtime/bundle.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index f95776c..07365c3 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -43,7 +43,8 @@ class FluentBundle:
         self.use_isolating = use_isolating
         self._messages: Dict[str, Union[FTL.Message, FTL.Term]] = {}
         self._terms: Dict[str, Union[FTL.Message, FTL.Term]] = {}
-        self._compiled: Dict[str, Message] = {}
+        # Compiled entries, by (id, whether it is a term)
+        self._compiled: Dict[Tuple[str, bool], Message] = {}
         # The compiler is not typed, and this cast is only valid for the public API
         self._compiler = cast(
             Callable[[Union[FTL.Message, FTL.Term]], Message], Compiler()
@@ -77,10 +78,7 @@ class FluentBundle:
         return self._lookup(message_id)
 
     def _lookup(self, entry_id: str, term: bool = False) -> Message:
-        if term:
-            compiled_id = "-" + entry_id
-        else:
-            compiled_id = entry_id
+        compiled_id = (entry_id, term)
         try:
             return self._compiled[compiled_id]
         except LookupError:
-- 
2.43.0


From e97b015acb2748578e8a6641f0a9326b4643d430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 09/17] fix: overriding an entry takes effect after its first
 use

add_resource(allow_overrides=True) left the compiled entry in the cache.
---
 fluent.runtime/fluent/runtime/bundle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 07365c3..03680f5 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -70,6 +70,7 @@ class FluentBundle:
             full_id = item.id.name
             if full_id not in map_ or allow_overrides:
                 map_[full_id] = item
+                self._compiled.pop((full_id, map_ is self._terms), None)
 
     def has_message(self, message_id: str) -> bool:
         return message_id in self._messages
-- 
2.43.0


From f7ed45e15837a35bddd145ec8d11c7d28a200f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 10/17] fix: strings don't match number keys by plural category

match() swapped its operands for a string selector and a number key,
so that the string 'one' selected the variant [1].
---
 fluent.runtime/fluent/runtime/resolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index b91adc9..79f07a0 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -349,7 +349,8 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
                 val1_form = env.context._plural_form(val1)
             return cast(bool, val1_form == val2)
     elif is_number(val2):
-        return match(val2, val1, env)
+        # Only numbers have a plural category
+        return False
 
     return cast(bool, val1 == val2)
 
-- 
2.43.0


From e3002c6b307bc6d9d7a0bea995e9bd92ede5281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 11/17] fix: select on Decimal values like on other numbers

Decimal selectors matched no number key and no plural category.
---
 fluent.runtime/fluent/runtime/resolver.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 79f07a0..a1c3351 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -1,11 +1,12 @@
 import contextlib
+from decimal import Decimal
 from typing import TYPE_CHECKING, Any, Dict, Generator, List, Set, Union, cast
 
 import attr
 from fluent.syntax import ast as FTL
 
 from .errors import FluentCyclicReferenceError, FluentFormatError, FluentReferenceError
-from .types import FluentFloat, FluentInt, FluentNone, FluentType
+from .types import FluentFloat, FluentInt, FluentNone, FluentNumber, FluentType
 from .utils import reference_to_id, unknown_reference_error_obj
 
 if TYPE_CHECKING:
@@ -329,7 +330,7 @@ class SelectExpression(FTL.SelectExpression, BaseResolver):
 
 
 def is_number(val: Any) -> bool:
-    return isinstance(val, (int, float))
+    return isinstance(val, (int, float, Decimal))
 
 
 def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
@@ -341,7 +342,7 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
         if not is_number(val2):
             # Could be plural rule match
             if (
-                isinstance(val1, (FluentInt, FluentFloat))
+                isinstance(val1, FluentNumber)
                 and val1.options.type == "ordinal"
             ):
                 val1_form = env.context._ordinal_form(val1)
-- 
2.43.0


From 134b97d58b335566c69d8e9277e25dc02c014199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 12/17] fix: keep the fold of datetime values

The second occurrence of a repeated local time was formatted as the first.
---
 fluent.runtime/fluent/runtime/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 697a18b..11e243f 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -420,6 +420,7 @@ class FluentDateTime(FluentDateType, datetime):
             dt_obj.second,
             dt_obj.microsecond,
             tzinfo=dt_obj.tzinfo,
+            fold=dt_obj.fold,
         )
         obj._init_options(dt_obj, kwargs)
         return obj
-- 
2.43.0


From 0c1f0d75c565599bf819185f758b0546a534c901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 13/17] fix: minimumFractionDigits above the pattern's maximum
 was ignored or cut digits

---
 fluent.runtime/fluent/runtime/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 11e243f..43bd036 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -196,7 +196,7 @@ class FluentNumber(FluentType):
             if self.options.minimumFractionDigits is not None:
                 pattern.frac_prec = (
                     self.options.minimumFractionDigits,
-                    pattern.frac_prec[1],
+                    max(self.options.minimumFractionDigits, pattern.frac_prec[1]),
                 )
             if self.options.maximumFractionDigits is not None:
                 pattern.frac_prec = (
-- 
2.43.0


From 2a678e37a179dc9d79d9b942a1006b8425e11686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 14/17] fix: a Decimal selector never matched a fractional
 number key

---
 fluent.runtime/fluent/runtime/resolver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index a1c3351..1069222 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -353,6 +353,10 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
         # Only numbers have a plural category
         return False
 
+    if isinstance(val1, Decimal) and isinstance(val2, float):
+        # Compare with the number as written, not its binary approximation
+        return cast(bool, val1 == Decimal(str(val2)))
+
     return cast(bool, val1 == val2)
 
 
-- 
2.43.0


From 07233aa969bc13b344fde5f4b81c77866edd1f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 15/17] fix: a Transformer can remove a child that isn't in a
 list

Deleting the attribute while iterating over the node's attributes always
raised RuntimeError.
---
 fluent.syntax/fluent/syntax/visitor.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/visitor.py b/fluent.syntax/fluent/syntax/visitor.py
index 2f637af..ffda5bf 100644
--- a/fluent.syntax/fluent/syntax/visitor.py
+++ b/fluent.syntax/fluent/syntax/visitor.py
@@ -58,9 +58,5 @@ class Transformer(Visitor):
                 # in-place manipulation
                 propvalue[:] = new_vals
             elif isinstance(propvalue, BaseNode):
-                new_val = self.visit(propvalue)
-                if new_val is None:
-                    delattr(node, propname)
-                else:
-                    setattr(node, propname, new_val)
+                setattr(node, propname, self.visit(propvalue))
         return node
-- 
2.43.0


From 0d8663b84a1952f7a6a8a745605ca4d224e5bdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 16/17] fix: nodes of different types are not equal

BaseNode.equals compared the types of nested nodes only, so that a Comment
was equal to a GroupComment, or a StringLiteral to a NumberLiteral.
---
 fluent.syntax/fluent/syntax/ast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluent.syntax/fluent/syntax/ast.py b/fluent.syntax/fluent/syntax/ast.py
index 2d51f90..c3bd28e 100644
--- a/fluent.syntax/fluent/syntax/ast.py
+++ b/fluent.syntax/fluent/syntax/ast.py
@@ -75,6 +75,9 @@ class BaseNode:
         taken into account.
         """
 
+        if type(self) is not type(other):
+            return False
+
         self_keys = set(vars(self).keys())
         other_keys = set(vars(other).keys())
 
-- 
2.43.0


From a49a997e5c8ddfa540e17bfc353b4432c84cff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:38 +0000
Subject: [PATCH 17/17] fix: keep one compiled entry when threads ask for it at
 the same time

FluentBundle._lookup let each thread that missed the cache store its own
compiled entry, so a message got earlier was no longer the entry that
references to it find, and a cyclic reference to it was noticed one level
too late.
---
 fluent.runtime/fluent/runtime/bundle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 03680f5..ee8b532 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -85,8 +85,8 @@ class FluentBundle:
         except LookupError:
             pass
         entry = self._terms[entry_id] if term else self._messages[entry_id]
-        self._compiled[compiled_id] = self._compiler(entry)
-        return self._compiled[compiled_id]
+        # Another thread may have compiled the entry in the meantime: keep to one.
+        return self._compiled.setdefault(compiled_id, self._compiler(entry))
 
     def format_pattern(
         self, pattern: Pattern, args: Union[Dict[str, Any], None] = None
-- 
2.43.0

