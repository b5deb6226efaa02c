From 3d3bec0402a368a862d3f5c8177b271b426d2412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 01/38] fix: keep a backslash before the closing quote from
 swallowing it

A string literal ends at the first quote that is not itself escaped; an escaped
backslash before the closing quote is not an escaped quote.
---
 jsonpath/lex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 4c4422d..08c278f 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -99,8 +99,8 @@ class Lexer:
     def __init__(self, *, env: JSONPathEnvironment) -> None:
         self.env = env
 
-        self.double_quote_pattern = r'"(?P<G_DQUOTE>(?:(?!(?<!\\)").)*)"'
-        self.single_quote_pattern = r"'(?P<G_SQUOTE>(?:(?!(?<!\\)').)*)'"
+        self.double_quote_pattern = r'"(?P<G_DQUOTE>(?:[^"\\]|\\.)*)"'
+        self.single_quote_pattern = r"'(?P<G_SQUOTE>(?:[^'\\]|\\.)*)'"
 
         # .thing
         self.dot_property_pattern = rf"\.(?P<G_PROP>{self.key_pattern})"
-- 
2.43.0


From d2733a6636eefddcfe080c84b5a4c02dca5df0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 02/38] fix: don't skip the dots of a shorthand segment that
 follows blank space

---
 jsonpath/lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 08c278f..8ac825f 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -177,7 +177,7 @@ class Lexer:
             (TOKEN_BARE_PROPERTY, self.key_pattern),
             (TOKEN_LPAREN, r"\("),
             (TOKEN_RPAREN, r"\)"),
-            (TOKEN_SKIP, r"[ \n\t\r\.]+"),
+            (TOKEN_SKIP, r"[ \n\t\r]+|\."),
             (TOKEN_ILLEGAL, r"."),
         ]
 
-- 
2.43.0


From b316d313127ea0867a25b62dd36c69fe35f005bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 03/38] fix: accept names outside the basic multilingual plane
 in shorthand selectors

---
 jsonpath/lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 8ac825f..f6eb1fb 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -85,7 +85,7 @@ class Lexer:
             logical _or_ tokens. By default, `or` and `||` are equivalent.
     """
 
-    key_pattern = r"[\u0080-\uFFFFa-zA-Z_][\u0080-\uFFFFa-zA-Z0-9_-]*"
+    key_pattern = r"[\u0080-\U0010FFFFa-zA-Z_][\u0080-\U0010FFFFa-zA-Z0-9_-]*"
 
     # `not` or !
     logical_not_pattern = r"(?:not\b)|!"
-- 
2.43.0


From f647b35557f3b3035122d2f6885b713d514f8242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 04/38] fix: don't split a name after a reserved word that it
 merely starts with

A word boundary is not the end of a name: names may contain symbols and dashes.
---
 jsonpath/lex.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index f6eb1fb..fae08f1 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -87,14 +87,19 @@ class Lexer:
 
     key_pattern = r"[\u0080-\U0010FFFFa-zA-Z_][\u0080-\U0010FFFFa-zA-Z0-9_-]*"
 
+    # The end of a word that is not the start of a longer name.
+    word_end_pattern = (
+        r"(?![\u0080-\U0010FFFFa-zA-Z0-9_]|-[\u0080-\U0010FFFFa-zA-Z_])"
+    )
+
     # `not` or !
-    logical_not_pattern = r"(?:not\b)|!"
+    logical_not_pattern = rf"(?:not{word_end_pattern})|!"
 
     # && or `and`
-    logical_and_pattern = r"&&|(?:and\b)"
+    logical_and_pattern = rf"&&|(?:and{word_end_pattern})"
 
     # || or `or`
-    logical_or_pattern = r"\|\||(?:or\b)"
+    logical_or_pattern = rf"\|\||(?:or{word_end_pattern})"
 
     def __init__(self, *, env: JSONPathEnvironment) -> None:
         self.env = env
@@ -153,15 +158,15 @@ class Lexer:
             ],
             (TOKEN_WILD, r"\*"),
             (TOKEN_FILTER, r"\?"),
-            (TOKEN_IN, r"in\b"),
-            (TOKEN_TRUE, r"[Tt]rue\b"),
-            (TOKEN_FALSE, r"[Ff]alse\b"),
-            (TOKEN_NIL, r"[Nn]il\b"),
-            (TOKEN_NULL, r"[Nn]ull\b"),
-            (TOKEN_NONE, r"[Nn]one\b"),
-            (TOKEN_CONTAINS, r"contains\b"),
-            (TOKEN_UNDEFINED, r"undefined\b"),
-            (TOKEN_MISSING, r"missing\b"),
+            (TOKEN_IN, rf"in{self.word_end_pattern}"),
+            (TOKEN_TRUE, rf"[Tt]rue{self.word_end_pattern}"),
+            (TOKEN_FALSE, rf"[Ff]alse{self.word_end_pattern}"),
+            (TOKEN_NIL, rf"[Nn]il{self.word_end_pattern}"),
+            (TOKEN_NULL, rf"[Nn]ull{self.word_end_pattern}"),
+            (TOKEN_NONE, rf"[Nn]one{self.word_end_pattern}"),
+            (TOKEN_CONTAINS, rf"contains{self.word_end_pattern}"),
+            (TOKEN_UNDEFINED, rf"undefined{self.word_end_pattern}"),
+            (TOKEN_MISSING, rf"missing{self.word_end_pattern}"),
             (TOKEN_LIST_START, r"\["),
             (TOKEN_RBRACKET, r"]"),
             (TOKEN_COMMA, r","),
-- 
2.43.0


From 0efda5aa145176b3adafe8c61d3c5c49b5dbfb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 05/38] fix: don't split a name that starts with an
 environment's identifier token

---
 jsonpath/lex.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index fae08f1..c502e34 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -150,7 +150,7 @@ class Lexer:
             (TOKEN_AND, self.logical_and_pattern),
             (TOKEN_OR, self.logical_or_pattern),
             *[
-                (token, re.escape(pattern))
+                (token, self._env_token_pattern(pattern))
                 for token, pattern in sorted(
                     env_tokens, key=lambda x: len(x[1]), reverse=True
                 )
@@ -191,6 +191,14 @@ class Lexer:
             re.DOTALL,
         )
 
+    def _env_token_pattern(self, pattern: str) -> str:
+        """Return the regular expression rule for an environment's token."""
+        escaped = re.escape(pattern)
+        if re.fullmatch(self.key_pattern, pattern):
+            # Looks like a name. Don't match the start of a longer name.
+            return escaped + self.word_end_pattern
+        return escaped
+
     def tokenize(self, path: str) -> Iterator[Token]:  # noqa PLR0912
         """Generate a sequence of tokens from a JSONPath string."""
         _token = partial(Token, path=path)
-- 
2.43.0


From a195b15ed8a3d58e58d80ac4ef2d651dfe781091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 06/38] fix: don't mistake a logical operator before a
 parenthesis for a function call

---
 jsonpath/lex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index c502e34..935e256 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -119,8 +119,10 @@ class Lexer:
         # /pattern/ or /pattern/flags
         self.re_pattern = r"/(?P<G_RE>.+?)/(?P<G_RE_FLAGS>[aims]*)"
 
-        # func(
-        self.function_pattern = r"(?P<G_FUNC>[a-z][a-z_0-9]+)\(\s*"
+        # func(, but not a logical operator followed by a grouped expression.
+        self.function_pattern = (
+            r"(?P<G_FUNC>(?!(?:and|or|not)\()[a-z][a-z_0-9]+)\(\s*"
+        )
 
         self.rules = self.compile_rules()
 
-- 
2.43.0


From e9c733786b27586993beaa67150b7f99cf7e01c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 07/38] fix: raise a JSONPath error for index and slice bounds
 that aren't integers

---
 jsonpath/parse.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index eaef7fc..81809e8 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -15,6 +15,7 @@ from typing import Union
 from jsonpath.function_extensions.filter_function import ExpressionType
 from jsonpath.function_extensions.filter_function import FilterFunction
 
+from .exceptions import JSONPathIndexError
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
 from .filter import CURRENT_KEY
@@ -356,17 +357,17 @@ class Parser:
         if not start_token.value:
             start: Optional[int] = None
         else:
-            start = int(start_token.value)
+            start = self._decode_index(start_token)
 
         if not stop_token.value:
             stop: Optional[int] = None
         else:
-            stop = int(stop_token.value)
+            stop = self._decode_index(stop_token)
 
         if not step_token.value:
             step: Optional[int] = None
         else:
-            step = int(step_token.value)
+            step = self._decode_index(step_token)
 
         return SliceSelector(
             env=self.env,
@@ -403,7 +404,7 @@ class Parser:
                     IndexSelector(
                         env=self.env,
                         token=stream.current,
-                        index=int(stream.current.value),
+                        index=self._decode_index(stream.current),
                     )
                 )
             elif stream.current.kind == TOKEN_BARE_PROPERTY:
@@ -725,6 +726,17 @@ class Parser:
 
         return token.value
 
+    def _decode_index(self, token: Token) -> int:
+        try:
+            return int(token.value)
+        except ValueError:
+            if token.value.lstrip("-").isdecimal():
+                # More digits than Python is willing to convert.
+                raise JSONPathIndexError("index out of range", token=token) from None
+            raise JSONPathSyntaxError(
+                f"invalid index {token.value!r}", token=token
+            ) from None
+
     def _raise_for_non_comparable_function(
         self, expr: FilterExpression, token: Token
     ) -> None:
-- 
2.43.0


From 1537b7535fb7d76aa5196c58c8f10187b7bebf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 08/38] fix: keep the precision of integer literals, and accept
 big ones

---
 jsonpath/parse.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 81809e8..f1a569e 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import json
+import math
 import re
 from typing import TYPE_CHECKING
 from typing import Callable
@@ -527,8 +528,15 @@ class Parser:
         return StringLiteral(value=self._decode_string_literal(stream.current))
 
     def parse_integer_literal(self, stream: TokenStream) -> FilterExpression:
-        # Convert to float first to handle scientific notation.
-        return IntegerLiteral(value=int(float(stream.current.value)))
+        value = stream.current.value
+        try:
+            return IntegerLiteral(value=int(value))
+        except ValueError:
+            # Scientific notation, or more digits than Python is willing to convert.
+            float_value = float(value)
+            if math.isinf(float_value):
+                return FloatLiteral(value=float_value)
+            return IntegerLiteral(value=int(float_value))
 
     def parse_float_literal(self, stream: TokenStream) -> FilterExpression:
         return FloatLiteral(value=float(stream.current.value))
-- 
2.43.0


From 8bafd84656e80cca856aadf36d2bca9d7bca1edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:59 +0000
Subject: [PATCH 09/38] fix: raise a syntax error for regular expression
 literals that don't compile

---
 jsonpath/parse.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index f1a569e..1702f4f 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -625,13 +625,18 @@ class Parser:
         )
 
     def parse_regex(self, stream: TokenStream) -> FilterExpression:
-        pattern = stream.current.value
+        tok = stream.current
         flags = 0
         if stream.peek.kind == TOKEN_RE_FLAGS:
             stream.next_token()
             for flag in set(stream.current.value):
                 flags |= self.RE_FLAG_MAP[flag]
-        return RegexLiteral(value=re.compile(pattern, flags))
+        try:
+            return RegexLiteral(value=re.compile(tok.value, flags))
+        except (re.error, ValueError, OverflowError, RecursionError) as err:
+            raise JSONPathSyntaxError(
+                f"invalid regular expression: {err}", token=tok
+            ) from err
 
     def parse_list_literal(self, stream: TokenStream) -> FilterExpression:
         stream.next_token()
-- 
2.43.0


From 52993ad77825be09cf50074408a6354a651ef673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 10/38] fix: refuse value-typed functions and literals as tests
 anywhere in a filter

---
 jsonpath/parse.py | 60 ++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 34 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 1702f4f..99b0997 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -493,24 +493,7 @@ class Parser:
         tok = stream.next_token()
         expr = self.parse_filter_selector(stream)
 
-        if self.env.well_typed and isinstance(expr, FunctionExtension):
-            func = self.env.function_extensions.get(expr.name)
-            if (
-                func
-                and isinstance(func, FilterFunction)
-                and func.return_type == ExpressionType.VALUE
-            ):
-                raise JSONPathTypeError(
-                    f"result of {expr.name}() must be compared", token=tok
-                )
-
-        if isinstance(expr, (Literal, Nil)):
-            raise JSONPathSyntaxError(
-                "filter expression literals outside of "
-                "function expressions must be compared",
-                token=tok,
-            )
-
+        self._raise_for_uncompared_value(expr, tok)
         return Filter(env=self.env, token=tok, expression=BooleanExpression(expr))
 
     def parse_boolean(self, stream: TokenStream) -> FilterExpression:
@@ -544,10 +527,9 @@ class Parser:
     def parse_prefix_expression(self, stream: TokenStream) -> FilterExpression:
         tok = stream.next_token()
         assert tok.kind == TOKEN_NOT
-        return PrefixExpression(
-            operator="!",
-            right=self.parse_filter_selector(stream, precedence=self.PRECEDENCE_PREFIX),
-        )
+        right = self.parse_filter_selector(stream, precedence=self.PRECEDENCE_PREFIX)
+        self._raise_for_uncompared_value(right, tok)
+        return PrefixExpression(operator="!", right=right)
 
     def parse_infix_expression(
         self, stream: TokenStream, left: FilterExpression
@@ -562,18 +544,8 @@ class Parser:
             self._raise_for_non_comparable_function(right, tok)
 
         if operator not in self.INFIX_LITERAL_OPERATORS:
-            if isinstance(left, (Literal, Nil)):
-                raise JSONPathSyntaxError(
-                    "filter expression literals outside of "
-                    "function expressions must be compared",
-                    token=tok,
-                )
-            if isinstance(right, (Literal, Nil)):
-                raise JSONPathSyntaxError(
-                    "filter expression literals outside of "
-                    "function expressions must be compared",
-                    token=tok,
-                )
+            self._raise_for_uncompared_value(left, tok)
+            self._raise_for_uncompared_value(right, tok)
 
         return InfixExpression(left, operator, right)
 
@@ -750,6 +722,26 @@ class Parser:
                 f"invalid index {token.value!r}", token=token
             ) from None
 
+    def _raise_for_uncompared_value(
+        self, expr: FilterExpression, token: Token
+    ) -> None:
+        if self.env.well_typed and isinstance(expr, FunctionExtension):
+            func = self.env.function_extensions.get(expr.name)
+            if (
+                isinstance(func, FilterFunction)
+                and func.return_type == ExpressionType.VALUE
+            ):
+                raise JSONPathTypeError(
+                    f"result of {expr.name}() must be compared", token=token
+                )
+
+        if isinstance(expr, (Literal, Nil)):
+            raise JSONPathSyntaxError(
+                "filter expression literals outside of "
+                "function expressions must be compared",
+                token=token,
+            )
+
     def _raise_for_non_comparable_function(
         self, expr: FilterExpression, token: Token
     ) -> None:
-- 
2.43.0


From 18b06cad25ff03823c05c5105bb8113a9c913caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 11/38] fix: treat any pattern that doesn't compile as not
 matching in match() and search()

---
 jsonpath/function_extensions/match.py  | 2 +-
 jsonpath/function_extensions/search.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpath/function_extensions/match.py b/jsonpath/function_extensions/match.py
index 7bc8749..242000a 100644
--- a/jsonpath/function_extensions/match.py
+++ b/jsonpath/function_extensions/match.py
@@ -17,5 +17,5 @@ class Match(FilterFunction):
         try:
             # re.fullmatch caches compiled patterns internally
             return bool(re.fullmatch(pattern, string))
-        except (TypeError, re.error):
+        except (TypeError, ValueError, OverflowError, RecursionError, re.error):
             return False
diff --git a/jsonpath/function_extensions/search.py b/jsonpath/function_extensions/search.py
index ed88635..52cf45b 100644
--- a/jsonpath/function_extensions/search.py
+++ b/jsonpath/function_extensions/search.py
@@ -17,5 +17,5 @@ class Search(FilterFunction):
         try:
             # re.search caches compiled patterns internally
             return bool(re.search(pattern, string))
-        except (TypeError, re.error):
+        except (TypeError, ValueError, OverflowError, RecursionError, re.error):
             return False
-- 
2.43.0


From 44887bc967b086fa48a964be9d26af3e1fc453a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 12/38] fix: attach the token to the error for a function that
 can't be compared

---
 jsonpath/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 99b0997..174a9d9 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -755,5 +755,5 @@ class Parser:
                 and func.return_type != ExpressionType.VALUE
             ):
                 raise JSONPathTypeError(
-                    f"result of {expr.name}() is not comparable", token
+                    f"result of {expr.name}() is not comparable", token=token
                 )
-- 
2.43.0


From b3188ca50369aa637942a485c252ed3b4b4cc740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 13/38] fix: select nothing when a slice or an async wildcard
 is applied to a string

---
 jsonpath/selectors.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/jsonpath/selectors.py b/jsonpath/selectors.py
index 44007e9..29e222e 100644
--- a/jsonpath/selectors.py
+++ b/jsonpath/selectors.py
@@ -329,7 +329,11 @@ class SliceSelector(JSONPathSelector):
 
     def resolve(self, matches: Iterable[JSONPathMatch]) -> Iterable[JSONPathMatch]:
         for match in matches:
-            if not isinstance(match.obj, Sequence) or self.slice.step == 0:
+            if (
+                not isinstance(match.obj, Sequence)
+                or isinstance(match.obj, str)
+                or self.slice.step == 0
+            ):
                 continue
 
             for norm_index, obj in zip(  # noqa: B905
@@ -351,7 +355,11 @@ class SliceSelector(JSONPathSelector):
         self, matches: AsyncIterable[JSONPathMatch]
     ) -> AsyncIterable[JSONPathMatch]:
         async for match in matches:
-            if not isinstance(match.obj, Sequence) or self.slice.step == 0:
+            if (
+                not isinstance(match.obj, Sequence)
+                or isinstance(match.obj, str)
+                or self.slice.step == 0
+            ):
                 continue
 
             for norm_index, obj in zip(  # noqa: B905
@@ -423,6 +431,8 @@ class WildSelector(JSONPathSelector):
         self, matches: AsyncIterable[JSONPathMatch]
     ) -> AsyncIterable[JSONPathMatch]:
         async for match in matches:
+            if isinstance(match.obj, str):
+                continue
             if isinstance(match.obj, Mapping):
                 for key, val in match.obj.items():
                     _match = self.env.match_class(
-- 
2.43.0


From bb92b47dd49f4d1b72742c7c3850f5798f35a0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:37 +0000
Subject: [PATCH 14/38] fix: keep the query argument and filter context inside
 nested queries

A query nested in a filter lost the filter context, took its own starting value
for the query argument, parsed strings as JSON documents and tested a primitive
current node for truthiness instead of existence.
---
 jsonpath/filter.py | 58 +++++++++++++++++++---------------------------
 jsonpath/path.py   | 32 +++++++++++++++++++++----
 2 files changed, 52 insertions(+), 38 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 0f33cff..ad0ba6b 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -12,7 +12,6 @@ from typing import Callable
 from typing import Generic
 from typing import Iterable
 from typing import List
-from typing import Mapping
 from typing import Pattern
 from typing import Sequence
 from typing import TypeVar
@@ -521,6 +520,24 @@ class Path(FilterExpression, ABC):
         # self.path has its own cache
         return
 
+    def _resolve(self, context: FilterContext, obj: object) -> NodeList:
+        """Apply this path to _obj_ without changing what `$` and `_` identify."""
+        return NodeList(
+            self.path.resolve(
+                obj, root=context.root, filter_context=context.extra_context
+            )
+        )
+
+    async def _resolve_async(self, context: FilterContext, obj: object) -> NodeList:
+        return NodeList(
+            [
+                match
+                async for match in self.path.resolve_async(
+                    obj, root=context.root, filter_context=context.extra_context
+                )
+            ]
+        )
+
 
 class SelfPath(Path):
     """A JSONPath starting at the current node."""
@@ -535,30 +552,10 @@ class SelfPath(Path):
         return "@" + str(self.path)[1:]
 
     def evaluate(self, context: FilterContext) -> object:
-        if isinstance(context.current, str):  # TODO: refactor
-            if self.path.empty():
-                return context.current
-            return NodeList()
-        if not isinstance(context.current, (Sequence, Mapping)):
-            if self.path.empty():
-                return context.current
-            return NodeList()
-
-        return NodeList(self.path.finditer(context.current))
+        return self._resolve(context, context.current)
 
     async def evaluate_async(self, context: FilterContext) -> object:
-        if isinstance(context.current, str):  # TODO: refactor
-            if self.path.empty():
-                return context.current
-            return NodeList()
-        if not isinstance(context.current, (Sequence, Mapping)):
-            if self.path.empty():
-                return context.current
-            return NodeList()
-
-        return NodeList(
-            [match async for match in await self.path.finditer_async(context.current)]
-        )
+        return await self._resolve_async(context, context.current)
 
 
 class RootPath(Path):
@@ -576,12 +573,10 @@ class RootPath(Path):
         return str(self.path)
 
     def evaluate(self, context: FilterContext) -> object:
-        return NodeList(self.path.finditer(context.root))
+        return self._resolve(context, context.root)
 
     async def evaluate_async(self, context: FilterContext) -> object:
-        return NodeList(
-            [match async for match in await self.path.finditer_async(context.root)]
-        )
+        return await self._resolve_async(context, context.root)
 
 
 class FilterContextPath(Path):
@@ -600,15 +595,10 @@ class FilterContextPath(Path):
         return "_" + path_repr[1:]
 
     def evaluate(self, context: FilterContext) -> object:
-        return NodeList(self.path.finditer(context.extra_context))
+        return self._resolve(context, context.extra_context)
 
     async def evaluate_async(self, context: FilterContext) -> object:
-        return NodeList(
-            [
-                match
-                async for match in await self.path.finditer_async(context.extra_context)
-            ]
-        )
+        return await self._resolve_async(context, context.extra_context)
 
 
 class FunctionExtension(FilterExpression):
diff --git a/jsonpath/path.py b/jsonpath/path.py
index 9cf3d98..dac42a5 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -125,14 +125,28 @@ class JSONPath:
                 an incompatible way.
         """
         _data = load_data(data)
+        return self.resolve(_data, root=_data, filter_context=filter_context)
+
+    def resolve(
+        self,
+        obj: object,
+        *,
+        root: Any,
+        filter_context: Optional[FilterContextVars] = None,
+    ) -> Iterable[JSONPathMatch]:
+        """Generate `JSONPathMatch` objects by applying this path to the value _obj_.
+
+        Unlike `finditer()`, _obj_ is never loaded from a string or file, and _root_,
+        the value that `$` identifies inside filter expressions, might not be _obj_.
+        """
         matches: Iterable[JSONPathMatch] = [
             JSONPathMatch(
                 filter_context=filter_context or {},
-                obj=[_data] if self.fake_root else _data,
+                obj=[obj] if self.fake_root else obj,
                 parent=None,
                 path=self.env.root_token,
                 parts=(),
-                root=_data,
+                root=root,
             )
         ]
 
@@ -163,15 +177,25 @@ class JSONPath:
     ) -> AsyncIterable[JSONPathMatch]:
         """An async version of `finditer()`."""
         _data = load_data(data)
+        return self.resolve_async(_data, root=_data, filter_context=filter_context)
+
+    def resolve_async(
+        self,
+        obj: object,
+        *,
+        root: Any,
+        filter_context: Optional[FilterContextVars] = None,
+    ) -> AsyncIterable[JSONPathMatch]:
+        """An async version of `resolve()`."""
 
         async def root_iter() -> AsyncIterable[JSONPathMatch]:
             yield self.env.match_class(
                 filter_context=filter_context or {},
-                obj=[_data] if self.fake_root else _data,
+                obj=[obj] if self.fake_root else obj,
                 parent=None,
                 path=self.env.root_token,
                 parts=(),
-                root=_data,
+                root=root,
             )
 
         matches: AsyncIterable[JSONPathMatch] = root_iter()
-- 
2.43.0


From 85690bc07ddc363ddcdb0ecca6ce67207c9f6ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 15/38] fix: compare JSON values deeply, and never a Boolean
 with a number

Python's == identifies True with 1 inside arrays and objects, and booleans are
numbers to its ordering operators. Membership tests used the same equality, and
failed with a TypeError for strings and objects given an unsuitable operand.
---
 jsonpath/_data.py | 34 ++++++++++++++++++++++++++++++++++
 jsonpath/env.py   | 21 ++++++++++-----------
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/jsonpath/_data.py b/jsonpath/_data.py
index e923bf5..5cf0931 100644
--- a/jsonpath/_data.py
+++ b/jsonpath/_data.py
@@ -1,11 +1,45 @@
 import json
 import re
+from collections.abc import Hashable
+from collections.abc import Mapping
+from collections.abc import Sequence
 from io import IOBase
 from typing import Any
 
 _RE_PROBABLY_MALFORMED = re.compile(r"[\{\}\[\]]")
 
 
+def is_equal(left: object, right: object) -> bool:
+    """Return `True` if _left_ and _right_ are the same JSON value.
+
+    Unlike Python's `==`, a Boolean is never equal to a number, at any depth.
+    """
+    if isinstance(left, bool) or isinstance(right, bool):
+        return isinstance(left, bool) and isinstance(right, bool) and left == right
+    if isinstance(left, Mapping) and isinstance(right, Mapping):
+        return len(left) == len(right) and all(
+            key in right and is_equal(val, right[key]) for key, val in left.items()
+        )
+    if _is_array(left) and _is_array(right):
+        return len(left) == len(right) and all(map(is_equal, left, right))  # type: ignore
+    return left == right
+
+
+def contains(container: object, obj: object) -> bool:
+    """Return `True` if _obj_ is a substring, an item or a key of _container_."""
+    if isinstance(container, str):
+        return isinstance(obj, str) and obj in container
+    if isinstance(container, Mapping):
+        return isinstance(obj, Hashable) and obj in container
+    return isinstance(container, Sequence) and any(
+        is_equal(item, obj) for item in container
+    )
+
+
+def _is_array(obj: object) -> bool:
+    return isinstance(obj, Sequence) and not isinstance(obj, (str, bytes))
+
+
 def load_data(data: object) -> Any:
     if isinstance(data, str):
         try:
diff --git a/jsonpath/env.py b/jsonpath/env.py
index 8980414..2b376ef 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -19,6 +19,8 @@ from typing import Type
 from typing import Union
 
 from . import function_extensions
+from ._data import contains
+from ._data import is_equal
 from .exceptions import JSONPathNameError
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
@@ -564,10 +566,10 @@ class JSONPathEnvironment:
             return self._lt(right, left) or self._eq(left, right)
         if operator == "<=":
             return self._lt(left, right) or self._eq(left, right)
-        if operator == "in" and isinstance(right, (Mapping, Sequence)):
-            return left in right
-        if operator == "contains" and isinstance(left, (Mapping, Sequence)):
-            return right in left
+        if operator == "in":
+            return not isinstance(left, NodeList) and contains(right, left)
+        if operator == "contains":
+            return not isinstance(right, NodeList) and contains(left, right)
         if operator == "=~" and isinstance(right, re.Pattern) and isinstance(left, str):
             return bool(right.fullmatch(left))
         return False
@@ -589,18 +591,15 @@ class JSONPathEnvironment:
             return True
 
         # Remember 1 == True and 0 == False in Python
-        if isinstance(right, bool):
-            left, right = right, left
-
-        if isinstance(left, bool):
-            return isinstance(right, bool) and left == right
-
-        return left == right
+        return is_equal(left, right)
 
     def _lt(self, left: object, right: object) -> bool:
         if isinstance(left, str) and isinstance(right, str):
             return left < right
 
+        if isinstance(left, bool) or isinstance(right, bool):
+            return False
+
         if isinstance(left, (int, float, Decimal)) and isinstance(
             right, (int, float, Decimal)
         ):
-- 
2.43.0


From 9d7c8aa1e2e0bd58e2c82e08ba1b47e03f77923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:43 +0000
Subject: [PATCH 16/38] fix: implement the <> operator

---
 jsonpath/env.py   | 2 +-
 jsonpath/parse.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index 2b376ef..c12323e 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -556,7 +556,7 @@ class JSONPathEnvironment:
             return self.is_truthy(left) or self.is_truthy(right)
         if operator == "==":
             return self._eq(left, right)
-        if operator == "!=":
+        if operator in ("!=", "<>"):
             return not self._eq(left, right)
         if operator == "<":
             return self._lt(left, right)
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 174a9d9..18353b4 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -195,6 +195,7 @@ class Parser:
             "<=",
             "<",
             "!=",
+            "<>",
             "=~",
         ]
     )
-- 
2.43.0


From 1911dcd99573c5f213edeb859905fcf943160521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 17/38] fix: only treat ASCII digits as digits, so names may
 start with other digits

---
 jsonpath/lex.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 935e256..7fd2731 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -111,9 +111,9 @@ class Lexer:
         self.dot_property_pattern = rf"\.(?P<G_PROP>{self.key_pattern})"
 
         self.slice_list_pattern = (
-            r"(?P<G_LSLICE_START>\-?\d*)\s*"
-            r":\s*(?P<G_LSLICE_STOP>\-?\d*)\s*"
-            r"(?::\s*(?P<G_LSLICE_STEP>\-?\d*))?"
+            r"(?P<G_LSLICE_START>\-?[0-9]*)\s*"
+            r":\s*(?P<G_LSLICE_STOP>\-?[0-9]*)\s*"
+            r"(?::\s*(?P<G_LSLICE_STEP>\-?[0-9]*))?"
         )
 
         # /pattern/ or /pattern/flags
@@ -146,8 +146,8 @@ class Lexer:
             (TOKEN_LIST_SLICE, self.slice_list_pattern),
             (TOKEN_FUNCTION, self.function_pattern),
             (TOKEN_DOT_PROPERTY, self.dot_property_pattern),
-            (TOKEN_FLOAT, r"-?\d+\.\d*(?:[eE][+-]?\d+)?"),
-            (TOKEN_INT, r"-?\d+(?P<G_EXP>[eE][+\-]?\d+)?\b"),
+            (TOKEN_FLOAT, r"-?[0-9]+\.[0-9]*(?:[eE][+-]?[0-9]+)?"),
+            (TOKEN_INT, r"-?[0-9]+(?P<G_EXP>[eE][+\-]?[0-9]+)?\b"),
             (TOKEN_DDOT, r"\.\."),
             (TOKEN_AND, self.logical_and_pattern),
             (TOKEN_OR, self.logical_or_pattern),
-- 
2.43.0


From 45bbaa3d6aa9f0e9d0c86cf6bfe9e67dd75df17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 18/38] fix: decode pointer escape sequences without corrupting
 other characters

And raise a JSONPointerError for malformed escape sequences.
---
 jsonpath/pointer.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 3628347..05e82ca 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -38,6 +38,24 @@ class _Undefined:
 UNDEFINED = _Undefined()
 
 
+def _unicode_escape(s: str) -> str:
+    if "\\" not in s:
+        return s
+
+    try:
+        # Characters that can't be encoded become escape sequences themselves.
+        return (
+            codecs.decode(
+                s.replace("\\/", "/").encode("latin-1", "backslashreplace"),
+                "unicode-escape",
+            )
+            .encode("utf-16", "surrogatepass")
+            .decode("utf-16")
+        )
+    except UnicodeDecodeError as err:
+        raise JSONPointerError(f"invalid escape sequence: {err}") from err
+
+
 class JSONPointer:
     """Identify a single, specific value in JSON-like data, as per RFC 6901.
 
@@ -246,11 +264,7 @@ class JSONPointer:
         # UTF-16 escape sequences - possibly surrogate pairs - inside UTF-8
         # encoded strings. As per https://datatracker.ietf.org/doc/html/rfc4627
         # section 2.5.
-        return (
-            codecs.decode(s.replace("\\/", "/"), "unicode-escape")
-            .encode("utf-16", "surrogatepass")
-            .decode("utf-16")
-        )
+        return _unicode_escape(s)
 
     @classmethod
     def from_match(
@@ -296,12 +310,7 @@ class JSONPointer:
         if uri_decode:
             _parts = (unquote(p) for p in _parts)
         if unicode_escape:
-            _parts = (
-                codecs.decode(p.replace("\\/", "/"), "unicode-escape")
-                .encode("utf-16", "surrogatepass")
-                .decode("utf-16")
-                for p in _parts
-            )
+            _parts = (_unicode_escape(p) for p in _parts)
 
         __parts = tuple(_parts)
 
-- 
2.43.0


From 1b548d22fc1cf5e82e35679c7c50db6183b72167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:46 +0000
Subject: [PATCH 19/38] fix: only treat canonical decimal pointer tokens as
 array indices

---
 jsonpath/pointer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 05e82ca..b3195b8 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -37,6 +37,8 @@ class _Undefined:
 
 UNDEFINED = _Undefined()
 
+RE_INDEX = re.compile(r"0|-?[1-9][0-9]*")
+
 
 def _unicode_escape(s: str) -> str:
     if "\\" not in s:
@@ -126,8 +128,8 @@ class JSONPointer:
         )[1:]
 
     def _index(self, s: str) -> Union[str, int]:
-        # Reject non-zero ints that start with a zero.
-        if len(s) > 1 and s.startswith("0"):
+        # Reject anything that is not the canonical decimal form of an integer.
+        if not RE_INDEX.fullmatch(s):
             return s
 
         try:
-- 
2.43.0


From de93b840b12f5333d9f4f1e52e5b299789e7b27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:20 +0000
Subject: [PATCH 20/38] fix: don't resolve pointer tokens to characters of a
 string

---
 jsonpath/pointer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index b3195b8..ff20ca1 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -141,6 +141,9 @@ class JSONPointer:
             return s
 
     def _getitem(self, obj: Any, key: Any) -> Any:  # noqa: PLR0912
+        if isinstance(obj, str):
+            raise JSONPointerTypeError(f"{key}: can't index into a string")
+
         try:
             return getitem(obj, key)
         except KeyError as err:
-- 
2.43.0


From 529e70c47681fc4502120a34beabaa3df8fd13d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 21/38] fix: raise a pointer type error for index pointers that
 aren't indices

---
 jsonpath/pointer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index ff20ca1..6fdecc1 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -171,7 +171,9 @@ class JSONPointer:
                     raise JSONPointerIndexError("index out of range") from None
                 # Handle non-standard index pointer.
                 if isinstance(key, str) and key.startswith("#"):
-                    _index = int(key[1:])
+                    _index = self._index(key[1:])
+                    if not isinstance(_index, int):
+                        raise JSONPointerTypeError(f"{key}: {err}") from err
                     if _index >= len(obj):
                         raise JSONPointerIndexError(
                             f"index out of range: {_index}"
-- 
2.43.0


From 64c2890b1a7d8c95d2911dbacb9425e0ac8b824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 22/38] fix: compare pointers by their reference tokens,
 however they were built

---
 jsonpath/pointer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 6fdecc1..50b538e 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -337,14 +337,17 @@ class JSONPointer:
         """Return _True_ if this pointer points to a child of _other_."""
         return (
             len(other.parts) < len(self.parts)
-            and self.parts[: len(other.parts)] == other.parts
+            and self._tokens()[: len(other.parts)] == other._tokens()
         )
 
+    def _tokens(self) -> Tuple[str, ...]:
+        return tuple(str(p) for p in self.parts)
+
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, JSONPointer) and self.parts == other.parts
+        return isinstance(other, JSONPointer) and self._tokens() == other._tokens()
 
     def __hash__(self) -> int:
-        return hash(self.parts)
+        return hash(self._tokens())
 
     def __repr__(self) -> str:
         return f"JSONPointer({self._s!r})"
-- 
2.43.0


From e7f811a57bff043acd5b4655c794a6fbc8842fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 23/38] fix: accept relative pointer index offsets of more than
 one digit

---
 jsonpath/pointer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 50b538e..b062d52 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -465,7 +465,7 @@ class JSONPointer:
 
 
 RE_RELATIVE_POINTER = re.compile(
-    r"(?P<ORIGIN>\d+)(?P<INDEX_G>(?P<SIGN>[+\-])(?P<INDEX>\d))?(?P<POINTER>.*)",
+    r"(?P<ORIGIN>[0-9]+)(?P<INDEX_G>(?P<SIGN>[+\-])(?P<INDEX>[0-9]+))?(?P<POINTER>.*)",
     re.DOTALL,
 )
 
-- 
2.43.0


From dce4ad5db7ab1d32905b75a3cac2095bd4e15307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 24/38] fix: keep trailing blank space of a relative pointer's
 last token

---
 jsonpath/pointer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index b062d52..c491ce6 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -530,7 +530,7 @@ class RelativeJSONPointer:
             index = 0
 
         # Pointer or '#'. Empty string is OK.
-        _pointer = match.group("POINTER").strip()
+        _pointer = match.group("POINTER")
         pointer = (
             JSONPointer(
                 _pointer,
-- 
2.43.0


From d9f0d8046ba173ce8905d62321ef40ddd60bd194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:45 +0000
Subject: [PATCH 25/38] fix: raise a relative pointer error for the key of the
 root

---
 jsonpath/pointer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index c491ce6..aeac6eb 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -611,6 +611,8 @@ class RelativeJSONPointer:
             parts.extend(self.pointer.parts)
         else:
             assert self.pointer == "#"
+            if not parts:
+                raise RelativeJSONPointerIndexError("the root has no index or key")
             parts[-1] = f"#{parts[-1]}"
 
         return JSONPointer.from_parts(
-- 
2.43.0


From bb7139b9dfc18f9e4a5aa18db9df674674c555b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 26/38] fix: don't decode the tokens of a relative pointer's
 result a second time

---
 jsonpath/pointer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index aeac6eb..2b7da84 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -615,9 +615,8 @@ class RelativeJSONPointer:
                 raise RelativeJSONPointerIndexError("the root has no index or key")
             parts[-1] = f"#{parts[-1]}"
 
-        return JSONPointer.from_parts(
-            parts, unicode_escape=unicode_escape, uri_decode=uri_decode
-        )
+        # Parts have already been decoded.
+        return JSONPointer.from_parts(parts, unicode_escape=False, uri_decode=False)
 
 
 def resolve(
-- 
2.43.0


From 22ed8343f5b1d6b77df1126863f8253c1a3bff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 27/38] fix: refuse a relative index offset for a token that is
 not an array index

---
 jsonpath/pointer.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 2b7da84..33863d5 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -555,13 +555,7 @@ class RelativeJSONPointer:
             ) from err
 
     def _int_like(self, obj: Any) -> bool:
-        if isinstance(obj, int):
-            return True
-        try:
-            int(obj)
-        except ValueError:
-            return False
-        return True
+        return isinstance(obj, int) or bool(RE_INDEX.fullmatch(obj))
 
     def to(
         self,
@@ -598,7 +592,11 @@ class RelativeJSONPointer:
             parts = list(_pointer.parts[: -self.origin])
 
         # Array index offset
-        if self.index and parts and self._int_like(parts[-1]):
+        if self.index:
+            if not parts or not self._int_like(parts[-1]):
+                raise RelativeJSONPointerIndexError(
+                    "index offset for something that is not an array index"
+                )
             new_index = int(parts[-1]) + self.index
             if new_index < 0:
                 raise RelativeJSONPointerIndexError(
-- 
2.43.0


From 542c1f28f6077e4e711dfa9f8ecab38ba90ef4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:23 +0000
Subject: [PATCH 28/38] fix: raise a relative pointer error for indices with
 too many digits to convert

---
 jsonpath/pointer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 33863d5..f5e59e9 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -597,12 +597,15 @@ class RelativeJSONPointer:
                 raise RelativeJSONPointerIndexError(
                     "index offset for something that is not an array index"
                 )
-            new_index = int(parts[-1]) + self.index
-            if new_index < 0:
-                raise RelativeJSONPointerIndexError(
-                    f"index offset out of range {new_index}"
-                )
-            parts[-1] = int(parts[-1]) + self.index
+            try:
+                new_index = int(parts[-1]) + self.index
+                if new_index < 0:
+                    raise RelativeJSONPointerIndexError(
+                        f"index offset out of range {new_index}"
+                    )
+                parts[-1] = str(new_index)
+            except ValueError as err:  # Too many digits.
+                raise RelativeJSONPointerIndexError("index out of range") from err
 
         # Pointer or index/property
         if isinstance(self.pointer, JSONPointer):
-- 
2.43.0


From 23f9c199cb1fe29bfab3f198ae4e082be19c91a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 29/38] fix: apply patch operations at exactly the locations
 RFC 6901 and RFC 6902 define

Insert at an index equal to the array's length, and at '-' when moving and
copying. Never clamp an index, count from the end of an array or use an
integer as a member name.
---
 jsonpath/patch.py | 194 +++++++++++++++++++++++-----------------------
 1 file changed, 95 insertions(+), 99 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index ce5c054..1a072a4 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -7,12 +7,15 @@ import json
 from abc import ABC
 from abc import abstractmethod
 from io import IOBase
+from typing import Any
 from typing import Dict
 from typing import Iterable
 from typing import List
 from typing import Mapping
 from typing import MutableMapping
 from typing import MutableSequence
+from typing import Sequence
+from typing import Tuple
 from typing import TypeVar
 from typing import Union
 
@@ -23,10 +26,75 @@ from jsonpath.exceptions import JSONPointerError
 from jsonpath.exceptions import JSONPointerIndexError
 from jsonpath.exceptions import JSONPointerKeyError
 from jsonpath.exceptions import JSONPointerTypeError
+from jsonpath.pointer import RE_INDEX
 from jsonpath.pointer import UNDEFINED
 from jsonpath.pointer import JSONPointer
 
 
+def _locate(
+    pointer: JSONPointer,
+    data: object,
+) -> Tuple[object, Union[int, str, None], object]:
+    """Return the parent, final key or index and value that _pointer_ points to.
+
+    Unlike `JSONPointer.resolve_parent`, this follows RFC 6901 strictly. There are
+    no negative indices and no key or index pointers, and `-` is an index equal to
+    the length of the array. The value is `UNDEFINED` if there's nothing there, and
+    the parent is `None` if _pointer_ points to the document root.
+    """
+    parent: object = None
+    key: Union[int, str, None] = None
+    obj = data
+
+    for part in pointer.parts:
+        token = str(part)
+        if obj is UNDEFINED:
+            if isinstance(parent, Sequence):
+                raise JSONPointerIndexError(f"index out of range: {key}")
+            raise JSONPointerKeyError(key)
+        parent = obj
+        if isinstance(parent, Mapping):
+            key = token
+            obj = parent[key] if key in parent else UNDEFINED
+        elif isinstance(parent, Sequence) and not isinstance(parent, str):
+            if token == "-":
+                key = len(parent)
+            elif RE_INDEX.fullmatch(token) and not token.startswith("-"):
+                try:
+                    key = int(token)
+                except ValueError as err:  # Too many digits
+                    raise JSONPointerIndexError("index out of range") from err
+            else:
+                raise JSONPointerTypeError(f"{token}: not an array index")
+            obj = parent[key] if key < len(parent) else UNDEFINED
+        else:
+            raise JSONPointerTypeError(
+                f"{token}: unexpected {parent.__class__.__name__!r}"
+            )
+
+    return parent, key, obj
+
+
+def _add(
+    data: object, parent: object, key: Union[int, str, None], value: object
+) -> Any:
+    """Add _value_ to _parent_, and return the resulting document."""
+    if parent is None:
+        # Replace the root object.
+        # The following op, if any, will raise a JSONPatchError if needed.
+        return value
+
+    if isinstance(parent, MutableSequence):
+        if key > len(parent):  # type: ignore
+            raise JSONPatchError("index out of range")
+        parent.insert(key, value)  # type: ignore
+    elif isinstance(parent, MutableMapping):
+        parent[key] = value
+    else:
+        raise JSONPatchError(f"unexpected operation on {parent.__class__.__name__!r}")
+    return data
+
+
 class Op(ABC):
     """One of the JSON Patch operations."""
 
@@ -58,28 +126,8 @@ class OpAdd(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
-        if parent is None:
-            # Replace the root object.
-            # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
-
-        target = self.path.parts[-1]
-        if isinstance(parent, MutableSequence):
-            if obj is UNDEFINED:
-                if target == "-":
-                    parent.append(self.value)
-                else:
-                    raise JSONPatchError("index out of range")
-            else:
-                parent.insert(int(target), self.value)
-        elif isinstance(parent, MutableMapping):
-            parent[target] = self.value
-        else:
-            raise JSONPatchError(
-                f"unexpected operation on {parent.__class__.__name__!r}"
-            )
-        return data
+        parent, key, _ = _locate(self.path, data)
+        return _add(data, parent, key, self.value)
 
     def asdict(self) -> Dict[str, object]:
         """Return a dictionary representation of this operation."""
@@ -103,21 +151,10 @@ class OpAddNe(OpAdd):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
-        if parent is None:
-            # Replace the root object.
-            # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
-
-        target = self.path.parts[-1]
-        if isinstance(parent, MutableSequence):
-            if obj is UNDEFINED:
-                parent.append(self.value)
-            else:
-                parent.insert(int(target), self.value)
-        elif isinstance(parent, MutableMapping) and target not in parent:
-            parent[target] = self.value
-        return data
+        parent, key, obj = _locate(self.path, data)
+        if isinstance(parent, MutableMapping) and obj is not UNDEFINED:
+            return data
+        return _add(data, parent, key, self.value)
 
 
 class OpAddAp(OpAdd):
@@ -137,25 +174,10 @@ class OpAddAp(OpAdd):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
-        if parent is None:
-            # Replace the root object.
-            # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
-
-        target = self.path.parts[-1]
-        if isinstance(parent, MutableSequence):
-            if obj is UNDEFINED:
-                parent.append(self.value)
-            else:
-                parent.insert(int(target), self.value)
-        elif isinstance(parent, MutableMapping):
-            parent[target] = self.value
-        else:
-            raise JSONPatchError(
-                f"unexpected operation on {parent.__class__.__name__!r}"
-            )
-        return data
+        parent, key, obj = _locate(self.path, data)
+        if isinstance(parent, MutableSequence) and obj is UNDEFINED:
+            key = len(parent)
+        return _add(data, parent, key, self.value)
 
 
 class OpRemove(Op):
@@ -172,18 +194,18 @@ class OpRemove(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, key, obj = _locate(self.path, data)
         if parent is None:
             raise JSONPatchError("can't remove root")
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't remove nonexistent item")
-            del parent[int(self.path.parts[-1])]
+            del parent[key]  # type: ignore
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't remove nonexistent property")
-            del parent[self.path.parts[-1]]
+            del parent[key]  # type: ignore
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -210,18 +232,18 @@ class OpReplace(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, key, obj = _locate(self.path, data)
         if parent is None:
             return self.value  # type: ignore
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent item")
-            parent[int(self.path.parts[-1])] = self.value
+            parent[key] = self.value  # type: ignore
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent property")
-            parent[self.path.parts[-1]] = self.value
+            parent[key] = self.value  # type: ignore
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -251,32 +273,20 @@ class OpMove(Op):
         if self.dest.is_relative_to(self.source):
             raise JSONPatchError("can't move object to one of its own children")
 
-        source_parent, source_obj = self.source.resolve_parent(data)
+        source_parent, source_key, source_obj = _locate(self.source, data)
 
         if source_obj is UNDEFINED:
             raise JSONPatchError("source object does not exist")
 
-        if isinstance(source_parent, MutableSequence):
-            del source_parent[int(self.source.parts[-1])]
-        if isinstance(source_parent, MutableMapping):
-            del source_parent[self.source.parts[-1]]
-
-        dest_parent, _ = self.dest.resolve_parent(data)
-
-        if dest_parent is None:
-            # Move source to root
-            return source_obj  # type: ignore
-
-        if isinstance(dest_parent, MutableSequence):
-            dest_parent.insert(int(self.dest.parts[-1]), source_obj)
-        elif isinstance(dest_parent, MutableMapping):
-            dest_parent[self.dest.parts[-1]] = source_obj
-        else:
+        if isinstance(source_parent, (MutableSequence, MutableMapping)):
+            del source_parent[source_key]  # type: ignore
+        elif source_parent is not None:
             raise JSONPatchError(
-                f"unexpected operation on {dest_parent.__class__.__name__!r}"
+                f"unexpected operation on {source_parent.__class__.__name__!r}"
             )
 
-        return data
+        dest_parent, dest_key, _ = _locate(self.dest, data)
+        return _add(data, dest_parent, dest_key, source_obj)
 
     def asdict(self) -> Dict[str, object]:
         """Return a dictionary representation of this operation."""
@@ -298,27 +308,13 @@ class OpCopy(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        source_parent, source_obj = self.source.resolve_parent(data)
+        _, _, source_obj = _locate(self.source, data)
 
         if source_obj is UNDEFINED:
             raise JSONPatchError("source object does not exist")
 
-        dest_parent, dest_obj = self.dest.resolve_parent(data)
-
-        if dest_parent is None:
-            # Copy source to root
-            return copy.deepcopy(source_obj)  # type: ignore
-
-        if isinstance(dest_parent, MutableSequence):
-            dest_parent.insert(int(self.dest.parts[-1]), copy.deepcopy(source_obj))
-        elif isinstance(dest_parent, MutableMapping):
-            dest_parent[self.dest.parts[-1]] = copy.deepcopy(source_obj)
-        else:
-            raise JSONPatchError(
-                f"unexpected operation on {dest_parent.__class__.__name__!r}"
-            )
-
-        return data
+        dest_parent, dest_key, _ = _locate(self.dest, data)
+        return _add(data, dest_parent, dest_key, copy.deepcopy(source_obj))
 
     def asdict(self) -> Dict[str, object]:
         """Return a dictionary representation of this operation."""
@@ -340,7 +336,7 @@ class OpTest(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        _, obj = self.path.resolve_parent(data)
+        _, _, obj = _locate(self.path, data)
         if not obj == self.value:
             raise JSONPatchTestFailure
         return data
-- 
2.43.0


From 30054e116e6177ed55509689c4b2d772fcaf826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 30/38] fix: compare JSON values deeply in patch test
 operations

---
 jsonpath/patch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 1a072a4..f1a46e9 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -19,6 +19,7 @@ from typing import Tuple
 from typing import TypeVar
 from typing import Union
 
+from jsonpath._data import is_equal
 from jsonpath._data import load_data
 from jsonpath.exceptions import JSONPatchError
 from jsonpath.exceptions import JSONPatchTestFailure
@@ -337,7 +338,7 @@ class OpTest(Op):
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
         _, _, obj = _locate(self.path, data)
-        if not obj == self.value:
+        if obj is UNDEFINED or not is_equal(obj, self.value):
             raise JSONPatchTestFailure
         return data
 
-- 
2.43.0


From f3ad785aba50ae3b5e62dd52f913ef8c4a25a412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:53 +0000
Subject: [PATCH 31/38] fix: copy a patch operation's value when applying it,
 so later operations can't change it

---
 jsonpath/patch.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index f1a46e9..52cc2d3 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -128,7 +128,7 @@ class OpAdd(Op):
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
         parent, key, _ = _locate(self.path, data)
-        return _add(data, parent, key, self.value)
+        return _add(data, parent, key, copy.deepcopy(self.value))
 
     def asdict(self) -> Dict[str, object]:
         """Return a dictionary representation of this operation."""
@@ -155,7 +155,7 @@ class OpAddNe(OpAdd):
         parent, key, obj = _locate(self.path, data)
         if isinstance(parent, MutableMapping) and obj is not UNDEFINED:
             return data
-        return _add(data, parent, key, self.value)
+        return _add(data, parent, key, copy.deepcopy(self.value))
 
 
 class OpAddAp(OpAdd):
@@ -178,7 +178,7 @@ class OpAddAp(OpAdd):
         parent, key, obj = _locate(self.path, data)
         if isinstance(parent, MutableSequence) and obj is UNDEFINED:
             key = len(parent)
-        return _add(data, parent, key, self.value)
+        return _add(data, parent, key, copy.deepcopy(self.value))
 
 
 class OpRemove(Op):
@@ -235,16 +235,16 @@ class OpReplace(Op):
         """Apply this patch operation to _data_."""
         parent, key, obj = _locate(self.path, data)
         if parent is None:
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent item")
-            parent[key] = self.value  # type: ignore
+            parent[key] = copy.deepcopy(self.value)  # type: ignore
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent property")
-            parent[key] = self.value  # type: ignore
+            parent[key] = copy.deepcopy(self.value)  # type: ignore
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
-- 
2.43.0


From a0ece16c7a7045446913787f4a746a93164005c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 32/38] fix: load addap operations as addap, not addne

---
 jsonpath/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 52cc2d3..05cdbe5 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -416,7 +416,7 @@ class JSONPatch:
                     value=self._op_value(operation, "value", "addne", i),
                 )
             elif op == "addap":
-                self.addne(
+                self.addap(
                     path=self._op_pointer(operation, "path", "addap", i),
                     value=self._op_value(operation, "value", "addap", i),
                 )
-- 
2.43.0


From ad82d41e9372e7a93330b9cdbbab7c3ff9637296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:02 +0000
Subject: [PATCH 33/38] fix: raise a patch error for malformed pointers given
 to patch builder methods

---
 jsonpath/patch.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 05cdbe5..9ffd7b9 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -480,11 +480,14 @@ class JSONPatch:
 
     def _ensure_pointer(self, path: Union[str, JSONPointer]) -> JSONPointer:
         if isinstance(path, str):
-            return JSONPointer(
-                path,
-                unicode_escape=self.unicode_escape,
-                uri_decode=self.uri_decode,
-            )
+            try:
+                return JSONPointer(
+                    path,
+                    unicode_escape=self.unicode_escape,
+                    uri_decode=self.uri_decode,
+                )
+            except JSONPointerError as err:
+                raise JSONPatchError(str(err)) from err
         assert isinstance(path, JSONPointer)
         return path
 
-- 
2.43.0


From 21ea61191a937bd4f2d890a83ae5a81e2de2c0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:02 +0000
Subject: [PATCH 34/38] fix: restrict intersections to equal JSON values, at
 every step and through every entry point

---
 jsonpath/path.py | 100 +++++++++++++++++++++++++++++++----------------
 1 file changed, 67 insertions(+), 33 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index dac42a5..0137ab4 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -14,6 +14,7 @@ from typing import Tuple
 from typing import TypeVar
 from typing import Union
 
+from jsonpath._data import contains
 from jsonpath._data import load_data
 from jsonpath.fluent_api import Query
 from jsonpath.match import FilterContextVars
@@ -337,17 +338,9 @@ class CompoundJSONPath:
             JSONPathTypeError: If a filter expression attempts to use types in
                 an incompatible way.
         """
-        objs = self.path.findall(data, filter_context=filter_context)
-
-        for op, path in self.paths:
-            _objs = path.findall(data, filter_context=filter_context)
-            if op == self.env.union_token:
-                objs.extend(_objs)
-            else:
-                assert op == self.env.intersection_token, op
-                objs = [obj for obj in objs if obj in _objs]
-
-        return objs
+        return [
+            match.obj for match in self.finditer(data, filter_context=filter_context)
+        ]
 
     def finditer(
         self,
@@ -374,16 +367,29 @@ class CompoundJSONPath:
             JSONPathTypeError: If a filter expression attempts to use types in
                 an incompatible way.
         """
-        matches = self.path.finditer(data, filter_context=filter_context)
+        _data = load_data(data)
+        return self.resolve(_data, root=_data, filter_context=filter_context)
+
+    def resolve(
+        self,
+        obj: object,
+        *,
+        root: Any,
+        filter_context: Optional[FilterContextVars] = None,
+    ) -> Iterable[JSONPathMatch]:
+        """Generate `JSONPathMatch` objects by applying this path to the value _obj_.
+
+        Unlike `finditer()`, _obj_ is never loaded from a string or file.
+        """
+        matches = self.path.resolve(obj, root=root, filter_context=filter_context)
 
         for op, path in self.paths:
-            _matches = path.finditer(data, filter_context=filter_context)
+            _matches = path.resolve(obj, root=root, filter_context=filter_context)
             if op == self.env.union_token:
                 matches = itertools.chain(matches, _matches)
             else:
-                assert op == self.env.intersection_token
-                _objs = [match.obj for match in _matches]
-                matches = (match for match in matches if match.obj in _objs)
+                assert op == self.env.intersection_token, op
+                matches = _intersection(matches, [match.obj for match in _matches])
 
         return matches
 
@@ -424,17 +430,12 @@ class CompoundJSONPath:
         filter_context: Optional[FilterContextVars] = None,
     ) -> List[object]:
         """An async version of `findall()`."""
-        objs = await self.path.findall_async(data, filter_context=filter_context)
-
-        for op, path in self.paths:
-            _objs = await path.findall_async(data, filter_context=filter_context)
-            if op == self.env.union_token:
-                objs.extend(_objs)
-            else:
-                assert op == self.env.intersection_token
-                objs = [obj for obj in objs if obj in _objs]
-
-        return objs
+        return [
+            match.obj
+            async for match in await self.finditer_async(
+                data, filter_context=filter_context
+            )
+        ]
 
     async def finditer_async(
         self,
@@ -443,18 +444,35 @@ class CompoundJSONPath:
         filter_context: Optional[FilterContextVars] = None,
     ) -> AsyncIterable[JSONPathMatch]:
         """An async version of `finditer()`."""
-        matches = await self.path.finditer_async(data, filter_context=filter_context)
+        _data = load_data(data)
+        return self.resolve_async(_data, root=_data, filter_context=filter_context)
+
+    async def resolve_async(
+        self,
+        obj: object,
+        *,
+        root: Any,
+        filter_context: Optional[FilterContextVars] = None,
+    ) -> AsyncIterable[JSONPathMatch]:
+        """An async version of `resolve()`."""
+        matches = self.path.resolve_async(
+            obj, root=root, filter_context=filter_context
+        )
 
         for op, path in self.paths:
-            _matches = await path.finditer_async(data, filter_context=filter_context)
+            _matches = path.resolve_async(
+                obj, root=root, filter_context=filter_context
+            )
             if op == self.env.union_token:
                 matches = _achain(matches, _matches)
             else:
-                assert op == self.env.intersection_token
-                _objs = [match.obj async for match in _matches]
-                matches = (match async for match in matches if match.obj in _objs)
+                assert op == self.env.intersection_token, op
+                matches = _aintersection(
+                    matches, [match.obj async for match in _matches]
+                )
 
-        return matches
+        async for match in matches:
+            yield match
 
     def query(
         self,
@@ -504,3 +522,19 @@ async def _achain(*iterables: AsyncIterable[T]) -> AsyncIterable[T]:
     for it in iterables:
         async for element in it:
             yield element
+
+
+def _intersection(
+    matches: Iterable[JSONPathMatch], objs: List[object]
+) -> Iterable[JSONPathMatch]:
+    for match in matches:
+        if contains(objs, match.obj):
+            yield match
+
+
+async def _aintersection(
+    matches: AsyncIterable[JSONPathMatch], objs: List[object]
+) -> AsyncIterable[JSONPathMatch]:
+    async for match in matches:
+        if contains(objs, match.obj):
+            yield match
-- 
2.43.0


From f277fda29fb2165a11701114432324bdb424ef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 35/38] fix: print compiled queries with their own identifiers,
 grouping and float literals

---
 jsonpath/filter.py | 33 +++++++++++++++++++++++++++------
 jsonpath/parse.py  |  4 ++--
 jsonpath/path.py   | 11 +++++++++--
 3 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index ad0ba6b..d523b0c 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import copy
+import math
 import re
 from abc import ABC
 from abc import abstractmethod
@@ -221,6 +222,13 @@ class FloatLiteral(Literal[float]):
 
     __slots__ = ()
 
+    def __str__(self) -> str:
+        if math.isinf(self.value):
+            # There is no literal for infinity. This is too big for a float.
+            return "1e999" if self.value > 0 else "-1e999"
+        # Without a fractional part, a big float would read as an integer.
+        return re.sub(r"^(-?[0-9]+)e\+", r"\1.0e+", repr(self.value))
+
 
 class RegexLiteral(Literal[Pattern[str]]):
     """A regex literal."""
@@ -377,6 +385,8 @@ class InfixExpression(FilterExpression):
 PRECEDENCE_LOWEST = 1
 PRECEDENCE_LOGICAL_OR = 3
 PRECEDENCE_LOGICAL_AND = 4
+PRECEDENCE_RELATIONAL = 5
+PRECEDENCE_MEMBERSHIP = 6
 PRECEDENCE_PREFIX = 7
 
 
@@ -440,6 +450,17 @@ class BooleanExpression(FilterExpression):
                     f"({expr})" if parent_precedence >= PRECEDENCE_LOGICAL_OR else expr
                 )
 
+            # Comparison and membership operators are right associative.
+            precedence = (
+                PRECEDENCE_MEMBERSHIP
+                if expression.operator in ("in", "contains")
+                else PRECEDENCE_RELATIONAL
+            )
+            left = self._canonical_string(expression.left, precedence)
+            right = self._canonical_string(expression.right, precedence - 1)
+            expr = f"{left} {expression.operator} {right}"
+            return f"({expr})" if parent_precedence >= precedence else expr
+
         if isinstance(expression, PrefixExpression):
             operand = self._canonical_string(expression.right, PRECEDENCE_PREFIX)
             expr = f"!{operand}"
@@ -549,7 +570,7 @@ class SelfPath(Path):
         self.volatile = True
 
     def __str__(self) -> str:
-        return "@" + str(self.path)[1:]
+        return self.path.env.self_token + self.path.selectors_string()
 
     def evaluate(self, context: FilterContext) -> object:
         return self._resolve(context, context.current)
@@ -591,8 +612,7 @@ class FilterContextPath(Path):
         self.volatile = False
 
     def __str__(self) -> str:
-        path_repr = str(self.path)
-        return "_" + path_repr[1:]
+        return self.path.env.filter_context_token + self.path.selectors_string()
 
     def evaluate(self, context: FilterContext) -> object:
         return self._resolve(context, context.extra_context)
@@ -684,14 +704,15 @@ class FunctionExtension(FilterExpression):
 class CurrentKey(FilterExpression):
     """The key/property or index associated with the current object."""
 
-    __slots__ = ()
+    __slots__ = ("token",)
 
-    def __init__(self) -> None:
+    def __init__(self, token: str = "#") -> None:
         super().__init__()
+        self.token = token
         self.volatile = True
 
     def __str__(self) -> str:
-        return "#"
+        return self.token
 
     def __eq__(self, other: object) -> bool:
         return isinstance(other, CurrentKey)
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 18353b4..5dbde81 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -19,12 +19,12 @@ from jsonpath.function_extensions.filter_function import FilterFunction
 from .exceptions import JSONPathIndexError
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
-from .filter import CURRENT_KEY
 from .filter import FALSE
 from .filter import NIL
 from .filter import TRUE
 from .filter import UNDEFINED_LITERAL
 from .filter import BooleanExpression
+from .filter import CurrentKey
 from .filter import FilterContextPath
 from .filter import FilterExpression
 from .filter import FloatLiteral
@@ -589,7 +589,7 @@ class Parser:
         )
 
     def parse_current_key(self, _: TokenStream) -> FilterExpression:
-        return CURRENT_KEY
+        return CurrentKey(self.env.key_token)
 
     def parse_filter_context_path(self, stream: TokenStream) -> FilterExpression:
         stream.next_token()
diff --git a/jsonpath/path.py b/jsonpath/path.py
index 0137ab4..b5520ff 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -22,6 +22,7 @@ from jsonpath.match import JSONPathMatch
 from jsonpath.selectors import IndexSelector
 from jsonpath.selectors import ListSelector
 from jsonpath.selectors import PropertySelector
+from jsonpath.selectors import SliceSelector
 
 if TYPE_CHECKING:
     from io import IOBase
@@ -60,8 +61,14 @@ class JSONPath:
         self.fake_root = fake_root
 
     def __str__(self) -> str:
-        return self.env.root_token + "".join(
-            str(selector) for selector in self.selectors
+        root = self.env.fake_root_token if self.fake_root else self.env.root_token
+        return root + self.selectors_string()
+
+    def selectors_string(self) -> str:
+        """Return this path as a string, without its leading identifier token."""
+        return "".join(
+            f"[{selector}]" if isinstance(selector, SliceSelector) else str(selector)
+            for selector in self.selectors
         )
 
     def __eq__(self, __value: object) -> bool:
-- 
2.43.0


From 5c2e7fc7066dbc94ce8deff9c81cb2111cc13267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:42 +0000
Subject: [PATCH 36/38] fix: build projections from the selected nodes, ordered
 by index, without writing into selected values

---
 jsonpath/fluent_api.py | 106 +++++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 51 deletions(-)

diff --git a/jsonpath/fluent_api.py b/jsonpath/fluent_api.py
index 4329e08..e473f0e 100644
--- a/jsonpath/fluent_api.py
+++ b/jsonpath/fluent_api.py
@@ -222,65 +222,69 @@ class Query:
         if not isinstance(match.obj, (Mapping, Sequence)) or isinstance(match.obj, str):
             return None
 
-        if projection == Projection.RELATIVE:
-            obj: Dict[Union[int, str], Any] = {}
-            for expr in expressions:
-                path = self._env.compile(expr) if isinstance(expr, str) else expr
-                for rel_match in path.finditer(match.obj):  # type: ignore
-                    _patch_obj(rel_match.parts, obj, rel_match.obj)
+        if projection == Projection.FLAT:
+            return [m.obj for m in self._select_matches(match, expressions)]
 
-            return _fix_sparse_arrays(obj)
+        # Project from the root document or from the current match.
+        prefix = match.parts if projection == Projection.ROOT else ()
+        tree: Dict[Union[int, str], Any] = {}
+        for rel_match in self._select_matches(match, expressions):
+            # The first key stands for the projection's root.
+            _select_node(("", *prefix, *rel_match.parts), tree, rel_match.obj)
+        return _project(tree[""]) if tree else None
 
-        if projection == Projection.FLAT:
-            arr: List[object] = []
-            for expr in expressions:
-                path = self._env.compile(expr) if isinstance(expr, str) else expr
-                for rel_match in path.finditer(match.obj):  # type: ignore
-                    arr.append(rel_match.obj)
-            return arr
-
-        # Project from the root document
-        obj = {}
+    def _select_matches(
+        self,
+        match: JSONPathMatch,
+        expressions: Tuple[Union[str, JSONPath, CompoundJSONPath], ...],
+    ) -> Iterable[JSONPathMatch]:
         for expr in expressions:
             path = self._env.compile(expr) if isinstance(expr, str) else expr
-            for rel_match in path.finditer(match.obj):  # type: ignore
-                _patch_obj(match.parts + rel_match.parts, obj, rel_match.obj)
-
-        return _fix_sparse_arrays(obj)
+            yield from path.finditer(match.obj)  # type: ignore
 
 
-def _patch_obj(
-    parts: Tuple[Union[int, str], ...],
-    obj: Mapping[Union[str, int], Any],
-    value: object,
-) -> None:
-    _obj = obj
-
-    # For lack of a better idea, we're patching arrays to dictionaries with
-    # integer keys. This is to handle sparse array selections without having
-    # to keep track of indexes and how they map from the root JSON value to
-    # the selected JSON value.
-    #
-    # We'll fix these "sparse arrays" after the patch has been applied.
-    for part in parts[:-1]:
-        if part not in _obj:
-            _obj[part] = {}  # type: ignore
-        _obj = _obj[part]
-
-    _obj[parts[-1]] = value  # type: ignore
+class _Selected:
+    """A selected value, included in a projection as it is."""
 
+    __slots__ = ("value",)
 
-def _fix_sparse_arrays(obj: Any) -> object:
-    """Fix sparse arrays (dictionaries with integer keys)."""
-    if isinstance(obj, str) or not obj:
-        return obj
+    def __init__(self, value: object) -> None:
+        self.value = value
 
-    if isinstance(obj, Sequence):
-        return [_fix_sparse_arrays(e) for e in obj]
 
-    if isinstance(obj, Mapping):
-        if isinstance(next(iter(obj)), int):
-            return [_fix_sparse_arrays(v) for v in obj.values()]
-        return {k: _fix_sparse_arrays(v) for k, v in obj.items()}
+def _select_node(
+    parts: Tuple[Union[int, str], ...],
+    tree: Dict[Union[int, str], Any],
+    value: object,
+) -> None:
+    """Add _value_ to _tree_, a tree of selected nodes, at location _parts_.
 
-    return obj
+    Arrays are dictionaries with integer keys in _tree_. This is to handle sparse
+    array selections without having to keep track of indexes and how they map from
+    the root JSON value to the selected JSON value.
+    """
+    for part in parts[:-1]:
+        child = tree.setdefault(part, {})
+        if isinstance(child, _Selected):
+            # A selected value includes all of its descendants.
+            return
+        tree = child
+
+    tree[parts[-1]] = _Selected(value)
+
+
+def _project(node: Any) -> object:
+    """Return the JSON-like value for _node_, from a tree of selected nodes."""
+    if isinstance(node, _Selected):
+        return _copy(node.value)
+    if all(isinstance(part, int) for part in node):
+        return [_project(node[index]) for index in sorted(node)]
+    return {part: _project(child) for part, child in node.items()}
+
+
+def _copy(value: Any) -> object:
+    if isinstance(value, Mapping):
+        return {k: _copy(v) for k, v in value.items()}
+    if isinstance(value, Sequence) and not isinstance(value, (str, bytes)):
+        return [_copy(v) for v in value]
+    return value
-- 
2.43.0


From 4ccc89522c1b13bd3c431f36f4f946f5d509589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 37/38] fix: report every rejected query, file and document as
 a one line error, and read queries given as a file, in the command line
 interface

---
 jsonpath/cli.py    | 105 ++++++++++++++++++++++-----------------------
 jsonpath/filter.py |  13 +++++-
 2 files changed, 63 insertions(+), 55 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index e79d2fd..11fa5d0 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -2,17 +2,24 @@
 import argparse
 import json
 import sys
+from typing import NoReturn
 
 import jsonpath
 from jsonpath.__about__ import __version__
 from jsonpath.exceptions import JSONPatchError
+from jsonpath.exceptions import JSONPathError
 from jsonpath.exceptions import JSONPathIndexError
+from jsonpath.exceptions import JSONPathNameError
 from jsonpath.exceptions import JSONPathSyntaxError
 from jsonpath.exceptions import JSONPathTypeError
 from jsonpath.exceptions import JSONPointerError
 
 INDENT = 2
 
+# JSON decode errors, bytes that are not text, and numbers with too many digits are
+# all value errors.
+DECODE_ERRORS = (ValueError, RecursionError)
+
 
 def path_sub_command(parser: argparse.ArgumentParser) -> None:  # noqa: D103
     parser.set_defaults(func=handle_path_command)
@@ -236,48 +243,52 @@ def setup_parser() -> argparse.ArgumentParser:  # noqa: D103
     return parser
 
 
-def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
+def _fail(args: argparse.Namespace, err: Exception, label: str = "") -> NoReturn:
+    """Write a one line message for _err_ and exit, or raise _err_ when debugging."""
+    if args.debug:
+        raise err
+    message = " ".join(str(err).splitlines())
+    sys.stderr.write(f"{label}: {message}\n" if label else f"{message}\n")
+    sys.exit(1)
+
+
+def _path_error_label(err: JSONPathError) -> str:
+    if isinstance(err, JSONPathSyntaxError):
+        return "json path syntax error"
+    if isinstance(err, JSONPathTypeError):
+        return "json path type error"
+    if isinstance(err, JSONPathIndexError):
+        return "json path index error"
+    if isinstance(err, JSONPathNameError):
+        return "json path name error"
+    return "json path error"
+
+
+def handle_path_command(args: argparse.Namespace) -> None:
     """Handle the `path` sub command."""
     # Empty string is OK.
     if args.query is not None:
         query = args.query
     else:
-        query = args.query_file.read().strip()
+        try:
+            query = args.path_file.read().strip(" \n\r\t")
+        except UnicodeDecodeError as err:
+            _fail(args, err, "path file decode error")
 
     try:
         path = jsonpath.JSONPathEnvironment(
             unicode_escape=not args.no_unicode_escape,
             well_typed=not args.no_type_checks,
         ).compile(query)
-    except JSONPathSyntaxError as err:
-        if args.debug:
-            raise
-        sys.stderr.write(f"json path syntax error: {err}\n")
-        sys.exit(1)
-    except JSONPathTypeError as err:
-        if args.debug:
-            raise
-        sys.stderr.write(f"json path type error: {err}\n")
-        sys.exit(1)
-    except JSONPathIndexError as err:
-        if args.debug:
-            raise
-        sys.stderr.write(f"json path index error: {err}\n")
-        sys.exit(1)
+    except JSONPathError as err:
+        _fail(args, err, _path_error_label(err))
 
     try:
         matches = path.findall(args.file)
-    except json.JSONDecodeError as err:
-        if args.debug:
-            raise
-        sys.stderr.write(f"target document json decode error: {err}\n")
-        sys.exit(1)
-    except JSONPathTypeError as err:
-        # Type errors are currently only occurring are compile-time.
-        if args.debug:
-            raise
-        sys.stderr.write(f"json path type error: {err}\n")
-        sys.exit(1)
+    except JSONPathError as err:
+        _fail(args, err, _path_error_label(err))
+    except DECODE_ERRORS as err:
+        _fail(args, err, "target document json decode error")
 
     indent = INDENT if args.pretty else None
     json.dump(matches, args.output, indent=indent)
@@ -289,8 +300,11 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
     if args.pointer is not None:
         pointer = args.pointer
     else:
-        # TODO: is a property with a trailing newline OK?
-        pointer = args.pointer_file.read().strip()
+        # Spaces are significant, but text files usually end with a line break.
+        try:
+            pointer = args.pointer_file.read().rstrip("\r\n")
+        except UnicodeDecodeError as err:
+            _fail(args, err, "pointer file decode error")
 
     try:
         match = jsonpath.pointer.resolve(
@@ -299,16 +313,10 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
             unicode_escape=not args.no_unicode_escape,
             uri_decode=args.uri_decode,
         )
-    except json.JSONDecodeError as err:
-        if args.debug:
-            raise
-        sys.stderr.write(f"target document json decode error: {err}\n")
-        sys.exit(1)
     except JSONPointerError as err:
-        if args.debug:
-            raise
-        sys.stderr.write(str(err) + "\n")
-        sys.exit(1)
+        _fail(args, err)
+    except DECODE_ERRORS as err:
+        _fail(args, err, "target document json decode error")
 
     indent = INDENT if args.pretty else None
     json.dump(match, args.output, indent=indent)
@@ -318,11 +326,8 @@ def handle_patch_command(args: argparse.Namespace) -> None:
     """Handle the `patch` sub command."""
     try:
         patch = json.load(args.patch)
-    except json.JSONDecodeError as err:
-        if args.debug:
-            raise
-        sys.stderr.write(f"patch document json decode error: {err}\n")
-        sys.exit(1)
+    except DECODE_ERRORS as err:
+        _fail(args, err, "patch document json decode error")
 
     if not isinstance(patch, list):
         sys.stderr.write(
@@ -337,16 +342,10 @@ def handle_patch_command(args: argparse.Namespace) -> None:
             unicode_escape=not args.no_unicode_escape,
             uri_decode=args.uri_decode,
         )
-    except json.JSONDecodeError as err:
-        if args.debug:
-            raise
-        sys.stderr.write(f"target document json decode error: {err}\n")
-        sys.exit(1)
     except JSONPatchError as err:
-        if args.debug:
-            raise
-        sys.stderr.write(str(err) + "\n")
-        sys.exit(1)
+        _fail(args, err)
+    except DECODE_ERRORS as err:
+        _fail(args, err, "target document json decode error")
 
     indent = INDENT if args.pretty else None
     json.dump(patched, args.output, indent=indent)
diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index d523b0c..06e7eaf 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -648,7 +648,7 @@ class FunctionExtension(FilterExpression):
         except KeyError:
             return UNDEFINED  # TODO: should probably raise an exception
         args = [arg.evaluate(context) for arg in self.args]
-        return func(*self._unpack_node_lists(func, args))
+        return self._call(func, self._unpack_node_lists(func, args))
 
     async def evaluate_async(self, context: FilterContext) -> object:
         try:
@@ -656,7 +656,16 @@ class FunctionExtension(FilterExpression):
         except KeyError:
             return UNDEFINED  # TODO: should probably raise an exception
         args = [await arg.evaluate_async(context) for arg in self.args]
-        return func(*self._unpack_node_lists(func, args))
+        return self._call(func, self._unpack_node_lists(func, args))
+
+    def _call(self, func: Callable[..., Any], args: List[object]) -> object:
+        if not isinstance(func, FilterFunction):
+            return func(*args)
+        try:
+            return func(*args)
+        except (AttributeError, TypeError) as err:
+            # Possible when well-typedness checks are disabled.
+            raise JSONPathTypeError(f"{self.name}(): {err}") from err
 
     def _unpack_node_lists(
         self, func: Callable[..., Any], args: List[object]
-- 
2.43.0


From 1a916b2c6ea2b7edb8c47e60b242eee4973cda23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:53 +0000
Subject: [PATCH 38/38] fix: write deeply nested results without failing
 halfway through

The streaming JSON encoder is recursive Python code that gives up, with a
traceback and partial output, on documents that the decoder accepts.
---
 jsonpath/cli.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index 11fa5d0..cf6ef90 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -252,6 +252,16 @@ def _fail(args: argparse.Namespace, err: Exception, label: str = "") -> NoReturn
     sys.exit(1)
 
 
+def _write(args: argparse.Namespace, value: object) -> None:
+    """Write _value_ as JSON, all of it or nothing."""
+    indent = INDENT if args.pretty else None
+    try:
+        text = json.dumps(value, indent=indent)
+    except RecursionError as err:
+        _fail(args, err, "output json encode error")
+    args.output.write(text)
+
+
 def _path_error_label(err: JSONPathError) -> str:
     if isinstance(err, JSONPathSyntaxError):
         return "json path syntax error"
@@ -290,8 +300,7 @@ def handle_path_command(args: argparse.Namespace) -> None:
     except DECODE_ERRORS as err:
         _fail(args, err, "target document json decode error")
 
-    indent = INDENT if args.pretty else None
-    json.dump(matches, args.output, indent=indent)
+    _write(args, matches)
 
 
 def handle_pointer_command(args: argparse.Namespace) -> None:
@@ -318,8 +327,7 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
     except DECODE_ERRORS as err:
         _fail(args, err, "target document json decode error")
 
-    indent = INDENT if args.pretty else None
-    json.dump(match, args.output, indent=indent)
+    _write(args, match)
 
 
 def handle_patch_command(args: argparse.Namespace) -> None:
@@ -347,8 +355,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
     except DECODE_ERRORS as err:
         _fail(args, err, "target document json decode error")
 
-    indent = INDENT if args.pretty else None
-    json.dump(patched, args.output, indent=indent)
+    _write(args, patched)
 
 
 def main() -> None:
-- 
2.43.0

