From e2f8a27cb30d80ad4952cd62e8a0baa4efe3e6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:25 +0000
Subject: [PATCH 01/38] fix: accept a line comment at the end of a file without
 a trailing newline

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 17e24e8..6d82379 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -181,7 +181,7 @@ LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
 
 _NEWLINE: NEWLINE
-_CPP_COMMENT_NL: [CPP_COMMENT] NEWLINE
+_CPP_COMMENT_NL: CPP_COMMENT [NEWLINE] | NEWLINE
 
 %import common.C_COMMENT
 %import common.CPP_COMMENT
-- 
2.43.0


From e3eae962bfbb11404132d802db5a61468bc165c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:43 +0000
Subject: [PATCH 02/38] fix: allow any number of comment lines between a
 decorator and its element

---
 pycep/bicep.lark | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 6d82379..a7f1b82 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -92,9 +92,12 @@ lambda_expression: (value_brackets | "(" value_brackets "," value_brackets (","
 
 // decorators
 
-decorator: ("@" /(sys\.)?[a-zA-Z0-9]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? ")" _CPP_COMMENT_NL~0..10)
+decorator: ("@" /(sys\.)?[a-zA-Z0-9]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? ")" _decorator_trivia?)
 decorators: decorator+
 
+// dedicated rule instead of `_CPP_COMMENT_NL*`, otherwise the parser states are shared with objects and arrays
+_decorator_trivia: _CPP_COMMENT_NL _decorator_trivia?
+
 // functions
 
 FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9]+/ "("
-- 
2.43.0


From 73d94a73ecb667f0b0ef92938e06698f89937fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:57 +0000
Subject: [PATCH 03/38] fix: keep falsy arguments of accessor function calls

'kv.getSecret(name, '')' or 'sa.listKeys(version, {})' silently lost the argument.
---
 pycep/bicep.lark     | 2 +-
 pycep/transformer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index a7f1b82..902bf29 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -164,7 +164,7 @@ substract.1: value_brackets "-" value_brackets
 
 index_accessor: value_brackets "[" "?"? value_brackets "]"
 
-function_accessor: value_brackets "." LIST_FUNC_NAME "(" value_brackets? ["," value_brackets]+ ")"
+function_accessor: value_brackets "." LIST_FUNC_NAME "(" value_brackets? ("," value_brackets)* ")"
 
 nested_resource_accessor: value_brackets "::" value_brackets
 
diff --git a/pycep/transformer.py b/pycep/transformer.py
index b25e2d4..8718e5c 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -869,7 +869,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             "operands": {
                 "operand_1": arg_1,
                 "func_name": str(func_name),
-                **{f"operand_{idx + 2}": extra for idx, extra in enumerate(arg_x) if extra},
+                **{f"operand_{idx + 2}": extra for idx, extra in enumerate(arg_x)},
             },
         }
 
-- 
2.43.0


From 493c654fd20774cbb365fecb9518715a9107a1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:10 +0000
Subject: [PATCH 04/38] fix: accept lambda expressions with exactly two
 parameters

The grammar required at least three, so 'reduce(x, 0, (cur, next) => ...)' was rejected.
---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 902bf29..630a630 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -88,7 +88,7 @@ pair: key ":" (value_brackets | loop) "?"?
 
 !key: "resource" | quoted_string
 
-lambda_expression: (value_brackets | "(" value_brackets "," value_brackets ("," value_brackets)+ ")") "=>" value_brackets
+lambda_expression: (value_brackets | "(" value_brackets ("," value_brackets)+ ")") "=>" value_brackets
 
 // decorators
 
-- 
2.43.0


From 23f56865ae5a19815478853089471fb1c03dc345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:30 +0000
Subject: [PATCH 05/38] fix: accept calls of functions with an underscore in
 their name

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 630a630..eb32937 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -100,7 +100,7 @@ _decorator_trivia: _CPP_COMMENT_NL _decorator_trivia?
 
 // functions
 
-FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9]+/ "("
+FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9_]+/ "("
 function: FUNCTION _CPP_COMMENT_NL? value_brackets? ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL? ")"
 
 // operators
-- 
2.43.0


From ba2b4c9847078b5404d054492c9ef663b5da1ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:53 +0000
Subject: [PATCH 06/38] fix: accept whitespace between 'if' and the condition
 of a loop

'[for x in xs: if (cond) {...}]' is how the Bicep formatter writes it, but only 'if(cond)' was accepted.
---
 pycep/bicep.lark     | 5 ++++-
 pycep/transformer.py | 3 ---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index eb32937..1164f5d 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -64,7 +64,9 @@ import_alias: (STRING | /\*/) ["as" STRING]
 
 // loops
 
-loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [value_brackets] value_brackets _CPP_COMMENT_NL? "]"
+loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [loop_condition] value_brackets _CPP_COMMENT_NL? "]"
+
+?loop_condition: _NEWLINE? _LOOP_IF value_brackets ")"
 
 loop_array: STRING "in" value_brackets
 
@@ -179,6 +181,7 @@ STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
 QUOTED_INTERPOLATION: /(?!.*''')'(\${(?:[^}'{]+|(?R))*+}|\\'|[^'])*'/
+_LOOP_IF.2: /if[ \t]*\(/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
diff --git a/pycep/transformer.py b/pycep/transformer.py
index 8718e5c..76169c5 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -536,9 +536,6 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
     def loop(self, args: tuple[pycep_typing.LoopType, str | None, dict[str, Any]]) -> pycep_typing.Loop:
         loop_type, condition, config = args
 
-        if isinstance(condition, dict) and (func := condition.get("function", {})).get("type") == "if":
-            condition = func["parameters"]["arg_1"]
-
         return {
             "loop_type": loop_type,
             "condition": condition,
-- 
2.43.0


From 3bcb4483b318d72d8fa58a89772ef49d46e8bf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 07/38] fix: add line numbers to namespace imports

---
 pycep/transformer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 76169c5..8ad3700 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -106,6 +106,11 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
                 "__name__": transform_string_token(args[0]),
                 "__attrs__": {},
             }
+
+            if self.add_line_numbers:
+                result["__attrs__"]["__start_line__"] = meta.line
+                result["__attrs__"]["__end_line__"] = meta.end_line
+
             self.imports.append(
                 {
                     "imports": result,
-- 
2.43.0


From eae22767491ec478fad87f58242fb42c60bbe35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 08/38] fix: end child resources at their closing bracket

The grammar consumed the following line breaks and comments as part of the child
resource, which resulted in a wrong '__end_line__', if it was followed by blank or
comment lines, and in a rejected template, if it was followed by a closing bracket.
---
 pycep/bicep.lark     | 2 +-
 pycep/transformer.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 1164f5d..ee7ce49 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -45,7 +45,7 @@ _func_statement: STRING "(" (STRING data_type ("," STRING data_type)*)? ")" data
 
 ?module_value: object | loop | deploy_condition
 
-child_resource: "resource" STRING QUOTED_INTERPOLATION [EXISTING] "=" (object | loop | deploy_condition) _CPP_COMMENT_NL+
+child_resource: "resource" STRING QUOTED_INTERPOLATION [EXISTING] "=" (object | loop | deploy_condition)
 
 ?type_value: value_brackets ("|" value_brackets)*
 
diff --git a/pycep/transformer.py b/pycep/transformer.py
index 8ad3700..78900d1 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -310,8 +310,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         if self.add_line_numbers:
             result["__attrs__"]["__start_line__"] = meta.line
-            # remove one line, because the new line is counted for child resources
-            result["__attrs__"]["__end_line__"] = meta.end_line - 1
+            result["__attrs__"]["__end_line__"] = meta.end_line
 
         return "__child_resource__", result
 
-- 
2.43.0


From 00eef248fe2f71ee44e5f022df63df0b2d28e5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 09/38] fix: extract child resources of conditional and loop
 resources

They were left as a '__child_resource__' entry inside the config of their parent.
---
 pycep/transformer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 78900d1..fbe5948 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -28,6 +28,9 @@ TEMPLATE_SPEC_PATTERN = re.compile(
 
 VALID_TARGET_SCOPES = {"resourceGroup", "subscription", "managementGroup", "tenant"}
 
+# attributes of a loop or deploy condition, which surround the actual resource body
+WRAPPER_KEYS = {"loop_type", "condition", "config", "depends_on"}
+
 
 class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
     def __init__(self, add_line_numbers: bool) -> None:
@@ -948,8 +951,11 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         Beware that this method is not idempotent, it modifies the passed in `config`.
         """
-        if "__child_resource__" in config:
-            child_resource = config.pop("__child_resource__")
+        # the actual resource body of a loop or deploy condition is one level deeper
+        body = config.get("config") if config.keys() <= WRAPPER_KEYS else config
+
+        if isinstance(body, dict) and "__child_resource__" in body:
+            child_resource = body.pop("__child_resource__")
 
             # prefix the resource name with the parent to prevent overlap
             child_resource["__name__"] = f"{parent_resource_name}__{child_resource['__name__']}"
-- 
2.43.0


From 1a60b7f17c8c4665aa034020d3084cb0ed92a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:04 +0000
Subject: [PATCH 10/38] fix: accept all valid characters in module registry and
 template spec references

Subscription ids of template specs are GUIDs with hexadecimal digits, aliases can contain
hyphens and paths or names can contain dots, all of them ended in a ValueError.
---
 pycep/transformer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index fbe5948..b2a81f3 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -16,14 +16,14 @@ if TYPE_CHECKING:
     from lark.tree import Meta
 
 
-BICEP_REGISTRY_ALIAS_PATTERN = re.compile(r"br/(?P<alias>[\w]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
-PUBLIC_BICEP_REGISTRY_PATTERN = re.compile(r"br:mcr\.microsoft\.com/(?P<path>[\w/\-]+):(?P<tag>[\w.\-]+)")
+BICEP_REGISTRY_ALIAS_PATTERN = re.compile(r"br/(?P<alias>[\w\-]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
+PUBLIC_BICEP_REGISTRY_PATTERN = re.compile(r"br:mcr\.microsoft\.com/(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
 PRIVATE_BICEP_REGISTRY_PATTERN = re.compile(
     r"br:(?P<registry_name>\w+)\.azurecr\.io/(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)"
 )
-TEMPLATE_SPEC_ALIAS_PATTERN = re.compile(r"ts/(?P<alias>[\w]+):(?P<path>[\w/\-]+):(?P<tag>[\w.\-]+)")
+TEMPLATE_SPEC_ALIAS_PATTERN = re.compile(r"ts/(?P<alias>[\w\-]+):(?P<path>[\w/\-.()]+):(?P<tag>[\w.\-]+)")
 TEMPLATE_SPEC_PATTERN = re.compile(
-    r"ts:(?P<sub_id>[\d\-]+)/(?P<rg_id>[\w._\-()]+)/(?P<name>[\w.\-]+):(?P<version>[\w.\-]+)"
+    r"ts:(?P<sub_id>[\da-fA-F\-]+)/(?P<rg_id>[\w._\-()]+)/(?P<name>[\w.\-()]+):(?P<version>[\w.\-]+)"
 )
 
 VALID_TARGET_SCOPES = {"resourceGroup", "subscription", "managementGroup", "tenant"}
-- 
2.43.0


From 4e6851b01bee040a8a771b6c104fbcd88befeac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 11/38] fix: parse an empty text like an empty file

---
 pycep/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycep/main.py b/pycep/main.py
index ee35d08..8feaca4 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -33,12 +33,12 @@ class BicepParser:
         return tree.pretty()
 
     def _create_tree(self, text: str | None, file_path: Path | None) -> Tree[Token]:
-        if text and file_path:
+        if text is not None and file_path is not None:
             raise TypeError("Either 'text' or 'file_path' can be set")
 
-        if text:
+        if text is not None:
             bicep_text = text
-        elif file_path:
+        elif file_path is not None:
             bicep_text = file_path.read_text()
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
-- 
2.43.0


From e3a865449c366b70e3278d1de7ea8ce1b573ae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 12/38] fix: read template files as UTF-8 independent of the
 locale

---
 pycep/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/main.py b/pycep/main.py
index 8feaca4..09a3b5c 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -14,7 +14,7 @@ if TYPE_CHECKING:
     from pycep import typing as pycep_typing
 
 
-LARK_GRAMMAR = (files(__package__) / "bicep.lark").read_text()  # ty: ignore[invalid-argument-type] # can't be `None` here
+LARK_GRAMMAR = (files(__package__) / "bicep.lark").read_text(encoding="utf-8")  # ty: ignore[invalid-argument-type] # can't be `None` here
 
 
 class BicepParser:
@@ -39,7 +39,7 @@ class BicepParser:
         if text is not None:
             bicep_text = text
         elif file_path is not None:
-            bicep_text = file_path.read_text()
+            bicep_text = file_path.read_text(encoding="utf-8")
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
 
-- 
2.43.0


From 8dfdda4e2aa03acc028403cc7a2ddac9d64a1fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 13/38] fix: assign both arguments of 'resourceGroup' by
 position

They were swapped, if one of them was falsy, like an empty string.
---
 pycep/rules/functions.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index 1d8ee29..cbb3cf3 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -686,16 +686,13 @@ def resource_group(
 ) -> pycep_typing.ResourceGroup:
     args_len = len(args)
     if args_len == 2:
-        resource_group_name, subscription_id = args
+        # very strange parameter definition
+        subscription_id, resource_group_name = args
     elif args_len == 1:
         resource_group_name, subscription_id = args[0], None
     else:
         resource_group_name, subscription_id = None, None
 
-    if resource_group_name and subscription_id:
-        # very strange parameter definition
-        resource_group_name, subscription_id = subscription_id, resource_group_name
-
     result: pycep_typing.ResourceGroup = {
         "type": "resource_group",
         "parameters": {
-- 
2.43.0


From ebc55eda32a797cd202aba443ac8dd1e95738bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 14/38] fix: support negative values and expressions in
 @maxValue / @minValue

---
 pycep/rules/decorators.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pycep/rules/decorators.py b/pycep/rules/decorators.py
index c8f60ac..b0dc72b 100644
--- a/pycep/rules/decorators.py
+++ b/pycep/rules/decorators.py
@@ -5,8 +5,6 @@ from typing import TYPE_CHECKING, Any
 if TYPE_CHECKING:
     from collections.abc import Callable
 
-    from lark import Token
-
     from pycep import typing as pycep_typing
 
 ####################
@@ -57,21 +55,27 @@ def deco_max_len(_deco_name: str, args: tuple[int]) -> pycep_typing.DecoratorMax
     }
 
 
-def deco_min_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMinValue:
-    arg = args[0]
-    if isinstance(arg, dict) and (operator := arg.get("operator", {})).get("type") == "minus":
-        arg = operator["operands"]["integer_value"] * -1
+def _negate_integer(arg: Any) -> Any:  # ruff:ignore[any-type]
+    """Converts the minus operator of a negative integer to the actual value."""
+    if isinstance(arg, dict) and isinstance(operator := arg.get("operator"), dict) and operator.get("type") == "minus":
+        value = operator.get("operands", {}).get("integer_value")
+        if type(value) is int:
+            return -value
+
+    return arg
 
-    return {  # ty: ignore[invalid-return-type] # there is no real issue if this returns a dict
+
+def deco_min_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMinValue:
+    return {
         "type": "min_value",
-        "argument": arg,  # ty: ignore[invalid-argument-type]
+        "argument": _negate_integer(args[0]),
     }
 
 
-def deco_max_val(_deco_name: str, args: tuple[Token]) -> pycep_typing.DecoratorMaxValue:
+def deco_max_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMaxValue:
     return {
         "type": "max_value",
-        "argument": int(args[0]),
+        "argument": _negate_integer(args[0]),
     }
 
 
-- 
2.43.0


From 0eff9c2c091a758b731a3b46a97bf0872d60e83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:58 +0000
Subject: [PATCH 15/38] fix: tokenize escaped backslashes and nested
 interpolations of strings

---
 pycep/bicep.lark | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index ee7ce49..694614b 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -180,7 +180,8 @@ EXISTING: "existing"
 STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
-QUOTED_INTERPOLATION: /(?!.*''')'(\${(?:[^}'{]+|(?R))*+}|\\'|[^'])*'/
+// an interpolation can contain strings, objects and therefore further interpolations
+QUOTED_INTERPOLATION: /(?!''')'(?:\$\{(?P<_expr>(?:[^'{}]++|\{(?&_expr)\}|'(?:\$\{(?&_expr)\}|\\[\s\S]|(?!\$\{)[^'\\])*+')*+)\}|\\[\s\S]|[^'\\])*+'/
 _LOOP_IF.2: /if[ \t]*\(/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
-- 
2.43.0


From e4ab72a8dc0ea84496420ee98f032c588a3b1874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:01 +0000
Subject: [PATCH 16/38] fix: tokenize multi-line strings in linear time

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 694614b..69c5f69 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -185,7 +185,7 @@ QUOTED_INTERPOLATION: /(?!''')'(?:\$\{(?P<_expr>(?:[^'{}]++|\{(?&_expr)\}|'(?:\$
 _LOOP_IF.2: /if[ \t]*\(/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
-MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
+MULTI_LINE_STRING: /'''[\s\S]*?'''/
 
 _NEWLINE: NEWLINE
 _CPP_COMMENT_NL: CPP_COMMENT [NEWLINE] | NEWLINE
-- 
2.43.0


From 85cb3e2064454645445ee8442370f57c3e0918b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:04 +0000
Subject: [PATCH 17/38] fix: strip a leading CRLF of multi-line strings

---
 pycep/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycep/utils.py b/pycep/utils.py
index c1f2548..716a562 100644
--- a/pycep/utils.py
+++ b/pycep/utils.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import re
 from typing import TYPE_CHECKING
 
 from pycep.models import BicepElement
@@ -24,4 +25,4 @@ def transform_string_token(value: Token) -> str | BicepElement:
 
 def sanitize_multi_line_string_token(value: Token) -> str:
     """Sanitizes multi-line string typed Token."""
-    return str(value)[3:-3].removeprefix("\n")
+    return re.sub(r"^\r?\n", "", str(value)[3:-3])
-- 
2.43.0


From 91cfdac08a2adaba248e534e9ca740d467aa0ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:08 +0000
Subject: [PATCH 18/38] fix: keep an empty extension configuration

---
 pycep/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index b2a81f3..9da6ba4 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -158,7 +158,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
         }
 
-        if config:
+        if config is not None:
             result["extensions"]["__attrs__"]["config"] = config
 
         if alias:
-- 
2.43.0


From efe2990d31b495d8cc4ab3aa9d25537acc78529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:45 +0000
Subject: [PATCH 19/38] fix: ignore triple quotes in comments, when validating
 multi-line strings

---
 pycep/validator.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pycep/validator.py b/pycep/validator.py
index 973e37a..a025d03 100644
--- a/pycep/validator.py
+++ b/pycep/validator.py
@@ -1,3 +1,21 @@
+import regex
+
+# comments and strings are consumed as a whole, therefore only the opening quotes
+# of a multi-line string without a counterpart are left over
+UNCLOSED_MULTI_LINE_STRING_PATTERN = regex.compile(
+    r"""
+    (?:
+        //[^\n]*+ | \#[^\n]*+ | /\*.*?(?:\*/|\Z)              # comments
+      | '''.*?'''                                            # multi-line strings
+      | (?!''')'(?:\$\{(?P<expr>(?:[^'{}]++|\{(?&expr)\}|'(?:\$\{(?&expr)\}|\\.|(?!\$\{)[^'\\])*+')*+)\}|\\.|[^'])*+(?:'|\Z)
+      | [^']
+    )*+
+    '''
+    """,
+    regex.DOTALL | regex.VERBOSE,
+)
+
+
 class BicepValidator:
     @staticmethod
     def is_valid(bicep_text: str) -> bool:
@@ -5,4 +23,4 @@ class BicepValidator:
 
     @staticmethod
     def multi_line_string_valid(bicep_text: str) -> bool:
-        return bicep_text.count("'''") % 2 == 0
+        return UNCLOSED_MULTI_LINE_STRING_PATTERN.match(bicep_text) is None
-- 
2.43.0


From dac647eef17eb4674f948bc8241bdfe736fb670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 20/38] fix: keep all resource names of the scoped resource ID
 functions

---
 pycep/rules/functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index cbb3cf3..b676c99 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -448,6 +448,7 @@ def extension_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.Ex
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": resource_name for idx, resource_name in enumerate(args[4:], start=3)},
         },
     }
 
@@ -492,6 +493,7 @@ def management_group_resource_id(_func_name: str, args: list[Token]) -> pycep_ty
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": resource_name for idx, resource_name in enumerate(args[3:], start=3)},
         },
     }
 
@@ -639,6 +641,7 @@ def subscription_resource_id(_func_name: str, args: list[Token]) -> pycep_typing
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": resource_name for idx, resource_name in enumerate(args[4:], start=3)},
             "subscription_id": subscription_id,
         },
     }
@@ -661,6 +664,7 @@ def tenant_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.Tenan
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": resource_name for idx, resource_name in enumerate(args[3:], start=3)},
         },
     }
 
-- 
2.43.0


From a8a69a453be0480cf555e6438b591019104254db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 21/38] fix: accept object keys and array items named like
 keywords

---
 pycep/bicep.lark | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 69c5f69..cd8e611 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -82,7 +82,10 @@ deploy_condition: _CPP_COMMENT_NL? "if" "(" value_brackets ")" value_brackets
 
 ?quoted_string: STRING | QUOTED_STRING | QUOTED_INTERPOLATION
 
-array: "[" _CPP_COMMENT_NL* (value_brackets ("," value_brackets)* _CPP_COMMENT_NL*)* "]"
+array: "[" _array_trivia? (value_brackets ("," value_brackets)* _array_trivia?)* "]"
+
+// dedicated rule instead of `_CPP_COMMENT_NL*`, otherwise the parser states are shared with objects
+_array_trivia: _CPP_COMMENT_NL _array_trivia?
 
 object: "{" _CPP_COMMENT_NL* ((pair ("," pair)* | child_resource) _CPP_COMMENT_NL*)* "}"
 
-- 
2.43.0


From 2ab835b71fc8cc2811e1c4fffe507b6c8a621722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 22/38] fix: accept a variable named 'items' in loops

---
 pycep/bicep.lark | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index cd8e611..e2234d6 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -72,7 +72,7 @@ loop_array: STRING "in" value_brackets
 
 loop_array_index: "(" STRING "," STRING ")" "in" value_brackets
 
-loop_object: STRING "in" "items" "(" value_brackets ")"
+loop_object: STRING "in" _LOOP_ITEMS value_brackets ")"
 
 // deploy condition
 
@@ -186,6 +186,7 @@ INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(
 // an interpolation can contain strings, objects and therefore further interpolations
 QUOTED_INTERPOLATION: /(?!''')'(?:\$\{(?P<_expr>(?:[^'{}]++|\{(?&_expr)\}|'(?:\$\{(?&_expr)\}|\\[\s\S]|(?!\$\{)[^'\\])*+')*+)\}|\\[\s\S]|[^'\\])*+'/
 _LOOP_IF.2: /if[ \t]*\(/
+_LOOP_ITEMS.2: /items[ \t]+\(/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: /'''[\s\S]*?'''/
-- 
2.43.0


From 8635623ad050768778440312d1ab38c1ac7a06eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 23/38] fix: keep the structure of an iterated object in loops

---
 pycep/transformer.py | 4 ++--
 pycep/typing.py      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 9da6ba4..f4c8237 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -570,13 +570,13 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             },
         }
 
-    def loop_object(self, args: tuple[Token, Token]) -> pycep_typing.LoopObject:
+    def loop_object(self, args: tuple[Token, pycep_typing.PossibleValue]) -> pycep_typing.LoopObject:
         item_name, obj_name = args
         return {
             "type": "object",
             "detail": {
                 "item_name": str(item_name),
-                "object_name": str(obj_name),
+                "object_name": obj_name,
             },
         }
 
diff --git a/pycep/typing.py b/pycep/typing.py
index f0d5aba..654cac2 100644
--- a/pycep/typing.py
+++ b/pycep/typing.py
@@ -368,7 +368,7 @@ class LoopArrayIndex(TypedDict):
 
 class _LoopObjectDetail(TypedDict):
     item_name: str
-    object_name: str
+    object_name: PossibleValue
 
 
 class LoopObject(TypedDict):
-- 
2.43.0


From 3b63b394bd065f0f48bb157c1857fad2a58c35b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 24/38] fix: accept redundant nested parentheses

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index e2234d6..a82bebb 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -25,7 +25,7 @@ element: "targetScope" "=" QUOTED_INTERPOLATION
       | operator
       | lambda_expression
 
-?value_brackets: (value | "(" value ")") "!"?
+?value_brackets: (value | "(" value_brackets ")") "!"?
 
 // aliases
 
-- 
2.43.0


From 3feec4e465dceb91a5a26e060f540cb48dcfe7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:44 +0000
Subject: [PATCH 25/38] fix: allow line breaks in accessor function calls like
 in other calls

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index a82bebb..6fbb603 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -169,7 +169,7 @@ substract.1: value_brackets "-" value_brackets
 
 index_accessor: value_brackets "[" "?"? value_brackets "]"
 
-function_accessor: value_brackets "." LIST_FUNC_NAME "(" value_brackets? ("," value_brackets)* ")"
+function_accessor: value_brackets "." _NEWLINE? LIST_FUNC_NAME "(" _CPP_COMMENT_NL? value_brackets? ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL? ")"
 
 nested_resource_accessor: value_brackets "::" value_brackets
 
-- 
2.43.0


From 5c113c61d3b85c9f84694c77dcc4e393ad11d115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:48 +0000
Subject: [PATCH 26/38] fix: treat lines without content as one line break

---
 pycep/bicep.lark | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 6fbb603..59db56b 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -191,14 +191,13 @@ LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: /'''[\s\S]*?'''/
 
-_NEWLINE: NEWLINE
-_CPP_COMMENT_NL: CPP_COMMENT [NEWLINE] | NEWLINE
+// further lines without content belong to the same line break
+_NEWLINE: /\r?\n((?:[ \t]|\/\*[\s\S]*?\*\/|#[^\n]*)*\r?\n)*/
+_CPP_COMMENT_NL: /(?:\/\/[^\n]*|\r?\n)((?:[ \t]|\/\*[\s\S]*?\*\/|#[^\n]*)*(?:\/\/[^\n]*|\r?\n))*/
 
 %import common.C_COMMENT
-%import common.CPP_COMMENT
 %import common.SH_COMMENT
 %import common.INT
-%import common.NEWLINE
 %import common.WS_INLINE
 
 %ignore C_COMMENT
-- 
2.43.0


From 2e1b2dfb38eac589f46576747bc4fa3c7dc9adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 27/38] fix: accept properties named like the function
 namespaces

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 59db56b..071f16b 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -180,7 +180,7 @@ property_accessor: value_brackets "." "?"? value_brackets
 
 EXISTING: "existing"
 
-STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
+STRING: /(?!(sys|az)\.\w+\()[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
 // an interpolation can contain strings, objects and therefore further interpolations
-- 
2.43.0


From 7e53eca650748058bfd8b4d6bc97899ff6e4f4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 28/38] fix: reject a call with a comma before the first
 argument

---
 pycep/bicep.lark | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 071f16b..373b26c 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -106,7 +106,7 @@ _decorator_trivia: _CPP_COMMENT_NL _decorator_trivia?
 // functions
 
 FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9_]+/ "("
-function: FUNCTION _CPP_COMMENT_NL? value_brackets? ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL? ")"
+function: FUNCTION _CPP_COMMENT_NL? (value_brackets ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL?)? ")"
 
 // operators
 
@@ -169,7 +169,7 @@ substract.1: value_brackets "-" value_brackets
 
 index_accessor: value_brackets "[" "?"? value_brackets "]"
 
-function_accessor: value_brackets "." _NEWLINE? LIST_FUNC_NAME "(" _CPP_COMMENT_NL? value_brackets? ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL? ")"
+function_accessor: value_brackets "." _NEWLINE? LIST_FUNC_NAME "(" _CPP_COMMENT_NL? (value_brackets ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL?)? ")"
 
 nested_resource_accessor: value_brackets "::" value_brackets
 
-- 
2.43.0


From 24e588fb8ae496a7cfc8709ea924282a728fc87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:14 +0000
Subject: [PATCH 29/38] fix: accept child resources with a 'depends_on'
 property, which is not an array

---
 pycep/transformer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index f4c8237..f408971 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -968,9 +968,12 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
             child_resource["__attrs__"]["type"] = child_type_api_pair["type"]
             child_resource["__attrs__"]["api_version"] = child_type_api_pair["api_version"]
-            child_resource["__attrs__"]["config"].setdefault("depends_on", []).append(
-                BicepElement(parent_resource_name)
-            )
+            child_config = child_resource["__attrs__"]["config"]
+            depends_on = child_config.setdefault("depends_on", [])
+            if not isinstance(depends_on, list):
+                # the child resource has a property of the same name, which is not an array
+                depends_on = child_config["depends_on"] = [depends_on]
+            depends_on.append(BicepElement(parent_resource_name))
 
             self.child_resources.append(
                 {
-- 
2.43.0


From 85f01f259bae16d7a0b5eaf7808619828491f597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:44 +0000
Subject: [PATCH 30/38] fix: accept index accessors after properties named like
 list functions

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 373b26c..17d8e63 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -187,7 +187,7 @@ INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(
 QUOTED_INTERPOLATION: /(?!''')'(?:\$\{(?P<_expr>(?:[^'{}]++|\{(?&_expr)\}|'(?:\$\{(?&_expr)\}|\\[\s\S]|(?!\$\{)[^'\\])*+')*+)\}|\\[\s\S]|[^'\\])*+'/
 _LOOP_IF.2: /if[ \t]*\(/
 _LOOP_ITEMS.2: /items[ \t]+\(/
-LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
+LIST_FUNC_NAME.2: /(?=([Ll]ist[A-Za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: /'''[\s\S]*?'''/
 
-- 
2.43.0


From 94a716b2e0e96aead20e89272922abe7867dce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:05 +0000
Subject: [PATCH 31/38] fix: accept a variable named 'resource' after the
 question mark of a conditional in objects

---
 pycep/bicep.lark | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 17d8e63..a6da23c 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -17,6 +17,7 @@ element: "targetScope" "=" QUOTED_INTERPOLATION
       | _NEWLINE? "false"                     -> false
       | _NEWLINE? INT                         -> int_type
       | _NEWLINE? STRING                      -> string
+      | _NEWLINE? RESOURCE                    -> string
       | _NEWLINE? QUOTED_INTERPOLATION        -> string
       | MULTI_LINE_STRING                     -> multi_line_string
       | array
@@ -179,6 +180,7 @@ property_accessor: value_brackets "." "?"? value_brackets
 // Terms
 
 EXISTING: "existing"
+RESOURCE: "resource"
 
 STRING: /(?!(sys|az)\.\w+\()[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
-- 
2.43.0


From f919cdc0f9df4b157f2e8d32590b5efdad8a82af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:09 +0000
Subject: [PATCH 32/38] fix: reject module references with surplus characters
 after the tag or version

---
 pycep/transformer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index f408971..285e17c 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -432,13 +432,13 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         if file_path.startswith("br:"):
             # check if it's referencing the official public registry
-            m = re.match(PUBLIC_BICEP_REGISTRY_PATTERN, file_path)
+            m = re.fullmatch(PUBLIC_BICEP_REGISTRY_PATTERN, file_path)
             if m:
                 is_public = True
                 registry_name = "mcr.microsoft.com"
             else:
                 # check if it's referencing a privvte registry
-                m = re.match(PRIVATE_BICEP_REGISTRY_PATTERN, file_path)
+                m = re.fullmatch(PRIVATE_BICEP_REGISTRY_PATTERN, file_path)
                 if m:
                     is_public = False
                     registry_name = m.group("registry_name")
@@ -457,7 +457,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
             return br_result
         elif file_path.startswith("br/"):
-            m = re.match(BICEP_REGISTRY_ALIAS_PATTERN, file_path)
+            m = re.fullmatch(BICEP_REGISTRY_ALIAS_PATTERN, file_path)
             if not m:  # pragma: no cover
                 raise ValueError(f"Bicep registry alias is invalid: {file_path}")
 
@@ -480,7 +480,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
             return br_alias_result
         elif file_path.startswith("ts:"):
-            m = re.match(TEMPLATE_SPEC_PATTERN, file_path)
+            m = re.fullmatch(TEMPLATE_SPEC_PATTERN, file_path)
             if not m:  # pragma: no cover
                 raise ValueError(f"Template spec path is invalid: {file_path}")
 
@@ -496,7 +496,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
             return ts_result
         elif file_path.startswith("ts/"):
-            m = re.match(TEMPLATE_SPEC_ALIAS_PATTERN, file_path)
+            m = re.fullmatch(TEMPLATE_SPEC_ALIAS_PATTERN, file_path)
             if not m:  # pragma: no cover
                 raise ValueError(f"Template spec alias is invalid: {file_path}")
 
-- 
2.43.0


From dda5483d37d19ffc4ee7dbb94705bb15e7ffc44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:34 +0000
Subject: [PATCH 33/38] fix: end block comments within line breaks at their
 first end mark

---
 pycep/bicep.lark | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index a6da23c..9eb4a95 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -194,8 +194,8 @@ LIST_FUNC_NAME.2: /(?=([Ll]ist[A-Za-z]*|getSecret)\()([A-Za-z]+)/
 MULTI_LINE_STRING: /'''[\s\S]*?'''/
 
 // further lines without content belong to the same line break
-_NEWLINE: /\r?\n((?:[ \t]|\/\*[\s\S]*?\*\/|#[^\n]*)*\r?\n)*/
-_CPP_COMMENT_NL: /(?:\/\/[^\n]*|\r?\n)((?:[ \t]|\/\*[\s\S]*?\*\/|#[^\n]*)*(?:\/\/[^\n]*|\r?\n))*/
+_NEWLINE: /\r?\n((?:[ \t]|\/\*(?:[^*]|\*(?!\/))*\*\/|#[^\n]*)*\r?\n)*/
+_CPP_COMMENT_NL: /(?:\/\/[^\n]*|\r?\n)((?:[ \t]|\/\*(?:[^*]|\*(?!\/))*\*\/|#[^\n]*)*(?:\/\/[^\n]*|\r?\n))*/
 
 %import common.C_COMMENT
 %import common.SH_COMMENT
-- 
2.43.0


From cda33efc2857dcfba8c9eee285fac5adb0fec5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:57 +0000
Subject: [PATCH 34/38] fix: reject lambda variables, which are not names

---
 pycep/transformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 285e17c..968d4c8 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -929,6 +929,10 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
     def lambda_expression(self, args: tuple[pycep_typing.PossibleValue, ...]) -> pycep_typing.LambdaExpression:
         arg_1, *arg_x, expr = args
 
+        for arg in (arg_1, *arg_x):
+            if not isinstance(arg, BicepElement):
+                raise ValueError(f"Lambda variable is invalid: {arg}")
+
         return {
             "type": "lambda_expression",
             "detail": {
-- 
2.43.0


From 41488e9e67268c8ceda58b8689ec30e855d691a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:24 +0000
Subject: [PATCH 35/38] fix: keep the line ends of a file, as it is done for a
 given text

---
 pycep/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycep/main.py b/pycep/main.py
index 09a3b5c..4699b09 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -39,7 +39,8 @@ class BicepParser:
         if text is not None:
             bicep_text = text
         elif file_path is not None:
-            bicep_text = file_path.read_text(encoding="utf-8")
+            # keeps the line ends as they are, the same way as for a given text
+            bicep_text = file_path.read_bytes().decode("utf-8")
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
 
-- 
2.43.0


From 7a028b1e0f16d599b0cc56e8734460a7baaaead0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:26 +0000
Subject: [PATCH 36/38] fix: reject strings with an unclosed interpolation in
 linear time

---
 pycep/bicep.lark   | 2 +-
 pycep/validator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 9eb4a95..e574219 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -186,7 +186,7 @@ STRING: /(?!(sys|az)\.\w+\()[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
 // an interpolation can contain strings, objects and therefore further interpolations
-QUOTED_INTERPOLATION: /(?!''')'(?:\$\{(?P<_expr>(?:[^'{}]++|\{(?&_expr)\}|'(?:\$\{(?&_expr)\}|\\[\s\S]|(?!\$\{)[^'\\])*+')*+)\}|\\[\s\S]|[^'\\])*+'/
+QUOTED_INTERPOLATION: /(?!''')'(?:\$\{(?P<_expr>(?:[^'{}]++|\{(?&_expr)\}|'(?:\$\{(?&_expr)\}|\\[\s\S]|(?!\$\{)[^'\\])*+')*+)\}|\\[\s\S]|(?!\$\{)[^'\\])*+'/
 _LOOP_IF.2: /if[ \t]*\(/
 _LOOP_ITEMS.2: /items[ \t]+\(/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-Za-z]*|getSecret)\()([A-Za-z]+)/
diff --git a/pycep/validator.py b/pycep/validator.py
index a025d03..4bf4eeb 100644
--- a/pycep/validator.py
+++ b/pycep/validator.py
@@ -7,7 +7,7 @@ UNCLOSED_MULTI_LINE_STRING_PATTERN = regex.compile(
     (?:
         //[^\n]*+ | \#[^\n]*+ | /\*.*?(?:\*/|\Z)              # comments
       | '''.*?'''                                            # multi-line strings
-      | (?!''')'(?:\$\{(?P<expr>(?:[^'{}]++|\{(?&expr)\}|'(?:\$\{(?&expr)\}|\\.|(?!\$\{)[^'\\])*+')*+)\}|\\.|[^'])*+(?:'|\Z)
+      | (?!''')'(?:\$\{(?P<expr>(?:[^'{}]++|\{(?&expr)\}|'(?:\$\{(?&expr)\}|\\.|(?!\$\{)[^'\\])*+')*+)\}|\\.|(?!\$\{)[^'\\])*+'
       | [^']
     )*+
     '''
-- 
2.43.0


From 7c0a18cf9d570c1d5d6e38a294f897e2fed0bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:38 +0000
Subject: [PATCH 37/38] fix: tokenize lines of number signs in linear time

---
 pycep/bicep.lark | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index e574219..e2143b7 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -194,8 +194,8 @@ LIST_FUNC_NAME.2: /(?=([Ll]ist[A-Za-z]*|getSecret)\()([A-Za-z]+)/
 MULTI_LINE_STRING: /'''[\s\S]*?'''/
 
 // further lines without content belong to the same line break
-_NEWLINE: /\r?\n((?:[ \t]|\/\*(?:[^*]|\*(?!\/))*\*\/|#[^\n]*)*\r?\n)*/
-_CPP_COMMENT_NL: /(?:\/\/[^\n]*|\r?\n)((?:[ \t]|\/\*(?:[^*]|\*(?!\/))*\*\/|#[^\n]*)*(?:\/\/[^\n]*|\r?\n))*/
+_NEWLINE: /\r?\n((?:[ \t]|\/\*(?:[^*]|\*(?!\/))*\*\/|#[^\n]*+)*\r?\n)*/
+_CPP_COMMENT_NL: /(?:\/\/[^\n]*|\r?\n)((?:[ \t]|\/\*(?:[^*]|\*(?!\/))*\*\/|#[^\n]*+)*(?:\/\/[^\n]*|\r?\n))*/
 
 %import common.C_COMMENT
 %import common.SH_COMMENT
-- 
2.43.0


From bb59a29751ae9ab132abe8ad88092ef0cf8d916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:29 +0000
Subject: [PATCH 38/38] fix: accept a resource property named like the marker
 of child resources

---
 pycep/transformer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 968d4c8..faa7503 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -297,7 +297,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
     @v_args(meta=True)
     def child_resource(
         self, meta: Meta, args: tuple[Token, Token, Token | None, dict[str, Any]]
-    ) -> tuple[Literal["__child_resource__"], pycep_typing.Resource]:
+    ) -> tuple[Literal["@child_resource"], pycep_typing.Resource]:
         name, type_name, existing, config = args
 
         result: pycep_typing.Resource = {
@@ -315,7 +315,8 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             result["__attrs__"]["__start_line__"] = meta.line
             result["__attrs__"]["__end_line__"] = meta.end_line
 
-        return "__child_resource__", result
+        # not a valid property name, therefore it can't clash with an actual one
+        return "@child_resource", result
 
     @v_args(meta=True)
     def module(
@@ -958,8 +959,8 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
         # the actual resource body of a loop or deploy condition is one level deeper
         body = config.get("config") if config.keys() <= WRAPPER_KEYS else config
 
-        if isinstance(body, dict) and "__child_resource__" in body:
-            child_resource = body.pop("__child_resource__")
+        if isinstance(body, dict) and "@child_resource" in body:
+            child_resource = body.pop("@child_resource")
 
             # prefix the resource name with the parent to prevent overlap
             child_resource["__name__"] = f"{parent_resource_name}__{child_resource['__name__']}"
-- 
2.43.0

