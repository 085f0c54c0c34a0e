From 3ea1bb41d8c0568fa89cf5d6602b12456279d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:36 +0000
Subject: [PATCH 01/91] fix: keywords no longer swallow the beginning of longer
 identifiers

---
 ts2python.ebnf     | 33 ++++++++++++++++++++-------------
 ts2pythonParser.py | 34 +++++++++++++++++++---------------
 2 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index 6c2985b..ee50dd8 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -17,9 +17,11 @@
 @ reduction   = merge_treetops  # anonymous nodes are being reduced where possible
 @ disposable  = INT, NEG, FRAC, DOT, EXP, EOF,
                 _array_ellipsis, _top_level_assignment, _top_level_literal,
-                _quoted_identifier, _namespace, _part
+                _quoted_identifier, _namespace, _part,
+                _let_var, _export, _function, _readonly
 @ drop        = whitespace, no_comments, strings, EOF,
-                _array_ellipsis, _top_level_assignment, _top_level_literal
+                _array_ellipsis, _top_level_assignment, _top_level_literal,
+                _let_var, _export, _function, _readonly
 
 
 #######################################################################
@@ -71,13 +73,13 @@ extends     = ("extends" | "implements")
 
 declarations_block = "{" [(function|declaration) { [";"|","] (function|declaration) }
                           [";" map_signature] [";"|","]] "}"
-declaration = qualifiers ["let"|"var"] identifier [optional] !`(` [":" types]
+declaration = qualifiers [_let_var] identifier [optional] !`(` [":" types]
 
 
 # @function_resume = /(?=;)/
 
-function    = [["export"] [static]
-               ["function"] identifier [optional] [type_parameters]]
+function    = [[_export] [static]
+               [_function] identifier [optional] [type_parameters]]
               "(" §[arg_list] ")" [":" types]
             | special
   arg_list  = (argument { "," argument } ["," arg_tail] | arg_tail) [","]
@@ -87,8 +89,13 @@ special     = "[" name "]" "(" §[arg_list] ")" [":" types]
 
 
 qualifiers  = [readonly] ° [static]
-readonly    = "readonly"
-static      = "static"
+# modifiers must neither be taken for the beginning of a longer name nor for a name
+readonly    = `readonly` !/\w/ ~ !/[?:(;,}\s\/]/
+static      = `static` !/\w/ ~ !/[?:(;,}<\s\/]/
+_let_var    = (`let` | `var`) !/\w/ ~ !/[?:(;,}\s\/]/
+_export     = `export` !/\w/ ~ !/[?(<\s\/]/
+_function   = `function` !/\w/ ~ !/[?(<\s\/]/
+_readonly   = `readonly` !/\w/ ~
 
 optional    = "?"
 
@@ -102,7 +109,7 @@ type_alias  = ["export"] "type" §identifier [type_parameters] "=" types ";"
 
 types       = ["|"] (intersection | type) { "|" (intersection | type) }
 intersection = type { "&" §type }+
-type        = ["readonly"]
+type        = [_readonly]
             ( array_of | basic_type | generic_type | indexed_type
             | type_name !`(` | "(" types ")" | mapped_type
             | declarations_block | type_tuple | declarations_tuple
@@ -111,7 +118,7 @@ type        = ["readonly"]
 generic_type = type_name type_parameters
   type_parameters = "<" §parameter_types { "," parameter_types } ">"
   parameter_types = ["|"] parameter_type  { "|" parameter_type }
-  parameter_type  = [ "readonly" ]
+  parameter_type  = [_readonly]
                   ( array_of | basic_type | generic_type     # actually, only a subset of array_of
                   | indexed_type | type_name [extends_type] [equals_type]
                   | declarations_block | type_tuple | declarations_tuple )
@@ -186,7 +193,7 @@ _top_level_literal = literal
 literal    = integer | number | boolean | string | array | object
 integer    = INT !/[.Ee]/ ~
 number     = INT FRAC EXP ~
-boolean    = (`true` | `false`) ~
+boolean    = (`true` | `false`) !/\w/ ~
 string     = /"[^"\n]*"/~ | /'[^'\n]*'/~
 array      = "[" [ literal { "," literal } ] "]"
 object     = "{" [ association { "," association } ] [","] "}"
@@ -200,7 +207,7 @@ object     = "{" [ association { "," association } ] [","] "}"
 #######################################################################
 
 basic_type   = (`object` | `array` | `string` | `number` | `boolean` | `null`
-               | `integer` | `uinteger` | `decimal` | `unknown` | `any` | `void`) ~
+               | `integer` | `uinteger` | `decimal` | `unknown` | `any` | `void`) !/\w/ ~
 
 #######################################################################
 #
@@ -210,8 +217,8 @@ basic_type   = (`object` | `array` | `string` | `number` | `boolean` | `null`
 
 variable   = name
 _quoted_identifier = identifier | '"' identifier §'"' | "'" identifier §"'"
-name       = !(`true`|`false`) _part {`.` _part} ~
-identifier = !(`true`|`false`) _part ~
+name       = !/(?:true|false)(?!\w)/ _part {`.` _part} ~
+identifier = !/(?:true|false)(?!\w)/ _part ~
   _part    = /(?!\d)\w+/
 INT         = [NEG] ( /[1-9][0-9]+/ | /[0-9]/ )
 NEG         = `-`
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index e0f7c70..922d9dc 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -138,9 +138,9 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "7bde6345f03305114d11de968cd6e5df"
+    source_hash__ = "81baadb0aeae9b91c11e47c23cff9595"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
-    disposable__ = re.compile('(?:_top_level_assignment$|_namespace$|EOF$|_quoted_identifier$|_array_ellipsis$|_top_level_literal$|FRAC$|INT$|DOT$|EXP$|_part$|NEG$)')
+    disposable__ = re.compile('(?:DOT$|EOF$|_array_ellipsis$|_function$|INT$|_top_level_assignment$|FRAC$|NEG$|_quoted_identifier$|_namespace$|_part$|EXP$|_top_level_literal$|_let_var$|_export$|_readonly$)')
     static_analysis_pending__ = []  # type: List[bool]
     parser_initialization__ = ["upon instantiation"]
     COMMENT__ = r'(?://.*)\n?|(?:/\*(?:.|\n)*?\*/) *\n?'
@@ -156,17 +156,17 @@ class ts2pythonGrammar(Grammar):
     NEG = Text("-")
     INT = Series(Option(NEG), SmartRE(f'([1-9][0-9]+|[0-9])', '/[1-9][0-9]+/|/[0-9]/'))
     _part = RegExp('(?!\\d)\\w+')
-    identifier = Series(SmartRE(f'(?!true|false)', '!`true`|`false`'), _part, dwsp__)
-    name = Series(SmartRE(f'(?!true|false)', '!`true`|`false`'), _part, ZeroOrMore(Series(Text("."), _part)), dwsp__)
+    identifier = Series(SmartRE(f'(?!(?:true|false)(?!\\w))', '!/(?:true|false)(?!\\w)/'), _part, dwsp__)
+    name = Series(SmartRE(f'(?!(?:true|false)(?!\\w))', '!/(?:true|false)(?!\\w)/'), _part, ZeroOrMore(Series(Text("."), _part)), dwsp__)
     _quoted_identifier = Alternative(identifier, Series(Series(Drop(Text('"')), dwsp__), identifier, Series(Drop(Text('"')), dwsp__), mandatory=2), Series(Series(Drop(Text("\'")), dwsp__), identifier, Series(Drop(Text("\'")), dwsp__), mandatory=2))
     variable = Synonym(name)
-    basic_type = SmartRE(f'(?P<:Text>object|array|string|number|boolean|null|integer|uinteger|decimal|unknown|any|void)(?P<comment__>{WSP_RE__})', '`object`|`array`|`string`|`number`|`boolean`|`null`|`integer`|`uinteger`|`decimal`|`unknown`|`any`|`void` ~')
+    basic_type = SmartRE(f'(?P<:Text>object|array|string|number|boolean|null|integer|uinteger|decimal|unknown|any|void)(?!\\w)(?P<comment__>{WSP_RE__})', '`object`|`array`|`string`|`number`|`boolean`|`null`|`integer`|`uinteger`|`decimal`|`unknown`|`any`|`void` !/\\w/ ~')
     key = Alternative(identifier, Series(Series(Drop(Text('"')), dwsp__), identifier, Series(Drop(Text('"')), dwsp__)))
     association = Series(key, Series(Drop(Text(":")), dwsp__), literal, mandatory=1)
     object = Series(Series(Drop(Text("{")), dwsp__), Option(Series(association, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), association)))), Option(Series(Drop(Text(",")), dwsp__)), Series(Drop(Text("}")), dwsp__))
     array = Series(Series(Drop(Text("[")), dwsp__), Option(Series(literal, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), literal)))), Series(Drop(Text("]")), dwsp__))
     string = SmartRE(f'("[^"\\n]*")(?P<comment__>{WSP_RE__})|(\'[^\'\\n]*\')(?P<comment__>{WSP_RE__})', '/"[^"\\n]*"/ ~|/\'[^\'\\n]*\'/ ~')
-    boolean = SmartRE(f'(?P<:Text>true|false)(?P<comment__>{WSP_RE__})', '`true`|`false` ~')
+    boolean = SmartRE(f'(?P<:Text>true|false)(?!\\w)(?P<comment__>{WSP_RE__})', '`true`|`false` !/\\w/ ~')
     number = Series(INT, FRAC, EXP, dwsp__)
     integer = Series(INT, SmartRE(f'(?![.Ee])', '!/[.Ee]/'), dwsp__)
     type_name = Synonym(name)
@@ -177,15 +177,15 @@ class ts2pythonGrammar(Grammar):
     const = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("const")), dwsp__), declaration, Option(Series(Series(Drop(Text("=")), dwsp__), Alternative(literal, identifier))), Series(Drop(Text(";")), dwsp__), mandatory=2)
     item = Series(_quoted_identifier, Option(Series(Series(Drop(Text("=")), dwsp__), literal)))
     enum = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("enum")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), item, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), item)), Option(Series(Drop(Text(",")), dwsp__)), Series(Drop(Text("}")), dwsp__), mandatory=3)
-    keyof = Series(Text("keyof"), dwsp__)
-    readonly = Series(Text("readonly"), dwsp__)
+    readonly = SmartRE(f'(?P<:Text>readonly)(?!\\w)(?P<comment__>{WSP_RE__})(?![?:(;,}}\\s/])', '`readonly` !/\\w/ ~ !/[?:(;,}\\s\\/]/')
+    _readonly = Drop(SmartRE(f'(?P<:Text>readonly)(?!\\w)(?P<comment__>{WSP_RE__})', '`readonly` !/\\w/ ~'))
     optional = Series(Text("?"), dwsp__)
     func_type = Series(Option(Series(Drop(Text("new")), dwsp__)), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Series(Drop(Text("=>")), dwsp__), types)
     extends = Series(SmartRE(f'(?:extends)(?P<comment__>{WSP_RE__})|(?:implements)(?P<comment__>{WSP_RE__})', '"extends"|"implements"'), Alternative(generic_type, type_name), ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), Alternative(generic_type, type_name))))
+    keyof = Series(Text("keyof"), dwsp__)
     index_signature = Series(Option(readonly), Series(Drop(Text("[")), dwsp__), identifier, Alternative(Series(Drop(Text(":")), dwsp__), Series(Option(Series(Drop(Text("in")), dwsp__)), keyof), Series(Drop(Text("in")), dwsp__)), type, Series(Drop(Text("]")), dwsp__), Option(optional))
     map_signature = Series(index_signature, Series(Drop(Text(":")), dwsp__), types)
     mapped_type = Series(Series(Drop(Text("{")), dwsp__), map_signature, Option(Series(Drop(Text(";")), dwsp__)), Series(Drop(Text("}")), dwsp__))
-    extends_type = Series(Series(Drop(Text("extends")), dwsp__), Option(keyof), Alternative(basic_type, type_name, mapped_type))
     declarations_tuple = Series(Series(Drop(Text("[")), dwsp__), declaration, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), declaration)), Series(Drop(Text("]")), dwsp__))
     type_tuple = Series(Series(Drop(Text("[")), dwsp__), types, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), types)), Series(Drop(Text("]")), dwsp__))
     indexed_type = Series(type_name, Series(Drop(Text("[")), dwsp__), Alternative(type_name, literal), Series(Drop(Text("]")), dwsp__))
@@ -193,17 +193,21 @@ class ts2pythonGrammar(Grammar):
     array_types = Synonym(array_type)
     array_of = Series(array_types, Series(Drop(Text("[]")), dwsp__))
     equals_type = Series(Series(Drop(Text("=")), dwsp__), Alternative(basic_type, type_name))
-    parameter_type = Series(Option(Series(Drop(Text("readonly")), dwsp__)), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, Option(extends_type), Option(equals_type)), declarations_block, type_tuple, declarations_tuple))
+    extends_type = Series(Series(Drop(Text("extends")), dwsp__), Option(keyof), Alternative(basic_type, type_name, mapped_type))
+    parameter_type = Series(Option(_readonly), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, Option(extends_type), Option(equals_type)), declarations_block, type_tuple, declarations_tuple))
     parameter_types = Series(Option(Series(Drop(Text("|")), dwsp__)), parameter_type, ZeroOrMore(Series(Series(Drop(Text("|")), dwsp__), parameter_type)))
     type_parameters = Series(Series(Drop(Text("<")), dwsp__), parameter_types, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), parameter_types)), Series(Drop(Text(">")), dwsp__), mandatory=1)
     interface = Series(Option(Series(Drop(Text("export")), dwsp__)), Option(Series(Drop(Text("declare")), dwsp__)), SmartRE(f'(?:interface)(?P<comment__>{WSP_RE__})|(?:class)(?P<comment__>{WSP_RE__})', '"interface"|"class"'), identifier, Option(type_parameters), Option(extends), declarations_block, Option(Series(Drop(Text(";")), dwsp__)), mandatory=3)
-    type_alias = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("type")), dwsp__), identifier, Option(type_parameters), Series(Drop(Text("=")), dwsp__), types, Series(Drop(Text(";")), dwsp__), mandatory=2)
     wildcard = Series(Text("*"), dwsp__)
     intersection = Series(type, OneOrMore(Series(Series(Drop(Text("&")), dwsp__), type, mandatory=1)))
     alias = Synonym(identifier)
+    type_alias = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("type")), dwsp__), identifier, Option(type_parameters), Series(Drop(Text("=")), dwsp__), types, Series(Drop(Text(";")), dwsp__), mandatory=2)
     namespace = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("namespace")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(Option(Series(Drop(Text("export")), dwsp__)), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(Series(Drop(Text("export")), dwsp__)), function, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__), mandatory=2)
     virtual_enum = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("namespace")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(declaration, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__))
-    static = Series(Text("static"), dwsp__)
+    _function = Drop(SmartRE(f'(?P<:Text>function)(?!\\w)(?P<comment__>{WSP_RE__})(?![?(<\\s/])', '`function` !/\\w/ ~ !/[?(<\\s\\/]/'))
+    _export = Drop(SmartRE(f'(?P<:Text>export)(?!\\w)(?P<comment__>{WSP_RE__})(?![?(<\\s/])', '`export` !/\\w/ ~ !/[?(<\\s\\/]/'))
+    _let_var = Drop(SmartRE(f'(?P<:Text>let|var)(?!\\w)(?P<comment__>{WSP_RE__})(?![?:(;,}}\\s/])', '`let`|`var` !/\\w/ ~ !/[?:(;,}\\s\\/]/'))
+    static = SmartRE(f'(?P<:Text>static)(?!\\w)(?P<comment__>{WSP_RE__})(?![?:(;,}}<\\s/])', '`static` !/\\w/ ~ !/[?:(;,}<\\s\\/]/')
     _namespace = Alternative(virtual_enum, namespace)
     qualifiers = Interleave(readonly, static, repetitions=[(0, 1), (0, 1)])
     special = Series(Series(Drop(Text("[")), dwsp__), name, Series(Drop(Text("]")), dwsp__), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=4)
@@ -215,11 +219,11 @@ class ts2pythonGrammar(Grammar):
     module = Series(Series(Drop(Text("declare")), dwsp__), Series(Drop(Text("module")), dwsp__), _quoted_identifier, Series(Drop(Text("{")), dwsp__), document, Series(Drop(Text("}")), dwsp__))
     literal.set(Alternative(integer, number, boolean, string, array, object))
     generic_type.set(Series(type_name, type_parameters))
-    type.set(Series(Option(Series(Drop(Text("readonly")), dwsp__)), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, NegativeLookahead(Text("("))), Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__)), mapped_type, declarations_block, type_tuple, declarations_tuple, literal, func_type)))
+    type.set(Series(Option(_readonly), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, NegativeLookahead(Text("("))), Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__)), mapped_type, declarations_block, type_tuple, declarations_tuple, literal, func_type)))
     types.set(Series(Option(Series(Drop(Text("|")), dwsp__)), Alternative(intersection, type), ZeroOrMore(Series(Series(Drop(Text("|")), dwsp__), Alternative(intersection, type)))))
     arg_list.set(Series(Alternative(Series(argument, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), argument)), Option(Series(Series(Drop(Text(",")), dwsp__), arg_tail))), arg_tail), Option(Series(Drop(Text(",")), dwsp__))))
-    function.set(Alternative(Series(Option(Series(Option(Series(Drop(Text("export")), dwsp__)), Option(static), Option(Series(Drop(Text("function")), dwsp__)), identifier, Option(optional), Option(type_parameters))), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=2), special))
-    declaration.set(Series(qualifiers, Option(SmartRE(f'(?:let)(?P<comment__>{WSP_RE__})|(?:var)(?P<comment__>{WSP_RE__})', '"let"|"var"')), identifier, Option(optional), NegativeLookahead(Text("(")), Option(Series(Series(Drop(Text(":")), dwsp__), types))))
+    function.set(Alternative(Series(Option(Series(Option(_export), Option(static), Option(_function), identifier, Option(optional), Option(type_parameters))), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=2), special))
+    declaration.set(Series(qualifiers, Option(_let_var), identifier, Option(optional), NegativeLookahead(Text("(")), Option(Series(Series(Drop(Text(":")), dwsp__), types))))
     declarations_block.set(Series(Series(Drop(Text("{")), dwsp__), Option(Series(Alternative(function, declaration), ZeroOrMore(Series(Option(SmartRE(f'(?:;)(?P<comment__>{WSP_RE__})|(?:,)(?P<comment__>{WSP_RE__})', '";"|","')), Alternative(function, declaration))), Option(Series(Series(Drop(Text(";")), dwsp__), map_signature)), Option(SmartRE(f'(?:;)(?P<comment__>{WSP_RE__})|(?:,)(?P<comment__>{WSP_RE__})', '";"|","')))), Series(Drop(Text("}")), dwsp__)))
     document.set(Series(dwsp__, ZeroOrMore(Alternative(interface, type_alias, _namespace, enum, const, module, _top_level_assignment, _array_ellipsis, _top_level_literal, Series(Option(Series(Drop(Text("export")), dwsp__)), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(Series(Drop(Text("export")), dwsp__)), function, Series(Drop(Text(";")), dwsp__)), Series(Import, Series(Drop(Text(";")), dwsp__))))))
     root = Series(document, EOF)
-- 
2.43.0


From 15911c654a05741245008bda4eeb13c991db91e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:36 +0000
Subject: [PATCH 02/91] fix: non-integer number literal types are floats, not
 strings

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 922d9dc..fef167f 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -990,7 +990,7 @@ class ts2pythonCompiler(Compiler):
                     _ = int(literal)
                     return 'int'
                 except ValueError:
-                    return 'str'
+                    return 'float'
             elif literal_typ == 'boolean':
                 return 'bool'
             else:
-- 
2.43.0


From b54e76d74844cf06fef9e7f4dce4b519e5d37a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:36 +0000
Subject: [PATCH 03/91] fix: generated code imports the enum module that
 enum.auto() needs

---
 ts2pythonParser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index fef167f..9c5a4b2 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -318,6 +318,7 @@ def source_hash(source_text: str) -> str:
 
 
 GENERAL_IMPORTS = """
+import enum
 import sys
 from enum import Enum, IntEnum
 if sys.version_info >= (3, 9, 0):
-- 
2.43.0


From 858207a6eb28ea2f710918f227c6f8539b610baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:02 +0000
Subject: [PATCH 04/91] fix: anonymous interfaces are no longer recognized by
 the text of rendered types

Type names starting with "class" and class decorators were mistaken or
not recognized; field names inside anonymous interfaces were quoted if they
equalled the name of a forward-referenced type.
---
 ts2pythonParser.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 9c5a4b2..9420764 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -766,10 +766,7 @@ class ts2pythonCompiler(Compiler):
         self.obj_name.append(to_typename(identifier))
         T = self.compile_type_expression(node, node['types']) \
             if 'types' in node else 'Any'
-        typename = self.obj_name.pop()
-        if T[0:5] == 'class':
-            self.local_classes[-1].append(T)
-            T = typename  # substitute typename for type
+        self.obj_name.pop()
         if 'optional' in node:
             self.optional_keys[-1].append(identifier)
             if self.use_not_required:
@@ -917,15 +914,6 @@ class ts2pythonCompiler(Compiler):
                 union.append(typ)
                 i += 1
             self.obj_name[-1] = obj_name_stub
-        for i in range(len(union)):
-            typ = union[i]
-            if typ[0:5] == 'class':
-                k = typ.rfind('\nclass')
-                m = re.match(r"class\s*(\w+)[\w(){},' =]*\s*:", typ[k + 1:])
-                assert m, typ
-                cname = m.group(1)
-                self.local_classes[-1].append(typ)
-                union[i] = cname
         if self.is_toplevel():
             preface = self.render_local_classes()
         else:
@@ -951,6 +939,15 @@ class ts2pythonCompiler(Compiler):
         else:
             return self.render_union(preface, union)
 
+    def claim_class_name(self) -> str:
+        """Returns the name of the class that is going to be rendered for an
+        anonymous interface or '', if no class will be rendered at all."""
+        if self.base_class_name != "TypedDict" or self.render_anonymous == "local":
+            return self.obj_name[-1]
+        elif self.render_anonymous == "toplevel":
+            return '_'.join(self.obj_name[1:])
+        return ''
+
     def render_declarations(self, decls) -> str:
         if self.base_class_name != "TypedDict" or self.render_anonymous == "local":
             return ''.join([self.render_class_header(self.obj_name[-1], '') + "    ",
@@ -970,12 +967,16 @@ class ts2pythonCompiler(Compiler):
         assert len(node.children) == 1
         typ = node[0]
         if typ.name in ('declarations_block', 'declarations_tuple'):
+            class_name = self.claim_class_name()
             self.local_classes.append([])
             self.optional_keys.append([])
             decls = self.compile(typ)
             result = self.render_declarations(decls)
             self.optional_keys.pop()
             self.local_classes.pop()
+            if class_name:  # add class-definition to local classes and return just its name
+                self.local_classes[-1].append(result)
+                return class_name
             return result
         elif typ.name == 'literal':
             literal_typ = typ[0].name
-- 
2.43.0


From bb9f37a3d7f86c6ab72d67cb25e2e32829b93f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:04 +0000
Subject: [PATCH 05/91] fix: different anonymous interfaces never share a class
 name

---
 ts2pythonParser.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 9420764..bff434b 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -484,6 +484,11 @@ class ts2pythonCompiler(Compiler):
         self.obj_name: List[str] = ['TOPLEVEL_']
         self.scope_type: List[str] = ['']
         self.optional_keys: List[List[str]] = [[]]
+        self.toplevel_names: Set[str] = set()  # names of all toplevel-definitions
+        # names of the classes rendered for anonymous interfaces, by scope
+        self.toplevel_class_names: Set[str] = set()
+        self.class_names: Dict[int, Tuple[List[str], Set[str]]] = \
+            {id(self.local_classes[0]): (self.local_classes[0], self.toplevel_class_names)}
         self.func_name: str = ''  # name of the current functions header or ''
         self.strip_type_from_const = False
 
@@ -515,6 +520,9 @@ class ts2pythonCompiler(Compiler):
         type_aliases = {nd['identifier'].content for nd in root.select_children('type_alias')}
         namespaces = {nd['identifier'].content for nd in root.select_children('namespace')}
         self.overloaded_type_names = type_aliases & namespaces
+        document = root['document'] if 'document' in root else root
+        self.toplevel_names = {nd['identifier'].content for nd in document.children
+                               if 'identifier' in nd}
         self.tree.stage = 'py'
         return None
 
@@ -719,6 +727,9 @@ class ts2pythonCompiler(Compiler):
                 self.add_to_known_types(node, alias, 'type_alias')
             self.local_classes.append([])
             self.optional_keys.append([])
+            # local classes of type aliases are rendered on the toplevel
+            self.class_names[id(self.local_classes[-1])] = \
+                (self.local_classes[-1], self.toplevel_class_names)
             types = self.compile(node['types'])
             preface += self.render_local_classes()
             self.optional_keys.pop()
@@ -940,13 +951,25 @@ class ts2pythonCompiler(Compiler):
             return self.render_union(preface, union)
 
     def claim_class_name(self) -> str:
-        """Returns the name of the class that is going to be rendered for an
-        anonymous interface or '', if no class will be rendered at all."""
+        """Ensures that the class that is going to be rendered for an anonymous
+        interface does not have the same name as any other class in its scope.
+        Returns the class' name or '', if no class will be rendered at all."""
         if self.base_class_name != "TypedDict" or self.render_anonymous == "local":
-            return self.obj_name[-1]
+            scope, path = self.local_classes[-1], []
         elif self.render_anonymous == "toplevel":
-            return '_'.join(self.obj_name[1:])
-        return ''
+            scope, path = self.local_classes[0], self.obj_name[1:-1]
+        else:
+            return ''
+        stub, _, ending = self.obj_name[-1].rpartition('_')
+        used = self.class_names.setdefault(id(scope), (scope, set()))[1]
+        i = int(ending) if ending.isdecimal() else None
+        while True:
+            class_name = '_'.join(path + [self.obj_name[-1]])
+            if class_name not in used and class_name not in self.toplevel_names:
+                used.add(class_name)
+                return class_name
+            i = 0 if i is None else i + 1
+            self.obj_name[-1] = f"{stub}_{i}"
 
     def render_declarations(self, decls) -> str:
         if self.base_class_name != "TypedDict" or self.render_anonymous == "local":
-- 
2.43.0


From 7bfa953738e515bb3daa5563e4cc3863814fde95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:52 +0000
Subject: [PATCH 06/91] fix: names inside string literals are not taken for
 forward references

---
 ts2pythonParser.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index bff434b..e283237 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -436,6 +436,9 @@ TYPE_NAME_SUBSTITUTION = {
     'RegExp': 'str' }
 
 
+RX_STRING = r"""(?:"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*')"""  # Python string
+
+
 class ts2pythonCompiler(Compiler):
     """Compiler for the abstract-syntax-tree of a ts2python source file.
     """
@@ -1239,13 +1242,13 @@ class ts2pythonCompiler(Compiler):
         unknown_types = set(tn.content for tn in node.select('type_name')
                             if not self.is_known_type(tn.content))
         type_expression = self.compile(type_node)
-        for typ in unknown_types:
-            rx = re.compile(r"(?:(?<=[^\w'])|^)" + typ + r"(?:(?=[^\w'])|$)")
-            segments = type_expression.split("'")
-            for i in range(0, len(segments), 2):
-                segments[i] = rx.sub(f"'{typ}'", segments[i])
-            type_expression = "'".join(segments)
-            # type_expression = rx.sub(f"'{typ}'", type_expression)
+        if unknown_types:
+            # names inside of strings, i.e. literals or forward references that
+            # have already been quoted, must be left untouched
+            names = '|'.join(re.escape(typ) for typ in unknown_types)
+            rx = re.compile(RX_STRING + r"|(?<![\w.])(?P<name>" + names + r")(?![\w.])")
+            type_expression = rx.sub(
+                lambda m: f"'{m['name']}'" if m['name'] else m[0], type_expression)
         if type_expression[0:1] == "'":
             type_expression = ''.join(["'", type_expression.replace("'", ""), "'"])
         return type_expression
-- 
2.43.0


From f1900b610c643231551cfc31e2d75ae64d71e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:58 +0000
Subject: [PATCH 07/91] fix: forward references to types named like a Python
 keyword are quoted

---
 ts2pythonParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index e283237..d887517 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1239,8 +1239,8 @@ class ts2pythonCompiler(Compiler):
         return TYPE_NAME_SUBSTITUTION.get(name, name)
 
     def compile_type_expression(self, node, type_node) -> str:
-        unknown_types = set(tn.content for tn in node.select('type_name')
-                            if not self.is_known_type(tn.content))
+        type_names = set(self.compile(tn['name']) for tn in node.select('type_name'))
+        unknown_types = set(name for name in type_names if not self.is_known_type(name))
         type_expression = self.compile(type_node)
         if unknown_types:
             # names inside of strings, i.e. literals or forward references that
-- 
2.43.0


From 36aef06fbdfbee9544e61377b172d14bc12bf605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:08 +0000
Subject: [PATCH 08/91] fix: string literals are not confused with forward
 references in unions

---
 ts2pythonParser.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index d887517..ebdfbbd 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -909,7 +909,7 @@ class ts2pythonCompiler(Compiler):
             return preface + f"Union[{', '.join(union)}]"
 
     def on_types(self, node) -> str:
-        union = []
+        alternatives = []
         i = 0
 
         obj_name_stub = self.obj_name[-1]
@@ -924,29 +924,31 @@ class ts2pythonCompiler(Compiler):
             self.func_name = ""
             typ = self.compile_type_expression(node, nd)
             self.func_name = save
-            if typ not in union:
-                union.append(typ)
+            # a string-literal is not the same as a forward reference of that name
+            is_literal = self.use_literal_type and nd[0].name == 'literal'
+            if (typ, is_literal) not in alternatives:
+                alternatives.append((typ, is_literal))
                 i += 1
             self.obj_name[-1] = obj_name_stub
+        union = [typ for typ, _ in alternatives]
         if self.is_toplevel():
             preface = self.render_local_classes()
         else:
             preface = ''
-        if self.use_literal_type and \
-                any(nd[0].name == 'literal' for nd in node.children):
-            if all(nd[0].name == 'literal' for nd in node.children):
+        if any(is_literal for _, is_literal in alternatives):
+            if all(is_literal for _, is_literal in alternatives):
                 return f"Literal[{', '.join(typ for typ in union)}]"
                 # return f"Literal[{', '.join(nd.content for nd in node.children)}]"
             new_union = []
             literal_package = []
-            for i, nd in enumerate(node.children):
-                if nd[0].name == 'literal':
-                    literal_package.append(union[i])
+            for typ, is_literal in alternatives:
+                if is_literal:
+                    literal_package.append(typ)
                 else:
                     if literal_package:
                         new_union.append(f"Literal[{', '.join(l for l in literal_package)}]")
                         literal_package = []
-                    new_union.append(union[i])
+                    new_union.append(typ)
             if literal_package:
                 new_union.append(f"Literal[{', '.join(l for l in literal_package)}]")
             return self.render_union(preface, new_union)
-- 
2.43.0


From 8529870372433da2852b4c255572548274efd720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:29 +0000
Subject: [PATCH 09/91] fix: quoted type expressions keep their string literals

---
 ts2pythonParser.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index ebdfbbd..23acb5f 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -437,6 +437,26 @@ TYPE_NAME_SUBSTITUTION = {
 
 
 RX_STRING = r"""(?:"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*')"""  # Python string
+RX_LITERAL_TYPE = r"Literal\[(?:" + RX_STRING + r"|[^\]'\"])*\]"
+
+
+def quote_type(type_expression: str) -> str:
+    r"""Returns the type expression with all quotes of the forward references
+    it contains replaced by a single pair of quotes enclosing the whole
+    expression. String-literals inside the expression keep their quotes::
+
+        >>> print(quote_type("'Foo' | List['Bar'] | Literal['a']"))
+        'Foo | List[Bar] | Literal["a"]'
+    """
+    if re.fullmatch(RX_STRING, type_expression):  return type_expression
+
+    def unquote(m):
+        if m[0][:8] != 'Literal[':
+            return m[0][1:-1]
+        literal = m[0] if m[0].find('"') >= 0 else m[0].replace("'", '"')
+        return literal.replace('\\', '\\\\').replace("'", "\\'")
+
+    return "'" + re.sub(RX_LITERAL_TYPE + '|' + RX_STRING, unquote, type_expression) + "'"
 
 
 class ts2pythonCompiler(Compiler):
@@ -901,9 +921,7 @@ class ts2pythonCompiler(Compiler):
     def render_union(self, preface, union) -> str:
         if self.use_type_union or len(union) <= 1:
             if any(typ[0:1] in ('"', "'") for typ in union):
-                # union = [typ.strip("'").strip('"') for typ in union]
-                union = [typ.replace("'", '').replace('"', '') for typ in union]
-                return f"{preface}'{' | '.join(union)}'"
+                return preface + quote_type(' | '.join(union))
             return preface + ' | '.join(union)
         else:
             return preface + f"Union[{', '.join(union)}]"
@@ -1252,7 +1270,7 @@ class ts2pythonCompiler(Compiler):
             type_expression = rx.sub(
                 lambda m: f"'{m['name']}'" if m['name'] else m[0], type_expression)
         if type_expression[0:1] == "'":
-            type_expression = ''.join(["'", type_expression.replace("'", ""), "'"])
+            type_expression = quote_type(type_expression)
         return type_expression
 
     def on_array_of(self, node) -> str:
-- 
2.43.0


From a97c0558ed2c002e29753f1e110d4e482de56d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:25 +0000
Subject: [PATCH 10/91] fix: optional fields whose type merely contains the
 word None still admit None

---
 ts2pythonParser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 23acb5f..c61c57e 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -806,11 +806,15 @@ class ts2pythonCompiler(Compiler):
             if self.use_not_required:
                 T = f"NotRequired[{T}]"
             else:
+                alternatives = node['types'].children if 'types' in node else ()
+                nullable = any(TYPE_NAME_SUBSTITUTION.get(alternative.content, '') == 'None'
+                               for alternative in alternatives)
                 if T.startswith('Union['):
-                    if T.find('None') < 0:
+                    if not nullable:
                         T = T[:-1] + ', None]'
-                elif T.find('|') >= 0:
-                    if T.find('None') < 0:
+                elif len(alternatives) > 1 and self.use_type_union \
+                        and not T.startswith('Literal['):
+                    if not nullable:
                         if T[0:1] not in ("'", '"'):
                             T += ' | None'
                         else:
-- 
2.43.0


From 459ed2de3c23d962edc7b9ab327aca4202bd108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:25 +0000
Subject: [PATCH 11/91] fix: type unions fall back to Union[...] where "|"
 cannot be evaluated

---
 ts2pythonParser.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index c61c57e..b5e0eb3 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -512,6 +512,9 @@ class ts2pythonCompiler(Compiler):
         self.toplevel_class_names: Set[str] = set()
         self.class_names: Dict[int, Tuple[List[str], Set[str]]] = \
             {id(self.local_classes[0]): (self.local_classes[0], self.toplevel_class_names)}
+        self.nested_class_names: Set[str] = set()  # all but the toplevel class_names
+        self.pending_aliases: Set[str] = set()  # type aliases that are not yet defined
+        self.string_aliases: Set[str] = set()  # type aliases that are mere strings
         self.func_name: str = ''  # name of the current functions header or ''
         self.strip_type_from_const = False
 
@@ -546,6 +549,8 @@ class ts2pythonCompiler(Compiler):
         document = root['document'] if 'document' in root else root
         self.toplevel_names = {nd['identifier'].content for nd in document.children
                                if 'identifier' in nd}
+        self.pending_aliases = {nd['identifier'].content
+                                for nd in document.select_children('type_alias')}
         self.tree.stage = 'py'
         return None
 
@@ -757,6 +762,9 @@ class ts2pythonCompiler(Compiler):
             preface += self.render_local_classes()
             self.optional_keys.pop()
             self.local_classes.pop()
+            if types[0:1] in ('"', "'"):
+                self.string_aliases.add(alias)
+            self.pending_aliases.discard(alias)
             code = preface + f"{alias} = {types}"
         else:
             code = ''
@@ -923,13 +931,24 @@ class ts2pythonCompiler(Compiler):
             return f'Optional[{typ}]' if node[-1].name == 'optional' else typ
 
     def render_union(self, preface, union) -> str:
-        if self.use_type_union or len(union) <= 1:
+        if len(union) <= 1 or (self.use_type_union and not self.needs_union_class(union)):
             if any(typ[0:1] in ('"', "'") for typ in union):
                 return preface + quote_type(' | '.join(union))
             return preface + ' | '.join(union)
         else:
             return preface + f"Union[{', '.join(union)}]"
 
+    def needs_union_class(self, union) -> bool:
+        """Returns True, if the alternatives cannot be connected with "|",
+        because some are strings when "|" is being evaluated, or because they
+        would have to be quoted altogether although they contain classes that
+        cannot be looked up by name in the module's global namespace."""
+        names = set(re.findall(r'[\w.]+', re.sub(RX_STRING, lambda m: m[0][1:-1], ' '.join(union))))
+        if names & self.string_aliases:
+            return True
+        return any(typ[0:1] in ('"', "'") for typ in union) \
+            and bool(names & (self.nested_class_names | self.pending_aliases))
+
     def on_types(self, node) -> str:
         alternatives = []
         i = 0
@@ -994,6 +1013,8 @@ class ts2pythonCompiler(Compiler):
             class_name = '_'.join(path + [self.obj_name[-1]])
             if class_name not in used and class_name not in self.toplevel_names:
                 used.add(class_name)
+                if used is not self.toplevel_class_names:
+                    self.nested_class_names.add(class_name)
                 return class_name
             i = 0 if i is None else i + 1
             self.obj_name[-1] = f"{stub}_{i}"
-- 
2.43.0


From b34bc1505d8b96afa67b70fd893b58ecf069d9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 12/91] fix: command line switches -k, -p 604, -p 646 and -p
 ~NNN take effect

---
 ts2pythonParser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index b5e0eb3..3476401 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1577,7 +1577,8 @@ def main():
     from DHParser.configuration import read_local_config
     read_local_config(os.path.join(scriptpath, 'ts2python/ts2pythonParser.ini'))
 
-    if args.debug or args.compatibility or args.base or args.decorator or args.peps or args.anonymous:
+    if args.debug or args.compatibility or args.base or args.decorator or args.peps \
+            or args.anonymous or args.comments:
         access_presets()
         if args.debug is not None:
             log_dir = 'LOGS'
@@ -1615,10 +1616,11 @@ def main():
                 sys.exit(1)
             for pep in args_peps:
                 kwargs= {'value': pep[0] != '~', 'allow_new_key': True}
+                pep = pep.lstrip('~')
                 if pep == '435':  set_preset_value('ts2python.UseEnum', **kwargs)
                 if pep in ('586', '584'):  set_preset_value('ts2python.UseLiteralType', **kwargs)
-                if pep == '604':  set_preset_value('ts2python.TypeUnion', **kwargs)
-                if pep == '646': set_preset_value('tsPython.UseVariadicGenerics', **kwargs)
+                if pep == '604':  set_preset_value('ts2python.UseTypeUnion', **kwargs)
+                if pep == '646': set_preset_value('ts2python.UseVariadicGenerics', **kwargs)
                 if pep == '655':  set_preset_value('ts2python.UseNotRequired', **kwargs)
         if args.comments: set_preset_value('ts2python.KeepMultilineComments', True)
         finalize_presets()
-- 
2.43.0


From 8020e55536f00adeb0b21081678b8db4636f4749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 13/91] fix: empty namespaces and multi-line declarations
 inside namespaces yield valid Python

---
 ts2pythonParser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 3476401..abe071b 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1131,7 +1131,9 @@ class ts2pythonCompiler(Compiler):
             header = ''
         namespace = []
         for child in node.children[1:]:
-            namespace.append(self.compile(child))
+            namespace.append(self.compile(child).replace('\n', '\n    '))
+        if not namespace:
+            namespace.append('pass')
         if not header:
             header = self.render_class_header(name, '')[:-1]  # leave out the trailing "\n"
             # self.optional_keys.pop()?
-- 
2.43.0


From 0225e2aa95e57b6a26d240ffc81a013c13f6c41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:30 +0000
Subject: [PATCH 14/91] fix: preserving multi-line comments neither crashes nor
 breaks the generated code

---
 ts2pythonParser.py | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index abe071b..eaa207c 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -262,6 +262,26 @@ def add_flags(p: Path):
 def clear_flags(p: Path):
     p[0].attr = dict()
 
+def is_comment(p: Path) -> bool:
+    return p[-1].name == "comment__"
+
+def arrange_comments(p: Path):
+    """Moves comments to the next enclosing node where they can be rendered,
+    i.e. a document, block, namespace or enum. Comments that do not occur
+    between, before or after the items of these are dropped."""
+    node = p[-1]
+    if node.name != 'document':
+        move_fringes(p, is_comment)
+    if node.name in ('interface', 'module'):
+        # keep comments preceding the first declaration in the block
+        for i, child in enumerate(node.children[1:], 1):
+            comment = node.children[i - 1]
+            if comment.name == 'comment__' and child.name in ('declarations_block', 'document'):
+                child.result = (comment,) + child.children
+    if node.name not in ('document', 'declarations_block', 'namespace', 'virtual_enum', 'enum') \
+            and any(child.name == 'comment__' for child in node.children):
+        node.result = tuple(child for child in node.children if child.name != 'comment__')
+
 ts2python_AST_transformation_table = {
     # AST Transformations for the ts2python-grammar
     # "<": flatten,
@@ -271,9 +291,9 @@ ts2python_AST_transformation_table = {
                                      or not p[0].get_attr('keep_comments', True)),
     "special": [apply_if(add_error("Unknown special function"),
                          lambda p: p[-1]['name'].content not in SPECIAL_FUNCTIONS),
-                convert_special_function],
-    "function": apply_if(reduce_single_child, has_child('special')),
-    "*": move_fringes(lambda p: p[-1].name == "comment__"),
+                convert_special_function, arrange_comments],
+    "function": [arrange_comments, apply_if(reduce_single_child, has_child('special'))],
+    "*": arrange_comments,
     ">>>": clear_flags
 }
 
@@ -798,10 +818,12 @@ class ts2pythonCompiler(Compiler):
         self.mark_overloaded_functions(node)
         # declarations = '\n'.join(self.compile(nd) for nd in node
         #                          if nd.name in ('declaration', 'function'))
-        raw_decls = [self.compile(nd) for nd in node
+        raw_decls = [(nd.name, self.compile(nd)) for nd in node
                      if nd.name in ('declaration', 'function', 'comment__')]
-        declarations = '\n'.join(d for d in raw_decls if d)
-        return declarations or "pass"
+        declarations = '\n'.join(d for _, d in raw_decls if d)
+        if not any(d for name, d in raw_decls if name != 'comment__'):
+            declarations = (declarations + '\npass').lstrip('\n')
+        return declarations
 
     def on_declaration(self, node) -> str:
         identifier = self.compile(node['identifier'])
@@ -1120,7 +1142,7 @@ class ts2pythonCompiler(Compiler):
         else:
             self.add_to_known_types(node, name, 'virtual_enum')
         save = self.strip_type_from_const
-        if all(child.name == 'const' for child in node.children[1:]):
+        if all(child.name in ('const', 'comment__') for child in node.children[1:]):
             if all(nd['literal'][0].name == 'integer'
                    for nd in node.select_children('const') if 'literal' in nd):
                 header = f'class {name}(IntEnum):'
@@ -1132,7 +1154,7 @@ class ts2pythonCompiler(Compiler):
         namespace = []
         for child in node.children[1:]:
             namespace.append(self.compile(child).replace('\n', '\n    '))
-        if not namespace:
+        if all(child.name == 'comment__' for child in node.children[1:]):
             namespace.append('pass')
         if not header:
             header = self.render_class_header(name, '')[:-1]  # leave out the trailing "\n"
@@ -1186,8 +1208,8 @@ class ts2pythonCompiler(Compiler):
         name = self.compile(node['identifier'])
         self.add_to_known_types(node, name, 'enum')
         enum = ['class ' + name + base_class + ':']
-        for item in node.select_children('item'):
-            enum.append(self.compile(item))
+        for item in node.children[1:]:
+            enum.append(self.compile(item).replace('\n', '\n    '))
         return '\n    '.join(enum)
 
     def on_item(self, node) -> str:
-- 
2.43.0


From 2a3ffbfdbd4f0d4e646792e34766c78703b596f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 15/91] fix: type aliases shadowed by an enumeration are
 commented out as a whole

---
 ts2pythonParser.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index eaa207c..e167970 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -766,12 +766,10 @@ class ts2pythonCompiler(Compiler):
             self.basic_type_aliases.add(alias)
         self.obj_name.append(alias)
         if alias not in self.overloaded_type_names:
+            known_types = self.known_types[-1].copy()
+            shadowed = known_types.get(alias, '') in ('namespace', 'enum', 'virtual_enum')
             _, preface = self.process_type_parameters(node)
-            if self.known_types[-1].get(alias, '') \
-                    in ('namespace', 'enum', 'virtual_enum'):
-                preface = ('# commented out, because there is already an '
-                           'enumeration with the same name\n# ' + preface)
-            else:
+            if not shadowed:
                 self.add_to_known_types(node, alias, 'type_alias')
             self.local_classes.append([])
             self.optional_keys.append([])
@@ -782,10 +780,14 @@ class ts2pythonCompiler(Compiler):
             preface += self.render_local_classes()
             self.optional_keys.pop()
             self.local_classes.pop()
-            if types[0:1] in ('"', "'"):
-                self.string_aliases.add(alias)
-            self.pending_aliases.discard(alias)
             code = preface + f"{alias} = {types}"
+            self.pending_aliases.discard(alias)
+            if shadowed:
+                self.known_types[-1] = known_types
+                code = ('# commented out, because there is already an enumeration '
+                        'with the same name\n# ' + code.strip('\n').replace('\n', '\n# '))
+            elif types[0:1] in ('"', "'"):
+                self.string_aliases.add(alias)
         else:
             code = ''
         if node[-1].name == 'comment__':
-- 
2.43.0


From 313d80d11ee212d47cc3715ecbed6a7f8962c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:46 +0000
Subject: [PATCH 16/91] fix: validation knows Any, None, type variables,
 generics and unions wherever they occur

---
 ts2python/json_validation.py | 71 +++++++++++++++---------------------
 1 file changed, 29 insertions(+), 42 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index fe142a2..57b5c84 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -43,6 +43,11 @@ except (ImportError, ModuleNotFoundError):
         from .typeddict_shim import TypedDict, _TypedDictMeta, get_origin, \
             get_args, ForwardRef, _GenericAlias, is_typeddict, NotRequired
 
+try:
+    from types import UnionType
+except ImportError:
+    UnionType = Union
+
 if sys.version_info >= (3, 11):
     from typing import _GenericAlias, TypedDict, _TypedDictMeta, get_origin, get_args, ForwardRef
 
@@ -122,6 +127,11 @@ def validate_type(val: Any, typ):
         if not isinstance(val, Dict):
             raise TypeError(f"{val} is not even a dictionary")
         validate_TypedDict(val, typ)
+    elif typ is Any or isinstance(typ, TypeVar):
+        pass
+    elif typ is None:
+        if val is not None:
+            raise TypeError(f"{val} is not None")
     elif hasattr(typ, '__args__'):
         validate_compound_type(val, typ)
     else:
@@ -148,18 +158,8 @@ def validate_uniform_sequence(sequence: Iterable, item_type):
 
     """
     # assert not isinstance(item_type, str), f'Unresolved type name or forward reference for {item_type}!'
-    if is_TypedDictClass(item_type):
-        for val in sequence:
-            if not isinstance(val, Dict):
-                raise TypeError(f"{val} is not of type {item_type}")
-            validate_TypedDict(val, item_type)
-    elif hasattr(item_type, '__args__'):
-        for val in sequence:
-            validate_compound_type(val, item_type)
-    else:
-        for val in sequence:
-            if not isinstance(val, item_type):
-                raise TypeError(f"{val} is not of type {item_type}")
+    for val in sequence:
+        validate_type(val, item_type)
 
 
 def validate_compound_type(value: Any, T):
@@ -187,6 +187,17 @@ def validate_compound_type(value: Any, T):
     if OT is Literal:
         if value not in get_args(T):
             raise TypeError(f"{value} is not of type {T}")
+    elif OT is Union or OT is UnionType:
+        for typ in get_args(T):
+            try:
+                validate_type(value, typ)
+                break
+            except (TypeError, ValueError):
+                pass
+        else:
+            raise TypeError(f"'{strdata(value)}' is not any of {T}, but of type {type(value)}")
+    elif is_TypedDictClass(OT):
+        validate_type(value, OT)
     elif isinstance(value, OT):
         if isinstance(value, Dict):
             assert len(T.__args__) == 2, str(T)
@@ -258,38 +269,14 @@ def validate_TypedDict(D: Dict, T: _TypedDictMeta):
             else:
                 type_errors.append(f"Field {field}: '{strdata(D[field])}' is not of {field_type}, "
                                    f"but of type {type(D[field])}")
-        elif get_origin(field_type) is Union:
-            value = D[field]
-            for union_typ in field_type.__args__:
-                union_typ = resolve_forward_refs(union_typ, T)
-                if isinstance(union_typ, ForwardRef):
-                    if sys.version_info >= (3, 9):
-                        union_typ = union_typ._evaluate(globals(), sys.modules[T.__module__].__dict__,
-                                                        recursive_guard=set())
-                    else:
-                        union_typ = union_typ._evaluate(globals(), sys.modules[T.__module__].__dict__)
-                if is_TypedDictClass(union_typ):
-                    if isinstance(value, Dict):
-                        try:
-                            validate_TypedDict(value, union_typ)
-                            break
-                        except TypeError:
-                            pass
-                elif hasattr(union_typ, '__args__'):
-                    try:
-                        validate_compound_type(value, union_typ)
-                        break
-                    except TypeError:
-                        pass
-                elif isinstance(value, union_typ):
-                    break
-            else:
-                # TODO: bugfix?
-                type_errors.append(f"Field {field}: '{strdata(D[field])}' is not any of "
-                                   f"{field_type}, but of type {type(D[field])}")
+        elif get_origin(field_type) is Union or get_origin(field_type) is UnionType:
+            try:
+                validate_compound_type(D[field], field_type)
+            except TypeError as e:
+                type_errors.append(f"Field {field}: {e}")
         elif hasattr(field_type, '__args__'):
             validate_compound_type(D[field], field_type)
-        elif isinstance(field_type, TypeVar):
+        elif field_type is Any or isinstance(field_type, TypeVar):
             pass  # for now
         elif not isinstance(D[field], field_type):
             if issubclass(field_type, Enum):
-- 
2.43.0


From c6523bbcf2fd30fc29ada9b90c59ca9e19ca2218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 17/91] fix: validation checks the items of containers in
 fields and leaves the type's annotations untouched

---
 ts2python/json_validation.py | 28 ----------------------------
 1 file changed, 28 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index 57b5c84..de1d804 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -60,30 +60,6 @@ def strdata(data: Any) -> str:
     return datastr[:10] + '...' if len(datastr) > 10 else datastr
 
 
-def resolve_forward_refs(T: type, Ur_T: type = None,) -> type:
-    """Resolves all forward references found in T."""
-    if isinstance(T, _GenericAlias):
-        O = get_origin(T)
-        if inspect.isclass(O):
-            return O
-        else:
-            T = O[get_args(T)]
-    if isinstance(T, ForwardRef):
-        if Ur_T is None:  Ur_T = T
-        if sys.version_info >= (3, 9, 0):
-            T = T._evaluate(globals(), sys.modules[Ur_T.__module__].__dict__,
-                            recursive_guard=set())
-        else:
-            T = T._evaluate(globals(), sys.modules[Ur_T.__module__].__dict__)
-        # T = resolve_forward_refs(T, Ur_T)
-        return T
-    elif str(T).find('ForwardRef') >= 0:
-        if Ur_T is None:  Ur_T = T
-        T.__args__ = tuple(resolve_forward_refs(arg, Ur_T)
-                           for arg in get_args(T))
-    return T
-
-
 def validate_enum(val: Any, typ: Enum):
     # if not any(member.value == val for member in typ.__members__.values()):
     #     raise ValueError(f"{val} is not contained in enum {typ}")
@@ -258,10 +234,6 @@ def validate_TypedDict(D: Dict, T: _TypedDictMeta):
     for field, field_type in get_type_hints(T).items():
         if field not in D:
             continue
-        resolved_field_type = resolve_forward_refs(field_type, T)
-        if resolved_field_type != field_type:
-            field_type = resolved_field_type
-            T.__annotations__[field] = field_type
         if is_TypedDictClass(field_type):
             value = D[field]
             if isinstance(value, Dict):
-- 
2.43.0


From 9270d7818bb06eaf9a26ad786b14e605a07df23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 18/91] fix: validating unhashable values against enums does
 not fail with an unrelated error

---
 ts2python/json_validation.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index de1d804..c723e34 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -61,11 +61,7 @@ def strdata(data: Any) -> str:
 
 
 def validate_enum(val: Any, typ: Enum):
-    # if not any(member.value == val for member in typ.__members__.values()):
-    #     raise ValueError(f"{val} is not contained in enum {typ}")
-    if not hasattr(typ, '__value_set__'):
-        typ.__value_set__ = {member.value for member in typ.__members__.values()}
-    if val not in typ.__value_set__:
+    if not any(member.value == val for member in typ.__members__.values()):
         raise ValueError(f"{val} is not contained in enum {typ}")
 
 
-- 
2.43.0


From 1b18d41d5f15ca6b8ca1b371712006dfd4b929dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 19/91] fix: integers are valid values for float-typed data

---
 ts2python/json_validation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index c723e34..36980f8 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -107,7 +107,7 @@ def validate_type(val: Any, typ):
     elif hasattr(typ, '__args__'):
         validate_compound_type(val, typ)
     else:
-        if not isinstance(val, typ):
+        if not isinstance(val, typ) and not (typ is float and isinstance(val, int)):
             if issubclass(typ, Enum):  #  and isinstance(val, (int, str)):
                 validate_enum(val, typ)
             else:
@@ -246,7 +246,8 @@ def validate_TypedDict(D: Dict, T: _TypedDictMeta):
             validate_compound_type(D[field], field_type)
         elif field_type is Any or isinstance(field_type, TypeVar):
             pass  # for now
-        elif not isinstance(D[field], field_type):
+        elif not isinstance(D[field], field_type) \
+                and not (field_type is float and isinstance(D[field], int)):
             if issubclass(field_type, Enum):
                 validate_enum(D[field], field_type)
             else:
-- 
2.43.0


From 6760a7d6c8d10ea75deb53a83cd7df9a6edfe0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 20/91] fix: JSON-arrays are valid values for tuple-typed data

---
 ts2python/json_validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index 36980f8..ea36598 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -170,13 +170,13 @@ def validate_compound_type(value: Any, T):
             raise TypeError(f"'{strdata(value)}' is not any of {T}, but of type {type(value)}")
     elif is_TypedDictClass(OT):
         validate_type(value, OT)
-    elif isinstance(value, OT):
+    elif isinstance(value, OT) or (OT is tuple and isinstance(value, list)):
         if isinstance(value, Dict):
             assert len(T.__args__) == 2, str(T)
             key_type, value_type = T.__args__
             validate_uniform_sequence(value.keys(), key_type)
             validate_uniform_sequence(value.values(), value_type)
-        elif isinstance(value, Tuple):
+        elif OT is tuple:  # JSON represents tuples as lists
             if len(T.__args__) == 2 and T.__args__[-1] is Ellipsis:
                 validate_uniform_sequence(value, T.__args__[0])
             else:
-- 
2.43.0


From ca79aebdfb63dfa97b4412d71bc8c003f148c082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 21/91] fix: type_check understands default values and variable
 arguments

---
 ts2python/json_validation.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index ea36598..199c4f8 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -299,7 +299,7 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
         at least one of the parameter's or the return value does not
         match the annotated types.
     """
-    arg_names = func.__code__.co_varnames[:func.__code__.co_argcount]
+    signature = inspect.signature(func)
     arg_types = get_type_hints(func)
     return_type = arg_types.get('return', None)
     if return_type is not None:  del arg_types['return']
@@ -308,23 +308,27 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
 
     @functools.wraps(func)
     def guard(*args, **kwargs):
-        nonlocal arg_names, arg_types, return_type
-        arg_dict = {**dict(zip(arg_names, args)), **kwargs}
-        for name, typ in arg_types.items():
+        for name, value in signature.bind(*args, **kwargs).arguments.items():
+            if name not in arg_types:
+                continue
+            kind = signature.parameters[name].kind
+            if kind == inspect.Parameter.VAR_POSITIONAL:
+                values = value
+            elif kind == inspect.Parameter.VAR_KEYWORD:
+                values = value.values()
+            else:
+                values = (value,)
             try:
-                validate_type(arg_dict[name], typ)
-            except TypeError as e:
+                validate_uniform_sequence(values, arg_types[name])
+            except (TypeError, ValueError) as e:
                 raise TypeError(
                     f'Parameter "{name}" of function "{func.__name__}" failed '
                     f'the type-check, because:\n{str(e)}')
-            except KeyError as e:
-                raise TypeError(f'Missing parameter {str(e)} in call of '
-                                f'"{func.__name__}"')
         ret = func(*args, **kwargs)
         if check_return_type and return_type:
             try:
                 validate_type(ret, return_type)
-            except TypeError as e:
+            except (TypeError, ValueError) as e:
                 raise TypeError(
                     f'Value returned by function "{func.__name__}" failed '
                     f'the type-check, because: {str(e)}')
-- 
2.43.0


From 2a8200e6a7724d079c40c62cfa4b644c7b3d4e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 22/91] fix: fields with type unions of the form "T | None" are
 recognized as not required

---
 ts2python/typeddict_shim.py | 43 +++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/ts2python/typeddict_shim.py b/ts2python/typeddict_shim.py
index 761512d..c16633d 100644
--- a/ts2python/typeddict_shim.py
+++ b/ts2python/typeddict_shim.py
@@ -31,6 +31,7 @@ implied. See the License for the specific language governing
 permissions and limitations under the License.
 """
 
+import ast
 import sys
 from typing import Generic, Optional, Union, Any, TypeVar
 
@@ -64,6 +65,11 @@ except (ImportError, ModuleNotFoundError):
             return typ.__args__
 
 
+try:
+    from types import UnionType
+except ImportError:
+    UnionType = Union
+
 try:
     from typing import NotRequired
 except (ImportError, ModuleNotFoundError):
@@ -132,6 +138,33 @@ def _caller(depth=1, default='__main__'):
         return None
 
 
+def _is_optional_expression(expr: ast.AST) -> bool:
+    """Returns True, if the type-expression of a forward reference has
+    the form `NotRequired[...]`, `Optional[...]`, `Union[..., None]` or
+    `... | None`."""
+    if isinstance(expr, ast.BinOp) and isinstance(expr.op, ast.BitOr):
+        return _is_optional_expression(expr.left) or _is_optional_expression(expr.right)
+    if isinstance(expr, ast.Subscript):
+        name = getattr(expr.value, 'attr', getattr(expr.value, 'id', ''))
+        if name in ('NotRequired', 'Optional'):
+            return True
+        if name == 'Union':
+            args = getattr(expr.slice, 'value', expr.slice)  # Python 3.8: Index(value=...)
+            return any(_is_optional_expression(arg) for arg in getattr(args, 'elts', [args]))
+        return False
+    return getattr(expr, 'value', expr) is None  # constant `None`
+
+
+def _is_optional(field_type) -> bool:
+    """Returns True, if fields of this type are not required."""
+    if isinstance(field_type, ForwardRef):
+        expr = ast.parse(field_type.__forward_arg__.strip(), mode='eval').body
+        return isinstance(expr, (ast.BinOp, ast.Subscript)) and _is_optional_expression(expr)
+    origin = get_origin(field_type)
+    return origin is NotRequired \
+        or (origin in (Union, UnionType) and type(None) in field_type.__args__)
+
+
 def _new_typed_dict(meta, name, bases, ns) -> dict:
     for base in bases:
         if base is not dict and type(base) is not meta \
@@ -162,15 +195,7 @@ def _new_typed_dict(meta, name, bases, ns) -> dict:
 
     total = True
     for field, field_type in own_annotations.items():
-        field_type_origin = get_origin(field_type)
-        if (field_type_origin is NotRequired
-            or (field_type_origin is Union
-                and type(None) in field_type.__args__)
-            or (isinstance(field_type, ForwardRef)
-                and (field_type.__forward_arg__.startswith('Optional[')
-                     or field_type.__forward_arg__.startswith('NotRequired')
-                     or (field_type.__forward_arg__.startswith('Union[')
-                         and field_type.__forward_arg__.endswith(', None]'))))):
+        if _is_optional(field_type):
             optional_keys.add(field)
             total = False
         else:
-- 
2.43.0


From e686d99303f4471c06ffd40ac0f716b1e9408d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 23/91] fix: overloads with a union-type annotation are not
 lost by singledispatch

---
 ts2python/singledispatch_shim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index 877c1a0..15b870e 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -155,7 +155,7 @@ def singledispatch(func):
             # only import typing if annotation parsing is necessary
             try:
                 argname, cls = next(iter(get_type_hints(func).items()))
-                if not isinstance(cls, type) and str(type(cls))[1:6] == "class":
+                if not _is_valid_dispatch_type(cls) and str(type(cls))[1:6] == "class":
                     raise NameError
             except NameError:
                 if cls != func:
@@ -165,6 +165,7 @@ def singledispatch(func):
                         pass  # TODO: Is this risky?
                         # raise(e)
                 registry.setdefault('postponed', []).append(cls)
+                dispatch_cache.clear()
                 return func
             except StopIteration:
                 func = method
-- 
2.43.0


From 6280213fd9a53720ec4a87f2bb43af0a74090f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 24/91] fix: process_file finds its default result file and
 never mistakes content for a file name

---
 ts2pythonParser.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index e167970..3a69e60 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1421,21 +1421,23 @@ def process_file(source: str, result_filename: str = '') -> str:
     source_filename = source if is_filename(source) else ''
     if not result_filename:
         if source_filename:
-            result_filename = source_filename[:result_filename.rfind('.')] + '.py'
+            result_filename = os.path.splitext(source_filename)[0] + '.py'
         else:
             result_filename = "out.py"
     if os.path.isfile(result_filename):
         with open(result_filename, 'r', encoding='utf-8') as f:
             result = f.read()
-        if source_filename == source:
+        source_text = source
+        if source_filename:
             with open(source_filename, 'r', encoding='utf-8') as f:
-                source = f.read()
+                source_text = f.read()
         m = re.search(r'source_hash__ *= *"([\w.!? ]*)"', result)
-        if m and m.groups()[-1] == source_hash(source):
+        if m and m.groups()[-1] == source_hash(source_text):
             return ''  # no re-compilation necessary, because source hasn't changed
     result, errors = compile_src(source)
     if not has_errors(errors, FATAL):
-        if os.path.abspath(source_filename) != os.path.abspath(result_filename):
+        if not source_filename \
+                or os.path.abspath(source_filename) != os.path.abspath(result_filename):
             with open(result_filename, 'w', encoding='utf-8') as f:
                 f.write(serialize_result(result))
         else:
-- 
2.43.0


From bb11d692193bfac99e6c979c5087aecad93bd0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 25/91] fix: process_file reports the messages of the current
 source and no stale ones

---
 ts2pythonParser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 3a69e60..4ae2589 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1424,6 +1424,8 @@ def process_file(source: str, result_filename: str = '') -> str:
             result_filename = os.path.splitext(source_filename)[0] + '.py'
         else:
             result_filename = "out.py"
+    message_files = [os.path.splitext(result_filename)[0] + ext
+                     for ext in ('_ERRORS.txt', '_WARNINGS.txt')]
     if os.path.isfile(result_filename):
         with open(result_filename, 'r', encoding='utf-8') as f:
             result = f.read()
@@ -1433,8 +1435,12 @@ def process_file(source: str, result_filename: str = '') -> str:
                 source_text = f.read()
         m = re.search(r'source_hash__ *= *"([\w.!? ]*)"', result)
         if m and m.groups()[-1] == source_hash(source_text):
-            return ''  # no re-compilation necessary, because source hasn't changed
+            # no re-compilation necessary, because source hasn't changed
+            return next((fn for fn in message_files if os.path.isfile(fn)), '')
     result, errors = compile_src(source)
+    for fn in message_files:  # remove messages from earlier runs
+        if os.path.isfile(fn):
+            os.remove(fn)
     if not has_errors(errors, FATAL):
         if not source_filename \
                 or os.path.abspath(source_filename) != os.path.abspath(result_filename):
@@ -1444,9 +1450,8 @@ def process_file(source: str, result_filename: str = '') -> str:
             errors.append(Error('Source and destination have the same name "%s"!'
                                 % result_filename, 0, FATAL))
     if errors:
-        err_ext = '_ERRORS.txt' if has_errors(errors, ERROR) else '_WARNINGS.txt'
-        err_filename = os.path.splitext(result_filename)[0] + err_ext
-        with open(err_filename, 'w') as f:
+        err_filename = message_files[0 if has_errors(errors, ERROR) else 1]
+        with open(err_filename, 'w', encoding='utf-8') as f:
             f.write('\n'.join(canonical_error_strings(errors)))
         return err_filename
     return ''
-- 
2.43.0


From edf8ac105875c9c0e8bb5f48620e056bb078d7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 26/91] fix: an interrupted process_file never leaves an
 incomplete result behind

---
 ts2pythonParser.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 4ae2589..5578595 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1441,20 +1441,30 @@ def process_file(source: str, result_filename: str = '') -> str:
     for fn in message_files:  # remove messages from earlier runs
         if os.path.isfile(fn):
             os.remove(fn)
-    if not has_errors(errors, FATAL):
-        if not source_filename \
-                or os.path.abspath(source_filename) != os.path.abspath(result_filename):
-            with open(result_filename, 'w', encoding='utf-8') as f:
-                f.write(serialize_result(result))
-        else:
-            errors.append(Error('Source and destination have the same name "%s"!'
-                                % result_filename, 0, FATAL))
+    write_result = not has_errors(errors, FATAL)
+    if write_result and source_filename \
+            and os.path.abspath(source_filename) == os.path.abspath(result_filename):
+        errors.append(Error('Source and destination have the same name "%s"!'
+                            % result_filename, 0, FATAL))
+        write_result = False
+    err_filename = ''
     if errors:
         err_filename = message_files[0 if has_errors(errors, ERROR) else 1]
         with open(err_filename, 'w', encoding='utf-8') as f:
             f.write('\n'.join(canonical_error_strings(errors)))
-        return err_filename
-    return ''
+    if write_result:
+        # never leave an incomplete result behind, because it would be mistaken
+        # for an up-to-date result the next time
+        temp_filename = result_filename + '.tmp'
+        try:
+            with open(temp_filename, 'w', encoding='utf-8') as f:
+                f.write(serialize_result(result))
+            os.replace(temp_filename, result_filename)
+        except BaseException:
+            if os.path.exists(temp_filename):
+                os.remove(temp_filename)
+            raise
+    return err_filename
 
 
 def batch_process(file_names: List[str], out_dir: str,
-- 
2.43.0


From f621a50fe34f7193cddfd5abf15b3e6fc1fea210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 27/91] fix: batch processing writes Python files

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 5578595..dbf6bbb 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1388,7 +1388,7 @@ serializations = expand_table(dict([('*', ['sxpr'])]))
 #
 #######################################################################
 
-RESULT_FILE_EXTENSION = ".sxpr"  # Change this according to your needs!
+RESULT_FILE_EXTENSION = ".py"  # Change this according to your needs!
 
 
 def compile_src(source: str, target: str = "py") -> Tuple[Any, List[Error]]:
-- 
2.43.0


From f4173b9bb00d0dfb60477ba366bbb9bdf3717208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 28/91] fix: functional rendering of anonymous interfaces
 without fields, with methods or in quoted unions

---
 ts2pythonParser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index dbf6bbb..5350572 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -421,10 +421,10 @@ def to_dict(declarations: str) -> str:
         >>> print(to_dict(decls))
         {"name": str, "version": int}
     """
-    entries = declarations.split('\n')
+    # leave out everything that is not a field, e.g. "pass" or comments
+    entries = [entry for entry in declarations.split('\n') if re.match(r'\w+:', entry)]
     for i in range(len(entries)):
         k = entries[i].find(":")
-        assert k >= 0
         entries[i] = f'"{entries[i][:k]}"{entries[i][k:]}'
     return "".join(["{", ", ".join(entries), "}"])
 
@@ -971,7 +971,8 @@ class ts2pythonCompiler(Compiler):
         if names & self.string_aliases:
             return True
         return any(typ[0:1] in ('"', "'") for typ in union) \
-            and bool(names & (self.nested_class_names | self.pending_aliases))
+            and (bool(names & (self.nested_class_names | self.pending_aliases))
+                 or any(typ.find('TypedDict(') >= 0 for typ in union))
 
     def on_types(self, node) -> str:
         alternatives = []
-- 
2.43.0


From aadaf7f8a180a1b4a5684c818a890f67a8cc09bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 29/91] fix: generic interfaces are executable when NotRequired
 is used without variadic generics

---
 ts2pythonParser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 5350572..9c58a65 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -652,6 +652,7 @@ class ts2pythonCompiler(Compiler):
             total = not bool(optional_key_list) or self.use_not_required
             if base_classes:
                 td_name = 'TypedDict' if (self.use_variadic_generics or
+                                          self.use_not_required or
                                           base_classes.find('Generic[') < 0) \
                                       else 'GenericTypedDict'
                 if self.use_not_required:
-- 
2.43.0


From fa8264a14f3b24536f407c73bfd628cd3a96761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 30/91] fix: constants with anonymous types do not break the
 following declarations

---
 ts2pythonParser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 9c58a65..68fc098 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -856,8 +856,7 @@ class ts2pythonCompiler(Compiler):
                     T = f"Optional[{T}]"
         if self.is_toplevel() and bool(self.local_classes[-1]):
             preface = self.render_local_classes()
-            self.local_classes.pop()
-            self.optional_keys.pop()
+            self.local_classes[-1].clear()
             return preface + f"{identifier}: {T}"
         return f"{identifier}: {T}"
 
-- 
2.43.0


From 0c94356132aa63496656d498b937df02e6721022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 31/91] fix: fields redeclared with a different status are not
 both required and optional

---
 ts2python/typeddict_shim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts2python/typeddict_shim.py b/ts2python/typeddict_shim.py
index c16633d..83aa50a 100644
--- a/ts2python/typeddict_shim.py
+++ b/ts2python/typeddict_shim.py
@@ -197,9 +197,11 @@ def _new_typed_dict(meta, name, bases, ns) -> dict:
     for field, field_type in own_annotations.items():
         if _is_optional(field_type):
             optional_keys.add(field)
+            required_keys.discard(field)
             total = False
         else:
             required_keys.add(field)
+            optional_keys.discard(field)
 
     tp_dict.__annotations__ = annotations
     tp_dict.__required_keys__ = frozenset(required_keys)
-- 
2.43.0


From a9d12cabb23b51f3229327bc8e962b5affc6be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:43 +0000
Subject: [PATCH 32/91] fix: fields of type null or void may be absent if
 declared optional

---
 ts2python/typeddict_shim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts2python/typeddict_shim.py b/ts2python/typeddict_shim.py
index 83aa50a..2c8eb1d 100644
--- a/ts2python/typeddict_shim.py
+++ b/ts2python/typeddict_shim.py
@@ -159,9 +159,10 @@ def _is_optional(field_type) -> bool:
     """Returns True, if fields of this type are not required."""
     if isinstance(field_type, ForwardRef):
         expr = ast.parse(field_type.__forward_arg__.strip(), mode='eval').body
-        return isinstance(expr, (ast.BinOp, ast.Subscript)) and _is_optional_expression(expr)
+        return _is_optional_expression(expr)
     origin = get_origin(field_type)
     return origin is NotRequired \
+        or field_type is type(None) \
         or (origin in (Union, UnionType) and type(None) in field_type.__args__)
 
 
-- 
2.43.0


From 18e5675a8b17c91373b9c5fe910c5fb65ad697fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 33/91] fix: type arguments null and void are not dropped

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 68fc098..bae6198 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1277,7 +1277,7 @@ class ts2pythonCompiler(Compiler):
     def on_generic_type(self, node) -> str:
         base_type = self.compile(node['type_name'])
         parameters = self.compile(node['type_parameters'])
-        if parameters == 'None':
+        if parameters == 'None' and base_type == 'Coroutine':
             return base_type
         else:
             return ''.join([base_type, '[', parameters, ']'])
-- 
2.43.0


From 5b003fdc94a42d10f1cf083f7551015f2f5e7009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 34/91] fix: nested unions starting with None do not yield None
 | None

---
 ts2pythonParser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index bae6198..183d829 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -966,7 +966,10 @@ class ts2pythonCompiler(Compiler):
         """Returns True, if the alternatives cannot be connected with "|",
         because some are strings when "|" is being evaluated, or because they
         would have to be quoted altogether although they contain classes that
-        cannot be looked up by name in the module's global namespace."""
+        cannot be looked up by name in the module's global namespace, or
+        because both of the first two of them are None."""
+        if union[0] == 'None' and re.match(r'None\b', union[1]):
+            return True  # "None | None" is not allowed in Python
         names = set(re.findall(r'[\w.]+', re.sub(RX_STRING, lambda m: m[0][1:-1], ' '.join(union))))
         if names & self.string_aliases:
             return True
-- 
2.43.0


From 901063ee22c4c73b9868786336ef9bc78c5495ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 35/91] fix: quoted type expressions may contain functional
 TypedDicts

---
 ts2pythonParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 183d829..0b717cd 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -472,7 +472,8 @@ def quote_type(type_expression: str) -> str:
 
     def unquote(m):
         if m[0][:8] != 'Literal[':
-            return m[0][1:-1]
+            # names and keys in TypedDict("Name", {"key": ...}) remain quoted
+            return m[0] if m[0][0] == '"' else m[0][1:-1]
         literal = m[0] if m[0].find('"') >= 0 else m[0].replace("'", '"')
         return literal.replace('\\', '\\\\').replace("'", "\\'")
 
-- 
2.43.0


From 89d938fa58e12997ed99e61036114beac2ef2d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:21 +0000
Subject: [PATCH 36/91] fix: aliases of null and aliases of aliases in type
 unions

---
 ts2pythonParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 0b717cd..8171f62 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -535,7 +535,7 @@ class ts2pythonCompiler(Compiler):
             {id(self.local_classes[0]): (self.local_classes[0], self.toplevel_class_names)}
         self.nested_class_names: Set[str] = set()  # all but the toplevel class_names
         self.pending_aliases: Set[str] = set()  # type aliases that are not yet defined
-        self.string_aliases: Set[str] = set()  # type aliases that are mere strings
+        self.string_aliases: Set[str] = set()  # type aliases that are mere strings or None
         self.func_name: str = ''  # name of the current functions header or ''
         self.strip_type_from_const = False
 
@@ -788,7 +788,7 @@ class ts2pythonCompiler(Compiler):
                 self.known_types[-1] = known_types
                 code = ('# commented out, because there is already an enumeration '
                         'with the same name\n# ' + code.strip('\n').replace('\n', '\n# '))
-            elif types[0:1] in ('"', "'"):
+            elif types[0:1] in ('"', "'") or types == 'None' or types in self.string_aliases:
                 self.string_aliases.add(alias)
         else:
             code = ''
@@ -965,7 +965,7 @@ class ts2pythonCompiler(Compiler):
 
     def needs_union_class(self, union) -> bool:
         """Returns True, if the alternatives cannot be connected with "|",
-        because some are strings when "|" is being evaluated, or because they
+        because some are strings or None when "|" is being evaluated, or because they
         would have to be quoted altogether although they contain classes that
         cannot be looked up by name in the module's global namespace, or
         because both of the first two of them are None."""
-- 
2.43.0


From f98ccee60f3de23698f40c153ed27f38d21e0bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 37/91] fix: optional fields with an array of undefined among
 their alternatives still admit None

---
 ts2pythonParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 8171f62..cebbaa6 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -842,7 +842,8 @@ class ts2pythonCompiler(Compiler):
             else:
                 alternatives = node['types'].children if 'types' in node else ()
                 nullable = any(TYPE_NAME_SUBSTITUTION.get(alternative.content, '') == 'None'
-                               for alternative in alternatives)
+                               for alternative in alternatives
+                               if alternative[0].name in ('basic_type', 'type_name'))
                 if T.startswith('Union['):
                     if not nullable:
                         T = T[:-1] + ', None]'
-- 
2.43.0


From 03d2ddeb8d187520e56075c82ff918ec2f65220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 38/91] fix: classes of anonymous interfaces never have the
 name of a constant

---
 ts2pythonParser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index cebbaa6..525d724 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -568,7 +568,9 @@ class ts2pythonCompiler(Compiler):
         namespaces = {nd['identifier'].content for nd in root.select_children('namespace')}
         self.overloaded_type_names = type_aliases & namespaces
         document = root['document'] if 'document' in root else root
-        self.toplevel_names = {nd['identifier'].content for nd in document.children
+        declarations = [nd['declaration'] if nd.name == 'const' else nd
+                        for nd in document.children]
+        self.toplevel_names = {nd['identifier'].content for nd in declarations
                                if 'identifier' in nd}
         self.pending_aliases = {nd['identifier'].content
                                 for nd in document.select_children('type_alias')}
-- 
2.43.0


From 513207aefd22b474c8f62969aa2df5671e3ce79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 39/91] fix: nested unions starting with None do not yield None
 | None (quoted)

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 525d724..1f9b7e8 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -972,7 +972,7 @@ class ts2pythonCompiler(Compiler):
         would have to be quoted altogether although they contain classes that
         cannot be looked up by name in the module's global namespace, or
         because both of the first two of them are None."""
-        if union[0] == 'None' and re.match(r'None\b', union[1]):
+        if union[0] == 'None' and re.match(r"'?None\b", union[1]):
             return True  # "None | None" is not allowed in Python
         names = set(re.findall(r'[\w.]+', re.sub(RX_STRING, lambda m: m[0][1:-1], ' '.join(union))))
         if names & self.string_aliases:
-- 
2.43.0


From 364233690a938f1a269ff88b0c4df09c69183ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 40/91] fix: names defined inside a namespace are not known
 outside of it

---
 ts2pythonParser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 1f9b7e8..6df5f26 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1162,8 +1162,10 @@ class ts2pythonCompiler(Compiler):
         else:
             header = ''
         namespace = []
+        self.known_types.append(dict())
         for child in node.children[1:]:
             namespace.append(self.compile(child).replace('\n', '\n    '))
+        self.known_types.pop()
         if all(child.name == 'comment__' for child in node.children[1:]):
             namespace.append('pass')
         if not header:
-- 
2.43.0


From 339627a403b51e780d0925e4f6ff0ea176a1c16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 41/91] fix: function types keep their parameters if a string
 literal contains an asterisk

---
 ts2pythonParser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 6df5f26..8937ff2 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1126,8 +1126,7 @@ class ts2pythonCompiler(Compiler):
     def on_func_type(self, node) -> str:
         if 'arg_list' in node:
             arg_list = self.compile(node["arg_list"])
-            if  arg_list == "..." or arg_list.find('= None') >= 0 \
-                    or arg_list.find('*') >= 0:
+            if  arg_list == "..." or arg_list.find('= None') >= 0:
                 # See https://docs.python.org/3/library/typing.html#typing.Callable
                 args = '...'
             else:
-- 
2.43.0


From ed7962ebfa1f9ab181a9fedb5c5d24b6f61b1603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:48 +0000
Subject: [PATCH 42/91] fix: optional fields with nested unions in PEP 604
 notation yield valid Python

---
 ts2pythonParser.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 8937ff2..c6fe26f 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -480,6 +480,24 @@ def quote_type(type_expression: str) -> str:
     return "'" + re.sub(RX_LITERAL_TYPE + '|' + RX_STRING, unquote, type_expression) + "'"
 
 
+def is_union_class(type_expression: str) -> bool:
+    r"""Returns True, if the type expression as a whole has the form Union[...]::
+
+        >>> is_union_class("Union['A', str]")
+        True
+        >>> is_union_class("Union['A', str] | List[int]")
+        False
+    """
+    if not type_expression.startswith('Union['):  return False
+    brackets = re.sub(RX_STRING + r'|[^\[\]]', '', type_expression)
+    depth = 0
+    for i, bracket in enumerate(brackets):
+        depth += 1 if bracket == '[' else -1
+        if depth == 0:
+            return i == len(brackets) - 1 and type_expression[-1] == ']'
+    return False
+
+
 class ts2pythonCompiler(Compiler):
     """Compiler for the abstract-syntax-tree of a ts2python source file.
     """
@@ -846,11 +864,12 @@ class ts2pythonCompiler(Compiler):
                 nullable = any(TYPE_NAME_SUBSTITUTION.get(alternative.content, '') == 'None'
                                for alternative in alternatives
                                if alternative[0].name in ('basic_type', 'type_name'))
-                if T.startswith('Union['):
+                if is_union_class(T):
                     if not nullable:
                         T = T[:-1] + ', None]'
                 elif len(alternatives) > 1 and self.use_type_union \
-                        and not T.startswith('Literal['):
+                        and not T.startswith('Literal[') \
+                        and not self.needs_union_class([T, 'None']):
                     if not nullable:
                         if T[0:1] not in ("'", '"'):
                             T += ' | None'
-- 
2.43.0


From f01e01cc598ee166c49a0ca5b57f8f4a94758231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:51 +0000
Subject: [PATCH 43/91] fix: generic aliases with forward references remain
 generic in PEP 604 notation

---
 ts2pythonParser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index c6fe26f..d44d7e9 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -554,6 +554,7 @@ class ts2pythonCompiler(Compiler):
         self.nested_class_names: Set[str] = set()  # all but the toplevel class_names
         self.pending_aliases: Set[str] = set()  # type aliases that are not yet defined
         self.string_aliases: Set[str] = set()  # type aliases that are mere strings or None
+        self.is_generic_alias: bool = False  # while compiling a generic type alias
         self.func_name: str = ''  # name of the current functions header or ''
         self.strip_type_from_const = False
 
@@ -790,7 +791,8 @@ class ts2pythonCompiler(Compiler):
         if alias not in self.overloaded_type_names:
             known_types = self.known_types[-1].copy()
             shadowed = known_types.get(alias, '') in ('namespace', 'enum', 'virtual_enum')
-            _, preface = self.process_type_parameters(node)
+            tps, preface = self.process_type_parameters(node)
+            self.is_generic_alias = bool(tps)
             if not shadowed:
                 self.add_to_known_types(node, alias, 'type_alias')
             self.local_classes.append([])
@@ -799,6 +801,7 @@ class ts2pythonCompiler(Compiler):
             self.class_names[id(self.local_classes[-1])] = \
                 (self.local_classes[-1], self.toplevel_class_names)
             types = self.compile(node['types'])
+            self.is_generic_alias = False
             preface += self.render_local_classes()
             self.optional_keys.pop()
             self.local_classes.pop()
@@ -989,8 +992,9 @@ class ts2pythonCompiler(Compiler):
         """Returns True, if the alternatives cannot be connected with "|",
         because some are strings or None when "|" is being evaluated, or because they
         would have to be quoted altogether although they contain classes that
-        cannot be looked up by name in the module's global namespace, or
-        because both of the first two of them are None."""
+        cannot be looked up by name in the module's global namespace or type
+        parameters of an alias that could then not be specialised any more,
+        or because both of the first two of them are None."""
         if union[0] == 'None' and re.match(r"'?None\b", union[1]):
             return True  # "None | None" is not allowed in Python
         names = set(re.findall(r'[\w.]+', re.sub(RX_STRING, lambda m: m[0][1:-1], ' '.join(union))))
@@ -998,7 +1002,8 @@ class ts2pythonCompiler(Compiler):
             return True
         return any(typ[0:1] in ('"', "'") for typ in union) \
             and (bool(names & (self.nested_class_names | self.pending_aliases))
-                 or any(typ.find('TypedDict(') >= 0 for typ in union))
+                 or any(typ.find('TypedDict(') >= 0 for typ in union)
+                 or self.is_generic_alias)
 
     def on_types(self, node) -> str:
         alternatives = []
-- 
2.43.0


From 2e36406df04ce8f7ba59554172452907d65cee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:30 +0000
Subject: [PATCH 44/91] fix: references to later aliases named like Python
 keywords in PEP 604 notation

---
 ts2pythonParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index d44d7e9..41654db 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -589,9 +589,9 @@ class ts2pythonCompiler(Compiler):
         document = root['document'] if 'document' in root else root
         declarations = [nd['declaration'] if nd.name == 'const' else nd
                         for nd in document.children]
-        self.toplevel_names = {nd['identifier'].content for nd in declarations
+        self.toplevel_names = {self.on_identifier(nd['identifier']) for nd in declarations
                                if 'identifier' in nd}
-        self.pending_aliases = {nd['identifier'].content
+        self.pending_aliases = {self.on_identifier(nd['identifier'])
                                 for nd in document.select_children('type_alias')}
         self.tree.stage = 'py'
         return None
-- 
2.43.0


From 69827edb226b5bc8364c772a978823d702f3ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:58 +0000
Subject: [PATCH 45/91] fix: singledispatch resolves postponed overloads before
 looking up the class and keeps the order of registrations

---
 ts2python/singledispatch_shim.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index 15b870e..73cb484 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -79,25 +79,21 @@ def singledispatch(func):
         try:
             impl = dispatch_cache[cls]
         except KeyError:
+            if 'postponed' in registry:
+                for args in registry.pop('postponed'):
+                    register(*args)
             try:
                 impl = registry[cls]
             except KeyError:
                 if 'postponed' in registry:
-                    postponed = registry['postponed']
-                    del registry['postponed']
-                    for postponed_cls in postponed:
-                        register(postponed_cls)
-                    if 'postponed' in registry:
-                        for f in registry['postponed']:
-                            get_type_hints(f)   # provoke NameError
-                        raise AssertionError('singledispatch: Internal Error: '
-                                             + str(registry['postponed']))
-                    try:
-                        impl = registry[cls]
-                    except KeyError:
-                        impl = _find_impl(cls, registry)
-                else:
-                    impl = _find_impl(cls, registry)
+                    for args in registry['postponed']:
+                        if len(args) == 1:
+                            get_type_hints(args[0])   # provoke NameError
+                    raise AssertionError('singledispatch: Internal Error: '
+                                         + str(registry['postponed']))
+                impl = _find_impl(cls, registry)
+            if 'postponed' in registry:
+                return impl  # might be overridden, later
             dispatch_cache[cls] = impl
         return impl
 
@@ -164,7 +160,7 @@ def singledispatch(func):
                     except AttributeError as e:
                         pass  # TODO: Is this risky?
                         # raise(e)
-                registry.setdefault('postponed', []).append(cls)
+                registry.setdefault('postponed', []).append((cls,))
                 dispatch_cache.clear()
                 return func
             except StopIteration:
@@ -186,6 +182,9 @@ def singledispatch(func):
                 registry[arg] = func
         else:
             registry[cls] = func
+        if 'postponed' in registry:
+            # keep the order of registrations
+            registry['postponed'].append((cls, func))
         if cache_token is None and hasattr(cls, '__abstractmethods__'):
             cache_token = get_cache_token()
         dispatch_cache.clear()
-- 
2.43.0


From 6cf09cc042c36c548562867a4216432e3e126e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:29 +0000
Subject: [PATCH 46/91] fix: comments cannot be stretched up to the end of a
 later comment by backtracking

---
 ts2python.ebnf     | 2 +-
 ts2pythonParser.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index ee50dd8..1e8e757 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -12,7 +12,7 @@
 @ optimizations = all
 @ whitespace  = /\s*/           # insignificant whitespace, includes linefeeds
 @ literalws   = right           # literals have implicit whitespace on the right hand side
-@ comment     = /(?:\/\/.*)\n?|(?:\/\*(?:.|\n)*?\*\/) *\n?/   # /* ... */ or // to EOL
+@ comment     = /(?:\/\/.*(?:\n|$))|(?:\/\*(?:[^*]|\*(?!\/))*\*\/) *\n?/   # /* ... */ or // to EOL
 @ ignorecase  = False           # literals and regular expressions are case-sensitive
 @ reduction   = merge_treetops  # anonymous nodes are being reduced where possible
 @ disposable  = INT, NEG, FRAC, DOT, EXP, EOF,
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 41654db..585ecd8 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -138,12 +138,12 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "81baadb0aeae9b91c11e47c23cff9595"
+    source_hash__ = "b6fa96f86723d8c94c0653aa221455de"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
-    disposable__ = re.compile('(?:DOT$|EOF$|_array_ellipsis$|_function$|INT$|_top_level_assignment$|FRAC$|NEG$|_quoted_identifier$|_namespace$|_part$|EXP$|_top_level_literal$|_let_var$|_export$|_readonly$)')
+    disposable__ = re.compile('(?:_namespace$|FRAC$|_let_var$|_part$|DOT$|EOF$|EXP$|_quoted_identifier$|_array_ellipsis$|_top_level_assignment$|_function$|NEG$|INT$|_top_level_literal$|_export$|_readonly$)')
     static_analysis_pending__ = []  # type: List[bool]
     parser_initialization__ = ["upon instantiation"]
-    COMMENT__ = r'(?://.*)\n?|(?:/\*(?:.|\n)*?\*/) *\n?'
+    COMMENT__ = r'(?://.*(?:\n|$))|(?:/\*(?:[^*]|\*(?!/))*\*/) *\n?'
     comment_rx__ = re.compile(COMMENT__)
     WHITESPACE__ = r'\s*'
     WSP_RE__ = mixin_comment(whitespace=WHITESPACE__, comment=COMMENT__)
-- 
2.43.0


From ee5c3b163f680c6268496506eec2892021549a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:16 +0000
Subject: [PATCH 47/91] fix: a compiler crash on a faulty tree is reported as
 an error, not raised as a stage mismatch

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 585ecd8..06d287d 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -303,7 +303,7 @@ def ts2pythonTransformer() -> TransformerCallable:
     threads or processes."""
     return partial(transformer,
                    transformation_table=ts2python_AST_transformation_table.copy(),
-                   src_stage='cst', dst_stage='ast')
+                   src_stage='cst', dst_stage='AST')
 
 ASTTransformation: Junction = Junction(
     'cst', ThreadLocalSingletonFactory(ts2pythonTransformer), 'ast')
-- 
2.43.0


From 5ee0ff89945cea4bff70561bf30c7642e29be044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:18 +0000
Subject: [PATCH 48/91] fix: type aliases without a name in faulty trees do not
 crash the compiler

---
 ts2pythonParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 06d287d..477ec3f 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -592,7 +592,8 @@ class ts2pythonCompiler(Compiler):
         self.toplevel_names = {self.on_identifier(nd['identifier']) for nd in declarations
                                if 'identifier' in nd}
         self.pending_aliases = {self.on_identifier(nd['identifier'])
-                                for nd in document.select_children('type_alias')}
+                                for nd in document.select_children('type_alias')
+                                if 'identifier' in nd}
         self.tree.stage = 'py'
         return None
 
-- 
2.43.0


From 476d7fb57390475f48c3cef1fb8bc54c2cb6d5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:08 +0000
Subject: [PATCH 49/91] fix: white space and comments are allowed between the
 brackets of an array type

---
 ts2python.ebnf     | 2 +-
 ts2pythonParser.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index 1e8e757..7b7e61d 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -125,7 +125,7 @@ generic_type = type_name type_parameters
   extends_type = "extends" [keyof] (basic_type | type_name | mapped_type )
   equals_type  = "=" (basic_type|type_name)
 
-array_of    = array_types "[]"
+array_of    = array_types "[" "]"
   array_types = array_type
   array_type = basic_type | generic_type | type_name | "(" types ")"
               | type_tuple | declarations_block
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 477ec3f..df2ab6b 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -138,9 +138,9 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "b6fa96f86723d8c94c0653aa221455de"
+    source_hash__ = "c632710d1b15d42ab6a05bd0f24d3346"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
-    disposable__ = re.compile('(?:_namespace$|FRAC$|_let_var$|_part$|DOT$|EOF$|EXP$|_quoted_identifier$|_array_ellipsis$|_top_level_assignment$|_function$|NEG$|INT$|_top_level_literal$|_export$|_readonly$)')
+    disposable__ = re.compile('(?:INT$|NEG$|FRAC$|_array_ellipsis$|_top_level_assignment$|EOF$|_part$|_top_level_literal$|_namespace$|_let_var$|_readonly$|DOT$|_function$|_export$|_quoted_identifier$|EXP$)')
     static_analysis_pending__ = []  # type: List[bool]
     parser_initialization__ = ["upon instantiation"]
     COMMENT__ = r'(?://.*(?:\n|$))|(?:/\*(?:[^*]|\*(?!/))*\*/) *\n?'
@@ -191,7 +191,7 @@ class ts2pythonGrammar(Grammar):
     indexed_type = Series(type_name, Series(Drop(Text("[")), dwsp__), Alternative(type_name, literal), Series(Drop(Text("]")), dwsp__))
     array_type = Alternative(basic_type, generic_type, type_name, Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__)), type_tuple, declarations_block)
     array_types = Synonym(array_type)
-    array_of = Series(array_types, Series(Drop(Text("[]")), dwsp__))
+    array_of = Series(array_types, Series(Drop(Text("[")), dwsp__), Series(Drop(Text("]")), dwsp__))
     equals_type = Series(Series(Drop(Text("=")), dwsp__), Alternative(basic_type, type_name))
     extends_type = Series(Series(Drop(Text("extends")), dwsp__), Option(keyof), Alternative(basic_type, type_name, mapped_type))
     parameter_type = Series(Option(_readonly), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, Option(extends_type), Option(equals_type)), declarations_block, type_tuple, declarations_tuple))
-- 
2.43.0


From a358428635e0d01b9102c3635fecad0a72cc9ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:15 +0000
Subject: [PATCH 50/91] fix: initialize the grammar class upon import, because
 doing so in concurrent threads fails

---
 ts2pythonParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index df2ab6b..ebdb2e8 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1398,6 +1398,10 @@ compiling: Junction = create_junction(
 # Add your own stages to the junctions and target-lists, below
 # (See DHParser.compile for a description of junctions)
 
+# the parsers of the grammar-class are initialized upon its first instantiation.
+# Get this done now, because doing it in several threads at once can fail.
+ts2pythonGrammar()
+
 # ADD YOUR OWN POST-PROCESSING-JUNCTIONS HERE:
 junctions = set([ASTTransformation, compiling])
 
-- 
2.43.0


From 7c4a446c2962a60ce326933a2638cc4ae9043328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:00 +0000
Subject: [PATCH 51/91] fix: an escape character in the source does not crash
 the preprocessor

---
 ts2pythonParser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index ebdb2e8..43454b3 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -64,7 +64,7 @@ from DHParser.parse import Grammar, PreprocessorToken, Whitespace, Drop, AnyChar
 from DHParser.pipeline import create_parser_junction, create_preprocess_junction, \
     create_junction, PseudoJunction, full_pipeline, end_points
 from DHParser.preprocess import nil_preprocessor, PreprocessorFunc, PreprocessorResult, \
-    gen_find_include_func, preprocess_includes, make_preprocessor, chain_preprocessors
+    BEGIN_TOKEN, gen_find_include_func, preprocess_includes, make_preprocessor, chain_preprocessors
 from DHParser.stringview import StringView
 from DHParser.toolkit import is_filename, load_if_file, cpu_count, RX_NEVER_MATCH, \
     ThreadLocalSingletonFactory, expand_table, md5, as_list
@@ -104,7 +104,11 @@ RE_COMMENT = '(?:\\/\\/.*)|(?:\\/\\*(?:.|\\n)*?\\*\\/)'
 def ts2pythonTokenizer(original_text) -> Tuple[str, List[Error]]:
     # Here, a function body can be filled in that adds preprocessor tokens
     # to the source code and returns the modified source.
-    return original_text, []
+
+    # DHParser would take the escape character for the beginning of a preprocessor token
+    errors = [Error('Escape character replaced by U+FFFD', m.start(), WARNING)
+              for m in re.finditer(BEGIN_TOKEN, original_text)]
+    return original_text.replace(BEGIN_TOKEN, '\ufffd'), errors
 
 # def preprocessor_factory() -> PreprocessorFunc:
 #     # below, the second parameter must always be the same as ts2pythonGrammar.COMMENT__!
-- 
2.43.0


From 2d5dc8a37462f19b43f979a808813458cf6bb050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 52/91] fix: null characters and lone carriage returns do not
 end up in the generated code

---
 ts2pythonParser.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 43454b3..ee5c84f 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -105,10 +105,14 @@ def ts2pythonTokenizer(original_text) -> Tuple[str, List[Error]]:
     # Here, a function body can be filled in that adds preprocessor tokens
     # to the source code and returns the modified source.
 
-    # DHParser would take the escape character for the beginning of a preprocessor token
-    errors = [Error('Escape character replaced by U+FFFD', m.start(), WARNING)
-              for m in re.finditer(BEGIN_TOKEN, original_text)]
-    return original_text.replace(BEGIN_TOKEN, '\ufffd'), errors
+    # DHParser would take the escape character for the beginning of a preprocessor token,
+    # and Python-code must not contain null characters
+    rx_forbidden = re.compile('[\0%s]' % BEGIN_TOKEN)
+    errors = [Error('Escape or null character replaced by U+FFFD', m.start(), WARNING)
+              for m in rx_forbidden.finditer(original_text)]
+    text = rx_forbidden.sub('\ufffd', original_text)
+    # a carriage return ends the line in TypeScript as well as in Python
+    return re.sub('\r(?!\n)', '\n', text), errors
 
 # def preprocessor_factory() -> PreprocessorFunc:
 #     # below, the second parameter must always be the same as ts2pythonGrammar.COMMENT__!
-- 
2.43.0


From 7df22c4c0c9896bc9fa12fd79a685e8ab21c7354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:16 +0000
Subject: [PATCH 53/91] fix: after an error the parser does not resume inside
 of words like 'exported'

---
 ts2python.ebnf     | 16 ++++++++--------
 ts2pythonParser.py | 20 ++++++++++----------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index 7b7e61d..5a73104 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -36,14 +36,14 @@ document    = ~ { interface | type_alias | _namespace | enum | const | module
                 | ["export"] declaration ";" | ["export"] function ";"
                 | Import ";" }
 
-@interface_resume = /(?=export|$)/
-@type_alias_resume = /(?=export|$)/
-@enum_resume = /(?=export|$)/
-@const_resume = /(?=export|$)/
-@declaration_resume = /(?=export|$)/
-@_top_level_assignment_resume = /(?=export|$)/
-@_top_level_literal_resume = /(?=export|$)/
-@module_resume = /(?=export|$)/
+@interface_resume = /(?=\bexport\b|$)/
+@type_alias_resume = /(?=\bexport\b|$)/
+@enum_resume = /(?=\bexport\b|$)/
+@const_resume = /(?=\bexport\b|$)/
+@declaration_resume = /(?=\bexport\b|$)/
+@_top_level_assignment_resume = /(?=\bexport\b|$)/
+@_top_level_literal_resume = /(?=\bexport\b|$)/
+@module_resume = /(?=\bexport\b|$)/
 
 module      = "declare" "module" _quoted_identifier "{" document "}"
 
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index ee5c84f..000e60f 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -146,9 +146,9 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "c632710d1b15d42ab6a05bd0f24d3346"
+    source_hash__ = "0e9bcc036261dc102d4d396157ca758b"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
-    disposable__ = re.compile('(?:INT$|NEG$|FRAC$|_array_ellipsis$|_top_level_assignment$|EOF$|_part$|_top_level_literal$|_namespace$|_let_var$|_readonly$|DOT$|_function$|_export$|_quoted_identifier$|EXP$)')
+    disposable__ = re.compile('(?:EXP$|_part$|DOT$|_function$|_top_level_assignment$|FRAC$|EOF$|_namespace$|_top_level_literal$|INT$|_let_var$|_quoted_identifier$|_readonly$|_export$|NEG$|_array_ellipsis$)')
     static_analysis_pending__ = []  # type: List[bool]
     parser_initialization__ = ["upon instantiation"]
     COMMENT__ = r'(?://.*(?:\n|$))|(?:/\*(?:[^*]|\*(?!/))*\*/) *\n?'
@@ -235,14 +235,14 @@ class ts2pythonGrammar(Grammar):
     declarations_block.set(Series(Series(Drop(Text("{")), dwsp__), Option(Series(Alternative(function, declaration), ZeroOrMore(Series(Option(SmartRE(f'(?:;)(?P<comment__>{WSP_RE__})|(?:,)(?P<comment__>{WSP_RE__})', '";"|","')), Alternative(function, declaration))), Option(Series(Series(Drop(Text(";")), dwsp__), map_signature)), Option(SmartRE(f'(?:;)(?P<comment__>{WSP_RE__})|(?:,)(?P<comment__>{WSP_RE__})', '";"|","')))), Series(Drop(Text("}")), dwsp__)))
     document.set(Series(dwsp__, ZeroOrMore(Alternative(interface, type_alias, _namespace, enum, const, module, _top_level_assignment, _array_ellipsis, _top_level_literal, Series(Option(Series(Drop(Text("export")), dwsp__)), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(Series(Drop(Text("export")), dwsp__)), function, Series(Drop(Text(";")), dwsp__)), Series(Import, Series(Drop(Text(";")), dwsp__))))))
     root = Series(document, EOF)
-    resume_rules__ = {'interface': [re.compile(r'(?=export|$)')],
-                      'type_alias': [re.compile(r'(?=export|$)')],
-                      'enum': [re.compile(r'(?=export|$)')],
-                      'const': [re.compile(r'(?=export|$)')],
-                      'declaration': [re.compile(r'(?=export|$)')],
-                      '_top_level_assignment': [re.compile(r'(?=export|$)')],
-                      '_top_level_literal': [re.compile(r'(?=export|$)')],
-                      'module': [re.compile(r'(?=export|$)')]}
+    resume_rules__ = {'interface': [re.compile(r'(?=\bexport\b|$)')],
+                      'type_alias': [re.compile(r'(?=\bexport\b|$)')],
+                      'enum': [re.compile(r'(?=\bexport\b|$)')],
+                      'const': [re.compile(r'(?=\bexport\b|$)')],
+                      'declaration': [re.compile(r'(?=\bexport\b|$)')],
+                      '_top_level_assignment': [re.compile(r'(?=\bexport\b|$)')],
+                      '_top_level_literal': [re.compile(r'(?=\bexport\b|$)')],
+                      'module': [re.compile(r'(?=\bexport\b|$)')]}
     root__ = root
         
 parsing: PseudoJunction = create_parser_junction(ts2pythonGrammar)
-- 
2.43.0


From ce05bc15e86ae330dd5539d2e4e5d408e8c03ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:28 +0000
Subject: [PATCH 54/91] fix: keywords must be separated from the word that
 follows them

---
 ts2python.ebnf     | 60 +++++++++++++++++++++++++++++++---------------
 ts2pythonParser.py | 50 +++++++++++++++++++++++++-------------
 2 files changed, 74 insertions(+), 36 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index 5a73104..5804d1e 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -18,10 +18,14 @@
 @ disposable  = INT, NEG, FRAC, DOT, EXP, EOF,
                 _array_ellipsis, _top_level_assignment, _top_level_literal,
                 _quoted_identifier, _namespace, _part,
-                _let_var, _export, _function, _readonly
+                _let_var, _export, _function, _readonly,
+                _EXPORT, _DECLARE, _MODULE, _IMPORT, _FROM, _AS, _INTERFACE, _CLASS,
+                _EXTENDS, _IMPLEMENTS, _TYPE, _NAMESPACE, _ENUM, _CONST, _IN, _NEW
 @ drop        = whitespace, no_comments, strings, EOF,
                 _array_ellipsis, _top_level_assignment, _top_level_literal,
-                _let_var, _export, _function, _readonly
+                _let_var, _export, _function, _readonly,
+                _EXPORT, _DECLARE, _MODULE, _IMPORT, _FROM, _AS, _INTERFACE, _CLASS,
+                _EXTENDS, _IMPLEMENTS, _TYPE, _NAMESPACE, _ENUM, _CONST, _IN, _NEW
 
 
 #######################################################################
@@ -33,7 +37,7 @@
 root        = document EOF
 document    = ~ { interface | type_alias | _namespace | enum | const | module
                 | _top_level_assignment | _array_ellipsis | _top_level_literal
-                | ["export"] declaration ";" | ["export"] function ";"
+                | [_EXPORT] declaration ";" | [_EXPORT] function ";"
                 | Import ";" }
 
 @interface_resume = /(?=\bexport\b|$)/
@@ -45,7 +49,7 @@ document    = ~ { interface | type_alias | _namespace | enum | const | module
 @_top_level_literal_resume = /(?=\bexport\b|$)/
 @module_resume = /(?=\bexport\b|$)/
 
-module      = "declare" "module" _quoted_identifier "{" document "}"
+module      = _DECLARE _MODULE _quoted_identifier "{" document "}"
 
 
 #######################################################################
@@ -54,9 +58,9 @@ module      = "declare" "module" _quoted_identifier "{" document "}"
 #
 #######################################################################
 
-Import      = "import" [( symlist | symbol ) "from"] string
+Import      = _IMPORT [( symlist | symbol ) _FROM] string
 symlist     = "{" symbol { "," symbol } "}"
-symbol      = identifier | wildcard [ "as" alias ]
+symbol      = identifier | wildcard [ _AS alias ]
 alias       = identifier
 wildcard    =   "*"
 
@@ -66,9 +70,9 @@ wildcard    =   "*"
 #
 #######################################################################
 
-interface   = ["export"] ["declare"] ("interface"|"class") §identifier [type_parameters]
+interface   = [_EXPORT] [_DECLARE] (_INTERFACE|_CLASS) §identifier [type_parameters]
               [extends] declarations_block [";"]
-extends     = ("extends" | "implements")
+extends     = (_EXTENDS | _IMPLEMENTS)
               (generic_type|type_name) { "," (generic_type|type_name)}
 
 declarations_block = "{" [(function|declaration) { [";"|","] (function|declaration) }
@@ -105,7 +109,7 @@ optional    = "?"
 #
 #######################################################################
 
-type_alias  = ["export"] "type" §identifier [type_parameters] "=" types ";"
+type_alias  = [_EXPORT] _TYPE §identifier [type_parameters] "=" types ";"
 
 types       = ["|"] (intersection | type) { "|" (intersection | type) }
 intersection = type { "&" §type }+
@@ -122,7 +126,7 @@ generic_type = type_name type_parameters
                   ( array_of | basic_type | generic_type     # actually, only a subset of array_of
                   | indexed_type | type_name [extends_type] [equals_type]
                   | declarations_block | type_tuple | declarations_tuple )
-  extends_type = "extends" [keyof] (basic_type | type_name | mapped_type )
+  extends_type = _EXTENDS [keyof] (basic_type | type_name | mapped_type )
   equals_type  = "=" (basic_type|type_name)
 
 array_of    = array_types "[" "]"
@@ -137,13 +141,13 @@ declarations_tuple = "[" declaration { "," declaration } "]"
 mapped_type = "{" map_signature [";"] "}"
 map_signature = index_signature ":" types
   index_signature = [readonly]
-                    "[" identifier (":" | ["in"] keyof | "in") type "]"
+                    "[" identifier (":" | [_IN] keyof | _IN) type "]"
                     [optional]
-  keyof = "keyof"
+  keyof = `keyof` !/\w/ ~
 
 indexed_type = type_name "[" (type_name | literal) "]"
 
-func_type   = ["new"] "(" [arg_list] ")" "=>" types
+func_type   = [_NEW] "(" [arg_list] ")" "=>" types
 
 #######################################################################
 #
@@ -153,14 +157,14 @@ func_type   = ["new"] "(" [arg_list] ")" "=>" types
 
 _namespace   = virtual_enum | namespace
 
-virtual_enum = ["export"] "namespace" identifier "{"
+virtual_enum = [_EXPORT] _NAMESPACE identifier "{"
               { interface | type_alias | enum | const
               | declaration ";" }  "}"
 
-namespace    = ["export"] "namespace" §identifier "{"
+namespace    = [_EXPORT] _NAMESPACE §identifier "{"
                { interface | type_alias | enum | const
-               | ["export"] declaration ";"
-               | ["export"] function ";" }  "}"
+               | [_EXPORT] declaration ";"
+               | [_EXPORT] function ";" }  "}"
 
 #######################################################################
 #
@@ -168,7 +172,7 @@ namespace    = ["export"] "namespace" §identifier "{"
 #
 #######################################################################
 
-enum        = ["export"] "enum" identifier §"{" item { "," item } [","] "}"
+enum        = [_EXPORT] _ENUM identifier §"{" item { "," item } [","] "}"
   item      = _quoted_identifier ["=" literal]
 
 #######################################################################
@@ -177,7 +181,7 @@ enum        = ["export"] "enum" identifier §"{" item { "," item } [","] "}"
 #
 #######################################################################
 
-const       = ["export"] "const" §declaration ["=" (literal | identifier)] ";"
+const       = [_EXPORT] _CONST §declaration ["=" (literal | identifier)] ";"
 _top_level_assignment = assignment
 assignment  = variable "=" (literal | variable) ";"  # no expressions, yet
 
@@ -209,6 +213,24 @@ object     = "{" [ association { "," association } ] [","] "}"
 basic_type   = (`object` | `array` | `string` | `number` | `boolean` | `null`
                | `integer` | `uinteger` | `decimal` | `unknown` | `any` | `void`) !/\w/ ~
 
+# keywords must not be taken for the beginning of a longer name
+_EXPORT     = `export` !/\w/ ~
+_DECLARE    = `declare` !/\w/ ~
+_MODULE     = `module` !/\w/ ~
+_IMPORT     = `import` !/\w/ ~
+_FROM       = `from` !/\w/ ~
+_AS         = `as` !/\w/ ~
+_INTERFACE  = `interface` !/\w/ ~
+_CLASS      = `class` !/\w/ ~
+_EXTENDS    = `extends` !/\w/ ~
+_IMPLEMENTS = `implements` !/\w/ ~
+_TYPE       = `type` !/\w/ ~
+_NAMESPACE  = `namespace` !/\w/ ~
+_ENUM       = `enum` !/\w/ ~
+_CONST      = `const` !/\w/ ~
+_IN         = `in` !/\w/ ~
+_NEW        = `new` !/\w/ ~
+
 #######################################################################
 #
 #: Entities
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 000e60f..7f5eb3e 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -146,9 +146,9 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "0e9bcc036261dc102d4d396157ca758b"
+    source_hash__ = "19bd45cd8b432313fc461887dd27599d"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
-    disposable__ = re.compile('(?:EXP$|_part$|DOT$|_function$|_top_level_assignment$|FRAC$|EOF$|_namespace$|_top_level_literal$|INT$|_let_var$|_quoted_identifier$|_readonly$|_export$|NEG$|_array_ellipsis$)')
+    disposable__ = re.compile('(?:_EXTENDS$|_MODULE$|_quoted_identifier$|_top_level_assignment$|_top_level_literal$|_export$|_function$|_CLASS$|_AS$|EXP$|_ENUM$|NEG$|DOT$|_namespace$|_array_ellipsis$|_IMPLEMENTS$|_INTERFACE$|_EXPORT$|EOF$|INT$|_CONST$|FRAC$|_TYPE$|_IMPORT$|_DECLARE$|_let_var$|_NEW$|_FROM$|_readonly$|_part$|_IN$|_NAMESPACE$)')
     static_analysis_pending__ = []  # type: List[bool]
     parser_initialization__ = ["upon instantiation"]
     COMMENT__ = r'(?://.*(?:\n|$))|(?:/\*(?:[^*]|\*(?!/))*\*/) *\n?'
@@ -168,6 +168,22 @@ class ts2pythonGrammar(Grammar):
     name = Series(SmartRE(f'(?!(?:true|false)(?!\\w))', '!/(?:true|false)(?!\\w)/'), _part, ZeroOrMore(Series(Text("."), _part)), dwsp__)
     _quoted_identifier = Alternative(identifier, Series(Series(Drop(Text('"')), dwsp__), identifier, Series(Drop(Text('"')), dwsp__), mandatory=2), Series(Series(Drop(Text("\'")), dwsp__), identifier, Series(Drop(Text("\'")), dwsp__), mandatory=2))
     variable = Synonym(name)
+    _NEW = Drop(SmartRE(f'(?P<:Text>new)(?!\\w)(?P<comment__>{WSP_RE__})', '`new` !/\\w/ ~'))
+    _IN = Drop(SmartRE(f'(?P<:Text>in)(?!\\w)(?P<comment__>{WSP_RE__})', '`in` !/\\w/ ~'))
+    _CONST = Drop(SmartRE(f'(?P<:Text>const)(?!\\w)(?P<comment__>{WSP_RE__})', '`const` !/\\w/ ~'))
+    _ENUM = Drop(SmartRE(f'(?P<:Text>enum)(?!\\w)(?P<comment__>{WSP_RE__})', '`enum` !/\\w/ ~'))
+    _NAMESPACE = Drop(SmartRE(f'(?P<:Text>namespace)(?!\\w)(?P<comment__>{WSP_RE__})', '`namespace` !/\\w/ ~'))
+    _TYPE = Drop(SmartRE(f'(?P<:Text>type)(?!\\w)(?P<comment__>{WSP_RE__})', '`type` !/\\w/ ~'))
+    _IMPLEMENTS = Drop(SmartRE(f'(?P<:Text>implements)(?!\\w)(?P<comment__>{WSP_RE__})', '`implements` !/\\w/ ~'))
+    _EXTENDS = Drop(SmartRE(f'(?P<:Text>extends)(?!\\w)(?P<comment__>{WSP_RE__})', '`extends` !/\\w/ ~'))
+    _CLASS = Drop(SmartRE(f'(?P<:Text>class)(?!\\w)(?P<comment__>{WSP_RE__})', '`class` !/\\w/ ~'))
+    _INTERFACE = Drop(SmartRE(f'(?P<:Text>interface)(?!\\w)(?P<comment__>{WSP_RE__})', '`interface` !/\\w/ ~'))
+    _AS = Drop(SmartRE(f'(?P<:Text>as)(?!\\w)(?P<comment__>{WSP_RE__})', '`as` !/\\w/ ~'))
+    _FROM = Drop(SmartRE(f'(?P<:Text>from)(?!\\w)(?P<comment__>{WSP_RE__})', '`from` !/\\w/ ~'))
+    _IMPORT = Drop(SmartRE(f'(?P<:Text>import)(?!\\w)(?P<comment__>{WSP_RE__})', '`import` !/\\w/ ~'))
+    _MODULE = Drop(SmartRE(f'(?P<:Text>module)(?!\\w)(?P<comment__>{WSP_RE__})', '`module` !/\\w/ ~'))
+    _DECLARE = Drop(SmartRE(f'(?P<:Text>declare)(?!\\w)(?P<comment__>{WSP_RE__})', '`declare` !/\\w/ ~'))
+    _EXPORT = Drop(SmartRE(f'(?P<:Text>export)(?!\\w)(?P<comment__>{WSP_RE__})', '`export` !/\\w/ ~'))
     basic_type = SmartRE(f'(?P<:Text>object|array|string|number|boolean|null|integer|uinteger|decimal|unknown|any|void)(?!\\w)(?P<comment__>{WSP_RE__})', '`object`|`array`|`string`|`number`|`boolean`|`null`|`integer`|`uinteger`|`decimal`|`unknown`|`any`|`void` !/\\w/ ~')
     key = Alternative(identifier, Series(Series(Drop(Text('"')), dwsp__), identifier, Series(Drop(Text('"')), dwsp__)))
     association = Series(key, Series(Drop(Text(":")), dwsp__), literal, mandatory=1)
@@ -182,16 +198,16 @@ class ts2pythonGrammar(Grammar):
     _array_ellipsis = Drop(Series(literal, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), literal))))
     assignment = Series(variable, Series(Drop(Text("=")), dwsp__), Alternative(literal, variable), Series(Drop(Text(";")), dwsp__))
     _top_level_assignment = Drop(Synonym(assignment))
-    const = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("const")), dwsp__), declaration, Option(Series(Series(Drop(Text("=")), dwsp__), Alternative(literal, identifier))), Series(Drop(Text(";")), dwsp__), mandatory=2)
+    const = Series(Option(_EXPORT), _CONST, declaration, Option(Series(Series(Drop(Text("=")), dwsp__), Alternative(literal, identifier))), Series(Drop(Text(";")), dwsp__), mandatory=2)
     item = Series(_quoted_identifier, Option(Series(Series(Drop(Text("=")), dwsp__), literal)))
-    enum = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("enum")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), item, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), item)), Option(Series(Drop(Text(",")), dwsp__)), Series(Drop(Text("}")), dwsp__), mandatory=3)
+    enum = Series(Option(_EXPORT), _ENUM, identifier, Series(Drop(Text("{")), dwsp__), item, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), item)), Option(Series(Drop(Text(",")), dwsp__)), Series(Drop(Text("}")), dwsp__), mandatory=3)
     readonly = SmartRE(f'(?P<:Text>readonly)(?!\\w)(?P<comment__>{WSP_RE__})(?![?:(;,}}\\s/])', '`readonly` !/\\w/ ~ !/[?:(;,}\\s\\/]/')
     _readonly = Drop(SmartRE(f'(?P<:Text>readonly)(?!\\w)(?P<comment__>{WSP_RE__})', '`readonly` !/\\w/ ~'))
     optional = Series(Text("?"), dwsp__)
-    func_type = Series(Option(Series(Drop(Text("new")), dwsp__)), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Series(Drop(Text("=>")), dwsp__), types)
-    extends = Series(SmartRE(f'(?:extends)(?P<comment__>{WSP_RE__})|(?:implements)(?P<comment__>{WSP_RE__})', '"extends"|"implements"'), Alternative(generic_type, type_name), ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), Alternative(generic_type, type_name))))
-    keyof = Series(Text("keyof"), dwsp__)
-    index_signature = Series(Option(readonly), Series(Drop(Text("[")), dwsp__), identifier, Alternative(Series(Drop(Text(":")), dwsp__), Series(Option(Series(Drop(Text("in")), dwsp__)), keyof), Series(Drop(Text("in")), dwsp__)), type, Series(Drop(Text("]")), dwsp__), Option(optional))
+    func_type = Series(Option(_NEW), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Series(Drop(Text("=>")), dwsp__), types)
+    extends = Series(Alternative(_EXTENDS, _IMPLEMENTS), Alternative(generic_type, type_name), ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), Alternative(generic_type, type_name))))
+    keyof = SmartRE(f'(?P<:Text>keyof)(?!\\w)(?P<comment__>{WSP_RE__})', '`keyof` !/\\w/ ~')
+    index_signature = Series(Option(readonly), Series(Drop(Text("[")), dwsp__), identifier, Alternative(Series(Drop(Text(":")), dwsp__), Series(Option(_IN), keyof), _IN), type, Series(Drop(Text("]")), dwsp__), Option(optional))
     map_signature = Series(index_signature, Series(Drop(Text(":")), dwsp__), types)
     mapped_type = Series(Series(Drop(Text("{")), dwsp__), map_signature, Option(Series(Drop(Text(";")), dwsp__)), Series(Drop(Text("}")), dwsp__))
     declarations_tuple = Series(Series(Drop(Text("[")), dwsp__), declaration, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), declaration)), Series(Drop(Text("]")), dwsp__))
@@ -201,17 +217,17 @@ class ts2pythonGrammar(Grammar):
     array_types = Synonym(array_type)
     array_of = Series(array_types, Series(Drop(Text("[")), dwsp__), Series(Drop(Text("]")), dwsp__))
     equals_type = Series(Series(Drop(Text("=")), dwsp__), Alternative(basic_type, type_name))
-    extends_type = Series(Series(Drop(Text("extends")), dwsp__), Option(keyof), Alternative(basic_type, type_name, mapped_type))
+    extends_type = Series(_EXTENDS, Option(keyof), Alternative(basic_type, type_name, mapped_type))
     parameter_type = Series(Option(_readonly), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, Option(extends_type), Option(equals_type)), declarations_block, type_tuple, declarations_tuple))
     parameter_types = Series(Option(Series(Drop(Text("|")), dwsp__)), parameter_type, ZeroOrMore(Series(Series(Drop(Text("|")), dwsp__), parameter_type)))
     type_parameters = Series(Series(Drop(Text("<")), dwsp__), parameter_types, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), parameter_types)), Series(Drop(Text(">")), dwsp__), mandatory=1)
-    interface = Series(Option(Series(Drop(Text("export")), dwsp__)), Option(Series(Drop(Text("declare")), dwsp__)), SmartRE(f'(?:interface)(?P<comment__>{WSP_RE__})|(?:class)(?P<comment__>{WSP_RE__})', '"interface"|"class"'), identifier, Option(type_parameters), Option(extends), declarations_block, Option(Series(Drop(Text(";")), dwsp__)), mandatory=3)
+    interface = Series(Option(_EXPORT), Option(_DECLARE), Alternative(_INTERFACE, _CLASS), identifier, Option(type_parameters), Option(extends), declarations_block, Option(Series(Drop(Text(";")), dwsp__)), mandatory=3)
     wildcard = Series(Text("*"), dwsp__)
     intersection = Series(type, OneOrMore(Series(Series(Drop(Text("&")), dwsp__), type, mandatory=1)))
     alias = Synonym(identifier)
-    type_alias = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("type")), dwsp__), identifier, Option(type_parameters), Series(Drop(Text("=")), dwsp__), types, Series(Drop(Text(";")), dwsp__), mandatory=2)
-    namespace = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("namespace")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(Option(Series(Drop(Text("export")), dwsp__)), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(Series(Drop(Text("export")), dwsp__)), function, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__), mandatory=2)
-    virtual_enum = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("namespace")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(declaration, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__))
+    type_alias = Series(Option(_EXPORT), _TYPE, identifier, Option(type_parameters), Series(Drop(Text("=")), dwsp__), types, Series(Drop(Text(";")), dwsp__), mandatory=2)
+    namespace = Series(Option(_EXPORT), _NAMESPACE, identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(Option(_EXPORT), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(_EXPORT), function, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__), mandatory=2)
+    virtual_enum = Series(Option(_EXPORT), _NAMESPACE, identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(declaration, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__))
     _function = Drop(SmartRE(f'(?P<:Text>function)(?!\\w)(?P<comment__>{WSP_RE__})(?![?(<\\s/])', '`function` !/\\w/ ~ !/[?(<\\s\\/]/'))
     _export = Drop(SmartRE(f'(?P<:Text>export)(?!\\w)(?P<comment__>{WSP_RE__})(?![?(<\\s/])', '`export` !/\\w/ ~ !/[?(<\\s\\/]/'))
     _let_var = Drop(SmartRE(f'(?P<:Text>let|var)(?!\\w)(?P<comment__>{WSP_RE__})(?![?:(;,}}\\s/])', '`let`|`var` !/\\w/ ~ !/[?:(;,}\\s\\/]/'))
@@ -221,10 +237,10 @@ class ts2pythonGrammar(Grammar):
     special = Series(Series(Drop(Text("[")), dwsp__), name, Series(Drop(Text("]")), dwsp__), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=4)
     argument = Series(identifier, Option(optional), Option(Series(Series(Drop(Text(":")), dwsp__), types)))
     arg_tail = Series(Series(Drop(Text("...")), dwsp__), identifier, Option(Series(Series(Drop(Text(":")), dwsp__), Alternative(array_of, generic_type))))
-    symbol = Alternative(identifier, Series(wildcard, Option(Series(Series(Drop(Text("as")), dwsp__), alias))))
+    symbol = Alternative(identifier, Series(wildcard, Option(Series(_AS, alias))))
     symlist = Series(Series(Drop(Text("{")), dwsp__), symbol, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), symbol)), Series(Drop(Text("}")), dwsp__))
-    Import = Series(Series(Drop(Text("import")), dwsp__), Option(Series(Alternative(symlist, symbol), Series(Drop(Text("from")), dwsp__))), string)
-    module = Series(Series(Drop(Text("declare")), dwsp__), Series(Drop(Text("module")), dwsp__), _quoted_identifier, Series(Drop(Text("{")), dwsp__), document, Series(Drop(Text("}")), dwsp__))
+    Import = Series(_IMPORT, Option(Series(Alternative(symlist, symbol), _FROM)), string)
+    module = Series(_DECLARE, _MODULE, _quoted_identifier, Series(Drop(Text("{")), dwsp__), document, Series(Drop(Text("}")), dwsp__))
     literal.set(Alternative(integer, number, boolean, string, array, object))
     generic_type.set(Series(type_name, type_parameters))
     type.set(Series(Option(_readonly), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, NegativeLookahead(Text("("))), Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__)), mapped_type, declarations_block, type_tuple, declarations_tuple, literal, func_type)))
@@ -233,7 +249,7 @@ class ts2pythonGrammar(Grammar):
     function.set(Alternative(Series(Option(Series(Option(_export), Option(static), Option(_function), identifier, Option(optional), Option(type_parameters))), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=2), special))
     declaration.set(Series(qualifiers, Option(_let_var), identifier, Option(optional), NegativeLookahead(Text("(")), Option(Series(Series(Drop(Text(":")), dwsp__), types))))
     declarations_block.set(Series(Series(Drop(Text("{")), dwsp__), Option(Series(Alternative(function, declaration), ZeroOrMore(Series(Option(SmartRE(f'(?:;)(?P<comment__>{WSP_RE__})|(?:,)(?P<comment__>{WSP_RE__})', '";"|","')), Alternative(function, declaration))), Option(Series(Series(Drop(Text(";")), dwsp__), map_signature)), Option(SmartRE(f'(?:;)(?P<comment__>{WSP_RE__})|(?:,)(?P<comment__>{WSP_RE__})', '";"|","')))), Series(Drop(Text("}")), dwsp__)))
-    document.set(Series(dwsp__, ZeroOrMore(Alternative(interface, type_alias, _namespace, enum, const, module, _top_level_assignment, _array_ellipsis, _top_level_literal, Series(Option(Series(Drop(Text("export")), dwsp__)), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(Series(Drop(Text("export")), dwsp__)), function, Series(Drop(Text(";")), dwsp__)), Series(Import, Series(Drop(Text(";")), dwsp__))))))
+    document.set(Series(dwsp__, ZeroOrMore(Alternative(interface, type_alias, _namespace, enum, const, module, _top_level_assignment, _array_ellipsis, _top_level_literal, Series(Option(_EXPORT), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(_EXPORT), function, Series(Drop(Text(";")), dwsp__)), Series(Import, Series(Drop(Text(";")), dwsp__))))))
     root = Series(document, EOF)
     resume_rules__ = {'interface': [re.compile(r'(?=\bexport\b|$)')],
                       'type_alias': [re.compile(r'(?=\bexport\b|$)')],
-- 
2.43.0


From 82f4a074c2a59249c71ba74f2081a76a57b103ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:40 +0000
Subject: [PATCH 55/91] fix: the errors of a later version of the source are
 not reported for an earlier one

---
 ts2pythonParser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 7f5eb3e..ae2b410 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1496,9 +1496,11 @@ def process_file(source: str, result_filename: str = '') -> str:
             with open(source_filename, 'r', encoding='utf-8') as f:
                 source_text = f.read()
         m = re.search(r'source_hash__ *= *"([\w.!? ]*)"', result)
-        if m and m.groups()[-1] == source_hash(source_text):
-            # no re-compilation necessary, because source hasn't changed
-            return next((fn for fn in message_files if os.path.isfile(fn)), '')
+        if m and m.groups()[-1] == source_hash(source_text) \
+                and not os.path.isfile(message_files[0]):
+            # no re-compilation necessary, because source hasn't changed.
+            # (Errors might stem from a later version of the source than the result)
+            return message_files[1] if os.path.isfile(message_files[1]) else ''
     result, errors = compile_src(source)
     for fn in message_files:  # remove messages from earlier runs
         if os.path.isfile(fn):
-- 
2.43.0


From 7b222aa1df7df7ad6e7eb11da4f9ce79d1928d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:22 +0000
Subject: [PATCH 56/91] fix: a result file that is not valid UTF-8 is
 overwritten rather than a crash

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index ae2b410..bcf5973 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1489,7 +1489,7 @@ def process_file(source: str, result_filename: str = '') -> str:
     message_files = [os.path.splitext(result_filename)[0] + ext
                      for ext in ('_ERRORS.txt', '_WARNINGS.txt')]
     if os.path.isfile(result_filename):
-        with open(result_filename, 'r', encoding='utf-8') as f:
+        with open(result_filename, 'r', encoding='utf-8', errors='replace') as f:
             result = f.read()
         source_text = source
         if source_filename:
-- 
2.43.0


From 7f0d15902ff5da9d08225a08c1a5905ebacc93b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:22 +0000
Subject: [PATCH 57/91] fix: overloaded call signatures, and overloads next to
 call signatures, are marked as such

---
 ts2pythonParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index bcf5973..c86e3cd 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -850,7 +850,8 @@ class ts2pythonCompiler(Compiler):
         first_use: Dict[str, Node] = dict()
         try:
             for func_decl in as_list(scope['function']):
-                name = func_decl['identifier'].content
+                name = func_decl['identifier'].content \
+                    if 'identifier' in func_decl else '__call__'
                 if keyword.iskeyword(name):
                     name += '_'
                 if name in first_use:
-- 
2.43.0


From ecec912e548ca86c93f64bd8bd1a6a627dab425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:48 +0000
Subject: [PATCH 58/91] fix: type of variadic parameters in generic array
 notation is kept

---
 ts2pythonParser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index c86e3cd..777747b 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -977,6 +977,11 @@ class ts2pythonCompiler(Compiler):
             type = self.compile(node['array_of'])[5:-1]
             self.obj_name.pop()
             return f'*{argname}: {type}'
+        elif 'generic_type' in node:
+            self.obj_name.append(to_typename(argname))
+            type = self.compile(node['generic_type'])
+            self.obj_name.pop()
+            return f'*{argname}: {type[5:-1]}' if type.startswith('List[') else '*' + argname
         else:
             return '*' + argname
 
-- 
2.43.0


From 3676ef7d2a712274f05955ebad247ced83128105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:36 +0000
Subject: [PATCH 59/91] fix: name of the enclosing object is restored after
 compiling types

---
 ts2pythonParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 777747b..e933d33 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1040,7 +1040,7 @@ class ts2pythonCompiler(Compiler):
         alternatives = []
         i = 0
 
-        obj_name_stub = self.obj_name[-1]
+        obj_name_stub = obj_name = self.obj_name[-1]
         fname = self.func_name[:1].upper() + self.func_name[1:]
         for nd in node.children:
             n = obj_name_stub.rfind('_')
@@ -1057,7 +1057,7 @@ class ts2pythonCompiler(Compiler):
             if (typ, is_literal) not in alternatives:
                 alternatives.append((typ, is_literal))
                 i += 1
-            self.obj_name[-1] = obj_name_stub
+            self.obj_name[-1] = obj_name
         union = [typ for typ, _ in alternatives]
         if self.is_toplevel():
             preface = self.render_local_classes()
-- 
2.43.0


From fa70092cf7c917b9b8ac16c267ce8beed1b366f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:36 +0000
Subject: [PATCH 60/91] fix: anonymous interfaces in the signatures of
 functions outside interfaces are defined

---
 ts2pythonParser.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index e933d33..ef8bcca 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -925,6 +925,14 @@ class ts2pythonCompiler(Compiler):
         tps, preface = self.process_type_parameters(node)
         if self.use_type_parameters:  preface = ''
         else:  tps = ''
+        is_toplevel = self.is_toplevel()
+        if is_toplevel:
+            # local classes of toplevel functions are rendered on the toplevel
+            self.obj_name.append(to_typename(name))
+            self.local_classes.append([])
+            self.optional_keys.append([])
+            self.class_names[id(self.local_classes[-1])] = \
+                (self.local_classes[-1], self.toplevel_class_names)
         try:
             arguments = self.compile(node['arg_list'])
             if self.scope_type[-1] == 'interface':
@@ -935,6 +943,11 @@ class ts2pythonCompiler(Compiler):
             return_type = self.compile(node['types'])
         except KeyError:
             return_type = 'Any'
+        if is_toplevel:
+            preface += self.render_local_classes()
+            self.optional_keys.pop()
+            self.local_classes.pop()
+            self.obj_name.pop()
         decorator = node.get_attr('decorator', '')
         fallback = ""
         type_error = "raise TypeError(f'First argument {arg1} of single-dispatch " \
-- 
2.43.0


From b30ba41e20abcd58c10218a91bfc1f4f89bf0a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:55 +0000
Subject: [PATCH 61/91] fix: type variables of methods and of functions in
 namespaces can be resolved in forward references

---
 ts2pythonParser.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index ef8bcca..9670d8c 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -581,6 +581,7 @@ class ts2pythonCompiler(Compiler):
         self.is_generic_alias: bool = False  # while compiling a generic type alias
         self.func_name: str = ''  # name of the current functions header or ''
         self.strip_type_from_const = False
+        self.nested_type_vars: List[str] = []  # type variables of nested definitions
 
 
     def compile(self, node) -> str:
@@ -635,6 +636,8 @@ class ts2pythonCompiler(Compiler):
             #     code_blocks.append(PEP655_IMPORTS)
         else:
             code_blocks = []
+        if self.nested_type_vars and not self.use_type_parameters:
+            code_blocks.append(''.join(self.nested_type_vars).rstrip('\n'))
         code_blocks.append(python_code)
         if self.tree.name == 'root':
             code_blocks.append('\n##### END OF ts2python generated code\n')
@@ -740,8 +743,16 @@ class ts2pythonCompiler(Compiler):
             tpl = [p.strip("'") for p in tp.split(', ')]
             tps = '[' + ', '.join(p for p in tpl) + ']'
             # tps = '[' + tp + ']'
-            preface = ''.join(f"{p} = TypeVar('{p}')\n"
-                              for p in tpl if not self.is_known_type(p))
+            type_vars = [f"{p} = TypeVar('{p}')\n"
+                         for p in tpl if not self.is_known_type(p)]
+            if self.scope_type[-1] and node.name != 'interface' or len(self.scope_type) > 2:
+                # type variables of nested definitions must be visible on the
+                # toplevel, because forward references are resolved there
+                self.nested_type_vars.extend(type_vars)
+                for p in tpl:
+                    if not self.is_known_type(p):  self.known_types[0][p] = '?'
+            else:
+                preface = ''.join(type_vars)
             for p in tpl:  self.add_to_known_types(node, p, '?')
         except KeyError:
             pass
-- 
2.43.0


From cf50517228936cc7e1aba918317021d25b3ce976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 62/91] fix: no warning that a namespace had been defined
 before if it had not

---
 ts2pythonParser.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 9670d8c..fe29043 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1279,7 +1279,6 @@ class ts2pythonCompiler(Compiler):
         if local_classes:
             declarations.insert(1, local_classes)
         self.known_types.pop()
-        self.add_to_known_types(node, name, 'namespace')
         self.local_classes.pop()
         self.optional_keys.pop()
         self.scope_type.pop()
-- 
2.43.0


From 7a4307743dc7d90f60880ef47c7647eb28a68f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 63/91] fix: values of recursive types are validated at any
 depth

---
 ts2python/json_validation.py | 41 ++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index 199c4f8..d6143a6 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -23,7 +23,7 @@ from enum import Enum
 import functools
 import inspect
 import sys
-from typing import Union, List, Tuple, Dict, Set, Any, \
+from typing import Union, List, Tuple, Dict, Set, Any, Optional, \
     TypeVar, Iterable, Callable, get_type_hints
 try:
     from typing_extensions import GenericMeta, \
@@ -73,11 +73,13 @@ def is_TypedDictClass(typ) -> bool:
     # except AttributeError:
     #     return False
 
-def validate_type(val: Any, typ):
+def validate_type(val: Any, typ, globalns: Optional[Dict] = None):
     """Raises a TypeError if value `val` is not of type `typ`.
     In particualr, `validate_type()` can be used to validate
     dictionaries against TypedDict-types and, more general,
     to validate JSON-data.
+    Forward references that are left over in `typ`, e.g. by recursive
+    types, are looked up in the namespace `globalns`.
     Examples::
     >>> validate_type(1, int)
     >>> validate_type(['alpha', 'beta', 'gamma'], List[str])
@@ -99,13 +101,16 @@ def validate_type(val: Any, typ):
         if not isinstance(val, Dict):
             raise TypeError(f"{val} is not even a dictionary")
         validate_TypedDict(val, typ)
+    elif isinstance(typ, (str, ForwardRef)) and globalns is not None:
+        type_name = typ if isinstance(typ, str) else typ.__forward_arg__
+        validate_type(val, eval(type_name, globalns), globalns)
     elif typ is Any or isinstance(typ, TypeVar):
         pass
     elif typ is None:
         if val is not None:
             raise TypeError(f"{val} is not None")
     elif hasattr(typ, '__args__'):
-        validate_compound_type(val, typ)
+        validate_compound_type(val, typ, globalns)
     else:
         if not isinstance(val, typ) and not (typ is float and isinstance(val, int)):
             if issubclass(typ, Enum):  #  and isinstance(val, (int, str)):
@@ -114,7 +119,7 @@ def validate_type(val: Any, typ):
                 raise TypeError(f"{val} is not of type {typ}")
 
 
-def validate_uniform_sequence(sequence: Iterable, item_type):
+def validate_uniform_sequence(sequence: Iterable, item_type, globalns: Optional[Dict] = None):
     """Ensures that every item in a given sequence is of the same particular
     type. Example::
 
@@ -127,14 +132,15 @@ def validate_uniform_sequence(sequence: Iterable, item_type):
 
     :param sequence: An iterable to be validated
     :param item_type: The expected type of all items the iterable `sequence` yields.
+    :param globalns: The namespace for left over forward references.
 
     """
     # assert not isinstance(item_type, str), f'Unresolved type name or forward reference for {item_type}!'
     for val in sequence:
-        validate_type(val, item_type)
+        validate_type(val, item_type, globalns)
 
 
-def validate_compound_type(value: Any, T):
+def validate_compound_type(value: Any, T, globalns: Optional[Dict] = None):
     """Validates a value against a compound type like
     List[str], Tuple[int, ...], Dict[str, int]. Generally, compound types
     are types with arguments. Returns None, if the validation was
@@ -149,6 +155,7 @@ def validate_compound_type(value: Any, T):
 
     :param value: the value which shall by validated against the given type
     :param T: the type which the value is supposed to represent.
+    :param globalns: the namespace for left over forward references.
     :return: None
     :raise: TypeError if value is not of compound type T.
             ValueError if T is not a compound type.
@@ -162,7 +169,7 @@ def validate_compound_type(value: Any, T):
     elif OT is Union or OT is UnionType:
         for typ in get_args(T):
             try:
-                validate_type(value, typ)
+                validate_type(value, typ, globalns)
                 break
             except (TypeError, ValueError):
                 pass
@@ -174,20 +181,20 @@ def validate_compound_type(value: Any, T):
         if isinstance(value, Dict):
             assert len(T.__args__) == 2, str(T)
             key_type, value_type = T.__args__
-            validate_uniform_sequence(value.keys(), key_type)
-            validate_uniform_sequence(value.values(), value_type)
+            validate_uniform_sequence(value.keys(), key_type, globalns)
+            validate_uniform_sequence(value.values(), value_type, globalns)
         elif OT is tuple:  # JSON represents tuples as lists
             if len(T.__args__) == 2 and T.__args__[-1] is Ellipsis:
-                validate_uniform_sequence(value, T.__args__[0])
+                validate_uniform_sequence(value, T.__args__[0], globalns)
             else:
                 if len(T.__args__) != len(value):
                     raise TypeError(f"{value} is not of type {T}")
                 for item, typ in zip(value, T.__args__):
-                    validate_type(item, typ)
+                    validate_type(item, typ, globalns)
         else:  # assume that value is of type List
             if len(T.__args__) != 1:
                 raise ValueError(f"Unknown compound type {T}")
-            validate_uniform_sequence(value, T.__args__[0])
+            validate_uniform_sequence(value, T.__args__[0], globalns)
     else:
         raise TypeError(f"{value} is not of type {T}")
 
@@ -221,6 +228,7 @@ def validate_TypedDict(D: Dict, T: _TypedDictMeta):
     assert isinstance(D, Dict), str(D)
     assert is_TypedDictClass(T), str(T)
     type_errors = []
+    globalns = getattr(sys.modules.get(T.__module__, None), '__dict__', {})
     missing = T.__required_keys__ - D.keys()
     if missing:
         type_errors.append(f"Missing required keys: {missing}")
@@ -239,11 +247,11 @@ def validate_TypedDict(D: Dict, T: _TypedDictMeta):
                                    f"but of type {type(D[field])}")
         elif get_origin(field_type) is Union or get_origin(field_type) is UnionType:
             try:
-                validate_compound_type(D[field], field_type)
+                validate_compound_type(D[field], field_type, globalns)
             except TypeError as e:
                 type_errors.append(f"Field {field}: {e}")
         elif hasattr(field_type, '__args__'):
-            validate_compound_type(D[field], field_type)
+            validate_compound_type(D[field], field_type, globalns)
         elif field_type is Any or isinstance(field_type, TypeVar):
             pass  # for now
         elif not isinstance(D[field], field_type) \
@@ -301,6 +309,7 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
     """
     signature = inspect.signature(func)
     arg_types = get_type_hints(func)
+    globalns = getattr(inspect.unwrap(func), '__globals__', {})
     return_type = arg_types.get('return', None)
     if return_type is not None:  del arg_types['return']
     assert arg_types or return_type, \
@@ -319,7 +328,7 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
             else:
                 values = (value,)
             try:
-                validate_uniform_sequence(values, arg_types[name])
+                validate_uniform_sequence(values, arg_types[name], globalns)
             except (TypeError, ValueError) as e:
                 raise TypeError(
                     f'Parameter "{name}" of function "{func.__name__}" failed '
@@ -327,7 +336,7 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
         ret = func(*args, **kwargs)
         if check_return_type and return_type:
             try:
-                validate_type(ret, return_type)
+                validate_type(ret, return_type, globalns)
             except (TypeError, ValueError) as e:
                 raise TypeError(
                     f'Value returned by function "{func.__name__}" failed '
-- 
2.43.0


From d8113ad8be2ddf15b2f6114e5b43ca7ab1f840cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 64/91] fix: type aliases can refer to themselves

---
 ts2pythonParser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index fe29043..48d094e 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -829,8 +829,6 @@ class ts2pythonCompiler(Compiler):
             shadowed = known_types.get(alias, '') in ('namespace', 'enum', 'virtual_enum')
             tps, preface = self.process_type_parameters(node)
             self.is_generic_alias = bool(tps)
-            if not shadowed:
-                self.add_to_known_types(node, alias, 'type_alias')
             self.local_classes.append([])
             self.optional_keys.append([])
             # local classes of type aliases are rendered on the toplevel
@@ -838,6 +836,9 @@ class ts2pythonCompiler(Compiler):
                 (self.local_classes[-1], self.toplevel_class_names)
             types = self.compile(node['types'])
             self.is_generic_alias = False
+            if not shadowed:
+                # not any earlier, because types may refer to themselves
+                self.add_to_known_types(node, alias, 'type_alias')
             preface += self.render_local_classes()
             self.optional_keys.pop()
             self.local_classes.pop()
-- 
2.43.0


From 232e6a127c76d5d17a3ed85213b6e224c4270480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 65/91] fix: singledispatch: classes registered with abstract
 classes of a union later are dispatched

---
 ts2python/singledispatch_shim.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index 73cb484..2e828d9 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -177,15 +177,13 @@ def singledispatch(func):
                         f"{cls!r} of type {type(cls)!r} is not a class."
                     )
 
-        if _is_union_type(cls):
-            for arg in get_args(cls):
-                registry[arg] = func
-        else:
-            registry[cls] = func
+        classes = get_args(cls) if _is_union_type(cls) else (cls,)
+        for arg in classes:
+            registry[arg] = func
         if 'postponed' in registry:
             # keep the order of registrations
             registry['postponed'].append((cls, func))
-        if cache_token is None and hasattr(cls, '__abstractmethods__'):
+        if cache_token is None and any(hasattr(arg, '__abstractmethods__') for arg in classes):
             cache_token = get_cache_token()
         dispatch_cache.clear()
         return func
-- 
2.43.0


From 50a52e3b1e5aefc60fac2c810459aedfe54c3849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:43 +0000
Subject: [PATCH 66/91] fix: command line switches -b, -a, -d and -k work if
 the configuration file lacks their keys

---
 ts2pythonParser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 48d094e..0fada46 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1736,9 +1736,9 @@ def main():
                 set_preset_value('ts2python.UseVariadicGenerics', True, allow_new_key=True)
             if version_info >= (3, 12):
                 set_preset_value('ts2python.UseTypeParameters', True, allow_new_key=True)
-        if args.base:  set_preset_value('ts2python.BaseClassName', args.base[0].strip())
-        if args.anonymous:  set_preset_value('ts2python.RenderAnonymous', args.anonymous[0].strip())
-        if args.decorator:  set_preset_value('ts2python.ClassDecorator', args.decorator[0].strip())
+        if args.base:  set_preset_value('ts2python.BaseClassName', args.base[0].strip(), allow_new_key=True)
+        if args.anonymous:  set_preset_value('ts2python.RenderAnonymous', args.anonymous[0].strip(), allow_new_key=True)
+        if args.decorator:  set_preset_value('ts2python.ClassDecorator', args.decorator[0].strip(), allow_new_key=True)
         if args.peps:
             args_peps = [pep.strip() for pep in args.peps]
             all_peps = { '435',  '584',  '586',  '604',  '646',  '655',
@@ -1759,7 +1759,7 @@ def main():
                 if pep == '604':  set_preset_value('ts2python.UseTypeUnion', **kwargs)
                 if pep == '646': set_preset_value('ts2python.UseVariadicGenerics', **kwargs)
                 if pep == '655':  set_preset_value('ts2python.UseNotRequired', **kwargs)
-        if args.comments: set_preset_value('ts2python.KeepMultilineComments', True)
+        if args.comments: set_preset_value('ts2python.KeepMultilineComments', True, allow_new_key=True)
         finalize_presets()
         _ = get_config_values('ts2python.*')  # fill config value cache
 
-- 
2.43.0


From bed3c0d8093af36c82c4b2c20ce81a8b5ad3c8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 67/91] fix: methods of anonymous interfaces outside of
 interfaces have a self parameter, too

---
 ts2pythonParser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 0fada46..1caac0f 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -858,7 +858,7 @@ class ts2pythonCompiler(Compiler):
         return code
 
     def mark_overloaded_functions(self, scope: Node):
-        is_interface = self.scope_type[-1] in ('interface', 'namespace')
+        is_interface = self.scope_type[-1] in ('interface', 'namespace', 'anonymous')
         first_use: Dict[str, Node] = dict()
         try:
             for func_decl in as_list(scope['function']):
@@ -947,10 +947,10 @@ class ts2pythonCompiler(Compiler):
                 (self.local_classes[-1], self.toplevel_class_names)
         try:
             arguments = self.compile(node['arg_list'])
-            if self.scope_type[-1] == 'interface':
+            if self.scope_type[-1] in ('interface', 'anonymous'):
                 arguments = 'self, ' + arguments
         except KeyError:
-            arguments = 'self' if self.scope_type[-1] == 'interface' else ''
+            arguments = 'self' if self.scope_type[-1] in ('interface', 'anonymous') else ''
         try:
             return_type = self.compile(node['types'])
         except KeyError:
@@ -1153,7 +1153,9 @@ class ts2pythonCompiler(Compiler):
             class_name = self.claim_class_name()
             self.local_classes.append([])
             self.optional_keys.append([])
+            self.scope_type.append('anonymous')
             decls = self.compile(typ)
+            self.scope_type.pop()
             result = self.render_declarations(decls)
             self.optional_keys.pop()
             self.local_classes.pop()
-- 
2.43.0


From d1ebaf9986b486015aabdc6029d8f45c2c784dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 68/91] fix: names of toplevel classes for anonymous interfaces
 in special methods are not mangled

---
 ts2pythonParser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 1caac0f..f697d94 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1067,6 +1067,8 @@ class ts2pythonCompiler(Compiler):
 
         obj_name_stub = obj_name = self.obj_name[-1]
         fname = self.func_name[:1].upper() + self.func_name[1:]
+        if fname.startswith('__') and self.render_anonymous == 'toplevel':
+            fname = fname.strip('_')  # would be mangled when referred to within classes
         for nd in node.children:
             n = obj_name_stub.rfind('_')
             ending = obj_name_stub[n + 1:]
-- 
2.43.0


From b4ce49faaa3916f6e7ea4b0a663c8e96007e45ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 69/91] fix: files included by the specifications may include
 others by their absolute path

---
 demo/extract_ts_from_lsp_specs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/demo/extract_ts_from_lsp_specs.py b/demo/extract_ts_from_lsp_specs.py
index 5f0b69e..2eee38e 100755
--- a/demo/extract_ts_from_lsp_specs.py
+++ b/demo/extract_ts_from_lsp_specs.py
@@ -66,7 +66,9 @@ RX_INCLUDE = re.compile(r'{%\s*include_relative\s*(?P<relative>[A-Za-z0-9/.]+?\.
 def download_specs(url: str) -> str:
     specfile = download_specfile(url)
     relurl_path = url[:url.rfind('/') + 1]
-    absurl_path = url[:url.find('_specifications/')] + '_includes/'
+    root = url.find('_specifications/')
+    if root < 0: root = url.find('_includes/')  # included files can include others
+    absurl_path = url[:root] + '_includes/'
     parts = []
     e = 0
     for m in RX_INCLUDE.finditer(specfile):
-- 
2.43.0


From d8eb599ee6d212cc13e9a86c34b83dcb380a0797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 70/91] fix: names of files included by the specifications may
 contain hyphens and underscores

---
 demo/extract_ts_from_lsp_specs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/extract_ts_from_lsp_specs.py b/demo/extract_ts_from_lsp_specs.py
index 2eee38e..7c5daf8 100755
--- a/demo/extract_ts_from_lsp_specs.py
+++ b/demo/extract_ts_from_lsp_specs.py
@@ -60,7 +60,7 @@ def download_specfile(url: str) -> str:
     return specs.decode('utf-8')
 
 
-RX_INCLUDE = re.compile(r'{%\s*include_relative\s*(?P<relative>[A-Za-z0-9/.]+?\.md)\s*%}|{%\s*include\s*(?P<absolute>[A-Za-z0-9/.]+?\.md)\s*%}')
+RX_INCLUDE = re.compile(r'{%\s*include_relative\s*(?P<relative>[A-Za-z0-9_/.-]+?\.md)\s*%}|{%\s*include\s*(?P<absolute>[A-Za-z0-9_/.-]+?\.md)\s*%}')
 
 
 def download_specs(url: str) -> str:
-- 
2.43.0


From 06facb0c1cfa840db109c6c89acbb2dbe35c569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 71/91] fix: sets are imported by the generated code that
 refers to them

---
 ts2pythonParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index f697d94..e5ae9bc 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -366,11 +366,11 @@ import enum
 import sys
 from enum import Enum, IntEnum
 if sys.version_info >= (3, 9, 0):
-    from typing import Union, Optional, Any, Generic, TypeVar, Callable, List, Tuple, Dict
+    from typing import Union, Optional, Any, Generic, TypeVar, Callable, List, Tuple, Dict, Set
     # do not use list, tuple, dict, because contained types won't be forward ref'd
     from collections.abc import Coroutine
 else:
-    from typing import Union, List, Tuple, Optional, Dict, Any, Generic, TypeVar, Callable, Coroutine
+    from typing import Union, List, Tuple, Optional, Dict, Set, Any, Generic, TypeVar, Callable, Coroutine
 """
 
 TYPEDDICT_IMPORTS = """
-- 
2.43.0


From 9dfb992ee651d1475ddc9794a1c59b7845413c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 72/91] fix: number literals must be separated from the word
 that follows them

---
 ts2python.ebnf     | 4 ++--
 ts2pythonParser.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index 5804d1e..56f1011 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -195,8 +195,8 @@ _array_ellipsis = literal { "," literal }
 
 _top_level_literal = literal
 literal    = integer | number | boolean | string | array | object
-integer    = INT !/[.Ee]/ ~
-number     = INT FRAC EXP ~
+integer    = INT !/[.\w]/ ~
+number     = INT FRAC EXP !/\w/ ~
 boolean    = (`true` | `false`) !/\w/ ~
 string     = /"[^"\n]*"/~ | /'[^'\n]*'/~
 array      = "[" [ literal { "," literal } ] "]"
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index e5ae9bc..6d5d8a4 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -146,9 +146,9 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "19bd45cd8b432313fc461887dd27599d"
+    source_hash__ = "b3573050e07280b41d96cb05b00b7e05"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
-    disposable__ = re.compile('(?:_EXTENDS$|_MODULE$|_quoted_identifier$|_top_level_assignment$|_top_level_literal$|_export$|_function$|_CLASS$|_AS$|EXP$|_ENUM$|NEG$|DOT$|_namespace$|_array_ellipsis$|_IMPLEMENTS$|_INTERFACE$|_EXPORT$|EOF$|INT$|_CONST$|FRAC$|_TYPE$|_IMPORT$|_DECLARE$|_let_var$|_NEW$|_FROM$|_readonly$|_part$|_IN$|_NAMESPACE$)')
+    disposable__ = re.compile('(?:_export$|_IMPORT$|_namespace$|_IN$|_IMPLEMENTS$|_function$|DOT$|_CLASS$|_array_ellipsis$|_EXTENDS$|_CONST$|_quoted_identifier$|_DECLARE$|_FROM$|_MODULE$|_part$|_AS$|_top_level_assignment$|FRAC$|_EXPORT$|_TYPE$|_ENUM$|_readonly$|EXP$|_top_level_literal$|_let_var$|INT$|NEG$|_INTERFACE$|_NAMESPACE$|_NEW$|EOF$)')
     static_analysis_pending__ = []  # type: List[bool]
     parser_initialization__ = ["upon instantiation"]
     COMMENT__ = r'(?://.*(?:\n|$))|(?:/\*(?:[^*]|\*(?!/))*\*/) *\n?'
@@ -191,8 +191,8 @@ class ts2pythonGrammar(Grammar):
     array = Series(Series(Drop(Text("[")), dwsp__), Option(Series(literal, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), literal)))), Series(Drop(Text("]")), dwsp__))
     string = SmartRE(f'("[^"\\n]*")(?P<comment__>{WSP_RE__})|(\'[^\'\\n]*\')(?P<comment__>{WSP_RE__})', '/"[^"\\n]*"/ ~|/\'[^\'\\n]*\'/ ~')
     boolean = SmartRE(f'(?P<:Text>true|false)(?!\\w)(?P<comment__>{WSP_RE__})', '`true`|`false` !/\\w/ ~')
-    number = Series(INT, FRAC, EXP, dwsp__)
-    integer = Series(INT, SmartRE(f'(?![.Ee])', '!/[.Ee]/'), dwsp__)
+    number = Series(INT, FRAC, EXP, SmartRE(f'(?!\\w)', '!/\\w/'), dwsp__)
+    integer = Series(INT, SmartRE(f'(?![.\\w])', '!/[.\\w]/'), dwsp__)
     type_name = Synonym(name)
     _top_level_literal = Drop(Synonym(literal))
     _array_ellipsis = Drop(Series(literal, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), literal))))
-- 
2.43.0


From c4f14af2e11a640752d5dc4b77ff77da2e51cd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 73/91] fix: parameters of function types may lack a type

---
 ts2pythonParser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 6d5d8a4..10467c8 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -992,6 +992,7 @@ class ts2pythonCompiler(Compiler):
             arg_list = [self.compile(nd) for nd in node.children]
             if any(arg[0:1] == '*' for arg in arg_list):
                 return '...'
+            arg_list = [re.sub(r'^\w+$', 'Any', arg) for arg in arg_list]
             return ', '.join(re.sub(r'^\w+\s*:\s*', '', arg) for arg in arg_list)
         return ', '.join(self.compile(nd) for nd in node.children)
 
-- 
2.43.0


From a46156a8b6e631faeacac5438e6d3785a1e53cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 74/91] fix: constants may be null or undefined

---
 ts2pythonParser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 10467c8..9c4ed85 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1319,11 +1319,12 @@ class ts2pythonCompiler(Compiler):
 
     def on_const(self, node) -> str:
         if 'literal' in node or 'identifier' in node:
+            value = 'None' if node[-1].content in ('null', 'undefined') \
+                else self.compile(node[-1])
             if self.strip_type_from_const:
-                return self.compile(node['declaration']['identifier']) \
-                       + ' = ' + self.compile(node[-1])
+                return self.compile(node['declaration']['identifier']) + ' = ' + value
             else:
-                return self.compile(node['declaration']) + ' = ' + self.compile(node[-1])
+                return self.compile(node['declaration']) + ' = ' + value
         else:
             # const without assignment, e.g. "export const version: string;"
             return self.compile(node['declaration'])
-- 
2.43.0


From 2785384a094cda5da39270fd44cd2d13d8cfdd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 75/91] fix: namespaces with constants that refer to constants
 outside are not integer enumerations

---
 ts2pythonParser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 9c4ed85..32b59ad 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1237,8 +1237,10 @@ class ts2pythonCompiler(Compiler):
             self.add_to_known_types(node, name, 'virtual_enum')
         save = self.strip_type_from_const
         if all(child.name in ('const', 'comment__') for child in node.children[1:]):
-            if all(nd['literal'][0].name == 'integer'
-                   for nd in node.select_children('const') if 'literal' in nd):
+            names = {nd['declaration']['identifier'].content for nd in node.select_children('const')}
+            if all(nd['literal'][0].name == 'integer' if 'literal' in nd else
+                   'identifier' not in nd or nd['identifier'].content in names
+                   for nd in node.select_children('const')):
                 header = f'class {name}(IntEnum):'
             else:
                 header =  f'class {name}(Enum):'
-- 
2.43.0


From 8478dd947fef35c28f2ee38db18cb08b90a9615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 76/91] fix: values that are no collections, like functions and
 iterators, are not iterated over for validation

---
 ts2python/json_validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index d6143a6..ace3daa 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -24,7 +24,7 @@ import functools
 import inspect
 import sys
 from typing import Union, List, Tuple, Dict, Set, Any, Optional, \
-    TypeVar, Iterable, Callable, get_type_hints
+    TypeVar, Iterable, Callable, Collection, get_type_hints
 try:
     from typing_extensions import GenericMeta, \
         ClassVar, Final, Protocol, NoReturn, Literal
@@ -191,7 +191,7 @@ def validate_compound_type(value: Any, T, globalns: Optional[Dict] = None):
                     raise TypeError(f"{value} is not of type {T}")
                 for item, typ in zip(value, T.__args__):
                     validate_type(item, typ, globalns)
-        else:  # assume that value is of type List
+        elif isinstance(value, Collection):  # assume that value is of type List
             if len(T.__args__) != 1:
                 raise ValueError(f"Unknown compound type {T}")
             validate_uniform_sequence(value, T.__args__[0], globalns)
-- 
2.43.0


From 7e449fbb66c03bafb8eaac4f810520782811252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 77/91] fix: type_check checks the results of coroutine
 functions, not the coroutines

---
 ts2python/json_validation.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index ace3daa..daec231 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -315,8 +315,7 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
     assert arg_types or return_type, \
         f'type_check-decorated "{func}" has no type annotations'
 
-    @functools.wraps(func)
-    def guard(*args, **kwargs):
+    def check_arguments(args, kwargs):
         for name, value in signature.bind(*args, **kwargs).arguments.items():
             if name not in arg_types:
                 continue
@@ -333,7 +332,8 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
                 raise TypeError(
                     f'Parameter "{name}" of function "{func.__name__}" failed '
                     f'the type-check, because:\n{str(e)}')
-        ret = func(*args, **kwargs)
+
+    def check_return_value(ret):
         if check_return_type and return_type:
             try:
                 validate_type(ret, return_type, globalns)
@@ -343,4 +343,15 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
                     f'the type-check, because: {str(e)}')
         return ret
 
+    if inspect.iscoroutinefunction(func):
+        @functools.wraps(func)
+        async def guard(*args, **kwargs):
+            check_arguments(args, kwargs)
+            return check_return_value(await func(*args, **kwargs))
+    else:
+        @functools.wraps(func)
+        def guard(*args, **kwargs):
+            check_arguments(args, kwargs)
+            return check_return_value(func(*args, **kwargs))
+
     return guard
-- 
2.43.0


From 80669940327902fe69d590af17fccd442254fdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 78/91] fix: dictionaries are validated as collections of their
 keys if this is what is expected

---
 ts2python/json_validation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index daec231..acdb704 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -178,8 +178,7 @@ def validate_compound_type(value: Any, T, globalns: Optional[Dict] = None):
     elif is_TypedDictClass(OT):
         validate_type(value, OT)
     elif isinstance(value, OT) or (OT is tuple and isinstance(value, list)):
-        if isinstance(value, Dict):
-            assert len(T.__args__) == 2, str(T)
+        if isinstance(value, Dict) and len(T.__args__) == 2:
             key_type, value_type = T.__args__
             validate_uniform_sequence(value.keys(), key_type, globalns)
             validate_uniform_sequence(value.values(), value_type, globalns)
-- 
2.43.0


From ef2b2d7621d1fc2e41e9729f37db7c6b1584b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 79/91] fix: keep comment marks inside of preserved comments,
 e.g. "//" in URLs

---
 ts2pythonParser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 32b59ad..386e798 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -660,8 +660,10 @@ class ts2pythonCompiler(Compiler):
             comment = node.content
             multiline = True if re.match(' *\n', comment) else False
             comment = comment.strip()
-            comment = re.sub(r'/\*+\s*|\s*\*/|//[ \t]*', '', comment)
-            comment = re.sub(r'(?:\n|^)[ \t]*\* ?', '\n', comment).lstrip()
+            comment = re.sub(
+                r'/\*+\s*((?:.|\n)*?)\s*\*+/|//[ \t]*(.*)',
+                lambda m: m[2] if m[1] is None else re.sub(r'(?:\n|^)[ \t]*\* ?', '\n', m[1]),
+                comment).lstrip()
             lines = comment.split('\n')
             for i in range(len(lines)):
                 line = lines[i].strip()
-- 
2.43.0


From 78a2403869ac21508d8cef3f14de7e7a56cb59a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 80/91] fix: report identifiers that Python does not allow,
 e.g. with enclosed characters

---
 ts2pythonParser.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 386e798..b82bd8e 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1440,14 +1440,15 @@ class ts2pythonCompiler(Compiler):
         return self.compile(node['name'])
 
     def on_name(self, node):
-        return '.'.join((name + '_' if keyword.iskeyword(name) else name)
-                        for name in node.content.split('.'))
+        return '.'.join(self.python_name(node, name) for name in node.content.split('.'))
 
     def on_identifier(self, node) -> str:
-        identifier = node.content
-        if keyword.iskeyword(identifier):
-            identifier += '_'
-        return identifier
+        return self.python_name(node, node.content)
+
+    def python_name(self, node, name: str) -> str:
+        if not name.isidentifier():
+            self.tree.new_error(node, f'"{name}" is not a valid identifier in Python!')
+        return name + '_' if keyword.iskeyword(name) else name
 
 compiling: Junction = create_junction(
     ts2pythonCompiler, "ast", "py")
-- 
2.43.0


From 8f84643c8ba86904700f1973026887dc10ccda13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 81/91] fix: render escape sequences that mean something else
 in Python, e.g. in "C:\Users"

---
 ts2pythonParser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index b82bd8e..b61fb05 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -481,6 +481,9 @@ TYPE_NAME_SUBSTITUTION = {
 
 
 RX_STRING = r"""(?:"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*')"""  # Python string
+# escape sequences: same in TypeScript and Python, code points, all others mean the character itself
+RX_ESCAPE = r"""\\(?:([bfnrtv\\'"]|0(?!\d)|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4})""" \
+            r"""|u\{0*([0-9a-fA-F]{1,5}|10[0-9a-fA-F]{4})\}|(.))"""
 RX_LITERAL_TYPE = r"Literal\[(?:" + RX_STRING + r"|[^\]'\"])*\]"
 
 
@@ -1350,7 +1353,9 @@ class ts2pythonCompiler(Compiler):
         return {'true': 'True', 'false': 'False'}[node.content]
 
     def on_string(self, node) -> str:
-        return node.content
+        return re.sub(RX_ESCAPE,
+                      lambda m: m[0] if m[1] else m[3] or f'\\U{int(m[2], 16):08x}',
+                      node.content)
 
     def on_array(self, node) -> str:
         return '[' + \
-- 
2.43.0


From 2b709122b4560e2e62766254ff4b101994ee094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 82/91] fix: strings may contain escaped quotes and do not end
 with an escaped one

---
 ts2python.ebnf     | 2 +-
 ts2pythonParser.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index 56f1011..31fb339 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -198,7 +198,7 @@ literal    = integer | number | boolean | string | array | object
 integer    = INT !/[.\w]/ ~
 number     = INT FRAC EXP !/\w/ ~
 boolean    = (`true` | `false`) !/\w/ ~
-string     = /"[^"\n]*"/~ | /'[^'\n]*'/~
+string     = /"(?:\\.|[^"\\\n])*"/~ | /'(?:\\.|[^'\\\n])*'/~
 array      = "[" [ literal { "," literal } ] "]"
 object     = "{" [ association { "," association } ] [","] "}"
   association = key §":" literal
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index b61fb05..94e8f78 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -146,7 +146,7 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "b3573050e07280b41d96cb05b00b7e05"
+    source_hash__ = "fbb11ecc63f7839effb24a5db1734ce3"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
     disposable__ = re.compile('(?:_export$|_IMPORT$|_namespace$|_IN$|_IMPLEMENTS$|_function$|DOT$|_CLASS$|_array_ellipsis$|_EXTENDS$|_CONST$|_quoted_identifier$|_DECLARE$|_FROM$|_MODULE$|_part$|_AS$|_top_level_assignment$|FRAC$|_EXPORT$|_TYPE$|_ENUM$|_readonly$|EXP$|_top_level_literal$|_let_var$|INT$|NEG$|_INTERFACE$|_NAMESPACE$|_NEW$|EOF$)')
     static_analysis_pending__ = []  # type: List[bool]
@@ -189,7 +189,7 @@ class ts2pythonGrammar(Grammar):
     association = Series(key, Series(Drop(Text(":")), dwsp__), literal, mandatory=1)
     object = Series(Series(Drop(Text("{")), dwsp__), Option(Series(association, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), association)))), Option(Series(Drop(Text(",")), dwsp__)), Series(Drop(Text("}")), dwsp__))
     array = Series(Series(Drop(Text("[")), dwsp__), Option(Series(literal, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), literal)))), Series(Drop(Text("]")), dwsp__))
-    string = SmartRE(f'("[^"\\n]*")(?P<comment__>{WSP_RE__})|(\'[^\'\\n]*\')(?P<comment__>{WSP_RE__})', '/"[^"\\n]*"/ ~|/\'[^\'\\n]*\'/ ~')
+    string = SmartRE(f'(?:("(?:\\\\.|[^"\\\\\\n])*")(?P<comment__>{WSP_RE__}))|(?:(\'(?:\\\\.|[^\'\\\\\\n])*\')(?P<comment__>{WSP_RE__}))', '/"(?:\\\\.|[^"\\\\\\n])*"/ ~|/\'(?:\\\\.|[^\'\\\\\\n])*\'/ ~')
     boolean = SmartRE(f'(?P<:Text>true|false)(?!\\w)(?P<comment__>{WSP_RE__})', '`true`|`false` !/\\w/ ~')
     number = Series(INT, FRAC, EXP, SmartRE(f'(?!\\w)', '!/\\w/'), dwsp__)
     integer = Series(INT, SmartRE(f'(?![.\\w])', '!/[.\\w]/'), dwsp__)
-- 
2.43.0


From 63f4d9633dc5d99a6d937c5c968a38fc7f701c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:04 +0000
Subject: [PATCH 83/91] fix: accept function types with a single parameter that
 has no type

---
 ts2python.ebnf     | 2 +-
 ts2pythonParser.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index 31fb339..35975c4 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -115,7 +115,7 @@ types       = ["|"] (intersection | type) { "|" (intersection | type) }
 intersection = type { "&" §type }+
 type        = [_readonly]
             ( array_of | basic_type | generic_type | indexed_type
-            | type_name !`(` | "(" types ")" | mapped_type
+            | type_name !`(` | "(" types ")" !`=>` | mapped_type
             | declarations_block | type_tuple | declarations_tuple
             | literal | func_type )
 
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 94e8f78..c26c615 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -146,7 +146,7 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "fbb11ecc63f7839effb24a5db1734ce3"
+    source_hash__ = "137baed8b38472bcb4cb5509e51f2c97"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
     disposable__ = re.compile('(?:_export$|_IMPORT$|_namespace$|_IN$|_IMPLEMENTS$|_function$|DOT$|_CLASS$|_array_ellipsis$|_EXTENDS$|_CONST$|_quoted_identifier$|_DECLARE$|_FROM$|_MODULE$|_part$|_AS$|_top_level_assignment$|FRAC$|_EXPORT$|_TYPE$|_ENUM$|_readonly$|EXP$|_top_level_literal$|_let_var$|INT$|NEG$|_INTERFACE$|_NAMESPACE$|_NEW$|EOF$)')
     static_analysis_pending__ = []  # type: List[bool]
@@ -243,7 +243,7 @@ class ts2pythonGrammar(Grammar):
     module = Series(_DECLARE, _MODULE, _quoted_identifier, Series(Drop(Text("{")), dwsp__), document, Series(Drop(Text("}")), dwsp__))
     literal.set(Alternative(integer, number, boolean, string, array, object))
     generic_type.set(Series(type_name, type_parameters))
-    type.set(Series(Option(_readonly), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, NegativeLookahead(Text("("))), Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__)), mapped_type, declarations_block, type_tuple, declarations_tuple, literal, func_type)))
+    type.set(Series(Option(_readonly), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, NegativeLookahead(Text("("))), Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__), NegativeLookahead(Text("=>"))), mapped_type, declarations_block, type_tuple, declarations_tuple, literal, func_type)))
     types.set(Series(Option(Series(Drop(Text("|")), dwsp__)), Alternative(intersection, type), ZeroOrMore(Series(Series(Drop(Text("|")), dwsp__), Alternative(intersection, type)))))
     arg_list.set(Series(Alternative(Series(argument, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), argument)), Option(Series(Series(Drop(Text(",")), dwsp__), arg_tail))), arg_tail), Option(Series(Drop(Text(",")), dwsp__))))
     function.set(Alternative(Series(Option(Series(Option(_export), Option(static), Option(_function), identifier, Option(optional), Option(type_parameters))), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=2), special))
-- 
2.43.0


From 3935ddac82b467ebc61922428f193e7184be1c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:00 +0000
Subject: [PATCH 84/91] fix: references to types that are declared in the
 document are not mapped to those of the library

---
 ts2pythonParser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index c26c615..257f3e4 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -574,6 +574,7 @@ class ts2pythonCompiler(Compiler):
         self.scope_type: List[str] = ['']
         self.optional_keys: List[List[str]] = [[]]
         self.toplevel_names: Set[str] = set()  # names of all toplevel-definitions
+        self.toplevel_types: Set[str] = set()  # those of types only
         # names of the classes rendered for anonymous interfaces, by scope
         self.toplevel_class_names: Set[str] = set()
         self.class_names: Dict[int, Tuple[List[str], Set[str]]] = \
@@ -619,6 +620,10 @@ class ts2pythonCompiler(Compiler):
                         for nd in document.children]
         self.toplevel_names = {self.on_identifier(nd['identifier']) for nd in declarations
                                if 'identifier' in nd}
+        self.toplevel_types = {self.on_identifier(nd['identifier'])
+                               for nd in document.select_children(
+                                   {'interface', 'type_alias', 'enum', 'namespace', 'virtual_enum'})
+                               if 'identifier' in nd}
         self.pending_aliases = {self.on_identifier(nd['identifier'])
                                 for nd in document.select_children('type_alias')
                                 if 'identifier' in nd}
@@ -817,8 +822,7 @@ class ts2pythonCompiler(Compiler):
     @lru_cache(maxsize=4)
     def bases(self, node) -> List[str]:
         assert node.name == 'extends'
-        bases = [self.compile(nd) for nd in node.children]
-        return [TYPE_NAME_SUBSTITUTION.get(bc, bc) for bc in bases]
+        return [self.compile(nd) for nd in node.children]
 
     def on_extends(self, node) -> str:
         return ', '.join(self.bases(node))
@@ -1410,6 +1414,7 @@ class ts2pythonCompiler(Compiler):
 
     def on_type_name(self, node) -> str:
         name = self.compile(node['name'])
+        if name in self.toplevel_types:  return name  # not the type of the library
         return TYPE_NAME_SUBSTITUTION.get(name, name)
 
     def compile_type_expression(self, node, type_node) -> str:
-- 
2.43.0


From 1fa73879b9b6c71586d8a94b97858697c78ab66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 85/91] fix: consider the names of definitions in ambient
 modules, too

---
 ts2pythonParser.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 257f3e4..947e11c 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -616,17 +616,16 @@ class ts2pythonCompiler(Compiler):
         namespaces = {nd['identifier'].content for nd in root.select_children('namespace')}
         self.overloaded_type_names = type_aliases & namespaces
         document = root['document'] if 'document' in root else root
-        declarations = [nd['declaration'] if nd.name == 'const' else nd
-                        for nd in document.children]
+        modules = [nd['document'] for nd in document.select_children('module') if 'document' in nd]
+        definitions = [nd for scope in [document] + modules for nd in scope.children]
+        declarations = [nd['declaration'] if nd.name == 'const' else nd for nd in definitions]
         self.toplevel_names = {self.on_identifier(nd['identifier']) for nd in declarations
-                               if 'identifier' in nd}
-        self.toplevel_types = {self.on_identifier(nd['identifier'])
-                               for nd in document.select_children(
-                                   {'interface', 'type_alias', 'enum', 'namespace', 'virtual_enum'})
-                               if 'identifier' in nd}
-        self.pending_aliases = {self.on_identifier(nd['identifier'])
-                                for nd in document.select_children('type_alias')
-                                if 'identifier' in nd}
+                               if nd.name != 'module' and 'identifier' in nd}
+        self.toplevel_types = {self.on_identifier(nd['identifier']) for nd in definitions
+                               if 'identifier' in nd and nd.name in
+                               ('interface', 'type_alias', 'enum', 'namespace', 'virtual_enum')}
+        self.pending_aliases = {self.on_identifier(nd['identifier']) for nd in definitions
+                                if nd.name == 'type_alias' and 'identifier' in nd}
         self.tree.stage = 'py'
         return None
 
-- 
2.43.0


From 715b29b97f0ff5efe52bec382e764b2dfa35a37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 86/91] fix: type parameters may have the same name as a
 definition of the document

---
 ts2pythonParser.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 947e11c..4725f9e 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -626,9 +626,29 @@ class ts2pythonCompiler(Compiler):
                                ('interface', 'type_alias', 'enum', 'namespace', 'virtual_enum')}
         self.pending_aliases = {self.on_identifier(nd['identifier']) for nd in definitions
                                 if nd.name == 'type_alias' and 'identifier' in nd}
+        self.rename_shadowing_parameters(root)
         self.tree.stage = 'py'
         return None
 
+    def rename_shadowing_parameters(self, root: Node) -> None:
+        """Renames those type parameters that bear the same name as a definition
+        of the document: TypeVars are defined in the same scope as anything else."""
+        def py_name(nd: Node) -> str:
+            return nd.content + '_' if keyword.iskeyword(nd.content) else nd.content
+
+        taken = self.toplevel_names | set(self.known_types[0]) \
+            | {py_name(nd['identifier']) for nd in root.select(
+                ('interface', 'type_alias', 'enum', 'namespace', 'virtual_enum'))}
+        for nd in root.select(('interface', 'type_alias', 'function')):
+            for param in nd.get('type_parameters', Node('type_parameters', ())).children:
+                name = param.pick('type_name')
+                if name and py_name(name) in taken:
+                    old, new = name.content, py_name(name) + '_'
+                    while new in taken:  new += '_'
+                    for type_name in nd.select('type_name'):
+                        if type_name.content == old:
+                            type_name['name'].result = new
+
     def finalize(self, python_code: Any) -> Any:
         chksum = f'source_hash__ = "{source_hash(self.tree.source)}"'
         if self.tree.name == 'root':
-- 
2.43.0


From b32cdeff6019ea63529a1a892339b5f5676a53a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:36 +0000
Subject: [PATCH 87/91] fix: type variables of generic interfaces in namespaces
 can be resolved

---
 ts2pythonParser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 4725f9e..0dbcbe8 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1276,10 +1276,12 @@ class ts2pythonCompiler(Compiler):
         else:
             header = ''
         namespace = []
+        self.scope_type.append('namespace')
         self.known_types.append(dict())
         for child in node.children[1:]:
             namespace.append(self.compile(child).replace('\n', '\n    '))
         self.known_types.pop()
+        self.scope_type.pop()
         if all(child.name == 'comment__' for child in node.children[1:]):
             namespace.append('pass')
         if not header:
-- 
2.43.0


From 4b2b52018b2782d066e8cfc6682bdfa84769a38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:42 +0000
Subject: [PATCH 88/91] fix: an escaped quote in a literal that is part of a
 quoted type remains the same

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 0dbcbe8..db3d81f 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -501,7 +501,7 @@ def quote_type(type_expression: str) -> str:
         if m[0][:8] != 'Literal[':
             # names and keys in TypedDict("Name", {"key": ...}) remain quoted
             return m[0] if m[0][0] == '"' else m[0][1:-1]
-        literal = m[0] if m[0].find('"') >= 0 else m[0].replace("'", '"')
+        literal = m[0] if re.search(r"\"|\\'", m[0]) else m[0].replace("'", '"')
         return literal.replace('\\', '\\\\').replace("'", "\\'")
 
     return "'" + re.sub(RX_LITERAL_TYPE + '|' + RX_STRING, unquote, type_expression) + "'"
-- 
2.43.0


From 30d8bcb7a94b12279701e014dce94f52e9321d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:01 +0000
Subject: [PATCH 89/91] fix: output directories given as --out=DIR or -oDIR are
 not ignored

---
 ts2pythonParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index db3d81f..46328ba 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1729,7 +1729,7 @@ def main():
     parser.add_argument('files', nargs='+')
     parser.add_argument('-D', '--debug', action='store_const', const='debug',
                         help='Store debug information in LOGS subdirectory')
-    parser.add_argument('-o', '--out', nargs=1, default=['out'],
+    parser.add_argument('-o', '--out', nargs=1,
                         help='Output directory for batch processing')
     parser.add_argument('-v', '--verbose', action='store_const', const='verbose',
                         help='Verbose output')
@@ -1750,7 +1750,7 @@ def main():
                         help="Preserve (multiline) comments")
 
     args = parser.parse_args()
-    file_names, out, log_dir = args.files, args.out[0], ''
+    file_names, out, log_dir = args.files, args.out[0] if args.out else 'out', ''
 
     workdir = file_names[0] if os.path.isdir(file_names[0]) else os.path.dirname(file_names[0])
     from DHParser.configuration import read_local_config
@@ -1821,7 +1821,7 @@ def main():
             echo('Processing all files in directory: ' + dir_name)
             file_names = [os.path.join(dir_name, fn) for fn in os.listdir(dir_name)
                           if os.path.isfile(os.path.join(dir_name, fn))]
-        elif not ('-o' in sys.argv or '--out' in sys.argv):
+        elif not args.out:
             batch_processing = False
 
     if batch_processing:
-- 
2.43.0


From 18f1f37c640789c674fd0f848713cf4847e268db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:25 +0000
Subject: [PATCH 90/91] fix: errors and warnings are not lost after an
 interrupted run

---
 ts2pythonParser.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 46328ba..4fa2202 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1574,20 +1574,18 @@ def process_file(source: str, result_filename: str = '') -> str:
             # (Errors might stem from a later version of the source than the result)
             return message_files[1] if os.path.isfile(message_files[1]) else ''
     result, errors = compile_src(source)
-    for fn in message_files:  # remove messages from earlier runs
-        if os.path.isfile(fn):
-            os.remove(fn)
     write_result = not has_errors(errors, FATAL)
     if write_result and source_filename \
             and os.path.abspath(source_filename) == os.path.abspath(result_filename):
         errors.append(Error('Source and destination have the same name "%s"!'
                             % result_filename, 0, FATAL))
         write_result = False
-    err_filename = ''
-    if errors:
-        err_filename = message_files[0 if has_errors(errors, ERROR) else 1]
-        with open(err_filename, 'w', encoding='utf-8') as f:
-            f.write('\n'.join(canonical_error_strings(errors)))
+    # A result with an error-file is never considered as up to date. Therefore,
+    # messages are not moved to their proper place before the result has been written
+    with open(message_files[0], 'w', encoding='utf-8') as f:
+        f.write('\n'.join(canonical_error_strings(errors)))
+    if os.path.isfile(message_files[1]):  # remove warnings from earlier runs
+        os.remove(message_files[1])
     if write_result:
         # never leave an incomplete result behind, because it would be mistaken
         # for an up-to-date result the next time
@@ -1600,7 +1598,13 @@ def process_file(source: str, result_filename: str = '') -> str:
             if os.path.exists(temp_filename):
                 os.remove(temp_filename)
             raise
-    return err_filename
+    if has_errors(errors, ERROR):
+        return message_files[0]
+    if errors:
+        os.replace(message_files[0], message_files[1])
+        return message_files[1]
+    os.remove(message_files[0])
+    return ''
 
 
 def batch_process(file_names: List[str], out_dir: str,
-- 
2.43.0


From 36b77155272ed3ac643296ee992dc54e211552c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:45 +0000
Subject: [PATCH 91/91] fix: type parameters may have the same name as a
 constant or function in a namespace

---
 ts2pythonParser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 4fa2202..9bfdbb9 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -638,7 +638,9 @@ class ts2pythonCompiler(Compiler):
 
         taken = self.toplevel_names | set(self.known_types[0]) \
             | {py_name(nd['identifier']) for nd in root.select(
-                ('interface', 'type_alias', 'enum', 'namespace', 'virtual_enum'))}
+                ('interface', 'type_alias', 'enum', 'namespace', 'virtual_enum'))} \
+            | {py_name(nd['declaration']['identifier']) for nd in root.select('const')} \
+            | {py_name(nd['identifier']) for nd in root.select('function') if 'identifier' in nd}
         for nd in root.select(('interface', 'type_alias', 'function')):
             for param in nd.get('type_parameters', Node('type_parameters', ())).children:
                 name = param.pick('type_name')
-- 
2.43.0

