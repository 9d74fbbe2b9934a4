From 78d56cdb59bf09d1a872d734e712dc5cc3be3ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:41 +0000
Subject: [PATCH 01/93] fix: use the lock created by CLibrary when lock_calls
 is set

CFunction looked up 'lib.lock', which is resolved as a header definition and
raised NameError on every call of a library opened with lock_calls=True.
---
 pyclibrary/c_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index c5fa7e9..8cbb90b 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -490,7 +490,7 @@ class CFunction(object):
 
         try:
             if self.lock_call:
-                with self.lib.lock:
+                with self.lib._lock_:
                     res = self.func(*arg_list)
             else:
                 res = self.func(*arg_list)
-- 
2.43.0


From a7edfcb7eedc9f1163f1cdc8fdcfb19c6e55254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:41 +0000
Subject: [PATCH 02/93] fix: reuse objects already built under their full name

_make_obj_ referred to a non existing attribute, so that accessing a name
without its prefix after having accessed it with the prefix raised NameError.
---
 pyclibrary/c_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 8cbb90b..ba39a66 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -266,7 +266,7 @@ class CLibrary(object, metaclass=CLibraryMeta):
 
         for n in names:
             if n in objs:
-                return self.objs[n]
+                return objs[n]
 
         for n in names:  # try with and without prefix
             if n not in self._defs_[typ] and not (
-- 
2.43.0


From 6cc417ca4773e936861ec4b4d8005696b7dcb6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:41 +0000
Subject: [PATCH 03/93] fix: allow to call functions declared with a calling
 convention

The return type is a Type (hence a tuple) which has no remove method, so
accessing such a function raised AttributeError.
---
 pyclibrary/c_library.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index ba39a66..d5a3509 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -18,7 +18,7 @@ from inspect import cleandoc
 from threading import RLock
 from weakref import WeakValueDictionary
 
-from .c_parser import CParser
+from .c_parser import CParser, Type
 from .utils import LibraryPath, find_library
 
 logger = logging.getLogger(__name__)
@@ -407,9 +407,10 @@ class CFunction(object):
 
         # remove void args from list
         self.sig[1] = [s for s in sig[1] if s[1] != ("void",)]
-        for conv in ["__stdcall", "__cdecl"]:
-            if conv in self.sig[0]:
-                self.sig[0].remove(conv)
+        # remove calling conventions from the return type
+        self.sig[0] = Type(
+            *(t for t in self.sig[0] if t not in ("__stdcall", "__cdecl"))
+        )
         self.name = name
         self.res_type = lib._get_type(self.sig[0])
         self.arg_types = [lib._get_type(s[1]) for s in self.sig[1]]
-- 
2.43.0


From 6cee3ead11a96508535bc2f14082b54cf39450fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:41 +0000
Subject: [PATCH 04/93] fix: do not alter the parser definitions when building
 array types

Merging the dimensions in place modified the lists stored in the parser
definitions, so that each access to a multi-dimensional array type added
dimensions to it.
---
 pyclibrary/backends/ctypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index e9d6ebf..506d6bd 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -224,7 +224,8 @@ class CTypesCLibrary(CLibrary):
                 seen = mods[0]
                 for m in mods[1:]:
                     if isinstance(seen, list) and isinstance(m, list):
-                        seen += m
+                        # Do not modify in place the definitions of the parser
+                        seen = seen + m
                     else:
                         n_mods.append(seen)
                         seen = m
-- 
2.43.0


From 8c08fdd2f64d003f833567f6bd1438a0dee48d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:41 +0000
Subject: [PATCH 05/93] fix: use the bit width, not the default value, of
 struct members

The bit width of a member is its fourth item. Bit fields were built as plain
members and members with a default value as bit fields.
---
 pyclibrary/backends/ctypes.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 506d6bd..314f7d9 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -338,12 +338,9 @@ class CTypesCLibrary(CLibrary):
             # Handle bit field specifications, ctypes only supports bit fields
             # for integer but I am not sure how to test for it in a nice
             # fashion.
-            s._fields_ = [
-                (m[0], self._get_type(m[1]))
-                if m[2] is None
-                else (m[0], self._get_type(m[1]), m[2])
-                for m in defs
-            ]
+            # The bit width is the optional fourth item of a member, the third
+            # one being its default value.
+            s._fields_ = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]
             s._defaults_ = [m[2] for m in defs]
 
         return self._structs_[str_name]
-- 
2.43.0


From efc918b248b452a2375755d6e6380df5b13fd78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:41 +0000
Subject: [PATCH 06/93] fix: do not build a second class for a struct accessed
 by an alias

Accessing a struct through a typedef alias replaced the class already in use
by the functions signatures, which then rejected the instances of the new one.
---
 pyclibrary/backends/ctypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 314f7d9..6d27387 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -295,6 +295,9 @@ class CTypesCLibrary(CLibrary):
     def _get_struct(self, str_type, str_name):
         if str_name not in self._structs_:
             str_name = self._resolve_struct_alias(str_type, str_name)
+            # The class may already have been built under its real name
+            if str_name in self._structs_:
+                return self._structs_[str_name]
 
             # Pull struct definition
             defn = self._defs_[str_type][str_name]
-- 
2.43.0


From eaa0831d04f8bc1b17890d3713a47f1a82d3c383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:41 +0000
Subject: [PATCH 07/93] fix: do not mistake a member named value for the value
 of a struct

---
 pyclibrary/backends/ctypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 6d27387..7c49d20 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -165,7 +165,8 @@ class CTypesCLibrary(CLibrary):
         it wrong (a pointer being often an array).
 
         """
-        if not hasattr(obj, "value"):
+        # Structs and unions may have a member named value
+        if isinstance(obj, (Structure, Union)) or not hasattr(obj, "value"):
             return obj
 
         return obj.value
-- 
2.43.0


From a746aee31589f52ec64dc05d4e4c16ff7d1cf8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:41 +0000
Subject: [PATCH 08/93] fix: allow to omit char * and wchar_t * arguments

The auto generated pointer was a char ** which ctypes rejects.
---
 pyclibrary/backends/ctypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 7c49d20..520d40a 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -356,7 +356,8 @@ class CTypesCLibrary(CLibrary):
         arg_type_list = list(arg_type)
         cls = self._get_type(sig, pointers=False)
         special_pointer_types = {None: c_void_p, c_char: c_char_p, c_wchar: c_wchar_p}
-        if cls in special_pointer_types:
+        # A single char pointer is a pointer to a char and not to a string
+        if cls is None or (cls in special_pointer_types and len(arg_type_list) == 3):
             cls = special_pointer_types[cls]
             del arg_type_list[1]
         for pointer_decl in arg_type_list[1:-1]:
-- 
2.43.0


From 90fa64af20363f0065d95647bb6d3b848fefbc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:10 +0000
Subject: [PATCH 09/93] fix: evaluate !=, hexadecimal and suffixed numbers in
 #if expressions

'!=' was turned into 'not =' (making the condition always false) and the letters
of 0x10 or 10L were replaced by 0 like the ones of an undefined name.
---
 pyclibrary/c_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index e80c324..cc41a96 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1026,7 +1026,10 @@ class CParser(object):
     def eval_preprocessor_expr(self, expr):
         # Make a few alterations so the expression can be eval'd
         macro_diffs = (
-            Literal("!").setParseAction(lambda: " not ")
+            # Numbers go first, or their suffix or radix is seen as a name
+            integer
+            | Literal("!=")
+            | Literal("!").setParseAction(lambda: " not ")
             | Literal("&&").setParseAction(lambda: " and ")
             | Literal("||").setParseAction(lambda: " or ")
             | Word(alphas + "_", alphanums + "_").setParseAction(lambda: "0")
-- 
2.43.0


From f81de75fe0f70c061f314f80813e2a5d117033b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:43 +0000
Subject: [PATCH 10/93] fix: do not strip the end of names looking like a
 number suffix

A name such as FLAG_1U was altered into FLAG_1 when evaluating an expression.
---
 pyclibrary/c_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index cc41a96..7f3edcf 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1795,8 +1795,11 @@ rparen = Literal(")").ignore(quotedString).suppress()
 
 # Numbers
 int_strip = lambda t: t[0].rstrip("UL")  # noqa
-hexint = Regex(r"[+-]?\s*0[xX][{}]+[UL]*".format(hexnums)).setParseAction(int_strip)
-decint = Regex(r"[+-]?\s*[0-9]+[UL]*").setParseAction(int_strip)
+# Digits found inside a name are not a number, hence the look-behind.
+hexint = Regex(r"[+-]?\s*(?<!\w)0[xX][{}]+[UL]*".format(hexnums)).setParseAction(
+    int_strip
+)
+decint = Regex(r"[+-]?\s*(?<!\w)[0-9]+[UL]*").setParseAction(int_strip)
 integer = hexint | decint
 # The floating regex is ugly but it is because we do not want to match
 # integer to it.
-- 
2.43.0


From 27dabc6d2f341326372320dd6d72264876040256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:43 +0000
Subject: [PATCH 11/93] fix: parse floating point numbers with several digits
 or a suffix

'10.5' was split around the point when used as the value of a variable and
'1.0f' prevented to parse the variable it initialises.
---
 pyclibrary/c_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 7f3edcf..60f9c90 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1803,7 +1803,10 @@ decint = Regex(r"[+-]?\s*(?<!\w)[0-9]+[UL]*").setParseAction(int_strip)
 integer = hexint | decint
 # The floating regex is ugly but it is because we do not want to match
 # integer to it.
-floating = Regex(r"[+-]?\s*((((\d(\.\d*)?)|(\.\d+))[eE][+-]?\d+)|((\d\.\d*)|(\.\d+)))")
+floating = Regex(
+    r"[+-]?\s*(?<!\w)((((\d+(\.\d*)?)|(\.\d+))[eE][+-]?\d+)"
+    r"|((\d+\.\d*)|(\.\d+)))[fFlL]?"
+).setParseAction(lambda t: t[0].rstrip("fFlL"))
 number = floating | integer
 
 # Miscelaneous
-- 
2.43.0


From 1af56240f157e9339b9aa506701055733c3a64b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:44 +0000
Subject: [PATCH 12/93] fix: evaluate octal integers and lower case integer
 suffixes

---
 pyclibrary/c_parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 60f9c90..129cf17 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1794,12 +1794,16 @@ lparen = Literal("(").ignore(quotedString).suppress()
 rparen = Literal(")").ignore(quotedString).suppress()
 
 # Numbers
-int_strip = lambda t: t[0].rstrip("UL")  # noqa
+def int_strip(t):
+    """Remove the suffix of an integer and use the Python notation for octals."""
+    return re.sub(r"^([+-]?\s*)0([0-7]+)$", r"\g<1>0o\2", t[0].rstrip("uUlL"))
+
+
 # Digits found inside a name are not a number, hence the look-behind.
-hexint = Regex(r"[+-]?\s*(?<!\w)0[xX][{}]+[UL]*".format(hexnums)).setParseAction(
+hexint = Regex(r"[+-]?\s*(?<!\w)0[xX][{}]+[uUlL]*".format(hexnums)).setParseAction(
     int_strip
 )
-decint = Regex(r"[+-]?\s*(?<!\w)[0-9]+[UL]*").setParseAction(int_strip)
+decint = Regex(r"[+-]?\s*(?<!\w)[0-9]+[uUlL]*").setParseAction(int_strip)
 integer = hexint | decint
 # The floating regex is ugly but it is because we do not want to match
 # integer to it.
-- 
2.43.0


From 1bb8ee47c60fbbea710fad73c12d8043705ef917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:06 +0000
Subject: [PATCH 13/93] fix: use an integer division in #if expressions

---
 pyclibrary/c_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 129cf17..af270d5 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1032,6 +1032,7 @@ class CParser(object):
             | Literal("!").setParseAction(lambda: " not ")
             | Literal("&&").setParseAction(lambda: " and ")
             | Literal("||").setParseAction(lambda: " or ")
+            | Literal("/").setParseAction(lambda: "//")
             | Word(alphas + "_", alphanums + "_").setParseAction(lambda: "0")
         )
         expr2 = macro_diffs.transformString(expr).strip()
-- 
2.43.0


From 6add2dd5e4d1a727e3c5f30a917693cd29de4d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:06 +0000
Subject: [PATCH 14/93] fix: do not resolve names of the headers as Python
 builtins

'#define DIE exit(1)' terminated the interpreter when parsing the header and
'#define TYPE int' was given the Python int class as value.
---
 pyclibrary/c_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index af270d5..59a304d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1666,7 +1666,9 @@ class CParser(object):
         expr = (quotedString | number | cast).transformString(expr)
         if expr == "":
             return None
-        return eval(expr, *args)
+        # Names of the headers should not be mistaken for Python builtins
+        scope = {"__builtins__": {}}
+        return eval(expr, *(scope if a is None else a for a in args))
 
     def add_def(self, typ, name, val):
         """Add a definition of a specific type to both the definition set for
-- 
2.43.0


From 26714f43826eb477d80e39e11e59960249ff1a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 15/93] fix: expand the macros following a string

m.end(N) is -1 when a string was matched, so that the whole line but its last
character was skipped.
---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 59a304d..55452f3 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1130,7 +1130,7 @@ class CParser(object):
                 parts.append(exp)
 
             else:
-                start = m.end(N)
+                start = m.end()
                 parts.append(line[:start])
                 line = line[start:]
 
-- 
2.43.0


From ab4465dd79c0fb8eb894e0f92f780dd1393eed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:14 +0000
Subject: [PATCH 16/93] fix: do not expand macros inside character constants

Also handle the strings ending with an escaped backslash.
---
 pyclibrary/c_parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 55452f3..d0014ca 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1078,12 +1078,12 @@ class CParser(object):
         """Turn a function macro spec into a compiled description."""
         # Find all instances of each arg in text.
         args_str = "|".join(args)
-        arg_regex = re.compile(r'("(\\"|[^"])*")|(\b({})\b)'.format(args_str))
+        arg_regex = re.compile(quoted_regex + r"|(\b({})\b)".format(args_str))
         start = 0
         parts = []
         arg_order = []
         # The group number to check for macro names
-        N = 3
+        N = 2
         for m in arg_regex.finditer(text):
             arg = m.groups()[N]
             if arg is not None:
@@ -1099,10 +1099,10 @@ class CParser(object):
         Faulty calls to macro function are left untouched.
 
         """
-        reg = re.compile(r'("(\\"|[^"])*")|(\b(\w+)\b)')
+        reg = re.compile(quoted_regex + r"|(\b(\w+)\b)")
         parts = []
         # The group number to check for macro names
-        N = 3
+        N = 2
         macros = self.defs["macros"]
         fnmacros = self.defs["fnmacros"]
         while True:
@@ -1816,6 +1816,9 @@ floating = Regex(
 ).setParseAction(lambda t: t[0].rstrip("fFlL"))
 number = floating | integer
 
+# Strings and character constants, in which macros are not expanded.
+quoted_regex = r"""("(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')"""
+
 # Miscelaneous
 bi_operator = oneOf("+ - / * | & || && ! ~ ^ % == != > < >= <= -> . :: << >> = ? :")
 uni_right_operator = oneOf("++ --")
-- 
2.43.0


From 7082de5ed096fa756fce74397d6988cb4795a31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:27 +0000
Subject: [PATCH 17/93] fix: take macro arguments only from a parenthesis
 following the macro name

A space before the parenthesis makes it part of the replacement text, and
the list of arguments can be empty.
---
 pyclibrary/c_parser.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index d0014ca..e4a9a3e 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -844,10 +844,17 @@ class CParser(object):
 
         # Define the structure of a macro definition
         name = Word(alphas + "_", alphanums + "_")("name")
-        deli_list = Optional(lparen + delimitedList(name) + rparen)
+        # A macro takes arguments only if a parenthesis directly follows its name
+        deli_list = Optional(
+            Group(
+                lparen.copy().leaveWhitespace()
+                + Optional(delimitedList(name))
+                + rparen
+            )("args")
+        )
         self.pp_define = (
             name.setWhitespaceChars(" \t")("macro")
-            + deli_list.setWhitespaceChars(" \t")("args")
+            + deli_list
             + SkipTo(LineEnd())("value")
         )
         self.pp_define.setParseAction(self.process_macro_defn)
@@ -951,7 +958,7 @@ class CParser(object):
                     )
                     try:
                         # Macro is registered here
-                        self.pp_define.parseString(macroName + " " + rest)
+                        self.pp_define.parseString(macroName + rest)
                     except Exception:
                         logger.exception(
                             "Error processing macro definition:"
@@ -1077,7 +1084,7 @@ class CParser(object):
     def compile_fn_macro(self, text, args):
         """Turn a function macro spec into a compiled description."""
         # Find all instances of each arg in text.
-        args_str = "|".join(args)
+        args_str = "|".join(args) or "(?!)"
         arg_regex = re.compile(quoted_regex + r"|(\b({})\b)".format(args_str))
         start = 0
         parts = []
-- 
2.43.0


From 77663910c2e4f14d47bb190acecc308c099327e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:27 +0000
Subject: [PATCH 18/93] fix: allow braces in the text of function macros

---
 pyclibrary/c_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index e4a9a3e..6fce309 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1084,6 +1084,8 @@ class CParser(object):
     def compile_fn_macro(self, text, args):
         """Turn a function macro spec into a compiled description."""
         # Find all instances of each arg in text.
+        # Braces of the text should not be mistaken for fields when formatting
+        text = text.replace("{", "{{").replace("}", "}}")
         args_str = "|".join(args) or "(?!)"
         arg_regex = re.compile(quoted_regex + r"|(\b({})\b)".format(args_str))
         start = 0
-- 
2.43.0


From 23b675af778df4be3f65769d92143f25d4ffc4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:51 +0000
Subject: [PATCH 19/93] fix: split the arguments of macro calls at the commas
 between them

Nested parenthesis and strings belong to an argument, and the name of a
macro not followed by a parenthesis is not a call.
---
 pyclibrary/c_parser.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 6fce309..1abfd0b 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1152,9 +1152,7 @@ class CParser(object):
         defn = self.defs["fnmacros"][name]
 
         try:
-            args, end = text.split(")", 1)
-            _, args = args.split("(", 1)
-            args = [a.strip() for a in args.split(",")]
+            args, end = self.split_macro_args(text)
         except Exception:
             mess = "Function macro {} argument analysis failed :\n{}"
             raise DefinitionError(0, mess.format(name, format_exc()))
@@ -1164,6 +1162,33 @@ class CParser(object):
 
         return (new_str, end)
 
+    @staticmethod
+    def split_macro_args(text):
+        """Split the arguments of a macro call from the text following it.
+
+        Commas and parenthesis nested in parenthesis or in a string belong to
+        the argument in which they are.
+
+        """
+        opening = re.match(r"\s*\(", text)
+        if not opening:
+            raise DefinitionError("No argument found.")
+        args = []
+        depth = 0
+        start = opening.end()
+        for m in re.compile(quoted_regex + r"|[(),]").finditer(text, start):
+            char = m.group()
+            if char == "(":
+                depth += 1
+            elif depth == 0 and char in [",", ")"]:
+                args.append(text[start : m.start()].strip())
+                start = m.end()
+                if char == ")":
+                    return args, text[start:]
+            elif char == ")":
+                depth -= 1
+        raise DefinitionError("Missing closing parenthesis.")
+
     # --- Compilation functions
 
     def parse_defs(self, path, return_unparsed=False):
-- 
2.43.0


From 6df701e338395b515edcda7fa03edad492b348d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 20/93] fix: make #undef remove the macro whatever its kind and
 the file defining it

---
 pyclibrary/c_parser.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 1abfd0b..842d792 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -968,12 +968,13 @@ class CParser(object):
                 elif d == "undef":
                     if not if_true[-1]:
                         continue
-                    try:
-                        self.rem_def("macros", macroName.strip())
-                    except Exception:
-                        if sys.exc_info()[0] is not KeyError:
-                            mess = "Error removing macro definition '{}'"
-                            logger.exception(mess.format(macroName.strip()))
+                    for typ in ["macros", "fnmacros"]:
+                        try:
+                            self.rem_def(typ, macroName.strip())
+                        except Exception:
+                            if sys.exc_info()[0] is not KeyError:
+                                mess = "Error removing macro definition '{}'"
+                                logger.exception(mess.format(macroName.strip()))
 
                 # Check for changes in structure packing
                 # Support only for #pragme pack (with all its variants
@@ -1721,16 +1722,14 @@ class CParser(object):
         self.file_defs[base_name][typ][name] = val
 
     def rem_def(self, typ, name):
-        """Remove a definition of a specific type to both the definition set
-        for the current file and the global definition set.
+        """Remove a definition of a specific type from both the definition sets
+        of all files and the global definition set.
 
         """
-        if self.current_file is None:
-            base_name = None
-        else:
-            base_name = os.path.basename(self.current_file)
         del self.defs[typ][name]
-        del self.file_defs[base_name][typ][name]
+        # The definition may come from another file than the current one
+        for defs in self.file_defs.values():
+            defs[typ].pop(name, None)
 
     def is_fund_type(self, typ):
         """Return True if this type is a fundamental C type, struct, or
-- 
2.43.0


From 7c79a1e155257483bc81b907401a3a13677a35c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 21/93] fix: do not mistake a constant between parenthesis for
 a cast

---
 pyclibrary/c_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 842d792..d81317b 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1697,7 +1697,10 @@ class CParser(object):
     def eval(self, expr, *args):
         """Just eval with a little extra robustness."""
         expr = expr.strip()
-        cast = (lparen + self.type_spec + self.abstract_declarator + rparen).suppress()
+        type_spec = self.type_spec.copy()
+        # A known value between parenthesis is not a cast
+        type_spec.addCondition(lambda t: t[0]["name"] not in self.defs["values"])
+        cast = (lparen + type_spec + self.abstract_declarator + rparen).suppress()
         expr = (quotedString | number | cast).transformString(expr)
         if expr == "":
             return None
@@ -1962,7 +1965,7 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
     # Is there a better way to process expressions with cast operators??
     cast_atom = (
         ZeroOrMore(uni_left_operator)
-        + Optional("(" + ident + ")").suppress()
+        + Optional("(" + ident + ")")
         + (
             (
                 ident + "(" + Optional(delimitedList(expression)) + ")"
-- 
2.43.0


From 6d96e55b1dff72655da66e1f0c1ffd81e1f870ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:44 +0000
Subject: [PATCH 22/93] fix: replace comments by a space and continue //
 comments ended by a backslash

---
 pyclibrary/c_parser.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index d81317b..adf3197 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -39,13 +39,13 @@ from pyparsing import (
     alphanums,
     alphas,
     cStyleComment,
+    dblSlashComment,
     delimitedList,
     hexnums,
     lineno,
     nestedExpr,
     oneOf,
     quotedString,
-    restOfLine,
 )
 
 from .errors import DefinitionError
@@ -806,11 +806,12 @@ class CParser(object):
 
         """
         text = self.files[path]
-        cplusplus_line_comment = Literal("//") + restOfLine
+        # A comment separates tokens just like a space
+        space = lambda: " "  # noqa
+        c_comment = cStyleComment.copy().setParseAction(space)
+        cplusplus_line_comment = dblSlashComment.copy().setParseAction(space)
         # match quoted strings first to prevent matching comments inside quotes
-        comment_remover = (
-            quotedString | cStyleComment.suppress() | cplusplus_line_comment.suppress()
-        )
+        comment_remover = quotedString | c_comment | cplusplus_line_comment
         self.files[path] = comment_remover.transformString(text)
 
     # --- Pre processing
-- 
2.43.0


From bc377304f72c89dfd797e39bf72d6ff05faa17ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:04 +0000
Subject: [PATCH 23/93] fix: use the packing in force at the line of the struct

Lines of ignored directives were dropped, shifting the following ones, and a
struct was given the packing of a pragma found on the next line.
---
 pyclibrary/c_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index adf3197..1cf9156 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -951,6 +951,7 @@ class CParser(object):
 
                 elif d == "define":
                     if not if_true[-1]:
+                        result.append(new_line)
                         continue
                     logger.debug(
                         "  " * (len(if_true) - 1)
@@ -968,6 +969,7 @@ class CParser(object):
 
                 elif d == "undef":
                     if not if_true[-1]:
+                        result.append(new_line)
                         continue
                     for typ in ["macros", "fnmacros"]:
                         try:
@@ -987,9 +989,11 @@ class CParser(object):
                 # The current implementation follows the MSVC doc.
                 elif d == "pragma":
                     if not if_true[-1]:
+                        result.append(new_line)
                         continue
                     m = re.match(r"\s+pack\s*\(([^\)]*)\)", rest)
                     if not m:
+                        result.append(new_line)
                         continue
                     if m.groups():
                         opts = [s.strip() for s in m.groups()[0].split(",")]
@@ -1570,7 +1574,8 @@ class CParser(object):
         """Return the structure packing value at the given line number."""
         packing = None
         for p in self.pack_list[self.current_file]:
-            if p[0] <= line:
+            # Line numbers start at 1 but the ones of the list start at 0
+            if p[0] < line:
                 packing = p[1]
             else:
                 break
-- 
2.43.0


From 4f4b29aed1c78250c698d603d96d2cadf024097d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:54 +0000
Subject: [PATCH 24/93] fix: handle #pragma pack(push) and unbalanced or
 duplicated pop

A push without a value keeps the current packing, a pop without a push no
longer aborts the parsing and an identifier pushed twice is popped once.
---
 pyclibrary/c_parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 1cf9156..4a79a5d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1007,19 +1007,23 @@ class CParser(object):
                         else:
                             id = o
 
-                    packing = val
+                    # A push without a value does not change the packing
+                    if pushpop != "push" or val is not None:
+                        packing = val
 
                     if pushpop == "push":
                         pack_stack.append((packing, id))
                     elif opts[0] == "pop":
                         if id is None:
-                            pack_stack.pop()
+                            # Ignore a pop without a matching push
+                            if len(pack_stack) > 1:
+                                pack_stack.pop()
                         else:
                             ind = None
                             for j, s in enumerate(pack_stack):
+                                # The last one pushed is the one to pop
                                 if s[1] == id:
                                     ind = j
-                                    break
                             if ind is not None:
                                 pack_stack = pack_stack[:ind]
                         if val is None:
-- 
2.43.0


From 67f163e8a7ae7009c544c15dc659962fcc019588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:49 +0000
Subject: [PATCH 25/93] fix: keep the members of an enum referenced before its
 definition

---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 4a79a5d..0336fb6 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1538,7 +1538,8 @@ class CParser(object):
 
             logger.debug("  name: {}".format(name))
 
-            if name not in self.defs["enums"]:
+            # The enum may have been referenced before being defined
+            if len(t.members) > 0 or name not in self.defs["enums"]:
                 i = 0
                 enum = {}
                 for v in t.members:
-- 
2.43.0


From 6eb42855cbb6f36509531053368efc2153ad1fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:32 +0000
Subject: [PATCH 26/93] fix: resolve integer types whatever the order of their
 words

'signed' alone also stands for 'int'.
---
 pyclibrary/backends/ctypes.py | 6 ++++++
 pyclibrary/c_parser.py        | 6 ++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 520d40a..7a9427a 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -53,6 +53,7 @@ from ctypes import (
     pointer,
 )
 from inspect import cleandoc
+from itertools import permutations
 
 if sys.platform == "win32":
     from ctypes import HRESULT, WINFUNCTYPE, oledll, windll
@@ -441,6 +442,11 @@ def init_clibrary(extra_types={}):
         "ssize_t": c_ssize_t,
     }
 
+    # The words of a type can be given in any order
+    for k, v in list(CTypesCLibrary._types_.items()):
+        for words in permutations(k.split()):
+            CTypesCLibrary._types_.setdefault(" ".join(words), v)
+
     if sys.platform == "win32":
         for k in extra_types:
             if k in WIN_TYPES:
diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 0336fb6..537d878 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -182,9 +182,11 @@ class Type(tuple):
         used = used or []
 
         if self.is_fund_type():
-            # Remove 'signed' before returning evaluated type
+            # Remove 'signed' before returning evaluated type ('signed' alone
+            # stands for 'int')
+            spec = " ".join(w for w in self.type_spec.split() if w != "signed")
             return Type(
-                re.sub(r"\bsigned\b", "", self.type_spec).strip(),
+                spec or "int",
                 *self.declarators,
                 type_quals=self.type_quals,
             )
-- 
2.43.0


From 70b756d3d5466c41b461e8a9b896f204e969e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:54 +0000
Subject: [PATCH 27/93] fix: parse several or unnamed bit fields in a
 declaration

---
 pyclibrary/backends/ctypes.py |  4 +++-
 pyclibrary/c_parser.py        | 35 ++++++++++++++++++++---------------
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 7a9427a..76ee7cb 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -334,7 +334,9 @@ class CTypesCLibrary(CLibrary):
                         if name not in members:
                             d = (name, *d[1:])
                             defs[i] = d
-                            anon.append(name)
+                            # Unnamed bit fields only are padding
+                            if len(d) < 4:
+                                anon.append(name)
                             break
                         c += 1
                 members.append(d[0])
diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 537d878..4c19fc9 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1388,9 +1388,14 @@ class CParser(object):
             Group(
                 Group(
                     self.type_spec("type")
-                    + Optional(self.declarator_list("decl_list"))
-                    + colon
-                    + integer("bit")
+                    + Group(
+                        delimitedList(
+                            Group(
+                                Optional(self.declarator)("decl")
+                                + Optional(colon + integer("bit"))
+                            )
+                        )
+                    )("bit_list")
                     + semi
                 )
             )
@@ -1625,21 +1630,21 @@ class CParser(object):
                         "    member: {}, {}, {}".format(m, m[0].keys(), m[0].decl_list)
                     )
 
-                    if len(m[0].decl_list) == 0:  # anonymous member
-                        member = [None, Type(typ[0]), None]
-                        if m[0].bit:
-                            member.append(int(m[0].bit))
-                        struct.append(tuple(member))
+                    decls = [(d, None) for d in m[0].decl_list]
+                    # Every declarator has its own bit width
+                    for d in m[0].bit_list:
+                        decls.append((d.decl[0] if d.decl else None, d.bit))
 
-                    for d in m[0].decl_list:
-                        (name, decl) = self.process_type(typ, d)
+                    for d, bit in decls or [(None, None)]:
+                        if d is None:  # anonymous member
+                            (name, decl) = (None, Type(typ["name"]))
+                        else:
+                            (name, decl) = self.process_type(typ, d)
                         member = [name, decl, val]
-                        if m[0].bit:
-                            member.append(int(m[0].bit))
+                        if bit:
+                            member.append(int(bit))
                         struct.append(tuple(member))
-                        logger.debug(
-                            "      {} {} {} {}".format(name, decl, val, m[0].bit)
-                        )
+                        logger.debug("      {} {} {} {}".format(name, decl, val, bit))
 
                 str_cls = Struct if str_typ == "struct" else Union
                 self.add_def(str_typ + "s", sname, str_cls(*struct, pack=packing))
-- 
2.43.0


From 5f94aa39be460511f0b3b01e0a0ed4d11f5a73cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:22 +0000
Subject: [PATCH 28/93] fix: parse unnamed pointers to functions or arrays in
 arguments

---
 pyclibrary/c_parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 4c19fc9..177c429 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -20,6 +20,7 @@ from traceback import format_exc
 
 # Import parsing elements
 from pyparsing import (
+    FollowedBy,
     Forward,
     Group,
     Keyword,
@@ -1274,8 +1275,12 @@ class CParser(object):
             type_qualifier("first_typequal")
             + Group(ZeroOrMore(Group(Suppress("*") + type_qualifier)))("ptrs")
             + (
-                (Optional("&")("ref"))
-                | (lparen + self.abstract_declarator + rparen)("center")
+                # Only a declarator following the parenthesis tells a nested
+                # declarator apart from a list of arguments
+                (lparen + FollowedBy(oneOf("* ( [")) + self.abstract_declarator + rparen)(
+                    "center"
+                )
+                | (Optional("&")("ref"))
             )
             + Optional(
                 lparen
-- 
2.43.0


From 37b4deb32f4221c24bcc9e1e96b520749a35654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:44 +0000
Subject: [PATCH 29/93] fix: order the dimensions of arrays of typedef'd arrays

---
 pyclibrary/c_parser.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 177c429..4b32248 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -203,16 +203,25 @@ class Type(tuple):
             raise DefinitionError(m.format(parent, " -> ".join(used)))
 
         pt = type_map[parent]
+        declarators = pt.declarators + self.declarators
+        quals = (
+            *pt.type_quals[:-1],
+            pt.type_quals[-1] + self.type_quals[0],
+            *self.type_quals[1:],
+        )
+
+        # The dimensions of an array of arrays are the outer ones first
+        mid = start = stop = len(pt.declarators)
+        while start > 0 and isinstance(declarators[start - 1], list):
+            start -= 1
+        while stop < len(declarators) and isinstance(declarators[stop], list):
+            stop += 1
+        order = [*range(start), *range(mid, stop), *range(start, mid)]
+        order += range(stop, len(declarators))
         evaled_type = Type(
             pt.type_spec,
-            *(pt.declarators + self.declarators),
-            type_quals=(
-                (
-                    *pt.type_quals[:-1],
-                    pt.type_quals[-1] + self.type_quals[0],
-                    *self.type_quals[1:],
-                )
-            ),
+            *(declarators[i] for i in order),
+            type_quals=(quals[0], *(quals[i + 1] for i in order)),
         )
 
         return evaled_type.eval(type_map, used)
-- 
2.43.0


From b5fe1169f84ecbdac8c870a695c9f25d1d56d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 30/93] fix: keep the qualifiers when removing the
 compatibility hack

---
 pyclibrary/c_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 4b32248..ff5ddc7 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -253,7 +253,10 @@ class Type(tuple):
 
         """
         if len(self) == 2 and isinstance(self[0], Type):
-            return Type(*(self[0] + (self[1],)))
+            return Type(
+                *(self[0] + (self[1],)),
+                type_quals=self[0].type_quals + self.type_quals[1:],
+            )
         else:
             return self
 
-- 
2.43.0


From dfd39ba7ea265767458fcb3928952d2471aafa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:09 +0000
Subject: [PATCH 31/93] fix: do not modify the list of directories of the
 caller

---
 pyclibrary/utils.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index a3f92cd..854209e 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -67,10 +67,8 @@ def find_header(h_name, dirs=None):
     OSError : if no matching file can be found.
 
     """
-    if dirs:
-        dirs += HEADER_DIRS[::-1]
-    else:
-        dirs = HEADER_DIRS[::-1]
+    # Do not modify the list of the caller
+    dirs = list(dirs or []) + HEADER_DIRS[::-1]
 
     if sys.platform == "win32":
         pass
@@ -134,10 +132,8 @@ def find_library(name, dirs=None):
     OSError : if no matching file can be found.
 
     """
-    if dirs:
-        dirs += LIBRARY_DIRS[::-1]
-    else:
-        dirs = LIBRARY_DIRS[::-1]
+    # Do not modify the list of the caller
+    dirs = list(dirs or []) + LIBRARY_DIRS[::-1]
 
     for d in dirs:
         path = os.path.join(d, name)
-- 
2.43.0


From d752cf4156322528eaef3b2f0f53624cac8dbfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:09 +0000
Subject: [PATCH 32/93] fix: look for headers in the standard locations on
 linux

---
 pyclibrary/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index 854209e..673fc23 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -83,7 +83,7 @@ def find_header(h_name, dirs=None):
             )
         )
 
-    if sys.platform == "linux2":
+    if sys.platform.startswith("linux"):
         dirs.extend(("/usr/local/include", "/usr/target/include", "/usr/include"))
 
     for d in dirs:
-- 
2.43.0


From fbf2596d894575ccbb2a5ab85b373fd721e1178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:20 +0000
Subject: [PATCH 33/93] fix: read the architecture of a library from its
 content only

The name of the file was part of the output of file, links were not
followed and the fields of PE headers have the same size everywhere.
---
 pyclibrary/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index 673fc23..62c4a43 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -203,7 +203,8 @@ def get_arch(filename):
     elif this_platform not in ("linux2", "linux3", "linux", "darwin"):
         raise OSError("")
 
-    out = check_output(["file", filename], stderr=subprocess.STDOUT)
+    # Do not get the name of the file in the output and follow the links
+    out = check_output(["file", "-b", "-L", filename], stderr=subprocess.STDOUT)
     out = out.decode("ascii")
     ret = []
     if this_platform.startswith("linux"):
@@ -258,7 +259,7 @@ def get_shared_library_arch(filename):
         dos_headers = fp.read(64)
         fp.read(4)
 
-        magic, _skip, offset = struct.unpack(str("2s58sl"), dos_headers)
+        magic, _skip, offset = struct.unpack(str("<2s58sl"), dos_headers)
 
         if magic != b"MZ":
             raise Exception("Not an executable")
@@ -266,7 +267,7 @@ def get_shared_library_arch(filename):
         fp.seek(offset, io.SEEK_SET)
         pe_header = fp.read(6)
 
-        sig, _skip, machine = struct.unpack(str("2s2sH"), pe_header)
+        sig, _skip, machine = struct.unpack(str("<2s2sH"), pe_header)
 
         if sig != b"PE":
             raise Exception("Not a PE executable")
-- 
2.43.0


From 03d724120eac304d5189ab31dd4042477fffa19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:41 +0000
Subject: [PATCH 34/93] fix: identify an already opened library by its real
 path

---
 pyclibrary/c_library.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index d5a3509..f0301ab 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -75,7 +75,9 @@ class CLibraryMeta(type):
             backend_cls = cls.backends[backend]
             lib_path = get_library_path(lib, backend)
 
-        # Check whether or not this library has already been opened.
+        # Check whether or not this library has already been opened (the path
+        # can be given in several ways).
+        lib_path = os.path.realpath(lib_path)
         if lib_path in cls.libs:
             return cls.libs[lib_path]
 
-- 
2.43.0


From c31a016d561f85da9b7632a12c8846c5c260bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:30 +0000
Subject: [PATCH 35/93] fix: invalidate the cache when the encoding or the
 copied parsers change

---
 pyclibrary/c_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index ff5ddc7..f5626bd 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -15,6 +15,7 @@ import logging
 import os
 import re
 import sys
+from copy import deepcopy
 from inspect import cleandoc
 from traceback import format_exc
 
@@ -508,6 +509,7 @@ class CParser(object):
         self.init_opts = kwargs.copy()
         self.init_opts["files"] = []
         self.init_opts["replace"] = {}
+        self.init_opts["encoding"] = encoding
 
         self.data_list = [
             "types",
@@ -550,6 +552,7 @@ class CParser(object):
         if copy_from is not None:
             if not isinstance(copy_from, (list, tuple)):
                 copy_from = [copy_from]
+            self.init_opts["copy_from"] = deepcopy([p.file_defs for p in copy_from])
             for p in copy_from:
                 self.import_dict(p.file_defs)
 
-- 
2.43.0


From d713a23a4aac3f29c461e9a40b33137af7cea48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:01 +0000
Subject: [PATCH 36/93] fix: use the cache when the headers are missing

find_headers raised before the cache could be used, and missing headers
were not taken into account when comparing the options of the cache.
---
 pyclibrary/c_parser.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index f5626bd..ae3c52b 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -736,10 +736,11 @@ class CParser(object):
             if os.path.isfile(header):
                 hs.append(header)
             else:
-                h = find_header(header)
-                if not h:
-                    raise OSError("Cannot find header: {}".format(header))
-                hs.append(h)
+                try:
+                    hs.append(find_header(header))
+                except OSError:
+                    # Let load_file report it, there might be a cache file.
+                    hs.append(header)
 
         return hs
 
@@ -770,14 +771,13 @@ class CParser(object):
             mess = "Warning: C header '{}' is missing, this may cause trouble."
             logger.warning(mess.format(path))
             self.files[path] = None
-            return False
-
-        with open(path, "r", encoding=encoding) as fd:
-            self.files[path] = fd.read()
+        else:
+            with open(path, "r", encoding=encoding) as fd:
+                self.files[path] = fd.read()
 
-        if replace is not None:
-            for s in replace:
-                self.files[path] = re.sub(s, replace[s], self.files[path])
+            if replace is not None:
+                for s in replace:
+                    self.files[path] = re.sub(s, replace[s], self.files[path])
 
         self.file_order.append(path)
         bn = os.path.basename(path)
@@ -785,7 +785,7 @@ class CParser(object):
         # Only interested in the file names, the directory may change between
         # systems.
         self.init_opts["files"].append(bn)
-        return True
+        return self.files[path] is not None
 
     def _format_parsed_file(self, filename=None):
         from pprint import pformat
-- 
2.43.0


From 8bd3c911628884b67f9dd4c3987bcbc09d222e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:10 +0000
Subject: [PATCH 37/93] fix: only use a cache whose version matches the one of
 the parser

---
 pyclibrary/c_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index ae3c52b..38bb528 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -477,7 +477,8 @@ class CParser(object):
     #: Increment every time cache structure or parsing changes to invalidate
     #: old cache files.
     # 2 : add C99 integers
-    cache_version = 2
+    # 3 : fix many details of the preprocessing and parsing
+    cache_version = 3
 
     #: Private flag allowing to know if the parser has been initiliased.
     _init = False
@@ -692,7 +693,7 @@ class CParser(object):
                     logger.debug("Cache init opts are OK:")
                     logger.debug("{}".format(cache["opts"]))
 
-                if cache["version"] < self.cache_version:
+                if cache["version"] != self.cache_version:
                     mess = "Cache file is not valid--cache format has changed."
                     logger.debug(mess)
                     return False
-- 
2.43.0


From 61b0da9b9a326ed154d8fbfe7ad89aa8fcf90e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:21 +0000
Subject: [PATCH 38/93] fix: do not modify the arguments of init and auto_init

---
 pyclibrary/backends/ctypes.py | 3 +++
 pyclibrary/init.py            | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 76ee7cb..cdb0cdf 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -406,6 +406,9 @@ if sys.platform == "win32":
 
 
 def init_clibrary(extra_types={}):
+    # Do not modify the dict of the caller
+    extra_types = dict(extra_types)
+
     # First load all standard types
     CTypesCLibrary._types_ = {
         "bool": c_bool,
diff --git a/pyclibrary/init.py b/pyclibrary/init.py
index ef58c67..3dd52c7 100644
--- a/pyclibrary/init.py
+++ b/pyclibrary/init.py
@@ -71,8 +71,8 @@ def auto_init(extra_types=None, extra_modifiers=None, os=None):
         identify the OS.
 
     """
-    extra_types = extra_types if extra_types else {}
-    extra_modifiers = extra_modifiers if extra_modifiers else []
+    extra_types = dict(extra_types) if extra_types else {}
+    extra_modifiers = list(extra_modifiers) if extra_modifiers else []
 
     if os == "win32" or sys.platform == "win32":
         extra_types.update(WIN_TYPES)
-- 
2.43.0


From daa6ed6f419214c66cf7ceabe93fb422f567b0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:28 +0000
Subject: [PATCH 39/93] fix: build structs pointing at a struct which contains
 them

Such a struct was used before its fields were set when accessed first. A
struct whose fields cannot be built is no longer kept without fields.
---
 pyclibrary/backends/ctypes.py | 40 +++++++++++++++++++++++++++++------
 pyclibrary/c_library.py       |  4 ++++
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index cdb0cdf..5e10f16 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -202,9 +202,13 @@ class CTypesCLibrary(CLibrary):
 
             # structs, unions, enums:
             elif typ[0][:7] == "struct ":
-                cls = self._get_struct("structs", self._defs_["types"][typ[0]][1])
+                cls = self._get_struct(
+                    "structs", self._defs_["types"][typ[0]][1], mods[:1] != ["*"]
+                )
             elif typ[0][:6] == "union ":
-                cls = self._get_struct("unions", self._defs_["types"][typ[0]][1])
+                cls = self._get_struct(
+                    "unions", self._defs_["types"][typ[0]][1], mods[:1] != ["*"]
+                )
             elif typ[0][:5] == "enum ":
                 cls = c_int
 
@@ -294,11 +298,13 @@ class CTypesCLibrary(CLibrary):
             logger.error("Error while processing type: {}".format(typ))
             raise
 
-    def _get_struct(self, str_type, str_name):
-        if str_name not in self._structs_:
+    def _get_struct(self, str_type, str_name, complete=True):
+        # While building a class, the ones only pointed at do not need to be
+        # complete (they may contain the one being built).
+        if str_name not in self._structs_ or (complete and str_name in self._incomplete_):
             str_name = self._resolve_struct_alias(str_type, str_name)
             # The class may already have been built under its real name
-            if str_name in self._structs_:
+            if str_name in self._structs_ and str_name not in self._incomplete_:
                 return self._structs_[str_name]
 
             # Pull struct definition
@@ -306,7 +312,9 @@ class CTypesCLibrary(CLibrary):
 
             # create ctypes class
             defs = defn["members"][:]
-            if str_type == "structs":
+            if str_name in self._incomplete_:
+                s = self._structs_[str_name]
+            elif str_type == "structs":
 
                 class s(Structure):
                     def __repr__(self):
@@ -320,6 +328,12 @@ class CTypesCLibrary(CLibrary):
             # Must register struct here to allow recursive definitions.
             self._structs_[str_name] = s
 
+            if self._building_ and not complete:
+                self._incomplete_[str_name] = str_type
+                return s
+            self._incomplete_.pop(str_name, None)
+            self._building_.append(str_name)
+
             if defn["pack"] is not None:
                 s._pack_ = defn["pack"]
 
@@ -347,9 +361,21 @@ class CTypesCLibrary(CLibrary):
             # fashion.
             # The bit width is the optional fourth item of a member, the third
             # one being its default value.
-            s._fields_ = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]
+            try:
+                s._fields_ = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]
+            except Exception:
+                # Do not keep classes without fields
+                for n in [*self._building_, *self._incomplete_]:
+                    self._structs_.pop(n, None)
+                self._building_.clear()
+                self._incomplete_.clear()
+                raise
             s._defaults_ = [m[2] for m in defs]
 
+            self._building_.pop()
+            while self._incomplete_ and not self._building_:
+                self._get_struct(*reversed(next(iter(self._incomplete_.items()))))
+
         return self._structs_[str_name]
 
     def _get_pointer(self, arg_type, sig):
diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index f0301ab..2c9fa13 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -207,6 +207,10 @@ class CLibrary(object, metaclass=CLibraryMeta):
         self._all_objs_ = {}
         self._structs_ = {}
         self._unions_ = {}
+        # Definitions of the structs whose fields are not set yet and names of
+        # the structs being built
+        self._incomplete_ = {}
+        self._building_ = []
 
     def __call__(self, typ, name):
         if typ not in self._objs_:
-- 
2.43.0


From 21a0b9bc55c2b53f598300214caf8ab245d3765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:44 +0000
Subject: [PATCH 40/93] fix: apply the qualifiers following a type to all its
 declarators

---
 pyclibrary/c_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 38bb528..39d62da 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1267,7 +1267,10 @@ class CParser(object):
         if extra_modifier is not None:
             type_ += extra_modifier
         type_.setParseAction(recombine)
-        self.type_spec = Group(type_qualifier("pre_qual") + type_("name"))
+        # Qualifiers following the type apply to all declarators
+        self.type_spec = Group(
+            type_qualifier("pre_qual") + type_("name") + type_qualifier("post_qual")
+        )
 
         # --- Abstract declarators for use in function pointer arguments
         #   Thus begins the extremely hairy business of parsing C declarators.
@@ -1541,7 +1544,7 @@ class CParser(object):
         """
         logger.debug("PROCESS TYPE/DECL: {}/{}".format(typ["name"], decl))
         (name, decl, quals) = self.process_declarator(decl)
-        pre_typequal = tuple(typ.get("pre_qual", []))
+        pre_typequal = (*typ.get("pre_qual", []), *typ.get("post_qual", []))
         return (
             name,
             Type(typ["name"], *decl, type_quals=(pre_typequal + quals[0], *quals[1:])),
-- 
2.43.0


From b34ab897a05b5435035e16cb9c7047e2ab3cabd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:54 +0000
Subject: [PATCH 41/93] fix: do not evaluate the members of structs as Python
 attributes

---
 pyclibrary/c_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 39d62da..1be26eb 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -11,6 +11,7 @@ function signatures from C header files.
 
 """
 
+import ast
 import logging
 import os
 import re
@@ -1746,6 +1747,10 @@ class CParser(object):
         expr = (quotedString | number | cast).transformString(expr)
         if expr == "":
             return None
+        # Members of structs should not be mistaken for Python attributes
+        for node in ast.walk(ast.parse(expr.strip(), mode="eval")):
+            if isinstance(node, ast.Attribute):
+                raise DefinitionError("Cannot evaluate {}".format(expr))
         # Names of the headers should not be mistaken for Python builtins
         scope = {"__builtins__": {}}
         return eval(expr, *(scope if a is None else a for a in args))
-- 
2.43.0


From 45f9cd4689ca6510a99b6d278668c1eb33ab237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:44 +0000
Subject: [PATCH 42/93] fix: keep the pointers and names of the arguments of
 unnamed function pointers

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 1be26eb..2aa7b4a 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1308,7 +1308,7 @@ class CParser(object):
                     delimitedList(
                         Group(
                             self.type_spec("type")
-                            + self.abstract_declarator("decl")
+                            + Group(self.declarator | self.abstract_declarator)("decl")
                             + Optional(
                                 Literal("=").suppress() + expression, default=None
                             )("val")
-- 
2.43.0


From 19656b628805c830ccb7127e6b85ad8b2eafa5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:20 +0000
Subject: [PATCH 43/93] fix: do not merge tokens when expanding macros

---
 pyclibrary/c_parser.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 2aa7b4a..e73e32e 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -18,6 +18,7 @@ import re
 import sys
 from copy import deepcopy
 from inspect import cleandoc
+from string import Formatter
 from traceback import format_exc
 
 # Import parsing elements
@@ -1152,7 +1153,7 @@ class CParser(object):
             if name in macros:
                 parts.append(line[: m.start(N)])
                 line = line[m.end(N) :]
-                parts.append(macros[name])
+                parts.append(self.separate("".join(parts), macros[name], line))
 
             elif name in fnmacros:
                 # If function macro expansion fails, just ignore it.
@@ -1166,7 +1167,7 @@ class CParser(object):
 
                 parts.append(line[: m.start(N)])
                 line = end
-                parts.append(exp)
+                parts.append(self.separate("".join(parts), exp, line))
 
             else:
                 start = m.end()
@@ -1188,10 +1189,28 @@ class CParser(object):
             raise DefinitionError(0, mess.format(name, format_exc()))
 
         args = [self.expand_macros(arg) for arg in args]
-        new_str = defn[0].format(*[args[i] for i in defn[1]])
+        new_str = ""
+        order = iter(defn[1])
+        for text, field, _, _ in Formatter().parse(defn[0]):
+            new_str += self.separate(new_str, text)
+            if field is not None:
+                new_str += self.separate(new_str, args[next(order)])
 
         return (new_str, end)
 
+    @staticmethod
+    def separate(before, text, after=""):
+        """Add to a text the spaces preventing its first and last tokens from
+        merging with the ones of the texts around it.
+
+        """
+        merge = re.compile(r"""[\w.][\w."']|[-+*/%&|^=!<>]{2}""")
+        if merge.match(before[-1:] + (text or after)[:1]):
+            text = " " + text
+        if merge.match(text[-1:] + after[:1]):
+            text += " "
+        return text
+
     @staticmethod
     def split_macro_args(text):
         """Split the arguments of a macro call from the text following it.
-- 
2.43.0


From dc7ae1e14944eb9eca06eb8ae2f288ef06d8674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:06 +0000
Subject: [PATCH 44/93] fix: use the C division in constant expressions

---
 pyclibrary/c_parser.py | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index e73e32e..23309c6 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1766,13 +1766,16 @@ class CParser(object):
         expr = (quotedString | number | cast).transformString(expr)
         if expr == "":
             return None
+        tree = ast.parse(expr.strip(), mode="eval")
         # Members of structs should not be mistaken for Python attributes
-        for node in ast.walk(ast.parse(expr.strip(), mode="eval")):
+        for node in ast.walk(tree):
             if isinstance(node, ast.Attribute):
                 raise DefinitionError("Cannot evaluate {}".format(expr))
+        tree = ast.fix_missing_locations(CDivision().visit(tree))
         # Names of the headers should not be mistaken for Python builtins
-        scope = {"__builtins__": {}}
-        return eval(expr, *(scope if a is None else a for a in args))
+        scope = {"__builtins__": {}, "/": c_div, "%": c_mod}
+        code = compile(tree, "<header>", "eval")
+        return eval(code, *(scope if a is None else a for a in args))
 
     def add_def(self, typ, name, val):
         """Add a definition of a specific type to both the definition set for
@@ -1848,6 +1851,37 @@ class CParser(object):
         return res
 
 
+# --- Evaluation of the C division.
+
+
+def c_div(a, b):
+    """Divide like C: the quotient of two integers is truncated toward zero."""
+    if isinstance(a, int) and isinstance(b, int):
+        quotient = abs(a) // abs(b)
+        return quotient if (a < 0) == (b < 0) else -quotient
+    return a / b
+
+
+def c_mod(a, b):
+    """Remainder of the C division."""
+    return a - b * c_div(a, b)
+
+
+class CDivision(ast.NodeTransformer):
+    """Replace the divisions of an expression by calls to c_div and c_mod, known
+    by names that no header can define.
+
+    """
+
+    def visit_BinOp(self, node):
+        self.generic_visit(node)
+        names = {ast.Div: "/", ast.Mod: "%"}
+        if type(node.op) not in names:
+            return node
+        func = ast.Name(id=names[type(node.op)], ctx=ast.Load())
+        return ast.Call(func=func, args=[node.left, node.right], keywords=[])
+
+
 # --- Basic parsing elements.
 
 
-- 
2.43.0


From 01d3f871094807de015fa53987425c9a4a8628e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:16 +0000
Subject: [PATCH 45/93] fix: parse unary operators and adjacent strings in
 expressions

---
 pyclibrary/c_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 23309c6..fb5684b 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1958,7 +1958,7 @@ quoted_regex = r"""("(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')"""
 # Miscelaneous
 bi_operator = oneOf("+ - / * | & || && ! ~ ^ % == != > < >= <= -> . :: << >> = ? :")
 uni_right_operator = oneOf("++ --")
-uni_left_operator = oneOf("++ -- - + * sizeof new")
+uni_left_operator = oneOf("++ -- - + * ~ ! & sizeof new")
 wordchars = alphanums + "_$"
 name = WordStart(wordchars) + Word(alphas + "_", alphanums + "_$") + WordEnd(wordchars)
 size_modifiers = ["short", "long"]
@@ -2072,7 +2072,7 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
                 | ident + OneOrMore("[" + expression + "]")
                 | ident
                 | number
-                | quotedString
+                | OneOrMore(quotedString)
             )
             | ("(" + expression + ")")
         )
@@ -2087,7 +2087,7 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
                 | ident + OneOrMore("[" + expression + "]")
                 | ident
                 | number
-                | quotedString
+                | OneOrMore(quotedString)
             )
             | ("(" + expression + ")")
         )
-- 
2.43.0


From 7503060ba957ef5c80ca966bec1834c550130ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:56 +0000
Subject: [PATCH 46/93] fix: parse casts to fundamental types in expressions

---
 pyclibrary/c_parser.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index fb5684b..ebd309d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -2063,22 +2063,6 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
     ).setParseAction(lambda t: " ".join(t))
 
     # Is there a better way to process expressions with cast operators??
-    cast_atom = (
-        ZeroOrMore(uni_left_operator)
-        + Optional("(" + ident + ")")
-        + (
-            (
-                ident + "(" + Optional(delimitedList(expression)) + ")"
-                | ident + OneOrMore("[" + expression + "]")
-                | ident
-                | number
-                | OneOrMore(quotedString)
-            )
-            | ("(" + expression + ")")
-        )
-        + ZeroOrMore(uni_right_operator)
-    )
-
     uncast_atom = (
         ZeroOrMore(uni_left_operator)
         + (
@@ -2094,7 +2078,9 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
         + ZeroOrMore(uni_right_operator)
     )
 
-    atom = cast_atom | uncast_atom
+    atom = Forward()
+    cast = "(" + (fund_type | ident) + ZeroOrMore("*") + ")"
+    atom << (ZeroOrMore(uni_left_operator) + cast + atom | uncast_atom)
 
     expression << Group(atom + ZeroOrMore(bi_operator + atom))
     expression.setParseAction(recombine)
-- 
2.43.0


From 0e085fa51daaa474714cacaf28d7f92a5a929e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:29 +0000
Subject: [PATCH 47/93] fix: only evaluate the expressions with the same
 meaning in C and Python

---
 pyclibrary/c_parser.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index ebd309d..f89a8ee 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1767,9 +1767,13 @@ class CParser(object):
         if expr == "":
             return None
         tree = ast.parse(expr.strip(), mode="eval")
-        # Members of structs should not be mistaken for Python attributes
+        # Only evaluate what has the same meaning in C and Python
         for node in ast.walk(tree):
-            if isinstance(node, ast.Attribute):
+            if isinstance(node, ast.Constant):
+                valid = type(node.value) in (int, float, str)
+            else:
+                valid = isinstance(node, evaluable_nodes)
+            if not valid:
                 raise DefinitionError("Cannot evaluate {}".format(expr))
         tree = ast.fix_missing_locations(CDivision().visit(tree))
         # Names of the headers should not be mistaken for Python builtins
@@ -1851,7 +1855,20 @@ class CParser(object):
         return res
 
 
-# --- Evaluation of the C division.
+# --- Evaluation of the expressions.
+
+#: Syntax elements with the same meaning in C and Python.
+evaluable_nodes = (
+    ast.Expression,
+    ast.BinOp,
+    ast.UnaryOp,
+    ast.Compare,
+    ast.Name,
+    ast.Load,
+    *(ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Mod, ast.LShift, ast.RShift),
+    *(ast.BitAnd, ast.BitOr, ast.BitXor, ast.Invert, ast.UAdd, ast.USub),
+    *(ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE),
+)
 
 
 def c_div(a, b):
-- 
2.43.0


From ddd48863ab4983ae84a34b4b5fae1816babec2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:35 +0000
Subject: [PATCH 48/93] fix: parse casts to qualified, struct, union and enum
 types in expressions

---
 pyclibrary/c_parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index f89a8ee..c2faed7 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -2096,7 +2096,13 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
     )
 
     atom = Forward()
-    cast = "(" + (fund_type | ident) + ZeroOrMore("*") + ")"
+    cast = (
+        "("
+        + ZeroOrMore(kwl(qualifiers))
+        + (fund_type | Optional(kwl(["struct", "union", "enum"])) + ident)
+        + ZeroOrMore("*" | kwl(qualifiers))
+        + ")"
+    )
     atom << (ZeroOrMore(uni_left_operator) + cast + atom | uncast_atom)
 
     expression << Group(atom + ZeroOrMore(bi_operator + atom))
-- 
2.43.0


From e9eb51ff20b9510fe86818d1cd89e263fd24b7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:14 +0000
Subject: [PATCH 49/93] fix: ignore unbalanced #pragma pack(pop) and #pragma
 pack(show)

---
 pyclibrary/c_parser.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index c2faed7..cde4323 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1028,27 +1028,25 @@ class CParser(object):
                         else:
                             id = o
 
-                    # A push without a value does not change the packing
-                    if pushpop != "push" or val is not None:
-                        packing = val
-
                     if pushpop == "push":
+                        # A push without a value does not change the packing
+                        if val is not None:
+                            packing = val
                         pack_stack.append((packing, id))
-                    elif opts[0] == "pop":
-                        if id is None:
-                            # Ignore a pop without a matching push
-                            if len(pack_stack) > 1:
-                                pack_stack.pop()
-                        else:
-                            ind = None
-                            for j, s in enumerate(pack_stack):
-                                # The last one pushed is the one to pop
-                                if s[1] == id:
-                                    ind = j
-                            if ind is not None:
-                                pack_stack = pack_stack[:ind]
-                        if val is None:
+                    elif pushpop == "pop":
+                        # Ignore a pop without a matching push, the last one
+                        # pushed is the one to pop
+                        ind = None
+                        for j, s in enumerate(pack_stack):
+                            if j > 0 and (id is None or s[1] == id):
+                                ind = j
+                        if ind is not None:
+                            pack_stack = pack_stack[:ind]
                             packing = pack_stack[-1][0]
+                            if val is not None:
+                                packing = val
+                    elif val is not None or opts == [""]:
+                        packing = val
 
                     mess = ">> Packing changed to {} at line {}"
                     logger.debug(mess.format(str(packing), i))
-- 
2.43.0


From cdad22273f1ac32d843a74d7d65f60f5d6d085e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:05 +0000
Subject: [PATCH 50/93] fix: build the types of pointers to functions without
 arguments

---
 pyclibrary/backends/ctypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 5e10f16..1764916 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -286,7 +286,8 @@ class CTypesCLibrary(CLibrary):
                     else:
                         mkfn = CFUNCTYPE
 
-                    args = [self._get_type(arg[1]) for arg in m]
+                    # (void) means no arguments
+                    args = [self._get_type(arg[1]) for arg in m if arg[1] != ("void",)]
                     cls = mkfn(cls, *args)
 
                 else:
-- 
2.43.0


From b1872e464699c72ab9d40a84bac2575bf69fdb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:24 +0000
Subject: [PATCH 51/93] fix: build structs with bit fields of type char

---
 pyclibrary/backends/ctypes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 1764916..d19dbaf 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -21,6 +21,7 @@ from ctypes import (
     Structure,
     Union,
     c_bool,
+    c_byte,
     c_char,
     c_char_p,
     c_double,
@@ -363,7 +364,12 @@ class CTypesCLibrary(CLibrary):
             # The bit width is the optional fourth item of a member, the third
             # one being its default value.
             try:
-                s._fields_ = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]
+                fields = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]
+                # ctypes does not support bit fields of c_char
+                s._fields_ = [
+                    (f[0], c_byte, *f[2:]) if f[2:] and f[1] is c_char else f
+                    for f in fields
+                ]
             except Exception:
                 # Do not keep classes without fields
                 for n in [*self._building_, *self._incomplete_]:
-- 
2.43.0


From b1fac1ba7af39f9c30ec9c006e6d7ed7b62c1b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:51 +0000
Subject: [PATCH 52/93] fix: do not name unnamed bit fields as the anonymous
 members

---
 pyclibrary/backends/ctypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index d19dbaf..e87a81b 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -345,8 +345,11 @@ class CTypesCLibrary(CLibrary):
             for i, d in enumerate(defs):
                 if d[0] is None:
                     c = 0
+                    # The fields of anonymous members (hence their unnamed bit
+                    # fields) must not hide the anonymous members
+                    prefix = "anon_member" if len(d) < 4 else "anon_bits"
                     while True:
-                        name = "anon_member%d" % c
+                        name = "%s%d" % (prefix, c)
                         if name not in members:
                             d = (name, *d[1:])
                             defs[i] = d
-- 
2.43.0


From 59527a229bfea869da1e800d3093a38b19a9174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:04 +0000
Subject: [PATCH 53/93] fix: keep the tabulations in string literals

---
 pyclibrary/c_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index cde4323..697fd67 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -880,6 +880,8 @@ class CParser(object):
             + SkipTo(LineEnd())("value")
         )
         self.pp_define.setParseAction(self.process_macro_defn)
+        # Keep the tabulations in strings
+        self.pp_define.parseWithTabs()
 
         # Comb through lines, process all directives
         lines = text.split("\n")
@@ -1476,6 +1478,8 @@ class CParser(object):
         self.enum_decl = self.enum_type + semi
 
         self.parser = self.type_decl | self.variable_decl | self.function_decl
+        # Keep the tabulations in strings
+        self.parser.parseWithTabs()
         return self.parser
 
     def process_declarator(self, decl):
-- 
2.43.0


From e50d9c5f8b74570e34fe34d8493bc9fde01f7db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:28 +0000
Subject: [PATCH 54/93] fix: do not import half of a damaged cache

---
 pyclibrary/c_parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 697fd67..7f689ce 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -715,11 +715,16 @@ class CParser(object):
         Used internally; does not need to be called manually.
 
         """
-        for f in data.keys():
+        # Read everything first not to import half of a damaged cache
+        defs = [
+            (f, k, n, v)
+            for f in data
+            for k in self.data_list
+            for n, v in data[f][k].items()
+        ]
+        for f, k, n, v in defs:
             self.current_file = f
-            for k in self.data_list:
-                for n in data[f][k]:
-                    self.add_def(k, n, data[f][k][n])
+            self.add_def(k, n, v)
 
     def write_cache(self, cache_file):
         """Store all parsed declarations to cache. Used internally."""
-- 
2.43.0


From 8cf8d6e49374353519837df9ac9330ce16e1f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:16 +0000
Subject: [PATCH 55/93] fix: invalidate the cache when the order of the
 replacements changes

---
 pyclibrary/c_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 7f689ce..243babe 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -16,6 +16,7 @@ import logging
 import os
 import re
 import sys
+from collections import OrderedDict
 from copy import deepcopy
 from inspect import cleandoc
 from string import Formatter
@@ -789,7 +790,8 @@ class CParser(object):
 
         self.file_order.append(path)
         bn = os.path.basename(path)
-        self.init_opts["replace"][bn] = replace
+        # The replacements are made in order (and the caller may change them)
+        self.init_opts["replace"][bn] = replace and OrderedDict(replace)
         # Only interested in the file names, the directory may change between
         # systems.
         self.init_opts["files"].append(bn)
-- 
2.43.0


From 02a59e7ad022dcd2e3c638674e4e70d9af780b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:34 +0000
Subject: [PATCH 56/93] fix: ignore #define and #undef without a macro name

---
 pyclibrary/c_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 243babe..495af12 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -937,6 +937,10 @@ class CParser(object):
 
                 elif d in ["define", "undef"]:
                     match = re.match(r"\s*([a-zA-Z_][a-zA-Z0-9_]*)(.*)$", rest)
+                    if match is None:
+                        logger.warning("No macro name in: {}".format(line))
+                        result.append(new_line)
+                        continue
                     macroName, rest = match.groups()
 
                 # Expand macros if needed
-- 
2.43.0


From 19b1103fc42b9e768ff082af4c54d5aa5c48238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:12 +0000
Subject: [PATCH 57/93] fix: record the compiler specific qualifiers as text

---
 pyclibrary/c_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 495af12..44bcbf8 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -50,6 +50,7 @@ from pyparsing import (
     lineno,
     nestedExpr,
     oneOf,
+    originalTextFor,
     quotedString,
 )
 
@@ -2074,7 +2075,8 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
         + WordEnd(wordchars)
     ).setParseAction(lambda t: t[0])
     type_qualifier = ZeroOrMore(
-        (underscore_2_ident + Optional(nestedExpr())) | kwl(qualifiers)
+        originalTextFor(underscore_2_ident + Optional(nestedExpr()))
+        | kwl(qualifiers)
     )
 
     storage_class_spec = Optional(kwl(storage_classes))
-- 
2.43.0


From 1c2dedc7c503e12165d1b8a898273cff512d2d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:46 +0000
Subject: [PATCH 58/93] fix: preprocess the files only once

---
 pyclibrary/c_parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 44bcbf8..0ff859d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -612,11 +612,13 @@ class CParser(object):
                 mess = 'Could not find header file "{}" or a cache file.'
                 raise IOError(mess.format(f))
 
-            logger.debug("Removing comments from file '{}'...".format(f))
-            self.remove_comments(f)
+            # The directives are gone once the file was preprocessed
+            if f not in self.pack_list:
+                logger.debug("Removing comments from file '{}'...".format(f))
+                self.remove_comments(f)
 
-            logger.debug("Preprocessing file '{}'...".format(f))
-            self.preprocess(f)
+                logger.debug("Preprocessing file '{}'...".format(f))
+                self.preprocess(f)
 
             if print_after_preprocess:
                 print("===== PREPROCSSED {} =======".format(f))
@@ -789,6 +791,7 @@ class CParser(object):
                 for s in replace:
                     self.files[path] = re.sub(s, replace[s], self.files[path])
 
+        self.pack_list.pop(path, None)
         self.file_order.append(path)
         bn = os.path.basename(path)
         # The replacements are made in order (and the caller may change them)
-- 
2.43.0


From bc5bc8e51a32f417167df1827470a93f57eb6cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:21 +0000
Subject: [PATCH 59/93] fix: do not resolve __debug__ and __builtins__ as
 Python names

---
 pyclibrary/c_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 0ff859d..087c586 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1788,6 +1788,10 @@ class CParser(object):
         for node in ast.walk(tree):
             if isinstance(node, ast.Constant):
                 valid = type(node.value) in (int, float, str)
+            elif isinstance(node, ast.Name):
+                # __debug__ is replaced by a constant when compiling
+                known = any(a and node.id in a for a in args)
+                valid = known and node.id != "__debug__"
             else:
                 valid = isinstance(node, evaluable_nodes)
             if not valid:
-- 
2.43.0


From 045fcd139d29afa768a50f48b2b3c95a61bfcdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:59 +0000
Subject: [PATCH 60/93] fix: do not resolve Unicode names as Python builtins in
 #if expressions

---
 pyclibrary/c_parser.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 087c586..02c9af9 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1091,7 +1091,11 @@ class CParser(object):
         expr2 = macro_diffs.transformString(expr).strip()
 
         try:
-            ev = bool(eval(expr2))
+            tree = ast.parse(expr2, mode="eval")
+            # There is no name left, unless Python accepts names that C does not
+            if not all(isinstance(n, condition_nodes) for n in ast.walk(tree)):
+                raise DefinitionError("Cannot evaluate {}".format(expr))
+            ev = bool(eval(compile(tree, "<header>", "eval"), {"__builtins__": {}}))
         except Exception:
             mess = "Error evaluating preprocessor expression: {} [{}]\n{}"
             logger.debug(mess.format(expr, repr(expr2), format_exc()))
@@ -1891,6 +1895,11 @@ evaluable_nodes = (
     *(ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE),
 )
 
+#: Syntax elements of the conditions of the preprocessor.
+condition_nodes = tuple(n for n in evaluable_nodes if n is not ast.Name) + (
+    *(ast.Constant, ast.BoolOp, ast.And, ast.Or, ast.Not, ast.FloorDiv),
+)
+
 
 def c_div(a, b):
     """Divide like C: the quotient of two integers is truncated toward zero."""
-- 
2.43.0


From 11777f59ac4e6c34dd2ada5be2632fc223087fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:08 +0000
Subject: [PATCH 61/93] fix: build the pointers to function pointers

---
 pyclibrary/backends/ctypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index e87a81b..c77b3fd 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -269,7 +269,8 @@ class CTypesCLibrary(CLibrary):
                     for i in [0, 1]:
                         if len(mods) < 1:
                             break
-                        if mods[0] == "*":
+                        # The other pointers are pointers to the function pointer
+                        if mods[0] == "*" and not is_ptr:
                             mods.pop(0)
                             is_ptr = True
                         elif mods[0] in ["__stdcall", "__cdecl"]:
-- 
2.43.0


From 1d8356ca9ccf11fa1cff557f65d19848438d4e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:03 +0000
Subject: [PATCH 62/93] fix: accept typedefs of void as an empty list of
 arguments

---
 pyclibrary/backends/ctypes.py | 6 +++---
 pyclibrary/c_library.py       | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index c77b3fd..d3d951a 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -288,9 +288,9 @@ class CTypesCLibrary(CLibrary):
                     else:
                         mkfn = CFUNCTYPE
 
-                    # (void) means no arguments
-                    args = [self._get_type(arg[1]) for arg in m if arg[1] != ("void",)]
-                    cls = mkfn(cls, *args)
+                    # (void) means no arguments (void can be a typedef)
+                    args = [self._get_type(arg[1]) for arg in m]
+                    cls = mkfn(cls, *(arg for arg in args if arg is not None))
 
                 else:
                     mess = "Not sure what to do with this type modifier: '{}'"
diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 2c9fa13..b9220d8 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -411,8 +411,10 @@ class CFunction(object):
         #                           (argName, type, default), ...]]
         self.sig = list(sig)
 
-        # remove void args from list
-        self.sig[1] = [s for s in sig[1] if s[1] != ("void",)]
+        # remove void args from list (void can be a typedef)
+        self.sig[1] = [
+            s for s in sig[1] if lib._headers_.eval_type(s[1]) != ("void",)
+        ]
         # remove calling conventions from the return type
         self.sig[0] = Type(
             *(t for t in self.sig[0] if t not in ("__stdcall", "__cdecl"))
-- 
2.43.0


From f4ff1c36d9fd972eb990850e087adeafff8e281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:03 +0000
Subject: [PATCH 63/93] fix: accept arguments named self by keyword

---
 pyclibrary/c_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index b9220d8..fc82bc2 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -428,7 +428,7 @@ class CFunction(object):
 
         self.lib._init_function(self)
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         """Invoke the SO or dll function referenced, converting all arguments
         to the correct type.
 
-- 
2.43.0


From 2f0ad7b3cb3212e936386dab831c699488519376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:19 +0000
Subject: [PATCH 64/93] fix: pass NULL for the array arguments

---
 pyclibrary/backends/ctypes.py | 5 +++++
 pyclibrary/c_library.py       | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index d3d951a..8920b07 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -18,6 +18,7 @@ from ctypes import (
     CDLL,
     CFUNCTYPE,
     POINTER,
+    Array,
     Structure,
     Union,
     c_bool,
@@ -430,6 +431,10 @@ class CTypesCLibrary(CLibrary):
 
     def _init_function(self, function):
         """Overrided here to declare the arguments types and return type."""
+        # Arrays are passed as pointers to their first element
+        function.arg_types = [
+            POINTER(t._type_) if issubclass(t, Array) else t for t in function.arg_types
+        ]
         function.func.argtypes = function.arg_types
         function.func.restype = function.res_type
 
diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index fc82bc2..bb534e9 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -485,7 +485,7 @@ class CFunction(object):
                         mess = make_mess("""Cannot create NULL for
                                         non-pointer argument type: {}""")
                         raise TypeError(mess.format(arg_type))
-                    arg_list[i] = self.lib._get_type(sig)()
+                    arg_list[i] = self.arg_types[i]()
 
                 else:
                     arg_list[i] = self.lib._get_pointer(arg_type, sig)
-- 
2.43.0


From e452aafc78c9680b5591a7ee60ef8ebd8df2c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:38 +0000
Subject: [PATCH 65/93] fix: do not give a union when asked for a struct

---
 pyclibrary/backends/ctypes.py | 31 ++++++++++++++++++-------------
 pyclibrary/c_library.py       |  5 ++---
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 8920b07..5840f32 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -303,21 +303,25 @@ class CTypesCLibrary(CLibrary):
             raise
 
     def _get_struct(self, str_type, str_name, complete=True):
+        classes = self._structs_ if str_type == "structs" else self._unions_
         # While building a class, the ones only pointed at do not need to be
         # complete (they may contain the one being built).
-        if str_name not in self._structs_ or (complete and str_name in self._incomplete_):
+        if str_name not in classes or (
+            complete and (str_type, str_name) in self._incomplete_
+        ):
             str_name = self._resolve_struct_alias(str_type, str_name)
             # The class may already have been built under its real name
-            if str_name in self._structs_ and str_name not in self._incomplete_:
-                return self._structs_[str_name]
+            key = (str_type, str_name)
+            if str_name in classes and key not in self._incomplete_:
+                return classes[str_name]
 
             # Pull struct definition
             defn = self._defs_[str_type][str_name]
 
             # create ctypes class
             defs = defn["members"][:]
-            if str_name in self._incomplete_:
-                s = self._structs_[str_name]
+            if key in self._incomplete_:
+                s = classes[str_name]
             elif str_type == "structs":
 
                 class s(Structure):
@@ -330,13 +334,14 @@ class CTypesCLibrary(CLibrary):
                         return "<ctypes union '%s'>" % str_name
 
             # Must register struct here to allow recursive definitions.
-            self._structs_[str_name] = s
+            classes[str_name] = s
 
             if self._building_ and not complete:
-                self._incomplete_[str_name] = str_type
+                self._incomplete_.append(key)
                 return s
-            self._incomplete_.pop(str_name, None)
-            self._building_.append(str_name)
+            if key in self._incomplete_:
+                self._incomplete_.remove(key)
+            self._building_.append(key)
 
             if defn["pack"] is not None:
                 s._pack_ = defn["pack"]
@@ -377,8 +382,8 @@ class CTypesCLibrary(CLibrary):
                 ]
             except Exception:
                 # Do not keep classes without fields
-                for n in [*self._building_, *self._incomplete_]:
-                    self._structs_.pop(n, None)
+                for t, n in [*self._building_, *self._incomplete_]:
+                    (self._structs_ if t == "structs" else self._unions_).pop(n, None)
                 self._building_.clear()
                 self._incomplete_.clear()
                 raise
@@ -386,9 +391,9 @@ class CTypesCLibrary(CLibrary):
 
             self._building_.pop()
             while self._incomplete_ and not self._building_:
-                self._get_struct(*reversed(next(iter(self._incomplete_.items()))))
+                self._get_struct(*self._incomplete_[0])
 
-        return self._structs_[str_name]
+        return classes[str_name]
 
     def _get_pointer(self, arg_type, sig):
         """Build an uninitialised pointer for the given type."""
diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index bb534e9..81b325f 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -207,9 +207,8 @@ class CLibrary(object, metaclass=CLibraryMeta):
         self._all_objs_ = {}
         self._structs_ = {}
         self._unions_ = {}
-        # Definitions of the structs whose fields are not set yet and names of
-        # the structs being built
-        self._incomplete_ = {}
+        # Structs and unions whose fields are not set yet and the ones being built
+        self._incomplete_ = []
         self._building_ = []
 
     def __call__(self, typ, name):
-- 
2.43.0


From 4d5cd613e200b2e179882289f6c1d66581f14095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:38 +0000
Subject: [PATCH 66/93] fix: prefer the name itself to the prefixed ones
 whatever was accessed before

---
 pyclibrary/c_library.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 81b325f..949ca97 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -266,19 +266,16 @@ class CLibrary(object, metaclass=CLibraryMeta):
 
     def _make_obj_(self, typ, name):
         """Build the correct C-like object from the header definitions."""
-        names = self._all_names_(name)
-        objs = self._objs_[typ]
-
-        for n in names:
-            if n in objs:
-                return objs[n]
-
-        for n in names:  # try with and without prefix
+        for n in self._all_names_(name):  # try with and without prefix
             if n not in self._defs_[typ] and not (
                 typ in ["structs", "unions", "enums"] and n in self._defs_["types"]
             ):
                 continue
 
+            # The objects are built and stored under their complete name
+            if n != name:
+                return self(typ, n)
+
             if typ == "values":
                 return self._defs_[typ][n]
             elif typ == "functions":
-- 
2.43.0


From 6097cf6c32e0b9851c8563388ac1c9bca1b825d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:49 +0000
Subject: [PATCH 67/93] fix: do not keep the callers of the parser alive

---
 pyclibrary/c_parser.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 02c9af9..25af82d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1281,11 +1281,15 @@ class CParser(object):
         self.current_file = path
 
         parser = self.build_parser()
-        if return_unparsed:
-            text = parser.suppress().transformString(self.files[path])
-            return re.sub(r"\n\s*\n", "\n", text)
-        else:
-            return [x[0] for x in parser.scanString(self.files[path])]
+        try:
+            if return_unparsed:
+                text = parser.suppress().transformString(self.files[path])
+                return re.sub(r"\n\s*\n", "\n", text)
+            else:
+                return [x[0] for x in parser.scanString(self.files[path])]
+        finally:
+            # The exceptions in the cache of pyparsing keep the callers alive
+            ParserElement.resetCache()
 
     def build_parser(self):
         """Builds the entire tree of parser elements for the C language (the
-- 
2.43.0


From fb5ab516f193be4c1d7b4eb54805e10e492f4ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:06 +0000
Subject: [PATCH 68/93] fix: do not give the names of libraries to a shell

---
 pyclibrary/thirdparty/find_library.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pyclibrary/thirdparty/find_library.py b/pyclibrary/thirdparty/find_library.py
index 1687c14..4bbfaf2 100644
--- a/pyclibrary/thirdparty/find_library.py
+++ b/pyclibrary/thirdparty/find_library.py
@@ -13,21 +13,28 @@ if os.name == "posix" and sys.platform.startswith("linux"):
     def define_find_libary():
         import errno
         import re
+        import shutil
+        import subprocess
         import tempfile
 
         def _findlib_gcc(name):
             expr = r"[^\(\)\s]*lib%s\.[^\(\)\s]*" % re.escape(name)
             fdout, ccout = tempfile.mkstemp()
             os.close(fdout)
-            cmd = (
-                "if type gcc >/dev/null 2>&1; then CC=gcc; else CC=cc; fi;"
-                "$CC -Wl,-t -o " + ccout + " 2>&1 -l" + name
-            )
+            # The name must not be interpreted by a shell
+            cmd = [shutil.which("gcc") or "cc", "-Wl,-t", "-o", ccout, "-l" + name]
             trace = ""
             try:
-                f = os.popen(cmd)
-                trace = f.read()
-                f.close()
+                trace = subprocess.run(
+                    cmd,
+                    stdout=subprocess.PIPE,
+                    stderr=subprocess.STDOUT,
+                    encoding="utf-8",
+                    errors="replace",
+                ).stdout
+            except (OSError, ValueError):
+                # No compiler, or not a possible name
+                pass
             finally:
                 try:
                     os.unlink(ccout)
-- 
2.43.0


From 44a7df7d9d793cbf885a14008f3f2c9c3a2a64e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:06 +0000
Subject: [PATCH 69/93] fix: read the class of ELF files from their header

---
 pyclibrary/utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index 62c4a43..2d4cc6c 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -203,16 +203,20 @@ def get_arch(filename):
     elif this_platform not in ("linux2", "linux3", "linux", "darwin"):
         raise OSError("")
 
-    # Do not get the name of the file in the output and follow the links
-    out = check_output(["file", "-b", "-L", filename], stderr=subprocess.STDOUT)
-    out = out.decode("ascii")
     ret = []
     if this_platform.startswith("linux"):
-        if "32-bit" in out:
+        # The header gives the class of ELF files, the output of file can
+        # contain other parts of their content (interpreter, program, ...).
+        with io.open(filename, "rb") as fp:
+            ident = fp.read(5)
+        if ident == b"\x7fELF\x01":
             ret.append(32)
-        if "64-bit" in out:
+        elif ident == b"\x7fELF\x02":
             ret.append(64)
     elif this_platform == "darwin":
+        # Do not get the name of the file in the output and follow the links
+        out = check_output(["file", "-b", "-L", filename], stderr=subprocess.STDOUT)
+        out = out.decode("ascii")
         if "(for architecture i386)" in out:
             ret.append(32)
         if "(for architecture x86_64)" in out:
-- 
2.43.0


From 4977c13333964a4d8e629f62373184906996ced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:06 +0000
Subject: [PATCH 70/93] fix: use the class given to init for time_t

---
 pyclibrary/backends/ctypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 5840f32..9ee1f0e 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -505,7 +505,7 @@ def init_clibrary(extra_types={}):
                 extra_types[k] = WIN_TYPES[k]
 
     if sys.version_info >= (3, 12):
-        extra_types["time_t"] = c_time_t
+        extra_types.setdefault("time_t", c_time_t)
 
     # Now complete the list with some more exotic types
     CTypesCLibrary._types_.update(extra_types)
-- 
2.43.0


From d6cde3e52b949e529de66995aaf407f5d491279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:06 +0000
Subject: [PATCH 71/93] fix: do not take the beginning of names with $ for
 keywords

---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 25af82d..07dfc41 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1938,7 +1938,8 @@ class CDivision(ast.NodeTransformer):
 
 def kwl(strs):
     """Generate a match-first list of keywords given a list of strings."""
-    return Regex(r"\b({})\b".format("|".join(strs)))
+    # Names can contain $
+    return Regex(r"(?<![\w$])({})(?![\w$])".format("|".join(map(re.escape, strs))))
 
 
 def flatten(lst):
-- 
2.43.0


From cc060d3cb59219f39bbb9daf3917f1f929648c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:06 +0000
Subject: [PATCH 72/93] fix: do not use a cache written with other types or
 modifiers

---
 pyclibrary/c_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 07dfc41..9781018 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -515,6 +515,9 @@ class CParser(object):
         self.init_opts["files"] = []
         self.init_opts["replace"] = {}
         self.init_opts["encoding"] = encoding
+        # The same text does not have the same meaning with other ones
+        self.init_opts["extra_types"] = sorted(extra_type_list)
+        self.init_opts["extra_modifiers"] = sorted(extra_modifier_list)
 
         self.data_list = [
             "types",
@@ -2027,6 +2030,7 @@ storage_class_spec = None
 extra_modifier = None
 fund_type = None
 extra_type_list = []
+extra_modifier_list = []
 
 c99_int_types = [
     "int8_t",
@@ -2056,10 +2060,11 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
     global base_types
     global type_qualifier, storage_class_spec, extra_modifier
     global fund_type
-    global extra_type_list
+    global extra_type_list, extra_modifier_list
 
     # Some basic definitions
     extra_type_list = [] if extra_types is None else list(extra_types)
+    extra_modifier_list = [] if extra_modifiers is None else list(extra_modifiers)
     base_types = nonnum_types + num_types + extra_type_list
     storage_classes = ["inline", "static", "extern"]
     qualifiers = ["const", "volatile", "restrict", "near", "far"]
-- 
2.43.0


From 546851400fa8860a70dd47feb326da61f48ac5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:02 +0000
Subject: [PATCH 73/93] fix: represent the calling conventions as they are
 recorded

---
 pyclibrary/c_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 9781018..bcf058d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -266,9 +266,9 @@ class Type(tuple):
             return self
 
     def __repr__(self):
-        type_qual_str = (
-            "" if not any(self.type_quals) else ", type_quals=" + repr(self.type_quals)
-        )
+        # Calling conventions have None as qualifiers
+        no_quals = all(q == () for q in self.type_quals)
+        type_qual_str = "" if no_quals else ", type_quals=" + repr(self.type_quals)
         return (
             type(self).__name__ + "(" + ", ".join(map(repr, self)) + type_qual_str + ")"
         )
-- 
2.43.0


From 3c722e081b4ddb7acba1a81104665413b4e91725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:02 +0000
Subject: [PATCH 74/93] fix: represent structs without members

---
 pyclibrary/c_parser.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index bcf058d..2ad7e4a 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -290,14 +290,10 @@ class Compound(dict):
         super(Compound, self).__init__({"members": members, "pack": pack})
 
     def __repr__(self):
-        packParam = ", pack=" + repr(self.pack) if self.pack is not None else ""
-        return (
-            type(self).__name__
-            + "("
-            + ", ".join(map(repr, self.members))
-            + packParam
-            + ")"
-        )
+        args = list(map(repr, self.members))
+        if self.pack is not None:
+            args.append("pack=" + repr(self.pack))
+        return type(self).__name__ + "(" + ", ".join(args) + ")"
 
     @property
     def members(self):
-- 
2.43.0


From f0d071f90d3d63cafb05d3209a61509d839a4246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:02 +0000
Subject: [PATCH 75/93] fix: accept enumerators named self in Enum

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 2ad7e4a..9f7cb74 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -339,7 +339,7 @@ class Enum(dict):
 
     __slots__ = ()
 
-    def __init__(self, **args):
+    def __init__(self, /, **args):
         super(Enum, self).__init__(args)
 
     def __repr__(self):
-- 
2.43.0


From 9c28a4b90f8de3d9aa95dc632cc423e888bad5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:49 +0000
Subject: [PATCH 76/93] fix: resolve the types given as names or tuples

---
 pyclibrary/c_parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 9f7cb74..3c49433 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -444,7 +444,7 @@ class CParser(object):
     kwargs :
         Extra parameters may be used to specify the starting state of the
         parser. For example, one could provide a set of missing type
-        declarations by types={'UINT': ('unsigned int'), 'STRING': ('char', 1)}
+        declarations by types={'UINT': 'unsigned int', 'STRING': ('char', '*')}
         Similarly, preprocessor macros can be specified: macros={'WINAPI': ''}
 
     Example
@@ -549,8 +549,11 @@ class CParser(object):
 
         # Import extra arguments if specified
         for t in kwargs:
-            for k in kwargs[t].keys():
-                self.add_def(t, k, kwargs[t][k])
+            for k, v in kwargs[t].items():
+                # Types can be given as a name or a tuple
+                if t == "types" and not isinstance(v, Type):
+                    v = Type(v) if isinstance(v, str) else Type(*v)
+                self.add_def(t, k, v)
 
         # Import from other CParsers if specified
         if copy_from is not None:
-- 
2.43.0


From b8c6966ac9281ab5a003321fb966a6d13235ce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 77/93] fix: search the text of the known files when a header
 is missing

---
 pyclibrary/c_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 3c49433..5eefd46 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1879,6 +1879,9 @@ class CParser(object):
         """Search all file strings for text, return matching lines."""
         res = []
         for f in self.files:
+            # The text of a missing file is not known, even if it is in the cache
+            if self.files[f] is None:
+                continue
             lines = self.files[f].split("\n")
             for i, line in enumerate(lines):
                 if text in line:
-- 
2.43.0


From f804fb48875cf0e6ed88ac0cd277b8130b5772f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 78/93] fix: evaluate the widths of bit-fields

---
 pyclibrary/c_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 5eefd46..c8a0443 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1461,7 +1461,7 @@ class CParser(object):
                         delimitedList(
                             Group(
                                 Optional(self.declarator)("decl")
-                                + Optional(colon + integer("bit"))
+                                + Optional(colon + expression("bit"))
                             )
                         )
                     )("bit_list")
@@ -1713,7 +1713,7 @@ class CParser(object):
                             (name, decl) = self.process_type(typ, d)
                         member = [name, decl, val]
                         if bit:
-                            member.append(int(bit))
+                            member.append(self.eval_expr(bit))
                         struct.append(tuple(member))
                         logger.debug("      {} {} {} {}".format(name, decl, val, bit))
 
-- 
2.43.0


From 3f6cd2b04b603fc31dbaf79fa1cc42dddb6f08e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:05 +0000
Subject: [PATCH 79/93] fix: ignore null directives and line markers inside
 declarations

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index c8a0443..39aecf6 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -901,7 +901,7 @@ class CParser(object):
 
         result = []
 
-        directive = re.compile(r"\s*#\s*([a-zA-Z]+)(.*)$")
+        directive = re.compile(r"\s*#\s*([a-zA-Z]*)(.*)$")
         if_true = [True]
         if_hit = []
         for i, line in enumerate(lines):
-- 
2.43.0


From 7345bbdc601202212b878dce9e4797d3950e5d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:05 +0000
Subject: [PATCH 80/93] fix: do not give comparisons a value they do not have
 in C

---
 pyclibrary/c_parser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 39aecf6..6582b99 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1802,6 +1802,18 @@ class CParser(object):
                 # __debug__ is replaced by a constant when compiling
                 known = any(a and node.id in a for a in args)
                 valid = known and node.id != "__debug__"
+            elif isinstance(node, ast.Compare):
+                # Python chains the comparisons, and gives them less priority
+                # than the bitwise operators when these have no parenthesis
+                valid = len(node.ops) == 1 and not any(
+                    isinstance(n, ast.BinOp)
+                    and isinstance(n.op, (ast.BitAnd, ast.BitOr, ast.BitXor))
+                    and getattr(n, offset) == getattr(node, offset)
+                    for n, offset in (
+                        (node.left, "col_offset"),
+                        (node.comparators[0], "end_col_offset"),
+                    )
+                )
             else:
                 valid = isinstance(node, evaluable_nodes)
             if not valid:
-- 
2.43.0


From 66c66d878768ce90ece0a33328ad4267b86444c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:05 +0000
Subject: [PATCH 81/93] fix: keep the enumerations with characters or unknown
 values

---
 pyclibrary/c_parser.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 6582b99..76b42d0 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1623,12 +1623,13 @@ class CParser(object):
                 for v in t.members:
                     if v.value != "":
                         try:
-                            i = self.eval_expr(v.value)
+                            i = self.eval_expr(char_values(v.value))
                         except Exception:
-                            pass
+                            i = None
                     enum[v.name] = i
                     self.add_def("values", v.name, i)
-                    i += 1
+                    # What follows an unknown value is unknown too
+                    i = i + 1 if isinstance(i, (int, float)) else None
                 logger.debug("  members: {}".format(enum))
                 self.add_def("enums", name, enum)
                 self.add_def("types", "enum " + name, Type("enum", name))
@@ -1935,6 +1936,17 @@ def c_mod(a, b):
     return a - b * c_div(a, b)
 
 
+def char_values(expr):
+    """Replace the character constants of an expression by their value."""
+
+    def value(m):
+        if m.group().startswith("'"):
+            return str(ord(ast.literal_eval(m.group())))
+        return m.group()
+
+    return re.sub(quoted_regex, value, expr)
+
+
 class CDivision(ast.NodeTransformer):
     """Replace the divisions of an expression by calls to c_div and c_mod, known
     by names that no header can define.
-- 
2.43.0


From c8d1562c7e78ecb0f9b058543675d73e751a0504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:05 +0000
Subject: [PATCH 82/93] fix: evaluate the conditions of the preprocessor with
 the priorities of C

---
 pyclibrary/c_parser.py | 109 +++++++++++++++++++++++++++++++----------
 1 file changed, 83 insertions(+), 26 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 76b42d0..9392c37 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -13,6 +13,7 @@ function signatures from C header files.
 
 import ast
 import logging
+import operator
 import os
 import re
 import sys
@@ -1079,28 +1080,11 @@ class CParser(object):
         self.files[path] = "\n".join(result)
 
     def eval_preprocessor_expr(self, expr):
-        # Make a few alterations so the expression can be eval'd
-        macro_diffs = (
-            # Numbers go first, or their suffix or radix is seen as a name
-            integer
-            | Literal("!=")
-            | Literal("!").setParseAction(lambda: " not ")
-            | Literal("&&").setParseAction(lambda: " and ")
-            | Literal("||").setParseAction(lambda: " or ")
-            | Literal("/").setParseAction(lambda: "//")
-            | Word(alphas + "_", alphanums + "_").setParseAction(lambda: "0")
-        )
-        expr2 = macro_diffs.transformString(expr).strip()
-
         try:
-            tree = ast.parse(expr2, mode="eval")
-            # There is no name left, unless Python accepts names that C does not
-            if not all(isinstance(n, condition_nodes) for n in ast.walk(tree)):
-                raise DefinitionError("Cannot evaluate {}".format(expr))
-            ev = bool(eval(compile(tree, "<header>", "eval"), {"__builtins__": {}}))
+            ev = bool(eval_condition(expr))
         except Exception:
-            mess = "Error evaluating preprocessor expression: {} [{}]\n{}"
-            logger.debug(mess.format(expr, repr(expr2), format_exc()))
+            mess = "Error evaluating preprocessor expression: {}\n{}"
+            logger.debug(mess.format(expr, format_exc()))
             ev = False
         return ev
 
@@ -1909,7 +1893,6 @@ evaluable_nodes = (
     ast.Expression,
     ast.BinOp,
     ast.UnaryOp,
-    ast.Compare,
     ast.Name,
     ast.Load,
     *(ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Mod, ast.LShift, ast.RShift),
@@ -1917,11 +1900,6 @@ evaluable_nodes = (
     *(ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE),
 )
 
-#: Syntax elements of the conditions of the preprocessor.
-condition_nodes = tuple(n for n in evaluable_nodes if n is not ast.Name) + (
-    *(ast.Constant, ast.BoolOp, ast.And, ast.Or, ast.Not, ast.FloorDiv),
-)
-
 
 def c_div(a, b):
     """Divide like C: the quotient of two integers is truncated toward zero."""
@@ -1936,6 +1914,85 @@ def c_mod(a, b):
     return a - b * c_div(a, b)
 
 
+#: Binary operators of the conditions of the preprocessor, by increasing priority.
+condition_operators = (
+    {"||": None},
+    {"&&": None},
+    {"|": operator.or_},
+    {"^": operator.xor},
+    {"&": operator.and_},
+    {"==": operator.eq, "!=": operator.ne},
+    {"<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge},
+    {"<<": operator.lshift, ">>": operator.rshift},
+    {"+": operator.add, "-": operator.sub},
+    {"*": operator.mul, "/": c_div, "%": c_mod},
+)
+
+#: Unary operators of the conditions of the preprocessor.
+condition_unary = {
+    "+": operator.pos,
+    "-": operator.neg,
+    "~": operator.invert,
+    "!": operator.not_,
+}
+
+
+def eval_condition(expr):
+    """Evaluate a condition of the preprocessor, in which all names are worth 0."""
+    token = re.compile(
+        r"\s*(\.?[0-9](?:[eE][+-]|[\w.])*|[a-zA-Z_]\w*|&&|\|\||<<|>>|[=!<>]=|\S)"
+    )
+    # The last one is the next one
+    tokens = token.findall(expr)[::-1]
+
+    # Nothing is computed where the value does not matter
+    def operand(needed):
+        tok = tokens.pop()
+        if tok == "(":
+            val = ternary(needed)
+            if tokens.pop() != ")":
+                raise DefinitionError("Missing closing parenthesis.")
+            return val
+        if tok in condition_unary:
+            val = operand(needed)
+            return condition_unary[tok](val) if needed else 0
+        if re.match(r"[a-zA-Z_]", tok):
+            return 0
+        return ast.literal_eval(number.parseString(tok, parseAll=True)[0])
+
+    def binary(needed, lowest=0):
+        val = operand(needed)
+        while tokens:
+            op = tokens[-1]
+            level = [i for i, ops in enumerate(condition_operators) if op in ops]
+            if not level or level[0] < lowest:
+                break
+            tokens.pop()
+            known = op in ("||", "&&") and bool(val) == (op == "||")
+            right = binary(needed and not known, level[0] + 1)
+            if op in ("||", "&&"):
+                val = bool(val if known else right)
+            elif needed:
+                val = condition_operators[level[0]][op](val, right)
+        return val
+
+    def ternary(needed):
+        val = binary(needed)
+        if tokens and tokens[-1] == "?":
+            tokens.pop()
+            choices = [ternary(needed and val)]
+            if tokens.pop() != ":":
+                raise DefinitionError("Missing choice in {}".format(expr))
+            choices.append(ternary(needed and not val))
+            val = choices[0 if val else 1]
+        return val
+
+    val = ternary(True)
+    if tokens:
+        raise DefinitionError("Cannot evaluate {}".format(expr))
+    return val
+
+
 def char_values(expr):
     """Replace the character constants of an expression by their value."""
 
-- 
2.43.0


From aca6f5dcdd01b54f9fb28455e51db8af746c5565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:33 +0000
Subject: [PATCH 83/93] fix: read the initializer of every declarator, skip the
 unknown ones

---
 pyclibrary/c_parser.py | 43 ++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 9392c37..2ace8d6 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1397,22 +1397,34 @@ class CParser(object):
         )
         self.type_decl.setParseAction(self.process_typedef)
 
-        # Variable declaration
+        # Variable declaration, every declarator can have its own initializer
+        init_end = FollowedBy(oneOf(", ;"))
+        initializer = Literal("=").suppress() + (
+            expression("value") + init_end
+            | lbrace
+            + Group(delimitedList(expression))("array_values")
+            + Optional(",").suppress()
+            + rbrace
+            + init_end
+            # Any other initializer is skipped, the value is unknown
+            | OneOrMore(
+                nestedExpr("(", ")")
+                | nestedExpr("{", "}")
+                | nestedExpr("[", "]")
+                | quotedString
+                | Regex(r"[^][(){},;\"'\s]+")
+            ).suppress()
+        )
         self.variable_decl = (
             Group(
                 storage_class_spec
                 + self.type_spec("type")
-                + Optional(self.declarator_list("decl_list"))
                 + Optional(
-                    Literal("=").suppress()
-                    + (
-                        expression("value")
-                        | (
-                            lbrace
-                            + Group(delimitedList(expression))("array_values")
-                            + rbrace
+                    Group(
+                        delimitedList(
+                            Group(self.declarator("decl") + Optional(initializer))
                         )
-                    )
+                    )("decl_list")
                 )
             )
             + semi
@@ -1681,17 +1693,16 @@ class CParser(object):
                 struct = []
                 for m in t.members:
                     typ = m[0].type
-                    val = self.eval_expr(m[0].value)
                     logger.debug(
                         "    member: {}, {}, {}".format(m, m[0].keys(), m[0].decl_list)
                     )
 
-                    decls = [(d, None) for d in m[0].decl_list]
+                    decls = [(d[0], self.eval_expr(d), None) for d in m[0].decl_list]
                     # Every declarator has its own bit width
                     for d in m[0].bit_list:
-                        decls.append((d.decl[0] if d.decl else None, d.bit))
+                        decls.append((d.decl[0] if d.decl else None, None, d.bit))
 
-                    for d, bit in decls or [(None, None)]:
+                    for d, val, bit in decls or [(None, None, None)]:
                         if d is None:  # anonymous member
                             (name, decl) = (None, Type(typ["name"]))
                         else:
@@ -1714,9 +1725,9 @@ class CParser(object):
         """ """
         logger.debug("VARIABLE: {}".format(t))
         try:
-            val = self.eval_expr(t[0])
             for d in t[0].decl_list:
-                (name, typ) = self.process_type(t[0].type, d)
+                val = self.eval_expr(d)
+                (name, typ) = self.process_type(t[0].type, d[0])
                 # This is a function prototype
                 if type(typ[-1]) is tuple:
                     logger.debug(
-- 
2.43.0


From 52ede556ed5b345c35735dfb6a1f2860b6d9292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:59 +0000
Subject: [PATCH 84/93] fix: do not take the beginning of names for sizeof or
 new

---
 pyclibrary/c_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 2ace8d6..f062988 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -2107,8 +2107,12 @@ quoted_regex = r"""("(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')"""
 # Miscelaneous
 bi_operator = oneOf("+ - / * | & || && ! ~ ^ % == != > < >= <= -> . :: << >> = ? :")
 uni_right_operator = oneOf("++ --")
-uni_left_operator = oneOf("++ -- - + * ~ ! & sizeof new")
 wordchars = alphanums + "_$"
+uni_left_operator = (
+    oneOf("++ -- - + * ~ ! &")
+    | Keyword("sizeof", wordchars)
+    | Keyword("new", wordchars) + FollowedBy(Word(wordchars))
+)
 name = WordStart(wordchars) + Word(alphas + "_", alphanums + "_$") + WordEnd(wordchars)
 size_modifiers = ["short", "long"]
 sign_modifiers = ["signed", "unsigned"]
-- 
2.43.0


From 76cb9ec800a2384b6b469d839e1b8c437d2c974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:59 +0000
Subject: [PATCH 85/93] fix: accept sizeof and calls applied to types in
 expressions

---
 pyclibrary/c_parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index f062988..3242021 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -2218,12 +2218,16 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
         kwl(sign_modifiers + size_modifiers + base_types)
     ).setParseAction(lambda t: " ".join(t))
 
+    # The operand can be a type
+    sizeof = Keyword("sizeof", wordchars) + originalTextFor(nestedExpr())
     # Is there a better way to process expressions with cast operators??
     uncast_atom = (
-        ZeroOrMore(uni_left_operator)
+        ZeroOrMore(~sizeof + uni_left_operator)
         + (
             (
-                ident + "(" + Optional(delimitedList(expression)) + ")"
+                sizeof
+                | ident + "(" + Optional(delimitedList(expression)) + ")"
+                | ident + originalTextFor(nestedExpr())
                 | ident + OneOrMore("[" + expression + "]")
                 | ident
                 | number
@@ -2242,7 +2246,7 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
         + ZeroOrMore("*" | kwl(qualifiers))
         + ")"
     )
-    atom << (ZeroOrMore(uni_left_operator) + cast + atom | uncast_atom)
+    atom << (ZeroOrMore(~sizeof + uni_left_operator) + cast + atom | uncast_atom)
 
     expression << Group(atom + ZeroOrMore(bi_operator + atom))
     expression.setParseAction(recombine)
-- 
2.43.0


From 7956bc00aa96a33137e589fd303cbffb93ba5d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 86/93] fix: flexible array members use no space

---
 pyclibrary/backends/ctypes.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 9ee1f0e..cb8d36b 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -174,12 +174,13 @@ class CTypesCLibrary(CLibrary):
 
         return obj.value
 
-    def _get_type(self, typ, pointers=True):  # noqa
+    def _get_type(self, typ, pointers=True, member=False):  # noqa
         """Return a ctype object representing the named type.
 
         If pointers is True, the class returned includes all pointer/array
         specs provided. Otherwise, the class returned is just the base type
-        with no pointers.
+        with no pointers. If member is True, the type is the one of a member
+        of a struct or of a union.
 
         """
         try:
@@ -253,7 +254,10 @@ class CTypesCLibrary(CLibrary):
                     for i in reversed(m):
                         # -1 indicates an 'incomplete type' like "int
                         # variable[]"
-                        if i == -1:
+                        if i == -1 and member and not mods:
+                            # a flexible array member uses no space
+                            cls = cls * 0
+                        elif i == -1:
                             # which we should interpret like "int *variable"
                             cls = POINTER(cls)
                         else:
@@ -374,7 +378,7 @@ class CTypesCLibrary(CLibrary):
             # The bit width is the optional fourth item of a member, the third
             # one being its default value.
             try:
-                fields = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]
+                fields = [(m[0], self._get_type(m[1], member=True), *m[3:]) for m in defs]
                 # ctypes does not support bit fields of c_char
                 s._fields_ = [
                     (f[0], c_byte, *f[2:]) if f[2:] and f[1] is c_char else f
-- 
2.43.0


From 051c5818046061bb6371233febd767f03f024dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 87/93] fix: accept the qualifiers of the size of array
 parameters

---
 pyclibrary/c_parser.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 3242021..928523e 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1346,9 +1346,7 @@ class CParser(object):
                 )
                 + rparen
             )("args")
-            + Group(ZeroOrMore(lbrack + Optional(expression, default="-1") + rbrack))(
-                "arrays"
-            )
+            + Group(ZeroOrMore(array_size))("arrays")
         )
 
         # Declarators look like:
@@ -1382,9 +1380,7 @@ class CParser(object):
                 )
                 + rparen
             )("args")
-            + Group(ZeroOrMore(lbrack + Optional(expression, default="-1") + rbrack))(
-                "arrays"
-            )
+            + Group(ZeroOrMore(array_size))("arrays")
         )
         self.declarator_list = Group(delimitedList(self.declarator))
 
@@ -2119,6 +2115,7 @@ sign_modifiers = ["signed", "unsigned"]
 
 # Syntax elements defined by _init_parser.
 expression = Forward()
+array_size = None
 array_op = lbrack + expression + rbrack
 base_types = None
 ident = None
@@ -2153,7 +2150,7 @@ if sys.platform == "win32":
 
 # Define some common language elements when initialising.
 def _init_cparser(extra_types=None, extra_modifiers=None):
-    global expression
+    global expression, array_size
     global call_conv, ident
     global base_types
     global type_qualifier, storage_class_spec, extra_modifier
@@ -2250,3 +2247,11 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
 
     expression << Group(atom + ZeroOrMore(bi_operator + atom))
     expression.setParseAction(recombine)
+
+    # The size of a parameter can be qualified
+    array_size = (
+        lbrack
+        + ZeroOrMore(kwl([*qualifiers, "static"])).suppress()
+        + Optional(expression, default="-1")
+        + rbrack
+    )
-- 
2.43.0


From 8f3154b61a4bd7aed90ed46d638ea5938c6b4940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:27 +0000
Subject: [PATCH 88/93] fix: apply the qualifiers of an array type to its
 elements when resolving it

---
 pyclibrary/c_parser.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 928523e..d8c53ad 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -210,11 +210,6 @@ class Type(tuple):
 
         pt = type_map[parent]
         declarators = pt.declarators + self.declarators
-        quals = (
-            *pt.type_quals[:-1],
-            pt.type_quals[-1] + self.type_quals[0],
-            *self.type_quals[1:],
-        )
 
         # The dimensions of an array of arrays are the outer ones first
         mid = start = stop = len(pt.declarators)
@@ -222,6 +217,9 @@ class Type(tuple):
             start -= 1
         while stop < len(declarators) and isinstance(declarators[stop], list):
             stop += 1
+        # The qualifiers of an array are the ones of its elements
+        quals = [*pt.type_quals, *self.type_quals[1:]]
+        quals[start] = quals[start] + self.type_quals[0]
         order = [*range(start), *range(mid, stop), *range(start, mid)]
         order += range(stop, len(declarators))
         evaled_type = Type(
-- 
2.43.0


From 38e46168301344b927fba55ac45b8461826e71fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:27 +0000
Subject: [PATCH 89/93] fix: read the escape sequences of strings and
 characters like C does

---
 pyclibrary/c_parser.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index d8c53ad..e1c893d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1780,7 +1780,8 @@ class CParser(object):
         # A known value between parenthesis is not a cast
         type_spec.addCondition(lambda t: t[0]["name"] not in self.defs["values"])
         cast = (lparen + type_spec + self.abstract_declarator + rparen).suppress()
-        expr = (quotedString | number | cast).transformString(expr)
+        string = quotedString.copy().setParseAction(lambda t: python_string(t[0]))
+        expr = (string | number | cast).transformString(expr)
         if expr == "":
             return None
         tree = ast.parse(expr.strip(), mode="eval")
@@ -1998,12 +1999,33 @@ def eval_condition(expr):
     return val
 
 
+#: Escape sequences which do not exist in Python.
+c_escapes = {r"\?": "?", r"\e": r"\x1b"}
+
+
+def python_string(text):
+    """Write a string literal with the escape sequences of Python."""
+
+    def value(m):
+        if m.group() in c_escapes:
+            return c_escapes[m.group()]
+        if m.group(1):
+            # Python only reads two digits
+            code = int(m.group(1), 16)
+            if code > 255:
+                raise DefinitionError("Escape sequence out of range: {}".format(text))
+            return "\\x{:02x}".format(code)
+        return m.group()
+
+    return re.sub(r"\\(?:x([0-9a-fA-F]+)|.)", value, text)
+
+
 def char_values(expr):
     """Replace the character constants of an expression by their value."""
 
     def value(m):
         if m.group().startswith("'"):
-            return str(ord(ast.literal_eval(m.group())))
+            return str(ord(ast.literal_eval(python_string(m.group()))))
         return m.group()
 
     return re.sub(quoted_regex, value, expr)
-- 
2.43.0


From 53ee66d7caa507cfe03193744cbea8e75dca61d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:27 +0000
Subject: [PATCH 90/93] fix: evaluate the character constants as signed
 characters

---
 pyclibrary/c_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index e1c893d..a9142f4 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -2025,7 +2025,11 @@ def char_values(expr):
 
     def value(m):
         if m.group().startswith("'"):
-            return str(ord(ast.literal_eval(python_string(m.group()))))
+            if not m.group().isascii():
+                raise DefinitionError("Cannot evaluate {}".format(expr))
+            code = ord(ast.literal_eval(python_string(m.group())))
+            # The characters are signed
+            return "({})".format(code if code < 128 else code - 256)
         return m.group()
 
     return re.sub(quoted_regex, value, expr)
-- 
2.43.0


From 6ad2289700ca408ae77a631206677e5f8dddad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:27 +0000
Subject: [PATCH 91/93] fix: keep the enumerations having values which cannot
 be read

---
 pyclibrary/c_parser.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index a9142f4..df3b77d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1393,6 +1393,13 @@ class CParser(object):
 
         # Variable declaration, every declarator can have its own initializer
         init_end = FollowedBy(oneOf(", ;"))
+        skipped = OneOrMore(
+            nestedExpr("(", ")")
+            | nestedExpr("{", "}")
+            | nestedExpr("[", "]")
+            | quotedString
+            | Regex(r"[^][(){},;\"'\s]+")
+        )
         initializer = Literal("=").suppress() + (
             expression("value") + init_end
             | lbrace
@@ -1401,13 +1408,7 @@ class CParser(object):
             + rbrace
             + init_end
             # Any other initializer is skipped, the value is unknown
-            | OneOrMore(
-                nestedExpr("(", ")")
-                | nestedExpr("{", "}")
-                | nestedExpr("[", "]")
-                | quotedString
-                | Regex(r"[^][(){},;\"'\s]+")
-            ).suppress()
+            | skipped.suppress()
         )
         self.variable_decl = (
             Group(
@@ -1474,8 +1475,17 @@ class CParser(object):
         self.struct_decl = self.struct_type + semi
 
         # Enum definition
+        enum_end = FollowedBy(oneOf(", }"))
         enum_var_decl = Group(
-            ident("name") + Optional(Literal("=").suppress() + expression("value"))
+            ident("name")
+            + Optional(
+                Literal("=").suppress()
+                + (
+                    expression("value") + enum_end
+                    # Any other value is unknown
+                    | originalTextFor(skipped)("value")
+                )
+            )
         )
 
         self.enum_type << (
-- 
2.43.0


From 149e03cd3485b06fcc655b2ef893913241ee06e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:55 +0000
Subject: [PATCH 92/93] fix: do not record the definitions of a file again when
 it is processed again

---
 pyclibrary/c_parser.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index df3b77d..0534577 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -505,6 +505,9 @@ class CParser(object):
         self.file_defs = {}
         # Description of the struct packing rules as defined by #pragma pack
         self.pack_list = {}
+        # Files whose definitions are recorded
+        self.parsed_files = set()
+        self.recording = True
 
         self.init_opts = kwargs.copy()
         self.init_opts["files"] = []
@@ -627,7 +630,13 @@ class CParser(object):
 
             logger.debug("Parsing definitions in file '{}'...".format(f))
 
-            results.append(self.parse_defs(f, return_unparsed))
+            # The names defined later must not change what is already recorded
+            self.recording = f not in self.parsed_files
+            try:
+                results.append(self.parse_defs(f, return_unparsed))
+            finally:
+                self.recording = True
+            self.parsed_files.add(f)
 
         if cache is not None:
             logger.debug("Writing cache file '{}'".format(cache))
@@ -793,6 +802,7 @@ class CParser(object):
                     self.files[path] = re.sub(s, replace[s], self.files[path])
 
         self.pack_list.pop(path, None)
+        self.parsed_files.discard(path)
         self.file_order.append(path)
         bn = os.path.basename(path)
         # The replacements are made in order (and the caller may change them)
@@ -1830,6 +1840,8 @@ class CParser(object):
         the current file and the global definition set.
 
         """
+        if not self.recording:
+            return
         self.defs[typ][name] = val
         if self.current_file is None:
             base_name = None
-- 
2.43.0


From ba9f6d46f9b7819439a41771dddfb500985ac57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:33 +0000
Subject: [PATCH 93/93] fix: do not give a union for the typedef of a struct
 with the same name

---
 pyclibrary/c_library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 949ca97..e623ba6 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -385,7 +385,8 @@ class CLibrary(object, metaclass=CLibraryMeta):
                 raise KeyError(mess.format(str_name))
 
             typ = self._headers_.eval_type([str_name])[0]
-            if typ[:7] != "struct " and typ[:6] != "union ":
+            # There may be a struct and a union with the same name
+            if not typ.startswith(str_type[:-1] + " "):
                 mess = 'No struct/union named "{}"'
                 raise KeyError(mess.format(str_name))
 
-- 
2.43.0

