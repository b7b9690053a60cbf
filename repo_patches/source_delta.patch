From 18c8397bad52023d5a5b154307b4e8568d52ce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 001/183] fix: parse OR below AND and % together with * and /

sqlglot 11 parses AND/OR (and +, -, %) at one precedence level, so
'a OR b AND c' was evaluated as '(a OR b) AND c' and '1 + 5 % 3' as '(1 + 5) % 3'.
---
 syncanysql/compiler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 60d68e4..8e29ee0 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -43,6 +43,15 @@ class CompilerDialect(sqlglot_dialects.Dialect):
         HEX_STRINGS = [("x'", "'"), ("X'", "'"), ("0x", "")]
 
     class Parser(sqlglot_parser.Parser):
+        CONJUNCTION = {sqlglot_parser.TokenType.AND: sqlglot_expressions.And}
+        DISJUNCTION = {sqlglot_parser.TokenType.OR: sqlglot_expressions.Or}
+        TERM = {token_type: expression for token_type, expression in sqlglot_parser.Parser.TERM.items()
+                if token_type != sqlglot_parser.TokenType.MOD}
+        FACTOR = {**sqlglot_parser.Parser.FACTOR, sqlglot_parser.TokenType.MOD: sqlglot_expressions.Mod}
+
+        def _parse_conjunction(self):
+            return self._parse_tokens(lambda: self._parse_tokens(self._parse_equality, self.CONJUNCTION), self.DISJUNCTION)
+
         def _parse_parameter(self):
             wrapped = self._match(sqlglot_parser.TokenType.L_BRACE)
             this = self._parse_var() or self._parse_primary()
-- 
2.43.0


From 87f66d3982c907bef60f93ad902fba5dd47fc7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 002/183] fix: mirror the comparison when a WHERE condition has
 the column on the right

'5 < id' was pushed to the source as 'id < 5'.
---
 syncanysql/compiler.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 8e29ee0..7db5ffb 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -897,6 +897,9 @@ class Compiler(object):
                 return left_column, right_calculater
             return None, None
 
+        def is_left_column(condition_expression):
+            return self.is_column(condition_expression.args["this"], config, arguments)
+
         def build_query_condition(condition_column, condition_exp, condition_calculater):
             if condition_column["typing_name"] not in config["querys"]:
                 config["querys"][condition_column["typing_name"]] = {}
@@ -932,28 +935,28 @@ class Compiler(object):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, ">", right_calculater)
+            build_query_condition(condition_column, ">" if is_left_column(expression) else "<", right_calculater)
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.GTE):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, ">=", right_calculater)
+            build_query_condition(condition_column, ">=" if is_left_column(expression) else "<=", right_calculater)
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.LT):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "<", right_calculater)
+            build_query_condition(condition_column, "<" if is_left_column(expression) else ">", right_calculater)
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.LTE):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "<=", right_calculater)
+            build_query_condition(condition_column, "<=" if is_left_column(expression) else ">=", right_calculater)
             setattr(expression, "syncany_valuer", ["#const", 1])
             return None
         elif isinstance(expression, sqlglot_expressions.In):
-- 
2.43.0


From b121a5892ac8a9097a4eecf08dc08df446e03ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 003/183] fix: evaluate AND, OR and BETWEEN with three-valued
 logic

---
 syncanysql/calculaters/mysql_funcs/logical_funcs.py | 12 ++++++++++++
 syncanysql/compiler.py                              | 10 ++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/logical_funcs.py b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
index 1d52358..0e05d13 100644
--- a/syncanysql/calculaters/mysql_funcs/logical_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
@@ -204,6 +204,18 @@ def mysql_not(a):
         return None
     return 1 if not a else 0
 
+@typing_filter(int)
+def mysql_and(a, b):
+    if (a is not None and not a) or (b is not None and not b):
+        return 0
+    return None if a is None or b is None else 1
+
+@typing_filter(int)
+def mysql_or(a, b):
+    if a or b:
+        return 1
+    return None if a is None or b is None else 0
+
 @typing_filter(int)
 def mysql_is(a, b):
     if a.__class__ == b.__class__:
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 7db5ffb..b9f1008 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1736,7 +1736,7 @@ class Compiler(object):
                 "key_value": self.compile_calculate(expression.args["this"], config, arguments, primary_table, []),
                 "low_value": self.compile_calculate(expression.args["low"], config, arguments, primary_table, []),
                 "high_value": self.compile_calculate(expression.args["high"], config, arguments, primary_table, [])
-            }, [":#if", ["@mysql::gte", "$.key_value", "$.low_value"], ["@mysql::lte", "$.key_value", "$.high_value"], ["#const", 0]]]
+            }, [":@mysql::and", ["@mysql::gte", "$.key_value", "$.low_value"], ["@mysql::lte", "$.key_value", "$.high_value"]]]
         elif self.is_column(expression, config, arguments):
             join_column = self.parse_column(expression, config, arguments)
             return self.compile_join_column_field(expression, config, arguments, primary_table, join_index, 
@@ -1778,16 +1778,14 @@ class Compiler(object):
         elif isinstance(expression, (sqlglot_expressions.Binary, sqlglot_expressions.Condition)):
             if isinstance(expression, sqlglot_expressions.And):
                 return [
-                    "#if",
+                    "@mysql::and",
                     self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
-                    self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index),
-                    ["#const", 0]
+                    self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
                 ]
             if isinstance(expression, sqlglot_expressions.Or):
                 return [
-                    "#if",
+                    "@mysql::or",
                     self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
-                    ["#const", 1],
                     self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
                 ]
 
-- 
2.43.0


From 4879d5c692f0d80181a7a54ad09e989f6f161671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 004/183] fix: keep Latin-1 characters of string literals
 intact

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index b9f1008..f420313 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2723,7 +2723,7 @@ class Compiler(object):
                 try:
                     escape_values, escape_chars, encoding = [], [], os.environ.get("SYNCANYENCODING", "utf-8")
                     for c in value:
-                        if ord(c) <= 256:
+                        if ord(c) < 128:
                             escape_chars.append(c)
                             continue
                         if escape_chars:
-- 
2.43.0


From a6ae61e3b25aa57e22f59d585feb350ca8d7498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 005/183] fix: honour backslash escapes and the other quote
 character inside string literals

---
 syncanysql/compiler.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index f420313..b24895e 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -38,10 +38,30 @@ class CompilerDialect(sqlglot_dialects.Dialect):
         QUOTES = ["'", '"']
         COMMENTS = ["--", "#", ("/*", "*/")]
         IDENTIFIERS = ["`"]
-        ESCAPES = ["'", "\\"]
         BIT_STRINGS = [("b'", "'"), ("B'", "'"), ("0b", "")]
         HEX_STRINGS = [("x'", "'"), ("X'", "'"), ("0x", "")]
 
+        def _extract_string(self, delimiter):
+            if delimiter not in self.QUOTES:
+                return tokens.Tokenizer._extract_string(self, delimiter)
+            text = ""
+            while True:
+                if self._char == "\\" and self._peek in (delimiter, "\\"):
+                    text += delimiter if self._peek == delimiter else "\\\\"
+                elif self._char == delimiter and self._peek == delimiter:
+                    text += delimiter
+                elif self._char == delimiter:
+                    return text
+                else:
+                    if self._end:
+                        raise RuntimeError(f"Missing {delimiter} from {self._line}:{self._start}")
+                    text += self._char
+                    self._advance()
+                    continue
+                if self._current + 1 >= self.size:
+                    raise RuntimeError(f"Missing {delimiter} from {self._line}:{self._start}")
+                self._advance(2)
+
     class Parser(sqlglot_parser.Parser):
         CONJUNCTION = {sqlglot_parser.TokenType.AND: sqlglot_expressions.And}
         DISJUNCTION = {sqlglot_parser.TokenType.OR: sqlglot_expressions.Or}
@@ -106,7 +126,6 @@ class CompilerDialect(sqlglot_dialects.Dialect):
 
 
 class Compiler(object):
-    ESCAPE_CHARS = ['\\\\a', '\\\\b', '\\\\f', '\\\\n', '\\\\r', '\\\\t', '\\\\v', '\\\\0']
     TYPE_FILTERS = {"int": "int", "float": "float", "str": "str", "string": "str", "bytes": "bytes", 'bool': 'bool', 'array': 'array', 'set': 'set',
                    'map': 'map', "objectid": "objectid", "uuid": "uuid", "datetime": "datetime", "date": "date", "time": "time",
                    "char": "str", "varchar": "str", "nchar": "str", "text": "str", "mediumtext": "str", "tinytext": "str",
@@ -120,12 +139,8 @@ class Compiler(object):
         self.mapping = {}
 
     def compile(self, sql, arguments):
-        escape_sql = sql
-        if sql[:4].lower() not in ("set ", "use ") and "\\\\" in sql:
-            for escape_char in self.ESCAPE_CHARS:
-                escape_sql = escape_sql.replace(escape_char, "\\\\\\" + escape_char)
         try:
-            expression = maybe_parse(self.parse_mapping(escape_sql), dialect=CompilerDialect)
+            expression = maybe_parse(self.parse_mapping(sql), dialect=CompilerDialect)
             return self.compile_expression(expression, arguments)
         except ParseError as e:
             if not e.errors:
@@ -2738,7 +2753,7 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Boolean):
             value = expression.args["this"]
             typing_filter = "bool"
-        elif isinstance(expression, (sqlglot_expressions.HexString, sqlglot_expressions.HexString)):
+        elif isinstance(expression, (sqlglot_expressions.HexString, sqlglot_expressions.BitString)):
             value, typing_filter = int(expression.args["this"]), "int"
         elif isinstance(expression, sqlglot_expressions.Parameter):
             name = expression.args["this"].args["this"]
-- 
2.43.0


From f5e2d05e0176f6da11d2f070ea07428e08b30033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 006/183] fix: evaluate CASE with constant labels by comparison
 and default to NULL

---
 syncanysql/compiler.py | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index b24895e..3d66cf1 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1692,23 +1692,10 @@ class Compiler(object):
                 value_column = self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
             return ["#if", ["@is_null", condition_column], value_column, condition_column]
         elif isinstance(expression, sqlglot_expressions.Case):
-            if expression.args.get("this") and all([self.is_const(case_expression.args["this"], config, arguments)
-                                                    for case_expression in expression.args.get("ifs", [])]):
-                cases = {}
-                cases["#case"] = self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
-                if expression.args.get("ifs"):
-                    for case_expression in expression.args["ifs"]:
-                        case_value = self.parse_const(case_expression.args["this"], config, arguments)["value"]
-                        cases[(":" + str(case_value)) if isinstance(case_value, NumberTypes) and not isinstance(case_value, bool) else case_value] = \
-                            self.compile_calculate(case_expression.args["true"], config, arguments, primary_table, column_join_tables, join_index)
-                cases["#end"] = self.compile_calculate(expression.args["default"], config, arguments, primary_table, column_join_tables, join_index) \
-                    if expression.args.get("default") else None
-                return cases
-
             value_column = self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index) \
                 if expression.args.get("this") else None
             defaul_column = self.compile_calculate(expression.args["default"], config, arguments, primary_table, column_join_tables, join_index) \
-                if expression.args.get("default") else ["#const", 0]
+                if expression.args.get("default") else ["#const", None]
             if not expression.args.get("ifs"):
                 return defaul_column
             def build_if(if_expression, case_expressions):
-- 
2.43.0


From 2cfed747d8cf58266a8c583397f33b57123adc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 007/183] fix: INSERT VALUES keeps each literal's own type and
 rejects non-constant values instead of storing NULL

---
 syncanysql/compiler.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 3d66cf1..b14e7b8 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -347,11 +347,15 @@ class Compiler(object):
                 data = {}
                 for i in range(len(data_expression.args["expressions"])):
                     value_expression = data_expression.args["expressions"][i]
-                    value = self.parse_const(value_expression, config, arguments)["value"]
-                    if columns[i][1] is None:
-                        columns[i][1] = str(type(value).__name__) if isinstance(value, (int, float, bool)) else None
-                    data[columns[i][0]] = value
+                    if not self.is_const(value_expression, config, arguments):
+                        raise SyncanySqlCompileException('error insert into, values must be constants, related sql "%s"'
+                                                         % self.to_sql(expression))
+                    data[columns[i][0]] = self.parse_const(value_expression, config, arguments)["value"]
                 datas.append(data)
+            for column in columns:
+                value_types = {type(data.get(column[0])) for data in datas}
+                if column[1] is None and len(value_types) == 1 and value_types & {int, float, bool}:
+                    column[1] = value_types.pop().__name__
             config["schema"] = {column_name: "$." + column_name + (("|" + column_type) if column_type else "")
                                 for column_name, column_type in columns}
             config["input"] = "&.--.--::" + columns[0][0]
-- 
2.43.0


From 400bdd7323b56d2b7b89953b3ae96367284ba44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 008/183] fix: evaluate IN and NOT IN lists with a single
 element or a NULL constant

---
 syncanysql/compiler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index b14e7b8..5519047 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1797,11 +1797,17 @@ class Compiler(object):
 
             func_name = expression.key.lower()
             if expression.args.get("expressions"):
+                if all([self.is_const(item_expression, config, arguments) for item_expression in expression.args["expressions"]]):
+                    value_items = ["#const", [self.parse_const(item_expression, config, arguments)["value"]
+                                              for item_expression in expression.args["expressions"]]]
+                else:
+                    value_items = ["@convert_array", ["#make", [
+                        self.compile_calculate(item_expression, config, arguments, primary_table, column_join_tables, join_index)
+                        for item_expression in expression.args["expressions"]]]]
                 return [
                     ("@mysql::" + func_name) if is_mysql_func(func_name) else ("@" + func_name),
                     self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
-                    ["#make", [self.compile_calculate(item_expression, config, arguments, primary_table, column_join_tables, join_index)
-                               for item_expression in expression.args["expressions"]]]
+                    value_items
                 ]
             if expression.args.get("query"):
                 query_value_calculate = self.compile_calculate(expression.args["query"], config, arguments, primary_table, column_join_tables, join_index)
-- 
2.43.0


From 6f96a255cdb7932ce56e4dc8abee161114cc8a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 009/183] fix: LIKE matches the whole value with _ and escapes,
 also in HAVING; evaluate BETWEEN in HAVING

---
 syncanysql/calculaters/mysql_funcs/regexp_funcs.py | 4 ++--
 syncanysql/compiler.py                             | 9 ++-------
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index 709833a..7c85bfd 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -111,9 +111,9 @@ def mysql_regexp_substr(s, r, pos=1, occurrence=1, match_type=None):
 def mysql_like(s, r, match_type=None):
     if r is None or s is None:
         return None
-    r = ".*" if r == '%%' else "".join([rg.replace("%", ".*") for rg in re.escape(r).split("%%")])
+    r = "".join([".*" if rg == "%" else ("." if rg == "_" else re.escape(rg[-1])) for rg in re.findall(r"\\.|.", r, re.DOTALL)])
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        return 1 if re.fullmatch(r, s, parse_flags(match_type) | re.DOTALL) else 0
     except:
         return 0
 
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5519047..982568e 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1934,13 +1934,8 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.In):
             left_calculater, right_calculater = parse(expression)
             return ["@mysql::in", left_calculater, ["@convert_array", right_calculater]]
-        elif isinstance(expression, sqlglot_expressions.Like):
-            left_calculater, right_calculater = parse(expression)
-            if not isinstance(right_calculater, list) or len(right_calculater) != 2 or right_calculater[0] != "#const":
-                raise SyncanySqlCompileException('error having condition, like condition value must be const, related sql "%s"'
-                                                 % self.to_sql(expression))
-            return ["#if", ["@re::match", ".*" if right_calculater[1] == "%%" else right_calculater[1].replace("%", ".*")
-                .replace(".*.*", "%"), left_calculater], ["#const", 1], ["#const", 0]]
+        elif isinstance(expression, sqlglot_expressions.Between):
+            return parse(sqlglot_expressions.Paren(this=expression))[0]
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_having_condition(expression.args.get("this"), config, arguments, primary_table)
         else:
-- 
2.43.0


From 3d5f807119298c5eb858e3853c4a04cdcc117062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 010/183] fix: resolve BETWEEN operands of joined tables

---
 syncanysql/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 982568e..ffc95f4 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1739,9 +1739,9 @@ class Compiler(object):
             return self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
         elif isinstance(expression, sqlglot_expressions.Between):
             return ["#make", {
-                "key_value": self.compile_calculate(expression.args["this"], config, arguments, primary_table, []),
-                "low_value": self.compile_calculate(expression.args["low"], config, arguments, primary_table, []),
-                "high_value": self.compile_calculate(expression.args["high"], config, arguments, primary_table, [])
+                "key_value": self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
+                "low_value": self.compile_calculate(expression.args["low"], config, arguments, primary_table, column_join_tables, join_index),
+                "high_value": self.compile_calculate(expression.args["high"], config, arguments, primary_table, column_join_tables, join_index)
             }, [":@mysql::and", ["@mysql::gte", "$.key_value", "$.low_value"], ["@mysql::lte", "$.key_value", "$.high_value"]]]
         elif self.is_column(expression, config, arguments):
             join_column = self.parse_column(expression, config, arguments)
-- 
2.43.0


From 8eb0cc4be8b9a46a14fd531e17a7218e8a289355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 011/183] fix: keep repeated WHERE conditions on one column
 instead of merging them into the loader query

---
 syncanysql/compiler.py | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index ffc95f4..9d799b9 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -923,6 +923,11 @@ class Compiler(object):
             if condition_column["typing_name"] not in config["querys"]:
                 config["querys"][condition_column["typing_name"]] = {}
             condition_querys = config["querys"][condition_column["typing_name"]]
+            unique_exps = {"==", "in"} if condition_exp in ("==", "in") else ({condition_exp} if condition_exp != "!=" else set([]))
+            if unique_exps & {exp for condition_query in (condition_querys if isinstance(condition_querys, list) else [condition_querys])
+                              for exp in condition_query}:
+                return expression
+            setattr(expression, "syncany_valuer", ["#const", 1])
             if isinstance(condition_querys, dict):
                 if condition_exp not in condition_querys:
                     condition_querys[condition_exp] = condition_calculater
@@ -940,51 +945,37 @@ class Compiler(object):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "==", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "==", right_calculater)
         elif isinstance(expression, sqlglot_expressions.NEQ):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "!=", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "!=", right_calculater)
         elif isinstance(expression, sqlglot_expressions.GT):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, ">" if is_left_column(expression) else "<", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, ">" if is_left_column(expression) else "<", right_calculater)
         elif isinstance(expression, sqlglot_expressions.GTE):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, ">=" if is_left_column(expression) else "<=", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, ">=" if is_left_column(expression) else "<=", right_calculater)
         elif isinstance(expression, sqlglot_expressions.LT):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "<" if is_left_column(expression) else ">", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "<" if is_left_column(expression) else ">", right_calculater)
         elif isinstance(expression, sqlglot_expressions.LTE):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "<=" if is_left_column(expression) else ">=", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "<=" if is_left_column(expression) else ">=", right_calculater)
         elif isinstance(expression, sqlglot_expressions.In):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "in", ["@convert_array", right_calculater])
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "in", ["@convert_array", right_calculater])
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_where_condition(expression.args.get("this"), config, arguments, primary_table, join_tables)
         else:
-- 
2.43.0


From 485ce140710052cb9a836ca85ab4f14a92d21a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 012/183] fix: apply ON conditions on another table's column to
 that table instead of the joined one

---
 syncanysql/compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 9d799b9..979a451 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2165,7 +2165,10 @@ class Compiler(object):
             calculate_fields = []
             if condition_column and not self.is_subquery(value_expression, config, arguments) and not isinstance(value_expression, list):
                 self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
-            if not condition_column or calculate_fields:
+            if isinstance(value_expression, list):
+                for value_expression_item in value_expression:
+                    self.parse_calculate(value_expression_item, config, arguments, primary_table, calculate_fields)
+            if not condition_column or calculate_fields or condition_column["table_name"] != join_table["name"]:
                 self.parse_calculate(right_expression if value_expression is left_expression else left_expression,
                                      config, arguments, primary_table, calculate_fields)
                 for calculate_field in calculate_fields:
-- 
2.43.0


From 142833dce4a16c1886f673d4b91c3b05e6b61a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 013/183] fix: keep repeated ON conditions on one column
 instead of merging them into the loader query

---
 syncanysql/compiler.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 979a451..7e2a26e 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2092,8 +2092,12 @@ class Compiler(object):
 
     def parse_on_condition(self, expression, config, arguments, primary_table, join_table):
         if isinstance(expression, sqlglot_expressions.And):
-            self.parse_on_condition(expression.args.get("this"), config, arguments, primary_table, join_table)
-            self.parse_on_condition(expression.args.get("expression"), config, arguments, primary_table, join_table)
+            on_expressions = list(expression.flatten(unnest=False))
+            on_expressions.sort(key=lambda on_expression: not isinstance(on_expression, sqlglot_expressions.EQ)
+                                                          or self.is_const(on_expression.args["this"], config, arguments)
+                                                          or self.is_const(on_expression.args["expression"], config, arguments))
+            for on_expression in on_expressions:
+                self.parse_on_condition(on_expression, config, arguments, primary_table, join_table)
             return
         if isinstance(expression, sqlglot_expressions.Or):
             calculate_fields = []
@@ -2197,10 +2201,25 @@ class Compiler(object):
                 return False, condition_column, ["#make", value_items]
             return False, condition_column, self.compile_calculate(value_expression, config, arguments, primary_table, [])
 
+        def build_having_condition():
+            calculate_fields = []
+            self.parse_calculate(expression, config, arguments, primary_table, calculate_fields)
+            for calculate_field in calculate_fields:
+                if calculate_field["table_name"] != join_table["name"]:
+                    join_table["join_columns"].append(calculate_field)
+                elif calculate_field["column_name"] not in join_table["columns"]:
+                    join_table["columns"][calculate_field["column_name"]] = calculate_field["column_name"]
+            join_table["having_expressions"].append(expression)
+
         def build_query_condition(condition_column, condition_exp, condition_calculater):
             if condition_column["typing_name"] not in join_table["querys"]:
                 join_table["querys"][condition_column["typing_name"]] = {}
             condition_querys = join_table["querys"][condition_column["typing_name"]]
+            unique_exps = {"==", "in"} if condition_exp in ("==", "in") else ({condition_exp} if condition_exp != "!=" else set([]))
+            if (condition_exp in ("==", "in") and condition_column["column_name"] in join_table["primary_keys"]) or unique_exps & {
+                    exp for condition_query in (condition_querys if isinstance(condition_querys, list) else [condition_querys])
+                    for exp in condition_query}:
+                return build_having_condition()
             if isinstance(condition_querys, dict):
                 if condition_exp not in condition_querys:
                     condition_querys[condition_exp] = condition_calculater
@@ -2261,14 +2280,7 @@ class Compiler(object):
             if condition_column:
                 build_query_condition(condition_column, "in", value_column)
         else:
-            calculate_fields = []
-            self.parse_calculate(expression, config, arguments, primary_table, calculate_fields)
-            for calculate_field in calculate_fields:
-                if calculate_field["table_name"] != join_table["name"]:
-                    join_table["join_columns"].append(calculate_field)
-                elif calculate_field["column_name"] not in join_table["columns"]:
-                    join_table["columns"][calculate_field["column_name"]] = calculate_field["column_name"]
-            join_table["having_expressions"].append(expression)
+            build_having_condition()
 
     def parse_calculate(self, expression, config, arguments, primary_table, calculate_fields):
         if hasattr(expression, "syncany_valuer"):
-- 
2.43.0


From 4d6af0e5b532f809681848fd99fa55bc4da8b2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 014/183] fix: apply LIMIT to the result rows of DISTINCT,
 GROUP BY and joins, and honour LIMIT 0

---
 syncanysql/compiler.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 7e2a26e..90b0700 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -562,14 +562,15 @@ class Compiler(object):
             self.compile_order(order_expression.args["expressions"], config, arguments, primary_table)
 
         offset_value = max(int(expression.args.get("offset").args["expression"].args["this"]), 0) if expression.args.get("offset") else 0
-        limit_value = int(expression.args.get("limit").args["expression"].args["this"]) if expression.args.get("limit") else 0
-        if limit_value != 0 or offset_value > 0:
+        limit_value = int(expression.args.get("limit").args["expression"].args["this"]) if expression.args.get("limit") else None
+        if limit_value is not None or offset_value > 0:
             if config["predicate"] or config["intercept"] or (config.get("aggregate") and
                                                               (config["aggregate"]["schema"] or config["aggregate"]["window_schema"])) \
-                    or config["pipelines"] or limit_value <= 0:
-                if limit_value != 0:
+                    or group_expression or expression.args.get("distinct") or join_tables \
+                    or config["pipelines"] or not limit_value or limit_value <= 0:
+                if limit_value is not None:
                     config["pipelines"].append([">>@array::slice", "$.*|array", offset_value,
-                                                (offset_value + limit_value) if limit_value > 0 else limit_value])
+                                                (offset_value + limit_value) if limit_value >= 0 else limit_value])
                 else:
                     config["pipelines"].append([">>@array::slice", "$.*|array", offset_value])
             else:
-- 
2.43.0


From 5e71a08ea6a6371d62d8152b132d708509ce07dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 015/183] fix: apply LIMIT to the rows produced by generate
 functions

---
 syncanysql/compiler.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 90b0700..abb6fa0 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -566,7 +566,7 @@ class Compiler(object):
         if limit_value is not None or offset_value > 0:
             if config["predicate"] or config["intercept"] or (config.get("aggregate") and
                                                               (config["aggregate"]["schema"] or config["aggregate"]["window_schema"])) \
-                    or group_expression or expression.args.get("distinct") or join_tables \
+                    or group_expression or expression.args.get("distinct") or join_tables or self.has_generate_column(config["schema"]) \
                     or config["pipelines"] or not limit_value or limit_value <= 0:
                 if limit_value is not None:
                     config["pipelines"].append([">>@array::slice", "$.*|array", offset_value,
@@ -2941,6 +2941,13 @@ class Compiler(object):
     def is_window_aggregate(self, expression, config, arguments):
         return isinstance(expression, sqlglot_expressions.Window)
 
+    def has_generate_column(self, column):
+        if isinstance(column, dict):
+            return any(self.has_generate_column(child_column) for child_column in column.values())
+        if isinstance(column, list):
+            return bool(column and column[0] in ("#yield", ":#yield")) or any(self.has_generate_column(child_column) for child_column in column)
+        return False
+
     def is_subquery(self, expression, config, arguments):
         return isinstance(expression, (sqlglot_expressions.Subquery, sqlglot_expressions.Select, sqlglot_expressions.Union))
 
-- 
2.43.0


From c82520d2393d389631cd4f46caaafe86e3f3facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 016/183] fix: reject INTERSECT and EXCEPT instead of running
 them as UNION ALL

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index abb6fa0..7a3ea3b 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -367,6 +367,8 @@ class Compiler(object):
     def compile_union(self, expression, config, arguments):
         select_expressions = []
         def parse(union_expression):
+            if isinstance(union_expression, (sqlglot_expressions.Intersect, sqlglot_expressions.Except)):
+                raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
             if isinstance(union_expression.args["this"], sqlglot_expressions.Select):
                 select_expressions.append(union_expression.args["this"])
             else:
-- 
2.43.0


From d42c8922e017a88ffa06ada1a7710e768c5946d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 017/183] fix: match UNION columns by position

---
 syncanysql/compiler.py | 51 ++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 7a3ea3b..84bf14a 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -386,23 +386,22 @@ class Compiler(object):
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
             subquery_config = self.compile_query(select_expression, subquery_arguments)
             output_primary_key_type_info = subquery_config["output"].split("::")[-1].split(" use ")
-            subquery_config["output"] = "&.--." + query_name + "::" + output_primary_key_type_info[0] + " use I"
             subquery_config["name"] = subquery_config["name"] + "#" + subquery_name[2:]
-            arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
-            if isinstance(subquery_config["schema"], dict):
-                if not isinstance(config["schema"], dict):
-                    config["schema"] = {}
-                for name in subquery_config["schema"]:
-                    config["schema"][name] = "$." + name
             if isinstance(subquery_config["schema"], dict):
                 if union_column_names is None:
-                    union_column_names = sorted(list(subquery_config["schema"].keys()))
-                else:
-                    subquery_column_names = sorted(list(subquery_config["schema"].keys()))
-                    for i in range(min(len(union_column_names), len(subquery_column_names))):
-                        if union_column_names[i] == subquery_column_names[i]:
-                            continue
-                        subquery_config["schema"][union_column_names[i]] = subquery_config["schema"][subquery_column_names[i]]
+                    union_column_names = list(subquery_config["schema"].keys())
+                    if isinstance(config["schema"], dict) or select_expression is select_expressions[0]:
+                        config["schema"] = {name: "$." + name for name in union_column_names}
+                elif len(union_column_names) != len(subquery_config["schema"]):
+                    raise SyncanySqlCompileException('error union, the selects have a different number of columns, related sql "%s"'
+                                                     % self.to_sql(expression))
+                elif union_column_names != list(subquery_config["schema"].keys()):
+                    subquery_config, subquery_arguments = self.compile_union_columns(subquery_config, subquery_arguments, union_column_names)
+                    output_primary_key_type_info = subquery_config["output"].split("::")[-1].split(" use ")
+            else:
+                config["schema"] = "$.*"
+            subquery_config["output"] = "&.--." + query_name + "::" + output_primary_key_type_info[0] + " use I"
+            arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
             if output_primary_key is None:
                 output_primary_key = output_primary_key_type_info[0]
             if output_type == "I" and len(output_primary_key_type_info) >= 2:
@@ -413,6 +412,30 @@ class Compiler(object):
         arguments["@primary_order"] = False
         arguments["@limit"] = 0
 
+    def compile_union_columns(self, subquery_config, subquery_arguments, column_names):
+        names = dict(zip(subquery_config["schema"].keys(), column_names))
+        if not subquery_config.get("aggregate") and not subquery_config["intercept"] and not subquery_config["pipelines"]:
+            subquery_config["schema"] = {names[name]: column for name, column in subquery_config["schema"].items()}
+            config, arguments = subquery_config, subquery_arguments
+        else:
+            query_name = "__unionquery_" + str(uuid.uuid1().int)
+            config = copy.deepcopy(subquery_config)
+            config.update({
+                "name": subquery_config["name"] + "@columns",
+                "input": "&.--." + query_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0],
+                "querys": {}, "predicate": None, "schema": {names[name]: "$." + name for name in subquery_config["schema"]},
+                "intercept": None, "orders": [], "dependencys": [subquery_config], "pipelines": []
+            })
+            for key in ("aggregate", "loader", "loader_arguments", "defines"):
+                config.pop(key, None)
+            subquery_config["output"] = config["input"] + " use I"
+            arguments = {key: subquery_arguments[key] for key in CONST_CONFIG_KEYS if key in subquery_arguments}
+            arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
+            arguments.update({"@primary_order": False, "@limit": 0})
+        config["output"] = config["output"].split("::")[0] + "::" + "+".join([
+            names.get(name, name) for name in config["output"].split("::")[-1].split(" use ")[0].split("+")]) + " use I"
+        return config, arguments
+
     def compile_select(self, expression, config, arguments):
         primary_table = {"db": None, "name": None, "table_name": None, "table_alias": None, "seted_primary_keys": False,
                          "loader_primary_keys": [], "outputer_primary_keys": [], "columns": {}, "subquery": None, "select_columns": {}}
-- 
2.43.0


From f30005ce37ef79520a12c1caa1fc8654e8464a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 018/183] fix: UNION removes duplicate rows

---
 syncanysql/compiler.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 84bf14a..4708489 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -365,7 +365,7 @@ class Compiler(object):
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
 
     def compile_union(self, expression, config, arguments):
-        select_expressions = []
+        select_expressions, union_expressions = [], []
         def parse(union_expression):
             if isinstance(union_expression, (sqlglot_expressions.Intersect, sqlglot_expressions.Except)):
                 raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
@@ -373,12 +373,21 @@ class Compiler(object):
                 select_expressions.append(union_expression.args["this"])
             else:
                 parse(union_expression.args["this"])
+            union_expressions.append(union_expression)
             if isinstance(union_expression.args["expression"], sqlglot_expressions.Select):
                 select_expressions.append(union_expression.args["expression"])
             else:
                 parse(union_expression.args["expression"])
         parse(expression)
 
+        distinct_indexs = [i for i in range(len(union_expressions)) if union_expressions[i].args.get("distinct")]
+        is_distinct = bool(distinct_indexs) and distinct_indexs[-1] == len(union_expressions) - 1
+        if distinct_indexs and not is_distinct:
+            distinct_expression = select_expressions[0]
+            for select_expression in select_expressions[1: distinct_indexs[-1] + 2]:
+                distinct_expression = sqlglot_expressions.Union(this=distinct_expression, expression=select_expression, distinct=True)
+            select_expressions = [distinct_expression] + select_expressions[distinct_indexs[-1] + 2:]
+
         query_name = "__unionquery_" + str(uuid.uuid1().int)
         union_column_names, output_primary_key, output_type = None, None, "I"
         for select_expression in select_expressions:
@@ -407,6 +416,8 @@ class Compiler(object):
             if output_type == "I" and len(output_primary_key_type_info) >= 2:
                 output_type = output_primary_key_type_info[1].strip()
             config["dependencys"].append(subquery_config)
+        if is_distinct:
+            self.compile_distinct_column(expression, config, arguments, {"outputer_primary_keys": []}, {})
         config["input"] = "&.--." + query_name + "::" + output_primary_key
         config["output"] = config["output"].split("::")[0] + "::" + output_primary_key + " use " + output_type
         arguments["@primary_order"] = False
-- 
2.43.0


From 2b6fdb363283f685ba78082367c1aeadabe5928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 019/183] fix: INSERT ... SELECT ... UNION keeps the insert
 mode

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 4708489..44a6796 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -419,6 +419,8 @@ class Compiler(object):
         if is_distinct:
             self.compile_distinct_column(expression, config, arguments, {"outputer_primary_keys": []}, {})
         config["input"] = "&.--." + query_name + "::" + output_primary_key
+        if " use " in config["output"]:
+            output_type = config["output"].split(" use ")[-1]
         config["output"] = config["output"].split("::")[0] + "::" + output_primary_key + " use " + output_type
         arguments["@primary_order"] = False
         arguments["@limit"] = 0
-- 
2.43.0


From b9d656aa6d7231e2f6047aa4ca6b4766840f90d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 020/183] fix: % and MOD take the sign of the dividend

---
 syncanysql/calculaters/mysql_funcs/number_funcs.py | 3 ++-
 syncanysql/compiler.py                             | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/number_funcs.py b/syncanysql/calculaters/mysql_funcs/number_funcs.py
index 7a40605..87fe588 100644
--- a/syncanysql/calculaters/mysql_funcs/number_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/number_funcs.py
@@ -35,7 +35,8 @@ def mysql_div(x, y):
 def mysql_mod(x, y):
     if x is None or y is None:
         return None
-    return ensure_number(x) % ensure_number(y)
+    x, y = ensure_number(x), ensure_number(y)
+    return -(-x % abs(y)) if x < 0 else x % abs(y)
 
 @typing_filter(int)
 def mysql_bitwiseand(x, y):
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 44a6796..fe5470b 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1654,7 +1654,7 @@ class Compiler(object):
                     config["defines"][define_name] = self.compile_calculate(expression.args["expressions"][0], config, arguments, primary_table, column_join_tables, join_index)
                 return ["#call", define_name, "$.*"]
 
-            if calculater_name not in ("add", "sub", "mul", "div", "mod") and is_mysql_func(calculater_name):
+            if calculater_name not in ("add", "sub", "mul", "div") and is_mysql_func(calculater_name):
                 column = ["@mysql::" + calculater_name]
             else:
                 if calculater_name[:8] == "convert_":
-- 
2.43.0


From 3fa6fc2216a0971512a7af265560c721d779b6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 021/183] fix: COALESCE, IFNULL and CASE evaluate BETWEEN
 inside their repeated operand

---
 syncanysql/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index fe5470b..cd5294b 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1720,11 +1720,11 @@ class Compiler(object):
                         coalesce_value_column = parse_coalesce(coalesce_expressions[1:])
                     else:
                         coalesce_value_column = self.compile_calculate(coalesce_expressions[1], config, arguments, primary_table, column_join_tables, join_index)
-                    return ["#if", ["@is_null", coalesce_column], coalesce_value_column, coalesce_column]
+                    return ["#if", ["@is_null", coalesce_column], coalesce_value_column, copy.deepcopy(coalesce_column)]
                 value_column = parse_coalesce(expression.args.get("expressions"))
             else:
                 value_column = self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
-            return ["#if", ["@is_null", condition_column], value_column, condition_column]
+            return ["#if", ["@is_null", condition_column], value_column, copy.deepcopy(condition_column)]
         elif isinstance(expression, sqlglot_expressions.Case):
             value_column = self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index) \
                 if expression.args.get("this") else None
@@ -1736,7 +1736,7 @@ class Compiler(object):
                 if_value_column = self.compile_calculate(if_expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
                 return [
                     "#if",
-                    if_value_column if value_column is None else ["@mysql::eq", value_column, if_value_column],
+                    if_value_column if value_column is None else ["@mysql::eq", copy.deepcopy(value_column), if_value_column],
                     self.compile_calculate(if_expression.args["true"], config, arguments, primary_table, column_join_tables,
                                            join_index) if if_expression.args.get("true") else ["#const", 1],
                     build_if(case_expressions[0], case_expressions[1:]) if case_expressions else defaul_column,
-- 
2.43.0


From c5835c1d669894932546f34c797e775ea0cf8df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 022/183] fix: ORDER BY, LIMIT and OFFSET after a UNION apply
 to the whole union

---
 syncanysql/compiler.py | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index cd5294b..0ac45bf 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -365,19 +365,28 @@ class Compiler(object):
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
 
     def compile_union(self, expression, config, arguments):
-        select_expressions, union_expressions = [], []
-        def parse(union_expression):
+        select_expressions, union_expressions, result_args = [], [], {}
+        def parse_select(select_expression, is_last):
+            if isinstance(select_expression, sqlglot_expressions.Subquery):
+                select_expressions.append(select_expression.args["this"])
+            elif isinstance(select_expression, sqlglot_expressions.Select):
+                if is_last:
+                    select_expression = select_expression.copy()
+                    for key in ("order", "limit", "offset"):
+                        if select_expression.args.get(key):
+                            result_args[key] = select_expression.args.pop(key)
+                select_expressions.append(select_expression)
+            else:
+                parse(select_expression, is_last)
+
+        def parse(union_expression, is_last=True):
             if isinstance(union_expression, (sqlglot_expressions.Intersect, sqlglot_expressions.Except)):
                 raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
-            if isinstance(union_expression.args["this"], sqlglot_expressions.Select):
-                select_expressions.append(union_expression.args["this"])
-            else:
-                parse(union_expression.args["this"])
+            result_args.update({key: union_expression.args[key] for key in ("order", "limit", "offset")
+                                if union_expression.args.get(key)})
+            parse_select(union_expression.args["this"], False)
             union_expressions.append(union_expression)
-            if isinstance(union_expression.args["expression"], sqlglot_expressions.Select):
-                select_expressions.append(union_expression.args["expression"])
-            else:
-                parse(union_expression.args["expression"])
+            parse_select(union_expression.args["expression"], is_last)
         parse(expression)
 
         distinct_indexs = [i for i in range(len(union_expressions)) if union_expressions[i].args.get("distinct")]
@@ -418,6 +427,15 @@ class Compiler(object):
             config["dependencys"].append(subquery_config)
         if is_distinct:
             self.compile_distinct_column(expression, config, arguments, {"outputer_primary_keys": []}, {})
+        if result_args.get("order"):
+            self.compile_order(result_args["order"].args["expressions"], config, arguments,
+                               {"table_name": None, "table_alias": None, "columns": {}, "select_columns": {}})
+        if result_args.get("limit") or result_args.get("offset"):
+            offset_value = max(int(result_args["offset"].args["expression"].args["this"]), 0) if result_args.get("offset") else 0
+            slice_pipeline = [">>@array::slice", "$.*|array", offset_value]
+            if result_args.get("limit"):
+                slice_pipeline.append(offset_value + max(int(result_args["limit"].args["expression"].args["this"]), 0))
+            config["pipelines"].append(slice_pipeline)
         config["input"] = "&.--." + query_name + "::" + output_primary_key
         if " use " in config["output"]:
             output_type = config["output"].split(" use ")[-1]
-- 
2.43.0


From 3611210b415c4e8b374e76fb157dd5f0cd22941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:00 +0000
Subject: [PATCH 023/183] fix: drop the remaining statements of a script when
 one of them fails

---
 syncanysql/executor.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 84f3af6..af989fe 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -141,19 +141,23 @@ class Executor(object):
 
     def run(self, name, sqls):
         self._thread_local.current_executor = self
-        for sql in sqls:
-            lineno = sql.lineno
-            sql = self.compile_variable(str(sql))
-            raw_sqls = RAW_SQL_RE.findall(sql)
-            for raw, raw_name, _, raw_sql, _ in raw_sqls:
-                raw_name_info = raw_name.split(".")
-                if len(raw_name_info) != 2:
-                    raise SyncanySqlCompileException("raw sql name error: %s", raw)
-                raw_sql = "set @config.databases." + raw_name_info[0] + ".virtual_views." \
-                          + raw_name_info[1] + "='''\n" + raw_sql.strip() + "\n'''"
-                self.compile(name + "(" + str(lineno) + ")#set_virtual_view", raw_sql)
-                sql = sql.replace(raw, raw_name)
-            self.compile(name + "(" + str(lineno) + ")", sql)
+        try:
+            for sql in sqls:
+                lineno = sql.lineno
+                sql = self.compile_variable(str(sql))
+                raw_sqls = RAW_SQL_RE.findall(sql)
+                for raw, raw_name, _, raw_sql, _ in raw_sqls:
+                    raw_name_info = raw_name.split(".")
+                    if len(raw_name_info) != 2:
+                        raise SyncanySqlCompileException("raw sql name error: %s", raw)
+                    raw_sql = "set @config.databases." + raw_name_info[0] + ".virtual_views." \
+                              + raw_name_info[1] + "='''\n" + raw_sql.strip() + "\n'''"
+                    self.compile(name + "(" + str(lineno) + ")#set_virtual_view", raw_sql)
+                    sql = sql.replace(raw, raw_name)
+                self.compile(name + "(" + str(lineno) + ")", sql)
+        except BaseException:
+            self.runners.clear()
+            raise
 
     def compile(self, name, sql):
         self._thread_local.current_executor = self
@@ -173,6 +177,9 @@ class Executor(object):
             self.tasker = self.runners.popleft()
             try:
                 self.tasker.run(self, self.session_config, self.manager)
+            except BaseException:
+                self.runners.clear()
+                raise
             finally:
                 self.tasker = None
 
-- 
2.43.0


From f143ba810fbd7b9802aad9ad57358d3a3f383e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 024/183] fix: comments and leading characters no longer
 swallow or truncate statements

---
 syncanysql/parser.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index f2c38af..b2c590c 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -85,11 +85,13 @@ class SqlParser(object):
         lineno, start_index = 0, None
         while self.index < self.len:
             if self.sql[self.index] in ('`', '"', "'"):
+                if start_index is None:
+                    lineno, start_index = self.lineno, self.index
                 self.skip_escape(self.sql[self.index])
                 continue
             if self.sql[self.index] == "#":
                 try:
-                    self.read_util('\n')
+                    self.read_util('\n', ())
                 except EOFError:
                     pass
                 self.next()
@@ -97,13 +99,16 @@ class SqlParser(object):
             segment = self.sql[self.index: self.index + 2]
             if segment == "--":
                 try:
-                    self.read_util('\n')
+                    self.read_util('\n', ())
                 except EOFError:
                     pass
                 self.next()
                 continue
             if segment == "/*":
-                self.read_util("*/")
+                self.next()
+                self.next()
+                self.read_util("*/", ())
+                self.next()
                 self.next()
                 continue
             if self.sql[self.index] == ';':
@@ -115,7 +120,7 @@ class SqlParser(object):
                 start_index = None
                 self.next()
                 continue
-            if start_index is None and self.sql[self.index].isalpha():
+            if start_index is None and not self.sql[self.index].isspace() and self.sql[self.index] != '\ufeff':
                 lineno, start_index = self.lineno, self.index
             self.next()
         if start_index is not None and start_index < self.index:
@@ -128,7 +133,7 @@ class FileParser(object):
         self.filename = filename
 
     def load(self):
-        with open(self.filename, "r+", encoding=os.environ.get("SYNCANYENCODING", "utf-8")) as fp:
+        with open(self.filename, "r", encoding=os.environ.get("SYNCANYENCODING", "utf-8")) as fp:
             content = fp.read()
         if isinstance(self.filename, str) and self.filename[-5:].lower() == ".prql":
             try:
-- 
2.43.0


From 8af433b46a7797419a1d994cec460c6186b73eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 025/183] fix: merge config files in a fixed order, the working
 directory's over the home's

---
 syncanysql/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 8fd3fa3..39dd359 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -131,8 +131,8 @@ class GlobalConfig(object):
         home_config_path, cwd_config_path = self.get_home(), os.path.abspath(os.getcwd())
         if home_config_path not in sys.path:
             sys.path.append(home_config_path)
-        for filename in {os.path.join(home_config_path, "config.json"), os.path.join(home_config_path, "config.yaml"),
-                         os.path.join(cwd_config_path, "config.json"), os.path.join(cwd_config_path, "config.yaml")}:
+        for filename in (os.path.join(home_config_path, "config.json"), os.path.join(home_config_path, "config.yaml"),
+                         os.path.join(cwd_config_path, "config.json"), os.path.join(cwd_config_path, "config.yaml")):
             if not os.path.exists(filename):
                 continue
             if "extends" not in self.config or not isinstance(self.config["extends"], list):
-- 
2.43.0


From 1ec023530edc6473c620a0ffccca07ef33f45920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 026/183] fix: do not modify the caller's config dictionary and
 accept modules as imports

---
 syncanysql/config.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 39dd359..cf52edb 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -22,6 +22,12 @@ CONST_CONFIG_KEYS = ("@verbose", "@timeout", "@limit", "@batch", "@streaming", "
                      "@insert_batch", "@primary_order")
 
 
+def copy_config(config):
+    # imported modules and functions are shared, modules can not be deep copied
+    return {key: dict(value) if key == "imports" and isinstance(value, dict) else copy.deepcopy(value)
+            for key, value in config.items()}
+
+
 class GlobalConfig(object):
     def __init__(self):
         self.config = copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
@@ -141,7 +147,7 @@ class GlobalConfig(object):
                 self.config["extends"].append(filename)
         self.load_config()
         if custom_config and isinstance(custom_config, dict):
-            self.merge_config(custom_config)
+            self.merge_config(copy_config(custom_config))
         pypackage_paths = self.config.get("pypackage_paths")
         if pypackage_paths:
             if isinstance(pypackage_paths, str):
@@ -301,8 +307,8 @@ class SessionConfig(GlobalConfig):
         if self.merged_config is None:
             session_config, self.config = self.config, copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
             try:
-                self.merge_config(copy.deepcopy(self.parent_config.get()))
-                self.merge_config(copy.deepcopy(session_config))
+                self.merge_config(copy_config(self.parent_config.get()))
+                self.merge_config(copy_config(session_config))
             finally:
                 self.merged_config, self.config = self.config, session_config
         return self.merged_config
-- 
2.43.0


From 532428bcdf76734e3b9026e5e4a794c2c5348817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 027/183] fix: sessions see later config changes of their
 parents, and SET GLOBAL of a config key works

---
 syncanysql/config.py      | 34 +++++++++++++++++++++-------------
 syncanysql/taskers/set.py |  1 -
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index cf52edb..f36b9f2 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -31,6 +31,10 @@ def copy_config(config):
 class GlobalConfig(object):
     def __init__(self):
         self.config = copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
+        self.version = 0
+
+    def get_version(self):
+        return self.version
 
     def get_home(self):
         if "SYNCANY_HOME" in os.environ:
@@ -41,6 +45,12 @@ class GlobalConfig(object):
         return self.config
 
     def set(self, key, value):
+        try:
+            self.set_value(key, value)
+        finally:
+            self.version += 1
+
+    def set_value(self, key, value):
         if not isinstance(key, SequenceTypes):
             key = str(key).split(".")
         if not key:
@@ -301,23 +311,21 @@ class SessionConfig(GlobalConfig):
         self.global_config = global_config
         self.parent_config = parent_config
         self.merged_config = None
+        self.merged_version = None
         self.tasker_extend_config = None
 
+    def get_version(self):
+        return self.parent_config.get_version() + self.version
+
     def get(self):
-        if self.merged_config is None:
-            session_config, self.config = self.config, copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
-            try:
-                self.merge_config(copy_config(self.parent_config.get()))
-                self.merge_config(copy_config(session_config))
-            finally:
-                self.merged_config, self.config = self.config, session_config
+        version = self.get_version()
+        if self.merged_config is None or self.merged_version != version:
+            merged = GlobalConfig()
+            merged.merge_config(copy_config(self.parent_config.get()))
+            merged.merge_config(copy_config(self.config))
+            self.merged_config, self.tasker_extend_config, self.merged_version = merged.config, None, version
         return self.merged_config
 
-    def set(self, key, value):
-        super(SessionConfig, self).set(key, value)
-        self.merged_config = None
-        self.tasker_extend_config = None
-
     def session(self):
         return SessionConfig(self.global_config, self)
 
@@ -325,8 +333,8 @@ class SessionConfig(GlobalConfig):
         return copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
 
     def get_tasker_extend_config(self):
+        merged_config = self.get()
         if self.tasker_extend_config is None:
-            merged_config = self.get()
             self.tasker_extend_config = {key: merged_config[key] for key in self.TASKER_EXTEND_KEYS
                                          if key in merged_config}
         return self.tasker_extend_config
diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 8098645..54a2a23 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -33,7 +33,6 @@ class SetCommandTasker(object):
     def set_config(self, session_config, key, is_global=False):
         if is_global:
             session_config.global_config.set(key, self.parse_value(self.config["value"].strip()))
-            session_config.merge()
             return
         session_config.set(key, self.parse_value(self.config["value"].strip()))
 
-- 
2.43.0


From 7fa226967927b0c037568fa9b544a4b0015938e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 028/183] fix: config keys of a database keep plain values and
 override the global file format settings

---
 syncanysql/config.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index f36b9f2..6cfe97b 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -75,9 +75,9 @@ class GlobalConfig(object):
                     self.config["databases"].remove(set_database)
                 else:
                     try:
+                        value = dict(json.loads(value), name=key[1])
                         set_database.clear()
-                        set_database["name"] = key[1]
-                        set_database.update(json.loads(value))
+                        set_database.update(value)
                     except:
                         pass
             elif key[2] == "virtual_views":
@@ -111,7 +111,7 @@ class GlobalConfig(object):
                     try:
                         set_database[key[2]] = json.loads(value)
                     except:
-                        pass
+                        set_database[key[2]] = value
         elif key[0] in ("imports", "sources"):
             if key[0] not in self.config:
                 self.config[key[0]] = {}
@@ -193,13 +193,13 @@ class GlobalConfig(object):
             if database["driver"] not in ("textline", "json", "csv"):
                 continue
             if encoding:
-                database["encoding"] = encoding
+                database.setdefault("encoding", encoding)
             if datetime_format:
-                database["datetime_format"] = datetime_format
+                database.setdefault("datetime_format", datetime_format)
             if date_format:
-                database["date_format"] = date_format
+                database.setdefault("date_format", date_format)
             if time_format:
-                database["time_format"] = time_format
+                database.setdefault("time_format", time_format)
 
         init_execute_files = []
         for init_execute_file in self.config.pop("executes", []):
-- 
2.43.0


From 28d1ddcdd1385d4c55db3f3a25efd8eb12ec3fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 029/183] fix: merge a database's virtual views by name instead
 of dropping the configured ones

---
 syncanysql/config.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 6cfe97b..7757610 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -258,7 +258,10 @@ class GlobalConfig(object):
                     vs = {c["name"]: c for c in self.config[k]}
                     for d in v:
                         if d["name"] in vs:
+                            virtual_views = self.merge_virtual_views(vs[d["name"]].get("virtual_views"), d.get("virtual_views"))
                             vs[d["name"]].update(d)
+                            if virtual_views:
+                                vs[d["name"]]["virtual_views"] = virtual_views
                         else:
                             self.config[k].append(d)
             elif k == "pipelines":
@@ -279,6 +282,10 @@ class GlobalConfig(object):
             else:
                 self.config[k] = v
 
+    def merge_virtual_views(self, virtual_views, override_virtual_views):
+        names = {v["name"] for v in override_virtual_views or []}
+        return [v for v in virtual_views or [] if v["name"] not in names] + list(override_virtual_views or [])
+
     def config_logging(self, isatty=True):
         logfile = self.config.get("logfile", os.environ.get("SYNCANY_LOGFILE", None))
         if not logfile or logfile == "-":
-- 
2.43.0


From 7d17fa8a773f75b92f731ccc998a06ea442cb91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 030/183] fix: push_memory_datas of contexts and modules,
 terminal and current outside a context

---
 syncanysql/__init__.py | 8 ++++----
 syncanysql/executor.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index cac1494..469a9f6 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -31,7 +31,7 @@ class ExecuterContext(object):
 
     @classmethod
     def current(cls):
-        return cls._thread_local.current_executer_context
+        return getattr(cls._thread_local, "current_executer_context", None)
 
     def __init__(self, engine, executor):
         self.engine = engine
@@ -68,7 +68,7 @@ class ExecuterContext(object):
         return self.engine.pop_memory_datas(name)
 
     def push_memory_datas(self, name, datas):
-        return self.engine.push_datas(name, datas)
+        return self.engine.push_memory_datas(name, datas)
 
     def terminal(self):
         if not self.executor:
@@ -193,7 +193,7 @@ class ScriptEngine(object):
                 return
             self.executor.terminate()
             return
-        executer_context.terminate()
+        executer_context.terminal()
 
     def close(self):
         if self.manager:
@@ -249,7 +249,7 @@ def pop_memory_datas(name):
 
 
 def push_memory_datas(name, datas):
-    return ScriptEngine.instance().push_datas(name, datas)
+    return ScriptEngine.instance().push_memory_datas(name, datas)
 
 
 def terminal():
diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index af989fe..c2547bd 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -88,7 +88,7 @@ class Executor(object):
 
     @classmethod
     def current(cls):
-        return cls._thread_local.current_executor
+        return getattr(cls._thread_local, "current_executor", None)
 
     def __init__(self, manager, session_config, parent_executor=None):
         self.manager = manager
-- 
2.43.0


From 1732da12072a3533c4d93f46ee1dedf77801be15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:09 +0000
Subject: [PATCH 031/183] fix: run scripts piped in without command line
 arguments

---
 syncanysql/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/main.py b/syncanysql/main.py
index 94db858..af0249e 100644
--- a/syncanysql/main.py
+++ b/syncanysql/main.py
@@ -57,7 +57,7 @@ def main():
                     sql_parser = SqlParser(content[1:-1] if content[0] in ('"', "'") and content[-1] in ('"', "'") else content)
                     sqls = sql_parser.split()
                     executor.run("pipe", sqls)
-                    get_logger().info("execute pipe sql start %d task", sys.argv[1], executor.get_tasker_index())
+                    get_logger().info("execute pipe sql start %d task", executor.get_tasker_index())
                     try:
                         executor.execute()
                     except Exception as e:
-- 
2.43.0


From 4f6a3c87adc5711363c926c1df02fa508a508654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 032/183] fix: substitute each variable reference once, by its
 exact name first, and keep = in command line values

---
 syncanysql/executor.py | 52 ++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index c2547bd..3204d03 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -55,7 +55,7 @@ class EnvVariables(dict):
         for arg in sys.argv:
             if arg[:2] != "--":
                 continue
-            arg_info = arg[2:].split("=")
+            arg_info = arg[2:].split("=", 1)
             arg_value = arg_info[1] if len(arg_info) >= 2 else True
             if isinstance(arg_value, str) and arg_value and arg_value[0] in ('"', "'"):
                 arg_value = arg_value[1:-1]
@@ -102,11 +102,13 @@ class Executor(object):
                                           else self.global_env_variables)
 
     def compile_variable(self, sql):
-        variables = ENV_VARIABLE_RE.findall(sql)
-        for variable, default_value in variables:
+        def get_variable_value(variable, default_value):
             variable_name = variable[2:-1].split(":")[0]
             try:
-                variable_value = self.env_variables.get_value(variable_name.lower())
+                try:
+                    return self.env_variables.get_value(variable_name)
+                except KeyError:
+                    return self.env_variables.get_value(variable_name.lower())
             except KeyError:
                 try:
                     groups = FUNC_RE.match(default_value[1:].strip()).groups()
@@ -116,28 +118,28 @@ class Executor(object):
                             calculater_args.append(parse_value(arg))
                     calculater = find_calculater(groups[0].split("__")[0]).instance(groups[0].replace("__", "::"))
                     variable_value = calculater.calculate(*tuple(calculater_args))
-                    variable_value = StringFilter().filter(variable_value)
+                    return StringFilter().filter(variable_value)
                 except Exception as e:
-                    variable_value = default_value[1:]
-
-            def format_variable_value(value):
-                if value is True:
-                    return "true"
-                if value is False:
-                    return "false"
-                if value is None:
-                    return "null"
-                if isinstance(value, datetime.date):
-                    if isinstance(value, datetime.datetime):
-                        return value.strftime(self.session_config.get().get("datetime_format", "%Y-%m-%d %H:%M:%S"))
-                    return value.strftime(self.session_config.get().get("date_format", "%Y-%m-%d"))
-                if isinstance(value, datetime.time):
-                    return value.strftime(self.session_config.get().get("time_format", "%H:%M:%S"))
-                if isinstance(value, SequenceTypes):
-                    return "(" + ",".join([format_variable_value(v) for v in value]) + ")"
-                return str(value)
-            sql = sql.replace(variable, format_variable_value(variable_value))
-        return sql
+                    return default_value[1:]
+
+        def format_variable_value(value):
+            if value is True:
+                return "true"
+            if value is False:
+                return "false"
+            if value is None:
+                return "null"
+            if isinstance(value, datetime.date):
+                if isinstance(value, datetime.datetime):
+                    return value.strftime(self.session_config.get().get("datetime_format", "%Y-%m-%d %H:%M:%S"))
+                return value.strftime(self.session_config.get().get("date_format", "%Y-%m-%d"))
+            if isinstance(value, datetime.time):
+                return value.strftime(self.session_config.get().get("time_format", "%H:%M:%S"))
+            if isinstance(value, SequenceTypes):
+                return "(" + ",".join([format_variable_value(v) for v in value]) + ")"
+            return str(value)
+        # each reference is replaced once, the values put in are not searched for references again
+        return ENV_VARIABLE_RE.sub(lambda match: format_variable_value(get_variable_value(*match.groups(""))), sql)
 
     def run(self, name, sqls):
         self._thread_local.current_executor = self
-- 
2.43.0


From 0992458054f647158decd1d0286906a877508990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 033/183] fix: SET keeps the exact value of string literals,
 negative decimals and expressions starting with a string

---
 syncanysql/compiler.py    | 15 ++-------------
 syncanysql/taskers/set.py | 31 ++++++++++++++++++++++++-------
 syncanysql/utils.py       | 21 ++++++++++++++++++---
 3 files changed, 44 insertions(+), 23 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 0ac45bf..77b4545 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -14,7 +14,7 @@ from sqlglot import parser as sqlglot_parser
 from sqlglot import generator as sqlglot_generator
 from sqlglot import tokens
 from syncany.filters import find_filter
-from .utils import NumberTypes
+from .utils import NumberTypes, unescape_string
 from .errors import SyncanySqlCompileException
 from .calculaters import is_mysql_func, find_generate_calculater, find_aggregate_calculater, find_window_aggregate_calculater, CalculaterUnknownException
 from .config import CONST_CONFIG_KEYS
@@ -2791,18 +2791,7 @@ class Compiler(object):
                 typing_filter = "int" if expression.is_int else "float"
             elif isinstance(value, str):
                 try:
-                    escape_values, escape_chars, encoding = [], [], os.environ.get("SYNCANYENCODING", "utf-8")
-                    for c in value:
-                        if ord(c) < 128:
-                            escape_chars.append(c)
-                            continue
-                        if escape_chars:
-                            escape_values.append("".join(escape_chars).encode(encoding).decode("unicode_escape"))
-                            escape_chars = []
-                        escape_values.append(c)
-                    if escape_chars:
-                        escape_values.append("".join(escape_chars).encode(encoding).decode("unicode_escape"))
-                    value = "".join(escape_values)
+                    value = unescape_string(value)
                 except:
                     pass
         elif isinstance(expression, sqlglot_expressions.Boolean):
diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 54a2a23..aee7475 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -2,6 +2,13 @@
 # 2023/2/13
 # create by: snower
 
+import re
+from ..utils import unescape_string
+
+STRING_RE = re.compile(r"""^('([^'\\]|''|\\.)*'|"([^"\\]|""|\\.)*")$""", re.DOTALL)
+STRING_ESCAPE_RE = re.compile(r"""\\.|''|\"\"""", re.DOTALL)
+
+
 class SetCommandTasker(object):
     def __init__(self, config):
         self.config = config
@@ -19,7 +26,7 @@ class SetCommandTasker(object):
             self.set_config(session_config, key[8:].strip(), is_global)
         else:
             try:
-                self.set_env_variable(executor, key, self.parse_value(self.config["value"].strip()), is_global)
+                self.set_env_variable(executor, key, self.parse_value(self.config["value"].strip(), True), is_global)
             except ValueError as e:
                 if key[:1] == "@":
                     try:
@@ -42,13 +49,24 @@ class SetCommandTasker(object):
             return
         executor.env_variables[key] = value
 
-    def parse_value(self, value):
+    def parse_value(self, value, is_variable=False):
         if not isinstance(value, str):
             return value
+        if not value:
+            raise ValueError("unknown value: %s" % value)
         if value[:1] in ('"', "'"):
-            if value[:3] in ("'''", '"""'):
+            if value[:3] in ("'''", '"""') and value[:3] == value[-3:] and len(value) >= 6:
                 return value[3:-3].strip()
-            return value[1:-1].strip()
+            if not STRING_RE.match(value):
+                raise ValueError("unknown value: %s" % value)
+            quote = value[0]
+            value = STRING_ESCAPE_RE.sub(lambda m: quote if m.group() in ("\\" + quote, quote * 2) else m.group(), value[1:-1])
+            if not is_variable:
+                return value.strip()
+            try:
+                return unescape_string(value)
+            except ValueError:
+                return value
         if value.lower() == 'true':
             return True
         if value.lower() == 'false':
@@ -57,9 +75,8 @@ class SetCommandTasker(object):
             return None
         if value.isdigit() or (value[0] == "-" and value[1:].isdigit()):
             return int(value)
-        value_info = value.split(".")
-        if len(value_info) == 2 and (value_info[0].isdigit() or (value[0][0] == "-" and value[0][1:].isdigit())) \
-                and value_info[1].isdigit():
+        value_info = (value[1:] if value[0] == "-" else value).split(".")
+        if len(value_info) == 2 and value_info[0].isdigit() and value_info[1].isdigit():
             return float(value)
         raise ValueError("unknown value: %s" % value)
 
diff --git a/syncanysql/utils.py b/syncanysql/utils.py
index 48b4f9e..46ad419 100644
--- a/syncanysql/utils.py
+++ b/syncanysql/utils.py
@@ -4,6 +4,7 @@
 
 from decimal import Decimal
 import datetime
+import os
 import string
 
 NumberTypes = (int, float)
@@ -12,6 +13,21 @@ NumberStringTypes = (int, float, str)
 SequenceTypes = (tuple, list)
 
 
+def unescape_string(value):
+    escape_values, escape_chars, encoding = [], [], os.environ.get("SYNCANYENCODING", "utf-8")
+    for c in value:
+        if ord(c) < 128:
+            escape_chars.append(c)
+            continue
+        if escape_chars:
+            escape_values.append("".join(escape_chars).encode(encoding).decode("unicode_escape"))
+            escape_chars = []
+        escape_values.append(c)
+    if escape_chars:
+        escape_values.append("".join(escape_chars).encode(encoding).decode("unicode_escape"))
+    return "".join(escape_values)
+
+
 def parse_value(value):
     value = value.strip()
     if not value:
@@ -26,9 +42,8 @@ def parse_value(value):
         return False
     if value.lower() == "null":
         return None
-    value_info = value.split(".")
-    if len(value_info) == 2 and (value_info[0].isdigit() or (value[0][0] == "-" and value[0][1:].isdigit())) \
-            and value_info[1].isdigit():
+    value_info = (value[1:] if value[0] == "-" else value).split(".")
+    if len(value_info) == 2 and value_info[0].isdigit() and value_info[1].isdigit():
         return float(value)
     return value
 
-- 
2.43.0


From 17c0535f155721a8795aa29982fdab33ee0638e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 034/183] fix: SELECT INTO in a child session reads and shadows
 the parent's variable, and drops its temporary table on failure

---
 syncanysql/taskers/into.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/syncanysql/taskers/into.py b/syncanysql/taskers/into.py
index 7ee101d..3a8c0e9 100644
--- a/syncanysql/taskers/into.py
+++ b/syncanysql/taskers/into.py
@@ -10,9 +10,10 @@ class IntoTasker(object):
 
     def start(self, name, executor, session_config, manager, arguments):
         for variable in self.config["variables"]:
-            if variable in executor.env_variables:
-                continue
-            executor.env_variables[variable] = None
+            try:
+                executor.env_variables.get_value(variable)
+            except KeyError:
+                executor.env_variables[variable] = None
         self.tasker.config["output"] = "&.--.__into_" + str(id(self)) + "::" + self.tasker.config["output"].split("::")[-1]
         self.tasker.config["name"] = self.tasker.config["name"] + "#into"
         self.tasker.start(name, executor, session_config, manager, arguments)
@@ -26,12 +27,14 @@ class IntoTasker(object):
             database = core_tasker.outputer.db
             name = core_tasker.outputer.name
             schema_keys = tuple(core_tasker.schema.keys()) if isinstance(core_tasker.schema, dict) else None
-            self.tasker.run(executor, session_config, manager)
+            try:
+                self.tasker.run(executor, session_config, manager)
 
-            query = database.query(name, ["id"])
-            datas = query.commit()
-            delete = database.delete(name, ["id"])
-            delete.commit()
+                query = database.query(name, ["id"])
+                datas = query.commit()
+            finally:
+                delete = database.delete(name, ["id"])
+                delete.commit()
 
             if not schema_keys:
                 value = datas[0] if len(datas) == 1 else datas
@@ -49,11 +52,7 @@ class IntoTasker(object):
                     value = [{key: data.get(key) for key in schema_keys} for data in datas]
 
             if len(self.config["variables"]) == 1:
-                if value is None:
-                    if self.config["variables"][0] in executor.env_variables:
-                        executor.env_variables[self.config["variables"][0]] = None
-                else:
-                    executor.env_variables[self.config["variables"][0]] = value
+                executor.env_variables[self.config["variables"][0]] = value
             else:
                 for i in range(len(self.config["variables"])):
                     if i >= len(schema_keys):
-- 
2.43.0


From f59992e592862f89d7acd9743c239761665b0d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 035/183] fix: a CTE is private to its statement instead of
 being written to a session table of its name

---
 syncanysql/compiler.py      | 44 +++++++++++++++++++++++--------------
 syncanysql/taskers/query.py |  3 ++-
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 77b4545..f746445 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -136,6 +136,7 @@ class Compiler(object):
         self.config = config
         self.env_variables = env_variables
         self.name = name
+        self.with_tables = {}
         self.mapping = {}
 
     def compile(self, sql, arguments):
@@ -246,23 +247,31 @@ class Compiler(object):
             "pipelines": []
         })
 
-        if expression.args.get("with"):
-            self.compile_with(expression.args.get("with"), config, arguments)
-        if isinstance(expression, sqlglot_expressions.Union):
-            self.compile_union(expression, config, arguments)
-        elif isinstance(expression, sqlglot_expressions.Insert):
-            self.compile_insert_into(expression, config, arguments)
-        elif isinstance(expression, sqlglot_expressions.Select):
-            self.compile_select(self.optimize_rewrite(expression, config, arguments), config, arguments)
-        else:
-            raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
+        outer_with_tables, self.with_tables = self.with_tables, dict(self.with_tables)
+        try:
+            if expression.args.get("with"):
+                self.compile_with(expression.args.get("with"), config, arguments)
+            if isinstance(expression, sqlglot_expressions.Union):
+                self.compile_union(expression, config, arguments)
+            elif isinstance(expression, sqlglot_expressions.Insert):
+                self.compile_insert_into(expression, config, arguments)
+            elif isinstance(expression, sqlglot_expressions.Select):
+                self.compile_select(self.optimize_rewrite(expression, config, arguments), config, arguments)
+            else:
+                raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
+        finally:
+            self.with_tables = outer_with_tables
         return config
 
     def compile_with(self, expression, config, arguments):
         for sub_expression in expression.args["expressions"]:
-            table_name = sub_expression.args["alias"].name
+            with_name = sub_expression.args["alias"].name
+            table_name = "__withquery_" + str(uuid.uuid1().int) + "_" + with_name
+            if expression.args.get("recursive"):
+                self.with_tables[with_name] = table_name
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
             subquery_config = self.compile_query(sub_expression.args["this"], subquery_arguments)
+            self.with_tables[with_name] = table_name
             subquery_config["output"] = "&.--." + table_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
             subquery_config["name"] = subquery_config["name"] + "#" + table_name + "#select"
             arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
@@ -295,14 +304,14 @@ class Compiler(object):
     def compile_insert_into(self, expression, config, arguments):
         columns = []
         if isinstance(expression.args["this"], sqlglot_expressions.Table):
-            table_info = self.parse_table(expression.args["this"], config, arguments)
+            table_info = self.parse_table(expression.args["this"], config, arguments, True)
         elif isinstance(expression.args["this"], sqlglot_expressions.Schema):
             schema_expression = expression.args["this"]
             if not isinstance(schema_expression.args["this"], sqlglot_expressions.Table):
                 raise SyncanySqlCompileException('unknown insert into table, related sql "%s"' % self.to_sql(expression))
             if not schema_expression.args.get("expressions"):
                 raise SyncanySqlCompileException('unknown insert into columns, related sql "%s"' % self.to_sql(expression))
-            table_info = self.parse_table(schema_expression.args["this"], config, arguments)
+            table_info = self.parse_table(schema_expression.args["this"], config, arguments, True)
             for column_expression in schema_expression.args["expressions"]:
                 column_name = column_expression.name
                 if column_name in self.mapping:
@@ -334,6 +343,8 @@ class Compiler(object):
 
         if isinstance(expression.args["expression"], (sqlglot_expressions.Select, sqlglot_expressions.Union)):
             select_expression = expression.args["expression"]
+            if select_expression.args.get("with"):
+                self.compile_with(select_expression.args["with"], config, arguments)
             if isinstance(select_expression, sqlglot_expressions.Union):
                 self.compile_union(select_expression, config, arguments)
             else:
@@ -2603,7 +2614,7 @@ class Compiler(object):
         return maybe_parse(" ".join(sql), dialect=CompilerDialect), join_parent_columns, interceptor_expressions
 
 
-    def parse_table(self, expression, config, arguments):
+    def parse_table(self, expression, config, arguments, is_output=False):
         db_name = expression.args["db"].name if expression.args.get("db") else None
         if isinstance(expression.args["this"], sqlglot_expressions.Dot):
             def parse(expression):
@@ -2634,6 +2645,7 @@ class Compiler(object):
         if expression.args.get("catalog"):
             db_name, table_name = expression.args["catalog"].name, ((db_name + ".") if db_name else "") + table_name
         table_alias = expression.args["alias"].args["this"].name if expression.args.get("alias") else None
+        with_table_name = None
         use_output_type = arguments.get("@use_output_type")
         if use_output_type and isinstance(use_output_type, str):
             use_output_type = use_output_type.upper()
@@ -2703,11 +2715,11 @@ class Compiler(object):
                         database["format"] = formats[0]
                 db_name = database["name"]
             else:
-                db_name = "--"
+                db_name, with_table_name = "--", self.with_tables.get(table_name) if not is_output else None
 
         return {
             "db": db_name,
-            "name": table_name,
+            "name": with_table_name or table_name,
             "table_name": table_alias if table_alias else ((db_name + "." + table_name if db_name else table_name)),
             "table_alias": table_alias,
             "origin_name": origin_name,
diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 2cb7b09..e59385e 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -390,7 +390,8 @@ class QueryTasker(object):
                 self.temporary_memory_manager.use_collection(tasker.loader.name)
 
         if hasattr(tasker.outputer, "name"):
-            if tasker.outputer.name.startswith("--.__subquery_") or tasker.outputer.name.startswith("--.__unionquery_"):
+            if tasker.outputer.name.startswith("--.__subquery_") or tasker.outputer.name.startswith("--.__unionquery_") \
+                    or tasker.outputer.name.startswith("--.__withquery_"):
                 self.temporary_memory_manager.add_collection(tasker.outputer.name)
 
         loader_or_outputers = [tasker.loader, tasker.outputer] + list(tasker.join_loaders.values())
-- 
2.43.0


From f09f4a4256ccc9c38c70d16d5826f16f52bfac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 036/183] fix: unary minus of a string negates its number
 instead of reversing it

---
 syncanysql/calculaters/mysql_funcs/number_funcs.py | 6 ++++++
 syncanysql/compiler.py                             | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/number_funcs.py b/syncanysql/calculaters/mysql_funcs/number_funcs.py
index 87fe588..fa94dba 100644
--- a/syncanysql/calculaters/mysql_funcs/number_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/number_funcs.py
@@ -38,6 +38,12 @@ def mysql_mod(x, y):
     x, y = ensure_number(x), ensure_number(y)
     return -(-x % abs(y)) if x < 0 else x % abs(y)
 
+@typing_filter(float)
+def mysql_neg(x):
+    if x is None:
+        return None
+    return -ensure_number(x)
+
 @typing_filter(int)
 def mysql_bitwiseand(x, y):
     if x is None or y is None:
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index f746445..1506cde 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1625,7 +1625,7 @@ class Compiler(object):
             return self.compile_join_column_field(expression, config, arguments, primary_table, join_index,
                                                   expression.syncany_column, column_join_tables)
         if isinstance(expression, sqlglot_expressions.Neg):
-            return ["@neg", self.compile_calculate(expression.args["this"], config, arguments, primary_table, 
+            return ["@mysql::neg", self.compile_calculate(expression.args["this"], config, arguments, primary_table, 
                                                    column_join_tables, join_index)]
         elif isinstance(expression, sqlglot_expressions.Anonymous):
             calculater_name = expression.args["this"].lower()
@@ -2958,7 +2958,7 @@ class Compiler(object):
 
     def is_const(self, expression, config, arguments):
         if isinstance(expression, sqlglot_expressions.Neg):
-            return not isinstance(expression.args["this"], sqlglot_expressions.Neg) and self.is_const(expression.args["this"], config, arguments)
+            return isinstance(expression.args["this"], sqlglot_expressions.Literal) and expression.args["this"].is_number
         if isinstance(expression, sqlglot_expressions.Parameter):
             return not isinstance(expression, AssignParameter)
         return isinstance(expression, (sqlglot_expressions.Literal, sqlglot_expressions.Boolean,
-- 
2.43.0


From ed741085092be53f272fe899b40942e383fa3fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 037/183] fix: INNER JOIN requires a match of its own table
 only, also when joined through another table

---
 syncanysql/compiler.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 1506cde..7f23f00 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3182,11 +3182,13 @@ class Compiler(object):
                                                       join_table["table_name"], join_table["related_tables"],
                                                       join_table["on_expressions"], join_table["const_expressions"],
                                                       join_table["calculate_expressions"])
-            if primary_table["table_name"] in join_table["related_tables"]:
-                for on_expression in join_table["on_expressions"]:
-                    self.parse_calculate(on_expression, config, arguments, primary_table, inner_calculate_fields)
-        inner_calculate_fields = [calculate_field for calculate_field in inner_calculate_fields
-                                  if calculate_field["table_name"] and calculate_field["table_name"] != primary_table["table_name"]]
+            if join_table["join_kind"] != "inner":
+                continue
+            calculate_fields = []
+            for on_expression in join_table["on_expressions"]:
+                self.parse_calculate(on_expression, config, arguments, primary_table, calculate_fields)
+            inner_calculate_fields.extend([calculate_field for calculate_field in calculate_fields
+                                           if calculate_field["table_name"] == join_table["table_name"]])
         if not inner_calculate_fields:
             return expression
 
-- 
2.43.0


From 95b42c82d85ac2aeab2d3d6cdb8a9e9026400a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 038/183] fix: a leading RIGHT JOIN preserves every row of its
 right table

---
 syncanysql/compiler.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 7f23f00..99ac899 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3017,10 +3017,12 @@ class Compiler(object):
 
         if not expression.args.get("joins") or not expression.args.get("expressions"):
             return expression
-        for join_expression in expression.args["joins"]:
-            if join_expression.side and join_expression.side.lower() == "right":
-                expression = self.optimize_rewrite_right_join(expression, config, arguments)
-                break
+        right_join_expressions = [join_expression for join_expression in expression.args["joins"]
+                                  if join_expression.side and join_expression.side.lower() == "right"]
+        if len(right_join_expressions) == 1 and expression.args["joins"][0] is right_join_expressions[0]:
+            expression = self.optimize_rewrite_first_right_join(expression)
+        elif right_join_expressions:
+            expression = self.optimize_rewrite_right_join(expression, config, arguments)
         for join_expression in expression.args["joins"]:
             if join_expression.kind and join_expression.kind.lower() == "inner":
                 expression = self.optimize_rewrite_inner_join(expression, config, arguments)
@@ -3073,6 +3075,16 @@ class Compiler(object):
             sql.append(self.generate_sql(expression.args.get("offset")))
         return maybe_parse(" ".join(sql), dialect=CompilerDialect)
 
+    def optimize_rewrite_first_right_join(self, expression):
+        # a RIGHT JOIN b ON ... is b LEFT JOIN a ON ..., the preserved table becomes the primary table
+        expression = expression.copy()
+        join_expression = expression.args["joins"][0]
+        primary_expression = expression.args["from"].expressions[0]
+        expression.args["from"].set("expressions", [join_expression.args["this"]])
+        join_expression.set("this", primary_expression)
+        join_expression.set("side", "LEFT")
+        return expression
+
     def optimize_rewrite_right_join(self, expression, config, arguments):
         primary_table = self.optimize_rewrite_parse_table(expression, config, arguments,
                                                           expression.args["from"].expressions[0])
-- 
2.43.0


From 92110003a10653767281054512061af4cced2fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 039/183] fix: joins multiply and filter rows also when no
 column of the joined table is selected

---
 syncanysql/compiler.py | 65 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 10 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 99ac899..9646b5b 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -533,6 +533,8 @@ class Compiler(object):
         if not select_expressions:
             raise SyncanySqlCompileException('unknown select columns, related sql "%s"' % self.to_sql(expression))
         config["schema"] = {}
+        if join_tables:
+            self.parse_unselected_join_tables(select_expressions, config, arguments, primary_table, join_tables)
         for select_expression in select_expressions:
             if isinstance(select_expression, sqlglot_expressions.Star):
                 if not self.compile_select_star_column(select_expression, config, arguments, primary_table, join_tables):
@@ -749,17 +751,22 @@ class Compiler(object):
             column_alias = column_info["column_name"].replace(".", "_")
             if column_info["table_name"] and column_alias in config["schema"]:
                 column_alias = column_info["table_name"] + "." + column_info["column_name"].replace(".", "_")
+        calculate_table_names = self.pop_unselected_join_tables(primary_table, False)
         if column_info["table_name"] and column_info["table_name"] != primary_table["table_name"]:
             if column_info["table_name"] not in join_tables:
                 raise SyncanySqlCompileException('error join, table %s is unknown, related sql "%s"' %
                                                  (column_info["table_name"], self.to_sql(expression)))
+            calculate_table_names.add(column_info["table_name"])
+        if calculate_table_names:
             column_join_tables = []
             self.compile_join_column_tables(expression, config, arguments, primary_table,
-                                            [join_tables[column_info["table_name"]]], join_tables,
-                                            column_join_tables)
-            config["schema"][column_alias] = self.compile_join_column(expression, config, arguments, primary_table, 
-                                                                      self.compile_column(expression, config, arguments, 
-                                                                                          column_info), column_join_tables)
+                                            [join_tables[calculate_table_name] for calculate_table_name in calculate_table_names],
+                                            join_tables, column_join_tables)
+            config["schema"][column_alias] = self.compile_join_column(expression, config, arguments, primary_table,
+                                                                      self.compile_join_column_field(expression, config, arguments,
+                                                                                                     primary_table, -1, column_info,
+                                                                                                     column_join_tables),
+                                                                      column_join_tables)
         else:
             config["schema"][column_alias] = self.compile_column(expression, config, arguments, column_info)
         if not column_info["table_name"] or column_info["table_name"] == primary_table["table_name"]:
@@ -782,7 +789,7 @@ class Compiler(object):
     def compile_select_calculate_column(self, expression, config, arguments, primary_table, column_alias, join_tables, parse_primary_key=True):
         calculate_fields = []
         self.parse_calculate(expression, config, arguments, primary_table, calculate_fields)
-        calculate_table_names = set([])
+        calculate_table_names = self.pop_unselected_join_tables(primary_table, False)
         for calculate_field in calculate_fields:
             if not calculate_field["table_name"] or calculate_field["table_name"] == primary_table["table_name"]:
                 continue
@@ -810,6 +817,33 @@ class Compiler(object):
             else:
                 primary_table["outputer_primary_keys"] = [column_alias]
 
+    def parse_unselected_join_tables(self, select_expressions, config, arguments, primary_table, join_tables):
+        # the joined rows are generated by the selected columns, a joined table that no selected column
+        # refers to has to be joined by one of the columns as well
+        calculate_fields, aggregate_expressions = [], []
+        for select_expression in select_expressions:
+            if isinstance(select_expression, sqlglot_expressions.Alias):
+                select_expression = select_expression.args["this"]
+            self.parse_calculate(select_expression, config, arguments, primary_table, calculate_fields)
+            self.parse_aggregate(select_expression, config, arguments, aggregate_expressions)
+        selected_table_names = set([])
+
+        def add_selected_table(table_name):
+            if not table_name or table_name not in join_tables or table_name in selected_table_names:
+                return
+            selected_table_names.add(table_name)
+            for join_column in join_tables[table_name]["join_columns"]:
+                add_selected_table(join_column["table_name"])
+        for calculate_field in calculate_fields:
+            add_selected_table(calculate_field["table_name"])
+        primary_table["unselected_join_tables"] = [table_name for table_name in join_tables if table_name not in selected_table_names]
+        primary_table["unselected_by_aggregate"] = bool(aggregate_expressions)
+
+    def pop_unselected_join_tables(self, primary_table, is_aggregate):
+        if not primary_table.get("unselected_join_tables") or primary_table["unselected_by_aggregate"] != is_aggregate:
+            return set([])
+        return set(primary_table.pop("unselected_join_tables"))
+
     def compile_join_column_tables(self, expression, config, arguments, primary_table, current_join_tables, join_tables,
                                    column_join_tables):
         if not current_join_tables:
@@ -1371,11 +1405,22 @@ class Compiler(object):
         return group_column
 
     def compile_aggregate_value(self, expression, config, arguments, primary_table, join_tables, value_expressions):
+        unselected_table_names = self.pop_unselected_join_tables(primary_table, True)
+
+        def compile_const_value(value):
+            if not unselected_table_names:
+                return [["#const", value]]
+            column_join_tables = []
+            self.compile_join_column_tables(expression, config, arguments, primary_table,
+                                            [join_tables[table_name] for table_name in unselected_table_names],
+                                            join_tables, column_join_tables)
+            return [self.compile_join_column(expression, config, arguments, primary_table,
+                                             ["#if", ["#const", True], ["#const", value], ["#const", value]], column_join_tables)]
         if isinstance(expression, sqlglot_expressions.Count) and isinstance(expression.args["this"],
                                                                             sqlglot_expressions.Star):
-            return [["#const", 0]]
+            return compile_const_value(0)
         if not value_expressions:
-            return [["#const", None]]
+            return compile_const_value(None)
 
         value_column = []
         for value_expression in value_expressions:
@@ -1383,12 +1428,12 @@ class Compiler(object):
             self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
             calculate_fields = [calculate_field for calculate_field in calculate_fields if calculate_field["table_name"]
                                 and calculate_field["table_name"] != primary_table["table_name"]]
-            if not calculate_fields:
+            if not calculate_fields and not unselected_table_names:
                 value_column.append(self.compile_calculate(value_expression, config, arguments, primary_table, []))
                 continue
 
             column_join_tables = []
-            calculate_table_names = set([])
+            calculate_table_names, unselected_table_names = set(unselected_table_names), set([])
             for calculate_field in calculate_fields:
                 if calculate_field["table_name"] not in join_tables:
                     raise SyncanySqlCompileException('error join column, join table %s unknown, related sql "%s"' %
-- 
2.43.0


From da85846630764b4788dac4ffbf218402c41325ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 040/183] fix: AVG counts only the values it sums, not NULLs

---
 syncanysql/calculaters/aggregate_calculater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index 577c453..1b630dd 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -188,11 +188,11 @@ class AggregateMinCalculater(AggregateCalculater):
 class AggregateAvgCalculater(StateAggregateCalculater):
     def aggregate(self, state_value, data_value):
         try:
-            state_value["count_value"] += 1
             if isinstance(data_value, NumberDecimalTypes):
                 state_value["sum_value"] += data_value
             else:
                 state_value["sum_value"] += ensure_number(data_value)
+            state_value["count_value"] += 1
             return state_value
         except:
             if data_value is None:
-- 
2.43.0


From 72cc8660830b36b18ed10ed4e7faee09105f0adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 041/183] fix: bit aggregates convert the group's first value
 like the following ones

---
 syncanysql/calculaters/aggregate_calculater.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index 1b630dd..7c2a8c5 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -310,9 +310,7 @@ class AggregateGroupBitAndCalculater(AggregateCalculater):
         if data_value is None:
             return state_value
         if state_value is None:
-            return data_value
-        if isinstance(data_value, int):
-            return state_value & data_value
+            return ensure_int(data_value)
         return state_value & ensure_int(data_value)
 
     def reduce(self, state_value, data_value):
@@ -331,9 +329,7 @@ class AggregateGroupBitOrCalculater(AggregateCalculater):
         if data_value is None:
             return state_value
         if state_value is None:
-            return data_value
-        if isinstance(data_value, int):
-            return state_value | data_value
+            return ensure_int(data_value)
         return state_value | ensure_int(data_value)
 
     def reduce(self, state_value, data_value):
@@ -352,9 +348,7 @@ class AggregateGroupBitXorCalculater(AggregateCalculater):
         if data_value is None:
             return state_value
         if state_value is None:
-            return data_value
-        if isinstance(data_value, int):
-            return state_value ^ data_value
+            return ensure_int(data_value)
         return state_value ^ ensure_int(data_value)
 
     def reduce(self, state_value, data_value):
-- 
2.43.0


From 568786af2fc820aeed83708b8125f8ad9c2d09a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 042/183] fix: merging partial JSON_OBJECTAGG results keeps the
 merged object

---
 syncanysql/calculaters/aggregate_calculater.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index 7c2a8c5..6c5bf5f 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -425,7 +425,8 @@ class AggregateJsonObjectaggCalculater(StateAggregateCalculater):
             return state_value
         if state_value is None:
             return data_value
-        return state_value.update(data_value)
+        state_value.update(data_value)
+        return state_value
 
     def final_value(self, state_value):
         if state_value is None:
-- 
2.43.0


From 4d1b63bc92d9f31ddc92d9f0aad20a1b503c1bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 043/183] fix: UNION keeps parenthesised operands apart when a
 later UNION ALL follows

---
 syncanysql/compiler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 9646b5b..f136b4b 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -379,7 +379,7 @@ class Compiler(object):
         select_expressions, union_expressions, result_args = [], [], {}
         def parse_select(select_expression, is_last):
             if isinstance(select_expression, sqlglot_expressions.Subquery):
-                select_expressions.append(select_expression.args["this"])
+                select_expressions.append(select_expression.unnest())
             elif isinstance(select_expression, sqlglot_expressions.Select):
                 if is_last:
                     select_expression = select_expression.copy()
@@ -405,7 +405,9 @@ class Compiler(object):
         if distinct_indexs and not is_distinct:
             distinct_expression = select_expressions[0]
             for select_expression in select_expressions[1: distinct_indexs[-1] + 2]:
-                distinct_expression = sqlglot_expressions.Union(this=distinct_expression, expression=select_expression, distinct=True)
+                distinct_expression = sqlglot_expressions.Union(this=sqlglot_expressions.Subquery(this=distinct_expression),
+                                                                expression=sqlglot_expressions.Subquery(this=select_expression),
+                                                                distinct=True)
             select_expressions = [distinct_expression] + select_expressions[distinct_indexs[-1] + 2:]
 
         query_name = "__unionquery_" + str(uuid.uuid1().int)
-- 
2.43.0


From 5e0af2696ef5585ac271da3d26c164acee3c596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 044/183] fix: ORDER BY sorts by the result column it names

---
 syncanysql/compiler.py | 54 ++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index f136b4b..5967d07 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2071,33 +2071,47 @@ class Compiler(object):
                         continue
                 raise SyncanySqlCompileException('unknown order by column, the order by field must appear in the select field, related sql "%s"'
                                                  % self.to_sql(expression))
+            desc = True if order_expression.args["desc"] else False
             column = self.parse_column(order_expression.args["this"], config, arguments)
-            if not isinstance(config["schema"], dict) or (column["table_name"] and primary_table["table_name"] == column["table_name"]):
-                primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
-            elif not column["table_name"] and not primary_table["table_alias"]:
-                if not config.get("aggregate"):
-                    if column["column_name"] in primary_table["columns"] or column["column_name"] not in config["schema"]:
-                        primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
-                elif column["column_name"] not in config["aggregate"]["schema"] and column["column_name"] not in config["aggregate"]["window_schema"]:
-                    if column["column_name"] in primary_table["columns"] or column["column_name"] not in config["schema"]:
-                        primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
-            elif not column["table_name"] and primary_table["table_alias"]:
-                if not config.get("aggregate"):
-                    if column["column_name"] in primary_table["columns"] and column["column_name"] not in config["schema"]:
-                        primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
-                elif column["column_name"] not in config["aggregate"]["schema"] and column["column_name"] not in config["aggregate"]["window_schema"]:
-                    if column["column_name"] in primary_table["columns"] and column["column_name"] not in config["schema"]:
-                        primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
-            sort_keys.append((column["column_name"], True if order_expression.args["desc"] else False))
-        if sort_keys and len(primary_sort_keys) < len(sort_keys):
+            if not isinstance(config["schema"], dict):
+                primary_sort_keys.append([column["column_name"], desc])
+                sort_keys.append((column["column_name"], desc))
+                continue
+            if not column["table_name"] and column["column_name"] in config["schema"]:
+                sort_key = column["column_name"]
+                is_primary = not primary_table["table_alias"] and \
+                             sort_key in self.find_select_column_aliases(config, arguments, primary_table, column)
+            else:
+                sort_key = (self.find_select_column_aliases(config, arguments, primary_table, column) or [None])[0]
+                if sort_key and column["typing_filters"]:
+                    is_primary = False
+                elif column["table_name"]:
+                    is_primary = primary_table["table_name"] == column["table_name"]
+                else:
+                    is_primary = not primary_table["table_alias"] or column["column_name"] in primary_table["columns"]
+            if is_primary:
+                primary_sort_keys.append([column["column_name"], desc])
+            sort_keys.append((sort_key, desc))
+        if len(primary_sort_keys) == len(sort_keys):
+            config["orders"].extend(primary_sort_keys)
+        else:
             if isinstance(config["schema"], dict):
                 for sort_key, _ in sort_keys:
                     if sort_key in config["schema"]:
                         continue
                     raise SyncanySqlCompileException('unknown order by column, related sql "%s"' % self.to_sql(expression))
             config["pipelines"].append([">>@sort", "$.*|array", False, sort_keys])
-        if primary_sort_keys:
-            config["orders"].extend(primary_sort_keys)
+
+    def find_select_column_aliases(self, config, arguments, primary_table, column):
+        column_aliases = []
+        for column_alias, expression in primary_table["select_columns"].items():
+            if not self.is_column(expression, config, arguments):
+                continue
+            select_column = self.parse_column(expression, config, arguments)
+            if select_column["column_name"] == column["column_name"] and select_column["typing_filters"] == column["typing_filters"] \
+                    and (select_column["table_name"] or primary_table["table_name"]) == (column["table_name"] or primary_table["table_name"]):
+                column_aliases.append(column_alias)
+        return column_aliases
 
     def compile_foreign_column(self, expression, config, arguments, column):
         if column.get("typing_filters"):
-- 
2.43.0


From 3bd26b36aeb33c9fc752982ccf65772410b66599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 045/183] fix: WHERE on a subquery correlated by a comparison
 is evaluated per row

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5967d07..0f87771 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1010,7 +1010,7 @@ class Compiler(object):
             if self.is_subquery(right_expression, config, arguments):
                 value_column = self.compile_query_condition(right_expression, config, arguments, primary_table, join_tables,
                                                             left_column["typing_filters"] if left_column else None)
-                if isinstance(value_column, list) and value_column and isinstance(value_column[0], str) and value_column[0][:2] == "&.":
+                if isinstance(value_column, list) and len(value_column) == 2 and isinstance(value_column[0], str) and value_column[0][:2] == "&.":
                     if isinstance(expression, sqlglot_expressions.In):
                         return left_column, ["@convert_array", value_column]
                     return left_column, ["@convert_array", value_column, ":$.:0"]
-- 
2.43.0


From 4637fa6c0cc552465001c03ebcdb93f712c81218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:28 +0000
Subject: [PATCH 046/183] fix: NULL IN an empty subquery is false

---
 syncanysql/calculaters/mysql_funcs/logical_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/logical_funcs.py b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
index 0e05d13..b164b8f 100644
--- a/syncanysql/calculaters/mysql_funcs/logical_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
@@ -188,7 +188,7 @@ def mysql_lte(a, b):
 @typing_filter(int)
 def mysql_in(a, b):
     if a is None:
-        return None
+        return None if b else 0
     hs_none = False
     for v in b:
         if v is None:
-- 
2.43.0


From 6b7768a16540b99a4d9cb458a654ef8ba9deddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 047/183] fix: a scalar subquery without rows is NULL inside
 expressions

---
 .../calculaters/mysql_funcs/logical_funcs.py  |  4 ++++
 syncanysql/compiler.py                        | 21 +++++++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/logical_funcs.py b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
index b164b8f..0d4c787 100644
--- a/syncanysql/calculaters/mysql_funcs/logical_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
@@ -241,4 +241,8 @@ def mysql_exists(a):
     return 1 if a else 0
 
 
+def mysql_subquery_value(a):
+    return None if isinstance(a, list) and not a else a
+
+
 funcs = {key[6:]: value for key, value in globals().items() if key.startswith("mysql_")}
\ No newline at end of file
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 0f87771..685fb6d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1101,7 +1101,8 @@ class Compiler(object):
                 return
             if self.is_subquery(condition_expression, config, arguments):
                 condition_query_condition = self.compile_query_condition(condition_expression, config, arguments, primary_table, join_tables, None)
-                setattr(condition_expression, "syncany_valuer", condition_query_condition)
+                setattr(condition_expression, "syncany_valuer",
+                        self.compile_subquery_value(condition_expression, condition_query_condition))
                 return
             if self.is_column(condition_expression, config, arguments) or self.is_const(condition_expression, config, arguments):
                 return
@@ -1205,6 +1206,17 @@ class Compiler(object):
         return [join_key_columns, ["&.:=@execute_query_tasker::" + "+".join(join_keys), {}, {"task_config": subquery_config}],
                 subquery_interceptor_column, ":$." + column_name]
 
+    def compile_subquery_value(self, expression, value_column):
+        # a scalar subquery without rows is NULL, only IN, EXISTS and YIELD_ARRAY take the list of rows
+        parent_expression = expression.parent
+        while isinstance(parent_expression, sqlglot_expressions.Paren):
+            parent_expression = parent_expression.parent
+        if (isinstance(parent_expression, (sqlglot_expressions.In, sqlglot_expressions.Select, sqlglot_expressions.Alias))
+                or parent_expression.key.lower() == "exists"
+                or (isinstance(parent_expression, sqlglot_expressions.Anonymous) and parent_expression.name.lower() == "yield_array")):
+            return value_column
+        return ["@mysql::subquery_value", value_column]
+
     def compile_query_condition_column(self, expression, config, arguments, primary_table, join_tables, expression_column=None, join_index=-1):
         if not expression_column and self.is_column(expression, config, arguments):
             expression_column = self.parse_column(expression, config, arguments)
@@ -1838,9 +1850,10 @@ class Compiler(object):
             return [self.compile_calculate(distinct_expression, config, arguments, primary_table, column_join_tables, join_index)
                     for distinct_expression in expression.args["expressions"]]
         elif self.is_subquery(expression, config, arguments):
-            return self.compile_query_condition(expression, config, arguments, primary_table,
-                                                {column_join_table["name"]: column_join_table for column_join_table in column_join_tables},
-                                                None)
+            value_column = self.compile_query_condition(expression, config, arguments, primary_table,
+                                                        {column_join_table["name"]: column_join_table for column_join_table in column_join_tables},
+                                                        None)
+            return self.compile_subquery_value(expression, value_column)
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
         elif isinstance(expression, sqlglot_expressions.Between):
-- 
2.43.0


From b07cb243c5d34e1d6e753480c40f57c69c6463b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 048/183] fix: correlated subqueries evaluated inside a join
 see the outer row's columns

---
 syncanysql/compiler.py | 46 +++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 685fb6d..62bca23 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1094,12 +1094,29 @@ class Compiler(object):
             if not expression_column["table_name"] or expression_column["table_name"] == primary_table["table_name"]:
                 return self.compile_column(expression, config, arguments, expression_column)
 
+        calculate_fields = []
+        self.parse_calculate(expression, config, arguments, primary_table, calculate_fields)
+        calculate_fields = [calculate_field for calculate_field in calculate_fields if calculate_field["table_name"]
+                            and calculate_field["table_name"] != primary_table["table_name"]]
+        has_calculate_fields = bool(calculate_fields)
+
         def parse_calculate_expression(condition_expression):
             if hasattr(condition_expression, "syncany_valuer"):
                 return
             if not isinstance(condition_expression, sqlglot_expressions.Expression):
                 return
             if self.is_subquery(condition_expression, config, arguments):
+                if has_calculate_fields:
+                    # computed in the scope of the joined tables, which must include those it is correlated with
+                    _, subquery_join_parent_columns, subquery_interceptor_expressions = self.parse_subquery(
+                        condition_expression, config, arguments, primary_table, join_tables)
+                    subquery_calculate_fields = [join_parent_column["parent_column"] for join_parent_column
+                                                 in subquery_join_parent_columns.values()]
+                    for interceptor_expression in subquery_interceptor_expressions:
+                        self.parse_calculate(interceptor_expression, config, arguments, primary_table, subquery_calculate_fields)
+                    calculate_fields.extend([calculate_field for calculate_field in subquery_calculate_fields if calculate_field["table_name"]
+                                             and calculate_field["table_name"] != primary_table["table_name"]])
+                    return
                 condition_query_condition = self.compile_query_condition(condition_expression, config, arguments, primary_table, join_tables, None)
                 setattr(condition_expression, "syncany_valuer",
                         self.compile_subquery_value(condition_expression, condition_query_condition))
@@ -1118,10 +1135,6 @@ class Compiler(object):
                     parse_calculate_expression(child_expression)
         parse_calculate_expression(expression)
 
-        calculate_fields = []
-        self.parse_calculate(expression, config, arguments, primary_table, calculate_fields)
-        calculate_fields = [calculate_field for calculate_field in calculate_fields if calculate_field["table_name"]
-                            and calculate_field["table_name"] != primary_table["table_name"]]
         if not calculate_fields:
             return self.compile_calculate(expression, config, arguments, primary_table, [])
 
@@ -1138,7 +1151,11 @@ class Compiler(object):
         calculate_column = self.compile_calculate(expression, config, arguments, primary_table, column_join_tables)
         return self.compile_join_column(expression, config, arguments, primary_table, calculate_column, column_join_tables)
 
-    def compile_query_condition(self, expression, config, arguments, primary_table, join_tables, typing_filters):
+    def compile_query_condition(self, expression, config, arguments, primary_table, join_tables, typing_filters,
+                                column_join_tables=None, join_index=-1):
+        # column_join_tables: the joined tables in whose scope the value is computed, None outside of joins
+        scope_join_tables = column_join_tables or []
+
         def parse_subquery_select_column_name(subquery_config, exclude_keys=None):
             if isinstance(subquery_config["schema"], dict):
                 subquery_schema = subquery_config["schema"]
@@ -1162,8 +1179,12 @@ class Compiler(object):
                                    and func_expression.key.lower() in ("exists", "yield_array"))
         subquery_interceptor_column = None
         for interceptor_expression in subquery_interceptor_expressions[::-1]:
-            interceptor_column = self.compile_query_condition_column(interceptor_expression, config, arguments, primary_table,
-                                                                     join_tables, None, -2)
+            if scope_join_tables:
+                interceptor_column = self.compile_calculate(interceptor_expression, config, arguments, primary_table,
+                                                            scope_join_tables, join_index - 1)
+            else:
+                interceptor_column = self.compile_query_condition_column(interceptor_expression, config, arguments, primary_table,
+                                                                         join_tables, None, -2)
             if subquery_interceptor_column is None:
                 subquery_interceptor_column = ["#if", interceptor_column, ["#const", 1], ["#const", 0]]
             else:
@@ -1192,8 +1213,13 @@ class Compiler(object):
         join_keys, join_key_columns = [], []
         for _, join_parent_column in subquery_join_patent_columns.items():
             join_keys.append(join_parent_column["column_alias"])
-            join_key_columns.append(self.compile_query_condition_column(join_parent_column["parent_column"]["expression"], config, arguments,
-                                                                        primary_table, join_tables, join_parent_column["parent_column"]))
+            if scope_join_tables:
+                join_key_columns.append(self.compile_join_column_field(join_parent_column["parent_column"]["expression"], config, arguments,
+                                                                       primary_table, join_index, join_parent_column["parent_column"],
+                                                                       scope_join_tables))
+            else:
+                join_key_columns.append(self.compile_query_condition_column(join_parent_column["parent_column"]["expression"], config, arguments,
+                                                                            primary_table, join_tables, join_parent_column["parent_column"]))
         if is_not_extracting_value:
             column_name = "*"
         else:
@@ -1852,7 +1878,7 @@ class Compiler(object):
         elif self.is_subquery(expression, config, arguments):
             value_column = self.compile_query_condition(expression, config, arguments, primary_table,
                                                         {column_join_table["name"]: column_join_table for column_join_table in column_join_tables},
-                                                        None)
+                                                        None, column_join_tables, join_index)
             return self.compile_subquery_value(expression, value_column)
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
-- 
2.43.0


From 54aa90ba637ffdd828b04d038e7d07c0e7fb0a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 049/183] fix: IN @variable is evaluated wherever it is not
 pushed to the source

---
 syncanysql/compiler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 62bca23..75274fa 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1954,6 +1954,13 @@ class Compiler(object):
                     self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
                     value_items
                 ]
+            if isinstance(expression, sqlglot_expressions.In) and expression.args.get("field"):
+                return [
+                    "@mysql::in",
+                    self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
+                    ["@convert_array", self.compile_calculate(expression.args["field"], config, arguments, primary_table,
+                                                              column_join_tables, join_index)]
+                ]
             if expression.args.get("query"):
                 query_value_calculate = self.compile_calculate(expression.args["query"], config, arguments, primary_table, column_join_tables, join_index)
                 return [
-- 
2.43.0


From 23cef59d21fcb69d8dbc84b311f3d1c6221f9d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 050/183] fix: columns used beside an aggregate or window
 function in one expression keep their values

---
 syncanysql/compiler.py | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 75274fa..8eadbb5 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1385,6 +1385,16 @@ class Compiler(object):
                 setattr(aggregate_expressions[i], "syncany_valuer",
                         [final_calculate, "$." + column_alias + "." + aggregate_value_key]
                         if final_calculate else ("$." + column_alias + "." + aggregate_value_key))
+            # the result has no source columns, those used beside the aggregates are kept with their values
+            for column_expression in self.parse_unaggregate_columns(expression, config, arguments, aggregate_expressions):
+                aggregate_value_key = "value_%d" % id(column_expression)
+                value_column[1][aggregate_value_key] = self.compile_aggregate_value(expression, config, arguments, primary_table,
+                                                                                    join_tables, [column_expression])[0]
+                calculate_column[1][aggregate_value_key] = ["@aggregate_max::aggregate", "$." + column_alias + "." + aggregate_value_key,
+                                                            "$$.value." + aggregate_value_key]
+                reduce_column[1][aggregate_value_key] = ["@aggregate_max::reduce", "$." + column_alias + "." + aggregate_value_key,
+                                                         "$$." + column_alias + "." + aggregate_value_key]
+                setattr(column_expression, "syncany_valuer", "$." + column_alias + "." + aggregate_value_key)
             self.compile_select_calculate_column(expression, config, arguments, primary_table, column_alias,
                                                  join_tables, False)
             aggregate_column = {
@@ -1602,6 +1612,15 @@ class Compiler(object):
                 config["aggregate"]["window_schema"][column_alias]["aggregate"][aggregate_column_alias] = copy.deepcopy(window_aggregate_column)
 
         if not (len(window_expressions) == 1 and window_expressions[0] is expression):
+            # computed over the result row, source columns used beside the windows are added to it like the windows are
+            for column_expression in self.parse_unaggregate_columns(expression, config, arguments, window_expressions):
+                aggregate_column_alias = "__window_aggregate_value_%d__" % id(column_expression)
+                self.compile_select_calculate_column(column_expression, config, arguments, primary_table, aggregate_column_alias,
+                                                     join_tables, False)
+                primary_table["select_columns"].pop(aggregate_column_alias, None)
+                setattr(column_expression, "syncany_valuer", "$." + aggregate_column_alias)
+                config["aggregate"]["window_schema"][column_alias]["aggregate"][aggregate_column_alias] = \
+                    copy.deepcopy(config["schema"][aggregate_column_alias])
             self.compile_select_calculate_column(expression, config, arguments, primary_table, column_alias, join_tables, False)
             config["aggregate"]["window_schema"][column_alias]["final_value"] = config["schema"].pop(column_alias, None)
         primary_table["select_columns"][column_alias] = expression
@@ -2528,6 +2547,24 @@ class Compiler(object):
                     continue
                 self.parse_aggregate(child_expression, config, arguments, aggregate_expressions)
 
+    def parse_unaggregate_columns(self, expression, config, arguments, aggregate_expressions):
+        if not isinstance(expression, sqlglot_expressions.Expression) or hasattr(expression, "syncany_valuer"):
+            return []
+        if any(expression is aggregate_expression for aggregate_expression in aggregate_expressions):
+            return []
+        if self.is_column(expression, config, arguments):
+            column = self.parse_column(expression, config, arguments)
+            if not column["table_name"] and isinstance(config["schema"], dict) and column["column_name"] in config["schema"]:
+                return []
+            return [expression]
+        if self.is_subquery(expression, config, arguments) or self.is_const(expression, config, arguments):
+            return []
+        column_expressions = []
+        for child_expression in expression.args.values():
+            for child_expression_item in (child_expression if isinstance(child_expression, list) else [child_expression]):
+                column_expressions.extend(self.parse_unaggregate_columns(child_expression_item, config, arguments, aggregate_expressions))
+        return column_expressions
+
     def parse_window_aggregate(self, expression, config, arguments, window_aggregate_expressions):
         if self.is_window_aggregate(expression, config, arguments):
             window_aggregate_expressions.append(expression)
-- 
2.43.0


From bd76303a9ba6fd94de0b0153ef85e136e19584b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 051/183] fix: window ORDER BY with several keys orders by all
 of them

---
 syncanysql/calculaters/__init__.py          | 1 +
 syncanysql/calculaters/window_calculater.py | 6 ++++++
 syncanysql/compiler.py                      | 9 +++++++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/__init__.py b/syncanysql/calculaters/__init__.py
index 53b7ed9..5c2459c 100644
--- a/syncanysql/calculaters/__init__.py
+++ b/syncanysql/calculaters/__init__.py
@@ -36,6 +36,7 @@ SQL_CALCULATERS = {
     "group_bit_xor": AggregateGroupBitXorCalculater,
     "json_arrayagg": AggregateJsonArrayaggCalculater,
     "json_objectagg": AggregateJsonObjectaggCalculater,
+    "window_order_key": WindowOrderKeyCalculater,
     "row_number": WindowAggregateRowNumberCalculater,
     "rank": WindowAggregateRankCalculater,
     "dense_rank": WindowAggregateDenseRankCalculater,
diff --git a/syncanysql/calculaters/window_calculater.py b/syncanysql/calculaters/window_calculater.py
index e3ed1f6..d302b43 100644
--- a/syncanysql/calculaters/window_calculater.py
+++ b/syncanysql/calculaters/window_calculater.py
@@ -4,9 +4,15 @@
 
 from syncany.calculaters.calculater import Calculater
 from syncany.filters import IntFilter, FloatFilter
+from syncany.utils import CmpValue
 from ..errors import SyncanySqlExecutorException
 
 
+class WindowOrderKeyCalculater(Calculater):
+    def calculate(self, order_value, desc=False):
+        return CmpValue(order_value, desc)
+
+
 class WindowAggregateCalculater(Calculater):
     def __init__(self, *args, **kwargs):
         super(WindowAggregateCalculater, self).__init__(*args, **kwargs)
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 8eadbb5..8ab5c45 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1670,8 +1670,13 @@ class Compiler(object):
             order_key = self.generate_sql(order_expression.args["this"])
             orders.append([order_key, order_expression.args.get("desc")])
             value_order_expressions.append(order_expression.args["this"])
-        return {"valuer": self.compile_window_key(value_order_expressions, config, arguments,
-                                                  primary_table, join_tables), "orders": orders}
+        order_column = self.compile_window_key(value_order_expressions, config, arguments, primary_table, join_tables)
+        if len(orders) > 1:
+            # each key compares by its own direction, so that the whole key sorts as one value
+            order_column = [["@window_order_key", valuer, ["#const", bool(desc)]]
+                            for valuer, (order_key, desc) in zip(order_column, orders)]
+            orders = [["order_key", False]]
+        return {"valuer": order_column, "orders": orders}
 
     def compile_window_value(self, expression, config, arguments, primary_table, join_tables, value_expressions):
         if isinstance(expression, sqlglot_expressions.Count) and isinstance(expression.args["this"],
-- 
2.43.0


From 019098cfdff4e55467aa9e7d9961b568d5cdacc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 052/183] fix: running GROUP_ARRAY over a window keeps each
 row's own list

---
 syncanysql/calculaters/aggregate_calculater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index 6c5bf5f..f7373de 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -263,7 +263,7 @@ class AggregateGroupArrayCalculater(StateAggregateCalculater):
     def final_value(self, state_value):
         if state_value is None:
             return []
-        return state_value
+        return list(state_value)
 
     def get_final_filter(self):
         return FloatFilter.default()
-- 
2.43.0


From 885cf61587eee35527204c3c9415f8eb19b8e9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 053/183] fix: windows partitioned by different columns do not
 share partitions

---
 syncanysql/compiler.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 8ab5c45..8468971 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1574,9 +1574,14 @@ class Compiler(object):
             value_column = self.compile_window_value(window_expression.args["this"], config, arguments, primary_table,
                                                      join_tables, value_expressions) if value_expressions else None
             is_window_aggregate_calculate, aggregate_calculate, final_calculate = self.compile_window_calculate(window_expression)
-            partition_calculate = "$.partition_key" if partition_column is not None else None
+            # windows partitioned or ordered by different columns must not share their partitions
+            window_key = uuid.uuid5(uuid.NAMESPACE_OID, "%s %s" % (
+                ", ".join(self.generate_sql(key_expression) for key_expression in partition_expression or []),
+                self.generate_sql(order_expression) if order_expression else "")).hex
+            partition_key, order_key = "partition_key_" + window_key, "order_key_" + window_key
+            partition_calculate = ("$." + partition_key) if partition_column is not None else None
             if order_column is not None:
-                order_calculate = {"valuer": "$.order_key", "orders": order_column["orders"]}
+                order_calculate = {"valuer": "$." + order_key, "orders": order_column["orders"]}
             elif is_window_aggregate_calculate:
                 order_calculate = {"valuer": ["#const", 0], "orders": []}
             else:
@@ -1592,10 +1597,10 @@ class Compiler(object):
                 aggregate_calculate.append([":" + final_calculate, "$.*"])
             window_aggregate_column = ["#make", {}, aggregate_calculate]
             if partition_column is not None:
-                window_aggregate_column[1]["partition_key"] = partition_column[0] \
+                window_aggregate_column[1][partition_key] = partition_column[0] \
                     if len(partition_column) == 1 else ["#make", partition_column, [":@aggregate_key", "$.*"]]
             if order_column is not None:
-                window_aggregate_column[1]["order_key"] = order_column["valuer"][0] \
+                window_aggregate_column[1][order_key] = order_column["valuer"][0] \
                     if len(order_column["valuer"]) == 1 else ["#make", order_column["valuer"], [":@aggregate_key", "$.*"]]
             if value_column is not None:
                 window_aggregate_column[1]["value"] = value_column[0] if len(value_column) == 1 else ["#make", value_column]
-- 
2.43.0


From e96ec5e48f060687175a963fd93d92f3c4558cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:10 +0000
Subject: [PATCH 054/183] fix: named windows work in queries with joins

---
 syncanysql/compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 8468971..f6378e3 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3221,6 +3221,8 @@ class Compiler(object):
             sql.append(self.generate_sql(expression.args["group"]))
         if expression.args.get("having"):
             sql.append(self.generate_sql(expression.args["having"]))
+        if expression.args.get("windows"):
+            sql.append("WINDOW " + ", ".join([self.generate_sql(window_expression) for window_expression in expression.args["windows"]]))
         if expression.args.get("order"):
             sql.append(self.generate_sql(expression.args["order"]))
         if expression.args.get("limit"):
@@ -3321,6 +3323,8 @@ class Compiler(object):
             sql.append(self.generate_sql(expression.args["group"]))
         if expression.args.get("having"):
             sql.append(self.generate_sql(expression.args["having"]))
+        if expression.args.get("windows"):
+            sql.append("WINDOW " + ", ".join([self.generate_sql(window_expression) for window_expression in expression.args["windows"]]))
         if expression.args.get("order"):
             sql.append(self.generate_sql(expression.args["order"]))
         if expression.args.get("limit"):
@@ -3381,6 +3385,8 @@ class Compiler(object):
             sql.append(self.generate_sql(expression.args["group"]))
         if expression.args.get("having"):
             sql.append(self.generate_sql(expression.args["having"]))
+        if expression.args.get("windows"):
+            sql.append("WINDOW " + ", ".join([self.generate_sql(window_expression) for window_expression in expression.args["windows"]]))
         if expression.args.get("order"):
             sql.append(self.generate_sql(expression.args["order"]))
         if expression.args.get("limit"):
-- 
2.43.0


From 8c9ef25a59a3aa13f856291f00b4369415ca8a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 055/183] fix: windows in a query with joins no column refers
 to see the joined rows

---
 syncanysql/compiler.py | 39 +++++----------------------------------
 1 file changed, 5 insertions(+), 34 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index f6378e3..cdaec27 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1454,8 +1454,8 @@ class Compiler(object):
                                                          calculate_column, column_join_tables))
         return group_column
 
-    def compile_aggregate_value(self, expression, config, arguments, primary_table, join_tables, value_expressions):
-        unselected_table_names = self.pop_unselected_join_tables(primary_table, True)
+    def compile_aggregate_value(self, expression, config, arguments, primary_table, join_tables, value_expressions, is_aggregate=True):
+        unselected_table_names = self.pop_unselected_join_tables(primary_table, is_aggregate)
 
         def compile_const_value(value):
             if not unselected_table_names:
@@ -1572,7 +1572,8 @@ class Compiler(object):
             order_column = self.compile_window_order(order_expression, config, arguments, primary_table,
                                                      join_tables) if order_expression else None
             value_column = self.compile_window_value(window_expression.args["this"], config, arguments, primary_table,
-                                                     join_tables, value_expressions) if value_expressions else None
+                                                     join_tables, value_expressions) \
+                if value_expressions or primary_table.get("unselected_join_tables") else None
             is_window_aggregate_calculate, aggregate_calculate, final_calculate = self.compile_window_calculate(window_expression)
             # windows partitioned or ordered by different columns must not share their partitions
             window_key = uuid.uuid5(uuid.NAMESPACE_OID, "%s %s" % (
@@ -1684,37 +1685,7 @@ class Compiler(object):
         return {"valuer": order_column, "orders": orders}
 
     def compile_window_value(self, expression, config, arguments, primary_table, join_tables, value_expressions):
-        if isinstance(expression, sqlglot_expressions.Count) and isinstance(expression.args["this"],
-                                                                            sqlglot_expressions.Star):
-            return [["#const", 0]]
-        if not value_expressions:
-            return [["#const", None]]
-
-        value_column = []
-        for value_expression in value_expressions:
-            calculate_fields = []
-            self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
-            calculate_fields = [calculate_field for calculate_field in calculate_fields if calculate_field["table_name"]
-                                and calculate_field["table_name"] != primary_table["table_name"]]
-            if not calculate_fields:
-                value_column.append(self.compile_calculate(value_expression, config, arguments, primary_table, []))
-                continue
-
-            column_join_tables = []
-            calculate_table_names = set([])
-            for calculate_field in calculate_fields:
-                if calculate_field["table_name"] not in join_tables:
-                    raise SyncanySqlCompileException('error join column, join table %s unknown, related sql "%s"' %
-                                                     (calculate_field["table_name"], self.to_sql(value_expression)))
-                calculate_table_names.add(calculate_field["table_name"])
-            self.compile_join_column_tables(value_expression, config, arguments, primary_table,
-                                            [join_tables[calculate_table_name] for calculate_table_name in
-                                             calculate_table_names], join_tables, column_join_tables)
-            calculate_column = self.compile_calculate(value_expression, config, arguments, primary_table,
-                                                      column_join_tables)
-            value_column.append(self.compile_join_column(value_expression, config, arguments, primary_table,
-                                                         calculate_column, column_join_tables))
-        return value_column
+        return self.compile_aggregate_value(expression, config, arguments, primary_table, join_tables, value_expressions, False)
 
     def compile_window_calculate(self, expression):
         if isinstance(expression.args["this"], sqlglot_expressions.RowNumber):
-- 
2.43.0


From 59a70df160837ab7a4176001cc4890b6a3a7bee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 056/183] fix: aggregates of a constant in a query with joins
 no column refers to

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index cdaec27..4d074c5 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1494,6 +1494,8 @@ class Compiler(object):
                                              calculate_table_names], join_tables, column_join_tables)
             calculate_column = self.compile_calculate(value_expression, config, arguments, primary_table,
                                                       column_join_tables)
+            if self.is_const(value_expression, config, arguments):
+                calculate_column = ["#if", ["#const", True], calculate_column, calculate_column]
             value_column.append(self.compile_join_column(value_expression, config, arguments, primary_table,
                                                          calculate_column, column_join_tables))
         return value_column
-- 
2.43.0


From 38e9e2224d8e4b180635841342bede3300d50a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 057/183] fix: correlated subqueries aggregating in steps (AVG,
 COUNT DISTINCT, batches) return their rows

---
 syncanysql/calculaters/query_tasker_calculater.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/query_tasker_calculater.py b/syncanysql/calculaters/query_tasker_calculater.py
index 1c4706a..867a727 100644
--- a/syncanysql/calculaters/query_tasker_calculater.py
+++ b/syncanysql/calculaters/query_tasker_calculater.py
@@ -16,6 +16,7 @@ class ExecuteQueryTaskerCalculater(LoaderCalculater):
         self.executor = None
         self.tasker = None
         self.tasker_index = 0
+        self.collection_name = None
 
     def start(self, tasker, loader, arguments, task_config, **kwargs):
         current_tasker = _thread_local.current_tasker
@@ -44,7 +45,8 @@ class ExecuteQueryTaskerCalculater(LoaderCalculater):
                         if not key or not isinstance(key, str):
                             continue
                         executor.env_variables["@" + key] = value
-                database, collection_name = self.tasker.tasker.outputer.db, self.tasker.tasker.outputer.name
+                # aggregated in steps the tasker itself outputs into an intermediate collection
+                database, collection_name = self.tasker.tasker.outputer.db, self.collection_name
                 executor.execute()
                 query = database.query(collection_name, ["id"])
                 datas = query.commit()
@@ -64,7 +66,8 @@ class ExecuteQueryTaskerCalculater(LoaderCalculater):
             self.tasker_index = current_executor.distribute_tasker_index()
         with Executor(current_executor.manager, current_executor.session_config, current_executor) as executor:
             config = copy.deepcopy(self.config)
-            config["output"] = "&.--.__queryTasker_" + str(id(executor)) + "::" + config["output"].split("::")[-1]
+            self.collection_name = "--.__queryTasker_" + str(id(executor))
+            config["output"] = "&." + self.collection_name + "::" + config["output"].split("::")[-1]
             config["name"] = config["name"] + "#queryTasker"
             tasker = QueryTasker(config, is_inner_subquery=True)
             tasker.tasker_index = self.tasker_index
-- 
2.43.0


From 408fd205310e5ddb80cb0c41aa002eec30142773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:26 +0000
Subject: [PATCH 058/183] fix: a failing correlated subquery leaves no
 temporary rows

---
 syncanysql/calculaters/query_tasker_calculater.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/syncanysql/calculaters/query_tasker_calculater.py b/syncanysql/calculaters/query_tasker_calculater.py
index 867a727..c975493 100644
--- a/syncanysql/calculaters/query_tasker_calculater.py
+++ b/syncanysql/calculaters/query_tasker_calculater.py
@@ -47,12 +47,13 @@ class ExecuteQueryTaskerCalculater(LoaderCalculater):
                         executor.env_variables["@" + key] = value
                 # aggregated in steps the tasker itself outputs into an intermediate collection
                 database, collection_name = self.tasker.tasker.outputer.db, self.collection_name
-                executor.execute()
-                query = database.query(collection_name, ["id"])
-                datas = query.commit()
-                delete = database.delete(collection_name, ["id"])
-                delete.commit()
-                return datas
+                try:
+                    executor.execute()
+                    query = database.query(collection_name, ["id"])
+                    return query.commit()
+                finally:
+                    delete = database.delete(collection_name, ["id"])
+                    delete.commit()
         finally:
             self.executor, self.tasker = None, None
             _thread_local.current_tasker = current_tasker
-- 
2.43.0


From fadbd010b244baba772540845b6bfbebf0536f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 059/183] fix: correlated subqueries selecting an expression
 over aggregates are evaluated for every outer row

---
 syncanysql/compiler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 4d074c5..f0b3443 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2705,9 +2705,10 @@ class Compiler(object):
         for select_expression in sub_expression.args["expressions"]:
             select_sql.append(self.generate_sql(select_expression))
             if not has_aggregate_column:
-                has_aggregate_column = self.is_aggregate(select_expression.args["this"] if isinstance(select_expression,
-                                                                                         sqlglot_expressions.Alias) else select_expression,
-                                                         config, arguments)
+                aggregate_expressions = []
+                self.parse_aggregate(select_expression.args["this"] if isinstance(select_expression, sqlglot_expressions.Alias) else select_expression,
+                                     config, arguments, aggregate_expressions)
+                has_aggregate_column = bool(aggregate_expressions)
         for _, join_parent_column in join_parent_columns.items():
             select_sql.append(self.generate_sql(join_parent_column["current_expression"]) + " AS " + join_parent_column["column_alias"])
         for _, join_select_column in join_select_columns.items():
-- 
2.43.0


From 51105d4124dbc48dd5326bd95f3a07310642092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 060/183] fix: correlated subqueries over more keys than the
 join batch

---
 syncanysql/calculaters/query_tasker_calculater.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/calculaters/query_tasker_calculater.py b/syncanysql/calculaters/query_tasker_calculater.py
index c975493..ef74c6f 100644
--- a/syncanysql/calculaters/query_tasker_calculater.py
+++ b/syncanysql/calculaters/query_tasker_calculater.py
@@ -28,6 +28,8 @@ class ExecuteQueryTaskerCalculater(LoaderCalculater):
                 if key[:knl] != kn:
                     continue
                 self.arguments[key[knl:]] = value
+            # the loader cannot split its keys over several executions of the subquery
+            loader.join_batch = 0xffffffff
             self.create_executor_tasker()
         finally:
             _thread_local.current_tasker = current_tasker
-- 
2.43.0


From 7ce572edb18ec79109d43dc9989764c1bfbd21ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:41 +0000
Subject: [PATCH 061/183] fix: streaming queries finish their aggregates

---
 syncanysql/taskers/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index e59385e..d10e072 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -131,7 +131,7 @@ class QueryTasker(object):
             elif [aggregate_column["final_value"] for aggregate_column in aggregate["window_schema"].values()
                   if aggregate_column["final_value"]]:
                 require_reduce = True
-        if require_reduce and isinstance(self.config["schema"], dict) and not arguments.get("@streaming"):
+        if require_reduce and isinstance(self.config["schema"], dict):
             if not aggregate:
                 aggregate = copy.deepcopy(DEAULT_AGGREGATE)
             self.compile_reduce_config(aggregate)
-- 
2.43.0


From 4dcbe6f5edd5f8b48756222a334d1145a8c9b967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:59 +0000
Subject: [PATCH 062/183] fix: columns computed over windows keep their
 position in the result

---
 syncanysql/taskers/query.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index d10e072..05ede7f 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -336,21 +336,30 @@ class QueryTasker(object):
         self.config.pop("outputer_arguments", None)
         self.reduce_config = config
 
+    def compile_final_schema(self, schema, aggregate):
+        window_keys = {}
+        for key, column in aggregate["window_schema"].items():
+            if isinstance(column["aggregate"], dict):
+                for window_aggregate_key in column["aggregate"]:
+                    window_keys[window_aggregate_key] = key
+
+        final_schema = {}
+        for key in schema:
+            if key == "_aggregate_key_":
+                continue
+            if key in window_keys:
+                final_schema[window_keys[key]] = aggregate["window_schema"][window_keys[key]]["final_value"]
+            elif key in aggregate["schema"] and aggregate["schema"][key]["final_value"]:
+                final_schema[key] = aggregate["schema"][key]["final_value"]
+            else:
+                final_schema[key] = "$." + key
+        return final_schema
+
     def run_reduce(self, executor, session_config, manager, arguments, final_reduce=False):
         config, arguments = copy.deepcopy(self.reduce_config), copy.deepcopy(arguments)
         aggregate = config.pop("aggregate", None)
         if final_reduce:
-            config["schema"].pop("_aggregate_key_", None)
-            for key, column in config["schema"].items():
-                if key in aggregate["schema"] and aggregate["schema"][key]["final_value"]:
-                    config["schema"][key] = aggregate["schema"][key]["final_value"]
-                else:
-                    config["schema"][key] = "$." + key
-            for key, column in aggregate["window_schema"].items():
-                if isinstance(column["aggregate"], dict):
-                    for window_aggregate_key in column["aggregate"]:
-                        config["schema"].pop(window_aggregate_key, None)
-                    config["schema"][key] = column["final_value"]
+            config["schema"] = self.compile_final_schema(config["schema"], aggregate)
             config["name"] = config["name"] + "#select@final"
         else:
             config["output"] = config["input"] + " use DI"
-- 
2.43.0


From 2489a8e60ff22124c5c580b407e4eaaf4d562dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:21 +0000
Subject: [PATCH 063/183] fix: SELECT INTO of aggregates computed in batches
 assigns the finished value

---
 syncanysql/taskers/into.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/syncanysql/taskers/into.py b/syncanysql/taskers/into.py
index 3a8c0e9..bab6a1a 100644
--- a/syncanysql/taskers/into.py
+++ b/syncanysql/taskers/into.py
@@ -7,6 +7,7 @@ class IntoTasker(object):
     def __init__(self, tasker, config):
         self.tasker = tasker
         self.config = config
+        self.collection_name = None
 
     def start(self, name, executor, session_config, manager, arguments):
         for variable in self.config["variables"]:
@@ -14,7 +15,8 @@ class IntoTasker(object):
                 executor.env_variables.get_value(variable)
             except KeyError:
                 executor.env_variables[variable] = None
-        self.tasker.config["output"] = "&.--.__into_" + str(id(self)) + "::" + self.tasker.config["output"].split("::")[-1]
+        self.collection_name = "--.__into_" + str(id(self))
+        self.tasker.config["output"] = "&." + self.collection_name + "::" + self.tasker.config["output"].split("::")[-1]
         self.tasker.config["name"] = self.tasker.config["name"] + "#into"
         self.tasker.start(name, executor, session_config, manager, arguments)
         return [self]
@@ -25,8 +27,11 @@ class IntoTasker(object):
             if not core_tasker:
                 return 1
             database = core_tasker.outputer.db
-            name = core_tasker.outputer.name
-            schema_keys = tuple(core_tasker.schema.keys()) if isinstance(core_tasker.schema, dict) else None
+            name, reduce_config = self.collection_name, self.tasker.reduce_config
+            if reduce_config:
+                schema_keys = tuple(self.tasker.compile_final_schema(reduce_config["schema"], reduce_config["aggregate"]).keys())
+            else:
+                schema_keys = tuple(core_tasker.schema.keys()) if isinstance(core_tasker.schema, dict) else None
             try:
                 self.tasker.run(executor, session_config, manager)
 
-- 
2.43.0


From 2817c4662d1d8d17b135aeadfd1d75860cdca4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:29 +0000
Subject: [PATCH 064/183] fix: the @limit setting bounds result rows, not the
 rows read from the sources

---
 syncanysql/compiler.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index f0b3443..6fae89b 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -161,6 +161,7 @@ class Compiler(object):
         if isinstance(expression, sqlglot_expressions.Delete):
             return DeleteTasker(self.compile_delete(expression, arguments))
         elif isinstance(expression, (sqlglot_expressions.Union, sqlglot_expressions.Insert, sqlglot_expressions.Select)):
+            self.compile_limit_argument(expression, arguments)
             query_tasker = QueryTasker(self.compile_query(expression, arguments), expression)
             if not expression.args.get("into"):
                 return query_tasker
@@ -201,6 +202,16 @@ class Compiler(object):
                 return SetCommandTasker(config)
         raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
 
+    def compile_limit_argument(self, expression, arguments):
+        # limits the rows of the result, not the rows read from the sources
+        limit_value = int(arguments.pop("@limit", 0) or 0)
+        arguments["@limit"] = 0
+        if isinstance(expression, sqlglot_expressions.Insert):
+            expression = expression.args.get("expression")
+        if limit_value > 0 and isinstance(expression, (sqlglot_expressions.Union, sqlglot_expressions.Select)) \
+                and not expression.args.get("limit"):
+            expression.set("limit", sqlglot_expressions.Limit(expression=sqlglot_expressions.Literal.number(limit_value)))
+
     def compile_delete(self, expression, arguments):
         config = self.config.create_tasker_config()
         config.update({
-- 
2.43.0


From a25efa1bc97edfd998bb17c7f618506fcec4f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 065/183] fix: JSON functions do not modify the document they
 are given

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 4bc6b4d..54f4553 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -2,6 +2,7 @@
 # 2023/3/14
 # create by: snower
 
+import copy
 import json
 from syncany.calculaters import typing_filter
 
@@ -190,6 +191,8 @@ def json_array_append(json_doc, *path_vals):
             json_doc = json.loads(json_doc)
         except:
             pass
+    else:
+        json_doc = copy.deepcopy(json_doc)
     for i in range(int(len(path_vals) / 2)):
         json_value = get_json_path_value(json_doc, path_vals[i * 2])
         if isinstance(json_value, list):
@@ -248,6 +251,8 @@ def mysql_json_set(json_doc, *path_vals):
             json_doc = json.loads(json_doc)
         except:
             pass
+    else:
+        json_doc = copy.deepcopy(json_doc)
     for i in range(int(len(path_vals) / 2)):
         if not isinstance(json_doc, ArrayObjectTypes):
             json_doc = set_json_path_value(json_doc, path_vals[i * 2], path_vals[i * 2 + 1])
@@ -261,6 +266,8 @@ def mysql_json_remove(json_doc, *paths):
             json_doc = json.loads(json_doc)
         except:
             pass
+    else:
+        json_doc = copy.deepcopy(json_doc)
     for path in paths:
         remove_json_path_value(json_doc, path)
     return json_doc
-- 
2.43.0


From 4e8a9d144f9c330d94bcb757cfe1692dcf848163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:12 +0000
Subject: [PATCH 066/183] fix: rows given to and returned by the host API are
 independent of the stored rows

---
 syncanysql/__init__.py | 7 ++++---
 syncanysql/utils.py    | 6 ++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index 469a9f6..dcaf3dd 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -20,6 +20,7 @@ from syncany.errors import DatabaseUnknownException
 from .version import version, version_info
 from .parser import SqlParser, SqlSegment, FileParser
 from .config import GlobalConfig
+from .utils import copy_rows
 from .executor import Executor
 from .calculaters import GenerateCalculater, AggregateCalculater, StateAggregateCalculater, \
     WindowAggregateCalculater, WindowStateAggregateCalculater
@@ -169,21 +170,21 @@ class ScriptEngine(object):
             return []
         database = self.get_database("--")
         query = database.query("--." + name, ["id"])
-        return query.commit()
+        return copy_rows(query.commit())
 
     def pop_memory_datas(self, name):
         if self.manager is None:
             return []
         database = self.get_database("--")
         query = database.query("--." + name, ["id"])
-        datas = query.commit()
+        datas = copy_rows(query.commit())
         delete = database.delete("--." + name, ["id"])
         delete.commit()
         return datas
 
     def push_memory_datas(self, name, datas):
         database = self.get_database("--")
-        insert = database.insert("--." + name, ["id"], datas=datas if isinstance(datas, list) else [datas])
+        insert = database.insert("--." + name, ["id"], datas=copy_rows(datas if isinstance(datas, list) else [datas]))
         insert.commit()
 
     def terminal(self):
diff --git a/syncanysql/utils.py b/syncanysql/utils.py
index 46ad419..3af785a 100644
--- a/syncanysql/utils.py
+++ b/syncanysql/utils.py
@@ -2,6 +2,7 @@
 # 2023/2/19
 # create by: snower
 
+import copy
 from decimal import Decimal
 import datetime
 import os
@@ -28,6 +29,11 @@ def unescape_string(value):
     return "".join(escape_values)
 
 
+def copy_rows(rows):
+    return [{key: copy.deepcopy(value) if isinstance(value, (list, dict, set)) else value for key, value in row.items()}
+            if isinstance(row, dict) else row for row in rows]
+
+
 def parse_value(value):
     value = value.strip()
     if not value:
-- 
2.43.0


From ce916f1cfbfecb18cd6f72840bce37d8a5cd99b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 067/183] fix: a table filled by SELECT * does not share its
 rows with the source

---
 syncanysql/taskers/query.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 05ede7f..554c1c3 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -13,6 +13,7 @@ from syncany.taskers.core import CoreTasker
 from syncany.hook import Hooker
 from syncany.taskers.tasker import _thread_local
 from syncany.main import TaskerYieldNext, warp_database_logging
+from ..utils import copy_rows
 
 
 DEAULT_AGGREGATE = {"key": None, "schema": {}, "window_schema": {}, "having_columns": set([]),
@@ -52,6 +53,11 @@ class ReduceHooker(Hooker):
         self.tasker.run_reduce(self.executor, self.session_config, self.manager, self.arguments, False)
 
 
+class CopyRowsHooker(Hooker):
+    def loaded(self, tasker, datas):
+        return copy_rows(datas)
+
+
 class QueryTaskerTemporaryMemoryManager(object):
     def __init__(self):
         self.collections = defaultdict(int)
@@ -146,6 +152,9 @@ class QueryTasker(object):
         if self.reduce_config and "_aggregate_key_" in self.reduce_config["schema"]:
             tasker.add_hooker(ReduceHooker(executor, session_config, manager, arguments,
                                            self, copy.deepcopy(self.config), batch, aggregate))
+        if self.config["schema"] == "$.*" and self.config["output"].startswith("&.--."):
+            # rows selected as they are must not be shared by two tables
+            tasker.add_hooker(CopyRowsHooker())
         arguments = self.compile_tasker(arguments, tasker)
         self.tasker, self.dependency_taskers, self.arguments = tasker, dependency_taskers, arguments
         return [self]
-- 
2.43.0


From 103e2bb71093c304d48bc2b0d101e5ced4916764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 068/183] fix: a variable assigned by SELECT INTO does not
 share nested values with the source

---
 syncanysql/taskers/into.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/taskers/into.py b/syncanysql/taskers/into.py
index bab6a1a..42c7dc4 100644
--- a/syncanysql/taskers/into.py
+++ b/syncanysql/taskers/into.py
@@ -2,6 +2,8 @@
 # 2023/3/17
 # create by: snower
 
+from ..utils import copy_rows
+
 
 class IntoTasker(object):
     def __init__(self, tasker, config):
@@ -36,7 +38,7 @@ class IntoTasker(object):
                 self.tasker.run(executor, session_config, manager)
 
                 query = database.query(name, ["id"])
-                datas = query.commit()
+                datas = copy_rows(query.commit())
             finally:
                 delete = database.delete(name, ["id"])
                 delete.commit()
-- 
2.43.0


From b9e2ab7a80162d02d47431ab988d1325592d31fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 069/183] fix: functions called without their optional
 arguments use the defaults

---
 syncanysql/calculaters/mysql_calculater.py         | 2 +-
 syncanysql/calculaters/mysql_funcs/number_funcs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_calculater.py b/syncanysql/calculaters/mysql_calculater.py
index dd43b1b..78ff29a 100644
--- a/syncanysql/calculaters/mysql_calculater.py
+++ b/syncanysql/calculaters/mysql_calculater.py
@@ -26,7 +26,7 @@ class MysqlCalculater(Calculater):
         if func is not None and isinstance(func, types.FunctionType):
             try:
                 argcount, varnames_count = func.__code__.co_argcount, len(func.__code__.co_varnames)
-                if argcount == varnames_count:
+                if argcount == varnames_count and not func.__defaults__:
                     if argcount == 0:
                         self.calculate = self.calculate0
                     elif argcount == 1:
diff --git a/syncanysql/calculaters/mysql_funcs/number_funcs.py b/syncanysql/calculaters/mysql_funcs/number_funcs.py
index fa94dba..83d3162 100644
--- a/syncanysql/calculaters/mysql_funcs/number_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/number_funcs.py
@@ -206,7 +206,7 @@ def mysql_rand():
     return random.random()
 
 @typing_filter(float)
-def mysql_round(x, y=2):
+def mysql_round(x, y=0):
     if x is None or y is None:
         return None
     try:
-- 
2.43.0


From 3fca4edfd35a90261050e7f6548dd683cae6960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 070/183] fix: BIN, OCT and HEX give the digits MySQL gives

---
 .../calculaters/mysql_funcs/string_funcs.py   | 25 +++++++------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 11a6446..e0e8b70 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -6,31 +6,24 @@ import socket
 import base64
 import binascii
 from syncany.calculaters import typing_filter
-from ...utils import NumberTypes, ensure_str
+from ...utils import NumberTypes, ensure_int, ensure_str
+
+def format_unsigned(x, base):
+    return format(ensure_int(x) & 0xffffffffffffffff, base)
 
 @typing_filter(str)
 def mysql_bin(x):
-    if isinstance(x, NumberTypes):
-        return bin(int(x))
     if x is None:
         return None
-    if x is True:
-        return bin(1)
-    if not x:
-        return bin(0)
-    return bin(x)
+    return format_unsigned(x, "b")
 
 @typing_filter(str)
 def mysql_hex(x):
-    if isinstance(x, NumberTypes):
-        return hex(int(x))
     if x is None:
         return None
-    if x is True:
-        return hex(1)
-    if not x:
-        return hex(0)
-    return binascii.b2a_hex(x.encode("utf-8")).decode("utf-8")
+    if isinstance(x, NumberTypes):
+        return format_unsigned(x, "X")
+    return binascii.b2a_hex(x if isinstance(x, bytes) else ensure_str(x).encode("utf-8")).decode("utf-8").upper()
 
 @typing_filter(str)
 def mysql_unhex(x):
@@ -42,7 +35,7 @@ def mysql_unhex(x):
 def mysql_oct(x):
     if x is None:
         return None
-    return oct(x)[2:]
+    return format_unsigned(x, "o")
 
 @typing_filter(int)
 def mysql_ord(x):
-- 
2.43.0


From c97f34dfe0ea95d9c031338703e0730d25955a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 071/183] fix: bitwise operators bind as tightly as in MySQL

---
 syncanysql/compiler.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 6fae89b..6e9373c 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -69,6 +69,28 @@ class CompilerDialect(sqlglot_dialects.Dialect):
                 if token_type != sqlglot_parser.TokenType.MOD}
         FACTOR = {**sqlglot_parser.Parser.FACTOR, sqlglot_parser.TokenType.MOD: sqlglot_expressions.Mod}
 
+        BITWISE_AND = {sqlglot_parser.TokenType.AMP: sqlglot_expressions.BitwiseAnd}
+        BITWISE_OR = {sqlglot_parser.TokenType.PIPE: sqlglot_expressions.BitwiseOr,
+                      sqlglot_parser.TokenType.DPIPE: sqlglot_expressions.DPipe}
+        BITWISE_XOR = {sqlglot_parser.TokenType.CARET: sqlglot_expressions.BitwiseXor}
+
+        def _parse_factor(self):
+            return self._parse_tokens(lambda: self._parse_tokens(self._parse_unary, self.BITWISE_XOR), self.FACTOR)
+
+        def _parse_bitwise_shift(self):
+            this = self._parse_term()
+            while True:
+                if self._match_pair(sqlglot_parser.TokenType.LT, sqlglot_parser.TokenType.LT):
+                    expression_class = sqlglot_expressions.BitwiseLeftShift
+                elif self._match_pair(sqlglot_parser.TokenType.GT, sqlglot_parser.TokenType.GT):
+                    expression_class = sqlglot_expressions.BitwiseRightShift
+                else:
+                    return this
+                this = self.expression(expression_class, this=this, expression=self._parse_term())
+
+        def _parse_bitwise(self):
+            return self._parse_tokens(lambda: self._parse_tokens(self._parse_bitwise_shift, self.BITWISE_AND), self.BITWISE_OR)
+
         def _parse_conjunction(self):
             return self._parse_tokens(lambda: self._parse_tokens(self._parse_equality, self.CONJUNCTION), self.DISJUNCTION)
 
-- 
2.43.0


From e2714655b7ab8f4987b1d2214ca2cf75ecbc652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 072/183] fix: LOG converts its base to a number

---
 syncanysql/calculaters/mysql_funcs/number_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/number_funcs.py b/syncanysql/calculaters/mysql_funcs/number_funcs.py
index 83d3162..3c28763 100644
--- a/syncanysql/calculaters/mysql_funcs/number_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/number_funcs.py
@@ -172,7 +172,7 @@ def mysql_log(x, base=10):
     try:
         return math.log(x, base)
     except:
-        return math.log(ensure_number(x), base)
+        return math.log(ensure_number(x), ensure_number(base))
 
 @typing_filter(int)
 def mysql_ceil(x):
-- 
2.43.0


From 312098b4817a4751bfee8d73bf36dbdc5eb2c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 073/183] fix: ASCII and ORD give the code of the first
 character

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index e0e8b70..5747e50 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -41,13 +41,15 @@ def mysql_oct(x):
 def mysql_ord(x):
     if x is None:
         return None
-    return ord(ensure_str(x))
+    x = ensure_str(x)
+    return ord(x[0]) if x else 0
 
 @typing_filter(str)
 def mysql_ascii(s):
     if s is None:
         return None
-    return sum([ord(c) for c in ensure_str(s)])
+    s = ensure_str(s).encode("utf-8")
+    return s[0] if s else 0
 
 @typing_filter(str)
 def mysql_char(*args):
-- 
2.43.0


From 8a3d2d215fdfaa6fbec3ce672d11e0d51a4ebbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 074/183] fix: CHAR skips NULL arguments

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 5747e50..68c28d6 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -53,7 +53,7 @@ def mysql_ascii(s):
 
 @typing_filter(str)
 def mysql_char(*args):
-    return "".join([chr(arg) for arg in args])
+    return "".join([chr(ensure_int(arg)) for arg in args if arg is not None])
 
 @typing_filter(int)
 def mysql_bit_length(s):
-- 
2.43.0


From e178f87c580605314b087a93dc03fc74b473a719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 075/183] fix: LENGTH, BIT_LENGTH, CRC32 and the base64
 functions take any value as text

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 68c28d6..c78ea22 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -59,13 +59,13 @@ def mysql_char(*args):
 def mysql_bit_length(s):
     if s is None:
         return None
-    return len(s.encode("utf-8")) * 8
+    return len(ensure_str(s).encode("utf-8")) * 8
 
 @typing_filter(int)
 def mysql_length(s):
     if s is None:
         return None
-    return len(s.encode("utf-8"))
+    return len(ensure_str(s).encode("utf-8"))
 
 @typing_filter(int)
 def mysql_char_length(s):
@@ -231,19 +231,19 @@ def mysql_crc32(s):
     if s is None:
         return None
     import zlib
-    return zlib.crc32(s)
+    return zlib.crc32(s if isinstance(s, bytes) else ensure_str(s).encode("utf-8"))
 
 @typing_filter(str)
 def mysql_from_base64(s):
     if s is None:
         return None
-    return base64.b64decode(s.encode("utf-8")).decode("utf-8")
+    return base64.b64decode(ensure_str(s).encode("utf-8")).decode("utf-8")
 
 @typing_filter(str)
 def mysql_to_base64(s):
     if s is None:
         return None
-    return base64.b64encode(s.encode("utf-8")).decode("utf-8")
+    return base64.b64encode(s if isinstance(s, bytes) else ensure_str(s).encode("utf-8")).decode("utf-8")
 
 @typing_filter(str)
 def mysql_inet4_aton(s):
-- 
2.43.0


From 8520030a6b03b841cc9e45769d50309d47291708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 076/183] fix: CONCAT_WS is found by the compiler and skips
 NULL values

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index c78ea22..256e043 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -85,7 +85,7 @@ def mysql_concat(*args):
 
 @typing_filter(str)
 def mysql_concat_ws(sep, *args):
-    return sep.join(ensure_str(arg) for arg in args)
+    return ensure_str(sep).join(ensure_str(arg) for arg in args if arg is not None)
 
 @typing_filter(str)
 def mysql_insert(s1, x, l, s2):
@@ -303,3 +303,4 @@ def mysql_is_ipv6(s):
 
 
 funcs = {key[6:]: value for key, value in globals().items() if key.startswith("mysql_")}
+funcs["concatws"] = mysql_concat_ws
-- 
2.43.0


From 8205915548361c41aac5e840be47b8b6eb68cbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 077/183] fix: the INSERT string function can be called and
 keeps text outside its positions

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 6 +++++-
 syncanysql/compiler.py                             | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 256e043..efe66c8 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -89,7 +89,11 @@ def mysql_concat_ws(sep, *args):
 
 @typing_filter(str)
 def mysql_insert(s1, x, l, s2):
-    s1, s2 = ensure_str(s1), ensure_str(s2)
+    s1, x, l, s2 = ensure_str(s1), ensure_int(x), ensure_int(l), ensure_str(s2)
+    if x < 1 or x > len(s1):
+        return s1
+    if l < 0 or x + l - 1 > len(s1):
+        return s1[: x - 1] + s2
     return s1[: x - 1] + s2 + s1[x + l - 1:]
 
 @typing_filter(str)
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 6e9373c..a2e8fc7 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -63,6 +63,7 @@ class CompilerDialect(sqlglot_dialects.Dialect):
                 self._advance(2)
 
     class Parser(sqlglot_parser.Parser):
+        FUNC_TOKENS = {*sqlglot_parser.Parser.FUNC_TOKENS, sqlglot_parser.TokenType.INSERT}
         CONJUNCTION = {sqlglot_parser.TokenType.AND: sqlglot_expressions.And}
         DISJUNCTION = {sqlglot_parser.TokenType.OR: sqlglot_expressions.Or}
         TERM = {token_type: expression for token_type, expression in sqlglot_parser.Parser.TERM.items()
-- 
2.43.0


From ce7ee955f37ae69f12a2e6017d0f51270328bcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:35 +0000
Subject: [PATCH 078/183] fix: LEFT and RIGHT of no characters give an empty
 string

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index efe66c8..5b98160 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -116,15 +116,16 @@ def mysql_ucase(s):
 
 @typing_filter(str)
 def mysql_left(s, x):
-    if s is None:
+    if s is None or x is None:
         return None
-    return ensure_str(s)[:x]
+    return ensure_str(s)[:max(ensure_int(x), 0)]
 
 @typing_filter(str)
 def mysql_right(s, x):
-    if s is None:
+    if s is None or x is None:
         return None
-    return ensure_str(s)[-x:]
+    s, x = ensure_str(s), ensure_int(x)
+    return s[max(len(s) - x, 0):] if x > 0 else ""
 
 @typing_filter(str)
 def mysql_trim(s):
-- 
2.43.0


From 4c28891ba2f4b2584090780887aa4b87c1b43ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 079/183] fix: TRIM removes spaces only

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 5b98160..20a0b44 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -131,7 +131,7 @@ def mysql_right(s, x):
 def mysql_trim(s):
     if s is None:
         return None
-    return ensure_str(s).strip()
+    return ensure_str(s).strip(" ")
 
 @typing_filter(str)
 def mysql_elt(n, *args):
-- 
2.43.0


From 3febae7e2b859249f106414e2b1d691c4564d56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 080/183] fix: ELT returns its last value and none for
 positions below 1

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 20a0b44..58c4652 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -135,7 +135,8 @@ def mysql_trim(s):
 
 @typing_filter(str)
 def mysql_elt(n, *args):
-    return args[n - 1] if n < len(args) else None
+    n = ensure_int(n)
+    return args[n - 1] if 1 <= n <= len(args) else None
 
 @typing_filter(int)
 def mysql_field(s, *args):
-- 
2.43.0


From d3d81aad2fced1defaf3a31cb623ace700ed9052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:45 +0000
Subject: [PATCH 081/183] fix: FIELD and FIND_IN_SET handle NULL, numbers and
 empty sets as MySQL

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 58c4652..2c174f0 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -141,7 +141,7 @@ def mysql_elt(n, *args):
 @typing_filter(int)
 def mysql_field(s, *args):
     if s is None:
-        return None
+        return 0
     try:
         return args.index(s) + 1
     except ValueError:
@@ -149,10 +149,11 @@ def mysql_field(s, *args):
 
 @typing_filter(int)
 def mysql_find_in_set(s, ss):
-    if s is None:
+    if s is None or ss is None:
         return None
+    s, ss = ensure_str(s), ensure_str(ss)
     try:
-        return ensure_str(ss).split(",").index(s) + 1
+        return ss.split(",").index(s) + 1 if ss else 0
     except ValueError:
         return 0
 
-- 
2.43.0


From c779d32d13cabd540f471522fb2426b7b8b4c2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 082/183] fix: REPLACE of an empty string changes nothing

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 2c174f0..47cab99 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -159,9 +159,10 @@ def mysql_find_in_set(s, ss):
 
 @typing_filter(str)
 def mysql_replace(s, s1, s2):
-    if s is None:
+    if s is None or s1 is None or s2 is None:
         return None
-    return ensure_str(s).replace(s1, s2)
+    s, s1, s2 = ensure_str(s), ensure_str(s1), ensure_str(s2)
+    return s.replace(s1, s2) if s1 else s
 
 @typing_filter(str)
 def mysql_substring(s, n, l=None):
-- 
2.43.0


From 4eaaf69ea5d34a3583b4ae61e36cf66d0cf46d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:51 +0000
Subject: [PATCH 083/183] fix: SUBSTRING counts negative positions from the end

---
 .../calculaters/mysql_funcs/string_funcs.py   | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 47cab99..c0bfc3a 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -165,22 +165,18 @@ def mysql_replace(s, s1, s2):
     return s.replace(s1, s2) if s1 else s
 
 @typing_filter(str)
-def mysql_substring(s, n, l=None):
-    if s is None:
+def mysql_substring(s, n, *args):
+    if s is None or n is None or (args and args[0] is None):
         return None
-    s = ensure_str(s)
-    if isinstance(l, int):
-        return s[n - 1: n + l - 1]
-    return s[n - 1:]
+    s, n = ensure_str(s), ensure_int(n)
+    if n == 0 or -n > len(s):
+        return ""
+    s = s[n - 1:] if n > 0 else s[n:]
+    return s[:max(ensure_int(args[0]), 0)] if args else s
 
 @typing_filter(str)
-def mysql_substr(s, n, l=None):
-    if s is None:
-        return None
-    s = ensure_str(s)
-    if isinstance(l, int):
-        return s[n - 1: n + l - 1]
-    return s[n - 1:]
+def mysql_substr(s, n, *args):
+    return mysql_substring(s, n, *args)
 
 @typing_filter(str)
 def mysql_substring_index(s, d, c):
-- 
2.43.0


From aa41f9f4df0ad50f256823e192001745cab57e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 084/183] fix: SUBSTRING_INDEX counts from the right for
 negative counts

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index c0bfc3a..1028f16 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -180,11 +180,13 @@ def mysql_substr(s, n, *args):
 
 @typing_filter(str)
 def mysql_substring_index(s, d, c):
-    if s is None:
+    if s is None or d is None or c is None:
         return None
-    s, d = ensure_str(s), ensure_str(d)
+    s, d, c = ensure_str(s), ensure_str(d), ensure_int(c)
+    if not d:
+        return ""
     if c < 0:
-        return d.join(s.split(d)[-c:])
+        return d.join(s.split(d)[c:])
     return d.join(s.split(d)[:c])
 
 @typing_filter(str)
-- 
2.43.0


From 7235ac5cb2cff4cbd3199bf61de21f2c983ed24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 085/183] fix: REPEAT converts its count to a number

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 1028f16..c2d1574 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -191,9 +191,9 @@ def mysql_substring_index(s, d, c):
 
 @typing_filter(str)
 def mysql_repeat(s, c):
-    if s is None:
+    if s is None or c is None:
         return None
-    return ensure_str(s) * c
+    return ensure_str(s) * ensure_int(c)
 
 @typing_filter(str)
 def mysql_reverse(s):
-- 
2.43.0


From c40aa810c87473597ad93f86eb1c7ba0ba045832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 086/183] fix: INET4_NTOA and INET6_NTOA accept the value
 INET4_ATON and INET6_ATON give

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index c2d1574..a7644cf 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -265,7 +265,7 @@ def mysql_inet4_ntoa(b):
     if b is None:
         return None
     try:
-        return socket.inet_ntoa(b)
+        return socket.inet_ntoa(binascii.a2b_hex(b) if isinstance(b, str) else b)
     except:
         return None
 
@@ -293,7 +293,7 @@ def mysql_inet6_ntoa(b):
     if b is None:
         return None
     try:
-        return socket.inet_ntop(socket.AF_INET6, b)
+        return socket.inet_ntop(socket.AF_INET6, binascii.a2b_hex(b) if isinstance(b, str) else b)
     except:
         return None
 
-- 
2.43.0


From 20b1ca8a0fd748680a701c0fbb9eea0274d200a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 087/183] fix: IS_IPV4 accepts complete dotted addresses only

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index a7644cf..63e5d9e 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -274,7 +274,7 @@ def mysql_is_ipv4(s):
     if s is None:
         return None
     try:
-        socket.inet_aton(s)
+        socket.inet_pton(socket.AF_INET, s)
         return 1
     except:
         return 0
-- 
2.43.0


From 95e72e709e5a857a40281129a142f735328d22e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 088/183] fix: adding months and years keeps to the calendar
 (December, leap days)

---
 .../calculaters/mysql_funcs/datetime_funcs.py | 28 ++++++-------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 9ccb068..c05977d 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -4,6 +4,7 @@
 
 import re
 import time
+import calendar
 import datetime
 import pytz
 from syncany.utils import get_timezone, parse_datetime
@@ -13,30 +14,17 @@ from ...utils import NumberTypes, NumberStringTypes
 TIMEDELTA_UNITS = {"YEAR": 365 * 24 * 60 * 60, "QUARTER": 90 * 24 * 60 * 60, "MONTH": 30 * 24 * 60 * 60,
                    "WEEK": 7 * 24 * 60 * 60, "DAY": 24 * 60 * 60, "HOUR": 3600, "MINUTE": 60, "SECOND": 1,
                    "MICROSECOND": 1}
+MONTH_UNITS = {"YEAR": 12, "QUARTER": 3, "MONTH": 1}
 TIME_INTERVAL_RE = re.compile(r'^(\d{4}?\-)?(\d+?\-)?(\d+?\s)?(\d+?:)?(\d+?)?(:\d+)?(\.\d+)?$')
 
+def add_months(dt, months):
+    year, month = divmod(dt.year * 12 + dt.month - 1 + months, 12)
+    return dt.replace(year=year, month=month + 1, day=min(dt.day, calendar.monthrange(year, month + 1)[1]))
+
 def calculate_datetime(dt, interval, is_sub=False):
     def calculate(unit, value):
-        if unit == "YEAR":
-            return dt.replace(year=dt.year - value) if is_sub else dt.replace(year=dt.year + value)
-        if unit in ("QUARTER", "MONTH"):
-            months = value * 3 if unit == "QUARTER" else value
-            if is_sub:
-                new_year = dt.year - int(months / 12) - (1 if dt.month - months % 12 < 1 else 0)
-                new_month = (dt.month - months % 12) + (12 if dt.month - months % 12 < 1 else 0)
-            else:
-                new_year = dt.year + int(months / 12) + (1 if dt.month + months % 12 > 12 else 0)
-                new_month = (dt.month + months % 12) % 12
-            try:
-                return dt.replace(year=new_year, month=new_month)
-            except ValueError:
-                day = dt.day - 1
-                while day >= 1:
-                    try:
-                        return dt.replace(year=new_year, month=new_month, day=day)
-                    except ValueError:
-                        day -= 1
-                return None
+        if unit in MONTH_UNITS:
+            return add_months(dt, -value * MONTH_UNITS[unit] if is_sub else value * MONTH_UNITS[unit])
         if unit in TIMEDELTA_UNITS:
             td = datetime.timedelta(seconds=TIMEDELTA_UNITS[unit] * value)
             return (dt - td) if is_sub else (dt + td)
-- 
2.43.0


From 32aad9c04848d9ca531f3635efef573d2ef4e3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 089/183] fix: MICROSECOND intervals and fractions of a second
 are microseconds

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index c05977d..01344b7 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -26,7 +26,8 @@ def calculate_datetime(dt, interval, is_sub=False):
         if unit in MONTH_UNITS:
             return add_months(dt, -value * MONTH_UNITS[unit] if is_sub else value * MONTH_UNITS[unit])
         if unit in TIMEDELTA_UNITS:
-            td = datetime.timedelta(seconds=TIMEDELTA_UNITS[unit] * value)
+            td = datetime.timedelta(microseconds=value) if unit == "MICROSECOND" \
+                else datetime.timedelta(seconds=TIMEDELTA_UNITS[unit] * value)
             return (dt - td) if is_sub else (dt + td)
         return None
     
@@ -44,7 +45,8 @@ def calculate_datetime(dt, interval, is_sub=False):
     for i in range(7):
         if not values[i]:
             continue
-        dt = calculate(units[i], int(values[i].replace("-", "").replace(".", "").replace(":", "")))
+        value = values[i].replace("-", "").replace(".", "").replace(":", "")
+        dt = calculate(units[i], int(value[:6].ljust(6, "0") if units[i] == "MICROSECOND" else value))
         if not dt:
             return None
     return dt
-- 
2.43.0


From 4fb60d292f9445f4e109ceb68000fdb8d956ca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 090/183] fix: adding hours, minutes or seconds to a date gives
 a datetime

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 01344b7..86e3910 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -28,6 +28,8 @@ def calculate_datetime(dt, interval, is_sub=False):
         if unit in TIMEDELTA_UNITS:
             td = datetime.timedelta(microseconds=value) if unit == "MICROSECOND" \
                 else datetime.timedelta(seconds=TIMEDELTA_UNITS[unit] * value)
+            if not isinstance(dt, datetime.datetime) and unit in ("HOUR", "MINUTE", "SECOND", "MICROSECOND"):
+                return mysql_datetime(dt) + (-td if is_sub else td)
             return (dt - td) if is_sub else (dt + td)
         return None
     
-- 
2.43.0


From 37777bc625985a27b931ace23f0e760e1c668f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 091/183] fix: DATEDIFF is the number of calendar days from the
 second date to the first

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 86e3910..cc96258 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -7,7 +7,7 @@ import time
 import calendar
 import datetime
 import pytz
-from syncany.utils import get_timezone, parse_datetime
+from syncany.utils import get_timezone, parse_datetime, ensure_timezone
 from syncany.calculaters import typing_filter
 from ...utils import NumberTypes, NumberStringTypes
 
@@ -286,11 +286,7 @@ def mysql_subtime(dt, i):
 def mysql_datediff(dt1, dt2):
     if dt1 is None or dt2 is None:
         return None
-    if isinstance(dt1, NumberStringTypes):
-        dt1 = parse_datetime(str(dt1), None, get_timezone())
-    if isinstance(dt2, NumberStringTypes):
-        dt2 = parse_datetime(str(dt2), None, get_timezone())
-    return int((dt2 - dt1).total_seconds() / 86400)
+    return (mysql_date(dt1) - mysql_date(dt2)).days
 
 @typing_filter(int)
 def mysql_timestampdiff(unit, dt1, dt2):
-- 
2.43.0


From 5c9ea484f2edd4a74db40f25aaccd281f872e590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:49 +0000
Subject: [PATCH 092/183] fix: TIMESTAMPDIFF counts calendar months and years,
 and compares dates with datetimes

---
 .../calculaters/mysql_funcs/datetime_funcs.py    | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index cc96258..48583dc 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -292,11 +292,17 @@ def mysql_datediff(dt1, dt2):
 def mysql_timestampdiff(unit, dt1, dt2):
     if dt1 is None or dt2 is None:
         return None
-    if isinstance(dt1, NumberStringTypes):
-        dt1 = parse_datetime(str(dt1), None, get_timezone())
-    if isinstance(dt2, NumberStringTypes):
-        dt2 = parse_datetime(str(dt2), None, get_timezone())
-    return int((dt2 - dt1).total_seconds() / TIMEDELTA_UNITS[unit])
+    unit, dt1, dt2 = unit.upper(), ensure_timezone(mysql_datetime(dt1)), ensure_timezone(mysql_datetime(dt2))
+    if unit in MONTH_UNITS:
+        start, end = (dt1, dt2) if dt1 <= dt2 else (dt2, dt1)
+        months = (end.year - start.year) * 12 + end.month - start.month
+        if (end.day, end.time()) < (start.day, start.time()):
+            months -= 1
+        months = months // MONTH_UNITS[unit]
+        return months if dt1 <= dt2 else -months
+    microseconds = (dt2 - dt1) // datetime.timedelta(microseconds=1)
+    value = abs(microseconds) // (1 if unit == "MICROSECOND" else TIMEDELTA_UNITS[unit] * 1000000)
+    return value if microseconds >= 0 else -value
 
 @typing_filter(str)
 def mysql_date_format(dt, f):
-- 
2.43.0


From 922fe099cae5511ca4f6446dc224915b760eb11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 093/183] fix: MONTHNAME gives the full name

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 48583dc..c8557f3 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -148,7 +148,7 @@ def mysql_monthname(dt):
         return None
     if isinstance(dt, NumberStringTypes):
         dt = parse_datetime(str(dt), None, get_timezone())
-    return dt.strftime("%b")
+    return dt.strftime("%B")
 
 @typing_filter(str)
 def mysql_dayname(dt):
-- 
2.43.0


From 69733e7637eb45e1de115f70f8e3188b67ba6744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 094/183] fix: DAYOFWEEK counts from Sunday

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index c8557f3..8df05d6 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -164,7 +164,7 @@ def mysql_dayofweek(dt):
         return None
     if isinstance(dt, NumberStringTypes):
         dt = parse_datetime(str(dt), None, get_timezone())
-    return dt.weekday() + 1
+    return (dt.weekday() + 1) % 7 + 1
 
 @typing_filter(int)
 def mysql_week(dt, mod=None):
-- 
2.43.0


From 951c3d796272577f66c0b5cd4304b878de49b3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 095/183] fix: WEEK and YEARWEEK support all week modes

---
 .../calculaters/mysql_funcs/datetime_funcs.py | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 8df05d6..e8b5362 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -166,13 +166,33 @@ def mysql_dayofweek(dt):
         dt = parse_datetime(str(dt), None, get_timezone())
     return (dt.weekday() + 1) % 7 + 1
 
+def calculate_week(dt, mode):
+    monday_first, week_year, first_weekday = bool(mode & 1), bool(mode & 2), bool(mode & 4) != bool(mode & 1)
+    dt = datetime.date(dt.year, dt.month, dt.day)
+
+    def first_week_start(year):
+        first_day = datetime.date(year, 1, 1)
+        weekday = first_day.weekday() if monday_first else (first_day.weekday() + 1) % 7
+        # mode bit 2 means the first week has at least four days in the year, otherwise it starts in the year
+        if weekday == 0 or (first_weekday and weekday <= 3):
+            return first_day.toordinal() - weekday
+        return first_day.toordinal() - weekday + 7
+
+    year = dt.year
+    if week_year:
+        if dt.toordinal() < first_week_start(year):
+            year -= 1
+        elif dt.toordinal() >= first_week_start(year + 1):
+            year += 1
+    return year, (dt.toordinal() - first_week_start(year)) // 7 + 1
+
 @typing_filter(int)
 def mysql_week(dt, mod=None):
     if dt is None:
         return None
     if isinstance(dt, NumberStringTypes):
         dt = parse_datetime(str(dt), None, get_timezone())
-    return int(dt.strftime("%W" if str(mod) == "1" else "%U"))
+    return calculate_week(dt, int(mod or 0))[1]
 
 @typing_filter(int)
 def mysql_yearweek(dt, mod=None):
@@ -180,7 +200,8 @@ def mysql_yearweek(dt, mod=None):
         return None
     if isinstance(dt, NumberStringTypes):
         dt = parse_datetime(str(dt), None, get_timezone())
-    return int(dt.strftime("%Y%W" if str(mod) == "1" else "%Y%U"))
+    year, week = calculate_week(dt, int(mod or 0) | 2)
+    return year * 100 + week
 
 @typing_filter(int)
 def mysql_dayofyear(dt):
-- 
2.43.0


From d480303867aba33b8d50d396a8a153ab9cabfad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:25 +0000
Subject: [PATCH 096/183] fix: TIME_TO_SEC takes times and SEC_TO_TIME counts
 hours beyond a day

---
 .../calculaters/mysql_funcs/datetime_funcs.py    | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index e8b5362..ea7770e 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -9,7 +9,7 @@ import datetime
 import pytz
 from syncany.utils import get_timezone, parse_datetime, ensure_timezone
 from syncany.calculaters import typing_filter
-from ...utils import NumberTypes, NumberStringTypes
+from ...utils import NumberTypes, NumberStringTypes, ensure_int
 
 TIMEDELTA_UNITS = {"YEAR": 365 * 24 * 60 * 60, "QUARTER": 90 * 24 * 60 * 60, "MONTH": 30 * 24 * 60 * 60,
                    "WEEK": 7 * 24 * 60 * 60, "DAY": 24 * 60 * 60, "HOUR": 3600, "MINUTE": 60, "SECOND": 1,
@@ -231,17 +231,19 @@ def mysql_year(dt):
 def mysql_time_to_sec(dt):
     if dt is None:
         return None
-    st = parse_datetime("2000-01-01 00:00:00", None, get_timezone())
-    if isinstance(dt, str):
-        dt = parse_datetime("2000-01-01 " + dt, None, get_timezone())
-    return int((dt - st).total_seconds())
+    if isinstance(dt, NumberStringTypes):
+        dt = str(dt)
+        dt = parse_datetime(dt if "-" in dt else "2000-01-01 " + dt, None, get_timezone())
+    if not isinstance(dt, (datetime.datetime, datetime.time)):
+        return 0
+    return dt.hour * 3600 + dt.minute * 60 + dt.second
 
 @typing_filter(str)
 def mysql_sec_to_time(t):
     if t is None:
         return None
-    st = parse_datetime("2000-01-01 00:00:00", None, get_timezone())
-    return (st + datetime.timedelta(seconds=t)).strftime("%H:%M:%S")
+    t = max(min(ensure_int(t), 3020399), -3020399)
+    return "%s%02d:%02d:%02d" % ("-" if t < 0 else "", abs(t) // 3600, abs(t) // 60 % 60, abs(t) % 60)
 
 @typing_filter(datetime.datetime)
 def mysql_dateadd(dt, i):
-- 
2.43.0


From f74d5c8590275726d412a6cabc77b9894dc2fd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 097/183] fix: UNIX_TIMESTAMP takes text and dates and does not
 depend on the zone of the process

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index ea7770e..5e865ec 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -123,10 +123,12 @@ def mysql_time(dt):
     return None
 
 @typing_filter(int)
-def mysql_unix_timestamp(dt=None):
-    if dt is None:
+def mysql_unix_timestamp(*args):
+    if not args:
         return int(time.time())
-    return int(time.mktime(dt.utctimetuple()))
+    if args[0] is None:
+        return None
+    return int(ensure_timezone(mysql_datetime(args[0])).timestamp())
 
 @typing_filter(datetime.datetime)
 def mysql_from_unixtime(t):
-- 
2.43.0


From 17893489bcaf4b3da17cbc1894211d2421170c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 098/183] fix: INTERVAL amounts may be expressions

---
 syncanysql/compiler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index a2e8fc7..d43da58 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1939,7 +1939,11 @@ class Compiler(object):
                              for tuple_expression in expression.args["expressions"]]
             return ["#make", value_columns]
         elif isinstance(expression, sqlglot_expressions.Interval):
-            return ["#const", {"value": expression.args["this"].args["this"], "unit": expression.args["unit"].args["this"]}]
+            if isinstance(expression.args["this"], sqlglot_expressions.Literal):
+                return ["#const", {"value": expression.args["this"].args["this"], "unit": expression.args["unit"].args["this"]}]
+            return ["#make", {"value": self.compile_calculate(expression.args["this"], config, arguments, primary_table,
+                                                              column_join_tables, join_index),
+                              "unit": ["#const", expression.args["unit"].args["this"]]}]
         elif self.is_const(expression, config, arguments):
             return self.compile_const(expression, config, arguments, self.parse_const(expression, config, arguments))
         elif isinstance(expression, sqlglot_expressions.Not):
@@ -2528,8 +2532,10 @@ class Compiler(object):
             if isinstance(expression, AssignParameter):
                 self.parse_calculate(expression.args["expression"], config, arguments, primary_table, calculate_fields)
         elif self.is_subquery(expression, config, arguments) or isinstance(expression, (sqlglot_expressions.Star,
-                                                                                        sqlglot_expressions.Interval, sqlglot_expressions.DataType)):
+                                                                                        sqlglot_expressions.DataType)):
             pass
+        elif isinstance(expression, sqlglot_expressions.Interval):
+            self.parse_calculate(expression.args["this"], config, arguments, primary_table, calculate_fields)
         elif self.is_const(expression, config, arguments):
             pass
         else:
-- 
2.43.0


From 6d983c09fee300fb33f337bf757653becc1cb87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:12 +0000
Subject: [PATCH 099/183] fix: the configured timezone gives current offsets,
 not historical ones

---
 syncanysql/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 7757610..654d3de 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -9,7 +9,7 @@ import sys
 import uuid
 import logging.config
 import json
-import pytz
+from zoneinfo import ZoneInfo
 from syncany.taskers.core import CoreTasker
 from syncany.taskers.config import load_config
 from syncany.logger import get_logger
@@ -170,7 +170,7 @@ class GlobalConfig(object):
 
         if "timezone" in self.config:
             timezone = self.config.get("timezone")
-            set_timezone(pytz.timezone(timezone))
+            set_timezone(ZoneInfo(timezone))
         if "databases" not in self.config:
             self.config["databases"] = []
         databases = {database["name"]: database for database in self.config["databases"]}
-- 
2.43.0


From 7cd2883becad231f873f20baba208cf7c10a4d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 100/183] fix: quoted member names in JSON paths

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 54f4553..dc464f6 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -13,6 +13,9 @@ ArrayObjectTypes = (list, dict)
 def parse_json_path(json_path):
     if not json_path:
         return []
+    if json_path[0] == '"' and '"' in json_path[1:]:
+        end_index = json_path.index('"', 1)
+        return [json_path[1: end_index]] + parse_json_path(json_path[end_index + 1:].strip("."))
     try:
         dot_index = json_path.index(".")
     except ValueError:
-- 
2.43.0


From a7542014a4d0acab8fe63b2888ad99d4c308f2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:54 +0000
Subject: [PATCH 101/183] fix: JSON_CONTAINS_PATH finds members whose value is
 null

---
 .../calculaters/mysql_funcs/json_funcs.py     | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index dc464f6..47ff6de 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -8,6 +8,7 @@ from syncany.calculaters import typing_filter
 
 ArrayStringTypes = (list, str)
 ArrayObjectTypes = (list, dict)
+MISSING = object()
 
 
 def parse_json_path(json_path):
@@ -57,7 +58,7 @@ def parse_json_path(json_path):
         return json_path_keys
 
 
-def get_json_path_value(json_data, json_path):
+def get_json_path_value(json_data, json_path, default=None):
     if json_data is None:
         raise ValueError('value is None')
     if json_path and json_path[:2] == "$.":
@@ -71,10 +72,10 @@ def get_json_path_value(json_data, json_path):
             if isinstance(json_path_key, int):
                 if isinstance(json_data, ArrayStringTypes):
                     if json_path_key >= len(json_data):
-                        return None
+                        return default
                     json_data = json_data[json_path_key]
                     continue
-                return None
+                return default
             if json_path_key == "*":
                 if i + 1 >= len(json_path_keys):
                     return json_data
@@ -83,14 +84,14 @@ def get_json_path_value(json_data, json_path):
                 result = []
                 for d in json_data:
                     v = get_value(d, json_path_keys[i + 1:])
-                    if v is None:
+                    if v is default:
                         continue
                     result.append(v)
                 return result
             if not isinstance(json_data, dict):
-                return None
+                return default
             if json_path_key not in json_data:
-                return None
+                return default
             json_data = json_data[json_path_key]
         return json_data
     return get_value(json_data, parse_json_path(json_path))
@@ -228,11 +229,11 @@ def mysql_json_contains_path(json_doc, one_or_all, *paths):
     if not one_or_all:
         one_or_all = "one"
     for path in paths:
-        json_value = get_json_path_value(json_doc, path)
+        json_value = get_json_path_value(json_doc, path, MISSING)
         if one_or_all.lower() == "one":
-            if json_value is not None:
+            if json_value is not MISSING:
                 return 1
-        elif json_value is None:
+        elif json_value is MISSING:
             return 0
     return 0 if one_or_all.lower() == "one" else 1
 
-- 
2.43.0


From 109a87e4f0adcf1cd9b743b9e19c45be490447aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:55 +0000
Subject: [PATCH 102/183] fix: JSON_SET changes exactly the addressed element

---
 .../calculaters/mysql_funcs/json_funcs.py     | 54 ++++++++-----------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 47ff6de..d726bd8 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -106,36 +106,27 @@ def set_json_path_value(json_data, json_path, value):
         json_path = json_path[1:]
 
     def set_value(json_data, json_path_keys):
-        for i in range(len(json_path_keys)):
-            json_path_key = json_path_keys[i]
-            if isinstance(json_path_key, int):
-                if isinstance(json_data, list):
-                    if i + 1 >= len(json_path_keys):
-                        if json_path_key >= len(json_data):
-                            json_data.append(value)
-                            return json_data
-                        json_data[json_path_key] = value
-                        return json_data
-                    json_data = [] if json_path_key >= len(json_data) else json_data[json_path_key]
-                elif isinstance(json_data, str):
-                    if i + 1 >= len(json_path_keys):
-                        if json_path_key >= len(json_data):
-                            return [json_data, value]
-                        return json_data[:json_path_key] + str(value) + json_data[json_path_key + 1:]
-                    json_data = [] if json_path_key >= len(json_data) else json_data[json_path_key]
-                else:
-                    json_data = []
-                continue
-            if not isinstance(json_data, dict):
-                return json_data
-            if json_path_key not in json_data:
-                if i + 1 >= len(json_path_keys):
-                    json_data[json_path_key] = value
-                return json_data
-            if i + 1 >= len(json_path_keys):
+        if not json_path_keys:
+            return value
+        json_path_key, next_json_path_keys = json_path_keys[0], json_path_keys[1:]
+        if isinstance(json_path_key, int):
+            if isinstance(json_data, list):
+                if json_path_key < len(json_data):
+                    json_data[json_path_key] = set_value(json_data[json_path_key], next_json_path_keys)
+                elif not next_json_path_keys:
+                    json_data.append(value)
+            elif not next_json_path_keys:
+                if isinstance(json_data, str):
+                    if json_path_key >= len(json_data):
+                        return [json_data, value]
+                    return json_data[:json_path_key] + str(value) + json_data[json_path_key + 1:]
+                return value if json_path_key == 0 else [json_data, value]
+            return json_data
+        if isinstance(json_data, dict):
+            if json_path_key in json_data:
+                json_data[json_path_key] = set_value(json_data[json_path_key], next_json_path_keys)
+            elif not next_json_path_keys:
                 json_data[json_path_key] = value
-                return json_data
-            json_data = json_data[json_path_key]
         return json_data
     return set_value(json_data, parse_json_path(json_path))
 
@@ -258,10 +249,7 @@ def mysql_json_set(json_doc, *path_vals):
     else:
         json_doc = copy.deepcopy(json_doc)
     for i in range(int(len(path_vals) / 2)):
-        if not isinstance(json_doc, ArrayObjectTypes):
-            json_doc = set_json_path_value(json_doc, path_vals[i * 2], path_vals[i * 2 + 1])
-        else:
-            set_json_path_value(json_doc, path_vals[i * 2], path_vals[i * 2 + 1])
+        json_doc = set_json_path_value(json_doc, path_vals[i * 2], copy.deepcopy(path_vals[i * 2 + 1]))
     return json_doc
 
 def mysql_json_remove(json_doc, *paths):
-- 
2.43.0


From 8519381e8093b853fd3e38e426787b1aa7d61527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 103/183] fix: JSON_REMOVE keeps the array element its path
 passes through

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index d726bd8..3f17c17 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -150,8 +150,9 @@ def remove_json_path_value(json_data, json_path):
                         del json_data[json_path_key]
                         return json_data
                     if json_path_key < len(json_data):
-                        del json_data[json_path_key]
-                continue
+                        json_data = json_data[json_path_key]
+                        continue
+                return json_data
             if not isinstance(json_data, dict):
                 return json_data
             if json_path_key not in json_data:
-- 
2.43.0


From e31e3d9478c04dfcc4292b2fcafa3ab0be6d6aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:00 +0000
Subject: [PATCH 104/183] fix: JSON_ARRAY_APPEND can be called

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 3f17c17..940491b 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -181,7 +181,7 @@ def mysql_json_object(*values):
         obj[values[i * 2]] = values[i * 2 + 1]
     return obj
 
-def json_array_append(json_doc, *path_vals):
+def mysql_json_array_append(json_doc, *path_vals):
     if isinstance(json_doc, str):
         try:
             json_doc = json.loads(json_doc)
@@ -192,7 +192,7 @@ def json_array_append(json_doc, *path_vals):
     for i in range(int(len(path_vals) / 2)):
         json_value = get_json_path_value(json_doc, path_vals[i * 2])
         if isinstance(json_value, list):
-            json_value.append(path_vals[i * 2 + 1])
+            json_value.append(copy.deepcopy(path_vals[i * 2 + 1]))
     return json_doc
 
 @typing_filter(int)
-- 
2.43.0


From 78d937aa1b8580fce07deff735043057917bbe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:03 +0000
Subject: [PATCH 105/183] fix: JSON_CONTAINS looks for the candidate inside
 arrays and objects

---
 .../calculaters/mysql_funcs/json_funcs.py      | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 940491b..96696d3 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -196,7 +196,7 @@ def mysql_json_array_append(json_doc, *path_vals):
     return json_doc
 
 @typing_filter(int)
-def mysql_json_contains(target, candidate, path):
+def mysql_json_contains(target, candidate, path=None):
     if isinstance(target, str):
         try:
             target = json.loads(target)
@@ -207,8 +207,20 @@ def mysql_json_contains(target, candidate, path):
             candidate = json.loads(candidate)
         except:
             pass
-    target_value = get_json_path_value(target, path)
-    return 1 if target_value == candidate else 0
+    target_value = get_json_path_value(target, path, MISSING)
+    if target_value is MISSING:
+        return None
+
+    def contains(json_value, json_candidate):
+        if isinstance(json_value, list):
+            if isinstance(json_candidate, list):
+                return all(any(contains(d, v) for d in json_value) for v in json_candidate)
+            return any(contains(v, json_candidate) for v in json_value)
+        if isinstance(json_value, dict):
+            return isinstance(json_candidate, dict) and all(
+                k in json_value and contains(json_value[k], v) for k, v in json_candidate.items())
+        return isinstance(json_value, bool) == isinstance(json_candidate, bool) and json_value == json_candidate
+    return 1 if contains(target_value, candidate) else 0
 
 
 @typing_filter(int)
-- 
2.43.0


From db7d9b28e09c47b54323fed4268ac313f162cef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 106/183] fix: REGEXP matches anywhere in the subject

---
 syncanysql/calculaters/mysql_funcs/regexp_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index 7c85bfd..e2aceee 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -29,7 +29,7 @@ def mysql_regexp(s, r, match_type=None):
     if r is None or s is None:
         return None
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        return 1 if re.search(r, s, parse_flags(match_type)) else 0
     except:
         return 0
 
@@ -38,7 +38,7 @@ def mysql_regexplike(s, r, match_type=None):
     if r is None or s is None:
         return None
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        return 1 if re.search(r, s, parse_flags(match_type)) else 0
     except:
         return 0
 
-- 
2.43.0


From ec05c1198fe0e335098f578b40933376375fb9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:07 +0000
Subject: [PATCH 107/183] fix: REGEXP_INSTR/SUBSTR/REPLACE count occurrences in
 the whole subject

---
 .../calculaters/mysql_funcs/regexp_funcs.py   | 61 +++++++------------
 1 file changed, 22 insertions(+), 39 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index e2aceee..6d8da06 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -42,24 +42,22 @@ def mysql_regexplike(s, r, match_type=None):
     except:
         return 0
 
+def find_match(s, r, pos, occurrence, flags):
+    for m in re.compile(r, flags).finditer(s, pos - 1):
+        if occurrence <= 1:
+            return m
+        occurrence -= 1
+    return None
+
 @typing_filter(int)
 def mysql_regexp_instr(s, r, pos=1, occurrence=1, return_option=0, match_type=None):
     if r is None or s is None:
         return None
     try:
-        flags = parse_flags(match_type)
-        cs = s[pos-1:]
-        while cs:
-            m = re.search(r, cs, flags)
-            if not m:
-                return 0
-            start_index, end_index = m.span()
-            if occurrence <= 1:
-                return pos + (end_index if return_option else start_index)
-            cs = cs[end_index:]
-            occurrence -= 1
-            pos += end_index
-        return 0
+        m = find_match(s, r, pos, occurrence, parse_flags(match_type))
+        if not m:
+            return 0
+        return (m.end() if return_option else m.start()) + 1
     except:
         return 0
 
@@ -69,20 +67,16 @@ def mysql_regexp_replace(s, r, rs, pos=1, occurrence=0, match_type=None):
         return None
     try:
         flags = parse_flags(match_type)
-        cs = s[pos-1:]
         if occurrence <= 0:
-            return re.sub(r, rs, cs, count=0, flags=flags)
-        while cs:
-            m = re.search(r, cs, flags)
-            if not m:
-                return s
-            start_index, end_index = m.span()
-            if occurrence <= 1:
-                return s[:pos + start_index - 1] + rs + s[pos + end_index - 1:]
-            cs = cs[end_index:]
-            occurrence -= 1
-            pos += end_index
-        return s
+            start_index, result = pos - 1, s[:pos - 1]
+            for m in re.compile(r, flags).finditer(s, pos - 1):
+                result += s[start_index: m.start()] + m.expand(rs)
+                start_index = m.end()
+            return result + s[start_index:]
+        m = find_match(s, r, pos, occurrence, flags)
+        if not m:
+            return s
+        return s[:m.start()] + m.expand(rs) + s[m.end():]
     except:
         return None
 
@@ -91,19 +85,8 @@ def mysql_regexp_substr(s, r, pos=1, occurrence=1, match_type=None):
     if r is None or s is None:
         return None
     try:
-        flags = parse_flags(match_type)
-        cs = s[pos-1:]
-        while cs:
-            m = re.search(r, cs, flags)
-            if not m:
-                return None
-            start_index, end_index = m.span()
-            if occurrence <= 1:
-                return cs[start_index:end_index]
-            cs = cs[end_index:]
-            occurrence -= 1
-            pos += end_index
-        return None
+        m = find_match(s, r, pos, occurrence, parse_flags(match_type))
+        return m.group() if m else None
     except:
         return None
 
-- 
2.43.0


From eff91862aa83c505c76840aca26a60e285b67eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:09 +0000
Subject: [PATCH 108/183] fix: LIKE and REGEXP apply to the text of numbers and
 dates

---
 syncanysql/calculaters/mysql_funcs/regexp_funcs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index 6d8da06..02d41f3 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -4,6 +4,7 @@
 
 import re
 from syncany.calculaters import typing_filter
+from ...utils import ensure_str
 
 def parse_flags(match_type):
     if not match_type:
@@ -28,6 +29,7 @@ def parse_flags(match_type):
 def mysql_regexp(s, r, match_type=None):
     if r is None or s is None:
         return None
+    s = ensure_str(s)
     try:
         return 1 if re.search(r, s, parse_flags(match_type)) else 0
     except:
@@ -37,6 +39,7 @@ def mysql_regexp(s, r, match_type=None):
 def mysql_regexplike(s, r, match_type=None):
     if r is None or s is None:
         return None
+    s = ensure_str(s)
     try:
         return 1 if re.search(r, s, parse_flags(match_type)) else 0
     except:
@@ -53,6 +56,7 @@ def find_match(s, r, pos, occurrence, flags):
 def mysql_regexp_instr(s, r, pos=1, occurrence=1, return_option=0, match_type=None):
     if r is None or s is None:
         return None
+    s = ensure_str(s)
     try:
         m = find_match(s, r, pos, occurrence, parse_flags(match_type))
         if not m:
@@ -65,6 +69,7 @@ def mysql_regexp_instr(s, r, pos=1, occurrence=1, return_option=0, match_type=No
 def mysql_regexp_replace(s, r, rs, pos=1, occurrence=0, match_type=None):
     if r is None or s is None or rs is None:
         return None
+    s, rs = ensure_str(s), ensure_str(rs)
     try:
         flags = parse_flags(match_type)
         if occurrence <= 0:
@@ -84,6 +89,7 @@ def mysql_regexp_replace(s, r, rs, pos=1, occurrence=0, match_type=None):
 def mysql_regexp_substr(s, r, pos=1, occurrence=1, match_type=None):
     if r is None or s is None:
         return None
+    s = ensure_str(s)
     try:
         m = find_match(s, r, pos, occurrence, parse_flags(match_type))
         return m.group() if m else None
@@ -94,6 +100,7 @@ def mysql_regexp_substr(s, r, pos=1, occurrence=1, match_type=None):
 def mysql_like(s, r, match_type=None):
     if r is None or s is None:
         return None
+    s = ensure_str(s)
     r = "".join([".*" if rg == "%" else ("." if rg == "_" else re.escape(rg[-1])) for rg in re.findall(r"\\.|.", r, re.DOTALL)])
     try:
         return 1 if re.fullmatch(r, s, parse_flags(match_type) | re.DOTALL) else 0
-- 
2.43.0


From 8798dbff001ffaafa0553f37ac956ac03ab6423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:20 +0000
Subject: [PATCH 109/183] fix: JSON_OBJECT of pairs and JSON_EXTRACT of several
 paths parse

---
 syncanysql/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index d43da58..b25532c 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -64,6 +64,9 @@ class CompilerDialect(sqlglot_dialects.Dialect):
 
     class Parser(sqlglot_parser.Parser):
         FUNC_TOKENS = {*sqlglot_parser.Parser.FUNC_TOKENS, sqlglot_parser.TokenType.INSERT}
+        FUNCTIONS = {name: builder for name, builder in sqlglot_parser.Parser.FUNCTIONS.items() if name != "JSON_EXTRACT"}
+        FUNCTION_PARSERS = {name: parser for name, parser in sqlglot_parser.Parser.FUNCTION_PARSERS.items()
+                            if name != "JSON_OBJECT"}
         CONJUNCTION = {sqlglot_parser.TokenType.AND: sqlglot_expressions.And}
         DISJUNCTION = {sqlglot_parser.TokenType.OR: sqlglot_expressions.Or}
         TERM = {token_type: expression for token_type, expression in sqlglot_parser.Parser.TERM.items()
-- 
2.43.0


From 6a0ef1102ebc2b0a752c1a75d897b28a2fae70da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 110/183] fix: JSON functions of NULL are NULL

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 96696d3..fd36bd4 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -59,7 +59,7 @@ def parse_json_path(json_path):
 
 
 def get_json_path_value(json_data, json_path, default=None):
-    if json_data is None:
+    if json_data is None or json_path is None:
         raise ValueError('value is None')
     if json_path and json_path[:2] == "$.":
         json_path = json_path[2:]
@@ -98,7 +98,7 @@ def get_json_path_value(json_data, json_path, default=None):
 
 
 def set_json_path_value(json_data, json_path, value):
-    if json_data is None:
+    if json_data is None or json_path is None:
         raise ValueError('value is None')
     if json_path and json_path[:2] == "$.":
         json_path = json_path[2:]
@@ -132,7 +132,7 @@ def set_json_path_value(json_data, json_path, value):
 
 
 def remove_json_path_value(json_data, json_path):
-    if json_data is None:
+    if json_data is None or json_path is None:
         raise ValueError('value is None')
     if json_path and json_path[:2] == "$.":
         json_path = json_path[2:]
@@ -279,6 +279,8 @@ def mysql_json_remove(json_doc, *paths):
 
 @typing_filter(int)
 def mysql_json_depth(json_doc):
+    if json_doc is None:
+        return None
     if isinstance(json_doc, str):
         try:
             json_doc = json.loads(json_doc)
@@ -297,6 +299,8 @@ def mysql_json_depth(json_doc):
 
 @typing_filter(list)
 def mysql_json_keys(json_doc, path=None):
+    if json_doc is None:
+        return None
     if isinstance(json_doc, str):
         try:
             json_doc = json.loads(json_doc)
@@ -311,6 +315,8 @@ def mysql_json_keys(json_doc, path=None):
 
 @typing_filter(int)
 def mysql_json_length(json_doc, path=None):
+    if json_doc is None:
+        return None
     if isinstance(json_doc, str):
         try:
             json_doc = json.loads(json_doc)
@@ -325,6 +331,8 @@ def mysql_json_length(json_doc, path=None):
 
 @typing_filter(int)
 def mysql_json_valid(val):
+    if val is None:
+        return None
     if isinstance(val, str):
         try:
             json.loads(val)
-- 
2.43.0


From 50e3dfe4612b1fa37bffcfb9d8194cd23217cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:30 +0000
Subject: [PATCH 111/183] fix: JSON_CONTAINS without a path looks at the whole
 document

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index fd36bd4..eb5f6df 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -207,7 +207,7 @@ def mysql_json_contains(target, candidate, path=None):
             candidate = json.loads(candidate)
         except:
             pass
-    target_value = get_json_path_value(target, path, MISSING)
+    target_value = get_json_path_value(target, path or "$", MISSING)
     if target_value is MISSING:
         return None
 
-- 
2.43.0


From c67ecbadcb60ac52723a2f3d2994a0659b803a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 112/183] fix: JSON_CONTAINS of a NULL candidate is NULL

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index eb5f6df..2212e98 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -197,6 +197,8 @@ def mysql_json_array_append(json_doc, *path_vals):
 
 @typing_filter(int)
 def mysql_json_contains(target, candidate, path=None):
+    if target is None or candidate is None:
+        return None
     if isinstance(target, str):
         try:
             target = json.loads(target)
-- 
2.43.0


From 1165d59b2622bd2528e0532054523bd07a509579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:33 +0000
Subject: [PATCH 113/183] fix: JSON wildcards keep elements whose value is null

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 2212e98..d1248e9 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -72,10 +72,10 @@ def get_json_path_value(json_data, json_path, default=None):
             if isinstance(json_path_key, int):
                 if isinstance(json_data, ArrayStringTypes):
                     if json_path_key >= len(json_data):
-                        return default
+                        return MISSING
                     json_data = json_data[json_path_key]
                     continue
-                return default
+                return MISSING
             if json_path_key == "*":
                 if i + 1 >= len(json_path_keys):
                     return json_data
@@ -84,17 +84,18 @@ def get_json_path_value(json_data, json_path, default=None):
                 result = []
                 for d in json_data:
                     v = get_value(d, json_path_keys[i + 1:])
-                    if v is default:
+                    if v is MISSING:
                         continue
                     result.append(v)
                 return result
             if not isinstance(json_data, dict):
-                return default
+                return MISSING
             if json_path_key not in json_data:
-                return default
+                return MISSING
             json_data = json_data[json_path_key]
         return json_data
-    return get_value(json_data, parse_json_path(json_path))
+    json_value = get_value(json_data, parse_json_path(json_path))
+    return default if json_value is MISSING else json_value
 
 
 def set_json_path_value(json_data, json_path, value):
-- 
2.43.0


From 7df5aa91c19f31140acb93499b849714143bb415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:36 +0000
Subject: [PATCH 114/183] fix: JSON_ARRAY and JSON_OBJECT hold values of their
 own

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index d1248e9..49ca875 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -174,12 +174,12 @@ def mysql_json_decode(content):
     return json.loads(content)
 
 def mysql_json_array(*values):
-    return list(values)
+    return [copy.deepcopy(value) for value in values]
 
 def mysql_json_object(*values):
     obj = {}
     for i in range(int(len(values) / 2)):
-        obj[values[i * 2]] = values[i * 2 + 1]
+        obj[values[i * 2]] = copy.deepcopy(values[i * 2 + 1])
     return obj
 
 def mysql_json_array_append(json_doc, *path_vals):
-- 
2.43.0


From e7bf3bd07b06b4e0f65df3e1668791605a0af841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 115/183] fix: quoted identifiers are recognised beside
 comments and inside quotes

---
 syncanysql/parser.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index b2c590c..5edfac4 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -69,9 +69,22 @@ class SqlParser(object):
 
     def read_segment(self, c='`'):
         while self.index < self.len:
-            self.read_util(c)
+            if self.sql[self.index] in ('"', "'"):
+                self.skip_escape(self.sql[self.index])
+                continue
+            if self.sql[self.index] == "#" or self.sql[self.index: self.index + 2] == "--":
+                self.read_util('\n', ())
+                continue
+            if self.sql[self.index: self.index + 2] == "/*":
+                self.next()
+                self.next()
+                self.read_util("*/", ())
+                continue
+            if self.sql[self.index] != c:
+                self.next()
+                continue
             self.next()
-            start_index, end_index, segment = self.read_util(c)
+            start_index, end_index, segment = self.read_util(c, ())
             self.next()
             return start_index, end_index, segment
         raise EOFError()
-- 
2.43.0


From 7e4db6d41a1720c529e20bcbaac6843bf988a4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:32 +0000
Subject: [PATCH 116/183] fix: script files keep line breaks inside literals as
 written

---
 syncanysql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index 5edfac4..1408510 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -146,7 +146,7 @@ class FileParser(object):
         self.filename = filename
 
     def load(self):
-        with open(self.filename, "r", encoding=os.environ.get("SYNCANYENCODING", "utf-8")) as fp:
+        with open(self.filename, "r", encoding=os.environ.get("SYNCANYENCODING", "utf-8"), newline="") as fp:
             content = fp.read()
         if isinstance(self.filename, str) and self.filename[-5:].lower() == ".prql":
             try:
-- 
2.43.0


From d7aa722b2bea5d16e5ae1bf667e7ba76fa7867ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 117/183] fix: comments beside EXECUTE and SHOW are not part of
 the name

---
 syncanysql/compiler.py |  4 ++--
 syncanysql/parser.py   | 22 ++++++++++++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index b25532c..b0fd0a0 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -207,14 +207,14 @@ class Compiler(object):
                 config = {"key": value[0].strip(), "value": "=".join(value[1:]).strip()}
                 return SetCommandTasker(config)
             if expression.args["this"].lower() == "execute" and self.is_const(expression.args["expression"], {}, arguments):
-                filename = self.parse_const(expression.args["expression"], {}, arguments)["value"]
+                filename = SqlParser(self.parse_const(expression.args["expression"], {}, arguments)["value"]).strip_comments()
                 if filename and filename[0] == '`':
                     filename = filename[1:-1]
                 if filename in self.mapping:
                     filename = self.mapping[filename]
                 return ExecuteTasker({"filename": filename})
             if expression.args["this"].lower() == "show" and self.is_const(expression.args["expression"], {}, arguments):
-                return ShowCommandTasker({"key": self.parse_const(expression.args["expression"], {}, arguments)["value"]})
+                return ShowCommandTasker({"key": SqlParser(self.parse_const(expression.args["expression"], {}, arguments)["value"]).strip_comments()})
         elif isinstance(expression, sqlglot_expressions.Use):
             use_info = expression.args["this"].args["this"].name
             if use_info in self.mapping:
diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index 1408510..dc022e8 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -93,6 +93,28 @@ class SqlParser(object):
         while self.index < self.len:
             return self.read_util(';', ('`', '"', "'"))
 
+    def strip_comments(self):
+        segments, start_index = [], self.index
+        while self.index < self.len:
+            if self.sql[self.index] in ('`', '"', "'"):
+                self.skip_escape(self.sql[self.index])
+                continue
+            if self.sql[self.index] == "#" or self.sql[self.index: self.index + 2] in ("--", "/*"):
+                segments.append(self.sql[start_index: self.index])
+                try:
+                    if self.sql[self.index: self.index + 2] == "/*":
+                        self.index += 2
+                        start_index = self.read_util("*/", ())[1] + 1
+                    else:
+                        start_index = self.read_util("\n", ())[1] + 1
+                except EOFError:
+                    start_index = self.len
+                self.index = start_index
+                continue
+            self.next()
+        segments.append(self.sql[start_index:])
+        return " ".join(segments).strip()
+
     def split(self):
         segments = []
         lineno, start_index = 0, None
-- 
2.43.0


From 64d42002b8602ae20285899a52a300e241fbfcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:20 +0000
Subject: [PATCH 118/183] fix: comments in SET statements are not part of the
 value

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index b0fd0a0..b66aef8 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -223,7 +223,7 @@ class Compiler(object):
         elif isinstance(expression, sqlglot.expressions.Set) and expression.args.get("expressions") and len(expression.args.get("expressions")) == 1:
             set_item_expression = expression.args.get("expressions")[0]
             if isinstance(set_item_expression, sqlglot_expressions.SetItem) and isinstance(set_item_expression.args["this"], sqlglot_expressions.EQ):
-                value = self.generate_sql(set_item_expression).split("=")
+                value = SqlParser(self.generate_sql(set_item_expression)).strip_comments().split("=")
                 config = {"key": value[0].strip(), "value": "=".join(value[1:]).strip()}
                 return SetCommandTasker(config)
         raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
-- 
2.43.0


From 49fbf47004d8ad2ddda8d13bf97d4338b9f92c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 119/183] fix: comments are not copied into SET values and
 column names

---
 syncanysql/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index b66aef8..f20fd3c 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -223,7 +223,7 @@ class Compiler(object):
         elif isinstance(expression, sqlglot.expressions.Set) and expression.args.get("expressions") and len(expression.args.get("expressions")) == 1:
             set_item_expression = expression.args.get("expressions")[0]
             if isinstance(set_item_expression, sqlglot_expressions.SetItem) and isinstance(set_item_expression.args["this"], sqlglot_expressions.EQ):
-                value = SqlParser(self.generate_sql(set_item_expression)).strip_comments().split("=")
+                value = self.generate_sql(set_item_expression).split("=")
                 config = {"key": value[0].strip(), "value": "=".join(value[1:]).strip()}
                 return SetCommandTasker(config)
         raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
@@ -3481,7 +3481,7 @@ class Compiler(object):
 
     def generate_sql(self, expression):
         if isinstance(expression, sqlglot_expressions.Expression):
-            return expression.sql(dialect=CompilerDialect)
+            return expression.sql(dialect=CompilerDialect, comments=False)
         return str(expression)
 
     def to_sql(self, expression_sql):
-- 
2.43.0


From f1975d7e5645e0a9eefc9666bf17503ae60deb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:20 +0000
Subject: [PATCH 120/183] fix: a stray backslash no longer keeps the escapes of
 the whole literal

---
 syncanysql/utils.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/syncanysql/utils.py b/syncanysql/utils.py
index 3af785a..37a10a9 100644
--- a/syncanysql/utils.py
+++ b/syncanysql/utils.py
@@ -6,27 +6,23 @@ import copy
 from decimal import Decimal
 import datetime
 import os
+import re
 import string
 
 NumberTypes = (int, float)
 NumberDecimalTypes = (int, float, Decimal)
 NumberStringTypes = (int, float, str)
 SequenceTypes = (tuple, list)
+ESCAPE_RE = re.compile(r"\\(?:x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|N\{[^}]+\}|[0-7]{1,3}|.)", re.DOTALL)
 
 
 def unescape_string(value):
-    escape_values, escape_chars, encoding = [], [], os.environ.get("SYNCANYENCODING", "utf-8")
-    for c in value:
-        if ord(c) < 128:
-            escape_chars.append(c)
-            continue
-        if escape_chars:
-            escape_values.append("".join(escape_chars).encode(encoding).decode("unicode_escape"))
-            escape_chars = []
-        escape_values.append(c)
-    if escape_chars:
-        escape_values.append("".join(escape_chars).encode(encoding).decode("unicode_escape"))
-    return "".join(escape_values)
+    def unescape(match):
+        try:
+            return match.group().encode("ascii").decode("unicode_escape")
+        except UnicodeError:
+            return match.group()
+    return ESCAPE_RE.sub(unescape, value)
 
 
 def copy_rows(rows):
-- 
2.43.0


From 31c55aacacee8ea4f6c03faf7c5f5b0442b7387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:17 +0000
Subject: [PATCH 121/183] fix: SET of an expression starting with a unary
 minus, SET GLOBAL of an expression sets the global variable (C03)

---
 syncanysql/compiler.py    |  2 +-
 syncanysql/taskers/set.py | 14 +++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index f20fd3c..3f87b2a 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3141,7 +3141,7 @@ class Compiler(object):
             return isinstance(expression, (sqlglot_expressions.EQ, sqlglot_expressions.NEQ, sqlglot_expressions.GT, sqlglot_expressions.GTE,
                                            sqlglot_expressions.LT, sqlglot_expressions.LTE, sqlglot_expressions.In, sqlglot_expressions.Not,
                                            sqlglot_expressions.Is, sqlglot_expressions.Between, sqlglot_expressions.Like, sqlglot_expressions.Func,
-                                           sqlglot_expressions.Binary, sqlglot_expressions.SubqueryPredicate))
+                                           sqlglot_expressions.Binary, sqlglot_expressions.Unary, sqlglot_expressions.SubqueryPredicate))
         return isinstance(expression, (sqlglot_expressions.Neg, sqlglot_expressions.Binary, sqlglot_expressions.Select,
                                        sqlglot_expressions.Subquery, sqlglot_expressions.Union,
                                        sqlglot_expressions.BitwiseNot, sqlglot_expressions.Tuple, sqlglot_expressions.Parameter))
diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index aee7475..1ead37f 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -12,6 +12,7 @@ STRING_ESCAPE_RE = re.compile(r"""\\.|''|\"\"""", re.DOTALL)
 class SetCommandTasker(object):
     def __init__(self, config):
         self.config = config
+        self.global_variable = None
 
     def start(self, name, executor, session_config, manager, arguments):
         key, is_global = self.config["key"], False
@@ -29,11 +30,16 @@ class SetCommandTasker(object):
                 self.set_env_variable(executor, key, self.parse_value(self.config["value"].strip(), True), is_global)
             except ValueError as e:
                 if key[:1] == "@":
+                    variable = ("@__set_global_" + key[1:]) if is_global else key
                     try:
-                        executor.compile(name, "select " + self.config["value"].strip() + " into " + key)
-                        return []
+                        executor.compile(name, "select " + self.config["value"].strip() + " into " + variable)
                     except Exception as e:
                         raise ValueError("unknown value: %s" % self.config["value"].strip())
+                    if not is_global:
+                        return []
+                    # the value is only known after the compiled query has run
+                    self.global_variable = (variable, key)
+                    return [self]
                 raise e
         return []
 
@@ -81,7 +87,9 @@ class SetCommandTasker(object):
         raise ValueError("unknown value: %s" % value)
 
     def run(self, executor, session_config, manager):
-        pass
+        if self.global_variable:
+            variable, key = self.global_variable
+            self.set_env_variable(executor, key, executor.env_variables.pop(variable, None), True)
 
     def terminate(self):
         pass
\ No newline at end of file
-- 
2.43.0


From 3d7b11ae6deac8e2e78228b7ac95872280b34fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:13 +0000
Subject: [PATCH 122/183] fix: variables in IN lists and INSERT VALUES read
 when the statement runs, INTO does not hide a parent's value (C03)

---
 syncanysql/compiler.py     | 27 +++++++++++++++++++++------
 syncanysql/executor.py     | 12 +++++++++---
 syncanysql/taskers/into.py |  6 ++----
 3 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 3f87b2a..5507259 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -398,14 +398,25 @@ class Compiler(object):
                     if not self.is_const(value_expression, config, arguments):
                         raise SyncanySqlCompileException('error insert into, values must be constants, related sql "%s"'
                                                          % self.to_sql(expression))
+                    if isinstance(value_expression, sqlglot_expressions.Parameter):
+                        data["__variable_" + columns[i][0]] = "@" + value_expression.name
+                        continue
                     data[columns[i][0]] = self.parse_const(value_expression, config, arguments)["value"]
                 datas.append(data)
+            variable_names = {name for data in datas for name in data if name[:11] == "__variable_"}
             for column in columns:
                 value_types = {type(data.get(column[0])) for data in datas}
-                if column[1] is None and len(value_types) == 1 and value_types & {int, float, bool}:
+                if column[1] is None and "__variable_" + column[0] not in variable_names and len(value_types) == 1 and value_types & {int, float, bool}:
                     column[1] = value_types.pop().__name__
             config["schema"] = {column_name: "$." + column_name + (("|" + column_type) if column_type else "")
                                 for column_name, column_type in columns}
+            for column_name, column_type in columns:
+                if "__variable_" + column_name in variable_names:
+                    config["schema"][column_name] = [
+                        "#if", "$.__variable_" + column_name,
+                        ["@current_env_variable::get_value" + (("|" + column_type) if column_type else ""), "$.__variable_" + column_name],
+                        config["schema"][column_name]
+                    ]
             config["input"] = "&.--.--::" + columns[0][0]
             config["loader"] = "const_loader"
             config["loader_arguments"] = {"datas": datas}
@@ -1037,7 +1048,7 @@ class Compiler(object):
                 return None, None
 
             if isinstance(right_expression, list):
-                if all([self.is_const(value_expression_item, config, arguments) for value_expression_item in right_expression]):
+                if all([self.is_literal(value_expression_item, config, arguments) for value_expression_item in right_expression]):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in right_expression]
                     return left_column, ["#const", value_items]
@@ -1934,7 +1945,7 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Star):
             return "$.*"
         elif isinstance(expression, sqlglot_expressions.Tuple):
-            if all([self.is_const(tuple_expression, config, arguments) for tuple_expression in expression.args["expressions"]]):
+            if all([self.is_literal(tuple_expression, config, arguments) for tuple_expression in expression.args["expressions"]]):
                 value_columns = [self.parse_const(tuple_expression, config, arguments)["value"]
                                  for tuple_expression in expression.args["expressions"]]
                 return ["#const", value_columns]
@@ -1985,7 +1996,7 @@ class Compiler(object):
 
             func_name = expression.key.lower()
             if expression.args.get("expressions"):
-                if all([self.is_const(item_expression, config, arguments) for item_expression in expression.args["expressions"]]):
+                if all([self.is_literal(item_expression, config, arguments) for item_expression in expression.args["expressions"]]):
                     value_items = ["#const", [self.parse_const(item_expression, config, arguments)["value"]
                                               for item_expression in expression.args["expressions"]]]
                 else:
@@ -2076,7 +2087,7 @@ class Compiler(object):
                 return left_calculater, None
 
             if isinstance(right_expression, list):
-                if all([self.is_const(value_expression_item, config, arguments) for value_expression_item in right_expression]):
+                if all([self.is_literal(value_expression_item, config, arguments) for value_expression_item in right_expression]):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in right_expression]
                     return left_calculater, ["#const", value_items]
@@ -2410,7 +2421,7 @@ class Compiler(object):
                     value_column = ["@convert_array", value_column, ":$.:0"]
                 return False, condition_column, value_column
             if isinstance(value_expression, list):
-                if all([self.is_const(value_expression_item, config, arguments) for value_expression_item in value_expression]):
+                if all([self.is_literal(value_expression_item, config, arguments) for value_expression_item in value_expression]):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in value_expression]
                     return False, condition_column, ["#const", value_items]
@@ -3136,6 +3147,10 @@ class Compiler(object):
                                        sqlglot_expressions.Null, sqlglot_expressions.HexString, sqlglot_expressions.BitString,
                                        sqlglot_expressions.ByteString))
 
+    def is_literal(self, expression, config, arguments):
+        # the value of a variable is only known when the statement runs
+        return self.is_const(expression, config, arguments) and not isinstance(expression, sqlglot_expressions.Parameter)
+
     def is_calculate(self, expression, config, arguments):
         if isinstance(expression, sqlglot_expressions.Condition):
             return isinstance(expression, (sqlglot_expressions.EQ, sqlglot_expressions.NEQ, sqlglot_expressions.GT, sqlglot_expressions.GTE,
diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 3204d03..6caa225 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -43,6 +43,7 @@ class EnvVariables(dict):
         super(EnvVariables, self).__init__(*args, **kwargs)
 
         self.parent = parent
+        self.declared_names = set()
 
     @classmethod
     def build_global(cls, session_config):
@@ -67,9 +68,14 @@ class EnvVariables(dict):
             return self[key]
         if key and key[0] == "@" and key[1:] in self:
             return self[key[1:]]
-        if self.parent is None:
-            raise KeyError("%s unknown" % key)
-        return self.parent.get_value(key)
+        try:
+            if self.parent is not None:
+                return self.parent.get_value(key)
+        except KeyError:
+            pass
+        if key in self.declared_names:
+            return None
+        raise KeyError("%s unknown" % key)
 
     def get(self, key, default=None):
         if key in self:
diff --git a/syncanysql/taskers/into.py b/syncanysql/taskers/into.py
index 42c7dc4..32db677 100644
--- a/syncanysql/taskers/into.py
+++ b/syncanysql/taskers/into.py
@@ -13,10 +13,8 @@ class IntoTasker(object):
 
     def start(self, name, executor, session_config, manager, arguments):
         for variable in self.config["variables"]:
-            try:
-                executor.env_variables.get_value(variable)
-            except KeyError:
-                executor.env_variables[variable] = None
+            # a declared variable is null until a value is assigned, without hiding a value of the parent
+            executor.env_variables.declared_names.add(variable)
         self.collection_name = "--.__into_" + str(id(self))
         self.tasker.config["output"] = "&." + self.collection_name + "::" + self.tasker.config["output"].split("::")[-1]
         self.tasker.config["name"] = self.tasker.config["name"] + "#into"
-- 
2.43.0


From b2a76dc9b5859dc664ae831a61465b2fed4b835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:53 +0000
Subject: [PATCH 123/183] fix: INSERT uses the declared columns, its key is the
 first column (C13)

---
 syncanysql/compiler.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5507259..cdce348 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -376,7 +376,7 @@ class Compiler(object):
                     update_type = typing_option
                     break
             config["output"] = "".join(["&.", table_info["db"], ".", table_info["name"], "::",
-                                        "id", " use ", update_type])
+                                        columns[0][0] if columns else "id", " use ", update_type])
 
         if isinstance(expression.args["expression"], (sqlglot_expressions.Select, sqlglot_expressions.Union)):
             select_expression = expression.args["expression"]
@@ -386,6 +386,8 @@ class Compiler(object):
                 self.compile_union(select_expression, config, arguments)
             else:
                 self.compile_select(self.optimize_rewrite(select_expression, config, arguments), config, arguments)
+            if columns and isinstance(config["schema"], dict):
+                self.compile_insert_columns(expression, config, arguments, [column_name for column_name, _ in columns])
         elif isinstance(expression.args["expression"], sqlglot_expressions.Values):
             values_expression = expression.args["expression"]
             if not values_expression.args.get("expressions"):
@@ -423,6 +425,21 @@ class Compiler(object):
         else:
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
 
+    def compile_insert_columns(self, expression, config, arguments, column_names):
+        if len(column_names) != len(config["schema"]):
+            raise SyncanySqlCompileException('error insert into, the select has a different number of columns, related sql "%s"'
+                                             % self.to_sql(expression))
+        if column_names == list(config["schema"].keys()):
+            return
+        output_type = config["output"].split(" use ")[-1]
+        select_config = dict(config, name=config["name"] + "#insertquery_" + str(uuid.uuid1().int))
+        insert_config, insert_arguments = self.compile_union_columns(select_config, dict(arguments), column_names)
+        insert_config = dict(insert_config, name=config["name"], output=insert_config["output"].split(" use ")[0] + " use " + output_type)
+        config.clear()
+        config.update(insert_config)
+        arguments.clear()
+        arguments.update(insert_arguments)
+
     def compile_union(self, expression, config, arguments):
         select_expressions, union_expressions, result_args = [], [], {}
         def parse_select(select_expression, is_last):
@@ -608,6 +625,8 @@ class Compiler(object):
                 if self.is_const(select_expression.args["this"], config, arguments):
                     const_info = self.parse_const(select_expression.args["this"], config, arguments)
                     config["schema"][column_alias] = self.compile_const(select_expression.args["this"], config, arguments, const_info)
+                    if not primary_table["outputer_primary_keys"] and column_alias.isidentifier():
+                        primary_table["outputer_primary_keys"] = [column_alias]
                     continue
                 elif self.is_column(select_expression.args["this"], config, arguments):
                     column_expression = select_expression.args["this"]
-- 
2.43.0


From 28df81f34cf70573fd51166785d106f5b9fc4622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 124/183] fix: the insert mode of a table name may be written
 in lower case (C13)

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index cdce348..0b961db 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -373,7 +373,7 @@ class Compiler(object):
                 for typing_option in table_info["typing_options"]:
                     if typing_option.upper() not in ("I", "U", "UI", "UDI", "DI"):
                         continue
-                    update_type = typing_option
+                    update_type = typing_option.upper()
                     break
             config["output"] = "".join(["&.", table_info["db"], ".", table_info["name"], "::",
                                         columns[0][0] if columns else "id", " use ", update_type])
-- 
2.43.0


From 6d0499f592ee3bfd51caa76c068f222d974646cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:10 +0000
Subject: [PATCH 125/183] fix: INSERT in DI mode keeps the rows of every batch
 (C13)

---
 syncanysql/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 0b961db..807ee59 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -424,6 +424,9 @@ class Compiler(object):
             config["loader_arguments"] = {"datas": datas}
         else:
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
+        if config["output"].endswith(" use DI") and not config.get("aggregate"):
+            # a batch would delete the rows the batches before it have inserted
+            arguments["@batch"] = 0
 
     def compile_insert_columns(self, expression, config, arguments, column_names):
         if len(column_names) != len(config["schema"]):
-- 
2.43.0


From dae6cd822cc1f8c64e881a9d97c1345cfb497dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 126/183] fix: INSERT in UDI mode compares all rows at once,
 not batch by batch (C13)

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 807ee59..e73fb43 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -424,7 +424,7 @@ class Compiler(object):
             config["loader_arguments"] = {"datas": datas}
         else:
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
-        if config["output"].endswith(" use DI") and not config.get("aggregate"):
+        if config["output"].split(" use ")[-1] in ("DI", "UDI") and not config.get("aggregate"):
             # a batch would delete the rows the batches before it have inserted
             arguments["@batch"] = 0
 
-- 
2.43.0


From 20e244bebfb0efb100895f84ddbbbf103cd99c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 127/183] fix: windows, ORDER BY and LIMIT of a result are not
 applied batch by batch (C12)

---
 syncanysql/taskers/query.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 554c1c3..ce20c97 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -127,6 +127,10 @@ class QueryTasker(object):
             dependency_taskers.append(dependency_tasker)
 
         limit, batch = int(arguments.get("@limit", 0)), int(arguments.get("@batch", 0))
+        if batch > 0 and ((aggregate and aggregate["window_schema"])
+                          or (self.config.get("pipelines") and not (aggregate and aggregate.get("schema")))):
+            # windows and the pipelines of the result need all the rows
+            arguments["@batch"] = batch = 0
         require_reduce = False
         if aggregate and (aggregate.get("schema") or aggregate["window_schema"]):
             if batch > 0:
-- 
2.43.0


From c6285cdaf14b6b1322188dae764789b7ba495a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:23 +0000
Subject: [PATCH 128/183] fix: files of different formats or in similarly named
 directories can be used in one statement (C14)

---
 syncanysql/compiler.py | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index e73fb43..106848b 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2894,29 +2894,19 @@ class Compiler(object):
                          ".xlsx": "execl"}.get(os.path.splitext(path_info[-1])[-1], db_driver)
             if db_driver:
                 path, table_name = (os.path.abspath(path_info[0]) if path_info[0] else os.getcwd()), path_info[1]
-                path_db_name = "dir__" + "".join([c if c.isalpha() or c.isdigit() else '_' for c in path])
-                if db_params:
-                    path_db_name = path_db_name + "_" + str(uuid.uuid1().int)
-                database = None
-                if "databases" not in config:
-                    config["databases"] = []
-                for d in config["databases"]:
-                    if d["name"] == path_db_name:
-                        d.update({"name": path_db_name, "driver": db_driver, "path": path})
-                        database = d
-                        break
-                    if d.get("driver") == db_driver and d.get("path") == path and not db_params:
-                        database = d
-                        break
-                if not database:
-                    database = {"name": path_db_name, "driver": db_driver, "path": path}
-                    config["databases"].append(database)
-                if db_params:
-                    database.update(db_params)
+                database = {"driver": db_driver, "path": path}
+                database.update(db_params)
                 if db_driver == "textline":
                     formats = [f for f in ("csv", "json", "richtable", "print") if f in typing_options]
                     if formats:
                         database["format"] = formats[0]
+                # one database for each directory, driver and parameters
+                database["name"] = "dir__%s__%s" % ("".join([c if c.isalpha() or c.isdigit() else '_' for c in path]),
+                                                    uuid.uuid5(uuid.NAMESPACE_OID, repr(sorted(database.items()))).hex)
+                if "databases" not in config:
+                    config["databases"] = []
+                if database["name"] not in {d["name"] for d in config["databases"]}:
+                    config["databases"].append(database)
                 db_name = database["name"]
             else:
                 db_name, with_table_name = "--", self.with_tables.get(table_name) if not is_output else None
-- 
2.43.0


From 6e1d8412f038e66f359e10081d9275aabc5df6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:27 +0000
Subject: [PATCH 129/183] fix: file:// parameters may hold an encoded & or =
 (C14)

---
 syncanysql/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 106848b..b632c9d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2881,10 +2881,10 @@ class Compiler(object):
                     url_info = urlparse(table_name)
                     url_path = url_info.netloc + url_info.path + (("#" + url_info.fragment) if url_info.fragment else "")
                     db_driver, db_params, path_info = "textline", {}, os.path.split(unquote_plus(url_path))
-                    for url_param in unquote_plus(url_info.query).split("&"):
-                        url_param = url_param.split("=")
+                    for url_param in url_info.query.split("&"):
+                        url_param = url_param.split("=", 1)
                         if len(url_param) >= 2:
-                            db_params[url_param[0]] = url_param[1]
+                            db_params[unquote_plus(url_param[0])] = unquote_plus(url_param[1])
                 except:
                     db_driver, db_params, path_info = "textline", {}, os.path.split(table_name[7:])
             else:
-- 
2.43.0


From 59a30791bd198a078d083b3ac6eadb34a72f99f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:30 +0000
Subject: [PATCH 130/183] fix: #sheet after the name of a spreadsheet selects
 the sheet (C14)

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index b632c9d..6c8bc99 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2892,6 +2892,8 @@ class Compiler(object):
 
             db_driver = {".txt": "textline", ".json": "json", ".csv": "csv", ".xls": "execl",
                          ".xlsx": "execl"}.get(os.path.splitext(path_info[-1])[-1], db_driver)
+            if "#" in path_info[-1] and os.path.splitext(path_info[-1].split("#")[0])[-1] in (".xls", ".xlsx"):
+                db_driver = "execl"
             if db_driver:
                 path, table_name = (os.path.abspath(path_info[0]) if path_info[0] else os.getcwd()), path_info[1]
                 database = {"driver": db_driver, "path": path}
-- 
2.43.0


From b74dbcb84e7011a42b9216e8fa034c1f4dce7368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:33 +0000
Subject: [PATCH 131/183] fix: conditions on typed columns of files and memory
 tables compare the converted values (C14, C24)

---
 syncanysql/compiler.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 6c8bc99..61ad139 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1009,6 +1009,11 @@ class Compiler(object):
         ji = [j for j in range(len(column_join_tables)) if join_column["table_name"] == column_join_tables[j]["name"]][0]
         return self.compile_column(expression, config, arguments, join_column, ji - ci)
 
+    def is_untyped_table(self, config, table):
+        # the values of files and memory tables have no declared type, they are compared after they have been converted
+        databases = {d.get("name"): d.get("driver") for d in (self.config.get().get("databases") or []) + (config.get("databases") or [])}
+        return databases.get(table["db"]) in ("memory", "textline", "json", "csv", "execl")
+
     def compile_where_condition(self, expression, config, arguments, primary_table, join_tables):
         if isinstance(expression, sqlglot_expressions.And):
             left_calculate_expression = self.compile_where_condition(expression.args.get("this"), config, arguments, primary_table, join_tables)
@@ -1046,6 +1051,9 @@ class Compiler(object):
                         return True
             return False
 
+        # the conditions of DELETE have to be those of the table
+        is_delete = config.get("loader") == "const_loader"
+
         def parse_condition(expression):
             if expression.args.get("expressions"):
                 left_expression, right_expression = expression.args["this"], expression.args["expressions"]
@@ -1066,7 +1074,7 @@ class Compiler(object):
                 if right_column["table_name"] and primary_table["table_name"] != right_column["table_name"]:
                     return None, None
                 left_expression, right_expression, left_column = right_expression, left_expression, right_column
-            if left_column is None:
+            if left_column is None or (left_column["typing_filters"] and not is_delete and self.is_untyped_table(config, primary_table)):
                 return None, None
 
             if isinstance(right_expression, list):
@@ -2423,7 +2431,8 @@ class Compiler(object):
             if isinstance(value_expression, list):
                 for value_expression_item in value_expression:
                     self.parse_calculate(value_expression_item, config, arguments, primary_table, calculate_fields)
-            if not condition_column or calculate_fields or condition_column["table_name"] != join_table["name"]:
+            if not condition_column or calculate_fields or condition_column["table_name"] != join_table["name"] \
+                    or (condition_column["typing_filters"] and self.is_untyped_table(config, join_table)):
                 self.parse_calculate(right_expression if value_expression is left_expression else left_expression,
                                      config, arguments, primary_table, calculate_fields)
                 for calculate_field in calculate_fields:
-- 
2.43.0


From 4f27352d22cd0381255c5d750f7d3cbffdd67c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:17 +0000
Subject: [PATCH 132/183] fix: INSERT into a text file keeps the rows of every
 batch (C14)

---
 syncanysql/compiler.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 61ad139..31ecc1e 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -427,6 +427,11 @@ class Compiler(object):
         if config["output"].split(" use ")[-1] in ("DI", "UDI") and not config.get("aggregate"):
             # a batch would delete the rows the batches before it have inserted
             arguments["@batch"] = 0
+        if not table_info["name"].startswith("&") and self.find_database_driver(config, table_info["db"]) == "textline":
+            # every write replaces the contents of a text file
+            if not config.get("aggregate"):
+                arguments["@batch"] = 0
+            arguments["@insert_batch"] = 0
 
     def compile_insert_columns(self, expression, config, arguments, column_names):
         if len(column_names) != len(config["schema"]):
@@ -1011,8 +1016,11 @@ class Compiler(object):
 
     def is_untyped_table(self, config, table):
         # the values of files and memory tables have no declared type, they are compared after they have been converted
+        return self.find_database_driver(config, table["db"]) in ("memory", "textline", "json", "csv", "execl")
+
+    def find_database_driver(self, config, name):
         databases = {d.get("name"): d.get("driver") for d in (self.config.get().get("databases") or []) + (config.get("databases") or [])}
-        return databases.get(table["db"]) in ("memory", "textline", "json", "csv", "execl")
+        return databases.get(name)
 
     def compile_where_condition(self, expression, config, arguments, primary_table, join_tables):
         if isinstance(expression, sqlglot_expressions.And):
-- 
2.43.0


From 5fdf55e281d3c0e58025edcceb7efc7cb72e0cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:06 +0000
Subject: [PATCH 133/183] fix: a context or executor that ends restores the one
 it was entered from (C15)

---
 syncanysql/__init__.py | 4 +++-
 syncanysql/executor.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index dcaf3dd..3f1e496 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -37,6 +37,7 @@ class ExecuterContext(object):
     def __init__(self, engine, executor):
         self.engine = engine
         self.executor = executor
+        self.outer_contexts = []
 
     def get_variable(self, name, default=None):
         if name and name[0] != "@":
@@ -77,11 +78,12 @@ class ExecuterContext(object):
         self.executor.terminate()
 
     def __enter__(self):
+        self.outer_contexts.append(self.current())
         self._thread_local.current_executer_context = self
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self._thread_local.current_executer_context = None
+        self._thread_local.current_executer_context = self.outer_contexts.pop()
 
 
 class ScriptEngine(object):
diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 6caa225..ba6658a 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -219,11 +219,14 @@ class Executor(object):
             database.close()
 
     def __enter__(self):
+        if not hasattr(self._thread_local, "outer_executors"):
+            self._thread_local.outer_executors = []
+        self._thread_local.outer_executors.append(self.current())
         self._thread_local.current_executor = self
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self._thread_local.current_executor = self.parent_executor
+        self._thread_local.current_executor = self._thread_local.outer_executors.pop()
 
     def distribute_tasker_index(self):
         if self.parent_executor is not None:
-- 
2.43.0


From f443446a24a206c9164b2b1fa5ffb22e8599d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 134/183] fix: execute called within a query or from several
 threads runs only its own statements (C15)

---
 syncanysql/__init__.py | 14 +++++++++++---
 syncanysql/executor.py | 17 ++++++++++++++---
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index 3f1e496..19f1635 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -5,6 +5,7 @@
 from .version import version, version_info
 
 import threading
+from collections import deque
 from syncany.loaders import Loader, register_loader
 from syncany.outputers import Outputer, register_outputer
 from syncany.valuers import Valuer, register_valuer
@@ -13,7 +14,7 @@ from syncany.database import DataBase, register_database
 from syncany.calculaters import Calculater, TypeFormatCalculater, TypingCalculater, MathematicalCalculater, \
     TransformCalculater, register_calculater
 from syncany.taskers.config import Parser, ConfigReader, register_parser, register_reader
-from syncany.taskers.tasker import current_tasker
+from syncany.taskers.tasker import current_tasker, _thread_local
 from syncany.taskers.manager import TaskerManager
 from syncany.database import DatabaseManager, find_database
 from syncany.errors import DatabaseUnknownException
@@ -57,8 +58,15 @@ class ExecuterContext(object):
         sqls = sql_parser.split()
         self.__class__._execute_index += 1
         with self.executor as executor:
-            executor.run("execute[%d]" % self._execute_index, sqls)
-            executor.execute()
+            # the call may come from a function of a running query, which keeps its remaining statements and its tasker
+            outer_runners, executor.runners = executor.runners, deque()
+            outer_tasker = current_tasker()
+            try:
+                executor.run("execute[%d]" % self._execute_index, sqls)
+                executor.execute()
+            finally:
+                executor.runners = outer_runners
+                _thread_local.current_tasker = outer_tasker
 
     def get_database(self, db=None):
         return self.engine.get_database(db)
diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index ba6658a..ba253d7 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -100,13 +100,24 @@ class Executor(object):
         self.manager = manager
         self.session_config = session_config
         self.parent_executor = parent_executor
-        self.runners = deque()
+        self.local_runners = threading.local()
         self.tasker = None
         if self.global_env_variables is None:
             self.__class__.global_env_variables = EnvVariables.build_global(session_config)
         self.env_variables = EnvVariables(parent_executor.env_variables if parent_executor
                                           else self.global_env_variables)
 
+    @property
+    def runners(self):
+        # each thread runs the statements it has submitted itself
+        if not hasattr(self.local_runners, "runners"):
+            self.local_runners.runners = deque()
+        return self.local_runners.runners
+
+    @runners.setter
+    def runners(self, runners):
+        self.local_runners.runners = runners
+
     def compile_variable(self, sql):
         def get_variable_value(variable, default_value):
             variable_name = variable[2:-1].split(":")[0]
@@ -182,14 +193,14 @@ class Executor(object):
     def execute(self):
         self._thread_local.current_executor = self
         while self.runners:
-            self.tasker = self.runners.popleft()
+            outer_tasker, self.tasker = self.tasker, self.runners.popleft()
             try:
                 self.tasker.run(self, self.session_config, self.manager)
             except BaseException:
                 self.runners.clear()
                 raise
             finally:
-                self.tasker = None
+                self.tasker = outer_tasker
 
     def terminate(self):
         if not self.tasker:
-- 
2.43.0


From bc8fdeda83376be4a25f60cd008e5cfe2c490a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:54 +0000
Subject: [PATCH 135/183] fix: first use of an engine by several threads sets
 it up once (C15)

---
 syncanysql/__init__.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index 19f1635..93b0352 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -96,12 +96,14 @@ class ExecuterContext(object):
 
 class ScriptEngine(object):
     default_instance = None
+    _instance_lock = threading.Lock()
 
     @classmethod
     def instance(cls, config=None):
-        if cls.default_instance is None:
-            cls.default_instance = ScriptEngine(config)
-        return cls.default_instance
+        with cls._instance_lock:
+            if cls.default_instance is None:
+                cls.default_instance = ScriptEngine(config)
+            return cls.default_instance
 
     @classmethod
     def current_context(cls):
@@ -113,15 +115,22 @@ class ScriptEngine(object):
         self.manager = None
         self.databases = {}
         self.executor = None
+        self._setup_lock = threading.RLock()
 
     def setup(self):
+        # the first calls may come from several threads, which all wait until the engine is set up
+        with self._setup_lock:
+            self._setup()
+
+    def _setup(self):
         if self.manager is not None:
             return
         init_execute_files = self.config.load(self.custom_config)
         self.config.config_logging()
         self.config.load_extensions()
-        self.manager = TaskerManager(DatabaseManager())
-        self.executor = Executor(self.manager, self.config.session())
+        manager = TaskerManager(DatabaseManager())
+        self.executor = Executor(manager, self.config.session())
+        self.manager = manager
         if init_execute_files:
             for init_execute_file in init_execute_files:
                 file_parser = FileParser(init_execute_file)
@@ -130,37 +139,31 @@ class ScriptEngine(object):
                     executor.execute()
 
     def get_variable(self, name, default=None):
-        if self.executor is None:
-            self.setup()
+        self.setup()
         if name and name[0] != "@":
             name = "@" + name
         return self.executor.env_variables.get(name, default)
 
     def set_variable(self, name, value):
-        if self.executor is None:
-            self.setup()
+        self.setup()
         if name and name[0] != "@":
             name = "@" + name
         self.executor.env_variables[name] = value
 
     def use(self, name, func_or_module):
-        if self.executor is None:
-            self.setup()
+        self.setup()
         self.executor.session_config.set(("imports", name), func_or_module)
 
     def context(self):
-        if self.executor is None:
-            self.setup()
+        self.setup()
         return ExecuterContext(self, Executor(self.manager, self.executor.session_config.session(), self.executor))
 
     def execute(self, sql):
-        if self.executor is None:
-            self.setup()
+        self.setup()
         return ExecuterContext(self, self.executor).execute(sql)
 
     def get_database(self, db=None):
-        if self.manager is None:
-            self.setup()
+        self.setup()
         db = db if db else "--"
         if db in self.databases:
             return self.databases[db]
-- 
2.43.0


From f73e3420eb71a939e82e51eb3bc4a2f8f3da7e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:31 +0000
Subject: [PATCH 136/183] fix: threads that use one engine take turns on its
 memory database object (C15)

---
 syncanysql/__init__.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index 93b0352..7f5f550 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -116,6 +116,7 @@ class ScriptEngine(object):
         self.databases = {}
         self.executor = None
         self._setup_lock = threading.RLock()
+        self._memory_lock = threading.RLock()
 
     def setup(self):
         # the first calls may come from several threads, which all wait until the engine is set up
@@ -181,24 +182,28 @@ class ScriptEngine(object):
     def get_memory_datas(self, name):
         if self.manager is None:
             return []
-        database = self.get_database("--")
-        query = database.query("--." + name, ["id"])
-        return copy_rows(query.commit())
+        with self._memory_lock:
+            database = self.get_database("--")
+            query = database.query("--." + name, ["id"])
+            return copy_rows(query.commit())
 
     def pop_memory_datas(self, name):
         if self.manager is None:
             return []
-        database = self.get_database("--")
-        query = database.query("--." + name, ["id"])
-        datas = copy_rows(query.commit())
-        delete = database.delete("--." + name, ["id"])
-        delete.commit()
-        return datas
+        # the threads that use the engine share this database object
+        with self._memory_lock:
+            database = self.get_database("--")
+            query = database.query("--." + name, ["id"])
+            datas = copy_rows(query.commit())
+            delete = database.delete("--." + name, ["id"])
+            delete.commit()
+            return datas
 
     def push_memory_datas(self, name, datas):
-        database = self.get_database("--")
-        insert = database.insert("--." + name, ["id"], datas=copy_rows(datas if isinstance(datas, list) else [datas]))
-        insert.commit()
+        with self._memory_lock:
+            database = self.get_database("--")
+            insert = database.insert("--." + name, ["id"], datas=copy_rows(datas if isinstance(datas, list) else [datas]))
+            insert.commit()
 
     def terminal(self):
         executer_context = ExecuterContext.current()
-- 
2.43.0


From 1a36a9b0c50749639982576fd78a7c42a753fd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:55 +0000
Subject: [PATCH 137/183] fix: SET of a subquery keeps quoted source and column
 names (C03, C14)

---
 syncanysql/compiler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 31ecc1e..798829d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -204,7 +204,7 @@ class Compiler(object):
                     value = expression.args["expression"].split("=")
                 else:
                     value = self.parse_const(expression.args["expression"], {}, arguments)["value"].split("=")
-                config = {"key": value[0].strip(), "value": "=".join(value[1:]).strip()}
+                config = {"key": value[0].strip(), "value": self.to_sql("=".join(value[1:]).strip())}
                 return SetCommandTasker(config)
             if expression.args["this"].lower() == "execute" and self.is_const(expression.args["expression"], {}, arguments):
                 filename = SqlParser(self.parse_const(expression.args["expression"], {}, arguments)["value"]).strip_comments()
@@ -223,8 +223,9 @@ class Compiler(object):
         elif isinstance(expression, sqlglot.expressions.Set) and expression.args.get("expressions") and len(expression.args.get("expressions")) == 1:
             set_item_expression = expression.args.get("expressions")[0]
             if isinstance(set_item_expression, sqlglot_expressions.SetItem) and isinstance(set_item_expression.args["this"], sqlglot_expressions.EQ):
+                # the value is compiled again, with the names as they were written
                 value = self.generate_sql(set_item_expression).split("=")
-                config = {"key": value[0].strip(), "value": "=".join(value[1:]).strip()}
+                config = {"key": value[0].strip(), "value": self.to_sql("=".join(value[1:]).strip())}
                 return SetCommandTasker(config)
         raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
 
-- 
2.43.0


From 2ce0c4626217b2eb21cb3d5d54337033f7016d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:20 +0000
Subject: [PATCH 138/183] fix: a run ended by a signal stops after the
 statement it cut and exits 130 (C22)

---
 syncanysql/main.py            | 19 +++++++++++++++++--
 syncanysql/taskers/execute.py |  1 +
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/syncanysql/main.py b/syncanysql/main.py
index af0249e..3b7a877 100644
--- a/syncanysql/main.py
+++ b/syncanysql/main.py
@@ -27,10 +27,22 @@ def main():
         print("syncany error: require sqlx or sql or prql file")
         exit(2)
 
+    terminated_signals = []
+
+    def terminate(signum):
+        # the running statement ends early, the ones after it do not run and the outcome is reported as a failure
+        terminated_signals.append(signum)
+        executor.runners.clear()
+        executor.terminate()
+
+    def check_terminated():
+        if terminated_signals:
+            raise SystemError("terminated by signal %d" % terminated_signals[0])
+
     try:
         if sys.platform != "win32":
-            signal.signal(signal.SIGHUP, lambda signum, frame: executor.terminate())
-            signal.signal(signal.SIGTERM, lambda signum, frame: executor.terminate())
+            signal.signal(signal.SIGHUP, lambda signum, frame: terminate(signum))
+            signal.signal(signal.SIGTERM, lambda signum, frame: terminate(signum))
 
         global_config = GlobalConfig()
         init_execute_files = global_config.load()
@@ -48,6 +60,7 @@ def main():
                         file_parser = FileParser(init_execute_file)
                         executor.run("init " + init_execute_file, file_parser.load())
                         executor.execute()
+                        check_terminated()
 
                 if not sys.stdin.isatty() and (not fileext or fileext not in (".sql", ".sqlx", ".prql")):
                     start_time = time.time()
@@ -60,6 +73,7 @@ def main():
                     get_logger().info("execute pipe sql start %d task", executor.get_tasker_index())
                     try:
                         executor.execute()
+                        check_terminated()
                     except Exception as e:
                         get_logger().info("execute pipe sql finish with Exception %s:%s %.2fms", e.__class__.__name__, e,
                                           (time.time() - start_time) * 1000)
@@ -74,6 +88,7 @@ def main():
                     get_logger().info("execute file %s start %d task", sys.argv[1], executor.get_tasker_index())
                     try:
                         executor.execute()
+                        check_terminated()
                     except Exception as e:
                         get_logger().info("execute file %s finish with Exception %s:%s %.2fms", sys.argv[1], e.__class__.__name__, e,
                                           (time.time() - start_time) * 1000)
diff --git a/syncanysql/taskers/execute.py b/syncanysql/taskers/execute.py
index 7a111bd..333aa5f 100644
--- a/syncanysql/taskers/execute.py
+++ b/syncanysql/taskers/execute.py
@@ -68,5 +68,6 @@ class ExecuteTasker(object):
     def terminate(self):
         if not self.executor:
             return
+        self.executor.runners.clear()
         self.executor.terminate()
         self.executor = None
-- 
2.43.0


From 7209e8d97f8fa22a47447cb91a53b476ae2ab3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 139/183] fix: a parameter that names a file is not taken for
 the script of a piped run (C22)

---
 syncanysql/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/main.py b/syncanysql/main.py
index 3b7a877..31fddca 100644
--- a/syncanysql/main.py
+++ b/syncanysql/main.py
@@ -19,7 +19,7 @@ def main():
     if os.getcwd() not in sys.path:
         sys.path.insert(0, os.getcwd())
     try:
-        fileext = os.path.splitext(sys.argv[1])[1].lower() if len(sys.argv) >= 2 else None
+        fileext = os.path.splitext(sys.argv[1])[1].lower() if len(sys.argv) >= 2 and sys.argv[1][:2] != "--" else None
     except:
         fileext = None
     if sys.stdin.isatty() and fileext and fileext not in (".sql", ".sqlx", ".prql"):
-- 
2.43.0


From 52d88511dc4a3a69224a3e5e67d13d9080699855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:38 +0000
Subject: [PATCH 140/183] fix: only a parameter value in quotes loses them
 (C22)

---
 syncanysql/executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index ba253d7..c155083 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -58,7 +58,7 @@ class EnvVariables(dict):
                 continue
             arg_info = arg[2:].split("=", 1)
             arg_value = arg_info[1] if len(arg_info) >= 2 else True
-            if isinstance(arg_value, str) and arg_value and arg_value[0] in ('"', "'"):
+            if isinstance(arg_value, str) and len(arg_value) >= 2 and arg_value[0] in ('"', "'") and arg_value[-1] == arg_value[0]:
                 arg_value = arg_value[1:-1]
             env_variables[arg_info[0]] = arg_value
         return env_variables
-- 
2.43.0


From b34a4ec57e973a4ad7b58259a7f98a1398f0233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 141/183] fix: generator functions of imported modules expand
 to one row per item (C23)

---
 syncanysql/calculaters/__init__.py | 31 ++++++++++++++++++++++--------
 syncanysql/compiler.py             |  2 +-
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/syncanysql/calculaters/__init__.py b/syncanysql/calculaters/__init__.py
index 5c2459c..e87e84c 100644
--- a/syncanysql/calculaters/__init__.py
+++ b/syncanysql/calculaters/__init__.py
@@ -3,10 +3,10 @@
 # create by: snower
 
 import os
-import types
+import inspect
 from syncany.calculaters import CALCULATERS, Calculater, TypeFormatCalculater, TypingCalculater, MathematicalCalculater
 from syncany.calculaters import register_calculater, find_calculater, CalculaterUnknownException
-from syncany.calculaters.import_calculater import ImportCalculater
+from syncany.calculaters.import_calculater import ImportCalculater, create_import_calculater
 from .env_variable_calculater import CurrentEnvVariableCalculater
 from .query_tasker_calculater import ExecuteQueryTaskerCalculater
 from .row_calculater import *
@@ -62,14 +62,29 @@ def is_mysql_func(name):
     return name in MysqlCalculater.funcs
 
 
-def find_generate_calculater(name):
-    calculater = find_calculater(name)
+def find_generate_calculater(name, imports=None):
+    try:
+        calculater = find_calculater(name)
+    except CalculaterUnknownException:
+        import_name, _, attr_name = name.partition("::")
+        module_or_func = (imports or {}).get(import_name)
+        if isinstance(module_or_func, str):
+            module_or_func = __import__(module_or_func, globals(), locals(), [module_or_func.rpartition(".")[-1]])
+        if module_or_func is None:
+            raise
+        try:
+            if attr_name:
+                module_or_func = create_import_calculater(import_name, module_or_func)(name).module_or_func
+        except NotImplementedError:
+            raise CalculaterUnknownException("%s is unknown generate calculater" % name)
+        if inspect.isgeneratorfunction(module_or_func):
+            return ImportCalculater
+        raise CalculaterUnknownException("%s is unknown generate calculater" % name)
     if issubclass(calculater, ImportCalculater):
         try:
-            import_calculater = ImportCalculater(name)
-            if isinstance(import_calculater.module_or_func, (types.FunctionType, types.LambdaType)):
-                if import_calculater.module_or_func.__code__.co_flags & 0x20 != 0:
-                    return calculater
+            import_calculater = calculater(name)
+            if inspect.isgeneratorfunction(import_calculater.module_or_func):
+                return calculater
         except:
             pass
         raise CalculaterUnknownException("%s is unknown generate calculater" % name)
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 798829d..0b237ba 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1878,7 +1878,7 @@ class Compiler(object):
                     column.append(self.compile_calculate(arg_expression, config, arguments, primary_table, column_join_tables, join_index))
 
             try:
-                find_generate_calculater(calculater_name)
+                find_generate_calculater(column[0][1:].split("|")[0], self.config.get().get("imports"))
                 return ["#yield", column]
             except CalculaterUnknownException:
                 pass
-- 
2.43.0


From 22d3216452d497b71ed28679d2bc82c8b5022315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:47 +0000
Subject: [PATCH 142/183] fix: imports whose names have capitals can be called
 (C23)

---
 syncanysql/compiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 0b237ba..e2f8560 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1869,6 +1869,10 @@ class Compiler(object):
                         column = ["@" + calculater_name + "|" + calculater_name[8:]]
                 else:
                     calculater_modules = calculater_name.split("$")
+                    # the name of a function is lower case here, that of its import is as it was given
+                    imports = self.config.get().get("imports") or {}
+                    if calculater_modules[0] not in imports:
+                        calculater_modules[0] = next((name for name in imports if name.lower() == calculater_modules[0]), calculater_modules[0])
                     column = ["@" + calculater_modules[0] + (("::" + ".".join(calculater_modules[1:])) if len(calculater_modules) >= 2 else "")]
             for arg_expression in expression.args.get("expressions", []):
                 if self.is_const(arg_expression, config, arguments):
-- 
2.43.0


From 5ca0c3d61263027ef0d8a69ec02b4102fe9c7466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:17 +0000
Subject: [PATCH 143/183] fix: CAST to TIME gives a time (C24)

---
 syncanysql/compiler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index e2f8560..11eafbf 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -108,6 +108,13 @@ class CompilerDialect(sqlglot_dialects.Dialect):
             expression = self._parse_conjunction() or self._parse_function() or self._parse_id_var()
             return self.expression(AssignParameter, this=this, expression=expression, wrapped=wrapped)
 
+        def _parse_types(self, check_func=False):
+            is_time = self._curr and self._curr.token_type == sqlglot_parser.TokenType.TIME
+            this = sqlglot_parser.Parser._parse_types(self, check_func)
+            if is_time and this and this.args.get("this") == sqlglot_expressions.DataType.Type.TIMESTAMP:
+                this.set("this", sqlglot_expressions.DataType.Type.TIME)
+            return this
+
         def _parse_limit(self, this=None, top=False):
             if top or not self._match(sqlglot_parser.TokenType.LIMIT, False):
                 return sqlglot_parser.Parser._parse_limit(self, this, top)
-- 
2.43.0


From 849c4d78db95553c7bfb9db11e53331b389ff32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:23 +0000
Subject: [PATCH 144/183] fix: CONVERT with a type converts its value (C24)

---
 syncanysql/compiler.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 11eafbf..1f00bcb 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -115,6 +115,21 @@ class CompilerDialect(sqlglot_dialects.Dialect):
                 this.set("this", sqlglot_expressions.DataType.Type.TIME)
             return this
 
+        def _parse_convert(self, strict):
+            index = self._index
+            this = self._parse_bitwise()
+            if not self._match(sqlglot_parser.TokenType.COMMA):
+                self._retreat(index)
+                return sqlglot_parser.Parser._parse_convert(self, strict)
+            if self._match_text_seq("SIGNED") or self._match_text_seq("UNSIGNED"):
+                self._match_text_seq("INTEGER")
+                to = sqlglot_expressions.DataType(this=sqlglot_expressions.DataType.Type.BIGINT)
+            else:
+                to = self._parse_types()
+                if not to:
+                    self.raise_error("Expected TYPE after CONVERT")
+            return self.expression(sqlglot_expressions.Cast, this=this, to=to)
+
         def _parse_limit(self, this=None, top=False):
             if top or not self._match(sqlglot_parser.TokenType.LIMIT, False):
                 return sqlglot_parser.Parser._parse_limit(self, this, top)
-- 
2.43.0


From 89d8b0ab2b38b154bc2b2e4fba0eb02aa4259cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:53 +0000
Subject: [PATCH 145/183] fix: dates and times are compared with text as dates
 and times (C24)

---
 .../calculaters/mysql_funcs/logical_funcs.py  | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/logical_funcs.py b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
index 0d4c787..456e0ac 100644
--- a/syncanysql/calculaters/mysql_funcs/logical_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
@@ -2,9 +2,33 @@
 # 2023/5/29
 # create by: snower
 
+import datetime
 from syncany.calculaters import typing_filter
+from syncany.utils import get_timezone, parse_datetime, parse_time
 from ...utils import NumberDecimalTypes, ensure_number, ensure_str
 
+
+def ensure_comparable(a, b):
+    # a string is compared with a date or time as one of these, a date with a datetime as its midnight
+    def ensure_datetime(x):
+        if isinstance(x, str):
+            return parse_datetime(x, None, get_timezone())
+        if not isinstance(x, datetime.datetime):
+            return datetime.datetime(x.year, x.month, x.day, tzinfo=get_timezone())
+        return x if x.tzinfo else x.replace(tzinfo=get_timezone())
+
+    def ensure_time(x):
+        return (parse_time(x, None, get_timezone()) if isinstance(x, str) else x).replace(tzinfo=None)
+
+    try:
+        if isinstance(a, (datetime.time, str)) and isinstance(b, (datetime.time, str)):
+            return ensure_time(a), ensure_time(b)
+        if isinstance(a, (datetime.date, str)) and isinstance(b, (datetime.date, str)):
+            return ensure_datetime(a), ensure_datetime(b)
+    except ValueError:
+        pass
+    return a, b
+
 @typing_filter(int)
 def mysql_eq(a, b):
     if a.__class__ == b.__class__:
@@ -13,6 +37,7 @@ def mysql_eq(a, b):
         return 1 if a == b else 0
     if a is None or b is None:
         return None
+    a, b = ensure_comparable(a, b)
     if isinstance(a, NumberDecimalTypes):
         if isinstance(b, NumberDecimalTypes):
             return 1 if a == b else 0
@@ -41,6 +66,7 @@ def mysql_neq(a, b):
         return 1 if a != b else 0
     if a is None or b is None:
         return None
+    a, b = ensure_comparable(a, b)
     if isinstance(a, NumberDecimalTypes):
         if isinstance(b, NumberDecimalTypes):
             return 1 if a != b else 0
@@ -72,6 +98,7 @@ def mysql_gt(a, b):
             pass
     if a is None or b is None:
         return None
+    a, b = ensure_comparable(a, b)
     if isinstance(a, NumberDecimalTypes):
         if isinstance(b, NumberDecimalTypes):
             return 1 if a > b else 0
@@ -103,6 +130,7 @@ def mysql_gte(a, b):
             pass
     if a is None or b is None:
         return None
+    a, b = ensure_comparable(a, b)
     if isinstance(a, NumberDecimalTypes):
         if isinstance(b, NumberDecimalTypes):
             return 1 if a >= b else 0
@@ -134,6 +162,7 @@ def mysql_lt(a, b):
             pass
     if a is None or b is None:
         return None
+    a, b = ensure_comparable(a, b)
     if isinstance(a, NumberDecimalTypes):
         if isinstance(b, NumberDecimalTypes):
             return 1 if a < b else 0
@@ -165,6 +194,7 @@ def mysql_lte(a, b):
             pass
     if a is None or b is None:
         return None
+    a, b = ensure_comparable(a, b)
     if isinstance(a, NumberDecimalTypes):
         if isinstance(b, NumberDecimalTypes):
             return 1 if a <= b else 0
-- 
2.43.0


From 4e0ccdfd98970293d74b4e68bd9728d50a9ed937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:49 +0000
Subject: [PATCH 146/183] fix: ORDER BY a converted column orders by the
 converted values (C24)

---
 syncanysql/compiler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 1f00bcb..e907906 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2238,6 +2238,14 @@ class Compiler(object):
                                                  % self.to_sql(expression))
             desc = True if order_expression.args["desc"] else False
             column = self.parse_column(order_expression.args["this"], config, arguments)
+            if column["typing_filters"]:
+                # the source holds unconverted values, only the result can be ordered by a converted column
+                column_aliases = self.find_select_column_aliases(config, arguments, primary_table, column)
+                if not column_aliases:
+                    raise SyncanySqlCompileException('unknown order by column, the order by field must appear in the select field, related sql "%s"'
+                                                     % self.to_sql(expression))
+                sort_keys.append((column_aliases[0], desc))
+                continue
             if not isinstance(config["schema"], dict):
                 primary_sort_keys.append([column["column_name"], desc])
                 sort_keys.append((column["column_name"], desc))
-- 
2.43.0


From 6b785d994e66e4b028c8ddc5250a58fcbf9c816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:14 +0000
Subject: [PATCH 147/183] fix: every type of an annotation with several types
 is applied (C24)

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index e907906..a4a346a 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2301,7 +2301,7 @@ class Compiler(object):
                 child_filter_column = ":$.*|" + typing_filters[0]
                 if len(typing_filters) == 1:
                     return child_filter_column
-                return [typing_filter_column, compile_column_filter(typing_filters[1:])]
+                return [child_filter_column, compile_column_filter(typing_filters[1:])]
             return [typing_filter_column, compile_column_filter(column["typing_filters"][1:])]
         return ("$" * scope_depth) + "." + column["column_name"]
     
-- 
2.43.0


From 6590ec727b01723f35b9b9c214d26cacafb50d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:22 +0000
Subject: [PATCH 148/183] fix: a conversion of a typed column converts its
 typed value (C24)

---
 syncanysql/compiler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index a4a346a..ffb728a 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2996,7 +2996,7 @@ class Compiler(object):
                 convert_typing_filter = self.TYPE_FILTERS[calculater_name[8:]]
                 expression = expression.args["expressions"][0]
 
-        typing_filters = [convert_typing_filter] if convert_typing_filter else []
+        typing_filters = []
         db_name = expression.args["db"].name if expression.args.get("db") else None
         table_name = expression.args["table"].name if expression.args.get("table") else None
         column_name = expression.args["this"].name
@@ -3017,10 +3017,11 @@ class Compiler(object):
                     except:
                         pass
             column_name = origin_name[:start_index]
-            typing_name = (column_name + "|" + typing_filters[0]) if typing_filters else column_name
         except ValueError:
             column_name = origin_name
-            typing_name = column_name
+        if convert_typing_filter:
+            typing_filters.append(convert_typing_filter)
+        typing_name = (column_name + "|" + typing_filters[0]) if typing_filters else column_name
         try:
             start_index, end_index = origin_name.index("<"), origin_name.rindex(">")
             typing_options = origin_name[start_index+1: end_index].split(",")
-- 
2.43.0


From 0867e4280b1f3d889bf35ef2e60e895b51e08a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:27 +0000
Subject: [PATCH 149/183] fix: a condition on a CAST column of a database table
 compares the converted values (C24)

---
 syncanysql/compiler.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index ffb728a..d66ddbe 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1037,9 +1037,11 @@ class Compiler(object):
         ji = [j for j in range(len(column_join_tables)) if join_column["table_name"] == column_join_tables[j]["name"]][0]
         return self.compile_column(expression, config, arguments, join_column, ji - ci)
 
-    def is_untyped_table(self, config, table):
-        # the values of files and memory tables have no declared type, they are compared after they have been converted
-        return self.find_database_driver(config, table["db"]) in ("memory", "textline", "json", "csv", "execl")
+    def is_converted_column(self, column, config, table):
+        # a CAST column and typed columns of files and memory tables, that values have no declared type, are compared after they have been converted
+        if column["convert_typing_filter"]:
+            return True
+        return bool(column["typing_filters"]) and self.find_database_driver(config, table["db"]) in ("memory", "textline", "json", "csv", "execl")
 
     def find_database_driver(self, config, name):
         databases = {d.get("name"): d.get("driver") for d in (self.config.get().get("databases") or []) + (config.get("databases") or [])}
@@ -1105,7 +1107,7 @@ class Compiler(object):
                 if right_column["table_name"] and primary_table["table_name"] != right_column["table_name"]:
                     return None, None
                 left_expression, right_expression, left_column = right_expression, left_expression, right_column
-            if left_column is None or (left_column["typing_filters"] and not is_delete and self.is_untyped_table(config, primary_table)):
+            if left_column is None or (not is_delete and self.is_converted_column(left_column, config, primary_table)):
                 return None, None
 
             if isinstance(right_expression, list):
@@ -2475,7 +2477,7 @@ class Compiler(object):
                 for value_expression_item in value_expression:
                     self.parse_calculate(value_expression_item, config, arguments, primary_table, calculate_fields)
             if not condition_column or calculate_fields or condition_column["table_name"] != join_table["name"] \
-                    or (condition_column["typing_filters"] and self.is_untyped_table(config, join_table)):
+                    or self.is_converted_column(condition_column, config, join_table):
                 self.parse_calculate(right_expression if value_expression is left_expression else left_expression,
                                      config, arguments, primary_table, calculate_fields)
                 for calculate_field in calculate_fields:
-- 
2.43.0


From f7033c3560b28d8770681fa48f837d5f3207271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:08 +0000
Subject: [PATCH 150/183] fix: SELECT * with conditions reads every column of a
 database table (C27)

---
 syncanysql/taskers/query.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index ce20c97..9df026c 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -404,6 +404,9 @@ class QueryTasker(object):
                 compile_arguments["@insert_batch"] = 0
 
         tasker.compile(compile_arguments)
+        if getattr(tasker.loader, "key_matchers", None) and tasker.loader.predicate is not None:
+            # every field is read for SELECT *, not only the fields of the conditions
+            tasker.loader.predicate.get_fields = lambda: []
         if "@verbose" in compile_arguments and compile_arguments["@verbose"]:
             warp_database_logging(tasker)
 
-- 
2.43.0


From 294c1bacc9d4f19a393ddf9a21a24a527059ed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:11 +0000
Subject: [PATCH 151/183] fix: raw SQL blocks reach the database as written
 (C27)

---
 syncanysql/executor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index c155083..2c290e8 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -169,9 +169,7 @@ class Executor(object):
                     raw_name_info = raw_name.split(".")
                     if len(raw_name_info) != 2:
                         raise SyncanySqlCompileException("raw sql name error: %s", raw)
-                    raw_sql = "set @config.databases." + raw_name_info[0] + ".virtual_views." \
-                              + raw_name_info[1] + "='''\n" + raw_sql.strip() + "\n'''"
-                    self.compile(name + "(" + str(lineno) + ")#set_virtual_view", raw_sql)
+                    self.session_config.set(["databases", raw_name_info[0], "virtual_views", raw_name_info[1]], raw_sql.strip())
                     sql = sql.replace(raw, raw_name)
                 self.compile(name + "(" + str(lineno) + ")", sql)
         except BaseException:
-- 
2.43.0


From 18018c4ee1739690c10cf01c33b42160c1dfc454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:15 +0000
Subject: [PATCH 152/183] fix: the triple-quoted text of a SET is taken as
 written (C27)

---
 syncanysql/compiler.py |  7 +++++++
 syncanysql/parser.py   | 17 +++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index d66ddbe..a424053 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3,6 +3,7 @@
 # create by: snower
 
 import os
+import re
 import copy
 import uuid
 
@@ -28,6 +29,8 @@ from .taskers.execute import ExecuteTasker
 from .taskers.use import UseCommandTasker
 from .taskers.show import ShowCommandTasker
 
+SET_TEXT_RE = re.compile(r"^\s*set\s+((?:global\s+)?@[\w.]+)\s*=\s*('{3}(?:(?!'{3}).)*'{3}|\"{3}(?:(?!\"{3}).)*\"{3})\s*;?\s*$", re.DOTALL | re.IGNORECASE)
+
 
 class AssignParameter(sqlglot_expressions.Parameter):
     arg_types = {"this": True, "expression": False, "wrapped": False}
@@ -188,6 +191,10 @@ class Compiler(object):
         self.mapping = {}
 
     def compile(self, sql, arguments):
+        set_text = SET_TEXT_RE.match(sql)
+        if set_text:
+            # the text between triple quotes is not SQL of this statement
+            return SetCommandTasker({"key": set_text.group(1), "value": set_text.group(2)})
         try:
             expression = maybe_parse(self.parse_mapping(sql), dialect=CompilerDialect)
             return self.compile_expression(expression, arguments)
diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index dc022e8..7043133 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -3,8 +3,11 @@
 # create by: snower
 
 import os
+import re
 from .errors import SyncanySqlCompileException
 
+SET_CONFIG_RE = re.compile(r"^set\s+(global\s+)?@(config|databases|virtual_views)\.[\w.]+\s*=\s*$", re.IGNORECASE)
+
 
 class SqlSegment(object):
     def __init__(self, sql, lineno=None):
@@ -55,6 +58,18 @@ class SqlParser(object):
         self.next()
         raise EOFError(self.sql[start_index:])
 
+    def skip_config_text(self, start_index):
+        # the text of a config value between triple quotes is read as it is written
+        quote = self.sql[self.index: self.index + 3]
+        if quote not in ("'''", '"""') or not SET_CONFIG_RE.match(self.sql[start_index: self.index]):
+            return False
+        end_index = self.sql.find(quote, self.index + 3)
+        if end_index < 0:
+            return False
+        while self.index < end_index + 3:
+            self.next()
+        return True
+
     def read_util(self, cs, escape_chars=('"', "'")):
         start_index = self.index
         while self.index < self.len:
@@ -122,6 +137,8 @@ class SqlParser(object):
             if self.sql[self.index] in ('`', '"', "'"):
                 if start_index is None:
                     lineno, start_index = self.lineno, self.index
+                elif self.skip_config_text(start_index):
+                    continue
                 self.skip_escape(self.sql[self.index])
                 continue
             if self.sql[self.index] == "#":
-- 
2.43.0


From e352154ac4a97dcb2543d2aeb9232f96a3f30d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:18 +0000
Subject: [PATCH 153/183] fix: LEFT OUTER JOIN is a left join (C06)

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index a424053..cbe1e7b 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2322,7 +2322,7 @@ class Compiler(object):
     def parse_joins(self, expression, config, arguments, primary_table, join_expressions):
         join_tables = {}
         for join_expression in join_expressions:
-            if (join_expression.kind and join_expression.kind.lower() != "cross") \
+            if (join_expression.kind and join_expression.kind.lower() not in (("cross", "outer") if join_expression.side else ("cross",))) \
                     or (join_expression.side and join_expression.side.lower() != "left"):
                 raise SyncanySqlCompileException('unknown join expression, unsupported join type, related sql "%s"' % self.to_sql(join_expression))
             if isinstance(join_expression.args["this"], sqlglot_expressions.Table):
-- 
2.43.0


From ac0a08f961d859faece703c0ed39af2dee87b57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:41 +0000
Subject: [PATCH 154/183] fix: SET @virtual_views.db.name defines a view of the
 database (C27)

---
 syncanysql/taskers/set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 1ead37f..28b3f8c 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -22,7 +22,8 @@ class SetCommandTasker(object):
         if name in ("databases", "imports", "sources", "defines", "variables", "options", "caches"):
             self.set_config(session_config, key[1:], is_global)
         elif name == "virtual_views":
-            self.set_config(session_config, "databases." + key[1:], is_global)
+            keys = key[1:].split(".")
+            self.set_config(session_config, ".".join(["databases"] + keys[1:2] + ["virtual_views"] + keys[2:]), is_global)
         elif key[:7] == "@config":
             self.set_config(session_config, key[8:].strip(), is_global)
         else:
-- 
2.43.0


From 5e5989c3f04113e215374560c59ce0a58c1d63f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:37 +0000
Subject: [PATCH 155/183] fix: INNER JOIN on a column whose name needs quotes
 (C06)

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index cbe1e7b..9e8e577 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3480,7 +3480,7 @@ class Compiler(object):
             if join_expression.args.get("on"):
                 sql.append("ON " + self.generate_sql(join_expression.args["on"]))
 
-        inner_condition_sql = " AND ".join(["%s.%s IS NOT NULL" % (calculate_field["table_name"], calculate_field["column_name"])
+        inner_condition_sql = " AND ".join(["%s.`%s` IS NOT NULL" % (calculate_field["table_name"], calculate_field["column_name"])
                                             for calculate_field in inner_calculate_fields])
         if expression.args.get("where"):
             if isinstance(expression.args["where"].args["this"], sqlglot_expressions.Or):
-- 
2.43.0


From a4940153550e462350126ea80cb4c9812fbe4d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:06 +0000
Subject: [PATCH 156/183] fix: conditions, joins and ORDER BY on a path into a
 nested value of a file or memory table (C28)

---
 syncanysql/compiler.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 9e8e577..c5a0526 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1048,8 +1048,14 @@ class Compiler(object):
         # a CAST column and typed columns of files and memory tables, that values have no declared type, are compared after they have been converted
         if column["convert_typing_filter"]:
             return True
+        if self.is_searched_path(column, config, table):
+            return True
         return bool(column["typing_filters"]) and self.find_database_driver(config, table["db"]) in ("memory", "textline", "json", "csv", "execl")
 
+    def is_searched_path(self, column, config, table):
+        # files and memory tables are searched by the fields of a row only, not by what is inside of a value
+        return "." in column["column_name"] and self.find_database_driver(config, table.get("db")) in ("memory", "textline", "json", "csv", "execl")
+
     def find_database_driver(self, config, name):
         databases = {d.get("name"): d.get("driver") for d in (self.config.get().get("databases") or []) + (config.get("databases") or [])}
         return databases.get(name)
@@ -1114,7 +1120,8 @@ class Compiler(object):
                 if right_column["table_name"] and primary_table["table_name"] != right_column["table_name"]:
                     return None, None
                 left_expression, right_expression, left_column = right_expression, left_expression, right_column
-            if left_column is None or (not is_delete and self.is_converted_column(left_column, config, primary_table)):
+            if left_column is None or (not is_delete and self.is_converted_column(left_column, config, primary_table)) \
+                    or self.is_searched_path(left_column, config, primary_table):
                 return None, None
 
             if isinstance(right_expression, list):
@@ -2247,7 +2254,7 @@ class Compiler(object):
                                                  % self.to_sql(expression))
             desc = True if order_expression.args["desc"] else False
             column = self.parse_column(order_expression.args["this"], config, arguments)
-            if column["typing_filters"]:
+            if column["typing_filters"] or self.is_searched_path(column, config, primary_table):
                 # the source holds unconverted values, only the result can be ordered by a converted column
                 column_aliases = self.find_select_column_aliases(config, arguments, primary_table, column)
                 if not column_aliases:
@@ -2438,12 +2445,14 @@ class Compiler(object):
 
             condition_column, value_column, join_on_expression, value_expression = left_column, None, None, right_expression
             if isinstance(expression, sqlglot_expressions.EQ):
-                if left_column and left_column["table_name"] == join_table["name"] and not left_column["convert_typing_filter"]:
+                if left_column and left_column["table_name"] == join_table["name"] and not left_column["convert_typing_filter"] \
+                        and not self.is_searched_path(left_column, config, join_table):
                     condition_column, value_column, value_expression = left_column, right_column, right_expression
                     if not value_column and not self.is_const(right_expression, config, arguments) and not isinstance(right_expression, list) \
                             and not self.is_subquery(right_expression, config, arguments):
                         join_on_expression = right_expression
-                elif right_column and right_column["table_name"] == join_table["name"] and not right_column["convert_typing_filter"]:
+                elif right_column and right_column["table_name"] == join_table["name"] and not right_column["convert_typing_filter"] \
+                        and not self.is_searched_path(right_column, config, join_table):
                     condition_column, value_column, value_expression = right_column, left_column, left_expression
                     if not value_column and not self.is_const(left_expression, config, arguments) and not isinstance(left_expression, list) \
                             and not self.is_subquery(left_expression, config, arguments):
-- 
2.43.0


From 56bbfc3bb1868b9ed30c606901f4101a2a0a3044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:13 +0000
Subject: [PATCH 157/183] fix: get_value reaches into columns of joined tables
 and of an enclosing query (C28)

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index c5a0526..5e4d181 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1866,7 +1866,7 @@ class Compiler(object):
                     if len(get_value_expressions) >= 2:
                         column.append(get_value_parse(get_value_expressions[1:]))
                     return column[0] if len(column) == 1 else column
-                if not isinstance(column[0], str):
+                if not isinstance(column[0], str) or column_join_tables or column[0].startswith("$$"):
                     column = ["#if", True, column[0], None]
                 column.append(get_value_parse(get_value_expressions[1:]))
                 return column
-- 
2.43.0


From 1fa8757e2a76e915c54b76e086091cf96df18abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:16 +0000
Subject: [PATCH 158/183] fix: a subquery correlated by a get_value of its
 table selects the column it needs (C28)

---
 syncanysql/compiler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5e4d181..37f80e8 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2758,8 +2758,10 @@ class Compiler(object):
                     parse_parent_calculate_condition(child_expression, join_parent_columns)
 
         def parse_calculate_condition(condition_expression, join_select_columns):
-            if self.is_column(condition_expression, config, arguments):
-                condition_column = self.parse_column(condition_expression, config, arguments)
+            is_value_column = self.is_column_value(condition_expression, config, arguments)
+            if is_value_column or self.is_column(condition_expression, config, arguments):
+                condition_column = self.parse_column(condition_expression.args["expressions"][0] if is_value_column
+                                                     else condition_expression, config, arguments)
                 if condition_column["table_name"] and condition_column["table_name"] not in current_tables:
                     return
                 column_key = self.generate_sql(condition_expression)
@@ -3199,6 +3201,11 @@ class Compiler(object):
                 break
         return "".join(segments)
 
+    def is_column_value(self, expression, config, arguments):
+        # get_value of a column is a value inside of the column
+        return isinstance(expression, sqlglot_expressions.Anonymous) and expression.args["this"].lower() == "get_value" \
+            and bool(expression.args.get("expressions")) and self.is_column(expression.args["expressions"][0], config, arguments)
+
     def is_column(self, expression, config, arguments, check_convert_type=True):
         if isinstance(expression, sqlglot_expressions.Column):
             return True
-- 
2.43.0


From cc5f746a2c16386afa094de17eca1832991a6a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:19 +0000
Subject: [PATCH 159/183] fix: one quoted name keeps one replacement name
 within a statement, so expressions over it match (C28)

---
 syncanysql/compiler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 37f80e8..1dd0b7d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3173,7 +3173,7 @@ class Compiler(object):
 
     def parse_mapping(self, sql):
         parser = SqlParser(sql)
-        segments = []
+        segments, allow_segments = [], {}
         last_start_index, last_end_index = 0, 0
 
         def get_allow_segment(segment):
@@ -3190,7 +3190,9 @@ class Compiler(object):
                 start_index, end_index, segment = parser.read_segment()
                 allow_segment = get_allow_segment(segment)
                 if allow_segment != segment:
-                    allow_segment = allow_segment + "_" + str(uuid.uuid1().int)
+                    if segment not in allow_segments:
+                        allow_segments[segment] = allow_segment + "_" + str(uuid.uuid1().int)
+                    allow_segment = allow_segments[segment]
                     self.mapping[allow_segment] = segment
                     segment = allow_segment
                 segments.append(parser.sql[last_end_index: start_index])
-- 
2.43.0


From 47c270853e4ba79f882ecb0cf7e568851a6f3f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:46 +0000
Subject: [PATCH 160/183] fix: a function of a value for each row, DISTINCT or
 a join over a subquery is not a transform of all of its rows (C29)

---
 syncanysql/compiler.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 1dd0b7d..5e658c0 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -182,6 +182,7 @@ class Compiler(object):
                    "char": "str", "varchar": "str", "nchar": "str", "text": "str", "mediumtext": "str", "tinytext": "str",
                    "bigint": "int", "mediumint": "int", "smallint": "int", "tinyint": "int", "decimal": "decimal", "double": "float",
                    "boolean": "bool", "binary": "bytes", "varbinary": "bytes", "blob": "bytes", "timestamp": "datetime"}
+    ROW_CALCULATERS = {"@row_index", "@row_last", "@uuid", "@objectid", "@snowflakeid", "@random", "@now", "@time_window", "@pyeval"}
 
     def __init__(self, config, env_variables, name):
         self.config = config
@@ -789,13 +790,16 @@ class Compiler(object):
         if not select_expressions or len(select_expressions) != 1 or not isinstance(select_expressions[0], sqlglot_expressions.Anonymous):
             return None
         if expression.args.get("group") or expression.args.get("where") or expression.args.get("having") \
-                or expression.args.get("order") or expression.args.get("limit") or expression.args.get("offset"):
+                or expression.args.get("order") or expression.args.get("limit") or expression.args.get("offset") \
+                or expression.args.get("distinct") or expression.args.get("joins"):
             return None
         calculate_fields = []
         self.parse_calculate(select_expressions[0], config, arguments, primary_table, calculate_fields)
         if calculate_fields:
             return None
         pipeline = self.compile_calculate(select_expressions[0], config, arguments, primary_table, [])
+        if self.is_row_calculate(pipeline):
+            return None
         if isinstance(pipeline, str):
             pipeline = [">>$.*|array", ":" + pipeline]
         else:
@@ -813,6 +817,12 @@ class Compiler(object):
         arguments["@limit"] = 0
         return config
 
+    def is_row_calculate(self, column):
+        # functions which give a value for each row, not one which transforms all of the rows
+        if not isinstance(column, list) or not isinstance(column[0], str):
+            return False
+        return column[0] == "#yield" or column[0].startswith("@mysql::") or column[0] in self.ROW_CALCULATERS
+
     def compile_select_into(self, expression, arguments):
         config = {"variables": []}
         if not isinstance(expression.args["this"], sqlglot_expressions.Table):
-- 
2.43.0


From 40ed571cce8e6e0f47cc58da547a730006dff6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:49 +0000
Subject: [PATCH 161/183] fix: LIMIT, and so the limit setting, applies to the
 rows a transform gives (C29)

---
 syncanysql/compiler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5e658c0..c2b1812 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -790,8 +790,7 @@ class Compiler(object):
         if not select_expressions or len(select_expressions) != 1 or not isinstance(select_expressions[0], sqlglot_expressions.Anonymous):
             return None
         if expression.args.get("group") or expression.args.get("where") or expression.args.get("having") \
-                or expression.args.get("order") or expression.args.get("limit") or expression.args.get("offset") \
-                or expression.args.get("distinct") or expression.args.get("joins"):
+                or expression.args.get("order") or expression.args.get("distinct") or expression.args.get("joins"):
             return None
         calculate_fields = []
         self.parse_calculate(select_expressions[0], config, arguments, primary_table, calculate_fields)
@@ -806,6 +805,12 @@ class Compiler(object):
             pipeline[0] = ">>" + pipeline[0]
             pipeline = pipeline[:1] + ["$.*|array"] + pipeline[1:]
         config["pipelines"].append(pipeline)
+        if expression.args.get("limit") or expression.args.get("offset"):
+            offset_value = max(int(expression.args["offset"].args["expression"].args["this"]), 0) if expression.args.get("offset") else 0
+            slice_pipeline = [">>@array::slice", "$.*|array", offset_value]
+            if expression.args.get("limit"):
+                slice_pipeline.append(offset_value + max(int(expression.args["limit"].args["expression"].args["this"]), 0))
+            config["pipelines"].append(slice_pipeline)
         config["input"] = "".join(["&.", primary_table["db"], ".", primary_table["name"], "::",
                                    "+".join(primary_table["loader_primary_keys"]) if primary_table["loader_primary_keys"] else "id",
                                    (" use " + arguments["@use_input"]) if arguments.get("@use_input") else ""])
-- 
2.43.0


From 475d7510ea9bed0a650208850e7606948747dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:58 +0000
Subject: [PATCH 162/183] fix: a recursive CTE with UNION does not read a row
 it already has again, so it ends on cycles (C30)

---
 syncanysql/compiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index c2b1812..d9303a0 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -349,6 +349,10 @@ class Compiler(object):
                     dependency_config["input"] = dependency_config["output"].split(" ")[0]
                     arguments[subquery_config["name"] + "@" + dependency_config["name"] + "@@batch"] = 1
                     arguments[subquery_config["name"] + "@" + dependency_config["name"] + "@@loop"] = True
+                    if sub_expression.args["this"].args.get("distinct") and isinstance(dependency_config["schema"], dict):
+                        # a row which is there already is not read again
+                        dependency_config["output"] = "".join([dependency_config["input"].split("::")[0], "::",
+                                                               "+".join(dependency_config["schema"].keys()), " use UI"])
             config["dependencys"].append(subquery_config)
 
     def compile_subquery(self, expression, arguments):
-- 
2.43.0


From bc8ebf677f081f51466aff776256d8afed678d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:31 +0000
Subject: [PATCH 163/183] fix: a recursive CTE ends in streaming mode (C30)

---
 syncanysql/compiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index d9303a0..cf4fb08 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -349,6 +349,7 @@ class Compiler(object):
                     dependency_config["input"] = dependency_config["output"].split(" ")[0]
                     arguments[subquery_config["name"] + "@" + dependency_config["name"] + "@@batch"] = 1
                     arguments[subquery_config["name"] + "@" + dependency_config["name"] + "@@loop"] = True
+                    arguments[subquery_config["name"] + "@" + dependency_config["name"] + "@@streaming"] = 0
                     if sub_expression.args["this"].args.get("distinct") and isinstance(dependency_config["schema"], dict):
                         # a row which is there already is not read again
                         dependency_config["output"] = "".join([dependency_config["input"].split("::")[0], "::",
-- 
2.43.0


From fa1bfef4c60ab2a2708e31fbda0089528cbf3b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:08 +0000
Subject: [PATCH 164/183] fix: the column list of a CTE or a derived table
 names its columns (C30)

---
 syncanysql/compiler.py | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index cf4fb08..6888b83 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -298,7 +298,12 @@ class Compiler(object):
         config["output"] = "".join(["&.", table_info["db"], ".", table_info["name"], "::id use DI"])
         return config
 
-    def compile_query(self, expression, arguments):
+    def parse_column_names(self, alias_expression):
+        if not isinstance(alias_expression, sqlglot_expressions.TableAlias) or not alias_expression.args.get("columns"):
+            return None
+        return [self.mapping.get(column.name, column.name) for column in alias_expression.args["columns"]]
+
+    def compile_query(self, expression, arguments, column_names=None):
         config = self.config.create_tasker_config()
         config.update({
             "extends": ["context://session/config"],
@@ -320,11 +325,19 @@ class Compiler(object):
             if expression.args.get("with"):
                 self.compile_with(expression.args.get("with"), config, arguments)
             if isinstance(expression, sqlglot_expressions.Union):
-                self.compile_union(expression, config, arguments)
+                self.compile_union(expression, config, arguments, column_names)
             elif isinstance(expression, sqlglot_expressions.Insert):
                 self.compile_insert_into(expression, config, arguments)
             elif isinstance(expression, sqlglot_expressions.Select):
                 self.compile_select(self.optimize_rewrite(expression, config, arguments), config, arguments)
+                if column_names:
+                    if not isinstance(config["schema"], dict) or len(config["schema"]) != len(column_names):
+                        raise SyncanySqlCompileException('error column list, the select has a different number of columns, related sql "%s"'
+                                                         % self.to_sql(expression))
+                    select_arguments = dict(arguments)
+                    arguments.clear()
+                    config, select_arguments = self.compile_union_columns(config, select_arguments, column_names)
+                    arguments.update(select_arguments)
             else:
                 raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
         finally:
@@ -338,7 +351,8 @@ class Compiler(object):
             if expression.args.get("recursive"):
                 self.with_tables[with_name] = table_name
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
-            subquery_config = self.compile_query(sub_expression.args["this"], subquery_arguments)
+            subquery_config = self.compile_query(sub_expression.args["this"], subquery_arguments,
+                                                 self.parse_column_names(sub_expression.args["alias"]))
             self.with_tables[with_name] = table_name
             subquery_config["output"] = "&.--." + table_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
             subquery_config["name"] = subquery_config["name"] + "#" + table_name + "#select"
@@ -367,7 +381,8 @@ class Compiler(object):
             subquery_name = "__subquery_" + str(uuid.uuid1().int) + "_" + table_name
         subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
         subquery_config = self.compile_query(expression if not isinstance(expression, sqlglot_expressions.Subquery)
-                                             else expression.args["this"], subquery_arguments)
+                                             else expression.args["this"], subquery_arguments,
+                                             self.parse_column_names(expression.args.get("alias")))
         subquery_config["output"] = "&.--." + subquery_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
         subquery_config["name"] = subquery_config["name"] + "#" + subquery_name[2:]
         arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
@@ -484,7 +499,7 @@ class Compiler(object):
         arguments.clear()
         arguments.update(insert_arguments)
 
-    def compile_union(self, expression, config, arguments):
+    def compile_union(self, expression, config, arguments, column_names=None):
         select_expressions, union_expressions, result_args = [], [], {}
         def parse_select(select_expression, is_last):
             if isinstance(select_expression, sqlglot_expressions.Subquery):
@@ -520,14 +535,25 @@ class Compiler(object):
             select_expressions = [distinct_expression] + select_expressions[distinct_indexs[-1] + 2:]
 
         query_name = "__unionquery_" + str(uuid.uuid1().int)
-        union_column_names, output_primary_key, output_type = None, None, "I"
+        union_column_names, output_primary_key, output_type = column_names, None, "I"
+        if column_names:
+            config["schema"] = {name: "$." + name for name in column_names}
         for select_expression in select_expressions:
             subquery_name = "__unionquery_" + str(uuid.uuid1().int)
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
             subquery_config = self.compile_query(select_expression, subquery_arguments)
             output_primary_key_type_info = subquery_config["output"].split("::")[-1].split(" use ")
             subquery_config["name"] = subquery_config["name"] + "#" + subquery_name[2:]
+            if column_names and not isinstance(subquery_config["schema"], dict):
+                raise SyncanySqlCompileException('unknown select * columns, related sql "%s"' % self.to_sql(expression))
             if isinstance(subquery_config["schema"], dict):
+                if column_names and select_expression is select_expressions[0]:
+                    # the result is ordered by the names of the first select
+                    names = dict(zip(subquery_config["schema"].keys(), column_names))
+                    for column in (result_args["order"].find_all(sqlglot_expressions.Column) if result_args.get("order") else ()):
+                        column_name = self.mapping.get(column.name, column.name)
+                        if column_name in names:
+                            column.set("this", sqlglot_expressions.to_identifier(names[column_name], quoted=True))
                 if union_column_names is None:
                     union_column_names = list(subquery_config["schema"].keys())
                     if isinstance(config["schema"], dict) or select_expression is select_expressions[0]:
-- 
2.43.0


From ffede4e1cc86cf69ac574fe452181b5a5f2d8585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:35 +0000
Subject: [PATCH 165/183] fix: CURDATE and CURRENT_DATE in the configured time
 zone (C31)

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 5e865ec..ab358db 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -60,11 +60,11 @@ def mysql_currenttimestamp():
 
 @typing_filter(datetime.date)
 def mysql_curdate():
-    return datetime.date.today()
+    return datetime.datetime.now(tz=get_timezone()).date()
 
 @typing_filter(datetime.date)
 def mysql_currentdate():
-    return datetime.date.today()
+    return datetime.datetime.now(tz=get_timezone()).date()
 
 @typing_filter(datetime.time)
 def mysql_curtime():
-- 
2.43.0


From e4d498f8e90437c3bce7a68997fb4790663ca118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:37 +0000
Subject: [PATCH 166/183] fix: IS TRUE and IS FALSE for numbers (C04)

---
 syncanysql/calculaters/mysql_funcs/logical_funcs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/logical_funcs.py b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
index 456e0ac..abfe1bd 100644
--- a/syncanysql/calculaters/mysql_funcs/logical_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/logical_funcs.py
@@ -248,6 +248,8 @@ def mysql_or(a, b):
 
 @typing_filter(int)
 def mysql_is(a, b):
+    if isinstance(b, bool):
+        return 1 if a is not None and bool(a) is b else 0
     if a.__class__ == b.__class__:
         return 1 if a is b else 0
     if a is None or b is None:
@@ -256,6 +258,8 @@ def mysql_is(a, b):
 
 @typing_filter(int)
 def mysql_is_not(a, b):
+    if isinstance(b, bool):
+        return 0 if a is not None and bool(a) is b else 1
     if a.__class__ == b.__class__:
         return 0 if a is b else 1
     if a is None or b is None:
-- 
2.43.0


From 40df8dc398908a987d6190568f6556ee210ec677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:20 +0000
Subject: [PATCH 167/183] fix: run every statement typed before Enter, not only
 the first (C32)

---
 syncanysql/prompt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/prompt.py b/syncanysql/prompt.py
index 7210708..2bee9e2 100644
--- a/syncanysql/prompt.py
+++ b/syncanysql/prompt.py
@@ -226,7 +226,7 @@ class CliPrompt(object):
                 if text[0] == "%":
                     self.run_magic_cmd(text[1:])
                     continue
-                self.executor.run("cli", [SqlSegment(text, lineno)])
+                self.executor.run("cli", [SqlSegment(sql.sql, lineno) for sql in SqlParser(text).split()])
                 try:
                     self.executor.execute()
                 except Exception as e:
-- 
2.43.0


From 34e95bc8501856805e6df0d9be4e1133acc993a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:24 +0000
Subject: [PATCH 168/183] fix: exit in any case ends the prompt without a
 semicolon (C32)

---
 syncanysql/prompt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/prompt.py b/syncanysql/prompt.py
index 2bee9e2..422981d 100644
--- a/syncanysql/prompt.py
+++ b/syncanysql/prompt.py
@@ -243,7 +243,7 @@ class CliPrompt(object):
 
     def check_complete(self, content):
         content = content.strip()
-        if not content or content[:4] == "exit" or content[0] in ("!", "%"):
+        if not content or content[:4].lower() == "exit" or content[0] in ("!", "%"):
             return False
         sql_parser = SqlParser(content)
         try:
-- 
2.43.0


From 70eeb0005bb2005d56ece3d600e372a9400b7720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:29 +0000
Subject: [PATCH 169/183] fix: comments and open quotes decide when a typed
 statement is complete (C32)

---
 syncanysql/parser.py | 19 ++++++++++++++++++-
 syncanysql/prompt.py |  2 +-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index 7043133..23e6dcf 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -105,8 +105,25 @@ class SqlParser(object):
         raise EOFError()
 
     def read_util_complete(self):
+        start_index = self.index
         while self.index < self.len:
-            return self.read_util(';', ('`', '"', "'"))
+            if self.sql[self.index] in ('`', '"', "'"):
+                if not self.skip_config_text(start_index):
+                    self.skip_escape(self.sql[self.index])
+                continue
+            if self.sql[self.index] == "#" or self.sql[self.index: self.index + 2] == "--":
+                self.read_util('\n', ())
+                continue
+            if self.sql[self.index: self.index + 2] == "/*":
+                self.index += 2
+                self.read_util("*/", ())
+                continue
+            if self.sql[self.index] == ';':
+                # what follows must not end inside quotes or a comment
+                self.split()
+                return
+            self.next()
+        raise EOFError(self.sql[start_index:])
 
     def strip_comments(self):
         segments, start_index = [], self.index
diff --git a/syncanysql/prompt.py b/syncanysql/prompt.py
index 422981d..680bca4 100644
--- a/syncanysql/prompt.py
+++ b/syncanysql/prompt.py
@@ -226,8 +226,8 @@ class CliPrompt(object):
                 if text[0] == "%":
                     self.run_magic_cmd(text[1:])
                     continue
-                self.executor.run("cli", [SqlSegment(sql.sql, lineno) for sql in SqlParser(text).split()])
                 try:
+                    self.executor.run("cli", [SqlSegment(sql.sql, lineno) for sql in SqlParser(text).split()])
                     self.executor.execute()
                 except Exception as e:
                     print(e.__class__.__name__ + ": " + str(e))
-- 
2.43.0


From c72d57c94f116f610b9eefdc32659e6dc97ad5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:34 +0000
Subject: [PATCH 170/183] fix: a table name variable assigned earlier in the
 script is read when the statement runs (C03)

---
 syncanysql/compiler.py | 2 +-
 syncanysql/executor.py | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 6888b83..333a682 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2950,7 +2950,7 @@ class Compiler(object):
                 table_name = self.env_variables.get_value("@" + expression.args["this"].name)
             except KeyError:
                 raise SyncanySqlCompileException('error table, undefine table name variable, related sql "%s"' % self.to_sql(expression))
-            if table_name is None:
+            if table_name is None or self.env_variables.is_pending("@" + expression.args["this"].name):
                 table_name = "#{env_variable__@" + expression.args["this"].name + "}"
             elif not isinstance(table_name, str):
                 raise SyncanySqlCompileException('error table, table name variable value must be str, related sql "%s"' % self.to_sql(expression))
diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 2c290e8..5618f70 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -77,6 +77,14 @@ class EnvVariables(dict):
             return None
         raise KeyError("%s unknown" % key)
 
+    def __setitem__(self, key, value):
+        self.declared_names.discard(key)
+        super(EnvVariables, self).__setitem__(key, value)
+
+    def is_pending(self, key):
+        # a statement compiled before assigns the value when it runs
+        return key in self.declared_names or (key not in self and self.parent is not None and self.parent.is_pending(key))
+
     def get(self, key, default=None):
         if key in self:
             return self[key]
-- 
2.43.0


From d036e33c8e5b37d42ea98f70b4f41f5586744f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:40 +0000
Subject: [PATCH 171/183] fix: a repeated condition of a correlated subquery
 reads the column it was first given (C10)

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 333a682..7724f2f 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2865,7 +2865,7 @@ class Compiler(object):
                     parent_column = self.generate_sql(right_condition_column["expression"])
                     column_key = (current_column, parent_column)
                     if column_key in join_parent_columns:
-                        column_alias = join_parent_columns[column_key][1]
+                        column_alias = join_parent_columns[column_key]["column_alias"]
                     else:
                         column_alias = "_subquery_join_parent_" + str(id(condition_expression))
                         join_parent_columns[column_key] = {
-- 
2.43.0


From cb3e3098eef49a4b60280d0499f909a95c08bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:43 +0000
Subject: [PATCH 172/183] fix: a correlated subquery that is a union is not
 reduced to its first select (C10)

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 7724f2f..6dab25a 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2759,7 +2759,7 @@ class Compiler(object):
                 self.parse_window_aggregate(child_expression, config, arguments, window_aggregate_expressions)
 
     def parse_subquery(self, expression, config, arguments, primary_table, join_tables):
-        if isinstance(expression, sqlglot_expressions.Select):
+        if isinstance(expression, (sqlglot_expressions.Select, sqlglot_expressions.Union)):
             sub_expression = expression
         else:
             sub_expression = expression.args["this"]
-- 
2.43.0


From 308dd8195427f29684a8e8b574770a06d0e46d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:45 +0000
Subject: [PATCH 173/183] fix: comparisons of rows with a subquery are refused
 instead of matching nothing (C10)

---
 syncanysql/compiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 6dab25a..b6c8c2d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2108,6 +2108,10 @@ class Compiler(object):
                                                column_join_tables, join_index)]
             return ["@current_env_variable::get_value", ["#const", "@" + name]]
         elif isinstance(expression, (sqlglot_expressions.Binary, sqlglot_expressions.Condition)):
+            operand_expressions = [expression.args.get(key) for key in ("this", "expression", "query")]
+            if any(isinstance(operand_expression, sqlglot_expressions.Tuple) for operand_expression in operand_expressions) \
+                    and any(self.is_subquery(operand_expression, config, arguments) for operand_expression in operand_expressions):
+                raise SyncanySqlCompileException('error condition, rows can not be compared with a subquery, related sql "%s"' % self.to_sql(expression))
             if isinstance(expression, sqlglot_expressions.And):
                 return [
                     "@mysql::and",
-- 
2.43.0


From 0cda05841a60b038c35973c3739d07e385dc7290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:49 +0000
Subject: [PATCH 174/183] fix: SELECT DISTINCT with window functions keeps the
 distinct rows of the computed values (C08)

---
 syncanysql/compiler.py | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index b6c8c2d..fd18e72 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3342,6 +3342,8 @@ class Compiler(object):
         from_expression = expression.args.get("from")
         if not from_expression or not from_expression.expressions:
             return expression
+        if expression.args.get("distinct") and self.has_select_window(expression, config, arguments):
+            return self.optimize_rewrite_distinct_window(expression, config, arguments)
         if len(from_expression.expressions) > 1:
             expression = self.optimize_rewrite_multi_select(expression, config, arguments, from_expression)
 
@@ -3359,6 +3361,45 @@ class Compiler(object):
                 break
         return expression
 
+    def has_select_window(self, expression, config, arguments):
+        window_expressions = []
+        for select_expression in expression.args["expressions"]:
+            if isinstance(select_expression, sqlglot_expressions.Star) or isinstance(select_expression.args.get("this"), sqlglot_expressions.Star):
+                return False
+            self.parse_window_aggregate(select_expression.args["this"] if isinstance(select_expression, sqlglot_expressions.Alias)
+                                        else select_expression, config, arguments, window_expressions)
+        return bool(window_expressions)
+
+    def optimize_rewrite_distinct_window(self, expression, config, arguments):
+        # the windows are computed over all rows, the rows of the result are the distinct ones of them
+        expression = expression.copy()
+        order_expression = expression.args.get("order")
+        select_expressions, column_names = [], {}
+        for i in range(len(expression.args["expressions"])):
+            select_expression = expression.args["expressions"][i]
+            if isinstance(select_expression, sqlglot_expressions.Alias):
+                value_expression = select_expression.args["this"]
+                column_name = result_name = select_expression.args["alias"].name
+            elif self.is_column(select_expression, config, arguments):
+                value_expression = select_expression
+                column_name = result_name = self.parse_column(select_expression, config, arguments)["column_name"].replace(".", "_")
+            else:
+                value_expression = select_expression
+                column_name, result_name = "__distinct_column_%d" % i, self.generate_sql(select_expression)
+                expression.args["expressions"][i] = sqlglot_expressions.alias_(select_expression, column_name, quoted=True)
+            column_names[self.generate_sql(value_expression).lower()] = result_name
+            select_expressions.append(sqlglot_expressions.alias_(sqlglot_expressions.column(column_name, quoted=True), result_name, quoted=True))
+        for ordered_expression in (order_expression.args["expressions"] if order_expression else []):
+            order_key = self.generate_sql(ordered_expression.args["this"]).lower()
+            if order_key in column_names:
+                ordered_expression.set("this", sqlglot_expressions.column(column_names[order_key], quoted=True))
+        distinct_expression = sqlglot_expressions.Select(expressions=select_expressions, **{
+            key: expression.args.pop(key) for key in ("distinct", "order", "limit", "offset") if expression.args.get(key)})
+        expression.args.pop("with", None)
+        expression.args.pop("into", None)
+        distinct_expression.set("from", sqlglot_expressions.From(expressions=[expression.subquery("distinct_query")]))
+        return distinct_expression
+
     def optimize_rewrite_multi_select(self, expression, config, arguments, from_expression):
         primary_table = self.optimize_rewrite_parse_table(expression, config, arguments,
                                                           expression.args["from"].expressions[0])
-- 
2.43.0


From 7f26a7fd3d708bb6a1cbf1c953a0af9969b4044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:51 +0000
Subject: [PATCH 175/183] fix: window frames and windows over aggregates that
 are not computed are refused instead of ignored (C11)

---
 syncanysql/compiler.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index fd18e72..e94c7e7 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1740,6 +1740,8 @@ class Compiler(object):
             else:
                 partition_expression = window_expression.args.get("partition_by")
                 order_expression = window_expression.args.get("order")
+                window = window_expression
+            self.check_window(window_expression, window, config, arguments, value_expressions, partition_expression, order_expression)
             partition_column = self.compile_window_key(partition_expression, config, arguments, primary_table,
                                                        join_tables) if partition_expression else None
             order_column = self.compile_window_order(order_expression, config, arguments, primary_table,
@@ -1804,6 +1806,31 @@ class Compiler(object):
             config["aggregate"]["window_schema"][column_alias]["final_value"] = config["schema"].pop(column_alias, None)
         primary_table["select_columns"][column_alias] = expression
 
+    def check_window(self, expression, window, config, arguments, value_expressions, partition_expression, order_expression):
+        spec_expression, is_window_aggregate = window.args.get("spec"), self.compile_window_calculate(expression)[0]
+        function_name = expression.args["this"].name.lower()
+        if spec_expression and (not is_window_aggregate or function_name in ("first_value", "last_value", "nth_value")):
+            # a value is computed over all rows of the partition, or over those up to the row when they are ordered
+            spec_start, spec_end = [" ".join([str(spec_expression.args.get(key) or "") for key in (side, side + "_side")]).strip().upper()
+                                    for side in ("start", "end")]
+            spec_ends = {"UNBOUNDED FOLLOWING"} if is_window_aggregate or not order_expression else {"CURRENT ROW", ""}
+            if function_name == "first_value":
+                spec_ends |= {"CURRENT ROW", ""}
+            if spec_start != "UNBOUNDED PRECEDING" or spec_end not in spec_ends \
+                    or (order_expression and not is_window_aggregate and str(spec_expression.args.get("kind")).upper() != "ROWS"):
+                raise SyncanySqlCompileException('error window aggregate, unsupported window frame, related sql "%s"' % self.to_sql(expression))
+        aggregate_expressions = []
+        for key_expression in (value_expressions or []) + (partition_expression or []) + [
+                ordered_expression.args["this"] for ordered_expression in (order_expression.args["expressions"] if order_expression else [])]:
+            self.parse_aggregate(key_expression, config, arguments, aggregate_expressions)
+            if self.is_column(key_expression, config, arguments):
+                column = self.parse_column(key_expression, config, arguments)
+                if not column["table_name"] and column["column_name"] in config["aggregate"]["schema"]:
+                    aggregate_expressions.append(key_expression)
+        if aggregate_expressions:
+            raise SyncanySqlCompileException('error window aggregate, the aggregates of groups can only be read from a subquery, related sql "%s"'
+                                             % self.to_sql(expression))
+
     def compile_window_key(self, expressions, config, arguments, primary_table, join_tables):
         if not expressions:
             return [["#const", "__k_g__"]]
-- 
2.43.0


From 4eb0d5d509c84528cc03a3422810e49422786b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:54 +0000
Subject: [PATCH 176/183] fix: JOIN USING compares the named columns instead of
 joining every row (C06)

---
 syncanysql/compiler.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index e94c7e7..d724ea8 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3369,6 +3369,9 @@ class Compiler(object):
         from_expression = expression.args.get("from")
         if not from_expression or not from_expression.expressions:
             return expression
+        if any(join_expression.args.get("using") for join_expression in expression.args.get("joins") or []):
+            expression = self.optimize_rewrite_join_using(expression, config, arguments)
+            from_expression = expression.args["from"]
         if expression.args.get("distinct") and self.has_select_window(expression, config, arguments):
             return self.optimize_rewrite_distinct_window(expression, config, arguments)
         if len(from_expression.expressions) > 1:
@@ -3388,6 +3391,26 @@ class Compiler(object):
                 break
         return expression
 
+    def optimize_rewrite_join_using(self, expression, config, arguments):
+        # USING compares the columns of the joined table with the ones of the first table
+        expression, using_names = expression.copy(), set()
+        primary_expression = expression.args["from"].expressions[0]
+        primary_alias = primary_expression.args["alias"].name if primary_expression.args.get("alias") else None
+        for i, join_expression in enumerate(expression.args["joins"]):
+            if not join_expression.args.get("using"):
+                continue
+            names = [name_expression.name for name_expression in join_expression.args["using"]]
+            if not join_expression.args["this"].args.get("alias") or (join_expression.side and join_expression.side.lower() != "left") \
+                    or (i > 0 and not using_names.issuperset(names)) or len(expression.args["from"].expressions) > 1:
+                raise SyncanySqlCompileException('unknown join expression, unsupported USING, related sql "%s"' % self.to_sql(join_expression))
+            join_alias = join_expression.args["this"].args["alias"].name
+            join_expression.set("using", None)
+            join_expression.set("on", sqlglot_expressions.and_(*[sqlglot_expressions.EQ(
+                this=sqlglot_expressions.column(name, table=join_alias, quoted=True),
+                expression=sqlglot_expressions.column(name, table=primary_alias, quoted=True)) for name in names]))
+            using_names.update(names)
+        return expression
+
     def has_select_window(self, expression, config, arguments):
         window_expressions = []
         for select_expression in expression.args["expressions"]:
-- 
2.43.0


From c8522fb2df7f038e06bf66fc59127b2d2ef94531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:57 +0000
Subject: [PATCH 177/183] fix: separators and further arguments of aggregates
 are refused instead of ignored (C07)

---
 syncanysql/compiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index d724ea8..f87c76b 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1672,6 +1672,10 @@ class Compiler(object):
         return value_column
 
     def compile_aggregate_calculate(self, expression):
+        separator_expression = expression.args.get("separator")
+        if (separator_expression and not (separator_expression.is_string and separator_expression.name == ",")) or (
+                isinstance(expression, (sqlglot_expressions.Min, sqlglot_expressions.Max)) and expression.args.get("expressions")):
+            raise SyncanySqlCompileException('error aggregate calculate, unsupported arguments, related sql "%s"' % self.to_sql(expression))
         if isinstance(expression, sqlglot_expressions.Count):
             if isinstance(expression.args.get("this"), sqlglot_expressions.Distinct):
                 return "@aggregate_distinct_count::aggregate", "@aggregate_distinct_count::reduce", "@aggregate_distinct_count::final_value"
-- 
2.43.0


From 836d662e114e9f5106cec64dee0713f81c5ee23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:00 +0000
Subject: [PATCH 178/183] fix: NULLS FIRST and NULLS LAST that differ from the
 sorting of NULL are refused instead of ignored (C09)

---
 syncanysql/compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index f87c76b..2524615 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1877,6 +1877,7 @@ class Compiler(object):
     def compile_window_order(self, expression, config, arguments, primary_table, join_tables):
         value_order_expressions, orders = [], []
         for order_expression in expression.args["expressions"]:
+            self.check_ordered(order_expression)
             order_key = self.generate_sql(order_expression.args["this"])
             orders.append([order_key, order_expression.args.get("desc")])
             value_order_expressions.append(order_expression.args["this"])
@@ -2315,9 +2316,14 @@ class Compiler(object):
                 return [("@mysql::" + func_name) if is_mysql_func(func_name) else ("@" + func_name), left_calculater]
             return [("@mysql::" + func_name) if is_mysql_func(func_name) else ("@" + func_name), left_calculater, right_calculater]
 
+    def check_ordered(self, expression):
+        if bool(expression.args.get("nulls_first")) == bool(expression.args.get("desc")):
+            raise SyncanySqlCompileException('unknown order by, NULL values only sort before all other values, related sql "%s"' % self.to_sql(expression))
+
     def compile_order(self, expression, config, arguments, primary_table):
         primary_sort_keys, sort_keys = [], []
         for order_expression in expression:
+            self.check_ordered(order_expression)
             if not self.is_column(order_expression.args["this"], config, arguments):
                 if isinstance(config["schema"], dict):
                     if self.generate_sql(order_expression.args["this"]) in config["schema"]:
-- 
2.43.0


From 25f2e8664208ea414523d27e239fb2540a958ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:03 +0000
Subject: [PATCH 179/183] fix: modifiers of INSERT and DELETE that are not
 executed are refused instead of ignored (C13)

---
 syncanysql/compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 2524615..d0f6cc0 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -270,6 +270,9 @@ class Compiler(object):
             expression.set("limit", sqlglot_expressions.Limit(expression=sqlglot_expressions.Literal.number(limit_value)))
 
     def compile_delete(self, expression, arguments):
+        for key in ("using", "returning"):
+            if expression.args.get(key):
+                raise SyncanySqlCompileException('error delete, unsupported %s, related sql "%s"' % (key.upper(), self.to_sql(expression)))
         config = self.config.create_tasker_config()
         config.update({
             "extends": ["context://session/config"],
@@ -390,6 +393,9 @@ class Compiler(object):
         return subquery_name, subquery_config
 
     def compile_insert_into(self, expression, config, arguments):
+        for key in ("overwrite", "partition", "exists", "conflict", "returning"):
+            if expression.args.get(key):
+                raise SyncanySqlCompileException('error insert into, unsupported %s, related sql "%s"' % (key.upper(), self.to_sql(expression)))
         columns = []
         if isinstance(expression.args["this"], sqlglot_expressions.Table):
             table_info = self.parse_table(expression.args["this"], config, arguments, True)
-- 
2.43.0


From 78e3d045c0fee54dac9448c21f5bb0f31b92f4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:06 +0000
Subject: [PATCH 180/183] fix: clauses of a SELECT that are not computed are
 refused instead of ignored (C34)

---
 syncanysql/compiler.py | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index d0f6cc0..bf7b8a7 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3382,6 +3382,7 @@ class Compiler(object):
         return isinstance(expression, (sqlglot_expressions.Subquery, sqlglot_expressions.Select, sqlglot_expressions.Union))
 
     def optimize_rewrite(self, expression, config, arguments):
+        self.check_select(expression, config, arguments)
         from_expression = expression.args.get("from")
         if not from_expression or not from_expression.expressions:
             return expression
@@ -3407,6 +3408,42 @@ class Compiler(object):
                 break
         return expression
 
+    def check_select(self, expression, config, arguments):
+        group_expression, distinct_expression = expression.args.get("group"), expression.args.get("distinct")
+        table_expressions = (expression.args["from"].expressions if expression.args.get("from") else []) \
+            + [join_expression.args["this"] for join_expression in expression.args.get("joins") or []]
+        where_aggregate_expressions, aggregate_expressions, nested_aggregate_expressions = [], [], []
+        if expression.args.get("where"):
+            self.parse_aggregate(expression.args["where"].args["this"], config, arguments, where_aggregate_expressions)
+        for select_expression in expression.args.get("expressions") or []:
+            self.parse_aggregate(select_expression.args["this"] if isinstance(select_expression, sqlglot_expressions.Alias)
+                                 else select_expression, config, arguments, aggregate_expressions)
+        for aggregate_expression in aggregate_expressions:
+            for value_expression in [aggregate_expression.args.get("this")] + (aggregate_expression.args.get("expressions") or []):
+                if isinstance(value_expression, sqlglot_expressions.Expression):
+                    self.parse_aggregate(value_expression, config, arguments, nested_aggregate_expressions)
+        for name, is_unsupported in (
+                ("aggregate in WHERE", where_aggregate_expressions),
+                ("aggregate of an aggregate", nested_aggregate_expressions),
+                ("QUALIFY", expression.args.get("qualify")),
+                ("DISTINCT ON", distinct_expression and distinct_expression.args.get("on")),
+                ("GROUP BY WITH ROLLUP, CUBE, GROUPING SETS or TOTALS", group_expression and any(
+                    group_expression.args.get(key) for key in ("rollup", "cube", "grouping_sets", "totals"))),
+                ("GROUP BY of a column position", group_expression and any(
+                    isinstance(key_expression, sqlglot_expressions.Literal) and not key_expression.is_string
+                    for key_expression in group_expression.args.get("expressions") or [])),
+                ("SORT BY, CLUSTER BY or DISTRIBUTE BY", any(expression.args.get(key) for key in ("sort", "cluster", "distribute"))),
+                ("NATURAL JOIN", any(join_expression.args.get("natural") for join_expression in expression.args.get("joins") or [])),
+                ("PIVOT", any(table_expression.args.get("pivots") for table_expression in table_expressions)),
+                ("column names of a table alias", any(
+                    isinstance(table_expression, sqlglot_expressions.Table) and table_expression.args.get("alias")
+                    and table_expression.args["alias"].args.get("columns") for table_expression in table_expressions)),
+                ("EXCEPT or REPLACE of *", any(
+                    isinstance(select_expression, sqlglot_expressions.Star) and (select_expression.args.get("except") or select_expression.args.get("replace"))
+                    for select_expression in expression.args.get("expressions") or []))):
+            if is_unsupported:
+                raise SyncanySqlCompileException('error select, unsupported %s, related sql "%s"' % (name, self.to_sql(expression)))
+
     def optimize_rewrite_join_using(self, expression, config, arguments):
         # USING compares the columns of the joined table with the ones of the first table
         expression, using_names = expression.copy(), set()
-- 
2.43.0


From b7677f1e5db111d3a4c4f5ddb36e61ac231ae233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:12 +0000
Subject: [PATCH 181/183] =?UTF-8?q?fix:=20refuse=20HAVING=20=E2=80=A6=20IN?=
 =?UTF-8?q?=20lists=20naming=20columns=20outside=20the=20query=20result=20?=
 =?UTF-8?q?(C34)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 syncanysql/compiler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index bf7b8a7..705a259 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2260,6 +2260,15 @@ class Compiler(object):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in right_expression]
                     return left_calculater, ["#const", value_items]
+                calculate_fields = []
+                for value_expression_item in right_expression:
+                    self.parse_calculate(value_expression_item, config, arguments, primary_table, calculate_fields)
+                for calculate_field in calculate_fields:
+                    if calculate_field["column_name"] in config["schema"]:
+                        config["aggregate"]["having_columns"].add(calculate_field["column_name"])
+                    elif isinstance(config["schema"], dict):
+                        raise SyncanySqlCompileException('unknown having condition column, column must be in the query result, related sql "%s"'
+                                                         % self.to_sql(expression))
                 value_items = [self.compile_calculate(value_expression_item, config, arguments, primary_table, [])
                                for value_expression_item in right_expression]
                 return left_calculater, ["#make", value_items]
-- 
2.43.0


From 68e737cc1d759a64ddbffd37bac3e41617078f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:30 +0000
Subject: [PATCH 182/183] fix: a table joined more than once gets a loader for
 each of its joins (C06)

---
 syncanysql/compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 705a259..5de77a0 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1057,6 +1057,9 @@ class Compiler(object):
                         primary_keys.append(primary_key)
             else:
                 primary_keys = ["id"]
+            if join_table["same_count"] and "|" not in primary_keys[0]:
+                # joining one table again needs a loader of its own
+                primary_keys = [primary_keys[0] + "| %d" % join_table["same_count"]] + primary_keys[1:]
             join_db_table = "&&." + join_table["db"] + "." + join_table["table"] + "::" + "+".join(primary_keys)
             if join_table["querys"]:
                 join_db_table = [join_db_table, join_table["querys"]]
@@ -2450,7 +2453,8 @@ class Compiler(object):
             join_table = {
                 "db": db, "table": table, "name": name, "primary_keys": [], "columns": {},
                 "join_columns": [], "calculate_expressions": [], "querys": {}, "ref_count": 0,
-                "having_expressions": [], "subquery": subquery_config
+                "having_expressions": [], "subquery": subquery_config,
+                "same_count": len([t for t in join_tables.values() if t["db"] == db and t["table"] == table])
             }
             if join_expression.args.get("on"):
                 self.parse_on_condition(join_expression.args["on"], config, arguments, primary_table, join_table)
-- 
2.43.0


From 736ca768da7bb3cedb24fba9cad18cf78a15da56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:03 +0000
Subject: [PATCH 183/183] fix: every use of jit() is compiled apart and joined
 columns are computed in place (C05)

---
 syncanysql/compiler.py | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5de77a0..bc99c48 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -821,6 +821,31 @@ class Compiler(object):
                                     "+".join(primary_table["outputer_primary_keys"]) if primary_table["outputer_primary_keys"] else "id",
                                     (" use " + config["output"].split(" use ")[-1]) if " use " in config["output"] else (
                                             " use " + (arguments.get("@use_output") or "I"))])
+        if config.get("defines"):
+            self.separate_jit_defines(config, [config[key] for key in config if key not in ("defines", "dependencys")], set())
+
+    def inline_jit_defines(self, config, item):
+        # a define is called with one row and gives one value, the rows of other tables are not reached from it
+        if isinstance(item, list) and len(item) == 3 and item[0] == "#call" and item[1] in config["defines"]:
+            return self.inline_jit_defines(config, copy.deepcopy(config["defines"][item[1]]))
+        if isinstance(item, list):
+            return [self.inline_jit_defines(config, child_item) for child_item in item]
+        if isinstance(item, dict):
+            return {key: self.inline_jit_defines(config, child_item) for key, child_item in item.items()}
+        return item
+
+    def separate_jit_defines(self, config, item, used_names):
+        # a define is compiled in place, the copies of a column need one each
+        if isinstance(item, list) and len(item) == 3 and item[0] == "#call" and item[1] in config["defines"]:
+            define_name = item[1]
+            if define_name in used_names:
+                item[1] = "%s_%d" % (define_name, len(config["defines"]))
+                config["defines"][item[1]] = copy.deepcopy(config["defines"][define_name])
+            used_names.add(item[1])
+            self.separate_jit_defines(config, config["defines"][item[1]], used_names)
+        elif isinstance(item, (list, dict)):
+            for child_item in (item if isinstance(item, list) else item.values()):
+                self.separate_jit_defines(config, child_item, used_names)
 
     def compile_pipleline_select(self, expression, config, arguments, primary_table):
         select_expressions = expression.args.get("expressions")
@@ -1023,10 +1048,8 @@ class Compiler(object):
                                          if column_join_name != primary_table["table_name"]], join_tables, column_join_tables)
 
     def compile_join_column(self, expression, config, arguments, primary_table, column, column_join_tables):
-        jit_define_name = None
-        if isinstance(column, list) and len(column) == 3 and column[0] == "#call" and column[1].startswith("jit_define_") and column[2] == "$.*":
-            jit_define_name, column = column[1], (config["defines"][column[1]] if column[1] in config["defines"] else self.config.get()[column[1]])
-
+        if "defines" in config:
+            column = self.inline_jit_defines(config, column)
         if isinstance(column, str):
             column = ":" + column
         elif isinstance(column, list):
@@ -1047,6 +1070,8 @@ class Compiler(object):
                                                        column_join_tables, i)
                                 for calculate_expression in join_table["calculate_expressions"]]
 
+            if "defines" in config:
+                join_columns = self.inline_jit_defines(config, join_columns)
             if join_table["primary_keys"]:
                 primary_keys = []
                 for primary_key in join_table["primary_keys"]:
@@ -1088,9 +1113,6 @@ class Compiler(object):
             else:
                 column = [join_columns, join_db_table, column] if join_columns else [join_db_table, column]
 
-        if jit_define_name:
-            config["defines"][jit_define_name] = column
-            return ["#call", jit_define_name, "$.*"]
         return column
 
     def compile_join_column_field(self, expression, config, arguments, primary_table, ci, join_column, column_join_tables):
@@ -1975,6 +1997,8 @@ class Compiler(object):
                 define_name = "jit_define_" + str(self.generate_sql(expression).__hash__()).replace("-", "_")
                 if "defines" not in config:
                     config["defines"] = {}
+                # every use is compiled in place, so each has a define of its own
+                define_name += "_%d" % len(config["defines"])
                 if self.is_const(expression.args["expressions"][0], config, arguments):
                     config["defines"][define_name] = self.compile_const(expression.args["expressions"][0], config, arguments,
                                                                         self.parse_const(expression.args["expressions"][0], config, arguments))
-- 
2.43.0

