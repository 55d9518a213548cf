From f772362b247e803494748a3571536b104439dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 01/94] fix: keep default arguments of mysql functions called
 with fewer arguments

---
 syncanysql/calculaters/mysql_calculater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_calculater.py b/syncanysql/calculaters/mysql_calculater.py
index dd43b1b..78ff29a 100644
--- a/syncanysql/calculaters/mysql_calculater.py
+++ b/syncanysql/calculaters/mysql_calculater.py
@@ -26,7 +26,7 @@ class MysqlCalculater(Calculater):
         if func is not None and isinstance(func, types.FunctionType):
             try:
                 argcount, varnames_count = func.__code__.co_argcount, len(func.__code__.co_varnames)
-                if argcount == varnames_count:
+                if argcount == varnames_count and not func.__defaults__:
                     if argcount == 0:
                         self.calculate = self.calculate0
                     elif argcount == 1:
-- 
2.43.0


From 5ee8f33f07b16c2e430ed4ffb47fc256349199d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 02/94] fix: SET GLOBAL @config no longer calls a missing
 session config method

---
 syncanysql/taskers/set.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 8098645..54a2a23 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -33,7 +33,6 @@ class SetCommandTasker(object):
     def set_config(self, session_config, key, is_global=False):
         if is_global:
             session_config.global_config.set(key, self.parse_value(self.config["value"].strip()))
-            session_config.merge()
             return
         session_config.set(key, self.parse_value(self.config["value"].strip()))
 
-- 
2.43.0


From df7bbec9aa07b1f9bf8c2b91a89223a6e418f7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 03/94] fix: push_memory_datas of context and module call the
 existing engine method

---
 syncanysql/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index cac1494..ddd6896 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -68,7 +68,7 @@ class ExecuterContext(object):
         return self.engine.pop_memory_datas(name)
 
     def push_memory_datas(self, name, datas):
-        return self.engine.push_datas(name, datas)
+        return self.engine.push_memory_datas(name, datas)
 
     def terminal(self):
         if not self.executor:
@@ -249,7 +249,7 @@ def pop_memory_datas(name):
 
 
 def push_memory_datas(name, datas):
-    return ScriptEngine.instance().push_datas(name, datas)
+    return ScriptEngine.instance().push_memory_datas(name, datas)
 
 
 def terminal():
-- 
2.43.0


From 0417bfe8c6da2e5f51e75a9c40853bdd31343c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 04/94] fix: ScriptEngine.terminal calls the existing context
 method

---
 syncanysql/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index ddd6896..152f31b 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -193,7 +193,7 @@ class ScriptEngine(object):
                 return
             self.executor.terminate()
             return
-        executer_context.terminate()
+        executer_context.terminal()
 
     def close(self):
         if self.manager:
-- 
2.43.0


From ef6ea6dfb0744ccf7393088d32f9844b75368562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 05/94] fix: piped SQL is executed when the command line has no
 argument

---
 syncanysql/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/main.py b/syncanysql/main.py
index 94db858..af0249e 100644
--- a/syncanysql/main.py
+++ b/syncanysql/main.py
@@ -57,7 +57,7 @@ def main():
                     sql_parser = SqlParser(content[1:-1] if content[0] in ('"', "'") and content[-1] in ('"', "'") else content)
                     sqls = sql_parser.split()
                     executor.run("pipe", sqls)
-                    get_logger().info("execute pipe sql start %d task", sys.argv[1], executor.get_tasker_index())
+                    get_logger().info("execute pipe sql start %d task", executor.get_tasker_index())
                     try:
                         executor.execute()
                     except Exception as e:
-- 
2.43.0


From 953e397339295405af11a7c25cfc0a8e48564f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 06/94] fix: merging JSON_OBJECTAGG states keeps the merged
 object

---
 syncanysql/calculaters/aggregate_calculater.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index 577c453..a008e08 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -431,7 +431,8 @@ class AggregateJsonObjectaggCalculater(StateAggregateCalculater):
             return state_value
         if state_value is None:
             return data_value
-        return state_value.update(data_value)
+        state_value.update(data_value)
+        return state_value
 
     def final_value(self, state_value):
         if state_value is None:
-- 
2.43.0


From d41a3c6858298ad70b79be87168caaf7f1d0976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 07/94] fix: AVG does not count NULL values

---
 syncanysql/calculaters/aggregate_calculater.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index a008e08..8d71c7b 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -187,6 +187,8 @@ class AggregateMinCalculater(AggregateCalculater):
 
 class AggregateAvgCalculater(StateAggregateCalculater):
     def aggregate(self, state_value, data_value):
+        if data_value is None:
+            return state_value
         try:
             state_value["count_value"] += 1
             if isinstance(data_value, NumberDecimalTypes):
-- 
2.43.0


From e63b98e4482471a69f11fe53ea7b60af76f59e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 08/94] fix: SET GLOBAL @config drops the merged config cached
 by the session

---
 syncanysql/config.py      | 7 +++++++
 syncanysql/taskers/set.py | 1 +
 2 files changed, 8 insertions(+)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 8fd3fa3..80f9eeb 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -312,6 +312,13 @@ class SessionConfig(GlobalConfig):
         self.merged_config = None
         self.tasker_extend_config = None
 
+    def merge(self):
+        config = self
+        while isinstance(config, SessionConfig):
+            config.merged_config = None
+            config.tasker_extend_config = None
+            config = config.parent_config
+
     def session(self):
         return SessionConfig(self.global_config, self)
 
diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 54a2a23..8098645 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -33,6 +33,7 @@ class SetCommandTasker(object):
     def set_config(self, session_config, key, is_global=False):
         if is_global:
             session_config.global_config.set(key, self.parse_value(self.config["value"].strip()))
+            session_config.merge()
             return
         session_config.set(key, self.parse_value(self.config["value"].strip()))
 
-- 
2.43.0


From 6d90fd3b01ccb7bc4c184dd739d4040bf7badf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 09/94] fix: quotes inside SQL comments do not swallow the
 following statements

---
 syncanysql/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index f2c38af..ce0109d 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -89,7 +89,7 @@ class SqlParser(object):
                 continue
             if self.sql[self.index] == "#":
                 try:
-                    self.read_util('\n')
+                    self.read_util('\n', ())
                 except EOFError:
                     pass
                 self.next()
@@ -97,13 +97,13 @@ class SqlParser(object):
             segment = self.sql[self.index: self.index + 2]
             if segment == "--":
                 try:
-                    self.read_util('\n')
+                    self.read_util('\n', ())
                 except EOFError:
                     pass
                 self.next()
                 continue
             if segment == "/*":
-                self.read_util("*/")
+                self.read_util("*/", ())
                 self.next()
                 continue
             if self.sql[self.index] == ';':
-- 
2.43.0


From 39a09978b58523d19c8babe3123089d231a74dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 10/94] fix: ELT returns its last argument

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 11a6446..c4b506f 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -135,7 +135,7 @@ def mysql_trim(s):
 
 @typing_filter(str)
 def mysql_elt(n, *args):
-    return args[n - 1] if n < len(args) else None
+    return args[n - 1] if 0 < n <= len(args) else None
 
 @typing_filter(int)
 def mysql_field(s, *args):
-- 
2.43.0


From 234766b4694f71692ff15ccc2a0bffaf0bfbddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 11/94] fix: RIGHT(s, 0) returns an empty string

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index c4b506f..7ffb8eb 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -125,7 +125,7 @@ def mysql_left(s, x):
 def mysql_right(s, x):
     if s is None:
         return None
-    return ensure_str(s)[-x:]
+    return ensure_str(s)[-x:] if x > 0 else ""
 
 @typing_filter(str)
 def mysql_trim(s):
-- 
2.43.0


From a6ba877f1e806e4f0a78b9157938d31bcb47e75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 12/94] fix: SUBSTRING_INDEX with a negative count counts from
 the right

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 7ffb8eb..81bf0c1 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -185,7 +185,7 @@ def mysql_substring_index(s, d, c):
         return None
     s, d = ensure_str(s), ensure_str(d)
     if c < 0:
-        return d.join(s.split(d)[-c:])
+        return d.join(s.split(d)[c:])
     return d.join(s.split(d)[:c])
 
 @typing_filter(str)
-- 
2.43.0


From 43ea0479cf1e7b653a906c40e114723fc1e1a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 13/94] fix: CRC32 accepts strings

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 81bf0c1..919e5f6 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -236,7 +236,7 @@ def mysql_crc32(s):
     if s is None:
         return None
     import zlib
-    return zlib.crc32(s)
+    return zlib.crc32(s if isinstance(s, bytes) else ensure_str(s).encode("utf-8"))
 
 @typing_filter(str)
 def mysql_from_base64(s):
-- 
2.43.0


From 40c609164f26563f2d9e083a17afd8567098d6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 14/94] fix: REGEXP matches anywhere in the string

---
 syncanysql/calculaters/mysql_funcs/regexp_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index 709833a..a0e0378 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -29,7 +29,7 @@ def mysql_regexp(s, r, match_type=None):
     if r is None or s is None:
         return None
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        return 1 if re.search(r, s, parse_flags(match_type)) else 0
     except:
         return 0
 
@@ -38,7 +38,7 @@ def mysql_regexplike(s, r, match_type=None):
     if r is None or s is None:
         return None
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        return 1 if re.search(r, s, parse_flags(match_type)) else 0
     except:
         return 0
 
-- 
2.43.0


From 42a115d7cfbc2f433afaa5a171b1a5d64802e45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 15/94] fix: LIKE matches the whole string and supports the _
 wildcard

---
 syncanysql/calculaters/mysql_funcs/regexp_funcs.py | 5 +++--
 syncanysql/compiler.py                             | 3 +--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
index a0e0378..b0d4aa7 100644
--- a/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/regexp_funcs.py
@@ -111,9 +111,10 @@ def mysql_regexp_substr(s, r, pos=1, occurrence=1, match_type=None):
 def mysql_like(s, r, match_type=None):
     if r is None or s is None:
         return None
-    r = ".*" if r == '%%' else "".join([rg.replace("%", ".*") for rg in re.escape(r).split("%%")])
     try:
-        return 1 if re.match(r, s, parse_flags(match_type)) else 0
+        r = "".join([v[1:] and re.escape(v[1:]) or {"%": ".*", "_": "."}.get(v, re.escape(v))
+                     for v in re.findall(r"\\[%_\\]|.", r, re.DOTALL)])
+        return 1 if re.fullmatch(r, s, parse_flags(match_type) | re.DOTALL) else 0
     except:
         return 0
 
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 60d68e4..e7719ef 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1917,8 +1917,7 @@ class Compiler(object):
             if not isinstance(right_calculater, list) or len(right_calculater) != 2 or right_calculater[0] != "#const":
                 raise SyncanySqlCompileException('error having condition, like condition value must be const, related sql "%s"'
                                                  % self.to_sql(expression))
-            return ["#if", ["@re::match", ".*" if right_calculater[1] == "%%" else right_calculater[1].replace("%", ".*")
-                .replace(".*.*", "%"), left_calculater], ["#const", 1], ["#const", 0]]
+            return ["@mysql::like", left_calculater, right_calculater]
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_having_condition(expression.args.get("this"), config, arguments, primary_table)
         else:
-- 
2.43.0


From ee387641985aa4c7b55144a2deb44a5bc1a63d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 16/94] fix: adding months reaches December and adding years
 clamps February 29

---
 .../calculaters/mysql_funcs/datetime_funcs.py      | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 9ccb068..5f2a74d 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -17,16 +17,10 @@ TIME_INTERVAL_RE = re.compile(r'^(\d{4}?\-)?(\d+?\-)?(\d+?\s)?(\d+?:)?(\d+?)?(:\
 
 def calculate_datetime(dt, interval, is_sub=False):
     def calculate(unit, value):
-        if unit == "YEAR":
-            return dt.replace(year=dt.year - value) if is_sub else dt.replace(year=dt.year + value)
-        if unit in ("QUARTER", "MONTH"):
-            months = value * 3 if unit == "QUARTER" else value
-            if is_sub:
-                new_year = dt.year - int(months / 12) - (1 if dt.month - months % 12 < 1 else 0)
-                new_month = (dt.month - months % 12) + (12 if dt.month - months % 12 < 1 else 0)
-            else:
-                new_year = dt.year + int(months / 12) + (1 if dt.month + months % 12 > 12 else 0)
-                new_month = (dt.month + months % 12) % 12
+        if unit in ("YEAR", "QUARTER", "MONTH"):
+            months = value * {"YEAR": 12, "QUARTER": 3, "MONTH": 1}[unit]
+            months = dt.year * 12 + dt.month - 1 + (-months if is_sub else months)
+            new_year, new_month = months // 12, months % 12 + 1
             try:
                 return dt.replace(year=new_year, month=new_month)
             except ValueError:
-- 
2.43.0


From a4f9af9268fbd2c6974408eb50b25f04f80eb067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 17/94] fix: DATEDIFF(a, b) is a - b

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 5f2a74d..3d5e120 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -292,7 +292,7 @@ def mysql_datediff(dt1, dt2):
         dt1 = parse_datetime(str(dt1), None, get_timezone())
     if isinstance(dt2, NumberStringTypes):
         dt2 = parse_datetime(str(dt2), None, get_timezone())
-    return int((dt2 - dt1).total_seconds() / 86400)
+    return int((dt1 - dt2).total_seconds() / 86400)
 
 @typing_filter(int)
 def mysql_timestampdiff(unit, dt1, dt2):
-- 
2.43.0


From fd6f7d372cab3cf11407b0648403af7c11e353e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 18/94] fix: a MICROSECOND interval is a millionth of a second

---
 syncanysql/calculaters/mysql_funcs/datetime_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
index 3d5e120..ea395db 100644
--- a/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/datetime_funcs.py
@@ -12,7 +12,7 @@ from ...utils import NumberTypes, NumberStringTypes
 
 TIMEDELTA_UNITS = {"YEAR": 365 * 24 * 60 * 60, "QUARTER": 90 * 24 * 60 * 60, "MONTH": 30 * 24 * 60 * 60,
                    "WEEK": 7 * 24 * 60 * 60, "DAY": 24 * 60 * 60, "HOUR": 3600, "MINUTE": 60, "SECOND": 1,
-                   "MICROSECOND": 1}
+                   "MICROSECOND": 0.000001}
 TIME_INTERVAL_RE = re.compile(r'^(\d{4}?\-)?(\d+?\-)?(\d+?\s)?(\d+?:)?(\d+?)?(:\d+)?(\.\d+)?$')
 
 def calculate_datetime(dt, interval, is_sub=False):
-- 
2.43.0


From cd9479fca2b3f17b1421c6c63492c1628570cb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 19/94] fix: bit string literals have a value

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index e7719ef..200e5a9 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2727,7 +2727,7 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Boolean):
             value = expression.args["this"]
             typing_filter = "bool"
-        elif isinstance(expression, (sqlglot_expressions.HexString, sqlglot_expressions.HexString)):
+        elif isinstance(expression, (sqlglot_expressions.HexString, sqlglot_expressions.BitString)):
             value, typing_filter = int(expression.args["this"]), "int"
         elif isinstance(expression, sqlglot_expressions.Parameter):
             name = expression.args["this"].args["this"]
-- 
2.43.0


From b549aae8d37cc460c875e2052a6333e8c652718f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 20/94] fix: JSON_REMOVE keeps the array elements its path goes
 through

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 4bc6b4d..2dc8a29 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -153,9 +153,11 @@ def remove_json_path_value(json_data, json_path):
                             return json_data
                         del json_data[json_path_key]
                         return json_data
-                    if json_path_key < len(json_data):
-                        del json_data[json_path_key]
-                continue
+                    if json_path_key >= len(json_data):
+                        return json_data
+                    json_data = json_data[json_path_key]
+                    continue
+                return json_data
             if not isinstance(json_data, dict):
                 return json_data
             if json_path_key not in json_data:
-- 
2.43.0


From bb7822fd534b2bd45d99664252c940fd38b392ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 21/94] fix: asking for the current executor in a fresh thread
 answers none instead of failing

---
 syncanysql/__init__.py | 2 +-
 syncanysql/executor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index 152f31b..469a9f6 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -31,7 +31,7 @@ class ExecuterContext(object):
 
     @classmethod
     def current(cls):
-        return cls._thread_local.current_executer_context
+        return getattr(cls._thread_local, "current_executer_context", None)
 
     def __init__(self, engine, executor):
         self.engine = engine
diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 84f3af6..8f14ffb 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -88,7 +88,7 @@ class Executor(object):
 
     @classmethod
     def current(cls):
-        return cls._thread_local.current_executor
+        return getattr(cls._thread_local, "current_executor", None)
 
     def __init__(self, manager, session_config, parent_executor=None):
         self.manager = manager
-- 
2.43.0


From 8dd5e228d69d8e3c4aa89574616712561d09bb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 22/94] fix: leaving an executer context restores the enclosing
 one

---
 syncanysql/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index 469a9f6..2ba74b3 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -36,6 +36,7 @@ class ExecuterContext(object):
     def __init__(self, engine, executor):
         self.engine = engine
         self.executor = executor
+        self.parent_contexts = []
 
     def get_variable(self, name, default=None):
         if name and name[0] != "@":
@@ -76,11 +77,12 @@ class ExecuterContext(object):
         self.executor.terminate()
 
     def __enter__(self):
+        self.parent_contexts.append(self.current())
         self._thread_local.current_executer_context = self
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self._thread_local.current_executer_context = None
+        self._thread_local.current_executer_context = self.parent_contexts.pop()
 
 
 class ScriptEngine(object):
-- 
2.43.0


From e31b4dcbb3273dc796b58beadeae735a7718973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 23/94] fix: a failed script leaves no queued statements for
 the next one

---
 syncanysql/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index 2ba74b3..babefe4 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -56,8 +56,12 @@ class ExecuterContext(object):
         sqls = sql_parser.split()
         self.__class__._execute_index += 1
         with self.executor as executor:
-            executor.run("execute[%d]" % self._execute_index, sqls)
-            executor.execute()
+            try:
+                executor.run("execute[%d]" % self._execute_index, sqls)
+                executor.execute()
+            except BaseException:
+                executor.runners.clear()
+                raise
 
     def get_database(self, db=None):
         return self.engine.get_database(db)
-- 
2.43.0


From 5752bf92587594f22b22066493217dfe568f0124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 24/94] fix: configuration files are loaded in a fixed order,
 working directory last

---
 syncanysql/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 80f9eeb..654e786 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -131,8 +131,8 @@ class GlobalConfig(object):
         home_config_path, cwd_config_path = self.get_home(), os.path.abspath(os.getcwd())
         if home_config_path not in sys.path:
             sys.path.append(home_config_path)
-        for filename in {os.path.join(home_config_path, "config.json"), os.path.join(home_config_path, "config.yaml"),
-                         os.path.join(cwd_config_path, "config.json"), os.path.join(cwd_config_path, "config.yaml")}:
+        for filename in (os.path.join(home_config_path, "config.json"), os.path.join(home_config_path, "config.yaml"),
+                         os.path.join(cwd_config_path, "config.json"), os.path.join(cwd_config_path, "config.yaml")):
             if not os.path.exists(filename):
                 continue
             if "extends" not in self.config or not isinstance(self.config["extends"], list):
-- 
2.43.0


From af9f012166d7e6ffbf477d218ead16c76942742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 25/94] fix: log level WARN shows warnings

---
 syncanysql/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 654e786..37c748e 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -276,7 +276,7 @@ class GlobalConfig(object):
                 loglevel = logging.CRITICAL
             else:
                 loglevel = {"CRITICAL": logging.CRITICAL, "FATAL": logging.FATAL, "ERROR": logging.ERROR,
-                            "WARN": logging.CRITICAL, "WARNING": logging.WARNING, "INFO": logging.INFO,
+                            "WARN": logging.WARNING, "WARNING": logging.WARNING, "INFO": logging.INFO,
                             "DEBUG": logging.DEBUG}.get(loglevel or "INFO")
             logging.basicConfig(filename=logfile, level=loglevel, format=logformat if logformat else None,
                                 datefmt='%Y-%m-%d %H:%M:%S', filemode='a+')
-- 
2.43.0


From d86af60829d3d083ca62ce03e35d985b9d9bbc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 26/94] fix: command line variables keep '=' in their value and
 are found whatever their case

---
 syncanysql/executor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 8f14ffb..2cac15a 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -55,11 +55,11 @@ class EnvVariables(dict):
         for arg in sys.argv:
             if arg[:2] != "--":
                 continue
-            arg_info = arg[2:].split("=")
+            arg_info = arg[2:].split("=", 1)
             arg_value = arg_info[1] if len(arg_info) >= 2 else True
             if isinstance(arg_value, str) and arg_value and arg_value[0] in ('"', "'"):
                 arg_value = arg_value[1:-1]
-            env_variables[arg_info[0]] = arg_value
+            env_variables[arg_info[0].lower()] = arg_value
         return env_variables
 
     def get_value(self, key):
-- 
2.43.0


From 3fea3a5f982742b0b1edbe2b074948944e5df12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 27/94] fix: a constant on the left of an ordering comparison
 in WHERE keeps its side

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 200e5a9..8b1ec88 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -863,6 +863,8 @@ class Compiler(object):
                 right_column = self.parse_column(right_expression, config, arguments)
                 if right_column["table_name"] and primary_table["table_name"] != right_column["table_name"]:
                     return None, None
+                if not isinstance(expression, (sqlglot_expressions.EQ, sqlglot_expressions.NEQ)):
+                    return None, None
                 left_expression, right_expression, left_column = right_expression, left_expression, right_column
             if left_column is None:
                 return None, None
-- 
2.43.0


From 123486e4a3c75d8bf28108234cfbd367141fe4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 28/94] fix: an ON condition on another table's column does not
 filter the joined table

---
 syncanysql/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 8b1ec88..fe09fdf 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2158,7 +2158,8 @@ class Compiler(object):
             calculate_fields = []
             if condition_column and not self.is_subquery(value_expression, config, arguments) and not isinstance(value_expression, list):
                 self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
-            if not condition_column or calculate_fields:
+            is_other_column = condition_column and condition_column["table_name"] != join_table["name"]
+            if not condition_column or is_other_column or calculate_fields:
                 self.parse_calculate(right_expression if value_expression is left_expression else left_expression,
                                      config, arguments, primary_table, calculate_fields)
                 for calculate_field in calculate_fields:
-- 
2.43.0


From 82dd17c6f5c0ee764d5b25cf7a62ab17b12d3ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 29/94] fix: LIMIT applies after DISTINCT and GROUP BY

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index fe09fdf..43cff53 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -538,7 +538,7 @@ class Compiler(object):
         if limit_value != 0 or offset_value > 0:
             if config["predicate"] or config["intercept"] or (config.get("aggregate") and
                                                               (config["aggregate"]["schema"] or config["aggregate"]["window_schema"])) \
-                    or config["pipelines"] or limit_value <= 0:
+                    or config["pipelines"] or limit_value <= 0 or group_expression or expression.args.get("distinct"):
                 if limit_value != 0:
                     config["pipelines"].append([">>@array::slice", "$.*|array", offset_value,
                                                 (offset_value + limit_value) if limit_value > 0 else limit_value])
-- 
2.43.0


From c5bc9b00a2633db61114ebb6b8d0ed03f7a53f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 30/94] fix: INSERT VALUES rejects rows that do not match the
 columns and non constant values

---
 syncanysql/compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 43cff53..1b13905 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -320,9 +320,15 @@ class Compiler(object):
                 raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
             datas = []
             for data_expression in values_expression.args["expressions"]:
+                if not columns or len(data_expression.args["expressions"]) != len(columns):
+                    raise SyncanySqlCompileException('error insert into, values count must match columns, related sql "%s"'
+                                                     % self.to_sql(expression))
                 data = {}
                 for i in range(len(data_expression.args["expressions"])):
                     value_expression = data_expression.args["expressions"][i]
+                    if not self.is_const(value_expression, config, arguments):
+                        raise SyncanySqlCompileException('error insert into, value must be const, related sql "%s"'
+                                                         % self.to_sql(expression))
                     value = self.parse_const(value_expression, config, arguments)["value"]
                     if columns[i][1] is None:
                         columns[i][1] = str(type(value).__name__) if isinstance(value, (int, float, bool)) else None
-- 
2.43.0


From 7aa0ec1113ba25d36bf2e10d9b7c86f4aff7afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 31/94] fix: ${} finds variables whose name has upper case
 letters

---
 syncanysql/executor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index 2cac15a..f5b9300 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -106,7 +106,10 @@ class Executor(object):
         for variable, default_value in variables:
             variable_name = variable[2:-1].split(":")[0]
             try:
-                variable_value = self.env_variables.get_value(variable_name.lower())
+                try:
+                    variable_value = self.env_variables.get_value(variable_name)
+                except KeyError:
+                    variable_value = self.env_variables.get_value(variable_name.lower())
             except KeyError:
                 try:
                     groups = FUNC_RE.match(default_value[1:].strip()).groups()
-- 
2.43.0


From 48e4e0b98e01cd2820ffd86226e058980991d080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 32/94] fix: IN with a single value in a calculated expression
 compares with that value

---
 syncanysql/compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 1b13905..fceec8b 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1788,6 +1788,12 @@ class Compiler(object):
                 ]
 
             func_name = expression.key.lower()
+            if isinstance(expression, sqlglot_expressions.In) and len(expression.args.get("expressions") or []) == 1:
+                return [
+                    "@mysql::eq",
+                    self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
+                    self.compile_calculate(expression.args["expressions"][0], config, arguments, primary_table, column_join_tables, join_index)
+                ]
             if expression.args.get("expressions"):
                 return [
                     ("@mysql::" + func_name) if is_mysql_func(func_name) else ("@" + func_name),
-- 
2.43.0


From 8ac60670425c4f3e37ea09cf00f2be5425929e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 33/94] fix: CASE without ELSE is NULL when no branch matches

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index fceec8b..6286d8c 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1689,7 +1689,7 @@ class Compiler(object):
             value_column = self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index) \
                 if expression.args.get("this") else None
             defaul_column = self.compile_calculate(expression.args["default"], config, arguments, primary_table, column_join_tables, join_index) \
-                if expression.args.get("default") else ["#const", 0]
+                if expression.args.get("default") else ["#const", None]
             if not expression.args.get("ifs"):
                 return defaul_column
             def build_if(if_expression, case_expressions):
-- 
2.43.0


From 161a9aad24e90fe826d509f6c0d556bfc69cf3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 34/94] fix: BETWEEN works on columns of joined tables

---
 syncanysql/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 6286d8c..135aaba 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1729,9 +1729,9 @@ class Compiler(object):
             return self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
         elif isinstance(expression, sqlglot_expressions.Between):
             return ["#make", {
-                "key_value": self.compile_calculate(expression.args["this"], config, arguments, primary_table, []),
-                "low_value": self.compile_calculate(expression.args["low"], config, arguments, primary_table, []),
-                "high_value": self.compile_calculate(expression.args["high"], config, arguments, primary_table, [])
+                "key_value": self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index),
+                "low_value": self.compile_calculate(expression.args["low"], config, arguments, primary_table, column_join_tables, join_index),
+                "high_value": self.compile_calculate(expression.args["high"], config, arguments, primary_table, column_join_tables, join_index)
             }, [":#if", ["@mysql::gte", "$.key_value", "$.low_value"], ["@mysql::lte", "$.key_value", "$.high_value"], ["#const", 0]]]
         elif self.is_column(expression, config, arguments):
             join_column = self.parse_column(expression, config, arguments)
-- 
2.43.0


From 717b11cbf163a7f63d3c51815c60a33848cdf664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 35/94] fix: COALESCE with a single argument returns it

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 135aaba..830d972 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1659,7 +1659,7 @@ class Compiler(object):
             if isinstance(expression, sqlglot_expressions.Coalesce):
                 def parse_coalesce(coalesce_expressions):
                     if not coalesce_expressions:
-                        return None
+                        return ["#const", None]
                     coalesce_column = self.compile_calculate(coalesce_expressions[0], config, arguments, primary_table, column_join_tables, join_index)
                     if len(coalesce_expressions) == 1:
                         return coalesce_column
-- 
2.43.0


From d02636bc291f3e3fbb0ba56b5255852d3f50b5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 36/94] fix: LEFT(s, NULL) is NULL

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index 919e5f6..c6e958e 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -117,7 +117,7 @@ def mysql_ucase(s):
 
 @typing_filter(str)
 def mysql_left(s, x):
-    if s is None:
+    if s is None or x is None:
         return None
     return ensure_str(s)[:x]
 
-- 
2.43.0


From a60b5c8cb795df312f5ef546eb0435d1a35ad7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 37/94] fix: FIND_IN_SET(s, NULL) is NULL

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index c6e958e..efa3a9a 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -148,7 +148,7 @@ def mysql_field(s, *args):
 
 @typing_filter(int)
 def mysql_find_in_set(s, ss):
-    if s is None:
+    if s is None or ss is None:
         return None
     try:
         return ensure_str(ss).split(",").index(s) + 1
-- 
2.43.0


From 4b11f5735cc062ff2464947f2833462fdd385900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 38/94] fix: bit aggregates convert the first value of a group
 like the others

---
 syncanysql/calculaters/aggregate_calculater.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index 8d71c7b..87d01f6 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -312,7 +312,7 @@ class AggregateGroupBitAndCalculater(AggregateCalculater):
         if data_value is None:
             return state_value
         if state_value is None:
-            return data_value
+            return ensure_int(data_value)
         if isinstance(data_value, int):
             return state_value & data_value
         return state_value & ensure_int(data_value)
@@ -333,7 +333,7 @@ class AggregateGroupBitOrCalculater(AggregateCalculater):
         if data_value is None:
             return state_value
         if state_value is None:
-            return data_value
+            return ensure_int(data_value)
         if isinstance(data_value, int):
             return state_value | data_value
         return state_value | ensure_int(data_value)
@@ -354,7 +354,7 @@ class AggregateGroupBitXorCalculater(AggregateCalculater):
         if data_value is None:
             return state_value
         if state_value is None:
-            return data_value
+            return ensure_int(data_value)
         if isinstance(data_value, int):
             return state_value ^ data_value
         return state_value ^ ensure_int(data_value)
-- 
2.43.0


From 2f6d185584cb1003c3586937f29959ad12739612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 39/94] fix: JSON_SET and JSON_REMOVE change a copy of the
 document, not the row's value

---
 syncanysql/calculaters/mysql_funcs/json_funcs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/json_funcs.py b/syncanysql/calculaters/mysql_funcs/json_funcs.py
index 2dc8a29..9654d84 100644
--- a/syncanysql/calculaters/mysql_funcs/json_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/json_funcs.py
@@ -2,6 +2,7 @@
 # 2023/3/14
 # create by: snower
 
+import copy
 import json
 from syncany.calculaters import typing_filter
 
@@ -192,6 +193,8 @@ def json_array_append(json_doc, *path_vals):
             json_doc = json.loads(json_doc)
         except:
             pass
+    else:
+        json_doc = copy.deepcopy(json_doc)
     for i in range(int(len(path_vals) / 2)):
         json_value = get_json_path_value(json_doc, path_vals[i * 2])
         if isinstance(json_value, list):
@@ -250,6 +253,8 @@ def mysql_json_set(json_doc, *path_vals):
             json_doc = json.loads(json_doc)
         except:
             pass
+    else:
+        json_doc = copy.deepcopy(json_doc)
     for i in range(int(len(path_vals) / 2)):
         if not isinstance(json_doc, ArrayObjectTypes):
             json_doc = set_json_path_value(json_doc, path_vals[i * 2], path_vals[i * 2 + 1])
@@ -263,6 +268,8 @@ def mysql_json_remove(json_doc, *paths):
             json_doc = json.loads(json_doc)
         except:
             pass
+    else:
+        json_doc = copy.deepcopy(json_doc)
     for path in paths:
         remove_json_path_value(json_doc, path)
     return json_doc
-- 
2.43.0


From aeaf71c59ac2cb40df2fda19f72f59e8f972b19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 40/94] fix: LIMIT 0 returns no rows instead of all rows

---
 syncanysql/compiler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 830d972..da35bb5 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -540,14 +540,14 @@ class Compiler(object):
             self.compile_order(order_expression.args["expressions"], config, arguments, primary_table)
 
         offset_value = max(int(expression.args.get("offset").args["expression"].args["this"]), 0) if expression.args.get("offset") else 0
-        limit_value = int(expression.args.get("limit").args["expression"].args["this"]) if expression.args.get("limit") else 0
-        if limit_value != 0 or offset_value > 0:
+        limit_value = int(expression.args.get("limit").args["expression"].args["this"]) if expression.args.get("limit") else None
+        if limit_value is not None or offset_value > 0:
             if config["predicate"] or config["intercept"] or (config.get("aggregate") and
                                                               (config["aggregate"]["schema"] or config["aggregate"]["window_schema"])) \
-                    or config["pipelines"] or limit_value <= 0 or group_expression or expression.args.get("distinct"):
-                if limit_value != 0:
+                    or config["pipelines"] or limit_value is None or limit_value <= 0 or group_expression or expression.args.get("distinct"):
+                if limit_value is not None:
                     config["pipelines"].append([">>@array::slice", "$.*|array", offset_value,
-                                                (offset_value + limit_value) if limit_value > 0 else limit_value])
+                                                (offset_value + limit_value) if limit_value >= 0 else limit_value])
                 else:
                     config["pipelines"].append([">>@array::slice", "$.*|array", offset_value])
             else:
-- 
2.43.0


From 7b965f511a3e656faae8bfba05fc5f77ee7cf648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:45 +0000
Subject: [PATCH 41/94] fix: LIMIT applies to the result rows of a join or a
 row generator

---
 syncanysql/compiler.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index da35bb5..26af3e2 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -544,7 +544,8 @@ class Compiler(object):
         if limit_value is not None or offset_value > 0:
             if config["predicate"] or config["intercept"] or (config.get("aggregate") and
                                                               (config["aggregate"]["schema"] or config["aggregate"]["window_schema"])) \
-                    or config["pipelines"] or limit_value is None or limit_value <= 0 or group_expression or expression.args.get("distinct"):
+                    or config["pipelines"] or limit_value is None or limit_value <= 0 or group_expression or expression.args.get("distinct") \
+                    or join_tables or self.has_yield(config["schema"]) or self.has_yield(config.get("defines")):
                 if limit_value is not None:
                     config["pipelines"].append([">>@array::slice", "$.*|array", offset_value,
                                                 (offset_value + limit_value) if limit_value >= 0 else limit_value])
@@ -2931,6 +2932,13 @@ class Compiler(object):
     def is_window_aggregate(self, expression, config, arguments):
         return isinstance(expression, sqlglot_expressions.Window)
 
+    def has_yield(self, column):
+        if isinstance(column, dict):
+            return any(self.has_yield(child_column) for child_column in column.values())
+        if isinstance(column, (list, tuple)):
+            return any(self.has_yield(child_column) for child_column in column)
+        return isinstance(column, str) and column == "#yield"
+
     def is_subquery(self, expression, config, arguments):
         return isinstance(expression, (sqlglot_expressions.Subquery, sqlglot_expressions.Select, sqlglot_expressions.Union))
 
-- 
2.43.0


From 44ada4b341b5a65eb88592951bd6e43f84f4552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 42/94] fix: ORDER BY a select alias that hides a table column
 sorts by the alias

---
 syncanysql/compiler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 26af3e2..8b58b0a 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1967,10 +1967,12 @@ class Compiler(object):
                 primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
             elif not column["table_name"] and not primary_table["table_alias"]:
                 if not config.get("aggregate"):
-                    if column["column_name"] in primary_table["columns"] or column["column_name"] not in config["schema"]:
+                    if column["column_name"] not in config["schema"] \
+                            or config["schema"][column["column_name"]] == self.compile_column(expression, config, arguments, column):
                         primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
                 elif column["column_name"] not in config["aggregate"]["schema"] and column["column_name"] not in config["aggregate"]["window_schema"]:
-                    if column["column_name"] in primary_table["columns"] or column["column_name"] not in config["schema"]:
+                    if column["column_name"] not in config["schema"] \
+                            or config["schema"][column["column_name"]] == self.compile_column(expression, config, arguments, column):
                         primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
             elif not column["table_name"] and primary_table["table_alias"]:
                 if not config.get("aggregate"):
-- 
2.43.0


From 818a9084eadd8fa4d0a1bc8aa2dbd24e3a55e740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 43/94] fix: BETWEEN in a HAVING condition

---
 syncanysql/compiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 8b58b0a..95cd6b6 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1935,6 +1935,11 @@ class Compiler(object):
             return ["@mysql::like", left_calculater, right_calculater]
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_having_condition(expression.args.get("this"), config, arguments, primary_table)
+        elif isinstance(expression, sqlglot_expressions.Between):
+            return self.compile_having_condition(sqlglot_expressions.And(
+                this=sqlglot_expressions.GTE(this=expression.args["this"], expression=expression.args["low"]),
+                expression=sqlglot_expressions.LTE(this=expression.args["this"].copy(), expression=expression.args["high"])
+            ), config, arguments, primary_table)
         else:
             left_calculater, right_calculater = parse(expression)
             func_name = expression.key.lower()
-- 
2.43.0


From 8c44cb2625e2420a417c4f02703772775a51c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 44/94] fix: CONCAT_WS in SQL reaches its implementation

---
 syncanysql/calculaters/mysql_funcs/string_funcs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/calculaters/mysql_funcs/string_funcs.py b/syncanysql/calculaters/mysql_funcs/string_funcs.py
index efa3a9a..92ab611 100644
--- a/syncanysql/calculaters/mysql_funcs/string_funcs.py
+++ b/syncanysql/calculaters/mysql_funcs/string_funcs.py
@@ -92,6 +92,8 @@ def mysql_concat(*args):
 def mysql_concat_ws(sep, *args):
     return sep.join(ensure_str(arg) for arg in args)
 
+mysql_concatws = mysql_concat_ws
+
 @typing_filter(str)
 def mysql_insert(s1, x, l, s2):
     s1, s2 = ensure_str(s1), ensure_str(s2)
-- 
2.43.0


From e6838b9478e41fc81c25c0e8549d033d90cd6924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 45/94] fix: the INSERT string function can be called

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 95cd6b6..8abca2f 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -43,6 +43,8 @@ class CompilerDialect(sqlglot_dialects.Dialect):
         HEX_STRINGS = [("x'", "'"), ("X'", "'"), ("0x", "")]
 
     class Parser(sqlglot_parser.Parser):
+        FUNC_TOKENS = {*sqlglot_parser.Parser.FUNC_TOKENS, tokens.TokenType.INSERT}
+
         def _parse_parameter(self):
             wrapped = self._match(sqlglot_parser.TokenType.L_BRACE)
             this = self._parse_var() or self._parse_primary()
-- 
2.43.0


From 2827e4001817a765c421de19df424ac3c02c0a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 46/94] fix: CASE value WHEN matches decimal, negative and ':'
 constants, first match wins, NULL never matches

---
 syncanysql/compiler.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 8abca2f..190d5de 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1676,15 +1676,22 @@ class Compiler(object):
                 value_column = self.compile_calculate(expression.args["expression"], config, arguments, primary_table, column_join_tables, join_index)
             return ["#if", ["@is_null", condition_column], value_column, condition_column]
         elif isinstance(expression, sqlglot_expressions.Case):
-            if expression.args.get("this") and all([self.is_const(case_expression.args["this"], config, arguments)
+            def is_case_key(case_expression):
+                if not self.is_const(case_expression, config, arguments):
+                    return False
+                case_key = self.parse_const(case_expression, config, arguments)["value"]
+                return case_key is not None and not (isinstance(case_key, str) and case_key[:1] in (":", "#"))
+
+            if expression.args.get("this") and all([is_case_key(case_expression.args["this"])
                                                     for case_expression in expression.args.get("ifs", [])]):
                 cases = {}
                 cases["#case"] = self.compile_calculate(expression.args["this"], config, arguments, primary_table, column_join_tables, join_index)
                 if expression.args.get("ifs"):
                     for case_expression in expression.args["ifs"]:
                         case_value = self.parse_const(case_expression.args["this"], config, arguments)["value"]
-                        cases[(":" + str(case_value)) if isinstance(case_value, NumberTypes) and not isinstance(case_value, bool) else case_value] = \
-                            self.compile_calculate(case_expression.args["true"], config, arguments, primary_table, column_join_tables, join_index)
+                        if case_value in cases:
+                            continue
+                        cases[case_value] = self.compile_calculate(case_expression.args["true"], config, arguments, primary_table, column_join_tables, join_index)
                 cases["#end"] = self.compile_calculate(expression.args["default"], config, arguments, primary_table, column_join_tables, join_index) \
                     if expression.args.get("default") else None
                 return cases
-- 
2.43.0


From 6bcb39cc5c5d304293e52d15dda1bbc5a00a5bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 47/94] fix: repeated comparisons of one column in WHERE or ON
 are all applied

---
 syncanysql/compiler.py | 49 ++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 190d5de..cfb1ad7 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -816,6 +816,19 @@ class Compiler(object):
         ji = [j for j in range(len(column_join_tables)) if join_column["table_name"] == column_join_tables[j]["name"]][0]
         return self.compile_column(expression, config, arguments, join_column, ji - ci)
 
+    def is_queryed_condition(self, querys, condition_column, condition_exp):
+        # except != the loader keeps only one value of each comparison of a column and merges the values of == and in
+        if condition_exp == "!=":
+            return False
+        condition_exps = ("==", "in") if condition_exp in ("==", "in") else (condition_exp,)
+        for typing_name, condition_querys in querys.items():
+            if typing_name.split("|")[0] != condition_column["typing_name"].split("|")[0]:
+                continue
+            for condition_query in (condition_querys if isinstance(condition_querys, list) else [condition_querys]):
+                if any([exp in condition_query for exp in condition_exps]):
+                    return True
+        return False
+
     def compile_where_condition(self, expression, config, arguments, primary_table, join_tables):
         if isinstance(expression, sqlglot_expressions.And):
             left_calculate_expression = self.compile_where_condition(expression.args.get("this"), config, arguments, primary_table, join_tables)
@@ -900,8 +913,11 @@ class Compiler(object):
             return None, None
 
         def build_query_condition(condition_column, condition_exp, condition_calculater):
+            if self.is_queryed_condition(config["querys"], condition_column, condition_exp):
+                return expression
             if condition_column["typing_name"] not in config["querys"]:
                 config["querys"][condition_column["typing_name"]] = {}
+            setattr(expression, "syncany_valuer", ["#const", 1])
             condition_querys = config["querys"][condition_column["typing_name"]]
             if isinstance(condition_querys, dict):
                 if condition_exp not in condition_querys:
@@ -920,51 +936,37 @@ class Compiler(object):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "==", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "==", right_calculater)
         elif isinstance(expression, sqlglot_expressions.NEQ):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "!=", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "!=", right_calculater)
         elif isinstance(expression, sqlglot_expressions.GT):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, ">", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, ">", right_calculater)
         elif isinstance(expression, sqlglot_expressions.GTE):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, ">=", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, ">=", right_calculater)
         elif isinstance(expression, sqlglot_expressions.LT):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "<", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "<", right_calculater)
         elif isinstance(expression, sqlglot_expressions.LTE):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "<=", right_calculater)
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "<=", right_calculater)
         elif isinstance(expression, sqlglot_expressions.In):
             condition_column, right_calculater = parse_condition(expression)
             if condition_column is None or right_calculater is None:
                 return expression
-            build_query_condition(condition_column, "in", ["@convert_array", right_calculater])
-            setattr(expression, "syncany_valuer", ["#const", 1])
-            return None
+            return build_query_condition(condition_column, "in", ["@convert_array", right_calculater])
         elif isinstance(expression, sqlglot_expressions.Paren):
             return self.compile_where_condition(expression.args.get("this"), config, arguments, primary_table, join_tables)
         else:
@@ -2218,6 +2220,11 @@ class Compiler(object):
             return False, condition_column, self.compile_calculate(value_expression, config, arguments, primary_table, [])
 
         def build_query_condition(condition_column, condition_exp, condition_calculater):
+            if self.is_queryed_condition(join_table["querys"], condition_column, condition_exp):
+                if condition_column["column_name"] not in join_table["columns"]:
+                    join_table["columns"][condition_column["column_name"]] = condition_column
+                join_table["having_expressions"].append(expression)
+                return None
             if condition_column["typing_name"] not in join_table["querys"]:
                 join_table["querys"][condition_column["typing_name"]] = {}
             condition_querys = join_table["querys"][condition_column["typing_name"]]
-- 
2.43.0


From e2efb87a9f42d54ca088160efc022b277f5e7c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 48/94] fix: comparisons with a NULL constant in WHERE or ON
 are not pushed to the loader

---
 syncanysql/compiler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index cfb1ad7..b5e63e5 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -891,6 +891,9 @@ class Compiler(object):
             if left_column is None:
                 return None, None
 
+            if any([isinstance(value_expression_item, sqlglot_expressions.Null) for value_expression_item in
+                    (right_expression if isinstance(right_expression, list) else [right_expression])]):
+                return None, None
             if isinstance(right_expression, list):
                 if all([self.is_const(value_expression_item, config, arguments) for value_expression_item in right_expression]):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
@@ -2190,7 +2193,9 @@ class Compiler(object):
             if condition_column and not self.is_subquery(value_expression, config, arguments) and not isinstance(value_expression, list):
                 self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
             is_other_column = condition_column and condition_column["table_name"] != join_table["name"]
-            if not condition_column or is_other_column or calculate_fields:
+            is_null_value = any([isinstance(value_expression_item, sqlglot_expressions.Null) for value_expression_item in
+                                 (value_expression if isinstance(value_expression, list) else [value_expression])])
+            if not condition_column or is_other_column or is_null_value or calculate_fields:
                 self.parse_calculate(right_expression if value_expression is left_expression else left_expression,
                                      config, arguments, primary_table, calculate_fields)
                 for calculate_field in calculate_fields:
-- 
2.43.0


From 431dbe9860ea39dba76575292a0dbb580e30337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 49/94] fix: an IN list with columns in WHERE or ON is
 evaluated for every row

---
 syncanysql/compiler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index b5e63e5..3598410 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -899,6 +899,8 @@ class Compiler(object):
                     value_items = [self.parse_const(value_expression_item, config, arguments)["value"]
                                    for value_expression_item in right_expression]
                     return left_column, ["#const", value_items]
+                if any([has_column_expression(value_expression_item) for value_expression_item in right_expression]):
+                    return None, None
                 value_items = [self.compile_where_condition_column(value_expression_item, config, arguments, primary_table, join_tables)
                                for value_expression_item in right_expression]
                 return left_column, ["#make", value_items]
@@ -2190,8 +2192,9 @@ class Compiler(object):
                 return True, condition_column, None
 
             calculate_fields = []
-            if condition_column and not self.is_subquery(value_expression, config, arguments) and not isinstance(value_expression, list):
-                self.parse_calculate(value_expression, config, arguments, primary_table, calculate_fields)
+            for value_expression_item in (value_expression if isinstance(value_expression, list) else [value_expression]):
+                if condition_column and not self.is_subquery(value_expression_item, config, arguments):
+                    self.parse_calculate(value_expression_item, config, arguments, primary_table, calculate_fields)
             is_other_column = condition_column and condition_column["table_name"] != join_table["name"]
             is_null_value = any([isinstance(value_expression_item, sqlglot_expressions.Null) for value_expression_item in
                                  (value_expression if isinstance(value_expression, list) else [value_expression])])
-- 
2.43.0


From 1975da8158b82e9a83054781fdd21b53e5a10f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 50/94] fix: file tables of different formats, paths or
 parameters in one statement keep their own database

---
 syncanysql/compiler.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 3598410..f1b7ff8 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2645,28 +2645,27 @@ class Compiler(object):
             if db_driver:
                 path, table_name = (os.path.abspath(path_info[0]) if path_info[0] else os.getcwd()), path_info[1]
                 path_db_name = "dir__" + "".join([c if c.isalpha() or c.isdigit() else '_' for c in path])
+                database_info = {"driver": db_driver, "path": path}
                 if db_params:
                     path_db_name = path_db_name + "_" + str(uuid.uuid1().int)
+                    database_info.update(db_params)
+                if db_driver == "textline":
+                    formats = [f for f in ("csv", "json", "richtable", "print") if f in typing_options]
+                    if formats:
+                        database_info["format"] = formats[0]
                 database = None
                 if "databases" not in config:
                     config["databases"] = []
                 for d in config["databases"]:
-                    if d["name"] == path_db_name:
-                        d.update({"name": path_db_name, "driver": db_driver, "path": path})
-                        database = d
-                        break
-                    if d.get("driver") == db_driver and d.get("path") == path and not db_params:
+                    if {key: value for key, value in d.items() if key != "name"} == database_info:
                         database = d
                         break
                 if not database:
-                    database = {"name": path_db_name, "driver": db_driver, "path": path}
+                    # tables of other paths, drivers or parameters are other databases
+                    while path_db_name in [d["name"] for d in config["databases"]]:
+                        path_db_name = path_db_name + "_"
+                    database = dict(database_info, name=path_db_name)
                     config["databases"].append(database)
-                if db_params:
-                    database.update(db_params)
-                if db_driver == "textline":
-                    formats = [f for f in ("csv", "json", "richtable", "print") if f in typing_options]
-                    if formats:
-                        database["format"] = formats[0]
                 db_name = database["name"]
             else:
                 db_name = "--"
-- 
2.43.0


From abe2580df6239a6dccbb3cfdfa982054efa650ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 51/94] fix: INSERT VALUES keeps values whose column holds
 values of several types or NULL

---
 syncanysql/compiler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index f1b7ff8..c08e3bb 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -331,11 +331,13 @@ class Compiler(object):
                     if not self.is_const(value_expression, config, arguments):
                         raise SyncanySqlCompileException('error insert into, value must be const, related sql "%s"'
                                                          % self.to_sql(expression))
-                    value = self.parse_const(value_expression, config, arguments)["value"]
-                    if columns[i][1] is None:
-                        columns[i][1] = str(type(value).__name__) if isinstance(value, (int, float, bool)) else None
-                    data[columns[i][0]] = value
+                    data[columns[i][0]] = self.parse_const(value_expression, config, arguments)["value"]
                 datas.append(data)
+            for column in columns:
+                # only a type all values of the column have, other values would be converted
+                value_types = {type(data[column[0]]) for data in datas}
+                if column[1] is None and len(value_types) == 1 and value_types <= {int, float, bool}:
+                    column[1] = value_types.pop().__name__
             config["schema"] = {column_name: "$." + column_name + (("|" + column_type) if column_type else "")
                                 for column_name, column_type in columns}
             config["input"] = "&.--.--::" + columns[0][0]
-- 
2.43.0


From 23f074aa4683f095ed1073c0682a259e6fd01266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 52/94] fix: insert modes of a table are not case sensitive

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index c08e3bb..4ffdc76 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -305,7 +305,7 @@ class Compiler(object):
                 for typing_option in table_info["typing_options"]:
                     if typing_option.upper() not in ("I", "U", "UI", "UDI", "DI"):
                         continue
-                    update_type = typing_option
+                    update_type = typing_option.upper()
                     break
             config["output"] = "".join(["&.", table_info["db"], ".", table_info["name"], "::",
                                         "id", " use ", update_type])
-- 
2.43.0


From b277910cc35f6bb62d9b0d2c63ce925939138565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 53/94] fix: string literals keep the characters U+0080 to
 U+0100

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 4ffdc76..8fe11da 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2760,7 +2760,7 @@ class Compiler(object):
                 try:
                     escape_values, escape_chars, encoding = [], [], os.environ.get("SYNCANYENCODING", "utf-8")
                     for c in value:
-                        if ord(c) <= 256:
+                        if ord(c) < 128:
                             escape_chars.append(c)
                             continue
                         if escape_chars:
-- 
2.43.0


From a04abb3016d9b36f467a3ec8b21f18c166b98775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 54/94] fix: UNION takes the columns of its first SELECT and
 the values of the others by position

---
 syncanysql/compiler.py | 48 +++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 8fe11da..b97f60f 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -360,7 +360,7 @@ class Compiler(object):
         parse(expression)
 
         query_name = "__unionquery_" + str(uuid.uuid1().int)
-        union_column_names, output_primary_key, output_type = None, None, "I"
+        union_column_names, is_all_columns, output_primary_key, output_type = None, False, None, "I"
         for select_expression in select_expressions:
             subquery_name = "__unionquery_" + str(uuid.uuid1().int)
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
@@ -369,20 +369,17 @@ class Compiler(object):
             subquery_config["output"] = "&.--." + query_name + "::" + output_primary_key_type_info[0] + " use I"
             subquery_config["name"] = subquery_config["name"] + "#" + subquery_name[2:]
             arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
-            if isinstance(subquery_config["schema"], dict):
+            if union_column_names is None:
+                union_column_names = list(subquery_config["schema"].keys()) if isinstance(subquery_config["schema"], dict) else []
+            elif union_column_names and isinstance(subquery_config["schema"], dict):
+                subquery_config = self.compile_union_column(subquery_config, union_column_names, config, arguments)
+            if not isinstance(subquery_config["schema"], dict):
+                config["schema"], is_all_columns = "$.*", True
+            elif not is_all_columns:
                 if not isinstance(config["schema"], dict):
                     config["schema"] = {}
-                for name in subquery_config["schema"]:
+                for name in (union_column_names or subquery_config["schema"]):
                     config["schema"][name] = "$." + name
-            if isinstance(subquery_config["schema"], dict):
-                if union_column_names is None:
-                    union_column_names = sorted(list(subquery_config["schema"].keys()))
-                else:
-                    subquery_column_names = sorted(list(subquery_config["schema"].keys()))
-                    for i in range(min(len(union_column_names), len(subquery_column_names))):
-                        if union_column_names[i] == subquery_column_names[i]:
-                            continue
-                        subquery_config["schema"][union_column_names[i]] = subquery_config["schema"][subquery_column_names[i]]
             if output_primary_key is None:
                 output_primary_key = output_primary_key_type_info[0]
             if output_type == "I" and len(output_primary_key_type_info) >= 2:
@@ -393,6 +390,33 @@ class Compiler(object):
         arguments["@primary_order"] = False
         arguments["@limit"] = 0
 
+    def compile_union_column(self, subquery_config, union_column_names, config, arguments):
+        # the columns of a union are the columns of its first select, the other selects give their values by position
+        column_names = list(subquery_config["schema"].keys())
+        if len(column_names) != len(union_column_names):
+            raise SyncanySqlCompileException('error union, select columns count must match')
+        if column_names == union_column_names:
+            return subquery_config
+        renamed_columns = {union_column_name: column_name for union_column_name, column_name
+                           in zip(union_column_names, column_names) if union_column_name != column_name}
+        if not subquery_config.get("aggregate") and not any([name in subquery_config["schema"] for name in renamed_columns]):
+            for union_column_name, column_name in renamed_columns.items():
+                subquery_config["schema"][union_column_name] = subquery_config["schema"][column_name]
+            return subquery_config
+        column_config = {key: config[key] for key in ("extends", "querys", "databases", "predicate", "intercept", "orders", "pipelines")
+                         if key in config}
+        column_config = copy.deepcopy(column_config)
+        table_name = "__unionquery_" + str(uuid.uuid1().int)
+        output_table, output_key_info = subquery_config["output"].split("::")
+        subquery_config["output"] = "&.--." + table_name + "::" + output_key_info
+        column_config["name"] = subquery_config["name"] + "@columns"
+        column_config["input"] = "&.--." + table_name + "::" + output_key_info.split(" use ")[0]
+        column_config["output"] = output_table + "::" + (union_column_names[0]) + " use I"
+        column_config["schema"] = {union_column_name: "$." + column_name for union_column_name, column_name
+                                   in zip(union_column_names, column_names)}
+        column_config["dependencys"] = [subquery_config]
+        return column_config
+
     def compile_select(self, expression, config, arguments):
         primary_table = {"db": None, "name": None, "table_name": None, "table_alias": None, "seted_primary_keys": False,
                          "loader_primary_keys": [], "outputer_primary_keys": [], "columns": {}, "subquery": None, "select_columns": {}}
-- 
2.43.0


From 19e6a7e889d05cffc848af97d2e81a35468389cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:59 +0000
Subject: [PATCH 55/94] fix: rows of INSERT VALUES are merged by a column they
 have

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index b97f60f..3db99e9 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -340,6 +340,8 @@ class Compiler(object):
                     column[1] = value_types.pop().__name__
             config["schema"] = {column_name: "$." + column_name + (("|" + column_type) if column_type else "")
                                 for column_name, column_type in columns}
+            if "id" not in config["schema"] and columns[0][0].isidentifier():
+                config["output"] = config["output"].replace("::id use ", "::" + columns[0][0] + " use ")
             config["input"] = "&.--.--::" + columns[0][0]
             config["loader"] = "const_loader"
             config["loader_arguments"] = {"datas": datas}
-- 
2.43.0


From 200b27c5e660b03d38fe9a46979ede517b27ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 56/94] fix: INSERT INTO t WITH ... SELECT computes its common
 table expressions

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 3db99e9..78d2473 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -312,6 +312,8 @@ class Compiler(object):
 
         if isinstance(expression.args["expression"], (sqlglot_expressions.Select, sqlglot_expressions.Union)):
             select_expression = expression.args["expression"]
+            if select_expression.args.get("with"):
+                self.compile_with(select_expression.args.get("with"), config, arguments)
             if isinstance(select_expression, sqlglot_expressions.Union):
                 self.compile_union(select_expression, config, arguments)
             else:
-- 
2.43.0


From 5c0580679f1c788f96748da1443978659cb20348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 57/94] fix: INSERT INTO t (columns) SELECT writes the values
 to the listed columns

---
 syncanysql/compiler.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 78d2473..f4a2719 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -312,6 +312,8 @@ class Compiler(object):
 
         if isinstance(expression.args["expression"], (sqlglot_expressions.Select, sqlglot_expressions.Union)):
             select_expression = expression.args["expression"]
+            if columns and self.compile_insert_columns(select_expression, columns, config, arguments):
+                return
             if select_expression.args.get("with"):
                 self.compile_with(select_expression.args.get("with"), config, arguments)
             if isinstance(select_expression, sqlglot_expressions.Union):
@@ -350,6 +352,31 @@ class Compiler(object):
         else:
             raise SyncanySqlCompileException('unknown insert into, related sql "%s"' % self.to_sql(expression))
 
+    def compile_insert_columns(self, expression, columns, config, arguments):
+        # the values of the select go to the listed columns by position, whatever the select names them
+        subquery_arguments = dict(arguments)
+        subquery_name, subquery_config = self.compile_subquery(expression.copy(), subquery_arguments)
+        if not isinstance(subquery_config["schema"], dict):
+            return False
+        select_names = list(subquery_config["schema"].keys())
+        if len(select_names) != len(columns):
+            raise SyncanySqlCompileException('error insert into, select columns count must match columns, related sql "%s"'
+                                             % self.to_sql(expression))
+        if all([select_name == column_name and not column_type
+                for select_name, (column_name, column_type) in zip(select_names, columns)]):
+            return False
+        column_names = dict(zip(select_names, [column_name for column_name, _ in columns]))
+        primary_keys = subquery_config["output"].split("::")[-1].split(" use ")[0]
+        arguments.update(subquery_arguments)
+        config["dependencys"].append(subquery_config)
+        config["schema"] = {column_name: "$." + select_name + (("|" + column_type) if column_type else "")
+                            for select_name, (column_name, column_type) in zip(select_names, columns)}
+        config["input"] = "&.--." + subquery_name + "::" + primary_keys
+        config["output"] = "".join([config["output"].split("::")[0], "::",
+                                    "+".join([column_names.get(primary_key, primary_key) for primary_key in primary_keys.split("+")]),
+                                    " use ", config["output"].split(" use ")[-1]])
+        return True
+
     def compile_union(self, expression, config, arguments):
         select_expressions = []
         def parse(union_expression):
-- 
2.43.0


From cb7d35bcbe6b129785940665fb694269347a7c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 58/94] fix: LIMIT of a SELECT of a UNION whose columns are
 renamed

---
 syncanysql/compiler.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index f4a2719..ac7dceb 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -399,11 +399,12 @@ class Compiler(object):
             output_primary_key_type_info = subquery_config["output"].split("::")[-1].split(" use ")
             subquery_config["output"] = "&.--." + query_name + "::" + output_primary_key_type_info[0] + " use I"
             subquery_config["name"] = subquery_config["name"] + "#" + subquery_name[2:]
-            arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
             if union_column_names is None:
                 union_column_names = list(subquery_config["schema"].keys()) if isinstance(subquery_config["schema"], dict) else []
             elif union_column_names and isinstance(subquery_config["schema"], dict):
-                subquery_config = self.compile_union_column(subquery_config, union_column_names, config, arguments)
+                subquery_config, subquery_arguments = self.compile_union_column(subquery_config, subquery_arguments, union_column_names,
+                                                                                config, arguments)
+            arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
             if not isinstance(subquery_config["schema"], dict):
                 config["schema"], is_all_columns = "$.*", True
             elif not is_all_columns:
@@ -421,19 +422,19 @@ class Compiler(object):
         arguments["@primary_order"] = False
         arguments["@limit"] = 0
 
-    def compile_union_column(self, subquery_config, union_column_names, config, arguments):
+    def compile_union_column(self, subquery_config, subquery_arguments, union_column_names, config, arguments):
         # the columns of a union are the columns of its first select, the other selects give their values by position
         column_names = list(subquery_config["schema"].keys())
         if len(column_names) != len(union_column_names):
             raise SyncanySqlCompileException('error union, select columns count must match')
         if column_names == union_column_names:
-            return subquery_config
+            return subquery_config, subquery_arguments
         renamed_columns = {union_column_name: column_name for union_column_name, column_name
                            in zip(union_column_names, column_names) if union_column_name != column_name}
         if not subquery_config.get("aggregate") and not any([name in subquery_config["schema"] for name in renamed_columns]):
             for union_column_name, column_name in renamed_columns.items():
                 subquery_config["schema"][union_column_name] = subquery_config["schema"][column_name]
-            return subquery_config
+            return subquery_config, subquery_arguments
         column_config = {key: config[key] for key in ("extends", "querys", "databases", "predicate", "intercept", "orders", "pipelines")
                          if key in config}
         column_config = copy.deepcopy(column_config)
@@ -446,7 +447,10 @@ class Compiler(object):
         column_config["schema"] = {union_column_name: "$." + column_name for union_column_name, column_name
                                    in zip(union_column_names, column_names)}
         column_config["dependencys"] = [subquery_config]
-        return column_config
+        column_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
+        column_arguments.update({"@primary_order": False, "@limit": 0})
+        column_arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
+        return column_config, column_arguments
 
     def compile_select(self, expression, config, arguments):
         primary_table = {"db": None, "name": None, "table_name": None, "table_alias": None, "seted_primary_keys": False,
-- 
2.43.0


From cf3932c5c43c0a607da595f2d8947e9a0f9785ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 59/94] fix: a CTE reading a table whose name starts with the
 CTE's name is not recursive

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index ac7dceb..513419c 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -246,7 +246,7 @@ class Compiler(object):
             arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
             output_db_table_name = subquery_config["output"].split("::")[0]
             for dependency_config in (subquery_config.get("dependencys") or []):
-                if isinstance(dependency_config.get("input"), str) and dependency_config["input"].startswith(output_db_table_name):
+                if isinstance(dependency_config.get("input"), str) and dependency_config["input"].startswith(output_db_table_name + "::"):
                     dependency_config["input"] = dependency_config["output"].split(" ")[0]
                     arguments[subquery_config["name"] + "@" + dependency_config["name"] + "@@batch"] = 1
                     arguments[subquery_config["name"] + "@" + dependency_config["name"] + "@@loop"] = True
-- 
2.43.0


From f2caafff170e2077c44f05e78dff8d9563748da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 60/94] fix: a common table expression belongs to its statement
 and is released with it

---
 syncanysql/compiler.py      | 43 ++++++++++++++++++++++++++-----------
 syncanysql/taskers/query.py |  3 ++-
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 513419c..f60abe5 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -111,6 +111,7 @@ class Compiler(object):
         self.env_variables = env_variables
         self.name = name
         self.mapping = {}
+        self.with_tables = {}
 
     def compile(self, sql, arguments):
         escape_sql = sql
@@ -224,23 +225,33 @@ class Compiler(object):
             "pipelines": []
         })
 
-        if expression.args.get("with"):
-            self.compile_with(expression.args.get("with"), config, arguments)
-        if isinstance(expression, sqlglot_expressions.Union):
-            self.compile_union(expression, config, arguments)
-        elif isinstance(expression, sqlglot_expressions.Insert):
-            self.compile_insert_into(expression, config, arguments)
-        elif isinstance(expression, sqlglot_expressions.Select):
-            self.compile_select(self.optimize_rewrite(expression, config, arguments), config, arguments)
-        else:
-            raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
+        with_tables = self.with_tables
+        try:
+            if expression.args.get("with"):
+                self.compile_with(expression.args.get("with"), config, arguments)
+            if isinstance(expression, sqlglot_expressions.Union):
+                self.compile_union(expression, config, arguments)
+            elif isinstance(expression, sqlglot_expressions.Insert):
+                self.compile_insert_into(expression, config, arguments)
+            elif isinstance(expression, sqlglot_expressions.Select):
+                self.compile_select(self.optimize_rewrite(expression, config, arguments), config, arguments)
+            else:
+                raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
+        finally:
+            self.with_tables = with_tables
         return config
 
     def compile_with(self, expression, config, arguments):
         for sub_expression in expression.args["expressions"]:
-            table_name = sub_expression.args["alias"].name
+            with_name = sub_expression.args["alias"].name
+            with_name = self.mapping.get(with_name, with_name)
+            table_name = "__withquery_" + str(uuid.uuid1().int) + "_" + with_name
+            with_tables = dict(self.with_tables, **{with_name: table_name})
+            if expression.args.get("recursive"):
+                self.with_tables = with_tables
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
             subquery_config = self.compile_query(sub_expression.args["this"], subquery_arguments)
+            self.with_tables = with_tables
             subquery_config["output"] = "&.--." + table_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
             subquery_config["name"] = subquery_config["name"] + "#" + table_name + "#select"
             arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
@@ -474,7 +485,7 @@ class Compiler(object):
             if isinstance(from_expression, sqlglot_expressions.Table):
                 table_info = self.parse_table(from_expression, config, arguments)
                 primary_table["db"] = table_info["db"]
-                primary_table["name"] = table_info["name"]
+                primary_table["name"] = self.parse_with_table(table_info)
                 primary_table["table_alias"] = table_info["table_alias"]
                 primary_table["table_name"] = table_info["table_name"]
             elif isinstance(from_expression, sqlglot_expressions.Subquery):
@@ -2106,7 +2117,7 @@ class Compiler(object):
                 raise SyncanySqlCompileException('unknown join expression, unsupported join type, related sql "%s"' % self.to_sql(join_expression))
             if isinstance(join_expression.args["this"], sqlglot_expressions.Table):
                 table_info = self.parse_table(join_expression.args["this"], config, arguments)
-                db, table, subquery_config = table_info["db"], table_info["name"], None
+                db, table, subquery_config = table_info["db"], self.parse_with_table(table_info), None
             elif isinstance(join_expression.args["this"], sqlglot_expressions.Subquery):
                 subquery_name, subquery_config = self.compile_subquery(join_expression.args["this"], arguments)
                 db, table = "--", subquery_name
@@ -2740,6 +2751,12 @@ class Compiler(object):
             "typing_options": typing_options,
         }
         
+    def parse_with_table(self, table_info):
+        # the table a common table expression of this statement is computed into, any other table keeps its name
+        if table_info["db"] != "--":
+            return table_info["name"]
+        return self.with_tables.get(table_info["name"], table_info["name"])
+
     def parse_column(self, expression, config, arguments):
         dot_keys, convert_typing_filter = [], None
         if isinstance(expression, sqlglot_expressions.Dot):
diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index 2cb7b09..e59385e 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -390,7 +390,8 @@ class QueryTasker(object):
                 self.temporary_memory_manager.use_collection(tasker.loader.name)
 
         if hasattr(tasker.outputer, "name"):
-            if tasker.outputer.name.startswith("--.__subquery_") or tasker.outputer.name.startswith("--.__unionquery_"):
+            if tasker.outputer.name.startswith("--.__subquery_") or tasker.outputer.name.startswith("--.__unionquery_") \
+                    or tasker.outputer.name.startswith("--.__withquery_"):
                 self.temporary_memory_manager.add_collection(tasker.outputer.name)
 
         loader_or_outputers = [tasker.loader, tasker.outputer] + list(tasker.join_loaders.values())
-- 
2.43.0


From feb6d616d6173eb6af63560d147c858b95de9c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 61/94] fix: the column list of a common table expression or
 derived table names its columns

---
 syncanysql/compiler.py | 56 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index f60abe5..e8936e0 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -250,10 +250,16 @@ class Compiler(object):
             if expression.args.get("recursive"):
                 self.with_tables = with_tables
             subquery_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
-            subquery_config = self.compile_query(sub_expression.args["this"], subquery_arguments)
+            column_names, query_expression = self.parse_table_columns(sub_expression), sub_expression.args["this"]
+            if column_names and expression.args.get("recursive"):
+                query_expression, column_names = self.compile_recursive_columns(query_expression, column_names), []
+            subquery_config = self.compile_query(query_expression, subquery_arguments)
             self.with_tables = with_tables
             subquery_config["output"] = "&.--." + table_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
             subquery_config["name"] = subquery_config["name"] + "#" + table_name + "#select"
+            if column_names:
+                subquery_config, subquery_arguments = self.compile_table_columns(sub_expression, subquery_config, subquery_arguments,
+                                                                                 column_names, arguments)
             arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
             output_db_table_name = subquery_config["output"].split("::")[0]
             for dependency_config in (subquery_config.get("dependencys") or []):
@@ -277,10 +283,43 @@ class Compiler(object):
                                              else expression.args["this"], subquery_arguments)
         subquery_config["output"] = "&.--." + subquery_name + "::" + subquery_config["output"].split("::")[-1].split(" use ")[0] + " use I"
         subquery_config["name"] = subquery_config["name"] + "#" + subquery_name[2:]
+        column_names = self.parse_table_columns(expression) if isinstance(expression, sqlglot_expressions.Subquery) else []
+        if column_names:
+            subquery_config, subquery_arguments = self.compile_table_columns(expression, subquery_config, subquery_arguments,
+                                                                             column_names, arguments)
         arguments.update({subquery_config["name"] + "@" + key: value for key, value in subquery_arguments.items()})
         arguments["@primary_order"] = False
         return subquery_name, subquery_config
 
+    def parse_table_columns(self, expression):
+        # name (column, ...) names the columns of a derived table
+        columns = expression.args["alias"].args.get("columns") if expression.args.get("alias") else None
+        return [self.mapping.get(column.name, column.name) for column in (columns or [])]
+
+    def compile_recursive_columns(self, expression, column_names):
+        expression = expression.copy()
+        select_expression = expression
+        while isinstance(select_expression, sqlglot_expressions.Union):
+            select_expression = select_expression.args["this"]
+        select_expressions = select_expression.args["expressions"]
+        if len(select_expressions) != len(column_names) or any([item.is_star for item in select_expressions]):
+            raise SyncanySqlCompileException('error with, select columns count must match columns, related sql "%s"'
+                                             % self.to_sql(expression))
+        select_expression.set("expressions", [
+            sqlglot_expressions.Alias(this=item.args["this"] if isinstance(item, sqlglot_expressions.Alias) else item,
+                                      alias=sqlglot_expressions.to_identifier(column_name))
+            for item, column_name in zip(select_expressions, column_names)])
+        return expression
+
+    def compile_table_columns(self, expression, subquery_config, subquery_arguments, column_names, arguments):
+        if not isinstance(subquery_config["schema"], dict) or len(subquery_config["schema"]) != len(column_names):
+            raise SyncanySqlCompileException('error subquery, select columns count must match columns, related sql "%s"'
+                                             % self.to_sql(expression))
+        select_names = list(subquery_config["schema"].keys())
+        if select_names == column_names:
+            return subquery_config, subquery_arguments
+        return self.compile_rename_column(subquery_config, subquery_arguments, select_names, column_names, arguments)
+
     def compile_insert_into(self, expression, config, arguments):
         columns = []
         if isinstance(expression.args["this"], sqlglot_expressions.Table):
@@ -446,17 +485,20 @@ class Compiler(object):
             for union_column_name, column_name in renamed_columns.items():
                 subquery_config["schema"][union_column_name] = subquery_config["schema"][column_name]
             return subquery_config, subquery_arguments
-        column_config = {key: config[key] for key in ("extends", "querys", "databases", "predicate", "intercept", "orders", "pipelines")
-                         if key in config}
-        column_config = copy.deepcopy(column_config)
+        return self.compile_rename_column(subquery_config, subquery_arguments, column_names, union_column_names, arguments)
+
+    def compile_rename_column(self, subquery_config, subquery_arguments, column_names, rename_column_names, arguments):
+        column_config = self.config.create_tasker_config()
+        column_config.update({"extends": ["context://session/config"], "querys": {}, "databases": [], "predicate": None,
+                              "intercept": None, "orders": [], "pipelines": []})
         table_name = "__unionquery_" + str(uuid.uuid1().int)
         output_table, output_key_info = subquery_config["output"].split("::")
         subquery_config["output"] = "&.--." + table_name + "::" + output_key_info
         column_config["name"] = subquery_config["name"] + "@columns"
         column_config["input"] = "&.--." + table_name + "::" + output_key_info.split(" use ")[0]
-        column_config["output"] = output_table + "::" + (union_column_names[0]) + " use I"
-        column_config["schema"] = {union_column_name: "$." + column_name for union_column_name, column_name
-                                   in zip(union_column_names, column_names)}
+        column_config["output"] = output_table + "::" + rename_column_names[0] + " use I"
+        column_config["schema"] = {rename_column_name: "$." + column_name for rename_column_name, column_name
+                                   in zip(rename_column_names, column_names)}
         column_config["dependencys"] = [subquery_config]
         column_arguments = {key: arguments[key] for key in CONST_CONFIG_KEYS if key in arguments}
         column_arguments.update({"@primary_order": False, "@limit": 0})
-- 
2.43.0


From 3948c655eb37d7a8cf03eca34cbc4f5e26dfeaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:40 +0000
Subject: [PATCH 62/94] fix: names of output columns show quoted identifiers as
 written

---
 syncanysql/compiler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index e8936e0..f584b97 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -594,17 +594,17 @@ class Compiler(object):
                     calculate_expression = select_expression.args["this"]
             elif self.is_const(select_expression, config, arguments):
                 const_info = self.parse_const(select_expression, config, arguments)
-                column_alias = self.generate_sql(select_expression)
+                column_alias = self.to_sql(select_expression)
                 config["schema"][column_alias] = self.compile_const(select_expression, config, arguments, const_info)
                 continue
             elif self.is_window_aggregate(select_expression, config, arguments):
-                column_alias = self.generate_sql(select_expression)
+                column_alias = self.to_sql(select_expression)
                 window_aggregate_expression = select_expression
             elif self.is_aggregate(select_expression, config, arguments):
-                column_alias = self.generate_sql(select_expression)
+                column_alias = self.to_sql(select_expression)
                 aggregate_expression = select_expression
             elif self.is_calculate(select_expression, config, arguments):
-                column_alias = self.generate_sql(select_expression)
+                column_alias = self.to_sql(select_expression)
                 calculate_expression = select_expression
             else:
                 raise SyncanySqlCompileException('error select column, must have an alias name, related sql "%s"'
@@ -2084,8 +2084,8 @@ class Compiler(object):
         for order_expression in expression:
             if not self.is_column(order_expression.args["this"], config, arguments):
                 if isinstance(config["schema"], dict):
-                    if self.generate_sql(order_expression.args["this"]) in config["schema"]:
-                        sort_keys.append((self.generate_sql(order_expression.args["this"]), True if order_expression.args["desc"] else False))
+                    if self.to_sql(order_expression.args["this"]) in config["schema"]:
+                        sort_keys.append((self.to_sql(order_expression.args["this"]), True if order_expression.args["desc"] else False))
                         continue
                     has_column = False
                     for column_alias, column_expression in primary_table["select_columns"].items():
-- 
2.43.0


From 79627b61d05b3f91d0cdf10525cd47aefbb17444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 63/94] fix: INSERT INTO a table with a merge mode keeps the
 mode for a UNION

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index f584b97..9db949b 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -467,6 +467,8 @@ class Compiler(object):
             if output_type == "I" and len(output_primary_key_type_info) >= 2:
                 output_type = output_primary_key_type_info[1].strip()
             config["dependencys"].append(subquery_config)
+        if " use " in config["output"]:
+            output_type = config["output"].split(" use ")[-1]
         config["input"] = "&.--." + query_name + "::" + output_primary_key
         config["output"] = config["output"].split("::")[0] + "::" + output_primary_key + " use " + output_type
         arguments["@primary_order"] = False
-- 
2.43.0


From 12a5693a808884d52f1b69c70b2ebe726740d4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 64/94] fix: rewriting joins keeps the clauses of the query as
 they are written

---
 syncanysql/compiler.py | 125 ++++++++++++++++-------------------------
 1 file changed, 47 insertions(+), 78 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 9db949b..ae8dd0f 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3134,30 +3134,12 @@ class Compiler(object):
             join_tables.append(join_table)
             can_on_expressions_tables.append(join_table["table_name"])
 
-        sql = ["SELECT"]
-        if expression.args.get("distinct"):
-            sql.append(self.generate_sql(expression.args["distinct"]))
-        sql.append(", ".join([self.generate_sql(select_expression) for select_expression in expression.args["expressions"]]))
-        sql.append("FROM " + self.generate_sql(expression.args["from"].expressions[0]))
-        for join_table in join_tables:
-            sql.append("LEFT JOIN " + self.generate_sql(join_table["table_expression"]))
-            on_expressions  = join_table["on_expressions"] + join_table["const_expressions"]
-            if on_expressions:
-                sql.append("ON " + " AND ".join([self.generate_sql(on_expression) for on_expression in on_expressions]))
-
-        if expression.args.get("where"):
-            sql.append(self.generate_sql(expression.args["where"]))
-        if expression.args.get("group"):
-            sql.append(self.generate_sql(expression.args["group"]))
-        if expression.args.get("having"):
-            sql.append(self.generate_sql(expression.args["having"]))
-        if expression.args.get("order"):
-            sql.append(self.generate_sql(expression.args["order"]))
-        if expression.args.get("limit"):
-            sql.append(self.generate_sql(expression.args.get("limit")))
-        if expression.args.get("offset"):
-            sql.append(self.generate_sql(expression.args.get("offset")))
-        return maybe_parse(" ".join(sql), dialect=CompilerDialect)
+        join_expressions = [self.optimize_rewrite_build_join(join_table["table_expression"],
+                                                             join_table["on_expressions"] + join_table["const_expressions"])
+                            for join_table in join_tables]
+        return self.optimize_rewrite_build_select(expression, from_expression.expressions[0],
+                                                  join_expressions + (expression.args.get("joins") or []),
+                                                  expression.args.get("where"))
 
     def optimize_rewrite_right_join(self, expression, config, arguments):
         primary_table = self.optimize_rewrite_parse_table(expression, config, arguments,
@@ -3218,36 +3200,17 @@ class Compiler(object):
         join_tables = resort_join_tables(selected_table, selected_table["on_expressions"],
                                          join_table_names) + list(join_table_names.values())
 
-        sql = ["SELECT"]
-        if expression.args.get("distinct"):
-            sql.append(self.generate_sql(expression.args["distinct"]))
-        sql.append(", ".join([self.generate_sql(select_expression) for select_expression in expression.args["expressions"]]))
-        sql.append("FROM " + self.generate_sql(selected_table["table_expression"]))
+        join_expressions = []
         for join_table in join_tables:
             if join_table["join_type"] == "right":
                 return expression
-            sql.append("LEFT JOIN " + self.generate_sql(join_table["table_expression"]))
-            on_expressions = join_table["on_expressions"] + join_table["const_expressions"] + join_table["calculate_expressions"]
-            if on_expressions:
-                sql.append("ON " + " AND ".join([self.generate_sql(on_expression) for on_expression in on_expressions]))
+            join_expressions.append(self.optimize_rewrite_build_join(
+                join_table["table_expression"],
+                join_table["on_expressions"] + join_table["const_expressions"] + join_table["calculate_expressions"]))
 
         where_expressions = selected_table["const_expressions"] + primary_table["calculate_expressions"] + selected_table["calculate_expressions"]
-        if where_expressions:
-            sql.append("WHERE " + " AND ".join([("(" + self.generate_sql(where_expression) + ")")
-                                                if isinstance(where_expression, sqlglot_expressions.Or)
-                                                else self.generate_sql(where_expression)
-                                                for where_expression in where_expressions]))
-        if expression.args.get("group"):
-            sql.append(self.generate_sql(expression.args["group"]))
-        if expression.args.get("having"):
-            sql.append(self.generate_sql(expression.args["having"]))
-        if expression.args.get("order"):
-            sql.append(self.generate_sql(expression.args["order"]))
-        if expression.args.get("limit"):
-            sql.append(self.generate_sql(expression.args.get("limit")))
-        if expression.args.get("offset"):
-            sql.append(self.generate_sql(expression.args.get("offset")))
-        return maybe_parse(" ".join(sql), dialect=CompilerDialect)
+        return self.optimize_rewrite_build_select(expression, selected_table["table_expression"], join_expressions,
+                                                  self.optimize_rewrite_build_where(where_expressions))
 
     def optimize_rewrite_inner_join(self, expression, config, arguments):
         primary_table = self.optimize_rewrite_parse_table(expression, config, arguments,
@@ -3276,36 +3239,42 @@ class Compiler(object):
         if not inner_calculate_fields:
             return expression
 
-        sql = ["SELECT"]
-        if expression.args.get("distinct"):
-            sql.append(self.generate_sql(expression.args["distinct"]))
-        sql.append(", ".join([self.generate_sql(select_expression) for select_expression in expression.args["expressions"]]))
-        sql.append(self.generate_sql(expression.args["from"]))
-        for join_expression in expression.args["joins"]:
-            sql.append("LEFT JOIN " + self.generate_sql(join_expression.args["this"]))
-            if join_expression.args.get("on"):
-                sql.append("ON " + self.generate_sql(join_expression.args["on"]))
+        join_expressions = [self.optimize_rewrite_build_join(join_expression.args["this"],
+                                                             [join_expression.args["on"]] if join_expression.args.get("on") else [])
+                            for join_expression in expression.args["joins"]]
+        where_expressions = [expression.args["where"].args["this"]] if expression.args.get("where") else []
+        for calculate_field in inner_calculate_fields:
+            column_expression = sqlglot_expressions.Column(this=sqlglot_expressions.to_identifier(calculate_field["column_name"]),
+                                                           table=calculate_field["expression"].args["table"],
+                                                           db=calculate_field["expression"].args.get("db"))
+            where_expressions.append(sqlglot_expressions.Not(this=sqlglot_expressions.Is(this=column_expression,
+                                                                                         expression=sqlglot_expressions.Null())))
+        return self.optimize_rewrite_build_select(expression, expression.args["from"].expressions[0], join_expressions,
+                                                  self.optimize_rewrite_build_where(where_expressions))
+
+    def optimize_rewrite_build_select(self, expression, from_expression, join_expressions, where_expression):
+        # every other clause stays as it is written
+        expression = expression.copy()
+        expression.set("from", sqlglot_expressions.From(expressions=[from_expression.copy()]))
+        expression.set("joins", [join_expression.copy() for join_expression in join_expressions])
+        expression.set("where", where_expression.copy() if where_expression else None)
+        return expression
 
-        inner_condition_sql = " AND ".join(["%s.%s IS NOT NULL" % (calculate_field["table_name"], calculate_field["column_name"])
-                                            for calculate_field in inner_calculate_fields])
-        if expression.args.get("where"):
-            if isinstance(expression.args["where"].args["this"], sqlglot_expressions.Or):
-                sql.append("WHERE (" + self.generate_sql(expression.args["where"].args["this"]) + ") AND " + inner_condition_sql)
-            else:
-                sql.append("WHERE " + self.generate_sql(expression.args["where"].args["this"]) + " AND " + inner_condition_sql)
-        else:
-            sql.append("WHERE " + inner_condition_sql)
-        if expression.args.get("group"):
-            sql.append(self.generate_sql(expression.args["group"]))
-        if expression.args.get("having"):
-            sql.append(self.generate_sql(expression.args["having"]))
-        if expression.args.get("order"):
-            sql.append(self.generate_sql(expression.args["order"]))
-        if expression.args.get("limit"):
-            sql.append(self.generate_sql(expression.args.get("limit")))
-        if expression.args.get("offset"):
-            sql.append(self.generate_sql(expression.args.get("offset")))
-        return maybe_parse(" ".join(sql), dialect=CompilerDialect)
+    def optimize_rewrite_build_join(self, table_expression, on_expressions):
+        return sqlglot_expressions.Join(this=table_expression.copy(), side="LEFT", on=self.optimize_rewrite_build_and(on_expressions))
+
+    def optimize_rewrite_build_where(self, where_expressions):
+        return sqlglot_expressions.Where(this=self.optimize_rewrite_build_and(where_expressions)) if where_expressions else None
+
+    def optimize_rewrite_build_and(self, condition_expressions):
+        and_expression = None
+        for condition_expression in condition_expressions:
+            condition_expression = condition_expression.copy()
+            if len(condition_expressions) > 1 and isinstance(condition_expression, sqlglot_expressions.Or):
+                condition_expression = sqlglot_expressions.Paren(this=condition_expression)
+            and_expression = sqlglot_expressions.And(this=and_expression, expression=condition_expression) \
+                if and_expression else condition_expression
+        return and_expression
 
     def optimize_rewrite_parse_table(self, expression, config, arguments, table_expression):
         table = {"table_name": None, "table_alias": None, "columns": {}}
-- 
2.43.0


From fb585007a8a40dad45c1475b4eab4a4ea74944b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 65/94] fix: JOIN with USING and NATURAL JOIN are rejected
 instead of joining all rows

---
 syncanysql/compiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index ae8dd0f..5425cf8 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3098,6 +3098,10 @@ class Compiler(object):
         from_expression = expression.args.get("from")
         if not from_expression or not from_expression.expressions:
             return expression
+        for join_expression in expression.args.get("joins") or []:
+            if join_expression.args.get("using") or join_expression.args.get("natural"):
+                raise SyncanySqlCompileException('unknown join expression, unsupported join condition, related sql "%s"'
+                                                 % self.to_sql(join_expression))
         if len(from_expression.expressions) > 1:
             expression = self.optimize_rewrite_multi_select(expression, config, arguments, from_expression)
 
-- 
2.43.0


From 8eb8b0b1572e292196dea6770e6f9b07375c8b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 66/94] fix: INNER JOIN excludes the rows without a match
 whatever table it refers to, LEFT JOIN beside it does not

---
 syncanysql/compiler.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 5425cf8..89c4968 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3084,6 +3084,10 @@ class Compiler(object):
     def is_window_aggregate(self, expression, config, arguments):
         return isinstance(expression, sqlglot_expressions.Window)
 
+    def is_inner_join(self, join_expression):
+        kind = join_expression.kind.lower() if join_expression.kind else ""
+        return kind == "inner" or (kind == "cross" and bool(join_expression.args.get("on")))
+
     def has_yield(self, column):
         if isinstance(column, dict):
             return any(self.has_yield(child_column) for child_column in column.values())
@@ -3112,7 +3116,7 @@ class Compiler(object):
                 expression = self.optimize_rewrite_right_join(expression, config, arguments)
                 break
         for join_expression in expression.args["joins"]:
-            if join_expression.kind and join_expression.kind.lower() == "inner":
+            if self.is_inner_join(join_expression):
                 expression = self.optimize_rewrite_inner_join(expression, config, arguments)
                 break
         return expression
@@ -3224,6 +3228,8 @@ class Compiler(object):
 
         inner_calculate_fields = []
         for join_expression in expression.args["joins"]:
+            if not self.is_inner_join(join_expression):
+                continue
             join_table = {"table_name": self.optimize_rewrite_parse_table(expression, config, arguments,
                                                                           join_expression.args["this"])["table_name"],
                           "related_tables": set([]), "on_expressions": [], "const_expressions": [],
@@ -3235,16 +3241,20 @@ class Compiler(object):
                                                       join_table["table_name"], join_table["related_tables"],
                                                       join_table["on_expressions"], join_table["const_expressions"],
                                                       join_table["calculate_expressions"])
-            if primary_table["table_name"] in join_table["related_tables"]:
-                for on_expression in join_table["on_expressions"]:
-                    self.parse_calculate(on_expression, config, arguments, primary_table, inner_calculate_fields)
-        inner_calculate_fields = [calculate_field for calculate_field in inner_calculate_fields
-                                  if calculate_field["table_name"] and calculate_field["table_name"] != primary_table["table_name"]]
-        if not inner_calculate_fields:
-            return expression
+            # a row of the joined table has a value in the columns it is matched by
+            join_calculate_fields = []
+            for on_expression in join_table["on_expressions"] or join_table["const_expressions"]:
+                self.parse_calculate(on_expression, config, arguments, primary_table, join_calculate_fields)
+            join_calculate_fields = [calculate_field for calculate_field in join_calculate_fields
+                                     if calculate_field["table_name"] and calculate_field["table_name"] == join_table["table_name"]]
+            if not join_calculate_fields:
+                raise SyncanySqlCompileException('unknown join expression, unsupported join condition, related sql "%s"'
+                                                 % self.to_sql(join_expression))
+            inner_calculate_fields.extend(join_calculate_fields)
 
         join_expressions = [self.optimize_rewrite_build_join(join_expression.args["this"],
                                                              [join_expression.args["on"]] if join_expression.args.get("on") else [])
+                            if self.is_inner_join(join_expression) else join_expression
                             for join_expression in expression.args["joins"]]
         where_expressions = [expression.args["where"].args["this"]] if expression.args.get("where") else []
         for calculate_field in inner_calculate_fields:
-- 
2.43.0


From 262e121c248c9389515576edd538844e501ec710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:45 +0000
Subject: [PATCH 67/94] fix: RIGHT JOIN keeps its whole condition and the INNER
 JOINs after it

---
 syncanysql/compiler.py | 53 ++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 89c4968..38682be 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3187,36 +3187,49 @@ class Compiler(object):
             selected_table = new_primary_table_table
         if selected_table["join_type"] == "primary":
             return expression
+        for join_table in join_tables[:join_tables.index(selected_table)]:
+            if self.is_inner_join(join_table["join_expression"]):
+                return expression
+        where_expressions = primary_table["calculate_expressions"]
+        primary_table["calculate_expressions"] = []
         join_tables.remove(selected_table)
         join_tables.append(primary_table)
 
-        def resort_join_tables(current_table, on_expressions, join_tables):
-            related_tables = []
-            for table_name in current_table["related_tables"]:
-                if table_name not in join_tables:
-                    continue
-                related_table = join_tables.pop(table_name)
-                related_tables.append(related_table)
-                if related_table["join_type"] == "right":
-                    related_tables.extend(resort_join_tables(related_table, related_table["on_expressions"], join_tables))
-                    related_table["on_expressions"] = on_expressions
-                    related_table["join_type"] = "left"
-                else:
-                    related_table["on_expressions"].extend(on_expressions)
+        def resort_join_tables(current_table, join_tables):
+            # the one table before a right join is joined by the whole condition of the right join
+            on_expressions = current_table["on_expressions"] + current_table["const_expressions"] + current_table["calculate_expressions"]
+            on_fields = []
+            for on_expression in on_expressions:
+                self.parse_calculate(on_expression, config, arguments, primary_table, on_fields)
+            table_names = {on_field["table_name"] for on_field in on_fields if on_field["table_name"] != current_table["table_name"]}
+            if len(table_names) != 1 or not table_names <= set(join_tables):
+                return None
+            related_table = join_tables.pop(table_names.pop())
+            related_tables = [related_table]
+            if related_table["join_type"] == "right":
+                right_related_tables = resort_join_tables(related_table, join_tables)
+                if right_related_tables is None:
+                    return None
+                related_tables.extend(right_related_tables)
+            elif related_table["join_type"] != "primary":
+                return None
+            related_table.update({"on_expressions": on_expressions, "const_expressions": [], "calculate_expressions": [],
+                                  "join_type": "left"})
             return related_tables
         join_table_names = {join_table["table_name"]: join_table for join_table in join_tables}
-        join_tables = resort_join_tables(selected_table, selected_table["on_expressions"],
-                                         join_table_names) + list(join_table_names.values())
+        related_tables = resort_join_tables(selected_table, join_table_names)
+        if related_tables is None:
+            return expression
+        join_tables = related_tables + list(join_table_names.values())
 
         join_expressions = []
         for join_table in join_tables:
             if join_table["join_type"] == "right":
                 return expression
-            join_expressions.append(self.optimize_rewrite_build_join(
-                join_table["table_expression"],
-                join_table["on_expressions"] + join_table["const_expressions"] + join_table["calculate_expressions"]))
-
-        where_expressions = selected_table["const_expressions"] + primary_table["calculate_expressions"] + selected_table["calculate_expressions"]
+            if join_table["join_type"] == "left" and join_table in related_tables:
+                join_expressions.append(self.optimize_rewrite_build_join(join_table["table_expression"], join_table["on_expressions"]))
+            else:
+                join_expressions.append(join_table["join_expression"])
         return self.optimize_rewrite_build_select(expression, selected_table["table_expression"], join_expressions,
                                                   self.optimize_rewrite_build_where(where_expressions))
 
-- 
2.43.0


From e10c8faf846aeb727615de27aabaa162361afc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:22 +0000
Subject: [PATCH 68/94] fix: INNER JOIN keeps matched rows with a NULL in a
 column its condition only calculates with

---
 syncanysql/compiler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 38682be..cd9c38a 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3257,9 +3257,12 @@ class Compiler(object):
             # a row of the joined table has a value in the columns it is matched by
             join_calculate_fields = []
             for on_expression in join_table["on_expressions"] or join_table["const_expressions"]:
-                self.parse_calculate(on_expression, config, arguments, primary_table, join_calculate_fields)
-            join_calculate_fields = [calculate_field for calculate_field in join_calculate_fields
-                                     if calculate_field["table_name"] and calculate_field["table_name"] == join_table["table_name"]]
+                for column_expression in (on_expression.args["this"], on_expression.args.get("expression")):
+                    if not column_expression or not self.is_column(column_expression, config, arguments):
+                        continue
+                    column = self.parse_column(column_expression, config, arguments)
+                    if column["table_name"] and column["table_name"] == join_table["table_name"]:
+                        join_calculate_fields.append(column)
             if not join_calculate_fields:
                 raise SyncanySqlCompileException('unknown join expression, unsupported join condition, related sql "%s"'
                                                  % self.to_sql(join_expression))
-- 
2.43.0


From f725beeaa70d54972d68c0de89a6bf55e8a67dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 69/94] fix: RIGHT JOIN after a join with all rows is rejected
 instead of joining them to unmatched rows

---
 syncanysql/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index cd9c38a..e891e88 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3188,7 +3188,8 @@ class Compiler(object):
         if selected_table["join_type"] == "primary":
             return expression
         for join_table in join_tables[:join_tables.index(selected_table)]:
-            if self.is_inner_join(join_table["join_expression"]):
+            # without a row of the table it refers to such a join would still give rows
+            if self.is_inner_join(join_table["join_expression"]) or not join_table["related_tables"]:
                 return expression
         where_expressions = primary_table["calculate_expressions"]
         primary_table["calculate_expressions"] = []
-- 
2.43.0


From 4b778383954a9491c6714277c82101db7e06a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:22 +0000
Subject: [PATCH 70/94] fix: RIGHT JOIN with a condition that calculates with
 its own columns no longer hangs

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index e891e88..7f51408 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3179,7 +3179,7 @@ class Compiler(object):
         selected_table = primary_table
         while True:
             new_primary_table_table = None
-            for join_table in join_tables:
+            for join_table in (join_tables if selected_table is primary_table else join_tables[join_tables.index(selected_table) + 1:]):
                 if join_table["join_type"] == "right" and selected_table["table_name"] in join_table["related_tables"]:
                     new_primary_table_table = join_table
             if not new_primary_table_table:
-- 
2.43.0


From 8224158135361fd4c63713bc5b3b1e44cf99508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:37 +0000
Subject: [PATCH 71/94] fix: ORDER BY a table's column sorts by that column,
 not by another output column of its name

---
 syncanysql/compiler.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 7f51408..87d0c94 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -509,7 +509,8 @@ class Compiler(object):
 
     def compile_select(self, expression, config, arguments):
         primary_table = {"db": None, "name": None, "table_name": None, "table_alias": None, "seted_primary_keys": False,
-                         "loader_primary_keys": [], "outputer_primary_keys": [], "columns": {}, "subquery": None, "select_columns": {}}
+                         "loader_primary_keys": [], "outputer_primary_keys": [], "columns": {}, "subquery": None, "select_columns": {},
+                         "column_aliases": {}}
 
         from_expression = expression.args.get("from")
         if not from_expression:
@@ -794,6 +795,9 @@ class Compiler(object):
         if not column_info["table_name"] or column_info["table_name"] == primary_table["table_name"]:
             primary_table["columns"][column_info["column_name"]] = column_info
         primary_table["select_columns"][column_alias] = expression
+        if not column_info["typing_filters"]:
+            primary_table["column_aliases"].setdefault((column_info["table_name"] or primary_table["table_name"],
+                                                        column_info["column_name"]), column_alias)
 
         if not column_info["column_name"].isidentifier() or not column_alias.isidentifier():
             return None
@@ -2100,6 +2104,10 @@ class Compiler(object):
                 raise SyncanySqlCompileException('unknown order by column, the order by field must appear in the select field, related sql "%s"'
                                                  % self.to_sql(expression))
             column = self.parse_column(order_expression.args["this"], config, arguments)
+            if column["table_name"] and column["table_name"] == primary_table["name"] and not primary_table["table_alias"]:
+                column["table_name"] = primary_table["table_name"]
+            if not isinstance(config["schema"], dict) and column["table_name"] and column["table_name"] != primary_table["table_name"]:
+                raise SyncanySqlCompileException('unknown order by column, related sql "%s"' % self.to_sql(expression))
             if not isinstance(config["schema"], dict) or (column["table_name"] and primary_table["table_name"] == column["table_name"]):
                 primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
             elif not column["table_name"] and not primary_table["table_alias"]:
@@ -2118,7 +2126,10 @@ class Compiler(object):
                 elif column["column_name"] not in config["aggregate"]["schema"] and column["column_name"] not in config["aggregate"]["window_schema"]:
                     if column["column_name"] in primary_table["columns"] and column["column_name"] not in config["schema"]:
                         primary_sort_keys.append([column["column_name"], True if order_expression.args["desc"] else False])
-            sort_keys.append((column["column_name"], True if order_expression.args["desc"] else False))
+            sort_key = column["column_name"]
+            if isinstance(config["schema"], dict) and (column["table_name"] or sort_key not in config["schema"]):
+                sort_key = primary_table["column_aliases"].get((column["table_name"] or primary_table["table_name"], sort_key))
+            sort_keys.append((sort_key, True if order_expression.args["desc"] else False))
         if sort_keys and len(primary_sort_keys) < len(sort_keys):
             if isinstance(config["schema"], dict):
                 for sort_key, _ in sort_keys:
-- 
2.43.0


From 08aa84e5ce3c83bede69cf5730bdf573dad48552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:39 +0000
Subject: [PATCH 72/94] fix: ORDER BY an output column with a dot in its name
 is rejected instead of failing in the sort

---
 syncanysql/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 87d0c94..140a4c1 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2133,7 +2133,8 @@ class Compiler(object):
         if sort_keys and len(primary_sort_keys) < len(sort_keys):
             if isinstance(config["schema"], dict):
                 for sort_key, _ in sort_keys:
-                    if sort_key in config["schema"]:
+                    # the sort takes a name with dots apart
+                    if sort_key in config["schema"] and "." not in sort_key:
                         continue
                     raise SyncanySqlCompileException('unknown order by column, related sql "%s"' % self.to_sql(expression))
             config["pipelines"].append([">>@sort", "$.*|array", False, sort_keys])
-- 
2.43.0


From f1e9b838b188d04904416054c83833a5ea2e7ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:32 +0000
Subject: [PATCH 73/94] fix: an expression over window functions is an output
 column like the others

---
 syncanysql/compiler.py      | 5 ++---
 syncanysql/taskers/query.py | 5 +++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 140a4c1..0f1789a 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1558,15 +1558,14 @@ class Compiler(object):
                 config["aggregate"]["window_schema"][column_alias]["aggregate"] = copy.deepcopy(window_aggregate_column)
             else:
                 aggregate_column_alias = "__window_aggregate_value_%d__" % id(window_expression)
-                config["schema"][aggregate_column_alias] = window_aggregate_column
                 setattr(window_expression, "syncany_valuer", "$." + aggregate_column_alias)
                 if not isinstance(config["aggregate"]["window_schema"][column_alias]["aggregate"], dict):
                     config["aggregate"]["window_schema"][column_alias]["aggregate"] = {}
-                config["aggregate"]["window_schema"][column_alias]["aggregate"][aggregate_column_alias] = copy.deepcopy(window_aggregate_column)
+                config["aggregate"]["window_schema"][column_alias]["aggregate"][aggregate_column_alias] = window_aggregate_column
 
         if not (len(window_expressions) == 1 and window_expressions[0] is expression):
             self.compile_select_calculate_column(expression, config, arguments, primary_table, column_alias, join_tables, False)
-            config["aggregate"]["window_schema"][column_alias]["final_value"] = config["schema"].pop(column_alias, None)
+            config["aggregate"]["window_schema"][column_alias]["final_value"] = config["schema"][column_alias]
         primary_table["select_columns"][column_alias] = expression
 
     def compile_window_key(self, expressions, config, arguments, primary_table, join_tables):
diff --git a/syncanysql/taskers/query.py b/syncanysql/taskers/query.py
index e59385e..1bba457 100644
--- a/syncanysql/taskers/query.py
+++ b/syncanysql/taskers/query.py
@@ -311,6 +311,11 @@ class QueryTasker(object):
             "states": [],
         })
 
+        for key, column in aggregate["window_schema"].items():
+            if isinstance(column["aggregate"], dict):
+                # calculated from the values of the window functions at the end
+                self.config["schema"][key] = ["#const", None]
+                self.config["schema"].update(column["aggregate"])
         is_multi_group_key = False
         if isinstance(aggregate["key"], list):
             if aggregate["key"] and aggregate["key"][0] == "@aggregate_key":
-- 
2.43.0


From fd5c4eaa944461226ff7bcae2eb6dfe6555d4e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 74/94] fix: an expression over window functions sees the
 columns of its row

---
 syncanysql/compiler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 0f1789a..ddbd9ed 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1564,6 +1564,15 @@ class Compiler(object):
                 config["aggregate"]["window_schema"][column_alias]["aggregate"][aggregate_column_alias] = window_aggregate_column
 
         if not (len(window_expressions) == 1 and window_expressions[0] is expression):
+            # the columns beside the window functions are those of the row
+            calculate_fields = []
+            self.parse_calculate(expression, config, arguments, primary_table, calculate_fields)
+            for calculate_field in calculate_fields:
+                aggregate_column_alias = "__window_aggregate_value_%d__" % id(calculate_field["expression"])
+                config["aggregate"]["window_schema"][column_alias]["aggregate"][aggregate_column_alias] = \
+                    self.compile_aggregate_value(expression, config, arguments, primary_table, join_tables,
+                                                 [calculate_field["expression"]])[0]
+                setattr(calculate_field["expression"], "syncany_valuer", "$." + aggregate_column_alias)
             self.compile_select_calculate_column(expression, config, arguments, primary_table, column_alias, join_tables, False)
             config["aggregate"]["window_schema"][column_alias]["final_value"] = config["schema"][column_alias]
         primary_table["select_columns"][column_alias] = expression
-- 
2.43.0


From 55f0ba4a8ce4c65cfec6ed3818145315b024abe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:21 +0000
Subject: [PATCH 75/94] fix: an expression over aggregates sees the columns of
 its group

---
 syncanysql/calculaters/__init__.py             |  1 +
 syncanysql/calculaters/aggregate_calculater.py |  8 ++++++++
 syncanysql/compiler.py                         | 16 ++++++++++++++++
 3 files changed, 25 insertions(+)

diff --git a/syncanysql/calculaters/__init__.py b/syncanysql/calculaters/__init__.py
index 53b7ed9..0098d8d 100644
--- a/syncanysql/calculaters/__init__.py
+++ b/syncanysql/calculaters/__init__.py
@@ -24,6 +24,7 @@ SQL_CALCULATERS = {
     "aggregate_count": AggregateCountCalculater,
     "aggregate_distinct_count": AggregateDistinctCountCalculater,
     "aggregate_sum": AggregateSumCalculater,
+    "aggregate_any_value": AggregateAnyValueCalculater,
     "aggregate_max": AggregateMaxCalculater,
     "aggregate_min": AggregateMinCalculater,
     "aggregate_avg": AggregateAvgCalculater,
diff --git a/syncanysql/calculaters/aggregate_calculater.py b/syncanysql/calculaters/aggregate_calculater.py
index 87d01f6..0d51e47 100644
--- a/syncanysql/calculaters/aggregate_calculater.py
+++ b/syncanysql/calculaters/aggregate_calculater.py
@@ -185,6 +185,14 @@ class AggregateMinCalculater(AggregateCalculater):
         return min(state_value, data_value)
 
 
+class AggregateAnyValueCalculater(AggregateCalculater):
+    def aggregate(self, state_value, data_value):
+        return data_value if state_value is None else state_value
+
+    def reduce(self, state_value, data_value):
+        return data_value if state_value is None else state_value
+
+
 class AggregateAvgCalculater(StateAggregateCalculater):
     def aggregate(self, state_value, data_value):
         if data_value is None:
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index ddbd9ed..d7217a9 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1359,6 +1359,22 @@ class Compiler(object):
                 setattr(aggregate_expressions[i], "syncany_valuer",
                         [final_calculate, "$." + column_alias + "." + aggregate_value_key]
                         if final_calculate else ("$." + column_alias + "." + aggregate_value_key))
+            # the columns beside the aggregates are those of the group
+            calculate_fields = []
+            self.parse_calculate(expression, config, arguments, primary_table, calculate_fields)
+            for calculate_field in calculate_fields:
+                if not calculate_field["table_name"] and calculate_field["column_name"] in config["aggregate"]["schema"]:
+                    continue
+                aggregate_value_key = "value_%d" % id(calculate_field["expression"])
+                value_column[1][aggregate_value_key] = self.compile_aggregate_value(expression, config, arguments, primary_table,
+                                                                                    join_tables, [calculate_field["expression"]])[0]
+                calculate_column[1][aggregate_value_key] = ["@aggregate_any_value::aggregate",
+                                                            "$." + column_alias + "." + aggregate_value_key,
+                                                            "$$.value." + aggregate_value_key]
+                reduce_column[1][aggregate_value_key] = ["@aggregate_any_value::reduce",
+                                                         "$." + column_alias + "." + aggregate_value_key,
+                                                         "$$." + column_alias + "." + aggregate_value_key]
+                setattr(calculate_field["expression"], "syncany_valuer", "$." + column_alias + "." + aggregate_value_key)
             self.compile_select_calculate_column(expression, config, arguments, primary_table, column_alias,
                                                  join_tables, False)
             aggregate_column = {
-- 
2.43.0


From d7ad955ea90ac359b4a28644adc4de5d54a2728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:22 +0000
Subject: [PATCH 76/94] fix: GROUP BY and window keys name output columns
 wherever they stand in the select list

---
 syncanysql/compiler.py | 50 +++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index d7217a9..6487ebd 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -510,7 +510,7 @@ class Compiler(object):
     def compile_select(self, expression, config, arguments):
         primary_table = {"db": None, "name": None, "table_name": None, "table_alias": None, "seted_primary_keys": False,
                          "loader_primary_keys": [], "outputer_primary_keys": [], "columns": {}, "subquery": None, "select_columns": {},
-                         "column_aliases": {}}
+                         "column_aliases": {}, "aggregate_columns": set([])}
 
         from_expression = expression.args.get("from")
         if not from_expression:
@@ -563,6 +563,7 @@ class Compiler(object):
         if not select_expressions:
             raise SyncanySqlCompileException('unknown select columns, related sql "%s"' % self.to_sql(expression))
         config["schema"] = {}
+        aggregate_columns = []
         for select_expression in select_expressions:
             if isinstance(select_expression, sqlglot_expressions.Star):
                 if not self.compile_select_star_column(select_expression, config, arguments, primary_table, join_tables):
@@ -616,30 +617,33 @@ class Compiler(object):
                 self.compile_select_column(column_expression, config, arguments, primary_table, column_alias,
                                            self.parse_column(column_expression, config, arguments), join_tables)
                 continue
+            window_aggregate_expressions, aggregate_expressions = [], []
             if window_aggregate_expression:
-                self.compile_window_column(window_aggregate_expression, config, arguments, primary_table, column_alias,
-                                           [window_aggregate_expression], join_tables, windows)
-                continue
-            if aggregate_expression:
-                self.compile_aggregate_column(aggregate_expression, config, arguments, primary_table, column_alias,
-                                              group_expression, [aggregate_expression], join_tables)
+                window_aggregate_expressions.append(window_aggregate_expression)
+            elif aggregate_expression:
+                aggregate_expressions.append(aggregate_expression)
+            else:
+                self.parse_window_aggregate(calculate_expression, config, arguments, window_aggregate_expressions)
+                if not window_aggregate_expressions:
+                    self.parse_aggregate(calculate_expression, config, arguments, aggregate_expressions)
+            if window_aggregate_expressions or aggregate_expressions:
+                # the keys of a group or window can name any other column, so they are compiled when all of them are known
+                config["schema"][column_alias] = None
+                aggregate_columns.append((window_aggregate_expression or aggregate_expression or calculate_expression,
+                                          column_alias, window_aggregate_expressions, aggregate_expressions))
                 continue
-
-            window_aggregate_expressions = []
-            self.parse_window_aggregate(calculate_expression, config, arguments, window_aggregate_expressions)
+            self.compile_select_calculate_column(calculate_expression, config, arguments, primary_table, column_alias,
+                                                 join_tables)
+        if aggregate_columns and not isinstance(config["schema"], dict):
+            raise SyncanySqlCompileException('unknown select * columns, related sql "%s"' % self.to_sql(expression))
+        primary_table["aggregate_columns"] = {column_alias for _, column_alias, _, _ in aggregate_columns}
+        for column_expression, column_alias, window_aggregate_expressions, aggregate_expressions in aggregate_columns:
             if window_aggregate_expressions:
-                self.compile_window_column(calculate_expression, config, arguments, primary_table, column_alias,
+                self.compile_window_column(column_expression, config, arguments, primary_table, column_alias,
                                            window_aggregate_expressions, join_tables, windows)
-                continue
-
-            aggregate_expressions = []
-            self.parse_aggregate(calculate_expression, config, arguments, aggregate_expressions)
-            if aggregate_expressions:
-                self.compile_aggregate_column(calculate_expression, config, arguments, primary_table, column_alias,
+            else:
+                self.compile_aggregate_column(column_expression, config, arguments, primary_table, column_alias,
                                               group_expression, aggregate_expressions, join_tables)
-                continue
-            self.compile_select_calculate_column(calculate_expression, config, arguments, primary_table, column_alias,
-                                                 join_tables)
 
         where_expression = expression.args.get("where")
         if where_expression and isinstance(where_expression, sqlglot_expressions.Where):
@@ -1403,7 +1407,8 @@ class Compiler(object):
             if self.is_column(group_expression, config, arguments):
                 group_expression_column = self.parse_column(group_expression, config, arguments)
                 if isinstance(config["schema"], dict) and not group_expression_column["table_name"] \
-                        and group_expression_column["column_name"] in config["schema"]:
+                        and group_expression_column["column_name"] in config["schema"] \
+                        and group_expression_column["column_name"] not in primary_table["aggregate_columns"]:
                     group_column.append(config["schema"][group_expression_column["column_name"]])
                     continue
                 if not group_expression_column["table_name"] or group_expression_column["table_name"] == primary_table["table_name"]:
@@ -1602,7 +1607,8 @@ class Compiler(object):
             if self.is_column(expression, config, arguments):
                 key_expression_column = self.parse_column(expression, config, arguments)
                 if isinstance(config["schema"], dict) and not key_expression_column["table_name"] \
-                        and key_expression_column["column_name"] in config["schema"]:
+                        and key_expression_column["column_name"] in config["schema"] \
+                        and key_expression_column["column_name"] not in primary_table["aggregate_columns"]:
                     key_column.append(config["schema"][key_expression_column["column_name"]])
                     continue
                 if not key_expression_column["table_name"] or key_expression_column["table_name"] == primary_table["table_name"]:
-- 
2.43.0


From cbf7a10665fa12f89398f031e673c4ba39b5fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:24 +0000
Subject: [PATCH 77/94] fix: a column before * is rejected instead of being
 dropped

---
 syncanysql/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 6487ebd..b001509 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -567,6 +567,8 @@ class Compiler(object):
         for select_expression in select_expressions:
             if isinstance(select_expression, sqlglot_expressions.Star):
                 if not self.compile_select_star_column(select_expression, config, arguments, primary_table, join_tables):
+                    if config["schema"]:
+                        raise SyncanySqlCompileException('unknown select * columns, related sql "%s"' % self.to_sql(expression))
                     config["schema"] = "$.*"
                 continue
             elif isinstance(select_expression, sqlglot_expressions.Column) \
-- 
2.43.0


From f2e13c558adbed82146b212e2f3426448f439ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:35 +0000
Subject: [PATCH 78/94] fix: window functions ordered by several keys keep the
 direction of each

---
 syncanysql/calculaters/__init__.py          |  1 +
 syncanysql/calculaters/window_calculater.py |  6 ++++++
 syncanysql/compiler.py                      | 10 ++++++++--
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/syncanysql/calculaters/__init__.py b/syncanysql/calculaters/__init__.py
index 0098d8d..d6a2883 100644
--- a/syncanysql/calculaters/__init__.py
+++ b/syncanysql/calculaters/__init__.py
@@ -37,6 +37,7 @@ SQL_CALCULATERS = {
     "group_bit_xor": AggregateGroupBitXorCalculater,
     "json_arrayagg": AggregateJsonArrayaggCalculater,
     "json_objectagg": AggregateJsonObjectaggCalculater,
+    "window_order_key": WindowOrderKeyCalculater,
     "row_number": WindowAggregateRowNumberCalculater,
     "rank": WindowAggregateRankCalculater,
     "dense_rank": WindowAggregateDenseRankCalculater,
diff --git a/syncanysql/calculaters/window_calculater.py b/syncanysql/calculaters/window_calculater.py
index e3ed1f6..6ed13d4 100644
--- a/syncanysql/calculaters/window_calculater.py
+++ b/syncanysql/calculaters/window_calculater.py
@@ -4,9 +4,15 @@
 
 from syncany.calculaters.calculater import Calculater
 from syncany.filters import IntFilter, FloatFilter
+from syncany.utils import CmpValue
 from ..errors import SyncanySqlExecutorException
 
 
+class WindowOrderKeyCalculater(Calculater):
+    def calculate(self, values, descs):
+        return tuple(CmpValue(values[i], descs[i]) for i in range(len(values)))
+
+
 class WindowAggregateCalculater(Calculater):
     def __init__(self, *args, **kwargs):
         super(WindowAggregateCalculater, self).__init__(*args, **kwargs)
diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index b001509..07afa0e 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1547,6 +1547,13 @@ class Compiler(object):
                                                        join_tables) if partition_expression else None
             order_column = self.compile_window_order(order_expression, config, arguments, primary_table,
                                                      join_tables) if order_expression else None
+            if order_column is not None and len(order_column["valuer"]) > 1:
+                # the rows of a partition are sorted by one value, which compares like all keys in their directions
+                order_column = {
+                    "valuer": [["#make", order_column["valuer"], [":@window_order_key", "$.*", ["#const", [
+                        bool(desc) for _, desc in order_column["orders"]]]]]],
+                    "orders": [["order_key", False]]
+                }
             value_column = self.compile_window_value(window_expression.args["this"], config, arguments, primary_table,
                                                      join_tables, value_expressions) if value_expressions else None
             is_window_aggregate_calculate, aggregate_calculate, final_calculate = self.compile_window_calculate(window_expression)
@@ -1571,8 +1578,7 @@ class Compiler(object):
                 window_aggregate_column[1]["partition_key"] = partition_column[0] \
                     if len(partition_column) == 1 else ["#make", partition_column, [":@aggregate_key", "$.*"]]
             if order_column is not None:
-                window_aggregate_column[1]["order_key"] = order_column["valuer"][0] \
-                    if len(order_column["valuer"]) == 1 else ["#make", order_column["valuer"], [":@aggregate_key", "$.*"]]
+                window_aggregate_column[1]["order_key"] = order_column["valuer"][0]
             if value_column is not None:
                 window_aggregate_column[1]["value"] = value_column[0] if len(value_column) == 1 else ["#make", value_column]
 
-- 
2.43.0


From cd6568eee275c0c1e00c80d1c56b499ca8c04e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:18 +0000
Subject: [PATCH 79/94] fix: INTERVAL of a negative number, column or
 expression has its value

---
 syncanysql/compiler.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 07afa0e..43e10fd 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1923,7 +1923,14 @@ class Compiler(object):
                              for tuple_expression in expression.args["expressions"]]
             return ["#make", value_columns]
         elif isinstance(expression, sqlglot_expressions.Interval):
-            return ["#const", {"value": expression.args["this"].args["this"], "unit": expression.args["unit"].args["this"]}]
+            interval_unit = expression.args["unit"].args["this"]
+            if isinstance(expression.args["this"], sqlglot_expressions.Literal):
+                return ["#const", {"value": expression.args["this"].args["this"], "unit": interval_unit}]
+            return ["#make", {
+                "value": self.compile_calculate(expression.args["this"], config, arguments, primary_table,
+                                                column_join_tables, join_index),
+                "unit": ["#const", interval_unit]
+            }]
         elif self.is_const(expression, config, arguments):
             return self.compile_const(expression, config, arguments, self.parse_const(expression, config, arguments))
         elif isinstance(expression, sqlglot_expressions.Not):
@@ -2505,8 +2512,10 @@ class Compiler(object):
         elif isinstance(expression, sqlglot_expressions.Parameter):
             if isinstance(expression, AssignParameter):
                 self.parse_calculate(expression.args["expression"], config, arguments, primary_table, calculate_fields)
+        elif isinstance(expression, sqlglot_expressions.Interval):
+            self.parse_calculate(expression.args["this"], config, arguments, primary_table, calculate_fields)
         elif self.is_subquery(expression, config, arguments) or isinstance(expression, (sqlglot_expressions.Star,
-                                                                                        sqlglot_expressions.Interval, sqlglot_expressions.DataType)):
+                                                                                        sqlglot_expressions.DataType)):
             pass
         elif self.is_const(expression, config, arguments):
             pass
-- 
2.43.0


From 6e0088bfe6ad9e1c78b5a7e26796b46ad74db39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 80/94] fix: aggregates and window functions under a minus
 sign, ~ or INTERVAL are computed

---
 syncanysql/compiler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 43e10fd..50c2f11 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3115,9 +3115,10 @@ class Compiler(object):
             return isinstance(expression, (sqlglot_expressions.EQ, sqlglot_expressions.NEQ, sqlglot_expressions.GT, sqlglot_expressions.GTE,
                                            sqlglot_expressions.LT, sqlglot_expressions.LTE, sqlglot_expressions.In, sqlglot_expressions.Not,
                                            sqlglot_expressions.Is, sqlglot_expressions.Between, sqlglot_expressions.Like, sqlglot_expressions.Func,
-                                           sqlglot_expressions.Binary, sqlglot_expressions.SubqueryPredicate))
+                                           sqlglot_expressions.Binary, sqlglot_expressions.SubqueryPredicate,
+                                           sqlglot_expressions.Neg, sqlglot_expressions.BitwiseNot))
         return isinstance(expression, (sqlglot_expressions.Neg, sqlglot_expressions.Binary, sqlglot_expressions.Select,
-                                       sqlglot_expressions.Subquery, sqlglot_expressions.Union,
+                                       sqlglot_expressions.Subquery, sqlglot_expressions.Union, sqlglot_expressions.Interval,
                                        sqlglot_expressions.BitwiseNot, sqlglot_expressions.Tuple, sqlglot_expressions.Parameter))
 
     def is_aggregate(self, expression, config, arguments):
-- 
2.43.0


From ad2c9d14a6a12d0dfde4a029d7a30d77ed70f20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:03 +0000
Subject: [PATCH 81/94] fix: aggregates outside the select columns or with
 unknown arguments are rejected instead of miscomputed

---
 syncanysql/compiler.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 50c2f11..0d95918 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -1319,6 +1319,7 @@ class Compiler(object):
         aggregate_value_expressions = []
         for i in range(len(aggregate_expressions)):
             aggregate_expression = aggregate_expressions[i]
+            self.check_aggregate(aggregate_expression, config, arguments)
             if isinstance(aggregate_expression, sqlglot_expressions.Anonymous):
                 if aggregate_expression.args.get("expressions") and isinstance(aggregate_expression.args["expressions"][0],
                                                                                sqlglot_expressions.Distinct):
@@ -1400,6 +1401,12 @@ class Compiler(object):
         config["aggregate"]["schema"][column_alias] = aggregate_column
         primary_table["select_columns"][column_alias] = expression
 
+    def check_aggregate(self, expression, config, arguments):
+        for key, child_expression in expression.args.items():
+            if key != "this" and child_expression and not isinstance(expression, (sqlglot_expressions.Anonymous,
+                                                                                  sqlglot_expressions.RowNumber)):
+                raise SyncanySqlCompileException('error aggregate, unknown arguments, related sql "%s"' % self.to_sql(expression))
+
     def compile_aggregate_key(self, expression, config, arguments, primary_table, join_tables):
         if not expression:
             return [["#const", "__k_g__"]]
@@ -1515,6 +1522,7 @@ class Compiler(object):
         for i in range(len(window_expressions)):
             window_expression = window_expressions[i]
             aggregate_expression = window_expression.args["this"]
+            self.check_aggregate(aggregate_expression, config, arguments)
             if isinstance(aggregate_expression, sqlglot_expressions.Anonymous):
                 if aggregate_expression.args.get("expressions") and isinstance(aggregate_expression.args["expressions"][0], sqlglot_expressions.Distinct):
                     raise SyncanySqlCompileException('error window aggregate, only be used for the count function, related sql "%s"' %
@@ -1710,6 +1718,9 @@ class Compiler(object):
         if hasattr(expression, 'syncany_column'):
             return self.compile_join_column_field(expression, config, arguments, primary_table, join_index,
                                                   expression.syncany_column, column_join_tables)
+        if self.is_aggregate(expression, config, arguments):
+            raise SyncanySqlCompileException('error aggregate, it can only be used in select columns, related sql "%s"'
+                                             % self.to_sql(expression))
         if isinstance(expression, sqlglot_expressions.Neg):
             return ["@neg", self.compile_calculate(expression.args["this"], config, arguments, primary_table, 
                                                    column_join_tables, join_index)]
-- 
2.43.0


From 24d44bb6d27da00b0ce0b1fd7c452e4f0e482640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:37 +0000
Subject: [PATCH 82/94] fix: a standard input or output table does not take the
 parameters of a file table of its format

---
 syncanysql/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 0d95918..85e2589 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2803,7 +2803,7 @@ class Compiler(object):
             if "databases" not in config:
                 config["databases"] = []
             for d in config["databases"]:
-                if d.get("driver") == "textline" and d.get("format") == format_type:
+                if {key: value for key, value in d.items() if key != "name"} == {"driver": "textline", "format": format_type}:
                     database = d
                     break
             if not database:
-- 
2.43.0


From 019cfc9a6f0c11627c2747988e89d790e7da8027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:41 +0000
Subject: [PATCH 83/94] fix: parameters of a file table keep the = and & of
 their values

---
 syncanysql/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 85e2589..ad82bf6 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -2817,10 +2817,10 @@ class Compiler(object):
                     url_info = urlparse(table_name)
                     url_path = url_info.netloc + url_info.path + (("#" + url_info.fragment) if url_info.fragment else "")
                     db_driver, db_params, path_info = "textline", {}, os.path.split(unquote_plus(url_path))
-                    for url_param in unquote_plus(url_info.query).split("&"):
-                        url_param = url_param.split("=")
+                    for url_param in url_info.query.split("&"):
+                        url_param = url_param.split("=", 1)
                         if len(url_param) >= 2:
-                            db_params[url_param[0]] = url_param[1]
+                            db_params[unquote_plus(url_param[0])] = unquote_plus(url_param[1])
                 except:
                     db_driver, db_params, path_info = "textline", {}, os.path.split(table_name[7:])
             else:
-- 
2.43.0


From ab15ae28f5a174708c27c77ea7ed6375a9ef587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:36 +0000
Subject: [PATCH 84/94] fix: comments and quoted names of a statement end where
 they are written to end

---
 syncanysql/parser.py | 48 ++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/syncanysql/parser.py b/syncanysql/parser.py
index ce0109d..641293b 100644
--- a/syncanysql/parser.py
+++ b/syncanysql/parser.py
@@ -67,11 +67,36 @@ class SqlParser(object):
             return start_index, self.index + len(cs) - 1, self.sql[start_index: self.index + len(cs) - 1]
         raise EOFError(self.sql[start_index:])
 
+    def skip_comment(self):
+        segment = self.sql[self.index: self.index + 2]
+        if segment[:1] == "#" or segment == "--":
+            try:
+                self.read_util('\n', ())
+            except EOFError:
+                pass
+            self.next()
+            return True
+        if segment == "/*":
+            self.next()
+            self.next()
+            self.read_util("*/", ())
+            self.next()
+            self.next()
+            return True
+        return False
+
     def read_segment(self, c='`'):
         while self.index < self.len:
-            self.read_util(c)
+            if self.sql[self.index] in ('"', "'"):
+                self.skip_escape(self.sql[self.index])
+                continue
+            if self.skip_comment():
+                continue
+            if self.sql[self.index] != c:
+                self.next()
+                continue
             self.next()
-            start_index, end_index, segment = self.read_util(c)
+            start_index, end_index, segment = self.read_util(c, ())
             self.next()
             return start_index, end_index, segment
         raise EOFError()
@@ -87,24 +112,7 @@ class SqlParser(object):
             if self.sql[self.index] in ('`', '"', "'"):
                 self.skip_escape(self.sql[self.index])
                 continue
-            if self.sql[self.index] == "#":
-                try:
-                    self.read_util('\n', ())
-                except EOFError:
-                    pass
-                self.next()
-                continue
-            segment = self.sql[self.index: self.index + 2]
-            if segment == "--":
-                try:
-                    self.read_util('\n', ())
-                except EOFError:
-                    pass
-                self.next()
-                continue
-            if segment == "/*":
-                self.read_util("*/", ())
-                self.next()
+            if self.skip_comment():
                 continue
             if self.sql[self.index] == ';':
                 if start_index is None:
-- 
2.43.0


From 1f4bc65cc80d8f74f54e42815639c430a33fe6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:01 +0000
Subject: [PATCH 85/94] fix: a quoted name with special characters is the same
 name wherever it is written

---
 syncanysql/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index ad82bf6..480fd35 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -3077,7 +3077,9 @@ class Compiler(object):
                 start_index, end_index, segment = parser.read_segment()
                 allow_segment = get_allow_segment(segment)
                 if allow_segment != segment:
-                    allow_segment = allow_segment + "_" + str(uuid.uuid1().int)
+                    # a name written more than once is one name
+                    mapping_names = [name for name, mapping_segment in self.mapping.items() if mapping_segment == segment]
+                    allow_segment = mapping_names[0] if mapping_names else allow_segment + "_" + str(uuid.uuid1().int)
                     self.mapping[allow_segment] = segment
                     segment = allow_segment
                 segments.append(parser.sql[last_end_index: start_index])
-- 
2.43.0


From 8b9911d67f12ac3f61efcd2ca7ee581ccf6d4c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:36 +0000
Subject: [PATCH 86/94] fix: a string SET to a variable keeps its blanks and
 quotes, an expression that begins with a string is not one

---
 syncanysql/compiler.py    | 6 ++++++
 syncanysql/taskers/set.py | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/syncanysql/compiler.py b/syncanysql/compiler.py
index 480fd35..2bb494d 100644
--- a/syncanysql/compiler.py
+++ b/syncanysql/compiler.py
@@ -176,6 +176,12 @@ class Compiler(object):
             if isinstance(set_item_expression, sqlglot_expressions.SetItem) and isinstance(set_item_expression.args["this"], sqlglot_expressions.EQ):
                 value = self.generate_sql(set_item_expression).split("=")
                 config = {"key": value[0].strip(), "value": "=".join(value[1:]).strip()}
+                value_expression = set_item_expression.args["this"].args["expression"]
+                if isinstance(value_expression, sqlglot_expressions.Literal):
+                    if value_expression.is_string:
+                        config["string_value"] = value_expression.args["this"]
+                else:
+                    config["is_expression"] = config["value"][:1] in ('"', "'")
                 return SetCommandTasker(config)
         raise SyncanySqlCompileException('unknown sql "%s"' % self.to_sql(expression))
 
diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 8098645..3c8222b 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -19,7 +19,7 @@ class SetCommandTasker(object):
             self.set_config(session_config, key[8:].strip(), is_global)
         else:
             try:
-                self.set_env_variable(executor, key, self.parse_value(self.config["value"].strip()), is_global)
+                self.set_env_variable(executor, key, self.parse_env_value(self.config["value"].strip()), is_global)
             except ValueError as e:
                 if key[:1] == "@":
                     try:
@@ -43,6 +43,13 @@ class SetCommandTasker(object):
             return
         executor.env_variables[key] = value
 
+    def parse_env_value(self, value):
+        if "string_value" in self.config:
+            return self.config["string_value"]
+        if self.config.get("is_expression"):
+            raise ValueError("unknown value: %s" % value)
+        return self.parse_value(value)
+
     def parse_value(self, value):
         if not isinstance(value, str):
             return value
-- 
2.43.0


From a452b351f051219504913b884e9fb08483d6a2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:39 +0000
Subject: [PATCH 87/94] fix: a negative decimal number is a number in SET and
 in ${name:default}

---
 syncanysql/taskers/set.py | 2 +-
 syncanysql/utils.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/syncanysql/taskers/set.py b/syncanysql/taskers/set.py
index 3c8222b..53407a3 100644
--- a/syncanysql/taskers/set.py
+++ b/syncanysql/taskers/set.py
@@ -66,7 +66,7 @@ class SetCommandTasker(object):
         if value.isdigit() or (value[0] == "-" and value[1:].isdigit()):
             return int(value)
         value_info = value.split(".")
-        if len(value_info) == 2 and (value_info[0].isdigit() or (value[0][0] == "-" and value[0][1:].isdigit())) \
+        if len(value_info) == 2 and (value_info[0].isdigit() or (value_info[0][:1] == "-" and value_info[0][1:].isdigit())) \
                 and value_info[1].isdigit():
             return float(value)
         raise ValueError("unknown value: %s" % value)
diff --git a/syncanysql/utils.py b/syncanysql/utils.py
index 48b4f9e..e769616 100644
--- a/syncanysql/utils.py
+++ b/syncanysql/utils.py
@@ -27,7 +27,7 @@ def parse_value(value):
     if value.lower() == "null":
         return None
     value_info = value.split(".")
-    if len(value_info) == 2 and (value_info[0].isdigit() or (value[0][0] == "-" and value[0][1:].isdigit())) \
+    if len(value_info) == 2 and (value_info[0].isdigit() or (value_info[0][:1] == "-" and value_info[0][1:].isdigit())) \
             and value_info[1].isdigit():
         return float(value)
     return value
-- 
2.43.0


From 8a6faababbbb6284a1ab875bac170d4342465e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:42 +0000
Subject: [PATCH 88/94] fix: SELECT ... INTO reads the result of the last stage
 of an aggregate query

---
 syncanysql/taskers/into.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/syncanysql/taskers/into.py b/syncanysql/taskers/into.py
index 7ee101d..7834b7f 100644
--- a/syncanysql/taskers/into.py
+++ b/syncanysql/taskers/into.py
@@ -7,13 +7,19 @@ class IntoTasker(object):
     def __init__(self, tasker, config):
         self.tasker = tasker
         self.config = config
+        self.output_name = None
+        self.schema_keys = None
 
     def start(self, name, executor, session_config, manager, arguments):
         for variable in self.config["variables"]:
             if variable in executor.env_variables:
                 continue
             executor.env_variables[variable] = None
-        self.tasker.config["output"] = "&.--.__into_" + str(id(self)) + "::" + self.tasker.config["output"].split("::")[-1]
+        # an aggregate query gets its columns and its output only from its last stage
+        schema = self.tasker.config["schema"]
+        self.schema_keys = tuple(schema.keys()) if isinstance(schema, dict) else None
+        self.output_name = "--.__into_" + str(id(self))
+        self.tasker.config["output"] = "&." + self.output_name + "::" + self.tasker.config["output"].split("::")[-1]
         self.tasker.config["name"] = self.tasker.config["name"] + "#into"
         self.tasker.start(name, executor, session_config, manager, arguments)
         return [self]
@@ -24,8 +30,7 @@ class IntoTasker(object):
             if not core_tasker:
                 return 1
             database = core_tasker.outputer.db
-            name = core_tasker.outputer.name
-            schema_keys = tuple(core_tasker.schema.keys()) if isinstance(core_tasker.schema, dict) else None
+            name, schema_keys = self.output_name, self.schema_keys
             self.tasker.run(executor, session_config, manager)
 
             query = database.query(name, ["id"])
-- 
2.43.0


From 5233d31abcac9cf2637ce77055bfa088cd8fd6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:19 +0000
Subject: [PATCH 89/94] fix: a database setting set to a number or a plain text
 is stored, not dropped

---
 syncanysql/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 37c748e..015d2d4 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -95,7 +95,7 @@ class GlobalConfig(object):
                     try:
                         set_database[key[2]] = json.loads(value)
                     except:
-                        pass
+                        set_database[key[2]] = value
         elif key[0] in ("imports", "sources"):
             if key[0] not in self.config:
                 self.config[key[0]] = {}
-- 
2.43.0


From b73fab8a2a02ec35b63c36b682031e1d0323ca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:21 +0000
Subject: [PATCH 90/94] fix: modules can be given to use(), the custom
 configuration of the caller is left as it is

---
 syncanysql/config.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 015d2d4..7e9da54 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -141,7 +141,7 @@ class GlobalConfig(object):
                 self.config["extends"].append(filename)
         self.load_config()
         if custom_config and isinstance(custom_config, dict):
-            self.merge_config(custom_config)
+            self.merge_config(self.copy_config(custom_config))
         pypackage_paths = self.config.get("pypackage_paths")
         if pypackage_paths:
             if isinstance(pypackage_paths, str):
@@ -222,6 +222,14 @@ class GlobalConfig(object):
             except Exception as e:
                 get_logger().warning("import extension %s error %s:%s", extension, e.__class__.__name__, str(e))
 
+    def copy_config(self, config):
+        # functions and modules given to use() are kept as they are
+        if isinstance(config, dict):
+            return {key: self.copy_config(value) for key, value in config.items()}
+        if isinstance(config, list):
+            return [self.copy_config(value) for value in config]
+        return config
+
     def merge_config(self, config):
         for k, v in config.items():
             if k in ("arguments", "imports", "defines", "variables", "sources", "logger", "options"):
@@ -301,8 +309,8 @@ class SessionConfig(GlobalConfig):
         if self.merged_config is None:
             session_config, self.config = self.config, copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
             try:
-                self.merge_config(copy.deepcopy(self.parent_config.get()))
-                self.merge_config(copy.deepcopy(session_config))
+                self.merge_config(self.copy_config(self.parent_config.get()))
+                self.merge_config(self.copy_config(session_config))
             finally:
                 self.merged_config, self.config = self.config, session_config
         return self.merged_config
-- 
2.43.0


From bfd2b2eafd886d6279a6b7c152176d601195709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:24 +0000
Subject: [PATCH 91/94] fix: a setting changed in an engine or globally reaches
 sessions that have read their settings before

---
 syncanysql/config.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/syncanysql/config.py b/syncanysql/config.py
index 7e9da54..967d80a 100644
--- a/syncanysql/config.py
+++ b/syncanysql/config.py
@@ -25,6 +25,7 @@ CONST_CONFIG_KEYS = ("@verbose", "@timeout", "@limit", "@batch", "@streaming", "
 class GlobalConfig(object):
     def __init__(self):
         self.config = copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
+        self.version = 0
 
     def get_home(self):
         if "SYNCANY_HOME" in os.environ:
@@ -34,7 +35,11 @@ class GlobalConfig(object):
     def get(self):
         return self.config
 
+    def get_version(self):
+        return (self.version,)
+
     def set(self, key, value):
+        self.version += 1
         if not isinstance(key, SequenceTypes):
             key = str(key).split(".")
         if not key:
@@ -303,10 +308,16 @@ class SessionConfig(GlobalConfig):
         self.global_config = global_config
         self.parent_config = parent_config
         self.merged_config = None
+        self.merged_version = None
         self.tasker_extend_config = None
 
+    def get_version(self):
+        return self.parent_config.get_version() + (self.version,)
+
     def get(self):
-        if self.merged_config is None:
+        version = self.get_version()
+        if self.merged_config is None or self.merged_version != version:
+            self.merged_version, self.tasker_extend_config = version, None
             session_config, self.config = self.config, copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
             try:
                 self.merge_config(self.copy_config(self.parent_config.get()))
@@ -334,8 +345,8 @@ class SessionConfig(GlobalConfig):
         return copy.deepcopy(CoreTasker.DEFAULT_CONFIG)
 
     def get_tasker_extend_config(self):
+        merged_config = self.get()
         if self.tasker_extend_config is None:
-            merged_config = self.get()
             self.tasker_extend_config = {key: merged_config[key] for key in self.TASKER_EXTEND_KEYS
                                          if key in merged_config}
         return self.tasker_extend_config
-- 
2.43.0


From 899657544435ef10ba98060b757f2c37d78d1094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:28 +0000
Subject: [PATCH 92/94] fix: a script executed while a statement runs leaves
 the statement's executor current

---
 syncanysql/__init__.py | 2 +-
 syncanysql/executor.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index babefe4..0d36d38 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -120,8 +120,8 @@ class ScriptEngine(object):
         if init_execute_files:
             for init_execute_file in init_execute_files:
                 file_parser = FileParser(init_execute_file)
-                self.executor.run("init " + init_execute_file, file_parser.load())
                 with self.executor as executor:
+                    executor.run("init " + init_execute_file, file_parser.load())
                     executor.execute()
 
     def get_variable(self, name, default=None):
diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index f5b9300..f665035 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -207,11 +207,14 @@ class Executor(object):
             database.close()
 
     def __enter__(self):
+        if not hasattr(self._thread_local, "previous_executors"):
+            self._thread_local.previous_executors = []
+        self._thread_local.previous_executors.append(self.current())
         self._thread_local.current_executor = self
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self._thread_local.current_executor = self.parent_executor
+        self._thread_local.current_executor = self._thread_local.previous_executors.pop()
 
     def distribute_tasker_index(self):
         if self.parent_executor is not None:
-- 
2.43.0


From 9b6878159239426481fa31ed6a5eaba0ad5ef821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:31 +0000
Subject: [PATCH 93/94] fix: a script executed by a function of the same
 context has its own statements

---
 syncanysql/__init__.py | 8 +++++---
 syncanysql/executor.py | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/syncanysql/__init__.py b/syncanysql/__init__.py
index 0d36d38..863afab 100644
--- a/syncanysql/__init__.py
+++ b/syncanysql/__init__.py
@@ -5,6 +5,7 @@
 from .version import version, version_info
 
 import threading
+from collections import deque
 from syncany.loaders import Loader, register_loader
 from syncany.outputers import Outputer, register_outputer
 from syncany.valuers import Valuer, register_valuer
@@ -56,12 +57,13 @@ class ExecuterContext(object):
         sqls = sql_parser.split()
         self.__class__._execute_index += 1
         with self.executor as executor:
+            # a function called by a statement of this context may execute a script, which has its own statements
+            runners, executor.runners = executor.runners, deque()
             try:
                 executor.run("execute[%d]" % self._execute_index, sqls)
                 executor.execute()
-            except BaseException:
-                executor.runners.clear()
-                raise
+            finally:
+                executor.runners = runners
 
     def get_database(self, db=None):
         return self.engine.get_database(db)
diff --git a/syncanysql/executor.py b/syncanysql/executor.py
index f665035..aea156d 100644
--- a/syncanysql/executor.py
+++ b/syncanysql/executor.py
@@ -172,12 +172,13 @@ class Executor(object):
 
     def execute(self):
         self._thread_local.current_executor = self
+        current_tasker = self.tasker
         while self.runners:
             self.tasker = self.runners.popleft()
             try:
                 self.tasker.run(self, self.session_config, self.manager)
             finally:
-                self.tasker = None
+                self.tasker = current_tasker
 
     def terminate(self):
         if not self.tasker:
-- 
2.43.0


From 890c6ec0c67bf7bb83c4bb9453d92c64cd865301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:15 +0000
Subject: [PATCH 94/94] fix: SELECT INTO removes its intermediate result when
 the query fails

---
 syncanysql/taskers/into.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/syncanysql/taskers/into.py b/syncanysql/taskers/into.py
index 7834b7f..03a4902 100644
--- a/syncanysql/taskers/into.py
+++ b/syncanysql/taskers/into.py
@@ -31,12 +31,14 @@ class IntoTasker(object):
                 return 1
             database = core_tasker.outputer.db
             name, schema_keys = self.output_name, self.schema_keys
-            self.tasker.run(executor, session_config, manager)
+            try:
+                self.tasker.run(executor, session_config, manager)
 
-            query = database.query(name, ["id"])
-            datas = query.commit()
-            delete = database.delete(name, ["id"])
-            delete.commit()
+                query = database.query(name, ["id"])
+                datas = query.commit()
+            finally:
+                delete = database.delete(name, ["id"])
+                delete.commit()
 
             if not schema_keys:
                 value = datas[0] if len(datas) == 1 else datas
-- 
2.43.0

