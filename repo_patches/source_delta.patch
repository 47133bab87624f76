From 975738cd7045f2ce3b2ac38f8f05e276c26fc924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:47 +0000
Subject: [PATCH 01/14] fix: rendering a table must not rewrite its joins

Table.__str__ replaced self._joins (and the type of the first merged join)
while rendering, so two threads rendering one query could lose joins and a
query printed half way was built differently from one that was not.
---
 sqlpuzzle/_queryparts/tables.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 7637d5a..445cefb 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -78,13 +78,12 @@ class Table(QueryPart):
             table = force_text(SqlReference(self.table_name))
 
         if self._joins:
-            self._minimize_joins()
             table += ' ' + ' '.join(
                 '{} {}{}'.format(
                     JOIN_TYPES[join['type']],
                     join['table'],
                     ' ON {}'.format(join['ons']) if join['ons'].is_set else '',
-                ) for join in self._joins
+                ) for join in self._minimize_joins()
             )
 
         return table
@@ -144,6 +143,7 @@ class Table(QueryPart):
         """
         Minimizing of joins.
         Left/right and inner join of the same condition is only inner join.
+        Returns new list, table itself is not changed by rendering of it.
         """
         joins_group = []
         for join in self._joins:
@@ -156,15 +156,15 @@ class Table(QueryPart):
             if append_new:
                 joins_group.append([join])
 
-        self._joins = []
+        minimized_joins = []
         for joins in joins_group:
             if len(joins) > 1 and any(bool(join['type'] == INNER_JOIN) for join in joins):
-                joins[0]['type'] = INNER_JOIN
-                self._joins.append(joins[0])
+                minimized_joins.append(dict(joins[0], type=INNER_JOIN))
             elif len(joins) > 1 and all(join['type'] == joins[0]['type'] for join in joins):
-                self._joins.append(joins[0])
+                minimized_joins.append(joins[0])
             else:
-                self._joins.extend(joins)
+                minimized_joins.extend(joins)
+        return minimized_joins
 
 
 class Tables(QueryParts):
-- 
2.43.0


From b018ffeba54b4c517da98c50d734044517b1ae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:02 +0000
Subject: [PATCH 02/14] fix: join must not empty the dictionary passed to it

The caller's {table: alias} was consumed with popitem, so using the same
dictionary for a second join (or by a second thread) failed.
---
 sqlpuzzle/_queryparts/tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 445cefb..740d006 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -122,7 +122,7 @@ class Table(QueryPart):
         if isinstance(arg, (list, tuple)) and len(arg) == 2:
             table = Table(*arg)
         elif isinstance(arg, dict) and len(arg) == 1:
-            table = Table(*arg.popitem())
+            table = Table(*next(iter(arg.items())))
         elif isinstance(arg, str):
             table = Table(arg)
         else:
-- 
2.43.0


From 6437f46e2c8983062ad9de141d79d818683392f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:05 +0000
Subject: [PATCH 03/14] fix: functions must keep their own copy of a list of
 columns

A later change of the list passed to e.g. sqlpuzzle.sum showed in queries
which were already built.
---
 sqlpuzzle/_queryparts/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index aeb6591..f56bcfc 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -41,7 +41,8 @@ class Function(Object):
 
     @expr.setter
     def expr(self, expr):
-        self._expr = expr
+        #  Make own copy, it is still caller's list.
+        self._expr = list(expr) if isinstance(expr, list) else expr
 
 
 class FunctionWithDistinct(Function):
-- 
2.43.0


From cf8d8d4596416b02a2e5408bf247ed357f954d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:07 +0000
Subject: [PATCH 04/14] fix: IN must not swallow a TypeError raised by the
 values

A generator failing with TypeError was kept half consumed and the rest of its
items was rendered as if it was complete.
---
 sqlpuzzle/relations.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sqlpuzzle/relations.py b/sqlpuzzle/relations.py
index 0731a12..a38861f 100644
--- a/sqlpuzzle/relations.py
+++ b/sqlpuzzle/relations.py
@@ -180,11 +180,13 @@ class IN(_RelationValue):
         else:
             value = []
         try:
-            #  Make list copy of value (if it is possible) because generators
-            #+ give value only once.
-            value = list(value)
+            iterator = iter(value)
         except TypeError:
             pass
+        else:
+            #  Make list copy of value (if it is possible) because generators
+            #+ give value only once.
+            value = list(iterator)
         super().__init__(value)
 
     def _format_condition(self, column, value_transformer=lambda value: value):
-- 
2.43.0


From 6da59471e7900a400e3fccbe40252666f3ecf7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:26 +0000
Subject: [PATCH 05/14] fix: values must keep their own copy of collections

sqlpuzzle.V(generator) was exhausted by the first rendering and rendered as an
empty list from then on; lists (also those nested in a membership list) were
shared with the caller, whose later changes showed in the query.
---
 sqlpuzzle/_common/__init__.py |  2 +-
 sqlpuzzle/_common/sqlvalue.py |  4 ++--
 sqlpuzzle/_common/utils.py    | 19 ++++++++++++++++++-
 sqlpuzzle/relations.py        |  4 ++--
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/sqlpuzzle/_common/__init__.py b/sqlpuzzle/_common/__init__.py
index c23346c..f0edcc1 100644
--- a/sqlpuzzle/_common/__init__.py
+++ b/sqlpuzzle/_common/__init__.py
@@ -2,4 +2,4 @@ from .argsparser import parse_args
 from .customsql import CustomSql
 from .object import Object
 from .sqlvalue import SqlValue, SqlReference
-from .utils import force_text, is_sql_instance, check_type_decorator
+from .utils import force_text, is_sql_instance, own_value, check_type_decorator
diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 9332a8b..994e655 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -5,7 +5,7 @@ import types
 from sqlpuzzle.exceptions import InvalidArgumentException
 from sqlpuzzle._backends import get_backend
 from .object import Object
-from .utils import force_text, is_sql_instance
+from .utils import force_text, is_sql_instance, own_value
 
 __all__ = ('SqlValue', 'SqlReference')
 
@@ -59,7 +59,7 @@ class SqlValue(Object):
             Union: self._subselect,
         }
 
-        self.value = value
+        self.value = own_value(value)
 
     def __str__(self):
         convert_method = self._get_convert_method()
diff --git a/sqlpuzzle/_common/utils.py b/sqlpuzzle/_common/utils.py
index 9a8275c..dc39be3 100644
--- a/sqlpuzzle/_common/utils.py
+++ b/sqlpuzzle/_common/utils.py
@@ -1,8 +1,9 @@
 from functools import wraps
+import types
 
 from sqlpuzzle.exceptions import InvalidArgumentException
 
-__all__ = ('force_text', 'is_sql_instance', 'check_type_decorator')
+__all__ = ('force_text', 'is_sql_instance', 'own_value', 'check_type_decorator')
 
 
 def force_text(value):
@@ -15,6 +16,22 @@ def is_sql_instance(value):
     return hasattr(value, 'tosql')
 
 
+def own_value(value):
+    """
+    Copy of collections (nested too), because original can be changed later by
+    its owner and because generators give values only once.
+    """
+    if is_sql_instance(value):
+        return value
+    if isinstance(value, (list, types.GeneratorType)):
+        return [own_value(item) for item in value]
+    if isinstance(value, tuple):
+        return tuple(own_value(item) for item in value)
+    if isinstance(value, set):
+        return set(value)
+    return value
+
+
 def check_type_decorator(allowed_types=()):
     def decorator(func):
         @wraps(func)
diff --git a/sqlpuzzle/relations.py b/sqlpuzzle/relations.py
index a38861f..9d9128d 100644
--- a/sqlpuzzle/relations.py
+++ b/sqlpuzzle/relations.py
@@ -14,7 +14,7 @@ import decimal
 import types
 
 from sqlpuzzle._common.object import Object
-from sqlpuzzle._common.utils import force_text, is_sql_instance
+from sqlpuzzle._common.utils import force_text, is_sql_instance, own_value
 
 from sqlpuzzle.exceptions import InvalidArgumentException
 
@@ -186,7 +186,7 @@ class IN(_RelationValue):
         else:
             #  Make list copy of value (if it is possible) because generators
             #+ give value only once.
-            value = list(iterator)
+            value = [own_value(item) for item in iterator]
         super().__init__(value)
 
     def _format_condition(self, column, value_transformer=lambda value: value):
-- 
2.43.0


From effcea3ba755011fd9ccf2b8918e400c2a27c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:28 +0000
Subject: [PATCH 06/14] fix: the same set of values must always give the same
 SQL

Items of a set were rendered in its iteration order, which differs from
process to process with the hash seed.
---
 sqlpuzzle/_common/sqlvalue.py | 5 ++++-
 sqlpuzzle/relations.py        | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 994e655..9ef44dc 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -107,7 +107,10 @@ class SqlValue(Object):
 
     def _list(self):
         if self.value:
-            return '({})'.format(', '.join(force_text(SqlValue(item)) for item in self.value))
+            items = [force_text(SqlValue(item)) for item in self.value]
+            if isinstance(self.value, (set, frozenset)):
+                items.sort()  # Order of set is different in every process.
+            return '({})'.format(', '.join(items))
         raise InvalidArgumentException('Empty list is not allowed.')
 
     def _subselect(self):
diff --git a/sqlpuzzle/relations.py b/sqlpuzzle/relations.py
index 9d9128d..1710d54 100644
--- a/sqlpuzzle/relations.py
+++ b/sqlpuzzle/relations.py
@@ -180,7 +180,8 @@ class IN(_RelationValue):
         else:
             value = []
         try:
-            iterator = iter(value)
+            #  Order of set is different in every process.
+            iterator = iter(sorted(value, key=repr) if isinstance(value, (set, frozenset)) else value)
         except TypeError:
             pass
         else:
-- 
2.43.0


From aa11557b544b776e04a06c776229da113198637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:54 +0000
Subject: [PATCH 07/14] fix: refused columns, tables, conditions or values must
 not be half applied

When a later item of the same call was refused, the items before it stayed in
the query.
---
 sqlpuzzle/_queryparts/columns.py    | 8 ++++----
 sqlpuzzle/_queryparts/conditions.py | 9 +++++----
 sqlpuzzle/_queryparts/queryparts.py | 9 +++++++++
 sqlpuzzle/_queryparts/tables.py     | 6 ++++--
 sqlpuzzle/_queryparts/values.py     | 6 ++++--
 5 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/sqlpuzzle/_queryparts/columns.py b/sqlpuzzle/_queryparts/columns.py
index 1def7d5..2d799a6 100644
--- a/sqlpuzzle/_queryparts/columns.py
+++ b/sqlpuzzle/_queryparts/columns.py
@@ -52,9 +52,9 @@ class Columns(QueryParts):
             'max_items': 2,
             'allow_dict': True,
         }
-        for column_name, alias in parse_args(options, *args, **kwds):
-            column = Column(column_name, alias)
-            if column not in self:
-                self.append_part(column)
+        self.append_unique_parts(
+            Column(column_name, alias)
+            for column_name, alias in parse_args(options, *args, **kwds)
+        )
 
         return self
diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 8a7a494..8c883f0 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -107,11 +107,12 @@ class Conditions(BinaryOperationMixin, QueryParts):
             'allow_list': True,
         }
         if args and all(isinstance(item, (Conditions, ConditionsOfConditions)) for item in args):
-            for item in args:
-                self.append_unique_part(item)
+            self.append_unique_parts(args)
         else:
-            for column_name, value in parse_args(options, *args, **kwds):
-                self.append_unique_part(self._condition_class(column_name, value))
+            self.append_unique_parts(
+                self._condition_class(column_name, value)
+                for column_name, value in parse_args(options, *args, **kwds)
+            )
 
         return self
 
diff --git a/sqlpuzzle/_queryparts/queryparts.py b/sqlpuzzle/_queryparts/queryparts.py
index 76f2ef8..d065cbd 100644
--- a/sqlpuzzle/_queryparts/queryparts.py
+++ b/sqlpuzzle/_queryparts/queryparts.py
@@ -76,6 +76,15 @@ class QueryParts(Object):
         if query_part not in self:
             self.append_part(query_part)
 
+    def append_unique_parts(self, query_parts):
+        """All or nothing, when some part can't be created, nothing is appended."""
+        new_parts = []
+        for query_part in query_parts:
+            if query_part not in self and not any(part == query_part for part in new_parts):
+                new_parts.append(query_part)
+        for query_part in new_parts:
+            self.append_part(query_part)
+
     def append_part(self, query_part):
         self._parts.append(query_part)
 
diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 740d006..f3d6159 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -175,8 +175,10 @@ class Tables(QueryParts):
             'max_items': 2,
             'allow_dict': True,
         }
-        for table_name, as_ in parse_args(options, *args, **kwds):
-            self.append_unique_part(Table(table_name, as_))
+        self.append_unique_parts(
+            Table(table_name, as_)
+            for table_name, as_ in parse_args(options, *args, **kwds)
+        )
 
         return self
 
diff --git a/sqlpuzzle/_queryparts/values.py b/sqlpuzzle/_queryparts/values.py
index c3bb2e0..7543790 100644
--- a/sqlpuzzle/_queryparts/values.py
+++ b/sqlpuzzle/_queryparts/values.py
@@ -52,8 +52,10 @@ class Values(QueryParts):
             'allow_dict': True,
             'allow_list': True,
         }
-        for column_name, value in parse_args(options, *args, **kwds):
-            self.append_unique_part(Value(column_name, value))
+        self.append_unique_parts(
+            Value(column_name, value)
+            for column_name, value in parse_args(options, *args, **kwds)
+        )
 
         return self
 
-- 
2.43.0


From e0a9c692c214ddc3f3d3d46d1fdd35ae635742a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:57 +0000
Subject: [PATCH 08/14] fix: a refused order must not be half applied

When a later column of the same order_by or group_by call was refused, the
columns before it stayed in the query, or changed their direction there.
---
 sqlpuzzle/_queryparts/order.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/sqlpuzzle/_queryparts/order.py b/sqlpuzzle/_queryparts/order.py
index afac74f..5a80fa6 100644
--- a/sqlpuzzle/_queryparts/order.py
+++ b/sqlpuzzle/_queryparts/order.py
@@ -60,18 +60,15 @@ class Orders(QueryParts):
             'max_items': 2,
             'allow_dict': True,
         }
+        orders = list(self._parts)
         for column_name, sort in parse_args(options, *args, **kwds):
-            order = self._find_order_by_column_name(column_name)
-            if order is None:
-                order = Order(column_name, sort)
-                self.append_part(order)
+            new_order = Order(column_name, sort)
+            for index, order in enumerate(orders):
+                if order.column_name == column_name:
+                    orders[index] = new_order
+                    break
             else:
-                order.sort = sort
+                orders.append(new_order)
+        self._parts[:] = orders
 
         return self
-
-    def _find_order_by_column_name(self, column_name):
-        for order in self._parts:
-            if order.column_name == column_name:
-                return order
-        return None
-- 
2.43.0


From 5efb085608aa20dc5e84008a5b1024413a78a8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:59 +0000
Subject: [PATCH 09/14] fix: a refused offset must not leave the limit changed

---
 sqlpuzzle/_queryparts/limit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/limit.py b/sqlpuzzle/_queryparts/limit.py
index 04e43d9..4ad66f5 100644
--- a/sqlpuzzle/_queryparts/limit.py
+++ b/sqlpuzzle/_queryparts/limit.py
@@ -37,9 +37,10 @@ class Limit(QueryPart):
             self._limit = None
             self._offset = None
         else:
-            self._limit = int(limit)
+            limit = int(limit)
             if offset is not None:
                 self.offset(offset)
+            self._limit = limit
         return self
 
     @check_type_decorator((type(None), int))
-- 
2.43.0


From cfdac8b68c7355846487eb49d18024e343a21fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:02 +0000
Subject: [PATCH 10/14] fix: refused values must not leave the conflict column
 changed

---
 sqlpuzzle/_queryparts/onconflictdoupdate.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sqlpuzzle/_queryparts/onconflictdoupdate.py b/sqlpuzzle/_queryparts/onconflictdoupdate.py
index 9e19617..02b0901 100644
--- a/sqlpuzzle/_queryparts/onconflictdoupdate.py
+++ b/sqlpuzzle/_queryparts/onconflictdoupdate.py
@@ -15,11 +15,14 @@ class OnConflictDoUpdate(Values):
         return 'ON CONFLICT ({}) DO UPDATE'.format(self._on_conflict)
 
     def set(self, *args, **kwds):
-        if args and isinstance(args[0], str):
-            self._on_conflict = SqlReference(args[0])
-            args = args[1:]
-        else:
+        if not args or not isinstance(args[0], str):
             raise InvalidQueryException(
                 'ON CONFLICT (column_name) DO UPDATE needs reference to column as first argument'
             )
-        super().set(*args, **kwds)
+        previous = self._on_conflict
+        self._on_conflict = SqlReference(args[0])
+        try:
+            super().set(*args[1:], **kwds)
+        except BaseException:
+            self._on_conflict = previous
+            raise
-- 
2.43.0


From ac93e2fad9ff1531efe7199555763f2f939e6d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:37 +0000
Subject: [PATCH 11/14] fix: an empty condition must not count as a condition

delete_from('t').where(Q()) got over the confirmation of deleting all rows and
rendered DELETE FROM "t" WHERE with nothing behind it.
---
 sqlpuzzle/_queryparts/conditions.py | 5 +++++
 sqlpuzzle/_queryparts/queryparts.py | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 8c883f0..971dfc1 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -98,6 +98,11 @@ class Conditions(BinaryOperationMixin, QueryParts):
         super().__init__()
         self.where(*args, **kwds)
 
+    @property
+    def is_set(self):
+        #  Empty conditions, like ``Q()``, are no conditions.
+        return any(getattr(part, 'is_set', True) for part in self._parts)
+
     @append_custom_sql_decorator
     def where(self, *args, **kwds):
         options = {
diff --git a/sqlpuzzle/_queryparts/queryparts.py b/sqlpuzzle/_queryparts/queryparts.py
index d065cbd..bdd11c5 100644
--- a/sqlpuzzle/_queryparts/queryparts.py
+++ b/sqlpuzzle/_queryparts/queryparts.py
@@ -100,4 +100,4 @@ class ListOfQueryParts(Object, list):
         super().append(query_part)
 
     def __str__(self):
-        return self._separator.join(force_text(f) for f in self)
+        return self._separator.join(force_text(f) for f in self if getattr(f, 'is_set', True))
-- 
2.43.0


From 990302f7eaaf23495e1b8ed576d4a7e200983c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:56 +0000
Subject: [PATCH 12/14] fix: an interrupted upsert call must not lose the
 conflict column

---
 sqlpuzzle/_queryparts/onconflictdoupdate.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sqlpuzzle/_queryparts/onconflictdoupdate.py b/sqlpuzzle/_queryparts/onconflictdoupdate.py
index 02b0901..1952357 100644
--- a/sqlpuzzle/_queryparts/onconflictdoupdate.py
+++ b/sqlpuzzle/_queryparts/onconflictdoupdate.py
@@ -19,10 +19,8 @@ class OnConflictDoUpdate(Values):
             raise InvalidQueryException(
                 'ON CONFLICT (column_name) DO UPDATE needs reference to column as first argument'
             )
-        previous = self._on_conflict
+        values = Values()
+        values._parts.extend(self._parts)
+        values.set(*args[1:], **kwds)
         self._on_conflict = SqlReference(args[0])
-        try:
-            super().set(*args[1:], **kwds)
-        except BaseException:
-            self._on_conflict = previous
-            raise
+        self._parts = values._parts
-- 
2.43.0


From e8861193c2d0b8b4c2e04a8d0673a9682f7e05d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:09 +0000
Subject: [PATCH 13/14] fix: order of IN must not depend on hash seed,
 addresses or insertion order

Nested sets, sets of custom SQL objects, dictionaries and their views were
still rendered in the order of iteration.
---
 sqlpuzzle/relations.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/relations.py b/sqlpuzzle/relations.py
index 1710d54..d144284 100644
--- a/sqlpuzzle/relations.py
+++ b/sqlpuzzle/relations.py
@@ -9,6 +9,7 @@ Use relations in conditions. For example:
 
 # pylint: disable=invalid-name
 
+from collections.abc import Mapping, Set
 import datetime
 import decimal
 import types
@@ -19,6 +20,17 @@ from sqlpuzzle._common.utils import force_text, is_sql_instance, own_value
 from sqlpuzzle.exceptions import InvalidArgumentException
 
 
+def _sort_key(value):
+    """Order of sets is different in every process and so is address of objects."""
+    if is_sql_instance(value):
+        return force_text(value)
+    if isinstance(value, tuple):
+        return repr([_sort_key(item) for item in value])
+    if isinstance(value, frozenset):
+        return repr(sorted(_sort_key(item) for item in value))
+    return repr(value)
+
+
 class _RelationValue(Object):
     _string_representation = 'Abstract Relation'
     _allowed_types = ()
@@ -179,9 +191,10 @@ class IN(_RelationValue):
             value = args[0]
         else:
             value = []
+        if isinstance(value, (Set, Mapping)):
+            value = sorted(value, key=_sort_key)
         try:
-            #  Order of set is different in every process.
-            iterator = iter(sorted(value, key=repr) if isinstance(value, (set, frozenset)) else value)
+            iterator = iter(value)
         except TypeError:
             pass
         else:
-- 
2.43.0


From 86b3fcf390481f71d632f29edc42956c86c7d486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:30 +0000
Subject: [PATCH 14/14] fix: order of equal columns of insert must not depend
 on hash seed

---
 sqlpuzzle/_queryparts/values.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queryparts/values.py b/sqlpuzzle/_queryparts/values.py
index 7543790..36eaeb1 100644
--- a/sqlpuzzle/_queryparts/values.py
+++ b/sqlpuzzle/_queryparts/values.py
@@ -80,10 +80,11 @@ class MultipleValues(QueryParts):
     @property
     def all_columns(self):
         """Return list of all columns."""
-        columns = set()
+        #  Not set, its order of equal columns is different in every process.
+        columns = {}
         for values in self._parts:
             for value in values._parts:
-                columns.add(value.column_name)
+                columns[value.column_name] = True
         return sorted(columns)
 
     def columns(self):
-- 
2.43.0

