From 9367f1df376b5ce94f8f4aff2ebacb8fb678c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:00 +0000
Subject: [PATCH 01/62] fix: hand the values of ENUM/SET columns over to the
 column definition

The parser stores them as _enum_values; as_definition() looked for enum_values, so
every ENUM/SET column lost its values, crashed the schema check when it had a
default and was rendered as ENUM(['a', 'b']).
---
 mygrations/formats/mysql/file_reader/parsers/type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/type.py b/mygrations/formats/mysql/file_reader/parsers/type.py
index c66554b..c028ba1 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type.py
@@ -110,7 +110,7 @@ class Type:
             character_set=getattr(self, "_character_set", None),
             collate=getattr(self, "_collate", None),
             auto_increment=getattr(self, "_auto_increment", None),
-            enum_values=getattr(self, "enum_values", None),
+            enum_values=getattr(self, "_enum_values", None),
             parsing_errors=getattr(self, "_parsing_errors", None),
             parsing_warnings=getattr(self, "_parsing_warnings", None),
         )
-- 
2.43.0


From ad87f9d96e94dbbcedf13d0479d5b6eb8c51cfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:00 +0000
Subject: [PATCH 02/62] fix: do not crash on BIT columns without an integer
 default

int(None) raised a TypeError while collecting schema errors.
---
 mygrations/core/definitions/columns/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index a59ddfa..1f79855 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -86,7 +86,7 @@ class Numeric(Column):
                 self._schema_errors.append(
                     f"Column '{self.name}' of type '{self.column_type}' must have an integer value as a default"
                 )
-            if self.column_type == "BIT" and int(self.default) != 0 and int(self.default) != 1:
+            if self.column_type == "BIT" and default_type == "int" and int(self.default) != 0 and int(self.default) != 1:
                 self._schema_errors.append(f"Column '{self.name}' of type 'BIT' must have a default of 1 or 0")
 
         if self.length:
-- 
2.43.0


From 4cfcff9282b947c261eafd0b5b33b94663192af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:24 +0000
Subject: [PATCH 03/62] fix: plan a change when only AUTO_INCREMENT differs

is_really_the_same_as() ignored the attribute, so adding or removing AUTO_INCREMENT
on an existing column was never planned.
---
 mygrations/core/definitions/columns/column.py  | 2 ++
 mygrations/core/definitions/columns/numeric.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index 95a6c4e..290b79a 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -245,6 +245,8 @@ class Column(Base):
         for attr in ["name", "length", "null", "column_type"]:
             if getattr(self, attr) != getattr(column, attr):
                 return False
+        if bool(self.auto_increment) != bool(column.auto_increment):
+            return False
 
         # unsigned needs a looser comparison: None (not applicable) and False (not unsigned)
         # are functionally equivalent.  Different parsers may produce different falsy values
diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index 1f79855..5675683 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -129,6 +129,8 @@ class Numeric(Column):
                     return False
             if bool(self.unsigned) != bool(column.unsigned):
                 return False
+            if bool(self.auto_increment) != bool(column.auto_increment):
+                return False
             if self._default_none_mismatch(column):
                 return False
             if not self._is_really_the_same_default(column):
-- 
2.43.0


From b3d60e2f00c75e8145962da2dedfe1266a949717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:24 +0000
Subject: [PATCH 04/62] fix: compare the values of ENUM/SET columns

Two ENUM columns built through the API (without a length) that only differ in their
values were taken for the same column.
---
 mygrations/core/definitions/columns/column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index 290b79a..c2a958f 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -242,7 +242,7 @@ class Column(Base):
         :returns: True if the column really is the same, even for apparent differences
         """
         # if any of these attributes change then it really isn't the same
-        for attr in ["name", "length", "null", "column_type"]:
+        for attr in ["name", "length", "null", "column_type", "enum_values"]:
             if getattr(self, attr) != getattr(column, attr):
                 return False
         if bool(self.auto_increment) != bool(column.auto_increment):
-- 
2.43.0


From ed7bf6447f196de5b438359eff2a07a1af591e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 05/62] fix: change a primary key with DROP PRIMARY KEY

Changing the columns of a primary key while its first column stays the same produced
DROP KEY `id`, ADD PRIMARY KEY (...), which names a key that does not exist.
---
 mygrations/formats/mysql/definitions/table.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index a542fbc..bc94cd0 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -125,6 +125,11 @@ class Table(BaseTable):
             idx_b = comparison_table.indexes[overlap_key]
             if idx_a.columns == idx_b.columns and idx_a.index_type == idx_b.index_type:
                 continue
+            if idx_a.is_primary():
+                # a primary key has no name to drop it by
+                primary_alter.add_operation(RemoveKey(idx_a))
+                primary_alter.add_operation(AddKey(idx_b))
+                continue
             primary_alter.add_operation(ChangeKey(comparison_table.indexes[overlap_key]))
 
         # removed foreign key constraints get their own alter because that should always happen first
-- 
2.43.0


From a3cb784d0eaa9a5b1c6062fb7bee49c9d9008263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 06/62] fix: do not cycle foreign keys of columns that are not
 going to change

Integer display widths (INT(10) against MySQL 8's int) and character sets or collations
spelled out on one side only made every plan drop and re-add the foreign keys of such
columns, although no CHANGE was planned for them.
---
 .../formats/mysql/mygrations/mygration.py       | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/mygrations/mygration.py b/mygrations/formats/mysql/mygrations/mygration.py
index 7cc1bfe..3e3ef0c 100644
--- a/mygrations/formats/mysql/mygrations/mygration.py
+++ b/mygrations/formats/mysql/mygrations/mygration.py
@@ -207,7 +207,9 @@ class Mygration:
                     continue
                 source_col = source_table.columns[col_name]
                 target_col = target_table.columns[col_name]
-                if self._column_type_differs(source_col, target_col):
+                if self._column_will_change(source_col, target_col) and self._column_type_differs(
+                    source_col, target_col
+                ):
                     changing_columns[(table_name, col_name)] = True
 
         if not changing_columns:
@@ -338,6 +340,19 @@ class Mygration:
                 return target_constraint
         return None
 
+    def _column_will_change(self, source_col, target_col):
+        """Checks if table.to() will actually emit a CHANGE for the column.
+
+        Display widths of integers or a character set/collation which only one side spells
+        out are not real differences: no CHANGE is emitted, so there is no reason to cycle FKs.
+
+        :param source_col: The source (live DB) column
+        :param target_col: The target (SQL files) column
+        :returns: True if the column is going to be changed
+        :rtype: bool
+        """
+        return str(source_col) != str(target_col) and not source_col.is_really_the_same_as(target_col)
+
     def _column_type_differs(self, source_col, target_col):
         """Checks if two columns differ in their type attributes (type, length, unsigned).
 
-- 
2.43.0


From bab4074636288423e304fb8c247483a4e0f4b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 07/62] fix: remove foreign keys and tables before anything
 that they block

Foreign keys were dropped table by table, and obsolete tables last.  A column or index of
an earlier table could then still be needed by a key of a later or obsolete one (MySQL
1553, 1829), and a constraint name moving to another table (e.g. because its table is
renamed) was still taken when the new table was created (1826).
---
 .../formats/mysql/mygrations/mygration.py     | 34 +++++++++++--------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/mygrations/formats/mysql/mygrations/mygration.py b/mygrations/formats/mysql/mygrations/mygration.py
index 3e3ef0c..04f264b 100644
--- a/mygrations/formats/mysql/mygrations/mygration.py
+++ b/mygrations/formats/mysql/mygrations/mygration.py
@@ -137,28 +137,35 @@ class Mygration:
         db_from_tables = self.db_from.tables if self.db_from else {}
         (tables_to_add, tables_to_remove, tables_to_update) = self._differences(db_from_tables, self.db_to.tables)
 
-        for table_name in tables_to_add:
-            operations.append(self.db_to.tables[table_name].create())
-
         fk_drop_ops, fk_add_ops, cycled_fks = self._find_fk_ops_for_column_type_changes(tables_to_update)
 
+        # All foreign keys that go away have to be gone before anything else happens: their names
+        # may be reused by other tables (MySQL error 1826), and the columns and indexes they need
+        # (in either table) cannot be changed or dropped as long as they exist (1553, 1829).
+        split_ops_by_table = {}
+        for table_name in tables_to_update:
+            split_ops = self.db_from.tables[table_name].to(self.db_to.tables[table_name], True)
+            split_ops_by_table[table_name] = split_ops
+            if "removed_fks" in split_ops:
+                filtered = self._strip_cycled_fk_ops(split_ops["removed_fks"], cycled_fks)
+                if filtered:
+                    operations.append(filtered)
+
         operations.extend(fk_drop_ops)
 
+        for table_name in tables_to_remove:
+            operations.append(RemoveTable(table_name))
+
+        for table_name in tables_to_add:
+            operations.append(self.db_to.tables[table_name].create())
+
         # Use split_operations=True to separate FK additions from column/key changes.
         # This ensures ALL column type changes across ALL tables complete before any
         # new FK constraints are added — preventing MySQL error 3780 when a child table
         # (e.g. company_domains) is processed before its parent (e.g. businesses)
         # alphabetically and tries to ADD FK before the parent column type is updated.
         deferred_fk_ops = []
-        for table_name in tables_to_update:
-            target_table = self.db_to.tables[table_name]
-            source_table = self.db_from.tables[table_name]
-            split_ops = source_table.to(target_table, True)
-
-            if "removed_fks" in split_ops:
-                filtered = self._strip_cycled_fk_ops(split_ops["removed_fks"], cycled_fks)
-                if filtered:
-                    operations.append(filtered)
+        for table_name, split_ops in split_ops_by_table.items():
             if "kitchen_sink" in split_ops:
                 operations.append(split_ops["kitchen_sink"])
             if "fks" in split_ops:
@@ -169,9 +176,6 @@ class Mygration:
         operations.extend(deferred_fk_ops)
         operations.extend(fk_add_ops)
 
-        for table_name in tables_to_remove:
-            operations.append(RemoveTable(table_name))
-
         if self._disable_fk_checks:
             operations.append(EnableChecks())
 
-- 
2.43.0


From 9671080edc234fcbd17e4562c0d24a6008d369dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 08/62] fix: create a table after the columns its foreign keys
 need

A new table whose foreign key references a column that is added, indexed or changed in
the same plan was created before the referenced table was altered (MySQL 3734, 1822, 3780).
---
 .../formats/mysql/mygrations/mygration.py     | 30 ++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/mygrations/mygration.py b/mygrations/formats/mysql/mygrations/mygration.py
index 04f264b..3d7c61b 100644
--- a/mygrations/formats/mysql/mygrations/mygration.py
+++ b/mygrations/formats/mysql/mygrations/mygration.py
@@ -156,8 +156,15 @@ class Mygration:
         for table_name in tables_to_remove:
             operations.append(RemoveTable(table_name))
 
+        # A new table that references something which an existing table still has to get (or to
+        # change the type of) can only be created afterwards (MySQL errors 3734, 3780, 1822).
+        late_creates = []
         for table_name in tables_to_add:
-            operations.append(self.db_to.tables[table_name].create())
+            create = self.db_to.tables[table_name].create()
+            if self._references_pending_column(self.db_to.tables[table_name], tables_to_update):
+                late_creates.append(create)
+            else:
+                operations.append(create)
 
         # Use split_operations=True to separate FK additions from column/key changes.
         # This ensures ALL column type changes across ALL tables complete before any
@@ -173,6 +180,7 @@ class Mygration:
                 if filtered:
                     deferred_fk_ops.append(filtered)
 
+        operations.extend(late_creates)
         operations.extend(deferred_fk_ops)
         operations.extend(fk_add_ops)
 
@@ -181,6 +189,26 @@ class Mygration:
 
         return operations
 
+    def _references_pending_column(self, table, tables_to_update):
+        """Checks if a new table has a FK to a column that an update of its table still has to provide
+
+        :param table: The table that is going to be created
+        :param tables_to_update: List of table names being updated
+        :returns: True if a referenced column or its index does not exist yet or is going to be changed
+        :rtype: bool
+        """
+        for constraint in table.constraints.values():
+            if constraint.foreign_table_name not in tables_to_update:
+                continue
+            source_table = self.db_from.tables[constraint.foreign_table_name]
+            target_table = self.db_to.tables[constraint.foreign_table_name]
+            column_name = constraint.foreign_column_name
+            if not source_table.column_is_indexed(column_name):
+                return True
+            if self._column_will_change(source_table.columns[column_name], target_table.columns[column_name]):
+                return True
+        return False
+
     def _find_fk_ops_for_column_type_changes(self, tables_to_update):
         """Finds FK constraints that must be temporarily dropped due to column type changes.
 
-- 
2.43.0


From 2184308b6ffbaad65f66c58dce3a092880b45a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:46 +0000
Subject: [PATCH 09/62] fix: do not confuse a renamed foreign key with a live
 one of the same name

When a foreign key was matched by its columns to a declared key whose name another live
key carries, both the removal and the addition of that other key were dropped from the plan.
---
 mygrations/formats/mysql/mygrations/mygration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mygrations/formats/mysql/mygrations/mygration.py b/mygrations/formats/mysql/mygrations/mygration.py
index 3d7c61b..d232929 100644
--- a/mygrations/formats/mysql/mygrations/mygration.py
+++ b/mygrations/formats/mysql/mygrations/mygration.py
@@ -277,6 +277,9 @@ class Mygration:
                         # FK name mismatch (e.g. MySQL auto-named 'table_ibfk_1' vs
                         # file-generated 'col_table_fk').  Match by column/reference instead.
                         target_constraint = self._find_matching_constraint(target_table, constraint)
+                        if target_constraint and target_constraint.name in table.constraints:
+                            # The live key of that name is dealt with under its own name.
+                            target_constraint = None
                         if target_constraint:
                             target_constraint_name = target_constraint.name
 
-- 
2.43.0


From 922368e668500c655afb9a6dc4a13954c6841784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 10/62] fix: rename an index that is named after a foreign key
 which is removed

The index was left alone because of its name, and the next plan renamed it.
---
 mygrations/formats/mysql/definitions/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index bc94cd0..5d75c3b 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -95,7 +95,8 @@ class Table(BaseTable):
         # index with a shorter name the diff sees an ADD + DROP pair.  Suppress
         # these false-positives by matching removed/added indexes that cover the
         # same columns & type AND where one of the names is a known constraint.
-        all_constraint_names = set(self.constraints.keys()) | set(comparison_table.constraints.keys())
+        # Constraints that are going away don't count, otherwise the next plan would differ.
+        all_constraint_names = set(comparison_table.constraints.keys())
         matched_added = set()
         matched_removed = set()
         for rk in removed_keys:
-- 
2.43.0


From f0f2a7d6a9bd0b5e42698ec3fa94cfeeae85ed67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:08 +0000
Subject: [PATCH 11/62] fix: quote defaults that a number would not reproduce

A string column with DEFAULT '007' was rendered DEFAULT 007, which the server stores as '7'.
---
 mygrations/core/definitions/columns/column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index c2a958f..357b63c 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -225,7 +225,7 @@ class Column(Base):
         if self.default is not None:
             if self.default == "":
                 parts.append("DEFAULT ''")
-            elif type(self.default) != str or self.default.isnumeric():
+            elif type(self.default) != str or (self.default.isdecimal() and str(int(self.default)) == self.default):
                 parts.append("DEFAULT %s" % self.default)
             else:
                 parts.append("DEFAULT '%s'" % self.default)
-- 
2.43.0


From e32d982a49af2c9fe604a53e5c10c544bbec39b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 12/62] fix: make the schema check of date columns work

It used two names that do not exist (values, no_auto_increment).  The AttributeError is
swallowed by hasattr(table, 'schema_errors') at the database level, so a single DATE column
hid every schema error of its table.  A fractional seconds precision is not a length error.
---
 mygrations/core/definitions/columns/date.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mygrations/core/definitions/columns/date.py b/mygrations/core/definitions/columns/date.py
index 720ee2f..b2d8b79 100644
--- a/mygrations/core/definitions/columns/date.py
+++ b/mygrations/core/definitions/columns/date.py
@@ -44,7 +44,8 @@ class Date(Column):
     def _check_for_schema_errors_and_warnings(self):
         super()._check_for_schema_errors_and_warnings()
 
-        if self.length:
+        # the fractional seconds precision looks like a length
+        if self.length and self.column_type not in ['DATETIME', 'TIMESTAMP', 'TIME', 'YEAR']:
             self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot have a length")
 
         if self.character_set is not None:
@@ -52,10 +53,10 @@ class Date(Column):
         if self.collate is not None:
             self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot have a collate")
 
-        if self.auto_increment and self.column_type in no_auto_increment:
+        if self.auto_increment:
             self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot be an AUTO_INCREMENT")
 
-        if self.values:
+        if self.enum_values:
             self._schema_errors.append(
                 "Column '%s' of type %s is not allowed to have a list of values for its length" %
                 (self.name, self.column_type)
-- 
2.43.0


From 9136dc9848f7b4d7f36d5d766945541a814084ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 13/62] fix: make the schema check of ENUM/SET columns work

The parser set the value list as the length too, so that every ENUM/SET column was reported
for having a length; and the check itself crashed (no_auto_increment, missing values), which
hid every schema error of the table.
---
 mygrations/core/definitions/columns/enum.py               | 7 +------
 mygrations/formats/mysql/file_reader/parsers/type_enum.py | 1 -
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/mygrations/core/definitions/columns/enum.py b/mygrations/core/definitions/columns/enum.py
index abc049f..65ed243 100644
--- a/mygrations/core/definitions/columns/enum.py
+++ b/mygrations/core/definitions/columns/enum.py
@@ -46,13 +46,8 @@ class Enum(String):
         if not self.enum_values or type(self.enum_values) != list:
             self._schema_errors.append(f"column '{self.name}' of type '{self.column_type}' must have a list of values")
 
-        if self.default and self.default not in self.enum_values:
+        if self.default and self.default not in (self.enum_values or []):
             self._schema_errors.append(
                 f"Default value for '{self.column_type}' column '{self.name}' is not in the list of allowed values"
             )
 
-        if self.auto_increment and self.column_type in no_auto_increment:
-            self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot be an AUTO_INCREMENT")
-
-        if self.unsigned:
-            self._schema_errors.append("Column %s cannot be unsigned" % self._name)
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_enum.py b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
index ec86893..5fb771d 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_enum.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
@@ -28,7 +28,6 @@ class TypeEnum(Parser, Type):
         self._name = self._extract_name()
         self._column_type = self._values["type"]
         self._enum_values = self._values["enum_values"]
-        self._length = self._enum_values
         self._null = self._extract_null()
         self._has_default = "default" in self._values
         self._default = self._values.get("default")
-- 
2.43.0


From 8453d09f553713cad8c39b670903196ff3063343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 14/62] fix: report tables that are defined in two sources

The error was appended to the list returned by the errors property, which is built anew on
every access (and the access cached the schema errors of a half read database).
---
 mygrations/formats/mysql/file_reader/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/database.py b/mygrations/formats/mysql/file_reader/database.py
index 58fa0ed..61d0c58 100644
--- a/mygrations/formats/mysql/file_reader/database.py
+++ b/mygrations/formats/mysql/file_reader/database.py
@@ -88,7 +88,7 @@ class Database(BaseDatabase):
         # keep rows and tables separate while we are reading
         for (table_name, table) in reader.tables.items():
             if table.name in self._tables:
-                self.errors.append('Found two definitions for table %s' % table.name)
+                self._global_errors.append('Found two definitions for table %s' % table.name)
             self._tables[table.name] = table
 
         self._global_errors.extend(reader._global_errors)
-- 
2.43.0


From 0e4d9963eae5aa76f502d6e130aa5857dba2175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 15/62] fix: report tables that are defined twice in one source

The second definition silently replaced the first.
---
 mygrations/formats/mysql/file_reader/reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/reader.py b/mygrations/formats/mysql/file_reader/reader.py
index 92d8291..89290d2 100644
--- a/mygrations/formats/mysql/file_reader/reader.py
+++ b/mygrations/formats/mysql/file_reader/reader.py
@@ -173,6 +173,10 @@ class Reader:
             elif data[:6].lower() == 'create':
                 parser = CreateParser()
                 data = parser.parse(data)
+                if parser.name in self._tables:
+                    self._global_errors.append(
+                        "Found two definitions for table %s%s" % (parser.name, self._filename_notice())
+                    )
                 self._tables[parser.name] = parser
 
             elif data[:6].lower() == 'insert':
-- 
2.43.0


From 13adf49887462d29b94386a6e5573ecd9e4ce560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 16/62] fix: report rows of a table that does not exist

The message was added letter by letter, and then the lookup of the table raised a KeyError.
---
 mygrations/formats/mysql/file_reader/database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/database.py b/mygrations/formats/mysql/file_reader/database.py
index 61d0c58..c31470f 100644
--- a/mygrations/formats/mysql/file_reader/database.py
+++ b/mygrations/formats/mysql/file_reader/database.py
@@ -103,8 +103,9 @@ class Database(BaseDatabase):
     def _combine_tables_and_rows(self):
         for (table_name, rows_list) in self._rows.items():
             if table_name not in self._tables:
-                self._global_errors.extend(
+                self._global_errors.append(
                     f"Found rows for table {table_name}, but this table does not exist in the database"
                 )
+                continue
             for rows in rows_list:
                 self._tables[table_name].add_rows(rows)
-- 
2.43.0


From af425a697afeed246289de8bbfbc73dc7ea9a171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 17/62] fix: report sources that cannot be read to the end

The ValueError was only printed (a SyntaxError was not even caught).  All statements after
the offending one were lost without an error, and a plan would have dropped their tables.
---
 mygrations/formats/mysql/file_reader/database.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/database.py b/mygrations/formats/mysql/file_reader/database.py
index c31470f..bd964f5 100644
--- a/mygrations/formats/mysql/file_reader/database.py
+++ b/mygrations/formats/mysql/file_reader/database.py
@@ -82,8 +82,10 @@ class Database(BaseDatabase):
             reader = Reader()
             reader.parse(contents)
 
-        except ValueError as e:
+        except (ValueError, SyntaxError) as e:
+            # whatever comes after this point has not been read, so this must not go unnoticed
             print("Error in file %s: %s" % (contents, e))
+            self._global_errors.append("Error in file %s: %s" % (contents, e))
 
         # keep rows and tables separate while we are reading
         for (table_name, table) in reader.tables.items():
-- 
2.43.0


From 237e6bfa95e00ad1c6ae1d535104aa9b04d32082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:18 +0000
Subject: [PATCH 18/62] fix: let errors of a whole declaration reach the
 database

Missing semicolons, duplicate columns/indexes/constraints, duplicate or unusable rows were
collected by the tables but never listed by the database, so nothing ever saw them.
---
 mygrations/formats/mysql/file_reader/database.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/database.py b/mygrations/formats/mysql/file_reader/database.py
index bd964f5..0289b0b 100644
--- a/mygrations/formats/mysql/file_reader/database.py
+++ b/mygrations/formats/mysql/file_reader/database.py
@@ -111,3 +111,8 @@ class Database(BaseDatabase):
                 continue
             for rows in rows_list:
                 self._tables[table_name].add_rows(rows)
+
+        # problems of a declaration as a whole (missing semicolon, duplicates, unusable rows) are only
+        # known to the tables
+        for table in self._tables.values():
+            self._global_errors.extend(table.global_errors)
-- 
2.43.0


From e16a75e53577558f71d250baec03e687487ec06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 19/62] fix: accept sources that hold nothing but white space

Reader.parse() raised an IndexError for them.
---
 mygrations/formats/mysql/file_reader/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/reader.py b/mygrations/formats/mysql/file_reader/reader.py
index 89290d2..407b93b 100644
--- a/mygrations/formats/mysql/file_reader/reader.py
+++ b/mygrations/formats/mysql/file_reader/reader.py
@@ -163,6 +163,8 @@ class Reader:
 
             # never hurts
             data = data.strip()
+            if not data:
+                break
 
             # now we are looking for one of three things:
             # comment, create, insert
-- 
2.43.0


From 9dac511eff92fb7e7359c3d5bb1207bfe4b4c602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 20/62] fix: escape quotes and backslashes in updates and in
 row ids

Only inserts escaped single quotes; an update with a quote in a value, or an id with one,
was a broken statement.
---
 mygrations/core/operations/change_row.py                     | 4 ++--
 mygrations/core/operations/remove_row.py                     | 4 +++-
 mygrations/formats/mysql/mygrations/operations/row_delete.py | 4 +++-
 mygrations/formats/mysql/mygrations/operations/row_update.py | 4 ++--
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/mygrations/core/operations/change_row.py b/mygrations/core/operations/change_row.py
index 7146653..a74cb72 100644
--- a/mygrations/core/operations/change_row.py
+++ b/mygrations/core/operations/change_row.py
@@ -18,7 +18,7 @@ class ChangeRow:
 
     def __str__(self):
         updates = ', '.join([
-            "`%s`='%s'" % (key, str(val).replace('\\', '\\\\')) if val is not None else ('`%s`=NULL' % key)
+            "`%s`='%s'" % (key, str(val).replace('\\', '\\\\').replace("'", "\\'")) if val is not None else ('`%s`=NULL' % key)
             for (key, val) in self._data.items() if key != 'id'
         ])
-        return "UPDATE `%s` SET %s WHERE id='%s';" % (self._table_name, updates, self._data['id'])
+        return "UPDATE `%s` SET %s WHERE id='%s';" % (self._table_name, updates, str(self._data['id']).replace('\\', '\\\\').replace("'", "\\'"))
diff --git a/mygrations/core/operations/remove_row.py b/mygrations/core/operations/remove_row.py
index 138834e..4dbd4e4 100644
--- a/mygrations/core/operations/remove_row.py
+++ b/mygrations/core/operations/remove_row.py
@@ -15,4 +15,6 @@ class RemoveRow:
         return self._table_name
 
     def __str__(self):
-        return "DELETE FROM `%s` WHERE id='%s';" % (self._table_name, self.row_id)
+        return "DELETE FROM `%s` WHERE id='%s';" % (
+            self._table_name, str(self.row_id).replace('\\', '\\\\').replace("'", "\\'")
+        )
diff --git a/mygrations/formats/mysql/mygrations/operations/row_delete.py b/mygrations/formats/mysql/mygrations/operations/row_delete.py
index 3bff403..512bca0 100644
--- a/mygrations/formats/mysql/mygrations/operations/row_delete.py
+++ b/mygrations/formats/mysql/mygrations/operations/row_delete.py
@@ -18,4 +18,6 @@ class RowDelete:
         return self._table_name
 
     def __str__(self):
-        return "DELETE FROM `%s` WHERE id='%s';" % (self._table_name, self.row_id)
+        return "DELETE FROM `%s` WHERE id='%s';" % (
+            self._table_name, str(self.row_id).replace('\\', '\\\\').replace("'", "\\'")
+        )
diff --git a/mygrations/formats/mysql/mygrations/operations/row_update.py b/mygrations/formats/mysql/mygrations/operations/row_update.py
index 116a2a5..1e42566 100644
--- a/mygrations/formats/mysql/mygrations/operations/row_update.py
+++ b/mygrations/formats/mysql/mygrations/operations/row_update.py
@@ -22,7 +22,7 @@ class RowUpdate:
 
     def __str__(self):
         updates = ', '.join([
-            "`%s`='%s'" % (key, str(val).replace('\\', '\\\\')) if val is not None else ('`%s`=NULL' % key)
+            "`%s`='%s'" % (key, str(val).replace('\\', '\\\\').replace("'", "\\'")) if val is not None else ('`%s`=NULL' % key)
             for (key, val) in self.data.items() if key != 'id'
         ])
-        return "UPDATE `%s` SET %s WHERE id='%s';" % (self._table_name, updates, self.data['id'])
+        return "UPDATE `%s` SET %s WHERE id='%s';" % (self._table_name, updates, str(self.data['id']).replace('\\', '\\\\').replace("'", "\\'"))
-- 
2.43.0


From da8668c77b71bf42bc5b491c767375c88d25ef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 21/62] fix: make index and column removal operations
 applicable to tables

add_key/change_key/remove_key do not exist on tables (add_index/... do), and the core
RemoveColumn looked for an attribute it does not have.
---
 mygrations/core/operations/remove_column.py                  | 2 +-
 mygrations/formats/mysql/mygrations/operations/add_key.py    | 2 +-
 mygrations/formats/mysql/mygrations/operations/change_key.py | 2 +-
 mygrations/formats/mysql/mygrations/operations/remove_key.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mygrations/core/operations/remove_column.py b/mygrations/core/operations/remove_column.py
index 03172d2..bc50a66 100644
--- a/mygrations/core/operations/remove_column.py
+++ b/mygrations/core/operations/remove_column.py
@@ -7,7 +7,7 @@ class RemoveColumn:
 
     def apply_to_table(self, table: Table):
         """ Removes the column from the table """
-        table.remove_column(self.column)
+        table.remove_column(self._column)
 
     def __str__(self):
         return 'DROP `%s`' % self._column.name
diff --git a/mygrations/formats/mysql/mygrations/operations/add_key.py b/mygrations/formats/mysql/mygrations/operations/add_key.py
index 7b9cb21..74cd843 100644
--- a/mygrations/formats/mysql/mygrations/operations/add_key.py
+++ b/mygrations/formats/mysql/mygrations/operations/add_key.py
@@ -9,7 +9,7 @@ class AddKey:
         :param table: The table to add the key to
         :param type: mygrations.formats.mysql.definitions.table
         """
-        table.add_key(self.key)
+        table.add_index(self.key)
 
     def __str__(self):
         return 'ADD %s' % str(self.key)
diff --git a/mygrations/formats/mysql/mygrations/operations/change_key.py b/mygrations/formats/mysql/mygrations/operations/change_key.py
index c4647a7..ac6bd59 100644
--- a/mygrations/formats/mysql/mygrations/operations/change_key.py
+++ b/mygrations/formats/mysql/mygrations/operations/change_key.py
@@ -9,7 +9,7 @@ class ChangeKey:
         :param table: The table to change the key on
         :param type: mygrations.formats.mysql.definitions.table
         """
-        table.change_key(self.key)
+        table.change_index(self.key)
 
     def __str__(self):
         return 'DROP KEY `%s`, ADD %s' % (self.key.name, str(self.key))
diff --git a/mygrations/formats/mysql/mygrations/operations/remove_key.py b/mygrations/formats/mysql/mygrations/operations/remove_key.py
index 65ea169..0d2e80a 100644
--- a/mygrations/formats/mysql/mygrations/operations/remove_key.py
+++ b/mygrations/formats/mysql/mygrations/operations/remove_key.py
@@ -9,7 +9,7 @@ class RemoveKey:
         :param table: The table to remove the key from
         :param type: mygrations.formats.mysql.definitions.table
         """
-        table.remove_key(self.key)
+        table.remove_index(self.key)
 
     def __str__(self):
         if self.key.index_type == 'PRIMARY':
-- 
2.43.0


From 073075a2fe18dff5731b14730ce607ecd7568462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 22/62] fix: allow adding a first column to tables built
 through the API

Their columns were kept in a plain dict, which has no move_to_end().
---
 mygrations/core/definitions/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 40708e3..2e7005e 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -36,7 +36,7 @@ class Table:
         self._options = [*options] if options else []
         self._primary = None
         self._constraints = {}
-        self._columns = {}
+        self._columns = OrderedDict()
         self._indexes = {}
         self._parsing_errors = None
         self._parsing_warnings = None
-- 
2.43.0


From 6a97d958adf7026bbc5a00dfc5f9f24eb8a52780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 23/62] fix: keep primary key and indexed columns in step when
 indexes change

---
 mygrations/core/definitions/table.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 2e7005e..1c43000 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -507,10 +507,11 @@ class Table:
         if index_name not in self._indexes:
             raise ValueError("Cannot remove index %s because index %s does not exist" % (index_name, index_name))
 
-        indexed_column = self._indexes[index_name].columns[0]
-        self._indexes.pop(index_name, None)
-        if self._indexed_columns is not None:
-            self._indexed_columns.discard(indexed_column)
+        removed = self._indexes.pop(index_name, None)
+        if removed is self._primary:
+            self._primary = None
+        # another index may still start with the same column
+        self._indexed_columns = None
 
     def change_index(self, new_index: Index):
         """Changes an index.  This does not currently support renaming"""
@@ -521,12 +522,13 @@ class Table:
                 "Cannot modify index %s because index %s does not exist" % (new_index.name, new_index.name)
             )
 
-        if self._indexed_columns is not None:
-            self._indexed_columns.discard(self._indexes[new_index.name].columns[0])
+        if self._indexes[new_index.name] is self._primary:
+            self._primary = None
+        if new_index.is_primary():
+            self._primary = new_index
         self._indexes[new_index.name] = new_index
-
-        if self._indexed_columns is not None:
-            self._indexed_columns.add(new_index.columns[0])
+        # another index may still start with the same column
+        self._indexed_columns = None
 
     def add_constraint(self, constraint: Constraint):
         """Adds a constraint to the table"""
-- 
2.43.0


From 3cd425a85de8c1c97729ae591d89c33f0240cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 24/62] fix: quote the name of a dropped table

---
 mygrations/formats/mysql/mygrations/operations/remove_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/mygrations/operations/remove_table.py b/mygrations/formats/mysql/mygrations/operations/remove_table.py
index 9599814..2f83efb 100644
--- a/mygrations/formats/mysql/mygrations/operations/remove_table.py
+++ b/mygrations/formats/mysql/mygrations/operations/remove_table.py
@@ -17,4 +17,4 @@ class RemoveTable:
         return self._table_name
 
     def __str__(self):
-        return 'DROP TABLE %s;' % self._table_name
+        return 'DROP TABLE `%s`;' % self._table_name
-- 
2.43.0


From 53303053e4a95e02f11cf88e450efce698c06b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 25/62] fix: keep settings with an empty value

---
 mygrations/core/commands/base.py | 4 ++--
 mygrations/helpers/dotenv.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mygrations/core/commands/base.py b/mygrations/core/commands/base.py
index 8b0d637..97572ac 100644
--- a/mygrations/core/commands/base.py
+++ b/mygrations/core/commands/base.py
@@ -43,7 +43,7 @@ class Base(object):
         # while self.config is a dictionary containing configuration settings loaded out of the mygrate.conf file.
         config_abs_path = self._resolve_and_check_config_file_path(self.options['config'])
         self.config = dotenv(config_abs_path)
-        if 'files_directory' not in self.config:
+        if not self.config.get('files_directory'):
             raise ValueError(
                 "Configuration file is missing 'files_directory' configuration, which should point to the directory containing your *.sql files"
             )
@@ -51,7 +51,7 @@ class Base(object):
             self.config['files_directory'], config_abs_path
         )
 
-        if 'env_file' not in self.config:
+        if not self.config.get('env_file'):
             raise ValueError(
                 "Configuration file is missing 'env_file' configuration, which should point to the .env file for your application (so mygrations can fetch database credentials"
             )
diff --git a/mygrations/helpers/dotenv.py b/mygrations/helpers/dotenv.py
index 39afe58..c68d14f 100644
--- a/mygrations/helpers/dotenv.py
+++ b/mygrations/helpers/dotenv.py
@@ -86,7 +86,7 @@ class dotenv(dict):
 
             # we will get a non-value for key and value if this wasn't
             # a valid data line
-            if not key or not value:
+            if not key:
                 continue
 
             # store it!
-- 
2.43.0


From 19c321bc1cc2d9f3ddbbac986665d89941870fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 26/62] fix: report unclosed and trailing quotes of environment
 files as syntax errors

---
 mygrations/helpers/dotenv.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mygrations/helpers/dotenv.py b/mygrations/helpers/dotenv.py
index c68d14f..6866fc6 100644
--- a/mygrations/helpers/dotenv.py
+++ b/mygrations/helpers/dotenv.py
@@ -159,15 +159,11 @@ class dotenv(dict):
         if not value.count(quote):
             raise DotEnvSyntaxError("Syntax error: unclosed quote in line %s" % line)
 
-        # do we have an empty string?
-        if value[0] == quote:
-            return [key, '']
-
         # make sure we don't have an escaped quote in our quoted string
-        index = 0
-        while value.count(quote, index):
+        index = -1
+        while value.count(quote, index + 1):
             index = value.index(quote, index + 1)
-            if value[index - 1] == '\\':
+            if index and value[index - 1] == '\\':
                 continue
 
             # if we get here then we have found the ending quote!
-- 
2.43.0


From ea516d9613c39d875a4f146a8adf7ba26f1f5581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 27/62] fix: do not quote DEFAULT CURRENT_TIMESTAMP

---
 mygrations/core/definitions/columns/column.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index 357b63c..16aff65 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -227,6 +227,9 @@ class Column(Base):
                 parts.append("DEFAULT ''")
             elif type(self.default) != str or (self.default.isdecimal() and str(int(self.default)) == self.default):
                 parts.append("DEFAULT %s" % self.default)
+            elif self.column_type in ["DATETIME", "TIMESTAMP"] and self.default.upper() == "CURRENT_TIMESTAMP":
+                # this is an expression: as a string it would be an invalid date
+                parts.append("DEFAULT CURRENT_TIMESTAMP")
             else:
                 parts.append("DEFAULT '%s'" % self.default)
 
-- 
2.43.0


From 7ee814339d643ab5de43420e05c867575b0e7b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 28/62] fix: do not let a comment swallow the statements after
 it

---
 .../formats/mysql/file_reader/reader.py       | 34 +++++++++++++++++--
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/reader.py b/mygrations/formats/mysql/file_reader/reader.py
index 407b93b..c11af70 100644
--- a/mygrations/formats/mysql/file_reader/reader.py
+++ b/mygrations/formats/mysql/file_reader/reader.py
@@ -1,4 +1,4 @@
-import io, os
+import io, os, re
 from .comment_parser import CommentParser
 from .create_parser import CreateParser
 from .insert_parser import InsertParser
@@ -147,6 +147,32 @@ class Reader:
 
         return contents
 
+    # quoted text, a comment or the end of a statement
+    _statement_parts = re.compile(
+        r"""(?P<quoted>'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*"|`[^`]*`)|(?P<comment>--[^\n]*|\#[^\n]*|/\*.*?\*/)|(?P<end>;)""",
+        re.DOTALL
+    )
+
+    """ Splits the first statement off, without the comments in it
+
+    The parsers do not keep line breaks, so they must not see any comment (which would not end anymore)
+    and nothing that follows the statement.
+
+    :returns: The first statement (up to and including its semicolon), and everything after it
+    :rtype: (string, string)
+    """
+
+    def _next_statement(self, data):
+        statement = ''
+        position = 0
+        for part in self._statement_parts.finditer(data):
+            if part.lastgroup == 'comment':
+                statement += data[position:part.start()] + ' '
+                position = part.end()
+            elif part.lastgroup == 'end':
+                return (statement + data[position:part.end()], data[part.end():])
+        return (statement + data[position:], '')
+
     """ Main parsing loop: attempts to find create, insert, and comments in the SQL string
     """
 
@@ -174,7 +200,8 @@ class Reader:
 
             elif data[:6].lower() == 'create':
                 parser = CreateParser()
-                data = parser.parse(data)
+                (statement, rest) = self._next_statement(data)
+                data = parser.parse(statement) + rest
                 if parser.name in self._tables:
                     self._global_errors.append(
                         "Found two definitions for table %s%s" % (parser.name, self._filename_notice())
@@ -183,7 +210,8 @@ class Reader:
 
             elif data[:6].lower() == 'insert':
                 parser = InsertParser()
-                data = parser.parse(data)
+                (statement, rest) = self._next_statement(data)
+                data = parser.parse(statement) + rest
                 if not parser.table in self._rows:
                     self._rows[parser.table] = []
 
-- 
2.43.0


From 3cca84b5fbeb87229d106f1ef2889e9772183ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 29/62] fix: read escaped quotes and tell quoted NULL apart in
 inserted values

---
 mygrations/core/parse/rule_delimited.py        | 18 +++++++++++++++++-
 .../mysql/file_reader/parsers/insert_values.py | 16 +++++++++++-----
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/mygrations/core/parse/rule_delimited.py b/mygrations/core/parse/rule_delimited.py
index 71888d0..2c56201 100644
--- a/mygrations/core/parse/rule_delimited.py
+++ b/mygrations/core/parse/rule_delimited.py
@@ -20,6 +20,7 @@ class RuleDelimited(RuleBase):
     separator  The character that separates values
     quote      (optional) A character that encloses values
     optional   (optional) If true, denotes that this rule is optional
+    raw        (optional) If true, values keep their quotes and escapes, and may hold escaped quotes
     =========  ========
 
     :param parser: The parser that this rule belongs to
@@ -58,6 +59,7 @@ class RuleDelimited(RuleBase):
 
         self.separator = self.rule['separator']
         self.quote = self.rule['quote'] if 'quote' in self.rule else ''
+        self.raw = self.rule.get('raw', False)
 
         # separator and quote must be a single character
         if len(self.separator) > 1:
@@ -82,8 +84,22 @@ class RuleDelimited(RuleBase):
         vals = []
         current = ''
         in_quote = False
+        escaped = False
         for (index, char) in enumerate(string):
 
+            # a raw value ends at the first quote which is neither escaped nor doubled
+            if self.raw and in_quote:
+                current += char
+                if escaped:
+                    escaped = False
+                elif char == '\\' or (char == self.quote and string[index + 1:index + 2] == self.quote):
+                    escaped = True
+                elif char == self.quote:
+                    vals.append(current)
+                    has_word = False
+                    in_quote = False
+                continue
+
             # if we hit a quote then we need to start/finish a word
             if self.quote and char == self.quote:
 
@@ -91,7 +107,7 @@ class RuleDelimited(RuleBase):
                 if not in_quote:
                     in_quote = True
                     has_word = True
-                    current = ''
+                    current = char if self.raw else ''
 
                 # close word
                 else:
diff --git a/mygrations/formats/mysql/file_reader/parsers/insert_values.py b/mygrations/formats/mysql/file_reader/parsers/insert_values.py
index 4aed6f1..bccf7a1 100644
--- a/mygrations/formats/mysql/file_reader/parsers/insert_values.py
+++ b/mygrations/formats/mysql/file_reader/parsers/insert_values.py
@@ -1,3 +1,5 @@
+import re
+
 from mygrations.core.parse.parser import Parser
 
 
@@ -7,14 +9,18 @@ class InsertValues(Parser):
 
     rules = [
         {"type": "literal", "value": "("},
-        {"type": "delimited", "name": "values", "separator": ",", "quote": "'"},
+        {"type": "delimited", "name": "values", "separator": ",", "quote": "'", "raw": True},
         {"type": "literal", "value": ")"},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
     ]
 
     def process(self):
 
-        self.values = [
-            str(val).replace("\\\\", "\\").replace("\\'", "'") if val != "NULL" else None
-            for val in self._values["values"]
-        ]
+        self.values = [self._decode(value) for value in self._values["values"]]
+
+    def _decode(self, value):
+        if value[:1] != "'":
+            return None if value.upper() == "NULL" else value
+
+        # a backslash in front of anything else stands for itself
+        return re.sub(r"\\([\\'])|'(')", lambda match: match.group(1) or match.group(2), value[1:-1])
-- 
2.43.0


From f048408eb4e31e991eb37bc39865bf237baebbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 30/62] fix: leave quoted text alone when cleaning up white
 space and comments

---
 mygrations/core/parse/parser.py                       |  6 ++++--
 mygrations/formats/mysql/file_reader/create_parser.py | 10 ++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/mygrations/core/parse/parser.py b/mygrations/core/parse/parser.py
index 8ebab47..829f900 100644
--- a/mygrations/core/parse/parser.py
+++ b/mygrations/core/parse/parser.py
@@ -63,11 +63,13 @@ class Parser:
 
         return self.rule_types[rule_type](self, rule, next_rule)
 
+    _spaces = re.compile(r"""(?P<quoted>'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*"|`[^`]*`)|\s+""", re.DOTALL)
+
     def parse(self, string=""):
 
         # first thing first, some initial string cleaning.  Clean spaces
-        # from start and end and replace any multi-spaces with a single space.
-        string = re.sub("\s+", " ", string).strip()
+        # from start and end and replace any multi-spaces with a single space (but not in quoted text).
+        string = self._spaces.sub(lambda match: match.group("quoted") or " ", string).strip()
         number_rules = len(self.rules)
         self._values = {}
 
diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 47d578c..1562c69 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -70,13 +70,19 @@ class CreateParser(Table, Parser):
         # parser.py:68 does re.sub('\s+', ' ', string) which turns newlines into
         # spaces, so '-- comment\ncolumn' becomes '-- comment column' and the
         # comment eats the next line. Stripping here prevents that.
-        string = re.sub(r"--[^\n]*", "", string)
+        quoted = r"""('(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*")"""
+        string = re.sub(quoted + r"|--[^\n]*", lambda match: match.group(1) or "", string, flags=re.DOTALL)
         # Strip index prefix-lengths like full_path(255) → full_path.
         # The delimited parser splits column lists on ')' which conflicts with
         # the inner ')' of prefix-lengths. We match word(digits) preceded by
         # '(' or ',' (index column-list context) which avoids type lengths like
         # INT(11) or VARCHAR(255) that are preceded by the type keyword.
-        string = re.sub(r"(\(|\,)(\s*`?\w+`?)\(\d+\)", r"\1\2", string)
+        string = re.sub(
+            quoted + r"|([(,]\s*`?\w+`?)\(\d+\)",
+            lambda match: match.group(1) or match.group(2),
+            string,
+            flags=re.DOTALL,
+        )
         return super().parse(string)
 
     def process(self):
-- 
2.43.0


From cf0aa7e4ed6b9f5a3890a16c4e323a5aa51d2e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 31/62] fix: read double quoted values

---
 mygrations/core/parse/rule_delimited.py                   | 8 ++++----
 .../formats/mysql/file_reader/parsers/insert_values.py    | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/mygrations/core/parse/rule_delimited.py b/mygrations/core/parse/rule_delimited.py
index 2c56201..5cf5157 100644
--- a/mygrations/core/parse/rule_delimited.py
+++ b/mygrations/core/parse/rule_delimited.py
@@ -20,7 +20,7 @@ class RuleDelimited(RuleBase):
     separator  The character that separates values
     quote      (optional) A character that encloses values
     optional   (optional) If true, denotes that this rule is optional
-    raw        (optional) If true, values keep their quotes and escapes, and may hold escaped quotes
+    raw        (optional) If true, values keep their quotes and escapes, may hold escaped quotes and may be double quoted
     =========  ========
 
     :param parser: The parser that this rule belongs to
@@ -92,16 +92,16 @@ class RuleDelimited(RuleBase):
                 current += char
                 if escaped:
                     escaped = False
-                elif char == '\\' or (char == self.quote and string[index + 1:index + 2] == self.quote):
+                elif char == '\\' or (char == current[0] and string[index + 1:index + 2] == char):
                     escaped = True
-                elif char == self.quote:
+                elif char == current[0]:
                     vals.append(current)
                     has_word = False
                     in_quote = False
                 continue
 
             # if we hit a quote then we need to start/finish a word
-            if self.quote and char == self.quote:
+            if self.quote and (char == self.quote or (self.raw and char == '"')):
 
                 # open word
                 if not in_quote:
diff --git a/mygrations/formats/mysql/file_reader/parsers/insert_values.py b/mygrations/formats/mysql/file_reader/parsers/insert_values.py
index bccf7a1..8702323 100644
--- a/mygrations/formats/mysql/file_reader/parsers/insert_values.py
+++ b/mygrations/formats/mysql/file_reader/parsers/insert_values.py
@@ -19,8 +19,11 @@ class InsertValues(Parser):
         self.values = [self._decode(value) for value in self._values["values"]]
 
     def _decode(self, value):
-        if value[:1] != "'":
+        quote = value[:1]
+        if quote not in ["'", '"']:
             return None if value.upper() == "NULL" else value
 
         # a backslash in front of anything else stands for itself
-        return re.sub(r"\\([\\'])|'(')", lambda match: match.group(1) or match.group(2), value[1:-1])
+        return re.sub(
+            r"\\([\\'\"])|%s(%s)" % (quote, quote), lambda match: match.group(1) or match.group(2), value[1:-1]
+        )
-- 
2.43.0


From 46cf4a5bdb778b2d30e2fafb0e8a1d43e84e95e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 32/62] fix: read ENUM/SET columns the way the server displays
 them

---
 mygrations/formats/mysql/file_reader/parsers/type_enum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/parsers/type_enum.py b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
index 5fb771d..361033b 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_enum.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
@@ -14,6 +14,8 @@ class TypeEnum(Parser, Type):
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "enum_values", "quote": "'", "separator": ","},
         {"type": "literal", "value": ")"},
+        {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
+        {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
         {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "optional": True, "name": "default"},
-- 
2.43.0


From 7336d7e6bfedbb96ac75c4bab503ceee6c445490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 33/62] fix: allow asking a live database for its errors

---
 mygrations/formats/mysql/db_reader/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/db_reader/database.py b/mygrations/formats/mysql/db_reader/database.py
index 47a9a23..f6d2bf1 100644
--- a/mygrations/formats/mysql/db_reader/database.py
+++ b/mygrations/formats/mysql/db_reader/database.py
@@ -11,7 +11,7 @@ class Database(DatabaseDefinition):
         """
         self.conn = conn
         self._tables = {}
-        self._rows = []
+        self._rows = {}
         self._global_errors = []
         self._global_warnings = []
 
-- 
2.43.0


From af4c950da5e857254b8e55b8c67a5eaa1031f1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:47 +0000
Subject: [PATCH 34/62] fix: do not turn statements that cannot be read into a
 nameless table

---
 mygrations/formats/mysql/file_reader/reader.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/reader.py b/mygrations/formats/mysql/file_reader/reader.py
index c11af70..7bcc327 100644
--- a/mygrations/formats/mysql/file_reader/reader.py
+++ b/mygrations/formats/mysql/file_reader/reader.py
@@ -202,6 +202,11 @@ class Reader:
                 parser = CreateParser()
                 (statement, rest) = self._next_statement(data)
                 data = parser.parse(statement) + rest
+                if not parser.matched:
+                    self._global_errors.append(
+                        "Cannot read statement: %s%s" % (statement.strip(), self._filename_notice())
+                    )
+                    return data
                 if parser.name in self._tables:
                     self._global_errors.append(
                         "Found two definitions for table %s%s" % (parser.name, self._filename_notice())
@@ -212,6 +217,11 @@ class Reader:
                 parser = InsertParser()
                 (statement, rest) = self._next_statement(data)
                 data = parser.parse(statement) + rest
+                if not parser.matched:
+                    self._global_errors.append(
+                        "Cannot read statement: %s%s" % (statement.strip(), self._filename_notice())
+                    )
+                    return data
                 if not parser.table in self._rows:
                     self._rows[parser.table] = []
 
-- 
2.43.0


From ea795d0da35d8bcc465b5e8bba2421fe45db36c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 35/62] fix: do not plan around live tables that cannot be read

---
 mygrations/core/commands/plan.py               | 7 +++++++
 mygrations/core/definitions/database.py        | 9 +++++++++
 mygrations/formats/mysql/db_reader/database.py | 8 ++++++--
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/mygrations/core/commands/plan.py b/mygrations/core/commands/plan.py
index f7cd71c..9401568 100644
--- a/mygrations/core/commands/plan.py
+++ b/mygrations/core/commands/plan.py
@@ -38,6 +38,13 @@ class Plan(Base):
         # use the credentials to load up a database connection
         live_database = DatabaseReader(self.get_driver())
 
+        # planning without a table that could not be read would create it again
+        if live_database.global_errors and not self.options.get('force'):
+            print('Errors found in the database', file=sys.stderr)
+            for error in live_database.global_errors:
+                print(error, file=sys.stderr)
+            return []
+
         # we have to tell the live database to load records
         # for any tables we are tracking records for.
         # We use the "files" database as the "truth" because
diff --git a/mygrations/core/definitions/database.py b/mygrations/core/definitions/database.py
index 32aee1b..b8a4ab3 100644
--- a/mygrations/core/definitions/database.py
+++ b/mygrations/core/definitions/database.py
@@ -38,6 +38,15 @@ class Database:
         parsing_errors = self.find_parsing_errors()
         return [*global_errors, *parsing_errors, *schema_errors]
 
+    @property
+    def global_errors(self):
+        """ Public getter.  Returns a list of errors from reading the database as a whole
+
+        :returns: A list of errors
+        :rtype: list
+        """
+        return self._global_errors if self._global_errors is not None else []
+
     @property
     def warnings(self):
         """ Public getter.  Returns a list of warnings
diff --git a/mygrations/formats/mysql/db_reader/database.py b/mygrations/formats/mysql/db_reader/database.py
index f6d2bf1..9753102 100644
--- a/mygrations/formats/mysql/db_reader/database.py
+++ b/mygrations/formats/mysql/db_reader/database.py
@@ -27,12 +27,16 @@ class Database(DatabaseDefinition):
         :type conn: mygrations.drivers.mysqldb.mysqldb
         """
         for (table, create_table) in conn.tables().items():
+            reader = Reader()
             try:
-                reader = Reader()
                 reader.parse(create_table)
 
-            except ValueError as e:
+            except (ValueError, SyntaxError) as e:
                 print("Error in table %s: %s" % (create_table, e))
+                self._global_errors.append("Error in table %s: %s" % (table, e))
+
+            # a table that is there but could not be read must not be taken for one that is missing
+            self._global_errors.extend(reader.global_errors)
 
             for (table_name, table) in reader.tables.items():
                 if table.name in self._tables:
-- 
2.43.0


From 6db2da34499833f767df138da4fd32d4df99f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:21 +0000
Subject: [PATCH 36/62] fix: treat NUMERIC as the synonym of DECIMAL it is

---
 mygrations/formats/mysql/file_reader/parsers/type.py         | 1 +
 mygrations/formats/mysql/file_reader/parsers/type_decimal.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/type.py b/mygrations/formats/mysql/file_reader/parsers/type.py
index c028ba1..67ea89f 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type.py
@@ -74,6 +74,7 @@ class Type:
     # and default value mapping (TRUE→1, FALSE→0).
     _type_synonyms = {
         "integer": "int",
+        "numeric": "decimal",
     }
 
     @classmethod
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
index 0a095a1..6894aac 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
@@ -27,7 +27,7 @@ class TypeDecimal(Parser, Type):
 
         self._init_errors()
         self._name = self._extract_name()
-        self._column_type = self._values["type"]
+        self._column_type = self._normalize_type(self._values["type"])
         self.decimals = self._values["decimals"]
         self._length = "%s,%s" % (self._values["length"], self._values["decimals"])
         self._unsigned = "UNSIGNED" in self._values
-- 
2.43.0


From 438ced8617695ee6b0ae2dab1b556e555c8122e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 37/62] fix: compare lengths as the server displays them

---
 mygrations/core/definitions/columns/column.py  | 14 +++++++++++++-
 mygrations/core/definitions/columns/numeric.py |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index 16aff65..a827bf9 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -238,6 +238,16 @@ class Column(Base):
 
         return " ".join(parts)
 
+    # the length which the server uses (and displays) if none is given
+    _implied_lengths = {"DECIMAL": "10,0", "NUMERIC": "10,0", "CHAR": "1", "BINARY": "1", "BIT": "1"}
+
+    def _effective_length(self) -> str:
+        """Returns the length the column ends up with on the server"""
+        length = str(self.length) if self.length else self._implied_lengths.get(self.column_type, "")
+        if self.column_type in ["DECIMAL", "NUMERIC"] and "," not in length:
+            length += ",0"
+        return length
+
     def is_really_the_same_as(self, column: Column) -> bool:
         """Takes care of a pesky false-positive when checking columns
 
@@ -245,9 +255,11 @@ class Column(Base):
         :returns: True if the column really is the same, even for apparent differences
         """
         # if any of these attributes change then it really isn't the same
-        for attr in ["name", "length", "null", "column_type", "enum_values"]:
+        for attr in ["name", "null", "column_type", "enum_values"]:
             if getattr(self, attr) != getattr(column, attr):
                 return False
+        if self._effective_length() != column._effective_length():
+            return False
         if bool(self.auto_increment) != bool(column.auto_increment):
             return False
 
diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index 5675683..5dee1d7 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -150,7 +150,7 @@ class Numeric(Column):
         # and if there are 4 digits after the decimal than 0.0000 and 0.00001 are the same too
         # This will come up if someone sets a default in an SQL file with too many (or too few) decimals,
         # while MySQL will report it properly rounded to the exact number of decimal places
-        split = self.length.split(",")
+        split = self._effective_length().split(",")
         if len(split) == 2:
             ndecimals = int(split[1])
             if round(float(self.default), ndecimals) == round(float(column.default), ndecimals):
-- 
2.43.0


From d6141d675b68bfa71a934f39813dabae382b7970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 38/62] fix: compare numeric defaults exactly

---
 mygrations/core/definitions/columns/numeric.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index 5dee1d7..abd3388 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -1,3 +1,5 @@
+from decimal import Decimal, ROUND_HALF_UP
+
 from .column import Column
 from typing import List, Union
 
@@ -144,7 +146,7 @@ class Numeric(Column):
         if self.default is None or column.default is None:
             return False
         if self.column_type != "DECIMAL":
-            return float(self.default) == float(column.default)
+            return Decimal(str(self.default)) == Decimal(str(column.default))
 
         # Default equality is mildly tricky for decimals because 0 and 0.000 are the same,
         # and if there are 4 digits after the decimal than 0.0000 and 0.00001 are the same too
@@ -152,8 +154,12 @@ class Numeric(Column):
         # while MySQL will report it properly rounded to the exact number of decimal places
         split = self._effective_length().split(",")
         if len(split) == 2:
-            ndecimals = int(split[1])
-            if round(float(self.default), ndecimals) == round(float(column.default), ndecimals):
+            precision = Decimal(1).scaleb(-int(split[1]))
+            (mine, theirs) = [
+                Decimal(str(default)).quantize(precision, rounding=ROUND_HALF_UP)
+                for default in [self.default, column.default]
+            ]
+            if mine == theirs:
                 return True
 
         return self.default == column.default
-- 
2.43.0


From 3650520302a2a9a6665d3405687b1239ab1f9b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 39/62] fix: read bit defaults the way the server displays them

---
 mygrations/formats/mysql/file_reader/parsers/type.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/type.py b/mygrations/formats/mysql/file_reader/parsers/type.py
index 67ea89f..29b97d2 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type.py
@@ -1,3 +1,5 @@
+import re
+
 from mygrations.formats.mysql.definitions import columns
 from mygrations.core.definitions.columns.column import Column
 
@@ -100,13 +102,18 @@ class Type:
                 f"Found an unknown column type, '{column_type}' that does not have a corresponding column class"
             )
         column_class = self.column_type_map[column_type]
+        default = getattr(self, "_default", None)
+        if column_type == "BIT" and default:
+            # the server displays bits as b'0' and b'1'
+            bits = re.match("^b'([01]+)'$", str(default), re.IGNORECASE)
+            default = str(int(bits.group(1), 2)) if bits else default
         return column_class(
             name=self._name,
             column_type=column_type,
             length=getattr(self, "_length", None),
             null=getattr(self, "_null", None),
             has_default=getattr(self, "_has_default", False),
-            default=getattr(self, "_default", None),
+            default=default,
             unsigned=getattr(self, "_unsigned", None),
             character_set=getattr(self, "_character_set", None),
             collate=getattr(self, "_collate", None),
-- 
2.43.0


From 74ef2c55f3a5feb5800da8b02d36c5d2cc16a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:35 +0000
Subject: [PATCH 40/62] fix: write the character set of a column right after
 its type

---
 mygrations/core/definitions/columns/column.py        |  5 +++++
 mygrations/formats/mysql/definitions/columns/enum.py | 12 ++++++++++++
 .../formats/mysql/definitions/columns/string.py      | 12 ++++++++++++
 3 files changed, 29 insertions(+)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index a827bf9..ffe4f36 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -215,6 +215,7 @@ class Column(Base):
         elif self.length is not None and self.length != "":
             type_string += "(%s)" % self.length
         parts.append(type_string)
+        parts.extend(self._type_attributes())
 
         if self.unsigned:
             parts.append("UNSIGNED")
@@ -238,6 +239,10 @@ class Column(Base):
 
         return " ".join(parts)
 
+    def _type_attributes(self) -> List[str]:
+        """Returns the parts of the definition which have to follow the type immediately"""
+        return []
+
     # the length which the server uses (and displays) if none is given
     _implied_lengths = {"DECIMAL": "10,0", "NUMERIC": "10,0", "CHAR": "1", "BINARY": "1", "BIT": "1"}
 
diff --git a/mygrations/formats/mysql/definitions/columns/enum.py b/mygrations/formats/mysql/definitions/columns/enum.py
index f6a60c7..52c7f88 100644
--- a/mygrations/formats/mysql/definitions/columns/enum.py
+++ b/mygrations/formats/mysql/definitions/columns/enum.py
@@ -1,4 +1,5 @@
 from mygrations.core.definitions.columns.enum import Enum as EnumBase
+from mygrations.core.definitions.columns.column import Column
 from typing import List, Union
 class Enum(EnumBase):
     def __init__(
@@ -34,3 +35,14 @@ class Enum(EnumBase):
             parsing_warnings=parsing_warnings,
             unsigned=unsigned,
         )
+
+    def _type_attributes(self) -> List[str]:
+        # MySQL takes the character set as a part of the type: it is a syntax error after NOT NULL or DEFAULT
+        return [f"CHARACTER SET '{self.character_set}'"] if self.character_set else []
+
+    def __str__(self) -> str:
+        as_string = Column.__str__(self)
+        if self.collate:
+            as_string += f" COLLATE '{self.collate}'"
+
+        return as_string
diff --git a/mygrations/formats/mysql/definitions/columns/string.py b/mygrations/formats/mysql/definitions/columns/string.py
index f7654b5..7978ccc 100644
--- a/mygrations/formats/mysql/definitions/columns/string.py
+++ b/mygrations/formats/mysql/definitions/columns/string.py
@@ -1,4 +1,5 @@
 from mygrations.core.definitions.columns.string import String as StringBase
+from mygrations.core.definitions.columns.column import Column
 from typing import List, Union
 class String(StringBase):
     def __init__(
@@ -34,3 +35,14 @@ class String(StringBase):
             parsing_warnings=parsing_warnings,
             unsigned=unsigned,
         )
+
+    def _type_attributes(self) -> List[str]:
+        # MySQL takes the character set as a part of the type: it is a syntax error after NOT NULL or DEFAULT
+        return [f"CHARACTER SET '{self.character_set}'"] if self.character_set else []
+
+    def __str__(self) -> str:
+        as_string = Column.__str__(self)
+        if self.collate:
+            as_string += f" COLLATE '{self.collate}'"
+
+        return as_string
-- 
2.43.0


From 68f299f07ed572993be770c977d9dce5b42342ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:59 +0000
Subject: [PATCH 41/62] fix: apply a declared character set or collation which
 the live column does not spell out

---
 mygrations/formats/mysql/definitions/table.py | 62 ++++++++++++++++---
 .../formats/mysql/mygrations/mygration.py     | 21 ++-----
 2 files changed, 58 insertions(+), 25 deletions(-)

diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index 5d75c3b..82be8b5 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -28,6 +28,59 @@ class Table(BaseTable):
         """
         return CreateTable(self, nice)
 
+    # the collations that MySQL (5.7 or 8.0) doesn't display because they are the default of the character set
+    _default_collations = {
+        "ASCII": ["ASCII_GENERAL_CI"],
+        "BINARY": ["BINARY"],
+        "LATIN1": ["LATIN1_SWEDISH_CI"],
+        "UCS2": ["UCS2_GENERAL_CI"],
+        "UTF16": ["UTF16_GENERAL_CI"],
+        "UTF32": ["UTF32_GENERAL_CI"],
+        "UTF8": ["UTF8_GENERAL_CI"],
+        "UTF8MB3": ["UTF8_GENERAL_CI", "UTF8MB3_GENERAL_CI"],
+        "UTF8MB4": ["UTF8MB4_GENERAL_CI", "UTF8MB4_0900_AI_CI"],
+    }
+
+    def _implied_character_set_and_collations(self, column):
+        """Returns the character set and the possible collations of a column, whether or not it spells them out
+
+        :returns: A character set or None if it isn't known, and a list of collations
+        :rtype: tuple(str, list)
+        """
+        character_set, collate = column.character_set, column.collate
+        if not character_set and not collate:
+            options = {option.name.upper().split()[-1]: option.value.strip("'\"").upper() for option in self.options}
+            character_set = options.get("CHARSET", options.get("SET"))
+            collate = options.get("COLLATE")
+        if not character_set and collate:
+            character_set = collate.split("_")[0]
+        return (character_set, [collate] if collate else self._default_collations.get(character_set, []))
+
+    def column_will_change(self, column):
+        """Checks if a column has to be changed to become the given one
+
+        :param column: The column as it should be
+        :type column: mygrations.core.definitions.columns.column.Column
+        :rtype: bool
+        """
+        current = self.columns[column.name]
+
+        # it's really easy to tell if a column changed
+        if str(current) == str(column):
+            return False
+
+        # FALSE POSITIVE CHECK:
+        # if one column has collate/character set and the other doesn't, and that is the only difference,
+        # then ignore this difference...
+        if not current.is_really_the_same_as(column):
+            return True
+
+        # ...unless the one that isn't spelled out is known to be another one
+        (character_set, collations) = self._implied_character_set_and_collations(current)
+        if column.character_set and character_set and column.character_set != character_set:
+            return True
+        return bool(column.collate and collations and column.collate not in collations)
+
     def to(self, comparison_table, split_operations=False):
         """Compares two tables to eachother and returns a list of operations which can bring the structure of the second in line with the first
 
@@ -74,14 +127,7 @@ class Table(BaseTable):
             )
 
         for overlap_column in overlap_columns:
-            # it's really easy to tell if a column changed
-            if str(self.columns[overlap_column]) == str(comparison_table.columns[overlap_column]):
-                continue
-
-            # FALSE POSITIVE CHECK:
-            # if one column has collate/character set and the other doesn't, and that is the only difference,
-            # then ignore this difference
-            if self.columns[overlap_column].is_really_the_same_as(comparison_table.columns[overlap_column]):
+            if not self.column_will_change(comparison_table.columns[overlap_column]):
                 continue
 
             primary_alter.add_operation(ChangeColumn(comparison_table.columns[overlap_column]))
diff --git a/mygrations/formats/mysql/mygrations/mygration.py b/mygrations/formats/mysql/mygrations/mygration.py
index d232929..611a875 100644
--- a/mygrations/formats/mysql/mygrations/mygration.py
+++ b/mygrations/formats/mysql/mygrations/mygration.py
@@ -205,7 +205,7 @@ class Mygration:
             column_name = constraint.foreign_column_name
             if not source_table.column_is_indexed(column_name):
                 return True
-            if self._column_will_change(source_table.columns[column_name], target_table.columns[column_name]):
+            if source_table.column_will_change(target_table.columns[column_name]):
                 return True
         return False
 
@@ -239,9 +239,9 @@ class Mygration:
                     continue
                 source_col = source_table.columns[col_name]
                 target_col = target_table.columns[col_name]
-                if self._column_will_change(source_col, target_col) and self._column_type_differs(
-                    source_col, target_col
-                ):
+                # Display widths of integers or a character set/collation which only one side spells
+                # out are not real differences: no CHANGE is emitted, so there is no reason to cycle FKs.
+                if source_table.column_will_change(target_col) and self._column_type_differs(source_col, target_col):
                     changing_columns[(table_name, col_name)] = True
 
         if not changing_columns:
@@ -375,19 +375,6 @@ class Mygration:
                 return target_constraint
         return None
 
-    def _column_will_change(self, source_col, target_col):
-        """Checks if table.to() will actually emit a CHANGE for the column.
-
-        Display widths of integers or a character set/collation which only one side spells
-        out are not real differences: no CHANGE is emitted, so there is no reason to cycle FKs.
-
-        :param source_col: The source (live DB) column
-        :param target_col: The target (SQL files) column
-        :returns: True if the column is going to be changed
-        :rtype: bool
-        """
-        return str(source_col) != str(target_col) and not source_col.is_really_the_same_as(target_col)
-
     def _column_type_differs(self, source_col, target_col):
         """Checks if two columns differ in their type attributes (type, length, unsigned).
 
-- 
2.43.0


From 7e08b1ca46482ad64ccd83e16952b362f20165e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:24 +0000
Subject: [PATCH 42/62] fix: read columns of a primary key and AUTO_INCREMENT
 columns as NOT NULL, as the server displays them

---
 mygrations/formats/mysql/file_reader/create_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 1562c69..657e8bc 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -141,5 +141,10 @@ class CreateParser(Table, Parser):
             else:
                 raise ValueError(f"Found unknown definition of type {definition.__class__}")
 
+        # columns of the primary key and AUTO_INCREMENT columns are NOT NULL, whether or not that is spelled out
+        for column in self._columns.values():
+            if column.auto_increment or (self._primary and column.name in self._primary.columns):
+                column._null = False
+
         if not self.semicolon:
             self._global_errors.append("Missing ending semicolon for table %s" % self._name)
-- 
2.43.0


From 89eeb23b6f060b9b4c6a711320e6b84907811767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:29 +0000
Subject: [PATCH 43/62] fix: report an empty default which an ENUM does not
 allow

---
 mygrations/core/definitions/columns/enum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/columns/enum.py b/mygrations/core/definitions/columns/enum.py
index 65ed243..5f4c8d7 100644
--- a/mygrations/core/definitions/columns/enum.py
+++ b/mygrations/core/definitions/columns/enum.py
@@ -46,7 +46,9 @@ class Enum(String):
         if not self.enum_values or type(self.enum_values) != list:
             self._schema_errors.append(f"column '{self.name}' of type '{self.column_type}' must have a list of values")
 
-        if self.default and self.default not in (self.enum_values or []):
+        # the empty string is the empty set, so a SET always allows it
+        allowed = [*(self.enum_values or []), *([''] if self.column_type == 'SET' else [])]
+        if self.default is not None and self.default not in allowed:
             self._schema_errors.append(
                 f"Default value for '{self.column_type}' column '{self.name}' is not in the list of allowed values"
             )
-- 
2.43.0


From a8e4a1c7d3926dbab8931ad0577232e481ae6353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:55 +0000
Subject: [PATCH 44/62] fix: report numeric defaults which are no numbers in
 SQL

---
 mygrations/core/definitions/columns/numeric.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index abd3388..052c056 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -1,3 +1,4 @@
+import re
 from decimal import Decimal, ROUND_HALF_UP
 
 from .column import Column
@@ -68,16 +69,12 @@ class Numeric(Column):
         elif type(self.default) == float:
             default_type = "float"
         elif type(self.default) == str:
+            # int() and float() would accept things which are no numbers in SQL (1_000, nan, infinity)
             default_type = "str"
-            try:
-                int(self.default)
+            if re.fullmatch(r"[+-]?[0-9]+", self.default):
                 default_type = "int"
-            except:
-                try:
-                    float(self.default)
-                    default_type = "float"
-                except:
-                    pass
+            elif re.fullmatch(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?", self.default):
+                default_type = "float"
 
         if default_type == "str":
             self._schema_errors.append(
-- 
2.43.0


From 548410b72ff74da47571d5003a08ff9e9881dde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:59 +0000
Subject: [PATCH 45/62] fix: report over-long table and column names

---
 mygrations/core/definitions/columns/column.py | 2 ++
 mygrations/core/definitions/table.py          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index ffe4f36..2605d9b 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -191,6 +191,8 @@ class Column(Base):
 
         if not self.name:
             self._schema_errors.append("Column does not have a name")
+        elif len(self.name) > 64:
+            self._schema_errors.append(f"Column name {self.name} must be <=64 characters long")
         if not self.column_type:
             self._schema_errors.append(f"Missing column_type for column {self.name}")
 
diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 1c43000..005e392 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -162,6 +162,8 @@ class Table:
 
         if not self.name:
             self._schema_errors.append("Table missing name")
+        elif len(self.name) > 64:
+            self._schema_errors.append(f"Table name '{self.name}' must be <=64 characters long")
         if not len(self.columns):
             self._schema_errors.append(f"Table '{self.name}' does not have any columns")
 
-- 
2.43.0


From d5a11560c262fadddd52fdde9b7a3d78f763f76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:56 +0000
Subject: [PATCH 46/62] fix: report AUTO_INCREMENT on decimals and UNSIGNED on
 bits

---
 mygrations/core/definitions/columns/numeric.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/columns/numeric.py b/mygrations/core/definitions/columns/numeric.py
index 052c056..25ac1ed 100644
--- a/mygrations/core/definitions/columns/numeric.py
+++ b/mygrations/core/definitions/columns/numeric.py
@@ -59,7 +59,7 @@ class Numeric(Column):
 
         allow_float = ["DECIMAL", "NUMERIC", "FLOAT", "DOUBLE"]
         no_length = ["FLOAT", "DOUBLE", "BIT"]
-        no_auto_increment = ["FLOAT", "DOUBLE", "BIT"]
+        no_auto_increment = ["DECIMAL", "NUMERIC", "FLOAT", "DOUBLE", "BIT"]
 
         # I should probably have the parser auto-convert the type based on quotes/whatever, but
         # currently it doesn't and I'm apparently being lazy.  I'll probably regret this.
@@ -104,6 +104,9 @@ class Numeric(Column):
         if self.auto_increment and self.column_type in no_auto_increment:
             self._schema_errors.append(f"Column '{self.name}' of type '{self.column_type}' cannot be an AUTO_INCREMENT")
 
+        if self.unsigned and self.column_type == "BIT":
+            self._schema_errors.append(f"Column '{self.name}' of type 'BIT' cannot be unsigned")
+
         if self.enum_values:
             self._schema_errors.append(
                 "Column '%s' of type %s is not allowed to have a list of values for its length"
-- 
2.43.0


From eb87db1dd92ef73f9c5c41e51ed3874fa95f37b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:33 +0000
Subject: [PATCH 47/62] fix: read directories whose name holds characters that
 are special to glob

---
 mygrations/formats/mysql/file_reader/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/database.py b/mygrations/formats/mysql/file_reader/database.py
index 0289b0b..3674602 100644
--- a/mygrations/formats/mysql/file_reader/database.py
+++ b/mygrations/formats/mysql/file_reader/database.py
@@ -64,7 +64,7 @@ class Database(BaseDatabase):
         if directory[-1] != os.sep:
             directory += os.sep
 
-        for filename in glob.glob('%s*.sql' % directory):
+        for filename in glob.glob('%s*.sql' % glob.escape(directory)):
             self._read(filename)
 
     def _read(self, contents):
-- 
2.43.0


From 67e4255c7985b8c8c9c57f784b6323a79774ab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:35 +0000
Subject: [PATCH 48/62] fix: errors of a database and primary keys of tables
 follow from their present content

---
 mygrations/core/definitions/database.py       | 38 ++-----------------
 mygrations/core/definitions/table.py          | 14 +------
 .../mysql/file_reader/create_parser.py        |  3 +-
 3 files changed, 7 insertions(+), 48 deletions(-)

diff --git a/mygrations/core/definitions/database.py b/mygrations/core/definitions/database.py
index b8a4ab3..0d82e6e 100644
--- a/mygrations/core/definitions/database.py
+++ b/mygrations/core/definitions/database.py
@@ -1,8 +1,4 @@
 class Database:
-    _parsing_errors = None
-    _schema_errors = None
-    _parsing_warnings = None
-    _schema_warnings = None
     _tables = None
     _rows = None
     _global_errors = None
@@ -64,32 +60,22 @@ class Database:
         :return: List of warning messages
         :rtype: list
         """
-        if self._schema_warnings is not None:
-            return self._schema_warnings
-
-        self._schema_warnings = [
+        return [
             *self.find_all_row_schema_warnings(),
             *self.find_all_table_schema_warnings(),
         ]
 
-        return self._schema_warnings
-
     def find_schema_errors(self):
         """ Returns a list of human-readable error messages (strings) that give any errors about the schema itself.
         :return: List of error messages
         :rtype: list
         """
-        if self._schema_errors is not None:
-            return self._schema_errors
-
-        self._schema_errors = [
+        return [
             *self.find_all_database_schema_errors(),
             *self.find_all_table_schema_errors(),
             *self.find_all_row_schema_errors(),
         ]
 
-        return self._schema_errors
-
     def find_all_row_schema_errors(self):
         """ Returns a list of any schema error messages for the rows in this database
 
@@ -192,31 +178,21 @@ class Database:
         :return: List of error messages
         :rtype: list
         """
-        if self._parsing_errors is not None:
-            return self._parsing_errors
-
-        self._parsing_errors = [
+        return [
             *self.find_all_table_parsing_errors(),
             *self.find_all_row_parsing_errors(),
         ]
 
-        return self._parsing_errors
-
     def find_parsing_warnings(self):
         """ Returns a list of human-readable error messages (strings) that give any errors from the parsing process
         :return: List of error messages
         :rtype: list
         """
-        if self._parsing_warnings is not None:
-            return self._parsing_warnings
-
-        self._parsing_warnings = [
+        return [
             *self.find_all_table_parsing_warnings(),
             *self.find_all_row_parsing_warnings(),
         ]
 
-        return self._parsing_warnings
-
     def find_all_table_parsing_errors(self):
         """ Returns a list of human-readable error messages (strings) from the table parsing process
         :return: List of error messages
@@ -377,8 +353,6 @@ class Database:
         if table.name in self._tables:
             raise ValueError('Cannot add table %s to database because it already exists' % table.name)
 
-        self._schema_errors = None
-        self._schema_warnings = None
         self._tables[table.name] = table
 
     def remove_table(self, table):
@@ -390,8 +364,6 @@ class Database:
         if not table.name in self._tables:
             raise ValueError('Cannot remove table %s from database because it does not exist' % table.name)
 
-        self._schema_errors = None
-        self._schema_warnings = None
         self._tables.pop(table.name, None)
 
     def apply_operation(self, table_name, operation):
@@ -409,8 +381,6 @@ class Database:
             raise ValueError('Cannot apply operation to table %s because that table does not exist' % table_name)
 
         # the table applies the operation
-        self._schema_errors = None
-        self._schema_warnings = None
         self._tables[table_name].apply_operation(operation)
 
     def apply_to_source(self, operation):
diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 005e392..9183014 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -16,7 +16,6 @@ class Table:
     _indexed_columns = None
     _name: str = ""
     _options: List[Option] = None
-    _primary: Index = None
     _rows: Dict[int, List[Union[str, int]]] = None
     _tracking_rows: bool = False
     _schema_errors: List[str] = None
@@ -34,7 +33,6 @@ class Table:
     ):
         self._name = name
         self._options = [*options] if options else []
-        self._primary = None
         self._constraints = {}
         self._columns = OrderedDict()
         self._indexes = {}
@@ -270,7 +268,7 @@ class Table:
     @property
     def primary(self) -> Index:
         """Public getter.  Returns the index object for the primary key"""
-        return self._primary
+        return next((index for index in self._indexes.values() if index.is_primary()), None)
 
     @property
     def rows(self) -> Dict[int, List[Union[str, int]]]:
@@ -494,8 +492,6 @@ class Table:
         self._schema_warnings = None
         if index.name in self._indexes:
             raise ValueError("Cannot add index %s because index %s already exists" % (index.name, index.name))
-        if index.index_type == "PRIMARY":
-            self._primary = index
         self._indexes[index.name] = index
 
         if self._indexed_columns is not None:
@@ -509,9 +505,7 @@ class Table:
         if index_name not in self._indexes:
             raise ValueError("Cannot remove index %s because index %s does not exist" % (index_name, index_name))
 
-        removed = self._indexes.pop(index_name, None)
-        if removed is self._primary:
-            self._primary = None
+        self._indexes.pop(index_name, None)
         # another index may still start with the same column
         self._indexed_columns = None
 
@@ -524,10 +518,6 @@ class Table:
                 "Cannot modify index %s because index %s does not exist" % (new_index.name, new_index.name)
             )
 
-        if self._indexes[new_index.name] is self._primary:
-            self._primary = None
-        if new_index.is_primary():
-            self._primary = new_index
         self._indexes[new_index.name] = new_index
         # another index may still start with the same column
         self._indexed_columns = None
diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 657e8bc..0c7232c 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -94,7 +94,6 @@ class CreateParser(Table, Parser):
         self._columns = OrderedDict()
         self._indexes = OrderedDict()
         self._constraints = OrderedDict()
-        self._primary = ""
 
         # ignore the AUTO_INCREMENT option: there is no reason for us to ever manage that
         self._options = [opt for opt in self._options if opt.name != "AUTO_INCREMENT"]
@@ -143,7 +142,7 @@ class CreateParser(Table, Parser):
 
         # columns of the primary key and AUTO_INCREMENT columns are NOT NULL, whether or not that is spelled out
         for column in self._columns.values():
-            if column.auto_increment or (self._primary and column.name in self._primary.columns):
+            if column.auto_increment or (self.primary and column.name in self.primary.columns):
                 column._null = False
 
         if not self.semicolon:
-- 
2.43.0


From 3eb479cb3b5336324e89f997c22f88f6e54b3a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:06 +0000
Subject: [PATCH 49/62] fix: report SET NULL on the columns of primary keys
 built through the API

---
 mygrations/core/definitions/database.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mygrations/core/definitions/database.py b/mygrations/core/definitions/database.py
index 0d82e6e..b2f3704 100644
--- a/mygrations/core/definitions/database.py
+++ b/mygrations/core/definitions/database.py
@@ -295,8 +295,12 @@ class Database:
                 constraint.name, foreign_table.name, foreign_column.name, table.name, table_column.name
             )
 
-        # if the constraint has a SET NULL but the column cannot be null, then 1215
-        if (constraint.on_delete == 'SET NULL' or constraint.on_update == 'SET NULL') and not table_column.null:
+        # if the constraint has a SET NULL but the column cannot be null, then 1215 (the columns of a primary
+        # key and AUTO_INCREMENT columns never can, even if they don't say so)
+        nullable = table_column.null and not table_column.auto_increment and not any(
+            index.is_primary() and table_column.name in index.columns for index in table.indexes.values()
+        )
+        if (constraint.on_delete == 'SET NULL' or constraint.on_update == 'SET NULL') and not nullable:
             message_parts = []
             if constraint.on_delete == 'SET NULL':
                 message_parts.append('ON DELETE')
-- 
2.43.0


From c900f5fe102b871a1b3b7de946058021d6ed1abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 50/62] fix: read and write quoted defaults and ENUM/SET values
 with any text in them

---
 mygrations/core/definitions/columns/column.py |  8 ++++--
 .../formats/mysql/file_reader/parsers/type.py | 25 +++++++++++++------
 .../file_reader/parsers/type_character.py     |  6 ++---
 .../mysql/file_reader/parsers/type_decimal.py |  6 ++---
 .../mysql/file_reader/parsers/type_enum.py    | 10 ++++----
 .../mysql/file_reader/parsers/type_numeric.py |  6 ++---
 .../mysql/file_reader/parsers/type_plain.py   |  5 ++--
 .../mysql/file_reader/parsers/type_text.py    |  6 ++---
 8 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/mygrations/core/definitions/columns/column.py b/mygrations/core/definitions/columns/column.py
index 2605d9b..870030d 100644
--- a/mygrations/core/definitions/columns/column.py
+++ b/mygrations/core/definitions/columns/column.py
@@ -213,7 +213,7 @@ class Column(Base):
 
         type_string = self.column_type
         if self.enum_values:
-            type_string += "('%s')" % ("', '".join(self.enum_values))
+            type_string += "('%s')" % ("', '".join([self._escape(value) for value in self.enum_values]))
         elif self.length is not None and self.length != "":
             type_string += "(%s)" % self.length
         parts.append(type_string)
@@ -234,13 +234,17 @@ class Column(Base):
                 # this is an expression: as a string it would be an invalid date
                 parts.append("DEFAULT CURRENT_TIMESTAMP")
             else:
-                parts.append("DEFAULT '%s'" % self.default)
+                parts.append("DEFAULT '%s'" % self._escape(self.default))
 
         if self.auto_increment:
             parts.append("AUTO_INCREMENT")
 
         return " ".join(parts)
 
+    def _escape(self, text: str) -> str:
+        """Returns the given text such that it can stand between single quotes"""
+        return str(text).replace("\\", "\\\\").replace("'", "\\'")
+
     def _type_attributes(self) -> List[str]:
         """Returns the parts of the definition which have to follow the type immediately"""
         return []
diff --git a/mygrations/formats/mysql/file_reader/parsers/type.py b/mygrations/formats/mysql/file_reader/parsers/type.py
index 29b97d2..83bac18 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type.py
@@ -5,16 +5,27 @@ from mygrations.core.definitions.columns.column import Column
 
 
 class Type:
+    # a quoted text (which may hold spaces, commas, parentheses and escaped quotes), or everything up to those
+    default_regexp = r"""DEFAULT ('(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*"|[^\(\s\),'"][^\(\s\),]*)"""
+
     @staticmethod
-    def _unquote(value):
-        """Strip surrounding single quotes from *value* if present.
+    def _is_quoted(value):
+        """Return True if *value* is a text in single or double quotes."""
+        return bool(value) and len(value) >= 2 and value[0] in ("'", '"') and value[-1] == value[0]
+
+    @classmethod
+    def _unquote(cls, value):
+        """Return the text that *value* stands for if it is quoted.
 
-        Returns the stripped string, or the original value unchanged if
-        it is not quoted.
+        Returns the original value unchanged if it is not quoted.
         """
-        if value and len(value) >= 2 and value[0] == "'" and value[-1] == "'":
-            return value.strip("'")
-        return value
+        if not cls._is_quoted(value):
+            return value
+
+        # a backslash in front of anything else stands for itself
+        return re.sub(
+            r"\\([\\'\"])|%s(%s)" % (value[0], value[0]), lambda match: match.group(1) or match.group(2), value[1:-1]
+        )
 
     def _init_errors(self):
         """Initialise the parsing/schema error and warning lists."""
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_character.py b/mygrations/formats/mysql/file_reader/parsers/type_character.py
index e60381f..2b46091 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_character.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_character.py
@@ -37,7 +37,7 @@ class TypeCharacter(Parser, Type):
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "optional": True, "name": "default"},
+        {"type": "regexp", "value": Type.default_regexp, "optional": True, "name": "default"},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
@@ -57,8 +57,8 @@ class TypeCharacter(Parser, Type):
         self._collate = self._unquote(self._values.get("collate"))
 
         # make sense of the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
         elif self._default:
             if self._default.lower() == "null":
                 self._default = None
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
index 6894aac..8aadcfd 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_decimal.py
@@ -19,7 +19,7 @@ class TypeDecimal(Parser, Type):
         {"type": "literal", "value": "UNSIGNED", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "optional": True, "name": "default"},
+        {"type": "regexp", "value": Type.default_regexp, "optional": True, "name": "default"},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
     ]
 
@@ -36,8 +36,8 @@ class TypeDecimal(Parser, Type):
         self._default = self._values.get("default")
 
         # make sense of the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
             self._parsing_warnings.append(
                 "Column '%s' has a numeric type but its default value is a string" % self._name
             )
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_enum.py b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
index 361033b..0320723 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_enum.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_enum.py
@@ -12,13 +12,13 @@ class TypeEnum(Parser, Type):
         {"type": "regexp", "value": "[^\(\s\)]+", "name": "name"},
         {"type": "regexp", "value": "\w+", "name": "type"},
         {"type": "literal", "value": "("},
-        {"type": "delimited", "name": "enum_values", "quote": "'", "separator": ","},
+        {"type": "delimited", "name": "enum_values", "quote": "'", "separator": ",", "raw": True},
         {"type": "literal", "value": ")"},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "optional": True, "name": "default"},
+        {"type": "regexp", "value": Type.default_regexp, "optional": True, "name": "default"},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
@@ -29,7 +29,7 @@ class TypeEnum(Parser, Type):
         self._init_errors()
         self._name = self._extract_name()
         self._column_type = self._values["type"]
-        self._enum_values = self._values["enum_values"]
+        self._enum_values = [self._unquote(value) for value in self._values["enum_values"]]
         self._null = self._extract_null()
         self._has_default = "default" in self._values
         self._default = self._values.get("default")
@@ -37,8 +37,8 @@ class TypeEnum(Parser, Type):
         self._collate = self._unquote(self._values.get("collate"))
 
         # make sense of the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
         elif self._default:
             if self._default.lower() == "null":
                 self._default = None
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
index e4afca8..5d78439 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_numeric.py
@@ -29,7 +29,7 @@ class TypeNumeric(Parser, Type):
         {"type": "literal", "value": "UNSIGNED", "optional": True},
         {"type": "literal", "value": "NULL", "optional": True, "name": "bare_null"},
         {"type": "literal", "value": "NOT NULL", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "name": "default", "optional": True},
+        {"type": "regexp", "value": Type.default_regexp, "name": "default", "optional": True},
         {"type": "literal", "value": "AUTO_INCREMENT", "optional": True},
         {"type": "literal", "value": ",", "optional": True, "name": "ending_comma"},
     ]
@@ -48,8 +48,8 @@ class TypeNumeric(Parser, Type):
         self.is_char = self._column_type in ["char", "varchar"]
 
         # make sense of the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
         elif self._default:
             if self._default.lower() == "null":
                 self._default = None
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_plain.py b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
index b40e14a..630ca43 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_plain.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_plain.py
@@ -21,7 +21,7 @@ class TypePlain(Parser, Type):
         {"type": "literal", "value": "PRIMARY KEY", "optional": True},
         {
             "type": "regexp",
-            "value": "DEFAULT ([^\(\s\),]+)",
+            "value": Type.default_regexp,
             "optional": True,
             "name": "default",
         },
@@ -41,7 +41,7 @@ class TypePlain(Parser, Type):
         self._column_type = self._normalize_type(self._values["type"])
         self._unsigned = "UNSIGNED" in self._values
         self._has_default = "default" in self._values
-        self._default = self._unquote(self._values.get("default"))
+        self._default = self._values.get("default")
         self._auto_increment = "AUTO_INCREMENT" in self._values
         self._is_primary_key = "PRIMARY KEY" in self._values
 
@@ -67,3 +67,4 @@ class TypePlain(Parser, Type):
         # make sense of the default
         if self._default and self._default.lower() == "null":
             self._default = None
+        self._default = self._unquote(self._default)
diff --git a/mygrations/formats/mysql/file_reader/parsers/type_text.py b/mygrations/formats/mysql/file_reader/parsers/type_text.py
index 1f44ae4..fef8c81 100644
--- a/mygrations/formats/mysql/file_reader/parsers/type_text.py
+++ b/mygrations/formats/mysql/file_reader/parsers/type_text.py
@@ -29,7 +29,7 @@ class TypeText(Parser, Type):
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
-        {"type": "regexp", "value": "DEFAULT ([^\(\s\),]+)", "optional": True, "name": "default"},
+        {"type": "regexp", "value": Type.default_regexp, "optional": True, "name": "default"},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
         {"type": "regexp", "value": "CHARACTER SET ([^\(\s\),]+)", "name": "character_set", "optional": True},
         {"type": "regexp", "value": "COLLATE ([^\(\s\),]+)", "name": "collate", "optional": True},
@@ -49,8 +49,8 @@ class TypeText(Parser, Type):
         self._collate = self._unquote(self._values.get("collate"))
 
         # slightly more work on the default
-        if self._default and len(self._default) >= 2 and self._default[0] == "'" and self._default[-1] == "'":
-            self._default = self._default.strip("'")
+        if self._is_quoted(self._default):
+            self._default = self._unquote(self._default)
         elif self._default:
             if self._default.lower() == "null":
                 self._default = None
-- 
2.43.0


From a157879693d1716c82e04d16339518c8887a4a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 51/62] fix: read table options with quoted values or commas
 between them

---
 .../formats/mysql/file_reader/parsers/table_option.py     | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/table_option.py b/mygrations/formats/mysql/file_reader/parsers/table_option.py
index 4e45a14..f7ef20c 100644
--- a/mygrations/formats/mysql/file_reader/parsers/table_option.py
+++ b/mygrations/formats/mysql/file_reader/parsers/table_option.py
@@ -7,15 +7,19 @@ class TableOption(Parser):
     # UNIQUE account_id (account_id)
     rules = [{
         'type': 'regexp',
-        'value': '[^=]{1,30}',
+        'value': '[\w ]{1,30}',
         'name': 'name'
     }, {
         'type': 'literal',
         'value': '='
     }, {
         'type': 'regexp',
-        'value': '[^\s;]+',
+        'value': r'''("(?:[^"\\]|\\.|"")*"|'(?:[^'\\]|\\.|'')*'|[^\s;,'"]+)''',
         'name': 'value'
+    }, {
+        'type': 'literal',
+        'value': ',',
+        'optional': True
     }]
 
     def process(self):
-- 
2.43.0


From 339314d8b05308eb2f61e971c5c04e0ea18f4732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 52/62] fix: ignore the AUTO_INCREMENT table option in lower
 case too

---
 mygrations/formats/mysql/file_reader/create_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/create_parser.py b/mygrations/formats/mysql/file_reader/create_parser.py
index 0c7232c..2190834 100644
--- a/mygrations/formats/mysql/file_reader/create_parser.py
+++ b/mygrations/formats/mysql/file_reader/create_parser.py
@@ -96,7 +96,7 @@ class CreateParser(Table, Parser):
         self._constraints = OrderedDict()
 
         # ignore the AUTO_INCREMENT option: there is no reason for us to ever manage that
-        self._options = [opt for opt in self._options if opt.name != "AUTO_INCREMENT"]
+        self._options = [opt for opt in self._options if opt.name.upper() != "AUTO_INCREMENT"]
 
         for definition in self._definitions:
             if hasattr(definition, "as_definition"):
-- 
2.43.0


From c7023fed899ef097cdf987132ac01a3a0e414721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:24 +0000
Subject: [PATCH 53/62] fix: compare declared and stored row values as numbers,
 times and bytes, and NULL only with NULL

---
 mygrations/core/definitions/table.py | 31 +++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 9183014..7ebecc7 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -1,6 +1,8 @@
 from __future__ import annotations
 from typing import Any, Dict, List, Set, Union
 from collections import OrderedDict
+from datetime import timedelta
+from decimal import Decimal, InvalidOperation
 from .rows import Rows
 from .option import Option
 from .columns.column import Column
@@ -560,12 +562,39 @@ class Table:
 
         Returns true if the two values are equal, even if one is a string and the other an int.
         """
+        # a missing value is only equal to a missing value (and not to the text 'None')
+        if val1 is None or val2 is None:
+            return val1 is val2
+
         # if we don't have a type mistmatch then this is easy
         if type(val1) == type(val2):
             return val1 == val2
 
+        # a number is the same number with or without leading or trailing zeros
+        if isinstance(val1, (int, float, Decimal)) or isinstance(val2, (int, float, Decimal)):
+            try:
+                return Decimal(str(val1)) == Decimal(str(val2))
+            except InvalidOperation:
+                return False
+
         # otherwise see if we can cheat and just convert to strings
-        return str(val1) == str(val2)
+        return self._as_text(val1) == self._as_text(val2)
+
+    def _as_text(self, value) -> str:
+        """Returns a value as the server would write it down"""
+        if isinstance(value, bytes):
+            return value.decode("utf-8", "replace")
+        if isinstance(value, timedelta):
+            seconds = abs(value) // timedelta(seconds=1)
+            fraction = abs(value) % timedelta(seconds=1)
+            return "%s%02d:%02d:%02d%s" % (
+                "-" if value < timedelta(0) else "",
+                seconds // 3600,
+                seconds // 60 % 60,
+                seconds % 60,
+                ".%06d" % fraction.microseconds if fraction else "",
+            )
+        return str(value)
 
     def to(self, comparison_table, split_operations=False):
         """Compares two tables to eachother and returns a list of operations which can bring the structure of the second in line with the first
-- 
2.43.0


From b29524bd5cb0c9dcb86510b81cc8a70dec444650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:24 +0000
Subject: [PATCH 54/62] fix: update rows when the plan adds one of their
 columns, and remove rows before adding others

---
 mygrations/formats/mysql/definitions/table.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mygrations/formats/mysql/definitions/table.py b/mygrations/formats/mysql/definitions/table.py
index 82be8b5..d0f81ee 100644
--- a/mygrations/formats/mysql/definitions/table.py
+++ b/mygrations/formats/mysql/definitions/table.py
@@ -239,17 +239,16 @@ class Table(BaseTable):
 
         (inserted_ids, deleted_ids, updated_ids) = self._differences(from_table.rows if from_table else {}, self.rows)
 
+        # rows that leave or change can make room for others (think of unique indexes), so new rows come last
         operations = []
-        for row_id in inserted_ids:
-            operations.append(RowInsert(self.name, self.rows[row_id]))
-
         for row_id in deleted_ids:
             operations.append(RowDelete(self.name, row_id))
 
         for row_id in updated_ids:
             # try to be smart and not update if we don't have to
             (inserted_cols, deleted_cols, updated_cols) = self._differences(self.rows[row_id], from_table.rows[row_id])
-            differences = False
+            # a column that the table does not have yet, has none of the values in it
+            differences = bool(deleted_cols)
             for col in updated_cols:
                 if not self._loose_equal(self.rows[row_id][col], from_table.rows[row_id][col]):
                     differences = True
@@ -258,4 +257,7 @@ class Table(BaseTable):
             if differences:
                 operations.append(RowUpdate(self.name, self.rows[row_id]))
 
+        for row_id in inserted_ids:
+            operations.append(RowInsert(self.name, self.rows[row_id]))
+
         return operations
-- 
2.43.0


From 67caff0de25d89e8f2b9d0a4568c6fc987908a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 55/62] fix: refuse lists with values next to each other or
 missing between separators

---
 mygrations/core/parse/rule_delimited.py | 31 +++++++++++++++++++++----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/mygrations/core/parse/rule_delimited.py b/mygrations/core/parse/rule_delimited.py
index 5cf5157..cd709a8 100644
--- a/mygrations/core/parse/rule_delimited.py
+++ b/mygrations/core/parse/rule_delimited.py
@@ -81,6 +81,7 @@ class RuleDelimited(RuleBase):
 
         # it's ugly, but we will do this one character at a time
         has_word = False
+        expected = True
         vals = []
         current = ''
         in_quote = False
@@ -105,6 +106,9 @@ class RuleDelimited(RuleBase):
 
                 # open word
                 if not in_quote:
+                    if has_word or not expected:
+                        return self._no_match(string)
+                    expected = False
                     in_quote = True
                     has_word = True
                     current = char if self.raw else ''
@@ -130,6 +134,11 @@ class RuleDelimited(RuleBase):
                 # if we hit a separator then we need to start a new word
                 if char == self.separator:
 
+                    # every separator stands between two values
+                    if expected:
+                        return self._no_match(string)
+                    expected = True
+
                     if has_word:
                         vals.append(current)
                         has_word = False
@@ -147,6 +156,10 @@ class RuleDelimited(RuleBase):
                     continue
 
                 # otherwise we have a character for a word
+                if not has_word:
+                    if not expected:
+                        return self._no_match(string)
+                    expected = False
                 has_word = True
                 current += char
                 continue
@@ -160,14 +173,22 @@ class RuleDelimited(RuleBase):
         if in_quote:
             raise SyntaxError("Opening quote without closing quote at %s" % string)
 
-        # did we match anything?
-        if not vals:
-            self.leftovers = string
-            self.result = ''
-            return False
+        # did we match anything, and was there a value after the last separator?
+        if not vals or expected:
+            return self._no_match(string)
 
         # almost done: one last step.  Remove everything that we parsed from string.
         # we know what index we stopped at, so it is easy.
         self.leftovers = string[index:]
         self.result = vals
         return True
+
+    def _no_match(self, string):
+        """ Leaves the string as it is
+
+        :returns: False
+        :rtype: bool
+        """
+        self.leftovers = string
+        self.result = ''
+        return False
-- 
2.43.0


From f881d234ad3e63c3b6727f04a9d800adefd629aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 56/62] fix: look for the configuration file in every directory
 up to the root

The root directory itself was never searched, and of a name with
directories in it (conf/x.conf, ../x.conf) only the last part was looked
for in the parents.
---
 mygrations/core/commands/base.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mygrations/core/commands/base.py b/mygrations/core/commands/base.py
index 97572ac..060a817 100644
--- a/mygrations/core/commands/base.py
+++ b/mygrations/core/commands/base.py
@@ -76,14 +76,17 @@ class Base(object):
                 raise ValueError("Specified configuration file '%s' does not exist" % file_path)
             return file_path
 
-        directories = ('%s/%s' % (os.getcwd(), file_path)).strip('/').split('/')
-        filename = directories.pop()
-        ndirectories = len(directories)
-        for i in range(ndirectories):
-            abs_path = '/%s/%s' % ('/'.join(directories[:ndirectories - i]), filename)
+        directory = os.getcwd()
+        while True:
+            abs_path = os.path.join(directory, file_path)
             if os.path.isfile(abs_path):
                 return abs_path
 
+            parent = os.path.dirname(directory)
+            if parent == directory:
+                break
+            directory = parent
+
         raise ValueError("Could not find configuration file '%s' in current directory or parents" % file_path)
 
     def _relative_to_config_abs_path(self, relative_path, config_abs_path):
-- 
2.43.0


From 851bb435940c43533618fec993accf9c51fbe8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 57/62] fix: keep blanks at the start of quoted settings with a
 comment

Stripping the value on the left moved it under the position of the closing
quote, so the quote became a part of the value.
---
 mygrations/helpers/dotenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/helpers/dotenv.py b/mygrations/helpers/dotenv.py
index 6866fc6..d3a3d97 100644
--- a/mygrations/helpers/dotenv.py
+++ b/mygrations/helpers/dotenv.py
@@ -170,7 +170,7 @@ class dotenv(dict):
 
             # check for a comment
             if value.count(comment, index):
-                value = value[:value.index(comment, index)].strip()
+                value = value[:value.index(comment, index)].rstrip()
 
             # our string should end at the closing quote, although safely ignore a closing semi-colon
             if len(value) > index + 1 and value[index + 1:].strip() != ';':
-- 
2.43.0


From e747ccbd151efbffe7ad653043716174dcfc4f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 58/62] fix: do not crash on environment texts that are JSON
 strings or numbers

Only a JSON object holds settings.
---
 mygrations/helpers/dotenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/helpers/dotenv.py b/mygrations/helpers/dotenv.py
index d3a3d97..afa355f 100644
--- a/mygrations/helpers/dotenv.py
+++ b/mygrations/helpers/dotenv.py
@@ -72,7 +72,7 @@ class dotenv(dict):
             pass
 
         # because if it is, this is very easy
-        if parsed:
+        if parsed and isinstance(parsed, dict):
             return parsed
 
         # This will hold our results
-- 
2.43.0


From 00529d9a0d95a41a7def06eaf3bdb43be1e04880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 59/62] fix: do not end a comment with the asterisk that starts
 it

/*/ starts a comment, it is not a whole one.
---
 mygrations/formats/mysql/file_reader/comment_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mygrations/formats/mysql/file_reader/comment_parser.py b/mygrations/formats/mysql/file_reader/comment_parser.py
index 8527380..0b653e6 100644
--- a/mygrations/formats/mysql/file_reader/comment_parser.py
+++ b/mygrations/formats/mysql/file_reader/comment_parser.py
@@ -62,12 +62,12 @@ class CommentParser(Parser):
         if self.sql[:2] != '/*':
             raise ValueError('SQL passed to comment parser did not start with a comment')
 
-        if not self.sql.count('*/'):
+        if not self.sql.count('*/', 2):
             self._parsing_errors.append('Could not find closing comment indicator, */')
             return self.sql
 
         # otherwise this is very straight-forward
-        index = self.sql.index('*/')
+        index = self.sql.index('*/', 2)
         self.comment = self.sql[2:index].strip()
         self._values = {'commment': self.comment}
         self.matched = True
-- 
2.43.0


From 4f2eb30655caad92594211406b5ea9d7a5432929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:11 +0000
Subject: [PATCH 60/62] fix: do not take the beginning of a word for a keyword

UNIQUE key_b (b) declared an index named _b, and a column named unique_id
of type VARCHAR(255) or ENUM was read as an index.
---
 mygrations/core/parse/rule_literal.py                      | 7 +++++++
 mygrations/formats/mysql/file_reader/parsers/index_key.py  | 2 +-
 .../formats/mysql/file_reader/parsers/index_unique.py      | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/mygrations/core/parse/rule_literal.py b/mygrations/core/parse/rule_literal.py
index 474b864..94b3a3c 100644
--- a/mygrations/core/parse/rule_literal.py
+++ b/mygrations/core/parse/rule_literal.py
@@ -1,3 +1,4 @@
+import re
 from .rule_base import RuleBase
 class RuleLiteral(RuleBase):
     """ rule = rule_children( parser, rule, next_rule )
@@ -50,6 +51,12 @@ class RuleLiteral(RuleBase):
             self.leftovers = string
             return False
 
+        # a keyword is not the beginning of a longer word
+        if re.match(r'\w[\w$]', string[val_len - 1:val_len + 1]):
+            self.result = ''
+            self.leftovers = string
+            return False
+
         # if we matched then clean!
         self.leftovers = string[val_len:].strip()
         self.result = self.literal
diff --git a/mygrations/formats/mysql/file_reader/parsers/index_key.py b/mygrations/formats/mysql/file_reader/parsers/index_key.py
index 9d6234c..35bc1b0 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_key.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_key.py
@@ -7,7 +7,7 @@ class IndexKey(Parser, Index):
 
     # KEY account_id (account_id,name)
     rules = [
-        {"type": "regexp", "name": "index_name", "value": "(KEY)|(INDEX)"},
+        {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)(?![\w$])"},
         {"type": "regexp", "name": "name", "value": "[^\(\s\)]+"},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
diff --git a/mygrations/formats/mysql/file_reader/parsers/index_unique.py b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
index becdf76..16cd95b 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_unique.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
@@ -8,7 +8,7 @@ class IndexUnique(Parser, Index):
     # UNIQUE account_id (account_id)
     rules = [
         {"type": "literal", "value": "UNIQUE"},
-        {"type": "regexp", "name": "index_name", "value": "(KEY)|(INDEX)", "optional": True},
+        {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)(?![\w$])", "optional": True},
         {"type": "regexp", "name": "name", "value": "[^\(]+", "optional": True},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
-- 
2.43.0


From 39327cb819e3fc2c2a29e4afd95a2d7951898c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 61/62] fix: report text between the parts of a UNIQUE key

Anything in front of the opening parenthesis became a part of its name.
---
 mygrations/formats/mysql/file_reader/parsers/index_unique.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/formats/mysql/file_reader/parsers/index_unique.py b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
index 16cd95b..8f46c6c 100644
--- a/mygrations/formats/mysql/file_reader/parsers/index_unique.py
+++ b/mygrations/formats/mysql/file_reader/parsers/index_unique.py
@@ -9,7 +9,7 @@ class IndexUnique(Parser, Index):
     rules = [
         {"type": "literal", "value": "UNIQUE"},
         {"type": "regexp", "name": "index_name", "value": r"(KEY|INDEX)(?![\w$])", "optional": True},
-        {"type": "regexp", "name": "name", "value": "[^\(]+", "optional": True},
+        {"type": "regexp", "name": "name", "value": r"`[^`]+`|[^\(\s\)`]+", "optional": True},
         {"type": "literal", "value": "("},
         {"type": "delimited", "name": "columns", "separator": ",", "quote": "`"},
         {"type": "literal", "value": ")"},
-- 
2.43.0


From 190bd1b007072a1f0fccbd593630ece50496c2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 62/62] fix: report rows with NULL for an id

The row was kept under the id 'None'.
---
 mygrations/core/definitions/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mygrations/core/definitions/table.py b/mygrations/core/definitions/table.py
index 7ebecc7..1a1fe84 100644
--- a/mygrations/core/definitions/table.py
+++ b/mygrations/core/definitions/table.py
@@ -327,7 +327,7 @@ class Table:
                 continue
 
             # we need to know the id of this record
-            row_id = str(values[id_index])
+            row_id = "" if values[id_index] is None else str(values[id_index])
             if not row_id:
                 self._global_errors.append(
                     "Row is missing a value for the id column for table %s and row %s" % (self._name, values)
-- 
2.43.0

