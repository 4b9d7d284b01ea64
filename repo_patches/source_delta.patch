From 3506263b2626a2f4673ae4a2c4778c8e3fe9d7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:10 +0000
Subject: [PATCH 01/41] fix: a model field named default no longer breaks the
 generated fields helper

---
 butane_core/src/codegen/dbobj.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/codegen/dbobj.rs b/butane_core/src/codegen/dbobj.rs
index 15235e7..73b4c3f 100644
--- a/butane_core/src/codegen/dbobj.rs
+++ b/butane_core/src/codegen/dbobj.rs
@@ -247,7 +247,7 @@ pub fn add_fieldexprs(ast_struct: &ItemStruct, config: &Config) -> TokenStream2
         impl #tyname {
             /// Get fields.
             pub fn fields() -> #fields_type {
-                #fields_type::default()
+                <#fields_type as std::default::Default>::default()
             }
         }
         /// Helper struct for butane model.
-- 
2.43.0


From 7c3be0416f5ad101d375e7a9704d061121b5df12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 02/41] fix: keep the grouping of nested filter conditions

AND, OR and NOT were written without parentheses, so a condition such as
and(or(a, b), c) was evaluated as or(a, and(b, c)). An empty list of
conditions or of values produced malformed SQL.
---
 butane_core/src/db/helper.rs | 57 ++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index b141d48..0f3029d 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -67,31 +67,40 @@ where
             Le(col, ex) => write!(w, "{col} <= ").and_then(|_| Ok(f(ex, values, pls, w))),
             Ge(col, ex) => write!(w, "{col} >= ").and_then(|_| Ok(f(ex, values, pls, w))),
             Like(col, ex) => write!(w, "{col} like ").and_then(|_| Ok(f(ex, values, pls, w))),
+            // An empty conjunction is true
+            AllOf(conds) if conds.is_empty() => write!(w, "TRUE"),
             AllOf(conds) => {
-                let mut remaining = conds.len();
+                // future perf improvement: figure out a clean way to avoid the extra boxing
+                let mut sep = "";
                 for cond in conds {
-                    // future perf improvement: figure out a clean way to avoid the extra boxing
-                    f(Condition(Box::new(cond)), values, pls, w);
-                    if remaining > 1 {
-                        write!(w, " AND ").unwrap();
-                        remaining -= 1;
-                    }
+                    w.write_str(sep).unwrap();
+                    let parens = matches!(cond, Or(..));
+                    operand(Box::new(cond), parens, &f, values, pls, w);
+                    sep = " AND ";
                 }
                 Ok(())
             }
             And(a, b) => {
-                f(Condition(a), values, pls, w);
+                let parens = matches!(*a, Or(..));
+                operand(a, parens, &f, values, pls, w);
                 write!(w, " AND ").unwrap();
-                f(Condition(b), values, pls, w);
+                let parens = matches!(*b, Or(..));
+                operand(b, parens, &f, values, pls, w);
                 Ok(())
             }
+            // OR binds loosest, so its operands never need parentheses.
             Or(a, b) => {
-                f(Condition(a), values, pls, w);
+                operand(a, false, &f, values, pls, w);
                 write!(w, " OR ").unwrap();
-                f(Condition(b), values, pls, w);
+                operand(b, false, &f, values, pls, w);
+                Ok(())
+            }
+            Not(a) => {
+                write!(w, "NOT ").unwrap();
+                let parens = matches!(*a, And(..) | Or(..) | AllOf(..));
+                operand(a, parens, &f, values, pls, w);
                 Ok(())
             }
-            Not(a) => write!(w, "NOT ").and_then(|_| Ok(f(Condition(a), values, pls, w))),
             Subquery {
                 col,
                 tbl2,
@@ -127,6 +136,8 @@ where
                 write!(w, ")").unwrap();
                 Ok(())
             }
+            // Nothing is a member of the empty set
+            In(_, vals) if vals.is_empty() => write!(w, "FALSE"),
             In(col, vals) => {
                 write!(w, "{} IN (", quote_reserved_word(col)).unwrap();
                 let mut remaining = vals.len();
@@ -144,6 +155,28 @@ where
     .unwrap()
 }
 
+/// Writes one operand of a boolean operator, in parentheses if it
+/// binds less tightly than the operator.
+fn operand<F, P, W>(
+    cond: Box<query::BoolExpr>,
+    parens: bool,
+    f: &F,
+    values: &mut Vec<SqlVal>,
+    pls: &mut P,
+    w: &mut W,
+) where
+    F: Fn(Expr, &mut Vec<SqlVal>, &mut P, &mut W),
+    W: Write,
+{
+    if parens {
+        write!(w, "(").unwrap();
+    }
+    f(Condition(cond), values, pls, w);
+    if parens {
+        write!(w, ")").unwrap();
+    }
+}
+
 pub fn sql_select(columns: &[Column], table: &str, w: &mut impl Write) {
     write!(w, "SELECT ").unwrap();
     list_columns(columns, w);
-- 
2.43.0


From 7c958d4fd3361bf7cf199035f49c8c61996faaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 03/41] fix: allow more than 127 parameters in a PostgreSQL
 statement

---
 butane_core/src/db/pg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index ce1accb..a63ab9a 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -935,7 +935,7 @@ fn pgtype_for_val(val: &SqlVal) -> postgres::types::Type {
 
 #[derive(Debug)]
 struct PgPlaceholderSource {
-    n: i8,
+    n: u32,
 }
 impl PgPlaceholderSource {
     fn new() -> Self {
-- 
2.43.0


From f58406eea21a3aa16d4c0ba73501748061339006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 04/41] fix: expand nested subqueries and those of deletes on
 Turso

---
 butane_core/src/db/turso.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 38635c5..772d8d4 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -218,6 +218,8 @@ impl TursoConnection {
         tbl2_col: &'static str,
         inner_expr: Box<BoolExpr>,
     ) -> Result<BoolExpr> {
+        // The condition may itself contain subqueries
+        let inner_expr = Box::new(Box::pin(self.transform_subqueries(*inner_expr)).await?);
         let mut sql = format!(
             "SELECT DISTINCT {} FROM {} WHERE ",
             helper::quote_reserved_word(tbl2_col),
@@ -244,6 +246,8 @@ impl TursoConnection {
         joins: Vec<query::Join>,
         inner_expr: Box<BoolExpr>,
     ) -> Result<BoolExpr> {
+        // The condition may itself contain subqueries
+        let inner_expr = Box::new(Box::pin(self.transform_subqueries(*inner_expr)).await?);
         let mut sql = String::new();
         write!(&mut sql, "SELECT DISTINCT ").unwrap();
         helper::sql_column(col2, &mut sql);
@@ -544,6 +548,7 @@ impl ConnectionMethods for TursoConnection {
     }
 
     async fn delete_where(&self, table: &str, expr: BoolExpr) -> Result<usize> {
+        let expr = self.transform_subqueries(expr).await?;
         let mut sql = format!("DELETE FROM {}", helper::quote_reserved_word(table));
         let mut values: Vec<SqlVal> = Vec::new();
         sql.write_str(" WHERE ").unwrap();
-- 
2.43.0


From d150c1b8c08ac6cc1fc03b04008b39873aa4d6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 05/41] fix: a null column does not match a list of values on
 Turso

---
 butane_core/src/db/turso.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 772d8d4..b994ba5 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -1223,7 +1223,20 @@ fn sql_for_expr(
     out: &mut impl Write,
 ) {
     // Subqueries should already be transformed by transform_subqueries before reaching here
-    // So we can just use the default helper implementation
+    // So we can mostly use the default helper implementation
+    if let query::Expr::Condition(cond) = &expr {
+        if let query::BoolExpr::In(col, vals) = &**cond {
+            if !vals.is_empty() {
+                // Turso takes a NULL column to satisfy an IN list when it decides a
+                // WHERE clause, so keep it from comparing one.
+                let col = helper::quote_reserved_word(col);
+                write!(out, "CASE WHEN {col} IS NULL THEN NULL ELSE ").unwrap();
+                helper::sql_for_expr(expr, sql_for_expr, values, placeholder_source, out);
+                write!(out, " END").unwrap();
+                return;
+            }
+        }
+    }
     helper::sql_for_expr(expr, sql_for_expr, values, placeholder_source, out)
 }
 
-- 
2.43.0


From b95f6aa62c18595ceb8b5e9d309f67e8a82e25fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 06/41] fix: load_first of a query limited to no rows finds
 nothing

---
 butane_core/src/query/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/query/mod.rs b/butane_core/src/query/mod.rs
index 9c3dd12..e89ed55 100644
--- a/butane_core/src/query/mod.rs
+++ b/butane_core/src/query/mod.rs
@@ -276,7 +276,9 @@ pub trait QueryOps<T> {
 )]
 impl<T: DataResult> QueryOps<T> for Query<T> {
     async fn load_first(self, conn: &impl ConnectionMethods) -> Result<Option<T>> {
-        QueryOpsInternal::fetch(self, conn, Some(1))
+        // At most one, or none if that is what the query is limited to
+        let limit = self.limit.map_or(1, |lim| lim.min(1));
+        QueryOpsInternal::fetch(self, conn, Some(limit))
             .await?
             .mapped(T::from_row)
             .nth(0)
-- 
2.43.0


From 69bc1e0d1087777091352df94b44e0c6d9d0aa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 07/41] fix: deleting through a query honours its limit and
 offset

---
 butane_core/src/query/mod.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/query/mod.rs b/butane_core/src/query/mod.rs
index e89ed55..61b18a2 100644
--- a/butane_core/src/query/mod.rs
+++ b/butane_core/src/query/mod.rs
@@ -12,7 +12,7 @@ use fallible_iterator::FallibleIterator;
 #[cfg(feature = "async")]
 use crate::db::ConnectionMethodsAsync;
 use crate::db::{BackendRows, ConnectionMethods, QueryResult};
-use crate::{DataResult, Result, SqlVal};
+use crate::{DataObject, DataResult, FieldType, Result, SqlVal};
 
 mod fieldexpr;
 
@@ -291,6 +291,27 @@ impl<T: DataResult> QueryOps<T> for Query<T> {
             .collect()
     }
     async fn delete(self, conn: &impl ConnectionMethods) -> Result<usize> {
+        if self.limit.is_some() || self.offset.is_some() {
+            // The backends have no (portable) way to limit a delete, so find the rows first.
+            let pkcol = T::DBO::PKCOL;
+            let pktype = <<T::DBO as DataObject>::PKType as FieldType>::SQLTYPE;
+            let sort = (!self.sort.is_empty()).then_some(self.sort.as_slice());
+            let pks: Vec<SqlVal> = conn
+                .query(
+                    &self.table,
+                    &[crate::db::Column::new(pkcol, pktype.clone())],
+                    self.filter,
+                    self.limit,
+                    self.offset,
+                    sort,
+                )
+                .await?
+                .mapped(|row| row.get(0, pktype.clone()).map(SqlVal::from))
+                .collect()?;
+            return conn
+                .delete_where(&self.table, BoolExpr::In(pkcol, pks))
+                .await;
+        }
         conn.delete_where(&self.table, self.filter.unwrap_or(BoolExpr::True))
             .await
     }
-- 
2.43.0


From 8379c89dc906dde863fae7f555247f01adf884ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 08/41] fix: release the write lock of a failed statement on
 Turso

---
 butane_core/src/db/turso.rs | 53 +++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 29 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index b994ba5..5f8831c 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -173,6 +173,23 @@ impl TursoConnection {
         Ok(TursoConnection { conn })
     }
 
+    /// Run one statement, returning the number of rows it affected.
+    async fn run(&self, sql: &str, params: impl turso::IntoParams) -> Result<u64> {
+        match self.conn.execute(sql, params).await {
+            Ok(n) => Ok(n),
+            Err(e) => {
+                // Outside of a transaction, Turso does not let go of the write lock taken by a
+                // statement which fails, until the connection finishes another transaction.
+                if self.conn.is_autocommit().unwrap_or(false)
+                    && self.conn.execute("BEGIN TRANSACTION", ()).await.is_ok()
+                {
+                    let _ = self.conn.execute("ROLLBACK", ()).await;
+                }
+                Err(Error::Internal(e.to_string()))
+            }
+        }
+    }
+
     /// Transform Subquery expressions into In expressions by executing the subquery first.
     /// This is necessary because Turso/libSQL doesn't support subqueries in WHERE clauses.
     async fn transform_subqueries(&self, expr: BoolExpr) -> Result<BoolExpr> {
@@ -330,10 +347,7 @@ impl ConnectionMethods for TursoConnection {
         // Turso doesn't have execute_batch, so we need to execute statements one by one
         // Split on semicolons and execute each statement separately
         for statement in sql.split(';').map(str::trim).filter(|s| !s.is_empty()) {
-            self.conn()?
-                .execute(statement, ())
-                .await
-                .map_err(|e| Error::Internal(e.to_string()))?;
+            self.run(statement, ()).await?;
         }
         Ok(())
     }
@@ -440,10 +454,7 @@ impl ConnectionMethods for TursoConnection {
         }
 
         let params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
-        self.conn()?
-            .execute(&sql, params)
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?;
+        self.run(&sql, params).await?;
 
         // Get the last inserted rowid
         let query = "SELECT last_insert_rowid()".to_string();
@@ -484,10 +495,7 @@ impl ConnectionMethods for TursoConnection {
             &mut sql,
         );
         let params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
-        self.conn()?
-            .execute(&sql, params)
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?;
+        self.run(&sql, params).await?;
         Ok(())
     }
 
@@ -501,10 +509,7 @@ impl ConnectionMethods for TursoConnection {
         let mut sql = String::new();
         sql_insert_or_update(table, columns, pkcol, &mut sql);
         let params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
-        self.conn()?
-            .execute(&sql, params)
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?;
+        self.run(&sql, params).await?;
         Ok(())
     }
 
@@ -526,10 +531,7 @@ impl ConnectionMethods for TursoConnection {
         );
         let mut params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
         params.push(sqlval_to_turso(&pk));
-        self.conn()?
-            .execute(&sql, params)
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?;
+        self.run(&sql, params).await?;
         Ok(())
     }
 
@@ -540,10 +542,7 @@ impl ConnectionMethods for TursoConnection {
             helper::quote_reserved_word(pkcol)
         );
         let params = vec![sqlval_to_turso(&pk.as_ref())];
-        self.conn()?
-            .execute(&sql, params)
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?;
+        self.run(&sql, params).await?;
         Ok(())
     }
 
@@ -562,11 +561,7 @@ impl ConnectionMethods for TursoConnection {
             .iter()
             .map(|v| sqlval_to_turso(&v.as_ref()))
             .collect();
-        let rows_affected = self
-            .conn()?
-            .execute(&sql, params)
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?;
+        let rows_affected = self.run(&sql, params).await?;
         Ok(rows_affected as usize)
     }
 
-- 
2.43.0


From fe34342099c74de3d5ac0221d0cc5ab8ff1b1dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 09/41] fix: filter JSON columns on PostgreSQL as the JSONB
 they are

---
 butane_core/src/db/pg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index a63ab9a..15a6d1b 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -921,7 +921,7 @@ fn pgtype_for_val(val: &SqlVal) -> postgres::types::Type {
         Some(SqlType::Text) => postgres::types::Type::TEXT,
         Some(SqlType::Blob) => postgres::types::Type::BYTEA,
         #[cfg(feature = "json")]
-        Some(SqlType::Json) => postgres::types::Type::JSON,
+        Some(SqlType::Json) => postgres::types::Type::JSONB,
         #[cfg(feature = "datetime")]
         Some(SqlType::Date) => postgres::types::Type::DATE,
         #[cfg(feature = "datetime")]
-- 
2.43.0


From ee5d60c5e29802e2ea57ae58354c102fd956d8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 10/41] fix: refuse to store NaN in SQLite, which would turn it
 into NULL

---
 butane_core/src/db/sqlite.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index ec0c987..0c35e75 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -500,16 +500,28 @@ impl<'c> BackendTransaction<'c> for SqliteTransaction<'c> {
 
 impl rusqlite::ToSql for SqlVal {
     fn to_sql(&self) -> rusqlite::Result<rusqlite::types::ToSqlOutput<'_>> {
+        check_storable(&self.as_ref())?;
         Ok(sqlvalref_to_sqlite(&self.as_ref()))
     }
 }
 
 impl<'a> rusqlite::ToSql for SqlValRef<'a> {
     fn to_sql<'b>(&'b self) -> rusqlite::Result<rusqlite::types::ToSqlOutput<'a>> {
+        check_storable(self)?;
         Ok(sqlvalref_to_sqlite(self))
     }
 }
 
+/// SQLite has no NaN: it would silently store NULL instead.
+fn check_storable(valref: &SqlValRef) -> rusqlite::Result<()> {
+    match valref {
+        SqlValRef::Real(r) if r.is_nan() => Err(rusqlite::Error::ToSqlConversionFailure(
+            "SQLite cannot store NaN".into(),
+        )),
+        _ => Ok(()),
+    }
+}
+
 fn sqlvalref_to_sqlite<'a>(valref: &SqlValRef<'a>) -> rusqlite::types::ToSqlOutput<'a> {
     use rusqlite::types::{ToSqlOutput::Borrowed, ToSqlOutput::Owned, Value, ValueRef};
     use SqlValRef::*;
-- 
2.43.0


From ab8cdb05a5dfc8b4d31115d8cb67e2a1828a6ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:36 +0000
Subject: [PATCH 11/41] fix: saving an object whose row is gone stores it
 again, as documented

---
 butane_core/src/lib.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/butane_core/src/lib.rs b/butane_core/src/lib.rs
index e5121f1..74affea 100644
--- a/butane_core/src/lib.rs
+++ b/butane_core/src/lib.rs
@@ -176,25 +176,21 @@ pub trait DataObjectOps<T: DataObject> {
                     .insert_returning_pk(Self::TABLE, &[], &pkcol, &[])
                     .await?;
                 self.pk_mut().initialize(pk)?;
+            } else {
+                let pk = self.pk().to_sql_ref();
+                conn.insert_or_replace(Self::TABLE, &[pkcol.clone()], &pkcol, &[pk])
+                    .await?;
             }
         } else if Self::AUTO_PK {
             // We have an AutoPk, but we also have other fields
-            // Since we expect our pk field to be invalid and to be created by the insert,
-            // we do a pure insert or update based on whether the AutoPk is already valid or not.
-            // Note that some database backends do support upsert with auto-incrementing primary
-            // keys, but butane isn't well set up to take advantage of that, including missing
-            // support for constraints and the `insert_or_update` method not providing a way to
-            // retrieve the pk.
+            // An invalid pk is created by the insert. One which is valid already must be kept.
             if self.pk().is_valid() {
-                // pk is valid, do an update
-                conn.update(
-                    Self::TABLE,
-                    pkcol,
-                    self.pk().to_sql_ref(),
-                    Self::NON_AUTO_COLUMNS,
-                    &self.non_auto_values(false),
-                )
-                .await?;
+                // pk is valid, do an upsert
+                let columns = [std::slice::from_ref(&pkcol), Self::NON_AUTO_COLUMNS].concat();
+                let mut values = self.non_auto_values(false);
+                values.insert(0, self.pk().to_sql_ref());
+                conn.insert_or_replace(Self::TABLE, &columns, &pkcol, &values)
+                    .await?;
             } else {
                 // invalid pk, do an insert
                 let pk = conn
-- 
2.43.0


From 0272032fff6e57d491d9cfc88c8b8c59e4e7ac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:03 +0000
Subject: [PATCH 12/41] fix: roll back a dropped Turso transaction from any
 context, or one whose commit failed

---
 butane_core/src/db/turso.rs | 58 +++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 5f8831c..5aaae46 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -5,10 +5,14 @@
 
 use std::borrow::Cow;
 use std::fmt::{Debug, Write};
+use std::future::Future;
+use std::pin::pin;
+use std::task::{Context, Poll};
 
 use async_trait::async_trait;
 #[cfg(feature = "datetime")]
 use chrono::naive::{NaiveDate, NaiveDateTime};
+use futures_util::task::noop_waker_ref;
 
 use super::connmethods::VecRows;
 use super::helper;
@@ -606,16 +610,13 @@ impl BackendConnection for TursoConnection {
 /// Turso transaction.
 #[derive(Debug)]
 struct TursoTransaction<'c> {
+    /// The connection, until the transaction has been committed or rolled back.
     conn: Option<&'c TursoConnection>,
-    committed: bool,
 }
 
 impl<'c> TursoTransaction<'c> {
     fn new(conn: &'c TursoConnection) -> Self {
-        TursoTransaction {
-            conn: Some(conn),
-            committed: false,
-        }
+        TursoTransaction { conn: Some(conn) }
     }
 
     fn get(&self) -> Result<&'c TursoConnection> {
@@ -709,15 +710,15 @@ impl<'c> ConnectionMethods for TursoTransaction<'c> {
 #[async_trait]
 impl<'c> BackendTransaction<'c> for TursoTransaction<'c> {
     async fn commit(&mut self) -> Result<()> {
-        let conn = self.conn.take().ok_or_else(Self::already_consumed)?;
-        conn.execute("COMMIT").await?;
-        self.committed = true;
+        // A commit which fails leaves the transaction open, to be rolled back.
+        self.get()?.execute("COMMIT").await?;
+        self.conn = None;
         Ok(())
     }
 
     async fn rollback(&mut self) -> Result<()> {
-        let conn = self.conn.take().ok_or_else(Self::already_consumed)?;
-        conn.execute("ROLLBACK").await?;
+        self.get()?.execute("ROLLBACK").await?;
+        self.conn = None;
         Ok(())
     }
 
@@ -728,25 +729,26 @@ impl<'c> BackendTransaction<'c> for TursoTransaction<'c> {
 
 impl<'c> Drop for TursoTransaction<'c> {
     fn drop(&mut self) {
-        if let Some(conn) = self.conn.take() {
-            if !self.committed {
-                // If transaction was not committed or rolled back, roll it back
-                // Use block_in_place to execute async rollback in a sync Drop context
-                if tokio::runtime::Handle::try_current().is_ok() {
-                    let conn_clone = conn.conn.clone();
-                    let _ = tokio::task::block_in_place(|| {
-                        tokio::runtime::Handle::current().block_on(async move {
-                            conn_clone
-                                .execute("ROLLBACK", Vec::<turso::Value>::new())
-                                .await
-                        })
-                    });
-                } else {
-                    eprintln!(
-                        "Warning: TursoTransaction dropped without commit or rollback and no tokio runtime available"
-                    );
-                }
+        let Some(conn) = self.conn.take() else {
+            return;
+        };
+        // The transaction was neither committed nor rolled back, so roll it back, unless Turso
+        // already did so because a statement failed.
+        if conn.conn.is_autocommit().unwrap_or(false) {
+            return;
+        }
+        // Turso performs its I/O while being polled, so this needs no particular async runtime,
+        // and works the same from a sync context, from a task, and while unwinding.
+        let mut rollback = pin!(conn.conn.execute("ROLLBACK", ()));
+        let mut context = Context::from_waker(noop_waker_ref());
+        let result = loop {
+            match rollback.as_mut().poll(&mut context) {
+                Poll::Ready(result) => break result,
+                Poll::Pending => std::thread::yield_now(),
             }
+        };
+        if let Err(_e) = result {
+            crate::warn!("failed to roll back a dropped transaction: {_e}");
         }
     }
 }
-- 
2.43.0


From 5c6e4f4e2897441a47d8d822165dffc3026d836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 13/41] fix: tasks sharing a Turso connection run one statement
 at a time

---
 butane_core/src/db/turso.rs | 99 ++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 46 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 5aaae46..2f14ada 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -13,6 +13,7 @@ use async_trait::async_trait;
 #[cfg(feature = "datetime")]
 use chrono::naive::{NaiveDate, NaiveDateTime};
 use futures_util::task::noop_waker_ref;
+use tokio::sync::Mutex;
 
 use super::connmethods::VecRows;
 use super::helper;
@@ -147,6 +148,9 @@ impl Backend for TursoBackend {
 #[derive(Debug)]
 pub struct TursoConnection {
     conn: turso::Connection,
+    /// Held while a statement runs. Turso does not support running several statements on one
+    /// connection at the same time, which the tasks sharing this connection may ask for.
+    busy: Mutex<()>,
 }
 
 impl TursoConnection {
@@ -174,11 +178,20 @@ impl TursoConnection {
             .await
             .map_err(|e| Error::Internal(e.to_string()))?;
 
-        Ok(TursoConnection { conn })
+        Ok(TursoConnection {
+            conn,
+            busy: Mutex::new(()),
+        })
     }
 
     /// Run one statement, returning the number of rows it affected.
     async fn run(&self, sql: &str, params: impl turso::IntoParams) -> Result<u64> {
+        let _busy = self.busy.lock().await;
+        self.run_exclusive(sql, params).await
+    }
+
+    /// Like [run][Self::run], for a caller which holds the `busy` lock.
+    async fn run_exclusive(&self, sql: &str, params: impl turso::IntoParams) -> Result<u64> {
         match self.conn.execute(sql, params).await {
             Ok(n) => Ok(n),
             Err(e) => {
@@ -194,6 +207,34 @@ impl TursoConnection {
         }
     }
 
+    /// Run one query, returning its rows.
+    async fn fetch(&self, sql: &str, params: impl turso::IntoParams) -> Result<Vec<turso::Row>> {
+        let _busy = self.busy.lock().await;
+        self.fetch_exclusive(sql, params).await
+    }
+
+    /// Like [fetch][Self::fetch], for a caller which holds the `busy` lock.
+    async fn fetch_exclusive(
+        &self,
+        sql: &str,
+        params: impl turso::IntoParams,
+    ) -> Result<Vec<turso::Row>> {
+        let mut rows = self
+            .conn
+            .query(sql, params)
+            .await
+            .map_err(|e| Error::Internal(e.to_string()))?;
+        let mut result = Vec::new();
+        while let Some(row) = rows
+            .next()
+            .await
+            .map_err(|e| Error::Internal(e.to_string()))?
+        {
+            result.push(row);
+        }
+        Ok(result)
+    }
+
     /// Transform Subquery expressions into In expressions by executing the subquery first.
     /// This is necessary because Turso/libSQL doesn't support subqueries in WHERE clauses.
     async fn transform_subqueries(&self, expr: BoolExpr) -> Result<BoolExpr> {
@@ -299,18 +340,8 @@ impl TursoConnection {
             .map(|v| sqlval_to_turso(&v.as_ref()))
             .collect();
 
-        let mut rows = self
-            .conn()?
-            .query(sql, params)
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?;
-
         let mut result_values = Vec::new();
-        while let Some(row) = rows
-            .next()
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?
-        {
+        for row in self.fetch(sql, params).await? {
             let val = row
                 .get_value(0)
                 .map_err(|e| Error::Internal(e.to_string()))?;
@@ -410,19 +441,9 @@ impl ConnectionMethods for TursoConnection {
             .iter()
             .map(|v| sqlval_to_turso(&v.as_ref()))
             .collect();
-        let mut rows = self
-            .conn()?
-            .query(&sqlquery, params)
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?;
-
         // Collect all rows into a Vec to avoid lifetime issues
         let mut vec_rows = Vec::new();
-        while let Some(row) = rows
-            .next()
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?
-        {
+        for row in self.fetch(&sqlquery, params).await? {
             // Convert turso row to VecRow
             let mut values = Vec::new();
             for (i, col) in columns.iter().enumerate() {
@@ -458,21 +479,16 @@ impl ConnectionMethods for TursoConnection {
         }
 
         let params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
-        self.run(&sql, params).await?;
+        let busy = self.busy.lock().await;
+        self.run_exclusive(&sql, params).await?;
 
-        // Get the last inserted rowid
-        let query = "SELECT last_insert_rowid()".to_string();
-        let mut rows = self
-            .conn()?
-            .query(&query, ())
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?;
+        // Get the last inserted rowid, before another statement can insert one
+        let rows = self
+            .fetch_exclusive("SELECT last_insert_rowid()", ())
+            .await?;
+        drop(busy);
 
-        if let Some(row) = rows
-            .next()
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?
-        {
+        if let Some(row) = rows.first() {
             let val = row
                 .get_value(0)
                 .map_err(|e| Error::Internal(e.to_string()))?;
@@ -572,16 +588,7 @@ impl ConnectionMethods for TursoConnection {
     async fn has_table(&self, table: &str) -> Result<bool> {
         let sql = "SELECT name FROM sqlite_master WHERE type='table' AND name=?";
         let params = vec![turso::Value::Text(table.to_string())];
-        let mut rows = self
-            .conn()?
-            .query(sql, params)
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?;
-        Ok(rows
-            .next()
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?
-            .is_some())
+        Ok(!self.fetch(sql, params).await?.is_empty())
     }
 }
 
-- 
2.43.0


From f93990ac706844528e09e8a3dedea6284bd587b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:37 +0000
Subject: [PATCH 14/41] fix: threads may take the key of one foreign key at the
 same time

---
 butane_core/src/fkey.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/butane_core/src/fkey.rs b/butane_core/src/fkey.rs
index 532cac4..af1a686 100644
--- a/butane_core/src/fkey.rs
+++ b/butane_core/src/fkey.rs
@@ -80,14 +80,11 @@ impl<T: DataObject> ForeignKey<T> {
     }
 
     fn ensure_valpk(&self) -> &SqlVal {
-        match self.valpk.get() {
-            Some(sqlval) => return sqlval,
-            None => match self.val.get() {
-                Some(val) => self.valpk.set(val.pk().to_sql()).unwrap(),
-                None => panic!("Invalid foreign key state"),
-            },
-        }
-        self.valpk.get().unwrap()
+        // Several threads may be doing this at once
+        self.valpk.get_or_init(|| match self.val.get() {
+            Some(val) => val.pk().to_sql(),
+            None => panic!("Invalid foreign key state"),
+        })
     }
 }
 
-- 
2.43.0


From d2ce5f09a52f2bbcef5cf67b25d339eed42d42d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:22 +0000
Subject: [PATCH 15/41] fix: drop the Turso helper trait nothing uses any more

---
 butane_core/src/db/turso.rs | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 2f14ada..1bc76d9 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -39,17 +39,6 @@ pub const BACKEND_NAME: &str = "turso";
 /// Row ID column name used by Turso (same as SQLite).
 pub const ROW_ID_COLUMN_NAME: &str = "rowid";
 
-// Trait similar to PgConnectionLike for sharing behavior between Connection and Transaction
-trait TursoConnectionLike {
-    fn conn(&self) -> Result<&turso::Connection>;
-}
-
-impl TursoConnectionLike for TursoConnection {
-    fn conn(&self) -> Result<&turso::Connection> {
-        Ok(&self.conn)
-    }
-}
-
 /// Turso backend.
 ///
 /// Provides an async-first database backend using Turso/libSQL, which is SQLite-compatible.
@@ -635,12 +624,6 @@ impl<'c> TursoTransaction<'c> {
     }
 }
 
-impl<'c> TursoConnectionLike for TursoTransaction<'c> {
-    fn conn(&self) -> Result<&turso::Connection> {
-        Ok(&self.get()?.conn)
-    }
-}
-
 #[async_trait]
 impl<'c> ConnectionMethods for TursoTransaction<'c> {
     async fn execute(&self, sql: &str) -> Result<()> {
-- 
2.43.0


From 52bb89c6d8463a05fd7acd090923234c3bf5dfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:22 +0000
Subject: [PATCH 16/41] fix: removing from a many-to-many collection leaves
 other owners' collections alone

---
 butane_core/src/many.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index 17de3bd..5e3db3c 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -260,7 +260,10 @@ impl<T: DataObject> ManyOps<T> for Many<T> {
         if !self.removed_values.is_empty() {
             conn.delete_where(
                 &self.item_table,
-                BoolExpr::In("has", std::mem::take(&mut self.removed_values)),
+                BoolExpr::And(
+                    Box::new(BoolExpr::Eq("owner", Expr::Val(owner.clone()))),
+                    Box::new(BoolExpr::In("has", std::mem::take(&mut self.removed_values))),
+                ),
             )
             .await?;
         }
-- 
2.43.0


From c75fae7b7654244417c9babbc6e1ef09cbf66bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:22 +0000
Subject: [PATCH 17/41] fix: a many-to-many save which fails keeps the changes
 it was to make

---
 butane_core/src/many.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index 5e3db3c..9d42d6f 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -246,14 +246,11 @@ pub trait ManyOps<T: DataObject> {
 impl<T: DataObject> ManyOps<T> for Many<T> {
     async fn save(&mut self, conn: &impl ConnectionMethods) -> Result<()> {
         let owner = self.owner.as_ref().ok_or(Error::NotInitialized)?;
-        while !self.new_values.is_empty() {
+        for new_value in &self.new_values {
             conn.insert_only(
                 &self.item_table,
                 &self.columns(),
-                &[
-                    owner.as_ref(),
-                    self.new_values.pop().unwrap().as_ref().clone(),
-                ],
+                &[owner.as_ref(), new_value.as_ref()],
             )
             .await?;
         }
@@ -262,12 +259,14 @@ impl<T: DataObject> ManyOps<T> for Many<T> {
                 &self.item_table,
                 BoolExpr::And(
                     Box::new(BoolExpr::Eq("owner", Expr::Val(owner.clone()))),
-                    Box::new(BoolExpr::In("has", std::mem::take(&mut self.removed_values))),
+                    Box::new(BoolExpr::In("has", self.removed_values.clone())),
                 ),
             )
             .await?;
         }
+        // Nothing is pending any more, but what failed above still is
         self.new_values.clear();
+        self.removed_values.clear();
         Ok(())
     }
 
-- 
2.43.0


From a0a5215e7f28b730746f655f39002f391ce4e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:22 +0000
Subject: [PATCH 18/41] fix: the collections of a copied object belong to the
 copy once it is saved

---
 butane_core/src/many.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index 9d42d6f..5add4cb 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -63,8 +63,10 @@ where
     }
 
     /// Used by macro-generated code. You do not need to call this directly.
+    ///
+    /// A collection copied from another object becomes one of the given owner.
     pub fn ensure_init(&mut self, item_table: &'static str, owner: SqlVal, owner_type: SqlType) {
-        if self.owner.is_some() {
+        if self.owner.as_ref() == Some(&owner) {
             return;
         }
         self.item_table = Cow::Borrowed(item_table);
-- 
2.43.0


From a184bc39f6325beb6769d8d0ae02ae2eb192ac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:06 +0000
Subject: [PATCH 19/41] fix: a loaded many-to-many collection takes account of
 every pending change

---
 butane_core/src/many.rs | 47 +++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index 5add4cb..10cdeec 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -118,12 +118,29 @@ where
             Some(o) => o,
             None => return Err(Error::NotInitialized),
         };
-        Ok(T::query().filter(BoolExpr::Subquery {
+        let mut expr = BoolExpr::Subquery {
             col: T::PKCOL,
             tbl2: self.item_table.clone(),
             tbl2_col: "has",
             expr: Box::new(BoolExpr::Eq("owner", Expr::Val(owner.clone()))),
-        }))
+        };
+        // Take account of the changes not saved to the db yet
+        if !self.new_values.is_empty() {
+            expr = BoolExpr::Or(
+                Box::new(expr),
+                Box::new(BoolExpr::In(T::PKCOL, self.new_values.clone())),
+            );
+        }
+        if !self.removed_values.is_empty() {
+            expr = BoolExpr::And(
+                Box::new(expr),
+                Box::new(BoolExpr::Not(Box::new(BoolExpr::In(
+                    T::PKCOL,
+                    self.removed_values.clone(),
+                )))),
+            );
+        }
+        Ok(T::query().filter(expr))
     }
 
     /// Describes the columns of the Many table.
@@ -140,29 +157,13 @@ where
     sync(),
     async(feature = "async")
 )]
-/// Load the values referred to by this many relationship from a database query, if necessary.
-///
-/// Returns a reference to them.
-async fn load_query_uncached<'a, T>(
-    many: &'a Many<T>,
-    conn: &impl ConnectionMethods,
-    query: Query<T>,
-) -> Result<Vec<T>>
+/// Load the values of a database query.
+async fn load_query_uncached<T>(conn: &impl ConnectionMethods, query: Query<T>) -> Result<Vec<T>>
 where
-    T: DataObject + 'a,
+    T: DataObject,
 {
     use crate::query::QueryOps;
-    let mut vals: Vec<T> = query.load(conn).await?;
-    // Now add in the values for things not saved to the db yet
-    if !many.new_values.is_empty() {
-        vals.append(
-            &mut T::query()
-                .filter(BoolExpr::In(T::PKCOL, many.new_values.clone()))
-                .load(conn)
-                .await?,
-        );
-    }
-    Ok(vals)
+    query.load(conn).await
 }
 
 /// Load the values referred to by this many relationship from a database query, if necessary.
@@ -184,7 +185,7 @@ async fn load_query<'a, T>(
 where
     T: DataObject + 'a,
 {
-    get_or_init_once_lock(&many.all_values, || load_query_uncached(many, conn, query))
+    get_or_init_once_lock(&many.all_values, || load_query_uncached(conn, query))
         .await
         .map(|v| v.iter())
 }
-- 
2.43.0


From 54b2a1f41883cfd5f8349dec0ff302b0ae565eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:37 +0000
Subject: [PATCH 20/41] fix: committing a PostgreSQL transaction in which a
 statement failed is an error

---
 butane_core/src/db/pg.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 15a6d1b..d2b46f5 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -395,7 +395,12 @@ impl<'c> BackendTransaction<'c> for PgTransaction<'c> {
     async fn commit(&mut self) -> Result<()> {
         match self.trans.take() {
             None => Err(Self::already_consumed()),
-            Some(trans) => Ok(trans.commit().await?),
+            Some(trans) => {
+                // After a failed statement PostgreSQL answers a commit by rolling back, without
+                // an error. Find out first, because a commit must not be reported in that case.
+                trans.batch_execute("SELECT 1").await?;
+                Ok(trans.commit().await?)
+            }
         }
     }
 
-- 
2.43.0


From e4989370fa6b1bbe445a0c9b773a7c26a0b9035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:13 +0000
Subject: [PATCH 21/41] fix: cancelling an adapted operation waits for the
 borrows of its worker to end

---
 butane_core/src/db/adapter.rs | 38 ++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/butane_core/src/db/adapter.rs b/butane_core/src/db/adapter.rs
index b4f2c6f..367d468 100644
--- a/butane_core/src/db/adapter.rs
+++ b/butane_core/src/db/adapter.rs
@@ -70,9 +70,13 @@ impl AsyncAdapterEnv {
         // and forth, it's essentially owned by the worker thread -- all operations
         // with context occur on that worker thread.
         let (tx, rx) = tokio::sync::oneshot::channel();
+        let (finished, _wait_guard) = WaitGuard::new();
         let func_taking_ptr = |ctx: SyncSendPtrMut<T>| func(unsafe { ctx.inner.as_ref() }.unwrap());
         unsafe {
-            let wrapped_func = move || _ = tx.send(func_taking_ptr(context.clone_unsafe()));
+            let wrapped_func = move || {
+                _ = tx.send(func_taking_ptr(context.clone_unsafe()));
+                drop(finished);
+            };
             self.invoke_internal_unsafe(wrapped_func)?;
         }
         rx.await?
@@ -92,9 +96,13 @@ impl AsyncAdapterEnv {
         'c: 'result,
     {
         let (tx, rx) = tokio::sync::oneshot::channel();
+        let (finished, _wait_guard) = WaitGuard::new();
         let func_taking_ptr = |ctx: SyncSendPtrMut<T>| func(unsafe { ctx.inner.as_mut().unwrap() });
         unsafe {
-            let wrapped_func = move || _ = tx.send(func_taking_ptr(context.clone_unsafe()));
+            let wrapped_func = move || {
+                _ = tx.send(func_taking_ptr(context.clone_unsafe()));
+                drop(finished);
+            };
             self.invoke_internal_unsafe(wrapped_func)?;
         }
         rx.await?
@@ -132,7 +140,9 @@ impl AsyncAdapterEnv {
         // *we* know that our worker thread will immediately execute
         // the function and the caller to this method will wait to
         // hear from the worker thread before proceeding (and thus
-        // before letting the lifetime lapse)
+        // before letting the lifetime lapse). An async caller may be
+        // dropped before it has heard, in which case its `WaitGuard`
+        // does the waiting.
         // https://stackoverflow.com/questions/52424449/
         let boxed_func: Box<dyn FnOnce() + Send + 'result> = Box::new(wrapped_func);
         let static_func: Box<dyn FnOnce() + Send + 'static> =
@@ -155,6 +165,28 @@ impl Drop for AsyncAdapterEnv {
     }
 }
 
+/// Blocks on drop until the other end, which is given to the function sent to
+/// the worker thread, has been dropped.
+///
+/// That function borrows from the future which is waiting for it. When the future
+/// runs to completion the function has already finished, but if the future
+/// is dropped early, the borrows must not end while the function can still use them.
+struct WaitGuard {
+    receiver: crossbeam_channel::Receiver<std::convert::Infallible>,
+}
+impl WaitGuard {
+    fn new() -> (crossbeam_channel::Sender<std::convert::Infallible>, Self) {
+        let (sender, receiver) = crossbeam_channel::bounded(0);
+        (sender, Self { receiver })
+    }
+}
+impl Drop for WaitGuard {
+    fn drop(&mut self) {
+        // Nothing can be sent, so this returns when the sender is dropped.
+        _ = self.receiver.recv();
+    }
+}
+
 /// Wrapper around a raw pointer that we assert is [`Send`].
 ///
 /// Needless to say, this requires care. See comments on [`AsyncAdapterEnv::invoke`]
-- 
2.43.0


From cd6a1f7d2430379532f240229b627ff250638fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:13 +0000
Subject: [PATCH 22/41] fix: a panic in an adapted operation leaves the adapter
 able to clean up

---
 butane_core/src/db/adapter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/adapter.rs b/butane_core/src/db/adapter.rs
index 367d468..ccb4188 100644
--- a/butane_core/src/db/adapter.rs
+++ b/butane_core/src/db/adapter.rs
@@ -6,6 +6,7 @@
 
 use super::*;
 use crate::query::Order;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::sync::Arc;
 use std::thread;
 use std::thread::JoinHandle;
@@ -29,7 +30,11 @@ impl AsyncAdapterEnv {
         let thread_handle = thread::spawn(move || {
             while let Ok(cmd) = receiver.recv() {
                 match cmd {
-                    Command::Func(func) => func(),
+                    Command::Func(func) => {
+                        // If func panics, whoever is waiting for its result gets an error. This thread
+                        // must live on, as the context can only be dropped here.
+                        _ = catch_unwind(AssertUnwindSafe(func));
+                    }
                     Command::Shutdown => {
                         return; // break out of the loop
                     }
-- 
2.43.0


From 1d1742217274146c5a38631225a40c1823b34753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:35 +0000
Subject: [PATCH 23/41] fix: cancelling the start of an adapted transaction
 rolls it back

---
 butane_core/src/db/adapter.rs | 46 ++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/butane_core/src/db/adapter.rs b/butane_core/src/db/adapter.rs
index ccb4188..410a5b7 100644
--- a/butane_core/src/db/adapter.rs
+++ b/butane_core/src/db/adapter.rs
@@ -7,7 +7,7 @@
 use super::*;
 use crate::query::Order;
 use std::panic::{catch_unwind, AssertUnwindSafe};
-use std::sync::Arc;
+use std::sync::{Arc, Mutex, MutexGuard, PoisonError};
 use std::thread;
 use std::thread::JoinHandle;
 
@@ -410,14 +410,21 @@ where
     T: BackendConnection,
 {
     async fn transaction<'c>(&'c mut self) -> Result<TransactionAsync<'c>> {
-        let transaction_ptr: SyncSendPtrMut<dyn BackendTransaction> = self
-            .invoke_mut(|conn| {
-                let transaction: Transaction = conn.transaction()?;
-                let transaction_ptr: *mut dyn BackendTransaction = Box::into_raw(transaction.trans);
-                Ok(unsafe { SyncSendPtrMut::new(transaction_ptr) })
-            })
-            .await?;
-        let transaction_adapter = self.create_with_same_env(transaction_ptr);
+        // The transaction is put where it will be dropped even if we are cancelled.
+        let pending = PendingTransaction {
+            adapter: self,
+            ptr: Mutex::new(None),
+        };
+        self.invoke_mut(|conn| {
+            let transaction: Transaction = conn.transaction()?;
+            let transaction_ptr: *mut dyn BackendTransaction = Box::into_raw(transaction.trans);
+            *pending.lock() = Some(unsafe { SyncSendPtrMut::new(transaction_ptr) });
+            Ok(())
+        })
+        .await?;
+        let transaction_adapter = pending
+            .take()
+            .ok_or(Error::Internal("transaction was not created".to_string()))?;
         Ok(TransactionAsync::new(Box::new(transaction_adapter)))
     }
 
@@ -437,6 +444,27 @@ where
     }
 }
 
+/// A transaction which has not been returned to the user yet.
+struct PendingTransaction<'a, 'c, T: ?Sized> {
+    adapter: &'a AsyncAdapter<T>,
+    ptr: Mutex<Option<SyncSendPtrMut<dyn BackendTransaction<'c> + 'c>>>,
+}
+impl<'c, T: ?Sized> PendingTransaction<'_, 'c, T> {
+    fn lock(&self) -> MutexGuard<'_, Option<SyncSendPtrMut<dyn BackendTransaction<'c> + 'c>>> {
+        self.ptr.lock().unwrap_or_else(PoisonError::into_inner)
+    }
+    fn take(&self) -> Option<AsyncAdapter<dyn BackendTransaction<'c> + 'c>> {
+        let ptr = self.lock().take()?;
+        Some(self.adapter.create_with_same_env(ptr))
+    }
+}
+impl<T: ?Sized> Drop for PendingTransaction<'_, '_, T> {
+    fn drop(&mut self) {
+        // Dropping the adapter rolls the transaction back on the worker thread
+        self.take();
+    }
+}
+
 fn ok_or_panic_with_adapter_error<T>(r: Result<T>) -> T {
     match r {
         Ok(ret) => ret,
-- 
2.43.0


From 026de92199e50111cea86ae20cee72be419d68a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:02 +0000
Subject: [PATCH 24/41] fix: in-memory migrations accept tables which refer to
 later ones

Types were resolved each time a table was added, which failed for
references to tables not yet added and for tables renamed by
#[table = ...] later on. Migration::db() resolves them anyway.
---
 butane_core/src/migrations/memmigrations.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/butane_core/src/migrations/memmigrations.rs b/butane_core/src/migrations/memmigrations.rs
index b6ce3f5..cf6db2e 100644
--- a/butane_core/src/migrations/memmigrations.rs
+++ b/butane_core/src/migrations/memmigrations.rs
@@ -67,8 +67,8 @@ impl Eq for MemMigration {}
 
 impl MigrationMut for MemMigration {
     fn add_modified_table(&mut self, table: &ATable) -> Result<()> {
+        // Types are resolved by `db()`: the table may refer to one which is yet to be added.
         self.db.replace_table(table.clone());
-        self.db.resolve_types()?;
         Ok(())
     }
     #[allow(unused_variables)]
@@ -92,7 +92,6 @@ impl MigrationMut for MemMigration {
     }
     fn add_type(&mut self, key: TypeKey, sqltype: DeferredSqlType) -> Result<()> {
         self.db.add_type(key, sqltype);
-        self.db.resolve_types()?;
         Ok(())
     }
     fn set_migration_from(&mut self, prev: Option<String>) -> Result<()> {
-- 
2.43.0


From e5e086ca1a13ed6e712b161c6fd08db684efe2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:02 +0000
Subject: [PATCH 25/41] fix: defaults of added columns are valid literals

Text was not escaped, JSON not quoted, dates quoted twice, and
timestamps written in a form which SQLite columns are not read in.
---
 butane_core/src/db/helper.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 0f3029d..c521aed 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -332,6 +332,11 @@ pub(crate) fn sql_column(col: query::Column, w: &mut impl Write) {
     .unwrap()
 }
 
+/// Quote a string as an SQL literal.
+fn quote_literal(val: &str) -> String {
+    format!("'{}'", val.replace('\'', "''"))
+}
+
 pub fn sql_literal_value(val: &SqlVal) -> Result<String> {
     use SqlVal::*;
     match val {
@@ -340,14 +345,14 @@ pub fn sql_literal_value(val: &SqlVal) -> Result<String> {
         Int(val) => Ok(val.to_string()),
         BigInt(val) => Ok(val.to_string()),
         Real(val) => Ok(val.to_string()),
-        Text(val) => Ok(format!("'{val}'")),
+        Text(val) => Ok(quote_literal(val)),
         Blob(val) => Ok(format!("x'{}'", hex::encode_upper(val))),
         #[cfg(feature = "json")]
-        Json(val) => Ok(format!("{val}")),
+        Json(val) => Ok(quote_literal(&val.to_string())),
         #[cfg(feature = "datetime")]
-        Date(val) => Ok(format!("'{}'", val.format("'%Y-%m-%d'"))),
+        Date(val) => Ok(val.format("'%Y-%m-%d'").to_string()),
         #[cfg(feature = "datetime")]
-        Timestamp(ndt) => Ok(ndt.format("'%Y-%m-%dT%H:%M:%S%.f'").to_string()),
+        Timestamp(ndt) => Ok(ndt.format("'%Y-%m-%d %H:%M:%S%.f'").to_string()),
         #[cfg(feature = "pg")]
         Custom(val) => Err(Error::LiteralForCustomUnsupported(*(*val).clone())),
     }
-- 
2.43.0


From 3f704606277a52c9c9099d1a48fc9fa582b3a37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:02 +0000
Subject: [PATCH 26/41] fix: SQLite migrations of constrained columns and
 referenced tables

Adding columns with constraints rebuilds the table, as does removing
them; tables which others refer to can be rebuilt and removed. Tables
are removed when nothing refers to them any more.
---
 butane_core/src/db/sqlite.rs      | 154 +++++++++++++++++++++++-------
 butane_core/src/migrations/adb.rs |  13 ++-
 2 files changed, 126 insertions(+), 41 deletions(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index 0c35e75..b794bb1 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -676,11 +676,11 @@ fn sql_for_op(current: &mut ADB, op: &Operation) -> Result<String> {
         Operation::AddTable(table) => Ok(create_table(table, false)),
         Operation::AddTableConstraints(_table) => Ok("".to_owned()),
         Operation::AddTableIfNotExists(table) => Ok(create_table(table, true)),
-        Operation::RemoveTable(name) => Ok(drop_table(name)),
+        Operation::RemoveTable(name) => Ok(remove_table(current, name)),
         Operation::RemoveTableConstraints(_table) => Ok("".to_owned()),
-        Operation::AddColumn(tbl, col) => add_column(tbl, col),
+        Operation::AddColumn(tbl, col) => add_column(current, tbl, col),
         Operation::RemoveColumn(tbl, name) => remove_column(current, tbl, name),
-        Operation::ChangeColumn(tbl, old, new) => Ok(change_column(current, tbl, old, Some(new))),
+        Operation::ChangeColumn(tbl, old, new) => change_column(current, tbl, old, Some(new)),
     }
 }
 
@@ -798,8 +798,47 @@ fn drop_table(name: &str) -> String {
     format!("DROP TABLE {};", helper::quote_reserved_word(name))
 }
 
-fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
+/// Whether `table` refers to the one named `tbl_name`.
+fn refers_to(table: &ATable, tbl_name: &str) -> bool {
+    table.columns.iter().any(|col| {
+        matches!(col.reference(), Some(ARef::Literal(literal)) if literal.table_name() == tbl_name)
+    })
+}
+
+/// Whether a table, maybe itself, refers to `tbl_name`.
+fn is_referenced(current: &ADB, tbl_name: &str) -> bool {
+    current.tables().any(|table| refers_to(table, tbl_name))
+}
+
+/// Let references be dangling until the end of the transaction.
+const DEFER_FOREIGN_KEYS: &str = "PRAGMA defer_foreign_keys = ON;";
+
+fn remove_table(current: &ADB, name: &str) -> String {
+    if is_referenced(current, name) {
+        format!("{DEFER_FOREIGN_KEYS}\n{}", drop_table(name))
+    } else {
+        drop_table(name)
+    }
+}
+
+fn add_column(current: &mut ADB, tbl_name: &str, col: &AColumn) -> Result<String> {
     let default: SqlVal = helper::column_default(col)?;
+    // "ALTER TABLE ADD COLUMN" does not support constraints of these kinds, nor can it add
+    // a fractional default to the rows of a STRICT table.
+    let fractional = matches!(default, SqlVal::Real(val) if val.fract() != 0.0);
+    if col.is_pk() || col.unique() || col.reference().is_some() || fractional {
+        if let Some(old_table) = current.get_table(tbl_name).cloned() {
+            let mut new_table = old_table.clone();
+            if col.is_pk() {
+                // There can only be one primary key
+                for column in &mut new_table.columns {
+                    column.remove_pk();
+                }
+            }
+            new_table.add_column(col.clone());
+            return rebuild_table(current, &old_table, new_table);
+        }
+    }
     Ok(format!(
         "ALTER TABLE {} ADD COLUMN {} DEFAULT {};",
         helper::quote_reserved_word(tbl_name),
@@ -818,8 +857,8 @@ fn remove_column(current: &mut ADB, tbl_name: &str, name: &str) -> Result<String
         .ok_or_else(|| Error::ColumnNotFound(tbl_name.to_string(), name.to_string()))?;
     // "ALTER TABLE b DROP COLUMN fkey;" fails due to sqlite not being
     // able to remove the attached constraint.
-    if col.reference().is_some() {
-        Ok(change_column(current, tbl_name, col, None))
+    if col.reference().is_some() || col.unique() || col.is_pk() {
+        change_column(current, tbl_name, col, None)
     } else {
         Ok(format!(
             "ALTER TABLE {} DROP COLUMN {};",
@@ -829,19 +868,39 @@ fn remove_column(current: &mut ADB, tbl_name: &str, name: &str) -> Result<String
     }
 }
 
-fn copy_table(old: &ATable, new: &ATable) -> String {
-    let column_names = new
-        .columns
-        .iter()
-        .map(|col| helper::quote_reserved_word(col.name()))
-        .collect::<Vec<Cow<str>>>()
-        .join(", ");
-    format!(
-        "INSERT INTO {} SELECT {} FROM {};",
+/// Copy the rows of `old` to `new`, with defaults for columns which `old` does not have.
+fn copy_table(old: &ATable, new: &ATable) -> Result<String> {
+    let mut column_names: Vec<Cow<str>> = Vec::new();
+    let mut values: Vec<Cow<str>> = Vec::new();
+    for col in &new.columns {
+        let name = helper::quote_reserved_word(col.name());
+        if old.column(col.name()).is_some() {
+            values.push(name.clone());
+        } else if col.is_auto() {
+            continue;
+        } else {
+            let default = helper::column_default(col)?;
+            values.push(helper::sql_literal_value(&default)?.into());
+        }
+        column_names.push(name);
+    }
+    if column_names.is_empty() {
+        // There is only the automatic primary key.
+        column_names.push(helper::quote_reserved_word(new.columns[0].name()));
+        values.push("NULL".into());
+    }
+    let columns = if values.len() < new.columns.len() {
+        format!("({}) ", column_names.join(", "))
+    } else {
+        String::new()
+    };
+    Ok(format!(
+        "INSERT INTO {} {}SELECT {} FROM {};",
         helper::quote_reserved_word(&new.name),
-        column_names,
+        columns,
+        values.join(", "),
         helper::quote_reserved_word(&old.name)
-    )
+    ))
 }
 
 fn tmp_table_name(name: &str) -> String {
@@ -853,37 +912,58 @@ fn change_column(
     tbl_name: &str,
     old: &AColumn,
     new: Option<&AColumn>,
-) -> String {
-    let table = current.get_table(tbl_name);
-    if table.is_none() {
+) -> Result<String> {
+    let Some(old_table) = current.get_table(tbl_name).cloned() else {
         crate::warn!(
             "Cannot alter column {} from table {} that does not exist",
             old.name(),
             tbl_name
         );
-        return "".to_string();
-    }
-    let old_table = table.unwrap();
+        return Ok("".to_string());
+    };
     let mut new_table = old_table.clone();
-    new_table.name = tmp_table_name(&new_table.name);
     match new {
         Some(col) => new_table.replace_column(col.clone()),
         None => new_table.remove_column(old.name()),
     }
-    let stmts: [&str; 4] = [
-        &create_table(&new_table, false),
-        &copy_table(old_table, &new_table),
-        &drop_table(&old_table.name),
-        &format!(
-            "ALTER TABLE {} RENAME TO {};",
-            helper::quote_reserved_word(&new_table.name),
-            helper::quote_reserved_word(tbl_name)
-        ),
-    ];
-    let result = stmts.join("\n");
-    new_table.name.clone_from(&old_table.name);
+    rebuild_table(current, &old_table, new_table)
+}
+
+/// Replace a table by one of the same name with other columns, keeping the rows.
+fn rebuild_table(current: &mut ADB, old_table: &ATable, new_table: ATable) -> Result<String> {
+    let mut tmp_table = new_table.clone();
+    tmp_table.name = tmp_table_name(&new_table.name);
+    let referenced =
+        is_referenced(current, &old_table.name) || refers_to(&new_table, &old_table.name);
+    let stmts: Vec<String> = if referenced {
+        // Other rows refer to the ones which are copied, so that these have to be back in a
+        // table of the original name for the constraints to be satisfied.
+        for column in &mut tmp_table.columns {
+            column.remove_reference();
+        }
+        vec![
+            DEFER_FOREIGN_KEYS.to_string(),
+            create_table(&tmp_table, false),
+            copy_table(old_table, &tmp_table)?,
+            drop_table(&old_table.name),
+            create_table(&new_table, false),
+            copy_table(&tmp_table, &new_table)?,
+            drop_table(&tmp_table.name),
+        ]
+    } else {
+        vec![
+            create_table(&tmp_table, false),
+            copy_table(old_table, &tmp_table)?,
+            drop_table(&old_table.name),
+            format!(
+                "ALTER TABLE {} RENAME TO {};",
+                helper::quote_reserved_word(&tmp_table.name),
+                helper::quote_reserved_word(&new_table.name)
+            ),
+        ]
+    };
     current.replace_table(new_table);
-    result
+    Ok(stmts.join("\n"))
 }
 
 /// Write SQL that performs an insert or update.
diff --git a/butane_core/src/migrations/adb.rs b/butane_core/src/migrations/adb.rs
index 4afeb16..129c51f 100644
--- a/butane_core/src/migrations/adb.rs
+++ b/butane_core/src/migrations/adb.rs
@@ -490,6 +490,11 @@ impl AColumn {
     pub fn remove_reference(&mut self) {
         self.reference = None;
     }
+    /// Make this an ordinary column if it is the primary key.
+    pub(crate) fn remove_pk(&mut self) {
+        self.pk = false;
+        self.auto = false;
+    }
     /// Return the type identifier.
     pub fn typeid(&self) -> Result<TypeIdentifier> {
         match &self.sqltype {
@@ -624,10 +629,6 @@ pub fn diff(old: &ADB, new: &ADB) -> Vec<Operation> {
         let table = old.tables.get(removed).expect("no table").clone();
         ops.push(Operation::RemoveTableConstraints(table));
     }
-    for removed in removed_tables {
-        ops.push(Operation::RemoveTable((*removed).to_string()));
-    }
-
     // Change existing tables
     for table in new_names.intersection(&old_names) {
         let table: &str = table.as_ref();
@@ -636,6 +637,10 @@ pub fn diff(old: &ADB, new: &ADB) -> Vec<Operation> {
             new.tables.get(table).expect("no table"),
         ));
     }
+    // Other tables may have referred to a removed one until now
+    for removed in removed_tables {
+        ops.push(Operation::RemoveTable((*removed).to_string()));
+    }
     for added in new_tables {
         let added: &str = added.as_ref();
         let table = new.tables.get(added).expect("no table");
-- 
2.43.0


From 30cc6fbae9ce25007495aa388e9a679f2663aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:02 +0000
Subject: [PATCH 27/41] fix: Postgres migrations of types, automatic keys and
 quoted names

Type changes convert the values where there is no implicit cast,
automatic keys get and lose their sequence, constraints of tables with
quoted names are found, blob defaults are literals, and a key can
become nullable.
---
 butane_core/src/db/pg.rs | 167 +++++++++++++++++++++++++++++++--------
 1 file changed, 135 insertions(+), 32 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index d2b46f5..2b3f586 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -701,6 +701,31 @@ fn drop_fkey_constraints(table: &ATable, column: &AColumn) -> Result<String> {
     modified_column.remove_reference();
     change_column(table, column, &modified_column)
 }
+/// Whether Postgres converts values of type `from` to `to` without being told how.
+fn has_cast(from: &TypeIdentifier, to: &TypeIdentifier) -> bool {
+    let number = |ty: &SqlType| matches!(ty, SqlType::Int | SqlType::BigInt | SqlType::Real);
+    #[cfg(feature = "datetime")]
+    let time = |ty: &SqlType| matches!(ty, SqlType::Date | SqlType::Timestamp);
+    #[cfg(not(feature = "datetime"))]
+    let time = |_: &SqlType| false;
+    match (from, to) {
+        (_, TypeIdentifier::Ty(SqlType::Text)) => true,
+        (TypeIdentifier::Ty(from), TypeIdentifier::Ty(to)) => {
+            (number(from) && number(to)) || (time(from) && time(to))
+        }
+        _ => false,
+    }
+}
+
+/// The type of a column, which for an automatic one is that of its values.
+fn plain_sqltype(col: &AColumn) -> Result<Cow<'_, str>> {
+    match col_sqltype(col)? {
+        Cow::Borrowed("SERIAL") => Ok(Cow::Borrowed("INTEGER")),
+        Cow::Borrowed("BIGSERIAL") => Ok(Cow::Borrowed("BIGINT")),
+        ty => Ok(ty),
+    }
+}
+
 fn col_sqltype(col: &AColumn) -> Result<Cow<'_, str>> {
     match col.typeid()? {
         TypeIdentifier::Name(name) => Ok(Cow::Owned(name)),
@@ -734,18 +759,55 @@ fn col_sqltype(col: &AColumn) -> Result<Cow<'_, str>> {
     }
 }
 
+/// A literal for a default value.
+fn literal_value(val: &SqlVal) -> Result<String> {
+    match val {
+        SqlVal::Blob(val) => Ok(format!("'\\x{}'", hex::encode(val))),
+        val => helper::sql_literal_value(val),
+    }
+}
+
+/// Name which Postgres gives a constraint or sequence of a column by default.
+fn default_object_name(tbl_name: &str, col_name: &str, suffix: &str) -> String {
+    let tbl = helper::quote_reserved_word(tbl_name);
+    let col = helper::quote_reserved_word(col_name);
+    if matches!((&tbl, &col), (Cow::Borrowed(_), Cow::Borrowed(_))) {
+        return format!("{tbl}_{col}_{suffix}");
+    }
+    // Names which are not quoted are folded to lower case.
+    let fold = |name: Cow<'_, str>| match name {
+        Cow::Borrowed(name) => name.to_ascii_lowercase(),
+        Cow::Owned(name) => name.trim_matches('"').to_string(),
+    };
+    format!("\"{}_{}_{suffix}\"", fold(tbl), fold(col))
+}
+
 fn drop_table(name: &str) -> String {
     format!("DROP TABLE {};", helper::quote_reserved_word(name))
 }
 
 fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
-    let default: SqlVal = helper::column_default(col)?;
-    let mut stmts = vec![format!(
-        "ALTER TABLE {} ADD COLUMN {} DEFAULT {};",
-        helper::quote_reserved_word(tbl_name),
-        define_column(col)?,
-        helper::sql_literal_value(&default)?
-    )];
+    let mut stmts = Vec::new();
+    if col.is_pk() {
+        // There can only be one primary key
+        stmts.push(drop_pkey(tbl_name));
+    }
+    stmts.push(if col.is_auto() {
+        // The values come from a sequence
+        format!(
+            "ALTER TABLE {} ADD COLUMN {};",
+            helper::quote_reserved_word(tbl_name),
+            define_column(col)?,
+        )
+    } else {
+        let default: SqlVal = helper::column_default(col)?;
+        format!(
+            "ALTER TABLE {} ADD COLUMN {} DEFAULT {};",
+            helper::quote_reserved_word(tbl_name),
+            define_column(col)?,
+            literal_value(&default)?
+        )
+    });
     if col.reference().is_some() {
         stmts.push(define_fkey_constraint(tbl_name, col));
     }
@@ -753,6 +815,15 @@ fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
     Ok(result)
 }
 
+fn drop_pkey(tbl_name: &str) -> String {
+    let tbl = helper::quote_reserved_word(tbl_name);
+    let constraint = match &tbl {
+        Cow::Borrowed(_) => format!("{tbl_name}_pkey"),
+        Cow::Owned(_) => format!("\"{tbl_name}_pkey\""),
+    };
+    format!("ALTER TABLE {tbl} DROP CONSTRAINT IF EXISTS {constraint};")
+}
+
 fn remove_column(tbl_name: &str, name: &str) -> String {
     format!(
         "ALTER TABLE {} DROP COLUMN {};",
@@ -776,16 +847,52 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
             quote_reserved_word(new.name())
         ));
     }
+    // The constraint would not fit while the type changes
+    if old.reference() != new.reference() && old.reference().is_some() {
+        stmts.push(format!(
+            "ALTER TABLE {} DROP CONSTRAINT {};",
+            quote_reserved_word(tbl_name),
+            default_object_name(tbl_name, old.name(), "fkey")
+        ));
+    }
+    let mut old_default = old.default();
+    if old.is_auto() && !new.is_auto() {
+        stmts.push(format!(
+            "ALTER TABLE {} ALTER COLUMN {} DROP DEFAULT;",
+            quote_reserved_word(tbl_name),
+            quote_reserved_word(old.name()),
+        ));
+        stmts.push(format!(
+            "DROP SEQUENCE IF EXISTS {};",
+            default_object_name(tbl_name, old.name(), "seq")
+        ));
+    }
     if old.typeid()? != new.typeid()? {
         // column type change
+        let new_type = plain_sqltype(new)?;
+        let using = if has_cast(&old.typeid()?, &new.typeid()?) {
+            String::new()
+        } else {
+            // The default may have no cast either
+            stmts.push(format!(
+                "ALTER TABLE {} ALTER COLUMN {} DROP DEFAULT;",
+                quote_reserved_word(tbl_name),
+                quote_reserved_word(old.name()),
+            ));
+            old_default = &None;
+            format!(" USING {}::TEXT::{new_type}", quote_reserved_word(old.name()))
+        };
         stmts.push(format!(
-            "ALTER TABLE {} ALTER COLUMN {} SET DATA TYPE {};",
+            "ALTER TABLE {} ALTER COLUMN {} SET DATA TYPE {new_type}{using};",
             quote_reserved_word(tbl_name),
             quote_reserved_word(old.name()),
-            col_sqltype(new)?,
         ));
     }
     if old.nullable() != new.nullable() {
+        if old.is_pk() && !new.is_pk() {
+            // A column of the primary key cannot be nullable
+            stmts.push(drop_pkey(tbl_name));
+        }
         stmts.push(format!(
             "ALTER TABLE {} ALTER COLUMN {} {} NOT NULL;",
             quote_reserved_word(tbl_name),
@@ -800,11 +907,7 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
 
         if new.is_pk() {
             // Drop the old primary key
-            stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT IF EXISTS {}_pkey;",
-                quote_reserved_word(tbl_name),
-                tbl_name
-            ));
+            stmts.push(drop_pkey(tbl_name));
 
             // add the new primary key
             stmts.push(format!(
@@ -828,15 +931,14 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
         } else {
             // Standard constraint naming scheme
             stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT {}_{}_key;",
+                "ALTER TABLE {} DROP CONSTRAINT {};",
                 quote_reserved_word(tbl_name),
-                tbl_name,
-                old.name()
+                default_object_name(tbl_name, old.name(), "key")
             ));
         }
     }
 
-    if old.default() != new.default() {
+    if old_default != new.default() {
         stmts.push(match new.default() {
             None => format!(
                 "ALTER TABLE {} ALTER COLUMN {} DROP DEFAULT;",
@@ -847,24 +949,25 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
                 "ALTER TABLE {} ALTER COLUMN {} SET DEFAULT {};",
                 quote_reserved_word(tbl_name),
                 quote_reserved_word(old.name()),
-                helper::sql_literal_value(val)?
+                literal_value(val)?
             ),
         });
     }
 
-    if old.reference() != new.reference() {
-        if old.reference().is_some() {
-            // Drop the old reference
-            stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT {}_{}_fkey;",
-                quote_reserved_word(tbl_name),
-                tbl_name,
-                old.name()
-            ));
-        }
-        if new.reference().is_some() {
-            stmts.push(define_fkey_constraint(tbl_name, new));
-        }
+    if new.is_auto() && !old.is_auto() {
+        let sequence = default_object_name(tbl_name, old.name(), "seq");
+        let tbl = quote_reserved_word(tbl_name);
+        let col = quote_reserved_word(old.name());
+        stmts.push(format!("CREATE SEQUENCE {sequence} OWNED BY {tbl}.{col};"));
+        stmts.push(format!(
+            "SELECT setval('{sequence}', COALESCE(MAX({col}), 0) + 1, false) FROM {tbl};"
+        ));
+        stmts.push(format!(
+            "ALTER TABLE {tbl} ALTER COLUMN {col} SET DEFAULT nextval('{sequence}');"
+        ));
+    }
+    if old.reference() != new.reference() && new.reference().is_some() {
+        stmts.push(define_fkey_constraint(tbl_name, new));
     }
 
     let result = stmts.join("\n");
-- 
2.43.0


From 9b381b481a0731806cc2983f8b7a5d337bb9136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:01 +0000
Subject: [PATCH 28/41] fix: migrations on disk with empty SQL, several
 compilers and embedded quotes

Writing empty SQL for a migration panicked. Types were recorded without
a lock while the directory did not exist yet, and tables always were, so
compilers running at the same time could lose or truncate each other's
files. The embedded JSON ended early when it contained a quote followed
by a hash.
---
 butane_cli/src/lib.rs                      | 7 ++++++-
 butane_core/src/migrations/fsmigrations.rs | 8 +++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index 4088bc6..3a93f12 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -371,6 +371,11 @@ pub fn embed(base_dir: &Path) -> Result<()> {
         mem_ms.add_migration(new_m)?;
     }
     let json = serde_json::to_string_pretty(&mem_ms)?;
+    // The raw string must not end before the JSON does.
+    let mut hashes = "#".to_string();
+    while json.contains(&format!("\"{hashes}")) {
+        hashes.push('#');
+    }
 
     let src = format!(
         "//! Butane migrations embedded in Rust.
@@ -379,7 +384,7 @@ use butane::migrations::MemMigrations;
 
 /// Load the butane migrations embedded in Rust.
 pub fn get_migrations() -> Result<MemMigrations, butane::Error> {{
-    let json = r#\"{json}\"#;
+    let json = r{hashes}\"{json}\"{hashes};
     MemMigrations::from_json(json)
 }}
 "
diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index a1dc4a5..d52c276 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -115,7 +115,7 @@ impl FsMigration {
         self.ensure_dir()?;
         let path = self.root.join(fname);
         let mut contents: Vec<u8> = contents.into();
-        if contents[contents.len() - 1] != b'\n' {
+        if contents.last() != Some(&b'\n') {
             contents.push(b'\n');
         }
         self.fs
@@ -140,6 +140,7 @@ impl FsMigration {
     }
 
     fn lock_exclusive(&self) -> Result<MigrationLock> {
+        self.ensure_dir()?;
         MigrationLock::new_exclusive(&self.root.join("lock"))
     }
 
@@ -178,6 +179,7 @@ impl FsMigration {
 
 impl MigrationMut for FsMigration {
     fn add_modified_table(&mut self, table: &ATable) -> Result<()> {
+        let _lock = self.lock_exclusive()?;
         self.write_contents(
             &format!("{}.table", table.name),
             serde_json::to_string_pretty(table)?.as_bytes(),
@@ -213,7 +215,7 @@ impl MigrationMut for FsMigration {
 
     fn delete_table(&mut self, table: &str) -> Result<()> {
         let fname = format!("{table}.table");
-        self.ensure_dir()?;
+        let _lock = self.lock_exclusive()?;
         let path = self.root.join(fname);
         std::fs::remove_file(path)?;
         Ok(())
@@ -241,7 +243,7 @@ impl MigrationMut for FsMigration {
     }
 
     fn add_type(&mut self, key: TypeKey, sqltype: DeferredSqlType) -> Result<()> {
-        let _lock = self.lock_exclusive();
+        let _lock = self.lock_exclusive()?;
         let typefile = self.root.join(TYPES_FILENAME);
 
         let mut types: SqlTypeMap = match self.fs.read(&typefile) {
-- 
2.43.0


From 0aa37970c5ad38a356341cc99c1550c97311de7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:11 +0000
Subject: [PATCH 29/41] fix: resolve the types of models whose name is another
 model's table

A model A with the table name B, next to a model B with a table name of
its own, made references to either take the key type of the other.
---
 butane_core/src/migrations/adb.rs | 33 +++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/butane_core/src/migrations/adb.rs b/butane_core/src/migrations/adb.rs
index 129c51f..3c39af0 100644
--- a/butane_core/src/migrations/adb.rs
+++ b/butane_core/src/migrations/adb.rs
@@ -217,6 +217,35 @@ impl ADB {
             }
         }
 
+        // A reference by type means the table of that type, even when the
+        // table of another type happens to have the name of this type.
+        let renamed: BTreeMap<TypeKey, TypeKey> = self
+            .extra_types
+            .iter()
+            .filter_map(|(key, ty)| match (key, ty) {
+                (TypeKey::PK(_), DeferredSqlType::Deferred(table @ TypeKey::PK(_))) => {
+                    Some((key.clone(), table.clone()))
+                }
+                _ => None,
+            })
+            .collect();
+        let column_types = self
+            .tables
+            .values_mut()
+            .flat_map(|table| table.columns.iter_mut().map(|col| &mut col.sqltype));
+        let custom_types = self
+            .extra_types
+            .iter_mut()
+            .filter(|(key, _)| !matches!(key, TypeKey::PK(_)))
+            .map(|(_, ty)| ty);
+        for ty in column_types.chain(custom_types) {
+            if let DeferredSqlType::Deferred(key) = ty {
+                if let Some(table) = renamed.get(key) {
+                    *key = table.clone();
+                }
+            }
+        }
+
         while changed {
             changed = false;
 
@@ -235,7 +264,11 @@ impl ADB {
                 }
             }
             for (key, ty) in self.extra_types.iter_mut() {
+                // The tables decide what their own names mean.
+                let is_table =
+                    matches!(key, TypeKey::PK(name) if self.tables.contains_key(name));
                 match ty {
+                    DeferredSqlType::Known(_) | DeferredSqlType::KnownId(_) if is_table => {}
                     DeferredSqlType::Known(ty) => {
                         changed |= resolver.insert(key.clone(), ty.clone().into()) || changed;
                     }
-- 
2.43.0


From 0ab75ceb993ae8fb9f79122fa7bb2cde453eab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:18 +0000
Subject: [PATCH 30/41] fix: tables of folded names are found, buffered rows
 know the current one

has_table said no on PostgreSQL and Turso for tables whose unquoted name
is folded to lower case. current() on buffered rows gave the row after the
one returned last. A clone of an adapted backend lost its runtime when the
original was dropped.
---
 butane_core/src/db/connmethods.rs  | 3 ++-
 butane_core/src/db/pg.rs           | 5 +++++
 butane_core/src/db/sync_adapter.rs | 2 +-
 butane_core/src/db/turso.rs        | 5 +++--
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/butane_core/src/db/connmethods.rs b/butane_core/src/db/connmethods.rs
index 597b128..e1b0762 100644
--- a/butane_core/src/db/connmethods.rs
+++ b/butane_core/src/db/connmethods.rs
@@ -182,7 +182,8 @@ where
     }
 
     fn current(&self) -> Option<&dyn BackendRow> {
-        self.rows.get(self.idx).map(|row| row as &dyn BackendRow)
+        let idx = self.idx.checked_sub(1)?;
+        self.rows.get(idx).map(|row| row as &dyn BackendRow)
     }
 }
 
diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 2b3f586..b7ca5e0 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -350,6 +350,11 @@ where
             .client()?
             .prepare("SELECT table_name FROM information_schema.tables WHERE table_name=$1;");
         let stmt = future.await?;
+        // Names which are not quoted are folded to lower case when the table is created.
+        let table = match helper::quote_reserved_word(table) {
+            Cow::Borrowed(unquoted) => Cow::Owned(unquoted.to_ascii_lowercase()),
+            Cow::Owned(_) => Cow::Borrowed(table),
+        };
         let tableref: &[&(dyn postgres::types::ToSql + Sync)] = &[&table];
         let future = self.client()?.query(&stmt, tableref);
         let rows = future.await?;
diff --git a/butane_core/src/db/sync_adapter.rs b/butane_core/src/db/sync_adapter.rs
index b0c329b..36e23b3 100644
--- a/butane_core/src/db/sync_adapter.rs
+++ b/butane_core/src/db/sync_adapter.rs
@@ -74,7 +74,7 @@ where
     fn clone(&self) -> Self {
         SyncAdapter {
             runtime_handle: self.runtime_handle.clone(),
-            _runtime: None,
+            _runtime: self._runtime.clone(),
             inner: self.inner.clone(),
         }
     }
diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 1bc76d9..bf70639 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -575,8 +575,9 @@ impl ConnectionMethods for TursoConnection {
     }
 
     async fn has_table(&self, table: &str) -> Result<bool> {
-        let sql = "SELECT name FROM sqlite_master WHERE type='table' AND name=?";
-        let params = vec![turso::Value::Text(table.to_string())];
+        // Names are not case sensitive, and the case they were created with is not kept.
+        let sql = "SELECT name FROM sqlite_master WHERE type='table' AND LOWER(name)=?";
+        let params = vec![turso::Value::Text(table.to_ascii_lowercase())];
         Ok(!self.fetch(sql, params).await?.is_empty())
     }
 }
-- 
2.43.0


From 659608b5b6657b7c69b55b4adaa9300995d76857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:00 +0000
Subject: [PATCH 31/41] fix: any legal name of a field or table works, and is
 not taken for SQL

Columns of conditions and RETURNING were not quoted, words missing from the
list of keywords neither; columns named owner or has were ambiguous below a
Many; a table excluded, or a column rowid or false, hid what the engine means
by these names; filters panicked on raw identifiers.
---
 butane_codegen/src/filter.rs       |  5 ++-
 butane_core/src/db/helper.rs       | 54 ++++++++++++++++++++++--------
 butane_core/src/db/pg.rs           | 14 ++++++--
 butane_core/src/db/sqlite.rs       |  9 +++--
 butane_core/src/db/turso.rs        | 12 ++++---
 butane_core/src/query/fieldexpr.rs | 21 ++++++------
 6 files changed, 81 insertions(+), 34 deletions(-)

diff --git a/butane_codegen/src/filter.rs b/butane_codegen/src/filter.rs
index c8627e6..12cdf4a 100755
--- a/butane_codegen/src/filter.rs
+++ b/butane_codegen/src/filter.rs
@@ -30,7 +30,10 @@ pub fn handle_expr(fields: &impl ToTokens, expr: &Expr) -> TokenStream2 {
 }
 
 fn ident(name: &str) -> Ident {
-    Ident::new(name, Span::call_site())
+    match name.strip_prefix("r#") {
+        Some(raw) => Ident::new_raw(raw, Span::call_site()),
+        None => Ident::new(name, Span::call_site()),
+    }
 }
 
 fn handle_block(block: &syn::Block) -> TokenStream2 {
diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index c521aed..bb6767c 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -19,15 +19,31 @@ pub(crate) trait PlaceholderSource {
     fn next_placeholder(&mut self) -> Cow<'_, str>;
 }
 
+/// Words reserved by one of the backends which `sqlparser` does not know as keywords.
+const MORE_KEYWORDS: &[&str] = &["ANALYSE", "INDEXED", "ISNULL", "VARIADIC"];
+
 /// Quotes the `word` if it is a reserved word.
 pub fn quote_reserved_word(word: &str) -> Cow<'_, str> {
-    if sqlparser::keywords::ALL_KEYWORDS.contains(&word.to_uppercase().as_str()) {
+    let upper = word.to_uppercase();
+    if sqlparser::keywords::ALL_KEYWORDS.contains(&upper.as_str())
+        || MORE_KEYWORDS.contains(&upper.as_str())
+    {
         format!("\"{}\"", word).into()
     } else {
         word.into()
     }
 }
 
+/// The table of an upsert, under another name if its own is the one of the row not inserted.
+pub fn upsert_target(table: &str) -> Cow<'_, str> {
+    let quoted = quote_reserved_word(table);
+    if table.eq_ignore_ascii_case("excluded") {
+        format!("{quoted} AS target").into()
+    } else {
+        quoted
+    }
+}
+
 /// Writes to `w` the SQL to express the expression given in `expr`.
 ///
 /// Values contained in `expr` are rendered as placeholders in the SQL
@@ -53,22 +69,32 @@ where
         },
         Placeholder => w.write_str(&pls.next_placeholder()),
         Condition(c) => match *c {
-            True => write!(w, "TRUE"),
+            // Not a literal, which would be taken for a column of that name
+            True => write!(w, "1 = 1"),
             Eq(col, ex) => match ex {
-                Expr::Val(SqlVal::Null) => write!(w, "{col} IS NULL"),
-                _ => write!(w, "{col} = ").and_then(|_| Ok(f(ex, values, pls, w))),
+                Expr::Val(SqlVal::Null) => write!(w, "{} IS NULL", quote_reserved_word(col)),
+                _ => write!(w, "{} = ", quote_reserved_word(col))
+                    .and_then(|_| Ok(f(ex, values, pls, w))),
             },
             Ne(col, ex) => match ex {
-                Expr::Val(SqlVal::Null) => write!(w, "{col} IS NOT NULL"),
-                _ => write!(w, "{col} <> ").and_then(|_| Ok(f(ex, values, pls, w))),
+                Expr::Val(SqlVal::Null) => write!(w, "{} IS NOT NULL", quote_reserved_word(col)),
+                _ => write!(w, "{} <> ", quote_reserved_word(col))
+                    .and_then(|_| Ok(f(ex, values, pls, w))),
             },
-            Lt(col, ex) => write!(w, "{col} < ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Gt(col, ex) => write!(w, "{col} > ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Le(col, ex) => write!(w, "{col} <= ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Ge(col, ex) => write!(w, "{col} >= ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Like(col, ex) => write!(w, "{col} like ").and_then(|_| Ok(f(ex, values, pls, w))),
+            Lt(col, ex) => {
+                write!(w, "{} < ", quote_reserved_word(col)).and_then(|_| Ok(f(ex, values, pls, w)))
+            }
+            Gt(col, ex) => {
+                write!(w, "{} > ", quote_reserved_word(col)).and_then(|_| Ok(f(ex, values, pls, w)))
+            }
+            Le(col, ex) => write!(w, "{} <= ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
+            Ge(col, ex) => write!(w, "{} >= ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
+            Like(col, ex) => write!(w, "{} like ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
             // An empty conjunction is true
-            AllOf(conds) if conds.is_empty() => write!(w, "TRUE"),
+            AllOf(conds) if conds.is_empty() => write!(w, "1 = 1"),
             AllOf(conds) => {
                 // future perf improvement: figure out a clean way to avoid the extra boxing
                 let mut sep = "";
@@ -137,7 +163,7 @@ where
                 Ok(())
             }
             // Nothing is a member of the empty set
-            In(_, vals) if vals.is_empty() => write!(w, "FALSE"),
+            In(_, vals) if vals.is_empty() => write!(w, "1 = 0"),
             In(col, vals) => {
                 write!(w, "{} IN (", quote_reserved_word(col)).unwrap();
                 let mut remaining = vals.len();
@@ -327,7 +353,7 @@ pub(crate) fn sql_column(col: query::Column, w: &mut impl Write) {
             quote_reserved_word(table),
             quote_reserved_word(col.name())
         ),
-        None => w.write_str(col.name()),
+        None => w.write_str(&quote_reserved_word(col.name())),
     }
     .unwrap()
 }
diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index b7ca5e0..f6de144 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -241,7 +241,12 @@ where
             &mut PgPlaceholderSource::new(),
             &mut sql,
         );
-        write!(&mut sql, " RETURNING {}", pkcol.name()).unwrap();
+        write!(
+            &mut sql,
+            " RETURNING {}",
+            helper::quote_reserved_word(pkcol.name())
+        )
+        .unwrap();
         if cfg!(feature = "log") {
             debug!("insert sql {sql}");
         }
@@ -885,7 +890,10 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
                 quote_reserved_word(old.name()),
             ));
             old_default = &None;
-            format!(" USING {}::TEXT::{new_type}", quote_reserved_word(old.name()))
+            format!(
+                " USING {}::TEXT::{new_type}",
+                quote_reserved_word(old.name())
+            )
         };
         stmts.push(format!(
             "ALTER TABLE {} ALTER COLUMN {} SET DATA TYPE {new_type}{using};",
@@ -987,7 +995,7 @@ pub fn sql_insert_or_replace_with_placeholders(
     w: &mut impl Write,
 ) {
     write!(w, "INSERT ").unwrap();
-    write!(w, "INTO {} (", helper::quote_reserved_word(table)).unwrap();
+    write!(w, "INTO {} (", helper::upsert_target(table)).unwrap();
     helper::list_columns(columns, w);
     write!(w, ") VALUES (").unwrap();
     columns.iter().fold(1, |n, _| {
diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index b794bb1..04a7bf2 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -301,9 +301,14 @@ impl ConnectionMethods for rusqlite::Connection {
             debug!("values {values:?}");
         }
         self.execute(&sql, rusqlite::params_from_iter(values))?;
+        // A column of the model hides the one of the engine with the same name.
+        let rowid = ["ROWID", "_ROWID_", "OID"]
+            .into_iter()
+            .find(|name| !columns.iter().any(|c| c.name().eq_ignore_ascii_case(name)))
+            .unwrap_or("ROWID");
         let pk: SqlVal = self.query_row_and_then(
             &format!(
-                "SELECT {} FROM {} WHERE ROWID = last_insert_rowid()",
+                "SELECT {} FROM {} WHERE {rowid} = last_insert_rowid()",
                 helper::quote_reserved_word(pkcol.name()),
                 helper::quote_reserved_word(table),
             ),
@@ -969,7 +974,7 @@ fn rebuild_table(current: &mut ADB, old_table: &ATable, new_table: ATable) -> Re
 /// Write SQL that performs an insert or update.
 pub fn sql_insert_or_update(table: &str, columns: &[Column], pkcol: &Column, w: &mut impl Write) {
     write!(w, "INSERT ").unwrap();
-    write!(w, "INTO {} (", helper::quote_reserved_word(table)).unwrap();
+    write!(w, "INTO {} (", helper::upsert_target(table)).unwrap();
     helper::list_columns(columns, w);
     write!(w, ") VALUES (").unwrap();
     columns.iter().fold("", |sep, _| {
diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index bf70639..b4ad1f1 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -576,9 +576,13 @@ impl ConnectionMethods for TursoConnection {
 
     async fn has_table(&self, table: &str) -> Result<bool> {
         // Names are not case sensitive, and the case they were created with is not kept.
-        let sql = "SELECT name FROM sqlite_master WHERE type='table' AND LOWER(name)=?";
-        let params = vec![turso::Value::Text(table.to_ascii_lowercase())];
-        Ok(!self.fetch(sql, params).await?.is_empty())
+        let table = table.to_lowercase();
+        let sql = "SELECT name FROM sqlite_master WHERE type='table'";
+        let names = self.fetch(sql, ()).await?;
+        Ok(names.iter().any(|row| match row.get_value(0) {
+            Ok(turso::Value::Text(name)) => name.to_lowercase() == table,
+            _ => false,
+        }))
     }
 }
 
@@ -1170,7 +1174,7 @@ fn change_column(
 /// Write SQL that performs an insert or update.
 pub fn sql_insert_or_update(table: &str, columns: &[Column], pkcol: &Column, w: &mut impl Write) {
     write!(w, "INSERT ").unwrap();
-    write!(w, "INTO {} (", helper::quote_reserved_word(table)).unwrap();
+    write!(w, "INTO {} (", helper::upsert_target(table)).unwrap();
     helper::list_columns(columns, w);
     write!(w, ") VALUES (").unwrap();
     columns.iter().fold("", |sep, _| {
diff --git a/butane_core/src/query/fieldexpr.rs b/butane_core/src/query/fieldexpr.rs
index f2c3f70..bc8550e 100644
--- a/butane_core/src/query/fieldexpr.rs
+++ b/butane_core/src/query/fieldexpr.rs
@@ -4,7 +4,7 @@ use std::borrow::{Borrow, Cow};
 use std::marker::PhantomData;
 
 use crate::fkey::ForeignKey;
-use crate::query::{BoolExpr, Column, Expr, Join};
+use crate::query::{BoolExpr, Expr};
 use crate::sqlval::{FieldType, SqlVal, ToSql};
 use crate::DataObject;
 
@@ -120,16 +120,17 @@ where
         }
     }
     pub fn contains(&self, q: BoolExpr) -> BoolExpr {
-        BoolExpr::SubqueryJoin {
+        // Nested rather than joined, so that the columns named in `q` can only be those of `T`.
+        BoolExpr::Subquery {
             col: O::PKCOL,
-            tbl2: Cow::Borrowed(T::TABLE),
-            col2: Column::new(self.many_table, "owner"),
-            joins: vec![Join::Inner {
-                join_table: self.many_table,
-                col1: Column::new(self.many_table, "has"),
-                col2: Column::new(T::TABLE, T::PKCOL),
-            }],
-            expr: Box::new(q),
+            tbl2: Cow::Borrowed(self.many_table),
+            tbl2_col: "owner",
+            expr: Box::new(BoolExpr::Subquery {
+                col: "has",
+                tbl2: Cow::Borrowed(T::TABLE),
+                tbl2_col: T::PKCOL,
+                expr: Box::new(q),
+            }),
         }
     }
     pub fn containspk(&self, pk: impl Borrow<<T::PKType as FieldType>::RefType>) -> BoolExpr {
-- 
2.43.0


From 436b6501f35639bad6a78bcb9dd462fc87a304ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:18 +0000
Subject: [PATCH 32/41] fix: Turso's insert_returning_pk returns a key that was
 given, which need not be a row id

---
 butane_core/src/db/turso.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index b4ad1f1..d64b0a2 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -471,6 +471,14 @@ impl ConnectionMethods for TursoConnection {
         let busy = self.busy.lock().await;
         self.run_exclusive(&sql, params).await?;
 
+        // Only keys chosen by the database are row ids
+        let given = columns.iter().position(|c| c.name() == pkcol.name());
+        if let Some(pk) = given.map(|i| &values[i]) {
+            if !matches!(pk, SqlValRef::Null) {
+                return Ok(pk.clone().into());
+            }
+        }
+
         // Get the last inserted rowid, before another statement can insert one
         let rows = self
             .fetch_exclusive("SELECT last_insert_rowid()", ())
-- 
2.43.0


From 7ef62de9abbf6b96cb319455f67c06f41e044cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:18 +0000
Subject: [PATCH 33/41] fix: connection strings with special characters, any
 scheme case and turso: URIs are parsed as documented

---
 butane_core/src/db/mod.rs   | 130 ++++++++++++++++++++++++------------
 butane_core/src/db/turso.rs |  37 ++++++----
 2 files changed, 113 insertions(+), 54 deletions(-)

diff --git a/butane_core/src/db/mod.rs b/butane_core/src/db/mod.rs
index 1df43ad..cea23a2 100644
--- a/butane_core/src/db/mod.rs
+++ b/butane_core/src/db/mod.rs
@@ -591,8 +591,8 @@ impl ConnectionSpec {
     }
 
     fn is_pg_key_value_pairs(connection_string: &str) -> bool {
-        // If it starts with a scheme (contains ://), it's a URI, not key-value pairs
-        if connection_string.contains("://") {
+        // If it starts with a scheme, it's a URI, not key-value pairs. A value may contain ://
+        if uri_scheme(connection_string).is_some() {
             return false;
         }
         // host and hostaddr are optional in Postgresql, however this prevents connecting
@@ -602,28 +602,87 @@ impl ConnectionSpec {
     }
 
     /// Add a query parameter to the connection string.
+    ///
+    /// `name` and `value` are quoted or encoded as required by the type of connection string.
     pub fn add_parameter(&mut self, name: &str, value: &str) -> Result<()> {
         if self.backend_name() == "pg" && Self::is_pg_key_value_pairs(&self.conn_str) {
+            if name.is_empty() || name.contains(|c: char| c.is_whitespace() || c == '=') {
+                return Err(crate::Error::UnknownConnectString(format!(
+                    "Not a valid connection parameter name: {name:?}"
+                )));
+            }
             // Append using PostgreSQL key-value pair syntax.
-            self.conn_str.push_str(&format!(" {}={}", name, value));
+            self.conn_str
+                .push_str(&format!(" {}={}", name, pg_quote_value(value)));
             return Ok(());
         }
-        if self.connection_string_uri().is_none() {
+        let is_pg_uri = is_pg_uri(&self.conn_str);
+        if !is_pg_uri && self.connection_string_uri().is_none() {
             return Err(crate::Error::UnknownConnectString(
                 "Cannot add query parameter to connection string that is not a postgres or URI"
                     .to_string(),
             ));
         }
 
-        if self.conn_str.contains('?') {
-            self.conn_str.push_str(&format!("&{}={}", name, value));
+        // The query starts after any credentials and ends before any fragment. Fragments do not
+        // exist in PostgreSQL URIs.
+        let (start, end) = if is_pg_uri {
+            (self.conn_str.find('@').unwrap_or(0), self.conn_str.len())
         } else {
-            self.conn_str.push_str(&format!("?{}={}", name, value));
-        }
+            (0, self.conn_str.find('#').unwrap_or(self.conn_str.len()))
+        };
+        let separator = match self.conn_str[start..end].split_once('?') {
+            None => "?",
+            Some((_, query)) if query.is_empty() || query.ends_with('&') => "",
+            Some(_) => "&",
+        };
+        let parameter = format!("{separator}{}={}", uri_encode(name), uri_encode(value));
+        self.conn_str.insert_str(end, &parameter);
         Ok(())
     }
 }
 
+/// The scheme of a string which starts like `scheme://`.
+fn uri_scheme(value: &str) -> Option<&str> {
+    let (scheme, _) = value.split_once("://")?;
+    let valid = scheme.starts_with(|c: char| c.is_ascii_alphabetic())
+        && scheme
+            .chars()
+            .all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c));
+    valid.then_some(scheme)
+}
+
+/// If the string is a PostgreSQL URI. These include ones which are not URLs, such as those naming
+/// several hosts.
+fn is_pg_uri(value: &str) -> bool {
+    uri_scheme(value).is_some_and(|scheme| {
+        scheme.eq_ignore_ascii_case("postgres") || scheme.eq_ignore_ascii_case("postgresql")
+    })
+}
+
+/// Quote a value for use in PostgreSQL key-value pairs, if it needs to be.
+fn pg_quote_value(value: &str) -> Cow<'_, str> {
+    let special = |c: char| c.is_whitespace() || c == '\'' || c == '\\';
+    if !value.is_empty() && !value.contains(special) {
+        return value.into();
+    }
+    let escaped = value.replace('\\', "\\\\").replace('\'', "\\'");
+    format!("'{escaped}'").into()
+}
+
+/// Percent-encode a name or value for use in the query of a URI.
+fn uri_encode(value: &str) -> String {
+    let mut encoded = String::with_capacity(value.len());
+    for byte in value.bytes() {
+        if byte.is_ascii_alphanumeric() || b"-._~/:,".contains(&byte) {
+            encoded.push(byte.into());
+        } else {
+            encoded.push_str(&format!("%{byte:02X}"));
+        }
+    }
+    encoded
+}
+
 /// Convert a string to a connection spec.
 ///
 /// The string may be any connection string supported by the database backend.
@@ -638,54 +697,41 @@ impl ConnectionSpec {
 impl TryFrom<&str> for ConnectionSpec {
     type Error = crate::Error;
     fn try_from(value: &str) -> Result<Self> {
+        // The scheme is not case sensitive, but not all backends know that.
+        let with_scheme = |scheme: &str| match value.split_once(':') {
+            Some((_, rest)) => format!("{scheme}:{rest}"),
+            None => value.to_string(),
+        };
         match url::Url::parse(value) {
             Ok(parsed) => {
                 match parsed.scheme() {
-                    "sqlite" => {
-                        // SQLite uses file: URLs, but we want to accept sqlite:
-                        // in order that the URIs are more expressive.
-                        let value = value.replacen("sqlite:", "file:", 1);
-                        Ok(ConnectionSpec {
-                            backend_name: "sqlite".to_string(),
-                            conn_str: value,
-                        })
-                    }
-                    "file" => Ok(ConnectionSpec {
+                    // SQLite uses file: URLs, but we want to accept sqlite:
+                    // in order that the URIs are more expressive.
+                    "sqlite" | "file" => Ok(ConnectionSpec {
                         backend_name: "sqlite".to_string(),
-                        conn_str: value.to_string(),
+                        conn_str: with_scheme("file"),
                     }),
-                    "postgres" | "postgresql" => Ok(ConnectionSpec {
+                    scheme @ ("postgres" | "postgresql") => Ok(ConnectionSpec {
                         backend_name: "pg".to_string(),
-                        conn_str: value.to_string(),
+                        conn_str: with_scheme(scheme),
                     }),
-                    "libsql" => {
+                    "libsql" => Ok(ConnectionSpec {
                         // libsql:// is an alias for turso://
-                        let value = value.replacen("libsql:", "turso:", 1);
-                        Ok(ConnectionSpec {
-                            backend_name: "turso".to_string(),
-                            conn_str: value,
-                        })
-                    }
+                        backend_name: "turso".to_string(),
+                        conn_str: with_scheme("turso"),
+                    }),
                     _ => Ok(ConnectionSpec {
                         backend_name: parsed.scheme().to_string(),
                         conn_str: value.to_string(),
                     }),
                 }
             }
-            Err(url::ParseError::InvalidPort) => {
-                // This occurs when using a PostgreSQL multi-host connection string.
-                if value.starts_with("postgres") {
-                    Ok(ConnectionSpec {
-                        backend_name: "pg".to_string(),
-                        conn_str: value.to_string(),
-                    })
-                } else {
-                    Ok(ConnectionSpec {
-                        backend_name: "sqlite".to_string(),
-                        conn_str: value.to_string(),
-                    })
-                }
-            }
+            // PostgreSQL connection strings need not be valid URLs. They may have several hosts,
+            // each with a port, and no host at all after the user name.
+            Err(_) if is_pg_uri(value) => Ok(ConnectionSpec {
+                backend_name: "pg".to_string(),
+                conn_str: with_scheme(&uri_scheme(value).unwrap_or_default().to_ascii_lowercase()),
+            }),
             Err(_) => {
                 // Spaces are allowed between the key and the equals sign in a PostgreSQL connection string.
                 if Self::is_pg_key_value_pairs(value) {
diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index d64b0a2..09f2150 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -133,6 +133,26 @@ impl Backend for TursoBackend {
     }
 }
 
+/// The path of the database named by a connection string, which is either a path or a `turso:` URI.
+fn local_path(conn_str: &str) -> Result<&str> {
+    let Some(path) = conn_str.strip_prefix("turso:") else {
+        return Ok(conn_str);
+    };
+    let unsupported = |what| {
+        Err(Error::UnknownConnectString(format!(
+            "{what} are not supported by Turso: {conn_str}"
+        )))
+    };
+    if path.contains(['?', '#']) {
+        return unsupported("Parameters");
+    }
+    match path.strip_prefix("//") {
+        Some(path) if path.starts_with('/') => Ok(path),
+        Some(_) => unsupported("Remote databases"),
+        None => Ok(path),
+    }
+}
+
 /// Turso database connection.
 #[derive(Debug)]
 pub struct TursoConnection {
@@ -144,19 +164,12 @@ pub struct TursoConnection {
 
 impl TursoConnection {
     async fn open(path: impl AsRef<str>) -> Result<Self> {
-        let path_str = path.as_ref();
+        let path_str = local_path(path.as_ref())?;
 
-        let db = if path_str == ":memory:" {
-            turso::Builder::new_local(":memory:")
-                .build()
-                .await
-                .map_err(|e| Error::Internal(e.to_string()))?
-        } else {
-            turso::Builder::new_local(path_str)
-                .build()
-                .await
-                .map_err(|e| Error::Internal(e.to_string()))?
-        };
+        let db = turso::Builder::new_local(path_str)
+            .build()
+            .await
+            .map_err(|e| Error::Internal(e.to_string()))?;
 
         let conn = db.connect().map_err(|e| Error::Internal(e.to_string()))?;
 
-- 
2.43.0


From fd0b154c5f582b60bba81c845a7de5aa6ad0e999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:18 +0000
Subject: [PATCH 34/41] fix: the async adapter's worker neither shares its
 context for Debug nor outlives its caller's borrows

---
 butane_core/src/db/adapter.rs | 73 ++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 31 deletions(-)

diff --git a/butane_core/src/db/adapter.rs b/butane_core/src/db/adapter.rs
index 410a5b7..a000f33 100644
--- a/butane_core/src/db/adapter.rs
+++ b/butane_core/src/db/adapter.rs
@@ -12,7 +12,11 @@ use std::thread;
 use std::thread::JoinHandle;
 
 enum Command {
-    Func(Box<dyn FnOnce() + Send>),
+    /// The sender is dropped when the function has returned, or will never run.
+    Func(
+        Box<dyn FnOnce() + Send>,
+        crossbeam_channel::Sender<std::convert::Infallible>,
+    ),
     Shutdown,
 }
 
@@ -30,10 +34,11 @@ impl AsyncAdapterEnv {
         let thread_handle = thread::spawn(move || {
             while let Ok(cmd) = receiver.recv() {
                 match cmd {
-                    Command::Func(func) => {
+                    Command::Func(func, finished) => {
                         // If func panics, whoever is waiting for its result gets an error. This thread
                         // must live on, as the context can only be dropped here.
                         _ = catch_unwind(AssertUnwindSafe(func));
+                        drop(finished);
                     }
                     Command::Shutdown => {
                         return; // break out of the loop
@@ -78,11 +83,8 @@ impl AsyncAdapterEnv {
         let (finished, _wait_guard) = WaitGuard::new();
         let func_taking_ptr = |ctx: SyncSendPtrMut<T>| func(unsafe { ctx.inner.as_ref() }.unwrap());
         unsafe {
-            let wrapped_func = move || {
-                _ = tx.send(func_taking_ptr(context.clone_unsafe()));
-                drop(finished);
-            };
-            self.invoke_internal_unsafe(wrapped_func)?;
+            let wrapped_func = move || _ = tx.send(func_taking_ptr(context.clone_unsafe()));
+            self.invoke_internal_unsafe(wrapped_func, finished)?;
         }
         rx.await?
     }
@@ -104,11 +106,8 @@ impl AsyncAdapterEnv {
         let (finished, _wait_guard) = WaitGuard::new();
         let func_taking_ptr = |ctx: SyncSendPtrMut<T>| func(unsafe { ctx.inner.as_mut().unwrap() });
         unsafe {
-            let wrapped_func = move || {
-                _ = tx.send(func_taking_ptr(context.clone_unsafe()));
-                drop(finished);
-            };
-            self.invoke_internal_unsafe(wrapped_func)?;
+            let wrapped_func = move || _ = tx.send(func_taking_ptr(context.clone_unsafe()));
+            self.invoke_internal_unsafe(wrapped_func, finished)?;
         }
         rx.await?
     }
@@ -123,11 +122,12 @@ impl AsyncAdapterEnv {
         'c: 'result,
     {
         let (tx, rx) = crossbeam_channel::unbounded();
+        let (finished, _wait_guard) = WaitGuard::new();
         let context_ptr = unsafe { SendPtr::new(context) };
         let func_taking_ptr = |ctx: SendPtr<T>| func(unsafe { ctx.inner.as_ref() }.unwrap());
         unsafe {
             let wrapped_func = move || _ = tx.send(func_taking_ptr(context_ptr));
-            self.invoke_internal_unsafe(wrapped_func)?;
+            self.invoke_internal_unsafe(wrapped_func, finished)?;
         }
         rx.recv()?
     }
@@ -137,22 +137,21 @@ impl AsyncAdapterEnv {
         // wrapped_func is a complete encapsulation of the function we
         // want to invoke without any parameters left to provide
         wrapped_func: impl FnOnce() + Send + 'result,
+        finished: crossbeam_channel::Sender<std::convert::Infallible>,
     ) -> Result<()> {
         // We transmute wrapped_func (with an intermediate boxing
         // step) solely to transform it's lifetime. The lifetime is an
         // issue here because Rust itself has no way of knowing how
         // long our sync worker thread is going to use it for.  But
         // *we* know that our worker thread will immediately execute
-        // the function and the caller to this method will wait to
-        // hear from the worker thread before proceeding (and thus
-        // before letting the lifetime lapse). An async caller may be
-        // dropped before it has heard, in which case its `WaitGuard`
-        // does the waiting.
+        // the function and the `WaitGuard` of the caller to this method
+        // waits for the worker thread to return from it before
+        // letting the lifetime lapse, also if the caller is dropped early.
         // https://stackoverflow.com/questions/52424449/
         let boxed_func: Box<dyn FnOnce() + Send + 'result> = Box::new(wrapped_func);
         let static_func: Box<dyn FnOnce() + Send + 'static> =
             unsafe { std::mem::transmute(boxed_func) };
-        self.sender.send(Command::Func(static_func))?;
+        self.sender.send(Command::Func(static_func, finished))?;
         Ok(())
     }
 }
@@ -170,12 +169,12 @@ impl Drop for AsyncAdapterEnv {
     }
 }
 
-/// Blocks on drop until the other end, which is given to the function sent to
+/// Blocks on drop until the other end, which accompanies the function sent to
 /// the worker thread, has been dropped.
 ///
-/// That function borrows from the future which is waiting for it. When the future
-/// runs to completion the function has already finished, but if the future
-/// is dropped early, the borrows must not end while the function can still use them.
+/// That function borrows from the caller which is waiting for it. The borrows must not end
+/// before the function has returned, whether the caller already has its result or
+/// is a future which is dropped early.
 struct WaitGuard {
     receiver: crossbeam_channel::Receiver<std::convert::Infallible>,
 }
@@ -231,19 +230,31 @@ where
 unsafe impl<T: ?Sized> Send for SyncSendPtrMut<T> {}
 unsafe impl<T: ?Sized> Sync for SyncSendPtrMut<T> {}
 
-impl<T: Debug + ?Sized> Debug for SyncSendPtrMut<T> {
-    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::result::Result<(), std::fmt::Error> {
-        // We enforce that inner is non-null and valid.
-        unsafe { (*self.inner).fmt(f) }
-    }
-}
-
-#[derive(Debug)]
 pub(super) struct AsyncAdapter<T: ?Sized> {
     env: Arc<AsyncAdapterEnv>,
     context: SyncSendPtrMut<T>,
 }
 
+impl<T: Debug + ?Sized> Debug for AsyncAdapter<T> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        // Only the worker thread may look at the context.
+        let alternate = f.alternate();
+        let context = self
+            .invoke_blocking(|context| {
+                Ok(if alternate {
+                    format!("{context:#?}")
+                } else {
+                    format!("{context:?}")
+                })
+            })
+            .unwrap_or_else(|e| format!("<{e}>"));
+        f.debug_struct("AsyncAdapter")
+            .field("env", &self.env)
+            .field("context", &format_args!("{context}"))
+            .finish()
+    }
+}
+
 impl<T: ?Sized> AsyncAdapter<T> {
     /// Create an `AsyncAdapter` with the given context, using the same `env` as self.
     fn create_with_same_env<U: ?Sized>(&self, context_ptr: SyncSendPtrMut<U>) -> AsyncAdapter<U> {
-- 
2.43.0


From 2be47856c68ea7d8f0f75f0726f87e84ab56dd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:18 +0000
Subject: [PATCH 35/41] Hook: let harnesses make transactions of their own
 connections (cfg rtm_hooks)

---
 butane_core/src/db/hooks.rs | 30 ++++++++++++++++++++++++++++++
 butane_core/src/db/mod.rs   |  2 ++
 2 files changed, 32 insertions(+)
 create mode 100644 butane_core/src/db/hooks.rs

diff --git a/butane_core/src/db/hooks.rs b/butane_core/src/db/hooks.rs
new file mode 100644
index 0000000..4e743bf
--- /dev/null
+++ b/butane_core/src/db/hooks.rs
@@ -0,0 +1,30 @@
+//! Lets verification harnesses make transactions of their own connections. Not part of the API.
+
+use super::{BackendTransaction, ConnectionMethods, Transaction};
+use crate::Result;
+use std::fmt::Debug;
+
+/// What a transaction of a harness does.
+pub trait PlainTransaction: ConnectionMethods + Debug {
+    /// Commit the transaction.
+    fn commit(&mut self) -> Result<()>;
+    /// Roll back the transaction.
+    fn rollback(&mut self) -> Result<()>;
+}
+
+impl<'c, T: PlainTransaction + 'c> BackendTransaction<'c> for T {
+    fn commit(&mut self) -> Result<()> {
+        PlainTransaction::commit(self)
+    }
+    fn rollback(&mut self) -> Result<()> {
+        PlainTransaction::rollback(self)
+    }
+    fn connection_methods(&self) -> &dyn ConnectionMethods {
+        self
+    }
+}
+
+/// Make a [`Transaction`].
+pub fn transaction<'c, T: PlainTransaction + 'c>(trans: T) -> Transaction<'c> {
+    Transaction::new(Box::new(trans))
+}
diff --git a/butane_core/src/db/mod.rs b/butane_core/src/db/mod.rs
index cea23a2..690158f 100644
--- a/butane_core/src/db/mod.rs
+++ b/butane_core/src/db/mod.rs
@@ -47,6 +47,8 @@ pub use connmethods::{
     BackendRow, BackendRows, Column, ConnectionMethods, MapDeref, QueryResult, RawQueryResult,
 };
 mod helper;
+#[cfg(rtm_hooks)]
+pub mod hooks;
 mod macros;
 #[cfg(feature = "pg")]
 pub mod pg;
-- 
2.43.0


From f55d2e1fb1fd19e0529dbb026473de88c5f20ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:31 +0000
Subject: [PATCH 36/41] fix: refuse integers and reals that do not fit the
 field instead of truncating them

---
 butane_core/src/db/sqlite.rs |  4 +++-
 butane_core/src/db/turso.rs  |  2 +-
 butane_core/src/sqlval.rs    | 24 +++++++++++++++++++-----
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index 04a7bf2..85efe33 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -654,7 +654,9 @@ fn sql_valref_from_rusqlite<'a>(
     }
     Ok(match ty {
         SqlType::Bool => SqlValRef::Bool(val.as_i64()? != 0),
-        SqlType::Int => SqlValRef::Int(val.as_i64()? as i32),
+        SqlType::Int => {
+            SqlValRef::Int(i32::try_from(val.as_i64()?).map_err(|_| Error::OutOfRange)?)
+        }
         SqlType::BigInt => SqlValRef::BigInt(val.as_i64()?),
         SqlType::Real => SqlValRef::Real(val.as_f64()?),
         SqlType::Text => SqlValRef::Text(val.as_str()?),
diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 09f2150..4918f00 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -825,7 +825,7 @@ fn turso_value_to_sqlval_typed(val: &turso::Value, ty: &SqlType) -> Result<SqlVa
                     )))
                 }
             };
-            SqlVal::Int(i as i32)
+            SqlVal::Int(i32::try_from(i).map_err(|_| Error::OutOfRange)?)
         }
         SqlType::BigInt => {
             let i = match val {
diff --git a/butane_core/src/sqlval.rs b/butane_core/src/sqlval.rs
index 2047b4c..214673b 100644
--- a/butane_core/src/sqlval.rs
+++ b/butane_core/src/sqlval.rs
@@ -368,14 +368,15 @@ macro_rules! impl_basic_from_sql {
         impl FromSql for $prim {
             fn from_sql_ref(valref: SqlValRef) -> Result<Self> {
                 if let SqlValRef::$variant(val) = valref {
-                    Ok(val as $prim)
+                    // The type of the column may be wider than this one.
+                    <$prim>::try_from(val).or_else(|_| sql_conv_err!(valref, $sqltype))
                 } else {
                     sql_conv_err!(valref, $sqltype)
                 }
             }
             fn from_sql(val: SqlVal) -> Result<Self> {
                 if let SqlVal::$variant(val) = val {
-                    Ok(val as $prim)
+                    <$prim>::try_from(val).or_else(|_| sql_conv_err!(val, $sqltype))
                 } else {
                     sql_conv_err!(val, $sqltype)
                 }
@@ -386,10 +387,13 @@ macro_rules! impl_basic_from_sql {
 
 macro_rules! impl_prim_sql {
     ($prim:ty, $variant:ident, $sqltype:ident) => {
-        impl_prim_sql! {$prim, $variant, $sqltype, $prim}
+        impl_basic_from_sql!($prim, $variant, $sqltype);
+        impl_prim_to_sql! {$prim, $variant, $sqltype, $prim}
     };
+}
+
+macro_rules! impl_prim_to_sql {
     ($prim:ty, $variant:ident, $sqltype:ident, $reftype: ty) => {
-        impl_basic_from_sql!($prim, $variant, $sqltype);
         impl ToSql for $prim {
             fn to_sql(&self) -> SqlVal {
                 self.clone().into_sql()
@@ -420,7 +424,17 @@ impl_prim_sql!(i16, Int, Int);
 impl_prim_sql!(u8, Int, Int);
 impl_prim_sql!(i8, Int, Int);
 impl_prim_sql!(f64, Real, Real);
-impl_prim_sql!(f32, Real, Real);
+impl_prim_to_sql!(f32, Real, Real, f32);
+
+impl FromSql for f32 {
+    fn from_sql_ref(valref: SqlValRef) -> Result<Self> {
+        match valref {
+            // Rounding is to be expected, turning a finite number into an infinity is not.
+            SqlValRef::Real(val) if (val as f32).is_finite() || !val.is_finite() => Ok(val as f32),
+            _ => sql_conv_err!(valref, Real),
+        }
+    }
+}
 
 impl FromSql for String {
     fn from_sql_ref(valref: SqlValRef) -> Result<Self> {
-- 
2.43.0


From cadcd64c22bab59d68000bea703310152223fa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:32 +0000
Subject: [PATCH 37/41] fix: report JSON that does not fit a map or custom
 field instead of panicking

---
 butane_codegen/src/lib.rs |  2 +-
 butane_core/src/sqlval.rs | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/butane_codegen/src/lib.rs b/butane_codegen/src/lib.rs
index ba0b92d..f1e0486 100644
--- a/butane_codegen/src/lib.rs
+++ b/butane_codegen/src/lib.rs
@@ -461,7 +461,7 @@ fn derive_field_type_with_json(struct_name: &Ident) -> TokenStream2 {
             fn from_sql_ref(val: butane::SqlValRef) -> std::result::Result<Self, butane::Error> {
                 if let butane::SqlValRef::Json(v) = val {
                     use ::serde::Deserialize;
-                    return Ok(#struct_name::deserialize(v).unwrap());
+                    return Ok(#struct_name::deserialize(v)?);
                 }
                 Err(butane::Error::CannotConvertSqlVal(
                     butane::SqlType::Json,
diff --git a/butane_core/src/sqlval.rs b/butane_core/src/sqlval.rs
index 214673b..67ebf0f 100644
--- a/butane_core/src/sqlval.rs
+++ b/butane_core/src/sqlval.rs
@@ -560,10 +560,10 @@ where
 {
     fn from_sql_ref(val: SqlValRef) -> Result<Self> {
         if let SqlValRef::Json(serde_json::Value::Object(m)) = val {
-            return Ok(m
-                .iter()
-                .map(|(k, v)| (k.to_owned(), T::deserialize(v).unwrap()))
-                .collect::<HashMap<String, T>>());
+            return m
+                .into_iter()
+                .map(|(k, v)| Ok((k, T::deserialize(v)?)))
+                .collect::<Result<HashMap<String, T>>>();
         }
         sql_conv_err!(val, Json)
     }
@@ -599,10 +599,10 @@ where
 {
     fn from_sql_ref(val: SqlValRef) -> Result<Self> {
         if let SqlValRef::Json(serde_json::Value::Object(m)) = val {
-            return Ok(m
-                .iter()
-                .map(|(k, v)| (k.to_owned(), T::deserialize(v).unwrap()))
-                .collect::<BTreeMap<String, T>>());
+            return m
+                .into_iter()
+                .map(|(k, v)| Ok((k, T::deserialize(v)?)))
+                .collect::<Result<BTreeMap<String, T>>>();
         }
         sql_conv_err!(val, Json)
     }
-- 
2.43.0


From 557f6f0847e5f1efb3bed0e3bd7fac487ec84da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:33 +0000
Subject: [PATCH 38/41] fix: refuse values that are no key of the other model
 when loading a foreign key

---
 butane_core/src/fkey.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/butane_core/src/fkey.rs b/butane_core/src/fkey.rs
index af1a686..b03701f 100644
--- a/butane_core/src/fkey.rs
+++ b/butane_core/src/fkey.rs
@@ -186,10 +186,8 @@ where
     T: DataObject,
 {
     fn from_sql_ref(valref: SqlValRef) -> Result<Self> {
-        Ok(ForeignKey {
-            valpk: SqlVal::from(valref).into(),
-            val: OnceLock::new(),
-        })
+        // What is not a key of the other model must not become one
+        T::PKType::from_sql_ref(valref).map(Self::from_pk)
     }
 }
 impl<T, U> PartialEq<U> for ForeignKey<T>
-- 
2.43.0


From 9571654e3dc12cad0ce5d7b1893544adc09506ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:33 +0000
Subject: [PATCH 39/41] fix: refuse statements in a transaction which the
 engine has already rolled back

---
 butane_core/src/db/sqlite.rs | 10 +++++++++-
 butane_core/src/db/turso.rs  | 14 +++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index 85efe33..1fc2ad6 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -416,7 +416,15 @@ impl<'c> SqliteTransaction<'c> {
         }
     }
     fn wrapped_connection_methods(&self) -> Result<&rusqlite::Connection> {
-        Ok(self.get()?.deref())
+        let trans = self.get()?;
+        // Some failures, such as a full disk, make SQLite roll back by itself. What is done
+        // after that would not be part of any transaction.
+        if trans.is_autocommit() {
+            return Err(Error::Internal(
+                "transaction has been rolled back by SQLite".to_string(),
+            ));
+        }
+        Ok(trans.deref())
     }
     fn already_consumed() -> Error {
         Error::Internal("transaction has already been consumed".to_string())
diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 4918f00..058ede2 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -642,7 +642,19 @@ impl<'c> TursoTransaction<'c> {
     }
 
     fn get(&self) -> Result<&'c TursoConnection> {
-        self.conn.ok_or_else(Self::already_consumed)
+        let conn = self.conn.ok_or_else(Self::already_consumed)?;
+        // Some failures make Turso roll back by itself. What is done after that would not be
+        // part of any transaction.
+        let ended = conn
+            .conn
+            .is_autocommit()
+            .map_err(|e| Error::Internal(e.to_string()))?;
+        if ended {
+            return Err(Error::Internal(
+                "transaction has been rolled back by Turso".to_string(),
+            ));
+        }
+        Ok(conn)
     }
 
     fn already_consumed() -> Error {
-- 
2.43.0


From 46abef93e4ba6ab8d74f33ae178f92d098ece3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:34 +0000
Subject: [PATCH 40/41] fix: refuse deleting an object without a key instead of
 panicking

---
 butane_core/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/butane_core/src/lib.rs b/butane_core/src/lib.rs
index 74affea..a6d2ed3 100644
--- a/butane_core/src/lib.rs
+++ b/butane_core/src/lib.rs
@@ -224,6 +224,9 @@ pub trait DataObjectOps<T: DataObject> {
     where
         Self: DataObject,
     {
+        if !self.pk().is_valid() {
+            return Err(Error::ValueNotSaved);
+        }
         conn.delete(T::TABLE, T::PKCOL, self.pk().to_sql()).await
     }
 }
-- 
2.43.0


From 5c4ec4302911026ab23c57ebf53cf970c5eb8d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:35 +0000
Subject: [PATCH 41/41] fix: report damaged migration data instead of panicking

---
 butane_core/src/migrations/adb.rs | 9 ++++-----
 butane_core/src/migrations/mod.rs | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/butane_core/src/migrations/adb.rs b/butane_core/src/migrations/adb.rs
index 3c39af0..61ab1de 100644
--- a/butane_core/src/migrations/adb.rs
+++ b/butane_core/src/migrations/adb.rs
@@ -103,11 +103,10 @@ impl Visitor<'_> for TypeKeyVisitor {
     where
         E: serde::de::Error,
     {
-        let rest = v.to_string().split_off(3);
-        if v.starts_with("PK:") {
-            Ok(TypeKey::PK(rest))
-        } else if v.starts_with("CT:") {
-            Ok(TypeKey::CustomType(rest))
+        if let Some(rest) = v.strip_prefix("PK:") {
+            Ok(TypeKey::PK(rest.to_string()))
+        } else if let Some(rest) = v.strip_prefix("CT:") {
+            Ok(TypeKey::CustomType(rest.to_string()))
         } else {
             Err(E::custom("Unknown type key string".to_string()))
         }
diff --git a/butane_core/src/migrations/mod.rs b/butane_core/src/migrations/mod.rs
index 87fe3c5..146469d 100644
--- a/butane_core/src/migrations/mod.rs
+++ b/butane_core/src/migrations/mod.rs
@@ -358,7 +358,7 @@ impl DataResult for ButaneMigration {
             ));
         }
         Ok(ButaneMigration {
-            name: FromSql::from_sql_ref(row.get(0, SqlType::Text).unwrap())?,
+            name: FromSql::from_sql_ref(row.get(0, SqlType::Text)?)?,
         })
     }
 
-- 
2.43.0

