#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Filters select exactly the matching rows",
 "On every backend, running a query with any filter expression (comparisons, like, membership, null tests, and/or/not combinations, conditions reached through foreign keys and many-to-many fields, built by the macros or by the expression API) returns exactly the stored rows for which the expression is true under SQL three-valued logic, each once. How the expression is nested, how many values it carries, and how it is combined never changes the rows it denotes.",
 ["inputs","configurations"],"all filter expression trees, all table contents, all backends (SQLite, PostgreSQL, Turso)",
 "query.rs and basic.rs run about thirty fixed, mostly flat filters over a handful of blog posts; nesting, precedence, null logic, large memberships and combinations are unbounded.",
 ["butane_core/src/query/mod.rs","butane_core/src/query/fieldexpr.rs","butane_core/src/db/helper.rs","butane_core/src/db/sqlite.rs","butane_core/src/db/pg.rs","butane_core/src/db/turso.rs","butane_codegen/src/filter.rs"],
 [("expression to SQL","butane_core/src/db/helper.rs sql_for_expr"),("subquery rewriting for Turso","butane_core/src/db/turso.rs"),("filter! translation","butane_codegen/src/filter.rs")],
 ["rows returned by load() compared with an in-memory evaluation of the same expression over the same rows"])
p("C02","Ordering, limit and offset denote one window of the result",
 "Loading a query with any sort order, limit and offset, in any combination, returns exactly that window of the filtered rows in the requested order; a limit of zero yields nothing and an offset beyond the end yields nothing. Loading the first row is the same as loading with a limit of one, and a query value can be cloned or reused without changing its meaning.",
 ["inputs","configurations"],"all combinations of order, direction, limit, offset, filter and table content on all backends",
 "the tests check one ordering, one limit and one offset on three rows; combinations and boundary values are not sampled.",
 ["butane_core/src/query/mod.rs","butane_core/src/db/helper.rs","butane_core/src/db/sqlite.rs","butane_core/src/db/pg.rs","butane_core/src/db/turso.rs"],
 [("limit/offset/order SQL","butane_core/src/db/helper.rs sql_limit, sql_offset, sql_order"),("Query builder","butane_core/src/query/mod.rs")],
 ["sequence of primary keys and sort keys returned, compared with sorting and slicing the model rows"])
p("C03","Stored values come back unchanged or are refused",
 "Saving an object and loading it again, on any backend and connection kind, yields field values equal to those saved, for every supported field type (integers of each width, floats, booleans, text, bytes, dates and times, UUIDs, JSON, enums and newtypes, and optional versions of these) and every value of that type that the save accepted. A value the database or the field type cannot represent gives an error; it is never truncated, wrapped, rounded or replaced silently, and a stored value is found again by an equality filter on it.",
 ["inputs","configurations"],"all values of all supported field types, on every backend, through save, update, load, get and filters",
 "the tests store a few small literals per type; extremes, unusual text, special floats and cross-width integers are not covered.",
 ["butane_core/src/sqlval.rs","butane_core/src/db/sqlite.rs","butane_core/src/db/pg.rs","butane_core/src/db/turso.rs","butane_core/src/uuid.rs","butane_core/src/codegen/mod.rs"],
 [("value conversions","butane_core/src/sqlval.rs"),("backend value binding and decoding","butane_core/src/db/{sqlite,pg,turso}.rs"),("derived field types","butane_codegen/src/lib.rs")],
 ["bit-exact comparison of the object read back against the object saved","result of filter(field == value)"])
p("C04","Objects behave as a map keyed by primary key",
 "After any history of saves, updates, reloads and deletes of objects, fetching by primary key returns the last successfully saved state of that key or reports its absence, and loading everything returns exactly the live objects. Saving affects only the row of that object, every field of it included, saving again is idempotent, and deleting removes that row only.",
 ["histories","inputs","configurations"],"all operation histories over several models (auto, integer, text and UUID keys) on all backends",
 "tests run a save, a get and a delete on a fresh database; histories mixing many objects, key kinds and stale handles are not explored.",
 ["butane_core/src/lib.rs","butane_core/src/codegen/dbobj.rs","butane_core/src/db/sqlite.rs","butane_core/src/db/pg.rs","butane_core/src/db/turso.rs"],
 [("save decides insert, update or replace","butane_core/src/codegen/dbobj.rs, butane_core/src/lib.rs"),("row writes","insert_returning_pk, insert_or_replace, update, delete in butane_core/src/db")],
 ["full table contents read with an independent raw driver after each step, compared with a map model"])
p("C05","Automatic primary keys are fresh, unique and reported to the object",
 "Every object saved with an automatic key receives a key that no other row of the table holds, even with many connections, threads and tasks inserting at once, and after the save the object carries exactly the key its row has. A saved object's key never changes afterwards.",
 ["schedules","histories","configurations"],"all interleavings of concurrent inserts and deletes on shared databases, all backends",
 "autopk tests insert a few rows on one connection; no test inserts concurrently.",
 ["butane_core/src/autopk.rs","butane_core/src/lib.rs","butane_core/src/codegen/dbobj.rs","butane_core/src/db/helper.rs","butane_core/src/db/sqlite.rs","butane_core/src/db/pg.rs","butane_core/src/db/turso.rs"],
 [("AUTOINCREMENT and SERIAL columns","butane_core/src/db/*.rs column definitions"),("insert returning the key","insert_returning_pk")],
 ["event log of (key, payload) per successful save, checked offline against the final table"])
p("C06","Foreign keys resolve to their object and stay consistent",
 "A foreign key built from an object or a key denotes that key through save, load, filtering, comparison and cloning, and loading it yields the current row of exactly the referenced object or an error when there is none. Before it is loaded it never hands out an object, a loaded copy stays until reloaded, and concurrent use of one foreign key from several threads never panics, deadlocks or yields different objects.",
 ["histories","schedules","configurations"],"all histories of building, saving, loading, filtering and sharing foreign keys, for all key types",
 "tests load one or two foreign keys sequentially; sharing across threads, text/UUID keys and stale caches are not exercised.",
 ["butane_core/src/fkey.rs","butane_core/src/codegen/dbobj.rs","butane_core/src/query/fieldexpr.rs"],
 [("lazy value cell","butane_core/src/fkey.rs"),("column type resolution","butane_core/src/migrations/adb.rs")],
 ["object returned by load()/get() compared with the model's referenced row","thread results under stress"])
p("C07","Many-to-many collections are independent sets per owner",
 "For any history of adding, removing, setting, clearing, saving and loading many-to-many collections, a freshly loaded collection holds exactly the objects that its own owner last saved, each once, and an operation on one owner's collection never changes another owner's. Until saved, changes are invisible to other readers, and a loaded collection reports its pending additions and removals consistently.",
 ["histories","configurations"],"all histories over several owners, several collections and shared members, on all backends",
 "many.rs runs short scripts with one or two owners; a removal shared between owners, or add/remove/save orders, are not explored.",
 ["butane_core/src/many.rs","butane_core/src/codegen/dbobj.rs","butane_core/src/query/fieldexpr.rs"],
 [("pending changes and join table writes","butane_core/src/many.rs"),("many_save in the generated save","butane_core/src/codegen/dbobj.rs")],
 ["join table contents and load() results compared with a set model per owner"])
p("C08","Transactions take effect entirely or not at all",
 "Everything done through a transaction is visible after a successful commit, and nothing of it is visible after a rollback, after dropping it uncommitted, or after a commit that reports failure, whatever statements (failing ones included) ran inside it. Inside a transaction its own writes are visible, and the connection is usable again afterwards.",
 ["histories","fault_sequences","configurations"],"all statement histories inside transactions ending in commit, rollback, drop or error, on every backend and connection kind",
 "transactions.rs commits and rolls back one insert; failing statements inside transactions, drops, and later reuse are not sampled.",
 ["butane_core/src/db/mod.rs","butane_core/src/db/sqlite.rs","butane_core/src/db/pg.rs","butane_core/src/db/turso.rs","butane_core/src/db/adapter.rs","butane_core/src/db/sync_adapter.rs"],
 [("commit/rollback/drop of transactions","butane_core/src/db/{sqlite,pg,turso}.rs"),("adapted transactions","butane_core/src/db/{adapter,sync_adapter}.rs")],
 ["table snapshots before, inside and after each transaction from the same and from an independent connection"])
p("C09","Connections and pools isolate their users",
 "Uncommitted work on one connection is never seen through another, and a connection handed out again by a pool, or returned from temporary synchronous use, carries no transaction, lock or state of its previous user, whether that user finished, dropped its work midway, failed or was cancelled. Concurrent users each see only committed, whole transactions, and committed work of all users is conserved.",
 ["schedules","histories","configurations"],"all interleavings of several pool users over r2d2, deadpool and plain connections",
 "pool.rs checks out one connection once; no test overlaps users or returns a connection with open work.",
 ["butane/src/lib.rs","butane_core/src/db/mod.rs","butane_core/src/db/adapter.rs","butane_core/src/db/sync_adapter.rs","butane_core/src/db/sqlite.rs","butane_core/src/db/pg.rs"],
 [("connection managers","butane/src"),("with_sync swap","butane_core/src/db/mod.rs"),("rollback on drop","butane_core/src/db")],
 ["transfer histories with conserved sums checked by concurrent readers and at the end"])
p("C10","A crash keeps exactly the committed work",
 "If the process is killed at any point while writing through the library, reopening the database shows every transaction whose commit had been reported, possibly the one being committed at that moment, and no part of any other; saves outside a transaction are each individually durable. The same holds for a migration run interrupted midway, which can then be resumed to the intended schema.",
 ["crash_points","histories"],"all kill points during transactional writes and during migrations, on file-based SQLite and on PostgreSQL",
 "no test ever kills the process.",
 ["butane_core/src/db/sqlite.rs","butane_core/src/db/pg.rs","butane_core/src/migrations/mod.rs"],
 [("transactions around units of work","butane_core/src/db"),("migration applied inside one transaction","butane_core/src/migrations/mod.rs")],
 ["acknowledgement log of a killed child process compared with the reopened database"])
p("C11","Migrating forward gives the schema of the models and keeps data",
 "For any sequence of model changes, applying the generated migrations in order, from an empty database or from any earlier point with data in it, yields a database on which the latest models work exactly as on a freshly created one: same tables, columns, types, nullability, keys, uniqueness and references. Rows and columns that survive the change keep their values, and added columns get their declared default.",
 ["histories","inputs","configurations"],"all sequences of schema changes with all intermediate data, on every backend",
 "migration.rs walks a few hand-written two-step changes with almost no data.",
 ["butane_core/src/migrations/mod.rs","butane_core/src/migrations/adb.rs","butane_core/src/db/sqlite.rs","butane_core/src/db/pg.rs","butane_core/src/db/turso.rs","butane_core/src/db/helper.rs"],
 [("diff to operations","butane_core/src/migrations/adb.rs"),("operations to SQL","create_migration_sql of each backend")],
 ["catalogue introspection (PRAGMA, information_schema) of the migrated and of a fresh database, plus data comparison"])
p("C12","Undoing migrations restores the earlier schema and data",
 "Undoing any applied migration restores the database schema recorded before it and keeps the values of every table and column that exists on both sides; undoing and reapplying any number of times leads back to the same schema. Undoing is refused rather than guessed when a migration has no recorded undo for the database at hand.",
 ["histories","configurations"],"all sequences of applying, undoing and reapplying migrations over all schema changes, on every backend",
 "unmigrate.rs undoes one creation migration on an empty database.",
 ["butane_core/src/migrations/mod.rs","butane_core/src/migrations/migration.rs","butane_core/src/db/sqlite.rs","butane_core/src/db/pg.rs","butane_core/src/db/turso.rs","butane_cli/src/lib.rs"],
 [("down SQL generation","create_migration in butane_core/src/migrations/mod.rs"),("downgrade","butane_core/src/migrations/migration.rs")],
 ["catalogue introspection before and after, plus data comparison"])
p("C13","Migrations apply once, in order, and wholly or not at all",
 "Migrating applies each not-yet-applied migration exactly once in order, records it, and is a no-op when repeated, and the reported applied, last-applied and unapplied migrations always agree with what the database went through. A migration whose statements fail leaves schema, data and records as they were before it, and several processes migrating one database at once never apply a migration twice or record one that was not applied.",
 ["histories","fault_sequences","schedules"],"all histories of migrate, undo, failure and retry, including concurrent runs",
 "migration.rs applies two migrations successfully; failures midway and concurrent runs are not tested.",
 ["butane_core/src/migrations/mod.rs","butane_core/src/migrations/migration.rs","butane_core/src/migrations/memmigrations.rs","butane_core/src/migrations/fsmigrations.rs"],
 [("unapplied computation","butane_core/src/migrations/mod.rs"),("transactional apply with bookkeeping row","butane_core/src/migrations/migration.rs")],
 ["bookkeeping table, catalogue and effects log of each migration after every step"])
p("C14","Schema differences are exact and independent of declaration order",
 "For any two schemas, the computed difference turns the first into exactly the second, and the difference of a schema with itself is empty. Field types that depend on other models or custom types resolve to the same schema whatever the order in which models and types were declared, and a schema written out and read back is identical.",
 ["inputs","programs"],"all pairs of schemas, all declaration orders, all type dependency graphs",
 "adb.rs checks a dozen fixed pairs and two resolution examples.",
 ["butane_core/src/migrations/adb.rs","butane_core/src/migrations/migration.rs"],
 [("diff and transform","butane_core/src/migrations/adb.rs"),("type resolution","butane_core/src/migrations/adb.rs resolve_types")],
 ["transformed schema compared with the target, across permutations and serialisation"])
p("C15","Every migration store holds the same migrations",
 "Migrations kept on disk, in memory, or embedded as text hold the same names, order, schema, types and per-backend statements, whatever the route by which they were copied, serialised, reloaded or embedded, and give the same result when applied. Recording, changing or deleting the current models is exact and loses no update, also when several compilers write the same directory at once.",
 ["histories","schedules","inputs"],"all histories of store operations and concurrent writers, on disk and in memory",
 "tests use one store each with one writer and simple contents.",
 ["butane_core/src/migrations/fsmigrations.rs","butane_core/src/migrations/memmigrations.rs","butane_core/src/migrations/migration.rs","butane_core/src/migrations/fs.rs","butane_core/src/migrations/mod.rs","butane_cli/src/lib.rs"],
 [("on-disk layout and lock","butane_core/src/migrations/fsmigrations.rs"),("in-memory store and JSON","butane_core/src/migrations/memmigrations.rs"),("embedding","butane_cli/src/lib.rs embed")],
 ["schema, names and statements read back through each store, compared with a model"])
p("C16","Synchronous, asynchronous and adapted connections agree",
 "The same history of operations gives the same results, errors and final database contents whether run on a native synchronous connection, a native asynchronous one, or one adapted in either direction any number of times, from inside or outside an async runtime. Adapters forward every call once and in order, report backend identity and closedness faithfully, and never hang.",
 ["histories","configurations","schedules"],"all operation histories across all adapter stacks",
 "each test runs the same short script per flavour, never comparing results between stacks and never stacking adapters.",
 ["butane_core/src/db/adapter.rs","butane_core/src/db/sync_adapter.rs","butane_core/src/db/mod.rs","butane_core/src/db/connmethods.rs"],
 [("worker thread adapter","butane_core/src/db/adapter.rs"),("runtime-driving adapter","butane_core/src/db/sync_adapter.rs")],
 ["call/return event logs of a recording connection beneath the adapters, and result traces compared between stacks"])
p("C17","Adapting a connection to async is memory-safe and race-free",
 "Running a synchronous connection behind the async interface never causes a data race, use of freed memory, lost call or deadlock, for any interleaving of tasks and threads, including futures and transactions that are dropped or cancelled at any moment and calls that fail or panic. Dropping the connection ends its worker.",
 ["schedules","fault_sequences"],"all interleavings and cancellation points of async use of an adapted connection",
 "tests await every call to completion on one task; no cancellation, panic or sanitizer run exists.",
 ["butane_core/src/db/adapter.rs"],
 [("lifetime erasure and raw pointers across threads","butane_core/src/db/adapter.rs"),("worker shutdown","butane_core/src/db/adapter.rs Drop")],
 ["Miri, ThreadSanitizer and AddressSanitizer reports; per-call completion log; worker thread count"])
p("C18","Row iteration and connection handles are memory-safe",
 "Stepping through query results, stopping early, interleaving several result sets with writes, dropping results, transactions and connections in any order the compiler accepts, and moving them between threads never touches freed memory, leaks statements or returns a row of another query. Each result set yields its own rows in full.",
 ["histories","schedules"],"all orders of creating, stepping and dropping results, transactions and connections",
 "tests consume each result at once; no sanitizer runs on them.",
 ["butane_core/src/db/sqlite.rs","butane_core/src/db/connmethods.rs","butane_core/src/db/mod.rs"],
 [("pinned statement and rows","butane_core/src/db/sqlite.rs QueryAdapter"),("buffered rows","butane_core/src/db/connmethods.rs VecRows")],
 ["AddressSanitizer and valgrind reports; rows seen by each interleaved cursor compared with the model"])
p("C19","Data is never taken for SQL and any legal name works",
 "No text, byte or JSON value given to the library, as field value, filter operand, key or default, is ever interpreted as SQL: it is stored and compared literally and touches no other row or table. Models, fields and relations may have any legal Rust name, reserved SQL words and mixed case included, and support the same operations as with ordinary names.",
 ["inputs","programs","configurations"],"all text values and all identifier names, in every position, on every backend",
 "one test model uses a few reserved words with ordinary values; quoting of hostile values in defaults and filters is not tested.",
 ["butane_core/src/db/helper.rs","butane_core/src/db/sqlite.rs","butane_core/src/db/pg.rs","butane_core/src/db/turso.rs","butane_core/src/sqlval.rs"],
 [("placeholders","butane_core/src/db/helper.rs"),("identifier quoting","butane_core/src/db/helper.rs quote_reserved_word"),("literals in defaults","butane_core/src/db/helper.rs sql_literal_value")],
 ["full-database snapshot (all tables) after each hostile operation compared with the model"])
p("C20","Declared constraints are enforced and violations change nothing",
 "A write that breaks a uniqueness, primary key, not-null or reference constraint declared by a model is refused with an error on every backend, also when it comes through an update, a many-to-many save or concurrently with another writer, and leaves every table as it was (a save which also writes many-to-many rows is several writes, of which earlier ones stay unless it is in a transaction). A write that breaks no constraint is never refused.",
 ["inputs","histories","schedules"],"all write histories over models with constraints, on every backend, sequential and concurrent",
 "two tests check one duplicate value each.",
 ["butane_core/src/codegen/dbobj.rs","butane_core/src/db/helper.rs","butane_core/src/db/sqlite.rs","butane_core/src/db/pg.rs","butane_core/src/db/turso.rs","butane_core/src/lib.rs"],
 [("constraint clauses in CREATE TABLE","define_column, define_constraint of each backend"),("foreign key enforcement pragma","butane_core/src/db/sqlite.rs")],
 ["accept/refuse verdict and table snapshot compared with a constraint model"])
p("C21","Connection descriptions are understood and kept faithfully",
 "Every connection description is mapped to the documented backend for its form, a saved description reads back identical, and adding a parameter keeps the others and makes the new one effective. An unknown or malformed description gives an error when used, never a panic or a connection to a different database.",
 ["inputs"],"all connection strings, parameter names and values",
 "unit tests check a fixed list of strings.",
 ["butane_core/src/db/mod.rs","butane_core/src/db/sqlite.rs","butane_core/src/db/pg.rs","butane_core/src/db/turso.rs"],
 [("parsing and parameters","butane_core/src/db/mod.rs ConnectionSpec")],
 ["parsed backend and string compared with an independent reading; effect on a live connection"])
p("C22","Bad data and failing databases give errors, never panics or wrong data",
 "Whatever a table contains (nulls, other types, out-of-range numbers, malformed text, JSON or UUIDs put there by other programs) and whenever the database fails (lost server, locked file, interrupted or refused statement), operations return an error or correct data. They never panic, never hang, never return a row that is not in the table, and an object whose save failed is not marked as saved.",
 ["inputs","fault_sequences"],"all foreign table contents and all fault points during operations, on every backend",
 "no test reads data written by another program or injects a failure.",
 ["butane_core/src/sqlval.rs","butane_core/src/db/sqlite.rs","butane_core/src/db/pg.rs","butane_core/src/db/turso.rs","butane_core/src/db/connmethods.rs","butane_core/src/codegen/dbobj.rs","butane_core/src/lib.rs"],
 [("checked decoding","FromSql implementations and column type matching"),("error propagation","butane_core/src/db")],
 ["outcome classes (value, error, panic) per injected datum or fault, with values checked against the raw content"])
p("C23","Partial views of a model equal the full objects",
 "Loading a partial view of a model (a subset of its fields, in any order, with or without relations) under any filter, order, limit and offset returns, row for row, the same values the full objects have in those fields.",
 ["inputs","configurations"],"all field subsets, filters, windows and table contents on all backends",
 "one dataresult example is loaded with one filter.",
 ["butane_codegen/src/lib.rs","butane_core/src/codegen/dbobj.rs","butane_core/src/lib.rs","butane_core/src/query/mod.rs"],
 [("generated column list and row decoding","butane_core/src/codegen/dbobj.rs")],
 ["field-wise comparison of view rows with full objects"])
p("C24","Bulk deletes remove exactly the matching rows",
 "Deleting by a filter removes exactly the rows for which the filter is true at that moment and reports their number; rows for which it is false or null, and all other tables, are untouched. A delete that fails removes nothing.",
 ["inputs","histories","configurations"],"all filters and table contents on all backends, in and out of transactions",
 "one test deletes with one flat filter.",
 ["butane_core/src/query/mod.rs","butane_core/src/db/helper.rs","butane_core/src/db/sqlite.rs","butane_core/src/db/pg.rs","butane_core/src/db/turso.rs"],
 [("delete by expression","delete_where of each backend")],
 ["returned count and remaining rows compared with the model, all other tables unchanged"])
p("C25","The recorded schema is exactly what the models declare",
 "For any model definition accepted by the macros, the recorded schema has one table of the declared or default name with one column per stored field carrying the declared name, type, nullability, key, uniqueness, default and reference, plus one join table per many-to-many field, and nothing else; attribute and derive spellings agree. Definitions the system cannot represent are rejected at compile time.",
 ["programs"],"all model definitions",
 "codegen and compile tests cover a small fixed set of structs.",
 ["butane_core/src/codegen/mod.rs","butane_core/src/codegen/migration.rs","butane_core/src/codegen/dbobj.rs","butane_codegen/src/lib.rs"],
 [("field analysis","butane_core/src/codegen/mod.rs"),("table recording","butane_core/src/codegen/migration.rs")],
 ["schema recorded for generated model sources compared with the generator's own description"])
p("C26","Command line workflows keep store, database and models in step",
 "Any sequence of tool commands (init, make migration, migrate, undo to a point, list, embed, collapse, regenerate, add or remove a backend, detach, clear data, delete table, clean) either does what it documents or fails with a message and changes nothing, and never leaves migrations, embedded copy and database disagreeing. Whatever commands ran before, migrating afterwards brings the database to the recorded schema, and data is removed only by the commands meant to remove it.",
 ["histories"],"all sequences of tool commands over evolving models",
 "CLI tests embed once and run two example scripts.",
 ["butane_cli/src/lib.rs","butane_cli/src/main.rs","butane_core/src/migrations/mod.rs","butane_core/src/migrations/fsmigrations.rs"],
 [("command implementations","butane_cli/src/lib.rs")],
 ["store contents, embedded file, bookkeeping rows, catalogue and data after each command compared with a workflow model"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
