c("C02","runtime monitor: loaded windows (order, limit, offset, first) compared online with an in-memory window oracle that admits exactly the tie orders SQL allows",
  f"Seeded random exploration on {LANES}, through connections, transactions and the async interface.")
c("C23","runtime monitor: partial views loaded under random filters and windows, compared row for row with the full objects and the in-memory oracle",
  f"Seeded random exploration on {LANES}; four view types of two models plus relation-carrying views.")
c("C24","runtime monitor: raw dumps of every table before and after each random delete, compared with the rows an in-memory evaluator says match",
  f"Seeded random exploration on {LANES}; two known findings in the Turso engine (row counting, self references).")
c("C03","runtime monitor: every stored value read back through find, load, query columns, raw rows of an independent driver and equality filters, compared bit for bit with the value saved",
  f"Seeded random and boundary values of every supported field type on {LANES}; two known findings in how PostgreSQL stores timestamps.")
c("C04","runtime monitor: histories of create/save/delete/load checked step by step against a map of what each table must hold, with raw dumps as ground truth",
  f"Seeded random histories on {LANES}.")
c("C05","runtime monitor: log of reported keys from concurrent workers reconciled with the table (uniqueness, ownership, nothing lost or unreported)",
  f"Threads, pools, tasks, shared connections and transactions on {LANES}; Turso is not driven from several threads over separate connections, which its engine does not survive.")
c("C06","runtime monitor: every relation access (load, get, pk, create/save ordering, reverse relations) compared with the raw foreign key column and the referenced row, under concurrent access to shared relation objects",
  f"Seeded random object graphs on {LANES}, with threads racing on one foreign key object.")
c("C07","runtime monitor: many-to-many membership after each operation compared with a pending-change model, join table dumped raw as ground truth",
  f"Seeded random histories on {LANES}, with injected save failures.")
c("C08","runtime monitor: state dumped through an independent connection after each transaction, compared with all-or-nothing of its statements for every way a transaction can end",
  f"Random transactions ended by commit, rollback, drop, panic, failure and lock conflict on {LANES}.")
c("C09","runtime monitor: money-transfer histories of concurrent users with conserved-sum and dirty-read monitors, a probe of every connection handed over, and a final reconciliation of acknowledged transfers with the tables",
  f"Threads, tasks, r2d2 and deadpool pools and with_sync, users ending by commit, rollback, drop, failure, panic, cancellation at a random poll and ended server sessions, on {LANES}.")
c("C11","runtime monitor: the database's own catalog and a raw dump of every table before and after each migration of a random schema history, compared with an independently derived expected schema and the rows that must survive",
  f"Seeded random schema histories on {LANES} (Turso: creating and dropping tables, since its engine cannot alter a table inside a transaction, as documented); four known findings about moving or retyping keys.")
c("C12","runtime monitor: random walks of migrate/unmigrate with the catalog and dumps recorded at every version and compared whenever the version is seen again",
  f"Seeded random walks on {LANES} (Turso: creating and dropping tables); one known finding.")
c("C13","runtime monitor: racing and repeated migration runs, partial and diverging histories; every report (unapplied, last applied, which were applied) compared with a model of what butane_migrations must hold and with the catalog",
  f"Random histories, threads racing on one database, stores in memory and on disk, on {LANES}.")
c("C10","runtime monitor with crash injection: a child process is killed before, halfway through or after its n-th writing (or server) system call or at a random time; acknowledgements on a pipe reconciled with the reopened database, seen raw and through the library",
  "Random histories and interrupted migration runs on SQLite (WAL and rollback journal, native and adapted) and PostgreSQL; a killed process, not a power failure.")
c("C14","runtime monitor: random declaration sets and schema pairs; the operations of every difference are replayed by an independent interpreter and must give exactly the target, differences with itself must be empty, and every declaration order must give the same recorded schema",
  "Random schemas in random declaration orders through the real macros' recording code, differences between random pairs and chains, written form read back; one known finding about 17-digit default values.")
c("C15","runtime monitor: the same random history of store operations on disk, in memory, through JSON and through the generated embedded source, every observable compared after each step; several compilers writing while readers look",
  "Random histories of declare, make, add or remove SQL, delete, detach and copy; embedding through the real command line tool with the generated source parsed; concurrent writers and readers with the final store checked for lost, truncated or mixed records.")
c("C16","runtime monitor: one random history run natively and through random stacks of adapters, in and outside runtimes, with results, a trigger-written journal of every row change, final contents and a recording connection's call log compared, and a time limit for hangs",
  f"Up to eight adapters deep, boxed, hopping threads and tasks, through with_sync, with ended server sessions and poisoned connections, on {LANES}; assumes the runtime a connection was made on keeps running.")
c("C19","runtime monitor: keywords of the engines and random Unicode identifiers as tables, columns and relations given to the library at run time, and compiled models with such names, under hostile values, with all tables read without the library and compared with a model after each write",
  f"Every PostgreSQL keyword (from pg_get_keywords) and SQLite keyword is drawn as table, column, key, reference and relation, in three case styles; conditions of every kind through them; defaults; dropped again; a bystander table must stay untouched; on {LANES}; names the engines reserve for system columns excluded.")
c("C20","runtime monitor: random writes, mostly on the edge of a constraint, judged by a constraint model; every refusal must leave the tables as dumped before, every acceptance must leave what the model says; writers racing for unique values and references",
  f"Random schemas and compiled models, writes of every kind, in and outside transactions, on {LANES}; races on SQLite and PostgreSQL; rare refusals by a defect of the Turso engine are told apart by their message.")
c("C21","runtime monitor: random and hostile connection strings, specs and parameters; each result is opened and asked which database it is, and saved specs are read back",
  "Every documented form of SQLite path, SQLite URI, PostgreSQL keyword list, PostgreSQL URI and Turso path, with random percent-encoding, quoting, scheme case and parameters; PostgreSQL strings are parsed by the driver and its view compared; strings the documentation leaves ambiguous are not judged.")
c("C17","sanitizers: Miri, ThreadSanitizer and AddressSanitizer on the adapter, over a connection which is not Sync and whose monitor checks arguments, threads, overlaps, exactly-once execution and leaks",
  "Random calls, queries, transactions and shared use by tasks and threads, with futures dropped after a random number of polls, aborted tasks, planned panics and failures, worker and connect failures; Miri with random schedules, preemption rates and weak memory. Futures are dropped, not leaked with mem::forget.")
c("C18","sanitizers: AddressSanitizer with leak detection and ThreadSanitizer on rows and connections of an instrumented SQLite, with a model of which rows each result set must yield; the same model on every backend",
  f"Up to eight open result sets stepped, dropped and unwound in any order among writes, transactions, rollbacks, schema changes and failing rows; connections handed between threads; an exclusive lock from outside shows that no statement is left; on {LANES}.")
c("C22","runtime monitor with fault injection: every call over damaged, alien or failing storage must end in a refusal or in what the storage really holds (read by an independent driver), never in a panic, a hang or a value that is not there, and must leave other rows readable",
  f"Hostile cell contents, changed schemas, full, locked, read-only and damaged SQLite files, constraint and trigger failures in and out of transactions, odd migration tables, unexpected PostgreSQL column types, connections cut by a proxy or the server, timeouts, bad connection strings, on {LANES}; panics inside the Turso engine are told apart.")
