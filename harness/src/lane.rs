//! Databases under test: one `Lane` per backend / adapter stack, each with an independent raw reader.
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::LazyLock;

use butane::db::{Connection, ConnectionAsync};
use butane::migrations::{self, MemMigrations, Migrations, MigrationsMut};

use crate::ctx::Ctx;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Lane {
    /// native synchronous SQLite
    Sqlite,
    /// SQLite behind the async adapter, driven again from sync code
    SqliteAdapted,
    /// PostgreSQL (native async) driven from sync code
    Pg,
    /// Turso (native async) driven from sync code
    Turso,
}
impl Lane {
    pub const ALL: [Lane; 4] = [Lane::Sqlite, Lane::SqliteAdapted, Lane::Pg, Lane::Turso];
    pub const NATIVE: [Lane; 3] = [Lane::Sqlite, Lane::Pg, Lane::Turso];
    pub fn name(self) -> &'static str {
        match self {
            Lane::Sqlite => "sqlite",
            Lane::SqliteAdapted => "sqlite-adapted",
            Lane::Pg => "pg",
            Lane::Turso => "turso",
        }
    }
    pub fn backend_name(self) -> &'static str {
        match self {
            Lane::Sqlite | Lane::SqliteAdapted => "sqlite",
            Lane::Pg => "pg",
            Lane::Turso => "turso",
        }
    }
    pub fn backend(self) -> Box<dyn butane::db::Backend> {
        butane::db::get_backend(self.backend_name()).expect("backend")
    }
    pub fn is_sqlite(self) -> bool {
        matches!(self, Lane::Sqlite | Lane::SqliteAdapted)
    }
}

static RT: LazyLock<tokio::runtime::Runtime> =
    LazyLock::new(|| tokio::runtime::Builder::new_multi_thread().worker_threads(2).thread_stack_size(256 << 20).enable_all().build().unwrap());
pub fn rt() -> &'static tokio::runtime::Runtime {
    &RT
}

static NDB: AtomicU64 = AtomicU64::new(0);

pub fn pg_dir() -> String {
    std::env::var("RTM_PG").expect("RTM_PG (scratch PostgreSQL) not set")
}
pub fn pg_connstr(db: &str) -> String {
    format!("host={} user=postgres dbname={db}", pg_dir())
}

/// A raw value read by an independent driver.
#[derive(Clone, Debug, PartialEq, PartialOrd)]
pub enum Raw {
    Null,
    Int(i64),
    Real(f64),
    Text(String),
    Blob(Vec<u8>),
}
impl Raw {
    pub fn show(&self) -> String {
        match self {
            Raw::Null => "NULL".into(),
            Raw::Int(i) => i.to_string(),
            Raw::Real(f) => format!("{f:?}"),
            Raw::Text(t) => format!("{t:?}"),
            Raw::Blob(b) => format!("x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()),
        }
    }
}

enum RawConn {
    Sqlite(rusqlite::Connection),
    Pg(tokio_postgres::Client),
    Turso(turso::Connection),
}

pub type Dump = BTreeMap<String, Vec<String>>;

/// One scratch database with a butane connection under test and a raw reader beside it.
pub struct Db {
    pub lane: Lane,
    pub connstr: String,
    pub conn: Option<Connection>,
    raw: RawConn,
}

pub fn connect(lane: Lane, connstr: &str) -> butane::Result<Connection> {
    match lane {
        Lane::Sqlite => butane::db::connect(&butane::db::ConnectionSpec::new("sqlite", connstr)),
        Lane::SqliteAdapted => {
            butane::db::connect(&butane::db::ConnectionSpec::new("sqlite", connstr))?.into_async()?.into_sync()
        }
        Lane::Pg => butane::db::connect(&butane::db::ConnectionSpec::new("pg", connstr)),
        Lane::Turso => {
            let c = rt().block_on(butane::db::connect_async(&butane::db::ConnectionSpec::new("turso", connstr)))?;
            c.into_sync()
        }
    }
}
pub async fn connect_async(lane: Lane, connstr: &str) -> butane::Result<ConnectionAsync> {
    butane::db::connect_async(&butane::db::ConnectionSpec::new(lane.backend_name(), connstr)).await
}

pub fn pg_raw(db: &str) -> tokio_postgres::Client {
    rt().block_on(async {
        let (c, conn) = tokio_postgres::connect(&pg_connstr(db), tokio_postgres::NoTls).await.expect("raw pg");
        tokio::spawn(async move {
            let _ = conn.await;
        });
        c
    })
}

impl Db {
    /// A fresh, empty database.
    pub fn empty(ctx: &Ctx, lane: Lane) -> Db {
        Self::empty_with(ctx, lane, true)
    }
    /// SQLite without WAL (its default), where readers and writers shut each other out.
    pub fn new_without_wal(ctx: &Ctx, lane: Lane) -> Db {
        let mut db = Db::empty_with(ctx, lane, false);
        migrate_models(db.conn.as_mut().unwrap(), lane);
        db
    }
    fn empty_with(ctx: &Ctx, lane: Lane, wal: bool) -> Db {
        let n = NDB.fetch_add(1, Ordering::Relaxed);
        let (connstr, raw) = match lane {
            Lane::Sqlite | Lane::SqliteAdapted => {
                let p = ctx.scratch.join(format!("s{n}.db"));
                let c = rusqlite::Connection::open(&p).unwrap();
                if wal {
                    c.execute_batch("PRAGMA journal_mode=WAL").unwrap();
                }
                c.execute_batch("PRAGMA synchronous=OFF; PRAGMA foreign_keys=OFF;").unwrap();
                c.busy_timeout(std::time::Duration::from_secs(10)).unwrap();
                (p.to_string_lossy().to_string(), RawConn::Sqlite(c))
            }
            Lane::Pg => {
                let name = format!("rtm_{}_{n}", std::process::id());
                let admin = pg_raw("postgres");
                rt().block_on(admin.batch_execute(&format!("CREATE DATABASE {name}"))).expect("create database");
                let c = pg_raw(&name);
                (pg_connstr(&name), RawConn::Pg(c))
            }
            Lane::Turso => {
                let p = ctx.scratch.join(format!("t{n}.db")).to_string_lossy().to_string();
                let c = rt().block_on(async {
                    let db = turso::Builder::new_local(&p).build().await.expect("turso");
                    db.connect().expect("turso connect")
                });
                (p, RawConn::Turso(c))
            }
        };
        let conn = connect(lane, &connstr).unwrap_or_else(|e| panic!("connect {lane:?}: {e}"));
        if lane.is_sqlite() {
            let _ = conn.execute("PRAGMA synchronous=OFF");
        }
        Db { lane, connstr, conn: Some(conn), raw }
    }
    /// An existing database, with no connection of the library open.
    pub fn attach(lane: Lane, connstr: &str) -> Db {
        let raw = match lane {
            Lane::Sqlite | Lane::SqliteAdapted => {
                let c = rusqlite::Connection::open(connstr).unwrap();
                c.execute_batch("PRAGMA foreign_keys=OFF;").unwrap();
                c.busy_timeout(std::time::Duration::from_secs(10)).unwrap();
                RawConn::Sqlite(c)
            }
            Lane::Pg => RawConn::Pg(pg_raw(connstr.split("dbname=").nth(1).unwrap())),
            Lane::Turso => RawConn::Turso(rt().block_on(async {
                let db = turso::Builder::new_local(connstr).build().await.expect("turso");
                db.connect().expect("turso connect")
            })),
        };
        Db { lane, connstr: connstr.to_string(), conn: None, raw }
    }
    /// A fresh database with the tables of the harness models.
    pub fn new(ctx: &Ctx, lane: Lane) -> Db {
        let mut db = Db::empty(ctx, lane);
        migrate_models(db.conn.as_mut().unwrap(), lane);
        db
    }
    pub fn c(&self) -> &Connection {
        self.conn.as_ref().unwrap()
    }
    pub fn cm(&mut self) -> &mut Connection {
        self.conn.as_mut().unwrap()
    }
    pub fn connect(&self) -> Connection {
        connect(self.lane, &self.connstr).unwrap_or_else(|e| panic!("connect {:?}: {e}", self.lane))
    }
    pub fn spec(&self) -> butane::db::ConnectionSpec {
        butane::db::ConnectionSpec::new(self.lane.backend_name(), &self.connstr)
    }
    /// Run SQL through the independent driver.
    pub fn raw_exec(&self, sql: &str) -> Result<(), String> {
        match &self.raw {
            RawConn::Sqlite(c) => c.execute_batch(sql).map_err(|e| e.to_string()),
            RawConn::Pg(c) => rt().block_on(c.batch_execute(sql)).map_err(|e| format!("{e:?}")),
            RawConn::Turso(c) => rt().block_on(async {
                for s in sql.split(";\n").map(str::trim).filter(|s| !s.is_empty()) {
                    c.execute(s, ()).await.map_err(|e| e.to_string())?;
                }
                Ok(())
            }),
        }
    }
    pub fn raw_rows(&self, sql: &str) -> Result<Vec<Vec<Raw>>, String> {
        match &self.raw {
            RawConn::Sqlite(c) => {
                let mut st = c.prepare(sql).map_err(|e| e.to_string())?;
                let n = st.column_count();
                let mut rows = st.query([]).map_err(|e| e.to_string())?;
                let mut out = vec![];
                while let Some(r) = rows.next().map_err(|e| e.to_string())? {
                    let mut v = vec![];
                    for i in 0..n {
                        use rusqlite::types::ValueRef::*;
                        v.push(match r.get_ref(i).map_err(|e| e.to_string())? {
                            Null => Raw::Null,
                            Integer(i) => Raw::Int(i),
                            Real(f) => Raw::Real(f),
                            Text(t) => Raw::Text(String::from_utf8_lossy(t).to_string()),
                            Blob(b) => Raw::Blob(b.to_vec()),
                        });
                    }
                    out.push(v);
                }
                Ok(out)
            }
            RawConn::Pg(c) => rt().block_on(async {
                let msgs = c.simple_query(sql).await.map_err(|e| format!("{e:?}"))?;
                let mut out = vec![];
                for m in msgs {
                    if let tokio_postgres::SimpleQueryMessage::Row(r) = m {
                        let mut v = vec![];
                        for i in 0..r.len() {
                            v.push(match r.get(i) {
                                None => Raw::Null,
                                Some(t) => Raw::Text(t.to_string()),
                            });
                        }
                        out.push(v);
                    }
                }
                Ok(out)
            }),
            RawConn::Turso(c) => rt().block_on(async {
                let mut rows = c.query(sql, ()).await.map_err(|e| e.to_string())?;
                let mut out = vec![];
                while let Some(r) = rows.next().await.map_err(|e| e.to_string())? {
                    let mut v = vec![];
                    for i in 0..r.column_count() {
                        v.push(match r.get_value(i).map_err(|e| e.to_string())? {
                            turso::Value::Null => Raw::Null,
                            turso::Value::Integer(i) => Raw::Int(i),
                            turso::Value::Real(f) => Raw::Real(f),
                            turso::Value::Text(t) => Raw::Text(t),
                            turso::Value::Blob(b) => Raw::Blob(b),
                        });
                    }
                    out.push(v);
                }
                Ok(out)
            }),
        }
    }
    pub fn tables(&self) -> Vec<String> {
        let sql = match self.lane {
            Lane::Pg => "SELECT tablename FROM pg_tables WHERE schemaname='public' ORDER BY 1",
            _ => "SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%' AND name NOT LIKE '__turso%' ORDER BY 1",
        };
        let mut v: Vec<String> = self
            .raw_rows(sql)
            .expect("tables")
            .into_iter()
            .map(|r| match &r[0] {
                Raw::Text(t) => t.clone(),
                o => o.show(),
            })
            .collect();
        v.sort();
        v
    }
    /// Every row of every table, as text, sorted.
    pub fn dump(&self) -> Dump {
        self.tables()
            .into_iter()
            .map(|t| {
                let mut rows: Vec<String> = self
                    .raw_rows(&format!("SELECT * FROM \"{t}\""))
                    .unwrap_or_else(|e| panic!("dump {t}: {e}"))
                    .into_iter()
                    .map(|r| r.iter().map(Raw::show).collect::<Vec<_>>().join("|"))
                    .collect();
                rows.sort();
                (t, rows)
            })
            .collect()
    }
    pub fn dump_table(&self, t: &str) -> Vec<String> {
        let mut rows: Vec<String> = self
            .raw_rows(&format!("SELECT * FROM \"{t}\""))
            .unwrap_or_else(|e| panic!("dump {t}: {e}"))
            .into_iter()
            .map(|r| r.iter().map(Raw::show).collect::<Vec<_>>().join("|"))
            .collect();
        rows.sort();
        rows
    }
    /// Remove all rows of the model tables (not the migration bookkeeping).
    pub fn wipe(&self) {
        match self.lane {
            Lane::Pg => {
                let t: Vec<String> = self
                    .tables()
                    .into_iter()
                    .filter(|t| t != "butane_migrations")
                    .map(|t| format!("\"{t}\""))
                    .collect();
                self.raw_exec(&format!("TRUNCATE {} CASCADE", t.join(", "))).expect("wipe");
            }
            _ => {
                for t in self.tables() {
                    if t != "butane_migrations" {
                        // locks of connections which were dropped a moment ago may linger
                        let mut tries = 0;
                        while let Err(e) = self.raw_exec(&format!("DELETE FROM \"{t}\"")) {
                            tries += 1;
                            if tries > 500 || !e.contains("locked") {
                                panic!("wipe {t}: {e}");
                            }
                            std::thread::sleep(std::time::Duration::from_millis(10));
                        }
                    }
                }
            }
        }
    }
}
impl Drop for Db {
    fn drop(&mut self) {
        self.conn.take();
        if self.lane == Lane::Pg {
            // leave it to the server's end
        }
    }
}

pub fn harness_dir() -> PathBuf {
    std::env::var("RTM_HARNESS").unwrap_or_else(|_| env!("CARGO_MANIFEST_DIR").into()).into()
}

/// In-memory migrations with one migration creating all harness models.
pub fn model_migrations(lane: Lane) -> MemMigrations {
    let root = harness_dir().join(".butane/migrations");
    let mut disk = migrations::from_root(root);
    let cur = disk.current();
    let mut mem = MemMigrations::new();
    migrations::copy_migration(cur, mem.current()).expect("copy current");
    assert!(mem.create_migration(&nonempty::nonempty![lane.backend()], "init", None).expect("create migration"));
    mem
}
pub fn migrate_models(conn: &mut Connection, lane: Lane) {
    model_migrations(lane).migrate(conn).unwrap_or_else(|e| panic!("migrate {lane:?}: {e}"));
}
