//! A synchronous connection which checks how it is used, behind the async adapter, used by tasks
//! and threads which cancel, drop and move what they hold.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::thread::ThreadId;

use butane_core::db::*;
use butane_core::migrations::adb;
use butane_core::query::{BoolExpr, Expr, Order};
use butane_core::{Error, Result, SqlType, SqlVal, SqlValRef};
use san::*;

#[derive(Debug, Default)]
struct Shared {
    /// times each call was run
    ran: Mutex<BTreeMap<u64, u32>>,
    /// connections alive
    conns: AtomicI64,
    /// transactions alive
    txs: AtomicI64,
    /// worker threads alive
    workers: AtomicI64,
    gate: Mutex<bool>,
    opened: Condvar,
    problems: Mutex<Vec<(String, String)>>,
}
impl Shared {
    fn bad(&self, sig: &str, m: String) {
        self.problems.lock().unwrap().push((sig.to_string(), m));
    }
}
/// Tells when the thread ends.
struct Alive(Arc<Shared>);
impl Drop for Alive {
    fn drop(&mut self) {
        self.0.workers.fetch_sub(1, Ordering::SeqCst);
    }
}
thread_local! {
    static ALIVE: RefCell<Vec<Alive>> = const { RefCell::new(vec![]) };
}
#[derive(Clone, Debug)]
struct MockBackend {
    shared: Arc<Shared>,
    connect: &'static str,
}
#[async_trait::async_trait]
impl Backend for MockBackend {
    fn name(&self) -> &'static str {
        "mock"
    }
    fn row_id_column(&self) -> Option<&'static str> {
        None
    }
    fn create_migration_sql(&self, _: &adb::ADB, _: Vec<adb::Operation>) -> Result<String> {
        Err(Error::Internal("no".into()))
    }
    fn connect(&self, s: &str) -> Result<Connection> {
        match self.connect {
            "fail" => Err(Error::Internal(format!("refused {s}"))),
            "panic" => panic!("planned panic"),
            _ => Ok(Connection::new(Box::new(MockConn::new(self.shared.clone())))),
        }
    }
    async fn connect_async(&self, s: &str) -> Result<ConnectionAsync> {
        connect_async_via_sync(self, s).await
    }
}
/// Not Sync, as connections need not be: any use from two threads is a race on plain memory.
struct MockConn {
    shared: Arc<Shared>,
    thread: Cell<Option<ThreadId>>,
    busy: Cell<bool>,
    in_tx: Cell<bool>,
    log: RefCell<Vec<String>>,
}
impl std::fmt::Debug for MockConn {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.enter();
        self.busy.set(false);
        write!(f, "MockConn {}", self.log.borrow().len())
    }
}
impl MockConn {
    fn new(shared: Arc<Shared>) -> MockConn {
        shared.conns.fetch_add(1, Ordering::SeqCst);
        MockConn { shared, thread: Cell::new(None), busy: Cell::new(false), in_tx: Cell::new(false), log: RefCell::new(vec![]) }
    }
    fn enter(&self) {
        let me = std::thread::current().id();
        match self.thread.get() {
            None => {
                self.thread.set(Some(me));
                self.shared.workers.fetch_add(1, Ordering::SeqCst);
                let a = Alive(self.shared.clone());
                ALIVE.with(|l| l.borrow_mut().push(a));
            }
            Some(t) if t != me => self.shared.bad("two-threads", format!("used from {me:?}, made on {t:?}")),
            _ => {}
        }
        if self.busy.replace(true) {
            self.shared.bad("overlap", "a call began while another was running".into());
        }
    }
    /// `call` is "kind id text", and the text must be the one of the id.
    fn perform(&self, call: &str) -> Result<()> {
        self.enter();
        let mut it = call.splitn(3, ' ');
        let (kind, id, text) = (it.next().unwrap_or(""), it.next().unwrap_or("").parse::<u64>().unwrap_or(u64::MAX), it.next().unwrap_or(""));
        if kind == "wait" {
            let mut g = self.shared.gate.lock().unwrap();
            while !*g {
                g = self.shared.opened.wait(g).unwrap();
            }
        }
        std::thread::yield_now();
        // arguments are borrowed from the caller, who may be gone
        if text != text_of(id) {
            self.shared.bad("arguments", format!("call {id} was given {text:?}"));
        }
        self.log.borrow_mut().push(call.to_string());
        *self.shared.ran.lock().unwrap().entry(id).or_default() += 1;
        self.busy.set(false);
        match kind {
            "fail" => Err(Error::Internal(format!("failed {id}"))),
            "panic" => panic!("planned panic"),
            _ => Ok(()),
        }
    }
}
impl Drop for MockConn {
    fn drop(&mut self) {
        self.enter();
        // the order in which the calls of the users arrived
        let log = self.log.borrow();
        let calls: Vec<(&str, Option<u64>)> = log.iter().map(|l| { let mut i = l.split(' '); (i.next().unwrap_or(""), i.next().and_then(|n| n.parse().ok())) }).collect();
        let least = calls.iter().filter_map(|c| c.1).min().unwrap_or(0);
        seen(rowwork::hash(&calls.iter().map(|(k, n)| (*k, n.map(|n| n - least))).collect::<Vec<_>>()));
        if self.in_tx.get() {
            self.shared.bad("tx-alive", "connection dropped inside a transaction".into());
        }
        self.shared.conns.fetch_sub(1, Ordering::SeqCst);
    }
}
fn text_of(id: u64) -> String {
    let mut r = Rng::new(id);
    (0..r.below(20)).map(|_| (b'a' + r.below(26) as u8) as char).collect()
}
struct MockRow(u64, String);
impl BackendRow for MockRow {
    fn get(&self, idx: usize, _: SqlType) -> Result<SqlValRef<'_>> {
        Ok(if idx == 0 { SqlValRef::BigInt(self.0 as i64) } else { SqlValRef::Text(&self.1) })
    }
    fn len(&self) -> usize {
        2
    }
}
struct MockRows<'c> {
    conn: &'c MockConn,
    id: u64,
    left: u64,
    row: Option<MockRow>,
    fail_at: u64,
}
impl BackendRows for MockRows<'_> {
    fn next(&mut self) -> Result<Option<&(dyn BackendRow + '_)>> {
        self.conn.enter();
        self.conn.busy.set(false);
        if self.left == 0 {
            self.row = None;
            return Ok(None);
        }
        if self.left == self.fail_at {
            return Err(Error::Internal("failed row".into()));
        }
        self.left -= 1;
        self.row = Some(MockRow(self.left, text_of(self.id + self.left)));
        Ok(self.row.as_ref().map(|r| r as &dyn BackendRow))
    }
    fn current(&self) -> Option<&(dyn BackendRow + '_)> {
        self.row.as_ref().map(|r| r as &dyn BackendRow)
    }
}
impl Drop for MockRows<'_> {
    fn drop(&mut self) {
        self.conn.enter();
        self.conn.busy.set(false);
    }
}
macro_rules! methods {
    ($t:ty) => {
        impl ConnectionMethods for $t {
            fn execute(&self, sql: &str) -> Result<()> {
                self.the().perform(sql)
            }
            fn query<'c>(&'c self, table: &str, columns: &[Column], expr: Option<BoolExpr>, limit: Option<i32>, offset: Option<i32>, _: Option<&[Order]>) -> Result<RawQueryResult<'c>> {
                if columns.len() != 2 || columns[1].name() != "text" {
                    self.the().shared.bad("arguments", format!("{columns:?}"));
                }
                let id = limit.unwrap_or(0) as u64;
                if let Some(BoolExpr::Eq(_, Expr::Val(SqlVal::Text(t)))) = &expr {
                    if *t != text_of(id) {
                        self.the().shared.bad("arguments", format!("query {id} was given {t:?}"));
                    }
                }
                self.the().perform(table)?;
                let n = offset.unwrap_or(0) as u64;
                Ok(Box::new(MockRows { conn: self.the(), id, left: n, row: None, fail_at: if n % 7 == 6 { 2 } else { u64::MAX } }))
            }
            fn insert_returning_pk(&self, table: &str, _: &[Column], _: &Column, values: &[SqlValRef<'_>]) -> Result<SqlVal> {
                self.the().perform(table)?;
                Ok(match &values[0] {
                    SqlValRef::Text(t) => SqlVal::Text(t.to_string()),
                    v => v.clone().into(),
                })
            }
            fn insert_only(&self, table: &str, _: &[Column], _: &[SqlValRef<'_>]) -> Result<()> {
                self.the().perform(table)
            }
            fn insert_or_replace(&self, table: &str, _: &[Column], _: &Column, _: &[SqlValRef<'_>]) -> Result<()> {
                self.the().perform(table)
            }
            fn update(&self, table: &str, _: Column, pk: SqlValRef<'_>, _: &[Column], values: &[SqlValRef<'_>]) -> Result<()> {
                if !matches!((&pk, &values[0]), (SqlValRef::Text(a), SqlValRef::Text(b)) if a == b) {
                    self.the().shared.bad("arguments", format!("{pk:?} {values:?}"));
                }
                self.the().perform(table)
            }
            fn delete_where(&self, table: &str, _: BoolExpr) -> Result<usize> {
                self.the().perform(table)?;
                Ok(table.len())
            }
            fn has_table(&self, table: &str) -> Result<bool> {
                self.the().perform(table)?;
                Ok(true)
            }
        }
    };
}
impl MockConn {
    fn the(&self) -> &MockConn {
        self
    }
}
methods!(MockConn);
impl BackendConnection for MockConn {
    fn transaction(&mut self) -> Result<Transaction<'_>> {
        self.enter();
        self.busy.set(false);
        if self.in_tx.replace(true) {
            self.shared.bad("nested", "a transaction began inside another".into());
        }
        let n = self.log.borrow().len();
        self.log.borrow_mut().push("begin".into());
        if n % 11 == 10 {
            self.in_tx.set(false);
            return Err(Error::Internal("failed begin".into()));
        }
        if n % 13 == 12 {
            self.in_tx.set(false);
            panic!("planned panic");
        }
        self.shared.txs.fetch_add(1, Ordering::SeqCst);
        Ok(hooks::transaction(MockTx { conn: self, open: true }))
    }
    fn backend(&self) -> Box<dyn Backend> {
        self.enter();
        self.busy.set(false);
        Box::new(MockBackend { shared: self.shared.clone(), connect: "" })
    }
    fn backend_name(&self) -> &'static str {
        self.enter();
        self.busy.set(false);
        "mock"
    }
    fn is_closed(&self) -> bool {
        self.enter();
        self.busy.set(false);
        false
    }
}
struct MockTx<'c> {
    conn: &'c mut MockConn,
    open: bool,
}
impl std::fmt::Debug for MockTx<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "MockTx {}", self.conn.log.borrow().len())
    }
}
impl MockTx<'_> {
    fn the(&self) -> &MockConn {
        self.conn
    }
    fn end(&mut self) -> Result<()> {
        self.conn.enter();
        self.conn.busy.set(false);
        std::thread::yield_now();
        if !std::mem::replace(&mut self.open, false) {
            return Err(Error::Internal("already consumed".into()));
        }
        self.conn.log.borrow_mut().push("end".into());
        Ok(())
    }
}
methods!(MockTx<'_>);
impl hooks::PlainTransaction for MockTx<'_> {
    fn commit(&mut self) -> Result<()> {
        self.end()
    }
    fn rollback(&mut self) -> Result<()> {
        self.end()
    }
}
impl Drop for MockTx<'_> {
    fn drop(&mut self) {
        let _ = self.end();
        self.conn.in_tx.set(false);
        self.conn.shared.txs.fetch_sub(1, Ordering::SeqCst);
    }
}

static NEXT: AtomicU64 = AtomicU64::new(1);
/// What is known of a call: acknowledged (must have run once) or cancelled (at most once).
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fate {
    Done,
    Failed,
    Cancelled,
}
type Fates = Arc<Mutex<Vec<(u64, &'static str, Fate)>>>;

async fn call(c: &dyn ConnectionMethodsAsync, kind: &'static str, r: &mut Rng, fates: &Fates, shared: &Arc<Shared>) {
    let id = NEXT.fetch_add(1, Ordering::SeqCst);
    let sql = format!("{kind} {id} {}", text_of(id));
    let text = text_of(id);
    let cols = [Column::new("n", SqlType::BigInt), Column::new("text", SqlType::Text)];
    let polls = if r.chance(40) { r.below(4) } else { u64::MAX };
    let which = r.below(9);
    let rows = r.below(9);
    let fut = async {
        Ok::<bool, Error>(match which {
            0 | 1 => c.execute(&sql).await.map(|_| true)?,
            2 => {
                let mut q = c.query(&sql, &cols, Some(BoolExpr::Eq("text", Expr::Val(SqlVal::Text(text.clone())))), Some(id as i32), Some(rows as i32), None).await?;
                let mut left = rows;
                while let Some(row) = q.next()? {
                    left -= 1;
                    let (a, b) = (row.get(0, SqlType::BigInt)?, row.get(1, SqlType::Text)?);
                    let want = text_of(id + left);
                    if !matches!((&a, &b), (SqlValRef::BigInt(n), SqlValRef::Text(t)) if *n == left as i64 && *t == want) {
                        shared.bad("rows", format!("{a:?} {b:?}, not {left} {want:?}"));
                    }
                }
                if left != 0 {
                    shared.bad("rows", format!("{left} rows missing of {rows}"));
                }
                true
            }
            3 => c.insert_returning_pk(&sql, &cols, &cols[0], &[SqlValRef::Text(&text)]).await? == SqlVal::Text(text.clone()),
            4 => c.insert_only(&sql, &cols, &[SqlValRef::Text(&text)]).await.map(|_| true)?,
            5 => c.insert_or_replace(&sql, &cols, &cols[0], &[SqlValRef::Text(&text)]).await.map(|_| true)?,
            6 => c.update(&sql, cols[0].clone(), SqlValRef::Text(&text), &cols, &[SqlValRef::Text(&text)]).await.map(|_| true)?,
            7 => c.delete_where(&sql, BoolExpr::True).await? == sql.len(),
            _ => c.has_table(&sql).await?,
        })
    };
    count("calls", 1);
    // the future is dropped when this ends, and so are its arguments
    let got = polled(fut, polls).await;
    beat();
    let fate = match got {
        Some(Ok(true)) => Fate::Done,
        Some(Ok(false)) => {
            shared.bad("answer", format!("wrong answer to {sql}"));
            Fate::Done
        }
        Some(Err(_)) => Fate::Failed,
        None => {
            count("calls cancelled", 1);
            Fate::Cancelled
        }
    };
    seen(rowwork::hash(&(which, kind, fate as u8, polls.min(5))));
    if fate == Fate::Failed && (kind == "ok" || kind == "wait") && which != 2 {
        shared.bad("lost", format!("{sql} was reported as failed"));
    }
    if fate == Fate::Done && kind != "ok" && kind != "wait" {
        shared.bad("answer", format!("{sql} was reported as done"));
    }
    fates.lock().unwrap().push((id, kind, fate));
}
fn kind(r: &mut Rng) -> &'static str {
    match r.below(10) {
        0 => "fail",
        1 => "panic",
        _ => "ok",
    }
}
/// Opens the gate from outside of the runtime, a little later.
fn opener(shared: &Arc<Shared>) -> std::thread::JoinHandle<()> {
    *shared.gate.lock().unwrap() = false;
    let s = shared.clone();
    std::thread::spawn(move || {
        for _ in 0..20 {
            std::thread::yield_now();
        }
        *s.gate.lock().unwrap() = true;
        s.opened.notify_all();
    })
}
async fn episode(r: &mut Rng, case: &str) {
    let shared = Arc::new(Shared::default());
    let fates: Fates = Default::default();
    // refused and crashing connects
    if r.chance(20) {
        let b = MockBackend { shared: shared.clone(), connect: if r.chance(50) { "fail" } else { "panic" } };
        if b.connect_async("x").await.is_ok() {
            shared.bad("connect", "a failed connect gave a connection".into());
        }
        count("connects refused", 1);
    }
    let backend = MockBackend { shared: shared.clone(), connect: "" };
    let mut conn = if r.chance(50) {
        match polled(backend.connect_async("x"), if r.chance(20) { r.below(3) } else { u64::MAX }).await {
            Some(c) => c.expect("connect"),
            None => {
                count("connects cancelled", 1);
                backend.connect_async("x").await.expect("connect")
            }
        }
    } else {
        let c = Connection::new(Box::new(MockConn::new(shared.clone())));
        c.into_async().expect("into_async")
    };
    count("connections", 1);
    for _ in 0..1 + r.below(3) {
        match r.below(4) {
            // shared by tasks
            0 | 1 => {
                let c = Arc::new(conn);
                let n = 1 + r.below(3);
                let mut tasks = vec![];
                for _ in 0..n {
                    let (c, mut r, fates, shared) = (c.clone(), r.fork(), fates.clone(), shared.clone());
                    tasks.push(tokio::spawn(async move {
                        for _ in 0..1 + r.below(4) {
                            let k = kind(&mut r);
                            call(&*c, k, &mut r, &fates, &shared).await;
                            match r.below(6) {
                                0 => {
                                    BackendConnectionAsync::backend_name(&*c);
                                }
                                1 => {
                                    let _ = BackendConnectionAsync::backend(&*c).name().len() + BackendConnectionAsync::is_closed(&*c) as usize;
                                }
                                2 => {
                                    let _ = format!("{c:?}");
                                }
                                _ => {}
                            }
                        }
                    }));
                }
                let abort = r.chance(25);
                for t in tasks {
                    if abort {
                        Yield(false).await;
                        t.abort();
                        count("tasks aborted", 1);
                    }
                    if let Err(e) = t.await {
                        if e.is_panic() {
                            shared.bad("panic", "a task panicked".into());
                        }
                    }
                }
                count("shared phases", 1);
                conn = Arc::try_unwrap(c).expect("all tasks have ended");
            }
            2 => transaction(&mut conn, r, &fates, &shared).await,
            // a cancelled call which is running while what it borrows goes away
            _ => {
                let o = opener(&shared);
                call(&conn, "wait", r, &fates, &shared).await;
                o.join().unwrap();
                count("calls waited for", 1);
            }
        }
        if r.chance(20) {
            // on another thread from now on
            conn = std::thread::spawn(move || conn).join().unwrap();
        }
        if r.chance(15) {
            let (mut rr, f2, s2) = (r.fork(), fates.clone(), shared.clone());
            let res = conn
                .with_sync(move |c| {
                    let id = NEXT.fetch_add(1, Ordering::SeqCst);
                    let k = kind(&mut rr);
                    let done = std::panic::catch_unwind(AssertUnwindSafe(|| ConnectionMethods::execute(c, &format!("{k} {id} {}", text_of(id)))));
                    let fate = match done {
                        Ok(Ok(())) => Fate::Done,
                        Ok(Err(_)) => Fate::Failed,
                        Err(_) => {
                            s2.bad("panic", "a call panicked in with_sync".into());
                            Fate::Failed
                        }
                    };
                    f2.lock().unwrap().push((id, k, fate));
                    Ok(())
                })
                .await;
            if res.is_err() {
                shared.bad("lost", format!("with_sync: {res:?}"));
            }
            count("with_sync", 1);
        }
    }
    // the end
    match r.below(4) {
        0 => drop(conn),
        1 => std::thread::spawn(move || drop(conn)).join().unwrap(),
        2 => tokio::spawn(async move { drop(conn) }).await.unwrap(),
        _ => {
            let s = conn.into_sync().expect("into_sync");
            tokio::task::spawn_blocking(move || drop(s)).await.unwrap();
        }
    }
    beat();
    // a cancelled connect may end later
    let until = std::time::Instant::now() + std::time::Duration::from_secs(30);
    while std::time::Instant::now() < until {
        if shared.conns.load(Ordering::SeqCst) == 0 && shared.workers.load(Ordering::SeqCst) == 0 {
            break;
        }
        Yield(false).await;
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    if shared.conns.load(Ordering::SeqCst) != 0 || shared.txs.load(Ordering::SeqCst) != 0 {
        shared.bad("leak", format!("{} connections and {} transactions remain", shared.conns.load(Ordering::SeqCst), shared.txs.load(Ordering::SeqCst)));
    }
    if shared.workers.load(Ordering::SeqCst) != 0 {
        shared.bad("worker-remains", format!("{} workers remain after the connection was dropped", shared.workers.load(Ordering::SeqCst)));
    }
    let ran = shared.ran.lock().unwrap().clone();
    for (id, kind, fate) in fates.lock().unwrap().iter() {
        let n = ran.get(id).copied().unwrap_or(0);
        let ok = match fate {
            Fate::Done | Fate::Failed => n == 1,
            Fate::Cancelled => n <= 1,
        };
        if !ok {
            shared.bad("times-run", format!("{kind} {id}, {fate:?}, ran {n} times"));
        }
    }
    for (sig, m) in shared.problems.lock().unwrap().iter() {
        violation(sig, case, m);
    }
}
async fn transaction(conn: &mut ConnectionAsync, r: &mut Rng, fates: &Fates, shared: &Arc<Shared>) {
    count("transactions", 1);
    let polls = if r.chance(30) { r.below(4) } else { u64::MAX };
    let started = polled(BackendConnectionAsync::transaction(conn), polls).await;
    beat();
    let Some(Ok(tx)) = started else {
        count(if started.is_none() { "begins cancelled" } else { "begins failed" }, 1);
        return;
    };
    for _ in 0..r.below(3) {
        let k = kind(r);
        call(&tx, k, r, fates, shared).await;
    }
    if r.chance(20) {
        let _ = format!("{tx:?}");
    }
    if r.chance(20) {
        let o = opener(shared);
        call(&tx, "wait", r, fates, shared).await;
        o.join().unwrap();
    }
    let polls = if r.chance(40) { r.below(4) } else { u64::MAX };
    match r.below(4) {
        0 => {
            if polled(tx.commit(), polls).await.is_none() {
                count("commits cancelled", 1);
            }
        }
        1 => {
            if polled(tx.rollback(), polls).await.is_none() {
                count("rollbacks cancelled", 1);
            }
        }
        2 => std::thread::scope(|s| {
            s.spawn(move || drop(tx));
        }),
        _ => drop(tx),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().copied().unwrap_or("");
        if m != "planned panic" {
            println!("panic: {i}");
        }
    }));
    let (seed, n, secs) = (env("SAN_SEED", 1), env("SAN_EPISODES", 20), env("SAN_SECS", 600));
    if !cfg!(miri) {
        watchdog(60);
    }
    let start = std::time::Instant::now();
    let mut r = Rng::new(seed);
    for i in 0..n {
        if start.elapsed().as_secs() >= secs {
            break;
        }
        let mut er = r.fork();
        let rt = if er.chance(30) {
            tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
        } else {
            tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_time().build().unwrap()
        };
        let case = format!("seed {seed} episode {i}");
        for _ in 0..if cfg!(miri) { 1 } else { 20 } {
            count("episodes", 1);
            rt.block_on(episode(&mut er, &case));
        }
    }
    done();
}
