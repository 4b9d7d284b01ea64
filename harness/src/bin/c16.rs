//! C16: synchronous, asynchronous and adapted connections agree.
use std::future::Future;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

use butane::db::{Backend, BackendConnection, BackendConnectionAsync, Column, Connection, ConnectionAsync, ConnectionMethods, ConnectionMethodsAsync, RawQueryResult, SyncAdapter, Transaction};
use butane::query::{BoolExpr, Expr, Order, OrderDirection};
use butane::{AutoPk, DataObject, DataResult, ForeignKey, FromSql, Many, ManyOpsAsync, ManyOpsSync, SqlType, SqlVal, SqlValRef, ToSql};
use rtm::models::*;
use rtm::ops::*;
use rtm::prelude::*;
use tokio::runtime::Handle;

#[derive(Clone, Debug)]
enum Op {
    PutText(String, String, Option<i64>),
    GetText(String),
    TryText(String),
    DelText(String),
    Texts(usize, Option<i32>, Option<i32>, bool),
    First(usize),
    QDel(usize),
    NewAuto(String),
    UpdAuto(usize, String),
    AutoTwice(usize),
    NewUniq(String, bool),
    UpdUniq(usize, String),
    Uniqs,
    AddLabel(usize),
    DropLabel(usize),
    Labels,
    Owner(usize),
    PutAccount(i64, i64, i64),
    Accounts,
    RawAdd(i64),
    /// so many additions under way at the same time where the interface allows it
    Burst(usize),
    RawBroken,
    RawMissing,
    HasTable(&'static str),
    RawQuery(usize, usize),
    RawQueryMissing,
    InsertOnly(i64, i64),
    InsertOrReplace(i64, i64),
    InsertPk(String),
    Update(i64, i64),
    DeleteWhere(i64),
    Delete(i64),
}
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum End {
    Commit,
    Rollback,
    Drop,
}
#[derive(Clone, Debug)]
enum Seg {
    Plain(Vec<Op>),
    Tx(Vec<Op>, End),
}
fn cond(i: usize) -> BoolExpr {
    use BoolExpr::*;
    match i % 7 {
        0 => True,
        1 => Eq("n", Expr::Val(1i64.to_sql())),
        2 => Gt("key", Expr::Val("b".to_sql())),
        3 => Or(Box::new(Eq("n", Expr::Val(2i64.to_sql()))), Box::new(Like("v", Expr::Val("%1%".to_sql())))),
        4 => Not(Box::new(Eq("n", Expr::Val(0i64.to_sql())))),
        5 => In("key", vec!["a".to_sql(), "c".to_sql()]),
        _ => And(Box::new(Le("n", Expr::Val(2i64.to_sql()))), Box::new(Ne("key", Expr::Val("d".to_sql())))),
    }
}
fn gen_op(r: &mut Rng) -> Op {
    let key = |r: &mut Rng| pick(r, &["a", "b", "c", "d", "e"]).to_string();
    let email = |r: &mut Rng| format!("e{}", below(r, 6));
    let n = |r: &mut Rng| below(r, 5) as i64;
    match below(r, 38) {
        0..=3 => Op::PutText(key(r), text(r), opt(r, 0.3, |r| below(r, 3) as i64)),
        4 => Op::GetText(key(r)),
        5 => Op::TryText(key(r)),
        6 => Op::DelText(key(r)),
        7 | 8 => Op::Texts(below(r, 7), opt(r, 0.5, |r| below(r, 4) as i32), opt(r, 0.6, |r| below(r, 3) as i32), chance(r, 0.5)),
        9 => Op::First(below(r, 7)),
        10 => Op::QDel(1 + below(r, 6)),
        11 | 12 => Op::NewAuto(text(r)),
        13 => Op::UpdAuto(below(r, 5), text(r)),
        14 => Op::AutoTwice(below(r, 5)),
        15 | 16 => Op::NewUniq(email(r), chance(r, 0.15)),
        17 => Op::UpdUniq(below(r, 5), email(r)),
        18 => Op::Uniqs,
        19 | 20 => Op::AddLabel(below(r, 3)),
        21 => Op::DropLabel(below(r, 3)),
        22 => Op::Labels,
        23 => Op::Owner(below(r, 5)),
        24 | 25 => Op::PutAccount(n(r), i64v(r) / 4, i64v(r) / 4),
        26 => Op::Accounts,
        27 => Op::RawAdd(below(r, 50) as i64),
        28 => Op::Burst(1 + below(r, 6)),
        29 if chance(r, 0.3) => Op::RawBroken,
        29 if chance(r, 0.5) => Op::RawMissing,
        30 if chance(r, 0.3) => Op::RawQueryMissing,
        31 => Op::HasTable(pick(r, &["KText", "Account", "nothing_like_it", "butane_migrations"])),
        32 => Op::InsertOnly(n(r), n(r)),
        33 => Op::InsertOrReplace(n(r), n(r)),
        34 => Op::InsertPk(text(r)),
        35 => Op::Update(n(r), n(r)),
        36 => Op::DeleteWhere(n(r)),
        37 => Op::Delete(n(r)),
        _ => Op::RawQuery(below(r, 7), below(r, 4)),
    }
}
fn gen_history(r: &mut Rng) -> Vec<Seg> {
    (0..2 + below(r, 5))
        .map(|_| {
            let ops = (0..1 + below(r, 6)).map(|_| gen_op(r)).collect();
            if chance(r, 0.4) {
                Seg::Tx(ops, *pick(r, &[End::Commit, End::Commit, End::Rollback, End::Drop]))
            } else {
                Seg::Plain(ops)
            }
        })
        .collect()
}
const ACOLS: [Column; 3] = [Column::new("id", SqlType::BigInt), Column::new("balance", SqlType::BigInt), Column::new("seq", SqlType::BigInt)];
const TCOLS: [Column; 3] = [Column::new("key", SqlType::Text), Column::new("v", SqlType::Text), Column::new("n", SqlType::BigInt)];

/// What a history knows between its operations, and what it saw.
#[derive(Clone, Default)]
struct Memo {
    autos: Vec<i64>,
    uniqs: Vec<i64>,
    labels: Vec<Label>,
    seen: Vec<String>,
}
fn auto_name(m: &mut Memo, id: i64) -> usize {
    m.autos.push(id);
    m.autos.len() - 1
}
fn uniq_name(m: &mut Memo, id: i64) -> usize {
    m.uniqs.push(id);
    m.uniqs.len() - 1
}
fn rows_shown(mut rows: RawQueryResult, stop: usize) -> butane::Result<String> {
    let mut out = vec![];
    if rows.current().is_some() {
        out.push("current before next".to_string());
    }
    while let Some(row) = rows.next()? {
        let a = String::from_sql(row.get(0, SqlType::Text)?.into())?;
        let b = String::from_sql(row.get(1, SqlType::Text)?.into())?;
        let c = Option::<i64>::from_sql(row.get(2, SqlType::BigInt)?.into())?;
        out.push(format!("{a:?}|{b:?}|{c:?}"));
        if stop > 0 && out.len() == stop {
            break;
        }
    }
    if stop == 0 {
        out.sort();
    } else {
        // without an order any of the rows may come
        out = vec![format!("{} rows", out.len())];
    }
    Ok(out.join(" "))
}

macro_rules! ops {
    ($name:ident, ($($asy:tt)*), $meth:path, ($($aw:tt)*), $save:ident, $del:ident, $get:ident, $try:ident, $load:ident, $first:ident, $qdel:ident, $fk:ident, $many:ident, $manyops:ident, $burst:ident) => {
        $($asy)* fn $name(op: &Op, m: &mut Memo, c: &impl $meth) -> butane::Result<String> {
            Ok(match op {
                Op::PutText(k, v, n) => {
                    let mut t = KText { key: k.clone(), v: v.clone(), n: *n };
                    $save(&mut t, c) $($aw)* ?;
                    format!("put {t:?}")
                }
                Op::GetText(k) => format!("{:?}", $get::<KText>(c, k.clone()) $($aw)* ?),
                Op::TryText(k) => format!("{:?}", $try::<KText>(c, k.clone()) $($aw)* ?),
                Op::DelText(k) => {
                    $del(&KText { key: k.clone(), v: String::new(), n: None }, c) $($aw)* ?;
                    "deleted".into()
                }
                Op::Texts(i, limit, offset, desc) => {
                    let mut q = KText::query().filter(cond(*i));
                    q = if *desc { q.order_desc("key") } else { q.order_asc("key") };
                    if let Some(l) = limit {
                        q = q.limit(*l);
                    }
                    if let Some(o) = offset {
                        q = q.offset(*o);
                    }
                    format!("{:?}", $load(q, c) $($aw)* ?)
                }
                Op::First(i) => format!("{:?}", $first(KText::query().filter(cond(*i)).order_asc("key"), c) $($aw)* ?),
                Op::QDel(i) => {
                    let q = KText::query().filter(cond(*i));
                    format!("deleted {}", $qdel(q, c) $($aw)* ?)
                }
                Op::NewAuto(v) => {
                    let mut a = KAuto { v: v.clone(), n: None, key: AutoPk::uninitialized() };
                    $save(&mut a, c) $($aw)* ?;
                    format!("auto {}", auto_name(m, a.key.unwrap()))
                }
                Op::UpdAuto(i, v) => {
                    if m.autos.is_empty() {
                        return Ok("none".into());
                    }
                    let id = m.autos[i % m.autos.len()];
                    let Some(mut a) = $try::<KAuto>(c, id) $($aw)* ? else { return Ok("gone".into()) };
                    a.v = v.clone();
                    $save(&mut a, c) $($aw)* ?;
                    "updated".into()
                }
                Op::AutoTwice(i) => {
                    if m.autos.is_empty() {
                        return Ok("none".into());
                    }
                    let id = m.autos[i % m.autos.len()];
                    let Some(a) = $try::<KAuto>(c, id) $($aw)* ? else { return Ok("gone".into()) };
                    $del(&a, c) $($aw)* ?;
                    "deleted auto".into()
                }
                Op::NewUniq(e, dangling) => {
                    let owner = if *dangling { "nobody" } else { "author" };
                    let mut u = Uniq { id: AutoPk::uninitialized(), email: e.clone(), code: None, owner: Some(ForeignKey::from_pk(owner.to_string())), note: String::new() };
                    $save(&mut u, c) $($aw)* ?;
                    format!("uniq {}", uniq_name(m, u.id.unwrap()))
                }
                Op::UpdUniq(i, e) => {
                    if m.uniqs.is_empty() {
                        return Ok("none".into());
                    }
                    let id = m.uniqs[i % m.uniqs.len()];
                    let Some(mut u) = $try::<Uniq>(c, id) $($aw)* ? else { return Ok("gone".into()) };
                    u.email = e.clone();
                    $save(&mut u, c) $($aw)* ?;
                    "updated".into()
                }
                Op::Uniqs => {
                    let v = $load(Uniq::query().order_asc("email"), c) $($aw)* ?;
                    format!("{:?}", v.iter().map(|u| (&u.email, u.owner.as_ref().map(|o| o.pk()))).collect::<Vec<_>>())
                }
                Op::AddLabel(i) | Op::DropLabel(i) => {
                    let Some(mut t) = $try::<Team>(c, "team".to_string()) $($aw)* ? else { return Ok("no team".into()) };
                    let l: &mut Many<Label> = &mut t.labels;
                    if matches!(op, Op::AddLabel(_)) {
                        l.add(&m.labels[*i])?;
                    } else {
                        l.remove(&m.labels[*i]);
                    }
                    $manyops::save(l, c) $($aw)* ?;
                    "labelled".into()
                }
                Op::Labels => {
                    let Some(t) = $try::<Team>(c, "team".to_string()) $($aw)* ? else { return Ok("no team".into()) };
                    let l = $many(&t.labels, c) $($aw)* ?;
                    format!("{:?}", l.iter().map(|l| l.code).collect::<BTreeSet<_>>())
                }
                Op::Owner(i) => {
                    if m.uniqs.is_empty() {
                        return Ok("none".into());
                    }
                    let Some(u) = $try::<Uniq>(c, m.uniqs[i % m.uniqs.len()]) $($aw)* ? else { return Ok("gone".into()) };
                    match &u.owner {
                        Some(o) => format!("{:?}", $fk(o, c) $($aw)* ?.name),
                        None => "nobody".into(),
                    }
                }
                Op::PutAccount(id, b, s) => {
                    let mut a = Account { id: *id, balance: *b, seq: *s };
                    $save(&mut a, c) $($aw)* ?;
                    "account".into()
                }
                Op::Accounts => format!("{:?}", $load(Account::query().order("id", OrderDirection::Descending), c) $($aw)* ?.iter().map(|a| (a.id, a.balance, a.seq)).collect::<Vec<_>>()),
                Op::RawAdd(n) => {
                    c.execute(&format!("UPDATE \"{}\" SET balance = balance + {n}", Account::TABLE)) $($aw)* ?;
                    "added".into()
                }
                Op::Burst(n) => {
                    let sql = format!("UPDATE \"{}\" SET seq = seq + 1", Account::TABLE);
                    $burst!(c, sql, n);
                    "burst".into()
                }
                Op::RawBroken => {
                    c.execute("UPDATE UPDATE nonsense") $($aw)* ?;
                    "?".into()
                }
                Op::RawMissing => {
                    c.execute("DELETE FROM there_is_no_such_table") $($aw)* ?;
                    "?".into()
                }
                Op::HasTable(t) => format!("{}", c.has_table(t) $($aw)* ?),
                Op::RawQuery(i, stop) => rows_shown(c.query("KText", &TCOLS, Some(cond(*i)), None, None, None) $($aw)* ?, *stop)?,
                Op::RawQueryMissing => rows_shown(c.query("there_is_no_such_table", &TCOLS, None, Some(1), Some(2), Some(&[Order { direction: OrderDirection::Ascending, column: "key" }])) $($aw)* ?, 0)?,
                Op::InsertOnly(id, b) => {
                    c.insert_only("Account", &ACOLS, &[SqlValRef::BigInt(*id), SqlValRef::BigInt(*b), SqlValRef::BigInt(0)]) $($aw)* ?;
                    "inserted".into()
                }
                Op::InsertOrReplace(id, b) => {
                    c.insert_or_replace("Account", &ACOLS, &ACOLS[0], &[SqlValRef::BigInt(*id), SqlValRef::BigInt(*b), SqlValRef::BigInt(1)]) $($aw)* ?;
                    "replaced".into()
                }
                Op::InsertPk(v) => {
                    let cols = [Column::new("v", SqlType::Text), Column::new("n", SqlType::BigInt)];
                    match c.insert_returning_pk("KAuto", &cols, &Column::new("key", SqlType::BigInt), &[SqlValRef::Text(v), SqlValRef::Null]) $($aw)* ? {
                        SqlVal::BigInt(id) => format!("auto {}", auto_name(m, id)),
                        o => format!("{o:?}"),
                    }
                }
                Op::Update(id, b) => {
                    c.update("Account", ACOLS[0].clone(), SqlValRef::BigInt(*id), &ACOLS[1..2], &[SqlValRef::BigInt(*b)]) $($aw)* ?;
                    "updated".into()
                }
                Op::DeleteWhere(b) => format!("deleted {}", c.delete_where("Account", BoolExpr::Lt("balance", Expr::Val(b.to_sql()))) $($aw)* ?),
                Op::Delete(id) => {
                    c.delete("Account", "id", id.to_sql()) $($aw)* ?;
                    "deleted".into()
                }
            })
        }
    };
}
macro_rules! burst_sync {
    ($c:expr, $sql:expr, $n:expr) => {
        let all: Vec<_> = (0..*$n).map(|_| $c.execute(&$sql)).collect();
        for r in all {
            r?;
        }
    };
}
macro_rules! burst_async {
    ($c:expr, $sql:expr, $n:expr) => {
        for r in futures_join((0..*$n).map(|_| $c.execute(&$sql)).collect()).await {
            r?;
        }
    };
}
/// Poll all of them in turn until each is done.
async fn futures_join<F: Future>(futs: Vec<F>) -> Vec<F::Output> {
    let mut futs: Vec<_> = futs.into_iter().map(|f| Box::pin(f)).collect();
    let mut outs: Vec<Option<F::Output>> = futs.iter().map(|_| None).collect();
    std::future::poll_fn(|cx| {
        let mut left = false;
        for (f, o) in futs.iter_mut().zip(&mut outs) {
            if o.is_none() {
                match f.as_mut().poll(cx) {
                    std::task::Poll::Ready(x) => *o = Some(x),
                    std::task::Poll::Pending => left = true,
                }
            }
        }
        if left { std::task::Poll::Pending } else { std::task::Poll::Ready(()) }
    })
    .await;
    outs.into_iter().map(|o| o.unwrap()).collect()
}
ops!(sop, (), ConnectionMethods, (), ssave, sdel, sget, stry, sload, sfirst, sqdel, sfk, smany, ManyOpsSync, burst_sync);
ops!(aop, (async), ConnectionMethodsAsync, (.await), asave, adel, aget, atry, aload, afirst, aqdel, afk, amany, ManyOpsAsync, burst_async);

fn shown(r: butane::Result<String>) -> String {
    match r {
        Ok(s) => s,
        Err(e) => {
            let s = format!("ERR {e:?}");
            // the server's own source position and the query's position vary with nothing we test
            s
        }
    }
}
fn sseg(seg: &Seg, m: &mut Memo, c: &mut impl BackendConnection) {
    match seg {
        Seg::Plain(ops) => {
            for op in ops {
                let r = shown(sop(op, m, c));
                m.seen.push(r);
            }
        }
        Seg::Tx(ops, end) => match c.transaction() {
            Err(e) => m.seen.push(format!("BEGIN ERR {e:?}")),
            Ok(t) => {
                let known = (m.autos.len(), m.uniqs.len());
                for op in ops {
                    let r = shown(sop(op, m, &t));
                    m.seen.push(r);
                }
                let r = match end {
                    End::Commit => t.commit(),
                    End::Rollback => t.rollback(),
                    End::Drop => Ok(drop(t)),
                };
                if *end != End::Commit || r.is_err() {
                    m.autos.truncate(known.0);
                    m.uniqs.truncate(known.1);
                }
                m.seen.push(format!("{end:?} {r:?}"));
            }
        },
    }
}
async fn aseg(seg: &Seg, m: &mut Memo, c: &mut impl BackendConnectionAsync) {
    match seg {
        Seg::Plain(ops) => {
            for op in ops {
                let r = shown(aop(op, m, c).await);
                m.seen.push(r);
            }
        }
        Seg::Tx(ops, end) => match c.transaction().await {
            Err(e) => m.seen.push(format!("BEGIN ERR {e:?}")),
            Ok(t) => {
                let known = (m.autos.len(), m.uniqs.len());
                for op in ops {
                    let r = shown(aop(op, m, &t).await);
                    m.seen.push(r);
                }
                let r = match end {
                    End::Commit => t.commit().await,
                    End::Rollback => t.rollback().await,
                    End::Drop => Ok(drop(t)),
                };
                if *end != End::Commit || r.is_err() {
                    m.autos.truncate(known.0);
                    m.uniqs.truncate(known.1);
                }
                m.seen.push(format!("{end:?} {r:?}"));
            }
        },
    }
}

/// A connection which notes every call that reaches it.
struct Recorder {
    inner: Connection,
    calls: Arc<Mutex<Vec<String>>>,
    closed: Arc<AtomicBool>,
}
impl std::fmt::Debug for Recorder {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Recorder")
    }
}
impl Recorder {
    fn note(&self, s: String) {
        self.calls.lock().unwrap().push(s);
    }
}
fn names(c: &[Column]) -> String {
    c.iter().map(|c| format!("{} {:?},", c.name(), c.ty())).collect()
}
impl ConnectionMethods for Recorder {
    fn execute(&self, sql: &str) -> butane::Result<()> {
        self.note(format!("execute {sql}"));
        ConnectionMethods::execute(&self.inner, sql)
    }
    fn query<'c>(&'c self, table: &str, columns: &[Column], expr: Option<BoolExpr>, limit: Option<i32>, offset: Option<i32>, sort: Option<&[Order]>) -> butane::Result<RawQueryResult<'c>> {
        let order: Vec<String> = sort.unwrap_or(&[]).iter().map(|o| format!("{}{}", o.column, matches!(o.direction, OrderDirection::Descending))).collect();
        self.note(format!("query {table} {} {expr:?} {limit:?} {offset:?} {order:?}", names(columns)));
        self.inner.query(table, columns, expr, limit, offset, sort)
    }
    fn insert_returning_pk(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> butane::Result<SqlVal> {
        self.note(format!("insert_returning_pk {table} {} {pkcol:?} {values:?}", names(columns)));
        self.inner.insert_returning_pk(table, columns, pkcol, values)
    }
    fn insert_only(&self, table: &str, columns: &[Column], values: &[SqlValRef<'_>]) -> butane::Result<()> {
        self.note(format!("insert_only {table} {} {values:?}", names(columns)));
        self.inner.insert_only(table, columns, values)
    }
    fn insert_or_replace(&self, table: &str, columns: &[Column], pkcol: &Column, values: &[SqlValRef<'_>]) -> butane::Result<()> {
        self.note(format!("insert_or_replace {table} {} {pkcol:?} {values:?}", names(columns)));
        self.inner.insert_or_replace(table, columns, pkcol, values)
    }
    fn update(&self, table: &str, pkcol: Column, pk: SqlValRef<'_>, columns: &[Column], values: &[SqlValRef<'_>]) -> butane::Result<()> {
        self.note(format!("update {table} {pkcol:?} {pk:?} {} {values:?}", names(columns)));
        self.inner.update(table, pkcol, pk, columns, values)
    }
    fn delete_where(&self, table: &str, expr: BoolExpr) -> butane::Result<usize> {
        self.note(format!("delete_where {table} {expr:?}"));
        self.inner.delete_where(table, expr)
    }
    fn has_table(&self, table: &str) -> butane::Result<bool> {
        self.note(format!("has_table {table}"));
        self.inner.has_table(table)
    }
}
impl BackendConnection for Recorder {
    fn transaction(&mut self) -> butane::Result<Transaction<'_>> {
        self.note("transaction".into());
        self.inner.transaction()
    }
    fn backend(&self) -> Box<dyn Backend> {
        Box::new(Named)
    }
    fn backend_name(&self) -> &'static str {
        "rtm-recorder"
    }
    fn is_closed(&self) -> bool {
        self.closed.load(Ordering::SeqCst)
    }
}
/// A backend with a name of its own.
#[derive(Clone)]
struct Named;
#[async_trait::async_trait]
impl Backend for Named {
    fn name(&self) -> &'static str {
        "rtm-named"
    }
    fn row_id_column(&self) -> Option<&'static str> {
        Some("rtm-row")
    }
    fn create_migration_sql(&self, _: &butane::migrations::adb::ADB, ops: Vec<butane::migrations::adb::Operation>) -> butane::Result<String> {
        Ok(format!("{} operations", ops.len()))
    }
    fn connect(&self, conn_str: &str) -> butane::Result<Connection> {
        Err(butane::Error::Internal(format!("connect {conn_str}")))
    }
    async fn connect_async(&self, conn_str: &str) -> butane::Result<ConnectionAsync> {
        Err(butane::Error::Internal(format!("connect_async {conn_str}")))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Base {
    /// `connect`
    Sync,
    /// `connect_async`
    Async,
    /// `connect` of the adapted backend
    Adapted,
    /// `connect_async` of the adapted backend
    AdaptedAsync,
    /// `connect_async_via_sync` of the backend
    ViaSync,
    /// a recording connection over a synchronous one
    Recorder,
}
/// Where the connection is made and used.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Place {
    /// no runtime on this thread
    Outside,
    /// entered but not running
    Entered,
    /// a blocking thread of a multi-threaded runtime
    Blocking,
    /// a blocking thread of a single-threaded runtime
    BlockingSingle,
    /// a task of a multi-threaded runtime
    InPlace,
    /// made inside a task, used outside
    MadeInside,
}
const PLACES: [Place; 6] = [Place::Outside, Place::Entered, Place::Blocking, Place::BlockingSingle, Place::InPlace, Place::MadeInside];
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Stack {
    base: Base,
    /// how often it is turned into the other kind
    turns: usize,
    /// boxed again in between
    boxed: bool,
    place: Place,
    /// each part of the history on another thread or task
    hop: bool,
    /// async only: use it through `with_sync`
    with_sync: bool,
}
enum Conn {
    S(Connection),
    A(ConnectionAsync),
}
impl Conn {
    fn backend_name(&self) -> &'static str {
        match self {
            Conn::S(c) => c.backend_name(),
            Conn::A(c) => c.backend_name(),
        }
    }
    fn backend(&self) -> Box<dyn Backend> {
        match self {
            Conn::S(c) => c.backend(),
            Conn::A(c) => c.backend(),
        }
    }
    fn is_closed(&self) -> bool {
        match self {
            Conn::S(c) => c.is_closed(),
            Conn::A(c) => c.is_closed(),
        }
    }
}
#[derive(Default, Clone)]
struct Trace {
    seen: Vec<String>,
    journal: Vec<String>,
    dump: BTreeMap<String, Vec<String>>,
    calls: Option<Vec<String>>,
    problems: Vec<(String, String)>,
}

struct Job {
    lane: Lane,
    connstr: String,
    stack: Stack,
    history: Vec<Seg>,
    labels: Vec<Label>,
    calls: Arc<Mutex<Vec<String>>>,
    closed: Arc<AtomicBool>,
    /// finally end the session (PostgreSQL)
    killer: Option<Arc<dyn Fn() + Send + Sync>>,
}
fn adapted(lane: Lane) -> Result<SyncAdapter<Box<dyn Backend>>, butane::Error> {
    SyncAdapter::new(lane.backend())
}
fn build(job: &Job, blk: &dyn Fn(&mut dyn FnMut() -> std::pin::Pin<Box<dyn Future<Output = butane::Result<ConnectionAsync>> + Send>>) -> butane::Result<ConnectionAsync>) -> butane::Result<Conn> {
    let lane = job.lane;
    let cs = job.connstr.clone();
    let mut c = match job.stack.base {
        Base::Sync => Conn::S(lane.backend().connect(&cs)?),
        Base::Async => {
            let b = lane.backend();
            Conn::A(blk(&mut || { let (b, cs) = (b.clone(), cs.clone()); Box::pin(async move { b.connect_async(&cs).await }) })?)
        }
        Base::Adapted => {
            // a copy outlives the adapted backend it was made from
            let b = adapted(lane)?;
            let b2 = b.clone();
            drop(b);
            Conn::S(b2.connect(&cs)?)
        }
        Base::AdaptedAsync => {
            let b = adapted(lane)?;
            let c = blk(&mut || { let (b, cs) = (b.clone(), cs.clone()); Box::pin(async move { b.connect_async(&cs).await }) })?;
            Conn::A(c)
        }
        Base::ViaSync => {
            let b = lane.backend();
            Conn::A(blk(&mut || { let (b, cs) = (b.clone(), cs.clone()); Box::pin(async move { butane::db::connect_async_via_sync(&b, &cs).await }) })?)
        }
        Base::Recorder => Conn::S(Connection::new(Box::new(Recorder { inner: lane.backend().connect(&cs)?, calls: job.calls.clone(), closed: job.closed.clone() }))),
    };
    for _ in 0..job.stack.turns {
        c = match c {
            Conn::S(c) => Conn::A(if job.stack.boxed { Connection::new(Box::new(c)) } else { c }.into_async()?),
            Conn::A(c) => Conn::S(if job.stack.boxed { ConnectionAsync::new(Box::new(c)) } else { c }.into_sync()?),
        };
    }
    Ok(c)
}
/// Runs on a thread of its own; `handle` is where futures are driven.
fn drive(job: &Job, handle: &Handle, mut c: Conn, out: &mut Trace) {
    let mut m = Memo { labels: job.labels.clone(), ..Default::default() };
    let want = if job.stack.base == Base::Recorder { "rtm-recorder" } else { job.lane.backend_name() };
    let want_backend = if job.stack.base == Base::Recorder { "rtm-named" } else { job.lane.backend_name() };
    if c.backend_name() != want || c.backend().name() != want_backend {
        out.problems.push(("identity".into(), format!("reports {:?} and {:?}, is {want:?}", c.backend_name(), c.backend().name())));
    }
    if job.stack.base == Base::Recorder {
        if c.backend().row_id_column() != Some("rtm-row") {
            out.problems.push(("identity".into(), format!("row id {:?}", c.backend().row_id_column())));
        }
        for v in [true, false] {
            job.closed.store(v, Ordering::SeqCst);
            if c.is_closed() != v {
                out.problems.push(("closedness".into(), format!("closed {v}, reports {}", !v)));
            }
        }
    } else if c.is_closed() {
        out.problems.push(("closedness".into(), "a new connection reports closed".into()));
    }
    for seg in &job.history {
        match &mut c {
            Conn::S(c) => {
                if job.stack.hop {
                    std::thread::scope(|s| {
                        let m = &mut m;
                        std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || sseg(seg, m, c)).unwrap().join().unwrap()
                    });
                } else {
                    sseg(seg, &mut m, c);
                }
            }
            Conn::A(conn) => {
                if job.stack.with_sync {
                    let (seg, mut m2) = (seg.clone(), m.clone());
                    let fail = m.seen.len() % 3 == 1;
                    let kept: Arc<Mutex<Option<Memo>>> = Default::default();
                    let kept2 = kept.clone();
                    let r = handle.block_on(conn.with_sync(move |c| {
                        sseg(&seg, &mut m2, c);
                        *kept2.lock().unwrap() = Some(m2);
                        if fail { Err(butane::Error::NoSuchObject) } else { Ok(7) }
                    }));
                    match (fail, r) {
                        (true, Err(butane::Error::NoSuchObject)) | (false, Ok(7)) => {}
                        (_, r) => out.problems.push(("with-sync".into(), format!("fail {fail}: {r:?}"))),
                    }
                    let x = kept.lock().unwrap().take();
                    if let Some(x) = x {
                        m = x;
                    }
                } else if job.stack.hop {
                    // a task of its own on the shared runtime
                    let Conn::A(mut owned) = std::mem::replace(&mut c, Conn::S(Connection::new(Box::new(Nothing)))) else { unreachable!() };
                    let (seg, mut m2) = (seg.clone(), m.clone());
                    let r = rt().block_on(rt().spawn(async move {
                        aseg(&seg, &mut m2, &mut owned).await;
                        (m2, owned)
                    }));
                    let (m2, owned) = r.expect("task");
                    m = m2;
                    c = Conn::A(owned);
                } else {
                    handle.block_on(aseg(seg, &mut m, conn));
                }
            }
        }
    }
    out.seen = m.seen;
    if let Some(k) = &job.killer {
        k();
        let t = std::time::Instant::now();
        // the notice takes a moment to arrive
        while !c.is_closed() {
            std::thread::sleep(std::time::Duration::from_millis(2));
            if t.elapsed().as_secs() >= 20 {
                out.problems.push(("closedness".into(), "the session was ended 20 s ago and the connection does not report closed".into()));
                break;
            }
        }
        let r = match &mut c {
            Conn::S(c) => c.has_table("KText"),
            Conn::A(c) => handle.block_on(c.has_table("KText")),
        };
        if r.is_ok() {
            out.problems.push(("closedness".into(), format!("the session was ended and an operation gives {r:?}")));
        }
    }
    drop(c);
}
/// Stands in while a connection is elsewhere.
#[derive(Debug)]
struct Nothing;
impl ConnectionMethods for Nothing {
    fn execute(&self, _: &str) -> butane::Result<()> { unreachable!() }
    fn query<'c>(&'c self, _: &str, _: &[Column], _: Option<BoolExpr>, _: Option<i32>, _: Option<i32>, _: Option<&[Order]>) -> butane::Result<RawQueryResult<'c>> { unreachable!() }
    fn insert_returning_pk(&self, _: &str, _: &[Column], _: &Column, _: &[SqlValRef<'_>]) -> butane::Result<SqlVal> { unreachable!() }
    fn insert_only(&self, _: &str, _: &[Column], _: &[SqlValRef<'_>]) -> butane::Result<()> { unreachable!() }
    fn insert_or_replace(&self, _: &str, _: &[Column], _: &Column, _: &[SqlValRef<'_>]) -> butane::Result<()> { unreachable!() }
    fn update(&self, _: &str, _: Column, _: SqlValRef<'_>, _: &[Column], _: &[SqlValRef<'_>]) -> butane::Result<()> { unreachable!() }
    fn delete_where(&self, _: &str, _: BoolExpr) -> butane::Result<usize> { unreachable!() }
    fn has_table(&self, _: &str) -> butane::Result<bool> { unreachable!() }
}
impl BackendConnection for Nothing {
    fn transaction(&mut self) -> butane::Result<Transaction<'_>> { unreachable!() }
    fn backend(&self) -> Box<dyn Backend> { unreachable!() }
    fn backend_name(&self) -> &'static str { unreachable!() }
    fn is_closed(&self) -> bool { unreachable!() }
}
fn whole(job: &Job, handle: &Handle) -> Trace {
    let mut out = Trace::default();
    let blk = |f: &mut dyn FnMut() -> std::pin::Pin<Box<dyn Future<Output = butane::Result<ConnectionAsync>> + Send>>| handle.block_on(f());
    match build(job, &blk) {
        Ok(c) => drive(job, handle, c, &mut out),
        Err(e) => out.problems.push(("connect".into(), format!("{e:?}"))),
    }
    out
}
fn single() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().thread_stack_size(256 << 20).build().unwrap()
}
fn run_place(job: Arc<Job>) -> Trace {
    match job.stack.place {
        Place::Outside => whole(&job, rt().handle()),
        Place::Entered => {
            let _g = rt().enter();
            whole(&job, rt().handle())
        }
        Place::Blocking => rt().block_on(async { tokio::task::spawn_blocking(move || whole(&job, &Handle::current())).await }).expect("blocking task"),
        Place::BlockingSingle => {
            let one = single();
            let t = one.block_on(async { tokio::task::spawn_blocking(move || whole(&job, &Handle::current())).await }).expect("blocking task");
            drop(one);
            t
        }
        Place::InPlace => rt().block_on(rt().spawn(async move { tokio::task::block_in_place(|| whole(&job, &Handle::current())) })).expect("task"),
        Place::MadeInside => {
            let j2 = job.clone();
            let made = rt().block_on(async move {
                // connecting blocks, adapting does not
                let lane = j2.lane;
                let first = lane.backend().connect_async(&j2.connstr).await?;
                let mut c = Conn::A(first);
                for _ in 0..j2.stack.turns {
                    c = match c {
                        Conn::S(c) => Conn::A(c.into_async()?),
                        Conn::A(c) => Conn::S(c.into_sync()?),
                    };
                }
                Ok::<_, butane::Error>(c)
            });
            let mut out = Trace::default();
            match made {
                Ok(c) => drive(&job, rt().handle(), c, &mut out),
                Err(e) => out.problems.push(("connect".into(), format!("{e:?}"))),
            }
            out
        }
    }
}

const JOURNAL_TABLES: [(&str, &str); 5] = [("KText", "key"), ("KAuto", "key"), ("Uniq", "email"), ("Account", "id"), ("Team_labels_Many", "has")];
fn journal(db: &Db) {
    match db.lane {
        Lane::Turso => {}
        Lane::Pg => {
            db.raw_exec("CREATE TABLE rtm_log (id SERIAL, what TEXT); CREATE FUNCTION rtm_note() RETURNS trigger LANGUAGE plpgsql AS $$ BEGIN INSERT INTO rtm_log (what) VALUES (TG_TABLE_NAME || ' ' || TG_OP || ' ' || COALESCE(OLD::text, '') || ' ' || COALESCE(NEW::text, '')); RETURN NULL; END $$;").expect("journal");
            let tables = db.tables();
            for (t, _) in JOURNAL_TABLES {
                let t = tables.iter().find(|x| x.eq_ignore_ascii_case(t)).expect("table");
                db.raw_exec(&format!("CREATE TRIGGER rtm_{t} AFTER INSERT OR UPDATE OR DELETE ON \"{t}\" FOR EACH ROW EXECUTE FUNCTION rtm_note()")).expect("trigger");
            }
        }
        _ => {
            db.raw_exec("CREATE TABLE rtm_log (id INTEGER PRIMARY KEY, what TEXT)").expect("journal");
            for (t, k) in JOURNAL_TABLES {
                for (e, row) in [("INSERT", "NEW"), ("UPDATE", "NEW"), ("DELETE", "OLD")] {
                    db.raw_exec(&format!("CREATE TRIGGER rtm_{t}_{e} AFTER {e} ON {t} BEGIN INSERT INTO rtm_log (what) VALUES ('{t} {e} ' || {row}.\"{k}\"); END")).expect("trigger");
                }
            }
        }
    }
}
fn reset(db: &Db) -> Result<Vec<Label>, String> {
    match db.lane {
        Lane::Pg => {
            let t: Vec<String> = db.tables().into_iter().filter(|t| t != "butane_migrations").map(|t| format!("\"{t}\"")).collect();
            db.raw_exec(&format!("TRUNCATE {} RESTART IDENTITY CASCADE", t.join(", ")))?;
        }
        _ => {
            db.wipe();
            let _ = db.raw_exec("DELETE FROM sqlite_sequence");
        }
    }
    let mut a = Author { name: "author".into(), rank: 0, bio: None };
    ssave(&mut a, db.c()).map_err(|e| e.to_string())?;
    let mut labels = vec![];
    for i in 0..3 {
        let mut l = Label { code: i, text: String::new(), prio: None };
        ssave(&mut l, db.c()).map_err(|e| e.to_string())?;
        labels.push(l);
    }
    let mut t = Team { name: "team".into(), slogan: String::new(), labels: Many::new(), words: Many::new(), autos: Many::new(), uuids: Many::new() };
    ssave(&mut t, db.c()).map_err(|e| e.to_string())?;
    for id in 0..2 {
        ssave(&mut Account { id, balance: id * 10, seq: 0 }, db.c()).map_err(|e| e.to_string())?;
    }
    if db.lane != Lane::Turso {
        db.raw_exec("DELETE FROM rtm_log")?;
    }
    Ok(labels)
}
fn perform(ctx: &Ctx, db: &Db, case: &str, stack: &Stack, history: &[Seg], kill: bool) -> Option<Trace> {
    let labels = match catch(|| reset(db)) {
        Ok(Ok(l)) => l,
        e => {
            ctx.violation("setup", case, format!("{:?} {e:?}", db.lane));
            return None;
        }
    };
    let calls: Arc<Mutex<Vec<String>>> = Default::default();
    let killer: Option<Arc<dyn Fn() + Send + Sync>> = (kill && db.lane == Lane::Pg).then(|| {
        let name = db.connstr.split("dbname=").nth(1).unwrap().to_string();
        let admin = rtm::lane::pg_raw("postgres");
        Arc::new(move || {
            // everyone in this database but the raw reader, whose backend is the oldest
            rt().block_on(admin.batch_execute(&format!("SELECT pg_terminate_backend(pid) FROM pg_stat_activity WHERE datname = '{name}' AND application_name = 'rtm-victim'"))).expect("terminate");
        }) as Arc<dyn Fn() + Send + Sync>
    });
    let connstr = if killer.is_some() { format!("{} application_name=rtm-victim", db.connstr) } else { db.connstr.clone() };
    let job = Arc::new(Job { lane: db.lane, connstr, stack: stack.clone(), history: history.to_vec(), labels, calls: calls.clone(), closed: Default::default(), killer });
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let r = catch(|| run_place(job));
            let _ = tx.send(r);
        })
        .unwrap();
    let mut trace = match rx.recv_timeout(std::time::Duration::from_secs(100)) {
        Ok(Ok(t)) => t,
        Ok(Err(p)) => {
            ctx.violation("panic", case, format!("{:?} {stack:?}: {p}\n  {history:?}", db.lane));
            return None;
        }
        Err(_) => {
            ctx.violation("hang", case, format!("{:?} {stack:?}: not finished after 100 s\n  {history:?}", db.lane));
            std::process::exit(ctx.finish_ref());
        }
    };
    ctx.eval(1);
    for (s, m) in std::mem::take(&mut trace.problems) {
        ctx.violation(&s, case, format!("{:?} {stack:?}: {m}", db.lane));
    }
    if db.lane != Lane::Turso {
        trace.journal = db.raw_rows("SELECT what FROM rtm_log ORDER BY id").expect("journal").into_iter().map(|r| r[0].show()).collect();
    }
    trace.dump = db.dump();
    trace.dump.remove("rtm_log");
    trace.dump.remove("butane_migrations");
    trace.dump.remove("sqlite_sequence");
    if stack.base == Base::Recorder {
        trace.calls = Some(std::mem::take(&mut *calls.lock().unwrap()));
    }
    Some(trace)
}
fn gen_stack(r: &mut Rng, lane: Lane) -> Stack {
    let place = *pick(r, &PLACES);
    let base = match lane {
        _ if place == Place::MadeInside => Base::Async,
        Lane::Turso => *pick(r, &[Base::Async, Base::Adapted, Base::AdaptedAsync]),
        // a synchronous connection to the server is an adapted one already
        _ => *pick(r, &[Base::Sync, Base::Async, Base::Adapted, Base::AdaptedAsync, Base::ViaSync, Base::Recorder]),
    };
    let turns = match below(r, 8) {
        0 => 0,
        1..=3 => 1,
        4 | 5 => 2,
        6 => 3,
        _ => 4 + below(r, 5),
    };
    let async_base = !matches!(base, Base::Sync | Base::Adapted | Base::Recorder);
    let asyn = async_base == (turns % 2 == 0);
    Stack { base, turns, boxed: chance(r, 0.3), place, hop: chance(r, 0.4), with_sync: asyn && chance(r, 0.35) }
}
fn coarse(s: &str) -> String {
    if s.contains("ERR") { "ERR".into() } else { s.to_string() }
}
fn case(ctx: &Ctx, dbs: &[Db], r: &mut Rng, case: &str) {
    let history = gen_history(r);
    let mut across: Option<(Lane, Trace)> = None;
    for db in dbs {
        let lane = db.lane;
        let turso = lane == Lane::Turso;
        if turso && !chance(r, 0.2) {
            continue;
        }
        let plain = Stack { base: if turso { Base::Async } else { Base::Sync }, turns: 0, boxed: false, place: Place::Outside, hop: false, with_sync: false };
        let Some(reference) = perform(ctx, db, case, &plain, &history, false) else { continue };
        let n = if turso { 1 } else { 3 };
        let mut recorded: Option<Vec<String>> = None;
        for i in 0..n {
            let mut stack = gen_stack(r, lane);
            if i == 1 {
                stack.base = Base::Recorder;
                if stack.place == Place::MadeInside {
                    stack.place = Place::Outside;
                }
                stack.with_sync &= stack.turns % 2 == 1;
                let direct = Stack { base: Base::Recorder, ..plain.clone() };
                if let Some(t) = perform(ctx, db, case, &direct, &history, false) {
                    recorded = t.calls;
                }
            }
            let kill = chance(r, 0.3) && stack.base != Base::Recorder;
            let Some(t) = perform(ctx, db, case, &stack, &history, kill) else { continue };
            let say = |m: String| format!("{lane:?} {stack:?}\n  {m}\n  history {history:?}");
            if t.seen != reference.seen {
                let i = t.seen.iter().zip(&reference.seen).position(|(a, b)| a != b).unwrap_or(t.seen.len().min(reference.seen.len()));
                ctx.violation("results", case, say(format!("result {i}: {:?}\n  natively {:?}", t.seen.get(i), reference.seen.get(i))));
            }
            if t.dump != reference.dump {
                let d: Vec<_> = t.dump.iter().filter(|(k, v)| reference.dump.get(*k) != Some(v)).collect();
                ctx.violation("contents", case, say(format!("tables {d:?}\n  natively {:?}", d.iter().map(|(k, _)| reference.dump.get(*k)).collect::<Vec<_>>())));
            }
            if t.journal != reference.journal {
                ctx.violation("writes", case, say(format!("writes {:?}\n  natively {:?}", t.journal, reference.journal)));
            }
            if i == 1 && recorded.is_some() && t.calls != recorded {
                let (a, b) = (t.calls.clone().unwrap_or_default(), recorded.clone().unwrap());
                let i = a.iter().zip(&b).position(|(a, b)| a != b).unwrap_or(a.len().min(b.len()));
                ctx.violation("calls", case, say(format!("call {i}: {:?}\n  made {:?}", a.get(i), b.get(i))));
            }
            ctx.count("results compared", t.seen.len() as u64);
            ctx.count("writes compared", t.journal.len() as u64);
            ctx.count("calls recorded", t.calls.map_or(0, |c| c.len()) as u64);
            ctx.count(&format!("{:?} {}", stack.base, lane.name()), 1);
            ctx.count(&format!("{:?}", stack.place), 1);
            ctx.max("most turns", stack.turns as u64);
            ctx.nontrivial(&(lane.name(), &stack, &t.seen));
        }
        ctx.count("errors agreed on", reference.seen.iter().filter(|s| s.contains("ERR")).count() as u64);
        // the backends agree with each other while nothing is refused
        match &across {
            None => across = Some((lane, reference)),
            Some((l0, t0)) => {
                // (a statement which is refused ends the whole transaction on PostgreSQL)
                let mut failing_tx = false;
                let mut i = 0;
                for seg in &history {
                    let n = match seg {
                        Seg::Plain(o) => o.len(),
                        Seg::Tx(o, _) => o.len() + 1,
                    };
                    if matches!(seg, Seg::Tx(..)) {
                        failing_tx |= reference.seen.iter().skip(i).take(n).chain(t0.seen.iter().skip(i).take(n)).any(|s| s.contains("ERR"));
                    }
                    i += n;
                }
                // a number which SQLite gives out again after its row was deleted names another row
                let reused = history.iter().any(|s| match s { Seg::Plain(o) | Seg::Tx(o, _) => o.iter().any(|o| matches!(o, Op::AutoTwice(_))) });
                if !failing_tx && !reused {
                    let a: Vec<String> = reference.seen.iter().map(|s| coarse(s)).collect();
                    let b: Vec<String> = t0.seen.iter().map(|s| coarse(s)).collect();
                    if a != b {
                        let i = a.iter().zip(&b).position(|(a, b)| a != b).unwrap_or(0);
                        ctx.violation("backends", case, format!("{lane:?}: result {i}: {:?}\n  {l0:?}: {:?}\n  history {history:?}", reference.seen.get(i), t0.seen.get(i)));
                    }
                    ctx.count("histories compared across backends", 1);
                }
            }
        }
    }
    ctx.sample(format!("{history:?}").chars().take(300).collect::<String>());
}
/// After a panic inside `with_sync` the connection is poisoned, as documented: it fails, and does nothing else.
fn poisoned(ctx: &Ctx, db: &Db, case: &str) {
    let lane = db.lane;
    let (tx, rx) = std::sync::mpsc::channel();
    let cs = db.connstr.clone();
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let _ = tx.send(catch(|| {
                rt().block_on(async {
                    let mut c = lane.backend().connect_async(&cs).await.expect("connect");
                    let r: butane::Result<()> = c.with_sync(|_| panic!("the harness panics on purpose")).await;
                    let mut out = vec![];
                    if r.is_ok() {
                        out.push("with_sync succeeded".to_string());
                    }
                    if !c.is_closed() {
                        out.push("does not report closed".into());
                    }
                    let _ = c.backend_name();
                    if let Ok(x) = c.has_table("KText").await {
                        out.push(format!("has_table {x}"));
                    }
                    if aload(KText::query(), &c).await.is_ok() {
                        out.push("load".into());
                    }
                    if c.transaction().await.is_ok() {
                        out.push("transaction".into());
                    }
                    if c.with_sync(|c| c.execute("SELECT 1")).await.is_ok() {
                        out.push("with_sync again".into());
                    }
                    out
                })
            }));
        })
        .unwrap();
    match rx.recv_timeout(std::time::Duration::from_secs(100)) {
        Ok(Ok(v)) if v.is_empty() => ctx.count("poisoned connections", 1),
        Ok(r) => ctx.violation("poisoned", case, format!("{lane:?}: after a panic inside with_sync: {r:?}")),
        Err(_) => {
            ctx.violation("hang", case, format!("{lane:?}: poisoned connection"));
            std::process::exit(ctx.finish_ref());
        }
    }
    drain_panics();
}

fn main() {
    // threads which the adapters make need room for Turso
    unsafe { std::env::set_var("RUST_MIN_STACK", (256usize << 20).to_string()) };
    let ctx = Arc::new(Ctx::new("C16", 35, 900));
    ctx.rule("a history, distinct by the stack of adapters, where it was used and the results it gave");
    ctx.assume("the runtime on which a connection was made keeps running while the connection is used");
    ctx.watchdog(240, None);
    ctx.parallel(&[0usize, 1, 2, 3, 4, 5], |k| {
        let mut dbs = vec![Db::new(&ctx, Lane::Sqlite), Db::new(&ctx, Lane::Pg)];
        if k == 0 {
            dbs.push(Db::new(&ctx, Lane::Turso));
        }
        for db in &dbs {
            journal(db);
            let name = format!("poisoned/{k}/{}", db.lane.name());
            if ctx.want(&name) {
                poisoned(&ctx, db, &name);
            }
        }
        ctx.cases(&format!("h{k}"), 1.0, 4, 100_000, |c, r| case(&ctx, &dbs, r, c));
    });
    ctx.finish();
}
