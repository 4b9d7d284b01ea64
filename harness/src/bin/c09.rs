//! C09: connections and pools isolate their users.
use butane::db::{BackendConnectionAsync, Connection, ConnectionAsync, ConnectionManager};
use butane::{AutoPk, DataResult};
use futures_util::FutureExt;
use rtm::models::*;
use rtm::ops::*;
use rtm::prelude::*;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Duration;

const ACCOUNTS: i64 = 5;
const START: i64 = 1000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Commit,
    Rollback,
    Drop,
    Fail,
    Panic,
    Read,
    ReadInTx,
    Plain,
    /// abandon the operation after so many polls (asynchronous use only)
    Cancel(usize),
}
#[derive(Clone, Debug)]
struct Plan {
    kind: Kind,
    from: i64,
    to: i64,
    amt: i64,
    rmw: bool,
    tag: String,
    pause: u64,
}
fn gen_plan(r: &mut Rng, tag: String, cancels: bool) -> Plan {
    let kind = match below(r, 13) {
        0..=3 => Kind::Commit,
        4 => Kind::Rollback,
        5 => Kind::Drop,
        6 => Kind::Fail,
        7 => Kind::Panic,
        8 => Kind::Read,
        9 => Kind::ReadInTx,
        10 => Kind::Plain,
        _ if cancels => {
            let most = if chance(r, 0.5) { 8 } else { 40 };
            Kind::Cancel(1 + below(r, most))
        }
        _ => Kind::Commit,
    };
    let from = below(r, ACCOUNTS as usize) as i64;
    let to = (from + 1 + below(r, ACCOUNTS as usize - 1) as i64) % ACCOUNTS;
    Plan { kind, from, to, amt: 1 + below(r, 100) as i64, rmw: chance(r, 0.3), tag, pause: if chance(r, 0.3) { below(r, 4) as u64 } else { 0 } }
}
fn transient(e: &butane::Error) -> bool {
    let s = format!("{e:?} {e}").to_lowercase();
    s.contains("locked") || s.contains("busy") || s.contains("conflict") || s.contains("deadlock")
}
struct World {
    ctx: Arc<Ctx>,
    lane: Lane,
    mode: &'static str,
    bad: Mutex<Vec<(String, String)>>,
    /// tag -> is it certain?
    acks: Mutex<BTreeMap<String, bool>>,
    plain: Mutex<BTreeMap<String, bool>>,
    sout: Mutex<Option<Connection>>,
    aout: tokio::sync::Mutex<Option<ConnectionAsync>>,
    probes: AtomicU64,
    busy: AtomicU64,
    ends: Mutex<Vec<(String, Kind)>>,
}
impl World {
    fn bad(&self, sig: &str, msg: String) {
        self.bad.lock().unwrap().push((sig.into(), format!("{:?} {}: {msg}", self.lane, self.mode)));
    }
    fn ack(&self, p: &Plan, sure: bool) {
        let mut a = self.acks.lock().unwrap();
        let e = a.entry(text_of(p)).or_insert(sure);
        *e |= sure;
    }
    fn total(&self, what: &str, acc: &[Account]) {
        self.ctx.eval(1);
        let sum: i64 = acc.iter().map(|a| a.balance).sum();
        if acc.len() != ACCOUNTS as usize || sum != ACCOUNTS * START {
            self.bad("sum-changed", format!("{what}: sum {sum} of {acc:?}"));
        }
    }
    fn failed(&self, what: &str, e: &butane::Error) -> bool {
        if transient(e) {
            self.busy.fetch_add(1, Ordering::Relaxed);
            true
        } else {
            self.bad(what, format!("{e:?}"));
            false
        }
    }
}
fn text_of(p: &Plan) -> String {
    format!("{}:{}>{}:{}", p.tag, p.from, p.to, p.amt)
}
static NPROBE: AtomicU64 = AtomicU64::new(0);

macro_rules! user {
    ($work:ident, $probe:ident, $outside:ident, ($($asy:tt)*), $conn:path, $meth:path, ($($aw:tt)*), $save:ident, $del:ident, $get:ident, $try:ident, $load:ident, |$w:ident| $out:expr, $sleep:expr) => {
        $($asy)* fn $outside($w: &World, key: &str) -> Option<bool> {
            let mut g = $out;
            let c = g.as_mut().unwrap();
            for i in 0..200u64 {
                match $try::<KText>(&*c, key.to_string()) $($aw)* {
                    Ok(t) => return Some(t.is_some()),
                    Err(e) if transient(&e) => { $sleep(1 + i % 5) $($aw)*; }
                    Err(e) => { $w.bad("outside", format!("{e:?}")); return None; }
                }
            }
            None
        }
        /// A connection just obtained must carry nothing of its previous user.
        $($asy)* fn $probe(w: &World, c: &mut impl $conn, prev: &str) -> bool {
            if w.lane.is_sqlite() {
                let _ = c.execute("PRAGMA busy_timeout=30") $($aw)*;
            }
            let mut ok = false;
            for i in 0..200u64 {
                match c.transaction() $($aw)* {
                    Ok(t) => match t.rollback() $($aw)* {
                        Ok(()) => { ok = true; break; }
                        Err(e) => if !w.failed("probe-rollback", &e) { return false; }
                    },
                    Err(e) => if !w.failed("cannot-start-transaction", &e) {
                        return false;
                    }
                }
                $sleep(1 + i % 5) $($aw)*;
            }
            if !ok { return false; }
            let key = format!("probe-{}", NPROBE.fetch_add(1, Ordering::Relaxed));
            for i in 0..200u64 {
                let mut t = KText { key: key.clone(), v: "probe".into(), n: None };
                match $save(&mut t, &*c) $($aw)* {
                    Ok(()) => {
                        w.ctx.eval(1);
                        w.probes.fetch_add(1, Ordering::Relaxed);
                        if $outside(w, &key) $($aw)* == Some(false) {
                            w.bad("not-visible", format!("saved {key} outside any transaction, not visible to others (previous user {prev})"));
                            return false;
                        }
                        return true;
                    }
                    Err(e) => if !w.failed("probe-save", &e) { return false; }
                }
                $sleep(1 + i % 5) $($aw)*;
            }
            false
        }
        /// What a user does with the connection. Errors are those of the database being locked.
        $($asy)* fn $work(w: &World, c: &mut impl $conn, p: &Plan) -> butane::Result<()> {
            match p.kind {
                Kind::Read => {
                    w.total("outside a transaction", &$load(Account::query(), &*c) $($aw)* ?);
                    for e in $load(Event::query(), &*c) $($aw)* ? {
                        if e.tag.starts_with("dirty") { w.bad("dirty-read", format!("saw {e:?}")); }
                    }
                    return Ok(());
                }
                Kind::Plain => {
                    let mut t = KText { key: format!("plain-{}", p.tag), v: p.tag.clone(), n: None };
                    $save(&mut t, &*c) $($aw)* ?;
                    w.plain.lock().unwrap().insert(t.key, true);
                    return Ok(());
                }
                _ => {}
            }
            let t = c.transaction() $($aw)* ?;
            if p.kind == Kind::ReadInTx {
                w.total("in a transaction", &$load(Account::query(), &t) $($aw)* ?);
                $sleep(p.pause) $($aw)*;
                w.total("in a transaction, again", &$load(Account::query(), &t) $($aw)* ?);
                return Ok(());
            }
            let mut dirty = Event { id: AutoPk::uninitialized(), worker: 0, seq: 0, tag: format!("dirty {}", p.tag) };
            $save(&mut dirty, &t) $($aw)* ?;
            if p.rmw && w.lane.is_sqlite() {
                // SQLite transactions are serializable
                let mut a: Account = $get(&t, p.from) $($aw)* ?;
                a.balance -= p.amt;
                $save(&mut a, &t) $($aw)* ?;
                let mut a: Account = $get(&t, p.to) $($aw)* ?;
                a.balance += p.amt;
                $sleep(p.pause) $($aw)*;
                $save(&mut a, &t) $($aw)* ?;
            } else {
                use $meth as Meth;
                Meth::execute(&t, &format!("UPDATE \"Account\" SET balance = balance - {} WHERE id = {}", p.amt, p.from)) $($aw)* ?;
                $sleep(p.pause) $($aw)*;
                Meth::execute(&t, &format!("UPDATE \"Account\" SET balance = balance + {} WHERE id = {}", p.amt, p.to)) $($aw)* ?;
            }
            let mut ev = Event { id: AutoPk::uninitialized(), worker: 1, seq: p.amt, tag: text_of(p) };
            $save(&mut ev, &t) $($aw)* ?;
            match p.kind {
                Kind::Rollback => t.rollback() $($aw)*,
                Kind::Drop => { drop(t); Ok(()) }
                Kind::Panic => panic!("user panics"),
                Kind::Fail => {
                    let mut twice = Uniq { id: AutoPk::uninitialized(), email: "taken".into(), code: None, owner: None, note: String::new() };
                    match $save(&mut twice, &t) $($aw)* {
                        Ok(()) => w.bad("accepted-duplicate", "unique".into()),
                        Err(e) if transient(&e) => return Err(e),
                        Err(_) => {}
                    }
                    Ok(())
                }
                _ => {
                    $del(&dirty, &t) $($aw)* ?;
                    if matches!(p.kind, Kind::Cancel(_)) { w.ack(p, false); }
                    t.commit() $($aw)* ?;
                    w.ack(p, true);
                    Ok(())
                }
            }
        }
    };
}
fn nap(ms: u64) {
    if ms > 0 {
        std::thread::sleep(Duration::from_millis(ms));
    }
}
async fn anap(ms: u64) {
    if ms > 0 {
        tokio::time::sleep(Duration::from_millis(ms)).await;
    } else {
        tokio::task::yield_now().await;
    }
}
mod s {
    use super::*;
    use butane::db::BackendConnection;
    user!(swork, sprobe, soutside, (), BackendConnection, butane::db::ConnectionMethods, (), ssave, sdel, sget, stry, sload, |w| w.sout.lock().unwrap(), nap);
    pub(crate) fn work(w: &World, c: &mut impl BackendConnection, p: &Plan) -> butane::Result<()> {
        swork(w, c, p)
    }
    pub(crate) fn probe(w: &World, c: &mut impl BackendConnection, prev: &str) -> bool {
        sprobe(w, c, prev)
    }
}
mod a {
    use super::*;
    user!(awork, aprobe, aoutside, (pub(crate) async), BackendConnectionAsync, butane::db::ConnectionMethodsAsync, (.await), asave, adel, aget, atry, aload, |w| w.aout.lock().await, anap);
}

/// Drop `f` after it has been polled `polls` times.
async fn cancel<F: Future>(f: F, polls: usize) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut n = 0;
    std::future::poll_fn(move |cx| {
        if n >= polls {
            return std::task::Poll::Ready(None);
        }
        n += 1;
        f.as_mut().poll(cx).map(Some)
    })
    .await
}
fn judge(w: &World, p: &Plan, res: std::thread::Result<butane::Result<()>>) {
    w.ends.lock().unwrap().push((p.tag.split('.').next().unwrap().to_string(), p.kind));
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) => {
            w.failed("operation", &e);
        }
        Err(_) if p.kind == Kind::Panic => {}
        Err(_) => w.bad("panic", format!("{p:?}: {:?}", rtm::ctx::drain_panics().last())),
    }
}
fn sync_user(w: &World, c: &mut Connection, p: &Plan) {
    let res = std::panic::catch_unwind(AssertUnwindSafe(|| s::work(w, c, p)));
    judge(w, p, res);
}
/// Returns whether the connection may have been taken away by a failed `with_sync`.
async fn async_user(w: &Arc<World>, c: &mut ConnectionAsync, p: &Plan, via_sync: bool) -> bool {
    let work = async {
        if via_sync {
            let (w2, p2) = (w.clone(), p.clone());
            c.with_sync(move |c| s::work(&w2, c, &p2)).await
        } else {
            a::awork(w, c, p).await
        }
    };
    let res = match p.kind {
        Kind::Cancel(n) => match AssertUnwindSafe(cancel(work, n)).catch_unwind().await {
            Ok(None) => {
                w.ctx.count("operations cancelled midway", 1);
                if via_sync {
                    // goes on in its thread
                    w.ack(p, false);
                }
                return via_sync;
            }
            Ok(Some(r)) => Ok(r),
            Err(e) => Err(e),
        },
        _ => AssertUnwindSafe(work).catch_unwind().await,
    };
    if via_sync && p.kind == Kind::Panic {
        // the panic happened on another thread and arrives as an error
        match res {
            Ok(Err(_)) => return true,
            r => {
                judge(w, p, r);
                return true;
            }
        }
    }
    judge(w, p, res);
    false
}

const MODES: [&str; 7] = ["threads", "r2d2-threads", "tasks", "deadpool-tasks", "deadpool-with-sync", "r2d2-handover", "deadpool-handover"];

fn round(ctx: &Arc<Ctx>, db: &mut Db, r: &mut Rng, mode: &'static str, case: &str) -> bool {
    let lane = db.lane;
    let sync_mode = matches!(mode, "threads" | "r2d2-threads" | "r2d2-handover");
    if sync_mode && lane == Lane::Turso || lane == Lane::Turso && mode == "deadpool-with-sync" {
        return false; // no synchronous Turso connections; its engine does not survive threads
    }
    if lane == Lane::SqliteAdapted && mode.starts_with("r2d2") {
        return false; // same as the plain one
    }
    db.wipe();
    for id in 0..ACCOUNTS {
        ssave(&mut Account { id, balance: START, seq: 0 }, db.c()).expect("setup");
    }
    ssave(&mut Uniq { id: AutoPk::uninitialized(), email: "taken".into(), code: None, owner: None, note: String::new() }, db.c()).expect("setup");
    let w = Arc::new(World {
        ctx: ctx.clone(),
        lane,
        mode,
        bad: Mutex::default(),
        acks: Mutex::default(),
        plain: Mutex::default(),
        sout: Mutex::new(if sync_mode || lane != Lane::Turso && mode.starts_with("deadpool") { Some(db.connect()) } else { None }),
        aout: tokio::sync::Mutex::new(None),
        probes: AtomicU64::new(0),
        busy: AtomicU64::new(0),
        ends: Mutex::default(),
    });
    let workers = if mode.ends_with("handover") { 1 } else { 2 + below(r, 4) };
    let n = if mode.ends_with("handover") { 14 } else { 8 };
    let size = if mode.ends_with("handover") { 1 } else { 1 + below(r, 3) };
    let plans: Vec<Vec<Plan>> = (0..workers).map(|i| (0..n).map(|j| gen_plan(r, format!("{i}.{j}"), !sync_mode)).collect()).collect();
    let kill_at = if lane == Lane::Pg && mode.ends_with("handover") { Some(below(r, n)) } else { None };
    let spec = {
        let mut spec = db.spec();
        if lane == Lane::Pg {
            spec.conn_str += " application_name=pooled";
        }
        spec
    };
    match mode {
        "threads" => std::thread::scope(|sc| {
            for ps in &plans {
                let (w, connstr) = (&w, db.connstr.clone());
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let mut c = connect(lane, &connstr).expect("connect");
                    for p in ps {
                        if !s::probe(w, &mut c, "itself") {
                            break;
                        }
                        sync_user(w, &mut c, p);
                    }
                }).unwrap();
            }
        }),
        "r2d2-threads" | "r2d2-handover" => {
            let pool = r2d2::Pool::builder().max_size(size as u32).min_idle(Some(0)).build(ConnectionManager::new(spec.clone())).expect("pool");
            std::thread::scope(|sc| {
                for ps in &plans {
                    let (w, pool) = (&w, &pool);
                    sc.spawn(move || {
                        let mut prev = String::from("nobody");
                        for (i, p) in ps.iter().enumerate() {
                            if kill_at == Some(i) {
                                kill_sessions();
                                w.ctx.count("sessions of pooled connections ended by the server", 1);
                                // the pool gets some time to notice
                                let mut dead = 0;
                                while !pool.get().is_ok_and(|c| butane::db::ConnectionMethods::execute(&*c, "SELECT 1").is_ok()) {
                                    dead += 1;
                                    if dead == 100 {
                                        return w.bad("dead-connection", "handed out again and again".into());
                                    }
                                    nap(100);
                                }
                            }
                            let mut c = match pool.get() {
                                Ok(c) => c,
                                Err(e) => return w.bad("pool-get", format!("{e:?}")),
                            };
                            if !s::probe(w, &mut *c, &prev) {
                                return;
                            }
                            prev = format!("{p:?}");
                            let res = std::panic::catch_unwind(AssertUnwindSafe(|| {
                                let mut c = c;
                                s::work(w, &mut *c, p)
                            }));
                            judge(w, p, res);
                        }
                    });
                }
            });
        }
        "tasks" => rt().block_on(async {
            *w.aout.lock().await = Some(connect_async(lane, &db.connstr).await.expect("connect"));
            let futs = plans.iter().map(|ps| {
                let (w, connstr) = (&w, db.connstr.clone());
                async move {
                    let mut c = connect_async(lane, &connstr).await.expect("connect");
                    for p in ps {
                        if !a::aprobe(w, &mut c, "itself").await {
                            break;
                        }
                        async_user(w, &mut c, p, false).await;
                    }
                }
            });
            futures_util::future::join_all(futs).await;
        }),
        _ => rt().block_on(async {
            *w.aout.lock().await = Some(connect_async(lane, &db.connstr).await.expect("connect"));
            let pool = deadpool::managed::Pool::<ConnectionManager>::builder(ConnectionManager::new(spec.clone())).max_size(size).build().expect("pool");
            let futs = plans.iter().map(|ps| {
                let (w, pool) = (&w, pool.clone());
                async move {
                    let mut prev = String::from("nobody");
                    for (i, p) in ps.iter().enumerate() {
                        if kill_at == Some(i) {
                            tokio::task::spawn_blocking(kill_sessions).await.unwrap();
                            w.ctx.count("sessions of pooled connections ended by the server", 1);
                            let mut dead = 0;
                            loop {
                                if let Ok(c) = pool.get().await {
                                    if butane::db::ConnectionMethodsAsync::execute(&*c, "SELECT 1").await.is_ok() {
                                        break;
                                    }
                                }
                                dead += 1;
                                if dead == 100 {
                                    return w.bad("dead-connection", "handed out again and again".into());
                                }
                                anap(100).await;
                            }
                        }
                        let mut c = match pool.get().await {
                            Ok(c) => c,
                            Err(e) => return w.bad("pool-get", format!("{e:?}")),
                        };
                        if !a::aprobe(w, &mut *c, &prev).await {
                            return;
                        }
                        let via_sync = w.mode == "deadpool-with-sync" && i % 2 == 0 || w.mode == "deadpool-handover" && w.lane != Lane::Turso && i % 5 == 0;
                        prev = format!("{p:?} with_sync={via_sync}");
                        let lost = async_user(w, &mut c, p, via_sync).await;
                        if via_sync && !lost && c.is_closed() {
                            w.bad("connection-lost", format!("after {prev}"));
                        }
                    }
                }
            });
            futures_util::future::join_all(futs).await;
        }),
    }
    settle(&w, db);
    let bad: Vec<_> = std::mem::take(&mut *w.bad.lock().unwrap());
    ctx.count(&format!("handovers probed {mode}"), w.probes.load(Ordering::Relaxed));
    ctx.count(&format!("lock conflicts {}", lane.name()), w.busy.load(Ordering::Relaxed));
    let ends = w.ends.lock().unwrap().clone();
    for (_, k) in &ends {
        let k = format!("{k:?}");
        ctx.count(&format!("users ended by {}", k.split('(').next().unwrap()), 1);
    }
    let switches = ends.windows(2).filter(|x| x[0].0 != x[1].0).count();
    if switches > 0 || mode.ends_with("handover") {
        ctx.nontrivial(&(lane.name(), mode, &ends));
    }
    ctx.max(&format!("most worker switches in a round {mode}"), switches as u64);
    ctx.sample(format!("{lane:?} {mode} workers {workers} pool {size}: {:?}", ends.iter().take(10).collect::<Vec<_>>()));
    for (sig, msg) in bad {
        ctx.violation(&sig, case, msg);
    }
    true
}
static DBNAME: Mutex<String> = Mutex::new(String::new());
/// The server ends every session of the pool.
fn kill_sessions() {
    let connstr = DBNAME.lock().unwrap().clone();
    let conn = butane::db::connect(&butane::db::ConnectionSpec::new("pg", &connstr)).expect("connect");
    conn.execute("SELECT pg_terminate_backend(pid) FROM pg_stat_activity WHERE datname = current_database() AND application_name = 'pooled'").expect("kill");
}

/// What is in the database once everybody has gone.
fn settle(w: &World, db: &Db) {
    w.sout.lock().unwrap().take();
    rt().block_on(async { w.aout.lock().await.take() });
    let ctx = &w.ctx;
    let load = || -> butane::Result<(Vec<Account>, Vec<Event>, Vec<KText>)> { Ok((sload(Account::query(), db.c())?, sload(Event::query(), db.c())?, sload(KText::query(), db.c())?)) };
    let mut got = load();
    for i in 0..200 {
        if !matches!(&got, Err(e) if transient(e)) {
            break;
        }
        nap(i);
        got = load();
    }
    // work abandoned in with_sync may still be going on: wait for it to be over
    if w.mode.contains("with-sync") || w.mode.contains("handover") {
        for _ in 0..20 {
            nap(20);
            let again = load();
            if format!("{again:?}") == format!("{got:?}") && matches!(again, Ok(_)) {
                break;
            }
            got = again;
        }
    }
    let (acc, evs, texts) = match got {
        Ok(x) => x,
        Err(e) => return w.bad("settle", format!("{e:?}")),
    };
    w.total("at the end", &acc);
    let acks = w.acks.lock().unwrap();
    let mut bal: BTreeMap<i64, i64> = (0..ACCOUNTS).map(|i| (i, START)).collect();
    let mut seen = BTreeSet::new();
    for e in &evs {
        ctx.eval(1);
        if !acks.contains_key(&e.tag) {
            w.bad("uncommitted-kept", format!("{e:?} belongs to no committed transaction"));
        }
        if !seen.insert(e.tag.clone()) {
            w.bad("committed-twice", format!("{e:?}"));
        }
        if let Some((ft, amt)) = e.tag.split_once(':').and_then(|x| x.1.split_once(':')) {
            let (f, t) = ft.split_once('>').unwrap();
            *bal.get_mut(&f.parse().unwrap()).unwrap() -= amt.parse::<i64>().unwrap();
            *bal.get_mut(&t.parse().unwrap()).unwrap() += amt.parse::<i64>().unwrap();
        }
    }
    for (tag, sure) in acks.iter() {
        if *sure && !seen.contains(tag) {
            w.bad("committed-lost", format!("{tag}"));
        }
        if !*sure && seen.contains(tag) {
            ctx.count("cancelled commits that took place", 1);
        }
    }
    let have: BTreeMap<i64, i64> = acc.iter().map(|a| (a.id, a.balance)).collect();
    if have != bal {
        w.bad("not-conserved", format!("balances {have:?}, transfers kept make {bal:?}"));
    }
    let keys: BTreeSet<&str> = texts.iter().map(|t| t.key.as_str()).collect();
    for k in w.plain.lock().unwrap().keys() {
        ctx.eval(1);
        if !keys.contains(k.as_str()) {
            w.bad("committed-lost", format!("plain save {k}"));
        }
    }
    ctx.count("transfers committed", acks.values().filter(|x| **x).count() as u64);
}

fn main() {
    let ctx = Arc::new(Ctx::new("C09", 40, 1200));
    ctx.rule("a round of users in which work of different users alternates, or one connection passes through several users; distinct by backend, way of connecting and order of users with how they ended");
    ctx.assume("operations refused because the database was locked, or deadlocks broken by the server, are given up, not violations");
    ctx.assume("state set up by raw SQL (BEGIN, SET, PRAGMA) on a pooled connection is the user's own affair");
    ctx.watchdog(120, Some("hang"));
    ctx.parallel(&Lane::ALL, |lane| {
        let mut db = Db::new(&ctx, lane);
        if lane == Lane::Pg {
            *DBNAME.lock().unwrap() = db.connstr.clone();
        }
        ctx.cases(lane.name(), 1.0, MODES.len(), 100_000, |case, r| {
            let idx: usize = case.rsplit('/').next().unwrap().parse().unwrap();
            let mode = MODES[idx % MODES.len()];
            let engine = rtm::ctx::engine_panics();
            if lane.is_sqlite() && idx / MODES.len() % 4 == 3 {
                db = Db::new_without_wal(&ctx, lane);
            }
            let clean = catch(|| round(&ctx, &mut db, r, mode, case));
            if lane == Lane::Turso && rtm::ctx::engine_panics() != engine {
                ctx.count("rounds given up because Turso panicked", 1);
                db = Db::new(&ctx, lane);
                return;
            }
            match clean {
                Ok(false) => {}
                Ok(true) => ctx.count(&format!("rounds {} {mode}", lane.name()), 1),
                Err(e) => {
                    ctx.violation("panic", case, format!("{lane:?} {mode}: {e}"));
                    db = Db::new(&ctx, lane);
                }
            }
        });
    });
    ctx.finish();
}
