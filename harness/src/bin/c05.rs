//! C05: automatic keys are fresh, unique and reported to the object.
use butane::db::{BackendConnectionAsync, ConnectionAsync, ConnectionManager, ConnectionMethodsAsync};
use butane::{AutoPk, DataObject, DataResult, PrimaryKeyType, SqlVal, ToSql};
use rtm::ops::*;
use rtm::models::*;
use rtm::prelude::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// What a worker saw: (table, key, worker, seq, kept)
#[derive(Clone, Debug)]
struct Ev {
    table: &'static str,
    key: i64,
    who: String,
    kept: bool,
}
trait Auto: DataObject + Clone + std::fmt::Debug + Send + 'static {
    fn make(who: &str) -> Self;
    fn num(&self) -> Option<i64>;
    fn who(&self) -> Option<String>;
}
impl Auto for KAuto {
    fn make(who: &str) -> Self {
        KAuto { v: who.into(), n: None, key: AutoPk::uninitialized() }
    }
    fn num(&self) -> Option<i64> {
        *self.key
    }
    fn who(&self) -> Option<String> {
        Some(self.v.clone())
    }
}
impl Auto for KAuto32 {
    fn make(who: &str) -> Self {
        KAuto32 { v: who.into(), n: None, id: AutoPk::uninitialized() }
    }
    fn num(&self) -> Option<i64> {
        self.id.map(|x| x as i64)
    }
    fn who(&self) -> Option<String> {
        Some(self.v.clone())
    }
}
impl Auto for KOnly {
    fn make(_: &str) -> Self {
        KOnly { id: AutoPk::uninitialized() }
    }
    fn num(&self) -> Option<i64> {
        *self.id
    }
    fn who(&self) -> Option<String> {
        None
    }
}
impl Auto for MixedAuto {
    fn make(who: &str) -> Self {
        MixedAuto { autoId: AutoPk::uninitialized(), Text: who.into(), Num: 1 }
    }
    fn num(&self) -> Option<i64> {
        *self.autoId
    }
    fn who(&self) -> Option<String> {
        Some(self.Text.clone())
    }
}
fn transient(e: &butane::Error) -> bool {
    let s = format!("{e:?} {e}").to_lowercase();
    s.contains("locked") || s.contains("busy") || s.contains("conflict")
}
struct Log<'a> {
    ctx: &'a Ctx,
    lane: Lane,
    ev: Mutex<Vec<Ev>>,
    busy: AtomicU64,
    mode: &'static str,
    out: &'a Mutex<Option<Vec<(String, String)>>>,
    stuck: std::sync::atomic::AtomicBool,
}
impl Log<'_> {
    fn bad(&self, sig: &str, msg: String) {
        self.out.lock().unwrap().get_or_insert_with(Vec::new).push((sig.into(), format!("{:?} {}: {msg}", self.lane, self.mode)));
    }
    fn kept<M: Auto>(&self, o: &M, who: &str, kept: bool) {
        match o.num() {
            Some(key) => self.ev.lock().unwrap().push(Ev { table: M::TABLE, key, who: who.into(), kept }),
            None => self.bad("no-key", format!("{o:?} has no key after save")),
        }
    }
    /// The object just saved must be the row its key names.
    fn readback<M: Auto>(&self, o: &M, got: butane::Result<Option<M>>) {
        self.ctx.eval(1);
        match got {
            Ok(Some(g)) if g.who() == o.who() => {}
            Err(e) if transient(&e) => {}
            g => self.bad("wrong-key", format!("saved {o:?}, its key finds {g:?}")),
        }
    }
}
fn sync_worker<M: Auto>(log: &Log, w: usize, n: usize, r: &mut Rng, get: &mut dyn FnMut(&mut dyn FnMut(&mut butane::db::Connection))) {
    use butane::db::BackendConnection;
    for i in 0..n {
        let who = format!("{w}.{i}");
        let kind = below(r, 6);
        let extra = below(r, 3);
        get(&mut |c| {
            for _try in 0..400 {
                let mut o = M::make(&who);
                let res: butane::Result<bool> = (|| match kind {
                    0 | 1 => {
                        // several in one transaction, kept or rolled back
                        let t = c.transaction()?;
                        let mut more: Vec<M> = vec![];
                        ssave(&mut o, &t)?;
                        for j in 0..extra {
                            let mut x = M::make(&format!("{who}+{j}"));
                            ssave(&mut x, &t)?;
                            more.push(x);
                        }
                        log.readback(&o, stry(&t, o.pk().clone()));
                        let mut keys: Vec<_> = more.iter().map(Auto::num).chain([o.num()]).collect();
                        keys.sort();
                        keys.dedup();
                        if keys.len() != more.len() + 1 {
                            log.bad("duplicate-key", format!("one transaction got {keys:?}"));
                        }
                        if kind == 0 {
                            t.commit()?;
                            for (j, x) in more.iter().enumerate() {
                                log.kept(x, &format!("{who}+{j}"), true);
                            }
                            Ok(true)
                        } else {
                            t.rollback()?;
                            Ok(false)
                        }
                    }
                    _ => {
                        ssave(&mut o, &*c)?;
                        Ok(true)
                    }
                })();
                match res {
                    Ok(kept) => {
                        log.kept(&o, &who, kept);
                        if kept {
                            let k = o.num();
                            log.readback(&o, stry(&*c, o.pk().clone()));
                            // saving again keeps the key
                            if kind == 2 {
                                match ssave(&mut o, &*c) {
                                    Ok(()) if o.num() == k => {}
                                    Err(e) if transient(&e) => {}
                                    e => log.bad("key-changed", format!("second save: {e:?}, key {k:?} -> {:?}", o.num())),
                                }
                            }
                        }
                        return;
                    }
                    Err(e) if transient(&e) => {
                        log.busy.fetch_add(1, Ordering::Relaxed);
                        std::thread::sleep(std::time::Duration::from_millis(1 + (w as u64 * 7 + i as u64) % 5));
                    }
                    Err(e) => return log.bad("save", format!("save of {o:?} failed: {e:?}")),
                }
            }
            log.busy.fetch_add(1000, Ordering::Relaxed);
        });
    }
}
async fn async_worker<M: Auto>(log: &Log<'_>, w: usize, n: usize, c: &impl ConnectionMethodsAsync) {
    for i in 0..n {
        let who = format!("{w}.{i}");
        for _try in 0..400 {
            let mut o = M::make(&who);
            match asave(&mut o, c).await {
                Ok(()) => {
                    log.kept(&o, &who, true);
                    let g = atry(c, o.pk().clone()).await;
                    log.readback(&o, g);
                    break;
                }
                Err(e) if transient(&e) => {
                    log.busy.fetch_add(1, Ordering::Relaxed);
                    tokio::time::sleep(std::time::Duration::from_millis(1 + (w as u64 * 7 + i as u64) % 5)).await;
                }
                Err(e) => return log.bad("save", format!("save of {o:?} failed: {e:?}")),
            }
            if i % 3 == 0 {
                tokio::task::yield_now().await;
            }
        }
    }
}
async fn async_tx_worker<M: Auto>(log: &Log<'_>, w: usize, n: usize, c: &mut ConnectionAsync) {
    for i in 0..n {
        for _try in 0..400 {
            let who = format!("{w}.t{i}");
            let mut os: Vec<M> = (0..3).map(|j| M::make(&format!("{who}.{j}"))).collect();
            let keep = (w + i) % 3 != 0;
            let res: butane::Result<()> = async {
                let t = c.transaction().await?;
                for o in &mut os {
                    asave(o, &t).await?;
                }
                if keep {
                    t.commit().await
                } else {
                    t.rollback().await
                }
            }
            .await;
            match res {
                Ok(()) => {
                    for (j, o) in os.iter().enumerate() {
                        log.kept(o, &format!("{who}.{j}"), keep);
                    }
                    break;
                }
                Err(e) if transient(&e) => {
                    log.busy.fetch_add(1, Ordering::Relaxed);
                    tokio::time::sleep(std::time::Duration::from_millis(1 + (w as u64 * 3 + i as u64) % 5)).await;
                }
                Err(e) => return log.bad("save", format!("transaction failed: {e:?}")),
            }
        }
    }
}
/// Compare the log with the table.
fn settle<M: Auto>(log: &Log, db: &Db) {
    let evs: Vec<Ev> = log.ev.lock().unwrap().clone();
    let mut rows = M::query_all(db);
    for i in 0..100 {
        if !matches!(&rows, Err(e) if e.contains("locked")) {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(i));
        rows = M::query_all(db);
    }
    let rows: Vec<M> = match rows {
        Ok(r) => r,
        Err(e) if log.lane == Lane::Turso && e.contains("locked") => return log.stuck.store(true, Ordering::Relaxed),
        Err(e) => return log.bad("load", format!("{e}")),
    };
    let kept: Vec<&Ev> = evs.iter().filter(|e| e.kept).collect();
    let mut by_key: BTreeMap<i64, &Ev> = BTreeMap::new();
    for e in &kept {
        if let Some(o) = by_key.insert(e.key, e) {
            log.bad("duplicate-key", format!("{o:?} and {e:?} both kept"));
        }
    }
    let mut seen = BTreeSet::new();
    for row in &rows {
        let k = row.num().unwrap();
        if !seen.insert(k) {
            log.bad("duplicate-row", format!("two rows with key {k}"));
        }
        match by_key.get(&k) {
            Some(e) => {
                if row.who().is_some_and(|w| w != e.who) {
                    log.bad("wrong-key", format!("key {k} was reported to {} but its row is {row:?}", e.who));
                }
            }
            None => log.bad("unreported-row", format!("row {row:?} has a key nobody was told")),
        }
    }
    if rows.len() != kept.len() {
        log.bad("lost-row", format!("{} kept objects, {} rows", kept.len(), rows.len()));
    }
    log.ctx.eval(kept.len() as u64);
    log.ctx.count(&format!("objects kept {}", log.lane.name()), kept.len() as u64);
    log.ctx.count(&format!("objects rolled back {}", log.lane.name()), (evs.len() - kept.len()) as u64);
    log.ctx.count(&format!("lock conflicts retried {}", log.lane.name()), log.busy.load(Ordering::Relaxed));
    // interleaving: in key order, how often the worker changes
    let order: Vec<String> = by_key.values().map(|e| e.who.split('.').next().unwrap().to_string()).collect();
    let switches = order.windows(2).filter(|w| w[0] != w[1]).count();
    log.ctx.count(&format!("worker switches in key order {}", log.mode), switches as u64);
    if switches > 0 {
        log.ctx.nontrivial(&(log.lane.name(), log.mode, M::TABLE, order));
    }
}
trait QueryAll: Sized {
    fn query_all(db: &Db) -> Result<Vec<Self>, String>;
}
impl<M: Auto> QueryAll for M {
    fn query_all(db: &Db) -> Result<Vec<M>, String> {
        catch(|| sload(M::query(), db.c())).and_then(|x| x.map_err(|e| e.to_string()))
    }
}
const MODES: [&str; 8] = ["shared-threads", "threads", "pool-threads", "tasks", "pool-tasks", "one-connection", "transactions", "mixed"];

fn round<M: Auto>(ctx: &Ctx, db: &mut Db, r: &mut Rng, mode: &'static str, _case: &str, out: &Mutex<Option<Vec<(String, String)>>>) {
    let lane = db.lane;
    let t = db.tables().into_iter().find(|x| x.eq_ignore_ascii_case(M::TABLE)).unwrap();
    db.raw_exec(&format!("DELETE FROM \"{t}\"")).expect("clear");
    let log = Log { ctx, lane, ev: Mutex::new(vec![]), busy: AtomicU64::new(0), mode, out, stuck: Default::default() };
    let workers = 2 + below(r, 5);
    let n = if lane == Lane::Turso { 6 } else { 15 };
    let seeds: Vec<u64> = (0..workers).map(|_| r.random()).collect();
    use rand::SeedableRng;
    match mode {
        // many threads sharing one connection
        "shared-threads" => {
            let c = rt().block_on(connect_async(lane, &db.connstr)).expect("connect");
            std::thread::scope(|s| {
                for w in 0..workers {
                    let (log, c) = (&log, &c);
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                        if let Err(e) = catch(|| rt().block_on(async_worker::<M>(log, w, n, c))) {
                            log.bad("panic", e);
                        }
                    }).unwrap();
                }
            });
        }
        // Turso connections used at the same instant from several threads corrupt each other
        // inside the engine now and then; butane shares nothing between connections.
        "threads" | "mixed" if lane == Lane::Turso => return,
        "threads" | "mixed" => std::thread::scope(|s| {
            for (w, seed) in seeds.iter().enumerate() {
                let (log, connstr) = (&log, db.connstr.clone());
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    let mut rr = Rng::seed_from_u64(*seed);
                    if mode == "mixed" && w % 2 == 0 {
                        let mut c = rt().block_on(connect_async(lane, &connstr)).expect("connect");
                        if w % 4 == 0 {
                            rt().block_on(async_worker::<M>(log, w, n, &c));
                        } else {
                            rt().block_on(async_tx_worker::<M>(log, w, n, &mut c));
                        }
                    } else {
                        let mut c = connect(lane, &connstr).expect("connect");
                        sync_worker::<M>(log, w, n, &mut rr, &mut |f| f(&mut c));
                    }
                }).unwrap();
            }
        }),
        "pool-threads" => {
            if lane == Lane::Turso {
                return; // no synchronous Turso connections
            }
            let pool = r2d2::Pool::builder().max_size(3).min_idle(Some(0)).build(ConnectionManager::new(db.spec())).expect("pool");
            std::thread::scope(|s| {
                for (w, seed) in seeds.iter().enumerate() {
                    let (log, pool) = (&log, &pool);
                    s.spawn(move || {
                        let mut rr = Rng::seed_from_u64(*seed);
                        sync_worker::<M>(log, w, n, &mut rr, &mut |f| f(&mut pool.get().expect("pool get")));
                    });
                }
            });
        }
        "tasks" => rt().block_on(async {
            let futs = (0..workers).map(|w| {
                let (log, cs) = (&log, db.connstr.clone());
                async move {
                    let c = connect_async(lane, &cs).await.expect("connect");
                    async_worker::<M>(log, w, n, &c).await
                }
            });
            futures_util::future::join_all(futs).await;
        }),
        "pool-tasks" => rt().block_on(async {
            let pool = deadpool::managed::Pool::<ConnectionManager>::builder(ConnectionManager::new(db.spec())).max_size(3).build().expect("pool");
            let futs = (0..workers).map(|w| {
                let (log, pool) = (&log, pool.clone());
                async move {
                    for i in 0..n {
                        let c = pool.get().await.expect("pool get");
                        async_worker::<M>(log, w * 1000 + i, 1, &*c).await;
                    }
                }
            });
            futures_util::future::join_all(futs).await;
        }),
        // many tasks sharing one connection
        "one-connection" => rt().block_on(async {
            let c = connect_async(lane, &db.connstr).await.expect("connect");
            let futs = (0..workers).map(|w| async_worker::<M>(&log, w, n, &c));
            futures_util::future::join_all(futs).await;
        }),
        _ => rt().block_on(async {
            let futs = (0..workers).map(|w| {
                let (log, cs) = (&log, db.connstr.clone());
                async move {
                    let mut c = connect_async(lane, &cs).await.expect("connect");
                    async_tx_worker::<M>(log, w, n / 3 + 1, &mut c).await
                }
            });
            futures_util::future::join_all(futs).await;
        }),
    }
    settle::<M>(&log, db);
    if log.stuck.load(Ordering::Relaxed) {
        ctx.count("rounds given up because Turso stayed locked with every connection closed", 1);
        *db = Db::new(ctx, lane);
        return;
    }
    ctx.sample(format!("{lane:?} {mode} {} workers on {}: {} objects", workers, M::TABLE, log.ev.lock().unwrap().len()));
    ctx.count(&format!("rounds {mode}"), 1);
}

/// One user: keys across saves, deletes, failures and copies.
fn serial(ctx: &Ctx, db: &mut Db, r: &mut Rng, case: &str) {
    let lane = db.lane;
    db.wipe();
    let mut live: BTreeMap<i64, Uniq> = BTreeMap::new();
    let mut emails = 0;
    for step in 0..25 {
        ctx.eval(1);
        match below(r, 6) {
            0..=2 => {
                emails += 1;
                let mut u = Uniq { id: AutoPk::uninitialized(), email: format!("e{emails}"), code: None, owner: None, note: text(r) };
                let c2 = u.clone();
                match ssave(&mut u, db.c()) {
                    Ok(()) => {}
                    Err(e) => return ctx.violation("save", case, format!("{lane:?} {e:?}")),
                }
                let k = u.id.unwrap_or(-1);
                if c2.id.is_valid() || live.contains_key(&k) {
                    return ctx.violation("duplicate-key", case, format!("{lane:?} step {step}: new object got {k}, live {:?}", live.keys()));
                }
                if u.id.to_sql() != SqlVal::BigInt(k) || format!("{}", u.id) != k.to_string() {
                    ctx.violation("key-views", case, format!("{lane:?} {:?}", u.id));
                }
                live.insert(k, u);
            }
            3 if !live.is_empty() => {
                // a refused insert gives no key and burns nothing that is live
                let other = live.values().next().unwrap().email.clone();
                let mut u = Uniq { id: AutoPk::uninitialized(), email: other, code: None, owner: None, note: String::new() };
                match ssave(&mut u, db.c()) {
                    Err(_) if !u.id.is_valid() => ctx.count("refused inserts left without key", 1),
                    e => return ctx.violation("failed-save-has-key", case, format!("{lane:?} {e:?} {:?}", u.id)),
                }
            }
            4 if !live.is_empty() => {
                let k = *live.keys().next_back().unwrap();
                sdel(&live.remove(&k).unwrap(), db.c()).expect("delete");
            }
            _ if !live.is_empty() => {
                // updates and initialisation never change the key
                let k = *pick(r, &live.keys().copied().collect::<Vec<_>>());
                let u = live.get_mut(&k).unwrap();
                u.note = text(r);
                let _ = u.id.initialize(SqlVal::BigInt(k + 1000));
                if ssave(u, db.c()).is_err() || *u.id != Some(k) {
                    return ctx.violation("key-changed", case, format!("{lane:?} {k} became {:?}", u.id));
                }
            }
            _ => {}
        }
    }
    let mut all: Vec<(i64, String)> = sload(Uniq::query(), db.c()).expect("load").into_iter().map(|u| (u.id.unwrap(), u.note)).collect();
    all.sort();
    let want: Vec<(i64, String)> = live.iter().map(|(k, u)| (*k, u.note.clone())).collect();
    if all != want {
        ctx.violation("wrong-key", case, format!("{lane:?} rows {all:?}\n want {want:?}"));
    }
    ctx.count("serial histories", 1);
}

fn main() {
    let ctx = Arc::new(Ctx::new("C05", 40, 1200));
    ctx.rule("a round of concurrent inserts whose keys in order alternate between workers; distinct by backend, way of connecting, table and order of workers");
    ctx.assume("inserts refused because the database was locked are retried; they are not violations");
    ctx.watchdog(120, None);
    ctx.parallel(&Lane::ALL, |lane| {
        let mut db = Db::new(&ctx, lane);
        let mut i = 0;
        ctx.cases(lane.name(), 1.0, MODES.len(), 100_000, |case, r| {
            let idx: usize = case.rsplit('/').next().unwrap().parse().unwrap();
            let mode = MODES[idx % MODES.len()];
            // The Turso engine is an alpha which fails its own assertions now and then when
            // connections conflict: such a round says nothing about butane.
            let engine = rtm::ctx::engine_panics();
            let log = Mutex::new(None);
            let res = catch(|| match idx / MODES.len() % 4 {
                0 => round::<KAuto>(&ctx, &mut db, r, mode, case, &log),
                1 => round::<KOnly>(&ctx, &mut db, r, mode, case, &log),
                2 => round::<MixedAuto>(&ctx, &mut db, r, mode, case, &log),
                _ => round::<KAuto32>(&ctx, &mut db, r, mode, case, &log),
            });
            if lane == Lane::Turso && rtm::ctx::engine_panics() != engine {
                ctx.count(&format!("rounds given up because Turso panicked: {mode}"), 1);
                db = Db::new(&ctx, lane);
                return;
            }
            for (sig, msg) in log.into_inner().unwrap().unwrap_or_default() {
                ctx.violation(&sig, case, msg);
            }
            if let Err(e) = res {
                ctx.violation("panic", case, format!("{lane:?} {mode}: {e}"));
                db = Db::new(&ctx, lane);
                return;
            }
            serial(&ctx, &mut db, r, case);
            i += 1;
        });
        ctx.count(&format!("cases {}", lane.name()), i);
    });
    ctx.finish();
}
