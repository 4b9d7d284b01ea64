//! C04: objects behave as a map keyed by primary key.
use butane::db::{ConnectionAsync, ConnectionMethods, ConnectionMethodsAsync};
use butane::query::{BoolExpr, Expr, QueryOpsSync};
use butane::{AutoPk, DataObject, DataObjectOpsAsync, DataObjectOpsSync, PrimaryKeyType, ToSql};
use rtm::models::*;
use rtm::prelude::*;

trait Km: DataObject + Clone + std::fmt::Debug + Send {
    fn gen(r: &mut Rng) -> Self;
    fn mutate(&mut self, r: &mut Rng);
    fn show(&self) -> String {
        format!("{self:?}")
    }
    /// The key as text; `None` when it has none yet.
    fn key(&self) -> Option<String> {
        if self.pk().is_valid() {
            Some(format!("{:?}", self.pk().to_sql()))
        } else {
            None
        }
    }
}
const KEYS: &[&str] = &[
    "", "a", "A", "a ", " a", "aa", "é", "e\u{301}", "É", "0", "00", "1", "1.0", "NULL", "'", "''", "%", "_", "\\", "日本", "a'b", "a\"b", "a;b", "😀", "ß", "ss",
];
fn n(r: &mut Rng) -> Option<i64> {
    opt(r, 0.4, i64v)
}
macro_rules! km {
    ($m:ident, $f:ident, |$r:ident| $k:expr) => {
        impl Km for $m {
            fn gen($r: &mut Rng) -> Self {
                $m { $f: $k, v: text($r), n: n($r) }
            }
            fn mutate(&mut self, r: &mut Rng) {
                match below(r, 3) {
                    0 => self.v = text(r),
                    1 => self.n = n(r),
                    _ => {
                        self.v = text(r);
                        self.n = n(r);
                    }
                }
            }
        }
    };
}
km!(KInt, id, |r| *pick(r, &[0, 1, -1, 2, 10, i32::MAX, i32::MIN]));
km!(KBig, id, |r| *pick(r, &[0, 1, -1, 1 << 31, 1 << 32, (1 << 53) + 1, 1 << 53, i64::MAX, i64::MIN]));
km!(KText, key, |r| pick(r, KEYS).to_string());
km!(KSlug, id, |r| Slug(pick(r, KEYS).to_string()));
km!(KBlob, id, |r| pick(r, &[&b""[..], b"\0", b"\0\0", b"a", b"A", b"'", b"\xff\xfe", b"abc"]).to_vec());
km!(KUuid, id, |r| uuid::Uuid::from_u128(*pick(r, &[0u128, 1, 2, 1 << 64, u128::MAX])));
km!(KDate, id, |r| chrono::NaiveDate::from_ymd_opt(2000 + below(r, 3) as i32, 1 + below(r, 2) as u32, 1).unwrap());
km!(KAuto, key, |_r| AutoPk::uninitialized());
km!(KAuto32, id, |_r| AutoPk::uninitialized());
impl Km for KOnly {
    fn gen(_: &mut Rng) -> Self {
        KOnly { id: AutoPk::uninitialized() }
    }
    fn mutate(&mut self, _: &mut Rng) {}
}
impl Km for KOnlyText {
    fn gen(r: &mut Rng) -> Self {
        KOnlyText { word: pick(r, KEYS).to_string() }
    }
    fn mutate(&mut self, _: &mut Rng) {}
}
impl Km for AllOpt {
    fn gen(r: &mut Rng) -> Self {
        let mut o = AllOpt {
            id: AutoPk::uninitialized(),
            b: None,
            i8v: None,
            u8v: None,
            i16v: None,
            u16v: None,
            i32v: None,
            u32v: None,
            i64v: None,
            f32v: None,
            f64v: None,
            text: None,
            blob: None,
            json: None,
            bmap: None,
            ts: None,
            tsu: None,
            date: None,
            uuid: None,
            en: None,
            nt: None,
            ty: None,
        };
        for _ in 0..below(r, 12) {
            o.mutate(r);
        }
        o
    }
    fn mutate(&mut self, r: &mut Rng) {
        match below(r, 12) {
            0 => self.b = opt(r, 0.3, |r| r.random()),
            1 => self.i8v = opt(r, 0.3, i8v),
            2 => self.u32v = opt(r, 0.3, u32v),
            3 => self.i64v = opt(r, 0.3, i64v),
            4 => self.f64v = opt(r, 0.3, |r| r.random_range(-100..100) as f64 / 8.0),
            5 => self.text = opt(r, 0.3, text),
            6 => self.blob = opt(r, 0.3, blob),
            7 => self.json = opt(r, 0.3, |r| json(r, 1)),
            8 => self.ts = opt(r, 0.3, timestamp),
            9 => self.date = opt(r, 0.3, date),
            10 => self.uuid = opt(r, 0.3, uuid),
            _ => self.en = opt(r, 0.3, |r| *pick(r, &Color::ALL)),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    Conn,
    Second,
    Async,
    Tx,
    AsyncTx,
}
const VIAS: [Via; 7] = [Via::Conn, Via::Conn, Via::Conn, Via::Second, Via::Async, Via::Tx, Via::AsyncTx];

struct Env {
    db: Db,
    second: butane::db::Connection,
    aconn: ConnectionAsync,
}
macro_rules! via {
    ($env:expr, $via:expr, |$c:ident| $sync:expr, |$a:ident| $async:expr) => {
        catch(|| match $via {
            Via::Conn => {
                let $c = $env.db.c();
                $sync
            }
            Via::Second => {
                let $c = &$env.second;
                $sync
            }
            Via::Tx => {
                let t = $env.db.cm().transaction()?;
                let out = {
                    let $c = &t;
                    $sync
                };
                match out {
                    Ok(v) => t.commit().map(|_| v),
                    Err(e) => {
                        let _ = t.rollback();
                        Err(e)
                    }
                }
            }
            Via::Async => rt().block_on(async {
                let $a = &$env.aconn;
                $async.await
            }),
            Via::AsyncTx => rt().block_on(async {
                use butane::db::BackendConnectionAsync;
                let t = $env.aconn.transaction().await?;
                let out = {
                    let $a = &t;
                    $async.await
                };
                match out {
                    Ok(v) => t.commit().await.map(|_| v),
                    Err(e) => {
                        let _ = t.rollback().await;
                        Err(e)
                    }
                }
            }),
        })
    };
}
// thin wrappers choose the trait
fn s_save<M: Km>(m: &mut M, c: &impl ConnectionMethods) -> butane::Result<()> {
    DataObjectOpsSync::save(m, c)
}
async fn a_save<M: Km>(m: &mut M, c: &impl ConnectionMethodsAsync) -> butane::Result<()> {
    DataObjectOpsAsync::save(m, c).await
}
fn s_del<M: Km>(m: &M, c: &impl ConnectionMethods) -> butane::Result<()> {
    DataObjectOpsSync::delete(m, c)
}
async fn a_del<M: Km>(m: &M, c: &impl ConnectionMethodsAsync) -> butane::Result<()> {
    DataObjectOpsAsync::delete(m, c).await
}
/// Looked up in one of three ways.
fn s_get<M: Km>(m: &M, how: usize, c: &impl ConnectionMethods) -> butane::Result<Option<M>> {
    match how {
        0 => match <M as DataObjectOpsSync<M>>::get(c, m.pk().clone()) {
            Ok(o) => Ok(Some(o)),
            Err(butane::Error::NoSuchObject) => Ok(None),
            Err(e) => Err(e),
        },
        1 => <M as DataObjectOpsSync<M>>::try_get(c, m.pk().clone()),
        _ => M::query().filter(BoolExpr::Eq(M::PKCOL, Expr::Val(m.pk().to_sql()))).load(c).map(|mut v| {
            assert!(v.len() < 2, "two rows for one key");
            v.pop()
        }),
    }
}
async fn a_get<M: Km>(m: &M, how: usize, c: &impl ConnectionMethodsAsync) -> butane::Result<Option<M>> {
    match how {
        0 => match <M as DataObjectOpsAsync<M>>::get(c, m.pk().clone()).await {
            Ok(o) => Ok(Some(o)),
            Err(butane::Error::NoSuchObject) => Ok(None),
            Err(e) => Err(e),
        },
        1 => <M as DataObjectOpsAsync<M>>::try_get(c, m.pk().clone()).await,
        _ => butane::query::QueryOpsAsync::load_first(M::query().filter(BoolExpr::Eq(M::PKCOL, Expr::Val(m.pk().to_sql()))), c).await,
    }
}
fn s_all<M: Km>(c: &impl ConnectionMethods) -> butane::Result<Vec<M>> {
    M::query().load(c)
}
async fn a_all<M: Km>(c: &impl ConnectionMethodsAsync) -> butane::Result<Vec<M>> {
    butane::query::QueryOpsAsync::load(M::query(), c).await
}

fn table_rows(db: &Db, t: &str) -> BTreeMap<String, i64> {
    let name = db.tables().into_iter().find(|x| x.eq_ignore_ascii_case(t)).expect("table");
    let mut m = BTreeMap::new();
    for r in db.dump_table(&name) {
        *m.entry(r).or_insert(0) += 1;
    }
    m
}
fn changed(a: &BTreeMap<String, i64>, b: &BTreeMap<String, i64>) -> (i64, i64) {
    let gone = a.iter().map(|(k, n)| (n - b.get(k).copied().unwrap_or(0)).max(0)).sum();
    let new = b.iter().map(|(k, n)| (n - a.get(k).copied().unwrap_or(0)).max(0)).sum();
    (gone, new)
}

fn history<M: Km>(ctx: &Ctx, env: &mut Env, r: &mut Rng, case: &str, deep: bool) {
    let lane = env.db.lane;
    env.db.raw_exec(&format!("DELETE FROM \"{}\"", env.db.tables().into_iter().find(|x| x.eq_ignore_ascii_case(M::TABLE)).unwrap())).expect("clear");
    let mut model: BTreeMap<String, String> = BTreeMap::new();
    let mut pool: Vec<M> = vec![];
    let mut log: Vec<String> = vec![];
    let mut rows = table_rows(&env.db, M::TABLE);
    let steps = if deep { 40 } else { 14 };
    macro_rules! bad {
        ($sig:expr, $($a:tt)*) => {{
            let m = format!($($a)*);
            ctx.violation($sig, case, format!("{lane:?} {}: {m}\n history {}", M::TABLE, log.join("; ")));
            return;
        }};
    }
    for step in 0..steps {
        let via = *pick(r, &VIAS);
        let before = rows.clone();
        match below(r, 11) {
            // save something new (or something new under a used key)
            0..=2 => {
                let mut o = M::gen(r);
                let had = o.key();
                let auto = had.is_none();
                log.push(format!("{step} {via:?} save new {o:?}"));
                match via!(env, via, |c| s_save(&mut o, c), |c| a_save(&mut o, c)) {
                    Ok(Ok(())) => {}
                    e => bad!("save", "save failed: {e:?}"),
                }
                let Some(k) = o.key() else { bad!("no-key", "saved object has no key") };
                if auto && model.contains_key(&k) {
                    bad!("key-reused", "new object was given the key {k} of a live one");
                }
                if !auto && had.as_ref() != Some(&k) {
                    bad!("key-changed", "key {had:?} became {k}");
                }
                let existed = model.insert(k.clone(), o.show()).is_some();
                pool.push(o);
                rows = table_rows(&env.db, M::TABLE);
                let (g, a) = changed(&before, &rows);
                if existed && !(g == a && g <= 1) || !existed && (g, a) != (0, 1) {
                    bad!("other-rows", "saving key {k} (existed: {existed}) removed {g} and added {a} rows");
                }
                ctx.count(if existed { "saves over an existing key" } else { "saves of a new key" }, 1);
            }
            // change and save one of the objects held, possibly out of date or deleted meanwhile
            3..=5 if !pool.is_empty() => {
                let i = below(r, pool.len());
                let same = chance(r, 0.25);
                if !same {
                    pool[i].mutate(r);
                }
                let mut o = pool[i].clone();
                let k = o.key().unwrap();
                let existed = model.contains_key(&k);
                log.push(format!("{step} {via:?} save {}{o:?}", if existed { "" } else { "(deleted) " }));
                match via!(env, via, |c| s_save(&mut o, c), |c| a_save(&mut o, c)) {
                    Ok(Ok(())) => {}
                    e => bad!("save", "save failed: {e:?}"),
                }
                if o.key().as_ref() != Some(&k) {
                    bad!("key-changed", "key {k} became {:?}", o.key());
                }
                let was = model.insert(k.clone(), o.show());
                pool[i] = o.clone();
                rows = table_rows(&env.db, M::TABLE);
                let (g, a) = changed(&before, &rows);
                if existed && !(g == a && g <= 1) || existed && was == Some(o.show()) && g + a != 0 {
                    bad!("other-rows", "saving key {k} again removed {g} and added {a} rows");
                }
                if !existed && (g, a) != (0, 1) {
                    bad!("save-after-delete", "saving the deleted object {k} succeeded but removed {g} and added {a} rows");
                }
                // once more: nothing changes
                match via!(env, via, |c| s_save(&mut o, c), |c| a_save(&mut o, c)) {
                    Ok(Ok(())) => {}
                    e => bad!("save", "second save failed: {e:?}"),
                }
                if table_rows(&env.db, M::TABLE) != rows {
                    bad!("not-idempotent", "saving {k} twice changed the table again");
                }
                ctx.count(if !existed { "saves of deleted objects" } else if same { "saves again unchanged" } else { "updates" }, 1);
            }
            6 | 7 if !pool.is_empty() => {
                let i = below(r, pool.len());
                let o = pool[i].clone();
                let k = o.key().unwrap();
                log.push(format!("{step} {via:?} delete {k}"));
                match via!(env, via, |c| s_del(&o, c), |c| a_del(&o, c)) {
                    Ok(Ok(())) => {}
                    e => bad!("delete", "delete failed: {e:?}"),
                }
                let existed = model.remove(&k).is_some();
                rows = table_rows(&env.db, M::TABLE);
                if changed(&before, &rows) != (existed as i64, 0) {
                    bad!("delete-rows", "deleting {k} (existed: {existed}) removed/added {:?} rows", changed(&before, &rows));
                }
                ctx.count(if existed { "deletes" } else { "deletes of absent objects" }, 1);
            }
            8 | 9 => {
                // by key: an object held, or one never saved
                let o = if pool.is_empty() || chance(r, 0.2) { M::gen(r) } else { pick(r, &pool).clone() };
                let Some(k) = o.key() else { continue };
                let how = below(r, 3);
                log.push(format!("{step} {via:?} get {k}"));
                match via!(env, via, |c| s_get(&o, how, c), |c| a_get(&o, how, c)) {
                    Ok(Ok(got)) => {
                        if got.as_ref().map(Km::show) != model.get(&k).cloned() {
                            bad!("get", "get({k}) = {got:?}, want {:?}", model.get(&k));
                        }
                        if let Some(g) = got {
                            if chance(r, 0.5) {
                                pool.push(g);
                            }
                        }
                    }
                    e => bad!("get", "get({k}) failed: {e:?}"),
                }
                ctx.count("gets", 1);
            }
            _ => {
                log.push(format!("{step} {via:?} all"));
                match via!(env, via, |c| s_all::<M>(c), |c| a_all::<M>(c)) {
                    Ok(Ok(all)) => {
                        let mut got: Vec<String> = all.iter().map(Km::show).collect();
                        got.sort();
                        let mut want: Vec<String> = model.values().cloned().collect();
                        want.sort();
                        if got != want {
                            bad!("all", "loaded {got:?}\n want {want:?}");
                        }
                    }
                    e => bad!("all", "load failed: {e:?}"),
                }
                ctx.count("loads of everything", 1);
            }
        }
        ctx.eval(1);
        if rows.values().sum::<i64>() != model.len() as i64 {
            bad!("row-count", "{} rows, {} live objects", rows.values().sum::<i64>(), model.len());
        }
    }
    // final: every key ever held
    for o in &pool {
        let k = o.key().unwrap();
        match catch(|| s_get(o, 1, &env.second)) {
            Ok(Ok(got)) => {
                if got.as_ref().map(Km::show) != model.get(&k).cloned() {
                    bad!("get", "at the end get({k}) = {got:?}, want {:?}", model.get(&k));
                }
            }
            e => bad!("get", "at the end get({k}) failed: {e:?}"),
        }
    }
    ctx.nontrivial(&(lane.name(), &log));
    ctx.sample(format!("{lane:?} {}: {}", M::TABLE, log.join("; ")));
}

fn main() {
    let ctx = Arc::new(Ctx::new("C04", 35, 900));
    ctx.rule("a history of saves, updates, deletes and loads of one model, every step compared with a map and with the raw table; distinct by backend and operations");
    ctx.watchdog(120, None);
    ctx.parallel(&Lane::ALL, |lane| {
        let db = Db::new(&ctx, lane);
        let second = db.connect();
        let aconn = rt().block_on(connect_async(lane, &db.connstr)).expect("async");
        let mut env = Env { db, second, aconn };
        let mut others = env.db.dump();
        let deep = ctx.thorough;
        ctx.cases(lane.name(), 1.0, 2, 100_000, |case, r| {
            history::<KInt>(&ctx, &mut env, r, case, deep);
            history::<KBig>(&ctx, &mut env, r, case, deep);
            history::<KText>(&ctx, &mut env, r, case, deep);
            history::<KSlug>(&ctx, &mut env, r, case, deep);
            history::<KBlob>(&ctx, &mut env, r, case, deep);
            history::<KUuid>(&ctx, &mut env, r, case, deep);
            history::<KDate>(&ctx, &mut env, r, case, deep);
            history::<KAuto>(&ctx, &mut env, r, case, deep);
            history::<KAuto32>(&ctx, &mut env, r, case, deep);
            history::<KOnly>(&ctx, &mut env, r, case, deep);
            history::<KOnlyText>(&ctx, &mut env, r, case, deep);
            history::<AllOpt>(&ctx, &mut env, r, case, deep);
            // no other table was touched
            let touched = ["kint", "kbig", "ktext", "kslug", "kblob", "kuuid", "kdate", "kauto", "kauto32", "konly", "konlytext", "allopt"];
            let mut now = env.db.dump();
            now.retain(|k, _| !touched.contains(&k.to_lowercase().as_str()));
            others.retain(|k, _| !touched.contains(&k.to_lowercase().as_str()));
            if now != others {
                ctx.violation("other-table", case, format!("{lane:?}: another table changed"));
                others = now;
            }
            ctx.count(&format!("histories {}", lane.name()), 12);
        });
    });
    ctx.finish();
}
