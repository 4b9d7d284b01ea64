//! C08: transactions take effect entirely or not at all.
use butane::query::{BoolExpr, Expr};
use butane::{AutoPk, DataObject, DataResult, ForeignKey, Many, ManyOpsAsync, ManyOpsSync, ToSql};
use rtm::models::*;
use rtm::ops::*;
use rtm::prelude::*;

/// What the tables hold.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct World {
    texts: BTreeMap<String, (String, Option<i64>)>,
    uniq: BTreeMap<i64, (String, Option<String>, String)>,
    labels: BTreeSet<i32>,
    accounts: BTreeMap<i64, (i64, i64)>,
}
#[derive(Clone, Debug)]
enum Op {
    PutText(String, String, Option<i64>),
    DelText(String),
    QDelText(i64),
    NewUniq(String),
    /// change the nth row's email (may collide) or note
    UpdUniq(usize, Option<String>, String),
    DanglingUniq(String),
    AddLabel(usize),
    DropLabel(usize),
    PutAccount(i64, i64, i64),
    RawAdd(i64),
    RawBroken,
    RawMissingTable,
    Read,
}
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum End {
    Commit,
    Rollback,
    Drop,
    Panic,
    /// commit after the server ended the session
    Killed,
    /// commit while a deferred constraint is broken
    Deferred,
    /// commit while another connection keeps the database locked
    Locked,
}
fn gen_op(r: &mut Rng) -> Op {
    let key = |r: &mut Rng| pick(r, &["a", "b", "c", "d"]).to_string();
    let email = |r: &mut Rng| format!("e{}", below(r, 6));
    match below(r, 16) {
        0..=2 => Op::PutText(key(r), text(r), opt(r, 0.3, |r| below(r, 3) as i64)),
        3 => Op::DelText(key(r)),
        4 => Op::QDelText(below(r, 3) as i64),
        5 | 6 => Op::NewUniq(email(r)),
        7 => Op::UpdUniq(below(r, 8), opt(r, 0.4, email), text(r)),
        8 => Op::DanglingUniq(format!("f{}", below(r, 50))),
        9 => Op::AddLabel(below(r, 3)),
        10 => Op::DropLabel(below(r, 3)),
        11 | 12 => Op::PutAccount(below(r, 4) as i64, i64v(r) / 4, r.random_range(0..1_000_000_000)),
        13 => Op::RawAdd(below(r, 50) as i64),
        14 if chance(r, 0.3) => Op::RawBroken,
        14 if chance(r, 0.5) => Op::RawMissingTable,
        _ => Op::Read,
    }
}
/// What an operation did: `Ok(true)` changed the world, `Ok(false)` had nothing to do.
type Did = butane::Result<()>;

/// The same operations over a synchronous and an asynchronous connection.
macro_rules! ops {
    ($name:ident, $observe:ident, ($($asy:tt)*), $meth:path, ($($aw:tt)*), $save:ident, $del:ident, $try:ident, $load:ident, $qdel:ident, $many:ident, $manyops:ident) => {
        $($asy)* fn $observe(c: &impl $meth) -> butane::Result<World> {
            let mut w = World::default();
            for t in $load(KText::query(), c) $($aw)* ? {
                w.texts.insert(t.key, (t.v, t.n));
            }
            for u in $load(Uniq::query(), c) $($aw)* ? {
                w.uniq.insert(u.id.unwrap(), (u.email, u.owner.map(|o| o.pk()), u.note));
            }
            for a in $load(Account::query(), c) $($aw)* ? {
                w.accounts.insert(a.id, (a.balance, a.seq));
            }
            if let Some(t) = $try::<Team>(c, "team".to_string()) $($aw)* ? {
                w.labels = $many(&t.labels, c) $($aw)* ?.iter().map(|l| l.code).collect();
            }
            Ok(w)
        }
        /// Perform `op`, which changes `w` if it succeeds.
        $($asy)* fn $name(op: &Op, w: &mut World, labels: &[Label], c: &impl $meth, prob: &mut Vec<(String, String)>) -> Did {
            match op {
                Op::PutText(k, v, n) => {
                    let mut t = KText { key: k.clone(), v: v.clone(), n: *n };
                    $save(&mut t, c) $($aw)* ?;
                    w.texts.insert(k.clone(), (v.clone(), *n));
                }
                Op::DelText(k) => {
                    let t = KText { key: k.clone(), v: String::new(), n: None };
                    $del(&t, c) $($aw)* ?;
                    w.texts.remove(k);
                }
                Op::QDelText(n) => {
                    let count = $qdel(KText::query().filter(BoolExpr::Eq("n", Expr::Val(n.to_sql()))), c) $($aw)* ?;
                    let before = w.texts.len();
                    w.texts.retain(|_, v| v.1 != Some(*n));
                    let want = before - w.texts.len();
                    // Turso counts rows with a text key twice (a known finding of C24)
                    if count != want && count != 2 * want {
                        prob.push(("wrong-count".into(), format!("deleted {count}, want {want}")));
                    }
                }
                Op::NewUniq(e) => {
                    let mut u = Uniq { id: AutoPk::uninitialized(), email: e.clone(), code: None, owner: Some(ForeignKey::from_pk("author".to_string())), note: String::new() };
                    $save(&mut u, c) $($aw)* ?;
                    if w.uniq.values().any(|x| x.0 == *e) {
                        prob.push(("violation-accepted".into(), format!("email {e} twice")));
                    }
                    w.uniq.insert(u.id.unwrap(), (e.clone(), Some("author".into()), String::new()));
                }
                Op::UpdUniq(i, e, note) => {
                    if w.uniq.is_empty() {
                        return Ok(());
                    }
                    let id = *w.uniq.keys().nth(i % w.uniq.len()).unwrap();
                    let Some(mut u) = $try::<Uniq>(c, id) $($aw)* ? else {
                        prob.push(("own-writes".into(), format!("row {id} not found")));
                        return Ok(());
                    };
                    if let Some(e) = e {
                        u.email = e.clone();
                    }
                    u.note = note.clone();
                    $save(&mut u, c) $($aw)* ?;
                    let row = w.uniq.get_mut(&id).unwrap();
                    row.0 = u.email.clone();
                    row.2 = note.clone();
                    if w.uniq.values().filter(|x| x.0 == u.email).count() > 1 {
                        prob.push(("violation-accepted".into(), format!("email {} twice", u.email)));
                    }
                }
                Op::DanglingUniq(e) => {
                    let mut u = Uniq { id: AutoPk::uninitialized(), email: e.clone(), code: None, owner: Some(ForeignKey::from_pk("nobody".to_string())), note: String::new() };
                    $save(&mut u, c) $($aw)* ?;
                    prob.push(("violation-accepted".into(), "reference to nothing".into()));
                    w.uniq.insert(u.id.unwrap(), (e.clone(), Some("nobody".into()), String::new()));
                }
                Op::AddLabel(i) | Op::DropLabel(i) => {
                    let Some(mut t) = $try::<Team>(c, "team".to_string()) $($aw)* ? else {
                        prob.push(("own-writes".into(), "team not found".into()));
                        return Ok(());
                    };
                    let m: &mut Many<Label> = &mut t.labels;
                    if matches!(op, Op::AddLabel(_)) {
                        m.add(&labels[*i])?;
                    } else {
                        m.remove(&labels[*i]);
                    }
                    $manyops::save(m, c) $($aw)* ?;
                    if matches!(op, Op::AddLabel(_)) {
                        w.labels.insert(labels[*i].code);
                    } else {
                        w.labels.remove(&labels[*i].code);
                    }
                }
                Op::PutAccount(id, b, s) => {
                    let mut a = Account { id: *id, balance: *b, seq: *s };
                    $save(&mut a, c) $($aw)* ?;
                    w.accounts.insert(*id, (*b, *s));
                }
                Op::RawAdd(n) => {
                    c.execute(&format!("UPDATE {} SET balance = balance + {n}", Account::TABLE)) $($aw)* ?;
                    for a in w.accounts.values_mut() {
                        a.0 += n;
                    }
                }
                Op::RawBroken => c.execute("UPDATE UPDATE nonsense") $($aw)* ?,
                Op::RawMissingTable => c.execute("DELETE FROM there_is_no_such_table") $($aw)* ?,
                Op::Read => {
                    let got = $observe(c) $($aw)* ?;
                    if got != *w {
                        prob.push(("own-writes".into(), format!("inside the transaction {got:?}\n  want {w:?}")));
                    }
                }
            }
            Ok(())
        }
    };
}
ops!(sop, sobserve, (), butane::db::ConnectionMethods, (), ssave, sdel, stry, sload, sqdel, smany, ManyOpsSync);
ops!(aop, aobserve, (async), butane::db::ConnectionMethodsAsync, (.await), asave, adel, atry, aload, aqdel, amany, ManyOpsAsync);

struct Fix {
    labels: Vec<Label>,
    world: World,
}
fn setup(db: &mut Db) -> Result<Fix, String> {
    db.wipe();
    let mut a = Author { name: "author".into(), rank: 0, bio: None };
    ssave(&mut a, db.c()).map_err(|e| e.to_string())?;
    let mut labels = vec![];
    for i in 0..3 {
        let mut l = Label { code: i, text: String::new(), prio: None };
        ssave(&mut l, db.c()).map_err(|e| e.to_string())?;
        labels.push(l);
    }
    let mut t = Team { name: "team".into(), slogan: String::new(), labels: Many::new(), words: Many::new(), autos: Many::new(), uuids: Many::new() };
    ssave(&mut t, db.c()).map_err(|e| e.to_string())?;
    Ok(Fix { labels, world: World::default() })
}
/// Statements which must be refused only when the commit comes.
fn deferred(lane: Lane) -> Vec<String> {
    match lane {
        Lane::Pg => vec!["INSERT INTO deferral VALUES (1)".into(), "INSERT INTO deferral VALUES (1)".into()],
        Lane::Turso => vec![],
        _ => vec!["PRAGMA defer_foreign_keys = ON".into(), "INSERT INTO Uniq (email, owner, note) VALUES ('deferred', 'nobody', '')".into()],
    }
}
const MARK: &str = "the harness panics on purpose";

fn history(ctx: &Ctx, db: &mut Db, r: &mut Rng, case: &str, asyn: bool, blocking: bool) {
    let lane = db.lane;
    let mut fx = match catch(|| setup(db)) {
        Ok(Ok(f)) => f,
        e => return ctx.violation("setup", case, format!("{lane:?} {:?}", e.map(|x| x.map(|_| ())))),
    };
    if lane == Lane::Pg {
        db.raw_exec("DROP TABLE IF EXISTS deferral; CREATE TABLE deferral (a INT, UNIQUE (a) DEFERRABLE INITIALLY DEFERRED)").expect("deferral");
    }
    let connect_a = |db: &Db| rt().block_on(connect_async(lane, &db.connstr)).expect("connect");
    let mut ac = if asyn { Some(connect_a(db)) } else { None };
    let mut log: Vec<String> = vec![];
    for tx in 0..6 {
        let before = fx.world.clone();
        let mut w = before.clone();
        let plan: Vec<Op> = (0..1 + below(r, 7)).map(|_| gen_op(r)).collect();
        let mut end = *pick(r, &[End::Commit, End::Commit, End::Commit, End::Rollback, End::Drop, End::Panic, End::Killed, End::Deferred, End::Locked]);
        if end == End::Killed && (lane != Lane::Pg || !chance(r, 0.3)) || end == End::Deferred && lane == Lane::Turso || end == End::Locked && !blocking {
            end = End::Commit;
        }
        log.push(format!("{plan:?} {end:?}"));
        let mut prob: Vec<(String, String)> = vec![];
        let mut failed = 0;
        let mut done: Vec<bool> = vec![];
        let labels = fx.labels.clone();
        // a reader which keeps the file locked against commits
        let connstr = db.connstr.clone();
        let observer = db.connect();
        let reader = (end == End::Locked).then(|| {
            let c = rusqlite::Connection::open(&connstr).unwrap();
            c.execute_batch("BEGIN; SELECT count(*) FROM sqlite_master;").unwrap();
            c
        });
        let kill = |pid: &str| observer.execute(&format!("SELECT pg_terminate_backend({pid})")).is_ok();
        let _ = &kill;
        // the outcome of commit or rollback; None if it was dropped
        let outcome: Result<Option<butane::Result<()>>, String> = if let Some(c) = &mut ac {
            catch(|| {
                rt().block_on(async {
                    use butane::db::{BackendConnectionAsync, ConnectionMethodsAsync};
                    let t = match c.transaction().await {
                        Ok(t) => t,
                        Err(e) => {
                            prob.push(("begin".into(), format!("{e:?}")));
                            return None;
                        }
                    };
                    for op in &plan {
                        match aop(op, &mut w, &labels, &t, &mut prob).await {
                            Ok(()) => done.push(true),
                            Err(_) => {
                                failed += 1;
                                done.push(false);
                            }
                        }
                    }
                    match end {
                        End::Commit => Some(t.commit().await),
                        End::Rollback => Some(t.rollback().await),
                        End::Drop => None,
                        End::Panic => panic!("{MARK}"),
                        End::Killed => {
                            let _ = t.execute("SELECT pg_terminate_backend(pg_backend_pid())").await;
                            Some(t.commit().await)
                        }
                        End::Deferred => {
                            for s in deferred(lane) {
                                let _ = t.execute(&s).await;
                            }
                            Some(t.commit().await)
                        }
                        End::Locked => {
                            let _ = t.execute("PRAGMA busy_timeout = 20").await;
                            Some(t.commit().await)
                        }
                    }
                })
            })
        } else {
            let db = &mut *db;
            catch(|| {
                let t = match db.cm().transaction() {
                    Ok(t) => t,
                    Err(e) => {
                        prob.push(("begin".into(), format!("{e:?}")));
                        return None;
                    }
                };
                for op in &plan {
                    match sop(op, &mut w, &labels, &t, &mut prob) {
                        Ok(()) => done.push(true),
                        Err(_) => {
                            failed += 1;
                            done.push(false);
                        }
                    }
                }
                match end {
                    End::Commit => Some(t.commit()),
                    End::Rollback => Some(t.rollback()),
                    End::Drop => None,
                    End::Panic => panic!("{MARK}"),
                    End::Killed => {
                        let _ = t.execute("SELECT pg_terminate_backend(pg_backend_pid())");
                        Some(t.commit())
                    }
                    End::Deferred => {
                        for s in deferred(lane) {
                            let _ = t.execute(&s);
                        }
                        Some(t.commit())
                    }
                    End::Locked => {
                        let _ = t.execute("PRAGMA busy_timeout = 20");
                        Some(t.commit())
                    }
                }
            })
        };
        drop(reader);
        drop(observer);
        ctx.eval(1);
        let say = |m: String| format!("{lane:?}{} transaction {tx}: {m}\n  ops {plan:?} succeeded {done:?} end {end:?}", if asyn { " async" } else { "" });
        for (s, m) in prob.drain(..) {
            ctx.violation(&s, case, say(m));
        }
        let kept = match (&outcome, end) {
            (Err(e), End::Panic) if e.contains(MARK) => false,
            (Err(e), _) => {
                ctx.violation("panic", case, say(e.clone()));
                *db = Db::new(ctx, lane);
                return;
            }
            (Ok(None), _) => false,
            (Ok(Some(res)), End::Rollback) => {
                if let Err(e) = res {
                    ctx.violation("rollback-failed", case, say(format!("{e:?}")));
                }
                false
            }
            (Ok(Some(Ok(()))), _) => true,
            (Ok(Some(Err(e))), End::Commit) if failed == 0 => {
                ctx.violation("commit-failed", case, say(format!("{e:?}")));
                false
            }
            (Ok(Some(Err(_))), _) => false,
        };
        if kept && matches!(end, End::Deferred | End::Killed) {
            ctx.violation("commit-reported", case, say("a commit which cannot have succeeded reported success".into()));
        }
        if kept {
            ctx.count(&format!("committed {}", lane.name()), 1);
        } else {
            ctx.count(&format!("undone by {end:?} {}", lane.name()), 1);
        }
        let want = if kept { w } else { before.clone() };
        // through a connection of nobody's
        let fresh = catch(|| sobserve(&connect(lane, &db.connstr)?));
        match fresh {
            Ok(Ok(got)) if got == want => {}
            Ok(Ok(got)) => ctx.violation(
                if kept { "lost-work" } else { "kept-work" },
                case,
                say(format!("commit said {outcome:?}; tables hold {got:?}\n  want {want:?}\n  before {before:?}")),
            ),
            e => ctx.violation("observe", case, say(format!("{e:?}"))),
        }
        if end == End::Killed {
            if let Some(c) = &mut ac {
                use butane::db::BackendConnectionAsync;
                if !c.is_closed() {
                    ctx.count("killed sessions not yet reported closed", 1);
                }
                *c = connect_a(db);
            } else {
                *db.cm() = connect(lane, &connstr).expect("connect");
            }
        }
        // through the connection itself, which must be usable again
        let own = if let Some(c) = &ac { catch(|| rt().block_on(aobserve(c))) } else { catch(|| sobserve(db.c())) };
        match own {
            Ok(Ok(got)) if got == want => {}
            e => {
                ctx.violation("unusable", case, say(format!("afterwards the connection gives {e:?}\n  want {want:?}")));
                *db = Db::new(ctx, lane);
                return;
            }
        }
        fx.world = want.clone();
        // and outside of any transaction: durable at once
        let mut prob = vec![];
        let op = Op::PutText("plain".into(), format!("{tx}"), None);
        let mut w = want;
        let res = if let Some(c) = &ac { catch(|| rt().block_on(aop(&op, &mut w, &fx.labels, c, &mut prob))) } else { catch(|| sop(&op, &mut w, &fx.labels, db.c(), &mut prob)) };
        if !matches!(res, Ok(Ok(()))) {
            ctx.violation("unusable", case, say(format!("afterwards a save gives {res:?}")));
            *db = Db::new(ctx, lane);
            return;
        }
        match catch(|| sobserve(&connect(lane, &db.connstr)?)) {
            Ok(Ok(got)) if got == w => {}
            e => {
                ctx.violation("unusable", case, say(format!("a save after the transaction is not there: {e:?}")));
                *db = Db::new(ctx, lane);
                return;
            }
        }
        fx.world = w;
        ctx.nontrivial(&(lane.name(), asyn, end, &done, &fx.world));
        if failed > 0 {
            ctx.count("transactions with failing statements", 1);
        }
    }
    ctx.count(&format!("histories {}{}", lane.name(), if asyn { " async" } else { "" }), 1);
    ctx.sample(format!("{lane:?} {}", log.join(" ; ")));
}

fn main() {
    let ctx = Arc::new(Ctx::new("C08", 35, 900));
    ctx.rule("a transaction, distinct by backend, interface, which of its statements failed, how it ended and what the tables held after it");
    ctx.watchdog(120, None);
    ctx.parallel(&Lane::ALL, |lane| {
        let mut db = Db::new(&ctx, lane);
        let mut plain = lane.is_sqlite().then(|| Db::new_without_wal(&ctx, lane));
        ctx.cases(lane.name(), 1.0, 8, 100_000, |case, r| {
            let asyn = chance(r, 0.5);
            // without WAL, SQLite's default, a reader keeps a commit from succeeding
            match &mut plain {
                Some(p) if chance(r, 0.25) => history(&ctx, p, r, case, asyn, true),
                _ => history(&ctx, &mut db, r, case, asyn, false),
            }
        });
    });
    ctx.finish();
}
