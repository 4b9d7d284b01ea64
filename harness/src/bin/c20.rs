//! C20: declared constraints are enforced and violations change nothing.
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Barrier, Mutex};

use butane::db::{Column, ConnectionMethods};
use butane::migrations::Migrations;
use butane::query::{BoolExpr, Expr};
use butane::{AutoPk, ForeignKey, FromSql, Many, SqlType, SqlVal, SqlValRef, ToSql};
use rtm::evolve::fresh;
use rtm::models::{Author, Label, OneToOne, Uniq, UniqText};
use rtm::ops::*;
use rtm::prelude::*;
use rtm::schema::{chain, plain, Lit, Model, Schema, Ty, B};

fn auto(v: i64) -> AutoPk<i64> {
    AutoPk::from_sql(v.to_sql()).expect("key")
}
fn leak(s: &str) -> &'static str {
    use std::sync::LazyLock;
    static SEEN: LazyLock<Mutex<HashMap<String, &'static str>>> = LazyLock::new(Default::default);
    *SEEN.lock().unwrap().entry(s.to_string()).or_insert_with(|| Box::leak(s.to_string().into_boxed_str()))
}

/// Turso 0.3 at times finds a dangling reference in a write of a referenced table which has none, reports
/// failure, and yet keeps the row (once in some 100 000 writes here).
fn engine_refusal(lane: Lane, e: &butane::Error) -> bool {
    lane == Lane::Turso && e.to_string().contains("foreign key constraint failed")
}

// --- any schema: a model of its constraints ------------------------------------------
/// Stored values are numbered; different numbers are different values.
type V = i64;
const TEXTS: &[&str] = &["a", "A", "a ", "", "é", "e\u{301}", "' OR 1=1", "\u{1F980}"];
const BLOBS: &[&[u8]] = &[b"", b"\0", b"\0\0", b"a", b"A", b"\xff", b"'", b"a\0"];
fn sqltype(b: B) -> SqlType {
    match b {
        B::Bool => SqlType::Bool,
        B::Int => SqlType::Int,
        B::BigInt => SqlType::BigInt,
        B::Real => SqlType::Real,
        B::Text => SqlType::Text,
        B::Blob => SqlType::Blob,
        B::Json => SqlType::Json,
        B::Date => SqlType::Date,
        B::Timestamp => SqlType::Timestamp,
    }
}
fn day(v: V) -> chrono::NaiveDate {
    chrono::NaiveDate::from_ymd_opt(2020, 2, 28).unwrap() + chrono::Days::new(v as u64)
}
fn sqlval(b: B, v: V) -> SqlVal {
    match b {
        B::Bool => SqlVal::Bool(v != 0),
        B::Int => SqlVal::Int(v as i32),
        B::BigInt => SqlVal::BigInt(v),
        B::Real => SqlVal::Real(v as f64 * 0.25),
        B::Text => SqlVal::Text(TEXTS[v as usize].to_string()),
        B::Blob => SqlVal::Blob(BLOBS[v as usize].to_vec()),
        B::Json => SqlVal::Json(serde_json::json!({ "k": v })),
        B::Date => SqlVal::Date(day(v)),
        B::Timestamp => SqlVal::Timestamp(day(0).and_hms_micro_opt(1, 2, 3, 4 + v as u32).unwrap()),
    }
}
fn number(b: B, v: &SqlVal) -> Option<V> {
    if let (B::Int | B::BigInt, SqlVal::Int(_) | SqlVal::BigInt(_)) = (b, v) {
        return match v {
            SqlVal::Int(i) => Some(*i as V),
            SqlVal::BigInt(i) => Some(*i),
            _ => None,
        };
    }
    (0..8).find(|n| sqlval(b, *n) == *v)
}
fn of_lit(b: B, l: &Lit) -> SqlVal {
    match l {
        Lit::Int(i) if b == B::Int => SqlVal::Int(*i as i32),
        Lit::Int(i) => SqlVal::BigInt(*i),
        Lit::Real(f) => SqlVal::Real(*f),
        Lit::Text(t) => SqlVal::Text(t.clone()),
        Lit::Bool(x) => SqlVal::Bool(*x),
        Lit::Blob(x) => SqlVal::Blob(x.clone()),
    }
}
#[derive(Clone, Debug)]
struct C {
    name: &'static str,
    b: B,
    opt: bool,
    pk: bool,
    auto: bool,
    unique: bool,
    fk: Option<usize>,
}
#[derive(Clone, Debug)]
struct T {
    name: &'static str,
    cols: Vec<C>,
    join: bool,
}
impl T {
    fn pk(&self) -> usize {
        self.cols.iter().position(|c| c.pk).unwrap()
    }
}
fn tables(s: &Schema) -> Vec<T> {
    let mut out: Vec<T> = vec![];
    let at = |n: &str| s.models.iter().position(|m| m.name == n);
    for m in &s.models {
        let col = |f: &rtm::schema::Field| C {
            name: leak(plain(&f.name)),
            b: s.base(&f.ty),
            opt: f.opt,
            pk: f.pk,
            auto: matches!(f.ty, Ty::Auto(..)),
            unique: f.unique,
            fk: match &f.ty {
                Ty::Fk(m) => at(m),
                _ => None,
            },
        };
        out.push(T { name: leak(m.table()), cols: m.fields.iter().filter(|f| !matches!(f.ty, Ty::Many(_))).map(col).collect(), join: false });
    }
    for m in &s.models {
        for f in &m.fields {
            let Ty::Many(o) = &f.ty else { continue };
            let c = |name, to: &Model| C { name, b: s.base(&to.pk().ty), opt: false, pk: false, auto: false, unique: false, fk: at(&to.name) };
            out.push(T {
                name: leak(&format!("{}_{}_Many", m.table(), plain(&f.name))),
                cols: vec![c("owner", m), c("has", s.model(o).unwrap())],
                join: true,
            });
        }
    }
    out
}
type R = Vec<Option<V>>;
/// Rows of each table, in no order.
type M = Vec<Vec<R>>;
/// Why a state is not allowed.
fn broken(ts: &[T], m: &M) -> Option<String> {
    for (t, rows) in ts.iter().zip(m) {
        for (i, c) in t.cols.iter().enumerate() {
            let mut seen = BTreeSet::new();
            for r in rows {
                match r[i] {
                    None if !c.opt => return Some("null".into()),
                    None => {}
                    Some(v) => {
                        if (c.pk || c.unique) && !seen.insert(v) {
                            return Some(if c.pk { "key" } else { "unique" }.into());
                        }
                        if let Some(to) = c.fk {
                            let k = ts[to].pk();
                            if !m[to].iter().any(|x| x[k] == Some(v)) {
                                return Some(if t.join { "member" } else { "reference" }.into());
                            }
                        }
                    }
                }
            }
        }
    }
    None
}
fn read(db: &Db, ts: &[T]) -> Result<M, String> {
    ts.iter()
        .map(|t| {
            let cols: Vec<Column> = t.cols.iter().map(|c| Column::new(c.name, sqltype(c.b))).collect();
            let mut rows = db.c().query(t.name, &cols, None, None, None, None).map_err(|e| format!("{}: {e}", t.name))?;
            let mut out = vec![];
            while let Some(r) = rows.next().map_err(|e| e.to_string())? {
                let mut row = vec![];
                for (i, c) in t.cols.iter().enumerate() {
                    let v: SqlVal = r.get(i, sqltype(c.b)).map_err(|e| e.to_string())?.into();
                    row.push(match v {
                        SqlVal::Null => None,
                        v => Some(number(c.b, &v).ok_or_else(|| format!("{}.{}: strange value {v:?}", t.name, c.name))?),
                    });
                }
                out.push(row);
            }
            out.sort();
            Ok(out)
        })
        .collect()
}
fn value(r: &mut Rng, ts: &[T], m: &M, c: &C) -> Option<V> {
    if chance(r, if c.opt { 0.25 } else { 0.08 }) {
        // SQLite lets a null choose an integer key
        if !(c.pk && matches!(c.b, B::Int | B::BigInt)) {
            return None;
        }
    }
    if let Some(to) = c.fk {
        let k = ts[to].pk();
        if chance(r, 0.75) && !m[to].is_empty() {
            return m[to][below(r, m[to].len())][k];
        }
    }
    Some(match c.b {
        B::Bool => below(r, 2) as V,
        B::Int | B::BigInt if c.auto => 2000 + below(r, 5) as V,
        B::Int | B::BigInt => *pick(r, &[0, 1, 2, 3, -1, i32::MAX as V]),
        _ => below(r, 6) as V,
    })
}
fn any_schema(ctx: &Ctx, lane: Lane, keep: &mut Option<Db>, r: &mut Rng, case: &str) {
    let mut versions = vec![Schema::generate(r)];
    if lane != Lane::Turso {
        for _ in 0..below(r, 3) {
            let prev = versions.last().unwrap().clone();
            let mut next = prev.clone();
            for _ in 0..6 {
                let mut n = next.clone();
                if n.mutate(r).is_some() && prev.leads_to(&n, lane, false) {
                    next = n;
                }
            }
            versions.push(next);
        }
    }
    // its engine goes wrong where rows refer to rows of their own table
    if lane == Lane::Turso && versions[0].models.iter().any(|m| m.fields.iter().any(|f| matches!(&f.ty, Ty::Fk(x) if *x == m.name))) {
        return;
    }
    let db = fresh(ctx, lane, keep);
    let s = versions.last().unwrap().clone();
    let text = versions.iter().map(|v| v.text()).collect::<Vec<_>>().join("\n=====\n");
    let backends = nonempty::nonempty![lane.backend()];
    let sorted: Vec<Schema> = versions.iter().map(|v| v.sorted()).collect();
    let mut conn = db.connect();
    match catch(|| chain(&sorted, &backends).and_then(|(ms, _)| ms.migrate(&mut conn))) {
        Ok(Ok(())) => {}
        e => {
            // C11's business
            ctx.count("schemas not reached", 1);
            ctx.sample(format!("not reached: {e:?}"));
            return;
        }
    }
    drop(conn);
    let ts = tables(&s);
    if ts.is_empty() {
        return;
    }
    let mut m: M = vec![vec![]; ts.len()];
    let mut log: Vec<String> = vec![];
    let mut serial = 1000;
    ctx.count("schemas", 1);
    for _ in 0..40 {
        let ti = below(r, ts.len());
        let t = &ts[ti];
        let cols: Vec<Column> = t.cols.iter().map(|c| Column::new(c.name, sqltype(c.b))).collect();
        let mut want = m.clone();
        let mut row: R = t.cols.iter().map(|c| value(r, &ts, &m, c)).collect();
        if chance(r, 0.5) {
            // mostly sound, for the sake of progress
            for _ in 0..12 {
                let mut w = m.clone();
                w[ti].push(row.clone());
                if broken(&ts, &w).is_none() {
                    break;
                }
                row = t.cols.iter().map(|c| value(r, &ts, &m, c)).collect();
            }
        }
        let vals = |row: &R| -> Vec<SqlVal> { t.cols.iter().zip(row).map(|(c, v)| v.map_or(SqlVal::Null, |v| sqlval(c.b, v))).collect() };
        let v = vals(&row);
        let refs = |v: &[SqlVal]| -> Vec<SqlValRef<'static>> { v.iter().map(|x| unsafe { std::mem::transmute::<SqlValRef<'_>, SqlValRef<'static>>(x.as_ref()) }).collect() };
        let what = below(r, 10);
        let mut given: Option<SqlVal> = None;
        let before = db.dump();
        let in_tx = chance(r, 0.15) && lane != Lane::Turso;
        let run = |f: &mut dyn FnMut(&dyn ConnectionMethods) -> butane::Result<()>| -> Result<butane::Result<()>, String> {
            if !in_tx {
                return catch(|| f(db.c()));
            }
            let mut conn = db.connect();
            catch(|| {
                let tr = conn.transaction()?;
                match f(&tr) {
                    Ok(()) => tr.commit(),
                    Err(e) => {
                        let _ = tr.rollback();
                        Err(e)
                    }
                }
            })
        };
        let res = match what {
            0..=3 => {
                log.push(format!("insert {} {v:?}", t.name));
                want[ti].push(row.clone());
                if t.join || chance(r, 0.3) {
                    run(&mut |c| c.insert_only(t.name, &cols, &refs(&v)))
                } else {
                    let k = t.pk();
                    let mut keep: Vec<usize> = (0..cols.len()).collect();
                    if t.cols[k].auto && chance(r, 0.7) {
                        keep.retain(|i| *i != k);
                        // not one which the database might choose
                        want[ti].last_mut().unwrap()[k] = Some(V::MIN);
                    }
                    let (kc, kv): (Vec<Column>, Vec<SqlVal>) = keep.iter().map(|i| (cols[*i].clone(), v[*i].clone())).unzip();
                    let res = run(&mut |c| {
                        given = Some(c.insert_returning_pk(t.name, &kc, &cols[k], &refs(&kv))?);
                        Ok(())
                    });
                    if let Some(g) = &given {
                        match number(t.cols[k].b, g) {
                            Some(n) if want[ti].last().unwrap()[k] == Some(V::MIN) => want[ti].last_mut().unwrap()[k] = Some(n),
                            n if n == row[k] => {}
                            n => return ctx.violation("key-returned", case, format!("{lane:?} {n:?} for {row:?}\n  {}\n{text}", log.join("\n  "))),
                        }
                    }
                    res
                }
            }
            4 | 5 if !t.join => {
                let k = t.pk();
                log.push(format!("put {} {v:?}", t.name));
                match want[ti].iter_mut().find(|x| x[k] == row[k]) {
                    Some(x) => *x = row.clone(),
                    None => want[ti].push(row.clone()),
                }
                run(&mut |c| c.insert_or_replace(t.name, &cols, &cols[k], &refs(&v)))
            }
            6 | 7 if !t.join && !m[ti].is_empty() && cols.len() > 1 => {
                let k = t.pk();
                let at = below(r, m[ti].len());
                let mut set: Vec<usize> = (0..cols.len()).filter(|i| *i != k && chance(r, 0.6)).collect();
                if set.is_empty() {
                    set = (0..cols.len()).filter(|i| *i != k).collect();
                }
                for i in &set {
                    want[ti][at][*i] = row[*i];
                }
                let key = sqlval(t.cols[k].b, m[ti][at][k].unwrap());
                let (kc, kv): (Vec<Column>, Vec<SqlVal>) = set.iter().map(|i| (cols[*i].clone(), v[*i].clone())).unzip();
                log.push(format!("update {} {key:?} {:?} {kv:?}", t.name, kc.iter().map(|c| c.name()).collect::<Vec<_>>()));
                run(&mut |c| c.update(t.name, cols[k].clone(), key.as_ref(), &kc, &refs(&kv)))
            }
            8 if !m[ti].is_empty() => {
                let k = if t.join { below(r, 2) } else { t.pk() };
                let key = m[ti][below(r, m[ti].len())][k];
                log.push(format!("delete {} {} {key:?}", t.name, t.cols[k].name));
                want[ti].retain(|x| x[k] != key);
                let key = sqlval(t.cols[k].b, key.unwrap());
                run(&mut |c| c.delete(t.name, t.cols[k].name, key.clone()))
            }
            _ => {
                let k = below(r, cols.len());
                let Some(x) = row[k] else { continue };
                if t.cols[k].b == B::Json {
                    continue;
                }
                log.push(format!("delete {} where {} <> {x}", t.name, t.cols[k].name));
                if chance(r, 0.7) {
                    continue;
                }
                want[ti].retain(|y| y[k].is_none() || y[k] == Some(x));
                run(&mut |c| c.delete_where(t.name, BoolExpr::Ne(t.cols[k].name, Expr::Val(sqlval(t.cols[k].b, x)))).map(|_| ()))
            }
        };
        serial += 1;
        let why = broken(&ts, &want);
        let kind = if in_tx { " in a transaction" } else { "" };
        let tell = |m: String| format!("{lane:?}{kind} {m}\n  {}\n{text}", log.join("\n  "));
        ctx.eval(1);
        match (&res, &why) {
            (Ok(Ok(())), None) => {
                ctx.count("writes accepted", 1);
                for w in want.iter_mut() {
                    w.sort();
                }
                match read(&db, &ts) {
                    Ok(got) if got == want => {}
                    got => return ctx.violation("contents", case, tell(format!("holds {got:?}\n  want {want:?}"))),
                }
                m = want;
                ctx.nontrivial(&(lane.name(), what, serial, case));
            }
            (Ok(Err(_)), Some(w)) => {
                ctx.count(&format!("refused: {w}"), 1);
                if db.dump() != before {
                    return ctx.violation("refused-changed", case, tell(format!("{res:?} but tables changed")));
                }
                ctx.nontrivial(&(lane.name(), w, format!("{:?}", t.cols), what));
            }
            (Ok(Ok(())), Some(w)) => return ctx.violation(&format!("accepted-{w}"), case, tell(format!("accepted, breaking {w}; rows {want:?}"))),
            (Ok(Err(e)), None) if engine_refusal(lane, e) => return ctx.count("refused by a defect of the Turso engine", 1),
            (Ok(Err(e)), None) => return ctx.violation("refused-sound", case, tell(format!("refused: {e}; rows {want:?}"))),
            (Err(p), _) => return ctx.violation("panic", case, tell(p.clone())),
        }
    }
}

// --- compiled models -------------------------------------------------------------------
#[derive(Clone, Debug, Default, PartialEq)]
struct World {
    authors: BTreeSet<String>,
    labels: BTreeSet<i32>,
    uniqs: BTreeMap<i64, (String, Option<i32>, Option<String>)>,
    texts: BTreeMap<String, (i64, i32)>,
    ones: BTreeMap<i64, (i32, i32)>,
    nodes: BTreeMap<i64, (String, Option<i64>)>,
    links: BTreeSet<(i64, i64)>,
    teams: BTreeMap<String, String>,
    team_labels: BTreeSet<(String, i32)>,
    team_words: BTreeSet<(String, String)>,
    words: BTreeSet<String>,
}
impl World {
    fn broken(&self) -> Option<&'static str> {
        let distinct = |n: usize, of: usize| n == of;
        let emails: BTreeSet<&String> = self.uniqs.values().map(|u| &u.0).collect();
        let codes: Vec<i32> = self.uniqs.values().filter_map(|u| u.1).collect();
        let slots: BTreeSet<i64> = self.texts.values().map(|t| t.0).collect();
        let ones: BTreeSet<i32> = self.ones.values().map(|t| t.0).collect();
        if !distinct(emails.len(), self.uniqs.len()) || !distinct(codes.iter().collect::<BTreeSet<_>>().len(), codes.len()) || !distinct(slots.len(), self.texts.len()) || !distinct(ones.len(), self.ones.len()) {
            return Some("unique");
        }
        if self.uniqs.values().any(|u| u.2.as_ref().is_some_and(|o| !self.authors.contains(o))) || ones.iter().any(|l| !self.labels.contains(l)) || self.nodes.values().any(|n| n.1.is_some_and(|p| !self.nodes.contains_key(&p))) {
            return Some("reference");
        }
        if self.links.iter().any(|(a, b)| !self.nodes.contains_key(a) || !self.nodes.contains_key(b))
            || self.team_labels.iter().any(|(t, l)| !self.teams.contains_key(t) || !self.labels.contains(l))
            || self.team_words.iter().any(|(t, w)| !self.teams.contains_key(t) || !self.words.contains(w))
        {
            return Some("member");
        }
        None
    }
}
fn raw_world(db: &Db) -> Result<World, String> {
    let t = |v: &Raw| match v {
        Raw::Text(s) => s.clone(),
        o => o.show(),
    };
    let i = |v: &Raw| match v {
        Raw::Int(i) => *i,
        Raw::Text(s) => s.parse().unwrap_or(i64::MIN),
        _ => i64::MIN,
    };
    let o = |v: &Raw| !matches!(v, Raw::Null);
    let mut w = World::default();
    for r in db.raw_rows("SELECT name FROM Author")? {
        w.authors.insert(t(&r[0]));
    }
    for r in db.raw_rows("SELECT code FROM Label")? {
        w.labels.insert(i(&r[0]) as i32);
    }
    for r in db.raw_rows("SELECT id, email, code, \"owner\" FROM Uniq")? {
        w.uniqs.insert(i(&r[0]), (t(&r[1]), o(&r[2]).then(|| i(&r[2]) as i32), o(&r[3]).then(|| t(&r[3]))));
    }
    for r in db.raw_rows("SELECT name, slot, v FROM UniqText")? {
        w.texts.insert(t(&r[0]), (i(&r[1]), i(&r[2]) as i32));
    }
    for r in db.raw_rows("SELECT id, label, v FROM OneToOne")? {
        w.ones.insert(i(&r[0]), (i(&r[1]) as i32, i(&r[2]) as i32));
    }
    for r in db.raw_rows("SELECT id, name, parent FROM Node")? {
        w.nodes.insert(i(&r[0]), (t(&r[1]), o(&r[2]).then(|| i(&r[2]))));
    }
    for r in db.raw_rows("SELECT \"owner\", has FROM Node_links_Many")? {
        w.links.insert((i(&r[0]), i(&r[1])));
    }
    for r in db.raw_rows("SELECT name, slogan FROM Team")? {
        w.teams.insert(t(&r[0]), t(&r[1]));
    }
    for r in db.raw_rows("SELECT \"owner\", has FROM Team_labels_Many")? {
        w.team_labels.insert((t(&r[0]), i(&r[1]) as i32));
    }
    for r in db.raw_rows("SELECT \"owner\", has FROM Team_words_Many")? {
        w.team_words.insert((t(&r[0]), t(&r[1])));
    }
    for r in db.raw_rows("SELECT \"key\" FROM KText")? {
        w.words.insert(t(&r[0]));
    }
    Ok(w)
}
fn compiled(ctx: &Ctx, db: &mut Db, r: &mut Rng, case: &str) {
    use rtm::models::{KText, Node, Team};
    let lane = db.lane;
    db.wipe();
    let mut w = World::default();
    let mut log: Vec<String> = vec![];
    let name = |r: &mut Rng| TEXTS[below(r, 5)].to_string();
    let node = |name: String, parent: Option<i64>| Node { id: AutoPk::uninitialized(), name, parent: parent.map(|p| ForeignKey::from_pk(auto(p))), links: Many::new() };
    for _ in 0..40 {
        let before = w.clone();
        let what = below(r, 17);
        let (s, s2, k, n) = (name(r), name(r), below(r, 4) as i32, below(r, 3) as i32);
        let in_tx = lane != Lane::Turso && chance(r, 0.2);
        let any_node = |r: &mut Rng, w: &World| if w.nodes.is_empty() || chance(r, 0.2) { 999_999 } else { *w.nodes.keys().nth(below(r, w.nodes.len())).unwrap() };
        let (na, nb) = (any_node(r, &w), any_node(r, &w));
        log.push(format!("{what} {s:?} {s2:?} {k} {n} {na} {nb}{}", if in_tx { " tx" } else { "" }));
        let snapshot = db.dump();
        // a save of several statements, the first of which may stay when a later one is refused
        let mut partly = None;
        let c: &dyn Fn(&mut dyn FnMut(&butane::db::Connection) -> butane::Result<()>) -> Result<butane::Result<()>, String> = &|f| catch(|| f(db.c()));
        macro_rules! run {
            (|$c:ident| $e:expr) => {
                if in_tx {
                    let mut conn = db.connect();
                    catch(|| {
                        let tr = conn.transaction()?;
                        let res = {
                            let $c = &tr;
                            $e
                        };
                        match res {
                            Ok(()) => tr.commit(),
                            Err(e) => {
                                let _ = tr.rollback();
                                Err(e)
                            }
                        }
                    })
                } else {
                    c(&mut |$c| $e)
                }
            };
        }
        let pick_one = |r: &mut Rng, len: usize| if len == 0 || chance(r, 0.5) { None } else { Some(below(r, len)) };
        let res = match what {
            0 => {
                w.authors.insert(s.clone());
                run!(|c| ssave(&mut Author { name: s.clone(), rank: n, bio: None }, c))
            }
            1 => {
                w.labels.insert(k);
                run!(|c| ssave(&mut Label { code: k, text: s.clone(), prio: None }, c))
            }
            2..=4 => {
                let code = opt(r, 0.4, |_| k);
                let owner = opt(r, 0.5, |_| s2.clone());
                let mut u = Uniq { id: AutoPk::uninitialized(), email: s.clone(), code, owner: owner.clone().map(ForeignKey::from_pk), note: s2.clone() };
                if let Some(at) = pick_one(r, w.uniqs.len()) {
                    u = sget(db.c(), *w.uniqs.keys().nth(at).unwrap()).expect("stored");
                    (u.email, u.code, u.owner) = (s.clone(), code, owner.clone().map(ForeignKey::from_pk));
                }
                let old = u.id.clone();
                let res = run!(|c| ssave(&mut u, c));
                match (old, &u.id) {
                    (x, _) if x.is_some() => {
                        w.uniqs.insert(x.unwrap(), (s, code, owner));
                    }
                    (_, x) if x.is_some() && matches!(res, Ok(Ok(()))) => {
                        w.uniqs.insert(x.clone().unwrap(), (s, code, owner));
                    }
                    _ => {
                        w.uniqs.insert(-1, (s, code, owner));
                    }
                }
                res
            }
            5 | 6 => {
                w.texts.insert(s.clone(), (k as i64, n));
                run!(|c| ssave(&mut UniqText { name: s.clone(), slot: k as i64, v: n }, c))
            }
            7 | 8 => {
                let mut o = OneToOne { id: AutoPk::uninitialized(), label: ForeignKey::from_pk(k), v: n };
                let mut key = -1;
                if let Some(at) = pick_one(r, w.ones.len()) {
                    key = *w.ones.keys().nth(at).unwrap();
                    o = sget(db.c(), key).expect("stored");
                    (o.label, o.v) = (ForeignKey::from_pk(k), n);
                }
                let res = run!(|c| ssave(&mut o, c));
                if key < 0 && matches!(res, Ok(Ok(()))) {
                    key = o.id.unwrap();
                }
                w.ones.insert(key, (k, n));
                res
            }
            9 => {
                if !w.labels.remove(&k) {
                    continue;
                }
                run!(|c| sdel(&Label { code: k, text: String::new(), prio: None }, c))
            }
            10 => {
                if !w.authors.remove(&s) {
                    continue;
                }
                run!(|c| sdel(&Author { name: s.clone(), rank: 0, bio: None }, c))
            }
            11 => {
                let mut x = node(s.clone(), if chance(r, 0.5) { None } else { Some(na) });
                let parent = x.parent.as_ref().map(|p| p.pk().unwrap());
                let res = run!(|c| ssave(&mut x, c));
                let id = if matches!(res, Ok(Ok(()))) { x.id.unwrap() } else { -1 };
                w.nodes.insert(id, (s, parent));
                res
            }
            12 => {
                if !w.nodes.contains_key(&na) {
                    continue;
                }
                let mut x: Node = sget(db.c(), na).expect("stored");
                if chance(r, 0.5) {
                    // a new parent, perhaps itself
                    x.parent = Some(ForeignKey::from_pk(auto(nb)));
                    w.nodes.get_mut(&na).unwrap().1 = Some(nb);
                } else {
                    let mut y = node("other".into(), None);
                    y.id = auto(nb);
                    if w.links.contains(&(na, nb)) {
                        continue;
                    }
                    let Ok(()) = x.links.add(&y) else { continue };
                    w.links.insert((na, nb));
                }
                run!(|c| ssave(&mut x, c))
            }
            13 => {
                if w.nodes.remove(&na).is_none() {
                    continue;
                }
                let mut x = node(String::new(), None);
                x.id = auto(na);
                // its own relations are not deleted with it
                run!(|c| sdel(&x, c))
            }
            14 | 15 => {
                let fresh = !w.teams.contains_key(&s);
                let mut t = if fresh { Team { name: s.clone(), slogan: s2.clone(), labels: Many::new(), words: Many::new(), autos: Many::new(), uuids: Many::new() } } else { sget(db.c(), s.clone()).expect("stored") };
                t.slogan = s2.clone();
                w.teams.insert(s.clone(), s2.clone());
                partly = Some(w.clone());
                if !w.team_labels.contains(&(s.clone(), k)) {
                    t.labels.add(&Label { code: k, text: String::new(), prio: None }).expect("add");
                    w.team_labels.insert((s.clone(), k));
                }
                if chance(r, 0.5) && !w.team_words.contains(&(s.clone(), s2.clone())) {
                    if let (Some(p), true) = (&mut partly, w.broken().is_none()) {
                        p.team_labels.insert((s.clone(), k));
                    }
                    t.words.add(&KText { key: s2.clone(), v: String::new(), n: None }).expect("add");
                    w.team_words.insert((s, s2));
                }
                run!(|c| ssave(&mut t, c))
            }
            _ => {
                if n == 0 && w.words.remove(&s) {
                    run!(|c| sdel(&KText { key: s.clone(), v: String::new(), n: None }, c))
                } else {
                    w.words.insert(s.clone());
                    run!(|c| ssave(&mut KText { key: s.clone(), v: s2.clone(), n: None }, c))
                }
            }
        };
        let why = w.broken();
        ctx.eval(1);
        let tell = |m: String| format!("{lane:?} {m}\n  before {before:?}\n  {}", log.join("\n  "));
        match (&res, why) {
            (Ok(Ok(())), None) => {
                ctx.count("model writes accepted", 1);
                match raw_world(db) {
                    Ok(got) if got == w => {}
                    got => return ctx.violation("model-contents", case, tell(format!("holds {got:?}\n  want {w:?}"))),
                }
                ctx.nontrivial(&(lane.name(), what, format!("{w:?}")));
            }
            (Ok(Err(_)), Some(why)) => {
                ctx.count(&format!("model writes refused: {why}"), 1);
                let now = db.dump();
                let got = raw_world(db);
                let kept = now == snapshot && got.as_ref() == Ok(&before);
                let part = !in_tx && partly.is_some() && got.as_ref().is_ok_and(|g| partly.as_ref() == Some(g) || g.teams == w.teams && World { teams: before.teams.clone(), ..g.clone() } == before);
                if !kept && !part {
                    return ctx.violation("model-refused-changed", case, tell(format!("{res:?} but now {got:?}")));
                }
                w = got.unwrap();
                ctx.nontrivial(&(lane.name(), what, why, format!("{w:?}")));
            }
            (Ok(Ok(())), Some(why)) => return ctx.violation(&format!("model-accepted-{why}"), case, tell(format!("accepted; {:?}", raw_world(db)))),
            (Ok(Err(e)), None) if engine_refusal(lane, e) => return ctx.count("refused by a defect of the Turso engine", 1),
            (Ok(Err(e)), None) => return ctx.violation("model-refused-sound", case, tell(format!("refused: {e:?}"))),
            (Err(p), _) => return ctx.violation("panic", case, tell(p.clone())),
        }
    }
    ctx.count("model histories", 1);
}

// --- writers in competition --------------------------------------------------------------
fn is_constraint(e: &butane::Error) -> bool {
    let e = format!("{e:?}").to_lowercase();
    e.contains("constraint") || e.contains("e23505") || e.contains("e23503") || e.contains("unique") || e.contains("foreign key")
}
fn race(ctx: &Ctx, db: &Db, r: &mut Rng, case: &str) {
    db.wipe();
    let lane = db.lane;
    let keys = 12usize;
    let threads = 4;
    for k in 0..keys {
        ssave(&mut Label { code: k as i32, text: String::new(), prio: None }, db.c()).expect("label");
    }
    // every thread starts with a row of its own, to be changed into the contested value
    for t in 0..threads {
        for k in 0..keys {
            ssave(&mut UniqText { name: format!("{t}.{k}"), slot: 1000 + (t * keys + k) as i64, v: 0 }, db.c()).expect("row");
        }
    }
    let plan: Vec<Vec<(usize, usize)>> = (0..threads)
        .map(|_| {
            let mut o: Vec<(usize, usize)> = (0..keys).map(|k| (k, below(r, 4))).collect();
            for i in 0..keys {
                if chance(r, 0.3) {
                    o.swap(i, below(r, keys));
                }
            }
            o
        })
        .collect();
    let barrier = Barrier::new(threads);
    let overlap = AtomicUsize::new(0);
    let wins: Mutex<BTreeMap<(&str, usize), Vec<(usize, String)>>> = Mutex::new(BTreeMap::new());
    let odd: Mutex<Vec<String>> = Mutex::new(vec![]);
    let busy = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for (t, plan) in plan.iter().enumerate() {
            let (barrier, overlap, wins, odd, busy, connstr) = (&barrier, &overlap, &wins, &odd, &busy, db.connstr.as_str());
            s.spawn(move || {
                let c = connect(lane, connstr);
                let c = c.expect("connection");
                let note = |what: &'static str, k: usize, res: Result<butane::Result<()>, String>| match res {
                    Ok(Ok(())) => wins.lock().unwrap().entry((what, k)).or_default().push((t, "done".into())),
                    Ok(Err(e)) if is_constraint(&e) => {
                        overlap.fetch_add(1, SeqCst);
                    }
                    Ok(Err(e)) => {
                        let text = format!("{e:?}").to_lowercase();
                        if text.contains("locked") || text.contains("busy") || text.contains("deadlock") {
                            busy.fetch_add(1, SeqCst);
                        } else {
                            odd.lock().unwrap().push(format!("{what} {k}: {e:?}"));
                        }
                    }
                    Err(p) => odd.lock().unwrap().push(format!("{what} {k}: panic {p}")),
                };
                barrier.wait();
                for (k, how) in plan {
                    let (k, how) = (*k, *how);
                    // one e-mail address for whoever is first
                    let mut u = Uniq { id: AutoPk::uninitialized(), email: format!("mail{k}"), code: None, owner: None, note: format!("{t}") };
                    note("email", k, catch(|| ssave(&mut u, &c)));
                    // one slot, taken by insert or update
                    let name = if how % 2 == 0 { format!("{t}.{k}") } else { format!("{t}.{k}.new") };
                    note("slot", k, catch(|| ssave(&mut UniqText { name, slot: k as i64, v: 1 }, &c)));
                    // what nobody else wants
                    let mut u = Uniq { id: AutoPk::uninitialized(), email: format!("own{t}.{k}"), code: Some((t * keys + k) as i32), owner: None, note: String::new() };
                    note("own", t * keys + k, catch(|| ssave(&mut u, &c)));
                    // refer to a label, or delete it
                    if t % 2 == 0 {
                        let mut o = OneToOne { id: AutoPk::uninitialized(), label: ForeignKey::from_pk(k as i32), v: t as i32 };
                        note("label", k, catch(|| ssave(&mut o, &c)));
                    } else {
                        let l = Label { code: k as i32, text: String::new(), prio: None };
                        let still = stry::<Label>(&c, k as i32);
                        if matches!(still, Ok(Some(_))) {
                            let gone = catch(|| sdel(&l, &c));
                            note("unlabel", k, gone);
                        }
                    }
                }
            });
        }
    });
    let wins = wins.into_inner().unwrap();
    let busy = busy.into_inner();
    let raw = |sql: &str| -> Vec<String> { db.raw_rows(sql).expect("rows").iter().map(|r| r.iter().map(|v| v.show()).collect::<Vec<_>>().join("|")).collect() };
    let odd = odd.into_inner().unwrap();
    if let Some(o) = odd.first() {
        return ctx.violation("race-refused-sound", case, format!("{lane:?} {o} ({} such)", odd.len()));
    }
    ctx.count("race losers", overlap.into_inner() as u64);
    ctx.count("race busy errors", busy as u64);
    let mails = raw("SELECT email FROM Uniq");
    let slots = raw("SELECT slot FROM UniqText WHERE slot < 1000");
    let labels = raw("SELECT code FROM Label");
    let ones = raw("SELECT label FROM OneToOne");
    let winners = |what, k| wins.get(&(what, k)).map_or(0, |v| v.len());
    let holds = |rows: &[String], v: String| rows.iter().filter(|x| **x == v).count();
    let text = |s: String| Raw::Text(s).show();
    let int = |i: i64| if lane == Lane::Pg { Raw::Text(i.to_string()).show() } else { Raw::Int(i).show() };
    let mut bad = vec![];
    for k in 0..keys {
        for (what, rows, v) in [("email", &mails, text(format!("mail{k}"))), ("slot", &slots, int(k as i64))] {
            let (n, w) = (holds(rows, v), winners(what, k));
            if n != w || n > 1 || n == 0 && busy == 0 {
                bad.push(format!("{what} {k}: {w} writers were told it is theirs, {n} rows hold it"));
            }
        }
        // a label is referred to or deleted, never both; deletions of what is gone are no matter
        let (there, refs, won) = (holds(&labels, int(k as i64)), holds(&ones, int(k as i64)), winners("label", k));
        if refs != won || refs > 1 || refs == 1 && there == 0 || there == 0 && winners("unlabel", k) == 0 || there == 1 && winners("unlabel", k) > 0 {
            bad.push(format!("label {k}: {won} accepted references, {refs} stored, {} accepted deletions, {there} stored", winners("unlabel", k)));
        }
    }
    for k in 0..threads * keys {
        let (i, j) = (k / keys, k % keys);
        let n = holds(&mails, text(format!("own{i}.{j}")));
        if n != winners("own", k) || n == 0 && busy == 0 {
            bad.push(format!("own{i}.{j}: accepted {}, stored {n}", winners("own", k)));
        }
    }
    ctx.eval((keys * 3 + threads * keys) as u64);
    for (k, v) in &wins {
        ctx.nontrivial(&(lane.name(), k, v));
    }
    ctx.count("races", 1);
    if !bad.is_empty() {
        ctx.violation("race", case, format!("{lane:?} {}", bad.join("\n  ")));
    }
}

fn main() {
    let ctx = Arc::new(Ctx::new("C20", 40, 900));
    ctx.rule("a refused write of a table of one shape, an accepted one, or a winner of a race");
    ctx.assume("keys given to an automatic one are beyond those which PostgreSQL's sequence reaches; Turso is not given tables which refer to themselves; SQLite chooses an integer key where a null is given for one, so nulls are not given for those; a save which also writes many-to-many rows is several statements, as documented, unless in a transaction");
    ctx.watchdog(120, None);
    ctx.parallel(&[(Lane::Sqlite, 0), (Lane::Pg, 0), (Lane::Turso, 0), (Lane::SqliteAdapted, 0), (Lane::Pg, 1), (Lane::Sqlite, 1)], |(lane, k)| {
        let mut keep = None;
        let mut db = Db::new(&ctx, lane);
        ctx.cases(&format!("schemas{k}/{}", lane.name()), 0.5, 5, 100_000, |case, r| any_schema(&ctx, lane, &mut keep, r, case));
        ctx.cases(&format!("models{k}/{}", lane.name()), 0.8, 5, 100_000, |case, r| compiled(&ctx, &mut db, r, case));
        if lane != Lane::Turso {
            ctx.cases(&format!("race{k}/{}", lane.name()), 1.0, 3, 100_000, |case, r| race(&ctx, &db, r, case));
        }
    });
    ctx.finish();
}
