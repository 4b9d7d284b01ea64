//! Several result sets open at once, stepped, stopped early, dropped in any order, with writes in between.
//! Every row carries its table, key and version in all its columns, so that a row which is not what it
//! claims to be is noticed, and a model knows which rows each result set must yield.
use crate::Rng;
use butane_core::db::*;
use butane_core::query::{BoolExpr, Expr, Order, OrderDirection};
use butane_core::{SqlType, SqlVal, SqlValRef};
use std::collections::{BTreeMap, BTreeSet};

pub trait Sink {
    fn bad(&self, sig: &str, msg: String);
    fn count(&self, name: &str, n: u64);
    /// something distinct was seen
    fn seen(&self, what: u64);
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Kind {
    /// rows come from the engine as they are asked for, not from a buffer
    pub streaming: bool,
    /// SQLite in some form
    pub sqlite: bool,
    /// others write to the same file
    pub shared: bool,
    pub blob: &'static str,
}
pub struct World {
    pub names: [&'static str; 2],
    pub rows: [BTreeMap<i64, i64>; 2],
    pub next: i64,
}
pub const COLS: [Column; 4] = [
    Column::new("id", SqlType::BigInt),
    Column::new("n", SqlType::BigInt),
    Column::new("v", SqlType::Text),
    Column::new("b", SqlType::Blob),
];
pub fn text(t: &str, id: i64, n: i64) -> String {
    let mut s = format!("{t}:{id}:{n}:");
    let want = s.len() + (id.wrapping_mul(31).wrapping_add(n.wrapping_mul(17)) as usize) % 700;
    let mut i = id as u8;
    while s.len() < want {
        s.push((b'a' + i % 26) as char);
        i = i.wrapping_add(7);
    }
    s
}
pub fn bytes(t: &str, id: i64, n: i64) -> Vec<u8> {
    let mut v = text(t, id, n).into_bytes();
    v.reverse();
    v
}
static NAMES: std::sync::Mutex<BTreeSet<&'static str>> = std::sync::Mutex::new(BTreeSet::new());
/// Names live as long as the program, which still knows them at its end.
fn kept(s: String) -> &'static str {
    let mut names = NAMES.lock().unwrap();
    if let Some(n) = names.get(s.as_str()) {
        return n;
    }
    let n: &'static str = Box::leak(s.into_boxed_str());
    names.insert(n);
    n
}
pub fn setup(c: &dyn ConnectionMethods, k: Kind, tag: &str) -> butane_core::Result<World> {
    let names = [kept(format!("ra{tag}")), kept(format!("rb{tag}"))];
    for t in names {
        let pk = if k.sqlite { "INTEGER" } else { "BIGINT" };
        c.execute(&format!("CREATE TABLE {t} (id {pk} NOT NULL PRIMARY KEY, n BIGINT NOT NULL, v TEXT NOT NULL, b {} NOT NULL)", k.blob))?;
    }
    if k.streaming {
        // fails at one row
        c.execute(&format!(
            "CREATE VIEW {0}_bad AS SELECT id, CASE WHEN id % 10 = 3 THEN abs(-9223372036854775807 - 1) ELSE n END AS n, v, b FROM {0}",
            names[0]
        ))?;
    }
    Ok(World { names, rows: Default::default(), next: 1 })
}
struct Cur<'c> {
    rows: RawQueryResult<'c>,
    t: usize,
    /// what was there when it was made, in its order
    want: Vec<(i64, i64)>,
    /// keys written since, if the rows come from the engine as they are asked for
    touched: BTreeSet<i64>,
    written: bool,
    /// 0 key, 1 key backwards, 2 version
    order: u64,
    limited: bool,
    bad_view: bool,
    loose: bool,
    got: Vec<(i64, i64)>,
    done: bool,
    failed: bool,
}
fn busy(e: &butane_core::Error) -> bool {
    let s = e.to_string();
    s.contains("locked") || s.contains("busy")
}
fn check_row(row: &dyn BackendRow, t: &str, r: &mut Rng) -> Result<(i64, i64), String> {
    if row.len() != 4 {
        return Err(format!("{} columns", row.len()));
    }
    let id = match row.get(0, SqlType::BigInt) {
        Ok(SqlValRef::BigInt(i)) => i,
        x => return Err(format!("key {x:?}")),
    };
    let n = match row.get(1, SqlType::BigInt) {
        Ok(SqlValRef::BigInt(i)) => i,
        x => return Err(format!("version {x:?}")),
    };
    match row.get(2, SqlType::Text) {
        Ok(SqlValRef::Text(s)) if s == text(t, id, n) => {}
        x => return Err(format!("text {x:?} of {t} {id} {n}")),
    }
    match row.get(3, SqlType::Blob) {
        Ok(SqlValRef::Blob(s)) if s == bytes(t, id, n) => {}
        x => return Err(format!("blob {x:?} of {t} {id} {n}")),
    }
    if r.chance(5) {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (row.get(4, SqlType::Text).is_ok(), matches!(row.get(2, SqlType::BigInt), Ok(SqlValRef::BigInt(_))), row.get(usize::MAX, SqlType::Int).is_ok())));
        match r {
            Ok((false, false, false)) => {}
            x => return Err(format!("columns out of range or text read as a number: {x:?}")),
        }
    }
    Ok((id, n))
}
impl Cur<'_> {
    fn step(&mut self, w: &World, r: &mut Rng, sink: &dyn Sink) -> bool {
        let t = w.names[self.t];
        let before = self.got.last().copied();
        let was_done = self.done;
        let res = self.rows.next().map(|row| row.map(|row| check_row(row, t, r)));
        sink.count("steps", 1);
        let tell = |c: &Cur, m: String| format!("{m}; got {:?} want {:?} touched {:?} order {} limited {}", c.got, c.want, c.touched, c.order, c.limited);
        match res {
            Ok(Some(Ok((id, n)))) => {
                if was_done || self.failed {
                    sink.bad("row-after-end", tell(self, format!("{t} {id} {n}")));
                    return false;
                }
                match self.rows.current().map(|row| check_row(row, t, r)) {
                    Some(Ok(x)) if x == (id, n) => {}
                    x => {
                        sink.bad("current", tell(self, format!("current is {x:?} after {t} {id} {n}")));
                        return false;
                    }
                }
                self.got.push((id, n));
                let at = self.got.len() - 1;
                let stable = !self.written && !self.loose;
                if stable && self.want.get(at) != Some(&(id, n)) {
                    sink.bad("rows", tell(self, format!("yielded {t} {id} {n}")));
                    return false;
                }
                if let (false, Some((b, _)), 0 | 1) = (stable, before, self.order) {
                    if (self.order == 0) != (id > b) || id == b {
                        sink.bad("order", tell(self, format!("yielded {t} {id} after {b}")));
                        return false;
                    }
                }
                sink.count("rows", 1);
            }
            Ok(Some(Err(e))) => {
                sink.bad("row", tell(self, e));
                return false;
            }
            Ok(None) => {
                if self.rows.current().is_some() {
                    sink.bad("current-at-end", tell(self, "current row after the end".into()));
                    return false;
                }
                if !was_done && !self.failed && !self.loose {
                    if self.bad_view && self.want.iter().any(|(id, _)| id % 10 == 3) && !self.written && !self.limited {
                        sink.bad("failure-lost", tell(self, "a row which fails was passed over".into()));
                        return false;
                    }
                    if !self.written && self.got != self.want {
                        sink.bad("rows-missing", tell(self, "ended".into()));
                        return false;
                    }
                    if self.written && !self.limited && self.order < 2 && !self.bad_view {
                        let missing: Vec<_> = self.want.iter().filter(|x| !self.touched.contains(&x.0) && !self.got.contains(x)).collect();
                        if !missing.is_empty() {
                            sink.bad("rows-missing", tell(self, format!("ended without {missing:?}")));
                            return false;
                        }
                    }
                    sink.count("result sets seen to the end", 1);
                    sink.seen(hash(&self.want) ^ self.order);
                } else {
                    sink.count("steps beyond the end", 1);
                }
                self.done = true;
            }
            Err(e) => {
                let planned = self.bad_view && (self.written || self.limited || self.order == 2 || self.want.get(self.got.len()).is_some_and(|(id, _)| id % 10 == 3));
                if !planned && !self.loose {
                    sink.bad("step-failed", tell(self, format!("{t}: {e}")));
                    return false;
                }
                sink.count("steps failed", 1);
                self.failed = true;
            }
        }
        true
    }
}
pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// Returns false when something was wrong.
pub fn session(c: &dyn ConnectionMethods, w: &mut World, r: &mut Rng, k: Kind, steps: u64, in_tx: bool, sink: &dyn Sink) -> bool {
    let mut curs: Vec<Cur> = vec![];
    let mut raw_tx: Option<[BTreeMap<i64, i64>; 2]> = None;
    let mut most = 0;
    for _ in 0..steps {
        match r.below(20) {
            0..=3 if curs.len() < 8 => {
                let t = r.below(2) as usize;
                let order = r.below(3);
                let (limit, offset) = match r.below(4) {
                    0 => (Some(r.below(6) as i32), if r.chance(50) { Some(r.below(4) as i32) } else { None }),
                    _ => (None, None),
                };
                let from = r.below(w.next as u64 + 1) as i64;
                let (expr, keep): (Option<BoolExpr>, Box<dyn Fn(i64, i64) -> bool>) = match r.below(4) {
                    0 => (Some(BoolExpr::Ge("id", Expr::Val(SqlVal::BigInt(from)))), Box::new(move |id, _| id >= from)),
                    1 => {
                        let s = text(w.names[t], from, 1);
                        let u = s.clone();
                        let name = w.names[t];
                        (Some(BoolExpr::Ne("v", Expr::Val(SqlVal::Text(s)))), Box::new(move |id, n| text(name, id, n) != u))
                    }
                    _ => (None, Box::new(|_, _| true)),
                };
                let mut want: Vec<(i64, i64)> = w.rows[t].iter().map(|(a, b)| (*a, *b)).filter(|(a, b)| keep(*a, *b)).collect();
                match order {
                    0 => {}
                    1 => want.reverse(),
                    _ => want.sort_by_key(|(id, n)| (*n, *id)),
                }
                if let Some(l) = limit {
                    want = want.into_iter().skip(offset.unwrap_or(0) as usize).take(l as usize).collect();
                }
                let bad_view = k.streaming && t == 0 && r.chance(15);
                let asc = |column| Order { direction: OrderDirection::Ascending, column };
                let sort = match order {
                    0 => vec![asc("id")],
                    1 => vec![Order { direction: OrderDirection::Descending, column: "id" }],
                    _ => vec![asc("n"), asc("id")],
                };
                let name = if bad_view { format!("{}_bad", w.names[t]) } else { w.names[t].to_string() };
                match c.query(&name, &COLS, expr, limit, offset, Some(&sort)) {
                    Ok(rows) => {
                        if rows.current().is_some() {
                            sink.bad("current-at-start", format!("{name} has a current row before the first"));
                            return false;
                        }
                        let loose = bad_view && order == 2;
                        curs.push(Cur { rows, t, want, touched: Default::default(), written: false, order, limited: limit.is_some(), bad_view, loose, got: vec![], done: false, failed: false });
                        sink.count("result sets", 1);
                    }
                    Err(e) if k.shared && busy(&e) => sink.count("busy", 1),
                    Err(e) => {
                        sink.bad("query-failed", format!("{name}: {e}"));
                        return false;
                    }
                }
                most = most.max(curs.len() as u64);
            }
            4..=9 if !curs.is_empty() => {
                let i = r.below(curs.len() as u64) as usize;
                let n = if r.chance(20) { 100 } else { 1 + r.below(4) };
                for _ in 0..n {
                    if !curs[i].step(w, r, sink) {
                        return false;
                    }
                    if curs[i].done || curs[i].failed {
                        break;
                    }
                }
            }
            10 | 11 if !curs.is_empty() => {
                let i = r.below(curs.len() as u64) as usize;
                let c = curs.remove(i);
                sink.count(if c.done { "dropped at the end" } else { "dropped early" }, 1);
                sink.seen(hash(&(c.got.len(), c.want.len(), c.order, c.written, i)));
                drop(c);
            }
            12 => match r.below(8) {
                0 if !curs.is_empty() => {
                    // unwinding past some of them
                    let n = curs.len() - r.below(curs.len() as u64) as usize;
                    let taken: Vec<Cur> = curs.drain(..n).collect();
                    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                        let _taken = taken;
                        std::panic::panic_any("planned panic");
                    }));
                    assert!(e.is_err());
                    sink.count("unwound", n as u64);
                }
                1 => {
                    let _ = c.has_table(w.names[0]).map(|h| {
                        if !h {
                            sink.bad("has_table", "table not there".into())
                        }
                    });
                }
                2 if k.sqlite && !k.shared => {
                    // changes the schema below open statements; may be refused while they are open
                    let t = format!("tmp{}", r.below(3));
                    let _ = c.execute(&format!("CREATE TABLE {t} (x INTEGER)"));
                    let _ = c.execute(&format!("DROP TABLE {t}"));
                }
                3 if k.streaming && !k.shared && !in_tx && raw_tx.is_none() => {
                    if c.execute("BEGIN").is_ok() {
                        raw_tx = Some(w.rows.clone());
                    }
                }
                4..=6 => {
                    if let Some(old) = raw_tx.take() {
                        let undo = r.chance(60);
                        if let Err(e) = c.execute(if undo { "ROLLBACK" } else { "COMMIT" }) {
                            sink.bad("end-failed", format!("{e}"));
                            return false;
                        }
                        if undo {
                            w.rows = old;
                            for c in &mut curs {
                                // may fail, and may have seen what is undone
                                c.loose = true;
                            }
                            sink.count("undone below open result sets", curs.len() as u64);
                        }
                    }
                }
                _ => {
                    // a short one while the others are open
                    let t = r.below(2) as usize;
                    let want = w.rows[t].len();
                    match c.query(w.names[t], &COLS, None, None, None, None) {
                        Ok(mut rows) => {
                            let mut n = 0;
                            while let Ok(Some(row)) = rows.next() {
                                if let Err(e) = check_row(row, w.names[t], r) {
                                    sink.bad("row", e);
                                    return false;
                                }
                                n += 1;
                            }
                            if n != want {
                                sink.bad("rows-missing", format!("{n} rows of {want}"));
                                return false;
                            }
                        }
                        Err(e) if k.shared && busy(&e) => {}
                        Err(e) => {
                            sink.bad("query-failed", format!("{e}"));
                            return false;
                        }
                    }
                }
            },
            _ => {
                let t = r.below(2) as usize;
                let name = w.names[t];
                let old = if w.rows[t].is_empty() || r.chance(40) { None } else { w.rows[t].keys().nth(r.below(w.rows[t].len() as u64) as usize).copied() };
                let id = old.unwrap_or(w.next);
                let n = 1 + w.rows[t].get(&id).copied().unwrap_or(0);
                let (v, b) = (text(name, id, n), bytes(name, id, n));
                let vals = [SqlValRef::BigInt(id), SqlValRef::BigInt(n), SqlValRef::Text(&v), SqlValRef::Blob(&b)];
                let mut gone = BTreeSet::new();
                let res = match (old, r.below(4)) {
                    (None, 0) => c.insert_returning_pk(name, &COLS, &COLS[0], &vals).map(|pk| {
                        if pk != SqlVal::BigInt(id) {
                            sink.bad("key", format!("{pk:?} for {id}"));
                        }
                    }),
                    (None, _) => c.insert_only(name, &COLS, &vals),
                    (Some(_), 0) => c.insert_or_replace(name, &COLS, &COLS[0], &vals),
                    (Some(_), 1 | 2) => c.update(name, COLS[0].clone(), SqlValRef::BigInt(id), &COLS[1..], &vals[1..]),
                    (Some(_), _) => {
                        let upto = id + r.below(3) as i64;
                        gone = w.rows[t].range(id..=upto).map(|x| *x.0).collect();
                        c.delete_where(name, BoolExpr::And(Box::new(BoolExpr::Ge("id", Expr::Val(SqlVal::BigInt(id)))), Box::new(BoolExpr::Le("id", Expr::Val(SqlVal::BigInt(upto)))))).map(|n| {
                            if n != gone.len() {
                                sink.bad("deleted", format!("{n} rows for {gone:?}"));
                            }
                        })
                    }
                };
                match res {
                    Ok(()) => {
                        sink.count("writes", 1);
                        sink.count("writes with open result sets", !curs.is_empty() as u64);
                        w.next += 1;
                        if gone.is_empty() {
                            w.rows[t].insert(id, n);
                            gone.insert(id);
                        } else {
                            w.rows[t].retain(|k, _| !gone.contains(k));
                        }
                        if k.streaming {
                            for c in curs.iter_mut().filter(|c| c.t == t) {
                                c.written = true;
                                c.touched.extend(&gone);
                            }
                        }
                    }
                    Err(e) if k.shared && busy(&e) => sink.count("busy", 1),
                    Err(e) => {
                        sink.bad("write-failed", format!("{name}: {e}"));
                        return false;
                    }
                }
            }
        }
    }
    sink.count("most open at once, summed", most);
    // let go in any order
    while !curs.is_empty() {
        let i = r.below(curs.len() as u64) as usize;
        if r.chance(30) {
            for _ in 0..200 {
                if curs[i].done || curs[i].failed {
                    break;
                }
                if !curs[i].step(w, r, sink) {
                    return false;
                }
            }
        }
        drop(curs.swap_remove(i));
    }
    if let Some(old) = raw_tx {
        if let Err(e) = c.execute("ROLLBACK") {
            sink.bad("end-failed", format!("{e}"));
            return false;
        }
        w.rows = old;
    }
    true
}
/// The tables hold what the model says.
pub fn compare(c: &dyn ConnectionMethods, w: &World, r: &mut Rng, sink: &dyn Sink) -> bool {
    for t in 0..2 {
        let mut got = BTreeMap::new();
        match c.query(w.names[t], &COLS, None, None, None, None) {
            Ok(mut rows) => loop {
                match rows.next() {
                    Ok(Some(row)) => match check_row(row, w.names[t], r) {
                        Ok((id, n)) => {
                            got.insert(id, n);
                        }
                        Err(e) => {
                            sink.bad("row", e);
                            return false;
                        }
                    },
                    Ok(None) => break,
                    Err(e) => {
                        sink.bad("step-failed", format!("{e}"));
                        return false;
                    }
                }
            },
            Err(e) => {
                sink.bad("query-failed", format!("{e}"));
                return false;
            }
        }
        if got != w.rows[t] {
            sink.bad("contents", format!("{} holds {got:?}, not {:?}", w.names[t], w.rows[t]));
            return false;
        }
    }
    true
}
/// Sessions on a connection of one's own, in and outside transactions.
pub fn connection(conn: &mut Connection, w: &mut World, r: &mut Rng, k: Kind, steps: u64, sink: &dyn Sink) -> bool {
    if !k.shared && r.chance(40) {
        let old = w.rows.clone();
        let tr = match conn.transaction() {
            Ok(t) => t,
            Err(e) => {
                sink.bad("begin-failed", format!("{e}"));
                return false;
            }
        };
        if !session(&tr, w, r, k, steps, true, sink) {
            return false;
        }
        sink.count("transactions", 1);
        let keep = r.below(4);
        let res = match keep {
            0 | 1 => tr.commit(),
            2 => {
                w.rows = old;
                tr.rollback()
            }
            _ => {
                w.rows = old;
                drop(tr);
                Ok(())
            }
        };
        if let Err(e) = res {
            sink.bad("end-failed", format!("{keep}: {e}"));
            return false;
        }
        true
    } else {
        session(&*conn, w, r, k, steps, false, sink)
    }
}
