//! C24: bulk deletes remove exactly the matching rows.
use butane::query::{BoolExpr, Expr, Query, QueryOpsSync};
use butane::{query, DataObjectOpsSync, DataResult, SqlVal};
use rtm::fixture::*;
use rtm::models::*;
use rtm::oracle::{Row, World};
use rtm::prelude::*;
use rtm::window;

fn all_rows(db: &Db, t: &'static Tbl) -> Result<Vec<Row>, String> {
    catch(|| load_rows(db.c(), t.name, QueryMod::default())).and_then(|r| r.map_err(|e| e.to_string()))
}
/// Keys of `t` that rows of other tables (or other rows of `t`) point to, per world.
fn referenced(w: &World, t: &str, gone: &[SqlVal]) -> bool {
    let refs: &[(&str, &str, &str)] = &[
        ("Book", "author", "Author"),
        ("Book", "editor", "Author"),
        ("Node", "parent", "Node"),
        ("Book_labels_Many", "owner", "Book"),
        ("Book_extra_Many", "owner", "Book"),
        ("Book_labels_Many", "has", "Label"),
        ("Book_extra_Many", "has", "Label"),
        ("Node_links_Many", "owner", "Node"),
        ("Node_links_Many", "has", "Node"),
        ("Team_labels_Many", "owner", "Team"),
        ("Team_words_Many", "owner", "Team"),
        ("Team_labels_Many", "has", "Label"),
        ("Team_words_Many", "has", "KText"),
    ];
    refs.iter().any(|(from, col, to)| {
        *to == t && w.tables[*from].iter().any(|r| gone.contains(&r[*col]) && !(*from == t && gone.contains(&r[tbl(t).pk])))
    })
}
fn mk<T: DataResult>(q: &QueryMod) -> Query<T> {
    let mut x = T::query();
    if let Some(e) = &q.filter {
        x = x.filter(e.clone());
    }
    for (c, asc) in &q.order {
        x = if *asc { x.order_asc(c) } else { x.order_desc(c) };
    }
    if let Some(l) = q.limit {
        x = x.limit(l);
    }
    if let Some(o) = q.offset {
        x = x.offset(o);
    }
    x
}
fn run_delete(c: &impl butane::db::ConnectionMethods, t: &str, q: &QueryMod, raw: bool) -> butane::Result<usize> {
    if raw {
        return c.delete_where(t, q.filter.clone().unwrap_or(BoolExpr::True));
    }
    match t {
        "Book" => mk::<Book>(q).delete(c),
        "Author" => mk::<Author>(q).delete(c),
        "Label" => mk::<Label>(q).delete(c),
        "Node" => mk::<Node>(q).delete(c),
        "KText" => mk::<KText>(q).delete(c),
        _ => mk::<Team>(q).delete(c),
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    Conn,
    Async,
    Commit,
    Rollback,
}
async fn run_delete_async(c: &impl butane::db::ConnectionMethodsAsync, t: &str, q: &QueryMod) -> butane::Result<usize> {
    use butane::query::QueryOpsAsync as Q;
    match t {
        "Book" => Q::delete(mk::<Book>(q), c).await,
        "Author" => Q::delete(mk::<Author>(q), c).await,
        "Label" => Q::delete(mk::<Label>(q), c).await,
        "Node" => Q::delete(mk::<Node>(q), c).await,
        "KText" => Q::delete(mk::<KText>(q), c).await,
        _ => Q::delete(mk::<Team>(q), c).await,
    }
}
#[allow(clippy::too_many_arguments)]
fn one(ctx: &Ctx, lane: Lane, db: &mut Db, aconn: &butane::db::ConnectionAsync, w: &mut World, t: &'static Tbl, q: QueryMod, via: Via, case: &str) {
    let what = format!("{lane:?} {via:?} delete {} {q:?}", t.name);
    // engines differ in whether they fold the case of table names
    let lower = |d: rtm::lane::Dump| -> rtm::lane::Dump { d.into_iter().map(|(k, v)| (k.to_lowercase(), v)).collect() };
    let tname = t.name.to_lowercase();
    let before = lower(db.dump());
    let rows_before = match all_rows(db, t) {
        Ok(r) => r,
        Err(e) => return ctx.violation("error-load", case, format!("{what}: {e}")),
    };
    if show_rows(rows_before.iter()) != show_rows(w.tables[t.name].iter()) {
        return ctx.inconclusive(format!("{case}: world and database differ before the delete"));
    }
    let raw = via == Via::Conn && q.limit.is_none() && q.offset.is_none() && case.ends_with('3');
    let res = catch(|| match via {
        Via::Conn => run_delete(db.c(), t.name, &q, raw),
        Via::Async => rt().block_on(run_delete_async(aconn, t.name, &q)),
        Via::Commit | Via::Rollback => {
            let tx = db.cm().transaction()?;
            let r = run_delete(&tx, t.name, &q, false);
            if via == Via::Commit && r.is_ok() {
                tx.commit()?;
            } else {
                tx.rollback()?;
            }
            r
        }
    });
    if ctx.replaying() {
        println!("{case} {what}: {res:?}");
    }
    ctx.eval(1);
    let after = lower(db.dump());
    let rows_after = match all_rows(db, t) {
        Ok(r) => r,
        Err(e) => return ctx.violation("error-load", case, format!("{what}: {e}")),
    };
    for (name, rows) in &before {
        if *name != tname && after.get(name) != Some(rows) {
            ctx.violation("other-table-changed", case, format!("{what}: table {name} changed\nbefore {rows:?}\n after {:?}", after.get(name)));
            return;
        }
    }
    if after.len() != before.len() {
        return ctx.violation("other-table-changed", case, format!("{what}: set of tables changed"));
    }
    let gone: Vec<Row> = rows_before.iter().filter(|r| !rows_after.contains(r)).cloned().collect();
    let unchanged = before[&tname] == after[&tname];
    match res {
        Err(p) => ctx.violation("panic", case, format!("{what}: {p}")),
        Ok(Err(e)) => {
            if !unchanged {
                ctx.violation("failed-delete-removed", case, format!("{what}: failed with {e} but removed {:?}", show_rows(gone.iter())));
            }
            // allowed only when something still points to a row to be removed
            let want: Vec<SqlVal> = window::rows(lane, w, t, &q).into_iter().map(|r| r[t.pk].clone()).collect();
            if lane == Lane::Turso && t.name == "Node" && !referenced(w, t.name, &want)
                && w.tables["Node"].iter().any(|r| want.contains(&r["parent"]) && want.contains(&r["id"]))
            {
                ctx.violation("turso-refuses-delete-of-self-referring-rows", case, format!("{what}: refused: {e:?}"));
            } else if !referenced(w, t.name, &want) {
                ctx.violation("error-delete", case, format!("{what}: refused: {e:?}"));
            } else {
                ctx.count(&format!("deletes refused by references {}", lane.name()), 1);
                if !want.is_empty() {
                    ctx.nontrivial(&(lane.name(), "refused", format!("{q:?}"), want.len()));
                }
            }
        }
        Ok(Ok(n)) => {
            if via == Via::Rollback {
                if !unchanged {
                    ctx.violation("rolled-back-delete", case, format!("{what}: rolled back but {:?} gone", show_rows(gone.iter())));
                }
                ctx.count("deletes rolled back", 1);
                return;
            }
            // the rows gone must be one window of the matching rows
            let mut sorted = gone.clone();
            sorted.sort_by(|a, b| window::cmp_rows(lane, &q.order, a, b));
            let matching: Vec<&Row> = match &q.filter {
                Some(f) => w.select(lane, t.name, f),
                None => w.tables[t.name].iter().collect(),
            };
            let total = w.tables[t.name].len();
            let verdict = window::check(lane, w, t, &q, &sorted);
            if let Err(m) = verdict {
                ctx.violation(
                    if q.limit.is_some() || q.offset.is_some() { "wrong-rows-window" } else { "wrong-rows" },
                    case,
                    format!("{what}: {m}\n gone {:?}\nmatching {:?}", show_rows(gone.iter()), show_rows(matching.iter().cloned())),
                );
            } else if rows_after.len() + gone.len() != rows_before.len() || after[&tname].len() != rows_after.len() {
                ctx.violation("wrong-rows", case, format!("{what}: other rows changed"));
            } else if lane == Lane::Turso && matches!(t.name, "Author" | "KText" | "Team") && n == 2 * gone.len() && n > 0 {
                // known: the engine counts the entry of a text key's index as another row
                ctx.violation("turso-counts-text-keyed-rows-twice", case, format!("{what}: reported {n}, {} rows gone", gone.len()));
            } else if n != gone.len() {
                ctx.violation("wrong-count", case, format!("{what}: reported {n}, {} rows gone", gone.len()));
            } else if n > 0 {
                ctx.nontrivial(&(lane.name(), format!("{q:?}"), show_rows(gone.iter())));
                ctx.count(&format!("rows deleted {}", lane.name()), n as u64);
                if n < total {
                    ctx.count(&format!("selective deletes {}", lane.name()), 1);
                }
                ctx.sample(format!("{what} -> {n} of {total} rows"));
            } else {
                ctx.count("deletes of nothing", 1);
            }
            w.tables.insert(t.name.into(), rows_after);
        }
    }
}
/// Deletes written with the macros.
fn macros(ctx: &Ctx, lane: Lane, db: &Db, r: &mut Rng, case: &str) {
    db.wipe();
    let mut kept = vec![];
    for i in 0..below(r, 12) {
        let mut k = KInt { id: i as i32, v: tiny(r), n: opt(r, 0.4, |r| small_i64(r)) };
        k.save(db.c()).unwrap();
        kept.push(k);
    }
    let v = if kept.is_empty() { tiny(r) } else { pick(r, &kept).v.clone() };
    let n = small_i64(r);
    macro_rules! t {
        ($name:literal, $q:expr, |$k:ident| $p:expr) => {{
            let want: Vec<KInt> = kept.iter().filter(|$k| !$p).cloned().collect();
            match catch(|| $q.delete(db.c())) {
                Ok(Ok(c)) => {
                    ctx.eval(1);
                    let mut now = KInt::query().load(db.c()).unwrap_or_default();
                    now.sort_by_key(|k| k.id);
                    if now != want || c != kept.len() - want.len() {
                        ctx.violation("wrong-rows-macro", case, format!("{lane:?} {} deleted {c}\n left {now:?}\n want {want:?}\n from {kept:?}", $name));
                    }
                    if c > 0 {
                        ctx.count("rows deleted by macro filters", c as u64);
                    }
                }
                o => ctx.violation("error-macro", case, format!("{lane:?} {}: {o:?}", $name)),
            }
            kept = want;
        }};
    }
    t!("none", query!(KInt, n == None && v == { v.clone() }), |k| k.n.is_none() && k.v == v);
    t!("or-and", query!(KInt, v == { v.clone() } && id > 5 || n < { n }), |k| k.v == v && k.id > 5 || k.n.map(|x| x < n).unwrap_or(false));
    t!("in", query!(KInt, id.is_in(vec![1, 2, 3])), |k| [1, 2, 3].contains(&k.id));
    t!("in-nothing", query!(KInt, id.is_in(Vec::<i32>::new())), |k| false && k.id == 0);
    t!("all", KInt::query(), |k| k.id >= 0);
}

fn main() {
    let ctx = Arc::new(Ctx::new("C24", 25, 600));
    ctx.rule("a delete counts when it removes a row, or is refused with rows matching; distinct by backend, query and rows removed");
    ctx.assume("a delete whose rows are referenced may be refused by the backend; then nothing may be gone");
    ctx.watchdog(120, None);
    ctx.parallel(&Lane::ALL, |lane| {
        let mut db = Db::new(&ctx, lane);
        let aconn = rt().block_on(connect_async(lane, &db.connstr)).expect("async connection");
        ctx.cases(lane.name(), 1.0, 3, 100_000, |case, r| {
            macros(&ctx, lane, &db, r, case);
            db.wipe();
            let mut lib = Library::generate(r, 14);
            // leave many rows unreferenced
            if chance(r, 0.6) {
                for (b, l, e) in &mut lib.books {
                    l.clear();
                    e.clear();
                    b.labels = butane::Many::new();
                    b.extra = butane::Many::new();
                }
                for n in &mut lib.nodes {
                    n.2.clear();
                    if chance(r, 0.7) {
                        n.1 = None;
                    }
                }
                for (t, l, k) in &mut lib.teams {
                    l.clear();
                    k.clear();
                    t.labels = butane::Many::new();
                    t.words = butane::Many::new();
                }
            }
            if let Err(e) = lib.store(db.c()) {
                ctx.violation("store", case, format!("{lane:?} storing the library failed: {e:?}"));
                return;
            }
            let mut w = lib.world();
            for i in 0..14 {
                let case = format!("{case}/d{i}");
                let t: &'static Tbl = *pick(r, &[&BOOK, &BOOK, &BOOK, &AUTHOR, &LABEL, &NODE, &KTEXT, &TEAM]);
                let n = w.tables[t.name].len();
                let d = below(r, 4);
                let windowed = chance(r, 0.2);
                let mut q = QueryMod {
                    filter: if chance(r, 0.95) { Some(expr(r, &w, t, d)) } else { None },
                    order: vec![],
                    limit: if windowed { window::bound(r, n) } else { None },
                    offset: if windowed { window::bound(r, n) } else { None },
                };
                // keep rows for later: prefer narrow filters
                if chance(r, 0.5) && n > 0 {
                    let k = w.tables[t.name][below(r, n)][t.pk].clone();
                    q.filter = Some(match q.filter {
                        Some(e) if chance(r, 0.5) => BoolExpr::Or(
                            Box::new(BoolExpr::Eq(t.pk, Expr::Val(k.clone()))),
                            Box::new(BoolExpr::And(Box::new(BoolExpr::Eq(t.pk, Expr::Val(k))), Box::new(e))),
                        ),
                        Some(e) => BoolExpr::And(Box::new(e), Box::new(BoolExpr::Ne(t.pk, Expr::Val(k)))),
                        None => BoolExpr::In(t.pk, vec![k]),
                    });
                }
                if windowed {
                    q.order = window::order(r, t, true);
                }
                let via = *pick(r, &[Via::Conn, Via::Conn, Via::Conn, Via::Async, Via::Commit, Via::Rollback]);
                one(&ctx, lane, &mut db, &aconn, &mut w, t, q, via, &case);
            }
            ctx.count(&format!("worlds {}", lane.name()), 1);
        });
    });
    ctx.finish();
}
