//! C02: ordering, limit and offset denote one window of the result.
use butane::query::{BoolExpr, OrderDirection, Query, QueryOpsSync};
use butane::{colname, DataResult};
use rtm::fixture::*;
use rtm::models::*;
use rtm::oracle::{Row, World};
use rtm::prelude::*;
use rtm::window;

trait AsRow: DataResult {
    fn row(&self) -> Row;
}
impl AsRow for Book {
    fn row(&self) -> Row {
        book_row(self)
    }
}
impl AsRow for Author {
    fn row(&self) -> Row {
        author_row(self)
    }
}
impl AsRow for Label {
    fn row(&self) -> Row {
        label_row(self)
    }
}
fn build<T: DataResult>(q: &QueryMod, r: &mut Rng) -> Query<T> {
    let mut x = T::query();
    // the builder steps may come in any sequence
    let mut steps: Vec<u8> = vec![0, 1, 2, 3];
    steps.shuffle(r);
    for s in steps {
        match s {
            0 => {
                if let Some(e) = &q.filter {
                    x = x.filter(e.clone());
                }
            }
            1 => {
                for (c, asc) in &q.order {
                    x = match (r.random::<bool>(), *asc) {
                        (true, true) => x.order_asc(c),
                        (true, false) => x.order_desc(c),
                        (false, true) => x.order(c, OrderDirection::Ascending),
                        (false, false) => x.order(c, OrderDirection::Descending),
                    };
                }
            }
            2 => {
                if let Some(l) = q.limit {
                    if r.random_bool(0.1) {
                        x = x.limit(7); // the later call wins
                    }
                    x = x.limit(l);
                }
            }
            _ => {
                if let Some(o) = q.offset {
                    x = x.offset(o);
                }
            }
        }
    }
    x
}
fn one<T: AsRow>(ctx: &Ctx, lane: Lane, db: &Db, aconn: &butane::db::ConnectionAsync, w: &World, t: &'static Tbl, q: QueryMod, r: &mut Rng, case: &str) {
    let query: Query<T> = build(&q, r);
    let what = format!("{lane:?} {} {q:?}", t.name);
    let mut run = |name: &str, f: &mut dyn FnMut() -> butane::Result<Vec<Row>>, q: &QueryMod| match catch(|| f()) {
        Err(p) => ctx.violation("panic", case, format!("{what} {name}: {p}")),
        Ok(Err(e)) => ctx.violation("error", case, format!("{what} {name}: {e}")),
        Ok(Ok(rows)) => {
            ctx.eval(1);
            match window::check(lane, w, t, q, &rows) {
                Err(m) => ctx.violation(
                    &format!("wrong-window-{name}"),
                    case,
                    format!("{what} {name}: {m}\n got {:?}", rows.iter().map(show_row).collect::<Vec<_>>()),
                ),
                Ok(n) => {
                    let all = w.tables[t.name].len();
                    if n > 0 && (n < all || (!q.order.is_empty() && n > 1)) {
                        ctx.nontrivial(&(lane.name(), t.name, format!("{q:?}"), n));
                        ctx.count(&format!("windows {}", lane.name()), 1);
                        ctx.count(&format!("by {name}"), 1);
                    } else {
                        ctx.count("trivial windows", 1);
                    }
                }
            }
        }
    };
    let copy = query.clone();
    run("load", &mut || Ok(query.clone().load(db.c())?.iter().map(|x| x.row()).collect()), &q);
    let mut first = q.clone();
    first.limit = Some(q.limit.map(|l| l.min(1)).unwrap_or(1));
    run("load_first", &mut || Ok(query.clone().load_first(db.c())?.iter().map(|x| x.row()).collect()), &first);
    run("load-clone", &mut || Ok(copy.clone().load(db.c())?.iter().map(|x| x.row()).collect()), &q);
    run(
        "load-async",
        &mut || rt().block_on(async { Ok(butane::query::QueryOpsAsync::load(query.clone(), aconn).await?.iter().map(|x| x.row()).collect()) }),
        &q,
    );
    run(
        "load_first-async",
        &mut || rt().block_on(async { Ok(butane::query::QueryOpsAsync::load_first(query.clone(), aconn).await?.iter().map(|x| x.row()).collect()) }),
        &first,
    );
    // a narrower copy does not change the original
    let _ = copy.clone().limit(1).offset(1).order_desc(t.pk).filter(BoolExpr::Not(Box::new(BoolExpr::True)));
    run("load-reused", &mut || Ok(query.clone().load(db.c())?.iter().map(|x| x.row()).collect()), &q);
    ctx.sample(what);
}

fn main() {
    let ctx = Arc::new(Ctx::new("C02", 20, 600));
    ctx.rule("a window counts as non-trivial when it is non-empty and either leaves rows out or sorts more than one row; distinct by backend, query and size");
    ctx.assume("nulls sort first ascending on SQLite/Turso and last on PostgreSQL; text sorts bytewise (C locale); within ties of the sort any order is right; limits and offsets are not negative");
    ctx.watchdog(120, None);
    assert_eq!((colname!(Book, title), colname!(Book, id)), ("title", "id"));
    ctx.parallel(&Lane::ALL, |lane| {
        let db = Db::new(&ctx, lane);
        let aconn = rt().block_on(connect_async(lane, &db.connstr)).expect("async connection");
        ctx.cases(lane.name(), 1.0, 3, 100_000, |case, r| {
            db.wipe();
            let mut lib = Library::generate(r, 14);
            if let Err(e) = lib.store(db.c()) {
                ctx.violation("store", case, format!("{lane:?} storing the library failed: {e:?}"));
                return;
            }
            let w = lib.world();
            for i in 0..40 {
                let case = format!("{case}/q{i}");
                let t: &'static Tbl = *pick(r, &[&BOOK, &BOOK, &BOOK, &AUTHOR, &LABEL]);
                let n = w.tables[t.name].len();
                let d = below(r, 3);
                let total = chance(r, 0.6);
                let q = QueryMod {
                    filter: if chance(r, 0.5) { Some(expr(r, &w, t, d)) } else { None },
                    order: window::order(r, t, total),
                    limit: window::bound(r, n),
                    offset: window::bound(r, n),
                };
                match t.name {
                    "Book" => one::<Book>(&ctx, lane, &db, &aconn, &w, t, q, r, &case),
                    "Author" => one::<Author>(&ctx, lane, &db, &aconn, &w, t, q, r, &case),
                    _ => one::<Label>(&ctx, lane, &db, &aconn, &w, t, q, r, &case),
                }
            }
            ctx.count(&format!("worlds {}", lane.name()), 1);
        });
    });
    ctx.finish();
}
