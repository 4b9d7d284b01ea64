//! C23: partial views equal the full objects.
use butane::query::{Query, QueryOpsSync};
use butane::{DataResult, SqlVal, ToSql};
use rtm::fixture::*;
use rtm::models::*;
use rtm::oracle::{Row, World};
use rtm::prelude::*;
use rtm::window;

/// A projection of a stored row: the columns of the view, in the view's order.
type Proj = Vec<(&'static str, SqlVal)>;
trait View: DataResult {
    const NAME: &'static str;
    const COLS: &'static [&'static str];
    fn proj(&self) -> Proj;
}
macro_rules! view {
    ($t:ident, $($f:ident),*) => {
        impl View for $t {
            const NAME: &'static str = stringify!($t);
            const COLS: &'static [&'static str] = &[$(stringify!($f)),*];
            fn proj(&self) -> Proj { vec![$((stringify!($f), self.$f.to_sql())),*] }
        }
    };
}
view!(BookBrief, id, title, price);
view!(BookReordered, rating, big, title, sub, pages, id, instock, year);
view!(BookRel, editor, id, author);
view!(BookOne, year);
view!(AuthorBio, bio, name);

fn build<T: DataResult>(q: &QueryMod) -> Query<T> {
    let mut x = T::query();
    if let Some(e) = &q.filter {
        x = x.filter(e.clone());
    }
    for (c, asc) in &q.order {
        x = if *asc { x.order_asc(c) } else { x.order_desc(c) };
    }
    if let Some(l) = q.limit {
        x = x.limit(l);
    }
    if let Some(o) = q.offset {
        x = x.offset(o);
    }
    x
}
fn project(row: &Row, cols: &[&'static str]) -> Proj {
    cols.iter().map(|c| (*c, row[*c].clone())).collect()
}
fn one<T: View>(ctx: &Ctx, lane: Lane, db: &Db, aconn: &butane::db::ConnectionAsync, w: &World, t: &'static Tbl, mut q: QueryMod, r: &mut Rng, case: &str) {
    // a total order makes the window one sequence
    q.order.push((t.pk, r.random()));
    let what = format!("{lane:?} {} {q:?}", T::NAME);
    // what the full objects hold
    let full = match catch(|| load_rows(db.c(), t.name, q.clone())) {
        Ok(Ok(rows)) => rows,
        o => return ctx.violation("error-full", case, format!("{what} full: {:?}", o.map(|r| r.map(|v| v.len())))),
    };
    if let Err(m) = window::check(lane, w, t, &q, &full) {
        // C02's business, but the comparison below would be meaningless
        return ctx.violation("full-objects-wrong", case, format!("{what} full: {m}"));
    }
    let want: Vec<Proj> = full.iter().map(|r| project(r, T::COLS)).collect();
    let query: Query<T> = build(&q);
    let mut run = |name: &str, f: &mut dyn FnMut() -> butane::Result<Vec<Proj>>, want: &[Proj]| match catch(|| f()) {
        Err(p) => ctx.violation("panic", case, format!("{what} {name}: {p}")),
        Ok(Err(e)) => ctx.violation("error", case, format!("{what} {name}: {e}")),
        Ok(Ok(got)) => {
            ctx.eval(1);
            ctx.count(&format!("view {}", T::NAME), 1);
            if got != want {
                ctx.violation(&format!("view-differs-{name}"), case, format!("{what} {name}\n got {got:?}\nwant {want:?}"));
            } else if !want.is_empty() {
                ctx.nontrivial(&(lane.name(), T::NAME, name, format!("{want:?}")));
                ctx.count(&format!("rows compared {}", lane.name()), want.len() as u64);
                ctx.sample(format!("{what}: {:?}", want[0]));
            }
        }
    };
    run("load", &mut || Ok(query.clone().load(db.c())?.iter().map(|x| x.proj()).collect()), &want);
    let nfirst = if q.limit == Some(0) { 0 } else { want.len().min(1) };
    run("load_first", &mut || Ok(query.clone().load_first(db.c())?.iter().map(|x| x.proj()).collect()), &want[..nfirst]);
    run(
        "async",
        &mut || rt().block_on(async { Ok(butane::query::QueryOpsAsync::load(query.clone(), aconn).await?.iter().map(|x| x.proj()).collect()) }),
        &want,
    );
    // a count without order is still the same rows
    let unordered = QueryMod { order: vec![], limit: None, offset: None, ..q.clone() };
    let mut all: Vec<Proj> = match load_rows(db.c(), t.name, unordered.clone()) {
        Ok(v) => v.iter().map(|r| project(r, T::COLS)).collect(),
        Err(e) => return ctx.violation("error-full", case, format!("{what}: {e}")),
    };
    all.sort_by_key(|p| format!("{p:?}"));
    run(
        "unordered",
        &mut || {
            let mut v: Vec<Proj> = build::<T>(&unordered).load(db.c())?.iter().map(|x| x.proj()).collect();
            v.sort_by_key(|p| format!("{p:?}"));
            Ok(v)
        },
        &all,
    );
}
/// The relations of a view work like the model's.
fn relations(ctx: &Ctx, lane: Lane, db: &Db, lib: &Library, case: &str) {
    use butane::DataObjectOpsSync;
    let rels = match BookRel::query().load(db.c()) {
        Ok(v) => v,
        Err(e) => return ctx.violation("error", case, format!("{lane:?} BookRel: {e}")),
    };
    for b in rels {
        let Some((full, _, _)) = lib.books.iter().find(|(x, _, _)| x.id == b.id) else {
            ctx.violation("view-differs-rel", case, format!("{lane:?} no book {:?}", b.id));
            continue;
        };
        ctx.eval(1);
        ctx.count("relations followed", 1);
        let want = lib.authors.iter().find(|a| a.name == full.author.pk()).unwrap();
        match catch(|| b.author.load_sync(db.c())) {
            Ok(Ok(a)) if a == want => {}
            o => ctx.violation("view-relation", case, format!("{lane:?} author of {:?}: {o:?} want {want:?}", b.id)),
        }
        match (&b.editor, &full.editor) {
            (Some(e), Some(f)) if e.pk() == f.pk() => match catch(|| e.load_sync(db.c())) {
                Ok(Ok(a)) if a.name == f.pk() => {}
                o => ctx.violation("view-relation", case, format!("{lane:?} editor of {:?}: {o:?}", b.id)),
            },
            (None, None) => {}
            _ => ctx.violation("view-differs-rel", case, format!("{lane:?} {b:?} vs {full:?}")),
        }
        let again = Book::get(db.c(), b.id.clone());
        match again {
            Ok(x) if x.title == full.title => {}
            o => ctx.violation("view-key", case, format!("{lane:?} {:?}", o)),
        }
    }
}
trait LoadSync<T: butane::DataObject> {
    fn load_sync<'a>(&'a self, c: &impl butane::db::ConnectionMethods) -> butane::Result<&'a T>;
}
impl<T: butane::DataObject> LoadSync<T> for butane::ForeignKey<T> {
    fn load_sync<'a>(&'a self, c: &impl butane::db::ConnectionMethods) -> butane::Result<&'a T> {
        butane::ForeignKeyOpsSync::load(self, c)
    }
}

fn main() {
    let ctx = Arc::new(Ctx::new("C23", 20, 400));
    ctx.rule("a comparison of a view with the full objects counts when at least one row is returned; distinct by backend, view, way of loading and rows");
    ctx.assume("the full objects themselves are judged against the independent world model before they serve as reference");
    ctx.watchdog(120, None);
    ctx.parallel(&Lane::ALL, |lane| {
        let db = Db::new(&ctx, lane);
        let aconn = rt().block_on(connect_async(lane, &db.connstr)).expect("async connection");
        ctx.cases(lane.name(), 1.0, 3, 100_000, |case, r| {
            db.wipe();
            let mut lib = Library::generate(r, 12);
            if let Err(e) = lib.store(db.c()) {
                ctx.violation("store", case, format!("{lane:?} storing the library failed: {e:?}"));
                return;
            }
            let w = lib.world();
            relations(&ctx, lane, &db, &lib, case);
            for i in 0..30 {
                let case = format!("{case}/q{i}");
                let v = below(r, 5);
                let t: &'static Tbl = if v == 4 { &AUTHOR } else { &BOOK };
                let n = w.tables[t.name].len();
                let d = below(r, 3);
                let q = QueryMod {
                    filter: if chance(r, 0.6) { Some(expr(r, &w, t, d)) } else { None },
                    order: window::order(r, t, false),
                    limit: window::bound(r, n),
                    offset: if chance(r, 0.5) { window::bound(r, n) } else { None },
                };
                match v {
                    0 => one::<BookBrief>(&ctx, lane, &db, &aconn, &w, t, q, r, &case),
                    1 => one::<BookReordered>(&ctx, lane, &db, &aconn, &w, t, q, r, &case),
                    2 => one::<BookRel>(&ctx, lane, &db, &aconn, &w, t, q, r, &case),
                    3 => one::<BookOne>(&ctx, lane, &db, &aconn, &w, t, q, r, &case),
                    _ => one::<AuthorBio>(&ctx, lane, &db, &aconn, &w, t, q, r, &case),
                }
            }
            ctx.count(&format!("worlds {}", lane.name()), 1);
        });
    });
    ctx.finish();
}
