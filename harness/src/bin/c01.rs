//! C01: filters select exactly the matching rows.



use butane::query::{BoolExpr, Expr, QueryOpsSync};
use butane::{filter, find, query, DataResult, SqlVal};

use rtm::fixture::*;
use rtm::prelude::*;
use rtm::models::*;
use rtm::oracle::{self, World};


#[allow(clippy::too_many_arguments)]
fn check(ctx: &Ctx, lane: Lane, db: &Db, w: &World, t: &'static Tbl, e: &BoolExpr, case: &str, in_tx: bool, kind: &str) {
    let want = show_rows(w.select(lane, t.name, e));
    let q = QueryMod { filter: Some(e.clone()), ..Default::default() };
    let got = if in_tx {
        // through a transaction on a second connection
        let mut c = db.connect();
        catch(move || {
            let tx = c.transaction()?;
            let r = load_rows(&tx, t.name, q);
            tx.rollback()?;
            r
        })
    } else {
        catch(|| load_rows(db.c(), t.name, q))
    };
    ctx.eval(1);
    let mut sh = BTreeSet::new();
    oracle::shapes(e, "", &mut sh);
    let n = w.tables[t.name].len();
    match got {
        Err(p) => ctx.violation(&format!("panic-{kind}"), case, format!("{lane:?} {} filter {e:?} panicked: {p}", t.name)),
        // the SQLite engine refuses statements nested more deeply than its parser stack; a refusal is an answer
        Ok(Err(err)) if kind == "deep" && lane.is_sqlite() && oracle::depth(e) > 40 && err.to_string().contains("parser stack overflow") => {
            ctx.count("engine refused nesting", 1)
        }
        Ok(Err(err)) => ctx.violation(&format!("error-{kind}"), case, format!("{lane:?} {} filter {e:?} failed: {err}", t.name)),
        Ok(Ok(rows)) => {
            let got = show_rows(rows.iter());
            if got != want {
                ctx.violation(
                    &format!("wrong-rows-{kind}"),
                    case,
                    format!("{lane:?} {} filter {e:?}\n got {} rows {got:?}\nwant {} rows {want:?}", t.name, got.len(), want.len()),
                );
            } else if !want.is_empty() && want.len() < n {
                ctx.nontrivial(&(lane.name(), format!("{e:?}"), want.clone()));
                ctx.count(&format!("selective filters {}", lane.name()), 1);
                for s in sh {
                    ctx.count(&format!("node {s}"), 1);
                }
                ctx.max("deepest filter", oracle::depth(e) as u64);
                ctx.sample(format!("{lane:?} {}: {e:?} -> {} of {n} rows", t.name, want.len()));
            } else {
                ctx.count(if want.is_empty() { "filters matching nothing" } else { "filters matching all" }, 1);
            }
        }
    }
}

fn big_memberships(ctx: &Ctx, lane: Lane, db: &Db, w: &World, r: &mut Rng, case: &str) {
    for n in [0usize, 1, 2, 100, 126, 127, 128, 129, 200, 256, 300, 1000] {
        let vals: Vec<SqlVal> = (0..n).map(|i| if i % 3 == 0 { SqlVal::Text(tiny(r)) } else { SqlVal::Text(format!("v{i}")) }).collect();
        let e = BoolExpr::In("title", vals.clone());
        check(ctx, lane, db, w, &BOOK, &e, &format!("{case}/in{n}"), false, "membership");
        let e = BoolExpr::Not(Box::new(BoolExpr::In("sub", vals.clone())));
        check(ctx, lane, db, w, &BOOK, &e, &format!("{case}/notin{n}"), false, "membership");
        let e = BoolExpr::Or(
            Box::new(BoolExpr::In("title", vals)),
            Box::new(BoolExpr::And(
                Box::new(BoolExpr::Gt("price", Expr::Val(SqlVal::Real(0.0)))),
                Box::new(BoolExpr::Eq("sub", Expr::Val(SqlVal::Text(tiny(r))))),
            )),
        );
        check(ctx, lane, db, w, &BOOK, &e, &format!("{case}/inor{n}"), false, "membership");
    }
    // many separate values
    for n in [64usize, 127, 128, 150] {
        let mut e = BoolExpr::Eq("title", Expr::Val(SqlVal::Text(tiny(r))));
        for i in 0..n {
            let l = BoolExpr::Eq(if i % 2 == 0 { "title" } else { "sub" }, Expr::Val(SqlVal::Text(if i % 5 == 0 { tiny(r) } else { format!("w{i}") })));
            e = BoolExpr::Or(Box::new(e), Box::new(l));
        }
        check(ctx, lane, db, w, &BOOK, &e, &format!("{case}/or{n}"), false, "membership");
        let v: Vec<BoolExpr> = (0..n).map(|i| BoolExpr::Ne("title", Expr::Val(SqlVal::Text(format!("w{i}"))))).collect();
        check(ctx, lane, db, w, &BOOK, &BoolExpr::AllOf(v), &format!("{case}/all{n}"), false, "membership");
    }
}

/// Filters written with the macros, against closures written by hand.
fn macros(ctx: &Ctx, lane: Lane, db: &Db, lib: &Library, r: &mut Rng, case: &str) {
    let c = db.c();
    let s = if lib.books.is_empty() { tiny(r) } else { lib.books[below(r, lib.books.len())].0.title.clone() };
    let sub = tiny(r);
    let n = small_i32(r);
    let m = small_i32(r);
    let f = small_f64(r);
    let big = small_i64(r);
    let yes: bool = r.random();
    let list = vec![tiny(r), s.clone(), tiny(r)];
    let a = lib.authors[below(r, lib.authors.len())].clone();
    let ci = lane != Lane::Pg;
    let label_text = if lib.labels.is_empty() { tiny(r) } else { lib.labels[below(r, lib.labels.len())].text.clone() };
    let author = |k: &String| lib.authors.iter().find(|x| &x.name == k).unwrap();
    let has = |v: &Vec<usize>, p: &dyn Fn(&Label) -> bool| v.iter().any(|&i| p(&lib.labels[i]));
    macro_rules! t {
        ($name:literal, $e:expr, |$b:ident, $l:ident, $x:ident| $p:expr) => {{
            let e: BoolExpr = $e;
            let mut want: Vec<i64> = lib.books.iter().filter(|($b, $l, $x)| { let _ = ($b, $l, $x); $p }).map(|(b, _, _)| b.id.unwrap()).collect();
            want.sort();
            let case = format!("{case}/macro-{}", $name);
            let e2 = e.clone();
            match catch(|| BookBrief::query().filter(e).load(c)) {
                Err(p) => ctx.violation("panic-macro", &case, format!("{lane:?} {}: {p}", $name)),
                Ok(Err(er)) => ctx.violation("error-macro", &case, format!("{lane:?} {}: {er}", $name)),
                Ok(Ok(v)) => {
                    ctx.eval(1);
                    ctx.count("macro filters", 1);
                    let mut got: Vec<i64> = v.iter().map(|b| b.id.unwrap()).collect();
                    got.sort();
                    if got != want {
                        ctx.violation("wrong-rows-macro", &case, format!("{lane:?} {} = {e2:?}: got {got:?} want {want:?}", $name));
                    } else if !want.is_empty() && want.len() < lib.books.len() {
                        ctx.nontrivial(&(lane.name(), $name, want.len(), format!("{e2:?}")));
                        ctx.count("selective macro filters", 1);
                    }
                }
            }
        }};
    }
    let some_year = |b: &Book, f: &dyn Fn(i32) -> bool| b.year.map(f).unwrap_or(false);
    t!("eq", filter!(Book, title == { s.clone() }), |b, l, x| b.title == s);
    t!("eq-str", filter!(Book, title == { s.as_str() }), |b, l, x| b.title == s);
    t!("ne", filter!(Book, title != { s.clone() }), |b, l, x| b.title != s);
    t!("lt", filter!(Book, pages < { n }), |b, l, x| b.pages < n);
    t!("le", filter!(Book, pages <= { n }), |b, l, x| b.pages <= n);
    t!("gt", filter!(Book, big > { big }), |b, l, x| b.big > big);
    t!("ge", filter!(Book, price >= { f }), |b, l, x| b.price >= f);
    t!("bool", filter!(Book, instock == { yes }), |b, l, x| b.instock == yes);
    t!("lit-bool", filter!(Book, instock == true), |b, l, x| b.instock);
    t!("lit-int", filter!(Book, pages == 1), |b, l, x| b.pages == 1);
    t!("lit-str", filter!(Book, title == "a"), |b, l, x| b.title == "a");
    t!("none", filter!(Book, sub == None), |b, l, x| b.sub.is_none());
    t!("not-none", filter!(Book, sub != None), |b, l, x| b.sub.is_some());
    t!("some", filter!(Book, sub == { Some(sub.clone()) }), |b, l, x| b.sub.as_ref() == Some(&sub));
    t!("none-val", filter!(Book, year == { None }), |b, l, x| b.year.is_none());
    t!("some-lt", filter!(Book, year < { n }), |b, l, x| some_year(b, &|y| y < n));
    t!("some-ge", filter!(Book, year >= { n }), |b, l, x| some_year(b, &|y| y >= n));
    t!("and", filter!(Book, pages >= { n } && title != { s.clone() }), |b, l, x| b.pages >= n && b.title != s);
    t!("or", filter!(Book, pages == { n } || title == { s.clone() }), |b, l, x| b.pages == n || b.title == s);
    t!("and-or", filter!(Book, pages == { n } && instock == { yes } || title == { s.clone() }), |b, l, x| b.pages == n
        && b.instock == yes
        || b.title == s);
    t!("or-and", filter!(Book, title == { s.clone() } || pages == { n } && instock == { yes }), |b, l, x| b.title == s
        || b.pages == n && b.instock == yes);
    t!("or-or-and", filter!(Book, pages < { n } || pages > { m } && instock == { yes } || sub == None && price > { f }), |b, l, x| b
        .pages
        < n
        || b.pages > m && b.instock == yes
        || b.sub.is_none() && b.price > f);
    t!("like", filter!(Book, title.like("%a%")), |b, l, x| oracle::like(&b.title, "%a%", ci));
    t!("like2", filter!(Book, title.like("_b%") || sub.like({ "a%" })), |b, l, x| oracle::like(&b.title, "_b%", ci)
        || b.sub.as_ref().map(|s| oracle::like(s, "a%", ci)).unwrap_or(false));
    t!("in", filter!(Book, title.is_in(list.clone())), |b, l, x| list.contains(&b.title));
    t!("in-and", filter!(Book, title.is_in(list.clone()) && pages >= { n }), |b, l, x| list.contains(&b.title) && b.pages >= n);
    t!("fk-eq", filter!(Book, author == { &a }), |b, l, x| b.author.pk() == a.name);
    t!("fk-eq-pk", filter!(Book, author == { a.name.clone() }), |b, l, x| b.author.pk() == a.name);
    t!("fk-fk", filter!(Book, author == { butane::ForeignKey::<Author>::from(&a) }), |b, l, x| b.author.pk() == a.name);
    t!("fk-none", filter!(Book, editor == None), |b, l, x| b.editor.is_none());
    t!("fk-lit", filter!(Book, author.matches(name == "a")), |b, l, x| b.author.pk() == "a");
    t!("fk", filter!(Book, author.matches(rank < { n })), |b, l, x| author(&b.author.pk()).rank < n);
    t!("fk-and", filter!(Book, author.matches(rank < { n } && bio != None)), |b, l, x| {
        let a = author(&b.author.pk());
        a.rank < n && a.bio.is_some()
    });
    t!("fk-or-and", filter!(Book, author.matches(rank < { n } || bio == None) && instock == { yes }), |b, l, x| {
        let a = author(&b.author.pk());
        (a.rank < n || a.bio.is_none()) && b.instock == yes
    });
    t!("many-lit", filter!(Book, labels.contains(1)), |b, l, x| has(l, &|q| q.code == 1));
    t!("many", filter!(Book, labels.contains(text == { label_text.clone() })), |b, l, x| has(l, &|q| q.text == label_text));
    t!("many-or", filter!(Book, labels.contains(text == { label_text.clone() } || code < { n })), |b, l, x| has(l, &|q| q.text
        == label_text
        || q.code < n));
    t!("many-both", filter!(Book, labels.contains(code >= { n }) && extra.contains(prio == None)), |b, l, x| has(l, &|q| q.code
        >= n)
        && has(x, &|q| q.prio.is_none()));
    t!("many-or-fk", filter!(Book, labels.contains(code > { n }) || author.matches(name == { a.name.clone() })), |b, l, x| has(
        l,
        &|q| q.code > n
    ) || b.author.pk()
        == a.name);
    // query! and find!
    let got = catch(|| query!(Book, pages >= { n } && instock == { yes }).load(c));
    match got {
        Ok(Ok(v)) => {
            ctx.eval(1);
            let mut g: Vec<i64> = v.iter().map(|b| b.id.unwrap()).collect();
            g.sort();
            let mut w: Vec<i64> =
                lib.books.iter().filter(|(b, _, _)| b.pages >= n && b.instock == yes).map(|(b, _, _)| b.id.unwrap()).collect();
            w.sort();
            if g != w {
                ctx.violation("wrong-rows-macro", &format!("{case}/query"), format!("{lane:?} query! got {g:?} want {w:?}"));
            }
        }
        o => ctx.violation("error-macro", &format!("{case}/query"), format!("{lane:?} query!: {:?}", o.map(|r| r.map(|v| v.len())))),
    }
    let any = lib.books.iter().any(|(b, _, _)| b.title == s);
    match catch(|| find!(Book, title == { s.clone() }, c)) {
        Ok(Ok(b)) => {
            ctx.eval(1);
            if b.title != s || !any {
                ctx.violation("wrong-rows-macro", &format!("{case}/find"), format!("{lane:?} find!({s:?}) gave {b:?}"));
            }
        }
        Ok(Err(butane::Error::NoSuchObject)) => {
            ctx.eval(1);
            if any {
                ctx.violation("wrong-rows-macro", &format!("{case}/find"), format!("{lane:?} find!({s:?}) found nothing"));
            }
        }
        o => ctx.violation("error-macro", &format!("{case}/find"), format!("{lane:?} find!: {o:?}")),
    }
}

fn main() {
    let ctx = Arc::new(Ctx::new("C01", 25, 900));
    ctx.rule("a filter counts as non-trivial when it matches some but not all rows of a table with at least one row; distinct by backend, expression and answer");
    ctx.assume("three-valued evaluator in oracle.rs is the meaning of filters; LIKE is ASCII-case-insensitive on SQLite/Turso and case-sensitive on PostgreSQL; text compares bytewise (C locale)");
    ctx.watchdog(120, None);
    ctx.parallel(&Lane::ALL, |lane| {
        let db = Db::new(&ctx, lane);
        ctx.cases(lane.name(), 1.0, 3, 100_000, |case, r| {
            db.wipe();
            let mut lib = Library::generate(r, 14);
            if let Err(e) = lib.store(db.c()) {
                ctx.violation("store", case, format!("{lane:?} storing the library failed: {e:?}"));
                return;
            }
            let w = lib.world();
            let everything = BoolExpr::True;
            for t in TABLES {
                check(&ctx, lane, &db, &w, t, &everything, case, false, "all");
            }
            macros(&ctx, lane, &db, &lib, r, case);
            for i in 0..80 {
                let t = match below(r, 8) {
                    0 => &AUTHOR,
                    1 => &LABEL,
                    2 => &NODE,
                    3 => &TEAM,
                    _ => &BOOK,
                };
                if w.tables[t.name].is_empty() {
                    continue;
                }
                let d = *pick(r, &[0, 1, 2, 3, 3, 4, 5, 6]);
                let e = expr(r, &w, t, d);
                let tx = chance(r, 0.05);
                check(&ctx, lane, &db, &w, t, &e, &format!("{case}/e{i}"), tx, "expr");
            }
            if chance(r, 0.15) || case.ends_with("/0") {
                big_memberships(&ctx, lane, &db, &w, r, case);
                // deep nesting
                for depth in [12usize, 24, 60] {
                    let mut e = leaf(r, &w, &BOOK);
                    for k in 0..depth {
                        let l = Box::new(leaf(r, &w, &BOOK));
                        e = match k % 3 {
                            0 => BoolExpr::Or(Box::new(e), l),
                            1 => BoolExpr::Not(Box::new(BoolExpr::And(Box::new(e), l))),
                            _ => BoolExpr::And(l, Box::new(e)),
                        };
                    }
                    check(&ctx, lane, &db, &w, &BOOK, &e, &format!("{case}/deep{depth}"), false, "deep");
                }
            }
            ctx.count(&format!("worlds {}", lane.name()), 1);
        });
    });
    ctx.finish();
}
