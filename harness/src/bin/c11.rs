//! C11: migrating forward gives the schema of the models and keeps data.
use butane::migrations::{MemMigrations, Migration, Migrations};
use rtm::evolve::*;
use rtm::prelude::*;
use rtm::schema::*;

fn history(ctx: &Ctx, lane: Lane, keep: &mut Option<Db>, r: &mut Rng, case: &str) {
    let db = fresh(ctx, lane, keep);
    let steps = 1 + below(r, 6);
    let mut s = Schema::generate(r);
    let backend = nonempty::nonempty![lane.backend()];
    let mut ms = MemMigrations::new();
    let mut log = vec![format!("{}", s.text())];
    let mut serial = 0i64;
    let mut applied = Schema::default();
    let with_data = chance(r, 0.7);
    let mut pending = 0;
    let mut mids: Vec<Schema> = vec![];
    for step in 0..=steps {
        if step > 0 {
            let version = s.clone();
            let mut did = vec![];
            for _ in 0..1 + below(r, 3) {
                for _ in 0..10 {
                    let mut next = s.clone();
                    if let Some(d) = next.mutate(r) {
                        if !version.leads_to(&next, lane, false) {
                            continue;
                        }
                        s = next;
                        did.push(d);
                        break;
                    }
                }
            }
            log.push(did.join("; "));
            ctx.count("changes", did.len() as u64);
            for d in &did {
                let kind: Vec<&str> = d.split_whitespace().take(1).collect();
                ctx.nontrivial(&(lane.backend_name(), shape(d), kind));
            }
        }
        let fail = |sig: &str, msg: String| ctx.violation(&format!("{sig}-{}", lane.backend_name()), case, format!("{lane:?}: {msg}\n  {}", log.join("\n-- ")));
        // SQL is produced for a backend the tables of which may never see it: that must work too
        match catch(|| extend(&mut ms, &s.sorted(), step, &backend)) {
            Ok(Ok(true)) => pending += 1,
            Ok(Ok(false)) => {}
            Ok(Err(e)) => return fail("generate", format!("creating migration {step}: {e}")),
            Err(p) => return fail("generate-panic", format!("creating migration {step}: {p}")),
        }
        if step < steps && chance(r, 0.25) {
            // several migrations at a time
            mids.push(s.clone());
            continue;
        }
        let before = match rows(&db, &applied) {
            Ok(b) => b,
            Err(e) => return fail("read", e),
        };
        let mut maybe = obstacles(lane, &applied, &s, &before);
        if pending > 1 && !before.values().all(|t| t.is_empty()) && !maybe.is_empty() {
            // in between lie steps with obstacles of their own
            maybe.push("several steps".into());
        }
        if pending > 1 {
            // intermediate versions may hinder what the end points do not show
            maybe.extend(if before.values().any(|t| !t.is_empty()) { vec!["several steps".to_string()] } else { vec![] });
        }
        let cat_before = catalog(&db).unwrap_or_default();
        let mut moved = before.clone();
        let mut conn = db.connect();
        let done = catch(|| ms.migrate(&mut conn));
        ctx.eval(1);
        match done {
            Err(p) => return fail("panic", p),
            Ok(Ok(())) => {
                ctx.count("migrated", 1);
            }
            Ok(Err(e)) => {
                if maybe.is_empty() {
                    let sql = ms.latest().and_then(|m| m.up_sql(lane.backend_name()).ok().flatten()).unwrap_or_default();
                    return fail(&format!("migrate-{}", shape_err(&e.to_string())), format!("step {step} failed: {e:?}\n  sql: {sql}\n  rows {}", show(&before)));
                }
                ctx.count("refused because of the data", 1);
                // nothing may have changed, unless earlier ones of several were applied
                if pending == 1 {
                    if catalog(&db).unwrap_or_default() != cat_before || rows(&db, &applied).ok().as_ref() != Some(&before) {
                        return fail("failed-halfway", format!("step {step} failed with {e} but changed something"));
                    }
                }
                // without the rows it must work
                let mid = ms.last_applied_migration(&conn);
                drop(conn);
                let _ = mid;
                clear(&db);
                conn = db.connect();
                if let Err(e) = catch(|| ms.migrate(&mut conn)).unwrap_or_else(|p| Err(butane::Error::Internal(p))) {
                    let sql = ms.latest().and_then(|m| m.up_sql(lane.backend_name()).ok().flatten()).unwrap_or_default();
                    return fail(&format!("migrate-empty-{}", shape_err(&e.to_string())), format!("step {step} failed without rows: {e:?}\n  sql: {sql}"));
                }
                moved = Rows::new();
            }
        }
        drop(conn);
        let tidy = match catalog(&db) {
            Ok((got, odd)) => {
                let mut d = compare(&got, &s.expected(lane));
                d.extend(odd);
                d
            }
            Err(e) => vec![e],
        };
        ctx.eval(1);
        if !tidy.is_empty() {
            let sql = ms.latest().and_then(|m| m.up_sql(lane.backend_name()).ok().flatten()).unwrap_or_default();
            return fail(&format!("schema-{}", tidy[0].split_whitespace().take(2).collect::<Vec<_>>().join("-")), format!("after step {step}:\n {}\n  sql: {sql}", tidy.join("\n ")));
        }
        match rows(&db, &s) {
            Ok(after) => {
                let lost = survived(lane, &applied, &mids, &s, &moved, &after);
                ctx.count("rows carried", moved.values().map(|t| t.len() as u64).sum());
                if let Some(l) = lost.first() {
                    return fail(&format!("data-{}", l.split_whitespace().next().unwrap()), format!("after step {step}:\n {}", lost.join("\n ")));
                }
            }
            Err(e) => return fail("read", e),
        }
        applied = s.clone();
        pending = 0;
        mids.clear();
        if with_data {
            let mut fr = Rng::clone(r);
            match fill(&mut fr, &db, &s, 3, &mut serial) {
                Ok(n) => ctx.count("rows inserted", n as u64),
                Err(e) => return fail("insert", e),
            }
            let _: u64 = rand::Rng::random(r);
        }
    }
    let changes = log.len() as u64;
    ctx.max("longest history", changes);
    // a database made in one go
    if chance(r, 0.3) {
        let db2 = fresh(ctx, lane, &mut None);
        let mut conn = db2.connect();
        match catch(|| chain(&[s.sorted()], &backend).and_then(|(ms, _)| ms.migrate(&mut conn))) {
            Ok(Ok(())) => {}
            e => return ctx.violation("fresh", case, format!("{lane:?} {e:?}\n  {}", s.text())),
        }
        let a = catalog(&db2).map(|c| c.0).unwrap_or_default();
        let b = catalog(&db).map(|c| c.0).unwrap_or_default();
        let d = compare(&b, &a);
        ctx.eval(1);
        ctx.count("compared with a database made in one go", 1);
        if !d.is_empty() {
            ctx.violation("fresh-differs", case, format!("{lane:?}: {}\n  {}", d.join("\n"), log.join("\n-- ")));
        }
    }
    if ctx.evals() < 200 {
        ctx.sample(format!("{lane:?}: {}", log.join(" -- ")));
    }
    *keep = Some(db);
}

/// Changes of keys which the migrations get wrong, one by one.
fn keys(ctx: &Ctx, lane: Lane) {
    let field = |name: &str, ty: Ty, pk: bool| Field { name: name.into(), ty, opt: false, pk, unique: false, default: None };
    let model = |name: &str, fields: Vec<Field>| Model { name: name.into(), table: None, fields };
    let int = || Ty::Plain("i32", B::Int);
    let two = |first: bool| Schema { models: vec![model("Foo", vec![field("bar", int(), first), field("baz", int(), !first)])], types: vec![] };
    let refd = |key: &str, ty: Ty| {
        let mut b = model("Blog", vec![field("a", ty.clone(), key == "a"), field("b", ty, key == "b")]);
        b.fields.retain(|f| f.pk || key == "b" || f.name == "b");
        Schema { models: vec![b, model("Post", vec![field("id", int(), true), field("blog", Ty::Fk("Blog".into()), false)])], types: vec![] }
    };
    let text = || Ty::Plain("String", B::Text);
    for (sig, a, b) in [
        ("key-moves-to-later-column", two(true), two(false)),
        ("key-moves-to-earlier-column", two(false), two(true)),
        ("type-of-referenced-key-changes", refd("a", int()), refd("a", text())),
        ("referenced-key-moves", refd("a", int()), refd("b", int())),
    ] {
        let case = format!("keys/{sig}/{}", lane.name());
        if !ctx.want(&case) {
            continue;
        }
        let db = Db::empty(ctx, lane);
        let sig = format!("{}-{sig}", lane.backend_name());
        let mut conn = db.connect();
        ctx.eval(1);
        ctx.nontrivial(&sig);
        match catch(|| chain(&[a, b.clone()], &nonempty::nonempty![lane.backend()]).and_then(|(ms, _)| ms.migrate(&mut conn))) {
            Ok(Ok(())) => {
                drop(conn);
                match catalog(&db) {
                    Ok((got, mut odd)) => {
                        odd.extend(compare(&got, &b.expected(lane)));
                        if !odd.is_empty() {
                            ctx.violation(&sig, &case, odd.join("\n"));
                        }
                    }
                    Err(e) => ctx.violation(&sig, &case, e),
                }
            }
            Ok(Err(e)) => ctx.violation(&sig, &case, format!("{e:?}")),
            Err(p) => ctx.violation(&sig, &case, p),
        }
    }
}

fn main() {
    let ctx = Arc::new(Ctx::new("C11", 40, 900));
    ctx.rule("a distinct case is a kind of model change applied on a backend (what was added, removed or changed, from which type to which); an evaluation is one migration applied, or one comparison of the resulting catalogue and rows");
    ctx.assume("a migration may be refused when the rows present contradict the new schema (nulls, duplicates, missing references, values without a conversion); it must then change nothing and succeed on emptied tables");
    ctx.watchdog(120, None);
    ctx.parallel(&Lane::NATIVE, |lane| {
        if lane != Lane::Turso {
            keys(&ctx, lane);
        }
        let mut keep = None;
        ctx.cases(&format!("history/{}", lane.name()), 0.95, 5, usize::MAX, |case, r| history(&ctx, lane, &mut keep, r, case));
    });
    ctx.finish();
}
