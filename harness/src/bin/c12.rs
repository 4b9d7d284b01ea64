//! C12: undoing migrations restores the earlier schema and data.
use butane::migrations::{MemMigration, MemMigrations, Migration, MigrationMut, Migrations};
use rtm::evolve::*;
use rtm::prelude::*;
use rtm::schema::*;

fn recorded(db: &Db) -> Vec<String> {
    let mut v: Vec<String> = match db.raw_rows("SELECT name FROM butane_migrations") {
        Ok(r) => r.iter().map(|x| match &x[0] { Raw::Text(t) => t.clone(), o => o.show() }).collect(),
        Err(_) => vec![],
    };
    v.sort();
    v
}
fn sql(m: &MemMigration, lane: Lane, up: bool) -> String {
    let s = if up { m.up_sql(lane.backend_name()) } else { m.down_sql(lane.backend_name()) };
    s.ok().flatten().unwrap_or_default()
}

fn walk(ctx: &Ctx, lane: Lane, keep: &mut Option<Db>, r: &mut Rng, case: &str) {
    let db = fresh(ctx, lane, keep);
    let backend = nonempty::nonempty![lane.backend()];
    let mut ms = MemMigrations::new();
    // versions[i] is the schema after i migrations
    let mut versions = vec![Schema::default()];
    let mut names = vec![];
    let mut log = vec![];
    let mut s = Schema::generate(r);
    for step in 0..2 + below(r, 4) {
        if step > 0 {
            let version = s.clone();
            let mut did = vec![];
            for _ in 0..1 + below(r, 3) {
                for _ in 0..10 {
                    let mut next = s.clone();
                    if let Some(d) = next.mutate(r) {
                        if version.leads_to(&next, lane, true) && next.leads_to(&version, lane, true) {
                            s = next;
                            did.push(d);
                            break;
                        }
                    }
                }
            }
            log.push(did.join("; "));
        } else {
            log.push(s.text());
        }
        match catch(|| extend(&mut ms, &s.sorted(), step, &backend)) {
            Ok(Ok(true)) => {
                versions.push(s.clone());
                names.push(format!("m{step:03}"));
            }
            Ok(Ok(false)) => {
                log.pop();
            }
            e => return ctx.violation("generate", case, format!("{lane:?} step {step}: {e:?}\n  {}", log.join("\n-- "))),
        }
    }
    let mut log = vec![log.join("\n-- ")];
    let top = names.len();
    let mut at = 0usize;
    let mut serial = 0i64;
    let mut cats: Vec<Option<Catalog>> = vec![None; top + 1];
    cats[0] = Some(Catalog::new());
    let mut last_kind = String::new();
    for step in 0..4 + below(r, 10) {
        let before = match rows(&db, &versions[at]) {
            Ok(b) => b,
            Err(e) => return ctx.violation("read", case, format!("{lane:?}: {e}\n  {}", log.join("\n-- "))),
        };
        // where to go
        let op = if step == 0 {
            "up all"
        } else {
            *pick(r, &["down one", "down one", "down one", "up one", "up one", "up all", "down all", "no undo"])
        };
        let (to, up) = match op {
            "up all" => (top, true),
            "up one" if at < top => (at + 1, true),
            "down one" if at > 0 => (at - 1, false),
            "down all" => (0, false),
            "no undo" if at > 0 => (at, false),
            _ => continue,
        };
        log.push(format!("{op} ({at} to {to})"));
        let fail = |sig: &str, msg: String| ctx.violation(&format!("{sig}-{}", lane.backend_name()), case, format!("{lane:?}: {msg}\n  {}", log.join("\n-- ")));
        let mut conn = db.connect();
        let cat_before = catalog(&db).unwrap_or_default();
        ctx.eval(1);
        if op == "no undo" {
            // a migration without an undo for this backend
            let mut m = ms.get_migration(&names[at - 1]).unwrap();
            m.remove_sql(lane.backend_name()).unwrap();
            match catch(|| m.downgrade(&mut conn)) {
                Ok(Err(_)) => {}
                e => return fail("undone-without-undo", format!("{e:?}")),
            }
            drop(conn);
            if catalog(&db).unwrap_or_default() != cat_before || rows(&db, &versions[at]).ok().as_ref() != Some(&before) || recorded(&db) != names[..at] {
                return fail("refused-but-changed", "a refused undo changed something".into());
            }
            ctx.count("undos refused for lack of statements", 1);
            continue;
        }
        // the steps on the way and whether the data may hinder them
        let path: Vec<usize> = if up { (at..=to).collect() } else { (to..=at).rev().collect() };
        let hinder = path.len() > 1 && obstacles(lane, &versions[path[0]], &versions[path[1]], &before).is_empty();
        let populated = before.values().any(|t| !t.is_empty());
        let may_refuse = !hinder || (path.len() > 2 && populated);
        let run = |conn: &mut butane::db::Connection, from: usize| -> butane::Result<()> {
            match op {
                "up all" => ms.migrate(conn),
                "down all" => ms.unmigrate(conn),
                "up one" => ms.get_migration(&names[from]).unwrap().apply(conn),
                _ => ms.get_migration(&names[from - 1]).unwrap().downgrade(conn),
            }
        };
        let mut from = at;
        let mut moved = before.clone();
        let mut done = match catch(|| run(&mut conn, at)) {
            Ok(d) => d,
            Err(p) => return fail("panic", p),
        };
        if let Err(e) = &done {
            if !may_refuse || path.len() == 1 {
                let m = ms.get_migration(&names[if up { at } else { at - 1 }]).unwrap();
                return fail(&format!("{op}-{}", shape_err(&e.to_string())), format!("{e:?}\n  sql: {}\n  rows {}", sql(&m, lane, up), show(&before)));
            }
            drop(conn);
            ctx.count("refused because of the data", 1);
            // it got as far as some step, and no further
            let rec = recorded(&db);
            let Some(k) = path.iter().position(|&v| rec == names[..v]) else {
                return fail("records", format!("recorded {rec:?} is no version on the way"));
            };
            if k == 0 {
                if catalog(&db).unwrap_or_default() != cat_before || rows(&db, &versions[at]).ok().as_ref() != Some(&before) {
                    return fail("failed-halfway", format!("{e} but something changed"));
                }
            }
            from = path[k];
            clear(&db);
            moved = Rows::new();
            conn = db.connect();
            done = match catch(|| if path.len() == 1 { Ok(()) } else { run(&mut conn, from) }) {
                Ok(d) => d,
                Err(p) => return fail("panic", p),
            };
            if let Err(e) = &done {
                let m = ms.get_migration(&names[if up { from } else { from - 1 }]).unwrap();
                return fail(&format!("{op}-empty-{}", shape_err(&e.to_string())), format!("{e:?}\n  sql: {}", sql(&m, lane, up)));
            }
        }
        let _ = (from, &done);
        drop(conn);
        ctx.count(if up { "steps forward" } else { "steps back" }, (path.len() - 1) as u64);
        if !up {
            for w in path.windows(2) {
                ctx.nontrivial(&(lane.backend_name(), sql(&ms.get_migration(&names[w[1]]).unwrap(), lane, false)));
            }
        }
        // records, reports, schema, data
        let rec = recorded(&db);
        if rec != names[..to] {
            return fail("records", format!("recorded {rec:?}, should be {:?}", &names[..to]));
        }
        let got = match catalog(&db) {
            Ok((c, odd)) if odd.is_empty() => c,
            e => return fail("odd", format!("{e:?}")),
        };
        let d = compare(&got, &versions[to].expected(lane));
        if !d.is_empty() {
            let m = ms.get_migration(&names[if up { to - 1 } else { to }]).map(|m| sql(&m, lane, up)).unwrap_or_default();
            return fail(&format!("schema-{}", d[0].split_whitespace().take(1).collect::<String>()), format!("{}\n  sql: {m}", d.join("\n ")));
        }
        match &cats[to] {
            Some(c) => {
                let d = compare(&got, c);
                ctx.count("versions seen again", 1);
                if !d.is_empty() {
                    return fail("differs-from-before", d.join("\n "));
                }
            }
            None => cats[to] = Some(got),
        }
        if path.len() > 1 {
            let mids: Vec<Schema> = path[1..path.len() - 1].iter().map(|&v| versions[v].clone()).collect();
            match rows(&db, &versions[to]) {
                Ok(after) => {
                    ctx.count("rows carried", moved.iter().filter(|(t, _)| after.contains_key(*t)).map(|(_, t)| t.len() as u64).sum());
                    let lost = survived(lane, &versions[at], &mids, &versions[to], &moved, &after);
                    if let Some(l) = lost.first() {
                        return fail(&format!("data-{}", l.split_whitespace().next().unwrap()), lost.join("\n "));
                    }
                }
                Err(e) => return fail("read", e),
            }
        }
        at = to;
        last_kind = op.to_string();
        if chance(r, 0.6) && at > 0 {
            let mut fr = Rng::clone(r);
            match fill(&mut fr, &db, &versions[at], 2, &mut serial) {
                Ok(n) => ctx.count("rows inserted", n as u64),
                Err(e) => return fail("insert", e),
            }
            let _: u64 = rand::Rng::random(r);
        }
    }
    let _ = last_kind;
    if ctx.evals() < 100 {
        ctx.sample(format!("{lane:?}: {}", log.join(" -- ")));
    }
    *keep = Some(db);
}

/// Undoing a move of the key, which the generated statements get wrong on SQLite.
fn key_move(ctx: &Ctx, lane: Lane) {
    let case = format!("key-move/{}", lane.name());
    if !ctx.want(&case) {
        return;
    }
    let field = |name: &str, pk: bool| Field { name: name.into(), ty: Ty::Plain("i32", B::Int), opt: false, pk, unique: false, default: None };
    let two = |first: bool| Schema { models: vec![Model { name: "Foo".into(), table: None, fields: vec![field("bar", first), field("baz", !first)] }], types: vec![] };
    let db = Db::empty(ctx, lane);
    let mut conn = db.connect();
    let sig = format!("{}-undo-of-key-move", lane.backend_name());
    ctx.eval(1);
    ctx.nontrivial(&sig);
    let done = catch(|| {
        let (ms, _) = chain(&[two(true), two(false)], &nonempty::nonempty![lane.backend()])?;
        ms.migrate(&mut conn)?;
        ms.latest().unwrap().downgrade(&mut conn)
    });
    match done {
        Ok(Ok(())) => {
            drop(conn);
            let (got, mut odd) = catalog(&db).unwrap_or_default();
            odd.extend(compare(&got, &two(true).expected(lane)));
            if !odd.is_empty() {
                ctx.violation(&sig, &case, odd.join("\n"));
            }
        }
        Ok(Err(e)) => ctx.violation(&sig, &case, format!("{e:?}")),
        Err(p) => ctx.violation(&sig, &case, p),
    }
}

fn main() {
    let ctx = Arc::new(Ctx::new("C12", 40, 900));
    ctx.rule("a distinct case is an undo statement text on a backend; an evaluation is one move (undo, redo, all up, all down, an undo without statements) after which records, catalogue and rows are compared with the version arrived at");
    ctx.assume("a move may be refused when the rows present contradict the schema arrived at (nulls, duplicates, missing references, values without a conversion); it must then change nothing and succeed on emptied tables");
    ctx.watchdog(120, None);
    ctx.parallel(&Lane::NATIVE, |lane| {
        if lane != Lane::Turso {
            key_move(&ctx, lane);
        }
        let mut keep = None;
        ctx.cases(&format!("walk/{}", lane.name()), 0.95, 5, usize::MAX, |case, r| walk(&ctx, lane, &mut keep, r, case));
    });
    ctx.finish();
}
