//! C13: migrations apply once, in order, and wholly or not at all.
use butane::migrations::{FsMigrations, MemMigrations, Migration, MigrationMut, Migrations, MigrationsMut};
use rtm::evolve::*;
use rtm::prelude::*;
use std::sync::Barrier;

/// What one migration does: statements for both directions, each leaving a trace in `audit`.
#[derive(Clone, Debug)]
struct Step {
    name: String,
    up: Vec<String>,
    down: Vec<String>,
}
fn ty(lane: Lane) -> &'static str {
    if lane == Lane::Pg {
        "BIGINT"
    } else {
        "INTEGER"
    }
}
fn plan(r: &mut Rng, lane: Lane, n: usize) -> Vec<Step> {
    let mut names: Vec<String> = (0..n).map(|i| format!("{}_{i}", pick(r, &["z", "a", "m", "B", "20240101", "ä", "it's", "x y"]))).collect();
    use rand::seq::SliceRandom;
    names.shuffle(r);
    let mut out = vec![];
    let mut tables: Vec<String> = vec![];
    for (i, name) in names.into_iter().enumerate() {
        let esc = name.replace('\'', "''");
        let mut up = vec![];
        let mut down = vec![];
        if i == 0 {
            up.push("CREATE TABLE butane_migrations (name TEXT NOT NULL PRIMARY KEY)".into());
            up.push(format!("CREATE TABLE audit (n {} NOT NULL, what TEXT NOT NULL)", ty(lane)));
        }
        for _ in 0..1 + below(r, 3) {
            match below(r, 3) {
                0 | 1 => {
                    let t = format!("t{}", tables.len());
                    up.push(format!("CREATE TABLE {t} (id {} NOT NULL PRIMARY KEY, v TEXT)", ty(lane)));
                    up.push(format!("INSERT INTO {t} VALUES ({i}, 'made by {esc}')"));
                    down.insert(0, format!("DROP TABLE {t}"));
                    tables.push(t);
                }
                _ => {
                    let Some(t) = tables.last() else { continue };
                    let k = 1000 + i * 10 + up.len();
                    up.push(format!("INSERT INTO {t} VALUES ({k}, 'semi in {esc}')"));
                    down.insert(0, format!("DELETE FROM {t} WHERE id = {k}"));
                }
            }
        }
        let at = if i == 0 { 2 + below(r, up.len() - 1) } else { below(r, up.len() + 1) };
        up.insert(at, format!("INSERT INTO audit VALUES ({i}, '{esc}')"));
        down.push(format!("DELETE FROM audit WHERE n = {i}"));
        out.push(Step { name, up, down });
    }
    out
}
fn text(s: &[String]) -> String {
    s.iter().map(|x| format!("{x};\n")).collect()
}
fn store<M: MigrationMut>(ms: &mut impl MigrationsMut<M = M>, plan: &[Step], lane: Lane, from: Option<&str>) {
    let mut last = from.map(|s| s.to_string());
    for s in plan {
        let mut m = ms.new_migration(&s.name);
        m.add_sql(lane.backend_name(), &text(&s.up), &text(&s.down)).unwrap();
        m.set_migration_from(last.clone()).unwrap();
        last = Some(s.name.clone());
        ms.add_migration(m).unwrap();
    }
}
fn dump(db: &Db) -> BTreeMap<String, Vec<String>> {
    db.dump().into_iter().collect()
}
fn recorded(d: &BTreeMap<String, Vec<String>>) -> BTreeSet<String> {
    d.get("butane_migrations").cloned().unwrap_or_default().into_iter().collect()
}
/// The state after the first `k` of `plan`, worked out with an SQL engine of our own.
fn model(plan: &[Step], k: usize) -> BTreeMap<String, Vec<String>> {
    let mut out: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for s in &plan[..k] {
        for u in &s.up {
            if let Some(t) = u.strip_prefix("CREATE TABLE ") {
                out.insert(t.split(' ').next().unwrap().into(), vec![]);
            } else if let Some(t) = u.strip_prefix("INSERT INTO ") {
                let (t, v) = t.split_once(" VALUES (").unwrap();
                let (n, s) = v.trim_end_matches(')').split_once(", ").unwrap();
                let s = s.trim_start_matches('\'');
                let s = &s[..s.len() - 1];
                out.get_mut(t).unwrap().push(format!("{n}|{}", s.replace("''", "'")));
            }
        }
        out.get_mut("butane_migrations").unwrap().push(s.name.clone());
    }
    for v in out.values_mut() {
        v.sort();
    }
    out
}
/// Dumps show texts quoted; the model does not.
fn unquote(d: BTreeMap<String, Vec<String>>) -> BTreeMap<String, Vec<String>> {
    d.into_iter()
        .map(|(t, rows)| {
            let mut v: Vec<String> = rows.into_iter().map(|x| x.split('|').map(|c| c.strip_prefix('"').and_then(|c| c.strip_suffix('"')).unwrap_or(c).to_string()).collect::<Vec<_>>().join("|")).collect();
            v.sort();
            (t, v)
        })
        .collect()
}
/// The reports of a migration store agree with `plan[..k]` being applied.
fn reports<S: Migrations>(ms: &S, conn: &butane::db::Connection, plan: &[Step], k: usize) -> Vec<String> {
    let names = |v: Vec<S::M>| v.iter().map(|m| m.name().to_string()).collect::<Vec<_>>();
    let want: Vec<String> = plan.iter().map(|s| s.name.clone()).collect();
    let mut out = vec![];
    let mut check = |what: &str, got: Result<Vec<String>, String>, want: Vec<String>| {
        if got.as_ref() != Ok(&want) {
            out.push(format!("{what} is {got:?}, should be {want:?}"));
        }
    };
    check("all", ms.all_migrations().map(names).map_err(|e| e.to_string()), want.clone());
    check("unapplied", ms.unapplied_migrations(conn).map(names).map_err(|e| e.to_string()), want[k..].to_vec());
    check("last applied", ms.last_applied_migration(conn).map(|m| m.into_iter().map(|m| m.name().to_string()).collect()).map_err(|e| e.to_string()), want[..k].last().cloned().into_iter().collect());
    check("latest", Ok(ms.latest().into_iter().map(|m| m.name().to_string()).collect()), want.last().cloned().into_iter().collect());
    for (i, w) in want.iter().enumerate() {
        match ms.get_migration(w) {
            Some(m) => {
                check("since", ms.migrations_since(&m).map(names).map_err(|e| e.to_string()), want[i + 1..].to_vec());
                check("from", m.migration_from().map(|f| f.map(|f| f.to_string()).into_iter().collect()).map_err(|e| e.to_string()), want[..i].last().cloned().into_iter().collect());
            }
            None => check("get", Ok(vec![]), vec![w.clone()]),
        }
    }
    out
}
#[derive(Clone)]
enum Store {
    Mem(MemMigrations),
    Fs(FsMigrations),
}
macro_rules! on {
    ($s:expr, $m:ident => $e:expr) => {
        match $s {
            Store::Mem($m) => $e,
            Store::Fs($m) => $e,
        }
    };
}
fn build(ctx: &Ctx, r: &mut Rng, lane: Lane, plan: &[Step], tag: &str) -> Store {
    if chance(r, 0.5) && plan.iter().all(|s| !s.name.contains('\'')) {
        let dir = ctx.scratch.join(format!("ms-{tag}-{}", r.random::<u32>()));
        let mut ms = butane::migrations::from_root(&dir);
        store(&mut ms, plan, lane, None);
        // as another process would read it
        Store::Fs(butane::migrations::from_root(&dir))
    } else {
        let mut ms = MemMigrations::new();
        store(&mut ms, plan, lane, None);
        Store::Mem(ms)
    }
}
fn poison(r: &mut Rng, s: &Step) -> (Step, &'static str) {
    let mut s = s.clone();
    let bad = *pick(r, &["SELEC 1", "INSERT INTO no_such_table VALUES (1, 'x')", "INSERT INTO audit VALUES (NULL, 'x')", "CREATE TABLE audit (x TEXT)", "DROP TABLE missing_table", "INSERT INTO butane_migrations VALUES (NULL)"]);
    let at = below(r, s.up.len() + 1);
    let kind = if at == 0 { "first statement" } else if at == s.up.len() { "last statement" } else { "statement in between" };
    s.up.insert(at, bad.to_string());
    (s, kind)
}

/// Histories of migrate, failing migrations, undo, new migrations, with all reports compared.
fn history(ctx: &Ctx, lane: Lane, keep: &mut Option<Db>, r: &mut Rng, case: &str) {
    let db = fresh(ctx, lane, keep);
    let rt = rtm::prelude::rt();
    let n = 2 + below(r, 5);
    let full = plan(r, lane, n);
    let mut known = 1 + below(r, n);
    let mut k = 0usize;
    let mut log = vec![];
    for _ in 0..3 + below(r, 8) {
        let fail = |sig: &str, log: &[String], msg: String| {
            ctx.violation(&format!("{sig}-{}", lane.backend_name()), case, format!("{lane:?}: {msg}\n  {}\n  {}", log.join("; "), full.iter().map(|s| format!("{}: {}", s.name, s.up.join("; "))).collect::<Vec<_>>().join("\n  ")))
        };
        let op = *pick(r, &["migrate", "migrate", "migrate async", "poisoned", "poisoned", "undo", "undo all", "more", "one"]);
        let mut p: Vec<Step> = full[..known].to_vec();
        let want;
        let mut err = false;
        let mut bad = None;
        match op {
            "more" => {
                known = (known + 1 + below(r, 2)).min(n);
                continue;
            }
            "migrate" | "migrate async" => want = known,
            "poisoned" if k < known => {
                let at = k + below(r, known - k);
                let (s, kind) = poison(r, &p[at]);
                p[at] = s;
                bad = Some(kind);
                want = at;
                err = true;
            }
            "undo" if k > 0 => want = k - 1,
            "undo all" => want = 0,
            "one" if k < known => want = k + 1,
            _ => continue,
        }
        log.push(match bad {
            Some(kind) => format!("migrate with a bad {kind} ({k} to {want})"),
            None => format!("{op} ({k} to {want})"),
        });
        let ms = build(ctx, r, lane, &p, "h");
        let before = unquote(dump(&db));
        let result = match op {
            "migrate async" => {
                let spec = db.spec();
                let ms2 = ms.clone();
                catch(|| {
                    rt.block_on(async {
                        let mut conn = butane::db::connect_async(&spec).await?;
                        on!(ms2, m => m.migrate_async(&mut conn).await)
                    })
                })
            }
            _ => {
                let mut conn = db.connect();
                catch(|| match op {
                    "undo" => on!(&ms, m => m.get_migration(&p[k - 1].name).unwrap().downgrade(&mut conn)),
                    "undo all" => on!(&ms, m => m.unmigrate(&mut conn)),
                    "one" => on!(&ms, m => m.get_migration(&p[k].name).unwrap().apply(&mut conn)),
                    _ => on!(&ms, m => m.migrate(&mut conn)),
                })
            }
        };
        ctx.eval(1);
        ctx.nontrivial(&(lane.backend_name(), op, bad, matches!(ms, Store::Mem(_)), known - k, want));
        match (&result, err) {
            (Err(p), _) => return fail("panic", &log, p.clone()),
            (Ok(Err(e)), false) => return fail("refused", &log, e.to_string()),
            (Ok(Ok(())), true) => return fail("accepted", &log, "a migration with a bad statement was applied".into()),
            _ => {}
        }
        if err {
            ctx.count("migrations that failed", 1);
        }
        let after = unquote(dump(&db));
        let mut should = model(&full, want);
        if want == 0 && k > 0 || want == 0 && before.contains_key("audit") {
            // kept by the first undo
            should.insert("audit".into(), vec![]);
            should.insert("butane_migrations".into(), vec![]);
        }
        if after != should {
            return fail("state", &log, format!("after {op}: {after:?}\n  should be {should:?}"));
        }
        if recorded(&after) != full[..want].iter().map(|s| s.name.clone()).collect() {
            return fail("records", &log, format!("{:?}", recorded(&after)));
        }
        let conn = db.connect();
        let rep = on!(&ms, m => reports(m, &conn, &p, want));
        ctx.count("reports compared", 1);
        if !rep.is_empty() {
            return fail("reports", &log, rep.join("\n  "));
        }
        drop(conn);
        k = want;
        if k == 0 {
            // start over where the tables of the first migration are kept
            let fresh_db = after.is_empty();
            if !fresh_db {
                db.raw_exec("DROP TABLE audit").unwrap();
                db.raw_exec("DROP TABLE butane_migrations").unwrap();
            }
        }
        if let Store::Fs(_) = ms {
            ctx.count("stores on disk", 1);
        }
    }
    if ctx.evals() < 100 {
        ctx.sample(format!("{lane:?}: {}", log.join("; ")));
    }
    *keep = Some(db);
}

/// Several connections migrate one database at once.
fn race(ctx: &Ctx, lane: Lane, keep: &mut Option<Db>, r: &mut Rng, case: &str) {
    let db = fresh(ctx, lane, keep);
    let n = 2 + below(r, 5);
    let mut full = plan(r, lane, n);
    if chance(r, 0.5) {
        // nothing but the record keeps these from being applied twice
        for s in full.iter_mut().skip(1) {
            s.up.retain(|u| u.starts_with("INSERT INTO audit"));
        }
    }
    if lane == Lane::Pg && chance(r, 0.7) {
        for s in &mut full {
            let at = below(r, s.up.len() + 1);
            s.up.insert(at, "SELECT pg_sleep(0.004)".into());
        }
    }
    let start = below(r, n);
    let mut ms = MemMigrations::new();
    store(&mut ms, &full[..start], lane, None);
    if let Err(e) = ms.migrate(&mut db.connect()) {
        return ctx.violation("race-setup", case, e.to_string());
    }
    let mut ms = MemMigrations::new();
    store(&mut ms, &full, lane, None);
    let m = 2 + below(r, 4);
    let bar = Arc::new(Barrier::new(m));
    let hs: Vec<_> = (0..m)
        .map(|_| {
            let (spec, ms, bar) = (db.spec(), ms.clone(), bar.clone());
            let tries = 1 + below(r, 2);
            std::thread::spawn(move || {
                let conn = butane::db::connect(&spec);
                bar.wait();
                let mut conn = conn.map_err(|e| e.to_string())?;
                let mut res = Ok(());
                for _ in 0..tries {
                    res = catch(|| ms.migrate(&mut conn)).unwrap_or_else(|p| Err(butane::Error::Internal(format!("PANIC {p}")))).map_err(|e| e.to_string());
                    if res.is_ok() {
                        break;
                    }
                }
                // whoever is told that it is done must find it done
                let left = ms.unapplied_migrations(&conn).map(|v| v.len()).map_err(|e| e.to_string());
                Ok::<_, String>((res, left))
            })
        })
        .collect();
    let mut won = 0;
    let mut lost = 0;
    let fail = |sig: &str, msg: String| ctx.violation(&format!("race-{sig}-{}", lane.backend_name()), case, format!("{lane:?}, {m} at once from {start} of {n}: {msg}"));
    for h in hs {
        match h.join().unwrap() {
            Ok((Ok(()), left)) => {
                won += 1;
                if left.as_ref().is_ok_and(|l| *l > 0) {
                    return fail("told-done", format!("{left:?} migrations are left"));
                }
            }
            Ok((Err(e), _)) => {
                if e.contains("PANIC") {
                    return fail("panic", e);
                }
                lost += 1;
            }
            Err(e) => ctx.inconclusive(format!("connect: {e}")),
        }
    }
    ctx.eval(1);
    ctx.nontrivial(&(lane.backend_name(), m, n - start, won, lost));
    ctx.count("racers told done", won as u64);
    ctx.count("racers refused", lost as u64);
    // some prefix is applied, each exactly once
    let after = unquote(dump(&db));
    let k = recorded(&after).len();
    let mut clean = full.clone();
    for s in &mut clean {
        s.up.retain(|u| !u.starts_with("SELECT"));
    }
    let should = model(&clean, k);
    if after != should {
        return fail("state", format!("{after:?}\n  should be {should:?}"));
    }
    if won > 0 && k < n {
        return fail("told-done", format!("{k} of {n} are applied"));
    }
    // and what is left can be applied
    if let Err(e) = ms.migrate(&mut db.connect()) {
        return fail("resume", e.to_string());
    }
    if unquote(dump(&db)) != model(&clean, n) {
        return fail("resume", "wrong state".into());
    }
    *keep = Some(db);
}

fn main() {
    let ctx = Arc::new(Ctx::new("C13", 30, 900));
    ctx.rule("a distinct case is a kind of step (migrate, one migration, undo, undo all, a migration failing at its first, a middle or its last statement; from a store in memory or on disk) with the number of migrations involved on a backend, or an outcome of a race (contenders, migrations, winners, losers); an evaluation is one step or race, after which all tables, the records and all reports are compared with the plan");
    ctx.assume("of several processes migrating at once, all but one may be refused with an error");
    ctx.watchdog(120, Some("hang"));
    ctx.parallel(&Lane::NATIVE, |lane| {
        let mut keep = None;
        ctx.cases(&format!("history/{}", lane.name()), 0.6, 5, usize::MAX, |case, r| history(&ctx, lane, &mut keep, r, case));
        if lane != Lane::Turso {
            ctx.cases(&format!("race/{}", lane.name()), 0.95, 5, usize::MAX, |case, r| race(&ctx, lane, &mut keep, r, case));
        }
    });
    ctx.finish();
}
