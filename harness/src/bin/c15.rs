//! C15: every migration store holds the same migrations.
use butane::db::Backend;
use butane::migrations::adb::{ATable, DeferredSqlType, TypeKey, ADB};
use butane::migrations::{copy_migration, from_root, FsMigrations, MemMigrations, Migration, MigrationMut, Migrations, MigrationsMut};
use nonempty::NonEmpty;
use rtm::prelude::*;
use rtm::schema::{declare_model, declare_type, Schema};
use std::borrow::Cow;
use std::path::{Path, PathBuf};
use std::sync::Barrier;

/// One migration as a store shows it.
#[derive(Clone, Debug, PartialEq)]
struct Shown {
    name: String,
    from: Option<String>,
    tables: Result<Vec<String>, String>,
    types: Vec<String>,
    sql: BTreeMap<String, (Option<String>, Option<String>)>,
    backends: Vec<String>,
}
#[derive(Clone, Debug, PartialEq)]
struct View {
    latest: Option<String>,
    chain: Result<Vec<Shown>, String>,
    /// names after each migration of the chain
    since: Vec<Vec<String>>,
    known: BTreeMap<String, bool>,
    current: Option<Shown>,
}
const BACKENDS: [&str; 4] = ["sqlite", "pg", "turso", "other"];
/// Statements are the same whether or not the last line is ended.
fn unended(s: String) -> String {
    s.strip_suffix('\n').map(str::to_string).unwrap_or(s)
}
/// The columns of a table may be listed in another order.
fn unordered(sql: String) -> String {
    sql.split(';')
        .map(|st| {
            if st.contains("CREATE TABLE") {
                let mut t: Vec<&str> = st.split([',', '\n', '(', ')']).map(str::trim).collect();
                t.sort();
                t.join(",")
            } else {
                st.to_string()
            }
        })
        .collect::<Vec<_>>()
        .join(";")
}
fn show<M: Migration>(m: &M, resolved_types: bool) -> Shown {
    let err = |e: butane::Error| {
        let t = format!("{e:?}");
        // which kind of error
        t.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
    };
    let db = m.db();
    let mut backends = m.sql_backends().unwrap_or_else(|e| vec![format!("{e:?}")]);
    backends.sort();
    Shown {
        name: m.name().to_string(),
        from: m.migration_from().unwrap_or_else(|e| Some(format!("{e:?}").into())).map(|c| c.to_string()),
        types: match &db {
            Ok(db) if resolved_types => db.types().iter().map(|(k, t)| format!("{k:?} {t:?}")).collect(),
            _ => vec![],
        },
        // the columns of tables which a migration does not change keep the order they had
        tables: db.map(|db| db.tables().map(written).collect()).map_err(err),
        sql: BACKENDS.iter().map(|b| (b.to_string(), (m.up_sql(b).unwrap_or_else(|e| Some(format!("{e:?}"))).map(unended).map(unordered), m.down_sql(b).unwrap_or_else(|e| Some(format!("{e:?}"))).map(unended).map(unordered)))).collect(),
        backends,
    }
}
fn written(t: &ATable) -> String {
    let mut t = t.clone();
    t.columns.sort_by(|a, b| a.name().cmp(b.name()));
    serde_json::to_string(&t).unwrap()
}
fn view<T: MigrationsMut>(ms: &mut T, names: &[String], current: bool) -> View
where
    T::M: MigrationMut,
{
    let all = ms.all_migrations();
    View {
        latest: ms.latest().map(|m| m.name().to_string()),
        since: all.iter().flatten().map(|m| ms.migrations_since(m).map(|v| v.iter().map(|m| m.name().to_string()).collect()).unwrap_or_else(|e| vec![format!("{e:?}")])).collect(),
        chain: all.map(|v| v.iter().map(|m| show(m, true)).collect()).map_err(|e| format!("{e:?}")),
        known: names.iter().map(|n| (n.clone(), ms.get_migration(n).is_some_and(|m| m.name() == *n))).collect(),
        current: current.then(|| show(ms.current(), true)),
    }
}
fn differ(a: &View, b: &View) -> String {
    let cut = |s: String| s.chars().take(700).collect::<String>();
    if a.latest != b.latest {
        return format!("latest {:?} / {:?}", a.latest, b.latest);
    }
    if a.since != b.since || a.known != b.known {
        return format!("names {:?} {:?} / {:?} {:?}", a.since, a.known, b.since, b.known);
    }
    if a.current != b.current {
        return cut(format!("current\n  {:?}\n  {:?}", a.current, b.current));
    }
    if let (Ok(x), Ok(y)) = (&a.chain, &b.chain) {
        for (x, y) in x.iter().zip(y) {
            if x != y {
                if x.tables != y.tables {
                    let (t, u) = (x.tables.clone().unwrap_or_default(), y.tables.clone().unwrap_or_default());
                    let d: Vec<_> = t.iter().filter(|z| !u.contains(z)).collect();
                    let e: Vec<_> = u.iter().filter(|z| !t.contains(z)).collect();
                    return cut(format!("{}: tables {d:?} / {e:?}", x.name));
                }
                if x.sql != y.sql {
                    for (k, v) in &x.sql {
                        if y.sql.get(k) != Some(v) {
                            return cut(format!("{} {k}:\n  {v:?}\n  {:?}", x.name, y.sql.get(k)));
                        }
                    }
                }
                return cut(format!("{}: from {:?} types {:?} backends {:?} / from {:?} types {:?} backends {:?}", x.name, x.from, x.types, x.backends, y.from, y.types, y.backends));
            }
        }
    }
    cut(format!("{:?} / {:?}", a.chain, b.chain))
}
/// What was said to the current state, kept independently of any store.
#[derive(Clone, Debug, Default, PartialEq)]
struct Said {
    tables: BTreeMap<String, ATable>,
    types: BTreeMap<TypeKey, DeferredSqlType>,
}
impl Said {
    fn tables(&self) -> Result<Vec<String>, ()> {
        let mut a = ADB::new();
        for t in self.tables.values() {
            a.replace_table(t.clone());
        }
        for (k, v) in &self.types {
            a.add_type(k.clone(), v.clone());
        }
        a.resolve_types().map_err(|_| ())?;
        Ok(a.tables().map(written).collect())
    }
}
impl PartialEq for Rec {
    fn eq(&self, _: &Self) -> bool {
        false
    }
}
/// A store which only listens.
#[derive(Clone, Debug, Default)]
struct Rec {
    said: Said,
}
impl Migration for Rec {
    fn db(&self) -> butane::Result<ADB> {
        unimplemented!()
    }
    fn migration_from(&self) -> butane::Result<Option<Cow<'_, str>>> {
        Ok(None)
    }
    fn name(&self) -> Cow<'_, str> {
        "rec".into()
    }
    fn up_sql(&self, _: &str) -> butane::Result<Option<String>> {
        Ok(None)
    }
    fn down_sql(&self, _: &str) -> butane::Result<Option<String>> {
        Ok(None)
    }
    fn sql_backends(&self) -> butane::Result<Vec<String>> {
        Ok(vec![])
    }
}
impl MigrationMut for Rec {
    fn add_modified_table(&mut self, t: &ATable) -> butane::Result<()> {
        self.said.tables.insert(t.name.clone(), t.clone());
        Ok(())
    }
    fn add_unmodified_table(&mut self, _: &ATable, _: &str) -> butane::Result<()> {
        unimplemented!()
    }
    fn delete_table(&mut self, n: &str) -> butane::Result<()> {
        self.said.tables.remove(n);
        Ok(())
    }
    fn add_sql(&mut self, _: &str, _: &str, _: &str) -> butane::Result<()> {
        Ok(())
    }
    fn remove_sql(&mut self, _: &str) -> butane::Result<()> {
        Ok(())
    }
    fn add_type(&mut self, k: TypeKey, t: DeferredSqlType) -> butane::Result<()> {
        self.said.types.insert(k, t);
        Ok(())
    }
    fn set_migration_from(&mut self, _: Option<String>) -> butane::Result<()> {
        Ok(())
    }
}
#[derive(Clone, Debug, Default)]
struct Recs {
    current: Rec,
}
impl Migrations for Recs {
    type M = Rec;
    fn get_migration(&self, _: &str) -> Option<Rec> {
        None
    }
    fn latest(&self) -> Option<Rec> {
        None
    }
}
impl MigrationsMut for Recs {
    fn new_migration(&self, _: &str) -> Rec {
        Rec::default()
    }
    fn add_migration(&mut self, _: Rec) -> butane::Result<()> {
        Ok(())
    }
    fn delete_migrations(&mut self) -> butane::Result<()> {
        Ok(())
    }
    fn current(&mut self) -> &mut Rec {
        &mut self.current
    }
    fn clear_current(&mut self) -> butane::Result<()> {
        self.current = Rec::default();
        Ok(())
    }
}
fn backends(r: &mut Rng) -> (Vec<&'static str>, NonEmpty<Box<dyn Backend>>) {
    let mut n: Vec<&'static str> = ["sqlite", "pg", "turso"].into_iter().filter(|_| chance(r, 0.6)).collect();
    if n.is_empty() {
        n.push("pg");
    }
    let v = NonEmpty::from_vec(n.iter().map(|b| butane::db::get_backend(b).unwrap()).collect()).unwrap();
    (n, v)
}
fn statement(r: &mut Rng) -> String {
    let s = match below(r, 8) {
        0 => String::new(),
        1 => "SELECT 1;\n".into(),
        2 => "a\r\nb".into(),
        3 => "x '\"#' \"## \\ r#\"y\"#;".into(),
        4 => "\n\n".into(),
        5 => "-- é \u{2028} \u{7} \0".into(),
        _ => text(r),
    };
    s
}
/// The text a generated source file holds.
fn embedded(file: &Path) -> Result<String, String> {
    let src = std::fs::read_to_string(file).map_err(|e| e.to_string())?;
    let f = syn::parse_file(&src).map_err(|e| format!("the generated source does not compile: {e}"))?;
    fn lits(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Literal(l) => {
                    if let syn::Lit::Str(s) = syn::Lit::new(l) {
                        out.push(s.value());
                    }
                }
                proc_macro2::TokenTree::Group(g) => lits(g.stream(), out),
                _ => {}
            }
        }
    }
    let mut out = vec![];
    for i in f.items {
        if let syn::Item::Fn(f) = i {
            use proc_macro2::TokenStream;
            let b = f.block.stmts.into_iter().map(|s| { let mut t = TokenStream::new(); syn_tokens(s, &mut t); t });
            for t in b {
                lits(t, &mut out);
            }
        }
    }
    out.into_iter().max_by_key(|s| s.len()).ok_or("no text in the generated source".into())
}
fn syn_tokens(s: syn::Stmt, t: &mut proc_macro2::TokenStream) {
    use quote::ToTokens;
    s.to_tokens(t);
}

fn store_history(ctx: &Ctx, proj: &Path, r: &mut Rng, case: &str) {
    let root = proj.join(".butane/migrations");
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    std::fs::create_dir_all(proj.join("src")).unwrap();
    let mut fs = FsMigrations::new(root.clone());
    let mut mem = MemMigrations::new();
    let mut rec = Recs::default();
    let mut s = Schema::generate(r);
    let mut names: Vec<String> = vec![];
    let mut contents: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut log: Vec<String> = vec![];
    let mut declared = false;
    macro_rules! fail {
        ($sig:expr, $($t:tt)*) => { return ctx.violation($sig, case, format!("{}\n  {}", format!($($t)*), log.join("\n  "))) };
    }
    macro_rules! both {
        ($what:expr, |$ms:ident| $e:expr) => {{
            let a = catch(|| { let $ms = &mut fs; $e });
            let b = catch(|| { let $ms = &mut mem; $e });
            match (a, b) {
                (Ok(a), Ok(b)) => match (&a, &b) {
                    (Err(x), Err(y)) => {
                        let _ = (x, y);
                        ctx.count("refused by both stores", 1);
                        None
                    }
                    (Ok(_), Ok(_)) => Some((a.ok().unwrap(), b.ok().unwrap())),
                    (x, y) => fail!("one-store-refuses", "{}: on disk {:?}, in memory {:?}", $what, x.as_ref().err(), y.as_ref().err()),
                },
                (Err(p), _) => fail!("panic-on-disk", "{}: {p}", $what),
                (_, Err(p)) => fail!("panic-in-memory", "{}: {p}", $what),
            }
        }};
    }
    for step in 0..4 + below(r, 12) {
        let op = if step == 0 { 0 } else { below(r, 14) };
        match op {
            0..=3 => {
                // the program changes and is built
                if step > 0 {
                    for _ in 0..1 + below(r, 3) {
                        s.mutate(r);
                    }
                }
                let mut o = s.clone();
                if chance(r, 0.5) {
                    o.models.shuffle(r);
                }
                log.push(format!("declare {}", o.text()));
                if let Err(p) = catch(|| o.declare(&mut rec)) {
                    return ctx.inconclusive(format!("{case}: {p}"));
                }
                both!("declare", |ms| {
                    for t in &o.types {
                        declare_type(t, ms);
                    }
                    for m in &o.models {
                        declare_model(&o, m, ms);
                    }
                    Ok::<(), ()>(())
                });
                declared = true;
            }
            4 => {
                let have: Vec<String> = rec.current.said.tables.keys().cloned().collect();
                if let Some(t) = have.choose(r) {
                    log.push(format!("delete table {t}"));
                    rec.current.delete_table(t).unwrap();
                    both!("delete table", |ms| ms.current().delete_table(t));
                }
            }
            5 if declared => {
                log.push("clean".into());
                rec.clear_current().unwrap();
                both!("clean", |ms| ms.clear_current());
                declared = false;
            }
            6..=9 => {
                let name = format!("{}{step}", pick(r, &["2024_init ", "Ä", "it's ", "a.b", "v", "#\""]));
                let (bn, b) = backends(r);
                // usually from the latest, sometimes a branch
                let from = if chance(r, 0.9) || names.is_empty() { fs.latest().map(|m| m.name().to_string()) } else { Some(pick(r, &names).clone()) };
                if from.is_none() && fs.latest().is_some() {
                    continue;
                }
                log.push(format!("make {name:?} from {from:?} for {bn:?}"));
                let Some((x, y)) = both!("make", |ms| {
                    let f = from.as_ref().map(|n| ms.get_migration(n).expect("base"));
                    ms.create_migration(&b, &name, f.as_ref())
                }) else { continue };
                if x != y {
                    fail!("made-in-one", "made on disk {x}, in memory {y}");
                }
                let want = rec.current.said.tables().unwrap_or_default();
                let base = from.as_ref().map(|n| contents[n].clone()).unwrap_or_default();
                let same = |a: &[String], b: &[String]| {
                    let cols = |t: &str| { let mut t: ATable = serde_json::from_str(t).unwrap(); t.columns.sort_by(|a, b| a.name().cmp(b.name())); t };
                    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| cols(a) == cols(b))
                };
                if x == same(&want, &base) {
                    fail!("made-for-nothing", "made: {x}; from {base:?}\n to {want:?}");
                }
                if x {
                    // the columns of tables which were not changed keep the order they had
                    contents.insert(name.clone(), want);
                    names.push(name.clone());
                    ctx.count("migrations made", 1);
                }
            }
            10 | 11 if !names.is_empty() => {
                let n = pick(r, &names).clone();
                let b = *pick(r, &BACKENDS);
                let (up, down) = (statement(r), statement(r));
                log.push(format!("sql of {n:?} for {b}: {up:?} {down:?}"));
                both!("add sql", |ms| ms.get_migration(&n).ok_or(butane::Error::NoSuchObject).and_then(|mut m| m.add_sql(b, &up, &down).map(|_| m)).and_then(|m| ms.add_migration_again(m)));
            }
            12 if !names.is_empty() => {
                let n = pick(r, &names).clone();
                let have = fs.get_migration(&n).map(|m| m.sql_backends().unwrap()).unwrap_or_default();
                if let Some(b) = have.choose(r) {
                    log.push(format!("no sql of {n:?} for {b}"));
                    both!("remove sql", |ms| ms.get_migration(&n).ok_or(butane::Error::NoSuchObject).and_then(|mut m| m.remove_sql(b).map(|_| m)).and_then(|m| ms.add_migration_again(m)));
                }
            }
            13 if chance(r, 0.2) => {
                log.push("delete all".into());
                both!("delete all", |ms| ms.delete_migrations());
                contents.clear();
                names.clear();
            }
            _ => continue,
        }
        if chance(r, 0.5) {
            fs = from_root(&root);
        }
        ctx.eval(1);
        let (a, b) = (view(&mut fs, &names, true), view(&mut mem, &names, true));
        if a != b {
            fail!("stores-differ", "disk / memory: {}", differ(&a, &b));
        }
        // what was said is what is held
        let cur = a.current.as_ref().unwrap();
        match (rec.current.said.tables(), &cur.tables) {
            (Ok(w), Ok(g)) if w == *g => {}
            (Err(_), Err(_)) => {}
            (w, g) => fail!("current", "holds {g:?}\n said {w:?}"),
        }
        for m in a.chain.iter().flatten() {
            let names = |v: &[String]| v.iter().map(|t| serde_json::from_str::<ATable>(t).unwrap()).map(|mut t| { t.columns.sort_by(|a, b| a.name().cmp(b.name())); t }).collect::<Vec<_>>();
            match &m.tables {
                Ok(t) if names(t) == names(&contents[&m.name]) => {}
                t => fail!("migration-holds", "{} holds {t:?}\n made of {:?}", m.name, contents[&m.name]),
            }
        }
    }
    let a = view(&mut fs, &names, false);
    let len = a.chain.as_ref().map(|c| c.len()).unwrap_or(0);
    ctx.max("longest chain", len as u64);
    if len == 0 {
        return;
    }
    ctx.nontrivial(&format!("{a:?}"));
    // other routes
    let text = serde_json::to_string_pretty(&mem).unwrap();
    let mut routes: Vec<(&str, View)> = vec![];
    let mut json = match MemMigrations::from_json(&text) {
        Ok(j) => j,
        Err(e) => fail!("json", "{e:?}"),
    };
    if view(&mut json, &names, true) != view(&mut mem, &names, true) {
        fail!("json", "{}", differ(&view(&mut json, &names, true), &view(&mut mem, &names, true)));
    }
    macro_rules! copy {
        ($from:expr, $to:expr) => {{
            let mut to = $to;
            let c = || -> butane::Result<()> {
                for m in $from.all_migrations()? {
                    let mut n = to.new_migration(&m.name());
                    copy_migration(&m, &mut n)?;
                    to.add_migration(n)?;
                }
                Ok(())
            };
            match catch(c) {
                Ok(Ok(())) => to,
                e => fail!("copy", "{e:?}"),
            }
        }};
    }
    let chain: Vec<String> = a.chain.iter().flatten().map(|m| m.name.clone()).collect();
    let a = view(&mut fs, &chain, false);
    let mut m2 = copy!(fs, MemMigrations::new());
    routes.push(("disk to memory", view(&mut m2, &chain, false)));
    let root2 = proj.join("copy");
    let _ = std::fs::remove_dir_all(&root2);
    std::fs::create_dir_all(&root2).unwrap();
    let f2 = copy!(m2, from_root(&root2));
    drop(f2);
    routes.push(("memory to disk", view(&mut from_root(&root2), &chain, false)));
    // through the generated source
    if chance(r, 0.5) || ctx.replaying() {
        let cli = std::env::var("RTM_CLI").unwrap();
        let out = std::process::Command::new(&cli).arg("-p").arg(proj).arg("embed").current_dir(proj).output().expect("cli");
        if !out.status.success() {
            fail!("embed", "{}", String::from_utf8_lossy(&out.stderr));
        }
        match embedded(&proj.join("src/butane_migrations.rs")).and_then(|t| MemMigrations::from_json(&t).map_err(|e| format!("{e:?}"))) {
            Ok(mut e) => routes.push(("embedded", view(&mut e, &chain, false))),
            Err(e) => fail!("embedded", "{e}"),
        }
        ctx.count("embedded", 1);
    }
    for (route, v) in &routes {
        ctx.eval(1);
        if *v != a {
            fail!(&format!("route {route}").replace(' ', "-"), "original / copy: {}", differ(&a, v));
        }
    }
    if ctx.evals() < 3000 && chance(r, 0.05) {
        ctx.sample(log.iter().filter(|l| !l.starts_with("declare")).cloned().collect::<Vec<_>>().join("; "));
    }
}
/// Put a changed migration back: in memory it is a copy, on disk it is in place already.
trait Again: MigrationsMut
where
    Self::M: MigrationMut,
{
    fn add_migration_again(&mut self, m: Self::M) -> butane::Result<()>;
}
impl Again for FsMigrations {
    fn add_migration_again(&mut self, _: Self::M) -> butane::Result<()> {
        Ok(())
    }
}
impl Again for MemMigrations {
    fn add_migration_again(&mut self, m: Self::M) -> butane::Result<()> {
        self.add_migration(m)
    }
}

/// Several compilers writing one directory.
fn compilers(ctx: &Ctx, root: &PathBuf, r: &mut Rng, case: &str) {
    let _ = std::fs::remove_dir_all(root);
    let exists = chance(r, 0.5);
    if exists {
        std::fs::create_dir_all(root).unwrap();
        if chance(r, 0.5) {
            std::fs::create_dir_all(root.join("current")).unwrap();
        }
    }
    // each has its own items and some shared ones, perhaps in a version of its own
    let n = 2 + below(r, 4);
    let own: Vec<Vec<String>> = (0..n)
        .map(|w| {
            let mut v: Vec<String> = (0..1 + below(r, 4)).map(|i| format!("T pub type Own{w}x{i} = i32;")).collect();
            v.extend((0..1 + below(r, 3)).map(|i| format!("M pub struct Mine{w}x{i} {{ pub id: i64, pub t: Own{w}x0, pub s: Shared0 }}")));
            let wide = |r: &mut Rng| if chance(r, 0.5) { "pub extra: String, pub quite_a_long_field_name_to_make_it_longer: Option<i64>, " } else { "" };
            v.push(format!("M pub struct Both0 {{ pub id: i64, {}pub n: i32 }}", wide(r)));
            v.push(format!("M pub struct Both1 {{ pub id: i64, {}pub n: Shared1 }}", wide(r)));
            v.push("T pub type Shared0 = String;".into());
            v.push("T pub type Shared1 = f64;".into());
            v.shuffle(r);
            v
        })
        .collect();
    let go = Barrier::new(n + 1);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let mut panics = vec![];
    let mut bad_reads = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = own
            .iter()
            .map(|items| {
                let go = &go;
                s.spawn(move || {
                    let mut ms = from_root(root);
                    go.wait();
                    catch(|| {
                        for i in items {
                            let ts = i[2..].parse().unwrap();
                            let out = if i.starts_with('T') {
                                butane_core::codegen::butane_type_with_migrations(Default::default(), ts, &mut ms)
                            } else {
                                butane_core::codegen::model_with_migrations(ts, &mut ms)
                            }
                            .to_string();
                            assert!(!out.contains("compile_error"), "{i}: {out}");
                        }
                    })
                })
            })
            .collect();
        let reader = {
            let (go, stop) = (&go, &stop);
            s.spawn(move || {
                go.wait();
                let mut bad = vec![];
                let mut n = 0u64;
                while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                    match catch(|| from_root(root).current().db()) {
                        Ok(Ok(_)) => {}
                        Ok(Err(butane::Error::CannotResolveType(_))) => {}
                        e => bad.push(format!("{:?}", e.map(|r| r.map(|_| ())))),
                    }
                    n += 1;
                }
                (bad, n)
            })
        };
        for h in hs {
            if let Ok(Err(p)) = h.join() {
                panics.push(p);
            }
        }
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
        let (bad, n) = reader.join().unwrap();
        bad_reads = bad;
        ctx.count("reads while written", n);
    });
    ctx.eval(n as u64);
    ctx.nontrivial(&format!("{own:?}"));
    let text = own.iter().map(|v| v.join("\n    ")).collect::<Vec<_>>().join("\n  --\n    ");
    if let Some(p) = panics.first() {
        return ctx.violation("compiler-fails", case, format!("{p}\n{text}"));
    }
    if let Some(p) = bad_reads.first() {
        return ctx.violation("read-while-written", case, format!("{p}\n{text}"));
    }
    let db = match catch(|| from_root(root).current().db()) {
        Ok(Ok(db)) => db,
        e => return ctx.violation("left-unreadable", case, format!("{:?}\n{text}", e.map(|r| r.map(|_| ())))),
    };
    // each table must be one of the versions said, and none may be missing
    let mut want: BTreeMap<String, Vec<Vec<String>>> = BTreeMap::new();
    let mut types: BTreeSet<TypeKey> = BTreeSet::new();
    for items in &own {
        let mut rec = Recs::default();
        for i in items {
            let ts = i[2..].parse().unwrap();
            if i.starts_with('T') {
                butane_core::codegen::butane_type_with_migrations(Default::default(), ts, &mut rec);
            } else {
                butane_core::codegen::model_with_migrations(ts, &mut rec);
            }
        }
        for (n, t) in rec.current.said.tables {
            want.entry(n).or_default().push(t.columns.iter().map(|c| c.name().to_string()).collect());
        }
        types.extend(rec.current.said.types.into_keys());
    }
    let got: BTreeMap<String, Vec<String>> = db.tables().map(|t| (t.name.clone(), t.columns.iter().map(|c| c.name().to_string()).collect())).collect();
    for (n, versions) in &want {
        match got.get(n) {
            None => return ctx.violation("table-lost", case, format!("{n}\n{text}")),
            Some(g) if versions.contains(g) => {}
            Some(g) => return ctx.violation("table-mixed", case, format!("{n}: {g:?}\n{text}")),
        }
    }
    for k in &types {
        if !db.types().contains_key(k) {
            return ctx.violation("type-lost", case, format!("{k:?} of {:?}\n{text}", db.types().keys()));
        }
    }
    ctx.count("tables written by several compilers", want.len() as u64);
    if got.len() != want.len() || db.types().len() != types.len() {
        ctx.violation("too-many", case, format!("{:?}", got.keys()));
    }
}

fn main() {
    let ctx = Arc::new(Ctx::new("C15", 30, 900));
    ctx.rule("after every operation the store on disk, the one in memory and an independent record of what was declared agree; copies, serialised and embedded forms agree with the original; several compilers lose nothing");
    ctx.assume("statements are compared without the newline at their end, which the store on disk adds");
    ctx.watchdog(if ctx.thorough { 2000 } else { 300 }, None);
    let k: Vec<usize> = (0..6).collect();
    ctx.parallel(&k, |i| {
        let dir = ctx.scratch.join(format!("p{i}"));
        std::fs::create_dir_all(&dir).unwrap();
        if i < 4 {
            ctx.cases(&format!("stores/{i}"), 1.0, 5, usize::MAX, |case, r| store_history(&ctx, &dir, r, case));
        } else {
            ctx.cases(&format!("compilers/{i}"), 1.0, 5, usize::MAX, |case, r| compilers(&ctx, &dir.join("m"), r, case));
        }
    });
    ctx.finish();
}
