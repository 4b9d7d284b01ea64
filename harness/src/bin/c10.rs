//! C10: a crash keeps exactly the committed work.
//!
//! The binary runs itself as a child which works on a database and writes `B i`/`C i` to a pipe
//! around each unit of work. The child is killed before, in the middle of or after its n-th
//! system call that writes (or that talks to the server), or at a random time. The reopened
//! database must hold what the acknowledged units make of it, possibly with the unit begun last.
use butane::db::Connection;
use butane::migrations::{MemMigrations, Migration, Migrations};
use butane::prelude::{DataObjectOpsSync, QueryOpsSync};
use butane::{AutoPk, DataResult, Many, ManyOpsSync};
use rand::SeedableRng;
use rtm::models::*;
use rtm::prelude::*;
use rtm::schema::{catalog, chain, compare, fill, Catalog, Schema};
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};

// --- dying at a system call ---------------------------------------------------------------
mod die {
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
    pub static ARMED: AtomicBool = AtomicBool::new(false);
    pub static AT: AtomicU64 = AtomicU64::new(0);
    pub static MODE: AtomicU64 = AtomicU64::new(0);
    pub static SEEN: AtomicU64 = AtomicU64::new(0);
    pub fn say(s: &str) {
        unsafe { libc::syscall(libc::SYS_write, 1, s.as_ptr(), s.len()) };
    }
    pub fn die(what: &str) -> ! {
        say(&format!("K {what}\n"));
        unsafe {
            libc::syscall(libc::SYS_kill, libc::getpid(), libc::SIGKILL);
            loop {
                libc::pause();
            }
        }
    }
    /// 0: go on, 1: die now, 2: do half, then die, 3: do it all, then die
    pub fn turn() -> u64 {
        if !ARMED.load(SeqCst) || SEEN.fetch_add(1, SeqCst) + 1 != AT.load(SeqCst) {
            return 0;
        }
        1 + MODE.load(SeqCst)
    }
}
macro_rules! hook {
    ($name:ident, $sys:ident, ($($a:ident: $t:ty),*), ($($x:expr),*), $half:expr) => {
        /// # Safety
        /// As the C function.
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> isize {
            let ret = |r: libc::c_long| r as isize;
            match die::turn() {
                0 => ret(libc::syscall(libc::$sys, $($a,)* $($x),*)),
                1 => die::die(concat!("before ", stringify!($name))),
                2 => {
                    #[allow(clippy::redundant_closure_call)]
                    ($half)($($a),*);
                    die::die(concat!("halfway ", stringify!($name)))
                }
                _ => {
                    libc::syscall(libc::$sys, $($a,)* $($x),*);
                    die::die(concat!("after ", stringify!($name)))
                }
            }
        }
    };
}
type P = *const libc::c_void;
hook!(pwrite64, SYS_pwrite64, (fd: i32, b: P, n: usize, o: i64), (), |fd: i32, b: P, n: usize, o: i64| libc::syscall(libc::SYS_pwrite64, fd, b, n / 2, o));
hook!(pwrite, SYS_pwrite64, (fd: i32, b: P, n: usize, o: i64), (), |fd: i32, b: P, n: usize, o: i64| libc::syscall(libc::SYS_pwrite64, fd, b, n / 2, o));
hook!(write, SYS_write, (fd: i32, b: P, n: usize), (), |fd: i32, b: P, n: usize| libc::syscall(libc::SYS_write, fd, b, n / 2));
hook!(send, SYS_sendto, (fd: i32, b: P, n: usize, f: i32), (0usize, 0usize), |fd: i32, b: P, n: usize, f: i32| libc::syscall(libc::SYS_sendto, fd, b, n / 2, f, 0usize, 0usize));
hook!(recv, SYS_recvfrom, (fd: i32, b: P, n: usize, f: i32), (0usize, 0usize), |_fd: i32, _b: P, _n: usize, _f: i32| ());
hook!(writev, SYS_writev, (fd: i32, b: P, n: i32), (), |_fd: i32, _b: P, _n: i32| ());
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    quick(libc::SYS_fsync, fd as usize, 0, "fsync")
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    quick(libc::SYS_fdatasync, fd as usize, 0, "fdatasync")
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    quick(libc::SYS_ftruncate, fd as usize, n as usize, "ftruncate")
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, n: i64) -> i32 {
    quick(libc::SYS_ftruncate, fd as usize, n as usize, "ftruncate")
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const libc::c_char) -> i32 {
    quick(libc::SYS_unlink, p as usize, 0, "unlink")
}
unsafe fn quick(sys: libc::c_long, a: usize, b: usize, what: &str) -> i32 {
    match die::turn() {
        0 => libc::syscall(sys, a, b) as i32,
        1 => die::die(&format!("before {what}")),
        _ => {
            libc::syscall(sys, a, b);
            die::die(&format!("after {what}"))
        }
    }
}

// --- the work -------------------------------------------------------------------------------
type World = BTreeMap<&'static str, BTreeSet<String>>;

#[derive(Clone, Debug, Hash)]
enum Op {
    Text(String, String, Option<i64>),
    DelText(String),
    QDelTexts(i64),
    Account(i64, i64),
    Event(i64, String),
    Labels(Vec<i32>),
}
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum End {
    /// one save outside a transaction
    Alone,
    Commit,
    Rollback,
    Drop,
}
#[derive(Clone, Debug, Hash)]
struct Unit {
    ops: Vec<Op>,
    end: End,
}
const KEYS: [&str; 8] = ["a", "b", "c", "it's", "ä", "f", "g", "h"];

fn units(seed: u64, n: usize) -> Vec<Unit> {
    let mut r = Rng::seed_from_u64(seed);
    let r = &mut r;
    let mut serial = 0;
    (0..n)
        .map(|_| {
            let end = *pick(r, &[End::Alone, End::Alone, End::Commit, End::Commit, End::Commit, End::Commit, End::Rollback, End::Drop]);
            let k = if end == End::Alone { 1 } else { 1 + below(r, 6) };
            let ops = (0..k)
                .map(|_| {
                    serial += 1;
                    match below(r, if end == End::Alone { 9 } else { 12 }) {
                        0..=2 => Op::Text(pick(r, &KEYS).to_string(), if chance(r, 0.2) { "x".repeat(below(r, 9000)) } else { text(r) }, opt(r, 0.3, |r| below(r, 4) as i64)),
                        3 => Op::DelText(pick(r, &KEYS).to_string()),
                        4 => Op::QDelTexts(below(r, 4) as i64),
                        5 | 6 => Op::Account(below(r, 4) as i64, serial),
                        7 | 8 => Op::Event(serial, word(r)),
                        _ => Op::Labels((0..4).filter(|_| chance(r, 0.5)).collect()),
                    }
                })
                .collect();
            Unit { ops, end }
        })
        .collect()
}
fn line(parts: &[String]) -> String {
    parts.join("|")
}
fn show_opt(n: &Option<i64>) -> String {
    n.map(|n| n.to_string()).unwrap_or("-".into())
}
fn model(w: &mut World, u: &Unit) {
    if matches!(u.end, End::Rollback | End::Drop) {
        return;
    }
    for op in &u.ops {
        match op {
            Op::Text(k, v, n) => {
                let t = w.entry("text").or_default();
                t.retain(|l| !l.starts_with(&format!("{k}|")));
                t.insert(line(&[k.clone(), show_opt(n), format!("{v:?}")]));
            }
            Op::DelText(k) => w.entry("text").or_default().retain(|l| !l.starts_with(&format!("{k}|"))),
            Op::QDelTexts(n) => w.entry("text").or_default().retain(|l| l.split('|').nth(1) != Some(&n.to_string())),
            Op::Account(id, b) => {
                let t = w.entry("account").or_default();
                t.retain(|l| !l.starts_with(&format!("{id}|")));
                t.insert(line(&[id.to_string(), b.to_string()]));
            }
            Op::Event(s, t) => {
                w.entry("event").or_default().insert(line(&[s.to_string(), t.clone()]));
            }
            Op::Labels(l) => {
                w.insert("team", l.iter().map(|c| c.to_string()).collect());
            }
        }
    }
}
fn blank() -> World {
    ["text", "account", "event", "team"].into_iter().map(|t| (t, BTreeSet::new())).collect()
}
fn plain(v: &Raw) -> String {
    match v {
        Raw::Null => "-".into(),
        Raw::Int(i) => i.to_string(),
        Raw::Text(t) => t.clone(),
        o => o.show(),
    }
}
/// The tables as an independent driver sees them.
fn raw_world(db: &Db) -> Result<World, String> {
    let mut w = blank();
    let names = db.tables();
    let t = |n: &str| names.iter().find(|x| x.eq_ignore_ascii_case(n)).cloned().unwrap_or_else(|| panic!("{n} not in {names:?}"));
    for r in db.raw_rows(&format!("SELECT \"key\", n, v FROM \"{}\"", t("KText")))? {
        w.get_mut("text").unwrap().insert(line(&[plain(&r[0]), plain(&r[1]), format!("{:?}", plain(&r[2]))]));
    }
    for r in db.raw_rows(&format!("SELECT id, balance FROM \"{}\"", t("Account")))? {
        w.get_mut("account").unwrap().insert(line(&[plain(&r[0]), plain(&r[1])]));
    }
    let mut events = 0;
    for r in db.raw_rows(&format!("SELECT seq, tag FROM \"{}\"", t("Event")))? {
        events += 1;
        w.get_mut("event").unwrap().insert(line(&[plain(&r[0]), plain(&r[1])]));
    }
    if events != w["event"].len() {
        return Err(format!("{events} event rows, {} distinct", w["event"].len()));
    }
    for r in db.raw_rows(&format!("SELECT has FROM \"{}\"", t("Team_labels_Many")))? {
        w.get_mut("team").unwrap().insert(plain(&r[0]));
    }
    Ok(w)
}
/// The tables as loaded through the library.
fn loaded_world(c: &Connection) -> butane::Result<World> {
    let mut w = blank();
    for t in KText::query().load(c)? {
        w.get_mut("text").unwrap().insert(line(&[t.key, show_opt(&t.n), format!("{:?}", t.v)]));
    }
    for a in Account::query().load(c)? {
        w.get_mut("account").unwrap().insert(line(&[a.id.to_string(), a.balance.to_string()]));
    }
    for e in Event::query().load(c)? {
        w.get_mut("event").unwrap().insert(line(&[e.seq.to_string(), e.tag]));
    }
    for t in Team::query().load(c)? {
        for l in t.labels.load(c)? {
            w.get_mut("team").unwrap().insert(l.code.to_string());
        }
    }
    Ok(w)
}
fn run_op(c: &impl butane::db::ConnectionMethods, op: &Op) -> butane::Result<()> {
    match op {
        Op::Text(k, v, n) => KText { key: k.clone(), v: v.clone(), n: *n }.save(c),
        Op::DelText(k) => match KText::try_get(c, k.clone())? {
            Some(t) => t.delete(c),
            None => Ok(()),
        },
        Op::QDelTexts(n) => KText::query().filter(butane::filter!(KText, n == { Some(*n) })).delete(c).map(|_| ()),
        Op::Account(id, b) => Account { id: *id, balance: *b, seq: 0 }.save(c),
        Op::Event(s, t) => Event { id: AutoPk::uninitialized(), worker: 1, seq: *s, tag: t.clone() }.save(c),
        Op::Labels(codes) => {
            let mut team = Team::get(c, "t".to_string())?;
            let have: Vec<Label> = team.labels.load(c)?.cloned().collect();
            for l in &have {
                if !codes.contains(&l.code) {
                    team.labels.remove(l);
                }
            }
            for code in codes {
                if !have.iter().any(|l| l.code == *code) {
                    team.labels.add(&Label { code: *code, text: String::new(), prio: None })?;
                }
            }
            team.save(c)
        }
    }
}
fn run_unit(c: &mut Connection, u: &Unit) -> butane::Result<()> {
    if u.end == End::Alone {
        return run_op(c, &u.ops[0]);
    }
    let tx = c.transaction()?;
    for op in &u.ops {
        run_op(&tx, op)?;
    }
    match u.end {
        End::Commit => tx.commit(),
        End::Rollback => tx.rollback(),
        _ => {
            drop(tx);
            Ok(())
        }
    }
}
fn lane_named(n: &str) -> Lane {
    *Lane::ALL.iter().find(|l| l.name() == n).unwrap()
}
/// `--child KIND LANE CONNSTR DIE_AT MODE args...`
fn child(a: &[String]) -> ! {
    use std::sync::atomic::Ordering::SeqCst;
    let lane = lane_named(&a[1]);
    die::AT.store(a[3].parse().unwrap(), SeqCst);
    die::MODE.store(a[4].parse().unwrap(), SeqCst);
    let mut c = match connect(lane, &a[2]) {
        Ok(c) => c,
        Err(e) => {
            die::say(&format!("X connect {e:?}\n"));
            std::process::exit(3)
        }
    };
    die::ARMED.store(true, SeqCst);
    match a[0].as_str() {
        "units" => {
            let (seed, n, from): (u64, usize, usize) = (a[5].parse().unwrap(), a[6].parse().unwrap(), a[7].parse().unwrap());
            for (i, u) in units(seed, n).iter().enumerate().skip(from) {
                die::say(&format!("B {i}\n"));
                match run_unit(&mut c, u) {
                    Ok(()) => die::say(&format!("C {i}\n")),
                    Err(e) => {
                        die::say(&format!("X {i} {}\n", format!("{e:?}").replace('\n', " ")));
                        std::process::exit(3)
                    }
                }
            }
        }
        "up" | "down" => {
            let ms = MemMigrations::from_json(&std::fs::read_to_string(&a[5]).unwrap()).unwrap();
            let done = if a[0] == "up" { ms.migrate(&mut c) } else { ms.unmigrate(&mut c) };
            match done {
                Ok(()) => die::say("C 0\n"),
                Err(e) => {
                    die::say(&format!("X {}\n", format!("{e:?}").replace('\n', " ")));
                    std::process::exit(3)
                }
            }
        }
        _ => unreachable!(),
    }
    die::ARMED.store(false, SeqCst);
    die::say(&format!("H {}\n", die::SEEN.load(SeqCst)));
    std::process::exit(0)
}
#[derive(Default, Debug)]
struct Report {
    begun: Option<usize>,
    acked: Option<usize>,
    failed: Option<String>,
    at: Option<String>,
    hooks: Option<u64>,
    finished: bool,
    killed: bool,
}
/// Run the child; `fuse` kills it from outside after that many microseconds.
fn run_child(args: &[String], fuse: Option<u64>) -> Report {
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .arg("--child")
        .args(args)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let mut rep = Report::default();
    let out = ch.stdout.take().unwrap();
    let pid = ch.id() as i32;
    let done = Arc::new((std::sync::Mutex::new(false), std::sync::Condvar::new()));
    let d2 = done.clone();
    let killer = std::thread::spawn(move || {
        let wait = std::time::Duration::from_micros(fuse.unwrap_or(120_000_000));
        let g = d2.0.lock().unwrap();
        let (g, _) = d2.1.wait_timeout_while(g, wait, |d| !*d).unwrap();
        if !*g {
            unsafe { libc::kill(pid, libc::SIGKILL) };
        }
    });
    for l in BufReader::new(out).lines() {
        let Ok(l) = l else { break };
        let (k, rest) = l.split_once(' ').unwrap_or((&l, ""));
        match k {
            "B" => rep.begun = rest.parse().ok(),
            "C" => rep.acked = rest.parse().ok(),
            "X" => rep.failed = Some(rest.to_string()),
            "K" => rep.at = Some(rest.to_string()),
            "H" => rep.hooks = rest.parse().ok(),
            _ => {}
        }
    }
    // the child has not been reaped yet, so its pid is not anyone else's
    *done.0.lock().unwrap() = true;
    done.1.notify_all();
    killer.join().unwrap();
    let st = ch.wait().unwrap();
    rep.finished = st.code() == Some(0);
    rep.killed = st.code().is_none();
    rep
}
/// Wait until the server has finished with the sessions of a killed client.
fn settle(db: &Db) {
    if db.lane != Lane::Pg {
        return;
    }
    for _ in 0..2000 {
        let n = db
            .raw_rows("SELECT count(*) FROM pg_stat_activity WHERE datname = current_database() AND backend_type = 'client backend' AND pid <> pg_backend_pid()")
            .unwrap();
        if plain(&n[0][0]) == "0" {
            return;
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    }
}
fn copy_db(from: &str, to: &str) {
    for x in ["-wal", "-shm", "-journal"] {
        let _ = std::fs::remove_file(format!("{to}{x}"));
        if x != "-shm" && std::path::Path::new(&format!("{from}{x}")).exists() {
            std::fs::copy(format!("{from}{x}"), format!("{to}{x}")).unwrap();
        }
    }
    std::fs::copy(from, to).unwrap();
}
/// A database with the models' tables and the rows the histories expect, not held open.
struct Template {
    id: &'static str,
    lane: Lane,
    path: Option<String>,
    db: Option<Db>,
}
fn seed_rows(c: &Connection) {
    for code in 0..4 {
        Label { code, text: format!("l{code}"), prio: None }.save(c).unwrap();
    }
    Team { name: "t".into(), slogan: "s".into(), labels: Many::new(), words: Many::new(), autos: Many::new(), uuids: Many::new() }.save(c).unwrap();
}
impl Template {
    fn new(ctx: &Ctx, id: &'static str, lane: Lane, wal: bool) -> Template {
        let mut db = if wal { Db::new(ctx, lane) } else { Db::new_without_wal(ctx, lane) };
        seed_rows(db.c());
        if lane == Lane::Pg {
            db.conn.take();
            Template { id, lane, path: None, db: Some(db) }
        } else {
            let p = db.connstr.clone();
            drop(db);
            Template { id, lane, path: Some(p), db: None }
        }
    }
    /// The connection string of a copy in its first state.
    fn copy(&self, ctx: &Ctx) -> String {
        match (&self.path, &self.db) {
            (Some(p), _) => {
                let to = ctx.scratch.join(format!("crash-{}.db", self.id)).to_string_lossy().to_string();
                copy_db(p, &to);
                to
            }
            (_, Some(db)) => {
                let t: Vec<String> = db.tables().into_iter().filter(|t| ["ktext", "account", "event", "team_labels_many"].contains(&t.to_lowercase().as_str())).map(|t| format!("\"{t}\"")).collect();
                db.raw_exec(&format!("TRUNCATE {} CASCADE", t.join(", "))).unwrap();
                db.connstr.clone()
            }
            _ => unreachable!(),
        }
    }
    /// Look at the database, the library first or the independent driver first.
    fn look(&self, connstr: &str, lib_first: bool) -> Result<(World, World), String> {
        let lib = || {
            let c = connect(self.lane, connstr).map_err(|e| format!("reopening: {e:?}"))?;
            loaded_world(&c).map_err(|e| format!("loading: {e:?}"))
        };
        let raw = || match &self.db {
            Some(db) => raw_world(db),
            None => {
                let db = Db::attach(self.lane, connstr);
                if self.lane.is_sqlite() {
                    let ok = db.raw_rows("PRAGMA integrity_check")?;
                    if plain(&ok[0][0]) != "ok" {
                        return Err(format!("integrity: {ok:?}"));
                    }
                }
                raw_world(&db)
            }
        };
        if lib_first {
            let l = lib()?;
            Ok((raw()?, l))
        } else {
            let w = raw()?;
            Ok((w, lib()?))
        }
    }
}
fn diff(got: &World, want: &World) -> String {
    let mut out = vec![];
    for (t, g) in got {
        let w = &want[t];
        let cut = |s: &String| s.chars().take(60).collect::<String>();
        let more: Vec<String> = g.difference(w).map(cut).collect();
        let less: Vec<String> = w.difference(g).map(cut).collect();
        if !more.is_empty() || !less.is_empty() {
            out.push(format!("{t}: unexpected {more:?}, missing {less:?}"));
        }
    }
    out.join("; ")
}

/// One history of units with as many crashes as it takes.
fn history(ctx: &Ctx, t: &Template, per_unit: &mut f64, r: &mut Rng, case: &str) {
    let lane = t.lane;
    let seed: u64 = r.random();
    let n = 4 + below(r, 12);
    let us = units(seed, n);
    let connstr = t.copy(ctx);
    let mut w = blank();
    let mut from = 0;
    let mut log = vec![];
    let mut round = 0;
    while from < n {
        round += 1;
        let timed = chance(r, if lane == Lane::Turso { 0.6 } else { 0.15 });
        let at = if round > 6 || timed { u64::MAX } else { 1 + below(r, (*per_unit * (n - from) as f64) as usize + 2) as u64 };
        let mode = if lane == Lane::Turso { 2 * below(r, 2) } else { below(r, 3) };
        let fuse = if timed && round <= 6 { Some(r.random_range(3_000..60_000)) } else { None };
        let args: Vec<String> =
            ["units".to_string(), lane.name().into(), connstr.clone(), at.to_string(), mode.to_string(), seed.to_string(), n.to_string(), from.to_string()].to_vec();
        let rep = run_child(&args, fuse);
        if let Some(db) = &t.db {
            settle(db);
        }
        ctx.eval(1);
        let acked = rep.acked.filter(|&a| a >= from);
        let begun = rep.begun.filter(|b| *b >= from);
        log.push(format!("from {from}: acked {acked:?}, begun {begun:?}, {}", rep.at.as_deref().unwrap_or(if rep.finished { "finished" } else if rep.killed { "killed" } else { "failed" })));
        let fail = |sig: &str, msg: String| {
            let near: Vec<String> = us.iter().enumerate().skip(from).take(begun.unwrap_or(from) + 1 - from).map(|(i, u)| format!("{i} {u:?}").chars().take(300).collect()).collect();
            ctx.violation(&format!("{sig}-{}", t.id), case, format!("{lane:?}: {msg}\n  {}\n  {}", log.join("\n  "), near.join("\n  ")))
        };
        if let (Some(h), true) = (rep.hooks, rep.finished) {
            *per_unit = (*per_unit * 3.0 + h as f64 / (n - from) as f64) / 4.0;
        }
        if let Some(e) = &rep.failed {
            if lane == Lane::Turso {
                return ctx.count("turso refusals", 1);
            }
            return fail("failed", format!("a unit failed without a crash: {e}"));
        }
        // what must be there
        let next = acked.map(|a| a + 1).unwrap_or(from);
        for u in &us[from..next] {
            model(&mut w, u);
        }
        let inflight = begun.filter(|&b| b >= next);
        let mut with = w.clone();
        if let Some(b) = inflight {
            model(&mut with, &us[b]);
        }
        ctx.count("acknowledged units verified", (next - from) as u64);
        let (raw, lib) = match t.look(&connstr, chance(r, 0.5)) {
            Ok(x) => x,
            Err(e) => return fail("reopen", e),
        };
        if raw != lib {
            return fail("views-differ", diff(&lib, &raw));
        }
        if raw == w {
            from = next;
            if inflight.is_some() && with != w {
                ctx.count("units in flight lost whole", 1);
            }
        } else if raw == with {
            w = with;
            from = inflight.unwrap() + 1;
            ctx.count("units in flight kept whole", 1);
        } else {
            return fail("state", format!("without the unit in flight: {}\n   with it: {}", diff(&raw, &w), diff(&raw, &with)));
        }
        if let Some(k) = &rep.at {
            ctx.count(&format!("crashes {k}"), 1);
            ctx.nontrivial(&(lane.name(), k, inflight.map(|b| (us[b].end, us[b].ops.len()))));
        } else if rep.killed {
            ctx.count("crashes at a random time", 1);
        } else if rep.finished {
            ctx.count("histories finished", 1);
        }
    }
    if ctx.evals() < 40 {
        ctx.sample(format!("{lane:?} {n} units: {}", log.join("; ")));
    }
}

// --- migrations ------------------------------------------------------------------------------
#[derive(PartialEq, Clone)]
struct State {
    names: Vec<String>,
    cat: Catalog,
    dump: BTreeMap<String, Vec<String>>,
}
fn state(db: &Db) -> Result<State, String> {
    let mut dump = db.dump();
    let mut names: Vec<String> = dump.remove("butane_migrations").unwrap_or_default();
    names.sort();
    let (cat, odd) = catalog(db)?;
    if !odd.is_empty() {
        return Err(odd.join("; "));
    }
    Ok(State { names, cat, dump })
}
fn migrations(ctx: &Ctx, lane: Lane, per: &mut f64, r: &mut Rng, case: &str) {
    let mut versions = vec![];
    let mut s = Schema::generate(r);
    for step in 0..2 + below(r, 3) {
        if step > 0 {
            let version = s.clone();
            for _ in 0..1 + below(r, 3) {
                for _ in 0..10 {
                    let mut next = s.clone();
                    let ok = next.mutate(r).is_some() && version.leads_to(&next, lane, true) && next.leads_to(&version, lane, true);
                    if ok && (lane != Lane::Turso || (version.turso_can(&next) && next.turso_can(&version))) {
                        s = next;
                        break;
                    }
                }
            }
        }
        versions.push(s.sorted());
    }
    let backends = nonempty::nonempty![lane.backend()];
    let Ok((ms, made)) = chain(&versions, &backends) else { return ctx.inconclusive("chain") };
    if made.len() < 2 {
        return;
    }
    let file = ctx.scratch.join(format!("ms-{}.json", lane.name()));
    std::fs::write(&file, serde_json::to_string(&ms).unwrap()).unwrap();
    // the reference: step by step, with rows, recording every state; then back down
    let db = Db::empty(ctx, lane);
    let wal = chance(r, 0.5);
    if lane.is_sqlite() && !wal {
        db.raw_exec("PRAGMA journal_mode=DELETE").ok();
    }
    let base = below(r, made.len());
    let mut conn = db.connect();
    let mut serial = 0;
    let names: Vec<String> = made.iter().map(|i| format!("m{i:03}")).collect();
    for k in 0..base {
        if ms.get_migration(&names[k]).unwrap().apply(&mut conn).is_err() {
            return;
        }
    }
    if base > 0 && fill(r, &db, &versions[made[base - 1]], 3, &mut serial).is_err() {
        return;
    }
    drop(conn);
    let up = base < made.len() && (base == 0 || chance(r, 0.6));
    // copies of the starting point
    let Db { connstr, .. } = &db;
    let connstr = connstr.clone();
    let copies: Vec<String> = match lane {
        Lane::Pg => {
            let name = connstr.split("dbname=").nth(1).unwrap().to_string();
            let admin = pg_admin();
            drop(db);
            let c = format!("{name}_c");
            for _ in 0..200 {
                match rt().block_on(admin.batch_execute(&format!("CREATE DATABASE {c} TEMPLATE {name}"))) {
                    Ok(()) => break,
                    Err(_) => std::thread::sleep(std::time::Duration::from_millis(10)),
                }
            }
            vec![connstr.clone(), rtm::lane::pg_connstr(&c)]
        }
        _ => {
            drop(db);
            let to = format!("{connstr}.crash");
            copy_db(&connstr, &to);
            vec![connstr.clone(), to]
        }
    };
    let refdb = Db::attach(lane, &copies[0]);
    let mut states = vec![match state(&refdb) {
        Ok(s) => s,
        Err(e) => return ctx.inconclusive(format!("{case}: {e}")),
    }];
    let mut conn = refdb.connect();
    let path: Vec<usize> = if up { (base..made.len()).collect() } else { (0..base).rev().collect() };
    for &k in &path {
        let m = ms.get_migration(&names[k]).unwrap();
        let done = catch(|| if up { m.apply(&mut conn) } else { m.downgrade(&mut conn) });
        match done {
            Ok(Ok(())) => match state(&refdb) {
                Ok(s) => states.push(s),
                Err(e) => return ctx.inconclusive(format!("{case}: {e}")),
            },
            // data in the way; that is C11's and C12's matter
            _ => {
                ctx.count("migrations refused because of the data", 1);
                drop(conn);
                drop(refdb);
                return cleanup(lane, &copies);
            }
        }
    }
    drop(conn);
    drop(refdb);
    let mut at = 0;
    let mut log = vec![];
    let last = states.len() - 1;
    for round in 0..8 {
        let timed = chance(r, if lane == Lane::Turso { 0.7 } else { 0.1 });
        let left = last - at;
        let die_at = if round == 7 || timed || left == 0 { u64::MAX } else { 1 + below(r, (*per * left as f64) as usize + 3) as u64 };
        let fuse = if timed && round != 7 { Some(r.random_range(3_000..40_000)) } else { None };
        let args: Vec<String> = [
            if up { "up" } else { "down" }.to_string(),
            lane.name().into(),
            copies[1].clone(),
            die_at.to_string(),
            if lane == Lane::Turso { 2 * below(r, 2) } else { below(r, 3) }.to_string(),
            file.to_string_lossy().to_string(),
        ]
        .to_vec();
        let rep = run_child(&args, fuse);
        ctx.eval(1);
        let what = rep.at.clone().unwrap_or(if rep.finished { "finished".into() } else if rep.killed { "killed".into() } else { "failed".into() });
        let db = Db::attach(lane, &copies[1]);
        settle_attached(&db);
        log.push(what.clone());
        let sqls: Vec<String> = path.iter().map(|&k| { let m = ms.get_migration(&names[k]).unwrap(); if up { m.up_sql(lane.backend_name()) } else { m.down_sql(lane.backend_name()) }.ok().flatten().unwrap_or_default() }).collect();
        let fail = |sig: &str, msg: String| ctx.violation(&format!("migration-{sig}-{}", lane.name()), case, format!("{lane:?} {}: {msg}\n  {}\n  {}", if up { "up" } else { "down" }, log.join("; "), sqls.join("\n -- \n")));
        if let Some(e) = &rep.failed {
            if lane == Lane::Turso {
                ctx.count("turso refusals", 1);
                break;
            }
            return fail("failed", format!("resumed run failed: {e}"));
        }
        let got = match state(&db) {
            Ok(s) => s,
            Err(e) => return fail("odd", e),
        };
        drop(db);
        let Some(k) = states.iter().position(|s| s.names == got.names) else {
            return fail("records", format!("recorded {:?}, which is no step on the way", got.names));
        };
        let d = compare(&got.cat, &states[k].cat);
        if !d.is_empty() {
            return fail("schema", format!("recorded as at step {k} of {last} but {}", d.join("\n  ")));
        }
        if got.dump != states[k].dump {
            return fail("data", format!("at step {k}: {:?}\n should be {:?}", got.dump, states[k].dump));
        }
        if k < at {
            return fail("went-back", format!("step {k} after step {at}"));
        }
        if rep.finished && k != last {
            return fail("incomplete", format!("reported done at step {k} of {last}"));
        }
        if let (Some(h), true, true) = (rep.hooks, rep.finished, left > 0) {
            *per = (*per * 3.0 + h as f64 / left as f64) / 4.0;
        }
        if rep.killed && k < last {
            ctx.count("interrupted migration runs resumed", 1);
            ctx.nontrivial(&(lane.name(), "migration", k, last, &what));
        }
        ctx.count(&format!("migration crashes: {}", if rep.finished { "none" } else if rep.at.is_some() { "at a system call" } else { "at a random time" }), 1);
        at = k;
        if rep.finished {
            ctx.count("migration runs finished", 1);
            break;
        }
    }
    cleanup(lane, &copies);
}
fn settle_attached(db: &Db) {
    settle(db)
}
fn cleanup(lane: Lane, copies: &[String]) {
    if lane == Lane::Pg {
        let admin = pg_admin();
        for c in copies {
            let n = c.split("dbname=").nth(1).unwrap();
            let _ = rt().block_on(admin.batch_execute(&format!("DROP DATABASE IF EXISTS {n} WITH (FORCE)")));
        }
    } else {
        for c in copies {
            for x in ["", "-wal", "-shm", "-journal"] {
                let _ = std::fs::remove_file(format!("{c}{x}"));
            }
        }
    }
}
fn pg_admin() -> tokio_postgres::Client {
    rtm::lane::pg_raw("postgres")
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(String::as_str) == Some("--child") {
        child(&a[2..]);
    }
    let ctx = Arc::new(Ctx::new("C10", 45, 900));
    ctx.rule("after a crash the database holds what the acknowledged units made of it, with or without the unit in flight, and an interrupted migration run is at some step with exactly its schema, rows and record, from which a further run completes");
    ctx.assume("a killed process, not a power failure: what was handed to the operating system survives");
    ctx.watchdog(if ctx.thorough { 3000 } else { 600 }, None);
    ctx.parallel(&["sqlite", "sqlite-journal", "sqlite-adapted", "pg"], |which| {
        let (lane, wal) = match which {
            "sqlite-journal" => (Lane::Sqlite, false),
            n => (lane_named(n), true),
        };
        let t = Template::new(&ctx, which, lane, wal);
        let mut per = 8.0;
        ctx.cases(&format!("units/{which}"), 0.65, 3, 100_000, |case, r| history(&ctx, &t, &mut per, r, case));
        if which != "sqlite-journal" {
            let mut per = 12.0;
            ctx.cases(&format!("migrations/{which}"), 1.0, 3, 100_000, |case, r| migrations(&ctx, lane, &mut per, r, case));
        }
    });
    ctx.finish();
}
