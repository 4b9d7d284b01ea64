//! Result sets and connections of SQLite under the sanitizers.
use butane_core::db::*;
use san::rowwork::*;
use san::*;
use std::sync::atomic::{AtomicBool, Ordering};

struct Out<'a> {
    case: &'a str,
    bad: AtomicBool,
}
impl Sink for Out<'_> {
    fn bad(&self, sig: &str, msg: String) {
        self.bad.store(true, Ordering::SeqCst);
        violation(sig, self.case, &msg);
    }
    fn count(&self, name: &str, n: u64) {
        count(name, n)
    }
    fn seen(&self, what: u64) {
        seen(what)
    }
}
const NATIVE: Kind = Kind { streaming: true, sqlite: true, shared: false, blob: "BLOB" };
const ADAPTED: Kind = Kind { streaming: false, sqlite: true, shared: false, blob: "BLOB" };

fn open(path: &str, adapted: bool, rt: &tokio::runtime::Runtime) -> Connection {
    let b = get_backend("sqlite").unwrap();
    if adapted {
        let c = rt.block_on(b.connect_async(path)).expect("connect");
        rt.block_on(async { c.into_sync() }).expect("into_sync")
    } else {
        b.connect(path).expect("connect")
    }
}
/// One file, one user at a time, handed between threads.
fn alone(dir: &str, i: u64, r: &mut Rng, case: &str) -> bool {
    let out = Out { case, bad: AtomicBool::new(false) };
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
    let path = format!("{dir}/alone{i}");
    let adapted = r.chance(25);
    let k = if adapted { ADAPTED } else { NATIVE };
    let mut conn = open(&path, adapted, &rt);
    conn.execute("PRAGMA synchronous=OFF").unwrap();
    let mut w = setup(&conn, k, "").expect("setup");
    for _ in 0..3 + r.below(4) {
        let steps = 20 + r.below(150);
        if r.chance(30) {
            // on another thread
            let mut r2 = r.fork();
            let (c, w2, ok) = std::thread::scope(|s| {
                let out = &out;
                s.spawn(move || {
                    let ok = connection(&mut conn, &mut w, &mut r2, k, steps, out);
                    (conn, w, ok)
                })
                .join()
                .expect("thread")
            });
            conn = c;
            w = w2;
            count("moved to another thread", 1);
            if !ok {
                return false;
            }
        } else if !connection(&mut conn, &mut w, r, k, steps, &out) {
            return false;
        }
        beat();
        if !compare(&conn, &w, r, &out) {
            return false;
        }
        // no statement may be left reading or writing
        let other = get_backend("sqlite").unwrap().connect(&path).unwrap();
        other.execute("PRAGMA busy_timeout=0").ok();
        if let Err(e) = other.execute("BEGIN EXCLUSIVE") {
            out.bad("statement-left", format!("with all result sets dropped, another connection cannot lock the file: {e}"));
            return false;
        }
        other.execute("ROLLBACK").unwrap();
        count("exclusive locks taken after all was dropped", 1);
    }
    match r.below(3) {
        0 => drop(conn),
        1 => std::thread::spawn(move || drop(conn)).join().unwrap(),
        _ => {
            let other = open(&path, false, &rt);
            drop(conn);
            if !compare(&other, &w, r, &out) {
                return false;
            }
        }
    }
    let _ = std::fs::remove_file(&path);
    !out.bad.load(Ordering::SeqCst)
}
/// Several threads, each with connections of its own, on one file or several.
fn together(dir: &str, i: u64, r: &mut Rng, case: &str) -> bool {
    let out = Out { case, bad: AtomicBool::new(false) };
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let one = r.chance(50);
    let threads = 2 + r.below(3);
    let path = format!("{dir}/together{i}");
    let c = open(&path, false, &rt);
    c.execute("PRAGMA synchronous=OFF").unwrap();
    let mut pragma = c.query("pragma_journal_mode", &[Column::new("journal_mode", butane_core::SqlType::Text)], None, None, None, None).unwrap();
    let _ = pragma.next();
    drop(pragma);
    if one {
        // in one file: readers must not stop writers
        let _ = c.execute("PRAGMA journal_mode=WAL");
    }
    let plan: Vec<_> = (0..threads)
        .map(|t| {
            let adapted = r.chance(25);
            let k = Kind { shared: one, ..if adapted { ADAPTED } else { NATIVE } };
            let p = if one { path.clone() } else { format!("{path}.{t}") };
            let conn = open(&p, adapted, &rt);
            let w = setup(&conn, k, &t.to_string()).expect("setup");
            (conn, w, r.fork(), k)
        })
        .collect();
    drop(c);
    std::thread::scope(|s| {
        for (mut conn, mut w, mut r, k) in plan {
            let out = &out;
            s.spawn(move || {
                for _ in 0..2 {
                    let steps = 20 + r.below(80);
                    if !connection(&mut conn, &mut w, &mut r, k, steps, out) || !compare(&conn, &w, &mut r, out) {
                        return;
                    }
                    beat();
                }
                count("threads", 1);
            });
        }
    });
    for e in std::fs::read_dir(dir).unwrap().flatten() {
        let _ = std::fs::remove_file(e.path());
    }
    !out.bad.load(Ordering::SeqCst)
}
fn main() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<&str>().copied() != Some("planned panic") {
            println!("panic: {i}");
        }
    }));
    let (seed, n, secs) = (env("SAN_SEED", 1), env("SAN_EPISODES", 20), env("SAN_SECS", 600));
    let dir = format!("{}/san-rows-{}", std::env::var("SAN_DIR").unwrap_or_else(|_| "/tmp".into()), std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    watchdog(60);
    let start = std::time::Instant::now();
    let mut r = Rng::new(seed);
    for i in 0..n {
        if start.elapsed().as_secs() >= secs {
            break;
        }
        let mut er = r.fork();
        let case = format!("seed {seed} episode {i}");
        count("episodes", 1);
        let ok = if er.chance(60) { alone(&dir, i, &mut er, &case) } else { together(&dir, i, &mut er, &case) };
        if !ok {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    done();
}
