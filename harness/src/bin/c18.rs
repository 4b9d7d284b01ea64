//! C18: row iteration and connection handles are memory-safe.
use rtm::prelude::*;
use rtm::sanrun::*;
#[path = "../../../san/src/rng.rs"]
mod rng;
#[path = "../../../san/src/rowwork.rs"]
mod rowwork;
use rng::Rng;
use rowwork::*;
use std::sync::atomic::{AtomicBool, Ordering};

struct Out<'a> {
    ctx: &'a Ctx,
    case: &'a str,
    lane: Lane,
    bad: AtomicBool,
}
impl Sink for Out<'_> {
    fn bad(&self, sig: &str, msg: String) {
        self.bad.store(true, Ordering::SeqCst);
        self.ctx.violation(sig, self.case, format!("{:?} {msg}", self.lane));
    }
    fn count(&self, name: &str, n: u64) {
        if matches!(name, "steps" | "writes") {
            self.ctx.eval(n);
        }
        self.ctx.count(&format!("{:?}: {name}", self.lane), n);
    }
    fn seen(&self, what: u64) {
        self.ctx.nontrivial(&(self.lane.name(), what));
    }
}
fn lane(ctx: &Ctx, lane: Lane, case: &str, r: &mut rtm::ctx::Rng) {
    let db = Db::new(ctx, lane);
    let mut r = Rng::new(r.random());
    let k = Kind { streaming: lane == Lane::Sqlite, sqlite: lane != Lane::Pg, shared: false, blob: if lane == Lane::Pg { "BYTEA" } else { "BLOB" } };
    let out = Out { ctx, case, lane, bad: AtomicBool::new(false) };
    let mut conn = db.connect();
    let mut w = match catch(|| setup(&conn, k, "")) {
        Ok(Ok(w)) => w,
        e => return ctx.inconclusive(format!("{case}: setup: {:?}", e.map(|x| x.map(|_| ())))),
    };
    for _ in 0..4 {
        let steps = 20 + r.below(120);
        match catch(|| connection(&mut conn, &mut w, &mut r, k, steps, &out) && compare(&conn, &w, &mut r, &out)) {
            Ok(true) => {}
            Ok(false) => return,
            Err(e) => return out.bad("panic", e),
        }
    }
    ctx.count(&format!("{lane:?}: histories"), 1);
}
fn main() {
    let ctx = Arc::new(Ctx::new("C18", 40, 600));
    ctx.watchdog(200, None);
    let ctx = &ctx;
    ctx.rule("steps of result sets and writes among them; distinct: result sets seen to their end, by contents and order, and those dropped early, by how far they were and where among the others");
    ctx.assume("a row written while a result set of SQLite is open may or may not be in it, as SQLite documents; all others must be");
    ctx.assume("sanitizers watch SQLite, whose rows come as they are asked for, compiled with the sanitizer itself; the other backends buffer their rows in safe Rust and are compared with the model only");
    let each = if ctx.thorough { 60 } else { 12 };
    ctx.parallel(&[0, 1, 2, 3, 4, 5, 6, 7], |n| match n {
        0..=2 => ctx.cases(&format!("asan{n}/rows"), 0.9, 1, usize::MAX, |case, r| child(ctx, Tool::Asan, "rows", case, r, each)),
        3 | 4 => ctx.cases(&format!("tsan{n}/rows"), 0.9, 1, usize::MAX, |case, r| child(ctx, Tool::Tsan, "rows", case, r, each)),
        5 => ctx.cases("sqlite", 0.9, 3, usize::MAX, |case, r| lane(ctx, if r.random_bool(0.7) { Lane::Sqlite } else { Lane::SqliteAdapted }, case, r)),
        6 => ctx.cases("pg", 0.9, 3, usize::MAX, |case, r| lane(ctx, Lane::Pg, case, r)),
        _ => ctx.cases("turso", 0.9, 3, usize::MAX, |case, r| lane(ctx, Lane::Turso, case, r)),
    });
    ctx.finish();
}
