//! C17: adapting a connection to async is memory-safe and race-free.
use rtm::ctx::Ctx;
use rtm::sanrun::*;
use std::sync::Arc;

fn main() {
    let ctx = Arc::new(Ctx::new("C17", 60, 900));
    let ctx = &ctx;
    ctx.rule("calls made through an adapted connection, on a mock connection which is not Sync and checks its arguments, its thread and overlaps; distinct: orders in which the calls of all users arrived at a connection, and kinds of call by how they ended and when they were cancelled");
    ctx.assume("futures are dropped, not forgotten: the adapter lends what its callers borrowed to its worker and waits in drop, which mem::forget prevents");
    ctx.assume("Miri does not run SQLite itself, only the adapter and everything else in Rust over a mock connection");
    
    let lanes = [(Tool::Miri, "adapt", 0), (Tool::Miri, "adapt", 1), (Tool::Miri, "adapt", 2), (Tool::Miri, "adapt", 3), (Tool::Miri, "adapt", 4), (Tool::Tsan, "adapt", 0), (Tool::Asan, "adapt", 0), (Tool::Miri, "adapt", 5)];
    let each = |t| if ctx.thorough { 60 } else if t == Tool::Miri { 50 } else { 12 };
    ctx.parallel(&lanes, |(tool, bin, n)| {
        ctx.cases(&format!("{tool:?}{n}/{bin}"), 0.9, 1, if tool == Tool::Miri && !ctx.thorough { 1 } else { usize::MAX }, |case, r| child(ctx, tool, bin, case, r, each(tool)));
    });
    ctx.finish();
}
