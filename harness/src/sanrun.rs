//! Runs the workloads of /verif/san under Miri, ThreadSanitizer and AddressSanitizer, and reads what they report.
use crate::ctx::Ctx;
use rand::Rng as _;
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tool {
    Miri,
    Tsan,
    Asan,
}
/// The first function of the code under test (or else of the workload) named by a report.
fn place(report: &str) -> String {
    for want in ["/repo/", "/butane_core/src", "/verif/san"] {
        for l in report.lines() {
            if l.contains(want) && (l.contains(".rs")) {
                let path = l.split(want).nth(1).unwrap_or("").split(|c: char| c == ')' || c.is_whitespace()).next().unwrap_or("");
                // without the line, which says little to whoever compares reports
                return path.split(':').next().unwrap_or("").to_string();
            }
        }
    }
    "unknown".into()
}
/// One run of `bin` under `tool`. Reports violations itself.
pub fn child(ctx: &Ctx, tool: Tool, bin: &str, case: &str, r: &mut crate::ctx::Rng, secs: u64) {
    let seed: u32 = r.random();
    let dir = ctx.scratch.join(case.replace('/', "-"));
    let _ = std::fs::create_dir_all(&dir);
    let target = std::env::var("RTM_SAN").expect("RTM_SAN");
    let mut cmd = match tool {
        Tool::Miri => {
            let mut c = Command::new("cargo");
            c.args(["+nightly", "miri", "run", "-q", "--offline", "--bin", bin]).current_dir(format!("{target}/../san"));
            c.env_remove("RUSTUP_TOOLCHAIN").env("CARGO_TARGET_DIR", format!("{target}/miri"));
            c.env("RUSTFLAGS", "--cfg rtm_hooks");
            // how often a thread gives way, and how often a weak compare-exchange fails without cause
            let p = ["0.01", "0.03", "0.1", "0.25"][r.random_range(0..4)];
            c.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-seed={} -Zmiri-preemption-rate={p}", seed % 100_000));
            c
        }
        _ => Command::new(format!("{target}/{}/x86_64-unknown-linux-gnu/debug/{bin}", if tool == Tool::Tsan { "tsan" } else { "asan" })),
    };
    cmd.env("SAN_SEED", seed.to_string()).env("SAN_SECS", secs.to_string()).env("SAN_EPISODES", "1000000").env("SAN_DIR", &dir);
    cmd.env("TSAN_OPTIONS", "halt_on_error=1 exitcode=66 second_deadlock_stack=1").env("ASAN_OPTIONS", "detect_leaks=1:exitcode=67:detect_stack_use_after_return=1:strict_string_checks=1");
    cmd.stdout(Stdio::piped()).stderr(Stdio::piped()).stdin(Stdio::null());
    let mut p = match cmd.spawn() {
        Ok(p) => p,
        Err(e) => return ctx.inconclusive(format!("{case}: {cmd:?}: {e}")),
    };
    let mut out = p.stdout.take().unwrap();
    let mut err = p.stderr.take().unwrap();
    let a = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = out.read_to_end(&mut v);
        String::from_utf8_lossy(&v).to_string()
    });
    let b = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = err.read_to_end(&mut v);
        String::from_utf8_lossy(&v).to_string()
    });
    let limit = Instant::now() + Duration::from_secs(secs * 3 + 120);
    let status = loop {
        match p.try_wait() {
            Ok(Some(s)) => break Some(s),
            _ if Instant::now() > limit => {
                let _ = p.kill();
                let _ = p.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_millis(50)),
        }
        ctx.tick();
    };
    let (out, err) = (a.join().unwrap_or_default(), b.join().unwrap_or_default());
    let _ = std::fs::remove_dir_all(&dir);
    let mut done = false;
    let mut bad = false;
    for l in out.lines() {
        if let Some(s) = l.strip_prefix("STAT ") {
            if let Some((k, n)) = s.split_once('\t') {
                let n = n.parse().unwrap_or(0);
                ctx.count(&format!("{tool:?} {bin}: {k}"), n);
                if matches!(k, "calls" | "steps" | "writes" | "transactions") {
                    ctx.eval(n);
                }
            }
        } else if let Some(s) = l.strip_prefix("SEEN ") {
            ctx.nontrivial(s);
        } else if let Some(s) = l.strip_prefix("VIOL ") {
            let mut it = s.splitn(3, '\t');
            let (sig, at, msg) = (it.next().unwrap_or("?"), it.next().unwrap_or("?"), it.next().unwrap_or("?"));
            ctx.violation(sig, case, format!("{tool:?} {bin} {at}: {msg}"));
            bad = true;
        } else if l == "DONE" {
            done = true;
        }
    }
    ctx.count(&format!("{tool:?} runs"), 1);
    ctx.nontrivial(case);
    let report = |what: &str| {
        let at = err.find(what).unwrap_or(0);
        let mut end = (at + 3500).min(err.len());
        while !err.is_char_boundary(end) {
            end -= 1;
        }
        err[at..end].to_string()
    };
    for (mark, sig) in [
        ("WARNING: ThreadSanitizer: data race", "data-race"),
        ("WARNING: ThreadSanitizer:", "thread-sanitizer"),
        ("ERROR: AddressSanitizer:", "memory-error"),
        ("ERROR: LeakSanitizer: detected memory leaks", "memory-leak"),
        ("error: Undefined Behavior: Data race", "data-race"),
        ("error: Undefined Behavior", "undefined-behaviour"),
        ("error: memory leaked", "memory-leak"),
        ("evaluated program deadlocked", "deadlock"),
        ("error: the main thread terminated without waiting", "threads-remain"),
    ] {
        if let Some(i) = err.find(mark) {
            ctx.violation(&format!("{sig} {}", place(&err[i..])), case, format!("{tool:?} {bin} seed {seed}\n{}", report(mark)));
            return;
        }
    }
    let code = status.and_then(|s| s.code());
    if bad {
        return;
    }
    use std::os::unix::process::ExitStatusExt;
    match (status, code) {
        (Some(s), None) if matches!(s.signal(), Some(libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL)) => {
            ctx.violation("crash", case, format!("{tool:?} {bin} seed {seed} ended by {s}\n{}", report("")));
        }
        (Some(_), Some(0)) if done => {}
        (Some(_), Some(101)) if err.contains("panicked at") || out.contains("panic:") => {
            let p = out.lines().rev().find(|l| l.starts_with("panic:")).unwrap_or("");
            if p.contains("/repo/butane") || p.contains("butane_core/src") {
                ctx.violation("panic", case, format!("{tool:?} {bin} seed {seed}: {p}"));
            } else {
                ctx.inconclusive(format!("{case}: workload panicked: {p} {}", report("panicked at")));
            }
        }
        (s, _) => {
            let tail: String = err.chars().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect();
            ctx.inconclusive(format!("{case}: {tool:?} {bin} ended with {s:?}: {tail}"));
        }
    }
}
