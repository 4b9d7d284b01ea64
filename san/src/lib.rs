//! Small runtime for workloads run under sanitizers: seeded choices, counters, reports on stdout.
//! STAT name n / VIOL signature <tab> case <tab> message / DONE, read by the harness.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

pub mod rowwork;

mod rng;
pub use rng::Rng;
static STATS: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
pub fn count(name: &str, n: u64) {
    let mut s = STATS.lock().unwrap();
    if let Some(x) = s.get_mut(name) {
        *x += n;
    } else {
        s.insert(name.to_string(), n);
    }
}
static SEEN: Mutex<BTreeSet<u64>> = Mutex::new(BTreeSet::new());
/// Something distinct was seen.
pub fn seen(what: u64) {
    SEEN.lock().unwrap().insert(what);
}
static BAD: AtomicBool = AtomicBool::new(false);
pub fn violation(sig: &str, case: &str, msg: &str) {
    BAD.store(true, Ordering::SeqCst);
    println!("VIOL {sig}\t{case}\t{}", msg.replace('\n', " | "));
}
pub static BEAT: AtomicU64 = AtomicU64::new(0);
/// Nothing finished for this long while something was under way: a hang.
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = (BEAT.load(Ordering::SeqCst), 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = BEAT.load(Ordering::SeqCst);
            last = if now == last.0 { (now, last.1 + 1) } else { (now, 0) };
            if last.1 >= secs {
                violation("hang", &format!("beat-{now}"), &format!("nothing happened for {secs} s"));
                finish();
            }
        }
    });
}
pub fn beat() {
    BEAT.fetch_add(1, Ordering::SeqCst);
}
pub fn finish() -> ! {
    for (k, v) in STATS.lock().unwrap().iter() {
        println!("STAT {k}\t{v}");
    }
    println!("DONE");
    std::process::exit(if BAD.load(Ordering::SeqCst) { 3 } else { 0 })
}
/// Like `finish`, but lets the leak checker run with everything dropped.
pub fn done() {
    for (k, v) in STATS.lock().unwrap().iter() {
        println!("STAT {k}\t{v}");
    }
    STATS.lock().unwrap().clear();
    for s in std::mem::take(&mut *SEEN.lock().unwrap()) {
        println!("SEEN {s:016x}");
    }
    println!("DONE");
    if BAD.load(Ordering::SeqCst) {
        std::process::exit(3);
    }
}
pub fn env(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.parse().ok()).unwrap_or(default)
}
/// A yield point for futures.
pub struct Yield(pub bool);
impl std::future::Future for Yield {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 {
            return std::task::Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}
/// Polls a future up to `n` times and then drops it.
pub async fn polled<F: std::future::Future>(fut: F, n: u64) -> Option<F::Output> {
    let mut fut = Box::pin(fut);
    for _ in 0..n {
        let r = std::future::poll_fn(|cx| match fut.as_mut().poll(cx) {
            std::task::Poll::Ready(x) => std::task::Poll::Ready(Some(x)),
            std::task::Poll::Pending => std::task::Poll::Ready(None),
        })
        .await;
        if r.is_some() {
            return r;
        }
        Yield(false).await;
    }
    None
}
