//! C06: foreign keys resolve to their object and stay consistent.
use butane::query::BoolExpr;
use butane::{AsPrimaryKey, AutoPk, DataObject, DataResult, Error, ForeignKey, PrimaryKeyType, ToSql};
use rtm::models::*;
use rtm::ops::*;
use rtm::prelude::*;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Barrier;

/// A model referred to by `RefAll`.
trait Target: DataObject + Clone + PartialEq + std::fmt::Debug + Send + Sync + 'static
where
    Self::PKType: std::fmt::Debug,
{
    const KIND: &'static str;
    fn make(r: &mut Rng) -> Self;
    fn set(&mut self, v: String, n: Option<i64>);
    fn ver(&self) -> Option<i64>;
    /// A key no row has.
    fn nowhere(r: &mut Rng) -> Self::PKType;
    fn set_key(&mut self, r: &mut Rng);
    fn eq_filter(f: &ForeignKey<Self>, o: &Self, k: &Self::PKType) -> [BoolExpr; 4];
    fn of(h: &RefAll) -> &ForeignKey<Self>;
    fn of_mut(h: &mut RefAll) -> &mut ForeignKey<Self>;
    /// Comparisons of a foreign key with a foreign key, an object and a key.
    fn compare(f: &ForeignKey<Self>, g: &ForeignKey<Self>, o: &Self, k: &Self::PKType) -> [bool; 6];
    fn serial(f: &ForeignKey<Self>) -> Result<(serde_json::Value, ForeignKey<Self>), String>;
}
macro_rules! target {
    ($m:ident, $f:ident, $field:ident, |$r:ident| $k:expr, $no:expr, |$fk:ident| $ser:expr) => {
        impl Target for $m {
            const KIND: &'static str = stringify!($m);
            fn make($r: &mut Rng) -> Self {
                $m { $f: $k, v: text($r), n: Some(0) }
            }
            fn set(&mut self, v: String, n: Option<i64>) {
                self.v = v;
                self.n = n;
            }
            fn ver(&self) -> Option<i64> {
                self.n
            }
            fn nowhere(_r: &mut Rng) -> Self::PKType {
                $no
            }
            fn set_key(&mut self, r: &mut Rng) {
                self.$f = Self::nowhere(r);
            }
            fn eq_filter(f: &ForeignKey<Self>, o: &Self, k: &Self::PKType) -> [BoolExpr; 4] {
                [
                    RefAll::fields().$field().eq(f),
                    RefAll::fields().$field().eq(o),
                    RefAll::fields().$field().eq(k),
                    RefAll::fields().$field().subfilterpk(k.clone()),
                ]
            }
            fn of(h: &RefAll) -> &ForeignKey<Self> {
                &h.$field
            }
            fn of_mut(h: &mut RefAll) -> &mut ForeignKey<Self> {
                &mut h.$field
            }
            fn compare(f: &ForeignKey<Self>, g: &ForeignKey<Self>, o: &Self, k: &Self::PKType) -> [bool; 6] {
                [f == g, g == f, *f == *o, f == k, f == &o, !(f != g)]
            }
            fn serial($fk: &ForeignKey<Self>) -> Result<(serde_json::Value, ForeignKey<Self>), String> {
                $ser
            }
        }
    };
}
fn through_json<T: DataObject>(f: &ForeignKey<T>) -> Result<(serde_json::Value, ForeignKey<T>), String>
where
    T::PKType: serde::Serialize + serde::de::DeserializeOwned,
{
    let v = serde_json::to_value(f).map_err(|e| e.to_string())?;
    let g = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    Ok((v, g))
}
target!(KInt, id, ki, |r| i32v(r), 424242, |f| through_json(f));
target!(KBig, id, kb, |r| i64v(r), 4242424242424242, |f| through_json(f));
target!(KText, key, kt, |r| text(r).chars().take(200).collect(), "no such key".into(), |f| through_json(f));
target!(KUuid, id, ku, |r| uuid(r), uuid::Uuid::from_u128(42), |f| Ok((serde_json::Value::Null, ForeignKey::from_pk(f.pk()))));
target!(KBlob, id, kbl, |r| blob(r).into_iter().take(200).collect(), b"no such key".to_vec(), |f| through_json(f));
target!(KSlug, id, ks, |r| Slug(text(r).chars().take(200).collect()), Slug("no such key".into()), |f| through_json(f));
target!(KAuto, key, ka, |_r| AutoPk::uninitialized(), {
    use butane::FromSql;
    AutoPk::from_sql(butane::SqlVal::BigInt(99999999)).unwrap()
}, |f| through_json(f));

fn key<T: DataObject>(k: &T::PKType) -> String {
    format!("{:?}", k.to_sql())
}
struct Pool<T> {
    live: Vec<T>,
}
impl<T: Target> Pool<T>
where
    T::PKType: std::fmt::Debug,
{
    fn fill(c: &butane::db::Connection, r: &mut Rng, n: usize) -> butane::Result<Self> {
        let mut live: Vec<T> = vec![];
        let mut tries = 0;
        while live.len() < n && tries < 100 {
            tries += 1;
            let mut t = T::make(r);
            if t.pk().is_valid() && live.iter().any(|o| key::<T>(o.pk()) == key::<T>(t.pk())) {
                continue;
            }
            ssave(&mut t, c)?;
            live.push(t);
        }
        Ok(Pool { live })
    }
    /// A foreign key to a live object, built in one of the ways there are, and the object.
    fn fk(&self, r: &mut Rng) -> (ForeignKey<T>, usize, &'static str) {
        let i = below(r, self.live.len());
        let o = &self.live[i];
        let (f, how) = match below(r, 6) {
            0 => (ForeignKey::from_pk(o.pk().clone()), "key"),
            1 => (ForeignKey::from(o), "reference"),
            2 => (ForeignKey::from(o.clone()), "object"),
            3 => (ForeignKey::from(o.clone()).clone(), "object-cloned"),
            4 => (ForeignKey::from_pk(o.pk().clone()).clone(), "key-cloned"),
            _ => {
                let f = ForeignKey::from(o.clone());
                let _ = f.to_sql_ref();
                (f, "object-converted")
            }
        };
        (f, i, how)
    }
}
struct Pools {
    ki: Pool<KInt>,
    kb: Pool<KBig>,
    kt: Pool<KText>,
    ku: Pool<KUuid>,
    kbl: Pool<KBlob>,
    ks: Pool<KSlug>,
    ka: Pool<KAuto>,
}

/// Everything that must hold of foreign keys of one kind, in one holder row.
#[allow(clippy::too_many_arguments)]
fn examine<T: Target>(ctx: &Ctx, db: &Db, r: &mut Rng, pool: &mut Pool<T>, hid: i64, want: usize, all: &BTreeMap<i64, usize>, via: usize, case: &str)
where
    T::PKType: std::fmt::Debug,
{
    let lane = db.lane;
    let bad = |sig: &str, m: String| ctx.violation(sig, case, format!("{lane:?} {} {m}", T::KIND));
    let o = pool.live[want].clone();
    let k = key::<T>(o.pk());
    let fresh = || -> Result<RefAll, String> {
        catch(|| match via {
            0 => sget::<RefAll>(db.c(), hid),
            1 => sload(RefAll::query().filter(BoolExpr::Eq("id", butane::query::Expr::Val(hid.to_sql()))), db.c()).map(|mut v| v.remove(0)),
            _ => rt().block_on(async {
                let c = connect_async(lane, &db.connstr).await?;
                aget::<RefAll>(&c, hid).await
            }),
        })
        .and_then(|x| x.map_err(|e| e.to_string()))
    };
    let mut h = match fresh() {
        Ok(h) => h,
        Err(e) => return bad("load-holder", e),
    };
    ctx.eval(1);
    // denotes the key
    let f = T::of(&h);
    if key::<T>(&f.pk()) != k || key::<T>(&f.as_pk()) != k || format!("{:?}", f.to_sql()) != k || format!("{:?}", butane::SqlVal::from(f.to_sql_ref())) != k {
        return bad("wrong-key", format!("stored {k}, foreign key says {:?} / {:?}", f.pk(), f.to_sql()));
    }
    // never hands out an object before it is loaded
    if !matches!(f.get(), Err(Error::ValueNotLoaded)) {
        return bad("unloaded-get", format!("{:?}", f.get()));
    }
    let unloaded = f.clone();
    // the current row of exactly the referenced object
    let l = match via {
        2 => catch(|| {
            rt().block_on(async {
                let c = connect_async(lane, &db.connstr).await?;
                afk(f, &c).await
            })
        }),
        _ => catch(|| sfk(f, db.c())),
    };
    match l {
        Ok(Ok(x)) if *x == o => {
            if !f.get().is_ok_and(|y| std::ptr::eq(x, y)) {
                bad("load-get-differ", String::new());
            }
        }
        x => return bad("wrong-object", format!("loaded {x:?}, want {o:?}")),
    }
    if unloaded.get().is_ok() {
        bad("clone-shares", "loading an original loaded its clone".into());
    }
    // comparisons: the same key in every guise, and another key
    let other = pool.live.iter().find(|x| key::<T>(x.pk()) != k).cloned();
    for (fk, name) in [(f.clone(), "loaded"), (unloaded.clone(), "unloaded"), (ForeignKey::from_pk(o.pk().clone()), "key"), (ForeignKey::from(o.clone()), "object")] {
        for (g, gname) in [(f.clone(), "loaded"), (unloaded.clone(), "unloaded"), (ForeignKey::from(&o), "key"), (ForeignKey::from(o.clone()), "object")] {
            let c = catch(|| T::compare(&fk, &g, &o, o.pk()));
            if c != Ok([true; 6]) {
                bad("same-key-differs", format!("{name} against {gname} of {k}: {c:?}"));
            }
        }
        if let Some(p) = &other {
            for g in [ForeignKey::from(p), ForeignKey::from(p.clone())] {
                let c = catch(|| T::compare(&fk, &g, p, p.pk()));
                if c != Ok([false; 6]) {
                    bad("other-key-equal", format!("{name} of {k} against {:?}: {c:?}", p.pk()));
                }
            }
        }
        match catch(|| T::serial(&fk)) {
            Ok(Ok((v, g))) => {
                if serde_json::to_value(&v).ok() != serde_json::to_value(T::serial(&g).unwrap().0).ok() || key::<T>(&g.pk()) != k || g.get().is_ok() {
                    bad("serialised", format!("{name} {v} {g:?}"));
                }
            }
            e => bad("serialised", format!("{name} {e:?}")),
        }
        if format!("{:?}", fk.clone().into_sql()) != k {
            bad("wrong-key", format!("{name} into_sql"));
        }
    }
    // filters select exactly the holders which refer to it
    let wantids: BTreeSet<i64> = all.iter().filter(|(_, i)| **i == want).map(|(h, _)| *h).collect();
    for (i, e) in T::eq_filter(f, &o, o.pk()).into_iter().enumerate() {
        match catch(|| sload(RefAll::query().filter(e), db.c())) {
            Ok(Ok(v)) => {
                let got: BTreeSet<i64> = v.iter().map(|x| x.id.unwrap()).collect();
                if got != wantids {
                    bad("wrong-filter", format!("form {i}: {got:?}, want {wantids:?} for {k}"));
                }
            }
            e => bad("filter-failed", format!("form {i}: {e:?}")),
        }
    }
    // a loaded copy stays; one loaded now is current
    if chance(r, 0.6) {
        let mut changed = o.clone();
        let n = changed.ver().unwrap_or(0) + 1;
        changed.set(text(r), Some(n));
        if let Err(e) = ssave(&mut changed, db.c()) {
            return bad("save", format!("{e}"));
        }
        pool.live[want] = changed.clone();
        let again = catch(|| sfk(T::of(&h), db.c()));
        match again {
            Ok(Ok(x)) if *x == o => {}
            x => bad("loaded-copy-changed", format!("{x:?}, was {o:?}")),
        }
        match catch(|| sfk(&unloaded, db.c())) {
            Ok(Ok(x)) if *x == changed => {}
            x => bad("stale-object", format!("{x:?}, is {changed:?}")),
        }
        // saving the holder stores the key, not the copy
        if let Err(e) = catch(|| ssave(&mut h, db.c())).and_then(|x| x.map_err(|e| e.to_string())) {
            return bad("save-holder", e);
        }
        match stry::<T>(db.c(), o.pk().clone()) {
            Ok(Some(x)) if x == changed => {}
            x => bad("holder-save-touched-target", format!("{x:?}, is {changed:?}")),
        }
    }
    // nothing there: an error, and no object; when it appears, the object
    let mut ghost = T::make(r);
    let gk = if ghost.pk().is_valid() && !pool.live.iter().any(|o| key::<T>(o.pk()) == key::<T>(ghost.pk())) { ghost.pk().clone() } else { T::nowhere(r) };
    let g: ForeignKey<T> = ForeignKey::from_pk(gk.clone());
    for _ in 0..2 {
        let x = if via == 2 {
            catch(|| {
                rt().block_on(async {
                    let c = connect_async(lane, &db.connstr).await?;
                    afk(&g, &c).await.cloned()
                })
            })
        } else {
            catch(|| sfk(&g, db.c()).cloned())
        };
        match x {
            Ok(Err(Error::NoSuchObject)) => {}
            x => return bad("object-from-nowhere", format!("key {gk:?}: {x:?}")),
        }
        if g.get().is_ok() || key::<T>(&g.pk()) != key::<T>(&gk) {
            bad("object-from-nowhere", format!("key {gk:?} after a failed load"));
        }
    }
    if ghost.pk().is_valid() && key::<T>(ghost.pk()) == key::<T>(&gk) {
        ssave(&mut ghost, db.c()).expect("save ghost");
        match catch(|| sfk(&g, db.c())) {
            Ok(Ok(x)) if *x == ghost => {}
            x => bad("not-found-later", format!("{x:?}")),
        }
        sdel(&ghost, db.c()).expect("delete ghost");
        if !g.get().is_ok_and(|x| *x == ghost) {
            bad("loaded-copy-changed", "deleting the row changed the loaded copy".into());
        }
        ctx.count("dangling keys that came alive", 1);
    }
    ctx.nontrivial(&(lane.name(), T::KIND, k, via, wantids.len(), o.ver()));
    ctx.count(&format!("foreign keys examined {} {}", lane.name(), T::KIND), 1);
}

fn serial(ctx: &Ctx, db: &mut Db, r: &mut Rng, case: &str) {
    db.wipe();
    let lane = db.lane;
    let n = 1 + below(r, 3);
    let built = (|| -> butane::Result<Pools> {
        Ok(Pools {
            ki: Pool::fill(db.c(), r, n)?,
            kb: Pool::fill(db.c(), r, n)?,
            kt: Pool::fill(db.c(), r, n)?,
            ku: Pool::fill(db.c(), r, n)?,
            kbl: Pool::fill(db.c(), r, n)?,
            ks: Pool::fill(db.c(), r, n)?,
            ka: Pool::fill(db.c(), r, n)?,
        })
    })();
    let mut p = match built {
        Ok(p) => p,
        Err(e) => return ctx.violation("save", case, format!("{lane:?} {e}")),
    };
    let mut holders: Vec<(i64, [usize; 7], Option<usize>)> = vec![];
    for _ in 0..1 + below(r, 4) {
        let mut hows: Vec<&'static str> = vec![];
        macro_rules! mk {
            ($f:ident) => {{
                let (f, i, how) = p.$f.fk(r);
                hows.push(how);
                (f, i)
            }};
        }
        let (ki, a) = mk!(ki);
        let (kb, b) = mk!(kb);
        let (kt, c) = mk!(kt);
        let (ku, d) = mk!(ku);
        let (kbl, e) = mk!(kbl);
        let (ks, f) = mk!(ks);
        let (ka, g) = mk!(ka);
        let ok = if chance(r, 0.4) { None } else { Some(p.kt.fk(r)) };
        let oi = ok.as_ref().map(|x| x.1);
        let mut h = RefAll { id: AutoPk::uninitialized(), ki, kb, kt, ku, kbl, ks, ka, ok: ok.map(|x| x.0) };
        if let Err(e) = catch(|| ssave(&mut h, db.c())).and_then(|x| x.map_err(|e| e.to_string())) {
            return ctx.violation("save-holder", case, format!("{lane:?} {hows:?}: {e}"));
        }
        holders.push((h.id.unwrap(), [a, b, c, d, e, f, g], oi));
    }
    // point some of them elsewhere
    for i in 0..holders.len() {
        if chance(r, 0.5) {
            let mut h = sget::<RefAll>(db.c(), holders[i].0).expect("get");
            macro_rules! re {
                ($f:ident, $j:expr, $t:ty) => {
                    if chance(r, 0.4) {
                        if chance(r, 0.5) {
                            let _ = sfk(&h.$f, db.c());
                        }
                        let (f, n, _) = p.$f.fk(r);
                        *<$t as Target>::of_mut(&mut h) = f;
                        holders[i].1[$j] = n;
                    }
                };
            }
            re!(ki, 0, KInt);
            re!(kb, 1, KBig);
            re!(kt, 2, KText);
            re!(ku, 3, KUuid);
            re!(kbl, 4, KBlob);
            re!(ks, 5, KSlug);
            re!(ka, 6, KAuto);
            if chance(r, 0.4) {
                let ok = if chance(r, 0.5) { None } else { Some(p.kt.fk(r)) };
                holders[i].2 = ok.as_ref().map(|x| x.1);
                h.ok = ok.map(|x| x.0);
            }
            if let Err(e) = catch(|| ssave(&mut h, db.c())).and_then(|x| x.map_err(|e| e.to_string())) {
                return ctx.violation("save-holder", case, format!("{lane:?}: {e}"));
            }
        }
    }
    let hs = holders.clone();
    let all = |j: usize| hs.iter().map(|(h, ix, _)| (*h, ix[j])).collect::<BTreeMap<i64, usize>>();
    for (hid, ix, oi) in &holders {
        let via = below(r, 3);
        examine::<KInt>(ctx, db, r, &mut p.ki, *hid, ix[0], &all(0), via, case);
        examine::<KBig>(ctx, db, r, &mut p.kb, *hid, ix[1], &all(1), via, case);
        examine::<KText>(ctx, db, r, &mut p.kt, *hid, ix[2], &all(2), via, case);
        examine::<KUuid>(ctx, db, r, &mut p.ku, *hid, ix[3], &all(3), via, case);
        examine::<KBlob>(ctx, db, r, &mut p.kbl, *hid, ix[4], &all(4), via, case);
        examine::<KSlug>(ctx, db, r, &mut p.ks, *hid, ix[5], &all(5), via, case);
        examine::<KAuto>(ctx, db, r, &mut p.ka, *hid, ix[6], &all(6), via, case);
        // the nullable one
        let h = sget::<RefAll>(db.c(), *hid).expect("get");
        let got = h.ok.as_ref().map(|f| sfk(f, db.c()).cloned());
        match (got, oi) {
            (None, None) => {}
            (Some(Ok(x)), Some(i)) if x == p.kt.live[*i] => {}
            (g, _) => ctx.violation("nullable", case, format!("{lane:?} {g:?}, want {:?}", oi.map(|i| p.kt.live[i].clone()))),
        }
        for (i, t) in p.kt.live.iter().enumerate() {
            let got: BTreeSet<i64> = match sload(RefAll::query().filter(RefAll::fields().ok().eq(&Some(ForeignKey::from(t)))), db.c()) {
                Ok(v) => v.iter().map(|x| x.id.unwrap()).collect(),
                Err(e) => {
                    ctx.violation("filter-failed", case, format!("{lane:?} nullable {e}"));
                    continue;
                }
            };
            let want: BTreeSet<i64> = hs.iter().filter(|x| x.2 == Some(i)).map(|x| x.0).collect();
            if got != want {
                ctx.violation("wrong-filter", case, format!("{lane:?} nullable: {got:?}, want {want:?}"));
            }
        }
    }
    ctx.count("serial rounds", 1);
}

/// Many threads and tasks use one foreign key at the same moment.
fn race<T: Target>(ctx: &Ctx, db: &mut Db, r: &mut Rng, case: &str)
where
    T::PKType: std::fmt::Debug,
{
    let lane = db.lane;
    let bad = |sig: &str, m: String| ctx.violation(sig, case, format!("{lane:?} {} {m}", T::KIND));
    let pool: Pool<T> = match Pool::fill(db.c(), r, 2) {
        Ok(p) => p,
        Err(e) => return bad("save", e.to_string()),
    };
    let o = pool.live[0].clone();
    let k = key::<T>(o.pk());
    // connections of their own; Turso's are driven through tasks of one thread at a time
    let nthreads = if lane == Lane::Turso { 2 } else { 4 };
    let mut conns: Vec<_> = (0..nthreads).map(|_| db.connect()).collect();
    for round in 0..12 {
        ctx.eval(1);
        let from_obj = round % 3 == 0;
        let f: ForeignKey<T> = if from_obj { ForeignKey::from(o.clone()) } else { ForeignKey::from_pk(o.pk().clone()) };
        let barrier = Barrier::new(nthreads + 3);
        let addrs: std::sync::Mutex<Vec<(usize, String)>> = Default::default();
        let probs: std::sync::Mutex<Vec<(String, String)>> = Default::default();
        let early = AtomicUsize::new(0);
        let order = AtomicU64::new(0);
        std::thread::scope(|s| {
            for (t, c) in conns.iter_mut().enumerate() {
                let (f, barrier, addrs, probs, order) = (&f, &barrier, &addrs, &probs, &order);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    barrier.wait();
                    for _ in 0..2 {
                        match catch(|| sfk(f, &*c)) {
                            Ok(Ok(x)) => {
                                order.fetch_add((t as u64 + 1) << (8 * (order.load(Ordering::Relaxed) % 7)), Ordering::Relaxed);
                                addrs.lock().unwrap().push((x as *const T as usize, format!("{x:?}")));
                            }
                            Ok(Err(e)) if format!("{e:?}").to_lowercase().contains("locked") => {}
                            e => probs.lock().unwrap().push(("concurrent-load".into(), format!("{e:?}"))),
                        }
                    }
                }).unwrap();
            }
            for t in 0..2 {
                let (f, barrier, probs, early, k, o) = (&f, &barrier, &probs, &early, &k, &o);
                s.spawn(move || {
                    barrier.wait();
                    for i in 0..20 {
                        let res = catch(|| {
                            let mut out = vec![];
                            match (i + t) % 4 {
                                0 => out.push(format!("{:?}", f.to_sql())),
                                1 => out.push(format!("{:?}", butane::SqlVal::from(f.to_sql_ref()))),
                                2 => {
                                    let g = f.clone();
                                    out.push(key::<T>(&g.pk()));
                                    out.push(format!("{:?}", g.into_sql()));
                                }
                                _ => out.push(key::<T>(&f.pk())),
                            }
                            match f.get() {
                                Ok(x) if *x == *o => {}
                                Ok(x) => out.push(format!("another object: {x:?}")),
                                Err(_) => {
                                    early.fetch_add(1, Ordering::Relaxed);
                                }
                            }
                            if !T::compare(f, f, o, o.pk()).iter().all(|x| *x) {
                                out.push("unequal to itself".into());
                            }
                            out
                        });
                        match res {
                            Ok(v) if v.iter().all(|x| x == k) => {}
                            e => probs.lock().unwrap().push(("concurrent-use".into(), format!("{e:?}, key {k}"))),
                        }
                    }
                });
            }
            {
                // tasks, some of which give up midway
                let (f, barrier, addrs, probs) = (&f, &barrier, &addrs, &probs);
                let cs = db.connstr.clone();
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    let res = catch(|| {
                        rt().block_on(async {
                            let c = connect_async(lane, &cs).await?;
                            barrier.wait();
                            let mut futs = vec![];
                            for j in 0..4u64 {
                                let c = &c;
                                futs.push(async move {
                                    if j % 2 == 0 {
                                        // abandon the load at its first wait
                                        let fut = afk(f, c);
                                        futures_util::pin_mut!(fut);
                                        let _ = futures_util::poll!(fut);
                                    }
                                    match afk(f, c).await {
                                        Ok(x) => addrs.lock().unwrap().push((x as *const T as usize, format!("{x:?}"))),
                                        Err(e) if format!("{e:?}").to_lowercase().contains("locked") => {}
                                        Err(e) => probs.lock().unwrap().push(("concurrent-load".into(), format!("{e:?}"))),
                                    }
                                });
                            }
                            futures_util::future::join_all(futs).await;
                            butane::Result::Ok(())
                        })
                    });
                    if !matches!(res, Ok(Ok(()))) {
                        probs.lock().unwrap().push(("concurrent-load".into(), format!("{res:?}")));
                    }
                }).unwrap();
            }
        });
        for (s, m) in probs.into_inner().unwrap() {
            bad(&s, m);
        }
        let a = addrs.into_inner().unwrap();
        if a.iter().any(|x| x.0 != a[0].0 || x.1 != format!("{o:?}")) {
            bad("different-objects", format!("{a:?}"));
        }
        ctx.count("concurrent loads", a.len() as u64);
        ctx.count("looks before it was loaded", early.load(Ordering::Relaxed) as u64);
        ctx.nontrivial(&(lane.name(), T::KIND, from_obj, order.load(Ordering::Relaxed), early.load(Ordering::Relaxed)));
    }
    ctx.count(&format!("races {}", lane.name()), 1);
}

/// No database: many threads take the key of one foreign key at the same moment.
fn key_race<T: Target>(ctx: &Ctx, r: &mut Rng, case: &str)
where
    T::PKType: std::fmt::Debug,
{
    let mut o = T::make(r);
    if !o.pk().is_valid() {
        o.set_key(r);
    }
    let k = key::<T>(o.pk());
    for _ in 0..60 {
        let f: ForeignKey<T> = ForeignKey::from(o.clone());
        let barrier = Barrier::new(6);
        let probs: std::sync::Mutex<Vec<String>> = Default::default();
        std::thread::scope(|s| {
            for t in 0..6 {
                let (f, barrier, probs, k, o) = (&f, &barrier, &probs, &k, &o);
                s.spawn(move || {
                    barrier.wait();
                    let res = catch(|| match t % 3 {
                        0 => format!("{:?}", f.to_sql()),
                        1 => format!("{:?}", butane::SqlVal::from(f.to_sql_ref())),
                        _ => {
                            let g = f.clone();
                            let _ = T::compare(&g, f, o, o.pk());
                            format!("{:?}", g.into_sql())
                        }
                    });
                    if res.as_ref() != Ok(k) {
                        probs.lock().unwrap().push(format!("{res:?}"));
                    }
                });
            }
        });
        ctx.eval(6);
        for p in probs.into_inner().unwrap() {
            ctx.violation("concurrent-use", case, format!("{} {p}, key {k}", T::KIND));
        }
    }
    ctx.count("key races", 60);
}

fn main() {
    let ctx = Arc::new(Ctx::new("C06", 30, 900));
    ctx.rule("a foreign key stored and loaded again, distinct by backend, key, route and number of holders; or a race, distinct by order of the loads");
    ctx.watchdog(120, Some("hang"));
    ctx.parallel(&Lane::ALL, |lane| {
        let mut db = Db::new(&ctx, lane);
        ctx.cases(lane.name(), 1.0, 6, 100_000, |case, r| {
            serial(&ctx, &mut db, r, case);
            db.wipe();
            match below(r, 7) {
                0 => race::<KInt>(&ctx, &mut db, r, case),
                1 => race::<KBig>(&ctx, &mut db, r, case),
                2 => race::<KText>(&ctx, &mut db, r, case),
                3 => race::<KUuid>(&ctx, &mut db, r, case),
                4 => race::<KBlob>(&ctx, &mut db, r, case),
                5 => race::<KSlug>(&ctx, &mut db, r, case),
                _ => race::<KAuto>(&ctx, &mut db, r, case),
            }
            if lane == Lane::Sqlite {
                match below(r, 3) {
                    0 => key_race::<KInt>(&ctx, r, case),
                    1 => key_race::<KText>(&ctx, r, case),
                    _ => key_race::<KAuto>(&ctx, r, case),
                }
            }
        });
    });
    ctx.finish();
}
