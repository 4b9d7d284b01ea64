//! C03: stored values come back unchanged or are refused.
use butane::query::{BoolExpr, Expr, QueryOpsSync};
use butane::{DataObjectOpsSync, DataResult, SqlVal, ToSql};
use chrono::{DateTime, NaiveDate, NaiveDateTime, Timelike, Utc};
use rtm::models::*;
use rtm::prelude::*;
use rtm::values::*;

macro_rules! field_table {
    ($diff:ident, $sql:ident, $ty:ty, $($f:ident),*) => {
        fn $diff(a: &$ty, b: &$ty) -> Vec<String> {
            let mut v = vec![];
            $( if !same(&a.$f, &b.$f) { v.push(format!("{}: saved {:?} loaded {:?}", stringify!($f), a.$f, b.$f)); } )*
            v
        }
        fn $sql(a: &$ty) -> Vec<(&'static str, SqlVal)> {
            vec![$( (stringify!($f), a.$f.to_sql()) ),*]
        }
    };
}
/// Equality in which NaN equals itself.
fn same<T: PartialEq + std::fmt::Debug>(a: &T, b: &T) -> bool {
    a == b || (format!("{a:?}") == format!("{b:?}") && a != a)
}
field_table!(diff_all, sql_all, AllTypes, id, b, i8v, u8v, i16v, u16v, i32v, u32v, i64v, f32v, f64v, text, blob, json, hmap, bmap,
    ts, tsu, date, uuid, en, nt, nts, ty, alias, manual, mixed);
field_table!(diff_opt, sql_opt, AllOpt, id, b, i8v, u8v, i16v, u16v, i32v, u32v, i64v, f32v, f64v, text, blob, json, bmap, ts, tsu, date,
    uuid, en, nt, ty);

/// A value not every backend can hold, in one field of `o`. Returns its name.
fn make_wild(r: &mut Rng, o: &mut AllOpt) -> &'static str {
    let far = [
        NaiveDate::MIN,
        NaiveDate::MAX,
        NaiveDate::from_ymd_opt(-1, 6, 7).unwrap(),
        NaiveDate::from_ymd_opt(0, 2, 29).unwrap(),
        NaiveDate::from_ymd_opt(10000, 1, 1).unwrap(),
        NaiveDate::from_ymd_opt(99999, 12, 31).unwrap(),
        NaiveDate::from_ymd_opt(-4713, 1, 1).unwrap(),
        NaiveDate::from_ymd_opt(-5000, 1, 1).unwrap(),
        NaiveDate::from_ymd_opt(200000, 1, 1).unwrap(),
        NaiveDate::from_ymd_opt(-200000, 3, 1).unwrap(),
    ];
    let nano = |r: &mut Rng, n: u32| {
        let t = timestamp(r);
        t.with_nanosecond(t.nanosecond() / 1000 * 1000 + n).unwrap()
    };
    match below(r, 13) {
        0 => {
            o.f64v = Some(*pick(r, &[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
            "f64 not finite"
        }
        1 => {
            o.f32v = Some(*pick(r, &[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]));
            "f32 not finite"
        }
        2 => {
            o.text = Some(format!("{}\0{}", text(r), text(r)));
            "text with NUL"
        }
        3 => {
            o.json = Some(serde_json::Value::String(format!("{}\0{}", text(r), text(r))));
            "JSON with NUL"
        }
        4 => {
            let n = r.random_range(1..1000);
            o.ts = Some(nano(r, n));
            "nanosecond timestamp"
        }
        5 => {
            let n = r.random_range(1..1000);
            o.tsu = Some(utc(nano(r, n)));
            "nanosecond timestamp (UTC)"
        }
        6 => {
            o.date = Some(*pick(r, &far));
            "far date"
        }
        7 => {
            o.ts = Some(pick(r, &far).and_hms_opt(1, 2, 3).unwrap());
            "far timestamp"
        }
        8 => {
            // a leap second, as chrono represents it
            o.ts = Some(NaiveDate::from_ymd_opt(2016, 12, 31).unwrap().and_hms_nano_opt(23, 59, 59, 1_500_000_000).unwrap());
            "leap second"
        }
        9 => {
            o.json = Some(serde_json::json!({"big": u64::MAX, "small": 1e-300, "huge": 1.5e300, "neg0": -0.0, "third": 1.0f64 / 3.0}));
            "JSON numbers"
        }
        10 => {
            let mut s = Shape { w: i64::MIN, name: "\0".into(), tags: vec!["\u{1}\u{1f}\u{7f}".into()] };
            if r.random() {
                s.name.clear();
            }
            o.ty = Some(s);
            "control characters in a JSON struct"
        }
        11 => {
            o.text = Some("x".repeat(300_000));
            o.blob = Some(vec![0xff; 300_000]);
            "large text"
        }
        _ => {
            o.tsu = Some(DateTime::<Utc>::MAX_UTC);
            "largest timestamp"
        }
    }
}

fn eq_filter_all<T>(ctx: &Ctx, c: &impl butane::db::ConnectionMethods, what: &str, case: &str, vals: Vec<(&'static str, SqlVal)>, pk: (&'static str, SqlVal))
where
    T: DataResult + butane::DataObject,
{
    for (f, v) in vals {
        if matches!(&v, SqlVal::Real(x) if x.is_nan()) {
            continue;
        }
        let isjson = matches!(v, SqlVal::Json(_));
        let e = if v == SqlVal::Null { BoolExpr::Eq(f, Expr::Val(SqlVal::Null)) } else { BoolExpr::Eq(f, Expr::Val(v.clone())) };
        let q = BoolExpr::And(Box::new(e), Box::new(BoolExpr::Eq(pk.0, Expr::Val(pk.1.clone()))));
        match catch(|| T::query().filter(q).load(c)) {
            Ok(Ok(rows)) if rows.len() == 1 => {
                ctx.eval(1);
                ctx.count("equality filters that found the row", 1);
            }
            o => {
                let o = o.map(|x| x.map(|rows| rows.len()));
                ctx.violation(if isjson { "equality-filter-json" } else { "equality-filter" }, case, format!("{what}: filter {f} == {v:?} gave {o:?} rows instead of the one"));
            }
        }
    }
}

fn one_all(ctx: &Ctx, db: &Db, r: &mut Rng, case: &str) {
    let lane = db.lane;
    let id = i64v(r);
    let mut last: Option<AllTypes> = None;
    // insert, then overwrite with other values
    for round in 0..2 {
        let o = gen_all(r, id);
        let what = format!("{lane:?} AllTypes round {round}");
        let mut s = o.clone();
        match catch(|| s.save(db.c())) {
            Ok(Ok(())) => {}
            e => return ctx.violation("refused", case, format!("{what}: save of {o:?} failed: {e:?}")),
        }
        if !diff_all(&o, &s).is_empty() {
            ctx.violation("changed-by-save", case, format!("{what}: {:?}", diff_all(&o, &s)));
        }
        match catch(|| AllTypes::get(db.c(), id)) {
            Ok(Ok(l)) => {
                ctx.eval(1);
                let d = diff_all(&o, &l);
                if !d.is_empty() {
                    ctx.violation("changed", case, format!("{what}: {d:?}"));
                } else {
                    for (f, v) in sql_all(&o) {
                        ctx.nontrivial(&(lane.name(), f, format!("{v:?}")));
                    }
                }
            }
            e => return ctx.violation("unreadable", case, format!("{what}: get after saving {o:?}: {e:?}")),
        }
        eq_filter_all::<AllTypes>(ctx, db.c(), &what, case, sql_all(&o), ("id", SqlVal::BigInt(id)));
        last = Some(o);
    }
    ctx.sample(format!("{lane:?} {last:?}"));
}
fn one_opt(ctx: &Ctx, db: &mut Db, r: &mut Rng, case: &str) {
    let lane = db.lane;
    let mut o = gen_opt(r);
    let wild = if chance(r, 0.5) { Some(make_wild(r, &mut o)) } else { None };
    let what = format!("{lane:?} AllOpt {wild:?}");
    let tx = chance(r, 0.3);
    let mut s = o.clone();
    let update = chance(r, 0.5);
    let saved = catch(|| -> butane::Result<()> {
        if update {
            // make a row first, so that the values arrive through an update
            let mut first = gen_opt(r);
            first.save(db.c())?;
            s.id = first.id.clone();
            o.id = first.id;
        }
        if tx {
            let t = db.cm().transaction()?;
            s.save(&t)?;
            t.commit()
        } else {
            s.save(db.c())
        }
    });
    match saved {
        Ok(Ok(())) => {}
        Ok(Err(e)) => {
            ctx.eval(1);
            if wild.is_none() || wild == Some("JSON numbers") || wild == Some("large text") {
                ctx.violation("refused", case, format!("{what}: save of {o:?} failed: {e:?}"));
            } else {
                ctx.count(&format!("refused: {} {}", lane.name(), wild.unwrap()), 1);
                ctx.nontrivial(&(lane.name(), wild, format!("{o:?}")));
            }
            return;
        }
        Err(p) => return ctx.violation("panic", case, format!("{what}: save of {o:?} panicked: {p}")),
    }
    o.id = s.id.clone();
    if !diff_opt(&o, &s).is_empty() {
        ctx.violation("changed-by-save", case, format!("{what}: {:?}", diff_opt(&o, &s)));
    }
    match catch(|| AllOpt::get(db.c(), s.id.clone())) {
        Ok(Ok(l)) => {
            ctx.eval(1);
            let d = diff_opt(&o, &l);
            if !d.is_empty() {
                // known: PostgreSQL keeps microseconds and has no leap seconds
                // (rounding towards the year 2000)
                let cut = |t: NaiveDateTime| {
                    let leap = t.nanosecond() >= 1_000_000_000;
                    let t = if leap { t.with_nanosecond(t.nanosecond() - 1_000_000_000).unwrap() } else { t };
                    let t = if leap { t + chrono::Duration::seconds(1) } else { t };
                    let n = t.nanosecond() % 1000;
                    if n == 0 {
                        return t;
                    }
                    let t = t - chrono::Duration::nanoseconds(n as i64);
                    if t < NaiveDate::from_ymd_opt(2000, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap() {
                        t + chrono::Duration::microseconds(1)
                    } else {
                        t
                    }
                };
                let mut o2 = o.clone();
                o2.ts = o2.ts.map(cut);
                o2.tsu = o2.tsu.map(|t| utc(cut(t.naive_utc())));
                let sig = if lane != Lane::Pg || !diff_opt(&o2, &l).is_empty() {
                    "changed"
                } else if wild == Some("leap second") {
                    "pg-moves-leap-seconds"
                } else {
                    "pg-drops-nanoseconds"
                };
                return ctx.violation(sig, case, format!("{what}: {d:?}"));
            }
            if let Some(w) = wild {
                ctx.count(&format!("kept: {} {w}", lane.name()), 1);
            }
            for (f, v) in sql_opt(&o).into_iter().skip(1) {
                ctx.nontrivial(&(lane.name(), f, format!("{v:?}")));
            }
        }
        // what was stored cannot be read back: lost
        e => {
            return ctx.violation("unreadable", case, format!("{what}: get after saving {o:?}: {e:?}"));
        }
    }
    let id = o.id.to_sql();
    eq_filter_all::<AllOpt>(ctx, db.c(), &what, case, sql_opt(&o), ("id", id));
}
/// Keys of every type are values too.
fn keys(ctx: &Ctx, db: &Db, r: &mut Rng, case: &str) {
    macro_rules! key {
        ($m:ident, $f:ident, $k:expr) => {{
            let k = $k;
            let mut o = $m { $f: k.clone(), v: text(r), n: opt(r, 0.3, i64v) };
            let want = o.clone();
            match catch(|| o.save(db.c()).and_then(|_| $m::get(db.c(), k.clone()))) {
                Ok(Ok(l)) => {
                    ctx.eval(1);
                    if l != want {
                        ctx.violation("key-changed", case, format!("{:?}: saved {want:?} loaded {l:?}", db.lane));
                    }
                    ctx.nontrivial(&(db.lane.name(), stringify!($m), format!("{k:?}")));
                }
                e => ctx.violation("key-lost", case, format!("{:?}: {want:?}: {e:?}", db.lane)),
            }
        }};
    }
    key!(KInt, id, i32v(r));
    key!(KBig, id, i64v(r));
    key!(KText, key, text(r).chars().take(300).collect::<String>());
    key!(KUuid, id, uuid(r));
    key!(KBlob, id, blob(r));
    key!(KSlug, id, Slug(text(r).chars().take(300).collect()));
    key!(KDate, id, date(r));
}

/// Doubles in JSON whose last digit the JSON parser gets wrong.
fn json_double(ctx: &Ctx, db: &Db) {
    let case = format!("json-double/{}", db.lane.name());
    if !ctx.want(&case) {
        return;
    }
    let f = f64::from_bits(0xc04e97bd92b9c0d6);
    let mut s = AllOpt { json: Some(serde_json::json!({ "x": f })), ..gen_opt(&mut ctx.rng(&case)) };
    ctx.eval(1);
    match catch(|| s.save(db.c()).and_then(|_| AllOpt::get(db.c(), s.id.clone()))) {
        Ok(Ok(l)) if l.json == s.json => {}
        Ok(Ok(l)) => {
            let close = l.json.as_ref().and_then(|j| j["x"].as_f64()).is_some_and(|g| (g.to_bits() as i64 - f.to_bits() as i64).abs() <= 1);
            ctx.violation(if close { "json-doubles-lose-last-digit" } else { "json-double" }, &case, format!("saved {:?} loaded {:?}", s.json, l.json))
        }
        e => ctx.violation("json-double", &case, format!("{e:?}")),
    }
}

fn main() {
    let ctx = Arc::new(Ctx::new("C03", 30, 900));
    ctx.rule("a stored value that was read back (or refused) and compared; distinct by backend, field and value");
    ctx.assume("values every backend can hold: finite floats, text without NUL, years 1 to 9999, microseconds; others may be refused, never changed");
    ctx.watchdog(120, None);
    ctx.parallel(&Lane::ALL, |lane| {
        let mut db = Db::new(&ctx, lane);
        json_double(&ctx, &db);
        ctx.cases(lane.name(), 1.0, 10, 1_000_000, |case, r| {
            one_all(&ctx, &db, r, case);
            for _ in 0..4 {
                one_opt(&ctx, &mut db, r, case);
            }
            keys(&ctx, &db, r, case);
            ctx.count(&format!("cases {}", lane.name()), 1);
        });
    });
    ctx.finish();
}
