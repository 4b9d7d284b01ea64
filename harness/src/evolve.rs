//! What a change of schema means for the rows.
use std::collections::BTreeSet;

use crate::ctx::Ctx;
use crate::lane::{Db, Lane, Raw};
use crate::schema::*;

/// An empty database, reusing the last one where making one is expensive.
pub fn fresh(ctx: &Ctx, lane: Lane, keep: &mut Option<Db>) -> Db {
    if lane == Lane::Pg {
        if let Some(db) = keep.take() {
            if db.raw_exec("DROP SCHEMA public CASCADE; CREATE SCHEMA public").is_ok() {
                return db;
            }
        }
    } else if let Some(db) = keep.take() {
        let p = db.connstr.clone();
        drop(db);
        for x in ["", "-wal", "-shm", "-journal"] {
            let _ = std::fs::remove_file(format!("{p}{x}"));
        }
    }
    Db::empty(ctx, lane)
}
/// Remove the rows of all tables, whatever the references.
pub fn clear(db: &Db) {
    match db.lane {
        Lane::Pg => {
            let t: Vec<String> = db.tables().into_iter().filter(|t| t != "butane_migrations").map(|t| q(&t)).collect();
            if !t.is_empty() {
                db.raw_exec(&format!("TRUNCATE {} CASCADE", t.join(", "))).expect("clear");
            }
        }
        _ => {
            for t in db.tables() {
                if t != "butane_migrations" {
                    db.raw_exec(&format!("DELETE FROM {}", q(&t))).expect("clear");
                }
            }
        }
    }
}
/// Text of a change without the names.
pub fn shape(d: &str) -> String {
    let w: Vec<&str> = d.split_whitespace().collect();
    w.iter().skip(1).filter(|x| !x.contains('.') || x.contains('(')).cloned().collect::<Vec<_>>().join(" ")
}
/// An error message without names and numbers, to tell kinds apart.
pub fn shape_err(e: &str) -> String {
    let mut out = String::new();
    let mut quoted = false;
    for c in e.chars() {
        match c {
            '"' | '\'' | '`' => quoted = !quoted,
            _ if quoted => {}
            c if c.is_ascii_alphabetic() => out.push(c),
            _ => {
                if !out.ends_with('-') {
                    out.push('-')
                }
            }
        }
    }
    out.truncate(60);
    out
}
pub fn show(r: &Rows) -> String {
    let mut s = String::new();
    for (t, rows) in r {
        for (k, row) in rows.iter().take(3) {
            s += &format!("{t}[{k}] {row:?}; ");
        }
    }
    s.truncate(s.char_indices().nth(800).map(|x| x.0).unwrap_or(s.len()));
    s
}
/// Whether values of `a` are all values of `b`, stored the same way.
pub fn widens(lane: Lane, a: B, b: B) -> bool {
    a == b || (a, b) == (B::Int, B::BigInt) || (lane != Lane::Pg && a.spell(lane) == b.spell(lane))
}
fn same_value(a: &Raw, b: &Raw) -> bool {
    a == b
}
fn column<'a>(s: &'a Schema, lane: Lane, table: &str, col: &str) -> Option<(&'a Model, &'a Field)> {
    let m = s.models.iter().find(|m| fold(lane, m.table()) == table)?;
    m.fields.iter().find(|f| fold(lane, plain(&f.name)) == col && !matches!(f.ty, Ty::Many(_))).map(|f| (m, f))
}
/// Reasons for which the rows may contradict the new schema.
pub fn obstacles(lane: Lane, old: &Schema, new: &Schema, rows: &Rows) -> Vec<String> {
    let mut out = vec![];
    let (oc, nc) = (old.expected(lane), new.expected(lane));
    for (table, ncols) in &nc {
        let Some(ocols) = oc.get(table) else { continue };
        let data = rows.get(table);
        let n = data.map_or(0, |d| d.len());
        if n == 0 {
            continue;
        }
        let data = data.unwrap();
        for (c, nw) in ncols {
            match ocols.get(c) {
                None => {
                    if nw.fk.is_some() && !nw.nullable {
                        out.push(format!("{table}.{c}: new reference needs a target"));
                    }
                    let dflt_null = nw.nullable && column(new, lane, table, c).is_none_or(|(_, f)| f.default.is_none());
                    if (nw.unique || nw.pk) && !dflt_null && n > 1 {
                        out.push(format!("{table}.{c}: one default for several rows of a unique column"));
                    }
                }
                Some(o) => {
                    let vals: Vec<&Raw> = data.values().filter_map(|r| r.get(c)).collect();
                    if !nw.nullable && o.nullable && vals.iter().any(|v| **v == Raw::Null) {
                        out.push(format!("{table}.{c}: null"));
                    }
                    if (nw.unique || nw.pk) && !(o.unique || o.pk) {
                        let d: BTreeSet<String> = vals.iter().filter(|v| ***v != Raw::Null).map(|v| v.show()).collect();
                        if d.len() < vals.iter().filter(|v| ***v != Raw::Null).count() {
                            out.push(format!("{table}.{c}: duplicates"));
                        }
                    }
                    let (a, b) = (base_of(old, lane, table, c), base_of(new, lane, table, c));
                    if !widens(lane, a, b) {
                        out.push(format!("{table}.{c}: {a:?} to {b:?}"));
                    }
                    if nw.fk.is_some() && nw.fk != o.fk {
                        let (t2, c2) = nw.fk.as_ref().unwrap();
                        let have: BTreeSet<String> = rows.get(t2).into_iter().flat_map(|d| d.values()).filter_map(|r| r.get(c2)).map(|v| v.show()).collect();
                        if vals.iter().any(|v| **v != Raw::Null && !have.contains(&v.show())) {
                            out.push(format!("{table}.{c}: no such target"));
                        }
                    }
                }
            }
        }
    }
    out
}
fn base_of(s: &Schema, lane: Lane, table: &str, col: &str) -> B {
    if let Some((_, f)) = column(s, lane, table, col) {
        return s.base(&f.ty);
    }
    for m in &s.models {
        for f in &m.fields {
            if let Ty::Many(_) = &f.ty {
                if fold(lane, &format!("{}_{}_Many", m.table(), plain(&f.name))) == table {
                    return if col == "owner" { s.base(&m.pk().ty) } else { s.base(&f.ty) };
                }
            }
        }
    }
    panic!("no column {table}.{col}")
}
/// The value an added column gets in rows which exist already.
fn default_of(lane: Lane, s: &Schema, f: &Field) -> Vec<Raw> {
    let pg = lane == Lane::Pg;
    if let Some(d) = &f.default {
        let mut v = vec![d.raw(lane)];
        if let Lit::Int(i) = d {
            if s.base(&f.ty) == B::Real {
                v.push(Raw::Real(*i as f64));
            }
        }
        return v;
    }
    if f.opt {
        return vec![Raw::Null];
    }
    let tx = |t: &str| Raw::Text(t.into());
    match s.base(&f.ty) {
        B::Bool => vec![if pg { tx("f") } else { Raw::Int(0) }],
        B::Int | B::BigInt => vec![if pg { tx("0") } else { Raw::Int(0) }],
        B::Real => vec![if pg { tx("0") } else { Raw::Real(0.0) }],
        B::Text => vec![tx("")],
        B::Blob => vec![if pg { tx("\\x") } else { Raw::Blob(vec![]) }],
        B::Json => vec![tx("null")],
        B::Date => vec![tx("0001-01-01")],
        B::Timestamp => vec![tx("1970-01-01 00:00:00")],
    }
}
/// What should have survived the step from `old` to `new` but did not.
/// `mids` are the versions in between: what they lack is not expected to survive.
pub fn survived(lane: Lane, old: &Schema, mids: &[Schema], new: &Schema, before: &Rows, after: &Rows) -> Vec<String> {
    let mids: Vec<Catalog> = mids.iter().map(|m| m.expected(lane)).collect();
    let mut out = vec![];
    let (oc, nc) = (old.expected(lane), new.expected(lane));
    for (table, ncols) in &nc {
        let Some(ocols) = oc.get(table) else { continue };
        let Some(b) = before.get(table) else { continue };
        if mids.iter().any(|m| !m.contains_key(table)) {
            continue;
        }
        // converted back and forth, or not there all the time
        let steady = |c: &String| mids.iter().all(|m| m[table].get(c).is_some_and(|x| Some(&x.ty) == ocols.get(c).map(|o| &o.ty)));
        let a = &after[table];
        if a.len() != b.len() {
            out.push(format!("rows of {table}: {} before, {} after", b.len(), a.len()));
            continue;
        }
        let opk = ocols.iter().find(|(_, c)| c.pk).map(|x| x.0);
        for (k, row) in b {
            // rows are found again by their old key column, which may be a plain one now
            let now = match opk {
                Some(pk) if ncols.contains_key(pk) && steady(pk) => {
                    let conv = base_of(old, lane, table, pk) != base_of(new, lane, table, pk);
                    match a.values().find(|r| r.get(pk).map(|v| if conv { text_of(v) } else { v.show() }) == row.get(pk).map(|v| if conv { text_of(v) } else { v.show() })) {
                        Some(r) => r,
                        None if conv => continue,
                        None => {
                            out.push(format!("row {table}[{k}] is gone"));
                            continue;
                        }
                    }
                }
                Some(_) => continue,
                None => match a.get(k) {
                    Some(r) => r,
                    None => {
                        // join tables have no key: compare as sets only when unconverted
                        if ocols == ncols {
                            out.push(format!("row {table}[{k}] is gone"));
                        }
                        continue;
                    }
                },
            };
            for c in ncols.keys() {
                let v = &now[c];
                match row.get(c) {
                    Some(_) if !steady(c) => {}
                    None if !mids.is_empty() => {}
                    Some(ov) => {
                        let (x, y) = (base_of(old, lane, table, c), base_of(new, lane, table, c));
                        let ok = if widens(lane, x, y) { same_value(v, ov) } else { converted(ov, v) };
                        if !ok {
                            out.push(format!("value {table}[{k}].{c} ({x:?} to {y:?}) was {ov:?} is {v:?}"));
                        }
                    }
                    None => {
                        if let Some((_, f)) = column(new, lane, table, c) {
                            if matches!(f.ty, Ty::Auto(..)) {
                                continue;
                            }
                            if matches!(f.ty, Ty::Fk(_)) && !f.opt {
                                continue;
                            }
                            let want = default_of(lane, new, f);
                            if !want.contains(v) {
                                out.push(format!("default {table}[{k}].{c} is {v:?}, want {:?} ({:?})", want, f.ty));
                            }
                        }
                    }
                }
            }
        }
    }
    out
}
fn text_of(v: &Raw) -> String {
    match v {
        Raw::Text(t) => t.clone(),
        Raw::Int(i) => i.to_string(),
        Raw::Real(f) => f.to_string(),
        o => o.show(),
    }
}
/// A value carried over to another type, not simply replaced.
fn converted(a: &Raw, b: &Raw) -> bool {
    if *a == Raw::Null || *b == Raw::Null {
        return a == b;
    }
    let (x, y) = (text_of(a), text_of(b));
    if x == y {
        return true;
    }
    if let (Ok(f), Ok(g)) = (x.parse::<f64>(), y.parse::<f64>()) {
        // Postgres rounds where the new type has no fractions
        return f == g || (f.abs() <= 1e9 && (f - g).abs() <= 0.5 && g.fract() == 0.0);
    }
    // spellings differ between types: only numbers are compared exactly
    x.parse::<f64>().is_err() || y.starts_with("\\x") || matches!(y.as_str(), "t" | "f")
}
