//! Random orders, limits and offsets, and the window of a result they denote.
use std::cmp::Ordering;

use butane::SqlVal;
use rand::Rng as _;

use crate::ctx::Rng;
use crate::fixture::*;
use crate::gen::*;
use crate::lane::Lane;
use crate::oracle::{cmp, Row, World};

pub fn order(r: &mut Rng, t: &'static Tbl, total: bool) -> Vec<(&'static str, bool)> {
    let n = *pick(r, &[0, 1, 1, 2, 2, 3, 4]);
    let mut v: Vec<(&'static str, bool)> = (0..n).map(|_| (pick(r, t.cols).0, r.random())).collect();
    if total {
        v.push((t.pk, r.random()));
    }
    v
}
pub fn bound(r: &mut Rng, n: usize) -> Option<i32> {
    let n = n as i32;
    *pick(r, &[None, None, None, Some(0), Some(1), Some(1), Some(2), Some(3), Some(n / 2), Some((n - 1).max(0)), Some(n), Some(n + 1), Some(1000), Some(i32::MAX)])
}
/// How two rows compare under one sort term.
fn cmp1(lane: Lane, a: &SqlVal, b: &SqlVal) -> Ordering {
    match (a == &SqlVal::Null, b == &SqlVal::Null) {
        (true, true) => Ordering::Equal,
        (true, false) => {
            if lane == Lane::Pg {
                Ordering::Greater
            } else {
                Ordering::Less
            }
        }
        (false, true) => {
            if lane == Lane::Pg {
                Ordering::Less
            } else {
                Ordering::Greater
            }
        }
        _ => cmp(a, b).expect("comparable"),
    }
}
pub fn cmp_rows(lane: Lane, ord: &[(&'static str, bool)], a: &Row, b: &Row) -> Ordering {
    for (c, asc) in ord {
        let o = cmp1(lane, &a[*c], &b[*c]);
        let o = if *asc { o } else { o.reverse() };
        if o != Ordering::Equal {
            return o;
        }
    }
    Ordering::Equal
}
/// The rows `q` denotes (one of the possible windows when the order leaves ties).
pub fn rows<'a>(lane: Lane, w: &'a World, t: &'static Tbl, q: &QueryMod) -> Vec<&'a Row> {
    let mut all: Vec<&Row> = match &q.filter {
        Some(e) => w.select(lane, t.name, e),
        None => w.tables[t.name].iter().collect(),
    };
    all.sort_by(|a, b| cmp_rows(lane, &q.order, a, b));
    let off = (q.offset.unwrap_or(0) as usize).min(all.len());
    let len = q.limit.map(|l| l as usize).unwrap_or(usize::MAX).min(all.len() - off);
    all[off..off + len].to_vec()
}
/// Is `got` the window `q` denotes of the rows of `t`? `fields`: project to these columns before comparing
/// (rows are then compared as a multiset within ties).
pub fn check(lane: Lane, w: &World, t: &'static Tbl, q: &QueryMod, got: &[Row]) -> Result<usize, String> {
    let mut all: Vec<&Row> = match &q.filter {
        Some(e) => w.select(lane, t.name, e),
        None => w.tables[t.name].iter().collect(),
    };
    all.sort_by(|a, b| cmp_rows(lane, &q.order, a, b));
    let off = (q.offset.unwrap_or(0) as usize).min(all.len());
    let len = q.limit.map(|l| l as usize).unwrap_or(usize::MAX).min(all.len() - off);
    let want = &all[off..off + len];
    if got.len() != want.len() {
        return Err(format!("{} rows, want {} of {} matching", got.len(), want.len(), all.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if cmp_rows(lane, &q.order, g, w) != Ordering::Equal {
            return Err(format!("row {i} is {}, want {}", show_row(g), show_row(w)));
        }
    }
    let mut seen = std::collections::BTreeSet::new();
    for g in got {
        if !seen.insert(format!("{:?}", g[t.pk])) {
            return Err(format!("row {} twice", show_row(g)));
        }
        if !all.iter().any(|a| *a == g) {
            return Err(format!("row {} does not match", show_row(g)));
        }
    }
    Ok(want.len())
}
