//! Random rows of the tables with every field type.
use butane::AutoPk;
use chrono::{DateTime, NaiveDateTime, TimeZone, Utc};
use rand::Rng as _;

use crate::ctx::Rng;
use crate::gen::*;
use crate::models::*;

pub fn short(r: &mut Rng) -> String {
    text(r)
}
pub fn shape(r: &mut Rng) -> Shape {
    Shape { w: i64v(r), name: short(r), tags: (0..below(r, 3)).map(|_| short(r)).collect() }
}
pub fn mixed(r: &mut Rng) -> Mixed {
    match below(r, 3) {
        0 => Mixed::Unit,
        1 => Mixed::Num(i64v(r)),
        _ => Mixed::Text { s: short(r), o: opt(r, 0.5, i32v) },
    }
}
pub fn utc(n: NaiveDateTime) -> DateTime<Utc> {
    Utc.from_utc_datetime(&n)
}
pub fn gen_all(r: &mut Rng, id: i64) -> AllTypes {
    AllTypes {
        id,
        b: r.random(),
        i8v: i8v(r),
        u8v: u8v(r),
        i16v: i16v(r),
        u16v: u16v(r),
        i32v: i32v(r),
        u32v: u32v(r),
        i64v: i64v(r),
        f32v: f32v(r),
        f64v: f64v(r),
        text: text(r),
        blob: blob(r),
        json: json(r, 3),
        hmap: (0..below(r, 4)).map(|_| (text(r), text(r))).collect(),
        bmap: (0..below(r, 4)).map(|_| (text(r), i64v(r))).collect(),
        ts: timestamp(r),
        tsu: utc(timestamp(r)),
        date: date(r),
        uuid: uuid(r),
        en: *pick(r, &Color::ALL),
        nt: Money(i64v(r)),
        nts: Slug(text(r)),
        ty: shape(r),
        alias: f64v(r),
        manual: if r.random() { Grade::Good } else { Grade::Bad },
        mixed: mixed(r),
    }
}
pub fn gen_opt(r: &mut Rng) -> AllOpt {
    let p = *pick(r, &[0.0, 0.3, 0.5, 1.0]);
    AllOpt {
        id: AutoPk::uninitialized(),
        b: opt(r, p, |r| r.random()),
        i8v: opt(r, p, i8v),
        u8v: opt(r, p, u8v),
        i16v: opt(r, p, i16v),
        u16v: opt(r, p, u16v),
        i32v: opt(r, p, i32v),
        u32v: opt(r, p, u32v),
        i64v: opt(r, p, i64v),
        f32v: opt(r, p, f32v),
        f64v: opt(r, p, f64v),
        text: opt(r, p, text),
        blob: opt(r, p, blob),
        json: opt(r, p, |r| json(r, 2)),
        bmap: opt(r, p, |r| (0..below(r, 3)).map(|_| (text(r), text(r))).collect()),
        ts: opt(r, p, timestamp),
        tsu: opt(r, p, |r| utc(timestamp(r))),
        date: opt(r, p, date),
        uuid: opt(r, p, uuid),
        en: opt(r, p, |r| *pick(r, &Color::ALL)),
        nt: opt(r, p, |r| Money(i64v(r))),
        ty: opt(r, p, shape),
    }
}
