//! What a column put there by another program may be read as.
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;

use butane::{DataObject, ForeignKey};
use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
use uuid::Uuid;

use crate::models::*;

/// A column of a row as SQLite holds it.
#[derive(Clone, Debug, PartialEq)]
pub enum Cell {
    Null,
    Int(i64),
    Real(f64),
    Text(Vec<u8>),
    Blob(Vec<u8>),
}
impl Cell {
    fn text(&self) -> Option<&str> {
        match self {
            Cell::Text(t) => std::str::from_utf8(t).ok(),
            _ => None,
        }
    }
    fn int(&self) -> Option<i64> {
        match self {
            Cell::Int(i) => Some(*i),
            _ => None,
        }
    }
    pub fn show(&self) -> String {
        let s = match self {
            Cell::Text(t) => format!("text {:?}", String::from_utf8_lossy(t)),
            o => format!("{o:?}"),
        };
        s.chars().take(200).collect()
    }
}

/// A type of field: `read` is the value a column stands for, if it stands for one at all.
pub trait Field: Debug {
    fn read(c: &Cell) -> Option<Self>
    where
        Self: Sized;
    fn shown(&self) -> String {
        format!("{self:?}")
    }
}
impl Field for bool {
    fn read(c: &Cell) -> Option<Self> {
        c.int().map(|i| i != 0)
    }
}
macro_rules! ints { ($($t:ty)*) => {$(
    impl Field for $t {
        fn read(c: &Cell) -> Option<Self> { match c {
            // a number, however it is stored
            Cell::Real(f) if f.fract() == 0.0 && f.abs() < 9e15 => <$t>::try_from(*f as i64).ok(),
            _ => <$t>::try_from(c.int()?).ok(),
        } }
    })*}
}
ints!(i8 u8 i16 u16 i32 u32 i64);
impl Field for f64 {
    fn read(c: &Cell) -> Option<Self> {
        match c {
            Cell::Real(f) => Some(*f),
            Cell::Int(i) => Some(*i as f64),
            _ => None,
        }
    }
}
impl Field for f32 {
    fn read(c: &Cell) -> Option<Self> {
        let f = f64::read(c)?;
        (!f.is_finite() || (f as f32).is_finite()).then_some(f as f32)
    }
}
impl Field for String {
    fn read(c: &Cell) -> Option<Self> {
        c.text().map(str::to_string)
    }
}
impl Field for Vec<u8> {
    fn read(c: &Cell) -> Option<Self> {
        match c {
            Cell::Blob(b) => Some(b.clone()),
            _ => None,
        }
    }
}
fn json<T: serde::de::DeserializeOwned>(c: &Cell) -> Option<T> {
    // as butane has it: first a JSON value (which forgets all but the last of equal keys)
    let v: serde_json::Value = serde_json::from_str(c.text()?).ok()?;
    serde_json::from_value(v).ok()
}
impl Field for serde_json::Value {
    fn read(c: &Cell) -> Option<Self> {
        json(c)
    }
}
impl<V: serde::de::DeserializeOwned + Debug + Clone + Ord> Field for HashMap<String, V> {
    fn read(c: &Cell) -> Option<Self> {
        json(c)
    }
    fn shown(&self) -> String {
        format!("{:?}", self.iter().collect::<BTreeMap<_, _>>())
    }
}
impl<V: serde::de::DeserializeOwned + Debug> Field for BTreeMap<String, V> {
    fn read(c: &Cell) -> Option<Self> {
        json(c)
    }
}
impl Field for Shape {
    fn read(c: &Cell) -> Option<Self> {
        json(c)
    }
}
impl Field for Mixed {
    fn read(c: &Cell) -> Option<Self> {
        json(c)
    }
}
fn number(s: &str) -> Option<(i64, &str)> {
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let n = t.bytes().take_while(u8::is_ascii_digit).count();
    let v: i64 = t[..n].parse().ok()?;
    Some((if neg { -v } else { v }, &t[n..]))
}
fn ymd(s: &str) -> Option<(NaiveDate, &str)> {
    let (y, s) = number(s.trim_start())?;
    let (m, s) = number(s.strip_prefix('-')?.trim_start())?;
    let (d, s) = number(s.strip_prefix('-')?.trim_start())?;
    Some((NaiveDate::from_ymd_opt(y.try_into().ok()?, m.try_into().ok()?, d.try_into().ok()?)?, s))
}
impl Field for NaiveDate {
    fn read(c: &Cell) -> Option<Self> {
        let (d, rest) = ymd(c.text()?)?;
        rest.trim().is_empty().then_some(d)
    }
}
impl Field for NaiveDateTime {
    fn read(c: &Cell) -> Option<Self> {
        let (d, s) = ymd(c.text()?)?;
        let s = s.trim_start();
        let (h, s) = number(s.strip_prefix('T').unwrap_or(s).trim_start())?;
        let (mi, s) = number(s.strip_prefix(':')?.trim_start())?;
        let (sec, s) = number(s.strip_prefix(':')?.trim_start())?;
        let (nano, rest) = match s.strip_prefix('.') {
            None => (0, s),
            Some(f) => {
                let n = f.bytes().take_while(u8::is_ascii_digit).count();
                (format!("{:0<9}", &f[..n])[..9].parse::<u32>().ok()?, &f[n..])
            }
        };
        if !rest.trim().is_empty() {
            return None;
        }
        let (sec, nano) = if sec == 60 { (59, nano + 1_000_000_000) } else { (sec, nano) };
        d.and_hms_nano_opt(h.try_into().ok()?, mi.try_into().ok()?, sec.try_into().ok()?, nano)
    }
}
impl Field for DateTime<Utc> {
    fn read(c: &Cell) -> Option<Self> {
        NaiveDateTime::read(c).map(|t| t.and_utc())
    }
}
impl Field for Uuid {
    fn read(c: &Cell) -> Option<Self> {
        match c {
            Cell::Blob(b) => Uuid::from_slice(b).ok(),
            _ => None,
        }
    }
}
impl Field for Color {
    fn read(c: &Cell) -> Option<Self> {
        Some(match c.text()? {
            "Red" => Color::Red,
            "Green" => Color::Green,
            "DarkBlue" => Color::DarkBlue,
            "Type" | "r#Type" => Color::r#Type,
            _ => return None,
        })
    }
}
impl Field for Money {
    fn read(c: &Cell) -> Option<Self> {
        i64::read(c).map(Money)
    }
}
impl Field for Slug {
    fn read(c: &Cell) -> Option<Self> {
        String::read(c).map(Slug)
    }
}
impl Field for Grade {
    fn read(c: &Cell) -> Option<Self> {
        match c.text()? {
            "it's \"good\"" => Some(Grade::Good),
            "bad;--" => Some(Grade::Bad),
            _ => None,
        }
    }
}
impl<T: Field> Field for Option<T> {
    fn read(c: &Cell) -> Option<Self> {
        match c {
            Cell::Null => Some(None),
            c => T::read(c).map(Some),
        }
    }
    fn shown(&self) -> String {
        match self {
            None => "NULL".into(),
            Some(v) => v.shown(),
        }
    }
}
impl<T: butane::PrimaryKeyType + Field> Field for butane::AutoPk<T> {
    fn read(c: &Cell) -> Option<Self> {
        use butane::FromSql;
        T::read(c).and_then(|v| Self::from_sql(v.to_sql()).ok())
    }
    fn shown(&self) -> String {
        match &**self {
            None => "unset".into(),
            Some(v) => v.shown(),
        }
    }
}
impl<M: DataObject + Debug> Field for ForeignKey<M>
where
    M::PKType: Field,
{
    fn read(c: &Cell) -> Option<Self> {
        M::PKType::read(c).map(ForeignKey::from_pk)
    }
    fn shown(&self) -> String {
        self.pk().shown()
    }
}

pub type Cells = BTreeMap<String, Cell>;

/// A type of row whose fields can be checked against the columns they came from.
pub trait Checked {
    /// Fields which differ from their columns.
    fn wrong(&self, cells: &Cells) -> Vec<String>;
    /// Columns which stand for no value of their field.
    fn unreadable(cells: &Cells) -> Vec<String>;
}
pub fn wrong<T: Field>(name: &str, got: &T, cells: &Cells) -> Option<String> {
    let c = &cells[name];
    match T::read(c) {
        None => Some(format!("{name}: {} was read as {}", c.show(), got.shown())),
        Some(v) if v.shown() != got.shown() => Some(format!("{name}: {} was read as {}, not {}", c.show(), got.shown(), v.shown())),
        _ => None,
    }
}
pub fn unreadable<M, T: Field>(name: &str, cells: &Cells, _: fn(&M) -> &T) -> Option<String> {
    T::read(&cells[name]).is_none().then(|| format!("{name}: {}", cells[name].show()))
}
macro_rules! checked {
    ($t:ident: $($f:ident),*) => {
        impl Checked for $t {
            fn wrong(&self, cells: &Cells) -> Vec<String> {
                let mut v = vec![];
                $( v.extend(wrong(stringify!($f), &self.$f, cells)); )*
                v
            }
            fn unreadable(cells: &Cells) -> Vec<String> {
                let mut v = vec![];
                $( v.extend(unreadable(stringify!($f), cells, |m: &$t| &m.$f)); )*
                v
            }
        }
    };
}
checked!(AllTypes: id, b, i8v, u8v, i16v, u16v, i32v, u32v, i64v, f32v, f64v, text, blob, json, hmap, bmap, ts, tsu, date, uuid, en, nt, nts,
    ty, alias, manual, mixed);
checked!(AllOpt: id, b, i8v, u8v, i16v, u16v, i32v, u32v, i64v, f32v, f64v, text, blob, json, bmap, ts, tsu, date, uuid, en, nt, ty);
checked!(RefAll: id, ki, kb, kt, ku, kbl, ks, ka, ok);
checked!(Author: name, rank, bio);
checked!(Label: code, text, prio);
checked!(Book: id, title, pages, price, big, instock, sub, year, rating, author, editor);
checked!(BookBrief: id, title, price);
checked!(BookReordered: rating, big, title, sub, pages, id, instock, year);
checked!(BookRel: editor, id, author);
checked!(BookOne: year);
checked!(AuthorBio: bio, name);
checked!(KInt: id, v, n);
checked!(KUuid: id, v, n);
checked!(KDate: id, v, n);
checked!(KBlob: id, v, n);
checked!(KSlug: id, v, n);
checked!(KAuto: v, n, key);
checked!(KAuto32: id, v, n);
