//! The models the workloads use: every supported field and key type, relations, constraints,
//! awkward names. Their migrations are recorded by the macros at compile time.
#![allow(non_snake_case, non_camel_case_types)]
use std::collections::{BTreeMap, HashMap};

use butane::{butane_type, dataresult, model, AutoPk, ForeignKey, Many};
use butane::{FieldType, PrimaryKeyType};
use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
use serde::{Deserialize, Serialize};
use uuid::Uuid;

#[model]
#[derive(Debug, Clone, PartialEq)]
pub struct Author {
    #[pk]
    pub name: String,
    pub rank: i32,
    pub bio: Option<String>,
}

#[model]
#[derive(Debug, Clone, PartialEq)]
pub struct Label {
    #[pk]
    pub code: i32,
    pub text: String,
    pub prio: Option<i64>,
}

#[model]
#[derive(Debug, Clone)]
pub struct Book {
    pub id: AutoPk<i64>,
    pub title: String,
    pub pages: i32,
    pub price: f64,
    pub big: i64,
    pub instock: bool,
    pub sub: Option<String>,
    pub year: Option<i32>,
    pub rating: Option<f64>,
    pub author: ForeignKey<Author>,
    pub editor: Option<ForeignKey<Author>>,
    pub labels: Many<Label>,
    pub extra: Many<Label>,
}

#[dataresult(Book)]
#[derive(Debug, Clone)]
pub struct BookBrief {
    pub id: AutoPk<i64>,
    pub title: String,
    pub price: f64,
}
#[dataresult(Book)]
#[derive(Debug, Clone)]
pub struct BookReordered {
    pub rating: Option<f64>,
    pub big: i64,
    pub title: String,
    pub sub: Option<String>,
    pub pages: i32,
    pub id: AutoPk<i64>,
    pub instock: bool,
    pub year: Option<i32>,
}
#[dataresult(Book)]
#[derive(Debug, Clone)]
pub struct BookRel {
    pub editor: Option<ForeignKey<Author>>,
    pub id: AutoPk<i64>,
    pub author: ForeignKey<Author>,
}
#[dataresult(Book)]
#[derive(Debug, Clone)]
pub struct BookOne {
    pub year: Option<i32>,
}
#[dataresult(Author)]
#[derive(Debug, Clone)]
pub struct AuthorBio {
    pub bio: Option<String>,
    pub name: String,
}

/// Every plain field type, not null.
#[model]
#[derive(Debug, Clone, PartialEq)]
pub struct AllTypes {
    pub id: i64,
    pub b: bool,
    pub i8v: i8,
    pub u8v: u8,
    pub i16v: i16,
    pub u16v: u16,
    pub i32v: i32,
    pub u32v: u32,
    pub i64v: i64,
    pub f32v: f32,
    pub f64v: f64,
    pub text: String,
    pub blob: Vec<u8>,
    pub json: serde_json::Value,
    pub hmap: HashMap<String, String>,
    pub bmap: BTreeMap<String, i64>,
    pub ts: NaiveDateTime,
    pub tsu: DateTime<Utc>,
    pub date: NaiveDate,
    pub uuid: Uuid,
    pub en: Color,
    pub nt: Money,
    pub nts: Slug,
    pub ty: Shape,
    pub alias: Meters,
    pub manual: Grade,
    pub mixed: Mixed,
}
/// Every field type, nullable.
#[model]
#[derive(Debug, Clone, PartialEq)]
pub struct AllOpt {
    pub id: AutoPk<i64>,
    pub b: Option<bool>,
    pub i8v: Option<i8>,
    pub u8v: Option<u8>,
    pub i16v: Option<i16>,
    pub u16v: Option<u16>,
    pub i32v: Option<i32>,
    pub u32v: Option<u32>,
    pub i64v: Option<i64>,
    pub f32v: Option<f32>,
    pub f64v: Option<f64>,
    pub text: Option<String>,
    pub blob: Option<Vec<u8>>,
    pub json: Option<serde_json::Value>,
    pub bmap: Option<BTreeMap<String, String>>,
    pub ts: Option<NaiveDateTime>,
    pub tsu: Option<DateTime<Utc>>,
    pub date: Option<NaiveDate>,
    pub uuid: Option<Uuid>,
    pub en: Option<Color>,
    pub nt: Option<Money>,
    pub ty: Option<Shape>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, FieldType)]
pub enum Color {
    Red,
    Green,
    DarkBlue,
    r#Type,
}
impl Color {
    pub const ALL: [Color; 4] = [Color::Red, Color::Green, Color::DarkBlue, Color::r#Type];
}
#[derive(Debug, Clone, PartialEq, PartialOrd, FieldType, Serialize, Deserialize)]
pub struct Money(pub i64);
#[derive(Debug, Clone, PartialEq, Eq, FieldType, PrimaryKeyType, Serialize, Deserialize)]
pub struct Slug(pub String);
/// a struct stored as JSON
#[derive(Debug, Clone, PartialEq, FieldType, Serialize, Deserialize)]
pub struct Shape {
    pub w: i64,
    pub name: String,
    pub tags: Vec<String>,
}
/// an enum with data, stored as JSON
#[derive(Debug, Clone, PartialEq, FieldType, Serialize, Deserialize)]
pub enum Mixed {
    Unit,
    Num(i64),
    Text { s: String, o: Option<i32> },
}
#[butane_type]
pub type Meters = f64;

/// A hand-written conversion.
#[butane_type(Text)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Grade {
    Good,
    Bad,
}
impl butane::ToSql for Grade {
    fn to_sql(&self) -> butane::SqlVal {
        self.to_sql_ref().into()
    }
    fn to_sql_ref(&self) -> butane::SqlValRef<'_> {
        butane::SqlValRef::Text(match self {
            Grade::Good => "it's \"good\"",
            Grade::Bad => "bad;--",
        })
    }
}
impl butane::FromSql for Grade {
    fn from_sql_ref(v: butane::SqlValRef) -> butane::Result<Self> {
        match v {
            butane::SqlValRef::Text("it's \"good\"") => Ok(Grade::Good),
            butane::SqlValRef::Text("bad;--") => Ok(Grade::Bad),
            _ => Err(butane::Error::CannotConvertSqlVal(butane::SqlType::Text, v.into())),
        }
    }
}
impl FieldType for Grade {
    type RefType = Self;
    const SQLTYPE: butane::SqlType = butane::SqlType::Text;
}

// --- key kinds -------------------------------------------------------------
#[model]
#[derive(Debug, Clone, PartialEq)]
pub struct KInt {
    pub id: i32,
    pub v: String,
    pub n: Option<i64>,
}
#[model]
#[derive(Debug, Clone, PartialEq)]
pub struct KBig {
    pub id: i64,
    pub v: String,
    pub n: Option<i64>,
}
#[model]
#[derive(Debug, Clone, PartialEq)]
pub struct KText {
    #[pk]
    pub key: String,
    pub v: String,
    pub n: Option<i64>,
}
#[model]
#[derive(Debug, Clone, PartialEq)]
pub struct KUuid {
    pub id: Uuid,
    pub v: String,
    pub n: Option<i64>,
}
#[model]
#[derive(Debug, Clone, PartialEq)]
pub struct KBlob {
    pub id: Vec<u8>,
    pub v: String,
    pub n: Option<i64>,
}
#[model]
#[derive(Debug, Clone, PartialEq)]
pub struct KSlug {
    pub id: Slug,
    pub v: String,
    pub n: Option<i64>,
}
#[model]
#[derive(Debug, Clone, PartialEq)]
pub struct KDate {
    pub id: NaiveDate,
    pub v: String,
    pub n: Option<i64>,
}
/// key declared last, not named id
#[model]
#[derive(Debug, Clone, PartialEq)]
pub struct KAuto {
    pub v: String,
    pub n: Option<i64>,
    #[pk]
    pub key: AutoPk<i64>,
}
#[model]
#[derive(Debug, Clone, PartialEq)]
pub struct KAuto32 {
    pub id: AutoPk<i32>,
    pub v: String,
    pub n: Option<i64>,
}
/// nothing but a key
#[model]
#[derive(Debug, Clone, PartialEq)]
pub struct KOnly {
    pub id: AutoPk<i64>,
}
#[model]
#[derive(Debug, Clone, PartialEq)]
pub struct KOnlyText {
    #[pk]
    pub word: String,
}

// --- relations -------------------------------------------------------------
#[model]
#[derive(Debug, Clone)]
pub struct RefAll {
    pub id: AutoPk<i64>,
    pub ki: ForeignKey<KInt>,
    pub kb: ForeignKey<KBig>,
    pub kt: ForeignKey<KText>,
    pub ku: ForeignKey<KUuid>,
    pub kbl: ForeignKey<KBlob>,
    pub ks: ForeignKey<KSlug>,
    pub ka: ForeignKey<KAuto>,
    pub ok: Option<ForeignKey<KText>>,
}
#[model]
#[derive(Debug, Clone)]
pub struct Node {
    pub id: AutoPk<i64>,
    pub name: String,
    pub parent: Option<ForeignKey<Node>>,
    pub links: Many<Node>,
}
/// Owner with a text key, members of several key kinds.
#[model]
#[derive(Debug, Clone)]
pub struct Team {
    #[pk]
    pub name: String,
    pub slogan: String,
    pub labels: Many<Label>,
    pub words: Many<KText>,
    pub autos: Many<KAuto>,
    pub uuids: Many<KUuid>,
}
#[model]
#[derive(Debug, Clone)]
pub struct TeamU {
    pub id: Uuid,
    pub labels: Many<Label>,
}

// --- constraints -----------------------------------------------------------
#[model]
#[derive(Debug, Clone)]
pub struct Uniq {
    pub id: AutoPk<i64>,
    #[unique]
    pub email: String,
    #[unique]
    pub code: Option<i32>,
    pub owner: Option<ForeignKey<Author>>,
    pub note: String,
}
#[model]
#[derive(Debug, Clone)]
pub struct UniqText {
    #[pk]
    pub name: String,
    #[unique]
    pub slot: i64,
    pub v: i32,
}
#[model]
#[derive(Debug, Clone)]
pub struct OneToOne {
    pub id: AutoPk<i64>,
    #[unique]
    pub label: ForeignKey<Label>,
    pub v: i32,
}

// --- names -----------------------------------------------------------------
#[model]
#[derive(Debug, Clone)]
pub struct Order {
    pub id: i64,
    pub group: String,
    pub user: Option<String>,
    pub select: i32,
    pub desc: String,
    pub values: i64,
    pub index: bool,
    pub key: String,
    pub end: Option<f64>,
    pub r#where: String,
    pub r#type: i32,
    pub from: Option<i32>,
    pub table: Option<ForeignKey<User>>,
    pub has: i32,
    pub owner: i32,
    pub references: Many<User>,
}
#[model]
#[derive(Debug, Clone)]
pub struct User {
    #[pk]
    pub user: String,
    pub order: i32,
    pub limit: Option<i64>,
    pub default: String,
}
/// mixed-case names throughout
#[model]
#[derive(Debug, Clone)]
pub struct camelCase {
    #[pk]
    pub theKey: String,
    pub someValue: i32,
    pub Upper: Option<String>,
    pub relTo: Option<ForeignKey<MixedAuto>>,
    pub manyOf: Many<MixedAuto>,
}
#[model]
#[derive(Debug, Clone)]
pub struct MixedAuto {
    #[pk]
    pub autoId: AutoPk<i64>,
    pub Text: String,
    pub Num: i32,
}
/// columns named like the join table's own
#[model]
#[derive(Debug, Clone)]
pub struct Clash {
    pub id: AutoPk<i64>,
    pub owner: i32,
    pub has: String,
    pub many: Many<ClashItem>,
}
#[model]
#[derive(Debug, Clone)]
pub struct ClashItem {
    pub id: i64,
    pub owner: i32,
    pub has: String,
}
#[model]
#[table = "weird_table_Name"]
#[derive(Debug, Clone)]
pub struct Renamed {
    pub id: AutoPk<i64>,
    pub name: String,
    pub members: Many<Label>,
}
/// the same through the derive spelling
#[derive(butane::DataObject, Debug, Clone)]
#[table = "select"]
pub struct Derived {
    #[pk]
    pub word: String,
    pub n: i32,
    pub labels: Many<Label>,
}
/// non-ASCII identifiers
#[model]
#[derive(Debug, Clone)]
pub struct Ünïcode {
    pub id: AutoPk<i64>,
    pub größe: i32,
    pub naïve: Option<String>,
}
/// Used for bank transfer workloads.
#[model]
#[derive(Debug, Clone)]
pub struct Account {
    pub id: i64,
    pub balance: i64,
    pub seq: i64,
}
/// Log rows of workloads.
#[model]
#[derive(Debug, Clone)]
pub struct Event {
    pub id: AutoPk<i64>,
    pub worker: i32,
    pub seq: i64,
    pub tag: String,
}

pub mod pk_conv {
    //! Key helpers.
    use butane::{DataObject, PrimaryKeyType};
    pub fn valid<T: DataObject>(t: &T) -> bool {
        t.pk().is_valid()
    }
}
