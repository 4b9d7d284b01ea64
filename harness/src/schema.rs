//! Random model schemas: their source text, the catalogue each backend should have for them, changes
//! from one version to the next, and rows to fill them with.
use std::collections::{BTreeMap, BTreeSet};

use butane::migrations::{MemMigrations, Migrations, MigrationsMut};

use crate::gen::*;
use crate::lane::{Db, Lane, Raw};
use crate::Rng;

/// What is stored.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum B {
    Bool,
    Int,
    BigInt,
    Real,
    Text,
    Blob,
    Json,
    Date,
    Timestamp,
}
impl B {
    pub const ALL: [B; 9] = [B::Bool, B::Int, B::BigInt, B::Real, B::Text, B::Blob, B::Json, B::Date, B::Timestamp];
    pub fn spell(self, lane: Lane) -> &'static str {
        use B::*;
        match lane {
            Lane::Pg => match self {
                Bool => "boolean",
                Int => "integer",
                BigInt => "bigint",
                Real => "double precision",
                Text => "text",
                Blob => "bytea",
                Json => "jsonb",
                Date => "date",
                Timestamp => "timestamp without time zone",
            },
            _ => match self {
                Bool | Int | BigInt => "INTEGER",
                Real => "REAL",
                Text | Json | Date | Timestamp => "TEXT",
                Blob => "BLOB",
            },
        }
    }
    pub fn name(self) -> &'static str {
        use B::*;
        match self {
            Bool => "Bool",
            Int => "Int",
            BigInt => "BigInt",
            Real => "Real",
            Text => "Text",
            Blob => "Blob",
            Json => "Json",
            Date => "Date",
            Timestamp => "Timestamp",
        }
    }
}
/// The type of a field as written in the source.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    /// Rust spelling and what it is stored as
    Plain(&'static str, B),
    Custom(String),
    Auto(&'static str, B),
    Fk(String),
    Many(String),
}
pub const PLAIN: &[(&str, B)] = &[
    ("bool", B::Bool),
    ("i8", B::Int),
    ("u8", B::Int),
    ("i16", B::Int),
    ("u16", B::Int),
    ("i32", B::Int),
    ("u32", B::BigInt),
    ("i64", B::BigInt),
    ("f32", B::Real),
    ("f64", B::Real),
    ("String", B::Text),
    ("std::string::String", B::Text),
    ("Vec<u8>", B::Blob),
    ("std::vec::Vec<u8>", B::Blob),
    ("serde_json::Value", B::Json),
    ("Value", B::Json),
    ("HashMap<String, String>", B::Json),
    ("std::collections::BTreeMap<String, i64>", B::Json),
    ("Uuid", B::Blob),
    ("uuid::Uuid", B::Blob),
    ("NaiveDate", B::Date),
    ("chrono::NaiveDate", B::Date),
    ("NaiveDateTime", B::Timestamp),
    ("chrono::NaiveDateTime", B::Timestamp),
    ("DateTime<Utc>", B::Timestamp),
    ("chrono::DateTime<chrono::Utc>", B::Timestamp),
];
#[derive(Clone, Debug, PartialEq)]
pub enum Lit {
    Int(i64),
    Real(f64),
    Text(String),
    Bool(bool),
    Blob(Vec<u8>),
}
impl Lit {
    pub fn rust(&self) -> String {
        match self {
            Lit::Int(i) => i.to_string(),
            Lit::Real(f) => format!("{f:?}"),
            Lit::Text(t) => format!("{t:?}"),
            Lit::Bool(b) => b.to_string(),
            Lit::Blob(b) => format!("b\"{}\"", b.iter().map(|x| format!("\\x{x:02x}")).collect::<String>()),
        }
    }
    pub fn raw(&self, lane: Lane) -> Raw {
        match (self, lane) {
            (Lit::Int(i), Lane::Pg) => Raw::Text(i.to_string()),
            (Lit::Int(i), _) => Raw::Int(*i),
            (Lit::Real(f), Lane::Pg) => Raw::Text(f.to_string()),
            (Lit::Real(f), _) => Raw::Real(*f),
            (Lit::Text(t), _) => Raw::Text(t.clone()),
            (Lit::Bool(b), Lane::Pg) => Raw::Text(if *b { "t" } else { "f" }.into()),
            (Lit::Bool(b), _) => Raw::Int(*b as i64),
            (Lit::Blob(b), Lane::Pg) => Raw::Text(format!("\\x{}", hex(b))),
            (Lit::Blob(b), _) => Raw::Blob(b.clone()),
        }
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub opt: bool,
    pub pk: bool,
    pub unique: bool,
    pub default: Option<Lit>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    pub name: String,
    pub table: Option<String>,
    pub fields: Vec<Field>,
}
impl Model {
    pub fn table(&self) -> &str {
        self.table.as_deref().unwrap_or_else(|| plain(&self.name))
    }
    pub fn pk(&self) -> &Field {
        self.fields.iter().find(|f| f.pk).unwrap()
    }
    pub fn field(&self, n: &str) -> Option<&Field> {
        self.fields.iter().find(|f| f.name == n)
    }
}
/// Without the raw-identifier prefix.
pub fn plain(n: &str) -> &str {
    n.strip_prefix("r#").unwrap_or(n)
}
#[derive(Clone, Debug, PartialEq)]
pub struct TypeDef {
    pub name: String,
    /// 0 alias, 1 struct, 2 enum
    pub kind: u8,
    /// spelling for an alias
    pub alias: &'static str,
    pub base: B,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Schema {
    pub models: Vec<Model>,
    pub types: Vec<TypeDef>,
}
/// One column of a catalogue.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Col {
    pub ty: String,
    pub nullable: bool,
    pub pk: bool,
    pub unique: bool,
    pub auto: bool,
    pub fk: Option<(String, String)>,
}
pub type Catalog = BTreeMap<String, BTreeMap<String, Col>>;

/// How a name looks in the catalogue.
pub fn fold(lane: Lane, n: &str) -> String {
    match lane {
        Lane::Pg | Lane::Turso => n.to_lowercase(),
        _ => n.to_string(),
    }
}

impl Schema {
    pub fn model(&self, name: &str) -> Option<&Model> {
        self.models.iter().find(|m| m.name == name)
    }
    pub fn base(&self, ty: &Ty) -> B {
        match ty {
            Ty::Plain(_, b) | Ty::Auto(_, b) => *b,
            Ty::Custom(n) => self.types.iter().find(|t| t.name == *n).unwrap().base,
            Ty::Fk(m) | Ty::Many(m) => self.base(&self.model(m).unwrap().pk().ty),
        }
    }
    /// The source text of a model.
    pub fn source(&self, m: &Model) -> String {
        let mut s = String::new();
        if let Some(t) = &m.table {
            s += &format!("#[table = {t:?}]\n");
        }
        s += &format!("pub struct {} {{\n", m.name);
        for f in &m.fields {
            if f.pk && f.name != "id" {
                s += "    #[pk]\n";
            }
            if f.unique {
                s += "    #[unique]\n";
            }
            if let Some(d) = &f.default {
                s += &format!("    #[default = {}]\n", d.rust());
            }
            let t = match &f.ty {
                Ty::Plain(t, _) => t.to_string(),
                Ty::Custom(n) => n.clone(),
                Ty::Auto(t, _) => format!("AutoPk<{t}>"),
                Ty::Fk(m) => format!("ForeignKey<{m}>"),
                Ty::Many(m) => format!("Many<{m}>"),
            };
            let t = if f.opt { format!("Option<{t}>") } else { t };
            s += &format!("    pub {}: {t},\n", f.name);
        }
        s + "}\n"
    }
    pub fn type_source(t: &TypeDef) -> (String, String) {
        match t.kind {
            0 => (String::new(), format!("pub type {} = {};", t.name, t.alias)),
            1 => (t.base.name().into(), format!("pub struct {} {{ x: i32 }}", t.name)),
            _ => (t.base.name().into(), format!("pub enum {} {{ A, B }}", t.name)),
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for t in &self.types {
            let (a, b) = Self::type_source(t);
            s += &format!("#[butane_type({a})] {b}\n");
        }
        for m in &self.models {
            s += &self.source(m);
        }
        s
    }
    /// Declare everything to `ms`, in the order of the vectors, as the macros would.
    pub fn declare<M: butane::migrations::MigrationMut>(&self, ms: &mut impl MigrationsMut<M = M>) {
        for t in &self.types {
            declare_type(t, ms);
        }
        for m in &self.models {
            declare_model(self, m, ms);
        }
    }
    /// Models whose references come after what they refer to (self references aside).
    pub fn sorted(&self) -> Schema {
        let mut done: BTreeSet<&str> = BTreeSet::new();
        let mut out = vec![];
        while out.len() < self.models.len() {
            let before = out.len();
            for m in &self.models {
                if !done.contains(m.name.as_str())
                    && m.fields.iter().all(|f| match &f.ty {
                        Ty::Fk(x) | Ty::Many(x) => *x == m.name || done.contains(x.as_str()),
                        _ => true,
                    })
                {
                    done.insert(&m.name);
                    out.push(m.clone());
                }
            }
            if out.len() == before {
                // cyclic: any order
                return self.clone();
            }
        }
        Schema { models: out, types: self.types.clone() }
    }
    pub fn expected(&self, lane: Lane) -> Catalog {
        let mut cat = Catalog::new();
        for m in &self.models {
            let mut t = BTreeMap::new();
            for f in &m.fields {
                let b = self.base(&f.ty);
                let fname = plain(&f.name);
                match &f.ty {
                    Ty::Many(other) => {
                        let o = self.model(other).unwrap();
                        let col = |b: B, m: &Model| Col {
                            ty: b.spell(lane).into(),
                            nullable: false,
                            pk: false,
                            unique: false,
                            auto: false,
                            fk: Some((fold(lane, m.table()), fold(lane, plain(&m.pk().name)))),
                        };
                        cat.insert(
                            fold(lane, &format!("{}_{fname}_Many", m.table())),
                            [("owner".to_string(), col(self.base(&m.pk().ty), m)), ("has".to_string(), col(b, o))].into(),
                        );
                    }
                    ty => {
                        let fk = match ty {
                            Ty::Fk(o) => {
                                let o = self.model(o).unwrap();
                                Some((fold(lane, o.table()), fold(lane, plain(&o.pk().name))))
                            }
                            _ => None,
                        };
                        t.insert(
                            fold(lane, fname),
                            Col {
                                ty: b.spell(lane).into(),
                                nullable: f.opt,
                                pk: f.pk,
                                unique: f.unique,
                                auto: lane == Lane::Pg && matches!(ty, Ty::Auto(..)),
                                fk,
                            },
                        );
                    }
                }
            }
            cat.insert(fold(lane, m.table()), t);
        }
        cat
    }
}
pub fn declare_type<M: butane::migrations::MigrationMut>(t: &TypeDef, ms: &mut impl MigrationsMut<M = M>) {
    let (args, item) = Schema::type_source(t);
    let out = butane_core::codegen::butane_type_with_migrations(args.parse().unwrap(), item.parse().unwrap(), ms).to_string();
    assert!(!out.contains("compile_error"), "{out}");
}
pub fn declare_model<M: butane::migrations::MigrationMut>(s: &Schema, m: &Model, ms: &mut impl MigrationsMut<M = M>) {
    let out = butane_core::codegen::model_with_migrations(s.source(m).parse().expect("tokens"), ms).to_string();
    assert!(!out.contains("compile_error"), "{out}");
}

// --- generation ------------------------------------------------------------
const MODELS: &[&str] = &["Blog", "Post", "Tag", "Order", "User", "camelCase", "Item", "Thing", "Group", "Zebra", "Ünit"];
const FIELDS: &[&str] = &["name", "title", "body", "order", "group", "select", "someValue", "r#type", "count", "index", "Upper", "has", "owner", "x", "y_2", "größe", "user", "desc"];
const TABLES: &[&str] = &["weird_Table", "from", "plain_table", "UPPER"];

pub fn gen_default(r: &mut Rng, b: B) -> Option<Lit> {
    Some(match b {
        B::Bool => Lit::Bool(chance(r, 0.5)),
        B::Int => Lit::Int(r.random_range(0..100)),
        B::BigInt => Lit::Int(r.random_range(0..1000)),
        B::Real => Lit::Real(r.random_range(0..100) as f64 / 4.0),
        B::Text => Lit::Text(pick(r, &["", "dflt", "two words", "it's", "semi;colon", "ünï", "100%"]).to_string()),
        B::Blob => Lit::Blob(pick(r, &[&b"ab"[..], &b"\x00\xff"[..], &b""[..]]).to_vec()),
        _ => return None,
    })
}
use rand::Rng as _;
impl Schema {
    pub fn gen_plain(&self, r: &mut Rng) -> Ty {
        if !self.types.is_empty() && chance(r, 0.12) {
            return Ty::Custom(pick(r, &self.types).name.clone());
        }
        let (a, b) = *pick(r, PLAIN);
        Ty::Plain(a, b)
    }
    pub fn gen_pk(&self, r: &mut Rng) -> Field {
        let (name, ty) = match below(r, 8) {
            0..=2 => ("id", Ty::Auto("i64", B::BigInt)),
            3 => ("id", Ty::Auto("i32", B::Int)),
            4 => ("id", Ty::Plain("i64", B::BigInt)),
            5 => ("key", Ty::Plain("String", B::Text)),
            6 => ("id", Ty::Plain("i32", B::Int)),
            _ => ("id", Ty::Plain("Uuid", B::Blob)),
        };
        Field { name: name.into(), ty, opt: false, pk: true, unique: false, default: None }
    }
    pub fn gen_field(&self, r: &mut Rng, m: &Model) -> Option<Field> {
        let name = pick(r, FIELDS).to_string();
        if m.fields.iter().any(|f| plain(&f.name).eq_ignore_ascii_case(plain(&name))) {
            return None;
        }
        let targets: Vec<&str> = self.models.iter().map(|m| m.name.as_str()).collect();
        let kind = below(r, 10);
        let ty = match kind {
            0 | 1 if !targets.is_empty() => Ty::Fk(pick(r, &targets).to_string()),
            2 if !targets.is_empty() => Ty::Many(pick(r, &targets).to_string()),
            _ => self.gen_plain(r),
        };
        let many = matches!(ty, Ty::Many(_));
        let fk = matches!(ty, Ty::Fk(_));
        let opt = !many && chance(r, 0.4);
        let unique = !many && chance(r, 0.12);
        let default = if many || fk || !chance(r, 0.35) { None } else { gen_default(r, self.base(&ty)) };
        Some(Field { name, ty, opt, pk: false, unique, default })
    }
    pub fn gen_model(&self, r: &mut Rng) -> Option<Model> {
        let name = pick(r, MODELS).to_string();
        let table = if chance(r, 0.15) { Some(pick(r, TABLES).to_string()) } else { None };
        let t = table.clone().unwrap_or_else(|| name.clone());
        if self.models.iter().any(|m| m.name == name || m.table().eq_ignore_ascii_case(&t) || m.table().eq_ignore_ascii_case(&name)) {
            return None;
        }
        let mut m = Model { name, table, fields: vec![] };
        let mut pk = self.gen_pk(r);
        if chance(r, 0.1) {
            pk.name = "theKey".into();
        }
        m.fields.push(pk);
        let mut me = self.clone();
        for _ in 0..below(r, 5) {
            me.models.retain(|x| x.name != m.name);
            me.models.push(m.clone());
            if let Some(f) = me.gen_field(r, &m) {
                m.fields.push(f);
            }
        }
        if chance(r, 0.3) {
            let n = m.fields.len();
            m.fields.swap(0, below(r, n));
        }
        Some(m)
    }
    pub fn generate(r: &mut Rng) -> Schema {
        let mut s = Schema::default();
        for i in 0..below(r, 3) {
            s.types.push(match below(r, 3) {
                0 => {
                    let (a, b) = *pick(r, PLAIN);
                    TypeDef { name: format!("Alias{i}"), kind: 0, alias: a, base: b }
                }
                k => TypeDef { name: format!("Cust{i}"), kind: k as u8, alias: "", base: *pick(r, &B::ALL) },
            });
        }
        for _ in 0..1 + below(r, 4) {
            if let Some(m) = s.gen_model(r) {
                s.models.push(m);
            }
        }
        s
    }
    /// Whether butane's migrations can be expected to go from `self` to `next`: the key of a model
    /// which others refer to, before or after, stays what it is, and no column becomes the key on SQLite before the old one
    /// ceases to be (known findings of C11 and C12).
    pub fn leads_to(&self, next: &Schema, lane: Lane, back: bool) -> bool {
        if lane == Lane::Turso && !self.turso_can(next) {
            return false;
        }
        for m in &next.models {
            let Some(o) = self.models.iter().find(|o| o.table().eq_ignore_ascii_case(m.table())) else { continue };
            let (a, b) = (o.pk(), m.pk());
            let many = |m: &Model| m.fields.iter().any(|f| matches!(f.ty, Ty::Many(_)));
            if (plain(&a.name) != plain(&b.name) || lane != Lane::Sqlite && a.ty != b.ty) && (self.referred(&o.name) || next.referred(&m.name) || many(o) || many(m)) {
                return false;
            }
            if o.table() != m.table() {
                return false;
            }
            if plain(&a.name) != plain(&b.name) && lane != Lane::Pg {
                let both = |x: &str| o.fields.iter().any(|f| plain(&f.name) == x) && m.fields.iter().any(|f| plain(&f.name) == x);
                let (x, y) = (plain(&a.name), plain(&b.name));
                if both(x) && both(y) && (x > y || back) {
                    return false;
                }
            }
        }
        true
    }
    /// What the Turso engine can do within a transaction: create and drop tables.
    pub fn turso_can(&self, next: &Schema) -> bool {
        self.models.iter().all(|o| match next.models.iter().find(|m| m.table().eq_ignore_ascii_case(o.table())) {
            Some(m) => {
                let many = |m: &Model| m.fields.iter().filter(|f| matches!(f.ty, Ty::Many(_))).cloned().collect::<Vec<_>>();
                let (a, b) = (many(o), many(m));
                m == o || m.table() == o.table() && {
                    // join tables come and go, the columns of the model stay
                    let plain = |m: &Model| m.fields.iter().filter(|f| !matches!(f.ty, Ty::Many(_))).cloned().collect::<Vec<_>>();
                    plain(o) == plain(m) && a.iter().all(|f| b.iter().all(|g| f.name != g.name || f == g))
                }
            }
            None => true,
        })
    }
    fn referred(&self, name: &str) -> bool {
        self.models.iter().any(|m| m.fields.iter().any(|f| matches!(&f.ty, Ty::Fk(x) | Ty::Many(x) if x == name)))
    }
    /// One change, described.
    pub fn mutate(&mut self, r: &mut Rng) -> Option<String> {
        if self.models.is_empty() || chance(r, 0.12) {
            let m = self.gen_model(r)?;
            let d = format!("add model {}", m.name);
            self.models.push(m);
            return Some(d);
        }
        let i = below(r, self.models.len());
        let name = self.models[i].name.clone();
        match below(r, 12) {
            0 if self.models.len() > 1 => {
                // removing a model removes what refers to it
                self.models.remove(i);
                for m in &mut self.models {
                    m.fields.retain(|f| !matches!(&f.ty, Ty::Fk(x) | Ty::Many(x) if *x == name));
                }
                Some(format!("remove model {name}"))
            }
            1..=3 => {
                let f = self.gen_field(r, &self.models[i])?;
                let d = format!("add {name}.{} {:?}{}", f.name, f.ty, if f.opt { "?" } else { "" });
                self.models[i].fields.push(f);
                Some(d)
            }
            4 | 5 => {
                let m = &mut self.models[i];
                let c: Vec<usize> = (0..m.fields.len()).filter(|&j| !m.fields[j].pk).collect();
                if c.is_empty() {
                    return None;
                }
                let f = m.fields.remove(*pick(r, &c));
                Some(format!("remove {name}.{}", f.name))
            }
            6 => {
                // change a plain type, or between plain and reference
                let j = below(r, self.models[i].fields.len());
                let f = self.models[i].fields[j].clone();
                if matches!(f.ty, Ty::Many(_)) {
                    return None;
                }
                let ty = if f.pk {
                    self.gen_pk(r).ty
                } else {
                    match &f.ty {
                        Ty::Fk(_) if chance(r, 0.5) => Ty::Plain(
                            match self.base(&f.ty) {
                                B::Int => "i32",
                                B::BigInt => "i64",
                                B::Text => "String",
                                B::Blob => "Uuid",
                                _ => return None,
                            },
                            self.base(&f.ty),
                        ),
                        _ => match below(r, 4) {
                            0 => Ty::Fk(pick(r, &self.models).name.clone()),
                            _ => self.gen_plain(r),
                        },
                    }
                };
                let d = format!("change {name}.{} {:?} -> {ty:?}", f.name, f.ty);
                if ty == f.ty {
                    return None;
                }
                let f = &mut self.models[i].fields[j];
                f.ty = ty;
                f.default = None;
                Some(d)
            }
            7 => {
                let m = &mut self.models[i];
                let j = below(r, m.fields.len());
                let f = &mut m.fields[j];
                if f.pk || matches!(f.ty, Ty::Many(_)) {
                    return None;
                }
                f.opt = !f.opt;
                Some(format!("{name}.{} optional: {}", f.name, f.opt))
            }
            8 => {
                let m = &mut self.models[i];
                let j = below(r, m.fields.len());
                let f = &mut m.fields[j];
                if f.pk || matches!(f.ty, Ty::Many(_)) {
                    return None;
                }
                f.unique = !f.unique;
                Some(format!("{name}.{} unique: {}", f.name, f.unique))
            }
            9 => {
                let j = below(r, self.models[i].fields.len());
                let f = &self.models[i].fields[j];
                if f.pk || matches!(f.ty, Ty::Many(_) | Ty::Fk(_)) {
                    return None;
                }
                let d = if f.default.is_some() { None } else { gen_default(r, self.base(&f.ty)) };
                let f = &mut self.models[i].fields[j];
                f.default = d;
                Some(format!("{name}.{} default: {:?}", f.name, f.default))
            }
            10 => {
                // declaration order
                let m = &mut self.models[i];
                use rand::seq::SliceRandom;
                m.fields.shuffle(r);
                Some(format!("reorder {name}"))
            }
            _ => {
                // another key
                let m = &mut self.models[i];
                let c: Vec<usize> = (0..m.fields.len())
                    .filter(|&j| !m.fields[j].pk && !m.fields[j].opt && !m.fields[j].unique && matches!(m.fields[j].ty, Ty::Plain(_, B::Int | B::BigInt | B::Text)))
                    .collect();
                if c.is_empty() {
                    return None;
                }
                let j = *pick(r, &c);
                let old = m.fields.iter().position(|f| f.pk).unwrap();
                m.fields[j].pk = true;
                m.fields[old].pk = false;
                if matches!(m.fields[old].ty, Ty::Auto(..)) {
                    // only keys are automatic
                    m.fields.remove(old);
                }
                let k = self.models[i].pk().name.clone();
                Some(format!("key of {name} is {k}"))
            }
        }
    }
}

// --- catalogue -------------------------------------------------------------
fn t(r: &Raw) -> String {
    match r {
        Raw::Text(t) => t.clone(),
        Raw::Null => String::new(),
        o => o.show(),
    }
}
/// What the database says its tables are (the bookkeeping table aside), and oddities found.
pub fn catalog(db: &Db) -> Result<(Catalog, Vec<String>), String> {
    let mut cat = Catalog::new();
    let mut odd = vec![];
    match db.lane {
        Lane::Pg => {
            for r in db.raw_rows(
                "SELECT c.relname, a.attname, format_type(a.atttypid, a.atttypmod), a.attnotnull, coalesce(pg_get_expr(d.adbin, d.adrelid), '')
                 FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace AND n.nspname = 'public'
                 JOIN pg_attribute a ON a.attrelid = c.oid AND a.attnum > 0 AND NOT a.attisdropped
                 LEFT JOIN pg_attrdef d ON d.adrelid = c.oid AND d.adnum = a.attnum WHERE c.relkind = 'r'",
            )? {
                if t(&r[0]) == "butane_migrations" {
                    continue;
                }
                cat.entry(t(&r[0]).to_lowercase()).or_default().insert(
                    t(&r[1]).to_lowercase(),
                    Col { ty: t(&r[2]), nullable: t(&r[3]) == "f", pk: false, unique: false, auto: t(&r[4]).starts_with("nextval("), fk: None },
                );
            }
            for r in db.raw_rows(
                "SELECT c.relname, k.contype, array_length(k.conkey, 1), a.attname, coalesce(fc.relname, ''), coalesce(fa.attname, ''), k.convalidated
                 FROM pg_constraint k JOIN pg_class c ON c.oid = k.conrelid JOIN pg_namespace n ON n.oid = c.relnamespace AND n.nspname = 'public'
                 JOIN pg_attribute a ON a.attrelid = c.oid AND a.attnum = k.conkey[1]
                 LEFT JOIN pg_class fc ON fc.oid = k.confrelid LEFT JOIN pg_attribute fa ON fa.attrelid = fc.oid AND fa.attnum = k.confkey[1]
                 WHERE k.contype <> 'n'",
            )? {
                let table = t(&r[0]).to_lowercase();
                if table == "butane_migrations" {
                    continue;
                }
                let Some(col) = cat.get_mut(&table).and_then(|x| x.get_mut(&t(&r[3]).to_lowercase())) else {
                    odd.push(format!("constraint on unknown column: {r:?}"));
                    continue;
                };
                if t(&r[2]) != "1" {
                    odd.push(format!("constraint over several columns: {r:?}"));
                }
                match t(&r[1]).as_str() {
                    "p" => col.pk = true,
                    "u" => {
                        if col.unique {
                            odd.push(format!("two unique constraints on {table}.{}", t(&r[3])));
                        }
                        col.unique = true;
                    }
                    "f" => {
                        if col.fk.is_some() {
                            odd.push(format!("two references from {table}.{}", t(&r[3])));
                        }
                        col.fk = Some((t(&r[4]).to_lowercase(), t(&r[5]).to_lowercase()));
                    }
                    _ => odd.push(format!("constraint {r:?}")),
                }
            }
        }
        lane => {
            for table in db.tables() {
                if table == "butane_migrations" {
                    continue;
                }
                let q = format!("\"{table}\"");
                let mut cols = BTreeMap::new();
                let mut pks = 0;
                for r in db.raw_rows(&format!("PRAGMA table_info({q})"))? {
                    let pk = t(&r[5]) != "0";
                    pks += pk as usize;
                    cols.insert(fold(lane, &t(&r[1])), Col { ty: t(&r[2]), nullable: t(&r[3]) == "0", pk, unique: false, auto: false, fk: None });
                }
                if pks > 1 {
                    odd.push(format!("{table}: key over several columns"));
                }
                if lane != Lane::Turso {
                    for r in db.raw_rows(&format!("PRAGMA foreign_key_list({q})"))? {
                        if let Some(c) = cols.get_mut(&t(&r[3])) {
                            if c.fk.is_some() {
                                odd.push(format!("two references from {table}.{}", t(&r[3])));
                            }
                            c.fk = Some((t(&r[2]), t(&r[4])));
                        }
                    }
                    for r in db.raw_rows(&format!("PRAGMA index_list({q})"))? {
                        if t(&r[3]) == "u" {
                            let cs: Vec<String> = db.raw_rows(&format!("PRAGMA index_info(\"{}\")", t(&r[1])))?.iter().map(|x| t(&x[2])).collect();
                            if cs.len() != 1 {
                                odd.push(format!("{table}: unique over {cs:?}"));
                            }
                            if let Some(c) = cols.get_mut(&cs[0]) {
                                c.unique = true;
                            }
                        } else if t(&r[3]) == "c" {
                            odd.push(format!("{table}: an index {r:?}"));
                        }
                    }
                    let strict = db.raw_rows(&format!("SELECT strict FROM pragma_table_list WHERE name = '{table}'"))?;
                    if strict.len() != 1 || t(&strict[0][0]) != "1" {
                        odd.push(format!("{table} is not STRICT"));
                    }
                } else {
                    // this engine has no pragmas for it: read its CREATE statement
                    let sql = db.raw_rows(&format!("SELECT sql FROM sqlite_master WHERE type = 'table' AND name = '{table}'"))?;
                    read_create(&t(&sql[0][0]), &mut cols, &mut odd);
                }
                cat.insert(fold(lane, &table), cols);
            }
        }
    }
    Ok((cat, odd))
}
/// Unique columns and references out of a CREATE TABLE statement.
fn read_create(sql: &str, cols: &mut BTreeMap<String, Col>, odd: &mut Vec<String>) {
    let Some(open) = sql.find('(') else { return };
    let body = &sql[open + 1..sql.rfind(')').unwrap_or(sql.len())];
    let mut parts = vec![String::new()];
    let mut depth = 0;
    let mut quote = None;
    for ch in body.chars() {
        match (quote, ch) {
            (Some(q), c) if c == q => quote = None,
            (None, '"' | '\'') => quote = Some(ch),
            (None, '(') => depth += 1,
            (None, ')') => depth -= 1,
            (None, ',') if depth == 0 => {
                parts.push(String::new());
                continue;
            }
            _ => {}
        }
        parts.last_mut().unwrap().push(ch);
    }
    let unq = |s: &str| s.trim().trim_matches(|c| c == '"' || c == '`' || c == '[' || c == ']').to_string();
    for p in parts {
        let p = p.trim();
        let up = p.to_uppercase();
        if up.starts_with("FOREIGN KEY") {
            let inner = |from: usize| {
                let a = p[from..].find('(').map(|i| from + i + 1)?;
                let b = p[a..].find(')').map(|i| a + i)?;
                Some((a, b))
            };
            let Some((a, b)) = inner(0) else { continue };
            let Some(rf) = up[b..].find("REFERENCES").map(|i| b + i + 10) else { continue };
            let Some((c, d)) = inner(rf) else { continue };
            match cols.get_mut(&unq(&p[a..b]).to_lowercase()) {
                Some(col) => {
                    if col.fk.is_some() {
                        odd.push(format!("two references: {p}"));
                    }
                    col.fk = Some((unq(&p[rf..c - 1]).to_lowercase(), unq(&p[c..d]).to_lowercase()));
                }
                None => odd.push(format!("reference from an unknown column: {p}")),
            }
        } else if let Some(name) = p.split_whitespace().next() {
            if up.split_whitespace().any(|w| w == "UNIQUE") {
                match cols.get_mut(&unq(name).to_lowercase()) {
                    Some(c) => c.unique = true,
                    None => odd.push(format!("unknown column {p}")),
                }
            }
        }
    }
}
/// Differences between two catalogues, in words.
pub fn compare(got: &Catalog, want: &Catalog) -> Vec<String> {
    let mut out = vec![];
    for k in got.keys().chain(want.keys()).collect::<BTreeSet<_>>() {
        match (got.get(k), want.get(k)) {
            (Some(_), None) => out.push(format!("extra table {k}")),
            (None, Some(_)) => out.push(format!("missing table {k}")),
            (Some(g), Some(w)) => {
                for c in g.keys().chain(w.keys()).collect::<BTreeSet<_>>() {
                    match (g.get(c), w.get(c)) {
                        (Some(_), None) => out.push(format!("extra column {k}.{c}")),
                        (None, Some(_)) => out.push(format!("missing column {k}.{c}")),
                        (Some(a), Some(b)) if a != b => out.push(format!("column {k}.{c} is {a:?}\n   should be {b:?}")),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    out
}

// --- rows ------------------------------------------------------------------
pub fn q(n: &str) -> String {
    format!("\"{n}\"")
}
/// An SQL literal for a stored value, `n` making it distinct.
pub fn literal(r: &mut Rng, lane: Lane, b: B, n: i64) -> String {
    let pg = lane == Lane::Pg;
    match b {
        B::Bool => match (pg, n % 2 == 0) {
            (true, true) => "true".into(),
            (true, false) => "false".into(),
            (false, v) => (v as i64).to_string(),
        },
        B::Int => (n * 7 - 3).to_string(),
        B::BigInt => (n * 3_000_000_011).to_string(),
        B::Real => format!("{}", n as f64 + 0.25),
        B::Text => format!("'{}{n}'", pick(r, &["t", "it''s ", "", "ü", "a;b--"])),
        B::Blob => {
            let mut h = format!("{:08x}", n);
            h.push_str(pick(r, &["", "00ff", "27"]));
            if pg {
                format!("'\\x{h}'")
            } else {
                format!("x'{h}'")
            }
        }
        B::Json => format!("'{{\"k\": {n}}}'"),
        B::Date => format!("'20{:02}-0{}-1{}'", n.rem_euclid(90), 1 + n.rem_euclid(9), n.rem_euclid(7)),
        B::Timestamp => format!("'20{:02}-01-02{}03:04:0{}'", n.rem_euclid(90), if pg { " " } else { "T" }, n.rem_euclid(9)),
    }
}
/// What the rows hold: table -> key -> column -> value.
pub type Rows = BTreeMap<String, BTreeMap<String, BTreeMap<String, Raw>>>;
/// Model tables keyed by their primary key; join tables keyed by the whole row.
pub fn rows(db: &Db, s: &Schema) -> Result<Rows, String> {
    let mut out = Rows::new();
    let cat = s.expected(db.lane);
    let tables = db.tables();
    for (table, cols) in &cat {
        let names: Vec<&String> = cols.keys().collect();
        let pk = names.iter().position(|n| cols[*n].pk);
        let real = tables.iter().find(|t| fold(db.lane, t) == *table).ok_or_else(|| format!("no table {table}"))?;
        let mut m = BTreeMap::new();
        // the catalogue's names are folded; ask for everything and use the reported order
        let order = column_order(db, real)?;
        for r in db.raw_rows(&format!("SELECT * FROM {}", q(real)))? {
            let row: BTreeMap<String, Raw> = order.iter().cloned().zip(r.iter().cloned()).collect();
            let key = match pk {
                Some(p) => row.get(names[p]).ok_or_else(|| format!("no column {} in {table}", names[p]))?.show(),
                None => format!("{row:?}"),
            };
            m.insert(key, row);
        }
        out.insert(table.clone(), m);
    }
    Ok(out)
}
/// Folded column names in stored order.
pub fn column_order(db: &Db, table: &str) -> Result<Vec<String>, String> {
    let sql = match db.lane {
        Lane::Pg => format!(
            "SELECT a.attname FROM pg_attribute a JOIN pg_class c ON c.oid = a.attrelid JOIN pg_namespace n ON n.oid = c.relnamespace AND n.nspname = 'public' WHERE c.relname = '{table}' AND a.attnum > 0 AND NOT a.attisdropped ORDER BY a.attnum"
        ),
        _ => format!("PRAGMA table_info({})", q(table)),
    };
    let i = if db.lane == Lane::Pg { 0 } else { 1 };
    Ok(db.raw_rows(&sql)?.iter().map(|r| fold(db.lane, &t(&r[i]))).collect())
}
/// Put rows into every table, references satisfied; returns how many went in.
pub fn fill(r: &mut Rng, db: &Db, s: &Schema, per: usize, serial: &mut i64) -> Result<usize, String> {
    let lane = db.lane;
    let tables = db.tables();
    let real = |n: &str| tables.iter().find(|t| fold(lane, t) == fold(lane, n)).cloned().ok_or_else(|| format!("no table {n}"));
    let mut n = 0;
    let s = s.sorted();
    for m in &s.models {
        let table = real(m.table())?;
        let real_cols: BTreeMap<String, String> = match lane {
            Lane::Pg => db
                .raw_rows(&format!("SELECT a.attname FROM pg_attribute a JOIN pg_class c ON c.oid = a.attrelid JOIN pg_namespace n ON n.oid = c.relnamespace AND n.nspname = 'public' WHERE c.relname = '{table}' AND a.attnum > 0 AND NOT a.attisdropped"))?
                .iter()
                .map(|x| (t(&x[0]).to_lowercase(), t(&x[0])))
                .collect(),
            _ => m.fields.iter().map(|f| (fold(lane, plain(&f.name)), plain(&f.name).to_string())).collect(),
        };
        for _ in 0..per {
            *serial += 1;
            let mut cols = vec![];
            let mut vals = vec![];
            let mut skip = false;
            for f in &m.fields {
                if matches!(f.ty, Ty::Many(_)) {
                    continue;
                }
                let c = real_cols.get(&fold(lane, plain(&f.name))).ok_or_else(|| format!("no column {}.{}", table, f.name))?;
                match &f.ty {
                    Ty::Auto(..) => {
                        if chance(r, 0.5) {
                            continue; // let the database choose
                        }
                        cols.push(q(c));
                        vals.push((*serial + 1_000_000).to_string());
                        continue;
                    }
                    _ if f.opt && chance(r, 0.4) => {
                        cols.push(q(c));
                        vals.push("NULL".into());
                    }
                    Ty::Fk(o) => {
                        let o = s.model(o).unwrap();
                        let ot = real(o.table())?;
                        let oc = column_case(db, &ot, plain(&o.pk().name))?;
                        let taken = if f.unique { format!(" WHERE {} NOT IN (SELECT {} FROM {} WHERE {} IS NOT NULL)", q(&oc), q(c), q(&table), q(c)) } else { String::new() };
                        let have = db.raw_rows(&format!("SELECT {} FROM {}{taken} ORDER BY 1", q(&oc), q(&ot)))?;
                        if have.is_empty() {
                            if f.opt {
                                cols.push(q(c));
                                vals.push("NULL".into());
                                continue;
                            }
                            skip = true;
                            break;
                        }
                        cols.push(q(c));
                        vals.push(as_literal(lane, &have[below(r, have.len())][0], s.base(&f.ty)));
                    }
                    ty => {
                        let b = s.base(ty);
                        if f.unique && b == B::Bool {
                            cols.push(q(c));
                            // at most two distinct values
                            let have = db.raw_rows(&format!("SELECT count(*) FROM {}", q(&table)))?;
                            let k: i64 = t(&have[0][0]).parse().unwrap_or(9);
                            if k >= 2 {
                                skip = true;
                                break;
                            }
                            vals.push(if lane == Lane::Pg { (if k == 0 { "true" } else { "false" }).into() } else { k.to_string() });
                            continue;
                        }
                        cols.push(q(c));
                        vals.push(literal(r, lane, b, *serial));
                    }
                }
            }
            if skip {
                continue;
            }
            let sql = if cols.is_empty() {
                format!("INSERT INTO {} DEFAULT VALUES", q(&table))
            } else {
                format!("INSERT INTO {} ({}) VALUES ({})", q(&table), cols.join(", "), vals.join(", "))
            };
            match db.raw_exec(&sql) {
                Ok(()) => n += 1,
                // distinct-by-serial does not survive narrow types (dates): such rows are left out
                Err(e) if e.to_lowercase().contains("unique") => {}
                Err(e) => return Err(format!("{sql}: {e}")),
            }
        }
    }
    for m in &s.models {
        for f in &m.fields {
            let Ty::Many(o) = &f.ty else { continue };
            let o = s.model(o).unwrap();
            let jt = real(&format!("{}_{}_Many", m.table(), plain(&f.name)))?;
            let (mt, ot) = (real(m.table())?, real(o.table())?);
            let (mc, oc) = (column_case(db, &mt, plain(&m.pk().name))?, column_case(db, &ot, plain(&o.pk().name))?);
            db.raw_exec(&format!(
                "INSERT INTO {} (owner, has) SELECT a.{}, b.{} FROM {} a, {} b WHERE NOT EXISTS (SELECT 1 FROM {} j WHERE j.owner = a.{} AND j.has = b.{}) LIMIT 2",
                q(&jt), q(&mc), q(&oc), q(&mt), q(&ot), q(&jt), q(&mc), q(&oc)
            ))?;
            n += 1;
        }
    }
    Ok(n)
}
pub fn column_case(db: &Db, table: &str, col: &str) -> Result<String, String> {
    if db.lane != Lane::Pg {
        return Ok(col.to_string());
    }
    let v = db.raw_rows(&format!("SELECT a.attname FROM pg_attribute a JOIN pg_class c ON c.oid = a.attrelid JOIN pg_namespace n ON n.oid = c.relnamespace AND n.nspname = 'public' WHERE c.relname = '{table}' AND a.attnum > 0 AND NOT a.attisdropped"))?;
    v.iter().map(|r| t(&r[0])).find(|n| n.to_lowercase() == col.to_lowercase()).ok_or_else(|| format!("no column {table}.{col}"))
}
pub fn as_literal(lane: Lane, v: &Raw, b: B) -> String {
    match v {
        Raw::Null => "NULL".into(),
        Raw::Int(i) => i.to_string(),
        Raw::Real(f) => format!("{f:?}"),
        Raw::Blob(x) => format!("x'{}'", hex(x)),
        Raw::Text(s) => match (lane, b) {
            (Lane::Pg, B::Int | B::BigInt | B::Real) => s.clone(),
            _ => format!("'{}'", s.replace('\'', "''")),
        },
    }
}

/// Migrations for the versions of a schema, one after another, for one backend.
pub fn chain(versions: &[Schema], backends: &nonempty::NonEmpty<Box<dyn butane::db::Backend>>) -> butane::Result<(MemMigrations, Vec<usize>)> {
    let mut ms = MemMigrations::new();
    let mut made = vec![];
    for (i, s) in versions.iter().enumerate() {
        if extend(&mut ms, s, i, backends)? {
            made.push(i);
        }
    }
    Ok((ms, made))
}
/// Add the migration to version `i`; false if nothing changed.
pub fn extend(ms: &mut MemMigrations, s: &Schema, i: usize, backends: &nonempty::NonEmpty<Box<dyn butane::db::Backend>>) -> butane::Result<bool> {
    ms.clear_current()?;
    s.declare(ms);
    let from = ms.latest();
    ms.create_migration(backends, &format!("m{i:03}"), from.as_ref())
}
