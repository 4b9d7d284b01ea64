//! C14: schema differences are exact and independent of declaration order.
use butane::migrations::adb::*;
use butane::migrations::{FsMigrations, MemMigrations, Migration, MigrationMut, MigrationsMut};
use butane::{SqlType, SqlVal};
use rtm::prelude::*;

// --- pairs of schemas -------------------------------------------------------------------------
fn sqltype(r: &mut Rng) -> SqlType {
    match below(r, 10) {
        0 => SqlType::Bool,
        1 => SqlType::Int,
        2 => SqlType::BigInt,
        3 => SqlType::Real,
        4 => SqlType::Text,
        5 => SqlType::Date,
        6 => SqlType::Timestamp,
        7 => SqlType::Blob,
        _ => SqlType::Json,
    }
}
fn key(r: &mut Rng) -> TypeKey {
    let n = pick(r, &["A", "B", "PK:", "", "Größe", "HashMap<String,i32>", "a::B"]).to_string();
    if chance(r, 0.5) {
        TypeKey::PK(n)
    } else {
        TypeKey::CustomType(n)
    }
}
fn deferred(r: &mut Rng) -> DeferredSqlType {
    match below(r, 8) {
        0 => DeferredSqlType::Known(sqltype(r)),
        1 => DeferredSqlType::KnownId(TypeIdentifier::Name(pick(r, &["daterange", "it's", ""]).to_string())),
        2 => DeferredSqlType::Deferred(key(r)),
        _ => DeferredSqlType::KnownId(TypeIdentifier::Ty(sqltype(r))),
    }
}
fn default(r: &mut Rng) -> SqlVal {
    match below(r, 9) {
        0 => SqlVal::Bool(chance(r, 0.5)),
        1 => SqlVal::Int(r.random()),
        2 => SqlVal::BigInt(i64v(r)),
        3 => SqlVal::Real({
            let f = f64v(r);
            // serde_json misreads the last digit of some (see float_default)
            if f.is_finite() && through_json(f) == f { f } else { r.random_range(-1000..1000) as f64 / 8.0 }
        }),
        4 => SqlVal::Text(text(r)),
        5 => SqlVal::Blob(blob(r)),
        6 => SqlVal::Json(json(r, 2)),
        7 => SqlVal::Date(date(r)),
        _ => SqlVal::Timestamp(timestamp(r)),
    }
}
fn column(r: &mut Rng, name: &str) -> AColumn {
    let reference = match below(r, 6) {
        0 => Some(ARef::Literal(ARefLiteral::new(*pick(r, &TABLES), *pick(r, &COLS)))),
        1 => Some(ARef::Deferred(deferred(r))),
        _ => None,
    };
    AColumn::new(name, deferred(r), chance(r, 0.3), chance(r, 0.2), chance(r, 0.2), chance(r, 0.2), opt(r, 0.6, default), reference)
}
fn through_json(f: f64) -> f64 {
    serde_json::from_str(&serde_json::to_string(&f).unwrap()).unwrap()
}
const TABLES: [&str; 8] = ["A", "a", "B", "Foo_Many", "order", "ä", "t 1", "Zz"];
const COLS: [&str; 8] = ["id", "Id", "x", "y", "select", "ö", "a b", "zz"];
fn table(r: &mut Rng, name: &str) -> ATable {
    let mut t = ATable::new(name.to_string());
    for _ in 0..below(r, 6) {
        let n = *pick(r, &COLS);
        let c = column(r, n);
        t.add_column(c);
    }
    t
}
fn adb(r: &mut Rng) -> ADB {
    let mut d = ADB::new();
    for _ in 0..below(r, 6) {
        let n = *pick(r, &TABLES);
        let t = table(r, n);
        d.replace_table(t);
    }
    for _ in 0..below(r, 4) {
        d.add_type(key(r), deferred(r));
    }
    d
}
/// A few changes to a schema.
fn edit(r: &mut Rng, d: &mut ADB) {
    for _ in 0..below(r, 5) {
        let names: Vec<String> = d.tables().map(|t| t.name.clone()).collect();
        match below(r, 6) {
            0 => {
                let n = *pick(r, &TABLES);
                let t = table(r, n);
                d.replace_table(t)
            }
            1 if !names.is_empty() => d.remove_table(pick(r, &names)),
            _ if !names.is_empty() => {
                let mut t = d.get_table(pick(r, &names)).unwrap().clone();
                let n = *pick(r, &COLS);
                match below(r, 4) {
                    0 => t.remove_column(n),
                    1 => t.columns.shuffle(r),
                    _ => t.replace_column({
                        // change one aspect of a column, or all of them
                        let new = column(r, n);
                        match t.column(n) {
                            Some(c) if chance(r, 0.7) => tweak(r, c, &new),
                            _ => new,
                        }
                    }),
                }
                d.replace_table(t);
            }
            _ => {}
        }
    }
}
fn tweak(r: &mut Rng, c: &AColumn, new: &AColumn) -> AColumn {
    // through the serialised form, which names every aspect
    let mut v = serde_json::to_value(c).unwrap();
    let n = serde_json::to_value(new).unwrap();
    let k = *pick(r, &["sqltype", "nullable", "pk", "auto", "unique", "default", "reference"]);
    match n.get(k) {
        Some(x) => v[k] = x.clone(),
        None => {
            v.as_object_mut().unwrap().remove(k);
        }
    }
    serde_json::from_value(v).unwrap()
}
type Cols = BTreeMap<String, String>;
fn canon_type(t: &DeferredSqlType) -> String {
    match t {
        // two spellings of one thing
        DeferredSqlType::Known(t) => format!("{:?}", TypeIdentifier::Ty(t.clone())),
        DeferredSqlType::KnownId(i) => format!("{i:?}"),
        DeferredSqlType::Deferred(k) => format!("deferred {k:?}"),
    }
}
fn col_text(c: &AColumn) -> String {
    // the type is private until resolved: take it from the serialised form
    let v = serde_json::to_value(c).unwrap();
    let ty: DeferredSqlType = serde_json::from_value(v["sqltype"].clone()).unwrap();
    let rf = match c.reference() {
        None => "-".to_string(),
        Some(ARef::Literal(l)) => format!("{}.{}", l.table_name(), l.column_name()),
        Some(ARef::Deferred(d)) => format!("ref {}", canon_type(d)),
    };
    let default = match c.default() {
        Some(SqlVal::Real(f)) => format!("real {:x}", f.to_bits()),
        d => format!("{d:?}"),
    };
    format!("{} null={} pk={} auto={} unique={} default={default} {rf}", canon_type(&ty), c.nullable(), c.is_pk(), c.is_auto(), c.unique())
}
fn content(d: &ADB) -> BTreeMap<String, Cols> {
    d.tables().map(|t| (t.name.clone(), t.columns.iter().map(|c| (c.name().to_string(), col_text(c))).collect())).collect()
}
/// Apply an operation, objecting to one which makes no sense at this point.
fn apply(w: &mut BTreeMap<String, Cols>, op: &Operation) -> Result<(), String> {
    let cols = |t: &ATable| t.columns.iter().map(|c| (c.name().to_string(), col_text(c))).collect::<Cols>();
    match op {
        Operation::AddTable(t) => match w.insert(t.name.clone(), cols(t)) {
            None => Ok(()),
            Some(_) => Err(format!("adds existing table {}", t.name)),
        },
        Operation::AddTableIfNotExists(t) => {
            w.entry(t.name.clone()).or_insert(cols(t));
            Ok(())
        }
        Operation::RemoveTable(t) => w.remove(t).map(|_| ()).ok_or(format!("removes missing table {t}")),
        Operation::RemoveTableConstraints(t) => {
            if w.get(&t.name) == Some(&cols(t)) { Ok(()) } else { Err(format!("constraints of {} as it is not", t.name)) }
        }
        Operation::AddTableConstraints(t) => {
            if w.get(&t.name) == Some(&cols(t)) { Ok(()) } else { Err(format!("constraints of {} as it is not", t.name)) }
        }
        Operation::AddColumn(t, c) => {
            let tab = w.get_mut(t).ok_or(format!("adds a column to missing table {t}"))?;
            match tab.insert(c.name().to_string(), col_text(c)) {
                None => Ok(()),
                Some(_) => Err(format!("adds existing column {t}.{}", c.name())),
            }
        }
        Operation::RemoveColumn(t, c) => {
            let tab = w.get_mut(t).ok_or(format!("removes a column of missing table {t}"))?;
            tab.remove(c).map(|_| ()).ok_or(format!("removes missing column {t}.{c}"))
        }
        Operation::ChangeColumn(t, old, new) => {
            let tab = w.get_mut(t).ok_or(format!("changes a column of missing table {t}"))?;
            if old.name() != new.name() || tab.get(old.name()) != Some(&col_text(old)) {
                return Err(format!("changes {t}.{} from what it is not", old.name()));
            }
            if col_text(old) == col_text(new) {
                return Err(format!("changes {t}.{} to what it is", old.name()));
            }
            tab.insert(new.name().to_string(), col_text(new));
            Ok(())
        }
    }
}
fn first_diff(a: &BTreeMap<String, Cols>, b: &BTreeMap<String, Cols>) -> String {
    for k in a.keys().chain(b.keys()) {
        if a.get(k) != b.get(k) {
            return format!("table {k}:\n   {:?}\n   {:?}", a.get(k), b.get(k));
        }
    }
    String::new()
}
fn types_text(d: &ADB) -> Vec<String> {
    d.types().iter().map(|(k, t)| format!("{k:?} = {t:?}")).collect()
}
fn pairs(ctx: &Ctx, r: &mut Rng, case: &str) {
    let old = adb(r);
    let new = if chance(r, 0.3) {
        adb(r)
    } else {
        let mut n = old.clone();
        edit(r, &mut n);
        n
    };
    let (a, b) = (content(&old), content(&new));
    ctx.eval(1);
    let fail = |sig: &str, msg: String| ctx.violation(sig, case, msg);
    let ops = diff(&old, &new);
    if a != b {
        let kinds: Vec<String> = ops.iter().map(|o| format!("{o:?}").split('(').next().unwrap().to_string()).collect();
        ctx.nontrivial(&kinds);
        for k in kinds {
            ctx.count(&k, 1);
        }
    }
    if ops.is_empty() != (a == b) {
        return fail("empty", format!("{} operations between\n {a:?}\n {b:?}", ops.len()));
    }
    let same = diff(&old, &old.clone());
    if !same.is_empty() {
        return fail("self", format!("{same:?}"));
    }
    let mut w = a.clone();
    for op in &ops {
        if let Err(e) = apply(&mut w, op) {
            return fail("senseless", format!("{e}\n {a:?}\n {b:?}\n {ops:?}"));
        }
    }
    if w != b {
        return fail("wrong", format!("{}\n {ops:?}", first_diff(&w, &b)));
    }
    // the library's own interpretation
    let mut t = old.clone();
    for op in ops.iter().cloned() {
        t.transform_with(op);
    }
    if content(&t) != b {
        return fail("transform", first_diff(&content(&t), &b));
    }
    let rest = diff(&t, &new);
    if !rest.is_empty() {
        return fail("again", format!("{rest:?}"));
    }
    // written and read
    let text = if chance(r, 0.5) { serde_json::to_string(&new).unwrap() } else { serde_json::to_string_pretty(&new).unwrap() };
    match catch(|| serde_json::from_str::<ADB>(&text)) {
        Ok(Ok(back)) => {
            if content(&back) != b || types_text(&back) != types_text(&new) {
                return fail("read-back", format!("{}\n{:?}\n{:?}", first_diff(&content(&back), &b), types_text(&back), types_text(&new)));
            }
            let d = diff(&new, &back);
            if !d.is_empty() {
                return fail("read-back-differs", format!("{d:?}"));
            }
        }
        e => return fail("read-back-fails", format!("{e:?}\n{text}")),
    }
    for t in new.tables() {
        match serde_json::from_str::<ATable>(&serde_json::to_string_pretty(t).unwrap()) {
            Ok(back) if back == *t => {}
            e => return fail("table-read-back", format!("{e:?}\n{t:?}")),
        }
    }
    let text = serde_json::to_string(&ops).unwrap();
    match serde_json::from_str::<Vec<Operation>>(&text) {
        Ok(back) if back == ops => {}
        e => return fail("ops-read-back", format!("{e:?}\n{text}")),
    }
    ctx.count("written and read back", 1);
}

/// Defaults whose last digit is lost when read back.
fn float_default(ctx: &Ctx) {
    let case = "float-default";
    if !ctx.want(case) {
        return;
    }
    let f = f64::from_bits(0xc04e97bd92b9c0d6);
    let d = Some(SqlVal::Real(f));
    let mut a = ADB::new();
    let mut t = ATable::new("T".into());
    t.add_column(AColumn::new("x", DeferredSqlType::KnownId(TypeIdentifier::Ty(SqlType::Real)), false, false, false, false, d, None));
    a.replace_table(t);
    ctx.eval(1);
    let back: ADB = serde_json::from_str(&serde_json::to_string(&a).unwrap()).unwrap();
    let ops = diff(&a, &back);
    if !ops.is_empty() {
        ctx.violation("float-default-loses-last-digit", case, format!("{f:?}: {ops:?}"));
    }
}

// --- declarations ------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
enum Ty {
    Plain(&'static str, SqlType),
    Auto,
    Type(usize),
    Fk(usize),
    /// a model that is nowhere declared
    Nowhere,
}
#[derive(Clone, Debug)]
struct Fld {
    name: String,
    ty: Ty,
    opt: bool,
    many: bool,
    unique: bool,
}
#[derive(Clone, Debug)]
struct Mdl {
    name: String,
    table: Option<String>,
    fields: Vec<Fld>,
}
#[derive(Clone, Debug)]
struct Decls {
    types: Vec<(String, Ty)>,
    models: Vec<Mdl>,
}
fn plain_ty(r: &mut Rng) -> Ty {
    let (n, t) = pick(
        r,
        &[
            ("i32", SqlType::Int),
            ("u16", SqlType::Int),
            ("i64", SqlType::BigInt),
            ("u32", SqlType::BigInt),
            ("String", SqlType::Text),
            ("::std::string::String", SqlType::Text),
            ("f32", SqlType::Real),
            ("bool", SqlType::Bool),
            ("Vec<u8>", SqlType::Blob),
            ("uuid::Uuid", SqlType::Blob),
            ("chrono::NaiveDate", SqlType::Date),
            ("DateTime<Utc>", SqlType::Timestamp),
            ("NaiveDateTime", SqlType::Timestamp),
            ("serde_json::Value", SqlType::Json),
            ("HashMap<String, i32>", SqlType::Json),
            ("std::collections::BTreeMap<std::string::String, Vec<f64>>", SqlType::Json),
        ],
    );
    Ty::Plain(n, t.clone())
}
impl Decls {
    fn gen(r: &mut Rng) -> Decls {
        let odd = chance(r, 0.12);
        let nt = below(r, 6);
        let nm = 1 + below(r, 5);
        let mut type_names: Vec<String> = ["Zeta", "Alpha", "mid::Type", "r#type", "Beta", "Omega"].iter().map(|s| s.to_string()).collect();
        type_names.shuffle(r);
        // aliases refer to later ones only, unless odd
        let mut types = vec![];
        for i in 0..nt {
            let ty = match below(r, 6) {
                0 | 1 | 2 if i + 1 < nt => Ty::Type(i + 1 + below(r, nt - i - 1)),
                3 => Ty::Fk(below(r, nm)),
                _ if odd && chance(r, 0.5) => Ty::Type(below(r, nt)),
                _ if odd && chance(r, 0.2) => Ty::Nowhere,
                _ => plain_ty(r),
            };
            types.push((type_names[i].clone(), ty));
        }
        let mut names: Vec<String> = ["Zebra", "Apple", "Mango", "r#struct", "camelCase", "Blog", "Äpfel"].iter().map(|s| s.to_string()).collect();
        names.shuffle(r);
        let mut models: Vec<Mdl> = vec![];
        for i in 0..nm {
            let mut fields = vec![];
            let pk = match below(r, 6) {
                0 | 1 if nt > 0 => Ty::Type(below(r, nt)),
                2 => Ty::Auto,
                _ => plain_ty(r),
            };
            fields.push(Fld { name: if chance(r, 0.5) { "id".into() } else { "key".into() }, ty: pk, opt: false, many: false, unique: false });
            for f in 0..below(r, 5) {
                let ty = match below(r, 6) {
                    0 | 1 => Ty::Fk(below(r, nm)),
                    2 | 3 if nt > 0 => Ty::Type(below(r, nt)),
                    _ if odd && chance(r, 0.3) => Ty::Nowhere,
                    _ => plain_ty(r),
                };
                let many = matches!(ty, Ty::Fk(_)) && chance(r, 0.3);
                fields.push(Fld { name: if f == 0 { "r#where".into() } else { format!("f{f}") }, opt: !many && chance(r, 0.4), many, unique: !many && chance(r, 0.2), ty });
            }
            let at = below(r, fields.len());
            fields.swap(0, at);
            models.push(Mdl { name: names[i].clone(), table: None, fields });
        }
        // table names of their own, also those other models would have had
        for i in 0..nm {
            if chance(r, 0.3) {
                models[i].table = Some(format!("tbl_{i}"));
            }
        }
        if chance(r, 0.25) {
            let free: Vec<String> = models.iter().filter(|m| m.table.is_some()).map(|m| bare(&m.name)).collect();
            for n in free {
                let i = below(r, nm);
                if models[i].name != n {
                    models[i].table = Some(n);
                }
            }
        }
        let mut seen = BTreeSet::new();
        for m in &mut models {
            if !seen.insert(m.table()) {
                m.table = Some(format!("own_{}", m.name));
                seen.insert(m.table());
            }
        }
        Decls { types, models }
    }
    fn base(&self, t: &Ty, depth: usize) -> Option<SqlType> {
        if depth > 30 {
            return None;
        }
        match t {
            Ty::Plain(_, t) => Some(t.clone()),
            Ty::Auto => Some(SqlType::BigInt),
            Ty::Type(i) => self.base(&self.types[*i].1, depth + 1),
            Ty::Fk(m) => self.base(&self.models[*m].pk().ty, depth + 1),
            Ty::Nowhere => None,
        }
    }
    fn spell(&self, f: &Fld) -> String {
        let t = self.spell_ty(&f.ty);
        if f.many {
            t.replacen("ForeignKey", "Many", 1)
        } else if f.opt {
            format!("Option<{t}>")
        } else {
            t
        }
    }
    fn spell_ty(&self, t: &Ty) -> String {
        match t {
            Ty::Plain(n, _) => n.to_string(),
            Ty::Auto => "AutoPk<i64>".into(),
            Ty::Type(i) => self.types[*i].0.clone(),
            Ty::Fk(m) => format!("ForeignKey<{}>", self.models[*m].name),
            Ty::Nowhere => "ForeignKey<Missing>".into(),
        }
    }
    /// Item texts: types first, then models.
    fn items(&self) -> Vec<String> {
        let mut v: Vec<String> = self.types.iter().map(|(n, t)| format!("pub type {} = {};", n.replace("mid::", "mid_"), self.spell_ty(t).replace("mid::", "mid_"))).collect();
        for m in &self.models {
            let mut s = String::new();
            if let Some(t) = &m.table {
                s += &format!("#[table = {t:?}] ");
            }
            s += &format!("pub struct {} {{ ", m.name);
            for f in &m.fields {
                if f.name == "key" {
                    s += "#[pk] ";
                }
                if f.unique {
                    s += "#[unique] ";
                }
                s += &format!("pub {}: {}, ", f.name, self.spell(f).replace("mid::", "mid_"));
            }
            v.push(s + "}");
        }
        v
    }
    /// What the schema must be; None when something cannot be resolved.
    fn expected(&self) -> Option<BTreeMap<String, Cols>> {
        let mut out = BTreeMap::new();
        let ty = |t: &Ty| self.base(t, 0).map(|t| format!("{:?}", TypeIdentifier::Ty(t)));
        for m in &self.models {
            let mut cols = Cols::new();
            for f in &m.fields {
                let name = bare(&f.name);
                let t = ty(&f.ty)?;
                let target = match &f.ty {
                    Ty::Fk(o) => Some(&self.models[*o]),
                    _ => None,
                };
                let rf = target.map(|o| format!("{}.{}", o.table(), bare(&o.pk().name)));
                if f.many {
                    let owner = format!("{} null=false pk=false auto=false unique=false default=None {}.{}", ty(&m.pk().ty)?, m.table(), bare(&m.pk().name));
                    let has = format!("{t} null=false pk=false auto=false unique=false default=None {}", rf.unwrap());
                    out.insert(format!("{}_{name}_Many", m.table()), [("owner".to_string(), owner), ("has".to_string(), has)].into());
                } else {
                    let pk = std::ptr::eq(f, m.pk());
                    cols.insert(name, format!("{t} null={} pk={pk} auto={} unique={} default=None {}", f.opt, f.ty == Ty::Auto, f.unique, rf.unwrap_or("-".into())));
                }
            }
            out.insert(m.table(), cols);
        }
        Some(out)
    }
}
fn bare(n: &str) -> String {
    n.strip_prefix("r#").unwrap_or(n).to_string()
}
impl Mdl {
    fn table(&self) -> String {
        self.table.clone().unwrap_or(bare(&self.name))
    }
    fn pk(&self) -> &Fld {
        self.fields.iter().find(|f| f.name == "id" || f.name == "key").unwrap()
    }
}
fn declare<M: MigrationMut>(items: &[String], ms: &mut impl MigrationsMut<M = M>) -> Result<(), String> {
    for i in items {
        let ts: proc_macro2::TokenStream = i.parse().map_err(|e| format!("{i}: {e}"))?;
        let out = if i.starts_with("pub type") {
            butane_core::codegen::butane_type_with_migrations(Default::default(), ts, ms)
        } else {
            butane_core::codegen::model_with_migrations(ts, ms)
        }
        .to_string();
        if out.contains("compile_error") {
            return Err(format!("{i}: {out}"));
        }
    }
    Ok(())
}
fn orders(ctx: &Ctx, r: &mut Rng, case: &str) {
    let d = Decls::gen(r);
    let want = d.expected();
    let mut items = d.items();
    let text = items.join("\n  ");
    let fail = |sig: &str, msg: String| ctx.violation(sig, case, format!("{msg}\n  {text}"));
    let mut first: Option<(ADB, Vec<String>)> = None;
    for round in 0..6 {
        items.shuffle(r);
        if round == 4 {
            // built twice
            let again = items.clone();
            items.extend(again);
        }
        ctx.eval(1);
        let got = catch(|| -> Result<butane::Result<ADB>, String> {
            if round == 3 {
                let dir = tempfile::tempdir_in(&ctx.scratch).unwrap();
                let mut ms = FsMigrations::new(dir.path().to_path_buf());
                declare(&items, &mut ms)?;
                Ok(ms.current().db())
            } else {
                let mut ms = MemMigrations::new();
                declare(&items, &mut ms)?;
                if round == 5 {
                    let text = serde_json::to_string(&ms).map_err(|e| e.to_string())?;
                    ms = MemMigrations::from_json(&text).map_err(|e| e.to_string())?;
                }
                Ok(ms.current().db())
            }
        });
        let got = match got {
            Ok(Ok(g)) => g,
            Ok(Err(e)) => return ctx.inconclusive(format!("{case}: {e}")),
            Err(p) => return fail("panic", format!("{p}; order {items:?}")),
        };
        match (&got, &want) {
            (Err(_), None) => ctx.count("unresolvable declarations refused", 1),
            (Ok(db), Some(w)) => {
                let c = content(db);
                if c != *w {
                    return fail("resolved", format!("{}\n order {items:?}", first_diff(&c, w)));
                }
                // types and the difference between orders
                match &first {
                    None => first = Some((db.clone(), types_text(db))),
                    Some((f, t)) => {
                        let ops = diff(f, db);
                        if !ops.is_empty() {
                            return fail("orders-differ", format!("{ops:?}"));
                        }
                        let now = types_text(db);
                        if round != 3 && *t != now {
                            return fail("types-differ", format!("{t:?}\n {now:?}"));
                        }
                    }
                }
                let mut again = db.clone();
                match catch(|| again.resolve_types()) {
                    Ok(Ok(())) if content(&again) == c => {}
                    e => return fail("resolve-again", format!("{e:?}")),
                }
            }
            (g, w) => return fail(if w.is_none() { "accepted" } else { "refused" }, format!("{:?}; should be {w:?}\n order {items:?}", g.as_ref().map(content))),
        }
    }
    if want.is_some() {
        ctx.nontrivial(&text);
        ctx.count("declarations compared across orders", 1);
        ctx.max("longest chain of types", d.types.len() as u64);
    }
    if ctx.evals() < 2000 && chance(r, 0.02) {
        ctx.sample(text);
    }
}

fn main() {
    let ctx = Arc::new(Ctx::new("C14", 25, 600));
    ctx.rule("the difference of two schemas applied to the first gives the second and is empty between equals; declarations resolve to the schema derived independently, in every order and store; written schemas read back equal");
    ctx.watchdog(if ctx.thorough { 2000 } else { 300 }, None);
    float_default(&ctx);
    let k: Vec<usize> = (0..4).collect();
    ctx.parallel(&k, |i| {
        if i % 2 == 0 {
            ctx.cases(&format!("pairs/{i}"), 1.0, 10, usize::MAX, |case, r| pairs(&ctx, r, case));
        } else {
            ctx.cases(&format!("orders/{i}"), 1.0, 10, usize::MAX, |case, r| orders(&ctx, r, case));
        }
    });
    ctx.finish();
}
