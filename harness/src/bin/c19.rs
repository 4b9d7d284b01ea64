//! C19: data is never taken for SQL and any legal name works.
use butane::db::Column;
use butane::migrations::adb::{self, create_many_table, ARef, ARefLiteral, AColumn, ATable, DeferredSqlType, Operation, TypeIdentifier, ADB};
use butane::query::{BoolExpr, Expr, FieldExpr, Join, Order as Sort, OrderDirection};
use butane::{filter, find, query, AutoPk, DataResult, ForeignKey, FromSql, Many, ManyOpsSync, SqlType, SqlVal, SqlValRef, ToSql};
use rtm::models::*;
use rtm::ops::*;
use rtm::prelude::*;

fn leak(s: String) -> &'static str {
    use std::sync::{LazyLock, Mutex};
    static SEEN: LazyLock<Mutex<HashMap<String, &'static str>>> = LazyLock::new(Default::default);
    let mut seen = SEEN.lock().unwrap();
    if let Some(s) = seen.get(&s) {
        return s;
    }
    let l: &'static str = Box::leak(s.clone().into_boxed_str());
    seen.insert(s, l);
    l
}

// --- names given to the library at run time -------------------------------------
/// The words the engines themselves call keywords, and others with a meaning.
fn words(ctx: &Ctx) -> Vec<String> {
    let mut w: BTreeSet<String> = BTreeSet::new();
    let db = Db::empty(ctx, Lane::Pg);
    for r in db.raw_rows("SELECT word FROM pg_get_keywords()").expect("keywords") {
        if let Raw::Text(t) = &r[0] {
            w.insert(t.clone());
        }
    }
    ctx.count("PostgreSQL keywords", w.len() as u64);
    // https://sqlite.org/lang_keywords.html
    let lite = "abort action add after all alter always analyze and as asc attach autoincrement before begin between by cascade case cast check collate column commit conflict constraint create cross current current_date current_time current_timestamp database default deferrable deferred delete desc detach distinct do drop each else end escape except exclude exclusive exists explain fail filter first following for foreign from full generated glob group groups having if ignore immediate in index indexed initially inner insert instead intersect into is isnull join key last left like limit match materialized natural no not nothing notnull null nulls of offset on or order others outer over partition plan pragma preceding primary query raise range recursive references regexp reindex release rename replace restrict returning right rollback row rows savepoint select set table temp temporary then ties to transaction trigger unbounded union unique update using vacuum values view virtual when where window with without";
    w.extend(lite.split(' ').map(String::from));
    let more = "owner has id rowid oid _rowid_ excluded new old public main sqlite_x true false user session_user date time timestamp text blob json int4 varchar uuid count sum max value name type self_ crate_ fields query pk result item e r w conn butane_x state version";
    w.extend(more.split(' ').map(String::from));
    w.into_iter().collect()
}
fn rust_name(r: &mut Rng) -> String {
    let first = ["a", "Z", "_", "ä", "Ñ", "б", "λ", "日", "x", "q"];
    let rest = ["a", "b", "Z", "_", "0", "9", "é", "ß", "本", "Ж", "n", "t"];
    let mut s = pick(r, &first).to_string();
    let most = if chance(r, 0.1) { 20 } else { 7 };
    for _ in 0..1 + below(r, most) {
        s += pick(r, &rest);
    }
    s
}
fn name(r: &mut Rng, words: &[String], turso: bool, used: &mut BTreeSet<String>) -> &'static str {
    loop {
        let mut n = if chance(r, 0.8) { pick(r, words).clone() } else { rust_name(r) };
        if turso {
            // it folds the case of names in two ways
            n = n.chars().filter(|c| c.is_ascii() || c.is_lowercase() || !c.is_alphabetic()).collect::<String>().trim_start_matches(|c: char| c.is_ascii_digit()).to_string();
        }
        match below(r, 4) {
            0 => n = n.to_ascii_uppercase(),
            1 => {
                n = n.char_indices().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
            }
            _ => {}
        }
        // the engines do not tell names by case; no Rust name can be of these
        if turso && ["rowid", "oid", "_rowid_"].contains(&n.to_lowercase().as_str()) || n.is_empty() || n == "_" || n == "self" || n == "Self" || n == "super" || n == "crate" {
            continue;
        }
        if used.insert(n.to_lowercase()) {
            return leak(n);
        }
    }
}
fn known(t: SqlType) -> DeferredSqlType {
    DeferredSqlType::KnownId(TypeIdentifier::Ty(t))
}
/// Names of two tables, of their columns, and of a relation.
#[derive(Clone, Debug)]
struct Names {
    t: &'static str,
    t_pk: &'static str,
    t_text: &'static str,
    t_num: &'static str,
    u: &'static str,
    u_pk: &'static str,
    u_ref: &'static str,
    u_text: &'static str,
    many: &'static str,
    extra: &'static str,
}
impl Names {
    fn gen(r: &mut Rng, words: &[String], turso: bool) -> Names {
        let mut tables = BTreeSet::new();
        // of the engines' own tables and types
        for t in ["sqlite_x", "butane_x", "main", "public"] {
            tables.insert(t.to_string());
        }
        let (mut a, mut b) = (BTreeSet::new(), BTreeSet::new());
        Names {
            t: name(r, words, turso, &mut tables),
            u: name(r, words, turso, &mut tables),
            t_pk: name(r, words, turso, &mut a),
            t_text: name(r, words, turso, &mut a),
            t_num: name(r, words, turso, &mut a),
            extra: name(r, words, turso, &mut a),
            u_pk: name(r, words, turso, &mut b),
            u_ref: name(r, words, turso, &mut b),
            u_text: name(r, words, turso, &mut b),
            many: name(r, words, turso, &mut BTreeSet::new()),
        }
    }
    fn many_table(&self) -> &'static str {
        leak(format!("{}_{}_Many", self.t, self.many))
    }
    fn schema(&self) -> ADB {
        let mut db = ADB::new();
        let mut t = ATable::new(self.t.to_string());
        t.add_column(AColumn::new(self.t_text, known(SqlType::Text), false, false, false, false, None, None));
        t.add_column(AColumn::new(self.t_pk, known(SqlType::BigInt), false, true, false, false, None, None));
        t.add_column(AColumn::new(self.t_num, known(SqlType::BigInt), true, false, false, false, None, None));
        let mut u = ATable::new(self.u.to_string());
        u.add_column(AColumn::new(self.u_pk, known(SqlType::Text), false, true, false, false, None, None));
        u.add_column(AColumn::new(self.u_ref, known(SqlType::BigInt), true, false, false, false, None, Some(ARef::Literal(ARefLiteral::new(self.t.to_string(), self.t_pk.to_string())))));
        u.add_column(AColumn::new(self.u_text, known(SqlType::Text), false, false, false, true, None, None));
        db.replace_table(t);
        db.replace_table(u);
        let mut m = create_many_table(self.t, self.many, known(SqlType::Text), self.t_pk, known(SqlType::BigInt));
        // the references, as they are once types are resolved
        let cols: Vec<AColumn> = m.columns.clone();
        m.columns.clear();
        for c in cols {
            let to = if c.name() == "owner" { (self.t, self.t_pk) } else { (self.u, self.u_pk) };
            m.add_column(AColumn::new(c.name(), if c.name() == "owner" { known(SqlType::BigInt) } else { known(SqlType::Text) }, false, false, false, false, None, Some(ARef::Literal(ARefLiteral::new(to.0.to_string(), to.1.to_string())))));
        }
        db.replace_table(m);
        db
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
struct Model {
    t: BTreeMap<i64, (String, Option<i64>)>,
    u: BTreeMap<String, (Option<i64>, String)>,
    m: BTreeSet<(i64, String)>,
}
fn quoted(s: &str) -> String {
    format!("\"{s}\"")
}
/// What the tables hold, read without the library.
fn raw_model(db: &Db, n: &Names) -> Result<Model, String> {
    let tables = db.tables();
    let find = |t: &str| tables.iter().find(|x| x.to_lowercase() == t.to_lowercase()).map(|t| quoted(t)).ok_or(format!("no table {t} in {tables:?}"));
    let int = |v: &Raw| match v {
        Raw::Int(i) => Some(*i),
        Raw::Text(t) => t.parse().ok(),
        _ => None,
    };
    let txt = |v: &Raw| match v {
        Raw::Text(t) => t.clone(),
        o => o.show(),
    };
    let mut m = Model::default();
    for r in db.raw_rows(&format!("SELECT * FROM {}", find(n.t)?))? {
        m.t.insert(int(&r[1]).ok_or("key")?, (txt(&r[0]), int(&r[2])));
    }
    for r in db.raw_rows(&format!("SELECT * FROM {}", find(n.u)?))? {
        m.u.insert(txt(&r[0]), (int(&r[1]), txt(&r[2])));
    }
    for r in db.raw_rows(&format!("SELECT * FROM {}", find(n.many_table())?))? {
        m.m.insert((int(&r[0]).ok_or("owner")?, txt(&r[1])));
    }
    Ok(m)
}
fn hostile(r: &mut Rng) -> String {
    if chance(r, 0.6) { pick(r, HOSTILE).to_string() } else { text(r).chars().take(300).collect() }
}
#[derive(Clone, Debug)]
enum Cond {
    T(usize, i64),
    TText(usize, String),
    InText(Vec<String>),
    InKey(Vec<i64>),
    NullNum(bool),
    Refers(Box<CondU>),
    Contains(Box<CondU>),
    Not(Box<Cond>),
    And(Box<Cond>, Box<Cond>),
    Or(Box<Cond>, Box<Cond>),
}
#[derive(Clone, Debug)]
enum CondU {
    Key(usize, String),
    Text(usize, String),
    Ref(i64),
    Owned(i64),
}
const CMP: usize = 6;
fn cmp<T: PartialOrd>(k: usize, a: &T, b: &T) -> bool {
    match k {
        0 => a == b,
        1 => a != b,
        2 => a < b,
        3 => a > b,
        4 => a <= b,
        _ => a >= b,
    }
}
fn cmp_expr(k: usize, col: &'static str, v: SqlVal) -> BoolExpr {
    let v = Expr::Val(v);
    match k {
        0 => BoolExpr::Eq(col, v),
        1 => BoolExpr::Ne(col, v),
        2 => BoolExpr::Lt(col, v),
        3 => BoolExpr::Gt(col, v),
        4 => BoolExpr::Le(col, v),
        _ => BoolExpr::Ge(col, v),
    }
}
fn gen_cond(r: &mut Rng, m: &Model, depth: usize) -> Cond {
    let s = |r: &mut Rng| if chance(r, 0.6) && !m.t.is_empty() { m.t.values().nth(below(r, m.t.len())).unwrap().0.clone() } else { hostile(r) };
    let key = |r: &mut Rng| below(r, 5) as i64;
    match below(r, if depth == 0 { 7 } else { 10 }) {
        0 => Cond::T(below(r, CMP), key(r)),
        1 | 2 => Cond::TText(below(r, 2), s(r)),
        3 => Cond::InText((0..below(r, 4)).map(|_| s(r)).collect()),
        4 => Cond::InKey((0..below(r, 4)).map(|_| key(r)).collect()),
        5 => Cond::NullNum(chance(r, 0.5)),
        6 => Cond::Refers(Box::new(gen_cond_u(r, m))),
        7 => Cond::Contains(Box::new(gen_cond_u(r, m))),
        8 => Cond::Not(Box::new(gen_cond(r, m, depth - 1))),
        _ => {
            let (a, b) = (Box::new(gen_cond(r, m, depth - 1)), Box::new(gen_cond(r, m, depth - 1)));
            if chance(r, 0.5) { Cond::And(a, b) } else { Cond::Or(a, b) }
        }
    }
}
fn gen_cond_u(r: &mut Rng, m: &Model) -> CondU {
    let s = |r: &mut Rng| if chance(r, 0.6) && !m.u.is_empty() { m.u.keys().nth(below(r, m.u.len())).unwrap().clone() } else { hostile(r) };
    let x = |r: &mut Rng| if chance(r, 0.6) && !m.u.is_empty() { m.u.values().nth(below(r, m.u.len())).unwrap().1.clone() } else { hostile(r) };
    match below(r, 4) {
        0 => CondU::Key(below(r, 2), s(r)),
        1 => CondU::Text(below(r, 2), x(r)),
        2 => CondU::Ref(below(r, 5) as i64),
        _ => CondU::Owned(below(r, 5) as i64),
    }
}
impl CondU {
    fn expr(&self, n: &Names) -> BoolExpr {
        match self {
            CondU::Key(k, v) => cmp_expr(*k, n.u_pk, v.to_sql()),
            CondU::Text(k, v) => cmp_expr(*k, n.u_text, v.to_sql()),
            CondU::Ref(v) => cmp_expr(0, n.u_ref, v.to_sql()),
            // those which refer to a row of T whose number is at least v
            CondU::Owned(v) => BoolExpr::Subquery { col: n.u_ref, tbl2: n.t.into(), tbl2_col: n.t_pk, expr: Box::new(cmp_expr(5, n.t_num, v.to_sql())) },
        }
    }
    fn eval(&self, k: &str, row: &(Option<i64>, String), m: &Model) -> bool {
        match self {
            CondU::Key(c, v) => cmp(*c, &k, &v.as_str()),
            CondU::Text(c, v) => cmp(*c, &row.1, v),
            CondU::Ref(v) => row.0 == Some(*v),
            CondU::Owned(v) => row.0.is_some_and(|t| m.t.get(&t).is_some_and(|t| t.1.is_some_and(|n| n >= *v))),
        }
    }
}
impl Cond {
    fn expr(&self, n: &Names) -> BoolExpr {
        match self {
            Cond::T(k, v) => cmp_expr(*k, n.t_pk, v.to_sql()),
            Cond::TText(k, v) => cmp_expr(*k, n.t_text, v.to_sql()),
            Cond::InText(v) => BoolExpr::In(n.t_text, v.iter().map(|v| v.to_sql()).collect()),
            Cond::InKey(v) => BoolExpr::In(n.t_pk, v.iter().map(|v| v.to_sql()).collect()),
            Cond::NullNum(y) => cmp_expr(!*y as usize, n.t_num, SqlVal::Null),
            Cond::Refers(c) => BoolExpr::Subquery { col: n.t_pk, tbl2: n.u.into(), tbl2_col: n.u_ref, expr: Box::new(BoolExpr::And(Box::new(c.expr(n)), Box::new(BoolExpr::Ne(n.u_ref, Expr::Val(SqlVal::Null))))) },
            // the columns of a join are not told apart
            Cond::Contains(c) if [n.u_pk, n.u_ref, n.u_text].iter().any(|x| ["owner", "has"].contains(&x.to_lowercase().as_str())) => BoolExpr::Subquery {
                col: n.t_pk,
                tbl2: n.many_table().into(),
                tbl2_col: "owner",
                expr: Box::new(BoolExpr::Subquery { col: "has", tbl2: n.u.into(), tbl2_col: n.u_pk, expr: Box::new(c.expr(n)) }),
            },
            Cond::Contains(c) => BoolExpr::SubqueryJoin {
                col: n.t_pk,
                tbl2: n.u.into(),
                col2: butane::query::Column::new(n.many_table(), "owner"),
                joins: vec![Join::Inner { join_table: n.many_table(), col1: butane::query::Column::new(n.many_table(), "has"), col2: butane::query::Column::new(n.u, n.u_pk) }],
                expr: Box::new(c.expr(n)),
            },
            Cond::Not(c) => BoolExpr::Not(Box::new(c.expr(n))),
            Cond::And(a, b) => BoolExpr::And(Box::new(a.expr(n)), Box::new(b.expr(n))),
            Cond::Or(a, b) => BoolExpr::Or(Box::new(a.expr(n)), Box::new(b.expr(n))),
        }
    }
    fn eval(&self, k: i64, row: &(String, Option<i64>), m: &Model) -> bool {
        match self {
            Cond::T(c, v) => cmp(*c, &k, v),
            Cond::TText(c, v) => cmp(*c, &row.0, v),
            Cond::InText(v) => v.contains(&row.0),
            Cond::InKey(v) => v.contains(&k),
            Cond::NullNum(y) => row.1.is_none() == *y,
            Cond::Refers(c) => m.u.iter().any(|(uk, u)| u.0 == Some(k) && c.eval(uk, u, m)),
            Cond::Contains(c) => m.m.iter().any(|(o, h)| *o == k && c.eval(h, &m.u[h], m)),
            Cond::Not(c) => !c.eval(k, row, m),
            Cond::And(a, b) => a.eval(k, row, m) && b.eval(k, row, m),
            Cond::Or(a, b) => a.eval(k, row, m) || b.eval(k, row, m),
        }
    }
}
/// As migrations do, in a transaction.
fn run_sql(db: &mut Db, sql: &str) -> butane::Result<()> {
    if db.lane == Lane::Turso {
        return db.c().execute(sql);
    }
    let tr = db.cm().transaction()?;
    tr.execute(sql)?;
    tr.commit()
}
fn drop_all(db: &Db) {
    for _ in 0..4 {
        for t in db.tables() {
            let _ = db.raw_exec(&format!("DROP TABLE \"{t}\"{}", if db.lane == Lane::Pg { " CASCADE" } else { "" }));
        }
    }
}
fn at_run_time(ctx: &Ctx, db: &mut Db, r: &mut Rng, case: &str, words: &[String]) {
    let lane = db.lane;
    drop_all(db);
    let n = Names::gen(r, words, lane == Lane::Turso);
    let bystander = "CREATE TABLE rtm_bystander (a TEXT); INSERT INTO rtm_bystander VALUES ('untouched')";
    let _ = db.raw_exec(&bystander.replace("; ", ";\n"));
    let adb0 = ADB::new();
    let adb1 = n.schema();
    let backend = lane.backend();
    let mut log = vec![format!("{n:?}")];
    macro_rules! fail {
        ($sig:expr, $($m:tt)*) => {{
            ctx.violation($sig, case, format!("{lane:?} {}\n  {}", format!($($m)*), log.join("\n  ")));
            return;
        }};
    }
    let sql = match catch(|| backend.create_migration_sql(&adb0, adb::diff(&adb0, &adb1))) {
        Ok(Ok(s)) => s,
        e => fail!("create", "{e:?}"),
    };
    match catch(|| run_sql(db, &sql)) {
        Ok(Ok(())) => {}
        e => fail!("create", "{e:?}\n  {sql}"),
    }
    for t in [n.t, n.u, n.many_table()] {
        match db.c().has_table(t) {
            Ok(true) => {}
            e => fail!("has-table", "{t}: {e:?}"),
        }
    }
    let mut m = Model::default();
    let tcols = [Column::new(n.t_pk, SqlType::BigInt), Column::new(n.t_text, SqlType::Text), Column::new(n.t_num, SqlType::BigInt)];
    let ucols = [Column::new(n.u_pk, SqlType::Text), Column::new(n.u_ref, SqlType::BigInt), Column::new(n.u_text, SqlType::Text)];
    let mcols = [Column::new("owner", SqlType::BigInt), Column::new("has", SqlType::Text)];
    let num = |v: &Option<i64>| v.map_or(SqlValRef::Null, SqlValRef::BigInt);
    for step in 0..14 {
        let before = m.clone();
        let c = db.c();
        let done: Result<butane::Result<()>, String> = match below(r, 12) {
            0 | 1 => {
                let (k, t, v) = (below(r, 5) as i64, hostile(r), opt(r, 0.3, |r| below(r, 4) as i64));
                log.push(format!("put T {k} {t:?} {v:?}"));
                let res = catch(|| c.insert_or_replace(n.t, &tcols, &tcols[0], &[SqlValRef::BigInt(k), SqlValRef::Text(&t), num(&v)]));
                m.t.insert(k, (t, v));
                res
            }
            2 => {
                let k = 100 + step;
                let t = hostile(r);
                log.push(format!("insert T {k} {t:?}"));
                let res = catch(|| match c.insert_returning_pk(n.t, &tcols, &tcols[0], &[SqlValRef::BigInt(k), SqlValRef::Text(&t), SqlValRef::Null])? {
                    SqlVal::BigInt(x) if x == k => Ok(()),
                    o => Err(butane::Error::Internal(format!("returned {o:?}"))),
                });
                m.t.insert(k, (t, None));
                res
            }
            3 | 4 => {
                let (k, f, t) = (hostile(r), opt(r, 0.3, |r| below(r, 5) as i64).filter(|f| m.t.contains_key(f)), format!("{}{step}", hostile(r)));
                if m.u.contains_key(&k) {
                    continue;
                }
                log.push(format!("insert U {k:?} {f:?} {t:?}"));
                let res = catch(|| c.insert_only(n.u, &ucols, &[SqlValRef::Text(&k), num(&f), SqlValRef::Text(&t)]));
                m.u.insert(k, (f, t));
                res
            }
            5 if !m.u.is_empty() => {
                let k = m.u.keys().nth(below(r, m.u.len())).unwrap().clone();
                let t = format!("{}'{step}", hostile(r));
                let f = m.t.keys().next().copied();
                log.push(format!("update U {k:?} {f:?} {t:?}"));
                let res = catch(|| c.update(n.u, ucols[0].clone(), SqlValRef::Text(&k), &ucols[1..], &[num(&f), SqlValRef::Text(&t)]));
                m.u.insert(k, (f, t));
                res
            }
            6 | 7 if !m.u.is_empty() && !m.t.is_empty() => {
                let k = m.u.keys().nth(below(r, m.u.len())).unwrap().clone();
                let o = *m.t.keys().nth(below(r, m.t.len())).unwrap();
                if m.m.contains(&(o, k.clone())) {
                    continue;
                }
                log.push(format!("join {o} {k:?}"));
                let res = catch(|| c.insert_only(n.many_table(), &mcols, &[SqlValRef::BigInt(o), SqlValRef::Text(&k)]));
                m.m.insert((o, k));
                res
            }
            8 if !m.u.is_empty() => {
                let k = if chance(r, 0.5) { m.u.keys().nth(below(r, m.u.len())).unwrap().clone() } else { hostile(r) };
                if m.m.iter().any(|x| x.1 == k) {
                    continue;
                }
                log.push(format!("delete U {k:?}"));
                let res = catch(|| c.delete(n.u, n.u_pk, k.to_sql()));
                m.u.remove(&k);
                res
            }
            9 => {
                let t = if chance(r, 0.5) && !m.u.is_empty() { m.u.values().nth(below(r, m.u.len())).unwrap().1.clone() } else { hostile(r) };
                let gone: Vec<String> = m.u.iter().filter(|(_, v)| v.1 == t).map(|(k, _)| k.clone()).collect();
                if gone.iter().any(|k| m.m.iter().any(|x| x.1 == *k)) {
                    continue;
                }
                log.push(format!("delete U where text {t:?}"));
                let res = catch(|| match c.delete_where(n.u, BoolExpr::Eq(n.u_text, Expr::Val(t.to_sql())))? {
                    // Turso counts twice (a known finding of C24)
                    x if x == gone.len() || lane == Lane::Turso && x == 2 * gone.len() => Ok(()),
                    x => Err(butane::Error::Internal(format!("deleted {x}, {} match", gone.len()))),
                });
                for k in gone {
                    m.u.remove(&k);
                }
                res
            }
            10 if !m.m.is_empty() => {
                let (o, k) = m.m.iter().nth(below(r, m.m.len())).unwrap().clone();
                log.push(format!("unjoin {o} {k:?}"));
                let res = catch(|| c.delete_where(n.many_table(), BoolExpr::And(Box::new(BoolExpr::Eq("owner", Expr::Val(o.to_sql()))), Box::new(BoolExpr::In("has", vec![k.to_sql()])))).map(|_| ()));
                m.m.remove(&(o, k));
                res
            }
            _ => {
                let cond = gen_cond(r, &m, 2);
                let desc = chance(r, 0.5);
                log.push(format!("query {cond:?} {desc}"));
                let mut want: Vec<(i64, String, Option<i64>)> = m.t.iter().filter(|(k, v)| cond.eval(**k, v, &m)).map(|(k, v)| (*k, v.0.clone(), v.1)).collect();
                if desc {
                    want.reverse();
                }
                let direction = if desc { OrderDirection::Descending } else { OrderDirection::Ascending };
                let got = catch(|| {
                    let mut rows = c.query(n.t, &tcols, Some(cond.expr(&n)), None, None, Some(&[Sort { direction, column: n.t_pk }]))?;
                    let mut out = vec![];
                    while let Some(x) = rows.next()? {
                        out.push((i64::from_sql(x.get(0, SqlType::BigInt)?.into())?, String::from_sql(x.get(1, SqlType::Text)?.into())?, Option::<i64>::from_sql(x.get(2, SqlType::BigInt)?.into())?));
                    }
                    Ok::<_, butane::Error>(out)
                });
                ctx.count("queries", 1);
                match got {
                    Ok(Ok(got)) if got == want => {
                        ctx.eval(1);
                        continue;
                    }
                    // Turso's engine does not know a column of an enclosing query
                    e => fail!("query", "gives {e:?}\n  want {want:?}\n  model {m:?}"),
                }
            }
        };
        ctx.eval(1);
        match done {
            Ok(Ok(())) => {}
            e => fail!("refused", "{e:?}"),
        }
        match raw_model(db, &n) {
            Ok(got) if got == m => {}
            e => fail!("contents", "tables hold {e:?}\n  want {m:?}\n  before {before:?}"),
        }
        ctx.count("writes compared", 1);
    }
    // and a schema change with a hostile default, under a hostile name
    if lane != Lane::Turso {
        let mut adb2 = n.schema();
        let d = hostile(r);
        let ty = *pick(r, &[0usize, 1]);
        let mut t = adb2.get_table(n.t).unwrap().clone();
        let (sqlty, dv) = if ty == 0 { (SqlType::Text, SqlVal::Text(d.clone())) } else { (SqlType::Blob, SqlVal::Blob(d.clone().into_bytes())) };
        t.add_column(AColumn::new(n.extra, known(sqlty), false, false, false, false, Some(dv), None));
        adb2.replace_table(t);
        log.push(format!("add column with default {d:?}"));
        let res = catch(|| {
            let sql = backend.create_migration_sql(&adb1, adb::diff(&adb1, &adb2))?;
            run_sql(db, &sql)
        });
        if !matches!(res, Ok(Ok(()))) {
            fail!("add-column", "{res:?}");
        }
        let t = db.tables().into_iter().find(|x| x.to_lowercase() == n.t.to_lowercase()).unwrap();
        let cols = rtm::schema::column_order(db, &t).expect("columns");
        let i = cols.iter().position(|c| c.to_lowercase() == n.extra.to_lowercase());
        let Some(i) = i else { fail!("add-column", "columns {cols:?}") };
        let rows = db.raw_rows(&format!("SELECT * FROM \"{t}\"")).expect("rows");
        let want = match (ty, lane) {
            (0, _) => Raw::Text(d.clone()),
            (_, Lane::Pg) => Raw::Text(format!("\\x{}", d.bytes().map(|b| format!("{b:02x}")).collect::<String>())),
            _ => Raw::Blob(d.clone().into_bytes()),
        };
        if rows.len() != m.t.len() || rows.iter().any(|r| r[i] != want) {
            fail!("default", "rows {rows:?}, default {want:?}");
        }
        ctx.count("defaults compared", rows.len() as u64);
        // and away again
        let res = catch(|| {
            let sql = backend.create_migration_sql(&adb2, vec![Operation::RemoveColumn(n.t.to_string(), n.extra.to_string())])?;
            run_sql(db, &sql)
        });
        if !matches!(res, Ok(Ok(()))) {
            fail!("remove-column", "{res:?}");
        }
        let m2 = raw_model(db, &n).map(|mut g| {
            // removing a column may reorder the others
            g.t = m.t.clone();
            g
        });
        if m2.as_ref() != Ok(&m) {
            fail!("remove-column", "tables hold {m2:?}\n  want {m:?}");
        }
    }
    if db.raw_rows("SELECT a FROM rtm_bystander").ok() != Some(vec![vec![Raw::Text("untouched".into())]]) {
        fail!("bystander", "changed");
    }
    let res = catch(|| {
        let sql = backend.create_migration_sql(&adb1, adb::diff(&adb1, &adb0))?;
        run_sql(db, &sql)
    });
    let left: Vec<String> = db.tables().into_iter().filter(|t| t != "rtm_bystander").collect();
    if !matches!(res, Ok(Ok(()))) || !left.is_empty() {
        fail!("drop", "{res:?}, left {left:?}");
    }
    for w in [n.t, n.t_pk, n.t_text, n.t_num, n.u, n.u_pk, n.u_ref, n.u_text, n.many, n.extra] {
        ctx.nontrivial(&(lane.name(), w));
    }
    ctx.sample(log.join(" ; ").chars().take(400).collect::<String>());
}

// --- models with odd names and hostile values -------------------------------------
#[derive(Clone, Debug, Default, PartialEq)]
struct World {
    users: BTreeMap<String, (i32, Option<i64>, String)>,
    orders: BTreeMap<i64, OrderRow>,
    refs: BTreeSet<(i64, String)>,
    camels: BTreeMap<String, (i32, Option<String>, Option<i64>)>,
    autos: BTreeMap<i64, (String, i32)>,
    camel_autos: BTreeSet<(String, i64)>,
    words: BTreeMap<String, i32>,
    word_labels: BTreeSet<(String, i32)>,
    clashes: BTreeMap<i64, (i32, String)>,
    items: BTreeMap<i64, (i32, String)>,
    clash_items: BTreeSet<(i64, i64)>,
    unis: BTreeMap<i64, (i32, Option<String>)>,
}
type OrderRow = (String, Option<String>, i32, String, i64, bool, String, Option<i64>, (String, i32, Option<i32>, Option<String>, i32, i32));
fn order_row(o: &Order) -> OrderRow {
    (o.group.clone(), o.user.clone(), o.select, o.desc.clone(), o.values, o.index, o.key.clone(), o.end.map(|e| e as i64), (o.r#where.clone(), o.r#type, o.from, o.table.as_ref().map(|t| t.pk()), o.has, o.owner))
}
fn observe(c: &impl butane::db::ConnectionMethods) -> butane::Result<World> {
    let mut w = World::default();
    for u in sload(User::query(), c)? {
        w.users.insert(u.user, (u.order, u.limit, u.default));
    }
    for o in sload(Order::query(), c)? {
        w.orders.insert(o.id, order_row(&o));
        for u in ManyOpsSync::load(&o.references, c)? {
            w.refs.insert((o.id, u.user.clone()));
        }
    }
    for m in sload(MixedAuto::query(), c)? {
        w.autos.insert(m.autoId.unwrap(), (m.Text, m.Num));
    }
    for x in sload(camelCase::query(), c)? {
        for a in ManyOpsSync::load(&x.manyOf, c)? {
            w.camel_autos.insert((x.theKey.clone(), a.autoId.unwrap()));
        }
        w.camels.insert(x.theKey.clone(), (x.someValue, x.Upper.clone(), x.relTo.as_ref().map(|a| a.pk().unwrap())));
    }
    for d in sload(Derived::query(), c)? {
        for l in ManyOpsSync::load(&d.labels, c)? {
            w.word_labels.insert((d.word.clone(), l.code));
        }
        w.words.insert(d.word.clone(), d.n);
    }
    for x in sload(Clash::query(), c)? {
        for i in ManyOpsSync::load(&x.many, c)? {
            w.clash_items.insert((x.id.unwrap(), i.id));
        }
        w.clashes.insert(x.id.unwrap(), (x.owner, x.has.clone()));
    }
    for x in sload(ClashItem::query(), c)? {
        w.items.insert(x.id, (x.owner, x.has));
    }
    for x in sload(Ünïcode::query(), c)? {
        w.unis.insert(x.id.unwrap(), (x.größe, x.naïve));
    }
    Ok(w)
}
/// Independent of the library's reading: all rows of all other tables.
fn bystanders(db: &Db) -> BTreeMap<String, Vec<String>> {
    let mine = ["user", "order", "order_references_many", "camelcase", "mixedauto", "camelcase_manyof_many", "select", "select_labels_many", "clash", "clashitem", "clash_many_many", "ünïcode"];
    db.dump().into_iter().filter(|(t, _)| !mine.contains(&t.to_lowercase().as_str())).collect()
}
fn compiled(ctx: &Ctx, db: &mut Db, r: &mut Rng, case: &str) {
    let lane = db.lane;
    db.wipe();
    let mut labels = vec![];
    for i in 0..3 {
        let mut l = Label { code: i, text: String::new(), prio: None };
        ssave(&mut l, db.c()).expect("label");
        labels.push(l);
    }
    ssave(&mut KText { key: "bystander".into(), v: "'".into(), n: None }, db.c()).expect("bystander");
    let others = bystanders(db);
    let mut w = World::default();
    let mut log: Vec<String> = vec![];
    for step in 0..16 {
        let c = db.c();
        let before = w.clone();
        let what = below(r, 13);
        let (s, s2, k) = (hostile(r), hostile(r), below(r, 4) as i64);
        log.push(format!("{what} {s:?} {s2:?} {k}"));
        let n = below(r, 5) as i32;
        let user = if w.users.is_empty() || chance(r, 0.3) { None } else { Some(w.users.keys().nth(below(r, w.users.len())).unwrap().clone()) };
        let res: Result<butane::Result<()>, String> = match what {
            0 | 1 => {
                let mut u = User { user: s.clone(), order: n, limit: Some(k), default: s2.clone() };
                w.users.insert(s, (n, Some(k), s2));
                catch(|| ssave(&mut u, c))
            }
            2 | 3 => {
                let mut o = Order {
                    id: k,
                    group: s.clone(),
                    user: Some(s2.clone()),
                    select: n,
                    desc: s2.clone(),
                    values: k,
                    index: n == 1,
                    key: s.clone(),
                    end: Some(k as f64),
                    r#where: s.clone(),
                    r#type: n,
                    from: Some(n),
                    table: user.clone().map(ForeignKey::from_pk),
                    has: n,
                    owner: n + 1,
                    references: Many::new(),
                };
                if w.orders.contains_key(&k) {
                    // keep the relation of the stored one
                    match sget::<Order>(c, k) {
                        Ok(old) => o.references = old.references,
                        Err(e) => return ctx.violation("get", case, format!("{lane:?} order {k}: {e:?}\n  {log:?}")),
                    }
                }
                w.orders.insert(k, order_row(&o));
                catch(|| ssave(&mut o, c))
            }
            4 if w.orders.contains_key(&k) && user.is_some() => {
                let u = user.unwrap();
                w.refs.insert((k, u.clone()));
                catch(|| {
                    let mut o = sget::<Order>(c, k)?;
                    o.references.add(&sget::<User>(c, u)?)?;
                    ssave(&mut o, c)
                })
            }
            5 if w.orders.contains_key(&k) && user.is_some() => {
                let u = user.unwrap();
                w.refs.remove(&(k, u.clone()));
                catch(|| {
                    let mut o = sget::<Order>(c, k)?;
                    o.references.remove(&sget::<User>(c, u)?);
                    ssave(&mut o, c)
                })
            }
            6 => {
                let mut a = MixedAuto { autoId: AutoPk::uninitialized(), Text: s.clone(), Num: n };
                let res = catch(|| ssave(&mut a, c));
                if a.autoId.is_some() {
                    w.autos.insert(a.autoId.unwrap(), (s, n));
                }
                res
            }
            7 => {
                let rel = w.autos.keys().next().copied();
                if w.camels.contains_key(&s) {
                    continue;
                }
                let mut x = camelCase { theKey: s.clone(), someValue: n, Upper: Some(s2.clone()), relTo: None, manyOf: Many::new() };
                w.camels.insert(s.clone(), (n, Some(s2), rel));
                for a in w.autos.keys() {
                    w.camel_autos.insert((s.clone(), *a));
                }
                catch(|| {
                    for a in sload(MixedAuto::query(), c)? {
                        x.manyOf.add(&a)?;
                        if Some(a.autoId.unwrap()) == rel {
                            x.relTo = Some(ForeignKey::from(a));
                        }
                    }
                    ssave(&mut x, c)
                })
            }
            8 => {
                if w.words.contains_key(&s) {
                    continue;
                }
                let mut d = Derived { word: s.clone(), n, labels: Many::new() };
                w.words.insert(s.clone(), n);
                w.word_labels.insert((s, (k % 3) as i32));
                catch(|| {
                    d.labels.add(&labels[k as usize % 3])?;
                    ssave(&mut d, c)
                })
            }
            9 => {
                let mut i = ClashItem { id: k, owner: n, has: s.clone() };
                let mut x = Clash { id: AutoPk::uninitialized(), owner: n + 1, has: s2.clone(), many: Many::new() };
                w.items.insert(k, (n, s));
                let res = catch(|| {
                    ssave(&mut i, c)?;
                    x.many.add(&i)?;
                    ssave(&mut x, c)
                });
                if x.id.is_some() {
                    w.clashes.insert(x.id.unwrap(), (n + 1, s2));
                    w.clash_items.insert((x.id.unwrap(), k));
                }
                res
            }
            10 => {
                let mut x = Ünïcode { id: AutoPk::uninitialized(), größe: n, naïve: Some(s.clone()) };
                let res = catch(|| ssave(&mut x, c));
                if x.id.is_some() {
                    w.unis.insert(x.id.unwrap(), (n, Some(s)));
                }
                res
            }
            11 => {
                // delete by filters
                let free = |u: &String| !w.refs.iter().any(|r| r.1 == *u) && !w.orders.values().any(|o| o.8 .3.as_ref() == Some(u));
                match user {
                    Some(u) if free(&u) => {
                        w.users.remove(&u);
                        catch(|| sqdel(query!(User, user == { u.as_str() }), c).map(|_| ()))
                    }
                    _ => {
                        let gone: Vec<i64> = w.unis.iter().filter(|x| x.1 .1.as_deref() == Some(&s)).map(|x| *x.0).collect();
                        w.unis.retain(|k, _| !gone.contains(k));
                        let s = Some(s);
                        catch(|| sqdel(query!(Ünïcode, naïve == { s }), c).map(|_| ()))
                    }
                }
            }
            _ => {
                let wrong = catch(|| queries(&w, c, &s, &s2, n, k));
                ctx.eval(1);
                ctx.count("rounds of queries", 1);
                match wrong {
                    Ok(Ok(v)) => {
                        for (what, m) in v {
                            ctx.violation(&format!("filter-{what}"), case, format!("{lane:?} {m}\n  {w:?}"));
                        }
                    }
                    e => ctx.violation("filter", case, format!("{lane:?} {e:?}\n  {w:?}")),
                }
                continue;
            }
        };
        ctx.eval(1);
        match res {
            Ok(Ok(())) => {}
            e => return ctx.violation("model-refused", case, format!("{lane:?} step {step} {e:?}\n  before {before:?}\n  {}", log.join("\n  "))),
        }
        match catch(|| observe(db.c())) {
            Ok(Ok(got)) if got == w => {}
            e => return ctx.violation("model-contents", case, format!("{lane:?} holds {e:?}\n  want {w:?}\n  {}", log.join("\n  "))),
        }
        let now = bystanders(db);
        if now != others {
            return ctx.violation("bystander", case, format!("{lane:?} other tables changed: {:?}\n  {}", now.iter().filter(|(k, v)| others.get(*k) != Some(v)).collect::<Vec<_>>(), log.join("\n  ")));
        }
        ctx.nontrivial(&(lane.name(), what, format!("{w:?}")));
    }
    ctx.count("model histories", 1);
}
/// Everything the filter macros can say about fields with such names.
fn queries(w: &World, c: &impl butane::db::ConnectionMethods, s: &str, s2: &str, n: i32, k: i64) -> butane::Result<Vec<(&'static str, String)>> {
    let mut bad = vec![];
    macro_rules! orders {
        ($what:literal, $e:expr, $f:expr) => {{
            let got: Result<BTreeSet<i64>, String> = sload(Order::query().filter($e), c).map(|v| v.iter().map(|o| o.id).collect()).map_err(|e| format!("{e:?}"));
            let f: &dyn Fn(&i64, &OrderRow) -> bool = &$f;
            let want: BTreeSet<i64> = w.orders.iter().filter(|(k, o)| f(k, o)).map(|(k, _)| *k).collect();
            if got.as_ref() != Ok(&want) {
                bad.push(($what, format!("{got:?}, want {want:?} (operands {s:?} {n} {k})")));
            }
        }};
    }
    orders!("group", filter!(Order, group == { s }), |_, o| o.0 == s);
    orders!("user", filter!(Order, user == { Some(s2.to_string()) }), |_, o| o.1.as_deref() == Some(s2));
    orders!("select", filter!(Order, select < { n }), |_, o| o.2 < n);
    orders!("desc", filter!(Order, desc != { s2 } && group == { s }), |_, o| o.3 != s2 && o.0 == s);
    orders!("values", filter!(Order, values >= { k } || desc == { s }), |_, o| o.4 >= k || o.3 == s);
    orders!("index", filter!(Order, index == true), |_, o| o.5);
    orders!("key", filter!(Order, key != { s }), |_, o| o.6 != s);
    orders!("end", filter!(Order, end <= { Some(k as f64) }), |_, o| o.7.is_some_and(|e| e <= k));
    orders!("where", filter!(Order, r#where == { s }), |_, o| o.8 .0 == s);
    orders!("type", filter!(Order, r#type > { n }), |_, o| o.8 .1 > n);
    orders!("from", filter!(Order, from == { Some(n) }), |_, o| o.8 .2 == Some(n));
    orders!("null", filter!(Order, from == None), |_, o| o.8 .2.is_none());
    orders!("has", filter!(Order, has == { n } && owner > { n }), |_, o| o.8 .4 == n && o.8 .5 > n);
    orders!("table", FieldExpr::<ForeignKey<User>>::new("table").subfilter(filter!(User, order == { n })), |_, o| o.8 .3.as_ref().is_some_and(|u| w.users[u].0 == n));
    orders!("table-default", FieldExpr::<ForeignKey<User>>::new("table").subfilter(filter!(User, default == { s })), |_, o| o.8 .3.as_ref().is_some_and(|u| w.users[u].2 == s));
    orders!("references", filter!(Order, references.contains(limit >= { Some(k) })), |i, _| w.refs.iter().any(|(o, u)| o == i && w.users[u].1.is_some_and(|l| l >= k)));
    orders!("references-key", filter!(Order, references.contains(user == { s })), |i, _| w.refs.contains(&(*i, s.to_string())));
    orders!("in", butane::query::BoolExpr::In("group", vec![s.to_sql(), s2.to_sql()]), |_, o| o.0 == s || o.0 == s2);
    for (u, row) in &w.users {
        let got = stry::<User>(c, u.clone()).map(|u| u.map(|u| (u.order, u.limit, u.default)));
        if !matches!(&got, Ok(Some(x)) if x == row) {
            bad.push(("user-key", format!("{u:?}: {got:?}, want {row:?}")));
        }
    }
    let got = find!(User, default == { s }, c).map(|u| u.user);
    let want: Vec<&String> = w.users.iter().filter(|(_, u)| u.2 == s).map(|(k, _)| k).collect();
    match &got {
        Ok(u) if want.contains(&u) => {}
        Err(butane::Error::NoSuchObject) if want.is_empty() => {}
        e => bad.push(("find", format!("{e:?}, want {want:?}"))),
    }
    macro_rules! others {
        ($what:literal, $m:ty, $e:expr, $key:expr, $want:expr) => {{
            let got: Result<BTreeSet<_>, String> = sload(<$m>::query().filter($e), c).map(|v| v.iter().map($key).collect()).map_err(|e| format!("{e:?}"));
            let want: BTreeSet<_> = $want;
            if got.as_ref() != Ok(&want) {
                bad.push(($what, format!("{got:?}, want {want:?} (operands {s:?} {n} {k})")));
            }
        }};
    }
    others!("Upper", camelCase, filter!(camelCase, Upper == { Some(s.to_string()) }), |x: &camelCase| x.theKey.clone(), w.camels.iter().filter(|(_, v)| v.1.as_deref() == Some(s)).map(|(k, _)| k.clone()).collect());
    others!("someValue", camelCase, filter!(camelCase, someValue > { n } && theKey != { s }), |x: &camelCase| x.theKey.clone(), w.camels.iter().filter(|(k, v)| v.0 > n && *k != s).map(|(k, _)| k.clone()).collect());
    others!("relTo", camelCase, FieldExpr::<ForeignKey<MixedAuto>>::new("relTo").subfilter(filter!(MixedAuto, Num == { n })), |x: &camelCase| x.theKey.clone(), w.camels.iter().filter(|(_, v)| v.2.is_some_and(|a| w.autos[&a].1 == n)).map(|(k, _)| k.clone()).collect());
    others!("manyOf", camelCase, filter!(camelCase, manyOf.contains(Text == { s })), |x: &camelCase| x.theKey.clone(), w.camels.keys().filter(|k| w.camel_autos.iter().any(|(o, a)| o == *k && w.autos[a].0 == s)).cloned().collect());
    others!("word", Derived, filter!(Derived, word == { s }), |x: &Derived| x.word.clone(), w.words.keys().filter(|k| *k == s).cloned().collect());
    others!("labels", Derived, filter!(Derived, labels.contains(code == { n })), |x: &Derived| x.word.clone(), w.words.keys().filter(|k| w.word_labels.contains(&((*k).clone(), n))).cloned().collect());
    others!("clash-own", Clash, filter!(Clash, owner == { n } && has != { s }), |x: &Clash| x.id.unwrap(), w.clashes.iter().filter(|(_, v)| v.0 == n && v.1 != s).map(|(k, _)| *k).collect());
    others!("clash-owner", Clash, filter!(Clash, many.contains(owner == { n })), |x: &Clash| x.id.unwrap(), w.clashes.keys().filter(|k| w.clash_items.iter().any(|(o, i)| o == *k && w.items[i].0 == n)).copied().collect());
    others!("clash-has", Clash, filter!(Clash, many.contains(has == { s })), |x: &Clash| x.id.unwrap(), w.clashes.keys().filter(|k| w.clash_items.iter().any(|(o, i)| o == *k && w.items[i].1 == s)).copied().collect());
    others!("unicode", Ünïcode, filter!(Ünïcode, größe == { n } || naïve == { Some(s.to_string()) }), |x: &Ünïcode| x.id.unwrap(), w.unis.iter().filter(|(_, v)| v.0 == n || v.1.as_deref() == Some(s)).map(|(k, _)| *k).collect());
    let got: Result<Vec<i64>, String> = sload(Order::query().order_asc("desc").order_desc("id").limit(3), c).map(|v| v.iter().map(|o| o.id).collect()).map_err(|e| format!("{e:?}"));
    let got_n = got.as_ref().map(|g| g.len());
    if got_n != Ok(w.orders.len().min(3)) {
        bad.push(("order", format!("{got:?}")));
    }
    Ok(bad)
}

fn main() {
    let ctx = Arc::new(Ctx::new("C19", 40, 900));
    ctx.rule("a name in a database in which it was used, or a state of the oddly named models");
    ctx.assume("names which a database engine reserves for columns of its own (PostgreSQL's ctid, xmin, ..., Turso's rowid), on Turso those with capitals other than of ASCII,, which differ only in case, or are longer than its limit are not used");
    ctx.watchdog(120, None);
    let words = words(&ctx);
    ctx.parallel(&[(Lane::Sqlite, 0), (Lane::Pg, 0), (Lane::Turso, 0), (Lane::SqliteAdapted, 0), (Lane::Pg, 1)], |(lane, k)| {
        let mut a = Db::empty(&ctx, lane);
        let mut b = Db::new(&ctx, lane);
        ctx.cases(&format!("names{k}/{}", lane.name()), 0.5, 5, 100_000, |case, r| at_run_time(&ctx, &mut a, r, case, &words));
        ctx.cases(&format!("models{k}/{}", lane.name()), 1.0, 5, 100_000, |case, r| compiled(&ctx, &mut b, r, case));
    });
    ctx.finish();
}
