//! C22: bad data and failing databases give errors, never panics or wrong data.
use butane::query::{BoolExpr, Expr, QueryOpsSync};
use butane::{AutoPk, DataObject, DataObjectOpsSync, DataResult, ForeignKey, ForeignKeyOpsSync, ManyOpsSync};
use rtm::bad::*;
use rtm::models::*;
use rtm::prelude::*;
use rtm::values::*;

/// Contents other programs may put into a column, as SQL for SQLite and Turso.
const HOSTILE: &[&str] = &[
    "NULL", "0", "1", "2", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32769", "65535", "65536", "2147483647", "2147483648",
    "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "0.5", "-0.0",
    "1.0", "3e9", "1e18", "1e300", "-1e300", "9e999", "-9e999", "1e40", "3.4028236e38", "1e-320",
    "''", "'x'", "'12'", "' 12 '", "'1.5'", "'true'", "'NaN'", "'inf'",
    "'2020-01-01'", "'2020-02-30'", "'2020-13-01'", "'0000-00-00'", "' 2020-01-01'", "'2020-1-2'", "'99999999-01-01'", "'-0001-01-01'", "'2020-01-01x'",
    "'01/02/2020'", "'2020-01-01T00:00:00'", "'2020-01-01 00:00:00'", "'2020-01-01T23:59:60'", "'2020-01-01T00:00:00Z'", "'2020-01-01T24:00:00'",
    "'2020-01-01T00:00:00.123456789012'", "'2020-01-01T00:00:00.'", "'2020-01-01T00:00:00.5'", "'now'", "'2020-01-01T25:61:61'", "'1e400'",
    "'{}'", "'[]'", "'null'", "'{\"a\":1}'", "'{\"a\":\"b\"}'", "'{\"a\":null}'", "'{\"a\":[1]}'", "'{\"a\":1.5}'", "'{\"a\":9223372036854775808}'",
    "'{\"w\":1}'", "'{\"w\":1.5,\"name\":\"x\",\"tags\":[]}'", "'{\"w\":1,\"name\":\"x\",\"tags\":[1]}'", "'{\"w\":1,\"name\":\"x\",\"tags\":[],\"more\":1}'",
    "'{\"w\":1,\"w\":2,\"name\":\"x\",\"tags\":[]}'", "'[1,\"n\",[]]'",
    "'\"Unit\"'", "'{\"Num\":1}'", "'{\"Num\":\"x\"}'", "'{\"Num\":1,\"Unit\":null}'", "'{\"Text\":{\"s\":\"x\"}}'", "'{\"Text\":{}}'", "'{\"Text\":{\"s\":1,\"o\":99999999999}}'",
    "'123456789012345678901234567890'", "'{\"a\":1,\"a\":2}'", "'{\"a\":'", "'\"\\ud800\"'", "'{\"a\":1}x'", "'\u{feff}{}'", "'-0'", "'tru'",
    "'Red'", "'Type'", "'r#Type'", "'red'", "'DarkBlue'", "'Red '", "'bad;--'", "'it''s \"good\"'", "'ünï'", "'😀'",
    "x''", "x'00'", "x'000102030405060708090a0b0c0d0e'", "x'000102030405060708090a0b0c0d0e0f'", "x'000102030405060708090a0b0c0d0e0f10'", "x'ff'",
    "zeroblob(70000)", "'a' || char(0) || 'b'", "char(0)", "'0123456789abcdef0123456789abcdef'", "'01234567-89ab-cdef-0123-456789abcdef'",
];
const NOT_UTF8: &[&str] = &["CAST(x'fffe' AS TEXT)", "CAST(x'61c3' AS TEXT)", "CAST(x'eda080' AS TEXT)", "CAST(x'f8888080' AS TEXT)", "CAST(x'7b2261223a22ff227d' AS TEXT)"];
fn deep() -> [String; 3] {
    let nest = |n: usize, a: &str, b: &str| format!("'{}{}'", a.repeat(n), b.repeat(n));
    [nest(120, "[", "]"), nest(100_000, "[", "]"), nest(300, "{\"a\":[", "]}")]
}

/// Remove the `FOREIGN KEY (...) REFERENCES t(...)` of a table's definition.
fn cut_references(t: &str) -> String {
    match t.find("FOREIGN KEY") {
        None => t.to_string(),
        Some(i) => {
            let head = t[..i].trim_end().trim_end_matches(',');
            let rest = &t[i..];
            let mut end = rest.len();
            let mut closed = 0;
            for (k, ch) in rest.char_indices() {
                if ch == ')' {
                    closed += 1;
                    if closed == 2 {
                        end = k + 1;
                        break;
                    }
                }
            }
            cut_references(&format!("{head}{}", &rest[end..]))
        }
    }
}
/// The tables of the models without the constraints which keep bad data out.
fn open_tables(ctx: &Ctx, lane: Lane) -> Db {
    let template = Db::new(ctx, lane);
    let sql = template.raw_rows("SELECT sql FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%' AND name NOT LIKE '__turso%'").expect("schema");
    let mut db = Db::empty(ctx, lane);
    for row in sql {
        let Raw::Text(t) = &row[0] else { continue };
        let t = t.replace("STRICT", "").replace(" NOT NULL", "").replace(" UNIQUE", "");
        // nor may the engine object to references to nowhere
        let t = cut_references(&t);
        db.raw_exec(&t).unwrap_or_else(|e| panic!("{e}: {t}"));
    }
    let c = db.connect();
    db.conn = Some(c);
    db
}

fn unhex(s: &str) -> Vec<u8> {
    s.as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}
/// What a table of SQLite or Turso holds.
fn cells_of<T: DataResult>(db: &Db, table: &str) -> Vec<Cells> {
    let cols: Vec<&str> = T::COLUMNS.iter().map(|c| c.name()).collect();
    let list: Vec<String> = cols.iter().map(|c| format!("typeof(\"{c}\"), CASE WHEN typeof(\"{c}\") = 'text' THEN hex(CAST(\"{c}\" AS BLOB)) ELSE \"{c}\" END")).collect();
    let rows = db.raw_rows(&format!("SELECT {} FROM \"{table}\"", list.join(", "))).unwrap_or_else(|e| panic!("{table}: {e}"));
    rows.into_iter()
        .map(|r| {
            cols.iter()
                .enumerate()
                .map(|(i, c)| {
                    let cell = match (&r[2 * i], &r[2 * i + 1]) {
                        (_, Raw::Null) => Cell::Null,
                        (_, Raw::Int(i)) => Cell::Int(*i),
                        (_, Raw::Real(f)) => Cell::Real(*f),
                        (Raw::Text(t), Raw::Text(h)) if t == "text" => Cell::Text(unhex(h)),
                        (_, Raw::Blob(b)) => Cell::Blob(b.clone()),
                        o => panic!("{o:?}"),
                    };
                    (c.to_string(), cell)
                })
                .collect()
        })
        .collect()
}

struct Seen<'a> {
    ctx: &'a Ctx,
    lane: Lane,
    case: &'a str,
    what: String,
}
impl Seen<'_> {
    fn bad(&self, sig: &str, msg: String) {
        let sig = format!("{sig}-{}", self.lane.name());
        self.ctx.violation(&sig, self.case, format!("{} {}: {msg}", self.lane.name(), self.what));
    }
    /// The outcome of an operation, which may not be a panic.
    fn run<V>(&self, op: &str, f: impl FnOnce() -> butane::Result<V>) -> Option<butane::Result<V>> {
        self.ctx.eval(1);
        let engine = rtm::ctx::engine_panics();
        match catch(f) {
            Ok(r) => {
                self.ctx.count(&format!("{} operations that {}", self.lane.name(), if r.is_ok() { "succeeded" } else { "failed" }), 1);
                Some(r)
            }
            Err(p) if self.lane == Lane::Turso && (rtm::ctx::engine_panics() > engine || p.contains("turso")) => {
                self.ctx.count("panics of the Turso engine", 1);
                None
            }
            Err(p) => {
                let at = p.split(": ").next().unwrap_or("").rsplit('/').next().unwrap_or("").to_string();
                self.bad(&format!("panic-{at}"), format!("{op} panicked: {p}"));
                None
            }
        }
    }
    /// Every row must be one of the table, none twice.
    fn rows<T: Checked + std::fmt::Debug>(&self, op: &str, rows: &[T], cells: &[Cells]) {
        let mut free: Vec<&Cells> = cells.iter().collect();
        for r in rows {
            let diffs: Vec<Vec<String>> = free.iter().map(|c| catch(|| r.wrong(c)).unwrap_or_else(|p| vec![format!("panic: {p}")])).collect();
            match diffs.iter().position(Vec::is_empty) {
                Some(i) => {
                    free.remove(i);
                }
                None => {
                    let best = diffs.iter().min_by_key(|d| d.len()).cloned().unwrap_or_default();
                    let sig = if best.iter().any(|b| b.contains("panic:")) { "unusable-value" } else { "wrong-data" };
                    let msg = best.join("; ");
                    return self.bad(sig, format!("{op} returned a row that is not in the table: {}", msg.chars().take(600).collect::<String>()));
                }
            }
        }
        self.ctx.count("rows compared with their columns", rows.len() as u64);
    }
}

/// Read everything in every way.
fn read<T>(s: &Seen, db: &Db, good: &[(T::PKType, T)], cells: &[Cells])
where
    T: DataObject + Checked + std::fmt::Debug + Clone,
    T::PKType: Field,
{
    let c = db.c();
    if let Some(Ok(rows)) = s.run("load", || T::query().load(c)) {
        s.rows("load", &rows, cells);
        if rows.len() != cells.len() {
            s.bad("rows-missing", format!("load returned {} of {} rows", rows.len(), cells.len()));
        }
    }
    for n in 0..=cells.len().min(4) as i32 {
        if let Some(Ok(rows)) = s.run("page", || T::query().order_asc(T::PKCOL).offset(n).limit(1).load(c)) {
            s.rows("page", &rows, cells);
            if rows.len() > 1 || (rows.is_empty() && (n as usize) < cells.len()) {
                s.bad("page", format!("limit 1 offset {n} of {} rows returned {}", cells.len(), rows.len()));
            }
        }
    }
    if let Some(Ok(Some(row))) = s.run("load_first", || T::query().load_first(c)) {
        s.rows("load_first", &[row], cells);
    }
    for col in T::COLUMNS {
        // rows chosen by a column: whichever are returned must be right
        let e = if col.name().len() % 2 == 0 { BoolExpr::Ne(col.name(), Expr::Val(butane::SqlVal::Null)) } else { BoolExpr::Eq(col.name(), Expr::Val(butane::SqlVal::Null)) };
        if let Some(Ok(rows)) = s.run("filter", || T::query().filter(e).load(c)) {
            s.rows("filter", &rows, cells);
        }
    }
    for (k, want) in good {
        match s.run("get", || T::get(c, k.clone())) {
            Some(Ok(row)) => s.rows("get", &[row], &cells.iter().filter(|c| want.wrong(c).is_empty()).cloned().collect::<Vec<_>>()),
            Some(Err(e)) if s.lane == Lane::Turso && e.to_string().contains("Corrupt") => {}
            Some(Err(e)) => s.bad("good-row-unreadable", format!("get of the untouched row {}: {e:?}", k.shown())),
            None => {}
        }
        match s.run("try_get", || T::try_get(c, k.clone())) {
            Some(Ok(Some(row))) => s.rows("try_get", &[row], &cells.iter().filter(|c| want.wrong(c).is_empty()).cloned().collect::<Vec<_>>()),
            Some(Ok(None)) => s.bad("good-row-missing", format!("try_get of the untouched row {}", k.shown())),
            _ => {}
        }
    }
}
/// A view of some columns.
fn view<V: DataResult + Checked + std::fmt::Debug>(s: &Seen, db: &Db, cells: &[Cells]) {
    if let Some(Ok(rows)) = s.run("load of a view", || V::query().load(db.c())) {
        s.rows("load of a view", &rows, cells);
        if rows.len() != cells.len() {
            s.bad("rows-missing", format!("loading a view returned {} of {} rows", rows.len(), cells.len()));
        }
    }
}

fn hostile(r: &mut Rng, lane: Lane) -> String {
    match below(r, 40) {
        0 => pick(r, &deep()).clone(),
        1 | 2 if lane.is_sqlite() => pick(r, NOT_UTF8).to_string(),
        _ => pick(r, HOSTILE).to_string(),
    }
}
macro_rules! with_table {
    ($ctx:expr, $db:expr, $case:expr, $r:expr, $t:ident, $rows:expr, |$s:ident, $cells:ident, $good:ident| $more:expr) => {{
        let table = <$t as DataObject>::TABLE;
        $db.raw_exec(&format!("DELETE FROM \"{table}\"")).expect("empty");
        let mut rows: Vec<$t> = $rows;
        let mut ok = true;
        for o in &mut rows {
            if let Err(e) = catch(|| o.save($db.c())).unwrap_or_else(|p| Err(butane::Error::Internal(p))) {
                if $db.lane != Lane::Turso { $ctx.inconclusive(format!("{:?} {}: {e}", $db.lane, $case)); }
                ok = false;
            }
        }
        if ok {
            // rowids in the order of saving
            let ids: Vec<Raw> = $db.raw_rows(&format!("SELECT rowid FROM \"{table}\" ORDER BY rowid")).unwrap().into_iter().map(|mut r| r.remove(0)).collect();
            let mut lits = vec![];
            let hit = spoil_at::<$t>($r, $db, table, &ids, &mut lits);
            let $cells = cells_of::<$t>($db, table);
            let pks: Vec<String> = rows.iter().map(|o| o.pk().shown()).collect();
            let $good: Vec<(<$t as DataObject>::PKType, $t)> = rows.iter().filter(|o| {
                // untouched, and no other row was given its key
                $cells.iter().any(|c| o.wrong(c).is_empty())
                    && $cells.iter().filter(|c| <<$t as DataObject>::PKType as Field>::read(&c[<$t as DataObject>::PKCOL]).is_some_and(|k| k.shown() == o.pk().shown())).count() == 1
                    && pks.iter().filter(|k| **k == o.pk().shown()).count() == 1
            }).map(|o| (o.pk().clone(), o.clone())).collect();
            let $s = Seen { ctx: $ctx, lane: $db.lane, case: $case, what: lits.join(", ") };
            let unreadable: Vec<String> = $cells.iter().flat_map(|c| <$t as Checked>::unreadable(c)).collect();
            $ctx.count("columns that stand for no value of their field", unreadable.len() as u64);
            if hit > 0 {
                for u in &unreadable { $ctx.nontrivial(&($db.lane.name(), table, u)); }
            }
            read::<$t>(&$s, $db, &$good, &$cells);
            $more
        }
    }};
}
/// Overwrite columns of some rows.
fn spoil_at<T: DataResult>(r: &mut Rng, db: &Db, table: &str, ids: &[Raw], lits: &mut Vec<String>) -> usize {
    let mut hit = 0;
    for _ in 0..r.random_range(1..4) {
        let row = below(r, ids.len());
        let col = pick(r, T::COLUMNS).name();
        let lit = hostile(r, db.lane);
        if db.raw_exec(&format!("UPDATE \"{table}\" SET \"{col}\" = {lit} WHERE rowid = {}", ids[row].show())).is_ok() {
            hit += 1;
            lits.push(format!("{table}.{col}[{row}] = {}", lit.chars().take(60).collect::<String>()));
        }
    }
    hit
}

fn small_book(r: &mut Rng, authors: &[&str], i: usize) -> Book {
    Book {
        id: AutoPk::uninitialized(),
        title: format!("book {i}"),
        pages: i32v(r),
        price: f64v(r),
        big: i64v(r),
        instock: r.random(),
        sub: opt(r, 0.5, text),
        year: opt(r, 0.5, i32v),
        rating: opt(r, 0.5, f64v),
        author: ForeignKey::from_pk(pick(r, authors).to_string()),
        editor: opt(r, 0.5, |r| ForeignKey::from_pk(pick(r, authors).to_string())),
        labels: Default::default(),
        extra: Default::default(),
    }
}

fn bad_data(ctx: &Ctx, db: &Db, r: &mut Rng, case: &str) {
    match below(r, 6) {
        0 | 1 => {
            with_table!(ctx, db, case, r, AllTypes, (0..3).map(|i| gen_all(r, i)).collect(), |_s, _cells, _good| {});
        }
        2 => {
            with_table!(ctx, db, case, r, AllOpt, (0..3).map(|_| gen_opt(r)).collect(), |_s, _cells, _good| {});
        }
        3 => {
            let t = |r: &mut Rng| pick(r, &["a", "b", "c"]).to_string();
            let d = |r: &mut Rng| chrono::NaiveDate::from_ymd_opt(2000, 1, r.random_range(1..28)).unwrap();
            match below(r, 5) {
                0 => with_table!(ctx, db, case, r, KInt, (0..3).map(|i| KInt { id: i, v: t(r), n: None }).collect(), |_s, _c, _g| {}),
                1 => with_table!(ctx, db, case, r, KUuid, (0..3).map(|_| KUuid { id: uuid(r), v: t(r), n: Some(3) }).collect(), |_s, _c, _g| {}),
                2 => with_table!(ctx, db, case, r, KSlug, (0..3).map(|i| KSlug { id: Slug(format!("s{i}")), v: t(r), n: None }).collect(), |_s, _c, _g| {}),
                3 => with_table!(ctx, db, case, r, KAuto32, (0..3).map(|_| KAuto32 { id: AutoPk::uninitialized(), v: t(r), n: None }).collect(), |_s, _c, _g| {}),
                _ => with_table!(ctx, db, case, r, KDate, vec![KDate { id: d(r), v: t(r), n: None }], |_s, _c, _g| {}),
            }
        }
        4 => {
            // references of every kind, to things which are there and things which are not
            for t in ["KInt", "KText", "KAuto"] {
                db.raw_exec(&format!("DELETE FROM \"{t}\"")).unwrap();
            }
            KInt { id: 5, v: "five".into(), n: None }.save(db.c()).unwrap();
            KText { key: "x".into(), v: "ex".into(), n: Some(1) }.save(db.c()).unwrap();
            let refs = |r: &mut Rng| RefAll {
                id: AutoPk::uninitialized(),
                ki: ForeignKey::from_pk(*pick(r, &[5, 6])),
                kb: ForeignKey::from_pk(i64v(r)),
                kt: ForeignKey::from_pk(pick(r, &["x", "y"]).to_string()),
                ku: ForeignKey::from_pk(uuid(r)),
                kbl: ForeignKey::from_pk(vec![1, 2]),
                ks: ForeignKey::from_pk(Slug("s".into())),
                ka: ForeignKey::from_pk({
                    use butane::FromSql;
                    AutoPk::<i64>::from_sql(butane::SqlVal::BigInt(1)).unwrap()
                }),
                ok: opt(r, 0.5, |_| ForeignKey::from_pk("x".to_string())),
            };
            with_table!(ctx, db, case, r, RefAll, (0..3).map(|_| refs(r)).collect(), |s, cells, _good| {
                if let Some(Ok(rows)) = s.run("load", || RefAll::query().load(db.c())) {
                    for row in &rows {
                        match s.run("load of a reference", || row.ki.load(db.c()).cloned()) {
                            Some(Ok(t)) if t.id != 5 || row.ki.pk() != 5 || t.v != "five" => s.bad("wrong-reference", format!("{} led to {t:?}", row.ki.pk())),
                            Some(Err(e)) if row.ki.pk() == 5 => s.bad("lost-reference", format!("{e:?}")),
                            _ => {}
                        }
                        match s.run("load of a reference", || row.kt.load(db.c()).cloned()) {
                            Some(Ok(t)) if t.key != "x" || row.kt.pk() != "x" || t.v != "ex" => s.bad("wrong-reference", format!("{} led to {t:?}", row.kt.pk())),
                            Some(Err(e)) if row.kt.pk() == "x" => s.bad("lost-reference", format!("{e:?}")),
                            _ => {}
                        }
                        let _ = s.run("comparing a reference", || Ok((row.kt == "x".to_string(), row.ki == 5, format!("{row:?}"), serde_json::to_string(&row.kt).unwrap())));
                    }
                }
                let _ = cells.len();
            });
        }
        _ => many(ctx, db, r, case),
    }
}
/// Books with labels, where books, labels and the table joining them hold anything.
fn many(ctx: &Ctx, db: &Db, r: &mut Rng, case: &str) {
    for t in ["Author", "Label", "Book_labels_Many", "Book_extra_Many"] {
        db.raw_exec(&format!("DELETE FROM \"{t}\"")).unwrap();
    }
    for a in ["ann", "bob"] {
        Author { name: a.into(), rank: 1, bio: None }.save(db.c()).unwrap();
    }
    let labels: Vec<Label> = (0..4).map(|i| Label { code: i, text: format!("l{i}"), prio: Some(i as i64) }).collect();
    for l in &labels {
        l.clone().save(db.c()).unwrap();
    }
    with_table!(
        ctx,
        db,
        case,
        r,
        Book,
        (0..3)
            .map(|i| {
                let mut b = small_book(r, &["ann", "bob"], i);
                for l in &labels {
                    if r.random() {
                        b.labels.add(l).unwrap();
                    }
                }
                b
            })
            .collect(),
        |s, cells, good| {
            view::<BookBrief>(&s, db, &cells);
            view::<BookReordered>(&s, db, &cells);
            view::<BookRel>(&s, db, &cells);
            view::<BookOne>(&s, db, &cells);
            // now the joining table and the labels
            let mut lits = vec![s.what.clone()];
            for _ in 0..r.random_range(0..3) {
                let (t, col) = *pick(r, &[("Book_labels_Many", "owner"), ("Book_labels_Many", "has"), ("Label", "text"), ("Label", "prio"), ("Label", "code")]);
                let lit = hostile(r, db.lane);
                if db.raw_exec(&format!("UPDATE \"{t}\" SET \"{col}\" = {lit} WHERE rowid = (SELECT max(rowid) FROM \"{t}\" WHERE rowid % 3 = {})", below(r, 3))).is_ok() {
                    lits.push(format!("{t}.{col} = {}", lit.chars().take(60).collect::<String>()));
                }
            }
            let s = Seen { what: lits.join(", "), ..s };
            let lcells = cells_of::<Label>(db, "Label");
            for (k, _) in &good {
                let Some(Ok(b)) = s.run("get", || Book::get(db.c(), k.clone())) else { continue };
                let Some(id) = **k else { continue };
                // which labels the tables say it has
                let joined = db
                    .raw_rows(&format!("SELECT DISTINCT l.rowid FROM \"Label\" l JOIN \"Book_labels_Many\" m ON m.has = l.code WHERE m.owner = {id}"))
                    .expect("join")
                    .len();
                match s.run("load of a many", || b.labels.load(db.c()).map(|v| v.cloned().collect::<Vec<Label>>())) {
                    Some(Ok(got)) => {
                        s.rows("load of a many", &got, &lcells);
                        let distinct: HashSet<i32> = got.iter().map(|l| l.code).collect();
                        if distinct.len() != joined {
                            s.bad("many-members", format!("the tables join {joined} labels to book {id}, loading gave {got:?}"));
                        }
                    }
                    Some(Err(e)) if lcells.iter().all(|c| Label::unreadable(c).is_empty()) => {
                        if s.lane != Lane::Turso {
                            s.bad("many-unreadable", format!("labels are all good but loading them failed: {e:?}"))
                        }
                    }
                    _ => {}
                }
            }
        }
    );
}

// --- PostgreSQL: columns of other types ------------------------------------------------------

/// A type of column, a value, and what that stands for.
fn pg_values() -> Vec<(&'static str, &'static str, Cell)> {
    let t = |s: &str| Cell::Text(s.as_bytes().to_vec());
    let b = |s: &str| Cell::Blob(unhex(s));
    let u = "000102030405060708090a0b0c0d0e0f";
    let mut v = vec![
        ("SMALLINT", "7", Cell::Int(7)),
        ("SMALLINT", "-300", Cell::Int(-300)),
        ("INTEGER", "-5", Cell::Int(-5)),
        ("INTEGER", "128", Cell::Int(128)),
        ("INTEGER", "65536", Cell::Int(65536)),
        ("INTEGER", "2147483647", Cell::Int(2147483647)),
        ("INTEGER", "-2147483648", Cell::Int(-2147483648)),
        ("BIGINT", "9223372036854775807", Cell::Int(i64::MAX)),
        ("BIGINT", "4294967296", Cell::Int(1 << 32)),
        ("BIGINT", "-1", Cell::Int(-1)),
        ("BIGINT", "300", Cell::Int(300)),
        ("OID", "3", Cell::Int(3)),
        ("NUMERIC", "1.5", Cell::Real(1.5)),
        ("NUMERIC", "'NaN'", Cell::Real(f64::NAN)),
        ("MONEY", "1.5", Cell::Null),
        ("REAL", "1.5", Cell::Real(1.5)),
        ("DOUBLE PRECISION", "1e300", Cell::Real(1e300)),
        ("DOUBLE PRECISION", "-1e39", Cell::Real(-1e39)),
        ("DOUBLE PRECISION", "'Infinity'", Cell::Real(f64::INFINITY)),
        ("DOUBLE PRECISION", "'NaN'", Cell::Real(f64::NAN)),
        ("BOOLEAN", "true", Cell::Int(1)),
        ("TEXT", "''", t("")),
        ("TEXT", "'x'", t("x")),
        ("TEXT", "'red'", t("red")),
        ("TEXT", "'DarkBlue'", t("DarkBlue")),
        ("TEXT", "'2020-01-01'", t("2020-01-01")),
        ("TEXT", "'{}'", t("{}")),
        ("VARCHAR(20)", "'Green'", t("Green")),
        ("CHAR(6)", "'Red'", t("Red   ")),
        ("NAME", "'Red'", t("Red")),
        ("\"char\"", "'R'", t("R")),
        ("BYTEA", "'\\x'", b("")),
        ("BYTEA", "'\\xff00'", b("ff00")),
        ("BYTEA", "'\\x000102030405060708090a0b0c0d0e0f'", b(u)),
        ("BYTEA", "'\\x000102030405060708090a0b0c0d0e0f10'", b("000102030405060708090a0b0c0d0e0f10")),
        ("UUID", "'00010203-0405-0607-0809-0a0b0c0d0e0f'", b(u)),
        ("BIT(8)", "B'10101010'", Cell::Null),
        ("DATE", "'2020-01-01'", t("2020-01-01")),
        ("DATE", "'infinity'", Cell::Null),
        ("DATE", "'-infinity'", Cell::Null),
        ("DATE", "'5874897-12-31'", Cell::Null),
        ("DATE", "'4713-01-01 BC'", t("-4712-01-01")),
        ("TIMESTAMP", "'2020-01-01 01:02:03.5'", t("2020-01-01T01:02:03.5")),
        ("TIMESTAMP", "'infinity'", Cell::Null),
        ("TIMESTAMP", "'-infinity'", Cell::Null),
        ("TIMESTAMP", "'294276-12-31 23:59:59.999999'", Cell::Null),
        ("TIMESTAMP", "'0044-03-15 00:00:00 BC'", t("-0043-03-15T00:00:00")),
        ("TIMESTAMPTZ", "'2020-01-01 00:00:00+00'", t("2020-01-01T00:00:00")),
        ("TIMESTAMPTZ", "'infinity'", Cell::Null),
        ("TIME", "'01:02:03'", Cell::Null),
        ("INTERVAL", "'1 day'", Cell::Null),
        ("INTEGER[]", "'{1,2}'", Cell::Null),
        ("TEXT[]", "'{Red}'", Cell::Null),
        ("POINT", "'(1,2)'", Cell::Null),
        ("INET", "'127.0.0.1'", Cell::Null),
        ("VOIDLIKE", "'(1,a)'", Cell::Null),
        ("MOODLIKE", "'Red'", t("Red")),
        ("JSON", "'{\"a\":1}'", t("{\"a\":1}")),
    ];
    for j in [
        "null", "[]", "{}", "1", "\"x\"", "\"Unit\"", "{\"Num\":1}", "{\"Num\":1.5}", "{\"Num\":\"x\"}", "{\"Text\":{\"s\":\"x\"}}", "{\"Text\":{}}", "{\"a\":1}",
        "{\"a\":\"b\"}", "{\"a\":null}", "{\"a\":9223372036854775808}", "{\"w\":1,\"name\":\"x\",\"tags\":[]}", "{\"w\":1.5,\"name\":\"x\",\"tags\":[]}",
        "{\"w\":1,\"name\":\"x\"}", "[1,\"n\",[]]", "123456789012345678901234567890",
    ] {
        v.push(("JSONB", Box::leak(format!("'{j}'").into_boxed_str()), t(j)));
    }
    // numbers and nesting no JSON parser has to take
    v.push(("JSONB", "'1e400'", Cell::Null));
    v.push(("JSONB", "('[' || repeat('9', 400) || ']')::jsonb", Cell::Null));
    v.push(("JSONB", "(repeat('[', 1000) || repeat(']', 1000))::jsonb", Cell::Null));
    v
}
fn pg_types(ctx: &Ctx) {
    let lane = Lane::Pg;
    let db = Db::new(ctx, lane);
    db.raw_exec("CREATE TYPE voidlike AS (a int, b text); CREATE TYPE moodlike AS ENUM ('Red', 'blue'); CREATE TABLE tmpl (LIKE alltypes INCLUDING ALL)").unwrap();
    let values = pg_values();
    let mut all: Vec<(usize, Option<usize>)> = vec![];
    for c in 0..AllTypes::COLUMNS.len() {
        all.push((c, None));
        all.extend((0..values.len()).map(|v| (c, Some(v))));
    }
    let n = all.len();
    if !ctx.replaying() {
        all.shuffle(&mut ctx.rng("pg"));
    }
    for (i, (ci, vi)) in all.into_iter().enumerate() {
        let case = format!("pg-types/{ci}.{}", vi.map_or("null".into(), |v| v.to_string()));
        if !ctx.want(&case) || !ctx.go_on_until(1.0) {
            continue;
        }
        ctx.begin("pg-types", &case);
        let mut r = ctx.rng(&case);
        let col = AllTypes::COLUMNS[ci].name();
        db.raw_exec("DROP TABLE alltypes; CREATE TABLE alltypes (LIKE tmpl INCLUDING ALL)").unwrap();
        for id in 0..3 {
            gen_all(&mut r, id).save(db.c()).unwrap();
        }
        // what is there besides the spoilt column
        let before: Vec<AllTypes> = AllTypes::query().load(db.c()).unwrap();
        let (what, cell) = match vi {
            None => ("NULL".to_string(), Cell::Null),
            Some(v) => (format!("{} {}", values[v].0, values[v].1), values[v].2.clone()),
        };
        let done = match vi {
            None if col == "id" => continue,
            None => db.raw_exec(&format!("ALTER TABLE alltypes ALTER COLUMN {col} DROP NOT NULL; UPDATE alltypes SET {col} = NULL WHERE id = 1")),
            Some(_) if col == "id" => db.raw_exec("DELETE FROM alltypes WHERE id <> 1").and_then(|_| {
                let (ty, lit, _) = &values[vi.unwrap()];
                db.raw_exec(&format!("ALTER TABLE alltypes DROP COLUMN id; ALTER TABLE alltypes ADD COLUMN id {ty} DEFAULT {lit}"))
            }),
            Some(v) => {
                let (ty, lit, _) = &values[v];
                db.raw_exec(&format!("ALTER TABLE alltypes DROP COLUMN {col}; ALTER TABLE alltypes ADD COLUMN {col} {ty} DEFAULT {lit}"))
            }
        };
        if let Err(e) = done {
            ctx.inconclusive(format!("{case} {what}: {e}"));
            continue;
        }
        let s = Seen { ctx, lane, case: &case, what: format!("AllTypes.{col} = {what}") };
        // only the changed column is judged here
        let judge = |op: &str, rows: &[AllTypes]| {
            for row in rows {
                if vi.is_none() && row.id != 1 {
                    continue;
                }
                let mut cells: Cells = AllTypes::COLUMNS.iter().map(|c| (c.name().to_string(), Cell::Null)).collect();
                cells.insert(col.to_string(), cell.clone());
                let w: Vec<String> = row.wrong(&cells).into_iter().filter(|w| w.starts_with(&format!("{col}: "))).collect();
                if !w.is_empty() {
                    s.bad("wrong-data", format!("{op}: {}", w.join("; ")));
                }
                if let Some(b) = before.iter().find(|b| b.id == row.id && col != "id") {
                    let d: Vec<String> = AllTypes::wrong_against(b, row).into_iter().filter(|d| d != col).collect();
                    if !d.is_empty() {
                        s.bad("wrong-data", format!("{op}: untouched columns {d:?} changed"));
                    }
                }
            }
            ctx.count("rows compared with their columns", rows.len() as u64);
        };
        if let Some(Ok(rows)) = s.run("load", || AllTypes::query().load(db.c())) {
            judge("load", &rows);
            let want = if col == "id" { 1 } else { 3 };
            if rows.len() != want {
                s.bad("rows-missing", format!("{} of {want} rows", rows.len()));
            }
        }
        if let Some(Ok(row)) = s.run("get", || AllTypes::get(db.c(), 1i64)) {
            judge("get", &[row]);
        }
        if let Some(Ok(rows)) = s.run("filter", || AllTypes::query().filter(BoolExpr::Ne(col, Expr::Val(butane::SqlVal::Null))).load(db.c())) {
            judge("filter", &rows);
        }
        if vi.is_none() {
            // rows without the NULL are not affected
            match s.run("get", || AllTypes::get(db.c(), 2i64)) {
                Some(Ok(row)) if before.iter().any(|b| b.id == 2 && AllTypes::wrong_against(b, &row).is_empty()) => {}
                Some(x) => s.bad("good-row-unreadable", format!("{x:?}")),
                None => {}
            }
        } else if s.run("save", || gen_all(&mut r, 7).save(db.c())).is_some_and(|r| r.is_ok()) {
            ctx.count("rows saved into a column of another type", 1);
        }
        ctx.nontrivial(&("pg", col, &what));
        // the connection is as good as before
        match s.run("another query", || Label::query().load(db.c())) {
            Some(Ok(v)) if v.is_empty() => {}
            x => s.bad("connection-lost", format!("{x:?}")),
        }
        ctx.count("PostgreSQL columns of another type or NULL", 1);
        if i + 1 == n {
            ctx.count("all PostgreSQL columns and types done", 1);
        }
    }
    ctx.end("pg-types");
}

trait Against {
    fn wrong_against(a: &Self, b: &Self) -> Vec<String>;
}
impl Against for AllTypes {
    fn wrong_against(a: &Self, b: &Self) -> Vec<String> {
        let mut v = vec![];
        macro_rules! cmp { ($($f:ident),*) => { $( if a.$f.shown() != b.$f.shown() { v.push(stringify!($f).to_string()); } )* } }
        cmp!(id, b, i8v, u8v, i16v, u16v, i32v, u32v, i64v, f32v, f64v, text, blob, json, hmap, bmap, ts, tsu, date, uuid, en, nt, nts, ty, alias, manual, mixed);
        v
    }
}

// --- tables which are not as expected ---------------------------------------------------------

fn fresh_book(i: usize) -> Book {
    Book {
        id: AutoPk::uninitialized(),
        title: format!("b{i}"),
        pages: i as i32,
        price: 1.5,
        big: 1,
        instock: true,
        sub: None,
        year: None,
        rating: None,
        author: ForeignKey::from_pk("ann".into()),
        editor: None,
        labels: Default::default(),
        extra: Default::default(),
    }
}
/// Every kind of operation, by name, with whether it succeeded. None is allowed to panic.
fn battery(s: &Seen, c: &impl butane::db::ConnectionMethods, stored: &Book) -> BTreeMap<&'static str, bool> {
    let mut out = BTreeMap::new();
    let mut op = |name: &'static str, f: &mut dyn FnMut() -> butane::Result<()>| {
        if let Some(r) = s.run(name, f) {
            out.insert(name, r.is_ok());
        }
    };
    op("query", &mut || Book::query().load(c).map(|_| ()));
    op("view", &mut || BookBrief::query().load(c).map(|_| ()));
    op("first", &mut || Book::query().order_asc("title").limit(1).load_first(c).map(|_| ()));
    op("get", &mut || Book::get(c, stored.id.clone()).map(|_| ()));
    op("filter", &mut || Book::query().filter(butane::filter!(Book, author.matches(rank == 1))).load(c).map(|_| ()));
    op("contains", &mut || Book::query().filter(butane::filter!(Book, labels.contains(text == "one"))).load(c).map(|_| ()));
    op("reference", &mut || ForeignKey::<Author>::from_pk("ann".into()).load(c).map(|_| ()));
    op("many", &mut || stored.clone_unloaded(c));
    let mut b = fresh_book(9);
    op("insert", &mut || {
        let r = b.save(c);
        if r.is_err() && b.id.is_some() && s.lane != Lane::Turso {
            s.bad("marked-saved", format!("saving failed with {r:?}, yet the object has the key {:?}", *b.id));
        }
        r
    });
    let mut u = stored.clone();
    op("update", &mut || {
        u.title = "changed".into();
        u.save(c)
    });
    let mut a = Author { name: "ann".into(), rank: 2, bio: None };
    op("upsert", &mut || a.save(c));
    op("delete", &mut || b.delete(c));
    op("delete query", &mut || Book::query().filter(butane::filter!(Book, pages > 1000)).delete(c).map(|_| ()));
    op("has_table", &mut || c.has_table("Book").map(|_| ()));
    out
}
trait CloneUnloaded {
    fn clone_unloaded(&self, c: &impl butane::db::ConnectionMethods) -> butane::Result<()>;
}
impl CloneUnloaded for Book {
    fn clone_unloaded(&self, c: &impl butane::db::ConnectionMethods) -> butane::Result<()> {
        self.clone().labels.load(c).map(|v| {
            v.for_each(drop);
        })
    }
}
fn small_world(db: &Db) -> Book {
    Author { name: "ann".into(), rank: 1, bio: None }.save(db.c()).unwrap();
    Label { code: 1, text: "one".into(), prio: Some(1) }.save(db.c()).unwrap();
    let mut b = fresh_book(0);
    b.labels.add(&Label { code: 1, text: "one".into(), prio: Some(1) }).unwrap();
    b.save(db.c()).unwrap();
    b
}
/// Schemas changed behind the library's back.
fn changed_schema(ctx: &Ctx, lane: Lane) {
    // the change, and operations which can no longer succeed
    let changes: &[(&str, &[&str])] = &[
        ("DROP TABLE Book_labels_Many", &["many", "contains"]),
        ("DROP TABLE Book_labels_Many;\nDROP TABLE Book_extra_Many;\nDROP TABLE Book", &["query", "view", "first", "get", "filter", "contains", "insert", "update", "delete query"]),
        ("ALTER TABLE Book RENAME COLUMN title TO titel", &["query", "view", "first", "get", "insert", "update"]),
        ("ALTER TABLE Book DROP COLUMN pages", &["query", "get", "insert", "delete query"]),
        ("ALTER TABLE Book RENAME TO Books", &["query", "view", "first", "get", "insert", "update", "delete query"]),
        ("ALTER TABLE Book ADD COLUMN more TEXT", &[]),
        ("ALTER TABLE Label RENAME COLUMN prio TO urgency", &["many"]),
        ("ALTER TABLE Author RENAME COLUMN rank TO rnk", &["upsert", "reference"]),
        ("ALTER TABLE Book RENAME TO Books;\nCREATE VIEW Book AS SELECT * FROM Books", &[]),
        ("ALTER TABLE Book RENAME TO Books;\nCREATE TABLE Book (x INTEGER)", &["query", "view", "get", "insert", "update"]),
        ("ALTER TABLE Book RENAME TO Books;\nCREATE TABLE Book (id TEXT, title INTEGER, pages TEXT, price TEXT, big TEXT, instock TEXT, sub INTEGER, year TEXT, rating TEXT, author INTEGER, editor INTEGER);\nINSERT INTO Book VALUES ('x', 1, 'x', 'x', 'x', 'x', 1, 'x', 'x', 1, 1)", &["query", "view"]),
    ];
    for (i, (sql, broken)) in changes.iter().enumerate() {
        let case = format!("schema/{}/{i}", lane.name());
        if !ctx.want(&case) || (lane == Lane::Turso && (sql.contains("ALTER"))) {
            continue;
        }
        let mut db = Db::new(ctx, lane);
        let stored = small_world(&db);
        let quoted = sql.replace("x INTEGER", "x INTEGER");
        if let Err(e) = db.raw_exec(&if lane == Lane::Pg { quoted.replace("DROP TABLE Book", "DROP TABLE IF EXISTS Book") } else { quoted }) {
            ctx.inconclusive(format!("{case}: {e}"));
            continue;
        }
        if lane == Lane::Turso {
            // it does not notice that another connection changed the schema
            let c = db.connect();
            db.conn = Some(c);
        }
        let s = Seen { ctx, lane, case: &case, what: sql.to_string() };
        let got = battery(&s, db.c(), &stored);
        for b in *broken {
            if got.get(b) == Some(&true) {
                s.bad("succeeded-without-table", format!("{b} succeeded"));
            }
        }
        ctx.nontrivial(&("schema", lane.name(), i));
        // in a transaction too
        let what = format!("in a transaction, {sql}");
        let s = Seen { what, ..s };
        if let Some(Ok(tr)) = catch(|| db.cm().transaction()).ok() {
            battery(&s, &tr, &stored);
            let _ = s.run("commit", || tr.commit());
        }
        match s.run("another query", || KInt::query().load(db.c())) {
            Some(Ok(v)) if v.is_empty() => {}
            x => s.bad("connection-lost", format!("{x:?}")),
        }
        ctx.count("changed schemas", 1);
    }
}

// --- failing databases: SQLite ------------------------------------------------------------------

fn authors(db: &Db) -> BTreeSet<String> {
    db.raw_rows("SELECT name FROM Author").expect("names").into_iter().map(|r| match &r[0] {
        Raw::Text(t) => t.clone(),
        o => o.show(),
    }).collect()
}
fn author(n: impl Into<String>) -> Author {
    Author { name: n.into(), rank: 1, bio: None }
}
/// Faults in the middle of a transaction: it is all or nothing, also when the engine gave up on it.
fn sqlite_faults(ctx: &Ctx, lane: Lane, r: &mut Rng, case: &str) {
    let mut db = Db::new_without_wal(ctx, lane);
    let stored = small_world(&db);
    let kind = below(r, 7);
    let what = ["full", "RAISE(ROLLBACK)", "RAISE(ABORT)", "RAISE(FAIL)", "query_only", "locked", "CHECK"][kind];
    let s = Seen { ctx, lane, case, what: what.to_string() };
    let mut lock = None;
    match kind {
        0 => {
            let n = match &db.raw_rows("PRAGMA page_count").unwrap()[0][0] {
                Raw::Int(i) => i + r.random_range(0..6),
                o => panic!("{o:?}"),
            };
            // rusqlite refuses statements returning rows here, after having run them
            let _ = db.c().execute(format!("PRAGMA max_page_count = {n}"));
        }
        1..=3 => {
            let act = ["ROLLBACK", "ABORT", "FAIL"][kind - 1];
            db.raw_exec(&format!("CREATE TRIGGER tr BEFORE INSERT ON Author WHEN NEW.name LIKE '%!%' BEGIN SELECT RAISE({act}, 'no'); END")).unwrap();
            db.raw_exec(&format!("CREATE TRIGGER tb AFTER INSERT ON Book WHEN NEW.title LIKE '%!%' BEGIN SELECT RAISE({act}, 'no'); END")).unwrap();
            db.raw_exec(&format!("CREATE TRIGGER td BEFORE DELETE ON Book WHEN OLD.title LIKE '%!%' BEGIN SELECT RAISE({act}, 'no'); END")).unwrap();
        }
        4 => {
            let _ = db.c().execute("PRAGMA query_only = ON");
        }
        5 => {
            let _ = db.c().execute("PRAGMA busy_timeout = 20");
            let l = rusqlite::Connection::open(&db.connstr).unwrap();
            l.execute_batch(if r.random() { "BEGIN IMMEDIATE" } else { "BEGIN EXCLUSIVE" }).unwrap();
            lock = Some(l);
        }
        _ => db.raw_exec("CREATE TRIGGER tr BEFORE UPDATE ON Author BEGIN SELECT RAISE(ABORT, 'read only'); END").unwrap(),
    }
    let before = if kind == 5 { BTreeSet::from(["ann".to_string()]) } else { authors(&db) };
    let big = |i: usize, bad: bool, r: &mut Rng| {
        let mut a = author(format!("n{i}{}", if bad { "!" } else { "" }));
        a.bio = Some("x".repeat(if kind == 0 { r.random_range(10..6000) } else { 3 }));
        a
    };
    if r.random_range(0..3) > 0 {
        // within a transaction
        let mut done = BTreeSet::new();
        let mut failures = 0;
        let mut log = vec![];
        let mut conn = db.conn.take().unwrap();
        match s.run("begin", || conn.transaction()) {
            Some(Ok(tr)) => {
                let n = r.random_range(1..7);
                let at = below(r, n);
                for i in 0..n {
                    let mut a = big(i, i == at && kind < 4, r);
                    let name = a.name.clone();
                    match s.run("save", || a.save(&tr)) {
                        Some(Ok(())) => {
                            done.insert(name.clone());
                            log.push(format!("{name} saved"));
                        }
                        Some(Err(e)) => {
                            failures += 1;
                            log.push(format!("{name}: {e}"));
                        }
                        None => {}
                    }
                    if r.random_range(0..4) == 0 {
                        let mut b = fresh_book(i);
                        let res = s.run("save", || b.save(&tr));
                        if matches!(res, Some(Err(_))) && b.id.is_some() {
                            s.bad("marked-saved", format!("saving failed with {res:?}, yet the object has the key {:?}", *b.id));
                        }
                    }
                }
                let ending = below(r, 3);
                let res = match ending {
                    0 => s.run("rollback", || tr.rollback()).map(|r| r.map(|_| false)),
                    1 => {
                        drop(tr);
                        Some(Ok(false))
                    }
                    _ => s.run("commit", || tr.commit()).map(|r| r.map(|_| true)),
                };
                log.push(format!("{} {res:?}", ["rollback", "drop", "commit"][ending]));
                drop(lock.take());
                let after = authors(&db);
                let full: BTreeSet<String> = before.union(&done).cloned().collect();
                let right = match &res {
                    Some(Ok(true)) => after == full,
                    // nothing of a transaction which was not committed
                    Some(Ok(false)) | Some(Err(_)) => after == before,
                    None => true,
                };
                if !right {
                    s.bad("transaction-in-part", format!("{log:?}: the table has {after:?}"));
                }
                ctx.count(&format!("sqlite transactions with a fault ({what})"), 1);
                ctx.nontrivial(&("fault", lane.name(), what, ending, failures, n, done.len()));
            }
            Some(Err(_)) => {
                ctx.count("sqlite transactions refused", 1);
                ctx.nontrivial(&("fault", lane.name(), what, "begin"));
            }
            None => {}
        }
        db.conn = Some(conn);
    } else {
        let got = battery(&s, db.c(), &stored);
        if kind == 4 || kind == 5 {
            for w in ["insert", "update", "upsert"] {
                if got.get(w) == Some(&true) {
                    s.bad("wrote", format!("{w} succeeded"));
                }
            }
        }
        let mut b = fresh_book(1);
        b.title = "no!".into();
        let res = s.run("save", || b.save(db.c()));
        if (1..=3).contains(&kind) {
            if matches!(res, Some(Ok(_))) {
                s.bad("refused-but-ok", "saving a row which a trigger refused succeeded".into());
            }
            if b.id.is_some() {
                s.bad("marked-saved", format!("saving failed with {res:?}, yet the object has the key {:?}", *b.id));
            }
            if kind != 3 && !db.raw_rows("SELECT 1 FROM Book WHERE title = 'no!'").unwrap().is_empty() {
                s.bad("refused-but-there", "a row which a trigger refused is in the table".into());
            }
        }
        drop(lock.take());
        ctx.nontrivial(&("fault", lane.name(), what, format!("{got:?}")));
        ctx.count(&format!("sqlite operations with a fault ({what})"), got.len() as u64);
    }
    // and when the fault is over
    drop(lock);
    if kind == 0 {
        let _ = db.c().execute("PRAGMA max_page_count = 100000");
    }
    if kind == 4 {
        let _ = db.c().execute("PRAGMA query_only = OFF");
    }
    match s.run("save afterwards", || author("later").save(db.c())) {
        Some(Ok(())) if authors(&db).contains("later") => {}
        None => {}
        x => s.bad("connection-lost", format!("after the fault: {x:?}")),
    }
}

/// Files which are no databases, or damaged ones.
fn sqlite_files(ctx: &Ctx, r: &mut Rng, case: &str) {
    let lane = Lane::Sqlite;
    let dir = tempfile::tempdir_in(&ctx.scratch).unwrap();
    let kind = below(r, 8);
    let p = dir.path().join("x.db");
    let s = Seen { ctx, lane, case, what: format!("damaged file {kind}") };
    let stored = {
        let db = Db::new_without_wal(ctx, lane);
        let b = small_world(&db);
        for i in 0..40 {
            author(format!("a{i}")).save(db.c()).unwrap();
        }
        std::fs::copy(&db.connstr, &p).unwrap();
        b
    };
    let mut bytes = std::fs::read(&p).unwrap();
    let path = match kind {
        0 => {
            bytes = (0..r.random_range(1..9000)).map(|_| r.random()).collect();
            p.clone()
        }
        1 => {
            bytes.truncate(r.random_range(1..bytes.len()));
            p.clone()
        }
        2 | 3 | 4 => {
            for _ in 0..r.random_range(1..60) {
                let i = below(r, bytes.len());
                bytes[i] = r.random();
            }
            p.clone()
        }
        5 => {
            let page = below(r, bytes.len() / 4096);
            for b in &mut bytes[page * 4096..(page + 1) * 4096] {
                *b = r.random();
            }
            p.clone()
        }
        6 => dir.path().to_path_buf(),
        _ => dir.path().join("no/such/dir/x.db"),
    };
    std::fs::write(&p, &bytes).unwrap();
    // the file's own content is beyond anyone's control now: only what the library does counts
    match s.run("connect", || connect(lane, path.to_str().unwrap())) {
        Some(Ok(mut c)) => {
            let got = battery(&s, &c, &stored);
            if let Some(Ok(tr)) = s.run("begin", || c.transaction()) {
                battery(&s, &tr, &stored);
                let _ = s.run("commit", || tr.commit());
            }
            let mut m = rtm::lane::model_migrations(lane);
            let _ = s.run("migrate", || butane::migrations::Migrations::migrate(&mut m, &mut c));
            if kind == 0 && got.values().any(|ok| *ok) && !bytes.starts_with(b"SQLite format 3") {
                s.bad("garbage-accepted", format!("{got:?}"));
            }
            ctx.nontrivial(&("file", kind, format!("{got:?}")));
        }
        Some(Err(_)) => ctx.nontrivial(&("file", kind, "connect")),
        None => {}
    }
    ctx.count("damaged files", 1);
}

/// What other programs may have put into the table of applied migrations.
fn bookkeeping(ctx: &Ctx, lane: Lane) {
    use butane::migrations::Migrations;
    let mut n = 0;
    for (i, content) in ["'never heard of'", "''", "NULL", "7", "x'00ff'", "'init' || char(0)"].iter().enumerate() {
        for create in ["", "CREATE TABLE butane_migrations (name)", "CREATE TABLE butane_migrations (other TEXT)", "CREATE TABLE butane_migrations (name TEXT, more TEXT)"] {
            n += 1;
            let case = format!("bookkeeping/{}/{n}", lane.name());
            if !ctx.want(&case) || (lane == Lane::Pg && (create.ends_with("(name)") || i == 4 || i == 5)) {
                continue;
            }
            let mut db = Db::empty(ctx, lane);
            let mut m = rtm::lane::model_migrations(lane);
            if create.is_empty() {
                m.migrate(db.cm()).unwrap();
            } else {
                db.raw_exec(create).unwrap();
            }
            let col = if create.contains("other") { "other" } else { "name" };
            if create.is_empty() && r_exec(&db, "DELETE FROM butane_migrations").is_err() {
                continue;
            }
            if r_exec(&db, &format!("INSERT INTO butane_migrations ({col}) VALUES ({content})")).is_err() {
                continue;
            }
            if lane == Lane::Turso {
                let c = db.connect();
                db.conn = Some(c);
            }
            let s = Seen { ctx, lane, case: &case, what: format!("{create} with {content}") };
            let before = db.dump();
            let a = s.run("unapplied_migrations", || m.unapplied_migrations(db.c()).map(|v| v.len()));
            let l = s.run("last_applied_migration", || m.last_applied_migration(db.c()).map(|v| v.is_some()));
            let g = s.run("migrate", || m.migrate(db.cm()));
            if matches!(g, Some(Err(_))) && db.dump() != before && lane != Lane::Turso {
                s.bad("failed-halfway", format!("migrate failed with {g:?} and changed the database"));
            }
            let u = s.run("unmigrate", || m.unmigrate(db.cm()));
            ctx.nontrivial(&("bookkeeping", lane.name(), create, content, format!("{:?} {:?} {:?} {:?}", a.map(|x| x.is_ok()), l.map(|x| x.is_ok()), g.map(|x| x.is_ok()), u.map(|x| x.is_ok()))));
            ctx.count("odd bookkeeping tables", 1);
        }
    }
}
fn r_exec(db: &Db, sql: &str) -> Result<(), String> {
    db.raw_exec(sql)
}

// --- failing databases: PostgreSQL -----------------------------------------------------------------

mod proxy {
    use std::io::{Read, Write};
    use std::net::{TcpListener, TcpStream};
    use std::os::unix::net::UnixStream;
    use std::sync::atomic::{AtomicI64, Ordering};
    use std::sync::Arc;

    /// Between client and server. Once armed, passes on that many bytes of one direction, then closes.
    pub struct Proxy {
        pub port: u16,
        pub to_client: Arc<AtomicI64>,
        pub to_server: Arc<AtomicI64>,
    }
    const OPEN: i64 = i64::MAX / 2;
    fn pump(mut from: impl Read, mut to: impl Write, left: Arc<AtomicI64>, close: impl Fn()) {
        let mut buf = [0u8; 16384];
        loop {
            let n = match from.read(&mut buf) {
                Ok(0) | Err(_) => break,
                Ok(n) => n as i64,
            };
            let l = left.fetch_sub(n, Ordering::SeqCst);
            let pass = n.min(l.max(0));
            if to.write_all(&buf[..pass as usize]).is_err() || pass < n {
                break;
            }
        }
        close();
    }
    impl Proxy {
        pub fn new(socket: String) -> Proxy {
            let l = TcpListener::bind("127.0.0.1:0").unwrap();
            let port = l.local_addr().unwrap().port();
            let to_client = Arc::new(AtomicI64::new(OPEN));
            let to_server = Arc::new(AtomicI64::new(OPEN));
            let (a, b) = (to_client.clone(), to_server.clone());
            std::thread::spawn(move || {
                for c in l.incoming().flatten() {
                    let Ok(s) = UnixStream::connect(&socket) else { continue };
                    let (a, b) = (a.clone(), b.clone());
                    let close = {
                        let (c, s) = (c.try_clone().unwrap(), s.try_clone().unwrap());
                        Arc::new(move || {
                            let _ = c.shutdown(std::net::Shutdown::Both);
                            let _ = s.shutdown(std::net::Shutdown::Both);
                        })
                    };
                    let (c2, s2): (TcpStream, UnixStream) = (c.try_clone().unwrap(), s.try_clone().unwrap());
                    let close2 = close.clone();
                    std::thread::spawn(move || pump(c2, s2, b, move || close2()));
                    std::thread::spawn(move || pump(s, c, a, move || close()));
                }
            });
            Proxy { port, to_client, to_server }
        }
        pub fn arm(&self, client: Option<i64>, server: Option<i64>) {
            self.to_client.store(client.unwrap_or(OPEN), Ordering::SeqCst);
            self.to_server.store(server.unwrap_or(OPEN), Ordering::SeqCst);
        }
        pub fn cut(&self) -> bool {
            self.to_client.load(Ordering::SeqCst) < 0 || self.to_server.load(Ordering::SeqCst) < 0
        }
    }
}

struct PgFaults {
    db: Db,
    proxy: proxy::Proxy,
    connstr: String,
}
impl PgFaults {
    fn new(ctx: &Ctx) -> PgFaults {
        let mut db = Db::new(ctx, Lane::Pg);
        db.conn = None;
        let proxy = proxy::Proxy::new(format!("{}/.s.PGSQL.5432", rtm::lane::pg_dir()));
        let name = db.connstr.split("dbname=").nth(1).unwrap().to_string();
        let connstr = format!("host=127.0.0.1 port={} user=postgres dbname={name}", proxy.port);
        PgFaults { db, proxy, connstr }
    }
}
/// Connections which break while an operation is under way.
fn pg_faults(ctx: &Ctx, f: &mut PgFaults, r: &mut Rng, case: &str) {
    let lane = Lane::Pg;
    f.proxy.arm(None, None);
    f.db.raw_exec("TRUNCATE author, book, label, book_labels_many, book_extra_many CASCADE").unwrap();
    let mut conn = match catch(|| connect(lane, &f.connstr)) {
        Ok(Ok(c)) => c,
        e => return ctx.inconclusive(format!("connecting through the proxy: {:?}", e.map(|r| r.map(|_| ())))),
    };
    let n_start = r.random_range(1..40);
    for i in 0..n_start {
        f.db.raw_exec(&format!("INSERT INTO author VALUES ('a{i}', {i}, repeat('x', {}))", r.random_range(0..200))).unwrap();
    }
    f.db.raw_exec("INSERT INTO author VALUES ('ann', 1, NULL)").unwrap();
    let before = authors(&f.db);
    let op = below(r, 8);
    let name = ["insert", "insert with automatic key", "load", "delete", "transaction", "update", "begin", "connect"][op];
    let side = below(r, 3);
    let k = if r.random() { r.random_range(0..120) } else { r.random_range(0..4000) };
    let s = Seen { ctx, lane, case, what: format!("connection cut after {k} bytes {}, {name}", ["to the client", "to the server", "by the server"][side]) };
    let arm = |f: &PgFaults| match side {
        0 => f.proxy.arm(Some(k), None),
        1 => f.proxy.arm(None, Some(k)),
        _ => {
            let _ = f.db.raw_exec("SELECT pg_terminate_backend(pid) FROM pg_stat_activity WHERE datname = current_database() AND client_addr IS NOT NULL");
        }
    };
    let with = |extra: &[&str]| before.iter().cloned().chain(extra.iter().map(|s| s.to_string())).collect::<BTreeSet<_>>();
    let mut result = String::new();
    let settled = |f: &PgFaults| {
        // the server may need a moment to notice
        for _ in 0..400 {
            let n = f.db.raw_rows("SELECT count(*) FROM pg_stat_activity WHERE datname = current_database() AND client_addr IS NOT NULL AND state <> 'idle'").unwrap();
            if n[0][0] == Raw::Text("0".into()) {
                return;
            }
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
    };
    match op {
        0 => {
            arm(f);
            let res = s.run(name, || author("new").save(&conn));
            settled(f);
            let after = authors(&f.db);
            let ok = match &res {
                Some(Ok(())) => after == with(&["new"]),
                Some(Err(_)) => after == before || after == with(&["new"]),
                None => true,
            };
            if !ok {
                s.bad("state", format!("{res:?} left {after:?}"));
            }
            result = format!("{:?}", res.map(|r| r.is_ok()));
        }
        1 => {
            let mut b = fresh_book(3);
            arm(f);
            let res = s.run(name, || b.save(&conn));
            settled(f);
            let rows = f.db.raw_rows("SELECT id FROM book").unwrap();
            match &res {
                Some(Ok(())) if rows.len() == 1 && b.id.map(|i| i.to_string()) == Some(match &rows[0][0] { Raw::Text(t) => t.clone(), o => o.show() }) => {}
                Some(Ok(())) => s.bad("state", format!("saved as {:?} but the table has {rows:?}", *b.id)),
                // a save also writes the labels, so the key may be known when it fails; the row has to be there then
                Some(Err(_)) if b.id.is_some() && rows.is_empty() => s.bad("marked-saved", format!("{res:?}, key {:?}", *b.id)),
                _ => {}
            }
            result = format!("{:?}", res.map(|r| r.is_ok()));
        }
        2 => {
            arm(f);
            let res = s.run(name, || Author::query().load(&conn));
            if let Some(Ok(rows)) = &res {
                let got: BTreeSet<String> = rows.iter().map(|a| a.name.clone()).collect();
                if got != before || rows.len() != before.len() {
                    s.bad("rows-missing", format!("load through a cut connection returned {} of {} rows", rows.len(), before.len()));
                }
            }
            result = format!("{:?}", res.map(|r| r.is_ok()));
        }
        3 => {
            arm(f);
            let res = s.run(name, || author("a0").delete(&conn));
            settled(f);
            let after = authors(&f.db);
            let gone: BTreeSet<String> = before.iter().filter(|n| *n != "a0").cloned().collect();
            let ok = match &res {
                Some(Ok(())) => after == gone,
                _ => after == gone || after == before,
            };
            if !ok {
                s.bad("state", format!("{res:?} left {after:?}"));
            }
            result = format!("{:?}", res.map(|r| r.is_ok()));
        }
        4 | 6 => {
            if op == 6 {
                arm(f);
            }
            let n = r.random_range(1..5);
            let at = below(r, n + 1);
            let ending = below(r, 4);
            if let Some(Ok(tr)) = s.run("begin", || conn.transaction()) {
                let mut failed = false;
                for i in 0..n {
                    if i == at && op == 4 {
                        arm(f);
                    }
                    failed |= matches!(s.run("save", || author(format!("t{i}")).save(&tr)), Some(Err(_)));
                }
                if at == n && op == 4 {
                    arm(f);
                }
                let res = match ending {
                    0 => s.run("rollback", || tr.rollback()).map(|r| r.map(|_| false)),
                    1 => {
                        let _ = s.run("drop", || {
                            drop(tr);
                            Ok(())
                        });
                        Some(Ok(false))
                    }
                    _ => s.run("commit", || tr.commit()).map(|r| r.map(|_| true)),
                };
                settled(f);
                let after = authors(&f.db);
                let names: Vec<String> = (0..n).map(|i| format!("t{i}")).collect();
                let full = with(&names.iter().map(|s| s.as_str()).collect::<Vec<_>>());
                let ok = match &res {
                    Some(Ok(true)) => after == full && !failed,
                    Some(Ok(false)) => after == before,
                    // whether a commit which was cut off happened cannot be known, but it is all or nothing
                    Some(Err(_)) if ending >= 2 && !failed => after == before || after == full,
                    Some(Err(_)) => after == before,
                    None => true,
                };
                if !ok {
                    s.bad("transaction-in-part", format!("ending {ending} gave {res:?}, a save failed: {failed}, the table has {after:?}"));
                }
                result = format!("{ending} {:?} {failed}", res.map(|r| r.is_ok()));
            }
        }
        5 => {
            arm(f);
            let mut a = author("ann");
            a.rank = 77;
            let res = s.run(name, || a.save(&conn));
            settled(f);
            let rank = f.db.raw_rows("SELECT rank FROM author WHERE name = 'ann'").unwrap();
            let ok = match &res {
                Some(Ok(())) => rank == vec![vec![Raw::Text("77".into())]],
                _ => rank == vec![vec![Raw::Text("77".into())]] || rank == vec![vec![Raw::Text("1".into())]],
            };
            if !ok {
                s.bad("state", format!("{res:?} left {rank:?}"));
            }
            result = format!("{:?}", res.map(|r| r.is_ok()));
        }
        _ => {
            if side < 2 {
                arm(f);
                if let Some(Ok(c)) = s.run(name, || connect(lane, &f.connstr)) {
                    {
                        use butane::FromSql;
                        let mut b = fresh_book(1);
                        b.id = AutoPk::<i64>::from_sql(butane::SqlVal::BigInt(1)).unwrap();
                        battery(&s, &c, &b);
                    }
                    result = "connected".into();
                }
            }
        }
    }
    let cut = side == 2 || f.proxy.cut();
    ctx.nontrivial(&("pg fault", name, side, cut, &result, k / 16));
    ctx.count(if cut { "PostgreSQL connections cut during an operation" } else { "PostgreSQL connections which outlived the operation" }, 1);
    // a broken connection goes on giving errors; it neither hangs nor lies
    f.proxy.arm(None, None);
    if cut && op != 7 {
        let res = s.run("load on the broken connection", || Author::query().load(&conn));
        if let (Some(Ok(rows)), true) = (&res, side != 1 || k > 0) {
            let names: BTreeSet<String> = rows.iter().map(|a| a.name.clone()).collect();
            if names != authors(&f.db) {
                s.bad("rows-missing", "a broken connection returned other rows than the table has".into());
            }
        }
        let _ = s.run("begin on the broken connection", || conn.transaction().map(|_| ()));
        let _ = s.run("is_closed", || Ok(butane::db::BackendConnection::is_closed(&conn)));
    }
    let _ = s.run("drop of the connection", || {
        drop(conn);
        Ok(())
    });
    match s.run("a new connection", || connect(lane, &f.connstr).and_then(|c| Author::query().load(&c))) {
        Some(Ok(v)) if v.len() == authors(&f.db).len() => {}
        x => s.bad("connection-lost", format!("{:?}", x.map(|r| r.map(|v| v.len())))),
    }
}
/// Statements the server gives up on, and servers which are not there.
fn pg_refusals(ctx: &Ctx) {
    let lane = Lane::Pg;
    let case = "pg-refusals";
    if !ctx.want(case) {
        return;
    }
    let mut db = Db::new(ctx, lane);
    let stored = small_world(&db);
    let s = Seen { ctx, lane, case, what: "statement_timeout".into() };
    db.raw_exec("CREATE FUNCTION slow() RETURNS trigger AS $$ BEGIN PERFORM pg_sleep(5); RETURN NEW; END $$ LANGUAGE plpgsql; CREATE TRIGGER slow BEFORE INSERT OR UPDATE ON book FOR EACH ROW EXECUTE FUNCTION slow()").unwrap();
    db.c().execute("SET statement_timeout = 100").unwrap();
    let got = battery(&s, db.c(), &stored);
    if got.get("insert") != Some(&false) || got.get("update") != Some(&false) {
        s.bad("timeout-ignored", format!("{got:?}"));
    }
    if got.get("query") != Some(&true) || got.get("upsert") != Some(&true) {
        s.bad("connection-lost", format!("{got:?}"));
    }
    {
        let tr = db.cm().transaction().unwrap();
        author("before").save(&tr).unwrap();
        let mut b = fresh_book(5);
        let e = s.run("save", || b.save(&tr));
        let after = s.run("save", || author("after").save(&tr));
        let c = s.run("commit", || tr.commit());
        if matches!(e, Some(Ok(()))) || matches!(after, Some(Ok(()))) {
            s.bad("timeout-ignored", format!("{e:?} {after:?}"));
        }
        let names = authors(&db);
        let kept = names.contains("before");
        if kept != matches!(c, Some(Ok(()))) && kept {
            s.bad("transaction-in-part", format!("commit gave {c:?} and the table has {names:?}"));
        }
        if matches!(c, Some(Ok(()))) && !kept {
            s.bad("commit-lied", format!("commit succeeded but nothing was committed: {names:?}"));
        }
    }
    let s = Seen { what: "read only".into(), ..s };
    db.c().execute("SET statement_timeout = 0").unwrap();
    db.c().execute("SET default_transaction_read_only = on").unwrap();
    let got = battery(&s, db.c(), &stored);
    if ["insert", "update", "upsert", "delete query"].iter().any(|w| got.get(w) == Some(&true)) || got.get("query") != Some(&true) {
        s.bad("wrote", format!("{got:?}"));
    }
    for spec in [
        "host=127.0.0.1 port=1 user=postgres dbname=x connect_timeout=5",
        "host=/no/such/dir user=postgres",
        &format!("host={} user=postgres dbname=nosuchdb", rtm::lane::pg_dir()),
        &format!("host={} user=nobody_known dbname=postgres", rtm::lane::pg_dir()),
        "host=127.0.0.1 port=99999999",
        "",
        "nonsense",
        "postgres://",
        "postgres://user@:0/x",
        "host=nosuchhost.invalid user=x connect_timeout=5",
    ] {
        let s = Seen { what: format!("connection string {spec:?}"), ..Seen { ctx, lane, case, what: String::new() } };
        if matches!(s.run("connect", || connect(lane, spec)), Some(Ok(_))) {
            s.bad("connected", "connecting succeeded".into());
        }
        let _ = s.run("connect", || rt().block_on(connect_async(lane, spec)).map(|_| ()));
        ctx.nontrivial(&("refusal", spec));
    }
}

fn main() {
    let ctx = Arc::new(Ctx::new("C22", 45, 900));
    ctx.rule("a column whose content stands for no value of its field, or a fault, that an operation met; distinct by backend and content or fault");
    ctx.watchdog(60, Some("hang"));
    ctx.parallel(&Lane::ALL, |lane| {
        if lane == Lane::Pg {
            pg_refusals(&ctx);
        }
        if lane == Lane::Sqlite || lane == Lane::SqliteAdapted {
            ctx.cases(&format!("fault/{}", lane.name()), 0.2, 30, 1_000_000, |case, r| sqlite_faults(&ctx, lane, r, case));
        }
        if lane == Lane::Sqlite {
            ctx.cases("file", 0.3, 20, 1_000_000, |case, r| sqlite_files(&ctx, r, case));
        }
        if lane == Lane::Pg {
            let mut f = PgFaults::new(&ctx);
            ctx.cases("cut", 0.4, 30, 1_000_000, |case, r| pg_faults(&ctx, &mut f, r, case));
        }
        changed_schema(&ctx, lane);
        bookkeeping(&ctx, lane);
        if lane == Lane::Pg {
            return pg_types(&ctx);
        }
        let mut db = open_tables(&ctx, lane);
        ctx.cases(&format!("data/{}", lane.name()), 1.0, 20, 1_000_000, |case, r| match catch(|| bad_data(&ctx, &db, r, case)) {
            Err(p) if lane == Lane::Turso && p.contains("Corrupt") => {
                // the engine spoils its own indexes when rows are updated
                ctx.count("databases which the Turso engine corrupted", 1);
                db = open_tables(&ctx, lane);
            }
            Err(p) => panic!("{p}"),
            Ok(()) => {}
        });
    });
    ctx.finish();
}
