//! A small library (authors, labels, books, a node tree, teams) stored through butane, with its
//! in-memory counterpart.
use butane::db::ConnectionMethods;
use butane::query::{BoolExpr, Expr, FieldExpr};
use butane::{AutoPk, DataObject, DataObjectOpsSync, ForeignKey, Many, SqlVal, ToSql};
use rand::prelude::{SliceRandom};
use rand::Rng as _;

use crate::ctx::Rng;
use crate::gen::*;
use crate::models::*;
use crate::oracle::{Row, World};

#[derive(Default)]
pub struct Library {
    pub authors: Vec<Author>,
    pub labels: Vec<Label>,
    /// with the indices of labels and of extra labels
    pub books: Vec<(Book, Vec<usize>, Vec<usize>)>,
    pub nodes: Vec<(Node, Option<usize>, Vec<usize>)>,
    pub texts: Vec<KText>,
    pub teams: Vec<(Team, Vec<usize>, Vec<usize>)>,
}

pub fn small_f64(r: &mut Rng) -> f64 {
    r.random_range(-4..5) as f64 / 2.0
}
pub fn small_i64(r: &mut Rng) -> i64 {
    if chance(r, 0.1) {
        i64v(r)
    } else {
        r.random_range(-2..4)
    }
}
pub fn small_i32(r: &mut Rng) -> i32 {
    if chance(r, 0.08) {
        i32v(r)
    } else {
        r.random_range(-2..4)
    }
}
fn unique_texts(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut tries = 0;
    while v.len() < n && tries < 200 {
        tries += 1;
        // keys: PostgreSQL cannot index values of more than 2700 bytes
        let t: String = if chance(r, 0.7) { tiny(r) } else { text(r).chars().take(300).collect() };
        if !v.contains(&t) {
            v.push(t);
        }
    }
    v
}
pub fn gen_book(r: &mut Rng, authors: &[Author]) -> Book {
    Book {
        id: AutoPk::uninitialized(),
        title: if chance(r, 0.8) { tiny(r) } else { text(r) },
        pages: small_i32(r),
        price: small_f64(r),
        big: small_i64(r),
        instock: r.random(),
        sub: opt(r, 0.35, tiny),
        year: opt(r, 0.35, small_i32),
        rating: opt(r, 0.35, small_f64),
        author: ForeignKey::from_pk(pick(r, authors).name.clone()),
        editor: opt(r, 0.4, |r| ForeignKey::from_pk(pick(r, authors).name.clone())),
        labels: Many::new(),
        extra: Many::new(),
    }
}
fn subset(r: &mut Rng, n: usize, p: f64) -> Vec<usize> {
    (0..n).filter(|_| r.random_bool(p)).collect()
}

impl Library {
    pub fn generate(r: &mut Rng, size: usize) -> Library {
        let na = 1 + below(r, size.min(6));
        let mut lib = Library {
            authors: unique_texts(r, na)
                .into_iter()
                .map(|name| Author { name, rank: small_i32(r), bio: opt(r, 0.4, tiny) })
                .collect(),
            ..Default::default()
        };
        let nl = below(r, 6);
        let mut codes: Vec<i32> = vec![0, 1, -1, 2, 3, 7, 100, i32::MAX, i32::MIN];
        codes.shuffle(r);
        lib.labels = codes[..nl]
            .iter()
            .map(|&code| Label { code, text: tiny(r), prio: opt(r, 0.4, small_i64) })
            .collect();
        let nb = below(r, size + 1);
        for _ in 0..nb {
            let mut b = gen_book(r, &lib.authors);
            let ls = subset(r, lib.labels.len(), 0.4);
            let es = subset(r, lib.labels.len(), 0.2);
            for &i in &ls {
                b.labels.add(&lib.labels[i]).unwrap();
            }
            for &i in &es {
                b.extra.add(&lib.labels[i]).unwrap();
            }
            lib.books.push((b, ls, es));
        }
        let nn = below(r, size.min(7) + 1);
        for i in 0..nn {
            let p = if i > 0 { opt(r, 0.3, |r| below(r, i)) } else { None };
            let ls = subset(r, i, 0.3);
            lib.nodes.push((Node { id: AutoPk::uninitialized(), name: tiny(r), parent: None, links: Many::new() }, p, ls));
        }
        let nt = below(r, 4);
        lib.texts = unique_texts(r, nt)
            .into_iter()
            .map(|key| KText { key, v: tiny(r), n: opt(r, 0.4, small_i64) })
            .collect();
        let nteams = below(r, 4);
        for name in unique_texts(r, nteams) {
            let mut t = Team {
                name,
                slogan: tiny(r),
                labels: Many::new(),
                words: Many::new(),
                autos: Many::new(),
                uuids: Many::new(),
            };
            let ls = subset(r, lib.labels.len(), 0.4);
            let ws = subset(r, lib.texts.len(), 0.5);
            for &i in &ls {
                t.labels.add(&lib.labels[i]).unwrap();
            }
            for &i in &ws {
                t.words.add(&lib.texts[i]).unwrap();
            }
            lib.teams.push((t, ls, ws));
        }
        lib
    }
    pub fn store(&mut self, c: &impl ConnectionMethods) -> butane::Result<()> {
        for a in &mut self.authors {
            a.save(c)?;
        }
        for l in &mut self.labels {
            l.save(c)?;
        }
        for (b, _, _) in &mut self.books {
            b.save(c)?;
        }
        for i in 0..self.nodes.len() {
            let parent = self.nodes[i].1.map(|p| ForeignKey::from_pk(self.nodes[p].0.id.clone()));
            let links: Vec<Node> = self.nodes[i].2.iter().map(|&l| self.nodes[l].0.clone()).collect();
            let n = &mut self.nodes[i].0;
            n.parent = parent;
            for l in &links {
                n.links.add(l)?;
            }
            n.save(c)?;
        }
        for t in &mut self.texts {
            t.save(c)?;
        }
        for (t, _, _) in &mut self.teams {
            t.save(c)?;
        }
        Ok(())
    }
    pub fn world(&self) -> World {
        let mut w = World::default();
        let row = |v: Vec<(&str, SqlVal)>| -> Row { v.into_iter().map(|(k, v)| (k.to_string(), v)).collect() };
        w.tables.insert("Author".into(), self.authors.iter().map(author_row).collect());
        w.tables.insert("Label".into(), self.labels.iter().map(label_row).collect());
        w.tables.insert("Book".into(), self.books.iter().map(|b| book_row(&b.0)).collect());
        let mut join = |name: &str, pairs: Vec<(SqlVal, SqlVal)>| {
            w.tables.insert(name.into(), pairs.into_iter().map(|(o, h)| row(vec![("owner", o), ("has", h)])).collect());
        };
        let label_pairs = |owner: SqlVal, v: &[usize]| -> Vec<(SqlVal, SqlVal)> {
            v.iter().map(|&i| (owner.clone(), SqlVal::Int(self.labels[i].code))).collect()
        };
        join("Book_labels_Many", self.books.iter().flat_map(|(b, l, _)| label_pairs(b.id.to_sql(), l)).collect());
        join("Book_extra_Many", self.books.iter().flat_map(|(b, _, l)| label_pairs(b.id.to_sql(), l)).collect());
        join(
            "Node_links_Many",
            self.nodes
                .iter()
                .flat_map(|(n, _, l)| {
                    l.iter().map(|&i| (n.id.to_sql(), self.nodes[i].0.id.to_sql())).collect::<Vec<_>>()
                })
                .collect(),
        );
        join("Team_labels_Many", self.teams.iter().flat_map(|(t, l, _)| label_pairs(t.name.to_sql(), l)).collect());
        join(
            "Team_words_Many",
            self.teams
                .iter()
                .flat_map(|(t, _, l)| {
                    l.iter().map(|&i| (t.name.to_sql(), self.texts[i].key.to_sql())).collect::<Vec<_>>()
                })
                .collect(),
        );
        w.tables.insert(
            "Node".into(),
            self.nodes
                .iter()
                .map(|(n, _, _)| {
                    row(vec![("id", n.id.to_sql()), ("name", n.name.to_sql()), ("parent", n.parent.to_sql())])
                })
                .collect(),
        );
        w.tables.insert(
            "KText".into(),
            self.texts
                .iter()
                .map(|t| row(vec![("key", t.key.to_sql()), ("v", t.v.to_sql()), ("n", t.n.to_sql())]))
                .collect(),
        );
        w.tables.insert(
            "Team".into(),
            self.teams.iter().map(|(t, _, _)| row(vec![("name", t.name.to_sql()), ("slogan", t.slogan.to_sql())])).collect(),
        );
        w
    }
}
pub fn author_row(a: &Author) -> Row {
    [("name", SqlVal::Text(a.name.clone())), ("rank", SqlVal::Int(a.rank)), ("bio", otext(&a.bio))]
        .into_iter()
        .map(|(k, v)| (k.to_string(), v))
        .collect()
}
pub fn label_row(l: &Label) -> Row {
    [
        ("code", SqlVal::Int(l.code)),
        ("text", SqlVal::Text(l.text.clone())),
        ("prio", l.prio.map(SqlVal::BigInt).unwrap_or(SqlVal::Null)),
    ]
    .into_iter()
    .map(|(k, v)| (k.to_string(), v))
    .collect()
}
fn otext(o: &Option<String>) -> SqlVal {
    o.clone().map(SqlVal::Text).unwrap_or(SqlVal::Null)
}
pub fn book_row(b: &Book) -> Row {
    [
        ("id", SqlVal::BigInt(b.id.unwrap_or(-999_999))),
        ("title", SqlVal::Text(b.title.clone())),
        ("pages", SqlVal::Int(b.pages)),
        ("price", SqlVal::Real(b.price)),
        ("big", SqlVal::BigInt(b.big)),
        ("instock", SqlVal::Bool(b.instock)),
        ("sub", otext(&b.sub)),
        ("year", b.year.map(SqlVal::Int).unwrap_or(SqlVal::Null)),
        ("rating", b.rating.map(SqlVal::Real).unwrap_or(SqlVal::Null)),
        ("author", SqlVal::Text(b.author.pk())),
        ("editor", b.editor.as_ref().map(|e| SqlVal::Text(e.pk())).unwrap_or(SqlVal::Null)),
    ]
    .into_iter()
    .map(|(k, v)| (k.to_string(), v))
    .collect()
}

// ---- random filters -------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum T {
    Text,
    I32,
    I64,
    F64,
    Bool,
}
pub struct Tbl {
    pub name: &'static str,
    pub pk: &'static str,
    pub cols: &'static [(&'static str, T)],
    /// column, nullable?, referenced table
    pub fks: &'static [(&'static str, &'static str)],
    pub manys: &'static [(&'static str, &'static str)],
}
pub const BOOK: Tbl = Tbl {
    name: "Book",
    pk: "id",
    cols: &[
        ("id", T::I64),
        ("title", T::Text),
        ("pages", T::I32),
        ("price", T::F64),
        ("big", T::I64),
        ("instock", T::Bool),
        ("sub", T::Text),
        ("year", T::I32),
        ("rating", T::F64),
        ("author", T::Text),
        ("editor", T::Text),
    ],
    fks: &[("author", "Author"), ("editor", "Author")],
    manys: &[("Book_labels_Many", "Label"), ("Book_extra_Many", "Label")],
};
pub const AUTHOR: Tbl =
    Tbl { name: "Author", pk: "name", cols: &[("name", T::Text), ("rank", T::I32), ("bio", T::Text)], fks: &[], manys: &[] };
pub const LABEL: Tbl =
    Tbl { name: "Label", pk: "code", cols: &[("code", T::I32), ("text", T::Text), ("prio", T::I64)], fks: &[], manys: &[] };
pub const NODE: Tbl = Tbl {
    name: "Node",
    pk: "id",
    cols: &[("id", T::I64), ("name", T::Text), ("parent", T::I64)],
    fks: &[("parent", "Node")],
    manys: &[("Node_links_Many", "Node")],
};
pub const KTEXT: Tbl =
    Tbl { name: "KText", pk: "key", cols: &[("key", T::Text), ("v", T::Text), ("n", T::I64)], fks: &[], manys: &[] };
pub const TEAM: Tbl = Tbl {
    name: "Team",
    pk: "name",
    cols: &[("name", T::Text), ("slogan", T::Text)],
    fks: &[],
    manys: &[("Team_labels_Many", "Label"), ("Team_words_Many", "KText")],
};
pub const TABLES: [&Tbl; 6] = [&BOOK, &AUTHOR, &LABEL, &NODE, &KTEXT, &TEAM];
pub fn tbl(name: &str) -> &'static Tbl {
    TABLES.iter().find(|t| t.name == name).unwrap()
}

fn value(r: &mut Rng, w: &World, table: &str, col: &str, t: T) -> SqlVal {
    // often a value that is stored
    if chance(r, 0.5) {
        let rows = &w.tables[table];
        if !rows.is_empty() {
            let v = &rows[below(r, rows.len())][col];
            if *v != SqlVal::Null {
                return v.clone();
            }
        }
    }
    match t {
        T::Text => SqlVal::Text(if chance(r, 0.8) { tiny(r) } else { text(r) }),
        T::I32 => SqlVal::Int(small_i32(r)),
        T::I64 => SqlVal::BigInt(small_i64(r)),
        T::F64 => SqlVal::Real(small_f64(r)),
        T::Bool => SqlVal::Bool(r.random()),
    }
}
fn pattern(r: &mut Rng, w: &World, table: &str, col: &str) -> String {
    let base = match value(r, w, table, col, T::Text) {
        SqlVal::Text(t) => t,
        _ => String::new(),
    };
    // a backslash is an escape character in some backends and not in others; stay away from it
    let mut p: String = base.chars().filter(|c| *c != '\\').take(20).collect();
    match below(r, 5) {
        0 => p = format!("{p}%"),
        1 => p = format!("%{p}"),
        2 => p = format!("%{p}%"),
        3 => {
            p = p.chars().map(|c| if r.random_bool(0.4) { '_' } else { c }).collect();
        }
        _ => {}
    }
    p
}
pub fn leaf(r: &mut Rng, w: &World, t: &'static Tbl) -> BoolExpr {
    let (c, ty) = *pick(r, t.cols);
    let v = |r: &mut Rng| Expr::Val(value(r, w, t.name, c, ty));
    match below(r, 13) {
        0 | 1 => BoolExpr::Eq(c, v(r)),
        2 => BoolExpr::Ne(c, v(r)),
        3 if ty != T::Bool => BoolExpr::Lt(c, v(r)),
        4 if ty != T::Bool => BoolExpr::Gt(c, v(r)),
        5 if ty != T::Bool => BoolExpr::Le(c, v(r)),
        6 if ty != T::Bool => BoolExpr::Ge(c, v(r)),
        7 if ty == T::Text => BoolExpr::Like(c, Expr::Val(SqlVal::Text(pattern(r, w, t.name, c)))),
        8 => {
            let n = below(r, 6);
            BoolExpr::In(c, (0..n).map(|_| value(r, w, t.name, c, ty)).collect())
        }
        9 => BoolExpr::Eq(c, Expr::Val(SqlVal::Null)),
        10 => BoolExpr::Ne(c, Expr::Val(SqlVal::Null)),
        11 => {
            // column against column of the same type
            let same: Vec<&(&'static str, T)> = t.cols.iter().filter(|x| x.1 == ty).collect();
            let c2 = pick(r, &same).0;
            match below(r, 3) {
                0 => BoolExpr::Eq(c, Expr::Column(c2)),
                1 if ty != T::Bool => BoolExpr::Lt(c, Expr::Column(c2)),
                _ => BoolExpr::Ne(c, Expr::Column(c2)),
            }
        }
        12 if chance(r, 0.2) => BoolExpr::True,
        _ => BoolExpr::Eq(c, v(r)),
    }
}
pub fn expr(r: &mut Rng, w: &World, t: &'static Tbl, depth: usize) -> BoolExpr {
    if depth == 0 || chance(r, 0.2) {
        return leaf(r, w, t);
    }
    match below(r, 12) {
        0..=2 => BoolExpr::And(Box::new(expr(r, w, t, depth - 1)), Box::new(expr(r, w, t, depth - 1))),
        3..=5 => BoolExpr::Or(Box::new(expr(r, w, t, depth - 1)), Box::new(expr(r, w, t, depth - 1))),
        6 | 7 => BoolExpr::Not(Box::new(expr(r, w, t, depth - 1))),
        8 => {
            let n = below(r, 4);
            BoolExpr::AllOf((0..n).map(|_| expr(r, w, t, depth - 1)).collect())
        }
        9 if !t.fks.is_empty() => {
            let (col, t2) = *pick(r, t.fks);
            let t2 = tbl(t2);
            let inner = expr(r, w, t2, depth - 1);
            subfilter(t2, col, inner)
        }
        10 | 11 if !t.manys.is_empty() => {
            let (table, t2) = *pick(r, t.manys);
            let t2 = tbl(t2);
            let inner = expr(r, w, t2, depth - 1);
            contains(t, table, t2, inner)
        }
        _ => leaf(r, w, t),
    }
}
/// What `FieldExpr::subfilter` builds.
pub fn subfilter(t2: &'static Tbl, col: &'static str, inner: BoolExpr) -> BoolExpr {
    match t2.name {
        "Author" => FieldExpr::<ForeignKey<Author>>::new(col).subfilter(inner),
        "Node" => FieldExpr::<ForeignKey<Node>>::new(col).subfilter(inner),
        o => panic!("subfilter {o}"),
    }
}
pub fn contains(t: &'static Tbl, many: &'static str, t2: &'static Tbl, inner: BoolExpr) -> BoolExpr {
    use butane::query::ManyFieldExpr as M;
    match (t.name, t2.name) {
        ("Book", "Label") => M::<Book, Label>::new(many).contains(inner),
        ("Node", "Node") => M::<Node, Node>::new(many).contains(inner),
        ("Team", "Label") => M::<Team, Label>::new(many).contains(inner),
        ("Team", "KText") => M::<Team, KText>::new(many).contains(inner),
        o => panic!("contains {o:?}"),
    }
}
/// Rows of model `table` matching `e`, as (pk, row) via butane.
pub fn load_rows(c: &impl ConnectionMethods, table: &str, q: QueryMod) -> butane::Result<Vec<Row>> {
    use butane::query::QueryOpsSync;
    use butane::DataResult;
    fn apply<T: DataObject>(q: QueryMod) -> butane::query::Query<T> {
        let mut x = <T as DataResult>::query();
        if let Some(e) = q.filter {
            x = x.filter(e);
        }
        for (c, asc) in q.order {
            x = if asc { x.order_asc(c) } else { x.order_desc(c) };
        }
        if let Some(l) = q.limit {
            x = x.limit(l);
        }
        if let Some(o) = q.offset {
            x = x.offset(o);
        }
        x
    }
    Ok(match table {
        "Book" => apply::<Book>(q).load(c)?.iter().map(book_row).collect(),
        "Author" => apply::<Author>(q).load(c)?.iter().map(author_row).collect(),
        "Label" => apply::<Label>(q).load(c)?.iter().map(label_row).collect(),
        "Node" => apply::<Node>(q)
            .load(c)?
            .iter()
            .map(|n| {
                [("id", n.id.to_sql()), ("name", n.name.to_sql()), ("parent", n.parent.to_sql())]
                    .into_iter()
                    .map(|(k, v)| (k.to_string(), v))
                    .collect()
            })
            .collect(),
        "KText" => apply::<KText>(q)
            .load(c)?
            .iter()
            .map(|t| {
                [("key", t.key.to_sql()), ("v", t.v.to_sql()), ("n", t.n.to_sql())]
                    .into_iter()
                    .map(|(k, v)| (k.to_string(), v))
                    .collect()
            })
            .collect(),
        "Team" => apply::<Team>(q)
            .load(c)?
            .iter()
            .map(|t| {
                [("name", t.name.to_sql()), ("slogan", t.slogan.to_sql())]
                    .into_iter()
                    .map(|(k, v)| (k.to_string(), v))
                    .collect()
            })
            .collect(),
        o => panic!("{o}"),
    })
}
#[derive(Default, Clone, Debug)]
pub struct QueryMod {
    pub filter: Option<BoolExpr>,
    pub order: Vec<(&'static str, bool)>,
    pub limit: Option<i32>,
    pub offset: Option<i32>,
}
pub fn show_row(r: &Row) -> String {
    r.iter().map(|(k, v)| format!("{k}={v:?}")).collect::<Vec<_>>().join(" ")
}
pub fn show_rows<'a>(rows: impl IntoIterator<Item = &'a Row>) -> Vec<String> {
    let mut v: Vec<String> = rows.into_iter().map(show_row).collect();
    v.sort();
    v
}
