//! An independent model of filters: expressions evaluated in three-valued logic over in-memory rows.
use std::cmp::Ordering;
use std::collections::BTreeMap;

use butane::query::{BoolExpr, Expr, Join};
use butane::SqlVal;

use crate::lane::Lane;

pub type Row = BTreeMap<String, SqlVal>;
#[derive(Default, Clone, Debug)]
pub struct World {
    pub tables: BTreeMap<String, Vec<Row>>,
}

fn num(v: &SqlVal) -> Option<f64> {
    match v {
        SqlVal::Real(f) => Some(*f),
        _ => None,
    }
}
fn int(v: &SqlVal) -> Option<i64> {
    match v {
        SqlVal::Int(i) => Some(*i as i64),
        SqlVal::BigInt(i) => Some(*i),
        _ => None,
    }
}
/// SQL comparison; None = unknown.
pub fn cmp(a: &SqlVal, b: &SqlVal) -> Option<Ordering> {
    use SqlVal::*;
    match (a, b) {
        (Null, _) | (_, Null) => None,
        (Bool(x), Bool(y)) => Some(x.cmp(y)),
        (Text(x), Text(y)) => Some(x.as_bytes().cmp(y.as_bytes())),
        (Blob(x), Blob(y)) => Some(x.cmp(y)),
        (Date(x), Date(y)) => Some(x.cmp(y)),
        (Timestamp(x), Timestamp(y)) => Some(x.cmp(y)),
        _ => match (int(a), int(b)) {
            (Some(x), Some(y)) => Some(x.cmp(&y)),
            _ => {
                let x = num(a).or(int(a).map(|i| i as f64));
                let y = num(b).or(int(b).map(|i| i as f64));
                match (x, y) {
                    (Some(x), Some(y)) => x.partial_cmp(&y),
                    _ => panic!("oracle: incomparable {a:?} {b:?}"),
                }
            }
        },
    }
}
pub fn like(text: &str, pat: &str, ci: bool) -> bool {
    let fold = |s: &str| -> Vec<char> {
        s.chars().map(|c| if ci { c.to_ascii_lowercase() } else { c }).collect()
    };
    let (t, p) = (fold(text), fold(pat));
    // dynamic programming over pattern positions
    let mut cur = vec![false; t.len() + 1];
    cur[0] = true;
    for pc in p {
        let mut next = vec![false; t.len() + 1];
        match pc {
            '%' => {
                let mut any = false;
                for i in 0..=t.len() {
                    any |= cur[i];
                    next[i] = any;
                }
            }
            '_' => next[1..].copy_from_slice(&cur[..t.len()]),
            c => {
                for i in 0..t.len() {
                    next[i + 1] = cur[i] && t[i] == c;
                }
            }
        }
        cur = next;
    }
    cur[t.len()]
}

pub fn not3(a: Option<bool>) -> Option<bool> {
    a.map(|x| !x)
}
pub fn and3(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}
pub fn or3(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    not3(and3(not3(a), not3(b)))
}
fn in3<'a>(v: &SqlVal, set: impl Iterator<Item = &'a SqlVal>) -> Option<bool> {
    let mut r = Some(false);
    for s in set {
        r = or3(r, cmp(v, s).map(|o| o == Ordering::Equal));
    }
    r
}

impl World {
    fn value(&self, lane: Lane, row: &Row, e: &Expr) -> SqlVal {
        match e {
            Expr::Column(c) => row[*c].clone(),
            Expr::Val(v) => v.clone(),
            Expr::Condition(c) => match self.eval(lane, row, c) {
                None => SqlVal::Null,
                Some(b) => SqlVal::Bool(b),
            },
            Expr::Placeholder => panic!("oracle: placeholder"),
        }
    }
    fn cmp_op(&self, lane: Lane, row: &Row, c: &str, e: &Expr, f: impl Fn(Ordering) -> bool) -> Option<bool> {
        cmp(&row[c], &self.value(lane, row, e)).map(f)
    }
    /// Truth value of `e` on `row`.
    pub fn eval(&self, lane: Lane, row: &Row, e: &BoolExpr) -> Option<bool> {
        use BoolExpr::*;
        match e {
            True => Some(true),
            Eq(c, Expr::Val(SqlVal::Null)) => Some(row[*c] == SqlVal::Null),
            Ne(c, Expr::Val(SqlVal::Null)) => Some(row[*c] != SqlVal::Null),
            Eq(c, e) => self.cmp_op(lane, row, c, e, |o| o == Ordering::Equal),
            Ne(c, e) => self.cmp_op(lane, row, c, e, |o| o != Ordering::Equal),
            Lt(c, e) => self.cmp_op(lane, row, c, e, |o| o == Ordering::Less),
            Gt(c, e) => self.cmp_op(lane, row, c, e, |o| o == Ordering::Greater),
            Le(c, e) => self.cmp_op(lane, row, c, e, |o| o != Ordering::Greater),
            Ge(c, e) => self.cmp_op(lane, row, c, e, |o| o != Ordering::Less),
            Like(c, e) => match (&row[*c], self.value(lane, row, e)) {
                (SqlVal::Text(t), SqlVal::Text(p)) => Some(like(t, &p, lane != Lane::Pg)),
                (SqlVal::Null, _) | (_, SqlVal::Null) => None,
                (a, b) => panic!("oracle: like {a:?} {b:?}"),
            },
            AllOf(v) => v.iter().fold(Some(true), |a, x| and3(a, self.eval(lane, row, x))),
            And(a, b) => and3(self.eval(lane, row, a), self.eval(lane, row, b)),
            Or(a, b) => or3(self.eval(lane, row, a), self.eval(lane, row, b)),
            Not(a) => not3(self.eval(lane, row, a)),
            In(c, vals) => in3(&row[*c], vals.iter()),
            Subquery { col, tbl2, tbl2_col, expr } => {
                let empty = vec![];
                let vals: Vec<SqlVal> = self
                    .tables
                    .get(tbl2.as_ref())
                    .unwrap_or(&empty)
                    .iter()
                    .filter(|r| self.eval(lane, r, expr) == Some(true))
                    .map(|r| r[*tbl2_col].clone())
                    .collect();
                in3(&row[*col], vals.iter())
            }
            SubqueryJoin { col, tbl2, col2, joins, expr } => {
                let empty = vec![];
                // rows with qualified and unqualified names
                let qualify = |t: &str, r: &Row| -> Row {
                    r.iter().flat_map(|(k, v)| [(k.clone(), v.clone()), (format!("{t}.{k}"), v.clone())]).collect()
                };
                let mut rows: Vec<Row> =
                    self.tables.get(tbl2.as_ref()).unwrap_or(&empty).iter().map(|r| qualify(tbl2, r)).collect();
                for j in joins {
                    let Join::Inner { join_table, col1, col2 } = j;
                    let name = |c: &butane::query::Column| match c.table() {
                        Some(t) => format!("{t}.{}", c.name()),
                        None => c.name().to_string(),
                    };
                    let mut out = vec![];
                    for r in &rows {
                        for r2 in self.tables.get(*join_table).unwrap_or(&empty) {
                            let mut m = r.clone();
                            m.extend(qualify(join_table, r2));
                            if cmp(&m[&name(col1)], &m[&name(col2)]) == Some(Ordering::Equal) {
                                out.push(m);
                            }
                        }
                    }
                    rows = out;
                }
                let key = match col2.table() {
                    Some(t) => format!("{t}.{}", col2.name()),
                    None => col2.name().to_string(),
                };
                // the filter speaks about the table selected last joined from (the member model): its
                // columns must win over same-named columns of the join table
                let vals: Vec<SqlVal> = rows
                    .iter()
                    .filter(|r| {
                        let mut view = (*r).clone();
                        let prefix = format!("{tbl2}.");
                        for (k, v) in r.iter() {
                            if let Some(c) = k.strip_prefix(&prefix) {
                                view.insert(c.to_string(), v.clone());
                            }
                        }
                        self.eval(lane, &view, expr) == Some(true)
                    })
                    .map(|r| r[&key].clone())
                    .collect();
                in3(&row[*col], vals.iter())
            }
        }
    }
    pub fn select<'a>(&'a self, lane: Lane, table: &str, e: &BoolExpr) -> Vec<&'a Row> {
        self.tables.get(table).map(|t| t.iter().filter(|r| self.eval(lane, r, e) == Some(true)).collect()).unwrap_or_default()
    }
}

pub fn depth(e: &BoolExpr) -> usize {
    use BoolExpr::*;
    match e {
        AllOf(v) => 1 + v.iter().map(depth).max().unwrap_or(0),
        And(a, b) | Or(a, b) => 1 + depth(a).max(depth(b)),
        Not(a) => 1 + depth(a),
        Subquery { expr, .. } | SubqueryJoin { expr, .. } => 1 + depth(expr),
        _ => 1,
    }
}
/// The kinds of nodes in the expression, parent above child, for coverage counting.
pub fn shapes(e: &BoolExpr, parent: &str, out: &mut std::collections::BTreeSet<String>) {
    use BoolExpr::*;
    let (name, kids): (&str, Vec<&BoolExpr>) = match e {
        True => ("True", vec![]),
        Eq(..) => ("Eq", vec![]),
        Ne(..) => ("Ne", vec![]),
        Lt(..) => ("Lt", vec![]),
        Gt(..) => ("Gt", vec![]),
        Le(..) => ("Le", vec![]),
        Ge(..) => ("Ge", vec![]),
        Like(..) => ("Like", vec![]),
        AllOf(v) => ("AllOf", v.iter().collect()),
        And(a, b) => ("And", vec![a, b]),
        Or(a, b) => ("Or", vec![a, b]),
        Not(a) => ("Not", vec![a]),
        In(..) => ("In", vec![]),
        Subquery { expr, .. } => ("Subquery", vec![expr]),
        SubqueryJoin { expr, .. } => ("SubqueryJoin", vec![expr]),
    };
    out.insert(format!("{parent}>{name}"));
    for k in kids {
        shapes(k, name, out);
    }
}
