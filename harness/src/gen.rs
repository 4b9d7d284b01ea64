//! Random values, biased towards edges and hostile content.
use rand::Rng as _;

use crate::ctx::Rng;

pub fn chance(r: &mut Rng, p: f64) -> bool {
    r.random_bool(p)
}
pub fn pick<'a, T>(r: &mut Rng, v: &'a [T]) -> &'a T {
    &v[r.random_range(0..v.len())]
}
pub fn below(r: &mut Rng, n: usize) -> usize {
    r.random_range(0..n)
}
pub fn opt<T>(r: &mut Rng, p_none: f64, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if chance(r, p_none) {
        None
    } else {
        Some(f(r))
    }
}

pub fn i64v(r: &mut Rng) -> i64 {
    match below(r, 8) {
        0 => *pick(
            r,
            &[
                0,
                1,
                -1,
                i64::MAX,
                i64::MIN,
                i32::MAX as i64,
                i32::MIN as i64,
                i32::MAX as i64 + 1,
                i32::MIN as i64 - 1,
                u32::MAX as i64,
                u32::MAX as i64 + 1,
                1 << 53,
                (1 << 53) + 1,
                -(1 << 53) - 1,
            ],
        ),
        1 => r.random::<i64>(),
        2 => r.random::<i32>() as i64,
        3 => (1i64 << below(r, 63)) + r.random_range(-1..2),
        _ => r.random_range(-20..100),
    }
}
macro_rules! small_int {
    ($n:ident, $t:ty) => {
        pub fn $n(r: &mut Rng) -> $t {
            match below(r, 5) {
                0 => <$t>::MAX,
                1 => <$t>::MIN,
                2 => <$t>::MAX / 2 + 1,
                _ => r.random(),
            }
        }
    };
}
small_int!(i8v, i8);
small_int!(u8v, u8);
small_int!(i16v, i16);
small_int!(u16v, u16);
small_int!(i32v, i32);
small_int!(u32v, u32);

pub fn f64v(r: &mut Rng) -> f64 {
    match below(r, 6) {
        0 => *pick(
            r,
            &[
                0.0,
                -0.0,
                1.0,
                -1.0,
                0.1,
                f64::MAX,
                f64::MIN,
                f64::MIN_POSITIVE,
                5e-324,
                f64::EPSILON,
                1e300,
                -1e-300,
                9007199254740993.0,
                1.0 / 3.0,
                123456789.987654321,
            ],
        ),
        1 => loop {
            let f = f64::from_bits(r.random());
            if f.is_finite() {
                break f;
            }
        },
        2 => r.random_range(-1000..1000) as f64,
        _ => r.random::<f64>() * 200.0 - 100.0,
    }
}
pub fn f32v(r: &mut Rng) -> f32 {
    match below(r, 5) {
        0 => *pick(r, &[0.0, -0.0, 1.5, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 0.1, 16777217.0]),
        1 => loop {
            let f = f32::from_bits(r.random());
            if f.is_finite() {
                break f;
            }
        },
        _ => r.random::<f32>() * 200.0 - 100.0,
    }
}

pub const HOSTILE: &[&str] = &[
    "",
    " ",
    "'",
    "''",
    "\"",
    "\"\"",
    "`",
    "\\",
    "\\'",
    "%",
    "_",
    "a%b_c",
    ";",
    "--",
    "/*",
    "*/",
    "'; DROP TABLE Book; --",
    "x'); DELETE FROM Author; --",
    "\"; DROP TABLE Author; --",
    "a;b;c",
    "a;\nb",
    "NULL",
    "null",
    "TRUE",
    "0",
    "1",
    "-1",
    "1e5",
    " 42 ",
    "0x10",
    "$1",
    "$2",
    "?",
    "?1",
    ":a",
    "@a",
    "$$",
    "$tag$",
    "E'\\n'",
    "x'00'",
    "\t",
    "\n",
    "\r\n",
    "line1\nline2",
    "ünïcödé",
    "日本語",
    "🦀",
    "e\u{301}",
    "\u{feff}bom",
    "\u{200b}",
    "İıſß",
    "{\"a\": 1}",
    "[]",
    "SELECT",
    "(SELECT 1)",
    "' OR '1'='1",
    "\" OR \"\"=\"",
    "2024-01-01",
    "2024-01-01T00:00:00",
    "{}",
    "#",
    "\"#",
    "a IN (SELECT has FROM b)",
    " IN (SELECT x FROM y WHERE z = ? ",
];
/// Any text without NUL (which PostgreSQL refuses).
pub fn text(r: &mut Rng) -> String {
    match below(r, 8) {
        0 | 1 => (*pick(r, HOSTILE)).to_string(),
        2 => {
            let a = *pick(r, HOSTILE);
            let b = *pick(r, HOSTILE);
            format!("{a}{b}")
        }
        3 => {
            let n = below(r, 12);
            (0..n)
                .map(|_| loop {
                    let c: char = r.random();
                    if c != '\0' {
                        break c;
                    }
                })
                .collect()
        }
        4 => {
            let n = if chance(r, 0.1) { 5000 } else { 60 };
            let n = below(r, n);
            (0..n).map(|_| *pick(r, &['a', 'b', '\'', ' ', ';', 'é', '%'])).collect()
        }
        _ => word(r),
    }
}
pub fn word(r: &mut Rng) -> String {
    let n = 1 + below(r, 6);
    (0..n).map(|_| (b'a' + below(r, 26) as u8) as char).collect()
}
/// Short text over a tiny alphabet, so that equality, like and order collide often.
pub fn tiny(r: &mut Rng) -> String {
    let n = below(r, 4);
    (0..n).map(|_| *pick(r, &['a', 'b', 'B', 'A', '%', '_', '\'', ' ', 'é'])).collect()
}
pub fn blob(r: &mut Rng) -> Vec<u8> {
    match below(r, 5) {
        0 => vec![],
        1 => vec![0],
        2 => (0..=255u8).collect(),
        3 => pick(r, HOSTILE).as_bytes().to_vec(),
        _ => {
            let n = below(r, 40);
            (0..n).map(|_| r.random()).collect()
        }
    }
}
pub fn json(r: &mut Rng, depth: usize) -> serde_json::Value {
    use serde_json::Value;
    match below(r, if depth == 0 { 6 } else { 8 }) {
        0 => Value::Null,
        1 => Value::Bool(r.random()),
        2 => Value::from(i64v(r)),
        3 => {
            // doubles that JSON carries exactly
            Value::from(r.random_range(-100000..100000) as f64 / 64.0)
        }
        4 | 5 => Value::String(json_text(r)),
        6 => {
            let n = below(r, 4);
            Value::Array((0..n).map(|_| json(r, depth - 1)).collect())
        }
        _ => {
            let n = below(r, 4);
            Value::Object((0..n).map(|_| (json_text(r), json(r, depth - 1))).collect())
        }
    }
}
fn json_text(r: &mut Rng) -> String {
    text(r)
}
pub fn date(r: &mut Rng) -> chrono::NaiveDate {
    use chrono::NaiveDate;
    match below(r, 5) {
        0 => *pick(
            r,
            &[
                NaiveDate::from_ymd_opt(1970, 1, 1).unwrap(),
                NaiveDate::from_ymd_opt(1, 1, 1).unwrap(),
                NaiveDate::from_ymd_opt(9999, 12, 31).unwrap(),
                NaiveDate::from_ymd_opt(2000, 2, 29).unwrap(),
                NaiveDate::from_ymd_opt(1900, 3, 1).unwrap(),
                NaiveDate::from_ymd_opt(1582, 10, 10).unwrap(),
            ],
        ),
        _ => NaiveDate::from_ymd_opt(1, 1, 1).unwrap() + chrono::Duration::days(r.random_range(0..3_600_000)),
    }
}
/// Timestamps at microsecond resolution (what every backend can hold).
pub fn timestamp(r: &mut Rng) -> chrono::NaiveDateTime {
    let d = date(r);
    let micros = match below(r, 5) {
        0 => 0,
        1 => 999_999,
        2 => 1,
        3 => 1000 * below(r, 1000) as u32,
        _ => below(r, 1_000_000) as u32,
    };
    let secs = match below(r, 4) {
        0 => 0,
        1 => 86399,
        _ => below(r, 86400) as u32,
    };
    d.and_time(chrono::NaiveTime::from_num_seconds_from_midnight_opt(secs, micros * 1000).unwrap())
}
pub fn uuid(r: &mut Rng) -> uuid::Uuid {
    match below(r, 6) {
        0 => uuid::Uuid::nil(),
        1 => uuid::Uuid::from_bytes([0xff; 16]),
        _ => uuid::Uuid::from_bytes(r.random()),
    }
}
