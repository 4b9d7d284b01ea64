//! C21: connection descriptions are understood and kept faithfully.
use std::path::{Path, PathBuf};

use butane::db::{connect as open, connect_async as open_async, ConnectionSpec};
use rtm::prelude::*;
use tokio_postgres::config::{Config, Host};

// --- an independent reading of descriptions -----------------------------------------
fn decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let (mut out, mut i) = (vec![], 0);
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).ok()?);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).ok()
}
fn encode(r: &mut Rng, s: &str, keep: &str) -> String {
    let mut out = String::new();
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() && chance(r, 0.97) || keep.as_bytes().contains(&b) {
            out.push(b as char);
        } else {
            out += &if chance(r, 0.5) { format!("%{b:02X}") } else { format!("%{b:02x}") };
        }
    }
    out
}
/// Path, parameters and fragment of a `file:` URI, as SQLite documents them.
fn file_uri(s: &str) -> Option<(String, Vec<(String, String)>, Option<String>)> {
    let s = s.strip_prefix("file:")?;
    let (s, fragment) = match s.split_once('#') {
        Some((a, b)) => (a, Some(b.to_string())),
        None => (s, None),
    };
    let (path, query) = s.split_once('?').unwrap_or((s, ""));
    let params = query
        .split('&')
        .filter(|p| !p.is_empty())
        .map(|p| {
            let (k, v) = p.split_once('=').unwrap_or((p, ""));
            Some((decode(k)?, decode(v)?))
        })
        .collect::<Option<Vec<_>>>()?;
    Some((path.to_string(), params, fragment))
}
#[derive(Clone, Debug, PartialEq, Default)]
struct PgParts {
    user: Option<String>,
    password: Option<String>,
    dbname: Option<String>,
    application_name: Option<String>,
    options: Option<String>,
    timeout: Option<u64>,
    hosts: Vec<String>,
    ports: Vec<u16>,
}
/// What the database driver makes of a connection string.
fn pg_parts(s: &str) -> Result<PgParts, String> {
    let c: Config = s.parse().map_err(|e: tokio_postgres::Error| format!("{e:?}"))?;
    Ok(PgParts {
        user: c.get_user().map(String::from),
        password: c.get_password().map(|p| String::from_utf8_lossy(p).into_owned()),
        dbname: c.get_dbname().map(String::from),
        application_name: c.get_application_name().map(String::from),
        options: c.get_options().map(String::from),
        timeout: c.get_connect_timeout().map(|d| d.as_secs()),
        hosts: c
            .get_hosts()
            .iter()
            .map(|h| match h {
                Host::Tcp(h) => h.clone(),
                Host::Unix(p) => p.display().to_string(),
            })
            .collect(),
        ports: c.get_ports().to_vec(),
    })
}

// --- generators -----------------------------------------------------------------------
fn hostile(r: &mut Rng) -> String {
    let bits = ["a", "B", "7", " ", "'", "\"", "\\", "=", "&", "?", "#", "%", "%41", "@", "/", ":", "://", "+", ",", ";", "\t", "ü", "日", "-", "_", ".", "x", "host=", " dbname=other", "?mode=rw", "$", "|", "postgres://", "\n", "[", "]"];
    let n = match below(r, 8) {
        0 => 0,
        1..=5 => 1 + below(r, 6),
        _ => below(r, 30),
    };
    (0..n).map(|_| *pick(r, &bits)).collect()
}
fn encode_hostile(r: &mut Rng, keep: &str) -> String {
    let s = hostile(r);
    encode(r, &s, keep)
}
fn word(r: &mut Rng) -> String {
    let c = "abcdefghijklmnopqrstuvwxyz0123456789_";
    let mut s = String::new();
    s.push(*pick(r, &"abcdefxyz".chars().collect::<Vec<_>>()));
    for _ in 0..below(r, 8) {
        s.push(*pick(r, &c.chars().collect::<Vec<_>>()));
    }
    s
}
fn any_case(r: &mut Rng, s: &str) -> String {
    match below(r, 4) {
        0 => s.to_ascii_uppercase(),
        1 => s.chars().map(|c| if chance(r, 0.5) { c.to_ascii_uppercase() } else { c }).collect(),
        _ => s.to_string(),
    }
}
fn kv_value(r: &mut Rng, v: &str) -> String {
    let plain = !v.is_empty() && !v.starts_with('\'') && !v.chars().any(|c| c.is_whitespace() || c == '\\');
    if plain && chance(r, 0.7) {
        return v.to_string();
    }
    if !v.is_empty() && chance(r, 0.2) {
        return v.chars().map(|c| if c.is_whitespace() || c == '\\' || c == '\'' { format!("\\{c}") } else { c.to_string() }).collect();
    }
    format!("'{}'", v.replace('\\', "\\\\").replace('\'', "\\'"))
}
fn gen_parts(r: &mut Rng) -> PgParts {
    let some = |r: &mut Rng, p: f64| if chance(r, p) { Some(hostile(r)) } else { None };
    let mut p = PgParts { user: some(r, 0.7), password: some(r, 0.5), dbname: some(r, 0.6), application_name: some(r, 0.3), options: some(r, 0.2), ..Default::default() };
    if chance(r, 0.2) {
        p.timeout = Some(1 + below(r, 90) as u64);
    }
    for _ in 0..below(r, 4) {
        p.hosts.push(match below(r, 5) {
            0 => "localhost".into(),
            1 => "127.0.0.1".into(),
            2 => format!("/tmp/{}", word(r)),
            3 => "::1".into(),
            _ => format!("{}.invalid", word(r)),
        });
        p.ports.push(1 + below(r, 65535) as u16);
    }
    p
}
fn kv_text(r: &mut Rng, p: &PgParts) -> String {
    let mut items = vec![];
    let mut put = |k: &str, v: &Option<String>| {
        if let Some(v) = v {
            items.push((k.to_string(), v.clone()));
        }
    };
    put("user", &p.user);
    put("password", &p.password);
    put("dbname", &p.dbname);
    put("application_name", &p.application_name);
    put("options", &p.options);
    put("connect_timeout", &p.timeout.map(|t| t.to_string()));
    if !p.hosts.is_empty() {
        put("host", &Some(p.hosts.join(",")));
        put("port", &Some(p.ports.iter().map(u16::to_string).collect::<Vec<_>>().join(",")));
    }
    for i in (1..items.len()).rev() {
        let j = below(r, i + 1);
        items.swap(i, j);
    }
    let mut s = String::new();
    for (i, (k, v)) in items.iter().enumerate() {
        if i > 0 {
            s += pick(r, &[" ", "  ", "\t", "\n"]);
        }
        s += k;
        s += pick(r, &["=", "=", " =", "= ", " = "]);
        s += &kv_value(r, v);
    }
    s
}
/// The same in the other form. Hosts with a slash go into the parameters.
fn url_text(r: &mut Rng, p: &PgParts, scheme: &str) -> String {
    let mut s = format!("{scheme}://");
    let mut params = vec![];
    if let Some(u) = &p.user {
        s += &encode(r, u, "-._~");
        if let Some(w) = &p.password {
            s += ":";
            s += &encode(r, w, "-._~");
        }
        s += "@";
    } else if let Some(w) = &p.password {
        params.push(("password".to_string(), w.clone()));
    }
    let hosts: Vec<String> = p
        .hosts
        .iter()
        .zip(&p.ports)
        .map(|(h, port)| {
            let h = if h.contains(':') { format!("[{h}]") } else { encode(r, h, "-._~") };
            if *port == 5432 && chance(r, 0.5) { h } else { format!("{h}:{port}") }
        })
        .collect();
    s += &hosts.join(",");
    if let Some(d) = &p.dbname {
        if d.is_empty() || chance(r, 0.2) {
            params.push(("dbname".to_string(), d.clone()));
        } else {
            s += "/";
            s += &encode(r, d, "-._~");
        }
    } else if chance(r, 0.3) {
        s += "/";
    }
    for (k, v) in [("application_name", &p.application_name), ("options", &p.options), ("connect_timeout", &p.timeout.map(|t| t.to_string()))] {
        if let Some(v) = v {
            params.push((k.to_string(), v.clone()));
        }
    }
    for (i, (k, v)) in params.iter().enumerate() {
        s += if i == 0 { "?" } else { "&" };
        s += &format!("{k}={}", encode(r, v, "-._~/"));
    }
    s
}
/// A path which is not like any other form.
fn plain_path(r: &mut Rng) -> String {
    loop {
        let mut s: String = match below(r, 6) {
            0 => pick(r, &[":memory:", "", "foo.db", "./x/y.db", "/abs/x.db", "a b.db", "../up.db", "ü/ñ.db", "x?mode=ro", "x#y", "100%.db", ".", "~/x.db", "host", "user.db", "dbname", "port"]).to_string(),
            _ => hostile(r),
        };
        if chance(r, 0.4) {
            s = format!("./{s}");
        }
        let pattern = ["host", "dbname", "user", "port", "hostaddr"].iter().any(|k| s.split(k).skip(1).any(|t| t.trim_start().starts_with('=')));
        let scheme = s.trim_matches(|c: char| c <= ' ').split(':').next().unwrap_or("").starts_with(|c: char| c.is_ascii_alphabetic()) && s.contains(':');
        if !pattern && !scheme {
            return s;
        }
    }
}

struct Form {
    what: &'static str,
    text: String,
    backend: Option<&'static str>,
    /// what the connection string must be, if that is documented
    exactly: Option<String>,
    pg: Option<PgParts>,
}
fn form(r: &mut Rng) -> Form {
    let rest = |r: &mut Rng| {
        let path = encode_hostile(r, "-._~/ ");
        match below(r, 5) {
            0 => path,
            1 => format!("/tmp/{path}"),
            2 => format!("{path}?mode=ro"),
            3 => format!("///tmp/{path}?a=b&c=sqlite:libsql:file:#frag"),
            _ => format!("{path}sqlite:x libsql:y"),
        }
    };
    match below(r, 9) {
        0 => {
            let t = rest(r);
            Form { what: "sqlite URL", text: format!("{}:{t}", any_case(r, "sqlite")), backend: Some("sqlite"), exactly: Some(format!("file:{t}")), pg: None }
        }
        1 => {
            let t = rest(r);
            Form { what: "file URI", text: format!("{}:{t}", any_case(r, "file")), backend: Some("sqlite"), exactly: Some(format!("file:{t}")), pg: None }
        }
        2 => {
            let t = rest(r);
            Form { what: "libsql URI", text: format!("{}:{t}", any_case(r, "libsql")), backend: Some("turso"), exactly: Some(format!("turso:{t}")), pg: None }
        }
        3 => {
            let s = match below(r, 3) {
                0 => pick(r, &["sqlite3", "mysql", "mssql", "c", "postgre", "postgresqlx", "http", "https", "oracle", "sqlitefile", "files", "duckdb", "mongodb+srv", "ssh"]).to_string(),
                _ => format!("z{}", word(r).replace('_', "-")),
            };
            let t = match below(r, 3) {
                0 => "//h/x".to_string(),
                1 => "x.db".to_string(),
                _ => "//user:pw@host:12/db?dbname=x".to_string(),
            };
            Form { what: "unknown scheme", text: format!("{}:{t}", any_case(r, &s)), backend: None, exactly: None, pg: None }
        }
        4 | 5 => {
            let p = gen_parts(r);
            let s = *pick(r, &["postgres", "postgresql"]);
            let s = if chance(r, 0.8) { s.to_string() } else { any_case(r, s) };
            let text = url_text(r, &p, &s);
            Form { what: "PostgreSQL URL", text, backend: Some("pg"), exactly: None, pg: Some(p) }
        }
        6 | 7 => loop {
            let p = gen_parts(r);
            if p.user.is_none() && p.dbname.is_none() && p.hosts.is_empty() {
                continue;
            }
            let text = kv_text(r, &p);
            break Form { what: "PostgreSQL keywords", text, backend: Some("pg"), exactly: None, pg: Some(p) };
        },
        _ => {
            let t = plain_path(r);
            Form { what: "path", text: t.clone(), backend: Some("sqlite"), exactly: Some(t), pg: None }
        }
    }
}

fn mapping(ctx: &Ctx) {
    ctx.cases("map", 0.2, 3000, 200_000, |case, r| {
        ctx.eval(1);
        let f = form(r);
        ctx.count(f.what, 1);
        ctx.nontrivial(&f.text);
        let fail = |sig: &str, m: String| ctx.violation(sig, case, format!("{}: {:?}\n{m}", f.what, f.text));
        let made = match below(r, 3) {
            0 => catch(|| ConnectionSpec::try_from(f.text.as_str())),
            1 => catch(|| ConnectionSpec::try_from(f.text.clone())),
            _ => catch(|| ConnectionSpec::try_from(&f.text)),
        };
        let spec = match made {
            Ok(Ok(s)) => s,
            Ok(Err(e)) if f.backend.is_none() => {
                drop(e);
                return;
            }
            Ok(Err(e)) => return fail("refused", format!("refused: {e}")),
            Err(p) => return fail("panic", p),
        };
        match f.backend {
            Some(b) => {
                if spec.backend_name() != b {
                    return fail("backend", format!("was given to {:?}, not {b:?}, as {:?}", spec.backend_name(), spec.connection_string()));
                }
                if spec.get_backend().map(|x| x.name()).ok() != Some(b) {
                    fail("get-backend", "get_backend does not find it".into());
                }
            }
            None => {
                if ["sqlite", "pg", "turso"].contains(&spec.backend_name().as_str()) {
                    return fail("backend", format!("was given to {:?}", spec.backend_name()));
                }
                match catch(|| (spec.get_backend().is_err(), open(&spec).is_err(), rt().block_on(open_async(&spec)).is_err())) {
                    Ok((true, true, true)) => ctx.count("unknown backends refused", 1),
                    Ok(x) => fail("unknown-accepted", format!("get_backend, connect and connect_async failed: {x:?}")),
                    Err(p) => fail("panic", p),
                }
            }
        }
        if let Some(e) = &f.exactly {
            if e != spec.connection_string() {
                fail("text", format!("connection string {:?}, not {e:?}", spec.connection_string()));
            }
        }
        if let Some(p) = &f.pg {
            match pg_parts(spec.connection_string()) {
                Ok(got) if got == *p => ctx.count("PostgreSQL strings read back", 1),
                got => fail("pg-meaning", format!("{:?} means {got:?}\nnot {p:?}", spec.connection_string())),
            }
        }
        // kept faithfully
        let file = ctx.scratch.join(format!("spec-{}.json", ctx.evals()));
        kept(ctx, case, &spec, &file, r);
        let _ = std::fs::remove_file(&file);
    });
}
fn kept(ctx: &Ctx, case: &str, spec: &ConnectionSpec, file: &Path, r: &mut Rng) {
    let fail = |sig: &str, m: String| ctx.violation(sig, case, format!("{spec:?}\n{m}"));
    if chance(r, 0.3) {
        std::fs::write(file, "x".repeat(below(r, 3000))).unwrap();
    }
    let (path, dir) = if chance(r, 0.3) {
        let d = file.with_extension("dir");
        std::fs::create_dir_all(&d).unwrap();
        (d.clone(), Some(d))
    } else {
        (file.to_path_buf(), None)
    };
    let (path, dir): (PathBuf, Option<PathBuf>) = (path, dir);
    match catch(|| spec.save(&path).and_then(|_| ConnectionSpec::load(&path))) {
        Ok(Ok(back)) if back == *spec && back.backend_name() == spec.backend_name() && back.connection_string() == spec.connection_string() => ctx.count("descriptions saved and read back", 1),
        Ok(x) => fail("round-trip", format!("read back as {x:?}")),
        Err(p) => fail("panic", p),
    }
    // a damaged file
    let real = dir.as_ref().map(|d| d.join("connection.json")).unwrap_or_else(|| path.clone());
    if let Ok(bytes) = std::fs::read(&real) {
        let text = bytes.len() - bytes.iter().rev().take_while(|b| b.is_ascii_whitespace()).count();
        let mut b = bytes.clone();
        let cut = chance(r, 0.5);
        if cut {
            b.truncate(below(r, text));
        } else if !b.is_empty() {
            let i = below(r, b.len());
            b[i] = below(r, 256) as u8;
        }
        std::fs::write(&real, &b).unwrap();
        match catch(|| ConnectionSpec::load(&path)) {
            Ok(Ok(s)) if cut => fail("truncated-accepted", format!("a file cut to {:?} reads as {s:?}", String::from_utf8_lossy(&b))),
            Ok(Ok(_)) => {}
            Ok(Err(_)) => ctx.count("damaged files refused", 1),
            Err(p) => fail("panic", p),
        }
        std::fs::remove_file(&real).unwrap();
        if !matches!(catch(|| ConnectionSpec::load(&path)), Ok(Err(_))) {
            fail("missing-accepted", "a missing file was read".into());
        }
    }
    if let Some(d) = dir {
        let _ = std::fs::remove_dir(&d);
    }
}
fn saving(ctx: &Ctx) {
    ctx.cases("save", 0.28, 500, 50_000, |case, r| {
        ctx.eval(1);
        let spec = if chance(r, 0.3) { ConnectionSpec::new(text(r), text(r)) } else { ConnectionSpec::new(hostile(r), hostile(r)) };
        ctx.nontrivial(&(&spec.backend_name, &spec.conn_str));
        let file = ctx.scratch.join("saved.json");
        kept(ctx, case, &spec, &file, r);
        let _ = std::fs::remove_file(&file);
    });
}
fn text(r: &mut Rng) -> String {
    (0..below(r, 40)).map(|_| if chance(r, 0.3) { char::from_u32(below(r, 0x3000) as u32).unwrap_or('\u{fffd}') } else { (below(r, 128) as u8) as char }).collect()
}

/// Adding parameters changes the meaning in the asked way only.
fn parameters(ctx: &Ctx) {
    ctx.cases("param", 0.55, 3000, 200_000, |case, r| {
        ctx.eval(1);
        let kind = below(r, 4);
        let mut log: Vec<String> = vec![];
        let fail = |sig: &str, log: &Vec<String>, m: String| ctx.violation(sig, case, format!("{}\n{m}", log.join("\n")));
        match kind {
            0 | 1 => {
                // PostgreSQL
                let (start, mut want) = loop {
                    let p = gen_parts(r);
                    if kind == 0 {
                        if p.user.is_some() || p.dbname.is_some() || !p.hosts.is_empty() {
                            break (kv_text(r, &p), p);
                        }
                    } else {
                        break (url_text(r, &p, "postgresql"), p);
                    }
                };
                ctx.count(if kind == 0 { "keyword strings extended" } else { "PostgreSQL URLs extended" }, 1);
                let mut spec = if chance(r, 0.5) { ConnectionSpec::new("pg", &start) } else { ConnectionSpec::try_from(&start).unwrap() };
                log.push(format!("{spec:?}"));
                for _ in 0..1 + below(r, 4) {
                    let v = hostile(r);
                    let (k, v) = match below(r, 7) {
                        0 => {
                            want.user = Some(v.clone());
                            ("user", v)
                        }
                        1 => {
                            want.password = Some(v.clone());
                            ("password", v)
                        }
                        2 | 3 => {
                            want.dbname = Some(v.clone());
                            ("dbname", v)
                        }
                        4 => {
                            want.application_name = Some(v.clone());
                            ("application_name", v)
                        }
                        5 => {
                            want.options = Some(v.clone());
                            ("options", v)
                        }
                        _ => {
                            let n = 1 + below(r, 100) as u64;
                            want.timeout = Some(n);
                            ("connect_timeout", n.to_string())
                        }
                    };
                    log.push(format!("add_parameter({k:?}, {v:?})"));
                    ctx.nontrivial(&(&spec.conn_str, k, &v));
                    match catch(|| spec.add_parameter(k, &v).map(|_| spec.clone())) {
                        Ok(Ok(s)) => spec = s,
                        Ok(Err(e)) => return fail("parameter-refused", &log, e.to_string()),
                        Err(p) => return fail("panic", &log, p),
                    }
                    ctx.count("parameters added", 1);
                    match pg_parts(spec.connection_string()) {
                        Ok(got) if got == want => {}
                        got => return fail("parameter-meaning", &log, format!("{:?} means {got:?}\nnot {want:?}", spec.connection_string())),
                    }
                    if spec.backend_name() != "pg" {
                        fail("backend", &log, format!("{spec:?}"));
                    }
                }
            }
            2 => {
                // file URIs
                let mut t = format!("{}:{}", pick(r, &["file", "sqlite", "FILE"]), encode_hostile(r, "-._~/"));
                if chance(r, 0.4) {
                    t += &format!("?{}={}", word(r), encode_hostile(r, "-._~/"));
                }
                if chance(r, 0.2) {
                    t += pick(r, &["?", "&"]);
                }
                if chance(r, 0.3) {
                    t += pick(r, &["#", "#frag", "#a?b=c", "#a&b"]);
                }
                let mut spec = ConnectionSpec::try_from(&t).unwrap();
                log.push(format!("{t:?} {spec:?}"));
                ctx.count("file URIs extended", 1);
                let Some((path, mut want, fragment)) = file_uri(spec.connection_string()) else { return };
                for _ in 0..1 + below(r, 3) {
                    let (k, v) = (if chance(r, 0.7) { word(r) } else { hostile(r) + "k" }, hostile(r));
                    log.push(format!("add_parameter({k:?}, {v:?})"));
                    ctx.nontrivial(&(&spec.conn_str, &k, &v));
                    match catch(|| spec.add_parameter(&k, &v).map(|_| spec.clone())) {
                        Ok(Ok(s)) => spec = s,
                        Ok(Err(e)) => return fail("parameter-refused", &log, e.to_string()),
                        Err(p) => return fail("panic", &log, p),
                    }
                    ctx.count("parameters added", 1);
                    want.push((k, v));
                    let got = file_uri(spec.connection_string());
                    if got != Some((path.clone(), want.clone(), fragment.clone())) {
                        return fail("parameter-meaning", &log, format!("{:?} means {got:?}\nnot {want:?} of {path:?} with fragment {fragment:?}", spec.connection_string()));
                    }
                }
            }
            _ => {
                // neither
                let t = plain_path(r);
                let mut spec = ConnectionSpec::new("sqlite", &t);
                let before = spec.clone();
                log.push(format!("{spec:?}"));
                ctx.nontrivial(&t);
                match catch(|| spec.add_parameter("mode", "ro").map_err(|e| e.to_string())) {
                    Ok(Err(_)) if spec == before => ctx.count("parameters refused", 1),
                    Ok(x) => fail("parameter-on-path", &log, format!("{x:?} {spec:?}")),
                    Err(p) => fail("panic", &log, p),
                }
            }
        }
    });
}

// --- what is reached ----------------------------------------------------------------------
fn listing(dir: &Path) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            if e.path().is_dir() {
                todo.push(e.path());
            }
            let n = e.path().strip_prefix(dir).unwrap().to_string_lossy().into_owned();
            if !n.ends_with("-wal") && !n.ends_with("-shm") && !n.ends_with("-journal") && !n.ends_with("-tshm") {
                out.insert(n);
            }
        }
    }
    out
}
const FILES: &[&str] = &["a.db", "b b.db", "c%20d.db", "ü日.db", "d#e.db", "f?g=1&h.db", "sub/i.db", "sub dir/j+k.db", "l'm.db", "n\\o.db", "mode=ro", "-p", "q;r", "host", "turso-s.db"];
const TURSO_FILES: &[&str] = &["ta.db", "t b.db", "t%20d.db", "tsub/i.db"];

fn files(ctx: &Ctx, dir: &Path) {
    // SQLite
    let lite = |p: &Path, v: &str| {
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).unwrap();
        }
        let c = rusqlite::Connection::open_with_flags(p, rusqlite::OpenFlags::SQLITE_OPEN_READ_WRITE | rusqlite::OpenFlags::SQLITE_OPEN_CREATE).unwrap();
        c.execute_batch("CREATE TABLE IF NOT EXISTS m (v TEXT, n INTEGER); DELETE FROM m").unwrap();
        c.execute("INSERT INTO m VALUES (?1, 0)", [v]).unwrap();
    };
    for f in FILES {
        lite(&dir.join(f), f);
    }
    let abs = dir.to_str().unwrap().to_string();
    let before = listing(dir);
    let col = |c: &butane::db::Connection| -> Result<Vec<String>, String> {
        let cols = [butane::db::Column::new("v", butane::SqlType::Text)];
        let mut rows = c.query("m", &cols, None, None, None, None).map_err(|e| e.to_string())?;
        let mut out = vec![];
        while let Some(r) = rows.next().map_err(|e| e.to_string())? {
            out.push(match r.get(0, butane::SqlType::Text).map_err(|e| e.to_string())? {
                butane::SqlValRef::Text(t) => t.to_string(),
                v => format!("{v:?}"),
            });
        }
        Ok(out)
    };
    ctx.cases("reach", 0.75, 300, 20_000, |case, r| {
        ctx.eval(1);
        let f = *pick(r, FILES);
        let keep = if chance(r, 0.5) { "-._~/ '+;,&=\\" } else { "-._~/" };
        let scheme = {
            let s = *pick(r, &["file", "sqlite"]);
            any_case(r, s)
        };
        let (text, uri) = match below(r, 6) {
            0 => (format!("./{f}"), false),
            1 => (format!("{abs}/{f}"), false),
            2 => (format!("{scheme}:{}", encode(r, f, keep)), true),
            3 => (format!("{scheme}:{abs}/{}", encode(r, f, keep)), true),
            4 => (format!("{scheme}://{abs}/{}", encode(r, f, keep)), true),
            _ => (format!("{scheme}://localhost{abs}/{}", encode(r, f, keep)), true),
        };
        let mut log = vec![format!("{text:?} for {f:?}")];
        let mut spec = match catch(|| ConnectionSpec::try_from(&text)) {
            Ok(Ok(s)) => s,
            x => return ctx.violation("refused", case, format!("{log:?}\n{x:?}")),
        };
        let mut ro = false;
        if uri {
            for _ in 0..below(r, 4) {
                let (k, v) = match below(r, 4) {
                    0 if !ro => {
                        ro = true;
                        ("mode".to_string(), "ro".to_string())
                    }
                    1 => ("cache".into(), pick(r, &["private", "shared"]).to_string()),
                    _ => (format!("x{}", word(r)), hostile(r)),
                };
                if k == "cache" && log.iter().any(|l| l.contains("cache")) {
                    continue;
                }
                log.push(format!("add_parameter({k:?}, {v:?})"));
                if let Err(e) = spec.add_parameter(&k, &v) {
                    return ctx.violation("parameter-refused", case, format!("{}\n{e}", log.join("\n")));
                }
            }
        }
        if chance(r, 0.3) {
            let p = ctx.scratch.join("reach.json");
            spec.save(&p).unwrap();
            spec = ConnectionSpec::load(&p).unwrap();
        }
        log.push(format!("{spec:?}"));
        ctx.nontrivial(&log);
        let fail = |sig: &str, m: String| ctx.violation(sig, case, format!("{}\n{m}", log.join("\n")));
        let c = match catch(|| open(&spec)) {
            Ok(Ok(c)) => c,
            Ok(Err(e)) => return fail("not-reached", e.to_string()),
            Err(p) => return fail("panic", p),
        };
        match col(&c) {
            Ok(v) if v == [f] => ctx.count("SQLite databases reached", 1),
            v => fail("other-database", format!("has {v:?}")),
        }
        if ro {
            ctx.count("read-only connections", 1);
            if c.execute("UPDATE m SET n = n + 1").is_ok() {
                fail("parameter-ineffective", "mode=ro, but writes are accepted".into());
            }
        }
        drop(c);
        if listing(dir) != before {
            fail("other-database", format!("files appeared: {:?}", listing(dir).difference(&before).collect::<Vec<_>>()));
        }
        // one that is not there
        if uri && chance(r, 0.3) {
            let mut s = ConnectionSpec::try_from(format!("{scheme}:{}none", encode(r, f, keep))).unwrap();
            s.add_parameter("mode", "rw").unwrap();
            match catch(|| open(&s).is_err()) {
                Ok(true) if listing(dir) == before => ctx.count("missing databases refused", 1),
                x => fail("missing-reached", format!("{s:?}: error {x:?}, files {:?}", listing(dir).difference(&before).collect::<Vec<_>>())),
            }
        }
    });
    // Turso
    for f in TURSO_FILES {
        std::fs::create_dir_all(dir.join(f).parent().unwrap()).unwrap();
        rt().block_on(async {
            let c = turso::Builder::new_local(dir.join(f).to_str().unwrap()).build().await.unwrap().connect().unwrap();
            c.execute("CREATE TABLE m (v TEXT, n INTEGER)", ()).await.unwrap();
            c.execute("INSERT INTO m VALUES (?1, 0)", [turso::Value::Text(f.to_string())]).await.unwrap();
        });
    }
    let before = listing(dir);
    ctx.cases("reach-turso", 0.8, 30, 1000, |case, r| {
        ctx.eval(1);
        let f = *pick(r, TURSO_FILES);
        let scheme = any_case(r, "libsql");
        let (spec, ok) = match below(r, 7) {
            0 => (Ok(ConnectionSpec::new("turso", f)), true),
            1 => (Ok(ConnectionSpec::new("turso", format!("{abs}/{f}"))), true),
            2 => (ConnectionSpec::try_from(format!("{scheme}:{f}")), true),
            3 => (ConnectionSpec::try_from(format!("{scheme}://{abs}/{f}")), true),
            4 => (ConnectionSpec::try_from(format!("turso:{f}")), true),
            5 => (ConnectionSpec::try_from(format!("{scheme}://example.invalid/{f}")), false),
            _ => {
                let mut s = ConnectionSpec::try_from(format!("libsql:{f}")).unwrap();
                (s.add_parameter("mode", "ro").map(|_| s), false)
            }
        };
        let Ok(spec) = spec else {
            if ok {
                ctx.violation("refused", case, f.to_string());
            }
            return;
        };
        ctx.nontrivial(&spec.conn_str);
        let fail = |sig: &str, m: String| ctx.violation(sig, case, format!("{spec:?} for {f:?}\n{m}"));
        let cols = [butane::db::Column::new("v", butane::SqlType::Text)];
        let got = catch(|| {
            rt().block_on(async {
                let c = open_async(&spec).await.map_err(|e| e.to_string())?;
                let mut rows = butane::db::ConnectionMethodsAsync::query(&c, "m", &cols, None, None, None, None).await.map_err(|e| e.to_string())?;
                let mut out = vec![];
                while let Some(r) = butane::db::BackendRows::next(&mut rows).map_err(|e| e.to_string())? {
                    out.push(format!("{:?}", r.get(0, butane::SqlType::Text)));
                }
                Ok::<_, String>(out)
            })
        });
        match got {
            Ok(Ok(v)) if ok && v.len() == 1 && v[0].contains(f) => ctx.count("Turso databases reached", 1),
            Ok(Err(_)) if !ok => ctx.count("Turso descriptions refused", 1),
            Err(p) => fail("panic", p),
            x => fail("other-database", format!("{x:?}")),
        }
        if listing(dir) != before {
            fail("other-database", format!("files appeared: {:?}", listing(dir).difference(&before).collect::<Vec<_>>()));
        }
    });
}

const PG_NAMES: &[&str] = &["plain", "we ird", "q'u\"o", "back\\slash", "a?b=c&d#e", "%41@x/y:z", "ünï 日", "dbname=postgres", "'", "+", ",x"];
fn servers(ctx: &Ctx) {
    let base = Db::empty(ctx, Lane::Pg);
    let host = base.connstr.split(' ').find_map(|p| p.strip_prefix("host=")).unwrap().to_string();
    for n in PG_NAMES {
        base.raw_exec(&format!("CREATE DATABASE \"{}\"", n.replace('"', "\"\""))).expect("create database");
    }
    let hosturl = host.replace('/', "%2F");
    ctx.cases("server", 0.97, 60, 3000, |case, r| {
        ctx.eval(1);
        let name = *pick(r, PG_NAMES);
        let start = match below(r, 7) {
            0 => format!("host={host} user=postgres"),
            1 => format!("host = '{host}' user='postgres' dbname = postgres"),
            2 => format!("user=postgres password='a://b c' host={host} application_name=z"),
            3 => format!("postgres://postgres@{hosturl}/postgres"),
            4 => format!("postgresql://postgres@/postgres?host={hosturl}"),
            5 => format!("POSTGRES://postgres:p?@{hosturl}?application_name=y"),
            _ => format!("postgresql://postgres@{hosturl}:5432,{hosturl}:5432/"),
        };
        let mut log = vec![format!("{start:?}")];
        let mut spec = match catch(|| ConnectionSpec::try_from(&start)) {
            Ok(Ok(s)) => s,
            x => return ctx.violation("refused", case, format!("{log:?}\n{x:?}")),
        };
        log.push(format!("{spec:?}"));
        // names the server keeps as they are
        let app = loop {
            let a = hostile(r);
            if a.len() < 60 && a.is_ascii() && !a.chars().any(|c| c.is_control()) {
                break a;
            }
        };
        let schema = word(r);
        let adds = [("dbname", name.to_string()), ("application_name", app.clone()), ("options", format!("-c search_path={schema}"))];
        let first = below(r, 3);
        for i in 0..3 {
            let (k, v) = &adds[(first + i) % 3];
            log.push(format!("add_parameter({k:?}, {v:?})"));
            if let Err(e) = spec.add_parameter(k, v) {
                return ctx.violation("parameter-refused", case, format!("{}\n{e}", log.join("\n")));
            }
        }
        if chance(r, 0.4) {
            let p = ctx.scratch.join("server.json");
            spec.save(&p).unwrap();
            spec = ConnectionSpec::load(&p).unwrap();
        }
        log.push(format!("{spec:?}"));
        ctx.nontrivial(&log);
        let fail = |sig: &str, m: String| ctx.violation(sig, case, format!("{}\n{m}", log.join("\n")));
        // what the connection is, through a view named like a table
        let ask = |c: &dyn butane::db::ConnectionMethods| -> Result<Vec<String>, String> {
            c.execute("CREATE TEMP VIEW m AS SELECT current_database()::text AS a, current_setting('application_name') AS b, current_setting('search_path') AS c, current_user::text AS d").map_err(|e| e.to_string())?;
            let cols = ["a", "b", "c", "d"].map(|n| butane::db::Column::new(n, butane::SqlType::Text));
            let mut rows = c.query("m", &cols, None, None, None, None).map_err(|e| e.to_string())?;
            let row = rows.next().map_err(|e| e.to_string())?.ok_or("no row")?;
            (0..4)
                .map(|i| match row.get(i, butane::SqlType::Text) {
                    Ok(butane::SqlValRef::Text(t)) => Ok(t.to_string()),
                    x => Err(format!("{x:?}")),
                })
                .collect()
        };
        let got = match below(r, 3) {
            0 => catch(|| open(&spec).map_err(|e| e.to_string()).and_then(|c| ask(&c))),
            1 => catch(|| {
                let m = butane::db::ConnectionManager::new(spec.clone());
                let c = r2d2::ManageConnection::connect(&m).map_err(|e| e.to_string())?;
                ask(&c)
            }),
            _ => catch(|| {
                let mut c = rt().block_on(open_async(&spec)).map_err(|e| e.to_string())?;
                rt().block_on(c.with_sync(move |c| Ok(ask(c)))).map_err(|e| e.to_string())?
            }),
        };
        match got {
            Ok(Ok(v)) => {
                if v == [name, app.as_str(), schema.as_str(), "postgres"] {
                    ctx.count("PostgreSQL databases reached", 1);
                } else {
                    fail("other-database", format!("database, application, path, user: {v:?}"));
                }
            }
            Ok(Err(e)) => fail("not-reached", e),
            Err(p) => fail("panic", p),
        }
    });
    for n in PG_NAMES {
        let _ = base.raw_exec(&format!("DROP DATABASE \"{}\" WITH (FORCE)", n.replace('"', "\"\"")));
    }
}
/// Descriptions nothing can be made of, and servers that are not there.
fn malformed(ctx: &Ctx, dir: &Path) {
    let before = listing(dir);
    ctx.cases("malformed", 1.0, 200, 20_000, |case, r| {
        ctx.eval(1);
        let spec = match below(r, 6) {
            0 => ConnectionSpec::new(hostile(r), hostile(r)),
            1 => ConnectionSpec::new("pg", hostile(r)),
            2 => {
                let p = PgParts { hosts: vec![format!("/nonexistent/{}", word(r))], ports: vec![1], user: Some(hostile(r)), ..gen_parts(r) };
                let t = kv_text(r, &p);
                let cut = t.char_indices().map(|c| c.0).nth(below(r, t.chars().count())).unwrap_or(0);
                ConnectionSpec::new("pg", if chance(r, 0.5) { &t[..cut] } else { &t })
            }
            3 => ConnectionSpec::new("pg", format!("postgres://{}", hostile(r))),
            4 => ConnectionSpec::new(pick(r, &["sqlite", "turso"]).to_string(), format!("./missing/{}/x", word(r))),
            _ => ConnectionSpec::new(pick(r, &["sqlite", "sqlite", "turso"]).to_string(), "./".to_string()),
        };
        if ["sqlite", "turso"].contains(&spec.backend_name().as_str()) && !spec.conn_str.starts_with("./") {
            return;
        }
        // nothing that asks the network
        if spec.backend_name == "pg" && pg_parts(&spec.conn_str).is_ok_and(|p| p.hosts.iter().any(|h| !h.starts_with("/nonexistent"))) {
            return;
        }
        ctx.nontrivial(&(&spec.backend_name, &spec.conn_str));
        let fail = |sig: &str, m: String| ctx.violation(sig, case, format!("{spec:?}\n{m}"));
        match catch(|| (open(&spec).is_err(), rt().block_on(open_async(&spec)).is_err())) {
            Ok((true, true)) => ctx.count("malformed descriptions refused", 1),
            Ok(x) => fail("malformed-accepted", format!("connect, connect_async failed: {x:?}")),
            Err(p) => fail("panic", p),
        }
        if listing(dir) != before {
            fail("other-database", format!("files appeared: {:?}", listing(dir).difference(&before).collect::<Vec<_>>()));
        }
    });
}
fn main() {
    let ctx = Ctx::new("C21", 25, 300);
    ctx.rule("random descriptions of every documented form are given to ConnectionSpec and the backend, text, driver's reading, saved copy and effect of added parameters compared with an independent reading; live connections must reach the named database only");
    let dir = ctx.scratch.join("files");
    std::fs::create_dir_all(&dir).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    mapping(&ctx);
    saving(&ctx);
    parameters(&ctx);
    files(&ctx, &dir);
    servers(&ctx);
    malformed(&ctx, &dir);
    ctx.finish()
}
