//! C23: programs with compile-time constants. Every invocation in the stated space is written into a generated
//! program, which is compiled against the crate and run; what it prints is compared with the values built at run time.
use crate::engine::*;
use crate::v::hex;
use crate::{ensure, same};
use asn1_rs::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::process::Command;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    /// compiles
    Must,
    /// does not compile
    Never,
    /// may be refused; when it compiles, the value is right
    May,
}

#[derive(Clone, PartialEq, Debug)]
enum What {
    Oid(Vec<u128>),
    Rel(Vec<u128>),
    RawOid(Vec<u128>),
    RawRel(Vec<u128>),
    Int(u128),
    RawInt(u128),
    /// no value expected
    None,
}

struct Inv {
    text: String,
    want: Want,
    what: What,
}

fn arcs() -> Vec<u128> {
    let mut v: Vec<u128> = vec![0, 1, 2, 3, 9, 10, 23, 31, 39, 40, 47, 48, 79, 80, 81, 99, 100, 119, 120, 175, 176, 840, 999, 1000, 16303, 16304, 113549, 999_999_999_999];
    for k in [7u32, 8, 14, 16, 21, 28, 31, 32, 35, 42, 49, 53, 56, 63, 64] {
        v.extend([(1u128 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.extend([(1 << 64) - 81, (1 << 64) - 80, (1 << 64) - 79, (1 << 64) - 41, (1 << 64) - 40]);
    v.sort();
    v.dedup();
    v
}

/// the arcs of an absolute identifier that run-time constructors accept (u64)
fn absolute(a: &[u128]) -> bool {
    a.len() >= 2 && a[0] <= 2 && (a[0] == 2 || a[1] <= 39) && a.iter().all(|x| *x <= u64::MAX as u128) && a[0] * 40 + a[1] <= u64::MAX as u128
}

fn dotted(a: &[u128]) -> String {
    a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")
}

fn space(t: bool) -> Vec<Inv> {
    let mut out: Vec<Inv> = vec![];
    let d = arcs();
    let few: Vec<u128> = vec![0, 1, 10, 39, 127, 128, 16384, 1 << 32, u64::MAX as u128];
    let mut abs: Vec<Vec<u128>> = vec![];
    for a in 0..=3u128 {
        for b in &d {
            abs.push(vec![a, *b]);
            for c in &few {
                abs.push(vec![a, *b, *c]);
            }
        }
    }
    for (i, a) in [vec![0u128, 0], vec![0, 39], vec![1, 2], vec![1, 3], vec![2, 5], vec![2, 100], vec![2, 48], vec![1, 39]].into_iter().enumerate() {
        for c in &d {
            let mut v = a.clone();
            v.push(*c);
            abs.push(v.clone());
            for e in if t || i < 3 { &d[..] } else { &few[..] } {
                v.push(*e);
                abs.push(v.clone());
                v.push(if *e > 5 { 7 } else { *e });
                abs.push(v.clone());
                v.push(*c);
                abs.push(v.clone());
                v.truncate(3);
            }
        }
    }
    for n in 5..24usize {
        abs.push((0..n as u128).map(|i| if i < 2 { i } else { i * i * i * 31 % 20011 }).collect());
        abs.push((0..n).map(|i| if i == 0 { 2 } else { u64::MAX as u128 >> i }).collect());
    }
    abs.sort();
    abs.dedup();
    for a in &abs {
        let w = if absolute(a) {
            Want::Must
        } else if a[0] > 2 || (a[0] < 2 && a[1] > 39) {
            Want::Never
        } else {
            Want::May
        };
        out.push(Inv { text: format!("oid!({})", dotted(a)), want: w, what: What::Oid(a.clone()) });
        out.push(Inv { text: format!("oid!(raw {})", dotted(a)), want: w, what: What::RawOid(a.clone()) });
    }
    // many arcs
    let mut long: Vec<Vec<u128>> = vec![];
    for n in [5usize, 6, 8, 10, 15, 20, 30, 40, 60, 100, 130, 200] {
        for x in [0u128, 1, 10, 127, 128, 113549, 1 << 32, u64::MAX as u128] {
            long.push(vec![x; n]);
        }
        long.push((0..n as u128).map(|i| 10u128.pow((i % 19) as u32)).collect());
        long.push((0..n as u128).map(|i| i).collect());
    }
    for a in &long {
        let mut v = vec![1, 3];
        v.extend(a);
        out.push(Inv { text: format!("oid!({})", dotted(&v)), want: Want::Must, what: What::Oid(v.clone()) });
        out.push(Inv { text: format!("oid!(raw {})", dotted(&v)), want: Want::Must, what: What::RawOid(v.clone()) });
        v[0] = 2;
        v[1] = 999;
        out.push(Inv { text: format!("oid!({})", dotted(&v)), want: Want::Must, what: What::Oid(v.clone()) });
    }
    // relative identifiers
    let mut rel: Vec<Vec<u128>> = d.iter().map(|x| vec![*x]).collect();
    for x in &d {
        for y in if t { &d[..] } else { &few[..] } {
            rel.push(vec![*x, *y]);
            rel.push(vec![*y, *x]);
        }
    }
    for x in &few {
        for y in &few {
            for z in &few {
                rel.push(vec![*x, *y, *z]);
                rel.push(vec![*x, *y, *z, *x]);
            }
        }
    }
    rel.extend(long);
    rel.sort();
    rel.dedup();
    for a in &rel {
        let w = if a.iter().all(|x| *x <= u64::MAX as u128) { Want::Must } else { Want::May };
        out.push(Inv { text: format!("oid!(rel {})", dotted(a)), want: w, what: What::Rel(a.clone()) });
        out.push(Inv { text: format!("oid!(raw rel {})", dotted(a)), want: w, what: What::RawRel(a.clone()) });
    }
    // every spelling
    for a in [vec![1u128, 2], vec![2, 5, 4], vec![1, 2, 840, 113549], vec![0, 9, 2342, 19200300, 100], vec![2, 16, 840, 1, 101, 3]] {
        let s = dotted(&a);
        let sp = a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" . ");
        let left = a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" .");
        for (k, w, wr) in [("", What::Oid(a.clone()), What::RawOid(a.clone())), ("rel ", What::Rel(a.clone()), What::RawRel(a.clone()))] {
            for b in [&s, &sp, &left] {
                for (o, c) in [("(", ")"), ("{", "}"), ("[", "]"), ("( ", " )")] {
                    out.push(Inv { text: format!("oid!{o}{k}{b}{c}"), want: Want::Must, what: w.clone() });
                    out.push(Inv { text: format!("oid!{o}raw {k}{b}{c}"), want: Want::Must, what: wr.clone() });
                }
            }
            out.push(Inv { text: format!("asn1_rs::oid!({k}{s})"), want: Want::Must, what: w.clone() });
            out.push(Inv { text: format!("asn1_rs::oid!(raw {k}{s})"), want: Want::Must, what: wr.clone() });
        }
        // literals handed through another macro
        let l = a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        for (k, w) in [("abs", What::Oid(a.clone())), ("rel", What::Rel(a.clone())), ("rawabs", What::RawOid(a.clone())), ("rawrel", What::RawRel(a.clone()))] {
            out.push(Inv { text: format!("through_{k}!({l})"), want: Want::Must, what: w });
        }
        // other ways of writing a number may be refused
        for (f, x) in [("0x{:x}", 16u32), ("0o{:o}", 8), ("0b{:b}", 2)] {
            let t = a.iter().map(|v| match x { 16 => format!("0x{v:x}"), 8 => format!("0o{v:o}"), _ => format!("0b{v:b}") }).collect::<Vec<_>>().join(".");
            let _ = f;
            out.push(Inv { text: format!("oid!({t})"), want: Want::May, what: What::Oid(a.clone()) });
            out.push(Inv { text: format!("oid!(rel {t})"), want: Want::May, what: What::Rel(a.clone()) });
        }
        let t = a.iter().map(|v| format!("0{v}")).collect::<Vec<_>>().join(".");
        out.push(Inv { text: format!("oid!({t})"), want: Want::May, what: What::Oid(a.clone()) });
        let t = a.iter().map(|v| format!("{v}_")).collect::<Vec<_>>().join(".");
        out.push(Inv { text: format!("oid!({t})"), want: Want::May, what: What::Oid(a.clone()) });
        let t = a.iter().map(|v| format!("{v}u64")).collect::<Vec<_>>().join(".");
        out.push(Inv { text: format!("oid!({t})"), want: Want::May, what: What::Oid(a.clone()) });
    }
    out.push(Inv { text: "oid!(raw 0)".into(), want: Want::May, what: What::RawRel(vec![0]) });
    for s in ["1", "2", "3", "40", "", "1.", ".1", "1..2", "-1.2", "1.-2", "1.2.-3", "1,2", "1.2.a", "a.b", "\"1.2\"", "1.2.3 4", "'1'.2", "1e3.2", "rel", "rel a", "rel -1", "rel 1,2", "rel \"1\""] {
        out.push(Inv { text: format!("oid!({s})"), want: Want::Never, what: What::None });
        out.push(Inv { text: format!("oid!(raw {s})"), want: Want::Never, what: What::None });
    }
    // integers
    let mut ints: Vec<u128> = vec![0, 1, 5, 10, 99, 100, 1000, 1234, 65537, 16_777_215];
    for k in 0..=66u32 {
        ints.extend([(1u128 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    for i in 0..8u32 {
        for x in [0x7fu128, 0x80, 0xff, 1] {
            ints.push(x << (8 * i));
            ints.push((x << (8 * i)) | 0x5a);
        }
    }
    if t {
        ints.extend(0..=4096);
    } else {
        ints.extend(0..=300);
    }
    ints.sort();
    ints.dedup();
    for n in &ints {
        let w = if *n <= u64::MAX as u128 { Want::Must } else { Want::May };
        for raw in [false, true] {
            let r = if raw { "raw " } else { "" };
            let what = if raw { What::RawInt(*n) } else { What::Int(*n) };
            let dec = n.to_string();
            let under: String = dec.chars().rev().enumerate().flat_map(|(i, c)| if i > 0 && i % 3 == 0 { vec!['_', c] } else { vec![c] }).collect::<String>().chars().rev().collect();
            let mut forms = vec![dec.clone(), format!("0x{n:x}"), format!("0b{n:b}"), format!("0o{n:o}"), format!("{dec}u64"), format!("0x{n:X}_u64"), under, format!("00{dec}")];
            if *n > u64::MAX as u128 {
                forms.retain(|f| !f.contains('u'));
                forms.push(format!("{dec}u128"));
            }
            for f in forms {
                out.push(Inv { text: format!("int!({r}{f})"), want: w, what: what.clone() });
            }
            out.push(Inv { text: format!("int!{{{r}{dec}}}"), want: w, what: what.clone() });
            out.push(Inv { text: format!("through_{}!({dec})", if raw { "rawint" } else { "int" }), want: w, what: what.clone() });
        }
    }
    for s in ["", "a", "\"1\"", "1.5", "1 2", "1,2", "'1'", "1.0", "b\"1\"", "0xg"] {
        out.push(Inv { text: format!("int!({s})"), want: Want::Never, what: What::None });
        out.push(Inv { text: format!("int!(raw {s})"), want: Want::Never, what: What::None });
    }
    // a negative number is refused, or is that number
    for s in ["-1", "-128", "-129"] {
        out.push(Inv { text: format!("int!({s})"), want: Want::May, what: What::None });
    }
    let mut seen = BTreeSet::new();
    out.retain(|i| seen.insert(i.text.clone()));
    out
}

const HEAD: &str = "#![allow(dead_code, unused)]
use asn1_rs::*;
use std::hash::{Hash, Hasher};
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!(\"{x:02x}\")).collect() }
fn h<T: Hash>(t: &T) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn oid(i: usize, o: &Oid<'static>, rel: bool, arcs: &[u64]) {
    let r = if arcs.is_empty() { None } else if rel { Oid::from_relative(arcs).ok() } else { Oid::from(arcs).ok() };
    let eq = r.map(|r| r == *o && *o == r && h(&r) == h(o) && r.to_der_vec().ok() == o.to_der_vec().ok());
    println!(\"{i} {} {o} {} {} {}\", hex(o.as_bytes()), o.to_id_string(), o.to_der_vec().map(|v| hex(&v)).unwrap_or_else(|_| \"err\".into()), eq.map_or(\"none\".into(), |e| e.to_string()));
}
fn int(i: usize, o: &Integer<'static>, n: u128) {
    let r = Integer::from(n);
    println!(\"{i} {} {} {} {}\", hex(o.as_ref()), o.as_u128().map(|v| v.to_string()).unwrap_or_else(|_| \"err\".into()), o.to_der_vec().map(|v| hex(&v)).unwrap_or_else(|_| \"err\".into()), r == *o && r.to_der_vec().ok() == o.to_der_vec().ok() && r.as_ref() == o.as_ref());
}
fn raw(i: usize, b: &'static [u8]) { println!(\"{i} {}\", hex(b)); }
";

const THROUGH: [(&str, &str); 6] = [
    ("through_abs", r#"macro_rules! through_abs { ($a:literal $($b:literal)*) => { oid!($a $(. $b)*) } }"#),
    ("through_rel", r#"macro_rules! through_rel { ($a:literal $($b:literal)*) => { oid!(rel $a $(. $b)*) } }"#),
    ("through_rawabs", r#"macro_rules! through_rawabs { ($a:literal $($b:literal)*) => { oid!(raw $a $(. $b)*) } }"#),
    ("through_rawrel", r#"macro_rules! through_rawrel { ($a:literal $($b:literal)*) => { oid!(raw rel $a $(. $b)*) } }"#),
    ("through_int", r#"macro_rules! through_int { ($a:literal) => { int!($a) } }"#),
    ("through_rawint", r#"macro_rules! through_rawint { ($a:literal) => { int!(raw $a) } }"#),
];

fn line(i: usize, v: &Inv) -> String {
    let through = THROUGH.iter().find(|(n, _)| v.text.starts_with(&format!("{n}!"))).map_or("", |x| x.1);
    let t = &v.text;
    let arcs = |a: &[u128]| if a.iter().all(|x| *x <= u64::MAX as u128) { a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") } else { String::new() };
    match &v.what {
        What::Oid(a) => format!("{{ {through} const X: Oid<'static> = {t}; oid({i}, &X, false, &[{}]) }}", arcs(a)),
        What::Rel(a) => format!("{{ {through} const X: Oid<'static> = {t}; oid({i}, &X, true, &[{}]) }}", arcs(a)),
        What::Int(n) => format!("{{ {through} const X: Integer<'static> = {t}; int({i}, &X, {n}) }}"),
        What::RawOid(_) | What::RawRel(_) | What::RawInt(_) => format!("{{ {through} const X: &[u8] = &{t}; raw({i}, X) }}"),
        What::None => format!("{{ let _ = {t}; }}"),
    }
}

const BINS: usize = 8;

/// write the programs: one invocation per line, spread over `BINS` programs
fn write(dir: &str, invs: &[Inv], skip: &BTreeSet<usize>) -> std::io::Result<Vec<BTreeMap<usize, usize>>> {
    let mut maps = vec![];
    for b in 0..BINS {
        let mut s = HEAD.to_string();
        let mut n = s.lines().count();
        let mut map = BTreeMap::new();
        let mut f = 0;
        let mut k = 0;
        for (i, v) in invs.iter().enumerate() {
            if i % BINS != b || skip.contains(&i) {
                continue;
            }
            if k % 200 == 0 {
                if k > 0 {
                    s.push_str("}\n");
                    n += 1;
                }
                let _ = writeln!(s, "fn f{f}() {{");
                n += 1;
                f += 1;
            }
            k += 1;
            s.push_str(&line(i, v));
            s.push('\n');
            n += 1;
            map.insert(n, i);
        }
        if k > 0 {
            s.push_str("}\n");
        }
        let _ = writeln!(s, "fn main() {{ {} }}", (0..f).map(|i| format!("f{i}();")).collect::<String>());
        std::fs::write(format!("{dir}/src/bin/p{b}.rs"), s)?;
        maps.push(map);
    }
    Ok(maps)
}

fn cargo(dir: &str, verb: &str) -> (bool, String) {
    let mut c = Command::new("cargo");
    c.args([verb, "--offline", "--keep-going", "--message-format=short", "--manifest-path"]).arg(format!("{dir}/Cargo.toml"));
    c.env("CARGO_TARGET_DIR", format!("{dir}/target"));
    match c.output() {
        Ok(o) => (o.status.success(), String::from_utf8_lossy(&o.stderr).into_owned() + &String::from_utf8_lossy(&o.stdout)),
        Err(e) => (false, e.to_string()),
    }
}

/// the lines on which the compiler reports an error
fn errors(log: &str) -> Vec<(usize, usize, String)> {
    let mut out = vec![];
    for l in log.lines() {
        let Some(p) = l.find("src/bin/p") else { continue };
        let r = &l[p + 9..];
        let Some((b, r)) = r.split_once(".rs:") else { continue };
        let mut it = r.splitn(3, ':');
        let (Some(n), Some(_), Some(rest)) = (it.next(), it.next(), it.next()) else { continue };
        if let (Ok(b), Ok(n)) = (b.parse(), n.parse()) {
            if rest.trim_start().starts_with("error") {
                out.push((b, n, rest.trim().to_string()));
            }
        }
    }
    out
}

fn unsigned(n: u128) -> Vec<u8> {
    let b = n.to_be_bytes();
    let mut v = vec![0];
    v.extend(b);
    while v.len() > 1 && v[0] == 0 && v[1] < 0x80 {
        v.remove(0);
    }
    v
}

fn base128(n: u128) -> Vec<u8> {
    let mut v = vec![(n & 0x7f) as u8];
    let mut n = n >> 7;
    while n > 0 {
        v.insert(0, (n & 0x7f) as u8 | 0x80);
        n >>= 7;
    }
    v
}

/// what the program must print for an invocation
fn expect(i: usize, w: &What) -> std::result::Result<String, String> {
    let plain = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    let rel = |a: &[u128]| a.iter().flat_map(|x| base128(*x)).collect::<Vec<u8>>();
    let abs = |a: &[u128]| {
        let mut v = vec![a[0] * 40 + a[1]];
        v.extend(&a[2..]);
        rel(&v)
    };
    let tlv = |t: u8, c: &[u8]| {
        let mut v = vec![t];
        crate::model::enc_len(c.len(), &mut v);
        v.extend(c);
        v
    };
    let small = |a: &[u128]| a.iter().all(|x| *x <= u64::MAX as u128);
    Ok(match w {
        What::Oid(a) => {
            let c = abs(a);
            let mut text = dotted(a);
            let mut id = text.clone();
            if absolute(a) {
                let v: Vec<u64> = a.iter().map(|x| *x as u64).collect();
                let o = Oid::from(&v).map_err(|e| format!("{e:?}"))?;
                same!(o.as_bytes(), &c[..], "contents built at run time");
                (text, id) = (o.to_string(), o.to_id_string());
            }
            format!("{i} {} {text} {id} {} {}", plain(&c), plain(&tlv(6, &c)), if absolute(a) { "true" } else { "none" })
        }
        What::Rel(a) => {
            let c = rel(a);
            if small(a) {
                let v: Vec<u64> = a.iter().map(|x| *x as u64).collect();
                let o = Oid::from_relative(&v).map_err(|e| format!("{e:?}"))?;
                same!(o.as_bytes(), &c[..], "contents built at run time");
            }
            format!("{i} {} rel. {} {} {} {}", plain(&c), dotted(a), dotted(a), plain(&tlv(13, &c)), if small(a) { "true" } else { "none" })
        }
        What::RawOid(a) => format!("{i} {}", plain(&abs(a))),
        What::RawRel(a) => format!("{i} {}", plain(&rel(a))),
        What::Int(n) => format!("{i} {} {n} {} true", plain(&unsigned(*n)), plain(&tlv(2, &unsigned(*n)))),
        What::RawInt(n) => format!("{i} {}", plain(&unsigned(*n))),
        What::None => String::new(),
    })
}

fn prepare(root: &str) -> String {
    let dir = format!("{root}/target/macros");
    let _ = std::fs::create_dir_all(format!("{dir}/src/bin"));
    let manifest = "[package]\nname = \"macros\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\nasn1-rs = { path = \"/repo\", features = [\"bigint\"] }\n[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\n";
    let _ = std::fs::write(format!("{dir}/Cargo.toml"), manifest);
    dir
}

/// compile what the generated programs depend on
pub fn prebuild(root: &str) {
    let dir = prepare(root);
    let _ = write(&dir, &space(false)[..BINS], &BTreeSet::new());
    let _ = cargo(&dir, "build");
}

pub fn run(ctx: &Ctx) -> bool {
    let t = ctx.thorough;
    let dir = prepare(&ctx.dir);
    let invs = space(t);
    let mut refused: BTreeMap<usize, String> = BTreeMap::new();
    let mut rounds = 0;
    let built = loop {
        rounds += 1;
        let skip: BTreeSet<usize> = refused.keys().copied().collect();
        let Ok(maps) = write(&dir, &invs, &skip) else {
            eprintln!("cannot write {dir}");
            return false;
        };
        let (ok, log) = cargo(&dir, "build");
        if ok {
            break true;
        }
        let mut fresh = 0;
        for (b, n, m) in errors(&log) {
            if let Some(i) = maps.get(b).and_then(|m| m.get(&n)) {
                fresh += refused.insert(*i, m).is_none() as usize;
            }
        }
        if fresh == 0 || rounds > 8 {
            eprintln!("the generated programs do not build:\n{}", log.lines().filter(|l| l.contains("error")).take(20).collect::<Vec<_>>().join("\n"));
            break false;
        }
    };
    if !built {
        return false;
    }
    let mut got: BTreeMap<usize, String> = BTreeMap::new();
    for b in 0..BINS {
        let o = Command::new(format!("{dir}/target/debug/p{b}")).output();
        match o {
            Ok(o) => {
                for l in String::from_utf8_lossy(&o.stdout).lines() {
                    if let Some(i) = l.split(' ').next().and_then(|s| s.parse().ok()) {
                        got.insert(i, l.to_string());
                    }
                }
                ctx.check("the program runs", &|| format!("p{b}"), || {
                    ensure!(o.status.success(), "the program stops: {}", String::from_utf8_lossy(&o.stderr).lines().take(3).collect::<Vec<_>>().join(" "));
                    Ok(())
                });
            }
            Err(e) => {
                eprintln!("{e}");
                return false;
            }
        }
    }
    ctx.section("macro invocations", || {
        for (i, v) in invs.iter().enumerate() {
            ctx.check("macro", &|| v.text.clone(), || {
                match (refused.get(&i), v.want) {
                    (Some(m), Want::Must) => return Err(format!("does not compile: {m}")),
                    (Some(_), _) => return Ok(()),
                    (None, Want::Never) => return Err("compiles, although it is not a valid value".to_string()),
                    _ => (),
                }
                let w = expect(i, &v.what)?;
                if !w.is_empty() {
                    same!(got.get(&i).map(|s| s.as_str()).unwrap_or("nothing"), &w[..], "printed (number, contents, text, DER, equal to the run-time value)");
                }
                Ok(())
            })
        }
    });
    ctx.sections.lock().unwrap().push(format!("{} invocations in {} programs, {} refused by the compiler, {rounds} builds", invs.len(), BINS, refused.len()));
    let mut s = ctx.samples.lock().unwrap();
    for (i, v) in invs.iter().enumerate().step_by(invs.len() / 6) {
        s.push(format!("{} -> {}", v.text, got.get(&i).cloned().unwrap_or_default()));
    }
    let _ = hex(&[]);
    true
}
