//! C20. The probe: what the crate does on the enumerated inputs when built with one set of features.
//! `probe digest` prints one line per entry point: number of inputs and a digest of all (input, outcome) pairs;
//! `probe dump CASE ENTRY` prints every pair.
use crate::engine::*;
use crate::src::Src;
use crate::types::{all, Case};
use asn1_rs::*;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

type Obs = (&'static str, fn(&[u8]) -> String);

#[cfg(feature = "debug")]
struct Sink(u64);
#[cfg(feature = "debug")]
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}

#[cfg(feature = "debug")]
mod logger {
    use std::fmt::Write as _;
    pub struct L;
    impl log::Log for L {
        fn enabled(&self, _: &log::Metadata) -> bool {
            true
        }
        fn log(&self, r: &log::Record) {
            // the texts are built, and dropped
            let mut s = super::Sink(0);
            let _ = write!(s, "{}", r.args());
            std::hint::black_box(s.0);
        }
        fn flush(&self) {}
    }
    pub fn install() {
        let _ = log::set_logger(&L);
        log::set_max_level(log::LevelFilter::Trace);
    }
}
#[cfg(not(feature = "debug"))]
mod logger {
    pub fn install() {}
}

fn text<T: std::fmt::Debug, E: std::fmt::Debug>(r: std::result::Result<T, E>) -> String {
    format!("{r:?}")
}

/// observations beyond the entry points of the registry: texts, arcs, error values
fn extras(name: &str) -> Vec<Obs> {
    macro_rules! texts {
        ($t:ty) => {
            vec![
                ("value or error, from_ber", |b| text(<$t as FromBer<'_, Error>>::from_ber(b))),
                ("value or error, from_der", |b| text(<$t as FromDer<'_, Error>>::from_der(b))),
                ("value or error, parse_ber", |b| text(<$t as BerParser<'_>>::parse_ber(crate::ep::cursor(b)).map_err(|e| e.map(|e| format!("{e:?}"))))),
                ("value or error, parse_der", |b| text(<$t as DerParser<'_>>::parse_der(crate::ep::cursor(b)).map_err(|e| e.map(|e| format!("{e:?}"))))),
            ]
        };
    }
    macro_rules! shown {
        ($t:ty) => {{
            let mut v: Vec<Obs> = texts!($t);
            v.push(("text", |b| <$t as FromBer<'_, Error>>::from_ber(b).map(|(_, t)| t.to_string()).unwrap_or_default()));
            v
        }};
    }
    match name {
        "Header" => texts!(Header),
        "Any" => texts!(Any),
        "bool" => texts!(bool),
        "i8" => texts!(i8),
        "i64" => texts!(i64),
        "u8" => texts!(u8),
        "u128" => texts!(u128),
        "Integer" => {
            let mut v: Vec<Obs> = texts!(Integer);
            v.push(("conversions", |b| {
                <Integer as FromBer<'_, Error>>::from_ber(b).map(|(_, t)| format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}", t.as_i8(), t.as_i16(), t.as_i32(), t.as_i64(), t.as_i128(), t.as_u8(), t.as_u16(), t.as_u32(), t.as_u64(), t.as_u128())).unwrap_or_default()
            }));
            v
        }
        "Oid" => {
            let mut v: Vec<Obs> = vec![];
            v.push(("arcs and text", |b| {
                let Ok((_, o)) = <Oid as FromBer<'_, Error>>::from_ber(b) else { return String::new() };
                let a: Option<Vec<u64>> = o.iter().map(|i| i.collect());
                // numbers beyond u64 are written differently (documented)
                format!("{a:?} {}", if a.is_some() { format!("{o} {o:?} {}", o.to_id_string()) } else { String::new() })
            }));
            v.push(("error", |b| text(<Oid as FromBer<'_, Error>>::from_ber(b).map(|x| x.0.len()))));
            v.push(("error, DER", |b| text(<Oid as FromDer<'_, Error>>::from_der(b).map(|x| x.0.len()))));
            v
        }
        "Real" => texts!(Real),
        "f64" => texts!(f64),
        "UtcTime" => shown!(UtcTime),
        "GeneralizedTime" => shown!(GeneralizedTime),
        "Utf8String" => texts!(Utf8String),
        "PrintableString" => texts!(PrintableString),
        "BmpString" => texts!(BmpString),
        "UniversalString" => texts!(UniversalString),
        "VisibleString" => texts!(VisibleString),
        "OctetString" => texts!(OctetString),
        "Sequence" => texts!(Sequence),
        "Set" => texts!(Set),
        "Enumerated" => texts!(Enumerated),
        "Null" => texts!(Null),
        "Vec<u32>" => texts!(Vec<u32>),
        _ => vec![],
    }
}

struct Entry {
    name: String,
    f: Box<dyn Fn(&[u8]) -> Option<String> + Send + Sync>,
}

/// hashed collections are written in no particular order (in DER: a known finding of C08)
fn outcome(r: crate::enc::ReOut, unordered: bool) -> String {
    match (unordered, r.enc) {
        (true, Ok(Some(mut b))) => {
            b.sort();
            format!("{} {b:?}", r.n)
        }
        (true, e) => format!("{} {}", r.n, e.is_ok()),
        (false, e) => format!("{} {:?} {e:?}", r.n, r.v),
    }
}

fn entries(c: &Case) -> Vec<Entry> {
    let mut v = vec![];
    let unordered = c.name.contains("HashSet") || c.name.contains("AnySet");
    for e in &c.eps {
        let f = e.f;
        v.push(Entry { name: e.name.to_string(), f: Box::new(move |b| Some(guard(|| f(b)).map_or_else(|p| format!("panic {p}"), |o| format!("{o:?}")))) });
    }
    for e in &c.encs {
        let f = e.f;
        v.push(Entry { name: e.name.to_string(), f: Box::new(move |b| Some(guard(|| f(b, false)).map_or_else(|p| format!("panic {p}"), |o| o.map_or(String::new(), |r| outcome(r, unordered))))) });
    }
    for (n, f) in extras(c.name) {
        v.push(Entry { name: n.to_string(), f: Box::new(move |b| Some(guard(|| f(b)).unwrap_or_else(|p| format!("panic {p}")))) });
    }
    v
}

fn h64(seed: u64, a: &[u8], b: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    seed.hash(&mut h);
    a.hash(&mut h);
    b.hash(&mut h);
    h.finish()
}

/// the inputs of every case
fn source(cs: &[Case], t: bool) -> Src<'_> {
    Src::new(cs).mutated(if t { 12 } else { 2 }, true, true, if t { 60 } else { 6 })
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t = a.iter().any(|x| x == "--thorough");
    quiet_panics();
    logger::install();
    let mut cs = all();
    let dump = a[1] == "dump";
    if dump {
        cs.retain(|c| c.name == a[2]);
    }
    let es: Vec<Vec<Entry>> = cs.iter().map(entries).collect();
    let units = source(&cs, t).units;
    let seen: Vec<Seen> = cs.iter().map(|_| Seen::new()).collect();
    let sums: Vec<Vec<[AtomicU64; 3]>> = es.iter().map(|v| v.iter().map(|_| Default::default()).collect()).collect();
    let lines = Mutex::new(vec![]);
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads() {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= units.len() {
                        break;
                    }
                    let u = &units[i];
                    (u.gen)(&mut |b: Vec<u8>| {
                        if !seen[u.case].add(&b) {
                            return;
                        }
                        for (k, e) in es[u.case].iter().enumerate() {
                            if dump && e.name != a[3] {
                                continue;
                            }
                            let Some(o) = (e.f)(&b) else { continue };
                            let c = &sums[u.case][k];
                            c[0].fetch_add(1, Relaxed);
                            c[1].fetch_add(h64(1, &b, &o), Relaxed);
                            c[2].fetch_add(h64(2, &b, &o), Relaxed);
                            if dump {
                                let mut l = String::new();
                                b.iter().for_each(|x| {
                                    let _ = write!(l, "{x:02x}");
                                });
                                let _ = write!(l, "\t{}", o.replace(['\n', '\t'], " "));
                                lines.lock().unwrap().push(l);
                            }
                        }
                    });
                })
                .unwrap();
        }
    });
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    if dump {
        let mut l = lines.into_inner().unwrap();
        l.sort();
        l.iter().for_each(|l| {
            let _ = writeln!(out, "{l}");
        });
        return;
    }
    for (c, (es, ss)) in cs.iter().zip(es.iter().zip(&sums)) {
        for (e, s) in es.iter().zip(ss) {
            let _ = writeln!(out, "{}\t{}\t{}\t{:016x}{:016x}", c.name, e.name, s[0].load(SeqCst), s[1].load(SeqCst), s[2].load(SeqCst));
        }
    }
    let _ = writeln!(out, "done");
}
