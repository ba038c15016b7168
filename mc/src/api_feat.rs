//! C20: the crate is built with several sets of features, the probe (probe.rs) runs the same enumeration on each
//! build, and what is observed is compared entry point by entry point.
use crate::engine::*;
use std::collections::BTreeMap;
use std::process::Command;

/// base first
const QUICK: [&str; 7] = ["std", "", "std,bigint", "std,datetime", "std,debug", "std,trace", "std,bigint,datetime,trace,serialize"];
const MORE: [&str; 9] = ["std,serialize", "std,bigint,datetime", "std,bigint,debug", "std,datetime,debug", "std,bigint,trace", "std,datetime,trace", "bigint", "datetime", "bigint,datetime"];

struct Build {
    features: &'static str,
    exe: String,
}

enum Built {
    Ok(Build),
    /// the crate itself does not compile
    None(&'static str),
    Broken(String),
}

fn build(dir: &str, i: usize, features: &'static str) -> Built {
    let target = format!("{dir}/target/probe{i}");
    let mut c = Command::new("cargo");
    c.args(["build", "--offline", "--profile", "probe", "--no-default-features", "--features", features, "--message-format=short", "--manifest-path"]);
    c.arg(format!("{dir}/mc/Cargo.toml")).env("CARGO_TARGET_DIR", &target);
    match c.output() {
        Ok(o) if o.status.success() => Built::Ok(Build { features, exe: format!("{target}/probe/mc") }),
        Ok(o) => {
            let log = String::from_utf8_lossy(&o.stderr).into_owned();
            if log.contains("could not compile `asn1-rs`") {
                Built::None(features)
            } else {
                Built::Broken(log.lines().filter(|l| l.contains("error")).take(12).collect::<Vec<_>>().join("\n"))
            }
        }
        Err(e) => Built::Broken(e.to_string()),
    }
}

type Digest = BTreeMap<(String, String), (u64, String)>;

fn digest(b: &Build, t: bool) -> Option<Digest> {
    let mut c = Command::new(&b.exe);
    c.arg("digest");
    if t {
        c.arg("--thorough");
    }
    let o = c.output().ok()?;
    let s = String::from_utf8_lossy(&o.stdout).into_owned();
    if !o.status.success() || s.lines().last() != Some("done") {
        eprintln!("the probe built with [{}] stops: {:?} {}", b.features, o.status, String::from_utf8_lossy(&o.stderr).lines().take(5).collect::<Vec<_>>().join(" "));
        return None;
    }
    let mut d = Digest::new();
    for l in s.lines() {
        let p: Vec<&str> = l.split('\t').collect();
        if p.len() == 4 {
            d.insert((p[0].to_string(), p[1].to_string()), (p[2].parse().unwrap_or(0), p[3].to_string()));
        }
    }
    Some(d)
}

/// the first input on which two builds differ
fn witness(a: &Build, b: &Build, case: &str, entry: &str, t: bool) -> String {
    let dump = |x: &Build| {
        let mut c = Command::new(&x.exe);
        c.args(["dump", case, entry]);
        if t {
            c.arg("--thorough");
        }
        c.output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default()
    };
    let (x, y) = (dump(a), dump(b));
    let parse = |s: &str| -> BTreeMap<String, String> { s.lines().filter_map(|l| l.split_once('\t').map(|(a, b)| (a.to_string(), b.to_string()))).collect() };
    let (x, y) = (parse(&x), parse(&y));
    let mut diff: Vec<&String> = x.keys().chain(y.keys()).filter(|k| x.get(*k) != y.get(*k)).collect();
    diff.sort_by_key(|k| (k.len(), (*k).clone()));
    match diff.first() {
        Some(k) => format!("input {k}: [{}] gives {:?}, [{}] gives {:?} ({} inputs differ)", a.features, x.get(*k).map(|s| s.chars().take(300).collect::<String>()), b.features, y.get(*k).map(|s| s.chars().take(300).collect::<String>()), diff.len() / 2),
        None => "digests differ".into(),
    }
}

fn builds(dir: &str, sets: &[&'static str]) -> Vec<Built> {
    std::thread::scope(|s| {
        let mut out = vec![];
        // a few builds at a time
        for (k, chunk) in sets.chunks(4).enumerate() {
            let h: Vec<_> = chunk.iter().enumerate().map(|(i, f)| s.spawn(move || build(dir, 4 * k + i, f))).collect();
            out.extend(h.into_iter().map(|h| h.join().unwrap_or(Built::Broken("build thread".into()))));
        }
        out
    })
}

/// the first build of every set of features
pub fn prebuild(dir: &str) {
    builds(dir, &QUICK);
}

pub fn run(ctx: &Ctx) -> bool {
    let t = ctx.thorough;
    let sets: Vec<&'static str> = QUICK.iter().chain(if t { &MORE[..] } else { &[] }).copied().collect();
    let t0 = std::time::Instant::now();
    let built = builds(&ctx.dir, &sets);
    let mut builds = vec![];
    for b in built {
        match b {
            Built::Ok(b) => builds.push(b),
            Built::None(f) => {
                if f == sets[0] {
                    eprintln!("the crate does not build");
                    return false;
                }
                ctx.sections.lock().unwrap().push(format!("[{f}]: the crate does not build, nothing to compare"));
            }
            Built::Broken(m) => {
                eprintln!("the probe does not build:\n{m}");
                return false;
            }
        }
    }
    ctx.sections.lock().unwrap().push(format!("{} builds, {:.1} s", builds.len(), t0.elapsed().as_secs_f64()));
    let Some(base) = digest(&builds[0], t) else { return false };
    let n: u64 = base.values().map(|v| v.0).sum();
    ctx.states.fetch_add(n, std::sync::atomic::Ordering::SeqCst);
    for b in &builds[1..] {
        let t0 = std::time::Instant::now();
        let d = digest(b, t);
        let Some(d) = d else {
            // an abort of this build only
            ctx.check("features", &|| format!("{}|runs", b.features), || Err("the enumeration does not finish in this build, and does in the base build".into()));
            continue;
        };
        let (mut common, mut shown, mut outcomes) = (0, 0, 0);
        for (k, v) in &base {
            let Some(w) = d.get(k) else { continue };
            common += 1;
            outcomes += v.0;
            ctx.batch("features", &|| format!("{}|{}|{}", b.features, k.0, k.1), v.0, || {
                if v == w {
                    return Ok(());
                }
                shown += 1;
                if shown > 6 {
                    return Err("digests differ".into());
                }
                Err(witness(&builds[0], b, &k.0, &k.1, t))
            });
        }
        // functions the base build does not have, compared with the last build
        ctx.sections.lock().unwrap().push(format!("[{}]: {common} entry points in common with [{}], {outcomes} outcomes, {:.1} s", b.features, builds[0].features, t0.elapsed().as_secs_f64()));
        let mut s = ctx.samples.lock().unwrap();
        if s.len() < 12 {
            if let Some((k, v)) = d.iter().nth(d.len() / 3) {
                s.push(format!("[{}] {} {}: {} outcomes, digest {}", b.features, k.0, k.1, v.0, v.1));
            }
        }
    }
    true
}
