//! Command line, known findings, evidence and replay artefacts.
use crate::engine::*;
use crate::model::flag;
use crate::v::{hex, unhex};
use crate::{mon, plan};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn load_known(dir: &str, prop: &str) -> Vec<Known> {
    let txt = std::fs::read_to_string(format!("{dir}/known-findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in txt.lines() {
        let Some(r) = l.strip_prefix("known: ") else { continue };
        let mut p = String::new();
        let mut fl = 0;
        let mut key = String::new();
        let mut at = vec![];
        let mut rest = r;
        loop {
            rest = rest.trim_start();
            if let Some(x) = rest.strip_prefix("property=") {
                let (a, b) = x.split_once(' ').unwrap_or((x, ""));
                p = a.to_string();
                rest = b;
            } else if let Some(x) = rest.strip_prefix("flag=") {
                let (a, b) = x.split_once(' ').unwrap_or((x, ""));
                for i in 0..32 {
                    if flag::name(1 << i) == a {
                        fl |= 1 << i;
                    }
                }
                rest = b;
            } else if let Some(x) = rest.strip_prefix("key=\"") {
                let (a, b) = x.split_once('"').unwrap_or((x, ""));
                key = a.to_string();
                rest = b;
            } else if let Some(x) = rest.strip_prefix("at=\"") {
                let (a, b) = x.split_once('"').unwrap_or((x, ""));
                at = a.split(' ').map(|s| s.to_string()).collect();
                rest = b;
            } else {
                break;
            }
        }
        if p == "*" || p.split(',').any(|x| x == prop) {
            out.push(Known { flag: fl, key, at, what: rest.to_string() });
        }
    }
    out
}

pub fn main(a: &[String]) -> i32 {
    let dir = std::env::var("MC_DIR").unwrap_or_else(|_| "/verif".into());
    if a[0] == "prebuild" {
        crate::api_macro::prebuild(&dir);
        crate::api_feat::prebuild(&dir);
        return 0;
    }
    let (prop, filter, input): (String, Option<(String, String)>, Option<Vec<u8>>) = if a[0] == "replay" {
        let t = std::fs::read_to_string(&a[1]).expect("replay file");
        let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).map(|s| s.to_string())).unwrap_or_default();
        let inp = get("input=");
        let input = if t.lines().any(|l| l.starts_with("input=")) { Some(unhex(&inp)) } else { None };
        (get("property="), Some((get("case="), get("key="))), input)
    } else {
        (a[0].clone(), None, None)
    };
    let thorough = std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false) || a.iter().any(|x| x == "--thorough");
    let prop: &'static str = Box::leak(prop.into_boxed_str());
    let rdir = format!("{dir}/evidence/replay");
    let _ = std::fs::create_dir_all(&rdir);
    let crash: &'static str = Box::leak(format!("{rdir}/{prop}-crash.txt").into_boxed_str());
    let _ = std::fs::remove_file(crash);
    quiet_panics();
    mon::install(prop, crash);
    let ctx = Ctx {
        prop,
        thorough,
        known: load_known(&dir, prop),
        dir: dir.clone(),
        states: AtomicU64::new(0),
        transitions: AtomicU64::new(0),
        traces: AtomicU64::new(0),
        viols: Mutex::new(vec![]),
        sites: std::env::var("MC_SITES").ok().map(|_| Default::default()),
        seen_known: Mutex::new(BTreeMap::new()),
        filter,
        samples: Mutex::new(vec![]),
        sections: Mutex::new(vec![]),
        start: std::time::Instant::now(),
    };
    if let Some(b) = &input {
        println!("replaying {} octets on {}", b.len(), ctx.filter.as_ref().unwrap().0);
    }
    let assumptions = plan::run(&ctx, input.as_deref());
    let Some(assumptions) = assumptions else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    // deterministic order
    let mut viols = ctx.viols.into_inner().unwrap();
    viols.sort_by(|a, b| (&a.case, &a.key, a.input.len(), &a.input).cmp(&(&b.case, &b.key, b.input.len(), &b.input)));
    let wall = ctx.start.elapsed().as_secs_f64();
    for (i, (n, what)) in ctx.seen_known.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={prop} {} ({n} states, e.g. {what})", ctx.known[*i].what);
    }
    if let (Some(g), Ok(p)) = (&ctx.sites, std::env::var("MC_SITES")) {
        let l: Vec<String> = g.lock().unwrap().iter().cloned().collect();
        let _ = std::fs::write(p, l.join("\n") + "\n");
    }
    let mut shown = 0;
    for (i, v) in viols.iter().enumerate() {
        let path = format!("{rdir}/{prop}-{i}.txt");
        let mut t = format!("property={prop}\ncase={}\nkey={}\n", v.case, v.key);
        if !v.input.is_empty() {
            t.push_str(&format!("input={}\n", v.input.iter().map(|x| format!("{x:02x}")).collect::<String>()));
        }
        t.push_str(&format!("detail={}\n", v.detail.replace('\n', " ")));
        let _ = std::fs::write(&path, t);
        if shown < std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(60) {
            println!("VIOLATION property={prop} replay={path}");
            println!("  {} | {} | {}", v.case, v.key, hex(&v.input));
            println!("    {}", v.detail.chars().take(500).collect::<String>());
        }
        shown += 1;
    }
    let (s, t, x) = (ctx.states.load(SeqCst), ctx.transitions.load(SeqCst), ctx.traces.load(SeqCst));
    println!("{prop}: {s} states, {t} transitions, {x} executions compared, {} violation(s), {wall:.1} s", viols.len());
    for l in ctx.sections.lock().unwrap().iter() {
        println!("  {l}");
    }
    if input.is_none() {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
        let list = |v: &[String]| format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
        let known: Vec<String> = ctx.seen_known.lock().unwrap().iter().map(|(i, (n, w))| format!("known finding met in {n} states: {} e.g. {w}", ctx.known[*i].what)).collect();
        let mut asm = assumptions;
        asm.extend(ctx.sections.lock().unwrap().iter().cloned());
        asm.extend(known);
        let vl: Vec<String> = viols.iter().take(50).map(|v| format!("{} | {} | {} | {}", v.case, v.key, hex(&v.input), v.detail)).collect();
        let e = format!(
            "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n    \"states\": {s},\n    \"transitions\": {t},\n    \"traces_validated_against_impl\": {x},\n    \"samples\": {},\n    \"exhaustive\": true\n  }},\n  \"wall_s\": {wall:.2},\n  \"assumptions\": {},\n  \"violations\": {},\n  \"violation_list\": {}\n}}\n",
            js(prop),
            js(if thorough { "thorough" } else { "quick" }),
            list(&ctx.samples.lock().unwrap()),
            list(&asm),
            viols.len(),
            list(&vl)
        );
        let _ = std::fs::write(format!("{dir}/evidence/{prop}.json"), e);
    }
    if viols.is_empty() {
        0
    } else {
        1
    }
}
