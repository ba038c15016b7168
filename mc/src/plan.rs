//! What each property explores.
use crate::api_any;
use crate::api_coll;
use crate::api_deep;
use crate::api_enc;
use crate::api_feat;
use crate::api_input;
use crate::api_len;
use crate::api_macro;
use crate::api_static;
use crate::api_str;
use crate::api_tag;
use crate::api_val;
use crate::engine::*;
use crate::ep::*;
use crate::model;
use crate::src::*;
use crate::types::*;
use std::sync::atomic::Ordering::*;

static DEPTHS_Q: [usize; 14] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 48, 49, 50, 51, 52];
static DEPTHS_T: [usize; 60] = {
    let mut d = [0; 60];
    let mut i = 0;
    while i < 60 {
        d[i] = i + 1;
        i += 1;
    }
    d
};

fn all_eps(_: &Ep) -> bool {
    true
}

fn pick(cs: &[Case], f: impl Fn(&Case) -> bool) -> Vec<Case> {
    cs.iter().filter(|c| f(c)).cloned().collect()
}

fn groups(cs: &[Case], g: &[&str]) -> Vec<Case> {
    pick(cs, |c| g.contains(&c.group))
}

fn replay(ctx: &Ctx, b: &[u8], mask: u32) {
    let name = ctx.filter.as_ref().map(|f| f.0.clone()).unwrap_or_default();
    for c in all().iter().filter(|c| c.name == name) {
        ctx.states.fetch_add(1, SeqCst);
        ctx.judge(c, b, mask, &all_eps);
        for ep in &c.eps {
            let o = guard(|| (ep.f)(b));
            println!("  {}: {o:?}   model {:?}", ep.name, model::run(&expected(ep.shape, &c.ty), ep.der, 0, b).0);
        }
    }
}

fn mask_of(p: &str) -> u32 {
    match p {
        "C01" => MEM,
        "C02" | "C03" => MODEL,
        "C04" => PREFIX | SUFFIX,
        "C05" | "C12" | "C13" | "C14" | "C15" | "C16" | "C18" | "C25" => MODEL | REENC,
        "C06" => REENC,
        "C07" => ACCT | DEEP,
        "C08" => MODEL | CANON,
        "C09" => DERBER | REENC,
        "C10" => AGREE,
        "C11" | "C17" => MODEL | REENC,
        "C19" => STATIC,
        "C20" | "C21" | "C23" => 0,
        _ => MODEL,
    }
}

pub fn run_model(ctx: &Ctx, cs: &[Case], g: &[&str], mask: u32, label: &str) {
    let t = ctx.thorough;
    let cs = groups(cs, g);
    Src::new(&cs).grids(t).mutated(if t { 64 } else { 14 }, true, true, if t { 400 } else { 40 }).run(ctx, label, mask, &all_eps);
    if t {
        Src::new(&cs).mutated2(24, 16).run(ctx, &format!("{label}, two deviations"), mask, &all_eps);
    }
}

pub fn run(ctx: &Ctx, input: Option<&[u8]>) -> Option<Vec<String>> {
    let mask = mask_of(ctx.prop);
    if let Some(b) = input {
        replay(ctx, b, mask);
        return Some(vec![]);
    }
    let t = ctx.thorough;
    let cs = all();
    match ctx.prop {
        "C02" => {
            run_model(ctx, &cs, &["any"], mask, "headers and untyped elements");
            api_len::headers(ctx);
        }
        "C21" => {
            Src::new(&cs).mutated(if t { 64 } else { 8 }, true, true, if t { 200 } else { 8 }).run(ctx, "all cursor decoders", mask, &|e| e.cursor);
            api_input::run(ctx, &cs);
        }
        "C24" => {
            Src::new(&cs).mutated(if t { 64 } else { 8 }, true, true, if t { 200 } else { 12 }).run(ctx, "accessors and conversions", mask, &|e| e.name.starts_with("Any::") || e.name.starts_with("TryFrom"));
            api_any::run(ctx, &cs);
        }
        "C22" => {
            api_len::lengths(ctx);
            api_len::helpers(ctx);
        }
        "C05" => {
            run_model(ctx, &cs, &["int"], mask, "integers");
            api_val::ints(ctx);
        }
        "C11" => {
            run_model(ctx, &cs, &["tag", "tagp", "opt"], mask, "tagged and optional");
            api_tag::run(ctx, &cs);
        }
        "C12" => {
            run_model(ctx, &cs, &["str"], mask, "character strings");
            api_str::run(ctx);
        }
        "C13" => {
            run_model(ctx, &cs, &["bits"], mask, "bit and octet strings");
            api_val::bits(ctx);
        }
        "C14" => {
            run_model(ctx, &cs, &["oid"], mask, "object identifiers");
            api_val::oids(ctx);
        }
        "C15" => {
            run_model(ctx, &cs, &["real"], mask, "reals");
            api_val::reals(ctx);
        }
        "C16" => {
            run_model(ctx, &cs, &["time"], mask, "times");
            api_val::times(ctx);
            api_val::time_texts(ctx, &cs);
        }
        "C18" => run_model(ctx, &cs, &["derived"], mask, "derived codecs"),
        "C17" => {
            run_model(ctx, &cs, &["coll", "pdv"], mask, "collections");
            api_coll::run(ctx);
        }
        "C25" => run_model(ctx, &cs, &["misc"], mask, "simple types"),
        "PDV" => run_model(ctx, &cs, &["pdv"], MODEL, "embedded pdv"),
        "C03" => {
            let c = pick(&cs, |c| ["Any", "Sequence", "OctetString", "Vec<u32>", "AnySequence"].contains(&c.name));
            Src::new(&c).raw(&[0x00, 0x01, 0x02, 0x04, 0x20, 0x24, 0x30, 0x80, 0x81, 0xa0, 0x1f, 0xff], if t { 7 } else { 5 }).mutated(10, true, true, 40).run(ctx, "frames", mask, &all_eps);
            api_deep::frames(ctx);
            Src::new(&cs).nests(if t { &DEPTHS_T } else { &DEPTHS_Q }, &[&[], &[2, 1, 5], &[4, 2, 0, 0]], t).run(ctx, "nesting", mask, &all_eps);
        }
        "C04" => {
            Src::new(&cs).mutated(if t { 24 } else { 4 }, false, t, if t { 100 } else { 12 }).run(ctx, "truncation and trailing data", mask, &all_eps);
        }
        "C01" => {
            Src::new(&cs).mutated(if t { 64 } else { 8 }, true, true, if t { 200 } else { 8 }).run(ctx, "all codecs", mask, &all_eps);
            Src::new(&cs).nests(&[60, 1000, 30_000], &[&[], &[4, 1, 0x61]], false).run(ctx, "nesting", mask, &all_eps);
            Src::new(&cs).wide(if t { 60_000 } else { 6_000 }).run(ctx, "many members", mask, &all_eps);
            api_deep::walks(ctx);
        }
        "C06" | "C09" | "C10" | "C08" => {
            Src::new(&cs).mutated(if t { 64 } else { 8 }, true, true, if t { 200 } else { 8 }).run(ctx, "all codecs", mask, &all_eps);
        }
        "C07" => {
            Src::new(&cs).mutated(2, false, false, if t { 100 } else { 10 }).run(ctx, "all encoders", mask, &all_eps);
            api_enc::run(ctx);
        }
        "C19" => {
            let c = pick(&cs, |c| !c.stat.is_empty());
            Src::new(&c).mutated(if t { 64 } else { 12 }, true, true, if t { 400 } else { 30 }).run(ctx, "owned copies", mask, &all_eps);
            api_static::run(ctx);
        }
        "C20" => {
            if !api_feat::run(ctx) {
                return None;
            }
        }
        "C23" => {
            if !api_macro::run(ctx) {
                return None;
            }
        }
        _ => return None,
    }
    Some(vec![])
}
