//! Nesting: framing up to a configured depth, and walks over nested elements.
use crate::api_any::Res;
use crate::engine::*;
use crate::ep::*;
use crate::gen::*;
use crate::model;
use crate::v::hex;
use crate::{ensure, same};
use asn1_rs::*;

fn frame(b: &[u8], max: usize) -> Res {
    let i = cursor(b);
    let r = model::R::new(false, 0);
    let (rem, h) = match Header::parse_ber(i.clone()) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let want = r.frame_depth(b, max);
    let got = BerMode::get_object_content(&h, rem.clone(), max);
    match (&got, &want) {
        (Ok((r, c)), Some((hd, w, n))) => {
            same!(c.as_bytes2(), *w, "contents");
            same!(r.as_bytes2(), &b[*n..], "remainder");
            check_input(c, b, BASE)?;
            check_input(r, b, BASE)?;
            same!(c.start(), BASE + hd.hlen, "contents start");
        }
        (Err(e), None) => {
            if let nom::Err::Error(e) | nom::Err::Failure(e) = e {
                check_input(e.input(), b, BASE)?;
            }
        }
        (g, w) => return Err(format!("depth {max}: got {g:?}, expected {w:?}")),
    }
    if max == MAX_RECURSION {
        let g2 = ber_get_content(&h, rem.clone());
        same!(g2, got, "ber_get_content");
    }
    let wd = h.length().definite().ok().filter(|l| rem.len() >= *l);
    for (n, g) in [("der_get_content", der_get_content(&h, rem.clone())), ("DerMode::get_object_content", DerMode::get_object_content(&h, rem.clone(), max))] {
        match (g, wd) {
            (Ok((r, c)), Some(l)) => {
                same!(c.as_bytes2(), &rem.as_bytes2()[..l], "{n}");
                same!(r.as_bytes2(), &rem.as_bytes2()[l..], "{n}: remainder");
                check_input(&c, b, BASE)?;
                check_input(&r, b, BASE)?;
            }
            (Err(_), None) => (),
            (g, w) => return Err(format!("{n}: {g:?}, expected {w:?} octets")),
        }
    }
    Ok(())
}

pub fn frames(ctx: &Ctx) {
    ctx.section("contents up to a configured depth", || {
        let mut ins = vec![];
        let d: Vec<usize> = (1..=if ctx.thorough { 60 } else { 12 }).chain([49, 50, 51, 52]).collect();
        nests(&d, &[&[], &[2, 1, 5], &[4, 2, 0, 0], &[0x30, 0]], ctx.thorough, &mut |b| ins.push(b));
        // siblings: a long nest after, or before, other elements
        for n in 1..12 {
            let x = nested(&[&[0x30]], Forms::Indef, n, &[], 0);
            let y = nested(&[&[0xa0], &[0x24]], Forms::Indef, 3, &[], 0);
            for c in [[&x[..], &y[..]].concat(), [&y[..], &x[..]].concat(), [&x[..], &x[..]].concat(), [&[5, 0], &x[..]].concat()] {
                ins.push(nested(&[&[0x31]], Forms::Indef, 1, &c, 0));
                ins.push(nested(&[&[0x31]], Forms::Head, 2, &c, 0));
            }
        }
        ins.sort();
        ins.dedup();
        ctx.par(&ins, |b| {
            for max in (0..14).chain(46..54) {
                ctx.check("frames", &|| format!("{max}|{}", hex(b)), || frame(b, max));
            }
        });
    });
}

/// number of levels found by descending through the first members
fn descend(a: &Any, der: bool, lvl: usize) -> std::result::Result<usize, String> {
    let mut n = lvl;
    if a.header.is_constructed() {
        if der {
            let mut k = 0;
            for x in AnyIterator::<DerMode>::new(a.data.clone()) {
                let (_, x) = x.map_err(|e| format!("level {lvl}: {e}"))?;
                n = n.max(descend(&x, der, lvl + 1)?);
                k += 1;
            }
            ensure!(k <= 1, "level {lvl} has {k} members");
        } else {
            for x in AnyIterator::<BerMode>::new(a.data.clone()) {
                let (_, x) = x.map_err(|e| format!("level {lvl}: {e}"))?;
                n = n.max(descend(&x, der, lvl + 1)?);
            }
        }
    }
    Ok(n)
}

/// one level at a time, without recursion
fn unwrap_all(b: &[u8]) -> Res {
    let mut cur: Vec<u8> = b.to_vec();
    let mut lvl = 0;
    loop {
        let next = {
            let (_, a) = Any::from_ber(&cur).map_err(|e| format!("level {lvl}: {e:?}"))?;
            let s = format!("{a:?}");
            ensure!(!s.is_empty(), "Debug prints nothing");
            same!(a.to_ber_vec().is_ok(), true, "to_ber_vec");
            if !a.header.is_constructed() || a.data.is_empty() {
                return Ok(());
            }
            a.data.as_bytes2().to_vec()
        };
        cur = next;
        lvl += 1;
    }
}

pub fn walks(ctx: &Ctx) {
    ctx.section("walks over nested elements", || {
        let mut ins = vec![];
        for d in 1..=50usize {
            for id in CONS {
                for f in FORMS {
                    ins.push((d, f, nested(&[id], f, d, &[2, 1, 5], 0)));
                }
            }
        }
        ctx.par(&ins, |(d, f, b)| {
            ctx.check("walks", &|| hex(b), || {
                let fits = model::R::new(false, 0).frame(b).is_some();
                match Any::from_ber(b) {
                    Ok((_, a)) => {
                        ensure!(fits, "deeper than documented, but accepted");
                        same!(descend(&a, false, 1)?, d + 1, "levels found");
                        unwrap_all(b)?;
                    }
                    Err(e) => ensure!(!fits, "{e:?}"),
                }
                if *f == Forms::Def {
                    let (_, a) = Any::from_der(b).map_err(|e| format!("{e:?}"))?;
                    same!(descend(&a, true, 1)?, d + 1, "levels found, DER");
                }
                Ok(())
            });
        });
        let mut big = vec![];
        for d in [500usize, 3000] {
            for id in CONS.iter().take(7) {
                big.push(nested(&[id], Forms::Def, d, &[4, 1, 0x61], 0));
            }
        }
        ctx.par(&big, |b| ctx.check("walks", &|| hex(b), || unwrap_all(b)));
    });
}
