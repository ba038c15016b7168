//! Values made with constructors (not read from octets), encoded in every way.
use crate::api_any::Res;
use crate::derived::{choice_ind, shapes_ind};
use crate::same;
use crate::enc::{acct_ber, acct_der};
use crate::engine::*;
use crate::model;
use crate::v::*;
use asn1_rs::*;
use std::borrow::Cow;

/// structure of an encoding; the definite and the indefinite form look the same
fn tree(b: &[u8], out: &mut String) -> std::result::Result<(), String> {
    let r = model::R::new(false, 0);
    let mut p = 0;
    while p < b.len() {
        let (h, c, n) = r.frame(&b[p..]).ok_or_else(|| format!("not an element: {}", hex(&b[p..])))?;
        out.push_str(&format!("{}.{}{}", h.class, h.tag, if h.cons { "(" } else { "[" }));
        if h.cons {
            tree(c, out)?;
        } else {
            out.push_str(&hex(c));
        }
        out.push(if h.cons { ')' } else { ']' });
        p += n;
    }
    Ok(())
}

fn tree_of(b: &[u8]) -> std::result::Result<String, String> {
    let mut s = String::new();
    tree(b, &mut s)?;
    Ok(s)
}

/// sizes at which every fault of the destination is tried
fn deep(n: usize) -> bool {
    n < 24 || (126..134).contains(&n) || (254..262).contains(&n)
}

/// `want`: the definite encoding
fn ber<T: ToBer>(w: &str, t: &T, want: &[u8], exact: bool) -> Res {
    let mut ex = 0;
    let got = acct_ber(t, deep(want.len()), &mut ex).map_err(|e| format!("{w}: {e}"))?;
    let got = got.ok_or_else(|| format!("{w}: refused"))?;
    if exact {
        same!(hex(&got), hex(want), "{w}, BER");
    } else {
        same!(tree_of(&got).map_err(|e| format!("{w}: {}: {e}", hex(&got)))?, tree_of(want)?, "{w}, BER");
    }
    Ok(())
}

fn der<T: ToDer>(w: &str, t: &T, want: &[u8]) -> Res {
    let mut ex = 0;
    let got = acct_der(t, deep(want.len()), &mut ex).map_err(|e| format!("{w}: {e}"))?;
    let got = got.ok_or_else(|| format!("{w}: refused"))?;
    same!(hex(&got), hex(want), "{w}, DER");
    Ok(())
}

fn both<T: ToBer + ToDer>(w: &str, t: &T, want: &[u8]) -> Res {
    ber(w, t, want, true)?;
    der(w, t, want)
}

fn seq(c: &[u8]) -> Vec<u8> {
    model::tlv(0, true, 16, c)
}
fn set(c: &[u8]) -> Vec<u8> {
    model::tlv(0, true, 17, c)
}
fn bools(v: &[bool]) -> Vec<u8> {
    v.iter().flat_map(|b| [1, 1, if *b { 0xff } else { 0 }]).collect()
}
fn ctx_(cons: bool, n: u32, c: &[u8]) -> Vec<u8> {
    model::tlv(2, cons, n, c)
}

/// collections written in the indefinite form, alone and inside everything that may hold them
fn indefinite(v: &[bool], u: &[bool]) -> Res {
    let iv = || IndefiniteVec(v.to_vec());
    let iu = || IndefiniteVec(u.to_vec());
    let (a, b) = (seq(&bools(v)), seq(&bools(u)));
    let ab = [a.clone(), b.clone()].concat();
    let mut ex = 0;
    let plain = acct_ber(&iv(), true, &mut ex)?.ok_or("refused")?;
    same!(hex(&plain), hex(&model::indef(0, 16, &bools(v))), "IndefiniteVec<bool>");
    ber("&IndefiniteVec<bool>", &&iv(), &a, false)?;
    ber("IndefiniteVec<IndefiniteVec<bool>>", &IndefiniteVec(vec![iv(), iu()]), &seq(&ab), false)?;
    ber("IndefiniteVec<Vec<bool>>", &IndefiniteVec(vec![v.to_vec(), u.to_vec()]), &seq(&ab), false)?;
    ber("IndefiniteVec<IndefiniteVec<IndefiniteVec<bool>>>", &IndefiniteVec(vec![IndefiniteVec(vec![iv()]), IndefiniteVec(vec![]), IndefiniteVec(vec![iu(), iv()])]), &seq(&[seq(&a), seq(&[]), seq(&[&b[..], &a].concat())].concat()), false)?;
    ber("Vec<IndefiniteVec<bool>>", &vec![iv(), iu()], &seq(&ab), false)?;
    ber("Vec<Vec<IndefiniteVec<bool>>>", &vec![vec![iv()], vec![], vec![iu(), iv()]], &seq(&[seq(&a), seq(&[]), seq(&[&b[..], &a].concat())].concat()), false)?;
    ber("[IndefiniteVec<bool>; 2]", &[iv(), iu()], &seq(&ab), false)?;
    ber("SequenceOf<IndefiniteVec<bool>>", &SequenceOf::from_iter([iv(), iu()]), &seq(&ab), false)?;
    ber("SetOf<IndefiniteVec<bool>>", &SetOf::from_iter([iv(), iu()]), &set(&ab), false)?;
    ber("Option<IndefiniteVec<bool>>", &Some(iv()), &a, false)?;
    ber("explicit IndefiniteVec<bool>", &TaggedValue::<_, Error, Explicit, 2, 3>::explicit(iv()), &ctx_(true, 3, &a), false)?;
    ber("explicit explicit IndefiniteVec<bool>", &TaggedValue::<_, Error, Explicit, 2, 3>::explicit(TaggedValue::<_, Error, Explicit, 2, 31>::explicit(iv())), &ctx_(true, 3, &ctx_(true, 31, &a)), false)?;
    ber("Vec of explicit IndefiniteVec<bool>", &vec![TaggedValue::<_, Error, Explicit, 2, 3>::explicit(iv())], &seq(&ctx_(true, 3, &a)), false)?;
    ber("implicit IndefiniteVec<bool>", &TaggedValue::<_, Error, Implicit, 2, 3>::implicit(iv()), &ctx_(true, 3, &bools(v)), false)?;
    ber("implicit Vec<IndefiniteVec<bool>>", &TaggedValue::<_, Error, Implicit, 2, 3>::implicit(vec![iv(), iu()]), &ctx_(true, 3, &ab), false)?;
    ber("derived SEQUENCE", &shapes_ind::S { a: iv(), b: TaggedValue::explicit(iu()), c: TaggedValue::implicit(iv()), d: Some(iu()), e: u.to_vec() }, &seq(&[a.clone(), ctx_(true, 1, &b), ctx_(true, 2, &bools(v)), b.clone(), b.clone()].concat()), false)?;
    ber("derived SET", &shapes_ind::T { a: iv(), b: TaggedValue::explicit(iu()), c: TaggedValue::implicit(iv()), d: Some(iu()), e: u.to_vec() }, &set(&[a.clone(), ctx_(true, 1, &b), ctx_(true, 2, &bools(v)), b.clone(), b.clone()].concat()), false)?;
    ber("ApplicationExplicit", &ApplicationExplicit::<_, Error, 7>::explicit(iv()), &model::tlv(1, true, 7, &a), false)?;
    Ok(())
}

/// a string of every length in everything that may hold it
fn sized(n: usize) -> Res {
    let s: Vec<u8> = (0..n).map(|i| b"abcdefgh"[i % 8]).collect();
    let text = String::from_utf8(s.clone()).unwrap();
    let o = || OctetString::new(&s);
    let os = model::tlv(0, false, 4, &s);
    let oi = |c: u32| ctx_(false, c, &s);
    let us = model::tlv(0, false, 12, &s);
    both("OctetString", &o(), &os)?;
    both("&[u8]", &&s[..], &os)?;
    both("&str", &&text[..], &us)?;
    both("String", &text.clone(), &us)?;
    both("Utf8String", &Utf8String::new(&text), &us)?;
    both("PrintableString", &PrintableString::new(&text), &model::tlv(0, false, 19, &s))?;
    both("Ia5String", &Ia5String::new(&text), &model::tlv(0, false, 22, &s))?;
    both("BitString", &BitString::new(0, &s), &model::tlv(0, false, 3, &[&[0], &s[..]].concat()))?;
    both("Vec<OctetString>", &vec![o()], &seq(&os))?;
    both("Vec<&str>", &vec![&text[..], "x"], &seq(&[&us[..], &[12, 1, b'x']].concat()))?;
    both("Vec<Vec<OctetString>>", &vec![vec![o()], vec![]], &seq(&[seq(&os), seq(&[])].concat()))?;
    both("SequenceOf<OctetString>", &SequenceOf::from_iter([o()]), &seq(&os))?;
    both("SetOf<OctetString>", &SetOf::from_iter([o()]), &set(&os))?;
    both("BTreeSet<&[u8]>", &std::collections::BTreeSet::from([&s[..]]), &set(&os))?;
    both("HashSet<String>", &std::collections::HashSet::from([text.clone()]), &set(&us))?;
    both("[OctetString; 1]", &[o()], &seq(&os))?;
    both("Option<OctetString>", &Some(o()), &os)?;
    both("&OctetString", &&o(), &os)?;
    both("Sequence", &Sequence::new(Cow::Borrowed(&s)), &seq(&s))?;
    both("Set", &Set::new(Cow::Borrowed(&s)), &set(&s))?;
    both("Any", &Any::from_tag_and_data(Tag(31), Input::from_slice(&s)), &model::tlv(0, false, 31, &s))?;
    both("explicit OctetString", &TaggedValue::<_, Error, Explicit, 2, 3>::explicit(o()), &ctx_(true, 3, &os))?;
    both("implicit OctetString", &TaggedValue::<_, Error, Implicit, 2, 200>::implicit(o()), &oi(200))?;
    both("explicit implicit OctetString", &TaggedValue::<_, Error, Explicit, 2, 3>::explicit(TaggedValue::<_, Error, Implicit, 2, 200>::implicit(o())), &ctx_(true, 3, &oi(200)))?;
    both("explicit explicit OctetString", &TaggedValue::<_, Error, Explicit, 1, 3>::explicit(TaggedValue::<_, Error, Explicit, 3, 200>::explicit(o())), &model::tlv(1, true, 3, &model::tlv(3, true, 200, &os)))?;
    both("implicit Vec<OctetString>", &TaggedValue::<_, Error, Implicit, 2, 4>::implicit(vec![o()]), &ctx_(true, 4, &os))?;
    let f = shapes_ind::F { a: o(), b: o(), c: o(), d: Some(o()), e: None, f: vec![o()], g: Some(o()) };
    let want = [os.clone(), ctx_(true, 1, &os), oi(2), ctx_(true, 3, &os), ctx_(true, 41, &os), oi(40)].concat();
    both("derived SEQUENCE", &f, &seq(&want))?;
    let g = shapes_ind::G { a: o(), b: o(), c: o(), d: Some(o()), e: None, f: vec![o()], g: Some(o()) };
    both("derived SET", &g, &set(&want))?;
    both("derived CHOICE", &choice_ind::C::B(o()), &os)?;
    both("derived CHOICE, explicit tags", &choice_ind::E::B(o()), &ctx_(true, 1, &os))?;
    both("derived CHOICE, implicit tags", &choice_ind::I::B(o()), &oi(1))?;
    both("Vec of derived CHOICE", &vec![choice_ind::E::B(o()), choice_ind::E::B(OctetString::new(&[]))], &seq(&[ctx_(true, 1, &os), ctx_(true, 1, &[4, 0])].concat()))?;
    Ok(())
}

/// absent values inside everything that may hold them
fn absent(present: bool, x: u32) -> Res {
    let v = if present { Some(x) } else { None };
    let mut c = vec![];
    if present {
        let mut i = x.to_be_bytes().to_vec();
        while i.len() > 1 && i[0] == 0 && i[1] < 0x80 {
            i.remove(0);
        }
        if i[0] >= 0x80 {
            i.insert(0, 0);
        }
        c = model::tlv(0, false, 2, &i);
    }
    both("Option<u32>", &v, &c)?;
    both("&Option<u32>", &&v, &c)?;
    both("Option<Option<u32>>", &Some(v), &c)?;
    let e: Option<TaggedValue<u32, Error, Explicit, 2, 3>> = v.map(TaggedValue::explicit);
    both("Option of explicit u32", &e, &if present { ctx_(true, 3, &c) } else { vec![] })?;
    let e: Option<TaggedValue<u32, Error, Implicit, 2, 3>> = v.map(TaggedValue::implicit);
    both("Option of implicit u32", &e, &if present { ctx_(false, 3, &c[2..]) } else { vec![] })?;
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.section("values in the indefinite form", || {
        let mut all = vec![];
        for n in 0..if ctx.thorough { 5 } else { 4 } {
            for k in 0..1 << n {
                all.push((0..n).map(|i| k >> i & 1 == 1).collect::<Vec<bool>>());
            }
        }
        // contents around 128 and 256 octets
        for n in [41, 42, 43, 84, 85, 86] {
            all.push((0..n).map(|i| i % 3 == 0).collect());
        }
        let pairs: Vec<_> = all.iter().flat_map(|a| all.iter().map(move |b| (a, b))).collect();
        ctx.par(&pairs, |(a, b)| ctx.check("indefinite", &|| format!("{a:?} {b:?}"), || indefinite(a, b)));
    });
    ctx.section("values of every size", || {
        let mut all: Vec<usize> = (0..if ctx.thorough { 1200 } else { 280 }).collect();
        all.extend(65480..65545);
        ctx.par(&all, |n| ctx.check("size", &|| format!("{n}"), || sized(*n)));
    });
    ctx.section("absent values", || {
        for p in [false, true] {
            for x in [0, 1, 127, 128, 255, 256, 32767, 32768, u32::MAX] {
                ctx.check("absent", &|| format!("{p} {x}"), || absent(p, x));
            }
        }
    });
}
