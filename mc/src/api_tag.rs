//! C11: helpers that parse or build tagged values with a tag chosen at run time.
use crate::api_any::{corpus, Res};
use crate::engine::*;
use crate::gen::*;
use crate::model::{self, flag, Ty, M};
use crate::norm::Norm;
use crate::types::{bx, u32t, Case};
use crate::v::*;
use crate::{ensure, same};
use asn1_rs::nom::Parser;
use asn1_rs::*;

const CLASSES: [Class; 4] = [Class::Universal, Class::Application, Class::ContextSpecific, Class::Private];
const TAGS: [u32; 8] = [0, 1, 2, 4, 6, 31, 0x4000, u32::MAX];

fn elem(b: &[u8], der: bool) -> Option<(usize, u8, bool, u32, Vec<u8>, Option<usize>)> {
    // follow the implementation where the model leaves a choice
    let ok = if der { Any::from_der(b).is_ok() } else { Any::from_ber(b).is_ok() };
    match model::run(&Ty::Any, der, 0, b).0 {
        M::Acc { must, n, v: V::Any { class, cons, tag, indef, content } } if must || ok => Some((n, class, cons, tag, content.clone(), (!indef).then_some(content.len()))),
        // length octets that are not minimal: see the known findings
        M::Rej if ok && der => match model::run(&Ty::Any, der, flag::DER_LEN, b).0 {
            M::Acc { n, v: V::Any { class, cons, tag, indef, content }, .. } => Some((n, class, cons, tag, content.clone(), (!indef).then_some(content.len()))),
            _ => None,
        },
        _ => None,
    }
}

fn opt(b: &[u8]) -> Res {
    let mk: Vec<(OptTaggedParser, u8, u32)> = TAGS
        .iter()
        .flat_map(|t| {
            vec![
                (OptTaggedParser::universal(*t), 0, *t),
                (OptTaggedParser::application(*t), 1, *t),
                (OptTaggedParser::tagged(*t), 2, *t),
                (OptTaggedParser::private(*t), 3, *t),
                (OptTaggedParser::from(*t), 2, *t),
                (OptTaggedParser::from(Tag(*t)), 2, *t),
                (OptTaggedParser::new(Class::Private, Tag(*t)), 3, *t),
            ]
        })
        .collect();
    for der in [false, true] {
        let e = elem(b, der);
        for (p, c, t) in &mk {
            let calls = std::cell::Cell::new(0);
            let f = |h: Header, d| {
                calls.set(calls.get() + 1);
                let r: ParseResult<(V, Vec<u8>)> = Ok((&b""[..], (h.norm(), { let d: &[u8] = d; d.to_vec() })));
                r
            };
            let r = if der { p.parse_der(b, f) } else { p.parse_ber(b, f) };
            let w = format!("OptTaggedParser({c}, {t}), {}", if der { "DER" } else { "BER" });
            let rel = r.map(|(rem, v)| (b.len() - rem.len(), v));
            match &e {
                _ if b.is_empty() => same!(rel, Ok((0, None)), "{w}, nothing left"),
                None => ensure!(rel.is_err() && calls.get() == 0, "{w}: {rel:?} on a malformed element"),
                Some((n, class, cons, tag, content, len)) => {
                    if tag != t {
                        same!(rel, Ok((0, None)), "{w}, another tag");
                    } else if class != c {
                        // absent or refused, but never taken
                        ensure!(matches!(rel, Ok((0, None)) | Err(_)), "{w}: {rel:?} on another class");
                    } else {
                        let h = V::Hdr { class: *class, cons: *cons, tag: *tag, len: *len };
                        same!(rel, Ok((*n, Some((h, content.clone())))), "{w}");
                    }
                    same!(calls.get(), (tag == t && class == c) as u32, "{w}: calls");
                }
            }
            // failure of the callback is failure of the whole
            let f = |_: Header, _: &[u8]| -> ParseResult<u8> { Err(nom::Err::Failure(Error::InvalidDateTime)) };
            let r = if der { p.parse_der(b, f) } else { p.parse_ber(b, f) };
            if calls.get() > 0 {
                same!(r.map(|x| x.1), Err(nom::Err::Failure(Error::InvalidDateTime)), "{w}: failure of the callback");
            }
        }
    }
    Ok(())
}

fn outcome<T: Norm>(b: &[u8], r: IResult<&[u8], T, Error>) -> Option<(usize, V)> {
    r.ok().map(|(rem, t)| (b.len() - rem.len(), t.norm()))
}

macro_rules! run_time {
    ($b:ident, $t:ty, $ty:expr) => {{
        let b: &[u8] = $b;
        for (kind, ty) in [("explicit", Ty::TaggedAnyExpl(bx($ty))), ("implicit", Ty::TaggedAnyImpl(bx($ty)))] {
            for der in [false, true] {
                // what the parser accepting any tag makes of it (compared with the model by the first part of this check)
                let base = match (kind, der) {
                    ("explicit", false) => outcome(b, TaggedParser::<Explicit, $t>::from_ber(b)),
                    ("explicit", true) => outcome(b, TaggedParser::<Explicit, $t>::from_der(b)),
                    ("implicit", false) => outcome(b, TaggedParser::<Implicit, $t>::from_ber(b)),
                    _ => outcome(b, TaggedParser::<Implicit, $t>::from_der(b)),
                };
                if let M::Acc { must: true, n, v } = model::run(&ty, der, 0, b).0 {
                    same!(base, Some((n, v)), "TaggedParser<{kind}>, der {der}");
                }
                let is = |c: Class, t: u32| base.clone().filter(|(_, v)| matches!(v, V::List(l) if matches!(&l[0], V::Hdr { class, tag, .. } if *class == c as u8 && *tag == t)));
                for c in CLASSES {
                    for t in TAGS {
                        let got = match (kind, der) {
                            ("explicit", false) => outcome(b, TaggedParser::<Explicit, $t>::parse_ber(c, Tag(t), b)),
                            ("explicit", true) => outcome(b, TaggedParser::<Explicit, $t>::parse_der(c, Tag(t), b)),
                            ("implicit", false) => outcome(b, TaggedParser::<Implicit, $t>::parse_ber(c, Tag(t), b)),
                            _ => outcome(b, TaggedParser::<Implicit, $t>::parse_der(c, Tag(t), b)),
                        };
                        same!(got, is(c, t), "TaggedParser<{kind}, {}>, {c} {t}, der {der}", stringify!($t));
                        let got = match (kind, der) {
                            ("explicit", false) => outcome(b, TaggedParserBuilder::explicit().with_class(c).with_tag(Tag(t)).ber_parser::<$t>().parse(b)),
                            ("explicit", true) => outcome(b, TaggedParserBuilder::explicit().with_tag(Tag(t)).with_class(c).der_parser::<$t>().parse(b)),
                            ("implicit", false) => outcome(b, TaggedParserBuilder::implicit().with_tag(Tag(t)).with_class(c).ber_parser::<$t>().parse(b)),
                            _ => outcome(b, TaggedParserBuilder::implicit().with_class(c).with_tag(Tag(t)).der_parser::<$t>().parse(b)),
                        };
                        same!(got, is(c, t), "TaggedParserBuilder {kind}, {}, {c} {t}, der {der}", stringify!($t));
                    }
                }
                let got = match (kind, der) {
                    ("explicit", false) => outcome(b, TaggedParserBuilder::explicit().ber_parser::<$t>().parse(b)),
                    ("explicit", true) => outcome(b, TaggedParserBuilder::<Explicit, Error>::default().der_parser::<$t>().parse(b)),
                    ("implicit", false) => outcome(b, TaggedParserBuilder::implicit().ber_parser::<$t>().parse(b)),
                    _ => outcome(b, TaggedParserBuilder::<Implicit, Error>::new().der_parser::<$t>().parse(b)),
                };
                same!(got, is(Class::Universal, 0), "TaggedParserBuilder without a tag");
                if der {
                    for t in TAGS {
                        // the class is left to the caller
                        let want = base.clone().filter(|(_, v)| matches!(v, V::List(l) if matches!(&l[0], V::Hdr { tag, .. } if *tag == t)));
                        let got = if kind == "explicit" { outcome(b, parse_der_tagged_explicit::<_, $t, Error>(t).parse(b)) } else { outcome(b, parse_der_tagged_implicit::<_, $t, Error>(t).parse(b)) };
                        same!(got, want, "parse_der_tagged_{kind}::<{}>({t})", stringify!($t));
                    }
                }
            }
        }
    }};
}

fn parsers(b: &[u8]) -> Res {
    run_time!(b, u32, u32t());
    run_time!(b, bool, Ty::Bool);
    run_time!(b, OctetString, Ty::Oct);
    // generic helpers: the callback sees exactly the contents
    let e = elem(b, true);
    for t in TAGS {
        let want = e.as_ref().filter(|x| x.3 == t).map(|(n, class, cons, tag, content, len)| (*n, V::List(vec![V::Hdr { class: *class, cons: *cons, tag: *tag, len: *len }, V::Bytes(content.clone())])));
        let got = parse_der_tagged_explicit_g::<_, _, _, Error>(t, |i: &[u8], h: Header| Ok((&b""[..], V::List(vec![h.norm(), V::Bytes(i.to_vec())])))).parse(b);
        same!(outcome(b, got), want, "parse_der_tagged_explicit_g({t})");
        let seen = std::cell::RefCell::new(None);
        let got = parse_der_tagged_implicit_g::<_, bool, _, Error>(t, |i: &[u8], g: Tag, h: Header| {
            *seen.borrow_mut() = Some((g, h.norm(), i.to_vec()));
            Ok((&b""[..], true))
        })
        .parse(b);
        same!(outcome(b, got).map(|x| x.0), want.as_ref().map(|x| x.0), "parse_der_tagged_implicit_g({t})");
        let want = e.as_ref().filter(|x| x.3 == t).map(|(_, class, cons, _, content, len)| (Tag(t), V::Hdr { class: *class, cons: *cons, tag: 1, len: *len }, content.clone()));
        same!(seen.into_inner(), want, "parse_der_tagged_implicit_g({t}): callback");
    }
    Ok(())
}

/// values tagged at run time
fn build(c: u8, t: u32) -> Res {
    let cl = CLASSES[c as usize];
    macro_rules! val { ($($x:expr, $cons:literal, $in:expr;)*) => { $( {
        let inner: Vec<u8> = $in;
        let (h, body) = { let hd = model::R::new(true, 0).header(&inner).unwrap(); (hd, ()) };
        let _ = body;
        let content = inner[inner.len() - h.len.unwrap()..].to_vec();
        let want = model::tlv(c, true, t, &inner);
        let x = $x.explicit(cl, t);
        same!((x.class(), x.tag()), (cl, Tag(t)), "explicit");
        same!(x.to_ber_vec().ok(), Some(want.clone()), "explicit, BER");
        same!(x.to_der_vec().ok(), Some(want.clone()), "explicit, DER");
        same!(x.as_ref().norm(), $x.norm(), "explicit, value");
        {
            let x = TaggedParser::<Explicit, _, Error>::new_explicit(cl, t, $x);
            same!((x.class(), x.tag()), (cl, Tag(t)), "new_explicit");
            ensure!(x.header.is_constructed(), "new_explicit: not constructed");
            same!(x.to_ber_vec().ok(), Some(want.clone()), "new_explicit, BER");
            same!(x.to_der_vec().ok(), Some(want.clone()), "new_explicit, DER");
        }
        let want = model::tlv(c, $cons, t, &content);
        {
            let x = TaggedParser::<Implicit, _, Error>::new_implicit(cl, $cons, t, $x);
            same!((x.class(), x.tag(), x.header.is_constructed()), (cl, Tag(t), $cons), "new_implicit");
            same!(x.to_ber_vec().ok(), Some(want.clone()), "new_implicit, BER");
            same!(x.to_der_vec().ok(), Some(want.clone()), "new_implicit, DER");
        }
        let x = $x.implicit(cl, $cons, t);
        same!((x.class(), x.tag()), (cl, Tag(t)), "implicit");
        same!(x.to_ber_vec().ok(), Some(want.clone()), "implicit, BER");
        same!(x.to_der_vec().ok(), Some(want.clone()), "implicit, DER");
        ensure!(x.assert_class(cl).is_ok() && x.assert_tag(Tag(t)).is_ok() && x.assert_tag(Tag(t ^ 1)).is_err(), "assert_class, assert_tag");
        for d in 0..4u8 { same!(x.assert_class(CLASSES[d as usize]).is_ok(), c == d, "assert_class({d})"); }
    } )* } }
    val! {
        5u32, false, model::u(2, &[5]);
        300u32, false, model::u(2, &[1, 44]);
        true, false, model::u(1, &[255]);
        OctetString::from(&b"abc"[..]), false, model::u(4, b"abc");
        String::from("x"), false, model::u(12, b"x");
        vec![1u32, 2], true, model::seq(&[model::u(2, &[1]), model::u(2, &[2])]);
        Sequence::new(b"\x05\x00"[..].into()), true, model::seq(&[model::u(5, &[])]);
    }
    Ok(())
}

pub fn run(ctx: &Ctx, cases: &[Case]) {
    let th = ctx.thorough;
    ctx.section("tags chosen at run time", || {
        let tg: Vec<Case> = cases.iter().filter(|c| ["tag", "tagp", "opt", "any"].contains(&c.group) || ["u32", "bool", "OctetString"].contains(&c.name)).cloned().collect();
        let mut jobs = vec![];
        corpus(&tg, false, if th { 40 } else { 8 }, &mut |b| jobs.push(b));
        for c in 0..4u8 {
            for t in TAGS {
                for cons in [false, true] {
                    jobs.push(model::tlv(c, cons, t, &model::u(2, &[7])));
                    jobs.push(model::tlv(c, cons, t, &[7]));
                    jobs.push(model::tlv(c, cons, t, &[]));
                }
                jobs.push(model::indef(c, t, &model::u(2, &[7])));
                jobs.push(model::indef(c, t, &model::u(4, &[7])));
            }
        }
        let seen = Seen::new();
        ctx.par(&jobs, |s| {
            let mut f = |b: Vec<u8>| {
                if b.len() < 200 && seen.add(&b) {
                    ctx.check("OptTaggedParser", &|| hex(&b), || opt(&b));
                    ctx.check("TaggedParser", &|| hex(&b), || parsers(&b));
                }
            };
            f(s.clone());
            if s.len() < 60 {
                mutate1(s, &Budget { full_subst: if th { 6 } else { 2 }, truncations: th, structural: true }, &mut f);
            }
        });
        for c in 0..4u8 {
            for t in [0, 1, 30, 31, 127, 128, 0x3fff, 0x4000, u32::MAX] {
                ctx.check("tagged values", &|| format!("{c} {t}"), || build(c, t));
            }
        }
    });
}
