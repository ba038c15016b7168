//! C24: `Any` as a transparent container.
use crate::engine::*;
use crate::ep::*;
use crate::gen::*;
use crate::model::{self, enc_len, enc_tag, Ty, M};
use crate::norm::Norm;
use crate::seeds;
use crate::types::Case;
use crate::v::*;
use crate::{ensure, same};
use asn1_rs::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub type Res = std::result::Result<(), String>;

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn class(c: u8) -> Class {
    [Class::Universal, Class::Application, Class::ContextSpecific, Class::Private][c as usize]
}

/// the elements found in `c`, following the verdicts of the implementation where the model leaves a choice
pub fn elements(c: &[u8], der: bool) -> (Vec<(usize, usize, V)>, bool) {
    let mut v = vec![];
    let mut p = 0;
    while p < c.len() {
        let mut m = model::run(&Ty::Any, der, 0, &c[p..]).0;
        if der && matches!(m, M::Rej) {
            // known finding: lengths that are not minimal
            if let M::Acc { n, v, .. } = model::run(&Ty::Any, der, model::flag::DER_LEN, &c[p..]).0 {
                m = M::Acc { must: false, n, v };
            }
        }
        match m {
            M::Acc { must, n, v: x } => {
                let ok = must || if der { Any::from_der(&c[p..]).is_ok() } else { Any::from_ber(&c[p..]).is_ok() };
                if !ok {
                    return (v, false);
                }
                v.push((p, n, x));
                p += n;
            }
            M::Rej => return (v, false),
        }
    }
    (v, true)
}

fn iter_matches<'a>(what: &str, c: &[u8], base: usize, der: bool, it: impl Iterator<Item = std::result::Result<(Input<'a>, Any<'a>), BerError<Input<'a>>>>) -> Res {
    let (want, ok) = elements(c, der);
    let mut errs = 0;
    let mut i = 0;
    for r in it {
        ensure!(errs == 0, "{what}: goes on after an error");
        match r {
            Ok((span, a)) => {
                ensure!(i < want.len(), "{what}: yields an element {:?} that is not there", a.norm());
                let (p, n, v) = &want[i];
                same!(a.norm(), *v, "{what}: element {i}");
                check_input(&span, c, base).map_err(|e| format!("{what}: element {i}: {e}"))?;
                same!(*span.span(), base + p..base + p + n, "{what}: position of element {i}");
                check_input(&a.data, c, base).map_err(|e| format!("{what}: contents of element {i}: {e}"))?;
                let rh = a.header.raw_header().ok_or_else(|| format!("{what}: element {i} has no raw header"))?;
                check_input(rh, c, base).map_err(|e| format!("{what}: raw header of element {i}: {e}"))?;
                same!(rh.span().start, base + p, "{what}: raw header of element {i}");
                same!(a.data.span().start, rh.span().end, "{what}: contents of element {i} follow its header");
                i += 1;
            }
            Err(e) => {
                errs += 1;
                check_input(e.input(), c, base).map_err(|m| format!("{what}: error location: {m}"))?;
            }
        }
    }
    same!(i, want.len(), "{what}: number of elements");
    same!(errs == 0, ok, "{what}: reports that all elements are well-formed");
    Ok(())
}

const UTF8_TAGS: [Tag; 9] = [Tag::GeneralString, Tag::GraphicString, Tag::Ia5String, Tag::NumericString, Tag::PrintableString, Tag::T61String, Tag::Utf8String, Tag::VideotexString, Tag::VisibleString];

fn any_str(any: &Any, b: &[u8], content: &[u8]) -> Res {
    let t = any.tag();
    let s = any.as_any_str();
    let st = any.as_any_string();
    if UTF8_TAGS.contains(&t) {
        same!(s.as_ref().ok().map(|x| x.to_string()), st.as_ref().ok().cloned(), "as_any_string (as_any_str on the right)");
        let want = if any.header.is_constructed() { None } else { std::str::from_utf8(content).ok().map(|x| x.to_string()) };
        same!(st.ok(), want, "as_any_string");
        macro_rules! typed { ($($tag:ident $ty:ident)*) => { $( if t == Tag::$tag {
            if let Ok((_, x)) = <$ty as FromBer<Error>>::from_ber(b) {
                if !any.header.is_constructed() {
                    same!(s.as_ref().ok().copied(), Some(AsRef::<str>::as_ref(&x)), "as_any_str, {} on the right", stringify!($ty));
                }
            }
        } )* } }
        typed!(GeneralString GeneralString GraphicString GraphicString Ia5String Ia5String NumericString NumericString PrintableString PrintableString Utf8String Utf8String VisibleString VisibleString T61String TeletexString VideotexString VideotexString);
    } else if t == Tag::BmpString || t == Tag::UniversalString {
        ensure!(s.is_err(), "as_any_str of a multi-octet string");
        let rep = if t == Tag::BmpString { model::Rep::Bmp } else { model::Rep::Universal };
        if any.class() == Class::Universal {
            match model::run(&Ty::Str(rep), false, 0, b).0 {
                M::Acc { must, v: V::Str(x), .. } => {
                    ensure!(!must || st.is_ok(), "as_any_string fails");
                    if let Ok(y) = st {
                        same!(y, x, "as_any_string");
                    }
                }
                _ => ensure!(st.is_err(), "as_any_string of a malformed string"),
            }
        }
    } else {
        ensure!(s.is_err() && st.is_err(), "as_any_str of something else");
    }
    Ok(())
}

fn optional<'a, 'b, T: TryFrom<&'b Any<'a>, Error = Error> + Norm + DynTagged>(any: &'b Any<'a>) -> Res
where
    'a: 'b,
{
    let t = T::try_from(any);
    let o = any.as_optional::<T>();
    match (&t, &o) {
        (Ok(x), Ok(Some(y))) => same!(y.norm(), x.norm(), "as_optional"),
        (Err(_), Ok(None)) => ensure!(!T::accept_tag(any.tag()) || matches!(t, Err(Error::UnexpectedTag { .. })), "as_optional is None although the tag matches"),
        (Err(_), Err(_)) => ensure!(T::accept_tag(any.tag()), "as_optional fails although the tag does not match"),
        _ => return Err(format!("as_optional {:?} although conversion is {:?}", o.is_ok(), t.is_ok())),
    }
    Ok(())
}

fn after<T: Norm>(d: &[u8], c: &[u8], what: &str, got: ParseResult<T>, want: ParseResult<T>) -> Res {
    same!(out_slice(d, got), out_slice(c, want), "{what}");
    Ok(())
}

/// everything an untyped element reveals
pub fn transparent(b: &[u8]) -> Res {
    let m = model::run(&Ty::Any, false, 0, b).0;
    let (rem, any) = match Any::from_ber(b) {
        Ok(x) => x,
        Err(_) => return Ok(()), // acceptance is C02/C03
    };
    let M::Acc { n, v, .. } = m else { return Err("accepted".into()) };
    let V::Any { class: mc, cons, tag, indef, content } = v.clone() else { return Err("model".into()) };
    same!(b.len() - rem.len(), n, "octets used");
    same!(any.class(), class(mc), "class");
    same!(any.tag(), Tag(tag), "tag");
    same!(any.header.is_constructed(), cons, "constructed");
    same!(any.header.length().is_definite(), !indef, "definite length");
    same!(any.as_bytes(), &content[..], "contents");
    same!(any.header.class(), any.class(), "class of the header");
    same!(any.header.tag(), any.tag(), "tag of the header");
    same!(DynTagged::class(&any), class(mc), "DynTagged::class");
    same!(DynTagged::tag(&any), Tag(tag), "DynTagged::tag");
    same!(DynTagged::constructed(&any), cons, "DynTagged::constructed");
    // equality and hash against rebuilt values
    let data: Vec<u8> = content.clone();
    for (w, o) in [("from_header_and_data", Any::from_header_and_data(any.header.clone(), &data)), ("new", Any::new(any.header.clone(), Input::new(&data, 3..3 + data.len()))), ("clone", any.clone())] {
        same!(o.as_bytes(), &content[..], "{w}: contents");
        ensure!(o == any && any == o, "{w}: not equal to the original");
        same!(hash_of(&o), hash_of(&any), "{w}: hash");
        same!(o.norm(), v, "{w}");
    }
    let o = Any::from_tag_and_data(Tag(tag), Input::from_slice(&data));
    same!(o.norm(), V::Any { class: 0, cons: tag == 16 || tag == 17, tag, indef: false, content: content.clone() }, "from_tag_and_data");
    same!(o.header.length(), Length::Definite(content.len()), "from_tag_and_data: length");
    // the same octets elsewhere
    let mut moved = vec![0x05, 0x00, 0x30];
    moved.extend_from_slice(b);
    let (_, a2) = Any::parse_ber(Input::new(&moved[3..], 3..moved.len())).map_err(|_| "refused when moved".to_string())?;
    ensure!(a2 == any, "not equal to the same octets elsewhere");
    same!(hash_of(&a2), hash_of(&any), "hash of the same octets elsewhere");
    // changing class or tag changes only that, and shows in the encoding
    for c2 in 0..4u8 {
        for t2 in [0u32, 2, 16, 30, 31, 127, 128, 0x4000, u32::MAX] {
            let x = any.clone().with_class(class(c2)).with_tag(Tag(t2));
            same!(x.norm(), V::Any { class: c2, cons, tag: t2, indef, content: content.clone() }, "with_class({c2}).with_tag({t2})");
            let mut e = vec![];
            enc_tag(c2, cons, t2, &mut e);
            enc_len(content.len(), &mut e);
            e.extend_from_slice(&content);
            same!(x.to_ber_vec().ok(), Some(e.clone()), "encoding after with_class({c2}).with_tag({t2})");
            same!(x.to_der_vec().ok(), Some(e), "DER encoding after with_class({c2}).with_tag({t2})");
            let y = any.clone().with_tag(Tag(t2)).with_class(class(c2));
            ensure!(x == y && hash_of(&x) == hash_of(&y), "order of with_class and with_tag matters");
        }
    }
    // callbacks
    let der = Any::from_der(b).is_ok();
    for c2 in 0..4u8 {
        for t2 in [tag, tag ^ 1, tag ^ 32, 4] {
            let called = std::cell::Cell::new(0);
            let op = |i| {
                called.set(called.get() + 1);
                Ok((&b""[..], i))
            };
            let r: ParseResult<&[u8]> = Any::from_ber_and_then(class(c2), t2, b, op);
            let hit = c2 == mc && t2 == tag;
            same!(r.is_ok(), hit, "from_ber_and_then({c2}, {t2})");
            same!(called.get(), hit as u32, "from_ber_and_then({c2}, {t2}): calls");
            if let Ok((r, x)) = r {
                same!((r, x), (rem, any.as_bytes()), "from_ber_and_then");
            }
            let r: ParseResult<&[u8]> = Any::from_der_and_then(class(c2), t2, b, op);
            same!(r.is_ok(), hit && der, "from_der_and_then({c2}, {t2})");
            if let Ok((r, x)) = r {
                same!((r, x), (rem, any.as_bytes()), "from_der_and_then");
            }
        }
    }
    // sub-elements
    let cin = Any::parse_ber(cursor(b)).map_err(|_| "parse_ber".to_string())?.1;
    let base = cin.data.start();
    let at = &b[base - BASE..base - BASE + content.len()];
    iter_matches("iter_elements, BER", at, base, false, cin.iter_elements::<BerMode>())?;
    iter_matches("iter_elements, DER", at, base, true, cin.iter_elements::<DerMode>())?;
    iter_matches("AnyIterator, BER", at, base, false, AnyIterator::<BerMode>::new(cin.data.clone()))?;
    iter_matches("AnyIterator, DER", at, base, true, AnyIterator::<DerMode>::new(cin.data.clone()))?;
    let (el, ok) = elements(&content, false);
    let col: std::result::Result<(Input, Vec<Any>), _> = AnyIterator::<BerMode>::new(cin.data.clone()).try_collect();
    same!(col.ok().map(|(r, v)| (r.len(), v.norm())), ok.then(|| (0, V::List(el.iter().map(|x| x.2.clone()).collect()))), "AnyIterator::try_collect");
    let (el, ok) = elements(&content, true);
    let col: std::result::Result<(Input, Vec<Any>), _> = AnyIterator::<DerMode>::new(cin.data.clone()).try_collect();
    same!(col.ok().map(|(r, v)| (r.len(), v.norm())), ok.then(|| (0, V::List(el.iter().map(|x| x.2.clone()).collect()))), "AnyIterator::try_collect, DER");
    any_str(&any, b, &content)?;
    // conversions
    optional::<u32>(&any)?;
    optional::<bool>(&any)?;
    optional::<OctetString>(&any)?;
    optional::<Oid>(&any)?;
    optional::<Utf8String>(&any)?;
    optional::<Sequence>(&any)?;
    optional::<Integer>(&any)?;
    optional::<UtcTime>(&any)?;
    after::<u32>(any.as_bytes(), &content, "parse_content_ber::<u32>", any.parse_content_ber(), <u32>::from_ber(&content))?;
    after::<Any>(any.as_bytes(), &content, "parse_content_ber::<Any>", any.parse_content_ber(), Any::from_ber(&content))?;
    after::<Any>(any.as_bytes(), &content, "parse_content_der::<Any>", any.parse_content_der(), Any::from_der(&content))?;
    after::<u32>(any.as_bytes(), &content, "parse_content_der::<u32>", any.parse_content_der(), <u32>::from_der(&content))?;
    after::<Sequence>(any.as_bytes(), &content, "parse_content_ber::<Sequence>", any.parse_content_ber(), Sequence::from_ber(&content))?;
    after::<OctetString>(any.as_bytes(), &content, "parse_content_der::<OctetString>", any.parse_content_der(), OctetString::from_der(&content))?;
    // relative object identifiers
    let want = tag == 13 && !cons && model::oid_valid(&content);
    for r in [any.clone().relative_oid(), any.as_relative_oid()] {
        same!(r.as_ref().ok().map(|o| o.norm()), want.then(|| V::Oid(true, content.clone())), "relative_oid");
    }
    macro_rules! tagged { ($($t:ty, $x:ident, $k:ident, $c:literal, $n:literal;)*) => { $(
        let got = any.$x::<$t, Error, $c, $n>().map(|t| t.into_inner().norm());
        let want = <TaggedValue<$t, Error, $k, $c, $n> as FromBer<Error>>::from_ber(b).map(|(_, t)| t.into_inner().norm());
        same!(got.ok(), want.ok(), "{}::<{}, {}, {}>", stringify!($x), stringify!($t), $c, $n);
    )* } }
    tagged! {
        u32, as_tagged_explicit, Explicit, 2, 0;
        bool, as_tagged_explicit, Explicit, 2, 31;
        OctetString, as_tagged_explicit, Explicit, 2, 1;
        u32, as_tagged_explicit, Explicit, 1, 1;
        bool, as_tagged_explicit, Explicit, 3, 0x4000;
        u32, as_tagged_implicit, Implicit, 2, 0;
        bool, as_tagged_implicit, Implicit, 2, 31;
        OctetString, as_tagged_implicit, Implicit, 2, 1;
        u32, as_tagged_implicit, Implicit, 1, 1;
        i16, as_tagged_implicit, Implicit, 3, 0x4000;
    }
    // contents after a header, and the data after the contents
    let hl = any.header.raw_header().map(|r| r.len()).ok_or("no raw header")?;
    let i = Input::new(&b[hl..], BASE + hl..BASE + b.len());
    // these two stop at eight levels, as documented
    if model::R::new(false, 0).frame_depth(b, 8).is_some() {
        let (r1, c1) = Any::parse_ber_content(i.clone(), &any.header).map_err(|e| format!("parse_ber_content fails {e:?}"))?;
        same!(c1.as_bytes2(), &content[..], "parse_ber_content");
        same!(r1.as_bytes2(), rem, "parse_ber_content: remainder");
        check_input(&c1, b, BASE)?;
        check_input(&r1, b, BASE)?;
        let (r2, c2) = any.header.parse_ber_content(i.clone()).map_err(|e| format!("Header::parse_ber_content fails {e:?}"))?;
        same!((r2, c2), (r1, c1), "Header::parse_ber_content");
    } else if let Ok((r, c)) = any.header.parse_ber_content(i.clone()) {
        same!((c.as_bytes2(), r.as_bytes2()), (&content[..], rem), "Header::parse_ber_content");
    }
    for (w, r) in [("Any", Any::parse_der_content(i.clone(), &any.header)), ("Header", any.header.parse_der_content(i.clone()))] {
        if der {
            let (r, c) = r.map_err(|e| format!("{w}::parse_der_content fails {e:?}"))?;
            same!((c.as_bytes2(), r.as_bytes2()), (&content[..], rem), "{w}::parse_der_content");
            check_input(&c, b, BASE)?;
            check_input(&r, b, BASE)?;
        } else if indef {
            ensure!(r.is_err(), "{w}::parse_der_content accepts the indefinite form");
        }
    }
    Ok(())
}

/// inputs for untyped elements: every seed of every schema, and single deviations
pub fn corpus(cases: &[Case], mutate: bool, max: usize, f: &mut dyn FnMut(Vec<u8>)) {
    let seen = Seen::new();
    for c in cases {
        let mut reps = seeds::reps(&c.ty);
        reps.sort();
        reps.dedup();
        if reps.len() > max {
            let k = reps.len() / max + 1;
            reps = reps.into_iter().enumerate().filter(|(i, _)| i % k == 0).map(|x| x.1).collect();
        }
        for s in reps {
            if seen.add(&s) {
                f(s.clone());
                if mutate {
                    mutate1(&s, &Budget { full_subst: 3, truncations: false, structural: true }, &mut |b| {
                        if seen.add(&b) {
                            f(b)
                        }
                    });
                }
            }
        }
    }
}

pub fn run(ctx: &Ctx, cases: &[Case]) {
    let t = ctx.thorough;
    let undef: Vec<Case> = cases.iter().filter(|c| c.group != "derived").cloned().collect();
    ctx.section("transparency", || {
        let idx: Vec<usize> = (0..undef.len()).collect();
        let seen = Seen::new();
        ctx.par(&idx, |i| {
            corpus(&undef[*i..*i + 1], true, if t { 60 } else { 6 }, &mut |b| {
                if b.len() <= 300 && seen.add(&b) {
                    ctx.check("transparency", &|| hex(&b), || transparent(&b));
                }
            });
        });
    });
    ctx.section("equality and hash", || {
        let mut c: Vec<Vec<u8>> = vec![];
        corpus(&undef, false, if t { 12 } else { 3 }, &mut |b| c.push(b));
        // variations in the header only
        for t in ["3003020101", "308103020101", "30820003020101", "30800201010000", "1003020101", "a003020101", "3f1003020101", "5003020101", "3103020101", "0403020101", "040102", "04810102", "2403040102"] {
            c.push(unhex(t));
        }
        let mut anys: Vec<(String, Any)> = vec![];
        for b in &c {
            if let Ok((_, a)) = Any::from_ber(b) {
                anys.push((hex(b), a.clone()));
                if anys.len() % 3 == 0 {
                    let d = a.data.as_bytes2();
                    for cl in 0..4u8 {
                        for cons in [false, true] {
                            let h = Header::new(class(cl), cons, a.tag(), Length::Definite(d.len()));
                            anys.push((format!("header({cl}, {cons}, {}) + {}", a.tag().0, hex(d)), Any::from_header_and_data(h, d)));
                        }
                    }
                    anys.push((format!("from_tag_and_data({}, {})", a.tag().0, hex(d)), Any::from_tag_and_data(a.tag(), Input::from_slice(d))));
                    anys.push((format!("new_simple({}) + {}", a.tag().0, hex(d)), Any::from_header_and_data(Header::new_simple(a.tag()), d)));
                    anys.push((format!("with_tag(5) of {}", hex(b)), a.clone().with_tag(Tag(5))));
                }
            }
        }
        let idx: Vec<usize> = (0..anys.len()).collect();
        ctx.par(&idx, |i| {
            let (ka, a) = &anys[*i];
            let ha = hash_of(a);
            let hh = hash_of(&a.header);
            ctx.batch("equality and hash", &|| ka.clone(), anys.len() as u64, || {
                ensure!(a == a, "not equal to itself");
                for (kb, b) in &anys {
                    let e = a == b;
                    same!(b == a, e, "comparison with {kb} is not symmetric");
                    if e {
                        ensure!(ha == hash_of(b), "equal to {kb} but the hash differs");
                        same!((a.class(), a.tag(), a.header.is_constructed(), a.as_bytes()), (b.class(), b.tag(), b.header.is_constructed(), b.as_bytes()), "equal to {kb}");
                    } else {
                        ensure!(ka != kb, "not equal to the same octets");
                    }
                    let e = a.header == b.header;
                    same!(b.header == a.header, e, "comparison of the header with that of {kb} is not symmetric");
                    if e {
                        ensure!(hh == hash_of(&b.header), "header equal to that of {kb} but the hash differs");
                        same!((a.class(), a.tag(), a.header.is_constructed()), (b.class(), b.tag(), b.header.is_constructed()), "header equal to that of {kb}");
                    }
                }
                Ok(())
            });
        });
    });
}
