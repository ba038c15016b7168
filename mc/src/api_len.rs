//! C22: `Length` as a state machine, and the helpers that predict sizes. C02: building headers.
use crate::engine::*;
use crate::model::{enc_len, enc_tag};
use crate::v::hex;
use crate::{ensure, same};
use asn1_rs::*;
use std::io::Write;

type M = Option<usize>;

fn add(a: M, b: M) -> Option<M> {
    match (a, b) {
        (Some(x), Some(y)) => x.checked_add(y).map(Some),
        _ => Some(None),
    }
}

fn len(m: M) -> Length {
    m.map_or(Length::Indefinite, Length::Definite)
}

/// every observation of a length
fn observe(l: Length, m: M) -> std::result::Result<(), String> {
    same!(l, len(m), "length");
    same!(l.is_definite(), m.is_some(), "is_definite");
    same!(l.is_null(), m == Some(0), "is_null");
    same!(l.definite().ok(), m, "definite");
    same!(l.definite_inner().ok(), m, "definite_inner");
    same!(l.assert_definite().is_ok(), m.is_some(), "assert_definite");
    same!(l.assert_definite_inner().is_ok(), m.is_some(), "assert_definite_inner");
    if let Some(n) = m {
        same!(Length::from(n), l, "from");
    }
    Ok(())
}

pub fn lengths(ctx: &Ctx) {
    let t = ctx.thorough;
    let dom: Vec<M> = [0usize, 1, 2, 127, 128, 255, 256, 65535, 65536, 1 << 31, 1 << 32, (1 << 62) - 1, 1 << 62].into_iter().map(Some).chain([None]).collect();
    const OPS: usize = 6;
    fn apply(op: usize, l: Length, x: M) -> Option<Length> {
        Some(match (op, x) {
            (0, _) => l + len(x),
            (1, _) => len(x) + l,
            (2, _) => {
                let mut k = l;
                k += len(x);
                k
            }
            (3, Some(n)) => l + n,
            (4, Some(n)) => n + l,
            (5, Some(n)) => {
                let mut k = l;
                k += n;
                k
            }
            _ => return None,
        })
    }
    ctx.section("length arithmetic", || {
        fn go(dom: &[M], depth: usize, l: Length, m: M, n: &mut u64) -> std::result::Result<(), String> {
            observe(l, m)?;
            if depth == 0 {
                return Ok(());
            }
            for op in 0..OPS {
                for x in dom {
                    let Some(m2) = add(m, *x) else { continue };
                    let Some(l2) = apply(op, l, *x) else { continue };
                    *n += 1;
                    same!(l2, len(m2), "{l:?} op{op} {x:?}");
                    go(dom, depth - 1, l2, m2, n)?;
                }
            }
            Ok(())
        }
        let starts: Vec<(M, usize)> = dom.iter().flat_map(|s| (0..dom.len()).map(move |i| (*s, i))).collect();
        ctx.par(&starts, |(s, i)| {
            let mut n = 1;
            let x = dom[*i];
            let r = guard(|| {
                observe(len(*s), *s)?;
                for op in 0..OPS {
                    let Some(m2) = add(*s, x) else { continue };
                    let Some(l2) = apply(op, len(*s), x) else { continue };
                    same!(l2, len(m2), "{:?} op{op} {x:?}", len(*s));
                    go(&dom, if t { 3 } else { 2 }, l2, m2, &mut n)?;
                }
                Ok(())
            });
            let r = r.unwrap_or_else(Err);
            ctx.batch("length arithmetic", &|| format!("{s:?} then {x:?}"), n, || r);
        });
    });
    ctx.section("length sums", || {
        let d: Vec<M> = vec![Some(0), Some(1), Some(127), Some(128), Some(65536), Some(1 << 40), None];
        fn lists(d: &[M], depth: usize, cur: &mut Vec<M>, f: &mut dyn FnMut(&[M])) {
            f(cur);
            if depth > 0 {
                for x in d {
                    cur.push(*x);
                    lists(d, depth - 1, cur, f);
                    cur.pop();
                }
            }
        }
        lists(&d, if t { 7 } else { 5 }, &mut vec![], &mut |l| {
            ctx.check("length sums", &|| format!("{l:?}"), || {
                let want = l.iter().try_fold(Some(0), |a, x| add(a, *x)).unwrap();
                let ls: Vec<Length> = l.iter().map(|m| len(*m)).collect();
                same!(ls.iter().copied().sum::<Length>(), len(want), "sum");
                same!(ls.iter().sum::<Length>(), len(want), "sum of references");
                Ok(())
            });
        });
    });
}

/// an object with a given identifier and (pretended) content length
struct Fake<const K: usize>(Class, bool, u32, Length);

macro_rules! fake {
    ($k:literal, $e:ty) => {
        impl ToBer for Fake<$k> {
            type Encoder = $e;
            fn ber_content_len(&self) -> Length {
                self.3
            }
            fn ber_tag_info(&self) -> (Class, bool, Tag) {
                (self.0, self.1, Tag(self.2))
            }
            fn ber_write_content<W: Write>(&self, _: &mut W) -> SerializeResult<usize> {
                Ok(0)
            }
        }
        impl ToDer for Fake<$k> {
            type Encoder = $e;
            fn der_content_len(&self) -> Length {
                self.3
            }
            fn der_tag_info(&self) -> (Class, bool, Tag) {
                (self.0, self.1, Tag(self.2))
            }
            fn der_write_content<W: Write>(&self, _: &mut W) -> SerializeResult<usize> {
                Ok(0)
            }
        }
    };
}
fake!(0, BerGenericEncoder);
fake!(1, Constructed);
fake!(2, ConstructedIndefinite);

fn want_header(c: Class, cons: bool, tag: u32, l: Length, out: &mut Vec<u8>) -> usize {
    out.clear();
    enc_tag(c as u8, cons, tag, out);
    let t = out.len();
    match l {
        Length::Definite(n) => enc_len(n, out),
        Length::Indefinite => out.push(0x80),
    }
    t
}

fn helpers_one(tag: u32, l: Length, want: &mut Vec<u8>, got: &mut Vec<u8>, all: bool) -> std::result::Result<(), String> {
    let c = Class::ContextSpecific;
    let t = want_header(c, false, tag, l, want);
    let (n, ll) = (want.len(), want.len() - t);
    let tg = Tag(tag);
    same!(ber_tag_length(tg), t, "ber_tag_length({tag})");
    same!(ber_length_length(l).ok(), Some(ll), "ber_length_length({l:?})");
    same!(ber_header_length(tg, l).ok(), Some(n), "ber_header_length({tag}, {l:?})");
    let tot = match l {
        Length::Definite(k) => match k.checked_add(n) {
            Some(s) => Some(Length::Definite(s)),
            None => None,
        },
        Length::Indefinite => Some(Length::Indefinite),
    };
    if let Some(tot) = tot {
        same!(ber_total_length(tg, l), tot, "ber_total_length({tag}, {l:?})");
    }
    if !all {
        return Ok(());
    }
    for class in [Class::Universal, Class::Application, Class::ContextSpecific, Class::Private] {
        for cons in [false, true] {
            want_header(class, cons, tag, l, want);
            macro_rules! w {
                ($what:literal, $e:expr, $want:expr) => {
                    got.clear();
                    let r = $e;
                    same!(r.ok(), Some($want.len()), concat!($what, " of {:?} {} {} {:?}: reported"), class, cons, tag, l);
                    ensure!(got == $want, concat!($what, " of {:?} {} {} {:?}: wrote {}, expected {}"), class, cons, tag, l, hex(got), hex($want));
                };
            }
            w!("Header::ber_write_header", Header::new(class, cons, tg, l).ber_write_header(got), want);
            let f = Fake::<0>(class, cons, tag, l);
            w!("ber_write_header", f.ber_write_header(got), want);
            w!("ber_encode", f.ber_encode(got), want);
            if let Some(tot) = tot {
                same!(f.ber_total_len(), tot, "ber_total_len");
            }
            if l.is_definite() {
                w!("Header::der_write_header", Header::new(class, cons, tg, l).der_write_header(got), want);
                w!("der_write_header", f.der_write_header(got), want);
                w!("der_encode", f.der_encode(got), want);
                if let Some(tot) = tot {
                    same!(f.der_total_len(), tot, "der_total_len");
                }
            }
            // encoders of constructed objects set the form themselves
            want_header(class, true, tag, l, want);
            w!("Constructed", Fake::<1>(class, cons, tag, l).ber_write_header(got), want);
            want_header(class, true, tag, Length::Indefinite, want);
            w!("ConstructedIndefinite", Fake::<2>(class, cons, tag, Length::Indefinite).ber_write_header(got), want);
        }
    }
    Ok(())
}

pub fn tags(t: bool) -> Vec<u32> {
    let mut v: Vec<u32> = (0..if t { 70000 } else { 300 }).collect();
    for s in 0..32 {
        for d in -3i64..=3 {
            let x = (1i64 << s) + d;
            if (0..=u32::MAX as i64).contains(&x) {
                v.push(x as u32);
            }
        }
    }
    v.extend([u32::MAX, u32::MAX - 1, u32::MAX - 2]);
    v.sort_unstable();
    v.dedup();
    v
}

pub fn lens(t: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..if t { 70000 } else { 300 }).collect();
    for s in 0..64 {
        for d in -3i128..=3 {
            let x = (1i128 << s) + d;
            if (0..=usize::MAX as i128).contains(&x) {
                v.push(x as usize);
            }
        }
    }
    v.extend([usize::MAX, usize::MAX - 1]);
    v.sort_unstable();
    v.dedup();
    v
}

pub fn helpers(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.section("size helpers, every tag", || {
        // every tag number, or every one below a bound and then all near powers of two
        const CH: u64 = 1 << 16;
        let n: u64 = if t { 1 << 32 } else { 1 << 24 };
        let chunks: Vec<u64> = (0..n / CH).collect();
        ctx.par(&chunks, |c| {
            ctx.batch("size helpers", &|| format!("tags from {}", c * CH), CH, || {
                let mut b = vec![];
                for x in c * CH..(c + 1) * CH {
                    b.clear();
                    enc_tag(0, false, x as u32, &mut b);
                    same!(ber_tag_length(Tag(x as u32)), b.len(), "ber_tag_length({x})");
                }
                Ok(())
            });
        });
    });
    ctx.section("size helpers, every length", || {
        const CH: u64 = 1 << 16;
        let n: u64 = if t { 1 << 32 } else { 1 << 24 };
        let chunks: Vec<u64> = (0..n / CH).collect();
        ctx.par(&chunks, |c| {
            ctx.batch("size helpers", &|| format!("lengths from {}", c * CH), CH, || {
                let mut b = vec![];
                for x in c * CH..(c + 1) * CH {
                    b.clear();
                    enc_len(x as usize, &mut b);
                    same!(ber_length_length(Length::Definite(x as usize)).ok(), Some(b.len()), "ber_length_length({x})");
                }
                Ok(())
            });
        });
    });
    ctx.section("size helpers, tags and lengths", || {
        let mut ls: Vec<Length> = lens(false).into_iter().map(Length::Definite).collect();
        ls.push(Length::Indefinite);
        let ts = tags(t);
        ctx.par(&ts, |tag| {
            ctx.batch("size helpers", &|| format!("tag {tag}"), ls.len() as u64, || {
                let (mut a, mut b) = (vec![], vec![]);
                for l in &ls {
                    helpers_one(*tag, *l, &mut a, &mut b, true)?;
                }
                Ok(())
            });
        });
        let ls: Vec<usize> = lens(t);
        ctx.par(&ls, |l| {
            ctx.batch("size helpers", &|| format!("length {l}"), 2, || {
                let (mut a, mut b) = (vec![], vec![]);
                for tag in [0, 2, 30, 31, 127, 128, 16383, 16384, u32::MAX] {
                    helpers_one(tag, Length::Definite(*l), &mut a, &mut b, true)?;
                }
                Ok(())
            });
        });
    });
    ctx.section("lengths of several items", || {
        #[derive(Clone, Copy, Debug)]
        enum I {
            S(usize),
            Ind(usize),
        }
        enum T {
            S(Vec<u8>),
            Ind(IndefiniteVec<bool>),
        }
        impl ToBer for T {
            type Encoder = BerGenericEncoder;
            fn ber_content_len(&self) -> Length {
                match self {
                    T::S(v) => v.as_slice().ber_content_len(),
                    T::Ind(v) => v.ber_content_len(),
                }
            }
            fn ber_tag_info(&self) -> (Class, bool, Tag) {
                match self {
                    T::S(v) => v.as_slice().ber_tag_info(),
                    T::Ind(v) => v.ber_tag_info(),
                }
            }
            fn ber_write_content<W: Write>(&self, w: &mut W) -> SerializeResult<usize> {
                match self {
                    T::S(v) => v.as_slice().ber_write_content(w),
                    T::Ind(v) => v.ber_write_content(w),
                }
            }
        }
        impl DynTagged for T {
            fn constructed(&self) -> bool {
                matches!(self, T::Ind(_))
            }
            fn tag(&self) -> Tag {
                if let T::S(_) = self { Tag::OctetString } else { Tag::Sequence }
            }
            fn accept_tag(t: Tag) -> bool {
                t == Tag::OctetString || t == Tag::Sequence
            }
        }
        fn mk(i: &I) -> T {
            match i {
                I::S(n) => T::S(vec![0x41; *n]),
                I::Ind(n) => T::Ind(IndefiniteVec(vec![true; *n])),
            }
        }
        fn bytes(i: &I) -> Vec<u8> {
            match i {
                I::S(n) => crate::model::u(4, &vec![0x41; *n]),
                I::Ind(n) => {
                    let mut o = vec![0x30, 0x80];
                    for _ in 0..*n {
                        o.extend([1, 1, 0xff]);
                    }
                    o.extend([0, 0]);
                    o
                }
            }
        }
        let dom = [I::S(0), I::S(1), I::S(57), I::S(125), I::S(126), I::S(127), I::S(128), I::S(253), I::S(256), I::S(65533), I::Ind(0), I::Ind(3)];
        let mut all: Vec<Vec<I>> = vec![vec![]];
        let mut cur = all.clone();
        for _ in 0..if t { 4 } else { 3 } {
            cur = cur.iter().flat_map(|l| dom.iter().map(move |x| l.iter().copied().chain([*x]).collect())).collect();
            all.extend(cur.iter().cloned());
        }
        ctx.par(&all, |l| {
            ctx.check("lengths of several items", &|| format!("{l:?}"), || {
                let items: Vec<T> = l.iter().map(mk).collect();
                let mut content: Vec<u8> = l.iter().flat_map(|i| bytes(i)).collect();
                let ind = l.iter().any(|i| matches!(i, I::Ind(_)));
                let want = if ind { Length::Indefinite } else { Length::Definite(content.len()) };
                same!(ber_length_constructed_items(items.iter()), want, "ber_length_constructed_items");
                same!(items.ber_content_len(), want, "content length of the Vec");
                let mut out = vec![];
                let n = items.ber_encode(&mut out).map_err(|e| format!("{e:?}"))?;
                same!(n, out.len(), "octets reported");
                if ind {
                    content.extend([0, 0]);
                }
                let mut w = vec![];
                want_header(Class::Universal, true, 16, want, &mut w);
                w.extend(content);
                ensure!(out == w, "Vec encodes to {}, expected {}", hex(&out), hex(&w));
                if !ind {
                    let slices: Vec<Vec<u8>> = l.iter().map(|i| if let I::S(n) = i { vec![0x41; *n] } else { vec![] }).collect();
                    let slices: Vec<&[u8]> = slices.iter().map(|x| x.as_slice()).collect();
                    same!(der_length_constructed_items(slices.iter()), want, "der_length_constructed_items");
                }
                Ok(())
            });
        });
    });
}

/// C02: headers built step by step
pub fn headers(ctx: &Ctx) {
    let classes = [Class::Universal, Class::Application, Class::ContextSpecific, Class::Private];
    let ts = tags(ctx.thorough);
    let mut ls: Vec<Length> = lens(false).into_iter().map(Length::Definite).collect();
    ls.push(Length::Indefinite);
    ctx.section("headers, built and read back", || {
        ctx.par(&ts, |tag| {
            ctx.batch("header", &|| format!("tag {tag}"), 8 * ls.len() as u64, || {
                let mut w = vec![];
                for class in classes {
                    for cons in [false, true] {
                        for l in &ls {
                            let h = Header::new(class, cons, Tag(*tag), *l);
                            same!((h.class(), h.constructed(), h.tag(), h.length()), (class, cons, Tag(*tag), *l), "fields");
                            same!((h.is_primitive(), h.is_constructed()), (!cons, cons), "form");
                            same!((h.assert_primitive().is_ok(), h.assert_primitive_inner().is_ok(), h.assert_constructed().is_ok(), h.assert_constructed_inner().is_ok()), (!cons, !cons, cons, cons), "assert form");
                            same!([h.is_universal(), h.is_application(), h.is_contextspecific(), h.is_private()], [class == classes[0], class == classes[1], class == classes[2], class == classes[3]], "class tests");
                            for c in classes {
                                same!(h.assert_class(c).is_ok(), c == class, "assert_class");
                            }
                            same!(h.assert_tag(Tag(*tag)).is_ok(), true, "assert_tag");
                            same!(h.assert_tag(Tag(tag ^ 1)).is_ok(), false, "assert_tag");
                            same!(h.assert_definite().is_ok(), l.is_definite(), "assert_definite");
                            same!(h.assert_definite_inner().is_ok(), l.is_definite(), "assert_definite_inner");
                            let i = Input::from_slice(&[1, 2]);
                            same!((h.assert_primitive_input(&i).is_ok(), h.assert_constructed_input(&i).is_ok()), (!cons, cons), "assert form");
                            same!((h.raw_tag().is_none(), h.raw_header().is_none()), (true, true), "raw parts of a built header");
                            // any order of the builder steps gives the same header
                            let b1 = Header::new_simple(Tag(0)).with_class(class).with_constructed(cons).with_tag(Tag(*tag)).with_length(*l);
                            let b2 = Header::new(Class::Private, true, Tag(7), Length::Definite(3)).with_length(*l).with_tag(Tag(*tag)).with_constructed(cons).with_class(class);
                            for b in [&b1, &b2] {
                                same!((b.class(), b.constructed(), b.tag(), b.length()), (class, cons, Tag(*tag), *l), "fields after the builder");
                                same!(b, &h, "builder");
                            }
                            want_header(class, cons, *tag, *l, &mut w);
                            for (what, out) in [("ber_write_header", { let mut o = vec![]; h.ber_write_header(&mut o).map(|n| (n, o)) }), ("to_ber_vec", h.to_ber_vec().map(|o| (o.len(), o)))] {
                                let (n, o) = out.map_err(|e| format!("{what}: {e:?}"))?;
                                same!(n, o.len(), "{what}: reported");
                                ensure!(o == w, "{what} of {h:?} gives {}, expected {}", hex(&o), hex(&w));
                            }
                            if l.is_definite() {
                                for (what, out) in [("der_write_header", { let mut o = vec![]; h.der_write_header(&mut o).map(|n| (n, o)) }), ("to_der_vec", h.to_der_vec().map(|o| (o.len(), o)))] {
                                    let (n, o) = out.map_err(|e| format!("{what}: {e:?}"))?;
                                    same!(n, o.len(), "{what}: reported");
                                    ensure!(o == w, "{what} of {h:?} gives {}, expected {}", hex(&o), hex(&w));
                                }
                            }
                            // and decode to the same fields
                            let (rem, back) = match Header::from_ber(&w) {
                                Ok(x) => x,
                                Err(_) if !cons && !l.is_definite() => continue,
                                Err(e) => return Err(format!("from_ber of {}: {e:?}", hex(&w))),
                            };
                            ensure!(rem.is_empty(), "from_ber leaves {}", hex(rem));
                            same!((back.class(), back.constructed(), back.tag(), back.length()), (class, cons, Tag(*tag), *l), "decoded fields");
                            let rt = back.raw_tag().ok_or("no raw tag")?;
                            ensure!(w.starts_with(rt) && rt.len() == ber_tag_length(Tag(*tag)), "raw tag {} of {}", hex(rt), hex(&w));
                            let rh = back.raw_header().ok_or("no raw header")?;
                            ensure!(rh.as_bytes2() == w.as_slice(), "raw header {} of {}", hex(rh.as_bytes2()), hex(&w));
                            // the raw tag does not outlive a change of the fields it shows
                            for c2 in classes {
                                let d = back.clone().with_class(c2);
                                same!((d.class(), d.constructed(), d.tag(), d.length()), (c2, cons, Tag(*tag), *l), "with_class");
                                let mut o = vec![];
                                d.ber_write_header(&mut o).map_err(|e| format!("{e:?}"))?;
                                let mut w2 = vec![];
                                want_header(c2, cons, *tag, *l, &mut w2);
                                ensure!(o == w2, "with_class({c2:?}) encodes to {}", hex(&o));
                            }
                            let d = back.clone().with_tag(Tag(tag ^ 1)).with_constructed(!cons);
                            let mut o = vec![];
                            d.ber_write_header(&mut o).map_err(|e| format!("{e:?}"))?;
                            let mut w2 = vec![];
                            want_header(class, !cons, tag ^ 1, *l, &mut w2);
                            ensure!(o == w2, "with_tag/with_constructed encodes to {}", hex(&o));
                        }
                    }
                }
                Ok(())
            });
        });
    });
}
