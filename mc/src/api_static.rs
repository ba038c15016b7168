//! C19: owned copies of every value that can be made static.
use crate::api_any::hash_of;
use crate::engine::*;
use crate::model::{enc_len, enc_tag};
use crate::v::hex;
use crate::{ensure, same};
use asn1_rs::*;
use std::borrow::Cow;
use std::fmt::Debug;

fn ident(c: u8, k: bool, n: u32) -> Vec<u8> {
    let mut v = vec![];
    enc_tag(c, k, n, &mut v);
    v
}

/// everything that can be observed of a header, apart from the octets it was read from
fn observe(h: &Header) -> String {
    format!(
        "{:?} {:?} {:?} {:?} {:?} {} {} {} {} {:?} {:?} {:?} {:?}",
        h.class(), h.constructed(), h.tag(), h.length(), h.raw_tag(), h.is_constructed(), h.is_primitive(), h.is_universal(), h.is_contextspecific(),
        h.to_ber_vec().ok(), h.to_der_vec().ok(), h.assert_definite().is_ok(), (),
    )
}

fn header(h: &Header, other: &Header) -> std::result::Result<Header<'static>, String> {
    let s = h.to_static();
    let (a, b) = (observe(h), observe(&s));
    same!(a, b, "observations of the owned copy");
    ensure!(*h == s && s == *h, "the owned copy is not equal to the header");
    same!(hash_of(&s), hash_of(h), "hash of the owned copy");
    same!(*other == s, *other == *h, "comparison with another header");
    let again = s.to_static();
    same!(observe(&again), a, "owned copy of the owned copy");
    same!(s.clone().to_static() == *h, true, "copy of a clone");
    Ok(s)
}

/// every form of identifier octets up to 7 octets, every form of length octets
fn headers(ctx: &Ctx) {
    let t = ctx.thorough;
    let mut idents: Vec<Vec<u8>> = vec![];
    for first in 0..=255u8 {
        if first & 0x1f != 0x1f {
            idents.push(vec![first]);
            continue;
        }
        let nums: Vec<u32> = if t { (0..=300).chain([16383, 16384, 65535, 65536, 1 << 21, 1 << 28, u32::MAX - 1, u32::MAX]).collect() } else { vec![0, 1, 2, 3, 4, 16, 17, 30, 31, 32, 127, 128, 129, 255, 256, 16383, 16384, 2097151, 2097152, 1 << 28, u32::MAX] };
        for n in nums {
            let mut d: Vec<u8> = vec![(n & 0x7f) as u8];
            let mut m = n >> 7;
            while m > 0 {
                d.insert(0, (m & 0x7f) as u8 | 0x80);
                m >>= 7;
            }
            for pad in 0..=2 {
                let mut v = vec![first];
                v.resize(1 + pad, 0x80);
                v.extend(&d);
                idents.push(v);
            }
        }
    }
    let mut lens: Vec<Vec<u8>> = vec![vec![0x80], vec![0x81, 0], vec![0x82, 0, 0], vec![0x82, 0, 5], vec![0x84, 0, 0, 1, 0], vec![0x88, 0, 0, 0, 0, 0, 0, 0, 1], vec![0x88, 0x7f, 255, 255, 255, 255, 255, 255, 255]];
    lens.extend([0usize, 1, 2, 127, 128, 255, 256, 65535, 65536, 1 << 24, 1 << 32].iter().map(|n| {
        let mut v = vec![];
        enc_len(*n, &mut v);
        v
    }));
    let work: Vec<(Vec<u8>, Vec<u8>)> = idents.iter().flat_map(|i| lens.iter().map(move |l| (i.clone(), l.clone()))).collect();
    ctx.section("owned headers", || {
        ctx.par(&work, |(i, l)| {
            let mut b = i.clone();
            b.extend(l);
            ctx.check("owned headers", &|| hex(&b), || {
                let o: Vec<u8> = vec![0xbf, 0x85, 0x23, 0x03];
                let (_, other) = Header::from_ber(&o).map_err(|e| e.to_string())?;
                for der in [false, true] {
                    let (mut buf, tail) = (b.clone(), [0u8; 3]);
                    buf.extend(tail);
                    let (s, before) = {
                        let r = if der { Header::from_der(&buf) } else { Header::from_ber(&buf) };
                        let Ok((_, h)) = r else { continue };
                        (header(&h, &other)?, observe(&h))
                    };
                    // the input is gone
                    buf.iter_mut().for_each(|x| *x = !*x);
                    same!(observe(&s), before, "owned copy when the input is gone");
                    drop(buf);
                    let (s, before) = {
                        let buf = b.clone();
                        let i = Input::from_slice(&buf);
                        let r = if der { <Header as DerParser>::parse_der(i) } else { <Header as BerParser>::parse_ber(i) };
                        let Ok((_, h)) = r else { continue };
                        (header(&h, &other)?, observe(&h))
                    };
                    same!(observe(&s), before, "owned copy when the input is gone (cursor)");
                }
                Ok(())
            })
        })
    });
    // headers that were made, changed or cloned
    let mut made: Vec<(u8, bool, u32, Length, Option<Vec<u8>>)> = vec![];
    for c in 0..4 {
        for k in [false, true] {
            for n in [0u32, 1, 4, 16, 30, 31, 128, 16384, u32::MAX] {
                for l in [Length::Definite(0), Length::Definite(5), Length::Definite(300), Length::Indefinite] {
                    for r in [None, Some(vec![]), Some(vec![0x0f]), Some(ident(c, k, n)), Some(vec![0x1f, 0x80, 0x05])] {
                        made.push((c, k, n, l, r));
                    }
                }
            }
        }
    }
    ctx.section("owned copies of constructed headers", || {
        ctx.par(&made, |(c, k, n, l, r)| {
            ctx.check("owned copies of constructed headers", &|| format!("{c} {k} {n} {l:?} {r:?}"), || {
                let cl = [Class::Universal, Class::Application, Class::ContextSpecific, Class::Private][*c as usize];
                let mut h = Header::new(cl, *k, Tag(*n), *l);
                for step in 0..4 {
                    let buf;
                    match step {
                        1 => h = h.with_constructed(!*k),
                        2 => h = h.with_class(Class::Private),
                        3 => h = h.with_length(Length::Definite(77)),
                        _ => (),
                    }
                    let mut g = h.clone();
                    if let Some(x) = r {
                        buf = x.clone();
                        g = g.with_raw_tag(Some(Cow::Borrowed(&buf[..])));
                    }
                    let other = Header::new(cl, *k, Tag(*n), Length::Definite(1)).with_raw_tag(Some(Cow::Borrowed(&[0x0f])));
                    header(&g, &other)?;
                }
                Ok(())
            })
        })
    });
}

// every shape of type for which `ToStatic` can be derived

macro_rules! shapes {
    ($($(#[$m:meta])* $i:item)*) => { $( #[derive(ToStatic, Debug, Clone, PartialEq)] $i )* };
}

shapes! {
    pub struct Unit;
    pub struct Empty {}
    pub struct One<'a>(Cow<'a, str>);
    pub struct Tuple<'a>(u8, Cow<'a, [u8]>, Option<Cow<'a, str>>, i128);
    pub struct Named<'a> { b: Cow<'a, [u8]>, a: Cow<'a, [u8]>, n: u32, m: u32, s: String }
    pub struct Two<'a, 'b> { b: Cow<'b, str>, a: Cow<'a, str>, o: Option<Box<One<'a>>> }
    pub struct Three<'x, 'y, 'z>(Cow<'z, str>, Two<'x, 'y>, Vec<One<'x>>);
    pub struct Plain { x: i8, y: i16, z: i32, w: i64, v: i128, u: isize, a: u8, b: u16, c: u32, d: u64, e: u128, f: usize, g: bool }
    pub struct Deep<'a> { h: Header<'a>, q: Sequence<'a>, v: Vec<Sequence<'a>>, e: Kind<'a> }
    pub enum Kind<'a> { A, B(Cow<'a, str>), C { x: Cow<'a, [u8]>, y: Cow<'a, [u8]> }, D(u32, u32), E {}, F(Box<One<'a>>, Option<u8>), G(Vec<Kind0>) }
    pub enum Kind0 { A, B(u8), C { x: u16, y: u16 } }
    pub enum Kind2<'a, 'b> { L(Cow<'a, str>), R(Cow<'b, str>), B(Cow<'b, str>, Cow<'a, str>), N(One<'a>) }
}

/// Debug of an owned value is that of the borrowed one
fn copy<T: ToStatic + Debug>(t: &T) -> std::result::Result<T::Owned, String>
where
    T::Owned: Debug + PartialEq,
{
    let s = t.to_static();
    let (a, b) = (format!("{t:?}"), format!("{s:?}"));
    same!(b, a, "owned copy");
    Ok(s)
}

fn shapes(ctx: &Ctx) {
    let t = ctx.thorough;
    let strs: Vec<String> = ["", "a", "b", "é", "abc", "\0", "long long long long long long long"].iter().map(|s| s.to_string()).collect();
    let n = if t { 7 } else { 4 };
    let work: Vec<(usize, usize, usize)> = (0..n).flat_map(|i| (0..n).flat_map(move |j| (0..n).map(move |k| (i, j, k)))).collect();
    ctx.section("derived and generic types", || {
        ctx.par(&work, |(i, j, k)| {
            ctx.check("derived and generic types", &|| format!("{:?} {:?} {:?}", strs[*i], strs[*j], strs[*k]), || {
                let mut out: Vec<(String, Box<dyn Debug>)> = vec![];
                macro_rules! keep {
                    ($e:expr) => {{
                        let x = $e;
                        let s = copy(&x)?;
                        ensure!(s == x.to_static(), "two owned copies of {x:?} differ");
                        let s2 = copy(&&x)?;
                        ensure!(s == s2, "the owned copy of a reference to {x:?} differs");
                        let o = copy(&Some(x))?;
                        ensure!(o.as_ref() == Some(&s), "the owned copy of an option differs: {o:?} {s:?}");
                        out.push((format!("{s:?}"), Box::new(s)));
                    }};
                }
                {
                    let (p, q, r) = (strs[*i].clone(), strs[*j].clone(), strs[*k].clone());
                    let (pb, qb) = (p.as_bytes().to_vec(), q.as_bytes().to_vec());
                    keep!(Unit);
                    keep!(Empty {});
                    keep!(Cow::Borrowed(&p[..]));
                    keep!(Cow::<str>::Owned(p.clone()));
                    keep!(Cow::Borrowed(&pb[..]));
                    keep!(Cow::<[u8]>::Owned(pb.clone()));
                    keep!(p.clone());
                    same!((&p[..]).to_static(), p, "str");
                    keep!(One(Cow::Borrowed(&p)));
                    keep!(Tuple(*i as u8, Cow::Borrowed(&pb), Some(Cow::Borrowed(&q)), i128::MIN + *j as i128));
                    keep!(Tuple(*i as u8, Cow::Borrowed(&qb), None, *j as i128));
                    keep!(Named { a: Cow::Borrowed(&pb), b: Cow::Borrowed(&qb), n: *i as u32, m: 100 + *j as u32, s: r.clone() });
                    let two = || Two { a: Cow::Borrowed(&p[..]), b: Cow::Borrowed(&q[..]), o: if *k > 0 { Some(Box::new(One(Cow::Borrowed(&r[..])))) } else { None } };
                    keep!(two());
                    keep!(Three(Cow::Borrowed(&r), two(), (0..*k).map(|x| One(Cow::Borrowed(&strs[x][..]))).collect()));
                    let (a, b) = (*i as u8, *j as u8 + 100);
                    keep!(Plain { x: -(a as i8), y: i16::MIN + a as i16, z: i32::MIN + b as i32, w: i64::MIN + a as i64, v: i128::MIN + b as i128, u: isize::MIN + a as isize, a, b: u16::MAX - b as u16, c: u32::MAX - a as u32, d: u64::MAX - b as u64, e: u128::MAX - a as u128, f: usize::MAX - b as usize, g: *k % 2 == 1 });
                    let kinds = || vec![
                        Kind::A, Kind::B(Cow::Borrowed(&p[..])), Kind::C { x: Cow::Borrowed(&pb[..]), y: Cow::Borrowed(&qb[..]) }, Kind::D(*i as u32, 50 + *j as u32), Kind::E {},
                        Kind::F(Box::new(One(Cow::Borrowed(&q[..]))), if *k % 2 == 0 { None } else { Some(*k as u8) }),
                        Kind::G(vec![Kind0::A, Kind0::B(*i as u8), Kind0::C { x: *j as u16, y: 9 }][..*k % 4].to_vec()),
                    ];
                    for x in kinds() {
                        keep!(x.clone());
                        keep!(Box::new(x.clone()));
                        let hb = [0xbf, 0x80, 0x21, 0x00];
                        let (_, h) = Header::from_ber(&hb).map_err(|e| e.to_string())?;
                        // the copy of a header does not keep the octets it was read from (documented)
                        let h = h.to_static();
                        keep!(Deep { h, q: Sequence::new(Cow::Borrowed(&pb[..])), v: (0..*k).map(|x| Sequence::new(Cow::Borrowed(strs[x].as_bytes()))).collect(), e: x });
                    }
                    keep!(kinds());
                    for x in [Kind2::L(Cow::Borrowed(&p[..])), Kind2::R(Cow::Borrowed(&p)), Kind2::B(Cow::Borrowed(&p), Cow::Borrowed(&q)), Kind2::N(One(Cow::Borrowed(&q)))] {
                        keep!(x);
                    }
                    // sequences and sets: also what they encode to, and the members made of an owned one
                    let mut body = vec![];
                    for s in [&p, &q, &r] {
                        body.extend(s.to_der_vec().map_err(|e| e.to_string())?);
                    }
                    for (b, owned) in [(&body, false), (&pb, false), (&body, true)] {
                        let q = Sequence::new(if owned { Cow::Owned(b.clone()) } else { Cow::Borrowed(&b[..]) });
                        let s = q.to_static();
                        ensure!(q == s, "sequence differs from its owned copy");
                        same!(q.to_der_vec().ok(), s.to_der_vec().ok(), "DER of a sequence");
                        same!(q.to_ber_vec().ok(), s.to_ber_vec().ok(), "BER of a sequence");
                        same!(q.as_ref(), s.as_ref(), "contents of a sequence");
                        let (x, y) = (q.ber_sequence_of::<String, Error>(), s.ber_sequence_of::<String, Error>());
                        same!(x, y, "members of a sequence");
                        let (x2, y2) = (q.clone().into_ber_sequence_of::<String, String, Error>(), s.clone().into_ber_sequence_of::<String, String, Error>());
                        same!(x2, x, "members of a sequence, owned");
                        same!(y2, x, "members of an owned sequence, owned");
                        let (x3, y3) = (q.clone().into_der_sequence_of::<String, String, Error>(), s.clone().into_der_sequence_of::<String, String, Error>());
                        same!(x3, q.der_sequence_of::<String, Error>(), "members of a sequence, owned (DER)");
                        same!(y3, x3, "members of an owned sequence, owned (DER)");
                        let q = Set::new(if owned { Cow::Owned(b.clone()) } else { Cow::Borrowed(&b[..]) });
                        let s = q.to_static();
                        same!(format!("{q:?}"), format!("{s:?}"), "owned copy of a set");
                        same!(q.to_der_vec().ok(), s.to_der_vec().ok(), "DER of a set");
                        same!(q.to_ber_vec().ok(), s.to_ber_vec().ok(), "BER of a set");
                        same!(q.as_ref(), s.as_ref(), "contents of a set");
                        let (x, y) = (q.ber_set_of::<String, Error>(), s.ber_set_of::<String, Error>());
                        same!(x, y, "members of a set");
                        let (x2, y2) = (q.clone().into_ber_set_of::<String, Error>(), s.clone().into_ber_set_of::<String, Error>());
                        same!(x2, x, "members of a set, owned");
                        same!(y2, x, "members of an owned set, owned");
                        let (x3, y3) = (q.clone().into_der_set_of::<String, Error>(), s.clone().into_der_set_of::<String, Error>());
                        same!(x3, q.der_set_of::<String, Error>(), "members of a set, owned (DER)");
                        same!(y3, x3, "members of an owned set, owned (DER)");
                        out.push((format!("{s:?}"), Box::new(s)));
                    }
                    // an owned identifier
                    for b in [&pb, &qb, &body] {
                        for o in [Oid::new(Cow::Borrowed(&b[..])), Oid::new_relative(Cow::Borrowed(&b[..]))] {
                            let s = o.to_owned();
                            ensure!(o == s, "identifier differs from its owned copy");
                            same!(hash_of(&s), hash_of(&o), "hash of an owned identifier");
                            same!(format!("{s} {s:?}"), format!("{o} {o:?}"), "owned identifier printed");
                            same!(s.to_der_vec().ok(), o.to_der_vec().ok(), "DER of an owned identifier");
                            same!(s.to_ber_vec().ok(), o.to_ber_vec().ok(), "BER of an owned identifier");
                            out.push((format!("{s:?}"), Box::new(s)));
                        }
                    }
                }
                // the borrowed values are gone
                for (a, v) in &out {
                    same!(format!("{v:?}"), *a, "owned copy when the input is gone");
                }
                Ok(())
            })
        })
    });
}

pub fn run(ctx: &Ctx) {
    headers(ctx);
    shapes(ctx);
}
