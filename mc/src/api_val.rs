//! Values made with constructors: what their methods reveal, and how they read back.
use crate::api_any::{hash_of, Res};
use crate::enc::{acct_ber, acct_der};
use crate::engine::*;
use crate::model::{self, Ty, M};
use crate::norm::Norm;
use crate::v::*;
use crate::{ensure, same};
use asn1_rs::bitvec::{order::Msb0, slice::BitSlice, vec::BitVec};
use asn1_rs::num_bigint::{BigInt, BigUint};
use asn1_rs::*;
use std::borrow::Cow;
use std::convert::TryFrom;
use std::str::FromStr;

/// both encodings, exactly
fn written<T: ToBer + ToDer>(w: &str, t: &T, ber: &[u8], der: &[u8]) -> Res {
    let mut ex = 0;
    same!(acct_ber(t, false, &mut ex)?.map(|b| hex(&b)), Some(hex(ber)), "{w}, BER");
    same!(acct_der(t, false, &mut ex)?.map(|b| hex(&b)), Some(hex(der)), "{w}, DER");
    Ok(())
}

// ------------------------------------------------------------------ object identifiers

/// complete arcs of the contents, and whether nothing is left over; `None` when a sub-identifier exceeds 120 bits
fn arcs_of(c: &[u8], rel: bool) -> Option<(Vec<u128>, bool)> {
    let mut v = vec![];
    let (mut x, mut open) = (0u128, false);
    for b in c {
        if x >> 120 != 0 {
            return None;
        }
        x = x << 7 | (b & 0x7f) as u128;
        open = b & 0x80 != 0;
        if !open {
            if v.is_empty() && !rel && c != [0] {
                let a = (x / 40).min(2);
                v.push(a);
                x -= 40 * a;
            }
            v.push(x);
            x = 0;
        }
    }
    Some((v, !open))
}

fn text(arcs: &[u128]) -> String {
    arcs.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(".")
}

fn exact<T: PartialEq + std::fmt::Debug>(w: &str, mut it: impl ExactSizeIterator<Item = T>, want: Vec<T>) -> Res {
    let n = want.len();
    for (i, x) in want.into_iter().enumerate() {
        same!((it.len(), it.size_hint()), (n - i, (n - i, Some(n - i))), "{w}: number of arcs left before arc {i}");
        same!(it.next(), Some(x), "{w}: arc {i}");
    }
    same!(it.len(), 0, "{w}: number of arcs left at the end");
    same!((it.next(), it.next()), (None, None), "{w}: after the end");
    Ok(())
}

/// everything an object identifier with these contents reveals
fn oid_bytes(c: &[u8], rel: bool) -> Res {
    let make = |o: bool| {
        let c = if o { Cow::Owned(c.to_vec()) } else { Cow::Borrowed(c) };
        if rel {
            Oid::new_relative(c)
        } else {
            Oid::new(c)
        }
    };
    for owned in [false, true] {
        let o = make(owned);
        let copy = o.to_owned();
        for (w, o) in [("Oid", &o), ("Oid::to_owned", &copy), ("Oid::clone", &o.clone())] {
            same!(o.as_bytes(), c, "{w}: as_bytes");
            same!(o.clone().into_cow(), c, "{w}: into_cow");
            same!(DynTagged::tag(o), if rel { Tag::RelativeOid } else { Tag::Oid }, "{w}: tag");
            ensure!(*o == make(false) && hash_of(o) == hash_of(&make(false)), "{w}: differs from a fresh one");
            let other = if rel { Oid::new(Cow::Borrowed(c)) } else { Oid::new_relative(Cow::Borrowed(c)) };
            ensure!(*o != other, "{w}: an absolute and a relative identifier are equal");
            if let Some((arcs, complete)) = arcs_of(c, rel) {
                exact(&format!("{w}::iter_bigint"), o.iter_bigint(), arcs.iter().map(|a| BigUint::from(*a)).collect())?;
                let fits = complete && arcs.iter().all(|a| *a <= u64::MAX as u128);
                // the first sub-identifier may be too large although both arcs fit
                let joined = fits && !rel && arcs.len() > 1 && arcs[0] * 40 + arcs[1] > u64::MAX as u128;
                match o.iter() {
                    Some(it) => {
                        ensure!(fits, "{w}::iter although an arc does not fit or is incomplete");
                        exact(&format!("{w}::iter"), it, arcs.iter().map(|a| *a as u64).collect())?;
                    }
                    None => ensure!(!fits || joined, "{w}::iter gives nothing"),
                }
                let t = text(&arcs);
                same!(o.to_id_string(), t, "{w}::to_id_string");
                let d = if rel { format!("rel. {t}") } else { t.clone() };
                same!(format!("{o}"), d, "{w}: display");
                same!(format!("{o:?}"), format!("OID({d})"), "{w}: debug");
                if !rel && fits && !joined && model::oid_valid(c) {
                    let back = Oid::from_str(&t).map_err(|e| format!("{w}: {t} is refused: {e:?}"))?;
                    same!(back.as_bytes(), c, "{w}: read back from {t}");
                    ensure!(back == *o, "{w}: {t} reads back as another value");
                }
            } else {
                // too large for the reference: it must still behave
                let n = o.iter_bigint().count();
                ensure!(o.to_id_string().split('.').count() == n.max(1), "{w}: text has another number of arcs");
                ensure!(o.iter().is_none(), "{w}::iter although an arc has more than 64 bits");
            }
        }
        if model::oid_valid(c) {
            let want = model::tlv(0, false, if rel { 13 } else { 6 }, c);
            written("Oid", &o, &want, &want)?;
            if rel {
                same!(Oid::from_ber_relative(&want).map(|(r, o)| (r.len(), o)), Ok((0, o.clone())), "from_ber_relative");
                same!(Oid::from_der_relative(&want).map(|(r, o)| (r.len(), o)), Ok((0, o.clone())), "from_der_relative");
            } else {
                ensure!(Oid::from_ber_relative(&want).is_err() && Oid::from_der_relative(&want).is_err(), "absolute read as relative");
            }
        }
    }
    Ok(())
}

fn oid_arcs(s: &[u64]) -> Res {
    let w: Vec<u128> = s.iter().map(|x| *x as u128).collect();
    // relative
    match Oid::from_relative(s) {
        Ok(o) => {
            ensure!(!s.is_empty(), "from_relative accepts no arc at all");
            same!(o.as_bytes(), &model::arcs_content(&w)[..], "from_relative");
            exact("from_relative, iter", o.iter().ok_or("from_relative: iter gives nothing")?, s.to_vec())?;
            same!(o.to_string(), format!("rel. {}", text(&w)), "from_relative: display");
        }
        Err(e) => ensure!(s.is_empty(), "from_relative fails: {e:?}"),
    }
    // absolute
    let sub = if w.len() >= 2 { w[0] * 40 + w[1] } else { 0 };
    let valid = w.len() >= 2 && w[0] <= 2 && (w[0] == 2 || w[1] < 40) && sub <= u64::MAX as u128;
    let special = s == [0];
    let r = Oid::from(s);
    let t = text(&w);
    let p = Oid::from_str(&t);
    match (&r, &p) {
        (Ok(o), Ok(p)) => {
            ensure!(valid || special, "accepted: {o:?}");
            let c = if special { vec![0] } else { model::arcs_content(&[&[sub], &w[2..]].concat()) };
            same!(o.as_bytes(), &c[..], "contents");
            ensure!(o == p, "from_str gives {p:?}");
            exact("iter", o.iter().ok_or("iter gives nothing")?, s.to_vec())?;
            same!(o.to_string(), t, "display");
        }
        (Err(a), Err(b)) => {
            ensure!(!valid && !special, "refused: {a:?}");
            ensure!(a == b || s.is_empty(), "from: {a:?}, from_str: {b:?}");
        }
        _ => return Err(format!("from: {r:?}, from_str: {p:?}")),
    }
    Ok(())
}

fn oid_prefix(a: &(Vec<u128>, bool), b: &(Vec<u128>, bool)) -> Res {
    let mk = |x: &(Vec<u128>, bool)| {
        if x.1 {
            Oid::new_relative(Cow::Owned(model::arcs_content(&x.0)))
        } else {
            Oid::new(Cow::Owned(model::arcs_content(&[&[x.0[0] * 40 + x.0[1]], &x.0[2..]].concat())))
        }
    };
    let (x, y) = (mk(a), mk(b));
    same!(x.starts_with(&y), a.1 == b.1 && a.0.starts_with(&b.0), "starts_with");
    same!(x == y, a == b, "equality");
    if a == b {
        ensure!(hash_of(&x) == hash_of(&y), "equal values with different hashes");
    }
    Ok(())
}

pub fn oids(ctx: &Ctx) {
    let t = ctx.thorough;
    let grid: Vec<u64> = vec![
        0, 1, 2, 3, 38, 39, 40, 41, 47, 48, 79, 80, 81, 127, 128, 129, 16383, 16384, 16385, 2097151, 2097152, 1 << 28, u32::MAX as u64, 1 << 32, (1 << 35) - 1, 1 << 35, (1 << 42) - 1, 1 << 42, (1 << 49) - 1, 1 << 49,
        (1 << 56) - 1, 1 << 56, (1 << 62) - 1, 1 << 62, (1 << 63) - 81, (1 << 63) - 80, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX - 81, u64::MAX - 80, u64::MAX - 79, u64::MAX - 40, u64::MAX - 39, u64::MAX - 1, u64::MAX,
    ];
    ctx.section("arcs", || {
        let mut all: Vec<Vec<u64>> = vec![vec![]];
        for a in &grid {
            all.push(vec![*a]);
            for b in &grid {
                all.push(vec![*a, *b]);
                for c in &grid {
                    all.push(vec![*a, *b, *c]);
                    if t || *a < 4 {
                        for d in grid.iter().step_by(if t { 1 } else { 5 }) {
                            all.push(vec![*a, *b, *c, *d]);
                        }
                    }
                }
            }
        }
        // every first sub-identifier, and every arc of up to three octets
        for x in 0..1u64 << if t { 21 } else { 16 } {
            all.push(vec![2, x]);
            all.push(vec![1, 3, x]);
        }
        for n in 5..20 {
            all.push((0..n).map(|i| grid[(i * 7 + 2) % grid.len()].min(2 + i as u64 * 1000)).collect());
        }
        ctx.par(&all, |s| ctx.check("arcs", &|| format!("{s:?}"), || oid_arcs(s)));
    });
    ctx.section("contents octets", || {
        let mut all = vec![];
        let alpha = [0x00u8, 0x01, 0x27, 0x28, 0x4f, 0x50, 0x7f, 0x80, 0x81, 0xff];
        for l in 0..=if t { 6 } else { 5 } {
            crate::gen::strings(&[], &alpha, l, &mut |b| all.push(b.to_vec()));
        }
        for x in 0..=u16::MAX {
            all.push(x.to_be_bytes().to_vec());
        }
        // long sub-identifiers, around 64 bits and beyond the reference
        for k in 6..=20 {
            for first in [0x80u8, 0x81, 0x82, 0x83, 0xbf, 0xc0, 0xfe, 0xff] {
                for mid in [0x80, 0xff] {
                    for last in [0x00, 0x01, 0x4f, 0x50, 0x7f, 0x80, 0xff] {
                        let mut v = vec![first];
                        v.extend(std::iter::repeat(mid).take(k - 2));
                        v.push(last);
                        for pre in [&[][..], &[0x2a], &[0x81, 0x00]] {
                            for post in [&[][..], &[0x05], &[0x81, 0x00], &[0x81]] {
                                all.push([pre, &v, post].concat());
                            }
                        }
                    }
                }
            }
        }
        ctx.par(&all, |c| {
            for rel in [false, true] {
                ctx.check("contents", &|| format!("{} {}", if rel { "relative" } else { "absolute" }, hex(c)), || oid_bytes(c, rel));
            }
        });
    });
    ctx.section("prefixes", || {
        let g = [0u128, 1, 39, 127, 128, 16384, u64::MAX as u128];
        let mut all = vec![];
        for a in 0..3u128 {
            for b in g.iter().filter(|b| a == 2 || **b < 40) {
                all.push((vec![a, *b], false));
                for c in g {
                    all.push((vec![a, *b, c], false));
                    for d in g {
                        all.push((vec![a, *b, c, d], false));
                    }
                }
            }
        }
        for b in g {
            all.push((vec![b], true));
            for c in g {
                all.push((vec![b, c], true));
                for d in g {
                    all.push((vec![b, c, d], true));
                }
            }
        }
        ctx.par(&all, |a| ctx.batch("prefixes", &|| format!("{a:?}"), all.len() as u64, || all.iter().try_for_each(|b| oid_prefix(a, b).map_err(|e| format!("{b:?}: {e}")))));
    });
    ctx.section("malformed text", || {
        let pieces = ["", "1", "2", "0", "39", "40", ".", "..", " ", "x", "-1", "18446744073709551615", "18446744073709551616", "1e3", "0x1", "\u{661}"];
        for a in pieces {
            for b in pieces {
                for c in pieces {
                    for d in pieces {
                        let s = [a, b, c, d].concat();
                        ctx.check("malformed text", &|| s.clone(), || {
                            let parts: Vec<&str> = s.split('.').collect();
                            let num: Option<Vec<u128>> = parts.iter().map(|p| if !p.is_empty() && p.len() < 30 && p.bytes().all(|c| c.is_ascii_digit()) { p.parse::<u128>().ok().filter(|x| *x <= u64::MAX as u128) } else { None }).collect();
                            match (Oid::from_str(&s), num) {
                                (Ok(o), None) => Err(format!("{s:?} is accepted: {o:?}")),
                                (r, Some(n)) => {
                                    let n: Vec<u64> = n.iter().map(|x| *x as u64).collect();
                                    same!(r.ok(), Oid::from(&n).ok(), "{s:?}");
                                    Ok(())
                                }
                                _ => Ok(()),
                            }
                        });
                    }
                }
            }
        }
    });
}

// ------------------------------------------------------------------ bit strings

fn bit_string(bs: &BitString, bits: &[bool], w: &str) -> Res {
    same!(bs.len(), bits.len(), "{w}: len");
    same!(bs.is_empty(), bits.is_empty(), "{w}: is_empty");
    for i in 0..bits.len() + 17 {
        same!(bs.is_set(i), bits.get(i).copied().unwrap_or(false), "{w}: is_set({i})");
    }
    ensure!(!bs.is_set(usize::MAX) && !bs.is_set(1 << 32), "{w}: a bit beyond the end is set");
    same!(bs.as_bitslice().iter().map(|b| *b).collect::<Vec<bool>>(), bits.to_vec(), "{w}: as_bitslice");
    let mut o = vec![0u8; bits.len().div_ceil(8)];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            o[i / 8] |= 0x80 >> (i % 8);
        }
    }
    same!(bs.as_raw_slice(), &o[..], "{w}: as_raw_slice");
    same!(bs.as_ref(), &o[..], "{w}: as_ref");
    let mut c = vec![(o.len() * 8 - bits.len()) as u8];
    c.extend(&o);
    let e = model::tlv(0, false, 3, &c);
    written(w, bs, &e, &e)?;
    let (r, back) = <BitString as DerParser>::parse_der(Input::from_slice(&e)).map_err(|e| format!("{w}: own encoding is refused: {e:?}"))?;
    ensure!(r.is_empty() && back == *bs, "{w}: reads back as {back:?}");
    Ok(())
}

fn bits_of(b: &[u8], n: usize) -> Vec<bool> {
    (0..n).map(|i| b[i / 8] & (0x80 >> (i % 8)) != 0).collect()
}

fn bit_strings(b: &[u8]) -> Res {
    for unused in 0..=if b.is_empty() { 0 } else { 7u8 } {
        let n = b.len() * 8 - unused as usize;
        let bits = bits_of(b, n);
        let mut s = BitString::new(unused, b);
        bit_string(&s, &bits, "BitString::new")?;
        bit_string(&s.clone(), &bits, "BitString::clone")?;
        // change each bit in place
        for i in 0..n {
            let mut want = bits.clone();
            want[i] = !want[i];
            s.as_mut_bitslice().set(i, want[i]);
            bit_string(&s, &want, "as_mut_bitslice")?;
            ensure!(s != BitString::new(unused, b), "equal although bit {i} differs");
            s.as_mut_bitslice().set(i, bits[i]);
        }
        ensure!(s == BitString::new(unused, b), "changed back, but different");
        // from any part of a bit slice
        let v = BitVec::<u8, Msb0>::from_slice(b);
        for from in 0..=n.min(17) {
            let sl: &BitSlice<u8, Msb0> = &v[from..n];
            bit_string(&BitString::from(sl), &bits[from..], "From<&BitSlice>")?;
        }
    }
    Ok(())
}

pub fn bits(ctx: &Ctx) {
    ctx.section("bit strings", || {
        let mut all = vec![];
        for x in 0..=255u8 {
            all.push(vec![x]);
        }
        let alpha = [0x00, 0x01, 0x55, 0x80, 0xfe, 0xff];
        for l in 0..=if ctx.thorough { 5 } else { 3 } {
            crate::gen::strings(&[], &alpha, l, &mut |b| all.push(b.to_vec()));
        }
        for n in [9, 16, 31, 126, 127, 128, 129] {
            all.push((0..n).map(|i| (i * 37 + 1) as u8).collect());
        }
        ctx.par(&all, |b| ctx.check("bit strings", &|| hex(b), || bit_strings(b)));
    });
    ctx.section("octet strings", || {
        for l in 0..=260usize {
            let b: Vec<u8> = (0..l).map(|i| (i * 7) as u8).collect();
            ctx.check("octet strings", &|| format!("{l} octets"), || {
                let e = model::tlv(0, false, 4, &b);
                for o in [OctetString::new(&b), OctetString::from(&b[..])] {
                    same!(o.as_ref(), &b[..], "as_ref");
                    ensure!(o == OctetString::new(&b) && hash_eq(&o, &b), "differs from a fresh one");
                    written("OctetString", &o, &e, &e)?;
                }
                Ok(())
            });
        }
    });
}

fn hash_eq(o: &OctetString, b: &[u8]) -> bool {
    o.as_cow().as_ref() == b
}

// ------------------------------------------------------------------ integers

fn conversions(c: &[u8]) -> Res {
    // value: sign extension of the contents
    let val: Option<i128> = if c.is_empty() || c.len() > 16 {
        None
    } else {
        Some(c.iter().fold(if c[0] & 0x80 != 0 { -1i128 } else { 0 }, |x, b| x << 8 | *b as i128))
    };
    let i = Integer::new(c);
    same!(i.as_ref(), c, "as_ref");
    same!(i.as_raw_slice(), Some(c), "as_raw_slice");
    let any = i.any();
    same!(any.as_bytes(), c, "any");
    same!(i.any().tag(), Tag::Integer, "tag of any");
    let big = BigInt::from_signed_bytes_be(c);
    same!(i.as_bigint(), big, "as_bigint");
    let short = minimal(c.to_vec()) == c;
    let neg = !c.is_empty() && c[0] & 0x80 != 0;
    same!(i.as_biguint().ok(), if neg { None } else { Some(BigUint::from_bytes_be(c)) }, "as_biguint");
    macro_rules! conv { ($($t:ident $as:ident;)*) => { $(
        let want = if c.is_empty() { None } else { $t::try_from(&big).ok() };
        // contents that are not minimal may be refused
        let got = i.$as().ok();
        if got.is_some() || short { same!(got, want, stringify!($as)); }
        same!($t::try_from(i.clone()).ok(), got, "TryFrom<Integer> for {}", stringify!($t));
        if let Some(v) = val {
            same!(want.is_some(), $t::try_from(v).is_ok() , "reference");
        }
    )* } }
    if c.len() <= 16 {
        conv! { i8 as_i8; i16 as_i16; i32 as_i32; i64 as_i64; i128 as_i128; isize as_isize; u8 as_u8; u16 as_u16; u32 as_u32; u64 as_u64; u128 as_u128; usize as_usize; }
    } else {
        macro_rules! big { ($($t:ident $as:ident;)*) => { $( if let Ok(x) = i.$as() { same!(Ok(x), $t::try_from(&big), stringify!($as)); } else { ensure!(!short || $t::try_from(&big).is_err(), stringify!($as)); } )* } }
        big! { i8 as_i8; i64 as_i64; i128 as_i128; u8 as_u8; u64 as_u64; u128 as_u128; }
    }
    Ok(())
}

fn minimal(mut b: Vec<u8>) -> Vec<u8> {
    while b.len() > 1 && ((b[0] == 0 && b[1] < 0x80) || (b[0] == 0xff && b[1] >= 0x80)) {
        b.remove(0);
    }
    b
}

#[allow(irrefutable_let_patterns)]
fn from_native(x: i128) -> Res {
    let want = model::int_content(x);
    let e = model::tlv(0, false, 2, &want);
    macro_rules! nat { ($($t:ident $from:ident $as:ident;)*) => { $( if let Ok(v) = $t::try_from(x) {
        let i = Integer::$from(v);
        same!(hex(i.as_ref()), hex(&want), "Integer::{}", stringify!($from));
        same!(i.$as(), Ok(v), "{} after {}", stringify!($as), stringify!($from));
        ensure!(Integer::from(v) == i, "From<{}>", stringify!($t));
        same!(i.as_bigint(), BigInt::from(x), "as_bigint after {}", stringify!($from));
        written(stringify!($t), &v, &e, &e)?;
        written(stringify!($from), &i, &e, &e)?;
        same!(<$t as FromDer>::from_der(&e).map(|r| r.1), Ok(v), "{} read back", stringify!($t));
    } )* } }
    nat! { i8 from_i8 as_i8; i16 from_i16 as_i16; i32 from_i32 as_i32; i64 from_i64 as_i64; i128 from_i128 as_i128; isize from_isize as_isize; u8 from_u8 as_u8; u16 from_u16 as_u16; u32 from_u32 as_u32; u64 from_u64 as_u64; u128 from_u128 as_u128; usize from_usize as_usize; }
    // values above i128::MAX
    let y = (x as u128) | 1 << 127;
    let mut b = vec![0];
    b.extend(y.to_be_bytes());
    let b = minimal(b);
    let i = Integer::from_u128(y);
    same!(hex(i.as_ref()), hex(&b), "from_u128");
    same!(i.as_u128(), Ok(y), "as_u128");
    ensure!(i.as_i128().is_err(), "{y} taken for an i128");
    let e = model::tlv(0, false, 2, &b);
    written("u128", &y, &e, &e)?;
    Ok(())
}

fn const_array<const N: usize>(a: [u8; N]) -> Res {
    let mut b = vec![0];
    b.extend(a);
    let b = minimal(b);
    let i = Integer::from_const_array(a);
    same!(hex(i.as_ref()), hex(&b), "from_const_array");
    same!(i.as_biguint().ok(), Some(BigUint::from_bytes_be(&a)), "from_const_array: value");
    Ok(())
}

pub fn ints(ctx: &Ctx) {
    let alpha = [0x00, 0x01, 0x7f, 0x80, 0x81, 0xfe, 0xff];
    ctx.section("integers made from native ones", || {
        let mut all: Vec<i128> = vec![];
        let n = if ctx.thorough { 1 << 20 } else { 70000 };
        all.extend(-n..=n);
        for k in 0..127 {
            for d in -3..=3 {
                all.push((1i128 << k).wrapping_add(d));
                all.push((1i128 << k).wrapping_add(d).wrapping_neg());
                all.push((0x7fi128 << k).wrapping_add(d));
                all.push((0xffi128 << k).wrapping_add(d));
            }
        }
        all.extend([i128::MIN, i128::MIN + 1, i128::MAX, i128::MAX - 1]);
        ctx.par(&all, |x| ctx.check("native", &|| format!("{x}"), || from_native(*x)));
    });
    ctx.section("integers made from octets", || {
        let mut all = vec![];
        for l in 0..=if ctx.thorough { 6 } else { 4 } {
            crate::gen::strings(&[], &alpha, l, &mut |b| all.push(b.to_vec()));
        }
        for x in 0..=u16::MAX {
            all.push(x.to_be_bytes().to_vec());
        }
        // fill octets before and after boundary octets, up to 20 octets
        for l in 3..=20 {
            for a in alpha {
                for b in alpha {
                    for fill in [0x00, 0x7f, 0x80, 0xff] {
                        for last in [0x00, 0x01, 0xff] {
                            let mut v = vec![fill; l];
                            v[0] = a;
                            v[1] = b;
                            v[l - 1] = last;
                            all.push(v.clone());
                            for p in [1, 2, 4, 8, 16] {
                                if p < l - 1 {
                                    let mut w = vec![a; p];
                                    w.push(b);
                                    w.resize(l, fill);
                                    all.push(w);
                                    // the sign octet follows p fill octets counted from the end
                                    let mut w = vec![a; l - p - 1];
                                    w.push(b);
                                    w.resize(l, fill);
                                    all.push(w);
                                }
                            }
                        }
                    }
                }
            }
        }
        all.sort();
        all.dedup();
        ctx.par(&all, |c| ctx.check("octets", &|| hex(c), || conversions(c)));
        for a in alpha {
            for b in alpha {
                for c in alpha {
                    for d in alpha {
                        ctx.check("from_const_array", &|| hex(&[a, b, c, d]), || {
                            const_array([])?;
                            const_array([a])?;
                            const_array([a, b])?;
                            const_array([a, b, c])?;
                            const_array([a, b, c, d])?;
                            const_array([a, a, a, a, a, a, b, c, d])
                        });
                    }
                }
            }
        }
    });
}

// ------------------------------------------------------------------ reals

fn real_back(w: &str, r: &Real, want: f64, exact_der: bool) -> Res {
    same!(r.f64().to_bits(), want.to_bits(), "{w}: f64");
    same!(r.f32().to_bits(), (want as f32).to_bits(), "{w}: f32");
    same!(r.is_finite(), want.is_finite(), "{w}: is_finite");
    same!(r.is_infinite(), want.is_infinite(), "{w}: is_infinite");
    let mut ex = 0;
    let b = acct_ber(r, false, &mut ex)?.ok_or_else(|| format!("{w}: refused"))?;
    let d = acct_der(r, false, &mut ex)?.ok_or_else(|| format!("{w}: refused"))?;
    for (x, der) in [(&b, false), (&d, true)] {
        let e = hex(x);
        if let (M::Acc { n, v, .. }, true) = (model::run(&Ty::Real, false, 0, x).0, !der || exact_der) {
            ensure!(n == x.len() && v == V::F(Fl(want, 1e-15)), "{w}: written as {e}, which denotes {v:?}");
        } else if !der {
            return Err(format!("{w}: written as {e}, which is not a REAL"));
        }
        let (rem, back) = <Real as FromBer>::from_ber(x).map_err(|q| format!("{w}: own encoding {e} is refused: {q:?}"))?;
        ensure!(rem.is_empty(), "{w}: own encoding {e} leaves data");
        same!(back.f64().to_bits(), want.to_bits(), "{w}: read back from {e}");
    }
    Ok(())
}

fn real_f64(f: f64) -> Res {
    let want = if f.is_nan() { f64::NAN } else if f == 0.0 { 0.0 } else { f };
    real_back("Real::new", &Real::new(f), want, true)?;
    // the native type
    let mut ex = 0;
    let b = acct_ber(&f, false, &mut ex)?.ok_or("f64 refused")?;
    let d = acct_der(&f, false, &mut ex)?.ok_or("f64 refused")?;
    for x in [&b, &d] {
        let back = <f64 as FromBer>::from_ber(x).map_err(|e| format!("own encoding {}: {e:?}", hex(x)))?.1;
        ensure!(back == f || (back.is_nan() && f.is_nan()), "f64 read back from {}: {back}", hex(x));
    }
    let g = f as f32;
    let b = acct_ber(&g, false, &mut ex)?.ok_or("f32 refused")?;
    let back = <f32 as FromBer>::from_ber(&b).map_err(|e| format!("own encoding {}: {e:?}", hex(&b)))?.1;
    ensure!(back == g || (back.is_nan() && g.is_nan()), "f32 {g} read back from {}: {back}", hex(&b));
    Ok(())
}

/// mantissa * 2^e with correct rounding, independent of the code under test
fn scaled(m: f64, e: i32) -> f64 {
    let a = m.abs();
    if a == 0.0 {
        return 0.0;
    }
    let bits = a.to_bits();
    let (mut frac, mut ex) = (bits & ((1 << 52) - 1), (bits >> 52) as i128);
    if ex == 0 {
        ex = 1;
    } else {
        frac |= 1 << 52;
    }
    let r = model::scale_to_f64(&frac.to_be_bytes(), ex - 1075 + e as i128);
    if m < 0.0 {
        -r
    } else {
        r
    }
}

pub fn reals(ctx: &Ctx) {
    let t = ctx.thorough;
    let mut fs: Vec<f64> = vec![0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, 5e-324, 0.1, 0.15625, 1.0 / 3.0, std::f64::consts::PI, 1e22, 1e23, 123456.789, 9007199254740993.0];
    for e in 0..2047u64 {
        for m in [0u64, 1, 0x8_0000_0000_0000, 0xf_ffff_ffff_ffff, 0x5_5555_5555_5555, 0x0_0000_0100_0000, 0xf_ffff_e000_0000] {
            for s in [0, 1u64] {
                fs.push(f64::from_bits(s << 63 | e << 52 | m));
            }
        }
    }
    for i in -1100..=1100 {
        fs.push(i as f64);
        fs.push(i as f64 / 8.0);
        fs.push(i as f64 / 10.0);
        fs.push(i as f64 * 1e20);
        fs.push(i as f64 * 1e-20);
    }
    ctx.section("reals made from floating point", || ctx.par(&fs, |f| ctx.check("floating point", &|| format!("{f:e} {:016x}", f.to_bits()), || real_f64(*f))));
    ctx.section("reals made from mantissa and exponent", || {
        let ms = [1.0, 2.0, 3.0, 5.0, 8.0, 127.0, 128.0, 255.0, 256.0, 65535.0, 1048576.0, 4503599627370495.0, 9007199254740991.0, 9007199254740992.0, 0.5, 0.75, 0.1, 1.0 / 3.0, 1e300, 1e-300, 5e-324, 0.0];
        let mut es: Vec<i32> = (-1100..=1040).step_by(if t { 1 } else { 3 }).collect();
        for k in [7, 8, 15, 16, 23, 24, 30] {
            for d in -2..=2 {
                es.push((1 << k) + d);
                es.push(-(1 << k) + d);
            }
        }
        es.extend([i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, i32::MAX - 60, i32::MIN + 60]);
        ctx.par(&es, |e| {
            for m in ms {
                for s in [1.0, -1.0] {
                    let m = m * s;
                    for base in [2u8, 8, 16] {
                        ctx.check("mantissa and exponent", &|| format!("{m} * 2^{e}, written in base {base}"), || {
                            let r = Real::binary(m, 2, *e).with_enc_base(base);
                            let want = scaled(m, *e);
                            let want = if m == 0.0 { 0.0 * m } else { want };
                            same!(r.f64().to_bits(), want.to_bits(), "f64");
                            ensure!(r.is_finite() && !r.is_infinite(), "is_finite");
                            let mut ex = 0;
                            let Some(b) = acct_ber(&r, false, &mut ex)? else {
                                // only an exponent too large for the encoder is refused
                                ensure!((*e as i64).abs() > i32::MAX as i64 - 1200, "refused");
                                return Ok(());
                            };
                            let back = match <Real as FromBer>::from_ber(&b) {
                                Ok(x) => x.1,
                                Err(q) => {
                                    ensure!((*e as i64).abs() > i32::MAX as i64 - 1200, "own encoding {} is refused: {q:?}", hex(&b));
                                    return Ok(());
                                }
                            };
                            ensure!(back.f64() == want, "read back from {}: {:e}, expected {want:e}", hex(&b), back.f64());
                            Ok(())
                        });
                    }
                }
            }
        });
    });
    ctx.section("decimal reals", || {
        let ms = [1.0, 2.0, 3.0, 15.0, 123.0, 9007199254740991.0, 99999.0];
        let es: Vec<i32> = (-340..=320).collect();
        ctx.par(&es, |e| {
            for m in ms {
                for s in [1.0, -1.0] {
                    let m = m * s;
                    ctx.check("decimal", &|| format!("{m} * 10^{e}"), || {
                        let r = Real::Binary { mantissa: m, base: 10, exponent: *e, enc_base: 10 };
                        let want: f64 = format!("{m}e{e}").parse().unwrap();
                        same!(r.f64().to_bits(), want.to_bits(), "f64");
                        let mut ex = 0;
                        let b = acct_ber(&r, false, &mut ex)?.ok_or("refused")?;
                        let back = <Real as FromBer>::from_ber(&b).map_err(|q| format!("own encoding {} is refused: {q:?}", hex(&b)))?.1;
                        ensure!(back.f64() == want, "read back from {}: {:e}, expected {want:e}", hex(&b), back.f64());
                        Ok(())
                    });
                }
            }
        });
    });
}

// ------------------------------------------------------------------ times

/// as decoded: the hours carry the sign, when there are any
fn off(m: i32) -> ASN1TimeZone {
    ASN1TimeZone::Offset((m / 60) as i8, if m <= -60 { (-m % 60) as i8 } else { (m % 60) as i8 })
}

fn time_values(f: &(u32, u8, u8, u8, u8, u8, Option<u16>, ASN1TimeZone)) -> Res {
    let (y, mo, d, h, mi, s, ms, tz) = *f;
    let dt = || ASN1DateTime::new(y, mo, d, h, mi, s, ms, tz);
    let fields = (1..=12).contains(&mo) && (1..=31).contains(&d) && h < 24 && mi < 60 && s < 60 && ms.unwrap_or(0) < 1000;
    let tz_ok = match tz {
        ASN1TimeZone::Offset(a, b) => a.unsigned_abs() < 24 && b.unsigned_abs() < 60,
        _ => true,
    };
    // text
    let z = match tz {
        ASN1TimeZone::Undefined => String::new(),
        ASN1TimeZone::Z => "Z".into(),
        ASN1TimeZone::Offset(a, b) => format!("{}{:02}{:02}", if a < 0 || b < 0 { '-' } else { '+' }, a.unsigned_abs(), b.unsigned_abs()),
    };
    same!(dt().tz.to_string(), z, "time zone as text");
    let fr = ms.map(|m| format!(".{m:03}")).unwrap_or_default();
    same!(dt().to_string(), format!("{y:04}{mo:02}{d:02}{h:02}{mi:02}{s:02}{fr}{z}"), "date as text");
    // instants
    let exists = fields && d <= model::month_len(y, mo) && y <= 9999;
    let minutes = match tz {
        ASN1TimeZone::Offset(a, b) if a < 0 => a as i64 * 60 - (b as i64).abs(),
        ASN1TimeZone::Offset(a, b) => a as i64 * 60 + b as i64,
        _ => 0,
    };
    let instant = |y: i64| ((model::day_number(y, mo, d) - model::day_number(1970, 1, 1)) * 1440 + h as i64 * 60 + mi as i64 - minutes) * 60 + s as i64;
    let same_sign = !matches!(tz, ASN1TimeZone::Offset(a, b) if a > 0 && b < 0);
    if exists && tz_ok && same_sign {
        for (w, r) in [("to_datetime", dt().to_datetime()), ("GeneralizedTime::utc_datetime", GeneralizedTime::new(dt()).utc_datetime()), ("UtcTime::utc_datetime", UtcTime::new(dt()).utc_datetime())] {
            let r = r.map_err(|e| format!("{w}: {e:?}"))?;
            same!((r.unix_timestamp(), r.millisecond()), (instant(y as i64), ms.unwrap_or(0)), "{w}");
            same!((r.year(), r.hour(), r.minute(), r.offset().whole_seconds() as i64), (y as i32, h, mi, minutes * 60), "{w}: components");
        }
        if y < 100 {
            let full = if y >= 50 { 1900 + y } else { 2000 + y };
            if d <= model::month_len(full, mo) {
                let r = UtcTime::new(dt()).utc_adjusted_datetime().map_err(|e| format!("utc_adjusted_datetime: {e:?}"))?;
                same!((r.year(), r.unix_timestamp()), (full as i32, instant(full as i64)), "utc_adjusted_datetime");
                same!(UtcTime::new(dt()).timestamp().ok(), Some(instant(full as i64)), "timestamp");
            }
        }
    } else if !fields || d > model::month_len(y, mo) {
        ensure!(dt().to_datetime().is_err(), "to_datetime accepts a date that does not exist");
    }
    // encodings
    let v = if same_sign && tz_ok { Some(GeneralizedTime::new(dt()).norm()) } else { None };
    for (w, utc) in [("UtcTime", true), ("GeneralizedTime", false)] {
        let writable = fields && tz_ok && y <= if utc { 99 } else { 9999 };
        for der in [false, true] {
            let mut ex = 0;
            let got = match (utc, der) {
                (true, false) => acct_ber(&UtcTime::new(dt()), false, &mut ex)?,
                (true, true) => acct_der(&UtcTime::new(dt()), false, &mut ex)?,
                (false, false) => acct_ber(&GeneralizedTime::new(dt()), false, &mut ex)?,
                (false, true) => acct_der(&GeneralizedTime::new(dt()), false, &mut ex)?,
            };
            if !writable {
                ensure!(got.is_none(), "{w}: {:?} is written as {}", dt(), hex(&got.unwrap_or_default()));
                continue;
            }
            let Some(v) = &v else { continue };
            let ty = if utc { Ty::Utc } else { Ty::Gen };
            if let Some(want) = model::encode(&ty, v, der) {
                same!(got.as_ref().map(|g| String::from_utf8_lossy(&g[2..]).to_string()), Some(String::from_utf8_lossy(&want[2..]).to_string()), "{w}, {}", if der { "DER" } else { "BER" });
            }
        }
    }
    Ok(())
}

/// the contents octets alone
fn time_bytes(c: &[u8]) -> Res {
    macro_rules! one { ($T:ident, $ty:expr, $tag:literal) => {{
        let e = model::tlv(0, false, $tag, c);
        let got = $T::from_bytes(c);
        let full = $T::from_ber(&e).map(|x| x.1);
        same!(got.as_ref().ok().map(|x| x.norm()), full.as_ref().ok().map(|x| x.norm()), "{}::from_bytes, and from_ber of the element", stringify!($T));
        match model::run(&$ty, false, 0, &e).0 {
            M::Acc { must, v, .. } => {
                if must { ensure!(got.is_ok(), "{}::from_bytes: {got:?}", stringify!($T)) }
                if let Ok(x) = &got { same!(x.norm(), v, "{}::from_bytes", stringify!($T)) }
            }
            M::Rej => ensure!(got.is_err(), "{}::from_bytes accepts: {got:?}", stringify!($T)),
        }
    }} }
    one!(UtcTime, Ty::Utc, 23);
    one!(GeneralizedTime, Ty::Gen, 24);
    Ok(())
}

pub fn time_texts(ctx: &Ctx, cases: &[crate::types::Case]) {
    let t = ctx.thorough;
    ctx.section("contents of times", || {
        let mut jobs: Vec<Vec<u8>> = vec![];
        let ts: Vec<crate::types::Case> = cases.iter().filter(|c| c.group == "time").cloned().collect();
        crate::api_any::corpus(&ts, false, if t { 400 } else { 60 }, &mut |b| {
            if b.len() > 2 && b[1] as usize == b.len() - 2 {
                jobs.push(b[2..].to_vec());
            }
        });
        for s in ["9912312359Z", "991231235959Z", "9912312359+0100", "991231235959-0030", "20240229120000Z", "2024022912Z", "202402291200.5Z", "20240229120000.123-0130", "20240229120000,999", "0001010100+2359", ""] {
            jobs.push(s.as_bytes().to_vec());
        }
        jobs.sort();
        jobs.dedup();
        let seen = Seen::new();
        ctx.par(&jobs, |c| {
            let f = |b: &[u8]| {
                if seen.add(b) {
                    ctx.check("contents of times", &|| String::from_utf8_lossy(b).escape_default().to_string(), || time_bytes(b));
                }
            };
            f(c);
            for i in 0..=c.len() {
                f(&c[..i]);
                f(&c[i..]);
                for x in b"0123456789Z+-., \0\xff" {
                    let mut b = c.clone();
                    b.insert(i, *x);
                    f(&b);
                    if i < c.len() {
                        let mut b = c.clone();
                        b[i] = *x;
                        f(&b);
                        if t {
                            for j in i + 1..c.len() {
                                for y in b"09Z+-." {
                                    let mut b = b.clone();
                                    b[j] = *y;
                                    f(&b);
                                }
                            }
                        }
                    }
                }
                if i < c.len() {
                    let mut b = c.clone();
                    b.remove(i);
                    f(&b);
                }
            }
        });
    });
}

pub fn times(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.section("dates and times", || {
        let mut all = vec![];
        let zones: Vec<ASN1TimeZone> = [ASN1TimeZone::Undefined, ASN1TimeZone::Z].into_iter().chain([0, 1, 59, 60, 61, 90, 330, 719, 720, 840, 1439].iter().flat_map(|m| [off(*m), off(-*m)])).collect();
        let years = [0u32, 1, 4, 49, 50, 70, 72, 99, 100, 400, 1582, 1600, 1899, 1900, 1969, 1970, 1972, 1999, 2000, 2023, 2024, 2100, 9998, 9999, 10000, u32::MAX];
        // every day of the year, at the ends of the day
        for y in years {
            for mo in 0..=13 {
                for d in (0..=32).filter(|d| t || *d < 3 || *d > 26) {
                    for (h, mi, s) in [(0, 0, 0), (23, 59, 59)] {
                        for tz in zones.iter().step_by(if t { 1 } else { 3 }) {
                            all.push((y, mo, d, h, mi, s, None, *tz));
                        }
                    }
                }
            }
        }
        // every minute of a day, every zone
        for h in 0..=24 {
            for mi in 0..=60 {
                for s in [0, 1, 59, 60] {
                    for tz in &zones {
                        all.push((24, 2, 28, h, mi, s, None, *tz));
                        all.push((99, 12, 31, h, mi, s, None, *tz));
                        all.push((2000, 1, 1, h, mi, s, Some(5), *tz));
                    }
                }
            }
        }
        // every offset
        for m in -1440..=1440i32 {
            for (y, mo, d) in [(23, 3, 1), (0, 1, 1), (99, 12, 31), (24, 2, 29), (2000, 2, 29), (2023, 12, 31), (9999, 12, 31), (1, 1, 1)] {
                for h in [0, 12, 23] {
                    all.push((y, mo, d, h, 30, 0, None, off(m)));
                }
            }
        }
        for a in [-128i8, -100, -24, -23, -1, 0, 1, 23, 24, 100, 127] {
            for b in [-128i8, -60, -59, -1, 0, 1, 59, 60, 127] {
                all.push((23, 6, 15, 12, 30, 0, None, ASN1TimeZone::Offset(a, b)));
            }
        }
        // every fraction
        for ms in (0..=1001).chain([65535]) {
            for tz in [ASN1TimeZone::Undefined, ASN1TimeZone::Z, off(60), off(-1)] {
                all.push((2023, 1, 31, 23, 59, 58, Some(ms), tz));
                all.push((23, 1, 31, 23, 59, 58, Some(ms), tz));
            }
        }
        for x in [24u8, 25, 60, 61, 99, 100, 255] {
            all.push((23, 1, 1, x, 0, 0, None, ASN1TimeZone::Z));
            all.push((23, 1, 1, 0, x, 0, None, ASN1TimeZone::Z));
            all.push((23, 1, 1, 0, 0, x, None, ASN1TimeZone::Z));
            all.push((23, x, 1, 0, 0, 0, None, ASN1TimeZone::Z));
            all.push((23, 1, x, 0, 0, 0, None, ASN1TimeZone::Z));
        }
        ctx.par(&all, |f| ctx.check("times", &|| format!("{f:?}"), || time_values(f)));
    });
}
