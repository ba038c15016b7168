//! C17: iterators, callbacks and builders of collections.
use crate::api_any::Res;
use crate::engine::*;
use crate::ep::*;
use crate::model::{self, Ty, M};
use crate::norm::Norm;
use crate::types::{bx, u32t};
use crate::v::*;
use crate::{ensure, same};
use asn1_rs::*;
use std::borrow::Cow;
use std::collections::{BTreeSet, HashSet};

/// the elements of type `ty` in `c`, up to the first that is not one
fn expect(ty: &Ty, der: bool, c: &[u8]) -> (Vec<V>, bool) {
    let (mut v, mut p) = (vec![], 0);
    while p < c.len() {
        match model::run(ty, der, 0, &c[p..]).0 {
            M::Acc { n, v: x, .. } => {
                v.push(x);
                p += n;
            }
            M::Rej => return (v, false),
        }
    }
    (v, true)
}

/// drive an iterator by hand: elements, at most one error, and nothing afterwards
fn drive<T: Norm, E: std::fmt::Debug>(w: &str, want: &(Vec<V>, bool), mut it: impl Iterator<Item = std::result::Result<T, E>>) -> Res {
    for (i, x) in want.0.iter().enumerate() {
        match it.next() {
            Some(Ok(y)) => same!(y.norm(), *x, "{w}: element {i}"),
            Some(Err(e)) => return Err(format!("{w}: element {i}: {e:?}")),
            None => return Err(format!("{w}: stops before element {i}")),
        }
    }
    if !want.1 {
        match it.next() {
            Some(Err(_)) => (),
            Some(Ok(y)) => return Err(format!("{w}: yields {:?} where there is no such element", y.norm())),
            None => return Err(format!("{w}: stops without an error")),
        }
    }
    for k in 0..3 {
        match it.next() {
            None => (),
            Some(Ok(y)) => return Err(format!("{w}: yields {:?} after the end (call {k})", y.norm())),
            Some(Err(e)) => return Err(format!("{w}: yields the error {e:?} after the end (call {k})")),
        }
    }
    Ok(())
}

fn whole<T: Norm, E: std::fmt::Debug>(w: &str, want: &(Vec<V>, bool), got: std::result::Result<T, E>) -> Res {
    match (got, want.1) {
        (Ok(v), true) => same!(v.norm(), V::List(want.0.clone()), "{w}"),
        (Err(_), false) => (),
        (Ok(v), false) => return Err(format!("{w}: {:?} although an element is malformed", v.norm())),
        (Err(e), true) => return Err(format!("{w}: {e:?}")),
    }
    Ok(())
}

macro_rules! both {
    ($c:ident, $t:ty, $ty:expr) => {{
        let c: &[u8] = $c;
        let ty = $ty;
        for der in [false, true] {
            let want = expect(&ty, der, c);
            let d = if der { "DER" } else { "BER" };
            let t = stringify!($t);
            macro_rules! w { ($x:expr) => { &format!("{}<{t}>, {d}", $x) } }
            let (sb, so) = (Sequence::new(Cow::Borrowed(c)), Sequence::new(Cow::Owned(c.to_vec())));
            let (tb, to) = (Set::new(Cow::Borrowed(c)), Set::new(Cow::Owned(c.to_vec())));
            let i = Input::new(c, BASE..BASE + c.len());
            if der {
                drive(w!("SequenceIterator"), &want, SequenceIterator::<$t, DerMode, Error>::new(c))?;
                drive(w!("SetIterator"), &want, SetIterator::<$t, DerMode, Error>::new(c))?;
                drive(w!("Sequence::der_iter"), &want, sb.der_iter::<$t, Error>())?;
                drive(w!("Set::der_iter"), &want, to.der_iter::<$t, Error>())?;
                whole(w!("Sequence::der_sequence_of"), &want, so.der_sequence_of::<$t, Error>())?;
                whole(w!("Set::der_set_of"), &want, tb.der_set_of::<$t, Error>())?;
                whole(w!("Sequence::into_der_sequence_of_ref"), &want, sb.clone().into_der_sequence_of_ref::<$t, Error>())?;
                whole(w!("Set::into_der_set_of_ref"), &want, tb.clone().into_der_set_of_ref::<$t, Error>())?;
                ensure!(so.clone().into_der_sequence_of_ref::<$t, Error>().is_err() && to.clone().into_der_set_of_ref::<$t, Error>().is_err(), "references into owned contents");
            } else {
                drive(w!("SequenceIterator"), &want, SequenceIterator::<$t, BerMode, Error>::new(c))?;
                drive(w!("SetIterator"), &want, SetIterator::<$t, BerMode, Error>::new(c))?;
                drive(w!("Sequence::ber_iter"), &want, so.ber_iter::<$t, Error>())?;
                drive(w!("Set::ber_iter"), &want, tb.ber_iter::<$t, Error>())?;
                whole(w!("Sequence::ber_sequence_of"), &want, sb.ber_sequence_of::<$t, Error>())?;
                whole(w!("Set::ber_set_of"), &want, to.ber_set_of::<$t, Error>())?;
            }
            let _ = i;
        }
    }};
}

macro_rules! cursors {
    ($c:ident, $t:ty, $ty:expr) => {{
        let c: &[u8] = $c;
        let ty = $ty;
        let i = Input::new(c, BASE..BASE + c.len());
        let want = expect(&ty, false, c);
        drive(concat!("SequenceIteratorInput<", stringify!($t), ">, BER"), &want, SequenceIteratorInput::<$t, BerMode>::new(i.clone()))?;
        let got = AnyIterator::<BerMode>::new(i.clone()).try_parse_collect::<Vec<$t>, $t>();
        if let Ok((r, _)) = &got {
            same!(*r.span(), BASE + c.len()..BASE + c.len(), "try_parse_collect: remainder");
        }
        whole(concat!("try_parse_collect<Vec<", stringify!($t), ">>, BER"), &want, got.map(|x| x.1))?;
        let want = expect(&ty, true, c);
        drive(concat!("SequenceIteratorInput<", stringify!($t), ">, DER"), &want, SequenceIteratorInput::<$t, DerMode>::new(i.clone()))?;
        let got = AnyIterator::<DerMode>::new(i.clone()).try_parse_collect::<Vec<$t>, $t>();
        if let Ok((r, _)) = &got {
            same!(*r.span(), BASE + c.len()..BASE + c.len(), "try_parse_collect: remainder");
        }
        whole(concat!("try_parse_collect<Vec<", stringify!($t), ">>, DER"), &want, got.map(|x| x.1))?;
    }};
}

macro_rules! owned {
    ($c:ident, $t:ty, $ty:expr) => {{
        let c: &[u8] = $c;
        for o in [Cow::Borrowed(c), Cow::Owned(c.to_vec())] {
            let (wb, wd) = (expect(&$ty, false, c), expect(&$ty, true, c));
            whole(concat!("Sequence::into_ber_sequence_of<", stringify!($t), ">"), &wb, Sequence::new(o.clone()).into_ber_sequence_of::<$t, (), Error>())?;
            whole(concat!("Sequence::into_der_sequence_of<", stringify!($t), ">"), &wd, Sequence::new(o.clone()).into_der_sequence_of::<$t, (), Error>())?;
            whole(concat!("Set::into_ber_set_of<", stringify!($t), ">"), &wb, Set::new(o.clone()).into_ber_set_of::<$t, Error>())?;
            whole(concat!("Set::into_der_set_of<", stringify!($t), ">"), &wd, Set::new(o.clone()).into_der_set_of::<$t, Error>())?;
        }
    }};
}

fn callbacks(c: &[u8]) -> Res {
    let tail: &[u8] = &[0xde, 0xad];
    for (tag, set) in [(16u32, false), (17, true)] {
        let mut el = vec![model::tlv(0, true, tag, c)];
        let (inner, well_formed) = crate::api_any::elements(c, false);
        // end-of-contents among the elements would end the indefinite form
        if well_formed && !inner.iter().any(|(p, ..)| c[*p] == 0) {
            el.push(model::indef(0, tag, c));
        }
        el.push(model::tlv(0, true, tag ^ 1, c));
        for (k, e) in el.iter().enumerate() {
            let mut b = e.clone();
            b.extend_from_slice(tail);
            let mine = b[1] != 0x80;
            macro_rules! cb { ($($ty:ident $f:ident $g:ident $der:literal;)*) => { $( if set == (stringify!($ty) == "Set") {
                let is = (e[0] & 31) as u32 == tag;
                let ok = is && ($der == 0 || mine);
                let mut calls = 0;
                let r: ParseResult<Vec<u8>> = $ty::$f(&b, |x| { calls += 1; Ok((&b""[..], x.to_vec())) });
                match r {
                    Ok((rem, x)) => { ensure!(ok, "{}::{} accepts form {k}", stringify!($ty), stringify!($f)); same!((rem, &x[..], calls), (tail, c, 1), "{}::{}, form {k}", stringify!($ty), stringify!($f)); }
                    Err(e) => ensure!(!ok && calls == 0, "{}::{} fails on form {k}: {e:?}", stringify!($ty), stringify!($f)),
                }
                let mut calls = 0;
                let r: IResult<Input, (Header, Vec<u8>), BerError<Input>> = $ty::$g(cursor(&b), |h, i| { calls += 1; let x = i.as_bytes2().to_vec(); Ok((i, (h, x))) });
                match r {
                    Ok((rem, (h, x))) => {
                        ensure!(ok, "{}::{} accepts form {k}", stringify!($ty), stringify!($g));
                        same!((rem.as_bytes2(), &x[..], calls), (tail, c, 1), "{}::{}, form {k}", stringify!($ty), stringify!($g));
                        same!((h.tag().0, h.is_constructed(), h.length().definite().ok()), (tag, true, if mine { Some(c.len()) } else { None }), "header given by {}::{}", stringify!($ty), stringify!($g));
                    }
                    Err(e) => ensure!(!ok && calls == 0, "{}::{} fails on form {k}: {e:?}", stringify!($ty), stringify!($g)),
                }
                // what the callback says is what the caller gets
                let r: ParseResult<u8> = $ty::$f(&b, |_| Err(nom::Err::Failure(Error::InvalidDateTime)));
                ensure!(r.is_err(), "{}::{} ignores the failure of the callback", stringify!($ty), stringify!($f));
                if ok { same!(r, Err(nom::Err::Failure(Error::InvalidDateTime)), "failure of the callback of {}::{}", stringify!($ty), stringify!($f)); }
            } )* } }
            cb! { Sequence from_ber_and_then parse_ber_and_then 0; Sequence from_der_and_then parse_der_and_then 1; Set from_ber_and_then parse_ber_and_then 0; Set from_der_and_then parse_der_and_then 1; }
        }
    }
    macro_rules! own { ($($ty:ident)*) => { $( for o in [Cow::Borrowed(c), Cow::Owned(c.to_vec())] {
        let s = $ty::new(o.clone());
        let borrowed = matches!(o, Cow::Borrowed(_));
        same!(s.as_ref(), c, "as_ref");
        same!(s.as_raw_slice(), borrowed.then_some(c), "as_raw_slice");
        same!(s.clone().into_content().to_vec(), c.to_vec(), "into_content");
        let f = |i| { let r: ParseResult<&[u8]> = Ok((&b""[..], i)); r };
        same!(s.parse(f).ok().map(|x| x.1), Some(c), "parse");
        same!(s.clone().parse_into(f).ok().map(|x| x.1), borrowed.then_some(c), "parse_into");
        let r: ParseResult<Vec<u8>> = s.clone().and_then(|x| Ok((&b""[..], x.to_vec())));
        same!(r.ok().map(|x| x.1), Some(c.to_vec()), "and_then");
    } )* } }
    own!(Sequence Set);
    Ok(())
}

/// pieces which contents are made of
fn pieces() -> Vec<Vec<u8>> {
    ["020101", "02020080", "02020001", "0101ff", "010101", "0500", "0402abcd", "30030201ff", "30800500 0000", "0000", "a003020105", "0201", "24040402abcd", "890102"].iter().map(|s| unhex(s)).collect()
}

fn each(p: &[Vec<u8>], depth: usize, cur: &mut Vec<u8>, f: &mut dyn FnMut(&[u8])) {
    f(cur);
    if depth > 0 {
        for x in p {
            let l = cur.len();
            cur.extend_from_slice(x);
            each(p, depth - 1, cur, f);
            cur.truncate(l);
        }
    }
}

fn iterators(c: &[u8]) -> Res {
    both!(c, u32, u32t());
    both!(c, bool, Ty::Bool);
    both!(c, Any, Ty::Any);
    both!(c, OctetString, Ty::Oct);
    both!(c, Integer, Ty::BigInt);
    both!(c, Sequence, Ty::SeqRaw);
    both!(c, TaggedExplicit<u32, Error, 0>, Ty::Expl(2, 0, bx(u32t())));
    cursors!(c, u32, u32t());
    cursors!(c, bool, Ty::Bool);
    cursors!(c, OctetString, Ty::Oct);
    cursors!(c, Integer, Ty::BigInt);
    cursors!(c, Sequence, Ty::SeqRaw);
    cursors!(c, Vec<u32>, Ty::SeqOf(bx(u32t()), model::Coll::List));
    owned!(c, u32, u32t());
    owned!(c, bool, Ty::Bool);
    // sets
    let i = || Input::new(c, BASE..BASE + c.len());
    let want = expect(&u32t(), false, c);
    let set = V::set(want.0.clone());
    let got = AnyIterator::<BerMode>::new(i()).try_parse_collect::<HashSet<u32>, u32>().ok().map(|x| x.1.norm());
    same!(got, want.1.then(|| set.clone()), "try_parse_collect<HashSet<u32>>");
    let got = AnyIterator::<BerMode>::new(i()).try_parse_collect::<BTreeSet<u32>, u32>().ok().map(|x| x.1.norm());
    same!(got, want.1.then(|| set.clone()), "try_parse_collect<BTreeSet<u32>>");
    callbacks(c)
}

/// elements for builders
fn anys() -> Vec<Any<'static>> {
    let d: [&'static [u8]; 4] = [&[2, 1, 1], &[1, 1, 0xff], &[0x30, 3, 2, 1, 7], &[2, 1, 0]];
    d.iter().map(|b| Any::from_der(b).unwrap().1).collect()
}

fn coll(tag: u32, items: &[Vec<u8>], sort: bool) -> Vec<u8> {
    let mut v = items.to_vec();
    if sort {
        v.sort();
    }
    model::tlv(0, true, tag, &v.concat())
}

fn lists<T: Clone>(d: &[T], depth: usize, cur: &mut Vec<T>, f: &mut dyn FnMut(&[T])) {
    f(cur);
    if depth > 0 {
        for x in d {
            cur.push(x.clone());
            lists(d, depth - 1, cur, f);
            cur.pop();
        }
    }
}

/// histories of insertions and removals
fn histories(ops: &[Option<usize>]) -> Res {
    let pool = anys();
    let enc = |i: usize| pool[i].to_der_vec().unwrap();
    // AnySequence
    let mut s = AnySequence::new(vec![]);
    let mut m: Vec<usize> = vec![];
    for o in ops {
        match o {
            Some(i) => {
                s.push(pool[*i].clone());
                m.push(*i);
            }
            None => same!(s.pop(), m.pop().map(|i| pool[i].clone()), "AnySequence::pop"),
        }
        same!(s.len(), m.len(), "AnySequence::len");
        same!(s.is_empty(), m.is_empty(), "AnySequence::is_empty");
        ensure!(s.iter().eq(m.iter().map(|i| &pool[*i])), "AnySequence::iter");
        ensure!(s.iter_mut().map(|x| &*x).eq(m.iter().map(|i| &pool[*i])), "AnySequence::iter_mut");
        let once: AnySequence = m.iter().map(|i| pool[*i].clone()).collect();
        let want = coll(16, &m.iter().map(|i| enc(*i)).collect::<Vec<_>>(), false);
        for x in [&s, &once, &AnySequence::new(m.iter().map(|i| pool[*i].clone()).collect())] {
            same!(x.to_ber_vec().ok(), Some(want.clone()), "AnySequence, BER");
            same!(x.to_der_vec().ok(), Some(want.clone()), "AnySequence, DER");
        }
    }
    if !m.is_empty() {
        s.iter_mut().take(1).for_each(|x| *x = pool[3].clone());
        m[0] = 3;
        same!(s.to_ber_vec().ok(), Some(coll(16, &m.iter().map(|i| enc(*i)).collect::<Vec<_>>(), false)), "AnySequence changed through iter_mut");
    }
    // AnySet
    let mut s = AnySet::new(HashSet::new());
    let mut m: BTreeSet<usize> = BTreeSet::new();
    let mut last = 0;
    for o in ops {
        match o {
            Some(i) => {
                same!(s.insert(pool[*i].clone()), m.insert(*i), "AnySet::insert");
                last = *i;
            }
            None => same!(s.remove(&pool[last]), m.remove(&last), "AnySet::remove"),
        }
        same!(s.len(), m.len(), "AnySet::len");
        same!(s.is_empty(), m.is_empty(), "AnySet::is_empty");
        let got: BTreeSet<Vec<u8>> = s.iter().map(|x| x.to_der_vec().unwrap()).collect();
        let items: Vec<Vec<u8>> = m.iter().map(|i| enc(*i)).collect();
        same!(got, items.iter().cloned().collect::<BTreeSet<_>>(), "AnySet::iter");
        let once: AnySet = m.iter().map(|i| pool[*i].clone()).collect();
        same!(s.to_der_vec().ok(), Some(coll(17, &items, true)), "AnySet, DER");
        same!(once.to_der_vec().ok(), Some(coll(17, &items, true)), "AnySet collected, DER");
        let b = s.to_ber_vec().map_err(|e| e.to_string())?;
        let mut back = vec![];
        let mut p = &b[2..];
        while !p.is_empty() {
            let (r, a) = Any::from_ber(p).map_err(|e| e.to_string())?;
            back.push(a.to_der_vec().unwrap());
            p = r;
        }
        back.sort();
        let mut w = items.clone();
        w.sort();
        same!(back, w, "AnySet, BER");
    }
    // lists of numbers
    let nums: Vec<u32> = ops.iter().map(|o| o.map_or(300, |i| [1, 200, 70000, 0][i])).collect();
    let int = |n: u32| model::u(2, &model::int_content(n as i128));
    let items: Vec<Vec<u8>> = nums.iter().map(|n| int(*n)).collect();
    let mut a = SequenceOf::<u32>::from_iter(vec![]);
    let mut b = SetOf::<u32>::from_iter(vec![]);
    let mut n = nums.clone();
    for x in n.iter_mut() {
        a.push(*x);
        b.push(*x);
        *x += 0;
    }
    same!(a.as_ref(), &nums[..], "SequenceOf::push");
    same!(b.as_ref(), &nums[..], "SetOf::push");
    same!(a.len(), nums.len(), "SequenceOf::len");
    let sq = coll(16, &items, false);
    let (so, ss) = (coll(17, &items, false), coll(17, &items, true));
    same!(a.to_ber_vec().ok(), Some(sq.clone()), "SequenceOf");
    same!(a.to_der_vec().ok(), Some(sq.clone()), "SequenceOf, DER");
    same!(nums.to_ber_vec().ok(), Some(sq.clone()), "Vec");
    same!(nums.to_der_vec().ok(), Some(sq.clone()), "Vec, DER");
    same!(nums.iter().copied().collect::<SequenceOf<u32>>().to_der_vec().ok(), Some(sq.clone()), "SequenceOf, collected");
    same!(Sequence::from_iter_to_der(nums.iter()).and_then(|s| s.to_der_vec()).ok(), Some(sq.clone()), "Sequence::from_iter_to_der");
    same!(b.to_ber_vec().ok(), Some(so.clone()), "SetOf");
    same!(b.to_der_vec().ok(), Some(ss.clone()), "SetOf, DER");
    same!(nums.iter().copied().collect::<SetOf<u32>>().to_der_vec().ok(), Some(ss.clone()), "SetOf, collected");
    same!(Set::from_iter_to_der(nums.iter()).and_then(|s| s.to_der_vec()).ok(), Some(ss.clone()), "Set::from_iter_to_der");
    let bt: BTreeSet<u32> = nums.iter().copied().collect();
    let hs: HashSet<u32> = nums.iter().copied().collect();
    let distinct: Vec<Vec<u8>> = bt.iter().map(|n| int(*n)).collect();
    same!(bt.to_der_vec().ok(), Some(coll(17, &distinct, true)), "BTreeSet, DER");
    // in no particular order: see the known findings
    let mut got: Vec<Vec<u8>> = hs.iter().map(|n| int(*n)).collect();
    same!(hs.to_der_vec().ok(), Some(coll(17, &got, false)), "HashSet, DER");
    got.sort();
    let mut d = distinct.clone();
    d.sort();
    same!(got, d, "HashSet");
    let iv = IndefiniteVec(nums.clone());
    let mut w = vec![0x30, 0x80];
    items.iter().for_each(|x| w.extend_from_slice(x));
    w.extend_from_slice(&[0, 0]);
    same!(iv.to_ber_vec().ok(), Some(w), "IndefiniteVec");
    same!(nums.iter().copied().collect::<SequenceOf<u32>>().into_vec(), nums, "SequenceOf::into_vec");
    same!(Vec::from(a), nums, "Vec from SequenceOf");
    same!(nums.iter().copied().collect::<SetOf<u32>>().into_vec(), nums, "SetOf::into_vec");
    same!(Vec::from(b), nums, "Vec from SetOf");
    macro_rules! arr { ($($n:literal)*) => { $( if nums.len() == $n {
        let x: [u32; $n] = nums.clone().try_into().unwrap();
        same!(x.to_ber_vec().ok(), Some(sq.clone()), "array");
        same!(x.to_der_vec().ok(), Some(sq.clone()), "array, DER");
    } )* } }
    arr!(0 1 2 3 4);
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.section("iterators and callbacks", || {
        let p = pieces();
        let mut firsts = vec![vec![]];
        firsts.extend(p.iter().cloned());
        ctx.par(&firsts, |f| {
            let mut one = |c: &[u8]| ctx.check("iterators", &|| hex(c), || iterators(c));
            if f.is_empty() {
                one(&[]);
            } else {
                each(&p, if t { 4 } else { 3 }, &mut f.clone(), &mut one);
            }
        });
    });
    ctx.section("builders", || {
        let ops: Vec<Option<usize>> = vec![Some(0), Some(1), Some(2), Some(3), None];
        let mut all = vec![];
        lists(&ops, if t { 7 } else { 5 }, &mut vec![], &mut |o| all.push(o.to_vec()));
        ctx.par(&all, |o| ctx.check("builders", &|| format!("{o:?}"), || histories(o)));
    });
}
