//! Registry: every codec of the crate, the schema it implements, and its entry points.
use crate::enc::Enc;
use crate::ep::Ep;
use crate::model::*;
use crate::v::V;
use asn1_rs::*;
use std::collections::{BTreeSet, HashSet};

pub type StatFn = fn(&[u8]) -> Option<std::result::Result<(), String>>;

#[derive(Clone)]
pub struct Case {
    pub name: &'static str,
    pub group: &'static str,
    pub ty: Ty,
    pub eps: Vec<Ep>,
    pub encs: Vec<Enc>,
    pub stat: Vec<(&'static str, StatFn)>,
}

/// decode from a temporary buffer, convert to an owned value, destroy the buffer, compare
#[cfg(not(feature = "full"))]
#[macro_export]
macro_rules! stats {
    ($($x:tt)*) => {};
}
#[cfg(feature = "full")]
#[macro_export]
macro_rules! stats {
    ($v:ident, $t:ty,) => {};
    ($v:ident, $t:ty, st $($r:tt)*) => { $v.push(("to_static (BER)", (|b: &[u8]| {
        let mut buf = b.to_vec();
        let (a, s) = { let (_, t) = <$t as asn1_rs::BerParser<'_>>::parse_ber(asn1_rs::Input::from_slice(&buf)).ok()?; ($crate::norm::Norm::norm(&t), asn1_rs::ToStatic::to_static(&t)) };
        buf.iter_mut().for_each(|x| *x = !*x);
        let c = $crate::norm::Norm::norm(&s);
        Some(if a == c { Ok(()) } else { Err(format!("borrowed {a:?}, owned {c:?}")) })
    }) as $crate::types::StatFn)); $crate::stats!($v, $t, $($r)*) };
    ($v:ident, $t:ty, sf $($r:tt)*) => { $v.push(("to_static (from_ber)", (|b: &[u8]| {
        let mut buf = b.to_vec();
        let (a, s) = { let (_, t) = <$t as asn1_rs::FromBer<'_, asn1_rs::Error>>::from_ber(&buf).ok()?; ($crate::norm::Norm::norm(&t), asn1_rs::ToStatic::to_static(&t)) };
        buf.iter_mut().for_each(|x| *x = !*x);
        let c = $crate::norm::Norm::norm(&s);
        Some(if a == c { Ok(()) } else { Err(format!("borrowed {a:?}, owned {c:?}")) })
    }) as $crate::types::StatFn)); $crate::stats!($v, $t, $($r)*) };
    // borrowed and owned values compare equal and encode alike
    ($v:ident, $t:ty, se $($r:tt)*) => { $v.push(("to_static, encoded", (|b: &[u8]| {
        let (_, t) = <$t as asn1_rs::BerParser<'_>>::parse_ber(asn1_rs::Input::from_slice(b)).ok()?;
        let s = asn1_rs::ToStatic::to_static(&t);
        let (x, y) = (asn1_rs::ToDer::to_der_vec(&t).ok(), asn1_rs::ToDer::to_der_vec(&s).ok());
        if x != y { return Some(Err(format!("the borrowed value encodes to {x:02x?}, the owned one to {y:02x?}"))); }
        let (x, y) = (asn1_rs::ToBer::to_ber_vec(&t).ok(), asn1_rs::ToBer::to_ber_vec(&s).ok());
        if x != y { return Some(Err(format!("the borrowed value encodes to {x:02x?}, the owned one to {y:02x?}"))); }
        Some(Ok(()))
    }) as $crate::types::StatFn)); $crate::stats!($v, $t, $($r)*) };
}

#[macro_export]
macro_rules! case {
    ($reg:ident, $group:literal, $name:expr, $t:ty, $ty:expr, [$($e:tt)*], [$($n:tt)*], [$($s:tt)*]) => {{
        #[allow(unused_mut)]
        let mut v: Vec<$crate::ep::Ep> = vec![];
        $crate::eps!(v, $t, $($e)*);
        #[allow(unused_mut)]
        let mut w: Vec<$crate::enc::Enc> = vec![];
        $crate::encs!(w, $t, $($n)*);
        #[allow(unused_mut)]
        let mut s: Vec<(&'static str, $crate::types::StatFn)> = vec![];
        $crate::stats!(s, $t, $($s)*);
        $reg.push($crate::types::Case { name: $name, group: $group, ty: $ty, eps: v, encs: w, stat: s });
    }};
}

pub fn bx(t: Ty) -> Box<Ty> {
    Box::new(t)
}
pub fn u32t() -> Ty {
    Ty::Int(false, 32)
}
pub fn oid() -> Ty {
    Ty::Choice(vec![Ty::Oid, Ty::RelOid])
}

fn base(r: &mut Vec<Case>) {
    case!(r, "any", "Any", Any<'_>, Ty::Any, [ber der berp derp asin asinder], [bb bd dd fbb fdd], []);
    case!(r, "any", "Header", Header<'_>, Ty::Header, [ber der berp derp], [], [st sf]);
    case!(r, "misc", "bool", bool, Ty::Bool, [std acc(bool) acc(as_bool)], [bb bd dd fbb fdd], [st se]);
    case!(r, "misc", "Boolean", Boolean, Ty::Boolean, [std acc(boolean) acc(as_boolean)], [bb bd dd fbb], []);
    case!(r, "misc", "Null", Null, Ty::Null, [std acc(null) acc(as_null)], [bb bd dd fbb], []);
    case!(r, "misc", "()", (), Ty::Null, [std], [bb bd dd fbb], []);
    case!(r, "misc", "EndOfContent", EndOfContent, Ty::Eoc, [ber berp tryany acc(as_endofcontent)], [], []);
    case!(r, "misc", "Enumerated", Enumerated, Ty::Enum, [std acc(enumerated) acc(as_enumerated)], [bb bd dd fbb], []);
    case!(r, "int", "i8", i8, Ty::Int(true, 8), [std acc(i8) acc(as_i8)], [bb bd dd fbb fdd], [st]);
    case!(r, "int", "i16", i16, Ty::Int(true, 16), [std acc(i16) acc(as_i16)], [bb bd dd], [st]);
    case!(r, "int", "i32", i32, Ty::Int(true, 32), [std acc(i32) acc(as_i32)], [bb bd dd], [st]);
    case!(r, "int", "i64", i64, Ty::Int(true, 64), [std acc(i64) acc(as_i64)], [bb bd dd], [st]);
    case!(r, "int", "i128", i128, Ty::Int(true, 128), [std acc(i128) acc(as_i128)], [bb bd dd], [st]);
    case!(r, "int", "isize", isize, Ty::Int(true, 64), [std], [bb bd dd], [st]);
    case!(r, "int", "u8", u8, Ty::Int(false, 8), [std acc(u8) acc(as_u8)], [bb bd dd fbb fdd], [st]);
    case!(r, "int", "u16", u16, Ty::Int(false, 16), [std acc(u16) acc(as_u16)], [bb bd dd], [st]);
    case!(r, "int", "u32", u32, Ty::Int(false, 32), [std acc(u32) acc(as_u32)], [bb bd dd], [st]);
    case!(r, "int", "u64", u64, Ty::Int(false, 64), [std acc(u64) acc(as_u64)], [bb bd dd], [st]);
    case!(r, "int", "u128", u128, Ty::Int(false, 128), [std acc(u128) acc(as_u128)], [bb bd dd], [st]);
    case!(r, "int", "usize", usize, Ty::Int(false, 64), [std], [bb bd dd], [st]);
    case!(r, "int", "Integer", Integer<'_>, Ty::BigInt, [std acc(integer) acc(as_integer)], [bb bd dd fbb fdd], []);
    case!(r, "bits", "OctetString", OctetString<'_>, Ty::Oct, [std acc(octetstring) acc(as_octetstring)], [bb bd dd fbb fdd], []);
    case!(r, "bits", "&[u8]", &[u8], Ty::OctRef, [std], [bb bd dd fbb fdd], []);
    case!(r, "bits", "BitString", BitString, Ty::Bits, [std acc(bitstring) acc(as_bitstring)], [bb bd dd fbb fdd], []);
    case!(r, "str", "Utf8String", Utf8String<'_>, Ty::Str(Rep::Utf8), [std acc(utf8string) acc(as_utf8string)], [bb bd dd fbb fdd], []);
    case!(r, "str", "NumericString", NumericString<'_>, Ty::Str(Rep::Numeric), [std acc(numericstring) acc(as_numericstring)], [bb bd dd], []);
    case!(r, "str", "PrintableString", PrintableString<'_>, Ty::Str(Rep::Printable), [std acc(printablestring) acc(as_printablestring)], [bb bd dd], []);
    case!(r, "str", "TeletexString", TeletexString<'_>, Ty::Str(Rep::Teletex), [std acc(teletexstring) acc(as_teletexstring)], [bb bd dd], []);
    case!(r, "str", "VideotexString", VideotexString<'_>, Ty::Str(Rep::Videotex), [std acc(videotexstring) acc(as_videotexstring)], [bb bd dd], []);
    case!(r, "str", "Ia5String", Ia5String<'_>, Ty::Str(Rep::Ia5), [std acc(ia5string) acc(as_ia5string)], [bb bd dd], []);
    case!(r, "str", "GraphicString", GraphicString<'_>, Ty::Str(Rep::Graphic), [std acc(graphicstring) acc(as_graphicstring)], [bb bd dd], []);
    case!(r, "str", "VisibleString", VisibleString<'_>, Ty::Str(Rep::Visible), [std acc(visiblestring) acc(as_visiblestring)], [bb bd dd], []);
    case!(r, "str", "GeneralString", GeneralString<'_>, Ty::Str(Rep::General), [std acc(generalstring) acc(as_generalstring)], [bb bd dd], []);
    case!(r, "str", "ObjectDescriptor", ObjectDescriptor<'_>, Ty::Str(Rep::ObjDesc), [std acc(objectdescriptor) acc(as_objectdescriptor)], [bb bd dd], []);
    case!(r, "str", "BmpString", BmpString<'_>, Ty::Str(Rep::Bmp), [std acc(bmpstring) acc(as_bmpstring)], [bb bd dd fbb fdd], []);
    case!(r, "str", "UniversalString", UniversalString<'_>, Ty::Str(Rep::Universal), [std acc(universalstring) acc(as_universalstring)], [bb bd dd fbb fdd], []);
    case!(r, "str", "&str", &str, Ty::StrRef, [std acc(str) acc(as_str)], [bb bd dd fbb], []);
    case!(r, "str", "String", String, Ty::Str(Rep::Utf8), [std acc(string) acc(as_string)], [bb bd dd fbb], [st se]);
    case!(r, "oid", "Oid", Oid<'_>, oid(), [std acc(oid) acc(as_oid)], [bb bd dd fbb fdd], []);
    case!(r, "real", "Real", Real, Ty::Real, [std acc(real) acc(as_real)], [bb bd dd fbb fdd], []);
    case!(r, "real", "f64", f64, Ty::Real, [std], [bb bd dd], []);
    case!(r, "real", "f32", f32, Ty::F32, [std], [bb bd dd], []);
    case!(r, "time", "UtcTime", UtcTime, Ty::Utc, [std acc(utctime) acc(as_utctime)], [bb bd dd fbb fdd], []);
    case!(r, "time", "GeneralizedTime", GeneralizedTime, Ty::Gen, [std acc(generalizedtime) acc(as_generalizedtime)], [bb bd dd fbb fdd], []);
    case!(r, "pdv", "EmbeddedPdv", EmbeddedPdv<'_>, Ty::Pdv, [std acc(embedded_pdv) acc(as_embedded_pdv)], [], []);
}

fn colls(r: &mut Vec<Case>) {
    let l = |t: Ty| Ty::SeqOf(bx(t), Coll::List);
    case!(r, "coll", "Sequence", Sequence<'_>, Ty::SeqRaw, [std acc(sequence) acc(as_sequence)], [bb bd dd fbb fdd], [st sf se]);
    case!(r, "coll", "Set", Set<'_>, Ty::SetRaw, [std acc(set) acc(as_set)], [bb bd dd fbb fdd], [st sf se]);
    case!(r, "coll", "AnySequence", AnySequence<'_>, l(Ty::Any), [par acc(anysequence) acc(as_anysequence)], [bb bd dd], []);
    #[cfg(feature = "std")]
    case!(r, "coll", "AnySet", AnySet<'_>, Ty::SetOf(bx(Ty::Any), Coll::Set), [par], [bb bd dd], []);
    case!(r, "coll", "SequenceOf<u32>", SequenceOf<u32>, l(u32t()), [stdv], [bb bd dd fbb fdd], []);
    case!(r, "coll", "SequenceOf<OctetString>", SequenceOf<OctetString<'_>>, l(Ty::Oct), [stdv], [bb bd dd], []);
    case!(r, "coll", "Vec<u32>", Vec<u32>, l(u32t()), [stdv], [bb bd dd fbb fdd], [st]);
    case!(r, "coll", "Vec<bool>", Vec<bool>, l(Ty::Bool), [stdv], [bb bd dd], []);
    case!(r, "coll", "Vec<Vec<u32>>", Vec<Vec<u32>>, l(l(u32t())), [par ber der], [bb bd dd], []);
    case!(r, "coll", "SetOf<u32>", SetOf<u32>, Ty::SetOf(bx(u32t()), Coll::List), [stdv], [bb bd dd fbb fdd], []);
    case!(r, "coll", "SetOf<OctetString>", SetOf<OctetString<'_>>, Ty::SetOf(bx(Ty::Oct), Coll::List), [stdv], [bb bd dd], []);
    case!(r, "coll", "BTreeSet<u32>", BTreeSet<u32>, Ty::SetOf(bx(u32t()), Coll::Set), [stdv], [bb bd dd fbb fdd], []);
    #[cfg(feature = "std")]
    case!(r, "coll", "HashSet<u32>", HashSet<u32>, Ty::SetOf(bx(u32t()), Coll::Set), [stdv], [bb bd dd fbb fdd], []);
    case!(r, "coll", "[u32; 0]", [u32; 0], Ty::Arr(bx(u32t()), 0), [par], [bb bd dd], []);
    case!(r, "coll", "[u32; 2]", [u32; 2], Ty::Arr(bx(u32t()), 2), [par], [bb bd dd], []);
    case!(r, "coll", "(u32,)", (u32,), Ty::Tuple(vec![u32t()]), [par], [], []);
    case!(r, "coll", "(u32, bool)", (u32, bool), Ty::Tuple(vec![u32t(), Ty::Bool]), [par], [], []);
    case!(r, "coll", "(Option<u32>, bool)", (Option<u32>, bool), Ty::Tuple(vec![Ty::Opt(bx(u32t())), Ty::Bool]), [par], [], []);
    case!(r, "coll", "(u32, Vec<u32>, String)", (u32, Vec<u32>, String), Ty::Tuple(vec![u32t(), l(u32t()), Ty::Str(Rep::Utf8)]), [par], [], []);
}

fn tagged(r: &mut Vec<Case>) {
    use Ty::{Expl as X, Impl as I};
    let l = |t: Ty| Ty::SeqOf(bx(t), Coll::List);
    case!(r, "tag", "TaggedExplicit<u32,0>", TaggedExplicit<u32, Error, 0>, X(2, 0, bx(u32t())), [std], [bb bd dd fbb fdd], []);
    case!(r, "tag", "TaggedExplicit<bool,31>", TaggedExplicit<bool, Error, 31>, X(2, 31, bx(Ty::Bool)), [std], [bb bd dd], []);
    case!(r, "tag", "TaggedExplicit<OctetString,1>", TaggedExplicit<OctetString<'_>, Error, 1>, X(2, 1, bx(Ty::Oct)), [std], [bb bd dd], []);
    case!(r, "tag", "TaggedExplicit<Vec<u32>,2>", TaggedExplicit<Vec<u32>, Error, 2>, X(2, 2, bx(l(u32t()))), [par], [bb bd dd], []);
    case!(r, "tag", "TaggedExplicit<TaggedExplicit<u32,1>,0>", TaggedExplicit<TaggedExplicit<u32, Error, 1>, Error, 0>, X(2, 0, bx(X(2, 1, bx(u32t())))), [par ber], [bb bd dd], []);
    case!(r, "tag", "TaggedExplicit<TaggedImplicit<u32,1>,0>", TaggedExplicit<TaggedImplicit<u32, Error, 1>, Error, 0>, X(2, 0, bx(I(2, 1, bx(u32t())))), [par ber], [bb bd dd], []);
    case!(r, "tag", "ApplicationExplicit<u32,1>", ApplicationExplicit<u32, Error, 1>, X(1, 1, bx(u32t())), [std], [bb bd dd], []);
    case!(r, "tag", "PrivateExplicit<bool,0x4000>", PrivateExplicit<bool, Error, 0x4000>, X(3, 0x4000, bx(Ty::Bool)), [std], [bb bd dd], []);
    case!(r, "tag", "TaggedImplicit<u32,0>", TaggedImplicit<u32, Error, 0>, I(2, 0, bx(u32t())), [std], [bb bd dd fbb fdd], []);
    case!(r, "tag", "TaggedImplicit<bool,31>", TaggedImplicit<bool, Error, 31>, I(2, 31, bx(Ty::Bool)), [std], [bb bd dd], []);
    case!(r, "tag", "TaggedImplicit<OctetString,1>", TaggedImplicit<OctetString<'_>, Error, 1>, I(2, 1, bx(Ty::Oct)), [std], [bb bd dd], []);
    case!(r, "tag", "TaggedImplicit<BitString,4>", TaggedImplicit<BitString, Error, 4>, I(2, 4, bx(Ty::Bits)), [std], [bb bd dd], []);
    case!(r, "tag", "TaggedImplicit<Ia5String,6>", TaggedImplicit<Ia5String<'_>, Error, 6>, I(2, 6, bx(Ty::Str(Rep::Ia5))), [std], [bb bd dd], []);
    case!(r, "tag", "TaggedImplicit<Vec<u32>,2>", TaggedImplicit<Vec<u32>, Error, 2>, I(2, 2, bx(l(u32t()))), [par], [bb bd dd], []);
    case!(r, "tag", "TaggedImplicit<Sequence,3>", TaggedImplicit<Sequence<'_>, Error, 3>, I(2, 3, bx(Ty::SeqRaw)), [std], [bb bd dd], []);
    case!(r, "tag", "TaggedImplicit<TaggedExplicit<u32,1>,0>", TaggedImplicit<TaggedExplicit<u32, Error, 1>, Error, 0>, I(2, 0, bx(X(2, 1, bx(u32t())))), [par], [bb bd dd], []);
    case!(r, "tag", "TaggedImplicit<TaggedImplicit<u32,1>,0>", TaggedImplicit<TaggedImplicit<u32, Error, 1>, Error, 0>, I(2, 0, bx(I(2, 1, bx(u32t())))), [par], [bb bd dd], []);
    case!(r, "tag", "ApplicationImplicit<u32,1>", ApplicationImplicit<u32, Error, 1>, I(1, 1, bx(u32t())), [std], [bb bd dd], []);
    case!(r, "tag", "PrivateImplicit<i16,0x4000>", PrivateImplicit<i16, Error, 0x4000>, I(3, 0x4000, bx(Ty::Int(true, 16))), [std], [bb bd dd], []);
    case!(r, "tag", "TaggedImplicit<u32,0xffffffff>", TaggedImplicit<u32, Error, 0xffff_ffff>, I(2, u32::MAX, bx(u32t())), [std], [bb bd dd], []);
    case!(r, "tagp", "TaggedParser<Explicit,u32>", TaggedParser<'_, Explicit, u32>, Ty::TaggedAnyExpl(bx(u32t())), [ber der], [fbb fdd], []);
    case!(r, "tagp", "TaggedParser<Explicit,OctetString>", TaggedParser<'_, Explicit, OctetString<'_>>, Ty::TaggedAnyExpl(bx(Ty::Oct)), [ber der], [fbb fdd], []);
    case!(r, "tagp", "TaggedParser<Implicit,u32>", TaggedParser<'_, Implicit, u32>, Ty::TaggedAnyImpl(bx(u32t())), [ber der], [fbb fdd], []);
    case!(r, "tagp", "TaggedParser<Implicit,OctetString>", TaggedParser<'_, Implicit, OctetString<'_>>, Ty::TaggedAnyImpl(bx(Ty::Oct)), [ber der], [fbb fdd], []);
    case!(r, "opt", "Option<u32>", Option<u32>, Ty::Opt(bx(u32t())), [berp derp ber der], [bb bd dd fbb fdd], []);
    case!(r, "opt", "Option<TaggedExplicit<u32,0>>", Option<TaggedExplicit<u32, Error, 0>>, Ty::Opt(bx(X(2, 0, bx(u32t())))), [berp derp ber der], [bb bd dd], []);
    case!(r, "opt", "Option<TaggedImplicit<OctetString,1>>", Option<TaggedImplicit<OctetString<'_>, Error, 1>>, Ty::Opt(bx(I(2, 1, bx(Ty::Oct)))), [berp derp ber der], [bb bd dd], []);
    case!(r, "opt", "Option<Vec<u32>>", Option<Vec<u32>>, Ty::Opt(bx(l(u32t()))), [berp derp], [bb bd dd], []);
}

pub fn all() -> Vec<Case> {
    let mut r = vec![];
    base(&mut r);
    colls(&mut r);
    tagged(&mut r);
    crate::derived::cases(&mut r);
    r
}

/// tag numbers under which values of this type may appear, for directed generation
pub fn ident(ty: &Ty) -> (u8, u32) {
    match ty {
        Ty::Expl(c, t, _) | Ty::Impl(c, t, _) => (*c, *t),
        Ty::OptTagged(_, c, t, _) => (*c, *t),
        Ty::Opt(t) | Ty::As(_, t) | Ty::Wrap(t) | Ty::BerIn(t) | Ty::AsInput(t) => ident(t),
        Ty::Choice(ts) => ident(&ts[0]),
        Ty::TaggedAnyExpl(_) | Ty::TaggedAnyImpl(_) => (2, 3),
        Ty::Any | Ty::Header => (0, 4),
        _ => (0, R::new(false, 0).tag_num(ty).unwrap_or(4)),
    }
}

#[allow(dead_code)]
fn unused(_: V) {}
