//! Entry points of the implementation, as uniform functions from octets to outcomes.
use crate::norm::*;
use crate::v::*;
use asn1_rs::nom::{self, IResult, Needed};
use asn1_rs::*;

/// where the cursor of the tested input starts in its (virtual) buffer
pub const BASE: usize = 7;

pub fn cursor(b: &[u8]) -> Input<'_> {
    Input::new(b, BASE..BASE + b.len())
}

pub trait ErrInfo {
    /// Ok(incomplete?) or a description of the inconsistency
    fn info(&self, b: &[u8], base: usize) -> std::result::Result<bool, String>;
}

impl ErrInfo for Error {
    fn info(&self, _b: &[u8], _base: usize) -> std::result::Result<bool, String> {
        Ok(matches!(self, Error::Incomplete(_)))
    }
}

pub fn check_input(i: &Input, b: &[u8], base: usize) -> std::result::Result<(), String> {
    let sp = i.span();
    if sp.start < base || sp.end > base + b.len() || sp.start > sp.end {
        return Err(format!("span {sp:?} outside {}..{}", base, base + b.len()));
    }
    let d = i.as_bytes2();
    if d.len() != sp.end - sp.start {
        return Err(format!("span {sp:?} holds {} octets", d.len()));
    }
    if d != &b[sp.start - base..sp.end - base] {
        return Err(format!("span {sp:?} is not where the octets are"));
    }
    if !d.is_empty() && d.as_ptr() != b[sp.start - base..].as_ptr() {
        return Err(format!("span {sp:?} designates other octets of the same value"));
    }
    Ok(())
}

impl ErrInfo for BerError<Input<'_>> {
    fn info(&self, b: &[u8], base: usize) -> std::result::Result<bool, String> {
        check_input(self.input(), b, base).map_err(|e| format!("error location: {e} ({:?})", self.inner()))?;
        Ok(matches!(self.inner(), InnerError::Incomplete(_)))
    }
}

fn err_of<E: ErrInfo>(e: nom::Err<E>, b: &[u8], base: usize) -> Out {
    match e {
        nom::Err::Incomplete(n) => {
            let _: Needed = n;
            Out::Err { inc: true }
        }
        nom::Err::Error(e) | nom::Err::Failure(e) => match e.info(b, base) {
            Ok(inc) => Out::Err { inc },
            Err(s) => Out::Broken(s),
        },
    }
}

pub fn out_slice<T: Norm, E: ErrInfo>(b: &[u8], r: IResult<&[u8], T, E>) -> Out {
    match r {
        Ok((rem, t)) => {
            if rem.len() > b.len() {
                return Out::Broken("remainder longer than the input".into());
            }
            let n = b.len() - rem.len();
            if rem.as_ptr() != b[n..].as_ptr() {
                return Out::Broken("remainder is not the tail of the input".into());
            }
            Out::Ok(n, t.norm())
        }
        Err(e) => err_of(e, b, 0),
    }
}

pub fn out_cursor<T: Norm, E: ErrInfo>(b: &[u8], r: IResult<Input<'_>, T, E>) -> Out {
    match r {
        Ok((rem, t)) => {
            if let Err(s) = check_input(&rem, b, BASE) {
                return Out::Broken(format!("remainder: {s}"));
            }
            if rem.span().end != BASE + b.len() {
                return Out::Broken("remainder does not end where the input ends".into());
            }
            let n = b.len() - rem.len();
            if rem.as_bytes2().as_ptr() != b[n..].as_ptr() {
                return Out::Broken("remainder is not the tail of the input".into());
            }
            Out::Ok(n, t.norm())
        }
        Err(e) => err_of(e, b, BASE),
    }
}

pub fn out_res<T: Norm>(n: usize, r: std::result::Result<T, Error>) -> Out {
    match r {
        Ok(t) => Out::Ok(n, t.norm()),
        Err(e) => Out::Err { inc: matches!(e, Error::Incomplete(_)) },
    }
}

/// decode the element untyped, then convert
pub fn via_any<'a>(b: &'a [u8], ok: impl Fn(Tag) -> bool, f: impl Fn(Any<'a>) -> std::result::Result<V, Error>) -> Out {
    match Any::from_ber(b) {
        Ok((rem, any)) => {
            if !ok(any.tag()) {
                return Out::Err { inc: false };
            }
            match f(any) {
                Ok(v) => Out::Ok(b.len() - rem.len(), v),
                Err(e) => Out::Err { inc: matches!(e, Error::Incomplete(_)) },
            }
        }
        Err(nom::Err::Incomplete(_)) => Out::Err { inc: true },
        Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => Out::Err { inc: matches!(e, Error::Incomplete(_)) },
    }
}

pub fn accepts<T: DynTagged>(t: Tag) -> bool {
    T::accept_tag(t)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shape {
    /// outcome of the type itself
    Main,
    /// outcome of Opt(type)
    Opt,
    /// header and contents
    AsIn,
}

#[derive(Clone, Copy)]
pub struct Ep {
    pub name: &'static str,
    pub der: bool,
    pub shape: Shape,
    pub cursor: bool,
    pub f: fn(&[u8]) -> Out,
}

#[macro_export]
macro_rules! eps {
    ($v:ident, $t:ty,) => {};
    ($v:ident, $t:ty, ber $($r:tt)*) => { $v.push($crate::ep::Ep { name: "from_ber", der: false, shape: $crate::ep::Shape::Main, cursor: false,
        f: |b| $crate::ep::out_slice::<$t, asn1_rs::Error>(b, <$t as asn1_rs::FromBer<'_, asn1_rs::Error>>::from_ber(b)) }); $crate::eps!($v, $t, $($r)*) };
    ($v:ident, $t:ty, der $($r:tt)*) => { $v.push($crate::ep::Ep { name: "from_der", der: true, shape: $crate::ep::Shape::Main, cursor: false,
        f: |b| $crate::ep::out_slice::<$t, asn1_rs::Error>(b, <$t as asn1_rs::FromDer<'_, asn1_rs::Error>>::from_der(b)) }); $crate::eps!($v, $t, $($r)*) };
    ($v:ident, $t:ty, berp $($r:tt)*) => { $v.push($crate::ep::Ep { name: "parse_ber", der: false, shape: $crate::ep::Shape::Main, cursor: true,
        f: |b| $crate::ep::out_cursor(b, <$t as asn1_rs::BerParser<'_>>::parse_ber($crate::ep::cursor(b))) }); $crate::eps!($v, $t, $($r)*) };
    ($v:ident, $t:ty, derp $($r:tt)*) => { $v.push($crate::ep::Ep { name: "parse_der", der: true, shape: $crate::ep::Shape::Main, cursor: true,
        f: |b| $crate::ep::out_cursor(b, <$t as asn1_rs::DerParser<'_>>::parse_der($crate::ep::cursor(b))) }); $crate::eps!($v, $t, $($r)*) };
    ($v:ident, $t:ty, berpo $($r:tt)*) => { $v.push($crate::ep::Ep { name: "parse_ber_optional", der: false, shape: $crate::ep::Shape::Opt, cursor: true,
        f: |b| $crate::ep::out_cursor(b, <$t as asn1_rs::BerParser<'_>>::parse_ber_optional($crate::ep::cursor(b))) }); $crate::eps!($v, $t, $($r)*) };
    ($v:ident, $t:ty, derpo $($r:tt)*) => { $v.push($crate::ep::Ep { name: "parse_der_optional", der: true, shape: $crate::ep::Shape::Opt, cursor: true,
        f: |b| $crate::ep::out_cursor(b, <$t as asn1_rs::DerParser<'_>>::parse_der_optional($crate::ep::cursor(b))) }); $crate::eps!($v, $t, $($r)*) };
    ($v:ident, $t:ty, optber $($r:tt)*) => { $v.push($crate::ep::Ep { name: "Option::from_ber", der: false, shape: $crate::ep::Shape::Opt, cursor: false,
        f: |b| $crate::ep::out_slice::<Option<$t>, asn1_rs::Error>(b, <Option<$t> as asn1_rs::FromBer<'_, asn1_rs::Error>>::from_ber(b)) }); $crate::eps!($v, $t, $($r)*) };
    ($v:ident, $t:ty, optder $($r:tt)*) => { $v.push($crate::ep::Ep { name: "Option::from_der", der: true, shape: $crate::ep::Shape::Opt, cursor: false,
        f: |b| $crate::ep::out_slice::<Option<$t>, asn1_rs::Error>(b, <Option<$t> as asn1_rs::FromDer<'_, asn1_rs::Error>>::from_der(b)) }); $crate::eps!($v, $t, $($r)*) };
    ($v:ident, $t:ty, optberp $($r:tt)*) => { $v.push($crate::ep::Ep { name: "Option::parse_ber", der: false, shape: $crate::ep::Shape::Opt, cursor: true,
        f: |b| $crate::ep::out_cursor(b, <Option<$t> as asn1_rs::BerParser<'_>>::parse_ber($crate::ep::cursor(b))) }); $crate::eps!($v, $t, $($r)*) };
    ($v:ident, $t:ty, optderp $($r:tt)*) => { $v.push($crate::ep::Ep { name: "Option::parse_der", der: true, shape: $crate::ep::Shape::Opt, cursor: true,
        f: |b| $crate::ep::out_cursor(b, <Option<$t> as asn1_rs::DerParser<'_>>::parse_der($crate::ep::cursor(b))) }); $crate::eps!($v, $t, $($r)*) };
    ($v:ident, $t:ty, asin $($r:tt)*) => { $v.push($crate::ep::Ep { name: "parse_ber_as_input", der: false, shape: $crate::ep::Shape::AsIn, cursor: true,
        f: |b| $crate::ep::out_cursor(b, <$t as asn1_rs::BerParser<'_>>::parse_ber_as_input($crate::ep::cursor(b)).map(|(r, (h, i))| (r, $crate::ep::asin(b, h, i)))) });
        $v.push($crate::ep::Ep { name: "parse_ber_as_input+from_ber_content", der: false, shape: $crate::ep::Shape::Main, cursor: true,
        f: |b| $crate::ep::out_cursor(b, <$t as asn1_rs::BerParser<'_>>::parse_ber_as_input($crate::ep::cursor(b)).and_then(|(r, (h, i))| { let (_, t) = <$t as asn1_rs::BerParser<'_>>::from_ber_content(&h, i)?; Ok((r, t)) })) });
        $crate::eps!($v, $t, $($r)*) };
    ($v:ident, $t:ty, asinder $($r:tt)*) => { $v.push($crate::ep::Ep { name: "parse_der_as_input", der: true, shape: $crate::ep::Shape::AsIn, cursor: true,
        f: |b| $crate::ep::out_cursor(b, <$t as asn1_rs::DerParser<'_>>::parse_der_as_input($crate::ep::cursor(b)).map(|(r, (h, i))| (r, $crate::ep::asin(b, h, i)))) });
        $v.push($crate::ep::Ep { name: "parse_der_as_input+from_der_content", der: true, shape: $crate::ep::Shape::Main, cursor: true,
        f: |b| $crate::ep::out_cursor(b, <$t as asn1_rs::DerParser<'_>>::parse_der_as_input($crate::ep::cursor(b)).and_then(|(r, (h, i))| { let (_, t) = <$t as asn1_rs::DerParser<'_>>::from_der_content(&h, i)?; Ok((r, t)) })) });
        $crate::eps!($v, $t, $($r)*) };
    ($v:ident, $t:ty, tryany $($r:tt)*) => { $v.push($crate::ep::Ep { name: "TryFrom<Any>", der: false, shape: $crate::ep::Shape::Main, cursor: false,
        f: |b| $crate::ep::via_any(b, |_| true, |a| <$t as core::convert::TryFrom<asn1_rs::Any<'_>>>::try_from(a).map(|x| $crate::norm::Norm::norm(&x))) }); $crate::eps!($v, $t, $($r)*) };
    ($v:ident, $t:ty, tryref $($r:tt)*) => { $v.push($crate::ep::Ep { name: "TryFrom<&Any>", der: false, shape: $crate::ep::Shape::Main, cursor: false,
        f: |b| $crate::ep::via_any(b, |_| true, |a| <$t as core::convert::TryFrom<&asn1_rs::Any<'_>>>::try_from(&a).map(|x| $crate::norm::Norm::norm(&x))) }); $crate::eps!($v, $t, $($r)*) };
    ($v:ident, $t:ty, acc($m:ident) $($r:tt)*) => { $v.push($crate::ep::Ep { name: concat!("Any::", stringify!($m)), der: false, shape: $crate::ep::Shape::Main, cursor: false,
        f: |b| $crate::ep::via_any(b, $crate::ep::accepts::<$t>, |a| a.$m().map(|x| $crate::norm::Norm::norm(&x))) }); $crate::eps!($v, $t, $($r)*) };
    ($v:ident, $t:ty, std $($r:tt)*) => { $crate::eps!($v, $t, ber der berp derp berpo derpo optber optder optberp optderp asin asinder tryany tryref $($r)*) };
    ($v:ident, $t:ty, stdv $($r:tt)*) => { $crate::eps!($v, $t, ber der berp derp berpo derpo optber optder optberp optderp asin asinder tryany $($r)*) };
    ($v:ident, $t:ty, par $($r:tt)*) => { $crate::eps!($v, $t, berp derp berpo derpo optberp optderp asin asinder $($r)*) };
}

/// as-input pair; the positions of header and contents are checked against the buffer
pub fn asin<'a>(b: &[u8], h: Header<'a>, i: Input<'a>) -> AsIn<Header<'a>, V> {
    let v = match check_input(&i, b, BASE) {
        Ok(()) => i.norm(),
        Err(s) => V::Str(format!("contents: {s}")),
    };
    let v = match h.raw_header() {
        Some(r) => match check_input(r, b, BASE) {
            Ok(()) if r.span().start == BASE => v,
            Ok(()) => V::Str("raw header does not start at the element".into()),
            Err(s) => V::Str(format!("raw header: {s}")),
        },
        None => V::Str("no raw header".into()),
    };
    AsIn(h, v)
}
impl Norm for V {
    fn norm(&self) -> V {
        self.clone()
    }
}
