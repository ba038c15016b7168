//! C21: positions recorded by cursors, decoded elements and errors.
use crate::api_any::Res;
use crate::engine::*;
use crate::ep::*;
use crate::gen::*;
use crate::model;
use crate::seeds;
use crate::types::*;
use crate::v::*;
use crate::{ensure, same};
use asn1_rs::nom::bytes::streaming as st;
use asn1_rs::nom::{HexDisplay, Input as _};
use asn1_rs::*;

type Cut = (usize, usize);

/// everything a cursor reveals about itself
fn observe(i: &Input, buf: &[u8], base: usize, (a, z): Cut) -> Res {
    same!(*i.span(), base + a..base + z, "span");
    same!(i.start(), base + a, "start");
    same!(i.end(), base + z, "end");
    same!(i.len(), z - a, "len");
    same!(i.input_len(), z - a, "input_len");
    same!(i.is_empty(), a == z, "is_empty");
    let d = &buf[a..z];
    same!(i.as_bytes2(), d, "octets");
    ensure!(i.as_bytes2().as_ptr() == d.as_ptr(), "other octets of the same value");
    same!(i.as_ref(), d, "as_ref");
    same!(nom::AsBytes::as_bytes(i), d, "as_bytes");
    same!(i.const_clone(), *i, "const_clone");
    same!(i.const_clone().span().clone(), base + a..base + z, "span of const_clone");
    same!(i.clone().into_bytes(), d, "into_bytes");
    same!(i.to_string(), format!("Input(start={} end={})", base + a, base + z), "Display");
    ensure!(i.iter_elements().eq(d.iter().copied()), "iter_elements");
    ensure!(i.iter_indices().eq(d.iter().copied().enumerate()), "iter_indices");
    same!(i.to_hex(8), d.to_hex(8), "to_hex");
    same!(i.to_hex_from(4, a), d.to_hex_from(4, a), "to_hex_from");
    for k in 0..=d.len() + 2 {
        let want = if k <= d.len() { Ok(k) } else { Err(nom::Needed::new(k - d.len())) };
        same!(i.slice_index(k), want, "slice_index({k})");
    }
    for x in 0..=7u8 {
        same!(i.position(|y| y == x), d.iter().position(|y| *y == x), "position of {x}");
    }
    Ok(())
}

type P<'a> = IResult<Input<'a>, Input<'a>, BerError<Input<'a>>>;

fn explore(i: &Input, buf: &[u8], base: usize, c: Cut, depth: usize, n: &mut u64) -> Res {
    *n += 1;
    observe(i, buf, base, c)?;
    if depth == 0 {
        return Ok(());
    }
    let (a, z) = c;
    for k in 0..=z - a {
        let t = i.take(k);
        explore(&t, buf, base, (a, a + k), depth - 1, n).map_err(|e| format!("take({k}): {e}"))?;
        let f = i.take_from(k);
        explore(&f, buf, base, (a + k, z), depth - 1, n).map_err(|e| format!("take_from({k}): {e}"))?;
        let (r, l) = i.take_split(k);
        same!((&r, &l), (&f, &t), "take_split({k})");
        observe(&r, buf, base, (a + k, z)).map_err(|e| format!("take_split({k}).0: {e}"))?;
        observe(&l, buf, base, (a, a + k)).map_err(|e| format!("take_split({k}).1: {e}"))?;
        // through the combinators used by parsers
        let p: P = st::take(k)(i.clone());
        same!(p.ok(), Some((f.clone(), t.clone())), "combinator take({k})");
        let x = |y: u8| y as usize == (a + k) % 8;
        let at = buf[a..z].iter().position(|y| x(*y));
        let p: P = i.split_at_position(x);
        same!(p.ok(), at.map(|q| (i.take_from(q), i.take(q))), "split_at_position");
        let p: P = i.split_at_position_complete(x);
        let q = at.unwrap_or(z - a);
        same!(p.ok(), Some((i.take_from(q), i.take(q))), "split_at_position_complete");
        let p: P = st::take_while(|y: u8| y as usize <= k)(i.clone());
        if let Ok((r, l)) = p {
            observe(&r, buf, base, (a + l.len(), z)).map_err(|e| format!("take_while: {e}"))?;
            observe(&l, buf, base, (a, a + l.len())).map_err(|e| format!("take_while: {e}"))?;
        }
    }
    for k in z - a + 1..z - a + 3 {
        let p: P = st::take(k)(i.clone());
        same!(p, Err(Err::Incomplete(nom::Needed::new(k - (z - a)))), "combinator take({k}), beyond the end");
    }
    Ok(())
}

pub fn cursors(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.section("cursor operations", || {
        let buf: Vec<u8> = (0..8).collect();
        for base in [0usize, 1, 7, usize::MAX - 16] {
            for a in 0..=buf.len() {
                for z in a..=buf.len() {
                    let mut n = 0;
                    let r = guard(|| {
                        let i = Input::new(&buf[a..z], base + a..base + z);
                        explore(&i, &buf, base, (a, z), if t { 5 } else { 4 }, &mut n)
                    })
                    .unwrap_or_else(Err);
                    ctx.batch("cursor operations", &|| format!("{a}..{z} at {base}"), n, || r);
                }
            }
        }
        ctx.check("cursor operations", &|| "constructors".into(), || {
            let b = [1u8, 2, 3];
            let v = b.to_vec();
            same!(Input::from(&b).span().clone(), 0..3, "from array");
            same!(Input::from(&b[..2]).span().clone(), 0..2, "from slice");
            same!(Input::from(&v).span().clone(), 0..3, "from vector");
            same!(Input::from_slice(&b[1..]).span().clone(), 0..2, "from_slice");
            same!(Input::default().span().clone(), 0..0, "default");
            same!(Input::from(&v).as_bytes2(), &b[..], "from vector");
            Ok(())
        });
    });
}

/// the untyped elements and headers inside a value
pub trait Anys {
    fn anys(&self, f: &mut dyn FnMut(&Header, Option<&Input>));
}
impl Anys for Any<'_> {
    fn anys(&self, f: &mut dyn FnMut(&Header, Option<&Input>)) {
        f(&self.header, Some(&self.data))
    }
}
impl Anys for Header<'_> {
    fn anys(&self, f: &mut dyn FnMut(&Header, Option<&Input>)) {
        f(self, None)
    }
}
impl<T: Anys> Anys for Option<T> {
    fn anys(&self, f: &mut dyn FnMut(&Header, Option<&Input>)) {
        self.iter().for_each(|x| x.anys(f))
    }
}
impl<T: Anys> Anys for Vec<T> {
    fn anys(&self, f: &mut dyn FnMut(&Header, Option<&Input>)) {
        self.iter().for_each(|x| x.anys(f))
    }
}
impl<T: Anys, const N: usize> Anys for [T; N] {
    fn anys(&self, f: &mut dyn FnMut(&Header, Option<&Input>)) {
        self.iter().for_each(|x| x.anys(f))
    }
}
impl<T: Anys, U: Anys> Anys for (T, U) {
    fn anys(&self, f: &mut dyn FnMut(&Header, Option<&Input>)) {
        self.0.anys(f);
        self.1.anys(f)
    }
}
impl Anys for AnySequence<'_> {
    fn anys(&self, f: &mut dyn FnMut(&Header, Option<&Input>)) {
        self.iter().for_each(|x| x.anys(f))
    }
}
impl Anys for AnySet<'_> {
    fn anys(&self, f: &mut dyn FnMut(&Header, Option<&Input>)) {
        self.iter().for_each(|x| x.anys(f))
    }
}
impl<T: Anys, E, K, const C: u8, const N: u32> Anys for TaggedValue<T, E, K, C, N> {
    fn anys(&self, f: &mut dyn FnMut(&Header, Option<&Input>)) {
        self.as_ref().anys(f)
    }
}

#[derive(Sequence)]
struct Two<'a> {
    a: Any<'a>,
    b: Any<'a>,
}
impl Anys for Two<'_> {
    fn anys(&self, f: &mut dyn FnMut(&Header, Option<&Input>)) {
        self.a.anys(f);
        self.b.anys(f)
    }
}
#[derive(Sequence)]
struct Deep<'a> {
    #[tag_explicit(0)]
    a: Any<'a>,
    b: Vec<Any<'a>>,
    #[optional]
    c: Option<Two<'a>>,
}
impl Anys for Deep<'_> {
    fn anys(&self, f: &mut dyn FnMut(&Header, Option<&Input>)) {
        self.a.anys(f);
        self.b.anys(f);
        self.c.anys(f)
    }
}
#[derive(Set)]
struct TwoSet<'a> {
    a: Any<'a>,
    b: Any<'a>,
}
impl Anys for TwoSet<'_> {
    fn anys(&self, f: &mut dyn FnMut(&Header, Option<&Input>)) {
        self.a.anys(f);
        self.b.anys(f)
    }
}

/// header and contents are where the buffer says, and the header octets denote the header
fn located(h: &Header, data: Option<&Input>, b: &[u8], implicit: bool) -> Res {
    let rh = h.raw_header().ok_or("no raw header")?;
    check_input(rh, b, BASE).map_err(|e| format!("raw header: {e}"))?;
    if let Some(t) = h.raw_tag() {
        ensure!(rh.as_bytes2().starts_with(t) && !t.is_empty(), "raw tag {t:02x?} in raw header {}", hex(rh.as_bytes2()));
    }
    if !implicit {
        let d = model::R::new(false, 0).header(rh.as_bytes2()).ok_or_else(|| format!("raw header {} is none", hex(rh.as_bytes2())))?;
        same!((h.class() as u8, h.is_constructed(), h.tag().0, h.length().definite().ok()), (d.class, d.cons, d.tag, d.len), "raw header {}", hex(rh.as_bytes2()));
    }
    if let Some(i) = data {
        check_input(i, b, BASE).map_err(|e| format!("contents: {e}"))?;
        same!(i.start(), rh.end(), "contents follow the header");
        if let Ok(l) = h.length().definite() {
            same!(i.len(), l, "length of the contents");
        } else {
            ensure!(b[i.end() - BASE..].starts_with(&[0, 0]), "the contents are not followed by the end-of-contents octets");
        }
    }
    Ok(())
}

/// positions in the tree below a decoded element
fn walk(a: &Any, b: &[u8], depth: usize) -> Res {
    located(&a.header, Some(&a.data), b, false)?;
    if depth == 0 {
        return Ok(());
    }
    let mut at = a.data.start();
    for r in a.iter_elements::<BerMode>() {
        match r {
            Ok((s, c)) => {
                check_input(&s, b, BASE).map_err(|e| format!("element: {e}"))?;
                same!(s.start(), at, "elements follow each other");
                at = s.end();
                same!(c.header.raw_header().map(|h| h.start()), Some(s.start()), "header starts the element");
                walk(&c, b, depth - 1)?;
            }
            Err(e) => check_input(e.input(), b, BASE).map_err(|m| format!("error location: {m}"))?,
        }
    }
    for r in AnyIterator::<DerMode>::new(a.data.clone()) {
        match r {
            Ok((s, c)) => {
                check_input(&s, b, BASE)?;
                walk(&c, b, 0)?;
            }
            Err(e) => check_input(e.input(), b, BASE).map_err(|m| format!("error location: {m}"))?,
        }
    }
    Ok(())
}

fn place<'a, T: Anys>(w: &str, b: &'a [u8], implicit: bool, r: IResult<Input<'a>, T, BerError<Input<'a>>>) -> Res {
    match r {
        Ok((rem, t)) => {
            check_input(&rem, b, BASE).map_err(|e| format!("{w}: remainder: {e}"))?;
            same!(rem.end(), BASE + b.len(), "{w}: end of the remainder");
            let mut res = Ok(());
            t.anys(&mut |h, d| {
                if res.is_ok() {
                    res = located(h, d, b, implicit).map_err(|e| format!("{w}: {e}"));
                }
            });
            res
        }
        Err(Err::Incomplete(_)) => Ok(()),
        Err(Err::Error(e)) | Err(Err::Failure(e)) => check_input(e.input(), b, BASE).map_err(|m| format!("{w}: error location: {m}")),
    }
}

fn positions(b: &[u8]) -> Res {
    if let Ok((_, a)) = Any::parse_ber(cursor(b)) {
        walk(&a, b, 4)?;
        // the contents of any element, iterated as elements of one type
        macro_rules! seqit { ($($t:ty)*) => { $(
            for r in SequenceIteratorInput::<$t, BerMode>::new(a.data.clone()) {
                if let Err(e) = r { check_input(e.input(), b, BASE).map_err(|m| format!("SequenceIteratorInput<{}, BerMode>: error location: {m}", stringify!($t)))?; }
            }
            for r in SequenceIteratorInput::<$t, DerMode>::new(a.data.clone()) {
                if let Err(e) = r { check_input(e.input(), b, BASE).map_err(|m| format!("SequenceIteratorInput<{}, DerMode>: error location: {m}", stringify!($t)))?; }
            }
        )* } }
        seqit!(u32 bool OctetString BitString UtcTime Real Null Utf8String Sequence);
    }
    macro_rules! at { ($imp:expr; $($t:ty),* $(,)?) => { $(
        place(concat!(stringify!($t), "::parse_ber"), b, $imp, <$t as BerParser>::parse_ber(cursor(b)))?;
        place(concat!(stringify!($t), "::parse_der"), b, $imp, <$t as DerParser>::parse_der(cursor(b)))?;
        place(concat!(stringify!($t), "::parse_ber_optional"), b, $imp, <$t as BerParser>::parse_ber_optional(cursor(b)))?;
        place(concat!(stringify!($t), "::parse_der_optional"), b, $imp, <$t as DerParser>::parse_der_optional(cursor(b)))?;
    )* } }
    at!(false; Any, AnySequence, Vec<Any>, [Any; 2], (Any, Any), (Any, Vec<Any>), Two, Deep, TaggedExplicit<Any, BerError<Input>, 0>, TaggedExplicit<Vec<Any>, BerError<Input>, 1>, Vec<TaggedExplicit<Any, BerError<Input>, 0>>);
    at!(false; AnySet, TwoSet);
    at!(true; TaggedImplicit<Any, BerError<Input>, 0>, TaggedImplicit<AnySequence, BerError<Input>, 2>);
    place("Header::parse_ber", b, false, Header::parse_ber(cursor(b)))?;
    place("Header::parse_der", b, false, Header::parse_der(cursor(b)))?;
    // callbacks of sequences and sets
    macro_rules! call { ($($ty:ident $f:ident;)*) => { $(
        let r: IResult<Input, Header, BerError<Input>> = $ty::$f(cursor(b), |h, i| {
            let e = BerError::new(i.clone(), InnerError::InvalidTag);
            // the contents are at their true position
            if check_input(&i, b, BASE).is_err() || h.raw_header().map(|r| r.end()) != Some(i.start()) { return Err(Err::Failure(BerError::new(Input::new(&[], usize::MAX..usize::MAX), e.inner().clone()))); }
            let n = i.len();
            Ok((i.take_from(n), h))
        });
        place(concat!(stringify!($ty), "::", stringify!($f)), b, false, r)?;
    )* } }
    call! { Sequence parse_ber_and_then; Sequence parse_der_and_then; Set parse_ber_and_then; Set parse_der_and_then; }
    // headers kept by tagged parsers start where the input starts
    for (w, r) in [("from_ber", TaggedParser::<Explicit, Any>::from_ber(b)), ("from_der", TaggedParser::<Explicit, Any>::from_der(b))] {
        let r: std::result::Result<(&[u8], TaggedParser<Explicit, Any>), _> = r;
        if let Ok((_, t)) = r {
            let rh = t.header.raw_header().ok_or("no raw header")?;
            check_input(rh, b, 0).map_err(|e| format!("TaggedParser<Explicit, Any>::{w}: header: {e}"))?;
            same!(rh.start(), 0, "TaggedParser<Explicit, Any>::{w}: header");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ error values

type BE<'a> = BerError<Input<'a>>;

/// the same error in both types
fn errors() -> Vec<(Error, InnerError)> {
    let mut v: Vec<(Error, InnerError)> = vec![];
    macro_rules! plain { ($($n:ident)*) => { $( v.push((Error::$n, InnerError::$n)); )* } }
    plain!(BerTypeError BerValueError InvalidLength InvalidTag IndefiniteLengthUnexpected ConstructExpected ConstructUnexpected IntegerTooLarge IntegerNegative BerMaxDepth StringInvalidCharset InvalidDateTime LifetimeError Unsupported);
    let tags = [0, 1, 5, 30, 31, 255, u32::MAX];
    for t in tags {
        v.push((Error::UnknownTag(t), InnerError::UnknownTag(t)));
        for m in ["", "x", "\u{e9}"] {
            v.push((Error::InvalidValue { tag: Tag(t), msg: m.into() }, InnerError::InvalidValue { tag: Tag(t), msg: m.into() }));
        }
        for e in [None, Some(Tag(0)), Some(Tag(t)), Some(Tag(t ^ 1))] {
            v.push((Error::UnexpectedTag { expected: e, actual: Tag(t) }, InnerError::UnexpectedTag { expected: e, actual: Tag(t) }));
        }
    }
    let classes = [Class::Universal, Class::Application, Class::ContextSpecific, Class::Private];
    for a in classes {
        for e in [None].into_iter().chain(classes.map(Some)) {
            v.push((Error::UnexpectedClass { expected: e, actual: a }, InnerError::UnexpectedClass { expected: e, actual: a }));
        }
    }
    use DerConstraint::*;
    for d in [IndefiniteLength, Constructed, NotConstructed, MissingTimeZone, MissingSeconds, UnusedBitsNotZero, InvalidBoolean, IntegerEmpty, IntegerLeadingZeroes, IntegerLeadingFF] {
        v.push((Error::DerConstraintFailed(d), InnerError::DerConstraintFailed(d)));
    }
    for n in [0, 1, 2, 127, usize::MAX] {
        v.push((Error::Incomplete(nom::Needed::new(n)), InnerError::Incomplete(nom::Needed::new(n))));
    }
    use nom::error::ErrorKind as K;
    for k in [K::Tag, K::Eof, K::Verify, K::TooLarge, K::Many0, K::Fail, K::Complete, K::LengthValue] {
        v.push((Error::NomError(k), InnerError::Nom(k)));
    }
    v
}

fn error_values(e: &Error, i: &InnerError, buf: &[u8], base: usize, (a, z): Cut) -> Res {
    let at = Input::new(&buf[a..z], base + a..base + z);
    let here = |x: &BE, w: &str| -> Res {
        same!(x.inner(), i, "{w}: kind");
        observe(x.input(), buf, base, (a, z)).map_err(|e| format!("{w}: {e}"))
    };
    let inside = |x: nom::Err<BE>, w: &str| -> Res {
        match x {
            nom::Err::Error(x) => here(&x, w),
            x => Err(format!("{w}: {x:?}")),
        }
    };
    same!(InnerError::from(e.clone()), *i, "Error to InnerError");
    same!(Error::from(i.clone()), *e, "InnerError to Error");
    let make = || BE::new(at.clone(), i.clone());
    here(&make(), "new")?;
    let (inp, inn) = make().consume();
    same!(&inn, i, "consume: kind");
    observe(&inp, buf, base, (a, z)).map_err(|e| format!("consume: {e}"))?;
    here(&BE::err_input(&at, i.clone()), "err_input")?;
    inside(BE::nom_err(at.clone(), i.clone()), "nom_err")?;
    inside(BE::nom_err_input(&at, i.clone()), "nom_err_input")?;
    inside(BE::convert(at.clone())(i.clone()), "convert")?;
    inside(BE::convert_into::<BE>(at.clone())(i.clone()), "convert_into")?;
    same!(BE::convert_into::<Error>(at.clone())(i.clone()), nom::Err::Error(e.clone()), "convert_into Error");
    here(&BE::from((at.clone(), e.clone())), "from (Input, Error)")?;
    // the location already recorded is the one that is kept
    let elsewhere = Input::new(buf, base..base + buf.len());
    here(&BE::from((elsewhere.clone(), make())), "from (Input, BerError)")?;
    here(&<BE as nom::error::ParseError<Input>>::append(elsewhere.clone(), nom::error::ErrorKind::Tag, make()), "append")?;
    same!(BE::from(e.clone()).inner().clone(), i.clone(), "from Error: kind");
    same!(Error::from(make()), *e, "BerError to Error");
    same!(Error::from_nom_berr(nom::Err::Error(make())), *e, "from_nom_berr, Error");
    same!(Error::from_nom_berr(nom::Err::Failure(make())), *e, "from_nom_berr, Failure");
    for f in [nom::Err::Error, nom::Err::Failure] {
        same!(Error::from(f(e.clone())), *e, "from nom::Err");
        same!(from_nom_error::<Error, Error>(f(e.clone())), *e, "from_nom_error");
    }
    for f in [nom::Err::Error, nom::Err::Failure] {
        same!(from_nom_error::<BE, Error>(f(make())), *e, "from_nom_error of BerError");
        here(&from_nom_error::<BE, BE>(f(make())), "from_nom_error to BerError")?;
        here(&from_nom_bererror::<BE, BE>(elsewhere.clone(), f(make())), "from_nom_bererror")?;
    }
    for f in [nom::Err::Error, nom::Err::Failure] {
        here(&from_nom_bererror::<Error, BE>(at.clone(), f(e.clone())), "from_nom_bererror of Error")?;
    }
    same!(nom::Err::<Error>::from(e.clone()), nom::Err::Error(e.clone()), "to nom::Err");
    match (e, i) {
        (Error::Incomplete(n), _) => {
            let n = *n;
            same!(Error::from(nom::Err::<Error>::Incomplete(n)), *e, "from nom::Err::Incomplete");
            same!(Error::from_nom_berr(nom::Err::Incomplete(n)), *e, "from_nom_berr, Incomplete");
            same!(from_nom_error::<Error, Error>(nom::Err::Incomplete(n)), *e, "from_nom_error, Incomplete");
            same!(from_nom_bererror::<BE, BE>(at.clone(), nom::Err::Incomplete(n)).inner().clone(), i.clone(), "from_nom_bererror, Incomplete");
            here(&BE::incomplete(at.clone(), n), "incomplete")?;
        }
        (Error::InvalidValue { tag, msg }, _) => {
            same!(Error::invalid_value(*tag, msg.clone()), *e, "invalid_value");
            same!(InnerError::invalid_value(*tag, msg), *i, "InnerError::invalid_value");
            same!(tag.invalid_value(msg), *e, "Tag::invalid_value");
            here(&BE::invalid_value(at.clone(), *tag, msg.clone()), "BerError::invalid_value")?;
        }
        (Error::UnexpectedTag { expected, actual }, _) => {
            same!(Error::unexpected_tag(*expected, *actual), *e, "unexpected_tag");
            here(&BE::unexpected_tag(at.clone(), *expected, *actual), "BerError::unexpected_tag")?;
            if let Some(x) = expected {
                let ok = x.0 == actual.0;
                same!(actual.assert_eq(*x), if ok { Ok(()) } else { Err(e.clone()) }, "Tag::assert_eq");
                same!(actual.assert_eq_inner(*x), if ok { Ok(()) } else { Err(i.clone()) }, "Tag::assert_eq_inner");
            }
        }
        (Error::UnexpectedClass { expected, actual }, _) => {
            same!(Error::unexpected_class(*expected, *actual), *e, "unexpected_class");
            here(&BE::unexpected_class(at.clone(), *expected, *actual), "BerError::unexpected_class")?;
            if let Some(x) = expected {
                let ok = *x as u8 == *actual as u8;
                same!(actual.assert_eq(*x), if ok { Ok(()) } else { Err(e.clone()) }, "Class::assert_eq");
            }
        }
        (Error::NomError(k), _) => {
            here(&<BE as nom::error::ParseError<Input>>::from_error_kind(at.clone(), *k), "from_error_kind")?;
            same!(<Error as nom::error::ParseError<&[u8]>>::from_error_kind(buf, *k), *e, "Error::from_error_kind");
        }
        _ => {}
    }
    Ok(())
}

pub fn error_conversions(ctx: &Ctx) {
    ctx.section("error values", || {
        let buf: Vec<u8> = (0..6).collect();
        let es = errors();
        ctx.par(&es, |(e, i)| {
            for base in [0, 7] {
                for a in 0..=buf.len() {
                    for z in a..=buf.len() {
                        ctx.check("error values", &|| format!("{e:?} at {base}+{a}..{z}"), || error_values(e, i, &buf, base, (a, z)));
                    }
                }
            }
        });
        for v in 0..=255u8 {
            ctx.check("classes", &|| v.to_string(), || {
                let want = [Class::Universal, Class::Application, Class::ContextSpecific, Class::Private].get(v as usize).copied();
                same!(Class::try_from(v).ok(), want, "try_from");
                if let Some(w) = want {
                    same!(Class::new_unwrap(v), w, "new_unwrap");
                    same!(w as u8, v, "number");
                    same!(w.to_string(), ["UNIVERSAL", "APPLICATION", "CONTEXT-SPECIFIC", "PRIVATE"][v as usize], "text");
                }
                Ok(())
            });
        }
    });
}

pub fn run(ctx: &Ctx, cases: &[Case]) {
    let t = ctx.thorough;
    cursors(ctx);
    error_conversions(ctx);
    let undef: Vec<Case> = cases.iter().filter(|c| c.group != "derived").cloned().collect();
    ctx.section("positions", || {
        let mut jobs: Vec<Vec<u8>> = vec![];
        crate::api_any::corpus(&undef, false, if t { 40 } else { 6 }, &mut |b| jobs.push(b));
        // deep and wide trees
        for s in ["300a0201010201020101ff0500", "30080201013003020102", "a0053003020101", "a0803080020101000000000500", "3012a003020101300602010102010230060201010201ff", "300da0030201013006020101020102", "310602010102010a", "2003020101", "a203300102", "a20430020500", "30803080308030803080000000000000000000000500"] {
            jobs.push(unhex(s));
        }
        for i in 0..40 {
            let mut b = model::u(2, &[i]);
            for k in 0..i {
                b = if k % 2 == 0 { model::tlv(2, true, (k % 3) as u32, &b) } else { model::seq(&[b.clone(), model::u(5, &[])]) };
            }
            jobs.push(b);
        }
        jobs.push(seeds::wrap(&model::Ty::SeqRaw, true, &[]));
        let seen = Seen::new();
        ctx.par(&jobs, |s| {
            if s.len() > 400 {
                return;
            }
            let mut f = |b: Vec<u8>| {
                if seen.add(&b) {
                    ctx.check("positions", &|| hex(&b), || positions(&b));
                }
            };
            f(s.clone());
            mutate1(s, &Budget { full_subst: if t { 12 } else { 4 }, truncations: true, structural: true }, &mut f);
        });
    });
}
