//! How each type of the crate under test is read into the common normal form.
use crate::v::*;
use asn1_rs::*;
use std::borrow::Cow;
use std::collections::{BTreeSet, HashSet};

pub trait Norm {
    fn norm(&self) -> V;
}

macro_rules! n_str { ($($t:ident)*) => { $( impl Norm for $t<'_> { fn norm(&self) -> V {
    let s = AsRef::<str>::as_ref(self).to_string();
    if self.string() != s { return V::Alt(999, Box::new(V::Str(self.string()))); }
    V::Str(s)
} } )* } }
n_str!(Utf8String NumericString PrintableString TeletexString VideotexString Ia5String GraphicString VisibleString GeneralString ObjectDescriptor BmpString UniversalString);

impl Norm for &str {
    fn norm(&self) -> V {
        V::Str(self.to_string())
    }
}
impl Norm for String {
    fn norm(&self) -> V {
        V::Str(self.clone())
    }
}
macro_rules! n_int { ($($t:ident)*) => { $( impl Norm for $t { fn norm(&self) -> V { V::Int(int_of_i128(*self as i128)) } } )* } }
n_int!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 usize);
impl Norm for u128 {
    fn norm(&self) -> V {
        V::Int(int_of_u128(*self))
    }
}
impl Norm for bool {
    fn norm(&self) -> V {
        V::Bool(*self)
    }
}
impl Norm for Boolean {
    fn norm(&self) -> V {
        if self.bool() != (self.value != 0) {
            return V::None;
        }
        V::Byte(self.value)
    }
}
impl Norm for Null {
    fn norm(&self) -> V {
        V::Unit
    }
}
impl Norm for () {
    fn norm(&self) -> V {
        V::Unit
    }
}
impl Norm for EndOfContent {
    fn norm(&self) -> V {
        V::Unit
    }
}
impl Norm for Enumerated {
    fn norm(&self) -> V {
        self.0.norm()
    }
}
impl Norm for Integer<'_> {
    fn norm(&self) -> V {
        if self.as_ref().is_empty() {
            return V::Int(vec![]);
        }
        V::Int(min_int(self.as_ref()))
    }
}
#[cfg(feature = "bigint")]
impl Norm for BigInt {
    fn norm(&self) -> V {
        V::Int(min_int(&self.to_signed_bytes_be()))
    }
}
#[cfg(feature = "bigint")]
impl Norm for BigUint {
    fn norm(&self) -> V {
        let mut b = vec![0];
        b.extend(self.to_bytes_be());
        V::Int(min_int(&b))
    }
}
impl Norm for OctetString<'_> {
    fn norm(&self) -> V {
        V::Bytes(self.as_ref().to_vec())
    }
}
impl Norm for &[u8] {
    fn norm(&self) -> V {
        V::Bytes(self.to_vec())
    }
}
impl Norm for Cow<'_, [u8]> {
    fn norm(&self) -> V {
        V::Bytes(self.to_vec())
    }
}
impl Norm for Cow<'_, str> {
    fn norm(&self) -> V {
        V::Str(self.to_string())
    }
}
impl Norm for BitString {
    fn norm(&self) -> V {
        let n = self.len();
        let mut b = self.as_ref().to_vec();
        if b.len() != (n + 7) / 8 {
            return V::Alt(999, Box::new(V::Bits(n, b)));
        }
        if n % 8 != 0 {
            let l = b.len() - 1;
            b[l] &= 0xff << (8 - n % 8);
        }
        V::Bits(n, b)
    }
}
impl Norm for Oid<'_> {
    fn norm(&self) -> V {
        // the relative flag is private; it shows in the tag used by the encoder
        let rel = oid_relative(self);
        V::Oid(rel, self.as_bytes().to_vec())
    }
}
#[cfg(not(feature = "std"))]
pub fn oid_relative(o: &Oid) -> bool {
    o.to_string().starts_with("rel. ")
}
#[cfg(feature = "std")]
pub fn oid_relative(o: &Oid) -> bool {
    o.ber_tag_info().2 == Tag::RelativeOid
}
impl Norm for Real {
    fn norm(&self) -> V {
        V::F(Fl(self.f64(), 0.0))
    }
}
impl Norm for f64 {
    fn norm(&self) -> V {
        V::F(Fl(*self, 0.0))
    }
}
impl Norm for f32 {
    fn norm(&self) -> V {
        V::F(Fl(*self as f64, 1e-6))
    }
}
pub fn norm_dt(t: &ASN1DateTime) -> V {
    let tz = match t.tz {
        ASN1TimeZone::Undefined => Tz::Undef,
        ASN1TimeZone::Z => Tz::Z,
        ASN1TimeZone::Offset(h, m) => {
            let m = m as i32;
            let h = h as i32;
            // the sign is that of the hours, or of the minutes when there are none
            Tz::Off(if h < 0 { h * 60 - m.abs() } else { h * 60 + m })
        }
    };
    V::Time(t.year, t.month, t.day, t.hour, t.minute, t.second, t.millisecond, tz)
}
impl Norm for UtcTime {
    fn norm(&self) -> V {
        norm_dt(&self.0)
    }
}
impl Norm for GeneralizedTime {
    fn norm(&self) -> V {
        norm_dt(&self.0)
    }
}
impl Norm for Header<'_> {
    fn norm(&self) -> V {
        V::Hdr {
            class: self.class() as u8,
            cons: self.constructed(),
            tag: self.tag().0,
            len: self.length().definite().ok(),
        }
    }
}
impl Norm for Any<'_> {
    fn norm(&self) -> V {
        V::Any {
            class: self.class() as u8,
            cons: self.header.constructed(),
            tag: self.tag().0,
            indef: !self.header.length().is_definite(),
            content: self.as_bytes().to_vec(),
        }
    }
}
impl Norm for Input<'_> {
    fn norm(&self) -> V {
        V::Bytes(self.as_bytes2().to_vec())
    }
}
impl<A: Norm, B: Norm> Norm for AsIn<A, B> {
    fn norm(&self) -> V {
        V::List(vec![self.0.norm(), self.1.norm()])
    }
}
pub struct AsIn<A, B>(pub A, pub B);
impl Norm for Sequence<'_> {
    fn norm(&self) -> V {
        V::Bytes(self.content.to_vec())
    }
}
impl Norm for Set<'_> {
    fn norm(&self) -> V {
        V::Bytes(self.content.to_vec())
    }
}
impl Norm for AnySequence<'_> {
    fn norm(&self) -> V {
        V::List(self.iter().map(|a| a.norm()).collect())
    }
}
#[cfg(feature = "std")]
impl Norm for AnySet<'_> {
    fn norm(&self) -> V {
        V::bag(self.iter().map(|a| crate::model::strip(&a.norm())).collect())
    }
}
impl<T: Norm> Norm for SequenceOf<T> {
    fn norm(&self) -> V {
        V::List(self.iter().map(|a| a.norm()).collect())
    }
}
impl<T: Norm> Norm for SetOf<T> {
    fn norm(&self) -> V {
        V::List(self.iter().map(|a| a.norm()).collect())
    }
}
impl<T: Norm> Norm for Vec<T> {
    fn norm(&self) -> V {
        V::List(self.iter().map(|a| a.norm()).collect())
    }
}
impl<T: Norm, const N: usize> Norm for [T; N] {
    fn norm(&self) -> V {
        V::List(self.iter().map(|a| a.norm()).collect())
    }
}
impl<T: Norm> Norm for BTreeSet<T> {
    fn norm(&self) -> V {
        V::set(self.iter().map(|a| a.norm()).collect())
    }
}
impl<T: Norm> Norm for HashSet<T> {
    fn norm(&self) -> V {
        V::set(self.iter().map(|a| a.norm()).collect())
    }
}
impl<T: Norm> Norm for Option<T> {
    fn norm(&self) -> V {
        match self {
            None => V::None,
            Some(t) => V::Some(Box::new(t.norm())),
        }
    }
}
impl<T: Norm> Norm for Box<T> {
    fn norm(&self) -> V {
        self.as_ref().norm()
    }
}
impl<T: Norm, E, K, const C: u8, const G: u32> Norm for TaggedValue<T, E, K, C, G> {
    fn norm(&self) -> V {
        self.as_ref().norm()
    }
}
impl<T: Norm, E, K> Norm for TaggedParser<'_, K, T, E> {
    fn norm(&self) -> V {
        V::List(vec![self.header.norm(), self.inner.norm()])
    }
}
macro_rules! n_tuple { ($($n:tt $t:ident),*) => { impl<$($t: Norm),*> Norm for ($($t,)*) { fn norm(&self) -> V { V::List(vec![$(self.$n.norm()),*]) } } } }
n_tuple!(0 A);
n_tuple!(0 A, 1 B);
n_tuple!(0 A, 1 B, 2 C);
n_tuple!(0 A, 1 B, 2 C, 3 D);
n_tuple!(0 A, 1 B, 2 C, 3 D, 4 E);
n_tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F);
n_tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G);
n_tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H);
n_tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I);
n_tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I, 9 J);
n_tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I, 9 J, 10 K);
n_tuple!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I, 9 J, 10 K, 11 L);

impl Norm for PdvIdentification<'_> {
    fn norm(&self) -> V {
        let a = |n, v| V::Alt(n, Box::new(v));
        match self {
            PdvIdentification::Syntaxes { s_abstract, s_transfer } => a(0, V::List(vec![s_abstract.norm(), s_transfer.norm()])),
            PdvIdentification::Syntax(o) => a(1, o.norm()),
            PdvIdentification::PresentationContextId(i) => a(2, i.norm()),
            PdvIdentification::ContextNegotiation { presentation_context_id, presentation_syntax } => {
                a(3, V::List(vec![presentation_context_id.norm(), presentation_syntax.norm()]))
            }
            PdvIdentification::TransferSyntax(o) => a(4, o.norm()),
            PdvIdentification::Fixed => a(5, V::Unit),
        }
    }
}
impl Norm for EmbeddedPdv<'_> {
    fn norm(&self) -> V {
        V::List(vec![self.identification.norm(), self.data_value_descriptor.norm(), self.data_value.norm()])
    }
}
