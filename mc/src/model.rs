//! Reference model: what the octets denote according to X.690 (and the crate's
//! documented limits), written without looking at how the crate does it.
use crate::v::*;
use std::cell::Cell;

/// Known, recorded deviations (see known-findings.txt). Every bit names one.
pub mod flag {
    pub const CLASS: u32 = 1 << 0; // class of a universal type is not checked
    pub const ENUM_DER_MIN: u32 = 1 << 1; // Enumerated::from_der takes non minimal contents
    pub const SETOF_DER_ORDER: u32 = 1 << 5; // SET OF order / duplicates not enforced in DER
    pub const REAL_DER: u32 = 1 << 6; // DER restrictions on REAL not enforced
    pub const DER_LEN: u32 = 1 << 11; // length octets not minimal in DER
    pub const IMPL_OF_EXPL: u32 = 1 << 13; // implicit tag over an explicit one cannot be parsed
    pub const UTC_DER_TZ: u32 = 1 << 12; // UTCTime with an offset accepted in DER
    pub const DEFAULT_DER: u32 = 1 << 14; // derived DER codecs write and accept members equal to their DEFAULT
    /// the deviations that are still in the tree
    pub const ALL: u32 = DEFAULT_DER | CLASS | ENUM_DER_MIN | SETOF_DER_ORDER | REAL_DER | DER_LEN | UTC_DER_TZ | IMPL_OF_EXPL;
    pub fn name(f: u32) -> &'static str {
        match f {
            CLASS => "CLASS",
            ENUM_DER_MIN => "ENUM_DER_MIN",
            SETOF_DER_ORDER => "SETOF_DER_ORDER",
            REAL_DER => "REAL_DER",
            DER_LEN => "DER_LEN",
            UTC_DER_TZ => "UTC_DER_TZ",
            DEFAULT_DER => "DEFAULT_DER",
            IMPL_OF_EXPL => "IMPL_OF_EXPL",
            _ => "?",
        }
    }
}

/// Model verdict
#[derive(Clone, Debug, PartialEq)]
pub enum M {
    /// `must`: the input has to be accepted; otherwise it may be refused, but if it is
    /// accepted, then with exactly this value and length.
    Acc { must: bool, n: usize, v: V },
    Rej,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rep {
    Utf8,
    Numeric,
    Printable,
    Teletex,
    Videotex,
    Ia5,
    Graphic,
    Visible,
    General,
    ObjDesc,
    Bmp,
    Universal,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Coll {
    List,
    /// set semantics: order insensitive, duplicates merged
    Set,
}

#[derive(Clone, Debug, PartialEq)]
pub enum FieldMode {
    Plain,
    Optional,
    Default(V),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Any,
    Header,
    Boolean,
    Bool,
    Null,
    Eoc,
    Enum,
    /// signed, bits
    Int(bool, usize),
    /// any number
    BigInt,
    /// any non negative number
    BigUint,
    Oct,
    /// borrowed octets: primitive form only
    OctRef,
    Bits,
    Str(Rep),
    /// borrowed str: primitive form only
    StrRef,
    Oid,
    RelOid,
    Real,
    /// REAL read into single precision
    F32,
    Utc,
    Gen,
    /// SEQUENCE / SET with raw contents
    SeqRaw,
    SetRaw,
    SeqOf(Box<Ty>, Coll),
    SetOf(Box<Ty>, Coll),
    Arr(Box<Ty>, usize),
    Tuple(Vec<Ty>),
    Opt(Box<Ty>),
    /// class, tag, inner
    Expl(u8, u32, Box<Ty>),
    Impl(u8, u32, Box<Ty>),
    /// explicit/implicit wrapper whose tag is not constrained: List[Hdr, inner]
    TaggedAnyExpl(Box<Ty>),
    TaggedAnyImpl(Box<Ty>),
    /// List[Hdr, Bytes(content)] of the type
    AsInput(Box<Ty>),
    /// derived SEQUENCE: fields
    Struct(Vec<(Ty, FieldMode)>),
    /// derived SET (fields in declared order)
    StructSet(Vec<(Ty, FieldMode)>),
    /// alternatives selected by tag
    Choice(Vec<Ty>),
    /// derived ENUMERATED
    EnumOf(Vec<u32>),
    Pdv,
    /// optional explicitly/implicitly tagged
    OptTagged(bool, u8, u32, Box<Ty>),
    /// one value, but decoded from a non-strict parser even in DER
    Wrap(Box<Ty>),
    /// decode with BER rules even inside a strict decoder (recorded deviation when `flag`)
    BerIn(Box<Ty>),
    /// like the inner one, with the outer alternative number
    As(u32, Box<Ty>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Hd {
    pub class: u8,
    pub cons: bool,
    pub tag: u32,
    pub len: Option<usize>,
    pub hlen: usize,
}

impl Hd {
    pub fn v(&self) -> V {
        V::Hdr { class: self.class, cons: self.cons, tag: self.tag, len: self.len }
    }
}

pub struct R {
    pub der: bool,
    pub fl: u32,
    pub may: Cell<bool>,
    pub used: Cell<u32>,
}

pub const DEPTH: usize = 50;

impl R {
    pub fn new(der: bool, fl: u32) -> R {
        R { der, fl, may: Cell::new(false), used: Cell::new(0) }
    }
    fn may(&self) {
        self.may.set(true)
    }
    pub fn lenient(&self, f: u32) -> bool {
        self.used.set(self.used.get() | f);
        self.fl & f != 0
    }

    pub fn header(&self, b: &[u8]) -> Option<Hd> {
        let b0 = *b.first()?;
        let class = b0 >> 6;
        let cons = b0 & 0x20 != 0;
        let mut p = 1;
        let tag;
        if b0 & 0x1f == 0x1f {
            let mut t: u64 = 0;
            let start = p;
            loop {
                let x = *b.get(p)?;
                p += 1;
                if p - start > 5 {
                    return None;
                }
                t = (t << 7) | (x & 0x7f) as u64;
                if x & 0x80 == 0 {
                    break;
                }
            }
            if t > u32::MAX as u64 {
                return None;
            }
            if b[start] == 0x80 {
                // leading zero group: 8.1.2.4.2 c) forbids it
                if self.der {
                    return None;
                }
                self.may();
            }
            if t < 31 && self.der {
                return None;
            }
            tag = t as u32;
        } else {
            tag = (b0 & 0x1f) as u32;
        }
        let l0 = *b.get(p)?;
        p += 1;
        let len = if l0 < 0x80 {
            Some(l0 as usize)
        } else if l0 == 0x80 {
            if self.der || !cons {
                return None;
            }
            None
        } else if l0 == 0xff {
            return None;
        } else {
            let k = (l0 & 0x7f) as usize;
            if b.len() < p + k {
                return None;
            }
            let mut l: u128 = 0;
            for x in &b[p..p + k] {
                if l >> 64 != 0 {
                    return None;
                }
                l = (l << 8) | *x as u128;
            }
            if l > u64::MAX as u128 {
                return None;
            }
            if self.der && (b[p] == 0 || l < 0x80) && !self.lenient(flag::DER_LEN) {
                return None;
            }
            p += k;
            Some(l as usize)
        };
        Some(Hd { class, cons, tag, len, hlen: p })
    }

    /// contents octets and total length of the element at the start of b
    pub fn frame<'a>(&self, b: &'a [u8]) -> Option<(Hd, &'a [u8], usize)> {
        self.frame_depth(b, DEPTH)
    }

    pub fn frame_depth<'a>(&self, b: &'a [u8], depth: usize) -> Option<(Hd, &'a [u8], usize)> {
        let h = self.header(b)?;
        let (clen, total) = self.content_len(&h, &b[h.hlen..], depth)?;
        Some((h.clone(), &b[h.hlen..h.hlen + clen], h.hlen + total))
    }

    /// (length of the contents, length of contents plus end marker)
    pub fn content_len(&self, h: &Hd, b: &[u8], depth: usize) -> Option<(usize, usize)> {
        if !self.der && depth == 0 {
            return None;
        }
        match h.len {
            Some(l) => {
                if b.len() < l {
                    return None;
                }
                Some((l, l))
            }
            None => {
                if self.der || !h.cons {
                    return None;
                }
                let mut p = 0;
                loop {
                    if b.len() >= p + 2 && b[p] == 0 && b[p + 1] == 0 {
                        if depth < 2 {
                            return None;
                        }
                        return Some((p, p + 2));
                    }
                    let h2 = self.header(&b[p..])?;
                    if h2.class == 0 && h2.tag == 0 {
                        // tag 0 is reserved for the end marker, whose only form is 00 00
                        self.may();
                    }
                    let (_, t2) = self.content_len(&h2, &b[p + h2.hlen..], depth - 1)?;
                    p += h2.hlen + t2;
                }
            }
        }
    }

    pub fn tag_ok(&self, ty: &Ty, h: &Hd) -> bool {
        let num = match self.tag_num(ty) {
            Some(n) => n,
            None => {
                return match ty {
                    Ty::Choice(alts) => alts.iter().any(|t| self.tag_ok(t, h)),
                    Ty::Opt(t) | Ty::As(_, t) | Ty::Wrap(t) | Ty::BerIn(t) | Ty::AsInput(t) => self.tag_ok(t, h),
                    _ => true,
                }
            }
        };
        let class = match ty {
            Ty::Expl(c, _, _) | Ty::Impl(c, _, _) => *c,
            _ => 0,
        };
        if h.tag != num {
            return false;
        }
        if h.class != class {
            return !matches!(ty, Ty::Expl(..) | Ty::Impl(..)) && self.lenient(flag::CLASS);
        }
        true
    }

    pub fn tag_num(&self, ty: &Ty) -> Option<u32> {
        Some(match ty {
            Ty::Boolean | Ty::Bool => 1,
            Ty::Null => 5,
            Ty::Eoc => 0,
            Ty::Enum | Ty::EnumOf(_) => 10,
            Ty::Int(..) | Ty::BigInt | Ty::BigUint => 2,
            Ty::Oct | Ty::OctRef => 4,
            Ty::Bits => 3,
            Ty::Str(r) => match r {
                Rep::Utf8 => 12,
                Rep::Numeric => 18,
                Rep::Printable => 19,
                Rep::Teletex => 20,
                Rep::Videotex => 21,
                Rep::Ia5 => 22,
                Rep::Graphic => 25,
                Rep::Visible => 26,
                Rep::General => 27,
                Rep::ObjDesc => 7,
                Rep::Bmp => 30,
                Rep::Universal => 28,
            },
            Ty::StrRef => 12,
            Ty::Oid => 6,
            Ty::RelOid => 13,
            Ty::Real | Ty::F32 => 9,
            Ty::Utc => 23,
            Ty::Gen => 24,
            Ty::SeqRaw | Ty::SeqOf(..) | Ty::Arr(..) | Ty::Tuple(..) | Ty::Struct(..) => 16,
            Ty::SetRaw | Ty::SetOf(..) | Ty::StructSet(..) => 17,
            Ty::Pdv => 11,
            Ty::Expl(_, t, _) | Ty::Impl(_, t, _) => *t,
            Ty::OptTagged(..) => return None,
            _ => return None,
        })
    }

    /// decode one element of type `ty` from the start of `b`: (consumed, value)
    pub fn dec(&self, ty: &Ty, b: &[u8]) -> Option<(usize, V)> {
        match ty {
            Ty::Header => {
                let h = self.header(b)?;
                Some((h.hlen, h.v()))
            }
            Ty::Opt(t) => {
                if b.is_empty() {
                    return Some((0, V::None));
                }
                let h = self.header(b)?;
                if !self.tag_ok(t, &h) {
                    // documented: the declared tag number in another class is an error
                    if declares(t, h.tag) {
                        self.may();
                    }
                    return Some((0, V::None));
                }
                let (n, v) = self.dec(t, b)?;
                Some((n, V::Some(Box::new(v))))
            }
            Ty::OptTagged(expl, c, tag, t) => {
                if b.is_empty() {
                    return Some((0, V::None));
                }
                let h = self.header(b)?;
                if h.tag != *tag || h.class != *c {
                    if h.tag == *tag {
                        self.may();
                    }
                    return Some((0, V::None));
                }
                let inner = if *expl { Ty::Expl(*c, *tag, t.clone()) } else { Ty::Impl(*c, *tag, t.clone()) };
                let (n, v) = self.dec(&inner, b)?;
                Some((n, V::Some(Box::new(v))))
            }
            Ty::As(k, t) => {
                let (n, v) = self.dec(t, b)?;
                Some((n, V::Alt(*k, Box::new(v))))
            }
            Ty::Wrap(t) | Ty::BerIn(t) => self.dec(t, b),
            Ty::AsInput(t) => {
                let (h, c, n) = self.frame(b)?;
                if !self.tag_ok(t, &h) {
                    // the class is looked at when the contents are
                    if !declares(t, h.tag) {
                        return None;
                    }
                    self.may();
                }
                Some((n, V::List(vec![h.v(), V::Bytes(c.to_vec())])))
            }
            Ty::Choice(alts) => {
                let h = self.header(b)?;
                let t = alts.iter().find(|t| self.tag_ok(t, &h))?;
                self.dec(t, b)
            }
            _ => {
                let (h, c, n) = self.frame(b)?;
                if !self.tag_ok(ty, &h) {
                    return None;
                }
                let v = self.content(ty, &h, c)?;
                Some((n, v))
            }
        }
    }

    /// split contents into elements; None if they do not tile it exactly
    pub fn tile<'a>(&self, mut c: &'a [u8]) -> Option<Vec<(Hd, &'a [u8], &'a [u8])>> {
        let mut out = vec![];
        while !c.is_empty() {
            let (h, cc, n) = self.frame(c)?;
            out.push((h, cc, &c[..n]));
            c = &c[n..];
        }
        Some(out)
    }

    fn elems(&self, ty: &Ty, mut c: &[u8]) -> Option<Vec<V>> {
        let mut out = vec![];
        while !c.is_empty() {
            let (n, v) = self.dec(ty, c)?;
            if n == 0 {
                return None;
            }
            out.push(v);
            c = &c[n..];
        }
        Some(out)
    }

    /// value denoted by contents `c` under header `h` (the tag has been checked)
    pub fn content(&self, ty: &Ty, h: &Hd, c: &[u8]) -> Option<V> {
        let prim = |v: Option<V>| if h.cons { None } else { v };
        match ty {
            Ty::Any => Some(V::Any { class: h.class, cons: h.cons, tag: h.tag, indef: h.len.is_none(), content: c.to_vec() }),
            Ty::Boolean => prim(self.boolean(c).map(V::Byte)),
            Ty::Bool => prim(self.boolean(c).map(|b| V::Bool(b != 0))),
            Ty::Null | Ty::Eoc => prim(if c.is_empty() { Some(V::Unit) } else { None }),
            Ty::Int(s, bits) => prim(self.int(c).filter(|i| fits(i, *s, *bits)).map(V::Int)),
            Ty::BigInt => prim(self.int(c).map(V::Int)),
            Ty::BigUint => prim(self.int(c).filter(|i| i[0] & 0x80 == 0).map(V::Int)),
            Ty::Enum => prim(self.enumerated(c).map(V::Int)),
            Ty::EnumOf(vals) => prim(self.enumerated(c).and_then(|i| {
                let n = i128_of(&i)?;
                if vals.iter().any(|x| *x as i128 == n) {
                    Some(V::Int(i))
                } else {
                    None
                }
            })),
            Ty::Oct => self.octets(h, c).map(V::Bytes),
            Ty::OctRef => prim(Some(V::Bytes(c.to_vec()))),
            Ty::Bits => self.bits(h, c).map(|(n, b)| V::Bits(n, b)),
            Ty::Str(rep) => {
                let o = self.octets(h, c)?;
                self.string(*rep, &o).map(V::Str)
            }
            Ty::StrRef => prim(self.string(Rep::Utf8, c).map(V::Str)),
            Ty::Oid => prim(if oid_valid(c) { Some(V::Oid(false, c.to_vec())) } else { None }),
            Ty::RelOid => prim(if oid_valid(c) { Some(V::Oid(h.class == 0, c.to_vec())) } else { None }),
            Ty::Real => prim(self.real(c)),
            Ty::F32 => prim(self.real(c).map(|v| match v {
                V::F(Fl(x, t)) => V::F(Fl(x as f32 as f64, t)),
                v => v,
            })),
            Ty::Utc => prim(self.utctime(c)),
            Ty::Gen => prim(self.gentime(c)),
            Ty::SeqRaw | Ty::SetRaw => {
                if !h.cons {
                    return None;
                }
                Some(V::Bytes(c.to_vec()))
            }
            Ty::SeqOf(t, k) => self.collection(t, k, h, c, false),
            Ty::SetOf(t, k) => self.collection(t, k, h, c, true),
            Ty::Arr(t, n) => {
                if !h.cons {
                    return None;
                }
                let e = self.elems(t, c)?;
                if e.len() != *n {
                    return None;
                }
                Some(V::List(e))
            }
            Ty::Tuple(ts) => {
                if !h.cons {
                    return None;
                }
                let mut p = 0;
                let mut out = vec![];
                for t in ts {
                    let (n, v) = self.dec(t, &c[p..])?;
                    p += n;
                    out.push(v);
                }
                if p != c.len() {
                    return None;
                }
                Some(V::List(out))
            }
            Ty::Expl(_, _, t) => {
                if !h.cons {
                    return None;
                }
                let (n, v) = self.dec(t, c)?;
                if n != c.len() {
                    return None;
                }
                Some(v)
            }
            Ty::Impl(_, _, t) => {
                let refused = match &**t {
                    Ty::Expl(c, g, _) => *c != h.class || *g != h.tag,
                    Ty::Impl(c, _, _) => *c != h.class,
                    _ => false,
                };
                if refused && self.lenient(flag::IMPL_OF_EXPL) {
                    return None;
                }
                self.content(t, h, c)
            }
            Ty::TaggedAnyExpl(t) => {
                if !h.cons {
                    return None;
                }
                let (n, v) = self.dec(t, c)?;
                if n != c.len() {
                    return None;
                }
                Some(V::List(vec![h.v(), v]))
            }
            Ty::TaggedAnyImpl(t) => {
                let v = self.content(t, h, c)?;
                Some(V::List(vec![h.v(), v]))
            }
            Ty::Struct(fields) | Ty::StructSet(fields) => {
                if !h.cons {
                    return None;
                }
                let mut p = 0;
                let mut out = vec![];
                for (t, m) in fields {
                    match m {
                        FieldMode::Plain => {
                            let (n, v) = self.dec(t, &c[p..])?;
                            p += n;
                            out.push(v);
                        }
                        FieldMode::Optional => {
                            let (n, v) = self.dec(&Ty::Opt(Box::new(t.clone())), &c[p..])?;
                            p += n;
                            out.push(v);
                        }
                        FieldMode::Default(d) => {
                            let (n, v) = self.dec(&Ty::Opt(Box::new(t.clone())), &c[p..])?;
                            p += n;
                            out.push(match v {
                                // X.690 11.5: not encoded
                                V::Some(v) if self.der && *v == *d && !self.lenient(flag::DEFAULT_DER) => return None,
                                V::Some(v) => *v,
                                _ => d.clone(),
                            });
                        }
                    }
                }
                // derived decoders document that they leave unknown trailing members alone
                if p != c.len() {
                    self.may();
                }
                Some(V::List(out))
            }
            Ty::As(k, t) => Some(V::Alt(*k, Box::new(self.content(t, h, c)?))),
            Ty::Choice(alts) => {
                let t = alts.iter().find(|t| self.tag_ok(t, h))?;
                self.content(t, h, c)
            }
            Ty::Wrap(t) => self.content(t, h, c),
            Ty::BerIn(t) => self.content(t, h, c),
            Ty::Pdv => self.pdv(h, c),
            Ty::Opt(t) => Some(V::Some(Box::new(self.content(t, h, c)?))),
            Ty::Header | Ty::OptTagged(..) | Ty::AsInput(_) => None,
        }
    }

    fn collection(&self, t: &Ty, k: &Coll, h: &Hd, c: &[u8], set: bool) -> Option<V> {
        if !h.cons {
            return None;
        }
        let e = self.elems(t, c)?;
        if self.der && set {
            let parts: Vec<&[u8]> = self.tile(c)?.iter().map(|x| x.2).collect();
            let bad = if *k == Coll::Set {
                parts.windows(2).any(|w| w[0] >= w[1])
            } else {
                parts.windows(2).any(|w| w[0] > w[1])
            };
            if bad && !self.lenient(flag::SETOF_DER_ORDER) {
                return None;
            }
        }
        Some(match k {
            Coll::List => V::List(e),
            Coll::Set if *t == Ty::Any => {
                // elements are the same when their identifier octets and contents are
                let parts = self.tile(c)?;
                let id = |x: &[u8]| x[..1 + if x[0] & 0x1f == 0x1f { x[1..].iter().take_while(|b| **b & 0x80 != 0).count() + 1 } else { 0 }].to_vec();
                let keys: Vec<(Vec<u8>, Vec<u8>)> = parts.iter().map(|p| (id(p.2), p.1.to_vec())).collect();
                V::bag(e.iter().enumerate().filter(|(i, _)| !keys[..*i].contains(&keys[*i])).map(|(_, v)| strip(v)).collect())
            }
            Coll::Set => V::set(e),
        })
    }

    fn boolean(&self, c: &[u8]) -> Option<u8> {
        if c.len() != 1 || (self.der && c[0] != 0 && c[0] != 0xff) {
            return None;
        }
        Some(c[0])
    }

    pub fn int(&self, c: &[u8]) -> Option<Vec<u8>> {
        if c.is_empty() {
            return None;
        }
        let m = min_int(c);
        if m.len() != c.len() {
            if self.der {
                return None;
            }
            self.may(); // 8.3.2 forbids it, decoders commonly accept
        }
        Some(m)
    }

    fn enumerated(&self, c: &[u8]) -> Option<Vec<u8>> {
        let i = if self.der && !c.is_empty() && min_int(c).len() != c.len() && self.lenient(flag::ENUM_DER_MIN) {
            self.may();
            min_int(c)
        } else {
            self.int(c)?
        };
        if fits(&i, false, 32) {
            Some(i)
        } else {
            None
        }
    }

    pub fn octets(&self, h: &Hd, c: &[u8]) -> Option<Vec<u8>> {
        if !h.cons {
            return Some(c.to_vec());
        }
        if self.der {
            return None;
        }
        let mut out = vec![];
        self.segments(4, c, 5, &mut |r, hh, cc| {
            let _ = (r, hh);
            out.extend_from_slice(cc);
            Some(())
        })?;
        Some(out)
    }

    /// walk the primitive segments of a constructed string whose contents are `c`
    fn segments(&self, tag: u32, c: &[u8], limit: usize, f: &mut dyn FnMut(&R, &Hd, &[u8]) -> Option<()>) -> Option<()> {
        // `limit` levels, the leaf included
        let rb = R::new(false, self.fl);
        let parts = rb.tile(c);
        self.may.set(self.may.get() | rb.may.get());
        let parts = parts?;
        for (h, cc, _) in parts {
            if h.tag != tag || h.class != 0 {
                return None;
            }
            if limit < 2 {
                // documented recursion limit; an empty segment carries nothing
                if cc.is_empty() {
                    self.may();
                    continue;
                }
                return None;
            }
            if h.cons {
                self.segments(tag, cc, limit - 1, f)?;
            } else {
                f(self, &h, cc)?;
            }
        }
        Some(())
    }

    pub fn bits(&self, h: &Hd, c: &[u8]) -> Option<(usize, Vec<u8>)> {
        if !h.cons {
            return self.bits_prim(c);
        }
        if self.der {
            return None;
        }
        let mut segs: Vec<(usize, Vec<u8>)> = vec![];
        self.segments(3, c, 5, &mut |r, _h, cc| {
            segs.push(r.bits_prim(cc)?);
            Some(())
        })?;
        let mut n = 0usize;
        let mut bits: Vec<bool> = vec![];
        let k = segs.len();
        for (i, (m, b)) in segs.iter().enumerate() {
            if i + 1 < k && m % 8 != 0 {
                self.may(); // 8.6.4.1: only the last segment may be partial
            }
            for j in 0..*m {
                bits.push(b[j / 8] & (0x80 >> (j % 8)) != 0);
            }
            n += m;
        }
        let mut out = vec![0u8; (n + 7) / 8];
        for (j, x) in bits.iter().enumerate() {
            if *x {
                out[j / 8] |= 0x80 >> (j % 8);
            }
        }
        Some((n, out))
    }

    fn bits_prim(&self, c: &[u8]) -> Option<(usize, Vec<u8>)> {
        let u = *c.first()? as usize;
        if u > 7 || (c.len() == 1 && u != 0) {
            return None;
        }
        let mut b = c[1..].to_vec();
        let n = b.len() * 8 - u;
        if u > 0 {
            let l = b.len() - 1;
            let mask = 0xffu8 << u;
            if b[l] & !mask != 0 && self.der {
                return None;
            }
            b[l] &= mask;
        }
        Some((n, b))
    }

    pub fn string(&self, rep: Rep, o: &[u8]) -> Option<String> {
        match rep {
            Rep::Utf8 => utf8_decode(o),
            Rep::Bmp => {
                if o.len() % 2 != 0 {
                    return None;
                }
                let mut s = String::new();
                let u: Vec<u32> = o.chunks(2).map(|p| (p[0] as u32) << 8 | p[1] as u32).collect();
                let mut i = 0;
                while i < u.len() {
                    let x = u[i];
                    i += 1;
                    if (0xd800..0xdc00).contains(&x) {
                        let y = *u.get(i)?;
                        i += 1;
                        if !(0xdc00..0xe000).contains(&y) {
                            return None;
                        }
                        s.push(char::from_u32(0x10000 + ((x - 0xd800) << 10) + (y - 0xdc00))?);
                    } else {
                        s.push(char::from_u32(x)?);
                    }
                }
                Some(s)
            }
            Rep::Universal => {
                if o.len() % 4 != 0 {
                    return None;
                }
                let mut s = String::new();
                for p in o.chunks(4) {
                    let x = (p[0] as u32) << 24 | (p[1] as u32) << 16 | (p[2] as u32) << 8 | p[3] as u32;
                    s.push(char::from_u32(x)?);
                }
                Some(s)
            }
            _ => {
                let mut s = String::new();
                for x in o {
                    if !rep_ok(rep, *x) {
                        return None;
                    }
                    s.push(*x as char);
                }
                Some(s)
            }
        }
    }

    pub fn real(&self, c: &[u8]) -> Option<V> {
        let f = |x: f64, tol: f64| Some(V::F(Fl(x, tol)));
        if c.is_empty() {
            return f(0.0, 0.0);
        }
        let b0 = c[0];
        if b0 & 0x80 != 0 {
            let base_bits = match (b0 >> 4) & 3 {
                0 => 1,
                1 => 3,
                2 => 4,
                _ => return None,
            };
            let scale = ((b0 >> 2) & 3) as i64;
            let (elen, mut p) = match b0 & 3 {
                3 => {
                    let l = *c.get(1)? as usize;
                    if l == 0 {
                        return None;
                    }
                    (l, 2)
                }
                k => (k as usize + 1, 1),
            };
            if c.len() < p + elen {
                return None;
            }
            let e = &c[p..p + elen];
            p += elen;
            let m = &c[p..];
            if m.is_empty() {
                return None;
            }
            let em = min_int(e);
            if b0 & 3 == 3 && elen >= 2 && em.len() != elen {
                // long form: first nine bits must not be all equal
                self.may();
            }
            if elen > 4 {
                self.may();
            }
            let mut i = 0;
            while i + 1 < m.len() && m[i] == 0 {
                i += 1;
            }
            let mm = &m[i..];
            if m.len() > 8 {
                self.may();
            }
            if self.der && !self.lenient(flag::REAL_DER) {
                // 11.3.1: base 2, scale 0, odd mantissa, minimal exponent
                if base_bits != 1 || scale != 0 || em.len() != elen || (b0 & 3 == 3 && elen <= 3) {
                    return None;
                }
                if m[0] == 0 || m[m.len() - 1] & 1 == 0 {
                    return None;
                }
            }
            // exact value: mm * 2^(scale + base_bits * e)
            let e2 = match i128_of(&em) {
                Some(v) => v.saturating_mul(base_bits as i128).saturating_add(scale as i128),
                None => {
                    if em[0] & 0x80 != 0 {
                        i128::MIN / 4
                    } else {
                        i128::MAX / 4
                    }
                }
            };
            if e2.unsigned_abs() >= 1 << 31 {
                // far out of the range of doubles: an error is as good as infinity or zero
                self.may();
            }
            let x = scale_to_f64(mm, e2);
            let x = if b0 & 0x40 != 0 { -x } else { x };
            if mm == [0] {
                // zero has its own encoding (empty contents)
                self.may();
                if self.der && !self.lenient(flag::REAL_DER) {
                    return None;
                }
                return f(0.0, 0.0);
            }
            return f(x, 4e-16);
        }
        if b0 & 0x40 != 0 {
            if c.len() != 1 {
                return None;
            }
            return match b0 {
                0x40 => f(f64::INFINITY, 0.0),
                0x41 => f(f64::NEG_INFINITY, 0.0),
                0x42 => f(f64::NAN, 0.0),
                0x43 => {
                    self.may();
                    f(0.0, 0.0)
                }
                _ => None,
            };
        }
        // decimal
        let nr = b0 & 3;
        if b0 & 0x3f == 0 || nr == 0 && b0 & 0x3c == 0 {
            return None;
        }
        if b0 & 0x3c != 0 {
            self.may();
        }
        let nr = b0 & 0x3f;
        if !(1..=3).contains(&nr) {
            if nr & 3 == 0 {
                return None;
            }
        }
        let txt = std::str::from_utf8(&c[1..]).ok()?;
        let (plain, val) = decimal(txt, nr & 3)?;
        if !plain {
            self.may();
        }
        if self.der && !self.lenient(flag::REAL_DER) {
            // 11.3.2: NR3, no spaces, mantissa integer ending with '.', no leading/trailing zeros,
            if !decimal_canonical(b0, txt) {
                return None;
            }
        }
        f(val, 4e-16)
    }

    fn utctime(&self, c: &[u8]) -> Option<V> {
        let s = c;
        if !s.is_ascii() || s.len() < 11 {
            return None;
        }
        let yy = d2(s, 0)?;
        let (mo, d, h, mi) = (d2(s, 2)?, d2(s, 4)?, d2(s, 6)?, d2(s, 8)?);
        let mut p = 10;
        let mut sec = 0;
        let mut has_sec = false;
        if let Some(x) = d2(s, p) {
            sec = x;
            p += 2;
            has_sec = true;
        }
        let tz = parse_tz(&s[p..])?;
        // the 50-year pivot belongs to the conversion, the two-digit year is the value
        if self.der && !has_sec {
            return None;
        }
        if self.der && tz != Tz::Z && !self.lenient(flag::UTC_DER_TZ) {
            return None;
        }
        self.time_checks(yy as u32, mo, d, h, mi, sec, yy as u32)?;
        Some(V::Time(yy as u32, mo, d, h, mi, sec, None, tz))
    }

    fn time_checks(&self, year: u32, mo: u8, d: u8, h: u8, mi: u8, s: u8, _y2: u32) -> Option<()> {
        if !(1..=12).contains(&mo) || !(1..=31).contains(&d) || h > 23 || mi > 59 || s > 59 {
            return None;
        }
        if d > month_len(year, mo) {
            self.may();
        }
        Some(())
    }

    fn gentime(&self, c: &[u8]) -> Option<V> {
        let s = c;
        if !s.is_ascii() {
            return None;
        }
        let y = d2(s, 0)? as u32 * 100 + d2(s, 2)? as u32;
        let (mo, d, h) = (d2(s, 4)?, d2(s, 6)?, d2(s, 8)?);
        let mut p = 10;
        let (mut mi, mut sec) = (0, 0);
        let (mut has_min, mut has_sec) = (false, false);
        if let Some(x) = d2(s, p) {
            mi = x;
            has_min = true;
            p += 2;
            if let Some(x) = d2(s, p) {
                sec = x;
                has_sec = true;
                p += 2;
            }
        }
        let mut ms = None;
        if p < s.len() && (s[p] == b'.' || s[p] == b',') {
            if !has_sec {
                // fractions of minutes or hours are legal BER but not representable with this API
                return None;
            }
            if s[p] == b',' {
                if self.der {
                    return None;
                }
            }
            p += 1;
            let st = p;
            let mut v: u32 = 0;
            let mut k = 0;
            while p < s.len() && s[p].is_ascii_digit() {
                if k < 3 {
                    v = v * 10 + (s[p] - b'0') as u32;
                } else if s[p] != b'0' {
                    // precision that cannot be represented
                    return None;
                } else {
                    self.may();
                }
                k += 1;
                p += 1;
            }
            if k == 0 {
                return None;
            }
            if self.der && s[p - 1] == b'0' {
                return None;
            }
            let _ = st;
            while k < 3 {
                v *= 10;
                k += 1;
            }
            ms = Some(v as u16);
        }
        let tz = if p == s.len() { Tz::Undef } else { parse_tz(&s[p..])? };
        if self.der && (!has_sec || tz != Tz::Z) {
            return None;
        }
        if !has_min || (!has_sec && tz == Tz::Undef) {
            self.may();
        }
        self.time_checks(y, mo, d, h, mi, sec, y)?;
        Some(V::Time(y, mo, d, h, mi, sec, ms, tz))
    }

    fn pdv(&self, h: &Hd, c: &[u8]) -> Option<V> {
        if !h.cons {
            return None;
        }
        let b = |t: Ty| Box::new(t);
        let (h0, c0, n0) = self.frame(c)?;
        // identification is a CHOICE, hence explicitly tagged [0]
        if h0.tag != 0 || h0.class != 2 || !h0.cons {
            return None;
        }
        let (n1, id) = self.dec(
            &Ty::Choice(vec![
                Ty::As(0, b(Ty::Impl(2, 0, b(Ty::Tuple(vec![Ty::Impl(2, 0, b(Ty::Oid)), Ty::Impl(2, 1, b(Ty::Oid))]))))),
                Ty::As(1, b(Ty::Impl(2, 1, b(Ty::Oid)))),
                Ty::As(2, b(Ty::Impl(2, 2, b(Ty::BigInt)))),
                Ty::As(3, b(Ty::Impl(2, 3, b(Ty::Tuple(vec![Ty::Impl(2, 0, b(Ty::BigInt)), Ty::Impl(2, 1, b(Ty::Oid))]))))),
                Ty::As(4, b(Ty::Impl(2, 4, b(Ty::Oid)))),
                Ty::As(5, b(Ty::Impl(2, 5, b(Ty::Null)))),
            ]),
            c0,
        )?;
        if n1 != c0.len() {
            return None;
        }
        let mut p = n0;
        let (n, desc) = self.dec(&Ty::Opt(b(Ty::Impl(2, 1, b(Ty::Str(Rep::ObjDesc))))), &c[p..])?;
        p += n;
        let (n, data) = self.dec(&Ty::Impl(2, 2, b(Ty::OctRef)), &c[p..])?;
        p += n;
        if p != c.len() {
            return None;
        }
        Some(V::List(vec![id, desc, data]))
    }
}

pub fn month_len(y: u32, m: u8) -> u8 {
    match m {
        2 => {
            if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 {
                29
            } else {
                28
            }
        }
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

fn d2(s: &[u8], p: usize) -> Option<u8> {
    let a = *s.get(p)?;
    let b = *s.get(p + 1)?;
    if a.is_ascii_digit() && b.is_ascii_digit() {
        Some((a - b'0') * 10 + (b - b'0'))
    } else {
        None
    }
}

fn parse_tz(s: &[u8]) -> Option<Tz> {
    if s == b"Z" {
        return Some(Tz::Z);
    }
    if s.len() == 5 && (s[0] == b'+' || s[0] == b'-') {
        let h = d2(s, 1)?;
        let m = d2(s, 3)?;
        if h > 23 || m > 59 {
            return None;
        }
        let o = h as i32 * 60 + m as i32;
        return Some(Tz::Off(if s[0] == b'-' { -o } else { o }));
    }
    None
}

pub fn rep_ok(rep: Rep, x: u8) -> bool {
    match rep {
        Rep::Numeric => x == b' ' || x.is_ascii_digit(),
        Rep::Printable => x.is_ascii_alphanumeric() || b" '()+,-./:=?".contains(&x),
        Rep::Teletex | Rep::Videotex => (0x20..=0x7f).contains(&x),
        Rep::Visible => (0x20..=0x7e).contains(&x),
        Rep::Ia5 | Rep::General | Rep::Graphic | Rep::ObjDesc => x < 0x80,
        _ => false,
    }
}

/// independent UTF-8 decoder (RFC 3629)
pub fn utf8_decode(o: &[u8]) -> Option<String> {
    let mut s = String::new();
    let mut i = 0;
    while i < o.len() {
        let b = o[i];
        let (k, min, mut v) = match b {
            0..=0x7f => (0, 0, b as u32),
            0xc0..=0xdf => (1, 0x80, (b & 0x1f) as u32),
            0xe0..=0xef => (2, 0x800, (b & 0x0f) as u32),
            0xf0..=0xf7 => (3, 0x10000, (b & 0x07) as u32),
            _ => return None,
        };
        for j in 1..=k {
            let c = *o.get(i + j)?;
            if c & 0xc0 != 0x80 {
                return None;
            }
            v = v << 6 | (c & 0x3f) as u32;
        }
        if v < min {
            return None;
        }
        s.push(char::from_u32(v)?);
        i += k + 1;
    }
    Some(s)
}

pub fn oid_valid(c: &[u8]) -> bool {
    if c.is_empty() || c[c.len() - 1] & 0x80 != 0 {
        return false;
    }
    let mut start = true;
    for x in c {
        if start && *x == 0x80 {
            return false;
        }
        start = x & 0x80 == 0;
    }
    true
}

/// m * 2^e correctly rounded (m big endian, unsigned)
pub fn scale_to_f64(m: &[u8], e: i128) -> f64 {
    // collect into big integer bits; keep at most 64 significant bits plus sticky
    let mut bits: Vec<bool> = vec![];
    for b in m {
        for k in 0..8 {
            bits.push(b & (0x80 >> k) != 0);
        }
    }
    let first = match bits.iter().position(|x| *x) {
        None => return 0.0,
        Some(p) => p,
    };
    let bits = &bits[first..];
    let n = bits.len() as i128;
    // value = 0.b1b2b3... * 2^(n+e);  exponent of the leading bit:
    let lead = n - 1 + e;
    if lead > 1023 {
        return f64::INFINITY;
    }
    if lead < -1080 {
        return 0.0;
    }
    // number of mantissa bits kept
    let keep = if lead >= -1022 { 53 } else { 53 - (-1022 - lead) };
    if keep < 0 {
        return 0.0;
    }
    let keep = keep as usize;
    let mut q: u64 = 0;
    for i in 0..keep {
        q = q << 1 | bits.get(i).copied().unwrap_or(false) as u64;
    }
    let half = bits.get(keep).copied().unwrap_or(false);
    let sticky = bits.iter().skip(keep + 1).any(|x| *x);
    if half && (sticky || q & 1 == 1) {
        q += 1;
    }
    // value = q * 2^(lead - keep + 1)
    let sh = (lead - keep as i128 + 1) as i32;
    // q <= 2^53, result representable
    let mut x = q as f64;
    let mut s = sh;
    while s > 0 {
        let k = s.min(1000);
        x *= 2f64.powi(k);
        s -= k;
    }
    while s < 0 {
        let k = (-s).min(1000);
        x /= 2f64.powi(k);
        s += k;
    }
    x
}

/// (is the plain, strictly conforming form of the given NR, value)
pub fn decimal(txt: &str, nr: u8) -> Option<(bool, f64)> {
    let t = txt.trim_start_matches(' ');
    let mut plain = t.len() == txt.len();
    let b = t.as_bytes();
    let mut p = 0;
    if p < b.len() && (b[p] == b'+' || b[p] == b'-') {
        p += 1;
    }
    let st = p;
    while p < b.len() && b[p].is_ascii_digit() {
        p += 1;
    }
    let intd = p - st;
    let mut frac = None;
    if p < b.len() && (b[p] == b'.' || b[p] == b',') {
        if b[p] == b',' {
            plain = false;
        }
        p += 1;
        let s2 = p;
        while p < b.len() && b[p].is_ascii_digit() {
            p += 1;
        }
        frac = Some(p - s2);
    }
    if intd + frac.unwrap_or(0) == 0 {
        return None;
    }
    let mut exp = false;
    if p < b.len() && (b[p] == b'E' || b[p] == b'e') {
        if b[p] == b'e' {
            plain = false;
        }
        exp = true;
        p += 1;
        if p < b.len() && (b[p] == b'+' || b[p] == b'-') {
            p += 1;
        }
        let s3 = p;
        while p < b.len() && b[p].is_ascii_digit() {
            p += 1;
        }
        if p == s3 {
            return None;
        }
    }
    if p != b.len() {
        // trailing junk (spaces are not part of any NR form)
        return None;
    }
    let ok = match nr {
        1 => frac.is_none() && !exp,
        2 => frac.is_some() && !exp,
        _ => exp,
    };
    // ISO 6093 NR2/NR3 need a decimal mark; forms without are widespread
    if !ok || intd == 0 {
        plain = false;
    }
    let val: f64 = t.replace(',', ".").parse().ok()?;
    Some((plain, val))
}

fn decimal_canonical(b0: u8, t: &str) -> bool {
    // 11.3.2.x: NR3, [-]d+.E(-?d+|+0), first and last digit of mantissa non-zero
    if b0 != 3 {
        return false;
    }
    let t = t.strip_prefix('-').unwrap_or(t);
    let Some((m, e)) = t.split_once(".E") else { return false };
    if m.is_empty() || m.starts_with('0') || m.ends_with('0') || !m.bytes().all(|c| c.is_ascii_digit()) {
        return false;
    }
    if e == "+0" {
        return true;
    }
    let e = e.strip_prefix('-').unwrap_or(e);
    !e.is_empty() && !e.starts_with('0') && e.bytes().all(|c| c.is_ascii_digit())
}

pub fn run(ty: &Ty, der: bool, fl: u32, b: &[u8]) -> (M, u32) {
    let r = R::new(der, fl);
    let m = match r.dec(ty, b) {
        Some((n, v)) => M::Acc { must: !r.may.get(), n, v },
        None => M::Rej,
    };
    (m, r.used.get())
}

// ---------------------------------------------------------------- reference encoder

pub fn enc_tag(class: u8, cons: bool, tag: u32, out: &mut Vec<u8>) {
    let b0 = class << 6 | if cons { 0x20 } else { 0 };
    if tag < 31 {
        out.push(b0 | tag as u8);
        return;
    }
    out.push(b0 | 0x1f);
    let mut g = vec![(tag & 0x7f) as u8];
    let mut t = tag >> 7;
    while t > 0 {
        g.push((t & 0x7f) as u8 | 0x80);
        t >>= 7;
    }
    g.reverse();
    out.extend(g);
}

pub fn enc_len(l: usize, out: &mut Vec<u8>) {
    if l < 0x80 {
        out.push(l as u8);
        return;
    }
    let mut g = vec![];
    let mut t = l;
    while t > 0 {
        g.push((t & 0xff) as u8);
        t >>= 8;
    }
    out.push(0x80 | g.len() as u8);
    g.reverse();
    out.extend(g);
}

pub fn tlv(class: u8, cons: bool, tag: u32, content: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(content.len() + 6);
    enc_tag(class, cons, tag, &mut o);
    enc_len(content.len(), &mut o);
    o.extend_from_slice(content);
    o
}

/// universal tag shortcut
pub fn u(tag: u32, content: &[u8]) -> Vec<u8> {
    tlv(0, tag == 16 || tag == 17, tag, content)
}

pub fn cat(parts: &[Vec<u8>]) -> Vec<u8> {
    parts.concat()
}

pub fn seq(parts: &[Vec<u8>]) -> Vec<u8> {
    u(16, &parts.concat())
}

pub fn setof(parts: &[Vec<u8>]) -> Vec<u8> {
    u(17, &parts.concat())
}

pub fn int_content(i: i128) -> Vec<u8> {
    int_of_i128(i)
}

/// indefinite form of an element
pub fn indef(class: u8, tag: u32, content: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    enc_tag(class, true, tag, &mut o);
    o.push(0x80);
    o.extend_from_slice(content);
    o.extend_from_slice(&[0, 0]);
    o
}

pub fn arcs_content(arcs: &[u128]) -> Vec<u8> {
    let mut o = vec![];
    for a in arcs {
        let mut g = vec![(a & 0x7f) as u8];
        let mut t = a >> 7;
        while t > 0 {
            g.push((t & 0x7f) as u8 | 0x80);
            t >>= 7;
        }
        g.reverse();
        o.extend(g);
    }
    o
}

// ---------------------------------------------------------------- values to octets

/// the encoding of value `v` of type `ty`; None when this model does not fix it
pub fn encode(ty: &Ty, v: &V, der: bool) -> Option<Vec<u8>> {
    let r = R::new(der, 0);
    match (ty, v) {
        (Ty::Opt(_), V::None) | (Ty::OptTagged(..), V::None) => return Some(vec![]),
        (Ty::Opt(t), V::Some(v)) => return encode(t, v, der),
        (Ty::OptTagged(e, c, g, t), V::Some(v)) => {
            let ty = if *e { Ty::Expl(*c, *g, t.clone()) } else { Ty::Impl(*c, *g, t.clone()) };
            return encode(&ty, v, der);
        }
        (Ty::Any, V::Any { class, cons, tag, content, .. }) => return Some(tlv(*class, *cons, *tag, content)),
        (Ty::Choice(ts), v) => {
            for t in ts {
                match (t, v) {
                    (Ty::As(k, t), V::Alt(k2, v)) => {
                        if k == k2 {
                            return encode(t, v, der);
                        }
                    }
                    (Ty::Oid, V::Oid(false, _)) | (Ty::RelOid, V::Oid(true, _)) => return encode(t, v, der),
                    _ => (),
                }
            }
            return None;
        }
        (Ty::As(_, t), V::Alt(_, v)) => return encode(t, v, der),
        (Ty::Wrap(t), v) | (Ty::BerIn(t), v) => return encode(t, v, der),
        (Ty::Expl(c, g, t), v) => return Some(tlv(*c, true, *g, &encode(t, v, der)?)),
        (Ty::Impl(c, g, t), v) => {
            let (cons, cc) = content_enc(t, v, der)?;
            return Some(tlv(*c, cons, *g, &cc));
        }
        (Ty::TaggedAnyExpl(t), V::List(l)) => {
            if let V::Hdr { class, tag, .. } = &l[0] {
                return Some(tlv(*class, true, *tag, &encode(t, &l[1], der)?));
            }
            return None;
        }
        (Ty::TaggedAnyImpl(t), V::List(l)) => {
            if let V::Hdr { class, tag, .. } = &l[0] {
                let (cons, cc) = content_enc(t, &l[1], der)?;
                return Some(tlv(*class, cons, *tag, &cc));
            }
            return None;
        }
        _ => (),
    }
    let tag = r.tag_num(ty)?;
    let (cons, c) = content_enc(ty, v, der)?;
    Some(tlv(0, cons, tag, &c))
}

fn items(l: &[V], t: &Ty, der: bool) -> Option<Vec<Vec<u8>>> {
    l.iter().map(|v| encode(t, v, der)).collect()
}

/// (constructed, contents)
pub fn content_enc(ty: &Ty, v: &V, der: bool) -> Option<(bool, Vec<u8>)> {
    Some(match (ty, v) {
        (Ty::Boolean, V::Byte(b)) => (false, vec![if der && *b != 0 { 0xff } else { *b }]),
        (Ty::Bool, V::Bool(b)) => (false, vec![if *b { 0xff } else { 0 }]),
        (Ty::Null, V::Unit) | (Ty::Eoc, V::Unit) => (false, vec![]),
        (Ty::Int(..) | Ty::BigInt | Ty::BigUint | Ty::Enum | Ty::EnumOf(_), V::Int(i)) => (false, i.clone()),
        (Ty::Oct | Ty::OctRef, V::Bytes(b)) => (false, b.clone()),
        (Ty::Bits, V::Bits(n, b)) => {
            let mut c = vec![((8 - n % 8) % 8) as u8];
            c.extend_from_slice(b);
            (false, c)
        }
        (Ty::Str(rep), V::Str(s)) => (
            false,
            match rep {
                Rep::Bmp => s.encode_utf16().flat_map(|x| [(x >> 8) as u8, x as u8]).collect(),
                Rep::Universal => s.chars().flat_map(|c| (c as u32).to_be_bytes()).collect(),
                _ => s.as_bytes().to_vec(),
            },
        ),
        (Ty::StrRef, V::Str(s)) => (false, s.as_bytes().to_vec()),
        (Ty::Oid, V::Oid(false, c)) | (Ty::RelOid, V::Oid(true, c)) => (false, c.clone()),
        (Ty::Utc, V::Time(..)) => (false, {
            let V::Time(y, mo, d, h, mi, s, _, tz) = (if der { time_utc(v, true) } else { v.clone() }) else { unreachable!() };
            if y > 99 || no_such_instant(v) {
                return None;
            }
            let z = if tz == Tz::Undef { "Z".into() } else { tz_text(tz) };
            format!("{y:02}{mo:02}{d:02}{h:02}{mi:02}{s:02}{z}").into_bytes()
        }),
        (Ty::Gen, V::Time(..)) => (false, {
            let V::Time(y, mo, d, h, mi, s, ms, tz) = (if der { time_utc(v, false) } else { v.clone() }) else { unreachable!() };
            if y > 9999 || no_such_instant(v) {
                return None;
            }
            let z = tz_text(tz);
            let f = match ms {
                None => String::new(),
                Some(m) => {
                    let mut f = format!(".{m:03}");
                    if der {
                        while f.ends_with('0') {
                            f.pop();
                        }
                        if f == "." {
                            f.clear();
                        }
                    }
                    f
                }
            };
            format!("{y:04}{mo:02}{d:02}{h:02}{mi:02}{s:02}{f}{z}").into_bytes()
        }),
        (Ty::SeqRaw | Ty::SetRaw, V::Bytes(b)) => (true, b.clone()),
        (Ty::SeqOf(t, Coll::List), V::List(l)) => (true, items(l, t, der)?.concat()),
        (Ty::SetOf(t, Coll::List), V::List(l)) => {
            let mut p = items(l, t, der)?;
            if der {
                p.sort();
            }
            (true, p.concat())
        }
        (Ty::SetOf(t, Coll::Set), V::Set(l)) => {
            let mut p = items(l, t, der)?;
            p.sort();
            (true, p.concat())
        }
        (Ty::Arr(t, _), V::List(l)) => (true, items(l, t, der)?.concat()),
        (Ty::Tuple(ts), V::List(l)) => {
            let mut o = vec![];
            for (t, v) in ts.iter().zip(l) {
                o.extend(encode(t, v, der)?);
            }
            (true, o)
        }
        (Ty::Struct(fs) | Ty::StructSet(fs), V::List(l)) => {
            let mut o = vec![];
            for ((t, m), v) in fs.iter().zip(l) {
                match m {
                    FieldMode::Optional => match v {
                        V::Some(v) => o.extend(encode(t, v, der)?),
                        _ => (),
                    },
                    // X.690 11.5
                    FieldMode::Default(d) if der && v == d => (),
                    _ => o.extend(encode(t, v, der)?),
                }
            }
            (true, o)
        }
        (Ty::Expl(_, _, t), v) => (true, encode(t, v, der)?),
        (Ty::Impl(_, _, t), v) => content_enc(t, v, der)?,
        (Ty::Wrap(t) | Ty::BerIn(t), v) => content_enc(t, v, der)?,
        (Ty::As(_, t), V::Alt(_, v)) => content_enc(t, v, der)?,
        (Ty::Any, V::Any { cons, content, .. }) => (*cons, content.clone()),
        (Ty::Opt(t), V::Some(v)) => content_enc(t, v, der)?,
        _ => return None,
    })
}

fn tz_text(tz: Tz) -> String {
    match tz {
        Tz::Z => "Z".into(),
        Tz::Undef => "".into(),
        Tz::Off(o) => format!("{}{:02}{:02}", if o < 0 { '-' } else { '+' }, o.abs() / 60, o.abs() % 60),
    }
}

/// days since 0000-03-01 of the proleptic Gregorian calendar, by counting months
pub fn day_number(y: i64, mo: u8, d: u8) -> i64 {
    let (y, m) = if mo <= 2 { (y - 1, mo as i64 + 9) } else { (y, mo as i64 - 3) };
    365 * y + y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400) + (153 * m + 2) / 5 + d as i64 - 1
}

fn civil(n: i64) -> (i64, u8, u8) {
    let era = n.div_euclid(146_097);
    let doe = n.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u8;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (era * 400 + yoe + (m <= 2) as i64, m as u8, d)
}

/// The same instant in UTC; a two-digit year wraps around. A year that does not fit is 10000.
pub fn time_utc(v: &V, two_digits: bool) -> V {
    let V::Time(y, mo, d, h, mi, s, ms, tz) = v.clone() else { return v.clone() };
    let ms = if two_digits { None } else { ms.filter(|m| *m != 0) };
    let Tz::Off(o) = tz else { return V::Time(y, mo, d, h, mi, s, ms, Tz::Z) };
    let t = h as i64 * 60 + mi as i64 - o as i64;
    let (h, mi) = ((t.rem_euclid(1440) / 60) as u8, (t.rem_euclid(1440) % 60) as u8);
    if t.div_euclid(1440) == 0 {
        return V::Time(y, mo, d, h, mi, s, ms, Tz::Z);
    }
    // two-digit years stand for 1950..2049: 2000 + y has the same leap years
    let base = if two_digits { 2000 } else { 0 };
    let (y2, mo, d) = civil(day_number(base + y as i64, mo, d) + t.div_euclid(1440));
    let y2 = if two_digits { y2.rem_euclid(100) } else if (0..10000).contains(&y2) { y2 } else { 10000 };
    V::Time(y2 as u32, mo, d, h, mi, s, ms, Tz::Z)
}

/// A written date such as February 31st (decoders look at each field on its own) with an offset:
/// it has no UTC form, so nothing is said about its DER encoding
pub fn no_such_instant(v: &V) -> bool {
    let V::Time(y, mo, d, .., Tz::Off(_)) = v else { return false };
    let last = match mo {
        2 => 28 + (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) as u8,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    };
    *d > last
}

/// the value that a DER encoding of `v` denotes
pub fn der_value(ty: &Ty, v: &V) -> V {
    match v {
        V::Time(..) => time_utc(v, *ty == Ty::Utc),
        V::Byte(b) if *ty == Ty::Boolean && *b != 0 => V::Byte(0xff),
        V::List(l) => match ty {
            Ty::SetOf(t, Coll::List) => {
                let mut l: Vec<(Option<Vec<u8>>, V)> = l.iter().map(|v| (encode(t, v, true), der_value(t, v))).collect();
                l.sort_by(|a, b| a.0.cmp(&b.0));
                V::List(l.into_iter().map(|x| x.1).collect())
            }
            Ty::SeqOf(t, _) | Ty::Arr(t, _) => V::List(l.iter().map(|v| der_value(t, v)).collect()),
            Ty::Tuple(ts) => V::List(ts.iter().zip(l).map(|(t, v)| der_value(t, v)).collect()),
            Ty::Struct(fs) | Ty::StructSet(fs) => V::List(fs.iter().zip(l).map(|((t, _), v)| der_value(t, v)).collect()),
            Ty::Expl(_, _, t) | Ty::Impl(_, _, t) => der_value(t, v),
            _ => v.clone(),
        },
        V::Some(w) => match ty {
            Ty::Opt(t) => V::Some(Box::new(der_value(t, w))),
            _ => V::Some(Box::new(der_value(ty, w))),
        },
        V::Alt(k, w) => match ty {
            Ty::Choice(ts) => {
                let t = ts.iter().find_map(|t| match t {
                    Ty::As(j, t) if j == k => Some(t),
                    _ => None,
                });
                t.map_or(v.clone(), |t| V::Alt(*k, Box::new(der_value(t, w))))
            }
            _ => v.clone(),
        },
        _ => v.clone(),
    }
}

/// the value that the encoding of `v` denotes: what is written has its own form and minimal tags
pub fn written(ty: &Ty, v: &V, der: bool) -> V {
    let v = if der { der_value(ty, v) } else { v.clone() };
    match (ty, &v) {
        (Ty::TaggedAnyImpl(t), V::List(l)) => {
            let (V::Hdr { class, tag, len, .. }, Some((cons, _))) = (&l[0], content_enc(t, &l[1], der)) else { return v };
            V::List(vec![V::Hdr { class: *class, cons, tag: *tag, len: *len }, l[1].clone()])
        }
        (Ty::SetOf(t, Coll::Set), V::Set(l)) if **t == Ty::Any => V::set(l.clone()),
        _ => v,
    }
}

/// BER is free: does `enc` denote value `v` of type `ty` again, using every octet?
pub fn denotes(ty: &Ty, enc: &[u8], v: &V, der: bool) -> bool {
    let r = R::new(der, 0);
    match r.dec(ty, enc) {
        Some((n, w)) => n == enc.len() && &w == v,
        None => false,
    }
}

/// Does `b` stop in the middle of the identifier octets of a long-form tag? That case is
/// documented (and pinned by an upstream test) to be reported as an invalid tag.
pub fn cut_in_tag(b: &[u8]) -> bool {
    let mut p = 0;
    loop {
        let Some(&b0) = b.get(p) else { return false };
        p += 1;
        if b0 & 0x1f == 0x1f {
            loop {
                let Some(&x) = b.get(p) else { return true };
                p += 1;
                if x & 0x80 == 0 {
                    break;
                }
            }
        }
        let Some(&l) = b.get(p) else { return false };
        p += 1;
        if l == 0x80 {
            continue;
        }
        let mut n = (l & 0x7f) as usize;
        if l & 0x80 != 0 {
            if n > 8 || b.len() < p + n {
                return false;
            }
            let v = b[p..p + n].iter().fold(0u64, |a, x| (a << 8) | *x as u64);
            p += n;
            n = v.min(1 << 40) as usize;
        }
        p += n;
        if p >= b.len() {
            return false;
        }
    }
}

/// without what the encoding may change: the form of the length
pub fn strip(v: &V) -> V {
    match v {
        V::Any { class, cons, tag, content, .. } => V::Any { class: *class, cons: *cons, tag: *tag, indef: false, content: content.clone() },
        V::Hdr { class, cons, tag, .. } => V::Hdr { class: *class, cons: *cons, tag: *tag, len: None },
        V::List(l) => V::List(l.iter().map(strip).collect()),
        V::Set(l) => V::bag(l.iter().map(strip).collect()),
        V::Some(v) => V::Some(Box::new(strip(v))),
        V::Alt(k, v) => V::Alt(*k, Box::new(strip(v))),
        v => v.clone(),
    }
}


/// Is `tag` the number of a tag that `t` itself declares?
fn declares(t: &Ty, tag: u32) -> bool {
    match t {
        Ty::Expl(_, g, _) | Ty::Impl(_, g, _) => *g == tag,
        Ty::As(_, t) | Ty::Wrap(t) => declares(t, tag),
        Ty::Choice(ts) => ts.iter().any(|t| declares(t, tag)),
        _ => false,
    }
}
