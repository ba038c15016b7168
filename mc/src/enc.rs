//! Encoding side: every way of writing a value, with exact accounting and fault injection.
use crate::model;
use crate::v::*;
use asn1_rs::*;
use std::io::{self, Write};

/// destination that fails after `limit` octets, taking at most `step` octets per call
pub struct Faulty {
    pub got: Vec<u8>,
    pub limit: usize,
    pub step: usize,
    /// 0: error; 1: Ok(0)
    pub mode: u8,
    /// every `intr`-th call reports an interruption (0: never)
    pub intr: usize,
    pub calls: usize,
}

impl Faulty {
    pub fn new(limit: usize, step: usize, mode: u8) -> Faulty {
        Faulty { got: vec![], limit, step, mode, intr: 0, calls: 0 }
    }
}

impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
        }
        if b.is_empty() {
            return Ok(0);
        }
        let room = self.limit - self.got.len();
        let k = b.len().min(room).min(self.step);
        if k == 0 {
            return if self.mode == 0 { Err(io::Error::new(io::ErrorKind::Other, "full")) } else { Ok(0) };
        }
        self.got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[cfg(feature = "std")]
pub type WriteFn<'x> = dyn Fn(&mut Faulty) -> SerializeResult<usize> + 'x;

/// all the limits worth trying for an encoding of n octets
fn limits(n: usize) -> Vec<usize> {
    if n <= 80 {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..40).collect();
        v.extend([n / 2, n - 1, n - 2, n - 3, n - 10]);
        v
    }
}

/// (full encoding, number of executions)
#[cfg(feature = "std")]
pub fn faults(what: &str, full: &[u8], w: &WriteFn) -> Result<u64, String> {
    let mut ex = 0;
    for step in [1, 2, 3, 7] {
        for intr in [0, 2] {
            let mut f = Faulty::new(usize::MAX, step, 0);
            f.intr = intr;
            ex += 1;
            match w(&mut f) {
                Ok(n) => {
                    if n != f.got.len() || f.got != full {
                        return Err(format!("{what}: a destination taking {step} octet(s) at a time got {} (returned {n}), expected {}", hex(&f.got), hex(full)));
                    }
                }
                Err(e) => {
                    return Err(format!("{what}: a destination taking {step} octet(s) at a time made the encoder fail: {e}"))
                }
            }
        }
    }
    for lim in limits(full.len()) {
        for mode in [0, 1] {
            for step in [usize::MAX, 1] {
                let mut f = Faulty::new(lim, step, mode);
                ex += 1;
                match w(&mut f) {
                    Ok(n) => {
                        return Err(format!("{what}: destination failed after {lim} of {} octets, but the encoder reported success ({n})", full.len()))
                    }
                    Err(_) => {
                        if !full.starts_with(&f.got) {
                            return Err(format!("{what}: destination failed after {lim} octets; {} was written, not a prefix of {}", hex(&f.got), hex(full)));
                        }
                        if f.got.len() != lim {
                            return Err(format!("{what}: failing at {lim}: only {} octets were offered first", f.got.len()));
                        }
                    }
                }
            }
        }
    }
    Ok(ex)
}

type Result<T, E> = std::result::Result<T, E>;

fn unl() -> Faulty {
    Faulty::new(usize::MAX, usize::MAX, 0)
}

#[cfg(feature = "std")]
fn no_extra<T: ToBer>(_: &T, _: &[u8]) -> Result<(), String> {
    Ok(())
}

/// functions kept for compatibility
#[cfg(feature = "std")]
#[allow(deprecated)]
fn deprecated_der<T: ToDer>(t: &T, full: &[u8]) -> Result<(), String> {
    if let Ok(n) = t.to_der_len() {
        if n != full.len() {
            return Err(format!("to_der_len announces {n} octets, {} were written: {}", full.len(), hex(full)));
        }
    }
    match t.to_der_vec_raw() {
        Ok(v) if v == full => Ok(()),
        r => Err(format!("to_der_vec_raw: {r:?}, expected {}", hex(full))),
    }
}

macro_rules! acct_fn {
    ($name:ident, $tr:ident, $clen:ident, $tlen:ident, $wh:ident, $wc:ident, $enc:ident, $exp:ident, $imp:ident, $vec:ident, $write:ident, $info:ident, $extra:ident) => {
        /// encode `t` in every way; returns the encoding. `Ok(None)`: refused by the encoder.
        pub fn $name<T: $tr>(t: &T, deep: bool, ex: &mut u64) -> Result<Option<Vec<u8>>, String> {
            let full = match t.$vec() {
                Ok(v) => v,
                Err(_) => {
                    // a refusal must be consistent
                    let mut f = unl();
                    *ex += 2;
                    if t.$enc(&mut f).is_ok() {
                        return Err(concat!(stringify!($vec), " refuses what ", stringify!($enc), " writes").to_string());
                    }
                    return Ok(None);
                }
            };
            *ex += 4;
            let mut f = unl();
            match t.$enc(&mut f) {
                Ok(n) => {
                    if n != f.got.len() {
                        return Err(format!("{} returned {n} but wrote {} octets", stringify!($enc), f.got.len()));
                    }
                    if f.got != full {
                        return Err(format!("{} wrote {}, {} gave {}", stringify!($enc), hex(&f.got), stringify!($vec), hex(&full)));
                    }
                }
                Err(e) => return Err(format!("{} fails ({e}) where {} does not", stringify!($enc), stringify!($vec))),
            }
            let mut f = unl();
            match t.$write(&mut f) {
                Ok(n) if n == f.got.len() && f.got == full => (),
                r => return Err(format!("{}: {r:?}, wrote {}, expected {}", stringify!($write), hex(&f.got), hex(&full))),
            }
            let total = t.$tlen();
            if let Length::Definite(n) = total {
                if n != full.len() {
                    return Err(format!("{} announces {n} octets, {} were written: {}", stringify!($tlen), full.len(), hex(&full)));
                }
            }
            $extra(t, &full)?;
            if full.is_empty() {
                // absent optional value
                return Ok(Some(full));
            }
            // header
            let mut f = unl();
            let hn = match t.$wh(&mut f) {
                Ok(n) => n,
                Err(e) => return Err(format!("{} fails: {e}", stringify!($wh))),
            };
            if hn != f.got.len() {
                return Err(format!("{} returned {hn} but wrote {} octets", stringify!($wh), f.got.len()));
            }
            let hdr = f.got;
            let r = model::R::new(false, 0);
            let h = match r.header(&hdr) {
                Some(h) if h.hlen == hdr.len() => h,
                _ => return Err(format!("{} wrote {}, which is not a header", stringify!($wh), hex(&hdr))),
            };
            let (class, cons, tag) = t.$info();
            if (class as u8, cons, tag.0) != (h.class, h.cons, h.tag) {
                return Err(format!("{} says {:?}, header is {}", stringify!($info), (class, cons, tag), hex(&hdr)));
            }
            let mut minimal = vec![];
            model::enc_tag(h.class, h.cons, h.tag, &mut minimal);
            match h.len {
                Some(l) => model::enc_len(l, &mut minimal),
                None => minimal.push(0x80),
            }
            if minimal != hdr {
                return Err(format!("header {} is not the shortest form", hex(&hdr)));
            }
            // contents
            let mut f = unl();
            let cn = match t.$wc(&mut f) {
                Ok(n) => n,
                Err(e) => return Err(format!("{} fails: {e}", stringify!($wc))),
            };
            if cn != f.got.len() {
                return Err(format!("{} returned {cn} but wrote {} octets", stringify!($wc), f.got.len()));
            }
            let content = f.got;
            match t.$clen() {
                Length::Definite(n) => {
                    if n != content.len() {
                        return Err(format!("{} announces {n} octets, {} were written: {}", stringify!($clen), content.len(), hex(&content)));
                    }
                    if h.len != Some(n) {
                        return Err(format!("length octets say {:?}, the contents are {n} octets", h.len));
                    }
                    if [&hdr[..], &content[..]].concat() != full {
                        return Err(format!("header {} and contents {} do not make {}", hex(&hdr), hex(&content), hex(&full)));
                    }
                }
                Length::Indefinite => {
                    if h.len.is_some() {
                        return Err("indefinite contents length under a definite header".into());
                    }
                    if total.is_definite() {
                        return Err("definite total for an indefinite element".into());
                    }
                    if !full.starts_with(&[&hdr[..], &content[..]].concat()) || full.len() > hdr.len() + content.len() + 2 {
                        return Err(format!("header {} and contents {} do not make {}", hex(&hdr), hex(&content), hex(&full)));
                    }
                }
            }
            if deep {
                *ex += faults(stringify!($enc), &full, &|f| t.$enc(f))?;
                // tagged forms
                for (class, tag) in [(Class::ContextSpecific, 3u32), (Class::Application, 31), (Class::Private, 0x1f_ffff), (Class::Universal, 30)] {
                    if h.len.is_some() {
                        let want = model::tlv(class as u8, true, tag, &full);
                        let mut f = unl();
                        *ex += 1;
                        match t.$exp(class, tag, &mut f) {
                            Ok(n) => {
                                if n != f.got.len() || f.got != want {
                                    return Err(format!("{}({class:?},{tag}) returned {n}, wrote {}, expected {}", stringify!($exp), hex(&f.got), hex(&want)));
                                }
                            }
                            Err(e) => return Err(format!("{} fails: {e}", stringify!($exp))),
                        }
                        *ex += faults(stringify!($exp), &want, &|f| t.$exp(class, tag, f))?;
                        let want = model::tlv(class as u8, h.cons, tag, &content);
                        let mut f = unl();
                        *ex += 1;
                        match t.$imp(class, tag, &mut f) {
                            Ok(n) => {
                                if n != f.got.len() || f.got != want {
                                    return Err(format!("{}({class:?},{tag}) returned {n}, wrote {}, expected {}", stringify!($imp), hex(&f.got), hex(&want)));
                                }
                            }
                            Err(e) => return Err(format!("{} fails: {e}", stringify!($imp))),
                        }
                        *ex += faults(stringify!($imp), &want, &|f| t.$imp(class, tag, f))?;
                    }
                }
            }
            Ok(Some(full))
        }
    };
}
#[cfg(feature = "std")]
acct_fn!(acct_ber, ToBer, ber_content_len, ber_total_len, ber_write_header, ber_write_content, ber_encode, ber_encode_tagged_explicit, ber_encode_tagged_implicit, to_ber_vec, write_ber, ber_tag_info, no_extra);
#[cfg(feature = "std")]
acct_fn!(acct_der, ToDer, der_content_len, der_total_len, der_write_header, der_write_content, der_encode, der_encode_tagged_explicit, der_encode_tagged_implicit, to_der_vec, write_der, der_tag_info, deprecated_der);

/// outcome of decoding then encoding
pub struct ReOut {
    pub n: usize,
    pub v: V,
    pub enc: Result<Option<Vec<u8>>, String>,
    pub execs: u64,
}

#[derive(Clone, Copy)]
pub struct Enc {
    pub name: &'static str,
    /// rules used to decode
    pub from_der: bool,
    /// rules used to encode
    pub der: bool,
    pub f: fn(&[u8], bool) -> Option<ReOut>,
}

pub fn re<T: crate::norm::Norm>(n: usize, t: T, f: impl Fn(&T, &mut u64) -> Result<Option<Vec<u8>>, String>) -> Option<ReOut> {
    let v = t.norm();
    let mut ex = 1;
    let enc = f(&t, &mut ex);
    Some(ReOut { n, v, enc, execs: ex })
}

#[cfg(not(feature = "std"))]
#[macro_export]
macro_rules! encs {
    ($($x:tt)*) => {};
}
#[cfg(feature = "std")]
#[macro_export]
macro_rules! encs {
    ($v:ident, $t:ty,) => {};
    // decode with the cursor based BER reader, encode in BER
    ($v:ident, $t:ty, bb $($r:tt)*) => { $v.push($crate::enc::Enc { name: "parse_ber, encode BER", from_der: false, der: false,
        f: |b, deep| { let (r, t) = <$t as asn1_rs::BerParser<'_>>::parse_ber(asn1_rs::Input::from_slice(b)).ok()?; $crate::enc::re(b.len() - r.len(), t, |t, ex| $crate::enc::acct_ber(t, deep, ex)) } }); $crate::encs!($v, $t, $($r)*) };
    ($v:ident, $t:ty, bd $($r:tt)*) => { $v.push($crate::enc::Enc { name: "parse_ber, encode DER", from_der: false, der: true,
        f: |b, deep| { let (r, t) = <$t as asn1_rs::BerParser<'_>>::parse_ber(asn1_rs::Input::from_slice(b)).ok()?; $crate::enc::re(b.len() - r.len(), t, |t, ex| $crate::enc::acct_der(t, deep, ex)) } }); $crate::encs!($v, $t, $($r)*) };
    ($v:ident, $t:ty, dd $($r:tt)*) => { $v.push($crate::enc::Enc { name: "parse_der, encode DER", from_der: true, der: true,
        f: |b, deep| { let (r, t) = <$t as asn1_rs::DerParser<'_>>::parse_der(asn1_rs::Input::from_slice(b)).ok()?; $crate::enc::re(b.len() - r.len(), t, |t, ex| $crate::enc::acct_der(t, deep, ex)) } }); $crate::encs!($v, $t, $($r)*) };
    // slice based readers
    ($v:ident, $t:ty, fbb $($r:tt)*) => { $v.push($crate::enc::Enc { name: "from_ber, encode BER", from_der: false, der: false,
        f: |b, deep| { let (r, t) = <$t as asn1_rs::FromBer<'_, asn1_rs::Error>>::from_ber(b).ok()?; $crate::enc::re(b.len() - r.len(), t, |t, ex| $crate::enc::acct_ber(t, deep, ex)) } }); $crate::encs!($v, $t, $($r)*) };
    ($v:ident, $t:ty, fdd $($r:tt)*) => { $v.push($crate::enc::Enc { name: "from_der, encode DER", from_der: true, der: true,
        f: |b, deep| { let (r, t) = <$t as asn1_rs::FromDer<'_, asn1_rs::Error>>::from_der(b).ok()?; $crate::enc::re(b.len() - r.len(), t, |t, ex| $crate::enc::acct_der(t, deep, ex)) } }); $crate::encs!($v, $t, $($r)*) };
    ($v:ident, $t:ty, fbd $($r:tt)*) => { $v.push($crate::enc::Enc { name: "from_ber, encode DER", from_der: false, der: true,
        f: |b, deep| { let (r, t) = <$t as asn1_rs::FromBer<'_, asn1_rs::Error>>::from_ber(b).ok()?; $crate::enc::re(b.len() - r.len(), t, |t, ex| $crate::enc::acct_der(t, deep, ex)) } }); $crate::encs!($v, $t, $($r)*) };
}
