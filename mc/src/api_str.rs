//! C12: character strings made with constructors, repertoires octet by octet, what is shared with the input.
use crate::api_any::Res;
use crate::enc::{acct_ber, acct_der};
use crate::engine::*;
use crate::model::{self, Rep, R};
use crate::v::*;
use crate::{ensure, same};
use asn1_rs::*;

const REPS: [Rep; 12] = [Rep::Utf8, Rep::Numeric, Rep::Printable, Rep::Teletex, Rep::Videotex, Rep::Ia5, Rep::Graphic, Rep::Visible, Rep::General, Rep::ObjDesc, Rep::Bmp, Rep::Universal];

/// the characters in the representation of the type
fn content(rep: Rep, s: &str) -> Vec<u8> {
    match rep {
        Rep::Bmp => s.encode_utf16().flat_map(|x| x.to_be_bytes()).collect(),
        Rep::Universal => s.chars().flat_map(|c| (c as u32).to_be_bytes()).collect(),
        _ => s.as_bytes().to_vec(),
    }
}

/// runs `$b` with `$T` bound to the type that has representation `$rep`
macro_rules! with_type {
    ($rep:expr, $T:ident => $b:expr) => {
        match $rep {
            Rep::Utf8 => { type $T<'a> = Utf8String<'a>; $b }
            Rep::Numeric => { type $T<'a> = NumericString<'a>; $b }
            Rep::Printable => { type $T<'a> = PrintableString<'a>; $b }
            Rep::Teletex => { type $T<'a> = TeletexString<'a>; $b }
            Rep::Videotex => { type $T<'a> = VideotexString<'a>; $b }
            Rep::Ia5 => { type $T<'a> = Ia5String<'a>; $b }
            Rep::Graphic => { type $T<'a> = GraphicString<'a>; $b }
            Rep::Visible => { type $T<'a> = VisibleString<'a>; $b }
            Rep::General => { type $T<'a> = GeneralString<'a>; $b }
            Rep::ObjDesc => { type $T<'a> = ObjectDescriptor<'a>; $b }
            Rep::Bmp => { type $T<'a> = BmpString<'a>; $b }
            Rep::Universal => { type $T<'a> = UniversalString<'a>; $b }
        }
    };
}
/// the types that can hand out the text they share
macro_rules! with_shared {
    ($rep:expr, $T:ident => $b:expr) => {
        match $rep {
            Rep::Bmp | Rep::Universal => {}
            Rep::Utf8 => { type $T<'a> = Utf8String<'a>; $b }
            Rep::Numeric => { type $T<'a> = NumericString<'a>; $b }
            Rep::Printable => { type $T<'a> = PrintableString<'a>; $b }
            Rep::Teletex => { type $T<'a> = TeletexString<'a>; $b }
            Rep::Videotex => { type $T<'a> = VideotexString<'a>; $b }
            Rep::Ia5 => { type $T<'a> = Ia5String<'a>; $b }
            Rep::Graphic => { type $T<'a> = GraphicString<'a>; $b }
            Rep::Visible => { type $T<'a> = VisibleString<'a>; $b }
            Rep::General => { type $T<'a> = GeneralString<'a>; $b }
            Rep::ObjDesc => { type $T<'a> = ObjectDescriptor<'a>; $b }
        }
    };
}

fn made(rep: Rep, s: &str) -> Res {
    let c = content(rep, s);
    let valid = R::new(true, 0).string(rep, &c).as_deref() == Some(s);
    with_type!(rep, T => {
        let e = model::tlv(0, false, <T as Tagged>::TAG.0, &c);
        let all: [(&str, T); 3] = [("new", T::new(s)), ("from &str", T::from(s)), ("from String", T::from(s.to_string()))];
        for (w, x) in &all {
            same!(x.as_ref(), s, "{w}: as_ref");
            same!(x.string(), s, "{w}: string");
            ensure!(*x == all[0].1, "{w}: equality");
            if valid {
                let mut ex = 0;
                same!(acct_ber(x, false, &mut ex)?.map(|b| hex(&b)), Some(hex(&e)), "{w}: BER");
                same!(acct_der(x, false, &mut ex)?.map(|b| hex(&b)), Some(hex(&e)), "{w}: DER");
            }
        }
        if valid {
            // primitive, one segment, one segment per unit, indefinite
            let unit = match rep { Rep::Bmp => 2, Rep::Universal => 4, _ => 1 };
            let t = <T as Tagged>::TAG.0;
            let one = model::u(4, &c);
            let each: Vec<u8> = c.chunks(unit).flat_map(|x| model::u(4, x)).collect();
            let by1: Vec<u8> = c.chunks(1).flat_map(|x| model::u(4, x)).collect();
            let forms = [e.clone(), model::tlv(0, true, t, &one), model::tlv(0, true, t, &each), model::tlv(0, true, t, &by1), model::indef(0, t, &one), model::indef(0, t, &each)];
            for (k, f) in forms.iter().enumerate() {
                if c.len() > 400 && k > 1 { break }
                let (rem, x) = T::from_ber(f).map_err(|e| format!("form {k} is refused: {e:?}"))?;
                same!((rem.len(), x.as_ref()), (0, s), "form {k}");
                same!(x.string(), s, "form {k}: string");
                ensure!(x == all[0].1 && x == all[2].1, "form {k}: not equal to the value made from the same text");
                let d = <T as FromDer>::from_der(f);
                same!(d.map(|d| d.1.string()).ok(), if k == 0 { Some(s.to_string()) } else { None }, "form {k}, DER");
            }
        }
    });
    with_shared!(rep, T => {
        same!(T::new(s).as_raw_str(), Some(s), "as_raw_str");
        same!(T::new(s).as_raw_str().map(|x| x.as_ptr()), Some(s.as_ptr()), "as_raw_str: shared text");
        same!(T::from(s).as_raw_str(), Some(s), "as_raw_str, from &str");
        same!(T::from(s.to_string()).as_raw_str(), None, "as_raw_str, from String");
        if valid {
            let t = <T as Tagged>::TAG.0;
            let e = model::tlv(0, false, t, &c);
            // outlives the decoded value
            let x: Option<&str> = { let (_, x) = T::from_der(&e).map_err(|e| format!("{e:?}"))?; x.as_raw_str() };
            same!(x, Some(s), "as_raw_str, decoded");
            same!(x.map(|x| x.as_ptr() as usize - e.as_ptr() as usize), Some(e.len() - c.len()), "as_raw_str, decoded: position in the input");
            let e = model::tlv(0, true, t, &model::u(4, &c));
            let (_, x) = T::from_ber(&e).map_err(|e| format!("{e:?}"))?;
            if let Some(x) = x.as_raw_str() { same!(x, s, "as_raw_str, segmented") }
        }
    });
    Ok(())
}

fn repertoire(rep: Rep, c: &[u8]) -> Res {
    let want = R::new(true, 0).string(rep, c);
    if rep != Rep::Universal {
        macro_rules! tv { ($($r:ident $t:ident)*) => { match rep { $(Rep::$r => <$t as TestValidCharset>::test_valid_charset(c),)* _ => unreachable!() } } }
        let got = tv! { Utf8 Utf8String Numeric NumericString Printable PrintableString Teletex TeletexString Videotex VideotexString Ia5 Ia5String Graphic GraphicString Visible VisibleString General GeneralString ObjDesc ObjectDescriptor Bmp BmpString };
        same!(got.is_ok(), want.is_some(), "test_valid_charset");
        if let Err(e) = got {
            same!(e, Error::StringInvalidCharset, "test_valid_charset");
        }
    }
    with_type!(rep, T => {
        let e = model::tlv(0, false, <T as Tagged>::TAG.0, c);
        same!(T::from_der(&e).ok().map(|x| x.1.string()), want, "DER");
        same!(T::from_ber(&e).ok().map(|x| x.1.string()), want, "BER");
    });
    Ok(())
}

fn name(rep: Rep) -> String {
    format!("{rep:?}")
}

pub fn run(ctx: &Ctx) {
    let t = ctx.thorough;
    ctx.section("strings made with constructors", || {
        let mut chars: Vec<char> = (0..=0x17fu32).chain([0x7fe, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0x20ac, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x1f600, 0x3ffff, 0xffffe, 0x100000, 0x10fffe, 0x10ffff]).filter_map(char::from_u32).collect();
        chars.dedup();
        let mut all: Vec<String> = vec![String::new()];
        all.extend(chars.iter().map(|c| c.to_string()));
        let few: Vec<char> = "\0 '\u{1f}*09AZaz~\u{7f}\u{80}\u{ff}\u{7ff}\u{800}\u{d7ff}\u{ffff}\u{10000}\u{10ffff}".chars().collect();
        let tiny: Vec<char> = "0a \u{e9}\u{20ac}\u{1f600}".chars().collect();
        for a in &few {
            for b in &few {
                all.push([*a, *b].iter().collect());
            }
        }
        let mut lv: Vec<String> = tiny.iter().map(|c| c.to_string()).collect();
        for _ in 0..if t { 5 } else { 3 } {
            lv = lv.iter().flat_map(|s| tiny.iter().map(move |c| format!("{s}{c}"))).collect();
            all.extend(lv.iter().cloned());
        }
        for n in (0..=if t { 600 } else { 300 }).chain([65534, 65535, 65536]) {
            all.push("0".repeat(n));
            if n < 200 {
                all.push("\u{20ac}".repeat(n));
            }
        }
        ctx.par(&all, |s| {
            for rep in REPS {
                ctx.check("strings", &|| format!("{} {}", name(rep), if s.len() > 60 { format!("{} x {:?}", s.chars().count(), s.chars().next()) } else { format!("{s:?}") }), || made(rep, s));
            }
        });
    });
    ctx.section("repertoires", || {
        let mut all: Vec<Vec<u8>> = vec![vec![]];
        for a in 0..=255u8 {
            all.push(vec![a]);
            for b in 0..=255u8 {
                all.push(vec![a, b]);
            }
        }
        let alpha: &[u8] = &[0x00, 0x20, 0x39, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc1, 0xc2, 0xd7, 0xd8, 0xdb, 0xdc, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff];
        for l in [3, 4] {
            if l == 3 || t {
                crate::gen::strings(&[], alpha, l, &mut |b| all.push(b.to_vec()));
            }
        }
        let small: &[u8] = &[0x00, 0x01, 0x10, 0x11, 0x7f, 0x80, 0xd7, 0xd8, 0xdb, 0xdc, 0xdf, 0xe0, 0xf0, 0x90, 0xff];
        crate::gen::strings(&[], small, 4, &mut |b| all.push(b.to_vec()));
        crate::gen::strings(&[], if t { &[0x00, 0x30, 0x41, 0x10, 0xd8, 0xdc, 0xff] } else { &[0x00, 0x30, 0xd8, 0xdc] }, 6, &mut |b| all.push(b.to_vec()));
        ctx.par(&all, |c| {
            for rep in REPS {
                ctx.check("repertoires", &|| format!("{} {}", name(rep), hex(c)), || repertoire(rep, c));
            }
        });
    });
}
