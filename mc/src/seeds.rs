//! Directed inputs per schema: representative encodings and exhaustive value grids.
use crate::gen::*;
use crate::model::*;
use crate::types::*;

/// definite, primitive content -> element of type ty
pub fn wrap(ty: &Ty, cons: bool, content: &[u8]) -> Vec<u8> {
    let (c, t) = ident(ty);
    tlv(c, cons, t, content)
}

fn int_contents(signed: bool, bits: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [0i128, 1, 127, 128, 255, 256, -1, -128, -129].iter().map(|i| int_content(*i)).collect();
    let n = bits / 8;
    if signed {
        let mut m = vec![0xff; n];
        m[0] = 0x7f;
        v.push(m);
        let mut m = vec![0; n];
        m[0] = 0x80;
        v.push(m);
        let mut m = vec![0; n + 1];
        m[1] = 0x80;
        v.push(m);
    } else {
        let mut m = vec![0xff; n + 1];
        m[0] = 0;
        v.push(m);
        let mut m = vec![0; n + 1];
        m[0] = 1;
        v.push(m);
        let mut m = vec![0xff; n];
        m[0] = 0x7f;
        v.push(m);
    }
    v
}

/// contents (constructed?, octets) worth starting from
pub fn contents(ty: &Ty) -> Vec<(bool, Vec<u8>)> {
    let p = |v: Vec<Vec<u8>>| -> Vec<(bool, Vec<u8>)> { v.into_iter().map(|c| (false, c)).collect() };
    let s = |v: &[&[u8]]| -> Vec<(bool, Vec<u8>)> { v.iter().map(|c| (false, c.to_vec())).collect() };
    match ty {
        Ty::Any | Ty::Header => {
            let mut v = s(&[b"", b"\x01\x02\x03"]);
            v.push((true, u(5, b"")));
            v.push((true, cat(&[u(2, b"\x01"), seq(&[u(5, b"")])])));
            v
        }
        Ty::Boolean | Ty::Bool => s(&[&[0], &[0xff], &[1]]),
        Ty::Null | Ty::Eoc => s(&[&[]]),
        Ty::Enum => p(int_contents(false, 32)),
        Ty::EnumOf(v) => p(v.iter().map(|x| int_content(*x as i128)).collect()),
        Ty::Int(s, b) => p(int_contents(*s, *b)),
        Ty::BigInt | Ty::BigUint => p(int_contents(true, 144)),
        Ty::Oct => {
            let mut v = s(&[b"", b"\x01", b"\x01\x02\x03"]);
            v.push((true, cat(&[u(4, b"\x01\x02"), u(4, b"\x03")])));
            v.push((true, cat(&[u(4, b""), indef(0, 4, &u(4, b"\x03"))])));
            v
        }
        Ty::OctRef => s(&[b"", b"\x01", b"\x01\x02\x03"]),
        Ty::Bits => {
            let mut v = s(&[b"\x00", b"\x00\xa5", b"\x03\xa8", b"\x07\x80", b"\x04\x01\xf0", b"\x03\xaf"]);
            v.push((true, cat(&[u(3, b"\x00\x81"), u(3, b"\x04\xf0")])));
            v
        }
        Ty::Str(rep) => {
            let mut v = match rep {
                Rep::Utf8 => s(&[b"", b"a", b"h\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80"]),
                Rep::Numeric => s(&[b"", b"1", b"12 45"]),
                Rep::Bmp => s(&[b"", b"\x00a", b"\x00a\x20\xac", b"\xd8\x3d\xde\x00\x00b"]),
                Rep::Universal => s(&[b"", b"\x00\x00\x00a", b"\x00\x01\xf6\x00\x00\x00\x20\xac"]),
                _ => s(&[b"", b"A", b"abc 09"]),
            };
            match rep {
                Rep::Bmp => {
                    v.push((true, cat(&[u(4, b"\x00a\x20"), u(4, b"\xac")])));
                    v.push((true, cat(&[u(4, b"\x00a"), u(4, b"\x00b")])));
                }
                Rep::Universal => v.push((true, cat(&[u(4, b"\x00\x00\x00a\x00"), u(4, b"\x00\x20\xac")]))),
                Rep::Utf8 => v.push((true, cat(&[u(4, b"\xc3"), u(4, b"\xa9")]))),
                _ => v.push((true, cat(&[u(4, b"12"), u(4, b"3")]))),
            }
            v
        }
        Ty::StrRef => s(&[b"", b"a", b"h\xc3\xa9"]),
        Ty::Oid => p(vec![
            arcs_content(&[0]),
            arcs_content(&[42, 3, 4]),
            arcs_content(&[42, 840, 113549, 1]),
            arcs_content(&[80 + 999, 3]),
            arcs_content(&[1, u64::MAX as u128]),
            arcs_content(&[1, u64::MAX as u128 + 1]),
        ]),
        Ty::RelOid => p(vec![arcs_content(&[8571, 3, 2]), arcs_content(&[0]), arcs_content(&[1, u64::MAX as u128 + 1])]),
        Ty::Real | Ty::F32 => s(&[
            b"",
            b"\x40",
            b"\x41",
            b"\x42",
            b"\x43",
            b"\x80\x00\x01",
            b"\x80\x02\x01",
            b"\xc0\xff\x03",
            b"\x94\xff\x0d",
            b"\xa0\xfe\x01",
            b"\x8d\x00\x05",
            b"\x81\x03\xff\x01",
            b"\x82\x00\x80\x00\x01",
            b"\x83\x01\x02\x03",
            b"\x83\x02\x00\x80\x03",
            b"\x80\xcd\x0f\xff\xff\xff\xff\xff\xff",
            b"\x80\x00\xff\xff\xff\xff\xff\xff\xff\xff",
            b"\x01123",
            b"\x01-7",
            b"\x01+7",
            b"\x01 42",
            b"\x021.5",
            b"\x02-0,25",
            b"\x03314E-2",
            b"\x03314.E-2",
            b"\x031.E+0",
            b"\x03-15.E2",
            b"\x032.5e+3",
        ]),
        Ty::Utc => s(&[b"990228235959Z", b"0001010000Z", b"491231235959+0130", b"5001010203-1200", b"000229120000Z"]),
        Ty::Gen => s(&[
            b"20240229235959Z",
            b"19700101000000.5Z",
            b"20231231235959.123+0530",
            b"20231231235959,12-0030",
            b"20231231235959",
            b"202312312359Z",
            b"2023123123",
            b"00010101000000.001Z",
            b"99991231235959.999-2359",
        ]),
        Ty::Pdv => {
            let id = |n: u32, c: &[u8]| tlv(2, true, 0, &tlv(2, n == 0 || n == 3, n, c));
            let d = tlv(2, false, 1, b"desc");
            let v = tlv(2, false, 2, b"\x0a\x0b");
            let mut o = vec![];
            for i in [
                id(0, &[tlv(2, false, 0, b"\x2a\x03"), tlv(2, false, 1, b"\x2a\x04")].concat()),
                id(1, b"\x2a\x03"),
                id(2, b"\x05"),
                id(3, &[tlv(2, false, 0, b"\x2a"), tlv(2, false, 1, b"\x2a\x04")].concat()),
                id(4, b"\x2a\x03"),
                id(5, b""),
            ] {
                o.push((true, cat(&[i.clone(), v.clone()])));
                o.push((true, cat(&[i, d.clone(), v.clone()])));
            }
            o
        }
        Ty::SeqRaw | Ty::SetRaw => vec![(true, vec![]), (true, u(5, b"")), (true, cat(&[u(2, b"\x01"), u(1, b"\xff"), seq(&[u(5, b"")])])), (true, b"\x02".to_vec())],
        Ty::SeqOf(t, _) | Ty::SetOf(t, _) => {
            let mut e = good(t);
            e.truncate(4);
            let mut v = vec![(true, vec![])];
            for i in 0..e.len() {
                v.push((true, e[i].clone()));
                for j in 0..e.len() {
                    v.push((true, cat(&[e[i].clone(), e[j].clone()])));
                }
            }
            if e.len() > 1 {
                let mut x = e.clone();
                v.push((true, x.concat()));
                x.sort();
                v.push((true, x.concat()));
            }
            v
        }
        Ty::Arr(t, n) => {
            let e = good(t);
            (0..n + 2).map(|k| (true, (0..k).map(|i| e[i % e.len()].clone()).collect::<Vec<_>>().concat())).collect()
        }
        Ty::Tuple(ts) => product(ts.iter().map(|t| (t.clone(), FieldMode::Plain)).collect()),
        Ty::Struct(fs) | Ty::StructSet(fs) => product(fs.clone()),
        Ty::Expl(_, _, t) | Ty::TaggedAnyExpl(t) => {
            let mut v: Vec<(bool, Vec<u8>)> = good(t).into_iter().take(5).map(|e| (true, e)).collect();
            let e = good(t);
            v.push((true, cat(&[e[0].clone(), e[0].clone()])));
            v
        }
        Ty::Impl(_, _, t) | Ty::TaggedAnyImpl(t) => contents(t),
        Ty::Opt(t) | Ty::As(_, t) | Ty::Wrap(t) | Ty::BerIn(t) | Ty::AsInput(t) | Ty::OptTagged(_, _, _, t) => contents(t),
        Ty::Choice(ts) => contents(&ts[0]),
    }
}

fn product(fs: Vec<(Ty, FieldMode)>) -> Vec<(bool, Vec<u8>)> {
    let mut acc: Vec<Vec<u8>> = vec![vec![]];
    for (t, m) in fs {
        let g = good(&t);
        let mut opts: Vec<Vec<u8>> = g.into_iter().take(3).collect();
        if m != FieldMode::Plain {
            opts.truncate(2);
            opts.push(vec![]);
        }
        if let FieldMode::Default(d) = &m {
            if let Some(e) = encode(&t, d, false) {
                opts.push(e);
            }
        }
        let cap = 48;
        let mut next = vec![];
        for (i, o) in opts.iter().enumerate() {
            for a in &acc {
                if next.len() < cap || i == 0 {
                    next.push([&a[..], &o[..]].concat());
                }
            }
        }
        // keep the product bounded: always keep variation in the last fields
        if next.len() > cap {
            let k = next.len() / cap + 1;
            next = next.into_iter().enumerate().filter(|(i, _)| i % k == 0).map(|x| x.1).collect();
        }
        acc = next;
    }
    acc.into_iter().map(|c| (true, c)).collect()
}

/// complete encodings the model accepts (BER rules)
pub fn good(ty: &Ty) -> Vec<Vec<u8>> {
    reps(ty).into_iter().filter(|b| matches!(run(ty, false, 0, b).0, M::Acc{n, ..} if n == b.len())).collect()
}

/// representative encodings, some deliberately wrong
pub fn reps(ty: &Ty) -> Vec<Vec<u8>> {
    let mut v = vec![];
    match ty {
        Ty::Choice(ts) => {
            for t in ts {
                v.extend(reps(t));
            }
            return v;
        }
        Ty::Opt(t) => {
            v = reps(t);
            v.push(vec![]);
            v.push(u(5, b""));
            return v;
        }
        Ty::As(_, t) | Ty::Wrap(t) | Ty::BerIn(t) | Ty::AsInput(t) => return reps(t),
        Ty::OptTagged(e, c, g, t) => {
            v = reps(&if *e { Ty::Expl(*c, *g, t.clone()) } else { Ty::Impl(*c, *g, t.clone()) });
            v.push(vec![]);
            v.push(u(5, b""));
            return v;
        }
        Ty::Any => {
            for (c, t) in [(0, 2), (0, 4), (0, 12), (1, 3), (2, 0), (2, 31), (3, 1000), (0, 30)] {
                v.push(tlv(c, false, t, b""));
                v.push(tlv(c, false, t, b"\x01\x02"));
                v.push(tlv(c, true, t, &u(5, b"")));
                v.push(indef(c, t, &u(5, b"")));
            }
            v.push(indef(0, 16, &indef(0, 17, &indef(2, 0, &u(5, b"")))));
            return v;
        }
        Ty::Header => {
            for t in [0u32, 2, 30, 31, 127, 128, 16383, 16384, u32::MAX] {
                for cl in 0..4u8 {
                    for cons in [false, true] {
                        for l in [0usize, 1, 127, 128, 255, 256, 65535, 65536, 0xff_ffff, 0x100_0000, 0xffff_ffff, 0x1_0000_0000, usize::MAX] {
                            let mut o = vec![];
                            enc_tag(cl, cons, t, &mut o);
                            enc_len(l, &mut o);
                            v.push(o);
                        }
                        let mut o = vec![];
                        enc_tag(cl, cons, t, &mut o);
                        o.push(0x80);
                        v.push(o);
                    }
                }
            }
            return v;
        }
        _ => (),
    }
    let (c, t) = ident(ty);
    for (cons, b) in contents(ty) {
        v.push(tlv(c, cons, t, &b));
        if cons {
            v.push(indef(c, t, &b));
        }
    }
    v
}

/// inputs checked as they are (no further deviation): exhaustive short contents and value grids
pub fn grid(ty: &Ty, thorough: bool, out: &mut dyn FnMut(Vec<u8>)) {
    let oct = all_octets();
    match ty {
        Ty::Choice(ts) => {
            for t in ts {
                grid(t, thorough, out);
            }
            return;
        }
        Ty::Opt(t) | Ty::As(_, t) | Ty::Wrap(t) | Ty::BerIn(t) | Ty::AsInput(t) | Ty::OptTagged(_, _, _, t) => return grid(t, thorough, out),
        Ty::Header => {
            // every identifier octet and length octet, with boundary continuations
            for a in 0..=255u8 {
                for b in 0..=255u8 {
                    out(vec![a, b]);
                    for t in [&[0u8][..], &[0x7f], &[0x80], &[1, 0], &[0, 0x80], &[0x1f, 0x05], &[0x81, 0x80], &[0xff, 0xff, 0xff, 0xff], &[0x80, 0, 0, 0, 0, 0, 0, 0], &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]] {
                        let mut v = vec![a, b];
                        v.extend_from_slice(t);
                        out(v);
                    }
                }
            }
            return;
        }
        _ => (),
    }
    let (c, t) = ident(ty);
    let mut put = |cons: bool, cc: &[u8]| out(tlv(c, cons, t, cc));
    // all contents of up to two octets, in both forms
    for cons in [false, true] {
        put(cons, &[]);
        for &a in &oct {
            put(cons, &[a]);
            for &b in &oct {
                put(cons, &[a, b]);
            }
        }
    }
    let alpha: &[u8] = match ty {
        Ty::Str(_) | Ty::StrRef => &[0x00, 0x20, 0x2f, 0x39, 0x41, 0x7e, 0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc1, 0xc2, 0xd7, 0xd8, 0xdc, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff],
        Ty::Real | Ty::F32 => &[0x00, 0x01, 0x02, 0x03, 0x04, 0x08, 0x20, 0x2b, 0x2d, 0x2e, 0x30, 0x31, 0x39, 0x40, 0x41, 0x45, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x90, 0xa0, 0xb0, 0xc0, 0xff],
        _ => &[0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x07, 0x08, 0x20, 0x24, 0x28, 0x30, 0x31, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xa0, 0xbf, 0xc0, 0xe0, 0xfe, 0xff],
    };
    let k = if thorough { 4 } else { 3 };
    let cons = matches!(ty, Ty::SeqRaw | Ty::SetRaw | Ty::SeqOf(..) | Ty::SetOf(..) | Ty::Arr(..) | Ty::Tuple(..) | Ty::Struct(..) | Ty::StructSet(..) | Ty::Expl(..) | Ty::TaggedAnyExpl(_));
    for l in 3..=k {
        strings(&[], alpha, l, &mut |b| put(cons, b));
    }
    if thorough && !cons {
        for &a in &oct {
            for &b in &oct {
                for &c in &oct {
                    put(false, &[a, b, c]);
                }
            }
        }
    }
    // lengths around every boundary of the length octets
    for l in [126usize, 127, 128, 129, 255, 256, 257, 65535, 65536, 65537] {
        for fill in [0x31u8, 0x00, 0x80] {
            let mut v = vec![fill; l];
            if let Ty::Bits = ty {
                v[0] = 0;
            }
            put(false, &v);
        }
    }
    specific(ty, thorough, &mut put);
}

fn specific(ty: &Ty, thorough: bool, put: &mut dyn FnMut(bool, &[u8])) {
    match ty {
        Ty::Impl(_, _, t) | Ty::TaggedAnyImpl(t) => specific(t, thorough, put),
        Ty::Int(..) | Ty::BigInt | Ty::BigUint | Ty::Enum | Ty::EnumOf(_) => {
            // +-2^k and neighbours, minimal and padded
            for k in 0..=136usize {
                let mut b = vec![0u8; k / 8 + 2];
                let n = b.len();
                b[n - 1 - k / 8] |= 1 << (k % 8);
                for d in [-2i32, -1, 0, 1, 2] {
                    for neg in [false, true] {
                        let mut x = add(&b, d);
                        if neg {
                            x = negate(&x);
                        }
                        let m = crate::v::min_int(&x);
                        put(false, &m);
                        for pad in 1..3 {
                            let f = if m[0] & 0x80 != 0 { 0xff } else { 0 };
                            let mut y = vec![f; pad];
                            y.extend(&m);
                            put(false, &y);
                        }
                    }
                }
            }
            // every length 0..20 with leading 00 / ff / 7f / 80 octets
            for l in 1..20usize {
                for a in [0u8, 1, 0x7f, 0x80, 0xfe, 0xff] {
                    for b in [0u8, 0x7f, 0x80, 0xff] {
                        let mut v = vec![b; l];
                        v[0] = a;
                        put(false, &v);
                        if l > 1 {
                            v[1] = !b;
                            put(false, &v);
                        }
                    }
                }
            }
        }
        Ty::Oid | Ty::RelOid => {
            let vals: Vec<u128> = {
                let mut v = vec![0u128, 1, 39, 40, 79, 80, 81, 119, 120, 127, 128, 129, 255, 256, 16383, 16384, 2097151, 2097152];
                for k in [31, 32, 33, 63, 64, 65, 70, 77] {
                    for d in [-1i128, 0, 1] {
                        v.push(((1i128 << k) + d) as u128);
                    }
                }
                v
            };
            for a in 0..300u128 {
                put(false, &arcs_content(&[a]));
            }
            for a in &vals {
                for b in &vals {
                    put(false, &arcs_content(&[*a, *b]));
                    put(false, &arcs_content(&[*a, *b, 5]));
                    put(false, &arcs_content(&[3, *a, *b]));
                    let mut x = arcs_content(&[*a, *b]);
                    let l = x.len() - 1;
                    x[l] |= 0x80;
                    put(false, &x);
                    let mut y = arcs_content(&[*a]);
                    y.push(0x80);
                    y.extend(arcs_content(&[*b]));
                    put(false, &y);
                }
            }
        }
        Ty::Str(Rep::Utf8) | Ty::StrRef => {
            // every lead octet with boundary continuations
            let cont = [0x00u8, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff];
            for a in 0x7f..=255u8 {
                for &b in &cont {
                    for &c in &cont {
                        put(false, &[a, b, c]);
                        for &d in &cont {
                            put(false, &[a, b, c, d]);
                            put(false, &[0x41, a, b, c, d]);
                        }
                    }
                }
            }
        }
        Ty::Str(Rep::Bmp) => {
            let e = [0u16, 0x41, 0x7f, 0x80, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff];
            for a in e {
                for b in e {
                    let v = [a.to_be_bytes(), b.to_be_bytes()].concat();
                    put(false, &v);
                    for c in e {
                        put(false, &[&v[..], &c.to_be_bytes()].concat());
                    }
                }
            }
        }
        Ty::Str(Rep::Universal) => {
            let e = [0u32, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1000041, 0x7fffffff, 0x80000041, 0xffffffff];
            for a in e {
                put(false, &a.to_be_bytes());
                for b in e {
                    put(false, &[a.to_be_bytes(), b.to_be_bytes()].concat());
                }
            }
        }
        Ty::Str(_) => {
            for x in 0..=255u8 {
                for i in 0..4 {
                    let mut v = *b"1231";
                    v[i] = x;
                    put(false, &v);
                }
                put(true, &cat(&[u(4, b"1"), u(4, &[x])]));
                put(true, &cat(&[u(4, &[x]), u(4, b"1")]));
            }
        }
        Ty::Bits => {
            for un in 0..=9u8 {
                for l in 0..4usize {
                    for last in 0..=255u8 {
                        let mut v = vec![un];
                        v.extend(vec![0xa5; l]);
                        v.push(last);
                        put(false, &v);
                    }
                }
            }
        }
        Ty::Real | Ty::F32 => {
            // every first octet, with every boundary exponent and mantissa
            let exps: Vec<Vec<u8>> = {
                let mut v = vec![];
                for e in [-40000i128, -32769, -32768, -32767, -1100, -1075, -1074, -1073, -1023, -1022, -540, -360, -300, -269, -129, -128, -127, -65, -5, -1, 0, 1, 5, 63, 64, 127, 128, 129, 240, 255, 256, 257, 341, 500, 970, 971, 972, 1022, 1023, 1024, 1025, 32767, 32768, 32769, 40000, 8388607, 8388608, 2147483647, 2147483648] {
                    v.push(int_content(e));
                }
                v
            };
            let mants: Vec<Vec<u8>> = vec![
                vec![],
                vec![0],
                vec![1],
                vec![2],
                vec![3],
                vec![0, 1],
                vec![0xff],
                vec![1, 0],
                vec![0x1f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
                vec![0x20, 0, 0, 0, 0, 0, 1],
                vec![0x3f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
                vec![0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
                vec![0x80, 0, 0, 0, 0, 0, 0, 0],
                vec![0xff; 8],
                vec![1, 0, 0, 0, 0, 0, 0, 0, 0],
                vec![0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
            ];
            for b0 in 0x80..=255u8 {
                for e in &exps {
                    for m in &mants {
                        let mut v = vec![b0];
                        // natural placement, whatever b0 says about its length
                        let want = (b0 & 3) as usize + 1;
                        if want < 4 {
                            if e.len() > want {
                                continue;
                            }
                            let f = if e[0] & 0x80 != 0 { 0xff } else { 0 };
                            v.extend(vec![f; want - e.len()]);
                        } else {
                            v.push(e.len() as u8);
                        }
                        v.extend(e);
                        v.extend(m);
                        put(false, &v);
                    }
                }
            }
            // long exponent lengths
            for l in [0u8, 1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 127, 128, 255] {
                for f in [0u8, 1, 0x7f, 0x80, 0xff] {
                    let mut v = vec![0x83, l];
                    v.extend(vec![f; l as usize]);
                    v.push(1);
                    put(false, &v);
                    let mut v = vec![0x83, l];
                    v.extend(vec![0; l as usize]);
                    if l > 0 {
                        v[1 + l as usize] = f & 0x3f;
                    }
                    v.push(3);
                    put(false, &v);
                }
            }
            // decimal: every form under every first octet
            for b0 in 0..0x80u8 {
                for t in ["", "0", "1", "-1", "+1", " 1", "1 ", "-", "+", ".", "1.", ".5", "1.5", "-1.5", "1,5", "1.5E", "1E2", "1e2", "1.5E+2", "1.5E-2", "15.E-1", "-15.E1", "10.E0", "01.E1", "1.E+0", "1.E0", "1.E400", "1.E-400", "nan", "inf", "-inf", "infinity", "NaN", "1_0", "0x10", "1E1.5", "\u{e9}", "1E+", "--1", "1..2", "1.2.3", "1.E-0", "123456789012345678901234567890"] {
                    let mut v = vec![b0];
                    v.extend_from_slice(t.as_bytes());
                    put(false, &v);
                }
            }
            let alpha: &[u8] = b"+-.,0159eE ";
            for b0 in 1..=3u8 {
                for l in 1..=(if thorough { 5 } else { 4 }) {
                    strings(&[b0], alpha, l, &mut |b| put(false, b));
                }
            }
        }
        Ty::Utc => {
            time_grid(b"991231235959", b"Z", put);
            time_grid(b"000229235959", b"+0530", put);
            time_grid(b"0001010000", b"Z", put);
            time_grid(b"5006300000", b"-0030", put);
            for y in 0..100 {
                for md in ["0229", "0228", "0230", "0331", "0431", "1131"] {
                    put(false, format!("{y:02}{md}000000Z").as_bytes());
                }
            }
            offsets(b"9912312359", put);
            offsets(b"991231235959", put);
            suffixes(b"9912312359", put);
            suffixes(b"991231235959", put);
            tail_strings(b"99123123", thorough, put);
        }
        Ty::Gen => {
            for tz in [&b"Z"[..], b"", b"+0530", b"-0030"] {
                time_grid(b"20231231235959", tz, put);
                time_grid(b"202312312359", tz, put);
                time_grid(b"2023123123", tz, put);
                time_grid(b"20240229235959.123", tz, put);
                for f in 0..1000 {
                    put(false, &[format!("20231231235959.{f:03}").as_bytes(), tz].concat());
                    if f < 100 {
                        put(false, &[format!("20231231235959.{f:02}").as_bytes(), tz].concat());
                        put(false, &[format!("20231231235959,{f:02}").as_bytes(), tz].concat());
                        put(false, &[format!("20231231235959.{f:04}").as_bytes(), tz].concat());
                        put(false, &[format!("20231231235959.1{f:04}").as_bytes(), tz].concat());
                    }
                    if f < 10 {
                        put(false, &[format!("20231231235959.{f}").as_bytes(), tz].concat());
                        put(false, &[format!("202312312359.{f}").as_bytes(), tz].concat());
                        put(false, &[format!("2023123123.{f}").as_bytes(), tz].concat());
                    }
                }
            }
            for y in [0u32, 1, 4, 99, 100, 400, 1582, 1600, 1700, 1899, 1900, 1950, 1999, 2000, 2023, 2024, 2049, 2050, 2100, 2400, 9999] {
                for md in ["0229", "0228", "0230", "0331", "0431", "0631", "0931", "1131", "1231", "0101"] {
                    put(false, format!("{y:04}{md}000000Z").as_bytes());
                    put(false, format!("{y:04}{md}235959.999Z").as_bytes());
                }
            }
            for base in [&b"20231231235959"[..], b"20231231235959.5", b"202312312359", b"2023123123"] {
                offsets(base, put);
                suffixes(base, put);
            }
            tail_strings(b"2023123123", thorough, put);
            tail_strings(b"202312312359", thorough, put);
            tail_strings(b"20231231235959", thorough, put);
        }
        _ => (),
    }
}

/// every value 00..99 in every two-digit group, every octet in every position
fn time_grid(base: &[u8], tz: &[u8], put: &mut dyn FnMut(bool, &[u8])) {
    let digits = base.iter().take_while(|c| c.is_ascii_digit()).count();
    for p in (0..digits - 1).step_by(2) {
        for x in 0..100u8 {
            let mut v = base.to_vec();
            v[p] = b'0' + x / 10;
            v[p + 1] = b'0' + x % 10;
            v.extend_from_slice(tz);
            put(false, &v);
        }
    }
    let mut full = base.to_vec();
    full.extend_from_slice(tz);
    for p in 0..full.len() {
        for x in 0..=255u8 {
            let mut v = full.clone();
            v[p] = x;
            put(false, &v);
        }
    }
}

fn offsets(base: &[u8], put: &mut dyn FnMut(bool, &[u8])) {
    for s in ["+", "-"] {
        for h in 0..100 {
            for m in [0, 1, 29, 30, 45, 59, 60, 61, 99] {
                put(false, &[base, format!("{s}{h:02}{m:02}").as_bytes()].concat());
            }
        }
        for m in 0..100 {
            put(false, &[base, format!("{s}00{m:02}").as_bytes()].concat());
        }
    }
}

fn suffixes(base: &[u8], put: &mut dyn FnMut(bool, &[u8])) {
    for s in ["", "Z", "z", "ZZ", "Z0", "+", "+0", "+00", "+000", "+00000", "+00:00", "-Z", "+0000Z", " Z", "+ 100", "+-100", "++100", "+1 00", "\0", ".", ".Z", ".5", ".5Z", ",5Z", ".5+0100", ".-5Z", ".+5Z", ". 5Z", ".5.5Z", "5", "55", "555", "5Z", "55Z", "Z+0100", "\u{e9}Z"] {
        put(false, &[base, s.as_bytes()].concat());
    }
}

fn tail_strings(base: &[u8], thorough: bool, put: &mut dyn FnMut(bool, &[u8])) {
    for l in 0..=(if thorough { 6 } else { 5 }) {
        strings(base, b"05Z+-.", l, &mut |b| put(false, b));
    }
}

fn add(b: &[u8], d: i32) -> Vec<u8> {
    let mut v = b.to_vec();
    let mut c = d;
    for x in v.iter_mut().rev() {
        let s = *x as i32 + c;
        *x = s.rem_euclid(256) as u8;
        c = s.div_euclid(256);
    }
    v
}

fn negate(b: &[u8]) -> Vec<u8> {
    let inv: Vec<u8> = b.iter().map(|x| !x).collect();
    add(&inv, 1)
}
