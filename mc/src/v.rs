//! Normal form of decoded values: one vocabulary shared by the reference model
//! and by the implementation under test.

#[derive(Clone, Debug)]
pub struct Fl(pub f64, pub f64); // value, relative tolerance

impl PartialEq for Fl {
    fn eq(&self, o: &Fl) -> bool {
        let (a, b) = (self.0, o.0);
        if a.is_nan() || b.is_nan() {
            return a.is_nan() && b.is_nan();
        }
        if a == b {
            return true;
        }
        if a.is_infinite() || b.is_infinite() {
            return false;
        }
        let tol = self.1.max(o.1);
        let d = (a - b).abs();
        // results below the normal range are rounded to a fixed grid
        if (tol > 0.0 && d <= 1e-323) || (tol > 1e-7 && d <= 3e-45) {
            return true;
        }
        d <= tol * a.abs().max(b.abs())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Unit,
    Bool(bool),
    Byte(u8),
    /// minimal two's complement, big endian
    Int(Vec<u8>),
    /// bit length, octets (unused bits cleared)
    Bits(usize, Vec<u8>),
    Bytes(Vec<u8>),
    Str(String),
    /// relative?, raw content
    Oid(bool, Vec<u8>),
    F(Fl),
    /// year month day hour minute second ms tz
    Time(u32, u8, u8, u8, u8, u8, Option<u16>, Tz),
    Hdr { class: u8, cons: bool, tag: u32, len: Option<usize> },
    Any { class: u8, cons: bool, tag: u32, indef: bool, content: Vec<u8> },
    List(Vec<V>),
    /// order-insensitive, duplicate free (canonically sorted by Debug text)
    Set(Vec<V>),
    None,
    Some(Box<V>),
    Alt(u32, Box<V>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tz {
    Undef,
    Z,
    /// total offset in minutes
    Off(i32),
}

impl V {
    /// in no particular order
    pub fn bag(mut items: Vec<V>) -> V {
        items.sort_by_key(|v| format!("{v:?}"));
        V::Set(items)
    }
    pub fn set(mut items: Vec<V>) -> V {
        items.sort_by_key(|v| format!("{v:?}"));
        items.dedup();
        V::Set(items)
    }
}

/// minimal two's complement form of a non-empty two's complement octet string
pub fn min_int(b: &[u8]) -> Vec<u8> {
    let mut i = 0;
    while i + 1 < b.len() && ((b[i] == 0 && b[i + 1] < 0x80) || (b[i] == 0xff && b[i + 1] >= 0x80)) {
        i += 1;
    }
    b[i..].to_vec()
}

pub fn int_of_i128(i: i128) -> Vec<u8> {
    min_int(&i.to_be_bytes())
}

pub fn int_of_u128(i: u128) -> Vec<u8> {
    let mut v = vec![0u8];
    v.extend_from_slice(&i.to_be_bytes());
    min_int(&v)
}

/// (fits, value) of a minimal two's complement string
pub fn i128_of(b: &[u8]) -> Option<i128> {
    if b.is_empty() || b.len() > 16 {
        return None;
    }
    let mut v: i128 = if b[0] & 0x80 != 0 { -1 } else { 0 };
    for x in b {
        v = (v << 8) | (*x as i128);
    }
    Some(v)
}

pub fn fits(b: &[u8], signed: bool, bits: usize) -> bool {
    // b minimal
    if signed {
        b.len() * 8 <= bits
    } else {
        if b[0] & 0x80 != 0 {
            return false;
        }
        let l = if b[0] == 0 && b.len() > 1 { b.len() - 1 } else { b.len() };
        l * 8 <= bits
    }
}

/// What an entry point of the implementation did with an input.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// consumed, value
    Ok(usize, V),
    /// decoding error; `inc` is true when reported as incomplete data
    Err { inc: bool },
    /// the result is inconsistent in itself (remainder not a suffix, location outside the buffer, ...)
    Broken(String),
    Panic(String),
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i > 400 {
            s.push_str(&format!("..({} octets)", b.len()));
            break;
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let h: Vec<u8> = s.bytes().filter(|c| c.is_ascii_hexdigit()).collect();
    h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}
