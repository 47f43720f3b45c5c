//! Reference models (oracles), written from the documentation of the format and
//! independent of the code of the crate.

/// ILInt decoding of the beginning of a slice.
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum RefInt {
    /// Value and number of bytes used.
    Value(u64, usize),
    Truncated,
    Overflow,
}

pub fn ilint_len_from_header(header: u8) -> usize {
    if header < 248 {
        1
    } else {
        header as usize - 246
    }
}

pub fn ref_ilint_decode(b: &[u8]) -> RefInt {
    if b.is_empty() {
        return RefInt::Truncated;
    }
    if b[0] < 248 {
        return RefInt::Value(b[0] as u64, 1);
    }
    let n = b[0] as usize - 247;
    if b.len() < n + 1 {
        return RefInt::Truncated;
    }
    let mut v: u64 = 0;
    let mut i = 1;
    while i <= n {
        v = (v << 8) | b[i] as u64;
        i += 1;
    }
    if v > u64::MAX - 248 {
        RefInt::Overflow
    } else {
        RefInt::Value(v + 248, n + 1)
    }
}

/// Size of the only documented encoding of `v`.
pub fn ref_ilint_size(v: u64) -> usize {
    if v < 248 {
        return 1;
    }
    let x = v - 248;
    let mut n = 1;
    while n < 8 && (x >> (8 * n)) != 0 {
        n += 1;
    }
    n + 1
}

/// Byte `i` of the only documented encoding of `v`.
pub fn ref_ilint_byte(v: u64, i: usize) -> u8 {
    let n = ref_ilint_size(v);
    if n == 1 {
        return v as u8;
    }
    if i == 0 {
        return (248 + n - 2) as u8;
    }
    ((v - 248) >> (8 * (n - 1 - i))) as u8
}

/// Documented signed mapping: 0, -1, 1, -2, 2... to 0, 1, 2, 3, 4...
pub fn ref_encode_sign(v: i64) -> u64 {
    if v >= 0 {
        (v as u64) * 2
    } else {
        // v = -(k + 1) maps to 2k + 1.
        ((-(v + 1)) as u64) * 2 + 1
    }
}

pub fn ref_decode_sign(u: u64) -> i64 {
    if u % 2 == 0 {
        (u / 2) as i64
    } else {
        -((u / 2) as i64) - 1
    }
}

/// Well-formed UTF-8 (Unicode, table 3-7).
pub fn ref_utf8(b: &[u8]) -> bool {
    let n = b.len();
    let mut i = 0;
    let cont = |i: usize, lo: u8, hi: u8| i < n && b[i] >= lo && b[i] <= hi;
    while i < n {
        let c = b[i];
        if c < 0x80 {
            i += 1;
        } else if c >= 0xC2 && c <= 0xDF {
            if !cont(i + 1, 0x80, 0xBF) {
                return false;
            }
            i += 2;
        } else if c >= 0xE0 && c <= 0xEF {
            let lo = if c == 0xE0 { 0xA0 } else { 0x80 };
            let hi = if c == 0xED { 0x9F } else { 0xBF };
            if !cont(i + 1, lo, hi) || !cont(i + 2, 0x80, 0xBF) {
                return false;
            }
            i += 3;
        } else if c >= 0xF0 && c <= 0xF4 {
            let lo = if c == 0xF0 { 0x90 } else { 0x80 };
            let hi = if c == 0xF4 { 0x8F } else { 0xBF };
            if !cont(i + 1, lo, hi) || !cont(i + 2, 0x80, 0xBF) || !cont(i + 3, 0x80, 0xBF) {
                return false;
            }
            i += 4;
        } else {
            return false;
        }
    }
    true
}

/// The encoding of a value, followed by zeros.
pub fn ref_ilint_bytes(v: u64) -> [u8; 10] {
    let mut ret = [0u8; 10];
    let n = ref_ilint_size(v);
    let mut i = 0;
    while i < 9 {
        if i < n {
            ret[i] = ref_ilint_byte(v, i);
        }
        i += 1;
    }
    ret
}
