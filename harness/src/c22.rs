//! C22: the raw scanner tiles a stream exactly as the decoder reads it.
use crate::kit::*;
use crate::mocks::*;
use crate::refs::*;
use crate::sym::*;
use il2_iltags::io::array::{ByteArrayReader, MemoryReader};
use il2_iltags::io::Reader;
use il2_iltags::tags::raw::*;
use il2_iltags::tags::*;

/// The documented extent of the tag that starts at `b`.
struct Extent {
    id: u64,
    header: u64,
    value: u64,
    /// Bytes of the value that are part of the array (ILInt headers).
    inside: u64,
}

fn implicit_size(id: u64) -> u64 {
    match id {
        0 => 0,
        1 | 2 | 3 => 1,
        4 | 5 => 2,
        6 | 7 | 11 => 4,
        8 | 9 | 12 => 8,
        13 => 16,
        _ => 0,
    }
}

fn ref_extent(b: &[u8]) -> Option<Extent> {
    let (id, n) = match ref_ilint_decode(b) {
        RefInt::Value(id, n) => (id, n),
        _ => return None,
    };
    if id == 15 {
        return None;
    }
    if id == 10 || id == 14 {
        if n >= b.len() {
            return None;
        }
        let value = ilint_len_from_header(b[n]) as u64;
        return Some(Extent { id, header: n as u64, value, inside: 1 });
    }
    if id < 16 {
        return Some(Extent { id, header: n as u64, value: implicit_size(id), inside: 0 });
    }
    match ref_ilint_decode(&b[n..]) {
        RefInt::Value(value, m) => Some(Extent { id, header: (n + m) as u64, value, inside: 0 }),
        _ => None,
    }
}

/// One tag from any stream.
fn one<const N: usize>(heads: [u8; N], total: u64) -> bool {
    let mut r = GapReader::new(heads, total);
    let ret = RawTagScanner::new(&mut r).next_tag();
    let valid = match ref_extent(&heads) {
        Some(e) => match e.header.checked_add(e.value) {
            Some(end) => {
                let fits = end <= total;
                assert!(ret.is_ok() == fits);
                if let Ok(Some(t)) = &ret {
                    assert!(t.id() == e.id);
                    assert!(t.offset() == 0);
                    assert!(t.value_offset() == e.header);
                    assert!(t.value_size() == e.value);
                    assert!(t.size() == end);
                    assert!(t.next_tag_offset() == end);
                    assert!(r.pos == end);
                    assert!(r.used as u64 == e.header + e.inside);
                } else {
                    assert!(!fits);
                }
                fits
            }
            None => {
                assert!(ret.is_err());
                false
            }
        },
        None => {
            assert!(ret.is_err());
            false
        }
    };
    leak(ret);
    valid
}

/// Two tags in a row.
fn two<const N: usize>(heads: [u8; N], total: u64) -> bool {
    let mut r = GapReader::new(heads, total);
    let mut s = RawTagScanner::new(&mut r);
    let a = s.next_tag();
    let mut done = false;
    if let Ok(Some(a)) = &a {
        let b = s.next_tag();
        let first = match ref_extent(&heads) {
            Some(e) => e,
            None => unreachable!(),
        };
        let end = a.next_tag_offset();
        let second = ref_extent(&heads[(first.header + first.inside) as usize..]);
        let fits = match &second {
            Some(e) => match e.header.checked_add(e.value) {
                Some(n) => n <= total - end,
                None => false,
            },
            None => false,
        };
        assert!(b.is_ok() == fits);
        if let Ok(Some(b)) = &b {
            let e = match second {
                Some(e) => e,
                None => unreachable!(),
            };
            assert!(b.offset() == end);
            assert!(b.id() == e.id && b.value_size() == e.value && b.size() == e.header + e.value);
            assert!(b.value_offset() == end + e.header);
            assert!(r.pos == b.next_tag_offset());
            done = true;
        } else {
            assert!(!fits);
        }
        leak(b);
    }
    leak(a);
    done
}

/// The scanner and the decoder use the same bytes: all of them.
fn agree(f: &dyn ILTagFactory, data: &[u8]) {
    let tag = decode(f, data, data.len());
    let id = tag.id();
    leak(tag);
    let mut q = ByteArrayReader::new(data);
    let t = RawTagScanner::new(&mut q).next_tag();
    assert!(q.offset() == data.len());
    match t {
        Ok(Some(t)) => assert!(t.id() == id && t.offset() == 0 && t.next_tag_offset() == data.len() as u64),
        _ => unreachable!(),
    }
}

/// Header with an id of `n` and a size of `m` bytes, any content.
fn explicit(h: u8, g: u8) -> [u8; 18] {
    let b: [u8; 18] = any();
    let n = ilint_len_from_header(h);
    let mut data = [0u8; 18];
    data[0] = h;
    let mut i = 1;
    while i < n {
        data[i] = b[i];
        i += 1;
    }
    data[n] = g;
    i = n + 1;
    while i < 18 {
        data[i] = b[i];
        i += 1;
    }
    data
}

harnesses! {
    /// One tag with any first bytes (ids and sizes of up to 3 bytes, or any body up to that)
    /// in a stream of any length.
    #[unwind(14)]
    fn c22q_any() {
        let b: [u8; 6] = any();
        let total: u64 = any();
        assume(b[0] <= 0xF9);
        assume(b[1] <= 0xF9 || b[0] >= 248);
        let ok = one(b, total);
        witness!(ok && b[0] == 10);
        witness!(ok && b[0] == 13);
        witness!(ok && b[0] == 17 && b[1] == 0xF9);
        witness!(!ok && b[0] == 15);
    }

    /// Ids of 9 bytes and sizes of 9 bytes, any bodies: sizes close to 2^64 included.
    #[unwind(20)]
    fn c22q_widest() {
        let d = explicit(0xFF, 0xFF);
        let ok = one(d, any());
        witness!(ok);
        witness!(!ok);
    }

    /// Ids and sizes of other lengths, any bodies (non-minimal ones included).
    #[unwind(20)]
    fn c22q_lengths() {
        witness!(one(explicit(0xF8, 0xFE), any()));
        witness!(one(explicit(0xFA, 0xFD), any()));
    }

    /// More lengths.
    #[unwind(20)]
    fn c22t_lengths2() {
        witness!(one(explicit(0xFC, 0xFB), any()));
        witness!(one(explicit(0xFE, 0xFA), any()));
    }

    /// One byte ids, sizes of other lengths.
    #[unwind(20)]
    fn c22q_sizes() {
        witness!(one(explicit(200, 0xFC), any()));
        witness!(one(explicit(17, 0xFF), any()));
        witness!(one(explicit(0xFB, 100), any()));
    }

    /// Two tags: an explicit one of any size, then any small one.
    #[unwind(14)]
    fn c22q_two() {
        let b: [u8; 9] = any();
        let c: [u8; 4] = any();
        assume(c[0] <= 0xF8);
        let d = [17, 0xFF, b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], c[0], c[1], c[2], c[3]];
        let ok = two(d, any());
        witness!(ok);
    }

    /// Two tags: any implicit one, then any small one.
    #[unwind(14)]
    fn c22q_two_implicit() {
        let c: [u8; 5] = any();
        assume(c[0] < 16);
        let ok = two([c[0], c[1], c[2], c[3], c[4]], any());
        witness!(ok && c[0] == 14 && c[1] == 0xFF);
        witness!(ok && c[0] == 0);
    }

    /// Streams that end inside of the header.
    #[unwind(14)]
    fn c22q_truncated() {
        let b: [u8; 4] = any();
        let mut n = 0;
        while n < 3 {
            let mut r = ByteArrayReader::new(&b[..n]);
            let ret = RawTagScanner::new(&mut r).next_tag();
            let valid = match ref_extent(&b[..n]) {
                Some(e) => e.header as u128 + e.value as u128 <= n as u128,
                None => false,
            };
            assert!(ret.is_ok() == valid);
            leak(ret);
            n += 1;
        }
        witness!(b[0] == 0);
        witness!(b[0] == 10 && b[1] == 3);
    }

    /// Expecting an id.
    #[unwind(14)]
    fn c22q_expected() {
        let b: [u8; 4] = any();
        assume(b[0] <= 0xF8 && b[1] <= 0xF8);
        let expected: u64 = any();
        let mut r = GapReader::new(b, 1000);
        let ret = RawTagScanner::new(&mut r).next_tag_if_id(expected);
        let mut q = GapReader::new(b, 1000);
        let plain = RawTagScanner::new(&mut q).next_tag();
        match &plain {
            Ok(Some(t)) => match &ret {
                Ok(Some(u)) => assert!(t.id() == expected && t == u && r.pos == q.pos),
                Err(ErrorKind::UnexpectedTagType) => assert!(t.id() != expected),
                _ => panic!("wrong result"),
            },
            _ => assert!(ret.is_err()),
        }
        witness!(ret.is_ok() && expected == 250);
        witness!(matches!(&ret, Err(ErrorKind::UnexpectedTagType)));
        leak((ret, plain));
    }

    /// The standard factory uses the same bytes for implicit tags.
    #[unwind(30)]
    fn c22q_decoder_implicit() {
        let f = std_factory();
        let x: [u8; 16] = any();
        agree(&*f, &[0]);
        agree(&*f, &[1, 1]);
        agree(&*f, &[2, x[0]]);
        agree(&*f, &[5, x[0], x[1]]);
        agree(&*f, &[6, x[0], x[1], x[2], x[3]]);
        agree(&*f, &[9, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]]);
        agree(&*f, &[11, x[0], x[1], x[2], x[3]]);
        agree(&*f, &[13, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15]]);
        witness!();
    }

    /// The standard factory uses the same bytes for ILInts and non-minimal headers.
    #[unwind(30)]
    fn c22q_decoder_integers() {
        let f = std_factory();
        let x: [u8; 16] = any();
        agree(&*f, &[10, 0xF9, x[0], x[1]]);
        agree(&*f, &[14, 0xFA, 0, x[0], x[1]]);
        agree(&*f, &[0xF9, 0, 3, 1, 9]);
        agree(&*f, &[0xFA, 0, 1, 3, 0]);
        agree(&*f, &[0xF8, 7, 2, x[1], x[2]]);
        witness!();
    }
}
