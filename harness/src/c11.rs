//! C11: byte, text and decimal tags round-trip.
use crate::kit::*;
use crate::mocks::*;
use crate::refs::*;
use crate::sym::*;
use il2_iltags::io::array::{ByteArrayReader, MemoryReader};
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::*;

/// The serialization is `id`, the ILInt size and the content; both of known sizes.
fn wire<const N: usize>(t: &dyn ILTag, id: &[u8], content: &[u8]) -> FixedWriter<N> {
    let n = content.len();
    assert!(t.value_size() == n as u64);
    let mut w = serialize::<N>(t);
    let s = ref_ilint_size(n as u64);
    assert!(w.len == id.len() + s + n);
    let mut i = 0;
    while i < id.len() {
        pin(&mut w, i, id[i]);
        i += 1;
    }
    i = 0;
    while i < s {
        pin(&mut w, id.len() + i, ref_ilint_byte(n as u64, i));
        i += 1;
    }
    same(&w.data[id.len() + s..], content, n);
    w
}

/// Raw, byte array and big integer tags of N symbolic bytes through the standard factory.
fn bytes<const N: usize, const W: usize>(f: &dyn ILTagFactory) {
    let b: [u8; N] = any();
    let t = ILByteArrayTag::with_value(&b);
    let w = wire::<W>(&t, &[16], &b);
    leak(t);
    let d = typed::<ILByteArrayTag>(decode(f, &w.data, w.len), 16);
    assert!(d.value().len() == N);
    same(d.value(), &b, N);
    leak(d);
    let t = ILBigIntTag::with_value(&b);
    let w = wire::<W>(&t, &[18], &b);
    leak(t);
    let d = typed::<ILBigIntTag>(decode(f, &w.data, w.len), 18);
    assert!(d.value().len() == N);
    same(d.value(), &b, N);
    leak(d);
    let t = ILRawTag::with_value(32, &b);
    let w = wire::<W>(&t, &[32], &b);
    leak(t);
    let d = typed::<ILRawTag>(decode(f, &w.data, w.len), 32);
    assert!(d.value().len() == N);
    same(d.value(), &b, N);
    leak(d);
}

/// Only the length matters here: the boundaries of the ILInt size.
fn long<const N: usize, const W: usize>() {
    let b: [u8; N] = any();
    let t = ILByteArrayTag::with_value(&b);
    let w = wire::<W>(&t, &[16], &b);
    let h = w.len - N;
    let mut r = ByteArrayReader::new(&w.data);
    assert!(r.skip_ok(1));
    let mut d = ILByteArrayTag::with_value(&[1, 2, 3]);
    match deserialize_ilint(&mut r) {
        Ok(n) => assert!(n == N as u64),
        Err(e) => {
            leak(e);
            assert!(false)
        }
    }
    assert!(r.offset() == h);
    assert!(decode_value(&mut d, N, &mut r) == E::None);
    assert!(r.offset() == w.len);
    assert!(d.value().len() == N);
    let i = any_upto(N - 1);
    assert!(d.value()[i] == b[i]);
    leak((t, d));
}

trait SkipOk {
    fn skip_ok(&mut self, n: usize) -> bool;
}

impl<'a> SkipOk for ByteArrayReader<'a> {
    fn skip_ok(&mut self, n: usize) -> bool {
        self.set_offset(n);
        self.offset() == n
    }
}

/// Any N bytes as the content of a string tag, for every entry point.
fn text<const N: usize>() {
    let b: [u8; N] = any();
    let valid = ref_utf8(&b);
    let mut t = ILStringTag::with_value("old text");
    let mut r = ByteArrayReader::new(&b);
    let k = decode_value(&mut t, N, &mut r);
    assert!(k == if valid { E::None } else { E::CorruptedData });
    if k == E::None {
        assert!(r.offset() == N);
        assert!(t.value().len() == N);
        same(t.value().as_bytes(), &b, N);
    }
    witness!(valid);
    witness!(N == 0 || !valid);
    leak(t);
}

/// The same through the stand-alone helpers.
fn text_helper<const N: usize, const W: usize>() {
    let b: [u8; N] = any();
    let valid = ref_utf8(&b);
    let mut raw = [0u8; W];
    raw[0] = 17;
    raw[1] = N as u8;
    let mut i = 0;
    while i < N {
        raw[2 + i] = b[i];
        i += 1;
    }
    let mut r = ByteArrayReader::new(&raw);
    let mut out = String::from("old text");
    let k = kind(deserialize_string_tag_from_value_into(&mut r, &mut out));
    assert!(k == if valid { E::None } else { E::CorruptedData });
    if k == E::None {
        assert!(r.offset() == N + 2);
        assert!(out.len() == N);
        same(out.as_bytes(), &b, N);
    }
    witness!(valid);
    witness!(N == 0 || !valid);
    leak(out);
}

/// A valid text of N ASCII bytes: the tag and the helpers emit the same bytes.
fn text_write<const N: usize, const W: usize>() {
    let mut b: [u8; N] = any();
    let mut i = 0;
    while i < N {
        b[i] &= 0x7F;
        i += 1;
    }
    let s = unsafe { std::str::from_utf8_unchecked(&b) };
    let mut t = ILStringTag::with_value(s);
    let w = wire::<W>(&t, &[17], &b);
    assert!(string_tag_size_from_value(s) == w.len as u64);
    let mut h = FixedWriter::<W>::new();
    assert!(is_ok(serialize_string_tag_from_value(s, &mut h)));
    assert!(h.len == w.len);
    same(&h.data, &w.data, w.len);
    t.set_value("x");
    assert!(t.value().len() == 1 && t.value().as_bytes()[0] == b'x');
    t.set_value(s);
    assert!(t.value().len() == N);
    same(t.value().as_bytes(), &b, N);
    leak(t);
}

fn text_long<const N: usize, const W: usize>() {
    let b = [b'a'; N];
    let s = unsafe { std::str::from_utf8_unchecked(&b) };
    let t = ILStringTag::with_value(s);
    let w = wire::<W>(&t, &[17], &b);
    assert!(string_tag_size_from_value(s) == w.len as u64);
    let mut h = FixedWriter::<W>::new();
    assert!(is_ok(serialize_string_tag_from_value(s, &mut h)));
    assert!(h.len == w.len);
    let i = any_upto(W - 1);
    assert!(i >= h.len || h.data[i] == w.data[i]);
    witness!(i == h.len - 1);
    leak(t);
}

fn decimal<const N: usize>(f: &dyn ILTagFactory) {
    let b: [u8; N] = any();
    let scale: i32 = any();
    let t = ILBigDecTag::with_value(scale, &b);
    assert!(t.scale() == scale && t.value().len() == N);
    let mut all = [0u8; 16];
    let s = scale.to_be_bytes();
    let mut i = 0;
    while i < N + 4 {
        all[i] = if i < 4 { s[i] } else { b[i - 4] };
        i += 1;
    }
    let w = wire::<24>(&t, &[19], &all[..N + 4]);
    leak(t);
    let d = typed::<ILBigDecTag>(decode(f, &w.data, w.len), 19);
    assert!(d.scale() == scale && d.value().len() == N);
    same(d.value(), &b, N);
    leak(d);
}

harnesses! {
    /// Raw, byte array and big integer tags of 0 and 3 symbolic bytes.
    #[unwind(30)]
    fn c11q_bytes() {
        let f = std_factory();
        bytes::<0, 8>(&*f);
        bytes::<3, 8>(&*f);
        witness!();
    }

    /// Content of 247, 248 and 249 symbolic bytes (boundary of the size field).
    #[unwind(252)]
    fn c11q_bytes_long() {
        long::<247, 256>();
        long::<248, 256>();
        long::<249, 256>();
        witness!();
    }

    /// Content of 503 and 504 bytes (second boundary of the size field).
    #[unwind(506)]
    fn c11t_bytes_longer() {
        long::<503, 512>();
        long::<504, 512>();
        witness!();
    }

    /// Raw tags with any explicit id: the id comes before the size and the content.
    #[unwind(12)]
    fn c11q_raw_ids() {
        let id: u64 = any();
        assume(id > 15);
        let b: [u8; 2] = any();
        let t = ILRawTag::with_value(id, &b);
        assert!(t.id() == id && !t.is_implicity());
        let w = serialize::<16>(&t);
        let n = ref_ilint_size(id);
        assert!(w.len == n + 3);
        let i = any_upto(15);
        if i < n {
            assert!(w.data[i] == ref_ilint_byte(id, i));
        } else if i == n {
            assert!(w.data[i] == 2);
        } else if i < w.len {
            assert!(w.data[i] == b[i - n - 1]);
        }
        witness!(n == 9);
        witness!(id == 16);
        leak(t);
    }

    /// Decoding into tags that already have (longer or shorter) content replaces it all.
    #[unwind(12)]
    fn c11q_replace() {
        let old: [u8; 3] = any();
        let new: [u8; 5] = any();
        let mut n = 0;
        while n <= 5 {
            let mut t = ILRawTag::with_value(77, &old);
            let mut r = ByteArrayReader::new(&new);
            assert!(decode_value(&mut t, n, &mut r) == E::None);
            assert!(r.offset() == n && t.value().len() == n);
            same(t.value(), &new, n);
            leak(t);
            let mut t = ILBigIntTag::with_value(&old);
            let mut r = ByteArrayReader::new(&new);
            assert!(decode_value(&mut t, n, &mut r) == E::None);
            assert!(t.value().len() == n);
            same(t.value(), &new, n);
            leak(t);
            let mut t = ILRawTag::with_value(77, &old);
            t.set_value(&new[..n]);
            assert!(t.value().len() == n);
            same(t.value(), &new, n);
            leak(t);
            n += 1;
        }
        witness!();
    }

    /// String tag content: any 0 bytes.
    #[unwind(16)]
    fn c11q_text_0() {
        text::<0>();
    }

    /// String tag content: any 1 bytes.
    #[unwind(16)]
    fn c11q_text_1() {
        text::<1>();
    }

    /// String tag content: any 2 bytes.
    #[unwind(16)]
    fn c11q_text_2() {
        text::<2>();
    }

    /// String tag content: any 3 bytes.
    #[unwind(16)]
    fn c11t_text_3() {
        text::<3>();
    }

    /// String tag content: any 4 bytes.
    #[unwind(16)]
    fn c11q_text_4() {
        text::<4>();
    }

    /// String tag content: any 5 bytes.
    #[unwind(16)]
    fn c11t_text_5() {
        text::<5>();
    }

    /// String helpers: any 0 bytes.
    #[unwind(16)]
    fn c11q_helper_0() {
        text_helper::<0, 2>();
    }

    /// String helpers: any 1 bytes.
    #[unwind(16)]
    fn c11t_helper_1() {
        text_helper::<1, 3>();
    }

    /// String helpers: any 2 bytes.
    #[unwind(16)]
    fn c11q_helper_2() {
        text_helper::<2, 4>();
    }

    /// String helpers: any 3 bytes.
    #[unwind(16)]
    fn c11q_helper_3() {
        text_helper::<3, 5>();
    }

    /// String helpers: any 4 bytes.
    #[unwind(16)]
    fn c11t_helper_4() {
        text_helper::<4, 6>();
    }

    /// String helpers: any 5 bytes.
    #[unwind(16)]
    fn c11t_helper_5() {
        text_helper::<5, 7>();
    }

    /// The string helpers reject other ids of one byte.
    #[unwind(24)]
    fn c11q_helper_ids() {
        const IDS: [u8; 16] = [0, 1, 5, 10, 14, 15, 16, 17, 18, 19, 20, 31, 32, 145, 246, 247];
        let mut i = 0;
        while i < IDS.len() {
            let id = IDS[i];
            let data = [id, 1, b'a', b'b'];
            let mut r = ByteArrayReader::new(&data);
            let mut out = String::from("old");
            let k = kind(deserialize_string_tag_from_value_into(&mut r, &mut out));
            assert!(k == if id == 17 { E::None } else { E::CorruptedData });
            if id == 17 {
                assert!(r.offset() == 3);
                assert!(out.len() == 1 && out.as_bytes()[0] == b'a');
            }
            leak(out);
            i += 1;
        }
        let data = [17, 1, b'a', b'b'];
        let mut r = ByteArrayReader::new(&data);
        assert!(is_ok(deserialize_string_tag_from_value(&mut r)));
        witness!();
    }

    /// They reject any id of two and nine bytes.
    #[unwind(14)]
    fn c11q_helper_ids_long() {
        let b: [u8; 8] = any();
        let data = [0xF8, b[0], 0];
        let mut r = ByteArrayReader::new(&data);
        assert!(!is_ok(deserialize_string_tag_from_value(&mut r)));
        let data = [0xFF, b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], 0];
        let mut r = ByteArrayReader::new(&data);
        assert!(!is_ok(deserialize_string_tag_from_value(&mut r)));
        witness!();
    }

    /// String tags and helpers emit the same bytes for texts of 0, 1, 5 and 13 bytes.
    #[unwind(20)]
    fn c11q_text_write() {
        text_write::<0, 20>();
        text_write::<1, 20>();
        text_write::<5, 20>();
        text_write::<13, 20>();
        witness!();
    }

    /// Texts of 247 bytes (boundary of the size field).
    #[unwind(256)]
    fn c11q_text_247() {
        text_long::<247, 256>();
    }

    /// Texts of 248 bytes.
    #[unwind(256)]
    fn c11q_text_248() {
        text_long::<248, 256>();
    }

    /// Texts of 504 bytes.
    #[unwind(512)]
    fn c11t_text_504() {
        text_long::<504, 512>();
    }

    /// String tags through the standard factory.
    #[unwind(30)]
    fn c11q_text_factory() {
        let f = std_factory();
        let b = [0xC3, 0xA9];
        let raw = [17, 2, b[0], b[1], 0];
        let d = typed::<ILStringTag>(decode(&*f, &raw, 4), 17);
        assert!(d.value().len() == 2);
        same(d.value().as_bytes(), &b, 2);
        let w = wire::<8>(&*d, &[17], &b);
        same(&w.data, &raw, 4);
        leak(d);
        witness!();
    }

    /// Decimal tags: any scale, 0 to 3 bytes.
    #[unwind(30)]
    fn c11q_decimal() {
        let f = std_factory();
        decimal::<0>(&*f);
        decimal::<1>(&*f);
        decimal::<3>(&*f);
        witness!();
    }

    /// Decimal tags decode any content into existing tags; sizes below 4 are rejected.
    #[unwind(12)]
    fn c11q_decimal_sizes() {
        let data: [u8; 7] = any();
        let mut n = 0;
        while n <= 7 {
            let mut t = ILBigDecTag::with_id_value(300, any(), &[9, 9]);
            let mut r = ByteArrayReader::new(&data);
            let k = decode_value(&mut t, n, &mut r);
            assert!((k == E::None) == (n >= 4));
            if k == E::None {
                assert!(r.offset() == n);
                assert!(t.scale() == i32::from_be_bytes([data[0], data[1], data[2], data[3]]));
                assert!(t.value().len() == n - 4);
                same(t.value(), &data[4..], n - 4);
            } else {
                assert!(k == E::CorruptedData);
            }
            leak(t);
            n += 1;
        }
        witness!();
    }

    /// Constructors, setters and getters.
    #[unwind(14)]
    fn c11q_access() {
        let id: u64 = any();
        let b: [u8; 3] = any();
        let c: [u8; 2] = any();
        assert!(ILByteArrayTag::new().id() == 16 && ILByteArrayTag::default().value().is_empty());
        assert!(ILByteArrayTag::with_capacity(3).id() == 16 && ILByteArrayTag::with_capacity(3).value().is_empty());
        let mut t = ILByteArrayTag::with_value(&b);
        assert!(t.id() == 16 && t.value().len() == 3);
        same(t.value(), &b, 3);
        t.mut_value().push(c[0]);
        assert!(t.value().len() == 4 && t.value()[3] == c[0] && t.value_size() == 4);
        leak(t);
        let mut t = ILBigIntTag::with_value(&b);
        assert!(ILBigIntTag::new().id() == 18 && t.id() == 18 && ILBigIntTag::default().value().is_empty());
        t.mut_value()[1] = c[1];
        assert!(t.value().len() == 3 && t.value()[0] == b[0] && t.value()[1] == c[1] && t.value()[2] == b[2]);
        leak(t);
        assume(id > 15);
        assert!(ILRawTag::new(id).id() == id && ILRawTag::with_capacity(id, 3).id() == id);
        assert!(<ILRawTag as DefaultWithId>::default_with_id(id).id() == id);
        let mut t = ILRawTag::with_value(id, &b);
        assert!(t.id() == id && t.value().len() == 3);
        t.set_value(&c);
        assert!(t.id() == id && t.value().len() == 2);
        same(t.value(), &c, 2);
        witness!();
        leak(t);
    }

    /// The same for decimals and texts.
    #[unwind(14)]
    fn c11q_access_more() {
        let id: u64 = any();
        assume(id > 15);
        let b: [u8; 3] = any();
        let (s, z): (i32, i32) = (any(), any());
        assert!(ILBigDecTag::new().id() == 19 && ILBigDecTag::default().scale() == 0);
        assert!(ILBigDecTag::with_id(id).id() == id && ILBigDecTag::with_id(id).value().is_empty());
        assert!(<ILBigDecTag as DefaultWithId>::default_with_id(id).id() == id);
        let t = ILBigDecTag::with_value(s, &b);
        assert!(t.id() == 19 && t.scale() == s && t.value().len() == 3);
        leak(t);
        let mut t = ILBigDecTag::with_id_value(id, s, &b);
        assert!(t.id() == id && t.scale() == s);
        t.set_scale(z);
        assert!(t.id() == id && t.scale() == z && t.value().len() == 3);
        same(t.value(), &b, 3);
        t.mut_value().push(7);
        assert!(t.scale() == z && t.value().len() == 4 && t.value()[3] == 7 && t.value_size() == 8);
        same(t.value(), &b, 3);
        leak(t);
        let c: [u8; 2] = any();
        assume(c[0] < 0x80 && c[1] < 0x80);
        let v = unsafe { std::str::from_utf8_unchecked(&c) };
        assert!(ILStringTag::new().id() == 17 && ILStringTag::default().value().is_empty());
        assert!(ILStringTag::with_id(id).id() == id && ILStringTag::with_id(id).value().is_empty());
        assert!(<ILStringTag as DefaultWithId>::default_with_id(id).id() == id);
        let t = ILStringTag::with_value(v);
        assert!(t.id() == 17 && t.value().len() == 2);
        same(t.value().as_bytes(), &c, 2);
        leak(t);
        let mut t = ILStringTag::with_id_value(id, v);
        assert!(t.id() == id && t.value().len() == 2);
        t.mut_value().push('x');
        assert!(t.value().len() == 3 && t.value().as_bytes()[2] == b'x');
        same(t.value().as_bytes(), &c, 2);
        t.set_value("yz");
        assert!(t.id() == id && t.value().len() == 2 && t.value().as_bytes()[0] == b'y');
        t.set_value("longer");
        assert!(t.value().len() == 6 && t.value().as_bytes()[5] == b'r');
        witness!();
        leak(t);
    }
}
