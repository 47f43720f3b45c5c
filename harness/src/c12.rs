//! C12: integer array, OID, range and version tags round-trip.
use crate::kit::*;
use crate::mocks::*;
use crate::refs::*;
use crate::sym::*;
use il2_iltags::io::array::{ByteArrayReader, MemoryReader};
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::*;

/// Any two elements: the serialization is the count and each element as an ILInt.
fn pair_wire(t: &dyn ILTag, a: u64, b: u64) {
    let (na, nb) = (ref_ilint_size(a), ref_ilint_size(b));
    assert!(t.value_size() == (1 + na + nb) as u64);
    let mut w = FixedWriter::<20>::new();
    assert!(is_ok(t.serialize_value(&mut w)));
    assert!(w.len == 1 + na + nb);
    assert!(w.data[0] == 2);
    let i = any_upto(17);
    if i < na {
        assert!(w.data[1 + i] == ref_ilint_byte(a, i));
    } else if i < na + nb {
        assert!(w.data[1 + i] == ref_ilint_byte(b, i - na));
    }
    witness!(na == 9 && nb == 1);
    witness!(na == 1 && nb == 2);
}

/// Two elements with the given header bytes and any bodies.
fn bodies(h: u8, g: u8) {
    let b: [u8; 16] = any();
    let (n, m) = (ilint_len_from_header(h), ilint_len_from_header(g));
    let mut data = [0u8; 20];
    data[0] = 2;
    data[1] = h;
    let mut i = 1;
    while i < n {
        data[1 + i] = b[i - 1];
        i += 1;
    }
    data[1 + n] = g;
    i = 1;
    while i < m {
        data[1 + n + i] = b[7 + i];
        i += 1;
    }
    let (x, y) = (ref_ilint_decode(&data[1..]), ref_ilint_decode(&data[1 + n..]));
    let mut t = ILILIntArrayTag::with_value(&[4, 5, 6]);
    let mut r = ByteArrayReader::new(&data);
    let k = decode_value(&mut t, 1 + n + m, &mut r);
    match (x, y) {
        (RefInt::Value(x, _), RefInt::Value(y, _)) => {
            assert!(k == E::None);
            assert!(r.offset() == 1 + n + m);
            assert!(t.value().len() == 2 && t.value()[0] == x && t.value()[1] == y);
        }
        _ => assert!(k != E::None),
    }
    leak(t);
}

/// The count of N elements.
fn count<const N: usize>(expected: &[u8]) {
    let t = ILILIntArrayTag::with_value(&[7; N]);
    let mut o = FixedWriter::<4>::with_limit(expected.len());
    assert!(!is_ok(t.serialize_value(&mut o)));
    assert!(o.len == expected.len());
    same(&o.data, expected, expected.len());
    leak(t);
}

/// Serialization of N elements.
fn many<const N: usize>() {
    let mut values = [7u64; N];
    values[0] = 5;
    values[N - 1] = 9;
    let t = ILILIntArrayTag::with_value(&values);
    let s = ref_ilint_size(N as u64);
    let mut o = EdgeWriter::new();
    assert!(is_ok(t.serialize_value(&mut o)));
    assert!(o.len == s + N);
    assert!(t.value_size() == (s + N) as u64);
    let mut sum = 0;
    let mut i = 0;
    while i < s {
        assert!(o.head[i] == ref_ilint_byte(N as u64, i));
        sum += o.head[i] as u64;
        i += 1;
    }
    assert!(o.head[s] == 5 && o.head[s + 1] == 7 && o.last == 9);
    assert!(o.sum == sum + 5 + 9 + 7 * (N as u64 - 2));
    witness!();
    leak(t);
}

/// Decoding N elements, with any last one.
fn many_decoded<const N: usize>() {
    let mut values = [7u64; N];
    values[0] = 5;
    let s = ref_ilint_size(N as u64);
    let mut data = [0u8; 264];
    let mut i = 0;
    while i < s {
        data[i] = ref_ilint_byte(N as u64, i);
        i += 1;
    }
    i = 0;
    while i < N {
        data[s + i] = values[i] as u8;
        i += 1;
    }
    let x: u8 = any();
    data[s + N - 1] = 0xF8;
    data[s + N] = x;
    let n = s + N + 1;
    let mut d = ILILIntArrayTag::with_value(&[1, 2, 3]);
    let mut r = ByteArrayReader::new(&data);
    assert!(decode_value(&mut d, n, &mut r) == E::None);
    assert!(r.offset() == n);
    assert!(d.value().len() == N);
    let j = any_upto(N - 1);
    let v = d.value()[j];
    assert!(v == if j == N - 1 { 248 + x as u64 } else { values[j] });
    witness!(j == N - 1);
    leak(d);
}

/// The count does not fit in the value size.
fn rejected(data: &[u8], size: usize) {
    let mut t = ILILIntArrayTag::with_value(&[5]);
    let mut r = ByteArrayReader::new(data);
    assert!(decode_value(&mut t, size, &mut r) == E::CorruptedData);
    leak(t);
}

/// Reference: `data` is exactly `count` ILInts. Fills the values.
fn ref_parse(data: &[u8], count: usize, out: &mut [u64; 8]) -> bool {
    let mut pos = 0;
    let mut i = 0;
    while i < count {
        match ref_ilint_decode(&data[pos..]) {
            RefInt::Value(v, n) => {
                out[i] = v;
                pos += n;
            }
            _ => return false,
        }
        i += 1;
    }
    pos == data.len()
}

/// Any `N` bytes after the count.
fn any_payload<const N: usize>(count: usize) {
    let mut data = [0u8; 12];
    data[0] = count as u8;
    let b: [u8; N] = any();
    let mut i = 0;
    while i < N {
        data[1 + i] = b[i];
        i += 1;
    }
    let mut values = [0u64; 8];
    let valid = ref_parse(&b, count, &mut values);
    let mut t = ILILIntArrayTag::with_value(&[5]);
    let mut r = ByteArrayReader::new(&data);
    let k = decode_value(&mut t, N + 1, &mut r);
    assert!((k == E::None) == valid);
    if valid {
        assert!(r.offset() == N + 1);
        assert!(t.value().len() == count);
        let i = any_upto(7);
        if i < count {
            assert!(t.value()[i] == values[i]);
        }
    }
    witness!(k == E::None || count > N || (count == 0 && N > 0));
    leak(t);
}

harnesses! {
    /// ILInt arrays of any two elements: exact bytes.
    #[unwind(14)]
    fn c12q_array_pair() {
        let (a, b): (u64, u64) = (any(), any());
        let t = ILILIntArrayTag::with_value(&[a, b]);
        pair_wire(&t, a, b);
        leak(t);
    }

    /// OIDs of any two elements: exact bytes.
    #[unwind(14)]
    fn c12q_oid_pair() {
        let (a, b): (u64, u64) = (any(), any());
        let t = ILOIDTag::with_value(&[a, b]);
        pair_wire(&t, a, b);
        leak(t);
    }

    /// Elements of any size with any content.
    #[unwind(14)]
    fn c12q_bodies() {
        bodies(0xFF, 0xF8);
        bodies(0xF9, 0xFE);
        bodies(3, 0xFF);
        bodies(0xFC, 0xFA);
        bodies(0xFB, 0xFD);
        witness!();
    }

    /// Serialized counts around the size boundary of the count field. The writer stops after
    /// the count.
    #[unwind(252)]
    fn c12q_count() {
        count::<247>(&[247]);
        count::<248>(&[0xF8, 0]);
        witness!();
    }

    /// Sizes around the size boundary of the count field.
    #[unwind(252)]
    fn c12q_count_size() {
        let t = ILILIntArrayTag::with_value(&[0; 248]);
        assert!(t.value_size() == 250);
        witness!();
        leak(t);
    }

    /// Decoding of 256 elements.
    #[unwind(262)]
    fn c12q_many_decoded_256() {
        many_decoded::<256>();
    }

    /// 247 elements.
    #[unwind(252)]
    fn c12t_many_247() {
        many::<247>();
    }

    /// 248 elements.
    #[unwind(252)]
    fn c12t_many_248() {
        many::<248>();
    }

    /// Decoding of 247 elements.
    #[unwind(252)]
    fn c12t_many_decoded_247() {
        many_decoded::<247>();
    }

    /// Decoding of 248 elements.
    #[unwind(252)]
    fn c12t_many_decoded_248() {
        many_decoded::<248>();
    }

    /// Decoding of 249 elements.
    #[unwind(252)]
    fn c12t_many_decoded_249() {
        many_decoded::<249>();
    }

    /// Any payload of up to 3 bytes for counts 0 to 2.
    #[unwind(12)]
    fn c12q_payload_small() {
        any_payload::<0>(0);
        any_payload::<1>(0);
        any_payload::<0>(1);
        any_payload::<1>(1);
        any_payload::<2>(1);
        any_payload::<2>(2);
    }

    /// Any payload of 3 to 5 bytes for counts 1 to 3.
    #[unwind(12)]
    fn c12q_payload() {
        any_payload::<3>(2);
        any_payload::<3>(3);
        any_payload::<5>(2);
    }

    /// Counts larger than the declared size are rejected.
    #[unwind(12)]
    fn c12q_count_too_large() {
        rejected(&[11, 1, 1], 10);
        rejected(&[0xF8, 0], 247);
        rejected(&[0xF8, 0xFF], 500);
        rejected(&[0xF9, 1, 0], 503);
        rejected(&[0xFB, 1, 0, 0, 0], 10);
        rejected(&[0xFC, 1, 0, 0, 0, 0], 400);
        rejected(&[0xFE, 1, 0, 0, 0, 0, 0, 0], 10);
        rejected(&[0xFF, 0x80, 0, 0, 0, 0, 0, 0, 0], 10);
        rejected(&[0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x07], 10);
        witness!();
    }

    /// Arrays, OIDs, ranges and versions through the standard factory.
    #[unwind(30)]
    fn c12q_factory() {
        let f = std_factory();
        let x: u8 = any();
        let raw = [20, 4, 2, 3, 0xF8, x, 0];
        let d = typed::<ILILIntArrayTag>(decode(&*f, &raw, 6), 20);
        assert!(d.value().len() == 2 && d.value()[0] == 3 && d.value()[1] == x as u64 + 248);
        leak(d);
        let raw = [25, 3, 1, 0xF8, x, 0];
        let d = typed::<ILOIDTag>(decode(&*f, &raw, 5), 25);
        assert!(d.value().len() == 1 && d.value()[0] == x as u64 + 248);
        leak(d);
        let raw = [23, 4, 0xF8, x, 1, 2, 0];
        let d = typed::<ILRangeTag>(decode(&*f, &raw, 6), 23);
        assert!(d.start() == x as u64 + 248 && d.count() == 258);
        leak(d);
        let v: [u8; 16] = any();
        let mut raw = [0u8; 18];
        raw[0] = 24;
        raw[1] = 16;
        raw[2..].copy_from_slice(&v);
        let d = typed::<ILVersionTag>(decode(&*f, &raw, 18), 24);
        assert!(d.major() == i32::from_be_bytes([v[0], v[1], v[2], v[3]]));
        assert!(d.minor() == i32::from_be_bytes([v[4], v[5], v[6], v[7]]));
        assert!(d.revision() == i32::from_be_bytes([v[8], v[9], v[10], v[11]]));
        assert!(d.build() == i32::from_be_bytes([v[12], v[13], v[14], v[15]]));
        leak(d);
        witness!();
    }

    /// Ranges: any start and count.
    #[unwind(14)]
    fn c12q_range() {
        let (s, c): (u64, u16) = (any(), any());
        let t = ILRangeTag::with_value(s, c);
        let n = ref_ilint_size(s);
        assert!(t.value_size() == (n + 2) as u64 && t.start() == s && t.count() == c);
        let w = serialize::<16>(&t);
        assert!(w.len == n + 4 && w.data[0] == 23 && w.data[1] as usize == n + 2);
        let i = any_upto(10);
        if i < n {
            assert!(w.data[2 + i] == ref_ilint_byte(s, i));
        } else if i < n + 2 {
            assert!(w.data[2 + i] == c.to_be_bytes()[i - n]);
        }
        let mut d = ILRangeTag::with_id_value(23, any(), any());
        let mut r = ByteArrayReader::new(&w.data[2..]);
        assert!(decode_value(&mut d, n + 2, &mut r) == E::None);
        assert!(d.start() == s && d.count() == c);
        witness!(n == 9);
        witness!(n == 1);
    }

    /// Ranges: any payload is accepted only when it has exactly the declared size.
    #[unwind(14)]
    fn c12q_range_payload() {
        let data: [u8; 12] = any();
        let size = any_upto(12);
        let mut d = ILRangeTag::with_value(1, 2);
        let mut r = ByteArrayReader::new(&data);
        let k = decode_value(&mut d, size, &mut r);
        let valid = match ref_ilint_decode(&data[..size]) {
            RefInt::Value(v, n) => {
                let ok = n + 2 == size;
                if ok && k == E::None {
                    assert!(d.start() == v);
                    assert!(d.count() == ((data[n] as u16) << 8 | data[n + 1] as u16));
                    assert!(r.offset() == size);
                }
                ok
            }
            _ => false,
        };
        assert!((k == E::None) == valid);
        assert!(r.offset() <= size);
        witness!(valid && size == 11);
        witness!(valid && size == 3);
        witness!(!valid && size == 12);
    }

    /// Versions: any value, any payload, any declared size.
    #[unwind(22)]
    fn c12q_version() {
        let v: [i32; 4] = [any(), any(), any(), any()];
        let t = ILVersionTag::with_value(v[0], v[1], v[2], v[3]);
        let w = serialize::<20>(&t);
        assert!(w.len == 18 && w.data[0] == 24 && w.data[1] == 16);
        let i = any_upto(15);
        assert!(w.data[2 + i] == v[i / 4].to_be_bytes()[i % 4]);
        let mut d = ILVersionTag::with_id_value(24, 1, 2, 3, 4);
        let size: usize = any();
        let mut r = ByteArrayReader::new(&w.data[2..18]);
        let k = decode_value(&mut d, size, &mut r);
        assert!((k == E::None) == (size == 16));
        if k == E::None {
            assert!(d.major() == v[0] && d.minor() == v[1] && d.revision() == v[2] && d.build() == v[3]);
            assert!(d.value()[i / 4] == v[i / 4]);
        } else {
            assert!(r.offset() == 0);
        }
        let mut d = ILVersionTag::with_value_from_slice(&v);
        let x: i32 = any();
        d.set_revision(x);
        assert!(d.major() == v[0] && d.minor() == v[1] && d.revision() == x && d.build() == v[3]);
        d.set_major(v[3]);
        d.set_minor(v[2]);
        d.set_build(v[1]);
        assert!(d.major() == v[3] && d.minor() == v[2] && d.revision() == x && d.build() == v[1]);
        witness!(k == E::None);
        witness!(size == 17);
    }

    /// Constructors, setters and getters of arrays and OIDs.
    #[unwind(14)]
    fn c12q_access() {
        let id: u64 = any();
        let (a, b): ([u64; 3], [u64; 2]) = ([any(), any(), any()], [any(), any()]);
        macro_rules! list {
            ($t:ident, $id:literal) => {{
                assert!($t::new().id() == $id && $t::default().value().is_empty());
                assert!($t::with_id(id).id() == id && $t::with_id(id).value().is_empty());
                assert!(<$t as DefaultWithId>::default_with_id(id).id() == id);
                let t = $t::with_value(&b);
                assert!(t.id() == $id && t.value().len() == 2 && t.value()[0] == b[0] && t.value()[1] == b[1]);
                leak(t);
                let mut t = $t::with_id_value(id, &b);
                assert!(t.id() == id && t.value().len() == 2 && t.value()[0] == b[0] && t.value()[1] == b[1]);
                t.set_value(&a);
                assert!(t.value().len() == 3 && t.value()[0] == a[0] && t.value()[1] == a[1] && t.value()[2] == a[2]);
                t.set_value(&b);
                assert!(t.id() == id && t.value().len() == 2 && t.value()[0] == b[0] && t.value()[1] == b[1]);
                t.mut_value().push(a[2]);
                assert!(t.value().len() == 3 && t.value()[2] == a[2]);
                leak(t);
            }};
        }
        list!(ILILIntArrayTag, 20);
        list!(ILOIDTag, 25);
        witness!();
    }

    /// The same for ranges and versions.
    #[unwind(20)]
    fn c12q_access_more() {
        let id: u64 = any();
        let (s, z): (u64, u64) = (any(), any());
        let (c, d): (u16, u16) = (any(), any());
        assert!(ILRangeTag::new().id() == 23 && ILRangeTag::default().start() == 0 && ILRangeTag::default().count() == 0);
        assert!(ILRangeTag::with_id(id).id() == id);
        assert!(<ILRangeTag as DefaultWithId>::default_with_id(id).id() == id);
        let t = ILRangeTag::with_value(s, c);
        assert!(t.id() == 23 && t.start() == s && t.count() == c);
        let mut t = ILRangeTag::with_id_value(id, s, c);
        assert!(t.id() == id && t.start() == s && t.count() == c);
        t.set_start(z);
        assert!(t.start() == z && t.count() == c);
        t.set_count(d);
        assert!(t.start() == z && t.count() == d);
        t.set_value(s, c);
        assert!(t.id() == id && t.start() == s && t.count() == c);
        let (a, b): ([i32; 4], [i32; 4]) = ([any(), any(), any(), any()], [any(), any(), any(), any()]);
        let is = |t: &ILVersionTag, v: &[i32; 4]| {
            t.major() == v[0] && t.minor() == v[1] && t.revision() == v[2] && t.build() == v[3] && t.value() == v
        };
        assert!(ILVersionTag::new().id() == 24 && is(&ILVersionTag::default(), &[0; 4]));
        assert!(ILVersionTag::with_id(id).id() == id);
        assert!(<ILVersionTag as DefaultWithId>::default_with_id(id).id() == id);
        assert!(is(&ILVersionTag::with_value(a[0], a[1], a[2], a[3]), &a));
        assert!(is(&ILVersionTag::with_value_from_slice(&a), &a));
        assert!(is(&ILVersionTag::with_id_value_from_slice(id, &a), &a));
        let mut t = ILVersionTag::with_id_value(id, a[0], a[1], a[2], a[3]);
        assert!(t.id() == id && is(&t, &a));
        t.set_value(b[0], b[1], b[2], b[3]);
        assert!(is(&t, &b));
        t.set_value_from_slice(&a);
        assert!(is(&t, &a));
        t.set_major(b[0]);
        assert!(is(&t, &[b[0], a[1], a[2], a[3]]));
        t.set_minor(b[1]);
        assert!(is(&t, &[b[0], b[1], a[2], a[3]]));
        t.set_revision(b[2]);
        assert!(is(&t, &[b[0], b[1], b[2], a[3]]));
        t.set_build(b[3]);
        assert!(t.id() == id && is(&t, &b));
        witness!();
    }
}
