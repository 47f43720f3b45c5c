//! C16: decoding untrusted bytes never crashes and stays within its extent.
use crate::kit::*;
use crate::mocks::*;
use crate::sym::*;
use il2_iltags::io::array::{ByteArrayReader, MemoryReader};
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::factory::*;
use il2_iltags::tags::standard::implicit::*;
use il2_iltags::tags::*;

/// Decodes a tag of N bytes followed by others: on success exactly N bytes are consumed, otherwise
/// not more than that.
fn tag(f: &dyn ILTagFactory, bytes: &[u8], n: usize) -> bool {
    let mut r = ByteArrayReader::new(bytes);
    let ok = is_ok(f.deserialize(&mut r));
    if ok {
        assert!(r.offset() == n);
    } else {
        assert!(r.offset() <= n);
    }
    ok
}

/// Tags with an id and N bytes of any content.
fn explicit<const N: usize>(f: &dyn ILTagFactory, id: u8) -> bool {
    let c: [u8; N] = any();
    let mut b = [0u8; 12];
    b[0] = id;
    b[1] = N as u8;
    b[2..2 + N].copy_from_slice(&c);
    b[2 + N] = any();
    b[3 + N] = any();
    tag(f, &b[..4 + N], 2 + N)
}

/// Decodes a value of any declared size with a type: it only takes bytes up to that size.
fn value<T: ILTag, const N: usize>(new: fn() -> T, f: &dyn ILTagFactory, b: &[u8; N], size: usize) -> bool {
    let mut t = new();
    let mut r = ByteArrayReader::new(b);
    let ok = is_ok(t.deserialize_value(f, size, &mut r));
    assert!(r.offset() <= size || size > N);
    assert!(!ok || r.offset() == size);
    leak(t);
    ok
}

/// Any declared size (that of a tag, up to 512 MiB) for a type that does not need it.
fn any_size<T: ILTag>(new: fn() -> T, b: &[u8; 4]) {
    let size: u64 = any();
    assume(size <= MAX_TAG_SIZE);
    let mut t = new();
    let mut r = ByteArrayReader::new(b);
    let ok = is_ok(t.deserialize_value(&util::UntouchbleTagFactory {}, size as usize, &mut r));
    let _ = ok;
    leak(t);
}

/// Whether `count` integers are exactly two bytes.
fn ints_fit(count: u8, b: &[u8; 2]) -> bool {
    match count {
        1 => b[0] == 248,
        2 => b[0] < 248 && b[1] < 248,
        _ => false,
    }
}

harnesses! {
    /// Implicit tags.
    #[unwind(30)]
    fn c16q_implicit() {
        let f = std_factory();
        let b: [u8; 9] = any();
        assert!(tag(&*f, &[0, b[0]], 1));
        assert!(tag(&*f, &[1, b[0], b[1]], 2) == (b[0] < 2));
        assert!(tag(&*f, &[2, b[0], b[1]], 2));
        assert!(tag(&*f, &[3, b[0], b[1]], 2));
        assert!(tag(&*f, &[4, b[0], b[1], b[2]], 3));
        assert!(tag(&*f, &[5, b[0], b[1], b[2]], 3));
        assert!(tag(&*f, &[6, b[0], b[1], b[2], b[3], b[4]], 5));
        assert!(tag(&*f, &[7, b[0], b[1], b[2], b[3], b[4]], 5));
        witness!();
    }

    /// More implicit tags.
    #[unwind(30)]
    fn c16q_wide_implicit() {
        let f = std_factory();
        let b: [u8; 9] = any();
        assert!(tag(&*f, &[8, b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8]], 9));
        assert!(tag(&*f, &[9, b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8]], 9));
        assert!(tag(&*f, &[11, b[0], b[1], b[2], b[3], b[4]], 5));
        assert!(tag(&*f, &[12, b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8]], 9));
        assert!(tag(&*f, &[13, b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8], 0, 1, 2, 3, 4, 5, 6, 7], 17));
        assert!(!tag(&*f, &[15, b[0], b[1], b[2]], 4));
        witness!();
    }

    /// ILInts.
    #[unwind(30)]
    fn c16q_ilint() {
        let f = std_factory();
        let b: [u8; 10] = any();
        for id in [10u8, 14] {
            let mut r = ByteArrayReader::new(&[]);
            assert!(!is_ok(f.deserialize(&mut r)));
            let bytes = [id, b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9]];
            let mut r = ByteArrayReader::new(&bytes);
            let ok = is_ok(f.deserialize(&mut r));
            let n = crate::refs::ilint_len_from_header(b[0]);
            assert!(if ok { r.offset() == 1 + n } else { r.offset() <= 1 + n });
            assert!(ok || b[0] == 255);
        }
        witness!(b[0] == 255);
    }

    /// Byte arrays and big integers: any content of 0 to 3 bytes.
    #[unwind(30)]
    fn c16q_bytes() {
        let f = std_factory();
        assert!(explicit::<0>(&*f, 16));
        assert!(explicit::<3>(&*f, 16));
        assert!(explicit::<0>(&*f, 18));
        assert!(explicit::<2>(&*f, 18));
        assert!(explicit::<2>(&*f, 40));
        witness!();
    }

    /// Strings: any content, any small size.
    #[unwind(8)]
    fn c16q_string() {
        let b: [u8; 3] = any();
        let f = util::UntouchbleTagFactory {};
        value(ILStringTag::new, &f, &b, 0);
        value(ILStringTag::new, &f, &b, 1);
        let ok = value(ILStringTag::new, &f, &b, 3);
        assert!(!value(ILStringTag::new, &f, &b, 4));
        witness!(ok);
        witness!(!ok);
    }

    /// Decimals: any content of 0 to 6 bytes.
    #[unwind(30)]
    fn c16q_decimal() {
        let f = std_factory();
        assert!(!explicit::<0>(&*f, 19));
        assert!(!explicit::<3>(&*f, 19));
        assert!(explicit::<4>(&*f, 19));
        assert!(explicit::<6>(&*f, 19));
        witness!();
    }

    /// Ranges: any content of 0 to 4 bytes.
    #[unwind(30)]
    fn c16q_range() {
        let f = std_factory();
        assert!(!explicit::<0>(&*f, 23));
        assert!(!explicit::<2>(&*f, 23));
        let ok = explicit::<3>(&*f, 23);
        witness!(ok);
        witness!(!ok);
        let ok = explicit::<4>(&*f, 23);
        witness!(ok);
    }

    /// Versions.
    #[unwind(30)]
    fn c16q_version() {
        let f = std_factory();
        assert!(!explicit::<0>(&*f, 24));
        assert!(!explicit::<8>(&*f, 24));
        let b: [u8; 4] = any();
        let mut bytes = [0u8; 20];
        bytes[0] = 24;
        bytes[1] = 17;
        bytes[2..6].copy_from_slice(&b);
        assert!(!tag(&*f, &bytes, 19));
        bytes[1] = 16;
        assert!(tag(&*f, &bytes, 18));
        bytes[1] = 15;
        assert!(!tag(&*f, &bytes, 17));
        witness!();
    }

    /// Integer arrays: any elements, counts that are right, short and long.
    #[unwind(12)]
    fn c16q_ints() {
        let f = util::UntouchbleTagFactory {};
        for count in [0u8, 1, 2, 247] {
            let b: [u8; 2] = any();
            let ok = value(ILILIntArrayTag::new, &f, &[count, b[0], b[1]], 3);
            assert!(ok == ints_fit(count, &b));
        }
        assert!(!value(ILILIntArrayTag::new, &f, &[0, any(), any()], 2));
        witness!();
    }

    /// OIDs: any elements, counts that are right, short and long.
    #[unwind(12)]
    fn c16q_oid() {
        let f = util::UntouchbleTagFactory {};
        for count in [0u8, 1, 2, 247] {
            let b: [u8; 2] = any();
            let ok = value(ILOIDTag::new, &f, &[count, b[0], b[1]], 3);
            assert!(ok == ints_fit(count, &b));
        }
        assert!(!value(ILOIDTag::new, &f, &[0, any(), any()], 2));
        witness!();
    }

    /// Integer arrays through the factory.
    #[unwind(30)]
    fn c16q_std_ints() {
        let f = std_factory();
        let b: u8 = any();
        for id in [20u8, 25] {
            assert!(tag(&*f, &[id, 3, 1, 248, b, b], 5));
            assert!(!tag(&*f, &[id, 2, 1, 248, b, b], 4));
            assert!(!tag(&*f, &[id, 4, 1, 248, b, b], 6));
        }
        witness!();
    }

    /// Arrays and dictionaries that are empty or that end too soon.
    #[unwind(30)]
    fn c16q_containers() {
        let f = std_factory();
        for id in [21u8, 30, 31] {
            assert!(tag(&*f, &[id, 1, 0, any(), any()], 3));
            assert!(!tag(&*f, &[id, 0, 0, any()], 2));
            assert!(!tag(&*f, &[id, 2, 0, any(), any()], 4));
        }
        assert!(tag(&*f, &[22, 0, any(), any()], 2));
        witness!();
    }

    /// Elements that do not fit in their parents, and parents with bytes left.
    #[unwind(30)]
    fn c16q_nesting() {
        let f = std_factory();
        let b: [u8; 3] = any();
        assert!(tag(&*f, &[22, 3, 16, 1, b[0], b[1]], 5));
        assert!(!tag(&*f, &[22, 3, 16, 2, b[0], b[1], b[2]], 5));
        assert!(tag(&*f, &[21, 4, 1, 16, 1, b[0], b[1]], 6));
        assert!(!tag(&*f, &[21, 4, 1, 16, 0, b[0], b[1]], 6));
        assert!(!tag(&*f, &[21, 4, 1, 16, 2, b[0], b[1]], 6));
        witness!();
    }

    /// Dictionaries whose parts do not fit.
    #[unwind(30)]
    fn c16q_dict() {
        let f = std_factory();
        let v: u8 = any();
        assert!(tag(&*f, &[30, 6, 1, 17, 1, b'k', 3, v, v], 8));
        assert!(!tag(&*f, &[30, 6, 1, 17, 1, b'k', 5, v, v], 8));
        assert!(!tag(&*f, &[30, 7, 1, 17, 1, b'k', 3, v, v], 9));
        assert!(!tag(&*f, &[30, 6, 1, 17, 5, b'k', 3, v, v], 8));
        witness!();
    }

    /// String dictionaries whose parts do not fit.
    #[unwind(30)]
    fn c16q_strdict() {
        let f = std_factory();
        assert!(tag(&*f, &[31, 6, 1, 17, 1, b'k', 17, 0, 9], 8));
        assert!(!tag(&*f, &[31, 6, 1, 17, 1, b'k', 17, 1, 9], 8));
        assert!(!tag(&*f, &[31, 7, 1, 17, 1, b'k', 17, 0, 9], 9));
        assert!(!tag(&*f, &[31, 6, 1, 17, 1, b'k', 16, 0, 9], 8));
        assert!(!tag(&*f, &[31, 6, 2, 17, 1, b'k', 17, 0, 17, 0, 17, 0], 8));
        witness!();
    }

    /// Headers that are not complete or overflow.
    #[unwind(30)]
    fn c16q_header() {
        let f = std::mem::ManuallyDrop::new(ILStandardTagFactory::new(true));
        let b: u8 = any();
        assert!(!tag(&*f, &[250, b], 2));
        assert!(!tag(&*f, &[], 0));
        assert!(!tag(&*f, &[255, 255, 255, 255, 255, 255, 255, 255, 255, b, b], 9));
        assert!(!tag(&*f, &[16, 255, 255, 255, 255, 255, 255, 255, 255, 255, b, b], 10));
        assert!(!tag(&*f, &[16], 1));
        witness!();
    }

    /// Any declared size for the types that do not allocate.
    #[unwind(18)]
    fn c16q_any_size() {
        let b: [u8; 4] = any();
        any_size(ILNullTag::new, &b);
        any_size(ILBoolTag::new, &b);
        any_size(ILInt8Tag::new, &b);
        any_size(ILUInt8Tag::new, &b);
        any_size(ILInt16Tag::new, &b);
        any_size(ILUInt16Tag::new, &b);
        any_size(ILInt32Tag::new, &b);
        any_size(ILUInt32Tag::new, &b);
        any_size(ILInt64Tag::new, &b);
        any_size(ILUInt64Tag::new, &b);
        witness!();
    }

    /// More of them.
    #[unwind(18)]
    fn c16q_any_size_more() {
        let b: [u8; 4] = any();
        any_size(ILILInt64Tag::new, &b);
        any_size(ILSignedILInt64Tag::new, &b);
        any_size(ILBin32Tag::new, &b);
        any_size(ILBin64Tag::new, &b);
        any_size(ILBin128Tag::new, &b);
        any_size(ILRangeTag::new, &b);
        any_size(ILVersionTag::new, &b);
        witness!();
    }

    /// Values of any content and declared sizes around what there is, nested ones included.
    #[unwind(8)]
    fn c16q_values() {
        let b: [u8; 3] = any();
        let f = util::UntouchbleTagFactory {};
        for size in [0, 1, 2, 3, 4, 5] {
            value(ILRangeTag::new, &f, &b, size);
            value(ILBigDecTag::new, &f, &b, size);
            value(ILByteArrayTag::new, &f, &b, size);
        }
        witness!();
    }
}
