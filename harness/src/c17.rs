//! C17: truncated encodings are always rejected.
use crate::kit::*;
use crate::mocks::*;
use crate::sym::*;
use il2_iltags::io::array::ByteArrayReader;
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::implicit::*;
use il2_iltags::tags::*;

/// The value is accepted, but no prefix of it is when the declared size is that of the value.
fn value_with<T: ILTag>(new: fn() -> T, f: &dyn ILTagFactory, bytes: &[u8]) {
    let mut t = new();
    let mut r = ByteArrayReader::new(bytes);
    assert!(is_ok(t.deserialize_value(f, bytes.len(), &mut r)));
    leak(t);
    let mut n = 0;
    while n < bytes.len() {
        let mut t = new();
        let mut r = ByteArrayReader::new(&bytes[..n]);
        assert!(!is_ok(t.deserialize_value(f, bytes.len(), &mut r)));
        leak(t);
        n += 1;
    }
}

fn value<T: ILTag>(new: fn() -> T, bytes: &[u8]) {
    value_with(new, &util::UntouchbleTagFactory {}, bytes);
}

fn nested<T: ILTag>(new: fn() -> T, bytes: &[u8]) {
    value_with(new, &ByteFactory {}, bytes);
}

/// No prefix of the value is accepted when the declared size ends with it either: the value tells
/// how much there has to be. (What comes next is not part of it.)
fn short<T: ILTag>(new: fn() -> T, f: &dyn ILTagFactory, bytes: &[u8]) {
    let mut n = 0;
    while n < bytes.len() {
        let mut t = new();
        let mut r = ByteArrayReader::new(&bytes[..n]);
        assert!(!is_ok(t.deserialize_value(f, n, &mut r)));
        leak(t);
        let mut t = new();
        let mut r = ByteArrayReader::new(bytes);
        assert!(!is_ok(t.deserialize_value(f, n, &mut r)));
        leak(t);
        n += 1;
    }
}

/// The tag is accepted, but no prefix of it is, from a reader or from bytes.
fn tag(f: &dyn ILTagFactory, bytes: &[u8]) {
    leak(decode(f, bytes, bytes.len()));
    let mut n = 0;
    while n < bytes.len() {
        let mut r = ByteArrayReader::new(&bytes[..n]);
        assert!(!is_ok(f.deserialize(&mut r)));
        n += 1;
    }
}

/// The same for a reader that only reads bytes.
fn tag_from_stream(f: &dyn ILTagFactory, bytes: &[u8]) {
    let mut n = 0;
    while n < bytes.len() {
        let mut r = ByteReader::new(&bytes[..n]);
        assert!(!is_ok(f.deserialize(&mut r)));
        n += 1;
    }
}

fn tag_into<T: ILTag>(f: &dyn ILTagFactory, mut t: T, bytes: &[u8]) {
    let mut n = 0;
    while n < bytes.len() {
        let mut r = ByteArrayReader::new(&bytes[..n]);
        assert!(!is_ok(f.deserialize_into(&mut r, &mut t)));
        n += 1;
    }
    leak(t);
}

harnesses! {
    /// Values of fixed size.
    #[unwind(20)]
    fn c17q_fixed() {
        let b: [u8; 8] = any();
        value(ILBoolTag::new, &[1]);
        value(ILInt8Tag::new, &b[..1]);
        value(ILUInt8Tag::new, &b[..1]);
        value(ILInt16Tag::new, &b[..2]);
        value(ILUInt16Tag::new, &b[..2]);
        value(ILInt32Tag::new, &b[..4]);
        value(ILUInt32Tag::new, &b[..4]);
        value(ILInt64Tag::new, &b[..8]);
        witness!();
    }

    /// More values of fixed size.
    #[unwind(20)]
    fn c17q_wide() {
        let b: [u8; 16] = any();
        value(ILUInt64Tag::new, &b[..8]);
        value(ILBin32Tag::new, &b[..4]);
        value(ILBin64Tag::new, &b[..8]);
        value(ILBin128Tag::new, &b);
        value(ILVersionTag::new, &b);
        witness!();
    }

    /// ILInts of several sizes: the declared size does not matter.
    #[unwind(20)]
    fn c17q_ilint() {
        let b: [u8; 7] = any();
        value(ILILInt64Tag::new, &[249, b[0], b[1]]);
        value(ILILInt64Tag::new, &[255, 1, b[0], b[1], b[2], b[3], b[4], b[5], b[6]]);
        value(ILSignedILInt64Tag::new, &[248, b[0]]);
        value(ILSignedILInt64Tag::new, &[253, b[0], b[1], b[2], b[3], b[4], b[5]]);
        value(ILRangeTag::new, &[250, b[0], b[1], b[2], b[3], b[4]]);
        witness!();
    }

    /// Contents.
    #[unwind(20)]
    fn c17q_content() {
        let b: [u8; 7] = any();
        value(|| ILRawTag::new(40), &b[..4]);
        value(ILByteArrayTag::new, &b[..4]);
        value(ILBigIntTag::new, &b[..4]);
        value(ILBigDecTag::new, &b[..6]);
        value(ILStringTag::new, b"abc");
        witness!();
    }

    /// Integer arrays.
    #[unwind(20)]
    fn c17q_ints() {
        let b: [u8; 3] = any();
        value(ILILIntArrayTag::new, &[2, 248, b[0], 249, b[1], b[2]]);
        value(ILILIntArrayTag::new, &[0]);
        value(ILOIDTag::new, &[3, 1, 248, b[0], 9]);
        witness!();
    }

    /// Containers.
    #[unwind(20)]
    fn c17q_containers() {
        let b: [u8; 2] = any();
        nested(ILTagSeqTag::new, &[40, 1, b[0], 40, 1, b[1]]);
        nested(ILTagArrayTag::new, &[2, 40, 1, b[0], 40, 1, b[1]]);
        nested(ILTagArrayTag::new, &[0]);
        witness!();
    }

    /// Dictionaries.
    #[unwind(20)]
    fn c17q_dict() {
        nested(ILDictTag::new, &[1, 17, 1, b'k', 40, 1, any()]);
        nested(ILDictTag::new, &[0]);
        witness!();
    }

    /// String dictionaries.
    #[unwind(20)]
    fn c17q_strdict() {
        value(ILStrDictTag::new, &[1, 17, 1, b'k', 17, 1, b'v']);
        value(ILStrDictTag::new, &[0]);
        witness!();
    }

    /// Strings without a tag.
    #[unwind(20)]
    fn c17q_string() {
        let b = [17, 3, b'a', b'b', b'c'];
        let mut n = 0;
        while n <= 5 {
            let ret = deserialize_string_tag_from_value(&mut ByteArrayReader::new(&b[..n]));
            assert!(is_ok(ret) == (n == 5));
            n += 1;
        }
        witness!();
    }

    /// Whole implicit tags.
    #[unwind(30)]
    fn c17q_tags() {
        let f = std_factory();
        let b: [u8; 4] = any();
        tag(&*f, &[0]);
        tag(&*f, &[5, b[0], b[1]]);
        tag(&*f, &[10, 249, b[0], b[1]]);
        tag(&*f, &[14, 248, b[0]]);
        witness!();
    }

    /// Whole explicit tags.
    #[unwind(30)]
    fn c17q_explicit_tags() {
        let f = std_factory();
        let b: [u8; 4] = any();
        tag(&*f, &[16, 2, b[0], b[1]]);
        tag(&*f, &[249, 3, 240, 2, b[1], b[2]]);
        witness!();
    }

    /// Whole tags read byte by byte.
    #[unwind(30)]
    fn c17q_stream() {
        let f = std_factory();
        let b: [u8; 4] = any();
        tag_from_stream(&*f, &[7, b[0], b[1], b[2], b[3]]);
        tag_from_stream(&*f, &[18, 3, b[0], b[1], b[2]]);
        witness!();
    }

    /// Nested tags.
    #[unwind(30)]
    fn c17q_nested_tags() {
        let f = std_factory();
        tag(&*f, &[22, 5, 22, 3, 16, 1, any()]);
        witness!();
    }

    /// Tags that exist.
    #[unwind(30)]
    fn c17q_into() {
        let f = std_factory();
        let b: [u8; 4] = any();
        tag_into(&*f, ILUInt16Tag::new(), &[5, b[0], b[1]]);
        tag_into(&*f, ILByteArrayTag::new(), &[16, 3, b[0], b[1], b[2]]);
        tag_into(&*f, ILRawTag::new(40), &[40, 2, b[0], b[1]]);
        witness!();
    }

    /// Declared sizes that end before the last value.
    #[unwind(20)]
    fn c17q_short_ints() {
        let b: [u8; 3] = any();
        let f = util::UntouchbleTagFactory {};
        short(ILILIntArrayTag::new, &f, &[2, 7, 249, b[1], b[2]]);
        short(ILOIDTag::new, &f, &[3, 1, 248, b[0], 9]);
        witness!();
    }

    #[unwind(20)]
    fn c17q_short_fixed() {
        let b: [u8; 16] = any();
        let f = util::UntouchbleTagFactory {};
        short(ILUInt32Tag::new, &f, &b[..4]);
        short(ILBigDecTag::new, &f, &b[..4]);
        short(ILRangeTag::new, &f, &[248, b[0], b[1], b[2]]);
        short(ILVersionTag::new, &f, &b);
        witness!();
    }

    #[unwind(20)]
    fn c17q_short_array() {
        let b: [u8; 2] = any();
        short(ILTagArrayTag::new, &ByteFactory {}, &[2, 40, 1, b[0], 40, 1, b[1]]);
        witness!();
    }

    #[unwind(20)]
    fn c17q_short_dict() {
        short(ILDictTag::new, &ByteFactory {}, &[1, 17, 1, b'k', 40, 1, any()]);
        witness!();
    }

    #[unwind(20)]
    fn c17q_short_strdict() {
        short(ILStrDictTag::new, &util::UntouchbleTagFactory {}, &[1, 17, 1, b'k', 17, 1, b'v']);
        witness!();
    }
}
