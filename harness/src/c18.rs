//! C18: accepted bytes re-encode to a stable equivalent form.
use crate::kit::*;
use crate::mocks::*;
use crate::sym::*;
use il2_iltags::io::array::{ByteArrayReader, MemoryReader};
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::implicit::*;
use il2_iltags::tags::*;

/// Decodes a value that may be accepted: in that case what it is serialized to is accepted too and
/// is serialized to the same bytes.
fn stable_with<T: ILTag>(new: fn() -> T, f: &dyn ILTagFactory, bytes: &[u8]) -> Option<FixedWriter<16>> {
    let mut t = new();
    let mut r = ByteArrayReader::new(bytes);
    if !is_ok(t.deserialize_value(f, bytes.len(), &mut r)) {
        leak(t);
        return None;
    }
    let mut w = FixedWriter::<16>::new();
    assert!(is_ok(t.serialize_value(&mut w)));
    assert!(w.len as u64 == t.value_size());
    let mut u = new();
    let mut r = ByteArrayReader::new(&w.data);
    assert!(is_ok(u.deserialize_value(f, w.len, &mut r)));
    assert!(r.offset() == w.len && u.id() == t.id());
    let mut x = FixedWriter::<16>::new();
    assert!(is_ok(u.serialize_value(&mut x)));
    assert!(x.len == w.len);
    same(&x.data, &w.data, w.len);
    leak(t);
    leak(u);
    Some(w)
}

/// A canonical value, when it is accepted, is serialized as it is.
fn canonical<T: ILTag>(new: fn() -> T, bytes: &[u8]) -> bool {
    let mut t = new();
    let mut r = ByteArrayReader::new(bytes);
    let ok = is_ok(t.deserialize_value(&util::UntouchbleTagFactory {}, bytes.len(), &mut r));
    if ok {
        let mut w = FixedWriter::<16>::new();
        assert!(is_ok(t.serialize_value(&mut w)));
        assert!(w.len == bytes.len() && t.value_size() == bytes.len() as u64);
        same(&w.data, bytes, bytes.len());
    }
    leak(t);
    ok
}

fn exact<T: ILTag>(new: fn() -> T, bytes: &[u8]) {
    assert!(canonical(new, bytes));
}

fn stable<T: ILTag>(new: fn() -> T, bytes: &[u8]) -> Option<FixedWriter<16>> {
    stable_with(new, &util::UntouchbleTagFactory {}, bytes)
}

/// A whole tag in canonical form.
fn tag(f: &dyn ILTagFactory, bytes: &[u8]) {
    let t = decode(f, bytes, bytes.len());
    let mut w = FixedWriter::<16>::new();
    assert!(is_ok(t.serialize(&mut w)));
    assert!(w.len == bytes.len() && t.size() == w.len as u64);
    same(&w.data, bytes, bytes.len());
    leak(t);
}

/// A whole tag and its canonical form.
fn tag_to(f: &dyn ILTagFactory, bytes: &[u8], form: &[u8]) {
    let t = decode(f, bytes, bytes.len());
    let mut w = FixedWriter::<16>::new();
    assert!(is_ok(t.serialize(&mut w)));
    assert!(w.len == form.len() && t.size() == w.len as u64);
    same(&w.data, form, form.len());
    leak(t);
    tag(f, form);
}

harnesses! {
    /// Values of fixed size: any bytes.
    #[unwind(20)]
    fn c18q_fixed() {
        let b: [u8; 8] = any();
        let ok = canonical(ILBoolTag::new, &b[..1]);
        assert!(ok == (b[0] < 2));
        exact(ILInt8Tag::new, &b[..1]);
        exact(ILUInt8Tag::new, &b[..1]);
        exact(ILInt16Tag::new, &b[..2]);
        exact(ILUInt16Tag::new, &b[..2]);
        exact(ILInt32Tag::new, &b[..4]);
        exact(ILUInt32Tag::new, &b[..4]);
        exact(ILInt64Tag::new, &b[..8]);
        exact(ILUInt64Tag::new, &b[..8]);
        witness!(ok);
        witness!(!ok);
    }

    /// More of them.
    #[unwind(20)]
    fn c18q_wide() {
        let b: [u8; 16] = any();
        exact(ILNullTag::new, &[]);
        exact(ILBin32Tag::new, &b[..4]);
        exact(ILBin64Tag::new, &b[..8]);
        exact(ILBin128Tag::new, &b);
        exact(ILVersionTag::new, &b);
        witness!();
    }

    /// Contents: any bytes.
    #[unwind(20)]
    fn c18q_content() {
        let b: [u8; 6] = any();
        exact(|| ILRawTag::new(40), &b[..3]);
        exact(ILByteArrayTag::new, &b[..3]);
        exact(ILBigIntTag::new, &b[..3]);
        exact(ILBigIntTag::new, &b[..1]);
        exact(ILBigDecTag::new, &b);
        exact(ILBigDecTag::new, &b[..4]);
        witness!();
    }

    /// Strings: any three bytes.
    #[unwind(8)]
    fn c18q_string() {
        let b: [u8; 3] = any();
        let ok = canonical(ILStringTag::new, &b);
        witness!(ok && b[0] == 0xef && b[1] == 0xbb && b[2] == 0xbf);
        witness!(!ok);
    }

    /// Strings: any four bytes.
    #[unwind(8)]
    fn c18q_long_string() {
        let b: [u8; 4] = any();
        let ok = canonical(ILStringTag::new, &b);
        witness!(ok && b[0] == 0xf0);
    }

    /// ILInts: any bytes, minimal or not.
    #[unwind(12)]
    fn c18q_ilint() {
        let b: [u8; 2] = any();
        // Values from 248 to 503, in a form that is too long when there is a zero.
        match stable(ILILInt64Tag::new, &[249, b[0], b[1]]) {
            Some(w) => assert!(w.len == if b[0] == 0 { 2 } else { 3 }),
            None => panic!("refused"),
        }
        match stable(ILSignedILInt64Tag::new, &[249, b[0], b[1]]) {
            Some(w) => assert!(w.len == if b[0] == 0 { 2 } else { 3 }),
            None => panic!("refused"),
        }
        witness!(b[0] == 0);
    }

    /// ILInts: any nine bytes.
    #[unwind(12)]
    fn c18q_wide_ilint() {
        let b: [u8; 8] = any();
        let w = stable(ILILInt64Tag::new, &[255, b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]);
        assert!(w.is_some() == (u64::from_be_bytes(b) <= u64::MAX - 248));
        witness!(b[0] == 0);
    }

    /// Ranges, minimal or not.
    #[unwind(12)]
    fn c18q_range() {
        let b: [u8; 4] = any();
        let small = b[0];
        assume(small < 248);
        exact(ILRangeTag::new, &[small, b[1], b[2]]);
        exact(ILRangeTag::new, &[248, b[3], b[1], b[2]]);
        match stable(ILRangeTag::new, &[249, 0, b[3], b[1], b[2]]) {
            Some(w) => assert!(w.len == 4 && w.data[0] == 248 && w.data[1] == b[3] && w.data[2] == b[1] && w.data[3] == b[2]),
            None => panic!("refused"),
        }
        witness!();
    }

    /// Integer arrays in canonical form.
    #[unwind(12)]
    fn c18q_ints() {
        let b: u8 = any();
        exact(ILILIntArrayTag::new, &[0]);
        exact(ILILIntArrayTag::new, &[1, 248, b]);
        witness!();
    }

    /// OIDs in canonical form.
    #[unwind(12)]
    fn c18q_oid() {
        let b: u8 = any();
        exact(ILOIDTag::new, &[0]);
        exact(ILOIDTag::new, &[1, 248, b]);
        witness!();
    }

    /// Integer arrays in another form.
    #[unwind(12)]
    fn c18q_long_ints() {
        match stable(ILILIntArrayTag::new, &[2, 250, 0, 0, 5, 249, 0, 255]) {
            Some(w) => {
                assert!(w.len == 5);
                same(&w.data, &[2, 248, 5, 248, 255], 5);
            }
            None => panic!("refused"),
        }
        match stable(ILOIDTag::new, &[2, 250, 0, 0, 5, 249, 0, 255]) {
            Some(w) => {
                assert!(w.len == 5);
                same(&w.data, &[2, 248, 5, 248, 255], 5);
            }
            None => panic!("refused"),
        }
        witness!();
    }

    /// Sequences and arrays.
    #[unwind(12)]
    fn c18q_containers() {
        let b: [u8; 2] = any();
        let f = ByteFactory {};
        let seq = [40, 1, b[0], 40, 1, b[1]];
        match stable_with(ILTagSeqTag::new, &f, &seq) {
            Some(w) => {
                assert!(w.len == 6);
                same(&w.data, &seq, 6);
            }
            None => panic!("refused"),
        }
        let array = [2, 40, 1, b[0], 40, 1, b[1]];
        match stable_with(ILTagArrayTag::new, &f, &array) {
            Some(w) => {
                assert!(w.len == 7);
                same(&w.data, &array, 7);
            }
            None => panic!("refused"),
        }
        witness!();
    }

    /// Dictionaries: keys in any order, also repeated ones.
    #[unwind(30)]
    fn c18q_dict() {
        let f = ByteFactory {};
        let v: u8 = any();
        let one = [1, 17, 1, b'k', 40, 1, v];
        match stable_with(ILDictTag::new, &f, &one) {
            Some(w) => {
                assert!(w.len == 7);
                same(&w.data, &one, 7);
            }
            None => panic!("refused"),
        }
        let x: u8 = any();
        match stable_with(ILDictTag::new, &f, &[2, 17, 1, b'k', 40, 1, v, 17, 1, b'b', 40, 1, x]) {
            Some(w) => {
                assert!(w.len == 13);
                same(&w.data, &[2, 17, 1, b'b', 40, 1, x, 17, 1, b'k', 40, 1, v], 13);
            }
            None => panic!("refused"),
        }
        witness!();
    }

    /// Dictionaries with a repeated key.
    #[unwind(12)]
    fn c18q_dict_repeated() {
        let f = ByteFactory {};
        match stable_with(ILDictTag::new, &f, &[2, 17, 1, b'k', 40, 1, any(), 17, 1, b'k', 40, 1, any()]) {
            Some(w) => assert!(w.len == 7 && w.data[0] == 1 && w.data[3] == b'k'),
            None => (),
        }
        witness!();
    }

    /// String dictionaries.
    #[unwind(30)]
    fn c18q_strdict() {
        let v = b'v';
        match stable(ILStrDictTag::new, &[2, 17, 1, b'k', 17, 0, 17, 1, b'b', 17, 1, v]) {
            Some(w) => {
                assert!(w.len == 12);
                same(&w.data, &[2, 17, 1, b'b', 17, 1, v, 17, 1, b'k', 17, 0], 12);
            }
            None => panic!("refused"),
        }
        witness!();
    }

    /// Whole tags.
    #[unwind(30)]
    fn c18q_tags() {
        let f = std_factory();
        let b: [u8; 2] = any();
        tag(&*f, &[5, b[0], b[1]]);
        tag(&*f, &[16, 2, b[0], b[1]]);
        tag(&*f, &[19, 5, b[0], b[1], 0, 0, 1]);
        tag(&*f, &[248, 52, 1, b[0]]);
        witness!();
    }

    /// Nested tags.
    #[unwind(30)]
    fn c18q_nested_tags() {
        let f = std_factory();
        tag(&*f, &[22, 4, 22, 2, 3, any()]);
        witness!();
    }

    /// Whole tags in another form: long ids.
    #[unwind(30)]
    fn c18q_long_headers() {
        let f = std_factory();
        let b: [u8; 2] = any();
        tag_to(&*f, &[250, 0, 0, 52, 2, b[0], b[1]], &[248, 52, 2, b[0], b[1]]);
        tag_to(&*f, &[22, 5, 249, 0, 52, 1, b[0]], &[22, 4, 248, 52, 1, b[0]]);
        witness!();
    }
}
