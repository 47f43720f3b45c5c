//! C26: I/O failures always surface as errors.
use crate::kit::*;
use crate::mocks::*;
use crate::sym::*;
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::implicit::*;
use il2_iltags::tags::*;

/// Makes each call of the writer fail: returns how many there are.
fn writes<T: ILTag>(t: &T) -> usize {
    let mut good = FixedWriter::<32>::new();
    assert!(is_ok(t.serialize(&mut good)));
    let mut at = 0;
    loop {
        let mut w = FailWriter::<32>::new(at);
        let k = kind(t.serialize(&mut w));
        if !w.failed {
            assert!(k == E::None && w.out.len == good.len);
            return at;
        }
        assert!(k == E::Io);
        assert!(w.out.len == w.before && w.before < good.len);
        same(&w.out.data, &good.data, w.before);
        at += 1;
    }
}

fn written<T: ILTag>(t: T, min: usize) {
    assert!(writes(&t) >= min);
    leak(t);
}

/// Makes each call of the reader fail while decoding a value.
fn reads<T: ILTag>(new: fn() -> T, f: &dyn ILTagFactory, bytes: &[u8]) -> usize {
    let mut at = 0;
    loop {
        let mut r = FailReader::new(bytes, at);
        let mut t = new();
        let k = kind(t.deserialize_value(f, bytes.len(), &mut r));
        leak(t);
        if !r.failed {
            assert!(k == E::None && r.data.pos == bytes.len());
            return at;
        }
        assert!(k == E::Io);
        at += 1;
    }
}

fn read<T: ILTag>(new: fn() -> T, bytes: &[u8], min: usize) {
    assert!(reads(new, &util::UntouchbleTagFactory {}, bytes) >= min);
}

fn nested<T: ILTag>(new: fn() -> T, bytes: &[u8], min: usize) {
    assert!(reads(new, &ByteFactory {}, bytes) >= min);
}

/// Makes each call of the reader fail while decoding a tag.
fn decoded(f: &dyn ILTagFactory, bytes: &[u8], min: usize) {
    let mut at = 0;
    loop {
        let mut r = FailReader::new(bytes, at);
        let k = kind(f.deserialize(&mut r));
        if !r.failed {
            assert!(k == E::None && r.data.pos == bytes.len());
            break;
        }
        assert!(k == E::Io);
        at += 1;
    }
    assert!(at >= min);
}

fn decoded_into<T: ILTag>(f: &dyn ILTagFactory, t: &mut T, bytes: &[u8], min: usize) {
    let mut at = 0;
    loop {
        let mut r = FailReader::new(bytes, at);
        let k = kind(f.deserialize_into(&mut r, t));
        if !r.failed {
            assert!(k == E::None && r.data.pos == bytes.len());
            break;
        }
        assert!(k == E::Io);
        at += 1;
    }
    assert!(at >= min);
}

harnesses! {
    /// Writing of tags of fixed size.
    #[unwind(20)]
    fn c26q_write_fixed() {
        written(ILNullTag::new(), 1);
        written(ILBoolTag::with_value(any_bool()), 2);
        written(ILInt8Tag::with_value(any::<u8>() as i8), 2);
        written(ILUInt8Tag::with_value(any()), 2);
        written(ILInt16Tag::with_value(any()), 2);
        written(ILUInt16Tag::with_value(any()), 2);
        written(ILInt32Tag::with_value(any()), 2);
        written(ILUInt32Tag::with_value(any()), 2);
        witness!();
    }

    /// Writing of more tags of fixed size.
    #[unwind(20)]
    fn c26q_write_wide() {
        written(ILInt64Tag::with_value(any()), 2);
        written(ILUInt64Tag::with_value(any()), 2);
        written(ILBin32Tag::with_value(f32::from_bits(any())), 2);
        written(ILBin64Tag::with_value(f64::from_bits(any())), 2);
        written(ILBin128Tag::with_value(&any()), 2);
        written(ILILInt64Tag::with_value(1000), 2);
        written(ILSignedILInt64Tag::with_value(-1000), 2);
        written(ILVersionTag::with_value(any(), any(), any(), any()), 3);
        witness!();
    }

    /// Writing of tags with content.
    #[unwind(20)]
    fn c26q_write_content() {
        let v: [u8; 2] = any();
        written(ILRawTag::with_value(300, &v), 3);
        written(ILByteArrayTag::with_value(&v), 3);
        written(ILBigIntTag::with_value(&v), 3);
        written(ILBigDecTag::with_value(any(), &v), 4);
        written(ILStringTag::with_value("ab"), 3);
        written(ILILIntArrayTag::with_value(&[1, 300]), 5);
        written(ILOIDTag::with_value(&[1, 300]), 5);
        written(ILRangeTag::with_value(300, any()), 4);
        witness!();
    }

    /// Writing of containers.
    #[unwind(20)]
    fn c26q_write_containers() {
        let v: u8 = any();
        let mut t = ILTagSeqTag::new();
        t.mut_value().push(Box::new(ByteTag(v)));
        t.mut_value().push(Box::new(ByteTag(v)));
        written(t, 8);
        let mut t = ILTagArrayTag::new();
        t.mut_value().push(Box::new(ByteTag(v)));
        t.mut_value().push(Box::new(ByteTag(v)));
        written(t, 9);
        witness!();
    }

    /// Writing of dictionaries.
    #[unwind(20)]
    fn c26q_write_dict() {
        let mut t = ILDictTag::new();
        insert_new(t.mut_value(), "b", Box::new(ByteTag(any())));
        insert_new(t.mut_value(), "a", Box::new(ByteTag(any())));
        written(t, 10);
        witness!();
    }

    /// Writing of string dictionaries.
    #[unwind(20)]
    fn c26q_write_strdict() {
        let mut t = ILStrDictTag::new();
        insert_new(t.mut_value(), "b", String::from("x"));
        insert_new(t.mut_value(), "a", String::from("y"));
        written(t, 10);
        witness!();
    }

    /// Writing of strings with no tag.
    #[unwind(20)]
    fn c26q_write_string() {
        let mut at = 0;
        loop {
            let mut w = FailWriter::<32>::new(at);
            let k = kind(serialize_string_tag_from_value("abc", &mut w));
            if !w.failed {
                assert!(k == E::None && w.out.len == 5);
                break;
            }
            assert!(k == E::Io && w.out.len == w.before);
            at += 1;
        }
        assert!(at >= 3);
        witness!();
    }

    /// Reading of tags of fixed size.
    #[unwind(20)]
    fn c26q_read_fixed() {
        let b: [u8; 16] = any();
        read(ILBoolTag::new, &[1], 1);
        read(ILInt8Tag::new, &b[..1], 1);
        read(ILUInt8Tag::new, &b[..1], 1);
        read(ILInt16Tag::new, &b[..2], 1);
        read(ILUInt16Tag::new, &b[..2], 1);
        read(ILInt32Tag::new, &b[..4], 1);
        read(ILUInt32Tag::new, &b[..4], 1);
        read(ILInt64Tag::new, &b[..8], 1);
        read(ILUInt64Tag::new, &b[..8], 1);
        read(ILBin32Tag::new, &b[..4], 1);
        read(ILBin64Tag::new, &b[..8], 1);
        read(ILBin128Tag::new, &b, 1);
        read(ILVersionTag::new, &b, 1);
        witness!();
    }

    /// Reading of tags with content.
    #[unwind(20)]
    fn c26q_read_content() {
        let b: [u8; 6] = any();
        read(|| ILRawTag::new(40), &b[..2], 1);
        read(ILByteArrayTag::new, &b[..2], 1);
        read(ILBigIntTag::new, &b[..2], 1);
        read(ILBigDecTag::new, &b, 2);
        read(ILStringTag::new, b"ab", 1);
        witness!();
    }

    /// Reading of tags with ILInts.
    #[unwind(20)]
    fn c26q_read_ilint() {
        let b: [u8; 2] = any();
        read(ILILInt64Tag::new, &[249, b[0], b[1]], 2);
        read(ILSignedILInt64Tag::new, &[249, b[0], b[1]], 2);
        read(ILRangeTag::new, &[248, b[0], 1, b[1]], 3);
        read(ILILIntArrayTag::new, &[2, 248, b[0], 248, b[1]], 5);
        read(ILOIDTag::new, &[2, 248, b[0], 7], 4);
        witness!();
    }

    /// Reading of containers.
    #[unwind(20)]
    fn c26q_read_containers() {
        let b: [u8; 2] = any();
        nested(ILTagSeqTag::new, &[40, 1, b[0], 40, 1, b[1]], 6);
        nested(ILTagArrayTag::new, &[2, 40, 1, b[0], 40, 1, b[1]], 7);
        witness!();
    }

    /// Reading of dictionaries.
    #[unwind(20)]
    fn c26q_read_dict() {
        nested(ILDictTag::new, &[1, 17, 1, b'k', 40, 1, any()], 7);
        witness!();
    }

    /// Reading of string dictionaries.
    #[unwind(20)]
    fn c26q_read_strdict() {
        read(ILStrDictTag::new, &[1, 17, 1, b'k', 17, 1, b'v'], 7);
        witness!();
    }

    /// Reading through the standard factory.
    #[unwind(30)]
    fn c26q_decode() {
        let f = std_factory();
        let b: [u8; 2] = any();
        decoded(&*f, &[5, b[0], b[1]], 2);
        decoded(&*f, &[248, 52, 1, b[0]], 4);
        decoded(&*f, &[16, 2, b[0], b[1]], 3);
        witness!();
    }

    /// Reading through the standard factory in tags that exist.
    #[unwind(30)]
    fn c26q_decode_into() {
        let f = std_factory();
        let b: [u8; 2] = any();
        decoded_into(&*f, &mut ILInt16Tag::new(), &[4, b[0], b[1]], 2);
        let mut t = ILBigIntTag::new();
        decoded_into(&*f, &mut t, &[18, 2, b[0], b[1]], 3);
        witness!();
        leak(t);
    }

    /// Reading of nested tags through the standard factory.
    #[unwind(30)]
    fn c26q_decode_nested() {
        let f = std_factory();
        decoded(&*f, &[22, 5, 22, 3, 16, 1, any()], 7);
        witness!();
    }
}
