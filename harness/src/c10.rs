//! C10: fixed-size standard tags round-trip bit-exactly.
use crate::kit::*;
use crate::mocks::*;
use crate::refs::*;
use crate::sym::*;
use il2_iltags::io::array::{ByteArrayReader, MemoryReader};
use il2_iltags::tags::standard::implicit::*;
use il2_iltags::tags::*;

/// The tag is its id followed by `body` and decodes back with the standard factory.
fn roundtrip<T: ILTag, const N: usize>(f: &dyn ILTagFactory, t: T, id: u8, body: [u8; N]) -> Box<T> {
    assert!(t.id() == id as u64);
    assert!(t.value_size() == N as u64);
    let w = serialize::<20>(&t);
    assert!(w.len == N + 1);
    assert!(w.data[0] == id);
    same(&w.data[1..], &body, N);
    leak(t);
    typed::<T>(decode(f, &w.data, N + 1), id as u64)
}

/// Any size other than the own one is rejected without reading; explicit encodings (under
/// a custom id) hold the same body.
macro_rules! sizes {
    ($t:ty, $n:literal, $from:expr) => {{
        let data: [u8; 20] = any();
        let mut t = <$t>::with_id(200);
        let n: usize = any();
        let mut r = ByteArrayReader::new(&data);
        let k = decode_value(&mut t, n, &mut r);
        if n == $n {
            assert!(k == E::None && r.offset() == n);
            let w = serialize::<20>(&t);
            assert!(w.len == 2 + n && w.data[0] == 200 && w.data[1] as usize == n);
            same(&w.data[2..], &data, $n);
        } else {
            assert!(k == E::CorruptedData && r.offset() == 0);
        }
        witness!(k == E::None);
        witness!(k == E::CorruptedData);
        leak(t);
    }};
}

/// Constructors, setters and getters: any id and values, nothing else changes.
macro_rules! access {
    ($t:ident, $id:literal, $v:ty, $eq:expr) => {
        access!($t, $id, $v, $eq, any(), any())
    };
    ($t:ident, $id:literal, $v:ty, $eq:expr, $a:expr, $b:expr) => {{
        let id: u64 = any();
        let (a, b): ($v, $v) = ($a, $b);
        assert!($t::new().id() == $id && $eq($t::new().value(), <$v>::default()));
        assert!($t::default().id() == $id && $eq($t::default().value(), <$v>::default()));
        assert!($t::with_id(id).id() == id && $eq($t::with_id(id).value(), <$v>::default()));
        let t = <$t as DefaultWithId>::default_with_id(id);
        assert!(t.id() == id && $eq(t.value(), <$v>::default()));
        assert!($t::with_value(a).id() == $id && $eq($t::with_value(a).value(), a));
        let mut t = $t::with_id_value(id, a);
        assert!(t.id() == id && $eq(t.value(), a));
        t.set_value(b);
        assert!(t.id() == id && $eq(t.value(), b));
    }};
}

fn eq<T: PartialEq>(a: T, b: T) -> bool {
    a == b
}

fn eq32(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits()
}

fn eq64(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits()
}

harnesses! {
    /// Null, bool and 8-bit tags: any value through the standard factory.
    #[unwind(30)]
    fn c10q_small() {
        let f = std_factory();
        leak(roundtrip(&*f, ILNullTag::new(), 0, []));
        let v = any_bool();
        let t = roundtrip(&*f, ILBoolTag::with_value(v), 1, [v as u8]);
        assert!(t.value() == v);
        leak(t);
        let v: i8 = any();
        let t = roundtrip(&*f, ILInt8Tag::with_value(v), 2, v.to_be_bytes());
        assert!(t.value() == v);
        leak(t);
        let v: u8 = any();
        let t = roundtrip(&*f, ILUInt8Tag::with_value(v), 3, [v]);
        assert!(t.value() == v);
        leak(t);
        witness!();
    }

    /// 16 and 32-bit integer tags.
    #[unwind(30)]
    fn c10q_medium() {
        let f = std_factory();
        let v: i16 = any();
        let t = roundtrip(&*f, ILInt16Tag::with_value(v), 4, v.to_be_bytes());
        assert!(t.value() == v);
        leak(t);
        let v: u16 = any();
        let t = roundtrip(&*f, ILUInt16Tag::with_value(v), 5, v.to_be_bytes());
        assert!(t.value() == v);
        leak(t);
        let v: i32 = any();
        let t = roundtrip(&*f, ILInt32Tag::with_value(v), 6, v.to_be_bytes());
        assert!(t.value() == v);
        leak(t);
        let v: u32 = any();
        let t = roundtrip(&*f, ILUInt32Tag::with_value(v), 7, v.to_be_bytes());
        assert!(t.value() == v);
        leak(t);
        witness!();
    }

    /// 64-bit integer tags.
    #[unwind(30)]
    fn c10q_large() {
        let f = std_factory();
        let v: i64 = any();
        let t = roundtrip(&*f, ILInt64Tag::with_value(v), 8, v.to_be_bytes());
        assert!(t.value() == v);
        leak(t);
        let v: u64 = any();
        let t = roundtrip(&*f, ILUInt64Tag::with_value(v), 9, v.to_be_bytes());
        assert!(t.value() == v);
        leak(t);
        witness!();
    }

    /// 32, 64 and 128-bit binary tags: any bit pattern, NaN payloads included.
    #[unwind(30)]
    fn c10q_binary() {
        let f = std_factory();
        let b: u32 = any();
        let t = roundtrip(&*f, ILBin32Tag::with_value(f32::from_bits(b)), 11, b.to_be_bytes());
        assert!(t.value().to_bits() == b);
        witness!(f32::from_bits(b).is_nan());
        leak(t);
        let b: u64 = any();
        let t = roundtrip(&*f, ILBin64Tag::with_value(f64::from_bits(b)), 12, b.to_be_bytes());
        assert!(t.value().to_bits() == b);
        leak(t);
        let b: [u8; 16] = any();
        let t = roundtrip(&*f, ILBin128Tag::with_value(&b), 13, b);
        same(t.value(), &b, 16);
        leak(t);
    }

    /// ILInt tag: any value.
    #[unwind(30)]
    fn c10q_ilint() {
        let f = std_factory();
        let v: u64 = any();
        let t = ILILInt64Tag::with_value(v);
        let n = ref_ilint_size(v);
        assert!(t.value_size() == n as u64);
        let mut w = serialize::<12>(&t);
        assert!(w.len == n + 1);
        pin(&mut w, 0, 10);
        let i = any_upto(8);
        assume(i < n);
        assert!(w.data[i + 1] == ref_ilint_byte(v, i));
        let d = typed::<ILILInt64Tag>(decode(&*f, &w.data, n + 1), 10);
        assert!(d.value() == v);
        leak(d);
        witness!(n == 9);
        witness!(n == 2);
    }

    /// Signed ILInt tag: any value.
    #[unwind(30)]
    fn c10q_signed_ilint() {
        let f = std_factory();
        let v: i64 = any();
        let t = ILSignedILInt64Tag::with_value(v);
        let u = ref_encode_sign(v);
        let n = ref_ilint_size(u);
        assert!(t.value_size() == n as u64);
        let mut w = serialize::<12>(&t);
        assert!(w.len == n + 1);
        pin(&mut w, 0, 14);
        let i = any_upto(8);
        assume(i < n);
        assert!(w.data[i + 1] == ref_ilint_byte(u, i));
        let d = typed::<ILSignedILInt64Tag>(decode(&*f, &w.data, n + 1), 14);
        assert!(d.value() == v);
        leak(d);
        witness!(n == 9 && v < 0);
        witness!(n == 2 && v > 0);
    }

    /// Boolean values other than 0 and 1 are rejected.
    #[unwind(30)]
    fn c10q_invalid_bool() {
        let f = std_factory();
        let v: u8 = any();
        let data = [1, v];
        let mut r = ByteArrayReader::new(&data);
        let ret = f.deserialize(&mut r);
        if let Ok(t) = &ret {
            match tag_downcast_ref::<ILBoolTag>(t.as_ref()) {
                Some(t) => assert!(t.value() == (v == 1)),
                None => assert!(false),
            }
        }
        witness!(v == 1);
        witness!(v == 2);
        assert!(kind(ret) == if v < 2 { E::None } else { E::CorruptedData });
        let mut t = ILBoolTag::with_value(any_bool());
        let old = t.value();
        let mut r = ByteArrayReader::new(&data[1..]);
        let k = decode_value(&mut t, 1, &mut r);
        assert!((k == E::None) == (v < 2));
        assert!(t.value() == if v < 2 { v == 1 } else { old });
    }

    /// Only the own value size is accepted, for any 64-bit size; custom ids are explicit.
    #[unwind(18)]
    fn c10q_sizes() {
        sizes!(ILInt8Tag, 1, i8::from_be_bytes);
        sizes!(ILUInt8Tag, 1, u8::from_be_bytes);
        sizes!(ILInt16Tag, 2, i16::from_be_bytes);
        sizes!(ILUInt16Tag, 2, u16::from_be_bytes);
        sizes!(ILInt32Tag, 4, i32::from_be_bytes);
        sizes!(ILUInt32Tag, 4, u32::from_be_bytes);
    }

    /// The same for 64-bit and binary tags.
    #[unwind(18)]
    fn c10q_sizes_large() {
        sizes!(ILInt64Tag, 8, i64::from_be_bytes);
        sizes!(ILUInt64Tag, 8, u64::from_be_bytes);
        sizes!(ILBin32Tag, 4, f32::from_be_bytes);
        sizes!(ILBin64Tag, 8, f64::from_be_bytes);
        sizes!(ILBin128Tag, 16, u128::from_be_bytes);
        sizes!(ILNullTag, 0, ());
    }

    /// Values set later replace the initial ones; getters agree with the setters.
    #[unwind(18)]
    fn c10q_setters() {
        let mut t = ILBoolTag::with_value(any_bool());
        let v = any_bool();
        t.set_value(v);
        assert!(t.value() == v);
        assert!(serialize::<4>(&t).data[1] == v as u8);
        let mut t = ILUInt16Tag::with_id_value(any(), any());
        let v: u16 = any();
        t.set_value(v);
        assert!(t.value() == v);
        let mut t = ILILInt64Tag::with_value(any());
        let v: u64 = any();
        t.set_value(v);
        assert!(t.value() == v && t.value_size() == ref_ilint_size(v) as u64);
        let mut t = ILSignedILInt64Tag::with_value(any());
        let v: i64 = any();
        t.set_value(v);
        assert!(t.value() == v && t.value_size() == ref_ilint_size(ref_encode_sign(v)) as u64);
        let a: [u8; 16] = any();
        let b: [u8; 16] = any();
        let mut t = ILBin128Tag::with_id_value(13, &a);
        same(t.value(), &a, 16);
        t.set_value(&b);
        same(t.value(), &b, 16);
        let v: u32 = any();
        let mut t = ILBin32Tag::default();
        assert!(t.value().to_bits() == 0);
        t.set_value(f32::from_bits(v));
        assert!(t.value().to_bits() == v);
        witness!();
    }

    /// Constructors, setters and getters of every type.
    #[unwind(18)]
    fn c10q_access() {
        access!(ILInt8Tag, 2, i8, eq);
        access!(ILUInt8Tag, 3, u8, eq);
        access!(ILInt16Tag, 4, i16, eq);
        access!(ILUInt16Tag, 5, u16, eq);
        access!(ILInt32Tag, 6, i32, eq);
        access!(ILUInt32Tag, 7, u32, eq);
        access!(ILInt64Tag, 8, i64, eq);
        access!(ILUInt64Tag, 9, u64, eq);
        access!(ILILInt64Tag, 10, u64, eq);
        access!(ILBin32Tag, 11, f32, eq32, f32::from_bits(any()), f32::from_bits(any()));
        access!(ILBin64Tag, 12, f64, eq64, f64::from_bits(any()), f64::from_bits(any()));
        access!(ILSignedILInt64Tag, 14, i64, eq);
        witness!();
    }

    /// The same for null, boolean and 128-bit tags.
    #[unwind(18)]
    fn c10q_access_more() {
        let id: u64 = any();
        assert!(ILNullTag::new().id() == 0 && ILNullTag::default().id() == 0);
        assert!(ILNullTag::with_id(id).id() == id);
        assert!(<ILNullTag as DefaultWithId>::default_with_id(id).id() == id);
        let (x, y) = (any_bool(), any_bool());
        assert!(ILBoolTag::new().id() == 1 && !ILBoolTag::default().value());
        assert!(ILBoolTag::with_id(id).id() == id && !ILBoolTag::with_id(id).value());
        assert!(<ILBoolTag as DefaultWithId>::default_with_id(id).id() == id);
        let mut t = ILBoolTag::with_id_value(id, x);
        assert!(t.id() == id && t.value() == x);
        t.set_value(y);
        assert!(t.id() == id && t.value() == y);
        let (a, b): ([u8; 16], [u8; 16]) = (any(), any());
        assert!(ILBin128Tag::new().id() == 13 && ILBin128Tag::default().id() == 13);
        same(ILBin128Tag::new().value(), &[0; 16], 16);
        assert!(ILBin128Tag::with_id(id).id() == id);
        assert!(<ILBin128Tag as DefaultWithId>::default_with_id(id).id() == id);
        assert!(ILBin128Tag::with_value(&a).id() == 13);
        same(ILBin128Tag::with_value(&a).value(), &a, 16);
        let mut t = ILBin128Tag::with_id_value(id, &a);
        assert!(t.id() == id);
        same(t.value(), &a, 16);
        t.set_value(&b);
        assert!(t.id() == id);
        same(t.value(), &b, 16);
        witness!();
    }
}
