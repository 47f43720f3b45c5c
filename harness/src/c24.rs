//! C24: equality and cloning follow the serialized form.
use crate::kit::*;
use crate::mocks::*;
use crate::sym::*;
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::implicit::*;
use il2_iltags::tags::util::*;
use il2_iltags::tags::*;

/// Any two tags of any ids with N and M bytes of content.
fn compare<const N: usize, const M: usize>(ia: u64, ib: u64) -> bool {
    let a = ElemTag::new(ia, &any::<[u8; N]>());
    let b = ElemTag::new(ib, &any::<[u8; M]>());
    let mut same = ia == ib && N == M;
    let mut i = 0;
    while i < N {
        same = same && a.body[i] == b.body[i];
        i += 1;
    }
    assert!(iltag_are_equal(&a, &b) == same);
    same
}

fn tags_equal<A: ILTag, B: ILTag>(a: A, b: B) -> bool {
    let r = iltag_are_equal(&a, &b);
    leak(a);
    leak(b);
    r
}

harnesses! {
    /// Tags with no content under any ids.
    #[unwind(12)]
    fn c24q_ids() {
        let same = compare::<0, 0>(any(), any());
        witness!(same);
        witness!(!same);
    }

    /// Any content of the same size.
    #[unwind(12)]
    fn c24q_content() {
        let same = compare::<2, 2>(40, 40);
        witness!(same);
        witness!(!same);
        let same = compare::<4, 4>(14, 14);
        witness!(same);
        witness!(!same);
        compare::<3, 3>(300, 300);
        compare::<3, 3>(300, 301);
        compare::<2, 2>(14, 15);
    }

    /// Contents of distinct sizes, one being the beginning of the other or not.
    #[unwind(12)]
    fn c24q_sizes() {
        compare::<0, 1>(40, 40);
        compare::<0, 1>(10, 10);
        compare::<3, 2>(40, 40);
        compare::<2, 3>(15, 15);
        compare::<4, 1>(14, 14);
        compare::<1, 2>(1, 16);
        compare::<2, 1>(15, 16);
        witness!();
    }

    /// A tag that cannot be serialized equals nothing.
    #[unwind(12)]
    fn c24q_failure() {
        let mut a = ElemTag::new(40, &any::<[u8; 1]>());
        let b = ElemTag::new(a.id, &[a.body[0]]);
        assert!(iltag_are_equal(&a, &a));
        assert!(iltag_are_equal(&a, &b));
        a.fail = true;
        assert!(!iltag_are_equal(&a, &b));
        assert!(!iltag_are_equal(&b, &a));
        assert!(!iltag_are_equal(&a, &a));
        let mut c = ElemTag::new(a.id, &[a.body[0]]);
        c.fail = true;
        assert!(!iltag_are_equal(&a, &c));
        witness!();
    }

    /// The types do not matter, only the bytes.
    #[unwind(12)]
    fn c24q_types() {
        let v: u16 = any();
        let b = v.to_be_bytes();
        let x: u16 = any();
        assert!(tags_equal(ILUInt16Tag::with_id_value(5, v), ElemTag::new(5, &b)));
        assert!(tags_equal(ILUInt16Tag::with_id_value(4, v), ILInt16Tag::with_value(x as i16)) == (v == x));
        assert!(tags_equal(ILRawTag::with_value(40, &b), ElemTag::new(40, &b)));
        assert!(tags_equal(ILRawTag::with_value(16, &b), ILByteArrayTag::with_value(&x.to_be_bytes())) == (v == x));
        // Not numbers and signed zeros are just bytes.
        let f: u32 = any();
        let g: u32 = any();
        assert!(tags_equal(ILBin32Tag::with_value(f32::from_bits(f)), ILBin32Tag::with_value(f32::from_bits(g))) == (f == g));
        witness!();
    }

    /// Cloning with a factory.
    #[unwind(12)]
    fn c24q_clone() {
        let v: u8 = any();
        let mut a = ByteTag(v);
        let c = match iltag_clone_with_factory(&ByteFactory {}, &a) {
            Ok(c) => c,
            Err(e) => {
                leak(e);
                panic!("clone failed")
            }
        };
        let mut c = typed::<ByteTag>(c, 40);
        assert!(c.0 == v);
        c.0 ^= 1;
        assert!(a.0 == v);
        a.0 ^= 2;
        assert!(c.0 == v ^ 1);
        witness!();
        leak(c);
    }

    /// What cannot be cloned.
    #[unwind(12)]
    fn c24q_clone_failure() {
        let mut a = ElemTag::new(40, &any::<[u8; 1]>());
        // The factory ignores the last byte.
        a.len = 1;
        let f = ByteFactory {};
        assert!(is_ok(iltag_clone_with_factory(&f, &a)));
        a.fail = true;
        assert!(kind(iltag_clone_with_factory(&f, &a)) == E::UnableToSerialize);
        let a = ElemTag::new(41, &[0]);
        assert!(kind(iltag_clone_with_factory(&f, &a)) == E::UnknownTag);
        let a = ElemTag::new(14, &[0]);
        assert!(!is_ok(iltag_clone_with_factory(&f, &a)));
        witness!();
    }

    /// Clones of the standard factory: numbers and raw tags.
    #[unwind(29)]
    fn c24q_std_clone() {
        let v: u16 = any();
        let a = ILUInt16Tag::with_value(v);
        let c = match iltag_clone(&a) {
            Ok(c) => c,
            Err(e) => {
                leak(e);
                panic!("clone failed")
            }
        };
        let c = typed::<ILUInt16Tag>(c, 5);
        assert!(c.value() == v);
        witness!();
        leak(c);
    }

    /// Clones of the standard factory: bytes, independent of the original.
    #[unwind(29)]
    fn c24q_std_clone_bytes() {
        let v: [u8; 2] = any();
        let mut a = ILByteArrayTag::with_value(&v);
        let c = match iltag_clone(&a) {
            Ok(c) => c,
            Err(e) => {
                leak(e);
                panic!("clone failed")
            }
        };
        let mut c = typed::<ILByteArrayTag>(c, 16);
        assert!(c.value().len() == 2 && c.value()[0] == v[0] && c.value()[1] == v[1]);
        c.mut_value()[0] ^= 1;
        assert!(a.value()[0] == v[0]);
        a.mut_value()[1] ^= 1;
        assert!(c.value()[1] == v[1]);
        witness!();
        leak(a);
        leak(c);
    }

    /// Clones of the standard factory: sequences.
    #[unwind(29)]
    fn c24q_std_clone_seq() {
        let v: u8 = any();
        let mut a = ILTagSeqTag::new();
        a.mut_value().push(Box::new(ILUInt8Tag::with_value(v)));
        let c = match iltag_clone(&a) {
            Ok(c) => c,
            Err(e) => {
                leak(e);
                panic!("clone failed")
            }
        };
        let c = typed::<ILTagSeqTag>(c, 22);
        assert!(c.value().len() == 1);
        assert!(tag_downcast_ref_with_id::<ILUInt8Tag>(3, c.value()[0].as_ref()).unwrap().value() == v);
        witness!();
        leak(a);
        leak(c);
    }
}
