//! C03: the mapping of signed values is a bijection that keeps small values small.
use crate::refs::*;
use crate::sym::*;
use il2_iltags::ilint;
use il2_iltags::io::array::*;
use il2_iltags::io::data::{self, *};
use il2_iltags::io::{Reader, Writer};
use il2_iltags::tags::serialization::*;

/// Writes `v` through an entry point: the bytes of its mapped value.
macro_rules! same_wire {
    ($v:ident, $w:ident => $e:expr) => {{
        let u = ref_encode_sign($v);
        let mut a = [0xAAu8; 10];
        let n = {
            let mut w = ByteArrayWriter::new(&mut a);
            {
                let $w = &mut w;
                assert!($e.is_ok());
            }
            w.get_offset()
        };
        assert!(n == ref_ilint_size(u));
        let i = any_upto(9);
        assert!(a[i] == if i < n { ref_ilint_byte(u, i) } else { 0xAA });
    }};
}

/// Reads an encoded `v` through an entry point.
macro_rules! same_value {
    ($v:ident, $r:ident => $e:expr) => {{
        let u = ref_encode_sign($v);
        let a = ref_ilint_bytes(u);
        let mut r = ByteArrayReader::new(&a);
        {
            let $r = &mut r;
            match $e {
                Ok(x) => assert!(x == $v),
                Err(_) => assert!(false),
            }
        }
        assert!(r.offset() == ref_ilint_size(u));
    }};
}

harnesses! {
    /// decode_sign(encode_sign(v)) == v for any i64, with the documented zigzag value.
    #[unwind(4)]
    fn c03q_signed_to_unsigned() {
        let v: i64 = any();
        let e = ilint::encode_sign(v);
        assert!(e == ref_encode_sign(v));
        assert!(ilint::decode_sign(e) == v);
        witness!(v == i64::MIN);
    }

    /// encode_sign(decode_sign(u)) == u for any u64.
    #[unwind(4)]
    fn c03q_unsigned_to_signed() {
        let u: u64 = any();
        let d = ilint::decode_sign(u);
        assert!(d == ref_decode_sign(u));
        assert!(ilint::encode_sign(d) == u);
        witness!(u == u64::MAX);
    }

    /// Signed encoding is the unsigned encoding of the mapped value, with the reported
    /// size, and decodes to the same i64.
    #[unwind(14)]
    fn c03q_roundtrip() {
        let v: i64 = any();
        let mut buf = [0u8; 9];
        let mut w = ByteArrayWriter::new(&mut buf);
        assert!(ilint::signed_encode(v, &mut w).is_ok());
        let n = w.get_offset();
        let e = ref_encode_sign(v);
        assert!(n == ilint::signed_encoded_size(v));
        assert!(n == ref_ilint_size(e));
        let i = any_upto(8);
        assume(i < n);
        assert!(buf[i] == ref_ilint_byte(e, i));
        let mut r = ByteArrayReader::new(&buf);
        match ilint::signed_decode(&mut r) {
            Ok(x) => assert!(x == v),
            Err(_) => assert!(false),
        }
        assert!(r.offset() == n);
        witness!(v == i64::MIN);
        witness!(v == -1);
    }

    /// The I/O and tag level helpers agree for any i64.
    #[unwind(14)]
    fn c03q_helpers() {
        let v: i64 = any();
        let mut a = [0u8; 9];
        let mut b = [0u8; 9];
        let na = {
            let mut w = ByteArrayWriter::new(&mut a);
            assert!(data::write_signed_ilint(v, &mut w).is_ok());
            w.get_offset()
        };
        let nb = {
            let mut w = ByteArrayWriter::new(&mut b);
            assert!(w.serialize_signed_ilint(v).is_ok());
            w.get_offset()
        };
        assert!(na == nb && na == ref_ilint_size(ref_encode_sign(v)));
        let mut r = ByteArrayReader::new(&b);
        match data::read_signed_ilint(&mut r) {
            Ok(x) => assert!(x == v),
            Err(_) => assert!(false),
        }
        assert!(r.offset() == nb);
        let mut r = ByteArrayReader::new(&a);
        match r.deserialize_signed_ilint() {
            Ok(x) => assert!(x == v),
            Err(_) => assert!(false),
        }
        assert!(r.offset() == na);
        witness!(na == 9);
    }

    /// The writer and serializer methods, over a concrete writer and `dyn` ones.
    #[unwind(14)]
    fn c03q_writer_methods() {
        let v: i64 = any();
        same_wire!(v, w => SignedILIntWriter::write_signed_ilint(w, v));
        same_wire!(v, w => { let d: &mut dyn Writer = w; SignedILIntWriter::write_signed_ilint(d, v) });
        same_wire!(v, w => SignedILIntSerializer::serialize_signed_ilint(w, v));
        witness!(v == -125);
    }

    /// The serializer methods over trait objects.
    #[unwind(14)]
    fn c03q_serializer_methods() {
        let v: i64 = any();
        same_wire!(v, w => { let d: &mut dyn Writer = w; SignedILIntSerializer::serialize_signed_ilint(d, v) });
        same_wire!(v, w => { let d: &mut dyn SignedILIntWriter = w; SignedILIntSerializer::serialize_signed_ilint(d, v) });
        witness!(v == -125);
    }

    /// The reader methods give back any encoded value.
    #[unwind(14)]
    fn c03q_reader_methods() {
        let v: i64 = any();
        same_value!(v, r => SignedILIntReader::read_signed_ilint(r));
        same_value!(v, r => { let d: &mut dyn Reader = r; SignedILIntReader::read_signed_ilint(d) });
        witness!(v == -125);
    }

    /// The deserializer methods give back any encoded value.
    #[unwind(14)]
    fn c03q_deserializer_methods() {
        let v: i64 = any();
        same_value!(v, r => SignedILIntDeserializer::deserialize_signed_ilint(r));
        same_value!(v, r => { let d: &mut dyn Reader = r; SignedILIntDeserializer::deserialize_signed_ilint(d) });
        same_value!(v, r => { let d: &mut dyn SignedILIntReader = r; SignedILIntDeserializer::deserialize_signed_ilint(d) });
        witness!(v == -125);
    }
}
