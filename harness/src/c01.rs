//! C01: ILInt encoding is canonical and round-trips.
use crate::refs::*;
use crate::sym::*;
use il2_iltags::ilint;
use il2_iltags::io::array::*;
use il2_iltags::io::data::{self, *};
use il2_iltags::io::{Reader, Writer};
use il2_iltags::tags::serialization::*;
use il2_iltags::tags;

/// Writes `v` in a fresh buffer through an entry point and checks the bytes.
macro_rules! same_wire {
    ($v:ident, $w:ident => $e:expr) => {{
        let mut a = [0xAAu8; 10];
        let n = {
            let mut w = ByteArrayWriter::new(&mut a);
            {
                let $w = &mut w;
                assert!($e.is_ok());
            }
            w.get_offset()
        };
        assert!(n == ref_ilint_size($v));
        let i = any_upto(9);
        assert!(a[i] == if i < n { ref_ilint_byte($v, i) } else { 0xAA });
    }};
}

/// Reads an encoded `v` through an entry point.
macro_rules! same_value {
    ($v:ident, $r:ident => $e:expr) => {{
        let a = ref_ilint_bytes($v);
        let mut r = ByteArrayReader::new(&a);
        {
            let $r = &mut r;
            match $e {
                Ok(x) => assert!(x == $v),
                Err(_) => assert!(false),
            }
        }
        assert!(r.offset() == ref_ilint_size($v));
    }};
}

harnesses! {
    /// encode then decode gives back any u64, using exactly encoded_size bytes.
    #[unwind(14)]
    fn c01q_roundtrip() {
        let v: u64 = any();
        let mut buf = [0xAAu8; 10];
        let mut w = ByteArrayWriter::new(&mut buf);
        assert!(ilint::encode(v, &mut w).is_ok());
        let n = w.get_offset();
        assert!(n == ilint::encoded_size(v));
        assert!(buf[9] == 0xAA);
        let mut r = ByteArrayReader::new(&buf);
        match ilint::decode(&mut r) {
            Ok(x) => assert!(x == v),
            Err(_) => assert!(false),
        }
        assert!(r.offset() == n);
        match ilint::decode_from_bytes(&buf[..n]) {
            Ok((x, s)) => assert!(x == v && s == n),
            Err(_) => assert!(false),
        }
        witness!(n == 9);
        witness!(n == 1);
    }

    /// Every byte of the encoding of any u64 is the documented one: 1 byte below
    /// 248, otherwise F8 + n - 1 and the shortest big-endian form of v - 248.
    #[unwind(14)]
    fn c01q_wire() {
        let v: u64 = any();
        let mut w = VecWriter::new();
        assert!(ilint::encode(v, &mut w).is_ok());
        let b = w.as_slice();
        assert!(b.len() == ref_ilint_size(v));
        let i = any_upto(8);
        assume(i < b.len());
        assert!(b[i] == ref_ilint_byte(v, i));
        witness!(b.len() == 5 && i == 3);
        leak(w);
    }

    /// encoded_size is the size of the shortest documented encoding, and never
    /// decreases with the value.
    #[unwind(14)]
    fn c01q_size() {
        let v: u64 = any();
        let u: u64 = any();
        assert!(ilint::encoded_size(v) == ref_ilint_size(v));
        assert!(ilint::decoded_size(ref_ilint_byte(v, 0)) == ref_ilint_size(v));
        if u <= v {
            assert!(ilint::encoded_size(u) <= ilint::encoded_size(v));
        }
        witness!(v == u64::MAX);
        witness!(v == 248);
    }

    /// The I/O and tag level helpers use the very same encoding.
    #[unwind(14)]
    fn c01q_helpers() {
        let v: u64 = any();
        let mut a = [0u8; 9];
        let mut b = [0u8; 9];
        let na = {
            let mut w = ByteArrayWriter::new(&mut a);
            assert!(data::write_ilint(v, &mut w).is_ok());
            w.get_offset()
        };
        let nb = {
            let mut w = ByteArrayWriter::new(&mut b);
            assert!(tags::serialize_ilint(v, &mut w).is_ok());
            w.get_offset()
        };
        assert!(na == ref_ilint_size(v) && nb == na);
        let i = any_upto(8);
        assume(i < na);
        assert!(a[i] == ref_ilint_byte(v, i) && b[i] == a[i]);
        let mut r = ByteArrayReader::new(&a);
        match data::read_ilint(&mut r) {
            Ok(x) => assert!(x == v),
            Err(_) => assert!(false),
        }
        assert!(r.offset() == na);
        let mut r = ByteArrayReader::new(&a);
        match tags::deserialize_ilint(&mut r) {
            Ok(x) => assert!(x == v),
            Err(_) => assert!(false),
        }
        assert!(r.offset() == na);
        witness!(na == 9);
    }

    /// A writer with less room than the encoding: an error, never a shorter or
    /// different encoding reported as success.
    #[unwind(14)]
    fn c01q_no_room() {
        let v: u64 = any();
        let room = any_upto(9);
        let mut a = [0u8; 9];
        let mut w = ByteArrayWriter::new(&mut a[..room]);
        let ok = ilint::encode(v, &mut w).is_ok();
        assert!(ok == (room >= ref_ilint_size(v)));
        witness!(ok && room == 9);
        witness!(!ok && room == 8);
    }

    /// The writer methods, over a concrete writer and over `dyn Writer`.
    #[unwind(14)]
    fn c01q_writer_methods() {
        let v: u64 = any();
        same_wire!(v, w => ILIntWriter::write_ilint(w, v));
        same_wire!(v, w => { let d: &mut dyn Writer = w; ILIntWriter::write_ilint(d, v) });
        witness!(v == 248);
    }

    /// The serializer methods, over a concrete writer, `dyn Writer` and `dyn ILIntWriter`.
    #[unwind(14)]
    fn c01q_serializer_methods() {
        let v: u64 = any();
        same_wire!(v, w => ILIntSerializer::serialize_ilint(w, v));
        same_wire!(v, w => { let d: &mut dyn Writer = w; ILIntSerializer::serialize_ilint(d, v) });
        same_wire!(v, w => { let d: &mut dyn ILIntWriter = w; ILIntSerializer::serialize_ilint(d, v) });
        witness!(v == 248);
    }

    /// The reader methods give back any encoded value.
    #[unwind(14)]
    fn c01q_reader_methods() {
        let v: u64 = any();
        same_value!(v, r => ILIntReader::read_ilint(r));
        same_value!(v, r => { let d: &mut dyn Reader = r; ILIntReader::read_ilint(d) });
        witness!(v == 248);
    }

    /// The deserializer methods give back any encoded value.
    #[unwind(14)]
    fn c01q_deserializer_methods() {
        let v: u64 = any();
        same_value!(v, r => ILIntDeserializer::deserialize_ilint(r));
        same_value!(v, r => { let d: &mut dyn Reader = r; ILIntDeserializer::deserialize_ilint(d) });
        same_value!(v, r => { let d: &mut dyn ILIntReader = r; ILIntDeserializer::deserialize_ilint(d) });
        witness!(v == 248);
    }
}
