//! C02: ILInt decoding of arbitrary bytes is total and exact.
use crate::refs::*;
use crate::sym::*;
use il2_iltags::ilint::{self, ErrorKind};
use il2_iltags::io::array::*;
use il2_iltags::io::data::{self, *};
use il2_iltags::io::Reader;
use il2_iltags::tags::serialization::*;
use il2_iltags::tags;

/// Decodes the first `n` of any bytes through an entry point.
macro_rules! same_decoding {
    ($b:ident, $n:ident, $map:ident, $r:ident => $e:expr) => {{
        let mut r = ByteArrayReader::new(&$b[..$n]);
        let x = {
            let $r = &mut r;
            $e
        };
        match (x, ref_ilint_decode(&$b[..$n])) {
            (Ok(x), RefInt::Value(v, used)) => {
                assert!(x == $map(v));
                assert!(r.offset() == used);
            }
            (Err(_), RefInt::Overflow) => (),
            (Err(_), RefInt::Truncated) => (),
            _ => assert!(false),
        }
    }};
}

fn same(v: u64) -> u64 {
    v
}

harnesses! {
    /// decode over any 0 to 10 bytes agrees with the documented format and consumes
    /// exactly the announced bytes.
    #[unwind(14)]
    fn c02q_decode() {
        let b: [u8; 10] = any();
        let n = any_upto(10);
        let mut r = ByteArrayReader::new(&b[..n]);
        match (ilint::decode(&mut r), ref_ilint_decode(&b[..n])) {
            (Ok(v), RefInt::Value(x, used)) => {
                assert!(v == x);
                assert!(r.offset() == used);
            }
            (Err(ErrorKind::ValueOverflow), RefInt::Overflow) => (),
            (Err(ErrorKind::IOError(_)), RefInt::Truncated) => (),
            _ => assert!(false),
        }
        witness!(n == 9 && b[0] == 255);
    }

    /// decode_from_bytes over any 0 to 10 bytes agrees with the documented format.
    #[unwind(14)]
    fn c02q_from_bytes() {
        let b: [u8; 10] = any();
        let n = any_upto(10);
        match (ilint::decode_from_bytes(&b[..n]), ref_ilint_decode(&b[..n])) {
            (Ok((v, s)), RefInt::Value(x, used)) => assert!(v == x && s == used),
            (Err(ErrorKind::ValueOverflow), RefInt::Overflow) => (),
            (Err(ErrorKind::InvalidFormat), RefInt::Truncated) => (),
            _ => assert!(false),
        }
        witness!(n == 10 && b[0] == 250);
    }

    /// decode_body accepts exactly 1 to 8 bytes and adds 248, without wrapping.
    #[unwind(14)]
    fn c02q_body() {
        let b: [u8; 10] = any();
        let n = any_upto(10);
        let r = ilint::decode_body(&b[..n]);
        if n == 0 || n > 8 {
            match r {
                Err(ErrorKind::InvalidFormat) => (),
                _ => assert!(false),
            }
        } else {
            let mut v: u128 = 0;
            let mut i = 0;
            while i < n {
                v = (v << 8) | b[i] as u128;
                i += 1;
            }
            v += 248;
            match r {
                Ok(x) => assert!(x as u128 == v),
                Err(ErrorKind::ValueOverflow) => assert!(v > u64::MAX as u128),
                _ => assert!(false),
            }
        }
        witness!(n == 8 && b[0] == 255 && b[7] == 7);
        witness!(n == 9);
    }

    /// decoded_size gives the full size announced by any header byte.
    #[unwind(14)]
    fn c02q_header() {
        let h: u8 = any();
        assert!(ilint::decoded_size(h) == ilint_len_from_header(h));
        witness!(h == 255);
    }

    /// The I/O and tag level decoders accept the same bytes with the same result.
    #[unwind(14)]
    fn c02q_helpers() {
        let b: [u8; 10] = any();
        let n = any_upto(10);
        let mut r1 = ByteArrayReader::new(&b[..n]);
        let mut r2 = ByteArrayReader::new(&b[..n]);
        let a = data::read_ilint(&mut r1);
        let c = tags::deserialize_ilint(&mut r2);
        match ref_ilint_decode(&b[..n]) {
            RefInt::Value(v, used) => {
                match a {
                    Ok(x) => assert!(x == v),
                    Err(_) => assert!(false),
                }
                match c {
                    Ok(x) => assert!(x == v),
                    Err(_) => assert!(false),
                }
                assert!(r1.offset() == used && r2.offset() == used);
            }
            _ => assert!(a.is_err() && c.is_err()),
        }
        witness!(n == 9 && b[0] == 255);
    }

    /// Signed decoding accepts the same bytes and consumes the same count.
    #[unwind(14)]
    fn c02q_signed() {
        let b: [u8; 10] = any();
        let n = any_upto(10);
        let mut r = ByteArrayReader::new(&b[..n]);
        match (ilint::signed_decode(&mut r), ref_ilint_decode(&b[..n])) {
            (Ok(v), RefInt::Value(x, used)) => {
                assert!(v == ref_decode_sign(x));
                assert!(r.offset() == used);
            }
            (Err(ErrorKind::ValueOverflow), RefInt::Overflow) => (),
            (Err(ErrorKind::IOError(_)), RefInt::Truncated) => (),
            _ => assert!(false),
        }
        witness!(n == 9 && b[0] == 255);
    }

    /// The reader and deserializer methods, over concrete readers and `dyn` ones.
    #[unwind(14)]
    fn c02q_methods() {
        let b: [u8; 10] = any();
        let n = any_upto(10);
        same_decoding!(b, n, same, r => ILIntReader::read_ilint(r));
        same_decoding!(b, n, same, r => { let d: &mut dyn Reader = r; ILIntReader::read_ilint(d) });
        same_decoding!(b, n, same, r => ILIntDeserializer::deserialize_ilint(r));
        witness!(n == 9 && b[0] == 255);
    }

    /// The same for the methods over trait objects.
    #[unwind(14)]
    fn c02q_dyn_methods() {
        let b: [u8; 10] = any();
        let n = any_upto(10);
        same_decoding!(b, n, same, r => { let d: &mut dyn Reader = r; ILIntDeserializer::deserialize_ilint(d) });
        same_decoding!(b, n, same, r => { let d: &mut dyn ILIntReader = r; ILIntDeserializer::deserialize_ilint(d) });
        witness!(n == 9 && b[0] == 255);
    }

    /// The signed methods.
    #[unwind(14)]
    fn c02q_signed_methods() {
        let b: [u8; 10] = any();
        let n = any_upto(10);
        same_decoding!(b, n, ref_decode_sign, r => SignedILIntReader::read_signed_ilint(r));
        same_decoding!(b, n, ref_decode_sign, r => { let d: &mut dyn Reader = r; SignedILIntReader::read_signed_ilint(d) });
        same_decoding!(b, n, ref_decode_sign, r => SignedILIntDeserializer::deserialize_signed_ilint(r));
        witness!(n == 9 && b[0] == 255);
    }

    /// The same for the methods over trait objects.
    #[unwind(14)]
    fn c02q_signed_dyn_methods() {
        let b: [u8; 10] = any();
        let n = any_upto(10);
        same_decoding!(b, n, ref_decode_sign, r => { let d: &mut dyn Reader = r; SignedILIntDeserializer::deserialize_signed_ilint(d) });
        same_decoding!(b, n, ref_decode_sign, r => { let d: &mut dyn SignedILIntReader = r; SignedILIntDeserializer::deserialize_signed_ilint(d) });
        witness!(n == 9 && b[0] == 255);
    }
}
