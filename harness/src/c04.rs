//! C04: primitive values are stored bit-exactly in big-endian order.
use crate::refs::*;
use crate::sym::*;
use il2_iltags::io::array::*;
use il2_iltags::io::data::*;
use il2_iltags::io::{Reader, Writer};
use il2_iltags::tags::serialization::*;

/// Function and dynamic dispatch entry points of one type.
macro_rules! functions {
    ($t:ty, $bits:ty, $n:literal, $write:ident, $read:ident, $from:expr, $to:expr) => {{
        let bits: $bits = any();
        let v: $t = $from(bits);
        let mut buf = [0x5Au8; $n + 2];
        {
            let mut w = ByteArrayWriter::new(&mut buf);
            assert!($write(v, &mut w).is_ok());
            assert!(w.get_offset() == $n);
            let d: &mut dyn Writer = &mut w;
            let _ = d;
        }
        let mut i = 0;
        while i < $n {
            assert!(buf[i] == (bits >> (8 * ($n - 1 - i))) as u8);
            i += 1;
        }
        assert!(buf[$n] == 0x5A && buf[$n + 1] == 0x5A);
        let mut r = ByteArrayReader::new(&buf);
        match $read(&mut r) {
            Ok(x) => assert!($to(x) == bits),
            Err(_) => assert!(false),
        }
        assert!(r.offset() == $n);
        let mut r = ByteArrayReader::new(&buf[..$n - 1]);
        assert!($read(&mut r).is_err());
        witness!(bits == <$bits>::MAX);
    }};
}

/// Trait methods, over a concrete type and over `dyn`, for readers and writers and for
/// the serializers.
macro_rules! methods {
    ($t:ty, $bits:ty, $n:literal, $from:expr, $to:expr) => {{
        let bits: $bits = any();
        let v: $t = $from(bits);
        let mut buf = [0u8; $n * 5];
        {
            let mut w = ByteArrayWriter::new(&mut buf);
            assert!(ValueWriter::<$t>::write_value(&mut w, v).is_ok());
            assert!(ValueSerializer::<$t>::serialize_value(&mut w, v).is_ok());
            let d: &mut dyn Writer = &mut w;
            assert!(ValueWriter::<$t>::write_value(d, v).is_ok());
            assert!(ValueSerializer::<$t>::serialize_value(d, v).is_ok());
            let d: &mut dyn ValueWriter<$t> = &mut w;
            assert!(ValueSerializer::<$t>::serialize_value(d, v).is_ok());
            assert!(w.get_offset() == $n * 5);
        }
        let mut i = 0;
        while i < $n {
            let x = (bits >> (8 * ($n - 1 - i))) as u8;
            assert!(buf[i] == x && buf[i + $n] == x && buf[i + 2 * $n] == x && buf[i + 3 * $n] == x && buf[i + 4 * $n] == x);
            i += 1;
        }
        let mut r = ByteArrayReader::new(&buf);
        let a: Result<$t, _> = ValueReader::<$t>::read_value(&mut r);
        let b: Result<$t, _> = ValueDeserializer::<$t>::deserialize_value(&mut r);
        let d: &mut dyn Reader = &mut r;
        let c: Result<$t, _> = ValueReader::<$t>::read_value(d);
        let e: Result<$t, _> = ValueDeserializer::<$t>::deserialize_value(d);
        let d: &mut dyn ValueReader<$t> = &mut r;
        let g: Result<$t, _> = ValueDeserializer::<$t>::deserialize_value(d);
        match (a, b, c, e, g) {
            (Ok(a), Ok(b), Ok(c), Ok(e), Ok(g)) => {
                assert!($to(a) == bits && $to(b) == bits && $to(c) == bits && $to(e) == bits);
                assert!($to(g) == bits);
            }
            _ => assert!(false),
        }
        assert!(r.offset() == $n * 5);
        witness!(bits == <$bits>::MAX);
    }};
}

fn id<T>(v: T) -> T {
    v
}

fn read_string_of<const N: usize>() {
    let b: [u8; N] = any();
    let mut r = ByteArrayReader::new(&b);
    match read_string(&mut r, N) {
        Ok(s) => {
            assert!(ref_utf8(&b));
            assert!(s.len() == N);
            let mut i = 0;
            while i < N {
                assert!(s.as_bytes()[i] == b[i]);
                i += 1;
            }
            assert!(r.offset() == N);
            witness!();
            leak(s);
        }
        Err(_) => assert!(!ref_utf8(&b)),
    }
    let mut r = ByteArrayReader::new(&b);
    assert!(read_string(&mut r, N + 1).is_err());
}

fn write_string_of<const N: usize>() {
    let b: [u8; N] = any();
    assume(ref_utf8(&b));
    let s = unsafe { std::str::from_utf8_unchecked(&b) };
    let mut buf = [0u8; 12];
    {
        let mut w = ByteArrayWriter::new(&mut buf);
        assert!(write_string(s, &mut w).is_ok());
        assert!(w.get_offset() == N);
        assert!(ValueWriter::<&str>::write_value(&mut w, s).is_ok());
        assert!(ValueSerializer::<&str>::serialize_value(&mut w, s).is_ok());
        assert!(w.get_offset() == 3 * N);
    }
    let mut i = 0;
    while i < N {
        assert!(buf[i] == b[i] && buf[i + N] == b[i] && buf[i + 2 * N] == b[i]);
        i += 1;
    }
    witness!(b[0] == 0xE2);
}

fn string_methods_of<const N: usize>() {
    let b: [u8; N] = any();
    let mut r = ByteArrayReader::new(&b);
    let x = StringValueReader::read_string(&mut r, N);
    let mut r = ByteArrayReader::new(&b);
    let y = StringDeserializer::deserialize_string(&mut r, N);
    let mut r = ByteArrayReader::new(&b);
    let d: &mut dyn Reader = &mut r;
    let z = d.deserialize_string(N);
    let ok = ref_utf8(&b);
    assert!(x.is_ok() == ok && y.is_ok() == ok && z.is_ok() == ok);
    if let (Ok(x), Ok(y), Ok(z)) = (x, y, z) {
        assert!(x.len() == N && y.len() == N && z.len() == N);
        let mut i = 0;
        while i < N {
            assert!(x.as_bytes()[i] == b[i] && y.as_bytes()[i] == b[i] && z.as_bytes()[i] == b[i]);
            i += 1;
        }
        witness!(b[0] == 0xC3);
        leak(x);
        leak(y);
        leak(z);
    }
}

harnesses! {
    /// write_u8/read_u8 and write_i8/read_i8, any value.
    #[unwind(10)]
    fn c04q_fn_8() {
        functions!(u8, u8, 1, write_u8, read_u8, id, id);
        functions!(i8, u8, 1, write_i8, read_i8, |b: u8| b as i8, |v: i8| v as u8);
    }

    /// write_u16/read_u16 and write_i16/read_i16, any value.
    #[unwind(10)]
    fn c04q_fn_16() {
        functions!(u16, u16, 2, write_u16, read_u16, id, id);
        functions!(i16, u16, 2, write_i16, read_i16, |b: u16| b as i16, |v: i16| v as u16);
    }

    /// write_u32/read_u32 and write_i32/read_i32, any value.
    #[unwind(10)]
    fn c04q_fn_32() {
        functions!(u32, u32, 4, write_u32, read_u32, id, id);
        functions!(i32, u32, 4, write_i32, read_i32, |b: u32| b as i32, |v: i32| v as u32);
    }

    /// write_u64/read_u64 and write_i64/read_i64, any value.
    #[unwind(12)]
    fn c04q_fn_64() {
        functions!(u64, u64, 8, write_u64, read_u64, id, id);
        functions!(i64, u64, 8, write_i64, read_i64, |b: u64| b as i64, |v: i64| v as u64);
    }

    /// write_f32/read_f32 and write_f64/read_f64, any bit pattern (all NaNs included).
    #[unwind(12)]
    fn c04q_fn_float() {
        functions!(f32, u32, 4, write_f32, read_f32, f32::from_bits, f32::to_bits);
        functions!(f64, u64, 8, write_f64, read_f64, f64::from_bits, f64::to_bits);
    }

    /// Trait methods for 8 bit integers.
    #[unwind(10)]
    fn c04q_method_8() {
        methods!(u8, u8, 1, id, id);
        methods!(i8, u8, 1, |b: u8| b as i8, |v: i8| v as u8);
    }

    /// Trait methods for 16 bit integers.
    #[unwind(10)]
    fn c04q_method_16() {
        methods!(u16, u16, 2, id, id);
        methods!(i16, u16, 2, |b: u16| b as i16, |v: i16| v as u16);
    }

    /// Trait methods for 32 bit integers and floats.
    #[unwind(10)]
    fn c04q_method_32() {
        methods!(u32, u32, 4, id, id);
        methods!(i32, u32, 4, |b: u32| b as i32, |v: i32| v as u32);
        methods!(f32, u32, 4, f32::from_bits, f32::to_bits);
    }

    /// Trait methods for 64 bit integers and floats.
    #[unwind(12)]
    fn c04q_method_64() {
        methods!(u64, u64, 8, id, id);
        methods!(i64, u64, 8, |b: u64| b as i64, |v: i64| v as u64);
        methods!(f64, u64, 8, f64::from_bits, f64::to_bits);
    }

    /// read_string over any 0 or 3 bytes: accepted exactly when valid UTF-8, same bytes.
    #[unwind(10)]
    fn c04q_string_read() {
        read_string_of::<0>();
        read_string_of::<3>();
    }

    /// read_string over any 1 or 2 bytes.
    #[unwind(10)]
    fn c04q_string_read_1_2() {
        read_string_of::<1>();
        read_string_of::<2>();
    }

    /// read_string over any 4 bytes: accepted exactly when valid UTF-8, same bytes.
    #[unwind(10)]
    fn c04q_string_read_4() {
        read_string_of::<4>();
    }

    /// write_string emits exactly the bytes of any text of 3 and 4 bytes, and the
    /// methods agree.
    #[unwind(10)]
    fn c04q_string_write() {
        write_string_of::<3>();
        write_string_of::<4>();
    }

    /// The string methods of readers and deserializers accept the same byte strings.
    #[unwind(10)]
    fn c04q_string_methods() {
        string_methods_of::<3>();
    }

    /// Byte array (de)serializers move exactly the requested bytes.
    #[unwind(10)]
    fn c04q_bytes() {
        let b: [u8; 4] = any();
        let n = any_upto(4);
        let m = any_upto(5);
        let mut buf = [0u8; 8];
        {
            let mut w = ByteArrayWriter::new(&mut buf);
            assert!(ByteArraySerializer::serialize_bytes(&mut w, &b[..n]).is_ok());
            assert!(serialize_bytes(&b[..n], &mut w).is_ok());
            assert!(w.get_offset() == 2 * n);
        }
        let mut r = ByteArrayReader::new(&buf[..n]);
        match deserialize_bytes(m, &mut r) {
            Ok(v) => {
                assert!(m <= n && v.len() == m && r.offset() == m);
                let i = any_upto(3);
                if i < m {
                    assert!(v[i] == b[i]);
                }
                leak(v);
            }
            Err(_) => assert!(m > n && r.offset() == 0),
        }
        let mut old = vec![1u8, 2, 3];
        let mut r = ByteArrayReader::new(&buf[n..2 * n]);
        match deserialize_bytes_into_vec(m, &mut r, &mut old) {
            Ok(()) => {
                assert!(m <= n && old.len() == m && r.offset() == m);
                let i = any_upto(3);
                if i < m {
                    assert!(old[i] == b[i]);
                }
            }
            Err(_) => assert!(m > n && r.offset() == 0),
        }
        leak(old);
        witness!(m == 4 && n == 4);
        witness!(m == 5);
    }

    /// Texts through `dyn` readers and writers.
    #[unwind(10)]
    fn c04q_string_dyn() {
        let b: [u8; 2] = any();
        assume(ref_utf8(&b));
        let s = unsafe { std::str::from_utf8_unchecked(&b) };
        let mut buf = [0u8; 8];
        {
            let mut w = ByteArrayWriter::new(&mut buf);
            let d: &mut dyn Writer = &mut w;
            assert!(ValueWriter::<&str>::write_value(d, s).is_ok());
            assert!(ValueSerializer::<&str>::serialize_value(d, s).is_ok());
            assert!(w.get_offset() == 4);
        }
        assert!(buf[0] == b[0] && buf[1] == b[1] && buf[2] == b[0] && buf[3] == b[1] && buf[4] == 0);
        let mut r = ByteArrayReader::new(&buf);
        let d: &mut dyn Reader = &mut r;
        let x = StringValueReader::read_string(d, 2);
        let d: &mut dyn StringValueReader = &mut r;
        let y = StringDeserializer::deserialize_string(d, 2);
        assert!(r.offset() == 4);
        if let (Ok(x), Ok(y)) = (x, y) {
            assert!(x.len() == 2 && x.as_bytes()[0] == b[0] && x.as_bytes()[1] == b[1]);
            assert!(y.len() == 2 && y.as_bytes()[0] == b[0] && y.as_bytes()[1] == b[1]);
            witness!(b[0] == 0xC3);
            leak(x);
            leak(y);
        } else {
            assert!(false);
        }
    }

    /// Byte arrays through `dyn` readers and writers and into slices.
    #[unwind(10)]
    fn c04q_bytes_dyn() {
        let b: [u8; 4] = any();
        let mut buf = [0u8; 8];
        {
            let mut w = ByteArrayWriter::new(&mut buf);
            let d: &mut dyn Writer = &mut w;
            assert!(ByteArraySerializer::serialize_bytes(d, &b).is_ok());
            assert!(w.get_offset() == 4);
        }
        let mut i = 0;
        while i < 4 {
            assert!(buf[i] == b[i] && buf[4 + i] == 0);
            i += 1;
        }
        let n = any_upto(4);
        let mut r = ByteArrayReader::new(&b[..n]);
        let d: &mut dyn Reader = &mut r;
        let mut out = [0x55u8; 3];
        let ok = d.deserialize_bytes_into_slice(&mut out).is_ok();
        assert!(ok == (n >= 3));
        let mut r2 = ByteArrayReader::new(&b[..n]);
        let mut out2 = [0x55u8; 3];
        assert!(r2.deserialize_bytes_into_slice(&mut out2).is_ok() == ok);
        if ok {
            assert!(out[0] == b[0] && out[1] == b[1] && out[2] == b[2]);
            assert!(out2[0] == b[0] && out2[1] == b[1] && out2[2] == b[2]);
            assert!(r.offset() == 3 && r2.offset() == 3);
        }
        let mut r = ByteArrayReader::new(&b[..n]);
        let d: &mut dyn Reader = &mut r;
        match d.deserialize_bytes(2) {
            Ok(v) => {
                assert!(n >= 2 && v.len() == 2 && v[0] == b[0] && v[1] == b[1]);
                leak(v);
            }
            Err(_) => assert!(n < 2),
        }
        let mut old = vec![1u8, 2, 3];
        let mut r = ByteArrayReader::new(&b[..n]);
        let d: &mut dyn Reader = &mut r;
        if d.deserialize_bytes_into_vec(2, &mut old).is_ok() {
            assert!(n >= 2 && old.len() == 2 && old[0] == b[0] && old[1] == b[1]);
        } else {
            assert!(n < 2);
        }
        leak(old);
        witness!(n == 4);
        witness!(n == 2);
        witness!(n == 0);
    }
}
