//! C21: targeted decoding accepts only the requested tag.
use crate::kit::*;
use crate::mocks::*;
use crate::sym::*;
use il2_iltags::io::array::{ByteArrayReader, MemoryReader};
use il2_iltags::io::Reader;
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::implicit::*;
use il2_iltags::tags::*;

/// Tag of one byte under any id.
struct OneTag {
    id: u64,
    v: u8,
    calls: usize,
}

impl ILTag for OneTag {
    fn id(&self) -> u64 {
        self.id
    }

    fn value_size(&self) -> u64 {
        1
    }

    fn serialize_value(&self, writer: &mut dyn il2_iltags::io::Writer) -> Result<()> {
        writer.write(self.v)?;
        Ok(())
    }

    fn deserialize_value(
        &mut self,
        _factory: &dyn ILTagFactory,
        value_size: usize,
        reader: &mut dyn Reader,
    ) -> Result<()> {
        self.calls += 1;
        if value_size != 1 {
            return Err(ErrorKind::UnsupportedTag);
        }
        self.v = reader.read()?;
        Ok(())
    }

    fn as_any(&self) -> &dyn std::any::Any {
        self
    }

    fn as_mut_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}

fn into<T: ILTag>(f: &dyn ILTagFactory, bytes: &[u8], t: &mut T, used: usize) -> E {
    let mut r = ByteArrayReader::new(bytes);
    let k = kind(f.deserialize_into(&mut r, t));
    if k == E::None {
        assert!(r.offset() == used);
    } else {
        assert!(r.offset() <= used);
    }
    k
}

/// A factory that takes the first `take` bytes and counts on the default implementation to
/// decode from bytes.
struct Take {
    take: usize,
    fail: bool,
}

impl ILTagFactory for Take {
    fn create_tag(&self, _tag_id: u64) -> Option<Box<dyn ILTag>> {
        None
    }

    fn deserialize(&self, reader: &mut dyn Reader) -> Result<Box<dyn ILTag>> {
        let mut v = 0;
        let mut i = 0;
        while i < self.take {
            v = reader.read()?;
            i += 1;
        }
        if self.fail {
            return Err(ErrorKind::UnsupportedTag);
        }
        Ok(Box::new(ByteTag(v)))
    }

    fn deserialize_into(&self, _reader: &mut dyn Reader, _tag: &mut dyn ILTag) -> Result<()> {
        Err(ErrorKind::UnsupportedTag)
    }
}

harnesses! {
    /// Any id against any encoded id of one byte.
    #[unwind(30)]
    fn c21q_any_id() {
        let f = std_factory();
        let e: u8 = any();
        assume(e > 15 && e < 248);
        let id: u64 = any();
        let v: u8 = any();
        let old: u8 = any();
        let mut t = OneTag { id, v: old, calls: 0 };
        let b = [e, 1, v, 99];
        let mut r = ByteArrayReader::new(&b);
        let k = kind(f.deserialize_into(&mut r, &mut t));
        if id == e as u64 {
            assert!(k == E::None && t.v == v && t.calls == 1 && r.offset() == 3);
        } else {
            assert!(k == E::UnexpectedTagType && t.v == old && t.calls == 0 && t.id == id);
            assert!(r.offset() <= 3);
        }
        witness!(id == e as u64);
        witness!(id == e as u64 + 256);
    }

    /// Any id against any encoded id of nine bytes.
    #[unwind(30)]
    fn c21q_any_wide_id() {
        let f = std_factory();
        let s: [u8; 8] = any();
        let encoded = match u64::from_be_bytes(s).checked_add(248) {
            Some(x) => x,
            None => return,
        };
        let id: u64 = any();
        let v: u8 = any();
        let old: u8 = any();
        let mut t = OneTag { id, v: old, calls: 0 };
        let b = [255, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], 1, v, 99];
        let mut r = ByteArrayReader::new(&b);
        let k = kind(f.deserialize_into(&mut r, &mut t));
        if id == encoded {
            assert!(k == E::None && t.v == v && t.calls == 1 && r.offset() == 11);
        } else {
            assert!(k == E::UnexpectedTagType && t.v == old && t.calls == 0);
            assert!(r.offset() <= 11);
        }
        witness!(k == E::None);
        witness!(k != E::None && id as u8 == encoded as u8);
    }

    /// Any declared size: only the right one is a success.
    #[unwind(30)]
    fn c21q_sizes() {
        let f = std_factory();
        let n: u8 = any();
        assume(n < 248);
        let v: u8 = any();
        let old: u8 = any();
        let mut t = OneTag { id: 40, v: old, calls: 0 };
        let b = [40, n, v, 99];
        let k = into(&*f, &b, &mut t, 3);
        assert!((k == E::None) == (n == 1));
        assert!(t.v == if n == 1 { v } else { old });
        assert!(n == 1 || k == E::UnsupportedTag);
        witness!(n == 1);
        witness!(n != 1);
    }

    /// Implicit tags.
    #[unwind(30)]
    fn c21q_implicit() {
        let f = std_factory();
        let v: u16 = any();
        let old: u16 = any();
        let b = v.to_be_bytes();
        let mut t = ILUInt16Tag::with_value(old);
        assert!(into(&*f, &[5, b[0], b[1], 7], &mut t, 3) == E::None);
        assert!(t.value() == v);
        let mut t = ILUInt16Tag::with_value(old);
        assert!(into(&*f, &[4, b[0], b[1], 7], &mut t, 1) == E::UnexpectedTagType);
        assert!(t.value() == old);
        assert!(into(&*f, &[5, b[0]], &mut t, 2) == E::Io);
        assert!(into(&*f, &[], &mut t, 0) != E::None);
        let mut t = ILILInt64Tag::with_value(1);
        assert!(into(&*f, &[10, 248, b[0], 7], &mut t, 3) == E::None);
        assert!(t.value() == 248 + b[0] as u64);
        witness!();
    }

    /// Explicit tags.
    #[unwind(30)]
    fn c21q_explicit() {
        let f = std_factory();
        let v: [u8; 2] = any();
        let mut t = ILByteArrayTag::with_value(&[1, 2, 3]);
        assert!(into(&*f, &[16, 2, v[0], v[1], 7], &mut t, 4) == E::None);
        assert!(t.value().len() == 2 && t.value()[0] == v[0] && t.value()[1] == v[1]);
        assert!(into(&*f, &[17, 2, v[0], v[1], 7], &mut t, 4) == E::UnexpectedTagType);
        assert!(t.value().len() == 2 && t.value()[0] == v[0] && t.value()[1] == v[1]);
        assert!(into(&*f, &[16, 3, v[0], v[1]], &mut t, 4) != E::None);
        leak(t);
        // A standard type under its own id.
        let mut t = ILRangeTag::with_id_value(1000, 1, 2);
        assert!(into(&*f, &[23, 3, 9, 0, 1], &mut t, 5) == E::UnexpectedTagType);
        assert!(t.id() == 1000);
        assert!(into(&*f, &[249, 2, 240, 3, 9, v[0], v[1]], &mut t, 7) == E::None);
        witness!();
        leak(t);
    }

    /// Decoding from bytes takes the whole slice or nothing.
    #[unwind(8)]
    fn c21q_from_bytes() {
        let b: [u8; 4] = any();
        let n = any_upto(4);
        let f = Take { take: any_upto(5), fail: any_bool() };
        let ret = f.from_bytes(&b[..n]);
        let mut r = ByteArrayReader::new(&b[..n]);
        let direct = f.deserialize(&mut r);
        let expected = f.take == n && !f.fail;
        assert!(ret.is_ok() == expected);
        if expected {
            let v = if n > 0 { b[n - 1] } else { 0 };
            match (&ret, &direct) {
                (Ok(x), Ok(y)) => {
                    assert!(tag_downcast_ref::<ByteTag>(x.as_ref()).unwrap().0 == v);
                    assert!(tag_downcast_ref::<ByteTag>(y.as_ref()).unwrap().0 == v);
                }
                _ => panic!("not the same"),
            }
        }
        leak(direct);
        let k = kind(ret);
        if f.take > n {
            assert!(k == E::Io);
        } else if f.fail {
            assert!(k == E::UnsupportedTag);
        } else {
            assert!(expected || k == E::CorruptedData);
        }
        witness!(expected && n == 4);
        witness!(k == E::CorruptedData);
    }

    /// The same with the standard factory.
    #[unwind(30)]
    fn c21q_std_from_bytes() {
        let f = std_factory();
        let v: u8 = any();
        let b = [16, 1, v, 16, 1, v];
        let mut n = 0;
        while n <= 6 {
            let ret = f.from_bytes(&b[..n]);
            assert!(ret.is_ok() == (n == 3));
            if let Ok(t) = &ret {
                assert!(t.id() == 16 && t.value_size() == 1);
            }
            leak(ret);
            n += 1;
        }
        let b = [1, 1, 0];
        assert!(is_ok(f.from_bytes(&b[..2])));
        assert!(kind(f.from_bytes(&b)) == E::CorruptedData);
        witness!();
    }

    /// Any two different ids and any declared size: nothing is decoded, empty values included.
    #[unwind(30)]
    fn c21q_mismatch() {
        let f = std_factory();
        let e: u8 = any();
        let n: u8 = any();
        assume(e > 15 && e < 248 && n < 248);
        let id: u64 = any();
        assume(id != e as u64);
        let old: u8 = any();
        let mut t = OneTag { id, v: old, calls: 0 };
        let b = [e, n, 5, 99];
        let mut r = ByteArrayReader::new(&b);
        let k = kind(f.deserialize_into(&mut r, &mut t));
        assert!(k == E::UnexpectedTagType && t.v == old && t.calls == 0 && t.id == id);
        witness!(n == 0);
        witness!(n == 1);
    }

    /// Standard tags keep their value when an empty tag with another id comes.
    #[unwind(30)]
    fn c21q_mismatch_std() {
        let f = std_factory();
        let v: u8 = any();
        let mut t = ILByteArrayTag::with_value(&[v]);
        for e in [0u8, 17, 18, 22, 40] {
            assert!(into(&*f, &[e, 0, 0], &mut t, 2) == E::UnexpectedTagType);
            assert!(t.value().len() == 1 && t.value()[0] == v);
        }
        leak(t);
        let mut t = ILStringTag::with_id(200);
        assert!(into(&*f, &[17, 0, 0], &mut t, 2) == E::UnexpectedTagType);
        leak(t);
        witness!();
    }
}
