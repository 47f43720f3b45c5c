//! Shared helpers of the tag level harnesses.
use crate::mocks::*;
use crate::sym::*;
use il2_iltags::io::array::{ByteArrayReader, MemoryReader};
use il2_iltags::io::Reader;
use il2_iltags::tags::standard::factory::ILStandardTagFactory;
use il2_iltags::tags::*;

/// The error kinds of the tag layer.
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum E {
    None,
    UnknownTag,
    UnsupportedTag,
    CorruptedData,
    TagTooLarge,
    UnexpectedTagType,
    UnableToSerialize,
    Io,
    Boxed,
}

/// Classifies (and leaks) a result.
pub fn kind<T>(r: Result<T>) -> E {
    let k = match &r {
        Ok(_) => E::None,
        Err(ErrorKind::UnknownTag) => E::UnknownTag,
        Err(ErrorKind::UnsupportedTag) => E::UnsupportedTag,
        Err(ErrorKind::CorruptedData) => E::CorruptedData,
        Err(ErrorKind::TagTooLarge) => E::TagTooLarge,
        Err(ErrorKind::UnexpectedTagType) => E::UnexpectedTagType,
        Err(ErrorKind::UnableToSerialize) => E::UnableToSerialize,
        Err(ErrorKind::IOError(_)) => E::Io,
        Err(ErrorKind::Boxed(_)) => E::Boxed,
    };
    leak(r);
    k
}

pub fn is_ok<T>(r: Result<T>) -> bool {
    let ok = r.is_ok();
    leak(r);
    ok
}

/// Serializes a tag in a fixed buffer and checks the reported sizes on the way.
pub fn serialize<const N: usize>(t: &dyn ILTag) -> FixedWriter<N> {
    let mut w = FixedWriter::<N>::new();
    assert!(is_ok(t.serialize(&mut w)));
    assert!(t.size() == w.len as u64);
    w
}

/// Checks a byte of a serialization and makes it a constant again (it may get lost by the
/// symbolic execution, when written next to data of symbolic size).
pub fn pin<const N: usize>(w: &mut FixedWriter<N>, i: usize, v: u8) {
    assert!(i < w.len && w.data[i] == v);
    w.data[i] = v;
}

/// Casts a boxed tag to its concrete type.
pub fn typed<T: ILTag>(t: Box<dyn ILTag>, id: u64) -> Box<T> {
    assert!(t.id() == id);
    assert!(t.as_any().is::<T>());
    // Box<dyn ILTag> cannot be downcast by value.
    unsafe { Box::from_raw(Box::into_raw(t) as *mut T) }
}

/// The first `n` bytes of two buffers are the same.
pub fn same(a: &[u8], b: &[u8], n: usize) {
    let mut i = 0;
    while i < n {
        assert!(a[i] == b[i]);
        i += 1;
    }
}

/// Decodes `bytes` with a factory: a tag that uses exactly `used` bytes.
pub fn decode(f: &dyn ILTagFactory, bytes: &[u8], used: usize) -> Box<dyn ILTag> {
    let mut r = ByteArrayReader::new(bytes);
    let ret = f.deserialize(&mut r);
    assert!(ret.is_ok());
    assert!(r.offset() == used);
    match ret {
        Ok(t) => t,
        Err(e) => {
            leak(e);
            unreachable!()
        }
    }
}

pub fn std_factory() -> std::mem::ManuallyDrop<ILStandardTagFactory> {
    std::mem::ManuallyDrop::new(ILStandardTagFactory::new(false))
}

/// Decodes a value with a tag that needs no factory.
pub fn decode_value<T: ILTag>(t: &mut T, size: usize, r: &mut dyn Reader) -> E {
    kind(t.deserialize_value(&util::UntouchbleTagFactory {}, size, r))
}
