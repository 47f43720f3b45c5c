//! C19: oversized tags are rejected up front.
use crate::kit::*;
use crate::mocks::*;
use crate::sym::*;
use il2_iltags::io::array::{ByteArrayReader, MemoryReader};
use il2_iltags::io::Reader;
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::factory::*;
use il2_iltags::tags::*;

const MAX: u64 = 512 * 1024 * 1024;

static mut CALLS: usize = 0;
static mut SEEN: u64 = 0;

/// Tag that only records the size it is given.
struct Recorder {
    id: u64,
}

impl ILTag for Recorder {
    fn id(&self) -> u64 {
        self.id
    }

    fn value_size(&self) -> u64 {
        0
    }

    fn serialize_value(&self, _writer: &mut dyn il2_iltags::io::Writer) -> Result<()> {
        Ok(())
    }

    fn deserialize_value(
        &mut self,
        _factory: &dyn ILTagFactory,
        value_size: usize,
        _reader: &mut dyn Reader,
    ) -> Result<()> {
        unsafe {
            CALLS += 1;
            SEEN = value_size as u64;
        }
        Err(ErrorKind::UnsupportedTag)
    }

    fn as_any(&self) -> &dyn std::any::Any {
        self
    }

    fn as_mut_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}

struct Creator {}

impl ILTagCreator for Creator {
    fn create_empty_tag(&self, tag_id: u64) -> Box<dyn ILTag> {
        Box::new(Recorder { id: tag_id })
    }
}

/// The size of a 9-byte ILInt.
fn wide(b: &[u8; 8]) -> Option<u64> {
    u64::from_be_bytes(*b).checked_add(248)
}

/// Outcome of a header with a size: it is never looked beyond the header.
fn judge(ret: Result<()>, r: &ByteArrayReader, header: usize, size: Option<u64>) {
    let k = kind(ret);
    match size {
        None => assert!(k == E::CorruptedData || k == E::Io),
        Some(s) if s > MAX => assert!(k == E::TagTooLarge),
        Some(s) => unsafe {
            assert!(k == E::UnsupportedTag && CALLS == 1 && SEEN == s);
        },
    }
    if size.map_or(true, |s| s > MAX) {
        assert!(unsafe { CALLS } == 0);
    }
    assert!(r.offset() == header);
}

/// An explicit tag of the standard factory with a size that is too large.
fn rejected(f: &dyn ILTagFactory, id: u8, size: u64) {
    let s = (size - 248).to_be_bytes();
    let b = [id, 255, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], 0, 0, 0, 0];
    let mut r = ByteArrayReader::new(&b);
    assert!(kind(f.deserialize(&mut r)) == E::TagTooLarge);
    assert!(r.offset() == 10);
}

/// A value that is too short for its size fails because of that.
fn accepted<T: ILTag>(mut t: T, size: usize) {
    let mut r = ByteArrayReader::new(&[]);
    let k = decode_value(&mut t, size, &mut r);
    assert!(k == E::Io);
    leak(t);
}

/// Count of elements against a smaller size.
fn too_many(b: &[u8], size: u64) {
    let f = util::UntouchbleTagFactory {};
    let mut t = ILILIntArrayTag::new();
    let mut r = ByteArrayReader::new(b);
    assert!(kind(t.deserialize_value(&f, size as usize, &mut r)) != E::None);
    assert!(t.value().capacity() == 0 && r.offset() <= b.len());
    leak(t);
    let mut t = ILTagArrayTag::new();
    let mut r = ByteArrayReader::new(b);
    assert!(kind(t.deserialize_value(&f, size as usize, &mut r)) != E::None);
    assert!(t.value().capacity() == 0 && r.offset() <= b.len());
    leak(t);
}

/// A string without a tag, with a size that is too large.
fn string(size: u64) {
    let s = (size - 248).to_be_bytes();
    let b = [17, 255, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], 1, 2];
    let mut r = ByteArrayReader::new(&b);
    let mut out = String::new();
    let k = kind(deserialize_string_tag_from_value_into(&mut r, &mut out));
    assert!(k == E::TagTooLarge && r.offset() == 10 && out.len() == 0);
    leak(out);
}

harnesses! {
    /// The limit itself.
    #[unwind(4)]
    fn c19q_limit() {
        let size: u64 = any();
        let mut ok = false;
        let ret = tag_size_to_usize(size);
        if let Ok(s) = &ret {
            assert!(*s as u64 == size);
            ok = true;
        }
        let k = kind(ret);
        assert!(ok == (size <= MAX));
        assert!(ok || k == E::TagTooLarge);
        assert!(MAX_TAG_SIZE == MAX);
        witness!(size == MAX);
        witness!(size == MAX + 1);
    }

    /// Any 64-bit size for a tag of a custom type.
    #[unwind(30)]
    fn c19q_deserialize() {
        let mut f = std_factory();
        f.engine().register(200, Box::new(Creator {}));
        let s: [u8; 8] = any();
        let b = [200, 255, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], 1, 2];
        let mut r = ByteArrayReader::new(&b);
        let ret = f.deserialize(&mut r);
        let ret = match ret {
            Ok(t) => {
                leak(t);
                Ok(())
            }
            Err(e) => Err(e),
        };
        judge(ret, &r, 10, wide(&s));
        witness!(wide(&s) == Some(MAX));
        witness!(wide(&s) == Some(MAX + 1));
        witness!(wide(&s).is_none());
    }

    /// Any 64-bit size when decoding into a tag.
    #[unwind(30)]
    fn c19q_deserialize_into() {
        let f = std_factory();
        let s: [u8; 8] = any();
        let b = [200, 255, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], 1, 2];
        let mut r = ByteArrayReader::new(&b);
        let mut t = Recorder { id: 200 };
        let ret = f.deserialize_into(&mut r, &mut t);
        judge(ret, &r, 10, wide(&s));
        witness!(wide(&s) == Some(MAX));
        witness!(wide(&s) == Some(MAX + 1));
    }

    /// Unknown tags.
    #[unwind(30)]
    fn c19q_unknown() {
        let f = std::mem::ManuallyDrop::new(ILStandardTagFactory::new(true));
        let s: [u8; 8] = any();
        let b = [200, 255, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], 1, 2];
        let mut r = ByteArrayReader::new(&b);
        let k = kind(f.deserialize(&mut r));
        match wide(&s) {
            Some(x) => assert!(k == if x > MAX { E::TagTooLarge } else { E::UnknownTag }),
            None => assert!(k == E::CorruptedData || k == E::Io),
        }
        assert!(r.offset() == 10);
        witness!();
    }

    /// Explicit standard tags with sizes that are too large.
    #[unwind(30)]
    fn c19q_standard() {
        let f = std_factory();
        rejected(&*f, 16, MAX + 1);
        rejected(&*f, 17, 1 << 32);
        rejected(&*f, 18, MAX + 1);
        rejected(&*f, 19, (1 << 32) + 4);
        rejected(&*f, 20, MAX + 1);
        rejected(&*f, 21, MAX + 1);
        witness!();
    }

    /// More of them.
    #[unwind(30)]
    fn c19q_standard_more() {
        let f = std_factory();
        rejected(&*f, 22, MAX + 1);
        rejected(&*f, 23, MAX + 1);
        rejected(&*f, 24, (1 << 32) + 16);
        rejected(&*f, 25, u64::MAX);
        rejected(&*f, 30, MAX + 1);
        rejected(&*f, 31, 1 << 63);
        rejected(&*f, 40, MAX + 1);
        witness!();
    }

    /// Nested tags: the declared size of the parent is not a problem, that of the child is.
    #[unwind(30)]
    fn c19q_nested() {
        let f = std_factory();
        let b = [22, 12, 16, 251, 31, 255, 255, 9, 0, 0, 0, 0, 0, 0];
        let mut r = ByteArrayReader::new(&b);
        assert!(kind(f.deserialize(&mut r)) == E::TagTooLarge);
        assert!(r.offset() == 8);
        witness!();
    }

    /// Strings without a tag.
    #[unwind(12)]
    fn c19q_string() {
        string(MAX + 1);
        string((1 << 32) + 1);
        string(1 << 63);
        string(u64::MAX);
        witness!();
    }

    /// Types that copy their values do not refuse the sizes up to the limit.
    #[unwind(8)]
    fn c19q_accepted() {
        accepted(ILStringTag::new(), 1);
        accepted(ILStringTag::new(), MAX as usize);
        witness!();
    }

    /// The other ones.
    #[unwind(8)]
    fn c19q_accepted_more() {
        accepted(ILILIntArrayTag::new(), MAX as usize);
        accepted(ILTagArrayTag::new(), MAX as usize);
        accepted(ILOIDTag::new(), MAX as usize);
        accepted(ILDictTag::new(), MAX as usize);
        accepted(ILStrDictTag::new(), MAX as usize);
        witness!();
    }

    /// Counts that are larger than the size: the largest one.
    #[unwind(10)]
    fn c19q_count() {
        let b = [255, 255, 255, 255, 255, 255, 255, 255, 7];
        too_many(&b, 9);
        too_many(&b, 1 << 16);
        too_many(&b, MAX);
        witness!();
    }

    /// Counts that are just larger than the size.
    #[unwind(10)]
    fn c19q_close_counts() {
        too_many(&[1], 0);
        too_many(&[5, 1, 2], 4);
        too_many(&[248, 0, 1, 2], 247);
        too_many(&[251, 31, 255, 255, 9], MAX);
        witness!();
    }

    /// Counts whose lower half is not.
    #[unwind(10)]
    fn c19q_wide_counts() {
        too_many(&[252, 1, 0, 0, 0, 3], 1000);
        too_many(&[255, 1, 0, 0, 0, 0, 0, 0, 3], 1000);
        too_many(&[252, 0, 255, 255, 255, 8], 1000);
        witness!();
    }

    /// Integer arrays: any count of one byte and any smaller size.
    #[unwind(4)]
    fn c19q_any_count() {
        let c: u8 = any();
        assume(c > 0 && c < 4);
        let size = any_upto(2);
        assume(size < c as usize);
        let b = [c, 1, 2];
        let mut t = ILILIntArrayTag::new();
        let mut r = ByteArrayReader::new(&b);
        assert!(kind(t.deserialize_value(&util::UntouchbleTagFactory {}, size, &mut r)) != E::None);
        assert!(t.value().capacity() == 0 && r.offset() <= 3);
        witness!(c == 3 && size == 2);
        leak(t);
    }
}
