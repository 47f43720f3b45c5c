//! C27: custom payload tags carry their payload faithfully.
use crate::kit::*;
use crate::mocks::*;
use crate::refs::*;
use crate::sym::*;
use il2_iltags::io::array::{ByteArrayReader, MemoryReader};
use il2_iltags::io::{Reader, Writer};
use il2_iltags::tags::payload::*;
use il2_iltags::tags::*;

/// What the last decoded payload saw.
static mut SEEN: usize = 0;
static mut CALLS: usize = 0;
/// Number of bytes the payloads take when decoding.
static mut TAKE: usize = 0;
/// How the payloads fail.
static mut FAIL: u8 = 0;

fn failure() -> Result<()> {
    match unsafe { FAIL } {
        0 => Ok(()),
        1 => Err(ErrorKind::UnsupportedTag),
        2 => Err(ErrorKind::TagTooLarge),
        3 => Err(ErrorKind::UnknownTag),
        4 => Err(ErrorKind::UnableToSerialize),
        5 => Err(ErrorKind::IOError(il2_iltags::io::ErrorKind::CorruptedData)),
        _ => Err(ErrorKind::UnexpectedTagType),
    }
}

fn failure_kind() -> E {
    kind(failure())
}

/// Payload of `len` bytes that reports `size`.
pub struct Blob {
    size: usize,
    len: usize,
    body: [u8; 4],
}

impl Default for Blob {
    fn default() -> Self {
        Blob { size: 0, len: 0, body: [0; 4] }
    }
}

impl ILTagPayload for Blob {
    fn serialized_size(&self) -> usize {
        self.size
    }

    fn serialize(&self, writer: &mut dyn Writer) -> Result<()> {
        let mut i = 0;
        while i < self.len {
            writer.write(self.body[i])?;
            i += 1;
        }
        failure()
    }

    fn deserialize(
        &mut self,
        _factory: &dyn ILTagFactory,
        value_size: usize,
        reader: &mut dyn Reader,
    ) -> Result<()> {
        unsafe {
            SEEN = value_size;
            CALLS += 1;
        }
        let take = unsafe { TAKE };
        let mut i = 0;
        while i < take {
            self.body[i] = reader.read()?;
            i += 1;
        }
        self.len = take;
        self.size = take;
        failure()
    }
}

type Tag = ILGenericPayloadTag<Blob>;

fn reset(take: usize, fail: u8) {
    unsafe {
        SEEN = usize::MAX;
        CALLS = 0;
        TAKE = take;
        FAIL = fail;
    }
}

/// Serialization with any id of a payload of N bytes.
fn emit<const N: usize>(id: u64) {
    reset(0, 0);
    let mut t = Tag::new(id);
    assert!(t.id() == id && t.payload().len == 0);
    let body: [u8; N] = any();
    t.len = N;
    t.size = N;
    let mut i = 0;
    while i < N {
        t.mut_payload().body[i] = body[i];
        i += 1;
    }
    assert!(t.value_size() == N as u64);
    let mut w = FixedWriter::<16>::new();
    assert!(is_ok(t.serialize_value(&mut w)));
    assert!(w.len == N);
    same(&w.data, &body, N);
    let mut w = FixedWriter::<16>::new();
    assert!(is_ok(t.serialize(&mut w)));
    let h = ref_ilint_size(id);
    let head = if id > 15 { h + 1 } else { h };
    assert!(w.len == head + N && t.size() == w.len as u64);
    let mut i = 0;
    while i < 12 {
        if i < h {
            assert!(w.data[i] == ref_ilint_byte(id, i));
        } else if i < head {
            assert!(w.data[i] == N as u8);
        }
        i += 1;
    }
    i = 0;
    while i < N {
        assert!(w.data[head + i] == body[i]);
        i += 1;
    }
    leak(t);
}

fn factory(id: u64) -> std::mem::ManuallyDrop<standard::factory::ILStandardTagFactory> {
    let mut f = std_factory();
    f.engine()
        .register(id, Box::new(ILDefaultWithIdTagCreator::<Tag>::new()));
    f
}

/// Decodes N bytes of content with a payload that takes `take`.
fn take<const N: usize>(f: &dyn ILTagFactory, take: usize, fail: u8) {
    let body: [u8; 4] = any();
    let mut buf = [248, 52, N as u8, body[0], body[1], body[2], body[3]];
    buf[3 + N] ^= any::<u8>();
    reset(take, fail);
    let mut r = ByteArrayReader::new(&buf);
    let ret = f.deserialize(&mut r);
    unsafe {
        assert!(SEEN == N && CALLS == 1);
    }
    assert!(r.offset() <= 3 + N);
    match ret {
        Ok(t) => {
            assert!(take == N && fail == 0);
            assert!(r.offset() == 3 + N);
            let t = typed::<Tag>(t, 300);
            assert!(t.payload().len == N);
            same(&t.payload().body, &body, N);
            leak(t);
        }
        Err(e) => {
            let k = kind::<()>(Err(e));
            if take > N {
                assert!(k == E::Io);
            } else if fail != 0 {
                assert!(k == failure_kind());
            } else {
                assert!(take < N && k == E::CorruptedData);
            }
        }
    }
}

harnesses! {
    /// Serialization with any id.
    #[unwind(13)]
    fn c27q_emit() {
        let id: u64 = any();
        emit::<2>(id);
        witness!(id < 16);
        witness!(id > u64::MAX - 247);
    }

    /// Serialization of other sizes.
    #[unwind(13)]
    fn c27q_emit_sizes() {
        emit::<0>(32);
        emit::<1>(15);
        emit::<3>(300);
        emit::<4>(247);
        witness!();
    }

    /// The reported size, whatever it is, is the one in the header, and the payload the one that
    /// decides what is emitted.
    #[unwind(12)]
    fn c27q_reported_size() {
        reset(0, 0);
        let size: u64 = any();
        let mut t = Tag::new(40);
        t.size = size as usize;
        t.len = 2;
        t.body = any();
        assert!(t.value_size() == size);
        let mut w = FixedWriter::<16>::new();
        assert!(is_ok(t.serialize(&mut w)));
        let h = 1 + ref_ilint_size(size);
        assert!(w.data[0] == 40 && w.len == h + 2);
        let mut i = 1;
        while i < 10 {
            if i < h {
                assert!(w.data[i] == ref_ilint_byte(size, i - 1));
            }
            i += 1;
        }
        assert!(w.data[h] == t.body[0] && w.data[h + 1] == t.body[1]);
        witness!(h == 10);
        leak(t);
    }

    /// Failures of the payload while serializing.
    #[unwind(12)]
    fn c27q_serialize_failure() {
        let fail = 1 + (any::<u8>() & 3);
        reset(0, fail);
        let mut t = Tag::new(40);
        t.size = 3;
        t.len = 1;
        t.body = any();
        let mut w = FixedWriter::<16>::new();
        assert!(kind(t.serialize(&mut w)) == failure_kind());
        assert!(w.len == 3 && w.data[2] == t.body[0]);
        assert!(kind(t.to_bytes()) == failure_kind());
        witness!();
        leak(t);
    }

    /// The failures of the streams used by the payload are also unchanged.
    #[unwind(12)]
    fn c27q_io_failure() {
        reset(0, 5);
        let t = Tag::new(40);
        let mut w = FixedWriter::<16>::new();
        match t.serialize(&mut w) {
            Err(ErrorKind::IOError(il2_iltags::io::ErrorKind::CorruptedData)) => (),
            _ => panic!("Unexpected result."),
        }
        witness!();
        leak(t);
    }

    /// Direct decoding of a value: any declared size.
    #[unwind(6)]
    fn c27q_value() {
        let size: u64 = any();
        let fail = any::<u8>() & 3;
        reset(2, fail);
        let body: [u8; 3] = any();
        let mut r = ByteArrayReader::new(&body);
        let mut t = Tag::new(any());
        assert!(decode_value(&mut t, size as usize, &mut r) == failure_kind());
        unsafe {
            assert!(SEEN == size as usize && CALLS == 1);
        }
        assert!(r.offset() == 2 && t.len == 2 && t.body[0] == body[0] && t.body[1] == body[1]);
        witness!(size > 1 << 60);
        leak(t);
    }

    /// A payload that takes what it was given.
    #[unwind(29)]
    fn c27q_decode_exact() {
        let f = factory(300);
        take::<0>(&*f, 0, 0);
        take::<1>(&*f, 1, 0);
        take::<3>(&*f, 3, 0);
        witness!();
    }

    /// A payload that does not.
    #[unwind(29)]
    fn c27q_decode_wrong() {
        let f = factory(300);
        take::<0>(&*f, 1, 0);
        take::<1>(&*f, 0, 0);
        take::<3>(&*f, 2, 0);
        take::<3>(&*f, 4, 0);
        witness!();
    }

    /// A payload that fails.
    #[unwind(29)]
    fn c27q_decode_failure() {
        let f = factory(300);
        take::<1>(&*f, 1, 1);
        take::<2>(&*f, 2, 2);
        take::<2>(&*f, 2, 4);
        take::<2>(&*f, 1, 3);
        take::<0>(&*f, 0, 6);
        witness!();
    }

    /// Encoding and decoding through the factory.
    #[unwind(29)]
    fn c27q_round_trip() {
        let f = factory(300);
        reset(2, 0);
        let mut t = Tag::new(300);
        t.len = 2;
        t.size = 2;
        t.body = [any(), any(), 0, 0];
        let mut w = FixedWriter::<8>::new();
        assert!(is_ok(t.serialize(&mut w)));
        assert!(w.len == 5);
        pin(&mut w, 0, 248);
        pin(&mut w, 1, 52);
        pin(&mut w, 2, 2);
        let b = typed::<Tag>(decode(&*f, &w.data, 5), 300);
        assert!(b.len == 2 && b.size == 2 && b.body[0] == t.body[0] && b.body[1] == t.body[1]);
        assert!(f.create_tag(300).is_some());
        witness!();
        leak(b);
        leak(t);
    }
}
