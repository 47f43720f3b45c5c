//! C15: reported sizes equal the bytes actually written.
use crate::kit::*;
use crate::mocks::*;
use crate::refs::*;
use crate::sym::*;
use il2_iltags::tags::payload::*;
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::implicit::*;
use il2_iltags::tags::*;

/// Serializes into writers that only count.
fn sizes<T: ILTag>(t: &T) {
    let v = value_len(t);
    assert!(t.value_size() == v);
    let size = ref_ilint_size(t.id()) as u64 + v + if t.id() > 15 { ref_ilint_size(v) as u64 } else { 0 };
    unsafe { PHANTOM = 0 };
    let mut w = CountingWriter { len: 0 };
    assert!(is_ok(t.serialize(&mut w)));
    assert!(w.len + unsafe { PHANTOM } == size);
    assert!(t.size() == size);
}

fn value_len<T: ILTag>(t: &T) -> u64 {
    unsafe { PHANTOM = 0 };
    let mut v = CountingWriter { len: 0 };
    assert!(is_ok(t.serialize_value(&mut v)));
    v.len + unsafe { PHANTOM }
}

fn sized<T: ILTag>(t: T) {
    sizes(&t);
    leak(t);
}

/// Serialization to a vector: as many bytes as reported, the same ones any writer gets.
fn bytes<const N: usize, T: ILTag>(t: T) {
    let mut w = FixedWriter::<N>::new();
    assert!(is_ok(t.serialize(&mut w)));
    match t.to_bytes() {
        Ok(b) => {
            assert!(b.len() as u64 == t.size());
            assert!(b.len() == w.len);
            same(b.as_slice(), &w.data, w.len);
            leak(b);
        }
        Err(e) => {
            leak(e);
            panic!("to_bytes failed");
        }
    }
    leak(t);
}

/// N bytes.
fn zeros<const N: usize>() -> Vec<u8> {
    vec![0; N]
}

fn content<const N: usize>() {
    let v = zeros::<N>();
    sized(ILRawTag::with_value(100, &v));
    sized(ILByteArrayTag::with_value(&v));
    sized(ILBigIntTag::with_value(&v));
    leak(v);
}

fn text<const N: usize>() {
    let v = zeros::<N>();
    sized(ILBigDecTag::with_value(any::<u32>() as i32, &v));
    leak(v);
    let s = unsafe { String::from_utf8_unchecked(zeros::<N>()) };
    sized(ILStringTag::with_value(&s));
    leak(s);
}

fn string_helper<const N: usize>() {
    let s = unsafe { String::from_utf8_unchecked(zeros::<N>()) };
    let mut w = CountingWriter { len: 0 };
    assert!(is_ok(serialize_string_tag_from_value(&s, &mut w)));
    assert!(w.len == string_tag_size_from_value(&s));
    assert!(w.len == 1 + ref_ilint_size(N as u64) as u64 + N as u64);
    leak(s);
}

fn ints<const N: usize>() {
    let mut t = ILILIntArrayTag::new();
    t.mut_value().resize(N, 0);
    sized(t);
}

fn boxed(id: u64) -> Box<dyn ILTag> {
    let size: u64 = any();
    assume(size < 1 << 40);
    Box::new(SizedTag { id, size })
}

/// Payload of any size.
#[derive(Default)]
struct SizedPayload(u64);

impl ILTagPayload for SizedPayload {
    fn serialized_size(&self) -> usize {
        self.0 as usize
    }

    fn serialize(&self, writer: &mut dyn il2_iltags::io::Writer) -> Result<()> {
        SizedTag { id: 0, size: self.0 }.serialize_value(writer)
    }

    fn deserialize(
        &mut self,
        _factory: &dyn ILTagFactory,
        _value_size: usize,
        _reader: &mut dyn il2_iltags::io::Reader,
    ) -> Result<()> {
        Ok(())
    }
}

harnesses! {
    /// Tags of fixed size under any id.
    #[unwind(12)]
    fn c15q_fixed() {
        let id: u64 = any();
        sized(ILNullTag::with_id(id));
        sized(ILBoolTag::with_id_value(id, any_bool()));
        sized(ILInt8Tag::with_id_value(id, any()));
        sized(ILUInt8Tag::with_id_value(id, any()));
        sized(ILInt16Tag::with_id_value(id, any()));
        sized(ILUInt16Tag::with_id_value(id, any()));
        sized(ILInt32Tag::with_id_value(id, any()));
        sized(ILUInt32Tag::with_id_value(id, any()));
        witness!();
    }

    /// More tags of fixed size under any id.
    #[unwind(12)]
    fn c15q_fixed_long() {
        let id: u64 = any();
        sized(ILInt64Tag::with_id_value(id, any()));
        sized(ILUInt64Tag::with_id_value(id, any()));
        sized(ILBin32Tag::with_id_value(id, f32::from_bits(any())));
        sized(ILBin64Tag::with_id_value(id, f64::from_bits(any())));
        sized(ILBin128Tag::with_id_value(id, &any()));
        sized(ILVersionTag::with_id_value(id, any::<u32>() as i32, any::<u32>() as i32, any::<u32>() as i32, any::<u32>() as i32));
        witness!();
    }

    /// Tags with ILInts: any value under any id.
    #[unwind(12)]
    fn c15q_ilint() {
        let id: u64 = any();
        sized(ILILInt64Tag::with_id_value(id, any()));
        sized(ILSignedILInt64Tag::with_id_value(id, any()));
        sized(ILRangeTag::with_id_value(id, any(), any()));
        sized(ILILIntArrayTag::with_id_value(id, &[]));
        sized(ILILIntArrayTag::with_id_value(id, &[any(), any(), any()]));
        sized(ILOIDTag::with_id_value(id, &[any(), any()]));
        witness!();
    }

    /// Contents at the edges of the sizes of the size field.
    #[unwind(6)]
    fn c15q_content() {
        content::<0>();
        content::<1>();
        content::<247>();
        content::<248>();
        witness!();
    }

    /// Contents at the edges of the sizes of the size field.
    #[unwind(6)]
    fn c15t_content() {
        content::<243>();
        content::<244>();
        content::<249>();
        content::<500>();
        content::<503>();
        content::<504>();
        content::<505>();
        witness!();
    }

    /// Contents at the edges of the sizes of the size field.
    #[unwind(6)]
    fn c15q_text() {
        text::<0>();
        text::<1>();
        text::<247>();
        text::<248>();
        witness!();
    }

    /// Contents at the edges of the sizes of the size field.
    #[unwind(6)]
    fn c15t_text() {
        text::<243>();
        text::<244>();
        text::<249>();
        text::<500>();
        text::<503>();
        text::<504>();
        text::<505>();
        witness!();
    }

    /// Helper that writes a string with no tag, at the same edges.
    #[unwind(6)]
    fn c15q_string_helper() {
        string_helper::<0>();
        string_helper::<1>();
        string_helper::<247>();
        string_helper::<248>();
        string_helper::<503>();
        string_helper::<504>();
        witness!();
    }

    /// Integer arrays at the edge of the size of the count field.
    #[unwind(256)]
    fn c15t_many_ints() {
        ints::<248>();
        witness!();
    }

    /// Sequences of elements of any size (under 1 TiB) and any id.
    #[unwind(10)]
    fn c15q_seq() {
        let mut t = ILTagSeqTag::new();
        sizes(&t);
        t.mut_value().push(boxed(any()));
        t.mut_value().push(boxed(40));
        sizes(&t);
        witness!();
        leak(t);
    }

    /// Arrays of elements of any size (under 1 TiB) and any id.
    #[unwind(10)]
    fn c15q_array() {
        let mut t = ILTagArrayTag::new();
        sizes(&t);
        t.mut_value().push(boxed(any()));
        t.mut_value().push(boxed(40));
        sizes(&t);
        witness!();
        leak(t);
    }

    /// Arrays at the edge of the size of the count field.
    #[unwind(250)]
    fn c15t_many_elements() {
        let mut t = ILTagArrayTag::new();
        t.mut_value().reserve(300);
        while t.value().len() < 248 {
            t.mut_value().push(Box::new(UnitTag {}));
        }
        sizes(&t);
        witness!();
        leak(t);
    }

    /// Dictionaries with values of any size (under 1 TiB) and any id.
    #[unwind(10)]
    fn c15q_dict() {
        let mut t = ILDictTag::new();
        sizes(&t);
        insert_new(t.mut_value(), "a", boxed(40));
        sizes(&t);
        witness!();
        leak(t);
    }

    /// String dictionaries with keys and values of up to 5 bytes.
    #[unwind(10)]
    fn c15q_strdict() {
        let mut t = ILStrDictTag::with_id(any());
        sizes(&t);
        insert_new(t.mut_value(), "a", String::new());
        sizes(&t);
        insert_new(t.mut_value(), "", String::from("abcde"));
        sizes(&t);
        witness!();
        leak(t);
    }

    /// String dictionaries with keys and values at the edge of the size of the size field.
    #[unwind(250)]
    fn c15q_long_strings() {
        let mut t = ILStrDictTag::new();
        let k = unsafe { String::from_utf8_unchecked(zeros::<248>()) };
        insert_new(t.mut_value(), &k, unsafe { String::from_utf8_unchecked(zeros::<248>()) });
        sizes(&t);
        witness!();
        leak(k);
        leak(t);
    }

    /// Dictionaries with keys at the edge of the size of the size field.
    #[unwind(250)]
    fn c15q_long_keys() {
        let mut t = ILDictTag::new();
        let k = unsafe { String::from_utf8_unchecked(zeros::<248>()) };
        insert_new(t.mut_value(), &k, Box::new(UnitTag {}));
        sizes(&t);
        witness!();
        leak(k);
        leak(t);
    }

    /// Payload tags: any size (under 1 TiB) and any id.
    #[unwind(12)]
    fn c15q_payload() {
        let mut t = ILGenericPayloadTag::<SizedPayload>::new(any());
        let size: u64 = any();
        assume(size < 1 << 40);
        t.0 = size;
        sized(t);
        let size: u64 = any();
        assume(size < 1 << 40);
        sized(SizedTag { id: any(), size });
        witness!();
    }

    /// Serialization to bytes.
    #[unwind(10)]
    fn c15q_to_bytes() {
        bytes::<16, _>(ElemTag::new(40, &any::<[u8; 3]>()));
        bytes::<16, _>(ILUInt16Tag::with_value(any()));
        let mut t = ElemTag::new(40, &[1]);
        t.fail = true;
        assert!(!is_ok(t.to_bytes()));
        witness!();
    }

    /// Serialization of raw tags and ILInts to bytes.
    #[unwind(10)]
    fn c15q_to_bytes_raw() {
        bytes::<16, _>(ILRawTag::with_value(100, &any::<[u8; 3]>()));
        bytes::<16, _>(ILILInt64Tag::with_value(1000));
        witness!();
    }
}
