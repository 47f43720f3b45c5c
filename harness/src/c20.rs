//! C20: the tag factory maps every id to its own tag type.
use crate::kit::*;
use crate::mocks::*;
use crate::sym::*;
use il2_iltags::io::array::{ByteArrayReader, MemoryReader};
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::factory::*;
use il2_iltags::tags::standard::implicit::*;
use il2_iltags::tags::*;

/// Creates `MarkTag`s with a number.
struct Mark(u8);

struct MarkTag {
    id: u64,
    n: u8,
}

impl ILTag for MarkTag {
    fn id(&self) -> u64 {
        self.id
    }

    fn value_size(&self) -> u64 {
        1
    }

    fn serialize_value(&self, writer: &mut dyn il2_iltags::io::Writer) -> Result<()> {
        writer.write(self.n)?;
        Ok(())
    }

    fn deserialize_value(
        &mut self,
        _factory: &dyn ILTagFactory,
        _value_size: usize,
        reader: &mut dyn il2_iltags::io::Reader,
    ) -> Result<()> {
        self.n = reader.read()?;
        Ok(())
    }

    fn as_any(&self) -> &dyn std::any::Any {
        self
    }

    fn as_mut_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}

impl ILTagCreator for Mark {
    fn create_empty_tag(&self, tag_id: u64) -> Box<dyn ILTag> {
        Box::new(MarkTag { id: tag_id, n: self.0 })
    }
}

/// Number of the creator of a tag: 0 for raw tags and 255 for no tag.
fn made_by(t: Option<Box<dyn ILTag>>, id: u64) -> u8 {
    let n = match &t {
        None => 255,
        Some(t) => {
            assert!(t.id() == id);
            match tag_downcast_ref::<MarkTag>(t.as_ref()) {
                Some(e) => e.n,
                None => {
                    assert!(t.as_any().is::<ILRawTag>() && t.value_size() == 0);
                    0
                }
            }
        }
    };
    leak(t);
    n
}

fn creator(c: Option<Box<dyn ILTagCreator>>) -> u8 {
    let n = match &c {
        None => 255,
        Some(c) => made_by(Some(c.create_empty_tag(77)), 77),
    };
    leak(c);
    n
}

fn unregistered(strict: bool, id: u64) -> u8 {
    if strict || id <= 15 {
        255
    } else {
        0
    }
}

/// Two registrations of any ids.
fn registrations(strict: bool) {
    let mut e = ILTagCreatorEngine::new(strict);
    assert!(e.strict() == strict);
    let a: u64 = any();
    let b: u64 = any();
    let c: u64 = any();
    assert!(creator(e.register(a, Box::new(Mark(1)))) == 255);
    assert!(creator(e.register(b, Box::new(Mark(2)))) == if a == b { 1 } else { 255 });
    let expected = if c == b {
        2
    } else if c == a {
        1
    } else {
        unregistered(strict, c)
    };
    assert!(made_by(e.create_tag(c), c) == expected);
    witness!(a == b && c == b);
    witness!(a != b && c == a);
    leak(e);
}

/// A registration and two removals of any ids.
fn removals(strict: bool) {
    let mut e = ILTagCreatorEngine::new(strict);
    let a: u64 = any();
    let c: u64 = any();
    assert!(made_by(e.create_tag(c), c) == unregistered(strict, c));
    assert!(creator(e.register(a, Box::new(Mark(1)))) == 255);
    let d: u64 = any();
    assert!(creator(e.deregister(d)) == if d == a { 1 } else { 255 });
    let expected = if c == a && c != d { 1 } else { unregistered(strict, c) };
    assert!(made_by(e.create_tag(c), c) == expected);
    assert!(creator(e.deregister(d)) == 255);
    witness!(c == d && a == c);
    witness!(c == a && d != a);
    leak(e);
}

/// The factory creates an empty tag of type T for the id.
fn creates<T: ILTag>(f: &ILStandardTagFactory, id: u64, empty_size: u64) {
    match f.create_tag(id) {
        Some(t) => {
            let t = typed::<T>(t, id);
            assert!(t.value_size() == empty_size);
            leak(t);
        }
        None => panic!("no tag"),
    }
}

fn implicit_types(strict: bool) {
    let f = std::mem::ManuallyDrop::new(ILStandardTagFactory::new(strict));
    creates::<ILNullTag>(&f, 0, 0);
    creates::<ILBoolTag>(&f, 1, 1);
    creates::<ILInt8Tag>(&f, 2, 1);
    creates::<ILUInt8Tag>(&f, 3, 1);
    creates::<ILInt16Tag>(&f, 4, 2);
    creates::<ILUInt16Tag>(&f, 5, 2);
    creates::<ILInt32Tag>(&f, 6, 4);
    creates::<ILUInt32Tag>(&f, 7, 4);
    creates::<ILInt64Tag>(&f, 8, 8);
    creates::<ILUInt64Tag>(&f, 9, 8);
    creates::<ILILInt64Tag>(&f, 10, 1);
    creates::<ILBin32Tag>(&f, 11, 4);
    creates::<ILBin64Tag>(&f, 12, 8);
    creates::<ILBin128Tag>(&f, 13, 16);
    creates::<ILSignedILInt64Tag>(&f, 14, 1);
    assert!(f.create_tag(15).is_none());
    witness!();
}

fn explicit_types(strict: bool) {
    let f = std::mem::ManuallyDrop::new(ILStandardTagFactory::new(strict));
    creates::<ILByteArrayTag>(&f, 16, 0);
    creates::<ILStringTag>(&f, 17, 0);
    creates::<ILBigIntTag>(&f, 18, 0);
    creates::<ILBigDecTag>(&f, 19, 4);
    creates::<ILILIntArrayTag>(&f, 20, 1);
    creates::<ILTagArrayTag>(&f, 21, 1);
    creates::<ILTagSeqTag>(&f, 22, 0);
    creates::<ILRangeTag>(&f, 23, 3);
    creates::<ILVersionTag>(&f, 24, 16);
    creates::<ILOIDTag>(&f, 25, 1);
    creates::<ILDictTag>(&f, 30, 1);
    creates::<ILStrDictTag>(&f, 31, 1);
    witness!();
}

/// Any id with no standard type.
fn others(strict: bool) {
    let f = std::mem::ManuallyDrop::new(ILStandardTagFactory::new(strict));
    for id in [26u64, 27, 28, 29, 32, 33, 247, 248, u64::MAX] {
        match f.create_tag(id) {
            Some(t) => {
                assert!(!strict);
                assert!(typed::<ILRawTag>(t, id).value().len() == 0);
            }
            None => assert!(strict),
        }
    }
    if !strict {
        // Any other id is too costly here, it is left to the engines.
        return;
    }
    let id: u64 = any();
    assume(id > 31);
    match f.create_tag(id) {
        Some(t) => {
            assert!(!strict && t.id() == id && t.as_any().is::<ILRawTag>() && t.value_size() == 0);
            leak(t);
        }
        None => assert!(strict),
    }
}

harnesses! {
    /// Registrations.
    #[unwind(6)]
    fn c20q_registrations() {
        registrations(false);
    }

    /// Registrations in strict mode.
    #[unwind(6)]
    fn c20q_registrations_strict() {
        registrations(true);
    }

    /// Removals.
    #[unwind(6)]
    fn c20q_removals() {
        removals(false);
    }

    /// Removals in strict mode.
    #[unwind(6)]
    fn c20q_removals_strict() {
        removals(true);
    }

    /// Types of the implicit ids.
    #[unwind(30)]
    fn c20q_implicit() {
        implicit_types(false);
    }

    /// Types of the explicit ids.
    #[unwind(30)]
    fn c20q_explicit() {
        explicit_types(false);
    }

    /// Types of the implicit ids when strict.
    #[unwind(30)]
    fn c20t_implicit_strict() {
        implicit_types(true);
    }

    /// Types of the explicit ids when strict.
    #[unwind(30)]
    fn c20t_explicit_strict() {
        explicit_types(true);
    }

    /// All other ids.
    #[unwind(30)]
    fn c20q_others() {
        others(false);
        witness!();
    }

    /// All other ids when strict.
    #[unwind(30)]
    fn c20q_others_strict() {
        others(true);
        witness!();
    }

    /// Changes to a standard factory affect a single id.
    #[unwind(30)]
    fn c20q_changes() {
        let mut f = std_factory();
        match f.engine().register(17, Box::new(Mark(9))) {
            Some(c) => {
                leak(typed::<ILStringTag>(c.create_empty_tag(17), 17));
                leak(c);
            }
            None => panic!("nothing replaced"),
        }
        assert!(made_by(f.create_tag(17), 17) == 9);
        creates::<ILByteArrayTag>(&f, 16, 0);
        creates::<ILBigIntTag>(&f, 18, 0);
        assert!(creator(f.engine().deregister(17)) == 9);
        assert!(made_by(f.create_tag(17), 17) == 0);
        creates::<ILByteArrayTag>(&f, 16, 0);
        creates::<ILStrDictTag>(&f, 31, 1);
        let c = f.engine().deregister(3);
        assert!(c.is_some());
        leak(c);
        assert!(f.create_tag(3).is_none());
        creates::<ILInt8Tag>(&f, 2, 1);
        assert!(creator(f.engine().register(15, Box::new(Mark(8)))) == 255);
        assert!(made_by(f.create_tag(15), 15) == 8);
        witness!();
    }

    /// Decoding of unknown tags.
    #[unwind(30)]
    fn c20q_unknown() {
        let f = std::mem::ManuallyDrop::new(ILStandardTagFactory::new(true));
        let v: u8 = any();
        for b in [[200, 1, v], [29, 1, v], [15, 0, v]] {
            let mut r = ByteArrayReader::new(&b);
            assert!(kind(f.deserialize(&mut r)) == E::UnknownTag);
            assert!(r.offset() <= 2);
        }
        let f = std_factory();
        let b = [15, 0, v];
        assert!(kind(f.deserialize(&mut ByteArrayReader::new(&b))) == E::UnknownTag);
        let b = [200, 1, v];
        let t = typed::<ILRawTag>(decode(&*f, &b, 3), 200);
        assert!(t.value().len() == 1 && t.value()[0] == v);
        witness!();
        leak(t);
    }

    /// Decoding goes by the registered creators.
    #[unwind(30)]
    fn c20q_decode() {
        let mut f = std_factory();
        f.engine().register(300, Box::new(Mark(7)));
        let v: u8 = any();
        let t = typed::<MarkTag>(decode(&*f, &[248, 52, 1, v], 4), 300);
        assert!(t.n == v);
        leak(t);
        leak(f.engine().deregister(300));
        let t = typed::<ILRawTag>(decode(&*f, &[248, 52, 1, v], 4), 300);
        assert!(t.value()[0] == v);
        witness!();
        leak(t);
    }
}
