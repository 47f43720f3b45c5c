//! C25: typed access succeeds exactly when id and type match.
use crate::kit::*;
use crate::mocks::*;
use crate::sym::*;
use il2_iltags::tags::payload::*;
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::implicit::*;
use il2_iltags::tags::*;

/// All accessors on a tag of type T that has the id `id`, with any requested id, for the right
/// type and for another one.
fn accessors<T: ILTag, O: ILTag>(t: &mut T, id: u64) {
    let req: u64 = any();
    let here = t as *const T as usize;
    let at = |p: Option<&T>| match p {
        Some(x) => x as *const T as usize,
        None => 0,
    };
    let tag: &mut dyn ILTag = t;
    assert!(tag.id() == id);
    // Right type.
    assert!(at(tag_downcast_ref::<T>(tag)) == here);
    assert!(at(tag_downcast_mut::<T>(tag).map(|x| &*x)) == here);
    let expected = if req == id { here } else { 0 };
    assert!(at(tag_downcast_ref_with_id::<T>(req, tag)) == expected);
    assert!(at(tag_downcast_mut_with_id::<T>(req, tag).map(|x| &*x)) == expected);
    match tag_id_downcast_ref::<T>(req, tag) {
        Ok(x) => assert!(at(Some(x)) == expected),
        Err(e) => {
            let k = kind::<()>(Err(e));
            assert!(expected == 0 && k == E::UnexpectedTagType);
        }
    }
    match tag_id_downcast_mut::<T>(req, tag) {
        Ok(x) => assert!(at(Some(&*x)) == expected),
        Err(e) => {
            let k = kind::<()>(Err(e));
            assert!(expected == 0 && k == E::UnexpectedTagType);
        }
    }
    let none = if req == id { E::None } else { E::UnexpectedTagType };
    assert!(kind(assert_tag_id_and_type::<T>(req, tag)) == none);
    let given = if req == id { E::None } else { E::TagTooLarge };
    assert!(kind(assert_tag_id_and_type_or_error::<T>(req, tag, ErrorKind::TagTooLarge)) == given);
    // Another type.
    assert!(tag_downcast_ref::<O>(tag).is_none());
    assert!(tag_downcast_mut::<O>(tag).is_none());
    assert!(tag_downcast_ref_with_id::<O>(req, tag).is_none());
    assert!(tag_downcast_mut_with_id::<O>(req, tag).is_none());
    assert!(kind(tag_id_downcast_ref::<O>(req, tag)) == E::UnexpectedTagType);
    assert!(kind(tag_id_downcast_mut::<O>(req, tag)) == E::UnexpectedTagType);
    assert!(kind(assert_tag_id_and_type::<O>(req, tag)) == E::UnexpectedTagType);
    assert!(kind(assert_tag_id_and_type_or_error::<O>(req, tag, ErrorKind::UnknownTag)) == E::UnknownTag);
}

/// The part that is up to the types.
fn standard<T: ILTag, O: ILTag>(mut t: T, id: u64) {
    let here = &t as *const T as usize;
    let tag: &mut dyn ILTag = &mut t;
    assert!(tag.id() == id);
    assert!(tag_downcast_ref_with_id::<T>(id, tag).map_or(0, |x| x as *const T as usize) == here);
    assert!(tag_downcast_mut_with_id::<T>(id, tag).map_or(0, |x| x as *mut T as usize) == here);
    assert!(tag_downcast_ref_with_id::<T>(id ^ 1, tag).is_none());
    assert!(tag_downcast_ref::<O>(tag).is_none());
    assert!(tag_downcast_mut::<O>(tag).is_none());
    assert!(is_ok(assert_tag_id_and_type::<T>(id, tag)));
    assert!(!is_ok(assert_tag_id_and_type::<O>(id, tag)));
    leak(t);
}

#[derive(Default)]
struct Nothing(u8);

impl ILTagPayload for Nothing {
    fn serialized_size(&self) -> usize {
        1
    }

    fn serialize(&self, writer: &mut dyn il2_iltags::io::Writer) -> Result<()> {
        writer.write(self.0)?;
        Ok(())
    }

    fn deserialize(
        &mut self,
        _factory: &dyn ILTagFactory,
        _value_size: usize,
        reader: &mut dyn il2_iltags::io::Reader,
    ) -> Result<()> {
        self.0 = reader.read()?;
        Ok(())
    }
}

harnesses! {
    /// Tags of any id with any requested id.
    #[unwind(6)]
    fn c25q_any_id() {
        let id: u64 = any();
        let mut t = ElemTag::new(id, &any::<[u8; 2]>());
        accessors::<ElemTag, UnitTag>(&mut t, id);
        witness!();
    }

    /// Mutable access changes exactly the tag, and only when it is granted.
    #[unwind(6)]
    fn c25q_mutable() {
        let id: u64 = any();
        let req: u64 = any();
        let v: u16 = any();
        let n: u16 = any();
        let mut t = ILUInt16Tag::with_id_value(id, v);
        let mut other = ILUInt16Tag::with_id_value(id, v);
        let mut granted = false;
        if let Some(x) = tag_downcast_mut_with_id::<ILUInt16Tag>(req, &mut t) {
            x.set_value(n);
            granted = true;
        }
        assert!(t.value() == if req == id { n } else { v });
        assert!(granted == (req == id) && other.value() == v && t.id() == id);
        if let Ok(x) = tag_id_downcast_mut::<ILUInt16Tag>(req, &mut other) {
            x.set_value(n);
            assert!(req == id);
        }
        assert!(other.value() == if req == id { n } else { v });
        let tag: &mut dyn ILTag = &mut other;
        tag_downcast_mut::<ILUInt16Tag>(tag).unwrap().set_value(1);
        assert!(other.value() == 1);
        assert!(tag_downcast_mut_with_id::<ILInt16Tag>(id, &mut other).is_none());
        witness!(granted);
        witness!(!granted);
    }

    /// Every implicit tag type against the type it is most likely confused with.
    #[unwind(18)]
    fn c25q_implicit() {
        let id: u64 = any();
        standard::<_, ILRawTag>(ILNullTag::with_id(id), id);
        standard::<_, ILUInt8Tag>(ILBoolTag::with_id(id), id);
        standard::<_, ILUInt8Tag>(ILInt8Tag::with_id(id), id);
        standard::<_, ILInt8Tag>(ILUInt8Tag::with_id(id), id);
        standard::<_, ILUInt16Tag>(ILInt16Tag::with_id(id), id);
        standard::<_, ILInt16Tag>(ILUInt16Tag::with_id(id), id);
        standard::<_, ILUInt32Tag>(ILInt32Tag::with_id(id), id);
        standard::<_, ILInt32Tag>(ILUInt32Tag::with_id(id), id);
        standard::<_, ILUInt64Tag>(ILInt64Tag::with_id(id), id);
        standard::<_, ILInt64Tag>(ILUInt64Tag::with_id(id), id);
        standard::<_, ILUInt64Tag>(ILILInt64Tag::with_id(id), id);
        standard::<_, ILILInt64Tag>(ILSignedILInt64Tag::with_id(id), id);
        standard::<_, ILBin64Tag>(ILBin32Tag::with_id(id), id);
        standard::<_, ILBin32Tag>(ILBin64Tag::with_id(id), id);
        standard::<_, ILRawTag>(ILBin128Tag::with_id(id), id);
        witness!();
    }

    /// Every explicit tag type against the type it is most likely confused with (for some, the
    /// one that implements it).
    #[unwind(18)]
    fn c25q_explicit() {
        let id: u64 = any();
        assume(id > 15);
        standard::<_, ILByteArrayTag>(ILRawTag::new(id), id);
        standard::<_, ILRawTag>(ILByteArrayTag::new(), 16);
        standard::<_, ILRawTag>(ILStringTag::with_id(id), id);
        standard::<_, ILRawTag>(ILBigIntTag::new(), 18);
        standard::<_, ILBigIntTag>(ILBigDecTag::with_id(id), id);
        standard::<_, ILOIDTag>(ILILIntArrayTag::with_id(id), id);
        standard::<_, ILTagSeqTag>(ILTagArrayTag::with_id(id), id);
        standard::<_, ILTagArrayTag>(ILTagSeqTag::with_id(id), id);
        standard::<_, ILUInt64Tag>(ILRangeTag::with_id(id), id);
        standard::<_, ILRawTag>(ILVersionTag::with_id(id), id);
        standard::<_, ILILIntArrayTag>(ILOIDTag::with_id(id), id);
        witness!();
    }

    /// Dictionaries and payload tags.
    #[unwind(18)]
    fn c25q_custom() {
        let id: u64 = any();
        standard::<_, ILStrDictTag>(ILDictTag::with_id(id), id);
        standard::<_, ILDictTag>(ILStrDictTag::with_id(id), id);
        standard::<_, ILRawTag>(ILGenericPayloadTag::<Nothing>::new(id), id);
        witness!();
    }
}
