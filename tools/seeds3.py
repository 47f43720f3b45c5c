import os, runpy
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py")).items() if len(k) <= 2})
SER = "src/tags/serialization/mod.rs"; MAC = "src/tags/macros.rs"; IM = "src/tags/standard/implicit/mod.rs"
SEEDS = [
 dict(id="s01-helper-fast-path", property="C01", edits=[(D, "impl<T: Writer> ILIntWriter for T {\n    #[inline]\n    fn write_ilint(&mut self, value: u64) -> Result<()> {\n        write_ilint(value, self)", "impl<T: Writer> ILIntWriter for T {\n    #[inline]\n    fn write_ilint(&mut self, value: u64) -> Result<()> {\n        if value <= 0xFFFF && value > 0xF7F7 {\n            let v = value - 0xF8;\n            return self.write_all(&[0xF9, (v >> 8) as u8, v as u8]);\n        }\n        if value <= 0xFF && value >= 0xF8 {\n            return self.write_all(&[0xF8, (value as u8) & 0x07 | ((value as u8) >> 4 & 0x08)]);\n        }\n        write_ilint(value, self)")],
  demo="""use il2_iltags::io::data::*;
fn main() {
    for v in [0xF8u64, 0xFB, 0xFF, 0xF7F8] {
        let mut a = il2_iltags::io::array::VecWriter::new();
        let mut b = il2_iltags::io::array::VecWriter::new();
        il2_iltags::ilint::encode(v, &mut a).unwrap();
        b.write_ilint(v).unwrap();
        assert_eq!(a.as_slice(), b.as_slice());
    }
}
""", needs="a value between 248 and 255 written through the extension method of a concrete writer", what="The method and the function emit different bytes."),
 dict(id="s11-helper-tail", property="C11", edits=[(X, "        Err(_) => return Err(ErrorKind::CorruptedData),\n    };\n    output.replace_range(.., s);", "        Err(_) => return Err(ErrorKind::CorruptedData),\n    };\n    if output.is_char_boundary(s.len()) {\n        output.replace_range(..s.len(), s);\n    } else {\n        output.replace_range(.., s);\n    }")],
  demo=T+"""fn main() {
    let mut s = String::from("previous");
    deserialize_string_tag_from_value_into(&mut ByteArrayReader::new(&[17, 2, b'a', b'b']), &mut s).unwrap();
    assert_eq!(s, "ab");
}
""", needs="decoding into a string that already holds a longer text", what="The end of the previous text stays."),
 dict(id="s12-version-multiple", property="C12", edits=[(X, "        if value_size != 16 {\n            return Err(ErrorKind::CorruptedData);\n        }\n        for v in", "        if value_size == 0 || value_size % 16 != 0 {\n            return Err(ErrorKind::CorruptedData);\n        }\n        reader.skip(value_size - 16)?;\n        for v in")],
  demo=T+"""fn main() {
    let f = ILStandardTagFactory::new(false);
    let mut b = vec![24u8, 32];
    b.resize(34, 0);
    assert!(f.deserialize(&mut ByteArrayReader::new(&b)).is_err());
}
""", needs="a version whose declared size is a multiple of 16", what="Payloads of 32, 48... bytes are accepted and their last 16 bytes are the version."),
 dict(id="s12-count-wide", property="C12", edits=[(X, "        self.value.reserve(count as usize);\n        for _i in 0..count {\n            self.value.push(lreader.deserialize_ilint()?);", "        self.value.reserve(count as usize);\n        for _i in 0..(count as u8) {\n            self.value.push(lreader.deserialize_ilint()?);")],
  demo=T+"""fn main() {
    let f = ILStandardTagFactory::new(false);
    let t = ILILIntArrayTag::with_value(&vec![1u64; 300]);
    let d = f.from_bytes(&t.to_bytes().unwrap()).unwrap();
    assert!(il2_iltags::tags::util::iltag_are_equal(&t, d.as_ref()));
}
""", needs="an array with 256 or more elements", what="Only the remainder of the count modulo 256 is read, so long arrays are refused."),
 dict(id="s13-many-elements", property="C13", edits=[(X, "        self.inner.value.reserve(count as usize);\n        for _i in 0..count {", "        self.inner.value.reserve(count as usize);\n        for _i in 0..(count as u8) {")],
  demo=T+"""fn main() {
    let f = ILStandardTagFactory::new(false);
    let mut t = ILTagArrayTag::new();
    for _ in 0..256 {
        t.mut_value().push(Box::new(il2_iltags::tags::standard::implicit::ILNullTag::new()));
    }
    assert!(f.from_bytes(&t.to_bytes().unwrap()).is_ok());
}
""", needs="an array with 256 or more elements", what="Long arrays are refused."),
 dict(id="s14-many-entries", property="C14", edits=[(X, "        self.value.clear();\n        for _ in 0..count {\n            self.value.insert(\n                deserialize_string_tag_from_value(&mut lreader)?,\n                deserialize_string_tag_from_value(&mut lreader)?,\n            );", "        self.value.clear();\n        for _ in 0..(count & 0xFF) {\n            self.value.insert(\n                deserialize_string_tag_from_value(&mut lreader)?,\n                deserialize_string_tag_from_value(&mut lreader)?,\n            );")],
  demo=T+"""fn main() {
    let f = ILStandardTagFactory::new(false);
    let mut t = ILStrDictTag::new();
    for i in 0..256 {
        t.insert(&i.to_string(), "");
    }
    assert!(f.from_bytes(&t.to_bytes().unwrap()).is_ok());
}
""", needs="a dictionary with 256 or more entries", what="Large dictionaries are refused."),
 dict(id="s17-null-element", property="C17", edits=[(X, "        for _i in 0..count {\n            self.inner.value.push(factory.deserialize(&mut lreader)?);\n        }", "        for _i in 0..count {\n            if lreader.empty() {\n                break;\n            }\n            self.inner.value.push(factory.deserialize(&mut lreader)?);\n        }")],
  demo=T+"""fn main() {
    let f = ILStandardTagFactory::new(false);
    assert!(f.deserialize(&mut ByteArrayReader::new(&[21, 2, 2, 0])).is_err());
}
""", needs="an array whose declared size ends before its count is reached", what="An incomplete array is accepted."),
 dict(id="s25-narrow-ids", property="C25", edits=[(M, "pub fn tag_downcast_mut_with_id<T: ILTag>(tag_id: u64, tag: &mut dyn ILTag) -> Option<&mut T> {\n    if tag.id() == tag_id {", "pub fn tag_downcast_mut_with_id<T: ILTag>(tag_id: u64, tag: &mut dyn ILTag) -> Option<&mut T> {\n    if tag.id() as u32 == tag_id as u32 {")],
  demo=T+"""fn main() {
    let mut t = ILRawTag::new(0x1_0000_0020);
    assert!(tag_downcast_mut_with_id::<ILRawTag>(0x20, &mut t).is_none());
}
""", needs="ids that differ only above their lowest 32 bits", what="The tag is returned for another id."),
 dict(id="s25-inner-any", property="C25", edits=[(X, "impl ILTag for ILBigDecTag {\n    inner_iltag_base_func_impl!();\n", "impl ILTag for ILBigDecTag {\n    fn id(&self) -> u64 {\n        self.inner.id()\n    }\n\n    fn as_any(&self) -> &dyn Any {\n        self\n    }\n\n    fn as_mut_any(&mut self) -> &mut dyn Any {\n        self.inner.as_mut_any()\n    }\n")],
  demo=T+"""fn main() {
    let mut t = ILBigDecTag::new();
    assert!(tag_downcast_mut::<ILBigDecTag>(&mut t).is_some());
}
""", needs="typed mutable access to a decimal", what="The accessor returns nothing (and hands out the inner raw tag)."),
 dict(id="s18-decimal-trim", property="C18", edits=[(X, "        self.scale = reader.deserialize_value()?;\n        self.inner\n            .deserialize_value(factory, value_size - 4, reader)", "        self.scale = reader.deserialize_value()?;\n        self.inner\n            .deserialize_value(factory, value_size - 4, reader)?;\n        let v = self.inner.mut_value();\n        if v.len() > 1 && (v[0] == 0 && v[1] & 0x80 == 0 || v[0] == 0xFF && v[1] & 0x80 != 0) {\n            v.remove(0);\n        }\n        Ok(())")],
  demo=T+"""fn main() {
    let f = ILStandardTagFactory::new(false);
    let d = f.from_bytes(&[19, 7, 0, 0, 0, 0, 0, 0, 1]).unwrap();
    let b = d.to_bytes().unwrap();
    assert_eq!(f.from_bytes(&b).unwrap().to_bytes().unwrap(), b);
}
""", needs="a decimal whose integer has two or more redundant leading bytes", what="Each decoding drops one of them, so the form is not stable."),
 dict(id="s21-into-partial", property="C21", edits=[(F, "        if tag_id != tag.id() {\n            return Err(ErrorKind::UnexpectedTagType);\n        }\n        let tag_size = Self::deserialize_tag_size(tag_id, reader)?;", "        let tag_size = Self::deserialize_tag_size(tag_id, reader)?;\n        if tag_id != tag.id() && (is_implicit_tag(tag_id) || tag_size > 0) {\n            return Err(ErrorKind::UnexpectedTagType);\n        }")],
  demo=T+"""fn main() {
    let f = ILStandardTagFactory::new(false);
    let mut t = ILByteArrayTag::with_value(&[1]);
    assert!(f.deserialize_into(&mut ByteArrayReader::new(&[40, 0]), &mut t).is_err());
    assert_eq!(t.value().len(), 1);
}
""", needs="an empty encoded tag with another id", what="It is accepted and empties the tag."),
 dict(id="s24-prefix", property="C24", edits=[(UT, "    sa.as_slice() == sb.as_slice()\n", "    sa.len() >= sb.len() && sa[..sb.len()] == sb[..]\n")],
  demo=T+"""use il2_iltags::tags::util::*;
struct Odd(Vec<u8>);
impl ILTag for Odd {
    fn id(&self) -> u64 { 15 }
    fn value_size(&self) -> u64 { self.0.len() as u64 }
    fn serialize_value(&self, w: &mut dyn il2_iltags::io::Writer) -> Result<()> { Ok(w.write_all(&self.0)?) }
    fn deserialize_value(&mut self, _: &dyn ILTagFactory, _: usize, _: &mut dyn il2_iltags::io::Reader) -> Result<()> { Ok(()) }
    fn as_any(&self) -> &dyn std::any::Any { self }
    fn as_mut_any(&mut self) -> &mut dyn std::any::Any { self }
}
fn main() {
    assert!(!iltag_are_equal(&Odd(vec![1, 2]), &Odd(vec![1])));
}
""", needs="tags with an implicit id where one serialization is a prefix of the other", what="They compare equal, in one direction only."),
 dict(id="s02-consumed", property="C02", edits=[(I, "                Ok(v) => Ok((v, size)),", "                Ok(v) => Ok((v, encoded_size(v))),")],
  demo="""fn main() {
    assert_eq!(il2_iltags::ilint::decode_from_bytes(&[0xF9, 0, 5, 1]).ok(), Some((253, 3)));
}
""", needs="a non-minimal encoding in a slice", what="The announced number of bytes used is that of the minimal encoding."),
 dict(id="s16-oid-empty", property="C16", edits=[(X, "        let count = lreader.deserialize_ilint()?;\n        if count > value_size as u64 {\n            return Err(ErrorKind::CorruptedData);\n        }\n        self.value.clear();\n        self.value.reserve(count as usize);", "        let count = lreader.deserialize_ilint()?;\n        if count > value_size as u64 {\n            return Err(ErrorKind::CorruptedData);\n        }\n        self.value.clear();\n        if count == 0 {\n            let rest = lreader.available();\n            return Ok(lreader.skip(rest)?);\n        }\n        self.value.reserve(count as usize);")],
  demo=T+"""fn main() {
    let f = ILStandardTagFactory::new(false);
    assert!(f.deserialize(&mut ByteArrayReader::new(&[20, 3, 0, 1, 2])).is_err());
}
""", needs="an empty array followed by more bytes within its declared size", what="The bytes are discarded (unread data within the extent)."),
 dict(id="s03-short-path", property="C03", edits=[(I, "    let tmp = v as u64;\n\n    if tmp & 0x8000_0000_0000_0000 == 0 {", "    let tmp = v as u64;\n\n    if v < 0 && v.unsigned_abs().leading_zeros() > 31 {\n        // The value fits in 32 bits.\n        return ((!(v as i32) as u64) << 1) | 1;\n    }\n    if tmp & 0x8000_0000_0000_0000 == 0 {")],
  demo="""fn main() {
    for v in [-1i64, i32::MIN as i64, i32::MIN as i64 - 1, -4_000_000_000] {
        assert_eq!(il2_iltags::ilint::decode_sign(il2_iltags::ilint::encode_sign(v)), v);
    }
}
""", needs="a negative value whose magnitude takes exactly 32 bits", what="It is mapped through 32 bits with the wrong sign."),
]
