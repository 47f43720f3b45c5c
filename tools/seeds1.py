U = "use il2_iltags::io::array::*;\nuse il2_iltags::io::*;\n"
T = "use il2_iltags::io::array::*;\nuse il2_iltags::tags::*;\nuse il2_iltags::tags::standard::explicit::*;\nuse il2_iltags::tags::standard::factory::*;\n"
I = "src/ilint/mod.rs"; A = "src/io/array/mod.rs"; O = "src/io/mod.rs"; S = "src/io/std_io/mod.rs"
D = "src/io/data/mod.rs"; X = "src/tags/standard/explicit/mod.rs"; F = "src/tags/standard/factory/mod.rs"
M = "src/tags/mod.rs"; R = "src/tags/raw/mod.rs"; P = "src/tags/payload/mod.rs"; UT = "src/tags/util/mod.rs"
SE = "src/tags/serialization/mod.rs"
SEEDS = [
 dict(id="s01-ilint-size-boundary", property="C01", edits=[(I, "value if value <= (0x00FF_FFFF_FFFF + ILINT_BASE_U64) => 6", "value if value < (0x00FF_FFFF_FFFF + ILINT_BASE_U64) => 6")],
  demo="""fn main() {
    let v = 0x00FF_FFFF_FFFFu64 + 248;
    let mut w = il2_iltags::io::array::VecWriter::new();
    il2_iltags::ilint::encode(v, &mut w).unwrap();
    assert_eq!(w.as_slice(), &[0xFC, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF]);
}
""", needs="the one value 2^40-1+248", what="The largest value that fits in a five-byte body is encoded in six bytes, which is not the canonical form."),
 dict(id="s03-sign-min", property="C03", edits=[(I, "    let tmp = v as u64;\n\n    if tmp & 0x8000_0000_0000_0000 == 0 {\n        tmp << 1\n    } else {\n        !(tmp << 1)\n    }", "    if v >= 0 {\n        (v as u64) << 1\n    } else {\n        ((v.saturating_neg() as u64) << 1) - 1\n    }")],
  demo="""fn main() {
    assert_eq!(il2_iltags::ilint::encode_sign(i64::MIN), u64::MAX);
}
""", needs="the value i64::MIN", what="i64::MIN maps to the same unsigned value as i64::MIN + 1."),
 dict(id="s05-skip-wraps", property="C05", edits=[(A, """    fn skip(&mut self, count: usize) -> Result<()> {
        self.can_read(count)?;
        self.offset += count;
        Ok(())
    }
}

//=============================================================================
// VecReader""", """    fn skip(&mut self, count: usize) -> Result<()> {
        let end = self.offset.wrapping_add(count);
        if end > self.array.len() {
            self.can_read(count)?;
        }
        self.offset = end;
        Ok(())
    }
}

//=============================================================================
// VecReader""")],
  demo=U+"""fn main() {
    let mut r = ByteArrayReader::new(&[1, 2, 3, 4]);
    r.skip(2).unwrap();
    assert!(r.skip(usize::MAX).is_err());
    assert_eq!(r.offset(), 2);
}
""", needs="a skip count near usize::MAX from a position above zero", what="A huge skip succeeds and moves backwards."),
 dict(id="s06-readonly-grows", property="C06", edits=[(A, """            self.can_write()?;
            let new_offset = self.offset + buff.len();
            if new_offset > self.vector.len() {
                self.vector.resize(new_offset, 0);
            }
""", """            let new_offset = self.offset + buff.len();
            if new_offset > self.vector.len() {
                self.vector.resize(new_offset, 0);
            }
            self.can_write()?;
""")],
  demo=U+"""fn main() {
    let mut w = VecWriter::new();
    w.write_all(b"ab").unwrap();
    w.set_read_only(true);
    assert!(w.write_all(b"c").is_err());
    assert_eq!(w.as_slice(), b"ab");
}
""", needs="a refused write past the end, followed by a look at the data", what="A write refused in read-only mode extends the vector with zeros."),
 dict(id="s07-limit-decreases-on-failure", property="C07", edits=[(O, """        self.can_read(buff.len())?;
        let ret = self.source.read_all(buff);
        if ret.is_ok() {
            self.available -= buff.len();
        }
        ret""", """        self.can_read(buff.len())?;
        self.available -= buff.len();
        self.source.read_all(buff)""")],
  demo=U+"""fn main() {
    let mut src = ByteArrayReader::new(&[1, 2]);
    let mut r = LimitedReader::new(&mut src, 3);
    let mut b = [0u8; 3];
    assert!(r.read_all(&mut b).is_err());
    assert_eq!(r.available(), 3);
}
""", needs="a source that fails within the budget", what="A failed read spends the budget."),
 dict(id="s09-short-read", property="C09", edits=[(S, """        match std::io::Read::read_exact(self, buff) {
            Ok(()) => Ok(()),
            Err(_) => Err(ErrorKind::UnableToReadData),
        }""", """        match std::io::Read::read(self, buff) {
            Ok(n) if n > 0 || buff.is_empty() => Ok(()),
            _ => Err(ErrorKind::UnableToReadData),
        }""")],
  demo="""use il2_iltags::io::Reader;
use std::io::*;
struct Slow(Cursor<Vec<u8>>);
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let n = b.len().min(1);
        self.0.read(&mut b[..n])
    }
}
impl Seek for Slow {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.0.seek(p)
    }
}
fn main() {
    let mut s = Slow(Cursor::new(vec![1, 2, 3]));
    let mut b = [0u8; 3];
    Reader::read_all(&mut s, &mut b).unwrap();
    assert_eq!(b, [1, 2, 3]);
}
""", needs="a stream that returns less bytes than asked", what="A short read is reported as a success and the rest of the data stays zero."),
 dict(id="s10-nan-payload", property="C10", edits=[(D, """    let tmp: u64 = read_u64(reader)?;
    Ok(f64::from_bits(tmp))""", """    let tmp = f64::from_bits(read_u64(reader)?);
    Ok(if tmp.is_nan() { f64::NAN } else { tmp })""")],
  demo=T+"""use il2_iltags::tags::standard::implicit::ILBin64Tag;
fn main() {
    let f = ILStandardTagFactory::new(false);
    let raw = [12, 0xFF, 0xF8, 0, 0, 0, 0, 0, 7];
    let t = f.from_bytes(&raw).unwrap();
    assert_eq!(tag_downcast_ref::<ILBin64Tag>(t.as_ref()).unwrap().value().to_bits(), 0xFFF8_0000_0000_0007);
}
""", needs="a NaN with a payload or a sign", what="NaN payloads and signs are lost when reading doubles."),
 dict(id="s11-stale-bytes", property="C11", edits=[(SE, """        vec.resize(size, 0);
        self.deserialize_bytes_into_slice(vec.as_mut_slice())""", """        if vec.len() < size {
            vec.resize(size, 0);
        }
        self.deserialize_bytes_into_slice(&mut vec[..size])""")],
  demo=T+"""fn main() {
    let f = ILStandardTagFactory::new(false);
    let mut t = ILByteArrayTag::with_value(&[1, 2, 3]);
    f.deserialize_into(&mut ByteArrayReader::new(&[16, 1, 9]), &mut t).unwrap();
    assert_eq!(t.value(), &vec![9]);
}
""", needs="decoding into a tag that holds a longer value", what="The tail of the previous content survives."),
 dict(id="s12-stale-elements", property="C12", edits=[(X, """        self.value.clear();
        self.value.reserve(count as usize);
        for _i in 0..count {
            self.value.push(lreader.deserialize_ilint()?);
        }""", """        if count > 0 {
            self.value.clear();
            self.value.reserve(count as usize);
            for _i in 0..count {
                self.value.push(lreader.deserialize_ilint()?);
            }
        }""")],
  demo=T+"""fn main() {
    let f = ILStandardTagFactory::new(false);
    let mut t = ILILIntArrayTag::with_value(&[1, 2, 3]);
    f.deserialize_into(&mut ByteArrayReader::new(&[20, 1, 0]), &mut t).unwrap();
    assert!(t.value().is_empty());
}
""", needs="decoding an empty array into a tag that has elements", what="The previous elements survive."),
 dict(id="s13-array-size", property="C15", edits=[(X, """        let size: u64 = crate::ilint::encoded_size(self.inner.value.len() as u64) as u64;
        size + self.inner.value_size()""", """        let size = self.inner.value_size();
        size + crate::ilint::encoded_size(size / 2) as u64""")],
  demo=T+"""fn main() {
    let mut t = ILTagArrayTag::new();
    t.mut_value().push(Box::new(ILByteArrayTag::with_value(&[0; 600])));
    assert_eq!(t.to_bytes().unwrap().len() as u64, t.size());
}
""", needs="an array with few elements of 496 bytes or more in all", what="The size of the count field is derived from the size of the elements: the declared size is wrong for large elements."),
 dict(id="s14-length-first-order", property="C14", edits=[(X, """        let mut keys: Vec<&str> = Vec::with_capacity(self.value.len());
        for key in self.value.keys() {
            keys.push(key);
        }
        keys.sort_unstable();
        writer.serialize_ilint(self.value.len() as u64)?;
        for key in keys {
            let value = match self.value.get(key) {
                Some(s) => s,
                None => return Err(ErrorKind::UnableToSerialize),
            };
            serialize_string_tag_from_value(key, writer)?;
            value.serialize(writer)?;""", """        let mut keys: Vec<&str> = Vec::with_capacity(self.value.len());
        for key in self.value.keys() {
            keys.push(key);
        }
        keys.sort_unstable_by(|a, b| a.len().cmp(&b.len()).then_with(|| a.cmp(b)));
        writer.serialize_ilint(self.value.len() as u64)?;
        for key in keys {
            let value = match self.value.get(key) {
                Some(s) => s,
                None => return Err(ErrorKind::UnableToSerialize),
            };
            serialize_string_tag_from_value(key, writer)?;
            value.serialize(writer)?;""")],
  demo=T+"""use il2_iltags::tags::standard::implicit::ILNullTag;
fn main() {
    let mut t = ILDictTag::new();
    t.insert("b", Box::new(ILNullTag::new()));
    t.insert("ab", Box::new(ILNullTag::new()));
    assert_eq!(t.to_bytes().unwrap(), [30, 10, 2, 17, 2, b'a', b'b', 0, 17, 1, b'b', 0]);
}
""", needs="keys of different lengths", what="The keys are ordered by length first, which is not the canonical order."),
 dict(id="s15-long-key-size", property="C15", edits=[(X, "    let len = s.len() as u64;\n    1 + crate::ilint::encoded_size(len) as u64 + len", "    let len = s.len() as u64;\n    1 + if len <= 248 { 1 } else { crate::ilint::encoded_size(len) as u64 } + len")],
  demo=T+"""fn main() {
    let mut t = ILStrDictTag::new();
    t.insert(&"k".repeat(248), "v");
    assert_eq!(t.to_bytes().unwrap().len() as u64, t.size());
}
""", needs="a key or value of exactly 248 bytes", what="The reported size of a dictionary with a 248-byte text is one less than what is written."),
 dict(id="s16-decimal-underflow", property="C16", edits=[(X, """        if value_size < 4 {
            return Err(ErrorKind::CorruptedData);
        }
        self.scale""", """        if value_size == 0 {
            return Err(ErrorKind::CorruptedData);
        }
        self.scale""")],
  demo=T+"""fn main() {
    // The four bytes of the scale are there, but the limit of the tag does not apply.
    let f = ILStandardTagFactory::new(false);
    let mut t = ILBigDecTag::new();
    let r = t.deserialize_value(&f, 2, &mut ByteArrayReader::new(&[0, 0, 0, 1, 2, 3]));
    assert!(r.is_err());
}
""", needs="a decimal with a declared size of 1 to 3 bytes over a longer stream", what="The size of the integer part underflows: a panic or a huge allocation."),
 dict(id="s18-bom", property="C18", edits=[(X, """        let tmp = reader.deserialize_bytes(value_size)?;
        match ::std::str::from_utf8(tmp.as_slice()) {
            Ok(v) => {
                self.value.replace_range(.., v);""", """        let tmp = reader.deserialize_bytes(value_size)?;
        match ::std::str::from_utf8(tmp.as_slice()) {
            Ok(v) => {
                let v = v.strip_prefix('\\u{FEFF}').unwrap_or(v);
                self.value.replace_range(.., v);""")],
  demo=T+"""fn main() {
    let raw = [17, 4, 0xEF, 0xBB, 0xBF, b'a'];
    let t = ILStandardTagFactory::new(false).from_bytes(&raw).unwrap();
    assert_eq!(t.to_bytes().unwrap(), raw);
}
""", needs="a text that starts with a byte order mark", what="The byte order mark is dropped: canonical input is re-encoded to something else."),
 dict(id="s19-size-truncation", property="C19", edits=[(M, """    if size > MAX_TAG_SIZE {
        Err(ErrorKind::TagTooLarge)
    } else {
        Ok(size as usize)
    }""", """    let size = size as u32;
    if size > MAX_TAG_SIZE as u32 {
        Err(ErrorKind::TagTooLarge)
    } else {
        Ok(size as usize)
    }""")],
  demo=T+"""fn main() {
    assert!(tag_size_to_usize(1 << 32).is_err());
    // 2^32 + 1 bytes are declared.
    let raw = [16, 0xFC, 0, 0xFF, 0xFF, 0xFF, 0x09 + 0, 5];
    let _ = raw;
}
""", needs="a declared size of 2^32 or more whose low 32 bits are small", what="Sizes are truncated to 32 bits before the check: a tag that is too large is accepted with another size."),
 dict(id="s20-implicit-low-byte", property="C20", edits=[(M, "pub fn is_implicit_tag(id: u64) -> bool {\n    id <= IMPLICIT_ID_MAX", "pub fn is_implicit_tag(id: u64) -> bool {\n    (id as u32) <= IMPLICIT_ID_MAX as u32")],
  demo=T+"""fn main() {
    let f = ILStandardTagFactory::new(false);
    assert!(f.create_tag(1 << 32).is_some());
}
""", needs="an id of 2^32 or more whose low 32 bits are below 16", what="Huge ids are taken for implicit ones: no raw tag is created and the size field is dropped."),
 dict(id="s21-into-id", property="C21", edits=[(F, "        if tag_id != tag.id() {\n            return Err(ErrorKind::UnexpectedTagType);\n        }", "        if tag_id as u16 != tag.id() as u16 {\n            return Err(ErrorKind::UnexpectedTagType);\n        }")],
  demo=T+"""fn main() {
    let f = ILStandardTagFactory::new(false);
    let mut t = ILByteArrayTag::new();
    // id 65552, size 1
    let r = f.deserialize_into(&mut ByteArrayReader::new(&[0xFA, 0x00, 0xFF, 0x18, 1, 7]), &mut t);
    assert!(r.is_err());
    assert!(t.value().is_empty());
}
""", needs="an id that matches in its low 16 bits only", what="A tag with another id is decoded into the target."),
 dict(id="s22-scanner-signed", property="C22", edits=[(R, "                IL_ILINT_TAG_ID | IL_SIGNED_ILINT_TAG_ID => {", "                IL_ILINT_TAG_ID => {")],
  demo="""use il2_iltags::tags::raw::*;
fn main() {
    let data = [14u8, 2, 1, 1];
    let mut c = std::io::Cursor::new(&data[..]);
    let mut s = RawTagScanner::new(&mut c);
    assert_eq!(s.next_tag().unwrap().unwrap().value_size(), 1);
    assert_eq!(s.next_tag().unwrap().unwrap().offset(), 2);
}
""", needs="a signed ILInt tag in the stream", what="The scanner takes signed ILInt tags as nine bytes long."),
 dict(id="s23-parent-space", property="C23", edits=[(R, "if self.next_tag_offset() > parent.value_size() {", "if self.next_tag_offset() > parent.size() {")],
  demo="""use il2_iltags::tags::raw::*;
fn main() {
    let p = RawTagOffset::new(22, 10, 2, 5);
    assert!(RawTagOffset::new(16, 2, 2, 3).map_to_parent_space(&p).is_err());
}
""", needs="an inner tag that ends within a header size past the end of the value", what="Tags that go past the value of the parent are mapped."),
 dict(id="s24-same-object", property="C24", edits=[(UT, "    let sa = match a.to_bytes() {", "    if std::ptr::addr_eq(a, b) {\n        return true;\n    }\n    let sa = match a.to_bytes() {")],
  demo="""use il2_iltags::io::*;
use il2_iltags::tags::*;
use il2_iltags::tags::payload::*;
#[derive(Default)]
struct Bad;
impl ILTagPayload for Bad {
    fn serialized_size(&self) -> usize { 1 }
    fn serialize(&self, _w: &mut dyn Writer) -> il2_iltags::tags::Result<()> { Err(il2_iltags::tags::ErrorKind::UnableToSerialize) }
    fn deserialize(&mut self, _f: &dyn ILTagFactory, _n: usize, _r: &mut dyn Reader) -> il2_iltags::tags::Result<()> { Ok(()) }
}
fn main() {
    let t = ILGenericPayloadTag::<Bad>::new(100);
    assert!(!util::iltag_are_equal(&t, &t));
}
""", needs="a tag that cannot be serialized, compared with itself", what="A tag that cannot be serialized equals itself."),
 dict(id="s26-lost-failure", property="C26", edits=[(X, """        for v in self.value {
            writer.serialize_value(v)?;
        }
        Ok(())""", """        let mut ret = Ok(());
        for v in self.value {
            ret = writer.serialize_value(v);
        }
        ret""")],
  demo="""use il2_iltags::io::*;
use il2_iltags::tags::*;
struct W(usize, usize);
impl Writer for W {
    fn write(&mut self, _v: u8) -> il2_iltags::io::Result<()> {
        self.0 += 1;
        if self.0 == self.1 { Err(il2_iltags::io::ErrorKind::UnableToWriteData) } else { Ok(()) }
    }
    fn as_writer(&mut self) -> &mut dyn Writer { self }
}
fn main() {
    let t = standard::explicit::ILVersionTag::with_value(1, 2, 3, 4);
    for i in 1..=18 {
        assert!(t.serialize(&mut W(0, i)).is_err(), "failure at {} lost", i);
    }
}
""", needs="a writer that fails once, in the middle of a version", what="A failure in one of the first three integers is swallowed."),
 dict(id="s27-payload-error", property="C27", edits=[(P, "        self.payload.serialize(writer)\n", "        self.payload\n            .serialize(writer)\n            .map_err(|_| crate::tags::ErrorKind::UnableToSerialize)\n")],
  demo="""use il2_iltags::io::*;
use il2_iltags::tags::*;
use il2_iltags::tags::payload::*;
#[derive(Default)]
struct Bad;
impl ILTagPayload for Bad {
    fn serialized_size(&self) -> usize { 1 }
    fn serialize(&self, _w: &mut dyn Writer) -> il2_iltags::tags::Result<()> { Err(il2_iltags::tags::ErrorKind::TagTooLarge) }
    fn deserialize(&mut self, _f: &dyn ILTagFactory, _n: usize, _r: &mut dyn Reader) -> il2_iltags::tags::Result<()> { Ok(()) }
}
fn main() {
    let t = ILGenericPayloadTag::<Bad>::new(100);
    match t.to_bytes() {
        Err(il2_iltags::tags::ErrorKind::TagTooLarge) => (),
        _ => panic!("the failure of the payload was changed"),
    }
}
""", needs="a payload that fails with another error kind", what="The failures of payloads are replaced by a generic one."),
]
