import os, runpy
globals().update({k: v for k, v in runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py")).items() if len(k) <= 2})
SEEDS = [
 dict(id="s01-ilint-byte-writes", property="C01", edits=[(I, "        for i in (1..size).rev() {\n            tmp[i] = (v & 0xFF) as u8;\n            v = v >> 8;\n        }", "        for i in (1..size).rev() {\n            tmp[i] = (v & 0xFF) as u8;\n            v = v >> 8;\n            if v == 0xFFFF_FFFF {\n                v -= 1;\n            }\n        }")],
  demo="""fn main() {
    let v = (0xFFFF_FFFFu64 << 8) + 248;
    let mut w = il2_iltags::io::array::VecWriter::new();
    il2_iltags::ilint::encode(v, &mut w).unwrap();
    assert_eq!(w.as_slice(), &[0xFC, 0xFF, 0xFF, 0xFF, 0xFF, 0x00]);
}
""", needs="a value whose upper bytes are all ones while it is being split", what="Some values are encoded as their neighbours."),
 dict(id="s02-ilint-overflow", property="C02", edits=[(I, "if v > 0xFFFF_FFFF_FFFF_FF07 {", "if v > 0xFFFF_FFFF_FFFF_FF0F {")],
  demo="""fn main() {
    let r = std::panic::catch_unwind(|| il2_iltags::ilint::decode_body(&[0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x08]).is_err());
    assert_eq!(r.ok(), Some(true));
}
""", needs="one of the eight bodies just above the maximum", what="Bodies just above the maximum overflow instead of being rejected."),
 dict(id="s02-ilint-slice", property="C02", edits=[(I, "        } else if value.len() < size {\n            Err(ErrorKind::InvalidFormat)\n        } else {\n            match decode_body(&value[1..size]) {", "        } else if value.len() < size - 1 {\n            Err(ErrorKind::InvalidFormat)\n        } else {\n            match decode_body(&value[1..std::cmp::min(size, value.len())]) {")],
  demo="""fn main() {
    for n in 1..=8u8 {
        let mut b = vec![0xF7 + n];
        b.resize(n as usize, 1);
        assert!(il2_iltags::ilint::decode_from_bytes(&b).is_err(), "{:?}", b);
    }
}
""", needs="an encoding whose last byte is missing", what="A slice that lacks the last byte of the encoding is accepted."),
 dict(id="s03-sign-mid", property="C03", edits=[(I, "    if v & 0x1 == 0 {\n        (v >> 1) as i64\n    } else {\n        (!(v >> 1)) as i64\n    }", "    if v & 0x1 == 0 {\n        (v >> 1) as i64\n    } else if v > 0xFFFF_FFFF_FFFF {\n        -((v >> 1) as i64)\n    } else {\n        (!(v >> 1)) as i64\n    }")],
  demo="""fn main() {
    let v = -(1i64 << 50);
    assert_eq!(il2_iltags::ilint::decode_sign(il2_iltags::ilint::encode_sign(v)), v);
}
""", needs="a large negative value", what="Large negative values come back off by one."),
 dict(id="s04-string-nul", property="C04", edits=[(D, "    match String::from_utf8(tmp) {\n        Ok(s) => Ok(s),", "    match String::from_utf8(tmp) {\n        Ok(s) if s.starts_with('\\0') => Err(ErrorKind::CorruptedData),\n        Ok(s) => Ok(s),")],
  demo="""use il2_iltags::io::array::*;
fn main() {
    let s = il2_iltags::io::data::read_string(&mut ByteArrayReader::new(&[0, b'a']), 2);
    assert_eq!(s.unwrap(), "\\0a");
}
""", needs="a text that starts with a NUL character", what="Valid text is rejected."),
 dict(id="s05-vec-partial", property="C05", edits=[(A, "        self.can_read(buff.len())?;\n        let new_offs = self.offset + buff.len();", "        if let Err(e) = self.can_read(buff.len()) {\n            self.offset = self.vector.len();\n            return Err(e);\n        }\n        let new_offs = self.offset + buff.len();")],
  demo=U+"""fn main() {
    let mut r = VecReader::new(&[1, 2]);
    let mut b = [0u8; 3];
    assert!(r.read_all(&mut b).is_err());
    assert_eq!(r.offset(), 0);
}
""", needs="a read past the end, followed by another operation", what="A failed read consumes what was left."),
 dict(id="s06-write-truncates", property="C06", edits=[(A, "            if new_offset > self.vector.len() {\n                self.vector.resize(new_offset, 0);\n            }\n", "            if new_offset != self.vector.len() {\n                self.vector.resize(new_offset, 0);\n            }\n")],
  demo=U+"""fn main() {
    let mut w = VecWriter::new();
    w.write_all(b"abcd").unwrap();
    w.set_offset(1);
    w.write_all(b"x").unwrap();
    assert_eq!(w.as_slice(), b"axcd");
}
""", needs="repositioning followed by a write that ends before the end of the data", what="The bytes after the written ones are cut off."),
 dict(id="s08-skip-chunks", property="C08", edits=[(O, "        while r > 0 {\n            let chunk = std::cmp::min(r, buff.len());\n            self.read_all(&mut buff[0..chunk])?;\n            r -= chunk;\n        }\n        Ok(())", "        while r > buff.len() {\n            self.read_all(&mut buff)?;\n            r -= buff.len();\n        }\n        for _ in 0..(r % buff.len()) {\n            self.read()?;\n        }\n        Ok(())")],
  demo="""use il2_iltags::io::*;
struct R(usize);
impl Reader for R {
    fn read(&mut self) -> Result<u8> { self.0 += 1; Ok(0) }
}
fn main() {
    let mut r = R(0);
    r.skip(1024).unwrap();
    assert_eq!(r.0, 1024);
}
""", needs="a count that is a multiple of 512 on a reader with the default skip", what="The last chunk is not skipped."),
 dict(id="s09-read-eof", property="C09", edits=[(S, "        match self.source.read_exact(buff) {\n            Ok(()) => Ok(()),\n            Err(e) => Err(ErrorKind::IOError(e)),\n        }", "        let n = match self.source.read(buff) {\n            Ok(n) => n,\n            Err(e) => return Err(ErrorKind::IOError(e)),\n        };\n        match self.source.read_exact(&mut buff[n..]) {\n            Ok(()) => Ok(()),\n            Err(e) => Err(ErrorKind::IOError(e)),\n        }")],
  demo="""use il2_iltags::io::{ReadReader, Reader};
struct S(u8);
impl std::io::Read for S {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0 += 1;
        if self.0 == 1 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        b[0] = 7;
        Ok(1)
    }
}
fn main() {
    let mut s = S(0);
    let mut b = [0u8; 1];
    assert!(ReadReader::new(&mut s).read_all(&mut b).is_ok());
    assert_eq!(b, [7]);
}
""", needs="an interruption in the first call of a transfer", what="An interrupted first call fails the whole transfer."),
 dict(id="s11-decimal-empty", property="C11", edits=[(X, "        self.scale = reader.deserialize_value()?;\n        self.inner\n            .deserialize_value(factory, value_size - 4, reader)", "        self.scale = reader.deserialize_value()?;\n        if value_size == 4 {\n            return Ok(());\n        }\n        self.inner\n            .deserialize_value(factory, value_size - 4, reader)")],
  demo=T+"""fn main() {
    let f = ILStandardTagFactory::new(false);
    let mut t = ILBigDecTag::with_value(1, &[9]);
    f.deserialize_into(&mut ByteArrayReader::new(&[19, 4, 0, 0, 0, 2]), &mut t).unwrap();
    assert!(t.value().is_empty());
}
""", needs="decoding a decimal with no integer bytes into one that has some", what="The previous integer bytes survive."),
 dict(id="s12-range-size", property="C12", edits=[(X, "        self.start = lreader.deserialize_ilint()?;\n        self.count = lreader.deserialize_value()?;\n        limited_reader_ensure_empty(&lreader, ErrorKind::CorruptedData)", "        self.start = lreader.deserialize_ilint()?;\n        self.count = lreader.deserialize_value()?;\n        if lreader.available() > 1 {\n            return Err(ErrorKind::CorruptedData);\n        }\n        Ok(())")],
  demo=T+"""fn main() {
    let f = util::UntouchbleTagFactory::new();
    let mut t = ILRangeTag::new();
    assert!(t.deserialize_value(&f, 4, &mut ByteArrayReader::new(&[1, 0, 2, 3])).is_err());
}
""", needs="a declared size one above what the content needs", what="A range with one spare byte is accepted."),
 dict(id="s13-seq-recovers", property="C13", edits=[(X, "            let t = factory.deserialize(&mut lreader)?;\n            self.value.push(t);", "            match factory.deserialize(&mut lreader) {\n                Ok(t) => self.value.push(t),\n                Err(_) if lreader.empty() => break,\n                Err(e) => return Err(e),\n            }")],
  demo=T+"""fn main() {
    // The last element is only an id.
    let r = ILStandardTagFactory::new(false).from_bytes(&[22, 2, 0, 17]);
    assert!(r.is_err());
}
""", needs="a sequence that ends right after the id of an element", what="An element cut by the end of the container is dropped silently."),
 dict(id="s14-dict-count", property="C14", edits=[(X, "        for _ in 0..count {\n            self.value.insert(\n                deserialize_string_tag_from_value(&mut lreader)?,\n                factory", "        for _ in 0..count {\n            if lreader.empty() {\n                break;\n            }\n            self.value.insert(\n                deserialize_string_tag_from_value(&mut lreader)?,\n                factory")],
  demo=T+"""fn main() {
    assert!(ILStandardTagFactory::new(false).from_bytes(&[30, 1, 3]).is_err());
}
""", needs="a dictionary that declares more entries than it has", what="A dictionary with missing entries is accepted."),
 dict(id="s22-scanner-15", property="C22", edits=[(R, "                15 => return Err(ErrorKind::CorruptedData),\n", "")],
  demo="""use il2_iltags::tags::raw::*;
fn main() {
    let data = [15u8, 0];
    let mut c = std::io::Cursor::new(&data[..]);
    assert!(RawTagScanner::new(&mut c).next_tag().is_err());
}
""", needs="the reserved id 15", what="The undefined implicit id 15 is reported as a tag without value."),
 dict(id="s23-parent-overflow", property="C23", edits=[(R, "                offset: parent.value_offset() + self.offset,", "                offset: parent.value_offset() + (self.offset & 0xFFFF_FFFF),")],
  demo="""use il2_iltags::tags::raw::*;
fn main() {
    let p = RawTagOffset::new(22, 10, 9, 1 << 40);
    let t = RawTagOffset::new(16, 1 << 33, 2, 3).map_to_parent_space(&p).unwrap();
    assert_eq!(t.offset(), 19 + (1u64 << 33));
}
""", needs="an inner offset of 4 GiB or more", what="Large inner offsets are mapped to the wrong place."),
]
