//! Environment models: readers, writers and std streams with solver-chosen behaviour.
use crate::kit::is_ok;
use crate::sym::*;
use il2_iltags::io::{ErrorKind, Reader, Result, Writer};
use il2_iltags::tags::{ILTag, ILTagFactory};

/// Reader over an array that only implements `read`, so every other operation is the
/// default one of the trait. Fails at the end of the data and at byte `fail_at`.
pub struct ByteReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub fail_at: usize,
}

impl<'a> ByteReader<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Self {
            data,
            pos: 0,
            fail_at: usize::MAX,
        }
    }
}

impl<'a> Reader for ByteReader<'a> {
    fn read(&mut self) -> Result<u8> {
        if self.pos == self.fail_at {
            return Err(ErrorKind::UnableToReadData);
        }
        if self.pos >= self.data.len() {
            return Err(ErrorKind::EndOfData);
        }
        let v = self.data[self.pos];
        self.pos += 1;
        Ok(v)
    }
}

/// Reader with `total` available bytes and no content (zeros): it only counts. It makes
/// huge sizes affordable. All-or-nothing. Operation number `fail_op` fails.
pub struct CountingReader {
    pub total: u64,
    pub pos: u64,
    pub ops: usize,
    pub fail_op: usize,
    pub touched: bool,
}

impl CountingReader {
    pub fn new(total: u64) -> Self {
        Self {
            total,
            pos: 0,
            ops: 0,
            fail_op: usize::MAX,
            touched: false,
        }
    }

    fn take(&mut self, n: u64) -> Result<()> {
        self.touched = true;
        let op = self.ops;
        self.ops += 1;
        if op == self.fail_op {
            return Err(ErrorKind::UnableToReadData);
        }
        if n > self.total - self.pos {
            return Err(ErrorKind::EndOfData);
        }
        self.pos += n;
        Ok(())
    }
}

impl Reader for CountingReader {
    fn read(&mut self) -> Result<u8> {
        self.take(1)?;
        Ok(0)
    }

    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        self.take(buff.len() as u64)
    }
}

/// As `CountingReader`, with its own skip.
pub struct SkipReader(pub CountingReader);

impl Reader for SkipReader {
    fn read(&mut self) -> Result<u8> {
        self.0.read()
    }

    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        self.0.read_all(buff)
    }

    fn skip(&mut self, count: usize) -> Result<()> {
        self.0.take(count as u64)
    }
}

/// Reader whose reads deliver the bytes of a small array in order, while skips only advance
/// the position of a virtual stream of `total` bytes: it models headers separated by values
/// of any size. All-or-nothing.
pub struct GapReader<const N: usize> {
    pub heads: [u8; N],
    pub used: usize,
    pub pos: u64,
    pub total: u64,
}

impl<const N: usize> GapReader<N> {
    pub fn new(heads: [u8; N], total: u64) -> Self {
        Self {
            heads,
            used: 0,
            pos: 0,
            total,
        }
    }
}

impl<const N: usize> Reader for GapReader<N> {
    fn read(&mut self) -> Result<u8> {
        let mut b = [0u8; 1];
        self.read_all(&mut b)?;
        Ok(b[0])
    }

    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        let n = buff.len();
        if n as u64 > self.total - self.pos || n > N - self.used {
            return Err(ErrorKind::EndOfData);
        }
        let mut i = 0;
        while i < n {
            buff[i] = self.heads[self.used + i];
            i += 1;
        }
        self.used += n;
        self.pos += n as u64;
        Ok(())
    }

    fn skip(&mut self, count: usize) -> Result<()> {
        self.skip_u64(count as u64)
    }

    fn skip_u64(&mut self, count: u64) -> Result<()> {
        if count > self.total - self.pos {
            return Err(ErrorKind::EndOfData);
        }
        self.pos += count;
        Ok(())
    }
}

/// Writer over a fixed array. Fails, changing nothing, when a write goes past `limit`
/// bytes.
pub struct FixedWriter<const N: usize> {
    pub data: [u8; N],
    pub len: usize,
    pub limit: usize,
    pub failed: bool,
}

impl<const N: usize> FixedWriter<N> {
    pub fn new() -> Self {
        Self {
            data: [0; N],
            len: 0,
            limit: N,
            failed: false,
        }
    }

    pub fn with_limit(limit: usize) -> Self {
        let mut w = Self::new();
        w.limit = limit;
        w
    }
}

impl<const N: usize> Writer for FixedWriter<N> {
    fn write(&mut self, value: u8) -> Result<()> {
        if self.len >= self.limit {
            self.failed = true;
            return Err(ErrorKind::UnableToWriteData);
        }
        self.data[self.len] = value;
        self.len += 1;
        Ok(())
    }

    fn write_all(&mut self, buff: &[u8]) -> Result<()> {
        if buff.len() > self.limit - self.len {
            self.failed = true;
            return Err(ErrorKind::UnableToWriteData);
        }
        self.data[self.len..self.len + buff.len()].copy_from_slice(buff);
        self.len += buff.len();
        Ok(())
    }

    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

/// Writer that only implements `write`.
pub struct ByteWriter<const N: usize>(pub FixedWriter<N>);

impl<const N: usize> Writer for ByteWriter<N> {
    fn write(&mut self, value: u8) -> Result<()> {
        self.0.write(value)
    }

    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

/// Writer that only counts.
pub struct CountingWriter {
    pub len: u64,
}

impl Writer for CountingWriter {
    fn write(&mut self, _value: u8) -> Result<()> {
        self.len += 1;
        Ok(())
    }

    fn write_all(&mut self, buff: &[u8]) -> Result<()> {
        self.len += buff.len() as u64;
        Ok(())
    }

    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

/// Writer that only keeps the count, the first bytes, the last one and the sum of all: for
/// long outputs.
pub struct EdgeWriter {
    pub len: usize,
    pub head: [u8; 4],
    pub last: u8,
    pub sum: u64,
}

impl EdgeWriter {
    pub fn new() -> Self {
        Self {
            len: 0,
            head: [0; 4],
            last: 0,
            sum: 0,
        }
    }
}

impl Writer for EdgeWriter {
    fn write(&mut self, value: u8) -> Result<()> {
        if self.len < 4 {
            self.head[self.len] = value;
        }
        self.last = value;
        self.sum += value as u64;
        self.len += 1;
        Ok(())
    }

    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

/// std stream whose transfers follow a script: per call, 0 is an interruption, 1 a
/// failure, 2 a transfer of zero bytes, and 3 + n a transfer of up to n + 1 bytes. Calls past
/// the end of the script transfer everything.
pub struct Stream<const N: usize, const S: usize> {
    pub data: [u8; N],
    pub len: usize,
    pub pos: usize,
    pub script: [u8; S],
    pub step: usize,
    pub failed: bool,
}

pub const INTERRUPT: u8 = 0;
pub const FAIL: u8 = 1;
pub const ZERO: u8 = 2;

impl<const N: usize, const S: usize> Stream<N, S> {
    /// Next transfer, of at most `n` bytes.
    fn next(&mut self, n: usize) -> std::io::Result<usize> {
        let s = if self.step < S {
            self.script[self.step]
        } else {
            255
        };
        self.step += 1;
        match s {
            INTERRUPT => Err(std::io::ErrorKind::Interrupted.into()),
            FAIL => {
                self.failed = true;
                Err(std::io::ErrorKind::Other.into())
            }
            ZERO => {
                if n > 0 {
                    self.failed = true;
                }
                Ok(0)
            }
            x => Ok(std::cmp::min(x as usize - 2, n)),
        }
    }
}

impl<const N: usize, const S: usize> std::io::Read for Stream<N, S> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let left = if self.pos < self.len {
            self.len - self.pos
        } else {
            0
        };
        let n = self.next(std::cmp::min(left, buf.len()))?;
        let mut i = 0;
        while i < n {
            buf[i] = self.data[self.pos];
            self.pos += 1;
            i += 1;
        }
        Ok(n)
    }
}

impl<const N: usize, const S: usize> std::io::Write for Stream<N, S> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let left = N - self.pos;
        let n = self.next(std::cmp::min(left, buf.len()))?;
        let mut i = 0;
        while i < n {
            self.data[self.pos] = buf[i];
            self.pos += 1;
            i += 1;
        }
        if self.pos > self.len {
            self.len = self.pos;
        }
        Ok(n)
    }

    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Seekable version of `Stream`: positions are any u64, contents are `len` bytes of
/// which only the first N are stored. Seeks fail at call `fail_seek`.
pub struct SeekStream<const N: usize, const S: usize> {
    pub stream: Stream<N, S>,
    pub pos: u64,
    pub len: u64,
    pub seeks: usize,
    pub fail_seek: usize,
}

impl<const N: usize, const S: usize> std::io::Seek for SeekStream<N, S> {
    fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
        let op = self.seeks;
        self.seeks += 1;
        if op == self.fail_seek {
            return Err(std::io::ErrorKind::Other.into());
        }
        let (base, off) = match pos {
            std::io::SeekFrom::Start(p) => {
                self.pos = p;
                return Ok(p);
            }
            std::io::SeekFrom::Current(o) => (self.pos, o),
            std::io::SeekFrom::End(o) => (self.len, o),
        };
        match base.checked_add_signed(off) {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(std::io::ErrorKind::InvalidInput.into()),
        }
    }
}

impl<const N: usize, const S: usize> std::io::Read for SeekStream<N, S> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let left = if self.pos < self.len {
            self.len - self.pos
        } else {
            0
        };
        let m = std::cmp::min(left, buf.len() as u64) as usize;
        let n = self.stream.next(m)?;
        let mut i = 0;
        while i < n {
            buf[i] = if self.pos < N as u64 {
                self.stream.data[self.pos as usize]
            } else {
                0
            };
            self.pos += 1;
            i += 1;
        }
        Ok(n)
    }
}

impl<const N: usize, const S: usize> std::io::Write for SeekStream<N, S> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let left = if self.pos < N as u64 {
            N as u64 - self.pos
        } else {
            0
        };
        let m = std::cmp::min(left, buf.len() as u64) as usize;
        let n = self.stream.next(m)?;
        let mut i = 0;
        while i < n {
            self.stream.data[self.pos as usize] = buf[i];
            self.pos += 1;
            i += 1;
        }
        if self.pos > self.len {
            self.len = self.pos;
        }
        Ok(n)
    }

    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A script of any behaviours, where values above 2 + N are equivalent.
pub fn any_script<const S: usize>() -> [u8; S] {
    any()
}

/// Tag with any id and a body of up to 4 bytes. Serialization fails when `fail` is set.
pub struct ElemTag {
    pub id: u64,
    pub len: usize,
    pub body: [u8; 4],
    pub fail: bool,
}

impl ElemTag {
    pub fn new(id: u64, body: &[u8]) -> Self {
        let mut t = Self {
            id,
            len: body.len(),
            body: [0; 4],
            fail: false,
        };
        let mut i = 0;
        while i < body.len() {
            t.body[i] = body[i];
            i += 1;
        }
        t
    }
}

impl ILTag for ElemTag {
    fn id(&self) -> u64 {
        self.id
    }

    fn value_size(&self) -> u64 {
        self.len as u64
    }

    fn serialize_value(&self, writer: &mut dyn Writer) -> il2_iltags::tags::Result<()> {
        if self.fail {
            return Err(il2_iltags::tags::ErrorKind::UnableToSerialize);
        }
        let mut i = 0;
        while i < self.len {
            writer.write(self.body[i])?;
            i += 1;
        }
        Ok(())
    }

    fn deserialize_value(
        &mut self,
        _factory: &dyn ILTagFactory,
        value_size: usize,
        reader: &mut dyn Reader,
    ) -> il2_iltags::tags::Result<()> {
        if value_size > 4 {
            return Err(il2_iltags::tags::ErrorKind::CorruptedData);
        }
        let mut i = 0;
        while i < value_size {
            self.body[i] = reader.read()?;
            i += 1;
        }
        self.len = value_size;
        Ok(())
    }

    fn as_any(&self) -> &dyn std::any::Any {
        self
    }

    fn as_mut_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}

/// Factory whose tags are one byte, that tells how many bytes of content follow. The content
/// is not looked at: it makes elements of symbolic sizes affordable. The id of the tags is
/// 100 plus the size of the content.
pub struct SpanFactory {}

impl ILTagFactory for SpanFactory {
    fn create_tag(&self, tag_id: u64) -> Option<Box<dyn ILTag>> {
        Some(Box::new(ElemTag::new(tag_id, &[])))
    }

    fn deserialize(&self, reader: &mut dyn Reader) -> il2_iltags::tags::Result<Box<dyn ILTag>> {
        let n = reader.read()?;
        reader.skip(n as usize)?;
        Ok(Box::new(ElemTag::new(100 + n as u64, &[])))
    }

    fn deserialize_into(&self, _reader: &mut dyn Reader, _tag: &mut dyn ILTag) -> il2_iltags::tags::Result<()> {
        Err(il2_iltags::tags::ErrorKind::UnsupportedTag)
    }
}

/// Tag with no state at all: id 40 and one byte of value.
pub struct UnitTag {}

impl ILTag for UnitTag {
    fn id(&self) -> u64 {
        40
    }

    fn value_size(&self) -> u64 {
        1
    }

    fn serialize_value(&self, writer: &mut dyn Writer) -> il2_iltags::tags::Result<()> {
        writer.write(7)?;
        Ok(())
    }

    fn deserialize_value(
        &mut self,
        _factory: &dyn ILTagFactory,
        _value_size: usize,
        _reader: &mut dyn Reader,
    ) -> il2_iltags::tags::Result<()> {
        Ok(())
    }

    fn as_any(&self) -> &dyn std::any::Any {
        self
    }

    fn as_mut_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}

/// Tag with id 40 and a value of one byte; no loops.
pub struct ByteTag(pub u8);

impl ILTag for ByteTag {
    fn id(&self) -> u64 {
        40
    }

    fn value_size(&self) -> u64 {
        1
    }

    fn serialize_value(&self, writer: &mut dyn Writer) -> il2_iltags::tags::Result<()> {
        writer.write(self.0)?;
        Ok(())
    }

    fn deserialize_value(
        &mut self,
        _factory: &dyn ILTagFactory,
        _value_size: usize,
        reader: &mut dyn Reader,
    ) -> il2_iltags::tags::Result<()> {
        self.0 = reader.read()?;
        Ok(())
    }

    fn as_any(&self) -> &dyn std::any::Any {
        self
    }

    fn as_mut_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}

/// Factory of `ByteTag`s.
pub struct ByteFactory {}

impl ILTagFactory for ByteFactory {
    fn create_tag(&self, _tag_id: u64) -> Option<Box<dyn ILTag>> {
        Some(Box::new(ByteTag(0)))
    }

    fn deserialize(&self, reader: &mut dyn Reader) -> il2_iltags::tags::Result<Box<dyn ILTag>> {
        if reader.read()? != 40 || reader.read()? != 1 {
            return Err(il2_iltags::tags::ErrorKind::UnknownTag);
        }
        Ok(Box::new(ByteTag(reader.read()?)))
    }

    fn deserialize_into(&self, _reader: &mut dyn Reader, _tag: &mut dyn ILTag) -> il2_iltags::tags::Result<()> {
        Err(il2_iltags::tags::ErrorKind::UnsupportedTag)
    }
}

/// Factory of sequences (id 22), arrays (id 21) and `ElemTag`s (any other id): one byte of id and
/// one byte of size, the value being read through a limit. Failed tags are leaked.
pub struct NestFactory {}

impl NestFactory {
    fn finish<T: ILTag>(&self, mut t: T, size: u8, reader: &mut dyn Reader) -> il2_iltags::tags::Result<Box<dyn ILTag>> {
        let mut lim = il2_iltags::io::LimitedReader::new(reader, size as usize);
        let ok = is_ok(t.deserialize_value(self, size as usize, &mut lim));
        if !ok || !lim.empty() {
            leak(t);
            return Err(il2_iltags::tags::ErrorKind::CorruptedData);
        }
        Ok(Box::new(t))
    }
}

impl ILTagFactory for NestFactory {
    fn create_tag(&self, tag_id: u64) -> Option<Box<dyn ILTag>> {
        Some(Box::new(ElemTag::new(tag_id, &[])))
    }

    fn deserialize(&self, reader: &mut dyn Reader) -> il2_iltags::tags::Result<Box<dyn ILTag>> {
        let id = reader.read()?;
        let size = reader.read()?;
        if id == 22 {
            self.finish(il2_iltags::tags::standard::explicit::ILTagSeqTag::new(), size, reader)
        } else if id == 21 {
            self.finish(il2_iltags::tags::standard::explicit::ILTagArrayTag::new(), size, reader)
        } else {
            self.finish(ElemTag::new(id as u64, &[]), size, reader)
        }
    }

    fn deserialize_into(&self, _reader: &mut dyn Reader, _tag: &mut dyn ILTag) -> il2_iltags::tags::Result<()> {
        Err(il2_iltags::tags::ErrorKind::UnsupportedTag)
    }
}

/// Bytes that the `SizedTag`s pretended to write.
pub static mut PHANTOM: u64 = 0;

/// Tag with any id and a value of any size and no content: it makes huge values affordable. The
/// writer gets nothing, the size is added to `PHANTOM` instead.
pub struct SizedTag {
    pub id: u64,
    pub size: u64,
}

impl ILTag for SizedTag {
    fn id(&self) -> u64 {
        self.id
    }

    fn value_size(&self) -> u64 {
        self.size
    }

    fn serialize_value(&self, writer: &mut dyn Writer) -> il2_iltags::tags::Result<()> {
let _ = writer;
        unsafe { PHANTOM += self.size };
        Ok(())
    }

    fn deserialize_value(
        &mut self,
        _factory: &dyn ILTagFactory,
        value_size: usize,
        reader: &mut dyn Reader,
    ) -> il2_iltags::tags::Result<()> {
        self.size = value_size as u64;
        reader.skip(value_size)?;
        Ok(())
    }

    fn as_any(&self) -> &dyn std::any::Any {
        self
    }

    fn as_mut_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
}

/// Writer whose call number `at` fails, only once.
pub struct FailWriter<const N: usize> {
    pub out: FixedWriter<N>,
    pub at: usize,
    pub calls: usize,
    /// Bytes written when it failed.
    pub before: usize,
    pub failed: bool,
}

impl<const N: usize> FailWriter<N> {
    pub fn new(at: usize) -> Self {
        Self {
            out: FixedWriter::new(),
            at,
            calls: 0,
            before: 0,
            failed: false,
        }
    }

    fn fail(&mut self) -> bool {
        self.calls += 1;
        if self.calls - 1 == self.at {
            self.failed = true;
            self.before = self.out.len;
            return true;
        }
        false
    }
}

impl<const N: usize> Writer for FailWriter<N> {
    fn write(&mut self, value: u8) -> Result<()> {
        if self.fail() {
            return Err(ErrorKind::UnableToWriteData);
        }
        self.out.write(value)
    }

    fn write_all(&mut self, buff: &[u8]) -> Result<()> {
        if self.fail() {
            return Err(ErrorKind::UnableToWriteData);
        }
        self.out.write_all(buff)
    }

    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

/// Reader whose call number `at` fails, only once.
pub struct FailReader<'a> {
    pub data: ByteReader<'a>,
    pub at: usize,
    pub calls: usize,
    pub failed: bool,
}

impl<'a> FailReader<'a> {
    pub fn new(data: &'a [u8], at: usize) -> Self {
        Self {
            data: ByteReader::new(data),
            at,
            calls: 0,
            failed: false,
        }
    }

    fn fail(&mut self) -> bool {
        self.calls += 1;
        if self.calls - 1 == self.at {
            self.failed = true;
        }
        self.calls - 1 == self.at
    }
}

impl Reader for FailReader<'_> {
    fn read(&mut self) -> Result<u8> {
        if self.fail() {
            return Err(ErrorKind::UnableToReadData);
        }
        self.data.read()
    }

    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        if self.fail() {
            return Err(ErrorKind::UnableToReadData);
        }
        self.data.read_all(buff)
    }

    fn skip(&mut self, count: usize) -> Result<()> {
        if self.fail() {
            return Err(ErrorKind::UnableToReadData);
        }
        self.data.skip(count)
    }
}
