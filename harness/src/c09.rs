//! C09: std stream adaptors lose no data under short transfers.
use crate::mocks::*;
use crate::sym::*;
use il2_iltags::io::std_io::{ReadReader, SizedSeek, WriteWriter};
use il2_iltags::io::{Reader, Writer};

const N: usize = 4;

fn stream<const S: usize>() -> Stream<N, S> {
    Stream {
        data: any(),
        len: N,
        pos: 0,
        script: any_script(),
        step: 0,
        failed: false,
    }
}

/// A read of exactly `k` bytes after which `ok` and the output must be consistent.
fn read_case<R: Reader>(r: &mut R, k: usize, data: &[u8; N], len: usize) -> bool {
    let mut out = [0u8; N];
    let ret = if k == 1 && any_bool() {
        match r.read() {
            Ok(v) => {
                out[0] = v;
                Ok(())
            }
            Err(e) => Err(e),
        }
    } else {
        r.read_all(&mut out[..k])
    };
    let ok = ret.is_ok();
    leak(ret);
    if ok {
        assert!(k <= len);
        let i = any_upto(N - 1);
        if i < k {
            assert!(out[i] == data[i]);
        }
    }
    ok
}

fn adaptor_read(k: usize) {
    let mut s = stream::<3>();
    s.len = any_upto(N);
    let (data, len) = (s.data, s.len);
    let ok = read_case(&mut ReadReader::new(&mut s), k, &data, len);
    if ok {
        assert!(s.pos == k && !s.failed);
    } else {
        // Only an actual failure or the end of the data makes it fail.
        assert!(s.failed || k > len);
    }
    witness!(ok && s.step == 3);
    witness!(!ok && s.failed);
    witness!(!ok && !s.failed);
}

fn adaptor_write(k: usize) {
    let mut s = stream::<3>();
    let before = s.data;
    let b: [u8; N] = any();
    let ret = {
        let mut w = WriteWriter::new(&mut s);
        if k == 1 {
            w.write(b[0])
        } else {
            w.as_writer().write_all(&b[..k])
        }
    };
    let ok = ret.is_ok();
    leak(ret);
    assert!(ok == !s.failed);
    if ok {
        assert!(s.pos == k);
    }
    let i = any_upto(N - 1);
    assert!(s.data[i] == if i < s.pos { b[i] } else { before[i] });
    witness!(ok && s.step == 3);
    witness!(!ok && s.step == 3);
}

fn seek_stream<const S: usize>() -> SeekStream<N, S> {
    SeekStream {
        stream: stream(),
        pos: 0,
        len: N as u64,
        seeks: 0,
        fail_seek: usize::MAX,
    }
}

fn seekable_read(k: usize) {
    let mut s = seek_stream::<3>();
    let len = any_upto(N);
    s.len = len as u64;
    let data = s.stream.data;
    let ok = read_case(&mut s, k, &data, len);
    if ok {
        assert!(s.pos == k as u64 && !s.stream.failed);
    } else {
        assert!(s.stream.failed || k > len);
    }
    assert!(s.seeks == 0);
    witness!(ok && s.stream.step == 3);
    witness!(!ok && s.stream.failed);
}

fn seekable_write(k: usize) {
    let mut s = seek_stream::<3>();
    let before = s.stream.data;
    let b: [u8; N] = any();
    let ret = if k == 1 {
        if any_bool() {
            Writer::write(&mut s, b[0])
        } else {
            Writer::as_writer(&mut s).write(b[0])
        }
    } else {
        Writer::write_all(&mut s, &b[..k])
    };
    let ok = ret.is_ok();
    leak(ret);
    assert!(ok == !s.stream.failed);
    if ok {
        assert!(s.pos == k as u64);
    }
    let i = any_upto(N - 1);
    assert!(s.stream.data[i] == if (i as u64) < s.pos { b[i] } else { before[i] });
    witness!(ok && s.stream.step == 3);
    witness!(!ok && s.stream.step == 3);
}

fn query(at: usize) {
    let mut s = seek_stream::<0>();
    let pos: u64 = any();
    let len: u64 = any();
    s.pos = pos;
    s.len = len;
    s.fail_seek = at;
    let op: u8 = any();
    if op == 0 {
        let r = SizedSeek::len(&mut s);
        if let Ok(v) = &r {
            assert!(*v == len);
        }
        assert!(r.is_ok() == (at == usize::MAX));
        leak(r);
    } else if op == 1 {
        let r = SizedSeek::offset(&mut s);
        if let Ok(v) = &r {
            assert!(*v == pos);
        }
        assert!(r.is_ok() == (at > 0));
        leak(r);
    } else if op == 2 {
        let r = SizedSeek::is_empty(&mut s);
        if let Ok(v) = &r {
            assert!(*v == (len == 0));
        }
        assert!(r.is_ok() == (at == usize::MAX));
        leak(r);
    } else {
        let r = SizedSeek::available(&mut s);
        if let Ok(v) = &r {
            assert!(*v == if pos < len { len - pos } else { 0 });
        }
        assert!(r.is_ok() == (at == usize::MAX));
        leak(r);
    }
    if at == usize::MAX {
        assert!(s.pos == pos);
    }
    assert!(s.len == len);
    witness!(op == 0);
    witness!(op == 3 && pos > len);
}

harnesses! {
    /// ReadReader: 1 byte under any script of 3 transfers.
    #[unwind(6)]
    fn c09q_read_1() {
        adaptor_read(1);
    }

    /// ReadReader: 3 bytes under any script of 3 transfers (short, interrupted, failed,
    /// empty), any stream length up to 4.
    #[unwind(6)]
    fn c09q_read_3() {
        adaptor_read(3);
    }

    /// WriteWriter: 1 byte under any script of 3 transfers.
    #[unwind(6)]
    fn c09q_write_1() {
        adaptor_write(1);
    }

    /// WriteWriter: 3 bytes under any script of 3 transfers.
    #[unwind(6)]
    fn c09q_write_3() {
        adaptor_write(3);
    }

    /// Seekable streams as readers: 1 byte.
    #[unwind(6)]
    fn c09q_seekable_read_1() {
        seekable_read(1);
    }

    /// Seekable streams as readers: 3 bytes.
    #[unwind(6)]
    fn c09q_seekable_read_3() {
        seekable_read(3);
    }

    /// Seekable streams as writers: 1 byte.
    #[unwind(6)]
    fn c09q_seekable_write_1() {
        seekable_write(1);
    }

    /// Seekable streams as writers: 3 bytes.
    #[unwind(6)]
    fn c09q_seekable_write_3() {
        seekable_write(3);
    }

    /// len, offset, is_empty and available for any position and length.
    #[unwind(2)]
    fn c09q_sized_seek() {
        query(usize::MAX);
    }

    /// A failing seek makes them fail.
    #[unwind(2)]
    fn c09q_sized_seek_failure() {
        query(2);
    }
}
