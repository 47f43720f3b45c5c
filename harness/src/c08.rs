//! C08: skipping equals reading and discarding.
use crate::mocks::*;
use crate::sym::*;
use il2_iltags::io::array::{ByteArrayReader, MemoryReader, VecReader};
use il2_iltags::io::{LimitedReader, Reader};
use std::io::Cursor;

fn skip<R: Reader>(r: &mut R, n: u64) -> bool {
    let ret = if any_bool() { r.skip_u64(n) } else { r.skip(n as usize) };
    let ok = ret.is_ok();
    leak(ret);
    ok
}

fn memory<R: MemoryReader>(r: &mut R, data: &[u8]) {
    let len = data.len();
    let p = any_upto(4);
    assume(p <= len);
    r.set_offset(p);
    let n: u64 = any();
    let ok = skip(r, n);
    assert!(ok == (n <= (len - p) as u64));
    let now = if ok { p + n as usize } else { p };
    assert!(r.offset() == now);
    let v = r.read();
    assert!(v.is_ok() == (now < len));
    if let Ok(v) = &v {
        assert!(*v == data[now]);
    }
    leak(v);
    witness!(ok && n == 3 && now < len);
    witness!(!ok && n == u64::MAX);
}

/// Skips over a seekable stream of any length at any position.
fn seekable(s: &mut SeekStream<2, 0>) -> (u64, bool) {
    let n: u64 = any();
    let (p, len) = (s.pos, s.len);
    let ok = skip(s, n);
    let left = if p < len { len - p } else { 0 };
    if n == 0 {
        assert!(ok);
    } else {
        assert!(ok == (n <= left));
    }
    assert!(s.pos == if ok { p + n } else { p });
    assert!(s.len == len);
    (n, ok)
}

fn any_stream() -> SeekStream<2, 0> {
    SeekStream {
        stream: Stream { data: any(), len: 2, pos: 0, script: [], step: 0, failed: false },
        pos: any(),
        len: any(),
        seeks: 0,
        fail_seek: usize::MAX,
    }
}

harnesses! {
    /// In-memory reader over a slice of up to 4 bytes, any position, any count.
    #[unwind(8)]
    fn c08q_array() {
        let data: [u8; 4] = any();
        let n = any_upto(4);
        memory(&mut ByteArrayReader::new(&data[..n]), &data[..n]);
    }

    /// In-memory reader over a vector.
    #[unwind(8)]
    fn c08q_vec() {
        let data: [u8; 4] = any();
        let mut r = VecReader::new(&data);
        memory(&mut r, &data);
        leak(r);
    }

    /// Default skip (512-byte chunks) over a source that only reads, any count up to 1600
    /// and any source size.
    #[unwind(8)]
    fn c08q_default() {
        let mut r = CountingReader::new(any());
        let p: u64 = any();
        assume(p <= r.total);
        r.pos = p;
        let n: u64 = any();
        assume(n <= 1600);
        let ok = skip(&mut r, n);
        assert!(ok == (n <= r.total - p));
        if ok {
            assert!(r.pos == p + n);
        } else {
            assert!(r.pos >= p);
        }
        witness!(ok && n == 1600);
        witness!(!ok && n == 513);
    }

    /// Default skip when one of the chunks fails: the failure is reported.
    #[unwind(8)]
    fn c08q_default_failure() {
        let mut r = CountingReader::new(u64::MAX);
        r.fail_op = any_upto(3);
        let n: u64 = any();
        assume(n <= 1600);
        let ok = skip(&mut r, n);
        let chunks = (n as usize + 511) / 512;
        assert!(ok == (r.fail_op >= chunks));
        witness!(!ok && n == 1600);
        witness!(ok && n == 512);
    }

    /// A source with its own skip: any 64-bit count is passed on exactly.
    #[unwind(4)]
    fn c08q_own_skip() {
        let mut r = SkipReader(CountingReader::new(any()));
        let n: u64 = any();
        let ok = skip(&mut r, n);
        assert!(ok == (n <= r.0.total));
        assert!(r.0.pos == if ok { n } else { 0 });
        witness!(ok && n == u64::MAX);
        witness!(!ok && n > 1 << 40);
    }

    /// Limited reader over a source with its own skip.
    #[unwind(4)]
    fn c08q_limited() {
        let mut s = SkipReader(CountingReader::new(any()));
        let budget: usize = any();
        let n: u64 = any();
        let ok;
        {
            let mut r = LimitedReader::new(&mut s, budget);
            ok = skip(&mut r, n);
            assert!(r.available() == if ok { budget - n as usize } else { budget });
        }
        assert!(ok == (n <= s.0.total && n <= budget as u64));
        assert!(s.0.pos == if ok { n } else { 0 });
        witness!(ok && n > 1 << 40);
        witness!(!ok && n <= budget as u64);
    }

    /// Seekable std stream: any length, position and count.
    #[unwind(4)]
    fn c08q_seekable() {
        let mut s = any_stream();
        let (n, ok) = seekable(&mut s);
        witness!(ok && n > 1 << 63);
        witness!(!ok && n == u64::MAX);
        witness!(!ok && s.pos > s.len);
    }

    /// Two skips in a row over a seekable stream compose.
    #[unwind(4)]
    fn c08q_seekable_twice() {
        let mut s = any_stream();
        let p = s.pos;
        let (a, oa) = seekable(&mut s);
        s.seeks = 0;
        let (b, ob) = seekable(&mut s);
        if oa && ob {
            assert!(s.pos == p + a + b);
        }
        witness!(oa && ob && a > 5 && b > 5);
        witness!(oa && !ob);
    }

    /// std::io::Cursor over a slice: the next byte read is the right one.
    #[unwind(8)]
    fn c08q_cursor() {
        let data: [u8; 4] = any();
        let len = any_upto(4);
        let p: u64 = any();
        let mut c = Cursor::new(&data[..len]);
        c.set_position(p);
        let n: u64 = any();
        let ok = skip(&mut c, n);
        let left = if p < len as u64 { len as u64 - p } else { 0 };
        assert!(ok == (n <= left));
        let now = if ok { p + n } else { p };
        assert!(c.position() == now);
        let v = Reader::read(&mut c);
        assert!(v.is_ok() == (now < len as u64));
        if let Ok(x) = &v {
            assert!(*x == data[now as usize]);
        }
        leak(v);
        witness!(ok && n == 2 && now == 3);
        witness!(!ok && n > 10);
    }

    /// Failing seeks are reported by the skip of a seekable stream.
    #[unwind(2)]
    fn c08q_seek_failure_0() {
        seek_failure(0);
    }
    /// The same at the second seek.
    #[unwind(2)]
    fn c08q_seek_failure_1() {
        seek_failure(1);
    }
    /// The same at the third seek.
    #[unwind(2)]
    fn c08q_seek_failure_2() {
        seek_failure(2);
    }
}

fn seek_failure(at: usize) {
    let mut s = any_stream();
    s.fail_seek = at;
    let n: u64 = any();
    assume(n > 0);
    let ret = s.skip_u64(n);
    assert!(ret.is_err());
    leak(ret);
    witness!();
}
