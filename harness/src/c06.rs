//! C06: in-memory writers honour position, bounds and read-only mode.
use crate::sym::*;
use il2_iltags::io::array::*;
use il2_iltags::io::Writer;

/// Reference model: contents with a length and a position.
struct Model {
    data: [u8; 12],
    len: usize,
    pos: usize,
}

impl Model {
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            self.data[self.pos + i] = b[i];
            i += 1;
        }
        self.pos += b.len();
        if self.pos > self.len {
            self.len = self.pos;
        }
    }

    fn same(&self, s: &[u8]) {
        assert!(s.len() == self.len);
        let i = any_upto(11);
        if i < self.len {
            assert!(s[i] == self.data[i]);
        }
    }
}

/// Writes `k` symbolic bytes, one by one or at once, directly or through `as_writer`.
macro_rules! vec_write {
    ($w:ident, $m:ident, $k:expr) => {{
        let b: [u8; 3] = any();
        let k: usize = $k;
        if k == 1 {
            assert!(if any_bool() { $w.write(b[0]) } else { $w.as_writer().write(b[0]) }.is_ok());
        } else {
            assert!($w.write_all(&b[..k]).is_ok());
        }
        $m.write(&b[..k]);
        assert!($w.get_offset() == $m.pos);
        assert!($w.vec().len() == $m.len);
    }};
}

/// Any operation that does not change the data: repositioning and read-only mode.
macro_rules! vec_state {
    ($w:ident, $m:ident) => {{
        let op: u8 = any();
        let p: usize = any();
        if op == 0 {
            $w.set_offset(p);
            $m.pos = if p > $m.len { $m.len } else { p };
        } else if op == 1 {
            $w.set_read_only(false);
            assert!(!$w.is_read_only() && $w.can_write().is_ok());
        } else {
            $w.set_read_only(true);
            assert!($w.is_read_only() && $w.can_write().is_err());
            let b: [u8; 3] = any();
            assert!($w.write(b[0]).is_err());
            assert!($w.write_all(&b).is_err());
            assert!($w.write_all(&b[..0]).is_err());
            assert!($w.as_writer().write_all(&b[..1]).is_err());
        }
        assert!($w.get_offset() == $m.pos);
        assert!($w.vec().len() == $m.len);
    }};
}

/// Data changes: position `p`, write `k` bytes, back `back` bytes, write `j` bytes.
fn vec_scenario(p: usize, k: usize, back: usize, j: usize) {
    let init: [u8; 3] = any();
    let mut m = Model { data: [0; 12], len: 0, pos: 0 };
    let mut w = VecWriter::new();
    assert!(!w.is_read_only() && w.get_offset() == 0 && w.as_slice().is_empty());
    assert!(w.write_all(&init).is_ok());
    m.write(&init);
    w.set_offset(p);
    m.pos = p;
    vec_write!(w, m, k);
    if back <= m.pos {
        w.set_offset(m.pos - back);
        m.pos -= back;
    }
    vec_write!(w, m, j);
    m.same(w.as_slice());
    let v: Vec<u8> = w.into();
    m.same(&v);
    leak(v);
}

fn borrowed_scenario(p: usize, k: usize, back: usize, j: usize) {
    let init: [u8; 3] = any();
    let mut m = Model { data: [0; 12], len: 0, pos: 0 };
    m.write(&init);
    let mut v: Vec<u8> = Vec::with_capacity(4);
    v.extend_from_slice(&init);
    {
        let mut w = BorrowedVecWriter::with_offset(&mut v, p);
        m.pos = p;
        assert!(w.get_offset() == p && w.bytes_written() == 0 && !w.is_read_only());
        vec_write!(w, m, k);
        assert!(w.bytes_written() == k);
        if back <= m.pos {
            w.set_offset(m.pos - back);
            m.pos -= back;
        }
        vec_write!(w, m, j);
        assert!(w.bytes_written() == if m.pos > p { m.pos - p } else { 0 });
        m.same(w.as_slice());
    }
    m.same(&v);
    leak(v);
}

fn scenarios(f: fn(usize, usize, usize, usize), p: usize) {
    let mut k = 0;
    while k <= 3 {
        f(p, k, 2, 1);
        f(p, k, 1, 2);
        f(p, k, 0, 3);
        k += 1;
    }
}

harnesses! {
    /// VecWriter of 3 symbolic bytes: from position 0 or 1, a write of 0 to 3 bytes, a
    /// repositioning and a write of 1 to 3 bytes.
    #[unwind(14)]
    fn c06q_vec_writer_01() {
        scenarios(vec_scenario, 0);
        scenarios(vec_scenario, 1);
        witness!();
    }

    /// The same from position 2 or 3 (across and at the end).
    #[unwind(14)]
    fn c06q_vec_writer_23() {
        scenarios(vec_scenario, 2);
        scenarios(vec_scenario, 3);
        witness!();
    }

    /// BorrowedVecWriter: the same from position 0 or 1.
    #[unwind(14)]
    fn c06q_borrowed_writer_01() {
        scenarios(borrowed_scenario, 0);
        scenarios(borrowed_scenario, 1);
        witness!();
    }

    /// The same from position 2 or 3.
    #[unwind(14)]
    fn c06q_borrowed_writer_23() {
        scenarios(borrowed_scenario, 2);
        scenarios(borrowed_scenario, 3);
        witness!();
    }

    /// VecWriter: any three repositionings, read-only switches and refused writes.
    #[unwind(14)]
    fn c06q_vec_state() {
        let init: [u8; 3] = any();
        let mut m = Model { data: [0; 12], len: 0, pos: 0 };
        let mut w = VecWriter::with_capacity(3);
        assert!(!w.is_read_only() && w.get_offset() == 0 && w.as_slice().is_empty());
        assert!(w.write_all(&init).is_ok());
        m.write(&init);
        vec_state!(w, m);
        vec_state!(w, m);
        vec_state!(w, m);
        m.same(w.as_slice());
        witness!(w.is_read_only() && m.pos == 2);
        leak(w);
    }

    /// BorrowedVecWriter: any start, any three repositionings, read-only switches and
    /// refused writes; bytes_written never fails.
    #[unwind(14)]
    fn c06q_borrowed_state() {
        let init: [u8; 3] = any();
        let mut v: Vec<u8> = Vec::with_capacity(4);
        v.extend_from_slice(&init);
        let mut m = Model { data: [0; 12], len: 0, pos: 0 };
        m.write(&init);
        let start: usize = any();
        let first = if start > 3 { 3 } else { start };
        m.pos = first;
        let mut w = BorrowedVecWriter::with_offset(&mut v, start);
        assert!(w.get_offset() == first && w.bytes_written() == 0 && !w.is_read_only());
        vec_state!(w, m);
        vec_state!(w, m);
        vec_state!(w, m);
        assert!(w.bytes_written() == if m.pos > first { m.pos - first } else { 0 });
        m.same(w.as_slice());
        witness!(w.is_read_only() && m.pos < first);
        leak(w);
    }

    /// A BorrowedVecWriter starts at the beginning by default and keeps what is after.
    #[unwind(16)]
    fn c06q_borrowed_new() {
        let init: [u8; 3] = any();
        let mut v: Vec<u8> = Vec::with_capacity(12);
        v.extend_from_slice(&init);
        let b: [u8; 4] = any();
        let k = any_upto(4);
        {
            let mut w = BorrowedVecWriter::new(&mut v);
            assert!(w.get_offset() == 0);
            assert!(w.write_all(&b[..k]).is_ok());
            assert!(w.bytes_written() == k && w.get_offset() == k);
        }
        assert!(v.len() == if k > 3 { k } else { 3 });
        let i = any_upto(3);
        if i < v.len() {
            assert!(v[i] == if i < k { b[i] } else { init[i] });
        }
        witness!(k == 4);
        witness!(k == 1);
        leak(v);
    }

    /// ByteArrayWriter: any two operations over an array of up to 5 bytes; what does not
    /// fit fails and changes nothing.
    #[unwind(16)]
    fn c06q_array_writer() {
        let mut buf: [u8; 5] = any();
        let n = any_upto(5);
        let mut m = Model { data: [0; 12], len: 5, pos: 0 };
        let mut i = 0;
        while i < 5 {
            m.data[i] = buf[i];
            i += 1;
        }
        {
            let mut w = ByteArrayWriter::new(&mut buf[..n]);
            assert!(w.get_offset() == 0 && w.available() == n);
            let mut round = 0;
            while round < 2 {
                let op: u8 = any();
                let b: [u8; 3] = any();
                if op == 0 {
                    let ret = if any_bool() { w.write(b[0]) } else { w.as_writer().write(b[0]) };
                    assert!(ret.is_ok() == (m.pos < n));
                    if ret.is_ok() {
                        m.write(&b[..1]);
                    }
                } else if op == 1 {
                    let k = any_upto(3);
                    let ret = w.write_all(&b[..k]);
                    assert!(ret.is_ok() == (k <= n - m.pos));
                    witness!(k == 3 && ret.is_err());
                    witness!(k == 3 && ret.is_ok() && round == 1);
                    if ret.is_ok() {
                        m.write(&b[..k]);
                    }
                } else {
                    let p: usize = any();
                    w.set_offset(p);
                    m.pos = if p > n { n } else { p };
                }
                assert!(w.get_offset() == m.pos);
                assert!(w.available() == n - m.pos);
                round += 1;
            }
        }
        m.same(&buf);
    }

    /// VecWriter: longer histories, with data written by symbolic choices of lengths.
    #[unwind(20)]
    fn c06t_vec_writer_3() {
        let init: [u8; 3] = any();
        let mut m = Model { data: [0; 12], len: 0, pos: 0 };
        let mut w = VecWriter::with_capacity(12);
        assert!(w.write_all(&init).is_ok());
        m.write(&init);
        let mut round = 0;
        while round < 2 {
            let p = any_upto(8);
            w.set_offset(p);
            m.pos = if p > m.len { m.len } else { p };
            let b: [u8; 3] = any();
            let k = any_upto(3);
            assert!(w.write_all(&b[..k]).is_ok());
            m.write(&b[..k]);
            assert!(w.get_offset() == m.pos);
            assert!(w.vec().len() == m.len);
            round += 1;
        }
        m.same(w.as_slice());
        witness!(m.len == 9);
        leak(w);
    }
}
