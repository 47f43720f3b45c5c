//! C07: a limited reader never goes past its budget.
use crate::sym::*;
use il2_iltags::io::{ErrorKind, LimitedReader, Reader, Result};

/// Source that records what is asked from it and fails whenever the solver wants.
struct Source {
    calls: usize,
    taken: u128,
    next: u8,
}

impl Source {
    fn new() -> Self {
        Source { calls: 0, taken: 0, next: any() }
    }

    fn op(&mut self, n: u64) -> Result<()> {
        self.calls += 1;
        self.taken += n as u128;
        if any_bool() {
            Ok(())
        } else {
            Err(ErrorKind::UnableToReadData)
        }
    }
}

impl Reader for Source {
    fn read(&mut self) -> Result<u8> {
        self.op(1)?;
        let v = self.next;
        self.next = v.wrapping_add(1);
        Ok(v)
    }

    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        self.op(buff.len() as u64)?;
        for b in buff {
            *b = self.next;
            self.next = self.next.wrapping_add(1);
        }
        Ok(())
    }

    fn skip(&mut self, count: usize) -> Result<()> {
        self.op(count as u64)
    }

    fn skip_u64(&mut self, count: u64) -> Result<()> {
        self.op(count)
    }
}

/// One operation of any kind over a limited reader with `budget` bytes left; returns
/// the expected budget after it.
fn step(r: &mut LimitedReader<'_>, budget: usize) -> (usize, usize, bool) {
    let op: u8 = any();
    let (asked, ok) = if op == 0 {
        let ret = r.read();
        let ok = ret.is_ok();
        leak(ret);
        (1, ok)
    } else if op == 1 {
        let k = any_upto(4);
        let mut out = [0u8; 4];
        let ret = r.read_all(&mut out[..k]);
        let ok = ret.is_ok();
        leak(ret);
        let i = any_upto(3);
        if ok && i + 1 < k {
            assert!(out[i + 1] == out[i].wrapping_add(1));
        }
        (k, ok)
    } else if op == 2 {
        let k: usize = any();
        let ret = r.skip(k);
        let ok = ret.is_ok();
        leak(ret);
        (k, ok)
    } else if op == 3 {
        let k: u64 = any();
        let ret = r.skip_u64(k);
        let ok = ret.is_ok();
        leak(ret);
        (k as usize, ok)
    } else {
        let left = r.available();
        assert!(left == budget);
        let ret = r.goto_end();
        let ok = ret.is_ok();
        leak(ret);
        (left, ok)
    };
    let after = if ok {
        assert!(asked <= budget);
        budget - asked
    } else {
        budget
    };
    assert!(r.available() == after);
    assert!(r.empty() == (after == 0));
    (after, asked, ok)
}

fn check_can_read(r: &LimitedReader<'_>, budget: usize) {
    let n: usize = any();
    let ret = r.can_read(n);
    assert!(ret.is_ok() == (n <= budget));
    leak(ret);
}

harnesses! {
    /// One operation with any budget and any request, over a source that may fail.
    #[unwind(8)]
    fn c07q_step() {
        let budget: usize = any();
        let mut s = Source::new();
        let (asked, ok);
        {
            let mut r = LimitedReader::new(&mut s, budget);
            assert!(r.available() == budget);
            check_can_read(&r, budget);
            let ret = step(&mut r, budget);
            asked = ret.1;
            ok = ret.2;
        }
        if asked > budget {
            assert!(!ok && s.calls == 0);
        }
        assert!(s.taken <= budget as u128);
        if ok {
            assert!(s.taken == asked as u128);
        }
        witness!(ok && asked == usize::MAX);
        witness!(!ok && asked <= budget);
        witness!(asked > budget);
    }

    /// Any two operations in a row never take more than the budget from the source
    /// while it works.
    #[unwind(8)]
    fn c07q_history() {
        let budget: usize = any();
        let mut s = Source::new();
        let mut left = budget;
        let mut failures = 0;
        {
            let mut r = LimitedReader::new(&mut s, budget);
            let mut i = 0;
            while i < 2 {
                let before = left;
                let (after, asked, ok) = step(&mut r, before);
                left = after;
                if !ok && asked <= before {
                    failures += 1;
                }
                i += 1;
            }
            check_can_read(&r, left);
        }
        if failures == 0 {
            assert!(s.taken == (budget - left) as u128);
        }
        witness!(failures == 0 && s.calls == 2 && left == 0 && budget > 5);
        witness!(failures == 1 && left == 7);
    }

    /// A nested limit: both budgets hold.
    #[unwind(8)]
    fn c07q_nested() {
        let outer: usize = any();
        let inner: usize = any();
        let mut s = Source::new();
        {
            let mut o = LimitedReader::new(&mut s, outer);
            {
                let mut r = LimitedReader::new(&mut o, inner);
                let (_, asked, ok) = step(&mut r, inner);
                if asked > outer {
                    assert!(!ok);
                }
            }
            assert!(o.available() <= outer);
            assert!(outer - o.available() <= inner);
        }
        let m = if inner < outer { inner } else { outer };
        assert!(s.taken <= m as u128);
        witness!(s.calls == 1 && outer < inner);
        witness!(s.calls == 0 && outer > 4 && inner > 4);
    }

    /// A failed request consumes nothing from a real in-memory source.
    #[unwind(10)]
    fn c07q_over_array() {
        use il2_iltags::io::array::{ByteArrayReader, MemoryReader};
        let data: [u8; 4] = any();
        let n = any_upto(4);
        let budget = any_upto(6);
        let mut s = ByteArrayReader::new(&data[..n]);
        let (left, asked, ok);
        {
            let mut r = LimitedReader::new(&mut s, budget);
            let ret = step_array(&mut r, budget, &data);
            left = ret.0;
            asked = ret.1;
            ok = ret.2;
        }
        assert!(ok == (asked <= budget && asked <= n));
        assert!(s.offset() == if ok { asked } else { 0 });
        assert!(left == budget - s.offset());
        witness!(ok && asked == 4);
        witness!(!ok && asked == 5);
    }

    /// Any three operations in a row never take more than the budget from the source
    /// while it works.
    #[unwind(8)]
    fn c07t_history_3() {
        let budget: usize = any();
        let mut s = Source::new();
        let mut left = budget;
        let mut failures = 0;
        {
            let mut r = LimitedReader::new(&mut s, budget);
            let mut i = 0;
            while i < 3 {
                let before = left;
                let (after, asked, ok) = step(&mut r, before);
                left = after;
                if !ok && asked <= before {
                    failures += 1;
                }
                i += 1;
            }
            check_can_read(&r, left);
        }
        if failures == 0 {
            assert!(s.taken == (budget - left) as u128);
        }
        witness!(failures == 0 && s.calls == 3 && left == 0 && budget > 5);
        witness!(failures == 1 && left == 7);
    }

    /// A nested limit: both budgets hold.
    #[unwind(8)]
    fn c07t_nested_2() {
        let outer: usize = any();
        let inner: usize = any();
        let mut s = Source::new();
        {
            let mut o = LimitedReader::new(&mut s, outer);
            {
                let mut r = LimitedReader::new(&mut o, inner);
                let (mid, asked, ok) = step(&mut r, inner);
                if asked > outer {
                    assert!(!ok);
                }
                let _ = step(&mut r, mid);
            }
            assert!(o.available() <= outer);
            assert!(outer - o.available() <= inner);
        }
        let m = if inner < outer { inner } else { outer };
        assert!(s.taken <= 2 * m as u128);
        witness!(s.calls == 2 && outer < inner);
        witness!(s.calls == 0 && outer > 4 && inner > 4);
    }
}

fn step_array(r: &mut LimitedReader<'_>, budget: usize, data: &[u8]) -> (usize, usize, bool) {
    let op: u8 = any();
    let (asked, ok) = if op == 0 {
        let ret = r.read();
        let ok = ret.is_ok();
        if let Ok(v) = ret {
            assert!(v == data[0]);
        }
        (1, ok)
    } else if op == 1 {
        let k = any_upto(4);
        let mut out = [0u8; 4];
        let ok = r.read_all(&mut out[..k]).is_ok();
        let i = any_upto(3);
        if ok && i < k {
            assert!(out[i] == data[i]);
        }
        (k, ok)
    } else if op == 2 {
        let k: usize = any();
        (k, r.skip(k).is_ok())
    } else {
        let left = r.available();
        (left, r.goto_end().is_ok())
    };
    let after = if ok { budget - asked } else { budget };
    assert!(r.available() == after);
    (after, asked, ok)
}
