//! C05: in-memory readers deliver the exact bytes, all or nothing.
use crate::sym::*;
use il2_iltags::io::array::*;
use il2_iltags::io::{ErrorKind, Reader, Result};

const N: usize = 5;

fn expected_error(e: &ErrorKind, left: usize) -> bool {
    match e {
        ErrorKind::EndOfData => left == 0,
        ErrorKind::UnableToReadData => left > 0,
        _ => false,
    }
}

fn check_state<R: MemoryReader>(r: &R, len: usize, pos: usize) {
    assert!(pos <= len);
    assert!(r.len() == len);
    assert!(r.offset() == pos);
    assert!(r.available() == len - pos);
    assert!(r.is_empty() == (len == 0));
}

fn failed<T>(ret: Result<T>, left: usize) {
    match ret {
        Ok(_) => assert!(false),
        Err(e) => {
            assert!(expected_error(&e, left));
            leak(e);
        }
    }
}

/// One arbitrary operation; returns the new position.
fn step<R: MemoryReader>(r: &mut R, data: &[u8], pos: usize) -> usize {
    let len = data.len();
    let left = len - pos;
    let op: u8 = any();
    let new = if op == 0 {
        if left > 0 {
            match r.read() {
                Ok(v) => assert!(v == data[pos]),
                Err(_) => assert!(false),
            }
            pos + 1
        } else {
            failed(r.read(), left);
            pos
        }
    } else if op == 1 {
        let mut out = [0u8; N + 1];
        let k = any_upto(N + 1);
        let ret = r.read_all(&mut out[..k]);
        if k <= left {
            assert!(ret.is_ok());
            let i = any_upto(N);
            if i < k {
                assert!(out[i] == data[pos + i]);
            }
            witness!(k == 2 && pos == 1);
            pos + k
        } else {
            witness!(left == 1);
            failed(ret, left);
            pos
        }
    } else if op == 2 {
        let k: usize = any();
        let ret = r.skip(k);
        if k <= left {
            assert!(ret.is_ok());
            pos + k
        } else {
            witness!(k == usize::MAX);
            failed(ret, left);
            pos
        }
    } else if op == 3 {
        let k: u64 = any();
        let ret = r.skip_u64(k);
        if k <= left as u64 {
            assert!(ret.is_ok());
            pos + k as usize
        } else {
            failed(ret, left);
            pos
        }
    } else if op == 4 {
        let k: usize = any();
        let ret = r.assert_can_read(k);
        if k <= left {
            assert!(ret.is_ok());
        } else {
            failed(ret, left);
        }
        pos
    } else {
        let p: usize = any();
        r.set_offset(p);
        if p > len {
            len
        } else {
            p
        }
    };
    check_state(r, len, new);
    new
}

harnesses! {
    /// ByteArrayReader: any one operation from any position of any buffer of up to 5 bytes.
    #[unwind(14)]
    fn c05q_array_step() {
        let data: [u8; N] = any();
        let n = any_upto(N);
        let mut r = ByteArrayReader::new(&data[..n]);
        check_state(&r, n, 0);
        let p = any_upto(N);
        assume(p <= n);
        r.set_offset(p);
        check_state(&r, n, p);
        step(&mut r, &data[..n], p);
        assert!(r.as_slice().len() == n);
        let i = any_upto(N - 1);
        if i < n {
            assert!(r.as_slice()[i] == data[i]);
        }
    }

    /// ByteArrayReader: any two operations in a row.
    #[unwind(14)]
    fn c05q_array_history() {
        let data: [u8; N] = any();
        let mut r = ByteArrayReader::new(&data);
        let p = step(&mut r, &data, 0);
        step(&mut r, &data, p);
    }

    /// VecReader: any one operation from any position of a buffer of 5 bytes.
    #[unwind(14)]
    fn c05q_vec_step() {
        let data: [u8; N] = any();
        let mut r = VecReader::new(&data);
        check_state(&r, N, 0);
        let p = any_upto(N);
        r.set_offset(p);
        check_state(&r, N, p);
        step(&mut r, &data, p);
        assert!(r.as_slice().len() == N && r.vec().len() == N);
        let i = any_upto(N - 1);
        assert!(r.as_slice()[i] == data[i]);
        leak(r);
    }

    /// VecReader: any two operations in a row.
    #[unwind(14)]
    fn c05q_vec_history() {
        let data: [u8; 3] = any();
        let mut r = VecReader::new(&data);
        let p = step(&mut r, &data, 0);
        step(&mut r, &data, p);
        leak(r);
    }

    /// Readers over an empty buffer: every non-empty operation fails with end of data.
    #[unwind(14)]
    fn c05q_empty() {
        let data: [u8; 0] = [];
        let mut r = ByteArrayReader::new(&data);
        let op: u8 = any();
        let k: usize = any();
        let ret = if op == 0 { r.skip(k) } else { r.can_read(k) };
        assert!(ret.is_ok() == (k == 0));
        failed(r.read(), 0);
        check_state(&r, 0, 0);
        let mut r = VecReader::new(&data);
        let ret = if op == 0 { r.skip(k) } else { r.can_read(k) };
        assert!(ret.is_ok() == (k == 0));
        failed(r.read(), 0);
        check_state(&r, 0, 0);
        let mut b = [0u8; 1];
        failed(r.read_all(&mut b), 0);
        assert!(r.read_all(&mut b[..0]).is_ok());
        witness!(k == 0);
        leak(r);
    }

    /// Any four operations in a row over a ByteArrayReader.
    #[unwind(14)]
    fn c05t_array_history_4() {
        let data: [u8; N] = any();
        let mut r = ByteArrayReader::new(&data);
        let p = step(&mut r, &data, 0);
        let p = step(&mut r, &data, p);
        let p = step(&mut r, &data, p);
        step(&mut r, &data, p);
    }

    /// Any three operations in a row over a VecReader.
    #[unwind(14)]
    fn c05t_vec_history_3() {
        let data: [u8; N] = any();
        let mut r = VecReader::new(&data);
        let p = step(&mut r, &data, 0);
        let p = step(&mut r, &data, p);
        step(&mut r, &data, p);
        leak(r);
    }
}
