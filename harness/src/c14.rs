//! C14: dictionaries have one canonical encoding and round-trip.
use crate::kit::*;
use crate::mocks::*;
use crate::sym::*;
use il2_iltags::io::array::{ByteArrayReader, MemoryReader};
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::implicit::*;
use il2_iltags::tags::*;

/// Any text of N (at most 2) bytes.
fn text<const N: usize>() -> [u8; N] {
    let b: [u8; N] = any();
    if N == 1 {
        assume(b[0] < 0x80);
    } else if N == 2 {
        assume((b[0] < 0x80 && b[1] < 0x80) || (b[0] >= 0xC2 && b[0] < 0xE0 && b[1] >= 0x80 && b[1] < 0xC0));
    }
    b
}

fn txt(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}

/// Byte order of two keys: a < b.
fn before(a: &[u8], b: &[u8]) -> bool {
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
        i += 1;
    }
    a.len() < b.len()
}

/// Checks one entry with a value of one byte at `w[p..]`; returns its end.
fn entry(w: &[u8], p: usize, k: &[u8], id: u8, v: u8) -> usize {
    assert!(w[p] == 17);
    assert!(w[p + 1] as usize == k.len());
    let mut i = 0;
    while i < k.len() {
        assert!(w[p + 2 + i] == k[i]);
        i += 1;
    }
    let q = p + 2 + k.len();
    assert!(w[q] == id && w[q + 1] == 1 && w[q + 2] == v);
    q + 3
}

/// Serializes with a writer that takes one byte at a time.
fn bytes<T: ILTag, const N: usize>(t: &T) -> FixedWriter<N> {
    let mut w = ByteWriter(FixedWriter::<N>::new());
    assert!(is_ok(t.serialize(&mut w)));
    assert!(t.size() == w.0.len as u64);
    w.0
}

fn elem(v: u8) -> Box<dyn ILTag> {
    Box::new(ByteTag(v))
}

/// Dictionary with two entries of keys of A and B bytes.
fn dict2<const A: usize, const B: usize>() {
    let a = text::<A>();
    let b = text::<B>();
    let x: u8 = any();
    let y: u8 = any();
    let ab = before(&a, &b);
    assume(ab || before(&b, &a));
    let mut t = ILDictTag::new();
    insert_new(t.mut_value(), txt(&a), elem(x));
    insert_new(t.mut_value(), txt(&b), elem(y));
    let w = bytes::<_, 24>(&t);
    assert!(w.len == 3 + 10 + A + B);
    assert!(w.data[0] == 30 && w.data[1] as usize == w.len - 2 && w.data[2] == 2);
    if ab {
        let p = entry(&w.data, 3, &a, 40, x);
        entry(&w.data, p, &b, 40, y);
    } else {
        let p = entry(&w.data, 3, &b, 40, y);
        entry(&w.data, p, &a, 40, x);
    }
    leak(t);
}

/// String dictionary with two entries.
fn strdict2<const A: usize, const B: usize>() {
    let a = text::<A>();
    let b = text::<B>();
    let x = text::<1>();
    let y = text::<1>();
    let ab = before(&a, &b);
    assume(ab || before(&b, &a));
    let mut t = ILStrDictTag::with_id(200);
    insert_new(t.mut_value(), txt(&a), String::from(txt(&x)));
    insert_new(t.mut_value(), txt(&b), String::from(txt(&y)));
    let w = bytes::<_, 24>(&t);
    assert!(w.len == 3 + 10 + A + B);
    assert!(w.data[0] == 200 && w.data[1] as usize == w.len - 2 && w.data[2] == 2);
    if ab {
        let p = entry(&w.data, 3, &a, 17, x[0]);
        entry(&w.data, p, &b, 17, y[0]);
    } else {
        let p = entry(&w.data, 3, &b, 17, y[0]);
        entry(&w.data, p, &a, 17, x[0]);
    }
    leak(t);
}

/// Checks slot `s` of a dictionary with three entries with keys of one byte.
fn slot(w: &[u8], k: &[u8; 3], s: usize, id: u8, v: &[u8; 3]) {
    let p = 3 + 6 * s;
    assert!(w[p] == 17 && w[p + 1] == 1 && w[p + 3] == id && w[p + 4] == 1);
    let mut i = 0;
    while i < 3 {
        let mut rank = 0;
        let mut j = 0;
        while j < 3 {
            if k[j] < k[i] {
                rank += 1;
            }
            j += 1;
        }
        if rank == s {
            assert!(w[p + 2] == k[i] && w[p + 5] == v[i]);
        }
        i += 1;
    }
}

fn dict_get(t: &ILDictTag, k: &str, v: u8) {
    match t.get(k) {
        Some(e) => {
            assert!(e.id() == 40);
            match tag_downcast_ref::<ByteTag>(e) {
                Some(e) => assert!(e.0 == v),
                None => panic!("wrong type"),
            }
        }
        None => panic!("missing"),
    }
}

fn str_get(t: &ILStrDictTag, k: &str, v: &[u8]) {
    match t.get(k) {
        Some(e) => {
            let e = e.as_bytes();
            assert!(e.len() == v.len());
            same(e, v, v.len());
        }
        None => panic!("missing"),
    }
}

/// Decodes a dictionary value, over one that already has entries.
fn dict_from(data: &[u8], size: usize) -> (ILDictTag, E, usize) {
    let mut t = ILDictTag::new();
    leak(t.insert("zz", elem(1)));
    let mut r = ByteArrayReader::new(data);
    let k = kind(t.deserialize_value(&ByteFactory {}, size, &mut r));
    (t, k, r.offset())
}

fn str_from(data: &[u8], size: usize) -> (ILStrDictTag, E, usize) {
    let mut t = ILStrDictTag::new();
    leak(t.insert("zz", "old"));
    let mut r = ByteArrayReader::new(data);
    let k = kind(t.deserialize_value(&util::UntouchbleTagFactory {}, size, &mut r));
    (t, k, r.offset())
}

fn dict_fails(data: &[u8], size: usize) {
    let (t, k, _) = dict_from(data, size);
    assert!(k != E::None);
    leak(t);
}

fn str_fails(data: &[u8], size: usize) {
    let (t, k, _) = str_from(data, size);
    assert!(k != E::None);
    leak(t);
}

/// Any count of N bytes after the header, with no entries after it.
fn any_count<const N: usize>() {
    let c: [u8; N] = any();
    let mut data = [0u8; 9];
    data[0] = 0xF7 + N as u8;
    let mut i = 0;
    while i < N {
        data[1 + i] = c[i];
        i += 1;
    }
    dict_fails(&data, N + 1);
    str_fails(&data, N + 1);
}

harnesses! {
    /// Two entries with any keys of one byte, in any internal order.
    #[unwind(6)]
    fn c14q_dict_11() {
        dict2::<1, 1>();
        witness!();
    }

    /// Keys of different sizes, in both insertion orders.
    #[unwind(6)]
    fn c14q_dict_12() {
        dict2::<1, 2>();
        witness!();
    }

    /// Keys of different sizes.
    #[unwind(6)]
    fn c14q_dict_20() {
        dict2::<2, 0>();
        witness!();
    }

    /// Two entries with any keys of two bytes.
    #[unwind(6)]
    fn c14t_dict_22() {
        dict2::<2, 2>();
        witness!();
    }

    /// String dictionaries.
    #[unwind(6)]
    fn c14q_strdict_11() {
        strdict2::<1, 1>();
        witness!();
    }

    /// String dictionaries: keys of different sizes.
    #[unwind(6)]
    fn c14q_strdict_21() {
        strdict2::<2, 1>();
        witness!();
    }

    /// String dictionaries: keys of different sizes.
    #[unwind(6)]
    fn c14t_strdict_22() {
        strdict2::<2, 2>();
        strdict2::<0, 2>();
        witness!();
    }

    /// Three entries with any keys of one byte, any internal order.
    #[unwind(6)]
    fn c14q_dict_3() {
        let a = text::<1>();
        let b = text::<1>();
        let c = text::<1>();
        let k = [a[0], b[0], c[0]];
        assume(k[0] != k[1] && k[0] != k[2] && k[1] != k[2]);
        let mut t = ILDictTag::new();
        insert_new(t.mut_value(), txt(&a), elem(1));
        insert_new(t.mut_value(), txt(&b), elem(2));
        insert_new(t.mut_value(), txt(&c), elem(3));
        let w = bytes::<_, 24>(&t);
        assert!(w.len == 3 + 18);
        assert!(w.data[2] == 3);
        let mut i = 0;
        while i < 3 {
            slot(&w.data, &k, i, 40, &[1, 2, 3]);
            i += 1;
        }
        witness!();
        leak(t);
    }

    /// Three entries in a string dictionary.
    #[unwind(6)]
    fn c14q_strdict_3() {
        let a = text::<1>();
        let b = text::<1>();
        let c = text::<1>();
        let k = [a[0], b[0], c[0]];
        assume(k[0] != k[1] && k[0] != k[2] && k[1] != k[2]);
        let mut t = ILStrDictTag::new();
        insert_new(t.mut_value(), txt(&a), String::from("a"));
        insert_new(t.mut_value(), txt(&b), String::from("b"));
        insert_new(t.mut_value(), txt(&c), String::from("c"));
        let w = bytes::<_, 24>(&t);
        assert!(w.len == 3 + 18 && w.data[0] == 31);
        assert!(w.data[2] == 3);
        let mut i = 0;
        while i < 3 {
            slot(&w.data, &k, i, 17, b"abc");
            i += 1;
        }
        witness!();
        leak(t);
    }

    /// The history does not matter: replaced and removed entries leave no trace.
    #[unwind(6)]
    fn c14q_history() {
        let a = *b"a";
        let c = *b"bc";
        let x: u8 = any();
        let mut t = ILDictTag::new();
        assert!(t.is_empty());
        leak(t.insert(txt(&c), elem(1)));
        leak(t.insert(txt(&a), elem(2)));
        match t.insert(txt(&a), elem(x)) {
            Some(o) => leak(o),
            None => panic!("the previous value is returned"),
        }
        assert!(t.len() == 2);
        leak(t.mut_value().remove(txt(&c)));
        assert!(t.len() == 1 && !t.is_empty());
        assert!(t.get(txt(&c)).is_none());
        dict_get(&t, txt(&a), x);
        let w = bytes::<_, 16>(&t);
        assert!(w.len == 9 && w.data[0] == 30 && w.data[1] == 7 && w.data[2] == 1);
        entry(&w.data, 3, &a, 40, x);
        witness!();
        leak(t);
    }

    /// The same for string dictionaries.
    #[unwind(6)]
    fn c14q_str_history() {
        let a = *b"a";
        let c = *b"bc";
        let x = text::<1>();
        let mut t = ILStrDictTag::new();
        assert!(t.is_empty());
        leak(t.insert(txt(&c), "1"));
        leak(t.insert(txt(&a), "2"));
        match t.insert(txt(&a), txt(&x)) {
            Some(o) => leak(o),
            None => panic!("the previous value is returned"),
        }
        assert!(t.len() == 2);
        leak(t.mut_value().remove(txt(&c)));
        assert!(t.len() == 1 && !t.is_empty());
        assert!(t.get(txt(&c)).is_none());
        str_get(&t, txt(&a), &x);
        let w = bytes::<_, 16>(&t);
        assert!(w.len == 9 && w.data[0] == 31 && w.data[1] == 7 && w.data[2] == 1);
        entry(&w.data, 3, &a, 17, x[0]);
        witness!();
        leak(t);
    }

    /// Decoding: two entries with any keys and values.
    #[unwind(6)]
    fn c14q_decode() {
        let a = text::<1>();
        let b = text::<1>();
        let x: u8 = any();
        let y: u8 = any();
        assume(a[0] != b[0]);
        let (t, k, n) = dict_from(&[2, 17, 1, a[0], 40, 1, x, 17, 1, b[0], 40, 1, y, 99], 13);
        assert!(k == E::None && n == 13 && t.len() == 2);
        dict_get(&t, txt(&a), x);
        dict_get(&t, txt(&b), y);
        assert!(t.get("zz").is_none());
        leak(t);
        let (t, k, n) = dict_from(&[0, 99], 1);
        assert!(k == E::None && n == 1 && t.len() == 0);
        leak(t);
        witness!();
    }

    /// Decoding string dictionaries.
    #[unwind(6)]
    fn c14q_str_decode() {
        let a = text::<1>();
        let b = text::<1>();
        let x = text::<1>();
        let y = text::<1>();
        assume(a[0] != b[0]);
        let (t, k, n) = str_from(&[2, 17, 1, a[0], 17, 1, x[0], 17, 1, b[0], 17, 1, y[0], 99], 13);
        assert!(k == E::None && n == 13 && t.len() == 2);
        str_get(&t, txt(&a), &x);
        str_get(&t, txt(&b), &y);
        assert!(t.get("zz").is_none());
        leak(t);
        let (t, k, n) = str_from(&[0, 99], 1);
        assert!(k == E::None && n == 1 && t.len() == 0);
        leak(t);
        witness!();
    }

    /// Payloads that do not match the declared size.
    #[unwind(6)]
    fn c14q_decode_sizes() {
        let v = [1, 17, 1, b'a', 40, 1, 5, 0, 0];
        dict_fails(&v, 0);
        dict_fails(&v, 1);
        dict_fails(&v, 3);
        dict_fails(&v, 4);
        dict_fails(&v, 5);
        witness!();
    }

    /// Payloads with more bytes or with less elements than declared.
    #[unwind(6)]
    fn c14q_decode_sizes_long() {
        let v = [1, 17, 1, b'a', 40, 1, 5, 0, 0];
        dict_fails(&v, 6);
        dict_fails(&v, 8);
        dict_fails(&[0, 0], 2);
        dict_fails(&[2, 17, 1, b'a', 40, 1, 5, 17, 1, b'b', 40, 1, 6], 7);
        dict_fails(&[1, 17, 1, b'a', 40, 1, 5, 17, 1, b'b', 40, 1, 6], 13);
        witness!();
    }

    /// The same for string dictionaries.
    #[unwind(6)]
    fn c14q_str_decode_sizes() {
        let v = [1, 17, 1, b'a', 17, 1, b'x', 0, 0];
        str_fails(&v, 0);
        str_fails(&v, 1);
        str_fails(&v, 3);
        str_fails(&v, 4);
        str_fails(&v, 5);
        witness!();
    }

    /// Payloads with more bytes or with less elements than declared.
    #[unwind(6)]
    fn c14q_str_decode_sizes_long() {
        let v = [1, 17, 1, b'a', 17, 1, b'x', 0, 0];
        str_fails(&v, 6);
        str_fails(&v, 8);
        str_fails(&[0, 0], 2);
        str_fails(&[2, 17, 1, b'a', 17, 1, b'x', 17, 1, b'b', 17, 1, b'x'], 7);
        str_fails(&[1, 17, 1, b'a', 17, 1, b'x', 17, 1, b'b', 17, 1, b'x'], 13);
        witness!();
    }

    /// Keys that are not string tags (and values of string dictionaries).
    #[unwind(6)]
    fn c14q_decode_keys() {
        dict_fails(&[1, 16, 1, b'a', 40, 1, 5], 7);
        dict_fails(&[1, 18, 1, b'a', 40, 1, 5], 7);
        dict_fails(&[1, 100, 1, b'a', 40, 1, 5], 7);
        dict_fails(&[1, 0, 17, 1, b'a', 40, 1, 5], 8);
        witness!();
    }

    /// The same for string dictionaries, for keys and values.
    #[unwind(6)]
    fn c14q_str_decode_keys() {
        str_fails(&[1, 16, 1, b'a', 17, 1, b'x'], 7);
        str_fails(&[1, 18, 1, b'a', 17, 1, b'x'], 7);
        str_fails(&[1, 17, 1, b'a', 16, 1, b'x'], 7);
        str_fails(&[1, 17, 1, b'a', 25, 1, b'x'], 7);
        witness!();
    }

    /// Keys that are not UTF-8.
    #[unwind(6)]
    fn c14q_decode_invalid() {
        dict_fails(&[1, 17, 1, 0x80, 40, 1, 5], 7);
        str_fails(&[1, 17, 1, 0xFF, 17, 1, b'x'], 7);
        str_fails(&[1, 17, 1, b'a', 17, 1, 0xC0], 7);
        witness!();
    }

    /// Any count from 248 on, with no entries: there are not that many.
    #[unwind(10)]
    fn c14q_count_1() {
        any_count::<1>();
        witness!();
    }

    #[unwind(10)]
    fn c14q_count_2() {
        any_count::<2>();
        witness!();
    }

    #[unwind(10)]
    fn c14q_count_4() {
        any_count::<4>();
        witness!();
    }

    #[unwind(10)]
    fn c14q_count_8() {
        any_count::<8>();
        witness!();
    }
}
