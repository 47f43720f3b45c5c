//! C13: tag sequences and arrays preserve their elements.
use crate::kit::*;
use crate::mocks::*;
use crate::refs::*;
use crate::sym::*;
use il2_iltags::io::array::{ByteArrayReader, MemoryReader};
use il2_iltags::tags::standard::explicit::*;
use il2_iltags::tags::standard::implicit::*;
use il2_iltags::tags::*;

/// Reference: `data` is exactly `max` elements (any number when None) of the `SpanFactory`.
fn ref_spans(data: &[u8], max: Option<usize>, out: &mut [usize; 8]) -> Option<usize> {
    let mut pos = 0;
    let mut count = 0;
    while match max {
        Some(m) => count < m,
        None => pos < data.len(),
    } {
        if pos >= data.len() {
            return None;
        }
        let n = data[pos] as usize;
        pos += 1;
        if n > data.len() - pos {
            return None;
        }
        pos += n;
        out[count] = n;
        count += 1;
    }
    if pos == data.len() {
        Some(count)
    } else {
        None
    }
}

fn check_elements(v: &Vec<Box<dyn ILTag>>, n: usize, spans: &[usize; 8]) {
    assert!(v.len() == n);
    let mut i = 0;
    while i < n {
        assert!(v[i].id() == 100 + spans[i] as u64);
        i += 1;
    }
}

/// Any `N` bytes as the value of a sequence.
fn seq_any<const N: usize>() -> bool {
    let b: [u8; N] = any();
    let mut data = [0u8; 10];
    let mut i = 0;
    while i < N {
        data[i] = b[i];
        i += 1;
    }
    let mut spans = [0; 8];
    let expected = ref_spans(&b, None, &mut spans);
    let mut t = ILTagSeqTag::new();
    t.mut_value().push(Box::new(UnitTag {}));
    let mut r = ByteArrayReader::new(&data);
    let k = kind(t.deserialize_value(&SpanFactory {}, N, &mut r));
    assert!((k == E::None) == expected.is_some());
    assert!(r.offset() <= N);
    if let Some(n) = expected {
        assert!(r.offset() == N);
        check_elements(t.value(), n, &spans);
    }
    leak(t);
    k == E::None
}

/// Any `N` bytes after a count.
fn array_any<const N: usize>(count: usize) -> bool {
    let b: [u8; N] = any();
    let mut data = [0u8; 10];
    data[0] = count as u8;
    let mut i = 0;
    while i < N {
        data[1 + i] = b[i];
        i += 1;
    }
    let mut spans = [0; 8];
    let expected = ref_spans(&b, Some(count), &mut spans);
    let mut t = ILTagArrayTag::new();
    t.mut_value().push(Box::new(UnitTag {}));
    let mut r = ByteArrayReader::new(&data);
    let k = kind(t.deserialize_value(&SpanFactory {}, N + 1, &mut r));
    assert!((k == E::None) == expected.is_some());
    assert!(r.offset() <= N + 1);
    if let Some(n) = expected {
        assert!(r.offset() == N + 1);
        check_elements(t.value(), n, &spans);
    }
    leak(t);
    k == E::None
}

/// Three elements of 0, 2 and 1 bytes with any content and any explicit ids.
fn elements(v: &mut Vec<Box<dyn ILTag>>, ids: [u64; 3], b: &[u8; 3]) {
    v.push(Box::new(ElemTag::new(ids[0], &[])));
    v.push(Box::new(ElemTag::new(ids[1], &[b[0], b[1]])));
    v.push(Box::new(ElemTag::new(ids[2], &[b[2]])));
}

/// Checks the serialization of `elements` at `w[at..]`.
fn check_wire(w: &[u8], at: usize, ids: [u64; 3], b: &[u8; 3]) {
    let sizes = [0usize, 2, 1];
    let first = [0usize, 0, 2];
    let mut pos = at;
    let mut e = 0;
    while e < 3 {
        let n = ref_ilint_size(ids[e]);
        let mut i = 0;
        while i < n {
            assert!(w[pos + i] == ref_ilint_byte(ids[e], i));
            i += 1;
        }
        pos += n;
        assert!(w[pos] as usize == sizes[e]);
        pos += 1;
        i = 0;
        while i < sizes[e] {
            assert!(w[pos + i] == b[first[e] + i]);
            i += 1;
        }
        pos += sizes[e];
        e += 1;
    }
}

/// The count of a tag array of N elements.
fn count<const N: usize>(expected: &[u8]) {
    let mut t = ILTagArrayTag::new();
    t.mut_value().reserve(N);
    let mut i = 0;
    while i < N {
        t.mut_value().push(Box::new(UnitTag {}));
        i += 1;
    }
    let mut o = FixedWriter::<4>::with_limit(expected.len());
    assert!(!is_ok(t.serialize_value(&mut o)));
    assert!(o.len == expected.len());
    same(&o.data, expected, expected.len());
    leak(t);
}

/// The count of an array does not fit in its value size.
fn rejected(data: &[u8], size: usize) {
    let mut t = ILTagArrayTag::new();
    let mut r = ByteArrayReader::new(data);
    assert!(kind(t.deserialize_value(&SpanFactory {}, size, &mut r)) == E::CorruptedData);
    leak(t);
}

fn refused(data: &[u8]) {
    let mut r = ByteArrayReader::new(data);
    assert!(!is_ok(NestFactory {}.deserialize(&mut r)));
}

fn u8_at(v: &Vec<Box<dyn ILTag>>, i: usize) -> u8 {
    assert!(v[i].id() == 3);
    match tag_downcast_ref::<ILUInt8Tag>(v[i].as_ref()) {
        Some(t) => t.value(),
        None => panic!("wrong type"),
    }
}

/// Array of N elements with no content, decoded by a factory of elements of one byte.
fn many_array<const N: usize, const M: usize>(head: &[u8]) {
    let mut data = [0u8; M];
    let mut i = 0;
    while i < head.len() {
        data[i] = head[i];
        i += 1;
    }
    let mut t = ILTagArrayTag::new();
    let mut r = ByteArrayReader::new(&data);
    let k = kind(t.deserialize_value(&SpanFactory {}, N + head.len(), &mut r));
    assert!(k == E::None);
    assert!(r.offset() == N + head.len());
    assert!(t.value().len() == N);
    leak(t);
}

fn many_seq<const N: usize, const M: usize>() {
    let data = [0u8; M];
    let mut t = ILTagSeqTag::new();
    let mut r = ByteArrayReader::new(&data);
    let k = kind(t.deserialize_value(&SpanFactory {}, N, &mut r));
    assert!(k == E::None);
    assert!(r.offset() == N);
    assert!(t.value().len() == N);
    leak(t);
}

harnesses! {
    /// Sequences: any value of 0 to 2 bytes.
    #[unwind(5)]
    fn c13q_seq_2() {
        assert!(seq_any::<0>());
        witness!(seq_any::<1>());
        witness!(seq_any::<2>());
    }

    /// Sequences: any value of 3 bytes.
    #[unwind(5)]
    fn c13q_seq_3() {
        witness!(seq_any::<3>());
    }

    /// Sequences: any value of 4 bytes.
    #[unwind(6)]
    fn c13q_seq_4() {
        let ok = seq_any::<4>();
        witness!(ok);
        witness!(!ok);
    }

    /// Sequences: any value of 6 bytes.
    #[unwind(12)]
    fn c13t_seq_6() {
        let ok = seq_any::<6>();
        witness!(ok);
        witness!(!ok);
    }

    /// Arrays: any value of up to 3 bytes after counts of 0 to 2.
    #[unwind(12)]
    fn c13q_array_small() {
        assert!(array_any::<0>(0));
        assert!(!array_any::<1>(0));
        assert!(!array_any::<0>(1));
        witness!(array_any::<1>(1));
        witness!(array_any::<3>(1));
        witness!(array_any::<2>(2));
        assert!(!array_any::<1>(2));
    }

    /// Arrays: any value of 4 and 5 bytes after counts of 2 and 3.
    #[unwind(12)]
    fn c13q_array() {
        witness!(array_any::<4>(2));
        witness!(array_any::<4>(3));
        witness!(array_any::<5>(3));
    }

    /// Arrays: any value of 6 bytes after counts of 2 to 5.
    #[unwind(12)]
    fn c13t_array() {
        witness!(array_any::<6>(2));
        witness!(array_any::<6>(3));
        witness!(array_any::<6>(4));
        witness!(array_any::<6>(5));
    }

    /// Serialization of three elements in a sequence: ids of one byte, any content.
    #[unwind(10)]
    fn c13q_seq_wire() {
        let b: [u8; 3] = any();
        let i: [u8; 3] = any();
        assume(i[0] >= 16 && i[0] < 248 && i[1] >= 16 && i[1] < 248 && i[2] >= 16 && i[2] < 248);
        let ids = [i[0] as u64, i[1] as u64, i[2] as u64];
        let mut t = ILTagSeqTag::new();
        elements(t.mut_value(), ids, &b);
        let w = serialize::<16>(&t);
        assert!(w.len == 11 && w.data[0] == 22 && w.data[1] == 9);
        check_wire(&w.data, 2, ids, &b);
        leak(t);
        let t = ILTagSeqTag::with_id(200);
        let w = serialize::<16>(&t);
        assert!(w.len == 2 && w.data[0] == 200 && w.data[1] == 0);
        witness!();
        leak(t);
    }

    /// Serialization of three elements in an array.
    #[unwind(10)]
    fn c13q_array_wire() {
        let b: [u8; 3] = any();
        let ids = [300, 17, 0x1_0000_0000];
        let mut t = ILTagArrayTag::new();
        elements(t.mut_value(), ids, &b);
        let w = serialize::<24>(&t);
        assert!(w.len == 3 + (2 + 1) + (1 + 1 + 2) + (5 + 1 + 1));
        assert!(w.data[0] == 21 && w.data[1] as usize == w.len - 2 && w.data[2] == 3);
        check_wire(&w.data, 3, ids, &b);
        leak(t);
        let t = ILTagArrayTag::with_id(200);
        let w = serialize::<16>(&t);
        assert!(w.len == 3 && w.data[0] == 200 && w.data[1] == 1 && w.data[2] == 0);
        witness!();
        leak(t);
    }

    /// Array counts around the size boundary of the count field.
    #[unwind(252)]
    fn c13q_count() {
        count::<248>(&[0xF8, 0]);
        witness!();
    }

    /// Counts larger than the value size are rejected.
    #[unwind(12)]
    fn c13q_count_too_large() {
        rejected(&[11, 0, 0], 10);
        rejected(&[0xF8, 0], 247);
        rejected(&[0xF8, 0xFF], 500);
        rejected(&[0xF9, 1, 0], 503);
        rejected(&[0xFC, 1, 0, 0, 0, 0], 400);
        rejected(&[0xFF, 0x80, 0, 0, 0, 0, 0, 0, 0], 10);
        rejected(&[0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x07], 10);
        witness!();
    }

    /// Nested containers through the standard factory.
    #[unwind(14)]
    fn c13q_nested() {
        let f = std_factory();
        let x: [u8; 4] = any();
        let raw = [22, 10, 3, x[0], 21, 4, 2, 3, x[1], 0, 3, x[2], 77];
        let t = typed::<ILTagSeqTag>(decode(&*f, &raw, 12), 22);
        assert!(t.value().len() == 3);
        assert!(u8_at(t.value(), 0) == x[0]);
        assert!(u8_at(t.value(), 2) == x[2]);
        match tag_downcast_ref::<ILTagArrayTag>(t.value()[1].as_ref()) {
            Some(a) => {
                assert!(a.id() == 21 && a.value().len() == 2);
                assert!(u8_at(a.value(), 0) == x[1]);
                assert!(a.value()[1].id() == 0);
            }
            None => panic!("wrong type"),
        }
        let w = serialize::<16>(&*t);
        assert!(w.len == 12);
        same(&w.data, &raw, 12);
        leak(t);
        witness!();
    }

    /// Elements that go past their sequence or leave bytes of it, at both levels.
    #[unwind(6)]
    fn c13q_overrun() {
        // The last element is cut by the sequence, though the stream goes on.
        refused(&[22, 3, 17, 0, 17, 2, 0, 0]);
        refused(&[22, 1, 17, 2, 0, 0]);
        refused(&[22, 3, 17, 2, 1, 1, 1]);
        // The inner container goes past the outer one.
        refused(&[22, 4, 22, 4, 17, 1, 17, 1, 0]);
        refused(&[21, 4, 1, 22, 2, 17, 1, 17, 1]);
        witness!();
    }

    /// The same for arrays.
    #[unwind(6)]
    fn c13q_overrun_array() {
        refused(&[21, 3, 2, 17, 0, 17, 0, 0]);
        refused(&[21, 5, 1, 17, 1, 17, 1, 0]);
        refused(&[21, 2, 1, 17, 1, 0]);
        refused(&[21, 0, 0, 0]);
        refused(&[22, 4, 21, 3, 2, 0, 0]);
        witness!();
    }

    /// Decoding of 256 elements.
    #[unwind(260)]
    fn c13q_many_array() {
        many_array::<256, 260>(&[0xF8, 8]);
        witness!();
    }

    #[unwind(260)]
    fn c13t_many_seq() {
        many_seq::<256, 260>();
        witness!();
    }
}
