//! C23: raw tag offsets describe consistent ranges.
use crate::kit::*;
use crate::sym::*;
use il2_iltags::tags::raw::*;
use il2_iltags::tags::*;

/// Any descriptor that fits in the address range.
fn any_offset() -> (RawTagOffset, u64, u64, u64, u64) {
    let (id, o, h, v): (u64, u64, u64, u64) = (any(), any(), any(), any());
    assume(o.checked_add(h).and_then(|x| x.checked_add(v)).is_some());
    (RawTagOffset::new(id, o, h, v), id, o, h, v)
}

harnesses! {
    /// Any descriptor: header, value and next tag are contiguous.
    #[unwind(4)]
    fn c23q_layout() {
        let (t, id, o, h, v) = any_offset();
        assert!(t.id() == id && t.offset() == o && t.value_size() == v);
        assert!(t.size() == h + v);
        assert!(t.value_offset() == o + h);
        assert!(t.next_tag_offset() == t.offset() + t.size());
        assert!(t.next_tag_offset() == t.value_offset() + t.value_size());
        assert!(t.tag_start() as u64 == o && t.tag_end() as u64 == o + h + v);
        assert!(t.value_start() as u64 == o + h && t.value_end() as u64 == o + h + v);
        let c = t;
        assert!(c == t);
        let d = RawTagOffset::default();
        assert!(d.id() == 0 && d.offset() == 0 && d.size() == 0 && d.value_offset() == 0);
        witness!(o == 5 && h == 3 && v == 0);
        witness!(o + h + v == u64::MAX);
    }

    /// Equality compares every field.
    #[unwind(4)]
    fn c23q_equality() {
        let (a, id, o, h, v) = any_offset();
        let (b, id2, o2, h2, v2) = any_offset();
        assert!((a == b) == (id == id2 && o == o2 && h == h2 && v == v2));
        witness!(a == b);
        witness!(a != b && id == id2 && o == o2 && h == h2);
    }

    /// Slices of any descriptor within 8 bytes of data.
    #[unwind(10)]
    fn c23q_slices() {
        let data: [u8; 8] = any();
        let (t, _, o, h, v) = any_offset();
        let n = any_upto(8);
        assume(o + h + v <= n as u64);
        let raw = &data[..n];
        let s = t.tag_slice(raw);
        assert!(s.len() as u64 == h + v);
        let i = any_upto(8);
        if i < s.len() {
            assert!(s[i] == data[o as usize + i]);
        }
        let s = t.value_slice(raw);
        assert!(s.len() as u64 == v);
        if i < s.len() {
            assert!(s[i] == data[(o + h) as usize + i]);
        }
        witness!(v == 3 && h == 2 && o == 3 && i == 2);
        witness!(v == 0);
    }

    /// Mapping to the space of the parent: any two descriptors.
    #[unwind(4)]
    fn c23q_parent() {
        let (t, id, o, h, v) = any_offset();
        let (p, _, po, ph, pv) = any_offset();
        match t.map_to_parent_space(&p) {
            Ok(m) => {
                assert!(o + h + v <= pv);
                assert!(m.id() == id && m.value_size() == v && m.size() == h + v);
                assert!(m.offset() == po + ph + o);
                assert!(m.value_offset() == po + ph + o + h);
                assert!(m.offset() >= p.value_offset());
                assert!(m.next_tag_offset() <= p.next_tag_offset());
                witness!(m.next_tag_offset() == p.next_tag_offset());
                witness!(o == 7);
            }
            Err(e) => {
                assert!(kind::<()>(Err(e)) == E::CorruptedData);
                assert!(o + h + v > pv);
                witness!(o + h + v == pv + 1);
            }
        }
    }

    /// The mapped descriptor designates the same bytes in the parent's data.
    #[unwind(12)]
    fn c23q_parent_bytes() {
        let data: [u8; 10] = any();
        let (t, _, o, h, v) = any_offset();
        let (p, _, po, ph, pv) = any_offset();
        assume(po + ph + pv <= 10);
        if let Ok(m) = t.map_to_parent_space(&p) {
            let inner = p.value_slice(&data);
            let (a, b) = (t.tag_slice(inner), m.tag_slice(&data));
            assert!(a.len() == b.len());
            let i = any_upto(9);
            if i < a.len() {
                assert!(a[i] == b[i]);
            }
            let (a, b) = (t.value_slice(inner), m.value_slice(&data));
            assert!(a.len() == b.len());
            if i < a.len() {
                assert!(a[i] == b[i]);
            }
            witness!(o == 1 && h == 2 && v == 3 && po == 2);
        }
    }

    /// Three levels: mapping twice is the same as mapping to the mapped parent.
    #[unwind(4)]
    fn c23q_nested() {
        let (a, ..) = any_offset();
        let (b, ..) = any_offset();
        let (c, ..) = any_offset();
        if let (Ok(ab), Ok(bc)) = (a.map_to_parent_space(&b), b.map_to_parent_space(&c)) {
            let x = ab.map_to_parent_space(&c);
            let y = a.map_to_parent_space(&bc);
            match (&x, &y) {
                (Ok(x), Ok(y)) => assert!(x == y),
                _ => panic!("an inner tag of an inner tag was rejected"),
            }
            witness!(a.offset() == 3 && b.offset() == 4 && c.offset() == 5);
            leak((x, y));
        }
    }
}
