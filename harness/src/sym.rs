//! Symbolic values layer.
//!
//! Under Kani every value comes from the solver. In a regular build the very same
//! harness is executed with the concrete values of a counterexample, thus the
//! replay of a violation runs the real crate natively with no stand-ins.

/// Types that can be symbolic.
pub trait Sym: Sized {
    fn sym() -> Self;
}

#[cfg(kani)]
mod imp {
    use super::Sym;
    macro_rules! sym_int {
        ($($t:ty),*) => {$(
            impl Sym for $t { #[inline] fn sym() -> Self { kani::any() } }
        )*};
    }
    sym_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64);
    impl<const N: usize> Sym for [u8; N] {
        #[inline]
        fn sym() -> Self {
            kani::any()
        }
    }
    #[inline]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use super::Sym;
    use std::cell::RefCell;
    use std::collections::VecDeque;

    thread_local! {
        static VALUES: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new());
    }

    pub fn set_values(v: Vec<Vec<u8>>) {
        VALUES.with(|q| *q.borrow_mut() = v.into());
    }

    fn pop(size: usize) -> Vec<u8> {
        let mut v = VALUES
            .with(|q| q.borrow_mut().pop_front())
            .unwrap_or_default();
        if !v.is_empty() && v.len() != size {
            eprintln!("REPLAY-DESYNC: expected {} bytes, found {}", size, v.len());
            std::process::exit(4);
        }
        v.resize(size, 0);
        v
    }

    macro_rules! sym_int {
        ($($t:ty),*) => {$(
            impl Sym for $t {
                fn sym() -> Self {
                    const N: usize = std::mem::size_of::<$t>();
                    let mut a = [0u8; N];
                    a.copy_from_slice(&pop(N));
                    let v = <$t>::from_le_bytes(a);
                    eprintln!("  symbolic {} = {}", stringify!($t), v);
                    v
                }
            }
        )*};
    }
    sym_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64);
    impl<const N: usize> Sym for [u8; N] {
        fn sym() -> Self {
            let mut a = [0u8; N];
            for x in a.iter_mut() {
                *x = pop(1)[0];
            }
            eprintln!("  symbolic bytes = {:02x?}", a);
            a
        }
    }
    pub fn assume(c: bool) {
        if !c {
            eprintln!("REPLAY-ASSUME: an assumption of the harness does not hold");
            std::process::exit(3);
        }
    }
}

pub use imp::*;

#[inline]
pub fn any<T: Sym>() -> T {
    T::sym()
}

#[inline]
pub fn any_bool() -> bool {
    any::<u8>() & 1 == 1
}

/// Any usize in 0..=max.
#[inline]
pub fn any_upto(max: usize) -> usize {
    let v: usize = any();
    assume(v <= max);
    v
}

/// Leaks a value. Dropping symbolic trees of boxed tags is costly and not part of
/// any property.
#[inline]
pub fn leak<T>(v: T) {
    std::mem::forget(v);
}

/// Sets the iteration order of the hash map stand-in. The real map of a native
/// replay has its own random order.
pub fn set_map_order(seed: u64) {
    #[cfg(kani)]
    il2_iltags::verif_map::set_order_seed(seed);
    let _ = seed;
}

/// Map of the dictionary tags.
#[cfg(kani)]
pub type Map<V> = il2_iltags::verif_map::HashMap<String, V>;
#[cfg(not(kani))]
pub type Map<V> = std::collections::HashMap<String, V>;

/// Inserts a key that is known to be new (the harness assumes so). It spares the symbolic
/// execution the paths where it is not.
pub fn insert_new<V>(m: &mut Map<V>, k: &str, v: V) {
    #[cfg(kani)]
    m.insert_new(String::from(k), v);
    #[cfg(not(kani))]
    m.insert(String::from(k), v);
}

/// Reachability witness: the solver must find an execution that gets here with the
/// condition. An unsatisfiable witness makes the check inconclusive.
#[macro_export]
macro_rules! witness {
    () => {
        $crate::witness!(true)
    };
    ($c:expr) => {
        #[cfg(kani)]
        kani::cover!($c, "witness");
        #[cfg(not(kani))]
        let _ = $c;
    };
}

/// Defines the harnesses of a module and the table used by the native replay.
#[macro_export]
macro_rules! harnesses {
    ($(
        $(#[doc = $doc:literal])*
        #[unwind($u:literal)]
        fn $name:ident() $body:block
    )*) => {
        $(
            $(#[doc = $doc])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name)),*];
    };
}
