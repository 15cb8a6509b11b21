//! `core`, with the atomic integers replaced by instrumented ones.
//!
//! The overlay copy of the crate is compiled with `extern crate vcore as core`, so
//! that every `core::sync::atomic` integer it declares is one of these. They serve
//! two purposes:
//!
//! * Kani 0.68 lets a constant share memory with a mutable static that has the same
//!   initial bytes (a store to `static S: AtomicU8 = AtomicU8::new(2)` changes every
//!   one-byte constant 2). The tag makes the bytes of a static unlike any constant's.
//!   (Value and tag are one array: a symbolic choice between two elements of a static
//!   array of structs with several fields is mistranslated.)
//! * `interfere` models other threads: stores made while capturing are not performed
//!   but become pending, and any number of them happen, in order, before each later
//!   access.
#![no_std]
#![cfg_attr(kani, feature(core_intrinsics, const_heap))]
#![allow(internal_features)]
pub use ::core::*;

/// The same text in an allocation of exactly its size, at compile time.
///
/// Kani 0.68 reads a constant of type `&str` as the whole allocation it points into,
/// whatever its offset and length.
#[cfg(kani)]
pub const fn exact_str(s: &'static str) -> &'static str {
    if s.is_empty() {
        return "";
    }
    let b = s.as_bytes();
    unsafe {
        let p = ::core::intrinsics::const_allocate(b.len(), 1);
        let mut i = 0;
        while i < b.len() {
            *p.add(i) = b[i];
            i += 1;
        }
        let p = ::core::intrinsics::const_make_global(p);
        ::core::str::from_utf8_unchecked(::core::slice::from_raw_parts(p, b.len()))
    }
}

#[cfg(not(kani))]
pub const fn exact_str(s: &'static str) -> &'static str {
    s
}

/// A place that lives as long as a constant would.
pub fn leak<T>(v: T) -> &'static T {
    extern crate alloc;
    alloc::boxed::Box::leak(alloc::boxed::Box::new(v))
}

pub mod sync {
    pub use ::core::sync::*;
    pub mod atomic {
        pub use ::core::sync::atomic::*;

        use crate::interfere::before;
        use ::core::cell::UnsafeCell;

        macro_rules! atomics { ($($name:ident $t:ty;)*) => { $(
            pub struct $name { v: UnsafeCell<[u64; 3]> }
            unsafe impl Sync for $name {}
            unsafe impl Send for $name {}
            impl ::core::fmt::Debug for $name {
                fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(stringify!($name)) }
            }
            impl Default for $name { fn default() -> Self { Self::new(Default::default()) } }
            impl From<$t> for $name { fn from(v: $t) -> Self { Self::new(v) } }
            impl $name {
                pub const fn new(v: $t) -> Self { $name { v: UnsafeCell::new([v as u64, 0x7c3a_91e5_d20b_46f8, 0x1fe8_620d_b59c_a473]) } }
                /// the value is the first bytes (little endian)
                #[inline]
                fn at(&self) -> *mut $t { self.v.get() as *mut $t }
                pub fn get_mut(&mut self) -> &mut $t { unsafe { &mut *self.at() } }
                pub fn into_inner(self) -> $t { unsafe { *self.at() } }
                #[inline]
                fn get(&self) -> $t {
                    before();
                    match crate::interfere::pended(self.at() as *mut u8) {
                        // (bool is the only type here that is not an integer)
                        Some(v) => unsafe { let v = v; *(&v as *const u64 as *const $t) },
                        None => unsafe { *self.at() },
                    }
                }
                #[inline]
                fn put(&self, v: $t) {
                    if crate::interfere::capturing() {
                        crate::interfere::pend(self.at() as *mut u8, v as u64, ::core::mem::size_of::<$t>() as u8, None);
                    } else {
                        unsafe { *self.at() = v }
                    }
                }
                /// the second half of an atomic read-modify-write that read `o`
                #[inline]
                fn update(&self, o: $t, v: $t) {
                    if crate::interfere::capturing() {
                        crate::interfere::pend(self.at() as *mut u8, v as u64, ::core::mem::size_of::<$t>() as u8, Some(o as u64));
                    } else {
                        unsafe { *self.at() = v }
                    }
                }
                pub fn load(&self, _: Ordering) -> $t { self.get() }
                pub fn store(&self, v: $t, _: Ordering) { before(); self.put(v) }
                pub fn swap(&self, v: $t, _: Ordering) -> $t { let o = self.get(); self.update(o, v); o }
                pub fn compare_exchange(&self, c: $t, n: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    let o = self.get();
                    if o == c { self.update(o, n); Ok(o) } else { Err(o) }
                }
                pub fn compare_exchange_weak(&self, c: $t, n: $t, a: Ordering, b: Ordering) -> Result<$t, $t> { self.compare_exchange(c, n, a, b) }
                pub fn compare_and_swap(&self, c: $t, n: $t, a: Ordering) -> $t { match self.compare_exchange(c, n, a, a) { Ok(x) | Err(x) => x } }
                pub fn fetch_update(&self, _: Ordering, _: Ordering, mut f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                    let o = self.get();
                    match f(o) { Some(n) => { self.update(o, n); Ok(o) } None => Err(o) }
                }
                pub fn fetch_or(&self, v: $t, _: Ordering) -> $t { let o = self.get(); self.update(o, o | v); o }
                pub fn fetch_and(&self, v: $t, _: Ordering) -> $t { let o = self.get(); self.update(o, o & v); o }
                pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t { let o = self.get(); self.update(o, o ^ v); o }
            }
        )* } }
        atomics! {
            AtomicBool bool; AtomicU8 u8; AtomicI8 i8; AtomicU16 u16; AtomicI16 i16; AtomicU32 u32; AtomicI32 i32;
            AtomicU64 u64; AtomicI64 i64; AtomicUsize usize; AtomicIsize isize;
        }
        macro_rules! arith { ($($name:ident $t:ty;)*) => { $( impl $name {
            pub fn fetch_add(&self, v: $t, _: Ordering) -> $t { let o = self.get(); self.update(o, o.wrapping_add(v)); o }
            pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t { let o = self.get(); self.update(o, o.wrapping_sub(v)); o }
            pub fn fetch_max(&self, v: $t, _: Ordering) -> $t { let o = self.get(); self.update(o, if v > o { v } else { o }); o }
            pub fn fetch_min(&self, v: $t, _: Ordering) -> $t { let o = self.get(); self.update(o, if v < o { v } else { o }); o }
        } )* } }
        arith! {
            AtomicU8 u8; AtomicI8 i8; AtomicU16 u16; AtomicI16 i16; AtomicU32 u32; AtomicI32 i32; AtomicU64 u64; AtomicI64 i64;
            AtomicUsize usize; AtomicIsize isize;
        }
    }
}

/// Writes by other threads.
pub mod interfere {
    const N: usize = 6;
    struct State {
        tag: [u64; 2],
        capture: bool,
        broken: bool,
        n: u8,
        done: u8,
        addr: [*mut u8; N],
        val: [u64; N],
        size: [u8; N],
        /// the value an atomic read-modify-write has read
        old: [Option<u64>; N],
        /// how many of the pending writes happen before each access from now on
        steps: [u8; 12],
        at: u8,
    }
    static mut S: State = State {
        tag: [0x55d1_07be_39a2_c86f, 0x93c4_e81b_0d6f_2a75],
        capture: false,
        broken: false,
        n: 0,
        done: 0,
        addr: [::core::ptr::null_mut(); N],
        val: [0; N],
        size: [0; N],
        old: [None; N],
        steps: [0; 12],
        at: 0,
    };
    fn s() -> &'static mut State {
        unsafe { &mut *(&raw mut S) }
    }
    pub fn capturing() -> bool {
        s().capture
    }
    /// From here on stores become pending (`on`), or happen at once again.
    pub fn capture(on: bool) {
        s().capture = on;
    }
    pub fn pend(a: *mut u8, v: u64, size: u8, old: Option<u64>) {
        let s = s();
        assert!((s.n as usize) < N, "HARNESS_BOUND: pending writes");
        s.addr[s.n as usize] = a;
        let mask = if size == 8 { u64::MAX } else { (1 << (8 * size)) - 1 };
        s.val[s.n as usize] = v & mask;
        s.size[s.n as usize] = size;
        s.old[s.n as usize] = match old {
            Some(o) => Some(o & mask),
            None => None,
        };
        s.n += 1;
    }
    /// While capturing, the thread sees its own pending stores.
    pub fn pended(a: *mut u8) -> Option<u64> {
        let s = s();
        if !s.capture {
            return None;
        }
        let mut r = None;
        let mut i = 0;
        while i < N {
            if i < s.n as usize && i >= s.done as usize && s.addr[i] == a {
                r = Some(s.val[i]);
            }
            i += 1;
        }
        r
    }
    /// Whether this is not a real interleaving: an atomic read-modify-write of the other
    /// thread happened when the value was no longer the one it had read.
    pub fn broken() -> bool {
        s().broken
    }
    /// How many stores are pending or done.
    pub fn pending() -> u8 {
        s().n
    }
    /// How many of them have happened.
    pub fn done() -> u8 {
        s().done
    }
    /// Before the i-th access from now on, steps[i] of the pending writes happen.
    pub fn schedule(steps: [u8; 12]) {
        s().steps = steps;
        s().at = 0;
    }
    #[inline]
    pub fn before() {
        let s = s();
        if s.capture || s.n == s.done {
            return;
        }
        let k = if s.at < 12 { s.steps[s.at as usize] } else { 0 };
        s.at = s.at.saturating_add(1);
        let mut i = 0;
        while i < N as u8 {
            if i < k && s.done < s.n {
                let d = s.done as usize;
                unsafe {
                    let a = s.addr[d];
                    let now = match s.size[d] {
                        1 => *a as u64,
                        2 => *(a as *mut u16) as u64,
                        4 => *(a as *mut u32) as u64,
                        _ => *(a as *mut u64),
                    };
                    match s.old[d] {
                        Some(o) if o != now => s.broken = true,
                        _ => {}
                    }
                    match s.size[d] {
                        1 => *a = s.val[d] as u8,
                        2 => *(a as *mut u16) = s.val[d] as u16,
                        4 => *(a as *mut u32) = s.val[d] as u32,
                        _ => *(a as *mut u64) = s.val[d],
                    }
                }
                s.done += 1;
            }
            i += 1;
        }
    }
}
