//! Nondeterminism. Under Kani every `any_*` is a fresh symbolic value; natively
//! it is the next bytes of a tape (a solver counterexample or a seeded stream).

#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u16() -> u16 {
        kani::any()
    }
    pub fn u32() -> u32 {
        kani::any()
    }
    pub fn bool() -> bool {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    pub fn reach() {}
}

#[cfg(not(kani))]
mod imp {
    use std::cell::{Cell, RefCell};
    thread_local! {
        static TAPE: RefCell<(Vec<u8>, usize)> = const { RefCell::new((Vec::new(), 0)) };
        static SHORT: Cell<bool> = const { Cell::new(false) };
        static REACHED: Cell<bool> = const { Cell::new(false) };
    }
    pub struct AssumeFailed;
    pub fn load(t: Vec<u8>) {
        TAPE.with(|x| *x.borrow_mut() = (t, 0));
        SHORT.with(|x| x.set(false));
        REACHED.with(|x| x.set(false));
    }
    pub fn ran_short() -> bool {
        SHORT.with(|x| x.get())
    }
    pub fn reached() -> bool {
        REACHED.with(|x| x.get())
    }
    pub fn consumed() -> Vec<u8> {
        TAPE.with(|x| {
            let t = x.borrow();
            t.0[..t.1.min(t.0.len())].to_vec()
        })
    }
    pub fn u8() -> u8 {
        TAPE.with(|x| {
            let mut t = x.borrow_mut();
            let i = t.1;
            t.1 += 1;
            if i < t.0.len() {
                t.0[i]
            } else {
                SHORT.with(|s| s.set(true));
                0
            }
        })
    }
    pub fn u16() -> u16 {
        u16::from_le_bytes([u8(), u8()])
    }
    pub fn u32() -> u32 {
        u32::from_le_bytes([u8(), u8(), u8(), u8()])
    }
    pub fn bool() -> bool {
        u8() & 1 != 0
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(AssumeFailed)
        }
    }
    pub fn reach() {
        REACHED.with(|x| x.set(true));
    }
}

pub use imp::*;

/// An arbitrary value below `n`. Natively the tape byte is folded into range so
/// that seeded tapes are not mostly rejected; solver tapes are in range already.
pub fn below(n: u8) -> u8 {
    let v = u8();
    #[cfg(kani)]
    assume(v < n);
    #[cfg(not(kani))]
    let v = if v < n { v } else { v % n };
    v
}

/// Declares the harnesses of a property module: each is an ordinary function (so
/// that it can be replayed natively) and a Kani proof with a reachability witness.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$a:meta])* fn $name:ident() $body:block )*) => {
        $( #[allow(unused)] pub fn $name() { (|| $body)(); $crate::nd::reach(); } )*
        #[cfg(kani)]
        pub mod k {
            #[allow(unused_imports)]
            use super::*;
            $( $(#[$a])* #[kani::proof] fn $name() { super::$name(); kani::cover!(true, "reach"); } )*
        }
        #[allow(unused)]
        pub const ALL: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
