//! The environment of the `std` configuration: terminals and environment variables.
//!
//! Answers come from the tape (or the solver) at every call, so that the code under
//! test can be seen to ask more than once.
use crate::nd;
use core::sync::atomic::{AtomicU8, Ordering::Relaxed};

/// Not just a byte: see vcore about statics and constants in Kani.
pub struct Slot {
    tag: [u64; 2],
    v: AtomicU8,
}
impl Slot {
    pub const fn new(t: u64) -> Slot {
        Slot { tag: [0x6b1d_c05e_7f93_28a4, t], v: AtomicU8::new(255) }
    }
    pub fn get(&self) -> u8 {
        self.v.load(Relaxed)
    }
    pub fn set(&self, v: u8) {
        self.v.store(v, Relaxed)
    }
}
/// The first answer given for each descriptor, 255 if it was never asked for.
pub static FIRST: [Slot; 3] = [Slot::new(0x1101), Slot::new(0x2202), Slot::new(0x3303)];

/// Answers that stay the same, 255 if every call has its own.
pub static FIXED: [Slot; 3] = [Slot::new(0x4104), Slot::new(0x5205), Slot::new(0x6306)];

pub fn terminal(fd: usize) -> bool {
    let f = FIXED[fd].get();
    let a = if f == 255 { nd::bool() } else { f == 1 };
    let s = &FIRST[fd];
    if s.get() == 255 {
        s.set(a as u8);
    }
    a
}
#[cfg(not(kani))]
pub fn isatty(fd: i32) -> i32 {
    if (0..3).contains(&fd) {
        terminal(fd as usize) as i32
    } else {
        0
    }
}
macro_rules! stubs { ($($n:ident $t:ty, $fd:literal;)*) => { $( pub fn $n(_: &$t) -> bool { terminal($fd) } )* } }
stubs! {
    stdin std::io::Stdin, 0;
    stdout std::io::Stdout, 1;
    stderr std::io::Stderr, 2;
}
// (`where 'a: 'a` makes the lifetime a parameter of the item, as it is of the impl)
pub fn stdout_lock<'a>(_: &std::io::StdoutLock<'a>) -> bool
where
    'a: 'a,
{
    terminal(1)
}
pub fn stderr_lock<'a>(_: &std::io::StderrLock<'a>) -> bool
where
    'a: 'a,
{
    terminal(2)
}
