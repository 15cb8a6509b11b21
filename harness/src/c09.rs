//! C09: environment variables set the mode as documented.
use crate::nd;
use crate::want::dec::*;
use colorz::mode::{get_coloring_mode, get_default_stream, set_coloring_mode, set_coloring_mode_from_env, set_default_stream, Mode};
#[cfg(kani)]
use std::ffi::{OsStr, OsString};
#[cfg(kani)]
use std::os::unix::ffi::{OsStrExt, OsStringExt};

const NAMES: [&str; 4] = ["NO_COLOR", "ALWAYS_COLOR", "CLICOLOR_FORCE", "FORCE_COLOR"];

/// A variable: unset, or any value of up to `N` bytes.
const N: usize = if cfg!(feature = "thorough") { 16 } else { 8 };
#[derive(Clone, Copy)]
struct Var {
    set: bool,
    len: u8,
    b: [u8; N],
}
impl Var {
    fn any() -> Var {
        let set = nd::bool();
        let len = nd::below(N as u8 + 1);
        let mut b = [0; N];
        for x in &mut b {
            *x = nd::u8();
            nd::assume(*x != 0);
        }
        Var { set, len, b }
    }
    /// set to anything but 0
    fn on(&self) -> bool {
        self.set && !(self.len == 1 && self.b[0] == b'0')
    }
}
#[cfg(kani)]
struct Env {
    tag: [u64; 2],
    vars: [Var; 4],
}
#[cfg(kani)]
static mut ENV: Env = Env { tag: [0x0f5a_77c1_be22_9d43, 0x81d6_4ce0_2b97_f35e], vars: [Var { set: false, len: 0, b: [1; N] }; 4] };

#[cfg(kani)]
fn is(k: &[u8], n: &str) -> bool {
    let n = n.as_bytes();
    let mut same = k.len() == n.len();
    let mut i = 0;
    while i < 14 {
        same &= i >= n.len() || i >= k.len() || k[i] == n[i];
        i += 1;
    }
    same
}
/// The environment: the four variables as chosen, anything for any other name.
#[cfg(kani)]
pub fn var_os<K: AsRef<OsStr>>(key: K) -> Option<OsString> {
    let k = key.as_ref().as_bytes();
    let vars = unsafe { ENV.vars };
    let v = if is(k, NAMES[0]) {
        vars[0]
    } else if is(k, NAMES[1]) {
        vars[1]
    } else if is(k, NAMES[2]) {
        vars[2]
    } else if is(k, NAMES[3]) {
        vars[3]
    } else {
        Var::any()
    };
    if !v.set {
        return None;
    }
    let mut b = Vec::from(v.b);
    b.truncate(v.len as usize);
    Some(OsString::from_vec(b))
}
#[cfg(kani)]
fn install(vars: [Var; 4]) {
    unsafe { ENV.vars = vars }
}
#[cfg(not(kani))]
fn install(vars: [Var; 4]) {
    use std::os::unix::ffi::OsStrExt;
    for (n, v) in NAMES.iter().zip(vars) {
        if v.set {
            std::env::set_var(n, std::ffi::OsStr::from_bytes(&v.b[..v.len as usize]));
        } else {
            std::env::remove_var(n);
        }
    }
}
#[cfg(kani)]
pub fn var<K: AsRef<OsStr>>(key: K) -> Result<String, std::env::VarError> {
    match var_os(key) {
        None => Err(std::env::VarError::NotPresent),
        Some(v) => v.into_string().map_err(std::env::VarError::NotUnicode),
    }
}
/// Stand-in for `core::str::from_utf8`, exact for the values the environment can have.
#[cfg(kani)]
pub fn from_utf8(b: &[u8]) -> Result<&str, core::str::Utf8Error> {
    let n = b.len();
    assert!(n <= N, "HARNESS_BOUND: from_utf8 on a long value");
    // (Unicode 15, table 3-7: `left` bytes of the current character remain, the next in lo..=hi)
    let (mut ok, mut left, mut lo, mut hi) = (true, 0, 0x80, 0xbf);
    for i in 0..N {
        if i < n {
            let x = b[i];
            if left > 0 {
                ok &= lo <= x && x <= hi;
                left -= 1;
                (lo, hi) = (0x80, 0xbf);
            } else if x >= 0x80 {
                ok &= 0xc2 <= x && x <= 0xf4;
                left = if x < 0xe0 { 1 } else if x < 0xf0 { 2 } else { 3 };
                lo = if x == 0xe0 { 0xa0 } else if x == 0xf0 { 0x90 } else { 0x80 };
                hi = if x == 0xed { 0x9f } else if x == 0xf4 { 0x8f } else { 0xbf };
            }
        }
    }
    let ok = ok && left == 0;
    if ok {
        Ok(unsafe { core::str::from_utf8_unchecked(b) })
    } else {
        match core::str::from_utf8_mut(&mut [0xff]) {
            Err(e) => Err(e),
            Ok(_) => unreachable!(),
        }
    }
}
fn any_env() -> Option<Mode> {
    let vars = [Var::any(), Var::any(), Var::any(), Var::any()];
    install(vars);
    if vars[0].on() {
        Some(Mode::Never)
    } else if vars[1].on() || vars[2].on() || vars[3].on() {
        Some(Mode::Always)
    } else {
        None
    }
}

harnesses! {
    #[kani::unwind(18)]
    #[kani::stub(std::env::var_os, super::var_os)]
    #[kani::stub(std::env::var, super::var)]
    #[kani::stub(core::str::from_utf8, super::from_utf8)]
    fn from_env() {
        let want = any_env();
        assert!(Mode::from_env() == want, "mode from the environment");
    }
    #[kani::unwind(18)]
    #[kani::stub(std::env::var_os, super::var_os)]
    #[kani::stub(std::env::var, super::var)]
    #[kani::stub(core::str::from_utf8, super::from_utf8)]
    fn set_from_env() {
        let want = any_env();
        let before = any_mode();
        let stream = any_stream();
        set_coloring_mode(before);
        set_default_stream(stream);
        set_coloring_mode_from_env();
        let w = if cfg!(feature = "strip-colors") { Mode::Never } else { want.unwrap_or(before) };
        assert!(get_coloring_mode() == w, "mode set from the environment");
        assert!(get_default_stream() == stream, "the default stream is left alone");
    }
}
