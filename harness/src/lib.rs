//! Harnesses for the properties in /verif/properties.jsonl. The same functions are
//! proof harnesses under Kani and ordinary functions in the native replay binary.
#![allow(clippy::all)]
#![feature(formatting_options)]
pub mod env;
#[macro_use]
pub mod nd;
#[macro_use]
mod n256;
#[macro_use]
pub mod csstable;
pub mod gen;
pub mod sink;
pub mod bytes;
pub mod text;
pub mod want;

/// Stand-in for `core::str::from_utf8` under the solver: the crate only ever
/// formats ASCII, for which this is exact; anything else is reported.
#[cfg(kani)]
pub fn stub_from_utf8(b: &[u8]) -> Result<&str, core::str::Utf8Error> {
    let n = b.len();
    assert!(n <= 24, "HARNESS_BOUND: from_utf8 on a long slice");
    let mut ascii = true;
    macro_rules! c { ($($i:literal)*) => { $( if $i < n { ascii &= b[$i] < 128; } )* } }
    c!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23);
    assert!(ascii, "non-ASCII bytes passed to from_utf8");
    Ok(unsafe { core::str::from_utf8_unchecked(b) })
}

pub struct Entry {
    pub name: &'static str,
    pub run: fn(),
}

macro_rules! modules {
    ($($feat:literal $m:ident),* $(,)?) => {
        $( #[cfg(feature = $feat)] pub mod $m; )*
        pub fn all() -> Vec<(String, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(String, fn())> = Vec::new();
            $( #[cfg(feature = $feat)] for (n, f) in $m::ALL { v.push((format!("{}::k::{}", stringify!($m), n), *f)); } )*
            v
        }
    };
}
modules! {
    "c01" c01,     "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08,
    "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16,
    "c17" c17, "c18" c18, "c19" c19, "c20" c20, "c21" c21, "c22" c22, "c23" c23, "c24" c24,
    "c25" c25,
}
