//! Expected text of colours.
use crate::sink::*;
use colorz::{ColorSpec, WriteColor};
use core::fmt::{self, Formatter};

pub type Text = Buf<{ words(4) }>;
pub const fn text(s: &str) -> Text {
    let mut e = Text::new();
    e.push(s.as_bytes());
    e
}
/// What `f` writes to a working sink.
pub fn written(f: impl FnOnce(&mut Formatter<'_>) -> fmt::Result) -> Text {
    let mut b = Text::new();
    assert!(with_fmt(&mut b, f), "writing failed on a working sink");
    b
}
pub fn same(got: &Text, want: &Text, what: &'static str) {
    assert!(!got.over, "HARNESS_BOUND: text");
    assert!(got.eq(want), "{}", what);
}

/// The arguments of a colour, for foreground, background and underline.
#[derive(Clone, Copy)]
pub struct Args(pub [Text; 3]);
const fn dec(h: &str, n: u8) -> Text {
    let mut t = text(h);
    t.push_dec(n);
    t
}
const fn triple(h: &str, r: u8, g: u8, b: u8) -> Text {
    let mut t = text(h);
    t.push_dec(r);
    t.push(b";");
    t.push_dec(g);
    t.push(b";");
    t.push_dec(b);
    t
}
impl Args {
    /// a colour of the 256-colour table
    pub const fn palette(n: u8) -> Args {
        Args([dec("38;5;", n), dec("48;5;", n), dec("58;5;", n)])
    }
    pub const fn rgb(r: u8, g: u8, b: u8) -> Args {
        Args([triple("38;2;", r, g, b), triple("48;2;", r, g, b), triple("58;2;", r, g, b)])
    }
    /// one of the sixteen basic colours, or (16) the default colour, whose
    /// underline form is not specified
    pub const fn ansi(i: u8) -> Args {
        let (f, b) = if i == 16 { (39, 49) } else if i >= 8 { (82 + i, 92 + i) } else { (30 + i, 40 + i) };
        Args([dec("", f), dec("", b), dec("58;5;", i)])
    }
    pub const fn escape(&self, layer: usize) -> Text {
        self.0[layer].framed()
    }
    pub const fn both(&self) -> [[Text; 3]; 2] {
        [self.0, [self.escape(0), self.escape(1), self.escape(2)]]
    }
}
pub const FG: usize = 0;
pub const BG: usize = 1;
pub const UL: usize = 2;

/// Writes a colour for a layer: arguments, or the whole sequence.
#[inline(always)]
pub fn write<C: WriteColor>(c: C, layer: usize, escape: bool, f: &mut Formatter<'_>) -> fmt::Result {
    match (layer, escape) {
        (FG, false) => c.fmt_foreground_args(f),
        (BG, false) => c.fmt_background_args(f),
        (UL, false) => c.fmt_underline_args(f),
        (FG, true) => c.fmt_foreground(f),
        (BG, true) => c.fmt_background(f),
        _ => c.fmt_underline(f),
    }
}
pub fn writes<C: WriteColor>(c: C, layer: usize, escape: bool) -> Text {
    written(|f| write(c, layer, escape, f))
}
/// Its constant text for a layer.
#[inline(always)]
pub fn spec_str<C: ColorSpec>(c: C, layer: usize, escape: bool) -> &'static str {
    match (layer, escape) {
        (FG, false) => c.foreground_args(),
        (BG, false) => c.background_args(),
        (UL, false) => c.underline_args(),
        (FG, true) => c.foreground_escape(),
        (BG, true) => c.background_escape(),
        _ => c.underline_escape(),
    }
}
pub fn spec<C: ColorSpec>(c: C, layer: usize, escape: bool) -> Text {
    text(spec_str(c, layer, escape))
}
/// Every writing method of `c` on the first `layers` layers.
#[inline(always)]
pub fn check_writes<C: WriteColor>(c: C, want: &[[Text; 3]; 2], layers: usize) {
    macro_rules! l { ($($l:literal)*) => { $( if $l < layers {
        same(&writes(c, $l, false), &want[0][$l], "arguments written");
        same(&writes(c, $l, true), &want[1][$l], "sequence written");
    } )* } }
    l!(0 1 2);
}
#[inline(always)]
pub fn check_spec<C: ColorSpec>(c: C, want: &[[Text; 3]; 2], layers: usize) {
    macro_rules! l { ($($l:literal)*) => { $( if $l < layers {
        same(&spec(c, $l, false), &want[0][$l], "arguments");
        same(&spec(c, $l, true), &want[1][$l], "sequence");
    } )* } }
    l!(0 1 2);
}
