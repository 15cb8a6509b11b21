//! Arbitrary values of the crate's types, with the terminal colour they must produce.
use crate::nd;
use crate::sink::*;
use colorz::ansi::AnsiColor;
use colorz::css::CssColor;
use colorz::rgb::RgbColor;
use colorz::xterm::XtermColor;
use colorz::{Color, Effect, EffectFlags, NoColor, OptionalColor};

pub const ANSI: [AnsiColor; 17] = {
    use AnsiColor::*;
    [
        Black, Red, Green, Yellow, Blue, Magenta, Cyan, White, BrightBlack, BrightRed, BrightGreen, BrightYellow,
        BrightBlue, BrightMagenta, BrightCyan, BrightWhite, Default,
    ]
};
pub const EFFECTS: [Effect; N_EFF] = {
    use Effect::*;
    [
        Bold, Dimmed, Italic, Underline, DoubleUnderline, Blink, BlinkFast, Reversed, Hidden, Strikethrough, Overline,
        SuperScript, SubScript,
    ]
};
pub const UNDERLINES: u16 = 0b11000;

/// A colour together with the terminal colour it stands for.
#[derive(Clone, Copy)]
pub struct C {
    pub color: Color,
    /// as foreground or background
    pub text: Shade,
    /// as underline colour
    pub line: Shade,
}
pub fn ansi(i: u8) -> C {
    C {
        color: Color::Ansi(ANSI[i as usize]),
        text: if i == 16 { DEFAULT } else { palette16(i) },
        line: palette256(i),
    }
}
pub fn xterm(i: u8) -> C {
    C { color: Color::Xterm(XtermColor::from_code(i)), text: palette256(i), line: palette256(i) }
}
pub fn rgb(r: u8, g: u8, b: u8) -> C {
    let v = rgb24(r, g, b);
    C { color: Color::Rgb(RgbColor { red: r, green: g, blue: b }), text: v, line: v }
}
pub fn css_pick(i: u8) -> C {
    let (c, v) = match i {
        0 => (CssColor::Tomato, rgb24(255, 99, 71)),
        1 => (CssColor::Black, rgb24(0, 0, 0)),
        _ => (CssColor::YellowGreen, rgb24(154, 205, 50)),
    };
    C { color: Color::Css(c), text: v, line: v }
}

/// What a colour slot of a style can hold.
pub trait Side {
    type T: OptionalColor + Copy;
    /// the value, and the colour it stands for if any; `line` excludes the ANSI
    /// default colour, whose underline form is not specified
    fn any(line: bool) -> (Self::T, Option<C>);
}
/// nothing (known at compile time)
pub struct N;
impl Side for N {
    type T = NoColor;
    fn any(_: bool) -> (NoColor, Option<C>) {
        (NoColor, None)
    }
}
/// an optional colour
pub struct M;
impl Side for M {
    type T = Option<RgbColor>;
    fn any(line: bool) -> (Option<RgbColor>, Option<C>) {
        let some = nd::bool();
        let (c, e) = RgbS::any(line);
        if some {
            (Some(c), e)
        } else {
            (None, None)
        }
    }
}
/// an optional optional colour
pub struct Nested;
impl Side for Nested {
    type T = Option<Option<RgbColor>>;
    fn any(line: bool) -> (Self::T, Option<C>) {
        let outer = nd::bool();
        let (c, e) = M::any(line);
        if outer {
            (Some(c), e)
        } else {
            (None, None)
        }
    }
}
/// runtime-typed colours, one type per kind of content
pub struct AnsiC;
impl Side for AnsiC {
    type T = Color;
    fn any(line: bool) -> (Color, Option<C>) {
        let c = ansi(nd::below(if line { 16 } else { 17 }));
        (c.color, Some(c))
    }
}
pub struct XtermC;
impl Side for XtermC {
    type T = Color;
    fn any(_: bool) -> (Color, Option<C>) {
        let c = xterm(207);
        (c.color, Some(c))
    }
}
pub struct CssC;
impl Side for CssC {
    type T = Color;
    fn any(_: bool) -> (Color, Option<C>) {
        let c = css_pick(0);
        (c.color, Some(c))
    }
}
pub struct RgbC;
impl Side for RgbC {
    type T = Color;
    fn any(_: bool) -> (Color, Option<C>) {
        let c = rgb(nd::u8(), nd::u8(), nd::u8());
        (c.color, Some(c))
    }
}
/// any AnsiColor (always there)
pub struct AnsiS;
impl Side for AnsiS {
    type T = AnsiColor;
    fn any(line: bool) -> (AnsiColor, Option<C>) {
        let i = nd::below(if line { 16 } else { 17 });
        (ANSI[i as usize], Some(ansi(i)))
    }
}
/// any RgbColor (always there)
pub struct RgbS;
impl Side for RgbS {
    type T = RgbColor;
    fn any(_: bool) -> (RgbColor, Option<C>) {
        let (r, g, b) = (nd::u8(), nd::u8(), nd::u8());
        (RgbColor { red: r, green: g, blue: b }, Some(rgb(r, g, b)))
    }
}
/// a compile-time colour
pub struct ZstS;
impl Side for ZstS {
    type T = colorz::ansi::Green;
    fn any(_: bool) -> (Self::T, Option<C>) {
        (colorz::ansi::Green, Some(ansi(2)))
    }
}
/// an optional compile-time colour
pub struct OptZstS;
impl Side for OptZstS {
    type T = Option<colorz::xterm::Fuchsia>;
    fn any(_: bool) -> (Self::T, Option<C>) {
        if nd::bool() {
            (Some(colorz::xterm::Fuchsia), Some(xterm(13)))
        } else {
            (None, None)
        }
    }
}

/// The flags holding exactly the effects of `mask`.
pub fn flags(mask: u16) -> EffectFlags {
    let mut e = EffectFlags::new();
    macro_rules! s { ($($i:literal)*) => { $( if mask & (1 << $i) != 0 { e = e.with(EFFECTS[$i]); } )* } }
    s!(0 1 2 3 4 5 6 7 8 9 10 11 12);
    e
}
/// The mask of the effects in `e`.
pub fn mask_of(e: EffectFlags) -> u16 {
    let mut m = 0;
    macro_rules! s { ($($i:literal)*) => { $( if e.is(EFFECTS[$i]) { m |= 1 << $i; } )* } }
    s!(0 1 2 3 4 5 6 7 8 9 10 11 12);
    m
}
/// Any set of effects.
pub fn any_mask() -> u16 {
    nd::u16() & 0x1fff
}
/// The effects an "off" code necessarily removes along with those of `mask`.
pub fn group(mask: u16) -> u16 {
    let mut m = 0;
    macro_rules! s { ($($i:literal)*) => { $( if mask & (1 << $i) != 0 { m |= GROUP[$i]; } )* } }
    s!(0 1 2 3 4 5 6 7 8 9 10 11 12);
    m
}
/// A terminal in any state between sequences.
pub fn any_term() -> Term {
    Term::new(nd::u32() as u64, nd::u32() as u64, nd::u32() as u64, any_mask())
}
