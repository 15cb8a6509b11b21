//! C18: type erasure preserves colours and styles.
use crate::gen::*;
use crate::nd;
use crate::text::*;
use colorz::ansi::{self, AnsiColor};
use colorz::css::{self, CssColor};
use colorz::mode::ColorKind;
use colorz::rgb::{Rgb, RgbColor};
use colorz::xterm::XtermColor;
use colorz::{Color, ColorSpec, ComptimeColor, NoColor, OptionalColor, Style, WriteColor};

type O = Option<Color>;
/// A single-kind runtime colour as the generic one.
fn runtime<C: WriteColor + Into<Color> + Into<O> + OptionalColor<Color = C> + PartialEq>(c: C, want: Color, kind: ColorKind) {
    let g: Color = c.into();
    let o: O = c.into();
    assert!(g == want, "as the generic colour");
    assert!(o == Some(want), "as an optional colour");
    assert!(WriteColor::color_kind(c) == kind, "kind");
    assert!(WriteColor::color_kind(g) == kind, "kind of the generic colour");
    assert!(OptionalColor::color_kind(o) == kind, "kind of the optional colour");
    assert!(c.get().is_some_and(|x| x == c), "colour of the colour");
    assert!(o.get() == Some(want), "colour of the optional colour");
}
/// A compile-time colour as the runtime ones, by every conversion: the first one
/// that is wrong. (Every comparison is between constants.)
#[inline(always)]
fn comptime<C>(c: C, konst: C::Dynamic, d: C::Dynamic, want: Color, kind: ColorKind) -> u8
where
    C: ColorSpec + ComptimeColor + Into<Color> + Into<O> + Into<C::Dynamic>,
    C::Dynamic: PartialEq,
{
    let (from, color, option): (C::Dynamic, Color, O) = (c.into(), c.into(), c.into());
    if from != d {
        1
    } else if c.into_dynamic() != d {
        2
    } else if konst != d {
        3
    } else if color != want {
        4
    } else if option != Some(want) {
        5
    } else if C::VALUE != Some(want) {
        6
    } else if C::KIND != kind {
        7
    } else if WriteColor::color_kind(c) != kind {
        8
    } else {
        0
    }
}
fn right(fault: u8) {
    assert!(fault != 1, "From as its runtime colour");
    assert!(fault != 2, "into_dynamic as its runtime colour");
    assert!(fault != 3, "DYNAMIC as its runtime colour");
    assert!(fault != 4, "as the generic colour");
    assert!(fault != 5, "as an optional colour");
    assert!(fault != 6, "as a constant");
    assert!(fault != 7 && fault != 8, "kind");
}
macro_rules! ansi_rows {
    ($($n:ident)*) => {
        fn comptime_ansi(c: AnsiColor) {
            right(match c { $( AnsiColor::$n => comptime(ansi::$n, ansi::$n::DYNAMIC, AnsiColor::$n, Color::Ansi(AnsiColor::$n), ColorKind::Ansi), )* })
        }
        /// the text of the compile-time colour
        fn ansi_str(c: AnsiColor, layer: usize, escape: bool) -> &'static str {
            match c { $( AnsiColor::$n => spec_str(ansi::$n, layer, escape), )* }
        }
        /// writes the compile-time colour
        fn ansi_writes(c: AnsiColor, layer: usize, escape: bool) -> Text {
            written(|f| match c { $( AnsiColor::$n => write(ansi::$n, layer, escape, f), )* })
        }
    };
}
ansi_rows! {
    Black Red Green Yellow Blue Magenta Cyan White BrightBlack BrightRed BrightGreen BrightYellow BrightBlue BrightMagenta BrightCyan
    BrightWhite Default
}
macro_rules! css_rows {
    ($($n:ident $v:tt)*) => {
        const CSS: &[CssColor; 147] = &[$(CssColor::$n),*];
        fn comptime_css(n: usize) {
            let faults = [$( comptime(css::$n, css::$n::DYNAMIC, CssColor::$n, Color::Css(CssColor::$n), ColorKind::Rgb) ),*];
            right(faults[n]);
            let rgb = [$( css::$n::RGB.into_dynamic() ),*][n];
            let c = CSS[n];
            assert!(c.rgb() == rgb && RgbColor::from(c) == rgb, "RGB value");
        }
        fn css_str(c: CssColor, layer: usize, escape: bool) -> &'static str {
            match c { $( CssColor::$n => spec_str(css::$n, layer, escape), )* }
        }
        #[cfg(feature = "thorough")]
        fn css_writes(c: CssColor, layer: usize, escape: bool) -> Text {
            written(|f| match c { $( CssColor::$n => write(css::$n, layer, escape, f), )* })
        }
    };
}
for_css!(css_rows);
// (every colour in the thorough tier)
#[cfg(not(feature = "thorough"))]
fn css_writes(c: CssColor, layer: usize, escape: bool) -> Text {
    macro_rules! rows {
        ($($n:ident)*) => { written(|f| match c { $( CssColor::$n => write(css::$n, layer, escape, f), )* c => write(c, layer, escape, f) }) };
    }
    rows!(AliceBlue Black Cornsilk Crimson DarkGray Fuchsia Gold HotPink Lime Navy Red Tomato White YellowGreen)
}
macro_rules! xterm_rows {
    ($($i:tt)*) => {
        fn comptime_xterm(n: u8) {
            // (computed for all before one is picked: merging the arms of a match is quadratic)
            let faults = [$( {
                const C: XtermColor = XtermColor::from_code($i);
                comptime(colorz::xterm_from_code!($i), <colorz::xterm_from_code!($i)>::DYNAMIC, C, Color::Xterm(C), ColorKind::Xterm)
            } ),*];
            right(faults[n as usize])
        }
        fn xterm_str(n: u8, layer: usize, escape: bool) -> &'static str {
            match n { $( $i => spec_str(colorz::xterm_from_code!($i), layer, escape), )* }
        }
        #[cfg(feature = "thorough")]
        fn xterm_writes(n: u8, layer: usize, escape: bool) -> Text {
            written(|f| match n { $( $i => write(colorz::xterm_from_code!($i), layer, escape, f), )* })
        }
    };
}
for256!(xterm_rows);
#[cfg(not(feature = "thorough"))]
fn xterm_writes(n: u8, layer: usize, escape: bool) -> Text {
    macro_rules! rows {
        ($($i:tt)*) => { written(|f| match n { $( $i => write(colorz::xterm_from_code!($i), layer, escape, f), )* n => write(XtermColor::from_code(n), layer, escape, f) }) };
    }
    rows!(0 1 7 8 15 16 17 46 99 100 127 128 196 231 232 255)
}

fn rgb_at<const R: u8, const G: u8, const B: u8>() {
    let c = RgbColor { red: R, green: G, blue: B };
    right(comptime(Rgb::<R, G, B>, Rgb::<R, G, B>::DYNAMIC, c, Color::Rgb(c), ColorKind::Rgb))
}
fn any_layer() -> (usize, bool) {
    (nd::below(3) as usize, nd::bool())
}
/// The colour and the generic colour write the same.
fn erased<C: WriteColor + Into<Color>>(c: C, layer: usize, escape: bool) {
    same(&writes(c.into(), layer, escape), &writes(c, layer, escape), "the generic colour writes the same");
}
fn erased_any<C: WriteColor + Into<Color>>(c: C) {
    let (l, e) = any_layer();
    match (l, e) {
        (FG, false) => erased(c, FG, false),
        (BG, false) => erased(c, BG, false),
        (UL, false) => erased(c, UL, false),
        (FG, true) => erased(c, FG, true),
        (BG, true) => erased(c, BG, true),
        _ => erased(c, UL, true),
    }
}
fn any_rgb() -> RgbColor {
    RgbColor { red: nd::u8(), green: nd::u8(), blue: nd::u8() }
}
/// Any colour of any kind.
fn any_color() -> Color {
    let (a, x, c, r) = (nd::below(17), nd::u8(), nd::below(147), any_rgb());
    match nd::below(4) {
        0 => Color::Ansi(ANSI[a as usize]),
        1 => Color::Xterm(XtermColor::from_code(x)),
        2 => Color::Css(CSS[c as usize]),
        _ => Color::Rgb(r),
    }
}
fn style<F: Into<O> + OptionalColor, B: Into<O> + OptionalColor, U: Into<O> + OptionalColor>(f: F, b: B, u: U, want: [O; 3]) {
    let mask = any_mask();
    let s = Style::new().fg(f).bg(b).underline_color(u).effect_flags(flags(mask)).into_runtime_style();
    check_style(s, mask, want);
}
fn check_style(s: Style, mask: u16, want: [O; 3]) {
    assert!(s.foreground == want[0], "foreground");
    assert!(s.background == want[1], "background");
    assert!(s.underline_color == want[2], "underline colour");
    assert!(mask_of(s.effects) == mask && s.effects == flags(mask), "effects");
}
fn konst<F: ComptimeColor + OptionalColor, B: ComptimeColor + OptionalColor, U: ComptimeColor + OptionalColor>(f: F, b: B, u: U, want: [O; 3]) {
    let mask = any_mask();
    let s = Style::new().fg(f).bg(b).underline_color(u).effect_flags(flags(mask)).const_into_runtime_style();
    check_style(s, mask, want);
}

macro_rules! encodings {
    ($($n:ident $rt:ident $l:ident $e:literal;)*) => { $(
        mod $n {
            use super::*;
            /// compile-time and runtime colours of a name have and write the same text
            pub fn css() {
                let c = CSS[nd::below(147) as usize];
                let got = if nd::bool() { text(css_str(c, $l, $e)) } else { css_writes(c, $l, $e) };
                same(&got, &writes(c, $l, $e), "the compile-time colour writes the same");
            }
            pub fn xterm() {
                let n = nd::u8();
                let got = if nd::bool() { text(xterm_str(n, $l, $e)) } else { xterm_writes(n, $l, $e) };
                same(&got, &writes(XtermColor::from_code(n), $l, $e), "the compile-time colour writes the same");
            }
            pub fn ansi() {
                let c = ANSI[nd::below(17) as usize];
                let got = if nd::bool() { text(ansi_str(c, $l, $e)) } else { ansi_writes(c, $l, $e) };
                same(&got, &writes(c, $l, $e), "the compile-time colour writes the same");
            }
            pub fn erased() {
                if nd::bool() {
                    super::erased(XtermColor::from_code(nd::u8()), $l, $e)
                } else {
                    super::erased(CSS[nd::below(147) as usize], $l, $e)
                }
            }
        }
    )* };
}
encodings! {
    fa r FG false; ba r BG false; ua r UL false; fe r FG true; be r BG true; ue r UL true;
}
macro_rules! all {
    ($($n:ident $e:expr;)*) => { harnesses! { $(
        #[kani::unwind(21)]
        #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
        fn $n() { $e }
    )* } };
}
all! {
    runtime_ansi { let c = ANSI[nd::below(17) as usize]; runtime(c, Color::Ansi(c), ColorKind::Ansi) };
    runtime_xterm { let c = XtermColor::from_code(nd::u8()); runtime(c, Color::Xterm(c), ColorKind::Xterm) };
    runtime_css { let c = CSS[nd::below(147) as usize]; runtime(c, Color::Css(c), ColorKind::Rgb) };
    runtime_rgb { let c = any_rgb(); runtime(c, Color::Rgb(c), ColorKind::Rgb) };
    constants_ansi comptime_ansi(ANSI[nd::below(17) as usize]);
    constants_css comptime_css(nd::below(147) as usize);
    constants_xterm comptime_xterm(nd::u8());
    constants_rgb match nd::below(4) { 0 => rgb_at::<0, 0, 0>(), 1 => rgb_at::<1, 20, 255>(), 2 => rgb_at::<255, 7, 99>(), _ => rgb_at::<100, 200, 9>() };
    no_color {
        let o: O = NoColor.into();
        assert!(o.is_none() && NoColor::VALUE.is_none() && NoColor.get().is_none(), "no colour is no colour");
        assert!(OptionalColor::color_kind(NoColor) == ColorKind::NoColor && OptionalColor::color_kind(o) == ColorKind::NoColor, "kind");
    };
    ansi_fg_args fa::ansi(); ansi_bg_args ba::ansi(); ansi_ul_args ua::ansi();
    ansi_fg_escape fe::ansi(); ansi_bg_escape be::ansi(); ansi_ul_escape ue::ansi();
    css_fg_args fa::css(); css_bg_args ba::css(); css_ul_args ua::css();
    css_fg_escape fe::css(); css_bg_escape be::css(); css_ul_escape ue::css();
    xterm_fg_args fa::xterm(); xterm_bg_args ba::xterm(); xterm_ul_args ua::xterm();
    xterm_fg_escape fe::xterm(); xterm_bg_escape be::xterm(); xterm_ul_escape ue::xterm();
    erased_fg_args fa::erased(); erased_bg_args ba::erased(); erased_ul_args ua::erased();
    erased_fg_escape fe::erased(); erased_bg_escape be::erased(); erased_ul_escape ue::erased();
    erased_ansi erased_any(ANSI[nd::below(17) as usize]);
    erased_rgb erased_any(any_rgb());
    style_generic { let (f, b, u) = (any_color(), any_color(), any_color()); style(f, b, u, [Some(f), Some(b), Some(u)]) };
    style_optional {
        let (f, b, u) = (any_color(), any_color(), any_color());
        let (f, b, u) = (if nd::bool() { Some(f) } else { None }, if nd::bool() { Some(b) } else { None }, if nd::bool() { Some(u) } else { None });
        style(f, b, u, [f, b, u])
    };
    style_kinds {
        let (a, x, r) = (ANSI[nd::below(17) as usize], XtermColor::from_code(nd::u8()), any_rgb());
        style(a, x, r, [Some(Color::Ansi(a)), Some(Color::Xterm(x)), Some(Color::Rgb(r))])
    };
    style_css { let c = CSS[nd::below(147) as usize]; style(NoColor, c, ansi::Red, [None, Some(Color::Css(c)), Some(Color::Ansi(AnsiColor::Red))]) };
    style_constants style(css::Tomato, Rgb::<1, 2, 3>, NoColor, [Some(Color::Css(CssColor::Tomato)), Some(rgb(1, 2, 3).color), None]);
    const_style konst(css::Tomato, Rgb::<1, 2, 3>, NoColor, [Some(Color::Css(CssColor::Tomato)), Some(rgb(1, 2, 3).color), None]);
    const_style_turned konst(NoColor, ansi::Cyan, colorz::xterm::Fuchsia, [None, Some(Color::Ansi(AnsiColor::Cyan)), Some(Color::Xterm(XtermColor::Fuchsia))]);
    const_style_again konst(colorz::xterm::Fuchsia, NoColor, ansi::Cyan, [Some(Color::Xterm(XtermColor::Fuchsia)), None, Some(Color::Ansi(AnsiColor::Cyan))]);
}
