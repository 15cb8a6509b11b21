//! C21: builder methods change exactly what they name.
use crate::gen::*;
use crate::nd;
use crate::want::dec::*;
use colorz::mode::Stream;
use colorz::{ansi, Color, Colorize, Effect, Style, StyledValue};

type O = Option<Color>;
/// Any optional colour, of any kind.
fn any_color() -> O {
    let i = nd::below(17);
    let (r, g, b) = (nd::u8(), nd::u8(), nd::u8());
    match nd::below(5) {
        0 => None,
        1 => Some(Color::Ansi(ANSI[i as usize])),
        2 => Some(xterm(100).color),
        3 => Some(css_pick(i % 3).color),
        _ => Some(rgb(r, g, b).color),
    }
}
/// What a styled value must hold.
#[derive(Clone, Copy)]
struct W {
    value: u32,
    fg: O,
    bg: O,
    ul: O,
    mask: u16,
    stream: Option<Stream>,
}
fn plain(value: u32) -> W {
    W { value, fg: None, bg: None, ul: None, mask: 0, stream: None }
}
fn any_value() -> (StyledValue<u32, O, O, O>, W) {
    let w = W { value: nd::u32(), fg: any_color(), bg: any_color(), ul: any_color(), mask: any_mask(), stream: any_stream_opt() };
    let style = Style::new().fg(w.fg).bg(w.bg).underline_color(w.ul).effect_flags(flags(w.mask));
    (StyledValue::new(w.value, style, w.stream), w)
}
fn check_style<F: Into<O>, B: Into<O>, U: Into<O>>(s: Style<F, B, U>, w: W) {
    assert!(mask_of(s.effects) == w.mask, "effects");
    assert!(s.effects == flags(w.mask), "effects");
    assert!(s.foreground.into() == w.fg, "foreground");
    assert!(s.background.into() == w.bg, "background");
    assert!(s.underline_color.into() == w.ul, "underline color");
}
fn check<T: Val, F: Into<O>, B: Into<O>, U: Into<O>>(v: StyledValue<T, F, B, U>, w: W) {
    assert!(v.value.val() == w.value, "value");
    assert!(v.stream == w.stream, "stream");
    check_style(v.style, w);
}
trait Val {
    fn val(self) -> u32;
}
impl Val for u32 {
    fn val(self) -> u32 {
        self
    }
}
impl Val for &u32 {
    fn val(self) -> u32 {
        *self
    }
}
fn ansi(i: usize) -> O {
    Some(Color::Ansi(ANSI[i]))
}
fn any_effect() -> (u16, Effect) {
    let i = nd::below(13) as usize;
    (1 << i, EFFECTS[i])
}

macro_rules! colors {
    ($($i:literal $fun:ident $into:ident $on:ident $into_on:ident;)*) => {
        fn value_fg(i: u8, v: StyledValue<u32, O, O, O>, w: W) {
            match i { $( $i => check(v.$fun(), W { fg: ansi($i), ..w }), )* _ => {} }
        }
        fn value_bg(i: u8, v: StyledValue<u32, O, O, O>, w: W) {
            match i { $( $i => check(v.$on(), W { bg: ansi($i), ..w }), )* _ => {} }
        }
        fn plain_fg(i: u8, v: u32) {
            match i { $( $i => check(v.$fun(), W { fg: ansi($i), ..plain(v) }), )* _ => {} }
        }
        fn plain_bg(i: u8, v: u32) {
            match i { $( $i => check(v.$on(), W { bg: ansi($i), ..plain(v) }), )* _ => {} }
        }
        fn plain_into_fg(i: u8, v: u32) {
            match i { $( $i => check(v.$into(), W { fg: ansi($i), ..plain(v) }), )* _ => {} }
        }
        fn plain_into_bg(i: u8, v: u32) {
            match i { $( $i => check(v.$into_on(), W { bg: ansi($i), ..plain(v) }), )* _ => {} }
        }
    };
}
colors! {
    0 black into_black on_black into_on_black;
    1 red into_red on_red into_on_red;
    2 green into_green on_green into_on_green;
    3 yellow into_yellow on_yellow into_on_yellow;
    4 blue into_blue on_blue into_on_blue;
    5 magenta into_magenta on_magenta into_on_magenta;
    6 cyan into_cyan on_cyan into_on_cyan;
    7 white into_white on_white into_on_white;
    8 bright_black into_bright_black on_bright_black into_on_bright_black;
    9 bright_red into_bright_red on_bright_red into_on_bright_red;
    10 bright_green into_bright_green on_bright_green into_on_bright_green;
    11 bright_yellow into_bright_yellow on_bright_yellow into_on_bright_yellow;
    12 bright_blue into_bright_blue on_bright_blue into_on_bright_blue;
    13 bright_magenta into_bright_magenta on_bright_magenta into_on_bright_magenta;
    14 bright_cyan into_bright_cyan on_bright_cyan into_on_bright_cyan;
    15 bright_white into_bright_white on_bright_white into_on_bright_white;
}
macro_rules! effects {
    ($($i:literal $fun:ident $into:ident;)*) => {
        fn value_effect(i: u8, v: StyledValue<u32, O, O, O>, w: W) {
            match i { $( $i => check(v.$fun(), W { mask: w.mask | 1 << $i, ..w }), )* _ => {} }
        }
        fn style_effect(i: u8, s: Style<O, O, O>, w: W) {
            match i { $( $i => check_style(s.$fun(), W { mask: w.mask | 1 << $i, ..w }), )* _ => {} }
        }
        fn plain_effect(i: u8, v: u32) {
            match i { $( $i => check(v.$fun(), W { mask: 1 << $i, ..plain(v) }), )* _ => {} }
        }
        fn plain_into_effect(i: u8, v: u32) {
            match i { $( $i => check(v.$into(), W { mask: 1 << $i, ..plain(v) }), )* _ => {} }
        }
    };
}
effects! {
    0 bold into_bold;
    1 dimmed into_dimmed;
    2 italics into_italics;
    3 underline into_underline;
    4 double_underline into_double_underline;
    5 blink into_blink;
    6 blink_fast into_blink_fast;
    7 reverse into_reverse;
    8 hide into_hide;
    9 strikethrough into_strikethrough;
    10 overline into_overline;
    11 superscript into_superscript;
    12 subscript into_subscript;
}

harnesses! {
    #[kani::unwind(18)]
    fn value_colors() {
        let (v, w) = any_value();
        let i = nd::below(16);
        if nd::bool() { value_fg(i, v, w) } else { value_bg(i, v, w) }
    }
    #[kani::unwind(18)]
    fn value_effects() {
        let (v, w) = any_value();
        value_effect(nd::below(13), v, w)
    }
    #[kani::unwind(18)]
    fn value_slots() {
        let (v, w) = any_value();
        let c = any_color();
        let s = any_stream();
        let so = any_stream_opt();
        match nd::below(6) {
            0 => check(v.fg(c), W { fg: c, ..w }),
            1 => check(v.bg(c), W { bg: c, ..w }),
            2 => check(v.underline_color(c), W { ul: c, ..w }),
            3 => check(v.stream(s), W { stream: Some(s), ..w }),
            4 => check(v.stream_opt(so), W { stream: so, ..w }),
            _ => check(v, w),
        }
    }
    /// wrapping a styled value in another one
    #[kani::unwind(18)]
    fn value_wrapped() {
        let (v, w) = any_value();
        let a = v.style();
        check(*a.value, w);
        assert!(a.stream.is_none(), "stream");
        check_style(a.style, plain(0));
        let b = v.into_style();
        check(b.value, w);
        assert!(b.stream.is_none(), "stream");
        check_style(b.style, plain(0));
    }
    #[kani::unwind(18)]
    fn plain_colors() {
        let (i, v) = (nd::below(16), nd::u32());
        match nd::below(4) {
            0 => plain_fg(i, v),
            1 => plain_bg(i, v),
            2 => plain_into_fg(i, v),
            _ => plain_into_bg(i, v),
        }
    }
    #[kani::unwind(18)]
    fn plain_effects() {
        let (i, v) = (nd::below(13), nd::u32());
        if nd::bool() { plain_effect(i, v) } else { plain_into_effect(i, v) }
    }
    #[kani::unwind(18)]
    fn plain_slots() {
        let v = nd::u32();
        let c = any_color();
        match nd::below(8) {
            0 => check(v.fg(c), W { fg: c, ..plain(v) }),
            1 => check(v.bg(c), W { bg: c, ..plain(v) }),
            2 => check(v.underline_color(c), W { ul: c, ..plain(v) }),
            3 => check(v.into_fg(c), W { fg: c, ..plain(v) }),
            4 => check(v.into_bg(c), W { bg: c, ..plain(v) }),
            5 => check(v.into_underline_color(c), W { ul: c, ..plain(v) }),
            6 => check(v.style(), plain(v)),
            _ => check(v.into_style(), plain(v)),
        }
    }
    #[kani::unwind(18)]
    fn plain_with_style() {
        let (s, w) = any_value();
        let v = nd::u32();
        if nd::bool() {
            check(v.style_with(s.style), W { value: v, stream: None, ..w })
        } else {
            check(v.into_style_with(s.style), W { value: v, stream: None, ..w })
        }
    }
    #[kani::unwind(18)]
    fn style_slots() {
        let (v, w) = any_value();
        let s = v.style;
        let c = any_color();
        match nd::below(5) {
            0 => check_style(s.fg(c), W { fg: c, ..w }),
            1 => check_style(s.bg(c), W { bg: c, ..w }),
            2 => check_style(s.underline_color(c), W { ul: c, ..w }),
            3 => check_style(Style::new(), plain(0)),
            _ => check_style(Style::default(), plain(0)),
        }
    }
    #[kani::unwind(18)]
    fn style_effects() {
        let (v, w) = any_value();
        style_effect(nd::below(13), v.style, w)
    }
    #[kani::unwind(18)]
    fn style_sets() {
        let (v, w) = any_value();
        let s = v.style;
        let (m, e) = any_effect();
        let (n, f) = any_effect();
        let o = any_mask();
        match nd::below(8) {
            0 => check_style(s.with(e), W { mask: w.mask | m, ..w }),
            1 => check_style(s.without(e), W { mask: w.mask & !m, ..w }),
            2 => check_style(s.toggled(e), W { mask: w.mask ^ m, ..w }),
            3 => check_style(s.effect_flags(flags(o)), W { mask: o, ..w }),
            4 => check_style(s.clear_effects(), W { mask: 0, ..w }),
            5 => check_style(s.effects_array([e, f]), W { mask: m | n, ..w }),
            6 => check_style(s.effects([e, f]), W { mask: m | n, ..w }),
            _ => {
                assert!(s.is(e) == (w.mask & m != 0), "membership");
                check_style(s.effects(flags(o)), W { mask: o, ..w })
            }
        }
    }
    /// the plain value itself stays where it is
    #[kani::unwind(18)]
    fn borrowed() {
        let v = nd::u32();
        let r: [*const u32; 8] = [
            v.style().value, v.fg(ansi::Red).value, v.bg(ansi::Red).value, v.underline_color(ansi::Red).value, v.style_with(Style::new()).value,
            v.red().value, v.on_red().value, v.bold().value,
        ];
        macro_rules! c { ($($i:literal)*) => { $( assert!(r[$i] == &v as *const u32, "borrows the value"); )* } }
        c!(0 1 2 3 4 5 6 7);
    }
}
