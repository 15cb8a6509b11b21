//! C22: the kinds of all colours of a style take part in the decision.
use crate::csstable::CSS;
use crate::gen::*;
use crate::nd;
use crate::sink::*;
use crate::want::dec::*;
use colorz::mode::{ColorKind, Mode, Stream};
use colorz::xterm::XtermColor;
use crate::{for256, for_css};
use colorz::{Color, ColorSpec, NoColor, OptionalColor, Style, StyledValue, WriteColor};

/// The capability level a kind needs.
fn level(k: ColorKind) -> u8 {
    match k {
        ColorKind::Ansi => 1,
        ColorKind::Xterm => 2,
        ColorKind::Rgb => 3,
        _ => 0,
    }
}
/// A destination of any capability, either stream, through the value or the default.
fn any_destination() -> (Option<Stream>, u8) {
    let levels = crate::c07::any_capabilities();
    let i = nd::below(2);
    let s = stream(i);
    if nd::bool() {
        colorz::mode::set_default_stream(s);
        (None, levels[i as usize])
    } else {
        (Some(s), levels[i as usize])
    }
}
fn gate<F: OptionalColor, B: OptionalColor, U: OptionalColor>(f: (F, u8), b: (B, u8), u: (U, u8)) {
    let (s, have) = any_destination();
    let need = f.1.max(b.1).max(u.1);
    let style = Style::new().fg(f.0).bg(b.0).underline_color(u.0).effect_flags(flags(any_mask()));
    assert!(style.should_color(s) == (have >= need), "coloured exactly when the destination supports every colour");
}
fn written<F: OptionalColor, B: OptionalColor, U: OptionalColor>(f: (F, u8), b: (B, u8), u: (U, u8)) {
    let (s, have) = any_destination();
    let need = f.1.max(b.1).max(u.1);
    let style = Style::new().fg(f.0).bg(b.0).underline_color(u.0).underline();
    let v = StyledValue::new((), style, s);
    let mut c = Count(0);
    assert!(with_fmt(&mut c, |w| v.fmt_with(w, |_, _| Ok(()))));
    assert!((c.0 > 0) == (have >= need), "a styled value writes sequences exactly when the destination supports every colour");
}
/// any colour or none, with the level it needs
fn any_color() -> (Option<Color>, u8) {
    match nd::below(5) {
        0 => (None, 0),
        1 => (Some(ansi(nd::below(17)).color), 1),
        2 => (Some(Color::Xterm(XtermColor::from_code(nd::u8()))), 2),
        3 => (Some(Color::Css(CSS[nd::below(147) as usize])), 3),
        _ => (Some(rgb(nd::u8(), nd::u8(), nd::u8()).color), 3),
    }
}
fn some_color() -> (Color, u8) {
    let (c, l) = any_color();
    nd::assume(c.is_some());
    (c.unwrap_or(Color::Ansi(ANSI[0])), l)
}
const NO: (NoColor, u8) = (NoColor, 0);

/// every type reports the kind of its colours
fn kind_of<C: WriteColor>(c: C, k: ColorKind) {
    assert!(WriteColor::color_kind(c) == k, "kind of a colour");
    assert!(OptionalColor::color_kind(c) == k, "kind of a colour as an optional colour");
    assert!(OptionalColor::color_kind(Some(c)) == k, "kind of a present colour");
    assert!(OptionalColor::color_kind(Some(Some(c))) == k, "kind of a nested colour");
    assert!(OptionalColor::color_kind(None::<C>) == ColorKind::NoColor, "kind of an absent colour");
    assert!(OptionalColor::color_kind(Some(None::<C>)) == ColorKind::NoColor, "kind of a nested absent colour");
}
/// the same for compile-time colours, as a flag
#[inline(always)]
fn is_kind<C: ColorSpec>(c: C, k: ColorKind) -> bool {
    C::KIND == k && WriteColor::color_kind(c) == k && OptionalColor::color_kind(c) == k && OptionalColor::color_kind(Some(c)) == k
}
macro_rules! of_ansi { ($($n:ident)*) => { [$( is_kind(colorz::ansi::$n, ColorKind::Ansi) ),*] } }
macro_rules! of_xterm { ($($i:tt)*) => { [$( is_kind(colorz::xterm_from_code!($i), ColorKind::Xterm) ),*] } }
macro_rules! of_css { ($($n:ident $v:tt)*) => { [$( is_kind(colorz::css::$n, ColorKind::Rgb) ),*] } }

harnesses! {
    #[kani::unwind(5)]
    fn compile_time_kinds() {
        let a = of_ansi!(Black Red Green Yellow Blue Magenta Cyan White BrightBlack BrightRed BrightGreen BrightYellow BrightBlue BrightMagenta BrightCyan BrightWhite Default);
        let x = for256!(of_xterm);
        let c = for_css!(of_css);
        assert!(a[nd::below(17) as usize], "kind of a compile-time ANSI colour");
        assert!(x[nd::u8() as usize], "kind of a compile-time 256-colour");
        assert!(c[nd::below(147) as usize], "kind of a compile-time CSS colour");
    }
    #[kani::unwind(5)]
    fn kinds() {
        kind_of(ANSI[nd::below(17) as usize], ColorKind::Ansi);
        kind_of(XtermColor::from_code(nd::u8()), ColorKind::Xterm);
        kind_of(CSS[nd::below(147) as usize], ColorKind::Rgb);
        kind_of(colorz::rgb::RgbColor { red: nd::u8(), green: nd::u8(), blue: nd::u8() }, ColorKind::Rgb);
        kind_of(colorz::rgb::Rgb::<1, 20, 255>, ColorKind::Rgb);
        assert!(OptionalColor::color_kind(NoColor) == ColorKind::NoColor);
        assert!(OptionalColor::color_kind(Some(NoColor)) == ColorKind::NoColor);
        assert!(OptionalColor::color_kind(None::<NoColor>) == ColorKind::NoColor);
        let (c, l) = any_color();
        assert!(level(OptionalColor::color_kind(c)) == l, "kind of an optional generic colour");
        assert!((OptionalColor::color_kind(c) == ColorKind::NoColor) == c.is_none());
        if let Some(c) = c {
            assert!(level(WriteColor::color_kind(c)) == l, "kind of a generic colour");
        }
    }
    #[kani::unwind(5)]
    fn gate_generic() { gate(any_color(), any_color(), any_color()) }
    #[kani::unwind(5)]
    fn gate_required() { gate(some_color(), some_color(), some_color()) }
    #[kani::unwind(5)]
    fn gate_fg() { gate(some_color(), NO, NO) }
    #[kani::unwind(5)]
    fn gate_bg() { gate(NO, some_color(), NO) }
    #[kani::unwind(5)]
    fn gate_underline() { gate(NO, NO, some_color()) }
    #[kani::unwind(5)]
    fn gate_none() { gate(NO, NO, NO) }
    #[kani::unwind(5)]
    fn gate_mixed() { gate((colorz::ansi::Red, 1), (colorz::xterm::Red, 2), any_color()) }
    #[kani::unwind(5)]
    fn gate_zst() { gate((colorz::xterm::Fuchsia, 2), any_color(), (colorz::css::Tomato, 3)) }
    #[kani::unwind(5)]
    fn gate_values() { gate((ANSI[nd::below(17) as usize], 1), (colorz::rgb::RgbColor { red: 1, green: 2, blue: 3 }, 3), NO) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn written_fg() { written((colorz::xterm::Fuchsia, 2), NO, NO) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn written_bg() { written(NO, (colorz::ansi::Red, 1), NO) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn written_underline() { written((colorz::ansi::Red, 1), NO, (colorz::css::Tomato, 3)) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn written_optional() {
        let some = nd::bool();
        written((if some { Some(colorz::xterm::Fuchsia) } else { None }, if some { 2 } else { 0 }), NO, NO)
    }
}
