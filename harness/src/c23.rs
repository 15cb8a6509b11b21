//! C23: write errors propagate.
use crate::gen::*;
use crate::nd;
use crate::sink::*;
use crate::want::*;
use colorz::mode::Stream;
use colorz::{Color, OptionalColor, Style, StyledValue, WriteColor};
use core::fmt::{self, Formatter, Write};

/// A sink that fails at one of its write calls, or never.
struct Sink {
    fail_at: u8,
    calls: u8,
    failed: bool,
    after: bool,
}
impl Write for Sink {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        let c = self.calls;
        self.calls = c.wrapping_add(1);
        self.after |= self.failed;
        if c == self.fail_at {
            self.failed = true;
            return Err(fmt::Error);
        }
        Ok(())
    }
}
/// Formats with any options into a sink that fails somewhere.
fn fails(f: impl FnOnce(&mut Formatter<'_>) -> fmt::Result) {
    let mut s = Sink { fail_at: nd::below(60), calls: 0, failed: false, after: false };
    let ok = with_fmt_opts(&mut s, any_opts(), f);
    assert!(!s.after, "wrote after an error");
    assert!(ok == !s.failed, "an error exactly when the sink failed");
}
fn markers<F: Side, B: Side, U: Side>() {
    let (s, _) = any_style::<F, B, U>();
    let display = nd::bool();
    let apply = nd::bool();
    fails(|f| match (apply, display) {
        (true, true) => fmt::Display::fmt(&s.apply(), f),
        (true, false) => fmt::Debug::fmt(&s.apply(), f),
        (false, true) => fmt::Display::fmt(&s.clear(), f),
        (false, false) => fmt::Debug::fmt(&s.clear(), f),
    })
}
/// An inner value with two writes, which may fail on its own.
#[derive(Clone, Copy)]
struct Inner {
    fail: bool,
}
macro_rules! traits {
    ($($t:ident)*) => { $( impl fmt::$t for Inner {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
            f.write_str("x")?;
            if self.fail {
                return Err(fmt::Error);
            }
            f.write_str("y")
        }
    } )* };
}
traits!(Display Debug Binary Octal Pointer LowerExp UpperExp LowerHex UpperHex);
fn any_stream() -> Option<Stream> {
    match nd::below(4) {
        0 => None,
        1 => Some(Stream::AlwaysColor),
        2 => Some(Stream::Stdout),
        _ => Some(Stream::NeverColor),
    }
}
fn value<F: OptionalColor, B: OptionalColor, U: OptionalColor>(
    s: Style<F, B, U>,
    fmt: impl FnOnce(&StyledValue<Inner, F, B, U>, &mut Formatter<'_>) -> fmt::Result,
) {
    let fail = nd::bool();
    let v = StyledValue::new(Inner { fail }, s, any_stream());
    let mut s = Sink { fail_at: nd::below(80), calls: 0, failed: false, after: false };
    let ok = with_fmt_opts(&mut s, any_opts(), |f| fmt(&v, f));
    assert!(!s.after, "wrote after an error");
    assert!(!(s.failed && ok), "a failing sink is an error");
    assert!(!(fail && ok), "a failing value is an error");
    assert!(s.failed || fail || ok, "no failure is no error");
}
/// Cheap, but writes something before and after the value.
fn trait_style() -> Style<colorz::ansi::Green, colorz::NoColor, colorz::NoColor> {
    Style::new().fg(colorz::ansi::Green).effect_flags(flags(any_mask() & 1))
}
fn color<C: WriteColor>(c: C) {
    let which = nd::below(6);
    fails(|f| match which {
        0 => c.fmt_foreground_args(f),
        1 => c.fmt_background_args(f),
        2 => c.fmt_underline_args(f),
        3 => c.fmt_foreground(f),
        4 => c.fmt_background(f),
        _ => c.fmt_underline(f),
    })
}
macro_rules! all {
    ($($n:ident $e:expr;)*) => { harnesses! { $(
        #[kani::unwind(21)]
        #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
        fn $n() { $e }
    )* } };
}
all! {
    style_mmm markers::<M, M, M>();
    style_zst_n markers::<ZstS, N, M>();
    style_n_zst markers::<N, ZstS, M>();
    style_zst_zst markers::<ZstS, OptZstS, M>();
    style_n_n markers::<N, N, M>();
    style_ansi markers::<AnsiC, AnsiC, AnsiC>();
    clear_all fails(|f| if nd::bool() { fmt::Display::fmt(&Style::clear_all(), f) } else { fmt::Debug::fmt(&Style::clear_all(), f) });
    value_mmm value(any_style::<M, M, M>().0, fmt::Display::fmt);
    value_with value(any_style::<ZstS, N, M>().0, |v, f| v.fmt_with(f, |v, f| fmt::Display::fmt(v, f)));
    value_plain value(any_style::<N, N, N>().0, fmt::Display::fmt);
    value_display value(trait_style(), fmt::Display::fmt);
    value_debug value(trait_style(), fmt::Debug::fmt);
    value_binary value(trait_style(), fmt::Binary::fmt);
    value_octal value(trait_style(), fmt::Octal::fmt);
    value_pointer value(trait_style(), fmt::Pointer::fmt);
    value_lower_exp value(trait_style(), fmt::LowerExp::fmt);
    value_upper_exp value(trait_style(), fmt::UpperExp::fmt);
    value_lower_hex value(trait_style(), fmt::LowerHex::fmt);
    value_upper_hex value(trait_style(), fmt::UpperHex::fmt);
    color_ansi color(AnsiC::any(true).0);
    color_xterm color(XtermC::any(true).0);
    color_css color(CssC::any(true).0);
    color_rgb color(RgbC::any(true).0);
    plain_rgb color(RgbS::any(true).0);
    plain_ansi color(AnsiS::any(true).0);
    plain_zst color(ZstS::any(true).0);
    comptime_rgb color(colorz::rgb::Rgb::<1, 20, 255>);
}
