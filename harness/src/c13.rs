//! C13: ANSI colours encode to the standard codes.
use crate::gen::ANSI;
use crate::nd;
use crate::text::*;
use colorz::ansi::{self, AnsiColor};
use colorz::xterm::XtermColor;
use colorz::{Color, ColorSpec};

/// the runtime colour: inherent methods, trait methods, formatting, generic colour
fn runtime(layer: usize, escape: bool) {
    let i = nd::below(if layer == UL { 16 } else { 17 });
    let c = ANSI[i as usize];
    let a = Args::ansi(i);
    let want = if escape { a.escape(layer) } else { a.0[layer] };
    same(&spec(c, layer, escape), &want, "trait method");
    let inherent = match (layer, escape) {
        (FG, false) => c.foreground_args(),
        (BG, false) => c.background_args(),
        (UL, false) => c.underline_args(),
        (FG, true) => c.foreground_escape(),
        (BG, true) => c.background_escape(),
        _ => c.underline_escape(),
    };
    same(&text(inherent), &want, "inherent method");
    same(&writes(c, layer, escape), &want, "formatting");
    same(&writes(Color::Ansi(c), layer, escape), &want, "formatting the generic colour");
}
macro_rules! each {
    ($($i:literal $n:ident)*) => {
        /// the compile-time colours: constants, trait methods, formatting, and what they convert to
        fn comptime(i: u8) {
            match i {
                $( $i => {
                    const A: Args = Args::ansi($i);
                    const W: [[Text; 3]; 2] = A.both();
                    let layers = if $i == 16 { 2 } else { 3 };
                    check_spec(ansi::$n, &W, layers);
                    check_writes(ansi::$n, &W, layers);
                    same(&text(ansi::$n::FOREGROUND_ARGS), &W[0][FG], "constant");
                    same(&text(ansi::$n::BACKGROUND_ARGS), &W[0][BG], "constant");
                    same(&text(ansi::$n::FOREGROUND_ESCAPE), &W[1][FG], "constant");
                    same(&text(ansi::$n::BACKGROUND_ESCAPE), &W[1][BG], "constant");
                    assert!(ansi::$n::DYNAMIC == AnsiColor::$n, "runtime colour");
                    assert!(ansi::$n.into_dynamic() == AnsiColor::$n, "runtime colour");
                    if $i < 16 {
                        const X: [[Text; 3]; 2] = Args::palette($i).both();
                        check_spec(ansi::$n::XTERM, &X, 3);
                        check_spec(ansi::$n::DYNAMIC_XTERM, &X, 3);
                        assert!(AnsiColor::$n.to_xterm() == XtermColor::from_code($i), "256-colour equivalent");
                        assert!(XtermColor::from(AnsiColor::$n) == XtermColor::from_code($i), "256-colour equivalent");
                    }
                } )*
                _ => {}
            }
        }
    };
}
each! {
    0 Black 1 Red 2 Green 3 Yellow 4 Blue 5 Magenta 6 Cyan 7 White 8 BrightBlack 9 BrightRed 10 BrightGreen 11 BrightYellow
    12 BrightBlue 13 BrightMagenta 14 BrightCyan 15 BrightWhite 16 Default
}
harnesses! {
    #[kani::unwind(5)]
    fn fg_args() { runtime(FG, false) }
    #[kani::unwind(5)]
    fn bg_args() { runtime(BG, false) }
    #[kani::unwind(5)]
    fn ul_args() { runtime(UL, false) }
    #[kani::unwind(5)]
    fn fg_escape() { runtime(FG, true) }
    #[kani::unwind(5)]
    fn bg_escape() { runtime(BG, true) }
    #[kani::unwind(5)]
    fn ul_escape() { runtime(UL, true) }
    #[kani::unwind(5)]
    fn comptime_all() { comptime(nd::below(17)) }
}
