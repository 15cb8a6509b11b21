//! C14: 256-colour codes encode to themselves.
use crate::nd;
use crate::text::*;
use colorz::xterm::XtermColor;
use colorz::{Color, ColorSpec, WriteColor};

/// the runtime colour: inherent methods, trait methods, formatting, generic colour
fn runtime(layer: usize, escape: bool) {
    let n = nd::u8();
    let c = XtermColor::from_code(n);
    let a = Args::palette(n);
    let want = if escape { a.escape(layer) } else { a.0[layer] };
    let inherent = match (layer, escape) {
        (FG, false) => c.foreground_args(),
        (BG, false) => c.background_args(),
        (UL, false) => c.underline_args(),
        (FG, true) => c.foreground_escape(),
        (BG, true) => c.background_escape(),
        _ => c.underline_escape(),
    };
    // (any of the ways, decided together)
    let s = if nd::bool() { inherent } else { spec_str(c, layer, escape) };
    same(&text(s), &want, "inherent or trait method");
    let w = written(|f| if nd::bool() { write(c, layer, escape, f) } else { write(Color::Xterm(c), layer, escape, f) });
    same(&w, &want, "formatting the colour, or the generic colour");
}
/// the colours selected at compile time by each literal: constants, trait methods, formatting
macro_rules! comptime {
    ($d:tt $($n:ident $konst:ident $met:ident $fmt:ident $layer:ident $escape:literal;)*) => { $( mod $n {
        use super::*;
        fn konst(n: u8) -> &'static str {
            macro_rules! pick { ($d($d i:tt)*) => { match n { $d( $d i => <colorz::xterm_from_code!($d i)>::$konst, )* } } }
            for256!(pick)
        }
        fn met(n: u8) -> &'static str {
            macro_rules! pick { ($d($d i:tt)*) => { match n { $d( $d i => colorz::xterm_from_code!($d i).$met(), )* } } }
            for256!(pick)
        }
        fn fmt(n: u8) -> Text {
            written(|f| {
                macro_rules! pick { ($d($d i:tt)*) => { match n { $d( $d i => colorz::xterm_from_code!($d i).$fmt(f), )* } } }
                for256!(pick)
            })
        }
        pub fn check() {
            let n = nd::u8();
            let a = Args::palette(n);
            let want = if $escape { a.escape($layer) } else { a.0[$layer] };
            same(&text(if nd::bool() { konst(n) } else { met(n) }), &want, "constant or trait method");
            same(&fmt(n), &want, "formatting");
        }
    } )* };
}
comptime! { $
    cfa FOREGROUND_ARGS foreground_args fmt_foreground_args FG false;
    cba BACKGROUND_ARGS background_args fmt_background_args BG false;
    cua UNDERLINE_ARGS underline_args fmt_underline_args UL false;
    cfe FOREGROUND_ESCAPE foreground_escape fmt_foreground FG true;
    cbe BACKGROUND_ESCAPE background_escape fmt_background BG true;
    cue UNDERLINE_ESCAPE underline_escape fmt_underline UL true;
}

/// the number itself
fn code() {
    let n = nd::u8();
    let c = XtermColor::from_code(n);
    assert!(c as u8 == n, "code");
    assert!(XtermColor::from(n) == c, "conversion from the code");
    let mut want = text("5;");
    want.push_dec(n);
    same(&text(c.args()), &want, "plain arguments");
    macro_rules! same_color {
        ($($i:tt)*) => { match n { $( $i => {
            type Z = colorz::xterm_from_code!($i);
            assert!(Z::DYNAMIC == c && colorz::xterm_from_code!($i).into_dynamic() == c && XtermColor::from(colorz::xterm_from_code!($i)) == c, "runtime colour of the literal");
        } )* } };
    }
    for256!(same_color);
}
macro_rules! all {
    ($($n:ident $e:expr;)*) => { harnesses! { $( #[kani::unwind(5)] fn $n() { $e } )* } };
}
all! {
    fg_args runtime(FG, false); bg_args runtime(BG, false); ul_args runtime(UL, false);
    fg_escape runtime(FG, true); bg_escape runtime(BG, true); ul_escape runtime(UL, true);
    zst_fg_args cfa::check(); zst_bg_args cba::check(); zst_ul_args cua::check();
    zst_fg_escape cfe::check(); zst_bg_escape cbe::check(); zst_ul_escape cue::check();
    numbers code();
}
