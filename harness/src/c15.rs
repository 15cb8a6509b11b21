//! C15: CSS colours have their CSS values.
use crate::nd;
use crate::text::*;
use colorz::css::{self, CssColor};
use colorz::rgb::RgbColor;
use colorz::{Color, ColorSpec, WriteColor};

macro_rules! tables {
    ($($n:ident ($r:literal, $g:literal, $b:literal))*) => {
        const COLORS: &[CssColor; 147] = &[$(CssColor::$n),*];
        const VALUES: &[(u8, u8, u8); 147] = &[$(($r, $g, $b)),*];
    };
}
for_css!(tables);
fn want(i: u8, layer: usize, escape: bool) -> Text {
    let (r, g, b) = VALUES[i as usize];
    let a = Args::rgb(r, g, b);
    if escape { a.escape(layer) } else { a.0[layer] }
}

fn runtime(layer: usize, escape: bool) {
    let i = nd::below(147);
    let c = COLORS[i as usize];
    let want = want(i, layer, escape);
    let inherent = match (layer, escape) {
        (FG, false) => c.foreground_args(),
        (BG, false) => c.background_args(),
        (UL, false) => c.underline_args(),
        (FG, true) => c.foreground_escape(),
        (BG, true) => c.background_escape(),
        _ => c.underline_escape(),
    };
    let s = if nd::bool() { inherent } else { spec_str(c, layer, escape) };
    same(&text(s), &want, "inherent or trait method");
    let w = written(|f| if nd::bool() { write(c, layer, escape, f) } else { write(Color::Css(c), layer, escape, f) });
    same(&w, &want, "formatting the colour, or the generic colour");
}
/// the compile-time colours: constants, trait methods, formatting
macro_rules! comptime {
    ($d:tt $($n:ident $konst:ident $met:ident $fmt:ident $layer:ident $escape:literal;)*) => { $( mod $n {
        use super::*;
        macro_rules! rows { ($d($d c:ident $d v:tt)*) => {
            fn konst(c: CssColor) -> &'static str {
                match c { $d( CssColor::$d c => css::$d c::$konst, )* }
            }
            fn met(c: CssColor) -> &'static str {
                match c { $d( CssColor::$d c => css::$d c.$met(), )* }
            }
            fn fmt(c: CssColor) -> Text {
                written(|f| match c { $d( CssColor::$d c => css::$d c.$fmt(f), )* })
            }
        } }
        for_css!(rows);
        pub fn check() {
            let i = nd::below(147);
            let c = COLORS[i as usize];
            let want = want(i, $layer, $escape);
            same(&text(if nd::bool() { konst(c) } else { met(c) }), &want, "constant or trait method");
            same(&fmt(c), &want, "formatting");
        }
    } )* };
}
comptime! { $
    cfa FOREGROUND_ARGS foreground_args fmt_foreground_args FG false;
    cba BACKGROUND_ARGS background_args fmt_background_args BG false;
    cua UNDERLINE_ARGS underline_args fmt_underline_args UL false;
    cfe FOREGROUND_ESCAPE foreground_escape fmt_foreground FG true;
    cbe BACKGROUND_ESCAPE background_escape fmt_background BG true;
    cue UNDERLINE_ESCAPE underline_escape fmt_underline UL true;
}

/// the RGB value itself, and the runtime colour of each name
fn values() {
    let i = nd::below(147);
    let c = COLORS[i as usize];
    let (red, green, blue) = VALUES[i as usize];
    let v = RgbColor { red, green, blue };
    assert!(c.rgb() == v && RgbColor::from(c) == v, "RGB value");
    let mut want = text("2;");
    want.push_dec(red);
    want.push(b";");
    want.push_dec(green);
    want.push(b";");
    want.push_dec(blue);
    macro_rules! rows {
        ($($n:ident $v:tt)*) => {
            fn dynamic(c: CssColor) -> CssColor {
                match c { $( CssColor::$n => match nd::below(3) { 0 => css::$n::DYNAMIC, 1 => css::$n.into_dynamic(), _ => CssColor::from(css::$n) }, )* }
            }
            fn konst(c: CssColor) -> &'static str {
                match c { $( CssColor::$n => css::$n::ARGS, )* }
            }
        };
    }
    for_css!(rows);
    assert!(dynamic(c) == c, "runtime colour of the name");
    same(&text(if nd::bool() { c.args() } else { konst(c) }), &want, "plain arguments");
}
macro_rules! all {
    ($($n:ident $e:expr;)*) => { harnesses! { $( #[kani::unwind(5)] fn $n() { $e } )* } };
}
all! {
    fg_args runtime(FG, false); bg_args runtime(BG, false); ul_args runtime(UL, false);
    fg_escape runtime(FG, true); bg_escape runtime(BG, true); ul_escape runtime(UL, true);
    zst_fg_args cfa::check(); zst_bg_args cba::check(); zst_ul_args cua::check();
    zst_fg_escape cfe::check(); zst_bg_escape cbe::check(); zst_ul_escape cue::check();
    rgb_values values();
}
