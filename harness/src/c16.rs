//! C16: runtime RGB colours encode their components.
use crate::nd;
use crate::text::*;
use colorz::rgb::RgbColor;
use colorz::Color;

fn rgb(layer: usize, escape: bool, generic: bool) {
    let (r, g, b) = (nd::u8(), nd::u8(), nd::u8());
    let c = RgbColor { red: r, green: g, blue: b };
    let a = Args::rgb(r, g, b);
    let got = if generic { writes(Color::Rgb(c), layer, escape) } else { writes(c, layer, escape) };
    same(&got, &if escape { a.escape(layer) } else { a.0[layer] }, "encoding");
}
macro_rules! all {
    ($($n:ident $l:ident $e:literal $g:literal;)*) => { harnesses! { $(
        #[kani::unwind(21)]
        #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
        fn $n() { rgb($l, $e, $g) }
    )* } };
}
all! {
    fg_args FG false false; bg_args BG false false; ul_args UL false false;
    fg_escape FG true false; bg_escape BG true false; ul_escape UL true false;
    color_fg_args FG false true; color_bg_args BG false true; color_ul_args UL false true;
    color_fg_escape FG true true; color_bg_escape BG true true; color_ul_escape UL true true;
}
