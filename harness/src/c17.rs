//! C17: compile-time RGB colours match the runtime ones.
use crate::nd;
use crate::text::*;
use colorz::rgb::{Rgb, RgbColor};
use colorz::{Color, ColorSpec, ComptimeColor, WriteColor};

struct Want<const R: u8, const G: u8, const B: u8>;
impl<const R: u8, const G: u8, const B: u8> Want<R, G, B> {
    const ARGS: [[Text; 3]; 2] = Args::rgb(R, G, B).both();
    const RAW: Text = raw(R, G, B);
}
const fn raw(r: u8, g: u8, b: u8) -> Text {
    let mut t = text("2;");
    t.push_dec(r);
    t.push(b";");
    t.push_dec(g);
    t.push(b";");
    t.push_dec(b);
    t
}
/// Everything about one compile-time colour, compared by value: the first fault.
#[inline(always)]
fn faults<const R: u8, const G: u8, const B: u8, const TEXTS: bool>() -> u8 {
    let (want, raw) = (&Want::<R, G, B>::ARGS, &Want::<R, G, B>::RAW);
    type Z<const R: u8, const G: u8, const B: u8> = Rgb<R, G, B>;
    let c = RgbColor { red: R, green: G, blue: B };
    let z = Rgb::<R, G, B>;
    macro_rules! first {
        ($($n:literal $got:expr, $want:expr;)*) => { $( if $got != $want { return $n } )* };
    }
    macro_rules! text_is {
        ($($n:literal $got:expr, $want:expr;)*) => { $( if !text($got).eq(&$want) { return $n } )* };
    }
    if TEXTS {
    text_is! {
        1 Z::<R, G, B>::FOREGROUND_ARGS, want[0][FG];
        2 Z::<R, G, B>::BACKGROUND_ARGS, want[0][BG];
        3 Z::<R, G, B>::UNDERLINE_ARGS, want[0][UL];
        4 Z::<R, G, B>::FOREGROUND_ESCAPE, want[1][FG];
        5 Z::<R, G, B>::BACKGROUND_ESCAPE, want[1][BG];
        6 Z::<R, G, B>::UNDERLINE_ESCAPE, want[1][UL];
        7 Z::<R, G, B>::ARGS, *raw;
        8 z.foreground_args(), want[0][FG];
        9 z.background_args(), want[0][BG];
        10 z.underline_args(), want[0][UL];
        11 z.foreground_escape(), want[1][FG];
        12 z.background_escape(), want[1][BG];
        13 z.underline_escape(), want[1][UL];
    }
    }
    first! {
        14 Z::<R, G, B>::DYNAMIC, c;
        15 z.into_dynamic(), c;
        16 RgbColor::from(z), c;
        17 Color::from(z), Color::Rgb(c);
        18 Option::<Color>::from(z), Some(Color::Rgb(c));
        19 <Rgb<R, G, B> as ComptimeColor>::VALUE, Some(Color::Rgb(c));
        20 WriteColor::color_kind(z), colorz::mode::ColorKind::Rgb;
        21 <Rgb<R, G, B> as ColorSpec>::KIND, colorz::mode::ColorKind::Rgb;
    }
    0
}
fn right(f: u8) {
    macro_rules! each {
        ($($n:literal $what:literal)*) => { $( assert!(f != $n, $what); )* assert!(f == 0); };
    }
    each! {
        1 "FOREGROUND_ARGS" 2 "BACKGROUND_ARGS" 3 "UNDERLINE_ARGS" 4 "FOREGROUND_ESCAPE" 5 "BACKGROUND_ESCAPE" 6 "UNDERLINE_ESCAPE"
        7 "ARGS" 8 "foreground_args" 9 "background_args" 10 "underline_args" 11 "foreground_escape" 12 "background_escape"
        13 "underline_escape" 14 "DYNAMIC" 15 "into_dynamic" 16 "From for RgbColor" 17 "From for Color" 18 "From for Option<Color>"
        19 "VALUE" 20 "color_kind" 21 "KIND"
    }
}

/// 256 colours with every value of each component among them.
#[cfg(not(feature = "rgbfn"))]
mod run {
    use super::*;
    const fn g(n: u8) -> u8 {
        n.wrapping_mul(37).wrapping_add(11)
    }
    const fn b(n: u8) -> u8 {
        n.wrapping_mul(101).wrapping_add(205)
    }
    macro_rules! group {
        ($m:ident $($i:literal)*) => {
            pub fn $m() {
                let n = nd::below(64) as usize;
                right([$( faults::<$i, { g($i) }, { b($i) }, { $i % 16 == 5 }>() ),*][n])
            }
        };
    }
    group! { g0 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 }
    group! { g1 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 }
    group! { g2 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 }
    group! { g3 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255 }

    /// what they write
    pub fn writing() {
        let (n, layer, escape) = (nd::below(12), nd::below(3) as usize, nd::bool());
        macro_rules! rows {
            ($($i:literal $r:literal $g:literal $b:literal;)*) => { match n { $( $i => {
                let got = writes(Rgb::<$r, $g, $b>, layer, escape);
                const WANT: [[Text; 3]; 2] = Args::rgb($r, $g, $b).both();
                same(&got, &WANT[escape as usize][layer], "formatting");
            } )* _ => {} } };
        }
        rows! {
            0 0 0 0; 1 255 255 255; 2 9 10 99; 3 100 9 10; 4 99 100 9; 5 1 2 3; 6 10 99 100; 7 0 255 0; 8 255 0 128;
            9 7 77 177; 10 177 7 77; 11 77 177 7;
        }
    }
}

/// All colours at once: the expressions of the constants as functions of the
/// components (see overlay.py). Natively, one colour chosen when the program is built.
#[cfg(feature = "rgbfn")]
mod run {
    use super::*;
    #[cfg(kani)]
    pub use colorz::rgb::__vh as f;
    #[cfg(not(kani))]
    #[allow(non_snake_case)]
    pub mod f {
        use super::*;
        const fn var(v: Option<&str>, d: u8) -> u8 {
            match v {
                Some(s) => {
                    let (b, mut i, mut n) = (s.as_bytes(), 0, 0);
                    while i < b.len() {
                        n = n * 10 + (b[i] - b'0') as u16;
                        i += 1;
                    }
                    n as u8
                }
                None => d,
            }
        }
        pub const R: u8 = var(option_env!("VH_R"), 205);
        pub const G: u8 = var(option_env!("VH_G"), 17);
        pub const B: u8 = var(option_env!("VH_B"), 8);
        type Z = Rgb<R, G, B>;
        macro_rules! konst { ($($n:ident)*) => { $( pub fn $n(_: u8, _: u8, _: u8) -> &'static str { Z::$n } )* } }
        konst!(FOREGROUND_ARGS BACKGROUND_ARGS UNDERLINE_ARGS FOREGROUND_ESCAPE BACKGROUND_ESCAPE UNDERLINE_ESCAPE ARGS);
        macro_rules! method { ($($n:ident)*) => { $( pub fn $n(_: u8, _: u8, _: u8) -> &'static str { Rgb::<R, G, B>.$n() } )* } }
        method!(foreground_args background_args underline_args foreground_escape background_escape underline_escape);
        pub fn DYNAMIC(_: u8, _: u8, _: u8) -> &'static RgbColor {
            &Z::DYNAMIC
        }
    }
    pub fn components() -> (u8, u8, u8) {
        let c = (nd::u8(), nd::u8(), nd::u8());
        #[cfg(not(kani))]
        let c = (c, f::R, f::G, f::B);
        #[cfg(not(kani))]
        let c = (c.1, c.2, c.3);
        c
    }
    pub fn check(konst: fn(u8, u8, u8) -> &'static str, method: fn(u8, u8, u8) -> &'static str, layer: usize, escape: bool) {
        let (r, g, b) = components();
        let a = Args::rgb(r, g, b);
        let want = if escape { a.escape(layer) } else { a.0[layer] };
        let got = if nd::bool() { konst(r, g, b) } else { method(r, g, b) };
        same(&text(got), &want, "constant or method");
    }
}
use run::*;
macro_rules! all {
    ($($n:ident $e:expr;)*) => { harnesses! { $(
        #[kani::unwind(21)]
        #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
        fn $n() { $e }
    )* } };
}
#[cfg(feature = "rgbfn")]
all! {
    all_fg_args check(f::FOREGROUND_ARGS, f::foreground_args, FG, false);
    all_bg_args check(f::BACKGROUND_ARGS, f::background_args, BG, false);
    all_ul_args check(f::UNDERLINE_ARGS, f::underline_args, UL, false);
    all_fg_escape check(f::FOREGROUND_ESCAPE, f::foreground_escape, FG, true);
    all_bg_escape check(f::BACKGROUND_ESCAPE, f::background_escape, BG, true);
    all_ul_escape check(f::UNDERLINE_ESCAPE, f::underline_escape, UL, true);
    all_raw {
        let (r, g, b) = components();
        same(&text(f::ARGS(r, g, b)), &raw(r, g, b), "plain arguments");
    };
    all_value {
        let (r, g, b) = components();
        assert!(*f::DYNAMIC(r, g, b) == RgbColor { red: r, green: g, blue: b }, "DYNAMIC");
    };
}
#[cfg(not(feature = "rgbfn"))]
all! { values_0 g0(); values_1 g1(); values_2 g2(); values_3 g3(); formatting writing(); }
