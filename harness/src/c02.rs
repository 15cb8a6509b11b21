//! C02: clearing a style undoes exactly what applying it touched.
use crate::gen::*;
use crate::sink::*;
use crate::want::*;
use core::fmt::Display;

fn clear<F: Side, B: Side, U: Side>() {
    let (style, want) = any_style::<F, B, U>();
    let before = any_term();
    let mut out = Live::new(before);
    let ok = with_fmt(&mut out, |w| Display::fmt(&style.clear(), w));
    assert!(ok, "clear failed on a working sink");
    check(&out, &want.cleared(&before));
}

macro_rules! combos {
    ($($n:ident: $f:ident $b:ident $u:ident;)*) => {
        harnesses! { $(
            #[kani::unwind(18)]
            #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
            fn $n() { clear::<$f, $b, $u>() }
        )* }
    };
}
#[cfg(not(feature = "thorough"))]
combos! {
    nnm: N N M; anm: RgbS N M; nam: N RgbS M; aam: RgbS RgbS M; mnm: M N M; nmm: N M M; amm: RgbS M M; mam: M RgbS M; mmm: M M M;
    nna: N N RgbS; mmn: M M N; zst: ZstS ZstS ZstS; color: AnsiC RgbC XtermC;
}
#[cfg(feature = "thorough")]
combos! {
    nnn: N N N; nnm: N N M; nna: N N RgbS;
    ann: RgbS N N; anm: RgbS N M; ana: RgbS N RgbS;
    nan: N RgbS N; nam: N RgbS M; naa: N RgbS RgbS;
    aan: RgbS RgbS N; aam: RgbS RgbS M; aaa: RgbS RgbS RgbS;
    mnn: M N N; mnm: M N M; mna: M N RgbS;
    nmn: N M N; nmm: N M M; nma: N M RgbS;
    amn: RgbS M N; amm: RgbS M M; ama: RgbS M RgbS;
    man: M RgbS N; mam: M RgbS M; maa: M RgbS RgbS;
    mmn: M M N; mmm: M M M; mma: M M RgbS;
    zst: ZstS ZstS ZstS; zst_opt: OptZstS OptZstS OptZstS; color: AnsiC RgbC XtermC; color2: XtermC CssC AnsiC; color3: CssC AnsiC RgbC;
    ansi: AnsiS AnsiS AnsiS; nested: Nested Nested Nested;
}
