//! C03: plain styles are silent, and formatting flags never matter.
use crate::gen::*;
use crate::sink::*;
use crate::want::*;
use core::fmt::{Debug, Display};

/// writes on apply <=> writes on clear <=> not plain <=> has an effect, foreground or background
fn silent<F: Side, B: Side, U: Side>() {
    let (style, want) = any_style::<F, B, U>();
    assert!(style.is_plain() == want.plain(), "is_plain");
    let mut a = Count(0);
    assert!(with_fmt(&mut a, |w| Display::fmt(&style.apply(), w)));
    assert!((a.0 == 0) == want.plain(), "apply writes exactly when the style is not plain");
    let mut c = Count(0);
    assert!(with_fmt(&mut c, |w| Display::fmt(&style.clear(), w)));
    assert!((c.0 == 0) == want.plain(), "clear writes exactly when the style is not plain");
}

/// with arbitrary flags, Display or Debug, the marker does what the plain marker does
macro_rules! marker {
    ($t:ident $marker:ident $want:ident) => {{
        let (style, want) = any_style::<M, RgbS, M>();
        let before = any_term();
        let mut out = Live::new(before);
        let o = any_opts();
        assert!(with_fmt_opts(&mut out, o, |w| $t::fmt(&style.$marker(), w)), "failed on a working sink");
        check(&out, &want.$want(&before));
    }};
}
fn all_clear(debug: bool) {
    let mut out = Live::new(any_term());
    let o = any_opts();
    let m = colorz::Style::clear_all();
    assert!(with_fmt_opts(&mut out, o, |w| if debug { Debug::fmt(&m, w) } else { Display::fmt(&m, w) }));
    check(&out, &Term::new(DEFAULT, DEFAULT, DEFAULT, 0));
}

harnesses! {
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn silent_nn() { silent::<N, N, M>() }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn silent_an() { silent::<RgbS, N, M>() }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn silent_na() { silent::<N, ZstS, N>() }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn silent_mn() { silent::<M, N, RgbS>() }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn silent_nm() { silent::<N, M, M>() }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn silent_mm() { silent::<Nested, M, M>() }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn silent_aa() { silent::<ZstS, RgbS, OptZstS>() }

    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn apply_display() { marker!(Display apply applied) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn apply_debug() { marker!(Debug apply applied) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn clear_display() { marker!(Display clear cleared) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn clear_debug() { marker!(Debug clear cleared) }
    #[kani::unwind(18)]
    fn clear_all_display() { all_clear(false) }
    #[kani::unwind(18)]
    fn clear_all_debug() { all_clear(true) }
}
