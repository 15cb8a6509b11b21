//! C08: with `strip-colors` styled values never write sequences.
use crate::gen::*;
use crate::nd;
use crate::sink::*;
use crate::want::{dec::*, *};
use colorz::mode::{get_coloring_mode, get_default_stream, should_color, Mode};
use colorz::StyledValue;
use core::fmt::{self, Display};

fn history(n: u8) {
    let mut g = Global::initial();
    for _ in 0..n {
        g.change();
        let s = any_stream_opt();
        let kinds = [any_kind(), any_kind()];
        assert!(!should_color(s, &kinds[..nd::below(3) as usize]), "decided to colour in a strip-colors build");
        assert!(get_coloring_mode() == Mode::Never, "mode of a strip-colors build");
        assert!(get_default_stream() == g.stream, "default stream");
    }
}
fn value<F: Side, B: Side, U: Side>(fmt: impl FnOnce(&StyledValue<Inner, F::T, B::T, U::T>, &mut fmt::Formatter<'_>) -> fmt::Result) {
    let mut g = Global::initial();
    g.change();
    let (style, _) = any_style::<F, B, U>();
    let v = StyledValue::new(Inner, style, any_stream_opt());
    assert!(!style.should_color(any_stream_opt()), "decided to colour a style in a strip-colors build");
    let mut b = Count(0);
    assert!(with_fmt_opts(&mut b, any_opts(), |w| fmt(&v, w)));
    assert!(b.0 == 3, "wrote more than the value");
}
struct Inner;
macro_rules! inner { ($($t:ident)*) => { $( impl fmt::$t for Inner {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("abc") }
} )* } }
inner!(Display Debug Binary Octal Pointer LowerExp UpperExp LowerHex UpperHex);

fn marker<F: Side, B: Side, U: Side>(clear: bool) {
    let mut g = Global::initial();
    g.change();
    let (style, want) = any_style::<F, B, U>();
    let before = any_term();
    let mut out = Live::new(before);
    let ok = with_fmt(&mut out, |w| if clear { Display::fmt(&style.clear(), w) } else { Display::fmt(&style.apply(), w) });
    assert!(ok);
    check(&out, &if clear { want.cleared(&before) } else { want.applied(&before) });
}
harnesses! {
    #[kani::unwind(5)]
    fn decisions() { history(3) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn display() { value::<M, RgbS, M>(|v, w| fmt::Display::fmt(v, w)) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn debug() { value::<ZstS, N, N>(|v, w| fmt::Debug::fmt(v, w)) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn binary() { value::<ZstS, N, N>(|v, w| fmt::Binary::fmt(v, w)) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn octal() { value::<ZstS, N, N>(|v, w| fmt::Octal::fmt(v, w)) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn pointer() { value::<ZstS, N, N>(|v, w| fmt::Pointer::fmt(v, w)) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn lower_exp() { value::<ZstS, N, N>(|v, w| fmt::LowerExp::fmt(v, w)) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn upper_exp() { value::<ZstS, N, N>(|v, w| fmt::UpperExp::fmt(v, w)) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn lower_hex() { value::<ZstS, N, N>(|v, w| fmt::LowerHex::fmt(v, w)) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn upper_hex() { value::<ZstS, N, N>(|v, w| fmt::UpperHex::fmt(v, w)) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn given_writer() { value::<ZstS, N, M>(|v, w| v.fmt_with(w, |_, w| w.write_str("abc"))) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn apply() { marker::<M, M, M>(false) }
    #[kani::unwind(18)]
    #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
    fn clear() { marker::<M, M, M>(true) }
}
