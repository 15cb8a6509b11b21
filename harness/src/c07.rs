//! C07: capability detection is made once per stream, and gates every kind asked for.
use crate::nd;
use crate::want::dec::*;
use colorz::mode::{should_color, ColorKind, Stream};
use supports_color::{model_calls, model_set, CALLS};

/// What a stream of the given level supports.
pub fn supports(level: u8, k: ColorKind) -> bool {
    match k {
        ColorKind::Ansi => level >= 1,
        ColorKind::Xterm => level >= 2,
        ColorKind::Rgb => level >= 3,
        _ => true,
    }
}
/// Arbitrary capabilities, and the ones that count: the first ones found.
pub fn any_capabilities() -> [u8; 2] {
    let mut first = [0; 2];
    for s in 0..2 {
        for c in 0..CALLS {
            let l = nd::below(4);
            model_set(s, c, l);
            if c == 0 {
                first[s] = l;
            }
        }
    }
    first
}
fn history(n: u8) {
    let first = any_capabilities();
    let mut g = Global::initial();
    for _ in 0..n {
        g.change();
        let s = any_stream_opt();
        let kinds = [any_kind(), any_kind(), any_kind(), any_kind(), any_kind()];
        let k = nd::below(6) as usize;
        let asked = [model_calls(0), model_calls(1)];
        let got = should_color(s, &kinds[..k]);
        match g.decide(s) {
            Ok(w) => {
                assert!(got == w, "an override or fixed stream decides");
                assert!(model_calls(0) == asked[0] && model_calls(1) == asked[1], "detection although it is not needed");
            }
            Err(s) => {
                let i = (s == Stream::Stderr) as usize;
                let mut all = true;
                for j in 0..5 {
                    all &= j >= k || supports(first[i], kinds[j]);
                }
                assert!(got == all, "coloured exactly when the stream supports every kind");
                assert!(model_calls(1 - i) == asked[1 - i], "asked about the other stream");
            }
        }
    }
}
harnesses! {
    #[kani::unwind(10)]
    fn decisions() { history(3) }
}
