//! C06: standard-library detection is made once per stream, and decides.
use crate::env;
use crate::nd;
use crate::want::dec::*;
use colorz::mode::{should_color, Stream};

fn history(n: u8) {
    let mut g = Global::initial();
    for _ in 0..n {
        g.change();
        let s = any_stream_opt();
        let kinds = [any_kind(), any_kind()];
        let k = nd::below(3) as usize;
        let asked = [env::FIRST[1].get(), env::FIRST[2].get()];
        let got = should_color(s, &kinds[..k]);
        match g.decide(s) {
            Ok(w) => {
                assert!(got == w, "an override or fixed stream decides");
                assert!(env::FIRST[1].get() == asked[0] && env::FIRST[2].get() == asked[1], "detection although it is not needed");
            }
            Err(s) => {
                let (i, o) = if s == Stream::Stdout { (1, 2) } else { (2, 1) };
                assert!(env::FIRST[i].get() != 255, "decided without asking the stream");
                assert!(got == (env::FIRST[i].get() == 1), "decides by the first answer for the stream");
                assert!(env::FIRST[o].get() == asked[o - 1], "asked about the other stream");
            }
        }
    }
}
harnesses! {
    #[kani::unwind(10)]
    #[kani::stub(<std::io::Stdin as std::io::IsTerminal>::is_terminal, crate::env::stdin)]
    #[kani::stub(<std::io::Stdout as std::io::IsTerminal>::is_terminal, crate::env::stdout)]
    #[kani::stub(<std::io::Stderr as std::io::IsTerminal>::is_terminal, crate::env::stderr)]
    #[kani::stub(<std::io::StdoutLock as std::io::IsTerminal>::is_terminal, crate::env::stdout_lock)]
    #[kani::stub(<std::io::StderrLock as std::io::IsTerminal>::is_terminal, crate::env::stderr_lock)]
    fn decisions() { history(3) }
}
