//! C24: several threads that need detection at once do not disturb each other.
//!
//! Terminals and their capabilities stay the same during a run, so every decision has
//! exactly one right answer, whatever the interleaving.
use crate::nd;
use crate::want::{dec::*, terminal};
use colorz::mode::{set_default_stream, should_color, ColorKind, Stream};
use vcore::interfere;

#[derive(Clone, Copy)]
struct Call {
    stream: Option<Stream>,
    kinds: [ColorKind; 2],
}
impl Call {
    fn any() -> Call {
        Call { stream: [None, Some(Stream::Stdout), Some(Stream::Stderr)][nd::below(3) as usize], kinds: [any_kind(), any_kind()] }
    }
    fn run(&self) -> bool {
        should_color(self.stream, &self.kinds)
    }
    fn right(&self, g: &Global, l: &[u8; 2]) -> bool {
        match g.decide(self.stream) {
            Ok(w) => w,
            Err(s) => {
                let l = l[(s == Stream::Stderr) as usize];
                terminal::supports(l, self.kinds[0]) && terminal::supports(l, self.kinds[1])
            }
        }
    }
}

/// Another thread's call overlaps `mine` calls of this one; then once more, alone.
fn overlap(mine: usize) {
    let l = terminal::any();
    let g = Global { stream: any_stream(), ..Global::initial() };
    set_default_stream(g.stream);
    if nd::bool() {
        let c = Call::any();
        assert!(c.run() == c.right(&g, &l), "decision before");
    }
    let other = Call::any();
    interfere::capture(true);
    let got = other.run();
    interfere::capture(false);
    assert!(got == other.right(&g, &l), "decision of the other thread");
    let mut steps = [0; 12];
    for i in 0..4 * mine {
        steps[i] = nd::below(7);
    }
    interfere::schedule(steps);
    for _ in 0..mine {
        let c = Call::any();
        let got = c.run();
        nd::assume(!interfere::broken());
        assert!(got == c.right(&g, &l), "decision while another thread detects");
    }
    // the other thread's stores that are left happen now
    interfere::schedule([6; 12]);
    let c = Call::any();
    let got = c.run();
    nd::assume(!interfere::broken());
    assert!(got == c.right(&g, &l), "decision after both threads detected");
}

harnesses! {
    #[kani::unwind(14)]
    #[kani::stub(<std::io::Stdin as std::io::IsTerminal>::is_terminal, crate::env::stdin)]
    #[kani::stub(<std::io::Stdout as std::io::IsTerminal>::is_terminal, crate::env::stdout)]
    #[kani::stub(<std::io::Stderr as std::io::IsTerminal>::is_terminal, crate::env::stderr)]
    #[kani::stub(<std::io::StdoutLock as std::io::IsTerminal>::is_terminal, crate::env::stdout_lock)]
    #[kani::stub(<std::io::StderrLock as std::io::IsTerminal>::is_terminal, crate::env::stderr_lock)]
    fn overlapping() { overlap(if cfg!(feature = "thorough") { 2 } else { 1 }) }
}
