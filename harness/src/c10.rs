//! C10: mode and default stream are independent registers, also under interference.
use crate::nd;
use crate::want::{dec::*, terminal};
use colorz::mode::{get_coloring_mode, get_default_stream, set_coloring_mode, set_default_stream, should_color, Mode, Stream};
use vcore::interfere;

/// any sequence of reads, writes and decisions
fn history(n: u8) {
    let mut g = Global::initial();
    for _ in 0..n {
        match nd::below(3) {
            0 => {
                g.mode = any_mode();
                set_coloring_mode(g.mode);
            }
            1 => {
                g.stream = any_stream();
                set_default_stream(g.stream);
            }
            _ => {
                should_color(any_stream_opt(), &[any_kind()]);
            }
        }
        if nd::bool() {
            assert!(get_default_stream() == g.stream, "default stream is the last one set");
            assert!(get_coloring_mode() == g.mode, "mode is the last one set");
        } else {
            assert!(get_coloring_mode() == g.mode, "mode is the last one set");
            assert!(get_default_stream() == g.stream, "default stream is the last one set");
        }
    }
}

/// Settings that another thread makes in order while this one runs, and the values
/// each setting has held so far.
struct Other {
    modes: [Mode; 3],
    streams: [Stream; 3],
    /// settings made so far, as pending stores
    ends: [u8; 3],
}
impl Other {
    fn any(g: &Global) -> Other {
        let mut o = Other { modes: [g.mode; 3], streams: [g.stream; 3], ends: [0; 3] };
        let (mut m, mut s) = (g.mode, g.stream);
        interfere::capture(true);
        for i in 0..2 {
            if nd::bool() {
                m = any_mode();
                set_coloring_mode(m);
            } else {
                s = any_stream();
                set_default_stream(s);
            }
            o.modes[i + 1] = m;
            o.streams[i + 1] = s;
            o.ends[i + 1] = interfere::pending();
        }
        interfere::capture(false);
        let mut steps = [0; 12];
        for i in 0..5 + 3 * cfg!(feature = "std") as usize {
            steps[i] = nd::below(7);
        }
        interfere::schedule(steps);
        o
    }
    /// Whether the settings with this index may have been in force during the call.
    fn held(&self, i: usize) -> bool {
        i == 0 || self.ends[i - 1] < interfere::done()
    }
}
fn start() -> Global {
    let mut g = Global::initial();
    g.change();
    g
}

harnesses! {
    #[kani::unwind(9)]
    #[kani::stub(<std::io::Stdin as std::io::IsTerminal>::is_terminal, crate::env::stdin)]
    #[kani::stub(<std::io::Stdout as std::io::IsTerminal>::is_terminal, crate::env::stdout)]
    #[kani::stub(<std::io::Stderr as std::io::IsTerminal>::is_terminal, crate::env::stderr)]
    #[kani::stub(<std::io::StdoutLock as std::io::IsTerminal>::is_terminal, crate::env::stdout_lock)]
    #[kani::stub(<std::io::StderrLock as std::io::IsTerminal>::is_terminal, crate::env::stderr_lock)]
    fn registers() { history(4) }
    /// a decision that overlaps other threads' settings is one for values that were held
    #[kani::unwind(9)]
    #[kani::stub(<std::io::Stdin as std::io::IsTerminal>::is_terminal, crate::env::stdin)]
    #[kani::stub(<std::io::Stdout as std::io::IsTerminal>::is_terminal, crate::env::stdout)]
    #[kani::stub(<std::io::Stderr as std::io::IsTerminal>::is_terminal, crate::env::stderr)]
    #[kani::stub(<std::io::StdoutLock as std::io::IsTerminal>::is_terminal, crate::env::stdout_lock)]
    #[kani::stub(<std::io::StderrLock as std::io::IsTerminal>::is_terminal, crate::env::stderr_lock)]
    fn decision() {
        let l = terminal::any();
        let g = start();
        let o = Other::any(&g);
        let s = any_stream_opt();
        let k = any_kind();
        let got = should_color(s, &[k]);
        nd::assume(!interfere::broken());
        let mut explained = false;
        for i in 0..3 {
            for j in 0..3 {
                let h = Global { mode: o.modes[i], stream: o.streams[j] };
                let want = match h.decide(s) {
                    Ok(w) => w,
                    Err(s) => terminal::supports(l[(s == Stream::Stderr) as usize], k),
                };
                explained |= o.held(i) && o.held(j) && want == got;
            }
        }
        assert!(explained, "decision for a mode and stream that were never in force");
    }
    /// a read that overlaps other threads' settings is one of the values that were held
    #[kani::unwind(9)]
    fn reads() {
        let g = start();
        let o = Other::any(&g);
        let which = nd::bool();
        let (m, s) = if which { (Some(get_coloring_mode()), None) } else { (None, Some(get_default_stream())) };
        nd::assume(!interfere::broken());
        let mut explained = false;
        for i in 0..3 {
            explained |= o.held(i) && m.is_none_or(|m| m == o.modes[i]) && s.is_none_or(|s| s == o.streams[i]);
        }
        assert!(explained, "read a value that nobody wrote");
    }
    /// this thread's writes are not lost, and other threads' writes to the other setting stay
    #[kani::unwind(9)]
    fn writes() {
        let g = start();
        interfere::capture(true);
        let (m, s) = (any_mode(), any_stream());
        let mine = nd::bool();
        if mine { set_default_stream(s) } else { set_coloring_mode(m) }
        interfere::capture(false);
        let mut steps = [0; 12];
        for i in 0..3 {
            steps[i] = nd::below(7);
        }
        interfere::schedule(steps);
        if mine { set_coloring_mode(m) } else { set_default_stream(s) }
        let other = interfere::done() == interfere::pending();
        interfere::schedule([0; 12]);
        nd::assume(!interfere::broken());
        let want_mode = if mine || other { m } else { g.mode };
        let want_stream = if !mine || other { s } else { g.stream };
        nd::assume(interfere::done() == 0 || other);
        assert!(get_coloring_mode() == want_mode, "mode after concurrent settings");
        assert!(get_default_stream() == want_stream, "default stream after concurrent settings");
    }
}
