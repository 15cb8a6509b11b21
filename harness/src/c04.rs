//! C04: a styled value is its style, its value, and the style undone.
use crate::gen::*;
use crate::nd;
use crate::sink::*;
use crate::want::{dec::*, *};
use colorz::mode::{set_coloring_mode, set_default_stream, Mode, Stream};
use colorz::StyledValue;
use core::cell::Cell;
use core::fmt::{self, FormattingOptions, Formatter};

/// A terminal that also sees the inner value's own writes, and at one of the writes
/// changes the global settings.
struct Shared {
    live: Cell<Live>,
    /// terminal writes so far
    writes: Cell<u8>,
    change_at: u8,
    mode: Mode,
    stream: Stream,
    inside: Cell<bool>,
    /// the inner value: calls, bytes, and what was there when it was called
    calls: Cell<u8>,
    text: Cell<u8>,
    tag: Cell<u8>,
    opts: Cell<Option<FormattingOptions>>,
    at_call: Cell<Live>,
}
impl Shared {
    fn new(t: Term) -> Shared {
        Shared {
            live: Cell::new(Live::new(t)),
            writes: Cell::new(0),
            change_at: nd::below(20),
            mode: any_mode(),
            stream: any_stream(),
            inside: Cell::new(false),
            calls: Cell::new(0),
            text: Cell::new(0),
            tag: Cell::new(255),
            opts: Cell::new(None),
            at_call: Cell::new(Live::new(t)),
        }
    }
}
struct Out<'a>(&'a Shared);
impl fmt::Write for Out<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let sh = self.0;
        let w = sh.writes.get();
        sh.writes.set(w.wrapping_add(1));
        if w == sh.change_at {
            set_coloring_mode(sh.mode);
            set_default_stream(sh.stream);
        }
        if sh.inside.get() {
            sh.text.set(sh.text.get().wrapping_add(s.len() as u8));
            return Ok(());
        }
        let mut l = sh.live.get();
        let r = fmt::Write::write_str(&mut l, s);
        sh.live.set(l);
        r
    }
}
struct Probe<'a>(&'a Shared);
impl Probe<'_> {
    fn run(&self, tag: u8, f: &mut Formatter<'_>) -> fmt::Result {
        let sh = self.0;
        sh.calls.set(sh.calls.get().wrapping_add(1));
        sh.tag.set(tag);
        sh.opts.set(Some(f.options()));
        sh.at_call.set(sh.live.get());
        sh.inside.set(true);
        f.write_str("ab")?;
        f.write_str("c")?;
        sh.inside.set(false);
        Ok(())
    }
}
macro_rules! traits {
    ($($i:literal $t:ident),*) => { $( impl fmt::$t for Probe<'_> {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { self.run($i, f) }
    } )* };
}
traits!(0 Display, 1 Debug, 2 Binary, 3 Octal, 4 Pointer, 5 LowerExp, 6 UpperExp, 7 LowerHex, 8 UpperHex);

fn same_opts(a: &FormattingOptions, b: &FormattingOptions) -> bool {
    a.get_sign() == b.get_sign()
        && a.get_alternate() == b.get_alternate()
        && a.get_sign_aware_zero_pad() == b.get_sign_aware_zero_pad()
        && a.get_align() == b.get_align()
        && a.get_fill() == b.get_fill()
        && a.get_width() == b.get_width()
        && a.get_precision() == b.get_precision()
        && a.get_debug_as_hex() == b.get_debug_as_hex()
}

macro_rules! formats {
    ($f:ident $b:ident $u:ident, $tag:expr, |$sv:ident, $w:ident| $call:expr) => {{
        formats!(any_style::<$f, $b, $u>(), $tag, |$sv, $w| $call)
    }};
    ($style:expr, $tag:expr, |$sv:ident, $w:ident| $call:expr) => {{
        let (style, want) = $style;
        let mut g = Global::initial();
        g.change();
        let stream = any_stream_opt();
        let before = any_term();
        let o = any_opts();
        let sh = Shared::new(before);
        let on = g.decide(stream).unwrap_or(true);
        let $sv = StyledValue::new(Probe(&sh), style, stream);
        let mut out = Out(&sh);
        let ok = with_fmt_opts(&mut out, o, |$w| $call);
        assert!(ok, "formatting failed on a working sink");
        assert!(sh.calls.get() == 1, "the inner value is formatted exactly once");
        assert!(sh.tag.get() == $tag, "the inner value is formatted with the requested trait");
        assert!(same_opts(&sh.opts.get().unwrap(), &o), "the inner value sees the requested options");
        assert!(sh.text.get() == 3, "the inner value's output is passed through once");
        let (a, e) = (sh.at_call.get(), sh.live.get());
        if on {
            check(&a, &want.applied(&before));
            check(&e, &want.cleared(&a.t));
        } else {
            assert!(!e.wrote, "wrote escape sequences although colouring is off");
        }
    }};
}
/// A small style, for the parts that do not depend on the style.
fn plain() -> (colorz::Style<colorz::ansi::Green, colorz::NoColor, colorz::NoColor>, Want) {
    (colorz::Style::new().fg(colorz::ansi::Green), Want { mask: 0, fg: Some(ansi(2)), bg: None, ul: None })
}
/// Fails at the given write, or not at all.
struct Broken(u8);
impl fmt::Write for Broken {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        let n = self.0;
        self.0 = n.wrapping_sub(1);
        if n == 0 { Err(fmt::Error) } else { Ok(()) }
    }
}
/// Fails on its own, or not.
struct Sour(bool);
impl fmt::Display for Sour {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str("x")?;
        if self.0 { Err(fmt::Error) } else { Ok(()) }
    }
}
/// Earlier formattings, complete or failed half-way, leave no trace in later ones.
fn earlier(n: u8) {
    for _ in 0..n {
        let mut g = Global::initial();
        g.change();
        let (style, _) = plain();
        let v = StyledValue::new(Sour(nd::bool()), style, any_stream_opt());
        let _ = with_fmt(&mut Broken(nd::u8()), |w| fmt::Display::fmt(&v, w));
        set_coloring_mode(Mode::Detect);
        set_default_stream(Stream::AlwaysColor);
    }
}
/// A styled value around another one.
fn nested() {
    let (outer, want) = plain();
    let inner = colorz::Style::new().bg(colorz::ansi::Red).bold();
    let inner_want = Want { mask: 1, fg: None, bg: Some(ansi(1)), ul: None };
    let mut g = Global::initial();
    g.change();
    let (s, t) = (any_stream_opt(), any_stream_opt());
    let before = any_term();
    let mut sh = Shared::new(before);
    sh.change_at = 255;
    let v = StyledValue::new(StyledValue::new(Probe(&sh), inner, t), outer, s);
    let (mut start, mut end) = (Live::new(before), Live::new(before));
    let ok = {
        let mut out = Out(&sh);
        with_fmt(&mut out, |w| v.fmt_with(w, |n, w| {
            start = sh.live.get();
            fmt::Display::fmt(n, w)?;
            end = sh.live.get();
            Ok(())
        }))
    };
    assert!(ok, "formatting failed on a working sink");
    assert!(sh.calls.get() == 1, "the inner value is formatted exactly once");
    let mut now = before;
    if g.decide(s).unwrap_or(true) {
        now = want.applied(&now);
    }
    check(&start, &now);
    let on = g.decide(t).unwrap_or(true);
    if on {
        now = inner_want.applied(&now);
    }
    check(&sh.at_call.get(), &now);
    if on {
        now = inner_want.cleared(&now);
    }
    check(&end, &now);
    if g.decide(s).unwrap_or(true) {
        now = want.cleared(&now);
    }
    check(&sh.live.get(), &now);
}
macro_rules! light {
    ($($n:ident $t:ident $tag:literal;)*) => {
        harnesses! {
            #[kani::unwind(18)]
            #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
            fn full() { formats!(M M M, 0, |sv, w| fmt::Display::fmt(&sv, w)) }
            #[kani::unwind(18)]
            #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
            fn full_with() { formats!(ZstS N RgbS, 77, |sv, w| sv.fmt_with(w, |p, f| p.run(77, f))) }
            #[kani::unwind(18)]
            #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
            fn after_others() {
                earlier(if cfg!(feature = "thorough") { 4 } else { 3 });
                formats!(plain(), 0, |sv, w| fmt::Display::fmt(&sv, w))
            }
            #[kani::unwind(18)]
            #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
            fn within_another() { nested() }
            $( #[kani::unwind(18)]
            #[kani::stub(core::str::from_utf8, crate::stub_from_utf8)]
            fn $n() { formats!(plain(), $tag, |sv, w| fmt::$t::fmt(&sv, w)) } )*
        }
    };
}
light! {
    display Display 0; debug Debug 1; binary Binary 2; octal Octal 3; pointer Pointer 4;
    lower_exp LowerExp 5; upper_exp UpperExp 6; lower_hex LowerHex 7; upper_hex UpperHex 8;
}
