//! C05: the colouring decision follows the documented precedence.
use crate::csstable::CSS;
use crate::gen::*;
use crate::nd;
use crate::want::dec::*;
use colorz::xterm::XtermColor;
use colorz::mode::{get_coloring_mode, get_default_stream, should_color, ColorKind, Mode, Stream};
use colorz::{Color, Style, StyledValue};

/// decisions in any order with changes of the settings
fn history(n: u8) {
    let mut g = Global::initial();
    for _ in 0..n {
        g.change();
        let s = any_stream_opt();
        let kinds = [any_kind(), any_kind(), any_kind(), any_kind()];
        let k = nd::below(5) as usize;
        // without detection a stdout or stderr stream is coloured
        let want = g.decide(s).unwrap_or(true);
        assert!(should_color(s, &kinds[..k]) == want, "decision");
        assert!(get_coloring_mode() == g.mode, "deciding changes the mode");
        assert!(get_default_stream() == g.stream, "deciding changes the default stream");
    }
}
fn color(i: u8) -> Option<Color> {
    match i {
        0 => None,
        1 => Some(ansi(nd::below(17)).color),
        2 => Some(Color::Xterm(XtermColor::from_code(nd::u8()))),
        3 => Some(Color::Css(CSS[nd::below(147) as usize])),
        _ => Some(rgb(nd::u8(), nd::u8(), nd::u8()).color),
    }
}
fn style(n: u8) {
    let mut g = Global::initial();
    for _ in 0..n {
        g.change();
        let (f, b, u) = (color(nd::below(5)), color(nd::below(5)), color(nd::below(5)));
        let style = Style::new().fg(f).bg(b).underline_color(u).effect_flags(flags(any_mask()));
        let s = any_stream_opt();
        let want = g.decide(s).unwrap_or(true);
        assert!(style.should_color(s) == want, "decision for a style");
        if let Some(s) = s {
            assert!(style.should_color(s) == want, "decision for a style and a stream");
        }
    }
}
/// what a styled value does is what the decision says
fn value() {
    let mut g = Global::initial();
    g.change();
    let s = any_stream_opt();
    let want = g.decide(s).unwrap_or(true);
    let v = StyledValue::new("", Style::new().fg(colorz::ansi::Red), s);
    let mut c = crate::sink::Count(0);
    assert!(crate::sink::with_fmt(&mut c, |w| v.fmt_with(w, |_, _| Ok(()))));
    assert!((c.0 > 0) == want, "decision for a styled value");
}

harnesses! {
    #[kani::unwind(6)]
    fn initial() {
        assert!(get_coloring_mode() == Mode::Detect);
        assert!(get_default_stream() == Stream::AlwaysColor);
        assert!(should_color(None, &[any_kind()]));
    }
    #[kani::unwind(15)]
    fn decisions() { history(3) }
    #[kani::unwind(15)]
    fn styles() { style(2) }
    #[kani::unwind(15)]
    fn values() { value() }
}
