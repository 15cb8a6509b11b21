//! Styles with arbitrary content and what the terminal must show for them.
use crate::gen::*;
use crate::sink::*;

/// A style with arbitrary content, and what it asks for.
pub struct Want {
    pub mask: u16,
    pub fg: Option<C>,
    pub bg: Option<C>,
    pub ul: Option<C>,
}
pub fn any_style<F: Side, B: Side, U: Side>() -> (colorz::Style<F::T, B::T, U::T>, Want) {
    let (f, fg) = F::any(false);
    let (b, bg) = B::any(false);
    let (u, ul) = U::any(true);
    let mask = any_mask();
    (colorz::Style::new().fg(f).bg(b).underline_color(u).effect_flags(flags(mask)), Want { mask, fg, bg, ul })
}
impl Want {
    /// What the terminal must show after the style was applied in state `t`.
    pub fn applied(&self, t: &Term) -> Term {
        let mut r = *t;
        r.eff |= self.mask;
        r.fg = self.fg.map_or(t.fg, |c| c.text);
        r.bg = self.bg.map_or(t.bg, |c| c.text);
        if self.mask & UNDERLINES != 0 {
            r.ul = self.ul.map_or(t.ul, |c| c.line);
        }
        r
    }
    /// What it must show after the style was cleared in state `t`.
    pub fn cleared(&self, t: &Term) -> Term {
        let mut r = *t;
        r.eff &= !group(self.mask);
        r.fg = if self.fg.is_some() { DEFAULT } else { t.fg };
        r.bg = if self.bg.is_some() { DEFAULT } else { t.bg };
        if self.mask & UNDERLINES != 0 && self.ul.is_some() {
            r.ul = DEFAULT;
        }
        r
    }
    pub fn plain(&self) -> bool {
        self.mask == 0 && self.fg.is_none() && self.bg.is_none()
    }
}
/// The terminal is between sequences, got nothing malformed, and shows what `w` shows.
pub fn check(out: &Live, w: &Term) {
    assert!(!out.over, "HARNESS_BOUND: token");
    assert!(out.t.clean(), "wrote something other than complete SGR sequences");
    assert!(out.t.eff == w.eff, "effects");
    assert!(out.t.fg == w.fg, "foreground");
    assert!(out.t.bg == w.bg, "background");
    assert!(out.t.ul == w.ul, "underline color");
}

/// The global settings of the crate, and the documented decision.
pub mod dec {
    use crate::nd;
    use colorz::mode::{set_coloring_mode, set_default_stream, ColorKind, Mode, Stream};

    pub fn mode(i: u8) -> Mode {
        match i {
            0 => Mode::Detect,
            1 => Mode::Always,
            _ => Mode::Never,
        }
    }
    pub fn any_mode() -> Mode {
        mode(nd::below(3))
    }
    pub fn stream(i: u8) -> Stream {
        match i {
            0 => Stream::Stdout,
            1 => Stream::Stderr,
            2 => Stream::AlwaysColor,
            _ => Stream::NeverColor,
        }
    }
    pub fn any_stream() -> Stream {
        stream(nd::below(4))
    }
    pub fn any_stream_opt() -> Option<Stream> {
        let i = nd::below(5);
        if i == 4 {
            None
        } else {
            Some(stream(i))
        }
    }
    pub fn kind(i: u8) -> ColorKind {
        match i {
            0 => ColorKind::Ansi,
            1 => ColorKind::Xterm,
            2 => ColorKind::Rgb,
            _ => ColorKind::NoColor,
        }
    }
    pub fn any_kind() -> ColorKind {
        kind(nd::below(4))
    }
    /// Global mode and default stream, as last set.
    #[derive(Clone, Copy)]
    pub struct Global {
        pub mode: Mode,
        pub stream: Stream,
    }
    impl Global {
        pub fn initial() -> Global {
            Global { mode: Mode::Detect, stream: Stream::AlwaysColor }
        }
        /// Optionally sets either.
        pub fn change(&mut self) {
            if nd::bool() {
                self.mode = any_mode();
                set_coloring_mode(self.mode);
            }
            if nd::bool() {
                self.stream = any_stream();
                set_default_stream(self.stream);
            }
        }
        /// The decision, or the stream that has to be asked.
        pub fn decide(&self, s: Option<Stream>) -> Result<bool, Stream> {
            match self.mode {
                Mode::Always => return Ok(true),
                Mode::Never => return Ok(false),
                Mode::Detect => {}
            }
            match s.unwrap_or(self.stream) {
                Stream::AlwaysColor => Ok(true),
                Stream::NeverColor => Ok(false),
                s => Err(s),
            }
        }
    }
}

/// Terminals whose state or capabilities stay the same during a run.
#[cfg(feature = "supports-color")]
pub mod terminal {
    use crate::nd;
    use colorz::mode::ColorKind;
    pub fn any() -> [u8; 2] {
        let l = [nd::below(4), nd::below(4)];
        for s in 0..2 {
            for c in 0..supports_color::CALLS {
                supports_color::model_set(s, c, l[s]);
            }
        }
        l
    }
    pub fn supports(level: u8, k: ColorKind) -> bool {
        match k {
            ColorKind::Ansi => level >= 1,
            ColorKind::Xterm => level >= 2,
            ColorKind::Rgb => level >= 3,
            _ => true,
        }
    }
}
#[cfg(all(feature = "std", not(feature = "supports-color")))]
pub mod terminal {
    use crate::nd;
    use colorz::mode::ColorKind;
    use crate::env;
    pub fn any() -> [u8; 2] {
        let l = [nd::below(2), nd::below(2)];
        env::FIXED[1].set(l[0]);
        env::FIXED[2].set(l[1]);
        l
    }
    pub fn supports(level: u8, _: ColorKind) -> bool {
        level == 1
    }
}
#[cfg(not(any(feature = "std", feature = "supports-color")))]
pub mod terminal {
    use colorz::mode::ColorKind;
    pub fn any() -> [u8; 2] {
        [0; 2]
    }
    pub fn supports(_: u8, _: ColorKind) -> bool {
        true
    }
}
