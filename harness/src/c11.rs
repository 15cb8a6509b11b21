//! C11: mode and stream keywords parse exactly.
use crate::bytes::Bytes;
use crate::nd;
use colorz::mode::{Mode, Stream};

const N: usize = if cfg!(feature = "thorough") { 64 } else { 24 };
fn mode(b: &Bytes<N>) -> Option<Mode> {
    if b.is_ignoring_case(b"detect") {
        Some(Mode::Detect)
    } else if b.is_ignoring_case(b"always") {
        Some(Mode::Always)
    } else if b.is_ignoring_case(b"never") {
        Some(Mode::Never)
    } else {
        None
    }
}
fn stream(b: &Bytes<N>) -> Option<Stream> {
    if b.is_ignoring_case(b"stdout") {
        Some(Stream::Stdout)
    } else if b.is_ignoring_case(b"stderr") {
        Some(Stream::Stderr)
    } else if b.is_ignoring_case(b"always") {
        Some(Stream::AlwaysColor)
    } else if b.is_ignoring_case(b"never") {
        Some(Stream::NeverColor)
    } else {
        None
    }
}

harnesses! {
    #[kani::unwind(66)]
    fn mode_bytes() {
        let b = Bytes::any();
        assert!(Mode::from_ascii_bytes(b.as_bytes()).ok() == mode(&b), "mode of bytes");
    }
    #[kani::unwind(66)]
    fn stream_bytes() {
        let b = Bytes::any();
        assert!(Stream::from_ascii_bytes(b.as_bytes()).ok() == stream(&b), "stream of bytes");
    }
    #[kani::unwind(66)]
    fn mode_text() {
        let b = Bytes::any_text();
        assert!(b.as_str().parse::<Mode>().ok() == mode(&b), "mode of text");
    }
    #[kani::unwind(66)]
    fn stream_text() {
        let b = Bytes::any_text();
        assert!(b.as_str().parse::<Stream>().ok() == stream(&b), "stream of text");
    }
    /// each keyword in any mixture of cases (so that seeded runs meet them too)
    #[kani::unwind(66)]
    fn keywords() {
        let words: [&[u8]; 5] = [b"detect", b"always", b"never", b"stdout", b"stderr"];
        let w = words[nd::below(5) as usize];
        let mut b = Bytes::<N> { b: [0; N], n: w.len() };
        let mut i = 0;
        while i < 6 {
            if i < w.len() {
                b.b[i] = if nd::bool() { w[i].to_ascii_uppercase() } else { w[i] };
            }
            i += 1;
        }
        assert!(Mode::from_ascii_bytes(b.as_bytes()).ok() == mode(&b), "mode of a keyword");
        assert!(Stream::from_ascii_bytes(b.as_bytes()).ok() == stream(&b), "stream of a keyword");
        assert!(mode(&b).is_some() || stream(&b).is_some());
    }
}
