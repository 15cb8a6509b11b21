//! C12: colour text parses by the documented grammar.
use crate::bytes::Bytes;
use crate::gen::ANSI;
use crate::nd;
use colorz::rgb::RgbColor;
use colorz::xterm::XtermColor;
use colorz::{Color, ParseColorError};

const N: usize = if cfg!(feature = "thorough") { 20 } else { 16 };

/// The value of a digit in base 16, whatever its case.
fn hex(c: u8) -> Option<u8> {
    let d = "0123456789abcdef".as_bytes();
    let u = "0123456789ABCDEF".as_bytes();
    let mut v = None;
    macro_rules! each { ($($i:literal)*) => { $( if c == d[$i] || c == u[$i] { v = Some($i); } )* } }
    each!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
    v
}
fn decimal(c: u8) -> bool {
    b'0' <= c && c <= b'9'
}
const NAMES: [&[u8]; 17] = [
    b"black", b"red", b"green", b"yellow", b"blue", b"magenta", b"cyan", b"white", b"bright black", b"bright red", b"bright green",
    b"bright yellow", b"bright blue", b"bright magenta", b"bright cyan", b"bright white", b"purple",
];
fn expect(s: &Bytes<N>) -> Result<Color, ParseColorError> {
    let (b, n) = (&s.b, s.n);
    let bad = Err(ParseColorError::InvalidHexDigit);
    if n > 0 && b[0] == b'#' {
        let h = [hex(b[1]), hex(b[2]), hex(b[3]), hex(b[4]), hex(b[5]), hex(b[6])];
        return match (n, h) {
            (2, [Some(a), ..]) => Ok(Color::Xterm(XtermColor::from_code(a))),
            (3, [Some(a), Some(b), ..]) => Ok(Color::Xterm(XtermColor::from_code(16 * a + b))),
            (7, [Some(a), Some(b), Some(c), Some(d), Some(e), Some(f)]) => {
                Ok(Color::Rgb(RgbColor { red: 16 * a + b, green: 16 * c + d, blue: 16 * e + f }))
            }
            (2 | 3 | 7, _) => bad,
            _ => Err(ParseColorError::UnknownColor),
        };
    }
    if n >= 1 && n <= 3 && decimal(b[0]) && (n < 2 || decimal(b[1])) && (n < 3 || decimal(b[2])) {
        let mut v = (b[0] - b'0') as u32;
        if n > 1 {
            v = v * 10 + (b[1] - b'0') as u32;
        }
        if n > 2 {
            v = v * 10 + (b[2] - b'0') as u32;
        }
        return if v > 255 { Err(ParseColorError::U8Overflow) } else { Ok(Color::Xterm(XtermColor::from_code(v as u8))) };
    }
    let mut r = Err(ParseColorError::UnknownColor);
    macro_rules! names { ($($i:literal)*) => { $( if s.is(NAMES[$i]) { r = Ok(Color::Ansi(ANSI[if $i == 16 { 5 } else { $i }])); } )* } }
    names!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16);
    r
}
fn check(s: &Bytes<N>) {
    assert!(s.as_str().parse::<Color>() == expect(s), "parsed colour");
}

harnesses! {
    #[kani::unwind(22)]
    fn any_text() {
        check(&Bytes::any_text());
    }
    /// numbers and hexadecimal forms (so that seeded runs meet them too)
    #[kani::unwind(22)]
    fn forms() {
        let mut s = Bytes::<N>::any();
        nd::assume(s.n <= 8);
        let alphabet = b"#0123456789abcdefABCDEFg:/";
        let mut i = 0;
        while i < 8 {
            s.b[i] = alphabet[nd::below(26) as usize];
            i += 1;
        }
        check(&s);
    }
    #[kani::unwind(22)]
    fn names() {
        let w = NAMES[nd::below(17) as usize];
        let mut s = Bytes::<N> { b: [0; N], n: w.len() };
        let mut i = 0;
        while i < N {
            if i < w.len() {
                s.b[i] = w[i];
            }
            i += 1;
        }
        assert!(expect(&s).is_ok());
        check(&s);
        // one byte different
        let i = nd::below(N as u8) as usize;
        nd::assume(i < s.n);
        s.b[i] = nd::u8() & 0x7f;
        check(&s);
    }
}
