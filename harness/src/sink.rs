//! What the code under test writes to, and the terminal that interprets it.
use core::fmt::{self, Formatter, FormattingOptions, Write};

/// Capacity of a sink in words, for text expected to fit `w` words: the bound is
/// doubled when a run reports that it was too small.
pub const fn words(w: usize) -> usize {
    if cfg!(feature = "wide") {
        2 * w + 4
    } else {
        w
    }
}

/// A bounded byte sink packed into words: appending a token is a shift, so the
/// solver never sees an array write at a symbolic index.
#[derive(Clone, Copy)]
pub struct Buf<const W: usize> {
    pub w: [u64; W],
    pub n: usize,
    /// the sink was too small (a bound of the harness, not a fault of the code)
    pub over: bool,
}

macro_rules! for24 {
    ($m:ident) => { $m!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23) };
}
// per word of a sink
macro_rules! words {
    ($m:ident) => {
        if W <= 4 { $m!(0 1 2 3); } else if W <= 6 { $m!(0 1 2 3 4 5); } else { for24!($m); }
    };
}

impl<const W: usize> Buf<W> {
    pub const fn new() -> Self {
        Buf { w: [0; W], n: 0, over: false }
    }
    #[inline(always)]
    pub fn get(&self, i: usize) -> u8 {
        (self.w[i / 8] >> (8 * (i % 8))) as u8
    }
    pub fn eq(&self, o: &Self) -> bool {
        let mut same = self.n == o.n && !self.over && !o.over;
        macro_rules! c { ($($k:literal)*) => { $( if $k < W { same &= self.w[$k % W] == o.w[$k % W]; } )* } }
        words!(c);
        same
    }
    #[inline(always)]
    pub const fn push(&mut self, s: &[u8]) {
        #[cfg(not(feature = "wide"))]
        self.push24(s);
        // longer tokens are appended in pieces
        #[cfg(feature = "wide")]
        if s.len() <= 24 {
            self.push24(s)
        } else if s.len() <= 48 {
            let (a, b) = s.split_at(24);
            self.push24(a);
            self.push24(b)
        } else {
            self.over = true
        }
    }
    const fn push24(&mut self, b: &[u8]) {
        let len = b.len();
        if len > 24 || self.n.wrapping_add(len) > 8 * W {
            self.over = true;
            return;
        }
        let mut t = [0u64; 3];
        macro_rules! ld { ($($i:literal)*) => { $( if $i < len { t[$i / 8] |= (b[$i] as u64) << (8 * ($i % 8)); } )* } }
        ld!(0 1 2 3);
        if len > 4 {
            ld!(4 5 6 7);
            if len > 8 {
                ld!(8 9 10 11);
                if len > 12 {
                    ld!(12 13 14 15 16 17 18 19 20 21 22 23);
                }
            }
        }
        let q = self.n / 8;
        let r = (self.n % 8) as u32 * 8;
        let z = r == 0;
        let a = [
            t[0] << r,
            if z { t[1] } else { t[1] << r | t[0] >> (64 - r) },
            if z { t[2] } else { t[2] << r | t[1] >> (64 - r) },
            if z { 0 } else { t[2] >> (64 - r) },
        ];
        macro_rules! st { ($($k:literal)*) => { $( if $k < W {
            let w = &mut self.w[$k % W];
            if q == $k { *w |= a[0]; }
            if q.wrapping_add(1) == $k { *w |= a[1]; }
            if q.wrapping_add(2) == $k { *w |= a[2]; }
            if q.wrapping_add(3) == $k { *w |= a[3]; }
        } )* } }
        words!(st);
        self.n = self.n.wrapping_add(len);
    }
    pub const fn push_dec(&mut self, v: u8) {
        let (h, t, u) = (v / 100, v / 10 % 10, v % 10);
        let d = [h + b'0', t + b'0', u + b'0'];
        if v >= 100 {
            self.push24(&d);
        } else if v >= 10 {
            self.push24(&[d[1], d[2]]);
        } else {
            self.push24(&[d[2]]);
        }
    }
    /// These bytes as the parameters of one whole sequence.
    pub const fn framed(&self) -> Self {
        let mut r = *self;
        macro_rules! c { ($($k:literal)*) => { $( if $k < W {
            r.w[$k % W] = self.w[$k % W] << 16 | if $k == 0 { 0x5b1b } else { self.w[($k + W - 1) % W] >> 48 };
        } )* } }
        words!(c);
        if self.n + 2 > 8 * W {
            r.over = true;
            return r;
        }
        r.n = self.n + 2;
        r.push24(b"m");
        r
    }
    /// Interprets everything written so far.
    #[inline(always)]
    pub fn run(&self, t: &mut Term) {
        macro_rules! step { ($($i:literal)*) => { $( if $i < W {
            let w = self.w[$i % W];
            t.byte(w as u8, 8 * $i < self.n);
            t.byte((w >> 8) as u8, 8 * $i + 1 < self.n);
            t.byte((w >> 16) as u8, 8 * $i + 2 < self.n);
            t.byte((w >> 24) as u8, 8 * $i + 3 < self.n);
            t.byte((w >> 32) as u8, 8 * $i + 4 < self.n);
            t.byte((w >> 40) as u8, 8 * $i + 5 < self.n);
            t.byte((w >> 48) as u8, 8 * $i + 6 < self.n);
            t.byte((w >> 56) as u8, 8 * $i + 7 < self.n);
        } )* } }
        for24!(step);
    }
}

impl<const W: usize> Write for Buf<W> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.push(s.as_bytes());
        Ok(())
    }
}

/// A sink whose write calls fail from a chosen call on.
pub struct Failing<const W: usize> {
    pub out: Buf<W>,
    /// number of write calls seen
    pub calls: u8,
    /// index of the call that fails (255: none)
    pub fail_at: u8,
    /// a call was made after one had failed
    pub after: bool,
}

impl<const W: usize> Write for Failing<W> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let c = self.calls;
        self.calls = c.wrapping_add(1);
        self.after |= c > self.fail_at;
        if c >= self.fail_at {
            return Err(fmt::Error);
        }
        self.out.push(s.as_bytes());
        Ok(())
    }
}

/// Counts bytes.
pub struct Count(pub usize);
impl Write for Count {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 = self.0.wrapping_add(s.len());
        Ok(())
    }
}

/// Any formatting options.
pub fn any_opts() -> FormattingOptions {
    use crate::nd;
    let mut o = FormattingOptions::new();
    o.sign(match nd::below(3) {
        0 => None,
        1 => Some(fmt::Sign::Plus),
        _ => Some(fmt::Sign::Minus),
    });
    o.alternate(nd::bool());
    o.sign_aware_zero_pad(nd::bool());
    o.align(match nd::below(4) {
        0 => None,
        1 => Some(fmt::Alignment::Left),
        2 => Some(fmt::Alignment::Center),
        _ => Some(fmt::Alignment::Right),
    });
    o.fill(nd::below(128) as char);
    let (w, p) = (nd::u16(), nd::u16());
    o.width(if nd::bool() { Some(w) } else { None });
    o.precision(if nd::bool() { Some(p) } else { None });
    o
}

/// Calls `f` with a plain formatter writing into `b`.
#[inline(always)]
pub fn with_fmt(b: &mut impl Write, f: impl FnOnce(&mut Formatter<'_>) -> fmt::Result) -> bool {
    with_fmt_opts(b, FormattingOptions::new(), f)
}

/// Calls `f` with a formatter carrying the given options.
#[inline(always)]
pub fn with_fmt_opts(
    b: &mut impl Write,
    o: FormattingOptions,
    f: impl FnOnce(&mut Formatter<'_>) -> fmt::Result,
) -> bool {
    let mut fm = Formatter::new(b, o);
    f(&mut fm).is_ok()
}

// Colors as the terminal holds them. Numbers are kept in decimal (BCD), as they
// arrive, so that the solver has no base conversion to reason about.
pub type Shade = u64;
pub const DEFAULT: Shade = 0;
pub const fn bcd(v: u8) -> u64 {
    ((v / 100) as u64) << 8 | ((v % 100 / 10) as u64) << 4 | (v % 10) as u64
}
pub const fn palette16(i: u8) -> Shade {
    1 << 60 | i as u64
}
pub const fn palette256(i: u8) -> Shade {
    2 << 60 | bcd(i)
}
pub const fn rgb24(r: u8, g: u8, b: u8) -> Shade {
    3 << 60 | bcd(r) << 24 | bcd(g) << 12 | bcd(b)
}

pub const N_EFF: usize = 13;
/// ECMA-48 / xterm SGR codes that switch an effect on, in declaration order of `Effect`.
pub const SET: [u8; N_EFF] = [1, 2, 3, 4, 21, 5, 6, 7, 8, 9, 53, 73, 74];
/// Codes that switch effects off, with the effects they switch off.
pub const CLEAR: [(u8, u16); 9] = [
    (22, 0b11),
    (23, 0b100),
    (24, 0b11000),
    (25, 0b110_0000),
    (27, 1 << 7),
    (28, 1 << 8),
    (29, 1 << 9),
    (55, 1 << 10),
    (75, 3 << 11),
];
/// The effects one "off" code necessarily removes together with effect `i`.
pub const GROUP: [u16; N_EFF] = [
    0b11, 0b11, 0b100, 0b11000, 0b11000, 0b110_0000, 0b110_0000, 1 << 7, 1 << 8, 1 << 9, 1 << 10, 3 << 11, 3 << 11,
];

/// Select Graphic Rendition state of a terminal (ECMA-48 8.3.117 plus the xterm
/// extensions for 256/24-bit colors, underline color and super/subscript).
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Term {
    /// 0 between sequences, 1 after ESC, 2 in a parameter
    st: u8,
    /// the parameter so far, in BCD
    num: u16,
    digits: u8,
    /// progress of an extended color (38, 48, 58)
    x: u8,
    layer: u8,
    acc: u64,
    /// something other than complete, known SGR sequences was received
    pub bad: bool,
    pub fg: Shade,
    pub bg: Shade,
    pub ul: Shade,
    pub eff: u16,
}

macro_rules! m16 {
    ($b:expr, $m:expr) => {
        $m & 0u16.wrapping_sub($b as u16)
    };
}
macro_rules! sel {
    ($b:expr, $x:expr, $y:expr) => {{
        let m = 0u64.wrapping_sub($b as u64);
        ($x & m) | ($y & !m)
    }};
}

impl Term {
    pub fn new(fg: Shade, bg: Shade, ul: Shade, eff: u16) -> Term {
        Term { st: 0, num: 0, digits: 0, x: 0, layer: 0, acc: 0, bad: false, fg, bg, ul, eff }
    }
    /// No partial sequence is pending and nothing malformed was seen.
    pub fn clean(&self) -> bool {
        !self.bad && self.st == 0
    }
    /// The parameter in `num` ends (if `end`), and the sequence with it (if `m`).
    #[inline(always)]
    fn param(&mut self, end: bool, m: bool) {
        let n = self.num;
        let big = end & (n > 0x255);
        let x = self.x;
        let p0 = end & (x == 0);
        let mut set = 0u16;
        let mut clr = 0u16;
        macro_rules! s { ($($i:literal)*) => { $( set |= m16!(n == bcd(SET[$i]) as u16, 1u16 << $i); )* } }
        s!(0 1 2 3 4 5 6 7 8 9 10 11 12);
        macro_rules! cc { ($($i:literal)*) => { $( clr |= m16!(n == bcd(CLEAR[$i].0) as u16, CLEAR[$i].1); )* } }
        cc!(0 1 2 3 4 5 6 7 8);
        let zero = n == 0;
        clr |= m16!(zero, 0xffff);
        let (tens, unit) = (n >> 4, (n & 15) as u64);
        let u8th = unit < 8;
        let (fl, bl, fh, bh) = ((tens == 3) & u8th, (tens == 4) & u8th, (tens == 9) & u8th, (tens == 0x10) & u8th);
        let (x38, x48, x58) = (n == 0x38, n == 0x48, n == 0x58);
        let known = ((set | clr) != 0) | fl | bl | fh | bh | x38 | x48 | x58 | (n == 0x39) | (n == 0x49) | (n == 0x59);
        self.eff = m16!(!p0, self.eff) | m16!(p0, ((self.eff & !clr) | set));
        let p1 = end & (x == 1);
        let p2 = end & (x == 2);
        let p34 = end & ((x == 3) | (x == 4));
        let p5 = end & (x == 5);
        self.bad |= big | (p0 & !known) | (p1 & (n != 5) & (n != 2));
        let acc = self.acc << 12 | n as u64;
        let val = sel!(p2, (2u64 << 60 | n as u64), (3u64 << 60 | acc));
        let wr = p2 | p5;
        let l = self.layer;
        let f0 = sel!(wr & (l == 0), val, self.fg);
        let f1 = sel!(p0 & (fl | fh), (1u64 << 60 | (fh as u64) << 3 | unit), f0);
        self.fg = sel!(p0 & (zero | (n == 0x39)), 0, f1);
        let b0 = sel!(wr & (l == 1), val, self.bg);
        let b1 = sel!(p0 & (bl | bh), (1u64 << 60 | (bh as u64) << 3 | unit), b0);
        self.bg = sel!(p0 & (zero | (n == 0x49)), 0, b1);
        let u0 = sel!(wr & (l == 2), val, self.ul);
        self.ul = sel!(p0 & (zero | (n == 0x59)), 0, u0);
        let a0 = sel!(p34, (acc & 0xff_ffff), self.acc);
        self.acc = sel!(p1, 0, a0);
        let nx = p0 & (x38 | x48 | x58);
        self.layer = if nx { (x48 as u8) | (x58 as u8) << 1 } else { l };
        self.x = if end { if nx { 1 } else if p1 { if n == 5 { 2 } else { 3 } } else if p34 { x.wrapping_add(1) } else { 0 } } else { x };
        self.bad |= end & m & (self.x != 0);
    }
    /// Feeds a byte (straight-line on purpose: cheap for the solver).
    #[inline(always)]
    pub fn byte(&mut self, b: u8, live: bool) {
        let (esc, br, semi, m) = (b == 0x1b, b == b'[', b == b';', b == b'm');
        let dig = (b >= b'0') & (b <= b'9');
        let (g, e, c) = (self.st == 0, self.st == 1, self.st == 2);
        let end = live & c & (semi | m);
        self.bad |= live
            & ((g & !esc) | (e & !br) | (c & !(dig | semi | m)) | (c & dig & (self.digits == 7)) | (end & (self.digits == 0)));
        self.param(end, m);
        let cd = c & dig;
        self.num = if cd { (self.num << 4 | (b & 15) as u16) & 0xfff } else { 0 };
        self.digits = if cd { self.digits << 1 | 1 } else { 0 } & 7;
        self.st = if live { if g { esc as u8 } else if e { 2 } else if m { 0 } else { 2 } } else { self.st };
    }
}

/// A terminal that interprets every write as it comes.
///
/// Writes that are one piece of a sequence (`ESC [`, a parameter, a separator, the
/// final `m`, or those together) and writes that hold one whole extended color are
/// interpreted piece by piece; `selfcheck` shows this agrees with `Term::byte`.
/// Anything else is reported as `over`, and settled by a run with feature `wide`
/// (as well as natively), where every byte goes through `Term::byte`.
#[derive(Clone, Copy)]
pub struct Live {
    pub t: Term,
    pub over: bool,
    /// something was written
    pub wrote: bool,
}
macro_rules! for19 {
    ($m:ident) => { $m!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18) };
}
impl Live {
    pub fn new(t: Term) -> Live {
        Live { t, over: false, wrote: false }
    }
    #[inline(always)]
    pub fn bytes(&mut self, b: &[u8]) {
        let n = b.len();
        macro_rules! step { ($($i:literal)*) => { $( if $i < n { self.t.byte(b[$i], true); } )* } }
        for24!(step);
        macro_rules! more { ($($i:literal)*) => { $( if 24 + $i < n { self.t.byte(b[24 + $i], true); } )* } }
        for24!(more);
        macro_rules! yet { ($($i:literal)*) => { $( if 48 + $i < n { self.t.byte(b[48 + $i], true); } )* } }
        for24!(yet);
        self.over |= n > 72;
    }
    #[inline(always)]
    pub fn pieces(&mut self, b: &[u8]) {
        let n = b.len();
        let b0 = if n > 0 { b[0] } else { 0 };
        let b1 = if n > 1 { b[1] } else { 0 };
        let p = (b0 == 0x1b) & (b1 == b'[');
        if n <= 4 || (n == 5 && p) {
            let b2 = if n > 2 { b[2] } else { 0 };
            let b3 = if n > 3 { b[3] } else { 0 };
            let b4 = if n > 4 { b[4] } else { 0 };
            let e = if p { [b2, b3, b4, 0] } else { [b0, b1, b2, b3] };
            let k = if p { n.wrapping_sub(2) } else { n };
            self.over |= k > 4;
            macro_rules! is { ($c:expr) => { ((k == 1) & (e[0] == $c)) | ((k == 2) & (e[1] == $c)) | ((k == 3) & (e[2] == $c)) | ((k == 4) & (e[3] == $c)) } }
            let m = is!(b'm');
            let end = m | is!(b';');
            let nd = if end { k.wrapping_sub(1) } else { k };
            let t = &mut self.t;
            t.bad |= (n > 0) & if p { t.st != 0 } else { t.st != 2 };
            t.num = if p { 0 } else { t.num };
            t.digits = if p { 0 } else { t.digits };
            macro_rules! dig { ($($i:literal)*) => { $(
                let live = $i < nd;
                self.over |= live & !((e[$i] >= b'0') & (e[$i] <= b'9'));
                t.bad |= live & (t.digits == 7);
                t.num = if live { (t.num << 4 | (e[$i] & 15) as u16) & 0xfff } else { t.num };
                t.digits = if live { t.digits << 1 | 1 } else { t.digits } & 7;
            )* } }
            dig!(0 1 2 3);
            t.bad |= end & (t.digits == 0);
            t.param(end, m);
            t.num = if end { 0 } else { t.num };
            t.digits = if end { 0 } else { t.digits };
            t.st = if n == 0 { t.st } else if m { 0 } else { 2 };
        } else {
            let mut acc = 0u64;
            let mut np = 0u8;
            let mut dg = 0u8;
            let mut odd = n > 19;
            let mut m = false;
            macro_rules! lex { ($($i:literal)*) => { $( if $i < n {
                let c = b[$i];
                let dig = (c >= b'0') & (c <= b'9');
                let semi = c == b';';
                let last = c == b'm';
                let live = !p | ($i > 1);
                m |= last & ($i + 1 == n);
                odd |= live & ((last & ($i + 1 != n)) | !(dig | semi | last) | ((dg == 7) & dig) | ((dg == 0) & !dig));
                acc = if live & dig { (acc & !0xfff) | ((acc << 4 | (c & 15) as u64) & 0xfff) } else if live & semi { acc << 12 } else { acc };
                np = np.wrapping_add((live & semi) as u8);
                dg = if live & dig { dg << 1 | 1 } else if live & semi { 0 } else { dg };
            } )* } }
            for19!(lex);
            let rgb = np == 4;
            // `38;2;` or `38;5;`: only the head of an extended color
            let head = (np == 2) & (dg == 0) & !m;
            let l0 = if rgb { acc >> 48 } else { acc >> 24 } as u16 & 0xfff;
            let l1 = if rgb { acc >> 36 } else { acc >> 12 } as u16 & 0xfff;
            let (r, g, x) = ((acc >> 24) & 0xfff, (acc >> 12) & 0xfff, acc & 0xfff);
            odd |= if rgb { l1 != 2 } else { ((l1 != 5) & !(head & (l1 == 2))) | (np != 2) };
            odd |= (dg == 0) & !head;
            let t = &mut self.t;
            let (x38, x48, x58) = (l0 == 0x38, l0 == 0x48, l0 == 0x58);
            odd |= !(x38 | x48 | x58);
            odd |= !p & ((t.x != 0) | (t.digits != 0));
            t.bad |= if p { t.st != 0 } else { t.st != 2 };
            t.bad |= (rgb & ((r > 0x255) | (g > 0x255))) | (m & (x > 0x255));
            let val = if rgb { 3u64 << 60 | (acc & 0xf_ffff_ffff) } else { 2u64 << 60 | x };
            t.fg = if m & x38 { val } else { t.fg };
            t.bg = if m & x48 { val } else { t.bg };
            t.ul = if m & x58 { val } else { t.ul };
            t.layer = (x48 as u8) | (x58 as u8) << 1;
            t.x = if m { 0 } else if rgb { 5 } else if head & (l1 == 2) { 3 } else { 2 };
            t.acc = if rgb { r << 12 | g } else { 0 };
            t.num = if m { 0 } else { x as u16 };
            t.digits = if m { 0 } else { dg };
            t.st = if m { 0 } else { 2 };
            self.over |= odd;
        }
    }
}
impl Write for Live {
    #[inline(always)]
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.wrote |= !s.is_empty();
        if cfg!(all(kani, not(feature = "wide"))) {
            self.pieces(s.as_bytes())
        } else {
            self.bytes(s.as_bytes())
        }
        Ok(())
    }
}

/// `pieces` agrees with `bytes` on any write from any state, unless it says `over`.
#[cfg(kani)]
mod selfcheck {
    use super::*;
    fn any_term() -> Term {
        let t = Term {
            st: kani::any(),
            num: kani::any(),
            digits: kani::any(),
            x: kani::any(),
            layer: kani::any(),
            acc: kani::any(),
            bad: kani::any(),
            fg: kani::any(),
            bg: kani::any(),
            ul: kani::any(),
            eff: kani::any(),
        };
        kani::assume(t.st <= 2 && t.num <= 0xfff && t.x <= 5 && t.layer <= 2 && t.acc <= 0xff_ffff);
        kani::assume(t.digits == 0 || t.digits == 1 || t.digits == 3 || t.digits == 7);
        kani::assume(t.st == 2 || (t.digits == 0 && t.x == 0));
        kani::assume(t.digits != 0 || t.num == 0);
        kani::assume(t.x != 1 && t.x != 3 || t.acc == 0);
        t
    }
    fn same(a: &Term, b: &Term) -> bool {
        a.bad == b.bad
            && (a.bad
                || a.st == b.st && a.num == b.num && a.digits == b.digits && a.x == b.x && (a.x == 0 || a.layer == b.layer)
                    && (a.x == 0 || a.x == 2 || a.acc == b.acc)
                    && a.fg == b.fg && a.bg == b.bg && a.ul == b.ul && a.eff == b.eff)
    }
    #[kani::proof]
    fn pieces_agree_short() {
        let buf: [u8; 5] = kani::any();
        let n: usize = kani::any();
        kani::assume(n <= 5);
        let mut a = Live::new(any_term());
        let mut b = a;
        a.pieces(&buf[..n]);
        b.bytes(&buf[..n]);
        kani::cover!(!a.over && !a.t.bad && n == 5, "reach");
        assert!(a.over || same(&a.t, &b.t));
    }
    #[kani::proof]
    fn pieces_agree_long() {
        let buf: [u8; 19] = kani::any();
        let n: usize = kani::any();
        kani::assume(n > 5 && n <= 19);
        let mut a = Live::new(any_term());
        let mut b = a;
        a.pieces(&buf[..n]);
        b.bytes(&buf[..n]);
        kani::cover!(!a.over && !a.t.bad && n == 19, "reach");
        assert!(a.over || same(&a.t, &b.t));
    }
}
