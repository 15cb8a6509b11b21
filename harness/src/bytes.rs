//! Arbitrary short byte strings and texts.
use crate::nd;

#[derive(Clone, Copy)]
pub struct Bytes<const N: usize> {
    pub b: [u8; N],
    pub n: usize,
}
impl<const N: usize> Bytes<N> {
    pub fn any() -> Self {
        let mut b = [0; N];
        let n = nd::below(N as u8 + 1) as usize;
        let mut i = 0;
        while i < N {
            b[i] = nd::u8();
            i += 1;
        }
        Bytes { b, n }
    }
    pub fn as_bytes(&self) -> &[u8] {
        &self.b[..self.n]
    }
    /// Any well-formed text of at most `N` bytes.
    pub fn any_text() -> Self {
        #[allow(unused_mut)]
        let mut t = Self::any();
        #[cfg(not(kani))]
        if !t.well_formed() {
            t.b.iter_mut().for_each(|b| *b &= 0x7f);
        }
        nd::assume(t.well_formed());
        t
    }
    pub fn as_str(&self) -> &str {
        unsafe { core::str::from_utf8_unchecked(self.as_bytes()) }
    }
    /// Table 3-7 of the Unicode Standard.
    pub fn well_formed(&self) -> bool {
        // continuation bytes still to come, and the range of the next one
        let (mut more, mut lo, mut hi) = (0u8, 0x80u8, 0xbfu8);
        let mut ok = true;
        let mut i = 0;
        while i < N {
            let c = self.b[i];
            if i < self.n {
                if more > 0 {
                    ok &= lo <= c && c <= hi;
                    more -= 1;
                    lo = 0x80;
                    hi = 0xbf;
                } else {
                    ok &= c < 0x80 || (0xc2 <= c && c <= 0xf4);
                    more = if c < 0xc2 { 0 } else if c < 0xe0 { 1 } else if c < 0xf0 { 2 } else { 3 };
                    lo = if c == 0xe0 { 0xa0 } else if c == 0xf0 { 0x90 } else { 0x80 };
                    hi = if c == 0xed { 0x9f } else if c == 0xf4 { 0x8f } else { 0xbf };
                }
            }
            i += 1;
        }
        ok && more == 0
    }
    /// Whether this is `word`, ignoring the case of ASCII letters (`word` is lower-case).
    pub fn is_ignoring_case(&self, word: &[u8]) -> bool {
        self.matches(word, true)
    }
    pub fn is(&self, word: &[u8]) -> bool {
        self.matches(word, false)
    }
    fn matches(&self, word: &[u8], fold: bool) -> bool {
        let mut same = self.n == word.len();
        let mut i = 0;
        while i < word.len() && i < N {
            let c = self.b[i];
            same &= c == word[i] || (fold && b'A' <= c && c <= b'Z' && c + 32 == word[i]);
            i += 1;
        }
        same
    }
}
