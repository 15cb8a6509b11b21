//! C25: colours, effects, sets and styles are equal exactly when their content is, and
//! equal values hash alike.
use crate::csstable::CSS;
use crate::gen::*;
use crate::nd;
use crate::want::dec::*;
use colorz::rgb::RgbColor;
use colorz::xterm::XtermColor;
use colorz::{Color, Effect, EffectFlags, Style};
use core::hash::{Hash, Hasher};

/// Everything fed to a hasher.
struct Fed {
    n: usize,
    b: [u64; N],
}
const N: usize = if cfg!(feature = "wide") { 128 } else { 40 };
impl Fed {
    fn by<T: Hash>(x: &T) -> Fed {
        let mut f = Fed { n: 0, b: [0; N] };
        x.hash(&mut f);
        f
    }
    fn same(&self, o: &Fed) -> bool {
        let mut same = self.n == o.n;
        for i in 0..N {
            same &= self.b[i] == o.b[i];
        }
        same
    }
    fn put(&mut self, v: u64, tag: u64) {
        assert!(self.n + 1 < N, "HARNESS_BOUND: hasher");
        self.b[self.n] = v;
        self.b[self.n + 1] = tag;
        self.n += 2;
    }
}
impl Hasher for Fed {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.put(*x as u64, 0);
        }
    }
    fn write_u8(&mut self, v: u8) { self.put(v as u64, 1) }
    fn write_u16(&mut self, v: u16) { self.put(v as u64, 2) }
    fn write_u32(&mut self, v: u32) { self.put(v as u64, 3) }
    fn write_u64(&mut self, v: u64) { self.put(v, 4) }
    fn write_usize(&mut self, v: usize) { self.put(v as u64, 5) }
    fn write_isize(&mut self, v: isize) { self.put(v as u64, 6) }
}
/// `a` and `b`, with contents `x` and `y`.
fn agree<T: PartialEq + Eq + Hash + Clone, C: PartialEq>(a: T, b: T, x: C, y: C) {
    assert!((a == b) == (x == y), "equal exactly with equal content");
    assert!((a != b) == (x != y), "different exactly with different content");
    assert!((b == a) == (x == y), "equal both ways");
    assert!(a.clone() == a, "a clone is equal");
    if x == y {
        assert!(Fed::by(&a).same(&Fed::by(&b)), "equal values hash alike");
    }
}

const N_CSS: u8 = CSS.len() as u8;
/// Any colour, and what distinguishes it.
fn any_color() -> (Color, (u8, [u8; 3])) {
    let v = [nd::u8(), nd::u8(), nd::u8()];
    match nd::below(4) {
        0 => {
            nd::assume(v[0] < 17);
            (Color::Ansi(ANSI[v[0] as usize]), (0, [v[0], 0, 0]))
        }
        1 => (Color::Xterm(XtermColor::from_code(v[0])), (1, [v[0], 0, 0])),
        2 => {
            nd::assume(v[0] < N_CSS);
            (Color::Css(CSS[v[0] as usize]), (2, [v[0], 0, 0]))
        }
        _ => (Color::Rgb(RgbColor { red: v[0], green: v[1], blue: v[2] }), (3, v)),
    }
}
type O = Option<Color>;
type Slot = Option<(u8, [u8; 3])>;
fn any_slot() -> (O, Slot) {
    let (c, d) = any_color();
    if nd::bool() {
        (Some(c), Some(d))
    } else {
        (None, None)
    }
}
fn any_style() -> (Style<O, O, O>, (Slot, Slot, Slot, u16)) {
    let ((f, x), (b, y), (u, z), m) = (any_slot(), any_slot(), any_slot(), any_mask());
    (Style::new().fg(f).bg(b).underline_color(u).effect_flags(flags(m)), (x, y, z, m))
}
fn any_effect() -> (Effect, u8) {
    let i = nd::below(13);
    (EFFECTS[i as usize], i)
}
/// A set reached by a detour: members removed again, or toggled twice.
fn any_set() -> (EffectFlags, u16) {
    let (mut m, (e, i)) = (any_mask(), any_effect());
    let mut s = flags(m);
    match nd::below(3) {
        0 => {}
        1 => {
            s = s.with(e).without(e);
            m &= !(1 << i);
        }
        _ => s = s.toggled(e).toggled(e),
    }
    (s, m)
}
macro_rules! pair { ($any:expr) => {{
    let ((a, x), (b, y)) = ($any, $any);
    agree(a, b, x, y);
}} }

harnesses! {
    #[kani::unwind(42)]
    fn colors() { pair!(any_color()) }
    #[kani::unwind(42)]
    fn ansi() { pair!({ let i = nd::below(17); (ANSI[i as usize], i) }) }
    #[kani::unwind(42)]
    fn xterm() { pair!({ let i = nd::u8(); (XtermColor::from_code(i), i) }) }
    #[kani::unwind(42)]
    fn css() { pair!({ let i = nd::below(N_CSS); (CSS[i as usize], i) }) }
    #[kani::unwind(42)]
    fn rgb() { pair!({ let v = [nd::u8(), nd::u8(), nd::u8()]; (RgbColor { red: v[0], green: v[1], blue: v[2] }, v) }) }
    #[kani::unwind(42)]
    fn effects() { pair!(any_effect()) }
    #[kani::unwind(42)]
    fn sets() { pair!(any_set()) }
    #[kani::unwind(42)]
    fn styles() { pair!(any_style()) }
    #[kani::unwind(42)]
    fn typed_styles() {
        pair!({
            let (m, x) = (any_mask(), nd::u8());
            (Style::new().fg(colorz::ansi::Green).bg(XtermColor::from_code(x)).underline_color(colorz::css::Tomato).effect_flags(flags(m)), (m, x))
        })
    }
    #[kani::unwind(42)]
    fn settings() {
        let (m, n) = (nd::below(3), nd::below(3));
        assert!((mode(m) == mode(n)) == (m == n), "equal exactly with equal content");
        pair!({ let i = nd::below(4); (stream(i), i) });
        pair!({ let i = nd::below(4); (kind(i), i) });
    }
}
