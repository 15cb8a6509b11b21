//! C19: effect collections behave as sets.
use crate::gen::*;
use crate::nd;
use colorz::{Effect, EffectFlags};

fn any_effect() -> (usize, Effect) {
    let i = nd::below(N_EFFECTS) as usize;
    (i, EFFECTS[i])
}
const N_EFFECTS: u8 = 13;
const ALL_MASK: u16 = 0x1fff;
/// `e` is the set with these members, in every way it can be observed.
fn is(e: EffectFlags, mask: u16, what: &'static str) {
    assert!(mask_of(e) == mask, "{}", what);
    assert!(e == flags(mask), "equal sets compare equal");
    assert!(e.is_plain() == (mask == 0), "emptiness");
}
/// The members that an iterator yields, which must come once, in order, and then end.
fn members(mut it: impl Iterator<Item = Effect>) -> u16 {
    let (mut m, mut last) = (0u16, -1i8);
    macro_rules! step { ($($i:literal)*) => { $(
        let _ = $i;
        if let Some(e) = it.next() {
            assert!(e as u8 as i8 > last, "members in declaration order, once each");
            last = e as u8 as i8;
            m |= 1 << index(e);
        } else {
            assert!(it.next().is_none(), "iteration ends");
        }
    )* } }
    step!(0 1 2 3 4 5 6 7 8 9 10 11 12);
    assert!(it.next().is_none(), "iteration ends");
    assert!(it.next().is_none(), "iteration ends");
    m
}
/// The position of an effect in declaration order.
fn index(e: Effect) -> u8 {
    let mut i = 0;
    macro_rules! s { ($($i:literal)*) => { $( if e == EFFECTS[$i] { i = $i; } )* } }
    s!(0 1 2 3 4 5 6 7 8 9 10 11 12);
    i
}
fn mask4(i: [usize; 4], n: usize) -> u16 {
    let mut m = 0;
    macro_rules! s { ($($k:literal)*) => { $( if $k < n { m |= 1 << i[$k]; } )* } }
    s!(0 1 2 3);
    m
}

/// Any sequence of changes, from any set, by value and in place.
fn history(n: u8) {
    let mut mask = any_mask();
    let mut e = flags(mask);
    for _ in 0..n {
        let (i, x) = any_effect();
        match nd::below(6) {
            0 => { e = e.with(x); mask |= 1 << i; }
            1 => { e = e.without(x); mask &= !(1 << i); }
            2 => { e = e.toggled(x); mask ^= 1 << i; }
            3 => { e.set(x); mask |= 1 << i; }
            4 => { e.unset(x); mask &= !(1 << i); }
            _ => { e.toggle(x); mask ^= 1 << i; }
        }
        is(e, mask, "members after a change");
    }
}

harnesses! {
    #[kani::unwind(18)]
    fn constants() {
        is(EffectFlags::new(), 0, "new");
        is(EffectFlags::default(), 0, "default");
        is(EffectFlags::all(), ALL_MASK, "all");
        let (i, x) = any_effect();
        assert!(x as usize == i, "effects are declared in order");
        is(EffectFlags::new().with(x), 1 << i, "singleton");
        is(EffectFlags::all().without(x), ALL_MASK & !(1 << i), "all but one");
    }
    #[kani::unwind(18)]
    fn changes() {
        history(if cfg!(feature = "thorough") { 5 } else { 3 })
    }
    #[kani::unwind(18)]
    fn by_value_leaves_the_original() {
        let mask = any_mask();
        let e = flags(mask);
        let (_, x) = any_effect();
        let r = (e.with(x), e.without(x), e.toggled(x), e.is(x), e.is_any(flags(any_mask())), members(e.iter()));
        let _ = r;
        is(e, mask, "unchanged by methods that take it by value");
    }
    #[kani::unwind(18)]
    fn membership() {
        let (a, b) = (any_mask(), any_mask());
        let (i, x) = any_effect();
        assert!(flags(a).is(x) == (a & 1 << i != 0), "membership");
        assert!(flags(a).is_any(flags(b)) == (a & b != 0), "intersection");
        assert!((flags(a) == flags(b)) == (a == b), "equality");
        assert!((flags(a) != flags(b)) == (a != b), "equality");
    }
    #[kani::unwind(18)]
    fn iteration() {
        let m = any_mask();
        assert!(members(flags(m).iter()) == m, "iter yields the members");
    }
    #[kani::unwind(18)]
    fn into_iteration() {
        let m = any_mask();
        assert!(members(flags(m).into_iter()) == m, "into_iter yields the members");
    }
    /// an iterator and its clone do not disturb each other
    #[kani::unwind(18)]
    fn cloned_iteration() {
        let m = any_mask();
        let mut it = flags(m).iter();
        let skip = nd::below(3);
        let mut rest = m;
        for _ in 0..skip {
            it.next();
            rest &= rest.wrapping_sub(1);
        }
        let c = it.clone();
        assert!(members(it) == rest, "the original yields the rest");
        assert!(members(c) == rest, "a clone yields the rest");
    }
    /// the iterator's other methods agree with taking one member at a time
    #[kani::unwind(18)]
    fn adapters() {
        let mut m = any_mask();
        let mut it = flags(m).iter();
        if nd::bool() {
            it.next();
            m &= m.wrapping_sub(1);
        }
        let n = m.count_ones() as usize;
        let (lo, hi) = it.size_hint();
        assert!(lo <= n && hi.is_none_or(|h| n <= h), "size hint");
        match nd::below(5) {
            0 => assert!(it.count() == n, "count"),
            1 => {
                let last = it.last().map(index);
                assert!(last == if m == 0 { None } else { Some(15 - m.leading_zeros() as u8) }, "last");
            }
            2 => {
                let k = nd::below(14);
                let got = it.nth(k as usize).map(index);
                let mut rest = m;
                for _ in 0..k {
                    rest &= rest.wrapping_sub(1);
                }
                assert!(got == if rest == 0 { None } else { Some(rest.trailing_zeros() as u8) }, "nth");
                assert!(members(it) == rest & rest.wrapping_sub(1), "what is left after nth");
            }
            3 => assert!(it.fold(0, |m, e| m | 1 << index(e)) == m, "fold"),
            _ => {
                let (i, x) = any_effect();
                assert!(it.any(|e| e == x) == (m & 1 << i != 0), "any");
                assert!(members(it) == if m & 1 << i != 0 { m & !((2 << i) - 1) } else { 0 }, "what is left after any");
            }
        }
    }
    #[kani::unwind(18)]
    fn arrays() {
        let (a, b, c, d) = (any_effect(), any_effect(), any_effect(), any_effect());
        let i = [a.0, b.0, c.0, d.0];
        is(EffectFlags::from_array([]), 0, "from_array");
        is(EffectFlags::from_array([a.1]), mask4(i, 1), "from_array");
        is(EffectFlags::from_array([a.1, b.1]), mask4(i, 2), "from_array");
        is(EffectFlags::from_array([a.1, b.1, c.1]), mask4(i, 3), "from_array");
        is(EffectFlags::from_array([a.1, b.1, c.1, d.1]), mask4(i, 4), "from_array");
    }
    #[kani::unwind(18)]
    fn iterators() {
        let (a, b, c, d) = (any_effect(), any_effect(), any_effect(), any_effect());
        let i = [a.0, b.0, c.0, d.0];
        let n = nd::below(5) as usize;
        let mut x = [a.1, b.1, c.1, d.1];
        let by = nd::below(3);
        let e: EffectFlags = match by {
            0 => x[..n].iter().copied().collect(),
            1 => x[..n].iter().collect(),
            _ => x[..n].iter_mut().collect(),
        };
        is(e, mask4(i, n), "collected");
    }
    /// collecting the members of a set gives the set
    #[kani::unwind(18)]
    fn round_trip() {
        let m = any_mask();
        is(flags(m).iter().collect(), m, "collected members");
    }
    /// every effect of an array counts, also in long ones
    #[kani::unwind(18)]
    fn whole_array() {
        let k = nd::below(13) as usize;
        let (i, x) = any_effect();
        let mut a = EFFECTS;
        a[k] = x;
        is(EffectFlags::from_array(a), (ALL_MASK & !(1 << k)) | 1 << i, "from_array");
    }
}
