//! C20: each effect has its standard on and off codes.
use crate::gen::*;
use crate::nd;
use crate::sink::*;
use crate::text::*;
use crate::want::check;
use colorz::Style;
use core::fmt::Write;

fn run(s: &str, t: Term) -> Live {
    let mut l = Live::new(t);
    let _ = l.write_str(s);
    l
}
harnesses! {
    #[kani::unwind(18)]
    fn apply() {
        let i = nd::below(13) as usize;
        let t = any_term();
        let mut w = t;
        w.eff |= 1 << i;
        check(&run(EFFECTS[i].apply_escape(), t), &w);
    }
    #[kani::unwind(18)]
    fn clear() {
        let i = nd::below(13) as usize;
        let t = any_term();
        let mut w = t;
        w.eff &= !group(1 << i);
        check(&run(EFFECTS[i].clear_escape(), t), &w);
    }
    #[kani::unwind(18)]
    fn arguments() {
        let e = EFFECTS[nd::below(13) as usize];
        same(&text(e.apply_args()).framed(), &text(e.apply_escape()), "apply arguments and sequence");
        same(&text(e.clear_args()).framed(), &text(e.clear_escape()), "clear arguments and sequence");
    }
    /// a style with the one effect writes that, too
    #[kani::unwind(18)]
    fn style_apply() {
        let i = nd::below(13) as usize;
        let t = any_term();
        let mut w = t;
        w.eff |= 1 << i;
        let mut l = Live::new(t);
        assert!(with_fmt(&mut l, |f| core::fmt::Display::fmt(&Style::new().with(EFFECTS[i]).apply(), f)));
        check(&l, &w);
    }
    #[kani::unwind(18)]
    fn style_clear() {
        let i = nd::below(13) as usize;
        let t = any_term();
        let mut w = t;
        w.eff &= !group(1 << i);
        let mut l = Live::new(t);
        assert!(with_fmt(&mut l, |f| core::fmt::Display::fmt(&Style::new().with(EFFECTS[i]).clear(), f)));
        check(&l, &w);
    }
}
