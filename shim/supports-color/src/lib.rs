//! Environment model for the `supports-color` crate.
//!
//! The real crate inspects environment variables and terminal state. Here every
//! answer is a value the harness chose (symbolic under the solver, read from the
//! counterexample tape in a native replay), constrained only by the documented
//! shape of the real answer. Calls are counted so caching can be observed.
use core::sync::atomic::{AtomicU8, Ordering::Relaxed};

/// Which stream is asked about.
#[derive(Clone, Copy, Debug)]
pub enum Stream {
    Stdout,
    Stderr,
}

/// The real type, with a private field as in the real crate.
#[derive(Debug, Clone, Copy, Hash, PartialEq, Eq)]
pub struct ColorLevel {
    level: usize,
    pub has_basic: bool,
    pub has_256: bool,
    pub has_16m: bool,
}

/// (Not just bytes: see vcore about statics and constants in Kani.)
struct Model {
    tag: [u64; 2],
    answer: [[AtomicU8; CALLS]; 2],
    calls: [AtomicU8; 2],
    /// the answer `on_cached` keeps, plus one
    cached: [AtomicU8; 2],
}
/// How many calls per stream can have different answers (the last one repeats).
pub const CALLS: usize = 4;
const NONE: AtomicU8 = AtomicU8::new(0);
static MODEL: Model = Model {
    tag: [0x2f86_b3d1_490c_e75a, 0xb74e_1c95_680f_da23],
    answer: [[NONE; CALLS], [NONE; CALLS]],
    calls: [NONE, NONE],
    cached: [NONE, NONE],
};

/// Sets the answer (0 none, 1 basic, 2 256 colours, 3 16 million colours) of the
/// i-th call for one stream (0 stdout, 1 stderr).
pub fn model_set(stream: usize, call: usize, level: u8) {
    MODEL.answer[stream][call].store(level, Relaxed)
}

/// How often the stream was probed.
pub fn model_calls(stream: usize) -> u8 {
    let _ = MODEL.tag;
    MODEL.calls[stream].load(Relaxed)
}

fn ask(i: usize) -> u8 {
    let c = MODEL.calls[i].load(Relaxed);
    MODEL.calls[i].store(c.saturating_add(1), Relaxed);
    let k = (c as usize).min(CALLS - 1);
    MODEL.answer[i][k].load(Relaxed)
}
fn level(level: u8) -> Option<ColorLevel> {
    if level == 0 {
        return None;
    }
    Some(ColorLevel {
        level: level as usize,
        has_basic: true,
        has_256: level >= 2,
        has_16m: level >= 3,
    })
}
fn index(stream: Stream) -> usize {
    match stream {
        Stream::Stdout => 0,
        Stream::Stderr => 1,
    }
}

pub fn on(stream: Stream) -> Option<ColorLevel> {
    level(ask(index(stream)))
}

pub fn on_cached(stream: Stream) -> Option<ColorLevel> {
    let i = index(stream);
    let c = MODEL.cached[i].load(Relaxed);
    if c != 0 {
        return level(c - 1);
    }
    let l = ask(i);
    MODEL.cached[i].store(l + 1, Relaxed);
    level(l)
}
