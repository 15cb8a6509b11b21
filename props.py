"""What each check runs, and what it claims."""
COMMON = [
    "Kani's translation of Rust MIR to CBMC's goto language and CBMC's bit-blasting are trusted; every counterexample is replayed natively",
    "compiled for x86_64 Linux, dev profile semantics (overflow checks and debug assertions on)",
]
UTF8 = "core::str::from_utf8 is replaced by an ASCII check (exact for ASCII; non-ASCII input is reported as a failure)"

SHIM = "supports_color::on is replaced by a model that reports any of the four levels (none, basic, 256, 16m) at each call"
EXACT = "under the solver the crate is compiled with its computed &str constants copied into allocations of their exact size (vcore::exact_str; Kani misreads other &str constants)"
STATICS = "under the solver the crate is compiled against vcore, which re-exports core with instrumented atomics (sequentially consistent, like any single-threaded run); native replays use the crate as it is"


def prop(functions, bounds, outside, assumptions=(), runs=None):
    return dict(functions=functions, bounds=bounds, outside=outside, assumptions=COMMON + list(assumptions), runs=runs or [dict(name="default")])


PROPS = {
    "C01": prop(
        "Style::{new,fg,bg,underline_color,effect_flags,apply}, fmt_apply, fmt_apply_slow, EffectFlags::{with,iter,is_any}, EffectFlagsIter::next, Effect::{apply_args,apply_escape}, Color/RgbColor/AnsiColor WriteColor",
        "all 2^13 effect sets x every 24-bit colour and its absence in each slot x every prior terminal state, per instantiation of Style listed in harness/src/c01.rs (all foreground/background kind combinations); loops unwound 15 times with unwinding assertions",
        "colour types not instantiated (their own encodings are C13-C17); terminals that do not implement the SGR model",
        [UTF8, "the terminal treats each effect as an independent attribute"],
    ),
    "C02": prop(
        "Style::{new,fg,bg,underline_color,effect_flags,clear}, fmt_clear, fmt_clear_slow, EffectFlags::{with,iter,is_any}, EffectFlagsIter::next, Effect::{clear_args,clear_escape}, ansi::Default WriteColor",
        "all 2^13 effect sets x every 24-bit colour and its absence in each slot x every terminal state, per instantiation of Style listed in harness/src/c02.rs; loops unwound 15 times with unwinding assertions",
        "colour types not instantiated; terminals that do not implement the SGR model",
        [UTF8, "an off-code switches off every effect it is specified for (22: bold and dim, 24, 25, 75 likewise)"],
    ),
    "C03": prop(
        "Style::{apply,clear,clear_all,is_plain}, Display and Debug of the markers, fmt_apply, fmt_clear",
        "all styles of the instantiations in harness/src/c03.rs; formatting options: every sign, alternate, zero flag, alignment, ASCII fill, 16-bit width and precision; loops unwound 15 times with unwinding assertions",
        "non-ASCII fill characters; debug-hex flags",
        [UTF8],
    ),
    "C04": prop(
        "StyledValue::fmt_with, Display, Debug, Binary, Octal, Pointer, LowerExp, UpperExp, LowerHex, UpperHex of StyledValue, Style::{apply,clear,should_color}, mode::*",
        "every mode, per-value stream, default stream, formatting options; one change of mode and default stream to any values at any of the first 20 writes; every style of three instantiations (optional RGB in all slots; compile-time foreground with RGB underline; compile-time foreground only, for each of the nine traits); loops unwound 15 times with unwinding assertions",
        "inner values that fail are C23; inner values that themselves write escape sequences; nested styled values are covered only as an inner value like any other",
        [UTF8, STATICS],
        runs=[dict(name="default", overlay="atomics")],
    ),
    "C05": prop(
        "mode::{should_color,should_color_slow (no detection),get_coloring_mode,set_coloring_mode,get_default_stream,set_default_stream}, Style::should_color, StyledValue::fmt_with",
        "every history of three decisions with optional changes of mode and default stream before each, every per-value stream, every list of up to four colour kinds; styles with every kind or absence of colour in each slot and every effect set",
        "longer histories (the settings are two independent registers, C10)",
        [UTF8, STATICS],
        runs=[dict(name="default", overlay="atomics")],
    ),
    "C06": prop(
        "mode::{should_color,should_color_slow (std),detect,get_coloring_mode,set_coloring_mode,get_default_stream,set_default_stream}",
        "every history of three decisions with optional changes of mode and default stream before each, every per-value stream, every list of up to two colour kinds, every answer of the terminal check at every call",
        "the operating system's answer itself; longer histories",
        [STATICS, "<Stdin, Stdout, Stderr as IsTerminal>::is_terminal are stubs returning an arbitrary answer at each call"],
        runs=[dict(name="std", features=["std"], overlay="atomics")],
    ),
    "C07": prop(
        "mode::{should_color,should_color_slow (supports-color),detect,ColorSupport::{encode,decode},get_coloring_mode,set_coloring_mode,get_default_stream,set_default_stream}",
        "every history of three decisions with optional changes of mode and default stream before each, every per-value stream, every list of up to five colour kinds, every capability level at each of the first four calls per stream",
        "the supports-color crate itself; longer histories",
        [STATICS, SHIM],
        runs=[dict(name="supports-color", features=["supports-color"], overlay="atomics"), dict(name="std", features=["std", "supports-color"], overlay="atomics")],
    ),
    "C08": prop(
        "mode::{should_color,get_coloring_mode,set_coloring_mode,set_default_stream,get_default_stream}, Style::{should_color,apply,clear}, StyledValue formatting",
        "every history of three decisions with changes before each; every style of the instantiation Style<Option<Rgb>, Rgb, Option<Rgb>> with Display, of two smaller ones with the other eight traits and with fmt_with, every option set; apply and clear from every terminal state for Style<Option<Rgb>, Option<Rgb>, Option<Rgb>>; with strip-colors alone, combined with std, and with std and supports-color (thorough tier: also with supports-color only)",
        "set_coloring_mode_from_env in this build is C09's strip-colors configuration",
        [STATICS, SHIM, UTF8],
        runs=[dict(name="strip", features=["strip-colors"], overlay="atomics"), dict(name="strip-std", features=["strip-colors", "std"], overlay="atomics"),
              dict(name="strip-all", features=["strip-colors", "std", "supports-color"], overlay="atomics"),
              dict(name="strip-support", features=["strip-colors", "supports-color"], overlay="atomics", tiers=("thorough",))],
    ),
    "C22": prop(
        "Style::should_color, WriteColor::color_kind, OptionalColor::color_kind for every colour type, mode::{should_color,should_color_slow (supports-color),detect}, StyledValue::fmt_with",
        "every colour kind or absence in each slot, generic, optional, nested and compile-time slot types, every effect set, every capability level of either stream, through the value's stream or the default stream",
        "the supports-color crate itself",
        [STATICS, SHIM, UTF8],
        runs=[dict(name="supports-color", features=["supports-color", "c07"], overlay="atomics")],
    ),
    "C09": prop(
        "Mode::from_env, mode::{set_coloring_mode_from_env,set_coloring_mode,get_coloring_mode,get_default_stream}",
        "each of the four variables unset or any value of up to eight non-NUL bytes (sixteen in the thorough tier), also not UTF-8, every previous mode and default stream; any content for any other variable",
        "longer values; operating systems other than Unix",
        [STATICS, "std::env::var_os is a stub reading an arbitrary environment; native replays set real variables"],
        runs=[dict(name="std", features=["std"], overlay="atomics"), dict(name="strip", features=["std", "strip-colors"], overlay="atomics")],
    ),
    "C10": prop(
        "mode::{set_coloring_mode,get_coloring_mode,set_default_stream,get_default_stream,should_color}, Mode and Stream {encode,decode}",
        "every sequence of four operations (write either register, decide) with reads of both after each; one decision, one read or one write with two settings by another thread, in order, happening at any points before each of its first five atomic accesses (eight with detection compiled in, where terminals have any fixed state)",
        "weak-memory behaviour (interleavings are sequentially consistent); concurrent detections (C24)",
        [STATICS, "a store by another thread is an atomic step between two atomic accesses of the decision"],
        runs=[dict(name="default", features=["vcore"], overlay="atomics", native_overlay="atomics"),
              dict(name="std", features=["std", "vcore"], overlay="atomics", native_overlay="atomics"),
              dict(name="supports-color", features=["supports-color", "vcore"], overlay="atomics", native_overlay="atomics")],
    ),
    "C24": prop(
        "mode::{should_color,should_color_slow (std; supports-color),detect,ColorSupport::{encode,decode}}, the detection caches",
        "one decision by another thread, whose stores happen at any points before each of the first four atomic accesses of a decision of this thread (eight accesses of two decisions in the thorough tier), then one more decision; optionally a decision of this thread before; every stream, default stream and pair of colour kinds; every capability of each stream, the same at every detection",
        "more than two threads; interleavings in which the other thread reads between this thread's stores are covered with the roles exchanged only; weak-memory behaviour; one thread changing modes meanwhile (C10)",
        [STATICS, SHIM, "<Stdin, Stdout, Stderr as IsTerminal>::is_terminal are stubs", "the other thread's accesses are atomic steps between two atomic accesses of this thread"],
        runs=[dict(name="std", features=["std", "vcore"], overlay="atomics", native_overlay="atomics"),
              dict(name="supports-color", features=["supports-color", "vcore"], overlay="atomics", native_overlay="atomics")],
    ),
    "C11": prop(
        "Mode::{from_ascii_bytes,from_str}, Stream::{from_ascii_bytes,from_str}",
        "every byte string and every well-formed UTF-8 text of up to 24 bytes (64 in the thorough tier)",
        "longer strings (the longest keyword has six bytes)",
    ),
    "C12": prop(
        "Color::from_str, parse_hex_digit, merge, XtermColor::from_code",
        "every well-formed UTF-8 text of up to 16 bytes (20 in the thorough tier), which includes every valid form and name",
        "longer texts (the longest name has 14 bytes)",
    ),
    "C13": prop(
        "AnsiColor::{foreground,background,underline}_{args,escape}, to_xterm, ColorSpec and WriteColor impls of AnsiColor and of each compile-time colour, their constants, Color::Ansi",
        "all 16 colours on all three layers and the default colour on foreground and background, both forms",
        "the underline form of the default colour (SGR has no such colour; the crate writes palette entry 16)",
    ),
    "C14": prop(
        "XtermColor::{from_code,args,foreground,background,underline}_{args,escape}, ColorSpec and WriteColor impls of XtermColor and of each of the 256 compile-time colours, their constants, xterm_from_code!, Color::Xterm",
        "all 256 codes on all three layers, both forms, runtime, compile-time and generic colour",
        "nothing within the property",
    ),
    "C15": prop(
        "CssColor::{rgb,args,foreground,background,underline}_{args,escape}, ColorSpec and WriteColor impls of CssColor and of each compile-time colour, their constants (computed by rgb.rs at compile time), Color::Css",
        "all 147 named colours on all three layers, both forms, runtime, compile-time and generic colour, against the table of CSS Color Module Level 4",
        "nothing within the property",
        [UTF8, EXACT],
        runs=[dict(name="default", overlay="exact")],
    ),
    "C16": prop(
        "WriteColor for RgbColor, WriteColor for Color::Rgb, RgbBuffer::*",
        "all 2^24 colours, three layers, both forms, directly and through Color; loops unwound 21 times with unwinding assertions",
        "nothing within the property",
        [UTF8],
    ),
    "C17": prop(
        "the associated constants of Rgb<R, G, B> (const_rgb_buffer, RgbBuffer::{args_payload,raw_args_payload,const_to_str}), its ColorSpec, ComptimeColor, WriteColor and From impls",
        "configuration generic: all 2^24 colours, every constant and ColorSpec method; configuration instances: 256 instantiations that contain every value of each component, every constant, method and conversion, and what twelve instantiations write",
        "conversions and writing of the other instantiations",
        [UTF8, EXACT, "in configuration generic the expressions of the associated constants, taken from src/rgb.rs on every run, are the bodies of functions of the three components; counterexamples are replayed on the real constants of that instantiation"],
        runs=[dict(name="generic", features=["rgbfn"], overlay="rgbfn", optional=True, instantiate=True), dict(name="instances", overlay="exact")],
    ),
    "C18": prop(
        "From impls between compile-time colours, AnsiColor, XtermColor, CssColor, RgbColor, Color and Option<Color>, ColorSpec::into_dynamic, ComptimeColor::VALUE, OptionalColor::{get,color_kind}, WriteColor for Color and for every colour, Style::{into_runtime_style,const_into_runtime_style}",
        "all 17 + 256 + 147 named colours and all 2^24 runtime RGB colours, six writing methods each; four compile-time RGB colours; styles with any generic or optional colours and every effect set, and six typed instantiations",
        "other compile-time RGB colours (C17) and style instantiations",
        [UTF8, EXACT],
        runs=[dict(name="default", overlay="exact")],
    ),
    "C19": prop(
        "EffectFlags (every method and constant), FromIterator, IntoIterator, PartialEq, Default, EffectFlagsIter::{next,clone}, Effect::decode",
        "all 2^13 sets (and all pairs of sets), every effect, every sequence of three changes (five in the thorough tier) from any set, arrays and iterators of up to four arbitrary effects and of all thirteen with any one replaced",
        "longer arrays; hashing and debug output of sets",
    ),
    "C20": prop(
        "Effect::{apply,clear}_{args,escape}, fmt_apply and fmt_clear of a style with one effect",
        "all 13 effects, on and off, from every terminal state",
        "terminals that do not implement the SGR model",
        ["the terminal treats each effect as an independent attribute", "an off-code switches off every effect it is specified for"],
    ),
    "C21": prop(
        "every builder method of Style, StyledValue and Colorize (macros AnsiColorMethods! and Effect!), StyledValue::new, Style::{new,default}",
        "every method on styles and styled values with any colour of any kind or none in each slot, every effect set, every stream and every u32 value; on plain values borrowed and by value",
        "value types other than u32 (the methods are generic in the value)",
    ),
    "C23": prop(
        "Style::{apply,clear,clear_all}, fmt_apply, fmt_clear, StyledValue::fmt_with and its nine formatting traits, WriteColor of Color, RgbColor, AnsiColor and compile-time colours",
        "a failure at any one write call or none, every formatting option, every style of six instantiations, every value stream, a value that fails on its own or not",
        "colour and style types not instantiated",
        [UTF8],
        runs=[dict(name="default", overlay="exact")],
    ),
    "C25": prop(
        "PartialEq and Hash of Color, AnsiColor, XtermColor, CssColor, RgbColor, Effect, EffectFlags, Style, Stream, ColorKind; PartialEq of Mode",
        "every pair of colours of every type, of effects, of sets (also reached by adding and removing or toggling twice), of styles with optional generic colours in every slot, of one typed style, of streams, modes and colour kinds",
        "hashing of different values; Debug output; other style instantiations",
        runs=[dict(name="default", wide_unwind=132)],
    ),
}
