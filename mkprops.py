#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only for readability of the text)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Applying a style selects exactly that style",
  "Writing a style's apply sequence to an ANSI terminal in any prior state leaves the terminal with exactly the style's foreground, background and effects selected, its underline colour selected when the style underlines, and every attribute the style does not mention unchanged; the bytes are complete, well-formed SGR sequences and nothing else.",
  ["inputs", "histories"], "every effect set, every colour or absence of colour in each of the three slots, every way of typing the slots (none, compile-time, runtime, optional), every prior terminal state",
  "the tests format about a dozen fixed styles and compare strings; the code chooses between several specialised paths by slot type and number of effects, so 2^13 effect sets times the slot types are never crossed",
  ["src/style.rs", "src/lib.rs"], [("fast paths by slot kind", "src/style.rs fmt_apply"), ("separator-joined argument list", "src/style.rs fmt_apply_slow")], observe=["bytes written by Style::apply"])
p("C02", "Clearing a style undoes exactly what applying it touched",
  "Writing a style's clear sequence returns the style's foreground, background and (if the style underlines) underline colour to the terminal default and switches its effects off, in whatever state the terminal is. It changes nothing the style did not set: no blanket reset, no other colour, and no other effect except the partner that shares an SGR off-code (bold/dim, the two underlines, the two blinks, super/subscript); a plain style clears nothing.",
  ["inputs", "histories"], "every effect set, colour presence and slot typing, every terminal state at the time of clearing",
  "tests check the clear string of two or three styles; nesting styles inside each other depends on clear never touching foreign attributes, for every combination",
  ["src/style.rs"], [("fast paths by slot kind", "src/style.rs fmt_clear"), ("separator-joined argument list", "src/style.rs fmt_clear_slow")], observe=["bytes written by Style::clear"])
p("C03", "Plain styles are silent; markers ignore formatting flags",
  "A style writes something on apply exactly when it writes something on clear, exactly when it reports itself as not plain, exactly when it has an effect, a foreground or a background. Display and Debug of the apply, clear and clear-all markers behave the same, and width, fill, alignment, precision and other flags never add or remove bytes; clear-all returns every attribute to default from any state.",
  ["inputs"], "every style and every formatting option value",
  "tests never pass format options to the markers and check plainness of a single style",
  ["src/style.rs"], [("is_plain", "src/style.rs"), ("Prefix/Suffix/ClearAll wrappers", "src/style.rs apply, clear, clear_all")], observe=["bytes written", "Style::is_plain"])
p("C04", "A styled value is its plain text, wrapped or bare",
  "Formatting a styled value writes the style's apply sequence, then the inner value's own output, then the style's clear sequence if colouring is on, and only the inner value's output if it is off; the decision is taken once per formatting, so a mode change in the middle never leaves an unbalanced style. The inner value is formatted exactly once, with the same trait and the same formatting options as requested, for all nine supported formatting traits and for custom formatters.",
  ["inputs", "histories"], "every style, stream, mode, formatting option set and trait; every point at which the mode changes during formatting",
  "tests format string literals with {} only, with colouring always on, and never change the mode while formatting",
  ["src/value.rs"], [("fmt_with", "src/value.rs"), ("fmt_impl", "src/value.rs")], observe=["bytes and options seen by the inner value"])
p("C05", "Colouring decision follows the documented precedence",
  "Whether to colour is decided by the global mode if it is Always or Never, otherwise by the per-value stream if one is given, otherwise by the default stream; always-colour and never-colour streams decide immediately, and a stdout/stderr stream is coloured when detection is not compiled in. The answer depends on nothing else.",
  ["inputs", "histories", "configurations"], "every global mode, per-value stream (or none), default stream and list of colour kinds, in any order of setting them",
  "no test in the repository calls the decision function with a mode or stream set",
  ["src/mode.rs", "src/style.rs"], [("should_color", "src/mode.rs")], [("coloring mode", "global override", "src/mode.rs"), ("default stream", "fallback stream", "src/mode.rs")], observe=["mode::should_color", "Style::should_color", "formatting of styled values"])
p("C06", "Terminal detection asks the right stream and is stable",
  "With standard-library detection and no override, a value destined for stdout (stderr) is coloured exactly when stdout (stderr) was a terminal the first time detection was needed for that stream, whatever the other stream is and whatever colours are used. Overriding modes and streams bypass detection and do not disturb it.",
  ["histories", "inputs", "configurations"], "every sequence of up to three decisions over both streams, modes and default streams, and every answer of the terminal check at every call",
  "the tests run with one fixed (non-terminal) stdout and never vary it; the decision is cached in process-wide state",
  ["src/mode.rs"], [("should_color_slow (std)", "src/mode.rs")], [("stdout/stderr support cache", "unknown, no or yes", "src/mode.rs")], observe=["mode::should_color"])
p("C07", "Capability detection gates every colour used",
  "With capability detection compiled in and no override, a list of colour kinds is coloured exactly when the destination stream supports every kind in it (basic, 256-colour, 24-bit), ignoring absent colours; a stream without any capability supports none. The capabilities of each stream are those found the first time that stream was needed, independent of the other stream.",
  ["histories", "inputs", "configurations"], "every capability report per stream and call, every list of up to three kinds, every sequence of up to three decisions",
  "the feature is not exercised by any test; it needs terminals of every capability level",
  ["src/mode.rs"], [("should_color_slow (supports-color)", "src/mode.rs")], [("stdout/stderr support cache", "unknown or a capability set", "src/mode.rs")], observe=["mode::should_color"])
p("C08", "The strip-colors build never colours values",
  "In a build with strip-colors, no mode, stream, environment or style makes a styled value emit escape sequences: the decision is always no, the reported mode is always Never, and setting the mode has no effect. Applying or clearing a style directly still writes its sequences.",
  ["inputs", "histories", "configurations"], "every mode, stream, default stream, style and kinds, in every order of setting them",
  "the tests are not built with this feature",
  ["src/mode.rs", "src/value.rs"], [("compile-time guards", "src/mode.rs should_color, set_coloring_mode, get_coloring_mode")], observe=["styled value output", "mode::get_coloring_mode"])
p("C09", "Environment variables set the mode as documented",
  "Reading the mode from the environment yields Never if NO_COLOR is set to anything but 0, otherwise Always if any of ALWAYS_COLOR, CLICOLOR_FORCE or FORCE_COLOR is set to anything but 0, otherwise nothing. Setting the global mode from the environment stores that mode and leaves the mode unchanged when there is none; no other variable matters.",
  ["inputs", "configurations"], "every combination of the four variables being unset or holding any short value, and every previous mode",
  "tests never touch the environment; there are many combinations and the precedence only shows when several are set",
  ["src/mode.rs"], [("Mode::from_env", "src/mode.rs"), ("set_coloring_mode_from_env", "src/mode.rs")], observe=["Mode::from_env", "mode::get_coloring_mode"])
p("C10", "Mode and default stream are independent atomic registers",
  "Each read of the global mode (default stream) returns the most recent value written to it, initially Detect (always-colour), and never a value nobody wrote; the two do not affect each other. A colouring decision taken while other threads change them equals the decision for values they actually held during the call.",
  ["schedules", "histories"], "every sequence of three writes and the reads between them; one decision with another thread writing any values before each of its memory accesses",
  "tests are single threaded and never write these settings; interleavings between the loads of one decision cannot be forced by a test",
  ["src/mode.rs"], [("atomic load/store with encoding", "src/mode.rs")], [("coloring mode", "global override", "src/mode.rs"), ("default stream", "fallback stream", "src/mode.rs")], observe=["mode getters", "mode::should_color"])
p("C11", "Mode and stream keywords parse exactly",
  "Text parses as a mode (stream) exactly when it is, ignoring ASCII case, one of detect, always, never (stdout, stderr, always, never), and then yields that mode (stream); every other byte string is rejected. Parsing from text and from bytes agree.",
  ["inputs"], "every byte string of up to 9 bytes",
  "no test parses them; near-misses such as case-folded punctuation, padding or truncation are rare inputs",
  ["src/mode.rs"], [("word comparison with case mask", "src/mode.rs Mode::from_ascii_bytes, Stream::from_ascii_bytes")], observe=["parse results"])
p("C12", "Colour text parses by the documented grammar",
  "Text parses to a colour exactly when it is #rrggbb (that RGB colour), #x or #xx in hex or one to three decimal digits up to 255 (that 256-colour code), or the lower-case name of one of the sixteen ANSI colours (or purple for magenta). Everything else is an error: overflow for three digits above 255, invalid hex digit for a # form of valid length with a bad digit, unknown colour otherwise; parsing never panics.",
  ["inputs"], "every well-formed text of up to 16 bytes",
  "tests parse four strings; the space of short strings and the digit arithmetic are far larger",
  ["src/from_str.rs"], [("slice patterns and digit arithmetic", "src/from_str.rs")], observe=["Color::from_str"])
p("C13", "ANSI colours encode to the standard codes",
  "Each of the 16 ANSI colours encodes to the standard SGR codes (30-37, 90-97 foreground; 40-47, 100-107 background; 58;5;n underline) and the default colour to 39 and 49; the argument, escape, compile-time, runtime and 256-colour-equivalent forms of each agree.",
  ["inputs"], "all 17 ANSI colours, three layers, both forms, compile-time and runtime types",
  "tests print a few of them",
  ["src/ansi.rs", "src/lib.rs"], [("MkAnsiColor table", "src/ansi.rs")], observe=["color methods and formatting"])
p("C14", "256-colour codes encode to themselves",
  "For every code n in 0..=255 the colour built from n reports code n and encodes as 38;5;n, 48;5;n and 58;5;n (argument and escape forms), identically for the runtime colour, the compile-time colour selected by the literal n, and the generic colour type.",
  ["inputs"], "all 256 codes, three layers, both forms, compile-time and runtime types",
  "tests cover a handful of codes of a 256-row table",
  ["src/xterm.rs"], [("XTerm table", "src/xterm.rs")], observe=["color methods and formatting"])
p("C15", "CSS colours have their CSS values",
  "Every CSS named colour has the RGB value CSS assigns to that name, and its compile-time and runtime forms encode exactly that RGB value on all three layers, as arguments and as escape.",
  ["inputs"], "all 147 names, three layers, both forms, compile-time and runtime types",
  "no test compares the table against CSS",
  ["src/css.rs"], [("Css table", "src/css.rs")], observe=["CssColor::rgb and encodings"])
p("C16", "Runtime RGB colours encode their components",
  "For every red, green and blue the runtime RGB colour encodes as 38;2;r;g;b, 48;2;r;g;b and 58;2;r;g;b with plain decimal components, as arguments and as escape, directly and through the generic colour type.",
  ["inputs"], "all 2^24 colours, three layers, both forms",
  "tests format a few colours; digit-count boundaries (9/10, 99/100) interact across the three components in a fixed buffer",
  ["src/rgb.rs", "src/lib.rs"], [("RgbBuffer", "src/rgb.rs")], observe=["formatting of RgbColor and Color::Rgb"])
p("C17", "Compile-time RGB colours match the runtime ones",
  "For every red, green and blue the compile-time RGB colour's constants hold exactly the text the runtime colour of the same components writes, for all three layers, arguments and escape, and its bare arguments are 2;r;g;b.",
  ["inputs", "programs"], "all 2^24 instantiations, three layers, both forms",
  "each instantiation is a separate compile-time evaluation; tests instantiate two or three",
  ["src/rgb.rs"], [("const_rgb_buffer, args_payload, raw_args_payload", "src/rgb.rs")], observe=["Rgb constants"])
p("C18", "Type erasure preserves colours and styles",
  "Converting a compile-time or single-kind colour to its runtime type, to the generic colour or to an optional colour, by any conversion offered, yields the same colour: equal value, same colour kind, same bytes from every writing method. Converting a style to the runtime style keeps every slot and all effects, by value and by constant.",
  ["inputs", "programs"], "every colour value of every type, every writing method; every style content",
  "tests convert a few values; each of the hundreds of generated colour types has its own conversions",
  ["src/lib.rs", "src/ansi.rs", "src/xterm.rs", "src/css.rs", "src/rgb.rs", "src/style.rs"], [("generated From/ComptimeColor impls", "src/ansi.rs, src/xterm.rs, src/css.rs, src/rgb.rs"), ("Color dispatch", "src/lib.rs"), ("into_runtime_style", "src/style.rs")], observe=["converted values", "formatting"])
p("C19", "Effect collections behave as sets",
  "An effect collection is a set: adding, removing, toggling, membership, intersection, emptiness, the full set, and building from arrays or iterators agree with set algebra in every state, by value and in place. Iterating yields each member exactly once in declaration order and then ends; equal sets compare equal.",
  ["inputs", "histories"], "all 2^13 sets, all effects, any array of three effects",
  "tests build two or three collections",
  ["src/style.rs"], [("EffectFlags bit set", "src/style.rs"), ("EffectFlagsIter", "src/style.rs")], observe=["EffectFlags API"])
p("C20", "Each effect has its standard on and off codes",
  "The apply sequence of each effect switches exactly that effect on, and its clear sequence switches it off together only with the effects the standard ties to the same off-code; each argument form is the escape form without its framing.",
  ["inputs", "histories"], "all 13 effects from every terminal state",
  "tests look at a few effects, with fixed strings",
  ["src/style.rs"], [("Effect table", "src/style.rs Effect!")], observe=["Effect methods"])
p("C21", "Builder methods change exactly what they name",
  "Every builder method, on styles, on styled values and on plain values, borrowed or by value, sets exactly the colour, effect or stream its name says and keeps the value, the other slots, the other effects and the stream as they were; a freshly styled value is plain and has no stream.",
  ["inputs", "programs"], "every builder method applied to every style content, value and stream",
  "there are over 150 generated methods; tests call a few of them",
  ["src/style.rs", "src/value.rs"], [("AnsiColorMethods", "src/value.rs"), ("Style builders", "src/style.rs")], observe=["fields of the result"])
p("C22", "A style is gated by the kinds of all its colours",
  "Each colour reports its kind (basic, 256-colour, 24-bit for CSS and RGB, none for an absent colour) and a style or styled value asks the colouring decision with the kinds of its foreground, background and underline colours: with capability detection it is coloured exactly when the destination supports all of them.",
  ["inputs", "configurations"], "every colour kind or absence in each slot, every typing of the slots, every capability set, either stream",
  "the feature is not exercised by any test",
  ["src/style.rs", "src/lib.rs", "src/mode.rs"], [("Style::should_color", "src/style.rs"), ("color_kind", "src/lib.rs")], observe=["Style::should_color", "color_kind", "styled value output"])
p("C23", "Write errors propagate",
  "If the output sink fails at any write while a style marker, colour or styled value is being formatted, formatting returns an error and writes nothing more; if the inner value's formatter fails, the styled value's formatting fails; if nothing fails, formatting succeeds.",
  ["fault_sequences", "inputs"], "a failure at every write call, for every style content and colour; failure of the inner value",
  "tests only write to strings, which never fail",
  ["src/style.rs", "src/value.rs", "src/lib.rs", "src/rgb.rs"], [("error propagation with ?", "src/style.rs, src/value.rs")], observe=["fmt::Result"])
p("C24", "Concurrent detections do not disturb each other",
  "When several threads format or decide at the same time and detection has not happened yet for a stream, each of their decisions, and every later one, is the one for the stream's actual terminal state or capabilities: no thread ever sees a partly recorded, mixed-up or lost detection result, for the same stream or the other one.",
  ["schedules", "inputs"], "every interleaving of one thread's detection with the accesses of another's decisions, every stream, default stream, colour kinds and capability of each stream",
  "tests run each decision alone; two threads that detect for the first time at the same moment need a particular interleaving of the loads and stores of the caches",
  ["src/mode.rs"], [("detection caches", "src/mode.rs STDOUT_SUPPORT, STDERR_SUPPORT"), ("detect", "src/mode.rs should_color_slow")], observe=["mode::should_color"])
p("C25", "Values are equal exactly when their content is, and hash alike",
  "Two colours of one type are equal exactly when they are the same colour (same kind, same name, code or components), two effects when they are the same effect, two effect sets when they have the same members however they were built, and two styles when all three colour slots and the effects are equal; modes, streams and colour kinds likewise. Clones are equal, and equal values feed a hasher the same input.",
  ["inputs", "histories"], "every pair of values of each type",
  "tests compare a few values that are equal; unequal pairs and hashing are not tested",
  ["src/lib.rs", "src/ansi.rs", "src/xterm.rs", "src/css.rs", "src/rgb.rs", "src/style.rs", "src/mode.rs"], [("derived PartialEq, Eq, Hash", "src/*.rs"), ("EffectFlags representation", "src/style.rs")], observe=["==", "Hash"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
