"""Copies of the crate under test with parts of its environment made observable.

Every copy is made from /repo's current files on every run.
"""
import os
import re
import shutil


def copy(repo, dep):
    os.makedirs(dep)
    shutil.copytree(os.path.join(repo, "src"), os.path.join(dep, "src"))
    for f in ("Cargo.toml", "README.md"):
        shutil.copy(os.path.join(repo, f), os.path.join(dep, f))
    for f in ("build.rs", "benches", "examples", "tests"):
        p = os.path.join(repo, f)
        if os.path.isfile(p):
            shutil.copy(p, os.path.join(dep, f))
        elif os.path.isdir(p):
            shutil.copytree(p, os.path.join(dep, f))


def after_inner(src):
    """Offset after the inner attributes and inner docs of a crate root."""
    i, n = 0, len(src)
    while True:
        m = re.compile(r"\s+|//(?!/)[^\n]*\n|/\*!.*?\*/", re.S).match(src, i)
        if m:
            i = m.end()
            continue
        if src.startswith("#!", i):
            depth = 0
            instr = False
            while i < n:
                c = src[i]
                if instr:
                    if c == "\\":
                        i += 1
                    elif c == '"':
                        instr = False
                elif c == '"':
                    instr = True
                elif c == "[":
                    depth += 1
                elif c == "]":
                    depth -= 1
                    if depth == 0:
                        i += 1
                        break
                i += 1
            continue
        return i


def depend(dep, verif):
    p = os.path.join(dep, "Cargo.toml")
    s = open(p).read()
    s = re.sub(r"(?m)^\[dependencies\]\s*$", '[dependencies]\nvcore = { path = "%s/vcore" }' % verif, s, count=1)
    if "vcore" not in s:
        s += '\n[dependencies]\nvcore = { path = "%s/vcore" }\n' % verif
    open(p, "w").write(s)


def sources(dep):
    for d, _, fs in os.walk(os.path.join(dep, "src")):
        for f in sorted(fs):
            if f.endswith(".rs"):
                yield os.path.join(d, f)


def expression_end(s, i):
    """Offset of the semicolon that ends the expression at i."""
    depth = 0
    while i < len(s):
        c = s[i]
        if s.startswith("//", i):
            i = s.index("\n", i)
            continue
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif c == "'" and re.match(r"'(\\.|[^\\'])'", s[i:]):
            i += len(re.match(r"'(\\.|[^\\'])'", s[i:]).group(0)) - 1
        elif c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
        elif c == ";" and depth == 0:
            return i
        i += 1
    return None


def exact(repo, dep, verif):
    """The crate, with constant strings in allocations of their own (see vcore)."""
    copy(repo, dep)
    depend(dep, verif)
    for p in sources(dep):
        s = open(p).read()
        out, i = [], 0
        for m in re.finditer(r"\bconst\s+\$?\w+\s*:\s*&\s*(?:'static\s+)?str\s*=\s*", s):
            if m.end() < i:
                continue
            e = expression_end(s, m.end())
            if e is None or re.match(r'(stringify!|concat!|")', s[m.end():]):
                continue  # (a literal has an allocation of its own)
            out += [s[i:m.end()], "::vcore::exact_str({ ", s[m.end():e], " })"]
            i = e
        open(p, "w").write("".join(out) + s[i:])


def atomics(repo, dep, verif):
    """The same, with `core` replaced by vcore (instrumented atomics)."""
    exact(repo, dep, verif)
    p = os.path.join(dep, "src", "lib.rs")
    s = open(p).read()
    i = after_inner(s)
    open(p, "w").write(s[:i] + "extern crate vcore as core;\n" + s[i:])


def matching(s, i):
    """Offset just after the bracket that closes the one at i."""
    close = {"(": ")", "[": "]", "{": "}"}
    stack = []
    while i < len(s):
        c = s[i]
        if s.startswith("//", i):
            i = s.index("\n", i)
            continue
        m = re.compile(r'b?"(\\.|[^"\\])*"|b?\'(\\.|[^\'\\])\'', re.S).match(s, i)
        if m:
            i = m.end()
            continue
        if c in close:
            stack.append(close[c])
        elif stack and c == stack[-1]:
            stack.pop()
            if not stack:
                return i + 1
        i += 1
    raise Unsupported("unbalanced brackets")


class Unsupported(Exception):
    pass


def rgb_functions(s):
    """The associated constants of `Rgb<R, G, B>` as functions of R, G and B.

    Associated constants of a generic type only exist per instantiation. The same
    expressions as bodies of functions of the parameters can be decided for all of
    them. Constants become leaked values, so that references into them live as long.
    """
    consts, order, methods = {}, [], {}
    for m in re.finditer(r"impl\s*<\s*const\s+(\w+)\s*:\s*u8\s*,\s*const\s+(\w+)\s*:\s*u8\s*,\s*const\s+(\w+)\s*:\s*u8\s*,?\s*>\s*(?:(?:crate::|super::)?(\w+)\s+for\s+)?Rgb\s*<\s*\1\s*,\s*\2\s*,\s*\3\s*,?\s*>\s*(?=\{)", s):
        ps = m.groups()[:3]
        end = matching(s, m.end())
        body = s[m.end() + 1:end - 1]
        i = 0
        item = re.compile(r"\s+|//[^\n]*\n|#\[")
        while i < len(body):
            k = item.match(body, i)
            if k:
                i = matching(body, i + 1) if k.group(0) == "#[" else k.end()
                continue
            k = re.compile(r"(?:pub(?:\([^)]*\))?\s+)?const\s+(\w+)\s*:\s*([^=]*?)\s*=\s*").match(body, i)
            if k:
                e = expression_end(body, k.end())
                if e is None:
                    raise Unsupported("constant " + k.group(1))
                if m.group(4) is None:
                    consts[k.group(1)] = (ps, k.group(2), body[k.end():e])
                    order.append(k.group(1))
                i = e + 1
                continue
            k = re.compile(r"type\s+[^;]*;").match(body, i)
            if k:
                i = k.end()
                continue
            k = re.compile(r"(?:pub(?:\([^)]*\))?\s+)?(?:const\s+)?fn\s+(\w+)\s*(\([^)]*\))\s*->\s*([^{]*?)\s*(?=\{)").match(body, i)
            if k:
                e = matching(body, k.end())
                methods[k.group(1)] = (ps, k.group(2), k.group(3), body[k.end():e], m.group(4))
                i = e
                continue
            raise Unsupported("item %r" % body[i:i + 40])

    def subst(e, ps):
        def f(k):
            n = k.group(1)
            if n not in consts:
                raise Unsupported("Self::" + n)
            return "(*%s(%s))" % (n, ", ".join(ps)) if not consts[n][1].startswith("&") else "%s(%s)" % (n, ", ".join(ps))
        return re.sub(r"\b(?:Self|Rgb\s*::\s*<\s*%s\s*,\s*%s\s*,\s*%s\s*>)\s*::\s*(\w+)" % ps, f, e)

    out = ["#[doc(hidden)] #[allow(warnings)] pub mod __vh { use super::*;"]
    for n in order:
        ps, t, e = consts[n]
        head = "pub fn %s(%s) -> " % (n, ", ".join(p + ": u8" for p in ps))
        t = re.sub(r"\s+", " ", t)
        vis = "pub " if t.startswith("&") or t in ("RgbColor",) else ""
        head = head.replace("pub ", vis, 1)
        if t.startswith("&"):
            t = re.sub(r"^&\s*(?!'static)", "&'static ", t)
            out.append("%s%s { %s }" % (head, t, subst(e, ps)))
        else:
            out.append("%s&'static %s { ::vcore::leak({ %s }) }" % (head, t, subst(e, ps)))
    for n, (ps, args, ret, b, trait) in methods.items():
        if trait == "ColorSpec" and re.fullmatch(r"\(\s*self\s*,?\s*\)", args) and "'static" in ret:
            if re.search(r"\bself\b", b):
                raise Unsupported("self in " + n)
            out.append("pub fn %s(%s) -> %s %s" % (n, ", ".join(p + ": u8" for p in ps), ret, subst(b, ps)))
    out.append("}")
    return "\n".join(out)


def rgbfn(repo, dep, verif):
    copy(repo, dep)
    depend(dep, verif)
    p = os.path.join(dep, "src", "rgb.rs")
    s = open(p).read()
    open(p, "a").write("\n" + rgb_functions(s) + "\n")


KINDS = {"rgbfn": rgbfn, "atomics": atomics, "exact": exact}


def make(kind, repo, dep, verif):
    KINDS[kind](repo, dep, verif)
