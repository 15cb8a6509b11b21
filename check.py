#!/usr/bin/env python3
"""Decides one property of /repo's current working tree.

usage: check.py <property id>        (tier from VERIF_TIER, seed from VERIF_SEED)

Builds the harness crate against /repo, lets Kani/CBMC decide every harness of the
property, turns each solver counterexample into a native run of the same harness
against the real crate, and reports only what reproduces there.
Exit 0: held within the stated bounds; 1: VIOLATION line printed; 2: no answer.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS  # noqa: E402

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")  # (another copy, during development)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
T0 = time.time()
DEADLINE = {"quick": 840, "thorough": 10800}
KANI_FLAGS = ["-Z", "unstable-options", "-Z", "stubbing", "--no-assertion-reach-checks", "--no-memory-safety-checks"]


class NoAnswer(Exception):
    pass


class Skip(Exception):
    """An optional configuration that the code under test does not fit."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def env(target):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable", RUSTC_BOOTSTRAP="vh")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "NO_COLOR", "ALWAYS_COLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.conf = PROPS[pid]
        self.deadline = T0 + DEADLINE[tier]
        self.work = os.path.join(BUILD, "%s-%s" % (pid, tier))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.mod = pid.lower()
        self.replays = []
        self.notes = []
        self.crate = os.path.join(VERIF, "harness")

    def left(self):
        return self.deadline - time.time()

    def features(self, run, wide=False):
        f = [self.mod] + list(run.get("features", []))
        if self.tier == "thorough":
            f.append("thorough")
        if wide:
            f.append("wide")
        return ",".join(f)

    def sh(self, cmd, timeout, cwd=None, target=None, extra=None, **kw):
        e = env(target or self.work + "/t")
        e.update(extra or {})
        p = subprocess.Popen(cmd, cwd=cwd or self.crate, env=e, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, **kw)
        try:
            out, _ = p.communicate(timeout=max(1, timeout))
            return p.returncode, out
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out, _ = p.communicate()
            return None, out

    # -- the two builds -------------------------------------------------
    def prepare(self, run, native=False):
        """Copies the harness crate; overlays change what it depends on."""
        name = run["name"] + ("-native" if native else "")
        d = os.path.join(self.work, "crate-" + name)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, "harness"), d, ignore=shutil.ignore_patterns("target"))
        dep = REPO
        kind = run.get("native_overlay") if native else run.get("overlay")
        if kind:
            dep = os.path.join(self.work, "overlay-" + name)
            shutil.rmtree(dep, ignore_errors=True)
            import overlay
            try:
                overlay.make(kind, REPO, dep, VERIF)
            except overlay.Unsupported as e:
                raise Skip(str(e))
        toml = open(d + "/Cargo.toml").read()
        toml = toml.replace('colorz = { path = "/repo" }', 'colorz = { path = "%s" }' % dep)
        toml = toml.replace('"../', '"%s/' % VERIF)
        open(d + "/Cargo.toml", "w").write(toml)
        lock = os.path.join(d, "Cargo.lock")
        if os.path.exists(lock):
            os.remove(lock)
        return d

    def build_native(self, run, crate, extra=None):
        """The same harnesses as ordinary programs, in both profiles."""
        bins = {}
        for prof in ("dev", "release"):
            t = os.path.join(self.work, "native-%s-%s" % (run["name"], prof))
            rc, out = self.sh(["cargo", "build", "--offline", "--quiet", "--bin", "replay", "--features", self.features(run), "--profile", prof], self.left(), cwd=crate, target=t, extra=extra)
            if rc != 0:
                raise NoAnswer("native build failed (%s):\n%s" % (prof, out[max(0, out.find("error")):][:3000]))
            bins[prof] = os.path.join(t, "debug" if prof == "dev" else "release", "replay")
        return bins

    def kani(self, run, crate, only=None, wide=False, unwind=None, tag="main"):
        res = self.kani_once(run, crate, only, wide, unwind, tag)
        # solver processes that were ended (memory) leave no verdict: once more, fewer at a time
        lost = [h for h, r in res.items() if r["status"] != "Success" and not r["bad"]]
        if lost and self.left() > 60:
            log("no verdict for", lost, "- once more")
            res.update(self.kani_once(dict(run, jobs=2), crate, lost, wide, unwind, tag + "-again"))
        return res

    def kani_once(self, run, crate, only=None, wide=False, unwind=None, tag="main", timeout=None):
        out_json = os.path.join(self.work, "%s-%s.json" % (run["name"], tag))
        cmd = ["cargo", "kani", "--lib", "--features", self.features(run, wide), "--output-format", "terse", "--export-json", out_json] + KANI_FLAGS
        jobs = str(run.get("jobs", 8))
        if only:
            for h in only:
                cmd += ["--harness", h]
            cmd += ["--exact"]
        else:
            cmd += ["--harness", self.mod + "::k::"]
        cmd += ["-j", jobs]
        if unwind:
            cmd += ["--unwind", str(unwind)]
        limit = min(self.left(), timeout or 1e9)
        cmd += ["--harness-timeout", "%ds" % max(5, limit - 15)]
        rc, out = self.sh(cmd, limit, cwd=crate, target=os.path.join(self.work, "kani-" + run["name"]))
        open(os.path.join(self.work, "kani-%s-%s.log" % (run["name"], tag)), "w").write(out)
        if not os.path.exists(out_json):
            if rc is None:
                raise NoAnswer("the solver ran out of time")
            if run.get("optional") and re.search(r"(?m)^error(\[E\d+\])?:", out) and "could not compile" in out:
                raise Skip(re.search(r"(?m)^error.*", out).group(0))
            raise NoAnswer("kani gave no result (exit %s):\n%s" % (rc, out[-3000:]))
        d = json.load(open(out_json))
        stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in d.get("cbmc", []) if c}
        res = {}
        for r in d["verification_results"]["results"]:
            checks = r.get("checks") or []
            bad = [c for c in checks if c["category"] != "cover" and c["status"] not in ("Success", "Unreachable")]
            covers = [c for c in checks if c["category"] == "cover"]
            fns = sorted({c["function"] for c in checks if "/src/" in (c.get("location") or {}).get("file", "") and "library/" not in c["location"]["file"] and "colorz" in c["function"]})
            res[r["harness_id"]] = dict(status=r["status"], bad=bad, covers=covers, n=len(checks), ms=r.get("duration_ms"), stats=stats.get(r["harness_id"], {}), functions=fns)
        return res

    # -- counterexamples --------------------------------------------------
    def tapes(self, run, crate, harness, wide=False, unwind=None):
        """The solver's assignments for a harness, as byte tapes."""
        cmd = ["cargo", "kani", "--lib", "--features", self.features(run, wide), "--output-format", "terse", "--harness", harness, "--exact",
               "-Z", "concrete-playback", "--concrete-playback=print"] + KANI_FLAGS
        if unwind:
            cmd += ["--unwind", str(unwind)]
        rc, out = self.sh(cmd, min(self.left() - 20, 600), cwd=crate, target=os.path.join(self.work, "kani-%s-pb-%s" % (run["name"], harness.replace(":", "_"))))
        res = []
        for blk in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", out, re.S):
            tape = bytearray()
            for v in re.findall(r"vec!\[([^\]]*)\]", blk):
                tape += bytes(int(x) for x in v.replace(" ", "").split(",") if x)
            res.append(tape.hex())
        return res

    def replay(self, bins, harness, tape):
        """Runs a tape natively in both profiles; returns the failing profiles and output."""
        failed, outs = [], []
        for prof, b in bins.items():
            rc, out = self.sh([b, harness, tape], 20)
            outs.append("[%s] exit %s\n%s" % (prof, rc, out))
            # rc None: a program of microseconds that has not ended after 20 s does not end
            if (rc == 1 and "HARNESS_BOUND" not in out) or (rc is not None and rc < 0) or (rc is None and self.left() > 30):
                failed.append(prof)
        return failed, "\n".join(outs)

    def save(self, harness, tape, failed, bins, out):
        d = os.path.join(BUILD, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.txt" % (self.pid, harness.split("::")[-1]))
        with open(p, "w") as f:
            f.write("property: %s\nharness: %s\nassignment (tape): %s\nreproduced in: %s\ncommand: %s %s %s\n\n%s\n" % (
                self.pid, harness, tape, ", ".join(failed), bins[failed[0]], harness, tape, out))
        return p

    def confirm(self, run, crate, bins, harness, wide=False, unwind=None):
        tapes = self.tapes(run, crate, harness, wide, unwind)
        for t in tapes:
            if run.get("instantiate") and len(t) >= 6:
                # the compile-time colour the solver chose
                c = dict(zip(("VH_R", "VH_G", "VH_B"), (str(x) for x in bytes.fromhex(t[:6]))))
                bins = self.build_native(dict(run, name="%s-%s" % (run["name"], t[:6])), self.native_crate, extra=c)
            failed, out = self.replay(bins, harness, t)
            if failed:
                return self.save(harness, t, failed, bins, out), out, tapes
        return None, None, tapes

    def confirm_seeded(self, harness, bad, bins):
        for _, k, rc, _ in bad[:2]:
            tape = "seed:%d" % (self.seed * 1000 + k)
            failed, out = self.replay(bins, harness, tape)
            if failed:
                return self.save(harness, tape, failed, bins, out), out
        return None, None

    # -- one configuration --------------------------------------------------
    def run_config(self, run):
        crate = self.prepare(run)
        native_crate = self.native_crate = self.prepare(run, native=True)
        ex = cf.ThreadPoolExecutor(8)
        native = ex.submit(self.build_native, run, native_crate)
        try:
            res = self.kani(run, crate)
        except NoAnswer:
            native.result()
            raise
        bins = native.result()
        rc, out = self.sh([bins["dev"], "--list"], 30)
        names = [n for n in out.split() if n.startswith(self.mod + "::")]
        missing = [n for n in names if n not in res]
        log(run["name"], "%d harnesses," % len(res), "native list %d" % len(names))
        if missing or not names:
            raise NoAnswer("harnesses not decided: %s" % missing)

        def clean(r):
            return r["status"] == "Success" and not r["bad"]

        # witnesses that assumptions are satisfiable: pseudo-random tapes, run natively
        traces, samples, native_bad = 0, [], []
        hung = []
        def trace(h, k):
            if len(hung) > 3:
                return h, k, 3, "skipped"
            rc, o = self.sh([bins["dev"], h, "seed:%d" % (self.seed * 1000 + k)], 20)
            if rc is None:
                hung.append(h)
            return h, k, rc, o
        for h, k, rc, o in ex.map(lambda a: trace(*a), [(h, k) for h in names for k in range(run.get("traces", 8))]):
            if rc == 0:
                traces += 1
                if len(samples) < 3 and k == 0:
                    samples.append({"harness": h, "seed": self.seed * 1000 + k, "native_run": o.strip()[:200], "outcome": "assertions held"})
            elif rc != 3:
                native_bad.append((h, k, rc, o))

        failing = [h for h in names if not clean(res[h])]
        violations = []
        def hit(r, what):
            return any(what in c["description"].lower() and c["status"] == "Failure" for c in r["bad"])
        def only_loops(r):
            fails = [c for c in r["bad"] if c["status"] == "Failure"]
            return fails and all("unwind" in c["description"].lower() for c in fails)
        # fewest failing checks first: those counterexamples are the quickest to produce
        order = sorted(failing, key=lambda h: (hit(res[h], "harness_bound"), res[h]["ms"] or 0))
        for h in order:
            log("FAILING", h, res[h]["status"], sorted({c["description"] for c in res[h]["bad"]})[:6])
        # where the only failure is a loop longer than expected nothing else was decided: longer loops first
        unresolved = [h for h in order if only_loops(res[h])]
        order = [h for h in order if h not in unresolved]
        # likewise for writes beyond the sink's pieces, once a few of them did not reproduce
        beyond = [h for h in order if all("harness_bound" in c["description"].lower() for c in res[h]["bad"])]
        unresolved += beyond[3:]
        order = [h for h in order if h not in beyond[3:]]
        for i in range(0, len(order), 3):
            batch = order[i:i + 3]
            for h, (p, out, tapes) in zip(batch, ex.map(lambda h: self.confirm(run, crate, bins, h), batch)):
                if p:
                    violations.append((h, p, out))
                else:
                    unresolved.append(h)
            if violations:
                break
        if not violations and unresolved:
            # a bound was too small, or the sink met writes it does not interpret piecewise
            other = [h for h in unresolved if not hit(res[h], "unwind") and not hit(res[h], "harness_bound")]
            if other:
                raise NoAnswer("solver counterexamples that do not reproduce natively: %s" % other)
            todo = unresolved
            steps = [([h for h in todo if not hit(res[h], "harness_bound")], False), (todo, True)]
            for group, wide in steps:
                group = [h for h in group if not clean(res[h])]
                if not group or violations:
                    continue
                log("general run" if wide else "run with longer loops", "for", group)
                unwind = run.get("wide_unwind", 40)
                w = self.kani(run, crate, only=group, wide=wide, unwind=unwind, tag="wide" if wide else "loops")
                self.notes.append("%s for %s" % ("general (wide) run" if wide else "run with loops up to %d" % unwind, group))
                for h in group:
                    if h not in w:
                        raise NoAnswer("no result for %s in the general run" % h)
                    res[h] = w[h]
                    if not clean(w[h]):
                        p, out, tapes = self.confirm(run, crate, bins, h, wide=wide, unwind=unwind)
                        if not p:
                            # a loop that does not end leaves the solver no assignment to print: a seeded run that hangs shows it
                            p, out = self.confirm_seeded(h, [b for b in native_bad if b[0] == h], bins)
                        if p:
                            violations.append((h, p, out))
                            break
                        elif wide or not hit(w[h], "harness_bound"):
                            raise NoAnswer("no reproducible answer for %s: %s" % (h, sorted({c["description"] for c in w[h]["bad"]})))
        if not violations:
            for h in names:
                unsat = [c for c in res[h]["covers"] if c["status"] != "Satisfied"]
                if unsat or not res[h]["covers"]:
                    raise NoAnswer("vacuous: %s does not reach its end" % h)
            if native_bad:
                h, k, rc, o = native_bad[0]
                raise NoAnswer("native run of %s (seed %d) fails although the solver accepts it: exit %s\n%s" % (h, k, rc, o))
        return dict(run=run, res=res, names=names, traces=traces, samples=samples, violations=violations)

    def evidence(self, results, violations, status):
        queries, harnesses = 0, []
        solver = symex = 0.0
        steps = vccs = 0
        functions = set()
        traces, samples, queries = 0, [], 0
        for r in results:
            traces += r["traces"]
            samples += r["samples"]
            for h in r["names"]:
                x = r["res"].get(h)
                if not x:
                    continue
                st = x["stats"]
                solver += st.get("runtime_decision_procedure_s") or 0
                symex += st.get("runtime_symex_s") or 0
                steps += st.get("size_program_expression") or 0
                vccs += st.get("vccs_remaining") or 0
                queries += x["n"]
                functions |= set(x["functions"])
                harnesses.append({"harness": h, "config": r["run"]["name"], "status": x["status"], "checks": x["n"], "seconds": (x["ms"] or 0) / 1000.0,
                                  "symbolic_steps": st.get("size_program_expression"), "vccs": st.get("vccs_remaining"), "solver_s": st.get("runtime_decision_procedure_s")})
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": steps, "transitions": vccs, "traces_validated_against_impl": traces, "samples": samples or [{"note": status}],
                "meaning": "states: SSA steps of the symbolic execution; transitions: verification conditions sent to the SAT solver; traces: seeded native runs of the same harnesses against the crate",
                "harnesses": harnesses, "checks_discharged": queries, "solver_seconds": round(solver, 2), "symex_seconds": round(symex, 2),
                "engine": "Kani 0.68.0 / CBMC 6.11.0 / CaDiCaL", "functions_encoded": self.conf["functions"],
                "functions_with_checks": sorted(functions)[:80], "bounds": self.conf["bounds"], "outside": self.conf["outside"], "status": status, "notes": self.notes,
            },
            "assumptions": self.conf["assumptions"], "wall_s": round(time.time() - T0, 1), "violations": len(violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def main(self):
        results, violations, status = [], [], "held"
        try:
            for run in self.conf["runs"]:
                if self.tier not in run.get("tiers", ("quick", "thorough")):
                    continue
                try:
                    r = self.run_config(run)
                except Skip as e:
                    log("configuration", run["name"], "does not apply:", e)
                    self.notes.append("configuration %s does not apply to this code: %s" % (run["name"], e))
                    continue
                results.append(r)
                violations += r["violations"]
                if violations:
                    break
        except NoAnswer as e:
            log("NO ANSWER:", e)
            status = "no answer: %s" % str(e)[:500]
        except Exception as e:  # a defect of the machinery is not a verdict
            import traceback
            traceback.print_exc()
            status = "no answer: %r" % e
        if violations:
            status = "violated"
        self.evidence(results, violations, status)
        for h, p, out in violations:
            print(out)
            print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
        log(self.pid, self.tier, status)
        # the last run's build products are not needed (the replay names its command)
        if not violations and not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        return 1 if violations else 0 if status == "held" else 2


if __name__ == "__main__":
    os.umask(0o022)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    sys.exit(Check(pid, tier if tier in DEADLINE else "quick", int(os.environ.get("VERIF_SEED", "1") or 1)).main())
