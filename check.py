#!/usr/bin/env python3
"""Decides one property by symbolic execution of the compiled code of /repo:  check.py PROPERTY [--tier quick|thorough]

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; exit 2: the check could not decide.
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SV_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from specs import SPECS  # noqa: E402

NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
HOST = "x86_64-unknown-linux-gnu"
IR_FLAGS = "--emit=llvm-ir -Zshare-generics=no -Zub-checks=no -Cdebug-assertions=on -Coverflow-checks=on --cap-lints=allow"


class Undecided(Exception):
    pass


def run(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.update({"CARGO_NET_OFFLINE": "true"})
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        d = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return 124, d(x.stdout), d(x.stderr)


def engine():
    target = os.path.join(VERIF, "engine", "target")
    rc, _, err = run(["cargo", "build", "--release", "--offline", "--target-dir", target], cwd=os.path.join(VERIF, "engine"), timeout=900)
    if rc != 0:
        raise Undecided("the engine does not build:\n" + err[-2000:])
    return os.path.join(target, "release", "svx")


def build_ir(work, feature, nda=False):
    """nda: internal assertions off, so that the optimised build's assumptions (unreachable_unchecked) are in the IR"""
    t = os.path.join(work, "ir-nda" if nda else "ir")
    rc, _, err = run(["cargo", "build", "--offline", "--features", feature], cwd=os.path.join(VERIF, "harness"), timeout=600,
                     env={"RUSTUP_TOOLCHAIN": NIGHTLY, "CARGO_TARGET_DIR": t, "RUSTFLAGS": IR_FLAGS.replace("debug-assertions=on", "debug-assertions=off") if nda else IR_FLAGS})
    if rc != 0:
        raise Undecided("the code under test or the harness does not build:\n" + err[-3000:])
    files = sorted(glob.glob(t + "/debug/build/*/*/out/*.ll") + glob.glob(t + "/debug/deps/*.ll"))
    if not files:
        raise Undecided("no LLVM IR was produced")
    return files


class Replay:
    """native builds of the replay program, made on demand"""

    def __init__(self, work, feature):
        self.work, self.feature, self.bins = work, feature, {}

    def binary(self, kind):
        kind = "debug" if kind == "strict" else kind
        if kind in self.bins:
            return self.bins[kind]
        t = os.path.join(self.work, "rp-" + kind)
        cmd = ["cargo", "build", "--offline", "--features", self.feature]
        env = {"CARGO_TARGET_DIR": t}
        if kind == "release":
            cmd.append("--release")
        if kind == "nda":
            env["RUSTFLAGS"] = "-Cdebug-assertions=off"
        if kind == "asan":
            cmd += ["--target", HOST]
            env.update({"RUSTUP_TOOLCHAIN": NIGHTLY, "RUSTFLAGS": "-Zsanitizer=address"})
        if kind == "sched":
            cmd[-1] += ",sched"
            env.update({"RUSTUP_TOOLCHAIN": NIGHTLY, "RUSTC_WRAPPER": os.path.join(VERIF, "tools", "tsan_rustc.sh"), "RUSTFLAGS": "-Cunsafe-allow-abi-mismatch=sanitizer -Zshare-generics=no"})
        if kind == "tsan":
            cmd += ["--target", HOST]
            env.update({"RUSTUP_TOOLCHAIN": NIGHTLY, "RUSTFLAGS": "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer"})
        rc, _, err = run(cmd, cwd=os.path.join(VERIF, "replay"), env=env, timeout=600)
        if rc != 0:
            raise Undecided(f"the replay program ({kind}) does not build:\n" + err[-3000:])
        sub = "release" if kind == "release" else "debug"
        self.bins[kind] = os.path.join(t, HOST, sub, "replay") if kind in ("asan", "tsan") else os.path.join(t, sub, "replay")
        return self.bins[kind]

    def go(self, kind, entry, inputs, timeout=60, order=()):
        args = ",".join(map(str, inputs))
        if kind == "miri":
            env = {"RUSTUP_TOOLCHAIN": NIGHTLY, "CARGO_TARGET_DIR": os.path.join(self.work, "rp-miri"), "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance"}
            return run(["cargo", "miri", "run", "--offline", "-q", "--features", self.feature, "--", entry, args], cwd=os.path.join(VERIF, "replay"), env=env, timeout=300)
        env = {"RUST_BACKTRACE": "0"}
        if kind in ("asan", "tsan"):
            env.update({"SV_PLAIN": "1", "ASAN_OPTIONS": "detect_leaks=0"})
        if kind == "sched":
            env["SV_SCHED"] = ",".join(map(str, order))
        if kind == "strict":
            env["SV_STRICT"] = "1"
        return run([self.binary(kind), entry, args], timeout=timeout, env=env)


def logs_of(out):
    return [int(x) for x in re.findall(r"^LOG (\d+)$", out, re.M)]


def reproduce(rp, entry, bug, nda=False):
    """-> (kind of build, how it failed) or None"""
    order = ["nda", "release", "strict"] if nda else ["debug", "release"]
    if bug["kind"] not in ("assert", "panic"):
        order += ["asan", "miri"]
    if len(set(bug.get("order") or [])) > 1:
        # the recorded order of the atomic operations is forced on real threads
        order = ["sched", "tsan", *order, "miri"]
    seen = []
    for kind in order:
        try:
            rc, out, err = rp.go(kind, entry, bug["inputs"], order=bug.get("order") or [])
        except Undecided as x:
            seen.append(f"{kind}: {str(x)[:200]}")
            continue
        seen.append(f"{kind}: exit {rc} {out.strip().splitlines()[-1:]}")
        if rc == 124 and kind in ("sched", "tsan") and bug["kind"] not in ("nontermination", "deadlock"):
            continue
        if rc == 124:
            return kind, "does not terminate"
        if rc not in (0, 77):
            f = re.findall(r"^FAIL .*$", out, re.M)
            e = re.findall(r"^.*(?:panicked at|ERROR: AddressSanitizer|Undefined Behavior|WARNING: ThreadSanitizer|memory allocation of|free\(\)|double free|corrupted).*$", err, re.M)
            return kind, "; ".join(f + e[:3]) or f"exit status {rc}"
    bug["seen"] = seen
    return None


def sig(bug):
    """identifies a failure by what fails and where, not by the values"""
    frames = [re.sub(r"<.*", "", f) for f in bug["stack"][:2]]
    return bug["kind"] + ": " + bug["msg"]


def plain(name):
    """a function's path without its generic arguments"""
    def close(t):
        d = 0
        for i, c in enumerate(t):
            if c == "<":
                d += 1
            elif c == ">" and t[i - 1] != "-":
                d -= 1
                if d == 0:
                    return i
        return len(t) - 1

    def drop(t):
        o = ""
        while "<" in t:
            i = t.index("<")
            j = i + close(t[i:])
            o += t[:i]
            t = t[j + 1:]
            if o.endswith("::"):
                o = o[:-2]
        return o + t
    if name.startswith("<"):
        j = close(name)
        return "<" + drop(name[1:j]) + ">" + drop(name[j + 1:])
    return drop(name)


def known_findings():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--entry", action="append")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = SPECS[a.property]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"sv-{a.property}-", dir=os.environ.get("TMPDIR", "/tmp"))
    code = 2
    try:
        code = check(a, spec, seed, work, t0)
    except Undecided as x:
        print(f"UNDECIDED property={a.property}: {x}")
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def check(a, spec, seed, work, t0):
    pid, feature = a.property, spec["feature"]
    svx = engine()
    irs = {n: build_ir(work, feature, n) for n in {bool(e.get("nda")) for e in spec["quick"]}}
    t_build = time.time() - t0
    plan = list(spec["quick"]) + (list(spec.get("thorough", [])) if a.tier == "thorough" else [])
    if a.entry:
        plan = [e for e in plan if e["entry"] in a.entry] or [{"entry": e} for e in a.entry]
    budget = spec.get("budget", 600) if a.tier == "quick" else 3 * 3600
    rp = Replay(work, feature)
    results, violations, findings, validated, mismatches = [], [], [], 0, []
    known = [f for f in known_findings()["findings"] if f["property"] == pid]
    for e in plan:
        left = budget - (time.time() - t0)
        if left < 20:
            results.append({"entry": e["entry"], "skipped": "time budget of the tier used up"})
            continue
        deadline = int(min(left, e.get("deadline", 3600 if a.tier == "thorough" else 400)))
        out = os.path.join(work, e["entry"] + ".json")
        nda = bool(e.get("nda"))
        if nda not in irs:
            irs[nda] = build_ir(work, feature, nda)
        cmd = [svx, *irs[nda], "--entry", e["entry"], "--out", out, "--threads", str(os.cpu_count() or 4), "--deadline", str(deadline),
               "--samples", str(e.get("samples", 6)), "--seed", str(seed), "--max-bugs", str(e.get("max_bugs", 1)), "--preempt", str(e.get("preempt", 2)), *e.get("args", [])]
        rc, so, se = run(cmd, timeout=deadline + 120)
        if not os.path.exists(out):
            raise Undecided(f"the engine failed on {e['entry']}: exit {rc}\n" + se[-2000:])
        d = json.load(open(out))
        r = d["entries"][0]
        r["z3"] = d["z3"]
        print(se.strip().splitlines()[-1] if not r["bugs"] and not r["errs"] and se.strip() else se.strip()[:6000], flush=True)
        if r["bugs"]:
            for b in r["bugs"]:
                rep = reproduce(rp, e["entry"], b, nda)
                if rep is None:
                    raise Undecided(f"{e['entry']}: a counterexample of the encoding does not reproduce natively: {b['kind']}: {b['msg']} inputs {b['inputs']}; {b.get('seen')}")
                kf = [f for f in known if f["entry"] == e["entry"] and f["failure"] == sig(b)]
                if kf:
                    findings.append((kf[0], b))
                else:
                    violations.append((e, b, rep))
            if violations:
                results.append(r)
                break
        elif r["errs"]:
            raise Undecided(f"{e['entry']}: the code is outside what the engine can encode: {r['errs'][0]}")
        # the engine against the machine: sampled paths replayed natively must observe the same values
        for s in r["samples"]:
            if e.get("no_validate"):
                break
            rc, so, se = rp.go("nda" if nda else "debug", e["entry"], s["inputs"])
            if rc != 0 or logs_of(so) != s["logs"]:
                mismatches.append({"entry": e["entry"], "inputs": s["inputs"], "exit": rc, "native": logs_of(so)[:40], "symbolic": s["logs"][:40], "out": so[-300:], "err": se[-300:]})
            else:
                validated += 1
        if not r["bugs"]:
            for c in e.get("covers", [1]):
                if str(c) not in r["covers"] and not r["timed_out"]:
                    raise Undecided(f"{e['entry']}: reachability witness {c} was never reached (vacuous)")
        results.append(r)
    if mismatches and not violations:
        m = mismatches[0]
        if m["exit"] not in (0, 77):
            # the real code fails where the encoding does not: still a failure of the real code
            b = {"kind": "native", "msg": f"native run fails: {m['out'].strip().splitlines()[-1:]} {m['err'].strip().splitlines()[:2]}", "inputs": m["inputs"], "stack": [], "notes": []}
            violations.append(({"entry": m["entry"]}, b, ("debug", b["msg"])))
        else:
            raise Undecided(f"the encoding and the machine disagree: {json.dumps(m)}")
    done = [r for r in results if "skipped" not in r]
    tot = lambda k: sum(r.get(k, 0) for r in done)
    funcs = sorted({f for r in done for f in r["functions"]})
    own = [f for f in funcs if "sherman::" in f]
    if not violations and len(own) < spec.get("min_functions", 1):
        raise Undecided("none of the code under test was executed")
    samples = [{"entry": r["entry"], "inputs": s["inputs"], "observed": s["logs"][:30]} for r in done for s in r["samples"][:2]][:12]
    ev = {
        "property": pid, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": validated, "samples": samples,
            "exhaustive": all(r.get("incomplete", 1) == 0 and not r.get("timed_out") and not r.get("bugs") for r in results),
            "explanation": "states: feasible symbolic paths explored to their end, each standing for every value of its symbolic inputs; transitions: LLVM instructions executed symbolically; traces: sampled paths replayed natively with equal observations",
            "bounds": {r["entry"]: next((x.get("bounds", "") for x in plan if x["entry"] == r["entry"]), "") for r in results},
            "entries": [{k: r.get(k) for k in ("entry", "skipped", "secs", "paths", "killed", "forks", "steps", "max_path_steps", "max_path_conditions", "sym_branches", "asserts", "queries", "sat", "unsat", "unknown", "solver_secs", "entailed", "confirmed", "schedule_points", "incomplete", "timed_out", "covers", "incomplete_msgs") if k in r} for r in results],
            "queries": {"total": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "solver_seconds": round(tot("solver_secs"), 3), "decided_by_linear_entailment": tot("entailed"), "of_which_confirmed_by_the_solver": tot("confirmed")},
            "assertions_checked": tot("asserts"),
            "assertions_by_message": {m: sum(r["asserts_by_msg"].get(m, 0) for r in done) for m in sorted({m for r in done for m in r["asserts_by_msg"]})},
            "functions_encoded": sorted({p for p in map(plain, own) if "sherman::" in p}), "instances_encoded": len(own), "functions_encoded_total": len(funcs),
            "solver": done[0]["z3"] if done else "", "ir_sha256": hashlib.sha256(b"".join(open(f, "rb").read() for n in sorted(irs) for f in irs[n])).hexdigest(), "build_seconds": round(t_build, 1),
            "outside_the_bounds": spec.get("outside", ""),
            "known_findings_seen": [f["id"] for f, _ in findings],
        },
        "assumptions": spec.get("assumptions", []) + COMMON,
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for f, _ in findings:
        print(f"KNOWN-FINDING: property={pid} {f['what']}")
    if violations:
        e, b, rep = violations[0]
        os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", "replays", f"{pid}-{e['entry']}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "entry": e["entry"], "feature": feature, "inputs": b["inputs"], "failure": b["kind"] + ": " + b["msg"], "signature": sig(b), "stack": b["stack"], "notes": b["notes"], "schedule": b.get("order", []), "native": {"build": rep[0], "result": rep[1]},
                       "replay": f"cd {VERIF}/replay && cargo run --offline --features {feature} {'--release ' if rep[0] == 'release' else ''}-- {e['entry']} {','.join(map(str, b['inputs']))}"}, f, indent=1)
        print(f"counterexample in {e['entry']}: {b['kind']}: {b['msg']}\n  inputs {b['inputs']}\n  native ({rep[0]}): {rep[1]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    part = [r["entry"] for r in results if r.get("timed_out") or r.get("incomplete") or "skipped" in r]
    print(f"OK property={pid} paths={tot('paths')} assertions={tot('asserts')} queries={tot('queries')} solver={tot('solver_secs'):.1f}s wall={time.time() - t0:.1f}s" + (f" (not exhausted within the time: {', '.join(part)})" if part else ""))
    return 0


COMMON = [
    "svx (the symbolic executor in /verif/engine), Z3 4.8.12 and rustc's lowering to unoptimised LLVM IR (nightly, overflow checks and debug assertions on) are trusted; sampled paths are compared with native execution on every run",
    "memory allocation never fails; panics unwind",
]

if __name__ == "__main__":
    main()
