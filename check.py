#!/usr/bin/env python3
"""usage: check.py PROPERTY [quick|thorough]     decide one property for /repo's working tree
          check.py replay FILE                   replay a reported counterexample
          check.py setup                         build everything once

Builds LLVM IR of the real crate plus the harness from /repo's current working
tree, explores the property's harnesses symbolically with engine/ (symx, z3),
replays counterexamples and sampled paths natively, writes evidence/<id>.json."""
import json, os, re, shutil, resource, subprocess, sys, time, threading, glob, hashlib

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, V)
from props import PROPS, COMMON_ASSUMPTIONS

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
BUILD = os.path.join(V, "build")


class Broken(Exception):
    pass


def run(cmd, cwd, timeout=600, **kw):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
    if p.returncode != 0:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd), "\n".join(p.stdout.splitlines()[-60:])))
    return p.stdout


def build(features):
    """Regenerate the IR and the native replay binary from /repo's working tree."""
    feats = ",".join(sorted(features))
    key = hashlib.sha1(feats.encode()).hexdigest()[:10]
    out = {}
    errs = []

    def forget(d):
        # never trust time stamps for the crate under test
        for f in glob.glob(d + "/.fingerprint/harness-*") + glob.glob(d + "/.fingerprint/aoc-parse-*"):
            shutil.rmtree(f)

    def engine():
        run(["cargo", "build", "--release", "--offline", "--target-dir", BUILD + "/engine"], V + "/engine")
        out["symx"] = BUILD + "/engine/release/symx"

    def ir():
        t = BUILD + "/ir"
        for f in glob.glob(t + "/release/deps/harness-*.ll"):
            os.remove(f)
        forget(t + "/release")
        run(["cargo", "rustc", "--offline", "--release", "--lib", "--crate-type", "staticlib", "--features", feats, "--target-dir", t, "--",
             "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], V + "/harness")
        ll = glob.glob(t + "/release/deps/harness-*.ll")
        if len(ll) != 1:
            raise Broken("no LLVM IR produced: %r" % ll)
        out["ll"] = ll[0]

    def native():
        t = BUILD + "/native"
        forget(t + "/replay")
        run(["cargo", "build", "--offline", "--profile", "replay", "--bin", "vreplay", "--features", "native," + feats, "--target-dir", t], V + "/harness")
        out["replay"] = t + "/replay/vreplay"

    def guard(f):
        try:
            f()
        except Exception as e:
            errs.append(e)

    ts = [threading.Thread(target=guard, args=(f,)) for f in (engine, ir, native)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise Broken("\n".join(str(e) for e in errs))
    return out


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay_one(binary, h, level, vs, timeout=30):
    """-> (status, observations, message); hang / crash are statuses of their own"""
    line = "%s %s %s\n" % (h, level, ",".join(map(str, vs)))
    try:
        p = subprocess.run([binary], input=line, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return "hang", [], "no result within %d s" % timeout
    if p.returncode != 0:
        return "crash", [], "exit status %d: %s" % (p.returncode, p.stderr.strip()[-300:])
    st, obs, msg = (p.stdout.split("\n")[0].split("\t") + ["", ""])[:3]
    return st, [int(x) for x in obs.split(",") if x], msg


def replay_many(binary, items):
    inp = "".join("%s %s %s\n" % (h, l, ",".join(map(str, vs))) for h, l, vs in items)
    p = subprocess.run([binary], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300, preexec_fn=limits)
    res = []
    for l in p.stdout.split("\n"):
        if l:
            st, obs, msg = (l.split("\t") + ["", ""])[:3]
            res.append((st, [int(x) for x in obs.split(",") if x], msg))
    while len(res) < len(items):
        res.append(("crash", [], p.stderr[-200:]))
    return res


def text_of(vs):
    return "".join(chr(b) if 32 <= b < 127 else "\\x%02x" % b for b in vs)


def known():
    r = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                r.append(json.loads(l[7:]))
    return r


def check(pid, tier):
    t0 = time.time()
    P = PROPS[pid]
    os.makedirs(V + "/evidence", exist_ok=True)
    os.makedirs(V + "/replays", exist_ok=True)
    try:
        os.remove("%s/evidence/%s.json" % (V, pid))
    except FileNotFoundError:
        pass
    print("check %s (%s): %s" % (pid, tier, P["title"]), flush=True)
    try:
        b = build(P["features"])
    except Broken as e:
        m = str(e)
        if not P.get("typed") or "could not compile `harness`" not in m or "could not compile `aoc-parse`" in m:
            raise
        # the crate compiles, the harness's documented uses of parser!() and of the
        # values' types do not: these two properties are about exactly that
        f = "%s/replays/%s-types.json" % (V, pid)
        i = max(m.find("error"), 0)
        json.dump(dict(property=pid, kind="types", message=m[i:i + 4000]), open(f, "w"), indent=1)
        json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
                   "coverage": {"states": 0, "transitions": 0, "samples": [m[i:i + 2000]], "exhaustive": False, "bounds": "rustc rejects documented uses; nothing was explored"},
                   "assumptions": COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": 1}, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
        print("a documented pattern does not compile, or its value does not have the documented type:\n" + m[i:i + 1500])
        print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    tb = time.time() - t0
    hs = P["quick"] if tier == "quick" else P.get("thorough") or P["quick"]
    out = "%s/run-%s.json" % (BUILD, pid)
    if os.path.exists(out):
        os.remove(out)
    total = P.get("budget", 90) if tier == "quick" else P.get("budget_thorough", 600)
    cmd = [b["symx"], b["ll"], "--out", out, "--procs", str(os.cpu_count() or 8), "--deadline", str(P.get("deadline", 30) if tier == "quick" else 120), "--total", str(total),
           "--max-steps", str(P.get("max_steps", 40000000)), "--heap", "192", "--samples", "3", "--stop-after", "3", "--slice", str(P.get("slice", 8 if tier == "quick" else 25))]
    if tier == "thorough":
        cmd += ["--xcheck", "50", "--samples", "6"]
    cmd += ["%s:%d" % (h, l) for h, l, _ in hs]
    env = dict(ENV)
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=total + 240)
    if p.returncode != 0 or not os.path.exists(out):
        raise Broken("symx failed (%d): %s" % (p.returncode, p.stdout[-2000:]))
    R = json.load(open(out))
    os.remove(out)
    planned = len(hs)
    by_name = {"%s:%d" % (h, l): (h, l, o) for h, l, o in hs}
    hs = [by_name[r["harness"]] for r in R]         # the engine stops after a few failing harnesses
    # ---- native replay of counterexamples
    viols, unconfirmed, notes, knownhits = [], [], [], []
    kn = known()
    for r, (h, l, o) in zip(R, hs):
        for v in r["violations"]:
            if len(viols) >= 3:
                break
            st, obs, msg = replay_one(b["replay"], h, l, v["vars"])
            good = st in ("fail", "panic", "hang", "crash")
            rec = dict(property=pid, harness=h, level=l, kind=v["kind"], message=v["msg"], vars=v["vars"], vars_text=text_of(v["vars"]), native_status=st, native_message=msg)
            if not good:
                unconfirmed.append(rec)
                continue
            k = next((k for k in kn if k["property"] == pid and k["harness"] == h and k["message"] in v["msg"] and k.get("vars", v["vars"]) == v["vars"]), None)
            if k:
                knownhits.append(k)
                continue
            f = "%s/replays/%s-%s-%d-%d.json" % (V, pid, h, l, len(viols))
            json.dump(rec, open(f, "w"), indent=1)
            viols.append((f, rec))
        for e, n in r["errors"].items():
            notes.append("%s:%d: %d paths not explored: %s" % (h, l, n, e))
        if not r["complete"] and not r["violations"]:
            notes.append("%s:%d: not completed within its time budget (%d paths explored)" % (h, l, r["paths"]))
    # ---- native replay of sampled paths: the encoding must agree with the compiled crate
    items, want = [], []
    for r, (h, l, o) in zip(R, hs):
        for s in r["samples"]:
            items.append((h, l, s["vars"]))
            want.append(s["obs"])
    mism = []
    validated = 0
    if items and not viols:
        for it, w, (st, obs, msg) in zip(items, want, replay_many(b["replay"], items)):
            if st in ("ok", "fail") and obs == w:
                validated += 1
            else:
                mism.append("%s:%d %s: engine %r, native %s %r %s" % (it[0], it[1], text_of(it[2]), w, st, obs, msg))
    vacuous = []
    for r, (h, l, o) in zip(R, hs):
        need = set(o)
        if r["complete"] and not r["violations"] and not need <= set(r["reached"]):
            vacuous.append("%s:%d reached %s of %s" % (h, l, r["reached"], sorted(need)))
    done = [r for r in R if r["complete"] and not r["errors"]]
    fns = sorted({f for r in R for f in r["functions"]})
    own = [f for f in fns if "aoc_parse" in f]
    S = lambda k: sum(r[k] for r in R)
    samples = []
    for r, (h, l, o) in zip(R, hs):
        for s in r["samples"][:2]:
            samples.append({"harness": "%s:%d" % (h, l), "assignment": text_of(s["vars"]), "observed": s["obs"][:24]})
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": S("paths"), "transitions": S("branches"), "traces_validated_against_impl": validated, "samples": samples[:24],
            "exhaustive": len(done) == planned,
            "bounds": P["bounds"],
            "harnesses": [{"harness": "%s:%d" % (h, l), "complete_within_bound": r["complete"], "paths": r["paths"], "assumed_away": r["assumed_away"], "symbolic_branches": r["branches"],
                           "max_symbolic_bytes": r["max_vars"], "assertions_checked": r["asserts"], "finite_domain_decisions": r["fd_decisions"], "model_decisions": r["model_decisions"],
                           "z3_queries": r["z3_queries"], "z3_sat": r["z3_sat"], "z3_unsat": r["z3_unsat"], "z3_unknown": r["z3_unknown"], "z3_seconds": r["z3_time"], "fd_crosschecked_with_z3": r["fd_xchecks"],
                           "instructions": r["steps"], "wall_s": r["wall"], "errors": r["errors"], "witnesses_reached": r["reached"]} for r, (h, l, o) in zip(R, hs)],
            "queries_discharged": S("z3_queries") + S("fd_decisions") + S("cache_hits"), "z3_queries": S("z3_queries"), "solver_seconds": round(S("z3_time"), 3),
            "functions_encoded": len(fns), "aoc_parse_functions_encoded": own[:400], "build_s": round(tb, 1), "notes": notes,
        },
        "assumptions": COMMON_ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
    for n in notes:
        print("NOTE:", n)
    print("%d harnesses (%d complete), %d paths, %d symbolic branches, %d z3 queries (%.1f s), %d paths validated natively, %.1f s" % (len(R), len(done), S("paths"), S("branches"), S("z3_queries"), S("z3_time"), validated, time.time() - t0))
    for k in {json.dumps(k, sort_keys=True): k for k in knownhits}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viols:
        for f, rec in viols:
            print("counterexample %s:%d [%s] %s | assignment %s | native: %s %s" % (rec["harness"], rec["level"], rec["kind"], rec["message"][:300], rec["vars_text"], rec["native_status"], rec["native_message"][:300]))
        print("VIOLATION property=%s replay=%s" % (pid, viols[0][0]))
        return 1
    bad = 0
    for rec in unconfirmed:
        print("ERROR: counterexample does not reproduce natively:", json.dumps(rec)[:1500])
        bad = 2
    for m in mism:
        print("ERROR: encoding disagrees with the native build:", m)
        bad = 2
    for m in vacuous:
        print("ERROR: vacuous harness:", m)
        bad = 2
    if not done:
        print("ERROR: no harness was explored completely")
        bad = 2
    return bad


def main():
    if sys.argv[1] == "setup":
        build(sorted({f for p in PROPS.values() for f in p["features"]} - {"mgen"}))     # mgen takes long and only P34 needs it
        return 0
    if sys.argv[1] == "replay":
        rec = json.load(open(sys.argv[2]))
        if rec["kind"] == "types":
            try:
                build(PROPS[rec["property"]]["features"])
            except Broken as e:
                print(e)
                return 1
            return 0
        b = build(PROPS[rec["property"]]["features"])
        r = replay_one(b["replay"], rec["harness"], rec["level"], rec["vars"])
        print(r)
        return 1 if r[0] in ("fail", "panic", "hang", "crash") else 0
    return check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("ERROR:", e)
        sys.exit(2)
