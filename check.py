#!/usr/bin/env python3
"""Decides one property by symbolic execution of the compiled real code.

  check.py PROPERTY [quick|thorough]
  check.py --replay FILE      re-run a recorded counterexample natively
  check.py --setup            build everything once

Steps: (re)build the executor and the harness from /repo's working tree (LLVM IR
of the linked program, and a native build of the same harness); for every stage
run the symbolic executor; replay counterexamples natively; replay sampled path
witnesses natively and compare all observable outputs; write the evidence.
"""
import json, os, subprocess, sys, time, glob, hashlib

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
TOOLCHAIN = "nightly"
IRSYM = os.path.join(V, "engine/target/release/irsym")
NPROC = os.cpu_count() or 8

sys.path.insert(0, V)
from props import PROPS  # noqa: E402


class Broken(Exception):
    """the check itself failed: no verdict"""


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e


def sh(cmd, cwd, **kw):
    p = subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken("%s failed in %s:\n%s" % (" ".join(cmd), cwd, p.stdout[-6000:]))
    return p.stdout


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "--quiet"], os.path.join(V, "engine"))


def build_harness(h):
    """returns (path of the .ll, path of the native binary)"""
    d = os.path.join(V, "harness", h)
    t = os.path.join(B, h)
    name = "h" + h
    nat = subprocess.Popen(
        ["cargo", "build", "--release", "--offline", "--quiet", "--features", "replay"], cwd=d,
        env=env(CARGO_TARGET_DIR=t + "-native"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    # the symbolic build is a library-like link: the sym_* functions stay undefined
    try:
        out = sh(["cargo", "rustc", "--release", "--offline", "--quiet", "--message-format=json", "--",
                  "--emit=llvm-ir", "-Clinker=/bin/true", "-Clinker-flavor=gcc"], d, CARGO_TARGET_DIR=t)
    finally:
        nout = nat.communicate()[0]
    if nat.returncode != 0:
        raise Broken("native build failed:\n" + nout[-6000:])
    lls = glob.glob(os.path.join(t, "release", "**", name + "*.ll"), recursive=True)
    if not lls:
        raise Broken("no LLVM IR produced")
    ll = max(lls, key=os.path.getmtime)
    for f in lls:
        if f != ll:
            os.unlink(f)
    return ll, os.path.join(t + "-native", "release", name)


def native(binary, prop, stage, job, hexin, timeout=20):
    """(verdict, outs, text): verdict held / failed / outside / crashed / hang"""
    cmd = [binary, "run", prop, str(stage), str(job), hexin]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd="/",
                           env={"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"})
    except subprocess.TimeoutExpired as e:
        return "hang", [], (e.stdout or b"").decode("utf-8", "replace")[-4000:]
    text = p.stdout.decode("utf-8", "replace")
    outs = []
    for l in text.split("\n"):
        if l.startswith("OUT "):
            f = l.split(" ")
            outs.append([int(f[1]), f[2] if len(f) > 2 else ""])
    if p.returncode == 0 and "HELD" in text:
        return "held", outs, text
    if p.returncode == 1 and "FAIL " in text:
        return "failed", outs, text
    if p.returncode == 7:
        return "outside", outs, text
    return "crashed", outs, text


def show(h):
    return bytes.fromhex(h).decode("utf-8", "backslashreplace")


def main():
    t0 = time.time()
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build_engine()
        for h in sorted({p["harness"] for p in PROPS.values()}):
            build_harness(h)
        print("ready")
        return 0
    if a and a[0] == "--replay":
        r = json.load(open(a[1]))
        _, binary = build_harness(PROPS[r["property"]]["harness"])
        v, _, text = native(binary, r["entry"], r["stage"], r["job"], r["input"])
        print(text)
        print("verdict:", v)
        return 0 if v == "held" else 1
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    entry = P["entry"]
    stages = P["quick"] if tier == "quick" else P["thorough"]
    budget = float(os.environ.get("VERIF_BUDGET_S", "700" if tier == "quick" else "5400"))

    build_engine()
    ll, binary = build_harness(P["harness"])
    tb = time.time()
    tot = dict(paths=0, pruned=0, forks=0, instructions=0, asserts=0, assert_queries=0, queries=0, queries_sat=0,
               queries_unsat=0, queries_cached=0, solver_s=0.0)
    funcs, stage_info, samples, viol = set(), [], [], []
    validated = 0
    unconfirmed = []
    not_encodable = []
    complete = []
    solver = ""
    os.makedirs(os.path.join(B, "out"), exist_ok=True)
    for st in stages:
        left = budget - (time.time() - t0)
        if left < 20:
            break
        n = int(subprocess.run([binary, "jobs", entry, str(st)], stdout=subprocess.PIPE, text=True).stdout)
        outf = os.path.join(B, "out", "%s-%d.json" % (pid, os.getpid()))
        cmd = [IRSYM, ll, "--entry", "h_" + entry, "--jobs", "0..%d" % n, "--param", str(st), "--threads", str(NPROC),
               "--deadline", "%.0f" % left, "--out", outf, "--samples", "200", "--seed", str(seed), "--maxviol", "12"]
        cmd += P.get("args", [])
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode not in (0, 1, 3) or not os.path.exists(outf):
            raise Broken("executor ended with %d:\n%s" % (p.returncode, p.stdout[-4000:]))
        d = json.load(open(outf))
        os.unlink(outf)
        for k in tot:
            tot[k] += d[k]
        funcs.update(d["functions"])
        solver = d["solver"]
        # counterexamples: re-run the native code on each
        for w in d["violations"]:
            v, outs, text = native(binary, entry, st, w["job"], w["input"])
            w.update(stage=st, verdict=v, text=text)
            if v in ("failed", "crashed", "hang"):
                viol.append(w)
            else:
                unconfirmed.append(w)
        if viol:
            break
        if unconfirmed:
            raise Broken("counterexample does not replay natively: %r" % unconfirmed[0])
        if d["errors"]:
            not_encodable += d["errors"]
            if d["paths"] == 0:
                raise Broken("not encodable: %s" % "; ".join(d["errors"][:5]))
        # sampled paths: native run must hold and produce the same observable bytes
        for w in d["samples"]:
            v, outs, text = native(binary, entry, st, w["job"], w["input"])
            if v != "held" or outs != [[t, h] for t, h in w["outs"]]:
                raise Broken("executor and native run differ (%s): %r\n%s" % (v, w, text))
            validated += 1
        samples += d["samples"][:: max(1, len(d["samples"]) // 4)][:4]
        unreached = [] if d["timeout"] or d["errors"] else [j["job"] for j in d["jobs"] if j["paths"] == 0]
        if d["timeout"] and d["paths"] == 0:
            break
        if unreached or (not d["timeout"] and not d["errors"] and len(d["jobs"]) < n) or d["reach"].get("1", 0) == 0:
            raise Broken("stage %d: jobs without a completed path: %r (%d of %d jobs)" % (st, unreached[:5], len(d["jobs"]), n))
        stage_info.append(dict(stage=st, jobs=n, paths=d["paths"], asserts=d["asserts"], queries=d["queries"],
                               wall_s=round(d["wall_s"], 2), complete=not d["timeout"] and not d["errors"], bound=P["bound"](st)))
        if d["timeout"] or d["errors"]:
            break
        complete.append(st)
    if not viol and tot["paths"] == 0:
        raise Broken("no stage completed within %.0f s" % budget)

    for w in viol:
        h = hashlib.sha1((pid + str(w["job"]) + w["input"]).encode()).hexdigest()[:10]
        rp = os.path.join(V, "evidence", "replay", "%s-%s.json" % (pid, h))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump(dict(property=pid, entry=entry, stage=w["stage"], job=w["job"], input=w["input"], message=w["msg"],
                       native_verdict=w["verdict"], observed=[[t, show(x)] for t, x in w["outs"]],
                       native_output=w["text"], rerun="python3 %s/check.py --replay %s" % (V, rp)), open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  %s (stage %d, job %d, native: %s)" % (w["msg"], w["stage"], w["job"], w["verdict"]))
        for t, x in w["outs"]:
            print("  %s: %r" % (P.get("tags", {}).get(t, "out%d" % t), show(x)))

    cov = dict(
        states=tot["paths"], transitions=tot["forks"], traces_validated_against_impl=validated,
        samples=[dict(job=w["job"], symbolic_bytes=w["input"],
                      observed={P.get("tags", {}).get(t, "out%d" % t): show(x) for t, x in w["outs"]}) for w in samples[:12]],
        explanation="states: feasible paths of the compiled code explored to the end; transitions: branch points on symbolic data where more than one side was feasible",
        exhaustive=len(complete) == len(list(stages)) and not viol,
        bounds=[s["bound"] for s in stage_info if s["complete"]], stages=stage_info,
        incomplete=[s["stage"] for s in stage_info if not s["complete"]] + [s for s in stages if s not in [x["stage"] for x in stage_info]],
        outside_bounds=P.get("outside", ""),
        not_encodable=not_encodable[:20],
        instructions_executed=tot["instructions"], assertions_checked=tot["asserts"], assertions_by_solver_query=tot["assert_queries"],
        solver_queries=tot["queries"], solver_sat=tot["queries_sat"], solver_unsat=tot["queries_unsat"],
        queries_answered_from_earlier_verdicts=tot["queries_cached"], solver_time_s=round(tot["solver_s"], 2), solver=solver,
        functions_encoded=len(funcs), functions=sorted(f for f in funcs if P["own"](f)),
        build_s=round(tb - t0, 1),
    )
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking",
              coverage=cov, assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(viol))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    if viol:
        return 1
    for x in not_encodable[:5]:
        print("NOT-ENCODABLE property=%s: paths left out: %s" % (pid, x))
    if cov["incomplete"]:
        print("INCOMPLETE property=%s: stages %r not finished within %.0f s" % (pid, cov["incomplete"], budget))
    print("%s %s: held; %d paths, %d assertions, %d solver queries, %d witnesses replayed, %.1f s" % (
        pid, tier, tot["paths"], tot["asserts"], tot["queries"], validated, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("CHECK-ERROR %s" % e)
        sys.exit(3)
