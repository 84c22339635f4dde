#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only PROP] [--scale F]   decide one property
   check.py --replay FILE                                                  re-run one replay file
   check.py --setup                                                        prebuild everything
Builds what it needs from /repo's working tree under /verif/build (git-ignored)."""
import argparse, hashlib, json, os, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import builder, plan

def known_findings():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                w = l.split(None, 3)
                out.append({"property": w[1].split("=", 1)[1], "sig": w[2].split("=", 1)[1], "text": w[3] if len(w) > 3 else ""})
    return out

class Ctx:
    """What a custom step gets: builder, tier, seed, a scratch directory, and a result to fill in."""
    def __init__(s, pid, tier, seed, scale):
        s.pid, s.tier, s.seed, s.scale = pid, tier, seed, scale
        s.b = builder
        s.replay_dir = os.path.join(os.environ.get("VERIF_REPLAYS") or os.path.join(VERIF, "build", "replays"), pid)
        os.makedirs(s.replay_dir, exist_ok=True)
        for f in os.listdir(s.replay_dir):
            q = os.path.join(s.replay_dir, f)
            if os.path.isdir(q): shutil.rmtree(q)
            else: os.unlink(q)
        s.tmp = tempfile.mkdtemp(prefix="vt.", dir=os.environ.get("TMPDIR", "/tmp"))
        os.chmod(s.tmp, 0o755)
        s.parts, s.failures, s.errors = [], [], []
    def n(s, quick, thorough):
        return max(1, int((thorough if s.tier == "thorough" else quick) * s.scale))
    def part(s, name, rule, evaluations, distinct, samples, events=None, extra=None):
        d = {"name": name, "rule": rule, "evaluations": evaluations, "distinct_nontrivial": distinct, "samples": samples[:4], "events": events or {}}
        if extra: d.update(extra)
        s.parts.append(d)
    def fail(s, prop, msg, replay_text, suffix="txt"):
        f = os.path.join(s.replay_dir, "%s-%d.%s" % (prop, len(s.failures), suffix))
        with open(f, "w") as h: h.write(replay_text)
        s.failures.append({"prop": prop, "msg": msg, "replay": f})

def run_harness(ctx, st, libdir, exe):
    out = os.path.join(ctx.tmp, "stats-%s-%s.json" % (st.harness, st.variant))
    props = [(k, v) for k, v in st.props.items()]
    args = [exe, "run", "--seed", str(ctx.seed), "--jobs", str(st.jobs), "--out", out, "--replay-dir", ctx.replay_dir,
            "--harness", st.harness, "--variant", st.variant, "--max-secs", str(st.max_secs[1] if ctx.tier == "thorough" else st.max_secs[0])]
    if ctx.tier == "thorough": args.append("--thorough")
    args += ["%s=%d" % (k, ctx.n(*v)) for k, v in props]
    env = builder.run_env(st)
    env["TMPDIR"] = ctx.tmp
    r = subprocess.run(args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=ctx.tmp)
    if not os.path.exists(out):
        raise RuntimeError("harness %s/%s produced no result (exit %d): %s" % (st.harness, st.variant, r.returncode, r.stdout.decode(errors="replace")[-1500:]))
    res = json.load(open(out))
    for p in res["props"]:
        ctx.parts.append({"name": "%s[%s]" % (p["name"], st.variant), "rule": p["rule"], "evaluations": p["evaluations"], "discards": p["discards"],
                          "distinct_nontrivial": p["distinct_nontrivial"], "events": p["events"], "samples": p["samples"], "wall_s": round(p["wall_s"], 2),
                          "unconfirmed": p["unconfirmed"]})
        for f in p["failures"]:
            f["variant"] = st.variant
            nf = f["replay"].replace(".replay", "-%s.replay" % st.variant)
            if nf != f["replay"]: os.replace(f["replay"], nf)
            f["replay"] = nf
            ctx.failures.append(f)

def check(pid, tier, only, scale):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = Ctx(pid, tier, seed, scale)
    steps = [s for s in plan.STEPS[pid] if (tier == "thorough" or not s.thorough_only) and (not only or only in s.tags())]
    try:
        builder.build_all(steps)
        tb = time.time() - t0
        for st in steps:
            if st.custom: st.custom(ctx)
            else: run_harness(ctx, st, None, builder.harness_exe(st))
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    known = [k for k in known_findings() if k["property"] == pid]
    violations, kf = [], []
    for f in ctx.failures:
        m = [k for k in known if f["msg"].startswith("[" + k["sig"] + "]")]
        (kf if m else violations).append((f, m))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(p["evaluations"] for p in ctx.parts),
                       "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in ctx.parts),
                       "rule": " || ".join("%s: %s" % (p["name"], p["rule"]) for p in ctx.parts),
                       "samples": [x for p in ctx.parts for x in ["%s: %s" % (p["name"], str(y)) for y in p["samples"][:2]]][:16],
                       "parts": ctx.parts},
          "assumptions": plan.ASSUMPTIONS.get(pid, []) + plan.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    ev["coverage"]["build_s"] = round(tb, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as h: json.dump(ev, h, indent=1)
    for k in known:
        hit = [f for f, m in kf if k in m]
        if k["sig"] and (hit or not ctx.failures or True):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    for p in ctx.parts:
        print("%s: %d cases, %d distinct non-trivial%s" % (p["name"], p["evaluations"], p["distinct_nontrivial"], ", %.1fs" % p["wall_s"] if "wall_s" in p else ""))
        for u in p.get("unconfirmed", []): print("  unconfirmed (not reported as a violation): %s" % u[:400])
    for f, _ in violations:
        print("---- %s %s\n%s\n%s\n%s" % (f["prop"], f.get("variant", ""), f["msg"], f.get("notes", ""), f.get("log", "")[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, f["replay"]))
    print("%s %s: %s in %.1fs (build %.1fs)" % (pid, tier, "VIOLATED" if violations else "held", time.time() - t0, tb))
    return 1 if violations else 0

def replay(f):
    info = dict(l.split(None, 1) for l in open(f, errors="replace").read().split("\n")[:8] if " " in l)
    if "harness" not in info:
        if f.endswith(".py") or open(f).readline().startswith("#!"): return subprocess.call([f])
        print(open(f).read()); return 2
    for steps in plan.STEPS.values():
        for st in steps:
            if st.harness == info["harness"].strip() and st.variant == info["variant"].strip():
                builder.build_all([st])
                return subprocess.call([builder.harness_exe(st), "replay", f], env=builder.run_env(st))
    print("no such step"); return 2

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        builder.build_all([s for v in plan.STEPS.values() for s in v if not s.thorough_only])
        return 0
    if a.replay: return replay(a.replay)
    return check(a.pid, a.tier, a.only, a.scale)

if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    try:
        rc = main()
    except BaseException as e:
        if isinstance(e, SystemExit): raise
        if not isinstance(e, builder.BuildError):
            import traceback
            traceback.print_exc(file=sys.stdout)
        print("the check could not run: %s" % e)
        rc = 2
    sys.exit(rc)
