"""Coverage-guided search (libFuzzer) over a property of a harness; used by the thorough tier.
The fuzzer's bytes feed the property's choices; every worker has a fixed seed and run count."""
import base64, os, re, subprocess, sys, concurrent.futures as cf
import builder

REPLAY = '''#!/usr/bin/env python3
# replay of a fuzzing failure: builds the fuzz harness from /repo and runs this one input
import base64, os, subprocess, sys, tempfile
sys.path.insert(0, %(verif)r); sys.dont_write_bytecode = True
import builder
st = builder.Step(%(harness)r, "fuzz", {})
builder.build_all([st])
d = tempfile.mkdtemp(); f = os.path.join(d, "input")
open(f, "wb").write(base64.b64decode(%(data)r))
e = builder.run_env(st); e["VT_PROP"] = %(prop)r; e["VT_SCRATCH"] = d
r = subprocess.call([builder.harness_exe(st), f], env=e)
subprocess.call(["rm", "-rf", d]); sys.exit(1 if r else 0)
'''

def fuzz(harness, prop, runs, max_len=4096, workers=8, max_secs=3000):
    def run(ctx):
        st = builder.Step(harness, "fuzz", {})
        n = max(1000, int(runs * ctx.scale / workers))
        def one(i):
            d = os.path.join(ctx.tmp, "fuzz-%s-%d" % (prop, i))
            os.makedirs(d + "/corpus"); os.makedirs(d + "/art"); os.makedirs(d + "/scratch")
            e = builder.run_env(st)
            e["VT_PROP"], e["VT_SCRATCH"] = prop, d + "/scratch"
            r = subprocess.run([builder.harness_exe(st), "-runs=%d" % n, "-seed=%d" % (ctx.seed * 1000 + i + 1), "-max_len=%d" % max_len, "-max_total_time=%d" % max_secs, "-timeout=60", "-rss_limit_mb=3500",
                                "-artifact_prefix=" + d + "/art/", "-print_final_stats=1", "-verbosity=1", d + "/corpus"], env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode(errors="replace")
            m = re.findall(r"stat::number_of_executed_units:\s*(\d+)", out)
            cov = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", out)
            return d, int(m[-1]) if m else 0, cov[-1] if cov else ("0", "0", "0"), out
        with cf.ThreadPoolExecutor(workers) as ex: res = list(ex.map(one, range(workers)))
        ex_total = sum(r[1] for r in res)
        corp = sum(int(r[2][2]) for r in res)
        samples, seen = [], set()
        for d, _, cov, out in res:
            for a in sorted(os.listdir(d + "/art")):
                if a.startswith("slow-unit"): continue
                data = open(d + "/art/" + a, "rb").read()
                e = builder.run_env(st)
                e["VT_PROP"], e["VT_SCRATCH"] = prop, d + "/scratch"
                r = subprocess.run([builder.harness_exe(st), d + "/art/" + a], env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
                o = r.stdout.decode(errors="replace")
                if r.returncode == 0: continue # not reproducible: not reported
                m = re.search(r"VT-FAILURE (.*)|(runtime error: .*)|(ERROR: \w+Sanitizer: [^\n]*)", o)
                msg = m.group(0) if m else o[-300:]
                cls = re.sub(r"[0-9a-fx]+", "", msg)[:60]
                if cls in seen: continue
                seen.add(cls)
                ctx.fail("fuzz-" + prop, msg + "\n" + o[-1500:], REPLAY % {"verif": builder.VERIF, "harness": harness, "prop": prop, "data": base64.b64encode(data).decode()}, "py")
                os.chmod(ctx.failures[-1]["replay"], 0o755)
            fs = sorted(os.listdir(d + "/corpus"))
            if fs: samples.append("input of %d bytes reaching new code" % os.path.getsize(d + "/corpus/" + fs[-1]))
        ctx.part("fuzz:" + prop, "an input that reached code no earlier input of its worker reached", ex_total, corp, samples or ["(no corpus)"],
                 {"edges covered, best worker": max(int(r[2][0]) for r in res), "features, best worker": max(int(r[2][1]) for r in res)})
    run.__name__ = "fuzz_" + prop
    return builder.Step(harness, "fuzz", {}, custom=run, thorough_only=True)
