"""Measures which lines of the core the workloads execute: reach.py OUTDIR [share]. Not a check; its result is quoted in DESIGN.md."""
import os, subprocess, sys
import registry, build
out, share = sys.argv[1], float(sys.argv[2]) if len(sys.argv) > 2 else 0.05
os.makedirs(out, exist_ok=True)
jobs = sorted({(k, p, s) for c in registry.CHECKS.values() for (k, p, v, s, *_) in c["jobs"]})
procs, bins = [], []
env = dict(os.environ, STVERIF_TMP=out, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
ext, rso = build.pyext("piccov"), build.rlib("piccov")
bins += [ext + "/stochtree_cpp.so", rso]
for k, p, s in jobs:
    q = max(c["jobs"][i][4] for c in registry.CHECKS.values() for i in range(len(c["jobs"])) if c["jobs"][i][:2] == (k, p) and c["jobs"][i][3] == s)
    n, e = str(max(3, int(q * share))), dict(env, LLVM_PROFILE_FILE="%s/%s-%s-%%p.profraw" % (out, p, s))
    if k == registry.N:
        b = build.driver(p, "cov")
        bins.append(b)
        cmd = [b, s, "1", "0", n]
    elif k == registry.PY:
        e["PYTHONPATH"] = "%s:%s:%s/py" % (ext, build.REPO, build.HARN)
        cmd = ["/opt/vp/venv/bin/python", "%s/py/%s.py" % (build.HARN, p), s, "1", "0", n]
    else:
        e.update(STVERIF_SO=rso, STVERIF_REPO=build.REPO, STVERIF_HARN=build.HARN + "/r")
        cmd = ["Rscript", "--vanilla", "%s/r/%s.R" % (build.HARN, p), s, "1", "0", n]
    procs.append((p, s, cmd, e))
import concurrent.futures as cf
def run(j):
    p, s, cmd, e = j
    r = subprocess.run(["timeout", "900"] + cmd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    print(p, s, r.returncode, flush=True)
with cf.ThreadPoolExecutor(6) as ex:
    list(ex.map(run, procs))
import glob
raw = glob.glob(out + "/*.profraw")
subprocess.run(["llvm-profdata", "merge", "-sparse", "-o", out + "/all.profdata"] + raw, check=True)
bins = sorted(set(bins))
args = [bins[0]] + sum((["-object", b] for b in bins[1:]), []) + ["-instr-profile", out + "/all.profdata"]
src = [build.REPO + "/src", build.REPO + "/include/stochtree"]
subprocess.run(["llvm-cov", "report"] + args + src, stdout=open(out + "/report.txt", "w"))
subprocess.run(["llvm-cov", "show", "-show-line-counts-or-regions=0"] + args + src, stdout=open(out + "/lines.txt", "w"))
print(open(out + "/report.txt").read())
