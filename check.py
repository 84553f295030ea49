#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]: run the monitors that decide one property on /repo's current tree.

exit 0: held on everything observed; exit 1: a line 'VIOLATION property=<id> replay=<path>'; 2/3: the check itself failed."""
import argparse, collections, concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/harness")
sys.dont_write_bytecode = True
import build, registry

CORES = min(8, os.cpu_count() or 4)
PYTHON = "/opt/vp/venv/bin/python"


def program(kind, prog, variant):
    """-> (argv prefix, extra environment)"""
    env = {}
    if kind == "native":
        argv = [build.driver(prog, variant)]
        if variant == "vg":
            argv = ["valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=99", "--num-callers=20"] + argv
    elif kind == "py":
        d = build.pyext(variant)
        argv = [PYTHON, VERIF + "/harness/py/%s.py" % prog]
        env = {"PYTHONPATH": "%s:%s:%s/harness/py" % (d, build.REPO, VERIF), "PYTHONDONTWRITEBYTECODE": "1", "STVERIF_REPO": build.REPO,
               "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
        if "asan" in variant:
            rt = subprocess.run(["clang++", "-print-file-name=libclang_rt.asan-x86_64.so"], capture_output=True, text=True).stdout.strip()
            env["LD_PRELOAD"] = rt
    else:
        so = build.rlib(variant)
        argv = ["Rscript", "--vanilla", VERIF + "/harness/r/%s.R" % prog]
        env = {"STVERIF_SO": so, "STVERIF_REPO": build.REPO, "STVERIF_HARN": VERIF + "/harness/r", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:second_deadlock_stack=1"
    return argv, env


class Run:
    def __init__(self, tmp):
        self.tmp = tmp
        self.counters = collections.Counter()
        self.distinct = collections.defaultdict(set)
        self.dsum = collections.Counter()
        self.samples, self.viol, self.errors = [], [], []
        self.grace, self.stop_at = 45, None

    def found(self):
        """Once a process has died or hung, the rest need not run for long: the verdict is known."""
        if self.stop_at is None:
            self.stop_at = time.time() + self.grace

    def execute(self, argv, env, timeout):
        e = dict(os.environ)
        e.update(env)
        d = tempfile.mkdtemp(dir=self.tmp)
        e["STVERIF_TMP"] = d
        e["TMPDIR"] = d
        out = open(d + "/out", "w+")
        err = open(d + "/err", "w+")
        p = subprocess.Popen(argv, stdout=out, stderr=err, stdin=subprocess.DEVNULL, env=e, start_new_session=True, cwd=d)
        # a process that starts no new case for `timeout` seconds hangs; one that is no longer needed is stopped
        rc, last, moved, wait = None, 0, time.time(), 0.01
        while rc is None:
            try:
                rc = p.wait(wait)
                break
            except subprocess.TimeoutExpired:
                wait = min(0.5, wait * 2)
            now, size = time.time(), os.path.getsize(d + "/out")
            if size != last:
                last, moved = size, now
            if now - moved > timeout:
                rc = "timeout"
            elif self.stop_at and now > self.stop_at:
                rc = "stopped"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        out.seek(0), err.seek(0)
        o, er = open(d + "/out", errors="replace").read(), open(d + "/err", errors="replace").read()
        shutil.rmtree(d, ignore_errors=True)
        return rc, o, er

    def chunk(self, job, argv, env, seed, first, count, timeout):
        """One process over a range of cases; a case that kills it is recorded and the rest is continued."""
        res, restarts = [], 0
        while count > 0:
            rc, o, er = self.execute(argv + [job[3], str(seed), str(first), str(count)], env, timeout)
            res.append((o, None))
            if rc == "stopped" or rc == 0 and re.search(r"^E$", o, re.M):
                break
            b = re.findall(r"^B\t(\d+)$", o, re.M)
            if not b:
                res.append(("", ("error", "driver did not start (exit %s): %s" % (rc, er[-600:]), first)))
                break
            bad = int(b[-1])
            what = summary(rc, er)
            if rc == "timeout":
                rc2, o2, er2 = self.execute(argv + [job[3], str(seed), str(bad), "1"], env, timeout)
                if rc2 == 0:  # a slow machine: the case is done, go on after it
                    res.append((o2, None))
                else:
                    if rc2 != "stopped":
                        res.append(("", ("hang" if rc2 == "timeout" else "crash", "case does not finish within %d s (twice)" % timeout, bad)))
                        self.found()
                    break
            else:
                res.append(("", ("crash", what, bad)))
                self.found()
            restarts += 1
            count -= bad + 1 - first
            first = bad + 1
            if restarts >= 3 and count > 0:
                if not any(e and e[0] in ("crash", "hang") for _, e in res):
                    res.append(("", ("error", "too slow: %d cases from %d on not run" % (count, first), first)))
                break
        return job, res


def summary(rc, er):
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*|[^\n]*Assertion[^\n]*failed[^\n]*|==\d+== (?:Conditional jump|Use of uninit|Invalid |Syscall param|Process terminating|Argument )[^\n]*|terminate called[^\n]*(\n[^\n]*what[^\n]*)?)", er)
    frames = [f for f in re.findall(r"(?:#\d+ 0x[0-9a-f]+ in|==\d+== +(?:at|by) 0x[0-9A-F]+:) ([^\n]*)", er) if "StochTree" in f or "/repo/" in f or "src/" in f][:4]
    return "process ended with %s: %s %s" % (rc, (m.group(1) if m else er[-300:]).replace("\n", " "), " < ".join(frames))


def known_findings(pid):
    out = []
    f = VERIF + "/known_findings.txt"
    for line in open(f) if os.path.exists(f) else []:
        m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", line.strip())
        if m and m.group(1) == pid:
            out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    pid, t0 = a.property, time.time()
    spec = registry.CHECKS[pid]
    try:
        need = sorted({j[:3] for j in spec["jobs"]})
        progs = {k: program(*k) for k in need}
    except build.BuildError as e:
        print("BUILD FAILED for", pid, "\n", e)
        return 3
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="stverif-")
    run = Run(tmp)
    timeout = 150 if a.tier == "quick" else 900
    run.grace = 45 if a.tier == "quick" else 600
    work = []
    for j in spec["jobs"]:
        n = max(1, int((j[4] if a.tier == "quick" else j[5]) * a.scale))
        parts = min(n, CORES * (1 if len(spec["jobs"]) == 1 else 1))
        step = -(-n // parts)
        for s in range(0, n, step):
            work.append((j, s, min(step, n - s)))
    work.sort(key=lambda w: -w[2])
    # chunks of one job start together; cheap jobs fill the gaps
    with cf.ThreadPoolExecutor(CORES) as ex:
        futs = [ex.submit(run.chunk, j, progs[j[:3]][0], progs[j[:3]][1], a.seed, s, c, timeout) for j, s, c in work]
        results = [f.result() for f in futs]
    shutil.rmtree(tmp, ignore_errors=True)
    bysuite = collections.Counter()
    for job, res in results:
        for o, ev in res:
            for line in o.splitlines():
                f = line.split("\t")
                if f[0] == "V" and len(f) >= 5:
                    if f[1] in (pid, "*"):
                        run.viol.append((f[2], f[4], job, int(f[3].rsplit(":", 1)[1])))
                    else:
                        run.counters["reports_for_other_properties"] += 1
                elif f[0] == "C" and len(f) == 3:
                    run.counters[f[1]] += float(f[2])
                    if f[1] == "cases":
                        bysuite[job[3]] += int(float(f[2]))
                elif f[0] == "D" and len(f) == 3:
                    run.dsum[f[1]] += int(f[2])
                elif f[0] == "H":
                    run.distinct[f[1]].update(f[2:])
                elif f[0] == "S" and len(run.samples) < 6:
                    run.samples.append("%s: %s" % (job[3], line[2:][:600]))
            if ev:
                kind, msg, case = ev
                (run.errors.append(msg) if kind == "error" else run.viol.append((kind, msg, job, case)))
    names = spec["distinct"] if isinstance(spec["distinct"], (list, tuple)) else [spec["distinct"]]
    distinct = sum(len(run.distinct[n]) or run.dsum[n] for n in names)
    known = known_findings(pid)
    hit, real = {}, []
    for v in run.viol:
        text = "%s %s" % (v[0], v[1])
        for rx, what in known:
            if rx.search(text):
                hit.setdefault(what, v)
                break
        else:
            real.append(v)
    for what in hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level="exploration", wall_s=round(time.time() - t0, 1), violations=len(real),
              assumptions=spec["assumptions"],
              coverage=dict(evaluations=int(run.counters["cases"]), distinct_nontrivial=int(distinct), rule=spec["rule"], samples=run.samples or ["(none printed)"],
                            observed={k: (int(v) if v == int(v) else round(v, 6)) for k, v in sorted(run.counters.items())},
                            distinct={k: (len(run.distinct[k]) or run.dsum[k]) for k in sorted(set(run.dsum) | set(run.distinct))},
                            cases_by_suite=dict(bysuite), builds=["%s:%s:%s" % k for k in need], build_s=round(tb, 1),
                            known_findings_seen=sorted(hit)))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % pid, "w"), indent=1)
    obs = " ".join("%s=%d" % (k, v) for k, v in sorted(run.counters.items()))
    print("%s %s seed=%d: %d cases, %d distinct; %s; build %.1fs total %.1fs" % (pid, a.tier, a.seed, run.counters["cases"], distinct, obs, tb, time.time() - t0))
    if real:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        seen = set()
        for k, (key, msg, job, case) in enumerate(real):
            if key in seen:
                continue
            seen.add(key)
            path = VERIF + "/replays/%s-%s-%d.txt" % (pid, re.sub(r"\W+", "_", key)[:40], k)
            argv, env = progs[job[:3]]
            open(path, "w").write("property %s, monitor %s, seed %d, case %d\n%s: %s\nreplay (from /verif, after a build by check.py):\n%s %s\n" % (
                pid, job[3], a.seed, case, key, msg, " ".join("%s='%s'" % kv for kv in env.items()), " ".join(argv + [job[3], str(a.seed), str(case), "1"])))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s: %s" % (key, msg[:600]))
            if len(seen) >= 8:
                break
        return 1
    if run.errors:
        print("CHECK ERROR for %s: %s" % (pid, run.errors[0]))
        return 2
    if run.counters["cases"] == 0 or distinct == 0:
        print("CHECK ERROR for %s: observed nothing" % pid)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
