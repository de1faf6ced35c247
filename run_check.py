#!/usr/bin/env python3
"""run_check.py <property> <quick|thorough> [--only N]   (see DESIGN.md)

Builds the harness of the property together with the library from /repo's working tree, explores the
bounded space in parallel shards, replays every reported failure before believing it, and writes
evidence/<property>.json.  Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import fcntl, json, os, struct, subprocess, sys, time, signal, shutil, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import meta

REPO = os.environ.get("VK_REPO", "/repo")
NCPU = os.cpu_count() or 4


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build(variant, targets):
    bdir = os.path.join(HERE, "build", variant)
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(HERE, "build", variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        log = os.path.join(bdir, "build.log")
        with open(log, "w") as f:
            cfg = ["cmake", "-G", "Ninja", "-S", HERE, "-B", bdir, "-DREPO=" + REPO,
                   "-DVK_SAN=" + ("ON" if variant == "san" else "OFF"), "-DVK_PY=" + ("ON" if variant == "py" else "OFF")]
            if variant == "py":
                cfg.append("-DPYTHON_EXECUTABLE=" + sys.executable)
            for cmd in (cfg, ["cmake", "--build", bdir, "-j", str(NCPU), "--target"] + targets):
                try:
                    r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=700)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = -1
                if rc != 0:
                    f.flush()
                    sys.stdout.write(open(log).read()[-4000:])
                    die("build failed: " + " ".join(cmd))
    return bdir


def known_findings(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("finding: property=%s " % pid):
                key, _, what = line[len("finding: property=%s " % pid):].partition(" :: ")
                out[key] = what
    return out


class Shards:
    def __init__(self, pid, tier, argv, env, tmp, known):
        self.pid, self.tier, self.argv, self.env, self.tmp, self.known = pid, tier, argv, env, tmp, known
        self.n = 0

    def start(self, extra):
        self.n += 1
        base = os.path.join(self.tmp, "r%d" % self.n)
        cmd = list(self.argv) + ["--out", base + ".json", "--progress", base + ".prog"] + extra
        if self.tier == "thorough":
            cmd.append("--thorough")
        for k in self.known:
            cmd += ["--known", k]
        err = open(base + ".err", "wb")
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=self.env, cwd=self.tmp)
        err.close()
        p.base = base
        p.hung, p.late, p.last, p.since, p.spent = False, False, None, time.time(), 0.
        return p

    @staticmethod
    def cpu(p):
        """processor seconds used so far (a busy machine must not look like a hang)"""
        try:
            f = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            return 0.

    @staticmethod
    def watch(p, seconds):
        """ends a process that has been in one case for longer than `seconds`"""
        try:
            now = struct.unpack("QQ", open(p.base + ".prog", "rb").read(16))
        except (OSError, struct.error):
            now = None
        cpu = Shards.cpu(p)
        if now is None or not now[1] or now != p.last:
            p.last, p.since, p.spent = now, time.time(), cpu
        elif cpu - p.spent > seconds * now[1] or time.time() - p.since > 8 * seconds * now[1]:
            p.hung = True
            p.kill()

    def finish(self, p, seconds, timeout):
        t = time.time()
        while p.poll() is None:
            self.watch(p, seconds)
            if time.time() - t > timeout:
                p.late = True
                p.kill()
            time.sleep(0.02)
        p.wait()

    @staticmethod
    def result(p):
        try:
            return json.load(open(p.base + ".json"))
        except (OSError, ValueError):
            return None

    @staticmethod
    def progress(p):
        try:
            return struct.unpack("QQ", open(p.base + ".prog", "rb").read(16))[0]
        except (OSError, struct.error):
            return None

    @staticmethod
    def err(p):
        try:
            t = open(p.base + ".err", "rb").read()
            return t[:3000].decode("utf8", "replace")
        except OSError:
            return ""


def hashes(base, ext):
    try:
        d = open(base + ".json" + ext, "rb").read()
    except OSError:
        return set()
    return set(struct.unpack("%dQ" % (len(d) // 8), d))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    m = meta.CHECKS[pid]
    t0 = time.time()
    env = dict(os.environ)
    env.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1")
    variant = m.get("variant", "rel")
    if variant == "py":
        bdir = build("py", ["mrob"])
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONPATH"] = os.path.join(bdir, "mod")
        argv = [sys.executable, os.path.join(HERE, "harness", m["harness"])]
    else:
        bdir = build(variant, [pid])
        argv = [os.path.join(bdir, "bin", pid)]
    if "--only" in sys.argv:
        n = sys.argv[sys.argv.index("--only") + 1]
        sys.exit(subprocess.call(argv + ["--only", n] + (["--thorough"] if tier == "thorough" else []), env=env))
    if "--cmd" in sys.argv:
        print(" ".join(argv)); return
    tbuild = time.time() - t0
    limit = t0 + (840 if tier == "thorough" else 780)
    tmp = tempfile.mkdtemp(prefix="vk_%s_" % pid)
    try:
        rc = explore(pid, tier, m, argv, env, tmp, t0, tbuild, limit)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def explore(pid, tier, m, argv, env, tmp, t0, tbuild, limit):
    known = known_findings(pid)
    sh = Shards(pid, tier, argv, env, tmp, known)
    N = m.get("shards", NCPU)
    todo = [(i, []) for i in range(N)]
    running, done, failed = {}, {}, {}
    while todo or running:
        while todo and len(running) < NCPU:
            i, extra = todo.pop(0)
            running[i] = sh.start(["--shard", "%d/%d" % (i, N)] + extra)
        time.sleep(0.05)
        for i, p in list(running.items()):
            sh.watch(p, 20)
            if p.poll() is not None:
                del running[i]
                r = sh.result(p)
                if r is None or p.returncode not in (0, 1):
                    failed[i] = p
                else:
                    done[i] = (p, r)
        if time.time() > limit:
            for p in running.values():
                p.kill()
            die("time limit reached before the bounded space was explored")
    viols = []
    # every failure is replayed before it is reported: alone first, then (for failures that need the
    # preceding cases of the process, e.g. a stale static) as the prefix of its shard
    cand = []
    for i, (p, r) in sorted(done.items()):
        for v in r["violations"]:
            cand.append((v["idx"], i, v["key"], v["msg"]))
    for i, p in sorted(failed.items()):
        idx = sh.progress(p)
        why = "hang" if p.hung else "crash (status %s)" % p.returncode
        cand.append((idx if idx is not None else 0, i, None, why + "\n" + sh.err(p)))
    unconfirmed = []
    perkey = 0
    for idx, i, key, msg in sorted(cand, key=lambda c: c[0]):
        if perkey >= 3:
            break
        ok = None
        for extra in (["--only", str(idx)], ["--shard", "%d/%d" % (i, N), "--upto", str(idx), "--maxviol", "1000000"]):
            q = sh.start(extra)
            sh.finish(q, 60, max(60, min(200, limit + 60 - time.time())))
            if q.late and not q.hung:
                continue  # out of time, which says nothing
            r = sh.result(q) if q.returncode in (0, 1) else None
            if r is None:
                ok = (extra, (key or "?"), ("hang" if q.hung else "crash (status %s)" % q.returncode) + "\n" + sh.err(q))
            elif any(v["idx"] == idx for v in r["violations"]):
                v = [v for v in r["violations"] if v["idx"] == idx][0]
                ok = (extra, v["key"], v["msg"])
            if ok:
                break
        if ok:
            perkey += 1
            viols.append((idx, ok))
        else:
            unconfirmed.append((idx, key, msg))
    if unconfirmed and not viols:
        # neither believed nor ignored: explore the shards that misbehaved once more
        for idx, key, msg in unconfirmed[:3]:
            print("note: not reproduced on replay: case %s %s: %s" % (idx, key, msg[:500]))
        for i in sorted(set(c[1] for c in cand)):
            p = sh.start(["--shard", "%d/%d" % (i, N)])
            sh.finish(p, 60, max(60, limit + 60 - time.time()))
            r = sh.result(p)
            if r is None or p.returncode != 0 or r["violations"]:
                die("shard %d fails irreproducibly" % i)
            done[i] = (p, r)
    known_hit = set()
    agg = dict(cases=0, execs=0, evals=0, transitions=0, traces=0)
    states, outcomes, samples, worst = set(), set(), [], {}
    total = 0
    for i, (p, r) in sorted(done.items()):
        for k in agg:
            agg[k] += r[k]
        total = max(total, r["total"])
        known_hit.update(r["known"])
        samples += r["samples"]
        states |= hashes(p.base, ".st")
        outcomes |= hashes(p.base, ".oc")
        for k, (q, w) in r["worst"].items():
            if k not in worst or q > worst[k][0]:
                worst[k] = (q, w)
    for k in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[k], k))
    edir = os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    exhaustive = not viols and agg["cases"] == total
    if not viols and not exhaustive:
        die("only %d of %d cases were explored" % (agg["cases"], total))
    if not viols and (agg["cases"] == 0 or agg["evals"] == 0):
        die("nothing was explored")
    cov = {"exhaustive": exhaustive, "samples": samples[:6] or ["(none)"]}
    if m["level"] == "model_checking":
        cov.update(states=len(states), transitions=agg["transitions"], traces_validated_against_impl=agg["traces"],
                   comparisons_with_reference=agg["evals"], distinct_outcomes=len(outcomes), cases=agg["cases"])
    else:
        cov.update(evaluations=max(agg["execs"], agg["cases"]), cases=agg["cases"], distinct_nontrivial=len(outcomes), rule=m["rule"], comparisons_with_reference=agg["evals"])
    cov["bounds"] = m["bounds"] + "; this tier: " + m["t" if tier == "thorough" else "q"]
    cov["largest_error_over_tolerance"] = {k: "%.3g (%s)" % v for k, v in sorted(worst.items())}
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": m["level"], "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": len(viols), "assumptions": m.get("assumptions", []) + meta.COMMON}
    tmpf = os.path.join(edir, ".%s.tmp" % pid)
    json.dump(ev, open(tmpf, "w"), indent=1)
    os.replace(tmpf, os.path.join(edir, pid + ".json"))
    if viols:
        rdir = os.path.join(edir, "replay")
        os.makedirs(rdir, exist_ok=True)
        for idx, (extra, key, msg) in viols:
            path = os.path.join(rdir, "%s-%s-%s.json" % (pid, tier, idx))
            json.dump({"property": pid, "tier": tier, "case": idx, "what": key, "failure": msg,
                       "replay": "%s %s%s" % (" ".join(argv), " ".join(extra), " --thorough" if tier == "thorough" else ""),
                       "note": "python3 run_check.py %s %s --only %s rebuilds and replays the case alone" % (pid, tier, idx)}, open(path, "w"), indent=1)
            print("case %s: %s\n  %s" % (idx, key, msg[:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("OK %s %s: %d cases, %d comparisons, %d states, %d outcomes, %d transitions, %.1f s (build %.1f s)"
          % (pid, tier, agg["cases"], agg["evals"], len(states), len(outcomes), agg["transitions"], time.time() - t0, tbuild))
    if os.environ.get("VK_VERBOSE"):
        for k, v in sorted(worst.items()):
            print("   %-40s %.3g  %s" % (k, v[0], v[1]))
    return 0


if __name__ == "__main__":
    main()
