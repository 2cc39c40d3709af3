#!/usr/bin/env python3
"""Runs the check of one property:  run.py <property-id> [--tier quick|thorough] [--seed N]
   replays a recorded failure:      run.py <property-id> --replay FILE
   builds only:                     run.py <property-id> --build-only

Builds the property's harness from /repo's current working tree, drives it over 8 worker processes, minimises any
failure, replays it three times and reports.  Exit 0: held on everything explored; 1: violation; 2: no answer."""
import array, json, os, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, REPO  # noqa: E402

NW = 8
BROKEN = []  # translation units that do not build against this tree
ENV = dict(os.environ,
           ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:hard_rss_limit_mb=2500:allocation_size_may_return_null=1:"
                        "detect_stack_use_after_return=0:quarantine_size_mb=32:print_summary=1",
           UBSAN_OPTIONS="abort_on_error=1:print_stacktrace=0",
           TSAN_OPTIONS="abort_on_error=0:exitcode=66:halt_on_error=1:history_size=4",
           CCACHE_DISABLE="1", LC_ALL="C")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def limits(asan):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not asan:
            g = 4 << 30
            resource.setrlimit(resource.RLIMIT_AS, (g, g))
    return f


def build(pid, cfg, bdir, fuzz=False):
    """compiles every translation unit in parallel and links; returns the binary or None"""
    cxx = "clang++" if fuzz else cfg.get("cxx", "g++")
    san = cfg.get("san", "address,undefined")
    flags = ["-std=c++20", "-g1", cfg.get("opt", "-O1"), "-w", "-pthread", "-DVERIF_HARNESS",
             "-I" + os.path.join(HERE, "harness")]
    if not fuzz and cfg.get("glibcxx_assert", True):
        flags.append("-D_GLIBCXX_ASSERTIONS")
    if fuzz:
        flags += ["-DPBT_FUZZ", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all"]
    elif san:
        flags += ["-fsanitize=" + san, "-fno-sanitize-recover=all"]
    if cfg.get("shim"):
        flags += ["-I" + os.path.join(HERE, "shim"), "-include", os.path.join(HERE, "shim/prelude.hpp")]
    flags += cfg.get("flags", [])
    flags += ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "vendors/combinations"),
              "-I" + os.path.join(REPO, "vendors/undirected_graph/source"),
              "-I" + os.path.join(REPO, "vendors/graph-coloring/Header"), "-I" + os.path.join(REPO, "vendors")]
    srcs = [os.path.join(HERE, "harness", s) for s in cfg["src"]] + [os.path.join(HERE, "harness/pbt_main.cpp")]
    srcs += [os.path.join(REPO, s) for s in cfg.get("repo_src", [])]
    objs, jobs = [], []
    tag = "fz" if fuzz else "o"
    for i, s in enumerate(srcs):
        o = os.path.join(bdir, "%02d_%s.%s.o" % (i, os.path.basename(s), tag))
        objs.append(o)
        jobs.append([cxx] + flags + ["-c", s, "-o", o])

    def one(cmd):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
    with ThreadPoolExecutor(NW) as ex:
        rs = list(ex.map(one, jobs))
    good = []
    for r, j, o in zip(rs, jobs, objs):
        if r.returncode != 0:
            log("BUILD FAILED: " + " ".join(j))
            log(r.stdout[-6000:])
            if fuzz or o == objs[len(cfg["src"])]:
                return None
            BROKEN.append(os.path.basename(j[j.index("-c") + 1]))
        else:
            good.append(o)
    if len(good) < 2:
        return None
    objs = good
    out = os.path.join(bdir, "harness_fz" if fuzz else "harness")
    r = one([cxx] + flags + objs + ["-o", out] + cfg.get("libs", []))
    if r.returncode != 0:
        log("LINK FAILED\n" + r.stdout[-6000:])
        return None
    return out


def known_findings():
    known = {}
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p, encoding="utf-8") if os.path.exists(p) else []:
        line = line.strip()
        if line and not line.startswith("#") and not line.startswith("fixed:"):
            ident, rest = line.split(None, 1)
            known[ident] = rest
    return known


def run(cmd, timeout, cfg):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV,
                         preexec_fn=limits("address" in cfg.get("san", "address") or cfg.get("san") == "thread"))
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    replay = None
    build_only = False
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 2
        elif args[i] == "--seed":
            seed = args[i + 1]; i += 2
        elif args[i] == "--replay":
            replay = args[i + 1]; i += 2
        elif args[i] == "--build-only":
            build_only = True; i += 1
        else:
            i += 1
    try:
        seed = str(int(seed) & ((1 << 64) - 1))
    except ValueError:
        seed = "1"
    cfg = CHECKS[pid]
    t0 = time.time()
    bdir = os.path.join(HERE, "build", pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    binary = build(pid, cfg, bdir)
    if binary is None:
        print("ERROR property=%s the harness does not build against this tree" % pid)
        return 2
    tb = time.time() - t0
    log("[%s] built in %.1f s" % (pid, tb))
    if build_only:
        return 0
    if replay:
        rc, out = run([binary, "replay", replay], 300, cfg)
        print(out)
        return 1 if rc == 1 else (0 if rc == 0 else 2)

    secs = cfg.get("secs", {}).get(tier, 45 if tier == "quick" else 480)
    # -------- random search over NW processes
    procs = []
    for w in range(NW):
        out = os.path.join(bdir, "w%d" % w)
        lf = open(out + ".log", "w")
        procs.append((w, out, subprocess.Popen(
            [binary, "worker", seed, tier, str(w), str(NW), str(secs), out], stdout=lf, stderr=lf, env=ENV,
            preexec_fn=limits("address" in cfg.get("san", "address") or cfg.get("san") == "thread"))))
    hard = time.time() + secs + 120
    subs, failures, errors = {}, {}, []
    order = None
    for w, out, p in procs:
        try:
            rc = p.wait(max(1, hard - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = None
        done = False
        for line in open(out, errors="replace") if os.path.exists(out) else []:
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if j.get("done"):
                done = True
                continue
            s = subs.setdefault(j["sub"], {"cases": 0, "discards": 0, "evals": 0, "nontrivial": 0, "labels": {},
                                           "samples": [], "rule": j["rule"], "truncated": False})
            for k in ("cases", "discards", "evals", "nontrivial"):
                s[k] += j[k]
            s["truncated"] |= j["truncated"]
            for k, v in j["labels"].items():
                s["labels"][k] = s["labels"].get(k, 0) + v
            s["samples"] += j["samples"]
            if j["failed"]:
                f = (j["fail_index"], j["msg"])
                if j["sub"] not in failures or f < failures[j["sub"]]:
                    failures[j["sub"]] = f
        if not done:
            if order is None:
                r = subprocess.run([binary, "list"], stdout=subprocess.PIPE, text=True, env=ENV)
                order = [json.loads(x)["sub"] for x in r.stdout.splitlines() if x.startswith("{")]
            try:
                a = array.array("Q")
                a.frombytes(open(out + ".state", "rb").read(32))
                if a[2] and a[0] < len(order):
                    f = (a[1], "worker ended with %s during this case" % rc)
                    n = order[a[0]]
                    if n not in failures or f < failures[n]:
                        failures[n] = f
                else:
                    errors.append("worker %d ended with %s between cases" % (w, rc))
            except (OSError, IndexError, ValueError) as e:
                errors.append("worker %d ended with %s (%s)" % (w, rc, e))
            log(open(out + ".log", errors="replace").read()[-1500:])
    keys = set()
    for w in range(NW):
        kp = os.path.join(bdir, "w%d.keys" % w)
        if os.path.exists(kp):
            a = array.array("Q")
            data = open(kp, "rb").read()
            a.frombytes(data[:len(data) // 8 * 8])
            keys.update(a)

    violations, inconclusive = [], []
    if cfg.get("schedules"):
        ENV["VERIF_SCHEDULES"] = "1"
    known = known_findings()

    def confirm(rp, sub, msg):
        """replays in fresh processes until the same input has failed three times (code that draws random numbers of its
        own does not fail every time); a check of schedules replays until the same failure shows again"""
        hits, want, t1 = 0, cfg.get("min_hits", 3), time.time()
        for n in range(cfg.get("replays", 100)):
            rc, _o = run([binary, "replay", rp], 300, cfg)
            hits += rc == 1
            if hits >= want or (n > 2 and time.time() - t1 > 150):
                break
        (violations if hits >= want else inconclusive).append((sub, rp, msg, hits))

    # at most three failures are minimised: one is enough to decide
    for sub, (idx, msg) in sorted(failures.items())[:3]:
        rp = os.path.join(rdir, "%s-%s-%s-%s.replay" % (pid, sub.replace("/", "_"), seed, idx))
        if os.path.exists(rp):
            os.unlink(rp)
        rc, out = run([binary, "shrink", sub, seed, str(idx), tier, rp], 250, cfg)
        if rc is None or not os.path.exists(rp):
            inconclusive.append((sub, rp, "could not be reproduced: " + msg, 0))
            continue
        try:
            m = json.loads([x for x in out.splitlines() if x.startswith("{")][-1]).get("msg", msg)
        except (ValueError, IndexError):
            m = msg
        confirm(rp, sub, m)
        if violations and time.time() - t0 > 400:
            break

    # -------- known findings: each is one concrete reproduction
    kf_lines = []
    rc, out = run([binary, "known", bdir], 300, cfg)
    for line in out.splitlines():
        if not line.startswith('{"sub"'):
            continue
        j = json.loads(line)
        if j["failed"]:
            if j["known"] in known:
                kf_lines.append("KNOWN-FINDING: property=%s %s: %s" % (pid, j["known"], known[j["known"]]))
            else:
                rp = os.path.join(rdir, "%s-%s.replay" % (pid, j["known"]))
                shutil.copy(os.path.join(bdir, j["known"] + ".replay"), rp)
                confirm(rp, j["sub"], j["msg"])

    # -------- coverage-guided campaign (thorough tier)
    fuzz_info = None
    fz = cfg.get("fuzz_secs", 0)
    if tier == "thorough" and fz and not violations:
        fuzz_info = fuzz(pid, cfg, bdir, binary, fz, seed, rdir, confirm)

    evals = sum(s["evals"] for s in subs.values())
    samples = []
    for n, s in subs.items():
        for x in s["samples"][:2]:
            samples.append("%s: %s" % (n, x))
    rule = "; ".join("%s: %s" % (n, s["rule"]) for n, s in subs.items())
    ev = {
        "property": pid, "tier": tier, "seed": int(seed), "level": cfg["level"],
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(keys),
            "rule": "a case counts when it is non-trivial, by sub-check -- " + rule +
                    " -- and distinct by the hash of its generated input",
            "samples": samples[:40],
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
        "assumptions": cfg.get("assumptions", []),
    }
    ev["coverage"].update({
        "sub_checks": {n: {"cases": s["cases"], "discarded": s["discards"], "evaluations": s["evals"],
                           "nontrivial": s["nontrivial"], "classes": s["labels"],
                           "cut_short_by_time": s["truncated"]} for n, s in subs.items()},
        "build_s": round(tb, 2), "workers": NW})
    if fuzz_info:
        ev["coverage"]["coverage_guided"] = fuzz_info
    if kf_lines:
        ev["coverage"]["known_findings"] = kf_lines
    if violations:
        ev["coverage"]["violation_details"] = [{"replay": rp, "sub_check": s, "what": m[:600]}
                                               for s, rp, m, h in violations]
    if inconclusive:
        ev["coverage"]["inconclusive"] = ["%s: %s (%d replays)" % (s, m[:300], h) for s, rp, m, h in inconclusive]
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for line in kf_lines:
        print(line)
    for n, s in sorted(subs.items()):
        log("  %-40s cases %-9d nontrivial %-9d discarded %-7d%s" % (
            n, s["cases"], s["nontrivial"], s["discards"], " (cut short)" if s["truncated"] else ""))
    for s, rp, m, h in inconclusive:
        log("INCONCLUSIVE %s: %s (%d replays) %s" % (s, m[:2000], h, rp))
    for s, rp, m, h in violations:
        log("  %s: %s" % (s, m[:2500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if violations:
        return 1
    if BROKEN:
        errors.append("does not build against this tree: " + ", ".join(BROKEN))
    if errors:
        print("ERROR property=%s %s" % (pid, "; ".join(errors)))
        return 2
    empty = [n for n, s in subs.items() if s["nontrivial"] == 0]
    if not subs or empty:
        print("ERROR property=%s vacuous sub-checks: %s" % (pid, empty))
        return 2
    log("[%s] held: %d evaluations, %d distinct non-trivial, %.1f s" % (pid, evals, len(keys), time.time() - t0))
    return 0


def fuzz(pid, cfg, bdir, binary, secs, seed, rdir, confirm):
    fb = build(pid, cfg, bdir, fuzz=True)
    if fb is None:
        return {"skipped": "the coverage-guided build failed"}
    procs = []
    for w in range(NW):
        d = os.path.join(bdir, "fuzz%d" % w)
        os.makedirs(os.path.join(d, "corpus"))
        lf = open(os.path.join(d, "log"), "w")
        s = (int(seed) * 8 + w) % 4294967290 + 1
        procs.append((d, subprocess.Popen(
            [fb, "-seed=%d" % s, "-max_total_time=%d" % secs, "-timeout=60", "-rss_limit_mb=3000", "-max_len=512",
             "-artifact_prefix=%s/" % d, "-print_final_stats=1", os.path.join(d, "corpus")],
            stdout=lf, stderr=lf, env=ENV, preexec_fn=limits(True))))
    execs, cov, hits = 0, 0, 0
    for d, p in procs:
        try:
            p.wait(secs + 120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        t = open(os.path.join(d, "log"), errors="replace").read()
        for line in t.splitlines():
            if "number_of_executed_units" in line:
                execs += int(line.split()[-1])
            if " cov: " in line:
                cov = max(cov, int(line.split(" cov: ")[1].split()[0]))
        arts = [a for a in os.listdir(d) if a.startswith(("crash-", "timeout-", "oom-"))]
        for a in arts[:1]:
            rp = os.path.join(rdir, "%s-fuzz-%s.replay" % (pid, a[:24]))
            rc, out = run([binary, "bytes", os.path.join(d, a), rp], 250, cfg)
            if os.path.exists(rp) and hits < 2:
                hits += 1
                confirm(rp, "fuzz", out[-1500:])
    return {"engine": "libFuzzer", "executions": execs, "edges_covered": cov, "seconds": secs, "processes": NW}


if __name__ == "__main__":
    sys.exit(main())
