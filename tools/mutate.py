#!/usr/bin/env python3
"""Mutation analysis of the checks: mutate.py FILE P01,P02 [--n 40] [--jobs 4] [--seed 1] [--lines a-b] [--out LOG]

Applies one small syntactic change at a time to FILE (relative to the repository) in scratch copies of the repository
and of /verif, runs the given checks there until one reports a violation and lists the changes that none reports."""
import argparse, os, random, re, shutil, subprocess, sys, threading, queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = [(r"(?<![<>=!\-])<=(?!>)", "<"), (r"(?<![<>=!\-])>=", ">"), (r"(?<=\s)<(?=\s)", "<="), (r"(?<=\s)>(?=\s)", ">="),
       (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\+\+", "--"), (r"(?<!\w)--", "++"),
       (r"(?<=\s)\+(?=\s)", "-"), (r"(?<=\s)-(?=\s)", "+"), (r"(?<=\s)\*(?=\s)", "+"), (r"(?<=\s)/(?=\s)", "*"),
       (r"(?<=\s)%(?=\s)", "/"), (r"\+=", "-="), (r"-=", "+="), (r"(?<=\s)\|(?=\s)", "&"), (r"(?<=\s)&(?=\s)", "|"),
       (r"<<(?=\s?\d)", ">>"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bstd::min\b", "std::max"),
       (r"\bstd::max\b", "std::min"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"!(?=[a-z(])", ""),
       (r"\buint64_t\b", "uint32_t"), (r"\bint64_t\b", "int32_t"), (r"\buint32_t\b", "uint16_t"), (r"\bint32_t\b", "int16_t"),
       (r"\bdouble\b", "float"), (r"\bstd::floor\b", "std::ceil"), (r"\bstd::ceil\b", "std::floor"), (r"\bstd::round\b", "std::trunc"),
       (r"(?<![\w.])0(?![\w.x])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])2(?![\w.])", "3"),
       (r"(?<![\w.])([3-9]|\d\d+)(?![\w.])", lambda m: str(int(m[1]) + 1)),
       (r"\bbegin\(\)", "end()"), (r"\.x\b", ".y"), (r"\.y\b", ".x"), (r"\.z\b", ".y"), (r"\bemplace_back\b", "size(), (void)"),
       (r"\bconst auto&", "auto")]


def sites(text, lo, hi):
    out = []
    comment = False
    for i, line in enumerate(text.split("\n")):
        s = line.strip()
        if s.startswith("/*"):
            comment = True
        if comment:
            if "*/" in s:
                comment = False
            continue
        if not s or s.startswith(("//", "#", "*", "static_assert", "assert(", "template", "namespace", "using")):
            continue
        if not lo <= i + 1 <= hi:
            continue
        code = line.split("//")[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                r = rep(m) if callable(rep) else rep
                out.append((i, m.start(), m.end(), r))
        if s.endswith(";") and not s.startswith(("return", "const ", "auto ", "}", "break", "continue")) and "(" in s + "=" and not re.match(r"^[\w:<>, ]+ \w+(\{.*\}|\(.*\))?;$", s):
            out.append((i, len(line) - len(line.lstrip()), len(line.rstrip()), ";"))
        if s.startswith("if (") or s.startswith("else if ("):
            k = line.index("if (") + 3
            out.append((i, k + 1, k + 1, "false && "))
            out.append((i, k + 1, k + 1, "true || "))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("props")
    ap.add_argument("--n", type=int, default=40)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--lines", default="1-1000000")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--out", default="")
    a = ap.parse_args()
    lo, hi = map(int, a.lines.split("-"))
    text = open(os.path.join(a.repo, a.file)).read()
    ss = sites(text, lo, hi)
    random.Random(a.seed).shuffle(ss)
    ss = ss[:a.n]
    q = queue.Queue()
    for s in ss:
        q.put(s)
    base = "/tmp/mut.%d" % os.getpid()
    counts = dict(killed=0, survived=0, invalid=0)
    lock = threading.Lock()
    log = open(a.out, "a") if a.out else sys.stdout
    lines = text.split("\n")

    def work(w):
        d = f"{base}/{w}"
        os.makedirs(d)
        r, v = d + "/repo", d + "/verif"
        os.makedirs(r)
        for x in ("include", "vendors"):
            shutil.copytree(os.path.join(a.repo, x), os.path.join(r, x), symlinks=True)
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns("seeded", ".git", "replays", "evidence"))
        os.makedirs(v + "/evidence")
        while True:
            try:
                i, b, e, rep = q.get_nowait()
            except queue.Empty:
                return
            l2 = list(lines)
            l2[i] = lines[i][:b] + rep + lines[i][e:]
            open(os.path.join(r, a.file), "w").write("\n".join(l2))
            res = "survived"
            for p in a.props.split(","):
                try:
                    pr = subprocess.run([sys.executable, "run.py", p], cwd=v, env=dict(os.environ, VERIF_REPO=r), timeout=1200,
                                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    o, rc = pr.stdout.decode(errors="replace"), pr.returncode
                except subprocess.TimeoutExpired:
                    o, rc = "", 99
                if rc == 1:
                    res = "killed"
                    if "does not build" in o or "not build" in o:
                        res = "invalid"
                    break
                if rc != 0:
                    res = "invalid" if rc != 99 else "killed"
                    break
            with lock:
                counts[res] += 1
                if res != "killed":
                    print(f"{res.upper()} {a.file}:{i + 1}\n  - {lines[i].strip()}\n  + {l2[i].strip()}", file=log, flush=True)

    ts = [threading.Thread(target=work, args=(w,)) for w in range(a.jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(base, ignore_errors=True)
    print(f"SUMMARY {a.file} {a.props}: {counts} of {len(ss)} (sites {len(sites(text, lo, hi))})", file=log, flush=True)


main()
