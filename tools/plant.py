#!/usr/bin/env python3
"""Plants the bugs described in a spec module and verifies them in a scratch copy of the repository.

   plant.py SPEC.py [id ...] [--no-check] [--tier quick]

A spec module holds BUGS: list of dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=C++ source,
flags=[...], srcs=[repo sources]).  For each: writes /verif/seeded/<id>/, builds and tests the patched scratch copy,
runs the demonstration on both trees and the property's check on the patched one."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/plant_repo"
CM = "/tmp/plant_cmake"
REPO = "/repo"


def sh(cmd, cwd=None, env=None, timeout=1200):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace")


def scratch():
    if not os.path.isdir(SC):
        sh(["cp", "-a", REPO, SC])
        sh(["rm", "-rf", SC + "/_build"])
        shutil.copytree("/opt/vp/cmake", CM, dirs_exist_ok=True)
        f = CM + "/CMakeLists.txt"
        s = open(f).read().replace("FICTION_ROOT /repo", "FICTION_ROOT " + SC)
        open(f, "w").write(s)
        rc, o = sh(["cmake", "-S", CM, "-B", SC + "/_build", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug"])
        assert rc == 0, o
    head = subprocess.check_output(["git", "-C", REPO, "rev-parse", "HEAD"]).decode().strip()
    sh(["git", "-C", SC, "fetch", "-q", REPO, head])
    sh(["git", "-C", SC, "checkout", "-q", "-f", head])
    sh(["git", "-C", SC, "checkout", "-q", "--", "."])


DEMO = """#!/bin/bash
# run in the repository after a build: exit 0 if the property holds, nonzero if it is broken
here=$(cd "$(dirname "$0")" && pwd)
bin=$(mktemp /tmp/demo.XXXXXX) || exit 3
trap 'rm -f "$bin"' EXIT
g++ -std=c++20 -O1 -w -pthread %s -I include -I vendors/combinations -I vendors/undirected_graph/source \\
    -I vendors/graph-coloring/Header "$here/demo.cpp" %s -o "$bin" -lfmt -ltbb || exit 4
timeout 120 "$bin"
"""


def tests():
    rc, o = sh(["ninja", "-C", SC + "/_build"])
    if rc:
        return False, "build: " + o[-2500:]
    rc, o = sh(["ctest", "--test-dir", SC + "/_build", "-j8", "--timeout", "300"])
    return rc == 0, o[-1500:]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    spec = importlib.util.spec_from_file_location("spec", args[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = set(args[1:])
    scratch()
    res = {}
    for b in m.BUGS:
        if want and b["id"] not in want:
            continue
        d = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(SC, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT matches", s.count(old), "times:", old[:60])
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            sh(["git", "-C", SC, "checkout", "-q", "--", "."])
            res[b["id"]] = "bad edit"
            continue
        diff = subprocess.check_output(["git", "-C", SC, "diff"])
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/demo.cpp", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO % (" ".join(b.get("flags", [])), " ".join(b.get("srcs", []))))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"),
                  indent=1)
        st = []
        okt, o = tests()
        st.append("tests " + ("pass" if okt else "FAIL"))
        if not okt:
            print(o)
        rc, o1 = sh([d + "/demo.sh"], cwd=SC, timeout=300)
        st.append("demo patched rc=%d" % rc)
        good = rc != 0
        if rc in (3, 4):
            print(o1[-1500:])
            good = False
        if "--no-check" not in sys.argv:
            env = dict(os.environ, VERIF_REPO=SC, VERIF_SEED="1", VERIF_TIER="quick")
            c, o = sh([sys.executable, os.path.join(HERE, "run.py"), b["prop"]], env=env, cwd=HERE)
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            st.append("check rc=%d %s" % (c, v[:1]))
            if c != 1:
                st.append("*** MISSED")
        sh(["git", "-C", SC, "checkout", "-q", "--", "."])
        rc, o2 = sh([d + "/demo.sh"], cwd=SC, timeout=300)
        st.append("demo clean rc=%d" % rc)
        if rc:
            print(o2[-1500:])
        rca, oa = sh(["git", "-C", REPO, "apply", "--check", d + "/patch.diff"])
        if rca:
            st.append("DOES NOT APPLY " + oa)
        good = good and okt and rc == 0 and not rca
        st.append("COUNTS" if good else "*** DOES NOT COUNT")
        print(b["id"], b["prop"], "; ".join(st), flush=True)


main()
