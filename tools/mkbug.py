#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from tools/bugs.py and confirm each bug in a scratch copy of /repo:
   mkbug.py [id ...]   (all new ones by default): patch applies, tests pass, demo passes without and fails with it."""
import os, sys, json, subprocess, shutil, tempfile, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HPP = "include/colorsystem.hpp"
DEMO = r'''#!/bin/bash
# run with cwd = repository; exit 0: behaves as specified
set -e
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -O2 -w -include cstring -include cstdint -I include "$D/demo.cpp" -o "$T/demo"
"$T/demo"
'''
HEAD = r'''#include "colorsystem.hpp"
#include <cstdio>
#include <cmath>
#include <cstdlib>
using namespace ColorSystem;
static int bad = 0;
static void near(const char *what, double got, double want, double tol)
{
    if (!(std::fabs(got - want) <= tol)) { printf("%s: got %.9g, expected %.9g\n", what, got, want); bad = 1; }
}
int main()
{
'''


def run(c, **k): return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)


def one(b):
    d = tempfile.mkdtemp(prefix="bug_", dir="/tmp")
    try:
        r = os.path.join(d, "repo")
        run(["git", "clone", "-q", "/repo", r])
        shutil.copytree("/repo/ext", os.path.join(r, "ext"), dirs_exist_ok=True)
        p = os.path.join(r, HPP)
        s = open(p).read()
        for old, new in b["edits"]:
            if s.count(old) != 1:
                return b["id"], f"edit text occurs {s.count(old)} times: {old[:60]!r}"
            s = s.replace(old, new)
        out = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "demo.cpp"), "w").write(HEAD + b["demo"].rstrip() + "\n    return bad;\n}\n")
        dm = os.path.join(out, "demo.sh")
        open(dm, "w").write(DEMO)
        os.chmod(dm, 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        q = run(["bash", dm], cwd=r)
        if q.returncode:
            return b["id"], "demo fails on the unchanged tree: " + q.stdout[-300:] + q.stderr[-500:]
        open(p, "w").write(s)
        open(os.path.join(out, "patch.diff"), "w").write(run(["git", "-C", r, "diff"]).stdout)
        q = run(["bash", dm], cwd=r)
        if q.returncode == 0 or "error:" in q.stderr:
            return b["id"], "demo passes with the bug / does not compile" + q.stderr[-300:]
        t = run(f'cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O2 -g" -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_CXX_FLAGS="-Wno-error -include cstring -DCATCH_CONFIG_NO_POSIX_SIGNALS" && ninja -C _build && python3 /opt/vp/catch_run.py {r}/_build/test/colortest {r}/test {d}/res.txt', cwd=r)
        if not os.path.exists(f"{d}/res.txt"):
            return b["id"], "build failed " + t.stdout[-500:] + t.stderr[-500:]
        ok = {l[5:].strip() for l in open(f"{d}/res.txt") if l.startswith("PASS")}
        miss = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in ok]
        if miss:
            return b["id"], "tests fail: " + ", ".join(miss)
        return b["id"], "ok"
    finally:
        shutil.rmtree(d)


ids = sys.argv[1:] or [b["id"] for b in BUGS if not os.path.exists(os.path.join(HERE, "seeded", b["id"], "patch.diff"))]
with cf.ThreadPoolExecutor(6) as ex:
    for i, m in ex.map(one, [b for b in BUGS if b["id"] in ids]):
        print(i, m, flush=True)
        if m != "ok":
            shutil.rmtree(os.path.join(HERE, "seeded", i), ignore_errors=True)
