"""Development helper: turn a list of planted bugs into /verif/seeded/<id>/ after confirming each in a scratch copy of /repo.
usage: seed.py SPECS.py [id ...]   (SPECS.py defines SEEDS: dicts with id, property, file, edits=[(old,new)], needs, breaks, demo)"""
import json, os, runpy, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = "/tmp/sr"
DEMO = """#!/bin/bash
# Run in a built /repo: exits 0 when the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -O0 -I. "$D/demo.cpp" -o "$T/demo" _build/bin/libfuzzylite-static.a || exit 3
cd "$T" && timeout 120 ./demo
"""
PRE = """#include <cstdio>
#include <cmath>
#include <string>
#include <vector>
#include "fuzzylite/Headers.h"
using namespace fuzzylite;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s\\n", #c); bad = 1; } } while (0)
static bool near(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) < 1e-4; }
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def build():
    r = sh("ninja -C _build 2>&1 | tail -30", cwd=SR)
    return "FAILED" not in r.stdout and "error" not in r.stdout, r.stdout


def tests():
    r = sh("ctest --test-dir _build -j8 --timeout 300 2>&1 | tail -12", cwd=SR)
    return "100% tests passed" in r.stdout, r.stdout


def demo(d):
    return sh("bash %s/demo.sh" % d, cwd=SR)


def main():
    specs = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    sh("git checkout -- .", cwd=SR)
    head = sh("git rev-parse HEAD", cwd="/repo").stdout.strip()
    sh("git fetch -q /repo && git reset -q --hard FETCH_HEAD", cwd=SR)
    assert sh("git rev-parse HEAD", cwd=SR).stdout.strip() == head
    ok, out = build()
    assert ok, out
    todo = []
    for s in specs:
        if only and s["id"] not in only:
            continue
        d = tempfile.mkdtemp(prefix="seed-")
        open(d + "/demo.cpp", "w").write(PRE + s["demo"])
        open(d + "/demo.sh", "w").write(DEMO)
        r = demo(d)
        if r.returncode:
            print(s["id"], "DEMO FAILS ON BASE", r.stdout[-1500:], r.stderr[-1500:])
            continue
        todo.append((s, d))
    for s, d in todo:
        edits = s["edits"] if isinstance(s["edits"], dict) else {s["file"]: s["edits"]}
        good = True
        for fn, es in edits.items():
            p = os.path.join(SR, fn)
            t = open(p).read()
            for a, b in es:
                if t.count(a) != 1:
                    print(s["id"], "EDIT MATCHES %d TIMES: %r" % (t.count(a), a))
                    good = False
                t = t.replace(a, b)
            open(p, "w").write(t)
        if good:
            ok, out = build()
            if not ok:
                print(s["id"], "DOES NOT BUILD", out[-1500:])
            else:
                ok, out = tests()
                if not ok:
                    print(s["id"], "CAUGHT BY TESTS", out[-600:])
                else:
                    r = demo(d)
                    if r.returncode in (0, 3):
                        print(s["id"], "DEMO DOES NOT FAIL", r.returncode, r.stdout[-300:], r.stderr[-600:])
                    else:
                        out = os.path.join(ROOT, "seeded", s["id"])
                        os.makedirs(out, exist_ok=True)
                        for f in ("demo.cpp", "demo.sh"):
                            open(os.path.join(out, f), "w").write(open(d + "/" + f).read())
                        os.chmod(out + "/demo.sh", 0o755)
                        diff = sh("git diff", cwd=SR).stdout
                        open(out + "/patch.diff", "w").write(diff)
                        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
                        c = sh("FLAI_REPO=%s python3 check.py %s" % (SR, s["property"]), cwd=ROOT)
                        print(s["id"], "PLANTED", "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + s["property"] in c.stdout else "MISSED (exit %d)" % c.returncode,
                              "|", "\n".join(c.stdout.strip().split("\n")[1:3])[:300])
        sh("git checkout -- .", cwd=SR)
    build()


main()
