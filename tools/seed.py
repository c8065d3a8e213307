"""Plant bugs: seed.py verify ID...  (patch.diff, demo.cpp or demo.sh, meta.json in seeded/ID) or
seed.py add FILE.py, where FILE.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
Applies each to /repo, builds, runs the tests and the demo, runs the property's check, undoes it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -I/repo/_build/include -I/usr/include/hdf5/serial "$D/demo.cpp" /repo/_build/liboxsx.a -o "$T/demo" \
    -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5 -larmadillo -lgsl -lgslcblas || exit 98
cd "$T" && timeout 100 ./demo
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def clean():
    sh("git -C /repo checkout -- .")


def build():
    r = sh("bash /opt/vp/build.sh")
    return r.returncode == 0, r.stdout


def tests():
    r = sh("bash /opt/vp/test.sh /tmp/seed-out.json")
    a = json.load(open("/tmp/seed-out.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    return [t for t in b["stable"] if t not in a["passed"]]


def demo(i):
    return sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd="/repo")


def verify(ids, check=True):
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
    build()
    base = {}
    for i in ids:
        base[i] = demo(i)
        if base[i].returncode:
            print(i, "DEMO FAILS on the unchanged tree", base[i].returncode, base[i].stdout[-1500:])
    for i in ids:
        m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
        r = sh("git -C /repo apply %s/seeded/%s/patch.diff" % (V, i))
        if r.returncode:
            print(i, "patch does not apply", r.stdout)
            continue
        try:
            ok, out = build()
            if not ok:
                print(i, "does not build", out[-3000:])
                continue
            f = tests()
            d = demo(i)
            res = "missed"
            t = time.time()
            if check:
                c = sh("python3 checks/%s.py" % m["property"], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                hit = c.returncode == 1 and "VIOLATION property=%s" % m["property"] in c.stdout
                res = "caught" if hit else "MISSED(rc %d) %s" % (c.returncode, c.stdout[-800:])
            print("%s %s: tests %s, demo rc %d%s, check %s (%.0f s)" % (
                i, m["property"], "pass" if not f else "FAIL %s" % f[:3], d.returncode,
                "" if d.returncode and not base[i].returncode else "  <-- BAD DEMO", res, time.time() - t), flush=True)
        finally:
            clean()
    build()


def add(path):
    g = {}
    exec(open(path).read(), g)
    ids = []
    for s in g["SEEDS"]:
        clean()
        d = "%s/seeded/%s" % (V, s["id"])
        os.makedirs(d, exist_ok=True)
        for f, old, new in s["edits"]:
            p = "/repo/" + f
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout)
        clean()
        if "demo_sh" in s:
            open(d + "/demo.sh", "w").write(s["demo_sh"])
        else:
            open(d + "/demo.sh", "w").write(DEMO)
            open(d + "/demo.cpp", "w").write(s["demo"])
        for k, v in s.get("files", {}).items():
            open(d + "/" + k, "w").write(v)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ids.append(s["id"])
    verify(ids)


if sys.argv[1] == "add":
    add(sys.argv[2])
else:
    verify(sys.argv[2:] or sorted(os.listdir(V + "/seeded")))
