#!/usr/bin/env python3
"""Create and try planted bugs.
  seedlib.py make  FILE.py     FILE.py defines BUGS = [dict(id, prop, edits=[(file, old, new)...], demo, needs, breaks)]
  seedlib.py check ID...       run the property's quick check against each bug
Works on /repo's tree, undone straight afterwards; needs a clean /repo."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
gcc -w -g -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -Iinclude -o "$d/demo" "$here/demo.c" $(ls src/*.c | grep -v /cli.c) -lm || exit 2
ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 timeout 100 "$d/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def restore():
    sh("git -C /repo checkout -- .")


def make(b):
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
    d = os.path.join(SEED, b["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.sh"), "w").write(b.get("sh", DEMO))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if "demo" in b:
        open(os.path.join(d, "demo.c"), "w").write(b["demo"].lstrip())
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    demo = "cd /repo && bash " + d + "/demo.sh"
    if b.get("cli"):
        sh("bash /opt/vp/build.sh")
    r0 = sh(demo)
    try:
        for f, old, new in b["edits"]:
            p = os.path.join("/repo", f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
        bo = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        r1 = sh(demo)
    finally:
        restore()
    ok = r0.returncode == 0 and r1.returncode not in (0, 2) and bo.returncode == 0 and " 0 failed" in t.stdout
    print(b["id"], "KEPT" if ok else "DROPPED", "clean=%d patched=%d build=%d %s" % (r0.returncode, r1.returncode, bo.returncode, t.stdout.strip().splitlines()[-1]))
    if not ok:
        print(r0.stdout[-300:], r1.stdout[-300:], bo.stdout[-300:] if bo.returncode else "")
        shutil.rmtree(d)
    sys.stdout.flush()


def check(i):
    d = os.path.join(SEED, i)
    m = json.load(open(os.path.join(d, "meta.json")))
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
    r = sh("git -C /repo apply " + os.path.join(d, "patch.diff"))
    assert r.returncode == 0, r.stdout
    try:
        r = sh("cd %s && python3 check.py %s quick" % (V, m["property"]))
    finally:
        restore()
    hit = r.returncode == 1 and "VIOLATION property=%s" % m["property"] in r.stdout
    w = [l for l in r.stdout.splitlines() if "wall=" in l]
    print(i, m["property"], "CAUGHT" if hit else "MISSED rc=%s" % r.returncode, w[-1].split("wall=")[1] if w else "", [l for l in r.stdout.splitlines() if l.startswith("violated")][:1])
    sys.stdout.flush()


if __name__ == "__main__":
    if sys.argv[1] == "make":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        for b in ns["BUGS"]:
            if len(sys.argv) < 4 or b["id"] in sys.argv[3:]:
                make(b)
    else:
        for i in sys.argv[2:]:
            check(i)
