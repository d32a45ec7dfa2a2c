#!/usr/bin/env python3
"""mkseed.py <id>: read seeded/<id>/edit.json-less spec from stdin (JSON: property, needs, breaks, edits [[file, old, new]], demo (C text)),
write seeded/<id>/{patch.diff,demo.sh,demo.c,meta.json}, and confirm in a scratch copy of /repo: applies, builds, stable tests pass,
demo passes without and fails with the patch."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
gcc -w -g -O1 -std=gnu11 -D_GNU_SOURCE %s -I_build/%s/small/include -Iinclude/small -Iinclude -Ithird_party \\
	"$d/demo.c" _build/%s/libsmall.a -lm -lpthread -o "$t/demo" || exit 98
cd "$t" && timeout 200 ./demo
'''
def sh(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def scratch():
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    r = t + "/repo"
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    shutil.rmtree(r + "/_build", ignore_errors=True)
    os.mkdir(t + "/vp")
    for f in os.listdir("/opt/vp"):
        p = "/opt/vp/" + f
        if os.path.isfile(p):
            s = open(p, errors="replace").read().replace("/opt/vp", t + "/vp").replace("/repo", r)
            open(t + "/vp/" + f, "w").write(s)
    return t, r

def main():
    sid = sys.argv[1]
    d = V + "/seeded/" + sid
    if not sys.stdin.isatty() and len(sys.argv) < 3:
        spec = json.load(sys.stdin) if False else eval(sys.stdin.read())
        os.makedirs(d, exist_ok=True)
        t, r = scratch()
        for f, a, b in spec["edits"]:
            s = open(r + "/" + f).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(r + "/" + f, "w").write(s.replace(a, b))
        open(d + "/patch.diff", "w").write(sh(["git", "-C", r, "diff"]).stdout)
        shutil.rmtree(t)
        asan = spec.get("asan")
        cfg = "asan" if asan else "plain"
        open(d + "/demo.sh", "w").write(DEMO % (spec.get("cflags", "-fsanitize=address" if asan else ""), cfg, cfg))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.c", "w").write(spec["demo"])
        json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(d + "/meta.json", "w"), indent=1)
    t, r = scratch()
    ok = True
    try:
        b = sh(["bash", t + "/vp/build.sh"], cwd=r)
        x = sh(["bash", d + "/demo.sh"], cwd=r)
        print("clean demo rc", x.returncode, x.stdout[-300:])
        ok &= x.returncode == 0
        a = sh(["git", "-C", r, "apply", d + "/patch.diff"])
        ok &= a.returncode == 0
        b = sh(["bash", t + "/vp/build.sh"], cwd=r)
        if b.returncode:
            print("BUILD FAILED", b.stdout[-1500:]); ok = False
        o = sh(["bash", t + "/vp/test.sh", t + "/o.json"], cwd=r)
        res = json.load(open(t + "/o.json"))
        bad = len(res["failed"]) if hasattr(res["failed"], "__len__") else res["failed"]
        print("tests failed:", res["failed"] if bad else 0, o.stdout.strip()[-60:])
        base = json.load(open("/opt/vp/BASELINE.json"))
        ok &= bad == 0
        x = sh(["bash", d + "/demo.sh"], cwd=r)
        print("patched demo rc", x.returncode, x.stdout[-300:])
        ok &= x.returncode != 0
    finally:
        shutil.rmtree(t)
    print(sid, "OK" if ok else "REJECTED")
    sys.exit(0 if ok else 1)
main()
