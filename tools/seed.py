#!/usr/bin/env python3
"""Make a planted change: seed.py NAME < spec
spec: JSON header {"property","needs","what_it_breaks","edits":[[file,old,new],...],"cc": extra cc args} , a line '----', then demo.c.
Validates build and demo in a scratch copy (not the test suite)."""
import sys, os, json, subprocess, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
name = sys.argv[1]
txt = sys.stdin.read()
head, demo = txt.split("\n----\n", 1)
h = json.loads(head, strict=False)
d = os.path.join(V, "seeded", name)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
w = "/tmp/seed/repo"
shutil.rmtree(w, ignore_errors=True)
os.makedirs("/tmp/seed", exist_ok=True)
subprocess.run(["cp", "-a", REPO, w], check=True)
cc = h.get("cc", "-L. -lcligen")
open(d + "/demo.c", "w").write(demo)
open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0 when the property holds for the case shown, nonzero otherwise
t=$(mktemp -d) || exit 0
trap 'rm -rf "$t"' EXIT
here=$(dirname "$0")
for l in libcligen.so.*; do ln -s "$PWD/$l" "$t/libcligen.so"; ln -s "$PWD/$l" "$t/$l"; break; done
gcc -g -w -D_GNU_SOURCE -I. %s "$here/demo.c" -o "$t/demo" -L"$t" %s || exit 3
ASAN_OPTIONS=detect_leaks=0 TZ=UTC LD_LIBRARY_PATH="$t:$PWD" timeout 60 "$t/demo"
""" % ("-fsanitize=address,undefined -fno-sanitize-recover=undefined" if h.get("asan") else "", cc.replace("-L. ", "")))
os.chmod(d + "/demo.sh", 0o755)
r0 = subprocess.run([d + "/demo.sh"], cwd=w, capture_output=True, text=True)
for f, o, n in h["edits"]:
    s = open(w + "/" + f).read()
    assert s.count(o) >= 1, "not found: " + o
    assert s.count(o) == 1 or h.get("first"), "ambiguous %d: %s" % (s.count(o), o)
    s = s.replace(o, n, 1)
    open(w + "/" + f, "w").write(s)
    ob = w + "/" + f[:-2] + ".o"
    if f.endswith(".c") and os.path.exists(ob): os.remove(ob)
p = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(p)
json.dump({k: h[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
b = subprocess.run("make -j8 2>&1 | tail -3", shell=True, cwd=w, capture_output=True, text=True)
r1 = subprocess.run([d + "/demo.sh"], cwd=w, capture_output=True, text=True)
print(name, "clean:", r0.returncode, "patched:", r1.returncode, (r0.stdout + r0.stderr)[-300:] if r0.returncode else "", (r1.stdout + r1.stderr)[-200:])
if r0.returncode or not r1.returncode:
    print("BAD", b.stdout[-500:])
    sys.exit(1)
if "t" in sys.argv[2:] or True:
    c = subprocess.run([V + "/bin/check", h["property"]], env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
    print(" check:", c.returncode, " | ".join(l for l in c.stdout.splitlines() if "VIOLATION" in l)[-250:])
