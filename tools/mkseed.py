#!/usr/bin/env python3
"""mkseed.py [--check] [--only ID,...]: turn the specs in tools/seeds/*.py into /verif/seeded/<id>/ after confirming them in a scratch copy.
A spec: seed(id, property, needs, breaks, [(file, old, new), ...], demo_cpp). Uses /tmp/sw (scratch copy of /repo HEAD, own cmake tree)."""
import glob, json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = "/tmp/sw"
R = SW + "/repo"
SPECS = []
def seed(id, prop, needs, breaks, edits, demo, libs="", cflags=""): SPECS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, libs=libs, cflags=cflags))
for f in sorted(glob.glob(V + "/tools/seeds/*.py")): exec(open(f).read())
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
DEMO = r'''#!/bin/bash
# exit 0: the property's example holds; non-zero: broken.  cwd: the repository
set -u
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
INC="-include cstring -include algorithm -include memory -include variant -include filesystem -include stdexcept -include functional"
FL="-std=gnu++20 -O2 -maes -mpclmul -w -pthread @CFLAGS@ $INC -I $PWD/include -I $D"
pids=()
for s in $(find "$PWD/src" -name '*.cpp'); do /usr/bin/clang++-18 $FL -c "$s" -o "$T/$(basename "$s").o" & pids+=($!); done
/usr/bin/clang++-18 $FL -c "$D/demo.cpp" -o "$T/demo.o" & pids+=($!)
for p in "${pids[@]}"; do wait "$p" || exit 90; done
/usr/bin/clang++-18 -pthread @CFLAGS@ -Wno-unused-command-line-argument "$T"/*.o -o "$T/demo" @LIBS@ || exit 91
cd "$T" && timeout 240 ./demo
'''
def prep():
    if os.path.exists(R): 
        sh("git -C %s checkout -q -- ." % R)
        if sh("git -C %s rev-parse HEAD" % R).stdout == sh("git -C /repo rev-parse HEAD").stdout: return
        sh("git -C %s fetch -q /repo && git -C %s checkout -q FETCH_HEAD" % (R, R)); return
    os.makedirs(SW, exist_ok=True)
    sh("cp -a /repo %s && rm -rf %s/_build" % (R, R))
    shutil.copytree("/opt/vp/cmake", SW + "/cmake")
    t = open(SW + "/cmake/CMakeLists.txt").read().replace("set(R /repo)", "set(R %s)" % R); open(SW + "/cmake/CMakeLists.txt", "w").write(t)
    print(sh("cmake -S %s/cmake -B %s/_build -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18 -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO='-O2 -g'" % (SW, R)).stdout[-300:])
def tests():
    b = sh("ninja -C %s/_build -j8" % R)
    if b.returncode: return "build failed\n" + b.stdout[-3000:]
    sh("ctest --test-dir %s/_build -j8 --timeout 150 --output-junit %s/_build/junit.xml; python3 /opt/vp/results.py %s/out.json junit:%s/_build/junit.xml" % (R, R, SW, R))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); passed = set(json.load(open(SW + "/out.json"))["passed"])
    miss = stable - passed
    return "tests fail: %s" % sorted(miss)[:5] if miss else ""
def main():
    only = sys.argv[sys.argv.index("--only") + 1].split(",") if "--only" in sys.argv else None
    force = "--force" in sys.argv
    prep()
    for s in SPECS:
        if only and s["id"] not in only: continue
        d = V + "/seeded/" + s["id"]
        if os.path.exists(d + "/meta.json") and not force and not only: continue
        sh("git -C %s checkout -q -- ." % R)
        bad = None
        for f, old, new in s["edits"]:
            t = open(R + "/" + f).read()
            if t.count(old) != 1: bad = "%s: %d matches in %s: %r" % (s["id"], t.count(old), f, old[:60]); break
            open(R + "/" + f, "w").write(t.replace(old, new))
        if bad: print("BAD", bad); continue
        diff = sh("git -C %s diff" % R).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff); open(d + "/demo.sh", "w").write(DEMO.replace("@LIBS@", s["libs"]).replace("@CFLAGS@", s["cflags"])); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.cpp", "w").write(s["demo"])
        if os.path.exists(d + "/meta.json"): os.unlink(d + "/meta.json")
        r1 = sh("bash %s/demo.sh" % d, cwd=R)
        t = tests()
        sh("git -C %s checkout -q -- ." % R)
        r0 = sh("bash %s/demo.sh" % d, cwd=R)
        ok = r0.returncode == 0 and r1.returncode not in (0, 90, 91) and not t
        print(s["id"], "OK" if ok else "REJECTED", "clean rc=%d" % r0.returncode, "patched rc=%d" % r1.returncode, t, "" if ok else (r0.stdout[-800:] + r1.stdout[-800:]), flush=True)
        if ok: json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        else: shutil.rmtree(d)
    sh("git -C %s checkout -q -- ." % R)
main()
