#!/usr/bin/env python3
"""runseeds.py [ID...]: run the check of each seeded bug's property against a scratch tree with the bug applied (working copies under /tmp/sw)."""
import json, os, subprocess, sys, glob, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sw/run"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(V + "/seeded/*/meta.json"))
shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
sh("git -C /repo worktree prune"); sh("git clone -q /repo %s/repo" % W)
sh("rsync -a --exclude .git --exclude build --exclude seeded --exclude evidence --exclude replays %s/ %s/verif/" % (V, W)) if shutil.which("rsync") else sh("mkdir -p {0}/verif && cp -a {1}/*.py {1}/*.txt {1}/harness {1}/ref {1}/fixtures {1}/tools {0}/verif/".format(W, V))
for i in ids:
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i))); p = m["property"]
    sh("git -C %s/repo checkout -q -- ." % W)
    a = sh("git -C %s/repo apply %s/seeded/%s/patch.diff" % (W, V, i))
    if a.returncode: print(i, p, "PATCH DOES NOT APPLY", a.stdout); continue
    t = time.time(); r = sh("python3 check.py %s --tier quick" % p, cwd=W + "/verif", env=dict(os.environ, CALIGO_REPO=W + "/repo"))
    ok = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
    print(i, p, "CAUGHT" if ok else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t), [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")][:1] if ok else r.stdout[-600:], flush=True)
shutil.rmtree(W, ignore_errors=True)
