#!/usr/bin/env python3
"""setup: nothing is prebuilt (every check compiles /repo's current tree); verify the tools are present and the references agree with independent implementations."""
import os, shutil, subprocess, sys
for t in ("clang++-18", "ar", "python3"):
    if not shutil.which(t): sys.exit("missing " + t)
H = os.path.dirname(os.path.abspath(__file__))
rc = 0
for s in ("tools/selftest_ref.py", "tools/selftest_cipher.py"):
    r = subprocess.run([sys.executable, os.path.join(H, s)], cwd=H)
    rc |= r.returncode
os.makedirs(os.path.join(H, "evidence"), exist_ok=True)
sys.exit(rc)
