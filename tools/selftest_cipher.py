import os, subprocess, tempfile
here = os.path.dirname(os.path.abspath(__file__))
with tempfile.TemporaryDirectory() as d:
    exe = d + "/s"
    subprocess.check_call(["clang++-18", "-std=gnu++20", "-O1", "-w", "-I", here + "/../ref", here + "/selftest_cipher.cpp", "-o", exe, "-lcrypto"])
    print(subprocess.check_output([exe], text=True).strip())
