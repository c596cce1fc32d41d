#!/usr/bin/env python3
"""Mutation campaign: small mechanical changes of one source file at a time, each run through the checks that claim that
file. Prints the mutants no check noticed, for a person to look at. Works on scratch copies only.
usage: mutate.py [-j N] [-n MAX per file] [-s SEED] FILE..."""
import sys, os, re, subprocess, shutil, random, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {"md5.cpp": "H01", "sha1.cpp": "H01", "sha2.cpp": "H01", "sha3.cpp": "H02", "crc.cpp": "H03", "md5.h": "H01 H04", "sha1.h": "H01 H04", "sha2.h": "H01 H04", "sha3.h": "H02 H04", "crc.h": "H03", "hash.cpp": "H04 M04", "hash.h": "H04",
  "hkdf.h": "K01 K02", "aes.h": "C01 C03", "aes.cpp": "C01 C03", "gcm.h": "C03 C04 C02", "ghash.h": "C02 C03", "ctr.h": "C05", "chacha20.h": "C06", "base64.cpp": "E01 A04", "base64.h": "E01", "bignum.h": "N01 N02 M02", "mont.h": "N02 R01",
  "rsa.h": "R02 R03 R01", "pkcs1.h": "R03 R02", "x25519.h": "X02 X01", "Asn1.cpp": "A01", "Asn1.h": "A01 A02 A04", "X509Certificate.cpp": "A02 A03 T01 A04 R02 T02", "X509Certificate.h": "A02 T01", "Truststore.cpp": "T02 T01", "Truststore.h": "T02", "random.h": "G01", "random.cpp": "G01", "random_prime.h": "N03", "oid.h": "A02 T01", "key_iv_pair.h": "C03 C05"}
SUB = [(r"<=", ["<"]), (r">=", [">"]), (r"(?<= )<(?= )", ["<="]), (r"(?<= )>(?= )", [">="]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
  (r"(?<=[\w\])] )\+(?= [\w(])", ["-"]), (r"(?<=[\w\])] )-(?= [\w(])", ["+"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\^=", ["|="]), (r"\|=", ["^="]), (r"&=", ["|="]), (r"<<", [">>"]), (r">>", ["<<"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
  (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]), (r"\bnot (?=\w)", [""]), (r"!(?=[\w(])", [""]), (r"\+\+", ["--"]), (r"(?<![\w.<])(0x[0-9a-fA-F]+|\d+)(?![\w.>])", ["+1", "-1"])]
def mutants(text):
    out = []; pre = re.compile(r"^\s*(#|//|template|using|namespace|\}|$)")
    for i, l in enumerate(text.split("\n")):
        if pre.match(l): continue
        code = l.split("//")[0]
        for rx, reps in SUB:
            for m in re.finditer(rx, code):
                for r in reps:
                    if r in ("+1", "-1"):
                        t = m.group(0); v = int(t, 0) + int(r)
                        if v < 0: continue
                        r2 = hex(v) if t.startswith("0x") else str(v)
                    else: r2 = r
                    out.append((i, l[:m.start()] + r2 + l[m.end():]))
        if re.match(r"^\s+[\w\[\]().>\-*&:]+.*;\s*$", code) and not re.match(r"^\s*(return|const|auto|uint|int|std::|size_t|static|inline|typedef|struct|friend|bool|throw|break|continue|[\w:<>]+ [\w\[\]]+(\s*=.*)?;)", code): out.append((i, "//" + l))
        if re.match(r"^\s*if \(.*\) (return|throw|continue|break).*;\s*$", code): out.append((i, "//" + l))
    return out
def main():
    a = sys.argv[1:]; J, N, S = 2, 40, 1; files = []
    while a:
        x = a.pop(0)
        if x == "-j": J = int(a.pop(0))
        elif x == "-n": N = int(a.pop(0))
        elif x == "-s": S = int(a.pop(0))
        else: files.append(x)
    jobs = []
    for f in files:
        ms = mutants(open("/repo/" + f).read()); rnd = random.Random(S); rnd.shuffle(ms); jobs += [(f, *m) for m in ms[:N]]
    print(len(jobs), "mutants", flush=True); slots = list(range(J))
    def run(job):
        f, i, new = job; s = slots.pop(); base = f"/tmp/mut/{s}"; repo = base + "/repo"
        try:
            if not os.path.exists(base + "/verif"):
                os.makedirs(base, exist_ok=True); subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
                shutil.copytree(V, base + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "build"), symlinks=True)
            t = open("/repo/" + f).read().split("\n"); old = t[i]; t[i] = new; open(repo + "/" + f, "w").write("\n".join(t))
            res = "SURVIVED"; env = dict(os.environ, CALIGO_REPO=repo)
            for c in MAP[os.path.basename(f)].split():
                p = subprocess.run(["timeout", "-k", "5", "400", "python3", "check.py", c], cwd=base + "/verif", env=env, capture_output=True, text=True, errors="replace")
                if p.returncode == 1 and "VIOLATION" in p.stdout: res = "killed " + c; break
                if p.returncode != 0:
                    res = ("nocompile " if "error:" in p.stdout + p.stderr else f"rc{p.returncode} ") + c; break
            open(repo + "/" + f, "w").write(open("/repo/" + f).read())
            print(f"{res:14} {f}:{i+1}: {old.strip()[:100]}  ==>  {new.strip()[:100]}", flush=True)
        finally: slots.append(s)
    with ThreadPoolExecutor(J) as ex: list(ex.map(run, jobs))
main()
