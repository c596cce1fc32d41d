#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--keep]
Builds /repo's working tree together with the harness of one property, explores, reports.
exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not run."""
import glob, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CALIGO_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS

CXX = "/usr/bin/clang++-18"
BASE = ["-std=gnu++20", "-g1", "-maes", "-mpclmul", "-w", "-pthread",
        "-include", "cstring", "-include", "algorithm", "-include", "memory", "-include", "variant",
        "-include", "filesystem", "-include", "stdexcept", "-include", "functional"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build(cfg, bdir):
    os.makedirs(bdir, exist_ok=True)
    flags = cfg.get("flags", ["-O2"])
    inc = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(HERE, "harness"), "-I", os.path.join(HERE, "ref"), "-I", os.path.join(HERE, "fixtures")]
    jobs = []
    libobjs, hobjs = [], []
    for s in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)):
        o = os.path.join(bdir, "lib_" + os.path.relpath(s, REPO).replace("/", "_")[:-4] + ".o")
        libobjs.append(o); jobs.append([CXX, *BASE, *flags, *cfg.get("libflags", []), *inc, "-c", s, "-o", o])
    for s in cfg["sources"]:
        o = os.path.join(bdir, "h_" + os.path.basename(s)[:-4] + ".o")
        extra = cfg.get("srcflags", {}).get(s, cfg.get("hflags", []))
        fl = cfg.get("srcbase", {}).get(s, flags)
        hobjs.append(o); jobs.append([CXX, *BASE, *fl, *extra, *inc, "-c", os.path.join(HERE, s), "-o", o])
    with ThreadPoolExecutor(8) as ex:
        for j, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode:
                return None, " ".join(j) + "\n" + r.stdout
    lib = os.path.join(bdir, "libcaligo.a")
    if os.path.exists(lib): os.unlink(lib)
    r = sh(["ar", "rcs", lib, *libobjs])
    if r.returncode: return None, r.stdout
    exe = os.path.join(bdir, "harness")
    r = sh([CXX, *cfg.get("ldflags", flags), "-pthread", *hobjs, lib, "-o", exe, *cfg.get("libs", [])])
    if r.returncode: return None, r.stdout
    return exe, ""

def known_list(prop):
    res = {}
    for line in open(os.path.join(HERE, "known_findings.txt")):
        line = line.strip()
        if line.startswith("known: "):
            f = dict(x.split("=", 1) for x in line.split()[1:3])
            if f.get("property") == prop: res[f["key"]] = line.split(None, 3)[3]
    return res

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = CHECKS[prop]
    bdir = os.path.join(HERE, "build", prop)
    shutil.rmtree(bdir, ignore_errors=True)
    parts = [dict(cfg, **x) for x in cfg["parts"] if x.get("tier", tier) == tier] if "parts" in cfg else [cfg]
    tot = dict(states=0, transitions=0, traces=0, units=0)
    samples, fails, knowns, rules, assumptions, exhaustive = [], [], [], [], [], True
    broken = None
    for i, part in enumerate(parts):
        pd = os.path.join(bdir, str(i))
        exe, err = build(part, pd)
        if exe is None:
            print("check %s cannot build:\n%s" % (prop, err[-6000:])); broken = True; break
        out = os.path.join(pd, "result.json")
        cmd = [exe, "--out", out]
        if tier == "thorough": cmd.append("--thorough")
        if replay:
            u = json.load(open(replay))
            if u.get("part", 0) != i: continue
            cmd += ["--unit", u["unit"]]
        env = dict(os.environ, **part.get("env", {}))
        env.setdefault("ASAN_OPTIONS", "detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=0:max_allocation_size_mb=2000:handle_abort=1:detect_stack_use_after_return=0")
        env["VERIF_SEED"] = str(seed)
        elog = os.path.join(pd, "stderr.txt")
        with open(elog, "wb") as ef:
            try:
                r = subprocess.run(cmd, cwd=pd, env=env, stdout=subprocess.DEVNULL, stderr=ef, timeout=part.get("timeout", {}).get(tier, 840 if tier == "quick" else 36000))
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        if not os.path.exists(out):
            print("check %s: harness gave no result (%s)" % (prop, rc)); print(open(elog, errors="replace").read()[-3000:]); broken = True; break
        res = json.load(open(out))
        for k in tot: tot[k] += res[k]
        samples += res["samples"]; rules.append(res["rule"]); exhaustive &= res["exhaustive"]
        assumptions += [a for a in res["assumptions"] if a not in assumptions]
        for f in res["failures"]: fails.append(dict(f, part=i, stderr=open(elog, errors="replace").read()[-2500:]))
        knowns += res["known"]
        if rc not in (0, 1): print("check %s: harness ended with %s" % (prop, rc)); broken = True
        if fails: break
    listed = known_list(prop)
    for k in knowns:
        if k["key"] in listed: print("KNOWN-FINDING: property=%s %s (%s)" % (prop, listed[k["key"]], k["text"]))
        else: fails.append(dict(k, part=0))
    level = cfg.get("level", "model_checking")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["traces"],
                       "units": tot["units"], "rule": " || ".join(rules), "samples": samples[:24], "exhaustive": bool(exhaustive) and not fails and not broken},
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(fails)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if not fails and not broken and "--keep" not in sys.argv: shutil.rmtree(bdir, ignore_errors=True)
    if fails:
        rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
        for n, f in enumerate(fails[:8]):
            rp = os.path.join(rd, "%s-%d.json" % (prop, n))
            json.dump(dict(f, property=prop, tier=tier, how="python3 check.py %s --replay %s" % (prop, rp)), open(rp, "w"), indent=1)
            print("%s %s: %s" % (prop, f["unit"], f["text"]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if broken: return 2
    print("%s %s: held; states=%d transitions=%d traces=%d units=%d wall=%.1fs" % (prop, tier, tot["states"], tot["transitions"], tot["traces"], tot["units"], time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
