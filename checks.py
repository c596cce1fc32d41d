"""Build and run configuration of every check."""
ASAN = ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]
TSAN = ["-O2", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
UBSAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"]
CT = ["-O2", "-fsanitize=thread", "-fsanitize-coverage=trace-pc,trace-loads,trace-stores", "-mllvm", "-sanitizer-coverage-prune-blocks=0", "-mllvm", "-tsan-instrument-func-entry-exit=0",
      "-mllvm", "-tsan-instrument-memory-accesses=0", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
CHECKS = {
    "H01": {"sources": ["harness/h_hash.cpp"], "hflags": ["-DGROUP=1"], "libs": ["-lcrypto"]},
    "H02": {"sources": ["harness/h_hash.cpp"], "hflags": ["-DGROUP=2"], "libs": ["-lcrypto"]},
    "H03": {"sources": ["harness/h_hash.cpp"], "hflags": ["-DGROUP=3"], "libs": ["-lcrypto"]},
    "H04": {"sources": ["harness/h_kdf.cpp"], "hflags": ["-DGROUP=4"], "libs": ["-lcrypto"]},
    "K01": {"sources": ["harness/h_kdf.cpp"], "hflags": ["-DGROUP=5"], "libs": ["-lcrypto"]},
    "K02": {"sources": ["harness/h_kdf.cpp"], "hflags": ["-DGROUP=6"]},
    "C01": {"sources": ["harness/h_cipher.cpp"], "hflags": ["-DGROUP=1", "-DASAN"], "flags": ASAN},
    "C02": {"sources": ["harness/h_cipher.cpp"], "hflags": ["-DGROUP=2"]},
    "C03": {"sources": ["harness/h_cipher.cpp"], "hflags": ["-DGROUP=3"], "libs": ["-lcrypto"]},
    "C04": {"sources": ["harness/h_cipher.cpp"], "hflags": ["-DGROUP=4"], "libs": ["-lcrypto"]},
    "C05": {"sources": ["harness/h_cipher.cpp"], "libs": ["-lcrypto"], "parts": [{"hflags": ["-DGROUP=5", "-DASAN"], "flags": ASAN}, {"hflags": ["-DGROUP=5", "-DHUGE"]}]},
    "C06": {"sources": ["harness/h_cipher.cpp"], "hflags": ["-DGROUP=6"], "libs": ["-lcrypto"]},
    "E01": {"parts": [{"sources": ["harness/h_base64.cpp"], "libs": ["-lcrypto"]}, {"sources": ["harness/h_base64.cpp"], "hflags": ["-DASAN"], "flags": ASAN}]},
    "G01": {"sources": ["harness/h_random.cpp"], "flags": ASAN},
    "N01": {"sources": ["harness/h_num.cpp"], "hflags": ["-DGROUP=1"], "libs": ["-lgmp"]},
    "N02": {"sources": ["harness/h_num.cpp"], "hflags": ["-DGROUP=2"], "libs": ["-lgmp"]},
    "N03": {"sources": ["harness/h_num.cpp"], "hflags": ["-DGROUP=3"], "libs": ["-lgmp"]},
    "R01": {"sources": ["harness/h_rsa.cpp"], "hflags": ["-DGROUP=1"], "libs": ["-lgmp"]},
    "R02": {"sources": ["harness/h_rsa.cpp"], "hflags": ["-DGROUP=2"], "libs": ["-lgmp"]},
    "R03": {"sources": ["harness/h_rsaenc.cpp"], "libs": ["-lgmp"]},
    "X01": {"sources": ["harness/h_ec.cpp"], "hflags": ["-DGROUP=2"], "libs": ["-lgmp"]},
    "X02": {"sources": ["harness/h_ec.cpp"], "hflags": ["-DGROUP=1"], "libs": ["-lgmp"]},
    "A01": {"sources": ["harness/h_x509.cpp"], "hflags": ["-DGROUP=1"], "flags": ASAN, "libs": ["-lgmp"]},
    "A02": {"sources": ["harness/h_x509.cpp"], "hflags": ["-DGROUP=2"], "libs": ["-lgmp"]},
    "A03": {"sources": ["harness/h_x509.cpp"], "hflags": ["-DGROUP=3"], "libs": ["-lgmp"]},
    "A04": {"sources": ["harness/h_trust.cpp"], "hflags": ["-DGROUP=4"], "flags": ASAN, "libs": ["-lgmp"]},
    "T01": {"sources": ["harness/h_trust.cpp"], "hflags": ["-DGROUP=5"], "libs": ["-lgmp"]},
    "T02": {"sources": ["harness/h_trust.cpp"], "hflags": ["-DGROUP=6"], "libs": ["-lgmp"]},
    "T03": {"sources": ["harness/h_store.cpp"], "libs": ["-lgmp", "-ldl"]},
    "M01": {"sources": ["harness/m_ops.cpp", "harness/m_ops2.cpp", "harness/h_conc.cpp", "harness/rt_sched.cpp"], "flags": TSAN, "srcbase": {"harness/rt_sched.cpp": ["-O2", "-fno-builtin"]}, "ldflags": ["-O1", "-no-pie"], "libs": ["-lgmp", "-ldl"]},
    "M05": {"sources": ["harness/m_shared.cpp", "harness/h_conc.cpp", "harness/rt_sched.cpp"], "hflags": ["-DSHARED"], "flags": TSAN, "srcbase": {"harness/rt_sched.cpp": ["-O2", "-fno-builtin"]}, "ldflags": ["-O1", "-no-pie"], "libs": ["-lgmp", "-ldl"]},
    "M02": dict(sources=["harness/mem_cases.cpp", "harness/mem_prime.cpp", "harness/h_mem.cpp"], libs=["-lgmp"],
                parts=[{"flags": UBSAN, "hflags": ["-DSAN"]}, {}]),
    "M03": {"sources": ["harness/m_ops.cpp", "harness/m_ops2.cpp", "harness/h_hist.cpp"], "libs": ["-lgmp"]},
    "M04": {"sources": ["harness/mem_cases.cpp", "harness/mem_prime.cpp", "harness/m_ops.cpp", "harness/m_ops2.cpp", "harness/h_oom.cpp"], "libs": ["-lgmp"]},
    "S01": dict(sources=["harness/ct_ops.cpp", "harness/h_ct.cpp", "harness/rt_ct.cpp"], srcbase={"harness/h_ct.cpp": ["-O2"], "harness/rt_ct.cpp": ["-O2", "-fno-builtin"]}, ldflags=["-O1", "-no-pie"], libs=["-ldl"],
                parts=[{"flags": CT}] + [{"flags": [o] + CT[1:], "tier": "thorough"} for o in ("-O1", "-O3", "-Os", "-O0")]
                + [{"sources": ["harness/ct_ops.cpp", "harness/h_ctm.cpp"], "srcbase": {}, "flags": ["-O2"], "ldflags": ["-no-pie"], "libs": [], "tier": "thorough"}]),
}
