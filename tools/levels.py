S = "Exhaustive within the stated bounds on the real code compiled from /repo; "
T = {
"H01": ("explicit-state exploration of call histories on the real code against an independent reference", S + "values outside the enumerated lengths/contents are extrapolated from the block structure; trusts the FIPS 180-4/RFC 1321 reference in ref/ (cross-checked with hashlib in setup)."),
"H02": ("explicit-state exploration of call histories on the real code against an independent reference", S + "as H01, for FIPS 202."),
"H03": ("explicit-state exploration of call histories on the real code against a bitwise reference", S + "the step function is explored for all register bits and byte values, longer messages follow by linearity."),
"H04": ("exhaustive enumeration of names and call histories on the real code", S + "names outside the enumerated neighbourhoods are extrapolated."),
"K01": ("exhaustive enumeration of hash/key/text shapes on the real code against a reference model", S + "contents beyond the patterns are extrapolated; trusts ref/refhash.hpp."),
"K02": ("exhaustive walk of the key-schedule graph and of all lengths on the real code against a reference model", S + "trusts the RFC 5869/8446 reference."),
"C01": ("exhaustive enumeration of key/block families and all key lengths on the real code", S + "the 2^256 key space itself is covered by byte-wise and bit-wise complete families."),
"C02": ("exhaustive enumeration of basis products plus linearity checks on the real code", S + "all 128x128 basis products are decided; general operands follow if the code is bilinear, which is checked on all one- and two-bit combinations."),
"C03": ("exhaustive enumeration of lengths, IVs, counters and message histories on the real code against SP 800-38D", S + "trusts ref/refcipher.hpp (cross-checked with libcrypto in setup)."),
"C04": ("exhaustive exploration of delivery histories and modifications of a sender/receiver pair of real objects", S + "histories up to the stated depth."),
"C05": ("exhaustive enumeration of lengths and message histories on the real code against a CTR model", S + "trusts ref/refcipher.hpp."),
"C06": ("exhaustive exploration of call splits on the real code against RFC 8439", S + "trusts ref/refcipher.hpp."),
"E01": ("exhaustive enumeration of short inputs and option sets on the real code against a bit-string model", S + "longer data extrapolated from position mod 57."),
"G01": ("exhaustive enumeration of buffer shapes and draw histories on the real code", S + "generator period beyond the explored runs is not decided."),
"N01": ("exhaustive enumeration of word-pattern operands and widths on the real code against GMP", S + "operands are all combinations of boundary word values per width, which cover every carry/borrow pattern; trusts GMP."),
"N02": ("exhaustive enumeration of small moduli/operands and boundary families on the real code against GMP", S + "complete for all odd moduli up to the stated size, families of boundary words beyond; trusts GMP."),
"N03": ("exhaustive sweep of numbers and injected random histories on the real code against a sieve", S + "complete for all numbers below the stated limit plus pseudoprime families; Miller-Rabin bases are drawn by the code itself."),
"R01": ("exhaustive enumeration of all messages of small keys and boundary messages of larger ones on the real code against GMP", S + "trusts GMP."),
"R02": ("exhaustive enumeration of signature and encoded-block modifications on the real code against an RFC 8017 model", S + "keys up to the stated sizes; trusts ref/refrsa.hpp."),
"R03": ("exhaustive enumeration of hashes, block sizes, mask lengths, salt lengths and key sizes on the real code against an RFC 8017 model", S + "sizes up to the stated bounds; trusts ref/refrsa.hpp and ref/refhash.hpp."),
"X01": ("exhaustive enumeration of scalar and u-coordinate families and of exchanges on the real code against RFC 7748", S + "the field operations below it are decided by X02; trusts GMP."),
"X02": ("exhaustive enumeration of boundary operand pairs and operation histories on the real code against GMP", S + "families reach every overflow, fold and borrow combination; trusts GMP."),
"A01": ("exhaustive enumeration of byte strings and read histories on the real code (ASan) against a TLV model", S + "longer inputs extrapolated."),
"A02": ("exhaustive enumeration of certificate/PEM/bundle/key shapes on the real parser against an independent DER builder", S + "trusts ref/der.hpp; each attribute at most once per name."),
"A03": ("exhaustive enumeration of every calendar day 1900-9999 and of malformed times on the real parser", S + "complete over days, families over malformed strings."),
"A04": ("exhaustive fault injection (every truncation, byte change and structural edit) on the real parsers under ASan", S + "faults at more than one (two) places extrapolated."),
"T01": ("exhaustive enumeration of signer/issuer pairs, validity orderings and single-place modifications on the real code", S + "trusts GMP and ref/der.hpp."),
"M01": ("stateless model checking of the real code: controlled scheduler with dynamic partial-order reduction and a happens-before race detector behind compiler instrumentation", S + "pairs and selected triples of operations; sequentially consistent atomics; accesses inside the prebuilt C/C++ runtime are not seen."),
"M05": ("stateless model checking of the real code: controlled scheduler with dynamic partial-order reduction and a happens-before race detector behind compiler instrumentation, on objects shared by the threads", S + "pairs of uses and selected triples; sequentially consistent atomics; accesses inside the prebuilt C/C++ runtime are seen only where they copy memory."),
"M02": ("exhaustive enumeration of input lengths of every operation on the real code, under sanitizers and, in the plain build, with guard pages, read-only inputs and differential fills of fresh memory", S + "contents beyond the patterns are extrapolated."),
"M03": ("explicit-state exploration of call histories (forked at every prefix) and of all interleavings of the steps of live objects on the real code, against a fresh process", S + "state that shows only after longer histories than two or three calls is reached by the long runs only."),
"M04": ("exhaustive fault injection: every allocation of every operation fails, at first use and later, on the real code", S + "allocations made with malloc directly are not failed (the library makes none)."),
"S01": ("exhaustive enumeration of a bounded space of secrets on the real compiled code, comparing complete traces of basic blocks, addresses, copies, comparisons and allocations (self-composition by tracing)", S + "trace of clang -O2 code before instruction selection (thorough: -O0, -O1, -O3 and -Os too); secrets outside the families extrapolated; AES and carry-less multiply instructions taken as constant time."),
"T02": ("explicit-state exploration of all certificate lists, stores and query histories on the real store against a reachability model", S + "universe of 24 certificates; signature checks memoised per (key,data,signature)."),
"T03": ("exhaustive fault injection into the first use of the real store (every failing, short, interrupted read; failed open, stat, allocation) and enumeration of bundles, each in a fresh process, against the set of certificates in the bundle", S + "the bundle is served by the harness in place of the system file."),
}
NA = {
"L01": "the legacy CBC and ECB headers do not compile when instantiated (they refer to members AesKeySchedule does not have and there is no AES decryption), so there is no behaviour to explore",
}
