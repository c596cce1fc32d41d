#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "meaning": "state the property ranges over", "where": files[0]}]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("H01", "MD5, SHA-1 and SHA-2 give the standard digest for every message",
  "For every message of every length (including messages larger than 2^32 bits or 2^32 bytes), MD5, SHA-1 and SHA-2 (224, 256, 384, 512) return exactly the digest of RFC 1321 / FIPS 180-4, however the message is cut into pieces (empty pieces included). Reading the digest, as bytes or as lower-case hexadecimal text of exactly that digest, never changes the object: it can be read again, extended with more data and copied, and copies evolve independently.",
  ["inputs", "histories"],
  "all messages, all ways of splitting them into add() calls, all interleavings of add / read / copy, all digest sizes",
  "Unit tests hash a few fixed strings in one piece; padding, block-boundary, length-counter and buffer-reuse mistakes show only for particular lengths, particular cuts or very long messages.",
  ["src/md5.cpp", "src/sha1.cpp", "src/sha2.cpp", "include/caligo/md5.h", "include/caligo/sha1.h", "include/caligo/sha2.h"],
  [("chunk buffer and length counter", "SHA1::add, SHA2<256>::add, SHA2<512>::add, MD5::add"), ("padding and length encoding", "operator std::array"), ("compression", "processChunk"), ("truncated variants", "SHA2<224>, SHA2<384>")],
  state="partial block, chaining value, message length", observe="data(), operator std::array, operator std::string")

p("H02", "SHA-3 gives the FIPS 202 digest for every message",
  "For every message of every length SHA3-224, SHA3-256, SHA3-384 and SHA3-512 return exactly the FIPS 202 digest, however the message is cut into pieces, also when the message ends on or next to a rate boundary. Reading the digest (bytes or lower-case hex) never changes the object, which can be re-read, extended and copied.",
  ["inputs", "histories"], "all messages, all splits into add() calls, all interleavings of add / read / copy, the four sizes",
  "The tests hash a few short strings; rate-boundary padding, carried offsets and reuse after reading need specific lengths and call histories.",
  ["src/sha3.cpp", "include/caligo/sha3.h"], [("sponge absorb", "SHA3::add"), ("padding and squeeze", "SHA3::operator std::array"), ("Keccak-f", "SHA3::processChunk")],
  state="sponge lanes and message length", observe="data(), operator std::string")

p("H03", "CRC-32 equals the IEEE 802.3 CRC for every message and split",
  "For every byte string, however it is cut into pieces, the CRC object returns the IEEE 802.3 (reflected, polynomial 0x04C11DB7) CRC-32 as four big-endian bytes and as eight lower-case hex digits. Reading it never changes the running value, and copies evolve independently.",
  ["inputs", "histories"], "all byte strings, all splits, all interleavings of add / read / copy",
  "A wrong table entry or a state change on read is only visible for particular byte values in particular positions.",
  ["src/crc.cpp", "include/caligo/crc.h"], [("table driven update", "CRC32::add"), ("finalisation", "CRC32::operator std::array")],
  state="running CRC register", observe="data(), operator std::string")

p("H04", "A hash selected by name is that hash, and unknown names are refused",
  "The run-time selected hash object built from any supported name (md5, sha, sha1, sha224/256/384/512 with and without the sha2- prefix, sha3-224/256/384/512) behaves in every respect (digest for any message and split, hex text, digest size, ASN.1 DigestInfo prefix) as the named algorithm. Every other name is refused with an exception rather than silently mapped to some algorithm.",
  ["inputs", "configurations"], "all names (supported, near-miss and arbitrary), all messages and splits",
  "No test uses this interface; a swapped or unreachable branch silently gives a different algorithm.",
  ["src/hash.cpp", "include/caligo/hash.h"], [("name dispatch", "Hash::Impl::Impl"), ("variant visitation", "Hash::Impl")],
  observe="Hash::data, Hash::operator std::string, Hash::hashsize, Hash::getAsn1Id")

p("K01", "HMAC is RFC 2104 HMAC for every hash, key and text",
  "For every provided hash (MD5, SHA-1, SHA-2, SHA-3) and every key and text, HMAC returns the RFC 2104 value; in particular keys of every length - empty, shorter than, equal to, and longer than the hash's block - are treated as the standard says.",
  ["inputs", "configurations"], "all hashes, all key lengths and contents, all text lengths and contents",
  "The only test uses one 20-byte key with SHA-256; block-size and long-key handling are untested.",
  ["include/caligo/hkdf.h"], [("inner/outer padding", "HMAC")], observe="HMAC<Hash>(text, key)")

p("K02", "HKDF and the TLS 1.3 key schedule follow RFC 5869 and RFC 8446",
  "For every salt, input key, info, label (up to 249 bytes), context (up to 255 bytes) and output length up to the permitted maximum, HKDF extract, expand and expand-label return the RFC 5869 / RFC 8446 values and every derived secret (handshake, master, updated traffic secret, client/server handshake and application traffic secrets, keys, IVs, finished keys, exporter and resumption secrets) is the one the RFC 8446 key schedule prescribes for that hash. Output lengths above 255 hash lengths are refused rather than silently produced.",
  ["inputs", "configurations", "histories"], "all input lengths and contents, all output lengths, all hashes, all paths through the key schedule",
  "The tests replay a single TLS trace with SHA-256 and 32-byte outputs; counters, multi-block output and other hashes are not reached.",
  ["include/caligo/hkdf.h", "include/caligo/key_iv_pair.h"], [("extract/expand", "HKDF_Extract, HKDF_Expand, HKDF_Expand_Label"), ("key schedule", "secret, HKDF_HandshakeSecret, HKDF_MasterSecret, HKDF_UpdateSecret, exporter_master, resumption_master")],
  state="current secret", observe="returned byte strings")

p("C01", "AES encrypts every block as FIPS-197 and refuses wrong key sizes",
  "For every 128-bit and 256-bit key and every 16-byte block the result is the FIPS-197 ciphertext, and a key schedule can be used for any number of blocks without changing. A key whose length is not exactly 16 respectively 32 bytes is refused with an exception, never read past its end, truncated or padded.",
  ["inputs", "histories"], "all keys, all blocks, all key lengths, repeated use of one schedule",
  "Two known-answer tests cannot distinguish a key expansion that is wrong for some round, lane or byte value, and no test passes a wrong length.",
  ["src/aes.cpp", "include/caligo/aes.h"], [("key expansion", "AesKeySchedule<128>, AesKeySchedule<256>"), ("rounds", "AesEncrypt")], state="round keys")

p("C02", "The GHASH multiply is multiplication in GF(2^128)",
  "For every pair of 128-bit operands (in reflected representation) the Galois multiplication returns their product in GF(2^128) modulo x^128+x^7+x^2+x+1; it is commutative and distributes over XOR; the GHASH step is multiplication of (state XOR block) by the key.",
  ["inputs"], "all operand pairs", "One test vector exists; a reduction or cross-product mistake can affect only a few bit positions.",
  ["include/caligo/ghash.h"], [("carry-less multiply and reduction", "galoisMultiply, ghash_block"), ("bit reflection", "reflect")])

p("C03", "GCM encryption yields the SP 800-38D ciphertext and tag for every message",
  "For AES-128 and AES-256, every plaintext and associated data (any lengths, including empty and not block aligned) and every supported IV (8, 12 or more bytes), the k-th message sealed by an object (k = 0, 1, ...) has the SP 800-38D ciphertext and tag for the pre-counter block derived from the IV with k XORed big-endian into its bytes 4..11, so no two messages of one object share a keystream. Block counters wrap modulo 2^32 within the last four bytes only, and IVs of unsupported length yield an empty result instead of an encryption.",
  ["inputs", "histories"], "all keys, IVs, plaintexts, associated data and lengths, all positions in a message sequence",
  "The tests seal one message per object with a few lengths; partial blocks, counter carries and per-message nonces need particular lengths, IVs and sequences.",
  ["include/caligo/gcm.h", "include/caligo/ghash.h", "src/aes.cpp"], [("pre-counter block", "GCM::GCM, GCM::Encrypt"), ("counter increment", "GCM::ctr_inc"), ("tag", "GCM::calculate_tag")],
  state="IV, message counter, hash key", observe="return value of Encrypt")

p("C04", "GCM opens exactly the authentic messages and stays in step with the sender",
  "A receiver with the same key and IV that opens messages in the order they were sealed gets back each plaintext with success for every message; if any bit of ciphertext, associated data or tag is changed, or a message is truncated, extended, repeated, dropped or reordered, the affected message is reported as invalid. A failed or successful open advances the receiver exactly one message, so later authentic messages in their place still open.",
  ["inputs", "histories", "fault_sequences"], "all messages, all single-bit and length modifications, all delivery histories (loss, duplication, reordering, corruption)",
  "The tests open one untouched message each; forgery rejection and resynchronisation after errors are properties of all modifications and histories.",
  ["include/caligo/gcm.h"], [("tag verification", "GCM::Decrypt"), ("message counter", "GCM::message_counter")],
  state="message counter of sender and receiver", observe="bool and plaintext returned by Decrypt")

p("C05", "Counter mode really encrypts, decrypts in step and never reuses keystream",
  "For AES-128 and AES-256 with a 16-byte IV, message k is XORed with the AES encryptions of successive counter blocks that start one above the IV with k XORed big-endian into bytes 4..11 (32-bit wrap in the last four bytes); hence an object with the same key and IV decrypts the sequence, and distinct messages use distinct keystreams. Data of any length is transformed in place without touching bytes outside it, and IVs or keys of other lengths are refused with an exception.",
  ["inputs", "histories"], "all keys, IVs, lengths and message sequences", "No test exercises counter mode at all.",
  ["include/caligo/ctr.h"], [("keystream", "CTR::GenerateKeystream"), ("in-place XOR", "CTR::Encrypt, CTR::Decrypt")], state="message counter")

p("C06", "ChaCha20 is the RFC 8439 stream however it is consumed",
  "For every 32-byte key and 12-byte nonce the object encrypts and decrypts by XOR with the RFC 8439 keystream starting at block counter 1, and any split of the data over any mixture of encrypt and decrypt calls (empty ones included) consumes that stream contiguously. Keys and nonces of any other length are refused with an exception; objects and copies are independent.",
  ["inputs", "histories"], "all keys, nonces, data lengths and call splits", "The tests use two vectors in one call each; buffer-boundary handling depends on the split.",
  ["include/caligo/chacha20.h"], [("block function", "ChaCha20::GenerateBlock"), ("stream position", "ChaCha20::Encrypt, ChaCha20::Decrypt")], state="block counter, buffer offset")

p("E01", "Base64 encodes to the RFC 4648 text and decoding inverts it for all data",
  "For every byte string and every option (line breaks, omitted padding, each of the three character sets) the encoder emits the RFC 4648 text with the chosen alphabet, broken into lines of 76 characters when asked (a trailing line break is allowed), and decoding that text returns the original bytes. The decoder ignores characters outside the alphabets (white space, line breaks, '=') wherever they are, accepts all three alphabets, and turns any text into the bytes its alphabet characters denote, without failing.",
  ["inputs", "configurations"], "all byte strings, all option combinations, all decoder input texts", "The test checks a single sentence; alphabet entries, tail lengths, line lengths and high (negative char) bytes are not covered.",
  ["src/base64.cpp", "include/caligo/base64.h"], [("encoder", "base64"), ("decoder", "base64d")])

p("N01", "Big-number arithmetic is exact integer arithmetic at every width",
  "For every width (multiples of 32 bits) and all operands, addition and subtraction return the exact result modulo 2^width with the exact carry/borrow, multiplication (full and by a word) and squaring return the exact double-width (plus-one-word) product, and comparison, equality, shifts, bit access, XOR/AND, slicing, widening/narrowing and conditional swap behave as on mathematical integers. Conversion from bytes (least significant first), words and to bytes or text is lossless.",
  ["inputs", "configurations"], "all operands, all widths", "Carry chains through many all-ones words occur with probability about 2^-32 for random operands, and tests add two numbers.",
  ["include/caligo/bignum.h"], [("carry propagation", "bignum::add, bignum::sub"), ("schoolbook product", "bignum operator*"), ("conversion", "bignum constructors, as_bytes, to_string")])

p("N02", "Modular reduction and Montgomery arithmetic agree with integers mod N",
  "Reducing any number by any non-zero modulus gives the mathematical remainder, and for every odd modulus Montgomery conversion, multiplication, squaring, addition and exponentiation (with any exponent, of either exponent form) of any operands below 2^width give, after converting back, a value congruent to the mathematical result, and below the modulus except that the class of zero may be represented by the modulus itself. Reduction always terminates; a zero modulus is refused.",
  ["inputs", "configurations"], "all odd moduli (any bit length up to the width), all operands and exponents, all widths", "Tests use one modulus with few operands; wrong final subtraction, lost carries and small moduli show only for particular values.",
  ["include/caligo/mont.h", "include/caligo/bignum.h"], [("reduction", "bignum::naive_reduce"), ("Montgomery reduction", "MontgomeryState::REDC"), ("exponentiation", "MontgomeryValue::exp")])

p("N03", "Prime generation returns primes of the exact requested size",
  "The primality predicate accepts every prime and rejects every composite (including Carmichael numbers, prime squares and strong pseudoprimes to small bases) of every width. Whatever the random source delivers, prime generation returns an odd prime with the requested top bit(s) set, namely the first acceptable candidate it draws.",
  ["inputs", "histories"], "all numbers; all random sequences", "Tests try a dozen small numbers and products of two library primes; pseudoprimes and boundary values need targeted exhaustive search.",
  ["include/caligo/random_prime.h"], [("Miller-Rabin", "miller_rabin_is_probably_prime"), ("candidate generation", "random_prime")])

p("R01", "The RSA primitives compute m^e and c^d mod n and invert each other",
  "For every RSA key (any modulus size up to the width, any public exponent including but not limited to 65537) and every message below the modulus, the public operation returns m^e mod n, the private operation c^d mod n, and each undoes the other.",
  ["inputs", "configurations"], "all keys, all messages below the modulus", "Tests try three fixed vectors; small keys in wide containers, other exponents and boundary messages (0, 1, n-1) are untested.",
  ["include/caligo/rsa.h", "include/caligo/mont.h"], [("public operation", "rsa_public_key::rsaep"), ("private operation", "rsa_private_key::rsadp")])

p("R02", "RSA signatures verify exactly when genuine, for every scheme and key",
  "For each supported scheme (PKCS#1 v1.5 and PSS with SHA-256/384/512), key and message, signing yields an RFC 8017 signature exactly as long as the modulus that any RFC 8017 verifier accepts, and validation accepts it (and any other genuine signature for that key, message and scheme). Validation rejects every signature for another message, key or scheme, every altered, truncated, extended or out-of-range signature, and every block whose padding deviates in any byte; unsupported schemes are rejected; it terminates without fault on signatures of any length.",
  ["inputs", "configurations", "fault_sequences"], "all keys, messages, schemes; all modifications of signature or encoded block; all signature lengths", "The tests validate a few PSS vectors; acceptance of malformed padding or short signatures is invisible to positive tests.",
  ["include/caligo/rsa.h", "include/caligo/pkcs1.h", "src/X509Certificate.cpp"], [("PKCS#1 v1.5 encoding", "PKCS1"), ("PSS encoding", "generatePssData, getSalt, MGF1"), ("scheme dispatch", "RsaPubkey::validateSignature, RsaPrivateKey::sign")])

p("R03", "RSA message encodings follow RFC 8017 for every hash, message and size",
  "For each provided hash (MD5, SHA-1, SHA-2, SHA-3), the PKCS#1 v1.5 block of a message has exactly the requested size, the RFC 8017 padding, the DigestInfo of that hash and the digest, and a size too small for it (fewer than eight padding bytes) is refused; the MGF1 mask for any seed and length is the RFC 8017 mask, however many counter values it takes; the PSS block for a message digest and salt of any length is the RFC 8017 block, and the salt is found in it again; keys of every size either are large enough, and give a signature with that encoding, or are refused. A signature made under one hash is never valid under another.",
  ["inputs", "configurations"], "all hashes, messages, seeds, salts, block sizes, mask lengths, key sizes", "Tests use SHA-1 and SHA-256 vectors at one or two sizes; the smallest usable sizes, counter carries and the other hashes are not reached.",
  ["include/caligo/pkcs1.h", "include/caligo/rsa.h", "include/caligo/sha2.h", "include/caligo/sha3.h"], [("block encoding", "PKCS1"), ("mask generation", "MGF1::MGF"), ("PSS block", "generatePssData, getSalt"), ("DigestInfo", "getAsn1Id")])

p("X01", "X25519 is the RFC 7748 function for every scalar and u-coordinate",
  "For every 32-byte scalar and 32-byte u-coordinate the result is the canonical RFC 7748 X25519 value: the scalar is clamped, the top bit of u is ignored, non-canonical u values are reduced and low-order points give zero. Consequently both sides of a Diffie-Hellman exchange always obtain the same secret.",
  ["inputs"], "all scalars and u-coordinates, all key pairs", "Fixed vectors miss carries and borrows of the lazily reduced field arithmetic, non-canonical inputs, and the top bit.",
  ["include/caligo/x25519.h"], [("Montgomery ladder", "X25519"), ("clamping", "ec_value::normalize"), ("field arithmetic", "ec_value operators")])

p("X02", "Field arithmetic modulo 2^255-19 is exact for all 256-bit operands",
  "For all operands representable in 256 bits (reduced or not) addition, subtraction, multiplication, word multiplication, squaring and inversion give a value congruent to the mathematical result modulo 2^255-19; final reduction gives the canonical representative; equality, inequality and order compare field values, not representations.",
  ["inputs"], "all pairs of 256-bit operands", "Double overflow and double borrow paths are reached only by operands within a few units of 0, p, 2p or 2^256.",
  ["include/caligo/x25519.h"], [("overflow folding", "ec_value operator+, operator-, operator*"), ("canonical reduction", "ec_value::applyModulus"), ("inversion chain", "inverse")])

p("A01", "The DER reader splits any buffer into in-bounds elements or refuses it",
  "Reading a DER buffer element by element yields for each well-formed element its tag and exactly its content bytes, for short and long length forms, and consumes exactly that element. For every byte string, an element that is incomplete or whose stated length exceeds the buffer is refused with an exception; the reader never returns or touches bytes outside the buffer and reports end of data only at its end.",
  ["inputs"], "all byte strings, all read positions", "Malformed and truncated encodings are a combinatorial space no unit test samples; there are no tests of the reader.",
  ["include/caligo/Asn1.h"], [("TLV reader", "asn1_view::read, asn1_view::peek, asn1_view::empty")], state="read offset")

p("A02", "Parsed certificates carry exactly what the certificate says",
  "For every X.509 v1/v3 certificate built from the supported name attributes, subject and issuer text, serial number, common-name host match, validity bounds and RSA public key are exactly those encoded, identically for DER and for the PEM form of the same bytes with any text around it. A PEM bundle of n certificates parses to those n certificates in order, and an RSA private key parses, from DER or PEM, to a key that produces signatures valid under its public key.",
  ["inputs", "configurations"], "all combinations of certificate fields and encodings, all bundles", "Two fixed certificates are tested; attribute mapping, lengths, bundles and key files need systematic combination.",
  ["src/X509Certificate.cpp", "include/caligo/X509Certificate.h"], [("certificate parser", "parseCertificate"), ("name parser", "parseDer<x509name>"), ("PEM bundles", "parseCertificatesPem"), ("key parser", "parsePrivateKey")])

p("A03", "Validity times equal the Unix time of every calendar date",
  "Every UTCTime from 1970 through 2049 and every GeneralizedTime from 1970 through 9999 given in UTC with seconds is read as exactly its Unix timestamp, across month ends, leap years and century rules; earlier dates are read as time zero. Malformed or non-UTC times (other than reduced-precision ones) never produce a later timestamp than zero nor a fault.",
  ["inputs"], "every calendar day and time of day, every malformed time string", "Two dates are tested; leap-day and century mistakes are off by one day on particular date ranges only.",
  ["src/X509Certificate.cpp"], [("time parser", "parseDer<x509date>")], observe="validity_start, validity_end")

p("A04", "No input can crash, hang or corrupt the certificate, key and base64 parsers",
  "For every byte string offered as certificate, certificate bundle, private key (DER or PEM) or base64 text, and for every signature offered for verification, the call returns a value or throws a standard exception; it never reads or writes outside its input and buffers, never dereferences a missing key, and always terminates.",
  ["inputs", "fault_sequences"], "all byte strings; in particular every truncation, every byte substitution and every length-field change of valid objects", "Memory errors on malformed input require adversarial inputs; the suite only parses valid certificates.",
  ["src/X509Certificate.cpp", "include/caligo/Asn1.h", "src/base64.cpp", "include/caligo/rsa.h"], [("certificate parser", "parseCertificate, parseCertificatesPem"), ("key parser", "parsePrivateKey"), ("certificate signature check", "x509certificate::verify")])

p("T01", "A certificate verifies only under its issuer's key and validity window",
  "Checking a certificate against an issuer succeeds exactly when the RSA (SHA-256/384/512) signature over the certificate's signed part verifies with the issuer's public key and the certificate's validity lies within the issuer's. Changing any byte of the signed part or signature, using another issuer key, a non-RSA issuer, an unsupported algorithm or a validity exceeding the issuer's on either side makes it fail, never fault.",
  ["inputs", "fault_sequences"], "all certificate/issuer pairs, all single-byte modifications, all validity orderings", "One self-signed certificate is verified in the tests; rejection is never tested.",
  ["src/X509Certificate.cpp"], [("signature and window check", "x509certificate::verify")])

p("T02", "A chain is trusted only if every link leads validly to a trusted root",
  "Trust is granted to a certificate (first in the list) only if the current time is within its validity and a chain of the presented certificates links it by issuer name, verified signature and nested validity, through certificates allowed to act as CA, to a certificate already in the store; and it is granted whenever such a chain exists, in whatever order the other certificates are presented and whatever unrelated, forged or duplicate ones accompany them, unless another genuinely issued presented certificate bears the same name as one in the chain. A presented certificate never replaces or impersonates a stored one of the same name, a presented certificate whose name is already stored is not trusted, no query changes the store, and an empty list is not trusted.",
  ["inputs", "histories", "configurations"], "all lists (any order, subset, duplication, forgery) of certificates, all times, all stores and sequences of queries", "The trust store has no tests; the order-dependent fix-point search over arbitrary presented sets is a combinatorial space.",
  ["src/Truststore.cpp", "include/caligo/Truststore.h", "src/X509Certificate.cpp"], [("chain building fix-point", "Truststore::trust"), ("store", "Truststore::addCertificate, Truststore::get")],
  state="set of trusted certificates", observe="return value of trust, get()")

p("T03", "The trust store comes up with exactly the system's roots or not at all",
  "The first use of the trust store reads the system's bundle of root certificates, and either reports an error or yields a store that holds exactly the certificates of the bundle: each is found under its subject name, unchanged (the last one where several bear one name), and no other name is found. This holds for every number of roots, whatever text stands between them, and for every failure while the bundle is opened or read, interrupted or short reads included, and every failed allocation; a store never comes up with only part of the roots. After a failed first use, the next one succeeds once the bundle can be read. A certificate issued by any of the roots is then trusted.",
  ["inputs", "fault_sequences", "histories"], "all bundles (number, order, names, text between, damage, truncation), all failures of open, stat, read and allocation during the first use", "The trust store has no tests, and a reading failure or a damaged bundle never occurs in a test run.",
  ["src/Truststore.cpp", "include/caligo/Truststore.h", "src/X509Certificate.cpp"], [("reading the bundle", "Truststore::Truststore"), ("single store", "Truststore::Instance"), ("splitting the bundle", "parseCertificatesPem")],
  state="set of trusted certificates", observe="get(), trust(), exceptions of Instance()")

p("G01", "Random filling covers exactly the buffer with the generator's output",
  "For every element width and buffer length, filling with random data writes every element of the buffer from fresh generator output, each output bit used at most once and in order, and nothing outside it; random numbers and private keys are built from that output alone. Successive draws do not repeat over any run of draws explored, different runs of a program draw different values, and injected test values are consumed exactly once, last first.",
  ["inputs", "histories"], "all buffer lengths and element widths, all generator outputs", "The tests only check that ten draws differ; tails of odd length and out-of-bounds writes are not observed.",
  ["include/caligo/random.h", "src/random.cpp", "include/caligo/bignum.h", "include/caligo/x25519.h"], [("generator", "generate_random_value"), ("fill", "generate_random"), ("consumers", "bignum::random, ec_value::random_private_key")], state="generator state, injected values")

p("M01", "Independent objects can be used from several threads at once",
  "Operations of different threads on their own objects (hashes, MACs, ciphers, big numbers, key agreement, base64, parsing, signing, random draws) never race and give, under every interleaving, the results they give when run alone; concurrent random draws never return the same value to two threads.",
  ["schedules"], "all interleavings of the threads' shared-memory accesses", "A race needs a particular interleaving; the suite is single threaded.",
  ["include/caligo/random.h", "include/caligo/ghash.h", "src/md5.cpp", "src/X509Certificate.cpp"], [("hidden shared state", "static locals and globals"), ("random generator state", "generate_random_value")], state="static and global variables")

p("M05", "Objects that threads only read can be shared by them",
  "Several threads may use one and the same object at once as long as none of them changes it: read the digest or text of, or copy, a hash object; encrypt with the same round keys; make ciphers from the same key, IV or cipher object; calculate with the same numbers, field elements and Montgomery states; sign with the same private key; check signatures with the same public key; read and match the same certificates and verify them as subject or as issuer; parse the same certificate and key texts; derive from the same key-schedule secret; look up and query the same trust store with certificate lists of their own. Such uses never race, never block for ever and give, under every interleaving, the results they give when run alone.",
  ["schedules"], "all interleavings of the readers' accesses to the shared object", "The suite is single threaded; a value remembered inside an object on first use needs two readers at the right moment.",
  ["include/caligo", "src/X509Certificate.cpp", "src/Truststore.cpp", "src/hash.cpp", "src/sha3.cpp"], [("digest without finishing the object", "operator std::array of the hash classes"), ("signature check with a shared key", "RsaPubkey::validateSignature, rsa_public_key"), ("shared store", "Truststore::get, Truststore::trust")], state="the shared objects")

p("M02", "Every operation keeps to its own memory, whatever the input lengths",
  "Every operation outside the parsers (hashes, MACs, key derivation, ciphers, base64, big numbers, Montgomery arithmetic, primality, RSA encoding, signing and validation, X25519, random filling), for inputs of every length, empty and wrong sizes included, returns or throws a standard exception. It reads only its inputs and objects, writes only its outputs and never its inputs, has no undefined behaviour (out-of-bounds access, shift or arithmetic misuse, misaligned or uninitialised reads), gives a result that depends on its inputs alone and not on what memory held before or on where the inputs lie, also when one buffer is passed twice or an object is copied, moved or assigned to itself, and releases all memory it took.",
  ["inputs"], "all lengths of all inputs, all placements of the inputs, all prior contents of memory", "Tests use a few well-sized inputs in roomy buffers; an over-read by a few bytes or a stale byte goes unseen.",
  ["include/caligo", "src/sha2.cpp", "src/sha3.cpp", "src/md5.cpp", "src/base64.cpp", "src/aes.cpp"], [("block buffering", "add() of the hash classes"), ("tail blocks", "GCM::Encrypt, GCM::ghash"), ("word loops", "bignum, MontgomeryState"), ("encoded blocks", "PKCS1, generatePssData, getSalt")])

p("M03", "Results do not depend on what the program did before",
  "Apart from random draws and certificates added to the store, every operation of the library gives, on the same inputs, the result it gives in a fresh process: whatever operations ran before it on the same or other inputs, however often, and whatever other objects are used between its own steps. Objects are independent of each other: a copy and its original, or two objects made from similar inputs, never influence one another.",
  ["histories"], "all sequences of calls and all interleavings of the steps of live objects", "Each test runs an operation once from scratch; a cache keyed too coarsely or leftover static state needs a particular history.",
  ["include/caligo", "src"], [("hidden state", "static locals and globals"), ("object copies", "hash objects, GCM, MontgomeryState")], state="static and global variables")

p("M04", "A failed allocation never gives a wrong result, a leak or lasting damage",
  "If any memory allocation inside a call fails, the call ends by an exception (or with its usual result): it never returns another result, in particular never accepts a signature, message or certificate it would refuse or drops a certificate it should parse, never terminates the program, releases everything it took, and leaves the library and the objects involved so that later calls give their usual results; a cipher object never uses key stream it has already given out.",
  ["fault_sequences"], "every allocation of every call failing, alone or with all later ones, at first use and later", "No test makes an allocation fail; every failure point is a different path through cleanup code.",
  ["include/caligo", "src/X509Certificate.cpp", "src/Truststore.cpp", "src/hash.cpp", "src/base64.cpp"], [("exception handling", "x509certificate::verify"), ("object state across exceptions", "GCM::Encrypt, Truststore::addCertificate, Hash")], state="live objects, statics")

p("S01", "Secrets do not steer branches or memory addresses",
  "For a given set of public lengths, the sequence of branches taken, memory addresses touched, allocations made and bytes compared by an operation on secrets does not depend on the secrets' values: X25519 with a secret scalar, RSA private-key operations (exponent and message), signing, big-number and field arithmetic, comparison and conditional swap, AES/GCM/CTR/ChaCha20 with secret keys and plaintexts, judging a GCM tag, hashing and HMAC of secret data, and the TLS key schedule.",
  ["inputs"], "all pairs of secrets of equal length", "Functional tests see results only; a secret-dependent branch or table index leaves every result right.",
  ["include/caligo/x25519.h", "include/caligo/mont.h", "include/caligo/gcm.h", "include/caligo/bignum.h", "include/caligo/hkdf.h", "src/aes.cpp"], [("constant time swap", "ctime_swap"), ("exponentiation", "MontgomeryValue::exp, MontgomeryState::REDC"), ("tag comparison", "GCM::Decrypt"), ("field reduction", "ec_value::operator-, applyModulus")])

p("L01", "Legacy CBC and ECB modes invert and match SP 800-38A",
  "For every key, IV and block-aligned message, the legacy CBC and ECB modes produce the SP 800-38A ciphertext and decrypt it back.",
  ["inputs"], "all keys, IVs and messages", "No test instantiates these modes.",
  ["include/caligo/legacy/cbc.h", "include/caligo/legacy/ecb.h"], [("chaining", "CBC, ECB")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P), "properties")
