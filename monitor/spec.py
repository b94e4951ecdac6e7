"""Text of the properties and of the manifest.  `python3 monitor/spec.py` writes
/verif/properties.jsonl and /verif/MANIFEST.json from it."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = []


def P(pid, title, statement, over, qtext, why, files, mech, technique, note, level="exploration", state=None, observe=None):
    SPEC.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                     mech=mech, technique=technique, note=note, level=level, state=state or [], observe=observe or []))


TR = "Trusts the GMP-based reference (self-tested against hashlib and RFC vectors by setup_cmd) and the installed compilers."

P("C01", "Fp25519 scalar arithmetic is exact modulo 2^255-19",
  "Every one-lane operation of the 2^255-19 field (add, subtract, negate, multiply, square, multiply by the curve constant, invert, square root of a ratio, compare, sign, select, serialise, parse, wide multiply, square and reduce), in the 64-bit and in the reduced-radix representation, returns a value congruent to the exact result. Serialisation is canonical and comparison says equal exactly when the residues are equal. This holds for every machine representation of the operands the representation allows, canonical or not, and for every aliasing of arguments the call convention allows.",
  ["inputs", "programs", "configurations"], "all 256-bit operands, all reduced-radix operands inside the digit bounds that the library's own operations produce, all sequences of operations, and the ADX, MULX and plain-MUL code paths",
  "The tests draw operands uniformly at random, so carry chains that need runs of ones, operands at or above the modulus, zero, and the alternative instruction paths are never taken (the repaired comparison and serialisation defects lived exactly there).",
  ["src/fp255.c", "src/eltfp25519_1w_fullradix.c", "src/eltfp25519_1w_redradix.c", "include/faz_fp_avx2.h"],
  [{"name": "four-limb Montgomery-free multiply and fold by 38", "where": "src/eltfp25519_1w_fullradix.c"}, {"name": "ten-digit reduced radix with lazy carries", "where": "src/eltfp25519_1w_redradix.c"}],
  "online monitor: exact GMP oracle on every call",
  "Adversarial limb patterns, values around multiples of p, every aliasing and random programs, on three instruction-set builds and two compilers. " + TR)
P("C02", "Fp448 scalar arithmetic is exact modulo 2^448-2^224-1",
  "Every one-lane operation of the 2^448-2^224-1 field, in the 64-bit and in the reduced-radix representation, returns a value congruent to the exact result. Serialisation is canonical and comparison says equal exactly when the residues are equal. This holds for every machine representation of the operands the representation allows and for every aliasing the call convention allows.",
  ["inputs", "programs", "configurations"], "all 448-bit operands, all reduced-radix operands inside the digit bounds the library's own operations produce, all sequences of operations, and the ADX, MULX and plain-MUL code paths",
  "The tests cover only part of these operations, with uniformly random operands; double folding carries (2^448 and 2^224 terms) and packed double operations are not reached.",
  ["src/fp448.c", "src/eltfp448_1w_fullradix.c", "src/eltfp448_1w_redradix.c", "include/faz_fp_avx2.h"],
  [{"name": "seven-limb multiply with fold at 2^224 and 2^448", "where": "src/eltfp448_1w_fullradix.c"}, {"name": "sixteen-digit radix-2^28 form", "where": "src/eltfp448_1w_redradix.c"}],
  "online monitor: exact GMP oracle on every call",
  "Adversarial limb patterns, values around multiples of p, every aliasing and random programs, on three instruction-set builds and two compilers. " + TR)
P("C03", "Fp25519 vector operations compute every lane independently and exactly",
  "The 2-lane and 4-lane operations of the 2^255-19 field give in each lane a value congruent to the exact scalar result for that lane's operands, whatever the other lanes contain. Interleaving, de-interleaving, lane selection and per-lane comparison and sign concern exactly the lanes they name. Carry compression never changes the residue of a lane.",
  ["inputs", "programs"], "all lane contents inside the digit bounds the library's own operations produce, including compressed, once-added and hand-placed extreme digits",
  "The tests compare vectors with the scalar code on random operands, so digits close to their bounds, cross-lane leakage that needs different lane contents, and operations not compared at all (selection, sign, wide forms) are unreached.",
  ["src/eltfp25519_2w_redradix.c", "src/eltfp25519_4w_redradix.c", "src/fp255.c"],
  [{"name": "AVX2 lane-parallel radix-2^25.5 arithmetic with lazy compression", "where": "src/eltfp25519_2w_redradix.c, src/eltfp25519_4w_redradix.c"}],
  "online monitor: exact GMP oracle per lane", "Per-lane exact comparison with extreme digits and unrelated lanes. " + TR)
P("C04", "Fp448 vector operations compute every lane independently and exactly",
  "The 2-lane and 4-lane operations of the 2^448-2^224-1 field give in each lane a value congruent to the exact scalar result for that lane's operands, whatever the other lanes contain. Interleaving and de-interleaving concern exactly the lanes they name. Carry compression never changes the residue of a lane.",
  ["inputs", "programs"], "all lane contents inside the digit bounds the library's own operations produce, including compressed, once-added and hand-placed extreme digits",
  "The tests have no vector test for this field with extreme digits; most vector operations have no test at all.",
  ["src/eltfp448_2w_redradix.c", "src/eltfp448_4w_redradix.c", "src/fp448.c"],
  [{"name": "AVX2 lane-parallel radix-2^28 Karatsuba arithmetic with lazy compression", "where": "src/eltfp448_2w_redradix.c, src/eltfp448_4w_redradix.c"}],
  "online monitor: exact GMP oracle per lane", "Per-lane exact comparison with extreme digits and unrelated lanes. " + TR)
P("C05", "Every build option and instruction-set path gives the same results",
  "Diffie-Hellman keys and secrets, signatures, verification verdicts, digests, hash-to-curve points and the values of field operations do not depend on the build: any conditional-swap method, either processor tuning, with or without the multiply and carry instruction extensions, any target processor with AVX2, any supported optimisation level and either compiler. All of them equal the specified values.",
  ["configurations", "inputs"], "the product of the compile-time options offered by the headers and the instruction-set switches with all inputs of the public API",
  "The tests run one build only; code selected by the other options is not even compiled.",
  ["include/faz_ecdh_avx2.h", "include/simd_avx2.h", "src/ladder255.c", "src/ladder448.c", "src/edwards255.c", "src/edwards448.c", "src/eltfp25519_1w_fullradix.c", "src/eltfp448_1w_fullradix.c"],
  [{"name": "SWAP_METHOD selection", "where": "include/faz_ecdh_avx2.h"}, {"name": "PROCESSOR selection", "where": "include/simd_avx2.h"}, {"name": "__ADX__/__BMI2__ code paths", "where": "src/eltfp25519_1w_fullradix.c, src/eltfp448_1w_fullradix.c"}],
  "differential monitor over a build matrix, exact reference", "Each configuration is rebuilt from the current tree and judged by the same oracle. " + TR)
P("C06", "X25519 shared secrets are RFC 7748 exact in both implementations",
  "For every 32-byte private key and every 32-byte peer value, including low-order, twist and non-canonical ones, both implementations write exactly the RFC 7748 X25519 function value and return success. The three low and two high scalar bits and the top bit of the peer value have no influence. Key and peer buffers are left unchanged, at any alignment.",
  ["inputs"], "all 2^256 private keys times all 2^256 peer encodings",
  "The tests use RFC vectors and random pairs; low-order points, values in [p, 2^255), masked bits and ladder states with extreme limbs are not sampled.",
  ["src/ladder255.c", "src/dh255.c", "include/faz_ecdh_avx2.h"],
  [{"name": "AVX2 and 64-bit Montgomery ladders", "where": "src/ladder255.c"}], "online monitor: RFC 7748 reference ladder", "Structured and random scalars and u-coordinates, every edge u swept. " + TR)
P("C07", "X448 shared secrets are RFC 7748 exact",
  "For every 56-byte private key and every 56-byte peer value, including low-order, twist and non-canonical ones, the shared secret is exactly the RFC 7748 X448 function value and the call returns success. The two low bits and the top bit of the scalar are forced as specified. Key and peer buffers are left unchanged, at any alignment.",
  ["inputs"], "all 2^448 private keys times all 2^448 peer encodings",
  "The tests use RFC vectors and random pairs; low-order points, values in [p, 2^448), masked bits and extreme limbs are not sampled.",
  ["src/ladder448.c", "src/dh448.c", "include/faz_ecdh_avx2.h"], [{"name": "AVX2 Montgomery ladder", "where": "src/ladder448.c"}],
  "online monitor: RFC 7748 reference ladder", "Structured and random scalars and u-coordinates, every edge u swept. " + TR)
P("C08", "Diffie-Hellman public keys equal scalar times base; both sides agree",
  "The public key written for any private key is the Montgomery function of that key at the standard base point (u=9, u=5), for every implementation of each curve. Two parties that exchange such public keys obtain the same secret, whichever implementations they use. Private keys are left unchanged and masked bits have no influence.",
  ["inputs"], "all private keys and all pairs of private keys, every pairing of implementations",
  "Key generation uses a different algorithm (precomputed multiples, right-to-left) than the ladder; the tests only compare them on random keys, never on scalars whose partial sums meet the exceptional cases.",
  ["src/ladder255.c", "src/ladder448.c", "src/dh255.c", "src/dh448.c"], [{"name": "right-to-left Montgomery ladder over precomputed doublings of the base", "where": "src/ladder255.c, src/ladder448.c"}],
  "online monitor: RFC 7748 reference ladder", "Includes every scalar within 64 of the first multiples of the group order and all one-bit patterns. " + TR)
P("C11", "Ed25519 keys and signatures are byte-for-byte RFC 8032",
  "For every seed, message and context, the public key and the signature produced in the pure, context and prehash modes of Ed25519 are exactly the bytes RFC 8032 defines, and the calls return their success codes. Signing is deterministic and changes none of its inputs.",
  ["inputs"], "all seeds, messages of any length, contexts of 0 to 255 bytes, three modes",
  "The tests check a few RFC vectors and self-consistency; scalar recoding, table lookup and modular reduction errors that appear for rare scalars are self-consistent or too rare for them.",
  ["src/sign255.c", "src/ed255.c", "src/edwards255.c", "include/faz_eddsa_avx2.h", "include/table_sign_w4_24k_ed25519.h"],
  [{"name": "fixed-base multiplication with precomputed tables", "where": "src/edwards255.c"}, {"name": "scalar multiplication and reduction modulo the order", "where": "src/sign255.c"}],
  "online monitor: RFC 8032 reference on GMP", "Random and structured seeds, messages and contexts at every block boundary. " + TR)
P("C12", "Ed448 keys and signatures are byte-for-byte RFC 8032",
  "For every seed, message and context, the public key and the signature produced in the plain and prehash modes of Ed448 are exactly the bytes RFC 8032 defines, and the calls return their success codes. Signing is deterministic and changes none of its inputs.",
  ["inputs"], "all seeds, messages of any length, contexts of 0 to 255 bytes, two modes",
  "The tests check a few RFC vectors and self-consistency; rare carries of the 446-bit scalar arithmetic are self-consistent or too rare for them.",
  ["src/sign448.c", "src/ed448.c", "src/edwards448.c", "include/faz_eddsa_avx2.h"],
  [{"name": "fixed-base multiplication with precomputed tables", "where": "src/edwards448.c"}, {"name": "scalar multiplication and reduction modulo the order", "where": "src/sign448.c, src/edwards448.c"}],
  "online monitor: RFC 8032 reference on GMP", "Random and structured seeds, messages and contexts at every block boundary. " + TR)
P("C13", "Every honestly generated signature verifies",
  "A signature made by the library with a key pair made by the library is accepted by the library's verification for the same message, context and mode, for Ed25519 and Ed448. This holds for every seed, message and context.",
  ["inputs"], "all seeds, messages and contexts, five modes",
  "The failing inputs of such an implementation are arithmetic accidents of probability 2^-20 and below in the verification's variable-time double multiplication; the tests make a few thousand signatures (one seed in about 10^6 failed before the repairs).",
  ["src/sign255.c", "src/sign448.c", "src/edwards255.c", "src/edwards448.c"], [{"name": "interleaved signed-digit double-base multiplication", "where": "src/edwards255.c, src/edwards448.c"}],
  "online monitor: round-trip invariant at volume", "Hundreds of thousands to millions of round trips per run, no reference in the loop. " + TR)
P("C14", "Ed25519 verification accepts exactly the valid signatures",
  "Verification accepts exactly when the public key decodes to a curve point, S is below the group order and the signature equation holds with R compared as bytes; everything else is rejected with an error code. No altered bit of signature, key, message or context is accepted, S plus a multiple of the order is rejected, and non-canonical or off-curve keys never verify.",
  ["inputs"], "all public keys, signatures, messages and contexts, three modes, including values chosen by an attacker with the private key",
  "The tests verify honest signatures and a few corruptions; malleated, non-canonical, small-order and mixed-order inputs need an adversary who builds them.",
  ["src/sign255.c", "src/edwards255.c", "src/bytestring.c"], [{"name": "range check of S, point decoding, byte comparison of R", "where": "src/sign255.c, src/edwards255.c"}],
  "online monitor: exact verdict oracle on adversarial inputs", "Adversarial families: malleability, torsion, non-canonical encodings, off-curve keys, structured scalars, single-bit changes. " + TR)
P("C15", "Ed448 verification accepts exactly the valid signatures",
  "Verification accepts exactly when the public key decodes canonically to a curve point, S is below the group order and the signature equation holds; everything else is rejected with an error code. No altered bit of signature, key, message or context is accepted, S plus a multiple of the order is rejected, and non-canonical or off-curve keys never verify. For keys or R with a small-order component either of the two equations RFC 8032 permits may be used.",
  ["inputs"], "all public keys, signatures, messages and contexts, two modes, including values chosen by an attacker with the private key",
  "The tests verify honest signatures and a few corruptions; malleated, non-canonical, small-order and mixed-order inputs need an adversary who builds them.",
  ["src/sign448.c", "src/edwards448.c", "src/bytestring.c"], [{"name": "range check of S, point decoding, comparison of R", "where": "src/sign448.c, src/edwards448.c"}],
  "online monitor: exact verdict oracle on adversarial inputs", "Adversarial families: malleability, torsion, non-canonical encodings, off-curve keys, structured scalars, single-bit changes. " + TR)
P("C16", "Signature modes and contexts are separated; long contexts are refused",
  "A signature made in one mode or under one context is not accepted in another mode or under another context, and swapping bytes between context and message changes the signature. A context longer than 255 bytes is refused with the context error by signing and verification, and signing then writes no signature.",
  ["inputs", "histories"], "all pairs of modes and of contexts (equal, prefix, extended, shifted into the message), all context lengths",
  "The tests sign and verify within one mode; separation is a statement about pairs of calls.",
  ["src/sign255.c", "src/sign448.c", "src/ed255.c", "src/ed448.c"], [{"name": "domain-separation prefix with mode flag and context length", "where": "src/sign255.c, src/sign448.c"}],
  "online monitor: cross-mode and cross-context pairs", "Every ordered pair of modes and context relations. " + TR)
P("C17", "SHA-512 and SHA-384 equal FIPS 180-4 however the input is cut",
  "The SHA-512 and SHA-384 digests equal FIPS 180-4 for every message, whatever the sequence of chunk sizes it is supplied in, including empty chunks, trailing bits and totals beyond 2^32 bits. Input is not modified, a finished context can be reused as a fresh one, and copies of a running context continue independently.",
  ["inputs", "histories"], "all messages and all ways to cut them into update calls, all alignments, interleaved contexts",
  "The tests never cut a message into pieces and use only a few lengths.", ["third_party/sha512.c", "third_party/sha512.h"],
  [{"name": "block buffering and length accounting", "where": "third_party/sha512.c"}], "online monitor: FIPS 180-4 reference over update histories", "All short lengths and split points swept, random histories, one stream beyond 2^32 bits. " + TR)
P("C18", "SHA-3 and SHAKE equal FIPS 202 for every length and cut",
  "SHA3-224/256/384/512 digests and SHAKE128/SHAKE256 outputs of any requested length equal FIPS 202 for every message, those beyond 2^32 bits or bytes included, whatever whole-byte chunks it is supplied in and at any buffer alignment. Exactly the requested bytes are written and the input is not modified.",
  ["inputs", "histories"], "all messages, chunkings, output lengths and alignments",
  "Tests only reach the sponge through Ed448 with short inputs; rate boundaries, partial lanes, bit tails and long outputs are not covered.", ["third_party/sha3.c", "third_party/sha3.h"],
  [{"name": "sponge absorb/squeeze with partial lanes", "where": "third_party/sha3.c"}], "online monitor: FIPS 202 reference over update histories", "All short lengths swept for all variants, random histories, one stream beyond 2^32 bits. " + TR)
P("C19", "Two-way SHA-512 equals two independent SHA-512 computations",
  "The vectorised hash of two equally long messages writes for each of them exactly its SHA-512 digest, whatever the other message is. This holds for every length, including those around block and padding boundaries and beyond 2^32 bits, and at any alignment; only the two digests are written.",
  ["inputs"], "all pairs of messages of every common length", "The only existing use is hash-to-curve with a fixed 256-byte message; other lengths and lane independence are not tested.",
  ["third_party/sha512_2way.c", "third_party/multi_hash.h"], [{"name": "two-lane message schedule and padding", "where": "third_party/sha512_2way.c"}],
  "online monitor: FIPS 180-4 reference per lane", "Every length up to 1299 swept, independent and equal lanes, one stream beyond 2^32 bits. " + TR)
P("C20", "Hash-to-curve is the specified map, equal in both implementations",
  "For every message both implementations return the same point: the sum of the Elligator 2 images, on edwards25519, of the two field elements obtained by reducing the prefixed SHA-512 digests modulo the group order, multiplied by the cofactor. The result is on the curve and in the prime-order subgroup. The curve-membership and equality predicates are exact for every coordinate pair, canonical or not.",
  ["inputs"], "all messages; all pairs of field elements for the map, exceptional and colliding ones included; all coordinate pairs for the predicates",
  "The tests check curve membership and agreement on random messages of one length; a map that is wrong the same way in both implementations, exceptional field elements and rare digit overflows (one was repaired) pass.",
  ["src/hash255.c", "src/edwards255.c", "include/faz_hash_avx2.h"], [{"name": "Elligator 2 with constant-time selection, cofactor clearing", "where": "src/hash255.c"}],
  "online monitor: GMP reference map, adversarial hash oracle", "Real digests and adversarially chosen ones (zero, equal, opposite images, extreme limbs). " + TR)
P("C21", "Scalar arithmetic modulo the group order is exact for every digest",
  "Keys, signatures and verdicts are right whatever value the hash functions return: digests that are multiples of the group order, one off such a multiple, all ones, or made of carry-critical patterns give exactly the key, signature or verdict that integer arithmetic modulo the order defines. Written S values are always fully reduced.",
  ["inputs"], "all 512-bit (Ed25519) and 912-bit (Ed448) hash values in every role: seed expansion, nonce and challenge",
  "No message that hashes to such a value can be found, so a test that goes through the real hash cannot reach these operands at all, while a defect there breaks rare real keys (three were repaired).",
  ["src/sign255.c", "src/sign448.c", "src/edwards255.c", "src/edwards448.c"], [{"name": "reduction modulo the order, multiply-add modulo the order, scalar recoding", "where": "src/sign255.c, src/sign448.c, src/edwards255.c, src/edwards448.c"}],
  "online monitor with an adversarial hash oracle", "The library is linked against a hash whose digests are chosen; the reference uses the same hash. Assumes the library reaches its hashes through the third_party entry points, otherwise no verdict. " + TR)

sys.modules["spec"] = sys.modules[__name__]
import extra_spec  # noqa: E402,F401


def main():
    sys.path.insert(0, os.path.join(HERE, "monitor"))
    import jobs
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for s in SPEC:
            assert len(s["title"]) <= 80, s["title"]
            d = {"id": s["id"], "title": s["title"], "statement": s["statement"],
                 "quantifier": {"over": s["over"], "text": s["qtext"]}, "why_tests_cant": s["why"],
                 "anchors": {"files": s["files"], "mechanism": s["mech"]}}
            if s["state"]:
                d["anchors"]["state"] = s["state"]
            if s["observe"]:
                d["anchors"]["observe_at"] = s["observe"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    checks, na = [], []
    for s in SPEC:
        if s["id"] not in jobs.PROPS:
            continue
        checks.append({"property": s["id"], "quick_cmd": "python3 check.py %s quick" % s["id"],
                       "thorough_cmd": "python3 check.py %s thorough" % s["id"], "evidence_file": "evidence/%s.json" % s["id"],
                       "technique": s["technique"], "level": s["level"], "level_note": s["note"]})
    have = {c["property"] for c in checks}
    for s in SPEC:
        if s["id"] not in have:
            na.append({"property": s["id"], "reason": extra_spec.NOT_APPLICABLE[s["id"]]})
    m = {"version": 1, "setup_cmd": "python3 selftest.py",
         "hooks": {"guard": "FAZ_MONITOR", "enable": "no hook was needed: the monitors observe the public tables, the exported symbols, the operating system calls and guarded memory", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "Fixes of genuine defects are listed in known-findings.txt. See DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
    print(len(SPEC), "properties,", len(checks), "checks")


if __name__ == "__main__":
    sys.modules["spec"] = sys.modules["__main__"]
    main()
