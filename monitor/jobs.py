"""What is built and run for each property: build configurations, drivers, jobs."""

WARN = ["-w", "-std=c99", "-m64", "-DNDEBUG", "-fPIC"]
NATIVE = ["-mavx2", "-mbmi2", "-march=native", "-mtune=native"]
CXXN = ["-O2", "-std=c++17", "-w", "-march=native"]


def cfg(cc="gcc", opt="-O3", arch=NATIVE, extra=(), cxxextra=(), ldflags=(), sed=(), cxx="g++", cxxopt=None):
    cxxflags = list(CXXN)
    if cxxopt:
        cxxflags[0] = cxxopt
    return {"cc": cc, "cflags": WARN + [opt] + list(arch) + list(extra), "cxx": cxx,
            "cxxflags": cxxflags + list(cxxextra), "ldflags": list(ldflags), "sed": list(sed)}


SAN = ["-g", "-fno-omit-frame-pointer", "-fsanitize=address", "-mno-avx512f"]   # gcc places 64-byte objects misaligned on ASan fake stacks
UB = ["-g", "-fsanitize=undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all"]   # alignment: x86 vector types are loaded from any address on purpose
HSW = ["-mavx2", "-mbmi2", "-march=haswell"]   # what Valgrind can execute
TSAN = ["-g", "-fno-omit-frame-pointer", "-fsanitize=thread"]
SWAP = ("faz_ecdh_avx2.h", r"^(\s*#\s*define\s+SWAP_METHOD\s+)\w+")
PROC = ("simd_avx2.h", r"^(\s*#\s*define\s+PROCESSOR\s+)\w+")



def vcfg(extra=(), **kw):
    return cfg(arch=HSW, extra=["-g"] + list(extra), cxxextra=["-march=haswell", "-g"], **kw)


CONFIGS = {
    "k0": cfg(),                                                   # what the project's build produces
    "noadx": cfg(extra=["-mno-adx"]),                              # MULX without ADX code paths
    "nobmi2": cfg(extra=["-mno-adx", "-mno-bmi2"]),                # plain MUL code paths
    "haswell": cfg(arch=["-mavx2", "-mbmi2", "-march=haswell", "-mtune=haswell"], cxxextra=["-march=haswell"]),   # an older processor: no ADX, no AVX-512
    "x86v3": cfg(arch=["-march=x86-64-v3", "-madx"], cxxextra=["-march=x86-64-v3"]),
    "swaplogic": cfg(sed=[SWAP + (r"\1LOGIC",)]),
    "swapcmov": cfg(sed=[SWAP + (r"\1CMOV",)]),
    "haswellproc": cfg(sed=[PROC + (r"\1HASWELL",)]),
    "clang": cfg(cc="clang"),
    "O0": cfg(opt="-O0"),
    "clangO0": cfg(cc="clang", opt="-O0"),
    "Os": cfg(opt="-Os"),
    "O1": cfg(opt="-O1"),
    "O2": cfg(opt="-O2"),
    "adxonly": cfg(extra=["-mno-bmi2"]),                           # ADX without MULX
    "clangmul": cfg(cc="clang", extra=["-mno-adx", "-mno-bmi2"]),
    "clangmulx": cfg(cc="clang", extra=["-mno-adx"]),
    "clangmulO1": cfg(cc="clang", opt="-O1", extra=["-mno-adx", "-mno-bmi2"]),
    "clangO1": cfg(cc="clang", opt="-O1"),
    "clangO2": cfg(cc="clang", opt="-O2"),
    "clangOs": cfg(cc="clang", opt="-Os"),
    "mulO0": cfg(opt="-O0", extra=["-mno-adx", "-mno-bmi2"]),
    "mulO2": cfg(opt="-O2", extra=["-mno-adx", "-mno-bmi2"]),
    "clangmixed": cfg(cc="clang", sed=[SWAP + (r"\1CMOV",), PROC + (r"\1HASWELL",)]),
    "logicmul": cfg(extra=["-mno-adx", "-mno-bmi2"], sed=[SWAP + (r"\1LOGIC",)]),
    "broadwell": cfg(arch=["-march=broadwell"], cxxextra=["-march=broadwell"]),
    "asan": cfg(opt="-O1", extra=SAN, cxxextra=SAN, ldflags=["-fsanitize=address"]),
    "asannoadx": cfg(opt="-O1", extra=SAN + ["-mno-adx", "-mno-bmi2"], cxxextra=SAN, ldflags=["-fsanitize=address"]),
    "tsan": cfg(opt="-O1", extra=TSAN, cxxextra=TSAN, ldflags=["-fsanitize=thread"]),
    "tsanclang": cfg(cc="clang", opt="-O1", extra=TSAN, cxxextra=TSAN, ldflags=["-fsanitize=thread"], cxx="clang++"),
    "ub": cfg(opt="-O1", extra=UB, ldflags=["-fsanitize=undefined"]),
    "ubnoadx": cfg(opt="-O1", extra=UB + ["-mno-adx", "-mno-bmi2"], ldflags=["-fsanitize=undefined"]),
    "ubclang": cfg(cc="clang", opt="-O1", extra=UB, ldflags=["-fsanitize=undefined"], cxx="clang++"),
    "vg": vcfg(extra=["-madx"]),
    "vgmulx": vcfg(),
    "vgnobmi2": vcfg(extra=["-mno-bmi2"]),
    "vgO0": vcfg(opt="-O0"),
    "vgO1": vcfg(opt="-O1"),
    "vgO2": vcfg(opt="-O2", extra=["-madx"]),
    "vgOs": vcfg(opt="-Os"),
    "vgclang": vcfg(cc="clang", extra=["-madx"]),
    "vgclangO1": vcfg(cc="clang", opt="-O1"),
    "vgclangO2": vcfg(cc="clang", opt="-O2"),
    "vgclangOs": vcfg(cc="clang", opt="-Os"),
    "vglogic": vcfg(extra=["-madx"], sed=[SWAP + (r"\1LOGIC",)]),
    "vgcmov": vcfg(extra=["-madx"], sed=[SWAP + (r"\1CMOV",)]),
    "vgcmovclang": vcfg(cc="clang", sed=[SWAP + (r"\1CMOV",)]),
    "vglogicclang": vcfg(cc="clang", sed=[SWAP + (r"\1LOGIC",)]),
}

HMAP_LD = ["-Wl,--allow-multiple-definition"]
DRIVERS = {
    "fp": {"src": "fp.cpp"},
    "dh": {"src": "dh.cpp"},
    "eddsa": {"src": "eddsa.cpp"},
    "eddsah": {"src": "eddsa.cpp", "cxxflags": ["-DHMAP"], "ldflags": HMAP_LD},
    "hash": {"src": "hash.cpp"},
}

COMMON_ASSUMPTIONS = [
    "x86-64 with AVX2/BMI2/ADX, the compilers installed in the sandbox; exact results come from a reference written "
    "from the RFCs on GMP integers, itself checked against Python's hashlib and the RFC vectors by setup_cmd",
    "exploration: the verdict covers the executions made, not every input",
]


def j(driver, cmd, cfg="k0", quick=1, thorough=1, **kw):
    d = {"driver": driver, "cmd": cmd, "cfg": cfg, "quick": quick, "thorough": thorough}
    d.update(kw)
    return d


PROPS = {}


def prop(pid, rule, jobs, **kw):
    d = {"rule": rule, "jobs": jobs}
    d.update(kw)
    PROPS[pid] = d

DRIVERS["h2c"] = {"src": "h2c.cpp"}
DRIVERS["h2ch"] = {"src": "h2c.cpp", "cxxflags": ["-DHMAP"], "ldflags": HMAP_LD}

FPRULE = ("operands: uniform words, words built from 0/1/~0/single bits/runs, values within 2^20 of 0, p, 2p, 2^k, (p-1)/2, "
          "for vectors digits at their bounds; arguments aliased at random; straight-line programs of 24 operations. "
          "A case is one call (or program) judged by GMP; distinct counts different operation+operand+alias hashes")
prop("C01", FPRULE, [j("fp", "full25519", quick=10, thorough=10, weight=4), j("fp", "red25519", quick=8, thorough=10, weight=4),
                     j("fp", "full25519", "noadx", quick=3, thorough=3), j("fp", "full25519", "nobmi2", quick=3, thorough=3),
                     j("fp", "full25519", "clang", quick=2, thorough=2), j("fp", "red25519", "clang", quick=2, thorough=2)])
prop("C02", FPRULE, [j("fp", "full448", quick=8, thorough=10, weight=4), j("fp", "red448", quick=6, thorough=8, weight=4),
                     j("fp", "full448", "noadx", quick=3, thorough=3), j("fp", "full448", "nobmi2", quick=3, thorough=3),
                     j("fp", "full448", "clang", quick=2, thorough=2), j("fp", "red448", "clang", quick=1.5, thorough=2)])
prop("C03", FPRULE, [j("fp", "vec25519", quick=4, thorough=8, weight=4), j("fp", "vec25519", "clang", quick=1, thorough=2)])
prop("C04", FPRULE, [j("fp", "vec448", quick=3, thorough=6, weight=4), j("fp", "vec448", "clang", quick=1, thorough=2)])

MATRIX = ["noadx", "nobmi2", "haswell", "x86v3", "swaplogic", "swapcmov", "haswellproc", "clang", "clangO0", "O0", "Os", "O1", "O2"]
c05 = []
for c in MATRIX:
    s = 0.25 if c in ("O0", "clangO0") else 0.5 if c in ("haswell", "x86v3") else 1
    c05 += [j("dh", "shared25519", c, quick=0.10 * s, thorough=0.5 * s, shards=2), j("dh", "shared448", c, quick=0.10 * s, thorough=0.4 * s, shards=2),
            j("dh", "keygen25519", c, quick=0.05 * s, thorough=0.4 * s, shards=1), j("dh", "keygen448", c, quick=0.05 * s, thorough=0.4 * s, shards=1),
            j("eddsa", "sign25519", c, quick=0.08 * s, thorough=0.4 * s, shards=1), j("eddsa", "sign448", c, quick=0.08 * s, thorough=0.4 * s, shards=1),
            j("eddsa", "round25519", c, quick=0.3 * s, thorough=1 * s, shards=1), j("eddsa", "round448", c, quick=0.3 * s, thorough=1 * s, shards=1),
            j("eddsa", "verify25519", c, quick=0.02 * s, thorough=0.1 * s, shards=1), j("eddsa", "verify448", c, quick=0.02 * s, thorough=0.05 * s, shards=1),
            j("hash", "sha2", c, quick=0.3, thorough=1, shards=1), j("hash", "sha3", c, quick=0.3, thorough=1, shards=1), j("hash", "sha2x2", c, quick=0.2, thorough=1, shards=1),
            j("h2c", "hash", c, quick=0.1 * s, thorough=0.5, shards=1)]
FPM = {"noadx": 1, "nobmi2": 1, "haswell": .25, "x86v3": .15, "haswellproc": .3, "clang": .2, "O0": .1, "clangO0": .1, "Os": .2, "O1": .2, "O2": .2}
for c, s in FPM.items():     # arithmetic: the extreme operands that keys and signatures do not reach
    c05 += [j("fp", d, c, quick=(s * (1.4 if d.startswith("full") else .3) if d[0] != "v" or s < 1 else .1), thorough=s * (6 if d.startswith("full") else 1.5), shards=2 if s == 1 else 1)
            for d in ("full25519", "full448", "red25519", "red448", "vec25519", "vec448")]
PRODUCT = ["adxonly", "clangmul", "clangmulx", "clangmulO1", "clangO1", "clangO2", "clangOs", "mulO0", "mulO2", "clangmixed", "logicmul", "broadwell"]
for c in PRODUCT:            # combinations of the options above
    c05 += [j("fp", d, c, quick=.15 if d.startswith("full") else .05, thorough=1.5 if d.startswith("full") else .5, shards=1) for d in ("full25519", "full448", "red25519", "red448", "vec25519", "vec448")]
    c05 += [j("dh", "shared25519", c, quick=.02, thorough=.2, shards=1), j("dh", "shared448", c, quick=.02, thorough=.2, shards=1), j("eddsa", "round25519", c, quick=.1, thorough=.5, shards=1), j("eddsa", "round448", c, quick=.1, thorough=.5, shards=1),
            j("eddsa", "sign25519", c, quick=.02, thorough=.2, shards=1), j("eddsa", "sign448", c, quick=.02, thorough=.2, shards=1)]
prop("C05", "the drivers of the other properties, run on every build configuration; a case is one judged call on one configuration",
     c05, min_evaluations=10000)

prop("C06", "scalars: uniform, single bits, runs, limb patterns, j*order+-64; u: uniform, around p and 2p, low order, every value p-24..p+24 with and "
     "without bit 255, points of the curve and of the twist; each against both implementations. Distinct by (scalar, u, implementation)",
     [j("dh", "shared25519", quick=3, thorough=3), j("dh", "shared25519", "noadx", quick=0.4, thorough=0.5), j("dh", "shared25519", "swaplogic", quick=0.3, thorough=0.3), j("dh", "shared25519", "swapcmov", quick=0.3, thorough=0.3)])
prop("C07", "scalars: uniform, single bits, runs, limb patterns, j*order+-64; u: uniform, around p, low order, every value p-24..p+24, points of the "
     "curve and of the twist. Distinct by (scalar, u)",
     [j("dh", "shared448", quick=2.5, thorough=3), j("dh", "shared448", "noadx", quick=0.4, thorough=0.5), j("dh", "shared448", "swaplogic", quick=0.3, thorough=0.3), j("dh", "shared448", "swapcmov", quick=0.3, thorough=0.3)])
prop("C08", "every scalar within 64 of j*order (j=1..8), every 2^i, 2^i-1 and complement, then random and structured scalars; agreement on random pairs "
     "with every pairing of implementations. Distinct by scalar (pair) and implementation",
     [j("dh", "keygen25519", quick=3, thorough=3), j("dh", "keygen448", quick=3, thorough=3)])
EDRULE = ("seeds uniform and structured, messages of 0 to several thousand bytes around block boundaries, contexts of 0..255 bytes, buffers at any "
          "alignment with canaries; a case is one call judged against the reference, distinct by (mode, seed, message, context)")
prop("C11", EDRULE, [j("eddsa", "sign25519", quick=4, thorough=6, weight=4), j("eddsah", "sign25519", quick=1, thorough=2)])
prop("C12", EDRULE, [j("eddsa", "sign448", quick=5, thorough=8, weight=4), j("eddsah", "sign448", quick=1, thorough=2)])
prop("C13", "a case is keygen+sign+verify with fresh seed, message and context in one mode; the verdict must be acceptance. Distinct by (mode, seed, message)",
     [j("eddsa", "round25519", quick=6, thorough=8), j("eddsa", "round448", quick=6, thorough=8),
      j("eddsah", "verify25519", quick=0.15, thorough=0.5, keys=r".*(honest|valid)"), j("eddsah", "verify448", quick=0.1, thorough=0.4, keys=r".*(honest|valid)")])
VRULE = ("honest signatures, every kind of single-field change, single-bit flips, S plus multiples of the order, R and A among the small-order points and "
         "their non-canonical encodings, mixed-order keys, off-curve and non-canonical keys, signatures forged with chosen structured scalars; the exact "
         "verdict comes from the reference. Distinct by (key, signature, message, context)")
prop("C14", VRULE, [j("eddsa", "verify25519", quick=1, thorough=2), j("eddsah", "verify25519", quick=0.3, thorough=1)])
prop("C15", VRULE, [j("eddsa", "verify448", quick=0.7, thorough=2), j("eddsah", "verify448", quick=0.3, thorough=1)])
prop("C16", "ordered pairs of modes and of contexts (equal, prefix, extended by a byte, byte moved between context and message, length 256..400): the "
     "second call's verdict and output are judged. Distinct by (mode pair, contexts, message)",
     [j("eddsa", "modes25519", quick=4, thorough=6), j("eddsa", "modes448", quick=6, thorough=8)])
HRULE = ("every length below several block sizes, every split point of short messages, random update histories with empty chunks and interleaved or copied "
         "contexts, misaligned canaried buffers; one case is one digest (or output) compared with the reference")
prop("C17", HRULE, [j("hash", "sha2", quick=30, thorough=20), j("hash", "sha2long", quick=1, thorough=1, shards=2, weight=9)])
prop("C18", HRULE, [j("hash", "sha3", quick=25, thorough=20), j("hash", "sha3long", quick=1, thorough=1, shards=2, weight=9)])
prop("C19", HRULE, [j("hash", "sha2x2", quick=12, thorough=20), j("hash", "sha2x2long", quick=1, thorough=1, shards=2, weight=9), j("hash", "sha2x2", "clang", quick=3, thorough=3)])
prop("C20", "messages of 0..5000 bytes (some to 200 kB) around block boundaries; with the adversarial hash, digests that reduce to 0, to exceptional inputs, "
     "to equal or opposite images; map inputs over all 256-bit words; coordinate pairs on the curve, off by one bit, non-canonical. Distinct by input and implementation",
     [j("h2c", "hash", quick=4, thorough=6, weight=3), j("h2ch", "hash", quick=5, thorough=8, weight=3), j("h2c", "map", quick=3, thorough=5), j("h2c", "pred", quick=4, thorough=6),
      j("h2c", "long", quick=0, thorough=1, shards=1, weight=9)])
prop("C21", "the library linked against a hash oracle whose digests are multiples of the order plus or minus small or power-of-two offsets, all-equal bytes, "
     "runs of extreme 64-bit limbs, differences of powers of two, values around 0 and 2^n, nibble patterns critical for recoding; every key, signature and verdict is "
     "compared with integer arithmetic over the same oracle. Distinct by (mode, seed, message, context)",
     [j("eddsah", "sign25519", quick=5, thorough=8), j("eddsah", "sign448", quick=6, thorough=8), j("eddsah", "verify25519", quick=0.5, thorough=1.5), j("eddsah", "verify448", quick=0.35, thorough=1)])

# ---------------------------------------------------------------- execution environment
DRIVERS.update({
    "mem": {"src": "mem.cpp"}, "ct": {"src": "ct.cpp"}, "thr": {"src": "thr.cpp"}, "rng": {"src": "rng.cpp"},
    "hist": {"src": "hist.cpp"}, "wipe": {"src": "wipe.cpp"}, "obj": {"src": "obj.cpp"},
    "huge": {"src": "huge.cpp", "ldflags": HMAP_LD},
})
VG = ["valgrind", "-q", "--error-limit=no"]
G = {"end": ["--guard=end"], "start": ["--guard=start"], "heap": ["--guard=heap"], "mc": ["--guard=heap", "--memcheck"]}

huge = [("C11", r"Ed25519.*\.sign"), ("C12", r"Ed448.*\.sign"), ("C13", r".*\.verify\.length"), ("C14", r"Ed25519.*\.verify"), ("C15", r"Ed448.*\.verify")]
for pid, keys in huge:
    PROPS[pid]["jobs"].append(j("huge", "eddsa", quick=0.5, thorough=1, keys=keys))
PROPS["C20"]["jobs"].append(j("huge", "h2c", quick=1, thorough=1))

ALLAPI = [("dh", "shared25519"), ("dh", "shared448"), ("dh", "keygen25519"), ("dh", "keygen448"), ("eddsa", "sign25519"), ("eddsa", "sign448"),
          ("eddsa", "modes25519"), ("eddsa", "modes448"), ("eddsa", "round25519"), ("eddsa", "round448"), ("eddsa", "verify25519"), ("eddsa", "verify448"),
          ("hash", "sha2"), ("hash", "sha3"), ("hash", "sha2x2"), ("h2c", "hash"), ("h2c", "map"), ("h2c", "pred"), ("mem", "fp25519"), ("mem", "fp448"),
          ("fp", "full25519"), ("fp", "red25519"), ("fp", "full448"), ("fp", "red448"), ("fp", "vec25519"), ("fp", "vec448")]
HASHY = {"hash"}


def native(guard, q, t, cfgname="k0", skip=("fp",), shards=2):
    r = []
    for d, c in ALLAPI:
        if d in skip:
            continue
        m = {"hash": 10, "mem": 3}.get(d, 1) * (0.25 if c.startswith("verify") else 1)
        r.append(j(d, c, cfgname, quick=q * m, thorough=t * m, shards=shards, args=G[guard], weight=2 if c.startswith(("verify", "sign")) else 1))
    return r


MC = {"shared25519": .002, "shared448": .002, "keygen25519": .0006, "keygen448": .0003, "modes25519": .002, "modes448": .002, "round25519": .002, "round448": .002,
      "sign25519": .0012, "sign448": .001, "sha2": .1, "sha3": .1, "sha2x2": .1, "hash": .005, "map": .001, "pred": .001, "fp25519": .02, "fp448": .02}
HEAVY = {"keygen448", "keygen25519", "sign448", "sign25519"}
for _c in HEAVY:
    MC[_c] *= 12
c22 = native("end", .05, .6) + native("start", .03, .4) + native("heap", .02, .3)
c22 += [dict(x, cfg=c, args=G[g]) for c, g in (("asan", "heap"), ("asannoadx", "heap")) for x in native("heap", .02 if c == "asan" else .01, .25)]
c22 += native("end", .02, .3, "O0", shards=1) + native("end", .03, .4, "nobmi2", shards=1) + native("end", .02, .4, "clang", shards=1)
c22 += [j(d, c, "vg", quick=MC[c], thorough=MC[c] * 8, shards=2, of=24 if c in HEAVY else 2, args=G["mc"], prefix=VG, weight=6) for d, c in ALLAPI if c in MC]
c22 += [j("obj", "heap", "asan", quick=.2, thorough=1, shards=2), j("obj", "heap", quick=.3, thorough=1, shards=2)]
prop("C22", "every buffer handed to the library ends (or begins) exactly at an inaccessible page, or is an exactly sized heap block, under AddressSanitizer and Valgrind memcheck builds "
     "as well; all bytes around it are canaried and inputs compared after the call. A case is one library call; distinct by operation and operands", c22, min_evaluations=20000)

UBS = {"shared25519": .05, "shared448": .03, "keygen25519": .02, "keygen448": .02, "verify25519": .01, "verify448": .005, "sha2": 1, "sha3": 1, "sha2x2": .5, "fp25519": .1, "fp448": .1,
       "full25519": .05, "red25519": .05, "full448": .05, "red448": .05, "vec25519": .05, "vec448": .05}
c23 = [j(d, c, k, quick=UBS.get(c, .02), thorough=UBS.get(c, .02) * 12, shards=2, weight=2 if c.startswith("verify") else 1) for k in ("ub", "ubclang", "ubnoadx") for d, c in ALLAPI]
c23 += [j("rng", "keys", k, quick=.1, thorough=1, shards=1) for k in ("ub", "ubclang")] + [j("huge", "eddsa", "ub", quick=.05, thorough=.5, shards=2)]
prop("C23", "the drivers of the other properties on library builds whose every arithmetic shift, index, pointer, signed operation and null argument is checked by UndefinedBehaviorSanitizer; "
     "a case is one library call that returned without a report", c23, min_evaluations=20000)

prop("C24", "rounds in which 8 threads call randomly chosen operations at once on shared read-only inputs; every result is compared with the reference, ThreadSanitizer builds report unsynchronised accesses. "
     "A case is one call inside a thread; distinct by (operation, round, thread)",
     [j("thr", "run", quick=12, thorough=300, shards=4), j("thr", "run", "O0", quick=4, thorough=8, shards=2), j("thr", "run", "tsan", quick=1.2, thorough=12, shards=6), j("thr", "run", "tsanclang", quick=1.2, thorough=12, shards=6)], threads=8)

CTC = ["vg", "vgmulx", "vgnobmi2", "vgO0", "vgO1", "vgO2", "vgOs", "vgclang", "vgclangO1", "vgclangO2", "vgclangOs"]
c25 = [j("ct", c, k, quick=.5 if k == "vg" else .2, thorough=5 if k == "vg" else 2, shards=1 if k != "vg" else 2, prefix=VG) for k in CTC for c in ("dh", "eddsa", "h2c")]
c25 += [j("ct", "dh", k, quick=.2, thorough=2, shards=1, prefix=VG) for k in ("vglogic", "vgcmov", "vgcmovclang", "vglogicclang")]
prop("C25", "secret bytes are marked undefined and the operation runs under Valgrind memcheck, which reports every conditional jump and every load or store address that depends on them; a probe with a "
     "known leak must fire in every run. A case is one operation on one secret; distinct by (operation, secret)", c25)

WC = ["k0", "clang", "O0", "O1", "O2", "Os", "clangO0", "noadx", "nobmi2", "swaplogic", "swapcmov"]
prop("C26", "the operation runs on a stack of its own, pre-filled with a pattern; afterwards every byte of it, and in every fourth case all writable static and heap memory, is searched for any 16 consecutive bytes of the private key, raw or clamped. "
     "A case is one operation on one key; distinct by (operation, key)", [j("wipe", "dh", k, quick=.1 if k != "k0" else .6, thorough=1, shards=1 if k != "k0" else 4) for k in WC], quorum={r"\.residue_short$": 8})

prop("C27", "the operating-system calls below the generator are interposed: short reads, EINTR, other errors, end of file, failing open, at every call index, and the stream delivered is known. A case is "
     "one request (or one key) judged byte for byte", [j("rng", "faults", quick=1, thorough=3), j("rng", "keys", quick=1, thorough=3), j("rng", "big", quick=1, thorough=3), j("rng", "unique", quick=1, thorough=3, shards=2),
     j("rng", "faults", "clang", quick=.3, thorough=1, shards=2), j("rng", "keys", "clang", quick=.3, thorough=1, shards=2), j("rng", "faults", "O0", quick=.3, thorough=1, shards=2)])

HC = ["clang", "O0", "clangO0", "Os", "O1", "noadx", "nobmi2"]
c28 = []
for c in ("api", "fp25519", "fp448"):
    c28 += [j("hist", c, quick=2, thorough=20), j("hist", c, quick=1, thorough=10, shards=4, args=["--signals"])]
    c28 += [j("hist", c, k, quick=.25 if "O0" in k else .5, thorough=5, shards=2) for k in HC]
c28 += [j("hist", "api", quick=1, thorough=10, shards=16, args=["--step"])] + [j("hist", "api", k, quick=0, thorough=1, shards=8, args=["--step"]) for k in ("clang", "noadx", "nobmi2")]
c28 += [j("hist", c, k, quick=1 if k == "k0" else .3, thorough=10, shards=4 if k == "k0" else 1, args=["--step"]) for c in ("fp25519", "fp448") for k in ("k0", "clang", "O0", "noadx", "nobmi2")]
prop("C28", "each operation is first run alone, then again inside random histories of other operations, from a trampoline that fills every caller-saved register, the flags and the stack below with random "
     "values and checks callee-saved registers, stack pointer, direction flag, MXCSR and x87 state on return; with --signals a timer interrupts it with a handler that clobbers vector registers and the stack below the red zone, with --step the trap flag runs such a handler after every single instruction. "
     "A case is one call whose outputs equal those of the first run", c28)

prop("C29", "the allocator is interposed: block sizes, alignment, failures at chosen calls, balance of allocations and releases around every operation; printing goes to a memory stream and is compared with the "
     "reference text. A case is one object life cycle, one printed object, or one operation with its heap account", [j("obj", c, k, quick=q, thorough=t, shards=4) for k in ("k0", "clang", "O0") for c, q, t in (("heap", 1, 5), ("print", 1, 5), ("balance", .5 if k == "k0" else .2, 3))])

DRIVERS["cpu"] = {"src": "cpu.cpp", "simulate": [
    ("{here}/harness/cpu.c", ['-DCPU_CAPS_C="{repo}/third_party/cpu_caps.c"'], ("{repo}/third_party/cpu_caps.c", r"\bcpu_has\s*\(", ["-DHAVE_CPU_HAS"])),
    ("{repo}/examples/cpu_id.c", ["-Dmachine_info=example_machine_info", "-Dmain=example_main"], None)]}
prop("C30", "the capability code runs on invented processors: its cpuid instructions are answered by the driver. All 4096 combinations of the twelve features with random, all-one and all-zero neighbouring bits, processors "
     "without the extended-feature leaf, and random register contents; a case is one printed report or one query, judged against the bit positions of the Intel manual",
     [j("cpu", "report", k, quick=1, thorough=5, shards=4) for k in ("k0", "clang", "O0")])
