"""Which monitors decide which property, in which build configurations."""

CT = "-C llvm-args=-x86-cmov-converter=0 -C llvm-args=-disable-cgp-select2branch"
CONFIGS = {
    # the two feature sets the repository tests; `-o3` as users build them,
    # the others at opt-level 1, which halves the build time
    "generic": {"profile": "quick"},
    "asm": {"profile": "quick", "features": "asm"},
    "generic-o3": {"profile": "release"},
    "asm-o3": {"profile": "release", "features": "asm"},
    # optimised, but selections without a branch in the source stay without one:
    # LLVM may turn any of them into a jump, depending on the code around
    "ct": {"profile": "release", "rustflags": CT},
    "ct-asm": {"profile": "release", "features": "asm", "rustflags": CT},
    # each feature alone
    "table-only": {"profile": "quick", "features": "table"},
    "asm-only": {"profile": "quick", "features": "asmonly"},
    # every overflow and debug assertion of the library becomes a panic
    "checked": {"profile": "checked"},
    "checked-asm": {"profile": "checked", "features": "asm"},
    # the guarded hook that exposes the GLV decomposition
    "hooks": {"profile": "quick", "rustflags": "--cfg verif_hooks", "fallback": True},
    # sanitizers: "soft" builds depend on the nightly toolchain and only add to
    # what the others decide
    "asan": {"profile": "quick", "features": "asm", "rustc": "nightly", "target": "x86_64-unknown-linux-gnu", "soft": True,
             "rustflags": "-Zsanitizer=address", "env": {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1"}},
    "tsan": {"profile": "tsan", "cargo": "nightly", "vendor": True, "target": "x86_64-unknown-linux-gnu", "soft": True,
             "args": ["-Zbuild-std"], "rustflags": "-Zsanitizer=thread",
             "env": {"TSAN_OPTIONS": "halt_on_error=0:exitcode=0:report_signal_unsafe=0:external_symbolizer_path=/usr/bin/llvm-symbolizer"}},
    # 32-bit words, and every overflow and debug assertion a panic
    "i686": {"profile": "checked", "cargo": "nightly", "vendor": True, "target": "i686-unknown-linux-gnu", "soft": True,
             "args": ["-Zbuild-std"], "link32": True, "features": "table"},
    # values held in registers across operations: the caller optimised
    "regs": {"profile": "regs", "features": "asm", "rustflags": "-C inline-threshold=1500"},
    "hooks-asm-o3": {"profile": "release", "rustflags": "--cfg verif_hooks", "features": "asm", "fallback": True},
}

BOTH = ("generic", "asm")
GENERIC = ("generic",)


def both(b, quick=1, thorough=20, confs=GENERIC, deep=("generic-o3", "asm-o3", "checked")):
    return {
        "quick": [{"bin": b, "conf": c, "scale": quick} for c in confs],
        "thorough": [{"bin": b, "conf": c, "scale": thorough / 5 if "checked" in c else thorough} for c in deep],
    }


def check(bins, rule, assumptions=(), **kw):
    d = {"rule": rule, "assumptions": list(assumptions), "quick": [], "thorough": []}
    for b in bins:
        x = both(b, **kw)
        d["quick"] += x["quick"]
        d["thorough"] += x["thorough"]
    return d


GEN = ("Field elements are drawn from: carry-adversarial limb patterns (all-ones / all-zero / single-bit limbs), boundary "
       "values (0, 1, p-1, (p-1)/2, R, R^2, 2^64k and neighbours), the same patterns imposed on the internal "
       "(Montgomery) limbs, integer literals of the sources, and uniform values. ")

CHECKS = {
    "C01": check(["c01"], GEN + "One evaluation = one operation of one of the 10 prime fields compared with BigUint; "
                 "non-trivial = not all operands in {0, 1}; distinct by (operation, operand limbs).", quick=4, confs=BOTH),
    "C02": dict(check(["c02"], "Scripts: bundles of operations of every field, extension tower, curve, codec, multi-exponentiation, transform, pairing and "
                     "hash of the library on inputs that are a function of the seed; the record of every case (all results, canonically "
                     "rendered) is compared between the builds without features, with asm and bn256-table (thorough: each alone, and at "
                     "opt-level 3). Conversions of 0..70000 and beyond are also checked against the integer. One evaluation = one case of one script.",
                     quick=0.4, thorough=6, confs=BOTH, deep=("generic", "asm", "table-only", "asm-only", "generic-o3", "asm-o3")), cross=True),
    "C03": check(["c03"], GEN + "One evaluation = one invert / sqrt / legendre / sqrt_ratio / batch inversion outcome "
                 "compared with its defining equation; non-trivial = operand not in {0, 1}.", quick=3, confs=BOTH),
    "C04": check(["c04"], GEN + "One evaluation = one byte string or field element pushed through an encoder/decoder pair; "
                 "non-trivial = value not 0 or 1, or a string that must be rejected.", quick=12, confs=BOTH),
    "C05": check(["c05"], GEN + "One evaluation = one integer or byte string converted into a field element (or one random "
                 "draw), compared with BigUint reduction; non-trivial = input not 0 or 1.", quick=16, confs=BOTH),
    "C06": check(["c06"], GEN + "One evaluation = one comparison, hash, selection or bit decomposition against BigUint; "
                 "non-trivial = operands not in {0, 1}.", quick=14, confs=BOTH),
    "C07": check(["c07"], GEN + "Elements of Fp2/Fp6/Fp12 are built from such coefficients, with zero / one / equal / "
                 "negated coefficient patterns; one evaluation = one operation compared with a BigUint polynomial-quotient "
                 "reference; non-trivial = not the zero or one element.", quick=4, confs=BOTH),
    "C08": check(["c08"], GEN + "One evaluation = one encoding or decoding of an Fp2 element; non-trivial as for C04.",
                 quick=30, confs=BOTH),
    "C09": check(["c09"], "Operands are on-curve points in affine and randomly rescaled projective/Jacobian form: the "
                 "identity, P, -P, doubles, small multiples, points of small order and outside of the subgroup where "
                 "they exist; one evaluation = one addition/doubling/negation compared with affine chord-and-tangent "
                 "arithmetic over BigUint; non-trivial = not both operands the identity.", quick=4, thorough=15),
    "C10": check(["c10"], "Scalars from the field generators (0, 1, n-1, 2^k, window patterns, dictionary) times points as in "
                 "C09; one evaluation = one scalar multiplication compared with reference double-and-add; non-trivial = "
                 "scalar not 0 or 1 and point not the identity.", quick=3, thorough=15),
    "C11": check(["c11"], "Points as in C09 in several representations each; one evaluation = one conversion, equality, "
                 "coordinate, curve-equation or hash observation against the reference point; non-trivial = point not the "
                 "identity.", quick=12, thorough=20),
    "C12": check(["c12"], "Encodings of points, and hostile byte strings: bit flips, non-canonical coordinates, off-curve and "
                 "out-of-subgroup coordinates, stray flag bits, x = 0, identity variants, uniform strings; one evaluation = "
                 "one encode or decode compared with the reference codec; non-trivial = not the identity.", quick=3,
                 thorough=12),
    "C13": check(["c13"], "Points of the whole curve group (subgroup members, small-order points, sums of both, uniform "
                 "curve points); one evaluation = one subgroup test or cofactor clearing compared with reference "
                 "multiplication by the group order / cofactor; non-trivial = not the identity.", quick=5, thorough=12),
    "C14": check(["c14"], "Scalars as in C10 plus lattice-boundary scalars; one evaluation = one endomorphism image or GLV "
                 "decomposition checked against k = k1 + k2*lambda (mod n) and its size bound; non-trivial = scalar not 0 "
                 "or 1.", quick=60, thorough=200, confs=("hooks",), deep=("hooks", "hooks-asm-o3")),
    "C15": check(["c15"], "Lists of scalars and points with known logarithms: lengths around the algorithm, chunk and window boundaries; "
                 "15 scalar patterns (zeros, one non-zero, equal, n-1, bytes, powers of two, fixed window digits, ...) times 11 point "
                 "patterns (distinct, equal, alternating signs, identities, sums that meet later bases, points outside of the subgroup, ...), "
                 "and periodic repetitions with sign flips; thread pools of 1 to 16 workers. One evaluation = one list through the serial, "
                 "parallel and best routines, compared with the sum computed from the logarithms; non-trivial = not empty.",
                 quick=3, thorough=25, deep=("generic-o3", "asm-o3", "checked")),
    "C16": check(["c16"], "Vectors of field elements of length 2^0..2^12 (2^16 thorough; constant, delta, alternating, padded, extreme and "
                 "uniform entries) and of curve points of length up to 32 with known logarithms; roots of unity computed from the published "
                 "generator, also their odd powers; thread pools of 1 to 64 workers. One evaluation = one vector: transform compared with "
                 "Horner evaluation at every (large: a dozen) index, then inverse; non-trivial = length above one.",
                 quick=4, thorough=60, deep=("generic-o3", "asm-o3", "checked")),
    "C18": check(["c18"], "Pairs and lists (0..13 terms, with identities, cancelling and repeated terms) of subgroup points with known logarithms, "
                 "target group elements with known logarithms, and structured elements of the extension field for the final exponentiation. "
                 "One evaluation = one pairing product or group operation compared with a power of a reference optimal ate pairing computed over "
                 "BigUint; non-trivial = some term without an identity.", quick=4, thorough=25, deep=("generic-o3", "asm-o3", "checked")),
    "C19": check(["c19"], "Messages of length 0..300 and beyond, domain prefixes of various lengths, and the map on every sign; one evaluation = one hash compared "
                 "with an RFC 9380 reference over BigUint (checked against published vectors), or one membership / separation observation; "
                 "non-trivial = message not empty.", quick=10, thorough=100),
    "C17": {"rule": "Histories of parallel calls: scripts of multi-scalar multiplications, transforms and all else, executed in pools of 1 to 33 workers (also pinned to two "
                    "cores), called in ten ways (inside and outside of pools, nested, from many threads at once, next to busy workers), with allocation points that "
                    "yield and signals that stop workers at arbitrary instructions; compared with the record from one worker. First uses of everything race in child "
                    "processes. The same runs under ThreadSanitizer, and a small part under Miri with several schedules. One evaluation = one execution; distinct by "
                    "(record, way, pool sizes); the classes count the distinct orders in which workers were seen.",
            "assumptions": ["ThreadSanitizer reports whose accesses are all in other crates (rayon, crossbeam) are noted, not judged"],
            "quick": [{"bin": "c17", "conf": "generic", "scale": 0.7}, {"bin": "c17", "conf": "tsan", "scale": 0.05}, {"bin": "miri", "conf": "miri", "parts": {"m": 4}}],
            "thorough": [{"bin": "c17", "conf": "generic-o3", "scale": 25}, {"bin": "c17", "conf": "asm-o3", "scale": 25}, {"bin": "c17", "conf": "tsan", "scale": 3},
                         {"bin": "miri", "conf": "miri", "parts": {"m": 200}}]},
    "C20": {"rule": "Scripts of every operation of the library and hostile calls (any bytes and lengths, empty and mismatched lists, any exponent, points off the "
                    "curve, any pairing argument) in a build where overflow and debug assertions panic and in one with AddressSanitizer; operands against unmapped "
                    "pages; canaries in every register, the flags and the red zone across field operations; parts under Miri. One evaluation = one call, script or "
                    "register observation; non-trivial = not all operands in {0, 1}.",
            "assumptions": ["Miri runs the build without assembly, on small workloads"],
            "quick": [{"bin": "c20", "conf": "checked", "scale": 0.7}, {"bin": "c20r", "conf": "regs", "scale": 40}, {"bin": "c20", "conf": "asan", "scale": 0.15},
                      {"bin": "miri", "conf": "miri", "parts": {"f": 1, "g": 1, "c": 1, "d": 1, "t": 1}}],
            "thorough": [{"bin": "c20", "conf": "checked", "scale": 40}, {"bin": "c20", "conf": "checked-asm", "scale": 40}, {"bin": "c20r", "conf": "asm-o3", "scale": 5000},
                         {"bin": "c20r", "conf": "regs", "scale": 5000}, {"bin": "c20", "conf": "asan", "scale": 10}, {"bin": "c20", "conf": "asm-o3", "scale": 40},
                         {"bin": "miri", "conf": "miri", "parts": {"f": 1, "g": 1, "c": 1, "d": 1, "t": 1, "m": 8}, "depth": 20}]},
    "C21": check(["c21"], "Elements of every field, quadratic extension and curve (affine and projective), written to and read from streams that follow a plan: "
                 "pieces of 1..16 or boundary sizes, interruptions, six kinds of errors, early end, too few bytes, trailing bytes, corrupted bytes; the same "
                 "through serde's binary format; histories of many values through one stream. One evaluation = one plan with one value, written and read; "
                 "non-trivial = plan not empty; distinct by (bytes, plan).", quick=20, thorough=300),
    "C22": dict(check(["c22"], "Histories of scripts (bundles of operations of every type of the library), each script repeated two to four times at random places, some on fresh "
                     "threads, while a seccomp filter traps all system calls other than memory management and thread synchronisation, getenv is interposed and the list of variables lies in an unreadable page, and "
                     "floating point control words and the live heap are compared before and after. The whole is run again in a noisy environment and the "
                     "records compared. One evaluation = one script execution; non-trivial = its first execution (distinct by result).",
                     quick=3, thorough=60), cross=True),
    "C23": check(["c23"], "One evaluation = one constant compared with its published value, or substituted into its defining equation over BigUint; the space is finite and "
                 "covered whole.", confs=BOTH, deep=("generic", "asm")),
    "C24": {"rule": "The scripts of C02, in a 64-bit build and in one for i686 (standard library rebuilt, native execution) with overflow and debug assertions; the "
                    "records of all cases are compared. Also, with their own oracles, the monitors of C15 (one curve, up to 70000 terms), of C16 (long vectors) and of C06 (bits of values and of the characteristic) in 32 bits. Thorough: also the monitors of C03, C06, C15, C16, C19 and C20, with their own oracles, in 32 bits. "
                    "One evaluation = one case of one script in one build.",
            "assumptions": ["i686 stands for the 32-bit targets (the repository is built for wasm32 in its continuous integration, which cannot be executed here)"],
            "quick": [{"bin": "c02", "conf": "generic", "scale": 0.25}, {"bin": "c02", "conf": "i686", "scale": 0.25},
                      {"bin": "c15", "conf": "i686", "scale": 0.3, "only": "bn256::G1/"}, {"bin": "c16", "conf": "i686", "scale": 0.5, "only": "/fft large"},
                      {"bin": "c06", "conf": "i686", "scale": 0.2}],
            "thorough": [{"bin": "c02", "conf": "generic", "scale": 4}, {"bin": "c02", "conf": "i686", "scale": 4}]
                        + [{"bin": b, "conf": "i686", "scale": 3} for b in ("c03", "c06", "c15", "c16", "c19", "c20")],
            "cross": True},
    "C25": {"rule": "Every operation that has to be constant-time, of every field, tower, group and target group, run under valgrind with its operands marked as "
                    "undefined: memcheck follows them through registers, flags and memory, and reports every conditional jump and every address that depends on "
                    "them. Optimised builds, generic and asm, without the LLVM passes that make jumps of selections. A control task checks in each run that a branch and a table lookup are reported and a masked select is "
                    "not. One evaluation = one operation on one set of operands.",
            "assumptions": ["instructions take a time that does not depend on their operands", "the compiler of the other users makes of the code what the one here makes of it"],
            "quick": [{"bin": "c25", "conf": c, "threads": 1, "valgrind": ["--tool=memcheck"]} for c in ("ct", "ct-asm")],
            "thorough": [{"bin": "c25", "conf": c, "threads": 1, "valgrind": ["--tool=memcheck"]} for c in ("ct", "ct-asm")]},
}

NOISE = {"RAYON_NUM_THREADS": "3", "RUST_LOG": "trace", "RUST_BACKTRACE": "full", "LC_ALL": "tr_TR.UTF-8", "LANG": "tr_TR.UTF-8", "TZ": "Asia/Kathmandu",
         "HOME": "/nonexistent", "DEBUG": "1", "VERBOSE": "1", "CI": "1", "SOURCE_DATE_EPOCH": "1", "TMPDIR": "/nonexistent"}
for tier in ("quick", "thorough"):
    CHECKS["C22"][tier] = [x for r in CHECKS["C22"][tier] if "checked" not in r["conf"] for x in (r, dict(r, env=NOISE))]
