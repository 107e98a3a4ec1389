#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS

FIELD = ["derive/src/field/mod.rs", "derive/src/field/arith.rs", "derive/src/field/asm", "src/derive/field"]
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Prime field arithmetic is exact arithmetic modulo p",
     "For every prime field of the library and all elements a, b (including non-random extreme ones), addition, subtraction, "
     "negation, doubling, multiplication, squaring, cubing, exponentiation, sums, products and their reference and assignment "
     "variants return exactly the integer result modulo p. Results are independent of how the operands were produced, and "
     "every result is a canonical element that compares, hashes and encodes like the same value obtained in any other way.",
     ["inputs", "configurations"], "all pairs of elements of the 10 prime fields, in every feature set",
     "Tests draw a handful of uniform elements; carry chains, conditional final subtractions and limb boundaries are hit with "
     "probability near 2^-64 by uniform draws.",
     FIELD + ["src/bn256/fr.rs", "src/bls12381/fq.rs", "src/pluto_eris/fp.rs"],
     [("Montgomery/Barrett style limb arithmetic", "derive/src/field/arith.rs, derive/src/field/asm"),
      ("operator forwarding macros", "src/derive/field/common.rs, src/arithmetic.rs")],
     ["to_repr of results"])
prop("C02", "All arithmetic backends and feature sets compute the same results",
     "Building the library with or without the assembly backend and with or without the precomputed conversion table changes "
     "no observable result: for the same inputs every field, curve, encoding, multi-exponentiation, transform, pairing and "
     "hash operation returns the same value bit for bit. Small-integer conversions served from the table equal the computed "
     "ones for every index, at its ends and beyond it.",
     ["inputs", "configurations"], "all inputs, over the feature sets {default, asm, bn256-table and their union}",
     "Each feature set is tested on its own against algebraic identities; no test compares the backends with each other.",
     FIELD + ["src/bn256/fr.rs", "script/bn256.py", "build.rs"],
     [("assembly multiplication, squaring, addition", "derive/src/field/asm"), ("table of small field elements", "script/bn256.py, src/bn256/fr.rs")],
     ["digests of operation transcripts"])
prop("C03", "Inversion, square roots and Legendre symbols are right for every element",
     "For every prime field, inversion returns the element whose product with the operand is one and fails exactly for zero; "
     "the square root returns a root whose square is the operand and fails exactly for non-squares; the Legendre symbol and the "
     "square-root-of-ratio operation agree with Euler's criterion, including for zero numerators and denominators. Batch inversion "
     "equals elementwise inversion, leaving zeros as they are.",
     ["inputs"], "all elements of the 10 prime fields, all batches",
     "The division-step inversion and the Jacobi algorithm branch on operand bits; tests try a few random operands, where long "
     "runs of zero/one bits and rare carry cases do not occur.",
     ["src/ff_ext/inverse.rs", "src/ff_ext/jacobi.rs", "src/ff_ext/mod.rs", "src/derive/field", "derive/src/field/mod.rs"],
     [("Bernstein-Yang inverter", "src/ff_ext/inverse.rs"), ("Jacobi symbol", "src/ff_ext/jacobi.rs"),
      ("Tonelli-Shanks / exponent square roots", "derive/src/field/mod.rs")])
prop("C04", "Prime field encodings round-trip and reject non-canonical input",
     "Every prime field element encodes to the fixed-length canonical little- or big-endian form of its value, and every decoder "
     "(byte representations, raw internal form, serde in text and binary formats) returns exactly the encoded element. Encodings of "
     "integers not below the modulus and malformed strings are rejected by every checked decoder, never accepted, reduced or answered "
     "with a panic.",
     ["inputs"], "all field elements and all byte strings",
     "Tests round-trip random elements; values around the modulus and hostile strings are a vanishing fraction of the inputs.",
     ["src/serde.rs", "src/derive/field", "derive/src/field/mod.rs", "src/ff_ext"],
     [("modulus comparison in from_repr", "src/derive/field/common.rs"), ("raw bytes", "src/derive/field/mod.rs"), ("serde adapters", "src/serde.rs")])
prop("C05", "Integer, wide-byte and random conversions reduce modulo p correctly",
     "Conversions into a prime field from u64, u128, bool, limb arrays, uniform byte strings of every supported length and decimal strings "
     "give the input integer modulo p for every input. Random sampling equals the documented wide reduction of the bytes drawn from the "
     "generator, so every residue can occur and the same generator stream gives the same element.",
     ["inputs"], "all integers and byte strings of the accepted widths, all generator streams",
     "Tests feed random strings; inputs at multiples of the modulus and all-ones limbs are not reached.",
     ["src/derive/field", "derive/src/field/mod.rs", "src/ff_ext/mod.rs", "src/arithmetic.rs"],
     [("from_uniform_bytes, from_u512", "src/derive/field/common.rs, derive/src/field"), ("random", "derive/src/field/mod.rs")])
prop("C06", "Field ordering, equality, hashing, selection and bits reflect the integer value",
     "Ordering of prime field elements is the ordering of their canonical integers, equality and hashing depend on the value only, "
     "oddness and sign flags follow the canonical integer (the larger-than-its-negation flag holds exactly above (p-1)/2), and bit "
     "decompositions list the canonical integer's bits. Constant-time equality, selection and comparison variants agree with the plain ones for "
     "every operand and choice.",
     ["inputs"], "all pairs of elements and both choices",
     "Tests hold few comparisons, none adjacent to (p-1)/2 or differing in one limb only.",
     ["src/derive/field", "derive/src/field/mod.rs", "src/ff_ext/mod.rs"],
     [("Ord through to_repr", "src/derive/field/common.rs"), ("lexicographically_largest", "src/derive/field/mod.rs")])
prop("C07", "Extension tower arithmetic equals polynomial arithmetic over the base field",
     "For the quadratic, sextic and dodecic extensions of the pairing curves, all operations (ring operations, squaring, inversion, "
     "sparse multiplications, multiplication by the non-residue, conjugation, cyclotomic squaring on its domain, Frobenius maps of every power, "
     "square roots and Legendre symbols) return the result defined by the tower's polynomial quotient ring, for every operand including ones "
     "with zero coefficients. Inversion fails exactly for zero, square root exactly for non-squares, and neither fails to terminate. "
     "Equality, ordering (second coefficient first), oddness and the larger-than-its-negation flag of the quadratic extensions follow the coefficients' integers.",
     ["inputs"], "all elements of Fp2, Fp6, Fp12 of bn256, bls12-381 and pluto, every Frobenius power",
     "Tests use random elements only; elements inside subfields, with zero or equal coefficients, take other branches.",
     ["src/ff_ext/quadratic.rs", "src/ff_ext/cubic.rs", "src/bn256", "src/bls12381", "src/pluto_eris"],
     [("Karatsuba formulas", "src/ff_ext"), ("Frobenius coefficient tables", "src/*/fq2.rs, fq6.rs, fq12.rs"), ("complex square roots", "src/ff_ext/mod.rs")])
prop("C08", "Quadratic extension encodings are canonical and total",
     "Encodings of quadratic extension elements are the canonical encodings of the two coefficients in the documented order, and "
     "decode to the same element. Every byte string in which some coefficient is not below the modulus is rejected by every checked decoder, "
     "and decoding never panics; wide uniform strings reduce coefficientwise.",
     ["inputs"], "all elements and all byte strings",
     "Tests round-trip random elements; non-canonical strings are not tried.",
     ["src/ff_ext/quadratic.rs", "src/bn256/fq2.rs", "src/bls12381/fq2.rs", "src/pluto_eris/fp2.rs"],
     [("coefficientwise codecs", "src/ff_ext/quadratic.rs")])
prop("C09", "Curve addition is the complete group law",
     "For every curve and all points P, Q in every representation (affine or projective, any scaling, identity, equal, opposite, of small order or "
     "outside the prime-order subgroup), addition, subtraction, doubling, negation, sums and mixed forms return the chord-and-tangent "
     "result in the curve group. Results are valid points and do not depend on which representation or operator variant was used.",
     ["inputs"], "all pairs of curve points in all representations, on the 11 curves",
     "Tests add random points and a few special cases; exceptional cases depend on relations between operands that random points "
     "never satisfy.",
     ["src/derive/curve.rs", "src/bn256/curve.rs", "src/bls12381/g1.rs", "src/bls12381/g2.rs", "src/pluto_eris/curve.rs", "src/secp256k1/curve.rs", "src/secp256r1/curve.rs"],
     [("complete addition formulas (Renes-Costello-Batina)", "src/derive/curve.rs"), ("Jacobian formulas", "src/derive/curve.rs")])
prop("C10", "Scalar multiplication is repeated addition and the group order annihilates",
     "For every curve, point and scalar, scalar multiplication through every operator returns the sum of that many copies of the point, for points in "
     "any representation including the identity and points outside of the prime-order subgroup. The generators have exactly the scalar "
     "field's modulus as order, and random points and generators are non-identity members of the right group.",
     ["inputs"], "all scalars and points on the 11 curves",
     "Tests multiply by random scalars; window digits at the extremes, 0, n-1 and high-bit patterns are rare.",
     ["src/derive/curve.rs", "src/bn256/curve.rs", "src/bls12381", "src/pluto_eris/curve.rs"],
     [("double-and-add over the scalar's bits", "src/derive/curve.rs")])
prop("C11", "Point representations denote points faithfully",
     "Affine and projective forms convert into each other without changing the point, batch normalisation equals pointwise "
     "normalisation for every mixture of points, equality holds exactly for the same point whatever its scaling, and coordinates and curve "
     "constants reported are those of the point. The on-curve tests accept exactly the triples or pairs that denote a curve point, and "
     "conditional selection and identity tests agree with the plain operations.",
     ["inputs"], "all points in all representations, all batches, all coordinate values",
     "Tests compare a few random points; batches with identities at particular positions and invalid triples are not tried.",
     ["src/derive/curve.rs", "src/arithmetic.rs"],
     [("to_affine, batch_normalize, ct_eq, is_on_curve", "src/derive/curve.rs")])
prop("C12", "Point encodings round-trip, are unique, and invalid encodings are rejected",
     "Every point encodes in compressed, uncompressed, raw and serde form, decoding gives back the same point, and the flag bits follow the "
     "documented formats. Every checked decoder rejects, without panicking, byte strings that are not the one canonical encoding of a point: "
     "coordinates not below the modulus, coordinates off the curve, points outside the prime-order subgroup, stray or contradictory flag bits, "
     "and identity encodings with other content.",
     ["inputs"], "all points and all byte strings, on the 11 curves and their serialisation formats",
     "Tests round-trip random points and flip a few flags; the space of malformed strings is not explored.",
     ["src/derive/curve.rs", "src/serde.rs", "src/bls12381/g1.rs", "src/bls12381/g2.rs"],
     [("compressed / uncompressed codecs", "src/derive/curve.rs"), ("flag layouts", "src/serde.rs")])
prop("C13", "Subgroup tests and cofactor clearing are exact",
     "On every curve, the torsion-free test, the small-order test and the conversion into the prime-order subgroup hold exactly for "
     "the points that belong there, for every curve point in any representation. Clearing the cofactor maps every curve point into the subgroup, "
     "is a homomorphism whose result is the documented multiple, and on the curves of prime order nothing is rejected.",
     ["inputs"], "all curve points, inside and outside the prime-order subgroup",
     "Tests multiply a few points by the order; fast endomorphism-based tests may accept a coset that random points do not meet, small-order points are "
     "never generated.",
     ["src/derive/curve.rs", "src/bn256/curve.rs", "src/bls12381/g1.rs", "src/bls12381/g2.rs", "src/pluto_eris/curve.rs"],
     [("endomorphism based subgroup checks", "src/bls12381/g1.rs, g2.rs, src/bn256/curve.rs"), ("clear_cofactor", "the same")])
prop("C14", "Endomorphisms and scalar decompositions are consistent",
     "On every curve with an efficient endomorphism, the endomorphism maps each point to the fixed multiple of it given by the curve's published "
     "eigenvalue. The scalar decomposition returns, for every scalar, two signed halves of bounded size that recombine to the scalar modulo the "
     "group order, with no overflow.",
     ["inputs"], "all scalars and points on the curves with an endomorphism",
     "Tests decompose a few random scalars; lattice rounding boundaries and extreme scalars are not reached.",
     ["src/arithmetic.rs", "src/derive/curve.rs", "src/bn256/curve.rs"],
     [("GLV decomposition", "src/arithmetic.rs, src/derive/curve.rs endo!")], hook="cfg(verif_hooks) re-export of the decomposition trait")
prop("C15", "Multi-scalar multiplication equals the naive sum",
     "For every list of scalars and points of equal length, the serial, parallel and best multi-scalar multiplications return the sum of the scalar "
     "multiples: for any length including zero, any scalars and any points including repeated, opposite and identity ones. The result is independent of the "
     "number of worker threads and of which algorithm the length selects, and inputs of different lengths panic as documented.",
     ["inputs", "configurations", "schedules"], "all inputs, lengths and thread counts",
     "The tests compare the algorithms with each other on random inputs of a few lengths; bucket collisions, duplicate points and window boundaries need "
     "structured inputs.",
     ["src/msm.rs"],
     [("signed window digits", "src/msm.rs get_booth_index"), ("batch affine bucket addition", "src/msm.rs batch_add, Schedule"), ("chunking over threads", "src/msm.rs")])
prop("C16", "The FFT computes the discrete Fourier transform",
     "For every vector of length 2^k, of field elements or of curve points, and every root of unity of that order, the transform equals the evaluations of the "
     "polynomial at the powers of the root, in order. The transform with the inverse root divided by the length restores the input, the result "
     "does not depend on the number of worker threads, and lengths that do not match are refused.",
     ["inputs", "configurations", "schedules"], "all vectors, sizes and thread counts",
     "The existing test covers one size range on one field with the ambient thread count; small-size branches depend on the thread count.",
     ["src/fft.rs"], [("iterative and recursive butterflies", "src/fft.rs")])
prop("C17", "Results do not depend on scheduling, and no data race occurs",
     "Multi-exponentiation, transforms and lazily initialised values return the same results under every thread count, pool, nesting and interleaving, when called from "
     "many threads at once or from within a worker, and they always terminate. No execution has a data race.",
     ["schedules", "configurations"], "all interleavings and pool configurations",
     "Tests run each parallel routine once in the ambient pool and cannot see races that do not change the result.",
     ["src/msm.rs", "src/fft.rs", "src/pluto_eris/engine.rs", "src/hash_to_curve.rs"],
     [("rayon scopes and joins", "src/msm.rs, src/fft.rs"), ("lazy_static values", "src/*")])
prop("C18", "Pairings are bilinear, non-degenerate and consistent",
     "On bn256, bls12-381 and pluto the pairing is the bilinear map e(aP, bQ) = e(P, Q)^(ab) of exact order, one exactly when an argument is the identity, and "
     "equals the reduced Tate/ate pairing's defining power up to the fixed convention. Products of pairings through the multi-pairing interface equal the product of single pairings "
     "for every list, including empty lists and lists with identities, and the target group obeys the group laws with scalars acting modulo the order.",
     ["inputs"], "all lists of pairs of subgroup points, and all scalars",
     "Tests check bilinearity on a few random pairs; identities among many terms and structured scalars are not covered.",
     ["src/bn256/engine.rs", "src/bls12381/engine.rs", "src/pluto_eris/engine.rs", "src/derive/pairing.rs"],
     [("Miller loop with prepared lines", "src/*/engine.rs"), ("final exponentiation", "src/*/engine.rs"), ("Gt group", "src/derive/pairing.rs")])
prop("C19", "Hash-to-curve follows its specification for every message",
     "Hashing to each curve returns, for every message and domain prefix, the point defined by the expand-message, hash-to-field and map-to-curve steps of RFC 9380 "
     "with the curve's suite (simplified SWU with isogeny, or Shallue-van de Woestijne). "
     "Results are on the curve and in the prime-order subgroup, deterministic, and distinct domains are separated.",
     ["inputs"], "all messages and domain prefixes",
     "Tests use published vectors for a few messages on some suites; exceptional inputs of the maps occur with negligible probability.",
     ["src/hash_to_curve.rs", "src/bls12381", "src/bn256/curve.rs", "src/secp256k1/curve.rs", "src/secp256r1/curve.rs"],
     [("expand_message_xmd, hash_to_field, sswu, svdw, iso_map", "src/hash_to_curve.rs")])
prop("C20", "No input causes memory unsafety, undefined behaviour or arithmetic overflow",
     "No call of the safe public interface, with any arguments, reads or writes outside of its objects, executes undefined behaviour or corrupts registers or the stack, with either "
     "arithmetic backend. No intermediate integer computation overflows its type, and no call panics other than for documented misuse.",
     ["inputs", "configurations"], "all calls of the public interface in every feature set",
     "Tests run optimised builds without sanitizers or overflow checks; silent wrap-around and out-of-bounds reads need not change a result.",
     FIELD + ["src/ff_ext/inverse.rs", "src/ff_ext/jacobi.rs", "src/msm.rs"],
     [("inline assembly", "derive/src/field/asm"), ("unsafe blocks and wrapping operations", "src/ff_ext, src/derive")])
prop("C21", "Readers and writers survive faulty streams",
     "Reading a field element or point from a stream that ends early, returns errors, is interrupted or delivers its bytes in pieces of any size either returns the complete element or "
     "an error, and consumes exactly the bytes of the element on success. Writing to a stream that accepts bytes in pieces delivers exactly the canonical bytes, write errors are "
     "reported, and write followed by read restores the value.",
     ["fault_sequences", "inputs"], "all fault patterns of the underlying stream",
     "Tests write to and read from in-memory buffers that never fail.",
     ["src/serde.rs", "src/derive/curve.rs", "src/derive/field", "src/ff_ext/quadratic.rs"],
     [("read_raw / write_raw", "src/serde.rs")])
prop("C22", "The library has no side effects outside of its results",
     "No operation prints to standard output or error, reads or writes files, reads the environment, or otherwise changes process state; a panic for documented misuse is the only "
     "way a call may end besides returning. Calling an operation twice with the same arguments gives the same answer, whatever was called in between, "
     "however often it has been called, and wherever its arguments lie in memory.",
     ["inputs", "histories"], "all operations and call sequences",
     "The test harness captures output and runs each call once in a fixed order.",
     ["src"], [("pure functions", "src")])
prop("C23", "Published constants satisfy their defining equations",
     "Every public constant of the fields and curves (moduli, two-adicity, roots of unity, generators, inverses, deltas, cube roots, curve coefficients, generator points, number of bits and "
     "capacity) has the value the standard defines or satisfies its defining equation. They agree with each other across the cycles of curves that share fields.",
     ["configurations"], "all constants of all fields and curves",
     "Tests check some constants by algebraic relations that wrong constants can also satisfy.",
     ["src/bn256", "src/bls12381", "src/pluto_eris", "src/secp256k1", "src/secp256r1", "src/secq256k1", "src/grumpkin", "derive/src/field/mod.rs"],
     [("constants generated by the field macro", "derive/src/field/mod.rs"), ("curve constants", "src/*/curve.rs")])
prop("C24", "Results do not depend on the word size of the target",
     "Built for a target with 32-bit machine words, the library returns the same results as on 64-bit targets: the same values, encodings, bit decompositions, "
     "multi-exponentiations, transforms, pairings and hashes for the same inputs, without overflow in sizes and indices.",
     ["inputs", "configurations"], "all inputs, over targets with 32-bit and 64-bit words",
     "The tests run on a 64-bit target only; the 32-bit code path of the bit decomposition, and conversions between limbs and usize, are never executed.",
     ["src/derive/field/common.rs", "src/msm.rs", "src/fft.rs", "src/ff_ext", "derive/src/field/mod.rs", "Cargo.toml"],
     [("bit views by pointer width", "src/derive/field/common.rs"), ("windows and digits as usize", "src/msm.rs"), ("sizes of vectors", "src/fft.rs")],
     ["digests of operation transcripts"])
prop("C25", "Operations on secrets are constant-time",
     "In an optimised build, the operations that cryptographic code applies to secrets take no branch and access no address that depends on the values of their "
     "operands: equality, selection and swaps through the traits of `subtle`, tests for zero, identity and parity; addition, subtraction, negation, doubling, "
     "multiplication, squaring and exponentiation (for exponents of the same length) in prime fields, their extensions and target groups; conversion of field elements "
     "from and to bytes, bits and wide integers; addition, negation, doubling and scalar multiplication of points. (Inversion, square roots, affine conversion, "
     "point encodings, multi-exponentiation, ordering, hashing to curves and pairings make no such promise, nor does the conversion of short integers through the bn256 table.)",
     ["inputs", "configurations"], "all operands, over the arithmetic backends",
     "Tests see results, not the path that led to them.",
     ["derive/src/field", "src/derive/field", "src/derive/curve.rs", "src/derive/pairing.rs", "src/ff_ext", "src/bn256", "src/bls12381", "src/pluto_eris"],
     [("equality and selection of field elements", "derive/src/field/mod.rs"), ("equality, selection and scalar multiplication of points", "src/derive/curve.rs"),
      ("extensions", "src/ff_ext"), ("reductions without branches", "derive/src/field")],
     ["memcheck reports on operands marked undefined"])

TECH = {
    "C25": "runtime monitoring: dynamic taint tracking of operands with valgrind memcheck",
    "C02": "runtime monitoring: transcript digests compared across builds",
    "C24": "runtime monitoring: transcript digests compared between a 64-bit and a 32-bit build",
    "C17": "runtime monitoring under varied thread pools, plus ThreadSanitizer",
    "C20": "runtime sanitizers: overflow/debug-assertion build, AddressSanitizer, Miri",
    "C21": "runtime monitoring with injected stream faults",
    "C22": "runtime monitoring of system calls, output and repeated calls",
}
NOTE = ("Every violation reported is an observed wrong result of the real code against an independent oracle; silence means none "
        "among the generated inputs (counts by class are in the evidence file). Trusts num-bigint and the reference in harness/src.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            if p["id"] in CHECKS or "--all" in sys.argv:
                assert len(p["title"]) <= 80, p["title"]
                f.write(json.dumps(p) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS='--cfg verif_hooks' when building the harness crate (only the C14 check)",
                  "source_commits": ["31a0725"]},
        "checks": [], "not_applicable": [],
        "notes": "check.py builds the monitors of /verif/harness against /repo's working tree and runs them; checks.py lists what runs where. "
                 "known_findings.txt lists repaired and recorded defects.",
    }
    for p in P:
        if p["id"] not in CHECKS:
            continue
        c = CHECKS[p["id"]]
        m["checks"].append({
            "property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py " + p["id"] + " thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": TECH.get(p["id"], "runtime monitoring: differential oracle over adversarial workloads"),
            "level": "exploration", "level_note": c.get("note", NOTE)})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
