#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
GEN = "Monitored executions over generated and branch-guided workloads in gcc -O2, gcc -O0 with pattern-initialised locals, clang -O3, gcc ASan+UBSan and comparison-traced builds. "
N = {
 "C01": ("Online monitor of every operator* call against an independent bitmask Clifford product", "Every ordered operand pair; tolerance 16 eps times the sum of absolute terms, exact on dyadic inputs. Trusts the long double reference; says nothing about inputs not run."),
 "C02": ("Online monitor of every operator+ and operator- call against exact componentwise sums", "Bit-exact expectation per component for every supported pair. Six subtraction overloads return the reversed difference (known findings, pinned by the existing tests)."),
 "C03": ("Random mixed-type programs executed on the library and on a reference multivector interpreter", "Every intermediate of every program compared, with running error bounds; exact on small integers; plus the laws themselves."),
 "C04": ("Online monitor of the involutions: sign pattern per component, bit-for-bit, and composition laws", "Exact expectation over all finite doubles; product laws to 32 eps of the absolute terms."),
 "C05": ("Online monitor of dual against the exact unit trivector product", "Exact expectation; agreement with the e123 products and dual laws."),
 "C06": ("Online monitor of magSq, magnitude, direction and pairMagDirFrom against long double norms", "Relative tolerance of a few eps inside the range where squares neither overflow nor underflow."),
 "C07": ("Online monitor of ampSq and amplitude against the long double complex square root", "Condition-aware tolerance; covers zero, negative and nearly degenerate amplitudes."),
 "C08": ("Online monitor of inverse: x*inverse(x), the reference inverse, and non-validity when there is none", "Condition-aware tolerance; singular elements built exactly."),
 "C09": ("Online monitor of exp(BiVector) and exp(Spinor) against quad precision", "Tolerances follow the conditioning of cos and sin; group laws for commuting arguments."),
 "C10": ("Online monitor of exp(MultiVector) against the scaled power series in long double and quad precision", "Covers nilpotent and nearly nilpotent parts; condition-aware tolerance; |M| up to 30."),
 "C11": ("Online monitor of logG2 against the quad precision principal logarithm and exp round trips", "Principal range, the negative real axis with given and default planes, null arguments."),
 "C12": ("Online monitor of sqrtG2 against the quad precision principal root", "Root squared, principal half plane, the negative real axis with given and default planes, null arguments."),
 "C13": ("Online monitor of sandwich products with rotors built by exp, sqrtG2 and products", "Norms, inner products, handedness and angle preserved to bounds that grow with the number of factors."),
 "C14": ("Online monitor of nearlyEquals against the documented decision computed independently", "All types and tolerances; cases at and one ulp around the threshold; undecidable bands are left out."),
 "C15": ("Online monitor of operator== against comparison of every component", "One-component and one-ulp differences, signed zeros, NaN."),
 "C16": ("Online monitor of isValid, null and zero against the bit patterns of all components", "Every placement of NaN, infinity, subnormal and zero components."),
 "C17": ("Fault injection of null components into every operation, monitoring that the result is not valid", "Every operation of the headers with nulls of its types, alone and combined with valid operands."),
 "C18": ("Stream fault injection on operator>>: truncated, malformed and failing streams, monitored state and value", "Own tokeniser decides which texts must succeed and which must leave a null; failing stream buffers included."),
 "C19": ("Offline checker of formatted text against quad precision decimal expansions of the components", "Numbers, order, count, digits and alignment parsed from the text; stream state restored."),
 "C20": ("Round-trip monitor over operator<< at full precision, io::fixed and io::enote and operator>>", "Bit-exact at 17 digits, half-unit of the printed digits otherwise; several values in one stream."),
 "C21": ("Repetition, permutation, cross-process and ThreadSanitizer monitors for purity", "Bitwise comparison of the same calls in other orders, threads and processes; TSan on shared const operands; processes whose first calls come from 8 threads at once."),
 "C22": ("Environment monitors around every call: output, floating point control, locale, streams, heap, exceptions", "Captured standard output and error, MXCSR/x87, locales, std stream state, heap growth over repetitions."),
 "C23": ("AddressSanitizer, UndefinedBehaviorSanitizer (gcc and clang), Valgrind definedness, stack-contents differential", "Any bit pattern in any argument of any operation; definedness of every result checked under Valgrind; pattern and zero initialised builds compared."),
 "C24": ("Online monitor of construction, promotion, subscripts and std::complex conversions", "Bit-exact for every component, NaN payload class included; out of range indices of all sizes."),
 "C25": ("Monitor of the constants from several translation units, during static initialisation and after work", "All 64 basis products; zero and one with every type. Subtraction findings of C02 show here."),
 "C26": ("Differential monitoring of one workload over a matrix of compilers, standards, optimisation levels and inclusion styles", "Builds of the same monitored cases in 11 (quick) or about 60 (thorough) configurations, every header alone and in random orders, installed package with a consumer."),
 "C27": ("Online monitor of copies in some twenty forms, of results assigned to operands, and of results held over further calls", "Bitwise comparison with the plain call for every operation; operands and held results compared byte for byte."),
 "C28": ("Online monitor of products, projections, reflections, alignments and volume ratios against classical vector formulas", "Long double vector formulas; condition-aware tolerances; generator builds parallel, nearly opposite and special positions."),
 "C29": ("Metamorphic monitor: every operation on operands seen in other axes, handedness and units", "48 exact signed permutations and random rotations and mirrorings, unit factors; condition-aware tolerances."),
 "C30": ("Differential monitor of every function and product on values and on their promotions to MultiVector", "Exact for linear functions, sums, equality and validity; a few rounding errors otherwise."),
}
checks = []
for p, (tech, note) in N.items():
    checks.append(dict(property=p, quick_cmd="python3 run_check.py %s quick" % p, thorough_cmd="python3 run_check.py %s thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique="runtime monitoring: " + tech, level="exploration",
                       level_note=note + ("" if p in ("C21", "C23", "C26") else " " + GEN) + " Holds on what was executed; not a proof."))
m = dict(version=1, setup_cmd="python3 run_check.py --setup", hooks=dict(guard="none", enable="no hooks: the checks compile the headers and sources as they are, with compiler instrumentation only", source_commits=[]),
         checks=checks, not_applicable=[], notes="One driver, run_check.py; see DESIGN.md. Defects found are in known_findings.txt.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as o:
    json.dump(m, o, indent=1)
    o.write("\n")
