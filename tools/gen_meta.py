#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json from the tables below (one row per property)"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, "engine"), os.path.join(H, "props")]
import registry

BIT = "bit-precise symbolic execution of the compiled code (LLVM IR) + SMT (QF_FPBV/QF_BV, Z3), counterexamples replayed natively"
UF = "symbolic execution of the compiled code (LLVM IR) + SMT with float arithmetic as uninterpreted functions (QF_UFBV, Z3), counterexamples replayed natively"
TM = "symbolic execution of the compiled code (LLVM IR), rounding errors and reference function enclosed by Taylor models per box, SMT (QF_NRA) decides each box; counterexamples replayed natively"
PE = "symbolic execution of the compiled code (LLVM IR) to polynomials with rounding-error terms, SMT (QF_NRA) and exact coefficient identity; counterexamples replayed natively"
RUSTC = "rustc's LLVM IR for the checked and the release profile, the engine's IR semantics (every reported counterexample is replayed natively), Z3"
EXH = "Every value of the quantified inputs is decided by the solver, without sampling; trusts " + RUSTC + "."
BOX = "Every float of the stated ranges lies in a box the solver decides (or, when a box shrinks to single floats, in a replay of that float); trusts " + RUSTC + ", and the outward-rounded Taylor arithmetic of the engine."

ROWS = []


def row(id, title, statement, q, why, files, mech, tech, note, over=("inputs",)):
    ROWS.append(dict(id=id, title=title, statement=statement, over=list(over), q=q, why=why,
                     files=["src/" + f for f in files], mech=[{"name": n, "where": "src/" + w} for n, w in mech], tech=tech, note=note))


FEW = "The tests evaluate a table of {} inputs; the 2^32 inputs include subnormals, values past 2^31, signed zeros, infinities and NaN patterns that no table holds."


def few(n):
    return FEW.format(n)


row("C01", "Truncation", "Truncating any float removes its fractional part exactly: the result is the integer nearest to it that is not larger in magnitude, with the sign of the argument. Infinities are returned as they are and NaN gives NaN.",
    "every one of the 2^32 bit patterns, through the inherent method and the extension trait", few("a few dozen"), ["float/trunc.rs"], [("masking off the fractional mantissa bits", "float/trunc.rs")], BIT, EXH)
row("C02", "Fractional part", "The fractional part of a finite float is the float minus its truncation, exactly; its magnitude is below 1 and it carries the argument's sign. NaN gives NaN.",
    "every one of the 2^32 bit patterns", few("a few dozen"), ["float/fract.rs"], [("renormalising the fractional mantissa bits", "float/fract.rs")], BIT, EXH)
row("C03", "Floor and ceiling", "Floor is the largest integer not above the argument and ceiling the smallest not below it, for every float. Infinities are returned as they are and NaN gives NaN.",
    "every one of the 2^32 bit patterns", few("a few dozen"), ["float/floor.rs", "float/ceil.rs"], [("conversion and correction by one", "float/floor.rs, float/ceil.rs")], BIT, EXH)
row("C04", "Rounding", "Rounding gives the nearest integer, ties away from zero, for every float. Infinities are returned as they are and NaN gives NaN.",
    "every one of the 2^32 bit patterns", few("a few dozen"), ["float/round.rs"], [("add a half with the argument's sign, truncate", "float/round.rs")], BIT, EXH)
row("C05", "Absolute value, copysign and signum", "The absolute value clears the sign bit and changes nothing else; copysign takes its first argument's magnitude and its second argument's sign bit; signum is 1 with the argument's sign, signed zeros included. NaN gives NaN.",
    "all 2^32 arguments (2^64 pairs for copysign)", few("a dozen"), ["float/abs.rs", "float/copysign.rs", "float/signum.rs"], [("sign-bit masks", "float/abs.rs, float/copysign.rs, float/signum.rs")], BIT, EXH)
row("C06", "Euclidean division", "Euclidean division of any two floats gives the truncated quotient, lowered by one for a positive and raised by one for a negative divisor when the IEEE remainder is negative: an integer, an infinity or NaN; NaN operands give NaN. For integer operands it is the exact Euclidean quotient.",
    "all 2^64 pairs for the correction, integrality and NaN; for exactness all integer pairs of magnitude at most 511 (thorough: 4095) with a nonzero divisor",
    "The tests divide six pairs.", ["float/div_euclid.rs"], [("truncated quotient corrected by the sign of the remainder", "float/div_euclid.rs")], BIT,
    EXH + " The IEEE remainder instruction is represented by its contract for non-integer operands; exact quotients are bounded to integers of magnitude 511/4095.")
row("C07", "Euclidean remainder", "The Euclidean remainder of x by y lies between 0 and |y| inclusive (|y| only by rounding) and equals the IEEE remainder, plus |y| once if that is negative. A NaN operand, an infinite dividend or a zero divisor gives NaN; integer operands give the exact remainder.",
    "all 2^64 pairs; exactness for all integer pairs of magnitude at most 511 (thorough: 4095)", "The tests divide six pairs.", ["float/rem_euclid.rs"], [("remainder plus |y| if negative", "float/rem_euclid.rs")], BIT,
    EXH + " The IEEE remainder instruction is represented by its contract.")
row("C08", "Multiply-add", "The multiply-add of three floats is their product plus the third, each operation rounded once, for every triple.",
    "all 2^96 triples", "The tests evaluate one triple.", ["float/mul_add.rs"], [("product then sum", "float/mul_add.rs")], BIT, EXH)
row("C09", "Square root", "The square root of every positive normal float has a relative error of at most 6.1%. Zeros and positive subnormals give between 0 and 1.3e-19, infinity gives infinity, negative numbers and NaN give NaN, and larger arguments never have smaller roots.",
    "every positive normal float for the error, all 2^32 floats for the special cases, all ordered pairs for monotonicity", few("about 25") + " They also accept 5% on those.", ["float/sqrt.rs"], [("halving the exponent bits", "float/sqrt.rs")], TM, BOX)
row("C10", "Hypotenuse", "The hypotenuse of two legs, the longer one in [2^-62, 2^63), is within 7% of the true one, however short the other leg. For all floats it ignores the signs and the order of the legs, a NaN leg gives NaN, no finite legs do, and an infinite leg without a NaN gives infinity.",
    "all pairs of legs with the longer one in [2^-62, 2^63) for the error, all 2^64 pairs for symmetry and special cases",
    "The tests evaluate a handful of right triangles.", ["float/hypot.rs", "float/sqrt.rs"], [("square root of the sum of squares", "float/hypot.rs")], TM, BOX)
row("C11", "Inverse square root", "The inverse square root of every positive normal float has a relative error of at most 3.5%. Negative numbers and NaN give NaN, and larger arguments never have larger results.",
    "every positive normal float, all 2^32 floats for the special cases, all ordered pairs for monotonicity", few("about 25"), ["float/invsqrt.rs"], [("magic-constant subtraction", "float/invsqrt.rs")], TM, BOX)
row("C12", "Fast reciprocal approximation", "The fast inverse of every float with magnitude between 2^-126 and 2^126 lies between 0.1% below and 12.6% above the true reciprocal, with the argument's sign. Larger magnitudes give at most 1.2e-38, smaller ones finite results of at least 8.5e37; infinities give zeros and only NaN gives NaN.",
    "every float of that range, both signs", few("about 25"), ["float/inv.rs"], [("magic-constant subtraction", "float/inv.rs")], TM, BOX)
row("C13", "Reciprocal", "The reciprocal has a relative error of at most 4e-5 for magnitudes from 2^-126 to 2^125 and 1% up to 2^126. Zeros give infinities, infinities zeros and NaN gives NaN; the sign is the argument's for every float; magnitudes above 2^126 give at most 1.2e-38 and subnormals at least 8.4e37.",
    "every float of those ranges, all 2^32 floats for the special cases", few("about 25"), ["float/recip.rs"], [("initial guess with two Newton steps", "float/recip.rs")], TM, BOX)
row("C14", "Cosine", "The cosine of every float of magnitude up to 1024 (thorough: 4096) is within 0.002 of the true cosine.",
    "every float of magnitude at most 1024 (thorough: 4096)", few("about 25") + " All of them lie in one turn.", ["float/cos.rs"], [("range reduction and parabola with one refinement", "float/cos.rs")], TM, BOX)
row("C15", "Sine and the sine-cosine pair", "The sine of every float of magnitude up to 1024 (thorough: 4096) is within 0.002 of the true sine. The combined sine-cosine function gives the same bits as the separate ones for every float.",
    "every float of that range; all 2^32 floats for the pair", few("about 25"), ["float/sin.rs", "float/sin_cos.rs", "float/cos.rs"], [("cosine shifted by a quarter turn", "float/sin.rs")], TM, BOX)
row("C16", "Tangent", "The tangent is the quotient of the crate's own sine and cosine, rounded once, for every float. It is within 0.01 of the true tangent for |x| <= 1, 0.02 for |x| <= 1.3 and 0.6 for |x| <= 1.55.",
    "all 2^32 floats for the quotient, all floats of the stated range for the error", few("about 25"), ["float/tan.rs"], [("sine over cosine", "float/tan.rs")], TM, BOX)
row("C17", "Arctangent", "The arctangent of every finite float is within 0.00284 radians of the true one, is odd, infinities give a quarter turn and NaN gives NaN. The normalised arctangent is the same angle in quarter turns.",
    "every finite float; all 2^32 floats for oddness", few("about 25"), ["float/atan.rs"], [("rational approximation in the first octants", "float/atan.rs")], TM, BOX)
row("C18", "Two-argument arctangent", "The angle of every finite point is within 0.003 radians of the true angle, in the true quadrant, also on the axes and near them; the normalised form gives the same angle as quarter turns in [0, 4). The origin gives 0 and NaN coordinates give NaN.",
    "every pair of finite coordinates whose larger magnitude lies in the binades the evidence lists (quick 3; thorough 246), the other coordinate being anything smaller; all finite values on the axes",
    "The tests evaluate five points.", ["float/atan2.rs"], [("first-quadrant rational approximation, quadrant offset", "float/atan2.rs")], TM, BOX)
row("C19", "Arcsine", "The arcsine of every float in [-1, 1] is within 0.018 radians of the true one; it is odd, and everything outside gives NaN.",
    "every float of [-1, 1]; all 2^32 floats for the rest", few("about 25"), ["float/asin.rs", "float/atan.rs", "float/invsqrt.rs"], [("arctangent of x times the inverse square root of 1-x^2", "float/asin.rs")], TM, BOX)
row("C20", "Arccosine", "The arccosine of every float in [-1, 1] is within 0.03 radians of the true one, and everything outside gives NaN.",
    "every float of [-1, 1]; all 2^32 floats for the rest", few("about 25"), ["float/acos.rs", "float/atan.rs", "float/sqrt.rs"], [("arctangent of the quotient of the square root of 1-x^2 and x", "float/acos.rs")], TM, BOX)
row("C21", "Exponential", "The exponential has a relative error of at most 0.25% wherever its value is a normal float. Beyond, it goes to infinity above and to (almost) zero below; zero gives 1 and NaN gives NaN.",
    "every float from -87.3 to 88.72 for the error, every other float for the ends", few("about 25"), ["float/exp.rs"], [("split into integer and fractional powers, partial series", "float/exp.rs")], TM, BOX)
row("C22", "Natural logarithm", "The natural logarithm of every positive normal float has an absolute error of at most 1e-4; 1 gives 0. Zero and the subnormals give a large negative value; negative arguments and NaN give NaN, infinity gives infinity.",
    "every positive normal float; all 2^32 floats for the ends", few("about 25"), ["float/ln.rs"], [("exponent plus polynomial in the mantissa", "float/ln.rs")], TM, BOX)
row("C23", "Logarithms to other bases", "The base 2 and base 10 logarithms of every positive normal float have absolute errors of at most 1.5e-4 and 5e-5. The logarithm to an arbitrary base is the natural logarithm times the reciprocal of the base's natural logarithm, for every pair of floats.",
    "every positive normal float; all 2^64 pairs for the composition", few("about 25"), ["float/log2.rs", "float/log10.rs", "float/log.rs", "float/ln.rs"], [("natural logarithm scaled", "float/log2.rs, float/log10.rs, float/log.rs")], TM, BOX)
row("C24", "Real powers", "Raising a non-negative float to a real power is the exponential of the exponent times the natural logarithm, whose relative error grows only with the exponent's magnitude. A negative base gives plus or minus the power of its magnitude for even or odd integer exponents and NaN for all others; the zeroth power is 1.",
    "all 2^64 pairs for the composition and the sign rules; the error directly for the exponents and bases the evidence lists, every float of the other argument in the listed range",
    few("about 30"), ["float/powf.rs", "float/exp.rs", "float/ln.rs"], [("exp(n ln x) and integer/odd tests", "float/powf.rs")], TM, BOX)
row("C25", "Integer powers", "The n-th power of a float has a relative error of at most 1e-6 plus 2.4e-7 per unit of |n| while the power is a normal float, is infinite with the right sign past the range and vanishes below it. The zeroth power is 1 for every float; zero (up to its sign), one, minus one and NaN behave as in IEEE pow for every 32-bit exponent; negating the base changes at most the sign, by the parity of the exponent.",
    "for each exponent the evidence lists (quick: 23 between -12 and 31, thorough: all from -40 to 40 and some beyond), every float; for the special bases every i32 exponent",
    "The tests raise about ten numbers to small powers.", ["float/powi.rs"], [("square and multiply with early exits on the exponent", "float/powi.rs")], TM, BOX)
row("C26", "Hyperbolic cosine", "The hyperbolic cosine is within 0.003 of the true one on [-pi, pi] and within 0.1 on [-2pi, 2pi]; from there to magnitude 88.7 its relative error is at most 0.3%, and from 89.5 on it is infinite. It is even for every float; zero gives 1, infinities give infinity and NaN gives NaN.",
    "every float of those ranges; all 2^32 floats for evenness", few("about 40"), ["float/cosh.rs", "float/exp.rs"], [("half the sum of exp(x) and its reciprocal", "float/cosh.rs")], TM, BOX)

NA = []
exec(open(os.path.join(H, "tools", "rows2.py")).read()) if os.path.exists(os.path.join(H, "tools", "rows2.py")) else None
NA.append(dict(id="C46", title="Text formatting and parsing", statement="Formatting a float newtype in any of the supported notations gives the text of the wrapped float, and parsing gives the float the standard parser gives or its error.", over=["inputs"],
               q="every float and format specification, every string", why="The tests format nothing and parse nothing.", files=["src/float.rs"], mech=[{"name": "delegation to the standard library", "where": "src/float.rs"}],
               reason="the property is that of core's float formatter and parser (bignum loops over unbounded buffers and trait objects); encoding them is out of reach, and the crate's own part is a one-line delegation"))

props, checks, na = [], [], []
for r in ROWS:
    if r["id"] not in registry.CHECKS:
        continue
    props.append(r)
    checks.append({"property": r["id"], "quick_cmd": f"python3-vt check.py {r['id']}", "thorough_cmd": f"python3-vt check.py {r['id']} --tier thorough",
                   "technique": r["tech"], "level": "model_checking", "level_note": r["note"]})
for r in NA:
    props.append(r)
    na.append({"property": r["id"], "reason": r["reason"]})
props.sort(key=lambda r: r["id"])
checks.sort(key=lambda r: r["property"])
missing = set(registry.CHECKS) - {r["id"] for r in ROWS}
assert not missing, missing
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for r in props:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps({"id": r["id"], "title": r["title"], "statement": r["statement"], "quantifier": {"over": r["over"], "text": r["q"]},
                            "why_tests_cant": r["why"], "anchors": {"files": r["files"], "mechanism": r["mech"]}}) + "\n")
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(props), len(checks), len(na))
