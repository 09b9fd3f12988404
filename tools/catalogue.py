#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the catalogue below (run by hand; both are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF_NOTE = "Deductive proof over the LLVM IR of the real functions for all finite inputs at the stated shapes; trusts GMP/MPFR/IEEE operation contracts, clang, vpverify and Z3; unbounded exponent range. "
P = []
def prop(id, title, statement, text, why, files, mech, note="", over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, note=note))
prop("N01", "Directed-rounding arithmetic of raw floats is correctly rounded",
 "For every finite double-precision and multiple-precision float and every rounding direction, the raw operations (negation, halving, addition, subtraction, multiplication, division, reciprocal, square, maximum, minimum, absolute value, scaling by powers of two) return the exact real result rounded correctly in the requested direction, and fused, power, midpoint and radius operations return a value on the requested side of the exact result; comparisons, integer parts and copies are exact. No operation leaves the processor's current rounding mode changed or depends on it.",
 "all finite floats, all directions, all prior rounding modes", "Tests sample a few dozen values; one wrong direction shows up only for arguments whose exact result is not representable.",
 ["source/numeric/floatdp.hpp", "source/numeric/floatdp.cpp", "source/numeric/floatmp.hpp", "source/numeric/floatmp.cpp", "source/numeric/rounding.hpp"], [("directed operations on double floats", "source/numeric/floatdp.hpp"), ("directed operations on multiple-precision floats", "source/numeric/floatmp.cpp")],
 "Double-precision square root is outside the verifier's reach and searched natively (bounded).")
prop("N02", "Interval (lower/upper bounds) arithmetic encloses the exact result",
 "For all real numbers x, y, z contained in given floating-point bounds, the exact value of every arithmetic operation on them (sum, difference, product, quotient, reciprocal, square, integer powers, square root, absolute value, maximum, minimum, fused product-sum, halving) lies in the bounds computed by the library, in double and in multiple precision, for operators, in-place operators (also aliased) and mixtures of exact values and bounds. Magnitude, mignitude, midpoint with error, widening by an error, truncation, common refinement and coarsening are likewise sound, and the rounding mode is left as it was found.",
 "all bounds, all members, all prior rounding modes", "Outward rounding errors of one unit in the last place are invisible to tests with representable results; sign case distinctions of products and quotients have many combinations.",
 ["source/numeric/float_bounds.hpp", "source/numeric/float_bounds.inl.hpp", "source/numeric/float_bounds.tpl.hpp"], [("operations on bounds", "source/numeric/float_bounds.hpp"), ("product and quotient case distinctions", "source/numeric/float_bounds.tpl.hpp")],
 "Exponents of powers are bounded (-3..5 quick, -5..9 thorough); double-precision square root is searched natively (bounded).")
prop("N04", "Ball (value and error) arithmetic encloses the exact result",
 "For all real numbers within the given error of the given centre values, the exact value of every ball operation (sum, difference, product, quotient, reciprocal, square, powers, square root, absolute value, maximum, minimum, halving, negation) lies within the computed error of the computed centre, also for mixtures with exact values and when the error is kept in a different precision from the centre. Conversions between balls and bounds, changes of precision, magnitudes, refinement, coarsening and the disjointness and containment tests are sound.",
 "all balls, all members, all prior rounding modes", "Roundoff contributions to the error are below test tolerances, and sign/zero cases of reciprocal and absolute value are not sampled.",
 ["source/numeric/float_ball.hpp", "source/numeric/float_ball.tpl.hpp", "source/numeric/float_ball.cpp"], [("operations on balls", "source/numeric/float_ball.hpp")],
 "Exponents of powers bounded by 4; double-precision square root searched natively (bounded).")
exec(open(os.path.join(V, "tools", "more.py")).read()) if os.path.exists(os.path.join(V, "tools", "more.py")) else None
NA = globals().get("NA", [])
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P + NA:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    m = {"version": 1, "setup_cmd": "make -s -j8 -C engine OUT=/verif/build/engine /verif/build/engine/vpverify",
         "checks": [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"], "technique": "contract-based deductive verification: verification conditions from the LLVM IR of the real functions, discharged by Z3", "level": "proof", "level_note": PROOF_NOTE + p["note"]} for p in P],
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA], "notes": "See DESIGN.md. Every check rebuilds the bitcode of the functions under contract from /repo's working tree."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()
