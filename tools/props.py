"""Source of properties.jsonl and MANIFEST.json (python tools/props.py)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech]}})


U = "estimation/utilities/"
D = "estimation/unidimensional/dichotomous/"
Y = "estimation/unidimensional/polytomous/"
M = "estimation/multidimensional/"
ALLIN = ["inputs"]

prop("C01", "Tagging missing data changes exactly the invalid entries",
     "tag_missing_data(data, valid) returns an array of the same shape in which every entry that is "
     "one of the valid response values is unchanged and every other entry is the "
     "invalid-response marker. The caller's array is not changed.",
     ALLIN, "every two-dimensional data set (integers or floats) and every list of "
     "valid responses",
     "the tests tag two fixed data sets", [U + "utils.py"],
     [("tag_missing_data", U + "utils.py")])
prop("C02", "Missing entries never count as responses or change likelihood signs",
     "The per-item counts returned for a dichotomous data set count exactly the 0 and the 1 entries, "
     "the kernel sign of an entry is +1 for 0, -1 for 1 and 0 for anything else, and the approximate "
     "difficulty of an item is sqrt(1+a^2/3)/a times the log ratio of its 0 count to its 1 count "
     "(or the given log ratio). Missing entries influence none of them.",
     ALLIN, "every dichotomous data set with any pattern of missing entries, scalar or per-item "
     "discrimination",
     "the tests compare a few random data sets; missing patterns are not enumerated",
     [U + "utils.py", D + "dichotomous_utils.py"],
     [("get_true_false_counts", D + "dichotomous_utils.py"),
      ("convert_responses_to_kernel_sign", U + "utils.py"), ("mml_approx", U + "utils.py")])
prop("C03", "Recoding of polytomous responses keeps order and counts categories per item",
     "condition_polytomous_response gives every item as many categories as it shows distinct valid "
     "answers (at least two) and codes an answer as the item's offset plus the number of its distinct "
     "smaller answers; a single-valued item is coded 0 if it shows the data's lowest value, else 1. "
     "Offsets are running totals, or zero by request. Missing stays missing; trimming drops "
     "exactly the persons whose answers are all lowest or all highest.",
     ALLIN, "every integer polytomous data set (any values, unequal categories per item, any missing "
     "pattern leaving each item an answer)",
     "tests use items with the same consecutive categories", [U + "polytomous_utils.py"],
     [("condition_polytomous_response", U + "polytomous_utils.py")])
prop("C04", "Trimming removes exactly the response sets with no variance",
     "trim_response_set_and_counts keeps, in their order and with their counts, exactly the columns "
     "whose valid entries are not all equal, and removes every column that has valid entries which "
     "are all equal, whatever entries are missing.",
     ALLIN, "every response-set matrix with missing entries and every count vector",
     "a test trims one fixed matrix", [U + "utils.py"],
     [("trim_response_set_and_counts", U + "utils.py")])
prop("C05", "Reverse scoring flips the flagged items and nothing else",
     "reverse_score maps every valid response x of a flagged item to max_val + 1 - x, leaves missing "
     "entries and unflagged items as they are, refuses a flag vector of another length, and does not "
     "change the caller's array.",
     ALLIN, "every data set, flag vector and missing-response marker",
     "the tests reverse small fixed arrays", ["common/reverse.py"],
     [("reverse_score", "common/reverse.py")])
prop("C07", "Marginal-likelihood integrands are the exact model probabilities of the answers",
     "At every quadrature node the integrand for a person's answer to an item is the model's "
     "probability of that answer (logistic with and without guessing, graded, partial credit, "
     "unfolding; one or more dimensions), multiplied over items, and a missing answer "
     "multiplies by exactly 1 (by a number that does not depend on ability in the guessing model).",
     ALLIN, "all item parameters, abilities, response matrices and missing patterns",
     "the tests evaluate single items at fixed parameters",
     [D + "partial_integrals.py", Y + "partial_integrals_poly.py", M + "partial_integral_md.py"],
     [("_compute_partial_integral", D + "partial_integrals.py"),
      ("_graded_partial_integral", Y + "partial_integrals_poly.py"),
      ("_credit_partial_integral", Y + "partial_integrals_poly.py"),
      ("_unfold_partial_integral", Y + "partial_integrals_poly.py")])
prop("C11", "EAP abilities are the posterior means of the chosen prior and model",
     "Expected a posteriori abilities equal the quadrature posterior mean: the ratio of the "
     "prior-weighted likelihood integrals of ability and of 1 over the option's quadrature nodes, "
     "one value per person in column order, with missing answers ignored.",
     ALLIN, "all data sets (any missing pattern), item parameters, priors and quadrature options",
     "tests compare a handful of fixed items and one prior",
     [D + "ability_estimation.py", D + "ability_threepl.py", Y + "ability_estimation_poly.py"],
     [("ability_eap", D + "ability_estimation.py"), ("ability_3pl_eap", D + "ability_threepl.py")])
prop("C12", "MAP and ML abilities optimise the right posterior, missing answers ignored",
     "MAP abilities (2PL and 3PL) are the bounded minimiser over (-6, 6) of the negative model "
     "log-likelihood of the person's valid answers minus the log prior, and ML abilities the same "
     "with a flat prior. A person whose valid answers are all 1 (all 0) has no ML estimate and gets "
     "plus (minus) the given no-estimate magnitude; missing answers change neither the estimate nor "
     "that decision.",
     ALLIN, "all dichotomous data sets, missing patterns, item parameters and priors",
     "tests compare estimates with true values loosely on random data; none has a missing "
     "answer in an otherwise constant response vector",
     [D + "ability_estimation.py", D + "ability_threepl.py"],
     [("ability_map", D + "ability_estimation.py"), ("ability_mle", D + "ability_estimation.py"),
      ("ability_3pl_map", D + "ability_threepl.py"),
      ("ability_3pl_mle", D + "ability_threepl.py")])
prop("C16", "Quadrature nodes and weights integrate over exactly the requested bounds",
     "The quadrature rule built for given bounds and order has that many nodes, all inside the "
     "bounds, being the affine image of the Gauss-Legendre rule with weights scaled by half the "
     "width.",
     ALLIN, "all bounds and orders", "tests use one default rule", [U + "utils.py"],
     [("_get_quadrature_points", U + "utils.py")])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")).read())

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P.sort(key=lambda p: p["id"])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
TECH = ("contract-based deductive verification: contracts on the real functions, VCs generated "
        "from /repo's AST on every run, discharged by normal forms + z3/cvc5 (Lean for lemmas)")
NOTE = ("Every obligation generated from the current source is discharged for all inputs; machine "
        "arithmetic is mathematical reals/integers, NumPy/SciPy calls are trusted contracts; "
        "concrete contract runs accompany the proof to replay failures. ")
man = {"version": 1, "setup_cmd": "/verif/bin/setup", "checks": [], "not_applicable": [],
       "notes": "See DESIGN.md. Fixed defects: known_findings.txt."}
ids = {p["id"] for p in P}
for p in P:
    i = p["id"]
    if i in NA:
        man["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    man["checks"].append({"property": i, "quick_cmd": "bin/check %s --tier quick" % i,
                          "thorough_cmd": "bin/check %s --tier thorough" % i,
                          "technique": TECH, "level": LEVEL.get(i, "proof"),
                          "level_note": NOTE + EXTRA.get(i, "")})
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "claimed")
