"""Contracts: response conditioning (missing data, counts, signs, trimming, reversing)."""
import numpy as np

from gv.rt import *
from gv.spec import contract, scenario, A, N, R, C, D, L, B, F

MISSING = -99999


# ------------------------------------------------------------ tag_missing_data
def tag_result(dataset, valid_responses):
    return array((dataset.shape[0], dataset.shape[1]),
                 lambda i, j: dataset[i, j]
                 if exists(valid_responses.shape[0], lambda k: valid_responses[k] == dataset[i, j])
                 else MISSING, dtype=int)


def tag_gen(rng):
    d = rng.integers(-2, 7, size=(rng.integers(1, 6), rng.integers(1, 9)))
    d[rng.random(d.shape) < 0.1] = MISSING
    return dict(dataset=d,
                valid_responses=np.array(rng.integers(-2, 6, size=rng.integers(1, 5))))


contract("girth.utilities.utils:tag_missing_data", ["C01"],
         params=dict(dataset=A("n", "m", dt="i"), valid_responses=A("k", dt="i")),
         result=tag_result, gen=tag_gen)


def tag_float_result(dataset, valid_responses):
    return array((dataset.shape[0], dataset.shape[1]),
                 lambda i, j: dataset[i, j]
                 if exists(valid_responses.shape[0], lambda k: valid_responses[k] == dataset[i, j])
                 else MISSING)


def tag_float_gen(rng):
    g = tag_gen(rng)
    g["dataset"] = g["dataset"] + rng.choice([0, 0, 0.5], size=g["dataset"].shape)
    return g


contract("girth.utilities.utils:tag_missing_data", ["C01"],
         cid="girth.utilities.utils:tag_missing_data(float data)",
         params=dict(dataset=A("n", "m"), valid_responses=A("k", dt="i")),
         result=tag_float_result, gen=tag_float_gen)


# ------------------------------------------------------------ counts and signs
def counts_result(responses):
    return (array(responses.shape[0],
                  lambda i: count(responses.shape[1], lambda p: responses[i, p] == 0), dtype=int),
            array(responses.shape[0],
                  lambda i: count(responses.shape[1], lambda p: responses[i, p] == 1), dtype=int))


def dich_gen(rng):
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 9))
    return dict(responses=rng.choice([0, 1, 1, 0, MISSING, 2, -1], size=(n, m)))


contract("girth.utilities.utils:get_true_false_counts", ["C02"],
         params=dict(responses=A("n", "m", dt="i")), result=counts_result, gen=dich_gen)


def sign_result(responses):
    return array((responses.shape[0], responses.shape[1]),
                 lambda i, j: 1 if responses[i, j] == 0 else (-1 if responses[i, j] == 1 else 0))


contract("girth.utilities.utils:convert_responses_to_kernel_sign", ["C02"],
         params=dict(responses=A("n", "m", dt="i")), result=sign_result, gen=dich_gen)


def approx_result(dataset, discrimination, scalar):
    return array(dataset.shape[0], lambda i: np.sqrt(1 + discrimination ** 2 / 3) / discrimination
                 * np.log(count(dataset.shape[1], lambda p: dataset[i, p] == 0)
                          / count(dataset.shape[1], lambda p: dataset[i, p] == 1)))


def approx_result_scalar(dataset, discrimination, scalar):
    return array(dataset.shape[0],
                 lambda i: np.sqrt(1 + discrimination ** 2 / 3) / discrimination * scalar[i])


def approx_requires(dataset):
    return forall(dataset.shape[0], lambda i:
                  exists(dataset.shape[1], lambda p: dataset[i, p] == 0)
                  and exists(dataset.shape[1], lambda p: dataset[i, p] == 1))


def approx_gen(rng):
    n, m = int(rng.integers(1, 5)), int(rng.integers(3, 9))
    d = rng.choice([0, 1, MISSING], size=(n, m))
    d[:, 0], d[:, 1] = 0, 1
    return dict(dataset=d, discrimination=float(rng.uniform(0.2, 4)), scalar=None)


def approx_gen_scalar(rng):
    g = approx_gen(rng)
    g["scalar"] = rng.normal(size=g["dataset"].shape[0])
    return g


contract("girth.utilities.utils:mml_approx", ["C02"],
         params=dict(dataset=A("n", "m", dt="i"), discrimination=R(positive=True), scalar=C(None)),
         requires=approx_requires, result=approx_result, gen=approx_gen)
contract("girth.utilities.utils:mml_approx", ["C02"], cid="girth.utilities.utils:mml_approx(scalar)",
         params=dict(dataset=A("n", "m", dt="i"), discrimination=R(positive=True), scalar=A("n")),
         result=approx_result_scalar, gen=approx_gen_scalar)


# ------------------------------------------------------------ trimming
def uninformative(r, p):
    """pattern p has a response and all its responses agree"""
    return (exists(r.shape[0], lambda i: r[i, p] != MISSING)
            and forall(r.shape[0], lambda i: forall(r.shape[0], lambda j: r[i, p] == MISSING
                       or r[j, p] == MISSING or r[i, p] == r[j, p])))


def valid(r, p):
    return count(r.shape[0], lambda i: r[i, p] != MISSING)


def moment(r, p, e):
    return total(r.shape[0], lambda i: 0 if r[i, p] == MISSING else r[i, p] ** e) / valid(r, p)


def trim_result(response_sets, counts):
    # the variance of finitely many numbers is zero iff they are all equal
    lemma("variance_zero", forall(response_sets.shape[1], lambda p: valid(response_sets, p) == 0 or iff(
        moment(response_sets, p, 2) - moment(response_sets, p, 1) ** 2 == 0,
        forall(response_sets.shape[0], lambda i: forall(response_sets.shape[0], lambda j:
               response_sets[i, p] == MISSING or response_sets[j, p] == MISSING
               or response_sets[i, p] == response_sets[j, p])))))
    keep = array(response_sets.shape[1], lambda p: not uninformative(response_sets, p), dtype=bool)
    return response_sets[:, keep], counts[keep]


def trim_gen(rng):
    n, u = int(rng.integers(1, 5)), int(rng.integers(1, 9))
    r = rng.choice([[0, 1, MISSING], [-3, 2, MISSING], [1, 5, 9, MISSING], [-2, -1, MISSING],
                    [MISSING - 1, MISSING + 1, MISSING]][rng.integers(5)], size=(n, u))
    if rng.random() < 0.5:
        r[:, rng.integers(u)] = rng.integers(0, 2)
    if rng.random() < 0.3:
        r[:, rng.integers(u)] = MISSING
    return dict(response_sets=r, counts=rng.integers(1, 9, size=u))


contract("girth.utilities.utils:trim_response_set_and_counts", ["C04"],
         params=dict(response_sets=A("n", "u", dt="i"), counts=A("u", dt="i")),
         result=trim_result, gen=trim_gen)


# ------------------------------------------------------------ reverse scoring
def reverse_result(dataset, mask, max_val):
    return array((dataset.shape[0], dataset.shape[1]), lambda i, j:
                 max_val + 1 - dataset[i, j]
                 if mask[i] and dataset[i, j] != MISSING else dataset[i, j], dtype=int)


def reverse_raises(dataset, mask):
    return dataset.shape[0] != mask.shape[0]


def reverse_gen(rng):
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 8))
    mx = int(rng.integers(2, 8))
    lo = int(rng.choice([1, 0, -4]))
    d = rng.integers(lo, mx + 1 + int(rng.choice([0, 0, 3])), size=(n, m))
    if rng.random() < 0.2:
        mx = MISSING + mx
    d[rng.random((n, m)) < 0.2] = MISSING
    k = n if rng.random() < 0.85 else n + 1
    return dict(dataset=d, mask=rng.random(k) < 0.5, max_val=mx)


contract("girth.common.reverse:reverse_score", ["C05"],
         params=dict(dataset=A("n", "m", dt="i"), mask=A("k", dt="b"), max_val=N()),
         result=reverse_result, raises=reverse_raises, gen=reverse_gen)


# ------------------------------------------------------------ polytomous recoding
def answered(d, i, p):
    return d[i, p] != MISSING


def kinds(d, i, fits):
    """number of distinct valid answers to item i among those that fit"""
    return count(d.shape[1], lambda q: answered(d, i, q) and fits(d[i, q]) and not exists(
        q, lambda h: answered(d, i, h) and d[i, h] == d[i, q]))


def levels(d, i):
    return max(kinds(d, i, lambda x: True), 2)


def extreme(d, p, value):
    """every answer of person p is value"""
    return answers(d, p) > 0 and forall(
        d.shape[0], lambda i: not answered(d, i, p) or d[i, p] == value)


def answers(d, p):
    return count(d.shape[0], lambda i: answered(d, i, p))


def mean_is(d, p, value):
    return total(d.shape[0], lambda i: d[i, p] if answered(d, i, p) else 0) / answers(d, p) == value


def recode_result(dataset, trim_ends, _reference):
    n, m = dataset.shape
    low = least(n, lambda i: least(m, lambda p: dataset[i, p] if answered(dataset, i, p) else np.inf))
    if trim_ends:
        high = greatest(n, lambda i: greatest(m, lambda p: dataset[i, p] if answered(
            dataset, i, p) else -np.inf))
        lemma("mean_extreme", forall(m, lambda p: answers(dataset, p) == 0 or (
            iff(mean_is(dataset, p, low), extreme(dataset, p, low))
            and iff(mean_is(dataset, p, high), extreme(dataset, p, high)))))
        dataset = dataset[:, array(m, lambda p: not (
            mean_is(dataset, p, low) or mean_is(dataset, p, high)), dtype=bool)]
        m = dataset.shape[1]

    def code(i, p):
        if not answered(dataset, i, p):
            return MISSING
        start = total(i, lambda h: levels(dataset, h)) * _reference
        if kinds(dataset, i, lambda x: True) == 1:
            return start + (0 if least(m, lambda q: dataset[i, q] - low if answered(
                dataset, i, q) else np.inf) == 0 else 1)
        return start + kinds(dataset, i, lambda x: x < dataset[i, p])
    return (array((n, m), code, dtype=int), array(n, lambda i: levels(dataset, i), dtype=int),
            array((n, m), lambda i, p: answered(dataset, i, p), dtype=bool))


def recode_ok(dataset, trim_ends, _reference):
    """every item, and with trimming every person, has a valid answer"""
    n, m = dataset.shape
    if trim_ends and exists(m, lambda p: answers(dataset, p) == 0):
        return False
    return forall(n, lambda i: exists(m, lambda p: answered(dataset, i, p)))


def recode_range(dataset, trim_ends, _reference, result):
    """at least two codes per item; per-item codes start from zero"""
    codes, sizes, ok = result
    if not trim_ends:
        lemma("distinct_below", forall(dataset.shape[0], lambda i: forall(
            dataset.shape[1], lambda p: not answered(dataset, i, p) or kinds(
                dataset, i, lambda x: x < dataset[i, p]) < kinds(dataset, i, lambda x: True))))
    return forall(sizes.shape[0], lambda i: sizes[i] >= 2) and (_reference != 0 or trim_ends or forall(
        codes.shape[0], lambda i: forall(codes.shape[1], lambda p: not ok[i, p] or (
            0 <= codes[i, p] and codes[i, p] < sizes[i]))))


def recode_data(rng):
    n, m = int(rng.integers(1, 5)), int(rng.integers(3, 9))
    d = rng.integers(-1, int(rng.integers(1, 5)), size=(n, m)) * int(rng.integers(1, 3))
    d[rng.random(d.shape) < 0.2] = MISSING
    d[:, 0] = rng.integers(0, 3, size=n)
    return d


for _name, _step, _trim in (("linear", 1.0, False), ("per item", 0.0, False),
                            ("trimmed", 1.0, True)):
    contract("girth.utilities.polytomous_utils:condition_polytomous_response", ["C03"],
             cid="girth.utilities.polytomous_utils:condition_polytomous_response(%s)" % _name,
             params=dict(dataset=A("n", "m", dt="i"), trim_ends=C(_trim), _reference=C(_step)),
             requires=recode_ok, result=recode_result, name_masks=True,
             ensures={"codes": recode_range},
             gen=(lambda s, t: lambda rng: dict(dataset=recode_data(rng), trim_ends=t,
                                                _reference=s))(_step, _trim))
