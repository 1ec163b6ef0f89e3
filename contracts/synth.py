"""Contracts: synthetic data generation."""
import numpy as np
from scipy.special import expit

from gv.rt import *
from gv.spec import contract, scenario, A, N, R, C, D, L, B, F

DS = "girth.synthetic.dichotomous:create_synthetic_irt_dichotomous"
PS = "girth.synthetic.polytomous:"


def _draw(seed, n, m):
    return np.random.default_rng(seed).uniform(size=(n, m))


# ------------------------------------------------------------ dichotomous
def one(v, i):
    """entry i of a per-item parameter that may be a single number"""
    return v if np.ndim(v) == 0 else v[i]


def dich_result(difficulty, discrimination, thetas, guessing, seed):
    n, m = difficulty.shape[0], thetas.shape[0]
    u = _draw(seed, n, m)
    return array((n, m), lambda i, p: 1 if u[i, p] <= one(guessing, i) + (1 - one(guessing, i))
                 * expit(one(discrimination, i) * (thetas[p] - difficulty[i])) else 0, dtype=int)


def dich_md_result(difficulty, discrimination, thetas, guessing, seed):
    n, f = discrimination.shape
    m = thetas.shape[1]
    u = _draw(seed, n, m)
    return array((n, m), lambda i, p: 1 if u[i, p] <= one(guessing, i) + (1 - one(guessing, i))
                 * expit(total(f, lambda k: discrimination[i, k] * thetas[k, p]) + difficulty[i])
                 else 0, dtype=int)


def md_size(discrimination):
    n, f = discrimination.shape
    return n > 1 or f > 1


def dich_gen(scalar_disc, scalar_guess, md=False):
    def gen(rng):
        n, m = int(rng.integers(1, 6)), int(rng.integers(1, 9))
        f = int(rng.integers(1, 4))
        disc = rng.uniform(0.3, 2.5, size=(n, f)) if md else (
            float(rng.uniform(0.3, 2.5)) if scalar_disc else rng.uniform(0.3, 2.5, size=n))
        g = float(rng.uniform(0, 0.6)) if scalar_guess else rng.uniform(0, 0.6, size=n)
        th = rng.normal(size=(f, m)) * 2 if md else rng.normal(size=m) * 2
        return dict(difficulty=rng.normal(size=n), discrimination=disc, thetas=th, guessing=g,
                    seed=int(rng.integers(0, 1000)))
    return gen


for _sd in (False, True):
    for _sg in (False, True):
        contract(DS, ["C09"], cid="%s(%s discrimination, %s guessing)" % (
            DS, "scalar" if _sd else "item", "scalar" if _sg else "item"),
            params=dict(difficulty=A("n"), discrimination=R() if _sd else A("n"), thetas=A("m"),
                        guessing=R() if _sg else A("n"), seed=N(0)),
            result=dich_result, gen=dich_gen(_sd, _sg))
for _sg in (False, True):
    contract(DS, ["C09"], cid="%s(multidimensional, %s guessing)" % (
        DS, "scalar" if _sg else "item"),
        params=dict(difficulty=A("n"), discrimination=A("n", "f"), thetas=A("f", "m"),
                    guessing=R() if _sg else A("n"), seed=N(0)),
        requires=md_size, result=dich_md_result, gen=dich_gen(False, _sg, True))


# ------------------------------------------------------------ category probabilities
def graded_prob(a, b, x, c, k):
    """graded model: category c of k + 1, thresholds b, ability x"""
    above = 1 if c == 0 else expit(a * (x - b[c - 1]))
    return above - (0 if c == k else expit(a * (x - b[c])))


def graded_final(difficulty, discrimination, thetas):
    k = difficulty.shape[0]
    return array((k + 1, thetas.shape[0]), lambda c, p: graded_prob(
        discrimination, difficulty, thetas[p], c, k))


def graded_ok(difficulty, discrimination, thetas, final_output):
    """a probability distribution over the categories"""
    k, m = final_output.shape
    return forall(m, lambda p: close(total(k, lambda c: final_output[c, p]), 1)) and \
        forall(m, lambda p: forall(k, lambda c: 0 <= tol(final_output[c, p])))


def func_gen(model):
    def gen(rng):
        k, m = int(rng.integers(2, 6)), int(rng.integers(1, 7))
        b = rng.normal(size=k) * 1.5
        if model.startswith("grm"):
            b.sort()
        if model == "gum":
            d = np.sort(rng.uniform(0, 2, size=k // 2))
            b = rng.normal() + np.concatenate((-d[::-1], [0], d))
            k = b.size
        out = dict(difficulty=b, discrimination=float(rng.uniform(0.3, 2.5)),
                   thetas=rng.normal(size=m) * 2, output=rng.normal(size=(k + 1, m)))
        if model == "grm_md":
            f = int(rng.integers(1, 4))
            out["difficulty"] = b[::-1].copy()
            out["discrimination"] = rng.normal(size=f)
            out["thetas"] = rng.normal(size=(f, m))
        return out
    return gen


def always(**kw):
    return True


contract(PS + "_graded_func", ["C08", "C10"],
         params=dict(difficulty=A("k", increasing=True), discrimination=R(positive=True),
                     thetas=A("m"), output=A("k+1", "m")), dims=dict(k=2),
         modifies=("output",), monotone=True,
         final=dict(output=graded_final), ensures={"distribution": graded_ok},
         gen=func_gen("grm"))


def md_line(a, t, p):
    return total(a.shape[0], lambda f: a[f] * t[f, p])


def graded_md_final(difficulty, discrimination, thetas):
    k = difficulty.shape[0]
    return array((k + 1, thetas.shape[1]), lambda c, p:
                (1 if c == 0 else expit(md_line(discrimination, thetas, p) + difficulty[c - 1]))
                - (0 if c == k else expit(md_line(discrimination, thetas, p) + difficulty[c])))


def falling(difficulty):
    return forall(difficulty.shape[0] - 1, lambda j: difficulty[j] >= difficulty[j + 1])


contract(PS + "_graded_func_md", ["C08", "C10"],
         params=dict(difficulty=A("k"), discrimination=A("f"),
                     thetas=A("f", "m"), output=A("k+1", "m")), dims=dict(k=2),
         requires=falling,
         modifies=("output",), monotone=True,
         final=dict(output=graded_md_final), ensures={"distribution": graded_ok},
         gen=func_gen("grm_md"))


def credit_weight(a, b, x, c):
    return np.exp(total(c, lambda h: a * (x - b[h])))


def credit_prob(a, b, x, c, k):
    return credit_weight(a, b, x, c) / total(k + 1, lambda h: credit_weight(a, b, x, h))


def credit_final(difficulty, discrimination, thetas):
    k = difficulty.shape[0]
    return array((k + 1, thetas.shape[0]), lambda c, p: credit_prob(
        discrimination, difficulty, thetas[p], c, k))


contract(PS + "_credit_func", ["C08", "C10"],
         params=dict(difficulty=A("k"), discrimination=R(), thetas=A("m"), output=A("k+1", "m")),
         dims=dict(k=2), modifies=("output",),
         final=dict(output=credit_final), ensures={"distribution": graded_ok},
         gen=func_gen("pcm"))


def unfold_final(difficulty, discrimination, thetas):
    k = difficulty.shape[0]
    return array((k + 1, thetas.shape[0]), lambda c, p:
                credit_prob(discrimination, difficulty, thetas[p], c, k)
                + credit_prob(discrimination, difficulty, thetas[p], k - c, k)
                if 2 * c < k else 0)


contract(PS + "_unfold_func", ["C08", "C10"],
         params=dict(difficulty=A("2*h+1"), discrimination=R(), thetas=A("m"),
                     output=A("2*h+2", "m"), src=C(0.)),
         dims=dict(h=1), modifies=("output",),
         final=dict(output=unfold_final), ensures={"distribution": graded_ok},
         gen=lambda rng: {**func_gen("gum")(rng), "src": 0.})


# ------------------------------------------------------------ validation
def check_raises(difficulty, model):
    n, k = difficulty.shape
    if model == "grm":
        return not forall(n, lambda i: forall(k - 1, lambda j: difficulty[i, j]
                                              < difficulty[i, j + 1]))
    if model == "gum":
        if k % 2 == 0:
            return True
        mid = k // 2
        return not forall(n, lambda i: forall(k, lambda j: abs(
            difficulty[i, j] + difficulty[i, k - 1 - j] - 2 * difficulty[i, mid]) < 1e-7))
    return False


def check_result(difficulty, model):
    k = difficulty.shape[1]
    return k // 2 + 1 if model == "gum" else k + 1


def check_gen(model):
    def gen(rng):
        n, k = int(rng.integers(1, 4)), int(rng.integers(2, 6))
        b = rng.normal(size=(n, k))
        if rng.random() < 0.7:
            b.sort(axis=1)
        if model == "gum" and rng.random() < 0.8:
            d = np.sort(rng.uniform(0.1, 2, size=(n, k // 2)), axis=1)
            b = rng.normal(size=(n, 1)) + np.concatenate((-d[:, ::-1], np.zeros((n, 1)), d), axis=1)
            if rng.random() < 0.3:
                b[0, 0] -= 0.5
                b[0, -2 if rng.random() < 0.5 else -1] += 0.5
        if rng.random() < 0.1:
            b[0, 1] = b[0, 0]
        return dict(difficulty=b, model=model)
    return gen


for _m in ("grm", "grm_md", "pcm", "gum"):
    contract(PS + "_check_difficulty_parameters", ["C10"],
             cid=PS + "_check_difficulty_parameters(%s)" % _m,
             params=dict(difficulty=A("n", "k"), model=C(_m)), dims=dict(k=2),
             raises=check_raises, result=check_result, gen=check_gen(_m))


# ------------------------------------------------------------ polytomous generator
def cat_prob(model, b, a, thetas, p, c, i):
    k = b.shape[1]
    if model == "pcm":
        return credit_prob(one(a, i), b[i], thetas[p], c, k)
    if model == "gum":
        return (credit_prob(one(a, i), b[i], thetas[p], c, k)
                + credit_prob(one(a, i), b[i], thetas[p], k - c, k)) if 2 * c < k else 0
    return graded_prob(one(a, i), b[i], thetas[p], c, k)


def md_prob(b, a, thetas, p, c, i):
    k = b.shape[1]
    return ((1 if c == 0 else expit(md_line(a[i], thetas, p) + b[i, c - 1]))
            - (0 if c == k else expit(md_line(a[i], thetas, p) + b[i, c])))


def poly_result(difficulty, discrimination, thetas, model, seed):
    """the response is the category whose slice of [0, 1] holds the draw"""
    n, k = difficulty.shape
    m = thetas.shape[-1]
    u = _draw(seed, n, m)
    top = k // 2 + 1 if model == "gum" else k + 1

    def upto(i, p, c):
        return total(c + 1, lambda h: md_prob(difficulty, discrimination, thetas, p, h, i)
                     if model == "grm_md" else
                     cat_prob(model, difficulty, discrimination, thetas, p, h, i))
    return array((n, m), lambda i, p: min(top, 1 + count(k + 1, lambda c: upto(i, p, c) < u[i, p])),
                 dtype=int)


def poly_requires(difficulty, model):
    n, k = difficulty.shape
    if model == "grm_md":
        return forall(n, lambda i: forall(k - 1, lambda j: difficulty[i, j] >= difficulty[i, j + 1]))
    return True


def poly_raises(difficulty, model):
    return check_raises(difficulty, model)


def poly_gen(model):
    def gen(rng):
        g = check_gen(model)(rng)
        b = g["difficulty"]
        n, m = b.shape[0], int(rng.integers(1, 9))
        if model == "grm_md":
            g["difficulty"] = np.sort(b, axis=1)[:, ::-1].copy()
            f = int(rng.integers(2, 4))
            return dict(g, discrimination=rng.normal(size=(n, f)), thetas=rng.normal(size=(f, m)),
                        seed=int(rng.integers(0, 1000)))
        return dict(g, discrimination=rng.uniform(0.3, 2.5, size=n), thetas=rng.normal(size=m) * 2,
                    seed=int(rng.integers(0, 1000)))
    return gen


def scalar_gen(model):
    def gen(rng):
        return {**poly_gen(model)(rng), "discrimination": float(rng.uniform(0.3, 2))}
    return gen


for _m in ("grm", "pcm", "gum", "grm_md"):
    for _sc in ((False, True) if _m != "grm_md" else (False,)):
        contract(PS + "create_synthetic_irt_polytomous", ["C10"],
                 cid=PS + "create_synthetic_irt_polytomous(%s%s)" % (
                     _m, ", scalar discrimination" if _sc else ""),
                 params=dict(difficulty=A("n", "k"),
                             discrimination=A("n", "f") if _m == "grm_md" else
                             R(positive=True) if _sc else A("n", positive=True),
                             thetas=A("f", "m") if _m == "grm_md" else A("m"),
                             model=C(_m), seed=N(0)),
                 dims=dict(k=2, f=2), requires=poly_requires, raises=poly_raises, monotone=True,
                 result=poly_result, gen=scalar_gen(_m) if _sc else poly_gen(_m),
                 use=tuple(PS + x for x in ("_graded_func", "_graded_func_md", "_credit_func",
                                            "_unfold_func", "_check_difficulty_parameters")))
