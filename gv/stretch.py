"""Inputs for the search after a failed obligation: generated inputs bent
towards the constants that the code under test mentions (sizes, scales, ties)."""
import inspect
import types

import numpy as np

from . import spec as S


def literals(fn):
    """numbers in the code of fn and of the functions of the program it names"""
    nums, seen, todo = set(), set(), [fn]

    def code(co, g):
        for x in co.co_consts:
            if isinstance(x, types.CodeType):
                code(x, g)
            elif isinstance(x, (int, float)) and not isinstance(x, bool):
                nums.add(x)
            elif isinstance(x, tuple):
                nums.update(y for y in x if isinstance(y, (int, float))
                            and not isinstance(y, bool))
        for n in co.co_names:
            o = g.get(n)
            if callable(o) and str(getattr(o, "__module__", "")).startswith("girth"):
                todo.append(o)
    while todo:
        f = todo.pop()
        if inspect.isclass(f):
            todo.extend(v for v in vars(f).values() if inspect.isfunction(v))
            continue
        f = inspect.unwrap(f) if callable(f) else f
        if isinstance(f, types.FunctionType) and f not in seen:
            seen.add(f)
            code(f.__code__, f.__globals__)
    return sorted(x for x in nums if x == x and abs(x) <= 100)


# contracts whose results are ill conditioned in floating point at unusual
# inputs: only sizes and ties are bent / nothing is
MILD = ("ability_", "_partial_integral", "_solve_integral", "synthetic_irt_poly",
        "contracts.models:")
NEVER = ("procrustes", "factoranalysis.", "contracts.factor", "_jml", "_mml", "contracts.poly:",
         "contracts.latent:", "LatentPDF")


def applies(c):
    return not any(x in c.cid for x in NEVER)


def plain(d):
    return isinstance(d, str) and not any(ch in d for ch in "+-*")


class Bend:
    def __init__(self, c, fn):
        self.c = c
        self.mild = any(x in c.cid for x in MILD)
        self.lits = literals(fn)
        self.sizes = sorted({int(x) + e for x in self.lits for e in (0, 1, 2, 5)
                             if x == int(x) and 3 <= x <= 160} | {8, 16, 33})

    def number(self, p, x, rng, whole=False):
        lo, hi = p.lo, p.hi
        near = [v for v in self.lits if (lo is None or v >= lo) and (hi is None or v <= hi)]
        r = rng.random()
        if r < 0.55 and near:
            y = near[rng.integers(len(near))]
            if not whole:
                y = y + [0, 0, 1e-3, -1e-3, 0.3, 10][rng.integers(6)]
            else:
                y = y + int(rng.integers(-1, 2))
        elif r < 0.75:
            y = -x
        else:
            y = x * [0.1, 1.5, 3][rng.integers(3)]
        if whole:
            y = int(y)
        if lo is not None:
            y = max(y, lo)
        if hi is not None:
            y = min(y, hi)
        if getattr(p, "positive", False) and y <= 0:
            y = abs(y) or x
        return y if whole else float(y)

    def pairs(self, params, args):
        """(parameter, container, key) of every leaf"""
        out = []

        def go(p, box, k):
            if isinstance(p, S.D):
                for n, q in p.items.items():
                    if isinstance(box[k], dict) and n in box[k]:
                        go(q, box[k], n)
            elif isinstance(p, S.L):
                if isinstance(box[k], list):
                    for n, q in enumerate(p.items):
                        go(q, box[k], n)
            else:
                out.append((p, box, k))
        for k, p in params.items():
            if k in args:
                go(p, args, k)
        return out

    def bend(self, params, args, rng):
        leaves = self.pairs(params, args)
        if not leaves:
            return args
        for _ in range(int(rng.integers(1, 4))):
            p, box, k = leaves[rng.integers(len(leaves))]
            if rng.random() < 0.3:
                self.resize(leaves, rng)
            elif self.mild and not isinstance(p, S.A):
                pass
            elif isinstance(p, S.R) and isinstance(box[k], (int, float)):
                box[k] = self.number(p, float(box[k]), rng)
            elif isinstance(p, S.N) and not isinstance(p, S.Dim) and isinstance(box[k], int):
                if not self.drives(p):
                    box[k] = self.number(p, box[k], rng, True)
            elif isinstance(p, S.A) and isinstance(box[k], np.ndarray) and box[k].size:
                box[k] = self.entries(p, box[k].copy(), rng)
        return args

    def drives(self, p):
        """limits of loops stay as generated"""
        return p.hi is None

    def entries(self, p, x, rng):
        flat = x.reshape(-1)
        i, j = rng.integers(flat.size, size=2)
        r = rng.random()
        if p.dt == "b":
            flat[i] = not flat[i]
        elif p.values is not None or p.dt == "i" or r < 0.3 or self.mild:
            if x.ndim > 1 and r < 0.15:
                x[:, rng.integers(x.shape[1])] = x[:, rng.integers(x.shape[1])]
            elif x.ndim > 1 and r < 0.2:
                a = int(rng.integers(x.shape[0]))
                x[a] = flat[i]
            else:
                flat[i] = flat[j]
        elif x.dtype.kind == "f":
            if r < 0.6:
                flat[i] = self.number(p, float(flat[i]), rng)
            elif r < 0.8 and p.lo is None and p.hi is None and not p.positive:
                x *= [0.1, 1.5][rng.integers(2)]
            elif p.lo is None and not p.positive:
                flat[i] = 0.0
        if p.increasing:
            x.sort(axis=0)
        return x

    def resize(self, leaves, rng):
        arrays = [(p, box, k) for p, box, k in leaves if isinstance(p, S.A)]
        names = {d for p, _, _ in arrays for d in p.dims if plain(d)}
        if not names or any(not isinstance(box[k], np.ndarray) or box[k].ndim != len(p.dims)
                            for p, box, k in arrays):
            return
        d = sorted(names)[rng.integers(len(names))]
        old = {box[k].shape[j] for p, box, k in arrays for j, e in enumerate(p.dims) if e == d}
        if len(old) != 1 or any(not plain(e) and d in str(e) for p, _, _ in arrays
                                for e in p.dims) or any(p.increasing for p, _, _ in arrays):
            return
        old = old.pop()
        new = self.sizes[rng.integers(len(self.sizes))]
        if old == 0 or new < self.c.dims.get(d, 1):
            return
        total = 1
        for p, box, k in arrays:
            if d in p.dims:
                total = max(total, box[k].size // old * new)
        if total > 4000:
            return
        ix = rng.integers(old, size=new)
        ix[:min(old, new)] = np.arange(min(old, new))
        for p, box, k in arrays:
            for j, e in enumerate(p.dims):
                if e == d:
                    box[k] = np.take(box[k], ix, axis=j)
        for p, box, k in leaves:
            if isinstance(p, S.Dim) and p.name == d:
                box[k] = new
