"""Concrete side of the contracts: run the real code from /repo and the
contract on the same inputs.  Used to replay failures and to cross-check the
logical reading of the contracts; it never counts as proof."""
import copy
import importlib
import os
import pickle
import signal
import time
import traceback
import warnings

import numpy as np

from . import spec as S


class Slow(Exception):
    pass


def _alarm(sig, frm):
    raise Slow()


def resolve(qual):
    mod, name = qual.split(":")
    m = importlib.import_module(mod)
    o = m
    for p in name.split("."):
        o = getattr(o, p)
    return o


def rng_for(seed, name, k):
    import hashlib
    h = hashlib.sha256(("%s|%s|%s" % (seed, name, k)).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "big"))


# ------------------------------------------------------------ default inputs
def gen_params(c, params, rng):
    dims = {}

    def dim(d):
        if isinstance(d, int):
            return d
        if any(ch in d for ch in "+-*"):
            import re
            return eval(re.sub(r"[A-Za-z_]\w*", lambda m: str(dim(m.group())), d))
        if d not in dims:
            lo = c.dims.get(d, 1)
            dims[d] = int(rng.integers(lo, lo + 5))
        return dims[d]

    def make(p):
        if isinstance(p, S.A):
            sh = tuple(dim(d) for d in p.dims)
            if p.values is not None:
                return np.array(rng.choice(list(p.values), size=sh))
            if p.dt == "b":
                return rng.random(sh) < 0.5
            if p.dt == "i":
                lo = -3 if p.lo is None else p.lo
                hi = lo + 6 if p.hi is None else p.hi
                x = rng.integers(lo, hi + 1, size=sh)
            else:
                if p.lo is None and p.hi is None:
                    x = rng.normal(size=sh) * 1.5
                else:
                    lo = p.lo if p.lo is not None else p.hi - 4
                    hi = p.hi if p.hi is not None else lo + 4
                    x = rng.uniform(lo, hi, size=sh)
                if p.positive:
                    x = np.abs(x) + 0.1
            if p.increasing:
                x = np.sort(x, axis=0)
            return x
        if isinstance(p, S.R):
            lo = p.lo if p.lo is not None else (0.05 if p.positive else -3)
            hi = p.hi if p.hi is not None else lo + 5
            return float(rng.uniform(lo, hi))
        if isinstance(p, S.N):
            lo = p.lo if p.lo is not None else -2
            hi = p.hi if p.hi is not None else lo + 6
            return int(rng.integers(lo, hi + 1))
        if isinstance(p, S.Dim):
            return dim(p.name)
        if isinstance(p, S.B):
            return bool(rng.random() < 0.5)
        if isinstance(p, S.C):
            return copy.deepcopy(p.value)
        if isinstance(p, S.D):
            return {k: make(q) for k, q in p.items.items()}
        if isinstance(p, S.L):
            return p.kind(make(q) for q in p.items)
        if isinstance(p, S.F):
            return p.native or native_fn(p, rng)
        if isinstance(p, S.Fn):
            return resolve(p.qual)
        raise TypeError(p)
    return {k: make(p) for k, p in params.items()}


class NativeFn:
    def __init__(self, a, b, c, positive):
        self.a, self.b, self.c, self.positive = a, b, c, positive

    def __call__(self, x):
        y = self.a * np.sin(self.b * np.asarray(x, dtype=float)) + self.c
        return np.exp(y) if self.positive else y


def native_fn(p, rng):
    return NativeFn(rng.normal(), rng.normal(), rng.normal(), p.positive)


def pick(fn, args):
    names = fn.__code__.co_varnames[:fn.__code__.co_argcount]
    return {k: v for k, v in args.items() if k in names}


# ------------------------------------------------------------ comparison
def differ(got, want, tol, path="result"):
    """None when equal, else a message."""
    if want is None or isinstance(want, str):
        return None if (got is None if want is None else got == want) else \
            "%s is %r, expected %r" % (path, got, want)
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want):
            return "%s has keys %r, expected %r" % (
                path, sorted(got) if isinstance(got, dict) else type(got), sorted(want))
        for k in want:
            m = differ(got[k], want[k], tol, "%s[%r]" % (path, k))
            if m:
                return m
        return None
    if isinstance(want, (tuple, list)) and not np.isscalar(want):
        if isinstance(got, np.ndarray):
            want = np.asarray(want)
        else:
            if not isinstance(got, (tuple, list)) or len(got) != len(want):
                return "%s has %s entries, expected %d" % (
                    path, len(got) if hasattr(got, "__len__") else "no", len(want))
            for i, (g, w) in enumerate(zip(got, want)):
                m = differ(g, w, tol, "%s[%d]" % (path, i))
                if m:
                    return m
            return None
    if callable(want):
        if not callable(got):
            return "%s is %s, expected a function" % (path, type(got).__name__)
        for x in (-2.3, -0.4, 0.0, 0.7, 1.9):
            m = differ(got(x), want(x), tol, "%s(%g)" % (path, x))
            if m:
                return m
        return None
    if isinstance(got, np.ma.MaskedArray):
        return "%s is a masked array" % path
    try:
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    except (TypeError, ValueError):
        return "%s is %s, expected numbers" % (path, type(got).__name__)
    if g.shape != w.shape:
        return "%s has shape %r, expected %r" % (path, g.shape, w.shape)
    ok = np.isclose(g, w, rtol=tol, atol=tol, equal_nan=True)
    if not ok.all():
        ix = tuple(int(x) for x in np.argwhere(~ok)[0]) if g.ndim else ()
        return "%s%s is %r, expected %r" % (path, list(ix) if ix else "", float(g[ix]), float(w[ix]))
    return None


def unchanged(a, b, path):
    if isinstance(a, np.ndarray):
        if not (isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype
                and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")):
            return "argument %s was modified" % path
        return None
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return "argument %s was modified" % path
        for k in a:
            m = unchanged(a[k], b[k], "%s[%r]" % (path, k))
            if m:
                return m
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "argument %s was modified" % path
        for i, (x, y) in enumerate(zip(a, b)):
            m = unchanged(x, y, "%s[%d]" % (path, i))
            if m:
                return m
        return None
    if isinstance(a, (int, float, str, bool, type(None), np.generic)):
        same = a == b or (a != a and b != b)
        return None if same else "argument %s was modified" % path
    return None


# ------------------------------------------------------------ one run
def run_contract(c, args):
    """-> None | 'skip' | message."""
    fn = c.native if c.native is not None else resolve(c.qual)
    orig = copy.deepcopy(args)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        if c.requires is not None and not c.requires(**pick(c.requires, copy.deepcopy(args))):
            return "skip"
        expect = bool(c.raises(**pick(c.raises, copy.deepcopy(args)))) if c.raises else False
        call = copy.deepcopy(args)
        try:
            res = fn(**call)
        except Slow:
            raise
        except Exception as e:
            if expect:
                return None
            if c.result is not None and not c.raises:
                try:
                    c.result(**pick(c.result, copy.deepcopy(orig)))
                except Slow:
                    raise
                except type(e):
                    return "skip"          # a library call refuses in the specification too
                except Exception:
                    pass
            return "unexpected %s: %s" % (type(e).__name__, str(e)[:200])
        if expect:
            return "no exception raised, the contract requires one"
        for k in orig:
            if k not in c.modifies:
                m = unchanged(orig[k], call[k], k)
                if m:
                    return m
        if c.concrete is not None:
            if not c.concrete(result=res, **pick(c.concrete, copy.deepcopy(orig))):
                return "the result is not the one specified"
        elif c.result is not None:
            want = c.result(**pick(c.result, copy.deepcopy(orig)))
            m = differ(res, want, c.tol)
            if m:
                return m
        for k, fn in c.final.items():
            m = differ(call[k], fn(**pick(fn, copy.deepcopy(orig))), c.tol)
            if m:
                return "final %s: %s" % (k, m)
        ens = c.ensures if isinstance(c.ensures, dict) else (
            {"ensures": c.ensures} if c.ensures is not None else {})
        kw = dict(copy.deepcopy(orig))
        kw["result"] = res
        for k in c.modifies:
            kw["final_" + k] = call[k]
        for nm, e in ens.items():
            if not e(**pick(e, kw)):
                return "postcondition '%s' is false" % nm
    return None


def make_args(c, params, rng):
    if c.gen is not None:
        names = c.gen.__code__.co_varnames[:c.gen.__code__.co_argcount]
        return c.gen(rng, params) if len(names) > 1 else c.gen(rng)
    return gen_params(c, params, rng)


def campaign(cid, case_index, seed, runs, budget, stop_first=True, bent=False):
    """-> dict(runs, skipped, failures=[(k, message, args)])"""
    S.loadall()
    c = S.REGISTRY[cid]
    label, params = c.cases[case_index]
    out = {"name": cid, "case": label, "runs": 0, "skipped": 0, "failures": [], "slow": 0}
    signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    k = 0
    bend = None
    if bent:
        from .stretch import Bend, applies
        if not applies(c):
            return out
        bend = Bend(c, c.native if c.native is not None else resolve(c.qual))
    while out["runs"] < runs and k < runs * 20 and time.time() - t0 < budget:
        k += 1
        rng = rng_for(seed, cid + "/" + label, k)
        args = make_args(c, params, rng)
        if bend is not None:
            args = bend.bend(params, args, rng)
        signal.setitimer(signal.ITIMER_REAL, max(5, budget))
        try:
            m = run_contract(c, args)
        except Slow:
            out["slow"] += 1
            if out["slow"] > 1:
                break
            continue
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if m == "skip":
            out["skipped"] += 1
            continue
        out["runs"] += 1
        if m is not None:
            out["failures"].append((k, m, args))
            if stop_first:
                break
    out["secs"] = round(time.time() - t0, 2)
    return out


def scen_campaign(name, seed, runs, budget):
    S.loadall()
    s = S.SCEN[name]
    out = {"name": name, "case": "", "runs": 0, "skipped": 0, "failures": [], "slow": 0}
    signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    k = 0
    while out["runs"] < runs and k < runs * 3 and time.time() - t0 < budget:
        k += 1
        args = s.gen(rng_for(seed, name, k))
        signal.setitimer(signal.ITIMER_REAL, max(5, budget))
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                m = s.run(**copy.deepcopy(args))
        except Slow:
            out["slow"] += 1
            if out["slow"] > 1:
                break
            continue
        except Exception as e:
            m = "unexpected %s: %s" % (type(e).__name__, str(e)[:200])
            m += " | " + traceback.format_exc().strip().splitlines()[-3].strip()[:150]
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if m == "skip":
            out["skipped"] += 1
            continue
        out["runs"] += 1
        if m is not None:
            out["failures"].append((k, m, args))
            break
    out["secs"] = round(time.time() - t0, 2)
    return out


def text(v, n=4000):
    with np.printoptions(threshold=400, precision=17):
        return repr(v)[:n]


def dump(path, prop, kind, name, case, k, seed, message, args):
    """replay file (readable) with the pickled input beside it."""
    pk = path + ".pkl"
    try:
        with open(pk, "wb") as f:
            pickle.dump(args, f)
    except Exception:
        pk = None
    with open(path, "w") as f:
        f.write("property: %s\n%s: %s\ncase: %s\nseed: %s  run: %s\n" % (
            prop, kind, name, case, seed, k))
        f.write("violation: %s\n" % message)
        f.write("replay: /opt/venv/bin/python -m gv.replay %s   (from /verif)\n" % path)
        f.write("input:\n")
        for a, v in args.items():
            f.write("  %s = %s\n" % (a, text(v)))
    return pk
