"""Obligation discharge: normal form first, then z3, then cvc5.

A goal is proved under a list of facts.  Binder terms (sum, prod, all, min,
max, and library applications taking a function argument) are abstracted to
constants; two of them get the same constant when their ranges and bodies are
proved equal for an arbitrary index (congruence), which is again an obligation
of the same kind.  All abstractions lose information only towards 'not proved'.
"""
import os
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

from .terms import *  # noqa: E402,F403
from . import terms as T_  # noqa: E402
from . import align as AL  # noqa: E402
from . import fold as FD  # noqa: E402

THIS = sys.modules[__name__]

Z3_TIMEOUT = 6000
CVC5_TIMEOUT = 8


class Stats:
    def __init__(self):
        self.queries = 0
        self.z3_time = 0.0
        self.cvc5_time = 0.0
        self.by = {"normal-form": 0, "z3": 0, "cvc5": 0}


STATS = Stats()


class Instantiator:
    """forall facts about the entries of an input symbol: fn(args)->[facts]."""

    def __init__(self, symbol, fn):
        self.symbol, self.fn = symbol, fn


class Env:
    """Background knowledge of one verification task."""

    def __init__(self):
        self.facts = []
        self.inst = {}          # app name -> [fn(args)->list of bool terms]
        self.monotone = False   # instantiate monotonicity of exp/expit pairs
        self.tlimit = Z3_TIMEOUT
        self.use_cvc5 = True
        self.memo = {}

    def add_inst(self, symbol, fn):
        self.inst.setdefault(symbol, []).append(fn)

    def copy(self):
        e = Env()
        e.facts = list(self.facts)
        e.inst = {k: list(v) for k, v in self.inst.items()}
        e.monotone, e.tlimit, e.use_cvc5 = self.monotone, self.tlimit, self.use_cvc5
        return e


def is_hard(t):
    return t.op in ("sum", "prod", "all", "minb", "maxb") or (
        t.op == "app" and any(isinstance(a, T) and a.op == "lam" for a in t.args[1:]))


def collect(ts):
    """all subterms reachable without entering binders; (apps, hard, others)."""
    seen = set()
    apps, hard = [], []
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if is_hard(t):
            hard.append(t)
            if t.op == "app":
                apps.append(t)
                for a in t.args[1:]:
                    if isinstance(a, T) and a.op != "lam":
                        stack.append(a)
            elif t.op != "lam":
                stack.append(t.args[1])
            continue
        if t.op == "app":
            apps.append(t)
        stack.extend(children(t))
    return apps, hard, seen


class Z:
    """One z3 query builder."""

    def __init__(self, rep):
        self.cache = {}
        self.rep = rep            # hard term -> representative hard term
        self.consts = {}
        self.side = []
        self.funcs = {}

    def const(self, t):
        r = self.rep.get(t, t)
        c = self.consts.get(r)
        if c is None:
            name = "h%d" % r.id
            c = z3.Bool(name) if r.sort == "B" else (
                z3.Int(name) if r.sort == "I" else z3.Real(name))
            self.consts[r] = c
        return c

    def real(self, t):
        x = self.tr(t)
        if z3.is_int(x):
            return z3.ToReal(x)
        return x

    def tr(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self._tr(t)
            self.cache[t] = r
        return r

    def _tr(self, t):
        op = t.op
        if op == "num":
            q = t.args[0]
            return z3.IntVal(int(q)) if q.denominator == 1 else z3.RealVal(str(q))
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op in ("var", "bv"):
            nm = "v%d" % t.id
            if t.sort == "I":
                return z3.Int(nm)
            if t.sort == "B":
                return z3.Bool(nm)
            return z3.Real(nm)
        if op == "nan":
            return z3.Real("NaN_value")
        if op == "str":
            return z3.Real("str%d" % t.id)
        if is_hard(t):
            return self.const(t)
        if op == "poly":
            isint = t.sort == "I"
            terms = []
            for m, c in t.args:
                fs = []
                for a, e in m:
                    x = self.tr(a) if isint else self.real(a)
                    if e < 0:
                        x = self.inverse(a)
                        e = -e
                    for _ in range(e):
                        fs.append(x)
                if isint:
                    cc = z3.IntVal(int(c))
                else:
                    cc = z3.RealVal(str(c))
                if not fs:
                    terms.append(cc)
                else:
                    p = fs[0]
                    for f in fs[1:]:
                        p = p * f
                    if c != 1:
                        p = cc * p
                    terms.append(p)
            return z3.Sum(terms) if len(terms) > 1 else terms[0]
        if op == "not":
            return z3.Not(self.tr(t.args[0]))
        if op == "and":
            return z3.And([self.tr(a) for a in t.args])
        if op == "iff":
            return self.tr(t.args[0]) == self.tr(t.args[1])
        if op == "le0":
            return self.tr(t.args[0]) <= 0
        if op == "lt0":
            return self.tr(t.args[0]) < 0
        if op == "eq0":
            return self.tr(t.args[0]) == 0
        if op == "equ":
            return self.real(t.args[0]) == self.real(t.args[1])
        if op == "ite":
            c = self.tr(t.args[0])
            if t.sort == "B":
                return z3.If(c, self.tr(t.args[1]), self.tr(t.args[2]))
            if t.sort == "I":
                return z3.If(c, self.tr(t.args[1]), self.tr(t.args[2]))
            return z3.If(c, self.real(t.args[1]), self.real(t.args[2]))
        if op == "app":
            name = t.args[0]
            args = t.args[1:]
            if name == "div0":
                return z3.Real("div0")
            zs = [self.real(a) if a.sort in ("I", "R", "U") else
                  z3.If(self.tr(a), z3.RealVal(1), z3.RealVal(0)) for a in args]
            rs = {"I": z3.IntSort(), "B": z3.BoolSort()}.get(t.sort, z3.RealSort())
            if not zs:
                return z3.Const("k_" + name, rs)
            f = self.funcs.get((name, len(zs), t.sort))
            if f is None:
                f = z3.Function("f_%s_%d_%s" % (name, len(zs), t.sort),
                                *([z3.RealSort()] * len(zs) + [rs]))
                self.funcs[(name, len(zs), t.sort)] = f
            return f(*zs)
        raise Unsupported("z3 translation of " + op)

    def inverse(self, a):
        key = ("inv", a)
        r = self.cache.get(key)
        if r is None:
            r = z3.Real("inv%d" % a.id)
            self.cache[key] = r
            x = self.real(a)
            self.side.append(z3.Implies(x != 0, x * r == 1))
        return r


def axioms_for(apps, seen, env, deep):
    """Ground instances of the trusted function axioms."""
    out = []
    byname = {}
    for t in apps:
        byname.setdefault(t.args[0], []).append(t)
    for t in byname.get("exp", []) + byname.get("legw", []):
        out.append(lt(ZERO, t))
    for t in byname.get("expit", []):
        out.append(lt(ZERO, t))
        out.append(lt(t, ONE))
    if env.monotone:
        for nm in ("exp", "expit"):
            ts = byname.get(nm, [])[:12]
            for i, a in enumerate(ts):
                for b in ts[i + 1:]:
                    out.append(iff(le(a.args[1], b.args[1]), le(a, b)))
                if nm == "expit":
                    out.append(iff(le(a.args[1], ZERO), le(a, HALF)))
                    # expit(-x) = 1 - expit(x) is a normal-form rule
        ts = byname.get("expit", [])[:12]
        for i, a in enumerate(ts):
            for b in ts[i + 1:]:
                # f(x) vs 1 - f(y):  1 - f(y) = f(-y)
                out.append(iff(le(a.args[1], neg(b.args[1])), le(a, sub(ONE, b))))
    for t in byname.get("sqrt", []):
        u = t.args[1]
        out.append(implies(le(ZERO, u), b_and(le(ZERO, t))))
        out.append(implies(lt(ZERO, u), lt(ZERO, t)))
        out.append(("sq", t, u))
    sc = {}
    for nm in ("sin", "cos"):
        for t in byname.get(nm, []):
            sc.setdefault(t.args[1], set()).add(nm)
    for u in sc:
        s, c = app("sin", [u]), app("cos", [u])
        out.append(eq(add(mul(s, s), mul(c, c)), ONE))
        out.append(b_and(le(MINUS1, s), le(s, ONE), le(MINUS1, c), le(c, ONE)))
    for t in byname.get("arccos", []):
        u = t.args[1]
        inr = b_and(le(MINUS1, u), le(u, ONE))
        out.append(implies(inr, b_and(le(ZERO, t), le(t, PI),
                                      eq(app("cos", [t]), u),
                                      le(ZERO, app("sin", [t])))))
    if any(PI in t.fv for t in apps if t.fv):
        pass
    for t in byname.get("cosh", []):
        out.append(le(ONE, t))
    for t in byname.get("ndist", []):
        n, l = t.args[1:3]
        i, j = fresh("i", "I"), fresh("j", "I")
        if len(t.args) == 3:
            flat = mk_all(n, i, eq(lam_apply(l, i), lam_apply(l, ZERO)))
            out.append(implies(lt(ZERO, n), b_and(le(ONE, t), le(t, n), iff(eq(t, ONE), flat))))
            out.append(b_and(le(ZERO, t)))
        else:
            m = t.args[3]
            none = mk_all(n, i, b_not(lam_apply(m, i)))
            flat = mk_all(n, i, mk_all(n, j, implies(b_and(lam_apply(m, i), lam_apply(m, j)),
                                                     eq(lam_apply(l, i), lam_apply(l, j)))))
            out.append(b_and(le(ZERO, t), iff(eq(t, ZERO), none), iff(le(t, ONE), flat)))
    for t in byname.get("uniqv", []):
        if len(t.args) == 4:
            n, l, u = t.args[1:]
            d = app("ndist", [n, l], "I")
            out.append(implies(b_and(lt(ZERO, n), eq(d, ONE), eq(u, ZERO)),
                               eq(t, lam_apply(l, ZERO))))
    for t in byname.get("ucount", []):
        n = t.args[2]
        out.append(b_and(le(ZERO, t), le(t, n), implies(lt(ZERO, n), le(ONE, t))))
    for nm in ("urep", "uinv"):
        for t in byname.get(nm, []):
            other, n, l, u = t.args[1:]
            m = app("ucount", [other, n, l], "I")
            a, b = (m, n) if nm == "urep" else (n, m)
            out.append(implies(b_and(le(ZERO, u), lt(u, a)), b_and(le(ZERO, t), lt(t, b))))
    for t in byname.get("ucnt", []):
        other, n, l, u = t.args[1:]
        out.append(implies(b_and(le(ZERO, u), lt(u, app("ucount", [other, n, l], "I"))),
                           b_and(le(ONE, t), le(t, n))))
    for t in byname.get("interp_linear", []):
        # between the end values when the table increases (within its range)
        n, lx, ly, mode = t.args[1:5]
        if mode.op == "str" and mode.args[0] == "none" and ly.op == "lam":
            i = fresh("i", "I")
            if le(lam_apply(ly, i), lam_apply(ly, add(i, ONE))) is TRUE:
                out.append(b_and(le(lam_apply(ly, ZERO), t), le(t, lam_apply(ly, sub(n, ONE)))))
    for t in byname.get("floor", []):
        out.append(b_and(le(t, t.args[1]), lt(t.args[1], add(t, ONE))))
    for t in byname.get("trunc", []):
        u = t.args[1]
        out.append(ite(le(ZERO, u), b_and(le(t, u), lt(u, add(t, ONE)), le(ZERO, t)),
                       b_and(le(u, t), lt(sub(t, ONE), u), le(t, ZERO))))
    for t in byname.get("mod", []):
        a, b = t.args[1:]
        q = app("floordiv", [a, b], "I")
        if t.sort == "I" and b.op == "num" and b.args[0] > 0:
            out.append(eq(a, add(mul(b, q), t)))
            out.append(b_and(le(ZERO, t), lt(t, b)))
    for t in byname.get("floordiv", []):
        a, b = t.args[1:]
        if t.sort == "I" and b.op == "num" and b.args[0] > 0:
            out.append(b_and(le(mul(b, t), a), lt(a, add(mul(b, t), b))))
    for t in byname.get("rank", []):
        n, l, i = t.args[1:]
        v = fresh("o", "I")
        cnt = count(n, v, lam_apply(l, v))
        inr = b_and(le(ZERO, i), lt(i, n))
        out.append(implies(inr, b_and(le(ZERO, t), le(t, cnt))))
        out.append(implies(b_and(inr, lam_apply(l, i)), lt(t, cnt)))
    for t in byname.get("cmp", []):
        n, l, j = t.args[1:]
        v = fresh("o", "I")
        cnt = count(n, v, lam_apply(l, v))
        inr = b_and(le(ZERO, j), lt(j, cnt))
        out.append(implies(inr, b_and(le(ZERO, t), lt(t, n), lam_apply(l, t))))
    for nm in ("tril_r", "triu_r"):
        for t in byname.get(nm, []) + byname.get(nm[:-1] + "c", []):
            n, k, j = t.args[1:]
            r, c = app(nm, [n, k, j], "I"), app(nm[:-1] + "c", [n, k, j], "I")
            out.append(implies(b_and(le(ZERO, j), lt(j, tri_count(nm[:4], n, k))),
                               b_and(le(ZERO, r), lt(r, n), le(ZERO, c), lt(c, n),
                                     le(sub(c, r), k) if nm == "tril_r" else le(k, sub(c, r)))))
    for nm, ts in byname.items():
        for fn in env.inst.get(nm, ()):
            for t in ts:
                r = fn(list(t.args[1:]))
                if r:
                    out.extend(r if isinstance(r, (list, tuple)) else [r])
    return out


def _forall_facts(facts):
    """Split facts into ground ones and quantified ones (nested 'all')."""
    ground, quant = [], []
    for f in facts:
        if f.op == "all":
            quant.append(f)
        else:
            ground.append(f)
    return ground, quant


def _match_all(f, terms_by_name):
    """Instances of an 'all' fact at matching ground applications."""
    vs = []
    guard = []
    b = f
    while b.op == "all":
        n, v, b = opened(b)
        vs.append(v)
        guard.append(b_and(le(ZERO, v), lt(v, n)))
    pats = []
    seen = set()
    stack = [b]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "app" and any(a in vs for a in t.args[1:]):
            pats.append(t)
        if t.op not in BINDERS:
            stack.extend(children(t))
    insts = []
    done = set()
    for p in pats:
        need = [v for v in vs if v in p.args[1:]]
        if len(need) < len(vs):
            continue
        for g in terms_by_name.get(p.args[0], []):
            if len(g.args) != len(p.args):
                continue
            m = {}
            ok = True
            for a, c in zip(p.args[1:], g.args[1:]):
                if a in vs:
                    if a in m and m[a] is not c:
                        ok = False
                        break
                    m[a] = c
                elif a is not c and not (a.fv & set(vs)):
                    ok = False
                    break
            if not ok or len(m) < len(vs):
                continue
            key = tuple(m[v].id for v in vs)
            if key in done:
                continue
            done.add(key)
            insts.append(implies(b_and(*[subst(x, m) for x in guard]), subst(b, m)))
    return insts


_dq = {}


def _deep_quant(q):
    """the matrix of the quantified fact contains binder terms"""
    r = _dq.get(q)
    if r is None:
        b = q
        while b.op == "all":
            b = b.args[2]
        stack, r = [b], False
        while stack and not r:
            t = stack.pop()
            if t.op in BINDERS or (t.op == "app" and any(
                    isinstance(x, T) and x.op == "lam" for x in t.args[1:])):
                r = True
            else:
                stack.extend(children(t))
        _dq[q] = r
    return r


_da = {}


def _deep_apps(ts):
    """name -> applications occurring anywhere (also below binders)."""
    out = {}
    seen = set()
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "app":
            out.setdefault(t.args[0], []).append(t)
        stack.extend(children(t))
    return out


def _match_var(b, v, byname, limit):
    """terms suggested for v by applications of b that have v as an argument."""
    pats = {}
    seen, stack = set(), [b]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "app":
            for i, a in enumerate(t.args[1:]):
                if a is v:
                    pats.setdefault((t.args[0], i, len(t.args)), t)
        stack.extend(children(t))
    out, done = [], set()
    for (nm, i, ln), _ in pats.items():
        for g in byname.get(nm, ()):
            if len(g.args) != ln:
                continue
            c = g.args[i + 1]
            if c in done or bvs_in(c) or c.op == "lam":
                continue
            done.add(c)
            if len(done) > limit:
                return out
            out.append((c, g))
    return out


def _match_deep(q, byname, limit=24):
    """instances of an 'all' fact suggested by applications below binders: an
    argument that is one of its variables is matched, the others are free."""
    n, v, b = opened(q)
    guard = b_and(le(ZERO, v), lt(v, n))
    out = []
    for c, _ in _match_var(b, v, byname, limit):
        g, x = subst(guard, {v: c}), subst(b, {v: c})
        out.append(implies(g, x))
        if x.op == "all" and limit <= 8:
            out.extend(implies(g, y) for y in _match_deep(x, byname, limit))
    return out


_skolem = {}


def skolem(h):
    """the witness constant of a binder term"""
    r = _skolem.get(h)
    if r is None:
        r = _skolem[h] = fresh("w", "I")
    return r


def binder_axioms(hard, apps, rnd):
    """witnesses and instances of the quantified terms of a query."""
    out = []
    byname = {}
    for a in apps:
        byname.setdefault(a.args[0], []).append(a)
    for h in hard:
        if h.op == "all":
            w = skolem(h)
            if rnd < 3:
                n, _, b = open_binder(h, w)
                out.append(b_or(h, b_and(le(ZERO, w), lt(w, n), b_not(b))))
            for inst in _match_deep(h, byname, 8):
                out.append(implies(h, inst))
        elif h.op in ("minb", "maxb"):
            w = skolem(h)
            n, _, b = open_binder(h, w)
            out.append(implies(lt(ZERO, n), b_and(le(ZERO, w), lt(w, n), eq(h, b))))
            cmp_ = (lambda x: le(h, x)) if h.op == "minb" else (lambda x: le(x, h))
            n, v, b = opened(h)
            for m, _g in _match_var(b, v, byname, 8):
                out.append(implies(b_and(le(ZERO, m), lt(m, n)), cmp_(subst(b, {v: m}))))
    return out


# opaque functions all of whose results are positive
POSITIVE = set()


def syn_sign(t):
    """1 for terms that are positive, 0 for terms that are not negative, by
    their form; None otherwise"""
    if t.op == "num":
        return None if t.args[0] < 0 else int(t.args[0] > 0)
    if t.op == "app":
        if t.args[0] in ("exp", "expit", "cosh", "legw") or t.args[0] in POSITIVE:
            return 1
        return 0 if t.args[0] in ("abs", "sqrt") else None
    if t.op == "ite":
        a, b = syn_sign(t.args[1]), syn_sign(t.args[2])
        return None if a is None or b is None else min(a, b)
    if t.op in ("sum", "prod"):
        s = syn_sign(opened(t)[2])
        return s if t.op == "prod" or s is None else 0
    if t.op == "poly":
        out = 0
        for m, c in t.args:
            if c < 0:
                return None
            s = 1
            for a, e in m:
                x = syn_sign(a)
                if x is None:
                    if e % 2:
                        return None
                    x = 0
                s = min(s, x)
            out = max(out, s)
        return out
    return None


def solve(env, facts, goal, rep, tlimit=None):
    """z3 / cvc5 on the abstracted query; returns (status, info)."""
    STATS.queries += 1
    ground, quant = _forall_facts(facts)
    base = ground + [b_not(goal)]
    extra = []
    allts = list(base)
    known = set(base)
    for rnd in range(4):
        apps, hard, seen = collect(allts)
        new = axioms_for(apps, seen, env, True)
        if len(allts) < 400:
            new += binder_axioms(hard, apps, rnd)
        for h in hard:
            # a count is zero iff nothing is counted
            if h.op == "sum":
                c = T_._compress_of(h)
                if c is not None:
                    N, mv, cond = c
                    new.append(iff(eq(h, ZERO), mk_all(N, mv, b_not(cond))))
        byname = {}
        for a in apps:
            byname.setdefault(a.args[0], []).append(a)
        deep = None
        for q in quant:
            new.extend(_match_all(q, byname))
            if _deep_quant(q):
                if deep is None:
                    deep = _deep_apps(allts)
                new.extend(_match_deep(q, deep))
        added = False
        for x in new:
            if isinstance(x, tuple):
                if x not in known:
                    known.add(x)
                    extra.append(x)
                continue
            if x is TRUE or x in known:
                continue
            known.add(x)
            allts.append(x)
            added = True
        if not added:
            break
    apps, hard, seen = collect(allts)
    zb = Z(rep)
    s = z3.Solver()
    s.set("timeout", int(tlimit or env.tlimit))
    cons = []
    for x in allts:
        cons.append(zb.tr(x))
    for x in extra:
        if x[0] == "sq":
            t, u = zb.tr(x[1]), zb.real(x[2])
            cons.append(z3.Implies(u >= 0, t * t == u))
    for t in seen:
        if t.op == "var" and t.args[0].startswith("dim:"):
            cons.append(zb.tr(t) >= 0)
    if PI in {v for x in allts for v in x.fv}:
        p = zb.tr(PI)
        cons.append(p > z3.RealVal("3.14159"))
        cons.append(p < z3.RealVal("3.1416"))
    # sums of 0/1 counts are within [0, n]
    for h in hard:
        if h.op == "sum" and nonneg_dim(h):
            cons.append(zb.tr(h) >= 0)
            c = T_._compress_of(h)
            if c is not None:
                cons.append(zb.tr(h) <= zb.tr(h.args[1]))
        elif h.op in ("sum", "prod"):
            sg = syn_sign(opened(h)[2])
            if sg is not None and h.op == "prod":
                cons.append(zb.tr(h) > 0 if sg else zb.tr(h) >= 0)
            elif sg is not None:
                x = zb.tr(h)
                cons.append(x >= 0)
                if sg:
                    cons.append(z3.Implies(zb.tr(h.args[1]) >= 1, x > 0))
    if INF in {v for x in allts for v in x.fv}:
        cons.append(zb.tr(INF) > 10 ** 9)
    cons.extend(zb.side)
    for c in cons:
        s.add(c)
    t0 = time.time()
    r = s.check()
    STATS.z3_time += time.time() - t0
    if r == z3.unsat:
        STATS.by["z3"] += 1
        return "proved", "z3"
    if r == z3.sat:
        return "sat", _model_text(s.model(), zb, seen)
    if env.use_cvc5:
        t0 = time.time()
        rc = _cvc5(s)
        STATS.cvc5_time += time.time() - t0
        if rc == "unsat":
            STATS.by["cvc5"] += 1
            return "proved", "cvc5"
        if rc == "sat":
            return "sat", {"note": "cvc5: sat"}
    return "unknown", {"note": "z3: %s" % s.reason_unknown()}


def _cvc5(s):
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        p = f.name
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % (CVC5_TIMEOUT * 1000), p],
                           capture_output=True, text=True, timeout=CVC5_TIMEOUT + 5)
        out = r.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    finally:
        os.unlink(p)


def _model_text(m, zb, seen):
    d = {}
    for t in sorted(seen, key=lambda x: x.id):
        if t.op == "var" or (t.op == "app" and t.args[0].startswith("@")) or is_hard(t):
            try:
                v = m.eval(zb.tr(t), model_completion=True)
                key = show(t, 5)
                if len(key) < 200:
                    idx = None
                    if t.op == "app":
                        idx = [str(m.eval(zb.tr(a), model_completion=True))
                               for a in t.args[1:] if not is_hard(a) and a.op != "lam"]
                    d[key] = str(v) + (" at index %s" % idx if idx else "")
            except Exception:  # noqa: BLE001
                pass
        if len(d) > 60:
            break
    return d


# ---------------------------------------------------------------- congruence
def arbitrary(env, facts, ts, sort="I"):
    """a variable that occurs neither in the facts nor in the terms (the same
    one for the same question, so that answers can be reused)."""
    used = set()
    for f in list(facts) + list(env.facts) + list(ts):
        used |= f.fv
    k = 0
    while True:
        v = var("o$%d" % k, sort)
        if v not in used:
            return v
        k += 1


_opened = {}


def opened(q):
    """open_binder with one variable per binder term."""
    r = _opened.get(q)
    if r is None:
        r = _opened[q] = open_binder(q, fresh("b", "I"))
    return r


def same(env, facts, a, b, depth):
    """Try to prove two terms equal (any sort, including lambdas)."""
    if a is b:
        return True
    if depth <= 0:
        return False
    key = (a, b, tuple(f.id for f in facts), depth)
    r = env.memo.get(key)
    if r is not None:
        return r
    r = _same(env, facts, a, b, depth)
    env.memo[key] = r
    return r


def _same(env, facts, a, b, depth):
    if a.op == "lam" and b.op == "lam":
        if a.args[2] != b.args[2]:
            return False
        v = arbitrary(env, facts, (a, b), a.args[2])
        return same(env, facts, lam_apply(a, v), lam_apply(b, v), depth)
    if a.op == "lam" or b.op == "lam":
        return False
    if is_hard(a) and is_hard(b) and a.op == b.op:
        if AL.align(THIS, env, facts, a, b):
            return True
        if hard_same(env, facts, a, b, depth):
            return True
    if a.sort == "U" or b.sort == "U":
        return prove(env, facts, eq(a, b), depth - 1)[0] == "proved"
    return prove(env, facts, eq(a, b), depth - 1)[0] == "proved"


_VEC = {"cmp", "rank", "lastidx", "ndist", "uniqv", "ndistless", "sorted", "argsort",
        "argmin", "argmax", "percentile"}
_SQ = {"minv", "mchol", "eigh_w", "eigh_v", "ldl_l", "ldl_d", "ldl_p"}
_RECT = {"mpinv", "svd_u", "svd_s", "svd_vt", "qr_q", "qr_r", "mcond", "mnorm", "mdet"}
_UNI = {"ucount", "urep", "uinv", "ucnt"}
_OPT = {"slsqp", "slsqp_last"}


OPAQUE = {}


def lam_ranges(a):
    """argument index of a function argument -> its index ranges."""
    nm, g = a.args[0], a.args
    if nm in _VEC:
        return {j: (g[1],) for j in range(2, len(g)) if g[j].op == "lam"}
    if nm in _SQ:
        return {2: (g[1], g[1])}
    if nm in _RECT:
        return {3: (g[1], g[2])}
    if nm in _UNI:
        return {3: (g[2], g[1])}
    if nm in _OPT:
        return {j: (g[2],) for j in (3, 4, 5)}
    if nm in OPAQUE:
        return {j: tuple(g[d] for d in ds) for j, ds in OPAQUE[nm].items()}
    if nm.startswith("interp_"):
        return {2: (g[1],), 3: (g[1],)}
    return {}


_ARGMIN = {"fminbound", "fminbound_last", "slsqp", "slsqp_last"}


def shifted(env, facts, x, y, a, depth):
    """two objectives that differ by a constant have the same minimiser."""
    if x.op != "lam" or y.op != "lam" or x.args[2] != y.args[2]:
        return False
    f2 = list(facts)
    t = arbitrary(env, facts, (x, y), x.args[2])
    u = arbitrary(env, facts, (x, y, t), x.args[2])
    if a.args[0].startswith("fminbound"):
        for v in (t, u):
            f2 += [le(a.args[2], v), le(v, a.args[3])]
    return same(env, f2, sub(lam_apply(x, t), lam_apply(y, t)),
                sub(lam_apply(x, u), lam_apply(y, u)), depth)


def same_state(env, facts, a, b, depth):
    """components of two folds"""
    F, G = a.args[1], b.args[1]
    for x, y in zip(a.args[3:], b.args[3:]):
        if x is not y and not same(env, facts, x, y, depth):
            return False
    if F is G:
        return a.args[2] is b.args[2]
    if F.op != "app" or G.op != "app":
        return False
    return FD.same_fold(env, facts, F, G, (as_int(a.args[2]), as_int(b.args[2])), depth, same,
                        arbitrary)


def hard_same(env, facts, a, b, depth):
    if a.op != b.op:
        return False
    if a.op == "app":
        if a.args[0] != b.args[0] or len(a.args) != len(b.args):
            return False
        if a.args[0] == "st":
            return same_state(env, facts, a, b, depth)
        if a.args[0] == "fold":
            return FD.same_fold(env, facts, a, b, None, depth, same, arbitrary)
        rng = lam_ranges(a)
        for j, (x, y) in enumerate(zip(a.args[1:], b.args[1:]), 1):
            if x is y:
                continue
            dims = rng.get(j)
            if dims and x.op == "lam" and y.op == "lam":
                # only the entries inside the range of the data matter
                f2 = list(facts)
                for d in dims:
                    if x.op != "lam" or y.op != "lam":
                        break
                    v = arbitrary(env, f2, (x, y, d), x.args[2])
                    x, y = lam_apply(x, v), lam_apply(y, v)
                    f2 += [le(ZERO, v), lt(v, d)]
                if not same(env, f2, x, y, depth):
                    return False
            elif not same(env, facts, x, y, depth):
                if j == 1 and a.args[0] in _ARGMIN and shifted(env, facts, x, y, a, depth):
                    continue
                return False
        return True
    n1, n2 = a.args[1], b.args[1]
    if n1 is not n2 and not same(env, facts, n1, n2, depth):
        return False
    v = arbitrary(env, facts, (a, b))
    _, _, x = open_binder(a, v)
    _, _, y = open_binder(b, v)
    f2 = list(facts) + [le(ZERO, v), lt(v, n1)]
    return same(env, f2, x, y, depth)


def merge_classes(env, facts, hard, depth, focus=None):
    """classes of provably equal binder terms (pairs touching the focus)."""
    rep = {}
    reps = []
    for h in sorted(hard, key=lambda t: t.id):
        for r in reps:
            if focus is not None and r not in focus and h not in focus:
                continue
            if r.op == h.op and r.sort == h.sort and hard_same(env, facts, r, h, depth):
                rep[h] = r
                break
        else:
            reps.append(h)
    return rep


def _sum_groups(p):
    """group the Sum atoms of a polynomial by range: n -> [(coeff poly, sum)]"""
    groups = {}
    for m, c in as_poly(p).items():
        sums = [(a, e) for a, e in m if a.op == "sum"]
        if len(sums) >= 1 and sums[0][1] == 1:
            a = sums[0][0]
            rest = from_poly({tuple(x for x in m if x[0] is not a): c})
            groups.setdefault(a.args[1], []).append((rest, a, m))
    return groups


def sum_merge(env, facts, p, depth):
    """p == 0 by showing that groups of sums vanish pointwise."""
    for n, items in _sum_groups(p).items():
        if len(items) < 2:
            continue
        v = arbitrary(env, facts, [n] + [t for i in items for t in i[:2]])
        tot = ZERO
        for rest, a, m in items:
            if v in rest.fv:
                return False
            _, _, body = open_binder(a, v)
            tot = add(tot, mul(rest, body))
        f2 = list(facts) + [le(ZERO, v), lt(v, n)]
        if prove(env, f2, eq(tot, ZERO), depth - 1)[0] == "proved":
            d = as_poly(p)
            for _, _, m in items:
                d.pop(m, None)
            q = from_poly(d)
            if q is ZERO:
                return True
            return prove(env, facts, eq(q, ZERO), depth - 1)[0] == "proved"
    return False


def offset_sums(env, facts, sums, depth):
    """equations between two sums (products) over n and n + c, c a small
    constant, with the same terms up to the first or the last c of them."""
    out = []
    sums = sorted(sums, key=lambda t: t.id)
    for big in sums:
        for small in sums:
            if big is small or big.op != small.op:
                continue
            d = sub(big.args[1], small.args[1])
            if not is_num(d):
                continue
            c = numval(d)
            if c == 0 and big.op == "sum" and big.id > small.id:
                # same range, one a step ahead of the other
                n = big.args[1]
                v = arbitrary(env, facts, (small, big))
                f2 = list(facts) + [le(ZERO, v), lt(v, n)]
                for f, g in ((small, big), (big, small)):
                    x = open_binder(g, v)[2]
                    y = open_binder(f, add(v, ONE))[2]
                    t = add(f, sub(open_binder(f, n)[2], open_binder(f, ZERO)[2]))
                    if x is y or same(env, f2, x, y, depth - 1):
                        out.append((le(ZERO, n), g, t))
                        break
                    if add(x, y) is ONE:
                        out.append((le(ZERO, n), g, sub(n, t)))
                        break
                continue
            if c.denominator != 1 or not 1 <= c <= 3:
                continue
            c, n = int(c), small.args[1]
            v = arbitrary(env, facts, (small, big))
            _, _, x = open_binder(small, v)
            comb = add if big.op == "sum" else mul
            f2 = list(facts) + [le(ZERO, v), lt(v, n)]
            for shift in range(c + 1):
                _, _, y = open_binder(big, add(v, num(shift)))
                if y is x or same(env, f2, x, y, depth - 1):
                    t = small
                    for j in range(c):
                        at = num(j) if j < shift else add(n, num(j))
                        t = comb(t, open_binder(big, at)[2])
                    out.append((le(ZERO, n), big, t))
                    break
    return out


def prefix_sums(env, facts, sums, depth):
    """a sum whose beginning is another one: split there."""
    out = []
    sums = sorted(sums, key=lambda t: t.id)
    for big in sums:
        for small in sums:
            if big is small or big.op != "sum" or small.op != "sum":
                continue
            a, b = small.args[1], big.args[1]
            if is_num(sub(b, a)):
                continue
            v = arbitrary(env, facts, (small, big))
            x, y = open_binder(small, v)[2], open_binder(big, v)[2]
            f2 = list(facts) + [le(ZERO, v), lt(v, a)]
            if (x is y or same(env, f2, x, y, depth - 1)) and \
                    prove(env, facts, b_and(le(ZERO, a), le(a, b)), 2)[0] == "proved":
                w = fresh("c", "I")
                out.append((big, add(small, mk_sum(sub(b, a), w, open_binder(
                    big, add(w, a))[2]))))
    return out


def base_equations(env, facts, goal, depth):
    """equations between polynomials of sums that occur as denominators."""
    bases, seen, stack = [], set(), [goal]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in BINDERS:
            continue
        if t.op == "poly" or t.sort == "R":
            for m in as_poly(t):
                for a, e in m:
                    if e < 0 and a.op not in ("app", "var") and a not in bases and \
                            collect([a])[1]:
                        bases.append(a)
        stack.extend(children(t))
    out = []
    bases.sort(key=lambda t: t.id)
    for i, a in enumerate(bases):
        for b in bases[:i]:
            d = sub(a, b)
            if len(_sum_groups(d)) and sum_merge(env, facts, d, depth):
                out.append((a, b))
    return out


def deep_instances(base, goal):
    """instances (at terms of the goal) of quantified facts about sums."""
    qs = [q for q in base if q.op == "all" and _deep_quant(q)]
    if not qs:
        return []
    deep = _deep_apps([goal])
    return [x for q in qs for x in _match_deep(q, deep, 4) if x is not TRUE]


def clear_denominators(p):
    need = {}
    for m in as_poly(p):
        for a, e in m:
            if e < 0:
                need[a] = max(need.get(a, 0), -e)
    if not need:
        return None
    out = ZERO
    for m, c in as_poly(p).items():
        left = dict(need)
        t = num(c)
        for a, e in m:
            k = e + left.pop(a, 0)
            if k:
                t = mul(t, ipow(a, k))
        for a, k in left.items():
            t = mul(t, ipow(a, k))
        out = add(out, t)
    return out


def const_sums(sums):
    out = []
    for s in sums:
        if s.op == "sum":
            n, v, b = opened(s)
            if v not in b.fv:
                out.append((le(ZERO, n), s, mul(n, b)))
                continue
            k = as_int(n)
            if k is not None and k <= 4:
                t = ZERO
                for i in range(k):
                    t = add(t, open_binder(s, num(i))[2])
                out.append((TRUE, s, t))
    return out


def clip_sums(env, facts, sums, depth):
    """sums (products) of terms that differ from the unit only on an interval
    of the index: the same over that interval."""
    out = []
    for s in sorted(sums, key=lambda t: t.id):
        unit, mk, comb = (ZERO, mk_sum, sub) if s.op == "sum" else (ONE, mk_prod, None)
        n, v, b = opened(s)
        if b.op != "ite":
            continue
        c, x, y = b.args
        if x is unit and y is not unit and c.op in ("le0", "not", "and", "or"):
            nc = b_not(c)
            if nc.op in ("le0", "and") and nc is not c:
                c, x, y = nc, y, x
            elif comb is not None:
                out.append((TRUE, s, comb(mk(n, v, y), mk(n, v, ite(c, y, unit)))))
                continue
        if y is not unit:
            continue
        los, his, rest = [], [], []
        for q in (c.args if c.op == "and" else (c,)):
            d = as_poly(q.args[0]).get(((v, 1),)) if q.op == "le0" and \
                q.args[0].sort == "I" else None
            r = sub(q.args[0], scale(v, d)) if d is not None and abs(d) == 1 else None
            if r is None or v in r.fv:
                rest.append(q)
            elif d == -1:
                los.append(r)
            else:
                his.append(sub(ONE, r))
        if not los and not his or len(los) > 1 or len(his) > 1:
            continue
        lo, hi = (los or [ZERO])[0], (his or [n])[0]
        g = b_and(le(ZERO, lo), le(hi, n), le(lo, hi))
        if prove(env, facts, g, 2)[0] != "proved":
            continue
        w = fresh("c", "I")
        out.append((TRUE, s, mk(sub(hi, lo), w, subst(ite(b_and(*rest), x, unit),
                                                      {v: add(w, lo)}))))
    return out


def prove(env, facts, goal, depth=8):
    """-> (status, info): 'proved' | 'sat' | 'unknown'."""
    if goal is TRUE:
        STATS.by["normal-form"] += 1
        return "proved", "normal-form"
    facts = flatten_facts(facts)
    if FALSE in facts:
        return "proved", "vacuous"
    key = ("P", goal, tuple(f.id for f in facts), depth)
    r = env.memo.get(key)
    if r is None:
        r = _prove(env, facts, goal, depth)
        env.memo[key] = r
    return r


def flatten_facts(facts):
    out = []
    seen = set()
    stack = list(reversed(list(facts)))
    while stack:
        f = stack.pop()
        if f is TRUE or f in seen:
            continue
        seen.add(f)
        if f.op == "and":
            stack.extend(reversed(f.args))
            continue
        if f.op == "not" and f.args[0].op == "all":
            n, v, b = open_binder(f.args[0], skolem(f.args[0]))
            stack.append(b_and(le(ZERO, v), lt(v, n), b_not(b)))
            continue
        out.append(f)
    return out


def _prove(env, facts, goal, depth):
    if goal in facts:
        return "proved", "normal-form"
    if goal.op == "and":
        info = []
        for g in goal.args:
            r = prove(env, facts, g, depth)
            if r[0] != "proved":
                return r
            info.append(r[1])
        return "proved", "+".join(sorted(set(info)))
    if goal.op == "all":
        n, v, b = open_binder(goal, skolem(goal))
        return prove(env, facts + [le(ZERO, v), lt(v, n)], b, depth)
    if goal.op == "not" and goal.args[0].op == "and":
        xs = goal.args[0].args
        pos = [x for x in xs if x.op == "not" and x.args[0].op == "all"]
        if pos:
            g = pos[0]
            rest = [x for x in xs if x is not g]
            return prove(env, facts + rest, g.args[0], depth)
    env_facts = env.facts
    base = list(facts) + list(env_facts)
    # 1: direct query without congruence (cheap)
    insts = deep_instances(base, goal)
    apps, hard, _ = collect(base + insts + [goal])
    base += insts
    r = solve(env, base, goal, {}, tlimit=min(env.tlimit, 2500) if len(hard) > 1 else None)
    if r[0] == "proved" or depth <= 0:
        return r
    if goal.op == "eq0" and depth > 2:
        g = AL.tidy(THIS, env, facts, goal)
        if g is not goal:
            return prove(env, facts, g, depth)
        if AL.zero(THIS, env, facts, goal.args[0]):
            return "proved", "congruence"
    # 2: congruence closure over binder terms
    gh = collect([goal])[1]
    rep = {}
    if len(gh) + len(hard) > 1 and gh:
        rep = merge_classes(env, facts, [h for h in hard if h.op != "all"], depth, set(gh))
        if rep:
            g = replace(goal, {k: v for k, v in rep.items() if k is not v})
            if g is not goal:
                return prove(env, facts, g, depth)
            r2 = solve(env, base, goal, rep)
            if r2[0] == "proved":
                return r2
            r = r2
    # 2b: sums whose ranges differ by a constant
    sums = [h for h in gh if h.op in ("sum", "prod")]
    ext = []
    for guard, lhs, rhs in const_sums(sums) + clip_sums(env, facts, sums, depth) + offset_sums(env, facts, sums, depth - 1):
        if prove(env, facts, guard, min(depth - 1, 2))[0] == "proved":
            g = replace(goal, {lhs: rhs})
            if g is not goal:
                return prove(env, facts, g, depth)
        else:
            ext.append(implies(guard, eq(lhs, rhs)))
    for lhs, rhs in base_equations(env, facts, goal, depth - 1):
        g = replace(goal, {lhs: rhs})
        if g is not goal:
            return prove(env, facts, g, depth)
    if ext:
        r2 = solve(env, base + ext, goal, rep)
        if r2[0] == "proved":
            return r2
        r = r2
    # 2c: clear denominators (assumed nonzero, as everywhere)
    if goal.op == "eq0":
        g = clear_denominators(goal.args[0])
        if g is not None:
            g = eq(g, ZERO)
            return prove(env, facts, g, depth - 1) if g is not TRUE else ("proved", "normal-form")
    # 3: pointwise cancellation of sums
    if goal.op == "eq0" and sum_merge(env, facts, goal.args[0], depth):
        return "proved", "z3"
    if goal.op == "eq0" and len(sums) > 1 and depth > 2:
        for lhs, rhs in prefix_sums(env, facts, sums, depth - 1):
            g = replace(goal, {lhs: rhs})
            if g is not goal:
                r2 = prove(env, facts, g, depth - 1)
                if r2[0] == "proved":
                    return r2
    # 4: iff goals: two implications with 'all' inside
    if goal.op == "iff":
        a, b = goal.args
        if any(x.op == "all" or (x.op == "not" and x.args[0].op == "all")
               for x in (a, b)):
            r1 = prove(env, facts + [a], b, depth - 1)
            if r1[0] == "proved":
                r2 = prove(env, facts + [b], a, depth - 1)
                if r2[0] == "proved":
                    return r2
    # 5: case split on an ite condition containing binders
    c = _ite_cond(goal)
    if c is not None and depth > 2:
        g1 = assume(goal, c, True)
        g2 = assume(goal, c, False)
        if g1 is not goal and g2 is not goal:
            r1 = prove(env, facts + [c], g1, depth - 1)
            if r1[0] == "proved":
                r2 = prove(env, facts + [b_not(c)], g2, depth - 1)
                if r2[0] == "proved":
                    return r2
        return r
    # 6: rewrite with ground equations
    if depth > 1:
        g = eq_rewrite(env, facts, goal)
        if g is not goal:
            if g is TRUE:
                return "proved", "normal-form"
            r2 = prove(env, facts, g, depth - 1)
            if r2[0] == "proved":
                return r2
            return r
    # 7: split on finite-domain facts about terms of the goal
    if depth > 2:
        for alts in value_splits(env, facts, goal):
            for e in alts:
                r2 = prove(env, facts + [e], goal, depth - 1)
                if r2[0] != "proved":
                    break
            else:
                return "proved", "z3"
            break
    return r


def _solvable(p):
    """(atom, term) with p == 0 iff atom == term; the atom is an application."""
    poly = as_poly(p)
    best = None
    for m, c in poly.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("app", "var"):
            a = m[0][0]
            if a.sort == "I" and abs(c) != 1:
                continue
            rest = dict(poly)
            rest.pop(m)
            t = scale(from_poly(rest), -1 / Fraction(c)) if rest else ZERO
            if _occurs(a, t):
                continue
            if best is None or (best[0].op == "var" and a.op == "app"):
                best = (a, t)
    return best


def _occurs(a, t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x is a:
            return True
        if x in seen:
            continue
        seen.add(x)
        stack.extend(children(x))
    return False


def eq_rewrite(env, facts, goal):
    g = goal
    les = {f.args[0] for f in facts if f.op == "le0"}
    for f in facts:
        tight = f.op == "eq0" or (f.op == "le0" and neg(f.args[0]) in les)
        if not tight and f.op == "le0" and f.args[0].op == "app" and f.args[0].sort == "I" \
                and _occurs(f.args[0], g):
            r = solve(env, list(facts) + list(env.facts), le(ZERO, f.args[0]), {}, tlimit=1000)
            tight = r[0] == "proved"
        if tight:
            s = _solvable(f.args[0])
            if s is not None and _occurs(s[0], g):
                g = replace(g, {s[0]: s[1]})
    return g


def value_splits(env, facts, goal):
    """ground disjunctions of equations (facts about the finite set of values of
    an application that occurs in the goal)."""
    quant = [f for f in facts if f.op == "all"]
    if not quant and not env.inst:
        return
    apps = collect([goal])[0]
    byname = {}
    insts = []
    for a in apps:
        byname.setdefault(a.args[0], []).append(a)
        for fn in env.inst.get(a.args[0], ()):
            insts += fn(a.args[1:])
    for q in quant:
        insts += _match_all(q, byname)
    known = set(facts)
    for inst in insts:
        # implies(guard, b1 or b2 ..) == not(and(guard.., not b1, not b2))
        if inst.op != "not" or inst.args[0].op != "and":
            continue
        alts = [b_not(x) for x in inst.args[0].args]
        if any(e in known for e in alts):
            continue
        eqs = [e for e in alts if e.op == "eq0"]
        if not eqs or len(eqs) > 4:
            continue
        if not any(s and _occurs(s[0], goal) for s in (_solvable(e.args[0]) for e in eqs)):
            continue
        yield alts


def _ite_cond(goal):
    """an atomic condition of an ite occurring (outside binders) in the goal."""
    stack = [goal]
    seen = set()
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "ite":
            c = t.args[0]
            while c.op in ("and", "not", "or", "iff"):
                c = c.args[0]
            return c
        if t.op in BINDERS:
            continue
        stack.extend(children(t))
    return None
