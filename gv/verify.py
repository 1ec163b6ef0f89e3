"""Obligations of one contract case: generate from /repo's text, discharge."""
import re
import time
import traceback

from .interp import Interp, AllRaise
from .values import *  # noqa: F401,F403
from .terms import *  # noqa: F401,F403
from .terms import T, Unsupported
from . import nplib as NL
from . import prove as P
from . import spec as S


# ------------------------------------------------------------ parameters
class Builder:
    def __init__(self, I, c):
        self.I, self.c = I, c
        self.dims = {}
        self.facts = []
        NONNEG.clear()

    def dim(self, d):
        if isinstance(d, int):
            return num(d)
        if isinstance(d, str) and ("+" in d or "-" in d or "*" in d):
            import ast
            return self.dexpr(ast.parse(d, mode="eval").body)
        v = self.dims.get(d)
        if v is None:
            v = var("dim_" + d, "I")
            self.dims[d] = v
            self.facts.append(le(num(self.c.dims.get(d, 1)), v))
            if self.c.dims.get(d, 1) >= 0:
                NONNEG.add(v)
        return v

    def dexpr(self, e):
        import ast
        if isinstance(e, ast.Name):
            return self.dim(e.id)
        if isinstance(e, ast.Constant):
            return num(e.value)
        a, b = self.dexpr(e.left), self.dexpr(e.right)
        return {ast.Add: add, ast.Sub: sub, ast.Mult: mul}[type(e.op)](a, b)

    def bounds(self, p, t):
        out = []
        if p.lo is not None:
            out.append(le(flt(p.lo) if isinstance(p.lo, float) else num(p.lo), t))
        if p.hi is not None:
            out.append(le(t, flt(p.hi) if isinstance(p.hi, float) else num(p.hi)))
        if getattr(p, "positive", False):
            out.append(lt(ZERO, t))
        return out

    def make(self, name, p):
        I = self.I
        if isinstance(p, S.A):
            shape = [self.dim(d) for d in p.dims]
            nd = len(shape)
            srt = sort_of(p.dt)
            if p.lo is not None or p.hi is not None or p.positive:
                I.env.add_inst("@" + name,
                               lambda a, p=p, srt=srt: self.bounds(p, sel(name, list(a), srt)))
            if p.values is not None:
                I.env.add_inst("@" + name, lambda a, p=p, srt=srt: [
                    b_or(*[eq(sel(name, list(a), srt), lift(v)) for v in p.values])])
            if p.increasing:
                i = fresh("i", "I")
                x, y = sel(name, [i], srt), sel(name, [add(i, ONE)], srt)
                f = lt(x, y) if p.increasing == "strict" else le(x, y)
                self.facts.append(mk_all(sub(shape[0], ONE), i, f))
            return I.alloc(FA(shape, p.dt, sel(name, IX[:nd], srt)))
        if isinstance(p, S.R):
            t = var("p_" + name, "R")
            self.facts.extend(self.bounds(p, t))
            return t
        if isinstance(p, S.N):
            t = var("p_" + name, "I")
            self.facts.extend(self.bounds(p, t))
            if p.lo is not None and p.lo >= 0:
                NONNEG.add(t)
            return t
        if isinstance(p, S.Dim):
            return self.dim(p.name)
        if isinstance(p, S.B):
            return var("p_" + name, "B")
        if isinstance(p, S.C):
            return self.const(p.value)
        if isinstance(p, S.D):
            return I.new_dict({k: self.make(name + "_" + k, q) for k, q in p.items.items()})
        if isinstance(p, S.L):
            xs = [self.make("%s_%d" % (name, i), q) for i, q in enumerate(p.items)]
            return tuple(xs) if p.kind is tuple else I.new_list(xs)
        if isinstance(p, S.F):
            if p.positive:
                I.env.add_inst("%" + name, lambda a: [lt(ZERO, app("%" + name, list(a)))])
            return OpaqueFn(name)
        if isinstance(p, S.Fn):
            return I.get_function(p.qual)
        raise Unsupported("parameter kind")

    def const(self, v):
        if v is None or isinstance(v, str):
            return v
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, (int, float)):
            return lift(v)
        if isinstance(v, tuple):
            return tuple(self.const(x) for x in v)
        if isinstance(v, dict):
            return self.I.new_dict({k: self.const(x) for k, x in v.items()})
        raise Unsupported("constant parameter")


# ------------------------------------------------------------ spec execution
def run_spec(I, c, fn, args, kwargs=None):
    """run a contract function symbolically in the current state."""
    f = I.get_function("%s:%s" % (fn.__module__, fn.__name__))
    saved = (list(I.raises), list(I.defined), list(I.frame_violations), dict(I.protected))
    nraise = len(I.raises)
    I.protected.clear()
    I.in_spec += 1
    try:
        r = I.call(f, [], dict(args) if kwargs is None else {**args, **kwargs})
        extra = I.raises[nraise:]
        if extra:
            raise Unsupported("contract function may raise: %s" % (extra[0][1],))
        return r
    finally:
        I.in_spec -= 1
        I.raises[:], I.defined[:], I.frame_violations[:] = saved[0], saved[1], saved[2]
        I.protected.clear()
        I.protected.update(saved[3])


def takes(fn):
    return fn.__code__.co_varnames[:fn.__code__.co_argcount]


def pick(fn, args):
    return {k: v for k, v in args.items() if k in takes(fn)}


# ------------------------------------------------------------ call sites
def frozen_key(v):
    if isinstance(v, T):
        return v
    if isinstance(v, FA):
        return ("FA", v.shape, v.dtype, v.body)
    if isinstance(v, (tuple, list)):
        return tuple(frozen_key(x) for x in v)
    if isinstance(v, FList):
        return ("L",) + tuple(frozen_key(x) for x in v.items)
    if isinstance(v, FDict):
        return ("D",) + tuple(sorted((k, frozen_key(x)) for k, x in v.items.items()))
    if v is None or isinstance(v, (str, bool, int)):
        return v
    return ("id", id(v))


def fits(I, c, args):
    """the case of the contract that covers this kind of arguments"""
    for label, params in c.cases:
        if all(_fits(I, p, args.get(k)) for k, p in params.items()) and set(params) == set(args):
            return params
    return None


def _fits(I, p, v):
    if isinstance(v, FA):
        v = I.alloc(v)
    if isinstance(p, S.A):
        return isinstance(v, Arr) and I.fa(v).ndim == len(p.dims)
    if isinstance(p, (S.R, S.N, S.Dim)):
        return isinstance(v, T) and v.sort in "IR" and (isinstance(p, S.R) or v.sort == "I") \
            or isinstance(p, S.R) and isinstance(v, Arr) and I.fa(v).ndim == 0
    if isinstance(p, S.B):
        return isinstance(v, T) and v.sort == "B"
    if isinstance(p, S.C):
        if p.value is None or isinstance(p.value, str):
            return v == p.value if not isinstance(v, T) else False
        return isinstance(v, T) and lift(p.value) is v
    return isinstance(p, (S.F, S.D, S.L, S.Fn))


def param_goals(I, c, params, args):
    """what the parameter declarations ask of the arguments of a call"""
    dims, out, late = {}, [], []
    for k, p in params.items():
        if isinstance(p, S.Dim):
            dims[p.name] = args[k] if isinstance(args[k], T) else I.fa(args[k]).body
            out.append(le(num(c.dims.get(p.name, 1)), dims[p.name]))
    for k, p in params.items():
        v = args[k]
        if isinstance(p, S.A):
            f = I.fa(v)
            for d, s in zip(p.dims, f.shape):
                if isinstance(d, str) and d.isidentifier() and d not in dims:
                    dims[d] = s
                    out.append(le(num(c.dims.get(d, 1)), s))
                else:
                    late.append((d, s))
            vs = [fresh("q", "I") for _ in f.shape]
            t = f.at(*vs)
            bs = []
            if p.lo is not None:
                bs.append(le(lift(p.lo), t))
            if p.hi is not None:
                bs.append(le(t, lift(p.hi)))
            if p.positive:
                bs.append(lt(ZERO, t))
            if p.values is not None:
                bs.append(b_or(*[eq(t, lift(x)) for x in p.values]))
            b = b_and(*bs)
            for x, n in reversed(list(zip(vs, f.shape))):
                b = mk_all(n, x, b)
            out.append(b)
            if p.increasing:
                i = fresh("i", "I")
                x, y = f.at(i), f.at(add(i, ONE))
                out.append(mk_all(sub(f.shape[0], ONE), i,
                                  lt(x, y) if p.increasing == "strict" else le(x, y)))
        elif isinstance(p, (S.R, S.N)):
            t = v if isinstance(v, T) else I.fa(v).body
            if p.lo is not None:
                out.append(le(lift(p.lo), t))
            if p.hi is not None:
                out.append(le(t, lift(p.hi)))
            if getattr(p, "positive", False):
                out.append(lt(ZERO, t))
    import ast

    def ev(d):
        if isinstance(d, int):
            return num(d)
        return dx(ast.parse(d, mode="eval").body)

    def dx(e):
        if isinstance(e, ast.Name):
            if e.id not in dims:
                raise Unsupported("dimension %s of a call" % e.id)
            return dims[e.id]
        if isinstance(e, ast.Constant):
            return num(e.value)
        a, b = dx(e.left), dx(e.right)
        return {ast.Add: add, ast.Sub: sub, ast.Mult: mul}[type(e.op)](a, b)
    for d, s in late:
        m = re.fullmatch(r"(?:(\d+)\*)?([a-z_]\w*)(?:\+(\d+))?", d) if isinstance(d, str) else None
        if m and m.group(2) not in dims:
            # k*h + r with h not yet bound
            k, r = num(int(m.group(1) or 1)), num(int(m.group(3) or 0))
            q = floordiv(sub(s, r), k)
            dims[m.group(2)] = q
            out.append(le(num(c.dims.get(m.group(2), 1)), q))
        out.append(eq(ev(d), s))
    return [g for g in out if g is not TRUE]


def by_case(cs, make):
    """one handler for the contracts of a function: the first that fits"""
    hs = [(c, make(c)) for c in cs]

    def h(I, f, bound):
        for c, g in hs:
            if fits(I, c, bound) is not None:
                return g(I, f, bound)
        return NotImplemented
    return h


def check_call(I, c, args):
    what = "precondition of %s at its call" % c.qual
    for g in param_goals(I, c, fits(I, c, args), args):
        I.obligations.append((what, I.facts(), g))


def call_handler(c):
    def h(I, f, bound):
        bound = {k: v for k, v in bound.items()}
        if set(c.modifies) != set(c.final):
            return NotImplemented
        args = bound
        if c.guard is not None and not c.guard(I, args):
            return NotImplemented
        if not I.in_spec:
            check_call(I, c, args)
        if c.requires is not None and not I.in_spec:
            g = I.truth(run_spec(I, c, c.requires, pick(c.requires, args)))
            I.obligations.append(("precondition of %s at its call" % c.qual, I.facts(), g))
        if c.raises is not None:
            r = I.truth(run_spec(I, c, c.raises, pick(c.raises, args)))
            if r is not FALSE:
                I.raises.append((b_and(*I.st.pc, r), "contract"))
                I.st.pc = I.st.pc + (b_not(r),)
        if c.final:
            new = {k: I.fa(run_spec(I, c, fn, pick(fn, args))) for k, fn in c.final.items()}
            r = run_spec(I, c, c.result, pick(c.result, args)) if c.result is not None else None
            if c.ensures is not None:
                kw = {**args, "result": r, **{"final_" + k: I.alloc(v) for k, v in new.items()}}
                for fn in (c.ensures.values() if isinstance(c.ensures, dict) else [c.ensures]):
                    I.env_fact(I.truth(run_spec(I, c, fn, pick(fn, kw))))
            for k, v in new.items():
                I.write(args[k], v)
            return r
        if c.result is not None:
            return run_spec(I, c, c.result, pick(c.result, args))
        key = (c.qual, frozen_key(tuple((k, I.freeze(v)) for k, v in sorted(args.items()))))
        memo = I.__dict__.setdefault("ret_memo", {})
        if key in memo:
            fv, facts = memo[key]
            for x in facts:
                I.env_fact(x)
            return I.thaw(fv)
        r = run_spec(I, c, c.returns, pick(c.returns, args))
        n0 = len(I.st.pc)
        if c.ensures is not None:
            g = I.truth(run_spec(I, c, c.ensures, pick(c.ensures, {**args, "result": r})))
            I.env_fact(g)
        memo[key] = (I.freeze(r), I.st.pc[n0:])
        return r
    return h


def flat_args(I, v, out, layout, tag):
    """arguments of a logic function: terms, with the ranges of array arguments."""
    if isinstance(v, T):
        out.append(v)
    elif isinstance(v, FA):
        d0 = len(out)
        out.extend(v.shape)
        tag.append("a%d" % v.ndim)
        if v.ndim == 0:
            out.append(v.body)
            return
        b = v.body
        vs = [fresh("i", "I") for _ in v.shape]
        b = subst(b, {IX[j]: x for j, x in enumerate(vs)})
        for x in reversed(vs):
            b = mk_lam(x, b)
        layout[len(out) + 1] = tuple(range(d0 + 1, d0 + 1 + v.ndim))
        out.append(b)
    elif isinstance(v, (tuple, list, FList)):
        xs = v.items if isinstance(v, FList) else v
        tag.append("(")
        for x in xs:
            flat_args(I, x, out, layout, tag)
        tag.append(")")
    elif isinstance(v, FDict):
        for k in sorted(v.items, key=str):
            tag.append(str(k))
            flat_args(I, v.items[k], out, layout, tag)
    elif v is None or isinstance(v, (str, bool, int)):
        tag.append(repr(v))
    elif isinstance(v, OpaqueFn) and v.fn is None:
        tag.append("%" + v.name)
    else:
        raise Unsupported("argument of a logic function: %s" % type(v).__name__)


def opaque_handler(c):
    """calls of c.qual become applications of one uninterpreted function per
    result component; only c.ensures is known about it."""
    def h(I, f, bound):
        if c.modifies or (c.result is None and c.returns is None):
            return NotImplemented
        args = dict(bound)
        if c.guard is not None and not c.guard(I, args):
            return NotImplemented
        if c.requires is not None and f.module.name.split(".")[0] == "girth" \
                and not I.in_spec:
            g = I.truth(run_spec(I, c, c.requires, pick(c.requires, args)))
            I.obligations.append(("precondition of %s at its call" % c.qual, I.facts(), g))
        if c.raises is not None:
            r = I.truth(run_spec(I, c, c.raises, pick(c.raises, args)))
            if r is not FALSE:
                I.raises.append((b_and(*I.st.pc, r), "contract"))
                I.st.pc = I.st.pc + (b_not(r),)
        flat, layout, tag = [], {}, []
        for k in sorted(args):
            flat_args(I, I.freeze(args[k]), flat, layout, tag)
        saved = I.st
        I.st = saved.fork()
        try:
            spec = c.returns or c.result
            shape = I.freeze(run_spec(I, c, spec, pick(spec, args)))
        finally:
            I.st = saved

        def name(path):
            nm = "~%s%s|%s" % (c.qual, path, ",".join(tag))
            P.OPAQUE[nm] = layout
            return nm

        def hide(v, path):
            if isinstance(v, T):
                if not v.fv and v.op in ("num", "str", "true", "false"):
                    return v
                return app(name(path), flat, v.sort)
            if isinstance(v, FA):
                dims = []
                for j, d in enumerate(v.shape):
                    if any(x.op in ("sum", "app", "ite") for x in subterms(d)):
                        d = app(name("%s#d%d" % (path, j)), flat, "I")
                        I.env_fact(le(ZERO, d))
                    dims.append(d)
                return FA(dims, v.dtype, app(name(path), flat + list(IX[:v.ndim]),
                                             sort_of(v.dtype)))
            if isinstance(v, tuple):
                return tuple(hide(x, "%s.%d" % (path, j)) for j, x in enumerate(v))
            if isinstance(v, FList):
                return FList([hide(x, "%s.%d" % (path, j)) for j, x in enumerate(v.items)])
            if isinstance(v, FDict):
                return FDict({k: hide(x, "%s.%s" % (path, k)) for k, x in v.items.items()})
            if v is None or isinstance(v, str):
                return v
            raise Unsupported("result of a logic function")
        r = I.thaw(hide(shape, ""))
        if "positive" in c.ensures if isinstance(c.ensures, dict) else False:
            # an obligation of that contract: every entry of the result is positive
            if c.ensures["positive"].__name__ == "all_positive":
                P.POSITIVE.add(name(""))
        for fn in (c.ensures.values() if isinstance(c.ensures, dict) else
                   [] if c.ensures is None else [c.ensures]):
            I.env_fact(I.truth(run_spec(I, c, fn, pick(fn, {**args, "result": r}))))
        return r
    return h


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.id not in seen:
            seen.add(x.id)
            todo.extend(children(x))
            yield x


# ------------------------------------------------------------ comparison
class Obl:
    __slots__ = ("name", "facts", "goal", "status", "by", "info", "secs")

    def __init__(self, name, facts, goal):
        self.name, self.facts, self.goal = name, facts, goal
        self.status = self.by = self.info = None
        self.secs = 0.0


def val_eq(a, b):
    if a.sort == "B" and b.sort == "B":
        return iff(a, b)
    a, b = b2i(a), b2i(b)
    g = eq(a, b)
    if mentions_nan(a) or mentions_nan(b):
        na, nb = isnan(a), isnan(b)
        g = ite(b_or(na, nb), b_and(na, nb), g)
    return g


def compare(I, name, got, want, facts, out):
    if isinstance(got, FA) and got.ndim == 0:
        got = got.body
    if isinstance(want, FA) and want.ndim == 0:
        want = want.body
    if isinstance(got, FSList) and isinstance(want, FA):
        got = slist_fa(got)
    if isinstance(want, FSList) and isinstance(got, FA):
        want = slist_fa(want)
    if isinstance(got, T) and isinstance(want, T):
        out.append(Obl(name, facts, val_eq(got, want)))
        return
    if isinstance(got, FA) and isinstance(want, FA):
        if got.ndim != want.ndim:
            out.append(Obl(name + ".ndim", facts, FALSE))
            return
        vs, rng = [], []
        for j, (x, y) in enumerate(zip(got.shape, want.shape)):
            out.append(Obl("%s.shape[%d]" % (name, j), facts, eq(x, y)))
            v = fresh("e", "I")
            vs.append(v)
            rng += [le(ZERO, v), lt(v, y)]
        out.append(Obl(name + "[" + ",".join(":" * got.ndim) + "]", facts + rng,
                       val_eq(got.at(*vs), want.at(*vs))))
        return
    if isinstance(got, Masked) or isinstance(want, Masked):
        raise Unsupported("comparison of masked arrays")
    if isinstance(got, (tuple, FList)) and isinstance(want, (tuple, FList)):
        g = got.items if isinstance(got, FList) else got
        w = want.items if isinstance(want, FList) else want
        if len(g) != len(w):
            out.append(Obl(name + ".length", facts, FALSE))
            return
        for i, (x, y) in enumerate(zip(g, w)):
            compare(I, "%s[%d]" % (name, i), x, y, facts, out)
        return
    if isinstance(got, FSList) and isinstance(want, FSList):
        out.append(Obl(name + ".length", facts, eq(got.n, want.n)))
        v = fresh("e", "I")
        compare(I, name + "[i]", fv_map(got.fv, lambda t: subst(t, {got.k: v})),
                fv_map(want.fv, lambda t: subst(t, {want.k: v})),
                facts + [le(ZERO, v), lt(v, want.n)], out)
        return
    if isinstance(got, FDict) and isinstance(want, FDict):
        if set(got.items) != set(want.items):
            out.append(Obl(name + ".keys", facts, FALSE))
        for k in want.items:
            if k in got.items:
                compare(I, "%s[%r]" % (name, k), got.items[k], want.items[k], facts, out)
        return
    if got is None or want is None or isinstance(got, str):
        out.append(Obl(name, facts, TRUE if got == want else FALSE))
        return
    fn = (FuncV, Lib, Bound, OpaqueFn)
    if isinstance(got, fn) and isinstance(want, fn) and got is not want:
        # functions of a number: the same value at any number
        x = fresh("x", "R")
        a, b = I.freeze(I.call(got, [x])), I.freeze(I.call(want, [x]))
        compare(I, name + "(x)", a, b, facts, out)
        return
    if type(got) is type(want) and got is want:
        out.append(Obl(name, facts, TRUE))
        return
    raise Unsupported("cannot compare %s with %s at %s" % (type(got).__name__,
                                                          type(want).__name__, name))


def slist_fa(s):
    if isinstance(s.fv, T):
        return FA([s.n], "f" if s.fv.sort == "R" else "i", subst(s.fv, {s.k: IX[0]}))
    if isinstance(s.fv, FA):
        b = s.fv
        return FA((s.n,) + b.shape, b.dtype,
                  subst(subst(b.body, {IX[i]: IX[i + 1] for i in range(b.ndim)}), {s.k: IX[0]}))
    raise Unsupported("list of structures")


# ------------------------------------------------------------ main
def obligations(c, params, repo="/repo", exported=None):
    """-> (Interp, [Obl], notes)"""
    env = P.Env()
    env.monotone = c.monotone
    NL.NAME_MASKS[0] = c.name_masks
    I = Interp(repo, env)
    bld = Builder(I, c)
    if c.setup:
        c.setup(I)
    f = I.get_function(c.qual)
    args = {k: bld.make(k, p) for k, p in params.items()}
    I.st.pc = tuple(bld.facts)
    if exported:
        for q, h in exported.items():
            if q != c.qual and q not in c.inline:
                I.contracts[q] = h
    if c.requires is not None:
        g = I.truth(run_spec(I, c, c.requires, pick(c.requires, args)))
        I.st.pc = I.st.pc + (g,)
    pre = I.st.fork()
    for k, v in args.items():
        if k in c.modifies:
            continue
        protect(I, k, v)
    out = []
    always = False
    try:
        r = call_real(I, c, f, args)
        fr = I.freeze(r)
    except AllRaise:
        always, fr = True, None
    post = I.st
    body_raises, defined = list(I.raises), list(I.defined)
    frame = list(I.frame_violations)
    if not always:
        finals = {k: I.freeze(args[k]) for k in c.modifies}
    # exceptions
    pf = list(pre.pc)
    I.st = pre.fork()
    if c.raises is not None:
        want = I.truth(run_spec(I, c, c.raises, pick(c.raises, args)))
        n = len(pf)
        got = b_or(*[r_[0] for r_ in body_raises])
        out.append(Obl("raises exactly when specified", pf, iff(got, want)))
    else:
        for i, r_ in enumerate(body_raises):
            out.append(Obl("no %s" % (r_[1],), pf, b_not(r_[0])))
    seen = set()
    for facts, goal, what in defined:
        key = (goal, tuple(facts))
        if key in seen:
            continue
        seen.add(key)
        out.append(Obl("defined: " + what, facts, goal))
    for cond, who in frame:
        out.append(Obl("frame: %s is not modified" % who, list(cond), FALSE))
    for what, facts, goal in I.obligations:
        out.append(Obl(what, facts, goal))
    if not always:
        facts = list(post.pc)
        if c.result is not None:
            I.st = pre.fork()
            if c.share_state:
                I.st.heap.update({k: v for k, v in post.heap.items() if k not in I.st.heap})
            want = run_spec(I, c, c.result, pick(c.result, args))
            fw = I.freeze(want)
            facts = facts + [x for x in I.st.pc if x not in pre.pc]
            compare(I, "result", fr, fw, facts, out)
        for k, fn in c.final.items():
            I.st = pre.fork()
            fw = I.freeze(run_spec(I, c, fn, pick(fn, args)))
            fs = facts + [x for x in I.st.pc if x not in pre.pc]
            compare(I, "final " + k, finals[k], fw, fs, out)
        if c.ensures is not None:
            I.st = pre.fork()
            I.st.pc = tuple(facts)
            res = I.thaw(fr) if not isinstance(fr, (FuncV,)) else fr
            kw = dict(args)
            kw["result"] = res
            for k in c.modifies:
                kw["final_" + k] = I.thaw(finals[k])
            for nm, fn in (c.ensures if isinstance(c.ensures, dict) else {"ensures": c.ensures}).items():
                I.st.pc = tuple(facts)
                g = I.truth(run_spec(I, c, fn, pick(fn, kw)))
                gl = g.args if g.op == "and" else [g]
                for j, x in enumerate(gl):
                    out.append(Obl("%s #%d" % (nm, j), list(I.st.pc), x))
    return I, out


def call_real(I, c, f, args):
    bound_names = {k: v for k, v in args.items()}
    if isinstance(f, FuncV):
        return I.call_func(f, [], bound_names, nocontract=True)
    return I.call(f, [], bound_names)


def protect(I, name, v):
    if isinstance(v, Arr):
        I.protected[v.base] = name
    elif isinstance(v, tuple):
        for x in v:
            protect(I, name, x)
    elif isinstance(v, (HList, HDict)):
        I.protected[v.id] = name
        ct = I.content(v)
        its = ct.items.values() if isinstance(ct, CDict) else (
            ct.items if isinstance(ct, CList) else ())
        for x in its:
            protect(I, name, x)


def discharge(I, obls, deadline=None, keep_going=True):
    for o in obls:
        t0 = time.time()
        if o.goal is TRUE:
            o.status, o.by = "proved", "normal-form"
            P.STATS.by["normal-form"] += 1
            continue
        if deadline and time.time() > deadline:
            o.status, o.info = "unknown", {"note": "time budget of the contract used up"}
            continue
        try:
            o.status, o.info = P.prove(I.env, o.facts, o.goal)
        except Unsupported as e:
            o.status, o.info = "unknown", {"note": "unsupported: %s" % e}
        o.by = o.info if o.status == "proved" else None
        o.secs = time.time() - t0
        if o.status != "proved" and not keep_going:
            break


def exported(c):
    exp = {}
    for quals, make in ((c.use, call_handler), (c.opaque, opaque_handler)):
        for q in quals:
            cs = [x for x in S.REGISTRY.values() if x.export and x.qual == q and x.cid != c.cid
                  and (x.result is not None or x.returns is not None or x.final)]
            if not cs:
                raise Unsupported("no contract for " + q)
            exp[q] = by_case(cs, make)
    return exp


def verify(cid, case_index, repo="/repo", budget=300, verbose=False):
    """-> plain dict (picklable)."""
    import sys
    sys.setrecursionlimit(200000)
    S.loadall()
    c = S.REGISTRY[cid]
    label, params = c.cases[case_index]
    t0 = time.time()
    name = c.cid + (("/" + label) if label else "")
    res = {"contract": c.cid, "case": label, "name": name, "obligations": [], "status": "proved",
           "assumed": [], "touched": [], "error": None, "qual": c.qual}
    z0 = (P.STATS.z3_time, P.STATS.cvc5_time, dict(P.STATS.by))
    I = None
    try:
        exp = exported(c)
        I, obls = obligations(c, params, repo, exp)
        t1 = time.time()
        discharge(I, obls, deadline=t0 + budget)
        for o in obls:
            res["obligations"].append({
                "name": o.name, "status": o.status, "by": o.by if o.status == "proved" else None,
                "secs": round(o.secs, 3),
                "info": None if o.status == "proved" else str(o.info)[:2000],
                "goal": show(o.goal, 8)[:1500] if o.status != "proved" else None})
            if o.status != "proved":
                res["status"] = "failed"
    except Unsupported as e:
        res["status"], res["error"] = "unsupported", str(e)
    except RecursionError:
        res["status"], res["error"] = "unsupported", "recursion limit"
    except Exception as e:  # an engine failure is a failed proof, never a pass
        res["status"], res["error"] = "unsupported", "engine: %s: %s\n%s" % (
            type(e).__name__, e, traceback.format_exc()[-1500:])
    if I is not None:
        res["assumed"] = sorted(I.assumed_libs)
        res["touched"] = sorted("%s:%s" % x for x in I.touched if not x[0].startswith("contracts"))
        res["used_contracts"] = sorted(I.used_contracts)
        res["loop_notes"] = list(I.loop_notes)
    res["lemmas"] = sorted(I.lemmas) if I is not None else []
    res["secs"] = round(time.time() - t0, 2)
    res["z3_secs"] = round(P.STATS.z3_time - z0[0], 2)
    res["cvc5_secs"] = round(P.STATS.cvc5_time - z0[1], 2)
    return res


if __name__ == "__main__":
    import sys
    sys.path.insert(0, "/verif")
    S_ = __import__("gv.spec", fromlist=["x"])
    S_.loadall()
    for cid in sys.argv[1:]:
        for c_ in [x for x in S_.REGISTRY if cid in x]:
            for i in range(len(S_.REGISTRY[c_].cases)):
                from gv.verify import verify as v_
                r = v_(c_, i)
                ok = sum(o["status"] == "proved" for o in r["obligations"])
                print("%-70s %-11s %d/%d  %.1fs %s" % (r["name"], r["status"], ok,
                                                      len(r["obligations"]), r["secs"],
                                                      (r["error"] or "")[:600]))
                for o in r["obligations"]:
                    if o["status"] != "proved":
                        print("    ", o["name"], o["status"], (o["goal"] or "")[:600])
                        print("        ", (o["info"] or "")[:300])
