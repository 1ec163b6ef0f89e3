"""Loops without a closed form: the state after i iterations, as a term.

fold(n, stop, m, components...) is the state of a loop of at most n iterations:
each component has its dimensions, its initial value and its value after an
iteration as a function of (state before, iteration number, indices); stop(state
before, iteration number) tells that the loop ends with that iteration.  Only
the components that a value depends on take part, in an order that does not
depend on names.  st(F, j, indices) reads component j.
"""
import itertools

from .values import *  # noqa: F401,F403
from .terms import *  # noqa: F401,F403
from .terms import T, Unsupported, SIMPLIFIERS, NAN_SYMS, mentions_nan, in_range, skey, children
from .values import _bv  # noqa: F401


class Comp:
    """sym: ("t", var) / ("a", name) / None, init: body in IX or None"""
    __slots__ = ("sym", "sort", "dims", "init", "step", "deps", "key")

    def __init__(self, sym, sort, dims, init, step):
        self.sym, self.sort, self.dims, self.init, self.step = sym, sort, tuple(dims), init, step


def depends(t, comps):
    out = set()
    if t is None:
        return out
    sy = syms_in(t)
    for i, c in enumerate(comps):
        if c.sym is None:
            continue
        if (c.sym[0] == "t" and c.sym[1] in t.fv) or (c.sym[0] == "a" and "@" + c.sym[1] in sy):
            out.add(i)
    return out


def cone(start, comps, stop):
    todo = set(start) | depends(stop, comps)
    out = set()
    while todo:
        i = todo.pop()
        if i in out:
            continue
        out.add(i)
        todo |= depends(comps[i].step, comps) - out
    return out


def st(S, j, idx, sort):
    return app("st", [S, num(j)] + list(idx), sort)


def through(t, comps, order, S):
    """t with the state symbols read from S"""
    vm, fm = {}, {}
    for pos, i in enumerate(order):
        c = comps[i]
        if c.sym is None:
            continue
        if c.sym[0] == "t":
            vm[c.sym[1]] = st(S, pos, (), c.sort)
        else:
            fm[c.sym[1]] = (lambda pos, srt: lambda *a: st(S, pos, a, srt))(pos, c.sort)
    return fsubst(t, vm, fm) if vm or fm else t


def blind(t, comps, S):
    """t with every state symbol replaced by the same one"""
    vm, fm = {}, {}
    for c in comps:
        if c.sym is None:
            continue
        if c.sym[0] == "t":
            vm[c.sym[1]] = st(S, 0, (), c.sort)
        else:
            fm[c.sym[1]] = (lambda srt: lambda *a: st(S, 0, a, srt))(c.sort)
    return fsubst(t, vm, fm)


def nest(vs, body):
    for v in reversed(vs):
        body = mk_lam(v, body)
    return body


def ranged(body, idx, dims, k, n):
    for v, d in zip(idx, dims):
        body = in_range(body, v, d)
    return in_range(body, k, n) if k is not None else body


def undefined_entries(comps, members):
    """components that may hold NaN"""
    bad = {i for i in members if (comps[i].init is not None and isnan(comps[i].init) is not FALSE)
           or isnan(comps[i].step) is not FALSE}
    while bad:
        vm = {comps[i].sym[1]: NAN for i in bad if comps[i].sym and comps[i].sym[0] == "t"}
        fm = {comps[i].sym[1]: (lambda *a: NAN) for i in bad
              if comps[i].sym and comps[i].sym[0] == "a"}
        new = {i for i in members - bad if depends(comps[i].step, comps) & bad and
               isnan(fsubst(comps[i].step, vm, fm)) is not FALSE}
        if not new:
            break
        bad |= new
    return bad


_bad_positions = {}


def nan_positions(F):
    """the same, read off a fold"""
    r = _bad_positions.get(F)
    if r is not None:
        return r
    S, k = fresh("S", "U"), fresh("k", "I")
    open_, bad = [], set()
    for j, (dims, init, step) in enumerate(parts(F)[2]):
        s = lam_apply(lam_apply(step, S), k)
        for _ in dims:
            v = fresh("i", "I")
            s = lam_apply(s, v)
            init = lam_apply(init, v) if init.op != "str" else init
        open_.append(s)
        if isnan(init) is not FALSE or isnan(s) is not FALSE:
            bad.add(j)
    while bad:
        new = {j for j, s in enumerate(open_) if j not in bad
               and isnan(poisoned(s, S, bad)) is not FALSE}
        if not new:
            break
        bad |= new
    _bad_positions[F] = frozenset(bad)
    return _bad_positions[F]


def poisoned(t, S, bad):
    memo = {}

    def go(x):
        if S not in x.fv:
            return x
        r = memo.get(x)
        if r is None:
            if x.op == "app" and x.args[0] == "st" and x.args[1] is S and as_int(x.args[2]) in bad:
                r = NAN
            elif x.op == "lam" or x.op in BINDERS:
                r = x       # values under binders of optimisers are not passed on
                if x.op in ("sum", "prod", "minb", "maxb"):
                    v = fresh("o", "I")
                    _, m, b = open_binder(x, v)
                    r = mk_binder(x.op, x.args[1], v, go(b))
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def st_undefined(a):
    F = a[0]
    if not mentions_nan(F):
        return FALSE
    if F.op == "app" and F.args[0] == "fold" and as_int(a[1]) not in nan_positions(F):
        return FALSE
    return app("st_isnan", a, "B")


def build(comps, want, k, n, stop=None):
    """fold term over the cone of the wanted components.

    Returns (order: component index -> position, fold as a function of the
    number of iterations)."""
    S = fresh("S", "U")
    members = cone(want, comps, stop)
    QUIET[0] = True
    try:
        bad = undefined_entries(comps, members)
    finally:
        QUIET[0] = False
    for i in bad:
        if comps[i].sym is not None and comps[i].sym[1] in NAN_ASKED:
            raise Unsupported("a loop state with NaN entries in a computation that looks at NaN: %s" % comps[i].sym[1])
    mem = sorted(members)
    for i in mem:
        c = comps[i]
        c.key = (c.sort, len(c.dims), skey(blind(c.step, comps, S)),
                 "" if c.init is None else skey(c.init))
    order = sorted(mem, key=lambda i: comps[i].key)
    kb = fresh("k", "I")
    args = []
    for i in order:
        c = comps[i]
        idx = [fresh("i", "I") for _ in c.dims]
        mp = dict(zip(IX, idx))
        init = string("undef") if c.init is None else nest(
            idx, ranged(subst(c.init, mp), idx, c.dims, None, None))
        s = through(subst(c.step, mp), comps, order, S)
        s = ranged(subst(s, {k: kb}), idx, c.dims, kb, n)
        args += [num(len(c.dims))] + list(c.dims) + [init, nest([S, kb] + idx, s)]
    if stop is None:
        stopl = string("never")
    else:
        stopl = nest([S, kb], in_range(subst(through(b2i(stop), comps, order, S), {k: kb}), kb, n))

    def at(m):
        return app("fold", [m, stopl, num(len(order))] + args, "U")
    return {i: p for p, i in enumerate(order)}, at


def parts(f):
    """(n, stop, [(dims, init, step)])"""
    a = f.args[1:]
    n, stop, m = a[0], a[1], as_int(a[2])
    out, q = [], 3
    for _ in range(m):
        d = as_int(a[q])
        out.append((a[q + 1:q + 1 + d], a[q + 1 + d], a[q + 2 + d]))
        q += 3 + d
    return n, stop, out


def _simp_st(args, sort):
    F = args[0]
    if F.op == "app" and F.args[0] == "fold" and F.args[1] is ZERO:
        init = parts(F)[2][as_int(args[1])][1]
        if init.op == "str":
            return None
        for i in args[2:]:
            init = lam_apply(init, i)
        return init
    return None


SIMPLIFIERS["st"] = _simp_st
NAN_SYMS["st"] = st_undefined


def relabel(t, S, mp):
    """positions read from the state S renamed"""
    memo = {}

    def go(x):
        if S not in x.fv:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "app" and x.args[0] == "st" and x.args[1] is S:
            r = app("st", [S, num(mp[as_int(x.args[2])])] + [go(y) for y in x.args[3:]], x.sort)
        elif x.op == "lam":
            v = fresh("o", x.args[2])
            r = mk_lam(v, go(lam_apply(x, v)))
        elif x.op in BINDERS:
            v = fresh("o", "I")
            _, m, b = open_binder(x, v)
            r = mk_binder(x.op, go(x.args[1]), v, go(b))
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def matchings(A, B, fixed):
    """renamings position in B -> position in A between components of one kind"""
    kind = lambda p: (len(p[0]), tuple(d.id for d in p[0]))
    groups = {}
    for i, p in enumerate(A):
        groups.setdefault(len(p[0]), ([], []))[0].append(i)
    for i, p in enumerate(B):
        groups.setdefault(len(p[0]), ([], []))[1].append(i)
    if any(len(x) != len(y) for x, y in groups.values()):
        return
    gs = list(groups.values())
    count = 0
    # the order given first
    for combo in itertools.product(*[itertools.permutations(x) for x, _ in gs]):
        mp = {}
        for (x, y), perm in zip(gs, combo):
            mp.update(zip(y, perm))
        if any(mp[b] != a for a, b in fixed):
            continue
        yield mp
        count += 1
        if count >= 24:
            return


def same_fold(env, facts, F, G, pos, depth, same, arbitrary):
    """st(F, pos[0]) and st(G, pos[1]) read equal components of equal folds"""
    n1, stop1, A = parts(F)
    n2, stop2, B = parts(G)
    if len(A) != len(B) or (stop1.op == "str") != (stop2.op == "str"):
        return False
    if n1 is not n2 and not same(env, facts, n1, n2, depth):
        return False
    S = arbitrary(env, facts, (F, G), "U")
    kk = arbitrary(env, facts, (F, G, S))
    fk = list(facts) + [le(ZERO, kk), lt(kk, n1)]
    def starts_agree(p, q):
        (d1, i1, s1), (d2, i2, s2) = p, q
        if (i1.op == "str") != (i2.op == "str") or len(d1) != len(d2):
            return False
        f2 = list(facts)
        for x, y in zip(d1, d2):
            if x is not y and not same(env, facts, x, y, depth):
                return False
            v = arbitrary(env, f2, (F, G))
            f2 += [le(ZERO, v), lt(v, x)]
            if i1.op != "str":
                i1, i2 = lam_apply(i1, v), lam_apply(i2, v)
        return i1.op == "str" or i1 is i2 or same(env, f2, i1, i2, depth)
    agree = {}
    # whole folds are only equal when no component changes its place
    for mp in matchings(A, B, [pos] if pos else [(i, i) for i in range(len(A))]):
        for b, a in mp.items():
            if (a, b) not in agree:
                agree[a, b] = starts_agree(A[a], B[b])
            if not agree[a, b]:
                break
        else:
            b = None
        if b is not None:
            continue
        inv = {a: b for b, a in mp.items()}
        ok = True
        if stop1.op != "str":
            x = lam_apply(lam_apply(stop1, S), kk)
            y = relabel(lam_apply(lam_apply(stop2, S), kk), S, mp)
            ok = x is y or same(env, fk, x, y, depth)
        for i, (d1, i1, s1) in enumerate(A):
            if not ok:
                break
            d2, i2, s2 = B[inv[i]]
            f2, f3, idx = list(facts), list(fk), []
            for p, q in zip(d1, d2):
                if p is not q and not same(env, facts, p, q, depth):
                    ok = False
                    break
                v = arbitrary(env, f3, (F, G, S, kk))
                idx.append(v)
                r = [le(ZERO, v), lt(v, p)]
                f2 += r
                f3 += r
            if not ok:
                break
            if (i1.op == "str") != (i2.op == "str"):
                ok = False
                break
            if i1.op != "str":
                x, y = i1, i2
                for v in idx:
                    x, y = lam_apply(x, v), lam_apply(y, v)
                if x is not y and not same(env, f2, x, y, depth):
                    ok = False
                    break
            x = lam_apply(lam_apply(s1, S), kk)
            y = lam_apply(lam_apply(s2, S), kk)
            for v in idx:
                x, y = lam_apply(x, v), lam_apply(y, v)
            y = relabel(y, S, mp)
            ok = x is y or (x.sort == y.sort and same(env, f3, x, y, depth)) or (
                x.sort != y.sort and same(env, f3, b2i(x), b2i(y), depth))
        if ok:
            return True
    return False
