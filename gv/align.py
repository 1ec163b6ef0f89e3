"""Equality of two terms of the same shape, compared part by part.

Sound: every step is congruence (or extensionality, under the range of the
binder); parts that differ in shape are left to the prover.  It spares the
prover the search for equal sums inside large terms.
"""
from .terms import *  # noqa: F401,F403
from .terms import T, children
from . import fold as FD


def align(P, env, facts, a, b, fuel=60):
    """-> True / False (not shown)"""
    if a is b:
        return True
    if fuel <= 0 or (a.sort == "B") != (b.sort == "B") or (a.sort == "L") != (b.sort == "L"):
        return False
    key = ("A", a, b, tuple(f.id for f in facts))
    r = env.memo.get(key)
    if r is None:
        env.memo[key] = False
        r = env.memo[key] = _align(P, env, facts, a, b, fuel - 1)
    return r


def unified(P, env, facts, a, b, fuel):
    """b with the optimiser and loop results that equal those of a replaced"""
    xs, ys = results(a), results(b)
    mp = {}
    for y in ys - xs:
        for x in xs - ys:
            if x.args[0] == y.args[0] and len(x.args) == len(y.args) and align(P, env, facts, x, y, fuel):
                mp[y] = x
                break
    return replace(b, mp) if mp else b


_results = {}


def results(t):
    """outermost applications of the UNIFY functions outside binders"""
    r = _results.get(t)
    if r is None:
        if t.op in BINDERS or t.op == "lam":
            r = frozenset()
        elif t.op == "app" and any(t.args[0].startswith(u) for u in UNIFY):
            r = frozenset((t,))
        else:
            r = frozenset().union(*[results(c) for c in children(t)])
        _results[t] = r
    return r


def _align(P, env, facts, a, b, fuel):
    go = lambda f, x, y: align(P, env, f, x, y, fuel)
    if a.op in ("ite", "le0", "lt0", "eq0", "poly", "and", "not"):
        b2 = unified(P, env, facts, a, b, fuel)
        if b2 is not b:
            return go(facts, a, b2)
    if a.op == b.op:
        op = a.op
        if op == "lam":
            if a.args[2] != b.args[2]:
                return False
            v = P.arbitrary(env, facts, (a, b), a.args[2])
            return go(facts, lam_apply(a, v), lam_apply(b, v))
        if op in BINDERS:
            n1, n2 = a.args[1], b.args[1]
            if go(facts, n1, n2):
                v = P.arbitrary(env, facts, (a, b))
                x, y = open_binder(a, v)[2], open_binder(b, v)[2]
                if go(list(facts) + [le(ZERO, v), lt(v, n1)], x, y):
                    return True
        elif op == "app":
            if apps(P, env, facts, a, b, go, fuel):
                return True
        elif op == "ite":
            c, d = a.args[0], b.args[0]
            if c is d or go(facts, c, d):
                f1, f2 = list(facts) + [c], list(facts) + [b_not(c)]
                if go(f1, a.args[1], b.args[1]) and go(f2, a.args[2], b.args[2]):
                    return True
        elif op in ("and", "not", "iff", "eq0", "le0", "lt0"):
            if len(a.args) == len(b.args) and all(go(facts, x, y) for x, y in zip(a.args, b.args)):
                return True
        elif op == "poly":
            if zero(P, env, facts, sub(a, b), fuel):
                return True
    if a.sort in ("L", "U") or b.sort in ("L", "U"):
        return False
    c = condition(a)
    c = condition(b) if c is None else c
    if c is None or fuel <= 0:
        return leaf(P, env, facts, a, b)
    for v in (True, False):
        f = c if v else b_not(c)
        d = decided(P, env, facts, c)
        if d is not None and d != v:
            continue
        x, y = under(a, c, v), under(b, c, v)
        if not align(P, env, list(facts) + [f], x, y, fuel):
            return False
    return True


def condition(t):
    """the first condition of a case distinction outside binders and functions"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            c = x.args[0]
            while c.op in ("and", "not", "or", "iff"):
                c = c.args[0]
            return c
        if x.op in BINDERS or x.op == "lam":
            continue
        stack.extend(reversed(children(x)))
    return None


def under(t, c, v):
    t = assume(t, c, v)
    if v and c.op == "eq0":
        # the same quantity has one value
        for d in equations(t):
            k = sub(c.args[0], d.args[0])
            s = add(c.args[0], d.args[0])
            if any(is_num(z) and numval(z) != 0 for z in (k, s)):
                t = assume(t, d, False)
    return t


def equations(t):
    out, stack, seen = [], [t], set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "eq0":
            out.append(x)
        if x.op not in BINDERS and x.op != "lam":
            stack.extend(children(x))
    return out


def decided(P, env, facts, c):
    """the truth of a condition, where the facts settle it"""
    key = ("D", c, tuple(f.id for f in facts))
    if key not in env.memo:
        old, r = env.tlimit, None
        env.tlimit = min(old, 1000)
        try:
            if P.prove(env, list(facts), b_not(c), 1)[0] == "proved":
                r = False
            elif P.prove(env, list(facts), c, 1)[0] == "proved":
                r = True
        finally:
            env.tlimit = old
        env.memo[key] = r
    return env.memo[key]


def apps(P, env, facts, a, b, go, fuel):
    if a.args[0] != b.args[0] or len(a.args) != len(b.args):
        return False
    if a.args[0] in ("st", "fold"):
        same = lambda e, f, x, y, d: align(P, e, f, x, y, fuel)
        if a.args[0] == "fold":
            return FD.same_fold(env, facts, a, b, None, 0, same, P.arbitrary)
        if not all(go(facts, x, y) for x, y in zip(a.args[3:], b.args[3:])):
            return False
        F, G = a.args[1], b.args[1]
        if F is G:
            return a.args[2] is b.args[2]
        return F.op == G.op == "app" and F.args[0] == G.args[0] == "fold" and FD.same_fold(
            env, facts, F, G, (as_int(a.args[2]), as_int(b.args[2])), 0, same, P.arbitrary)
    rng = P.lam_ranges(a)
    for j, (x, y) in enumerate(zip(a.args[1:], b.args[1:]), 1):
        if x is y:
            continue
        f2 = list(facts)
        if rng.get(j) and x.op == "lam" and y.op == "lam":
            for d in rng[j]:
                if x.op != "lam" or y.op != "lam":
                    break
                v = P.arbitrary(env, f2, (x, y, d), x.args[2])
                x, y = lam_apply(x, v), lam_apply(y, v)
                f2 += [le(ZERO, v), lt(v, d)]
        elif j == 1 and a.args[0].startswith("fminbound") and x.op == "lam" and y.op == "lam":
            v = P.arbitrary(env, f2, (x, y), x.args[2])
            x, y = lam_apply(x, v), lam_apply(y, v)
            if len(a.args) > 3:
                f2 += [le(a.args[2], v), le(v, a.args[3])]
        if not go(f2, x, y):
            return False
    return True


def zero(P, env, facts, p, fuel=60):
    """p == 0 by pairing its monomials"""
    ms = list(as_poly(p).items())
    if not ms or len(ms) % 2 or len(ms) > 120:
        return False
    go = lambda x, y: align(P, env, facts, x, y, fuel - 1)

    def pair(m1, m2):
        d1, d2 = dict(m1), dict(m2)
        r1 = [(x, e) for x, e in m1 if d2.get(x) != e]
        r2 = [(x, e) for x, e in m2 if d1.get(x) != e]
        if len(r1) != len(r2) or not r1:
            return False
        for x, e in r1:
            for i, (y, g) in enumerate(r2):
                if e == g and x.op == y.op and (x.op != "app" or x.args[0] == y.args[0]) and go(x, y):
                    r2.pop(i)
                    break
            else:
                return False
        return True
    while ms:
        m, c = ms.pop(0)
        for i, (m2, c2) in enumerate(ms):
            if c2 == -c and pair(m, m2):
                ms.pop(i)
                break
        else:
            return False
    return True


def leaf(P, env, facts, a, b):
    """small differences: the prover, without a search"""
    h1, h2 = set(P.collect([a])[1]), set(P.collect([b])[1])
    if h1 != h2:
        return False
    old = env.tlimit
    env.tlimit = min(old, 2000)
    try:
        return P.prove(env, list(facts), eq(a, b) if a.sort != "B" else iff(a, b), 2)[0] == "proved"
    finally:
        env.tlimit = old


UNIFY = ("fminbound", "slsqp", "min_", "fold", "st")


def tidy(P, env, facts, goal):
    """the goal with settled case distinctions removed and optimiser results
    (and loop results) that are equal written in one way"""
    key = ("T", goal, tuple(f.id for f in facts))
    if key not in env.memo:
        env.memo[key] = goal
        env.memo[key] = _tidy(P, env, facts, goal)
    return env.memo[key]


def _tidy(P, env, facts, goal):
    for _ in range(20):
        todo = [t for t in closed(goal) if t.op == "ite"]
        for t in todo:
            c = t.args[0]
            d = decided(P, env, facts, c)
            if d is not None:
                goal = assume(goal, c, d)
                break
        else:
            break
    while True:
        groups = {}
        for t in closed(goal):
            if t.op == "app" and any(t.args[0].startswith(u) for u in UNIFY):
                groups.setdefault((t.args[0], len(t.args)), []).append(t)
        new = goal
        for g in groups.values():
            if len(g) > 6:
                continue
            for i, x in enumerate(g):
                for y in g[:i]:
                    if align(P, env, facts, y, x):
                        new = replace(goal, {x: y})
                        break
                if new is not goal:
                    break
            if new is not goal:
                break
        if new is goal:
            return goal
        goal = new


def closed(t):
    """subterms without bound variables of binders around them, smallest first"""
    out, stack, seen = [], [t], set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("ite", "app") and not bvs_in(x):
            out.append(x)
        stack.extend(children(x))
    return sorted(out, key=size)


_sizes = {}


def size(t):
    r = _sizes.get(t)
    if r is None:
        r = _sizes[t] = 1 + sum(size(c) for c in children(t))
    return r
