"""Hash-consed term language with a polynomial normal form and binders.

Numbers are mathematical (rationals / reals / integers); machine arithmetic is
not modelled (see DESIGN.md, assumption A1).  Every constructor normalises.

Sorts: 'I' integer, 'R' real, 'B' boolean, 'L' lambda, 'U' uninterpreted.
"""
from fractions import Fraction
import hashlib
import itertools
import sys

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    """The verifier has no rule for a construct of the program text."""


class T:
    __slots__ = ("op", "args", "sort", "id", "fv", "bh", "_nan", "_sk")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):          # structural identity (hash-consed)
        return self is other

    def __ne__(self, other):
        return self is not other

    # -- operator sugar used by the specifications ------------------------
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __floordiv__(self, o): return floordiv(self, lift(o))
    def __mod__(self, o): return mod(self, lift(o))
    def __neg__(self): return neg(self)
    def __pow__(self, o): return power(self, lift(o))
    def __lt__(self, o): return lt(self, lift(o))
    def __le__(self, o): return le(self, lift(o))
    def __gt__(self, o): return lt(lift(o), self)
    def __ge__(self, o): return le(lift(o), self)
    def __bool__(self):
        if self is TRUE:
            return True
        if self is FALSE:
            return False
        raise TypeError("truth value of a symbolic term: %s" % show(self))


_table = {}
_ids = itertools.count(1)
EMPTY = frozenset()


def _fv_of(op, args):
    fv = EMPTY
    bh = 0
    if op == "poly":
        for mono, _ in args:
            for atom, _e in mono:
                fv = fv | atom.fv if atom.fv else fv
                if atom.bh > bh:
                    bh = atom.bh
    else:
        for a in args:
            if isinstance(a, T):
                if a.fv:
                    fv = fv | a.fv
                if a.bh > bh:
                    bh = a.bh
    return fv, bh


BINDERS = {"sum", "prod", "all", "minb", "maxb", "lam"}


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.sort = op, args, sort
    t.id = next(_ids)
    t._nan = None
    t._sk = None
    if op == "var":
        t.fv, t.bh = frozenset((t,)), 0
    else:
        t.fv, t.bh = _fv_of(op, args)
        if op in BINDERS:
            t.bh = args[0]          # args[0] is the binder height
    _table[key] = t
    return t


# ---------------------------------------------------------------- basics
TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")


def num(q):
    q = Fraction(q)
    return mk("num", (q,), "I" if q.denominator == 1 else "R")


ZERO, ONE, MINUS1, HALF = num(0), num(1), num(-1), num(Fraction(1, 2))


def var(name, sort="R"):
    return mk("var", (name,), sort)


_fresh = itertools.count(1)


def fresh(prefix="v", sort="R"):
    return var("%s!%d" % (prefix, next(_fresh)), sort)


def fresh_name(prefix="f"):
    return "%s!%d" % (prefix, next(_fresh))


def string(s):
    return mk("str", (s,), "U")


NAN = mk("nan", (), "R")
PI = var("pi", "R")
INF = var("inf", "R")


def lift(x):
    if isinstance(x, T):
        return x
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    if isinstance(x, int):
        return num(x)
    if isinstance(x, Fraction):
        return num(x)
    if isinstance(x, float):
        return flt(x)
    try:
        import numpy as np
        if isinstance(x, np.bool_):
            return TRUE if x else FALSE
        if isinstance(x, np.integer):
            return num(int(x))
        if isinstance(x, np.floating):
            return flt(float(x))
    except ImportError:
        pass
    raise Unsupported("cannot lift %r to a term" % (x,))


def flt(x):
    if x != x:
        return NAN
    if x == float("inf"):
        return INF
    if x == float("-inf"):
        return neg(INF)
    if x == 3.141592653589793:
        return PI
    if x == 6.283185307179586:
        return mul(num(2), PI)
    return num(Fraction(repr(x)))


def is_num(t):
    return t.op == "num"


def numval(t):
    return t.args[0]


def as_int(t):
    """Concrete python int of a term, or None."""
    if isinstance(t, int) and not isinstance(t, bool):
        return t
    if isinstance(t, T) and t.op == "num" and t.args[0].denominator == 1:
        return int(t.args[0])
    return None


# ------------------------------------------------- structural ordering key
# Sign / scaling conventions of normal forms must not depend on the names of
# bound variables (a body is normalised both open and closed), so they are
# decided by this digest, in which every bound variable looks the same.
_BOUND_PREFIX = ("s!", "o!", "l!")


def skey(t):
    k = t._sk
    if k is None:
        k = _skey(t)
        t._sk = k
    return k


def _dig(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"|")
    return h.digest()


def _skey(t):
    op = t.op
    if op == "bv" or (op == "var" and t.args[0].startswith(_BOUND_PREFIX)):
        return _dig("bound")
    if op in ("num", "var", "str", "true", "false", "nan"):
        return _dig(op, *t.args)
    if op == "poly":
        return _dig("poly", *sorted(_mkey(m) + str(c).encode() for m, c in t.args))
    if op in BINDERS:
        return _dig(op, *[skey(a) for a in t.args if isinstance(a, T)])
    if op in ("and", "iff", "equ"):
        return _dig(op, *sorted(skey(a) for a in t.args))
    return _dig(op, *[skey(a) if isinstance(a, T) else a for a in t.args])


def _mkey(m):
    return _dig("m", *sorted(skey(a) + str(e).encode() for a, e in m))


def lead_coeff(t):
    """coefficient of the structurally first non-constant monomial."""
    best = None
    for m, c in t.args:
        if not m:
            continue
        k = _mkey(m)
        if best is None or k < best[0]:
            best = (k, c)
    return best[1]


# ---------------------------------------------------------------- polynomials
def b2i(t):
    """Booleans used as numbers."""
    if t.sort == "B":
        return ite(t, ONE, ZERO)
    return t


def as_poly(t):
    """dict monomial -> coefficient."""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def from_poly(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: _mono_key(mc[0]))
    srt = "I"
    for m, c in items:
        if c.denominator != 1:
            srt = "R"
            break
        for a, e in m:
            if a.sort != "I" or e < 0:
                srt = "R"
                break
        if srt == "R":
            break
    return mk("poly", tuple(items), srt)


def _isnum_nan(*ts):
    for t in ts:
        if t is NAN:
            return True
    return False


def add(a, b):
    a, b = b2i(a), b2i(b)
    if _isnum_nan(a, b):
        return NAN
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    d = as_poly(a)
    for m, c in as_poly(b).items():
        nc = d.get(m, 0) + c
        if nc:
            d[m] = nc
        else:
            d.pop(m, None)
    return from_poly(d)


def neg(a):
    return scale(a, Fraction(-1))


def scale(a, q):
    a = b2i(a)
    if a is NAN:
        return NAN
    if not q:
        return ZERO
    if q == 1:
        return a
    return from_poly({m: c * q for m, c in as_poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


CANCELLED = set()      # denominators cancelled during normalisation


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        old = d.get(a, 0)
        ne = old + e
        if old and e and (old > 0) != (e > 0):
            CANCELLED.add(a)
        if ne:
            d[a] = ne
        else:
            d.pop(a, None)
    return d


def _finish_mono(d):
    """Normalise a monomial dict; returns (poly or None, mono tuple, extra coeff)."""
    # combine exponentials
    exps = [(a, e) for a, e in d.items() if a.op == "app" and a.args[0] == "exp"]
    extra = None
    if len(exps) > 1 or (exps and exps[0][1] != 1):
        for a, _ in exps:
            del d[a]
        tot = ZERO
        for a, e in exps:
            tot = add(tot, scale(a.args[1], Fraction(e)))
        ex = exp(tot)
        if ex.op == "app":
            d[ex] = 1
        else:
            extra = ex
    # sqrt(u)^2 -> u
    for a, e in list(d.items()):
        if a.op == "app" and a.args[0] == "sqrt" and abs(e) >= 2:
            k = abs(e) // 2
            r = abs(e) - 2 * k
            s = 1 if e > 0 else -1
            del d[a]
            if r:
                d[a] = s * r
            base = a.args[1]
            p = ipow(base, s * k)
            extra = p if extra is None else mul(extra, p)
    m = tuple(sorted(d.items(), key=lambda ae: (ae[0].id, ae[1])))
    return m, extra


def mul(a, b):
    a, b = b2i(a), b2i(b)
    if _isnum_nan(a, b):
        return NAN
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    key = (a, b)
    r = _products.get(key)
    if r is None:
        if len(_products) > 500000:
            _products.clear()
        r = _products[key] = _mul(a, b)
    return r


_products = {}


def _mul(a, b):
    pa, pb = as_poly(a), as_poly(b)
    if len(pa) > 1 or len(pb) > 1:
        r = _try_cancel(a, pa, b, pb)
        if r is not None:
            return r
    out = {}
    extras = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            c = c1 * c2
            if not m1:
                m, extra = m2, None
            elif not m2:
                m, extra = m1, None
            else:
                d = _mono_mul(m1, m2)
                m, extra = _finish_mono(d)
            if extra is None:
                nc = out.get(m, 0) + c
                if nc:
                    out[m] = nc
                else:
                    out.pop(m, None)
            else:
                extras.append((m, c, extra))
    res = from_poly(out)
    for m, c, extra in extras:
        res = add(res, mul(from_poly({m: c}), extra))
    return res


def _lead_norm(t):
    """t = coeff * normalised polynomial (leading coefficient 1)."""
    if t.op == "poly":
        c = lead_coeff(t)
        if c != 1:
            return scale(t, 1 / c), c
        return t, Fraction(1)
    return t, Fraction(1)


def _try_cancel(a, pa, b, pb):
    """P * (m * P^-1) -> m for multi-term polynomials P."""
    for x, px, py in ((a, pa, pb), (b, pb, pa)):
        if len(px) > 1:
            base, c = _lead_norm(x)
            if all(any(at is base and e < 0 for at, e in m) for m in py):
                out = {}
                for m, cc in py.items():
                    d = dict(m)
                    d[base] += 1
                    if not d[base]:
                        del d[base]
                    mm = tuple(sorted(d.items(), key=lambda ae: (ae[0].id, ae[1])))
                    out[mm] = out.get(mm, 0) + cc * c
                CANCELLED.add(base)
                return from_poly(out)
    return None


def ipow(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(ipow(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def _common_factor(p):
    """positive powers of atoms (not exponentials) dividing every monomial"""
    com = None
    for m in p:
        d = {a: e for a, e in m if e > 0 and not (a.op == "app" and a.args[0] == "exp")}
        com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d}
        if not com:
            return None
    return tuple(sorted(com.items(), key=lambda ae: ae[0].id))


def _strip(m, common):
    d = dict(m)
    for a, e in common:
        d[a] -= e
        if not d[a]:
            del d[a]
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))


def inv(a):
    a = b2i(a)
    if a is NAN:
        return NAN
    if a.op == "num":
        if not a.args[0]:
            return mk("app", ("div0",), "R")
        return num(1 / a.args[0])
    p = as_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        d = {}
        extra = None
        for at, e in m:
            if at.op == "app" and at.args[0] == "exp":
                ex = exp(scale(at.args[1], Fraction(-e)))
                extra = ex if extra is None else mul(extra, ex)
            else:
                d[at] = -e
        mm, ex2 = _finish_mono(d)
        r = from_poly({mm: 1 / c})
        if extra is not None:
            r = mul(r, extra)
        if ex2 is not None:
            r = mul(r, ex2)
        return r
    common = _common_factor(p)
    if common:
        q = from_poly({_strip(m, common): c for m, c in p.items()})
        return mul(from_poly({tuple((at, -e) for at, e in common): Fraction(1)}), inv(q))
    # 1/(1+exp(u)) -> expit(-u)
    if len(p) == 2 and () in p:
        (m, c), = [(m, c) for m, c in p.items() if m]
        k = p[()]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and \
                m[0][0].args[0] == "exp":
            if c == k:
                return scale(expit(neg(m[0][0].args[1])), 1 / k)
    base, c = _lead_norm(a)
    return from_poly({((base, -1),): 1 / c})


def div(a, b):
    return mul(a, inv(b))


def power(a, b):
    a, b = b2i(a), b2i(b)
    k = as_int(b)
    if k is not None and abs(k) <= 8:
        return ipow(a, k)
    if b is HALF:
        return sqrt(a)
    if a is ONE:
        return ONE
    return app("pow", [a, b])


def floordiv(a, b):
    if a.op == "num" and b.op == "num" and b.args[0]:
        q = a.args[0] / b.args[0]
        return num(q.numerator // q.denominator)
    if b is ONE and a.sort == "I":
        return a
    if b.op == "num" and a.sort == b.sort == "I" and b.args[0] > 0:
        q, r = _multiples(a, b.args[0])
        if q is not None:
            return add(q, floordiv(r, b))
    elif a.sort == b.sort == "I":
        q, r = _atom_multiples(a, b)
        if q is not ZERO:
            return add(q, ZERO if r is ZERO else floordiv(r, b))
    return app("floordiv", [a, b], "I" if a.sort == b.sort == "I" else "R")


def _atom_multiples(a, b):
    """a = q*b + r with r free of multiples of the monomial b"""
    pb = as_poly(b)
    if len(pb) != 1:
        return ZERO, a
    (mb, cb), = pb.items()
    if cb != 1 or not mb:
        return ZERO, a
    q, r = {}, {}
    for m, c in as_poly(a).items():
        d = dict(m)
        if all(d.get(x, 0) >= e for x, e in mb):
            for x, e in mb:
                d[x] -= e
            q[tuple((x, d[x]) for x, _ in m if d[x])] = c
        else:
            r[m] = c
    return from_poly(q), from_poly(r)


def _multiples(a, k):
    """a = k*q + r with the coefficients of r in 0..k-1; q None if q would be 0"""
    q, r = {}, {}
    for m, c in as_poly(a).items():
        if c.denominator != 1:
            return None, a
        d, e = divmod(c, k)
        if d:
            q[m] = Fraction(d)
        if e:
            r[m] = Fraction(e)
    return (from_poly(q), from_poly(r)) if q else (None, a)


def mod(a, b):
    if a.op == "num" and b.op == "num" and b.args[0]:
        q = a.args[0] / b.args[0]
        return num(a.args[0] - b.args[0] * (q.numerator // q.denominator))
    if b.op == "num" and a.sort == b.sort == "I" and b.args[0] > 0:
        q, r = _multiples(a, b.args[0])
        if q is not None:
            return mod(r, b)
    elif a.sort == b.sort == "I":
        q, r = _atom_multiples(a, b)
        if q is not ZERO:
            return ZERO if r is ZERO else mod(r, b)
    return app("mod", [a, b], "I" if a.sort == b.sort == "I" else "R")


# ---------------------------------------------------------------- booleans
def b_not(a):
    if a.sort != "B":
        raise Unsupported("not of non boolean")
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":
        return lt0(neg(a.args[0]))
    if a.op == "lt0":
        return le0(neg(a.args[0]))
    if a.op == "ite":
        return ite(a.args[0], b_not(a.args[1]), b_not(a.args[2]))
    return mk("not", (a,), "B")


def b_and(*xs):
    s = []
    seen = set()
    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == "and":
            stack.extend(reversed(x.args))
            continue
        if x in seen:
            continue
        seen.add(x)
        s.append(x)
    for x in s:
        if b_not(x) in seen:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    # substitution of equalities var = number helps canonical forms little; skip
    s.sort(key=lambda t: t.id)
    return mk("and", tuple(s), "B")


def b_or(*xs):
    return b_not(b_and(*[b_not(x) for x in xs]))


def implies(a, b):
    return b_or(b_not(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return b_not(b)
    if b is FALSE:
        return b_not(a)
    if b_not(a) is b:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("iff", (a, b), "B")


def _norm_cmp(p, eqn=False):
    """Scale a polynomial to leading |coefficient| 1."""
    if p.op == "num":
        return p
    if p.op == "poly":
        c = p.args[0][1]
        # keep integrality: divide by gcd for integer polys
        if p.sort == "I":
            from math import gcd
            g = 0
            for m, cc in p.args:
                if m:
                    g = gcd(g, int(cc))
            if g == 0:
                g = 1
            k0 = dict(p.args).get((), 0)
            q = Fraction(1)
            if k0 % g == 0:
                q = Fraction(1, g)
            # the leading non-constant coefficient decides the sign for equations
            lead = lead_coeff(p)
            if eqn and lead < 0:
                q = -q
            return scale(p, q)
        lead = lead_coeff(p)
        q = 1 / (lead if eqn else abs(lead))
        return scale(p, q)
    return p


def le0(p):
    if p.op == "num":
        return TRUE if p.args[0] <= 0 else FALSE
    r = _inf_cmp(p, False)
    if r is not None:
        return r
    return mk("le0", (_norm_cmp(p),), "B")


def lt0(p):
    if p.op == "num":
        return TRUE if p.args[0] < 0 else FALSE
    if p.sort == "I":
        return le0(add(p, ONE))
    r = _inf_cmp(p, True)
    if r is not None:
        return r
    return mk("lt0", (_norm_cmp(p),), "B")


def _inf_cmp(p, strict):
    if INF in p.fv and p.op in ("poly", "var"):
        c = as_poly(p).get(((INF, 1),))
        if c is not None and not any(
                INF in a.fv for m in as_poly(p) for a, _ in m if a is not INF):
            if c > 0:
                return FALSE
            if c < 0:
                return TRUE
    return None


def eq0(p):
    if p.op == "num":
        return TRUE if p.args[0] == 0 else FALSE
    if INF in p.fv and ((INF, 1),) in as_poly(p):
        return FALSE
    if p.sort == "I":
        # parity / constant test
        from math import gcd
        g, k = 0, Fraction(0)
        for m, c in as_poly(p).items():
            if m:
                g = gcd(g, int(c))
            else:
                k = c
        if g and k % g:
            return FALSE
    return mk("eq0", (_norm_cmp(p, True),), "B")


def le(a, b):
    a, b = b2i(a), b2i(b)
    if _isnum_nan(a, b):
        return FALSE
    return le0(sub(a, b))


def lt(a, b):
    a, b = b2i(a), b2i(b)
    if _isnum_nan(a, b):
        return FALSE
    return lt0(sub(a, b))


def eq(a, b):
    if a.sort == "B" and b.sort == "B":
        return iff(a, b)
    a, b = b2i(a), b2i(b)
    if _isnum_nan(a, b):
        return FALSE
    if a is b:
        return TRUE
    if a.sort == "U" or b.sort == "U":
        if a.op == "str" and b.op == "str":
            return FALSE
        if a.id > b.id:
            a, b = b, a
        return mk("equ", (a, b), "B")
    # distribute over ite with numeric branches
    for x, y in ((a, b), (b, a)):
        if y.op == "num" and x.op == "ite" and (
                _ite_leaf_num(x)):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    return eq0(sub(a, b))


def _ite_leaf_num(x):
    return any(z.op == "num" or (z.op == "ite" and _ite_leaf_num(z))
               for z in x.args[1:])


def ne(a, b):
    return b_not(eq(a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B" or b.sort == "B":
        if a.sort == "B" and b.sort == "B":
            if a is TRUE:
                return b_or(c, b)
            if a is FALSE:
                return b_and(b_not(c), b)
            if b is TRUE:
                return b_or(b_not(c), a)
            if b is FALSE:
                return b_and(c, a)
        else:
            a, b = b2i(a), b2i(b)
    if c.op == "not":
        return ite(c.args[0], b, a)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    if c.op in ("le0", "lt0") and (a.op == "poly" or b.op == "poly"):
        r = _as_fabs(c, a, b)
        if r is not None:
            return r
    if c.op == "lt0":       # canonical orientation: use le0 of the negation
        return mk_ite(b_not(c), b, a)
    if c.op == "le0":
        n = b_not(c)
        if n.op == "le0" and _leading_sign(c.args[0]):
            return mk_ite(n, b, a)
    return mk_ite(c, a, b)


def _as_fabs(c, a, b):
    """ite(a <= 0, a, -a) and the like: the absolute value, in its one form"""
    if a.sort == "B" or neg(a) is not b:
        return None
    p = c.args[0]
    below = p is _norm_cmp(a)           # a <= 0 (or a < 0): the value is a = -|a|
    if not below and p is not _norm_cmp(b):
        return None
    m = b if _leading_sign(a) else a
    k, pos, neg_ = le0(neg(m)), m, neg(m)
    if k is TRUE or k is FALSE:
        return None
    n = b_not(k)
    if n.op == "le0" and _leading_sign(k.args[0]):
        k, pos, neg_ = n, neg_, pos
    r = mk_ite(k, pos, neg_)
    return neg(r) if below else r


def mk_ite(c, a, b):
    srt = a.sort if a.sort == b.sort else ("R" if {a.sort, b.sort} <= {"I", "R"} else "U")
    return mk("ite", (c, a, b), srt)


_assume_memo = {}


def assume(t, c, val):
    """Simplify t under c == val (only syntactic occurrences of c)."""
    if not (t.fv & c.fv) and c.fv:
        return t
    if t.op in ("num", "var", "true", "false", "str", "nan"):
        return t
    key = (t, c, val)
    r = _assume_memo.get(key)
    if r is not None:
        return r
    lits = {}
    _add_lits(c, val, lits)
    r = _assume_go(t, lits, {})
    _assume_memo[key] = r
    return r


def _add_lits(c, val, lits):
    if val and c.op == "and":
        for x in c.args:
            _add_lits(x, True, lits)
        return
    if not val and c.op == "not":
        _add_lits(c.args[0], True, lits)
        return
    if val and c.op == "not":
        _add_lits(c.args[0], False, lits)
        return
    lits[c] = TRUE if val else FALSE
    n = b_not(c)
    if n.op != "not":
        lits[n] = FALSE if val else TRUE


def _assume_go(t, lits, memo):
    if t in lits:
        return lits[t]
    if t.op in ("num", "var", "true", "false", "str", "nan", "bv"):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if not _mentions_bool(t, lits):
        memo[t] = t
        return t
    r = rebuild(t, lambda x: _assume_go(x, lits, memo))
    memo[t] = r
    return r


_subterm_bool = {}


def bools_in(t):
    """Set of boolean subterms (not under binders that bind them)."""
    r = _subterm_bool.get(t)
    if r is not None:
        return r
    s = set()
    if t.sort == "B":
        s.add(t)
    for ch in children(t):
        s |= bools_in(ch)
    r = frozenset(s)
    _subterm_bool[t] = r
    return r


def _mentions_bool(t, lits):
    bs = bools_in(t)
    return any(l in bs for l in lits)


def children(t):
    if t.op == "poly":
        return [a for m, _ in t.args for a, _e in m]
    if t.op in ("num", "var", "str", "bv"):
        return []
    return [a for a in t.args if isinstance(a, T)]


def rebuild(t, f):
    """Rebuild t with children mapped by f, through the smart constructors.

    Under binders, f is applied to the (closed) body: bound variables appear as
    'bv' terms, which f must leave alone.
    """
    op = t.op
    if op == "poly":
        new = {}
        changed = False
        for a in children(t):
            if a not in new:
                na = new[a] = f(a)
                if na is not a:
                    changed = True
        if not changed:
            return t
        d, rest = {}, ZERO
        for m, c in t.args:
            diff = [ae for ae in m if new[ae[0]] is not ae[0]]
            if not diff:
                d[m] = d.get(m, 0) + c
                continue
            keep = tuple(ae for ae in m if new[ae[0]] is ae[0])
            p = from_poly({keep: c})
            for a, e in diff:
                p = mul(p, ipow(new[a], e))
            if p is NAN:
                return NAN
            for m2, c2 in as_poly(p).items():
                d[m2] = d.get(m2, 0) + c2
        return from_poly(d)
    if op in ("num", "var", "true", "false", "str", "nan", "bv"):
        return t
    if op in BINDERS:
        h = t.args[0]
        if op == "lam":
            body = t.args[1]
            nb = f(body)
            if nb is body:
                return t
            if h == nb.bh + 1:
                return mk("lam", (h, nb, t.args[2]), "L")
            v = fresh("o", t.args[2])
            return mk_lam(v, _bvsubst(nb, h, v))
        n, body = t.args[1], t.args[2]
        nn, nb = f(n), f(body)
        if nn is n and nb is body:
            return t
        v, b = private(nb, h, "I", (nn,))
        try:
            return mk_binder(op, nn, v, b)
        finally:
            _active.discard(v)
    new = [f(a) if isinstance(a, T) else a for a in t.args]
    if all(x is y for x, y in zip(new, t.args)):
        return t
    return construct(op, new, t.sort)


def construct(op, a, sort):
    if op == "not":
        return b_not(a[0])
    if op == "and":
        return b_and(*a)
    if op == "iff":
        return iff(a[0], a[1])
    if op == "le0":
        return le0(a[0])
    if op == "lt0":
        return lt0(a[0])
    if op == "eq0":
        return eq0(a[0])
    if op == "equ":
        return eq(a[0], a[1])
    if op == "ite":
        return ite(a[0], a[1], a[2])
    if op == "app":
        return app(a[0], a[1:], sort)
    raise AssertionError(op)


# ---------------------------------------------------------------- substitution
def _bvsubst(t, h, val, memo=None):
    """Replace bv(h) by val in a binder body."""
    if memo is None:
        memo = {}
    return _bvs(t, h, val, memo)


def _bvs(t, h, val, memo):
    if t.op == "bv":
        return val if t.args[0] == h else t
    if t.op in ("num", "var", "true", "false", "str", "nan"):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if not has_bv(t, h):
        memo[t] = t
        return t
    r = rebuild(t, lambda x: _bvs(x, h, val, memo))
    memo[t] = r
    return r


_bvset = {}


def bvs_in(t):
    """Set of loose bound-variable heights."""
    r = _bvset.get(t)
    if r is not None:
        return r
    if t.op == "bv":
        r = frozenset((t.args[0],))
    else:
        r = EMPTY
        for c in children(t):
            r = r | bvs_in(c)
        if t.op in BINDERS and t.args[0] in r:
            r = r - {t.args[0]}
    _bvset[t] = r
    return r


def has_bv(t, h):
    return h in bvs_in(t)


def subst(t, mp):
    """Simultaneous substitution of free variables (T var -> T)."""
    if not mp:
        return t
    keys = frozenset(mp)
    if not (t.fv & keys):
        return t
    return _subst(t, mp, keys, _memo_of(mp))


_memos = {}


def _memo_of(mp):
    """results of earlier substitutions of the same terms"""
    key = frozenset(mp.items())
    r = _memos.get(key)
    if r is None:
        if len(_memos) > 4000:
            _memos.clear()
        r = _memos[key] = {}
    return r


_private = {}
_active = set()
_closed_of = {}


def private(body, h, sort, avoid=()):
    """an open binder body, with a variable that only stands for this body's (a
    fresh one while that variable is in use), so that results can be shared.
    The caller takes the variable out of _active when the binder is closed."""
    r = _private.get((body, h, sort))
    if r is None:
        if len(_private) > 200000:
            _private.clear()
        v = fresh("o", sort)
        r = _private[body, h, sort] = (v, _opening(body, h, v))
    v, b = r
    if v in _active or any(v in x.fv for x in avoid):
        v = fresh("o", sort)
        b = _opening(body, h, v)
    _active.add(v)
    return v, b


def _opening(body, h, v):
    b = _bvsubst(body, h, v)
    if h == b.bh + 1 and v not in body.fv:
        if len(_closed_of) > 400000:
            _closed_of.clear()
        _closed_of[v, b] = body
    return b


def _subst(t, mp, keys, memo):
    if t.op == "var":
        return mp.get(t, t)
    if not (t.fv & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in BINDERS:
        lam_ = t.op == "lam"
        v, body = private(t.args[1 if lam_ else 2], t.args[0], t.args[2] if lam_ else "I", mp.values())
        try:
            body = _subst(body, mp, keys, memo)
            if lam_:
                r = mk_lam(v, body)
            else:
                n = _subst(t.args[1], mp, keys, memo)
                r = mk_binder(t.op, n, v, body)
        finally:
            _active.discard(v)
    else:
        r = rebuild(t, lambda x: _subst(x, mp, keys, memo))
    memo[t] = r
    return r


def replace(t, mp, memo=None):
    """Replace whole subterms (no capture handling: keys must be closed)."""
    if memo is None:
        memo = {}
    if t in mp:
        return mp[t]
    if t.op in ("num", "var", "true", "false", "str", "nan", "bv"):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = rebuild(t, lambda x: replace(x, mp, memo))
    memo[t] = r
    return r


# ---------------------------------------------------------------- binders
def _close(v, body):
    h = body.bh + 1
    cb = _closed_of.get((v, body))
    if cb is not None:
        return h, cb
    b = mk("bv", (h,), v.sort)
    cb = _subst(body, {v: b}, frozenset((v,)), _memo_of({v: b})) if v in body.fv else body
    # closing may change normal forms (ids), but heights of inner binders are
    # unchanged because bv has height 0
    while cb.bh >= h:
        h = cb.bh + 1
        b = mk("bv", (h,), v.sort)
        cb = _subst(body, {v: b}, frozenset((v,)), _memo_of({v: b})) if v in body.fv else body
    return h, cb


def mk_lam(v, body):
    # eta: lam x. f(x) kept as is
    h, cb = _close(v, body)
    return mk("lam", (h, cb, v.sort), "L")


def lam(fn, sort="I"):
    v = fresh("l", sort)
    return mk_lam(v, fn(v))


def lam_apply(l, x):
    return _bvsubst(l.args[1], l.args[0], x)


def open_binder(t, v=None):
    """(n, var, body) of a ranged binder."""
    if v is None:
        v = fresh("o", "I")
    return t.args[1], v, _bvsubst(t.args[2], t.args[0], v)


def mk_binder(op, n, v, body):
    if op == "sum":
        return mk_sum(n, v, body)
    if op == "prod":
        return mk_prod(n, v, body)
    if op == "all":
        return mk_all(n, v, body)
    if op in ("minb", "maxb"):
        return mk_ext(op, n, v, body)
    raise AssertionError(op)


UNROLL = 0


NONNEG = set()         # integer parameters declared non-negative


def nonneg_dim(n):
    """Syntactically non-negative integer terms (dimensions, counts)."""
    if n.op == "num":
        return n.args[0] >= 0
    if n.op == "var":
        return n in NONNEG or n.args[0].startswith("dim:") or n.args[0].startswith("ix")
    if n.op == "sum":
        _, v, b = open_binder(n)
        return nonneg_dim(b)
    if n.op == "ite":
        return nonneg_dim(n.args[1]) and nonneg_dim(n.args[2])
    if n.op == "app" and (n.args[0] in ("len", "cntpos", "ucount")
                          or n.args[0][0] == "~" and "#d" in n.args[0]):
        return True
    if n.op == "poly":
        for m, c in n.args:
            if c < 0:
                return False
            for a, e in m:
                if not nonneg_dim(a):
                    return False
        return True
    return False


def _compress_of(n):
    """If n is the population count of a mask, return the mask (as lam), dim."""
    if n.op == "sum":
        N, v, b = open_binder(n)
        c = _as_mask(b)
        if c is not None and c is not TRUE:
            return N, v, c
    return None


def _as_mask(b):
    """0/1 valued term -> condition"""
    if b is ONE:
        return TRUE
    if b is ZERO:
        return FALSE
    if b.op != "ite":
        return None
    x = _as_mask(b.args[1])
    y = _as_mask(b.args[2]) if x is not None else None
    if y is None:
        return None
    c = b.args[0]
    if x is TRUE and y is FALSE:
        return c
    if x is FALSE and y is TRUE:
        return b_not(c)
    if y is FALSE:
        return b_and(c, x)
    if x is FALSE:
        return b_and(b_not(c), y)
    return None


def mask_lam(n, v, cond):
    return mk_lam(v, cond)


def count(n, v, cond):
    return mk_sum(n, v, ite(cond, ONE, ZERO))


def cmp_index(n, masklam, j):
    """position of the j-th true entry of a mask of length n."""
    return app("cmp", [n, masklam, j], "I")


def rank_index(n, masklam, i):
    """number of true entries before i."""
    return app("rank", [n, masklam, i], "I")


def _only_through_cmp(body, v, masklam, n):
    """body with every occurrence of v inside cmp(n, masklam, v): replace."""
    if v not in body.fv:
        return None
    target = app("cmp", [n, masklam, v], "I")
    nv = fresh("o", "I")
    r = replace_free(body, target, nv)
    if v in r.fv:
        r = replace_free(r, v, nv, _earlier(masklam, n, nv))
        if r is None or v in r.fv:
            return None
    return nv, r


def _earlier(masklam, n, nv):
    """j ranging below v, used through cmp(j) only: ranges over the selected places before
    that of v"""
    def on_binder(op, bound, body_of):
        u = fresh("o", "I")
        b = body_of(u)
        r = _only_through_cmp(b, u, masklam, n)
        if r is None:
            return None
        nu, nb = r
        g = lam_apply(masklam, nu)
        if op == "all":
            return mk_all(nv, nu, implies(g, nb))
        neutral = {"sum": ZERO, "prod": ONE, "minb": INF, "maxb": neg(INF)}[op]
        return mk_binder(op, nv, nu, ite(g, nb, neutral))
    return on_binder


def replace_free(t, target, val, on_binder=None):
    """Replace a (possibly open) subterm, looking under binders too.

    With on_binder, only as the length of binders, which it rewrites."""
    memo = {}

    def go(x):
        if x is target:
            return target if on_binder else val
        if on_binder and x.op in BINDERS and x.op != "lam":
            n, u, b = open_binder(x)
            if n is target:
                y = on_binder(x.op, n, lambda w: subst(b, {u: w}))
                return x if y is None else y
        if not (target.fv <= x.fv) and target.fv:
            return x
        if x.op in ("num", "var", "true", "false", "str", "nan", "bv"):
            return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def _via_compress(op, n, v, body, neutral):
    c = _compress_of(n)
    if c is None or v not in body.fv:
        return None
    N, mv, cond = c
    ml = mk_lam(mv, cond)
    r = _only_through_cmp(body, v, ml, N)
    if r is None:
        return None
    nv, nb = r
    g = subst(cond, {mv: nv})
    if op == "all":
        return mk_all(N, nv, implies(g, nb))
    return mk_binder(op, N, nv, ite(g, nb, neutral))


def _range_lits(body, x, n, out):
    """truth of the comparisons in body that 0 <= x < n decides"""
    for b in bools_in(body):
        if b.op not in ("le0", "eq0") or not (x.fv <= b.fv):
            continue
        p = b.args[0]
        if p.sort != "I":
            continue
        d = as_poly(p)
        c = d.get(((x, 1),))
        if c is None or abs(c) != 1:
            continue
        if b.op == "eq0":
            # a multiple of (x - k): k outside the range
            rest = scale(sub(p, scale(x, c)), -1 / c)
            if rest.op == "num" and rest.args[0] < 0:
                out[b] = FALSE
            else:
                k = as_int(sub(rest, n))
                if k is not None and k >= 0:
                    out[b] = FALSE
            continue
        if c == -1:
            k = as_int(add(p, x))
            if k is not None and k <= 0:
                out[b] = TRUE
                continue
            k = as_int(sub(add(p, x), n))
            if k is not None and k >= 0:
                out[b] = FALSE
        else:
            k = as_int(sub(p, x))
            if k is not None and k >= 1:
                out[b] = FALSE
                continue
            k = as_int(add(sub(p, x), n))
            if k is not None and k <= 1:
                out[b] = TRUE


def in_range(body, v, n):
    """simplify body for 0 <= v < n"""
    if v not in body.fv or body.op in ("var", "num"):
        return body
    lits = {}
    _range_lits(body, v, n, lits)
    c = _compress_of(n)
    if c is not None:
        N, mv, cond = c
        t = app("cmp", [N, mk_lam(mv, cond), v], "I")
        if t.op == "app":
            _range_lits(body, t, N, lits)
            _add_lits(subst(cond, {mv: t}), True, lits)
    if not lits:
        return body
    return _assume_go(body, lits, {})


def mk_sum(n, v, body):
    body = in_range(b2i(body), v, n)
    if body.op == "ite" and "ite" in (body.args[1].op, body.args[2].op):
        c = _as_mask(body)
        if c is not None:
            body = ite(c, ONE, ZERO)
    if n is ZERO:
        return ZERO
    k = as_int(n)
    if k is not None and k <= 0:
        return ZERO
    if k is not None and (k == 1 or k <= UNROLL):
        out = ZERO
        for i in range(k):
            out = add(out, subst(body, {v: num(i)}))
        return out
    if v not in body.fv:
        if nonneg_dim(n):
            return mul(n, body)
    r = _via_compress("sum", n, v, body, ZERO)
    if r is not None:
        return r
    if n.op == "app" and n.args[0] == "ucount":
        r = _per_column(n, v, body)
        if r is not None:
            return r
    out = ZERO
    for m, c in as_poly(body).items():
        outer = {}
        inner = []
        for a, e in m:
            if v in a.fv:
                inner.append((a, e))
            else:
                outer[a] = e
        om = from_poly({tuple(sorted(outer.items(), key=lambda ae: (ae[0].id, ae[1]))): c})
        if not inner:
            s = n if nonneg_dim(n) else _raw_binder("sum", n, v, ONE)
        else:
            im = from_poly({tuple(inner): Fraction(1)})
            s = _sum_mono(n, v, im)
        out = add(out, mul(om, s))
    return out


def _without(t, f):
    """t / f for a factor f of t (also below conditions), or None"""
    if t is ZERO:
        return ZERO
    if t.op == "ite":
        a, b = _without(t.args[1], f), _without(t.args[2], f)
        return None if a is None or b is None else ite(t.args[0], a, b)
    out = {}
    for m, c in as_poly(t).items():
        e = dict(m).get(f)
        if e == 1:
            out[tuple(x for x in m if x[0] is not f)] = c
            continue
        for i, (a, e) in enumerate(m):
            if a.op == "ite" and e == 1:
                r = _without(a, f)
                if r is not None and len(as_poly(t)) == 1:
                    return mul(r, from_poly({m[:i] + m[i + 1:]: c}))
        return None
    return from_poly(out)


def _only_columns(t, p, name, pos):
    """p occurs in t only as the column index of the named array"""
    memo = {}

    def ok(x):
        if p not in x.fv:
            return True
        if x is p:
            return False
        r = memo.get(x)
        if r is None:
            if x.op == "app" and x.args[0] == name:
                r = all(a is p if i == pos else p not in a.fv
                        for i, a in enumerate(x.args[1:]))
            else:
                r = all(ok(c) for c in children(x))
            memo[x] = r
        return r
    return ok(t)


def _per_column(n, v, body):
    """sum over the distinct columns, each counted as often as it occurs: a sum
    over all columns, if the terms depend on the columns' entries only"""
    other, N, l = n.args[1:]
    rest = _without(body, app("ucnt", [other, N, l, v], "I"))
    if rest is None:
        return None
    p, i = fresh("p", "I"), fresh("i", "I")
    col = lam_apply(lam_apply(l, p), i)
    if col.op != "app" or len(col.args) != 3 or {col.args[1], col.args[2]} != {p, i}:
        return None
    rest = replace(rest, {app("urep", [other, N, l, v], "I"): p})
    if v in rest.fv or not _only_columns(rest, p, col.args[0], 0 if col.args[1] is p else 1):
        return None
    return mk_sum(N, p, rest)


def _clip(n, v, c, a):
    """sum over v < n of a where lo <= v < n - k (constants): a sum over n - k - lo terms"""
    lo, hi, rest = 0, n, []
    for q in (c.args if c.op == "and" else (c,)):
        d = as_poly(q.args[0]).get(((v, 1),)) if q.op == "le0" and q.args[0].sort == "I" else None
        r = sub(q.args[0], scale(v, d)) if d is not None and abs(d) == 1 else None
        if r is not None and d == -1 and as_int(r) is not None and as_int(r) > lo:
            lo = as_int(r)
        elif r is not None and d == 1 and hi is n and (as_int(sub(n, sub(ONE, r))) or -1) > 0:
            hi = sub(ONE, r)
        else:
            rest.append(q)
    if (lo == 0 and hi is n) or not nonneg_dim(sub(hi, num(lo))):
        return None
    w = fresh("c", "I")
    return mk_sum(sub(hi, num(lo)), w, subst(ite(b_and(*rest), a, ZERO), {v: add(w, num(lo))}))


def _sum_mono(n, v, body):
    # delta collapse: sum_k ite(k == c, f, g)
    if body.op == "ite":
        c, a, b = body.args
        sol = _solve_eq(c, v)
        if sol is not None:
            rest, s = sol
            inr = b_and(le(ZERO, s), lt(s, n))
            av = subst(ite(rest, a, b), {v: s})
            bv = subst(b, {v: s})
            return add(mk_sum(n, v, b), ite(inr, sub(av, bv), ZERO))
        # conditions independent of v come out
        if v not in c.fv:
            return ite(c, mk_sum(n, v, a), mk_sum(n, v, b))
        if a is not ZERO and b is not ZERO:
            return add(mk_sum(n, v, ite(c, a, ZERO)), mk_sum(n, v, ite(c, ZERO, b)))
        if b is ZERO:
            r = _clip(n, v, c, a)
            if r is not None:
                return r
        elif b.op == "ite" and b.args[2] is ZERO and _solve_eq(b.args[0], v) is not None:
            return mk_sum(n, v, mk_ite(b_and(b_not(c), b.args[0]), b.args[1], ZERO))
        if c.op == "and":
            ind = [x for x in c.args if v not in x.fv]
            if ind and b is ZERO:
                dep = [x for x in c.args if v in x.fv]
                return ite(b_and(*ind), mk_sum(n, v, ite(b_and(*dep), a, ZERO)), ZERO)
        # pull constant factors out of the branches
        for x, y, left in ((a, b, True), (b, a, False)):
            if y is ZERO and x.op == "poly":
                out = ZERO
                if len(x.args) > 1:
                    for m, cc in x.args:
                        t = from_poly({m: cc})
                        out = add(out, mk_sum(n, v, ite(c, t, ZERO) if left else ite(c, ZERO, t)))
                    return out
                (m, cc), = x.args
                outer = tuple((a_, e) for a_, e in m if v not in a_.fv)
                inner = tuple((a_, e) for a_, e in m if v in a_.fv)
                if outer or cc != 1:
                    om = from_poly({outer: cc})
                    im = from_poly({inner: Fraction(1)})
                    return mul(om, mk_sum(n, v, ite(c, im, ZERO) if left else ite(c, ZERO, im)))
    elif body.op == "poly":
        # a monomial with an ite factor: push the other factors inside
        (m, c0), = body.args
        for a, e in m:
            if a.op == "ite" and (a.args[1] is ZERO or a.args[2] is ZERO) and e > 0:
                rest = from_poly({tuple(x for x in m if x[0] is not a): Fraction(1)})
                p = ipow(a.args[1], e), ipow(a.args[2], e)
                return mk_sum(n, v, ite(a.args[0], mul(p[0], rest), mul(p[1], rest)))
            if a.op == "ite" and e > 0 and (_solve_eq(a.args[0], v) is not None or (
                    a.args[2].op == "ite" and a.args[2].args[2] is ZERO
                    and _solve_eq(a.args[2].args[0], v) is not None)):
                rest = from_poly({tuple(x for x in m if x[0] is not a): Fraction(1)})
                p = ipow(a.args[1], e), ipow(a.args[2], e)
                return mk_sum(n, v, ite(a.args[0], mul(p[0], rest), mul(p[1], rest)))
    return _raw_binder("sum", n, v, body)


def _solve_eq(c, v):
    """c contains v == s: return (rest condition, s)."""
    if c.op == "eq0":
        s = _solve_lin(c.args[0], v)
        return None if s is None else (TRUE, s)
    if c.op == "and":
        for x in c.args:
            if x.op == "eq0":
                s = _solve_lin(x.args[0], v)
                if s is not None:
                    rest = b_and(*[y for y in c.args if y is not x])
                    return rest, s
    return None


def _solve_lin(p, v):
    if v not in p.fv:
        return None
    d = as_poly(p)
    c = d.get(((v, 1),))
    if c is None or abs(c) != 1:
        return None
    for m in d:
        if m != ((v, 1),) and any(v in a.fv for a, _ in m):
            return None
    rest = dict(d)
    del rest[((v, 1),)]
    s = scale(from_poly(rest), -1 / c)
    if s.sort != "I":
        return None
    return s


def _index_signs(body, v):
    """signs with which v occurs in the linear indices of array terms"""
    out, seen, todo = set(), set(), [body]
    while todo:
        t = todo.pop()
        if t.id in seen or v not in t.fv:
            continue
        seen.add(t.id)
        if t.op == "app" or t.op in ("sum", "prod"):
            for a in (t.args[1:] if t.op == "app" else t.args[1:2]):
                if a is v:
                    out.add(1)
                elif a.op == "poly" and a.sort == "I":
                    c = as_poly(a).get(((v, 1),))
                    if c is not None:
                        out.add(1 if c > 0 else -1)
        todo.extend(children(t))
    return out


def _raw_binder(op, n, v, body):
    if _index_signs(body, v) == {-1}:
        # the same range walked downwards
        body = subst(body, {v: sub(sub(n, ONE), v)})
    h, cb = _close(v, body)
    srt = "B" if op == "all" else body.sort
    if op in ("minb", "maxb") and srt == "R" and _int_like(body):
        srt = "I"
    return mk(op, (h, n, cb), srt)


def _int_like(t):
    """integer-valued except for the +-inf standing for 'not selected'."""
    if t.sort == "I" or t is INF or t is neg(INF):
        return True
    return t.op == "ite" and _int_like(t.args[1]) and _int_like(t.args[2])


def mk_prod(n, v, body):
    body = in_range(b2i(body), v, n)
    k = as_int(n)
    if k is not None and k <= 0:
        return ONE
    if k is not None and (k == 1 or k <= UNROLL):
        out = ONE
        for i in range(k):
            out = mul(out, subst(body, {v: num(i)}))
        return out
    if body is ONE:
        return ONE
    r = _via_compress("prod", n, v, body, ONE)
    if r is not None:
        return r
    p = as_poly(body)
    if len(p) == 1:
        (m, c), = p.items()
        out = ONE
        if c != 1:
            out = mul(out, app("pow", [num(c), n]))
        for a, e in m:
            if v not in a.fv:
                out = mul(out, app("pow", [ipow(a, e), n]))
            elif a.op == "app" and a.args[0] == "exp":
                out = mul(out, exp(mk_sum(n, v, scale(a.args[1], Fraction(e)))))
            elif a.op == "ite" and v not in a.args[0].fv:
                x = ite(a.args[0], mk_prod(n, v, a.args[1]), mk_prod(n, v, a.args[2]))
                out = mul(out, ipow(x, e))
            elif a.op == "poly":
                out = mul(out, ipow(_raw_binder("prod", n, v, a), e))
            else:
                out = mul(out, ipow(_raw_binder("prod", n, v, a), e))
        return out
    return _raw_binder("prod", n, v, body)


def mk_all(n, v, body):
    body = in_range(body, v, n)
    if body is TRUE:
        return TRUE
    k = as_int(n)
    if k is not None and k <= 0:
        return TRUE
    if k is not None and (k == 1 or k <= UNROLL):
        return b_and(*[subst(body, {v: num(i)}) for i in range(k)])
    r = _via_compress("all", n, v, body, TRUE)
    if r is not None:
        return r
    if body.op == "and":
        return b_and(*[mk_all(n, v, x) for x in body.args])
    if body.op == "not" and v in body.fv:
        # one point: only v == s matters
        sol = _solve_eq(body.args[0], v)
        if sol is not None:
            rest, s = sol
            return b_not(b_and(le(ZERO, s), lt(s, n), subst(rest, {v: s})))
    return _raw_binder("all", n, v, body)


def mk_exists(n, v, body):
    return b_not(mk_all(n, v, b_not(body)))


def mk_ext(op, n, v, body):
    body = in_range(b2i(body), v, n)
    neutral = INF if op == "minb" else neg(INF)
    k = as_int(n)
    if k == 1:
        return subst(body, {v: ZERO})
    r = _via_compress(op, n, v, body, neutral)
    if r is not None:
        return r
    if v not in body.fv and as_int(n) is not None and as_int(n) > 0:
        return body
    return _raw_binder(op, n, v, body)


def Sum(n, fn):
    v = fresh("s", "I")
    return mk_sum(lift(n), v, lift(fn(v)))


def Prod(n, fn):
    v = fresh("s", "I")
    return mk_prod(lift(n), v, lift(fn(v)))


def All(n, fn):
    v = fresh("s", "I")
    return mk_all(lift(n), v, fn(v))


def Exists(n, fn):
    v = fresh("s", "I")
    return mk_exists(lift(n), v, fn(v))


def MinB(n, fn):
    v = fresh("s", "I")
    return mk_ext("minb", lift(n), v, lift(fn(v)))


def MaxB(n, fn):
    v = fresh("s", "I")
    return mk_ext("maxb", lift(n), v, lift(fn(v)))


def tri_count(nm, n, k):
    """number of pairs of tril_indices / triu_indices"""
    lower = nm == "tril"
    kk = as_int(k)
    if kk == (-1 if lower else 1):
        return floordiv(mul(n, sub(n, ONE)), num(2))
    if kk == 0:
        return floordiv(mul(n, add(n, ONE)), num(2))
    if lower:
        return Sum(n, lambda i: tmax(ZERO, tmin(add(add(i, k), ONE), n)))
    return Sum(n, lambda i: tmax(ZERO, tmin(sub(n, add(i, k)), n)))


def Count(n, fn):
    v = fresh("s", "I")
    return count(lift(n), v, fn(v))


# ---------------------------------------------------------------- applications
SIMPLIFIERS = {}


def app(name, args, sort="R"):
    args = [lift(a) if not isinstance(a, T) else a for a in args]
    f = SIMPLIFIERS.get(name)
    if f is not None:
        r = f(args, sort)
        if r is not None:
            return r
    return mk("app", (name,) + tuple(args), sort)


def sel(name, idx, sort):
    return app("@" + name, list(idx), sort)


def exp(a):
    if a is ZERO:
        return ONE
    if a is NAN:
        return NAN
    return app("exp", [a])


def log(a):
    if a is ONE:
        return ZERO
    if a is NAN:
        return NAN
    if a.op == "app" and a.args[0] == "exp":
        return a.args[1]
    return app("log", [a])


def sqrt(a):
    if a is ZERO:
        return ZERO
    if a is ONE:
        return ONE
    if a.op == "num" and a.args[0] > 0:
        from math import isqrt
        q = a.args[0]
        x, y = isqrt(q.numerator), isqrt(q.denominator)
        if x * x == q.numerator and y * y == q.denominator:
            return num(Fraction(x, y))
    return app("sqrt", [a])


def _leading_sign(a):
    if a.op == "poly":
        return lead_coeff(a) < 0
    if a.op == "num":
        return a.args[0] < 0
    return False


def expit(a):
    if a is ZERO:
        return HALF
    if a is NAN:
        return NAN
    if _leading_sign(a):
        return sub(ONE, app("expit", [neg(a)]))
    return app("expit", [a])


def fabs(a):
    if a.op == "num":
        return num(abs(a.args[0]))
    if a is NAN:
        return NAN
    if _leading_sign(a):
        a = neg(a)
    return ite(le(ZERO, a), a, neg(a))


def tmax(a, b):
    if _isnum_nan(a, b):
        return NAN
    return ite(le(b, a), a, b)


def tmin(a, b):
    if _isnum_nan(a, b):
        return NAN
    return ite(le(a, b), a, b)


def sign(a):
    if a is NAN:
        return NAN
    return ite(lt(ZERO, a), ONE, ite(eq(a, ZERO), ZERO, MINUS1))


def _simp_exp(args, sort):
    a = args[0]
    if a is ZERO:
        return ONE
    if a.op == "app" and a.args[0] == "log":
        return a.args[1]
    return None


def _simp_odd(name):
    def f(args, sort):
        a = args[0]
        if a is ZERO:
            return ZERO
        if _leading_sign(a):
            return neg(app(name, [neg(a)], sort))
        return None
    return f


def _simp_even(name, at0):
    def f(args, sort):
        a = args[0]
        if a is ZERO:
            return at0
        if _leading_sign(a):
            return app(name, [neg(a)], sort)
        return None
    return f


def _simp_expit(args, sort):
    a = args[0]
    if a is ZERO:
        return HALF
    if _leading_sign(a):
        return sub(ONE, app("expit", [neg(a)]))
    return None


def _simp_trunc(args, sort):
    a = args[0]
    if a.sort == "I":
        return a
    if a.op == "num":
        q = a.args[0]
        return num(int(q))
    if a.op == "ite":
        return ite(a.args[0], app("trunc", [a.args[1]], "I"), app("trunc", [a.args[2]], "I"))
    return None


def _simp_floor(args, sort):
    a = args[0]
    if a.sort == "I":
        return a
    if a.op == "num":
        q = a.args[0]
        return num(q.numerator // q.denominator)
    return None


def _simp_cmp(args, sort):
    n, l, j = args
    # cmp(rank(i)) -> i   (rank terms only occur guarded by mask(i))
    if j.op == "app" and j.args[0] == "rank" and j.args[1] is n and j.args[2] is l:
        return j.args[3]
    if l.op == "lam" and l.args[1] is TRUE:
        return j
    r = _selected_again(n, l)
    if r is not None:
        return app("rank", [r[0], r[2], app("cmp", [r[0], r[1], j], "I")], "I")
    return None


def _selected_again(n, l):
    """a selection from a selection: -> original length, mask of both, mask of the first"""
    c = _compress_of(n)
    if c is None or l.op != "lam":
        return None
    N, mv, cond = c
    u = fresh("u", "I")
    inner = mk_lam(mv, cond)
    r = _only_through_cmp(lam_apply(l, u), u, inner, N)
    if r is None:
        return None
    nv, body = r
    return N, mk_lam(nv, b_and(subst(cond, {mv: nv}), body)), inner


def _simp_rank(args, sort):
    n, l, i = args
    r = _selected_again(n, l)
    if r is not None:
        return app("rank", [r[0], r[1], app("cmp", [r[0], r[2], i], "I")], "I")
    if l.op == "lam" and l.args[1] is TRUE:
        return i
    if i.op == "app" and i.args[0] == "cmp" and i.args[1] is n and i.args[2] is l:
        return i.args[3]
    return None


def _simp_nanguard(args, sort):
    a = args[0]
    if a is NAN:
        return ZERO
    return None


def _simp_pow(args, sort):
    a, b = args
    if a is ONE:
        return ONE
    k = as_int(b)
    if k is not None and abs(k) <= 8:
        return ipow(a, k)
    return None


SIMPLIFIERS.update({
    "exp": _simp_exp, "expit": _simp_expit,
    "sin": _simp_odd("sin"), "erfinv": _simp_odd("erfinv"),
    "cos": _simp_even("cos", ONE), "cosh": _simp_even("cosh", ONE),
    "trunc": _simp_trunc, "floor": _simp_floor,
    "cmp": _simp_cmp, "rank": _simp_rank,
    "pow": _simp_pow,
})


# ---------------------------------------------------------------- NaN tracking
def isnan(t):
    """Boolean term: t evaluates to NaN (structural propagation).

    Free inputs are not NaN; only the literal NAN and division by a literal 0
    introduce it.  Binders: NaN if some element is.
    """
    if not QUIET[0] and t.sort != "B" and t.op != "num":
        s = _loop_states(t)
        if s:
            NAN_ASKED.update(s)
    if t._nan is not None:
        return t._nan
    r = _isnan(t)
    t._nan = r
    return r


NAN_ASKED = set()     # loop states that were taken to be numbers when NaN was asked about
_loop_memo = {}
QUIET = [False]


def _loop_states(t):
    """loop states whose values the value of t may be computed from (see _isnan)"""
    r = _loop_memo.get(t)
    if r is None:
        if t.op == "var":
            r = frozenset([t.args[0]]) if t.args[0].startswith("h:") else frozenset()
        else:
            r = frozenset([t.args[0][1:]]) if t.op == "app" and t.args[0].startswith("@h:") \
                else frozenset()
            cs = t.args[1:] if t.op == "ite" else children(t)
            for c in cs:
                if c.sort in ("I", "R"):
                    r |= _loop_states(c)
        _loop_memo[t] = r
    return r


_hasnan = {}


def mentions_nan(t):
    r = _hasnan.get(t)
    if r is None:
        r = t is NAN or t.op == "app" and t.args[0] in NAN_SYMS or \
            any(mentions_nan(c) for c in children(t))
        _hasnan[t] = r
    return r


NAN_SYMS = {}      # app name -> fn(args) -> bool term


def _isnan(t):
    if t is NAN:
        return TRUE
    if not mentions_nan(t):
        return FALSE
    if t.sort == "B":
        return FALSE
    if t.op == "ite":
        return ite(t.args[0], isnan(t.args[1]), isnan(t.args[2]))
    if t.op == "app" and t.args[0] in NAN_SYMS:
        return NAN_SYMS[t.args[0]](t.args[1:])
    if t.op in ("sum", "prod", "minb", "maxb"):
        n, v, b = open_binder(t)
        return mk_exists(n, v, isnan(b))
    return b_or(*[isnan(c) for c in children(t) if c.sort in ("I", "R")])


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if depth == 0:
        return "…"
    d = depth - 1
    op = t.op
    if op == "num":
        q = t.args[0]
        return str(q.numerator) if q.denominator == 1 else "%s/%s" % (q.numerator, q.denominator)
    if op == "var":
        return t.args[0]
    if op == "bv":
        return "%%%d" % t.args[0]
    if op == "str":
        return repr(t.args[0])
    if op in ("true", "false", "nan"):
        return op
    if op == "poly":
        parts = []
        for m, c in t.args:
            fs = []
            for a, e in m:
                s = show(a, d)
                if a.op == "poly":
                    s = "(%s)" % s
                fs.append(s if e == 1 else "%s^%d" % (s, e))
            if not fs:
                parts.append(str(c))
            elif c == 1:
                parts.append("*".join(fs))
            elif c == -1:
                parts.append("-" + "*".join(fs))
            else:
                parts.append("%s*%s" % (c, "*".join(fs)))
        return " + ".join(parts).replace("+ -", "- ")
    if op == "le0":
        return "(%s <= 0)" % show(t.args[0], d)
    if op == "lt0":
        return "(%s < 0)" % show(t.args[0], d)
    if op == "eq0":
        return "(%s == 0)" % show(t.args[0], d)
    if op == "app":
        return "%s(%s)" % (t.args[0], ", ".join(show(a, d) for a in t.args[1:]))
    if op == "lam":
        return "(λ%%%d. %s)" % (t.args[0], show(t.args[1], d))
    if op in BINDERS:
        return "%s[%%%d<%s](%s)" % (op, t.args[0], show(t.args[1], d), show(t.args[2], d))
    if op == "ite":
        return "ite(%s, %s, %s)" % tuple(show(a, d) for a in t.args)
    if op == "not":
        return "!%s" % show(t.args[0], d)
    if op == "and":
        return "(%s)" % " & ".join(show(a, d) for a in t.args)
    return "%s(%s)" % (op, ", ".join(show(a, d) if isinstance(a, T) else str(a) for a in t.args))
