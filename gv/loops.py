"""Loops over symbolic ranges: closed forms of the recurrences they define.

The body is executed once for an arbitrary iteration k from an arbitrary state
(every location the body may change holds a fresh symbol).  Each changed
location then satisfies  X_{k+1} = B(k, X_k, ...) .  A closed form C(k) with
C(0) = initial value and C(k+1) = B(k, C(k)) is constructed by rule (constant,
overwritten, pointwise write, sum, product, max/min, append); this is the loop
invariant, and each rule is an induction scheme that is sound by construction.
Locations without a closed form are left arbitrary outside the entries the body
never writes.
"""
import ast

import ast
from .values import *  # noqa: F401,F403
from .terms import *  # noqa: F401,F403
from .terms import T, Unsupported, replace_free, children, tri_count
from . import fold as FD


def read_outside(I, fid, nm):
    """may the name be read outside the loop that is being run?"""
    fr = I.frames.get(fid)
    if fr is None or fr.node is None or fr.loop is None:
        return True
    inside = {id(x) for x in ast.walk(fr.loop)}
    return any(isinstance(x, ast.Name) and x.id == nm and not isinstance(x.ctx, ast.Store)
               and id(x) not in inside for x in ast.walk(fr.node))


def exec_for(I, s, it, fr):
    saved, fr.loop = fr.loop, s
    try:
        return _exec_for(I, s, it, fr)
    finally:
        fr.loop = saved


def _exec_for(I, s, it, fr):
    from .interp import Outcome
    items = I.concrete_iter(it)
    if items is not None:
        outs = []
        pending = []            # states that left the loop by break
        for x in items:
            if I.st is None:
                break
            base = len(I.st.pc)
            I.assign(s.target, x, fr)
            r = I.exec_block(s.body, fr)
            I.st = absorb(I, r, "continue", base)
            for o in r:
                if o.kind == "break":
                    pending.append((base, o.st))
                elif o.kind != "continue":
                    outs.append(o)
        if s.orelse and I.st is not None:
            outs += I.exec_block(s.orelse, fr)
        for base, st in reversed(pending):
            c = b_and(*st.pc[base:])
            I.st = I.merge_states(c, st, I.st, base)
        return outs
    seq = I.sym_iter(it)
    if seq.n is None:
        raise Unsupported("iteration over an unbounded sequence")
    if s.orelse:
        raise Unsupported("for-else")

    if seq.parts and not _breaks(s.body):
        # a loop over a cartesian product is a nest of loops
        def nest(j, vals):
            if j == len(seq.parts):
                I.assign(s.target, tuple(vals), fr)
                return I.exec_block(s.body, fr)
            p = seq.parts[j]
            cell = {}

            def bindj(k):
                cell["v"] = p.fn(k)
            return sym_loop(I, p.n, bindj, lambda: nest(j + 1, vals + [cell["v"]]), fr)
        return nest(0, [])

    tri = None if _breaks(s.body) else triangle(I, seq)
    if tri is not None:
        nm, m, off, item, r, c = tri

        def inner(rv):
            # columns of row rv
            if nm == "tril":
                lo, hi = ZERO, add(add(rv, off), ONE)
                if not I.valid(le(hi, m)):
                    hi = tmin(m, hi)
            else:
                lo, hi = add(rv, off), m
                if not I.valid(le(ZERO, lo)):
                    lo = tmax(ZERO, lo)
            if I.valid(le(lo, hi)):
                cnt = sub(hi, lo)
            else:
                cnt = tmax(ZERO, sub(hi, lo))

            def bindc(k):
                I.assign(s.target, map_value(I, item, {r: rv, c: add(lo, k)}), fr)
            return sym_loop(I, cnt, bindc, lambda: I.exec_block(s.body, fr), fr)
        cell = {}

        def bindr(k):
            cell["r"] = k
        return sym_loop(I, m, bindr, lambda: inner(cell["r"]), fr)

    def bind(k):
        I.assign(s.target, seq.fn(k), fr)
    return sym_loop(I, seq.n, bind, lambda: I.exec_block(s.body, fr), fr)


def map_value(I, v, mp):
    if isinstance(v, T):
        return subst(v, mp)
    if isinstance(v, tuple):
        return tuple(map_value(I, x, mp) for x in v)
    return I.thaw(fv_map(v, lambda t: subst(t, mp)))


def triangle(I, seq):
    """a walk over the pairs of tril_indices / triu_indices, as nested loops."""
    k = fresh("k", "I")
    saved = I.st
    try:
        I.st = saved.fork(le(ZERO, k), lt(k, seq.n))
        v = seq.fn(k)
        v = v if isinstance(v, (T, tuple)) else I.freeze(v)
        if isinstance(v, tuple) and not all(isinstance(x, T) for x in v):
            v = tuple(x if isinstance(x, T) else I.freeze(x) for x in v)
    except Unsupported:
        return None
    finally:
        I.st = saved
    ts = fv_terms(v)
    hit = None
    todo, seen = list(ts), set()
    while todo and hit is None:
        t = todo.pop()
        if t.id in seen or k not in t.fv:
            continue
        seen.add(t.id)
        if t.op == "app" and t.args[0] in ("tril_r", "tril_c", "triu_r", "triu_c") \
                and t.args[3] is k and not (k in t.args[1].fv or k in t.args[2].fv):
            hit = t
        todo.extend(children(t))
    if hit is None:
        return None
    nm, n, off = hit.args[0][:4], hit.args[1], hit.args[2]
    if tri_count(nm, n, off) is not seq.n:
        return None
    r, c = fresh("r", "I"), fresh("c", "I")
    rt, ct = app(nm + "_r", [n, off, k], "I"), app(nm + "_c", [n, off, k], "I")

    def rep(t):
        return replace_free(replace_free(t, rt, r), ct, c)
    if isinstance(v, T):
        v = rep(v)
    elif isinstance(v, tuple):
        v = tuple(rep(x) if isinstance(x, T) else fv_map(x, rep) for x in v)
    else:
        v = fv_map(v, rep)
    if any(k in t.fv for t in fv_terms(v)):
        return None
    return nm, n, off, v, r, c


def _breaks(body):
    """a break that leaves this loop"""
    for st in body:
        if isinstance(st, ast.Break):
            return True
        if isinstance(st, (ast.For, ast.While, ast.FunctionDef)):
            if isinstance(st, (ast.For, ast.While)) and _breaks(st.orelse):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if _breaks(getattr(st, f, ())):
                return True
        for h in getattr(st, "handlers", ()):
            if _breaks(h.body):
                return True
    return False


def absorb(I, outs, kind, base):
    """merge the states of `kind` outcomes into the current normal state."""
    st = I.st
    for o in outs:
        if o.kind == kind:
            c = b_and(*o.st.pc[base:])
            st = I.merge_states(c, o.st, st, base)
    return st


def exec_while(I, s, fr):
    """while loops that count an integer up to a bound."""
    st0 = I.st
    # concrete unrolling when the condition is decided
    n = 0
    outs = []
    while I.st is not None and n < 64:
        c = I.truth(I.eval(s.test, fr))
        if c is not TRUE and c is not FALSE:
            if I.valid(c):
                c = TRUE
            elif I.valid(b_not(c)):
                c = FALSE
            else:
                break
        if c is FALSE:
            if s.orelse:
                raise Unsupported("while-else")
            return outs
        base = len(I.st.pc)
        r = I.exec_block(s.body, fr)
        I.st = absorb(I, r, "continue", base)
        for o in r:
            if o.kind == "break":
                raise Unsupported("break in an unrolled while loop")
            if o.kind != "continue":
                outs.append(o)
        n += 1
    # symbolic: find a counter i with i' = i + 1 and condition i < n
    I.st = st0
    t = s.test
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) \
            and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq)):
        name = t.left.id
        i0 = I.getvar(fr, name)
        bound = I.eval(t.comparators[0], fr)
        if isinstance(i0, T) and isinstance(bound, T) and i0.sort == "I" and bound.sort == "I":
            cnt = sub(bound, i0)
            if isinstance(t.ops[0], ast.LtE):
                cnt = add(cnt, ONE)
            if isinstance(t.ops[0], ast.NotEq) and not I.valid(le(ZERO, cnt)):
                raise Unsupported("while !=")
            if not nonneg_dim(cnt) and not I.valid(le(ZERO, cnt)):
                cnt = ite(le(ZERO, cnt), cnt, ZERO)
            info = {}

            def bind(k):
                info["k"] = k

            def body():
                before = I.getvar(fr, name)
                r = I.exec_block(s.body, fr)
                if any(o.kind == "continue" for o in r):
                    raise Unsupported("continue in while")
                if I.st is not None:
                    after = I.getvar(fr, name)
                    if not (isinstance(after, T) and sub(after, before) is ONE):
                        raise Unsupported("while loop without a unit counter")
                    b2 = I.eval(t.comparators[0], fr)
                    if b2 is not bound:
                        raise Unsupported("while bound changes")
                return r
            return sym_loop(I, cnt, bind, body, fr)
    raise Unsupported("while loop")


# ---------------------------------------------------------------- locations
def _same_value(I, a, b):
    if a is b:
        return True
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.base == b.base and ((a.view is None and b.view is None) or (
            a.view is not None and b.view is not None and a.view.key() == b.view.key()))
    if isinstance(a, (HList, HDict, HObj)) and type(a) is type(b):
        return a.id == b.id
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(_same_value(I, x, y) for x, y in zip(a, b))
    if isinstance(a, FuncV) and isinstance(b, FuncV):
        return a.node is b.node and a.fid == b.fid
    if isinstance(a, (str, int, type(None))):
        return type(a) is type(b) and a == b
    if isinstance(a, Bound) and isinstance(b, Bound):
        return _same_value(I, a.func, b.func) and _same_value(I, a.self, b.self)
    return False


def diff(I, a, b):
    """locations of state a whose value differs in state b."""
    out = set()
    for fid, d in a.frames.items():
        e = b.frames.get(fid, {})
        for nm, v in d.items():
            if nm not in e or not _same_value(I, v, e[nm]):
                out.add(("var", fid, nm))
    for i, c in a.heap.items():
        x = b.heap.get(i)
        if x is c:
            continue
        if isinstance(c, FA) and isinstance(x, FA) and c.body is x.body and c.shape == x.shape:
            continue
        if isinstance(c, CDict) and isinstance(x, CDict) and set(c.items) == set(x.items) and \
                all(_same_value(I, c.items[k], x.items[k]) for k in c.items):
            continue
        if isinstance(c, CList) and isinstance(x, CList) and len(c.items) == len(x.items) and \
                all(_same_value(I, p, q) for p, q in zip(c.items, x.items)):
            continue
        out.add(("heap", i))
    return out


def local_vars(I, a, b):
    out = set()
    for fid, d in b.frames.items():
        if fid in a.frames:
            for nm in d:
                if nm not in a.frames[fid]:
                    out.add(("var", fid, nm))
    return out


def get_loc(I, st, loc):
    """frozen value of a location in a state (or None)."""
    old = I.st
    I.st = st
    try:
        if loc[0] == "var":
            v = st.frames[loc[1]].get(loc[2])
            if isinstance(v, (HObj, HDict)):
                return v
            return I.freeze(v)
        c = st.heap[loc[1]]
        if isinstance(c, FA):
            return c
        if isinstance(c, CList):
            return FList([I.freeze(x) for x in c.items])
        if isinstance(c, SList):
            return FSList(c.n, c.k, c.fv)
        if isinstance(c, CDict):
            return ("CD", {k: (v if isinstance(v, (HObj, HDict, HList)) else I.freeze(v))
                           for k, v in c.items.items()})
        if isinstance(c, T):
            return c
        raise Unsupported("location content %s" % type(c).__name__)
    finally:
        I.st = old


def set_loc(I, loc, fv):
    """store a frozen value in a location of the current state."""
    if loc[0] == "var":
        I.st.frames[loc[1]][loc[2]] = I.thaw(fv)
        return
    if isinstance(fv, (FA, T)):
        I.st.heap[loc[1]] = fv
    elif isinstance(fv, FList):
        I.st.heap[loc[1]] = CList([I.thaw(x) for x in fv.items])
    elif isinstance(fv, FSList):
        I.st.heap[loc[1]] = SList(fv.n, fv.k, fv.fv)
    elif isinstance(fv, tuple) and fv and fv[0] == "CD":
        I.st.heap[loc[1]] = CDict({k: I.thaw(x) for k, x in fv[1].items()})
    else:
        raise Unsupported("storing a %s" % type(fv).__name__)


class HSym:
    """fresh symbol standing for a location leaf at iteration start."""

    def __init__(self, name, fv, dims=0):
        self.name, self.fv, self.dims = name, fv, dims


def havoc_value(fv, tag, reg):
    """fresh value with the same structure; reg collects leaf symbols."""
    if isinstance(fv, T):
        if fv.sort == "U":
            v = fresh("h:" + tag, "U")
        else:
            # integer counters may become real: decided by caller through 'reg'
            v = fresh("h:" + tag, fv.sort)
        reg.append(("t", v, fv))
        return v
    if isinstance(fv, FA):
        nm = fresh_name("h:" + tag)
        b = sel(nm, IX[:fv.ndim], sort_of(fv.dtype))
        reg.append(("a", nm, fv))
        return FA(fv.shape, fv.dtype, b)
    if isinstance(fv, tuple) and fv and fv[0] == "CD":
        return ("CD", {k: havoc_value(v, tag, reg) for k, v in fv[1].items()})
    if isinstance(fv, tuple):
        return tuple(havoc_value(x, tag, reg) for x in fv)
    if isinstance(fv, FList):
        return FList([havoc_value(x, tag, reg) for x in fv.items])
    if isinstance(fv, FSList):
        raise Unsupported("havoc of a symbolic list")
    return fv


def leaves(fv):
    if isinstance(fv, (T, FA)):
        return [fv]
    if isinstance(fv, tuple) and fv and fv[0] == "CD":
        out = []
        for k in sorted(fv[1], key=str):
            out += leaves(fv[1][k])
        return out
    if isinstance(fv, tuple):
        return [y for x in fv for y in leaves(x)]
    if isinstance(fv, FList):
        return [y for x in fv.items for y in leaves(x)]
    return []


class Mods:
    """havoc'd locations of one loop / one objective function."""

    def __init__(self):
        self.locs = {}        # loc -> (initial fv, havoc fv, [reg entries])
        self.lists = {}       # loc -> initial FList/FSList (append-only lists)
        self.wide = set()     # term leaves whose sort must be widened to R


def stabilise(I, run, st0, tag):
    """Run `run` from st0 with modified locations havoc'd until closed.

    run() executes on I.st and returns anything.  Returns
    (Mods, start state, end state, result).
    """
    mods = Mods()
    saved = (len(I.raises), len(I.defined), len(I.frame_violations))
    n_rounds = 0
    while True:
        n_rounds += 1
        if n_rounds > 12:
            raise Unsupported("loop state does not stabilise")
        I.st = st0.fork()
        for loc, (_, hv, _) in mods.locs.items():
            set_loc(I, loc, hv)
        for loc, (fv0, el) in mods.lists.items():
            set_list_havoc(I, loc, fv0, el)
        start = I.st.fork()
        del I.raises[saved[0]:]
        del I.defined[saved[1]:]
        del I.frame_violations[saved[2]:]
        res = run()
        end = I.st
        if end is None:
            # body never completes normally (always break/return/raise)
            return mods, start, None, res
        changed = diff(I, start, end)
        new = changed - set(mods.locs) - set(mods.lists)
        bad = None
        if not new:
            # sorts and shapes must be stable
            redo = False
            for loc, (fv0, hv, reg) in list(mods.locs.items()):
                cur = get_loc(I, end, loc)
                w = widen(I, fv0, cur)
                if w is not None:
                    mods.locs[loc] = make_havoc(w, tag)
                    redo = True
            if not redo:
                return mods, start, end, res
            continue
        for loc in sorted(new, key=str):
            fv0 = get_loc(I, start, loc)
            cur = get_loc(I, end, loc)
            if isinstance(fv0, (FList, FSList)) and isinstance(cur, (FList, FSList)) and \
                    loc[0] == "heap" and (isinstance(cur, FSList) or len(cur.items) != (
                        len(fv0.items) if isinstance(fv0, FList) else -1)):
                mods.lists[loc] = (fv0, fresh("hl", "I"))
                continue
            if isinstance(fv0, (FList,)) and isinstance(cur, FSList):
                mods.lists[loc] = (fv0, fresh("hl", "I"))
                continue
            w = widen(I, fv0, cur)
            mods.locs[loc] = make_havoc(w if w is not None else fv0, tag)


def make_havoc(fv0, tag):
    reg = []
    hv = havoc_value(fv0, tag, reg)
    return (fv0, hv, reg)


def widen(I, a, b):
    """a with integer scalars / arrays widened to real when b is real."""
    la, lb = leaves(a), leaves(b)
    if len(la) != len(lb) or type(a) is not type(b):
        if isinstance(a, T) and isinstance(b, T):
            pass
        elif isinstance(a, (T, FA)) and isinstance(b, (T, FA)):
            raise Unsupported("loop variable changes from %s to %s" % (
                type(a).__name__, type(b).__name__))
        else:
            raise Unsupported("loop changes the structure of a value")
    changed = False
    for x, y in zip(la, lb):
        if isinstance(x, T) and isinstance(y, T):
            if x.sort == "I" and y.sort == "R" and not isinstance(x, Wide):
                changed = True
        elif isinstance(x, FA) and isinstance(y, FA):
            if x.ndim != y.ndim:
                raise Unsupported("array rank changes in loop")
            if x.dtype != y.dtype and y.dtype == "f":
                changed = True
    if not changed:
        return None
    it = iter(lb)

    def go(v):
        if isinstance(v, T):
            y = next(it)
            if v.sort == "I" and y.sort == "R":
                return realterm(v)
            return v
        if isinstance(v, FA):
            y = next(it)
            return FA(v.shape, Interp_promote(v.dtype, y.dtype), v.body)
        if isinstance(v, tuple) and v and v[0] == "CD":
            return ("CD", {k: go(v[1][k]) for k in sorted(v[1], key=str)})
        if isinstance(v, tuple):
            return tuple(go(x) for x in v)
        if isinstance(v, FList):
            return FList([go(x) for x in v.items])
        return v
    return go(a)


class Wide:
    pass


def Interp_promote(a, b):
    from .interp import Interp
    return Interp.promote(a, b)


def realterm(v):
    """v as a real-sorted term (keeps the value)."""
    return RealLeaf.wrap(v)


class RealLeaf:
    """marks an integer initial value of a location that becomes real."""
    @staticmethod
    def wrap(v):
        return app("toreal", [v], "R")


def _simp_toreal(args, sort):
    return None


def unreal(t):
    """remove toreal wrappers."""
    if t.op == "app" and t.args[0] == "toreal":
        return t.args[1]
    return t


def set_list_havoc(I, loc, fv0, hl):
    """list location: initial items followed by hl opaque ones."""
    n0 = num(len(fv0.items)) if isinstance(fv0, FList) else fv0.n
    I.st.heap[loc[1]] = OpaqueList(loc, n0, hl)


class OpaqueList:
    """append-only list during loop analysis: appended values are recorded."""
    __slots__ = ("loc", "n0", "n", "appended")

    def __init__(self, loc, n0, n, appended=()):
        self.loc, self.n0, self.n, self.appended = loc, n0, n, tuple(appended)

    @property
    def items(self):
        raise Unsupported("reading a list while it is being built in a loop")


# ---------------------------------------------------------------- main loop rule
def sym_loop(I, n, bind, body, fr):
    from .interp import Outcome
    st0 = I.st
    k = fresh("k", "I")
    info = {}

    def run():
        I.st.pc = I.st.pc + (le(ZERO, k), lt(k, n))
        base = len(I.st.pc)
        bind(k)
        outs = body()
        I.st = absorb(I, outs, "continue", base)
        info["outs"] = [o for o in outs if o.kind != "continue"]
        info["base"] = base
        return None

    def bound_run(ext):
        def r():
            I.st.pc = I.st.pc + tuple(ext)
            return run()
        return r

    mods, start, end, _ = stabilise(I, run, st0, "loop")
    breaks = [o for o in info["outs"] if o.kind == "break"]
    others = [o for o in info["outs"] if o.kind in ("return",)]
    raises = [o for o in info["outs"] if o.kind == "raise"]
    if others:
        raise Unsupported("return inside a symbolic loop")
    # refine: entries never written keep their initial value
    refine(I, mods, k, n, end, breaks)
    mods, start, end, _ = rerun(I, run, st0, mods)
    breaks = [o for o in info["outs"] if o.kind == "break"]
    raises = [o for o in info["outs"] if o.kind == "raise"]
    if breaks or end is None:
        return break_loop(I, n, k, st0, mods, start, end, breaks, raises, info)
    closed = solve(I, mods, k, n, end)
    # list appends
    # final state
    fin = st0.fork()
    I.st = fin
    raise_outs = []
    for o in raises:
        # some iteration raises
        c = b_and(*o.st.pc[info["base"]:])
        c = closed.at(c, k)
        some = mk_exists(n, k, c)
        raise_outs.append(Outcome("raise", o.value, st0.fork(some)))
        fin.pc = fin.pc + (b_not(some),)
    for loc, (fv0, hv, reg) in mods.locs.items():
        set_loc(I, loc, closed.value(loc, n))
    for loc, (fv0, hl) in mods.lists.items():
        I.st.heap[loc[1]] = closed.list_value(loc, n)
    # loop locals: value after the last iteration
    for loc in local_vars(I, start, end):
        if loc[1] not in st0.frames:
            continue
        if not read_outside(I, loc[1], loc[2]):
            I.st.frames[loc[1]][loc[2]] = Undef("loop-local value after the loop")
            continue
        try:
            fv = get_loc(I, end, loc)
            if isinstance(fv, (HObj, HDict)):
                raise Unsupported("object")
            fv = fv_map(fv, lambda t: subst(closed.at(t, k), {k: sub(n, ONE)}))
            I.st.frames[loc[1]][loc[2]] = I.thaw(fv)
        except Unsupported as e:
            I.st.frames[loc[1]][loc[2]] = Undef("loop-local value after the loop")
    adjust_defined(I, closed, k, n)
    # invalidates facts?  pc unchanged
    return raise_outs


def adjust_defined(I, closed, k, n):
    """definedness conditions recorded inside the loop: use the closed forms."""
    out = []
    for facts, goal, what in I.defined:
        try:
            out.append(([closed.at(f, k) for f in facts], closed.at(goal, k), what))
        except Unsupported:
            out.append((facts, goal, what))
    I.defined[:] = out


def rerun(I, run, st0, mods):
    I.st = st0.fork()
    for loc, (_, hv, _) in mods.locs.items():
        set_loc(I, loc, hv)
    for loc, (fv0, el) in mods.lists.items():
        set_list_havoc(I, loc, fv0, el)
    start = I.st.fork()
    res = run()
    return mods, start, I.st, res


def touch_cond(B, hsel):
    """condition under which the array body B differs from hsel."""
    if B is hsel:
        return FALSE
    if B.op == "ite":
        return ite(B.args[0], touch_cond(B.args[1], hsel), touch_cond(B.args[2], hsel))
    return TRUE


def all_h(mods):
    vs, names = set(), set()
    for loc, (fv0, hv, reg) in mods.locs.items():
        for r in reg:
            if r[0] == "t":
                vs.add(r[1])
            else:
                names.add("@" + r[1])
    return frozenset(vs), frozenset(names)


def elim_k(c, k, n):
    """exists k in [0,n): c   (exact)."""
    if c is FALSE:
        return FALSE
    if c is TRUE or k not in c.fv:
        return b_and(c, lt(ZERO, n))
    from .terms import _solve_eq
    r = _solve_eq(c, k)
    if r is not None:
        rest, s = r
        return b_and(le(ZERO, s), lt(s, n), subst(rest, {k: s}))
    j = fresh("j", "I")
    return mk_exists(n, j, subst(c, {k: j}))


def refine(I, mods, k, n, end, breaks):
    """restrict havoc to the entries that the body may write."""
    vs, names = all_h(mods)
    ends = [s for s in [end] + [o.st for o in breaks] if s is not None]
    for loc, (fv0, hv, reg) in list(mods.locs.items()):
        arr_regs = [r for r in reg if r[0] == "a"]
        if not arr_regs or not isinstance(hv, FA):
            continue
        nm = arr_regs[0][1]
        h = hv.body
        tc = FALSE
        ok = True
        for e in ends:
            cur = get_loc(I, e, loc)
            if not isinstance(cur, FA):
                ok = False
                break
            tc = b_or(tc, touch_cond(cur.body, h))
        if not ok or tc is TRUE:
            continue
        if mentions(tc, vs, names):
            continue
        ever = elim_k(tc, k, n)
        ever = drop_range(I, ever, hv.shape)
        if ever is TRUE:
            continue
        mods.locs[loc] = (fv0, FA(hv.shape, hv.dtype, ite(ever, h, fv0.body)), reg)


def drop_range(I, c, shape):
    """remove conjuncts that only say an index is in range."""
    triv = set()
    for i, n in enumerate(shape):
        triv.add(le(ZERO, IX[i]))
        triv.add(lt(IX[i], n))
    if c in triv:
        return TRUE
    if c.op == "and":
        return b_and(*[x for x in c.args if x not in triv])
    return c


# ---------------------------------------------------------------- solving
def affine(B, h):
    """B = P*h + Q with P, Q free of (this occurrence of) h; None if not."""
    if B is h:
        return ONE, ZERO
    if not contains(B, h):
        return ZERO, B
    if B.op == "poly":
        P, Q = ZERO, ZERO
        for m, c in B.args:
            hs = [(a, e) for a, e in m if contains(a, h)]
            rest = tuple((a, e) for a, e in m if not contains(a, h))
            r = from_poly({rest: c})
            if not hs:
                Q = add(Q, r)
                continue
            if len(hs) != 1 or hs[0][1] != 1:
                return None
            s = affine(hs[0][0], h)
            if s is None:
                return None
            P = add(P, mul(r, s[0]))
            Q = add(Q, mul(r, s[1]))
        return P, Q
    if B.op == "ite":
        c, a, b = B.args
        if contains(c, h):
            return None
        x, y = affine(a, h), affine(b, h)
        if x is None or y is None:
            return None
        return ite(c, x[0], y[0]), ite(c, x[1], y[1])
    return None


_cont = {}


def contains(t, h):
    key = (t, h)
    r = _cont.get(key)
    if r is None:
        if t is h:
            r = True
        elif h.fv and not (h.fv <= t.fv) and h.op == "var":
            r = False
        else:
            r = any(contains(c, h) for c in children(t))
        _cont[key] = r
    return r


def has_sym(t, kind, nm):
    if kind == "t":
        return nm in t.fv
    return ("@" + nm) in syms_in(t)


class Closed:
    def __init__(self, I, mods, k, n):
        self.I, self.mods, self.k, self.n = I, mods, k, n
        self.tsol = {}        # var -> C(k) term in k
        self.asol = {}        # name -> body term in k and IX
        self.end = None

    def at(self, t, k):
        """rewrite start-of-iteration symbols by their closed forms."""
        if not self.tsol and not self.asol:
            return t
        f = {}
        for nm, body in self.asol.items():
            f[nm] = (lambda b: (lambda *a: subst(b, dict(zip(IX, a)))))(body)
        return fsubst(t, self.tsol, f)

    def value(self, loc, n):
        """value of the location after n iterations."""
        fv0, hv, reg = self.mods.locs[loc]
        it = iter(reg)

        def go(v0, h):
            if isinstance(v0, T):
                r = next(it)
                return subst(self.tsol[r[1]], {self.k: n})
            if isinstance(v0, FA):
                r = next(it)
                return FA(v0.shape, v0.dtype, subst(self.asol[r[1]], {self.k: n}))
            if isinstance(v0, tuple) and v0 and v0[0] == "CD":
                return ("CD", {q: go(v0[1][q], None) for q in v0[1]})
            if isinstance(v0, tuple):
                return tuple(go(x, None) for x in v0)
            if isinstance(v0, FList):
                return FList([go(x, None) for x in v0.items])
            return v0
        return go(fv0, hv)

    def list_value(self, loc, n):
        fv0, hl = self.mods.lists[loc]
        c = self.end.heap[loc[1]]
        if not isinstance(c, OpaqueList) or len(c.appended) != 1:
            raise Unsupported("list built with a varying number of appends per iteration")
        v = fv_map(c.appended[0], lambda t: self.at(t, self.k))
        n0 = len(fv0.items) if isinstance(fv0, FList) else None
        if n0 == 0:
            return SList(n, self.k, v)
        kk = fresh("k", "I")
        if isinstance(fv0, FList):
            items = fv0.items
            if all(isinstance(x, T) for x in items) and isinstance(v, T):
                body = subst(v, {self.k: sub(kk, num(n0))})
                for j in range(n0 - 1, -1, -1):
                    body = ite(eq(kk, num(j)), items[j], body)
                return SList(add(num(n0), n), kk, body)
            if all(isinstance(x, FA) for x in items) and isinstance(v, FA):
                w = fv_map(v, lambda t: subst(t, {self.k: sub(kk, num(n0))}))
                for j in range(n0 - 1, -1, -1):
                    x = items[j]
                    w = FA([ite(eq(kk, num(j)), p, q) for p, q in zip(x.shape, w.shape)],
                           Interp_promote(x.dtype, w.dtype), ite(eq(kk, num(j)), x.body, w.body))
                return SList(add(num(n0), n), kk, w)
        if isinstance(fv0, FSList) and isinstance(v, T) and isinstance(fv0.fv, T):
            body = ite(lt(kk, fv0.n), subst(fv0.fv, {fv0.k: kk}),
                       subst(v, {self.k: sub(kk, fv0.n)}))
            return SList(add(fv0.n, n), kk, body)
        raise Unsupported("append to a non-empty list in a symbolic loop")


def solve(I, mods, k, n, end, allow_havoc=True):
    C = Closed(I, mods, k, n)
    C.end = end
    items = []
    for loc, (fv0, hv, reg) in mods.locs.items():
        cur = get_loc(I, end, loc)
        lv = leaves(cur)
        hvl = leaves(hv)
        if len(lv) != len(reg):
            raise Unsupported("loop changes the structure of a value")
        for r, b, hh in zip(reg, lv, hvl):
            items.append([loc, r, b, hh])
    resolve_reads(I, items, k)
    pending = items
    vs, names = all_h(mods)
    while pending:
        progress = False
        rest = []
        for it in pending:
            loc, r, b, hh = it
            kind, nm, v0 = r
            body = b if kind == "t" else b.body
            if kind == "a":
                for x, y in zip(b.shape, v0.shape):
                    if x is not y and not I.same_dim(x, y):
                        raise Unsupported("array shape changes in loop")
            body = C.at(body, k)
            unsolved_v = vs - set(C.tsol)
            unsolved_n = names - {"@" + x for x in C.asol}
            own = {nm} if kind == "t" else {"@" + nm}
            if kind == "t":
                other = mentions(body, unsolved_v - own, unsolved_n)
            else:
                other = mentions(body, unsolved_v, unsolved_n - own)
            if other:
                rest.append(it)
                continue
            sol = solve_one(I, kind, nm, v0, body, hh, k, n)
            if sol is None:
                rest.append(it)
                continue
            if kind == "t":
                C.tsol[nm] = sol
            else:
                C.asol[nm] = sol
            progress = True
        if rest and not progress:
            if not allow_havoc:
                raise Unsupported("no closed form for a loop")
            rest = fold_rest(I, C, rest, k, n)
            pending = rest
            continue
        pending = rest
    return C


def component(kind, nm, v0, b, hh, rewrite=lambda t: t):
    """fold component of a location: the entries an iteration may write"""
    if kind == "t":
        return FD.Comp(("t", nm), nm.sort, (), unreal(v0), rewrite(b))
    body = b.body
    srt = sort_of(v0.dtype)
    h0 = sel(nm, IX[:v0.ndim], srt)
    h = hh.body
    if h.op == "ite" and h.args[1] is h0:
        ever = h.args[0]
    elif h.op == "ite" and h.args[2] is h0:
        ever = b_not(h.args[0])
    else:
        return FD.Comp(("a", nm), srt, v0.shape, v0.body, rewrite(body))
    body = ite(ever, rewrite(replace(body, {h: h0})), zero_of(srt))
    return FD.Comp(("a", nm), srt, v0.shape, ite(ever, v0.body, zero_of(srt)), body)


def zero_of(srt):
    return FALSE if srt == "B" else ZERO


def written(hh, nm, v0, val):
    """the whole array, from its entries that an iteration may write"""
    return replace_h(hh.body, nm, val)


def fold_rest(I, C, rest, k, n):
    """the unsolved locations with the fewest dependencies become a fold."""
    comps = []
    for loc, (kind, nm, v0), b, hh in rest:
        comps.append(component(kind, nm, v0, b, hh, lambda t: C.at(t, k)))
    cones = [FD.cone([i], comps, None) for i in range(len(comps))]
    small = min(range(len(comps)), key=lambda i: len(cones[i]))
    members = cones[small]
    pos, at = FD.build(comps, members, k, n)
    F = at(k)
    for i in sorted(members):
        c = comps[i]
        if c.sym[0] == "t":
            C.tsol[c.sym[1]] = FD.st(F, pos[i], (), c.sort)
        else:
            _, (_, nm, v0), _, hh = rest[i]
            C.asol[nm] = written(hh, nm, v0, FD.st(F, pos[i], IX[:len(c.dims)], c.sort))
    return [it for i, it in enumerate(rest) if i not in members]


def resolve_reads(I, items, k):
    """reads of entries that only a later (or this) iteration writes give the
    initial value."""
    syms = {"@" + r[1] for _, r, _, _ in items if r[0] == "a"}
    vs = frozenset(r[1] for _, r, _, _ in items if r[0] == "t")
    sols = {}
    for loc, (kind, nm, v0), b, hh in items:
        if kind != "a":
            continue
        tc = touch_cond(b.body, hh.body)
        if tc is TRUE or tc is FALSE or mentions(tc, vs, syms):
            continue
        s = _solve_k(tc, k)
        if s is not None and k not in s[1].fv:
            sols[nm] = (s[1], v0)
    if not sols:
        return

    def reader(nm, sol, v0):
        own = IX[:v0.ndim]

        def rd(*a):
            if not all(x is y for x, y in zip(a, own)):
                at = subst(sol, dict(zip(IX, a)))
                if at is k or le(k, at) is TRUE or (k in at.fv and I.valid(le(k, at))):
                    return subst(v0.body, dict(zip(IX, a)))
            return sel(nm, list(a), sort_of(v0.dtype))
        return rd
    f = {nm: reader(nm, s, v0) for nm, (s, v0) in sols.items()}
    for it in items:
        b = it[2]
        if isinstance(b, FA):
            it[2] = FA([fsubst(x, {}, f) for x in b.shape], b.dtype, fsubst(b.body, {}, f))
        elif isinstance(b, T):
            it[2] = fsubst(b, {}, f)


def replace_h(t, nm, val):
    return fsubst(t, {}, {nm: lambda *a: subst(val, dict(zip(IX, a)))})


def solve_one(I, kind, nm, v0, B, hh, k, n):
    """closed form at iteration start k, or None."""
    init = unreal(v0) if kind == "t" else v0.body
    if kind == "a" and hh.body.op == "ite":
        # the start value itself: its never written entries are the initial ones
        h0 = sel(nm, IX[:v0.ndim], sort_of(v0.dtype))
        if hh.body.args[1] is h0 or hh.body.args[2] is h0:
            B = replace(B, {hh.body: h0})
    if not has_sym(B, kind, nm):
        # overwritten every iteration
        prev = subst(B, {k: sub(k, ONE)})
        if prev is init:
            return init
        return ite(eq(k, ZERO), init, prev)
    if kind == "t":
        h = nm
    else:
        nd = v0.ndim
        h = sel(nm, IX[:nd], sort_of(v0.dtype))
    r = affine(B, h)
    if r is not None and kind == "a":
        P, Q = r
        # Q may mention h at the written position: value there is still initial
    if r is not None:
        P, Q = r
        if has_sym(P, kind, nm):
            return None
        hq = has_sym(Q, kind, nm)
        j = fresh("j", "I")
        if not hq:
            if P is ONE:
                return add(init, mk_sum(k, j, subst(Q, {k: j})))
            if Q is ZERO:
                if not _zero_one(P):
                    return mul(init, mk_prod(k, j, subst(P, {k: j})))
        # P in {0,1}: pointwise write
        cond = _p_zero(P)
        if cond is not None:
            # split Q into value on cond; must vanish off cond
            off = assume(Q, cond, False)
            if off is not ZERO and not I.valid(implies(b_not(cond), eq(Q, ZERO))):
                # conditional accumulate mixed with writes
                return None
            val = assume(Q, cond, True)
            return write_rule(I, kind, nm, init, cond, val, h, k, n)
        return None
    # not affine: try max/min, and writes with value depending on own entry
    tc = touch_cond(B, h)
    if tc is not TRUE and not has_sym(tc, kind, nm):
        val = assume(B, tc, True)
        w = write_rule(I, kind, nm, init, tc, val, h, k, n)
        if w is not None:
            return w
    if B.op == "ite" and kind == "t":
        c, a, b = B.args
        for x, y, pos in ((a, b, True), (b, a, False)):
            # x is h, y is new value
            if x is h and not has_sym(y, kind, nm):
                j = fresh("j", "I")
                yj = subst(y, {k: j})
                if c is (le(y, h) if pos else lt(h, y)) or c is (lt(y, h) if pos else le(h, y)):
                    return tmax(init, mk_ext("maxb", k, j, yj))
                if c is (le(h, y) if pos else lt(y, h)) or c is (lt(h, y) if pos else le(y, h)):
                    return tmin(init, mk_ext("minb", k, j, yj))
    return None


def _zero_one(P):
    return _p_zero(P) is not None


def _p_zero(P):
    """condition P == 0 for a 0/1 valued ite tree."""
    if P is ONE:
        return FALSE
    if P is ZERO:
        return TRUE
    if P.op == "ite":
        a, b = _p_zero(P.args[1]), _p_zero(P.args[2])
        if a is None or b is None:
            return None
        return ite(P.args[0], a, b)
    return None


def write_rule(I, kind, nm, init, cond, val, h, k, n):
    """X_{k+1} = val if cond(k, ix) else X_k."""
    if kind == "a" and has_sym(val, kind, nm):
        # allowed: val refers to entries that no earlier iteration wrote
        sols = [_solve_k(d, k) for d in _disjuncts(cond)]
        if not sols or len(sols) > 4 or any(x is None for x in sols):
            return None
        here = b_and(cond, le(ZERO, k), lt(k, n), *[le(ZERO, x) for x in IX[:len(h.args) - 1]])

        def rd(*a):
            m = dict(zip(IX, a))
            for rest, sol in sols:
                at = subst(sol, m)
                if at is k:
                    continue
                if k in rest.fv:
                    rest = subst(rest, {k: sol})
                early = b_and(subst(rest, m), le(ZERO, at), lt(at, k))
                if not I.valid(implies(here, b_not(early))):
                    raise Unsupported("read of another entry")
            return subst(init, m)
        try:
            val = fsubst(val, {}, {nm: rd})
        except Unsupported:
            return None
    elif has_sym(val, kind, nm):
        return None
    s = _solve_k(cond, k)
    if s is not None:
        rest, sol = s
        if k in rest.fv:
            rest = subst(rest, {k: sol})
        g = b_and(le(ZERO, sol), lt(sol, k), rest)
        return ite(g, subst(val, {k: sol}), init)
    if k not in cond.fv:
        return ite(cond, ite(eq(k, ZERO), init, subst(val, {k: sub(k, ONE)})), init)
    ds = _disjuncts(cond)
    if len(ds) <= 4:
        br = []
        for d in ds:
            s = _solve_k(d, k)
            if s is None:
                break
            rest, sol = s
            if k in rest.fv:
                rest = subst(rest, {k: sol})
            br.append((b_and(le(ZERO, sol), lt(sol, k), rest), sol))
        else:
            # the latest of the writes counts
            out = init
            done = []
            for g, sol in br:
                later = [b_or(b_not(g2), le(s2, sol)) for g2, s2 in br
                         if s2 is not sol and not I.valid(b_not(b_and(g, g2)))]
                done.append((b_and(g, *later), sol))
            for g, sol in reversed(done):
                out = ite(g, subst(val, {k: sol}), out)
            return out
    j = fresh("j", "I")
    cj = subst(cond, {k: j})
    l = mk_lam(j, cj)
    last = app("lastidx", [k, l], "I")
    j2 = fresh("j", "I")
    some = mk_exists(k, j2, subst(cond, {k: j2}))
    return ite(some, subst(val, {k: last}), init)


def _disjuncts(c):
    if c.op == "not" and c.args[0].op == "and":
        return [y for x in c.args[0].args for y in _disjuncts(b_not(x))]
    return [c]


def same_args(a, h):
    return all(x is y for x, y in zip(a, h.args[1:]))


def _solve_k(cond, k):
    from .terms import _solve_eq
    return _solve_eq(cond, k)


# ---------------------------------------------------------------- loops with break
def break_loop(I, n, k, st0, mods, start, end, breaks, raises, info):
    """The loop may stop early (n >= 1 is required): a fold."""
    if mods.lists:
        raise Unsupported("list built in a loop with break")
    if raises:
        raise Unsupported("raise inside an iterative loop")
    if not I.valid(lt(ZERO, n)):
        raise Unsupported("iterative loop that may run zero times")
    K, S = fresh("K", "I"), fresh("S", "U")
    base = info["base"]
    # state after iteration k: merge of the break states and the normal one
    st = end
    stop = FALSE
    for o in breaks:
        c = b_and(*o.st.pc[base:])
        stop = b_or(stop, c)
        st = o.st if st is None else I.merge_states(c, o.st, st, base)
    if end is None:
        stop = TRUE
    comps, where, origin = [], {}, {}
    for loc, (fv0, hv, reg) in mods.locs.items():
        cur = leaves(get_loc(I, st, loc))
        for (kind, nm, v0), b, hh in zip(reg, cur, leaves(hv)):
            where.setdefault(loc, []).append(len(comps))
            if kind == "a":
                for x, y in zip(b.shape, v0.shape):
                    if x is not y and not I.same_dim(x, y):
                        raise Unsupported("array shape changes in loop")
            comps.append(component(kind, nm, v0, b, hh))
            origin[len(comps) - 1] = (hh, nm, v0)
    fin = st0.fork()
    local = {}
    for loc in sorted(local_vars(I, start, st), key=str):
        if loc[1] not in st0.frames:
            continue
        if not read_outside(I, loc[1], loc[2]):
            fin.frames[loc[1]][loc[2]] = Undef("loop-local value after the loop")
            continue
        try:
            fv = get_loc(I, st, loc)
            if isinstance(fv, (HObj, HDict)):
                raise Unsupported("object")
            lv = leaves(fv)
            if any(isinstance(x, FA) and any(mentions(d, *all_h(mods)) or k in d.fv
                                             for d in x.shape) for x in lv):
                raise Unsupported("shape depends on the iteration")
        except Unsupported:
            fin.frames[loc[1]][loc[2]] = Undef("loop-local value after the loop")
            continue
        local[loc] = fv
        for x in lv:
            where.setdefault(loc, []).append(len(comps))
            if isinstance(x, FA):
                comps.append(FD.Comp(None, sort_of(x.dtype), x.shape, None, x.body))
            else:
                comps.append(FD.Comp(None, x.sort, (), None, x))
    vals, folds = [], {}
    for i, c in enumerate(comps):
        if c.sym is None and k not in c.step.fv and not FD.depends(c.step, comps):
            vals.append(c.step)         # assigned anew, alike, in every iteration
            continue
        members = frozenset(FD.cone([i], comps, stop))
        if members not in folds:
            pos, at = FD.build(comps, members, k, n, stop)
            folds[members] = pos, at(n)
        pos, F = folds[members]
        v = FD.st(F, pos[i], IX[:len(c.dims)], c.sort)
        if c.sym is not None and c.sym[0] == "a":
            v = written(*origin[i], v)
        vals.append(v)

    def final(loc, fv):
        it = iter(where.get(loc, ()))

        def go(v):
            if isinstance(v, T):
                return vals[next(it)]
            if isinstance(v, FA):
                return FA(v.shape, v.dtype, vals[next(it)])
            if isinstance(v, tuple) and v and v[0] == "CD":
                return ("CD", {q: go(v[1][q]) for q in sorted(v[1], key=str)})
            if isinstance(v, tuple):
                return tuple(go(x) for x in v)
            if isinstance(v, FList):
                return FList([go(x) for x in v.items])
            return v
        return go(fv)
    I.st = fin
    for loc in mods.locs:
        set_loc(I, loc, final(loc, mods.locs[loc][1]))
    for loc, fv in local.items():
        fin.frames[loc[1]][loc[2]] = I.thaw(final(loc, fv))
    # conditions inside the loop hold in any state
    syms = [i for i, c in enumerate(comps) if c.sym is not None]
    pos = {c: j for j, c in enumerate(syms)}
    out = []
    for facts, goal, what in I.defined:
        g = lambda t: subst(FD.through(t, comps, syms, S), {k: K})
        out.append(([g(f) for f in facts], g(goal), what))
    I.defined[:] = out
    return []


def fv_map2(fv, f):
    if isinstance(fv, tuple) and fv and fv[0] == "CD":
        return ("CD", {k: (v if isinstance(v, (HObj, HDict, HList)) else fv_map(v, f))
                       for k, v in fv[1].items()})
    return fv_map(fv, f)
