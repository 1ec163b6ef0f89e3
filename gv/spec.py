"""Contract declarations.

A contract file (contracts/*.py) is ordinary Python.  Its specification
functions are executed twice: natively on concrete inputs, and symbolically by
the verifier, which proves them against the function body in /repo."""
import random

import numpy as np

REGISTRY = {}          # contract id -> Contract
BY_PROP = {}           # property id -> [contract id | Scenario]


class Par:
    """how a parameter is introduced in the logic."""


class A(Par):
    """array with symbolic dimensions; lo/hi bound its entries (inclusive);
    values: finite set of admissible entries."""

    def __init__(self, *dims, dt="f", lo=None, hi=None, values=None, increasing=None,
                 positive=False):
        self.dims, self.dt, self.lo, self.hi = dims, dt, lo, hi
        self.values, self.increasing, self.positive = values, increasing, positive


class R(Par):
    def __init__(self, lo=None, hi=None, positive=False):
        self.lo, self.hi, self.positive = lo, hi, positive


class N(Par):
    """integer"""
    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi


class B(Par):
    pass


class C(Par):
    """constant"""
    def __init__(self, value):
        self.value = value


class D(Par):
    """dictionary with string keys"""
    def __init__(self, **items):
        self.items = items


class L(Par):
    """list / tuple of parameters"""
    def __init__(self, *items, kind=tuple):
        self.items, self.kind = items, kind


class F(Par):
    """function of scalars (elementwise on arrays), arbitrary but pure"""
    def __init__(self, name="f", positive=False, native=None):
        self.name, self.positive, self.native = name, positive, native


class Dim(Par):
    """integer parameter that also names a dimension"""
    def __init__(self, name, lo=1):
        self.name, self.lo = name, lo


class Fn(Par):
    """a function of the program itself, by qualified name"""
    def __init__(self, qual):
        self.qual = qual


class Contract:
    def __init__(self, qual, props, params=None, cases=None, requires=None, result=None,
                 ensures=None, raises=None, dims=None, gen=None, tol=1e-7, cid=None,
                 modifies=(), monotone=False, export=True, native_only=False, runs=60,
                 note="", use=(), wrap=None, facts=None, inline=(), tier="quick",
                 unroll=None, setup=None, proof=True, axioms=(), returns=None,
                 opaque=(), guard=None, share_state=False, name_masks=False, native=None, budget=200, final=None,
                 concrete=None):
        self.qual, self.props = qual, tuple(props)
        self.cases = cases if cases is not None else [("", params or {})]
        if isinstance(self.cases, dict):
            self.cases = list(self.cases.items())
        self.requires, self.result, self.ensures = requires, result, ensures
        self.raises, self.dims, self.gen = raises, dict(dims or {}), gen
        self.tol, self.cid = tol, cid or qual
        self.modifies = tuple(modifies)
        self.monotone, self.export, self.native_only = monotone, export, native_only
        self.runs, self.note, self.use, self.wrap = runs, note, tuple(use), wrap
        self.facts, self.inline, self.tier = facts, tuple(inline), tier
        self.unroll, self.setup, self.proof = unroll, setup, proof
        self.axioms = tuple(axioms)
        self.returns, self.guard, self.share_state = returns, guard, share_state
        self.name_masks = name_masks
        self.native, self.budget, self.opaque = native, budget, tuple(opaque)
        self.module = None
        # comparison of concrete results, where rounding may lead to another equally good result
        self.concrete = concrete
        # what the modified arrays hold afterwards
        self.final = dict(final or {})
        self.modifies = tuple(dict.fromkeys(self.modifies + tuple(self.final)))


def contract(qual, props, **kw):
    import inspect
    c = Contract(qual, props, **kw)
    fr = inspect.currentframe().f_back
    c.module = fr.f_globals["__name__"]
    if c.cid in REGISTRY:
        raise ValueError("duplicate contract " + c.cid)
    REGISTRY[c.cid] = c
    for p in c.props:
        BY_PROP.setdefault(p, []).append(c.cid)
    return c


class Scenario:
    """A concrete end-to-end run used only to find and replay failing inputs:
    gen(rng) -> kwargs, run(**kwargs) -> None or a message describing the
    violation."""

    def __init__(self, name, props, gen, run, runs=20, module=None):
        self.name, self.props, self.gen, self.run = name, tuple(props), gen, run
        self.runs, self.module = runs, module


SCEN = {}


def scenario(name, props, gen, run, runs=20):
    import inspect
    s = Scenario(name, props, gen, run, runs, inspect.currentframe().f_back.f_globals["__name__"])
    if name in SCEN:
        raise ValueError("duplicate scenario " + name)
    SCEN[name] = s
    return s


def loadall():
    import importlib
    import os
    import sys
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    d = os.path.join(here, "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("contracts." + f[:-3])
