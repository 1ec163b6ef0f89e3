"""Contracts: estimation options."""
import numpy as np
from scipy.stats import norm

from gv.rt import *
from girth.utilities.girth_options import validate_estimation_options, default_options
from gv.spec import contract, scenario, A, N, R, C, D, L, B, F

OP = "girth.utilities.girth_options:"


def documented():
    """the defaults"""
    return {"max_iteration": 25, "distribution": norm(0, 1).pdf,
            "quadrature_bounds": (-4.5, 4.5), "quadrature_n": 41, "hyper_quadrature_n": 41,
            "use_LUT": True, "estimate_distribution": False, "number_of_samples": 9,
            "initial_guess": True, "num_processors": 1}


LEAST = {"max_iteration": 1, "quadrature_n": 8, "hyper_quadrature_n": 8, "number_of_samples": 5}
FLAGS = ("use_LUT", "estimate_distribution", "initial_guess")


def acceptable(key, value):
    if key in LEAST:
        return isinstance(value, int) and value >= LEAST[key]
    if key in FLAGS:
        return isinstance(value, bool)
    if key == "quadrature_bounds":
        return isinstance(value, (tuple, list)) and value[0] < value[1]
    if key == "distribution":
        return callable(value)
    return key == "num_processors" and isinstance(value, int)


def refused(options_dict):
    if not options_dict:
        return False
    if not isinstance(options_dict, dict):
        return True
    return not all([acceptable(k, options_dict[k]) for k in options_dict])


def merged(options_dict):
    out = documented()
    if options_dict:
        for k in options_dict:
            out[k] = options_dict[k]
    return out


RIGHT = {"max_iteration": N(-3, 60), "distribution": F("dist", positive=True),
         "quadrature_bounds": L(R(), R()), "quadrature_n": N(0, 30),
         "hyper_quadrature_n": N(0, 30), "use_LUT": B(), "estimate_distribution": B(),
         "number_of_samples": N(0, 12), "initial_guess": B(), "num_processors": N(1, 4)}
WRONG = {"max_iteration": R(1, 50), "distribution": R(), "quadrature_bounds": R(),
         "quadrature_n": R(8, 40), "hyper_quadrature_n": R(8, 40), "use_LUT": N(0, 1),
         "estimate_distribution": N(0, 1), "number_of_samples": R(5, 9), "initial_guess": N(0, 1),
         "num_processors": R(1, 3)}

_cases = {"none": dict(options_dict=C(None)), "empty": dict(options_dict=D()),
          "not a dictionary": dict(options_dict=L(N(), N(), kind=list)),
          "unknown key": dict(options_dict=D(max_iterations=N(1, 50))),
          "all": dict(options_dict=D(**RIGHT)),
          "bounds list": dict(options_dict=D(quadrature_bounds=L(R(), R(), kind=list))),
          "good and bad": dict(options_dict=D(max_iteration=N(1, 50), use_LUT=N(0, 1)))}
for _k in RIGHT:
    _cases[_k] = dict(options_dict=D(**{_k: RIGHT[_k]}))
    _cases[_k + " of another type"] = dict(options_dict=D(**{_k: WRONG[_k]}))
contract(OP + "validate_estimation_options", ["C06"], cases=_cases, raises=refused, result=merged,
         runs=15)
contract(OP + "default_options", ["C06"], params={}, result=documented, runs=1)


# ------------------------------------------------------------ calls one after another
def later(first, options_dict):
    """an earlier call leaves no trace in a later one"""
    validate_estimation_options(first)
    return validate_estimation_options(options_dict), default_options()


def later_result(first, options_dict):
    return merged(options_dict), documented()


def later_ok(first, options_dict):
    return not refused(first) and not refused(options_dict)


_later = {"nothing": dict(options_dict=C(None), first=D(**RIGHT)),
          "the same": dict(options_dict=D(**RIGHT), first=D(**RIGHT))}
for _k in RIGHT:
    _later[_k + " first"] = dict(options_dict=C(None), first=D(**{_k: RIGHT[_k]}))
    _later[_k + " twice"] = dict(options_dict=D(**{_k: RIGHT[_k]}), first=D(**{_k: RIGHT[_k]}))
contract("contracts.options:later", ["C06"], cases=_later, requires=later_ok, result=later_result,
         runs=15)
