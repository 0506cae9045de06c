"""C23 the new-physics scale of an estimate"""
import math

import hypothesis.strategies as st

from .. import boot, comps
from ..core import Discard, check, sub
from .c22 import NUMERIC, expected, powers, value

ATMOSPHERIC = 5e-11


def scale(p):
    """the scale in TeV at which an estimate equals the atmospheric mass; estimates fall with the scale, so there is one"""
    a, b = math.log(1e-30), math.log(1e60)
    target = math.log(ATMOSPHERIC)

    def f(x):
        s = math.exp(x)
        out = 0.0
        for k, n in p.items():
            if k == "Λ":
                out += n * x
            elif k == "loopv2":
                out += n * math.log(NUMERIC["loop"] + NUMERIC["v"] ** 2 / s**2)
            else:
                out += n * math.log(NUMERIC[k])
        return out

    for _ in range(300):
        m = (a + b) / 2
        if f(m) > target:
            a = m
        else:
            b = m
    return math.exp(a) * 1e-3


def build(p):
    import sympy

    out = sympy.Integer(1)
    for k, n in p.items():
        out *= sympy.Symbol(k) ** n
    return out


def check_scale(p, rec):
    from neutrinomass.database.closures import numerical_mv, numerical_np_scale_estimate

    e = build(p)
    got = complex(numerical_np_scale_estimate(e))
    want = scale(p)
    check(got.imag == 0 and got.real > 0, lambda: f"scale of {e} is {got}")
    check(math.isclose(got.real, want, rel_tol=1e-6), lambda: f"scale of {e} is {got.real} TeV, should be {want} TeV")
    check(math.isclose(value(p, got.real * 1e3), ATMOSPHERIC, rel_tol=1e-5), lambda: f"{e} at its scale {got.real} TeV is {value(p, got.real * 1e3)} GeV")
    mv = float(numerical_mv(e))
    check(math.isclose(mv, value(p), rel_tol=1e-9), lambda: f"{e} at 1 TeV is {value(p)} GeV, reported {mv}")
    return got.real


def estimate(max_loopv2):
    return st.builds(
        lambda loop, g2, ye, yu, yd, lv: {k: n for k, n in {"v": 2, "Λ": -1, "loop": loop, "g2": g2, "ye": ye, "yu": yu, "yd": yd, "loopv2": lv}.items() if n},
        st.integers(0, 6), st.integers(0, 3), st.integers(0, 3), st.integers(0, 3), st.integers(0, 3), st.integers(0, max_loopv2),
    )


def check_case(p, extra, rec):
    """an estimate, and the same with one more factor"""
    p = dict(p)
    rec.label(f"loopv2^{p.get('loopv2', 0)}")
    rec.nontrivial(p.get("loopv2", 0) > 0)
    first = check_scale(p, rec)
    if extra is None:
        return
    more = dict(p)
    more[extra] = more.get(extra, 0) + 1
    second = check_scale(more, rec)
    check(second <= first * (1 + 1e-9), lambda: f"scale of {build(p)} is {first}, with one more {extra} it is {second}")


@sub(
    "simple",
    strategy=lambda: st.tuples(estimate(1), st.sampled_from(["loop", "g2", "ye", "yu", "yd"])).map(list),
    quick=150, thorough=8000, budget=(40, 800),
)
def simple(case, rec):
    """random products of couplings and loops with at most one vev-or-loop factor, and the same with one more factor; non-trivial: with a
    vev-or-loop factor"""
    boot.load_database()
    check_case(*case, rec)


@sub(
    "deep",
    strategy=lambda: st.tuples(estimate(3).map(lambda p: {**p, "loopv2": 2 + p.get("loopv2", 0) // 3}), st.sampled_from([None, "loop", "loopv2"])).map(
        lambda t: [t[0], None if t[0]["loopv2"] > 2 else t[1]]
    ),
    quick=5, thorough=80, budget=(50, 850), hang=600, shrink=False,
)
def deep(case, rec):
    """two or three vev-or-loop factors (equations of degree five and seven)"""
    boot.load_database()
    check_case(*case, rec)


@sub("operators", strategy=lambda: st.sampled_from(comps.names()).map(lambda k: [k]), quick=12, thorough=243, budget=(50, 850), hang=600, shrink=False)
def operators(case, rec):
    """scales and masses of the estimates of catalogue operators; non-trivial: several different estimates"""
    boot.load_database()
    from neutrinomass.database.closures import neutrino_mass_estimate
    from neutrinomass.database.utils import estimate_np_scale

    eff = comps.catalogue()[case[0]]
    est = [powers(e) for e in neutrino_mass_estimate(eff)]
    if max(p.get("loopv2", 0) for p in est) > 1 or len(est) > 12:
        raise Discard()
    rec.nontrivial(len({tuple(sorted(p.items())) for p in est}) > 1)
    got = [float(x) for x in estimate_np_scale(eff)]
    want = [scale(p) for p in est]
    check(len(got) == len(want) and all(math.isclose(a, b, rel_tol=1e-6) for a, b in zip(got, want)), lambda: f"scales of {case[0]}: {got}, should be {want}")
