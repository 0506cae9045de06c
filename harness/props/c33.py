"""C33 mixing matrices and the couplings derived from them"""
import importlib
import math
import sys
import types

import hypothesis.strategies as st
import numpy as np

from ..core import check, sub

TOL = 1e-9


def utils():
    return importlib.import_module("neutrinomass.analysis.utils")


def standard(t12, t13, t23, delta, a1, a2):
    """the standard parametrisation, entry by entry"""
    s12, c12, s13, c13, s23, c23 = math.sin(t12), math.cos(t12), math.sin(t13), math.cos(t13), math.sin(t23), math.cos(t23)
    e = complex(math.cos(delta), math.sin(delta))
    u = np.array([
        [c12 * c13, s12 * c13, s13 / e],
        [-s12 * c23 - c12 * s23 * s13 * e, c12 * c23 - s12 * s23 * s13 * e, s23 * c13],
        [s12 * s23 - c12 * c23 * s13 * e, -c12 * s23 - s12 * c23 * s13 * e, c23 * c13],
    ])
    return u @ np.diag([complex(math.cos(a1), math.sin(a1)), complex(math.cos(a2), math.sin(a2)), 1])


def close(a, b, scale=1.0):
    return np.allclose(np.array(a, dtype=complex), np.array(b, dtype=complex), rtol=0, atol=TOL * scale)


def angle():
    special = [0.0, math.pi / 6, math.pi / 4, math.pi / 2, math.pi, -math.pi / 3, 2 * math.pi]
    return st.one_of(st.sampled_from(special), st.floats(-7, 7, allow_nan=False))


def arguments(p):
    t12, t13, t23, delta, a1, a2 = p
    return dict(c12=math.cos(t12), c13=math.cos(t13), c23=math.cos(t23), s12=math.sin(t12), s13=math.sin(t13), s23=math.sin(t23), δ_CP=delta, α_1=a1, α_2=a2)


@sub("numeric", strategy=lambda: st.lists(angle(), min_size=6, max_size=6), quick=1500, thorough=40000, budget=(10, 60))
def numeric(case, rec):
    """the matrix is unitary, equals the standard parametrisation, and its dagger and columns are those of the matrix; the phase-invariant CP measure is the known product of sines and cosines; non-trivial: no angle or phase vanishes"""
    m = utils().UnitaryMatrix(**arguments(case))
    u = np.array(m.val)
    want = standard(*case)
    check(u.shape == (3, 3) and close(u, want), lambda: f"the matrix is {u} instead of {want}")
    check(close(u @ u.conj().T, np.eye(3)), lambda: f"{u} is not unitary")
    check(close(m.get_dagger(), u.conj().T), lambda: f"the dagger of {u} is {m.get_dagger()}")
    cols = np.array(m.cols())
    check(all(close(cols[k], u[:, k]) for k in range(3)), lambda: f"the columns of {u} are {cols}")
    t12, t13, t23, delta, a1, a2 = case
    j = (u[0, 0] * u[1, 1] * np.conj(u[0, 1]) * np.conj(u[1, 0])).imag
    known = math.sin(t12) * math.cos(t12) * math.sin(t23) * math.cos(t23) * math.sin(t13) * math.cos(t13) ** 2 * math.sin(delta)
    check(abs(j - known) < TOL, lambda: f"the CP measure of {u} is {j} instead of {known}")
    if all(abs(x) > 1e-3 for x in case):
        rec.nontrivial()


@sub("symbolic", strategy=lambda: st.lists(angle(), min_size=6, max_size=6), quick=60, thorough=1500, budget=(15, 120))
def symbolic(case, rec):
    """the symbolic matrix, evaluated, equals the numeric one, also its dagger and columns; non-trivial: no angle or phase vanishes"""
    import sympy

    names = sympy.symbols("c12 c13 c23 s12 s13 s23 d a1 a2", real=True)
    m = utils().UnitaryMatrix(*names, symb=True)
    a = arguments(case)
    values = dict(zip(names, [a[k] for k in ("c12", "c13", "c23", "s12", "s13", "s23", "δ_CP", "α_1", "α_2")]))
    evaluate = lambda x: np.array(x.subs(values).evalf().tolist(), dtype=complex)
    want = standard(*case)
    check(close(evaluate(m.val), want), lambda: f"the symbolic matrix is {evaluate(m.val)} instead of {want}")
    check(close(evaluate(m.get_dagger()), want.conj().T), lambda: f"the symbolic dagger is {evaluate(m.get_dagger())}")
    check(close(evaluate(m.cols()), want.T), lambda: f"the symbolic columns are {evaluate(m.cols())}")
    if all(abs(x) > 1e-3 for x in case):
        rec.nontrivial()


@sub("defaults", cases=lambda tier: [["measured"]], single=True)
def defaults(case, rec):
    """the measured mixing matrices are unitary and have the measured moduli and CP violation (2018 fits); parameters that are left out keep their measured values; non-trivial: every run"""
    u = utils()
    pmns, ckm = np.array(u.PMNS.val), np.array(u.CKM)
    for name, m in (("PMNS", pmns), ("CKM", ckm)):
        check(close(m @ m.conj().T, np.eye(3)), lambda: f"the {name} matrix is not unitary")
    deg = math.radians
    check(close(pmns, standard(deg(33.82), deg(8.61), deg(49.6), deg(215.0), 0, 0)), lambda: f"the PMNS matrix is {pmns}")
    measured = [[0.9742, 0.2256, 0.0035], [0.2255, 0.9734, 0.0415], [0.0087, 0.0407, 0.9991]]
    check(np.allclose(np.abs(ckm), measured, atol=5e-4), lambda: f"the moduli of the CKM matrix are {np.abs(ckm)}")
    j = (ckm[0, 1] * ckm[1, 2] * np.conj(ckm[0, 2]) * np.conj(ckm[1, 1])).imag
    check(2.6e-5 < j < 3.4e-5, lambda: f"the CP measure of the CKM matrix is {j}, measured is 3e-5")
    part = np.array(u.UnitaryMatrix(δ_CP=0.3, α_2=0.2).val)
    check(close(part, standard(deg(33.82), deg(8.61), deg(49.6), 0.3, 0, 0.2)), lambda: f"with other phases the matrix is {part}")
    zero, sol, atm = u.NEUTRINO_MASSES
    check(zero == 0 and abs((sol * 1e9) ** 2 - 7.4e-5) < 1e-9 and abs((atm * 1e9) ** 2 - 2.494e-3) < 1e-9, lambda: f"the neutrino masses are {u.NEUTRINO_MASSES}")
    rec.nontrivial()


def anomalies():
    """the module imports two programs that are not installed and that the couplings do not use"""
    for name, content in (("flavio", {}), ("wilson", {"Wilson": None})):
        if name not in sys.modules:
            try:
                importlib.import_module(name)
            except ImportError:
                m = types.ModuleType(name)
                m.__dict__.update(content)
                sys.modules[name] = m
    return importlib.import_module("neutrinomass.analysis.flavour_anomalies")


@st.composite
def coupling_case(draw):
    size = draw(st.floats(-3, 3, allow_nan=False))
    return [10**size, draw(st.floats(-7, 7, allow_nan=False)), 10 ** draw(st.floats(-16, 3, allow_nan=False))]


@sub("couplings", strategy=coupling_case, quick=800, thorough=20000, budget=(10, 60))
def couplings(case, rec):
    """the two coupling vectors reproduce the neutrino mass matrix of the measured masses and mixing, for every complex parameter and mass scale; non-trivial: every case"""
    size, phase, m0 = case
    f, u = anomalies(), utils()
    xi = size * complex(math.cos(phase), math.sin(phase))
    x, z = np.array(f.x(xi, m0)), np.array(f.Z(xi, m0))
    check(x.shape == z.shape == (3,), lambda: f"{x}, {z} are not vectors of three couplings")
    got = m0 * (np.outer(x, z) + np.outer(z, x))
    p = np.array(u.PMNS.val)
    want = p.conj() @ np.diag(u.NEUTRINO_MASSES) @ p.conj().T
    check(close(got, want, scale=u.NEUTRINO_MASSES[2]), lambda: f"couplings for xi={xi}, m0={m0} give the mass matrix {got} instead of {want}")
    rec.nontrivial()
