"""C32 the table of one-loop models of the Weinberg operator"""
from fractions import Fraction
from functools import lru_cache

import hypothesis.strategies as st

from .. import ref
from ..core import check, sub

HALF = Fraction(1, 2)
COLOURS = ["00", "10", "01", "02", "20", "11"]
L, H = ("L", "F", 1, -HALF), ("H", "S", 1, HALF)
# particles around the loop, and what leaves between neighbours (the last: between the last and the first)
TOPOLOGIES = {
    "T1-i": ("SSFS", [[H], [L], [L], [H]]),
    "T1-ii": ("FSSF", [[L], [H], [L], [H]]),
    "T1-iii": ("FFSF", [[H], [L], [L], [H]]),
    "T3": ("SSF", [[H, H], [L], [L]]),
}


def read(model):
    out = []
    for text in model:
        kind, colour, iso, y = text.split(",")
        out.append((kind, colour, int(iso), Fraction(y)))
    return out


@lru_cache(maxsize=None)
def listed():
    from neutrinomass.database.heavyloops import generate_models

    return [tuple(m) for m in generate_models()]


@lru_cache(maxsize=None)
def listed_set():
    return frozenset(listed())


def topology(fields):
    return [name for name, (kinds, _) in TOPOLOGIES.items() if kinds == "".join(f[0] for f in fields)]


def closes(fields, legs):
    """the model's particles run around the loop, emitting the legs in some orientation"""
    n = len(fields)
    for k in range(n):
        a, b = fields[k], fields[(k + 1) % n]
        out = legs[k]
        # colour runs around the loop
        if a[1] != b[1]:
            return f"{a} and {b} meet at a vertex with {[x[0] for x in out]}: colour is not conserved"
        # isospin: two equal doublets at the same point are symmetric, that is a triplet
        if len(out) == 1:
            ok = ref.su2_singlets([a[2], b[2], 1]) > 0
        else:
            ok = ref.su2_singlets([a[2], b[2], 2]) > 0
        if not ok:
            return f"{a} and {b} meet at a vertex with {[x[0] for x in out]}: isospin is not conserved"
        if abs(a[3] - b[3]) != sum(x[3] for x in out if x[0] == "H") + sum(-x[3] for x in out if x[0] == "L"):
            return f"{a} and {b} meet at a vertex with {[x[0] for x in out]}: hypercharge is not conserved"
        # spin: an even number of fermions
        if (sum(x[1] == "F" for x in out) + (a[0] == "F") + (b[0] == "F")) % 2:
            return f"{a} and {b} meet at a vertex with {[x[0] for x in out]}: spin is not conserved"
    # both Higgs doublets leave with the same sign, and both lepton doublets: the sum of the steps with sign is zero
    steps = {"L": [], "H": []}
    for k in range(n):
        d = fields[(k + 1) % n][3] - fields[k][3]
        for x in legs[k]:
            steps[x[0]].append(d / len(legs[k]))
    if len(set(steps["L"])) != 1 or len(set(steps["H"])) != 1 or steps["L"][0] != -steps["H"][0]:
        return f"the loop {fields} does not emit two leptons and two Higgs fields of equal hypercharge: steps {steps}"
    return None


@sub("listed", cases=lambda tier: [["all"]], single=True)
def all_listed(case, rec):
    """every listed model closes a loop that conserves colour, isospin, hypercharge and spin at each vertex; non-trivial: every run"""
    models = listed()
    check(len(models) > 10000, "most models are missing")
    for m in models:
        fields = read(m)
        names = topology(fields)
        check(len(names) == 1, lambda: f"{m} belongs to the topologies {names}")
        problem = closes(fields, TOPOLOGIES[names[0]][1])
        check(problem is None, lambda: f"{names[0]} {m}: {problem}")
        check(fields[0][1] in COLOURS and all(f[2] >= 0 for f in fields), lambda: f"{m} has an unexpected representation")
        check(abs(fields[0][3]) <= 3, lambda: f"{m} is beyond the range of hypercharges")
        rec.label(names[0])
    rec.nontrivial()


@st.composite
def model_case(draw):
    name = draw(st.sampled_from(sorted(TOPOLOGIES)))
    m = draw(st.integers(0, 4))
    n = len(TOPOLOGIES[name][0])
    iso = draw(st.lists(st.integers(m, m + 2), min_size=n, max_size=n))
    # repair the loop where neighbours do not differ by one
    for k in range(1, n):
        if len(TOPOLOGIES[name][1][k - 1]) == 1 and abs(iso[k] - iso[k - 1]) != 1:
            iso[k] = iso[k - 1] + (1 if iso[k - 1] == m or (iso[k - 1] == m + 1 and draw(st.booleans())) else -1)
    return [name, m, iso, draw(st.sampled_from(COLOURS)), draw(st.integers(-18, 18))]


def expected(name, iso, colour, y):
    kinds = TOPOLOGIES[name][0]
    steps = {"T1-i": [0, -HALF, 0, HALF], "T1-ii": [0, HALF, 0, HALF], "T1-iii": [0, HALF, 0, -HALF], "T3": [0, 1, HALF]}[name]
    return tuple(f"{k},{colour},{i},{y + s}" for k, i, s in zip(kinds, iso, steps))


@sub("complete", strategy=model_case, quick=1500, thorough=20000, budget=(15, 60))
def complete(case, rec):
    """every loop of the four topologies with isospins within a window of three, any colour and any hypercharge of the grid is listed, and a loop that does not conserve isospin is not; non-trivial: it does"""
    name, m, iso, colour, n = case
    model = expected(name, iso, colour, Fraction(n, 6))
    problem = closes(read(model), TOPOLOGIES[name][1])
    rec.label(f"{name}: {'conserved' if problem is None else 'not conserved'}")
    if problem is None:
        # (two singlets cannot emit a symmetric pair of Higgs fields)
        check(model in listed_set(), lambda: f"the {name} model {model} is not listed")
        rec.nontrivial()
    else:
        check(model not in listed_set(), lambda: f"the model {model} is listed: {problem}")


@st.composite
def table_case(draw):
    name = draw(st.sampled_from(sorted(TOPOLOGIES)))
    n = len(TOPOLOGIES[name][0])
    iso = draw(st.lists(st.integers(1, 12), min_size=n, max_size=n))
    y = draw(st.tuples(st.integers(-40, 40), st.sampled_from([1, 2, 3, 4, 5, 6, 7, 12])))
    return [name, iso, list(y)]


@sub("tables", strategy=table_case, quick=500, thorough=8000, budget=(10, 60))
def tables(case, rec):
    """each topology's table gives one model per colour with the given isospins, and hypercharges that follow from the parameter; non-trivial: every case"""
    from sympy import Rational

    from neutrinomass.database import heavyloops

    name, iso, (p, q) = case
    f = {"T1-i": heavyloops.tbl_2_1, "T1-ii": heavyloops.tbl_2_2, "T1-iii": heavyloops.tbl_2_3, "T3": heavyloops.tbl_3_1}[name]
    got = sorted(map(tuple, f(list(iso), Rational(p, q))))
    want = sorted(expected(name, [i - 1 for i in iso], c, Fraction(p, q)) for c in COLOURS)
    check(got == want, lambda: f"the {name} models with dimensions {iso} and hypercharge {p}/{q} are {got} instead of {want}")
    rec.label(name)
    rec.nontrivial()
