"""C10 classes, partners and mass terms of exotic fields"""
from collections import Counter

import hypothesis.strategies as st

from .. import gen, ref
from ..core import Discard, check, sub
from ..ref import frac
from . import c03, c05


def case_strategy():
    colour = st.one_of(
        st.tuples(st.integers(0, 2), st.integers(0, 2)),
        st.sampled_from([(0, 0), (1, 1), (0, 0), (2, 2)]),
    )
    return st.fixed_dictionaries(
        {
            "label": st.sampled_from(["φ", "ψ", "S12", "f0", "x"]),
            "lorentz": st.sampled_from(["00", "10", "01"]),
            "colour": colour.map(list),
            "isospin": st.integers(0, 4),
            "y": st.one_of(st.just("0"), gen.charges()),
            "b": st.one_of(st.just(0), st.integers(-3, 3)),
            "conj": st.booleans(),
            "start": st.integers(0, 30),
            "marker": st.sampled_from(["", "_", "^"]),
            "latex": st.sampled_from([None, "\\Phi"]),
        }
    )


def indexed(case):
    from neutrinomass.tensormethod.core import IndexedField

    dyn = case["lorentz"] + "".join(map(str, case["colour"])) + str(case["isospin"])
    idx, _ = gen.index_string(dyn, case["start"])
    idx = " ".join(i + case["marker"] for i in idx.split())
    kw = {"latex": case["latex"]} if case["latex"] else {}
    f = IndexedField(label=case["label"], indices=idx, charges={"y": frac_to_sympy(case["y"]), "3b": case["b"]}, **kw)
    return (f.conj if case["conj"] else f), dyn


def frac_to_sympy(y):
    from sympy import Rational

    return Rational(y)


def real(case):
    a, b = case["colour"]
    return a == b and case["isospin"] % 2 == 0 and frac(case["y"]) == 0


CLASS = {
    (True, True): "MajoranaFermion",
    (True, False): "VectorLikeDiracFermion",
    (False, True): "RealScalar",
    (False, False): "ComplexScalar",
}


@sub("classes", strategy=case_strategy, quick=600, thorough=10000)
def classes(case, rec):
    """scalar and fermion irreps with any hypercharge, half of them biased towards real representations; non-trivial: not a singlet"""
    from neutrinomass.completions.core import cons_completion_field

    f, dyn = indexed(case)
    is_fermion = case["lorentz"] != "00"
    x = cons_completion_field(f)
    want = CLASS[is_fermion, real(case)]
    check(type(x).__name__ == want, lambda: f"{f} with charges {f.charges} made a {type(x).__name__}, expected {want}")
    rec.label(want)
    for a in ("label", "dynkin", "is_conj", "latex"):
        check(getattr(x, a) == getattr(f, a), lambda: f"{a} of {f} changed from {getattr(f, a)!r} to {getattr(x, a)!r}")
    check([str(i) for i in x.indices] == [str(i) for i in f.indices], lambda: f"indices of {f} became {x.indices}")
    check({k: frac(v) for k, v in x.charges.items()} == {k: frac(v) for k, v in f.charges.items()}, lambda: f"charges {f.charges} became {x.charges}")
    check(x.is_fermion == is_fermion and str(x.comm) == ("fermi" if is_fermion else "bose"), lambda: f"statistics of {x}: {x.comm}")
    check(x.is_real_sm_irrep == real(case), lambda: f"{x} {x.charges}: real={x.is_real_sm_irrep}")
    rec.nontrivial(case["colour"] != [0, 0] or case["isospin"] > 0)


def partner_of(x):
    n = type(x).__name__
    if n == "ComplexScalar":
        return x.conj
    if n == "RealScalar":
        return x.swap_colour_indices()
    if n == "MajoranaFermion":
        return x.majorana_partner()
    return x.dirac_partner()


def data(f):
    return {
        "label": f.label,
        "indices": [str(i) for i in f.indices],
        "charges": {k: frac(v) for k, v in f.charges.items()},
        "conj": f.is_conj,
        "latex": f.latex,
        "class": type(f).__name__,
        "unbarred": getattr(f, "is_unbarred", None),
    }


@sub("partner", strategy=case_strategy, quick=600, thorough=10000)
def partner(case, rec):
    """partners of exotic fields, plain and conjugated; non-trivial: coloured or charged"""
    from neutrinomass.completions.core import cons_completion_field

    f, dyn = indexed(case)
    x = cons_completion_field(f)
    p = partner_of(x)
    q = partner_of(p)
    check(type(p) is type(x), lambda: f"partner of a {type(x).__name__} is a {type(p).__name__}")
    d, e = f.dynkin, p.dynkin
    if type(x).__name__ == "ComplexScalar":
        check(e == ref.conj_dynkin(d), lambda: f"partner of {x} has representation {e}")
    else:
        check(e == d[:2] + d[3] + d[2] + d[4], lambda: f"partner of {x} ({d}) has representation {e}: same spinor, conjugate colour expected")
    check(frac(p.charges["y"]) == -frac(x.charges["y"]), lambda: f"hypercharge of the partner of {x}: {p.charges}")
    if not real(case):
        check(frac(p.charges["3b"]) == -frac(x.charges["3b"]), lambda: f"baryon charge of the partner of {x} {x.charges}: {p.charges}")
        check(p.label != x.label, lambda: f"the partner of the complex field {x} has the same label")
    else:
        check(p.label == x.label, lambda: f"the partner of the real field {x} is called {p.label}")
    check(p.comm == x.comm and p.is_fermion == x.is_fermion and p.latex == x.latex, lambda: f"statistics or latex of the partner of {x}")
    low = lambda i: str(i).lstrip("-")
    check(sorted(map(low, p.indices)) == sorted(map(low, x.indices)), lambda: f"indices of the partner of {x}: {p.indices}")
    a, b = data(x), data(q)
    if real(case):
        a["charges"].pop("3b"), b["charges"].pop("3b")
    # grouped by kind in the partner: the order within each kind is what must come back
    order = lambda l: sorted(l, key=lambda s: (ref.kind(s.lower()),))
    a["indices"], b["indices"] = order(a["indices"]), order(b["indices"])
    check(a == b, lambda: f"partner of the partner: {a} became {b}")
    if not real(case) or case["b"] == 0:
        check(x == q and hash(x) == hash(q), lambda: f"partner of the partner of {x} compares unequal: {a} {b}")
    # conjugation and partnership are independent
    if type(x).__name__ == "VectorLikeDiracFermion":
        k = x.conj
        check(k.is_unbarred == x.is_unbarred and p.is_unbarred != x.is_unbarred, "barred flag")
        check(partner_of(k).dynkin == ref.conj_dynkin(e), lambda: f"partner of the conjugate of {x}: {partner_of(k)}")
        check(partner_of(k).label == p.conj.label, lambda: f"the partner of the conjugate of {x} is called {partner_of(k).label}, the conjugate of the partner {p.conj.label}")
        check(partner_of(k).field == p.conj.field and hash(partner_of(k).field) == hash(p.conj.field), lambda: f"the partner of the conjugate of {x} is another field than the conjugate of the partner")
        # the partner's conjugate is the partner of the conjugate, and its partner the conjugate itself
        for back, what in ((partner_of(p.conj), "of the conjugate"), (partner_of(p.conj_indices), "of the one with conjugate indices")):
            want = k if what == "of the conjugate" else x.conj_indices
            a, b = data(want), data(back)
            a["indices"], b["indices"] = order(a["indices"]), order(b["indices"])
            check(a == b, lambda: f"partner {what} of the partner of {x}: {b}, expected {a}")
    rec.label(type(x).__name__)
    rec.nontrivial(case["colour"] != [0, 0] or frac(case["y"]) != 0)


VARIANTS = {"plain": lambda x: x, "partner": partner_of, "conj": lambda x: x.conj, "conj of partner": lambda x: partner_of(x).conj}


@sub("lower", strategy=lambda: st.tuples(case_strategy(), st.sampled_from([[], ["Isospin"], ["Undotted", "Dotted"]]), st.sampled_from(sorted(VARIANTS))).map(list), quick=400, thorough=5000)
def lower(case, rec):
    """lowering the SU(2) indices of an exotic, its partner and their conjugates with epsilons, for each choice of kinds left alone"""
    from neutrinomass.completions.core import cons_completion_field

    case, skip, variant = case
    f, dyn = indexed(case)
    x = VARIANTS[variant](cons_completion_field(f))
    rec.label(variant)
    p, epsilons = x.lower_su2(skip=skip)
    before = data(x)
    kinds = {"Undotted": "u", "Dotted": "d", "Isospin": "i"}
    moved = [str(i) for i in x.indices if ref.kind(str(i).lower()) in [v for k, v in kinds.items() if k not in skip]]
    check(len(epsilons) == len(moved), lambda: f"{len(epsilons)} epsilons for {moved}")
    joined = {}
    for e in epsilons:
        a, b = [str(-i) for i in e.indices]
        check(ref.kind(a.lower()) == ref.kind(b.lower()), lambda: f"epsilon {e} joins different kinds")
        joined[b] = a
    check(sorted(joined) == sorted(moved), lambda: f"epsilons join {joined}, expected {moved}")
    want = [joined.get(str(i), str(i)) for i in x.indices]
    check([str(i) for i in p.indices] == want, lambda: f"indices {p.indices}, expected {want}")
    check(len(set(want)) == len(want) and not set(joined.values()) & set(map(str, x.indices)), "new index names clash")
    after = data(p)
    for k in before:
        if k != "indices":
            check(before[k] == after[k], lambda: f"lowering {x}: {k} changed from {before[k]} to {after[k]}")
    check(data(x) == before, "the field itself was changed")
    rec.nontrivial(bool(moved))


@sub("mass", strategy=lambda: case_strategy().filter(lambda c: sum(c["colour"]) + c["isospin"] <= 4), quick=250, thorough=4000)
def mass(case, rec):
    """mass terms of exotics: content, charges, numeric invariance under random group elements, nonvanishing;
    non-trivial: carries gauge indices"""
    from neutrinomass.completions.core import cons_completion_field

    f, dyn = indexed(case)
    x = cons_completion_field(f)
    m = x.mass_term
    fields = [t for t in m.tensors if hasattr(t, "label")]
    p = partner_of(x)
    got = sorted(t.label for t in fields)
    check(got == sorted([x.label, p.label]), lambda: f"mass term of {x} contains {got}")
    for t in fields:
        src = x if t.label == x.label else p
        check(t.dynkin in (x.dynkin, p.dynkin) and type(t) is type(x), lambda: f"{t} in the mass term of {x}")
        if not real(case):
            check(t.dynkin == src.dynkin and t.charges == src.charges, lambda: f"{t} in the mass term of {x}: {t.charges} {t.dynkin}")
    check(sum(frac(t.charges["y"]) for t in fields) == 0, lambda: f"hypercharge of the mass term {m}")
    if not real(case) or case["b"] == 0:
        check(sum(frac(t.charges["3b"]) for t in fields) == 0, lambda: f"baryon charge of the mass term {m}")
    check(not m.free_indices, lambda: f"mass term {m} has free indices {m.free_indices}")
    c03.invariant_value(m, "udci")
    p_ = c05.poly(m.tensors, None)
    check(bool(p_), lambda: f"mass term {m} of {type(x).__name__} {x} vanishes identically")
    check(m.safe_simplify() != 0, lambda: f"mass term {m} simplifies to zero")
    rec.label(type(x).__name__)
    rec.nontrivial(dyn[2:] != "000")
