"""C31 lists of field strings and operators, and classification of operators"""
import contextlib
import io
from collections import Counter
from fractions import Fraction
from functools import lru_cache
from itertools import combinations_with_replacement

import hypothesis.strategies as st

from .. import comps, dbs, gen, ref
from ..core import Discard, check, sub

SM = ["L", "Q", "H", "eb", "ub", "db"]
LEPTON = {"L": 1, "eb": -1}


def quantum(spec):
    """(key, dynkin, y, 3b, lepton number, mass dimension) of a field"""
    if spec[0] == "sm":
        d, y, b, fermion, nf, _ = ref.SM[spec[1]]
        l = LEPTON.get(spec[1], 0)
    else:
        _, label, d, y, b, l, _ = spec
        fermion = (int(d[0]) + int(d[1])) % 2 == 1
    conj = spec[-1]
    if conj:
        d, y, b, l = ref.conj_dynkin(d), -Fraction(y), -Fraction(b), -l
    name = (spec[1], bool(conj))
    return name, d, Fraction(y), Fraction(b), l, Fraction(3, 2) if fermion else Fraction(1)


def conj(q):
    (label, c), d, y, b, l, dim = q
    return (label, not c), ref.conj_dynkin(d), -y, -b, -l, dim


def built(spec, lepton):
    from neutrinomass.tensormethod import sm, smeft
    from neutrinomass.tensormethod.core import Field

    if spec[0] == "sm":
        f = getattr(smeft if lepton == "L" else sm, spec[1])
    else:
        _, label, d, y, b, l, _ = spec
        f = Field(label, d, charges={"y": y, "3b": b, lepton: l})
    return f.conj if spec[-1] else f


@st.composite
def exotic(draw):
    label = draw(st.sampled_from(["φ", "η", "ψ", "χ"]))
    lorentz = draw(st.sampled_from(["00", "11"] if label in "φη" else ["10", "01"]))
    colour = draw(st.sampled_from(["00", "00", "10", "01", "11"]))
    iso = draw(st.integers(0, 2))
    y = draw(st.sampled_from(["0", "1/3", "1/2", "-1/2", "1", "-2/3", "1/6"]))
    b = draw(st.integers(-2, 2))
    l = draw(st.integers(-1, 1))
    return ["x", label, f"{lorentz}{colour}{iso}", y, b, l, False]


@st.composite
def fields(draw, most):
    """different fields, no two of which are conjugates"""
    names = draw(st.lists(st.sampled_from(SM), min_size=1, max_size=most, unique=True))
    out = [["sm", n, draw(st.integers(0, 3)) == 0] for n in names]
    if draw(st.integers(0, 2)) == 0:
        out[draw(st.integers(0, len(out) - 1))] = draw(exotic())
    return draw(st.permutations(out))


def terms(prod):
    """the fields multiplied in a product"""
    from neutrinomass.tensormethod.core import Prod

    out = []
    p = prod.walked()
    while True:
        irrep, left, right = p
        out.append(right)
        if not isinstance(left, Prod):
            out.append(left)
            return out
        p = left


def expected(combo):
    d = [q[1] for q in combo]
    return ref.n_singlets(d) if sum(q[2] for q in combo) == 0 else 0


def found(prods, lepton):
    """multiset of field strings; the product is the neutral singlet with the summed charges"""
    out = Counter()
    for p in prods:
        fs = terms(p)
        check(p.dynkin == "00000" and Fraction(str(p.y)) == 0, lambda: f"{fs} is listed with quantum numbers {p.dynkin}, {p.y}")
        for k in ("3b", lepton):
            want = sum(Fraction(str(f.charges[k])) for f in fs)
            check(Fraction(str(p.charges[k])) == want, lambda: f"{fs} has {k} charge {p.charges[k]} instead of {want}")
        out[tuple(sorted((f.label, bool(f.is_conj)) for f in fs))] += 1
    return out


def charges_right(prods, quanta, lepton):
    """every field of the list carries the charges of the field it names"""
    known = {q[0]: q for q in quanta}
    for p in prods:
        for f in terms(p):
            if f.label == "D":
                check(all(Fraction(str(v)) == 0 for v in f.charges.values()), lambda: f"a derivative carries {f.charges}")
                continue
            q = known[(f.label, bool(f.is_conj))]
            got = (f.dynkin, Fraction(str(f.y)), Fraction(str(f.charges["3b"])), Fraction(str(f.charges[lepton])))
            check(got == q[1:5], lambda: f"{f.label} (conjugate: {f.is_conj}) is listed with {got} instead of {q[1:5]}")


FUNCS = {
    "all": (lambda c: True, None),
    "lepton number two": (lambda c: abs(sum(q[4] for q in c)) == 2, lambda c: abs(sum(f.charges["l"] for f in c)) == 2),
    "lepton number conserved": (lambda c: sum(q[4] for q in c) == 0, lambda c: sum(f.charges["l"] for f in c) == 0),
    "baryon number violated": (lambda c: sum(q[3] for q in c) != 0, lambda c: sum(f.charges["3b"] for f in c) != 0),
    "without conjugates": (lambda c: not any(q[0][1] for q in c), lambda c: not any(f.is_conj for f in c)),
    "different": (lambda c: len({q[0] for q in c}) == len(c), lambda c: len({(f.label, f.is_conj) for f in c}) == len(c)),
    "none": (lambda c: False, lambda c: False),
}
@lru_cache(maxsize=None)
def tree_size(dynkin, n):
    """number of irreps, with multiplicity, in the n-fold product of a representation"""
    return sum(ref.product([dynkin] * n).values())


def small(case, most, derivs=False):
    """no product of that many fields has more than a few hundred terms"""
    return all(tree_size(quantum(s)[1], most) <= 400 for s in case) and (not derivs or most <= 5)


DERIVATIVE = (("D", False), "11000", Fraction(0), Fraction(0), 0, Fraction(1))


def everything(quanta, n, derivs):
    pool = quanta + ([DERIVATIVE] if derivs else []) + [conj(q) for q in quanta]
    return pool, combinations_with_replacement(pool, n)


@st.composite
def npoint_case(draw):
    fs = draw(fields(4))
    most = {1: 6, 2: 5, 3: 4, 4: 4}[len(fs)]
    return [fs, draw(st.integers(2, most)), draw(st.booleans()), draw(st.sampled_from(sorted(FUNCS)))]


def same_strings(got, want, what):
    missing, extra = want - got, got - want
    check(not missing, lambda: f"{what} lacks {sorted(missing.items())[:4]}")
    check(not extra, lambda: f"{what} lists {sorted(extra.items())[:4]}")


@sub("npoint", strategy=lambda: npoint_case().filter(lambda c: small(c[0], c[1], c[2])), quick=100, thorough=2500, budget=(20, 300))
def npoint(case, rec):
    """the n-point field strings are exactly the accepted combinations with a neutral singlet, each once; non-trivial: at least two strings, or a selection function that drops some"""
    from neutrinomass.tensormethod.lagrangian import npoint_fieldstrings

    specs, n, derivs, which = case
    quanta = [quantum(s) for s in specs]
    ours, theirs = FUNCS[which]
    pool, combos = everything(quanta, n, derivs)
    want, dropped = Counter(), 0
    for c in combos:
        if expected(c):
            if ours(c):
                want[tuple(sorted(q[0] for q in c))] += 1
            else:
                dropped += 1
    prods = npoint_fieldstrings(n, tuple(built(s, "l") for s in specs), derivs=derivs, func=theirs)
    charges_right(prods, pool, "l")
    same_strings(found(prods, "l"), want, f"the list of {n}-point strings of {[q[0] for q in quanta]} ({which}{', derivatives' if derivs else ''})")
    rec.label(f"{which}, {n} fields" + (", derivatives" if derivs else ""))
    rec.label("with exotic" if any(s[0] == "x" for s in specs) else "only standard fields")
    if sum(want.values()) >= 2 or dropped:
        rec.nontrivial()


@st.composite
def strings_case(draw):
    fs = draw(fields(3))
    return [fs, draw(st.integers(2, {1: 5, 2: 5, 3: 4}[len(fs)])), draw(st.booleans())]


@sub("dimension", strategy=lambda: strings_case().filter(lambda c: small(c[0], c[1], c[2])), quick=40, thorough=1000, budget=(20, 300))
def dimension(case, rec):
    """the field strings up to a mass dimension are exactly those of two fields or more that are not above it; non-trivial: some, and some combinations are too heavy"""
    from neutrinomass.tensormethod.lagrangian import generate_fieldstrings

    specs, most, derivs = case
    quanta = [quantum(s) for s in specs]
    want, heavy = Counter(), 0
    for n in range(2, most + 1):
        pool, combos = everything(quanta, n, derivs)
        for c in combos:
            if not expected(c):
                continue
            if sum(q[5] for q in c) <= most:
                want[tuple(sorted(q[0] for q in c))] += 1
            else:
                heavy += 1
    prods = generate_fieldstrings(most, tuple(built(s, "l") for s in specs), derivs=derivs)
    charges_right(prods, pool, "l")
    same_strings(found(prods, "l"), want, f"the list of strings of {[q[0] for q in quanta]} up to dimension {most}{' with derivatives' if derivs else ''}")
    rec.label(f"dimension {most}" + (", derivatives" if derivs else ""))
    if want and heavy:
        rec.nontrivial()


@st.composite
def smeft_case(draw):
    names = draw(st.lists(st.sampled_from(SM), min_size=1, max_size=4, unique=True))
    out = []
    for n in names:
        which = draw(st.integers(0, 3))
        out += [["sm", n, False]] if which == 0 else [["sm", n, True]] if which == 1 else [["sm", n, False], ["sm", n, True]]
    out = out[:5]
    if draw(st.integers(0, 3)) == 0:
        x = draw(exotic())
        out[draw(st.integers(0, len(out) - 1))] = x
    return [draw(st.permutations(out)), draw(st.integers(2, {1: 7, 2: 6, 3: 6, 4: 5, 5: 5}[len(out)]))]


@sub("operators", strategy=lambda: smeft_case().filter(lambda c: small(c[0], c[1])), quick=100, thorough=2500, budget=(20, 300))
def operators(case, rec):
    """the generated operators are exactly the singlets in the products of the given fields up to the dimension, one per independent contraction of the representations; non-trivial: at least two, and something too heavy"""
    from neutrinomass.tensormethod.smeft import generate_operators

    specs, most = case
    quanta = [quantum(s) for s in specs]
    want, heavy = Counter(), 0
    for n in range(2, most + 1):
        for c in combinations_with_replacement(quanta, n):
            k = expected(c)
            if not k:
                continue
            if sum(q[5] for q in c) <= most:
                want[tuple(sorted(q[0] for q in c))] += k
            else:
                heavy += 1
    with contextlib.redirect_stdout(io.StringIO()):
        prods = generate_operators(most, [built(s, "L") for s in specs], verbose=len(specs) % 2 == 0)
    charges_right(prods, quanta, "L")
    same_strings(found(prods, "L"), want, f"the list of operators of {[q[0] for q in quanta]} up to dimension {most}")
    rec.label(f"dimension {most}")
    if sum(want.values()) >= 2 and heavy:
        rec.nontrivial()


# ------------------------------------------------------------------ classification and dimension of operators


def table():
    from neutrinomass.tensormethod.lnv import bl_list

    return {tuple(sorted(k)): v for k, v in bl_list.items()}


@st.composite
def content_case(draw):
    """fields of an operator: an entry of the table, possibly with a field replaced, dropped or conjugated"""
    entries = sorted(table())
    content = list(draw(st.sampled_from(entries)))
    change = draw(st.sampled_from(["none", "none", "conjugate one", "conjugate all", "replace", "swap", "extend"]))
    flip = lambda x: x[:-5] if x.endswith(".conj") else x + ".conj"
    if change == "conjugate one":
        k = draw(st.integers(0, len(content) - 1))
        content[k] = flip(content[k])
    elif change == "conjugate all":
        content = [flip(x) for x in content]
    elif change == "replace":
        content[draw(st.integers(0, len(content) - 1))] = draw(st.sampled_from(SM))
    elif change == "swap":
        content = list(draw(st.sampled_from(entries)))
        k = draw(st.integers(0, len(content) - 1))
        content[k] = content[0]
    elif change == "extend":
        content += ["H", "H.conj"]
    content = draw(st.permutations(content))
    derivative = draw(st.integers(0, len(content) - 1)) if draw(st.integers(0, 4)) == 0 else None
    return [content, derivative, draw(st.booleans()), change]


@sub("classification", strategy=content_case, quick=250, thorough=8000, budget=(15, 200))
def classification(case, rec):
    """an operator's number and mass dimension follow from its field content, whatever the order of the fields and whether indices are contracted; non-trivial: the content is in the table, or is one field away from an entry"""
    from neutrinomass.completions.core import EffectiveOperator
    from neutrinomass.tensormethod import sm
    from neutrinomass.tensormethod.core import D, eps

    content, derivative, contracted, change = case
    op, n, isospin = None, 0, []
    for k, name in enumerate(content):
        label, c = name.split(".")[0], name.endswith(".conj")
        f = getattr(sm, label)
        f = f.conj if c else f
        if k == derivative:
            u, d = map(int, f.dynkin[:2])
            f = D(f, f"{1 - u}{1 - d}")
        text, n = gen.index_string(f.dynkin, n, gen=None)
        # generation index where there is one
        x = f(text + (f" g{k}" if f.nf > 1 else ""))
        isospin += [str(i) for i in x.indices if ref.kind(i) == "i"]
        op = x if op is None else op * x
    if contracted:
        for a, b in zip(isospin[::2], isospin[1::2]):
            op = op * eps(f"-{a} -{b}")
    want = -1 if derivative is not None else table().get(tuple(sorted(content)), -1)
    check(op.BL_classification == want, lambda: f"the operator with content {content} (derivative of field {derivative}) is number {op.BL_classification} instead of {want}")
    dim = sum(1 if name.split(".")[0] == "H" else Fraction(3, 2) for name in content) + (derivative is not None)
    check(op.mass_dim == dim, lambda: f"{op} has mass dimension {op.mass_dim} instead of {dim}")
    if dim.denominator == 1:
        check(EffectiveOperator("x", op).mass_dimension == dim, lambda: f"the effective operator {op} has mass dimension {EffectiveOperator('x', op).mass_dimension} instead of {dim}")
    rec.label(change + (", derivative" if derivative is not None else "") + (": tabulated" if want != -1 else ""))
    rec.nontrivial()


@sub("catalogue", cases=lambda tier: [["all"]], single=True)
def catalogue(case, rec):
    """no two entries of the table share a number, and every operator of the catalogue named by a plain number of the table has that number; non-trivial: every run"""
    entries = table()
    from neutrinomass.tensormethod.lnv import BL_LIST

    check(dict(BL_LIST) == entries, "the sorted table differs from the table")
    check(len(set(entries.values())) == len(entries), "two field contents share a number")
    for content, number in entries.items():
        q = [(ref.SM[x.split(".")[0]], x.endswith(".conj")) for x in content]
        y = sum(-Fraction(f[1]) if c else Fraction(f[1]) for f, c in q)
        l = sum((-1 if c else 1) * LEPTON.get(x.split(".")[0], 0) for x, (f, c) in zip(content, q))
        irreps = [ref.conj_dynkin(f[0]) if c else f[0] for f, c in q]
        check(y == 0 and abs(l) == 2 and ref.n_singlets(irreps) > 0, lambda: f"entry {number} of the table, {content}, is not a singlet with lepton number two")
    ops = comps.catalogue()
    n = 0
    for name in comps.names():
        op = ops[name].operator
        if not name.isdigit() and not (name[:-1].isdigit() and name[-1] in "abcdef"):
            continue
        number = int(name.rstrip("abcdef"))
        content = tuple(sorted(f.label + (".conj" if f.is_conj else "") for f in ops[name].fields))
        want = entries.get(content, -1)
        check(op.BL_classification == want, lambda: f"{name} is classified as {op.BL_classification} instead of {want}")
        if number in entries.values():
            check(want == number, lambda: f"{name} is classified as {want}")
        n += 1
    check(n > 50, "the catalogue lost its numbered operators")
    rec.nontrivial()
