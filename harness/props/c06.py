"""C06 operators survive storage unchanged"""
import pickle
from collections import Counter
from fractions import Fraction

import hypothesis.strategies as st
import numpy as np

from .. import gen, ref
from ..core import Discard, check, must, sub
from . import c05


def field_data(f):
    return {
        "label": f.label,
        "indices": [str(i) for i in f.indices],
        "heads": [(i.index_type, i.is_up) for i in f.indices],
        "dynkin": f.dynkin,
        "charges": {k: str(v) for k, v in f.charges.items()},
        "is_conj": f.is_conj,
        "comm": str(f.comm),
        "symmetry": [list(s) for s in f.symmetry],
        "nf": f.nf,
        "derivs": f.derivs,
        "latex": f.latex,
        "stripped": None if f.stripped is None else {k: str(v) for k, v in f.stripped.items()},
        "component": str(f.component.comm),
    }


def tensor_data(t):
    return (str(t).split("(")[0], tuple(str(i) for i in t.indices), tuple((i.index_type, i.is_up) for i in t.indices))


def derive(f, how):
    """apply one or two derivatives to an unindexed field"""
    from neutrinomass.tensormethod.core import D

    for u, d in how:
        a, b = f.dynkin_ints[0] + u, f.dynkin_ints[1] + d
        if a < 0 or b < 0:
            continue
        f = D(f, f"{a}{b}")
    return f


def deriv_case():
    sign = st.sampled_from([1, 1, 1, -1])
    return st.tuples(
        c05.op_case(4, classes=("field", "exotic")),
        st.lists(st.lists(st.tuples(sign, sign).map(list), max_size=2), min_size=4, max_size=4),
        st.lists(st.booleans(), min_size=4, max_size=4),
        st.lists(st.booleans(), min_size=4, max_size=4),
        st.sampled_from(gen.STYLES),
    ).map(list)


def make(case):
    from neutrinomass.completions.core import cons_completion_field
    from neutrinomass.tensormethod.core import Index

    base, hows, conj, subst, style = case
    fields = []
    n = 0
    for j, s in enumerate(base["fields"]):
        f = gen.build(s)
        if base["cls"] == "field":
            f = derive(f, hows[j])
        if sum(f.dynkin_ints) > 6:
            raise Discard()
        string, n = gen.index_string(f.dynkin, n, gen=j if f.nf > 1 and base["cls"] == "field" else None)
        x = f(gen.styled(string, style))
        if base["cls"] == "exotic":
            if not (f.is_scalar or f.is_left_fermion or f.is_right_fermion):
                raise Discard()
            x = cons_completion_field(x)
        if subst[j] and x.indices and x.indices[0].index_type != "Generation":
            # replaced indices are held as a list of Index objects
            old = x.indices[-1] if x.indices[-1].index_type != "Generation" else x.indices[-2]
            name = str(old).lstrip("-")
            new = Index(("-" if str(old).startswith("-") else "") + name[0] + str(100 + j))
            x = x.substituted_indices((old, new))
        if conj[j]:
            x = x.conj
        fields.append(x)
    tensors = c05.contract(base, fields)
    return c05.product_of(fields, tensors)


def roundtrip(op):
    from neutrinomass.tensormethod.core import Operator

    form = op.pickle_form()
    with must(f"pickling {form}"):
        loaded = pickle.loads(pickle.dumps(form))
    return form, Operator.from_pickle_form(loaded)


def same(op, new, what):
    a, b = [field_data(f) for f in op.indexed_fields], [field_data(f) for f in new.indexed_fields]
    check(len(a) == len(b), lambda: f"{what}: {len(a)} fields became {len(b)}")
    for x, y in zip(a, b):
        for k in x:
            check(x[k] == y[k], lambda: f"{what}: {x['label']} {x['indices']}: {k} was {x[k]!r}, is {y[k]!r} after storage")
    a, b = Counter(map(tensor_data, op.epsilons)), Counter(map(tensor_data, new.epsilons))
    check(a == b, lambda: f"{what}: invariant tensors were {a}, are {b}")
    f, g = sorted(map(str, op.free_indices)), sorted(map(str, new.free_indices))
    check(f == g, lambda: f"{what}: free indices {f} became {g}")


@sub("generated", strategy=deriv_case, quick=250, thorough=5000)
def generated(case, rec):
    """generated operators over SM, exotic and derivative fields, substituted and conjugated, with epsilons and deltas and
    free indices; non-trivial: has an invariant tensor and a field with a derivative, a lowered index or a substituted one"""
    op = make(case)
    form, new = roundtrip(op)
    same(op, new, str(op))
    form2, new2 = roundtrip(new)
    same(op, new2, f"{op} stored twice")
    if any(len(f.indices) for f in op.indexed_fields):
        s, t = op.safe_simplify(), new.safe_simplify()
        check(s == t, lambda: f"{op} simplifies to {s}, after storage to {t}")
        check(str(s) == str(t), lambda: f"{op} simplifies to {s}, after storage to {t}")
        # exotic field classes sort on the other side of the epsilons
        check(case[0]["cls"] == "exotic" or op.is_equivalent_to(new), lambda: f"{op} is not equivalent to its stored form {new}")
    lists = all(isinstance(f.index_labels, str) for f in op.indexed_fields)
    if case[0]["cls"] == "field" and lists:
        for f, g in zip(op.indexed_fields, new.indexed_fields):
            check(f == g and hash(f) == hash(g) and f.field == g.field, lambda: f"{f} != {g} after storage")
    rec.label(*(["derivative"] if any(f.derivs for f in op.fields) else []), *{str(e).split("(")[0] for e in op.epsilons}, case[0]["cls"])
    rec.nontrivial(bool(op.epsilons) and (any(f.derivs for f in op.fields) or not lists or any(ref.is_down(i) for f in op.indexed_fields for i in f.indices)))


def catalogue(tier):
    from neutrinomass.completions import DERIV_EFF_OPERATORS, EFF_OPERATORS

    return [["E", k] for k in EFF_OPERATORS] + [["D", k] for k in DERIV_EFF_OPERATORS]


#: field content of the unprimed operators, from the published tables (Babu-Leung / de Gouvea-Jenkins numbering)
CONTENT = {
    "1": "LLHH", "2": "LLL e H", "3": "LLQ d H", "4": "LLQ. u. H", "5": "LLQ d HHH.", "6": "LLQ. u. HHH.", "7": "LQ e.Q.HHH",
    "8": "L e. u. d H", "9": "LLL e L e", "10": "LLL e Q d", "11": "LLQ d Q d", "12": "LLQ. u. Q. u.", "13": "LLQ. u. L e",
    "14": "LLQ. u. Q d", "15": "LLL d L. u.", "16": "LL e d e. u.", "17": "LL d d d. u.", "18": "LL d u u. u.", "19": "LQ d d e. u.",
    "20": "L d Q. u. e. u.",
}


def content(text):
    out = Counter()
    for ch in text.replace(" ", ""):
        if ch == ".":
            last_key = (last, False)
            out[last_key] -= 1
            out[(last, True)] += 1
        else:
            last = ch
            out[(ch, False)] += 1
    return +out


@sub("catalogue", cases=catalogue, quick=243, thorough=243)
def shipped(case, rec):
    """every shipped operator: content, charges, isospin singlet, does not vanish, storage round trip"""
    from neutrinomass.completions import DERIV_EFF_OPERATORS, EFF_OPERATORS

    which, name = case
    table = EFF_OPERATORS if which == "E" else DERIV_EFF_OPERATORS
    eff = table[name]
    check(eff.name == name, lambda: f"operator {name} is called {eff.name}")
    op = eff.operator
    y = b = l = Fraction(0)
    dim = Fraction(0)
    derivs = 0
    counts = Counter()
    for f in op.indexed_fields:
        base = f.label.replace("†", "").lstrip("D")
        check(base in ref.SM, lambda: f"{name}: unknown field {f.label}")
        d, fy, fb, fermion, nf, fl = ref.SM[base]
        nd = len(f.label.replace("†", "")) - len(base)
        s = -1 if "†" in f.label else 1
        check(f.is_conj == (s < 0), lambda: f"{name}: {f} conj flag {f.is_conj}")
        check(ref.frac(f.charges["y"]) == s * fy and ref.frac(f.charges["3b"]) == s * fb, lambda: f"{name}: {f} charges {f.charges}")
        dd = ref.conj_dynkin(d) if s < 0 else d
        check(f.dynkin[2:] == dd[2:], lambda: f"{name}: {f} dynkin {f.dynkin}")
        check(f.derivs == nd, lambda: f"{name}: {f} derivs {f.derivs}")
        lor = [int(f.dynkin[0]) - int(dd[0]), int(f.dynkin[1]) - int(dd[1])]
        check(all(abs(x) <= nd and (x - nd) % 2 == 0 for x in lor), lambda: f"{name}: {f} lorentz irrep")
        check(str(f.comm) == ("fermi" if fermion else "bose"), lambda: f"{name}: {f} statistics {f.comm}")
        check(f.nf == nf, lambda: f"{name}: {f} generations {f.nf}")
        y += s * fy
        b += s * fb
        l += s * fl
        derivs += nd
        dim += (Fraction(3, 2) if fermion else 1) + nd
        counts[(base[0], s < 0)] += 1
    check(y == 0, lambda: f"{name}: hypercharge {y}")
    check(abs(l) == 2, lambda: f"{name}: lepton number {l}")
    check(b == 0, lambda: f"{name}: baryon number {b}")
    check(dim == eff.mass_dimension and dim.denominator == 1 and int(dim) % 2 == 1, lambda: f"{name}: dimension {dim}, reported {eff.mass_dimension}")
    n_s = sum(1 for f in op.indexed_fields if int(f.dynkin[0]) + int(f.dynkin[1]) == 0 or f.is_boson)
    check(eff.topology_type == {"n_scalars": n_s, "n_fermions": len(op.indexed_fields) - n_s}, lambda: f"{name}: {eff.topology_type}")
    num = "".join(c for c in name.lstrip("D") if c.isdigit())
    if which == "E" and "p" not in name and num in CONTENT:
        want = content(CONTENT[num])
        conj = Counter({(k, not c): v for (k, c), v in want.items()})
        check(counts in (want, conj), lambda: f"{name}: content {counts}, expected {want}")
        rec.label("tabulated")
    if which == "E" and "p" not in name and int(num) <= 76:
        from neutrinomass.tensormethod.lnv import bl_list

        mine = sorted(f.label.replace("†", "") + (".conj" if "†" in f.label else "") for f in op.indexed_fields)
        found = {n for fs, n in bl_list.items() if sorted(fs) == mine}
        check(found == {int(num)}, lambda: f"{name}: {mine} is listed as operator {found}")
    # isospin singlet, numerically; nonzero
    free = {ref.kind(i) for i in op.free_indices}
    check("i" not in free, lambda: f"{name}: free isospin index in {op}")
    from .c03 import invariant_value

    invariant_value(op, "i", trials=1)
    form, new = roundtrip(op)
    same(op, new, name)
    s, t = op.simplify(), new.simplify()
    check(s != 0, lambda: f"{name} vanishes")
    check(s == t, lambda: f"{name}: {s} != {t}")
    rec.nontrivial()
