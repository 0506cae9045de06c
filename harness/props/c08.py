"""C08 Hilbert-series terms are translated into exactly their field content"""
import itertools
from collections import Counter
from fractions import Fraction

import hypothesis.strategies as st

from .. import ref
from ..core import Discard, check, sub

NAMES = ["L", "Ld", "H", "Hd", "Q", "Qd", "eb", "ebd", "ub", "ubd", "db", "dbd", "G", "Gb", "W", "Wb", "B", "Bb"]
COMMON = ["L", "Ld", "H", "Hd", "Q", "Qd", "eb", "ebd", "ub", "ubd", "db", "dbd"]


def base_of(name):
    """(SM label, conjugated) of a Hilbert-series symbol"""
    if name in ref.SM:
        return name, False
    assert name.endswith("d") and name[:-1] in ref.SM
    return name[:-1], True


def reps(lor, fermion, n):
    """Lorentz labels that n derivatives can produce by the stated rule"""
    out = {lor}
    steps = [(1, 1), (-1, 1), (1, -1)] if fermion else [(1, 1), (-1, -1)]
    for _ in range(n):
        out = {(u + a, d + b) for u, d in out for a, b in steps if u + a >= 0 and d + b >= 0}
    return out


def reference(term):
    """term: {"fields": {name: power}, "d": n} -> set of multisets of (label, conj, derivs, lorentz)"""
    occ = [n for n, k in sorted(term["fields"].items()) for _ in range(k)]
    out = set()
    for split in splits(term["d"], len(occ)):
        choices = []
        for name, n in zip(occ, split):
            label, conj = base_of(name)
            d, _, _, fermion, _, _ = ref.SM[label]
            d = ref.conj_dynkin(d) if conj else d
            choices.append([(label, conj, n, r) for r in sorted(reps((int(d[0]), int(d[1])), fermion, n))])
        for c in itertools.product(*choices):
            out.add(tuple(sorted(c)))
    return out


def splits(n, k):
    if k == 1:
        yield (n,)
        return
    for a in range(n + 1):
        for rest in splits(n - a, k - 1):
            yield (a, *rest)


def read(field, ctx):
    """the observed field as (label, conj, derivs, lorentz), its other data compared with the table"""
    label = field.label
    n = len(label) - len(label.lstrip("D"))
    base = label.lstrip("D")
    check(base in ref.SM, lambda: f"{ctx}: unknown field {label}")
    d, y, b, fermion, nf, _ = ref.SM[base]
    s = -1 if field.is_conj else 1
    dd = ref.conj_dynkin(d) if field.is_conj else d
    check(field.derivs == n, lambda: f"{ctx}: {field} has derivs={field.derivs}")
    check(field.dynkin[2:] == dd[2:], lambda: f"{ctx}: {field} gauge representation")
    check(ref.frac(field.y) == s * y and ref.frac(field.charges["3b"]) == s * b, lambda: f"{ctx}: {field} charges {field.charges}")
    check(str(field.comm) == ("fermi" if fermion else "bose") and field.nf == nf, lambda: f"{ctx}: {field} statistics or generations")
    return (base, bool(field.is_conj), n, tuple(field.lorentz_irrep))


def symbolic(term):
    from neutrinomass.tensormethod import hs
    from sympy import Rational

    out = Rational(term["c"])
    for n, k in term["fields"].items():
        out *= getattr(hs, n)(hs.X) ** k
    return out * hs.D ** term["d"]


def compare(got, want, ctx):
    seen = set()
    check(isinstance(got, list), lambda: f"{ctx}: parsed to {got}")
    for lst in got:
        check(isinstance(lst, (list, tuple)), lambda: f"{ctx}: entry {lst} is not a list of fields")
        key = tuple(sorted(read(f, ctx) for f in lst))
        check(key in want, lambda: f"{ctx}: unexpected field list {key}")
        seen.add(key)
    check(seen == want, lambda: f"{ctx}: missing {sorted(want - seen)[:3]}")


def term(max_d=3):
    return (
        st.tuples(
            st.dictionaries(st.one_of(st.sampled_from(COMMON), st.sampled_from(NAMES)), st.sampled_from([1, 1, 1, 2, 2, 3, 4]), min_size=1, max_size=4),
            st.sampled_from([0, 0, 1, 1, 2, 2, 3, 4][: 4 + 2 * max_d - 2]),
            st.sampled_from(["1", "1", "-1", "2", "3/2", "-5", "1/24"]),
        )
        .map(lambda t: {"fields": t[0], "d": t[1], "c": t[2]})
        .filter(lambda t: 2 <= sum(t["fields"].values()) <= (8 if t["d"] <= 1 else 5 if t["d"] <= 3 else 4))
    )


@sub("single", strategy=lambda: term(3), quick=250, thorough=3000)
def single(case, rec):
    """one term, wrapped in a list; non-trivial: has a derivative and a repeated field"""
    from neutrinomass.tensormethod.parse_hs import parse

    expr = symbolic(case)
    compare(parse([expr]), reference(case), str(expr))
    rec.label(f"D^{case['d']}", f"fields={sum(case['fields'].values())}")
    rec.nontrivial(case["d"] > 0 and max(case["fields"].values()) > 1)


@sub("series", strategy=lambda: st.lists(term(2), min_size=2, max_size=5), quick=120, thorough=1500)
def series(case, rec):
    """sums of terms of different content; non-trivial: terms with different powers of D"""
    from neutrinomass.tensormethod.parse_hs import parse
    from sympy import Add

    keys = [(tuple(sorted(t["fields"].items())), t["d"]) for t in case]
    if len(set(keys)) < len(keys):
        raise Discard()
    want = set()
    for t in case:
        want |= reference(t)
    expr = Add(*[symbolic(t) for t in case])
    compare(parse(expr), want, str(expr))
    rec.nontrivial(len({t["d"] for t in case}) > 1)


def shipped(tier):
    return ["H6", "H7_LNV", "H9_LNV", "H11_LNV", "deriv_operator_names"]


@sub("shipped", cases=shipped, quick=5, thorough=5)
def shipped_series(case, rec):
    """the shipped series: every term of each (Nf = 3) and every named derivative operator"""
    from neutrinomass.tensormethod import deriv_operators, hs, parse_hs
    from sympy import Add, Mul

    if case == "deriv_operator_names":
        for k, e in deriv_operators.deriv_operator_names.items():
            t = read_term(e)
            if t["d"] <= 3:
                compare(parse_hs.parse([e]), reference(t), k)
        rec.nontrivial()
        return
    raw = getattr(hs, case)
    terms = list(raw) if isinstance(raw, tuple) else list(Add.make_args(raw.xreplace({hs.Nf: 3})))
    if case != "H6":
        parsed = getattr(parse_hs, case + "_NF3")
        check(sorted(map(str, Add.make_args(parsed))) == sorted(map(str, terms)), "series with three generations differs")
    want = set()
    for e in terms:
        want |= reference(read_term(e))
    compare(parse_hs.parse(Add(*terms)), want, case)
    for lst in [] if case == "H6" else want:
        l = sum((-1 if conj else 1) * ref.SM[lab][5] for lab, conj, _, _ in lst)
        check(abs(l) == 2, lambda: f"{case}: {lst} has lepton number {l}")
    rec.nontrivial()


def read_term(e):
    from sympy import Mul

    fields, d = {}, 0
    for f in Mul.make_args(e):
        base, power = f.as_base_exp()
        if str(base) == "D":
            d = int(power)
        elif base.is_Function:
            fields[base.func.__name__] = int(power)
    return {"fields": fields, "d": d}


@sub("possibilities", strategy=lambda: st.tuples(st.sampled_from(list(ref.SM)), st.booleans(), st.integers(0, 4)).map(list), quick=150, thorough=300)
def possibilities(case, rec):
    """deriv_possibilities on one field: representations, labels and removability"""
    from neutrinomass.tensormethod.parse_hs import deriv_possibilities

    from .. import gen

    label, conj, n = case
    f = gen.build(["sm", label, conj])
    got = deriv_possibilities(f, n)
    d, _, _, fermion, _, _ = ref.SM[label]
    d = ref.conj_dynkin(d) if conj else d
    want = {(label, conj, n, r) for r in reps((int(d[0]), int(d[1])), fermion, n)}
    have = {read(g, str(case)) for g in got}
    check(have == want, lambda: f"{n} derivatives of {f}: {have}, expected {want}")
    rec.nontrivial(n > 0)
