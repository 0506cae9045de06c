"""Shared helpers around the model database: field and interaction labels, generated models and databases."""

from collections import Counter
from fractions import Fraction

import hypothesis.strategies as st

SM = ["L", "Q", "ub", "db", "eb", "H"]

# small universe of exotic labels, so that models overlap
EXOTICS = [
    "S,00,0,1,0", "S,00,0,0,0", "F,00,0,0,0", "F,00,2,0,0", "S,00,2,1,0", "S,10,0,1/3,1", "S,01,0,1/3,-1", "S,10,0,-1/3,1",
    "F,10,0,-1/3,1", "S,10,0,0,0", "S,11,0,0,0", "F,20,1,1/6,2", "S,00,1,1/2,0", "F,00,1,1/2,0", "S,10,1,1/6,1", "S,10,1,1/6,-2", "S,00,0,2,0",
]


def conj_label(s):
    """label of the conjugate field"""
    if "," not in s:
        return s[: -len(".conj")] if s.endswith(".conj") else s + ".conj"
    lor, col, iso, y, b = s.split(",")
    return ",".join([lor, col[1] + col[0], iso, str(-Fraction(y)), str(-Fraction(b))])


def conj_term(t):
    return tuple(sorted(map(conj_label, t)))


def field_class(s):
    return min(s, conj_label(s))


def term_class(t):
    t = tuple(sorted(t))
    return min(t, conj_term(t))


def lazy(op, fields, terms, tail="None", topology="2s2f_1"):
    from neutrinomass.database.database import LazyCompletion

    head = {"quantum_numbers": list(fields), "operator_name": op, "terms": [tuple(t) for t in terms], "topology": topology}
    return LazyCompletion(head=head, tail=tail)


def exotic_label():
    made = st.tuples(
        st.sampled_from("SF"), st.sampled_from(["00", "10", "01", "11", "20", "02", "21", "12"]), st.integers(0, 3).map(str),
        st.builds(Fraction, st.integers(-12, 12), st.sampled_from([1, 2, 3, 6])).map(str), st.integers(-3, 3).map(str),
    ).map(",".join)
    small = st.tuples(st.sampled_from(EXOTICS), st.booleans()).map(lambda t: conj_label(t[0]) if t[1] else t[0])
    return st.one_of(small, made)


def sm_label():
    return st.tuples(st.sampled_from(SM), st.sampled_from(["", ".conj"])).map("".join)


def small_label():
    return st.tuples(st.sampled_from(EXOTICS[:9]), st.booleans()).map(lambda t: conj_label(t[0]) if t[1] else t[0])


def distinct_by(key, xs):
    seen, out = set(), []
    for x in xs:
        if key(x) not in seen:
            seen.add(key(x))
            out.append(x)
    return out


def term(label=None):
    """sorted or not, as read from a file"""
    return st.lists(st.one_of(label or small_label(), sm_label()), min_size=2, max_size=4)


def model_spec(max_fields=4, max_terms=4):
    """[fields distinct up to conjugation, interactions distinct up to conjugation]"""
    fields = st.lists(small_label(), max_size=max_fields).map(lambda xs: distinct_by(field_class, xs))
    few = [["L", "L", "S,00,0,1,0"], ["H", "L", "F,00,0,0,0"], ["S,00,0,-1,0", "H", "H"], ["H", "H.conj", "S,00,0,0,0"], ["Q", "L", "S,01,0,1/3,-1"]]
    flipped = st.tuples(st.sampled_from(few), st.booleans(), st.permutations([0, 1, 2])).map(
        lambda t: [(conj_label(t[0][k]) if t[1] else t[0][k]) for k in t[2]]
    )
    terms = st.lists(st.one_of(flipped, flipped, term()), max_size=max_terms).map(lambda ts: distinct_by(term_class, ts))
    return st.tuples(fields, terms).map(list)


# ------------------------------------------------------------------ operators of SM, derivative and exotic fields


def field_spec(exotics=True, derivs=True):
    sm = st.tuples(st.just("sm"), st.sampled_from(SM), st.booleans()).map(list)
    der = st.tuples(st.just("d"), st.sampled_from(SM), st.booleans()).map(list)
    exo = st.tuples(
        st.just("x"), st.sampled_from(["φ", "η", "S0", "σ", "ψ", "χ", "θ", "ζ", "f1"]),
        st.sampled_from(["00000", "00001", "00002", "00100", "00010", "00101", "00110", "00200", "10000", "10001", "10100", "01011", "01000", "10002", "10110"]),
        st.sampled_from(["0", "1", "-1", "1/2", "-1/3", "2/3", "-5/6"]), st.integers(-2, 2),
        st.booleans(), st.sampled_from([None, None, None, "\\nu", "\\bar{\\psi}", "\\theta_{1}", "\\xi", "X'"]), st.booleans(),
    ).map(list)
    return st.one_of(*([sm, sm] + ([der] if derivs else []) + ([exo, exo] if exotics else [])))


def build_field(spec, names):
    """indexed field; names(kind) gives a new index name"""
    from neutrinomass.completions.core import cons_completion_field
    from neutrinomass.tensormethod import sm
    from neutrinomass.tensormethod.core import D, Field

    kind, label = spec[:2]
    if kind in ("sm", "d"):
        f = getattr(sm, label)
        f = f.conj if spec[2] else f
        if kind == "d":
            u, d = map(int, f.dynkin[:2])
            f = D(f, "11" if u + d == 0 else ("01" if u else "10"))
    else:
        _, label, dynkin, y, b, conj, latex, barred = spec
        f = Field(label, dynkin, charges={"y": Fraction_(y), "3b": b}, latex=latex)
        f = f.conj if conj else f
    u, d, cu, cd, i = map(int, f.dynkin)
    idx = [names("u") for _ in range(u)] + [names("d") for _ in range(d)]
    idx += [names("c") for _ in range(cu)] + ["-" + names("c") for _ in range(cd)] + [names("i") for _ in range(i)]
    if kind != "x" and f.nf > 1:
        idx.append(names("g"))
    out = f(" ".join(idx))
    if kind == "x":
        out = cons_completion_field(out)
        if barred and hasattr(out, "dirac_partner"):
            out = out.dirac_partner()
    return out


def Fraction_(y):
    import sympy

    return sympy.Rational(y)


def random_operator(specs, seed):
    """these fields with randomly contracted indices; some indices may stay free"""
    import random
    from functools import reduce

    from neutrinomass.tensormethod.core import delta, eps

    r = random.Random(seed)
    count = Counter()
    used = {k: r.sample(range(40), 40) for k in "udcig"}

    def names(kind):
        count[kind] += 1
        return f"{kind}{used[kind][count[kind] - 1]}"

    fields = [build_field(s, names) for s in specs]
    by = {k: [] for k in "udcig"}
    for f in fields:
        for i in f.indices:
            i = str(i)
            by[i.lstrip("-")[0]].append(i)
    tensors = []
    for k in "udi":
        xs = by[k]
        r.shuffle(xs)
        tensors += [eps(f"-{a} -{b}") for a, b in zip(xs[::2], xs[1::2])]
    up = [i for i in by["c"] if not i.startswith("-")]
    down = [i for i in by["c"] if i.startswith("-")]
    r.shuffle(up)
    r.shuffle(down)
    while up and down:
        a, b = up.pop(), down.pop()
        tensors.append(delta(f"{b[1:]} -{a}"))
    for left, s in ((up, "-"), (down, "")):
        while len(left) >= 3:
            tensors.append(eps(" ".join(s + left.pop().lstrip("-") for _ in range(3))))
    rest = fields[1:] + tensors
    r.shuffle(rest)
    return reduce(lambda a, b: a * b, [fields[0]] + rest)


def operator_case(**kw):
    return st.tuples(st.lists(field_spec(**kw), min_size=1, max_size=5), st.integers(0, 10**5)).map(list)


def operator_of(case):
    """an operator (or a single field) of a case; Discard if it is none"""
    from .core import Discard

    specs, seed = case
    op = random_operator(specs, seed)
    # a product is an operator again if it begins with a field
    if type(op).__name__ != "Operator" or not hasattr(op.tensors[0], "label"):
        raise Discard()
    return op
