"""C34 copies are faithful, and equality is consistent with hashes"""
from copy import copy, deepcopy

import hypothesis.strategies as st

from .. import boot, comps, dbs, gen
from ..core import Discard, check, must, sub
from . import c06, c24


def field_facts(f):
    """everything a field knows about itself"""
    return {
        "class": type(f).__name__,
        "label": f.label,
        "text": str(f),
        "dynkin": f.dynkin,
        "charges": {k: str(v) for k, v in f.charges.items()},
        "conjugation": f.is_conj,
        "statistics": str(f.comm),
        "symmetry": [list(s) for s in f.symmetry],
        "generations": f.nf,
        "derivatives": f.derivs,
        "latex": f.latex,
        "multiplicity": f.multiplicity,
        "bar": getattr(f, "is_unbarred", None),
        "stripped": None if f.stripped is None else {k: str(v) for k, v in f.stripped.items()},
        "history": None if f.history is None else (field_facts(f.history.left), field_facts(f.history.right)),
        "indices": [str(i) for i in f.indices] if hasattr(f, "index_labels") else None,
    }


def compare(what, a, b):
    for k in a:
        check(a[k] == b[k], lambda: f"{what}: {k} {a[k]!r} becomes {b[k]!r}")


def both(x):
    for name, how in (("copy", copy), ("deep copy", deepcopy), ("deep copy of a copy", lambda x: deepcopy(copy(x))), ("deep copy in a list", lambda x: deepcopy([x, x])[1])):
        with must(f"making a {name} of {x}"):
            y = how(x)
        yield f"{name} of {x}", y


def same_field(what, f, g):
    compare(what, field_facts(f), field_facts(g))
    check(f == g and g == f and not f != g, lambda: f"{what} is not equal to the original")
    check(hash(f) == hash(g), lambda: f"{what} hashes differently")
    check(len({f, g}) == 1, lambda: f"{what} and the original are two members of a set")


def spoil(f):
    """change the data of a field in place"""
    for k in f.charges:
        f.charges[k] += 7
    f.symmetry.append([5])
    if f.stripped is not None:
        f.stripped["label"] = "spoilt"
        for k in f.stripped["charges"]:
            f.stripped["charges"][k] += 7


def field_case():
    plain = st.tuples(st.just("plain"), gen.field_spec(), st.lists(st.integers(0, 3), max_size=2)).map(list)
    indexed = st.tuples(st.just("indexed"), dbs.field_spec(), st.booleans()).map(list)
    product = st.tuples(st.just("product"), gen.field_spec(), gen.field_spec(), st.integers(0, 5)).map(list)
    return st.one_of(plain, indexed, indexed, indexed, product)


@sub("fields", strategy=field_case, quick=500, thorough=20000, budget=(25, 500))
def fields(case, rec):
    """plain, derivative, indexed and exotic fields (also barred and conjugated ones) and parts of products; non-trivial: has a charge"""
    if case[0] == "plain":
        f = gen.build(case[1])
        f = c06.derive(f, [[(1, 1), (-1, 1), (1, -1), (1, 1)][k] for k in case[2]])
    elif case[0] == "product":
        parts = gen.build(case[1]) * gen.build(case[2])
        f = parts[case[3] % len(parts)]
    else:
        n = iter(range(1000))
        f = dbs.build_field(case[1], lambda kind: f"{kind}{next(n)}")
        f = f.conj if case[2] else f
    rec.label(case[0], type(f).__name__)
    rec.nontrivial(any(f.charges.values()))
    before = field_facts(f)
    for what, g in both(f):
        same_field(what, f, g)
        # what is made from it
        same_field(f"conjugate of the {what}", f.conj, g.conj)
        if hasattr(f, "index_labels"):
            same_field(f"field of the {what}", f.field, g.field)
            same_field(f"the {what} without derivatives", f.strip_derivs(), g.strip_derivs()) if f.derivs != 1 else None
            check(f.pmatch_data == g.pmatch_data, lambda: f"{what}: {f.pmatch_data} becomes {g.pmatch_data}")
        for k in ("dirac_partner", "majorana_partner", "swap_colour_indices"):
            if hasattr(f, k):
                same_field(f"{k} of the {what}", getattr(f, k)(), getattr(g, k)())
        if hasattr(f, "conj_indices"):
            same_field(f"conj_indices of the {what}", f.conj_indices, g.conj_indices)
        if hasattr(f, "mass_term"):
            check(str(f.mass_term) == str(g.mass_term), lambda: f"mass term of the {what}: {f.mass_term} becomes {g.mass_term}")
    spoil(deepcopy(f))
    compare(f"{f}, after a deep copy was changed", before, field_facts(f))


@sub("indices", strategy=lambda: st.tuples(st.sampled_from("udcig"), st.integers(0, 99), st.sampled_from(["", "_", "^", "∂"]), st.booleans()).map(list), quick=200, thorough=2000, budget=(10, 60))
def indices(case, rec):
    """indices of every kind and height; non-trivial: lowered"""
    from neutrinomass.tensormethod.core import Index

    kind, n, tail, down = case
    i = Index(("-" if down else "") + kind + str(n) + tail)
    rec.nontrivial(down)
    for what, j in both(i):
        for k in ("label", "is_up", "index_type"):
            check(getattr(i, k) == getattr(j, k), lambda: f"{what}: {k} {getattr(i, k)} becomes {getattr(j, k)}")
        check(i == j and hash(i) == hash(j) and str(i) == str(j), lambda: f"{what} is {j}")
        check(-i == -j and i.conj == j.conj and str(-i) == str(-j), lambda: f"{what}: lowered {-j}, conjugated {j.conj}")
        check(i.tensor_index_type is j.tensor_index_type, lambda: f"{what} is not an index of the same space")


def same_operator(what, a, b, simple=None):
    check(type(a) is type(b), lambda: f"{what} is a {type(b).__name__}")
    check(len(a.tensors) == len(b.tensors), lambda: f"{what} has the factors {b.tensors}")
    for s, t in zip(a.tensors, b.tensors):
        if comps.is_field(s):
            check(comps.is_field(t), lambda: f"{what}: {s} becomes {t}")
            compare(f"{what}: {s}", field_facts(s), field_facts(t))
        else:
            check(c06.tensor_data(s) == c06.tensor_data(t), lambda: f"{what}: {s} becomes {t}")
    check(a == b and b == a, lambda: f"{what} is {b}, not equal to the original")
    check(hash(a) == hash(b) and str(a) == str(b), lambda: f"{what} is {b}")
    check(sorted(map(str, a.free_indices)) == sorted(map(str, b.free_indices)), lambda: f"{what} has the free indices {b.free_indices}")
    check(a.fields == b.fields, lambda: f"{what} has the fields {b.fields}")
    check(a.pickle_form() == b.pickle_form(), lambda: f"{what} is stored as {b.pickle_form()}")
    if simple is not None:
        with must(f"simplifying the {what}"):
            t = b.safe_simplify()
        check(simple == t and str(simple) == str(t), lambda: f"{what} simplifies to {t} instead of {simple}")
    check(not a.tensors or a.latex() == b.latex() if len(a.tensors) < 7 else True, lambda: f"{what} is shown as {b.latex()}")


@sub("operators", strategy=lambda: st.tuples(dbs.operator_case(), dbs.field_spec()).map(list), quick=300, thorough=15000, budget=(40, 600))
def operators(case, rec):
    """generated operators of SM, derivative and exotic fields; non-trivial: an invariant tensor"""
    from neutrinomass.completions.core import EffectiveOperator

    op = dbs.operator_of(case[0])
    rec.nontrivial(bool(op.epsilons))
    n = iter(range(500, 1000))
    other = dbs.build_field(case[1], lambda kind: f"{kind}{next(n)}")
    simple = op.safe_simplify()
    for what, x in both(op):
        same_operator(what, op, x, simple if "in a list" not in what else None)
        check(str(op * other) == str(x * other), lambda: f"{what} times {other} is {x * other} instead of {op * other}")
    text = str(op)
    y = deepcopy(op)
    before = [field_facts(f) for f in op.indexed_fields]
    for f in y.indexed_fields:
        spoil(f)
    y.tensors.clear()
    for a, f in zip(before, op.indexed_fields):
        compare(f"{f} in {op}, after a deep copy was changed", a, field_facts(f))
    check(str(op) == text and len(op.tensors) == len(case[0][0]) + len(op.epsilons), lambda: f"{text} is {op} after a deep copy was changed")

    eff = EffectiveOperator("x", op)
    for what, x in both(eff):
        check(x.name == "x", lambda: f"{what} is called {x.name}")
        same_operator(f"operator of the {what}", op, x.operator)
        check(x == eff and hash(x) == hash(eff), lambda: f"{what} is not equal to the original")


@st.composite
def pair_case(draw):
    specs = draw(st.lists(dbs.field_spec(derivs=False), min_size=2, max_size=4))
    return [specs, draw(st.integers(0, 10**6)), draw(st.sampled_from(["renamed", "name", "tensor", "field"])), draw(st.integers(0, 5))]


@sub("equality", strategy=pair_case, quick=200, thorough=10000, budget=(30, 400))
def equality(case, rec):
    """two effective operators: the same one with other names of contracted indices, or with another name, an invariant tensor less or a field more; non-trivial: an invariant tensor"""
    from neutrinomass.completions.core import EffectiveOperator
    from neutrinomass.tensormethod.core import Index, delta, eps
    from neutrinomass.tensormethod.sm import H

    specs, seed, how, k = case
    op = dbs.operator_of([specs, seed])
    a = EffectiveOperator("a", op)
    tensors = list(op.tensors)
    rec.label(how)
    rec.nontrivial(bool(op.epsilons))
    if how == "renamed":
        if not op.epsilons:
            raise Discard()
        t = op.epsilons[k % len(op.epsilons)]
        names = {str(i).lstrip("-") for i in t.indices} - {str(i).lstrip("-") for i in op.free_indices}
        # (written as text: what the operator is made of)
        new = {n: f"{n[0]}{777 + j}" for j, n in enumerate(sorted(names))}
        rename = lambda i: str(i) if str(i).lstrip("-") not in new else ("-" if str(i).startswith("-") else "") + new[str(i).lstrip("-")]
        out = []
        for x in tensors:
            if comps.is_field(x):
                pairs = [(i, Index(rename(i))) for i in x.indices if rename(i) != str(i)]
                y = x
                if pairs:
                    data = {**x._dict, "indices": " ".join(map(rename, x.indices))}
                    y = type(x)(**data, **({"is_unbarred": x.is_unbarred} if hasattr(x, "is_unbarred") else {}))
                out.append(y)
            else:
                text = " ".join(map(rename, x.indices))
                out.append(delta(text) if str(x).startswith("KD") else eps(text))
        b = EffectiveOperator("a", type(op)(*out))
        check(a == b and b == a, lambda: f"{op} and {b.operator}, which differ in the names of contracted indices, are not equal")
        check(hash(a) == hash(b), lambda: f"the equal operators {op} and {b.operator} hash differently")
        check(len({a, b}) == 1 and b in [a], lambda: f"the equal operators {op} and {b.operator} are two members of a set")
        return
    if how == "name":
        b = EffectiveOperator("b", op)
    elif how == "tensor":
        if not op.epsilons or len(tensors) < 3:
            raise Discard()
        tensors.remove(op.epsilons[k % len(op.epsilons)])
        b = EffectiveOperator("a", type(op)(*tensors))
    else:
        b = EffectiveOperator("a", type(op)(H("i888"), *tensors))
    check(not a == b and not b == a and a != b, lambda: f"the different operators {a.name}: {a.operator} and {b.name}: {b.operator} are equal")
    check(not a == "a" and not a == op and a != None, lambda: "an effective operator equals something else")  # noqa: E711


@sub("completions", strategy=lambda: comps.completion_case(), quick=120, thorough=6000, budget=(40, 700))
def completions(case, rec):
    """completions of random placements of catalogue and generated operators; non-trivial: a completion was found"""
    boot.load_database()
    p, x = comps.complete(case, rec)
    if x is None:
        raise Discard()
    rec.nontrivial(True)
    from neutrinomass.database.export import export_completion

    with must("hashing a completion"):
        number = hash(x)
    before = c24.parts(x)
    ops = [x.operator.operator, *x.terms]
    simple = [o.safe_simplify() for o in x.terms]
    symmetries = x.lagrangian.num_u1_symmetries()
    loaded = lambda x: c24.load(export_completion(x, lazy=False))
    for what, y in [*both(x), ("the model loaded back", loaded(x))]:
        check(type(y) is type(x), lambda: f"{what} is a {type(y).__name__}")
        c24.same(x, y, what)
        for s, t, u in zip(ops, [y.operator.operator, *y.terms], [None, *simple]):
            same_operator(f"{what}: {s}", s, t, u if what.startswith("deep copy of <") else None) if "loaded" not in what else None
        check(x == y and y == x and not x != y, lambda: f"{what} is not equal to the original")
        check(hash(y) == number, lambda: f"{what} hashes differently")
        check(len({x, y}) == 1, lambda: f"{what} and the original are two members of a set")
        n = y.lagrangian.num_u1_symmetries() if "in a list" not in what else symmetries
        check(n == symmetries, lambda: f"{what} has {n} U(1) symmetries, the original {symmetries}")
    # a deep copy has nothing in common with the original
    y = deepcopy(x)
    y.terms.pop()
    for f in [*y.exotics]:
        spoil(f)
    for t in y.terms:
        for f in t.indexed_fields:
            spoil(f)
    y.exotics.clear()
    y.topology = "spoilt"
    for a, b in list(y.graph.edges):
        y.graph.edges[a, b]["particle"] = "spoilt"
    y.graph.remove_node(next(iter(y.graph.nodes)))
    after = c24.parts(x)
    for k in before:
        check(before[k] == after[k], lambda: f"{k} {before[k]} becomes {after[k]} after a deep copy was changed")
    # completions that differ
    y = copy(x)
    y.exotics = set(list(x.exotics)[1:])
    check(not x == y and not y == x, "a completion equals the one without one of its exotics")
    y = copy(x)
    y.partition = x.partition[::-1]
    check(x.partition == y.partition or not x == y, "a completion equals one with another partition")
    y = copy(x)
    y.operator = type(x.operator)(x.operator.name + "'", x.operator.operator)
    check(not x == y and not y == x, "a completion equals the one of another operator")
    check(not x == "x" and x != None, "a completion equals something else")  # noqa: E711
