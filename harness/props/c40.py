"""C40 what an operator reports about itself follows from its factors"""
import random
from collections import Counter

import hypothesis.strategies as st

from .. import comps, gen, ref
from ..core import check, must, sub
from . import c05, c06

KINDS = "udcig"
WORDS = {"u": "Undotted", "d": "Dotted", "c": "Colour", "i": "Isospin", "g": "Generation"}


def bare(i):
    return str(i).lstrip("-")


def raised(i):
    return not str(i).startswith("-")


def build(case):
    """(fields, invariant tensors, names of the fields' indices and of the free ones) of a case"""
    spec, derivs = case[:2]
    fields = []
    n = 0
    for j, s in enumerate(spec["fields"]):
        f = gen.build(s)
        if spec["cls"] == "field":
            f = c06.derive(f, derivs[j % len(derivs)])
        string, n = gen.index_string(f.dynkin, n, gen=j if f.nf > 1 and spec["cls"] == "field" else None)
        x = f(string)
        if spec["cls"] == "exotic" and sum(map(int, f.dynkin[:2])) < 2:
            from neutrinomass.completions.core import cons_completion_field

            x = cons_completion_field(x)
        fields.append(x)
    return fields, c05.contract(spec, fields)


def factors(op):
    return [(str(t), c06.field_data(t) if comps.is_field(t) else c06.tensor_data(t)) for t in op.tensors]


def same(what, got, want):
    check(Counter(map(str, got)) == Counter(map(str, want)), lambda: f"{what}: {sorted(map(str, got))}, should be {sorted(map(str, want))}")


def coarse(t):
    """a tensor up to the names of its indices (the product renames contracted ones)"""
    return t[0], [("-" if not raised(i) else "") + ref.kind(i).lower() for i in t[1]]


def groups(what, got, tensors, names=True):
    """invariant tensors sorted by the kind of their indices"""
    tensors = tensors if names else list(map(coarse, tensors))
    want = [[t for t in tensors if t[1][0].lstrip("-")[0].lower() == k] for k in KINDS]
    want = sorted(sorted(map(str, g)) for g in want if g)
    same_way = (lambda t: t) if names else coarse
    show = lambda g: sorted(str(same_way((str(t).split("(")[0], [str(i) for i in t.indices]))) for t in g)
    got = [show(g) for g in got]
    check(all(got) and sorted(got) == want, lambda: f"{what}: {got}, should be {want}")


@sub(
    "parts",
    strategy=lambda: st.tuples(
        c05.op_case(5, classes=("field", "field", "exotic")),
        st.lists(st.lists(st.sampled_from([[1, 1], [1, -1], [-1, 1]]), max_size=1), min_size=4, max_size=4),
        st.integers(0, 10**6),
    ).map(list),
    quick=600,
    thorough=25000,
    budget=(40, 700),
)
def parts(case, rec):
    """products of plain, derivative and exotic fields, repeated or not, with invariant tensors on some of their indices, multiplied
    in a random order and grouping; non-trivial: indices of two kinds are contracted, or some and others are not"""
    from neutrinomass.tensormethod.core import BOSE

    fields, tensors = build(case)
    r = random.Random(case[2])
    op = c05.product_of(fields, tensors)
    everything = [str(i) for f in fields for i in f.indices]
    used = Counter(bare(i) for t in tensors for i in t.indices)
    uses = used + Counter(map(bare, everything))
    loose = [i for i in everything + [str(i) for t in tensors for i in t.indices] if uses[bare(i)] == 1]
    flat = [(str(t).split("(")[0], [str(i) for i in t.indices]) for t in tensors]

    # factors
    # fields of different classes are exchanged
    kinds = {type(f): None for f in fields}
    check(kinds.keys() == {type(f) for f in op.indexed_fields}, lambda: f"{fields} times {tensors} has the fields {op.indexed_fields}")
    fields = [f for k in sorted(kinds, key=[type(f) for f in op.indexed_fields].index) for f in fields if type(f) is k]
    given = [str(f) for f in fields]
    check([str(f) for f in op.indexed_fields] == given, lambda: f"{given} times {tensors} has the fields {op.indexed_fields}")
    for f, g in zip(fields, op.indexed_fields):
        a, b = c06.field_data(f), c06.field_data(g)
        check(a == b and type(f) is type(g), lambda: f"{f} in {op} is {b} instead of {a}")
    check(len(op.fields) == len(fields) and all(a == f.field for a, f in zip(op.fields, fields)), lambda: f"fields of {op}: {op.fields}")
    same(f"tensors of {op}", [(str(t).split("(")[0], [str(i) for i in t.indices]) for t in op.epsilons], flat)
    same(f"tensors of {op}", [coarse((str(t).split("(")[0], [str(i) for i in t.indices])) for t in op.structures], list(map(coarse, flat)))
    check(all(any(s is t for t in op.args) for s in op.structures), lambda: f"{op} has the invariants {op.structures}")
    check(len(op.tensors) == len(fields) + len(tensors), lambda: f"factors of {op}: {op.tensors}")
    groups(f"invariants of {op} by kind", op.by_structures(), flat, names=False)
    groups(f"tensors of {op} by kind", op.by_epsilon_structures(), flat)

    # indices
    same(f"free indices of {op}", op.free_indices, loose)
    by_type = op.indices_by_type
    check(set(by_type) == set(WORDS.values()), lambda: f"kinds of indices of {op}: {list(by_type)}")
    for k, word in WORDS.items():
        same(f"free {word} indices of {op}", by_type[word], [i for i in loose if ref.kind(i) == k])
    count = lambda k, up: sum(ref.kind(i) == k and raised(i) == up for i in loose)
    if all(raised(i) for i in loose if ref.kind(i) != "c"):
        want = [count("u", True), count("d", True), count("c", True), count("c", False), count("i", True)]
        check(op.dynkin_ints == want and op.dynkin == "".join(map(str, want)), lambda: f"{op} has the free indices {loose} and reports {op.dynkin}")

    # repeated fields
    same_name = {}
    for f in fields:
        same_name.setdefault(str(f).split("(")[0], []).append(f)
    # under the names the product gives them
    want = {k: sorted(str(i) for t in op.args if str(t).split("(")[0] == k for i in t.indices) for k, v in same_name.items() if len(v) > 1}
    check(all(len(v) == sum(len(f.indices) for f in same_name[k]) for k, v in want.items()), lambda: f"fields of {op} under the product's names: {want}")
    got = {k: sorted(map(str, v)) for k, v in op.duplicate_fields.items() if k in same_name}
    check(got == want, lambda: f"{op} repeats {got}, should be {want}")

    # as an operator of an effective theory
    from neutrinomass.completions.core import EffectiveOperator

    eff = EffectiveOperator("x", op)
    bosons = sum(f.comm == BOSE for f in fields)
    check([str(f) for f in eff.indexed_fields] == given and eff.fields == op.fields, lambda: f"the effective operator {op} has the fields {eff.indexed_fields}")
    if all((sum(map(int, f.dynkin[:2])) % 2 == 0) == (f.comm == BOSE) for f in fields):
        spins = [tuple(map(int, f.dynkin[:2])) for f in fields]
        if all(sum(s) - 2 * min(f.derivs, min(s)) < 2 for f, s in zip(fields, spins)):
            check(eff.topology_type == {"n_scalars": bosons, "n_fermions": len(fields) - bosons}, lambda: f"{op} has {bosons} bosons, reported {eff.topology_type}")

    # the same product put together differently
    order = list(tensors)
    r.shuffle(order)
    cut = r.randrange(1, len(fields) + 1)
    with must(f"multiplying the factors of {op} in another grouping"):
        other = c05.product_of(fields[:cut], [])
        rest = fields[cut:]
        if rest:
            other = other * c05.product_of(rest, [])
        k = r.randrange(len(order) + 1)
        if k > 1:
            block = order[0]
            for t in order[1:k]:
                block = block * t
            other = other * block
            order = order[k:]
        for t in order:
            other = other * t
    a, b = Counter(map(str, factors(op))), Counter(map(str, factors(other)))
    check(a == b, lambda: f"{op}, put together differently, has {list((b - a).elements())} instead of {list((a - b).elements())}")
    same(f"free indices of {op}, put together differently,", other.free_indices, loose)

    rec.label(f"fields={len(fields)}", f"tensors={min(len(tensors), 4)}", case[0]["cls"])
    rec.nontrivial(len({ref.kind(t[1][0]) for t in flat}) > 1 or (bool(flat) and bool(loose)))


@sub("catalogue", cases=lambda tier: comps.names(), quick=1, thorough=1, budget=(40, 100))
def catalogue(name, rec):
    """every operator of the catalogue: fields and invariants are its factors, and only generation indices are free; non-trivial: all"""
    op = comps.catalogue()[name].operator
    fields = [t for t in op.tensors if comps.is_field(t)]
    flat = [(str(t).split("(")[0], [str(i) for i in t.indices]) for t in op.tensors if not comps.is_field(t)]
    check([str(f) for f in op.indexed_fields] == [str(f) for f in fields], lambda: f"fields of {name}: {op.indexed_fields}")
    same(f"tensors of {name}", [(str(t).split("(")[0], [str(i) for i in t.indices]) for t in op.epsilons], flat)
    groups(f"invariants of {name} by kind", op.by_structures(), flat, names=False)
    groups(f"tensors of {name} by kind", op.by_epsilon_structures(), flat)
    uses = Counter(bare(i) for t in op.tensors for i in t.indices)
    loose = [str(i) for t in op.tensors for i in t.indices if uses[bare(i)] == 1]
    same(f"free indices of {name}", op.free_indices, loose)
    repeated = {k: v for k, v in Counter(str(f).split("(")[0] for f in fields).items() if v > 1}
    got = {k for k in op.duplicate_fields if any(str(f).split("(")[0] == k for f in fields)}
    check(got == set(repeated), lambda: f"{name} repeats {got}, should be {repeated}")
    rec.nontrivial()
