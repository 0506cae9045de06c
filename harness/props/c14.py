"""C14 the models found do not depend on how the operator is written"""
import itertools
import random
from functools import reduce

import hypothesis.strategies as st

from .. import comps, ref
from ..core import Discard, check, sub
from .c12 import nonvanishing


def rebuilt(tensor, name):
    """an invariant tensor with its indices renamed"""
    from neutrinomass.tensormethod.core import delta, eps

    idx = [name(str(i)) for i in tensor.indices]
    if len(idx) == 2 and ref.is_down(idx[0]) != ref.is_down(idx[1]):
        return delta(" ".join(sorted(idx, key=ref.is_down)))
    return eps(" ".join(idx))


def rewrite(op, how, seed):
    """(operator written differently, map from its old fields to its new ones by position)"""
    from neutrinomass.tensormethod.core import Index

    r = random.Random(seed)
    tensors = list(op.tensors)
    new = {}
    if how == "reorder":
        new = {k: t for k, t in enumerate(tensors)}
        order = list(range(len(tensors)))
        r.shuffle(order)
        # a product is an operator if it starts with a field
        first = next(k for k in order if comps.is_field(tensors[k]))
        order.remove(first)
        order.insert(0, first)
        out = [tensors[k] for k in order]
    elif how == "rename":
        labels = sorted({ref.bare(i) for t in tensors for i in t.indices})
        r.shuffle(labels)
        table = {b: str(Index.fresh(b[0])) for b in labels}

        def name(i):
            return ("-" if ref.is_down(i) else "") + table[ref.bare(i)]

        for k, t in enumerate(tensors):
            if comps.is_field(t):
                new[k] = t.substituted_indices(*[(i, Index(name(str(i)))) for i in t.indices])
            else:
                new[k] = rebuilt(t, name)
        out = [new[k] for k in range(len(tensors))]
    else:
        flip = {}
        for k, t in enumerate(tensors):
            if comps.is_field(t):
                new[k] = t.conj

        def name(i):
            if ref.kind(i) != "c":
                return i
            return ref.bare(i) if ref.is_down(i) else "-" + ref.bare(i)

        for k, t in enumerate(tensors):
            if not comps.is_field(t):
                new[k] = rebuilt(t, name)
        out = [new[k] for k in range(len(tensors))]
    return reduce(lambda x, y: x * y, out), [(tensors[k], new[k]) for k in range(len(tensors)) if comps.is_field(tensors[k])]


def healthy(x):
    return all(nonvanishing(t) is not False for t in x.terms)


def completed(p):
    x = comps.completions_module().partition_completion(p)
    return None if type(x).__name__ == "FailedCompletion" else x


def compare(x, y, rec, msg):
    """the same model, or both none; a coupling that vanishes may be noticed in one form only (see C12)"""
    if x is None and y is None:
        rec.label("no completion")
        return
    if x is None or y is None:
        rec.label("vanishing noticed in one form")
        check(not healthy(x or y), lambda: f"{msg()}: {'only' if y is None else 'not'} the original placement has a completion, {(x or y).terms}")
        return
    check(comps.model(x) == comps.model(y), lambda: f"{msg()}: {x.terms} becomes {y.terms}")


@sub("placement", strategy=lambda: st.tuples(comps.completion_case(), st.sampled_from(["reorder", "rename", "conj"]), st.integers(0, 1000)).map(list), quick=260, thorough=8000, budget=(70, 850))
def placement(case, rec):
    """one placement of an operator on a topology and the same placement of the operator reordered, renamed or conjugated;
    non-trivial: it has a completion"""
    from neutrinomass.completions.core import EffectiveOperator

    base, how, seed = case
    placed = comps.case_placement(base)
    if placed is None:
        raise Discard()
    eff, top, fields = placed
    op, pairs = rewrite(eff.operator, how, seed)
    other = EffectiveOperator(eff.name, op)
    left = list(pairs)
    moved = []
    for f in fields:
        k = next(k for k, (old, _) in enumerate(left) if old.label == f.label and list(map(str, old.indices)) == list(map(str, f.indices)))
        moved.append(left.pop(k)[1])
    x = completed(comps.place_fields(eff, top, fields))
    y = completed(comps.place_fields(other, top, moved))
    rec.label(how)
    rec.nontrivial(x is not None)
    compare(x, y, rec, lambda: f"{how} of {eff.operator} on {fields}")


def small_names():
    """operators whose completions are all found within seconds"""
    sizes = {k: comps.n_placements(comps.catalogue()[k]) for k in comps.names()}
    return [k for k in sizes if sizes[k] is not None and sizes[k] <= (8 if k.startswith("D:") else 48)]


def small_contents():
    return [c for c in comps.sm_contents(5) if len(c) <= 5]


def all_models(eff, derivs):
    c = comps.completions_module()
    xs = c.deriv_operator_completions(eff) if derivs else c.operator_completions(eff)
    return {comps.model(x) for x in xs if healthy(x)}


@sub("set", strategy=lambda: st.tuples(
    st.one_of(st.sampled_from(small_names()).map(lambda k: ["cat", k]), st.tuples(st.just("gen"), st.sampled_from(small_contents()), st.integers(0, 50)).map(list)),
    st.sampled_from(["reorder", "rename", "conj"]), st.integers(0, 1000)).map(list), quick=24, thorough=300, budget=(60, 850))
def whole_set(case, rec):
    """all models of a small operator before and after rewriting it; non-trivial: there are some"""
    from neutrinomass.completions.core import EffectiveOperator

    what, how, seed = case
    if what[0] == "cat":
        eff, derivs = comps.catalogue()[what[1]], what[1].startswith("D:")
    else:
        (eff, _), derivs = comps.built_operator(what[1], what[2]), False
    op, _ = rewrite(eff.operator, how, seed)
    a, b = all_models(eff, derivs), all_models(EffectiveOperator(eff.name, op), derivs)
    rec.nontrivial(bool(a))
    rec.label(how, f"models={min(len(a) // 10, 9)}0+")
    check(a == b, lambda: f"{how} of {eff.operator}: {len(a - b)} models lost, {len(b - a)} gained, e.g. {sorted(a ^ b)[0]}")


@sub("isomorphic", strategy=lambda: st.tuples(comps.completion_case(), st.integers(0, 1000), st.booleans()).map(list), quick=90, thorough=2500, budget=(70, 850))
def isomorphic(case, rec):
    """removing isomorphic partitions from a list of placements that differ by exchanging fields of one species, over all
    colour structures: the model of every placement removed is among those kept. non-trivial: something was removed"""
    base, seed, colours = case
    placed = comps.case_placement(base)
    if placed is None:
        raise Discard()
    eff, top, fields = placed
    r = random.Random(seed)
    effs = [eff]
    if colours and base[0] == "cat":
        effs = list(comps.colour_forms(base[1], base[2]))
    parts = []
    for _ in range(8):
        mixed = list(fields)
        for label in {f.label for f in fields}:
            where = [k for k, f in enumerate(fields) if f.label == label]
            to = list(where)
            r.shuffle(to)
            for a, b in zip(where, to):
                mixed[a] = fields[b]
        parts.append(comps.place_fields(r.choice(effs), top, mixed))
    kept = comps.completions_module().remove_isomorphic(list(parts))
    check(all(any(k is p for p in parts) for k in kept), "remove_isomorphic returns something else")
    gone = [p for p in parts if not any(k is p for k in kept)]
    rec.nontrivial(bool(gone))
    rec.label(f"kept={len(kept)}")
    if not gone:
        return
    xs = [completed(p) for p in kept]
    models = {comps.model(x) for x in xs if x is not None}
    for p in gone:
        y = completed(p)
        if y is not None and healthy(y):
            check(comps.model(y) in models, lambda: f"the model {y.terms} of {p['partition']} was removed, kept are {[k['partition'] for k in kept]}")
