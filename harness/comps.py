"""Shared helpers around completions: sampling partitions of operators, reading terms and diagrams."""

import importlib
import math
import random
from collections import Counter
from functools import lru_cache

from . import ref
from .ref import frac


def completions_module():
    return importlib.import_module("neutrinomass.completions.completions")


@lru_cache(maxsize=None)
def catalogue():
    from neutrinomass.completions.operators import DERIV_EFF_OPERATORS, EFF_OPERATORS

    return {**EFF_OPERATORS, **{"D:" + k: v for k, v in DERIV_EFF_OPERATORS.items()}}


@lru_cache(maxsize=None)
def names(deriv=None):
    return [k for k in catalogue() if deriv is None or k.startswith("D:") == deriv]


def n_placements(op):
    """topologies x placements of an operator (its cost), None if its class has no topologies"""
    from .props.c11 import class_sizes

    b = sum(1 for f in op.fields if not f.is_fermion)
    f = len(op.fields) - b
    if (b, f) not in class_sizes():
        return None
    return class_sizes()[b, f] * math.factorial(b) * math.factorial(f)


@lru_cache(maxsize=None)
def deriv_forms(name):
    """the operators obtained by acting the derivatives of a catalogue operator in all ways"""
    return completions_module().derivative_combinations(catalogue()[name])


@lru_cache(maxsize=None)
def colour_forms(key, form=0):
    from neutrinomass.completions.core import EffectiveOperator
    from neutrinomass.tensormethod.contract import colour_singlets

    op = catalogue()[key]
    if key.startswith("D:"):
        forms = deriv_forms(key)
        if not forms:
            return ()
        op = forms[form % len(forms)]
    return tuple(EffectiveOperator(op.name, o) for o in colour_singlets([op.operator], overcomplete=True))


def random_placement(eff, seed, topology=None):
    """(topology, order of the fields) chosen by seed"""
    r = random.Random(seed)
    data = topology_data(eff.topology_type["n_scalars"], eff.topology_type["n_fermions"])
    top = data[(r.randrange(len(data)) if topology is None else topology) % len(data)]
    fields = list(completions_module().indexed_fields_with_counters(eff.operator))
    r.shuffle(fields)
    return top, fields


def place_fields(eff, top, fields):
    """the partition of an operator (colour contracted) with its fields in this order on a topology, as `partitions` lists them"""
    c = completions_module()
    part = c.replace_fields(fields, top["partition"])
    return {
        "operator": eff,
        "partition": part,
        "epsilons": eff.operator.epsilons,
        "graph": c.set_external_fields(part, top["graph"], c.indexed_fields_with_counters(eff.operator)),
        "topology": top["partition_file"].split("/")[-1].split(".")[0],
    }


def random_partition(eff, seed, topology=None):
    return place_fields(eff, *random_placement(eff, seed, topology))


@lru_cache(maxsize=None)
def topology_data(s, f):
    from neutrinomass.completions.topologies import get_topology_data

    return get_topology_data(n_scalars=s, n_fermions=f)


# ------------------------------------------------------------------ reading terms


def is_field(t):
    return hasattr(t, "label")


def base(label):
    return label.replace("†", "").replace("~", "")


def sign(label):
    """+1 for an exotic or the conjugate of its partner, -1 for its conjugate or its partner"""
    return (-1 if "†" in label else 1) * (-1 if "~" in label else 1)


def is_exotic(f):
    from neutrinomass.completions.core import FieldType

    return isinstance(f, FieldType)


def canonical(f, real):
    """(spin, colour, isospin, y, 3b) of the exotic an occurrence belongs to, as its plain field has them"""
    u, d, cu, cd, i = map(int, f.dynkin)
    s = 1 if real else sign(f.label)
    y, b = frac(f.charges["y"]) * s, frac(f.charges["3b"]) * s
    col = (cu, cd) if s == 1 else (cd, cu)
    if real:
        col, b = tuple(sorted(col)), None
    return ("F" if (u + d) % 2 else "S", col, i, y, b)


def term_fields(term):
    return [t for t in term.tensors if is_field(t)]


def sm_key(f):
    """identity of an SM line: name, conjugation and generation index, without its derivatives"""
    from . import gen

    label = f.label
    plain = label.replace("†", "")
    while plain.startswith("D") and plain not in ref.SM:
        plain = plain[1:]
    return plain, "†" in label


def iso_rep(dynkins):
    return dynkins


# ------------------------------------------------------------------ operators from generated field content


@lru_cache(maxsize=None)
def sm_contents(max_fields=6):
    """all multisets of 4..max_fields SM matter fields (and conjugates) with zero hypercharge, a singlet, a shipped
    topology class and a colour structure the code contracts"""
    from itertools import combinations_with_replacement

    from . import gen
    from .props.c11 import class_sizes

    fields = [["sm", l, c] for l in gen.MATTER for c in (False, True)]
    info = [gen.spec_info(f) for f in fields]
    out = []
    for n in range(4, max_fields + 1):
        for combo in combinations_with_replacement(range(len(fields)), n):
            if sum(info[k]["y"] for k in combo):
                continue
            f = sum(info[k]["fermion"] for k in combo)
            if (n - f, f) not in class_sizes():
                continue
            specs = [fields[k] for k in combo]
            _, _, cu, cd, _ = gen.index_counts(specs)
            if cu != cd and (cu, cd) not in ((3, 0), (0, 3)):
                continue
            if not ref.n_singlets([info[k]["dynkin"] for k in combo]):
                continue
            out.append(specs)
    return out


_BUILT = {}


def built_operator(specs, seed):
    """an operator with this content: one way of contracting isospin, colour (all ways) as `partitions` does"""
    import json

    from neutrinomass.completions.core import EffectiveOperator
    from neutrinomass.tensormethod.contract import colour_singlets, unsimplified_invariants

    from . import gen

    key = json.dumps(specs)
    if key not in _BUILT:
        _BUILT[key] = unsimplified_invariants(*[gen.build(s) for s in specs], ignore=["u", "d", "c"])
    ops = _BUILT[key]
    r = random.Random(seed)
    op = EffectiveOperator("X", r.choice(ops))
    forms = colour_singlets([op.operator], overcomplete=True)
    return op, EffectiveOperator("X", r.choice(forms))


def completion_case(with_generated=True, derivatives=True):
    import hypothesis.strategies as st

    cat = st.tuples(st.just("cat"), st.sampled_from(names(False)), st.just(0), st.integers(0, 2**20), st.integers(0, 300)).map(list)
    # operators with several equal fields, on few topologies
    few = [k for k in names(False) if (n_placements(catalogue()[k]) or 10**9) <= 1440]
    equal = st.tuples(st.just("cat"), st.sampled_from(few), st.just(0), st.integers(0, 2**20), st.integers(0, 300)).map(list)
    der = st.tuples(st.just("cat"), st.sampled_from(names(True)), st.integers(0, 40), st.integers(0, 2**20), st.integers(0, 300)).map(list)
    if not with_generated:
        return st.one_of(cat, cat, der)
    made = st.tuples(st.just("gen"), st.sampled_from(sm_contents()), st.integers(0, 50), st.integers(0, 2**20), st.integers(0, 300)).map(list)
    return st.one_of(cat, equal, der, made) if derivatives else st.one_of(cat, equal, made)


def case_placement(case):
    """(operator, topology, fields) a completion_case stands for; None if the operator has no topologies"""
    kind, what, form, seed, top = case
    if kind == "gen":
        _, eff = built_operator(what, form)
    else:
        forms = colour_forms(what, form)
        if not forms or n_placements(forms[0]) is None:
            return None
        eff = forms[seed % len(forms)]
    return (eff, *random_placement(eff, seed, top))


def case_partition(case):
    """the partition a completion_case stands for; None if the operator has none"""
    out = case_placement(case)
    return None if out is None else place_fields(*out)


# ------------------------------------------------------------------ models


def particle(f):
    """a field of a term by its quantum numbers: SM fields by name"""
    if is_exotic(f):
        return ("x", f.dynkin, frac(f.charges["y"]))
    name, conj = sm_key(f)
    return ("sm", name + ("†" if conj else ""), 0)


def conj_particle(p):
    if p[0] == "x":
        return ("x", ref.conj_dynkin(p[1]), -p[2])
    return ("sm", p[1][:-1] if p[1].endswith("†") else p[1] + "†", 0)


def interaction(term):
    """fields of a term up to hermitian conjugation"""
    a = tuple(sorted(particle(f) for f in term_fields(term)))
    b = tuple(sorted(map(conj_particle, a)))
    return min(a, b)


def exotic_numbers(e):
    """quantum numbers of an exotic up to conjugation and mass partner"""
    s, col, iso, y, b = canonical(e, type(e).__name__ in ("RealScalar", "MajoranaFermion"))
    return min((s, col, iso, y), (s, col[::-1], iso, -y))


def model(x):
    """topology, interactions and exotic quantum numbers of a completion, up to conjugation and naming"""
    return x.topology, tuple(sorted(map(interaction, x.terms))), tuple(sorted(map(exotic_numbers, x.exotics)))


def complete(case, rec=None):
    """(partition, completion) of a case; Discard if the partition has no completion"""
    from .core import Discard

    p = case_partition(case)
    if p is None:
        raise Discard()
    x = completions_module().partition_completion(p)
    if type(x).__name__ == "FailedCompletion":
        if rec is not None:
            rec.label("no completion: " + x.reason.split(" at ")[0][:30])
            rec.nontrivial(False)
        return p, None
    if rec is not None:
        rec.label(p["topology"].split("_")[0])
    return p, x
