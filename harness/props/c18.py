"""C18 duplicate removal"""
import random
from collections import Counter
from functools import reduce

import hypothesis.strategies as st

from .. import comps, gen, ref
from ..core import Discard, check, sub
from . import c14
from .c15 import SM, build_exotic

# ------------------------------------------------------------------ reference


def quantum(f):
    """an SM field by name; an exotic by spin, colour, isospin, hypercharge and baryon number"""
    label, conj = f.label.replace("†", ""), "†" in f.label
    if label in SM:
        return (label, conj)
    u, d, cu, cd, i = map(int, f.dynkin)
    return ("F" if (u + d) % 2 else "S", cu, cd, i, ref.frac(f.charges["y"]), ref.frac(f.charges["3b"]))


def anti(q):
    if len(q) == 2:
        return (q[0], not q[1])
    return (q[0], q[2], q[1], q[3], -q[4], -q[5])


def interaction(term):
    a = Counter(quantum(f) for f in comps.term_fields(term))
    b = Counter({anti(k): v for k, v in a.items()})
    return frozenset([frozenset(a.items()), frozenset(b.items())])


def class_of(x):
    return x.topology, frozenset(Counter(map(interaction, x.terms)).items())


def check_cleaned(xs, rec):
    from neutrinomass.completions.completions import clean_completions

    classes = Counter(map(class_of, xs))
    rec.nontrivial(1 < len(classes) < len(xs))
    rec.label("repeats" if len(classes) < len(xs) else "no repeats")
    out = list(clean_completions(iter(xs)))
    got = Counter(map(class_of, out))
    show = lambda: [(x.topology, x.terms) for x in xs]
    check(not [k for k, n in got.items() if n > 1], lambda: f"a class is kept more than once: {[(x.topology, x.terms) for x in out]} of {show()}")
    lost = [k for k in classes if k not in got]
    check(not lost, lambda: f"{len(lost)} of {len(classes)} classes are lost: kept {[(x.topology, x.terms) for x in out]} of {show()}")
    ids = {id(x) for x in xs}
    check(all(id(x) in ids for x in out), "a kept completion is not one of the given ones")
    again = clean_completions(out)
    check([id(x) for x in again] == [id(x) for x in out], "cleaning again changes the list")


# ------------------------------------------------------------------ generated completions

PARTS = [
    ("φ", "00000", "1", 0), ("φ", "00000", "-1", 0), ("φ", "00000", "1", 3), ("φ", "00000", "0", 0), ("φ", "00001", "1/2", 0), ("η", "00001", "1/2", 0),
    ("φ", "00010", "1/3", 1), ("φ", "00100", "-1/3", -1), ("φ", "00100", "1/3", -1), ("φ", "00002", "0", 0), ("φ", "00200", "1/3", 2), ("φ", "00110", "0", 0),
    ("ψ", "10000", "1", 0), ("ψ", "01000", "-1", 0), ("ψ", "10000", "0", 0), ("χ", "10000", "1", 0), ("ψ", "10100", "2/3", 1), ("ψ", "10002", "1", 0),
]


def part(k, conj):
    """an SM field or an exotic with fresh indices"""
    from neutrinomass.tensormethod import sm

    if k < len(SM):
        f = getattr(sm, SM[k])
    else:
        label, dynkin, y, b = PARTS[k - len(SM)]
        f = build_exotic(label, dynkin, y, 0 if y == "0" else b).field
    f = f.conj if conj else f
    return f.fresh_indices()


def term(spec):
    parts = [part(*p) for p in spec]
    return reduce(lambda a, b: a * b, parts)


def flip(spec):
    return [[k, not c] for k, c in spec]


def made(case):
    """a pool of terms; completions made of terms of the pool, in any order and conjugated at will"""
    from neutrinomass.completions.core import Completion

    pool, models = case
    out = []
    for top, chosen in models:
        terms = []
        for k, conj, turn in chosen:
            spec = pool[k % len(pool)]
            spec = flip(spec) if conj else spec
            terms.append(term(spec[turn % len(spec):] + spec[: turn % len(spec)]))
        out.append(Completion(operator="o", partition=(), graph=None, exotics=set(), terms=terms, topology=f"2s2f_{top}"))
    return out


def generated_case():
    n = len(SM) + len(PARTS)
    field = st.tuples(st.integers(0, n - 1), st.booleans()).map(list)
    interactions = st.lists(st.lists(field, min_size=3, max_size=4), min_size=1, max_size=4)
    # interactions that differ in one field only
    alike = st.tuples(st.lists(field, min_size=2, max_size=2), st.lists(field, min_size=2, max_size=4)).map(lambda t: [t[0] + [f] for f in t[1]])
    chosen = st.lists(st.tuples(st.integers(0, 3), st.booleans(), st.integers(0, 3)).map(list), min_size=1, max_size=3)
    models = st.lists(st.tuples(st.sampled_from([1, 1, 2]), chosen).map(list), max_size=8)
    return st.tuples(st.one_of(interactions, alike), models).map(list)


@sub("generated", strategy=generated_case, quick=500, thorough=20000, budget=(40, 800))
def generated(case, rec):
    """completions made of a few generated interactions, repeated, reordered and conjugated, against classes of
    (topology, multiset of interactions up to conjugation); non-trivial: some but not all are duplicates"""
    check_cleaned(made(case), rec)


_POOL = {}


def pool(name):
    if name not in _POOL:
        c = comps.completions_module()
        op = comps.catalogue()[name]
        _POOL[name] = list((c.deriv_operator_completions if name.startswith("D:") else c.operator_completions)(op))
    return _POOL[name]


def varied(x, how, seed):
    """the same completion with its terms in another order or some of them conjugated, or on another topology"""
    from neutrinomass.completions.core import Completion

    r = random.Random(seed)
    terms, top = list(x.terms), x.topology
    if how == "order":
        r.shuffle(terms)
    elif how == "conj":
        k = r.randrange(len(terms))
        terms[k] = c14.rewrite(terms[k], "conj", seed)[0]
    elif how == "topology":
        top = top + "x"
    return Completion(x.operator, x.partition, x.graph, x.exotics, terms, top)


@sub(
    "found",
    strategy=lambda: st.tuples(
        st.sampled_from([k for k in ("1", "2", "3a", "8", "D:D2a") if k in comps.catalogue()]),
        st.lists(st.tuples(st.integers(0, 500), st.sampled_from(["same", "order", "conj", "topology"]), st.integers(0, 50)).map(list), min_size=1, max_size=14),
    ).map(list),
    quick=120, thorough=6000, budget=(40, 800),
)
def found(case, rec):
    """random sequences of the completions found for small operators, some rewritten; non-trivial: some but not all are duplicates"""
    name, picks = case
    xs = pool(name)
    if not xs:
        raise Discard()
    check_cleaned([varied(xs[k % len(xs)], how, s) for k, how, s in picks], rec)


@sub("operators", cases=lambda tier: [[k] for k in ("1", "2", "3a", "3b", "4a", "8", "D:D2b", "D:D3") if k in comps.catalogue()], budget=(60, 800))
def operators(case, rec):
    """all completions of small operators"""
    check_cleaned(pool(case[0]), rec)


# ------------------------------------------------------------------ general helpers


@sub("helpers", strategy=lambda: st.tuples(st.lists(st.integers(-12, 12), max_size=24), st.integers(1, 9), st.sampled_from(["mod", "abs", "div", "none", "all"])).map(list), quick=1500, thorough=60000, budget=(20, 400))
def helpers(case, rec):
    """lists of numbers under generated equivalence relations: first member of every class, in order; non-trivial: some but not all
    are duplicates"""
    from neutrinomass.utils.functions import dropped_vals, remove_equivalent, remove_equivalent_nopop

    values, n, how = case
    key = {"mod": lambda x: x % n, "abs": abs, "div": lambda x: x // n, "none": None, "all": lambda x: 0}[how]
    # every element is its own object
    items = [[v, k] for k, v in enumerate(values)]
    same = (lambda a, b: a is b) if key is None else (lambda a, b: key(a[0]) == key(b[0]))
    want = []
    for x in items:
        if not any(same(x, y) for y in want):
            want.append(x)
    rec.nontrivial(1 < len(want) < len(items))
    given = list(items)
    got = remove_equivalent_nopop(given, eq_func=same, **({"verbose": True} if n % 2 else {}))
    check([id(x) for x in got] == [id(x) for x in want], lambda: f"remove_equivalent_nopop of {items} ({how} {n}): {got}, should be {want}")
    check(given == items, lambda: f"remove_equivalent_nopop changed its argument to {given}")
    out = remove_equivalent(given, eq_func=same, **({"verbose": True} if n % 3 else {}))
    check(out is None or out is given, "remove_equivalent works on the list it is given")
    check([id(x) for x in given] == [id(x) for x in want], lambda: f"remove_equivalent of {items} ({how} {n}): {given}, should be {want}")
    drop = {k for k in range(len(items)) if items[k] not in want}
    left = dropped_vals(items, drop)
    check([id(x) for x in left] == [id(x) for x in want], lambda: f"dropped_vals({items}, {drop}) = {left}")
