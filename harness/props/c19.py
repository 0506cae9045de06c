"""C19 equivalence of completions"""
import random
from collections import Counter
from functools import lru_cache, reduce

import hypothesis.strategies as st
import numpy as np

from .. import comps, gen, ref
from ..core import Discard, check, sub
from . import c14, c16, c18
from .c15 import build_exotic

CODE_SCALARS = ["φ", "η", "s", "ω", "σ"] + [f"S{k}" for k in range(4)]
CODE_FERMIONS = ["ψ", "χ", "f", "ζ", "θ"] + [f"f{k}" for k in range(4)]


def distinct(x):
    """its exotics have distinct quantum numbers, whichever of them and their conjugates is meant"""
    keys = [comps.exotic_numbers(e) for e in x.exotics]
    return len(set(keys)) == len(keys) and len(set(x.exotic_info().values())) == len(keys)


def renamed_field(f, label, indices=None):
    from neutrinomass.tensormethod.core import IndexedField

    indices = f.indices if indices is None else indices
    return IndexedField(label, " ".join(map(str, indices)), charges=f.charges, is_conj=f.is_conj, comm=f.comm, nf=f.nf)


def with_base(label, m):
    b = comps.base(label)
    return m.get(b, b) + label[len(b):]


def exotic_bases(x):
    return sorted({comps.base(e.label) for e in x.exotics})


def rename(x, m, seed):
    """the same completion with other exotic labels, index names, generation labels and order of terms"""
    from neutrinomass.completions.core import Completion, cons_completion_field

    r = random.Random(seed)
    own = set(exotic_bases(x))
    terms = []
    for t in x.terms:
        op, _ = c14.rewrite(t, "rename", r.randrange(10**6))
        tensors = []
        for f in op.tensors:
            if comps.is_field(f) and comps.base(f.label) in own:
                f = renamed_field(f, with_base(f.label, m))
            tensors.append(f)
        terms.append(reduce(lambda a, b: a * b, tensors))
    r.shuffle(terms)
    exotics = {cons_completion_field(renamed_field(e, with_base(e.label, m))) for e in x.exotics}
    return Completion(x.operator, x.partition, x.graph, exotics, terms, x.topology)


def labelling(x, how, seed):
    """new names for the exotics"""
    r = random.Random(seed)
    old = exotic_bases(x)
    if how == "same":
        return dict(zip(old, old))
    if how == "permute":
        new = list(old)
        r.shuffle(new)
        return dict(zip(old, new))
    kinds = {comps.base(e.label): bool(e.is_fermion) for e in x.exotics}
    s, f = list(CODE_SCALARS), list(CODE_FERMIONS)
    if how == "shuffled":
        r.shuffle(s)
        r.shuffle(f)
    out = {k: (f if kinds[k] else s).pop(0) for k in old} if len(old) <= 9 else dict(zip(old, old))
    return out


def check_same(x, m, seed, rec):
    from neutrinomass.completions.completions import are_equivalent_completions, compare_terms

    y = rename(x, m, seed)
    show = lambda: f"renaming {m}: {x.terms} and {y.terms}"
    moved = any(k != v for k, v in m.items())
    rec.label("relabelled" if moved else "same labels")
    rec.nontrivial(len(x.exotics) > 1)
    for a, b, n in ((x, y, m), (y, x, {v: k for k, v in m.items()})):
        check(are_equivalent_completions(a, b) is True, lambda: f"not equivalent, {show()}")
        got = compare_terms(a, b)
        want = {e.label: with_base(e.label, n) for e in a.exotics}
        check(got == want, lambda: f"renaming returned is {got}, should be {want}, {show()}")
    check(are_equivalent_completions(x, x) is True, lambda: f"{x.terms} is not equivalent to itself")


HOW = ["same", "permute", "permute", "code", "shuffled", "shuffled"]


@sub(
    "renamed",
    strategy=lambda: st.tuples(comps.completion_case(), st.sampled_from(HOW), st.integers(0, 10**4)).map(list),
    quick=120, thorough=6000, budget=(40, 800),
)
def renamed(case, rec):
    """completions of random placements, with exotics renamed or permuted, indices and generations renamed and terms shuffled;
    non-trivial: at least two exotics"""
    what, how, seed = case
    p, x = comps.complete(what, rec)
    if x is None or not distinct(x):
        raise Discard()
    check_same(x, labelling(x, how, seed), seed, rec)


# ------------------------------------------------------------------ different completions


def key(x):
    """exotics, number of terms and interactions, up to conjugation"""
    return frozenset(map(comps.exotic_numbers, x.exotics)), len(x.terms), frozenset(map(interaction, x.terms))


def interaction(term):
    """its fields up to conjugation, SM fields by name and exotics by quantum numbers"""
    a = tuple(sorted(map(particle, comps.term_fields(term))))
    b = tuple(sorted(("sm", p[1], not p[2]) if p[0] == "sm" else ("x", ref.conj_dynkin(p[1]), -p[2]) for p in a))
    return min(a, b)


def particle(f):
    name, conj = comps.sm_key(f)
    if name in ref.SM:
        return "sm", name, conj
    return "x", f.dynkin, ref.frac(f.charges["y"])


def check_pair(x, y, rec):
    from neutrinomass.completions.completions import are_equivalent_completions, compare_terms

    a, b = are_equivalent_completions(x, y), are_equivalent_completions(y, x)
    show = lambda: f"{x.terms} with {sorted(x.exotic_info().values())} and {y.terms} with {sorted(y.exotic_info().values())}"
    check(a == b, lambda: f"not symmetric ({a}, {b}): {show()}")
    check(bool(compare_terms(x, y)) == a, lambda: f"the renaming and the verdict disagree: {show()}")
    if key(x) != key(y):
        check(not a, lambda: f"reported equivalent, but differ: {show()}")
    if a:
        m = compare_terms(x, y)
        exotics = {e.label: comps.exotic_numbers(e) for e in x.exotics}
        other = {e.label: comps.exotic_numbers(e) for e in y.exotics}
        check(set(m) == set(exotics) and set(m.values()) == set(other), lambda: f"renaming {m} does not map the exotics of one to the other, {show()}")
        check(all(exotics[k] == other[v] for k, v in m.items()), lambda: f"renaming {m} maps exotics to different ones, {show()}")
    return a


@sub(
    "found",
    strategy=lambda: st.tuples(
        st.sampled_from([k for k in ("1", "2", "3a", "4a", "8", "D:D2a") if k in comps.catalogue()]),
        st.integers(0, 5000), st.integers(0, 5000), st.sampled_from(["any", "alike", "alike"]), st.integers(0, 1000),
    ).map(list),
    quick=150, thorough=8000, budget=(50, 800),
)
def found(case, rec):
    """two of the completions found for a small operator, the second renamed; non-trivial: they have the same exotic quantum numbers"""
    name, i, j, how, seed = case
    xs = good(name)
    if not xs:
        raise Discard()
    x = xs[i % len(xs)]
    near = [y for y in xs if y is not x and (how == "any" or key(x)[0] == key(y)[0])] or [x]
    y = near[j % len(near)]
    y = rename(y, labelling(y, "shuffled", seed), seed)
    rec.nontrivial(key(x)[0] == key(y)[0])
    rec.label("equivalent" if check_pair(x, y, rec) else "different")


_GOOD = {}


def good(name):
    if name not in _GOOD:
        _GOOD[name] = [x for x in c18.pool(name) if distinct(x)]
    return _GOOD[name]


def changed(x, how, seed):
    """the completion with one thing about it changed"""
    from neutrinomass.completions.core import Completion, cons_completion_field

    r = random.Random(seed)
    terms, exotics = list(x.terms), set(x.exotics)
    if how == "drop":
        terms.pop(r.randrange(len(terms)))
    elif how == "double":
        terms[r.randrange(len(terms))] = terms[r.randrange(len(terms))]
    elif how == "repeat":
        terms.append(r.choice(terms))
    elif how in ("charge", "baryon"):
        # one exotic has another charge, everywhere
        e = r.choice(sorted(exotics, key=lambda e: e.label))
        b = comps.base(e.label)
        which = "y" if how == "charge" else "3b"
        if ref.frac(e.charges[which]) == 0:
            raise Discard()

        def shifted(f):
            q = {k: v for k, v in f.charges.items()}
            q[which] = q[which] + (q[which] / abs(q[which]))
            return q

        def other(f):
            from neutrinomass.tensormethod.core import IndexedField

            return IndexedField(f.label, " ".join(map(str, f.indices)), charges=shifted(f), is_conj=f.is_conj, comm=f.comm, nf=f.nf)

        exotics = {cons_completion_field(other(k)) if comps.base(k.label) == b else k for k in exotics}
        terms = [reduce(lambda p, q: p * q, [other(f) if comps.is_field(f) and comps.base(f.label) == b else f for f in t.tensors]) for t in terms]
    elif how == "field":
        # an SM field of one term is replaced by another one of the same shape
        swaps = [(k, n, f) for k, t in enumerate(terms) for n, f in enumerate(t.tensors) if comps.is_field(f) and f.label in SWAP]
        if not swaps:
            raise Discard()
        k, n, f = r.choice(swaps)
        tensors = list(terms[k].tensors)
        tensors[n] = renamed_field(f, SWAP[f.label])
        terms[k] = reduce(lambda p, q: p * q, tensors)
    return Completion(x.operator, x.partition, x.graph, exotics, terms, x.topology)


# fields whose indices are of the same kinds
SWAP = {"ub": "db", "db": "ub", "ub†": "db†", "db†": "ub†", "L": "E", "eb": "N", "eb†": "N†"}


@sub(
    "changed",
    strategy=lambda: st.tuples(
        st.sampled_from([k for k in ("1", "2", "3a", "4a", "8", "D:D2a") if k in comps.catalogue()]),
        st.integers(0, 5000), st.sampled_from(["drop", "double", "repeat", "charge", "baryon", "field", "field"]), st.integers(0, 1000),
    ).map(list),
    quick=150, thorough=8000, budget=(50, 800),
)
def altered(case, rec):
    """a completion and the same one (renamed) with a term dropped, repeated or replaced, with another charge of an exotic or with
    another SM field in one term; non-trivial: they differ"""
    name, i, how, seed = case
    xs = good(name)
    if not xs:
        raise Discard()
    x = xs[i % len(xs)]
    y = changed(x, how, seed)
    if not distinct(y):
        raise Discard()
    names = lambda t: frozenset(frozenset(Counter((comps.base(f.label) + ("†" if f.is_conj else "")) for f in comps.term_fields(t)).items()) for t in t.terms)
    differ = len(x.terms) != len(y.terms) or names(x) != names(y) or set(x.exotic_info().values()) != set(y.exotic_info().values())
    y = rename(y, labelling(y, "shuffled", seed), seed)
    rec.nontrivial(differ)
    rec.label(how)
    a = check_pair(x, y, rec)
    check(a != differ, lambda: f"{how}: {'equivalent' if a else 'not equivalent'}: {x.terms} with {sorted(x.exotic_info().values())} and {y.terms} with {sorted(y.exotic_info().values())}")


# ------------------------------------------------------------------ same fields, another contraction


@lru_cache(maxsize=None)
def contents():
    """contents of three or four fields with at least one exotic and several independent contractions"""
    from itertools import combinations_with_replacement

    n = len(c18.SM) + len(c18.PARTS)
    occ = [(k, c) for k in range(n) for c in (False, True)]
    out = []
    fields = {o: c18.part(*o).field for o in occ}
    data = {}
    for o in occ:
        f = fields[o]
        data[o] = (f.dynkin, ref.frac(f.charges["y"]), c16.lab(f) + str(o[0]))
    numbers = {}
    for k in range(len(c18.SM), n):
        dynkin, y, b = c18.PARTS[k - len(c18.SM)][1:]
        spin, y = (int(dynkin[0]) + int(dynkin[1])) % 2, ref.frac(y)
        numbers[k] = min((spin, dynkin[2], dynkin[3], dynkin[4], y), (spin, dynkin[3], dynkin[2], dynkin[4], -y))
    r = random.Random(5)
    for m in (3, 4):
        for combo in combinations_with_replacement(occ, m):
            if sum(data[o][1] for o in combo):
                continue
            ex = {k for k, _ in combo if k >= len(c18.SM)}
            # exotics with different quantum numbers; fields with generations only once
            if not ex or len({numbers[k] for k in ex}) < len(ex):
                continue
            if any(k < len(c18.SM) and c18.SM[k] != "H" and c > 1 for (k, _), c in Counter(combo).items()):
                continue
            ds = [data[o][0] for o in combo]
            if sum(int(d[0]) + int(d[1]) for d in ds) > 2 or ref.n_singlets(ds) < 2:
                continue
            up, down = sum(int(d[2]) for d in ds), sum(int(d[3]) for d in ds)
            if up != down or up > 3 or sum(int(d[4]) for d in ds) > 6:
                continue
            out.append([list(o) for o in combo])
    r.shuffle(out)
    return out


def part(k, conj):
    """an SM field or one of the exotics, each exotic with its own label"""
    if k < len(c18.SM):
        return c18.part(k, conj)
    label, dynkin, y, b = c18.PARTS[k - len(c18.SM)]
    label = "φηsωσ"[(k // 2) % 5] if label not in "ψχ" else "ψχfζθ"[k % 5]
    f = build_exotic(f"{label}{k}", dynkin, y, 0 if y == "0" else b).field
    return (f.conj if conj else f).fresh_indices()


@sub(
    "contractions",
    strategy=lambda: st.tuples(st.sampled_from(contents()), st.integers(0, 10**4), st.integers(0, 10**4), st.integers(0, 1000)).map(list),
    quick=120, thorough=6000, budget=(50, 800),
)
def contractions(case, rec):
    """one interaction of different fields contracted in two ways; equivalent exactly if the two are proportional (judged by evaluating
    both on random field values); non-trivial: they are not"""
    from neutrinomass.completions.completions import are_equivalent_completions
    from neutrinomass.completions.core import Completion, cons_completion_field
    from neutrinomass.tensormethod.contract import unsimplified_invariants

    combo, i, j, seed = case
    fields = [part(k, conj) for k, conj in combo]
    ops = [o for o in unsimplified_invariants(*[f.field for f in fields]) if ref_value(o)]
    if not ops:
        raise Discard()
    r = random.Random(j)
    a = ops[i % len(ops)]
    others = [o for o in ops if o is not a] or [a]
    for b in r.sample(others, min(len(others), 5)):
        independent = np.linalg.matrix_rank(np.array(c16.samples([a, b], seed, 5)), tol=1e-6) == 2
        if independent:
            break
    rec.nontrivial(bool(independent))
    exotics = {cons_completion_field(part(k, False)) for k in {k for k, _ in combo} if k >= len(c18.SM)}
    x, y = (Completion("o", (), None, exotics, [o], "2s2f_1") for o in (a, b))
    if not distinct(x):
        raise Discard()
    y = rename(y, labelling(y, "shuffled", seed), seed)
    got = are_equivalent_completions(x, y), are_equivalent_completions(y, x)
    check(got[0] == got[1], lambda: f"not symmetric {got}: {x.terms}, {y.terms}")
    if independent:
        check(not got[0], lambda: f"equivalent, although the contractions are independent: {x.terms}, {y.terms}")


def ref_value(op):
    """the code can simplify it"""
    return op.safe_simplify() != 0
