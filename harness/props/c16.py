"""C16 the full Lagrangian contains every renormalisable term"""
import random
from collections import Counter
from itertools import combinations_with_replacement, permutations, product

import hypothesis.strategies as st
import numpy as np

from .. import comps, gen, ref
from ..core import Discard, check, sub
from .c15 import SM, build_exotic, occurrences

# ------------------------------------------------------------------ counting invariants

WEYL2 = {0: 1, 2: -1}
WEYL3 = {(0, 0): 1, (2, -1): -1, (-1, 2): -1, (3, 0): 1, (0, 3): 1, (2, 2): -1}


def weights(dynkin):
    u, d, cu, cd, i = map(int, dynkin)
    out = Counter()
    for (a, m), (b, n), ((x, y), k), (c, l) in product(
        ref.su2_weights(u).items(), ref.su2_weights(d).items(), ref.su3_weights(cu, cd).items(), ref.su2_weights(i).items()
    ):
        out[a, b, x, y, c] += m * n * k * l
    return out


def times(p, q):
    out = Counter()
    for a, m in p.items():
        for b, n in q.items():
            out[tuple(x + y for x, y in zip(a, b))] += m * n
    return out


def adams(p, k):
    return Counter({tuple(k * x for x in w): m for w, m in p.items()})


def power(p, n, fermion):
    """character of the symmetric or antisymmetric power, by Newton's identities: n h_n = sum_k (+-)^(k-1) p_k h_(n-k)"""
    h = [Counter({(0,) * 5: 1})]
    for m in range(1, n + 1):
        acc = Counter()
        for k in range(1, m + 1):
            s = -1 if fermion and k % 2 == 0 else 1
            for w, c in times(adams(p, k), h[m - k]).items():
                acc[w] += s * c
        assert all(c % m == 0 for c in acc.values())
        h.append(Counter({w: c // m for w, c in acc.items() if c}))
    return h[n]


def n_invariants(groups):
    """number of independent invariants of a product; groups: (dynkin, multiplicity, fermion, flavoured).  Copies of a field
    with generations count as different fields"""
    char = Counter({(0,) * 5: 1})
    for dynkin, mult, fermion, flavoured in groups:
        w = weights(dynkin)
        if flavoured:
            for _ in range(mult):
                char = times(char, w)
        else:
            char = times(char, power(w, mult, fermion))
    out = 0
    for (u, a), (d, b), (c, e), (i, f) in product(WEYL2.items(), WEYL2.items(), WEYL3.items(), WEYL2.items()):
        out += a * b * e * f * char.get((u, d, *c, i), 0)
    return out


# ------------------------------------------------------------------ what the full Lagrangian should contain


def lab(f):
    """label of a plain field, as the field with indices has it"""
    return f.label + ("†" if f.is_conj else "")


def is_sm(f):
    return f.label.replace("†", "") in SM


def expected(exotics):
    """{content (sorted labels): number of independent invariants}"""
    pool = occurrences(exotics)
    out = {}
    for n in (3, 4):
        for combo in combinations_with_replacement(pool, n):
            if all(map(is_sm, combo)):
                continue
            if sum(3 if int(f.dynkin[0]) + int(f.dynkin[1]) else 2 for f in combo) > 8:
                continue
            if sum(ref.frac(f.charges["y"]) for f in combo) or not ref.n_singlets([f.dynkin for f in combo]):
                continue
            count = Counter(map(lab, combo))
            by = {lab(f): f for f in combo}
            groups = [(by[l].dynkin, m, (int(by[l].dynkin[0]) + int(by[l].dynkin[1])) % 2 == 1, is_sm(by[l]) and by[l].label.replace("†", "") != "H") for l, m in count.items()]
            out[tuple(sorted(map(lab, combo)))] = (n_invariants(groups), combo)
    return out


def cost(exotics):
    """number of structures the code goes through, of any dimension and of those it compares; None if some content needs a colour contraction it rejects"""
    total = light = 0
    kinds = Counter()
    for f in occurrences(exotics):
        kinds[tuple(map(int, f.dynkin)), ref.frac(f.charges["y"])] += 1
    for n in (3, 4):
        for combo in combinations_with_replacement(sorted(kinds), n):
            if sum(y for _, y in combo):
                continue
            ds = [d for d, _ in combo]
            up, down = sum(d[2] for d in ds), sum(d[3] for d in ds)
            if (up - down) % 3 or sum(d[0] for d in ds) % 2 or sum(d[1] for d in ds) % 2 or sum(d[4] for d in ds) % 2:
                continue
            if not ref.n_singlets(ds):
                continue
            if up != down and (up, down) not in ((3, 0), (0, 3)):
                return None
            size = 1
            for k in (0, 1, 4):
                size *= ref.matchings(sum(d[k] for d in ds))
            for k in range(2, min(up, down) + 1):
                size *= k
            for c, m in Counter(combo).items():
                for j in range(m):
                    size *= (kinds[c] + j) / (j + 1)
            total += size
            if sum(3 if d[0] + d[1] else 2 for d in ds) <= 8:
                light += size
    return int(total), int(light)


def samples(ops, seed, n):
    """values of operators of the same content on random field values, (anti)symmetrised in equal fields"""
    rng = np.random.default_rng(seed)
    rows = [[] for _ in ops]
    for _ in range(n):
        slots = {}
        for r, op in enumerate(ops):
            fields = sorted(range(len(ref.fields_of(op.tensors))), key=lambda k: ref.fields_of(op.tensors)[k].label)
            listed = ref.fields_of(op.tensors)
            groups = {}
            for k in fields:
                groups.setdefault(listed[k].label, []).append(k)
            for label, ks in groups.items():
                for j, k in enumerate(ks):
                    if (label, j) not in slots:
                        slots[label, j] = ref.field_array(listed[k], rng)
            value = 0
            moved = [permutations(range(len(ks))) if not (is_sm(listed[ks[0]]) and listed[ks[0]].label.replace("†", "") != "H") else [tuple(range(len(ks)))] for ks in groups.values()]
            # signs: order of the anticommuting fields in the operator against their slots
            for perm in product(*moved):
                arrays = [None] * len(listed)
                order = [None] * len(listed)
                for (label, ks), p in zip(sorted(groups.items(), key=lambda t: fields.index(t[1][0])), perm):
                    for k, j in zip(ks, p):
                        arrays[k] = slots[label, j]
                        order[k] = (label, j)
                odd = [order[k] for k in range(len(listed)) if listed[k].is_fermion]
                s = 1
                for a in range(len(odd)):
                    for b in range(a + 1, len(odd)):
                        if odd[a] > odd[b]:
                            s = -s
                val, free = ref.evaluate(op.tensors, arrays)
                check(not free, lambda: f"interaction {op} has free indices {free}")
                value += s * complex(val)
            rows[r].append(value)
    return rows


def form(term):
    """how a term is written: fields and invariant tensors by the positions of the indices they join"""
    where = {}
    fields = comps.term_fields(term)
    for k, f in enumerate(fields):
        for j, i in enumerate(ref.gauge_indices(f)):
            where[ref.bare(i)] = (k, j)
    joins = sorted(tuple(sorted(where.get(ref.bare(i), ()) for i in t.indices)) for t in term.tensors if not comps.is_field(t))
    return tuple(f.label for f in fields), tuple(joins)


def exotics_of(case):
    return [build_exotic(label, dynkin, y, 0) for label, (dynkin, y) in zip("φψηχ", case)]


def listed(tier):
    """exotics that couple linearly to SM fields, arbitrary ones, and pairs, in a fixed random order"""
    useful = set()
    pool = [["sm", s, c] for s in SM for c in (False, True)]
    info = [gen.spec_info(p) for p in pool]
    for a, b in combinations_with_replacement(range(12), 2):
        for k in ref.product([info[a]["dynkin"], info[b]["dynkin"]]):
            if tuple(k[:2]) in ((0, 0), (1, 0)):
                y = -(info[a]["y"] + info[b]["y"])
                useful.add((f"{k[0]}{k[1]}{k[3]}{k[2]}{k[4]}", str(y)))
    useful = sorted(useful)
    r = random.Random(5)
    ys = ["0", "0", "1/2", "-1/2", "1", "1/3", "-1/3", "2/3", "-2/3", "1/6", "3/2", "2", "1/5"]

    def single():
        if r.random() < 0.6:
            return list(r.choice(useful))
        return [r.choice(["00", "10"]) + r.choice(["00", "00", "10", "01", "11"]) + r.choice("0012"), r.choice(ys)]

    out = []
    while len(out) < 1500:
        one = [single() for _ in range(r.choice([1, 1, 1, 2]))]
        if one not in out:
            out.append(one)
    return out


KEY = "unrecognised-vanishing-term"


def vanishing(terms, what, rec):
    """terms that vanish identically: known where the simplification they are tested with does not bring them to zero"""
    seen = [t for t in terms if t.safe_simplify() == 0]
    check(not seen, lambda: f"{what} contains {seen}, which vanish")
    if terms:
        rec.label("vanishing term not recognised")
        rec.finding(KEY, f"{what} contains {terms}, which vanish identically but do not simplify to zero")


@sub("small", cases=listed, budget=(35, 850), hang=600, shrink=False, tiers=["quick"])
def small(case, rec):
    """the full Lagrangian of one or two generated exotics: contents against an exhaustive reference list, number of independent
    interactions of each content against characters of (anti)symmetric powers; non-trivial: it has an interaction with SM fermions"""
    examine(case, rec, 40)


@sub("full", cases=listed, budget=(45, 850), hang=1500, shrink=False, tiers=["thorough"])
def full(case, rec):
    """as small, also for exotics with hundreds of interactions (thorough only)"""
    examine(case, rec, 250)


@sub("recorded", cases=lambda tier: [[["00011", "-1/6"]]], hang=600, shrink=False, single=True)
def recorded(case, rec):
    """a model on which the recorded finding shows"""
    examine(case, rec, 40)


def examine(case, rec, limit):
    from neutrinomass.tensormethod.lagrangian import Lagrangian

    exotics = exotics_of(case)
    size = cost(exotics)
    if size is None or size[0] > 8 * limit or size[1] > limit:
        raise Discard()
    lag = Lagrangian(exotics, []).generate_full()
    want = {k: n for k, (n, _) in expected(exotics).items()}
    found, rest = {}, []
    for term in lag.interaction_terms:
        labels = tuple(sorted(f.label for f in comps.term_fields(term)))
        if len(labels) == 2:
            rest.append(term)
        else:
            found.setdefault(labels, []).append(term)
    for e in exotics:
        rec.label(type(e).__name__)
    rec.nontrivial(any(l.replace("†", "") in SM[1:] for k, n in want.items() if n for l in k))
    rec.label("several structures" if any(n > 1 for n in want.values()) else "one structure each")
    if any(n == 0 for n in want.values()):
        rec.label("vanishing contents")
    what = f"full Lagrangian of {[(e, type(e).__name__, str(e.y)) for e in exotics]}"
    # every content, and no other
    missing = [k for k, n in want.items() if n and k not in found]
    check(not missing, lambda: f"{what} has no term {missing}")
    extra = [k for k in found if k not in want]
    check(not extra, lambda: f"{what} contains {[found[k] for k in extra]}, which are not singlets")
    for k, terms in found.items():
        rows = samples(terms, sum(map(ord, "".join(k))), len(terms) + 3)
        vanishing([t for r, t in zip(rows, terms) if not ref.rank([r])], what, rec)
        twice = [c for c in Counter(map(form, terms)).values() if c > 1]
        check(not twice, lambda: f"{what}: an interaction appears twice in {terms}")
        check(ref.rank(rows) == want[k], lambda: f"{what}: {ref.rank(rows)} independent interactions of {k}, expected {want[k]}: {terms}")
    names = Counter()
    for t in rest:
        names[tuple(sorted(f.label.replace("†", "") for f in comps.term_fields(t)))] += 1
    for e in exotics:
        kind = type(e).__name__
        mass = (e.label, e.label + "~") if kind == "VectorLikeDiracFermion" else (e.label, e.label)
        check(names.pop(mass, 0), lambda: f"{what} has no mass term of {e}")
    check(not names, lambda: f"{what} has other bilinears {dict(names)}")
