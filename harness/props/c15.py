"""C15 reported U(1) symmetries"""
import random
from collections import Counter
from fractions import Fraction
from functools import reduce
from itertools import combinations_with_replacement

import hypothesis.strategies as st

from .. import comps, gen, ref
from ..core import Discard, check, sub
from . import c14

SM = ["H", "Q", "ub", "db", "L", "eb"]
YUKAWA = [{"H": 1, "Q": 1, "ub": 1}, {"H": -1, "Q": 1, "db": 1}, {"H": -1, "L": 1, "eb": 1}]


# ------------------------------------------------------------------ reference


def row_echelon(rows, n):
    """reduced row echelon form over the rationals, without zero rows"""
    rows = [[Fraction(x) for x in r] for r in rows]
    out, col = [], 0
    while rows and col < n:
        k = next((k for k, r in enumerate(rows) if r[col]), None)
        if k is None:
            col += 1
            continue
        p = rows.pop(k)
        p = [x / p[col] for x in p]
        rows = [[a - r[col] * b for a, b in zip(r, p)] for r in rows]
        out = [[a - r[col] * b for a, b in zip(r, p)] for r in out] + [p]
        col += 1
    return out


def name_of(field):
    """(column, sign) of a field: SM fields and exotics by label without the dagger"""
    label = field.label
    return label.replace("†", ""), -1 if "†" in label else 1


def content_of(fields):
    out = Counter()
    for f in fields:
        name, s = name_of(f)
        if name not in SM and name[0] == "D" and name.lstrip("D") in SM:
            name = name.lstrip("D")
        out[name] += s
    return out


def mass_content(e):
    kind = type(e).__name__
    if kind == "ComplexScalar":
        return Counter()
    if kind in ("RealScalar", "MajoranaFermion"):
        return Counter({name_of(e)[0]: 2})
    base = name_of(e)[0]
    partner = base.replace("~", "") if "~" in base else base + "~"
    return Counter({base: 1, partner: 1})


def columns(exotics):
    out = set()
    for e in exotics:
        out.add(name_of(e)[0])
        out |= set(mass_content(e))
    return out


def expected_rows(exotics, terms, names):
    rows = [content_of(fs) for fs in terms]
    rows += [mass_content(e) for e in exotics]
    rows += YUKAWA
    return [[r.get(n, 0) for n in names] for r in rows]


def number(x):
    return Fraction(int(x.p), int(x.q)) if hasattr(x, "p") else Fraction(x)


def reported(lag):
    """(column names, symmetry vectors)"""
    names = SM + [name_of(f)[0] for f in lag.fields]
    return names, [[number(x) for x in v] for v in lag.u1_symmetries()]


def check_symmetries(lag, exotics, terms, rec, what):
    names, vectors = reported(lag)
    check(sorted(names) == sorted(SM + list(columns(exotics))), lambda: f"{what()}: fields of the Lagrangian {names}, exotics {exotics}")
    n = len(names)
    rows = expected_rows(exotics, terms, names)
    rank = len(row_echelon(rows, n))
    rec.label(f"{n - rank} symmetries")
    check(len(vectors) == n - rank, lambda: f"{what()}: {len(vectors)} symmetries reported, {n - rank} exist; fields {names}, rows {rows}")
    check(lag.num_u1_symmetries() == n - rank, lambda: f"{what()}: num_u1_symmetries {lag.num_u1_symmetries()}, {n - rank} exist")
    for v in vectors:
        check(len(v) == n, lambda: f"{what()}: vector {v} for fields {names}")
        for r in rows:
            check(not sum(a * b for a, b in zip(r, v)), lambda: f"{what()}: {dict(zip(names, v))} is broken by {[m for m in zip(names, r) if m[1]]}")
    check(len(row_echelon(vectors, n)) == len(vectors), lambda: f"{what()}: dependent vectors {vectors}")
    return names, vectors


def span(names, vectors):
    """basis of the space independent of the order of the columns"""
    order = sorted(range(len(names)), key=lambda k: names[k])
    return row_echelon([[v[k] for k in order] for v in vectors], len(names))


def conjugated(term):
    return c14.rewrite(term, "conj", 0)[0]


def presentations(exotics, terms, seed):
    """the Lagrangian written differently: order and repetition of terms, conjugated terms, order of exotics"""
    from neutrinomass.tensormethod.lagrangian import Lagrangian

    r = random.Random(seed)
    exotics, terms = list(exotics), list(terms)
    shuffled = list(terms)
    r.shuffle(shuffled)
    r.shuffle(exotics)
    yield "reordered", Lagrangian(exotics, shuffled)
    yield "repeated", Lagrangian(exotics, shuffled + [r.choice(terms)])
    k = r.randrange(len(terms))
    yield "conjugated", Lagrangian(exotics, [conjugated(t) if j == k else t for j, t in enumerate(terms)])


# ------------------------------------------------------------------ completions


@sub("completion", strategy=lambda: st.tuples(comps.completion_case(), st.integers(0, 1000)).map(list), quick=180, thorough=6000, budget=(40, 850))
def completion(case, rec):
    """the Lagrangian of the completion of a random placement: symmetries against an exact nullspace, rewritten Lagrangians,
    and the charge of the operator; non-trivial: it has a completion"""
    base, seed = case
    p, x = comps.complete(base, rec)
    if x is None:
        return
    rec.nontrivial(True)
    contents = [comps.term_fields(t) for t in x.terms]
    what = lambda: f"{x.terms}"
    names, vectors = check_symmetries(x.lagrangian, x.exotics, contents, rec, what)
    op = content_of([f for f in comps.term_fields(p["operator"].operator)])
    for v in vectors:
        charge = sum(op.get(n, 0) * c for n, c in zip(names, v))
        check(charge == 0, lambda: f"{what()}: {p['operator'].operator} has charge {charge} under {dict(zip(names, v))}")
    for how, lag in presentations(x.exotics, x.terms, seed):
        check(span(*reported(lag)) == span(names, vectors), lambda: f"{what()}: other symmetries when {how}: {reported(lag)} from {names, vectors}")


def dotted_case():
    """placements of operators with derivatives: some of their vector-like fermions are found with dotted indices"""
    return st.tuples(st.sampled_from(comps.names(True)), st.integers(0, 10**6)).map(list)


@sub("dotted", strategy=dotted_case, quick=60, thorough=2500, budget=(40, 500))
def dotted(case, rec):
    """completions of derivative operators whose exotics include a fermion with dotted indices, the first few placements after a
    generated one: symmetries against an exact nullspace; non-trivial: such a completion was found"""
    name, seed = case
    r = random.Random(seed)
    for j in range(6):
        placed = ["cat", name, r.randrange(40), r.randrange(2**20), r.randrange(300)]
        p = comps.case_partition(placed)
        x = None if p is None else comps.complete(placed, rec)[1]
        if x is not None and any("†" in e.label for e in x.exotics):
            break
    else:
        raise Discard()
    rec.nontrivial(True)
    contents = [comps.term_fields(t) for t in x.terms]
    what = lambda: f"{x.terms}"
    names, vectors = check_symmetries(x.lagrangian, x.exotics, contents, rec, what)
    for how, lag in presentations(x.exotics, x.terms, seed):
        check(span(*reported(lag)) == span(names, vectors), lambda: f"{what()}: other symmetries when {how}: {reported(lag)} from {names, vectors}")


# ------------------------------------------------------------------ generated Lagrangians


def occurrences(objects):
    """all fields that may occur in a term: (plain Field, reference numbers)"""
    from neutrinomass.tensormethod import sm

    out = []
    for s in SM:
        out += [getattr(sm, s), getattr(sm, s).conj]
    for e in objects:
        out += [e.field, e.conj.field]
        if type(e).__name__ == "VectorLikeDiracFermion":
            out += [e.dirac_partner().field, e.dirac_partner().conj.field]
    return out


def build_exotic(label, dynkin, y, b):
    from neutrinomass.completions.core import cons_completion_field
    from neutrinomass.tensormethod.core import IndexedField
    from sympy import Rational

    idx, _ = gen.index_string(dynkin)
    return cons_completion_field(IndexedField(label, idx, charges={"y": Rational(str(y)), "3b": Rational(str(b))}))


def allowed(fields):
    """zero hypercharge and a singlet, by the reference"""
    return not sum(ref.frac(f.charges["y"]) for f in fields) and bool(ref.n_singlets([f.dynkin for f in fields]))


LABELS = ["φ", "ψ", "η", "χ"]


def lagrangian_of(case):
    """(exotics, terms): each exotic is what closes a random set of fields; some more terms among the fields"""
    from neutrinomass.tensormethod.contract import unsimplified_invariants

    steps, extra, free = case
    r = random.Random(extra)
    exotics, contents = [], []
    for label, (n, picks, part) in zip(LABELS, steps):
        pool = occurrences(exotics)
        chosen = [pool[p % len(pool)] for p in picks[:n]]
        parts = sorted(k for k in ref.product([f.dynkin for f in chosen]) if tuple(k[:2]) in ((0, 0), (1, 0), (0, 1)) and sum(k) <= 4)
        if not parts:
            raise Discard()
        u, d, cu, cd, i = parts[part % len(parts)]
        y = -sum(ref.frac(f.charges["y"]) for f in chosen)
        b = -sum(ref.frac(f.charges["3b"]) for f in chosen)
        real = y == 0 and cu == cd
        e = build_exotic(label, f"{u}{d}{cd}{cu}{i}", y, 0 if real else b)
        exotics.append(e)
        contents.append([*chosen, e.field])
    for dynkin, y in free:
        exotics.append(build_exotic(LABELS[len(exotics)] if len(exotics) < 4 else "ξ", dynkin, y, 0))
    pool = occurrences(exotics)
    cubic = [c for c in combinations_with_replacement(pool, 3) if any(f.label[0] in "φψηχξ" for f in c) and allowed(c)]
    r.shuffle(cubic)
    contents += [list(c) for c in cubic[: r.randrange(3)]]
    terms = []
    for c in contents:
        ds = [f.dynkin for f in c]
        size = 1
        for k in (0, 1, 4):
            size *= ref.matchings(sum(int(d[k]) for d in ds))
        up, down = sum(int(d[2]) for d in ds), sum(int(d[3]) for d in ds)
        if size > 120 or max(up, down) > 4 or (up != down and (up, down) not in ((3, 0), (0, 3))):
            raise Discard()
        r.shuffle(c)
        found = unsimplified_invariants(*c)
        if not found:
            raise Discard()
        terms.append(r.choice(found))
    return exotics, terms


def lagrangian_case():
    step = st.tuples(st.sampled_from([2, 2, 3]), st.lists(st.integers(0, 60), min_size=3, max_size=3), st.integers(0, 10)).map(list)
    free = st.tuples(st.sampled_from(["00000", "10000", "10002", "00011", "10110", "10100", "00110"]), st.sampled_from(["0", "0", "1/2", "1", "-1/3"])).map(list)
    return st.tuples(st.lists(step, min_size=1, max_size=3), st.integers(0, 2**20), st.lists(free, max_size=1)).map(list)


@sub("lagrangian", strategy=lagrangian_case, quick=260, thorough=8000, budget=(40, 850))
def lagrangian(case, rec):
    """generated exotics that close random sets of SM and exotic fields, with random further terms: symmetries against an exact
    nullspace, and rewritten Lagrangians; non-trivial: some exotic interaction involves SM fields"""
    from neutrinomass.tensormethod.lagrangian import Lagrangian

    exotics, terms = lagrangian_of(case)
    contents = [comps.term_fields(t) for t in terms]
    for e in exotics:
        rec.label(type(e).__name__)
    rec.nontrivial(any(n in SM for c in contents for n in content_of(c)))
    what = lambda: f"exotics {exotics}, terms {terms}"
    names, vectors = check_symmetries(Lagrangian(exotics, list(terms)), exotics, contents, rec, what)
    for how, lag in presentations(exotics, terms, case[1]):
        check(span(*reported(lag)) == span(names, vectors), lambda: f"{what()}: other symmetries when {how}: {reported(lag)} from {names, vectors}")
