"""C09 derivatives add one vector index and can be removed without trace"""
import itertools
from collections import Counter

import hypothesis.strategies as st

from .. import gen, ref
from ..core import Discard, check, sub
from . import c05


def chain_case():
    target = st.tuples(st.integers(-2, 2), st.integers(-2, 2)).map(list)
    good = st.tuples(st.sampled_from([1, -1]), st.sampled_from([1, -1])).map(list)
    return st.tuples(gen.field_spec(max_lorentz=2, total=5), st.lists(st.one_of(good, good, good, target), min_size=1, max_size=4), st.booleans()).map(list)


@sub("act", strategy=chain_case, quick=800, thorough=15000)
def act(case, rec):
    """chains of derivatives with any requested change of spinor labels; acceptance and preserved data; removal gives the
    original; conjugating commutes with removal.  Non-trivial: at least two derivatives accepted, or one rejected"""
    from neutrinomass.tensormethod.core import D

    spec, steps, conj_at_end = case
    f0 = gen.build(spec)
    f = f0
    n = 0
    rejected = 0
    for du, dd in steps:
        u, d = f.lorentz_irrep
        u, d = u + du, d + dd
        if not (0 <= u <= 9 and 0 <= d <= 9):
            continue
        try:
            g = D(f, f"{u}{d}")
        except AssertionError:
            g = None
        ok = abs(du) == 1 and abs(dd) == 1
        if not ok:
            check(g is None, lambda: f"a derivative takes {f} to {g}")
            rejected += 1
            continue
        check(g is not None, lambda: f"derivative of {f} with Lorentz labels {u}{d} rejected")
        check(tuple(g.lorentz_irrep) == (u, d), lambda: f"D({f}) = {g}, asked for {u}{d}")
        check(g.dynkin[2:] == f.dynkin[2:], lambda: f"D({f}) = {g}: gauge representation")
        check(g.charges == f.charges and g.is_conj == f.is_conj and str(g.comm) == str(f.comm) and g.nf == f.nf, lambda: f"D({f}) = {g}: charges, conjugation, statistics or generations")
        check(g.derivs == f.derivs + 1 and g.label == "D" + f.label, lambda: f"D({f}) = {g} has {g.derivs} derivatives")
        f = g
        n += 1
    if conj_at_end:
        f, f0 = f.conj, f0.conj
    gen_ix = 7 if f.nf > 1 else None
    string, _ = gen.index_string(f.dynkin, 0, gen=gen_ix)
    x = f(string)
    check(x.derivs == n, lambda: f"{x} has {x.derivs} derivatives, expected {n}")
    if n:
        s = x.strip_derivs()
        check(s.dynkin == f0.dynkin and s.label_with_dagger == f0.label_with_dagger, lambda: f"removing the derivatives of {f} gives {s}, not {f0}")
        check(s.charges == f0.charges and s.is_conj == f0.is_conj and str(s.comm) == str(f0.comm) and s.nf == f0.nf and s.derivs == 0, lambda: f"removing the derivatives of {f} gives {s._dict}, not {f0._dict}")
        check(s == f0 and s.latex == f0.latex, lambda: f"removing the derivatives of {f} gives {s._dict}, not {f0._dict}")
    if n and (f0.is_scalar or f0.is_left_fermion or f0.is_right_fermion) and max(f.lorentz_irrep) > 0 or n and f0.is_scalar:
        before = [str(i) for i in x.indices]
        y = x.strip_derivs_with_indices()
        lor = [str(i) for i in y.indices if ref.kind(i) in "ud"]
        gauge = [str(i) for i in y.indices if ref.kind(i) in "ci"]
        check(gauge == [i for i in before if i.lstrip("-")[0] in "ci"], lambda: f"{x} without derivatives is {y}: gauge indices changed")
        check(y.dynkin == f0.dynkin, lambda: f"{x} without derivatives is {y}: representation {y.dynkin}, expected {f0.dynkin}")
        check(y.charges == f0.charges and y.derivs == 0 and y.label == f0.label_with_dagger, lambda: f"{x} without derivatives is {y}")
        check(all(i in before or i.endswith("∂") for i in lor), lambda: f"{x} without derivatives is {y}: spinor index {lor}")
    rec.label(f"n={n}", "rejected" if rejected else "")
    rec.nontrivial(n > 1 or rejected > 0)


def placement_case():
    fields = st.lists(st.one_of(gen.sm_spec(), gen.sm_spec(["H", "L", "Q"]), st.tuples(
        st.just("x"), st.sampled_from(["φ", "ψ"]), st.sampled_from(["00000", "10000", "01001", "00001", "10101", "00002", "00100"]), gen.charges(), st.just("0"), st.just("auto"), st.sampled_from([1, 3]), st.booleans()).map(list)),
        min_size=2, max_size=4)
    return st.tuples(fields, st.lists(st.integers(0, 30), min_size=8, max_size=8), st.lists(st.booleans(), min_size=4, max_size=4), st.integers(0, 20)).map(list)


def lor_after(d):
    u, v = int(d[0]), int(d[1])
    return {(0, 0): "11", (1, 0): "01", (0, 1): "10"}[(u, v)]


def check_placements(op, originals, n_derivs, results, ctx):
    """originals: [(label with dagger, gauge dynkin, charges, comm, nf, [gauge index names])] in order"""
    want = Counter()
    got = {}
    for r in results:
        ts = [t for t in r.tensors if hasattr(t, "label")]
        check(len(ts) == len(originals), lambda: f"{ctx}: {r} has {len(ts)} fields")
        rest = list(originals)
        key = []
        for t in ts:
            nd = t.derivs
            check(nd in (0, 1), lambda: f"{ctx}: {t} carries {nd} derivatives")
            base = t.label[1:] if nd else t.label
            gi = tuple(str(i) for i in t.indices if ref.kind(i) in "cig")
            hit = [o for o in rest if o["label"] == base and o["gauge"] == gi]
            check(len(hit) == 1, lambda: f"{ctx}: {r}: {t} does not correspond to one of the fields {originals}")
            o = hit[0]
            rest.remove(o)
            check(t.dynkin[2:] == o["dynkin"][2:], lambda: f"{ctx}: {t} gauge representation")
            lor = lor_after(o["dynkin"]) if nd else o["dynkin"][:2]
            check(t.dynkin[:2] == lor, lambda: f"{ctx}: {t} Lorentz representation, expected {lor}")
            check(t.charges == o["charges"] and str(t.comm) == o["comm"] and t.nf == o["nf"] and t.is_conj == o["conj"], lambda: f"{ctx}: {t} {t._dict} does not carry the data of {o}")
            if nd:
                key.append(o["pos"])
        key = tuple(sorted(key))
        check(len(key) == n_derivs, lambda: f"{ctx}: {r} has {len(key)} derivatives, expected {n_derivs}")
        check(key not in got, lambda: f"{ctx}: placement {key} appears twice")
        got[key] = r
        eps = Counter((str(t).split("(")[0], tuple(sorted(str(i) for i in t.indices))) for t in r.tensors if not hasattr(t, "label"))
        mine = Counter((str(t).split("(")[0], tuple(sorted(str(i) for i in t.indices))) for t in op.tensors if not hasattr(t, "label"))
        check(eps == mine, lambda: f"{ctx}: gauge contractions {mine} became {eps}")
        lz = [i for t in ts for i in t.indices if ref.kind(i) in "ud"]
        check(len({str(i) for i in lz}) == len(lz), lambda: f"{ctx}: spinor index used twice in {r}")
    return got


def describe(fields):
    out = []
    for pos, t in enumerate(fields):
        out.append({"pos": pos, "label": t.label, "dynkin": t.dynkin, "charges": t.charges, "comm": str(t.comm), "nf": t.nf, "conj": t.is_conj, "gauge": tuple(str(i) for i in t.indices if ref.kind(i) in "cig")})
    return out


def vanishing(op):
    """the operator with the derivatives where they are, value zero?"""
    return not c05.poly(op.tensors)


def place(op, base, positions, epsilons):
    """reference: act with derivatives on the fields at the given positions (fresh spinor indices)"""
    from neutrinomass.tensormethod.core import D

    ts = []
    k = 500
    for pos, x in enumerate(base):
        f = x.field
        if pos in positions:
            f = D(f, lor_after(f.dynkin))
        lor = []
        for digit, kind in zip(f.dynkin[:2], "ud"):
            for _ in range(int(digit)):
                lor.append(f"{kind}{k}")
                k += 1
        ts.append(f(" ".join(lor + [str(i) for i in x.indices if ref.kind(i) in "cig"])))
    return ts + epsilons


@sub("placements", strategy=placement_case, quick=100, thorough=2000)
def placements(case, rec):
    """derivative_combinations on generated operators of two to four fields with one or two derivatives: every placement
    once unless it vanishes; non-trivial: more than one placement and a contraction"""
    import importlib

    from neutrinomass.completions.core import EffectiveOperator

    C = importlib.import_module("neutrinomass.completions.completions")
    specs, picks, skips, pick = case
    skips = [True, True] + skips[2:]  # spinor indices stay free
    fields = []
    n = 0
    for j, s in enumerate(specs):
        f = gen.build(s)
        string, n = gen.index_string(f.dynkin, n, gen=j if f.nf > 1 else None)
        fields.append(f(string))
    if sum(len(ref.gauge_indices(f)) for f in fields) > 10:
        raise Discard()
    epsilons = [t for t in c05.contract({"pick": picks, "skip": skips}, fields) if str(t.indices[0]).lstrip("-")[0] in "ci"]
    total = len(fields)
    keys = [(f.label, tuple(str(i) for i in f.indices if ref.kind(i) in "cig")) for f in fields]
    if len(set(keys)) < len(keys):
        raise Discard()  # equal fields without indices: placements cannot be told apart
    nd = 1 + (pick % 2) if total > 2 else 1
    subsets = list(itertools.combinations(range(total), nd))
    start = subsets[pick % len(subsets)]
    op = c05.product_of(place(None, fields, start, []), epsilons)
    if not any(len(c05.idx_of(f)) for f in op.tensors):
        raise Discard()
    named = pick % 3 == 0
    res = C.derivative_combinations(EffectiveOperator("Dx", op) if named else op)
    if named:
        check(all(r.name == "Dx" for r in res), "operator names changed")
        res = [r.operator for r in res]
    ctx = str(op)
    got = check_placements(op, describe(fields), nd, res, ctx)
    for subset in subsets:
        ts = place(None, fields, subset, epsilons)
        p = c05.poly(ts)
        if subset in got:
            fs = [t for t in ts if hasattr(t, "label")]
            check(not c05.exchange_kills(fs, epsilons), lambda: f"{ctx}: placement {subset} vanishes but is kept")
        else:
            check(not p, lambda: f"{ctx}: placement {subset} is missing although it does not vanish")
    rec.label(f"{len(got)}/{len(subsets)}")
    rec.nontrivial(len(got) > 1 and bool(epsilons))


def names(tier):
    from neutrinomass.completions import DERIV_EFF_OPERATORS

    return list(DERIV_EFF_OPERATORS)


@sub("catalogue", cases=names, quick=51, thorough=51)
def catalogue(case, rec):
    """derivative_combinations on every shipped derivative operator"""
    import importlib

    from neutrinomass.completions import DERIV_EFF_OPERATORS

    C = importlib.import_module("neutrinomass.completions.completions")
    eff = DERIV_EFF_OPERATORS[case]
    op = eff.operator
    originals = []
    n = 0
    base = []
    for pos, t in enumerate(op.indexed_fields):
        label = t.label.replace("†", "")
        nd = len(label) - len(label.lstrip("D"))
        n += nd
        s = gen.build(["sm", label.lstrip("D"), t.is_conj])
        k = 900 + 3 * pos
        lor = [f"{kind}{k + a}" for digit, kind in zip(s.dynkin[:2], "ud") for a in range(int(digit))]
        base.append(s(" ".join(lor + [str(i) for i in t.indices if ref.kind(i) in "cig"])))
    res = C.derivative_combinations(eff)
    check(all(r.name == case for r in res), "names")
    got = check_placements(op, describe(base), n, [r.operator for r in res], case)
    for subset in itertools.combinations(range(len(base)), n):
        ts = place(None, base, subset, op.epsilons)
        fs = [t for t in ts if hasattr(t, "label")]
        if subset in got:
            check(not c05.exchange_kills(fs, op.epsilons), lambda: f"{case}: placement {subset} vanishes but is kept")
        else:
            # colour, spinor and generation indices stay free: fix their values (they cannot make a term vanish)
            p = iso_poly(ts)
            check(not p, lambda: f"{case}: placement {subset} is missing although it does not vanish")
    check(len(got) >= 1, "no placement")
    rec.label(f"n={n}")
    rec.nontrivial(len(got) > 1)


def iso_poly(ts):
    """polynomial in isospin components alone; other indices are part of the name"""
    fields = [t for t in ts if hasattr(t, "label")]
    inv = [t for t in ts if not hasattr(t, "label")]
    pos = {}
    for k, f in enumerate(fields):
        for i in f.indices:
            if ref.kind(i) == "i":
                pos[ref.bare(i)] = k
    out = Counter()
    names = sorted(pos)
    for vals in itertools.product((0, 1), repeat=len(names)):
        v = dict(zip(names, vals))
        c = 1
        for t in inv:
            a, b = (v[ref.bare(i)] for i in t.indices)
            c *= int(ref.EPS2[a, b])
        if not c:
            continue
        mono = []
        for f in fields:
            other = tuple(str(i) for i in f.indices if ref.kind(i) != "i")
            comp = tuple(sorted(v[ref.bare(i)] for i in f.indices if ref.kind(i) == "i"))
            ferm = f.label.replace("†", "").lstrip("D") in ("L", "Q", "eb", "ub", "db")
            mono.append(((f.label, other, comp), ferm))
        sign, m = ref.grassmann_sort(mono)
        if sign:
            out[m] += sign * c
    return {m: c for m, c in out.items() if c}
