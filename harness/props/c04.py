"""C04 contraction enumerates every independent singlet structure"""
import math

import hypothesis.strategies as st
import numpy as np

from .. import gen, ref
from ..core import Discard, check, sub
from .c03 import rejectable


def structure_rank(ops, n_samples, rng):
    """rank of the operators as multilinear functions of their fields (all fields distinct variables).
    Operators list the same fields, possibly in another order: arrays are keyed by field name + occurrence and
    by the index labels they carry."""
    if not ops:
        return 0
    # the index names differ between operators, so identify the k-th occurrence of each field label with slot k
    rows = [[] for _ in ops]
    for _ in range(n_samples):
        slots = {}
        for r, op in enumerate(ops):
            seen = {}
            arrays = []
            for f in ref.fields_of(op.tensors):
                k = seen.get(f.label, 0)
                seen[f.label] = k + 1
                if (f.label, k) not in slots:
                    slots[(f.label, k)] = ref.field_array(f, rng)
                arrays.append(slots[(f.label, k)])
            val, free = ref.evaluate(op.tensors, arrays)
            assert not free
            rows[r].append(complex(val))
    return ref.rank(rows)


def distinct_labels(specs):
    """make every field a different variable (own label) by giving exotics separate labels"""
    out = []
    for k, s in enumerate(specs):
        i = gen.spec_info(s)
        out.append(["x", f"A{k}", i["dynkin"], str(i["y"]), str(i["b"]), "auto", 1, False])
    return out


@sub("span", strategy=lambda: gen.singlet_list(5, 90), quick=110, thorough=2500)
def span(case, rec):
    """unsimplified structures of distinct fields span the space of invariants; non-trivial: more than one invariant"""
    from neutrinomass.tensormethod.contract import unsimplified_invariants

    if rejectable(case):
        rec.nontrivial(False)
        raise Discard()
    specs = distinct_labels(case)
    n = ref.n_singlets([gen.spec_info(s)["dynkin"] for s in specs])
    ops = unsimplified_invariants(*[gen.build(s) for s in specs])
    if len(ops) > 1500:
        raise Discard()
    # the same structure comes up once per path: keep the first of each (by its own contraction pattern)
    ops = dedupe(ops)
    got = structure_rank(ops, n + 4, np.random.default_rng(1))
    rec.label(f"invariants={min(n, 12)}", f"fields={len(specs)}")
    rec.nontrivial(n > 1)
    check(got == n, lambda: f"{[gen.build(s) for s in specs]}: {len(ops)} structures of rank {got}, expected {n} invariants")


def pattern(op):
    """contraction pattern with index names replaced by (field slot, position)"""
    where = {}
    seen = {}
    for f in ref.fields_of(op.tensors):
        k = seen.get(f.label, 0)
        seen[f.label] = k + 1
        for pos, i in enumerate(ref.gauge_indices(f)):
            where[ref.bare(i)] = (f.label, k, pos)
    out = []
    for t in op.tensors:
        if not hasattr(t, "label"):
            out.append(tuple(sorted(where.get(ref.bare(i), ("?", 0, ref.bare(i))) for i in t.indices)))
    return tuple(sorted(out))


def dedupe(ops):
    out = {}
    for op in ops:
        out.setdefault(pattern(op), op)
    return list(out.values())


@sub("isospin", strategy=lambda: st.lists(st.tuples(st.sampled_from(["L", "Q", "H", "eb", "ub", "db"]), st.booleans()), min_size=2, max_size=6).map(lambda l: [["sm", a, b] for a, b in l]).filter(lambda s: gen.index_counts(s)[4] in (2, 4, 6)), quick=60, thorough=1500, budget=(40, 800))
def isospin(case, rec):
    """invariants() of SM fields, isospin only, before and after removal of relabellings: the polynomials in the
    components span the same space as all perfect pairings do"""
    from neutrinomass.tensormethod.contract import invariants
    from neutrinomass.tensormethod.core import eps

    fields = [gen.build(s) for s in case]
    infos = [gen.spec_info(s) for s in case]
    # close the rest of the quantum numbers with one inert singlet-isospin field if possible
    y = sum(i["y"] for i in infos)
    rest = [k[:4] for k in ref.product([i["dynkin"][:4] + "0" for i in infos])]
    u, d, cu, cd = min(rest, key=lambda r: (sum(r), r))
    closing = gen.fresh_exo("Z", f"{u}{d}{cd}{cu}0", -y, 0)
    specs = case + [closing]
    if gen.structure_bound(specs, "udc") > 15:
        raise Discard()
    fs = [gen.build(s) for s in specs]
    all_ops = invariants(*fs, ignore=["u", "d", "c"], remove_relabellings_=False)
    few = invariants(*fs, ignore=["u", "d", "c"])
    # reference: all perfect pairings
    base = [f.fresh_indices() for f in fs]
    iso = [i for f in base for i in f.indices if ref.kind(i) == "i"]
    refops = []
    for pairing in pairings(iso):
        prod = base[0]
        for f in base[1:]:
            prod = prod * f
        for a, b in pairing:
            prod = prod * eps(f"{(-a).label} {(-b).label}")
        refops.append(prod)
    want = polyrank(refops)
    a, b = polyrank(all_ops), polyrank(few)
    rec.label(f"rank={want}")
    rec.nontrivial(want > 0)
    check(a == want, lambda: f"{fs}: invariants before removing relabellings span {a} of {want} structures")
    check(b == want, lambda: f"{fs}: invariants span {b} of {want} structures")


def pairings(xs):
    if not xs:
        yield []
        return
    a = xs[0]
    for k in range(1, len(xs)):
        for rest in pairings(xs[1:k] + xs[k + 1 :]):
            yield [(a, xs[k])] + rest


def polyrank(ops):
    """rank over isospin structure, up to exchange of equal fermions (which carry generation, spinor and colour labels of
    their own): every operator is turned into its set of relabellings, and the span of all of them is measured.  Equal
    scalars are one and the same variable."""
    rows = []
    rng = np.random.default_rng(3)
    import itertools

    if not ops:
        return 0
    samples = [{} for _ in range(30)]
    for op in ops:
        fields = ref.fields_of(op.tensors)
        groups = {}
        for pos, f in enumerate(fields):
            groups.setdefault(f.label, []).append(pos)
        keys = list(groups)
        perms = [list(itertools.permutations(range(len(groups[k])))) if fields[groups[k][0]].is_fermion else [[0] * len(groups[k])] for k in keys]
        for perm in itertools.product(*perms):
            slot = {}
            for k, p in zip(keys, perm):
                for pos, q in zip(groups[k], p):
                    slot[pos] = (k, q)
            row = []
            for s in samples:
                arrays = []
                for pos, f in enumerate(fields):
                    n = sum(1 for i in f.indices if ref.kind(i) == "i")
                    key = slot[pos]
                    if key not in s:
                        s[key] = ref.symmetrise(rng.normal(size=(2,) * n), [list(range(n))])
                    arrays.append(s[key])
                row.append(iso_value(op, fields, arrays))
            rows.append(row)
    return ref.rank(rows)


def iso_value(op, fields, arrays):
    names, args = {}, []
    for f, a in zip(fields, arrays):
        idx = [ref.bare(i) for i in f.indices if ref.kind(i) == "i"]
        args += [a, [names.setdefault(x, len(names)) for x in idx]]
    for t in op.tensors:
        if not hasattr(t, "label") and ref.kind(t.indices[0]) == "i":
            args += [ref.EPS2, [names[ref.bare(i)] for i in t.indices]]
    return float(np.einsum(*args, [], optimize="greedy"))


@sub("pairings", strategy=lambda: st.tuples(st.sampled_from("udi"), st.lists(st.integers(1, 3), min_size=1, max_size=4).filter(lambda l: sum(l) <= 8), st.integers(0, 2)).map(list), quick=80, thorough=80)
def pairings_sub(case, rec):
    """su2_singlets_type returns every perfect pairing of the free indices of one kind exactly once"""
    from neutrinomass.tensormethod.contract import su2_singlets_type
    from neutrinomass.tensormethod.core import Field

    kind, ns, other = case
    pos = {"u": 0, "d": 1, "i": 4}[kind]
    op = Field("Z", "00000")("") * Field("Y", "00000")("")
    k = 0
    names = []
    for f, n in enumerate(ns):
        d = ["0"] * 5
        d[pos] = str(n)
        idx = [f"{kind}{k + j}" for j in range(n)]
        names += idx
        k += n
        op = op * Field(f"A{f}", "".join(d))(" ".join(idx))
    o = "i" if kind != "i" else "u"
    for j in range(other):
        op = op * Field(f"B{j}", "00001" if o == "i" else "10000")(f"{o}{j}")
    if k % 2:
        raise Discard()
    res = su2_singlets_type(op, kind)
    got = [frozenset(frozenset(ref.bare(i) for i in t.indices) for t in r.tensors if not hasattr(t, "label")) for r in res]
    check(len(set(got)) == len(got), lambda: f"pairings of {names} repeated: {got}")
    want = {frozenset(frozenset(p) for p in m) for m in pairings(names)}
    check(set(got) == want, lambda: f"{len(got)} pairings of {names}, expected {len(want)}")
    for r in res:
        check(len([i for i in r.free_indices]) == other, "other indices touched")
    rec.nontrivial(k >= 2)


@sub("lorentz", strategy=lambda: st.tuples(st.sampled_from([0, 2, 4, 6]), st.sampled_from([0, 2, 4])).map(list), quick=12, thorough=12)
def lorentz(case, rec):
    """lorentz_singlets: the product of all pairings of undotted and dotted indices, each once"""
    from neutrinomass.tensormethod.contract import lorentz_singlets
    from neutrinomass.tensormethod.core import Field

    u, d = case
    op = Field("Z", "00000")("") * Field("Y", "00000")("")
    for k in range(u):
        op = op * Field(f"A{k}", "10000")(f"u{k}")
    for k in range(d):
        op = op * Field(f"B{k}", "01000")(f"d{k}")
    res = lorentz_singlets(op)
    got = {pattern(r) for r in res}
    check(len(res) == len(got) == ref.matchings(u) * ref.matchings(d), lambda: f"{len(res)} structures ({len(got)} different) for {u} undotted, {d} dotted indices")


@sub("colour", strategy=lambda: st.tuples(st.integers(0, 4), st.booleans(), st.permutations(range(8))).map(list), quick=40, thorough=80)
def colour(case, rec):
    """colour_singlets: all n! pairings once (n raised, n lowered); span of all colour invariants"""
    from neutrinomass.tensormethod.contract import colour_singlets
    from neutrinomass.tensormethod.core import Field

    n, over, order = case
    if n == 0:
        raise Discard()
    fs = [Field(f"A{k}", "00100")(f"c{k}") for k in range(n)] + [Field(f"B{k}", "00010")(f"-c{n + k}") for k in range(n)]
    fs = [fs[k] for k in order if k < 2 * n]
    op = Field("Z", "00000")("") * fs[0]
    for f in fs[1:]:
        op = op * f
    res = colour_singlets([op], overcomplete=over)
    deltas = [r for r in res if all(hasattr(t, "label") or str(t).startswith("KD") for t in r.tensors)]
    pats = [pattern(r) for r in deltas]
    check(len(pats) == len(set(pats)) == math.factorial(n), lambda: f"{len(pats)} pairings ({len(set(pats))} different) of {n}+{n} colour indices")
    extra = len(res) - len(deltas)
    want_extra = (1 if n == 3 else 0) + (1 if over and n == 2 else 0)
    check(extra == want_extra, lambda: f"{extra} epsilon structures for {n}+{n} indices, overcomplete={over}")
    got = structure_rank(res, 40, np.random.default_rng(2))
    want = ref.n_singlets(["00100"] * n + ["00010"] * n, "c")
    check(got == want, lambda: f"colour structures have rank {got}, expected {want}")
    rec.nontrivial(n > 1)


@sub("helper", strategy=lambda: st.tuples(st.sampled_from("udi"), st.integers(0, 4), st.integers(0, 4), st.integers(0, 8)).map(list), quick=150, thorough=500)
def helper(case, rec):
    """contract_su2_helper: for every allowed target, epsilons contract left with right indices, leaving that many free"""
    from neutrinomass.tensormethod.contract import contract_su2_helper
    from neutrinomass.tensormethod.core import Field

    kind, a, b, out = case
    pos = {"u": 0, "d": 1, "i": 4}[kind]

    def mk(label, n, start):
        d = ["0"] * 5
        d[pos] = str(n)
        return Field(label, "".join(d))(" ".join(f"{kind}{start + j}" for j in range(n)))

    l, r = mk("A", a, 0), mk("B", b, a)
    ok = abs(a - b) <= out <= a + b and (a + b - out) % 2 == 0
    if not ok:
        rec.nontrivial(False)
        raise Discard()
    res = contract_su2_helper(l, r, out, kind)
    check(len(res) > 0, lambda: f"no contraction of {a} and {b} indices to {out}")
    for e in res:
        op = l * r * e
        check(len(op.free_indices) == out, lambda: f"{op}: {len(op.free_indices)} free indices, wanted {out}")
        for t in op.tensors:
            if not hasattr(t, "label"):
                names = [int(ref.bare(i)[1:]) for i in t.indices]
                check(sorted(x >= a for x in names) == [False, True], lambda: f"{op}: epsilon joins two indices of the same side")
    # symmetric fields: every structure is the same up to sign, so it suffices that one is nonzero
    rng = np.random.default_rng(0)
    arrays = [ref.field_array(l, rng), ref.field_array(r, rng)]
    v, _ = ref.evaluate((l * r * res[0]).tensors, arrays)
    check(np.max(np.abs(v)) > 1e-9, "vanishing structure")
