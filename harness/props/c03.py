"""C03 constructed operators are singlets of the requested fields"""
from collections import Counter

import hypothesis.strategies as st
import numpy as np

from .. import gen, ref
from ..core import Discard, check, sub


def invariant_value(op, kinds, seed=0, trials=2):
    """value of the operator must not change under random group elements acting on `kinds`"""
    rng = np.random.default_rng(seed)
    fields = ref.fields_of(op.tensors)
    for _ in range(trials):
        arrays = [ref.field_array(f, rng) for f in fields]
        g = ref.group_element(rng)
        for k in list(g):
            if k[0] not in kinds:
                g[k] = np.eye(ref.DIM[k[0]])
        moved = [ref.transform(f, a, g) for f, a in zip(fields, arrays)]
        a, free = ref.evaluate(op.tensors, arrays)
        b, _ = ref.evaluate(op.tensors, moved)
        scale = np.prod([np.linalg.norm(m) for m in moved]) + np.prod([np.linalg.norm(m) for m in arrays])
        bad = [x for x in free if x[0] in kinds]
        check(not bad, lambda: f"{op} has free indices {bad}")
        if any(x[0] not in kinds for x in free):
            # free indices of ignored kinds are untouched by g
            pass
        check(np.max(np.abs(a - b)) <= 1e-7 * scale, lambda: f"{op} changes from {a} to {b} under a group transformation of {kinds}")


def content(op):
    return Counter(repr(f) for f in op.fields)


def check_ops(ops, specs, ignore):
    fields = [gen.build(s) for s in specs]
    want = Counter(repr(f) for f in fields)
    counts = dict(zip([("u", False), ("d", False), ("c", False), ("c", True), ("i", False)], gen.index_counts(specs)))
    kinds = [k for k in "udci" if k not in ignore]
    for n, op in enumerate(ops):
        check(content(op) == want, lambda: f"{op}: fields {content(op)}, expected {want}")
        for f in op.fields:
            check(f in fields, lambda: f"{op}: {f} is not one of the given fields {fields}")
        free = gen.op_kinds(op)
        for k, c in counts.items():
            exp = c if k[0] in ignore else 0
            check(free.get(k, 0) == exp, lambda: f"{op}: {free.get(k, 0)} free indices of kind {k}, expected {exp} (ignore={ignore})")
        if n < 12:
            invariant_value(op, kinds, seed=n)


def rejectable(specs):
    """colour contractions the code says it does not implement"""
    _, _, cu, cd, _ = gen.index_counts(specs)
    return cu != cd and (cu, cd) not in ((3, 0), (0, 3))


IGNORES = ["", "u", "d", "ud", "i", "c", "udc", "udci"]


@sub(
    "unsimplified",
    strategy=lambda: st.tuples(gen.singlet_list(4, 120), st.sampled_from(IGNORES)).map(list),
    quick=160, thorough=3000,
)
def unsimplified(case, rec):
    """lists with a singlet, any index kinds left open; non-trivial: at least one operator with a contraction"""
    from neutrinomass.tensormethod.contract import unsimplified_invariants

    specs, ignore = case
    fields = [gen.build(s) for s in specs]
    try:
        ops = unsimplified_invariants(*fields, ignore=list(ignore))
    except ValueError as e:
        check("c" not in ignore and rejectable(specs), lambda: f"rejected {specs}: {e}")
        rec.label("rejected colour")
        rec.nontrivial(False)
        return
    check(len(ops) > 0, lambda: f"{fields} contains a singlet but nothing is returned")
    check_ops(ops, specs, ignore)
    rec.label(f"fields={len(specs)}", f"ignore={ignore}", "repeated" if len({str(s) for s in specs}) < len(specs) else "distinct")
    rec.nontrivial(any(len(op.tensors) > len(specs) for op in ops))


def sm_case():
    return st.lists(gen.sm_spec(gen.MATTER), min_size=2, max_size=5)


@sub("standard_model", strategy=lambda: st.tuples(st.lists(gen.sm_spec(gen.MATTER), min_size=1, max_size=3), st.integers(0, 4), st.booleans()).map(list), quick=140, thorough=2000)
def standard_model(case, rec):
    """invariants() of SM field lists closed with SM fields where possible; default and no ignored kinds"""
    from neutrinomass.tensormethod.contract import invariants

    specs, pick, full = case
    # try to close with one or two SM fields
    options = []
    for a in gen.MATTER:
        for ca in (False, True):
            one = specs + [["sm", a, ca]]
            options.append(one)
            if len(specs) <= 2:
                options += [one + [["sm", b, cb]] for b in gen.MATTER for cb in (False, True)]
    good = []
    for o in options:
        infos = [gen.spec_info(s) for s in o]
        if sum(i["y"] for i in infos) == 0 and ref.n_singlets([i["dynkin"] for i in infos]) and gen.structure_bound(o) <= 60:
            good.append(o)
    if not good:
        raise Discard()
    specs = good[pick % len(good)]
    fields = [gen.build(s) for s in specs]
    ignore = [] if full else ["u", "c", "d"]
    try:
        ops = invariants(*fields, ignore=ignore, remove_relabellings_=not full)  # removal is documented for isospin only
    except ValueError as e:
        check(full and rejectable(specs), lambda: f"rejected {specs}: {e}")
        rec.nontrivial(False)
        return
    check_ops(ops, specs, "".join(ignore))
    rec.label("full" if full else "default", f"ops={min(len(ops), 5)}")
    rec.nontrivial(len(ops) > 0)


@sub("none", strategy=lambda: st.lists(st.one_of(gen.sm_spec(gen.SM_LABELS), gen.small_exo()), min_size=2, max_size=4).filter(lambda s: gen.structure_bound(s) <= 300), quick=200, thorough=3000)
def none(case, rec):
    """arbitrary lists: nothing is returned exactly when there is no neutral singlet"""
    from neutrinomass.tensormethod.contract import invariants, unsimplified_invariants

    infos = [gen.spec_info(s) for s in case]
    exists = sum(i["y"] for i in infos) == 0 and ref.n_singlets([i["dynkin"] for i in infos]) > 0
    fields = [gen.build(s) for s in case]
    ops = unsimplified_invariants(*fields, ignore=["c"])
    check(bool(ops) == exists, lambda: f"{fields}: {len(ops)} operators although singlet exists: {exists}")
    if not exists:
        check(invariants(*fields) == [], "invariants of a product without singlets")
    rec.label("singlet" if exists else "no singlet")
    rec.nontrivial(sum(i["y"] for i in infos) == 0 or not exists)


@sub("colour", strategy=lambda: st.tuples(st.integers(0, 3), st.integers(0, 3), st.booleans(), st.integers(0, 1)).map(list), quick=60, thorough=60)
def colour(case, rec):
    """colour_singlets of n raised and m lowered indices: all fully contracted and SU(3) invariant, or rejected"""
    from neutrinomass.tensormethod.contract import colour_singlets
    from neutrinomass.tensormethod.core import Field

    n, m, over, spin = case
    if n + m == 0:
        raise Discard()
    op = 1
    fs = [Field(f"A{k}", "00100")(f"c{k}") for k in range(n)] + [Field(f"B{k}", "00010")(f"-c{n + k}") for k in range(m)]
    op = fs[0] * Field("Z", "00000")("")
    for f in fs[1:]:
        op = op * f
    try:
        res = colour_singlets([op], overcomplete=over)
    except ValueError:
        check(n != m and (n, m) not in ((3, 0), (0, 3)), lambda: f"{n} raised and {m} lowered indices rejected")
        rec.nontrivial(False)
        return
    check(n == m or (n, m) in ((3, 0), (0, 3)), f"{n} raised and {m} lowered indices cannot form a singlet")
    for k, r in enumerate(res):
        check(not r.free_indices, lambda: f"colour_singlets: {r} has free indices {r.free_indices}")
        check(content(r) == content(op), "content changed")
        invariant_value(r, ["c"], seed=k)


@sub("lorentz", strategy=lambda: st.tuples(st.integers(0, 4), st.integers(0, 4), st.integers(0, 3)).map(list), quick=80, thorough=80)
def lorentz(case, rec):
    """lorentz_singlets / su2_singlets_type: contracted or rejected"""
    from neutrinomass.tensormethod.contract import lorentz_singlets, su2_singlets_type
    from neutrinomass.tensormethod.core import Field

    u, d, i = case
    op = Field("Z", "00000")("") * Field("Y", "00000")("")
    for k in range(u):
        op = op * Field(f"A{k}", "10000")(f"u{k}")
    for k in range(d):
        op = op * Field(f"B{k}", "01000")(f"d{k}")
    for k in range(i):
        op = op * Field(f"C{k}", "00001")(f"i{k}")
    try:
        res = lorentz_singlets(op)
        check(u % 2 == 0 and d % 2 == 0, f"{u} undotted and {d} dotted indices cannot be contracted")
    except ValueError:
        check(u % 2 or d % 2, f"{u} undotted and {d} dotted indices rejected")
        res = []
    for k, r in enumerate(res):
        check(gen.op_kinds(r) == ({("i", False): i} if i else {}), lambda: f"{r} has free indices {r.free_indices}")
        check(content(r) == content(op), "content changed")
        invariant_value(r, ["u", "d"], seed=k)
    if i:
        try:
            iso = su2_singlets_type(op, "i")
            check(i % 2 == 0, "odd number of isospin indices contracted")
            for k, r in enumerate(iso):
                check(("i", False) not in gen.op_kinds(r), lambda: f"{r} has free isospin indices")
                invariant_value(r, ["i"], seed=k)
        except ValueError:
            check(i % 2 == 1, "even number of isospin indices rejected")
    rec.nontrivial(u + d > 0)
