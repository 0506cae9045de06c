"""C05 simplification never changes what an operator is"""
import itertools
from collections import Counter
from fractions import Fraction

import hypothesis.strategies as st

from .. import gen, ref
from ..core import Discard, check, sub

# ---- cases: {"fields": [spec...], "pairs": [choice ints], "exotic": [bool...]}; indices are numbered in order


def pool_spec():
    sm = st.tuples(st.just("sm"), st.sampled_from(["L", "Q", "eb", "ub", "db", "H", "H"]), st.booleans()).map(list)
    exo = st.tuples(
        st.just("x"), st.sampled_from(["φ", "ψ", "S", "F"]), st.sampled_from(["00000", "00001", "00002", "00003", "10000", "10001", "01001", "10002", "00110", "00101", "10010", "20000", "11000", "21000", "12001", "00200", "00210"]),
        st.just("0"), st.just("0"), st.just("auto"), st.sampled_from([1, 1, 3]), st.booleans(),
    ).map(list)
    return st.one_of(sm, exo)


def op_case(max_fields=4, classes=("field",)):
    """two or three species, repeated, with a pairing choice"""
    return (
        st.tuples(
            st.lists(pool_spec(), min_size=1, max_size=2),
            st.lists(st.integers(0, 1), min_size=2, max_size=max_fields),
            st.lists(st.integers(0, 30), min_size=8, max_size=8),
            st.lists(st.booleans(), min_size=4, max_size=4),
            st.sampled_from(list(classes)),
        )
        .map(lambda t: {"fields": [t[0][k % len(t[0])] for k in t[1]], "pick": t[2], "skip": t[3], "cls": t[4]})
        .filter(lambda c: sum(gen.index_counts(c["fields"])) <= 9)
    )


def build_fields(case):
    from neutrinomass.completions.core import cons_completion_field

    out = []
    n = 0
    for j, s in enumerate(case["fields"]):
        f = gen.build(s)
        string, n = gen.index_string(f.dynkin, n, gen=j if f.nf > 1 and case["cls"] == "field" else None)
        x = f(string)
        if case["cls"] == "exotic":
            x = cons_completion_field(x)
        out.append(x)
    return out


def contract(case, fields, shift=0):
    """choose disjoint pairs of each kind; leave some free"""
    from neutrinomass.tensormethod.core import delta, eps

    picks = [p + shift for p in case["pick"]]
    tensors = []
    k = 0
    for kind, skip in zip("udi", case["skip"]):
        idx = [str(i) for f in fields for i in f.indices if ref.kind(i) == kind]
        keep = 2 if skip else 0
        while len(idx) > 1 + keep:
            a = idx.pop(0)
            b = idx.pop(picks[k % len(picks)] % len(idx))
            k += 1
            tensors.append(eps(f"-{a} -{b}"))
    ups = [str(i) for f in fields for i in f.indices if ref.kind(i) == "c" and not ref.is_down(i)]
    downs = [str(i) for f in fields for i in f.indices if ref.kind(i) == "c" and ref.is_down(i)]
    if case["skip"][3] and len(ups) >= 3:
        tensors.append(eps(" ".join("-" + ups.pop(0) for _ in range(3))))
    while ups and downs:
        b = downs.pop(0)
        a = ups.pop(picks[k % len(picks)] % len(ups))
        k += 1
        tensors.append(delta(f"{b[1:]} -{a}"))
    return tensors


def product_of(fields, tensors):
    op = fields[0]
    for f in fields[1:]:
        op = op * f
    for t in tensors:
        op = op * t
    return op


def free_names(tensors):
    n = Counter(ref.bare(i) for t in tensors for i in (ref.gauge_indices(t) if hasattr(t, "label") else t.indices))
    return sorted(k for k, v in n.items() if v == 1)


def poly(tensors, fermion_of=None):
    """{(free index values, monomial): coefficient}; a general evaluation that also takes directly contracted
    (raised/lowered) dummy pairs, as sympy prints them"""
    fields, inv = [], []
    for t in tensors:
        (fields if not is_invariant(t) else inv).append(t)
    uses = {}
    for t in tensors:
        for i in idx_of(t):
            uses.setdefault(ref.bare(i), []).append(i)
    kinds = {b: ref.kind(i[0]).lower() for b, i in uses.items()}
    free = sorted(b for b, v in uses.items() if len(v) == 1 and kinds[b] != "g")
    # every use of a dummy inside a field gets its own value; joined by eps / delta / direct contraction
    conds = []
    slots = []  # (name, kind)
    fslots = []
    for f in fields:
        mine = []
        for i in idx_of(f):
            if ref.kind(i).lower() == "g":
                continue
            slots.append(i)
            mine.append(len(slots) - 1)
        fslots.append(mine)
    where = {}
    for k, i in enumerate(slots):
        where.setdefault(ref.bare(i), []).append(k)
    tens = []  # (array, slot/free references)
    frees = {}
    for b in free:
        if b in where:
            frees[b] = where[b][0]
    extra = {}
    for t in inv:
        arr, idx = ref.invariant_array(t)
        refs = []
        for i in idx:
            b = ref.bare(i)
            if b in where:
                refs.append(("s", where[b][0]))
            else:
                refs.append(("e", b))
                extra[b] = kinds[b]
        tens.append((arr, refs))
    for b, ks in where.items():
        if len(ks) == 2:
            hi, lo = sorted(ks, key=lambda k: ref.is_down(slots[k]))
            tens.append((ref.EPS2 if kinds[b] != "c" else ref.np.eye(3), [("s", hi), ("s", lo)]))
    out = Counter()
    assigned = [({}, 1)]
    for arr, refs in tens:
        nz = [(pos, int(round(arr[pos]))) for pos in zip(*ref.np.nonzero(arr))]
        new = []
        for asg, c in assigned:
            for pos, v in nz:
                a = dict(asg)
                if all(a.setdefault(r, p) == p for r, p in zip(refs, pos)):
                    new.append((a, c * v))
        assigned = new
    rest = [k for k in range(len(slots)) if not any(("s", k) in refs for _, refs in tens)]
    for asg, c in assigned:
        for vals in itertools.product(*[range(ref.DIM[ref.kind(slots[k]).lower()]) for k in rest]):
            a = {**asg, **{("s", k): v for k, v in zip(rest, vals)}}
            mono = []
            for f, mine in zip(fields, fslots):
                comp = {}
                for k in mine:
                    kd = ref.kind(slots[k]).lower()
                    comp.setdefault((kd, height(f, slots[k])), []).append(int(a[("s", k)]))
                gens = tuple(ref.bare(i) for i in idx_of(f) if ref.kind(i).lower() == "g")
                name = (name_of(f), gens, tuple(sorted((k, tuple(sorted(v))) for k, v in comp.items())))
                mono.append((name, fermionic(f)))
            sign, m = ref.grassmann_sort(mono)
            if sign:
                fv = tuple(int(a[("s", frees[b])]) if b in frees else int(a[("e", b)]) for b in free)
                out[(fv, m)] += sign * c
    return {m: c for m, c in out.items() if c}


def height(f, i):
    # SU(2) dummies may be printed lowered; only colour distinguishes heights, by the head's slot order
    return ref.is_down(i) if ref.kind(i).lower() == "c" else False


def is_invariant(t):
    s = str(t)
    return s.startswith(("Eps", "KD", "metric"))


def idx_of(t):
    return list(t.get_indices()) if hasattr(t, "get_indices") else list(t.indices)


def name_of(t):
    return str(t.args[0].args[0]) if hasattr(t, "args") and not isinstance(t.args[0], str) else str(t)


def fermionic(t):
    ks = [ref.kind(i).lower() for i in idx_of(t)]
    return (ks.count("u") + ks.count("d")) % 2 == 1


def simplified_tensors(expr):
    """(coefficient, tensors) of a sympy result"""
    from sympy.tensor.tensor import TensMul, Tensor

    if expr == 0:
        return 0, []
    if isinstance(expr, TensMul):
        return Fraction(str(expr.coeff)), [a for a in expr.args if hasattr(a, "get_indices")]
    if isinstance(expr, Tensor):
        return 1, [expr]
    raise AssertionError(f"unexpected simplified form {type(expr)} {expr}")


def exchange_kills(fields, tensors):
    """True if some permutation of equal fields (or an epsilon on symmetric indices of one field) maps the operator to
    minus itself."""
    n = len(fields)
    owner = {}
    for k, f in enumerate(fields):
        for i in ref.gauge_indices(f):
            owner[ref.bare(i)] = (k, ref.kind(i), ref.is_down(i))
    edges = []
    used = set()
    for t in tensors:
        names = [ref.bare(i) for i in t.indices]
        used |= set(names)
        ends = [owner[x] for x in names]
        if len(names) != 2 or not str(t).startswith("KD"):
            if len({e for e in ends}) < len(ends):
                return True  # antisymmetric tensor on two symmetric indices of one field
        edges.append((str(t).startswith("KD"), len(names), ends))
    pinned = set()
    for k, f in enumerate(fields):
        if any(ref.kind(i) == "g" for i in f.indices) or any(ref.bare(i) not in used for i in ref.gauge_indices(f)):
            pinned.add(k)
    labels = [f.label for f in fields]
    # canonicalisation is not complete when a free index singles out one of several equal fields: not claimed
    pinned |= {k for k in range(n) if any(labels[k] == labels[j] for j in pinned)}
    for perm in itertools.permutations(range(n)):
        if any(labels[k] != labels[perm[k]] for k in range(n)) or any(perm[k] != k for k in pinned):
            continue
        sign = 1
        for a in range(n):
            for b in range(a + 1, n):
                if perm[a] > perm[b] and fermionic(fields[a]) and fermionic(fields[b]):
                    sign = -sign
        have, want = Counter(), Counter()
        for kd, m, ends in edges:
            s1, e1 = canon_edge(kd, ends)
            s2, e2 = canon_edge(kd, [(perm[e[0]], e[1], e[2]) for e in ends])
            sign *= s1 * s2
            have[e1] += 1
            want[e2] += 1
        if have == want and sign == -1:
            return True
    return False


def canon_edge(kd, ends):
    if kd:
        return 1, (kd, tuple(sorted(ends)))
    order = sorted(range(len(ends)), key=lambda k: ends[k])
    sign = 1
    for a in range(len(order)):
        for b in range(a + 1, len(order)):
            if order[a] > order[b]:
                sign = -sign
    return sign, (kd, tuple(sorted(ends)))


def examine(case, rec):
    fields = build_fields(case)
    tensors = contract(case, fields)
    op = product_of(fields, tensors)
    if not any(len(idx_of(f)) for f in fields):
        raise Discard()
    p = poly(op.tensors)
    traced = any(str(t).startswith("KD") and len({k for k, f in enumerate(fields) for i in f.indices if ref.bare(i) in [ref.bare(x) for x in t.indices]}) == 1 for t in tensors)
    res = op.safe_simplify()
    zero = res == 0
    dead = exchange_kills(fields, tensors)
    rec.label("zero" if not p else "nonzero", "simplified to 0" if zero else "kept", "exchange" if dead else "", case["cls"], f"free={len(free_names(op.tensors))}")
    rec.nontrivial(len({str(s) for s in case["fields"]}) < len(case["fields"]) and bool(tensors))
    if zero:
        check(not p or traced, lambda: f"{op} simplifies to 0 although it does not vanish ({len(p)} terms)")
    else:
        check(not dead, lambda: f"{op} changes sign when equal fields are exchanged, but simplifies to {res}")
        c, ts = simplified_tensors(res)
        check(c != 0, "zero coefficient")
        q = poly(ts)
        check(ref.proportional(p, q), lambda: f"{op} simplifies to {res}, which is not a multiple of it")
    return op, p


@sub("fields", strategy=lambda: op_case(4), quick=300, thorough=6000)
def fields(case, rec):
    """ordinary fields, any contraction with some indices left free; non-trivial: repeated field and a contraction"""
    examine(case, rec)


@sub("exotics", strategy=lambda: op_case(4, classes=("exotic",)).filter(lambda c: all(gen.build(s).is_scalar or gen.build(s).is_left_fermion or gen.build(s).is_right_fermion for s in c["fields"])), quick=200, thorough=4000)
def exotics(case, rec):
    """the four exotic field classes in place of ordinary fields"""
    examine(case, rec)


@sub("clean", strategy=lambda: st.tuples(op_case(4), st.lists(st.integers(0, 12), min_size=2, max_size=5)).map(list), quick=150, thorough=2500)
def clean(case, rec):
    """clean_operators on several contractions of the same fields: every dropped operator vanishes or is a multiple of a kept one"""
    from neutrinomass.tensormethod.contract import clean_operators

    base, shifts = case
    fields = build_fields(base)
    if not any(len(idx_of(f)) for f in fields):
        raise Discard()
    lists = [contract(base, build_fields(base), s) for s in shifts]
    ops = [product_of(build_fields(base), t) for t in lists]
    kept = clean_operators(ops)
    check(all(any(k is o for o in ops) for k in kept), "clean_operators returns operators that are not among its inputs")
    polys = [poly(o.tensors) for o in ops]
    keptp = [polys[next(i for i, o in enumerate(ops) if o is k)] for k in kept]
    for o, p, t in zip(ops, polys, lists):
        dead = exchange_kills(fields, t)
        is_kept = any(o is k for k in kept)
        if dead:
            check(not is_kept, lambda: f"{o} vanishes but is kept")
        if is_kept or not p:
            continue
        frees = free_names(o.tensors)
        check(
            any(related(p, q, frees, free_names(k.tensors)) for k, q in zip(kept, keptp)),
            lambda: f"{o} was dropped; kept: {kept}",
        )
    seen = []
    for o, p in zip(kept, keptp):
        for t in seen:
            check(not (t[1] is o), "kept twice")
        seen.append((p, o))
    rec.label(f"kept={len(kept)}/{len(ops)}")
    rec.nontrivial(0 < len(kept) < len(ops))


def related(p, q, fp, fq):
    """proportional, up to renaming free indices of the same kind"""
    if len(fp) != len(fq):
        return False
    if not fp:
        return ref.proportional(p, q)
    for perm in itertools.permutations(range(len(fp))):
        if any(fp[a][0] != fq[b][0] for a, b in enumerate(perm)):
            continue
        moved = {(tuple(fv[perm.index(j)] for j in range(len(fq))), m): c for (fv, m), c in p.items()}
        if ref.proportional(moved, q):
            return True
    return False


@sub("equivalent", strategy=lambda: st.tuples(op_case(4), st.integers(0, 12), st.integers(0, 12)).map(list), quick=150, thorough=2500)
def equivalent(case, rec):
    """is_equivalent_to only for proportional operators; reflexive and symmetric"""
    base, a, b = case
    fields = build_fields(base)
    if not any(len(idx_of(f)) for f in fields):
        raise Discard()
    o1 = product_of(build_fields(base), contract(base, build_fields(base), a))
    o2 = product_of(build_fields(base), contract(base, build_fields(base), b))
    r = o1.is_equivalent_to(o2)
    check(r == o2.is_equivalent_to(o1), lambda: f"is_equivalent_to not symmetric on {o1}, {o2}")
    check(o1.is_equivalent_to(o1), lambda: f"{o1} not equivalent to itself")
    p, q = poly(o1.tensors), poly(o2.tensors)
    same = ref.proportional(p, q) or related(p, q, free_names(o1.tensors), free_names(o2.tensors))
    if r:
        check(same, lambda: f"{o1} and {o2} are called equivalent")
    rec.label("equivalent" if r else ("proportional" if same else "different"))
    rec.nontrivial(a % 3 != b % 3)
