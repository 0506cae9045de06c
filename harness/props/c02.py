"""C02 product decomposition"""
import hypothesis.strategies as st

from .. import gen, ref
from ..core import check, sub
from ..ref import frac


def content(tree):
    """leaves of a recorded product tree, in order"""
    from neutrinomass.tensormethod.core import Prod

    if isinstance(tree, Prod):
        return content(tree.left) + content(tree.right)
    return [tree]


def nodes(tree):
    from neutrinomass.tensormethod.core import Prod

    if isinstance(tree, Prod):
        return [tree] + nodes(tree.left) + nodes(tree.right)
    return []


def irrep_of(x):
    from neutrinomass.tensormethod.core import Prod

    return (x.irrep if isinstance(x, Prod) else x).dynkin


def counted(parts):
    out = {}
    for p in parts:
        k = tuple(map(int, p.dynkin))
        out[k] = out.get(k, 0) + p.multiplicity
    return out


def small(n_max, total):
    return st.lists(gen.field_spec(max_lorentz=2, max_colour=2, max_iso=3, total=total), min_size=2, max_size=n_max)


def check_parts(fields, specs, parts, multi):
    infos = [gen.spec_info(s) for s in specs]
    want = ref.product([i["dynkin"] for i in infos])
    y, b = sum(i["y"] for i in infos), sum(i["b"] for i in infos)
    for p in parts:
        check(frac(p.y) == y and frac(p.charges["3b"]) == b, lambda: f"{p} has charges {p.charges}, expected y={y} 3b={b}")
    got = counted(parts) if not multi else None
    if not multi:
        check(got == want, lambda: f"product of {fields}: got {got}, expected {want}")
    else:
        # every part arises through intermediate multiplicities along its tree
        got = {}
        for p in parts:
            m = 1
            q = p
            while q.history:
                m *= q.multiplicity
                q = q.history.left
            k = tuple(map(int, p.dynkin))
            got[k] = got.get(k, 0) + m
        check(got == want, lambda: f"product of {fields}: got {got}, expected {want}")
    total = 1
    for i in infos:
        total *= ref.dim(i["dynkin"])
    check(sum(ref.dim(k) * m for k, m in got.items()) == total, "dimensions do not add up")


@sub("pair", strategy=lambda: st.tuples(gen.field_spec(total=6), gen.field_spec(total=6)).map(list), quick=250, thorough=4000)
def pair(case, rec):
    """two fields; non-trivial: more than one part"""
    a, b = map(gen.build, case)
    parts = a * b
    check_parts([a, b], case, parts, False)
    rev = b * a
    check(counted(parts) == counted(rev), lambda: f"{a} * {b} and {b} * {a} differ")
    check({k: frac(v) for k, v in parts[0].charges.items()} == {k: frac(v) for k, v in rev[0].charges.items()}, "charges depend on order")
    for p in parts:
        check(p.history.left == a and p.history.right == b, lambda: f"{p} does not record its factors")
        check(p.label == a.label_with_dagger + b.label_with_dagger, lambda: f"label {p.label}")
        check(not p.is_conj and p.derivs == 0, "flags of a product")
    bar = a.conj * b.conj
    check(counted(bar) == {(k[1], k[0], k[3], k[2], k[4]): v for k, v in counted(parts).items()}, lambda: f"conjugate product of {a}, {b}")
    singlets = sum(p.multiplicity for p in parts if p.dynkin == "00000")
    da, db = a.dynkin, b.dynkin
    dual = da[:2] == db[:2] and da[2] == db[3] and da[3] == db[2] and da[4] == db[4]
    check(singlets == (1 if dual else 0), lambda: f"{singlets} singlets in {a} * {b}")
    rec.nontrivial(len(parts) > 1)


@sub("many", strategy=lambda: small(4, 4), quick=120, thorough=2000)
def many(case, rec):
    """three to five fields: parts, multiplicities, charges, product tree"""
    from neutrinomass.tensormethod.core import Prod, decompose_product

    fields = [gen.build(s) for s in case]
    bound = 1
    for f in fields:
        bound *= len(f.dynkin) and (1 + sum(f.dynkin_ints))
    parts = decompose_product(*fields)
    check(isinstance(parts, list), "decompose_product of several fields is a list")
    check_parts(fields, case, parts, len(fields) > 2)
    for p in parts:
        tree = p.walked()
        check(content(tree) == fields, lambda: f"{p}: product tree has leaves {content(tree)}, expected {fields}")
        for n in nodes(tree):
            poss = ref.product([irrep_of(n.left), irrep_of(n.right)])
            check(tuple(map(int, n.irrep.dynkin)) in poss, lambda: f"node {n.irrep} is not in {n.left} x {n.right}")
        check(tree.irrep == p, "root of the tree")
    rec.label(f"n={len(fields)}")
    rec.nontrivial(len(parts) > 1)


@sub("order", strategy=lambda: st.tuples(small(3, 4), st.integers(0, 119)).map(list), quick=80, thorough=1500)
def order(case, rec):
    """the same fields multiplied in another order"""
    import itertools

    from neutrinomass.tensormethod.core import decompose_product

    specs, k = case
    perms = list(itertools.permutations(specs))
    other = list(perms[k % len(perms)])

    def spectrum(ss):
        out = {}
        for p in decompose_product(*map(gen.build, ss)):
            m, q = 1, p
            while q.history:
                m *= q.multiplicity
                q = q.history.left
            key = (p.dynkin, tuple(sorted((a, frac(b)) for a, b in p.charges.items())), p.is_singlet)
            out[key] = out.get(key, 0) + m
        return out

    check(spectrum(specs) == spectrum(other), lambda: f"order matters for {specs}")
    rec.nontrivial(other != specs)


@sub("sm", strategy=lambda: st.lists(gen.sm_spec(gen.MATTER), min_size=2, max_size=5), quick=60, thorough=600)
def sm(case, rec):
    """products of two to five SM fields, singlets counted independently"""
    from neutrinomass.tensormethod.core import decompose_product

    fields = [gen.build(s) for s in case]
    parts = decompose_product(*fields)
    check_parts(fields, case, parts, len(fields) > 2)
    infos = [gen.spec_info(s) for s in case]
    neutral = sum(i["y"] for i in infos) == 0
    n = 0
    for p in parts:
        if p.dynkin == "00000":
            check(p.is_singlet == neutral, lambda: f"{p}.is_singlet = {p.is_singlet}")
            m, q = 1, p
            while q.history:
                m *= q.multiplicity
                q = q.history.left
            n += m
        else:
            check(not p.is_singlet, lambda: f"{p} counted as a singlet")
    check(n == ref.n_singlets([i["dynkin"] for i in infos]), lambda: f"{n} singlets for {fields}")
    rec.label(f"n={len(fields)}", "singlet" if n else "none")


@sub("single", strategy=lambda: gen.field_spec(), quick=60)
def single(case, rec):
    """a single field is its own decomposition"""
    from neutrinomass.tensormethod.core import decompose_product

    f = gen.build(case)
    check(decompose_product(f) == f, "decomposing one field changes it")
    check(f.walked() == f, "a field without history is its own tree")


@sub("charges", strategy=lambda: st.tuples(gen.field_spec(total=4), gen.field_spec(total=4), st.dictionaries(st.sampled_from(["l", "pq", "z3", "x"]), st.tuples(gen.charges(), gen.charges()), max_size=3)).map(list), quick=80, thorough=1000, budget=(10, 40))
def charges(case, rec):
    """fields with further U(1) charges beside hypercharge and baryon number: the products add every charge, conjugation reverses it; non-trivial: such a charge"""
    from neutrinomass.tensormethod.core import Field
    from sympy import Rational

    a, b, more = case
    fields = []
    for k, s in enumerate((a, b)):
        f = gen.build(s)
        c = {**f.charges, **{n: Rational(v[k]) for n, v in more.items()}}
        fields.append(Field(f.label, f.dynkin, charges=c, comm=f.comm, is_conj=f.is_conj))
    rec.nontrivial(bool(more))
    values = lambda f: {k: frac(v) for k, v in f.charges.items()}
    x, y = map(values, fields)
    for p in fields[0] * fields[1]:
        check(values(p) == {k: x[k] + y[k] for k in x}, lambda: f"product of charges {x} and {y} has {p.charges}")
    for p in fields[0].conj * fields[1]:
        check(values(p) == {k: y[k] - x[k] for k in x}, lambda: f"product of charges {y} and the opposite of {x} has {p.charges}")
