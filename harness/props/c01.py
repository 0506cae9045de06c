"""C01 conjugation"""
from fractions import Fraction

import hypothesis.strategies as st

from .. import gen, ref
from ..core import check, sub
from ..ref import frac


def describe(f):
    return f"{f.label_with_dagger} dynkin={f.dynkin} charges={f.charges}"


def flip_index(s):
    """reference: conjugate of a printed index"""
    neg, b = (True, s[1:]) if s.startswith("-") else (False, s)
    if b[0] == "u":
        return ("-" if neg else "") + "d" + b[1:]
    if b[0] == "d":
        return ("-" if neg else "") + "u" + b[1:]
    if b[0] == "c":
        return b if neg else "-" + b
    return s


def check_conj(f, c, what):
    check(set(f.charges) == set(c.charges), lambda: f"{what}: charge names differ {f.charges} {c.charges}")
    for k in f.charges:
        check(frac(c.charges[k]) == -frac(f.charges[k]), lambda: f"{what}: charge {k} of conjugate of {describe(f)} is {c.charges[k]}")
    check(c.dynkin == ref.conj_dynkin(f.dynkin), lambda: f"{what}: conjugate of {describe(f)} has dynkin {c.dynkin}")
    check(c.is_conj == (not f.is_conj), lambda: f"{what}: conjugation flag not toggled for {describe(f)}")
    for a in ("comm", "derivs", "nf"):
        check(getattr(f, a) == getattr(c, a), lambda: f"{what}: {a} changed from {getattr(f, a)} to {getattr(c, a)} for {describe(f)}")
    check(c.is_fermion == f.is_fermion and c.is_scalar == f.is_scalar and c.is_vector == f.is_vector, f"{what}: spin changed")
    check(c.is_left_fermion == f.is_right_fermion and c.is_right_fermion == f.is_left_fermion, f"{what}: chirality not exchanged")
    check(c.is_real_sm_irrep == f.is_real_sm_irrep, f"{what}: reality changed")


def same(a, b, what):
    check(a == b and b == a, lambda: f"{what}: {describe(a)} != {describe(b)} ({a._dict} / {b._dict})")
    check(hash(a) == hash(b), lambda: f"{what}: equal fields {describe(a)} hash differently")


@sub("field", strategy=lambda: st.tuples(gen.field_spec(), st.lists(st.tuples(st.sampled_from("lpqz"), gen.charges()), max_size=3, unique_by=lambda x: x[0])).map(list), quick=1500)
def field(case, rec):
    """fields over random irreps/charges (also extra charges); non-trivial: not a real singlet"""
    spec, extra = case
    from neutrinomass.tensormethod.core import Field

    f = gen.build(spec)
    if extra:
        base = f.conj if spec[-1] else f
        ch = {k: str(v) for k, v in base.charges.items()}
        f = Field(base.label, base.dynkin, charges={**ch, **dict(extra)}, comm=base.comm, nf=base.nf, latex=base.latex)
        g = Field(base.label, base.dynkin, charges={**dict(reversed(extra)), **ch}, comm=base.comm, nf=base.nf, latex=base.latex)
        same(f, g, "same charges in another order")
        if spec[-1]:
            f = f.conj
    info = gen.spec_info(spec)
    check(f.dynkin == info["dynkin"] and frac(f.y) == info["y"] and frac(f.charges["3b"]) == info["b"], lambda: f"{spec}: built as {describe(f)}")
    check(f.label_with_dagger == info["label"] + ("†" if info["conj"] else ""), lambda: f"label {f.label_with_dagger}")
    c = f.conj
    check_conj(f, c, "Field.conj")
    check(c.label_with_dagger == info["label"] + ("" if info["conj"] else "†"), lambda: f"label of conjugate: {c.label_with_dagger}")
    same(c.conj, f, "Field.conj twice")
    check(c.conj.get_latex() == f.get_latex(), "latex changed by conjugating twice")
    check((c == f) is False, lambda: f"{describe(f)} equals its own conjugate")
    # a set must treat equal fields as one
    check(len({f, c, c.conj, f.conj}) == 2, lambda: f"set of field and conjugate has wrong size for {describe(f)}")
    rec.nontrivial(f.dynkin != "00000" or info["y"] != 0)
    rec.label("fermion" if f.is_fermion else "boson", "conj" if info["conj"] else "plain")


def deriv_case():
    return st.tuples(gen.sm_spec(gen.MATTER), st.lists(st.integers(0, 3), min_size=1, max_size=3)).map(list)


def act(f, choices):
    """apply a chain of derivatives, choosing among the allowed Lorentz outcomes"""
    from neutrinomass.tensormethod.core import D

    for c in choices:
        u, d = int(f.dynkin[0]), int(f.dynkin[1])
        opts = [(u + a, d + b) for a in (1, -1) for b in (1, -1) if u + a >= 0 and d + b >= 0]
        a, b = opts[c % len(opts)]
        f = D(f, f"{a}{b}")
    return f


@sub("derivative", strategy=deriv_case, quick=400)
def derivative(case, rec):
    """conjugating fields under chains of derivatives"""
    spec, choices = case
    f = act(gen.build(spec), choices)
    check(f.derivs == len(choices), "number of derivatives")
    c = f.conj
    check_conj(f, c, "conj of derivative field")
    same(c.conj, f, "conj twice of derivative field")
    idx, _ = gen.index_string(f.dynkin)
    x = f(idx)
    check_indexed(x, "derivative")
    rec.label(f"derivs={len(choices)}")


def check_indexed(x, what):
    c = x.conj
    check_conj(x, c, what)
    before = [str(i) for i in x.indices]
    after = [str(i) for i in c.indices]
    low = lambda s: s.lower()
    check([low(flip_index(low(s))) for s in before] == [low(s) for s in after], lambda: f"{what}: indices {before} conjugate to {after}")
    cc = c.conj
    check([str(i) for i in cc.indices] == before, lambda: f"{what}: conjugating twice gives indices {[str(i) for i in cc.indices]} not {before}")
    check(cc.label == x.label and cc.dynkin == x.dynkin and cc.charges == x.charges and cc.is_conj == x.is_conj and cc.nf == x.nf and cc.derivs == x.derivs and cc.comm == x.comm, lambda: f"{what}: conj twice changed {x}")
    check(cc.field == x.field, lambda: f"{what}: conj twice changed the field")
    check(c.field == x.field.conj or what.startswith("exotic"), lambda: f"{what}: conj of the indexed field {x} carries field {c.field._dict}, expected {x.field.conj._dict}")
    check((cc == x) and (hash(cc) == hash(x)), lambda: f"{what}: conj twice gives an unequal object: {cc._dict} {x._dict}")
    return c


@sub("indexed", strategy=lambda: st.tuples(gen.field_spec(), st.integers(0, 40), st.booleans(), st.sampled_from(gen.STYLES)).map(list), quick=800)
def indexed(case, rec):
    """fields carrying explicit (in several styles of names) or fresh indices"""
    spec, start, fresh, style = case
    f = gen.build(spec)
    if fresh:
        x = f.fresh_indices()
        check(x.conj.conj.field == f, lambda: f"conj twice of {x} with fresh indices is a different field")
    else:
        idx, _ = gen.index_string(f.dynkin, start, gen=start if f.nf == 3 else None)
        idx = gen.styled(idx, style)
        x = f(idx)
        rec.label(style)
        check_indexed(x, "indexed")
    c = x.conj
    check(c.dynkin == f.conj.dynkin and c.label == f.conj.label_with_dagger, lambda: f"{x}.conj = {c}")
    if f.nf == 3:
        gens = [str(i) for i in x.indices if ref.kind(str(i).lower()) == "g"]
        check(gens == [str(i) for i in c.indices if ref.kind(str(i).lower()) == "g"], "generation index changed")
    rec.nontrivial(bool(x.indices))


def exotic_case():
    return st.tuples(
        st.sampled_from(["φ", "η", "ψ", "χ", "S0", "f1"]),
        st.sampled_from(["00", "10", "01"]),
        st.tuples(st.integers(0, 2), st.integers(0, 2), st.integers(0, 3)).map(list),
        st.one_of(st.just("0"), gen.charges()), st.integers(-2, 2),
        st.sampled_from([None, "X", "\\Omega"]),
    ).map(list)


def build_exotic(case):
    from neutrinomass.completions.core import cons_completion_field
    from neutrinomass.tensormethod.core import IndexedField

    label, lor, (cu, cd, i), y, b, latex = case
    dyn = f"{lor}{cu}{cd}{i}"
    idx, _ = gen.index_string(dyn)
    kw = {} if latex is None else {"latex": latex}
    f = IndexedField(label=label, indices=idx, charges={"y": y, "3b": b}, **kw)
    return cons_completion_field(f), dyn


@sub("exotic", strategy=exotic_case, quick=800)
def exotic(case, rec):
    """scalars and fermions of the four exotic classes, with any irrep and charge"""
    from neutrinomass.completions.core import MajoranaFermion, RealScalar, VectorLikeDiracFermion

    x, dyn = build_exotic(case)
    rec.label(type(x).__name__)
    c = x.conj
    check(type(c) is type(x), lambda: f"conj of a {type(x).__name__} is a {type(c).__name__}")
    check_conj(x, c, "exotic")
    check(type(x.conj.conj) is type(x) and x.conj.conj == x and hash(x.conj.conj) == hash(x), lambda: f"exotic conj twice: {x._dict} -> {x.conj.conj._dict}")
    check([str(i) for i in c.indices] == [flip_index(str(i)) for i in x.indices], lambda: f"exotic conj indices {x} {c}")
    if hasattr(x, "is_unbarred"):
        check(c.is_unbarred == x.is_unbarred, "barred flag changed by conj")
    if isinstance(x, (VectorLikeDiracFermion, MajoranaFermion)):
        k = x.conj_indices
        check([str(i) for i in k.indices] == [flip_index(str(i)) for i in x.indices], lambda: f"conj_indices of {x} is {k}")
        check(all(frac(k.charges[q]) == frac(x.charges[q]) for q in x.charges) or isinstance(x, MajoranaFermion), lambda: f"conj_indices changed charges of {x}")
    rec.nontrivial(dyn != "00000")


@sub(
    "index",
    strategy=lambda: st.tuples(st.sampled_from("udcig"), st.integers(0, 99), st.booleans(), st.sampled_from(["", "_", "^", "d", "u", "_du", "cd"]), st.booleans()).map(list),
    quick=500,
)
def index(case, rec):
    """single indices of every kind and height, their names in lower or upper case and with further letters"""
    from neutrinomass.tensormethod.core import Index

    k, n, down, suffix, upper = case
    s = f"{'-' if down else ''}{k}{n}{suffix}"
    i = Index(s.upper() if upper else s)
    check(str(i) == s, f"Index({s}) prints as {i}")
    check(str(i.conj) == flip_index(s), lambda: f"conj of {s} is {i.conj}")
    check(i.conj.conj == i and str(i.conj.conj) == s, lambda: f"conj twice of {s} is {i.conj.conj}")
    check(str(-(-i)) == s and (-i).is_up != i.is_up, lambda: f"negating {s}: {-i}")
    other = f"{k}{n + 1}"
    got = Index.conj_index_string(f"{s} {other}")
    check(got.split() == [flip_index(s), flip_index(other)], lambda: f"conj_index_string({s} {other}) = {got}")
    rec.nontrivial(k in "udc")


@sub("distinct", strategy=lambda: st.tuples(gen.field_spec(), gen.field_spec()).map(list), quick=800)
def distinct(case, rec):
    """equality and hashing of pairs: equal exactly when all data agree"""
    a, b = map(gen.build, case)
    ia, ib = map(gen.spec_info, case)
    same_data = ia == ib and a.comm == b.comm
    check((a == b) == same_data, lambda: f"{describe(a)} == {describe(b)} is {a == b}")
    if a == b:
        check(hash(a) == hash(b), "equal fields hash differently")
    check((a.conj == b.conj) == same_data, "conjugation does not preserve equality")
    rec.nontrivial(ia["label"] == ib["label"])
