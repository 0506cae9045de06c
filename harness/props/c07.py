"""C07 indices match the representation of the field that carries them"""
from collections import Counter

import hypothesis.strategies as st

from .. import gen, ref
from ..core import Discard, check, sub
from . import c05

KINDS = ["u", "d", "c", "-c", "i"]
TYPE = {"u": "Undotted", "d": "Dotted", "c": "Colour", "i": "Isospin", "g": "Generation"}


def mutate(tokens, ops):
    """apply edits to a list of index names"""
    out = list(tokens)
    fresh = 50
    for kind, a, b in ops:
        if kind == "drop" and out:
            out.pop(a % len(out))
        elif kind == "add":
            k = KINDS[b % 5]
            pos = a % (len(out) + 1)
            out.insert(pos, f"{k}{fresh}")
            fresh += 1
        elif kind == "flip" and out:
            p = a % len(out)
            out[p] = out[p][1:] if out[p].startswith("-") else "-" + out[p]
        elif kind == "kind" and out:
            p = a % len(out)
            out[p] = f"{KINDS[b % 5]}{fresh}"
            fresh += 1
        elif kind == "swap" and len(out) > 1:
            p, q = a % len(out), b % len(out)
            out[p], out[q] = out[q], out[p]
        elif kind == "gen":
            out = [t for t in out if t[0] != "g"] + [f"g{b}"]
    return out


def token_kind(t):
    return (t[1] if t.startswith("-") else t[0], t.startswith("-"))


def strings():
    ops = st.lists(st.tuples(st.sampled_from(["drop", "add", "flip", "kind", "swap", "gen"]), st.integers(0, 9), st.integers(0, 9)).map(list), max_size=3)
    return st.tuples(gen.field_spec(), ops, st.sampled_from(gen.STYLES)).map(list)


@sub("accept", strategy=strings, quick=1500, thorough=30000)
def accept(case, rec):
    """a field called on a valid string of indices edited up to three times; non-trivial: the string was edited.
    Strings of the right content in another order are outside the domain"""
    spec, ops, style = case
    f = gen.build(spec)
    info = gen.spec_info(spec)
    base, _ = gen.index_string(info["dynkin"])
    tokens = mutate(base.split(), ops)
    plain = [t for t in tokens if not t.lstrip("-").startswith("g")]
    if any(t.startswith("-g") for t in tokens):
        raise Discard()
    want = Counter()
    for digit, k in zip(info["dynkin"], KINDS):
        if int(digit):
            want[token_kind(k + "0")] += int(digit)
    have = Counter(token_kind(t) for t in plain)
    order = [KINDS.index(("-" if h else "") + k) if ("-" if h else "") + k in KINDS else 9 for k, h in map(token_kind, plain)]
    if have == want and order != sorted(order):
        raise Discard()
    ok = have == want
    written = gen.styled(" ".join(tokens), style)
    tokens = written.lower().split()
    try:
        x = f(written)
    except (AssertionError, KeyError):
        x = None
    if not ok:
        check(x is None, lambda: f"{f} accepts the indices {tokens}")
    else:
        check(x is not None, lambda: f"{f} rejects the indices {tokens}")
        check([str(i) for i in x.indices] == tokens, lambda: f"{f} called on {tokens} has indices {x.indices}")
        check([i.index_type for i in x.indices] == [TYPE[token_kind(t)[0]] for t in tokens], "index types")
        check([i.is_up for i in x.indices] == [not token_kind(t)[1] for t in tokens], "index heights")
        check(x.dynkin == info["dynkin"] == f.dynkin, lambda: f"{x} reports representation {x.dynkin}, expected {info['dynkin']}")
        d = getattr(x, "_dynkins", None)
        exp = {"Undotted": (0, 0), "Dotted": (0, 0), "Colour": (0, 0), "Isospin": (0, 0), "Generation": (0, 0)}
        for (k, down), n in have.items():
            a, b = exp[TYPE[k]]
            exp[TYPE[k]] = (a, b + n) if down else (a + n, b)
        exp["Generation"] = (len(tokens) - len(plain), 0)
        check(d in (None, exp), lambda: f"{x}: index counts {d}, expected {exp}")
        check(x.charges == f.charges and x.is_conj == f.is_conj and x.nf == f.nf, "data of the field lost")
        from neutrinomass.tensormethod.core import get_dynkin

        check(get_dynkin(written) == info["dynkin"] and get_dynkin(x.indices) == info["dynkin"], "get_dynkin")
    rec.label("valid" if ok else "invalid")
    rec.nontrivial(bool(ops) and tokens != base.split())


@sub(
    "fresh",
    strategy=lambda: st.lists(
        st.one_of(
            st.tuples(st.just("type"), st.sampled_from("udcig")).map(list),
            st.tuples(st.just("dynkin"), gen.irreps()).map(list),
            st.tuples(st.just("field"), gen.field_spec()).map(list),
            st.tuples(st.just("product"), st.integers(0, 3)).map(list),
        ),
        min_size=2, max_size=25,
    ),
    quick=150, thorough=3000,
)
def fresh(case, rec):
    """sequences of requests for fresh indices of one kind, of a representation, on a field, interleaved with contractions"""
    from neutrinomass.tensormethod import H, L, Q, ub, db, eb
    from neutrinomass.tensormethod.contract import invariants
    from neutrinomass.tensormethod.core import Index

    seen = set()

    def take(i, kind, down):
        check(str(i).lstrip("-")[0] == kind and i.index_type == TYPE[kind], lambda: f"fresh index {i} has type {i.index_type}, asked for {kind}")
        check(i.is_up == (not down), lambda: f"fresh index {i} height")
        name = str(i).lstrip("-")
        check(name not in seen, lambda: f"index {name} was handed out twice")
        seen.add(name)

    for what, arg in case:
        if what == "type":
            take(Index.fresh(arg), arg, False)
        elif what == "dynkin":
            got = Index.fresh_indices(arg).split()
            exp = [(k.lstrip("-"), k.startswith("-")) for d, k in zip(arg, KINDS) for _ in range(int(d))]
            check(len(got) == len(exp), lambda: f"fresh indices for {arg}: {got}")
            for g, e in zip(got, exp):
                take(Index(g), *e)
        elif what == "field":
            f = gen.build(arg)
            x = f.fresh_indices()
            check(x.dynkin == f.dynkin, lambda: f"fresh indices change {f} to {x.dynkin}")
            exp = [(k.lstrip("-"), k.startswith("-")) for d, k in zip(f.dynkin, KINDS) for _ in range(int(d))]
            exp += [("g", False)] if f.nf > 1 else []
            check(len(exp) == len(x.indices), lambda: f"{f} has fresh indices {x.indices}")
            for i, e in zip(x.indices, exp):
                take(i, *e)
            check(x.charges == f.charges and x.is_conj == f.is_conj and str(x.comm) == str(f.comm) and x.nf == f.nf and x.derivs == f.derivs, "data of the field lost")
            check(x.field == f or x.field.label != f.label or f.history, lambda: f"{x.field} != {f}")
        else:
            fields = [(L, H), (Q, db, H.conj), (L, eb, H.conj), (Q.conj, ub.conj, H.conj)][arg]
            for op in invariants(*fields, ignore=[]):
                for f in op.indexed_fields:
                    for i in f.indices:
                        pass
    rec.label(f"names={min(len(seen) // 10, 9)}0+")
    rec.nontrivial(len(seen) > 3)


@sub(
    "substitute",
    strategy=lambda: st.tuples(gen.field_spec(), st.lists(st.tuples(st.integers(0, 8), st.booleans(), st.integers(0, 6)).map(list), max_size=4), st.booleans()).map(list),
    quick=600, thorough=12000,
)
def substitute(case, rec):
    """substituting any subset of indices (including absent ones and swaps) on a copy; non-trivial: at least one index of the field is substituted"""
    from neutrinomass.completions.core import cons_completion_field
    from neutrinomass.tensormethod.core import Index

    spec, subs, exotic = case
    f = gen.build(spec)
    string, n = gen.index_string(f.dynkin, 0, gen=0 if f.nf > 1 else None)
    x = f(string)
    if exotic and (f.is_scalar or f.is_left_fermion or f.is_right_fermion):
        x = cons_completion_field(x)
    before = [str(i) for i in x.indices]
    pairs, expect = [], {}
    for pos, absent, to in subs:
        if not before:
            break
        old = before[pos % len(before)]
        sign, kind = ("-" if old.startswith("-") else ""), old.lstrip("-")[0]
        new = f"{sign}{kind}{to if to < n else 40 + to}"
        if new in before and [b for b in before if b.lstrip("-")[0] == kind].count(new) and absent is False:
            pass  # may coincide with another index of the field: allowed
        if absent:
            old = f"{sign}{kind}{90 + pos}"
        if old in expect:
            continue
        pairs.append((Index(old), Index(new)))
        expect[old] = new
    want = [expect.get(b, b) for b in before]
    if len({w.lstrip("-") for w in want}) < len(want):
        raise Discard()  # an index twice on one field
    y = x.substituted_indices(*pairs)
    check([str(i) for i in y.indices] == want, lambda: f"{x} with {pairs}: {y.indices}, expected {want}")
    check([str(i) for i in x.indices] == before, lambda: f"substituting on a copy changed the original to {x.indices}")
    check(y is not x, "no copy made")
    check(y.dynkin == x.dynkin and y.label == x.label and y.charges == x.charges and y.is_conj == x.is_conj, "data changed by substitution")
    check(str(y.comm) == str(x.comm) and y.nf == x.nf and y.derivs == x.derivs and y.latex == x.latex, "data changed by substitution")
    # and back
    if len(set(want)) == len(want):
        back = y.substituted_indices(*[(Index(v), Index(k)) for k, v in expect.items() if k in before])
        check([str(i) for i in back.indices] == before, lambda: f"substituting back gives {back.indices}")
    rec.nontrivial(want != before)


@sub("height", strategy=lambda: st.tuples(st.sampled_from(["u", "d", "c", "i", "g"]), st.integers(0, 200), st.booleans(), st.sampled_from(["", "^", "_", "∂"])).map(list), quick=300, thorough=3000)
def height(case, rec):
    """raising and lowering, conjugating, and rebuilding single indices"""
    from neutrinomass.tensormethod.core import Index

    k, n, down, suffix = case
    name = f"{k}{n}{suffix}"
    i = Index(("-" if down else "") + name)
    check(i.is_up == (not down) and i.index_type == TYPE[k], lambda: f"{i}: {i.is_up} {i.index_type}")
    check((-i).is_up != i.is_up and (-i).index_type == i.index_type, lambda: f"-({i}) = {-i}")
    check(-(-i) == i and (-(-i)).label == i.label and str(-(-i)) == str(i), lambda: f"-(-({i})) = {-(-i)}")
    check(Index(i) is i or Index(i) == i, "Index of an index")
    j = Index.cons_index(TYPE[k], f"{n}{suffix}", not down)
    check(j == i and j.label == i.label, lambda: f"cons_index gives {j} for {i}")
    if k != "g":
        counts = Index.dynkin([i, -i, i])
        check(counts == ((2, 1) if not down else (1, 2)), lambda: f"Index.dynkin {counts}")
    by = Index.indices_by_type([i])
    check(by[TYPE[k]] == (i,) and sum(map(len, by.values())) == 1, lambda: f"{by}")
    rec.nontrivial()


@sub("fill", strategy=lambda: c05.op_case(4), quick=300, thorough=6000)
def fill(case, rec):
    """fill_free_indices on contracted operators with free indices, contracted dummies named like the new ones;
    non-trivial: some free and some contracted indices"""
    fields = c05.build_fields(case)
    tensors = c05.contract(case, fields)
    op = c05.product_of(fields, tensors)
    new = op.fill_free_indices()
    old_t, new_t = list(op.tensors), list(new.tensors)
    check(len(old_t) == len(new_t), lambda: f"{op} -> {new}")
    uses = Counter(ref.bare(i) for t in old_t for i in c05.idx_of(t))
    # slot-by-slot map of names: bijective, identity on contracted indices
    fwd, back = {}, {}

    def slots(ts):
        return [(name(t), [str(i) for i in c05.idx_of(t)]) for t in ts]

    def name(t):
        return str(t).split("(")[0]

    a, b = slots(old_t), slots(new_t)
    check(Counter(n for n, _ in a) == Counter(n for n, _ in b), lambda: f"{op} -> {new}: contents differ")
    # tensors keep their order
    for (n1, i1), (n2, i2) in zip(a, b):
        check(n1 == n2 and len(i1) == len(i2), lambda: f"{op} -> {new}: {n1}{i1} became {n2}{i2}")
        for x, y in zip(i1, i2):
            check(x.startswith("-") == y.startswith("-") and x.lstrip("-")[0].lower() == y.lstrip("-")[0].lower(), lambda: f"{op} -> {new}: index {x} became {y}")
            p, q = x.lstrip("-"), y.lstrip("-")
            check(fwd.setdefault(p, q) == q, lambda: f"{op} -> {new}: {p} renamed inconsistently")
            check(back.setdefault(q, p) == p, lambda: f"{op} -> {new}: {p} and {back[q]} both became {q}")
            if uses[p] > 1:
                check(p == q, lambda: f"{op} -> {new}: contracted index {p} became {q}")
    free = [k for k, v in uses.items() if v == 1]
    check(sorted(ref.bare(i) for i in new.free_indices) == sorted(fwd[k] for k in free), lambda: f"{op} -> {new}: free indices {new.free_indices}")
    check([repr(f) for f in new.fields] == [repr(f) for f in op.fields], lambda: f"fields of {op} were {op.fields}, are {new.fields}")
    rec.label(f"free={min(len(free), 6)}", "contracted" if tensors else "")
    rec.nontrivial(bool(free) and bool(tensors))


@sub("loaded", strategy=lambda: st.lists(st.one_of(
    st.tuples(st.just("catalogue"), st.integers(0, 400)).map(list),
    st.tuples(st.just("name"), st.sampled_from("udcig"), st.integers(-20, 60), st.booleans()).map(list),
    st.tuples(st.just("take"), st.sampled_from("udcig"), st.integers(1, 40)).map(list),
), min_size=2, max_size=8), quick=120, thorough=2500)
def loaded(case, rec):
    """fresh indices requested after operators of the shipped catalogue or indices named near the next
    fresh ones came into being; non-trivial: some fresh index taken after that"""
    from neutrinomass.tensormethod.core import Index

    from .. import comps

    seen = set()
    after = False
    for what, *arg in case:
        if what == "catalogue":
            ops = list(comps.catalogue().values())
            op = ops[arg[0] % len(ops)].operator
            seen |= {str(i).lstrip("-") for t in op.tensors for i in getattr(t, "indices", [])}
        elif what == "name":
            kind, off, down = arg
            n = int(str(Index.fresh(kind)).strip("-_")[1:]) + off
            if n < 0:
                raise Discard()
            i = Index(("-" if down else "") + f"{kind}{n}_")
            seen.add(str(i).lstrip("-"))
        else:
            kind, n = arg
            for _ in range(n):
                name = str(Index.fresh(kind)).lstrip("-")
                check(name not in seen, lambda: f"fresh index {name} is the name of an index that exists already")
                seen.add(name)
                after = True
    rec.nontrivial(after and len(case) > 1)
