"""C21 expansion of operators into components"""
import random
from collections import Counter
from fractions import Fraction
from functools import reduce
from itertools import product

import hypothesis.strategies as st

from .. import boot, comps, gen, ref
from ..core import Discard, check, sub
from . import c14

# ------------------------------------------------------------------ reference

# (component for isospin index 0, for index 1); a conjugated field with an upper index has the conjugate of the other component
DOUBLETS = {"L": ("nu", "e"), "Q": ("u", "d"), "H": ("hp", "h0")}
CHARGE = {k: Fraction(v) for k, v in {"nu": 0, "e": -1, "u": "2/3", "d": "-1/3", "hp": 1, "h0": 0, "eb": 1, "db": "1/3", "ub": "-2/3", "W": -1}.items()}


def charge(comp):
    name, conj = comp
    return -CHARGE[name] if conj else CHARGE[name]


def plain(f):
    """(name, conjugated) of a field without its derivatives"""
    name, conj = f.label.replace("†", ""), f.is_conj
    while name not in ref.SM and name.startswith("D"):
        name = name[1:]
    return name, conj


def isospin(f):
    return [str(i) for i in f.indices if ref.kind(str(i)) == "i"]


def expand(op):
    """Counter of products of components: for each choice of isospin components, if all isospin tensors are nonzero"""
    fields = [(plain(f), isospin(f)) for f in op.tensors if comps.is_field(f)]
    tensors = [[ref.bare(str(i)) for i in t.indices] for t in op.tensors if not comps.is_field(t) and ref.kind(str(t.indices[0])) == "i"]
    slots = [i for _, idx in fields for i in idx]
    out = Counter()
    for choice in product((0, 1), repeat=len(slots)):
        value = dict(zip(slots, choice))
        # an antisymmetric tensor of two indices is nonzero when they differ
        if any(value[a] == value[b] for a, b in tensors):
            continue
        comp = []
        for (name, conj), idx in fields:
            if idx:
                k = value[idx[0]]
                name = DOUBLETS[name][1 - k if conj else k]
            comp.append((name, conj))
        out[tuple(sorted(comp))] += 1
    return out


def read(product_):
    """components of a parsed product"""
    out = []
    for item in product_:
        name = type(item).__name__
        if name == "c":
            out.append((str(item.operands[0].name), True))
        else:
            out.append((str(item.name), False))
    return tuple(sorted(out))


def check_expansion(op, rec):
    from neutrinomass.database.closures import parse_operator

    want = expand(op)
    parsed = parse_operator(op)
    got = Counter(map(read, parsed))
    check(got == want, lambda: f"expansion of {op} lacks {dict(want - got)} and has {dict(got - want)} beyond what it should")
    # every tensor conserves charge if the operator is a singlet
    total = [sum(map(charge, p)) for p in got]
    free = {i for f in op.tensors if comps.is_field(f) for i in isospin(f)} - {ref.bare(str(i)) for t in op.tensors if not comps.is_field(t) for i in t.indices}
    y = sum(ref.frac(f.charges["y"]) for f in op.tensors if comps.is_field(f))
    if not free:
        check(all(q == y for q in total), lambda: f"components of {op} (hypercharge {y}) have charges {total}")
    rec.nontrivial(len(want) > 1)
    return got


# ------------------------------------------------------------------ cases

HOW = ["plain", "reorder", "rename", "conj", "both"]


@sub(
    "catalogue",
    strategy=lambda: st.tuples(st.sampled_from(comps.names()), st.integers(0, 60), st.sampled_from(HOW), st.integers(0, 10**4)).map(list),
    quick=400, thorough=20000, budget=(40, 800),
)
def catalogue(case, rec):
    """catalogue operators (with derivatives acting in any way), as listed, reordered, with renamed indices or conjugated; non-trivial:
    several different products"""
    boot.load_database()
    from neutrinomass.database.closures import parse_operator

    name, form, how, seed = case
    eff = comps.catalogue()[name]
    op = eff.operator
    if sum(len(isospin(f)) for f in op.tensors if comps.is_field(f)) > 8:
        raise Discard()
    rec.label(how)
    if how == "plain":
        whole = Counter(map(read, parse_operator(eff)))
        check(whole == Counter(map(read, parse_operator(op))), lambda: f"expansion of {name} and of its operator differ")
        check_expansion(op, rec)
        return
    first = Counter(map(read, parse_operator(op)))
    for h in (["reorder", "rename"] if how == "both" else [how]):
        op, _ = c14.rewrite(op, h, seed)
    second = check_expansion(op, rec)
    if how == "conj":
        first = Counter({tuple(sorted((n, not c) for n, c in p)): k for p, k in first.items()})
    check(first == second, lambda: f"expansion of {name} changes when it is written as {op} ({how})")


@sub("every", cases=lambda tier: [[k] for k in comps.names()], budget=(60, 300))
def every(case, rec):
    """all catalogue operators"""
    boot.load_database()
    op = comps.catalogue()[case[0]].operator
    if sum(len(isospin(f)) for f in op.tensors if comps.is_field(f)) > 8:
        raise Discard()
    check_expansion(op, rec)


def generated_case():
    field = st.tuples(st.sampled_from(["L", "L", "Q", "Q", "H", "H", "ub", "db", "eb"]), st.booleans(), st.sampled_from([False, False, False, True])).map(list)
    return st.tuples(st.lists(field, min_size=2, max_size=9), st.integers(0, 10**4), st.sampled_from(["short", "short", "long", "fresh"]), st.booleans()).map(list)


def index_names(style, n, r):
    if style == "short":
        names = ["i%d" % k for k in r.sample([1, 10, 11, 100, 101, 110, 0, 2, 20, 12], n)]
    elif style == "long":
        names = ["i%d_" % k for k in r.sample([1, 10, 11, 100, 101, 110, 0, 2, 20, 12], n)]
    else:
        from neutrinomass.tensormethod.core import Index

        names = [str(Index.fresh("i")) for _ in range(n)]
    r.shuffle(names)
    return names


def made(case):
    """an operator of these fields with randomly paired isospin (and some Lorentz) indices"""
    from neutrinomass.tensormethod import sm
    from neutrinomass.tensormethod.core import D, Index, eps

    specs, seed, style, lorentz = case
    r = random.Random(seed)
    specs = list(specs)
    n = sum(s[0] in DOUBLETS for s in specs)
    if n % 2:
        specs.append(["H", False, False])
        n += 1
    if n > 8 or not n:
        raise Discard()
    names = index_names(style, n, r)
    todo, tensors, und, dot = list(names), [], [], []
    for label, conj, deriv in specs:
        f = getattr(sm, label)
        f = f.conj if conj else f
        if deriv:
            u, d = map(int, f.dynkin[:2])
            f = D(f, "11" if u + d == 0 else ("01" if u else "10"))
        idx = []
        u, d, cu, cd, i = map(int, f.dynkin)
        for kind, count in (("u", u), ("d", d)):
            for _ in range(count):
                idx.append(str(Index.fresh(kind)))
                (und if kind == "u" else dot).append(idx[-1])
        idx += [str(Index.fresh("c")) for _ in range(cu)] + ["-" + str(Index.fresh("c")) for _ in range(cd)]
        if i:
            idx.append(todo.pop())
        tensors.append(f(" ".join(idx)))
    r.shuffle(names)
    pairs = [eps(f"-{a} -{b}") for a, b in zip(names[::2], names[1::2])]
    if lorentz:
        pairs += [eps(f"-{a} -{b}") for a, b in zip(und[::2], und[1::2])]
    rest = tensors[1:] + pairs
    r.shuffle(rest)
    return reduce(lambda a, b: a * b, [tensors[0]] + rest)


@sub("generated", strategy=generated_case, quick=600, thorough=30000, budget=(40, 800))
def generated(case, rec):
    """random SM fields, conjugated or with derivatives at will, with up to four isospin (and some Lorentz) contractions between them, in any
    order and with index names that are parts of one another; non-trivial: several different products"""
    boot.load_database()
    op = made(case)
    rec.label(case[2])
    check_expansion(op, rec)
