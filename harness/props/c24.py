"""C24 export of completions as text"""
import os
import shutil
import tempfile
from collections import Counter

import hypothesis.strategies as st

from .. import boot, comps, dbs, ref
from ..core import Discard, check, must, sub
from . import c12, c18

# ------------------------------------------------------------------ what a model consists of


def shape(t):
    """everything about a tensor of an operator"""
    idx = tuple(str(i) for i in t.indices)
    if not comps.is_field(t):
        return (str(t).split("(")[0].replace("metric", "Eps"), idx)
    return (
        type(t).__name__, t.label, idx, t.dynkin, tuple(sorted((k, ref.frac(v)) for k, v in t.charges.items())), bool(t.is_conj), getattr(t, "is_unbarred", None),
        t.derivs, t.nf, str(t.comm),
    )


def operator(op):
    return Counter(map(shape, op.tensors))


def leaves(part):
    if type(part).__name__ == "Leaf":
        return ("leaf", shape(part.field), part.node)
    return tuple(map(leaves, part))


def graph(g):
    return sorted((tuple(sorted((a, b))), str(d["particle"])) for a, b, d in g.edges(data=True)), sorted(g.nodes)


def parts(x):
    """the model, part by part"""
    return {
        "operator name": x.operator.name,
        "operator": operator(x.operator.operator),
        "partition": leaves(x.partition),
        "graph": graph(x.graph),
        "exotics": Counter(map(shape, x.exotics)),
        "interactions": [operator(t) for t in x.terms],
        "topology": x.topology,
        "quantum numbers": Counter(x.exotic_info().values()),
    }


def same(x, y, what):
    p, q = parts(x), parts(y)
    for k in p:
        check(p[k] == q[k], lambda: f"{what}: {k} {p[k]} becomes {q[k]}")
    # order of the fields of a term
    for s, t in zip(x.terms, y.terms):
        check([f.label for f in comps.term_fields(s)] == [f.label for f in comps.term_fields(t)], lambda: f"{what}: term {s} becomes {t}")
    # what is worked out from the exotics
    for k in ("mass_term", "dirac_partner"):
        get = lambda z: Counter((shape(e), str(getattr(e, k)() if k == "dirac_partner" else e.mass_term)) for e in z.exotics if hasattr(e, k))
        check(get(x) == get(y), lambda: f"{what}: {k} of the exotics {get(x)} becomes {get(y)}")


def namespace():
    import neutrinomass.database.database as m

    return dict(vars(m))


def labels(op):
    from .c20 import label_of

    return tuple(label_of(f) for f in comps.term_fields(op))


def check_head(lazy, x):
    """the summary of a stored model against the model"""
    info = sorted(f"{l},{cu}{cd},{i},{ref.frac(y)},{ref.frac(b)}" for l, cu, cd, i, b, y in map(tidy, x.exotics))
    head = lazy.head
    check(lazy.operator_name == x.operator.name, lambda: f"operator name {lazy.operator_name!r}, should be {x.operator.name!r}")
    check(sorted(head["quantum_numbers"]) == info, lambda: f"quantum numbers {head['quantum_numbers']}, should be {info}")
    check(lazy.quantum_numbers == set(info), lambda: f"quantum numbers {lazy.quantum_numbers}, should be {set(info)}")
    terms = [tuple(sorted(labels(t))) for t in x.terms]
    check([tuple(sorted(t)) for t in head["terms"]] == terms, lambda: f"interactions {head['terms']}, should be {terms}")
    check(head["topology"] == x.topology, lambda: f"topology {head['topology']}, should be {x.topology}")


def tidy(e):
    """quantum numbers of an exotic, or of its conjugate if the hypercharge is negative"""
    u, d, cu, cd, i = map(int, e.dynkin)
    y, b = ref.frac(e.charges["y"]), ref.frac(e.charges["3b"])
    if y < 0:
        cu, cd, y, b = cd, cu, -y, -b
    return ("F" if (u + d) % 2 else "S", cu, cd, i, b, y)


def load(text):
    """the text read back, as the package reads its databases"""
    with must(f"reading {text} back"):
        return eval(text, namespace())


def round_trip(x, rec):
    from neutrinomass.database.export import export_completion

    text = export_completion(x, lazy=False)
    y = load(text)
    same(x, y, "loading the text back")
    summary = export_completion(x)
    check("\n" not in summary, lambda: f"the exported line has a line break: {summary!r}")
    lazy = load(summary)
    check_head(lazy, x)
    z = lazy.force()
    same(x, z, "loading the stored model back")
    # once more
    again = load(export_completion(z))
    check(again.head == lazy.head, lambda: f"the summary {lazy.head} becomes {again.head}")
    same(x, again.force(), "exporting and loading back twice")
    return summary


@sub(
    "completions", strategy=lambda: comps.completion_case(),
    quick=100, thorough=6000, budget=(40, 800),
)
def completions(case, rec):
    """completions of random placements of catalogue and generated operators; non-trivial: a completion was found"""
    boot.load_database()
    p, x = comps.complete(case, rec)
    if x is None:
        raise Discard()
    rec.nontrivial(True)
    round_trip(x, rec)


def varied(x, case):
    """the completion with the terms of its interactions replaced by generated operators"""
    from neutrinomass.completions.core import Completion

    terms = [dbs.operator_of(c) for c in case]
    exotics = {f for t in terms for f in comps.term_fields(t) if comps.is_exotic(f)}
    return Completion(x.operator, x.partition, x.graph, exotics, terms, x.topology)


@sub(
    "generated",
    strategy=lambda: st.tuples(st.sampled_from(["1", "2", "3a", "D:D2a"]), st.integers(0, 100), st.lists(dbs.operator_case(), max_size=3)).map(list),
    quick=150, thorough=8000, budget=(40, 800),
)
def generated(case, rec):
    """completions whose interactions are generated operators of SM, derivative and exotic fields (also barred ones, with LaTeX names);
    non-trivial: there are interactions"""
    boot.load_database()
    name, k, terms = case
    xs = c18.pool(name)
    if not xs:
        raise Discard()
    rec.nontrivial(bool(terms))
    x = varied(xs[k % len(xs)], terms)
    if any(not (e.is_scalar or e.is_fermion) for e in x.exotics):
        raise Discard()
    round_trip(x, rec)


@sub("operators", strategy=lambda: dbs.operator_case(), quick=500, thorough=30000, budget=(30, 600))
def operators(case, rec):
    """generated operators of SM, derivative and exotic fields; non-trivial: with an exotic or a derivative"""
    boot.load_database()
    from neutrinomass.database.export import export_operator, export_tensor

    op = dbs.operator_of(case)
    rec.nontrivial(any(s[0] != "sm" for s in case[0]))
    back = load(export_operator(op))
    check(operator(op) == operator(back), lambda: f"{op} becomes {back}: {dict(operator(op) - operator(back))} becomes {dict(operator(back) - operator(op))}")
    check(str(op) == str(back) and op == back, lambda: f"{op} becomes {back}")
    for t in op.tensors:
        u = load(export_tensor(t))
        check(shape(t) == shape(u), lambda: f"{t} becomes {u}: {shape(t)}, {shape(u)}")
        if comps.is_field(t):
            check(t.get_latex() == u.get_latex() if hasattr(t, "get_latex") else True, lambda: f"LaTeX of {t} becomes {u.get_latex()}")


@sub(
    "files",
    strategy=lambda: st.tuples(st.lists(st.tuples(st.sampled_from(["1", "2", "3a", "8", "D:D2a"]), st.integers(0, 300)).map(list), max_size=8)).map(list),
    quick=60, thorough=3000, budget=(40, 600),
)
def files(case, rec):
    """files of stored models of several operators read back; non-trivial: two operators are mixed"""
    boot.load_database()
    from neutrinomass.database.database import ModelDatabase, read_completions
    from neutrinomass.database.export import export_completion

    xs = []
    for name, k in case[0]:
        pool = c18.pool(name)
        if pool:
            xs.append(pool[k % len(pool)])
    rec.nontrivial(len({x.operator.name for x in xs}) > 1)
    scratch = tempfile.mkdtemp(prefix="c24_")
    try:
        path = os.path.join(scratch, "models.dat")
        with open(path, "w") as f:
            for x in xs:
                f.write(export_completion(x) + "\n")
        got = read_completions(path)
        want = {}
        for x in xs:
            want.setdefault(x.operator.name, []).append(x)
        check(set(got) == set(want), lambda: f"operators read: {sorted(got)}, written: {sorted(want)}")
        for k, models in want.items():
            check(len(got[k]) == len(models), lambda: f"{len(got[k])} models read for {k}, {len(models)} written")
            for x, lazy in zip(models, got[k]):
                check_head(lazy, x)
                same(x, lazy.force(), "reading the file back")
    finally:
        shutil.rmtree(scratch)
