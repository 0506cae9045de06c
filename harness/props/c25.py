"""C25 export of completions as JSON"""
import json
from collections import Counter

import hypothesis.strategies as st

from .. import boot, comps, dbs, ref
from ..core import Discard, check, must, sub
from . import c18, c24

KINDS = {"u": "Undotted", "d": "Dotted", "c": "Colour", "i": "Isospin", "g": "Generation"}

# ------------------------------------------------------------------ what should be there


def plain(x):
    """as JSON has it: lists for tuples"""
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    check(x is None or type(x) in (str, int, float, bool), lambda: f"{x!r} ({type(x).__name__}) in the export is not plain data")
    return x


def by_kind(t):
    out = {k: [] for k in KINDS.values()}
    for i in t.indices:
        i = str(i)
        out[KINDS[i.lstrip("-")[0]]].append(i)
    return out


def expected(t):
    """what the description of a tensor has to say"""
    if not comps.is_field(t):
        name = str(t).split("(")[0]
        return {"Field": False, "label": "Delta" if name.startswith("KD") else "Eps", "Indices": [str(i) for i in t.indices]}
    out = {"Field": True, "Indices": by_kind(t), "IsConj": bool(t.is_conj), "Exotic": comps.is_exotic(t), "Deriv": bool(t.derivs)}
    if comps.is_exotic(t):
        u, d, cu, cd, i = map(int, t.dynkin)
        out.update(
            {
                "Label": t.label, "Charges": {k: ref.frac(v) for k, v in t.charges.items()}, "LorentzDynkin": [u, d], "ColourDynkin": [cu, cd],
                "IsospinDynkin": i, "Nf": t.nf, "Comm": "fermi" if (u + d) % 2 else "bose", "IsUnbarred": getattr(t, "is_unbarred", None),
            }
        )
    else:
        # name of the SM field
        out["Label"], conj = comps.sm_key(t)
        check(conj == bool(t.is_conj), lambda: f"is_conj of {t} is {t.is_conj}")
        if t.derivs:
            out["DerivDynkin"] = t.dynkin[:2]
    return out


def check_tensor(got, t):
    want = expected(t)
    got = dict(got)
    if "Charges" in want:
        check("Charges" in got, lambda: f"no charges for {t}: {got}")
        got["Charges"] = {k: ref.frac(v) for k, v in got["Charges"].items()}
    if not want["Field"]:
        # both spellings say the same
        for k in ("Label", "label"):
            if k in got:
                got["label"] = got[k]
    for k, v in want.items():
        check(k in got, lambda: f"{t} is described without {k}: {got}")
        check(got[k] == v, lambda: f"{t} is described with {k} {got[k]}, should be {v}")


def check_operator(got, op):
    check(len(got) == len(op.tensors), lambda: f"{len(got)} tensors listed for {op}: {got}")
    for g, t in zip(got, op.tensors):
        check_tensor(g, t)


def check_partition(got, part):
    if type(part).__name__ == "Leaf":
        check(got == {"Field": str(part.field), "Node": part.node}, lambda: f"leaf {part} is described as {got}")
        return
    check(isinstance(got, list) and len(got) == len(part), lambda: f"part {part} is described as {got}")
    for g, p in zip(got, part):
        check_partition(g, p)


def check_graph(got, g):
    lines = got.get("edges", got.get("links"))
    check(lines is not None, lambda: f"no lines in {got}")
    want = Counter((frozenset((a, b)), str(d["particle"])) for a, b, d in g.edges(data=True))
    have = Counter((frozenset((e["source"], e["target"])), str(e["particle"])) for e in lines)
    check(have == want, lambda: f"lines of the diagram are {have}, should be {want}")
    check(sorted(n["id"] for n in got["nodes"]) == sorted(g.nodes), lambda: f"nodes {got['nodes']}, should be {sorted(g.nodes)}")


def check_json(data):
    """through JSON text and back"""
    with must(f"writing {data} as JSON"):
        back = json.loads(json.dumps(data))
    check(back == plain(data), lambda: f"{data} becomes {back}")
    return back


def check_completion(x):
    from neutrinomass.database.json_serialiser import export_completion

    before = c24.parts(x)
    data = export_completion(x)
    back = check_json(data)
    check(c24.parts(x) == before, lambda: f"exporting changed the completion: {before} becomes {c24.parts(x)}")
    check(check_json(export_completion(x)) == back, lambda: "a second export differs")
    check(set(back) >= {"EffectiveOperator", "Partition", "Graph", "Exotics", "Terms"}, lambda: f"parts listed: {sorted(back)}")
    check(back["EffectiveOperator"]["Name"] == x.operator.name, lambda: f"operator name {back['EffectiveOperator']['Name']}, should be {x.operator.name}")
    check_operator(back["EffectiveOperator"]["Operator"], x.operator.operator)
    check_partition(back["Partition"], x.partition)
    check_graph(back["Graph"], x.graph)
    check(len(back["Terms"]) == len(x.terms), lambda: f"{len(back['Terms'])} terms listed, should be {len(x.terms)}")
    for g, t in zip(back["Terms"], x.terms):
        check_operator(g, t)
    exotics = sorted(x.exotics, key=lambda e: (e.label, str(e.indices)))
    listed = sorted(back["Exotics"], key=lambda e: e["Label"])
    check(len(exotics) == len(listed), lambda: f"{len(listed)} exotics listed, should be {len(exotics)}")
    if len({e.label for e in exotics}) == len(exotics):
        for g, e in zip(listed, exotics):
            check_tensor(g, e)


@sub("completions", strategy=lambda: comps.completion_case(), quick=100, thorough=6000, budget=(40, 800))
def completions(case, rec):
    """completions of random placements of catalogue and generated operators; non-trivial: a completion was found"""
    boot.load_database()
    p, x = comps.complete(case, rec)
    if x is None:
        raise Discard()
    rec.nontrivial(True)
    check_completion(x)


@sub(
    "generated",
    strategy=lambda: st.tuples(st.sampled_from(["1", "2", "3a", "D:D2a"]), st.integers(0, 100), st.lists(dbs.operator_case(), max_size=3)).map(list),
    quick=150, thorough=8000, budget=(40, 800),
)
def generated(case, rec):
    """completions whose interactions are generated operators of SM, derivative and exotic fields; non-trivial: there are interactions"""
    boot.load_database()
    name, k, terms = case
    xs = c18.pool(name)
    if not xs:
        raise Discard()
    rec.nontrivial(bool(terms))
    check_completion(c24.varied(xs[k % len(xs)], terms))


@sub("operators", strategy=lambda: dbs.operator_case(), quick=500, thorough=30000, budget=(30, 600))
def operators(case, rec):
    """generated operators of SM, derivative and exotic fields; non-trivial: with an exotic or a derivative"""
    boot.load_database()
    from neutrinomass.database.json_serialiser import export_eff_operator, export_operator
    from neutrinomass.completions.core import EffectiveOperator

    op = dbs.operator_of(case)
    rec.nontrivial(any(s[0] != "sm" for s in case[0]))
    check_operator(check_json(export_operator(op)), op)
    got = check_json(export_eff_operator(EffectiveOperator("X7'", op)))
    check(got["Name"] == "X7'", lambda: f"name {got['Name']}")
    check_operator(got["Operator"], op)


@sub("catalogue", cases=lambda tier: comps.names(), quick=300, thorough=300, budget=(30, 60))
def whole(case, rec):
    """all catalogue operators"""
    boot.load_database()
    from neutrinomass.database.json_serialiser import export_eff_operator

    eff = comps.catalogue()[case]
    rec.nontrivial(True)
    got = check_json(export_eff_operator(eff))
    check(got["Name"] == eff.name, lambda: f"name {got['Name']}, should be {eff.name}")
    check_operator(got["Operator"], eff.operator)
