"""C30 independence of what was computed before"""
import json
import os
import random
import signal
import sys
from itertools import permutations, product

import hypothesis.strategies as st

from .. import boot, comps, dbs, gen, ref
from ..core import Discard, check, sub
from . import c15, c18, c20, c26

# ------------------------------------------------------------------ calls and their results in a form without index names


def canonical(op):
    """contraction pattern, whatever the names of indices and the order of equal fields"""
    fields = [t for t in op.tensors if comps.is_field(t)]
    keys = [(f.label, f.dynkin, f.derivs, tuple(sorted((k, str(v)) for k, v in f.charges.items()))) for f in fields]
    classes = {}
    for n, k in enumerate(keys):
        classes.setdefault(k, []).append(n)
    order = sorted(classes)
    best = None
    size = 1
    for c in classes.values():
        for k in range(2, len(c) + 1):
            size *= k
    options = product(*(permutations(classes[k]) for k in order)) if size <= 150 else [tuple(tuple(classes[k]) for k in order)]
    for choice in options:
        where = {}
        for k, ns in zip(order, choice):
            for slot, n in enumerate(ns):
                for pos, i in enumerate(fields[n].indices):
                    where.setdefault(ref.bare(i), []).append((order.index(k), slot, pos if ref.kind(i) == "g" else ref.kind(i)))
        out = []
        for t in op.tensors:
            if not comps.is_field(t):
                out.append([str(t).split("(")[0].replace("metric", "Eps"), sorted(str(where.get(ref.bare(i), "inner")) for i in t.indices)])
        out = sorted(map(str, out))
        if best is None or out < best:
            best = out
    return [sorted(map(str, keys)), best, str(op.coeff)]


def listed(ops):
    return sorted(map(str, map(canonical, ops)))


def fields_of(specs):
    return [gen.build(s) for s in specs]


def state(f):
    return [str(f._dict), str(f.latex), str(f.nf), str(f.y)]


def run_products(specs):
    from neutrinomass.tensormethod.core import decompose_product

    return sorted([p.label, p.dynkin, p.multiplicity, str(sorted((k, str(v)) for k, v in p.charges.items()))] for p in decompose_product(*fields_of(specs)))


def run_invariants(specs, ignore, simplified):
    from neutrinomass.tensormethod import contract

    fs = fields_of(specs)
    before = list(map(state, fs))
    ignored = list(ignore)
    out = (contract.invariants if simplified else contract.unsimplified_invariants)(*fs, ignore=ignored)
    check(list(map(state, fs)) == before and ignored == list(ignore), lambda: f"the fields {specs} were changed")
    return [len(out)] if simplified else listed(out)


def partition_state(p):
    g = p["graph"]
    return str([p["partition"], p["epsilons"], sorted(map(str, g.edges(data=True))), sorted(map(str, g.nodes(data=True))), p["topology"], p["operator"]])


def run_completion(case):
    p = comps.case_partition(case)
    if p is None:
        return None
    before = partition_state(p)
    c = comps.completions_module()
    out = []
    for _ in range(2):
        x = c.partition_completion(p)
        if type(x).__name__ == "FailedCompletion":
            out.append("no completion")
        else:
            out.append([str(comps.model(x)), sorted(str(canonical(t)) for t in x.terms), sorted(map(str, x.exotic_info().values())), sorted(d["particle"].rstrip("0123456789") for _, _, d in x.graph.edges(data=True))])
        check(partition_state(p) == before, lambda: f"the placement {before} became {partition_state(p)}")
    check(out[0] == out[1], lambda: f"completing twice gives {out[0]}, then {out[1]}")
    return out[0]


def run_completions(name):
    c = comps.completions_module()
    op = comps.catalogue()[name]
    xs = list((c.deriv_operator_completions if name.startswith("D:") else c.operator_completions)(op))
    return sorted(str(comps.model(x)) for x in xs)


def run_symmetries(case):
    from neutrinomass.tensormethod.lagrangian import Lagrangian

    try:
        exotics, terms = c15.lagrangian_of(case)
    except Discard:
        return None
    before = [sorted(map(str, exotics)), list(map(str, terms))]
    given, listed_terms = list(exotics), list(terms)
    lag = Lagrangian(given, listed_terms)
    names, vectors = c15.reported(lag)
    out = [str(c15.span(names, vectors)), lag.num_u1_symmetries()]
    check([sorted(map(str, given)), list(map(str, listed_terms))] == before, lambda: f"the model {before} was changed")
    return out


def run_estimate(name):
    from neutrinomass.database.closures import neutrino_mass_estimate, numerical_mv, parse_operator

    eff = comps.catalogue()[name]
    est = neutrino_mass_estimate(eff)
    return [sorted(map(str, est)), sorted(str(numerical_mv(e)) for e in est), sorted(map(str, parse_operator(eff)))]


def run_export(name, form):
    from neutrinomass.database import export, json_serialiser

    eff = comps.catalogue()[name]
    op = eff.operator
    return [export.export_operator(op), json.dumps(json_serialiser.export_eff_operator(eff)), op.latex(), str(canonical(op))]


def run_database(case):
    from neutrinomass.database.database import ModelDatabase

    c26.memoise()
    models, philosophy, criterion = case
    data = c20.build([m for m in models if m[0] in ("1", "2", "3a", "D3")])
    tags = {id(m): (k, n) for k, v in data.items() for n, m in enumerate(v)}
    db = ModelDatabase("", philosophy=philosophy, criterion=criterion, data=data)
    db.process()
    return [[k, [tags[id(m)][1] for m in v]] for k, v in db.data.items()]


def run_fieldstrings(which, n, labels, derivs):
    from neutrinomass.tensormethod import sm

    text = lambda ps: sorted([p.label, p.dynkin, str(p.y)] for p in ps)
    if which == "npoint":
        from neutrinomass.tensormethod.lagrangian import npoint_fieldstrings

        fs = tuple(getattr(sm, k) for k in labels)
        out = npoint_fieldstrings(n, fs, derivs=derivs)
        leptons = [str(p.charges["l"]) for p in out]
        return [text(out), sorted(leptons)]
    from neutrinomass.tensormethod import smeft

    fs = [getattr(smeft, k) for k in labels]
    given = list(fs)
    out = smeft.generate_operators(n + 1, given)
    check(len(given) == len(fs) and all(a is b for a, b in zip(given, fs)), "the list of fields was changed")
    return [text(out), sorted(str(p.charges["L"]) for p in out)]


def run_operator(content):
    try:
        op = dbs.operator_of(content)
    except Discard:
        return None
    simple = op.safe_simplify()
    return [str(canonical(op)), op.latex(), simple == 0, sorted(map(str, op.pickle_form().items())), [str(f) for f in op.fields]]


def rejected(kind):
    """calls with invalid arguments: the error they raise"""
    from neutrinomass.completions.core import EffectiveOperator, cons_completion_field
    from neutrinomass.tensormethod import contract, core, sm

    def tree(bad, good=()):
        # a product tree whose irreps do not fit
        p = core.Prod(irrep=core.Field("X", "00002", charges=sm.L.charges), left=sm.L, right=sm.H)
        return core.Prod(irrep=core.Field("Y", bad, charges=sm.L.charges), left=p, right=sm.H)

    odd = core.Field("X", "00001", charges={"y": 1})
    calls = {
        "indices": lambda: sm.L("u0"),
        "dynkin": lambda: core.Field("X", "0a0", charges={"y": 0}),
        "charges": lambda: contract.invariants(sm.L, odd),
        "tree": lambda: contract.construct_operators(tree("00005")),
        "tree2": lambda: contract.construct_operators(tree("10000")),
        "deriv": lambda: core.D(sm.H, "30")("u0"),
        "odd": lambda: contract.su2_singlets_type(sm.L("u0 i0 g0") * sm.H("i1") * sm.H("i2"), "i"),
        "colour": lambda: contract.colour_singlets([sm.Q("u0 c0 i0 g0") * sm.Q("u1 c1 i1 g1")]),
        "pickle": lambda: core.Operator.from_pickle_form({"fields": [], "epsilons": [["-i0"]]}),
        "index": lambda: core.Index("x0"),
        "eps": lambda: core.eps("-i0 -u0 -c1 c2"),
        "completion": lambda: comps.completions_module().partition_completion({"partition": (1, 2), "epsilons": [], "graph": None, "operator": None, "topology": ""}),
        "estimate": lambda: __import__("neutrinomass.database.utils", fromlist=["x"]).get_leading_mv(sm.H("i0") * sm.H.conj("i1") * core.eps("-i0 -i1")),
        "spin": lambda: cons_completion_field(core.Field("φ", "22000", charges={"y": 0, "3b": 0})("u0 u1 d0 d1")).mass_term,
    }
    try:
        calls[kind]()
        return "accepted"
    except Exception as e:
        return type(e).__name__


REJECTED = ["indices", "dynkin", "charges", "tree", "tree2", "deriv", "odd", "colour", "pickle", "index", "eps", "completion", "estimate", "spin"]

RUN = {
    "products": run_products, "invariants": run_invariants, "completion": run_completion, "completions": run_completions, "symmetries": run_symmetries,
    "estimate": run_estimate, "export": run_export, "database": run_database, "fieldstrings": run_fieldstrings, "operator": run_operator, "rejected": rejected,
}


# ------------------------------------------------------------------ what is shared


def shared():
    """the state of the SM fields and the operator catalogue"""
    from neutrinomass.completions.operators import DERIV_EFF_OPERATORS, EFF_OPERATORS
    from neutrinomass.tensormethod import sm

    out = {k: state(getattr(sm, k)) for k in gen.SM_LABELS}
    for table in (EFF_OPERATORS, DERIV_EFF_OPERATORS):
        for k, v in table.items():
            out[k] = [v.name, str(v.operator), [str(sorted(f.charges)) for f in v.operator.fields]]
    return out


def closures_state():
    from neutrinomass.database import closures

    return len(closures.RULES)


# ------------------------------------------------------------------ runs in processes of their own


def in_child(work, seconds=100):
    """JSON result of work() in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(seconds)
            try:
                out = {"ok": work()}
            except AssertionError as e:
                out = {"failed": str(e)}
            except Exception as e:
                # the check itself or a call that should succeed
                out = {"failed": f"raised {type(e).__name__}: {e}"} if type(e).__name__ != "Violation" else {"failed": str(e)}
            with os.fdopen(w, "w") as f:
                json.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    if not text:
        raise Discard()  # out of time
    return json.loads(text)


def perform(call):
    kind, *args = call
    try:
        return RUN[kind](*args)
    except Exception as e:
        # a call that is rejected is rejected whenever it is made
        if type(e).__name__ == "Violation":
            raise
        return f"raises {type(e).__name__}"


FRESH = {}


def fresh(call):
    key = json.dumps(call)
    if key not in FRESH:
        FRESH[key] = in_child(lambda: perform(call))
    return FRESH[key]


def call_case():
    small = st.lists(st.one_of(gen.sm_spec(), gen.sm_spec(gen.SM_LABELS), gen.small_exo(2)), min_size=2, max_size=4)
    closed = gen.singlet_list(max_fields=4, bound=60)
    labels = st.lists(st.sampled_from(["L", "Q", "H", "eb", "ub", "db"]), min_size=1, max_size=3, unique=True)
    return st.one_of(
        st.tuples(st.just("products"), small),
        st.tuples(st.just("invariants"), closed, st.sampled_from(["", "", "ud", "c"]), st.booleans()),
        st.tuples(st.just("completion"), comps.completion_case()),
        st.tuples(st.just("completion"), comps.completion_case()),
        st.tuples(st.just("completions"), st.sampled_from(["1", "2", "3a", "8"])),
        st.tuples(st.just("symmetries"), c15.lagrangian_case()),
        st.tuples(st.just("estimate"), st.sampled_from(comps.names())),
        st.tuples(st.just("export"), st.sampled_from(comps.names()), st.integers(0, 5)),
        st.tuples(st.just("database"), c20.database_case()),
        st.tuples(st.just("fieldstrings"), st.sampled_from(["npoint", "smeft"]), st.integers(2, 3), labels, st.booleans()),
        st.tuples(st.just("operator"), dbs.operator_case()),
        st.tuples(st.just("rejected"), st.sampled_from(REJECTED)),
        st.tuples(st.just("rejected"), st.sampled_from(REJECTED)),
    ).map(list)


def prepare():
    boot.load_database()
    comps.catalogue()
    c26.memoise()


@sub(
    "histories", strategy=lambda: st.lists(call_case(), min_size=2, max_size=7),
    quick=60, thorough=4000, budget=(50, 850), hang=300,
)
def histories(case, rec):
    """random sequences of public calls, also rejected ones, in one process: each gives what it gives in a fresh process, and the SM fields,
    the catalogue and the arguments stay as they were; non-trivial: three or more different calls with a result"""
    prepare()
    alone = [fresh(c) for c in case]

    def together():
        before = shared(), closures_state()
        out = [perform(c) for c in case]
        after = shared(), closures_state()
        changed = [k for k in before[0] if before[0][k] != after[0][k]]
        check(before == after, lambda: f"changed: { {k: (before[0][k], after[0][k]) for k in changed[:3]} }, rules {before[1]} -> {after[1]}")
        return out

    got = in_child(together, 250)
    for c in case:
        rec.label(c[0])
    for c, a in zip(case, alone):
        check("failed" not in a, lambda: f"{c}: {a.get('failed')}")
    check("failed" not in got, lambda: f"{[c[0] for c in case]}: {got.get('failed')}")
    useful = {json.dumps(c) for c, a in zip(case, alone) if a["ok"] is not None and not str(a["ok"]).startswith("raises")}
    rec.nontrivial(len(useful) > 2)
    for n, (c, a, b) in enumerate(zip(case, alone, got["ok"])):
        check(a["ok"] == b, lambda: f"after {[x for x in case[:n]]}, {c} gives {b}, in a fresh process {a['ok']}")
