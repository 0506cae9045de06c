"""C12 every completion is a valid renormalisable Lagrangian"""
import contextlib
import io
from collections import Counter
from fractions import Fraction
from functools import lru_cache

import hypothesis.strategies as st

from .. import comps, gen, ref
from ..core import Discard, check, sub
from ..ref import frac
from . import c03, c05


def exotic_class(e):
    return type(e).__name__ in ("RealScalar", "MajoranaFermion")


def listed(x):
    """label -> canonical quantum numbers of the exotics a completion lists; one label, one field"""
    out = {}
    for e in x.exotics:
        b = comps.base(e.label)
        q = comps.canonical(e, exotic_class(e))
        check(out.setdefault(b, q) == q, lambda: f"two different exotics are called {b}: {out[b]} and {q}")
    return out


def symmetric_on_epsilon(term):
    for e in term.tensors:
        if not comps.is_field(e) and len(e.indices) == 3:
            names = {ref.bare(i) for i in e.indices}
            if any(len(names & {ref.bare(i) for i in f.indices}) > 1 for f in comps.term_fields(term)):
                return True
    return False


def nonvanishing(term):
    """not identically zero: terms with two fields the same, or with a field contracted with a colour epsilon more than once;
    None for those too big to evaluate"""
    fields = comps.term_fields(term)
    labels = [f.label for f in fields]
    if len(set(labels)) == len(labels) and not symmetric_on_epsilon(term):
        return True
    n = 1
    for f in fields:
        for d, k in zip(f.dynkin, (2, 2, 3, 3, 2)):
            n *= k ** int(d)
    if n > 300000:
        return None
    return bool(c05.poly(term.tensors, None))


def vanishing(term, rec):
    """a term that vanishes identically: known where the simplification it is tested with does not bring it to zero"""
    unseen = term.safe_simplify() != 0
    if unseen:
        rec.label("vanishing term not recognised")
        rec.finding("unrecognised-vanishing-term", f"term {term} of a completion vanishes identically, but does not simplify to zero")
    else:
        check(False, f"term {term} of a completion vanishes identically")


def check_terms(x, rec, numeric=True):
    names = listed(x)
    real = {comps.base(e.label): exotic_class(e) for e in x.exotics}
    seen = set()
    for term in x.terms:
        fields = comps.term_fields(term)
        check(len(fields) in (3, 4), lambda: f"term {term} has {len(fields)} fields")
        check(all(f.derivs == 0 for f in fields), lambda: f"term {term} contains derivatives")
        for f in fields:
            u, d = int(f.dynkin[0]), int(f.dynkin[1])
            check(u + d <= 1, lambda: f"{f} in {term} is neither scalar nor fermion")
        dim = sum(Fraction(3, 2) if int(f.dynkin[0]) + int(f.dynkin[1]) else Fraction(1) for f in fields)
        check(dim <= 4, lambda: f"term {term} has dimension {dim}")
        check(sum(frac(f.charges["y"]) for f in fields) == 0, lambda: f"term {term} has hypercharge {[str(f.charges['y']) for f in fields]}")
        free = [i for i in term.free_indices if ref.kind(str(i).lower()) != "g"]
        check(not free, lambda: f"term {term} has free indices {free}")
        if numeric:
            c03.invariant_value(term, "udci", trials=1)
            nv = nonvanishing(term)
            if nv is None:
                rec.label("term too big for the vanishing test")
            if nv is False:
                vanishing(term, rec)
        for f in fields:
            if comps.is_exotic(f):
                b = comps.base(f.label)
                check(b in names, lambda: f"{f} in {term} is not among the exotics {sorted(names)}")
                q = comps.canonical(f, real[b])
                check(q == names[b], lambda: f"{f} in {term} has quantum numbers {q}, the exotic {b} has {names[b]}")
                # dotted exactly when conjugated
                if q[0] == "F":
                    check((f.dynkin[:2] == "10") == ("†" not in f.label), lambda: f"{f} in {term}: chirality of a conjugate")
                seen.add(b)
            else:
                l, conj = comps.sm_key(f)
                check(l in ref.SM, lambda: f"unknown field {f} in {term}")
                d, y, b3 = ref.sm_irrep(l, conj), ref.SM[l][1], ref.SM[l][2]
                s = -1 if conj else 1
                check((f.dynkin, frac(f.charges["y"]), frac(f.charges["3b"])) == (d, s * y, s * b3), lambda: f"{f} in {term} has {f.dynkin} {f.charges}")
    check(seen == set(names), lambda: f"exotics {sorted(names)}, fields of the terms {sorted(seen)}")
    # the summary of the model
    info = x.exotic_info()
    check(set(info) == set(x.exotics), "exotic_info lists other fields")
    for e, v in info.items():
        q = names[comps.base(e.label)]
        y = q[3]
        check(v[0] == q[0] and v[3] == q[2], lambda: f"{e} summarised as {v}")
        got_y = frac(dict(v[4:])["y"])
        check(got_y == abs(y), lambda: f"{e} summarised as {v}: hypercharge should be {abs(y)}")
        ey = frac(e.charges["y"])
        want = tuple(map(int, e.dynkin[2:4])) if ey >= 0 else tuple(map(int, e.dynkin[2:4]))[::-1]
        check(tuple(v[1:3]) == want, lambda: f"{e} summarised as {v}: colour should be {want}")
    lag = x.lagrangian
    check(list(lag.interaction_terms) == list(x.terms) and set(lag.exotics) == set(x.exotics), "Lagrangian of the completion")


@sub("sampled", strategy=comps.completion_case, quick=260, thorough=8000, budget=(70, 850))
def sampled(case, rec):
    """random placement on a random topology for a catalogue operator (with or without derivatives) or an operator of
    generated SM content; non-trivial: the placement has a completion"""
    p, x = comps.complete(case, rec)
    rec.nontrivial(x is not None)
    if x is None:
        return
    check_terms(x, rec)
    op = x.operator.operator
    want = Counter(repr(f) for f in comps.term_fields(p["operator"].operator))
    have = Counter(repr(f) for f in comps.term_fields(op))
    check(len(comps.term_fields(op)) == sum(want.values()), lambda: f"explicit operator {op} has {have}, expected {want}")
    free = [i for i in op.free_indices if ref.kind(str(i).lower()) != "g"]
    check(not free, lambda: f"the operator of the completion has free indices {free}")
    rec.label("exotics=%d" % len(listed(x)))


def spin(node):
    """Lorentz content of the particle a subtree of a partition without derivatives becomes: 'S', 'u' (undotted fermion), 'd',
    or None if one of its vertices would need a vector or have dimension above four"""
    if len(node) == 2 and isinstance(node[1], int):
        f = node[0]
        return "u" if f.dynkin[0] == "1" else "d" if f.dynkin[1] == "1" else "S"
    return vertex([spin(x) for x in node])


def vertex(spins):
    if None in spins:
        return None
    fermions = [s for s in spins if s != "S"]
    if len(fermions) == 2:
        # two fermions of opposite chirality make a vector
        return "S" if fermions[0] == fermions[1] and len(spins) <= 3 else None
    if len(fermions) > 2 or (fermions and len(spins) > 2):
        return None
    return fermions[0] if fermions else "S"


def allowed(part):
    """whether every vertex of a partition of an operator without derivatives can be renormalisable; the rows of the
    partition meet at the last vertex"""
    spins = [spin(row) for row in part]
    if None in spins:
        return False
    fermions = [s for s in spins if s != "S"]
    return not fermions or (len(fermions) == 2 and fermions[0] == fermions[1] and len(spins) == 3)


@sub("rejected", strategy=lambda: comps.completion_case(derivatives=False), quick=260, thorough=8000, budget=(70, 850))
def rejected(case, rec):
    """random placement for an operator without derivatives: it has a completion exactly when no vertex needs a vector or a
    coupling of dimension five, unless a coupling vanishes; the coupling rejected as vanishing is watched at
    Operator.safe_simplify and evaluated as a Grassmann polynomial. non-trivial: the Lorentz structure allows a completion"""
    from neutrinomass.tensormethod.core import Operator

    p = comps.case_partition(case)
    if p is None:
        raise Discard()
    ok = allowed(p["partition"])
    seen = []
    original = Operator.safe_simplify

    def watched(self, *args, **kwargs):
        out = original(self, *args, **kwargs)
        if out == 0:
            seen.append(self)
        return out

    Operator.safe_simplify = watched
    try:
        x = comps.completions_module().partition_completion(p)
    finally:
        Operator.safe_simplify = original
    failed = type(x).__name__ == "FailedCompletion"
    check(ok or failed, lambda: f"completion found for {p['partition']}, one of whose vertices is not renormalisable")
    rec.nontrivial(ok)
    if not ok:
        rec.label("not allowed")
        return
    if not failed:
        rec.label("allowed")
        return
    check(seen or "anish" in x.reason, lambda: f"placement {p['partition']} rejected: {x.reason}")
    rec.label("vanishing")
    for term in seen[-1:]:
        check(not nonvanishing(term), lambda: f"placement rejected for the vanishing of {term}, which does not vanish")


def whole_names(tier):
    """names of the operators with few placements, cheap ones first"""
    limit = {"quick": (48, 8), "thorough": (480, 400)}[tier]
    sizes = {k: comps.n_placements(comps.catalogue()[k]) for k in comps.names()}
    picked = [k for k in sizes if sizes[k] is not None and sizes[k] <= limit[k.startswith("D:")]]
    return [[k] for k in sorted(picked, key=lambda k: sizes[k])]


@sub("recorded", cases=lambda tier: [["gen", [["sm", "L", False], ["sm", "Q", False], ["sm", "ub", True], ["sm", "ub", True], ["sm", "H", True], ["sm", "H", True]], 0, 150, 3]], single=True)
def recorded(case, rec):
    """a placement on which the recorded finding shows"""
    sampled(case, rec)


@lru_cache(maxsize=None)
def two_epsilon_names():
    """catalogue operators with two raised and two lowered free colour indices: their last colour form is the one made of epsilons"""
    out = []
    for n in comps.names():
        free = [str(i) for i in comps.catalogue()[n].operator.free_indices if ref.kind(str(i).lower()) == "c"]
        if len(free) == 4 and sum(i.startswith("-") for i in free) == 2 and not n.startswith("D:"):
            out.append(n)
    return out


def epsilon_case():
    return st.tuples(st.sampled_from(two_epsilon_names()), st.integers(0, 10**6)).map(
        lambda t: ["cat", t[0], 0, t[1] * len(comps.colour_forms(t[0])) + len(comps.colour_forms(t[0])) - 1, t[1]]
    )


@sub("colour", strategy=epsilon_case, quick=200, thorough=6000, budget=(70, 850))
def colour(case, rec):
    """random placement of an operator whose colour is contracted with two epsilons, one of which may be contracted with the other;
    non-trivial: the placement has a completion with a field that carries two colour indices"""
    p, x = comps.complete(case, rec)
    if x is None:
        return
    rec.nontrivial(any(int(f.dynkin[2]) + int(f.dynkin[3]) > 1 for t in x.terms for f in comps.term_fields(t)))
    check_terms(x, rec)


@sub("whole", cases=whole_names, quick=1, thorough=1, budget=(60, 850))
def whole(case, rec):
    """all completions of every catalogue operator with few placements (exhaustive over those), through the general entry point and
    the one for their kind"""
    c = comps.completions_module()
    op = comps.catalogue()[case[0]]
    xs = list(c.completions(op))
    deriv = case[0].startswith("D:")
    ys = xs
    if deriv or len(xs) < 60:
        with contextlib.redirect_stdout(io.StringIO()):
            ys = list(c.deriv_operator_completions(op, verbose=True) if deriv else c.operator_completions(op, verbose=True))
    check(Counter(map(comps.model, xs)) == Counter(map(comps.model, ys)), lambda: f"completions of {op.name} differ from those found by kind")
    for n, x in enumerate(xs):
        check(type(x).__name__ == "Completion", lambda: f"{type(x).__name__} among the completions")
        check_terms(x, rec, numeric=n % 4 == 0)
        check(x.operator.name == op.name, "name of the operator")
    rec.label(f"completions={len(xs)}")
    rec.nontrivial(bool(xs))
