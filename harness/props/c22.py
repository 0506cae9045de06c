"""C22 closure estimates of the neutrino mass"""
import contextlib
import io
import math
import random
from collections import Counter
from fractions import Fraction

import hypothesis.strategies as st

from .. import boot, comps, gen, ref
from ..core import Discard, check, sub
from . import c14, c21
from .c21 import charge

# ------------------------------------------------------------------ reference

# baryon and lepton number of the components
THIRD = Fraction(1, 3)
NUMBERS = {"nu": (0, 1), "e": (0, 1), "eb": (0, -1), "u": (THIRD, 0), "d": (THIRD, 0), "ub": (-THIRD, 0), "db": (-THIRD, 0), "hp": (0, 0), "h0": (0, 0), "W": (0, 0)}
FIELDS = sorted(NUMBERS)
FACTORS = {"v", "loop", "loopv2", "g2", "ye", "yu", "yd", "nunu"}


def split(op):
    """(fields, constants) of a product, as Counters"""
    fields, consts = Counter(), Counter()
    for item in op:
        name = type(item).__name__
        if name == "Const":
            consts[str(item.operands[0].name)] += 1
        elif name == "c":
            fields[str(item.operands[0].name), True] += 1
        else:
            fields[str(item.name), False] += 1
    return fields, consts


def as_product(op):
    """a product of one factor loses its wrapper"""
    return op if type(op).__name__ == "Op" else [op]


def totals(fields, consts):
    """electric charge, baryon number, lepton number, parity of Higgs quanta and Yukawa couplings, and of right-handed fields and
    their Yukawa couplings (leptons and quarks)"""
    q = sum(charge(k) * n for k, n in fields.items())
    b = sum((-1 if c else 1) * NUMBERS[name][0] * n for (name, c), n in fields.items())
    l = sum((-1 if c else 1) * NUMBERS[name][1] * n for (name, c), n in fields.items()) + 2 * consts["nunu"]
    higgs = sum(n for (name, _), n in fields.items() if name in ("h0", "hp")) + sum(consts[k] for k in ("v", "ye", "yu", "yd"))
    right = lambda names: sum(n for (name, _), n in fields.items() if name in names)
    return q, b, l, higgs % 2, (right(["eb"]) + consts["ye"]) % 2, (right(["ub", "db"]) + consts["yu"] + consts["yd"]) % 2


def check_step(old, new):
    """one closure step"""
    f, c = split(as_product(old))
    g, d = split(as_product(new))
    show = lambda: f"step from {old} to {new}"
    check(set(d) <= FACTORS, lambda: f"unknown factor, {show()}")
    check(not c - d, lambda: f"factors get lost, {show()}")
    check(totals(f, c) == totals(g, d), lambda: f"charge, baryon and lepton number, Higgs and chirality parities go from {totals(f, c)} to {totals(g, d)}, {show()}")
    # legs that are joined: fields that are used up
    used = sum((f - g).values())
    added = d - c
    if added["nunu"]:
        check(f - g == Counter({("nu", False): 2}) and added == Counter({"nunu": 1}) and not g - f, lambda: f"closing off is wrong, {show()}")
    else:
        loops = added["loop"] + added["loopv2"]
        check(loops >= used - 1, lambda: f"{used} legs are joined with {loops} loops, {show()}")
        check(used <= 2 or loops <= used, lambda: f"{used} legs are joined with {loops} loops, {show()}")
        check(used > 2 or loops == used - 1, lambda: f"{used} legs are joined with {loops} loops, {show()}")
    return bool(used or added)


def build(fields, factor=False):
    """product of components; with a factor, since the closure rules want something besides the fields they close off"""
    from neutrinomass.database import closures as C

    items = []
    for name, conj in fields:
        s = getattr(C, name)
        items.append(C.c(s) if conj else s)
    if factor:
        items.append(C.Const(C.v))
    return C.Op(*items)


def trace(op):
    """the closure steps of a product"""
    from neutrinomass.database import closures as C

    out = [op]
    for _ in range(60):
        new = C.apply_rules(C.RULES, out[-1])
        if new == out[-1]:
            return out
        out.append(new)
    check(False, lambda: f"closing off {op} does not end: {out[-5:]}")


# ------------------------------------------------------------------ steps


def component():
    return st.tuples(st.sampled_from(FIELDS), st.booleans()).map(lambda t: [t[0], t[1] and t[0] != "W"])


def product_case():
    free = st.lists(component(), min_size=2, max_size=8)
    # the fields the rules start from, with others
    seeds = [
        [["nu", 0], ["nu", 0]], [["e", 0], ["nu", 0]], [["eb", 1], ["db", 0], ["ub", 1]], [["eb", 1], ["d", 1], ["u", 0]], [["db", 0], ["ub", 1], ["hp", 1]],
        [["W", 0], ["hp", 0]], [["W", 0], ["u", 0]], [["W", 0], ["d", 1]], [["W", 0], ["ub", 1], ["db", 0]], [["hp", 0], ["eb", 1]], [["hp", 0], ["u", 1]],
        [["hp", 1], ["db", 0]], [["hp", 0], ["d", 0]], [["hp", 0], ["ub", 0]], [["hp", 1], ["ub", 1]], [["hp", 0], ["u", 0], ["d", 1]], [["hp", 1], ["u", 0], ["d", 1]],
        [["eb", 1], ["nu", 0]], [["e", 0], ["eb", 0]], [["u", 0], ["ub", 0]], [["d", 0], ["db", 0]], [["e", 1], ["eb", 1]], [["u", 1], ["ub", 1]], [["d", 1], ["db", 1]],
        [["h0", 0]], [["h0", 1]],
    ] + [[[k, 0], [k, 1]] for k in FIELDS if k != "W"]
    directed = st.tuples(st.sampled_from(seeds), st.lists(component(), max_size=4)).map(lambda t: [[n, bool(c)] for n, c in t[0]] + t[1])
    return st.tuples(st.one_of(directed, directed, free), st.integers(0, 10**4)).map(list)


@sub("steps", strategy=product_case, quick=1500, thorough=60000, budget=(40, 800))
def steps(case, rec):
    """random products of components, most of them containing fields that can be closed off; non-trivial: at least one step"""
    boot.load_database()
    from neutrinomass.database import closures as C

    fields, seed = case
    op = build(fields, True)
    path = trace(op)
    rec.label(f"{min(len(path) - 1, 8)} steps")
    rec.nontrivial(len(path) > 1)
    for a, b in zip(path, path[1:]):
        check_step(a, b)
    left, _ = split(as_product(path[-1]))
    check(not left["h0", False] and not left["h0", True], lambda: f"{op} ends with {path[-1]}, which has a neutral Higgs left")
    for name in FIELDS:
        check(not (left[name, False] and left[name, True]), lambda: f"{op} ends with {path[-1]}, which has {name} and its conjugate left")
    check(left["nu", False] < 2, lambda: f"{op} ends with {path[-1]}, which has two neutrinos left")
    # written in another order
    r = random.Random(seed)
    other = list(fields)
    r.shuffle(other)
    check(C.apply_rules(C.RULES, build(other, True)) == path[1 if len(path) > 1 else 0], lambda: f"the first step from {fields} and from {other} differ")
    if len(path) <= 10:
        with contextlib.redirect_stdout(io.StringIO()):
            end = C.fixed_point(op, verbose=seed % 2 == 0)
        check(end == path[-1], lambda: f"fixed_point({op}) = {end}, the steps lead to {path[-1]}")
        got = C.clean(as_product(end) if type(end).__name__ != "Op" else end)
        if not sum(left.values()):
            check(isinstance(got, list) and Counter(got) == split(as_product(end))[1], lambda: f"clean({end}) = {got}")
        else:
            check(not isinstance(got, list) or type(end).__name__ != "Op", lambda: f"clean({end}) = {got} although fields are left")


# ------------------------------------------------------------------ estimates

NUMERIC = {"v": 174.0, "loop": 1 / (16 * math.pi**2), "g2": 0.6295**2, "yu": 172.76 / 174, "yd": 4.18 / 174, "ye": 1.78 / 174}


def powers(expr):
    """{symbol: power} of a monomial with coefficient 1"""
    out = {}
    for base, p in expr.as_powers_dict().items():
        check(base.is_Symbol, lambda: f"estimate {expr} has factor {base}")
        out[str(base)] = int(p)
    return out


def value(p, scale=1000.0):
    """value of an estimate in GeV for a new-physics scale in GeV"""
    loopv2 = NUMERIC["loop"] + NUMERIC["v"] ** 2 / scale**2
    out = 1.0
    for k, n in p.items():
        out *= (loopv2 if k == "loopv2" else scale if k == "Λ" else NUMERIC[k]) ** n
    return out


def expected(op):
    """Counter of the estimates of an operator (powers of the factors), from its expansion and the closure steps"""
    out = Counter()
    for comp, n in c21.expand(op).items():
        path = trace(build(comp))
        for a, b in zip(path, path[1:]):
            check_step(a, b)
        left, consts = split(as_product(path[-1]))
        if sum(left.values()):
            continue
        p = Counter(consts)
        check(p["nunu"] == 1, lambda: f"{comp} is closed off with {p['nunu']} pairs of neutrinos")
        check(p["v"] % 2 == 0 and p["v"] >= 2, lambda: f"{comp} is closed off with {p['v']} vevs")
        p["loopv2"] += p["v"] // 2 - 1
        p["v"] = 2
        p["Λ"] = -1
        del p["nunu"]
        out[tuple(sorted((k, m) for k, m in p.items() if m))] += n
    return out


def check_estimates(op, eff, rec):
    from neutrinomass.database.closures import neutrino_mass_estimate, parse_operator

    want = expected(op)
    with contextlib.redirect_stdout(io.StringIO()):
        est = neutrino_mass_estimate(eff)
        listed = neutrino_mass_estimate(parse_operator(op), verbose=True)
    got = Counter(tuple(sorted(powers(e).items())) for e in est)
    for p in got:
        p = dict(p)
        check(p.get("v") == 2 and p.get("Λ") == -1, lambda: f"estimate {p} of {op} is not v^2/Λ times factors")
        check(all(n > 0 for k, n in p.items() if k != "Λ") and set(p) <= FACTORS - {"nunu"} | {"Λ"}, lambda: f"estimate {p} of {op} has other factors")
    check(got == want, lambda: f"estimates of {op}: {dict(got)}, should be {dict(want)}")
    check(Counter(tuple(sorted(powers(e).items())) for e in listed) == got, lambda: f"estimates of {op} and of its components differ")
    rec.nontrivial(len(got) > 1)
    return est, got


@sub(
    "catalogue",
    strategy=lambda: st.tuples(st.sampled_from(comps.names()), st.sampled_from(["plain", "reorder", "rename", "both"]), st.integers(0, 10**4)).map(list),
    quick=160, thorough=12000, budget=(40, 800),
)
def catalogue(case, rec):
    """catalogue operators, as listed, reordered or with renamed indices; non-trivial: several different estimates"""
    boot.load_database()
    from neutrinomass.completions.core import EffectiveOperator
    from neutrinomass.database.utils import get_leading_mv

    name, how, seed = case
    eff = comps.catalogue()[name]
    op = eff.operator
    rec.label(how)
    for h in {"plain": [], "both": ["reorder", "rename"]}.get(how, [how]):
        op, _ = c14.rewrite(op, h, seed)
    est, got = check_estimates(op, EffectiveOperator(eff.name, op), rec)
    from neutrinomass.database.closures import neutrino_mass_estimate

    first = Counter(tuple(sorted(powers(e).items())) for e in neutrino_mass_estimate(eff))
    check(first == got, lambda: f"estimates of {name} change when it is written as {op}")
    check(bool(got), lambda: f"catalogue operator {name} has no estimate")
    lead = get_leading_mv(EffectiveOperator(eff.name, op))
    check(lead in est, lambda: f"the leading estimate {lead} of {name} is not among its estimates")
    top = max(value(dict(p)) for p in got)
    check(math.isclose(value(powers(lead)), top, rel_tol=1e-9), lambda: f"leading estimate of {name} is {lead} with {value(powers(lead))}, the largest has {top}")


_LEPTONIC = []


def leptonic():
    """generated contents with lepton number two and no baryon number"""
    if not _LEPTONIC:
        for specs in comps.sm_contents(6):
            infos = [gen.spec_info(s) for s in specs]
            l = sum((-1 if s[2] else 1) * {"L": 1, "eb": -1}.get(s[1], 0) for s in specs)
            if l == 2 and sum(i["b"] for i in infos) == 0:
                _LEPTONIC.append(specs)
    return _LEPTONIC


@sub(
    "generated",
    strategy=lambda: st.tuples(st.sampled_from(leptonic()), st.integers(0, 50), st.integers(0, 10**4)).map(list),
    quick=150, thorough=8000, budget=(40, 800),
)
def generated(case, rec):
    """generated operators of four to six SM fields with lepton number two, any isospin contraction, in any order; non-trivial: several
    different estimates"""
    boot.load_database()
    from neutrinomass.completions.core import EffectiveOperator

    specs, which, seed = case
    op = comps.built_operator(specs, which)[0].operator
    op, _ = c14.rewrite(op, "reorder", seed)
    check_estimates(op, EffectiveOperator("X", op), rec)


@sub("every", cases=lambda tier: [[k] for k in comps.names()], budget=(60, 300))
def every(case, rec):
    """all catalogue operators"""
    boot.load_database()
    eff = comps.catalogue()[case[0]]
    check_estimates(eff.operator, eff, rec)


# ------------------------------------------------------------------ table


def loops_of(p):
    """number of loops of an estimate; a vev-or-loop factor is worth zero or one"""
    return [p.get("loop", 0) + k for k in range(p.get("loopv2", 0) + 1)]


def table_names(tier):
    return [[k] for k in comps.names() if tier == "thorough" or max(dict(p).get("loopv2", 0) for p in expected(comps.catalogue()[k].operator)) < 2]


@sub(
    "table",
    cases=lambda tier: (lambda xs: xs if tier == "thorough" else random.Random(2).sample(xs, min(40, len(xs))))(table_names(tier)),
    budget=(60, 850), hang=600,
)
def table(case, rec):
    """loop numbers and scale tabulated for catalogue operators; non-trivial: several different estimates"""
    boot.load_database()
    from neutrinomass.database.utils import estimate_np_scale, table_data

    from .c23 import scale

    eff = comps.catalogue()[case[0]]
    want = expected(eff.operator)
    rec.nontrivial(len(want) > 1)
    loops, text = table_data(eff)
    top = max(scale(dict(p)) for p in want)
    check(text.startswith("\\mynum{") and text.endswith("}"), lambda: f"scale of {case[0]} is {text!r}")
    got = float(text[len("\\mynum{"):-1])
    # the code compares scales rounded to two digits
    check(got >= top - 0.0051 and got <= top * (1 + 1e-9), lambda: f"scale of {case[0]} is {got}, the largest is {top}")
    options = [",".join(map(str, loops_of(dict(p)))) for p in want if math.isclose(scale(dict(p)), got, rel_tol=1e-6)]
    check(loops in options, lambda: f"{case[0]} is tabulated with {loops} loops, its leading estimates have {options}")
