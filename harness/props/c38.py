"""C38 the catalogue of operators is the one its generators construct"""
import contextlib
import io
import os
import pickle
import re
import runpy
import shutil
import tempfile
from collections import Counter
from functools import lru_cache

from .. import boot, comps
from ..core import check, must, sub
from . import c35

STRENGTHS = {"G", "Gb", "W", "Wb", "B", "Bb"}
# numbers whose operators take longest to construct
SLOW = {"24", "25", "27", "39", "40", "47", "63", "31"}
# the operator left out on purpose (see list_invariants)
LEFT_OUT = Counter({("H", False): 5, ("H", True): 3, ("L", False): 2})


def load(form):
    from neutrinomass.tensormethod.core import Operator

    return form if hasattr(form, "tensors") else Operator.from_pickle_form(form)


@lru_cache(maxsize=None)
def stored(name):
    path = os.path.join(boot.REPO, "neutrinomass", "completions", name)
    with open(path, "rb") as f:
        return {k: load(v) for k, v in pickle.load(f).items()}


@contextlib.contextmanager
def only(mapping, keys):
    """just these entries of a dictionary, by value"""
    full = dict(mapping)
    mapping.clear()
    mapping.update({k: full[k] for k in keys})
    try:
        yield
    finally:
        mapping.clear()
        mapping.update(full)


def run_script(name, output):
    """what a script of the package writes"""
    script = os.path.join(boot.REPO, "neutrinomass", "tensormethod", name)
    scratch, cwd = tempfile.mkdtemp(prefix="c38_"), os.getcwd()
    os.chdir(scratch)
    try:
        with contextlib.redirect_stdout(io.StringIO()) as text, must(f"running {name}"):
            runpy.run_path(script, run_name="__main__")
        path = os.path.join(scratch, output)
        check(os.path.exists(path), lambda: f"{name} does not write {output}")
        with open(path, "rb") as f:
            got = pickle.load(f)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch)
    return {k: load(v) for k, v in got.items()}, text.getvalue()


def fields_of(op):
    return [t for t in op.tensors if comps.is_field(t)]


def number(label):
    return re.fullmatch(r"(D?\d+)[a-z]?", label)[1]


def compare(label, got, want):
    a, b = c35.described(got), c35.described(want)
    content = lambda x: Counter(f[:3] for f in x[0])
    check(content(a) == content(b), lambda: f"operator {label} is constructed as {got}, in the catalogue it is {want}")
    check(c35.contraction(*a) == c35.contraction(*b), lambda: f"operator {label} is contracted as {got}, in the catalogue as {want}")
    for x in (got, want):
        others = [t for t in x.tensors if not comps.is_field(t)]
        check(len(others) == len(c35.described(x)[1]), lambda: f"operator {label} contracts more than isospin: {x}")
        reps = [[sum(1 for i in f.indices if str(i).lower().lstrip("-").startswith(k)) for k in "udci"] for f in fields_of(x)]
        dynkin = [[int(f.dynkin[0]), int(f.dynkin[1]), int(f.dynkin[2]) + int(f.dynkin[3]), int(f.dynkin[4])] for f in fields_of(x)]
        check(reps == dynkin, lambda: f"indices of the fields of operator {label}, {x}")


def check_all(got, want, what):
    check(set(got) == set(want), lambda: f"{what}: operators {sorted(got)} are constructed, the catalogue has {sorted(want)}")
    for label in want:
        compare(label, got[label], want[label])


def numbered_cases(tier):
    numbers = {number(k) for k in stored("operators.p")}
    return [[n] for n in sorted(numbers, key=int) if tier == "thorough" or n not in SLOW]


@sub("numbered", cases=numbered_cases, quick=80, thorough=80, budget=(150, 600), hang=400, single=True)
def numbered(case, rec):
    """the script that constructs the numbered operators, for each number: it writes the operators stored under that number, structure by
    structure; non-trivial: several structures"""
    from neutrinomass.tensormethod import lnv

    keys = [k for k, n in lnv.BL_LIST.items() if str(n) == case[0]]
    check(len(keys) == 1, lambda: f"number {case[0]} has the fields {keys}")
    want = {k: v for k, v in stored("operators.p").items() if number(k) == case[0]}
    rec.nontrivial(len(want) > 1)
    with only(lnv.BL_LIST, keys):
        got, text = run_script("lnvlatex", "output.p")
    check_all(got, want, f"number {case[0]}")
    listed = [line.split(" & ")[0].strip() for line in text.splitlines() if " & " in line]
    check(Counter(listed) == Counter(list(want)), lambda: f"operators printed for number {case[0]}: {listed}")
    for op in got.values():
        check(op.BL_classification == int(case[0]), lambda: f"{op} is numbered {op.BL_classification}, it is operator {case[0]}")


def derivative_cases(tier):
    return [[n] for n in sorted({number(k)[1:] for k in stored("deriv_operators.p")}, key=int)]


@sub("derivatives", cases=derivative_cases, quick=40, thorough=40, budget=(60, 300), hang=300, single=True)
def derivatives(case, rec):
    """the script that constructs the operators with derivatives, for each number: it writes those stored; non-trivial: several structures"""
    from neutrinomass.tensormethod import deriv_operators

    want = {k: v for k, v in stored("deriv_operators.p").items() if number(k) == "D" + case[0]}
    rec.nontrivial(len(want) > 1)
    with only(deriv_operators.deriv_operator_names, [case[0]]):
        got, text = run_script("lnvderivlatex", "deriv_operators.p")
    check_all(got, want, f"derivative operators {case[0]}")
    for op in got.values():
        check(op.BL_classification == -1, lambda: f"{op} has derivatives and is numbered {op.BL_classification}")
        check(op.contains_derivative, lambda: f"{op} has derivatives")


# ------------------------------------------------------------------ against the Hilbert series

CHARGES = {"L": 1, "eb": -1}


def terms_of(name):
    """terms of a Hilbert series as (fields, derivatives), read off the symbols"""
    from neutrinomass.tensormethod import hs

    import sympy

    series = getattr(hs, name)
    out = []
    for term in series if isinstance(series, tuple) else sympy.Add.make_args(sympy.expand(series)):
        fields, derivs = Counter(), 0
        for base, n in term.as_powers_dict().items():
            if base == hs.D:
                derivs = int(n)
            elif isinstance(base, sympy.Function) or base.is_Function:
                f = base.func.__name__
                conj = f.endswith("d") and f != "d"
                fields[f[:-1] if conj else f, conj] += int(n)
        out.append((fields, derivs))
    return out


def content(op):
    fields = fields_of(op)
    return Counter(map(comps.sm_key, fields)), sum(f.derivs for f in fields)


@sub("complete", cases=lambda tier: [["H7_LNV"], ["H9_LNV"], ["H11_LNV"]], quick=10, thorough=10, budget=(60, 60), hang=120, single=True)
def complete(case, rec):
    """the terms of the Hilbert series of each dimension, without field strengths, are those of the operators of the catalogue of that
    dimension; non-trivial: all of them"""
    rec.nontrivial(True)
    key = lambda c: (frozenset(c[0].items()), c[1])
    dim = int(re.match(r"H(\d+)_", case[0])[1])
    want = {key(t) for t in terms_of(case[0]) if not any(f in STRENGTHS for f, _ in t[0]) and t[0] != LEFT_OUT}
    mass = lambda c: sum(n * (1 if f == "H" else 1.5) for (f, _), n in c[0].items()) + c[1]
    catalogue = [v.operator for v in comps.catalogue().values()] + list(stored("deriv_operators.p").values())
    got = {key(c) for c in map(content, catalogue) if mass(c) == dim}
    if dim == 11:
        # (the series of dimension 11 is without derivatives)
        got = {c for c in got if not c[1]}
    check(got == want, lambda: f"dimension {dim}: only in the catalogue {got - want}, only in the series {want - got}")


def unlisted_cases(tier):
    """one term for each content of the series, the easy ones first"""
    weight = {"W": 2, "Wb": 2, "H": 1, "L": 1, "Q": 2}
    cases, seen = [], set()
    for name in ("H6", "H7_LNV", "H9_LNV", "H11_LNV"):
        for n, (fields, derivs) in enumerate(terms_of(name)):
            content = frozenset(fields.items()), derivs
            cost = sum(k * weight.get(f, 0.5) for (f, _), k in fields.items()) + derivs * len(fields)
            if content not in seen:
                seen.add(content)
                cases.append((cost, [name, n]))
    return [c for cost, c in sorted(cases) if cost <= (7 if tier == "quick" else 12)]


@sub("unlisted", cases=unlisted_cases, quick=150, thorough=400, budget=(60, 500), hang=300)
def unlisted(case, rec):
    """a term of a Hilbert series: the operators without a number are its invariants, except those with the fields of a numbered operator;
    non-trivial: it has several ways to place derivatives or a number"""
    import sympy

    from neutrinomass.tensormethod import hs, lnv, parse_hs
    from neutrinomass.tensormethod.contract import invariants
    from neutrinomass.tensormethod.operatorxcheck import list_invariants

    name, n = case
    series = getattr(hs, name)
    term = (list(series) if isinstance(series, tuple) else sympy.Add.make_args(sympy.expand(series)))[n]
    term = term.subs(hs.Nf, 3)
    fields, derivs = terms_of(name)[n]
    label = tuple(sorted(f + (".conj" if c else "") for f, c in fields.elements()))
    has_number = not derivs and label in lnv.BL_LIST
    with contextlib.redirect_stdout(io.StringIO()), must(f"unnumbered operators of {term}"):
        got = list_invariants([term])
    if fields == LEFT_OUT:
        check(not got, lambda: f"{got} are not to be constructed")
        return
    ways = parse_hs.parse([term])
    rec.nontrivial(has_number or len(ways) > 1)
    want = [] if has_number else [op for w in ways for op in invariants(*w)]
    key = lambda op: tuple(sorted(map(str, op.fields)))
    check(Counter(map(key, got)) == Counter(map(key, want)), lambda: f"unnumbered operators of {term}: {got}, should be {want}")
    for op in got:
        check(content(op)[0] == fields and content(op)[1] == derivs, lambda: f"{op} is not of the form {term}")
