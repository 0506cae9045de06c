"""C37 the summary of a model shows its fields, its interactions and its diagram"""
import builtins
import contextlib
import io
import re
import sys
from collections import Counter
from fractions import Fraction

import hypothesis.strategies as st

from .. import boot, comps, dbs, ref
from ..core import Discard, check, must, sub
from ..ref import frac
from . import c18

TEXT = re.compile(r"([SF])\((\d+)(b?), (\d+), (-?\d+(?:/\d+)?)\)\((-?\d+(?:/\d+)?)\)")


def quantum_numbers(e):
    """(kind, dimension of colour, barred, dimension of isospin, hypercharge, baryon number) of an exotic by its representation, the sign
    of the hypercharge chosen positive"""
    d = e.dynkin
    kind = "F" if int(d[0]) + int(d[1]) == 1 else "S"
    p, q, iso = int(d[2]), int(d[3]), int(d[4])
    y, b = frac(e.charges["y"]), frac(e.charges["3b"])
    if y < 0:
        p, q, y, b = q, p, -y, -b
    return kind, (p + 1) * (q + 1) * (p + q + 2) // 2, q > p, iso + 1, y, b


def read(text):
    m = TEXT.fullmatch(text.strip())
    check(m, lambda: f"quantum numbers {text!r}")
    return m[1], int(m[2]), bool(m[3]), int(m[4]), Fraction(m[5]), Fraction(m[6])


def info_of(x, notebook=False):
    """(lines printed, figures: texts of each, terms displayed) by the summary of a completion"""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    plt.close("all")
    shown, displayed = [], []
    old = plt.show, sys.argv, getattr(builtins, "display", None)
    plt.show = lambda *a, **k: shown.append([[t.get_text() for ax in plt.figure(n).axes for t in ax.texts] for n in plt.get_fignums()])
    sys.argv = ["python", "kernel-1.json" if notebook else "script.py"]
    builtins.display = displayed.append
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), must(f"summary of {x.terms}"):
            x.info()
    finally:
        plt.show, sys.argv = old[:2]
        if old[2] is None:
            del builtins.display
        else:
            builtins.display = old[2]
        plt.close("all")
    return out.getvalue().splitlines(), shown, displayed


def check_model(x):
    from neutrinomass.completions.core import Model

    m = Model([x])
    want = {quantum_numbers(e) for e in x.exotics}
    got = [read(t) for t in m.exotic_numbers]
    check(len(got) == len(want) and set(got) == want, lambda: f"model of {x.exotics} has {m.exotic_numbers}")
    text = repr(m)
    check(text.startswith("Model(") and text.endswith(")"), lambda: text)
    check(sorted(read(t) for t in text[len("Model(") : -1].split(" + ")) == sorted(want), lambda: f"{text} for {x.exotics}")


@sub("summary", strategy=lambda: st.tuples(comps.completion_case(), st.booleans()).map(list), quick=100, thorough=4000, budget=(40, 500))
def summary(case, rec):
    """completions of random placements: every field with its quantum numbers, every interaction and every line of the diagram, in a
    terminal and in a notebook; non-trivial: several exotic fields"""
    placed, notebook = case
    p, x = comps.complete(placed, rec)
    if x is None:
        raise Discard()
    rec.nontrivial(len(x.exotics) > 1)
    lines, figures, displayed = info_of(x, notebook)
    check("Fields:" in lines and "Lagrangian:" in lines and "Diagram:" in lines, lambda: f"summary {lines}")
    a, b, c = lines.index("Fields:"), lines.index("Lagrangian:"), lines.index("Diagram:")
    fields = [l for l in lines[a + 1 : b] if l]
    terms = [l for l in lines[b + 1 : c] if l]
    got = Counter()
    for l in fields:
        m = re.fullmatch(r"(\S+)\s+([SF]\(.*\))\s*", l)
        check(m, lambda: f"line {l!r} of the summary")
        got[m[1], read(m[2])] += 1
    want = Counter((e.label, quantum_numbers(e)) for e in x.exotics)
    check(got == want, lambda: f"fields in the summary {dict(got)}, of the model {dict(want)}")
    shown = [str(t) for t in displayed] if notebook else terms
    check(Counter(shown) == Counter(map(str, x.terms)), lambda: f"interactions in the summary {shown}, of the model {x.terms}")
    check(not (terms if notebook else displayed), lambda: f"interactions shown twice: {terms}, {displayed}")
    check(len(figures) == 1 and len(figures[0]) == 1, lambda: f"{figures} are shown")
    drawn = Counter(t for t in figures[0][0])
    particles = Counter(str({"particle": d["particle"]}) for _, _, d in x.graph.edges(data=True))
    short = Counter(str(d["particle"]) for _, _, d in x.graph.edges(data=True))
    check(drawn in (particles, short), lambda: f"lines drawn {dict(drawn)}, of the diagram {dict(short)}")
    check_model(x)
    check(x.exotic_fields() == {e.field for e in x.exotics}, lambda: f"exotic fields {x.exotic_fields()} of {x.exotics}")


@sub("models", strategy=lambda: st.tuples(st.sampled_from(["1", "2", "3a", "3b", "8", "D:D2a", "D:D3"]), st.integers(0, 300)).map(list), quick=60, thorough=1500, budget=(40, 300))
def models(case, rec):
    """models (completions with the same fields): their quantum numbers, each once, in order; non-trivial: several exotic fields"""
    pool = c18.pool(case[0])
    if not pool:
        raise Discard()
    x = pool[case[1] % len(pool)]
    rec.nontrivial(len(x.exotics) > 1)
    check_model(x)


def number():
    return st.builds(lambda n, d: str(Fraction(n, d)), st.integers(-12, 12), st.sampled_from([1, 2, 3, 6]))


@sub("numbers", strategy=lambda: st.tuples(st.sampled_from("SF"), st.integers(0, 4), st.integers(0, 4), st.integers(0, 9), number(), st.integers(-6, 6), st.booleans(), st.booleans()).map(list), quick=300, thorough=5000, budget=(10, 60))
def numbers(case, rec):
    """generated quantum numbers of any representation as text; non-trivial: coloured"""
    from neutrinomass.completions.core import format_quantum_numbers
    from sympy import Rational

    kind, p, q, iso, y, b, order, text = case
    rec.nontrivial(p + q > 0)
    charges = [("3b", b), ("y", Rational(y))]
    args = (str(p), str(q), str(iso)) if text else (p, q, iso)
    got = read(format_quantum_numbers((kind, *args, *(charges[::-1] if order else charges))))
    want = (kind, (p + 1) * (q + 1) * (p + q + 2) // 2, q > p, iso + 1, Fraction(y), Fraction(b))
    check(got == want, lambda: f"{case} is shown as {got}")


def label_spec():
    """fields of the catalogue and of its models, and fields of any other representation (with up to two derivatives)"""
    digit = st.sampled_from([0, 0, 0, 0, 1, 1, 2, 3])
    free = st.tuples(
        st.just("any"), st.tuples(st.sampled_from([0, 0, 1, 2]), st.sampled_from([0, 0, 1, 2]), digit, digit, st.integers(0, 5)).map(lambda d: "".join(map(str, d))),
        st.sampled_from(["0", "0", "1", "-1/2", "2/3"]), st.integers(-3, 3), st.booleans(),
    ).map(list)
    return st.one_of(dbs.field_spec(), free)


def build(case, names):
    if case[0] != "any":
        return dbs.build_field(case, names)
    from neutrinomass.tensormethod.core import Field

    _, dynkin, y, b, conj = case
    f = Field("ξ", dynkin, charges={"y": dbs.Fraction_(y), "3b": b})
    f = f.conj if conj else f
    u, d, cu, cd, i = map(int, f.dynkin)
    return f(" ".join([names("u") for _ in range(u)] + [names("d") for _ in range(d)] + [names("c") for _ in range(cu)] + ["-" + names("c") for _ in range(cd)] + [names("i") for _ in range(i)]))


@sub("labels", strategy=label_spec, quick=300, thorough=8000, budget=(15, 100))
def labels(case, rec):
    """representation of fields as text and as numbers, in each of the forms a field offers them; non-trivial: several kinds of index"""
    n = iter(range(1000))
    f = build(case, lambda kind: f"{kind}{next(n)}")
    d = f.dynkin
    rec.nontrivial(sum(x != "0" for x in d) > 1)
    kinds = Counter(ref.kind(str(i).lower()) for i in f.indices)
    up = Counter((ref.kind(str(i).lower()), not str(i).startswith("-")) for i in f.indices)
    want = [kinds["u"], kinds["d"], up["c", True], up["c", False], kinds["i"]]
    check([int(x) for x in d] == want, lambda: f"{f} has representation {d}, its indices {want}")
    y = frac(f.charges["y"])
    check(frac(f.y) == y, lambda: f"hypercharge of {f}: {f.y}, charges {f.charges}")
    check([int(x) for x in f.dynkin_ints] == want, lambda: f"{f}: {f.dynkin_ints}")
    check(tuple(map(int, f.lorentz_irrep)) == tuple(want[:2]) and tuple(map(int, f.sm_irrep)) == tuple(want[2:]), lambda: f"{f}: Lorentz {f.lorentz_irrep}, gauge {f.sm_irrep}")
    check(tuple(map(int, f.colour_irrep)) == tuple(want[2:4]) and tuple(map(int, f.isospin_irrep)) == (want[4],), lambda: f"{f}: colour {f.colour_irrep}, isospin {f.isospin_irrep}")
    q = f.quantum_numbers
    check(tuple(map(int, q[:-1])) == tuple(want[2:]) and frac(q[-1]) == y, lambda: f"{f}: quantum numbers {q}")
    check(bool(f.is_singlet) == (not any(want) and y == 0), lambda: f"{f}: singlet {f.is_singlet}")
    check(bool(f.is_sm_singlet) == (not any(want[2:]) and y == 0), lambda: f"{f}: gauge singlet {f.is_sm_singlet}")
    spin = tuple(want[:2])
    for k, v in {"is_scalar": (0, 0), "is_left_fermion": (1, 0), "is_right_fermion": (0, 1), "is_vector": (1, 1)}.items():
        check(bool(getattr(f, k)) == (spin == v), lambda: f"{f}: {k} is {getattr(f, k)}")
    odd = sum(spin) % 2 == 1
    check(bool(f.is_fermion) == odd and bool(f.is_boson) == (not odd), lambda: f"{f}: fermion {f.is_fermion}, boson {f.is_boson}")
    check(bool(f.is_real_sm_irrep) == (y == 0 and want[2] == want[3] and want[4] % 2 == 0), lambda: f"{f}: real {f.is_real_sm_irrep}")
    kind = "S" if spin == (0, 0) else ("F" if odd else "X")
    m = re.fullmatch(r"([SFX])(\d)(\d)(\d)\((-?\d+(?:/\d+)?)\)\((-?\d+(?:/\d+)?)\)", f.qn_string)
    check(m and m[1] == kind and [int(m[2]), int(m[3]), int(m[4])] == want[2:], lambda: f"{f}: {f.qn_string}")
    check(Fraction(m[5]) == y and Fraction(m[6]) == frac(f.charges["3b"]), lambda: f"{f}: {f.qn_string}, charges {f.charges}")
