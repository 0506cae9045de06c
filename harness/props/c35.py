"""C35 the printed table of operators describes the operators of the catalogue"""
import builtins
import contextlib
import io
import os
import pickle
import random
import re
from collections import Counter, defaultdict
from functools import lru_cache
from itertools import permutations, product

import hypothesis.strategies as st

from .. import boot, comps
from ..core import check, must, sub

BARRED = {r"\bar{e}": "eb", r"\bar{u}": "ub", r"\bar{d}": "db"}
TOKEN = re.compile(
    r"\\cdot"
    r"|\\epsilon_\{\s*(?P<e1>\w)\s*(?P<e2>\w)\s*\}"
    r"|\\mathcal\{O\}_(?:\{(?P<r1>\w+)\}|(?P<r2>\w))"
    r"|(?P<d>\(D(?:\^\{?(?P<n>\d)\}?)?\s*)?(?P<b>\{)?(?P<f>\\tilde\{[LQH]\}|\\bar\{[eud]\}|[LQH])(?P<dag>(?:\^\{?\\dagger\}?)?)(?(b)\})(?(d)\))(?P<i>(?:\^\{\w\}|\^\w)?)"
)


def parse(tex):
    """(fields (name, conjugated, derivatives, isospin index), contracted pairs, operators referred to) of a LaTeX row"""
    check(tex.startswith("$") and tex.endswith("$"), lambda: f"{tex} is not in maths mode")
    tex, pos, fields, pairs, refs = tex[1:-1], 0, [], [], []
    while pos < len(tex):
        if tex[pos].isspace():
            pos += 1
            continue
        m = TOKEN.match(tex, pos)
        check(m, lambda: f"{tex}: {tex[pos:]} is not understood")
        pos = m.end()
        if m["e1"]:
            pairs.append((m["e1"], m["e2"]))
        elif m["r1"] or m["r2"]:
            refs.append(m["r1"] or m["r2"])
        elif m["f"]:
            tilde = m["f"].startswith(r"\tilde")
            name = m["f"][len(r"\tilde{") : -1] if tilde else BARRED.get(m["f"], m["f"])
            fields.append((name, tilde or bool(m["dag"]), int(m["n"] or 1) if m["d"] else 0, m["i"].strip("^{}") or None))
    return fields, pairs, refs


def described(op):
    """the same for an operator"""
    fields, pairs = [], []
    for t in op.tensors:
        names = [str(i).lstrip("-") for i in t.indices if str(i).lstrip("-").lower().startswith("i")]
        if comps.is_field(t):
            fields.append((*comps.sm_key(t), t.derivs, names[0] if names else None))
        elif names:
            pairs.append(tuple(names))
    return fields, pairs


def contraction(fields, pairs):
    """which fields are contracted, up to permutations of equal fields"""
    doublets = [f for f in fields if f[3]]
    at = {f[3]: n for n, f in enumerate(doublets)}
    check(len(at) == len(doublets), lambda: f"repeated index in {fields}")
    check(Counter(i for p in pairs for i in p) == Counter(list(at)), lambda: f"indices of {fields} contracted by {pairs}")
    groups = defaultdict(list)
    for n, f in enumerate(doublets):
        groups[f[:3]].append(n)
    forms = []
    for ps in product(*[permutations(g) for g in groups.values()]):
        name = {n: (k, j) for k, p in zip(groups, ps) for j, n in enumerate(p)}
        forms.append(sorted(tuple(sorted((name[at[a]], name[at[b]]))) for a, b in pairs))
    return min(forms)


def catalogue():
    return {k.removeprefix("D:"): v for k, v in comps.catalogue().items()}


def plain(label):
    """label of a row without LaTeX primes"""
    m = re.fullmatch(r"\$(\w+?)(?:\^\{((?:\\prime)+)\})?\$", label)
    check(m, lambda: f"label {label}")
    return m[1] + "p" * (m[2] or "").count("prime")


def table(models, filtered, data):
    """rows printed for numbers of models, operators of the filtered models, and data(operator) in place of table_data"""
    boot.load_database()
    import pandas as pd

    import neutrinomass.database as package

    package.MVDF = pd.DataFrame({"op": filtered})
    real = builtins.open
    stored = pickle.dumps(models)

    def fake(file, *a, **k):
        if isinstance(file, (str, os.PathLike)) and os.path.basename(os.fspath(file)) == "models.p":
            return io.BytesIO(stored)
        return real(file, *a, **k)

    from neutrinomass.database import operators, utils

    # the estimates of all operators take minutes: they are replaced wherever the table may look for them
    places = [(o, n, getattr(o, n)) for o, n in ((operators, "table_data"), (utils, "table_data"), (operators, "MVDF")) if hasattr(o, n)]
    out = io.StringIO()
    for o, n, _ in places:
        setattr(o, n, package.MVDF if n == "MVDF" else data)
    builtins.open = fake
    try:
        with contextlib.redirect_stdout(out), must("printing the table"):
            operators.print_paper_table()
    finally:
        builtins.open = real
        for o, n, v in places:
            setattr(o, n, v)
    rows = []
    for line in out.getvalue().splitlines():
        check(line.endswith(r" \\"), lambda: f"row {line}")
        cells = line[: -len(r" \\")].split(" & ")
        check(len(cells) == 6, lambda: f"row {line} has {len(cells)} columns")
        rows.append((plain(cells[0]), *cells[1:]))
    return rows


@lru_cache(maxsize=None)
def latex_of():
    rows = table({}, [], lambda op: ("", ""))
    return {r[0]: r[1] for r in rows}


@sub("rows", cases=lambda tier: sorted(set(catalogue()) | {"1ppp", "D1", "D11", "D19a", "D19b", "D19c"}), quick=300, thorough=300, budget=(60, 120), single=True)
def rows(case, rec):
    """every operator of the catalogue: its row in the table against its fields, derivatives and isospin contractions; non-trivial: refers to another operator or has derivatives"""
    texts = latex_of()
    check(case in texts, lambda: f"operator {case} has no row")
    fields, pairs, refs = parse(texts[case])
    rec.nontrivial(bool(refs) or any(f[2] for f in fields))
    if case not in catalogue():
        return
    # names of the part written out and of the operators referred to must not mix
    fields = [(*f[:3], f[3] and "x" + f[3]) for f in fields]
    pairs = [("x" + a, "x" + b) for a, b in pairs]
    for r in refs:
        check(r in catalogue(), lambda: f"the row of {case} refers to {r}")
        more = described(catalogue()[r].operator)
        fields += more[0]
        pairs += more[1]
    want = described(catalogue()[case].operator)
    content = lambda fs: Counter(f[:3] for f in fs)
    check(content(fields) == content(want[0]), lambda: f"the row of {case}, {texts[case]}, has the fields {fields}, the operator {want[0]}")
    check(contraction(fields, pairs) == contraction(*want), lambda: f"the row of {case}, {texts[case]}, is contracted otherwise than {catalogue()[case].operator}")


def tally_case():
    names = st.sampled_from(["1", "2", "3a", "3b", "8", "1p", "1ppp", "8pp", "76p", "82", "D1", "D2a", "D11", "D18c", "D19b", "D22", "77", "10"])
    return st.tuples(st.dictionaries(names, st.integers(0, 10**6), max_size=8), st.lists(names, max_size=30), st.integers(0, 10**6)).map(list)


@sub("tallies", strategy=tally_case, quick=60, thorough=3000, budget=(30, 300))
def tallies(case, rec):
    """generated numbers of models and filtered models: every row shows those of its own operator, with its loops and scale; non-trivial: an operator with both"""
    models, filtered, seed = case
    rec.nontrivial(bool(set(models) & set(filtered)))
    random.Random(seed).shuffle(filtered)
    seen = []

    def data(op):
        seen.append(op.name)
        return f"loops {op.name}", f"scale {op.name}"

    printed = table(models, filtered, data)
    check(Counter(r[0] for r in printed).most_common(1)[0][1] == 1, "an operator has two rows")
    check(set(catalogue()) <= {r[0] for r in printed}, lambda: f"operators without a row: {set(catalogue()) - {r[0] for r in printed}}")
    for label, _, n, m, loops, scale in printed:
        if label in catalogue():
            name = catalogue()[label].name
            check((loops, scale) == (f"loops {name}", f"scale {name}"), lambda: f"row of {label}: {loops}, {scale}")
        else:
            check(not loops and not scale, lambda: f"row of {label}, which has no estimates: {loops}, {scale}")
        if label in models:
            check(n == str(models[label]), lambda: f"row of {label}: {n} models, stored {models[label]}")
            check(m == str(filtered.count(label)), lambda: f"row of {label}: {m} filtered models, stored {filtered.count(label)}")
        else:
            check(not n and not m, lambda: f"row of {label}, for which no models are stored: {n}, {m}")


@sub("primes", strategy=lambda: st.tuples(st.from_regex(r"D?[0-9]{1,2}[a-o]?", fullmatch=True), st.integers(0, 3)).map(list), quick=100, thorough=1000, budget=(10, 30))
def primes(case, rec):
    """generated labels with up to three primes; non-trivial: primed"""
    boot.load_database()
    latex_of()
    from neutrinomass.database.operators import format_primes

    label, n = case
    rec.nontrivial(n > 0)
    got = format_primes(label + "p" * n)
    want = label + ("^{" + r"\prime" * n + "}" if n else "")
    check(got == want, lambda: f"{label + 'p' * n} is shown as {got}")
