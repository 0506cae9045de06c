"""C36 the stored tables of models reflect the raw models they are built from"""
import contextlib
import io
import math
import os
import pickle
import runpy
import shutil
import sys
import tempfile
from collections import Counter
from functools import lru_cache

import hypothesis.strategies as st

from .. import boot, comps, dbs
from ..core import Discard, check, must, sub
from . import c22, c23, c26, c32

COLUMNS = ["democratic_num", "stringent_num", "op", "dim", "scale", "symbolic_scale", "topology", "n_fields", "n_scalars", "n_fermions", "min_loops", "max_loops", "n_derivs", "completion"]


# ------------------------------------------------------------------ reference


@lru_cache(maxsize=None)
def loops_by_field():
    """one-loop models of the Weinberg operator as sets of field classes without baryon number, by one of their fields"""
    out = {}
    for m in c32.listed():
        s = frozenset(c32.read(m))
        for f in s:
            out.setdefault(f, set()).add(s)
    return out


def conj_numbers(f):
    kind, colour, iso, y = f
    return kind, colour[::-1], iso, -y


def as_numbers(label):
    kind, colour, iso, y, b = label.split(",")
    return c32.read([f"{kind},{colour},{iso},{y}"])[0], b


def makes_loop(fields):
    """do these fields contain a one-loop model?  The charge that runs around the loop is the same for all of its particles"""
    by_charge = {}
    for f in fields:
        for g in (f, dbs.conj_label(f)):
            n, b = as_numbers(g)
            by_charge.setdefault(b, set()).add(n)
    for numbers in by_charge.values():
        for n in numbers:
            if any(s <= numbers for s in loops_by_field().get(n, ())):
                return True
    return False


LIMIT = c23.scale({"v": 2, "Λ": -1, "loop": 1})


@lru_cache(maxsize=1)
def pool():
    """operators whose scale is not right at the one of the loops"""
    return [k for k in c26.operators() if not math.isclose(c26.scale(k), LIMIT, rel_tol=1e-3)]


# ------------------------------------------------------------------ cases


def loop_spec():
    """the fields of a listed one-loop model with a baryon number (or with two), perhaps conjugated"""
    return st.tuples(st.integers(0, 10**6), st.integers(-2, 2), st.booleans(), st.integers(0, 15), st.lists(dbs.small_label(), max_size=1)).map(list)


def case_strategy():
    model = dbs.model_spec(max_fields=4, max_terms=3).filter(lambda m: m[0] and m[1])
    rest = st.lists(st.tuples(st.integers(0, 6), model).map(list), max_size=7)
    loops = st.lists(st.tuples(st.integers(0, 6), loop_spec()).map(list), max_size=4)
    grow = st.lists(st.tuples(st.integers(0, 30), st.integers(0, 6), st.booleans(), st.lists(dbs.small_label(), max_size=2)).map(list), max_size=4)
    return st.tuples(st.lists(st.integers(0, 100), min_size=1, max_size=5), rest, loops, grow, st.lists(st.integers(0, 2), min_size=5, max_size=5)).map(list)


def loop_model(spec):
    n, b, broken, flip, more = spec
    listed = c32.listed()
    # (small representations and charges are as likely as the rest)
    text = listed[n % len(listed)]
    fields = [f"{f},{b}" for f in text]
    if broken:
        # another charge on one of the particles: no loop
        fields[0] = f"{text[0]},{b + 3}"
    fields = [dbs.conj_label(f) if flip >> k & 1 else f for k, f in enumerate(fields)]
    fields = dbs.distinct_by(dbs.field_class, fields + more)
    return [fields, [["L", "H", fields[0]]]]


def raw_models(case):
    ops, rest, loops, grow, _ = case
    keys = dbs.distinct_by(lambda k: k, [pool()[k % len(pool())] for k in ops])
    models = [(keys[k % len(keys)], m) for k, m in rest] + [(keys[k % len(keys)], loop_model(s)) for k, s in loops]
    if not models:
        raise Discard()
    for n, k, flip, more in grow:
        fields, terms = models[n % len(models)][1]
        fields = dbs.distinct_by(dbs.field_class, fields + more)
        terms = dbs.distinct_by(dbs.term_class, terms + [["L", "H", f] for f in more])
        if flip:
            fields, terms = [dbs.conj_label(f) for f in fields[::-1]], [list(dbs.conj_term(t)) for t in terms[::-1]]
        models.append((keys[k % len(keys)], [fields, terms]))
    return keys, models


@contextlib.contextmanager
def catalogue_of(keys):
    """only these operators in the catalogue (estimating all of them takes minutes), and remembered lists of loops"""
    import neutrinomass.completions as package
    from neutrinomass.completions import operators
    from neutrinomass.database import heavyloops

    c26.memoise()
    some = {"EFF_OPERATORS": {}, "DERIV_EFF_OPERATORS": {}}
    for k in keys:
        some["DERIV_EFF_OPERATORS" if k.startswith("D:") else "EFF_OPERATORS"][c26.name(k)] = comps.catalogue()[k]
    # by value, so that a script that has its own names for them sees the change
    saved = [(getattr(operators, n), dict(getattr(operators, n))) for n in some]
    generate = heavyloops.generate_models
    heavyloops.generate_models = lambda: list(c32.listed())
    for n, (d, _) in zip(some, saved):
        d.clear()
        d.update(some[n])
    assert package.EFF_OPERATORS is operators.EFF_OPERATORS
    try:
        yield
    finally:
        heavyloops.generate_models = generate
        for d, old in saved:
            d.clear()
            d.update(old)


def run_script(raw, out):
    path = os.path.join(boot.REPO, "neutrinomass", "database", "pickler")
    argv = sys.argv
    sys.argv = [path, "--path", raw, "--output", out]
    try:
        with contextlib.redirect_stdout(io.StringIO()), must("building the tables"):
            runpy.run_path(path, run_name="__main__")
    finally:
        sys.argv = argv
    tables = {}
    for name in ("unfiltered", "exotics", "terms", "democratic"):
        file = os.path.join(out, name + ".p")
        check(os.path.exists(file), lambda: f"{name}.p is not written")
        with open(file, "rb") as f:
            tables[name] = pickle.load(f)
    return tables


# ------------------------------------------------------------------ checks


def rows_of(table, what):
    check(not table or set(table) == set(COLUMNS), lambda: f"{what} table has the columns {sorted(table)}")
    n = {len(v) for v in table.values()}
    check(len(n) < 2, lambda: f"{what} table has columns of lengths {n}")
    return [dict(zip(table, r)) for r in zip(*table.values())]


def check_row(row, m, key, exotics, terms):
    fields, interactions = m
    what = lambda: f"row of {m}: {row}"
    product = lambda ps: math.prod(int(p) for p in ps)
    check(int(row["democratic_num"]) == product(exotics[f] for f in fields), what)
    check(int(row["stringent_num"]) == product(terms[tuple(sorted(t))] for t in interactions), what)
    check(row["op"] == c26.name(key) and row["dim"] == c26.dimension(key), what)
    check(math.isclose(float(row["scale"]), c26.scale(key), rel_tol=1e-6), lambda: f"{what()}: scale should be {c26.scale(key)}")
    p = c22.powers(row["symbolic_scale"])
    check(math.isclose(c23.scale(p), c26.scale(key), rel_tol=1e-6), lambda: f"{what()}: the estimate {row['symbolic_scale']} is not the leading one")
    loops = c22.loops_of(p)
    check((row["min_loops"], row["max_loops"]) == (min(loops), max(loops)), lambda: f"{what()}: loops {loops}")
    kinds = Counter(f[0] for f in fields)
    check((row["n_fields"], row["n_scalars"], row["n_fermions"]) == (len(fields), kinds["S"], kinds["F"]), what)
    check(row["n_derivs"] == sum(f.derivs for f in comps.catalogue()[key].operator.fields), what)


@sub("tables", strategy=case_strategy, quick=120, thorough=6000, budget=(60, 850), hang=120)
def tables(case, rec):
    """files of generated raw models, some containing the fields of a one-loop model, turned into the stored tables: every model in the
    unfiltered one with its numbers, those left by the filters in the other one; non-trivial: a model was filtered out"""
    boot.load_database()
    keys, models = raw_models(case)
    by_name = {c26.name(k): k for k in keys}
    scratch = tempfile.mkdtemp(prefix="c36_")
    try:
        raw, out = os.path.join(scratch, "raw"), os.path.join(scratch, "out")
        os.mkdir(raw), os.mkdir(out)
        lines = []
        for n, (key, (fields, terms)) in enumerate(models):
            # (a model may have a field in several of its propagators)
            head = {"quantum_numbers": fields + fields[: case[4][n % 5] % 2], "operator_name": c26.name(key), "terms": [tuple(t) for t in terms], "topology": f"top_{n}"}
            lines.append((case[4][keys.index(key)], f"LazyCompletion(head={head!r}, tail={str(('model', n))!r})\n"))
        for where, text in lines:
            with open(os.path.join(raw, f"part{where}.dat"), "a") as f:
                f.write(text)
        with catalogue_of(keys):
            t = run_script(raw, out)
    finally:
        shutil.rmtree(scratch)

    exotics, terms = t["exotics"], t["terms"]
    labels = {g for _, (fields, _) in models for f in fields for g in (f, dbs.conj_label(f))}
    check(set(exotics) == labels, lambda: f"numbered fields {set(exotics) ^ labels} differ")
    check(all((exotics[f] == exotics[g]) == (dbs.field_class(f) == dbs.field_class(g)) for f in labels for g in labels), lambda: f"numbers of fields {exotics}")

    both = {g for _, (_, ts) in models for x in ts for g in (tuple(sorted(x)), dbs.conj_term(tuple(sorted(x))))}
    check(both <= set(terms), lambda: f"terms {both - set(terms)} have no number")
    check(all((terms[x] == terms[z]) == (dbs.term_class(x) == dbs.term_class(z)) for x in both for z in both), lambda: f"numbers of terms {terms}")

    rows = rows_of(t["unfiltered"], "unfiltered")
    which = lambda r: eval(r["completion"])[1]
    check(Counter(map(which, rows)) == Counter(range(len(models))), lambda: f"{len(models)} models are stored as the rows {sorted(map(which, rows))}")
    for r in rows:
        key, m = models[which(r)]
        check_row(r, m, key, exotics, terms)
        check(r["topology"] == f"top_{which(r)}", lambda: f"model {which(r)} is on {r['topology']}")

    # what the filters leave
    field_set = lambda n: frozenset(map(dbs.field_class, models[n][1][0]))
    order = [which(r) for r in rows]
    kept = dbs.distinct_by(lambda n: (models[n][0], field_set(n)), order)
    above = lambda a, b: c26.strictly_above(models[a][0], models[b][0], "mass")
    kept = [n for n in kept if not any(above(k, n) and field_set(k) <= field_set(n) for k in kept)]
    beaten = [n for n in kept if c26.scale(models[n][0]) < LIMIT and makes_loop(models[n][1][0])]
    rec.nontrivial(len(kept) < len(models) or bool(beaten))
    if beaten:
        rec.label("loops")
    kept = [n for n in kept if n not in beaten]
    got = rows_of(t["democratic"], "filtered")
    show = lambda n: (c26.name(models[n][0]), models[n][1][0])
    check(
        Counter((models[which(r)][0], field_set(which(r))) for r in got) == Counter((models[n][0], field_set(n)) for n in kept),
        lambda: f"filtered table: {[show(which(r)) for r in got]}, should be {[show(n) for n in kept]}; left out for one-loop models: {[show(n) for n in beaten]}",
    )
    for r in got:
        check_row(r, models[which(r)][1], models[which(r)][0], exotics, terms)
        check(r["topology"] == f"top_{which(r)}", lambda: f"model {which(r)} is on {r['topology']} in the filtered table")
    scales = [float(r["scale"]) for r in got]
    check(all(a >= b * (1 - 1e-6) for a, b in zip(scales, scales[1:])), lambda: f"rows are not ordered by scale: {scales}")

    # as a user gets them
    from neutrinomass.database.database import ModelDataFrame

    for name, rs in (("unfiltered", rows), ("democratic", got)):
        if not rs:
            continue
        df = ModelDataFrame.new(data=t[name], exotics=exotics, terms=terms)
        check(len(df) == len(rs), lambda: f"{name} table has {len(df)} rows, {len(rs)} are stored")
        for i, r in enumerate(rs):
            check(tuple(df.completion(i)) == ("model", which(r)), lambda: f"completion {i} of the {name} table is {df.completion(i)}")
            own = {df.int2exotic[p] for p in {exotics[f] for f in models[which(r)][1][0]}}
            check({dbs.field_class(f) for f in own} == field_set(which(r)), lambda: f"fields of row {i} of the {name} table are {own}")
            check(all(int(df["democratic_num"][i]) % df.exotic2int[f] == 0 for f in models[which(r)][1][0]), lambda: f"row {i}")


def scale_cases(tier):
    some = [k for k in c26.operators()]
    return [[k] for k in some]


@sub("scales", cases=scale_cases, quick=40, thorough=40, budget=(30, 200), hang=200)
def scales(case, rec):
    """scale and leading estimate stored for each of some operators of the catalogue; non-trivial: several different estimates"""
    boot.load_database()
    from neutrinomass.database.database import ModelDatabase

    key = case[0]
    rec.nontrivial(len(c22.expected(comps.catalogue()[key].operator)) > 1)
    with catalogue_of([key]):
        db = ModelDatabase("", data={})
        with must(f"filling in the scales of {key}"):
            db.fill_scale_dict()
    check(set(db.scale_dict) == set(db.symbolic_scale_dict) == {c26.name(key)}, lambda: f"scales of {db.scale_dict}")
    got = db.symbolic_scale_dict[c26.name(key)]
    check(math.isclose(float(db.scale_dict[c26.name(key)]), c26.scale(key), rel_tol=1e-6), lambda: f"scale of {key} is {db.scale_dict}, should be {c26.scale(key)}")
    check(math.isclose(c23.scale(c22.powers(got)), c26.scale(key), rel_tol=1e-6), lambda: f"leading estimate of {key} is {got}")
