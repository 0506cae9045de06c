"""C27 queries of stored models"""
import os
import re
import shutil
import tempfile
from collections import Counter

import hypothesis.strategies as st

from .. import boot, dbs
from ..core import Discard, check, sub
from . import c18, c24

# ------------------------------------------------------------------ one model


def pattern_case():
    """regular expressions as used in queries: labels, beginnings of labels and wildcards"""
    whole = st.one_of(dbs.small_label(), dbs.sm_label())
    begin = st.tuples(dbs.exotic_label(), st.integers(1, 12)).map(lambda t: t[0][: t[1]])
    wild = st.tuples(dbs.small_label(), st.sets(st.integers(0, 4), max_size=4)).map(
        lambda t: ",".join(".*" if n in t[1] else x for n, x in enumerate(t[0].split(",")))
    )
    other = st.sampled_from(["S", "F", "[SF],10", ".*", "S,..,0", ".,(10|01),.,-?1/3", "L$", "H", ".*conj", "(L|Q)", "S,00,2,1,0", "F,00,2,0,0$", ""])
    return st.one_of(whole, begin, wild, other)


def begins(pattern, label):
    """does the label begin with the pattern (is it, for a pattern that ends with $)?"""
    if pattern.endswith("$"):
        return re.fullmatch(pattern[:-1], label) is not None
    return any(re.fullmatch(pattern, label[:n]) for n in range(len(label) + 1))


@sub(
    "patterns",
    strategy=lambda: st.tuples(dbs.model_spec(max_fields=5), st.lists(pattern_case(), max_size=3)).map(list),
    quick=1500, thorough=80000, budget=(30, 600),
)
def patterns(case, rec):
    """random models and patterns: has a field or interaction matching them; non-trivial: a pattern matches some but not all fields"""
    boot.load_database()
    (fields, terms), pats = case
    m = dbs.lazy("1", fields, terms)
    hit = 0
    for p in pats + ["F,00,2,0,0", "F,00,0,0,0", "S,00,2,1,0"]:
        some = [begins(p, f) for f in fields]
        check(bool(m.contains_field(p)) == any(some), lambda: f"model with {fields} contains a field {p}: {m.contains_field(p)}")
        hit += 0 < sum(some) < len(some)
    want = any(all(any(begins(p, f) for f in t) for p in pats) for t in terms)
    check(bool(m.contains_interaction(pats)) == want, lambda: f"model with {terms} contains an interaction with {pats}: {m.contains_interaction(pats)}")
    hit += want and bool(pats)
    rec.nontrivial(hit > 0)
    # as listed, in any order
    check(all(m.contains_interaction(list(t)[::-1]) for t in terms), lambda: f"an interaction of {terms} is not found")
    check(m.quantum_numbers == set(fields) and m.operator_name == "1", lambda: f"{m.quantum_numbers}, {m.operator_name}")
    check(bool(m.head["terms"] == [tuple(t) for t in terms]), "a query changed the model")


# ------------------------------------------------------------------ databases


def data_case():
    return st.tuples(
        st.lists(st.tuples(st.sampled_from(["1", "2", "3a", "8", "D3", "D2a"]), dbs.model_spec()).map(list), min_size=1, max_size=10),
        st.sampled_from(["democratic", "stringent"]), pattern_case(), st.booleans(),
    ).map(list)


@sub("databases", strategy=data_case, quick=400, thorough=20000, budget=(30, 600))
def databases(case, rec):
    """random databases: query, removal of seesaw models and of unwanted models select exactly the matching models of every operator;
    non-trivial: some but not all match"""
    boot.load_database()
    from neutrinomass.database.database import ModelDatabase

    models, philosophy, pattern, flip = case
    data = {}
    for op, (fields, terms) in models:
        data.setdefault(op, []).append(dbs.lazy(op, fields, terms))
    same = lambda a, b: list(a) == list(b) and all([id(x) for x in a[k]] == [id(x) for x in b[k]] for k in b)
    db = ModelDatabase("", philosophy=philosophy, data={k: list(v) for k, v in data.items()})
    has = lambda m: any(begins(pattern, f) for f in m.head["quantum_numbers"])
    want = {k: [m for m in v if has(m) != flip] for k, v in data.items()}
    got = db.query(lambda m: bool(m.contains_field(pattern)) != flip)
    total, kept = sum(map(len, data.values())), sum(map(len, want.values()))
    rec.nontrivial(0 < kept < total)
    show = lambda d: {k: [m.head["quantum_numbers"] for m in v] for k, v in d.items()}
    check(same(got, want), lambda: f"models of {show(data)} {'without' if flip else 'with'} {pattern}: {show(got)}")
    check(same(db.data, data), lambda: f"a query changed the database {show(data)} to {show(db.data)}")
    db.filter_by_query(lambda m: bool(m.contains_field(pattern)) != flip)
    check(same(db.data, want), lambda: f"keeping the models of {show(data)} {'without' if flip else 'with'} {pattern} leaves {show(db.data)}")
    seesaw = lambda m: any(f in ("F,00,2,0,0", "F,00,0,0,0", "S,00,2,1,0") for f in m.head["quantum_numbers"])
    for v in data.values():
        for m in v:
            check(bool(ModelDatabase.no_seesaws(m)) == (not seesaw(m)), lambda: f"{m.head['quantum_numbers']} has no seesaw field: {ModelDatabase.no_seesaws(m)}")
    db.filter_by_query(ModelDatabase.no_seesaws)
    left = {k: [m for m in v if not seesaw(m)] for k, v in want.items()}
    check(same(db.data, left), lambda: f"removing seesaws from {show(want)} leaves {show(db.data)}")


# ------------------------------------------------------------------ tables of models


def table_case():
    return st.tuples(
        st.lists(st.lists(dbs.small_label(), min_size=1, max_size=5).map(lambda xs: dbs.distinct_by(dbs.field_class, xs)), min_size=1, max_size=14),
        st.integers(1, 50), st.integers(0, 3),
    ).map(list)


@sub("related", strategy=table_case, quick=400, thorough=20000, budget=(30, 600))
def related(case, rec):
    """random tables of overlapping models: the models related to each are the other ones whose fields (at least two) it contains;
    non-trivial: there are some"""
    boot.load_database()
    from neutrinomass.database.database import ModelDatabase, ModelDataFrame

    models, start, gap = case
    lazies = [dbs.lazy("2", f, []) for f in models]
    db = ModelDatabase("", data={"2": lazies})
    numbers = [int(db.democratic_model_number(m)) for m in lazies]
    index = [start + n * (gap + 1) for n in range(len(models))]
    import pandas as pd

    frame = pd.DataFrame(
        {"completion": [f"LazyCompletion(head={m.head!r}, tail='None')" for m in lazies], "democratic_num": numbers}, index=index
    )
    df = ModelDataFrame.new(data=frame, exotics=db.exotic_prime_dict, terms=db.term_prime_dict)
    sets = [frozenset(map(dbs.field_class, f)) for f in models]
    total = 0

    def look(table, rows):
        n = 0
        for r in rows:
            want = Counter(index[s] for s in rows if s != r and len(sets[s]) > 1 and sets[s] <= sets[r])
            try:
                got = table.related_models(index[r])
            except Exception as e:
                check(False, lambda: f"models related to {models[r]} raises {type(e).__name__}: {e}")
            check(Counter(got.index) == want, lambda: f"models related to {models[r]} among {[models[s] for s in rows]}: {[models[index.index(i)] for i in got.index]}")
            for i in got.index:
                check(got["democratic_num"][i] == numbers[index.index(i)], lambda: f"row {i} has number {got['democratic_num'][i]}")
            n += len(want)
        return n

    total = look(df, range(len(models)))
    rec.nontrivial(total > 0)
    # a part of the table, as a user selects it
    part = [n for n in range(len(models)) if numbers[n] % 2 == 0]
    if part:
        look(df[df["democratic_num"] % 2 == 0], part)
    for n, i in enumerate(index):
        check(df.completion(i).quantum_numbers == set(models[n]), lambda: f"completion {i} has {df.completion(i).quantum_numbers}, should have {models[n]}")
    for f in {x for m in models for x in m}:
        check(dbs.field_class(df.int2exotic[df.exotic2int[f]]) == dbs.field_class(f), lambda: f"{f} is number {df.exotic2int[f]}, which is {df.int2exotic[df.exotic2int[f]]}")
        check(df.exotics[f] == df.exotic2int[f] and df.exotics[df.exotics[f]] == df.int2exotic[df.exotic2int[f]], lambda: f"lookup of {f}")


@sub("subsets", strategy=lambda: st.lists(st.integers(0, 9), max_size=7), quick=100, thorough=3000, budget=(10, 60))
def all_subsets(case, rec):
    """every selection of the elements of a list once, in order; non-trivial: three or more"""
    boot.load_database()
    from neutrinomass.database.utils import subsets

    want = Counter(tuple(x for k, x in enumerate(case) if n >> k & 1) for n in range(2 ** len(case)))
    got = [tuple(s) for s in subsets(case)]
    rec.nontrivial(len(case) > 2)
    check(Counter(got) == want, lambda: f"subsets of {case}: {got}")


# ------------------------------------------------------------------ stored completions


@sub(
    "stored",
    strategy=lambda: st.tuples(
        st.lists(st.tuples(st.sampled_from(["1", "2", "3a", "3b", "8", "D:D2a", "D:D3"]), st.integers(0, 300)).map(list), min_size=1, max_size=9),
        st.lists(st.integers(0, 2), min_size=9, max_size=9),
    ).map(list),
    quick=40, thorough=3000, budget=(45, 800), hang=120,
)
def stored(case, rec):
    """found completions written to several files and read back: every line once, under its own operator; upgrading the database gives the
    completions themselves; non-trivial: several operators"""
    boot.load_database()
    from neutrinomass.database.database import ModelDatabase, read_completions
    from neutrinomass.database.export import export_completion

    picks, where = case
    xs = []
    for name, k in picks:
        pool = c18.pool(name)
        if pool:
            xs.append(pool[k % len(pool)])
    if not xs:
        raise Discard()
    rec.nontrivial(len({x.operator.name for x in xs}) > 1)
    scratch = tempfile.mkdtemp(prefix="c27_")
    try:
        files = {}
        for n, (x, w) in enumerate(zip(xs, where)):
            files.setdefault(os.path.join(scratch, f"part{w}.dat"), []).append(n)
        for path, ns in files.items():
            with open(path, "w") as f:
                f.writelines(export_completion(xs[n]) + "\n" for n in ns)
        # something else in the directory
        with open(os.path.join(scratch, "notes.txt"), "w") as f:
            f.write("not a model\n")
        for path, ns in files.items():
            got = read_completions(path)
            check(Counter({k: len(v) for k, v in got.items()}) == Counter(xs[n].operator.name for n in ns), lambda: f"models read from a file: { {k: len(v) for k, v in got.items()} }")
            for op, lazies in got.items():
                mine = [xs[n] for n in ns if xs[n].operator.name == op]
                for x, l in zip(mine, lazies):
                    c24.check_head(l, x)
        db = ModelDatabase(scratch)
        counts = Counter({k: len(v) for k, v in db.data.items()})
        check(counts == Counter(x.operator.name for x in xs), lambda: f"models loaded: {dict(counts)}, written: {dict(Counter(x.operator.name for x in xs))}")
        lazies = {k: list(v) for k, v in db.data.items()}
        db.force()
        check(list(db.data) == list(lazies), lambda: f"upgrading the operators {list(lazies)} leaves {list(db.data)}")
        for op, ls in lazies.items():
            check(len(db.data[op]) == len(ls), lambda: f"{len(ls)} models of {op} become {len(db.data[op])}")
            for l, x in zip(ls, db.data[op]):
                c24.check_head(l, x)
            mine = [x for x in xs if x.operator.name == op]
            for y in db.data[op]:
                found = [n for n, x in enumerate(mine) if c24.parts(x) == c24.parts(y)]
                check(found, lambda: f"a model of {op} is not one of those stored: {c24.parts(y)}")
                mine.pop(found[0])
        held = {k: list(v) for k, v in db.data.items()}
        db.force()
        check({k: list(map(id, v)) for k, v in held.items()} == {k: list(map(id, v)) for k, v in db.data.items()}, "upgrading twice changes the database")
    finally:
        shutil.rmtree(scratch)
