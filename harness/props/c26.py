"""C26 filtering the model database"""
import math
import os
import shutil
import tempfile
from functools import lru_cache

import hypothesis.strategies as st

from .. import boot, comps, dbs
from ..core import Discard, check, sub
from . import c22, c23

ONE_LOOP = 1 / (16 * math.pi**2)


# ------------------------------------------------------------------ reference


@lru_cache(maxsize=None)
def leading(key):
    """(neutrino-mass scale in TeV, leading estimate) of a catalogue operator; None if too slow to solve"""
    est = c22.expected(comps.catalogue()[key].operator)
    if not est or max(dict(p).get("loopv2", 0) for p in est) > 1 or len(est) > 8:
        return None
    return max((c23.scale(dict(p)), p) for p in est)


def scale(key):
    return leading(key)[0]


@lru_cache(maxsize=None)
def dimension(key):
    op = comps.catalogue()[key].operator
    twice = 0
    for f in op.fields:
        name, _ = comps.sm_key(f)
        twice += (2 if name == "H" else 3) + 2 * f.derivs
    return twice // 2


# cheap operators of different scales and dimensions, several with equal ones
SOME = ["1", "1p", "1pp", "2", "3a", "3b", "4a", "4b", "5a", "5b", "5c", "6a", "7", "8", "9", "10", "11a", "11b", "13", "14a", "14b", "15", "16", "D:D2a", "D:D2b", "D:D2c", "D:D3", "D:D4a", "D:D5a", "D:D8a", "D:D10a", "61a", "71", "76", "77"]


@lru_cache(maxsize=None)
def operators():
    """scales are exactly equal (by the same estimate) or clearly different"""
    out = []
    for k in SOME:
        if k in comps.catalogue() and leading(k) is not None:
            if all(leading(j) == leading(k) or not math.isclose(scale(j), scale(k), rel_tol=1e-9) for j in out):
                out.append(k)
    return out


def name(key):
    return key.split(":")[-1]


def strictly_above(a, b, criterion):
    """does operator a beat operator b?"""
    if criterion == "dimension":
        return dimension(a) < dimension(b)
    return scale(a) > scale(b) and leading(a) != leading(b)


@lru_cache(maxsize=1)
def memoise():
    """solving for the scales (decided by C23) is slow: once per expression"""
    import sys

    pkg = sys.modules["neutrinomass.database"]
    pkg.numerical_np_scale_estimate = lru_cache(maxsize=None)(pkg.numerical_np_scale_estimate)
    real = pkg.neutrino_mass_estimate
    cache = {}

    def estimate(op):
        if id(op) not in cache:
            cache[id(op)] = (op, real(op))
        return cache[id(op)][1]

    pkg.neutrino_mass_estimate = estimate


class Model:
    """reference of a stored model"""

    def __init__(self, op, spec, philosophy):
        self.op, (self.fields, self.terms) = op, spec
        self.field_set = frozenset(map(dbs.field_class, self.fields))
        term_set = frozenset(map(dbs.term_class, self.terms))
        self.key = self.field_set if philosophy == "democratic" else term_set
        self.frozen = (sorted(self.fields), sorted(tuple(sorted(t)) for t in self.terms))

    def seesaw(self):
        return any(f in ("F,00,2,0,0", "F,00,0,0,0", "S,00,2,1,0") for f in self.fields)


def database_case(steps=True):
    model = dbs.model_spec(max_fields=4, max_terms=3).filter(lambda m: m[0] and m[1])
    # models contained in others
    rest = st.lists(st.tuples(st.integers(0, 6), model).map(list), min_size=1, max_size=10)
    grow = st.lists(st.tuples(st.integers(0, 30), st.integers(0, 6), st.booleans(), st.lists(dbs.small_label(), max_size=2)).map(list), max_size=5)
    step = st.one_of(
        st.sampled_from([["unique"], ["order"], ["filter"], ["filter"], ["process", False], ["process", True], ["seesaws"]]),
        st.tuples(st.sampled_from(["query", "keep"]), st.sampled_from(dbs.EXOTICS[:9]), st.booleans()).map(list),
        st.tuples(st.just("one"), st.integers(0, 30), st.booleans()).map(list),
        st.tuples(st.just("loops"), st.lists(st.integers(0, 30), max_size=2)).map(list),
    )
    return st.tuples(
        st.lists(st.integers(0, 100), min_size=1, max_size=6), rest, grow, st.sampled_from(["democratic", "stringent"]),
        st.sampled_from(["mass", "dimension"]), st.booleans(), st.lists(step, max_size=6) if steps else st.just([]),
    ).map(list)


def specs_of(case):
    """[(operator key, model)] of a case"""
    ops, rest, grow = case[:3]
    pool = operators()
    keys = [pool[k % len(pool)] for k in ops]
    models = [(keys[k % len(keys)], m) for k, m in rest]
    # supersets, copies and conjugates of what is there
    for n, k, flip, more in grow:
        fields, terms = models[n % len(models)][1]
        fields = dbs.distinct_by(dbs.field_class, fields + more)
        terms = terms + [["L", "H", more[0]]] if more else list(terms)
        terms = dbs.distinct_by(dbs.term_class, terms)
        if flip:
            fields, terms = [dbs.conj_label(f) for f in fields[::-1]], [list(dbs.conj_term(t)) for t in terms[::-1]]
        models.append((keys[k % len(keys)], [fields, terms]))
    return keys, models


class Database:
    """the real database with a reference beside it"""

    def __init__(self, case, scratch):
        from neutrinomass.database.database import LazyCompletion, ModelDatabase

        memoise()
        keys, models = specs_of(case)
        self.philosophy, self.criterion, from_files = case[3:6]
        self.keys = {name(k): k for k in keys}
        self.ref = {}
        data = {}
        for op, spec in models:
            m = Model(op, spec, self.philosophy)
            m.lazy = dbs.lazy(name(op), *spec)
            data.setdefault(name(op), []).append(m.lazy)
            self.ref.setdefault(name(op), []).append(m)
        if from_files:
            # operators are spread over a few files
            ops = list(data)
            for n, op in enumerate(ops):
                with open(os.path.join(scratch, f"{n % 3}.dat"), "a") as f:
                    for x in data[op]:
                        f.write(f"LazyCompletion(head={x.head!r}, tail={x.tail!r})\n")
            self.db = ModelDatabase(scratch, philosophy=self.philosophy, criterion=self.criterion)
            check(set(self.db.data) == set(self.ref), lambda: f"operators loaded {sorted(self.db.data)}, written {sorted(self.ref)}")
            for op, ms in self.ref.items():
                check(len(self.db.data[op]) == len(ms), lambda: f"{len(self.db.data[op])} models of {op} loaded, {len(ms)} written")
                for m, x in zip(ms, self.db.data[op]):
                    m.lazy = x
        else:
            self.db = ModelDatabase("", philosophy=self.philosophy, criterion=self.criterion, data=data)
        self.ordered = False
        self.removed = 0
        self.ref = {k: self.ref[k] for k in self.db.data}
        self.agree("loading")

    # -- comparison

    def agree(self, what):
        got = self.db.data
        show = lambda: f"after {what}: {self.describe(got)}, should be {[(k, [sorted(m.key) for m in v]) for k, v in self.ref.items()]}"
        check(set(got) == set(self.ref), show)
        for k, v in self.ref.items():
            check(len(got[k]) == len(v) and all(x is m.lazy for x, m in zip(got[k], v)), show)
            for m in v:
                head = m.lazy.head
                now = (sorted(head["quantum_numbers"]), sorted(tuple(sorted(t)) for t in head["terms"]))
                check(now == m.frozen and head["operator_name"] == k, lambda: f"after {what} a model {m.frozen} of {k} became {head}")
        if self.ordered:
            ks = list(got)
            for a, b in zip(ks, ks[1:]):
                check(not strictly_above(self.keys[b], self.keys[a], self.criterion), lambda: f"after {what} the operators are ordered {ks}")

    def describe(self, data):
        return [(k, [(x.head["quantum_numbers"], x.head["terms"]) for x in v]) for k, v in data.items()]

    # -- steps

    def unique(self):
        for k, v in self.ref.items():
            self.ref[k] = dbs.distinct_by(lambda m: m.key, v)

    def sieve(self, sieves, beats):
        out = {}
        for k, v in self.ref.items():
            out[k] = [m for m in v if not any(s <= m_key(m, by) for op, s, by in sieves if beats(op, k))]
            self.removed += len(v) - len(out[k])
        self.ref = out

    def filter(self):
        sieves = [(k, m.key, None) for k, v in self.ref.items() for m in v]
        self.sieve(sieves, lambda a, b: strictly_above(self.keys[a], self.keys[b], self.criterion))
        self.ordered = True

    def run(self, step):
        kind, *args = step
        db = self.db
        if kind == "unique":
            db.remove_equivalent_models()
            self.unique()
        elif kind == "order":
            db.order()
            self.ordered = True
        elif kind == "filter":
            db.filter()
            self.filter()
        elif kind == "process":
            db.process(*args)
            if args[0]:
                self.ref = {k: [m for m in v if not m.seesaw()] for k, v in self.ref.items()}
            self.unique()
            self.filter()
        elif kind == "seesaws":
            db.filter_by_query(type(db).no_seesaws)
            self.ref = {k: [m for m in v if not m.seesaw()] for k, v in self.ref.items()}
        elif kind in ("query", "keep"):
            label, want = args
            func = lambda m: m.contains_field(label + "$") == want
            keep = lambda m: (label in m.fields) == want
            expected = {k: [m for m in v if keep(m)] for k, v in self.ref.items()}
            if kind == "keep":
                db.filter_by_query(func)
                self.ref = expected
            else:
                got = db.query(func)
                check(
                    set(got) == set(expected) and all(len(got[k]) == len(v) and all(x is m.lazy for x, m in zip(got[k], v)) for k, v in expected.items()),
                    lambda: f"models {'with' if want else 'without'} {label}: {self.describe(got)}",
                )
        elif kind == "one":
            # one model as the sieve, with a record of the operators whose models it removes
            flat = [m for v in self.ref.values() for m in v]
            if not self.ordered or not flat:
                return
            above = lambda a, b: strictly_above(a, self.keys[b], self.criterion)
            # mostly models that remove others
            good = [m for m in flat if any(above(m.op, x_op) and m.key <= x.key for x_op, v in self.ref.items() for x in v)]
            flat = good or flat if args[0] % 4 else flat
            chosen, record = flat[args[0] % len(flat)], args[1] or self.criterion == "dimension"
            before, old = db.filter_data.copy(), {k: len(v) for k, v in self.ref.items()}
            if self.criterion == "dimension":
                db.filter_model_by_dimension(name(chosen.op), chosen.lazy)
            else:
                db.filter_model_by_mass(name(chosen.op), chosen.lazy, keep_filter_data=record)
            self.sieve([(chosen.op, chosen.key, None)], above)
            ks = list(db.data)
            changed = {(ks[i], ks[j]) for i in range(len(ks)) for j in range(len(ks)) if db.filter_data[i][j] > before[i][j]}
            expected = {(name(chosen.op), k) for k, v in self.ref.items() if len(v) < old[k]} if record else set()
            check(changed == expected, lambda: f"models of {sorted(expected)} removed, recorded {sorted(changed)}")
            for j, k in enumerate(ks):
                if (name(chosen.op), k) in changed:
                    i = ks.index(name(chosen.op))
                    part, now = (old[k] - len(self.ref[k])) / old[k], db.filter_data[i][j] - before[i][j]
                    check(math.isclose(part, now, rel_tol=1e-6), lambda: f"{part} of the models of {k} removed, recorded {now}")
        elif kind == "loops":
            if self.criterion != "mass" or not self.ordered:
                return
            flat = [m for v in self.ref.values() for m in v]
            if not flat:
                return
            chosen = [flat[n % len(flat)] for n in args[0]]
            numbers = [db.democratic_model_number(m.lazy) for m in chosen]
            db.filter_one_loop_weinberg(numbers)
            limit = c23.scale({"v": 2, "Λ": -1, "loop": 1})
            low = lambda k: scale(self.keys[k]) < limit * (1 - 1e-3)
            if any(math.isclose(scale(self.keys[k]), limit, rel_tol=1e-3) for k in self.ref):
                # operators right at the limit
                for k in self.ref:
                    if math.isclose(scale(self.keys[k]), limit, rel_tol=1e-3):
                        self.ref[k] = [m for m in self.ref[k] if any(x is m.lazy for x in db.data[k])]
            self.sieve([(None, m.field_set, "fields") for m in chosen], lambda a, b: low(b))
        self.agree(str(step))


def m_key(m, by):
    return m.field_set if by == "fields" else m.key


@sub("histories", strategy=database_case, quick=250, thorough=12000, budget=(45, 800), hang=120)
def histories(case, rec):
    """random databases (given or read from files) and sequences of queries, duplicate removals, orderings and filters, followed
    after every step; at the end processing twice changes nothing; non-trivial: a filter removed a model"""
    boot.load_database()
    scratch = tempfile.mkdtemp(prefix="c26_")
    try:
        d = Database(case, scratch)
        rec.label(f"{case[3]} {case[4]}")
        for step in case[6]:
            d.run(step)
        d.run(["process", False])
        n = d.removed
        before = [(k, [id(x) for x in v]) for k, v in d.db.data.items()]
        d.run(["process", False])
        check(before == [(k, [id(x) for x in v]) for k, v in d.db.data.items()], "processing again changes the database")
        rec.nontrivial(n > 0)
    finally:
        shutil.rmtree(scratch)


@sub(
    "sieves",
    strategy=lambda: st.tuples(database_case(steps=False), st.lists(st.tuples(st.integers(0, 6), st.lists(dbs.small_label(), max_size=2)).map(list), min_size=3, max_size=8),
                               st.lists(st.tuples(st.integers(0, 30), st.booleans()).map(list), min_size=1, max_size=4)).map(list),
    quick=200, thorough=8000, budget=(40, 600), hang=120,
)
def sieves(case, rec):
    """an ordered database with many copies and extensions of one model, and sieves with single models that count what they reject;
    non-trivial: one model is found in at least two others"""
    boot.load_database()
    base, copies, steps = case
    # (one model, that others extend)
    ops, rest, _, philosophy, criterion = base[:5]
    grow = [[0, k, bool(k % 2), more] for k, more in copies]
    d = Database([ops, rest, grow, philosophy, criterion, False], None)
    d.run(["order"])
    most = 0
    for n, record in steps:
        was = d.removed
        d.run(["one", n, record])
        most = max(most, d.removed - was)
    rec.label(f"{philosophy} {criterion}", f"rejected={min(most, 4)}")
    rec.nontrivial(most > 1)


@sub("presentation", strategy=lambda: st.tuples(database_case(steps=False), st.randoms(use_true_random=False).map(lambda r: r.randrange(10**6))).map(list),
     quick=150, thorough=8000, budget=(40, 600), hang=120)
def presentation(case, rec):
    """the same models with operators, fields and interactions listed in another order and conjugated: the same models survive;
    non-trivial: a filter removed a model"""
    import random

    boot.load_database()
    from neutrinomass.database.database import ModelDatabase

    memoise()
    case, seed = case
    r = random.Random(seed)
    keys, models = specs_of(case)
    tagged = [(n, name(op), spec) for n, (op, spec) in enumerate(models)]

    def survivors(items):
        data, tags = {}, {}
        for n, op, (fields, terms) in items:
            x = dbs.lazy(op, fields, terms)
            tags[id(x)] = n
            data.setdefault(op, []).append(x)
        db = ModelDatabase("", philosophy=case[3], criterion=case[4], data=data)
        db.process()
        return {k: [tags[id(x)] for x in v] for k, v in db.data.items()}

    # models stay in their order within an operator (the first of equivalent models is kept)
    ops = sorted({op for _, op, _ in tagged})
    r.shuffle(ops)
    other = []
    for op in ops:
        for n, o, (fields, terms) in tagged:
            if o == op:
                fields = r.sample(fields, len(fields))
                terms = [r.sample(list(t), len(t)) for t in r.sample(terms, len(terms))]
                if r.random() < 0.5:
                    fields, terms = [dbs.conj_label(f) for f in fields], [list(dbs.conj_term(t)) for t in terms]
                other.append((n, op, (fields, terms)))
    a, b = survivors(tagged), survivors(other)
    rec.nontrivial(sum(map(len, a.values())) < len(models))
    check(a == b, lambda: f"models kept {a}, listed differently {b}")


@sub("orders", cases=lambda tier: [["mass"], ["dimension"]], quick=2, thorough=2, budget=(60, 300), hang=300)
def orders(case, rec):
    """all operators of the pool in one database: order and recorded scales"""
    boot.load_database()
    from neutrinomass.database.database import ModelDatabase

    memoise()
    pool = operators()
    back = {name(k): k for k in pool}
    data = {name(k): [dbs.lazy(name(k), ["S,00,0,1,0"], [["L", "L", "S,00,0,1,0"]])] for k in pool[::-1]}
    db = ModelDatabase("", criterion=case[0], data=data)
    db.order()
    rec.nontrivial(True)
    ks = list(db.data)
    check(set(ks) == set(back), lambda: f"operators {ks}, should be {sorted(back)}")
    for a, b in zip(ks, ks[1:]):
        check(not strictly_above(back[b], back[a], case[0]), lambda: f"operators ordered by {case[0]}: {ks}")
    if case[0] == "mass":
        for k in ks:
            check(math.isclose(db.scale_dict[k], scale(back[k]), rel_tol=1e-6), lambda: f"scale of {k}: {db.scale_dict[k]}, should be {scale(back[k])}")
