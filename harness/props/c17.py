"""C17 filtering and collecting models"""
import random

import hypothesis.strategies as st

from .. import comps, ref
from ..core import Discard, check, sub
from .c15 import build_exotic

# ------------------------------------------------------------------ reference


def info(e):
    """quantum numbers an exotic is listed with: hypercharge not negative"""
    u, d, cu, cd, i = map(int, e.dynkin)
    y, b = ref.frac(e.charges["y"]), ref.frac(e.charges["3b"])
    if y < 0:
        cu, cd, y, b = cd, cu, -y, -b
    return ("F" if (u + d) % 2 else "S", cu, cd, i, b, y)


def read_info(v):
    lor, cu, cd, i, *charges = v
    c = dict(charges)
    return (lor, int(cu), int(cd), int(i), ref.frac(c["3b"]), ref.frac(c["y"]))


def divisors(n):
    return {d for d in range(1, n + 1) if n % d == 0}


# ------------------------------------------------------------------ filtering

FIELDS = [
    (lor, cu, cd, i, ("3b", b), ("y", y))
    for lor in "SF"
    for cu, cd in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 0))
    for i in range(3)
    for b, y in ((0, 0), (0, 1), (1, 2), (-1, 1))
]


def registry_case():
    """two collections of models over a common pool of fields"""

    def models(pool):
        content = st.lists(st.sampled_from(pool), min_size=1, max_size=4, unique=True).map(sorted)
        return st.lists(content, max_size=9, unique_by=tuple)

    def two(n, seed):
        pool = random.Random(seed).sample(range(len(FIELDS)), n)
        return st.tuples(models(pool), models(pool)).map(list)

    return st.one_of(
        st.tuples(st.integers(1, 5), st.integers(0, 1000)).flatmap(lambda t: two(*t)),
        st.tuples(st.integers(5, 40), st.integers(0, 1000)).flatmap(lambda t: two(*t)),
    )


def keyed(models, tag):
    return {tuple(FIELDS[k] for k in m): [f"{tag}{n}", f"{tag}{n}'"] for n, m in enumerate(models)}


def reference_filter(models, sieve):
    return {k: v for k, v in models.items() if not any(set(s) <= set(k) for s in sieve)}


@sub("filter", strategy=registry_case, quick=900, thorough=40000, budget=(30, 800))
def filter_(case, rec):
    """two collections of field contents: the filtered one against set inclusion, in several orders of both;
    non-trivial: some model is kept and some is dropped"""
    from neutrinomass.completions.completions import filter_completions

    models, sieve = keyed(case[0], "m"), keyed(case[1], "s")
    want = reference_filter(models, sieve)
    rec.nontrivial(0 < len(want) < len(models))
    rec.label("some kept" if want else "none kept")
    before = dict(models), dict(sieve)
    for m, s in ((models, sieve), (dict(reversed(models.items())), dict(reversed(sieve.items())))):
        got = filter_completions(m, s)
        check(set(got) == set(want), lambda: f"models {list(m)} against sieve {list(s)}: kept {list(got)}, should keep {list(want)}")
        check(all(got[k] == models[k] for k in got), lambda: f"completions altered: {got}")
    check((models, sieve) == before, "the arguments are changed")
    same = filter_completions(models, models)
    check(not same, lambda: f"models filtered against themselves keep {list(same)}")
    all_ = filter_completions(models, {})
    check(all_ == models, lambda: f"models filtered against nothing keep {list(all_)}")


@sub("registry", strategy=registry_case, quick=300, thorough=10000, budget=(20, 400))
def registry(case, rec):
    """the numbers given to fields and models: one prime per field, and a model's number divides another's exactly when its fields
    are contained in the other's; divisors of a number; non-trivial: two models"""
    from neutrinomass.completions.completions import model_registry, prime_registry
    from neutrinomass.completions.utils import factors

    models = {**keyed(case[0], "m"), **keyed(case[1], "s")}
    rec.nontrivial(len(models) > 1)
    if not models:
        raise Discard()
    primes = prime_registry(models)
    check(set(primes) == {f for m in models for f in m}, lambda: f"fields {set(primes)} of models {list(models)}")
    numbers = model_registry(models, primes)
    check(set(numbers) == set(models), lambda: f"models {set(numbers)}, given {set(models)}")
    for a, x in numbers.items():
        for b, y in numbers.items():
            check((y % x == 0) == (set(a) <= set(b)), lambda: f"model numbers {x} of {a} and {y} of {b}")
    small = min(numbers.values())
    if small < 200000:
        check(set(factors(small)) == divisors(small), lambda: f"factors of {small}: {sorted(factors(small))}")


# ------------------------------------------------------------------ collecting completions

EXOTICS = [
    ("00000", "1"), ("00000", "0"), ("00002", "1"), ("00002", "-1"), ("00100", "-1/3"), ("00010", "1/3"), ("00101", "1/6"),
    ("10000", "0"), ("10000", "1"), ("10000", "-1"), ("10002", "0"), ("10100", "2/3"), ("10010", "-2/3"), ("10110", "0"), ("01001", "1/2"),
]


def completion_of(content, n):
    """a completion as far as collecting is concerned: its exotics"""
    from neutrinomass.completions.core import Completion

    exotics = {build_exotic(f"{'ψ' if EXOTICS[k][0][0] != EXOTICS[k][0][1] else 'φ'}{j}", *EXOTICS[k], n % 2 if k > 4 and EXOTICS[k][1] != "0" else 0) for j, k in enumerate(content)}
    return Completion(operator=f"o{n}", partition=(n,), graph=None, exotics=exotics, terms=[], topology=f"t{n % 3}")


@sub("collect", strategy=lambda: st.tuples(st.lists(st.lists(st.integers(0, len(EXOTICS) - 1), min_size=1, max_size=3), max_size=9), st.lists(st.integers(0, 8), max_size=6)).map(list), quick=500, thorough=20000, budget=(30, 800))
def collect(case, rec):
    """completions with generated exotics, some contents repeated at any distance, also with an exotic twice: every completion is
    listed once under its content, in order; models likewise; non-trivial: a content comes back after another one"""
    from neutrinomass.completions.completions import collect_completions, collect_models

    contents, repeats = case
    if not contents:
        raise Discard()
    contents = contents + [contents[r % len(contents)] for r in repeats]
    cs = [completion_of(x, n) for n, x in enumerate(contents)]
    for c in cs:
        got = {e: read_info(v) for e, v in c.exotic_info().items()}
        check(got == {e: info(e) for e in c.exotics}, lambda: f"exotic_info {c.exotic_info()} of {[(e, e.charges) for e in c.exotics]}")
    want = {}
    for c in cs:
        want.setdefault(frozenset(info(e) for e in c.exotics), []).append(c)
    keys = [frozenset(info(e) for e in c.exotics) for c in cs]
    rec.nontrivial(any(keys[k] == keys[j] and keys[k] != keys[k - 1] for k in range(2, len(keys)) for j in range(k - 1)))
    compare(collect_completions(iter(cs)), want, lambda: f"{[sorted(map(str, k)) for k in keys]}")
    models = [m.completions for m in collect_models(cs)]
    check(len(models) == len(want) and sorted(map(len, models)) == sorted(map(len, want.values())), lambda: f"models of {list(map(len, models))} completions, contents have {list(map(len, want.values()))}")


def compare(out, want, msg):
    got = {}
    for k, v in out.items():
        key = frozenset(map(read_info, k))
        check(len(set(k)) == len(k), lambda: f"content {k} lists a field twice")
        check(key not in got, lambda: f"content {k} is listed twice")
        got[key] = v
    check(set(got) == set(want), lambda: f"contents {[sorted(map(str, k)) for k in got]} collected from {msg()}")
    for k in want:
        check([id(c) for c in got[k]] == [id(c) for c in want[k]], lambda: f"content {sorted(map(str, k))} has {len(got[k])} completions, {len(want[k])} were given: {msg()}")


_POOL = []


def pool():
    if not _POOL:
        c = comps.completions_module()
        for name in ("1", "2", "3a", "8", "D:D2a", "D:D2b"):
            if name not in comps.catalogue():
                continue
            op = comps.catalogue()[name]
            _POOL.extend((c.deriv_operator_completions if name.startswith("D:") else c.operator_completions)(op))
    return _POOL


@sub("found", strategy=lambda: st.lists(st.integers(0, 2000), min_size=1, max_size=30), quick=120, thorough=6000, budget=(40, 800))
def found(case, rec):
    """random sequences of completions found for small operators: collected, and filtered against the rest; non-trivial: some
    model is kept and some is dropped"""
    from neutrinomass.completions.completions import collect_completions, filter_completions

    cs = [pool()[k % len(pool())] for k in case]
    half = len(cs) // 2
    want = [{}, {}]
    for n, c in enumerate(cs):
        want[n >= half].setdefault(frozenset(info(e) for e in c.exotics), []).append(c)
    a, b = collect_completions(cs[:half]), collect_completions(cs[half:])
    compare(a, want[0], lambda: f"{cs[:half]}")
    compare(b, want[1], lambda: f"{cs[half:]}")
    kept = filter_completions(b, a)
    should = {k for k in want[1] if not any(s <= k for s in want[0])}
    rec.nontrivial(0 < len(should) < len(want[1]))
    check({frozenset(map(read_info, k)) for k in kept} == should, lambda: f"kept {list(kept)} of {list(b)} against {list(a)}")
    check(all(kept[k] == b[k] for k in kept), "a model is altered by filtering")
