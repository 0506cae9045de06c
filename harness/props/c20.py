"""C20 text labels of fields and interactions, and the numbers made of them"""
from collections import Counter
from fractions import Fraction

import hypothesis.strategies as st

from .. import boot, comps, dbs, gen, ref
from ..core import Discard, check, sub


@sub(
    "text",
    strategy=lambda: st.tuples(st.lists(st.one_of(dbs.exotic_label(), dbs.sm_label()), min_size=1, max_size=5), st.integers(0, 10)).map(list),
    quick=2000, thorough=100000, budget=(20, 400),
)
def text(case, rec):
    """labels of random fields and interactions of up to five of them; non-trivial: an exotic field is among them"""
    from neutrinomass.utils.functions import conjugate_field, conjugate_term

    labels, turn = case
    rec.nontrivial(any("," in s for s in labels))
    for s in labels:
        got = conjugate_field(s)
        check(got == dbs.conj_label(s), lambda: f"conjugate_field({s!r}) = {got!r}, should be {dbs.conj_label(s)!r}")
        check(conjugate_field(got) == s, lambda: f"conjugating {s!r} twice gives {conjugate_field(got)!r}")
    given = list(labels)
    got = conjugate_term(tuple(labels))
    check(got == dbs.conj_term(labels), lambda: f"conjugate_term({labels}) = {got}, should be {dbs.conj_term(labels)}")
    check(conjugate_term(got) == tuple(sorted(labels)), lambda: f"conjugating {labels} twice gives {conjugate_term(got)}")
    k = turn % len(labels)
    check(conjugate_term(labels[k:] + labels[:k]) == got, lambda: f"the conjugate of {labels} depends on the order of its fields")
    check(labels == given, "conjugate_term changed its argument")


# ------------------------------------------------------------------ actual fields


def label_of(f):
    """reference label of a field"""
    name = f.label.replace("†", "")
    if name in dbs.SM:
        return name + (".conj" if f.is_conj else "")
    u, d, cu, cd, i = map(int, f.dynkin)
    return ",".join(["F" if u + d else "S", f"{cu}{cd}", str(i), str(ref.frac(f.charges["y"])), str(ref.frac(f.charges["3b"]))])


def field_case():
    return st.tuples(st.one_of(gen.sm_spec(), gen.sm_spec(gen.SM_LABELS), gen.exo_spec(), gen.exo_spec()), st.sampled_from(["plain", "indexed", "completion"])).map(list)


@sub("fields", strategy=field_case, quick=800, thorough=40000, budget=(20, 400))
def fields(case, rec):
    """SM fields, gauge fields and random exotic fields, plain, with indices and as exotics of a completion; non-trivial: exotic or conjugated"""
    from neutrinomass.completions.core import cons_completion_field
    from neutrinomass.utils.functions import conjugate_field, conjugate_term, stringify_qns

    spec, form = case
    f = gen.build(spec)
    if not f.is_scalar and not f.is_fermion and form == "completion":
        raise Discard()
    if "y" not in f.charges or "3b" not in f.charges:
        raise Discard()
    if form != "plain":
        f = f.fresh_indices()
    if form == "completion" and spec[0] != "sm":
        f = cons_completion_field(f)
    rec.label(form)
    rec.nontrivial(spec[0] != "sm" or f.is_conj)
    got = stringify_qns(f)
    check(got == label_of(f), lambda: f"label of {f} ({form}) is {got!r}, should be {label_of(f)!r}")
    other = stringify_qns(f.conj)
    check(other == conjugate_field(got), lambda: f"{f} ({form}) has label {got!r}, its conjugate {other!r}, conjugating the text gives {conjugate_field(got)!r}")
    check(stringify_qns(f.conj.conj) == got, lambda: f"the label of {f} changes when it is conjugated twice")


@sub("terms", strategy=lambda: comps.completion_case(), quick=80, thorough=4000, budget=(30, 600))
def terms(case, rec):
    """interactions of completions of random placements against their hermitian conjugates; non-trivial: a completion was found"""
    from neutrinomass.utils.functions import conjugate_term, stringify_qns

    p, x = comps.complete(case, rec)
    if x is None:
        raise Discard()
    rec.nontrivial(True)
    for t in x.terms:
        labels = tuple(map(stringify_qns, t.fields))
        want = tuple(label_of(f) for f in comps.term_fields(t))
        check(sorted(labels) == sorted(want), lambda: f"labels of {t}: {labels}, should be {want}")
        conj = tuple(sorted(stringify_qns(f.conj) for f in t.fields))
        check(conjugate_term(labels) == conj, lambda: f"conjugating the labels {labels} of {t} gives {conjugate_term(labels)}, the conjugated fields have {conj}")


# ------------------------------------------------------------------ model numbers


def database_case():
    return st.tuples(
        st.lists(st.tuples(st.sampled_from(["1", "2", "3a", "8", "D3"]), dbs.model_spec()).map(list), min_size=1, max_size=8),
        st.sampled_from(["democratic", "stringent"]), st.sampled_from(["mass", "dimension"]),
    ).map(list)


def build(models):
    data = {}
    for op, (fields, terms) in models:
        data.setdefault(op, []).append(dbs.lazy(op, fields, terms))
    return data


@sub("numbers", strategy=database_case, quick=600, thorough=30000, budget=(30, 600), hang=60)
def numbers(case, rec):
    """random databases of overlapping models: equality and divisibility of model numbers against equality and inclusion of sets of
    fields (or of interactions); non-trivial: two models agree up to conjugation or one is contained in another"""
    boot.load_database()
    from neutrinomass.database.database import ModelDatabase

    models, philosophy, criterion = case
    data = build(models)
    db = ModelDatabase("", philosophy=philosophy, criterion=criterion, data=data)
    flat = [m for v in data.values() for m in v]
    order = [s for k in data for op, s in models if op == k]
    fields = [frozenset(map(dbs.field_class, s[0])) for s in order]
    terms = [frozenset(map(dbs.term_class, s[1])) for s in order]
    hit = 0
    general = fields if philosophy == "democratic" else terms
    for what, number, sets in (
        ("democratic", db.democratic_model_number, fields), ("stringent", db.stringent_model_number, terms), ("model", db.model_number, general),
    ):
        ns = [int(number(m)) for m in flat]
        for i in range(len(ns)):
            for j in range(len(ns)):
                show = lambda: f"{what} numbers {ns[i]} and {ns[j]} of {order[i]} and {order[j]}"
                if i < j:
                    check((ns[i] == ns[j]) == (sets[i] == sets[j]), show)
                check((ns[i] % ns[j] == 0) == (sets[j] <= sets[i]), show)
                if i != j and sets[j] and sets[j] <= sets[i]:
                    hit += 1
    rec.nontrivial(hit > 0)


# ------------------------------------------------------------------ numbers of completions


@sub(
    "completions",
    strategy=lambda: st.tuples(st.sampled_from(["1", "2", "3a", "8", "D:D2a"]), st.lists(st.integers(0, 500), min_size=2, max_size=10)).map(list),
    quick=60, thorough=3000, budget=(30, 600),
)
def numbers_of_completions(case, rec):
    """sets of found completions: characteristic numbers equal exactly when the multisets of interactions agree up to conjugation;
    non-trivial: some but not all agree"""
    from neutrinomass.completions.completions import completion_characteristic_number, cons_term_prime_dict

    from .c18 import interaction, pool

    name, picks = case
    xs = pool(name)
    if not xs:
        raise Discard()
    xs = [xs[k % len(xs)] for k in picks]
    primes = cons_term_prime_dict(xs)
    ns = [int(completion_characteristic_number(x, primes)) for x in xs]
    sets = [Counter(map(interaction, x.terms)) for x in xs]
    same = 0
    for i in range(len(xs)):
        for j in range(i):
            check((ns[i] == ns[j]) == (sets[i] == sets[j]), lambda: f"numbers {ns[i]}, {ns[j]} of {xs[i].terms} and {xs[j].terms}")
            same += ns[i] == ns[j]
    rec.nontrivial(0 < same < len(xs) * (len(xs) - 1) // 2)
