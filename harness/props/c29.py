"""C29 LaTeX output"""
import random
import re
from collections import Counter
from string import ascii_letters

import hypothesis.strategies as st

from .. import boot, comps, dbs
from ..core import Discard, check, sub
from . import c14, c18, c19

GREEK = dict(zip("αβγδεζηθικλμνξπρστυφχψω", "alpha beta gamma delta epsilon zeta eta theta iota kappa lambda mu nu xi pi rho sigma tau upsilon phi chi psi omega".split()))
SM_LATEX = {"L": "L", "Q": "Q", "H": "H", "ub": r"\bar{u}", "db": r"\bar{d}", "eb": r"\bar{e}", "B": "B", "Bb": r"\bar{B}", "W": "W", "Wb": r"\bar{W}", "G": "G", "Gb": r"\bar{G}"}


# ------------------------------------------------------------------ reading the text back


def groups(text):
    """split at spaces outside of braces"""
    out, depth, word = [], 0, ""
    for ch in text:
        depth += (ch == "{") - (ch == "}")
        if ch == " " and depth == 0:
            if word:
                out.append(word)
            word = ""
        else:
            word += ch
    return out + ([word] if word else [])


def kind(i):
    return str(i).lstrip("-")[0]


def root(i):
    return str(i).lstrip("-")


def read_tensor(word):
    m = re.fullmatch(r"\\(epsilon|delta)_\{(.*)\}", word, re.S)
    check(m, lambda: f"{word!r} is not an invariant tensor")
    return m.group(1), tuple(sorted(groups(m.group(2))))


def style(label):
    """kind of index a label stands for"""
    if label.startswith(r"\dot"):
        return "d"
    if label.startswith("\\"):
        return "u"
    return "c" if label < "i" else "i"


def check_text(op, ignore, text):
    """the text describes this operator; -> number of displayed contractions"""
    shown = lambda t: [i for i in t.indices if kind(i) in "udci" and kind(i) not in ignore]
    head, *tail = text.split(r" \cdot ")
    words = groups(head)
    fields = [t for t in op.tensors if comps.is_field(t)]
    tensors = [t for t in op.tensors if not comps.is_field(t) and shown(t)]
    show = lambda: f"{op} without {ignore or 'nothing'} is written {text}"
    check(len(tail) == (1 if tensors else 0), show)
    got = Counter(map(read_tensor, groups(tail[0]) if tail else []))
    check(len(words) == len(fields), show)
    # labels
    body = {}
    for f in fields:
        body.setdefault(latex_of(f), []).append(f)
    slots = []
    for w in words:
        options = []
        for text_of, fs in body.items():
            if w == text_of:
                options += [(f, []) for f in fs if not shown(f)]
            elif w.startswith(text_of + "^{") and w.endswith("}"):
                labels = groups(w[len(text_of) + 2 : -1])
                options += [(f, labels) for f in fs if [kind(i) for i in shown(f)] == [style(x) for x in labels]]
        check(options, lambda: f"{w!r} is none of the fields, {show()}")
        slots.append(options)

    def assign(k, used, names):
        if k == len(slots):
            return matches(names)
        for f, labels in slots[k]:
            if id(f) not in used:
                if assign(k + 1, used | {id(f)}, {**names, **{root(i): x for i, x in zip(shown(f), labels)}}):
                    return True
        return False

    def matches(names):
        if len(set(names.values())) != len(names):
            return False
        want = Counter()
        inner = {}
        for t in tensors:
            if any(root(i) not in names for i in t.indices):
                # contracted with another tensor
                want = None
                break
            want[("delta" if str(t).startswith("KD") else "epsilon", tuple(sorted(names[root(i)] for i in t.indices)))] += 1
        return want == got if want is not None else chains(names)

    def chains(names):
        """indices between tensors have labels of their own: try them all"""
        inner = sorted({root(i) for t in tensors for i in t.indices if root(i) not in names})
        fresh = sorted({x for (_, xs), n in got.items() for x in xs} - set(names.values()))
        if len(fresh) != len(inner) or len(inner) > 4:
            return False
        from itertools import permutations

        for p in permutations(fresh):
            m = {**names, **dict(zip(inner, p))}
            if any(style(x) != kind(i) for i, x in zip(inner, p)):
                continue
            if Counter(("delta" if str(t).startswith("KD") else "epsilon", tuple(sorted(m[root(i)] for i in t.indices))) for t in tensors) == got:
                return True
        return False

    check(assign(0, frozenset(), {}), lambda: f"the contractions do not agree: {show()}")
    return sum(got.values())


def latex_of(f):
    """the LaTeX form of a field with its conjugation and derivatives"""
    base = f
    check(f.latex is not None, lambda: f"{f} has no LaTeX form")
    return f.get_latex()


def in_range(op, ignore=""):
    """enough letters"""
    n = Counter(kind(i) for i in {root(i) for t in op.tensors for i in t.indices})
    return n["c"] <= 8 and n["i"] <= 17 and n["u"] <= 23 and n["d"] <= 23


def direct(op):
    """two fields contracted without a tensor"""
    n = Counter(root(i) for t in op.tensors if comps.is_field(t) for i in t.indices)
    return max(n.values(), default=0) > 1


def check_operator(op, ignore, seed=None):
    if not in_range(op) or direct(op):
        raise Discard()
    before = str(op)
    text = op.latex(ignore=list(ignore)) if ignore else op.latex()
    again = op.latex(ignore=list(ignore)) if ignore else op.latex()
    check(text == again, lambda: f"{op} is written {text}, then {again}")
    check(str(op) == before, lambda: f"writing {before} changes it to {op}")
    if not ignore:
        check(op._repr_html_() == f"${text}$", lambda: f"{op} is shown as {op._repr_html_()}")
        check(op.latex(ignore=[]) == text and op.latex(ignore=None) == text, lambda: f"{op} without ignored indices")
    return check_text(op, ignore, text)


def ignored():
    return st.one_of(st.just(""), st.sets(st.sampled_from("udcig")).map(lambda s: "".join(sorted(s))))


@sub("generated", strategy=lambda: st.tuples(dbs.operator_case(), ignored(), st.integers(0, 10**5), st.integers(0, 2)).map(list), quick=500, thorough=30000, budget=(40, 800))
def generated(case, rec):
    """generated operators of SM, derivative and exotic fields with random contractions, also through chains of deltas or epsilons, and random sets of
    ignored index kinds; non-trivial: at least two displayed contractions"""
    boot.load_package()
    from neutrinomass.tensormethod.core import delta, eps

    content, ignore, seed, links = case
    op = dbs.operator_of(content)
    # contract a free colour index with a tensor that is contracted with another one
    free = [str(i) for i in op.free_indices if kind(i) == "c"]
    for k in range(links):
        if free:
            i = free.pop()
            if i.startswith("-"):
                op = op * delta(f"{i[1:]} -c9{k}") * delta(f"c9{k} -c8{k}")
            else:
                op = op * delta(f"c9{k} -{i}") * delta(f"c8{k} -c9{k}")
    rec.label(f"ignoring {len(ignore)}")
    rec.nontrivial(check_operator(op, ignore) > 1)


@sub("catalogue", strategy=lambda: st.tuples(st.sampled_from(comps.names()), st.integers(0, 50), ignored(), st.integers(0, 10**5)).map(list), quick=200, thorough=6000, budget=(30, 500))
def catalogue(case, rec):
    """catalogue operators with colour contracted, conjugated, renamed and reordered: all are read back; a renamed operator is written the same;
    non-trivial: at least two displayed contractions"""
    boot.load_package()
    name, k, ignore, seed = case
    forms = comps.colour_forms(name)
    if not forms:
        raise Discard()
    op = forms[k % len(forms)].operator
    rec.nontrivial(check_operator(op, ignore) > 1)
    for how in ("reorder", "rename", "conj"):
        new = c14.rewrite(op, how, seed)[0]
        check_operator(new, ignore)
        if how == "rename":
            a, b = op.latex(ignore=list(ignore)), new.latex(ignore=list(ignore))
            check(a == b, lambda: f"{op} is written {a}; with other index names it is {b}")


@sub("terms", strategy=lambda: st.tuples(comps.completion_case(), ignored()).map(list), quick=80, thorough=5000, budget=(40, 800))
def terms(case, rec):
    """the interactions of completions of random placements; non-trivial: at least two displayed contractions"""
    case, ignore = case
    p, x = comps.complete(case, rec)
    if x is None:
        raise Discard()
    n = 0
    for t in x.terms:
        if in_range(t) and not direct(t):
            n = max(n, check_operator(t, ignore))
    rec.nontrivial(n > 1)


# ------------------------------------------------------------------ fields


def marked(inner, isospin, conj):
    if not conj:
        return inner
    return rf"\tilde{{{inner}}}" if isospin else rf"{{{inner}^{{\dagger}}}}"


@sub(
    "fields",
    strategy=lambda: st.tuples(
        st.one_of(
            st.tuples(st.just("sm"), st.sampled_from(sorted(SM_LATEX)), st.just(None)),
            st.tuples(st.sampled_from(["00000", "10000", "01101", "00201", "10012", "00110"]), st.sampled_from(list(GREEK) + ["X", "S0", "f12"]), st.sampled_from([None, None, "\\Xi", "\\bar{\\eta}", "(ab)"])),
        ).map(list),
        st.booleans(), st.integers(0, 2),
    ).map(list),
    quick=400, thorough=8000, budget=(20, 120),
)
def fields(case, rec):
    """single SM and exotic fields, plain, conjugated (tilde with isospin, dagger without), indexed and with derivatives; non-trivial: conjugated"""
    boot.load_package()
    from neutrinomass.tensormethod import sm
    from neutrinomass.tensormethod.core import D, Field

    (dynkin, label, latex), conj, n = case
    if dynkin == "sm":
        f, want = getattr(sm, label), SM_LATEX[label]
    else:
        f = Field(label, dynkin, charges={"y": 0, "3b": 0}, latex=latex)
        want = latex or (label if label[0] in ascii_letters else "\\" + GREEK[label[0]])
    iso = f.dynkin[4] != "0"
    check(f.get_latex() == want, lambda: f"{f} is written {f.get_latex()}, should be {want}")
    back = f.conj.conj
    check(back.get_latex() == want, lambda: f"{f} conjugated twice is written {back.get_latex()}, should be {want}")
    g = f.conj if conj else f
    want = marked(want, iso, conj)
    check(g.get_latex() == want, lambda: f"{g} is written {g.get_latex()}, should be {want}")
    rec.nontrivial(conj)
    ug = g.fresh_indices()
    check(ug.get_latex() == want and ug.field.get_latex() == want, lambda: f"{ug} is written {ug.get_latex()}, should be {want}")
    # derivatives of SM matter
    if dynkin != "sm" or label not in dbs.SM:
        return
    h = g
    u, d = map(int, g.dynkin[:2])
    for k in range(n):
        u, d = (u + 1, d + 1) if (u + d == 0) else ((u - 1, d + 1) if u else (u + 1, d - 1))
        h = D(h, f"{u}{d}")
        text = "(" + "D" * (k + 1) + want + ")"
        check(h.get_latex() == text, lambda: f"{h} is written {h.get_latex()}, should be {text}")
        check(h.fresh_indices().get_latex() == text, lambda: f"{h} with indices is written {h.fresh_indices().get_latex()}, should be {text}")
