"""Shared generators.  Every strategy yields plain JSON data; builders turn it into repo objects."""

from fractions import Fraction

import hypothesis.strategies as st

from . import ref

SM_LABELS = list(ref.SM)
MATTER = ref.MATTER


def sm_objects():
    from neutrinomass.tensormethod import sm

    return {k: getattr(sm, k) for k in SM_LABELS}


# ---- field specs: ["sm", label, conj] or ["x", label, dynkin, y, 3b, stat, nf, conj]


def charges():
    return st.tuples(st.integers(-8, 8), st.sampled_from([1, 2, 3, 6])).map(lambda t: str(Fraction(*t)))


def irreps(max_lorentz=2, max_colour=2, max_iso=3, total=6, lorentz=None):
    def ok(t):
        return sum(t) <= total

    lor = st.sampled_from(lorentz) if lorentz else st.tuples(st.integers(0, max_lorentz), st.integers(0, max_lorentz))
    return (
        st.tuples(lor, st.tuples(st.integers(0, max_colour), st.integers(0, max_colour)), st.integers(0, max_iso))
        .map(lambda t: (*t[0], *t[1], t[2]))
        .filter(ok)
        .map(lambda t: "".join(map(str, t)))
    )


def sm_spec(labels=MATTER):
    return st.tuples(st.just("sm"), st.sampled_from(list(labels)), st.booleans()).map(list)


EXO_LABELS = ["φ", "η", "S0", "σ", "ψ", "χ", "ζ", "A", "X1"]


def exo_spec(labels=EXO_LABELS, nfs=(1, 3), **kw):
    return st.tuples(
        st.just("x"), st.sampled_from(labels), irreps(**kw), charges(), st.integers(-3, 3).map(str),
        st.sampled_from(["auto", "none"]), st.sampled_from(list(nfs)), st.booleans(),
    ).map(list)


def field_spec(**kw):
    return st.one_of(sm_spec(SM_LABELS), exo_spec(**kw))


def build(spec):
    from neutrinomass.tensormethod.core import BOSE, FERMI, Field

    if spec[0] == "sm":
        f = sm_objects()[spec[1]]
        return f.conj if spec[2] else f
    _, label, dynkin, y, b, stat, nf, conj = spec
    fermion = (int(dynkin[0]) + int(dynkin[1])) % 2
    comm = 0 if stat == "none" else (FERMI if fermion else BOSE)
    f = Field(label, dynkin=dynkin, charges={"y": y, "3b": b}, comm=comm, nf=nf)
    return f.conj if conj else f


def spec_info(spec):
    """Reference quantum numbers: dict(dynkin, y, b, fermion, label, conj, nf)"""
    if spec[0] == "sm":
        d, y, b, fermion, nf, l = ref.SM[spec[1]]
        conj, label = spec[2], spec[1]
    else:
        _, label, d, y, b, _, nf, conj = spec
        y, b = Fraction(y), Fraction(b)
        fermion = (int(d[0]) + int(d[1])) % 2 == 1
    if conj:
        d, y, b = ref.conj_dynkin(d), -y, -b
    return {"dynkin": d, "y": Fraction(y), "b": Fraction(b), "fermion": bool(fermion), "label": label, "conj": bool(conj), "nf": nf}


STYLES = ["plain", "plain", "plain", "upper", "letters"]


def styled(string, style):
    """the same indices under names in upper case, or that go on with letters that stand for types"""
    if style == "upper":
        return string.upper()
    if style == "letters":
        return " ".join(s + "du" for s in string.split())
    return string


def index_string(dynkin, start=0, gen=None):
    """A valid index string for a 5-digit irrep; returns (string, next number)"""
    out = []
    n = start
    for digit, (sign, k) in zip(dynkin, [("", "u"), ("", "d"), ("", "c"), ("-", "c"), ("", "i")]):
        for _ in range(int(digit)):
            out.append(f"{sign}{k}{n}")
            n += 1
    if gen is not None:
        out.append(f"g{gen}")
    return " ".join(out), n


def index_of(st_):
    return st_


def balanced(draw_fields, max_fields):
    return st.lists(draw_fields, min_size=2, max_size=max_fields)


# ---- lists of fields that admit a singlet


def fresh_exo(label, dynkin, y, b, nf=1):
    return ["x", label, dynkin, str(y), str(b), "auto", nf, False]


def complete_to_singlet(specs, pick, label="ζ", nf=1, max_digits=4):
    """Append a field so that the list contains a singlet; None if the field would be too big."""
    infos = [spec_info(s) for s in specs]
    parts = sorted(k for k in ref.product([i["dynkin"] for i in infos]) if sum(k) <= max_digits and max(k) <= 9)
    if not parts:
        return None
    u, d, cu, cd, i = parts[pick % len(parts)]
    y, b = sum(f["y"] for f in infos), sum(f["b"] for f in infos)
    # self-dual SU(2) labels; colour reversed
    return specs + [fresh_exo(label, f"{u}{d}{cd}{cu}{i}", -y, -b, nf)]


def index_counts(specs):
    ds = [spec_info(s)["dynkin"] for s in specs]
    return [sum(int(d[k]) for d in ds) for k in range(5)]


def structure_bound(specs, ignore=""):
    u, d, cu, cd, i = index_counts(specs)
    out = 1
    if "u" not in ignore:
        out *= ref.matchings(u)
    if "d" not in ignore:
        out *= ref.matchings(d)
    if "i" not in ignore:
        out *= ref.matchings(i)
    if "c" not in ignore:
        n = max(cu, cd)
        out *= [1, 1, 2, 6, 24, 120, 720, 5040, 40320, 10**6][min(n, 9)]
    return out


def small_exo(total=3, **kw):
    return exo_spec(max_lorentz=1, max_colour=1, max_iso=2, total=total, nfs=(1, 3), **kw)


def singlet_list(max_fields=4, bound=250, total=3, ignore=""):
    base = st.one_of(sm_spec(MATTER), sm_spec(SM_LABELS), small_exo(total))
    closed = st.tuples(st.lists(base, min_size=1, max_size=max_fields - 1), st.integers(0, 40)).map(
        lambda t: complete_to_singlet(t[0], t[1])
    )
    # repeated fields: (f f g) with g the closing field
    repeated = st.tuples(base, st.integers(2, max_fields - 1), st.integers(0, 40)).map(lambda t: complete_to_singlet([t[0]] * t[1], t[2]))
    pools = [["L", "H", "Q", "W"], ["Q", "ub", "db", "G"], ["L", "Q", "eb", "Wb", "B"], ["H", "Q", "ub"]]
    rich = st.tuples(
        st.sampled_from(pools).flatmap(lambda p: st.lists(sm_spec(p), min_size=max_fields - 2, max_size=max_fields - 1)), st.integers(0, 40)
    ).map(lambda t: complete_to_singlet(t[0], t[1]))
    return st.one_of(closed, rich, rich, repeated).filter(lambda s: s is not None and structure_bound(s, ignore) <= bound)


def op_kinds(op):
    """count of free indices of each kind and height"""
    out = {}
    for i in op.free_indices:
        k = (ref.kind(i), ref.is_down(i))
        out[k] = out.get(k, 0) + 1
    return out
