"""Reference mathematics, written independently of the code under test.

* characters of SU(2) and SU(3): product decomposition and singlet counting by weights
* numeric evaluation of operators as polynomials in the components of their fields
"""

import itertools
from collections import Counter
from fractions import Fraction
from functools import lru_cache

import numpy as np

# ------------------------------------------------------------------ characters


@lru_cache(maxsize=None)
def su2_weights(n):
    """weights (2*m) of the irrep with Dynkin label n"""
    return {w: 1 for w in range(-n, n + 1, 2)}


@lru_cache(maxsize=None)
def su3_weights(p, q):
    """weight multiplicities of (p, q) by Gelfand-Tsetlin patterns; weights as (h1, h2) Dynkin"""
    out = Counter()
    a, b, c = p + q, q, 0
    for x in range(b, a + 1):
        for y in range(c, b + 1):
            for z in range(y, x + 1):
                # row sums: z, x+y, a+b+c
                w1, w2, w3 = z, x + y - z, a + b + c - x - y
                out[(w1 - w2, w2 - w3)] += 1
    return dict(out)


def su3_dim(p, q):
    return (p + 1) * (q + 1) * (p + q + 2) // 2


def dim(dynkin):
    u, d, cu, cd, i = map(int, dynkin)
    return (u + 1) * (d + 1) * su3_dim(cu, cd) * (i + 1)


@lru_cache(maxsize=None)
def su2_product(a, b):
    return {k: 1 for k in range(abs(a - b), a + b + 1, 2)}


@lru_cache(maxsize=None)
def su3_product(x, y):
    """decompose (p,q)x(p',q') by peeling highest weights off the product character"""
    wx, wy = su3_weights(*x), su3_weights(*y)
    ch = Counter()
    for (a, b), m in wx.items():
        for (c, d), n in wy.items():
            ch[(a + c, b + d)] += m * n
    out = {}
    dominant = sorted((w for w in ch if w[0] >= 0 and w[1] >= 0), key=lambda w: (w[0] + w[1], w), reverse=True)
    # order by height compatible with dominance: <w, rho> = w0 + w1 (each root lowers it)
    for w in dominant:
        m = ch[w]
        if m > 0:
            out[w] = m
            for v, k in su3_weights(*w).items():
                ch[v] -= m * k
    assert all(v == 0 for v in ch.values())
    return out


def product(irreps):
    """{dynkin string: multiplicity} of the product of a list of 5-digit irreps (tuples of ints)"""
    acc = {(0, 0, 0, 0, 0): 1}
    for r in irreps:
        r = tuple(int(x) for x in r)
        new = Counter()
        for s, m in acc.items():
            for u in su2_product(s[0], r[0]):
                for d in su2_product(s[1], r[1]):
                    for (cu, cd), k in su3_product((s[2], s[3]), (r[2], r[3])).items():
                        for i in su2_product(s[4], r[4]):
                            new[(u, d, cu, cd, i)] += m * k
        acc = new
    return dict(acc)


def su2_singlets(ns):
    acc = {0: 1}
    for n in ns:
        new = Counter()
        for s, m in acc.items():
            for k in su2_product(s, n):
                new[k] += m
        acc = new
    return acc.get(0, 0)


def su3_singlets(pqs):
    acc = {(0, 0): 1}
    for pq in pqs:
        new = Counter()
        for s, m in acc.items():
            for k, n in su3_product(s, tuple(pq)).items():
                new[k] += m * n
        acc = new
    return acc.get((0, 0), 0)


def n_singlets(irreps, kinds="udci"):
    irreps = [tuple(int(x) for x in r) for r in irreps]
    out = 1
    if "u" in kinds:
        out *= su2_singlets([r[0] for r in irreps])
    if "d" in kinds:
        out *= su2_singlets([r[1] for r in irreps])
    if "c" in kinds:
        out *= su3_singlets([(r[2], r[3]) for r in irreps])
    if "i" in kinds:
        out *= su2_singlets([r[4] for r in irreps])
    return out


def matchings(n):
    return 1 if n <= 0 else (n - 1) * matchings(n - 2)


# ------------------------------------------------------------------ numeric evaluation

EPS2 = np.array([[0, 1], [-1, 0]], dtype=float)
EPS3 = np.zeros((3, 3, 3))
for _p in itertools.permutations(range(3)):
    EPS3[_p] = np.linalg.det(np.eye(3)[list(_p)])

DIM = {"u": 2, "d": 2, "c": 3, "i": 2}


def kind(idx):
    """'u', 'd', 'c', 'i' or 'g' of an index object, from its printed label"""
    s = str(idx)
    return s[1] if s[0] == "-" else s[0]


def is_down(idx):
    return str(idx).startswith("-")


def bare(idx):
    return str(idx).lstrip("-")


def is_eps(t):
    return not hasattr(t, "label") and not str(t).startswith("KD")


def symmetrise(arr, groups):
    """Symmetrise arr over each group of axes."""
    for axes in groups:
        if len(axes) < 2:
            continue
        acc = 0
        n = 0
        for perm in itertools.permutations(axes):
            order = list(range(arr.ndim))
            for a, b in zip(axes, perm):
                order[a] = b
            acc = acc + np.transpose(arr, order)
            n += 1
        arr = acc / n
    return arr


@lru_cache(maxsize=None)
def traceless_projector(p, q):
    """projector on traceless tensors symmetric in p raised and in q lowered colour indices"""
    n = p + q
    size = 3**n
    sym = np.zeros((size, size))
    for k in range(size):
        e = np.zeros(size)
        e[k] = 1
        sym[:, k] = symmetrise(e.reshape((3,) * n), [list(range(p)), list(range(p, n))]).reshape(-1)
    tr = np.stack([np.trace(sym[:, k].reshape((3,) * n), axis1=0, axis2=p).reshape(-1) for k in range(size)], axis=1)
    return np.eye(size) - np.linalg.pinv(tr) @ tr


def traceless(arr, up_axes, down_axes):
    """Project out colour traces (arr is already symmetric in each group of axes)."""
    p, q = len(up_axes), len(down_axes)
    if not (p and q):
        return arr
    axes = list(up_axes) + list(down_axes)
    m = np.moveaxis(arr, axes, range(p + q))
    shape = m.shape
    m = (traceless_projector(p, q) @ m.reshape(3 ** (p + q), -1)).reshape(shape)
    return np.moveaxis(m, range(p + q), axes)


def gauge_indices(field):
    return [i for i in field.indices if kind(i) != "g"]


def field_array(field, rng):
    """A random component array for an indexed field, with the symmetries of its irrep."""
    idx = gauge_indices(field)
    shape = [DIM[kind(i)] for i in idx]
    arr = rng.normal(size=shape) + 1j * rng.normal(size=shape)
    groups = {}
    for pos, i in enumerate(idx):
        groups.setdefault((kind(i), is_down(i)), []).append(pos)
    arr = symmetrise(arr, list(groups.values()))
    return traceless(arr, groups.get(("c", False), []), groups.get(("c", True), []))


def invariant_array(t):
    """(array, indices) of an epsilon or delta"""
    idx = list(t.indices)
    if str(t).startswith("KD"):
        return np.eye(3), idx
    if len(idx) == 3:
        return EPS3, idx
    return EPS2, idx


LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def evaluate(tensors, arrays):
    """Contract the tensors (IndexedFields and invariant symbols) with the given arrays for the
    fields (in order of appearance).  Free indices come out in sorted order of (kind, label, height):
    returns (array, free indices)."""
    operands, subs = [], []
    seen = {}
    count = Counter()
    k = 0
    for t in tensors:
        if hasattr(t, "label"):
            arr, idx = arrays[k], gauge_indices(t)
            k += 1
        else:
            arr, idx = invariant_array(t)
        for i in idx:
            seen.setdefault(bare(i), len(seen))
            count[bare(i)] += 1
        operands.append(arr)
        subs.append([seen[bare(i)] for i in idx])
    free = sorted(b for b, n in count.items() if n == 1)
    bad = [b for b, n in count.items() if n > 2]
    if bad:
        raise ValueError(f"index used more than twice: {bad}")
    out = [seen[b] for b in free]
    args = []
    for a, s in zip(operands, subs):
        args += [a, s]
    if not args:
        return np.array(1.0), free
    return np.einsum(*args, out, optimize="greedy"), free


def fields_of(tensors):
    return [t for t in tensors if hasattr(t, "label")]


# ------------------------------------------------------------------ group elements


def random_su(n, rng):
    z = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    q, r = np.linalg.qr(z)
    q = q * (np.diag(r) / abs(np.diag(r)))
    return q / np.linalg.det(q) ** (1.0 / n)


def random_sl2(rng):
    m = rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2))
    return m / np.sqrt(np.linalg.det(m))


def group_element(rng):
    m = random_sl2(rng)
    v = random_su(3, rng)
    return {
        ("u", False): m,
        ("d", False): m.conj(),
        ("i", False): random_su(2, rng),
        ("c", False): v,
        ("c", True): v.conj(),
    }


def transform(field, arr, g):
    idx = gauge_indices(field)
    for pos, i in enumerate(idx):
        arr = np.moveaxis(np.tensordot(g[(kind(i), is_down(i))], arr, axes=(1, pos)), 0, pos)
    return arr


# ------------------------------------------------------------------ Grassmann evaluation


def polynomial(tensors, key=None):
    """Expand a fully contracted product into monomials of component variables with the right signs for
    anticommuting fields.  key(field) names the variable family (default: its label); the
    generation index value is taken as the family's generation when present ('g' indices make occurrences
    distinct).  Returns {monomial (sorted tuple of names): coefficient}."""
    fields = fields_of(tensors)
    others = [t for t in tensors if not hasattr(t, "label")]
    names = {}
    for t in tensors:
        idx = gauge_indices(t) if hasattr(t, "label") else list(t.indices)
        for i in idx:
            names.setdefault(bare(i), kind(i))
    # solve the invariants first: choose values of indices appearing in them with nonzero entries
    inv = [(invariant_array(t)) for t in others]
    assignments = [({}, 1)]
    for arr, idx in inv:
        new = []
        nz = [(pos, arr[pos]) for pos in zip(*np.nonzero(arr))]
        for asg, coef in assignments:
            for pos, val in nz:
                a = dict(asg)
                ok = True
                for i, v in zip(idx, pos):
                    b = bare(i)
                    if a.get(b, v) != v:
                        ok = False
                        break
                    a[b] = v
                if ok:
                    new.append((a, coef * int(round(val))))
        assignments = new
    rest = [b for b in names if all(b not in (bare(i) for i in idx) for _, idx in inv)]
    out = Counter()
    for asg, coef in assignments:
        for vals in itertools.product(*[range(DIM[names[b]]) for b in rest]):
            a = {**asg, **dict(zip(rest, vals))}
            mono = []
            for f in fields:
                comp = {}
                for i in f.indices:
                    k = kind(i)
                    if k == "g":
                        comp.setdefault(("g",), []).append(bare(i))
                    else:
                        comp.setdefault((k, is_down(i)), []).append(int(a[bare(i)]))
                # components of symmetric irreps do not depend on index order
                name = (key(f) if key else f.label, tuple(sorted((k, tuple(sorted(v))) for k, v in comp.items())))
                mono.append((name, bool(f.is_fermion)))
            sign, sorted_mono = grassmann_sort(mono)
            if sign:
                out[sorted_mono] += sign * coef
    return {m: c for m, c in out.items() if c}


def grassmann_sort(mono):
    """Sort variables; fermionic ones anticommute and square to zero."""
    lst = list(mono)
    sign = 1
    for i in range(len(lst)):
        for j in range(len(lst) - 1 - i):
            if lst[j][0] > lst[j + 1][0]:
                if lst[j][1] and lst[j + 1][1]:
                    sign = -sign
                lst[j], lst[j + 1] = lst[j + 1], lst[j]
    for a, b in zip(lst, lst[1:]):
        if a == b and a[1]:
            return 0, None
    return sign, tuple(n for n, _ in lst)


def proportional(p, q):
    """p == c*q for polynomials as dicts, c nonzero"""
    if set(p) != set(q):
        return False
    if not p:
        return True
    m = next(iter(p))
    r = Fraction(p[m]) / Fraction(q[m])
    return all(Fraction(p[k]) == r * Fraction(q[k]) for k in p)


def rank(vectors, tol=1e-8):
    if not vectors:
        return 0
    a = np.array(vectors)
    scale = np.max(np.abs(a))
    if scale < 1e-9:
        return 0
    s = np.linalg.svd(a / scale, compute_uv=False)
    return int((s > tol * max(1, s[0])).sum())


# ------------------------------------------------------------------ Standard Model table (Table of the paper)

F = Fraction
SM = {
    # label: (dynkin, hypercharge, 3B, fermion, generations, lepton number)
    "L": ("10001", F(-1, 2), 0, True, 3, 1),
    "Q": ("10101", F(1, 6), 1, True, 3, 0),
    "eb": ("10000", F(1), 0, True, 3, -1),
    "ub": ("10010", F(-2, 3), -1, True, 3, 0),
    "db": ("10010", F(1, 3), -1, True, 3, 0),
    "H": ("00001", F(1, 2), 0, False, 1, 0),
    "G": ("20110", F(0), 0, False, 1, 0),
    "Gb": ("02110", F(0), 0, False, 1, 0),
    "W": ("20002", F(0), 0, False, 1, 0),
    "Wb": ("02002", F(0), 0, False, 1, 0),
    "B": ("20000", F(0), 0, False, 1, 0),
    "Bb": ("02000", F(0), 0, False, 1, 0),
}
MATTER = ["L", "Q", "eb", "ub", "db", "H"]


def conj_dynkin(d):
    return d[1] + d[0] + d[3] + d[2] + d[4]


def sm_irrep(label, conj):
    d = SM[label][0]
    return conj_dynkin(d) if conj else d


def frac(x):
    """sympy rational / int / str -> Fraction"""
    return Fraction(str(x))
