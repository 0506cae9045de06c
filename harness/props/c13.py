"""C13 a completion's diagram reproduces the operator it came from"""
import itertools
import re
from collections import Counter

import numpy as np

from .. import comps, ref
from ..core import Discard, check, sub
from ..ref import frac
from .c12 import exotic_class, whole_names


def neighbours(g, n):
    return sorted(g.neighbors(n))


def far_legs(g, leaf_of, v, w):
    """external vertices on v's side of the line (v, w)"""
    out, stack, seen = [], [v], {v, w}
    while stack:
        n = stack.pop()
        if n in leaf_of:
            out.append(n)
        for m in g.neighbors(n):
            if m not in seen:
                seen.add(m)
                stack.append(m)
    return out


def leaf_key(f):
    name, conj = comps.sm_key(f)
    return ("sm", name, conj, tuple(sorted(str(i) for i in f.indices if ref.kind(str(i).lower()) == "g")))


def bare_irrep(f):
    """representation of the field without its derivatives"""
    return ref.sm_irrep(*comps.sm_key(f))


def charge(f):
    return frac(f.charges["y"]), frac(f.charges["3b"])


class Diagram:
    """the diagram of a completion, read off its graph and partition; raises if it is not well formed"""

    def __init__(self, x):
        import networkx as nx

        from .c11 import leaves_of

        g = self.graph = x.graph
        check(nx.is_connected(g) and g.number_of_edges() == g.number_of_nodes() - 1, "the diagram is not a connected tree")
        self.leaf = {}
        for f, n in leaves_of(x.partition):
            check(n not in self.leaf, lambda: f"two fields at external vertex {n}")
            self.leaf[n] = f
        ends = {n for n in g if g.degree(n) == 1}
        check(ends == set(self.leaf), lambda: f"external vertices {sorted(ends)}, fields attached to {sorted(self.leaf)}")
        self.internal = sorted(n for n in g if n not in ends)
        check(all(g.degree(n) in (3, 4) for n in self.internal), "internal vertex without three or four lines")
        self.lines = [(v, w) for v, w in g.edges if v not in ends and w not in ends]
        for n, f in self.leaf.items():
            text = g.edges[n, neighbours(g, n)[0]].get("particle")
            check(text is not None and re.fullmatch(re.escape(f.label) + r"\d+", text), lambda: f"line of {f} is labelled {text}")
        self.label = {}
        plain = {e.label: e for e in x.exotics}
        for v, w in self.lines:
            text = g.edges[v, w].get("particle")
            check(text in plain, lambda: f"internal line labelled {text}, exotics {sorted(plain)}")
            self.label[v, w] = text
        used = {comps.base(t) for t in self.label.values()}
        check(used == {comps.base(e.label) for e in x.exotics}, lambda: f"lines carry {sorted(used)}, exotics {sorted(plain)}")

    def side(self, v, w):
        return [self.leaf[n] for n in far_legs(self.graph, self.leaf, v, w)]

    def line(self, v, w):
        return self.label[v, w] if (v, w) in self.label else self.label[w, v]

    def signature(self, v):
        """what meets at an internal vertex, up to the overall orientation of real lines"""
        out = []
        for n in neighbours(self.graph, v):
            if n in self.leaf:
                out.append(leaf_key(self.leaf[n]))
            else:
                out.append(("x", comps.base(self.line(v, n))))
        return tuple(sorted(out, key=repr))


def occurrence_key(f):
    return ("x", comps.base(f.label)) if comps.is_exotic(f) else leaf_key(f)


def term_signature(term):
    return tuple(sorted((occurrence_key(f) for f in comps.term_fields(term)), key=repr))


def check_lines(x):
    """the diagram, its lines and its vertices"""
    d = Diagram(x)
    want = Counter(leaf_key(f) for f in comps.term_fields(x.operator.operator))
    have = Counter(leaf_key(f) for f in d.leaf.values())
    check(want == have, lambda: f"external lines {dict(have)}, operator {dict(want)}")
    check(len(x.terms) == len(d.internal), lambda: f"{len(x.terms)} terms, {len(d.internal)} internal vertices")
    a, b = Counter(map(term_signature, x.terms)), Counter(map(d.signature, d.internal))
    check(a == b, lambda: f"terms {dict(a)}, vertices {dict(b)}")

    # each exotic line joins an exotic to its partner (or conjugate)
    real = {comps.base(e.label): exotic_class(e) for e in x.exotics}
    lines = Counter(comps.base(t) for t in d.label.values())
    plus, minus = Counter(), Counter()
    for term in x.terms:
        for f in comps.term_fields(term):
            if comps.is_exotic(f):
                (plus if comps.sign(f.label) == 1 else minus)[comps.base(f.label)] += 1
    for k, n in lines.items():
        check(plus[k] + minus[k] == 2 * n, lambda: f"{n} lines of {k}, {plus[k] + minus[k]} ends in the terms")
        if not real[k]:
            check(plus[k] == n, lambda: f"{n} lines of {k}: {plus[k]} unconjugated and {minus[k]} conjugated ends")

    # quantum numbers of the lines
    exotics = {comps.base(e.label): e for e in x.exotics}
    derivs = any(f.derivs for f in d.leaf.values())
    for v, w in d.lines:
        e = exotics[comps.base(d.line(v, w))]
        ok = []
        for a, b in ((v, w), (w, v)):
            fields = d.side(a, b)
            y = sum(charge(f)[0] for f in fields)
            b3 = sum(charge(f)[1] for f in fields)
            irreps = [bare_irrep(f) for f in fields]
            gauge = {"".join(map(str, k[2:])) for k in ref.product(["00" + i[2:] for i in irreps])}
            fermions = sum((int(i[0]) + int(i[1])) % 2 for i in irreps) % 2
            ey, eb = charge(e)
            mine = e.dynkin[2:]
            other = e.dynkin[3] + e.dynkin[2] + e.dynkin[4]
            spin = (int(e.dynkin[0]) + int(e.dynkin[1])) % 2 == fermions
            for s, rep in ((1, mine), (-1, other)):
                ok.append(spin and (s * ey, s * eb) == (y, b3) and rep in gauge)
        check(any(ok), lambda: f"line {d.line(v, w)} of {e} {e.charges} does not carry the sum of {d.side(v, w)} or {d.side(w, v)}")
    return d, derivs


@sub("lines", strategy=comps.completion_case, quick=320, thorough=9000, budget=(70, 850))
def lines(case, rec):
    """random placement for catalogue, derivative and generated operators; the graph, partition, exotics and terms of its
    completion are compared vertex by vertex and line by line. non-trivial: there is a completion"""
    p, x = comps.complete(case, rec)
    rec.nontrivial(x is not None)
    if x is None:
        return
    d, derivs = check_lines(x)
    rec.label(f"lines={len(d.lines)}", "derivatives" if derivs else "no derivatives")


@sub("whole", cases=whole_names, quick=1, thorough=1, budget=(60, 850))
def whole(case, rec):
    """all completions of every catalogue operator with few placements, listed before any of them is looked at"""
    xs = list(comps.completions_module().completions(comps.catalogue()[case[0]]))
    for x in xs:
        check_lines(x)
    rec.nontrivial(len(xs) > 1)
    rec.label(case[0])


# ------------------------------------------------------------------ integrating out the exotics numerically


def project(arr, idx):
    """symmetrise in the indices of a kind and height and remove colour traces: the irreducible part a line carries"""
    groups = {}
    for pos, (kind, down) in enumerate(idx):
        groups.setdefault((kind, down), []).append(pos)
    arr = ref.symmetrise(arr, list(groups.values()))
    return ref.traceless(arr, groups.get(("c", False), []), groups.get(("c", True), []))


def outer(parts):
    """product of tensors with named axes, repeated names contracted: [(array, names)] -> (array, names)"""
    ids, args, count = {}, [], Counter()
    for arr, names in parts:
        for n in names:
            ids.setdefault(n, len(ids))
            count[n] += 1
        args += [arr, [ids[n] for n in names]]
    free = [n for n in ids if count[n] == 1]
    if not args:
        return np.array(1.0), []
    return np.einsum(*args, [ids[n] for n in free], optimize="greedy"), free


def operator_value(x, d, root, arrays):
    """the explicit operator, with the irreducible part taken on every internal line"""
    invariants = [t for t in x.operator.operator.tensors if not comps.is_field(t)]
    height = {}
    used = set()

    def absorb(parts, names):
        """invariant tensors that act within this side of the line"""
        names = set(names)
        changed = True
        while changed:
            changed = False
            for k, t in enumerate(invariants):
                if k in used:
                    continue
                idx = [ref.bare(i) for i in t.indices]
                inside = [i for i in idx if i in names]
                if len(inside) == len(idx) or (len(idx) == 3 and len(inside) == 2):
                    used.add(k)
                    changed = True
                    arr, _ = ref.invariant_array(t)
                    parts.append((arr, idx))
                    for i, raw in zip(idx, t.indices):
                        if i in names:
                            names.remove(i)
                        else:
                            names.add(i)
                            height[i] = ref.is_down(raw)
        return parts

    def value(v, parent):
        if v in d.leaf:
            f = d.leaf[v]
            idx = ref.gauge_indices(f)
            for i in idx:
                height[ref.bare(i)] = ref.is_down(i)
            return arrays[v], [ref.bare(i) for i in idx]
        parts = [value(n, v) for n in neighbours(d.graph, v) if n != parent]
        count = Counter(n for _, names in parts for n in names)
        parts = absorb(list(parts), [n for n in count if count[n] == 1])
        arr, names = outer(parts)
        if parent is None:
            return arr, names
        return project(arr, [(ref.kind(n), height[n]) for n in names]), names

    arr, names = value(root, None)
    if names or len(used) != len(invariants):
        return None
    return complex(arr)


def assignments(x, d, limit=48):
    """ways of identifying terms with vertices and the fields of each term with the lines there"""
    by_sig = {}
    for v in d.internal:
        by_sig.setdefault(d.signature(v), []).append(v)
    groups = []
    for sig, vs in by_sig.items():
        terms = [t for t in x.terms if term_signature(t) == sig]
        groups.append([list(zip(vs, perm)) for perm in itertools.permutations(terms)])
    count = 0
    for combo in itertools.product(*groups):
        pairs = [p for g in combo for p in g]
        choices = []
        for v, term in pairs:
            fields = comps.term_fields(term)
            want = [(n, leaf_key(d.leaf[n]) if n in d.leaf else ("x", comps.base(d.line(v, n)))) for n in neighbours(d.graph, v)]
            opts = []
            for perm in itertools.permutations(range(len(fields))):
                if all(occurrence_key(fields[k]) == key for k, (_, key) in zip(perm, want)):
                    opts.append((v, term, {n: k for k, (n, _) in zip(perm, want)}))
            choices.append(opts)
        for pick in itertools.product(*choices):
            count += 1
            if count > limit:
                raise Discard()
            yield {v: (term, where) for v, term, where in pick}


def model_value(x, d, root, arrays, where):
    """the terms with every exotic replaced by its equation of motion; None if a line does not join matching representations"""

    def fields_value(v, parent):
        term, place = where[v]
        fields = comps.term_fields(term)
        got = {}
        for n, k in place.items():
            if n == parent:
                continue
            f = fields[k]
            idx = ref.gauge_indices(f)
            if n in d.leaf:
                mine = ref.gauge_indices(d.leaf[n])
                key = lambda i: (ref.kind(i), ref.is_down(i))
                order = []
                pool = list(range(len(mine)))
                for i in idx:
                    cand = [j for j in pool if key(mine[j]) == key(i)]
                    if not cand:
                        return None
                    order.append(cand[0])
                    pool.remove(cand[0])
                if pool:
                    return None
                got[k] = np.transpose(arrays[n], order)
            else:
                below = fields_value(n, v)
                if below is None:
                    return None
                arr, slots = below
                pool = list(range(len(slots)))
                order = []
                for i in idx:
                    cand = [j for j in pool if slots[j] == (ref.kind(i), ref.is_down(i))]
                    if not cand:
                        return None
                    order.append(cand[0])
                    pool.remove(cand[0])
                if pool:
                    return None
                got[k] = np.transpose(arr, order)
        skip = None if parent is None else fields[place[parent]]
        parts, k = [], 0
        for t in term.tensors:
            if comps.is_field(t):
                if not (skip is not None and k == place[parent]):
                    parts.append((got[k], [ref.bare(i) for i in ref.gauge_indices(t)]))
                k += 1
            else:
                arr, idx = ref.invariant_array(t)
                parts.append((arr, [ref.bare(i) for i in idx]))
        arr, names = outer(parts)
        if skip is None:
            return (complex(arr), []) if not names else None
        slots = ref.gauge_indices(skip)
        bare = [ref.bare(i) for i in slots]
        if sorted(bare) != sorted(names):
            return None
        arr = np.transpose(arr, [names.index(b) for b in bare])
        # the partner's index is lowered by an epsilon (or is a conjugate colour index): raise it for the exotic
        out_slots = []
        for pos, i in enumerate(slots):
            kind = ref.kind(i)
            if kind == "c":
                out_slots.append((kind, not ref.is_down(i)))
            else:
                arr = np.moveaxis(np.tensordot(ref.EPS2, arr, axes=(1, pos)), 0, pos)
                out_slots.append((kind, False))
        return project(arr, out_slots), out_slots

    out = fields_value(root, None)
    return None if out is None else out[0]


@sub("integrated", strategy=lambda: comps.completion_case(derivatives=False), quick=320, thorough=9000, budget=(70, 850))
def integrated(case, rec):
    """random placement for an operator without derivatives; every exotic is replaced by its equation of motion with random
    numbers on the external legs, and the result compared with the explicit operator (irreducible part on each line).
    non-trivial: the operator does not vanish there"""
    p, x = comps.complete(case, rec)
    rec.nontrivial(False)
    if x is None:
        return
    d = Diagram(x)
    root = d.internal[0]
    points = []
    for k in range(3):
        rng = np.random.default_rng(1000 * k + (case[3] % 1000))
        arrays = {n: ref.field_array(f, rng) for n, f in d.leaf.items()}
        w = operator_value(x, d, root, arrays)
        check(w is not None, lambda: f"the diagram does not contract all indices of the operator {x.operator.operator}")
        points.append((arrays, w))
    scale = max(abs(w) for _, w in points)
    best = None
    for where in assignments(x, d):
        vs = [model_value(x, d, root, arrays, where) for arrays, _ in points]
        if any(v is None for v in vs):
            continue
        best = vs
        if scale < 1e-9:
            if max(map(abs, vs)) < 1e-8:
                rec.label("vanishing on the diagram")
                return
            continue
        ratios = [v / w for v, (_, w) in zip(vs, points)]
        if abs(ratios[0]) > 1e-9 and all(abs(r - ratios[0]) < 1e-6 * abs(ratios[0]) for r in ratios):
            rec.nontrivial(True)
            rec.label("reproduced")
            return
    check(False, lambda: f"integrating out the exotics of {x.terms} gives {best}, the operator {x.operator.operator} is {[w for _, w in points]}")
