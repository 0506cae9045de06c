"""C11 topologies and placements of fields on them"""
import itertools
import os
import re
from collections import Counter
from functools import lru_cache

import hypothesis.strategies as st

from .. import gen, ref
from ..core import Discard, check, sub


def topologies():
    from neutrinomass.completions import topologies as t

    return t


@lru_cache(maxsize=None)
def shipped_classes():
    """numbers of scalars and fermions for which partition files are shipped"""
    t = topologies()
    found = set()
    for name in os.listdir(t.PARTITIONS):
        m = re.match(r"(\d+)s(\d+)f_\d+", name)
        if m:
            found.add((int(m.group(1)), int(m.group(2))))
    return sorted(found)


# ------------------------------------------------------------------ reference enumeration of tree diagrams


def canon(t):
    return t if isinstance(t, str) else tuple(sorted((canon(x) for x in t), key=repr))


def fermionic(s, f):
    return f % 2 == 1


@lru_cache(maxsize=None)
def branches(s, f):
    """all trees hanging from one line, with s scalar and f fermion legs"""
    if (s, f) == (1, 0):
        return ("S",)
    if (s, f) == (0, 1):
        return ("F",)
    out = set()
    for parts in splits(s, f, 2):
        if sum(fermionic(*p) for p in parts) + fermionic(s, f) in (0, 2):
            for combo in itertools.product(*[branches(*p) for p in parts]):
                out.add(canon(combo))
    if not fermionic(s, f):
        for parts in splits(s, f, 3):
            if not any(fermionic(*p) for p in parts):
                for combo in itertools.product(*[branches(*p) for p in parts]):
                    out.add(canon(combo))
    return tuple(sorted(out, key=repr))


def splits(s, f, n):
    """multisets of n nonempty (scalars, fermions) adding up to (s, f)"""
    opts = [(a, b) for a in range(s + 1) for b in range(f + 1) if a + b]
    return [c for c in itertools.combinations_with_replacement(opts, n) if sum(x[0] for x in c) == s and sum(x[1] for x in c) == f]


def rooted_to_graph(leaf, t):
    """adjacency of an unrooted tree given as (one leg, the rest)"""
    adj, kinds = {}, {}

    def new(kind=None):
        n = len(adj)
        adj[n] = []
        kinds[n] = kind
        return n

    def grow(t, parent):
        n = new(t if isinstance(t, str) else None)
        adj[n].append(parent)
        adj[parent].append(n)
        if not isinstance(t, str):
            for x in t:
                grow(x, n)

    root = new(leaf)
    grow(t, root)
    return adj, kinds


def unrooted_canon(adj, kinds):
    """canonical form of a tree with typed legs: the smallest rooted form over legs of the rarest-named type"""
    legs = [n for n, k in kinds.items() if k is not None]
    first = min(kinds[n] for n in legs)

    def down(n, parent):
        if kinds[n] is not None and parent is not None:
            return kinds[n]
        return tuple(sorted((down(m, n) for m in adj[n] if m != parent), key=repr))

    return min(((first, down(adj[n][0], n)) for n in legs if kinds[n] == first), key=repr)


@lru_cache(maxsize=None)
def all_topologies(s, f):
    leaf, rest = ("F", (s, f - 1)) if f else ("S", (s - 1, f))
    out = set()
    for t in branches(*rest):
        adj, kinds = rooted_to_graph(leaf, t)
        internal = [n for n, k in kinds.items() if k is None]
        if len(internal) > 1:
            out.add(unrooted_canon(adj, kinds))
    return out


# ------------------------------------------------------------------ reading partitions and graphs


def leaves_of(p):
    from neutrinomass.completions.topologies import Leaf

    if isinstance(p, Leaf):
        return [p]
    return [l for x in p for l in leaves_of(x)]


def locate(p, g, where):
    """vertex of the graph at which a (sub)partition meets; fills where[id path]"""
    from neutrinomass.completions.topologies import Leaf

    if isinstance(p, Leaf):
        return p.node
    nodes = [locate(x, g, where) for x in p]
    common = set(g.neighbors(nodes[0]))
    for n in nodes[1:]:
        common &= set(g.neighbors(n))
    check(len(common) == 1, lambda: f"the lines {nodes} grouped in {p} meet at {sorted(common)}")
    v = common.pop()
    check(v not in where, lambda: f"vertex {v} stands for two groups")
    where[v] = nodes
    return v


def examine(partition, g, s, f, what):
    import networkx as nx

    check(nx.is_connected(g) and nx.is_tree(g), lambda: f"{what}: the graph is not a connected tree: {list(g.edges)}")
    legs = leaves_of(partition)
    kinds = Counter(l.field for l in legs)
    check(kinds == Counter({k: n for k, n in (("S", s), ("F", f)) if n}), lambda: f"{what}: the partition has legs {kinds}")
    ext = [n for n, d in g.degree() if d == 1]
    check(sorted(l.node for l in legs) == sorted(ext), lambda: f"{what}: legs {sorted(l.node for l in legs)}, external vertices {sorted(ext)}")
    for n, d in g.degree():
        check(d in (1, 3, 4), lambda: f"{what}: vertex {n} has {d} lines")
    where = {}
    root = locate(partition, g, where)
    check(set(where) == {n for n, d in g.degree() if d > 1}, lambda: f"{what}: groups at {sorted(where)} do not cover the vertices")
    for v, nodes in where.items():
        extra = set(g.neighbors(v)) - set(nodes)
        check(len(nodes) == len(set(nodes)) and len(extra) == (0 if v == root else 1), lambda: f"{what}: vertex {v} joins {sorted(g.neighbors(v))}, grouped {nodes}")
    # fermion lines do not end: every vertex has no fermion or two
    kind = {l.node: l.field for l in legs}
    adj = {n: list(g.neighbors(n)) for n in g}
    return unrooted_canon(adj, {n: kind.get(n) for n in g})


@sub("shipped", cases=lambda tier: [list(c) for c in shipped_classes()], quick=20, thorough=20)
def shipped(case, rec):
    """every shipped class (exhaustive): each partition with its graph, and the whole class against an
    independent enumeration of all trees of cubic and quartic vertices with unbroken fermion lines"""
    s, f = case
    t = topologies()
    data = t.get_topology_data(n_scalars=s, n_fermions=f)
    seen = {}
    for d in data:
        name = os.path.basename(d["partition_file"])
        check(name.startswith(f"{s}s{f}f_"), lambda: f"{name} offered for {s} scalars and {f} fermions")
        key = examine(d["partition"], d["graph"], s, f, name)
        check(key not in seen, lambda: f"{name} and {seen[key]} are the same diagram")
        seen[key] = name
    ref_set = all_topologies(s, f)
    files = [n for n in os.listdir(t.PARTITIONS) if n.startswith(f"{s}s{f}f_")]
    check(len(data) == len(files), lambda: f"{len(data)} topologies returned, {len(files)} shipped")
    check(set(seen) == ref_set, lambda: f"{s}s{f}f: {len(set(seen) - ref_set)} diagrams are not renormalisable trees, {len(ref_set - set(seen))} are missing")
    rec.label(f"{s}s{f}f={len(data)}")


def tree_case():
    """a random tree partition as nested lists of S/F with random labels, and an edge list"""
    leaf = st.sampled_from("SF")
    return st.tuples(
        st.recursive(leaf, lambda c: st.lists(c, min_size=2, max_size=3), max_leaves=10).filter(lambda x: isinstance(x, list)),
        st.sampled_from(["S", "F"]), st.integers(0, 2**30), st.integers(1, 4000),
    ).map(list)


@sub("reading", strategy=tree_case, quick=200, thorough=5000)
def reading(case, rec):
    """the text forms of random trees are read back as the tree that was written"""
    from neutrinomass.completions.topologies import Leaf, eval_graph, eval_partition

    tree, extra, seed, stride = case
    import random

    r = random.Random(seed)
    names = r.sample(range(1, 10**6), 60)
    edges = []

    def write(t):
        n = names.pop()
        if isinstance(t, str):
            return f"{t}({n})", Leaf(t, n), n
        parts = [write(x) for x in t]
        for p in parts:
            edges.append((p[2], n))
        return "List(" + ",".join(p[0] for p in parts) + ")", tuple(p[1] for p in parts), n

    text, want, root = write(tree + [extra])
    r.shuffle(edges)
    lines = "\n".join(f"{a},{b}" if r.random() < 0.5 else f"{b},{a}" for a, b in edges)
    got = eval_partition(text)
    check(got == want, lambda: f"{text} read as {got}")
    check([type(x) for x in leaves_of(got)] == [Leaf] * len(leaves_of(want)), "leaves are not Leaf")
    g = eval_graph(lines)
    check({frozenset(e) for e in g.edges} == {frozenset(e) for e in edges} and len(g.edges) == len(edges), lambda: f"{lines} read as {list(g.edges)}")
    rec.nontrivial(len(edges) > 4)


# ------------------------------------------------------------------ placements


@lru_cache(maxsize=None)
def class_sizes():
    t = topologies()
    return {c: len([n for n in os.listdir(t.PARTITIONS) if n.startswith(f"{c[0]}s{c[1]}f_")]) for c in shipped_classes()}


@lru_cache(maxsize=None)
def data_of(s, f):
    return topologies().get_topology_data(n_scalars=s, n_fermions=f)


SCALARS = ["H", "φ"]
FERMIONS = ["L", "Q", "eb", "ub", "db"]


def placement_case(max_fields=6):
    def pick(c):
        s, f = c
        return st.fixed_dictionaries(
            {
                "class": st.just([s, f]),
                "topology": st.integers(0, 300),
                "scalars": st.lists(st.tuples(st.sampled_from(SCALARS), st.booleans()).map(list), min_size=s, max_size=s),
                "fermions": st.lists(st.tuples(st.sampled_from(FERMIONS[:3]), st.booleans()).map(list), min_size=f, max_size=f),
                "order": st.permutations(range(s + f)),
                "same": st.sampled_from([False, False, True]),
            }
        )

    return st.sampled_from([(4, 0), (2, 2), (0, 4), (1, 4), (3, 2), (4, 2), (2, 4), (0, 6)]).filter(lambda c: sum(c) <= max_fields).flatmap(pick)


def placed_fields(case):
    from neutrinomass.tensormethod.core import Field

    phi = Field("φ", "00000", charges={"y": 0, "3b": 0}, comm=0)
    objs = {**gen.sm_objects(), "φ": phi}
    out = []
    n = 0
    for label, conj in case["scalars"] + case["fermions"]:
        f = objs[label]
        f = f.conj if conj else f
        idx, m = gen.index_string(f.dynkin, 0 if case["same"] else n)
        n = n if case["same"] else m
        out.append(f(idx))
    return [out[i] for i in case["order"]]


def skeleton(p, field_of):
    """partition with every leaf replaced by (what field_of says, node)"""
    from neutrinomass.completions.topologies import Leaf

    if isinstance(p, Leaf):
        return (field_of(p), p.node)
    return tuple(skeleton(x, field_of) for x in p)


def name(f):
    return (f.label, tuple(str(i) for i in f.indices))


@sub("placements", strategy=lambda: placement_case(6), quick=60, thorough=1200, budget=(60, 800))
def placements(case, rec):
    """fields (distinct, repeated or identical) on a shipped topology: the placements against brute-force enumeration;
    non-trivial: more than one placement"""
    from neutrinomass.completions.completions import distribute_fields
    from neutrinomass.completions.topologies import Leaf

    s, f = case["class"]
    data = data_of(s, f)
    top = data[case["topology"] % len(data)]
    fields = placed_fields(case)
    got = distribute_fields(list(fields), top["partition"])
    legs = leaves_of(top["partition"])
    slots = {"S": [l.node for l in legs if l.field == "S"], "F": [l.node for l in legs if l.field == "F"]}
    bosons = [name(x) for x in fields if x.label.rstrip("†") in SCALARS]
    fermions = [name(x) for x in fields if x.label.rstrip("†") not in SCALARS]
    want = set()
    for a in set(itertools.permutations(bosons)):
        for b in set(itertools.permutations(fermions)):
            want.add(frozenset([*zip(slots["S"], a), *zip(slots["F"], b)]))
    shape = skeleton(top["partition"], lambda l: None)
    have = []
    for p in got:
        check(skeleton(p, lambda l: None) == shape, lambda: f"{p} has another shape than {top['partition']}")
        ls = leaves_of(p)
        check(all(isinstance(l, Leaf) for l in ls), "leaf type")
        have.append(frozenset((l.node, name(l.field)) for l in ls))
    dup = [k for k, n in Counter(have).items() if n > 1]
    check(not dup, lambda: f"placement returned {Counter(have)[dup[0]]} times: {sorted(dup[0])}")
    check(set(have) == want, lambda: f"{len(set(have) - want)} wrong and {len(want - set(have))} missing placements of {fields} on {top['partition']}, e.g. missing {[sorted(x) for x in list(want - set(have))[:1]]}, wrong {[sorted(x) for x in list(set(have) - want)[:1]]}")
    rec.label(f"{s}s{f}f")
    rec.nontrivial(len(want) > 1)


@sub("external", strategy=lambda: placement_case(6), quick=120, thorough=2500)
def external(case, rec):
    """labelling the external lines of a graph for one placement; the shared topology graph must not change"""
    from neutrinomass.completions.completions import replace_fields, set_external_fields

    s, f = case["class"]
    data = data_of(s, f)
    top = data[case["topology"] % len(data)]
    case = {**case, "same": False}
    fields = placed_fields(case)
    p = replace_fields(fields, top["partition"])
    ls = leaves_of(p)
    check(Counter(name(l.field) for l in ls) == Counter(map(name, fields)), lambda: f"{fields} placed as {p}")
    numbers = {x: n % 3 for n, x in enumerate(fields)}
    g = set_external_fields(p, top["graph"], numbers)
    check(not any(d for _, _, d in top["graph"].edges(data=True)), "the shared topology graph was labelled")
    check({frozenset(e) for e in g.edges} == {frozenset(e) for e in top["graph"].edges}, "edges changed")
    at = {l.node: l.field for l in ls}
    for a, b, d in g.edges(data=True):
        x = at.get(a) or at.get(b)
        if x is None:
            check(not d, lambda: f"internal line {a, b} is labelled {d}")
        else:
            check(d == {"particle": x.label + str(numbers[x])}, lambda: f"external line of {x} is labelled {d}")


# ------------------------------------------------------------------ partitions of operators


@lru_cache(maxsize=None)
def catalogue():
    from neutrinomass.completions.operators import DERIV_EFF_OPERATORS, EFF_OPERATORS

    return {**EFF_OPERATORS, **DERIV_EFF_OPERATORS}


def small_ops(max_parts):
    """names of catalogue operators that have at most max_parts (topology, placement) pairs"""
    import math

    out = []
    for k, op in catalogue().items():
        c = (op.topology_type["n_scalars"], op.topology_type["n_fermions"])
        if c not in class_sizes():
            continue
        if class_sizes()[c] * math.factorial(c[0]) * math.factorial(c[1]) <= max_parts:
            out.append(k)
    return out


@sub("operators", cases=lambda tier: [[k] for k in small_ops(400 if tier == "quick" else 6000)], quick=1, thorough=1, budget=(60, 800))
def operators(case, rec):
    """partitions of catalogue operators with few placements (exhaustive): every colour structure with every topology
    and placement exactly once, with its labelled diagram"""
    from neutrinomass.completions.completions import partitions
    from neutrinomass.tensormethod.contract import colour_singlets

    op = catalogue()[case[0]]
    c = (op.topology_type["n_scalars"], op.topology_type["n_fermions"])
    n_b = sum(1 for x in op.fields if not x.is_fermion)
    n_f = sum(1 for x in op.fields if x.is_fermion)
    check(c == (n_b, n_f), lambda: f"{case}: topology class {c}, fields {op.fields}")
    parts = partitions(op)
    fields = op.operator.indexed_fields
    names = sorted(map(name, fields))
    bosons = [name(x) for x in fields if not x.is_fermion]
    fermions = [name(x) for x in fields if x.is_fermion]
    n_colour = len({str(sorted(map(str, p["operator"].operator.epsilons))) for p in parts})
    by_top = {}
    for p in parts:
        check(sorted(name(l.field) for l in leaves_of(p["partition"])) == names, lambda: f"{case}: {p['partition']} does not place the fields {names}")
        check(p["epsilons"] == p["operator"].operator.epsilons, "epsilons of another operator")
        check(p["operator"].name == op.name, "name of the operator lost")
        check(sorted(map(name, p["operator"].operator.indexed_fields)) == names, "fields of the operator changed")
        g = p["graph"]
        at = {l.node: l.field for l in leaves_of(p["partition"])}
        for a, b, d in g.edges(data=True):
            x = at.get(a) or at.get(b)
            if x is None:
                check(not d, lambda: f"{case}: internal line labelled {d}")
            else:
                check(list(d) == ["particle"] and re.fullmatch(re.escape(x.label) + r"\d+", d["particle"]), lambda: f"{case}: line of {x} labelled {d}")
        key = (p["topology"], str(sorted(map(str, p["epsilons"]))))
        by_top.setdefault(key, []).append(frozenset((l.node, name(l.field)) for l in leaves_of(p["partition"])))
    data = {os.path.splitext(os.path.basename(d["partition_file"]))[0]: d for d in data_of(*c)}
    check({k[0] for k in by_top} == set(data), lambda: f"{case}: topologies {sorted(k[0] for k in by_top)}")
    check(len(by_top) == len(data) * n_colour, lambda: f"{case}: {len(by_top)} (topology, colour) pairs, expected {len(data)} x {n_colour}")
    for (top, _), have in by_top.items():
        legs = leaves_of(data[top]["partition"])
        slots = {k: [l.node for l in legs if l.field == k] for k in "SF"}
        want = {frozenset([*zip(slots["S"], a), *zip(slots["F"], b)]) for a in itertools.permutations(bosons) for b in itertools.permutations(fermions)}
        check(len(have) == len(want) and set(have) == want, lambda: f"{case}: {len(have)} placements on {top}, expected {len(want)}")
    rec.label(f"{c[0]}s{c[1]}f")
    rec.nontrivial(len(parts) > 1)
