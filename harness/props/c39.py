"""C39 exported Feynman diagrams"""
import os
import re
import shutil
import subprocess
import tempfile
from collections import Counter
from unittest import mock

import hypothesis.strategies as st

from .. import comps, gen
from ..core import check, must, sub
from . import c10, c11


def line_spec():
    """a particle of the Standard Model or an exotic one of some class, possibly conjugate"""
    sm = st.tuples(st.just("sm"), st.sampled_from(["L", "Q", "ub", "db", "eb", "H"]), st.booleans()).map(list)
    exotic = st.tuples(st.just("x"), c10.case_strategy()).map(list)
    return st.one_of(sm, exotic)


def particle(spec):
    """(the field of the line, its style)"""
    from neutrinomass.completions.core import cons_completion_field
    from neutrinomass.tensormethod import sm

    if spec[0] == "sm":
        f = getattr(sm, spec[1])
        f = (f.conj if spec[2] else f).fresh_indices()
        anti = "anti " if spec[2] else ""
        return f, anti + ("charged scalar" if spec[1] == "H" else "fermion")
    case = {**spec[1], "marker": ""}
    f, _ = c10.indexed(case)
    with must(f"exotic field of {f}"):
        e = cons_completion_field(f)
    if case["lorentz"] == "00":
        return e, "scalar" if c10.real(case) else "charged scalar"
    return e, "majorana" if e.is_conj else "anti majorana"


LINE = re.compile(r"v(\d+) -- \[([a-z ]+), edge label=\$(.*)\$\] v(\d+),")


def graph_case():
    sizes = [c for c in c11.shipped_classes() if 3 <= sum(c) <= 6]
    return st.tuples(
        st.sampled_from(sizes), st.integers(0, 200), st.lists(line_spec(), min_size=1, max_size=5), st.integers(0, 10**6), st.booleans()
    ).map(list)


def drawing(case):
    """(graph with a field on every line, what is to be drawn)"""
    import random

    (s, f), k, specs, seed, flip = case
    data = comps.topology_data(s, f)
    g = data[k % len(data)]["graph"]
    rnd = random.Random(seed)
    out = type(g)()
    want = Counter()
    pool = [particle(x) for x in specs]
    for i, (a, b) in enumerate(sorted(g.edges)):
        p, style = pool[i % len(pool)]
        if rnd.random() < 0.5:
            a, b = b, a
        out.add_edge(a, b, particle=p)
        legs = [n for n in (a, b) if g.degree(n) == 1]
        # a leg points towards the vertex
        ends = (min(a, b), max(a, b)) if legs else frozenset((a, b))
        want[ends, style, p.latex] += 1
    return g, out, want


def read(g, lines):
    got = Counter()
    for l in lines:
        m = LINE.fullmatch(l.strip())
        check(m, lambda: f"line {l!r} of the diagram")
        a, b = int(m[1]), int(m[4])
        leg = any(g.degree(n) == 1 for n in (a, b) if n in g)
        got[(a, b) if leg else frozenset((a, b)), m[2], m[3]] += 1
    return got


@sub("lines", strategy=graph_case, quick=250, thorough=6000, budget=(20, 150))
def lines(case, rec):
    """diagrams of generated fields on the shipped graphs: every line drawn once, between its vertices, in the style of its particle and
    with its name; non-trivial: several kinds of line"""
    from neutrinomass.completions.tikzfeynman import proc_body

    g, out, want = drawing(case)
    rec.nontrivial(len({w[1] for w in want}) > 1)
    for w in want:
        rec.label(w[1])
    with must(f"diagram of {want}"):
        text = proc_body(out)
    got = read(g, text.splitlines())
    check(got == want, lambda: f"drawn {dict(got)}, the graph has {dict(want)}")


def text_of(command):
    return command if isinstance(command, str) else " ".join(map(str, command))


@sub("file", strategy=graph_case, quick=60, thorough=1000, budget=(15, 60))
def file(case, rec):
    """diagrams written to a file in a scratch folder, with the commands recorded instead of run: a complete document with every line of
    the graph; non-trivial: several kinds of line"""
    from neutrinomass.completions import tikzfeynman

    g, out, want = drawing(case)
    rec.nontrivial(len({w[1] for w in want}) > 1)
    folder = tempfile.mkdtemp(prefix="nm-tikz-")
    commands = []
    stands = [mock.patch.object(os, n, lambda c, *a, **k: commands.append(text_of(c)) or 0) for n in ("system", "popen")]
    stands += [mock.patch.object(subprocess, n, lambda c, *a, **k: commands.append(text_of(c)) or mock.MagicMock(returncode=0)) for n in ("run", "call", "check_call", "check_output", "Popen", "getoutput")]
    try:
        for x in stands:
            x.start()
        path = os.path.join(folder, "d.tex")
        with must(f"export of {want}"):
            tikzfeynman.tikz_export(out, path)
        text = open(path, encoding="utf8").read()
    finally:
        for x in stands:
            x.stop()
        shutil.rmtree(folder)
    m = re.search(r"\\begin\{document\}(.*)\\end\{document\}", text, re.S)
    check(m and text.lstrip().startswith("\\documentclass"), lambda: f"document {text!r}")
    m = re.search(r"\\feynmandiagram[^{]*\{(.*)\};", m[1], re.S)
    check(m, lambda: f"document without diagram {text!r}")
    got = read(g, [l for l in m[1].splitlines() if l.strip()])
    check(got == want, lambda: f"drawn {dict(got)}, the graph has {dict(want)}")
    check(any(path in c and "latex" in c for c in commands), lambda: f"commands {commands} do not build {path}")


@sub("vectors", strategy=lambda: st.tuples(graph_case(), st.sampled_from(["Gb", "Wb", "Bb", "G", "W", "B"]), st.integers(0, 50)).map(list), quick=40, thorough=400, budget=(10, 40))
def vectors(case, rec):
    """diagrams with a line that is neither a scalar nor a fermion are refused, not drawn with a meaningless style; always non-trivial"""
    from neutrinomass.completions.tikzfeynman import proc_body
    from neutrinomass.tensormethod import sm

    base, label, k = case
    g, out, _ = drawing(base)
    edges = sorted(out.edges)
    a, b = edges[k % len(edges)]
    out[a][b]["particle"] = getattr(sm, label).fresh_indices()
    rec.nontrivial(True)
    try:
        text = proc_body(out)
    except ValueError:
        return
    check(False, lambda: f"a field strength is drawn: {text}")
