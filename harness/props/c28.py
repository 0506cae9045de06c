"""C28 pattern matching"""
import copy

import hypothesis.strategies as st

from .. import boot
from ..core import check, sub

NAMES = ["?x", "?y", "?z", "?", "?xy"]


# JSON turns tuples into lists: tuples are written ["t", ...], lists ["l", ...], other values ["v", value]


def decode(x):
    kind, *rest = x
    if kind == "t":
        return tuple(map(decode, rest))
    if kind == "l":
        return list(map(decode, rest))
    if kind == "n":
        import sympy

        return sympy.Symbol(rest[0])
    return rest[0]


def constant():
    return st.one_of(
        st.integers(-2, 3), st.booleans(), st.none(), st.sampled_from(["", "a", "b", "x", "L", "a?x", " ?x"]), st.sampled_from([0.5, 2.0])
    ).map(lambda v: ["v", v]) | st.sampled_from(["p", "q"]).map(lambda s: ["n", s])


def nested(leaf):
    return st.recursive(leaf, lambda s: st.tuples(st.sampled_from("tl"), st.lists(s, max_size=4)).map(lambda t: [t[0], *t[1]]), max_leaves=10)


def variable():
    return st.sampled_from(NAMES).map(lambda v: ["v", v])


def is_var(p):
    return isinstance(p, str) and p.startswith("?")


def reference(pattern, data, frame):
    """the assignment, or None"""
    if is_var(pattern):
        if pattern in frame:
            return frame if same(frame[pattern], data) else None
        return {**frame, pattern: data}
    if isinstance(pattern, (list, tuple)):
        if type(pattern) is not type(data) or len(pattern) != len(data):
            return None
        for p, d in zip(pattern, data):
            frame = reference(p, d, frame)
            if frame is None:
                return None
        return frame
    return frame if same(pattern, data) else None


def same(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
    return bool(a == b)


def substitute(pattern, values):
    if is_var(pattern):
        return values[pattern]
    if isinstance(pattern, (list, tuple)):
        return type(pattern)(substitute(p, values) for p in pattern)
    return pattern


def variables(pattern):
    if is_var(pattern):
        return {pattern}
    if isinstance(pattern, (list, tuple)):
        return set().union(*map(variables, pattern))
    return set()


def call(fn, *args):
    try:
        return fn(*args)
    except Exception as e:
        check(False, lambda: f"{fn.__name__}{args} raises {type(e).__name__}: {e}")


def check_match(pattern, data, frame):
    from neutrinomass.utils import match as M

    held = copy.deepcopy((pattern, data, frame))
    want = reference(pattern, data, frame)
    got = call(M.pattern_match, pattern, data, frame)
    show = lambda what, x: f"{what} of {pattern} against {data} with {frame}: {x}, should be {'no match' if want is None else want}"
    result = lambda x: x is False if want is None else isinstance(x, dict) and x == want
    check(result(got), lambda: show("match", got))
    if not frame:
        got = call(M.pmatch, pattern, data)
        check(result(got), lambda: show("pmatch", got))
        got = call(M.is_match, pattern, data)
        check(got is (want is not None), lambda: show("is_match", got))
    check(held == (pattern, data, frame), lambda: f"matching changed {held} to {(pattern, data, frame)}")
    check(call(M.pattern_match, pattern, data, False) is False, "a failed match continues")
    return want


def frames():
    return st.dictionaries(st.sampled_from(NAMES), nested(constant()), max_size=2)


def filled_case():
    return st.tuples(nested(st.one_of(constant(), variable(), variable())), st.lists(nested(constant()), min_size=5, max_size=5), frames(), st.integers(0, 3)).map(list)


@sub("filled", strategy=filled_case, quick=1500, thorough=80000, budget=(30, 500))
def filled(case, rec):
    """patterns filled in with values match with exactly these values; given other values beforehand they match only if these agree;
    non-trivial: a variable occurs"""
    boot.load_package()
    pattern, values, frame, kind = case
    pattern = decode(pattern)
    values = dict(zip(NAMES, map(decode, values)))
    frame = {k: decode(v) for k, v in frame.items()}
    data = substitute(pattern, values)
    free = variables(pattern)
    rec.nontrivial(bool(free))
    want = check_match(pattern, data, {})
    check(want == {k: values[k] for k in free}, "reference matcher")
    if kind == 0:
        # what is given beforehand agrees
        frame = {k: values[k] for k in frame}
    check_match(pattern, data, frame)


@sub("free", strategy=lambda: st.tuples(nested(st.one_of(constant(), variable())), nested(constant()), frames()).map(list), quick=1500, thorough=80000, budget=(30, 500))
def free(case, rec):
    """patterns and data generated independently, and parts of the data replaced; non-trivial: both are collections"""
    boot.load_package()
    pattern, data, frame = case
    pattern, data, frame = decode(pattern), decode(data), {k: decode(v) for k, v in frame.items()}
    rec.nontrivial(isinstance(pattern, (list, tuple)) and isinstance(data, (list, tuple)))
    check_match(pattern, data, {})
    check_match(pattern, data, frame)


@sub(
    "edited",
    strategy=lambda: st.tuples(filled_case(), st.lists(st.integers(0, 3), max_size=4), nested(constant()), st.sampled_from(["replace", "drop", "add", "swap", "type"])).map(list),
    quick=1500, thorough=80000, budget=(30, 500),
)
def edited(case, rec):
    """a pattern filled in with values and then changed in one place: replaced, dropped, added, swapped or of another collection type;
    non-trivial: the pattern has a variable twice or no longer matches"""
    boot.load_package()
    (pattern, values, frame, _), path, new, how = case
    pattern, new = decode(pattern), decode(new)
    data = substitute(pattern, dict(zip(NAMES, map(decode, values))))

    def edit(x, path):
        if isinstance(x, (list, tuple)) and x and path:
            k = path[0] % len(x)
            return type(x)([edit(y, path[1:]) if n == k else y for n, y in enumerate(x)])
        if isinstance(x, (list, tuple)) and how != "replace":
            xs = list(x)
            if how == "drop":
                xs = xs[:-1]
            elif how == "add":
                xs = xs + [new]
            elif how == "swap":
                xs = xs[::-1]
            else:
                return tuple(xs) if isinstance(x, list) else xs
            return type(x)(xs)
        return new

    data = edit(data, path)
    rec.nontrivial(check_match(pattern, data, {}) is None)
    check_match(pattern, data, {k: decode(v) for k, v in frame.items()})
