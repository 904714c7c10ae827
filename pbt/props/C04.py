"""C04: repetition bounds."""
from hypothesis import strategies as st

from .. import gen, ref, sut
from ..common import labels, model, valid
from ..core import Prop, Sub
from ..sut import ensure, fp


def bounds(n):
    return [(x.type, x.attrs["min"], x.attrs["max"]) for x in n.walk() if "min" in x.attrs]


def check(case, ctx):
    q = case["q"]
    want = model(case)
    labels(case, want, ctx)
    got = sut.snap(sut.parse_ok(q, loc=False))
    if any(b[1:] != (1, 1) for b in bounds(want)):
        ctx.nontrivial("nt")
    ensure(bounds(got) == bounds(want), lambda: f"repetition bounds of {q!r}: got {bounds(got)}, want {bounds(want)}")
    for _, lo, hi in bounds(got):
        ensure(type(lo) is int and type(hi) is int and lo >= 0 and (hi == fp.OCCURS_UNBOUNDED or lo <= hi), lambda: f"{q!r}: bounds {lo},{hi}")


def direct(case, ctx):
    """one element with one quantifier, spelled out; expectation known by construction"""
    q, lo, hi = case["q"], case["lo"], case["hi"]
    ctx.label("form:" + case["form"])
    ctx.nontrivial("big" if max(lo, hi) > 1000 else "small")
    node, exc = sut.try_parse(q, loc=case["loc"])
    if hi != ref.UNBOUNDED and lo > hi:
        ctx.label("reversed")
        ensure(node is None, lambda: f"{q!r}: range with min {lo} > max {hi} was accepted")
        ensure(fcsql_can(q) is False, lambda: f"can_parse({q!r}) accepts a reversed range")
        return
    ensure(node is not None, lambda: f"{q!r}: rejected ({exc})")
    n = node
    while not hasattr(n, "min_occurs") or sut.kind(n) != case["kind"]:
        ensure(n.child_count > 0, lambda: f"{q!r}: no {case['kind']} found")
        n = n.children[0]
    ensure((n.min_occurs, n.max_occurs) == (lo, hi), lambda: f"{q!r}: got ({n.min_occurs}, {n.max_occurs}), want ({lo}, {hi})")


def fcsql_can(q):
    return sut.call("can_parse", sut.fcsql.can_parse, q)


@st.composite
def direct_case(draw):
    big = st.one_of(st.integers(0, 20), st.integers(0, 20), st.integers(0, 10**6), st.integers(0, 10**40))
    z = lambda n: "0" * draw(st.sampled_from([0, 0, 0, 1, 2, 5])) + str(n)
    form = draw(st.sampled_from(["", "+", "*", "?", "n", "n,", ",n", "n,m", "n,m", "eq"]))
    w = lambda: draw(st.sampled_from(["", "", " ", "\n", "\t "]))
    a, b = draw(big), draw(big)
    if form == "":
        t, lo, hi = "", 1, 1
    elif form in "+*?":
        t = form
        lo, hi = {"+": (1, -1), "*": (0, -1), "?": (0, 1)}[form]
    elif form == "n":
        t, lo, hi = f"{{{w()}{z(a)}{w()}}}", a, a
    elif form == "n,":
        t, lo, hi = f"{{{w()}{z(a)}{w()},{w()}}}", a, -1
    elif form == ",n":
        t, lo, hi = f"{{{w()},{w()}{z(a)}{w()}}}", 0, a
    else:
        if form == "eq":
            b = draw(st.sampled_from([a, a + 1, max(0, a - 1)]))
        t, lo, hi = f"{{{w()}{z(a)}{w()},{w()}{z(b)}{w()}}}", a, b
    el, kind = draw(st.sampled_from([('"a"', "QuerySegment"), ("[]", "QuerySegment"), ("[pos='N' & !x=\"y\"]", "QuerySegment"),
                                     ('("a" "b")', "QueryGroup"), ('("a"|"b")', "QueryGroup"), ('([]{2,3})', "QueryGroup"), ("'a'/i", "QuerySegment")]))
    tail = draw(st.sampled_from(["", " within s", ' "z"', ' | []']))
    return {"q": el + w() + t + tail, "lo": lo, "hi": hi, "form": form, "kind": kind, "loc": draw(st.booleans())}


PROP = Prop("C04", "query with at least one quantifier other than the implicit 1..1 (distinct query texts)", [
    Sub("tree", valid(leaves=8, depth=3, rich=0), check, 500, 12000),
    Sub("direct", direct_case(), direct, 900, 30000),
], ["bounds up to 10^40; Python's own limit on the number of digits of an integer literal (4300) is not approached"])
