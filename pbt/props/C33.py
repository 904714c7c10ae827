"""C33: queries compose - the tree of a composed query is composed from the trees of its parts (no reference parser involved)."""
from hypothesis import strategies as st

from .. import gen, ref, sut
from ..common import valid
from ..core import Prop, Sub
from ..ref import N
from ..sut import ensure

QUANTS = [("", 1, 1), ("+", 1, -1), ("*", 0, -1), ("?", 0, 1), ("{2}", 2, 2), ("{0,}", 0, -1), ("{ , 3}", 0, 3), ("{1,4}", 1, 4), ("{0}", 0, 0)]


def tree(q):
    return ref.collapse(sut.snap(sut.parse_ok(q, loc=False)))


def shift(n, d):
    return N(n.type, [shift(c, d) for c in n.children], (n.span[0] + d, n.span[1] + d), n.attrs)


def parts_of(n, typ):
    return list(n.children) if n.type == typ else [n]


def same(q, want):
    got = tree(q)
    ensure(got.key() == ref.collapse(want).key(), lambda: f"{q!r}\n  parses to        {got.show()}\n  its parts say    {ref.collapse(want).show()}")


def query(case, ctx):
    """whole queries combined"""
    a, b, op = case["a"], case["b"], case["op"]
    ta, tb = tree(a), tree(b)
    ctx.nontrivial("op:" + op)
    s = case["ws"]
    if op == "or":
        same(f"{a}{s}|{s}{b}", N("QueryDisjunction", parts_of(ta, "QueryDisjunction") + parts_of(tb, "QueryDisjunction")))
    elif op == "seq":
        # alternatives bind weaker: only the last alternative of a and the first of b are joined
        xa, xb = parts_of(ta, "QueryDisjunction"), parts_of(tb, "QueryDisjunction")
        mid = N("QuerySequence", parts_of(xa[-1], "QuerySequence") + parts_of(xb[0], "QuerySequence"))
        alts = xa[:-1] + [mid] + xb[1:]
        same(f"{a} {s}{b}", alts[0] if len(alts) == 1 else N("QueryDisjunction", alts))
    elif op == "group":
        txt, lo, hi = QUANTS[case["n"] % len(QUANTS)]
        same(f"({s}{a}{s}){s}{txt}", N("QueryGroup", [ta], None, {"min": lo, "max": hi}))
    elif op == "within":
        w = sorted(ref.SCOPES)[case["n"] % len(ref.SCOPES)]
        same(f"{a} {s}within {s}{w}", N("QueryWithWithin", [ta, N("SimpleWithin", [], None, {"scope": ref.SCOPES[w]})]))
    elif op == "gseq":
        same(f"({a}){s}({b})", N("QuerySequence", [N("QueryGroup", [ta], None, {"min": 1, "max": 1}), N("QueryGroup", [tb], None, {"min": 1, "max": 1})]))
    elif op == "twice":
        xa = parts_of(ta, "QueryDisjunction")
        same("|".join([a] * (2 + case["n"])), N("QueryDisjunction", xa * (2 + case["n"])))


def inner(e):
    """tree of an expression, obtained as the content of a segment"""
    t = tree(f"[{e}]")
    ensure(t.type == "QuerySegment" and (t.attrs["min"], t.attrs["max"]) == (1, 1), lambda: f"[{e}] parses to {t.show()}")
    return t.children[0]


def expr(case, ctx):
    """expressions combined inside a segment"""
    a, b, op = case["a"], case["b"], case["op"]
    ta, tb = inner(a), inner(b)
    ctx.nontrivial("op:" + op)
    s = case["ws"]

    def is_(e, want):
        got = inner(e)
        ensure(got.key() == want.key(), lambda: f"[{e}]\n  parses to        {got.show()}\n  its parts say    {want.show()}")

    if op == "or":
        is_(f"{a}{s}|{s}{b}", N("ExpressionOr", parts_of(ta, "ExpressionOr") + parts_of(tb, "ExpressionOr")))
    elif op == "and":
        xa, xb = parts_of(ta, "ExpressionOr"), parts_of(tb, "ExpressionOr")
        mid = N("ExpressionAnd", parts_of(xa[-1], "ExpressionAnd") + parts_of(xb[0], "ExpressionAnd"))
        alts = xa[:-1] + [mid] + xb[1:]
        is_(f"{a}{s}&{s}{b}", alts[0] if len(alts) == 1 else N("ExpressionOr", alts))
    elif op == "not":
        # ! takes the first operand only
        alts = parts_of(ta, "ExpressionOr")
        ands = parts_of(alts[0], "ExpressionAnd")
        ands = [N("ExpressionNot", [ands[0]])] + ands[1:]
        first = ands[0] if len(ands) == 1 else N("ExpressionAnd", ands)
        alts = [first] + alts[1:]
        is_(f"!{s}{a}", alts[0] if len(alts) == 1 else N("ExpressionOr", alts))
    elif op == "group":
        is_(f"({s}{a}{s})", N("ExpressionGroup", [ta]))
    elif op == "notgroup":
        is_(f"!({s}{a})", N("ExpressionNot", [N("ExpressionGroup", [ta])]))
    elif op == "segments":
        txt, lo, hi = QUANTS[case["n"] % len(QUANTS)]
        same(f"[{a}]{txt}[{s}{b}]", N("QuerySequence", [N("QuerySegment", [ta], None, {"min": lo, "max": hi}), N("QuerySegment", [tb], None, {"min": 1, "max": 1})]))


def spread(case, ctx):
    """white space put in or changed anywhere between tokens: every location moves with the text in front of it, nothing else changes"""
    g, h = "".join(case["a"]), "".join(case["b"])
    ctx.nontrivial("spread")

    def map_(n):
        return N(n.type, [map_(c) for c in n.children], (starts[n.span[0]], stops[n.span[1]]), n.attrs)

    starts, stops = {}, {}
    pa = pb = 0
    for i, (x, y) in enumerate(zip(case["a"], case["b"])):
        if i % 2:
            starts[pa], stops[pa + len(x)] = pb, pb + len(y)
        pa, pb = pa + len(x), pb + len(y)
    a, b = sut.snap(sut.parse_ok(g)), sut.snap(sut.parse_ok(h))
    for n in a.walk():
        ensure(n.span[0] in starts and n.span[1] in stops, lambda: f"{g!r}: {n.type} at {n.span} does not start and end with tokens")
    ensure(b.key(True) == map_(a).key(True), lambda: f"{g!r} spread to {h!r}:\n  got  {b.show(True)}\n  want {map_(a).show(True)}")


@st.composite
def spread_case(draw):
    """the same tokens with two choices of white space: [ws, token, ws, token, ..., ws]"""
    g = draw(gen.queries(leaves=4, depth=2, rich=0))
    out = []
    for _ in range(2):
        few = draw(st.sampled_from([[" "], ["\n"], [" ", "\n", "\r\n", "\t"], ref.WS_LIST]))
        seq = [draw(st.sampled_from(["", *few]))]
        for t in g.toks:
            seq += [t, draw(st.sampled_from(few)) * draw(st.sampled_from([1, 1, 1, 2, 9]))]
        out.append(seq)
    return {"a": out[0], "b": out[1]}


def moved(case, ctx):
    """the same query further right: every location moves by the same amount, nothing else changes"""
    q, pre, post = case["a"], case["pre"], case["post"]
    a = sut.snap(sut.parse_ok(q))
    b = sut.snap(sut.parse_ok(pre + q + post))
    ctx.nontrivial("moved")
    ensure(b.key(True) == shift(a, len(pre)).key(True), lambda: f"{q!r} after {pre!r}:\n  got  {b.show(True)}\n  want {shift(a, len(pre)).show(True)}")


@st.composite
def exprs(draw):
    """source text of an expression, cut out of a generated segment"""
    g = gen.G(draw, gen.Cfg(leaves=4, depth=2, rich=0))
    g.e_or(2)
    return gen.glue(draw, g.b.toks, draw(st.sampled_from(["none", "space", "mixed"])), edges=False)[0]


qs = valid(large=30, leaves=4, depth=2, rich=0, within=False).map(lambda c: c["q"]).filter(lambda q: not q.rstrip("".join(ref.WS_LIST)).endswith(tuple(ref.SCOPES)) or ref.parse(q).type != "QueryWithWithin")
ws = st.sampled_from(["", " ", "\n", "\t \u3000"])
mk = lambda ops, q: st.fixed_dictionaries({"a": q, "b": q, "op": st.sampled_from(ops), "ws": ws, "n": st.integers(0, 9)})
withins = valid(large=0, leaves=3, depth=1, rich=0).map(lambda c: c["q"])
blank = st.text(st.sampled_from(ref.WS_LIST), max_size=40)
PROP = Prop("C33", "every combination of two parts (distinct combinations)", [
    Sub("query", mk(["or", "seq", "seq", "group", "within", "gseq", "twice"], qs), query, 400, 12000),
    Sub("expr", mk(["or", "and", "and", "not", "group", "notgroup", "segments"], exprs()), expr, 500, 12000),
    Sub("spread", spread_case(), spread, 200, 5000),
    Sub("moved", st.fixed_dictionaries({"a": st.one_of(qs, withins), "pre": blank, "post": blank}), moved, 200, 5000),
], ["trees are compared modulo single-element sequences, which the grammar inserts around group contents and lone alternatives"])
