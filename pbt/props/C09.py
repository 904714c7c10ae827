"""C09: source locations."""
from hypothesis import strategies as st

from .. import ref, sut
from ..common import labels, model, valid
from ..core import Prop, Sub
from ..sut import ensure, fcsql, fp
from antlr4 import ParserRuleContext, Token
from antlr4.tree.Tree import TerminalNode  # noqa: E402 (on the path once sut is there)


def spans(n):
    return [(x.type, x.span) for x in n.walk()]


def check(case, ctx):
    q = case["q"]
    want = model(case)
    labels(case, want, ctx)
    ctx.nontrivial("nt:nonascii" if any(ord(c) > 127 for c in q) else "nt")
    node = sut.parse_ok(q, loc=True)
    raw = sut.snap(node)
    got = ref.collapse(raw)
    ensure(spans(got) == spans(want), lambda: "locations of %r:\n  got  %s\n  want %s" % (q, *diff(spans(got), spans(want))))
    for n in raw.walk():
        ensure(n.span is not None, lambda: f"{q!r}: {n.type} has no location")
        a, b = n.span
        ensure(0 <= a < b <= len(q), lambda: f"{q!r}: {n.type} location {a}:{b} outside the query")
        ensure(q[a] not in ref.WS and q[b - 1] not in ref.WS, lambda: f"{q!r}: {n.type} location {a}:{b} includes outer white space")
        pos = a
        for c in n.children:
            ensure(c.span is not None and pos <= c.span[0] and c.span[1] <= b, lambda: f"{q!r}: child {c.type}{c.span} of {n.type}{n.span} misplaced")
            pos = c.span[1]
    ensure(sut.snap(sut.call("parse", fcsql.parse, q)).key(True) == raw.key(True), lambda: f"parse({q!r}) without arguments does not report the same locations")


def diff(a, b):
    d = [(x, y) for x, y in zip(a, b) if x != y]
    return (d[0] if d else (len(a), len(b)))


def off(case, ctx):
    """switching locations off removes them and changes nothing else"""
    q = case["q"]
    ctx.nontrivial()
    on = sut.snap(sut.parse_ok(q, loc=True))
    node = sut.call("parse", fcsql.parse, q, enableSourceLocations=False)
    offs = [sut.snap(node), sut.snap(sut.call("parse", fp.QueryParser().parse, q))]
    for o in offs:
        ensure(all(n.span is None for n in o.walk()), lambda: f"{q!r}: locations reported although switched off: {o.show(True)}")
        ensure(o.key() == on.key(), lambda: f"{q!r}: tree depends on locations:\n  on  {on.show()}\n  off {o.show()}")
    p = fp.QueryParser(enableSourceLocations=True)
    p.enableSourceLocations = case["flip"]
    n, _ = sut.try_parse(q, p=p)
    ensure((n.location is not None) == case["flip"], lambda: f"{q!r}: location switch ignored")


def reparse(case, ctx):
    """the text a node points to is, on its own, a query for the same subtree"""
    q = case["q"]
    node = sut.parse_ok(q, loc=True)
    k = 0
    for n in sut.nodes(node):
        t = sut.kind(n)
        text = q[n.location.start : n.location.stop]
        if t == "SimpleWithin":
            ensure(ref.SCOPES.get(text) == n.scope.value, lambda: f"{q!r}: scope text {text!r} does not spell {n.scope}")
            continue
        if t == "ExpressionWildcard":
            ensure(text[:1] == "[" and text[-1:] == "]", lambda: f"{q!r}: wildcard text {text!r}")
            continue
        if t == "Expression" and text[:1] in "'\"" or t.startswith("Query"):
            sub, wrap = text, False
        else:
            sub, wrap = f"[{text}]", True
        m, exc = sut.try_parse(sub, loc=True)
        ensure(m is not None, lambda: f"{q!r}: text {text!r} of {t} is no query of its own: {exc}")
        a, b = ref.collapse(sut.snap(m)), ref.collapse(sut.snap(n))
        if wrap or t == "Expression":
            a = a.children[0]
        shift(b, -n.location.start + (1 if wrap else 0))
        ensure(a.key(True) == b.key(True), lambda: f"{q!r}: {t} at {n.location} reads {text!r}, which parses as\n  {a.show(True)}\n  instead of {b.show(True)}")
        k += 1
    if k > 2:
        ctx.nontrivial()
    ctx.label("subtrees:%s" % ("1-3" if k < 4 else "4-8" if k < 9 else "9+"))


def shift(n, d):
    for x in n.walk():
        x.span = (x.span[0] + d, x.span[1] + d)


with_flip = st.tuples(valid(leaves=5, depth=2, rich=1), st.booleans()).map(lambda t: {**t[0], "flip": t[1]})

def helpers(case, ctx):
    """SourceLocation.fromContext / fromToken: the range of any context and token of the low-level parse, none where there is no position"""
    q, SL = case["q"], fp.SourceLocation
    tree = sut.call("antlr_parse", fcsql.antlr_parse, q)
    todo, n = [tree], 0
    while todo:
        c = todo.pop()
        n += 1
        if isinstance(c, TerminalNode):
            t = c.symbol
            got, want = sut.call("fromToken", SL.fromToken, t), (t.start, t.stop + 1)
            ensure(t.type == Token.EOF or q[want[0]:want[1]] == t.text, lambda: f"{q!r}: token {t} is not at its place")
        else:
            got, want = sut.call("fromContext", SL.fromContext, c), (c.start.start, c.stop.stop + 1)
            todo.extend(c.children)
        ensure(isinstance(got, SL) and (got.start, got.stop) == want, lambda: f"{q!r}: location of {type(c).__name__} {c.getText()!r} is {got!r}, expected {want}")
        ensure(str(got) == "%d:%d" % want, lambda: f"str({got!r}) is {str(got)!r}")
    ctx.nontrivial("helpers:%d" % min(n // 20, 10))
    bare = ParserRuleContext()
    bare.start = tree.start if case["half"] == "start" else None
    bare.stop = tree.stop if case["half"] == "stop" else None
    ensure(sut.call("fromContext", SL.fromContext, None) is None and sut.call("fromContext", SL.fromContext, bare) is None,
           lambda: f"context without {case['half']} token: {SL.fromContext(bare)!r}")
    tok = tree.start.clone()
    tok.start, tok.stop = case["unset"]
    ensure(sut.call("fromToken", SL.fromToken, tok) is None, lambda: f"token with start, stop {case['unset']}: {SL.fromToken(tok)!r}")


half_case = st.tuples(valid(leaves=5, depth=2, rich=1), st.sampled_from(["start", "stop", "no"]), st.sampled_from([[None, None], [None, 3], [-1, -1], [-1, 4], [3, None], [5, -1]])).map(
    lambda t: {"q": t[0]["q"], "half": t[1], "unset": t[2]})

PROP = Prop("C09", "every valid query has locations; reparse counts queries with more than two subtrees (distinct query texts)", [
    Sub("spans", valid(leaves=7, depth=3, rich=1), check, 400, 10000),
    Sub("spans-rich", valid(leaves=3, depth=2, rich=2), check, 200, 6000),
    Sub("helpers", half_case, helpers, 150, 3000),
    Sub("off", with_flip, off, 200, 4000),
    Sub("reparse", valid(large=0, leaves=4, depth=2, rich=1, nots=2), reparse, 150, 4000),
], ["offsets are counted in characters of the query string"])
