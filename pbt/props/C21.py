"""C21: text rendering of trees."""
from hypothesis import strategies as st

from .. import edits, gen, ref, sut
from ..common import labels, model, valid_cfg
from ..core import Prop, Sub
from ..sut import ensure, fp

NAME = {"Expression": "Expression", "ExpressionWildcard": "Wildcard", "ExpressionGroup": "Group", "ExpressionNot": "Not", "ExpressionAnd": "And", "ExpressionOr": "Or"}


def render(n):
    """reference printer over model nodes"""
    k, a = n.type, n.attrs
    at = f"@{n.span[0]}:{n.span[1]}" if n.span is not None else ""
    name = NAME.get(k, k)
    if k == "Expression":
        rx = a["regex"].replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t")
        fl = a["flags"]
        f = "/" + "".join(c for c, x in (("i", "ci"), ("I", "cs"), ("l", "lit"), ("d", "dia")) if x in fl) if fl else ""
        q = f"{a['qualifier']}:" if a["qualifier"] else ""
        return f'({name} {q}{a["identifier"]} {a["operator"]} "{rx}"{f}){at}'
    if k == "SimpleWithin":
        return f"({name} {a['scope']}){at}"
    ch = " ".join(render(c) for c in n.children)
    if k in ("QuerySegment", "QueryGroup"):
        b = "".join(f"@{w}={'*' if v == -1 else v} " for w, v in (("min", a["min"]), ("max", a["max"])) if v != 1)
        return f"({name} {b}{ch}){at}"
    return f"({name}{' ' + ch if ch else ''}){at}"


def check(case, ctx):
    q = case["q"]
    labels(case, model(case), ctx)
    node = sut.parse_ok(q, case["cfg"], loc=case["loc"])
    ctx.nontrivial("loc:%s" % case["loc"])
    for n in sut.nodes(node):
        want = render(sut.snap(n))
        got = sut.call("str()", str, n)
        ensure(got == want, lambda: f"str of {sut.kind(n)} in {q!r}:\n  got  {got}\n  want {want}")


def model_text(case, ctx):
    """rendering of the whole tree against the independently computed tree (modulo single-element sequences)"""
    q = case["q"]
    want = model(case)
    node = sut.parse_ok(q, case["cfg"], loc=False)
    s = sut.call("str()", str, node)
    if any(n.type == "Expression" and ("(" in n.attrs["regex"] or ")" in n.attrs["regex"] or '"' in n.attrs["regex"]) for n in want.walk()):
        return
    raw = sut.snap(node)
    if raw.key() != ref.collapse(raw).key():
        return
    w = ref.N(want.type, want.children, None, want.attrs)
    for x in w.walk():
        x.span = None
    ctx.nontrivial("model")
    ensure(s == render(w), lambda: f"{q!r} renders as\n  {s}\n  expected {render(w)}")


long_text = st.tuples(st.sampled_from(["a", "ab", "\u00e4", "\n", "x\t", "(", "\\.", " a"]), st.one_of(st.sampled_from(gen.SIZES + gen.HUGE), st.sampled_from([1500, 2000, 2047, 2048, 4000, 4095, 4096, 5000, 8192, 10000, 65535, 65536, 70000])), st.text(alphabet="ab\n", max_size=2)).map(lambda t: t[0] * t[1] + t[2])
long_name = st.tuples(st.sampled_from(["a", "Ab", "x-a", "a1"]), st.sampled_from(gen.SIZES + gen.HUGE + [4096, 5000])).map(lambda t: t[0] * t[1])
expr = st.fixed_dictionaries({
    "qualifier": st.one_of(st.none(), st.just(""), st.just(" "), gen.ident, gen.ident, long_name), "identifier": st.one_of(gen.ident, gen.ident, gen.ident, gen.ident, long_name), "operator": st.sampled_from(["Eq", "Ne"]),
    "regex": st.one_of(gen.SAFE_TEXT, gen.SAFE_TEXT, st.text(alphabet="a\n\r\t\\\"' ü", max_size=8), st.text(alphabet="a\n\r\t\\\"' ü", max_size=8), long_text), "flags": st.lists(st.sampled_from(["ci", "cs", "lit", "dia"]), unique=True)})
hand = st.fixed_dictionaries({"e": expr, "min": st.sampled_from([0, 1, 2, -1, 7]), "max": st.sampled_from([0, 1, 2, -1, 9]), "shape": st.sampled_from(["segment", "group", "not", "egroup", "and", "within", "seq", "bare"]),
                              "loc": st.one_of(st.none(), st.tuples(st.integers(0, 9), st.integers(0, 99)).map(list))})


def handmade(case, ctx):
    e = case["e"]
    x = fp.Expression(e["qualifier"], e["identifier"], sut.OPOF[e["operator"]], e["regex"], {sut.FLAGOF[f] for f in e["flags"]} or None)
    sh = case["shape"]
    if sh in ("segment", "group", "within", "seq"):
        n = (fp.QueryGroup if sh == "group" else fp.QuerySegment)(x, case["min"], case["max"])
        if sh == "within":
            n = fp.QueryWithWithin(n, fp.SimpleWithin(fp.SimpleWithinScope.TURN))
        elif sh == "seq":
            n = fp.QuerySequence([n, fp.QuerySegment(fp.ExpressionWildcard(), 0, 1)])
    else:
        n = {"not": lambda: fp.ExpressionNot(x), "egroup": lambda: fp.ExpressionGroup(x), "and": lambda: fp.ExpressionAnd([x, fp.ExpressionOr([])]), "bare": lambda: x}[sh]()
    if case["loc"]:
        n.location = fp.SourceLocation(*case["loc"])
        ensure(str(n.location) == f"{case['loc'][0]}:{case['loc'][1]}", "str(SourceLocation)")
    ctx.nontrivial("handmade:" + sh)
    got = sut.call("str()", str, n)
    want = render(sut.snap(n))
    ensure(got == want, lambda: f"hand-built {sh}: {got!r}, expected {want!r}")


def odd_tree(case, ctx):
    """any nesting of any kinds, dressed up with generated attributes and places"""
    from .C10 import build

    root = sut.call("building a tree", build, case["t"])
    e, picks = case["e"], case["picks"]
    for i, n in enumerate(sut.nodes(root)):
        p = picks[i % len(picks)]
        if sut.kind(n) == "Expression" and p % 3:
            n.qualifier, n.identifier, n.operator, n.regex = (None if p % 2 else "q%d" % p), e["identifier"], sut.OPOF[e["operator"]], e["regex"]
            n.regex_flags = {sut.FLAGOF[f] for f in e["flags"]} or None
        elif sut.kind(n) == "SimpleWithin":
            n.scope = list(fp.SimpleWithinScope)[p % 6]
        elif sut.kind(n) in ("QuerySegment", "QueryGroup"):
            n.min_occurs, n.max_occurs = [(1, 1), (0, 1), (0, -1), (1, -1), (2, 7), (0, 0), (-1, -1)][p % 7]
        if p % 4 == 1:
            n.location = fp.SourceLocation(p, p + i)
    ctx.nontrivial("odd:%d" % min(len(list(sut.nodes(root))), 9))
    for n in sut.nodes(root):
        want = render(sut.snap(n))
        got = sut.call("str()", str, n)
        ensure(got == want, lambda: f"{sut.kind(n)} in hand-built {case['t']}: {got!r}, expected {want!r}")


def again(case, ctx):
    """equal trees render equally and rendering has no effect on the tree"""
    q = case["q"]
    a, b = sut.parse_ok(q, case["cfg"]), sut.parse_ok(q, case["cfg"])
    k = (sut.snap(a).key(True), sut.anatomy(a))
    s1, s2, s3 = str(a), str(a), str(b)
    ctx.nontrivial("again")
    ensure(s1 == s2 == s3 and (sut.snap(a).key(True), sut.anatomy(a)) == k, lambda: f"{q!r}: rendering is not repeatable")


def edited(case, ctx):
    """the text shows the tree as it is at the time"""
    root = sut.parse_ok(case["q"], case["cfg"], loc=case["loc"])
    for op in [None] + case["ops"]:
        if op and edits.apply(root, [op]):
            ctx.nontrivial("edited:" + op[1])
        for n in sut.nodes(root):
            want = render(sut.snap(n))
            got = sut.call("str()", str, n)
            ensure(got == want, lambda: f"str of {sut.kind(n)} in {case['q']!r} edited by {case['ops']}:\n  got  {got}\n  want {want}")


with_loc = st.tuples(valid_cfg(leaves=6, depth=3, rich=1), st.booleans()).map(lambda t: {**t[0], "loc": t[1]})
PROP = Prop("C21", "every rendered tree counts (distinct cases)", [
    Sub("parsed", with_loc, check, 300, 8000),
    Sub("model", valid_cfg(leaves=6, depth=2, rich=1), model_text, 200, 5000),
    Sub("handmade", hand, handmade, 600, 12000),
    Sub("odd", st.fixed_dictionaries({"t": st.deferred(lambda: __import__("pbt.props.C10", fromlist=["trees"]).trees()), "e": expr, "picks": st.lists(st.integers(0, 90), min_size=1, max_size=9)}), odd_tree, 250, 5000),
    Sub("edited", st.tuples(with_loc, edits.ops).map(lambda t: {**t[0], "ops": t[1]}), edited, 100, 2500),
    Sub("again", valid_cfg(leaves=5, depth=2, rich=1), again, 80, 1500),
])
