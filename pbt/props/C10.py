"""C10: tree integrity and navigation."""
from hypothesis import strategies as st

from .. import edits, ref, sut
from ..common import labels, model, valid
from ..core import Prop, Sub
from ..sut import ensure, fp

TYPES = list(sut.CLASSES.values()) + [fp.QueryNode]


def integrity(root, what):
    ensure(root.parent is None, lambda: f"{what}: root has a parent")
    seen = set()
    for n in sut.nodes(root):
        ensure(id(n) not in seen, lambda: f"{what}: node shared within the tree")
        seen.add(id(n))
        k = sut.kind(n)
        ensure(n.node_type == sut.NODE_TYPE[k], lambda: f"{what}: {k} has node type {n.node_type!r}")
        for t in fp.QueryNodeType:
            ensure(n.has_node_type(t) is (t == sut.NODE_TYPE[k]), lambda: f"{what}: {k}.has_node_type({t!r}) is {n.has_node_type(t)}")
        for c in n.children:
            ensure(c.parent is n, lambda: f"{what}: parent of {sut.kind(c)} is not the {k} that lists it")


def navigation(root, what):
    for n in sut.nodes(root):
        k = sut.kind(n)
        ch = list(n.children)
        ensure(n.child_count == len(ch), lambda: f"{what}: {k}.child_count {n.child_count} != {len(ch)}")
        used = {type(c) for c in ch} | {sut.CLASSES[sut.kind(c)] for c in ch} | {fp.QueryNode, fp.Expression, fp.QuerySegment}
        for clazz in [None] + sorted(used, key=lambda c: c.__name__):
            sel = [c for c in ch if clazz is None or isinstance(c, clazz)]
            cn = clazz.__name__ if clazz else None
            for i in dict.fromkeys([*range(-2, len(ch) + 3), -len(ch) - 1, -len(ch), 1 - len(ch), -(len(ch) // 2), -3, -10, -120, len(ch) * 2, len(ch) + 10, 1000, -1000, 2**31, 2**63, -(2**63)]):
                want = sel[i] if 0 <= i < len(sel) else None
                got = sut.call(f"{k}.get_child({i}, {cn})", n.get_child, i, clazz) if clazz else sut.call(f"{k}.get_child({i})", n.get_child, i)
                ensure(got is want, lambda: f"{what}: {k}.get_child({i}, {cn}) returned {got}, want {want}")
            for name, want in (("get_first_child", sel[0] if sel else None), ("get_last_child", sel[-1] if sel else None)):
                f = getattr(n, name)
                got = sut.call(f"{k}.{name}({cn})", f, clazz) if clazz else sut.call(f"{k}.{name}()", f)
                ensure(got is want, lambda: f"{what}: {k}.{name}({cn}) returned {got}, want {want}")
        if k in ("ExpressionAnd", "ExpressionOr"):
            ensure([id(c) for c in n.operands] == [id(c) for c in ch], lambda: f"{what}: {k}.operands are not its children")
        elif k == "QuerySegment":
            ensure(n.get_expression() is ch[0], lambda: f"{what}: get_expression()")
        elif k == "QueryGroup":
            ensure(n.get_content() is ch[0], lambda: f"{what}: get_content()")
        elif k == "QueryWithWithin":
            ensure(n.get_query() is ch[0] and n.get_within() is (ch[1] if len(ch) > 1 else None), lambda: f"{what}: get_query()/get_within()")


def arity(n, what):
    """which kinds may sit where"""
    expr = ("Expression", "ExpressionGroup", "ExpressionNot", "ExpressionAnd", "ExpressionOr")
    k, ch = n.type, [c.type for c in n.children]
    ok = {
        "Expression": ch == [], "ExpressionWildcard": ch == [], "SimpleWithin": ch == [],
        "ExpressionGroup": len(ch) == 1 and ch[0] in expr,
        "ExpressionNot": len(ch) == 1 and ch[0] in ("Expression", "ExpressionGroup", "ExpressionNot"),
        "ExpressionAnd": len(ch) >= 2 and all(c in ("Expression", "ExpressionGroup", "ExpressionNot") for c in ch),
        "ExpressionOr": len(ch) >= 2 and all(c in expr and c != "ExpressionOr" for c in ch),
        "QuerySegment": len(ch) == 1 and (ch[0] in expr or ch[0] == "ExpressionWildcard"),
        "QueryGroup": len(ch) == 1 and ch[0] in ("QuerySequence", "QueryDisjunction", "QuerySegment", "QueryGroup"),
        "QuerySequence": len(ch) >= 1 and all(c in ("QuerySegment", "QueryGroup") for c in ch),
        "QueryDisjunction": len(ch) >= 2 and all(c in ("QuerySegment", "QueryGroup", "QuerySequence") for c in ch),
        "QueryWithWithin": len(ch) == 2 and ch[1] == "SimpleWithin" and ch[0] not in expr,
    }[k]
    ensure(ok, lambda: f"{what}: {k} with children {ch}")


def parsed(case, ctx):
    q = case["q"]
    want = model(case)
    labels(case, want, ctx)
    if sum(1 for _ in want.walk()) > 3:
        ctx.nontrivial("parsed")
    node = sut.parse_ok(q, loc=case.get("loc", False))
    integrity(node, repr(q))
    for n in sut.snap(node).walk():
        arity(n, repr(q))
    navigation(node, repr(q))


# ---- trees built by hand, including shapes the grammar never produces

CONT = ["ExpressionAnd", "ExpressionOr", "QueryDisjunction", "QuerySequence", "ExpressionGroup", "ExpressionNot", "QuerySegment", "QueryGroup", "QueryWithWithin"]
leaf = st.sampled_from([["Expression", []], ["ExpressionWildcard", []], ["SimpleWithin", []]])


@st.composite
def trees(draw, depth=3):
    if depth == 0 or draw(st.integers(0, 3)) == 0:
        return draw(leaf)
    k = draw(st.sampled_from(CONT + CONT[:4] * 2))
    n = draw(st.integers(0, 4)) if k in CONT[:4] else (draw(st.integers(1, 2)) if k == "QueryWithWithin" else 1)
    return [k, [draw(trees(depth - 1)) for _ in range(n)]]


def build(t, own=()):
    """the tree of constructor calls; kinds in own are made from subclasses"""
    k, ch = t
    c = [build(x, own) for x in ch]
    cls = {**sut.CLASSES, **{x: sut.SUBCLASSES[x] for x in own}}
    if k == "Expression":
        return cls[k](None, "text", fp.Operator.EQUALS, "a", None)
    if k == "ExpressionWildcard":
        return cls[k]()
    if k == "SimpleWithin":
        return cls[k](fp.SimpleWithinScope.TEXT)
    if k in CONT[:4]:
        return cls[k](c)
    if k in ("QuerySegment", "QueryGroup"):
        return cls[k](c[0], 1, 1)
    if k == "QueryWithWithin":
        return cls[k](c[0], c[1] if len(c) > 1 else None)
    return cls[k](c[0])


def handmade(case, ctx):
    t = case["t"]
    if t[1]:
        ctx.nontrivial("handmade")
    root = sut.call("building a tree", build, t, case["own"])
    integrity(root, "hand-built tree")
    navigation(root, "hand-built tree")

    def shape(n):
        return [sut.kind(n), [shape(c) for c in n.children]]

    ensure(shape(root) == t, lambda: f"hand-built tree {t} came out as {shape(root)}")
    src = [fp.SimpleWithin(fp.SimpleWithinScope.TEXT), fp.ExpressionWildcard()]
    seq = fp.QuerySequence(src)
    src.append(fp.ExpressionWildcard())
    ensure(seq.child_count == 2, "a node's children change when the caller's list changes")


def moved(case, ctx):
    """a node put under a new parent names that parent; children given in both ways keep their order"""
    root = build(case["t"])
    ns = list(sut.nodes(root))
    n = ns[case["i"] % len(ns)]
    m = n
    for k in case["wrap"]:
        old = m.parent
        if k == "both":
            a = fp.ExpressionWildcard()
            w = sut.call("ExpressionWildcard(children=, child=)", lambda: fp.ExpressionWildcard(children=[a], child=m))
            ensure(len(w.children) == 2 and w.children[0] is a and w.children[1] is m and a.parent is w, "children and child given: the child comes last")
        elif k == "child":
            w = fp.ExpressionWildcard(child=m)
            ensure(list(w.children) == [m], "a single child given")
        elif k in CONT[:4]:
            w = sut.CLASSES[k]([m])
        elif k in ("QuerySegment", "QueryGroup"):
            w = sut.CLASSES[k](m, 1, 1)
        elif k == "within":
            w = fp.QueryWithWithin(fp.ExpressionWildcard(), m)
        elif k == "QueryWithWithin":
            w = fp.QueryWithWithin(m, None)
        else:
            w = sut.CLASSES[k](m)
        ensure(m.parent is w, lambda: f"after {case['wrap']} the parent of the {sut.kind(m)} is {'the old one' if m.parent is old else m.parent}")
        m = w
    ctx.nontrivial("moved")
    integrity(m, "re-parented tree")
    navigation(m, "re-parented tree")


def edited(case, ctx):
    """children are looked up in the list as it is now, however often it was looked at before"""
    root = sut.parse_ok(case["q"]) if "q" in case else build(case["t"])
    navigation(root, "tree before editing")
    for op in case["ops"]:
        if edits.apply(root, [op]):
            ctx.nontrivial("edited:" + op[1])
        integrity(root, f"{case.get('q')!r} edited by {case['ops']}")
        navigation(root, f"{case.get('q')!r} edited by {case['ops']}")


own_kinds = st.one_of(st.just([]), st.just(sorted(sut.CLASSES)), st.lists(st.sampled_from(sorted(sut.CLASSES)), max_size=4, unique=True))
with_loc = st.tuples(valid(leaves=7, depth=3, rich=0), st.booleans()).map(lambda t: {**t[0], "loc": t[1]})
PROP = Prop("C10", "tree with more than three nodes, or hand-built tree with at least one child (distinct cases)", [
    Sub("parsed", with_loc, parsed, 300, 8000),
    Sub("edited", st.tuples(valid(leaves=6, depth=2, rich=0), edits.ops).map(lambda t: {"q": t[0]["q"], "ops": t[1]}), edited, 120, 3000),
    Sub("moved", st.fixed_dictionaries({"t": trees(), "i": st.integers(0, 20), "wrap": st.lists(st.sampled_from(CONT + ["both", "child", "within"]), min_size=1, max_size=4)}), moved, 200, 5000),
    Sub("handmade", st.tuples(trees(), own_kinds).map(lambda t: {"t": t[0], "own": t[1]}), handmade, 400, 12000),
])
