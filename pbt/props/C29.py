"""C29: a tree built with the node constructors is as good as a parsed one."""
from hypothesis import strategies as st

from .. import ref, sut
from ..common import labels, model, valid_cfg
from ..core import Prop, Sub
from ..ref import N
from ..sut import ensure, fp, fv
from . import vcommon as vc
from .C10 import integrity, navigation
from .C21 import render

SCOPE = {s.value: s for s in fp.SimpleWithinScope}


def flagarg(fl, how):
    xs = [sut.FLAGOF[f] for f in sorted(fl)]
    if not xs:
        return [None, set(), [], frozenset()][how % 4]
    return [set(xs), frozenset(xs), xs, xs + xs[:1]][how % 4]


def rebuild(m, loc, how=0):
    """model node -> node made with the public constructors; how: which of the equivalent argument forms are used"""
    if not loc and how % 4 == 3 and m.type == "QuerySequence" and len(m.children) == 1:
        return rebuild(m.children[0], loc, how)
    c = [rebuild(x, loc, how + i) for i, x in enumerate(m.children)]
    a = m.attrs
    k = m.type
    if k == "Expression":
        q = a["qualifier"]
        if q is None:
            q = [None, "", " ", None][how % 4]
        op = sut.OPOF[a["operator"]]
        fl = flagarg(a["flags"], how)
        n = fp.Expression(q, a["identifier"], op, a["regex"], fl) if how % 2 else fp.Expression(
            qualifier=q, identifier=a["identifier"], operator=op, regex=a["regex"], regex_flags=fl)
    elif k == "ExpressionWildcard":
        n = [lambda: fp.ExpressionWildcard(), lambda: fp.ExpressionWildcard([]), lambda: fp.ExpressionWildcard(children=None, child=None)][how % 3]()
    elif k == "SimpleWithin":
        n = fp.SimpleWithin(SCOPE[a["scope"]])
    elif k in ("ExpressionGroup", "ExpressionNot"):
        n = sut.CLASSES[k](c[0]) if how % 2 else sut.CLASSES[k](child=c[0])
    elif k == "QueryWithWithin":
        n = fp.QueryWithWithin(c[0], c[1]) if how % 2 else fp.QueryWithWithin(query=c[0], within=c[1])
    elif k == "QuerySegment":
        n = fp.QuerySegment(c[0], a["min"], a["max"]) if how % 2 else fp.QuerySegment(expression=c[0], min_occurs=a["min"], max_occurs=a["max"])
    elif k == "QueryGroup":
        n = fp.QueryGroup(c[0], a["min"], a["max"]) if how % 2 else fp.QueryGroup(child=c[0], min_occurs=a["min"], max_occurs=a["max"])
    else:
        n = sut.CLASSES[k](c) if how % 2 else sut.CLASSES[k](children=c)
    if loc and m.span is not None:
        n.location = fp.SourceLocation(*m.span)
    return n


def trail(root):
    """what a visitor is shown"""
    out = []

    class V(fp.QueryVisitorAdapter):
        def visitChildren(self, node):
            out.append(sut.snap1(node).key(True)[:3])
            return super().visitChildren(node)

    sut.call("visiting", V().visit, root)
    return out


def judge(root, q, cfg, wae):
    out = []
    for raising in (False, True):
        v = vc.validator(cfg, raise_at_first_violation=raising, warnings_as_errors=wae)
        try:
            r = v.validate(root, query=q)
        except fv.SpecificationValidationError as e:
            r = ("raised", str(e), e.query_fragment, sut.snap(e.node).key(True))
        except Exception as e:
            sut.fail(f"validating {q!r}: {type(e).__name__}: {e}")
        out.append((r, list(v.errors), list(v.warnings), sut.call("is_valid", v.is_valid, root, query=q)))
    return out


def copycheck(case, ctx):
    """the parsed tree, rebuilt node by node, behaves the same in every respect"""
    q, loc = case["q"], case["loc"]
    node = sut.parse_ok(q, case.get("cfg"), loc=loc)
    m = sut.snap(node)
    labels(case, m, ctx)
    ctx.nontrivial("copy loc:%s" % loc)
    how = case["how"]
    twin = sut.call("building a tree", rebuild, m, loc, how - how % 4 if how % 4 == 3 and not loc else how)
    integrity(twin, f"rebuilt {q!r}")
    # positions of `how` vary over children, so single-element sequences may have been dropped
    g, w = ref.collapse(sut.snap(twin)), ref.collapse(m)
    ensure(g.key(True) == w.key(True), lambda: f"rebuilt {q!r}:\n  got  {g.show(True)}\n  want {w.show(True)}")
    if sut.snap(twin).key(True) == m.key(True):
        ctx.label("identical-shape")
        ensure(str(twin) == str(node), lambda: f"{q!r}: parsed and rebuilt tree are rendered differently\n  {node}\n  {twin}")
        ensure(trail(twin) == trail(node), lambda: f"{q!r}: a visitor sees different nodes in the parsed and the rebuilt tree")
    vcfg = {"ids": case["ids"], "quals": case["quals"]}
    ensure(judge(twin, q, vcfg, case["wae"]) == judge(node, q, vcfg, case["wae"]), lambda: f"{q!r} with {vcfg}: parsed and rebuilt tree are judged differently")


def modelcheck(case, ctx):
    """a tree built from the specification of the query, not from its parse"""
    q, loc = case["q"], case["loc"]
    want = model(case)
    labels(case, want, ctx)
    ctx.nontrivial("model loc:%s" % loc)
    node = sut.parse_ok(q, case.get("cfg"), loc=loc)
    built = sut.call("building a tree", rebuild, want, loc, case["how"])
    integrity(built, f"built {q!r}")
    navigation(built, f"built {q!r}")
    g, w = ref.collapse(sut.snap(built)), ref.collapse(want)
    ensure(g.key(loc) == w.key(loc), lambda: f"{q!r} built by hand:\n  built  {g.show(loc)}\n  specified {w.show(loc)}")
    g, w = ref.collapse(sut.snap(built)), ref.collapse(sut.snap(node))
    ensure(g.key(loc) == w.key(loc), lambda: f"{q!r} built and parsed:\n  built  {g.show(loc)}\n  parsed {w.show(loc)}")
    vcfg = {"ids": case["ids"], "quals": case["quals"]}
    ensure(judge(built, q, vcfg, case["wae"]) == judge(node, q, vcfg, case["wae"]), lambda: f"{q!r} with {vcfg}: parsed and built tree are judged differently")


def masked(m, mask):
    """the same tree with the locations of some nodes taken away"""
    it = iter(range(10**9))

    def go(n):
        keep = mask[next(it) % len(mask)]
        return N(n.type, [go(c) for c in n.children], n.span if keep else None, n.attrs)

    return go(m)


def partly(case, ctx):
    """trees of which only some nodes have a location, as when parsed parts are combined by hand"""
    q = case["q"]
    node = sut.parse_ok(q, case.get("cfg"))
    m = masked(sut.snap(node), case["mask"])
    ctx.nontrivial("partly")
    built = sut.call("building a tree", rebuild, m, True, case["how"] - (case["how"] % 4 == 3))
    integrity(built, f"built {q!r}")
    g = sut.snap(built)
    ensure(g.key(True) == m.key(True), lambda: f"{q!r} built with some locations:\n  got  {g.show(True)}\n  want {m.show(True)}")
    ensure(str(built) == render(m), lambda: f"{q!r} with some locations is rendered\n  {built}\n  expected\n  {render(m)}")
    vcfg = {"ids": case["ids"], "quals": case["quals"]}
    a, b = judge(node, q, vcfg, case["wae"])[0], judge(built, q, vcfg, case["wae"])[0]
    short = lambda es: [(e.message, e.type) for e in es]
    ensure((a[0], short(a[1]), short(a[2]), a[3]) == (b[0], short(b[1]), short(b[2]), b[3]), lambda: f"{q!r} with some locations is judged {b}, with all {a}")
    for e in b[1] + b[2]:
        want = q[e.position.start : e.position.stop] if e.position is not None else None
        ensure(e.fragment == want, lambda: f"{q!r} with some locations: issue {e}")


def aliasing(case, ctx):
    """what the caller does afterwards to the collections given to a constructor is the caller's business"""
    a, b, how = case["a"], case["b"], case["how"]
    fl = [sut.FLAGOF[f] for f in a]
    given = set(fl) if how % 2 else list(fl)
    n = sut.call("Expression", fp.Expression, "q", "text", fp.Operator.EQUALS, "x", given)
    want, text = sut.snap1(n).key(), str(n)
    ensure(want == N("Expression", [], None, {"qualifier": "q", "identifier": "text", "operator": "Eq", "regex": "x", "flags": frozenset(a)}).key(), lambda: f"Expression with flags {given} has {n.regex_flags}")
    ctx.nontrivial("aliasing")
    given.clear()
    (given.update if how % 2 else given.extend)([sut.FLAGOF[f] for f in b])
    ensure(sut.snap1(n).key() == want and str(n) == text, lambda: f"changing the collection of flags given to Expression changes it from {text} to {n}")
    twin = fp.Expression("q", "text", fp.Operator.EQUALS, "x", n.regex_flags)
    if n.regex_flags:
        twin.regex_flags.clear()
        ensure(sut.snap1(n).key() == want, lambda: f"two expressions made from the same flags share them")
    cls = [fp.QuerySequence, fp.QueryDisjunction, fp.ExpressionAnd, fp.ExpressionOr][how % 4]
    kids = [fp.Expression(None, i, fp.Operator.EQUALS, "x", None) for i in ("a", "b", "c")][: 1 + how % 3]
    arg = list(kids)
    m = sut.call(cls.__name__, cls, arg)
    arg.reverse()
    arg.append(twin)
    ensure([id(c) for c in m.children] == [id(c) for c in kids], lambda: f"changing the list of children given to {cls.__name__} changes the node")


def both(case, ctx):
    """children and a single child given together, for the classes that take both"""
    kids = [fp.Expression(None, f"k{i}", fp.Operator.EQUALS, "x", None) for i in range(case["n"])]
    last = fp.SimpleWithin(fp.SimpleWithinScope.TEXT) if case["child"] else None
    given = [list(kids), tuple(kids), None][case["form"]] if kids else [None, [], ()][case["form"]]
    if given is None:
        kids = []
    loc = fp.SourceLocation(0, 3) if case["loc"] else None
    if case["cls"] == 0:
        n = sut.call("ExpressionWildcard", fp.ExpressionWildcard, given, last) if case["pos"] else sut.call("ExpressionWildcard", lambda: fp.ExpressionWildcard(child=last, children=given))
    else:
        class Own(fp.QueryNode):
            pass

        n = sut.call("QueryNode", lambda: Own(fp.QueryNodeType.EXPRESSION_AND, children=given, child=last, location=loc))
        ensure(n.location == loc and n.node_type == fp.QueryNodeType.EXPRESSION_AND, "location and type given to the constructor")
    want = kids + ([last] if last is not None else [])
    ctx.nontrivial("both" if kids and last is not None else "one")
    ensure(n.parent is None and list(map(id, n.children)) == list(map(id, want)), lambda: f"children {given} and child {last}: {n.children}")
    ensure(all(c.parent is n for c in want), "parents of the children given")
    if case["cls"] == 0:
        integrity(n, "node with children and child")
        navigation(n, "node with children and child")


INTS = st.one_of(st.integers(-3, 6), st.sampled_from([-1, 0, 1, 255, 2**31, 10**20]))


def verbatim(case, ctx):
    """what is given to a constructor is what the node has, also outside of what the parser would give"""
    kids = [fp.Expression(None, f"k{i}", fp.Operator.EQUALS, "x", None) for i in range(3)]
    for cls, name in ((fp.QuerySegment, "expression"), (fp.QueryGroup, "child")):
        n = sut.call(cls.__name__, lambda: cls(min_occurs=case["min"], max_occurs=case["max"], **{name: kids[0]}))
        ensure((n.min_occurs, n.max_occurs) == (case["min"], case["max"]), lambda: f"{cls.__name__} with bounds {case['min']}, {case['max']} has {n.min_occurs}, {n.max_occurs}")
    order = [kids[i] for i in case["kids"]]
    for cls in (fp.QuerySequence, fp.QueryDisjunction, fp.ExpressionAnd, fp.ExpressionOr):
        n = sut.call(cls.__name__, cls, list(order))
        ensure(list(map(id, n.children)) == list(map(id, order)) and n.child_count == len(order) and all(n.get_child(i) is k for i, k in enumerate(order)), lambda: f"{cls.__name__} of {case['kids']} has {n.child_count} children: {n}")
    ctx.nontrivial("verbatim")


def _case(t):
    return {**t[0], "loc": t[1], "how": t[2], "wae": t[3], **t[4]}


flagsets = st.lists(st.sampled_from(sorted(sut.FLAGOF)), max_size=3, unique=True)
base = st.one_of(valid_cfg(leaves=7, depth=3), vc.vqueries().map(lambda q: {"q": q}))
cases = st.tuples(base, st.booleans(), st.integers(0, 11), st.booleans(), vc.cfgs).map(_case)
PROP = Prop("C29", "every case: a query whose tree is built a second time through the constructors (distinct cases)", [
    Sub("copy", cases, copycheck, 500, 12000),
    Sub("model", cases, modelcheck, 400, 10000),
    Sub("partly", cases.flatmap(lambda c: st.lists(st.booleans(), min_size=1, max_size=7).map(lambda m: {**c, "mask": m})), partly, 250, 6000),
    Sub("both", st.fixed_dictionaries({"n": st.integers(0, 4), "child": st.booleans(), "form": st.integers(0, 2), "loc": st.booleans(), "cls": st.integers(0, 1), "pos": st.booleans()}), both, 40, 400),
    Sub("verbatim", st.fixed_dictionaries({"min": INTS, "max": INTS, "kids": st.lists(st.integers(0, 2), min_size=1, max_size=6)}), verbatim, 80, 1000),
    Sub("aliasing", st.fixed_dictionaries({"a": flagsets, "b": flagsets, "how": st.integers(0, 11)}), aliasing, 80, 1000),
])
