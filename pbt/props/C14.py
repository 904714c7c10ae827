"""C14: visitor traversal, dispatch and result aggregation."""
from hypothesis import strategies as st

from .. import edits, sut
from ..common import labels, model, valid
from ..core import Prop, Sub
from ..sut import ensure, fp, fv
from .C10 import build, own_kinds, trees as narrow

NAMES = ["Expression", "ExpressionWildcard", "ExpressionGroup", "ExpressionNot", "ExpressionAnd", "ExpressionOr", "QueryDisjunction",
         "QuerySequence", "QueryWithWithin", "QuerySegment", "QueryGroup", "SimpleWithin"]


def make(base, handled, log, stop=(), **ns):
    """A visitor class with logging handlers for some node kinds."""
    def handler(name):
        def h(self, node):
            log.append((name, node))
            return None if name in stop else self.visitChildren(node)
        return h
    d = {"visit_" + k: handler(k) for k in handled}
    d.update(ns)
    return type("V", (base,), d)()


def preorder(n, stop=()):
    yield n
    if sut.kind(n) not in stop:
        for c in n.children:
            yield from preorder(c, stop)


def traverse(root, case, ctx, what):
    handled, stop = set(case["handled"]), set(case["stop"]) & set(case["handled"])
    before = sut.anatomy(root)
    for base in (fp.QueryVisitorAdapter, fp.QueryVisitor):
        for start in ("visit", "accept"):
            log = []
            v = make(base, handled, log, stop)
            sut.call(f"{what}: {start}", (lambda: v.visit(root)) if start == "visit" else (lambda: root.accept(v)))
            want = [(sut.kind(n), id(n)) for n in preorder(root, stop) if sut.kind(n) in handled]
            got = [(k, id(n)) for k, n in log]
            ensure(got == want, lambda: f"{what}: {base.__name__} with handlers {sorted(handled)} called {[k for k, _ in got]}, expected {[k for k, _ in want]}")
    ensure(sut.anatomy(root) == before, lambda: f"{what}: visiting changed the tree")
    if handled and len(handled) < len(NAMES):
        ctx.label("partial-handlers")
    if stop:
        ctx.label("pruning")


def check(case, ctx):
    q = case["q"]
    labels(case, model(case), ctx)
    root = sut.parse_ok(q, loc=False)
    if sum(1 for _ in sut.nodes(root)) > 3:
        ctx.nontrivial("parsed")
    traverse(root, case, ctx, repr(q))


def handmade(case, ctx):
    root = build(case["t"], case["own"])
    if case["t"][1]:
        ctx.nontrivial("handmade")
    traverse(root, case, ctx, "hand-built tree")


def fold(case, ctx):
    """results are aggregated child by child, left to right, starting from the default result"""
    root = sut.parse_ok(case["q"], loc=False) if "q" in case else build(case["t"])
    limit = case["limit"]
    if sum(1 for _ in sut.nodes(root)) > 3:
        ctx.nontrivial("fold:%s" % ("limited" if limit is not None else "all"))
    asked = []

    class V(fp.QueryVisitorAdapter):
        def defaultResult(self):
            return ()

        def aggregateResult(self, aggregate, nextResult):
            return aggregate + (nextResult,)

        def shouldVisitNextChild(self, node, currentResult):
            asked.append((id(node), len(currentResult)))
            return limit is None or len(currentResult) < limit

        def visit_Expression(self, node):
            return node.identifier

    def want(n):
        if sut.kind(n) == "Expression":
            return n.identifier
        out = ()
        for c in n.children:
            if limit is not None and len(out) >= limit:
                break
            out += (want(c),)
        return out

    got = sut.call("visit", V().visit, root)
    ensure(got == want(root), lambda: f"{case}: aggregated {got}, expected {want(root)}")
    w = [(id(n), i) for n in preorder(root) for i in range(n.child_count)]
    if limit is None:
        ensure(sorted(asked) == sorted(w), lambda: f"{case}: shouldVisitNextChild consulted {len(asked)} times instead of once per child ({len(w)})")

    class D(fp.QueryVisitorAdapter):
        pass

    ensure(sut.call("visit", D().visit, root) is None, lambda: f"{case}: default visitor returns something")
    ensure(sut.call("visit", D().visit, None) is None, "visit(None) returns something")

    class L(fp.QueryVisitorAdapter):
        def visit_Expression(self, node):
            return node.identifier

        def visit_ExpressionWildcard(self, node):
            return "*"

        def visit_SimpleWithin(self, node):
            return node.scope.value

    def last(n):
        k = sut.kind(n)
        if k == "Expression":
            return n.identifier
        if k == "ExpressionWildcard":
            return "*"
        if k == "SimpleWithin":
            return n.scope.value
        r = None
        for c in n.children:
            r = last(c)
        return r

    got = sut.call("visit", L().visit, root)
    ensure(got == last(root), lambda: f"{case}: default aggregation gives {got}, expected the last child's {last(root)}")


ODD = {"!exception": ValueError("an answer"), "!stop": StopIteration(1), "!class": KeyError, "!list": [1], "!empty": [], "!visitor": fp.QueryVisitorAdapter(), "!function": len,
       "!notimpl": NotImplemented, "!dots": ...}


def answers(case, ctx):
    """whatever the handlers answer (nothing included), each child's answer is handed to the aggregation once, in order, with what it gave before"""
    root = sut.parse_ok(case["q"], loc=False) if "q" in case else build(case["t"])
    ret = {k: ODD.get(v, v) for k, v in case["ret"]}
    calls, handed = [], []

    def aggregate(a, b):
        r = (len(handed), "agg") if case["how"] == "new" else b if case["how"] in ("last", "default") else (a if a is not None else b)
        handed.append((a, b))
        return r

    ns = {"visit_" + k: (lambda v: lambda self, n: v)(v) for k, v in ret.items()}
    if case["how"] != "default":
        ns["aggregateResult"] = lambda self, a, b: aggregate(a, b)
    if case["start"] is not None:
        ns["defaultResult"] = lambda self: case["start"]

    def want(n):
        k = sut.kind(n)
        if k in ret:
            return ret[k]
        r = case["start"]
        for c in n.children:
            b = want(c)
            r = aggregate(r, b)
        return r

    expected = want(root)
    calls, handed = list(handed), []
    for base in (fp.QueryVisitorAdapter, fp.QueryVisitor):
        handed.clear()
        got = sut.call("visit", type("V", (base,), dict(ns))().visit, root)
        if case["how"] == "default":
            ensure(got is expected or type(got) is type(expected) and got == expected, lambda: f"{case}: {base.__name__} answers {got!r}, the last child {expected!r}")
            continue
        ensure(handed == calls and got == expected, lambda: f"{case}: {base.__name__} aggregates {handed} to {got!r}, expected {calls} and {expected!r}")
    if len(calls) > 1:
        ctx.nontrivial("answers:" + case["how"])


def documented(case, ctx):
    """handlers are found under visit_<value of the node type>"""
    root = sut.parse_ok(case["q"], loc=False)
    seen = []

    class V(fp.QueryVisitor):
        pass

    kinds = {sut.NODE_TYPE[k]: k for k in NAMES}
    for t in fp.QueryNodeType:
        def h(self, node, t=t):
            seen.append((t, id(node)))
            return self.visitChildren(node)
        setattr(V, "visit_" + t.value, h)
    sut.call("visit", V().visit, root)
    want = [(n.node_type, id(n)) for n in preorder(root)]
    ctx.nontrivial("documented")
    ensure(seen == want, lambda: f"{case['q']!r}: handlers named after the node type saw {[str(t) for t, _ in seen]}, expected {[str(t) for t, _ in want]}")
    ensure(all(t in kinds for t, _ in want), "node types")


@st.composite
def wide(draw):
    """one node with many children, somewhere in a small tree"""
    n = draw(st.one_of(st.integers(9, 130), st.sampled_from([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300])))
    pool = draw(st.lists(narrow(1), min_size=1, max_size=3))
    t = [draw(st.sampled_from(["ExpressionAnd", "ExpressionOr", "QueryDisjunction", "QuerySequence"])), [pool[i % len(pool)] for i in range(n)]]
    for k in draw(st.lists(st.sampled_from(["QueryGroup", "ExpressionNot", "QuerySequence"]), max_size=2)):
        t = [k, [t]]
    return t


trees = lambda: st.integers(0, 11).flatmap(lambda k: wide() if k == 11 else narrow())


def edited(case, ctx):
    """an edited tree is visited as it is now"""
    root = sut.parse_ok(case["q"], loc=False)
    for op in [None] + case["ops"]:
        if op and edits.apply(root, [op]):
            ctx.nontrivial("edited")
        traverse(root, case, ctx, f"{case['q']!r} edited by {case['ops']}")


def plain(name, who, log, down):
    def h(self, node):
        log.append((name, who, id(node)))
        return self.visitChildren(node) if down else None

    h.__name__ = "visit_" + name
    return h


def hierarchy(case, ctx):
    """handlers come from anywhere in the class hierarchy or the object itself, and may change between visits"""
    root = sut.parse_ok(case["q"], loc=False)
    log = []
    base = (fp.QueryVisitorAdapter, fp.QueryVisitor, fv.Validator)[case["base"]]
    have = {}  # what a lookup finds: kind -> owner
    levels = []
    for d, ks in enumerate(case["levels"]):
        levels.append(ks)
        cls = type(f"L{d}", (base,), {"visit_" + k: plain(k, d, log, True) for k in ks})
        base = cls
    classes = [c for c in base.__mro__ if c.__name__.startswith("L") and len(c.__name__) == 2][::-1]
    if case["mixin"]:
        m = type("Mix", (), {"visit_" + k: plain(k, "mixin", log, True) for k in case["mixin"]})
        base = type("Both", (m, base), {})
    v = base()
    own = {}

    def owner(k):
        if k in own:
            return own[k]
        if k in case["mixin"]:
            return "mixin"
        for d in range(len(levels) - 1, -1, -1):
            if k in levels[d]:
                return d
        return None

    levels = [set(x) for x in levels]
    for n, step in enumerate([None] + case["steps"]):
        if step:
            how, k, d = step
            if how == "object":
                own[k] = f"object{n}"
                setattr(v, "visit_" + k, plain(k, own[k], log, True).__get__(v))
            elif how == "drop":
                if k in own:
                    del own[k]
                    delattr(v, "visit_" + k)
            elif how == "class" and classes:
                d %= len(classes)
                levels[d].add(k)
                setattr(classes[d], "visit_" + k, plain(k, d, log, True))
            ctx.label("change:" + how)
        log.clear()
        start = list(sut.nodes(root))[case["at"] % sum(1 for _ in sut.nodes(root))]
        sut.call("visit", v.visit, start)
        want = [(sut.kind(x), owner(sut.kind(x)), id(x)) for x in preorder(start) if owner(sut.kind(x)) is not None]
        ensure(log == want, lambda: f"{case['q']!r}, {case}: step {n} called {[x[:2] for x in log]}, expected {[x[:2] for x in want]}")
    ctx.nontrivial("hierarchy")


some_names = st.lists(st.sampled_from(NAMES), max_size=4, unique=True)
hier_case = st.fixed_dictionaries({"q": st.one_of(valid(large=0, leaves=5, depth=2, rich=0), valid(large=0, leaves=1, depth=1, rich=0)).map(lambda c: c["q"]), "base": st.integers(0, 2), "at": st.sampled_from([0, 0, 0, 1, 2, 3]),
                                   "levels": st.lists(some_names, max_size=3), "mixin": st.one_of(st.just([]), some_names),
                                   "steps": st.lists(st.tuples(st.sampled_from(["object", "object", "drop", "class"]), st.sampled_from(NAMES[:1] + NAMES[-3:] + NAMES), st.integers(0, 2)).map(list), max_size=4)})

subset = st.fixed_dictionaries({"handled": st.one_of(st.just(NAMES), st.lists(st.sampled_from(NAMES), unique=True)), "stop": st.lists(st.sampled_from(NAMES), max_size=2, unique=True)})
with_q = st.tuples(valid(leaves=6, depth=3, rich=0), subset).map(lambda t: {**t[0], **t[1]})
with_t = st.tuples(trees(), subset, own_kinds).map(lambda t: {"t": t[0], "own": t[2], **t[1]})
lim = st.one_of(st.none(), st.integers(0, 3))
fold_case = st.one_of(st.tuples(valid(leaves=6, depth=3, rich=0), lim).map(lambda t: {"q": t[0]["q"], "limit": t[1]}), st.tuples(trees(), lim).map(lambda t: {"t": t[0], "limit": t[1]}))

answer_case = st.tuples(st.one_of(valid(large=0, leaves=6, depth=3, rich=0).map(lambda c: {"q": c["q"]}), narrow().map(lambda t: {"t": t})), st.fixed_dictionaries({
    "ret": st.lists(st.tuples(st.sampled_from(NAMES + ["Expression", "ExpressionWildcard", "SimpleWithin"] * 2), st.sampled_from([None, None, False, 0, "", "x", 7, *ODD])).map(list), max_size=5),
    "start": st.sampled_from([None, "s", 0]), "how": st.sampled_from(["new", "last", "first", "default", "default"])})).map(lambda t: {**t[0], **t[1]})

PROP = Prop("C14", "tree with more than three nodes (distinct tree/handler combinations)", [
    Sub("parsed", with_q, check, 250, 6000),
    Sub("handmade", with_t, handmade, 300, 8000),
    Sub("hierarchy", hier_case, hierarchy, 250, 6000),
    Sub("fold", fold_case, fold, 300, 8000),
    Sub("answers", answer_case, answers, 250, 6000),
    Sub("edited", st.tuples(with_q, edits.ops).map(lambda t: {**t[0], "ops": t[1]}), edited, 60, 1200),
    Sub("documented", valid(leaves=5, depth=2, rich=0), documented, 120, 2500),
])
