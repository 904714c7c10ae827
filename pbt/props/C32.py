"""C32: looking at a tree changes nothing, and asking twice gives the same answer."""
from hypothesis import strategies as st

from .. import edits, sut
from ..common import labels, valid_cfg
from ..core import Prop, Sub
from ..sut import ensure, fp, fv
from . import vcommon as vc
from .C10 import build, trees

CLS = [None, fp.Expression, fp.QuerySegment, fp.QueryGroup, fp.ExpressionNot, fp.ExpressionWildcard, fp.SimpleWithin, fp.QueryNode]


class Plain(fp.QueryVisitor):
    def aggregateResult(self, a, b):
        return (a or 0) + (b or 0) + 1


class Count(fp.QueryVisitorAdapter):
    def defaultResult(self):
        return ()

    def aggregateResult(self, a, b):
        return a + (b,)

    def visit_Expression(self, node):
        return (node.identifier,)


class Stop(fp.QueryVisitorAdapter):
    def shouldVisitNextChild(self, node, result):
        return result is None

    def visit_ExpressionWildcard(self, node):
        return "w"


def tag(x):
    """answers in comparable form: nodes by identity, lists element by element"""
    if isinstance(x, fp.QueryNode):
        return ("node", id(x))
    if isinstance(x, (list, tuple)):
        return [tag(y) for y in x]
    return x


def look(n, what, arg):
    """one read-only question to node n"""
    if what == "str":
        return str(n)
    if what == "repr":
        return repr(n)
    if what == "format":
        return f"{n}"
    if what == "count":
        return n.child_count
    if what == "get":
        return n.get_child(arg % 7 - 2, CLS[arg % len(CLS)]) if CLS[arg % len(CLS)] else n.get_child(arg % 7 - 2)
    if what == "first":
        return n.get_first_child(CLS[arg % len(CLS)])
    if what == "last":
        return n.get_last_child(CLS[arg % len(CLS)])
    if what == "type":
        return [n.has_node_type(t) for t in fp.QueryNodeType]
    if what == "own":
        k = sut.kind(n)
        if k in ("ExpressionAnd", "ExpressionOr"):
            return list(n.operands)
        if k == "QuerySegment":
            return n.get_expression()
        if k == "QueryGroup":
            return n.get_content()
        if k == "QueryWithWithin":
            return [n.get_query(), n.get_within()]
        if k == "Expression":
            return [n.is_layer_qualifier_empty(), n.is_regex_flags_empty()] + [n.has_regex_flag(f) for f in fp.RegexFlag] + [n.has_operator(o) for o in fp.Operator] + [
                n.has_layer_identifier(x) for x in ("text", "word", "")] + [n.has_layer_qualifier(x) for x in ("a", "")]
        if k == "SimpleWithin":
            return n.scope
        return None
    if what == "visit":
        return (Plain, Count, Stop)[arg % 3]().visit(n)
    if what == "accept":
        return n.accept((Plain, Count, Stop)[arg % 3]())
    v = fv.FCSQLValidator(raise_at_first_violation=bool(arg & 1), warnings_as_errors=bool(arg & 2), **([{}, {"allowed_layer_identifiers": ["text", "pos", "lemma", "l"]}][(arg >> 2) & 1]),
                          **([{}, {"allowed_layer_qualifiers": [("pos", ["s", "a", "b"]), ("text", ["ud", "b", "a"]), ("lemma", [])]}][(arg >> 3) & 1]))
    lists = v.allowed_layer_identifiers, v.allowed_layer_qualifiers
    was = repr(lists)
    try:
        r = v.is_valid(n) if what == "valid" else v.validate(n)
        ensure(repr(lists) == was and (v.allowed_layer_identifiers, v.allowed_layer_qualifiers) == lists, lambda: f"a validation changed the lists given to the validator from {was} to {lists}")
        if what == "valid":
            return r
    except fv.SpecificationValidationError as e:
        return ["raised", str(e), tag(e.node)]
    return [r, v.errors, v.warnings]


WHATS = ["str", "repr", "format", "count", "get", "first", "last", "type", "own", "visit", "accept", "valid", "validate"]
looks = st.lists(st.tuples(st.integers(0, 60), st.sampled_from(WHATS), st.integers(0, 15)).map(list), min_size=2, max_size=14)


def check(case, ctx):
    if "q" in case:
        root = sut.parse_ok(case["q"], case.get("cfg"), loc=case["loc"])
        labels(case, sut.snap(root), ctx)
        name = repr(case["q"])
    else:
        root = build(case["t"])
        name = "hand-built tree"
    ns = list(sut.nodes(root))
    for i, x in case.get("locs", []):  # some nodes with a location, others without
        ns[i % len(ns)].location = fp.SourceLocation(x, x + 2) if x else None
    if case.get("ops") and edits.apply(root, case["ops"]):
        ctx.label("edited first")
        ns = list(sut.nodes(root))
    for i, name_, val in case.get("odd", []):
        # attribute values the parser itself never stores
        es = [n for n in ns if sut.kind(n) == "Expression"]
        if es:
            setattr(es[i % len(es)], name_, {getattr(fp.RegexFlag, f) for f in val} if isinstance(val, list) else val)
    before = sut.anatomy(root)
    first = {}
    ctx.nontrivial("looks:%d" % (len(case["looks"]) // 5 * 5))
    plan = case["looks"] + case["looks"][::-1]
    for i, what, arg in plan:
        i %= len(ns)
        try:
            a = tag(look(ns[i], what, arg))
        except Exception as e:
            # shapes outside the grammar may not support every question, but then every time
            ensure("q" not in case or case.get("ops"), lambda: f"{name}: {what}({arg}) of {sut.kind(ns[i])} raised {type(e).__name__}: {e}")
            a = ["raised", type(e).__name__]
        now = sut.anatomy(root)
        ensure(now == before, lambda: f"{name}: {what}({arg}) of {sut.kind(ns[i])} changed the tree: " + next((f"{x} -> {y}" for x, y in zip(before, now) if x != y), "nodes added or removed"))
        k = (i, what, arg)
        ensure(first.setdefault(k, a) == a, lambda: f"{name}: {what}({arg}) of {sut.kind(ns[i])} answered {first[k]} and later {a}")


locs = st.lists(st.tuples(st.integers(0, 20), st.integers(0, 9)).map(list), max_size=4)
base = st.one_of(valid_cfg(leaves=6, depth=3), vc.vqueries().map(lambda q: {"q": q}))
odd = st.lists(st.tuples(st.integers(0, 9), st.sampled_from([("qualifier", ""), ("qualifier", " "), ("identifier", ""), ("identifier", "A b"), ("regex", "a\u0301"), ("regex", "\\q\""), ("regex_flags", None), ("regex_flags", []), ("regex_flags", []), ("regex_flags", ["CASE_INSENSITIVE"])])).map(lambda t: [t[0], *t[1]]), max_size=3)
extra = st.one_of(st.just(([], [])), st.tuples(edits.ops, odd), st.tuples(st.just([]), odd))
PROP = Prop("C32", "every history of at least two questions to the nodes of one tree (distinct histories)", [
    Sub("parsed", st.tuples(base, st.booleans(), looks, st.one_of(st.just([]), locs), extra).map(lambda t: {**t[0], "loc": t[1], "looks": t[2], "locs": t[3], "ops": t[4][0], "odd": t[4][1]}), check, 450, 12000),
    Sub("built", st.tuples(trees(), looks, locs).map(lambda t: {"t": t[0], "looks": t[1], "locs": t[2]}), check, 200, 5000),
])
