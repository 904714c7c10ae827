"""C02: query-level structure."""
from hypothesis import strategies as st

from .. import gen, ref, sut
from ..common import labels, model, valid
from ..core import Prop, Sub

EXPR = ("Expression", "ExpressionWildcard", "ExpressionGroup", "ExpressionNot", "ExpressionAnd", "ExpressionOr")


def skeleton(n):
    """Query-level tree; what a segment contains is reduced to wildcard / expression."""
    if n.type in EXPR:
        return "wildcard" if n.type == "ExpressionWildcard" else "expr"
    if n.type == "SimpleWithin":
        return "within"
    return (n.type, tuple(skeleton(c) for c in n.children))


def leaves(n):
    return [(x.attrs.get("identifier"), x.attrs.get("regex")) for x in n.walk() if x.type == "Expression"]


def check(case, ctx):
    q = case["q"]
    want = model(case)
    labels(case, want, ctx)
    got = ref.collapse(sut.snap(sut.parse_ok(q, loc=False)))
    kinds = {n.type for n in want.walk() if n.type.startswith("Query")}
    ctx.label(*("has:" + k for k in kinds))
    if kinds & {"QuerySequence", "QueryDisjunction", "QueryGroup"}:
        ctx.nontrivial("nt")
    sut.ensure(skeleton(got) == skeleton(want), lambda: f"structure of {q!r}:\n  got  {got.show()}\n  want {want.show()}")
    sut.ensure(leaves(got) == leaves(want), lambda: f"{q!r}: expressions in order {leaves(got)}, expected {leaves(want)}")


@st.composite
def long_chain(draw):
    """many numbered items: forms and separators follow a pattern, with exceptions here and there"""
    n = draw(st.one_of(st.sampled_from(gen.SIZES), st.integers(9, 80), st.sampled_from(gen.HUGE[:12])))
    forms = st.sampled_from(["'{}'", "'{}'", "[a='{}']", "('{}')", "('{}' 'z')", "('z'|'{}')", "[a='{}']+", "('{}'|[]){{2}}", "[] '{}'", "(('{}' 'z'){{0,1}}|[b='z'])", "'{}'/i"])
    pre, seps = draw(st.lists(forms, min_size=1, max_size=4)), draw(st.lists(st.sampled_from([" ", " ", "|"]), min_size=1, max_size=4))
    fs, ss = [pre[i % len(pre)] for i in range(n)], [seps[i % len(seps)] for i in range(n - 1)]
    at = st.one_of(st.integers(0, n - 1), st.integers(0, n - 1), st.sampled_from([n - 1, n - 2]), st.sampled_from(gen.SIZES).map(lambda x: x % n))
    for i, f in draw(st.lists(st.tuples(at, forms), max_size=3)):
        fs[i] = f
    for i, s in draw(st.lists(st.tuples(at, st.sampled_from(" |")), max_size=3)):
        ss[i % (n - 1)] = s
    q = "".join(f.format(i) + (ss[i] if i < n - 1 else "") for i, f in enumerate(fs))
    return {"q": q + draw(st.sampled_from(["", "", " within s"])), "feats": ["long"]}


PROP = Prop("C02", "query with a sequence, disjunction or group (distinct query texts)", [
    Sub("mixed", valid(leaves=8, depth=3, rich=0), check, 500, 16000),
    Sub("flat", valid(leaves=8, depth=1, rich=0), check, 250, 6000),
    Sub("long", long_chain(), check, 120, 3000),
    Sub("deep", valid(leaves=5, depth=6, rich=0, quant=False), check, 300, 8000),
], ["trees are compared modulo single-element sequences, which the grammar inserts around group contents and lone alternatives"])
