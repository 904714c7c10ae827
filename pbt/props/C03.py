"""C03: boolean expression structure and precedence."""
from hypothesis import strategies as st

from .. import gen, ref, sut
from ..common import labels, model
from ..core import Prop, Sub


def shape(n):
    if n.type == "Expression":
        return n.attrs["identifier"]
    return (n.type,) + tuple(shape(c) for c in n.children)


def minterms(n, env):
    t = n.type
    if t == "Expression":
        return env[n.attrs["identifier"]]
    v = [minterms(c, env) for c in n.children]
    return (not v[0]) if t == "ExpressionNot" else all(v) if t == "ExpressionAnd" else any(v) if t == "ExpressionOr" else v[0]


def check(case, ctx):
    q = case["q"]
    want = model(case)
    got = sut.snap(sut.parse_ok(q, loc=False))
    labels(case, want, ctx)
    ops = {n.type for n in want.walk() if n.type in ("ExpressionNot", "ExpressionAnd", "ExpressionOr", "ExpressionGroup")}
    ctx.label("ops:%d" % len(ops), *("has:" + k for k in ops))
    if len(ops) >= 2:
        ctx.nontrivial("nt")
    w, g = want.children[0], ref.collapse(got).children[0] if got.children else None
    sut.ensure(g is not None and shape(g) == shape(w), lambda: f"expression of {q!r}:\n  got  {got.show()}\n  want {want.show()}")


@st.composite
def expr_query(draw, **knobs):
    cfg = gen.Cfg(rich=0, **knobs)
    g = gen.G(draw, cfg)
    a = g.b.mark()
    g.b.add("[")
    e = g.e_or(cfg.depth)
    g.b.add("]")
    n = g.b.node(a, "QuerySegment", [e], min=1, max=1)
    text, s0, s1 = gen.glue(draw, g.b.toks)
    gen.place(n, s0, s1)
    return {"q": text, "feats": sorted(f for f in g.feats if f in ("not", "egroup", "ExpressionAnd", "ExpressionOr")), "n": n.key()}


def check_parens(case, ctx):
    """explicit parentheses that spell out NOT > AND > OR change nothing but the group nodes"""
    flat, full = case["flat"], case["full"]
    a = ref.collapse(sut.snap(sut.parse_ok(flat, loc=False)))
    b = ref.collapse(sut.snap(sut.parse_ok(full, loc=False)))
    ctx.label("ops:%d" % case["ops"])
    if case["ops"] >= 2:
        ctx.nontrivial("nt:parens")
    sut.ensure(shape(a) == shape(strip(b)), lambda: f"{flat!r} and its fully parenthesised form {full!r} differ:\n  {a.show()}\n  {strip(b).show()}")


def strip(n):
    while n.type == "ExpressionGroup":
        n = n.children[0]
    return ref.N(n.type, [strip(c) for c in n.children], None, n.attrs)


@st.composite
def flat_chain(draw):
    """operator chain without parentheses, and the same with every precedence level parenthesised"""
    n = draw(st.integers(2, 7))
    names = [f"a{i}" for i in range(n)]
    atoms, atoms_p = [], []
    ops = 0
    for x in names:
        k = draw(st.sampled_from([0, 0, 0, 1, 1, 2]))
        leaf = f'{x}="1"'
        atoms.append("!" * k + leaf)
        p = leaf
        for _ in range(k):
            p = f"!({p})"
        atoms_p.append(p)
        ops += k
    seps = [draw(st.sampled_from("&|")) for _ in names[1:]]
    flat = atoms[0] + "".join(s + a for s, a in zip(seps, atoms[1:]))
    groups = [[atoms_p[0]]]
    for s, a in zip(seps, atoms_p[1:]):
        if s == "&":
            groups[-1].append(a)
        else:
            groups.append([a])
    conj = [f"({'&'.join(g)})" if len(g) > 1 else g[0] for g in groups]
    return {"flat": f"[{flat}]", "full": f"[{'|'.join(conj)}]", "ops": len(set(seps)) + (ops > 0)}


@st.composite
def long_chain(draw):
    """many numbered operands: prefixes and operators follow a pattern, with exceptions here and there"""
    n = draw(st.one_of(st.sampled_from(gen.SIZES), st.integers(9, 80), st.sampled_from(gen.HUGE[:12])))
    forms = st.sampled_from(["{}", "{}", "{}", "!{}", "!!{}", "({})", "!({})", "(!{})", "({}&z)", "({}|z)", "!({}|z)", "((z&{}))"])
    pre, seps = draw(st.lists(forms, min_size=1, max_size=4)), draw(st.lists(st.sampled_from("&|"), min_size=1, max_size=4))
    leaf = lambda i: f"a{i}='1'"
    fs, ss = [pre[i % len(pre)] for i in range(n)], [seps[i % len(seps)] for i in range(n - 1)]
    at = st.one_of(st.integers(0, n - 1), st.integers(0, n - 1), st.sampled_from([n - 1, n - 2]), st.sampled_from(gen.SIZES).map(lambda x: x % n))
    for i, f in draw(st.lists(st.tuples(at, forms), max_size=3)):
        fs[i] = f
    for i, s in draw(st.lists(st.tuples(at, st.sampled_from("&|")), max_size=3)):
        ss[i % (n - 1)] = s
    q = "".join(f.format(leaf(i)).replace("z", "z='2'") + (ss[i] if i < n - 1 else "") for i, f in enumerate(fs))
    return {"q": "[" + q + "]", "feats": ["long"]}


PROP = Prop("C03", "expression using at least two of NOT / AND / OR / parentheses (distinct query texts)", [
    Sub("tree", expr_query(leaves=8, depth=3), check, 700, 20000),
    Sub("flat", expr_query(leaves=8, nots=5, depth=0), check, 400, 12000),
    Sub("long", long_chain(), check, 120, 3000),
    Sub("parens", flat_chain(), check_parens, 400, 12000),
], ["n-ary operands: a & b & c is one conjunction with three operands in source order"])
