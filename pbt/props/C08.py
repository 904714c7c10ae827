"""C08: attributes, operators, parser defaults."""
import unicodedata

from hypothesis import strategies as st

from .. import gen, ref, sut
from ..common import any_query, labels, model, valid, valid_cfg
from ..core import Prop, Sub
from ..sut import ensure, fp


def attrs(n):
    return [(x.attrs["qualifier"], x.attrs["identifier"], x.attrs["operator"]) for x in n.walk() if x.type == "Expression"]


def check(case, ctx):
    q = case["q"]
    want = model(case)
    labels(case, want, ctx)
    if any(a[0] or a[2] == "Ne" for a in attrs(want)) or "feat:implicit" in case["feats"] or "implicit" in case["feats"]:
        ctx.nontrivial("nt")
    node = sut.parse_ok(q, case["cfg"], loc=False)
    got = sut.snap(node)
    ensure(attrs(got) == attrs(want), lambda: f"attributes of {q!r} with {case['cfg']}:\n  got  {attrs(got)}\n  want {attrs(want)}")
    for n in sut.nodes(node):
        if sut.kind(n) == "Expression":
            ensure(n.qualifier is None or (isinstance(n.qualifier, str) and n.qualifier), lambda: f"{q!r}: empty qualifier is {n.qualifier!r}, not None")
            ensure(isinstance(n.operator, fp.Operator), lambda: f"{q!r}: operator {n.operator!r}")


@st.composite
def single(draw):
    q, i = draw(st.one_of(st.none(), gen.ident)), draw(gen.ident)
    op = draw(st.sampled_from(["=", "!="]))
    w = [draw(st.one_of(st.just(""), st.just(" "), gen.ws1)) for _ in range(5)]
    a = (q + w[0] + ":" + w[1] if q is not None else "") + i + w[2] + op + w[3] + "'v'"
    c = draw(st.sampled_from(["[{}]", "[!{}]", "[({})]", "[zz='z'&{}]", "[{}|zz='z']{{0,2}}", "([{}])+ within s", "'z' [{}]"]))
    return {"q": c.format(a), "qual": q, "ident": i, "op": op, "loc": draw(st.booleans())}


def single_check(case, ctx):
    """attribute spelled out: any word, keywords included, is a legal name"""
    q = case["q"]
    kw = {case["ident"], case["qual"]} & set(gen.KEYWORDS)
    ctx.nontrivial("keyword" if kw else "qualified" if case["qual"] else "plain")
    node = sut.parse_ok(q, loc=case["loc"])
    es = [n for n in sut.nodes(node) if sut.kind(n) == "Expression" and n.regex == "v"]
    ensure(len(es) == 1, lambda: f"{q!r}: {len(es)} expressions with the pattern")
    got = (es[0].qualifier, es[0].identifier, es[0].operator)
    want = (case["qual"], case["ident"], fp.Operator.EQUALS if case["op"] == "=" else fp.Operator.NOT_EQUALS)
    ensure(got == want, lambda: f"{q!r}: got {got}, want {want}")


def defaults(case, ctx):
    """implicit segments use the parser's defaults, explicit ones never do"""
    p = sut.parser(case["cfg"], loc=False)
    q = f"'a' [{case['name']}='b'] ('c'|\"d\"/i)"
    ctx.nontrivial()
    node, exc = sut.try_parse(q, p=p)
    ensure(node is not None, lambda: f"{q!r} rejected: {exc}")
    got = {n.regex: (n.qualifier, n.identifier, n.operator.value) for n in sut.nodes(node) if sut.kind(n) == "Expression"}
    d = (None, case["cfg"]["identifier"], case["cfg"]["operator"])
    want = {"a": d, "b": (None, case["name"], "Eq"), "c": d, "d": d}
    ensure(got == want, lambda: f"{q!r} with {case['cfg']}: got {got}, want {want}")
    plain = sut.call("parse", sut.fcsql.parse, q)
    got = {n.regex: (n.identifier, n.operator.value) for n in sut.nodes(plain) if sut.kind(n) == "Expression"}
    ensure(got["a"] == ("text", "Eq") and got["c"] == ("text", "Eq") and got["d"] == ("text", "Eq"), lambda: f"parse({q!r}) defaults: {got}")


def verbatim(case, ctx):
    """whatever text the parser was given as default layer, it is reported as it is"""
    ident = case["ident"]
    p = fp.QueryParser(default_identifier=ident, default_operator=sut.OPOF[case["op"]])
    ctx.nontrivial("odd" if not ident.isidentifier() else "word")
    node, exc = sut.try_parse("'a' ('b') [lemma='c']", p=p)
    ensure(node is not None, lambda: f"default layer {ident!r}: {exc}")
    got = {n.regex: (n.qualifier, n.identifier, n.operator.value) for n in sut.nodes(node) if sut.kind(n) == "Expression"}
    want = {"a": (None, ident, case["op"]), "b": (None, ident, case["op"]), "c": (None, "lemma", "Eq")}
    ensure(got == want, lambda: f"default layer {ident!r}: got {got}, want {want}")


def outcome(q, cfg):
    p = sut.parser(cfg, loc=True)
    node, exc = sut.try_parse(q, p=p)
    return (None if node is None else sut.snap(node)), [(e.type, e.position, e.message, e.fragment) for e in p.errors], exc and str(exc)


def apart(case, ctx):
    """two parsers with other defaults: same verdict, diagnostics, shape and places; only bare literals and the normal form differ"""
    q, a, b = case["q"], {**case["a"], "norm": None}, case["b"]
    (ta, ea, xa), (tb, eb, xb) = outcome(q, a), outcome(q, b)
    ensure((ta is None) == (tb is None), lambda: f"{q!r}: {'rejected' if ta is None else 'accepted'} with {a}, not so with {b} ({xa or xb})")
    ensure(ea == eb and xa == xb, lambda: f"{q!r}: problems {ea} ({xa}) with {a}, {eb} ({xb}) with {b}")
    if ta is None:
        ctx.label("rejected")
        return
    na, nb = list(ta.walk()), list(tb.walk())
    ensure([(n.type, n.span, len(n.children)) for n in na] == [(n.type, n.span, len(n.children)) for n in nb],
           lambda: f"{q!r}: shape {ta.show()} with {a}, {tb.show()} with {b}")
    if a != b:
        ctx.nontrivial("apart")
    for x, y in zip(na, nb):
        if x.type != "Expression":
            ensure(x.attrs == y.attrs, lambda: f"{q!r}: {x.attrs} with {a}, {y.attrs} with {b}")
            continue
        bare = q[x.span[0]] in "'\""
        for n, c in ((x, a), (y, b)):
            at = (n.attrs["qualifier"], n.attrs["identifier"], n.attrs["operator"])
            ensure(not bare or at == (None, c["identifier"], c["operator"]), lambda: f"{q!r}: bare literal is {at} with {c}")
        ensure(bare or [x.attrs[k] for k in ("qualifier", "identifier", "operator")] == [y.attrs[k] for k in ("qualifier", "identifier", "operator")],
               lambda: f"{q!r}: attribute {x.attrs} with {a}, {y.attrs} with {b}")
        ensure(x.attrs["flags"] == y.attrs["flags"], lambda: f"{q!r}: flags {x.attrs} with {a}, {y.attrs} with {b}")
        r = x.attrs["regex"]
        want = unicodedata.normalize(b["norm"], r) if b["norm"] else r
        ensure(y.attrs["regex"] == want, lambda: f"{q!r}: pattern {r!r} without normal form ({a}), {y.attrs['regex']!r} with {b}, expected {want!r}")


odd = st.one_of(st.sampled_from(["", " ", " a", "a ", "A", "x:y", "\t", "a b", "'a'", "\u00e4", "a\u0308", "within", "text\n"]), st.text(max_size=5))
default_case = st.fixed_dictionaries({"cfg": gen.parser_cfgs, "name": gen.ident})
ident_cfg = st.fixed_dictionaries({"cfg": st.fixed_dictionaries({"identifier": gen.ident, "operator": st.sampled_from(["Eq", "Ne"])}), "name": gen.ident})
some_cfg = st.one_of(gen.parser_cfgs, st.fixed_dictionaries({"identifier": st.one_of(gen.ident, odd), "operator": st.sampled_from(["Eq", "Ne"]),
                                                             "norm": st.sampled_from(["NFC", "NFD", "NFKC", "NFKD", None, None])}))

PROP = Prop("C08", "query with a qualifier, a != operator, an implicit segment or a keyword used as name (distinct cases)", [
    Sub("tree", valid_cfg(leaves=8, depth=3, rich=0), check, 400, 10000),
    Sub("single", single(), single_check, 900, 20000),
    Sub("verbatim", st.fixed_dictionaries({"ident": odd, "op": st.sampled_from(["Eq", "Ne"])}), verbatim, 150, 3000),
    Sub("apart", st.tuples(st.one_of(valid(leaves=5, depth=2, rich=2), valid(leaves=5, depth=2, rich=2), any_query()), some_cfg, some_cfg).map(
        lambda t: {"q": t[0]["q"], "a": t[1], "b": t[2]}), apart, 350, 9000),
    Sub("defaults", st.one_of(default_case, ident_cfg), defaults, 300, 6000),
])
