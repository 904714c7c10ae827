"""C20: the low-level parse agrees with the high-level one and covers the query text."""
from hypothesis import strategies as st

from .. import gen, ref, sut
from ..common import any_query, valid
from ..core import Prop, Sub
from ..sut import ensure, fcsql, fp

import antlr4
from antlr4.tree.Tree import ErrorNode, TerminalNode


def low(q):
    try:
        return fcsql.antlr_parse(q), None
    except fcsql.SyntaxError as e:
        return None, e
    except Exception as e:
        sut.fail(f"antlr_parse({q!r}) raised undocumented {type(e).__name__}: {e}")


def terminals(t):
    if isinstance(t, TerminalNode):
        yield t
    else:
        for c in t.getChildren():
            yield from terminals(c)


def check(case, ctx):
    q = case["q"]
    try:
        want, sem = ref.parse_syntax(q)
        rej = None
    except ref.Reject as r:
        want, sem, rej = None, None, r
    tree, exc = low(q)
    ctx.label("kind:" + case.get("kind", "?"))
    if q.strip():
        ctx.nontrivial("nt:" + (rej.kind if rej else "semantic" if sem else "tree"))
    ensure((tree is not None) == (want is not None), lambda: f"antlr_parse({q!r}): {'tree' if tree is not None else exc}, expected {'tree' if want else rej}")
    node, e2 = sut.try_parse(q)
    ensure(node is None or tree is not None, lambda: f"{q!r}: parse() accepts what antlr_parse() rejects: {exc}")
    ensure(node is not None or tree is None or sem is not None, lambda: f"{q!r}: antlr_parse() accepts what parse() rejects: {e2}")
    if tree is None:
        ensure(str(exc), lambda: f"{q!r}: SyntaxError without message")
        return
    ensure(isinstance(tree, fcsql.FCSParser.QueryContext), lambda: f"{q!r}: antlr_parse returned {type(tree).__name__}")
    toks = ref.lex(q)
    ts = list(terminals(tree))
    ensure(not any(isinstance(t, ErrorNode) for t in ts), lambda: f"{q!r}: parse tree contains error nodes")
    got = [(t.symbol.start, t.symbol.stop + 1, t.getText()) for t in ts if t.symbol.type != antlr4.Token.EOF]
    w = [(t.start, t.stop, t.text) for t in toks]
    ensure(got == w, lambda: f"{q!r}: leaves of the parse tree {got} are not the tokens {w}")
    eof = [t for t in ts if t.symbol.type == antlr4.Token.EOF]
    ensure(len(eof) == 1 and ts[-1] is eof[0], lambda: f"{q!r}: end of input is not the last leaf")
    at = eof[0].symbol.start
    ensure(at == len(q), lambda: f"{q!r}: end of input is reported at {at}, the text has {len(q)} characters")
    ensure(str(tree.start.getInputStream()) == q, lambda: f"{q!r}: the tree refers to another text: {str(tree.start.getInputStream())!r}")
    ensure(tree.getText().replace("<EOF>", "") == "".join(t.text for t in toks).replace("<EOF>", ""), lambda: f"{q!r}: getText() {tree.getText()!r}")
    wctx = tree.within_part()
    ensure(tree.main_query() is not None and (wctx is not None) == (want.type == "QueryWithWithin"), lambda: f"{q!r}: main_query/within_part accessors")

    def parents(t):
        for c in t.getChildren():
            ensure(c.parentCtx is t, lambda: f"{q!r}: parent links of the parse tree")
            if not isinstance(c, TerminalNode):
                parents(c)

    parents(tree)


BREAKS = ["\n", "\r\n", "\r", "\t", "\x0b", "\x0c", "\x85", "\u2028", "\u2029", "\u3000", "\ufeff", " \r\n ", "\n\r", "\x1c", "\xa0", "\x00"]


@st.composite
def lines(draw):
    """several lines: every kind of line break and white space, between tokens and inside literals"""
    g = draw(gen.queries(leaves=4, depth=2, rich=0))
    toks = [t if t[0] not in "'\"" or draw(st.booleans()) else t[0] + draw(st.sampled_from(BREAKS)) + t[1:-1] + draw(st.sampled_from(BREAKS + [""])) + t[0] for t in g.toks]
    out = [draw(st.sampled_from(["", "", *BREAKS]))]
    for t in toks:
        out += [t, draw(st.sampled_from([" ", " ", *BREAKS]))]
    return {"q": "".join(out), "kind": "lines"}


PROP = Prop("C20", "non-blank query (distinct texts), split by verdict", [
    Sub("valid", valid(leaves=6, depth=3, rich=1), check, 250, 8000),
    Sub("lines", lines(), check, 350, 8000),
    Sub("any", any_query(), check, 600, 16000),
    Sub("tokens", st.lists(st.sampled_from(gen.SOUP_TOKENS[:-8]), max_size=8).map(lambda t: {"q": gen.cap(" ".join(t)), "kind": "soup"}), check, 400, 12000),
])
