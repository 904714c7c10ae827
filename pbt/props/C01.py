"""C01: exactly the FCS-QL language is accepted."""
from hypothesis import strategies as st

from .. import gen, ref, sut
from ..common import any_query, labels, model, valid
from ..core import Prop, Sub
from ..sut import ensure, fcsql


def decide(case, ctx):
    q = case["q"]
    want, rej = ref.verdict(q)
    node, exc = sut.try_parse(q)
    ctx.label("kind:" + case.get("kind", "?"), "expect:" + (rej.kind if rej else "accept"))
    if q.strip():
        ctx.nontrivial("nt:" + (rej.kind if rej else "accept"))
    ensure((node is not None) == (want is not None),
           lambda: f"{q!r}: expected {'a tree' if want else 'rejection (' + rej.kind + ' at ' + str(rej.offset) + ')'}, got "
           + ("a tree" if node is not None else f"rejection ({exc})"))
    can = sut.call(f"can_parse({q!r})", fcsql.can_parse, q)
    ensure(can is (want is not None), lambda: f"can_parse({q!r}) is {can}, expected {want is not None}")


def accept(case, ctx):
    q = case["q"]
    tree = model(case)
    labels(case, tree, ctx)
    ctx.nontrivial()
    sut.parse_ok(q, loc=False)
    ensure(sut.call("can_parse", fcsql.can_parse, q) is True, lambda: f"can_parse({q!r}) is not True")


NAMECH = "aZz019-_.ÄA"
LITCH = ["a", "0", "F", "g", "\\", "\\", '"', "'", "x", "u", "U", "n", "t", "r", ".", "[", "]", "}", "|", "^", "&", "/", " ", "\n", "ü"]
NUMCH = "0123456789,- "


@st.composite
def lexical(draw):
    k = draw(st.sampled_from(["name", "qualifier", "literal", "hexesc", "esc", "ws", "number", "flags", "char", "case", "case"]))
    if k in ("name", "qualifier"):
        n = draw(st.text(alphabet=NAMECH, min_size=1, max_size=5)) if draw(st.booleans()) else draw(gen.ident)
        q = f'[{n}="x"]' if k == "name" else f'[{n}:pos="x"]'
    elif k == "literal":
        b = "".join(draw(st.lists(st.sampled_from(LITCH), max_size=10)))
        c = draw(st.sampled_from(['"', "'"]))
        q = c + b + c
    elif k == "hexesc":
        b = "\\" + draw(st.sampled_from("xuUXh")) + draw(st.text(alphabet="0123456789abcdefABCDEFgG -", min_size=0, max_size=9))
        q = f'[text="{b}"]'
    elif k == "esc":
        q = f'"a\\{draw(st.characters(min_codepoint=1, max_codepoint=0x17F))}b"'
    elif k == "ws":
        c = draw(st.one_of(st.sampled_from(ref.WS_LIST), st.sampled_from(["\u200b", "\ufeff", "\u180e", "\u200d", "\x1c", "\x1f", "\x00", "\x08", "\x0e", "\u00ad"]), st.characters()))
        q = draw(st.sampled_from(["[]{}[]", "[text{}=''] within s", "[]{}", "'a' within{}s", "{}'a'", "[]{{1{},2}}", "'a'/{}i", "[a !{}= '']"])).format(c)
    elif k == "number":
        q = "[]{" + draw(st.text(alphabet=NUMCH, max_size=5)) + "}"
    elif k == "flags":
        q = '"a"/' + draw(st.text(alphabet="icICldDLx ", min_size=0, max_size=4))
    elif k == "case":
        # letter case of keywords, scopes, flags, escapes and names
        q = draw(gen.queries(mode=draw(st.sampled_from(["none", "space", "space"])), leaves=2, depth=1, rich=draw(st.integers(0, 1)))).text
        if " within " not in q:
            q += draw(st.sampled_from([" within s", " within paragraph", " within u", " within session "]))
        words = [m.span() for m in gen.WORD.finditer(q)]
        for _ in range(draw(st.integers(1, 2))):
            a, b = draw(st.one_of(st.sampled_from(words[-2:]), st.sampled_from(words)))
            q = q[:a] + draw(st.sampled_from([str.upper, str.upper, str.title, str.swapcase]))(q[a:b]) + q[b:]
    else:
        q = "'a'" + draw(st.characters(max_codepoint=0x2FF)) + "'b'"
    return {"q": q, "kind": "lex-" + k}


tokens = st.lists(st.sampled_from(['"a"', "[", "]", "(", ")", "|", "&", "!", "a", "s", "i", "within", "Within", "S", "=", "!=", ":", "/", "{", "}", ",", "2", "+", "*", "?",
                                   "[]", '[a="b"]', 'a="b"', '"c"/l']), min_size=1, max_size=7).map(lambda t: {"q": " ".join(t), "kind": "tokens"})

PROP = Prop(
    "C01",
    "non-blank query string; distinct query texts counted, split by expected verdict (accept / lex / syntax / semantic)",
    [
        Sub("accepts-valid", valid(leaves=7, rich=1), accept, 260, 12000),
        Sub("verdict", any_query(), decide, 900, 40000),
        Sub("lexical", lexical(), decide, 900, 40000),
        Sub("tokens", tokens, decide, 600, 40000),
    ],
    ["reference recogniser pbt/ref.py states the language (cross-checked with trees known by construction and, in C25, with the published grammar)",
     "nesting depth up to 4, up to 8 leaves, literals up to ~100 characters; queries nested deeper than the recursion limit are out of scope (see C11)"],
)
