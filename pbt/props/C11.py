"""C11: every string is answered by a tree or the documented error, by every entry point."""
from hypothesis import strategies as st

from .. import gen, ref, sut
from ..common import any_query, valid
from ..core import Prop, Sub
from ..sut import ensure, fcsql, fp, fv


def entry_points(q, deep=False):
    node, exc = sut.try_parse(q)
    for loc in (True, False):
        try:
            n = fcsql.parse(q, enableSourceLocations=loc)
            ensure(isinstance(n, fp.QueryNode), lambda: f"parse({q[:200]!r}) returned {n!r}")
        except fcsql.QueryParserException:
            pass
        except Exception as e:
            sut.fail(f"parse({q[:200]!r}) raised undocumented {type(e).__name__}: {str(e)[:200]}")
    can = sut.call(f"can_parse({q[:200]!r})", fcsql.can_parse, q)
    ensure(can is True or can is False, lambda: f"can_parse({q[:200]!r}) returned {can!r}")
    for wae in (False, True):
        v = sut.call(f"validate({q[:200]!r})", fcsql.validate, q, warnings_as_errors=wae)
        ensure(v is True or v is False, lambda: f"validate({q[:200]!r}) returned {v!r}")
        ensure(can or v is False, lambda: f"validate({q[:200]!r}) is True for a query that cannot be parsed")
        es = sut.call(f"validate({q[:200]!r}, return_errors=True)", fcsql.validate, q, return_errors=True, warnings_as_errors=wae)
        ensure(isinstance(es, list) and all(isinstance(e, fp.ErrorDetail) and isinstance(e.message, str) and e.message for e in es),
               f"validate({q[:200]!r}, return_errors=True) returned {es!r}")
        if not can and not deep:
            ensure(es, lambda: f"validate({q[:200]!r}, return_errors=True) is empty for a query that cannot be parsed")
    return node, exc


def check(case, ctx):
    q = case["q"]
    node, exc = entry_points(q)
    ctx.label("kind:" + case.get("kind", "?"), "tree" if node is not None else "error")
    if q.strip():
        ctx.nontrivial()
    if exc is not None:
        ensure(isinstance(exc, fp.QueryParserException) and str(exc), lambda: f"parse({q!r}): exception without message")
        try:
            fcsql.antlr_parse(q)
        except fcsql.SyntaxError:
            pass
        except Exception as e:
            sut.fail(f"antlr_parse({q!r}) raised undocumented {type(e).__name__}: {e}")
    else:
        sut.call(f"antlr_parse({q!r})", fcsql.antlr_parse, q)


SHAPES = ["qgroup", "egroup", "not", "notgroup", "open", "andgroup", "seqgroup", "quantgroup", "sqopen", "mixed"]


def deep_query(shape, d):
    if shape == "qgroup":
        return "(" * d + '"a"' + ")" * d
    if shape == "seqgroup":
        return '("a"' * d + '"b"' + ")" * d
    if shape == "quantgroup":
        return "(" * d + "[]" + "){2}" * d
    if shape == "egroup":
        return "[" + "(" * d + 'a="b"' + ")" * d + "]"
    if shape == "not":
        return "[" + "!" * d + 'pos="b"' + "]"
    if shape == "notgroup":
        return "[" + "!(" * d + 'word="b"' + ")" * d + "]"
    if shape == "andgroup":
        return "[" + '(a="b"&' * d + 'text="b"' + ")" * d + "]"
    if shape == "open":
        return "(" * d
    if shape == "sqopen":
        return "[(" * d
    return "(" * (d // 2) + "[" + "(" * (d - d // 2) + 'text="b"' + ")" * (d - d // 2) + "]" + ")" * (d // 2)


def deep(case, ctx):
    q = deep_query(case["shape"], case["d"])
    ctx.label("shape:" + case["shape"], "depth:%d+" % (case["d"] // 50 * 50))
    ctx.nontrivial()
    node, exc = entry_points(q, deep=True)
    if case["d"] <= 40 and case["shape"] not in ("open", "sqopen"):
        ensure(node is not None, lambda: f"query nested {case['d']} deep ({case['shape']}) rejected: {exc}")


deep_case = st.fixed_dictionaries({"shape": st.sampled_from(SHAPES), "d": st.one_of(st.integers(1, 60), st.integers(60, 260))})


def long(case, ctx):
    n = case["n"]
    q = {"seq": '"a"' * n, "alt": "|".join(['"a"'] * n), "or": "[" + "|".join(['text="a"'] * n) + "]", "and": "[" + "&".join(['text="a"'] * n) + "]",
         "lit": '"' + "a\\." * n + '"', "ws": " " * n + '"a"' + "\n" * n, "mixed": "[" + "|".join(['text="a"&!pos="X"'] * n) + "]", "digits": '"a"{' + "1" * n * 10 + "}",
         "name": "[x-" + "a" * n + '="a"]', "junk": "%" * n, "quote": '"' * n}[case["kind"]]
    ctx.label("long:" + case["kind"])
    ctx.nontrivial()
    node, exc = entry_points(q)
    if case["kind"] not in ("junk", "quote", "digits"):
        ensure(node is not None, lambda: f"{case['kind']} query of length {len(q)} rejected: {exc}")


long_case = st.fixed_dictionaries({"kind": st.sampled_from(["seq", "alt", "or", "and", "lit", "ws", "mixed", "digits", "name", "junk", "quote"]), "n": st.integers(1, 600)})

BYTES = st.text(alphabet=st.characters(), max_size=30)
QUOTY = st.lists(st.sampled_from(['"', "'", "\\", "\\x", "\\u12", "\\U0011", "\\q", "[", "]", "(", ")", "{", "}", "text=", "/", "i", "l", "0", ",", "\x00", "\ud800", "\U0010ffff", " ", "\n", "within ", "s", "&", "|", "!"]),
                 max_size=14).map("".join)

REGEXY = ["a", "N", ".", "*", "+", "?", "{", "}", "[", "]", "(", ")", "|", "^", "$", "\\\\", "\\(", "\\[", "\\.", "{99999999999}", "{2,1}", "{,4294967296}", "(?P<n>", "(?i)", "(?<=a+)", "[^", "[b-a]", "[[:alpha:]]", "**",
          "\\\\1", "\\\\p{L}", "(?(1)a|b)", "(?#", "%s", "{}", "{0}", "%(a)s", "\\x00", "\\uD800", "\U0001f600", "-", " ", "1"]


@st.composite
def regexy(draw):
    """text that looks like a regular expression or format string, good or broken, in every place of a query"""
    lit = "".join(draw(st.lists(st.sampled_from(REGEXY), min_size=1, max_size=8)))
    return {"q": draw(st.sampled_from(["[pos='{}']", "[pos!='{}']", "[text='{}']", "'{}'", "[ud:pos='{}']", "[foo='{}'/i]", "[pos='{}'/d]", "[word='{}' | pos='X']", "{}", "[{}]"])).replace("{}", lit, 1), "kind": "regexy"}


PROP = Prop("C11", "non-blank string (distinct); deep and long cases are all counted", [
    Sub("any", any_query(), check, 400, 20000),
    Sub("valid", valid(leaves=6, rich=2).map(lambda c: {"q": c["q"], "kind": "valid"}), check, 150, 6000),
    Sub("chars", st.one_of(BYTES, QUOTY, QUOTY).map(lambda s: {"q": gen.cap(s), "kind": "chars"}), check, 500, 30000),
    Sub("regexy", regexy(), check, 250, 8000),
    Sub("deep", deep_case, deep, 24, 1200),
    Sub("long", long_case, long, 40, 1500),
], ["queries nested deeper than Python's recursion limit allows may be answered by either outcome, never by another exception",
    "sizes: nesting up to 260, up to 600 items, literals up to 1800 characters"])
