"""C12: diagnostics of rejected queries."""
from hypothesis import strategies as st

from .. import gen, ref, sut
from ..common import any_query
from ..core import Prop, Sub
from ..sut import ensure, fcsql, fp


def check(case, ctx):
    q = case["q"]
    want, rej = ref.verdict(q)
    p = sut.parser(loc=case.get("loc", True))
    node, exc = sut.try_parse(q, p=p)
    ctx.label("kind:" + case.get("kind", "?"), "expect:" + (rej.kind if rej else "accept"))
    if want is not None or node is not None:
        ensure(node is None or p.errors == [], lambda: f"{q!r}: errors after a successful parse: {p.errors}")
        return
    ctx.nontrivial("nt:" + rej.kind + (":eof" if rej.kind == "syntax" and rej.tok is None else "") + (":multiline" if "\n" in q[: rej.offset] else ""))
    es = p.errors
    ensure(isinstance(es, list) and all(isinstance(e, fp.ErrorDetail) for e in es), lambda: f"{q!r}: errors is {es!r}")
    ensure(isinstance(exc, fp.QueryParserException) and str(exc).strip(), lambda: f"{q!r}: exception without message")
    if rej.kind == "semantic":
        return
    ensure(es, lambda: f"{q!r}: rejected without any error detail")
    ensure(es[0].message in str(exc), lambda: f"{q!r}: exception {str(exc)!r} does not carry the first error {es[0].message!r}")
    for e in es:
        ensure(e.type == "syntax-error" and isinstance(e.message, str) and e.message, lambda: f"{q!r}: error detail {e}")
        if isinstance(e.position, fp.SourceLocation):
            ensure(0 <= e.position.start <= e.position.stop <= len(q), lambda: f"{q!r}: position {e.position} outside the query")
        elif e.position is not None:
            ensure(0 <= e.position <= len(q), lambda: f"{q!r}: position {e.position} outside the query")
        if e.fragment is not None:
            ensure(q.startswith(e.fragment), lambda: f"{q!r}: fragment {e.fragment!r} is no prefix of the query")
            if isinstance(e.position, fp.SourceLocation):
                ensure(len(e.fragment) == e.position.stop, lambda: f"{q!r}: fragment {e.fragment!r} does not end at {e.position}")
    if rej.kind == "lex":
        pos = [e.position for e in es if isinstance(e.position, int)]
        ensure(pos and min(pos) == rej.offset, lambda: f"{q!r}: first unrecognisable text is at {rej.offset}, reported {pos} in {es}")
        return
    # the first complaint names the first token that no valid query can have there
    e = es[0]
    got = (e.position.start, e.position.stop) if isinstance(e.position, fp.SourceLocation) else e.position
    w = (rej.offset, rej.tok.stop if rej.tok else rej.offset)
    ensure(got == w, lambda: f"{q!r}: the query is fine up to offset {w[0]}, but the first error is reported at {got}: {e}")
    ensure(e.fragment == q[: w[1]], lambda: f"{q!r}: fragment {e.fragment!r}, expected {q[:w[1]]!r}")
    if rej.tok is not None:
        ensure(rej.tok.text in e.message or any(ord(c) < 32 for c in rej.tok.text), lambda: f"{q!r}: message {e.message!r} does not name the offending {rej.tok.text!r}")


@st.composite
def broken_at(draw):
    """a valid query cut at a token boundary, with optional junk after the cut, on several lines"""
    g = draw(gen.queries(leaves=4, rich=0))
    k = draw(st.integers(0, len(g.toks)))
    toks = list(g.toks[:k]) + draw(st.lists(st.sampled_from([")", "]", "}", "|", "&", "/", "=", "5", "abc", "within", "$", "%", "\\", '"x', "'y", "!", ":"]), max_size=2))
    sep = draw(st.sampled_from([" ", "\n", "\r\n", " \n "]))
    text = draw(st.sampled_from(["", "\n", " "])) + sep.join(toks) + draw(st.sampled_from(["", "\n", " "]))
    return {"q": gen.cap(text), "kind": "cut", "loc": draw(st.booleans())}


def listing(case, ctx):
    """validate(..., return_errors=True) reports the parser's own error details"""
    q = case["q"]
    p = sut.parser()
    node, exc = sut.try_parse(q, p=p)
    if node is not None:
        return
    ctx.nontrivial("nt:listing")
    es = sut.call("validate", fcsql.validate, q, return_errors=True)
    ensure(es and all(isinstance(e, fp.ErrorDetail) for e in es), lambda: f"validate({q!r}) returned {es!r}")
    if p.errors:
        ensure(list(es) == list(p.errors), lambda: f"{q!r}: validate lists {es}, the parser {p.errors}")
    else:
        ensure(len(es) == 1 and str(exc) in es[0].message or es[0].message in str(exc), lambda: f"{q!r}: validate lists {es}, the parser raised {exc}")


def strays(case, ctx):
    """text that no query can contain, here and there in an otherwise valid query: each piece is reported, in order"""
    toks, at = case["toks"], dict(case["at"])
    q, want = "", []
    for i, t in enumerate(toks + [""]):
        for c in at.get(i, ""):
            want.append(len(q))
            q += c + case["gap"]
        q += t + " " if t else ""
    p = sut.parser(loc=case["loc"])
    node, exc = sut.try_parse(q, p=p)
    ensure(node is None or not want, lambda: f"{q!r} accepted")
    if not want:
        return
    ctx.nontrivial("nt:strays:%d" % min(len(want), 5))
    got = [e.position for e in p.errors if isinstance(e.position, int)]
    ensure(got == want and len(p.errors) == len(want), lambda: f"{q!r}: unrecognisable text at {want}, reported {p.errors}")
    ensure(sut.call("validate", fcsql.validate, q, return_errors=True) == p.errors, lambda: f"{q!r}: validate lists other problems than the parser")


@st.composite
def stray_case(draw):
    g = draw(gen.queries(leaves=4, rich=0))
    toks = list(g.toks)[:40]
    if len(toks) < len(g.toks):
        toks = ['"a"']
    junk = draw(st.sampled_from(["$", "%", "\\", "#", "\u00e4", "$%", "~;<>", "\x00"]))
    at = draw(st.lists(st.tuples(st.integers(0, len(toks)), st.text(alphabet=junk, min_size=1, max_size=4)).map(list), min_size=1, max_size=3))
    if draw(st.integers(0, 11)) == 0:  # many of them
        at[0][1] = (at[0][1] * 200)[:draw(st.sampled_from([12, 20, 33, 65, 110, 130, 260]))]
    return {"toks": toks, "at": at, "gap": draw(st.sampled_from(["", "", " ", "\n"])), "loc": draw(st.booleans())}


@st.composite
def long_case(draw):
    """a very long word, string or run of strays where the query goes wrong"""
    n = draw(st.sampled_from([300, 1000, 2100, 4200, 9000]))
    w = draw(st.sampled_from(["a", "ab", "x-1"]))
    w = w * (n // len(w))
    tok = draw(st.sampled_from([w, '"' + w + '"', "'" + w + "'", "1" * min(n, 4200)]))
    pre, post = draw(st.sampled_from([("", ""), ("[", "]"), ("[ text = 'a' ", "]"), ("'a' within ", ""), ("'b' within s ", ""), ("'b' [", ""), ("( ", ")"), ("[a='b'/", "]"), ("'x'/", ""), ("'x'{", "}"), ("'x'{1,", "}")]))
    return {"q": draw(st.sampled_from(["", "\n"])) + pre + tok + post, "kind": "long", "loc": draw(st.booleans())}


PROP = Prop("C12", "rejected query (distinct texts), split by lexical / syntactic / semantic cause, end of input, multi-line", [
    Sub("any", any_query(), check, 900, 30000),
    Sub("cut", broken_at(), check, 900, 30000),
    Sub("long", long_case(), check, 60, 600),
    Sub("strays", stray_case(), strays, 250, 6000),
    Sub("listing", st.one_of(any_query(), broken_at()), listing, 250, 6000),
], ["the grammar is LL(2), so the first non-viable token is well defined and computed by the reference parser"])
