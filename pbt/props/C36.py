"""C36: the ANTLR classes of the package, wired up by hand as the documentation shows, agree with the wrappers."""
from hypothesis import strategies as st

from .. import gen, ref, sut
from ..common import any_query, valid
from ..core import Prop, Sub
from ..sut import ensure, fcsql, fp  # makes antlr4 importable

import antlr4
from antlr4.error.ErrorListener import ErrorListener
from antlr4.error.ErrorStrategy import BailErrorStrategy
from antlr4.error.Errors import ParseCancellationException

RULES = fcsql.FCSParser.ruleNames


class Keep(ErrorListener):
    def __init__(self):
        self.got = []

    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
        self.got.append((line, column, msg))


def wire(q, keep, lexer=None, parser=None, fill=False):
    """lexer and parser for q; given ones are used again"""
    inp = antlr4.InputStream(q)
    if lexer is None:
        lexer = fp.FCSLexer(inp)
    else:
        lexer.inputStream = inp
    lexer.removeErrorListeners()
    lexer.addErrorListener(keep)
    stream = antlr4.CommonTokenStream(lexer)
    if fill:
        stream.fill()  # all tokens fetched before the parser sees them
    if parser is None:
        parser = fp.FCSParser(stream)
    else:
        parser.setTokenStream(stream)
    parser.removeErrorListeners()
    parser.addErrorListener(keep)
    return lexer, stream, parser


def line_col(q, off):
    return q.count("\n", 0, off) + 1, off - (q.rfind("\n", 0, off) + 1)


def shape(t):
    if isinstance(t, antlr4.TerminalNode):
        s = t.symbol
        return (s.type, s.start, s.stop, s.text, s.line, s.column)
    return (type(t).__name__, [shape(c) for c in t.getChildren()])


def verdict(q):
    try:
        ref.parse_syntax(q)
        return None
    except ref.Reject as r:
        return r


def check(case, ctx):
    """a history of queries through fresh and through reused lexer/parser objects"""
    lx = pr = None
    for i, q in enumerate(case["qs"]):
        rej = verdict(q)
        ctx.label("rejected:" + rej.kind if rej else "accepted")
        keep = Keep()
        fill = case["fill"] >> i & 1 and (rej is None or rej.kind != "lex")
        _, stream, p = wire(q, keep, fill=fill)
        tree = sut.call(f"FCSParser(...).query() on {q!r}", p.query)
        ensure(isinstance(tree, fcsql.FCSParser.QueryContext), lambda: f"{q!r}: query() returned {type(tree).__name__}")
        ok = not keep.got
        ensure(ok is (rej is None), lambda: f"{q!r}: hand-wired parser reports {keep.got}, expected {rej or 'nothing'}")
        if rej is None:
            ensure(p.getNumberOfSyntaxErrors() == 0, lambda: f"{q!r}: {p.getNumberOfSyntaxErrors()} syntax errors counted, none reported")
        elif rej.kind == "syntax":
            ensure(p.getNumberOfSyntaxErrors() > 0, lambda: f"{q!r}: errors reported {keep.got}, none counted")
        toks = [t for t in stream.tokens]
        ensure(toks and toks[-1].type == antlr4.Token.EOF or rej is not None, lambda: f"{q!r}: not all tokens were fetched")
        if rej is None:
            want = ref.lex(q)
            ensure([(t.start, t.stop + 1, t.text) for t in toks[:-1]] == [(t.start, t.stop, t.text) for t in want], lambda: f"{q!r}: token stream {[t.text for t in toks]}")
            pos = [(t.line, t.column) for t in toks]
            ensure(pos == [line_col(q, t.start) for t in want] + [line_col(q, len(q))], lambda: f"{q!r}: lines and columns {pos}")
            w = sut.call("antlr_parse", fcsql.antlr_parse, q)
            ensure(shape(tree) == shape(w), lambda: f"{q!r}: hand-wired parser and antlr_parse give different trees")
            # the tree prints as nested rule names and tokens
            s = tree.toStringTree(RULES, p)
            ensure(s == w.toStringTree(RULES) and s.startswith("(query "), lambda: f"{q!r}: tree text {s!r}")
            # the high-level tree can be built from it
            n = sut.try_parse(q)[0]
            b = fp.ExpressionTreeBuilder(sut.parser())
            if n is not None and hasattr(b, "stack"):
                sut.call("ExpressionTreeBuilder.visit", b.visit, tree)
                got = sut.snap(b.stack[-1])
                ensure(got.key(True) == sut.snap(n).key(True), lambda: f"{q!r}: tree builder on a hand-made parse gives {got.show(True)}")
        else:
            try:
                fcsql.antlr_parse(q)
                sut.fail(f"{q!r}: antlr_parse accepts what the hand-wired parser complains about: {keep.got}")
            except fcsql.SyntaxError as e:
                line, col, msg = keep.got[0]
                if rej.kind == "syntax" or msg.startswith("token recognition error"):
                    ensure((line, col) == line_col(q, rej.offset), lambda: f"{q!r}: first complaint is at line {line}, column {col}, expected {line_col(q, rej.offset)} ({rej})")
                ensure(str(e) == f"line {line}:{col} {msg}", lambda: f"{q!r}: antlr_parse says {e}, the hand-wired parser {keep.got[0]}")
        # a parser that gives up at once
        if rej is None or rej.kind == "syntax":
            _, _, p2 = wire(q, Keep())
            p2._errHandler = BailErrorStrategy()
            try:
                t2 = p2.query()
            except ParseCancellationException:
                ensure(rej is not None, lambda: f"{q!r}: bailing parser rejects an acceptable query")
            except Exception as e:
                sut.fail(f"{q!r}: bailing parser raised {type(e).__name__}: {e}")
            else:
                ensure(rej is None, lambda: f"{q!r}: bailing parser accepts it")
                ensure(shape(t2) == shape(tree), lambda: f"{q!r}: bailing parser gives another tree")
        # the same objects used again
        k2 = Keep()
        lx, _, pr = wire(q, k2, lx, pr, fill)
        t3 = sut.call(f"reused parser on {q!r}", pr.query)
        ensure(k2.got == keep.got and shape(t3) == shape(tree), lambda: f"{case['qs']}: reused lexer and parser give {k2.got} / {shape(t3)} for {q!r}, fresh ones {keep.got} / {shape(tree)}")
    if len(case["qs"]) > 1 or verdict(case["qs"][0]) is None:
        ctx.nontrivial("history" if len(case["qs"]) > 1 else "single")


qs = st.one_of(any_query(), valid(leaves=5, rich=0)).map(lambda c: c["q"])
PROP = Prop("C36", "accepted query or history of several queries through hand-wired parsers (distinct histories)", [
    Sub("history", st.lists(qs, min_size=1, max_size=3).flatmap(lambda q: st.integers(0, 7).map(lambda f: {"qs": q, "fill": f})), check, 450, 10000),
])
