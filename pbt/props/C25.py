"""C25: the published grammar files describe the language the parser implements."""
import functools
import os

from hypothesis import strategies as st

from .. import g4, gen, sut
from ..common import any_query, valid
from ..core import Prop, Sub
from ..sut import ensure, fcsql
from .C01 import lexical

import antlr4


@functools.lru_cache(None)
def grammar(which):
    return g4.Grammar(os.path.join(sut.SRC, "fcsql", which + ".g4"))


@functools.lru_cache(None)
def lexer():
    return g4.Lexer(grammar("FCSLexer"))


SYM = list(fcsql.FCSLexer.symbolicNames)


class Quiet(antlr4.error.ErrorListener.ErrorListener):
    def __init__(self):
        self.errors = []

    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
        self.errors.append((line, column, msg))


def code_tokens(q):
    """what the shipped lexer makes of q -> (tokens before the first error, number of errors)"""
    lx = fcsql.FCSLexer(antlr4.InputStream(q))
    lx.removeErrorListeners()
    quiet = Quiet()
    lx.addErrorListener(quiet)
    out = []
    while True:
        t = lx.nextToken()
        if quiet.errors or t.type == antlr4.Token.EOF:
            return out, len(quiet.errors)
        out.append((SYM[t.type], t.start, t.stop + 1))


def code_accepts(q):
    lx = fcsql.FCSLexer(antlr4.InputStream(q))
    p = fcsql.FCSParser(antlr4.CommonTokenStream(lx))
    quiet = Quiet()
    for r in (lx, p):
        r.removeErrorListeners()
        r.addErrorListener(quiet)
    p.query()
    return not quiet.errors


def grammar_verdict(q):
    toks, bad = lexer().lex(q)
    if bad is not None:
        return toks, False
    return toks, g4.Recogniser(grammar("FCSParser"), [t[0] for t in toks]).accepts("query")


def lexing(case, ctx):
    q = case["q"]
    want, bad = lexer().lex(q)
    got, errs = sut.call("lexer", code_tokens, q)
    ensure((errs > 0) == (bad is not None), lambda: f"{q!r}: the lexer reports {errs} errors, by the grammar file the first one is at {bad}")
    ensure(got[: len(want)] == want and (errs or len(got) == len(want)), lambda: f"{q!r}: tokens {got}, by the grammar file {want}")
    if q:
        ctx.nontrivial("lex:" + ("bad" if errs else "ok"))
    ctx.label(*{"token:" + t[0] for t in want})


def verdict(case, ctx):
    q = case["q"]
    toks, want = grammar_verdict(q)
    ctx.label("kind:" + case.get("kind", "?"))
    if toks:
        ctx.nontrivial("accept" if want else "reject")
    got = sut.call("FCSParser.query", code_accepts, q)
    ensure(got == want, lambda: f"{q!r}: the parser {'accepts' if got else 'rejects'} it, the grammar file does not agree ({[t[0] for t in toks]})")


def prefix_rule(case, ctx):
    """every rule of the grammar can be used as entry point and agrees with the file"""
    q, rule = case["q"], case["rule"]
    toks, bad = lexer().lex(q)
    if bad is not None:
        ctx.label("unlexable")
        return
    g = grammar("FCSParser")
    ends = g4.Recogniser(g, [t[0] for t in toks]).ends(("rule", rule), 0)
    n = len(toks)
    lx = fcsql.FCSLexer(antlr4.InputStream(q))
    p = fcsql.FCSParser(antlr4.CommonTokenStream(lx))
    quiet = Quiet()
    for r in (lx, p):
        r.removeErrorListeners()
        r.addErrorListener(quiet)
    c = sut.call(rule, getattr(p, rule))
    names = [fcsql.FCSParser.ruleNames[c.getRuleIndex()], p.ruleNames[c.getRuleIndex()]]
    ensure(names == [rule, rule], lambda: f"{q!r} as {rule}: its context says that the rule is {names}")
    if not quiet.errors:
        used = p.getTokenStream().index
        ensure(used in ends or (used == n and n + 1 in ends), lambda: f"{q!r} as {rule}: parser consumed {used} tokens, the grammar file allows {sorted(ends)}")
    ctx.label("entry:" + rule)
    if case["whole"]:
        ctx.nontrivial("nt:entry")
        ensure(not quiet.errors, lambda: f"{q!r} is a sentence of {rule}, but the parser reports {quiet.errors}")


LITERAL = None


@st.composite
def token_text(draw, name):
    g = grammar("FCSLexer")
    return "".join(g4.sentence(g, name, draw, st, 12, 14))


@st.composite
def derived(draw, rule="query", depth=None):
    """a sentence of the parser grammar, its tokens spelled by the lexer grammar"""
    names = g4.sentence(grammar("FCSParser"), rule, draw, st, depth or draw(st.integers(6, 16)), 30)
    toks = []
    for n in names:
        if n == "EOF":
            continue
        for _ in range(3):
            t = draw(token_text(n))
            lx, bad = lexer().lex(t)
            if bad is None and [x[0] for x in lx] == [n]:  # e.g. an IDENTIFIER spelled 's' is a scope keyword
                break
        toks.append(t)
    q, _, _ = gen.glue(draw, toks, draw(st.sampled_from(["space", "space", "mixed", "wild"])))
    return q


@st.composite
def soup(draw):
    """token names at random or a sentence with one token changed"""
    names = [n for n in lexer().names if n not in ("Space", "QUOTED_STRING")]
    if draw(st.booleans()):
        ns = draw(st.lists(st.sampled_from(names), min_size=1, max_size=7))
    else:
        ns = [n for n in g4.sentence(grammar("FCSParser"), "query", draw, st, draw(st.integers(6, 14)), 20) if n != "EOF"]
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.integers(0, len(ns)))
            k = draw(st.sampled_from(["ins", "del", "rep", "swap"]))
            if k == "ins" or i >= len(ns):
                ns.insert(i, draw(st.sampled_from(names)))
            elif k == "del":
                del ns[i]
            elif k == "rep":
                ns[i] = draw(st.sampled_from(names))
            else:
                j = draw(st.integers(0, len(ns) - 1))
                ns[i], ns[j] = ns[j], ns[i]
    toks = [draw(token_text(n)) for n in ns]
    return {"q": gen.glue(draw, toks, "space")[0], "kind": "tokens"}


@st.composite
def entry(draw):
    rule = draw(st.sampled_from(sorted(grammar("FCSParser").rules)))
    q = draw(derived(rule, 14))
    whole = False
    toks, bad = lexer().lex(q)
    if bad is None:
        ends = g4.Recogniser(grammar("FCSParser"), [t[0] for t in toks]).ends(("rule", rule), 0)
        whole = (len(toks) in ends or len(toks) + 1 in ends)
    if draw(st.integers(0, 2)) == 0:
        return {"q": q + " " + draw(st.sampled_from(["]", ")", "|", "&", "s", '"x"', "{", "!"])), "rule": rule, "whole": False}
    return {"q": q, "rule": rule, "whole": whole}


@st.composite
def chars(draw):
    """character level: pieces of token spellings, cut and joined without spaces"""
    names = lexer().names
    out = ""
    for _ in range(draw(st.integers(1, 4))):
        t = draw(token_text(draw(st.sampled_from(names))))
        i = draw(st.integers(0, len(t)))
        out += t if draw(st.integers(0, 2)) else t[:i]
    return {"q": out}


def artefacts(case, ctx):
    """token tables shipped next to the code name the same tokens"""
    name = case["name"]
    want = {}
    for line in open(os.path.join(sut.SRC, "fcsql", case["file"]), encoding="utf-8"):
        if "=" in line and line.strip():
            k, v = line.strip().rsplit("=", 1)
            want[k] = int(v)
    ctx.nontrivial("tokens-file")
    rules = list(grammar("FCSParser").rules)
    ensure(list(fcsql.FCSParser.ruleNames) == rules, lambda: f"rule names of the parser {fcsql.FCSParser.ruleNames}, of the grammar file {rules}")
    for i, r in enumerate(rules):
        ensure(getattr(fcsql.FCSParser, "RULE_" + r, None) == i, lambda: f"FCSParser.RULE_{r} is not {i}")
    names = [n for n in lexer().names if n not in lexer().g.skip]
    ensure(name not in names or name in want, lambda: f"{case['file']} does not list token {name}")
    if name in want:
        a, b = getattr(fcsql.FCSLexer, name, None), getattr(fcsql.FCSParser, name, None)
        ensure(a == b == want[name], lambda: f"{name}: {case['file']} says {want[name]}, lexer {a}, parser {b}")
        ensure(SYM[want[name]] == name and fcsql.FCSParser.symbolicNames[want[name]] == name, lambda: f"symbolic name of token type {want[name]}")


sentences = derived().map(lambda q: {"q": q, "kind": "sentence"})
PROP = Prop("C25", "non-empty token sequence or text (distinct texts), split by the verdict of the grammar file", [
    Sub("lex-text", st.one_of(lexical().map(lambda c: {"q": c["q"]}), any_query(), chars()), lexing, 500, 15000),
    Sub("lex-chars", chars(), lexing, 400, 15000),
    Sub("sentences", sentences, verdict, 300, 8000),
    Sub("soup", soup(), verdict, 400, 12000),
    Sub("queries", st.one_of(any_query(), valid(leaves=6, depth=3, rich=1)), verdict, 300, 8000),
    Sub("entry-points", entry(), prefix_rule, 300, 8000),
    Sub("token-tables", st.fixed_dictionaries({"name": st.sampled_from([n for n in SYM if n != "<INVALID>"] + ["Space"]), "file": st.sampled_from(["FCSLexer.tokens", "FCSParser.tokens"])}), artefacts, 60, 200),
], ["the grammar files are read by pbt/g4.py (the ANTLR tool itself is not available here)", "non-greedy operators and lexer modes do not occur in the grammar"])
