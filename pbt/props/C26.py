"""C26: the low-level tree can be walked, visited and queried consistently."""
import inspect

from hypothesis import strategies as st

from .. import ref, sut
from ..common import valid
from ..core import Prop, Sub
from ..sut import ensure, fcsql

import antlr4
from antlr4.tree.Tree import ParseTreeWalker, TerminalNode

RULES = list(fcsql.FCSParser.ruleNames)
SYM = list(fcsql.FCSParser.symbolicNames)

NAMES = list(dict.fromkeys(RULES + SYM + ["EOF"]))


def camel(rule):
    return rule[:1].upper() + rule[1:]


def contexts(t):
    if not isinstance(t, TerminalNode):
        yield t
        for c in t.getChildren():
            yield from contexts(c)


def rule(c):
    return RULES[c.getRuleIndex()]


def walk(case, ctx):
    q = case["q"]
    tree = sut.call("antlr_parse", fcsql.antlr_parse, q)
    log = []
    bodies = {}
    for r in RULES:
        for pre in ("enter", "exit"):
            name = pre + camel(r)
            ensure(callable(getattr(fcsql.FCSParserListener, name, None)), lambda: f"listener has no method {name}")
            bodies[name] = (lambda name, sup: lambda self, c: (log.append((name, c)), sup(self, c))[0])(name, getattr(fcsql.FCSParserListener, name))
    bodies["visitTerminal"] = lambda self, t: log.append(("terminal", t))
    L = type("L", (fcsql.FCSParserListener,), bodies)
    sut.call("walk", ParseTreeWalker.DEFAULT.walk, L(), tree)

    def expect(t):
        if isinstance(t, TerminalNode):
            yield ("terminal", t)
            return
        yield ("enter" + camel(rule(t)), t)
        for c in t.getChildren():
            yield from expect(c)
        yield ("exit" + camel(rule(t)), t)

    want = list(expect(tree))
    same = len(want) == len(log) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(log, want))
    ensure(same, lambda: f"{q!r}: listener events {[e[0] for e in log]}, expected {[e[0] for e in want]}")
    # visitor
    vlog = []
    vb = {}
    for r in RULES:
        name = "visit" + camel(r)
        sup = getattr(fcsql.FCSParserVisitor, name, None)
        ensure(callable(sup), lambda: f"visitor has no method {name}")
        vb[name] = (lambda name, sup: lambda self, c: (vlog.append((name, c)), sup(self, c))[1])(name, sup)
    vb["aggregateResult"] = lambda self, a, b: (a or 0) + (b or 0)
    vb["visitTerminal"] = lambda self, t: 1
    V = type("V", (fcsql.FCSParserVisitor,), vb)
    n = sut.call("visit", V().visit, tree)
    w = [("visit" + camel(rule(c)), c) for c in contexts(tree)]
    ensure(len(w) == len(vlog) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(vlog, w)),
           lambda: f"{q!r}: visitor calls {[e[0] for e in vlog]}, expected {[e[0] for e in w]}")
    ensure(n == len(ref.lex(q)) + 1, lambda: f"{q!r}: visitor counted {n} terminals, expected {len(ref.lex(q)) + 1}")
    ctx.nontrivial("rules:%s" % ("<10" if len(w) < 10 else "10-25" if len(w) < 26 else "26+"))
    ctx.label(*{"rule:" + rule(c) for c in contexts(tree)})


def ducks(case, ctx):
    """listeners and visitors of any class need only have the methods they want called"""
    q, have = case["q"], case["have"]
    tree = sut.call("antlr_parse", fcsql.antlr_parse, q)
    log = []
    bodies = {m: (lambda m: lambda self, c: log.append((m, c)))(m) for m in have}
    bodies.update({m: lambda self, *a: None for m in ("enterEveryRule", "exitEveryRule", "visitTerminal", "visitErrorNode")})
    sut.call("walk", ParseTreeWalker.DEFAULT.walk, type("Duck", (), bodies)(), tree)

    def expect(t):
        if isinstance(t, TerminalNode):
            return
        yield ("enter" + camel(rule(t)), t)
        for c in t.getChildren():
            yield from expect(c)
        yield ("exit" + camel(rule(t)), t)

    want = [e for e in expect(tree) if e[0] in have]
    ensure(len(want) == len(log) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(log, want)), lambda: f"{q!r}: a listener with {have} gets {[e[0] for e in log]}, expected {[e[0] for e in want]}")
    log.clear()
    some = {"visit" + m[5:] if m.startswith("enter") else "visit" + m[4:] for m in have}

    def body(m):
        def f(self, c):
            log.append((m, c))
            return self.visitChildren(c)
        return f

    sut.call("visit", lambda: tree.accept(type("Duck", (antlr4.ParseTreeVisitor,), {m: body(m) for m in some})()))
    want = [("visit" + camel(rule(c)), c) for c in contexts(tree) if "visit" + camel(rule(c)) in some]
    ensure(len(want) == len(log) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(log, want)), lambda: f"{q!r}: a visitor with {sorted(some)} gets {[e[0] for e in log]}, expected {[e[0] for e in want]}")
    if want:
        ctx.nontrivial("ducks")


def accessors(case, ctx):
    """typed accessors of a context select its children"""
    q = case["q"]
    tree = sut.call("antlr_parse", fcsql.antlr_parse, q)
    n, arity = 0, {}
    for c in contexts(tree):
        kids = list(c.getChildren())
        ensure(len(kids) == c.getChildCount() and all(c.getChild(i) is k for i, k in enumerate(kids)), lambda: f"{q!r}: getChild of {rule(c)}")
        ensure(type(c) is getattr(fcsql.FCSParser, camel(rule(c)) + "Context"), lambda: f"{q!r}: {type(c).__name__} has rule {rule(c)}")
        by = {}
        for k in kids:
            by.setdefault((SYM[k.symbol.type] if k.symbol.type > 0 else "EOF") if isinstance(k, TerminalNode) else rule(k), []).append(k)
        for name in NAMES:
            f = getattr(c, name, None)
            sel = by.get(name, [])
            if f is None or not callable(f):
                ensure(not sel, lambda: f"{q!r}: {rule(c)} has a child {name} but no accessor for it")
                continue
            n += 1
            if (type(c), name) not in arity:
                arity[type(c), name] = len(inspect.signature(f).parameters) > 0
            many = arity[type(c), name]
            if many:
                got = sut.call(f"{rule(c)}.{name}()", f)
                ensure(len(got) == len(sel) and all(a is b for a, b in zip(got, sel)), lambda: f"{q!r}: {rule(c)}.{name}() gives {len(got)} children, there are {len(sel)}")
                for i in range(len(sel)) if len(sel) < 40 else [*range(20), *range(20, len(sel), 1 + len(sel) // 10), len(sel) - 1]:
                    k = sel[i]
                    ensure(f(i) is k, lambda: f"{q!r}: {rule(c)}.{name}({i})")
                ensure(f(len(sel)) is None, lambda: f"{q!r}: {rule(c)}.{name}({len(sel)}) is something")
            else:
                got = sut.call(f"{rule(c)}.{name}()", f)
                ensure(len(sel) < 2, lambda: f"{q!r}: {rule(c)} has {len(sel)} children {name}, but only a single accessor")
                ensure(got is (sel[0] if sel else None), lambda: f"{q!r}: {rule(c)}.{name}() gives {got}, expected {sel}")
    ctx.nontrivial("accessors:%s" % ("<20" if n < 20 else "20-60" if n < 61 else "61+"))


def structure(case, ctx):
    """rule contexts correspond to the high-level nodes (kind and text range)"""
    q = case["q"]
    tree = sut.call("antlr_parse", fcsql.antlr_parse, q)
    node = sut.parse_ok(q, loc=True)
    R = {"query_disjunction": "QueryDisjunction", "query_sequence": "QuerySequence", "query_group": "QueryGroup", "query_simple": "QuerySegment",
         "within_part_simple": "SimpleWithin", "expression_or": "ExpressionOr", "expression_and": "ExpressionAnd", "expression_not": "ExpressionNot",
         "expression_group": "ExpressionGroup", "expression_basic": "Expression", "query_implicit": "Expression"}
    low = []
    for c in contexts(tree):
        k = R.get(rule(c)) or ("ExpressionWildcard" if rule(c) == "query_segment" and c.getChildCount() == 2 else None)
        if k:
            low.append((k, c.start.start, c.stop.stop + 1))
        ensure(q[c.start.start : c.stop.stop + 1] is not None, "")
    high = [(sut.kind(n), n.location.start, n.location.stop) for n in sut.nodes(node) if sut.kind(n) != "QueryWithWithin"]
    ensure(low == high, lambda: f"{q!r}: low-level rules {low}, tree {high}")
    if len(high) > 3:
        ctx.nontrivial("nt:structure")


v = valid(leaves=6, depth=3, rich=1)
PROP = Prop("C26", "parse tree of a valid query (distinct texts); structure counts trees with more than three nodes", [
    Sub("walk", v, walk, 250, 6000),
    Sub("ducks", st.tuples(v, st.lists(st.sampled_from([p + camel(r) for p in ("enter", "exit") for r in RULES]), min_size=1, max_size=12, unique=True)).map(lambda t: {**t[0], "have": t[1]}), ducks, 150, 4000),
    Sub("accessors", v, accessors, 250, 6000),
    Sub("structure", v, structure, 250, 6000),
])
