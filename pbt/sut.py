"""Access to the code under test (/repo working tree) and snapshots of its results."""
import ast
import os
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
ANTLR_SITE = "/opt/venv/lib/python3.12/site-packages"
sys.dont_write_bytecode = True
sys.path.insert(0, SRC)
sys.path.append(ANTLR_SITE)

# the runtime's default console listener prints to stderr; checks do not look at it
import fcsql  # noqa: E402
import fcsql.parser as fp  # noqa: E402
import fcsql.validation as fv  # noqa: E402

assert os.path.realpath(fcsql.__file__).startswith(os.path.realpath(SRC) + os.sep), fcsql.__file__

from .ref import N  # noqa: E402


class Violation(Exception):
    """The property is broken by the code under test."""


def fail(msg):
    raise Violation(msg)


def ensure(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def from_sut(exc):
    """Does the traceback of exc pass through the code under test (or the ANTLR runtime below it)?"""
    for f, _ in traceback.walk_tb(exc.__traceback__):
        fn = f.f_code.co_filename
        if fn.startswith(SRC + os.sep) or fn.startswith(ANTLR_SITE + "/antlr4"):
            return True
    return False


def call(what, fn, *a, **k):
    """Call into the code under test where no exception is allowed."""
    try:
        return fn(*a, **k)
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{what} raised {type(e).__name__}: {str(e)[:300]}") from e


FLAGNAME = {
    fp.RegexFlag.CASE_INSENSITIVE: "ci",
    fp.RegexFlag.CASE_SENSITIVE: "cs",
    fp.RegexFlag.LITERAL_MATCHING: "lit",
    fp.RegexFlag.IGNORE_DIACRITICS: "dia",
}
FLAGOF = {v: k for k, v in FLAGNAME.items()}
OPOF = {"Eq": fp.Operator.EQUALS, "Ne": fp.Operator.NOT_EQUALS}
CLASSES = {
    c.__name__: c
    for c in (
        fp.Expression, fp.ExpressionWildcard, fp.ExpressionGroup, fp.ExpressionNot, fp.ExpressionAnd,
        fp.ExpressionOr, fp.QueryDisjunction, fp.QuerySequence, fp.QueryWithWithin, fp.QuerySegment,
        fp.QueryGroup, fp.SimpleWithin,
    )
}
# as an application may make them
SUBCLASSES = {k: type("My" + k, (c,), {"note": None}) for k, c in CLASSES.items()}
NODE_TYPE = {
    "Expression": fp.QueryNodeType.EXPRESSION,
    "ExpressionWildcard": fp.QueryNodeType.EXPRESSION_WILDCARD,
    "ExpressionGroup": fp.QueryNodeType.EXPRESSION_GROUP,
    "ExpressionNot": fp.QueryNodeType.EXPRESSION_NOT,
    "ExpressionAnd": fp.QueryNodeType.EXPRESSION_AND,
    "ExpressionOr": fp.QueryNodeType.EXPRESSION_OR,
    "QueryDisjunction": fp.QueryNodeType.QUERY_DISJUNCTION,
    "QuerySequence": fp.QueryNodeType.QUERY_SEQUENCE,
    "QueryWithWithin": fp.QueryNodeType.QUERY_WITH_WITHIN,
    "QuerySegment": fp.QueryNodeType.QUERY_SEGMENT,
    "QueryGroup": fp.QueryNodeType.QUERY_GROUP,
    "SimpleWithin": fp.QueryNodeType.SIMPLE_WITHIN,
}


def kind(node):
    for name, c in CLASSES.items():
        if isinstance(node, c):
            return name
    raise Violation(f"tree contains a {type(node).__name__}, which is no query node kind")


def snap1(node):
    k = kind(node)
    a = {}
    if k == "Expression":
        fl = node.regex_flags
        a = {
            "qualifier": node.qualifier,
            "identifier": node.identifier,
            "operator": str(node.operator.value),
            "regex": node.regex,
            "flags": frozenset(FLAGNAME[f] for f in fl) if fl else frozenset(),
        }
    elif k in ("QuerySegment", "QueryGroup"):
        a = {"min": node.min_occurs, "max": node.max_occurs}
    elif k == "SimpleWithin":
        a = {"scope": str(node.scope.value)}
    loc = node.location
    return N(k, [], (loc.start, loc.stop) if loc is not None else None, a)


def snap(node):
    """Deep copy of a tree into model nodes (fails as violation on malformed trees)."""

    def go(x):
        n = snap1(x)
        n.children = [go(c) for c in x.children]
        return n

    return call("reading the tree", go, node)


def anatomy(node):
    """Everything public a tree consists of, with types and identities: for before/after comparisons of one tree."""

    def val(v):
        if isinstance(v, fp.QueryNode):
            return ("node", id(v))
        if isinstance(v, (list, tuple)):
            return (type(v).__name__, id(v), [val(x) for x in v])
        if isinstance(v, (set, frozenset)):
            return (type(v).__name__, sorted(map(repr, v)))
        return (type(v).__name__, repr(v))

    return [(id(n), type(n).__name__, {k: val(v) for k, v in fields(n).items() if not k.startswith("_")}) for n in nodes(node)]


def fields(n):
    """instance attributes, however they are stored"""
    d = dict(getattr(n, "__dict__", {}))
    for c in type(n).__mro__:
        sl = c.__dict__.get("__slots__", ())
        for k in [sl] if isinstance(sl, str) else sl:
            if k not in ("__dict__", "__weakref__") and hasattr(n, k):
                d[k] = getattr(n, k)
    return d


def nodes(node):
    yield node
    for c in node.children:
        yield from nodes(c)


def parser(cfg=None, loc=True):
    cfg = cfg or {}
    kw = {}
    if "identifier" in cfg:
        kw["default_identifier"] = cfg["identifier"]
    if "operator" in cfg:
        kw["default_operator"] = OPOF[cfg["operator"]]
    if "norm" in cfg:
        kw["unicode_normalization_form"] = cfg["norm"]
    return fp.QueryParser(enableSourceLocations=loc, **kw)


def parse_ok(q, cfg=None, loc=True):
    """Parse a query that is valid by construction; anything but a tree is a violation."""
    node = call(f"parsing valid query {q!r}", parser(cfg, loc).parse, q)
    ensure(isinstance(node, fp.QueryNode), lambda: f"parse({q!r}) returned {node!r}")
    return node


def try_parse(q, cfg=None, loc=True, p=None):
    """-> (node, None) or (None, exception); exceptions other than the documented one are violations."""
    p = p or parser(cfg, loc)
    try:
        node = p.parse(q)
    except fcsql.QueryParserException as e:
        return None, e
    except Exception as e:
        raise Violation(f"parse({q!r}) raised undocumented {type(e).__name__}: {e}") from e
    ensure(isinstance(node, fp.QueryNode), lambda: f"parse({q!r}) returned {node!r}")
    return node, None


def same(q, got, want, loc=False, what="tree"):
    if got.key(loc) != want.key(loc):
        raise Violation(f"{what} of {q!r} differs:\n  got  {got.show(loc)}\n  want {want.show(loc)}")


class Interrupt(BaseException):
    """Stands for Ctrl-C, a timeout or anything else that ends a call from outside."""


class Fault(Exception):
    """Stands for an unexpected problem somewhere inside a call."""


CLEANUP = {}


def cleanup_lines(fn):
    """lines that tidy up (finally, except, leaving a with block) or that only enter a try block"""
    if fn not in CLEANUP:
        out = set()
        with open(fn, encoding="utf-8") as f:
            tree = ast.parse(f.read())
        for n in ast.walk(tree):
            for body in (getattr(n, k, None) for k in ("body", "orelse", "finalbody")):
                for i, s in enumerate(body if isinstance(body, list) else []):
                    if isinstance(s, (ast.Try, ast.With)):  # what is set up right before it
                        for b in body[max(0, i - 3) : i]:
                            if isinstance(b, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr)):
                                out.update(range(b.lineno, b.end_lineno + 1))
            if isinstance(n, ast.Try):
                out.add(n.lineno)
                for b in [*n.finalbody, *n.handlers]:
                    out.update(range(b.lineno, b.end_lineno + 1))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and (n.name in ("__exit__", "__del__", "__enter__") or n.decorator_list):
                if n.name.startswith("__") or any("contextmanager" in ast.dump(d) for d in n.decorator_list):
                    out.update(range(n.lineno, n.end_lineno + 1))
            elif isinstance(n, ast.With):
                out.add(n.lineno)
        CLEANUP[fn] = out
    return CLEANUP[fn]


def tidying(frame):
    while frame is not None:
        fn = frame.f_code.co_filename
        if fn.startswith(SRC + os.sep + "fcsql") and frame.f_lineno in cleanup_lines(fn):
            return True
        frame = frame.f_back
    return False


def interrupted(f, n, exc=Interrupt):
    """Run f and raise exc just before the n-th source line that the package runs in it (never in the middle of
    tidying up) -> where, if that happened."""
    left = [n]
    where = []

    def tick(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] <= 0 and not where and not tidying(frame):
                where.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                raise exc("interrupted")
        return tick

    def trace(frame, event, arg):
        return tick if frame.f_code.co_filename.startswith(SRC + os.sep + "fcsql") else None

    old = sys.gettrace()
    sys.settrace(trace)
    try:
        f()
    except BaseException as e:
        if not where:
            raise
    finally:
        sys.settrace(old)
    return where[0] if where else None
