"""C28: the effort to answer a query stays proportionate to its size."""
import sys

from hypothesis import strategies as st

from .. import gen, sut
from ..core import Prop, Sub
from ..sut import ensure, fcsql, fp, fv


class TooMuch(BaseException):
    pass


def budget(q):
    n = len(q)
    return 400_000 + 20_000 * n + 250 * n * n


PKG = sut.SRC + "/fcsql"
MON = getattr(sys, "monitoring", None)


def effort(fn, q, limit=None):
    """number of function calls, and turns of loops in the package, made while answering q (deterministic measure of work)"""
    limit = limit or budget(q)
    c = [0]

    def prof(frame, event, arg):
        if event == "call":
            c[0] += 1
            if c[0] > limit:
                raise TooMuch()

    def jump(code, at, to):
        if not code.co_filename.startswith(PKG) or to > at:
            return MON.DISABLE
        c[0] += 1
        if c[0] > limit:
            raise TooMuch()

    tool = next((t for t in (4, 3, 0) if MON.get_tool(t) is None), None) if MON else None
    if tool is not None:
        MON.use_tool_id(tool, "effort")
        MON.register_callback(tool, MON.events.JUMP, jump)
        MON.set_events(tool, MON.events.JUMP)
    old = sys.getprofile()
    sys.setprofile(prof)
    try:
        fn(q)
    except TooMuch:
        pass
    except (fcsql.QueryParserException, fcsql.SyntaxError):
        pass
    finally:
        sys.setprofile(old)
        if tool is not None:
            MON.set_events(tool, 0)
            MON.register_callback(tool, MON.events.JUMP, None)
            MON.free_tool_id(tool)
    return c[0], limit


def low(q):
    try:
        fcsql.antlr_parse(q)
    except fcsql.SyntaxError:
        pass


FNS = {"can_parse": fcsql.can_parse, "antlr_parse": low, "validate": fcsql.validate, "errors": lambda q: fcsql.validate(q, return_errors=True), "parse": fcsql.parse,
       "str": lambda q: str(fcsql.parse(q))}


def check(case, ctx):
    q = case["q"]
    n, limit = effort(FNS[case["fn"]], q)
    ensure(n <= limit, lambda: f"{case['fn']} of {len(q)} characters needs more than {limit} calls: {q!r}")
    r = n * 100 // limit
    ctx.label("budget used:%s" % ("0-4%" if r < 5 else "5-19%" if r < 20 else "20-49%" if r < 50 else "50%+"), "len:%s" % ("<50" if len(q) < 50 else "50-199" if len(q) < 200 else "200+"))
    if len(q) >= 50:
        ctx.nontrivial("nt:" + case["fn"])


fns = st.sampled_from(sorted(FNS))
A = ['a="b"', "!a='b'", "q:a!='b'/i", '!!a=""']


@st.composite
def chain(draw):
    """long chains of boolean terms and operators"""
    n = draw(st.integers(8, 60))
    unit = draw(st.lists(st.sampled_from(A + ["(a='b')", "!(a='b' | c='d')", "(a='b' & !c='d')"]), min_size=1, max_size=3))
    ops = draw(st.lists(st.sampled_from(["&", "|"]), min_size=1, max_size=4))
    out = [unit[0]]
    for i in range(n - 1):
        out += [ops[i % len(ops)], unit[(i + 1) % len(unit)]]
    tail = draw(st.sampled_from(["", "", "", " &", " a", " !", " )"]))
    return {"q": "[" + " ".join(out) + tail + "]", "fn": draw(fns)}


OPEN_E = [("(", ")"), ("!(", ")"), ("(a='b' & ", ")"), ("(a='b' | ", ")"), ("(", " & a='b')"), ("(", " | a='b')"), ("!", ""), ("(!a='b' & ", " | c='d')"), ("(a='b' | ", " & !c='d')")]
OPEN_Q = [("(", ")"), ("(", "){2}"), ("('a' ", ")"), ("('a' | ", ")"), ("(", " 'a')"), ("(", " | 'a')"), ("('a' | ", " 'b')*"), ("([] ", " | 'b')?")]


@st.composite
def pumped(draw, most=22):
    """nesting: the same openings and closings repeated"""
    expr = draw(st.booleans())
    pairs = draw(st.lists(st.sampled_from(OPEN_E if expr else OPEN_Q), min_size=1, max_size=3))
    k = draw(st.integers(2, most))
    pre, post = "", ""
    for i in range(k):
        a, b = pairs[i % len(pairs)]
        pre, post = pre + a, b + post
    core = "a='b'" if expr else draw(st.sampled_from(["'a'", "'a' 'b'", "'a' | 'b'"]))
    if draw(st.integers(0, 5)) == 0:
        post = post[: draw(st.integers(0, len(post)))]
    q = pre + core + post
    return {"q": f"[{q}]" if expr else q, "fn": draw(fns)}


@st.composite
def repeated(draw):
    """any piece of query text repeated many times (valid or not)"""
    piece = draw(st.one_of(gen.queries(leaves=2, depth=1, rich=1, within=False).map(lambda g: g.text), st.lists(st.sampled_from(gen.SOUP_TOKENS), min_size=1, max_size=4).map(" ".join)))
    sep = draw(st.sampled_from([" ", " | ", " & ", "", " within s "]))
    k = draw(st.integers(2, 40))
    q = sep.join([piece] * k)[:600]
    pre, post = draw(st.sampled_from([("", ""), ("[", "]"), ("(", ")"), ("['", "']")]))
    return {"q": pre + q + post, "fn": draw(fns)}


@st.composite
def patterns(draw):
    """literals made of a repeated piece: work inside the regular expression engine or the decoder is not visible as calls, so CPU time counts"""
    piece = st.one_of(st.sampled_from(list("aA1_-.*+?|^$()[]{} ,:;/!#") + ["a ", "ab", "(a+)", "(a*)*", "\\.", "\\(", "\\x41", "\\u0061", "\\n", "\\\\", "a{9}", "a?", "[a", "a|", "N.", ".*", "\u00e4", "o\u0308", "a\u0300"]),
                      st.text(alphabet="aAbN1 _.*+-|", min_size=1, max_size=3))
    n = draw(st.one_of(st.integers(20, 60), st.integers(60, 700)))
    lit = draw(st.one_of(st.just(""), piece)) + draw(piece) * n + draw(st.one_of(st.just(""), piece, st.sampled_from(["!", "\u00e9", "=", "\t", "#"])))
    if len(lit) < 300 and draw(st.integers(0, 3)) == 0:
        lit += draw(piece) * n + draw(piece)
    at = draw(st.sampled_from(["[pos='{}']", "[pos='{}']", "[text='{}']", "[x-a='{}'/d]", "'{}'", "[ud:pos='{}']", "[pos='{}'/l]", "[pos='a' | pos='{}']"]))
    return {"q": at.replace("{}", lit[:2000]), "fn": draw(fns)}


def timed(case, ctx):
    FN = FNS[case["fn"]]
    try:
        FN(case["q"])
    except (fcsql.QueryParserException, fcsql.SyntaxError):
        pass
    ctx.nontrivial("nt:pattern-" + case["fn"])


@st.composite
def bounds(draw):
    """large numbers in quantifiers"""
    n = st.sampled_from([0, 1, 2, 99, 4096, 65535, 300000, 2000000, 9999999])
    rep = st.tuples(n, n, st.sampled_from(["{%d,%d}", "{%d,%d}", "{,%d}", "{%d,}", "{%d}"])).map(lambda t: t[2] % (tuple(sorted(t[:2])) if t[2].count("%") == 2 else max(t[:2])))
    q = draw(st.sampled_from(["'a'", "[]", "[a='b']"])) + draw(rep)
    for _ in range(draw(st.integers(0, 3))):
        q = draw(st.sampled_from(["({})%s", "('a' {})%s", "({} | 'b')%s", "'x'%s {}"])).replace("%s", draw(rep)).replace("{}", q, 1)
    return {"q": q, "fn": draw(fns)}


@st.composite
def big(draw):
    g = draw(gen.queries(leaves=30, nots=15, depth=5, rich=0))
    return {"q": g.text, "fn": draw(fns)}


USES = {
    "str": lambda t, q: str(t),
    "visit": lambda t, q: fp.QueryVisitorAdapter().visit(t),
    "validate": lambda t, q: fv.FCSQLValidator(query=q, raise_at_first_violation=False).validate(t),
    "is_valid": lambda t, q: fv.FCSQLValidator(query=q).is_valid(t),
    "own": lambda t, q: type("Own", (fv.Validator,), {"visit_QuerySegment": lambda self, n: self.validation_warning(n, "w") or fv.Validator.visit_QuerySegment(self, n)})(query=q, raise_at_first_violation=False).validate(t),
}


def uses(case, ctx):
    """the work with a finished tree is proportionate to the tree"""
    q = case["q"]
    t, exc = sut.try_parse(q)
    if t is None:
        return
    n = sum(1 for _ in sut.nodes(t))
    limit = 5000 + 200 * n + 40 * len(q) + n * n // 4
    for use, fn in USES.items():
        c, _ = effort(lambda q: fn(t, q), q, limit)
        ensure(c <= limit, lambda: f"{use} of the tree ({n} nodes) of {q!r} needs more than {limit} calls")
    if n > 12:
        ctx.nontrivial("nt:uses")


@st.composite
def deeper(draw):
    """the shapes above, repeated more often"""
    c = draw(st.one_of(pumped(60), pumped(60), pumped(60), bounds(), chain(), big()))
    return {"q": c["q"]}


PROP = Prop("C28", "query of at least 50 characters (distinct texts)", [
    Sub("chain", chain(), check, 80, 1500),
    Sub("pumped", pumped(), check, 120, 2500),
    Sub("repeated", repeated(), check, 100, 2500),
    Sub("patterns", patterns(), timed, 150, 4000, cpu=15),
    Sub("bounds", bounds(), check, 60, 1000),
    Sub("uses", deeper(), uses, 100, 2000),
    Sub("big", big(), check, 60, 1500),
], ["effort is measured in Python function calls and turns of loops in the package: at most 400000 + 20000 n + 250 n^2 for n characters, at least five times what any shape in the measured set needs",
    "work inside C code (regular expression engine, normalisation) is bounded by 15 s of CPU time for literals of up to 2000 characters",
    "a finished tree of k nodes is rendered, visited and validated in at most 5000 + 200 k + 40 n + k^2/4 calls", "up to 60 operands and 22 levels of nesting (60 for finished trees)"])
