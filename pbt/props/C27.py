"""C27: diagnostics logging changes nothing."""
import functools
import logging

from hypothesis import strategies as st

from .. import edits, gen, sut
from ..common import any_query, valid
from ..core import Prop, Sub
from ..sut import ensure, fcsql, fp, fv
from .C24 import run_task, tasks


class Sink(logging.Handler):
    """formats every record, like any real handler, and keeps problems"""

    def __init__(self):
        super().__init__(0)
        self.n, self.bad = 0, []
        self.fmt = logging.Formatter("%(asctime)s %(levelname)s %(name)s %(message)s")

    def emit(self, record):
        self.n += 1
        try:
            self.fmt.format(record)
        except Exception as e:
            self.bad.append(f"{record.msg!r} {type(e).__name__}: {e}")


class Logging:
    def __init__(self, where, level):
        self.log, self.level, self.sink = logging.getLogger(where), level, Sink()

    def __enter__(self):
        self.old = (self.log.level, self.log.propagate)
        self.log.addHandler(self.sink)
        self.log.setLevel(self.level)
        self.log.propagate = False
        return self.sink

    def __exit__(self, *a):
        self.log.removeHandler(self.sink)
        self.log.setLevel(self.old[0])
        self.log.propagate = self.old[1]


def outcome(t):
    try:
        return run_task(t)
    except Exception as e:
        sut.fail(f"{t}: raised {type(e).__name__}: {e}")


ODD = ["%", "%s", "%d", "%(a)s", "%%", "{}", "{0}", "{a}", "$a", "%5", "\x00", "\ud800", "\u200b", "\n", "\x1b[0m", "\U0010ffff"]
FRAMES = ['"@"', "[a='@']", "@", '"a" @', "@ 'a'", "[@]", "[a@='b']", "'a'@", "'a' within @", "'@", "('@' | [!b!='@'/i]){2,1}", "('@' | [!b!='@'/i]){0,1}", "'a'/@", "'\\@'"]


@st.composite
def odd_text(draw):
    """texts that format strings, terminals and encoders stumble over, in and outside of literals"""
    return draw(st.sampled_from(FRAMES)).replace("@", draw(st.lists(st.sampled_from(ODD), min_size=1, max_size=3).map("".join)))


odd_tasks = st.tuples(odd_text(), st.sampled_from(["parse", "parser", "can", "validate", "validator", "low"]), st.booleans(), st.booleans()).map(
    lambda t: {"q": t[0], "k": t[1], "wae": t[2], "loc": t[3], "cfg": {"identifier": "text", "operator": "Eq", "norm": "NFC"}})


def check(case, ctx):
    a = [outcome(t) for t in case["tasks"]]
    with Logging(case["logger"], case["level"]) as sink:
        b = [outcome(t) for t in case["tasks"]]
    ensure(a == b, lambda: f"{case}: {b} with logging, {a} without")
    ensure(not sink.bad, lambda: f"{case}: log record that cannot be formatted: {sink.bad[0]}")
    ctx.label("records:%s" % ("0" if not sink.n else "1+"))
    if sink.n:
        ctx.nontrivial("nt:" + a[0][0])


def visit(case, ctx):
    """visitors over trees with logging on"""
    q = case["q"]
    node = sut.parse_ok(q, loc=case["loc"])
    ns = list(sut.nodes(node))
    for i, on in case["locs"]:
        ns[i % len(ns)].location = fp.SourceLocation(i, i + 3) if on else None
    if case["ops"]:
        edits.apply(node, case["ops"])

    class V(fp.QueryVisitorAdapter):
        def __init__(self):
            self.log = []

        def visitChildren(self, n):
            self.log.append(n)
            return super().visitChildren(n)

    a, b = V(), V()
    a.visit(node)
    before = sut.anatomy(node)
    with Logging("fcsql", logging.DEBUG) as sink:
        sut.call("visiting with logging", b.visit, node)
        ensure(sut.anatomy(node) == before, lambda: f"{q!r}: a visit with logging changed the tree")
        sut.call("validating with logging", fv.FCSQLValidator(raise_at_first_violation=False).validate, node)
        other = sut.parse_ok(q, loc=case["loc"])
    ensure(sut.anatomy(node) == before, lambda: f"{q!r}: validation with logging changed the tree")
    strip = lambda an: [(t, {k: v[0] if v[0] == "node" else (v[0], len(v[2])) if len(v) == 3 else v for k, v in d.items()}) for _, t, d in an]
    ensure(case["ops"] or case["locs"] or strip(sut.anatomy(other)) == strip(before), lambda: f"{q!r}: parsed with logging the tree is made differently")
    ensure([id(n) for n in a.log] == [id(n) for n in b.log], lambda: f"{q!r}: visit order depends on logging")
    ensure(not sink.bad, lambda: f"{q!r}: log record that cannot be formatted: {sink.bad[0]}")
    if sink.n:
        ctx.nontrivial("nt:visit")


class Callable:
    def __init__(self, f):
        self.f = f

    def __call__(self, n):
        return self.f(n)


def handlers(case, ctx):
    """handlers may be any callable, found on the class or on the object; logging sees them all the same"""
    node = sut.parse_ok(case["q"])

    def run():
        log = []

        class V(fp.QueryVisitorAdapter):
            def defaultResult(self):
                return ()

            def aggregateResult(self, a, b):
                return a + (b,)

        v = V()
        for kind, how in case["how"].items():
            def f(n, kind=kind):
                log.append((kind, id(n)))
                return v.visitChildren(n)

            setattr(v, "visit_" + kind, {"partial": functools.partial(f), "object": Callable(f), "lambda": lambda n, f=f: f(n), "function": f}[how])
        return sut.call(f"visiting with handlers {case['how']}", v.visit, node), log

    a = run()
    with Logging("fcsql", case["level"]) as sink:
        b = run()
    ensure(a == b, lambda: f"{case}: {b} with logging, {a} without")
    want = [(sut.kind(n), id(n)) for n in sut.nodes(node) if sut.kind(n) in case["how"]]
    ensure(a[1] == want, lambda: f"{case}: handlers called {[k for k, _ in a[1]]}, expected {[k for k, _ in want]}")
    ensure(not sink.bad, lambda: f"{case}: log record that cannot be formatted: {sink.bad[0]}")
    if sink.n:
        ctx.nontrivial("nt:handlers")


LEVELS = [logging.DEBUG, logging.DEBUG, logging.INFO, logging.WARNING, 1, 5, 9, 15]
how = st.dictionaries(st.sampled_from(list(sut.CLASSES)), st.sampled_from(["partial", "object", "lambda", "function"]), max_size=4)

PROP = Prop("C27", "case that produced at least one log record (distinct cases)", [
    Sub("tasks", st.fixed_dictionaries({"tasks": st.lists(tasks, min_size=1, max_size=2), "logger": st.sampled_from(["fcsql", "fcsql", "fcsql.parser", "fcsql.validation"]),
                                        "level": st.sampled_from(LEVELS)}), check, 400, 10000),
    Sub("odd", st.fixed_dictionaries({"tasks": st.lists(odd_tasks, min_size=1, max_size=2), "logger": st.sampled_from(["fcsql", "fcsql.parser"]), "level": st.just(logging.DEBUG)}), check, 250, 6000),
    Sub("handlers", st.tuples(valid(leaves=4, depth=2, rich=0), how, st.sampled_from(LEVELS)).map(lambda t: {"q": t[0]["q"], "how": t[1], "level": t[2]}), handlers, 120, 2500),
    Sub("visit", st.tuples(valid(leaves=5, depth=3, rich=1), st.booleans(), st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 12), st.booleans()).map(list), max_size=4)), st.one_of(st.just([]), edits.ops)).map(
        lambda t: {**t[0], "loc": t[1], "locs": t[2], "ops": t[3]}), visit, 250, 6000),
])
