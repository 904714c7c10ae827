"""C24: work in progress is isolated - interleaved, nested and edited results do not influence each other."""
import re
import sys
import threading

from hypothesis import strategies as st

from .. import gen, sut
from ..common import any_query, valid
from ..core import Prop, Sub
from ..sut import ensure, fcsql, fp, fv
from . import C32
from . import vcommon as vc

PKG = sut.SRC + "/fcsql"


# --------------------------------------------------------------------------- tasks


def run_task(t):
    """One unit of user work -> comparable outcome."""
    q, k = t["q"], t["k"]
    if k == "parse":
        try:
            n = fcsql.parse(q, enableSourceLocations=t.get("loc", True))
        except fcsql.QueryParserException as e:
            return ("error", str(e))
        return ("tree", str(n), sut.snap(n).key(True))
    if k == "parser":
        p = sut.parser(t["cfg"], loc=t.get("loc", True))
        try:
            n = p.parse(q)
        except fcsql.QueryParserException as e:
            return ("error", str(e), tuple(map(repr, p.errors)))
        return ("tree", sut.snap(n).key(True), tuple(p.errors))
    if k == "can":
        return ("can", fcsql.can_parse(q))
    if k == "validate":
        return ("validate", fcsql.validate(q, warnings_as_errors=t["wae"]), [repr(e) for e in fcsql.validate(q, return_errors=True, warnings_as_errors=t["wae"])])
    if k == "validator":
        try:
            n = fcsql.parse(q)
        except fcsql.QueryParserException as e:
            return ("error", str(e))
        v = vc.validator(t.get("vcfg", {}), raise_at_first_violation=t["wae"])
        try:
            r = v.validate(n, query=q)
        except fv.SpecificationValidationError as e:
            return ("raised", str(e), e.query_fragment)
        return ("valid", r, [repr(e) for e in v.errors], [repr(e) for e in v.warnings])
    try:
        return ("low", fcsql.antlr_parse(q).getText())
    except fcsql.SyntaxError as e:
        return ("low-error", str(e))


PATIENCE = [5.0]


def waited(f):
    """wait for something that a lock inside the package may hold up; be patient only the first time"""
    ok = f(PATIENCE[0])
    if not ok:
        PATIENCE[0] = 0.2
    return ok


class Task(threading.Thread):
    """Runs run_task under a deterministic scheduler: hands the baton back after a given number of source lines."""

    def __init__(self, spec):
        super().__init__(daemon=True)
        self.spec, self.go, self.back = spec, threading.Semaphore(0), threading.Semaphore(0)
        self.budget, self.steps, self.done, self.out, self.free = 0, 0, False, None, False

    def work(self):
        return run_task(self.spec)

    def tick(self, frame, event, arg):
        if event == "line":
            self.steps += 1
            self.budget -= 1
            if self.budget <= 0 and not self.free:
                self.back.release()
                self.go.acquire()
        return self.tick

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            return self.tick
        return None

    def run(self):
        self.go.acquire()
        sys.settrace(self.trace)
        try:
            self.out = ("ok", self.work())
        except BaseException as e:
            self.out = ("raised", f"{type(e).__name__}: {e}")
        finally:
            sys.settrace(None)
            self.done = True
            self.back.release()

    def step(self, n):
        self.budget = n
        self.go.release()
        # False: blocked on something another (paused) task holds, e.g. a lock
        return waited(lambda s: self.back.acquire(timeout=s))


def interleave(case, ctx):
    alone = []
    for t in case["tasks"]:
        try:
            alone.append(("ok", run_task(t)))
        except Exception as e:
            sut.fail(f"{t}: raised {type(e).__name__}: {e}")
    ts = [Task(t) for t in case["tasks"]]
    for t in ts:
        t.start()
    switches, last = 0, None
    for who, n in case["schedule"]:
        live = [t for t in ts if not t.done]
        if not live:
            break
        t = live[who % len(live)]
        if last is not None and t is not last and not last.done:
            switches += 1
        last = t
        if not t.step(n):
            ctx.label("blocked")
            break
    for t in ts:  # the rest without scheduling
        t.free = True
        t.go.release()
    for t in ts:
        t.join(120)
        ensure(not t.is_alive(), lambda: f"{t.spec} does not finish (deadlock) when interleaved with {[x.spec for x in ts if x is not t]}")
    ctx.label("switches:%s" % ("0" if switches == 0 else "1-3" if switches < 4 else "4-9" if switches < 10 else "10+"))
    if switches:
        ctx.nontrivial("nt:interleaved")
    for t, a in zip(ts, alone):
        ensure(t.out == a, lambda: f"{t.spec} interleaved with {[x.spec for x in ts if x is not t]} gives {t.out}, alone {a}")


class Recorder:
    """source lines of the package in the order in which one task runs them"""

    def __init__(self):
        self.lines = []

    def tick(self, frame, event, arg):
        if event == "line":
            self.lines.append((frame.f_code.co_filename, frame.f_lineno))
        return self.tick

    def trace(self, frame, event, arg):
        return self.tick if frame.f_code.co_filename.startswith(PKG) else None

    def run(self, t, trace=True):
        out = []

        def go():
            if trace:
                sys.settrace(self.trace)
            try:
                out.append(run_task(t))
            except Exception as e:
                out.append(("raised", f"{type(e).__name__}: {e}"))
            finally:
                sys.settrace(None)

        th = threading.Thread(target=go)
        th.start()
        th.join()
        if out[0][0] == "raised" and len(out[0]) == 2:
            sut.fail(f"{t}: raised {out[0][1]}")
        return ("ok", out[0])


def preempt(case, ctx):
    """one task is interrupted before a chosen source line while the other runs from start to end"""
    a, b = case["tasks"]
    rec = Recorder()
    alone = rec.run(a, False), rec.run(b, False)
    ensure(rec.run(a) == alone[0], lambda: f"{a}: another answer the second time")
    # every distinct line is equally likely, whether it runs once or a thousand times
    where = {}
    for i, l in enumerate(rec.lines):
        where.setdefault(l, []).append(i)
    own = [l for l in where if not l[0].endswith(("Lexer.py", "Parser.py"))] or list(where)
    files = sorted({l[0] for l in own})
    for n, (pick, occ) in enumerate(case["points"]):
        near = own if n % 2 else [l for l in own if l[0] == files[pick % len(files)]]
        line = near[pick // len(files) % len(near)]
        at = where[line][occ % len(where[line])]
        ta, tb = Task(a), Task(b)
        ta.start()
        tb.start()
        if not ta.step(at + 1):
            ctx.label("blocked")
        tb.free = True
        tb.go.release()
        waited(lambda s: tb.join(s) or not tb.is_alive())  # a task waiting for a lock of the paused one goes on afterwards
        ta.free = True
        ta.go.release()
        for t in (ta, tb):
            t.join(120)
            ensure(not t.is_alive(), lambda: f"{t.spec} does not finish (deadlock)")
        got = ta.out, tb.out
        ensure(got == alone, lambda: f"{a} interrupted at step {at} of {len(rec.lines)} by {b}: {got}, alone {alone}")
    ctx.nontrivial("nt:preempted")


# --------------------------------------------------------------------------- several threads, one tree


class Look(Task):
    """a thread that asks a tree it does not own alone"""

    def __init__(self, root, looks):
        super().__init__(looks)
        self.ns = list(sut.nodes(root))

    def work(self):
        ids = {id(n): i for i, n in enumerate(self.ns)}

        def tag(x):
            if isinstance(x, fp.QueryNode):
                return ("node", ids.get(id(x), "foreign"))
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "node":  # C32 has done the same with identities
                return ("node", ids.get(x[1], "foreign"))
            if isinstance(x, (list, tuple)):
                return [tag(y) for y in x]
            return x if isinstance(x, (int, type(None))) else re.sub("0x[0-9a-fA-F]+", "0x", x if isinstance(x, str) else repr(x))

        out = []
        for i, what, arg in self.spec:
            try:
                out.append(tag(C32.look(self.ns[i % len(self.ns)], what, arg)))
            except Exception as e:
                out.append(f"raised {type(e).__name__}: {e}")
        return out


def shared(case, ctx):
    """threads that only look at the same tree get the answers each of them would get alone"""
    q = case["q"]
    alone = []
    for l in case["looks"]:
        t = Look(sut.parse_ok(q, loc=case["loc"]), l)
        alone.append(("ok", t.work()))
    for schedule in case["schedules"]:
        root = sut.parse_ok(q, loc=case["loc"])
        before = sut.snap(root).key(True)
        ts = [Look(root, l) for l in case["looks"]]
        for t in ts:
            t.start()
        switches = 0
        last = None
        for who, n in schedule:
            live = [t for t in ts if not t.done]
            if not live:
                break
            t = live[who % len(live)]
            switches += last is not None and t is not last and not last.done
            last = t
            if not t.step(n):
                ctx.label("blocked")
                break
        for t in ts:
            t.free = True
            t.go.release()
        for t in ts:
            t.join(120)
            ensure(not t.is_alive(), lambda: f"{t.spec} does not finish (deadlock)")
        if switches:
            ctx.nontrivial("nt:shared")
        for t, a in zip(ts, alone):
            ensure(t.out == a, lambda: f"{q!r}: {t.spec} next to {[x.spec for x in ts if x is not t]} on the same tree answers {t.out}, alone {a}"[:1500])
        ensure(sut.snap(root).key(True) == before, lambda: f"{q!r}: looks from several threads changed the tree")


look_list = st.lists(st.tuples(st.integers(0, 12), st.sampled_from(C32.WHATS), st.integers(0, 15)).map(list), min_size=1, max_size=4)


@st.composite
def shared_case(draw):
    looks = draw(st.lists(look_list, min_size=2, max_size=3))
    if draw(st.booleans()):
        looks = [looks[0]] * len(looks)
    step = st.tuples(st.integers(0, 2), st.one_of(st.integers(1, 3), st.integers(1, 12), st.integers(1, 60))).map(list)
    return {"q": draw(st.one_of(valid(large=0, leaves=5, depth=2, rich=1), valid(large=0, leaves=2, depth=1, rich=0), vc.vqueries().map(lambda q: {"q": q})))["q"],
            "loc": draw(st.booleans()), "looks": looks, "schedules": draw(st.lists(st.lists(step, min_size=3, max_size=30), min_size=1, max_size=4))}


queries = st.one_of(valid(large=0, leaves=3, depth=2, rich=1), valid(large=0, leaves=2, depth=2, rich=0), any_query(), gen.semantic_bad().map(lambda t: {"q": t[0]}),
                    st.sampled_from(['"Haus"', '[word="x" & x-a!="y"/i]', '[pos="NN" | foo="b"]', '"a"{3,1}', '"a', "'a' within s"]).map(lambda q: {"q": q})).map(lambda c: c["q"])
tasks = st.fixed_dictionaries({"q": queries, "k": st.sampled_from(["parse", "parser", "can", "validate", "validator", "low"]), "wae": st.booleans(), "loc": st.booleans(),
                               "cfg": gen.parser_cfgs, "vcfg": st.one_of(st.just({}), vc.cfgs)})
inter_case = st.fixed_dictionaries({
    "tasks": st.lists(tasks, min_size=2, max_size=4),
    "schedule": st.lists(st.tuples(st.integers(0, 3), st.one_of(st.integers(1, 8), st.integers(1, 60), st.integers(20, 400))).map(list), min_size=4, max_size=40)})


refused = st.one_of(gen.semantic_bad().map(lambda t: t[0]), st.sampled_from(['"a"/iI', '"a"/li', '[a="b"]{3,1}', '"x" "\\q"', '"\\U00ffffff"', "'b'{9,2}"]))
broken = st.one_of(any_query().map(lambda c: c["q"]), st.sampled_from(['"a', "'a' within", "[a=b]", "]", "'a' |", '[a="x" & ]', "", "within s"]))
judged = st.sampled_from(["[foo='a']", "[word='a']", "[!x-a='b' | zoo='c']", "[pos='NN']", "[foo='a'][bar='b']", "'a' within t", "[word='x']{2}"])
KIND_OF_TASK = ["validate", "validate", "validate", "parse", "parser", "parser", "validator", "can", "low"]


@st.composite
def pre_case(draw):
    """two tasks, mostly alike: state shared by accident shows when both take the same path with different content"""
    cls = draw(st.sampled_from([refused, refused, broken, judged, queries]))
    a = {"q": draw(cls), "k": draw(st.sampled_from(KIND_OF_TASK)), "wae": draw(st.booleans()), "loc": draw(st.booleans()), "cfg": draw(gen.parser_cfgs)}
    alike = draw(st.integers(0, 2)) > 0
    b = {"q": draw(cls if alike else queries), "k": a["k"] if alike else draw(st.sampled_from(KIND_OF_TASK)), "wae": draw(st.booleans()), "loc": draw(st.booleans()), "cfg": draw(gen.parser_cfgs)}
    return {"tasks": [a, b], "points": draw(st.lists(st.tuples(st.integers(0, 900), st.sampled_from([0, 0, -1, 1, 2, 5])).map(list), min_size=6, max_size=12))}


# --------------------------------------------------------------------------- nested use


def nested(case, ctx):
    """handlers that parse and validate other queries while a tree is being visited"""
    q, inner, at = case["q"], case["inner"], case["at"]
    alone = [run_task(t) for t in inner]
    node = sut.parse_ok(q)
    got = []
    count = [0]

    def plain():
        v = fv.FCSQLValidator(raise_at_first_violation=False)
        r = v.validate(node, query=q)
        return (r, [repr(e) for e in v.errors], [repr(e) for e in v.warnings])

    want = plain()

    def handler(name):
        sup = getattr(fv.FCSQLValidator, "visit_" + name)

        def h(self, n):
            count[0] += 1
            par = self.parent_node
            if count[0] % at == 0 and len(got) < 6:
                got.append([run_task(t) for t in inner])
            ensure(self.parent_node is par is n.parent, lambda: f"{q!r}: parent_node changed while other queries were processed")
            r = sup(self, n)
            return r

        return h

    V = type("V", (fv.FCSQLValidator,), {"visit_" + k: handler(k) for k in sut.CLASSES})
    v = V(raise_at_first_violation=False)
    before = sut.snap(node).key(True)
    r = sut.call("validate", v.validate, node, query=q)
    res = (r, [repr(e) for e in v.errors], [repr(e) for e in v.warnings])
    if got:
        ctx.nontrivial("nt:nested")
    ensure(res == want, lambda: f"{q!r}: validation gives {res} when handlers use the library, {want} otherwise")
    for g in got:
        ensure(g == alone, lambda: f"{inner} inside a handler of {q!r}: {g}, alone {alone}")
    ensure(sut.snap(node).key(True) == before, lambda: f"{q!r}: tree changed")


nested_case = st.fixed_dictionaries({"q": valid(large=0, leaves=5, depth=2, rich=1).map(lambda c: c["q"]), "inner": st.lists(tasks, min_size=1, max_size=2), "at": st.integers(1, 4)})


# --------------------------------------------------------------------------- edits of results


def edit(node, ops):
    """what user code may do to a tree it got"""
    for where, op in ops:
        ns = list(sut.nodes(node))
        n = ns[where % len(ns)]
        if op == "clear":
            n.children.clear()
        elif op == "append":
            n.children.append(fp.ExpressionWildcard())
        elif op == "reverse":
            n.children.reverse()
        elif op == "location":
            n.location = fp.SourceLocation(0, 0)
        elif op == "parent":
            n.parent = n
        elif op == "value":
            if isinstance(n, fp.Expression):
                n.identifier, n.qualifier, n.regex, n.operator = "zz", "yy", "edited", fp.Operator.NOT_EQUALS
            elif hasattr(n, "min_occurs"):
                n.min_occurs, n.max_occurs = 7, 8
            elif isinstance(n, fp.SimpleWithin):
                n.scope = fp.SimpleWithinScope.SESSION
        elif op == "flags":
            if isinstance(n, fp.Expression):
                if n.regex_flags is None:
                    n.regex_flags = {fp.RegexFlag.IGNORE_DIACRITICS}
                else:
                    n.regex_flags.add(fp.RegexFlag.LITERAL_MATCHING)
                    n.regex_flags.discard(fp.RegexFlag.CASE_INSENSITIVE)


def edits(case, ctx):
    """editing a returned tree or list never shows up in a later result"""
    tasks_ = case["tasks"]
    first = [run_task(t) for t in tasks_]
    q = case["q"]
    p = sut.parser()
    one, exc = sut.try_parse(q, p=p)
    snap1 = sut.snap(one).key(True) if one is not None else (str(exc), tuple(map(repr, p.errors)))
    twin, _ = sut.try_parse(q)
    errs = sut.call("validate", fcsql.validate, q, return_errors=True, warnings_as_errors=True)
    rep = [repr(e) for e in errs]
    try:
        if one is not None:
            edit(one, case["ops"])
        else:
            p.errors.clear() if case["ops"] and case["ops"][0][0] % 2 else p.errors.append("x")
    except (AttributeError, TypeError):
        ctx.label("immutable-result")  # results that cannot be edited are isolated, too
    errs.clear()
    errs.append("junk")
    two, exc2 = sut.try_parse(q, p=p)
    snap2 = sut.snap(two).key(True) if two is not None else (str(exc2), tuple(map(repr, p.errors)))
    ensure(snap2 == snap1, lambda: f"{q!r}: after editing the first result a second parse gives {snap2}, before {snap1}")
    if twin is not None:
        ensure(sut.snap(twin).key(True) == snap1, lambda: f"{q!r}: editing one tree changed another one")
    ensure([repr(e) for e in fcsql.validate(q, return_errors=True, warnings_as_errors=True)] == rep, lambda: f"{q!r}: validate() lists differ after editing a returned list")
    again = [run_task(t) for t in tasks_]
    ensure(first == again, lambda: f"{tasks_}: {first} before, {again} after edits of the tree of {q!r}")
    if case["ops"]:
        ctx.nontrivial("nt:edited-tree" if one is not None else "nt:edited-errors")


OPS = ["clear", "append", "reverse", "location", "parent", "value", "flags", "flags"]
edit_case = st.fixed_dictionaries({"q": st.one_of(valid(leaves=5, depth=2, rich=0).map(lambda c: c["q"]), queries), "tasks": st.lists(tasks, max_size=2),
                                   "ops": st.lists(st.tuples(st.integers(0, 30), st.sampled_from(OPS)).map(list), max_size=5)})

PROP = Prop("C24", "interleave: schedule with at least one switch away from an unfinished task; preempt: one task interrupted before a chosen source line; nested: at least one nested use; edits: at least one edit (distinct cases)", [
    Sub("interleave", inter_case, interleave, 300, 8000),
    Sub("preempt", pre_case(), preempt, 300, 6000),
    Sub("shared", shared_case(), shared, 200, 5000),
    Sub("nested", nested_case, nested, 150, 3000),
    Sub("edits", edit_case, edits, 400, 10000),
], ["every task uses its own parser and validator objects; threads are switched at source lines of the package (not inside the ANTLR runtime)",
    "one thread runs at a time, in the order the generated schedule gives"])
