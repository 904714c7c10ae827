"""C18: validators can be reused; handlers know their parent."""
import sys

from hypothesis import strategies as st

from .. import edits, ref, sut
from ..core import Prop, Sub
from ..sut import ensure, fp, fv
from . import vcommon as vc


def run(v, node, q):
    try:
        res = v.validate(node, query=q)
    except fv.SpecificationValidationError as e:
        return ("raised", str(e), e.query_fragment)
    except Exception as e:
        sut.fail(f"validate raised {type(e).__name__}: {e}")
    return (res, [(vc.detail(e), e.message) for e in v.errors], [(vc.detail(e), e.message) for e in v.warnings])


TWINS = [str.maketrans(a, b) for a, b in (("aeo", "eoa"), ("xtl", "ltx"), ("mps", "psm"), ("dfw", "fwd"), ("ab", "ba"))]


def twin(q):
    """another query of the same length, if there is one nearby"""
    for t in TWINS:
        r = q.translate(t)
        if r != q and ref.verdict(r)[0] is not None:
            return r
    return q


def twins(cases):
    """some of the queries have a twin of the same length next to them"""
    return st.tuples(cases, st.sampled_from([False, False, True])).map(lambda t: {**t[0], "qs": [x for q in t[0]["qs"][:2] for x in (q, twin(q))][:3]} if t[1] else t[0])


def reuse(case, ctx):
    cfg = {"ids": case["ids"], "quals": case["quals"]}
    kw = {"raise_at_first_violation": case["raising"], "warnings_as_errors": case["wae"]}
    v = vc.validator(cfg, **kw)
    nodes = [(q, sut.parse_ok(q)) for q in case["qs"]]
    nodes = [(q, list(sut.nodes(n))) for q, n in nodes]
    nodes = [(q, ns[part % len(ns)]) for (q, ns), part in zip(nodes, case["parts"])]  # also parts of trees
    kept = []
    outs = set()
    for i in case["order"]:
        q, node = nodes[i % len(nodes)]
        before = (sut.snap(node).key(True), sut.anatomy(node))
        got = run(v, node, q)
        if case["raising"] is False:
            kept.append((v.errors, list(v.errors)))
        want = run(vc.validator(cfg, **kw), node, q)
        ensure(got == want, lambda: f"reused validator on {q!r} after {case['order']} of {case['qs']}: {got}, fresh one: {want}")
        ensure((sut.snap(node).key(True), sut.anatomy(node)) == before, lambda: f"validating {q!r} changed the tree")
        outs.add(got[0])
    for lst, copy in kept:
        ensure(lst == copy, "an error list handed out earlier was changed by a later validation")
    if len(case["order"]) > 1:
        ctx.nontrivial("nt:mixed" if len(outs) > 1 else "nt:reuse")


def modes(case, ctx):
    """one validator object, any order of validate() and is_valid() calls and changes of its public settings"""
    cfg = {"ids": case["ids"], "quals": case["quals"]}
    kw = {"raise_at_first_violation": case["raising"], "warnings_as_errors": case["wae"]}
    v = vc.validator(cfg, **kw)
    nodes = {}
    lastq = None
    log = []
    for step in case["steps"]:
        if step["op"] == "set":
            name, val = step["name"], step["value"]
            log.append(step)
            if name in ("ids", "quals"):
                # the lists given to the validator: another list, or the same one with other content
                cfg[name] = val
                attr = {"ids": "allowed_layer_identifiers", "quals": "allowed_layer_qualifiers"}[name]
                new = val if val is None else list(val) if name == "ids" else [(a, b and list(b)) for a, b in val]
                old = getattr(v, attr)
                if step["inplace"] and isinstance(old, list) and new is not None:
                    old[:] = new
                else:
                    setattr(v, attr, new)
                ctx.label("set:" + name)
                continue
            kw[name] = val
            setattr(v, name, val)
            continue
        q = step["q"]
        if q not in nodes:
            nodes[q] = sut.parse_ok(q, loc=True)
        f = vc.validator(cfg, **kw)
        log.append((step["op"], q))
        if step["op"] == "is_valid":
            got = sut.call(f"is_valid({q!r}) after {log}", v.is_valid, nodes[q], query=q)
            want = sut.call("is_valid", f.is_valid, nodes[q], query=q)
        else:
            got, want = run(v, nodes[q], q), run(f, nodes[q], q)
        ensure(got == want, lambda: f"{log} (now {cfg}): {got}, a fresh validator: {want}")
        ensure((v.raise_at_first_violation, v.warnings_as_errors) == (kw["raise_at_first_violation"], kw["warnings_as_errors"]), lambda: f"{log}: settings of the validator changed")
        ensure(v.parent_node is None or want is False or (isinstance(want, tuple) and want[0] == "raised"), lambda: f"{log}: parent_node after a finished validation is {v.parent_node!r}")
    if len(case["steps"]) > 1:
        ctx.nontrivial("nt:modes")


@st.composite
def mode_case(draw):
    pool = draw(st.lists(vc.vqueries(), min_size=1, max_size=2)) + [draw(st.sampled_from(["[foo='a']", "[word='a']", "[!x-a='b']", "'a'"])), draw(st.sampled_from(["[]", "[] []", "([])* within s"]))]
    call = st.builds(lambda op, q: {"op": op, "q": q}, st.sampled_from(["validate", "is_valid"]), st.sampled_from(pool))
    seti = st.builds(lambda n, x: {"op": "set", "name": n, "value": x}, st.sampled_from(["raise_at_first_violation", "warnings_as_errors"]), st.booleans())
    setl = st.one_of(st.builds(lambda x, i: {"op": "set", "name": "ids", "value": x, "inplace": i}, vc.id_lists, st.booleans()),
                     st.builds(lambda x, i: {"op": "set", "name": "quals", "value": x, "inplace": i}, vc.qual_lists, st.booleans()))
    return {"steps": draw(st.lists(st.one_of(call, call, call, call, seti, setl), min_size=2, max_size=7)), "ids": draw(vc.id_lists), "quals": draw(vc.qual_lists), "raising": draw(st.booleans()), "wae": draw(st.booleans())}


reuse_case = st.fixed_dictionaries({"qs": st.lists(vc.vqueries(), min_size=1, max_size=3), "order": st.one_of(st.lists(st.integers(0, 2), min_size=2, max_size=5), st.lists(st.integers(0, 2), min_size=2, max_size=5),
                                          st.lists(st.integers(0, 2), min_size=1, max_size=3).flatmap(lambda c: st.integers(10, 60).map(lambda n: (c * n)[:n]))),
                                    "ids": vc.id_lists, "quals": vc.qual_lists, "raising": st.booleans(), "wae": st.booleans(), "parts": st.one_of(st.just([0] * 3), st.lists(st.integers(0, 9), min_size=3, max_size=3))})


def parents(case, ctx):
    """parent_node inside a handler is the parent of the node at hand, also after an aborted run"""
    fail_at = case["fail_at"]
    log = []
    counter = [0]

    class Boom(Exception):
        pass

    def wrap(name):
        sup = getattr(fv.Validator, "visit_" + name)

        def h(self, node):
            log.append((name, node, self.parent_node))
            counter[0] += 1
            if fail_at is not None and counter[0] == fail_at:
                if case["boom"]:
                    raise Boom()
                self.validation_error(node, "stop")
            r = sup(self, node)
            after = self.parent_node
            log.append((name, node, after))
            return r

        return h

    V = type("V", (fv.Validator,), {"visit_" + k: wrap(k) for k in sut.CLASSES})
    v = V(raise_at_first_violation=True)
    aborted = 0
    for q in case["qs"]:
        node = sut.parse_ok(q)
        ns = list(sut.nodes(node))
        node = ns[case["part"] % len(ns)]
        log.clear()
        counter[0] = 0
        try:
            v.validate(node)
        except fv.SpecificationValidationError:
            aborted += 1
        except Boom:
            aborted += 1
        except Exception as e:
            sut.fail(f"validate({q!r}) raised {type(e).__name__}: {e}")
        for name, n, par in log:
            ensure(sut.kind(n) == name, lambda: f"{q!r}: handler for {name} got a {sut.kind(n)}")
            ensure(par is (None if n is node else n.parent), lambda: f"{q!r}: parent_node of {name} is {sut.kind(par) if par is not None else None}, expected {sut.kind(n.parent) if n.parent is not None else None}")
    ctx.label("aborted:%d" % min(aborted, 2))
    ctx.nontrivial("nt:parents-after-abort" if aborted else "nt:parents")


def shared(case, ctx):
    """parts of a tree may also be in another one: the parent a handler knows is the one it came from"""
    root = sut.parse_ok(case["q"])
    ns = list(sut.nodes(root))
    up = {id(c): n for n in ns for c in n.children}
    for i, k in case["uses"]:
        n = ns[i % len(ns)]
        other = [lambda: fp.QuerySequence([n]), lambda: fp.QueryGroup(n, 1, 1), lambda: fp.ExpressionNot(n), lambda: fp.ExpressionAnd([n, fp.ExpressionWildcard()])][k % 4]()
        if k >= 4:
            n.parent = None
        else:
            ensure(n.parent is other, "parent of a node put into another tree")
    log = []

    def wrap(name):
        def h(self, n):
            log.append((n, self.parent_node))
            r = getattr(fv.Validator, "visit_" + name)(self, n)
            log.append((n, self.parent_node))
            return r

        return h

    v = type("V", (fv.Validator,), {"visit_" + k: wrap(k) for k in sut.CLASSES})(raise_at_first_violation=False)
    for _ in range(2):
        log.clear()
        sut.call("validate", v.validate, root)
        for m, par in log:
            want = up.get(id(m))
            ensure(par is want, lambda: f"{case['q']!r}, parts {case['uses']} also in other trees: parent_node of {sut.kind(m)} is {par and sut.kind(par)}, expected {want and sut.kind(want)}")
        ensure(len(log) == 2 * len(ns), lambda: f"{case['q']!r}: {len(log) // 2} of {len(ns)} nodes visited")
    ctx.nontrivial("nt:shared")


shared_case = st.fixed_dictionaries({"q": vc.vqueries(), "uses": st.lists(st.tuples(st.integers(0, 30), st.integers(0, 7)).map(list), min_size=1, max_size=4)})


def parts(case, ctx):
    """visiting any part of a tree directly: handlers know the parents below it, and nothing is left over afterwards"""
    node = sut.parse_ok(case["q"], loc=case["loc"])
    log = []

    def wrap(name):
        def h(self, n):
            log.append((n, self.parent_node))
            return getattr(fv.Validator, "visit_" + name)(self, n)

        return h

    base = fv.FCSQLValidator if case["std"] else fv.Validator
    V = base if case["std"] else type("V", (base,), {"visit_" + k: wrap(k) for k in sut.CLASSES})
    v = V(raise_at_first_violation=False)
    ns = list(sut.nodes(node))
    if len(ns) > 1:
        ctx.nontrivial("nt:parts")
    for i in case["order"]:
        n = ns[i % len(ns)]
        log.clear()
        if case["whole"]:
            sut.call("validate", v.validate, n)
        else:
            sut.call("visit", v.visit, n)
        for m, par in log:
            ensure(par is (None if m is n else m.parent), lambda: f"{case['q']!r}: parent_node of {sut.kind(m)} below {sut.kind(n)} is {par and sut.kind(par)}")
        ensure(v.parent_node is None, lambda: f"{case['q']!r}: parent_node after visiting the {sut.kind(n)} is {v.parent_node!r}")


parts_case = st.fixed_dictionaries({"q": vc.vqueries(), "order": st.lists(st.integers(0, 30), min_size=1, max_size=6), "std": st.booleans(), "whole": st.booleans(), "loc": st.booleans()})


def sticky(case, ctx):
    """fragments come from the query the validator has last been given, never from an earlier one"""
    kw = {"raise_at_first_violation": False, "warnings_as_errors": case["wae"]}
    v = vc.validator({}, **kw)
    cur, log = None, []
    for i, how in case["steps"]:
        q = case["qs"][i % len(case["qs"])]
        node = sut.parse_ok(q)
        if how == "arg":
            cur = q
            v.validate(node, query=q)
        elif how == "attr":
            cur = v.query = q
            v.validate(node)
        elif how == "blank":
            cur = ""
            v.validate(node, query="")
        else:  # the same text again
            if cur != q:
                continue
            v.validate(node)
        log.append((q, how))
        for e in [*v.errors, *v.warnings]:
            ok = (None, "") if not cur else (cur[e.position.start : e.position.stop],)
            ensure(e.fragment in ok, lambda: f"{log}: fragment {e.fragment!r}, expected {ok[0]!r}")
        if v.errors or v.warnings:
            ctx.nontrivial("nt:sticky")


sticky_case = st.fixed_dictionaries({"qs": st.lists(vc.vqueries(), min_size=1, max_size=3), "steps": st.lists(st.tuples(st.integers(0, 2), st.sampled_from(["arg", "arg", "attr", "blank", "again"])).map(list), min_size=1, max_size=6), "wae": st.booleans()})

def edited(case, ctx):
    """a tree that has been edited since it was last validated is judged as it is now"""
    cfg = {"ids": case["ids"], "quals": case["quals"]}
    root = sut.parse_ok(case["q"], loc=case["loc"])
    v = vc.validator(cfg, raise_at_first_violation=False)
    for op in [None] + case["ops"]:
        if op and edits.apply(root, [op]):
            ctx.nontrivial("nt:edited-" + op[1])
        want = ref.issues(sut.snap(root), cfg["ids"], cfg["quals"])
        res = sut.call("validate", v.validate, root)
        what = f"{case['q']!r} with {cfg} edited by {case['ops']}"
        ensure(res is (not [w for w in want if w[0] == "error"]), lambda: f"{what}: validate() is {res}, expected issues {[w[1] for w in want]}")
        for sev, got in (("error", v.errors), ("warning", v.warnings)):
            w = [x for x in want if x[0] == sev]
            ensure([vc.detail(e)[1] for e in got] == [x[2].span for x in w], lambda: f"{what}: {sev}s {got}, expected {[(x[1], x[2].span) for x in w]}")
            for e, x in zip(got, w):
                ensure(str(x[3]) in e.message, lambda: f"{what}: message {e.message!r} does not mention {x[3]!r}")


parent_case = st.fixed_dictionaries({"qs": st.lists(vc.vqueries(), min_size=1, max_size=3), "fail_at": st.one_of(st.none(), st.integers(1, 6)), "boom": st.booleans(), "part": st.one_of(st.just(0), st.integers(0, 12))})

def stopped(case, ctx):
    """a validation that ends somewhere in the middle does not show in later ones"""
    cfg = {"ids": case["ids"], "quals": case["quals"]}
    kw = {"raise_at_first_violation": case["raising"], "warnings_as_errors": case["wae"]}
    v = vc.validator(cfg, **kw)
    nodes = [(q, sut.parse_ok(q)) for q in case["qs"]]
    q, node = nodes[0]
    want = run(vc.validator(cfg, **kw), node, q)
    for i, n, kind, how in case["stops"]:
        oq, on = nodes[i % len(nodes)]
        before = (sut.snap(on).key(True), sut.anatomy(on))

        def work():
            try:
                (v.validate if how == "validate" else v.is_valid)(on, query=oq)
            except fv.SpecificationValidationError:
                pass

        where = sut.interrupted(work, n, sut.Interrupt if kind == "interrupt" else sut.Fault)
        if where:
            ctx.nontrivial("nt:stopped-" + kind)
        ensure((v.raise_at_first_violation, v.warnings_as_errors) == (case["raising"], case["wae"]) or how == "is_valid", lambda: f"settings of the validator changed by a validation of {oq!r} that has been ended")
        ensure((sut.snap(on).key(True), sut.anatomy(on)) == before, lambda: f"a validation that has been ended changed the tree of {oq!r}")
        got = run(v, node, q) if how == "validate" else run(vc.validator(cfg, **kw), node, q)
        ensure(got == want, lambda: f"{q!r} with {cfg}, {kw}: {got} after a validation of {oq!r} has been ended by {kind} at {where}, otherwise {want}")


stop_case = st.fixed_dictionaries({"qs": st.lists(vc.vqueries(), min_size=1, max_size=2), "ids": vc.id_lists, "quals": vc.qual_lists, "raising": st.booleans(), "wae": st.booleans(),
                                   "stops": st.lists(st.tuples(st.integers(0, 1), st.one_of(st.integers(1, 40), st.integers(1, 200)), st.sampled_from(["interrupt", "fault"]), st.sampled_from(["validate", "validate", "is_valid"])).map(list), min_size=1, max_size=4)})

def deep(case, ctx):
    """trees far deeper than usual: the handlers know the parent before and after the children of the node"""
    steps = case["steps"]
    tip = fp.Expression(None, "text", fp.Operator.EQUALS, "a", None)
    n, side = tip, []
    for i in range(case["depth"]):
        k = steps[i % len(steps)]
        if k == "not":
            n = fp.ExpressionNot(n)
        elif k == "group":
            n = fp.ExpressionGroup(n)
        elif k == "and":
            n = fp.ExpressionAnd([n, fp.ExpressionWildcard()])
        elif k == "or":
            n = fp.ExpressionOr([fp.ExpressionWildcard(), n])
        else:
            n = fp.QueryGroup(n, 1, 1)
    log = []

    def looking(name):
        def h(self, node):
            log.append((node, self.parent_node, "before"))
            r = getattr(super(V, self), name)(node)
            log.append((node, self.parent_node, "after"))
            return r

        return h

    V = type("V", (fv.Validator,), {k: looking(k) for k in dir(fv.Validator) if k.startswith("visit_")})
    v = V(raise_at_first_violation=False)
    ctx.nontrivial("nt:deep:%d" % (case["depth"] // 50 * 50))
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(limit + 16 * case["depth"] + 500)
    try:
        ok = sut.call("validate", v.validate, n)
    finally:
        sys.setrecursionlimit(limit)
    ensure(ok is True and v.parent_node is None, lambda: f"chain of {case['depth']} {steps}: validate() {ok!r}, parent_node afterwards {v.parent_node and sut.kind(v.parent_node)}")
    for m, par, when in log:
        ensure(par is m.parent, lambda: f"chain of {case['depth']} {steps}: parent_node of {sut.kind(m)} {when} its children is {par and sut.kind(par)}, expected {m.parent and sut.kind(m.parent)}")
    size = 1 + case["depth"] + sum(steps[i % len(steps)] in ("and", "or") for i in range(case["depth"]))
    ensure(len(log) == 2 * size, lambda: f"chain of {case['depth']} {steps}: {len(log)} handler calls for {size} nodes")


deep_case = st.fixed_dictionaries({"depth": st.one_of(st.integers(1, 40), st.sampled_from([31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 256, 257, 300])),
                                   "steps": st.lists(st.sampled_from(["not", "group", "and", "or", "qgroup"]), min_size=1, max_size=4)})

PROP = Prop("C18", "validator used at least twice, or validation observed through handlers (distinct cases)", [
    Sub("reuse", twins(reuse_case), reuse, 250, 6000),
    Sub("modes", mode_case(), modes, 250, 6000),
    Sub("parts", parts_case, parts, 250, 6000),
    Sub("shared", shared_case, shared, 150, 4000),
    Sub("sticky", twins(sticky_case), sticky, 250, 6000),
    Sub("edited", st.tuples(st.fixed_dictionaries({"q": vc.vqueries(), "ids": vc.id_lists, "quals": vc.qual_lists, "loc": st.booleans()}), edits.ops).map(lambda t: {**t[0], "ops": t[1]}), edited, 200, 5000),
    Sub("deep", deep_case, deep, 60, 1500),
    Sub("stopped", stop_case, stopped, 200, 5000),
    Sub("parents", parent_case, parents, 300, 8000),
])
