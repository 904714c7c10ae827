"""C17: collecting, raising and boolean validation agree."""
from hypothesis import strategies as st

from .. import ref, sut
from ..core import Prop, Sub
from ..sut import ensure, fp, fv
from . import vcommon as vc


MILD = vc.atoms(names=st.sampled_from(["text", "lemma", "pos", "word", "x-a"]))


def check(case, ctx):
    q, cfg, wae, loc, how = case["q"], {"ids": case["ids"], "quals": case["quals"]}, case["wae"], case["loc"], case["how"]
    node = sut.parse_ok(q, loc=loc)

    def mk(raising):
        kw = {"query": q} if how == "ctor" else {"query": "wrong " + q} if how in ("override", "blank") else {}
        return vc.validator(cfg, raise_at_first_violation=raising, warnings_as_errors=wae, **kw)

    arg = {"query": q} if how in ("call", "override") else {"query": ""} if how == "blank" else {}
    has_q = how not in ("none", "blank")
    c = mk(False)
    res = sut.call("validate", lambda: c.validate(node, **arg))
    E, W = list(c.errors), list(c.warnings)
    for e in E + W:
        d = vc.detail(e)
        ensure(e.type == ("validation-error" if e in E else "validation-warning"), lambda: f"{q!r}: {e}")
        if d[1] is None:
            ensure(not loc and d[2] is None, lambda: f"{q!r}: issue {e} has no position")
        else:
            ensure(loc and d[2] == (q[d[1][0] : d[1][1]] if has_q else None) or not has_q and d[2] == "", lambda: f"{q!r} ({how}): issue {e} shows the wrong fragment")
    bad = bool(E) or (wae and bool(W))
    ensure(res is (not bad), lambda: f"{q!r} with {cfg}: validate() is {res} with errors {len(E)}, warnings {len(W)}, warnings_as_errors={wae}")
    ensure(sut.call("is_valid", lambda: mk(False).is_valid(node, **arg)) is (not bad), lambda: f"{q!r}: is_valid() of a collecting validator disagrees")
    r = mk(True)
    ensure(sut.call("is_valid", lambda: r.is_valid(node, **arg)) is (not bad), lambda: f"{q!r} with {cfg}: is_valid() of a raising validator disagrees (expected {not bad})")
    r = mk(True)
    exc = None
    try:
        rr = r.validate(node, **arg)
    except fv.SpecificationValidationError as e:
        exc = e
    except Exception as e:
        sut.fail(f"{q!r}: validate() raised {type(e).__name__}: {e}")
    ctx.label("wae:%s" % wae, "how:" + how)
    if E or W:
        ctx.nontrivial("nt:" + ("error" if E else "") + ("warning" if W else ""))
    ensure((exc is not None) == bad, lambda: f"{q!r} with {cfg}: raising validator {'raised ' + str(exc) if exc else 'did not raise'}, collected errors {len(E)}, warnings {len(W)}, warnings_as_errors={wae}")
    if exc is None:
        ensure(rr is True, lambda: f"{q!r}: raising validator returned {rr}")
        ensure(r.errors == [] and list(r.warnings) == W, lambda: f"{q!r}: warnings {r.warnings} differ from {W}")
        return
    # the raised violation is the first one the collecting validator records
    cands = ([W[0]] if wae and W else []) + ([E[0]] if E else [])
    if loc and len(cands) == 2:
        cands.sort(key=lambda e: (e.position.start, e.type))
        if cands[0].position.start != cands[1].position.start:
            cands = cands[:1]
    ensure(any(str(exc) == e.message and exc.query_fragment == e.fragment for e in cands),
           lambda: f"{q!r} with {cfg}: raised {exc!r} ({exc.query_fragment!r}), first collected {cands}")
    ensure(isinstance(exc.node, fp.Expression) and any(exc.node is n for n in sut.nodes(node)), lambda: f"{q!r}: violation names node {exc.node!r}")
    if loc:
        ensure(any(exc.node.location == e.position for e in cands), lambda: f"{q!r}: violation node at {exc.node.location}")


case = st.fixed_dictionaries({"q": st.one_of(vc.vqueries(), vc.vqueries(MILD)), "ids": st.one_of(st.none(), vc.id_lists), "quals": st.one_of(st.none(), vc.qual_lists), "wae": st.booleans(), "loc": st.sampled_from([True, True, False]),
                              "how": st.sampled_from(["ctor", "call", "override", "none", "blank"])})


def custom(case, ctx):
    """own validators: every reported violation is recorded, in order, with its node"""
    q = case["q"]
    node = sut.parse_ok(q, loc=True)
    want_e, want_w = [], []

    class V(fv.Validator):
        def visit_QuerySegment(self, n):
            self.validation_warning(n, "segment")
            return super().visit_QuerySegment(n)

        def visit_Expression(self, n):
            if n.operator == fp.Operator.NOT_EQUALS:
                self.validation_error(n, "ne " + n.identifier)
            return super().visit_Expression(n)

        def visit_ExpressionNot(self, n):
            self.validation_error(n, "not")
            return super().visit_ExpressionNot(n)

    for n in sut.nodes(node):
        k = sut.kind(n)
        if k == "QuerySegment":
            want_w.append(("segment", n.location))
        elif k == "ExpressionNot":
            want_e.append(("not", n.location))
        elif k == "Expression" and n.operator == fp.Operator.NOT_EQUALS:
            want_e.append(("ne " + n.identifier, n.location))
    v = V(query=q, raise_at_first_violation=False, warnings_as_errors=case["wae"])
    res = sut.call("validate", v.validate, node)
    ge, gw = [(e.message, e.position) for e in v.errors], [(e.message, e.position) for e in v.warnings]
    ensure((ge, gw) == (want_e, want_w), lambda: f"{q!r}: custom validator recorded {ge} / {gw}, expected {want_e} / {want_w}")
    ensure(res is (not want_e and not (case["wae"] and want_w)), lambda: f"{q!r}: custom validator result {res}")
    ctx.nontrivial("nt:custom")
    # modes not given: raise at the first error, let warnings pass
    v = V(query=q) if case["wae"] else V()
    v.own = "kept"
    ensure(v.raise_at_first_violation is True and v.warnings_as_errors is False and v.query == (q if case["wae"] else None), lambda: f"a validator made without modes: raise_at_first_violation={v.raise_at_first_violation}, warnings_as_errors={v.warnings_as_errors}, query={v.query!r}")
    exc = None
    try:
        r = v.validate(node)
    except fv.SpecificationValidationError as e:
        exc = e
    if want_e:
        ensure(exc is not None and str(exc) == want_e[0][0] and exc.node.location == want_e[0][1], lambda: f"{q!r}: a custom validator without modes raised {exc!r}, expected {want_e[0]}")
    else:
        ensure(exc is None and r is True and [(e.message, e.position) for e in v.warnings] == want_w, lambda: f"{q!r}: a custom validator without modes raised {exc!r} or lists {v.warnings}, expected warnings {want_w}")


@st.composite
def repeat_case(draw):
    """the same few expressions over and over, without locations: issues that look the same are still one each"""
    a = draw(st.lists(vc.atoms(), min_size=1, max_size=2))
    n = draw(st.integers(2, 6))
    return {"q": " ".join("[" + a[i % len(a)] + "]" for i in range(n)), "ids": draw(vc.id_lists), "quals": draw(vc.qual_lists), "loc": draw(st.booleans()), "wae": draw(st.booleans())}


def repeated(case, ctx):
    q, cfg, loc = case["q"], {"ids": case["ids"], "quals": case["quals"]}, case["loc"]
    want = vc.model_issues(q, cfg)
    if want is None:
        return
    if want:
        ctx.nontrivial("nt:repeated")
    res, errors, warnings = vc.collect(q, cfg, loc=loc, warnings_as_errors=case["wae"])
    vc.compare(q, cfg, errors, warnings, want, loc=loc)


@st.composite
def many_case(draw):
    """hundreds of issues in one query"""
    a = draw(st.lists(vc.atoms(), min_size=1, max_size=2)) + [draw(st.sampled_from(["foo='a'", "bar='b'", "word='w'"]))]
    n = draw(st.one_of(st.integers(60, 140), st.sampled_from([256, 257, 300, 520])))
    return {"q": " ".join("[" + a[i % len(a)] + "]" for i in range(n)), "ids": draw(vc.id_lists), "quals": draw(vc.qual_lists), "loc": draw(st.booleans()), "wae": draw(st.booleans())}


def history(case, ctx):
    """one validator asked in different ways, one after the other: every answer is that of a validator made for it"""
    cfg, wae = {"ids": case["ids"], "quals": case["quals"]}, case["wae"]
    trees = [(q, sut.parse_ok(q, loc=case["loc"])) for q in case["qs"]]
    mk = lambda: vc.validator(cfg, raise_at_first_violation=case["raising"], warnings_as_errors=wae)

    def ask(v, way, q, t):
        try:
            r = v.is_valid(t, query=q) if way == "is_valid" else v.validate(t, query=q)
        except fv.SpecificationValidationError as e:
            ensure(way == "validate", lambda: f"{q!r}: is_valid() raised {e!r}")
            return ("raised", str(e), e.query_fragment, [n is e.node for n in sut.nodes(t)])
        except Exception as e:
            sut.fail(f"{q!r}: {way}() raised {type(e).__name__}: {e}")
        return (r, sorted(map(repr, v.errors)), sorted(map(repr, v.warnings))) if way == "validate" or not case["raising"] else r

    one = mk()
    done = []
    for way, i in case["asks"]:
        q, t = trees[i % len(trees)]
        done.append((way, q))
        got, want = ask(one, way, q, t), ask(mk(), way, q, t)
        ensure(got == want, lambda: f"validator (raising={case['raising']}, warnings_as_errors={wae}, {cfg}) asked {done}: {got}, a new one {want}")
        ensure((one.raise_at_first_violation, one.warnings_as_errors) == (case["raising"], wae), lambda: f"{done}: modes became raise_at_first_violation={one.raise_at_first_violation}, warnings_as_errors={one.warnings_as_errors}")
        if got is not True and got[0] is not True if isinstance(got, tuple) else not got:
            ctx.nontrivial("nt:history")


history_case = st.fixed_dictionaries({"qs": st.lists(st.one_of(vc.vqueries(), vc.vqueries(MILD)), min_size=1, max_size=3), "ids": st.one_of(st.none(), vc.id_lists), "quals": st.one_of(st.none(), vc.qual_lists), "wae": st.booleans(),
                                      "loc": st.booleans(), "raising": st.booleans(), "asks": st.lists(st.tuples(st.sampled_from(["is_valid", "validate"]), st.integers(0, 2)).map(list), min_size=2, max_size=6)})

def moved(case, ctx):
    """locations set by hand: raised and collected violations show the same text"""
    q = case["q"]
    node = sut.parse_ok(q)
    ns = [n for n in sut.nodes(node) if sut.kind(n) == "Expression"]
    for i, a, b in case["locs"]:
        ns[i % len(ns)].location = fp.SourceLocation(a, a + b) if b >= 0 else None
    cfg = {"ids": ["none-of-these"], "quals": None}
    text = case["text"] and q
    c = vc.validator(cfg, query=text, raise_at_first_violation=False)
    res = sut.call("validate", c.validate, node)
    es = [e for e in c.errors]
    ensure(res is False and [e.position for e in es] == [n.location for n in ns if n.identifier != "none-of-these"], lambda: f"{q!r} with locations {case['locs']}: {es}")
    for e in es:
        want = text[e.position.start : e.position.stop] if text and e.position else None
        ensure(e.fragment == want or not text and not e.fragment, lambda: f"{q!r} with locations {case['locs']}: {e}, fragment expected {want!r}")
    r = vc.validator(cfg, query=text)
    try:
        r.validate(node)
    except fv.SpecificationValidationError as x:
        ensure((str(x), x.query_fragment, x.node.location) == (es[0].message, es[0].fragment, es[0].position), lambda: f"{q!r} with locations {case['locs']}: raised {x!r} ({x.query_fragment!r}), first collected {es[0]}")
    else:
        sut.fail(f"{q!r}: nothing raised though {es} are collected")
    ctx.nontrivial("nt:moved")


moved_case = st.fixed_dictionaries({"q": vc.vqueries().filter(lambda q: any(n.type == "Expression" for n in ref.parse(q).walk())), "text": st.sampled_from([True, True, False]),
                                    "locs": st.lists(st.tuples(st.integers(0, 5), st.integers(0, 12), st.sampled_from([-1, 0, 0, 1, 3, 100])).map(list), min_size=1, max_size=4)})

PROP = Prop("C17", "query with at least one issue under its configuration, or custom validator run (distinct cases)", [
    Sub("modes", case, check, 600, 15000),
    Sub("repeated", repeat_case(), repeated, 150, 3000),
    Sub("many", many_case(), repeated, 12, 250),
    Sub("moved", moved_case, moved, 150, 3000),
    Sub("history", history_case, history, 250, 6000),
    Sub("custom", st.fixed_dictionaries({"q": vc.vqueries(), "wae": st.booleans()}), custom, 200, 4000),
])
