"""C35: own validators - rules written on the base class, and their registration for the one-call validation."""
from hypothesis import strategies as st

from .. import gen, ref, sut
from ..common import any_query, labels, valid
from ..core import Prop, Sub
from ..sut import ensure, fcsql, fp, fv
from . import vcommon as vc

KINDS = sorted(sut.CLASSES)


def rules_class(rules, log=None, base=fv.Validator):
    """validator class from generated rules: [kind, "error"/"warning", "before"/"after", text, target]"""

    def handler(kind, mine):
        name = "visit_" + kind

        def h(self, node):
            if log is not None:
                log.append((kind, id(node), id(self.parent_node) if self.parent_node is not None else None))
            for _, sev, _, text, target in (r for r in mine if r[2] == "before"):
                report(self, node, sev, text, target)
            res = getattr(super(cls, self), name)(node)
            for _, sev, _, text, target in (r for r in mine if r[2] == "after"):
                report(self, node, sev, text, target)
            return res

        return h

    def report(self, node, sev, text, target):
        at = node if target == "node" else node.parent if target == "parent" else node.get_first_child()
        if at is not None:
            (self.validation_error if sev == "error" else self.validation_warning)(at, text)

    ns = {"visit_" + k: handler(k, [r for r in rules if r[0] == k]) for k in {r[0] for r in rules}}
    cls = type("Own", (base,), ns)
    return cls


def predict(root, rules, q):
    """issues in the order in which they are reported: (severity, text, node)"""
    out = []

    def fire(n, when):
        k = sut.kind(n)
        for kind, sev, w, text, target in rules:
            if kind == k and w == when:
                at = n if target == "node" else n.parent if target == "parent" else (n.children[0] if n.children else None)
                if at is not None:
                    out.append((sev, text, at))

    def go(n):
        fire(n, "before")
        for c in n.children:
            go(c)
        fire(n, "after")

    go(root)
    return out


def fragment(q, n):
    return q[n.location.start : n.location.stop] if q and n.location else None


def as_details(issues, sev, q):
    typ = {"error": "validation-error", "warning": "validation-warning"}[sev]
    return [(text, typ, n.location, fragment(q, n)) for s, text, n in issues if s == sev]


def shown(es):
    return [(e.message, e.type, e.position, e.fragment) for e in es]


rule = st.tuples(st.sampled_from(KINDS + ["Expression", "QuerySegment"] * 3), st.sampled_from(["error", "warning"]), st.sampled_from(["before", "after"]),
                 st.sampled_from(["no", "bad {node}", "100% \u00e4", "same", "same", ""]), st.sampled_from(["node", "node", "node", "parent", "child"])).map(list)
longer = st.tuples(st.sampled_from(["x", "bad ", "\u00e4", "no\n", "%s ", "{} "]), st.one_of(st.sampled_from(gen.SIZES), st.sampled_from(gen.HUGE), st.sampled_from([2000, 4096, 5000]))).map(lambda t: t[0] * t[1])
rule = st.one_of(rule, rule, rule, rule, rule, st.tuples(rule, longer).map(lambda t: t[0][:3] + [t[1]] + t[0][4:]))
rules = st.lists(rule, min_size=1, max_size=4)


def direct(case, ctx):
    q, rs, wae = case["q"], case["rules"], case["wae"]
    node = sut.parse_ok(q, loc=case["loc"])
    # rules of one kind and moment fire in the order listed
    want = predict(node, rs, q)
    cls = rules_class(rs)
    given = q if case["giveq"] else None
    if want:
        ctx.nontrivial("issues:" + "+".join(sorted({s for s, _, _ in want})))
    E, W = as_details(want, "error", given), as_details(want, "warning", given)
    v = cls(query=given, raise_at_first_violation=False, warnings_as_errors=wae)
    for _ in range(2):
        res = sut.call("validate", v.validate, node)
        ensure((shown(v.errors), shown(v.warnings)) == (E, W), lambda: f"{q!r} with rules {rs}: recorded {shown(v.errors)} / {shown(v.warnings)}, expected {E} / {W}")
        ensure(res is (not E and not (wae and W)), lambda: f"{q!r} with rules {rs}: validate() is {res}")
    bad = next(((text, n) for s, text, n in want if s == "error" or wae), None)
    r = cls(query=given, raise_at_first_violation=True, warnings_as_errors=wae)
    ensure(sut.call("is_valid", r.is_valid, node) is (bad is None), lambda: f"{q!r} with rules {rs}: is_valid() is {bad is not None}")
    try:
        got = r.validate(node)
    except fv.SpecificationValidationError as e:
        ensure(bad is not None and str(e) == bad[0] and e.node is bad[1] and e.query_fragment == fragment(given, bad[1]),
               lambda: f"{q!r} with rules {rs}: raised {e!r} for {e.node}, fragment {e.query_fragment!r}; expected {bad and bad[0]!r}")
    except Exception as e:
        sut.fail(f"{q!r} with rules {rs}: raised {type(e).__name__}: {e}")
    else:
        ensure(bad is None and got is True, lambda: f"{q!r} with rules {rs}: nothing raised, result {got}, expected {bad and bad[0]!r}")


def registered(case, ctx):
    """the one-call validation runs the class registered for the version asked for"""
    q, rs, wae, ver = case["q"], case["rules"], case["wae"], case["version"]
    saved = dict(fv.VALIDATORS)
    log, args = [], []
    base = rules_class(rs, log)

    class Seen(base):
        def __init__(self, **kw):
            args.append(dict(kw))
            super().__init__(**kw)

    fv.VALIDATORS[ver] = Seen
    try:
        rej = ref.verdict(q)[1]
        es = sut.call(f"validate({q!r}, version={ver!r}, return_errors=True)", fcsql.validate, q, version=ver, return_errors=True, warnings_as_errors=wae)
        b = sut.call(f"validate({q!r}, version={ver!r})", fcsql.validate, q, version=ver, warnings_as_errors=wae)
        if ver != "2.2":
            other = sut.call("validate", fcsql.validate, q, return_errors=True, warnings_as_errors=wae)
    finally:
        fv.VALIDATORS.clear()
        fv.VALIDATORS.update(saved)
    ensure(b is (not es), lambda: f"validate({q!r}, version={ver!r}) is {b}, but lists {es}")
    if ver != "2.2":
        plain = sut.call("validate", fcsql.validate, q, return_errors=True, warnings_as_errors=wae)
        ensure(other == plain, lambda: f"{q!r}: another registered version changes the default one from {plain} to {other}")
        try:
            fcsql.validate(q, version=ver)
        except ValueError:
            pass
        else:
            sut.fail(f"version {ver!r} is still known after its validator was taken out")
    if rej:
        ctx.label("rejected")
        p = sut.parser(loc=True)
        sut.try_parse(q, p=p)
        tail = es[len(es) - len(p.errors):]
        ensure(not log, lambda: f"{q!r} cannot be parsed, but the validator has been asked")
        ensure(bool(es) and tail == p.errors and all(e.message for e in es), lambda: f"{q!r}: {es} does not list the parse problems {p.errors}")
        return
    ctx.nontrivial("version " + ("2.2" if ver == "2.2" else "new"))
    node = sut.parse_ok(q)
    want = predict(node, rs, q)
    exp = as_details(want, "error", q) + (as_details(want, "warning", q) if wae else [])
    got = shown(es)
    ensure(sorted(map(repr, got)) == sorted(map(repr, exp)), lambda: f"validate({q!r}, version={ver!r}) with rules {rs}: {got}, expected {exp}")
    ensure(bool(args) and all(a.get("query") in (q, None) for a in args), lambda: f"validator for {ver!r} was made with {args}")


NEAR = ["2.2-draft", "2.2 ", " 2.2", "2.20", "2", "2.", ".2", "2.2.0", "2.2.1", "02.2", "v2.2", "V2.2", "FCS 2.2", "2,2", "2_2", "latest", "default", "", "None", "2.2\n", "2.2-", "2.2/x", "2.2+1", "2.3", "1.2", "\uff12.2", "2\u066b2", "3.0", "*"]


def versions_check(case, ctx):
    """only registered names are known, exactly as registered"""
    q = case["q"]
    saved = dict(fv.VALIDATORS)
    fv.VALIDATORS.update({v: fv.FCSQLValidator for v in case["have"]})
    try:
        plain = fcsql.validate(q), fcsql.validate(q, return_errors=True)
        del fv.VALIDATORS["2.2"]
        for kw in ({}, {"version": "2.2"}, {"return_errors": True}):
            try:
                r = fcsql.validate(q, **kw)
            except ValueError as e:
                ensure(not isinstance(e, fcsql.QueryParserException), lambda: f"validate({q!r}, {kw}) without any validator for 2.2: {e!r}")
            else:
                sut.fail(f"validate({q!r}, {kw}) gives {r!r} though 2.2 is not registered any more")
        fv.VALIDATORS["2.2"] = saved["2.2"]
        ensure(plain == (fcsql.validate(q), fcsql.validate(q, return_errors=True)), lambda: f"{q!r}: 2.2 registered again answers differently")
        for v in case["ask"] + case["have"] + ["2.2", None, 2.2, b"2.2", ("2.2",), 2]:
            known = v in fv.VALIDATORS
            for kw in ({}, {"return_errors": True}, {"return_errors": True, "warnings_as_errors": True}):
                try:
                    r = fcsql.validate(q, version=v, **kw)
                except ValueError as e:
                    ensure(not known and not isinstance(e, (fcsql.QueryParserException, fv.SpecificationValidationError)), lambda: f"validate({q!r}, version={v!r}, {kw}) with {sorted(fv.VALIDATORS)}: {e!r}")
                except Exception as e:
                    sut.fail(f"validate({q!r}, version={v!r}, {kw}): {type(e).__name__}: {e}")
                else:
                    ensure(known, lambda: f"validate({q!r}, version={v!r}, {kw}) gives {r!r} though only {sorted(fv.VALIDATORS)} are registered")
                    ensure(r == fcsql.validate(q, **kw), lambda: f"validate({q!r}, version={v!r}, {kw}) gives {r!r}, the same class as 2.2 {fcsql.validate(q, **kw)!r}")
            ctx.nontrivial("version " + ("known" if known else "unknown"))
    finally:
        fv.VALIDATORS.clear()
        fv.VALIDATORS.update(saved)


def lists(case, ctx):
    """a subclass of the FCS validator may have its own known and legacy layers"""
    q = case["q"]
    t = sut.parse_ok(q)
    ns = {k: v for k, v in (("KNOWN_LAYER_IDENTIFIERS", case["known"]), ("KNOWN_LEGACY_LAYER_IDENTIFIER", case["legacy"])) if v is not None}
    cls = type("Own", (fv.FCSQLValidator,), ns)
    known, legacy = ns.get("KNOWN_LAYER_IDENTIFIERS", STD_KNOWN), ns.get("KNOWN_LEGACY_LAYER_IDENTIFIER", STD_LEGACY)
    bad = [n for n in sut.nodes(t) if sut.kind(n) == "Expression" and n.identifier not in known and n.identifier not in legacy and not n.identifier.startswith("x-")]
    for c, b in ((cls, bad), (fv.FCSQLValidator, [n for n in sut.nodes(t) if sut.kind(n) == "Expression" and n.identifier not in STD_KNOWN and n.identifier not in STD_LEGACY and not n.identifier.startswith("x-")])):
        v = c(query=q, raise_at_first_violation=False)
        r = sut.call("validate", v.validate, t)
        ensure(r is (not b) and [e.position for e in v.errors] == [n.location for n in b], lambda: f"{q!r} judged by {c.__name__} with {ns}: {r}, {v.errors}, expected errors for {[str(n) for n in b]}")
        ensure(sut.call("is_valid", c().is_valid, t) is (not b), lambda: f"{q!r}: is_valid of {c.__name__} with {ns}")
    ctx.nontrivial("lists")


STD_KNOWN, STD_LEGACY = ["text", "lemma", "pos", "orth", "norm", "phonetic"], ["word"]
NAMED = st.lists(st.sampled_from(["text", "lemma", "pos", "word", "foo", "x-a", "mine", "zoo"]), max_size=4, unique=True)


def entry(case, ctx):
    """own validators may also take over visit() itself, on either base class: every node goes through it, the root first"""
    q = case["q"]
    t = sut.parse_ok(q, loc=case["loc"])
    base = fv.FCSQLValidator if case["fcs"] else fv.Validator
    depth = case["depth"]
    seen = []
    cls, classes = base, []
    for d in range(depth):

        def visit(self, node, d=d):
            seen.append((d, node))
            return super(classes[d], self).visit(node)

        cls = type(f"Own{d}", (cls,), {"visit": visit})
        classes.append(cls)
    for raising in (False, True):
        for way in ("validate", "is_valid"):
            plain = base(query=q, raise_at_first_violation=raising)
            own = cls(query=q, raise_at_first_violation=raising)
            seen.clear()

            def run(v):
                try:
                    r = getattr(v, way)(t)
                except fv.SpecificationValidationError as e:
                    return "raised", str(e), e.query_fragment
                except Exception as e:
                    sut.fail(f"{q!r}: {way}() of {type(v).__name__} raised {type(e).__name__}: {e}")
                return r, shown(v.errors), shown(v.warnings)

            got, want = run(own), run(plain)
            ensure(got == want, lambda: f"{q!r}: {way}() with visit() overridden and calling on gives {got}, without {want}")
            order = [n for n in sut.nodes(t)]
            # expressions have no children that would be visited later; a raising validator stops at the first violation
            for d in range(depth):
                mine = [n for x, n in seen if x == d]
                ensure(bool(mine) and mine[0] is t, lambda: f"{q!r}: {way}() does not go through the overridden visit() at the root")
                ensure([id(n) for n in mine] == [id(n) for n in order[: len(mine)]] and (raising or len(mine) == len(order)), lambda: f"{q!r}: visit() overridden in a subclass of {base.__name__} sees {[str(n) for n in mine]}, expected {[str(n) for n in order]}")
    ctx.nontrivial("entry:" + base.__name__)


def results(case, ctx):
    """handlers on the base class may return results: they are folded like those of any visitor"""
    node = sut.parse_ok(case["q"], loc=case["loc"])
    chosen, agg, start = set(case["kinds"]), case["agg"], case["start"]

    def fold(a, b):
        return b if agg == "last" else [*(a or []), b] if agg == "list" else ("pair", a, b)

    def handler(kind):
        return lambda self, n: (kind, getattr(fv.Validator, "visit_" + kind)(self, n))

    ns = {"visit_" + k: handler(k) for k in chosen}
    if agg != "last":
        ns["aggregateResult"] = lambda self, a, b: fold(a, b)
    if start:
        ns["defaultResult"] = lambda self: "start" if agg != "list" else ["start"]
    first = None if not start else "start" if agg != "list" else ["start"]
    cls = type("Own", (fv.Validator,), ns)

    def go(n):
        r = first
        for c in n.children:
            r = fold(r, go(c))
        return (sut.kind(n), r) if sut.kind(n) in chosen else r

    got, want = sut.call("visit", cls().visit, node), go(node)
    if want is not None:
        ctx.nontrivial("result")
    ensure(got == want, lambda: f"{case['q']!r}: handlers for {sorted(chosen)} with {agg} give {got!r}, expected {want!r}")


versions = st.one_of(st.just("2.2"), st.sampled_from(["2.0", "2.1", "3", "custom", ""]), st.text(max_size=4))
common = {"rules": rules, "wae": st.booleans()}
vq = st.one_of(vc.vqueries(), valid(leaves=5, rich=0).map(lambda c: c["q"]))
PROP = Prop("C35", "accepted query judged by an own validator (distinct cases)", [
    Sub("direct", st.fixed_dictionaries({"q": vq, "loc": st.booleans(), "giveq": st.booleans(), **common}), direct, 350, 9000),
    Sub("results", st.fixed_dictionaries({"q": valid(leaves=5, rich=0).map(lambda c: c["q"]), "loc": st.booleans(), "kinds": st.lists(st.sampled_from(KINDS), min_size=1, max_size=5, unique=True),
                                          "agg": st.sampled_from(["last", "last", "list", "pair"]), "start": st.booleans()}), results, 250, 6000),
    Sub("lists", st.fixed_dictionaries({"q": st.one_of(vc.vqueries(vc.atoms(names=st.sampled_from(["text", "lemma", "pos", "word", "foo", "x-a", "mine", "zoo"]))), vc.vqueries()), "known": st.one_of(st.none(), NAMED), "legacy": st.one_of(st.none(), NAMED)}), lists, 200, 4000),
    Sub("entry", st.fixed_dictionaries({"q": st.one_of(vq, valid(leaves=1, depth=1, rich=0).map(lambda c: c["q"])), "loc": st.booleans(), "fcs": st.booleans(), "depth": st.integers(1, 2)}), entry, 250, 6000),
    Sub("versions", st.fixed_dictionaries({"q": st.one_of(vq, any_query().map(lambda c: c["q"])), "have": st.lists(st.one_of(st.sampled_from(NEAR), st.text(max_size=3)), max_size=2),
                                           "ask": st.lists(st.one_of(st.sampled_from(NEAR), st.text(max_size=4)), min_size=1, max_size=4)}), versions_check, 250, 6000),
    Sub("registered", st.fixed_dictionaries({"q": st.one_of(vq, vq, any_query().map(lambda c: c["q"])), "version": versions, **common}), registered, 250, 6000),
])
