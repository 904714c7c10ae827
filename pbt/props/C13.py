"""C13: results do not depend on what was parsed before; results handed out stay as they were."""
from hypothesis import strategies as st

from .. import gen, ref, sut
from ..common import any_query, big, valid
from ..core import Prop, Sub
from ..sut import ensure, fcsql, fp
from .C05 import long_literal


def outcome(node, exc, p):
    return ("tree", sut.snap(node).key(True)) if node is not None else ("error", str(exc), tuple(p.errors))


def check(case, ctx):
    p = sut.parser(case["cfg"], case["loc"])
    cfg, loc = dict(case["cfg"]), case["loc"]
    kept = []
    outs = set()
    for step in case["steps"]:
        for k, v in step.get("set", {}).items():
            if k == "loc":
                loc = v
                p.enableSourceLocations = v
            else:
                cfg[k] = v
                setattr(p, {"identifier": "default_identifier", "operator": "default_operator", "norm": "unicode_normalization_form"}[k],
                        sut.OPOF[v] if k == "operator" else v)
        q = step["q"]
        node, exc = sut.try_parse(q, p=p)
        fresh = sut.parser(cfg, loc)
        n2, e2 = sut.try_parse(q, p=fresh)
        a, b = outcome(node, exc, p), outcome(n2, e2, fresh)
        ensure(a == b, lambda: f"reused parser on {q!r} after {[s['q'] for s in case['steps']]!r}: {a} but a fresh one gives {b}")
        ensure(node is None or p.errors == [], lambda: f"errors left over after a successful parse of {q!r}: {p.errors}")
        ensure((p.default_identifier, p.unicode_normalization_form, p.enableSourceLocations) == (fresh.default_identifier, fresh.unicode_normalization_form, loc),
               f"parsing {q!r} changed the parser's configuration")
        if case["globals"]:
            fcsql.can_parse(q)
            sut.call("validate", fcsql.validate, q)
        kept.append((q, node, p.errors, a))
        outs.add(a[0])
    for q, node, errs, a in kept:
        if node is not None:
            ensure(("tree", sut.snap(node).key(True)) == a, lambda: f"tree of {q!r} changed after later parses")
        else:
            ensure(tuple(errs) == a[2], lambda: f"error list of {q!r} changed after later parses")
    if len(case["steps"]) > 1:
        ctx.nontrivial("nt:mixed-outcomes" if len(outs) == 2 else "nt")


@st.composite
def history(draw):
    bad = st.one_of(gen.mutants().map(lambda t: {"q": t}), gen.semantic_bad().map(lambda t: {"q": t[0]}), any_query())
    pool = [draw(valid(leaves=4)), draw(bad)] + draw(st.lists(any_query(), max_size=1))
    steps = []
    if draw(st.integers(0, 7)) == 0:  # a long life: a short cycle of queries over and over
        cyc = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=4))
        n = draw(st.integers(10, 140))
        small = [c["q"] for c in cyc if len(c["q"]) < 60] or ['"a"']
        steps = [{"q": small[i % len(small)]} for i in range(n)]
    for _ in range(draw(st.integers(2, 6))):
        s = {"q": draw(st.sampled_from(pool))["q"]}
        if draw(st.integers(0, 2)) == 0:
            s["set"] = draw(st.fixed_dictionaries({}, optional={"loc": st.booleans(), "identifier": st.sampled_from(["text", "lemma", "x-y"]),
                                                                "operator": st.sampled_from(["Eq", "Ne"]), "norm": st.sampled_from(["NFC", "NFD", "NFKD", None])}))
        steps.append(s)
    return {"cfg": draw(gen.parser_cfgs), "loc": draw(st.booleans()), "steps": steps, "globals": draw(st.booleans())}


def repeat(case, ctx):
    """the same text gives the same answer again, also after unrelated queries"""
    q = case["q"]
    p0 = sut.parser()
    a = outcome(*sut.try_parse(q, p=p0), p0)
    for other in case["others"]:
        sut.try_parse(other)
        try:
            fcsql.antlr_parse(other)
        except fcsql.SyntaxError:
            pass
    p1 = sut.parser()
    b = outcome(*sut.try_parse(q, p=p1), p1)
    ctx.nontrivial("nt:repeat-" + a[0])
    ensure(a == b, lambda: f"{q!r}: first {a}, after parsing {case['others']!r}: {b}")


repeat_case = st.fixed_dictionaries({"q": st.one_of(valid(leaves=4), any_query()).map(lambda c: c["q"]), "others": st.lists(any_query().map(lambda c: c["q"]), min_size=1, max_size=3)})

@st.composite
def variants_case(draw):
    q = draw(st.one_of(valid(leaves=4, rich=2, large=0), any_query()))["q"]
    if draw(st.integers(0, 2)) == 0:
        q = draw(st.sampled_from(['"{}"', "[x-a='{}']", "'{}' [text!='{}'/i] within s", "('{}' | 'b'){{2}}"])).replace("{}", draw(st.sampled_from(gen.NORM_CHARS + ["\\u0041\\u030a", "o\\x41"]))).replace("{{", "{").replace("}}", "}")
    setups = draw(st.lists(st.tuples(gen.parser_cfgs, st.booleans()), min_size=2, max_size=5))
    return {"q": q, "setups": [[c, l] for c, l in setups]}


def variants(case, ctx):
    """one text, several parser configurations, in one process: each gives what the reference gives for it"""
    q = case["q"]
    outs = []
    for cfg, loc in case["setups"] + case["setups"][:1]:
        try:
            want = ref.parse(q, cfg).key(False)
        except ref.Reject:
            want = None
        p = sut.parser(cfg, loc)
        node, exc = sut.try_parse(q, p=p)
        ensure((node is None) == (want is None), lambda: f"{q!r} with {cfg}: {exc or 'tree'}, expected {'a tree' if want else 'rejection'}")
        if node is not None:
            got = ref.collapse(sut.snap(node))
            ensure(got.key(False) == want, lambda: f"{q!r} with {cfg} after {case['setups']}: got {got.show()}")
            ensure(all((n.location is not None) is loc for n in sut.nodes(node)), lambda: f"{q!r}: source locations with enableSourceLocations={loc}")
            for other in outs:
                ensure(not (set(map(id, sut.nodes(other))) & set(map(id, sut.nodes(node)))), lambda: f"{q!r}: two parses returned shared nodes")
            outs.append(node)
    ctx.nontrivial("nt:variants-" + ("tree" if outs else "error"))


def stopped(case, ctx):
    """calls that end somewhere in the middle do not show in later ones"""
    q, cfg, loc = case["q"], case["cfg"], case["loc"]
    p0 = sut.parser(cfg, loc)
    a = outcome(*sut.try_parse(q, p=p0), p0)
    low = None
    if case["low"]:
        low = lowlevel(q)
    p = sut.parser(cfg, loc)
    for other, n, kind, how in case["stops"]:
        exc = sut.Interrupt if kind == "interrupt" else sut.Fault
        mine = sut.parser(cfg, loc)

        def work():
            try:
                (p.parse if how == "same" else mine.parse if how == "own" else fcsql.antlr_parse if how == "low" else fcsql.validate)(other)
            except (fcsql.QueryParserException, fcsql.SyntaxError):
                pass

        try:
            where = sut.interrupted(work, n, exc)
        except RecursionError:
            continue
        if where:
            ctx.nontrivial("nt:stopped-" + kind)
            ctx.label("stopped in " + where[0])
        for x in (p, sut.parser(cfg, loc)):
            b = outcome(*sut.try_parse(q, p=x), x)
            ensure(a == b, lambda: f"{q!r} gives {a}, but {b} after {how} {other!r} has been ended by {kind} at {where} (step {n})")
        if case["low"]:
            ensure(lowlevel(q) == low, lambda: f"low-level parse of {q!r} differs after {how} {other!r} has been ended by {kind} at {where}")


def lowlevel(q):
    try:
        return fcsql.antlr_parse(q).toStringTree(fcsql.FCSParser.ruleNames)
    except fcsql.SyntaxError as e:
        return str(e)


PROBES = ["'e\u0301'", "'\u212b'", "[q:a!='\\u0041\\.\\\\n']", "'b'/dI", "(\"c\"){2,3}", "[]", "'a' 'b' | 'c' within t", "[a='x' | b='y' & !c='z']", "", "'", "'a'/il", "'a'{3,2}", "'\\q'", "'a' $ )", "[Text='a']"]


def told(q, cfg):
    try:
        return ref.parse(q, cfg).key(False)
    except ref.Reject:
        return None


def answers(q, p, cfg, loc, what):
    want = told(q, cfg)
    node, exc = sut.try_parse(q, p=p)
    ensure((node is None) == (want is None), lambda: f"{what}: {q!r} is {'rejected: %s' % exc if node is None else 'accepted'}")
    if node is not None:
        got = ref.collapse(sut.snap(node))
        ensure(got.key(False) == want, lambda: f"{what}: {q!r} gives {got.show()}")
        ensure(all((n.location is not None) is loc for n in sut.nodes(node)), lambda: f"{what}: {q!r}: source locations with enableSourceLocations={loc}")
    return want is not None


def probes(case, ctx):
    """one query, whatever it is, and then the parser answers a fixed set of others as ever"""
    q, cfg, loc = case["q"], case["cfg"], case["loc"]
    p = sut.parser(cfg, loc)
    node, _ = sut.try_parse(q, p=p)
    for s in case["order"]:
        answers(PROBES[s], p, cfg, loc, f"after {q[:80]!r}... ({len(q)} characters)")
    ctx.nontrivial("nt:probes-" + ("tree" if node is not None else "error"))


def forms(q):
    import unicodedata

    return {"itself": q, "swapcase": q.swapcase(), "lower": q.lower(), "upper": q.upper(), "casefold": q.casefold(), "title": q.title(), "strip": q.strip(), "words": " ".join(q.split()), "glued": "".join(q.split()), "padded": f" {q}\n",
            **{f: unicodedata.normalize(f, q) for f in ("NFC", "NFD", "NFKC", "NFKD")}, "quotes": q.translate({34: 39, 39: 34}), "no quotes": q.replace("'", "").replace('"', ""), "cut": q[:-1], "cut front": q[1:], "reversed": q[::-1],
            "ascii": q.encode("ascii", "ignore").decode(), "replaced": q.encode("ascii", "replace").decode(), "sorted": "".join(sorted(q)), "twice": q + " " + q, "half": q[: len(q) // 2], "first 32": q[:32], "nul": q + "\0", "escape": q.replace("\\", "\\\\")}


def cousins(case, ctx):
    """texts that are alike in one respect or other are still told apart, in every order"""
    fs = forms(case["q"])
    texts = [fs[k] for k in case["forms"]]
    want = {}
    for q in texts:
        w = told(q, None)
        want[q] = w is not None
        ensure(sut.call("can_parse", fcsql.can_parse, q) is want[q], lambda: f"can_parse({q!r}) is {not want[q]} after {texts!r}")
        answers(q, sut.parser(loc=True), None, True, f"among {texts!r}")
        v = sut.call("validate", fcsql.validate, q)
        ensure(want[q] or v is False, lambda: f"validate({q!r}) is {v!r} after {texts!r}")
        ensure(v == (sut.call("validate", fcsql.validate, q, return_errors=True) == []), lambda: f"validate({q!r}): {v!r} but list {fcsql.validate(q, return_errors=True)} after {texts!r}")
        low = lowlevel(q)
        ensure(low.startswith("(query") or told(q, None) is None, lambda: f"antlr_parse({q!r}): {low!r} after {texts!r}")
    if len(set(texts)) > 1:
        ctx.nontrivial("nt:cousins" + ("-mixed" if len(set(want.values())) > 1 else ""))


cousin_case = st.fixed_dictionaries({"q": st.one_of(valid(leaves=3, rich=2, large=0), valid(leaves=3, rich=1, large=0), any_query()).map(lambda c: c["q"]).filter(lambda q: len(q) < 400),
                                     "forms": st.lists(st.sampled_from(sorted(forms(""))), min_size=1, max_size=4).map(lambda l: ["itself"] + l + ["itself"])})
probe_case = st.fixed_dictionaries({"q": st.one_of(big().map(lambda c: c["q"]), long_literal().map(lambda c: c["lit"]), gen.semantic_bad().map(lambda t: t[0]), valid(leaves=4, rich=2).map(lambda c: c["q"]), any_query().map(lambda c: c["q"])),
                                    "cfg": gen.parser_cfgs, "loc": st.booleans(), "order": st.permutations(range(len(PROBES))).map(lambda l: list(l)[:9])})

some = st.one_of(valid(leaves=4, large=0), valid(leaves=4, large=0), any_query()).map(lambda c: c["q"])
stop_case = st.fixed_dictionaries({"q": some, "cfg": gen.parser_cfgs, "loc": st.booleans(), "low": st.booleans(), "stops": st.lists(st.tuples(
    some, st.one_of(st.integers(1, 60), st.integers(1, 400), st.integers(1, 3000)), st.sampled_from(["interrupt", "fault"]), st.sampled_from(["same", "same", "own", "low", "validate"])).map(list), min_size=1, max_size=4)})

PROP = Prop("C13", "history of at least two parses on one parser (distinct histories)", [
    Sub("history", history(), check, 300, 8000),
    Sub("probes", probe_case, probes, 200, 5000),
    Sub("cousins", cousin_case, cousins, 150, 4000),
    Sub("variants", variants_case(), variants, 250, 6000),
    Sub("stopped", stop_case, stopped, 120, 3000),
    Sub("repeat", repeat_case, repeat, 200, 5000),
])
