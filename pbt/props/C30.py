"""C30: trees and diagnostics are plain values - copied, stored and compared without loss."""
import copy
import pickle

from hypothesis import strategies as st

from .. import sut
from ..common import any_query, labels, valid_cfg
from ..core import Prop, Sub
from ..sut import ensure, fcsql, fp, fv
from .C10 import integrity
from .C29 import judge


def clone(x, how):
    if how == "copy":
        return copy.copy(x)
    if how == "deepcopy":
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, int(how)))


HOWS = ["deepcopy", "0", "1", "2", "3", "4", "5"]


def trees(case, ctx):
    q, how = case["q"], case["how"]
    node = sut.parse_ok(q, case.get("cfg"), loc=case["loc"])
    m = sut.snap(node)
    labels(case, m, ctx)
    ctx.nontrivial(how)
    before, text = sut.anatomy(node), str(node)
    twin = sut.call(f"{how} of the tree of {q!r}", clone, node, how)
    ensure(sut.anatomy(node) == before and str(node) == text, lambda: f"{how} changed the tree of {q!r}")
    g = sut.snap(twin)
    ensure(g.key(True) == m.key(True), lambda: f"{how} of {q!r}:\n  got  {g.show(True)}\n  want {m.show(True)}")
    integrity(twin, f"{how} of {q!r}")
    mine, other = {id(n) for n in sut.nodes(node)}, {id(n) for n in sut.nodes(twin)}
    ensure(not mine & other, lambda: f"{how} of {q!r} shares nodes with the original")
    both = list(sut.nodes(node)) + list(sut.nodes(twin))
    ensure(all(n == n and not n != n for n in both) and not any(a == b or not a != b for a, b in zip(sut.nodes(node), sut.nodes(twin))), lambda: f"{q!r}: nodes of the tree and its {how} are not told apart")
    ensure(len(set(both)) == len(both) and len({n: 1 for n in both}) == len(both), lambda: f"{q!r}: nodes of a tree and its {how} are not keys of their own")
    ensure(str(twin) == text, lambda: f"{how} of {q!r} is rendered {twin}, not {text}")
    cfg = {"ids": None, "quals": None}
    a, b = judge(node, q, cfg, True), judge(twin, q, cfg, True)
    ensure(a == b, lambda: f"{how} of {q!r} is judged {b}, the original {a}")
    # the copy is independent: editing it in every place leaves the original alone
    for n in list(sut.nodes(twin)):
        if isinstance(n, fp.Expression):
            n.identifier, n.regex = "changed", "changed"
            if n.regex_flags:
                n.regex_flags.clear()
        if isinstance(n.children, list):
            n.children = n.children[:0] if not isinstance(n.children, tuple) else ()
    ensure(sut.anatomy(node) == before and str(node) == text, lambda: f"editing a {how} of {q!r} changed the original")


def subtree(case, ctx):
    """part of a tree copied on its own: equal content, and nothing of the original is disturbed"""
    q = case["q"]
    node = sut.parse_ok(q, case.get("cfg"), loc=case["loc"])
    ns = list(sut.nodes(node))
    n = ns[case["i"] % len(ns)]
    before = sut.anatomy(node)
    ctx.nontrivial("sub:" + sut.kind(n))
    twin = sut.call("copying", clone, n, case["how"])
    ensure(sut.snap(twin).key(True) == sut.snap(n).key(True) and str(twin) == str(n), lambda: f"{case['how']} of {n} in {q!r} is {twin}")
    ensure(sut.anatomy(node) == before, lambda: f"{case['how']} of a part changed the tree of {q!r}")


def shallow(case, ctx):
    """a shallow copy has the content of the node, and making it disturbs nothing"""
    q = case["q"]
    node = sut.parse_ok(q, case.get("cfg"), loc=case["loc"])
    ns = list(sut.nodes(node))
    n = ns[case["i"] % len(ns)]
    before, text = sut.anatomy(node), str(node)
    ctx.nontrivial("shallow:" + sut.kind(n))
    twin = sut.call("copying", copy.copy, n)
    ensure(sut.anatomy(node) == before and str(node) == text, lambda: f"a shallow copy of a part changed the tree of {q!r}")
    ensure(type(twin) is type(n) and sut.snap(twin).key(True) == sut.snap(n).key(True) and str(twin) == str(n), lambda: f"shallow copy of {n} in {q!r} is {twin}")
    judge(twin, q, {"ids": None, "quals": None}, case["wae"])
    if isinstance(twin, fp.Expression):
        twin.identifier = twin.qualifier = twin.regex = "changed"
        twin.regex_flags = None
    twin.location = fp.SourceLocation(7, 7)
    ensure(sut.anatomy(node) == before and str(node) == text, lambda: f"setting attributes of a shallow copy of a part changed the tree of {q!r}")


def problems(q, wae):
    out = []
    p = sut.parser(loc=True)
    n, e = sut.try_parse(q, p=p)
    out += p.errors
    out += sut.call("validate", fcsql.validate, q, return_errors=True, warnings_as_errors=wae)
    return out


def details(case, ctx):
    q = case["q"]
    a, b = problems(q, case["wae"]), problems(q, case["wae"])
    if a:
        ctx.nontrivial("details")
    ensure(a == b, lambda: f"{q!r}: the problems reported twice are not equal: {a} / {b}")
    for x, y in zip(a, b):
        ensure(x == y and hash(x) == hash(y) and not (x != y) and len({x, y}) == 1, lambda: f"{q!r}: {x} and {y} are equal but not the same key")
        for how in HOWS + ["copy"]:
            z = sut.call(f"{how} of {x}", clone, x, how)
            ensure(z == x and type(z) is type(x) and hash(z) == hash(x) and repr(z) == repr(x), lambda: f"{q!r}: {how} of {x} is {z}")
        for f, v in (("message", "other"), ("type", "other"), ("position", fp.SourceLocation(10**9, 10**9)), ("fragment", "\x00other")):
            kw = {k: getattr(x, k) for k in ("message", "type", "position", "fragment")}
            ensure(fp.ErrorDetail(**kw) == x and hash(fp.ErrorDetail(**kw)) == hash(x), lambda: f"{q!r}: {x} is not equal to one with the same content")
            kw[f] = v
            ensure(fp.ErrorDetail(**kw) != x, lambda: f"{q!r}: {x} equals one with another {f}")
            try:
                setattr(x, f, v)
            except Exception:
                continue
            sut.fail(f"{q!r}: {f} of {x} can be overwritten")


def places(case, ctx):
    """locations are values: equal by offsets, usable as keys, immutable"""
    L = fp.SourceLocation
    (a, b), (c, d) = case["p"]
    x, y = L(a, b), L(c, d)
    same = (a, b) == (c, d)
    ctx.nontrivial("same:%s" % same)
    ensure((x == y) is same and (x != y) is not same and len({x, y}) == (1 if same else 2), lambda: f"{x!r} and {y!r} compare wrongly")
    ensure(not same or hash(x) == hash(y), lambda: f"hashes of equal {x!r}")
    ensure(str(x) == f"{a}:{b}", lambda: f"{x!r} is shown as {x}")
    ensure((x.start, x.stop) == (a, b) and L(start=a, stop=b) == x, lambda: f"{x!r} has not the offsets given")
    for how in HOWS:
        z = sut.call(how, clone, x, how)
        ensure(z == x and (z.start, z.stop) == (a, b), lambda: f"{how} of {x!r} is {z!r}")
    for f in ("start", "stop"):
        try:
            setattr(x, f, 1)
        except Exception:
            continue
        sut.fail(f"{f} of {x!r} can be overwritten")


ENUMS = {fp.QueryNodeType: None, fp.Operator: None, fp.RegexFlag: None, fp.SimpleWithinScope: None}
CHARS = {"case-insensitive": "i", "case-sensitive": "I", "literal-matching": "l", "ignore-diacritics": "d"}


def enums(case, ctx):
    """the vocabulary: members are found by value, are that string, and survive copying as the same object"""
    cls = list(ENUMS)[case["e"]]
    ms = list(cls)
    m = ms[case["i"] % len(ms)]
    ctx.nontrivial(cls.__name__)
    v = m.value
    ensure(cls(v) is m and cls[m.name] is m, lambda: f"{cls.__name__}({v!r}) is not {m!r}")
    ensure(str(m) == v and m == v and hash(m) == hash(v) and f"{m}" == v and {v: 1}.get(m) == 1, lambda: f"{m!r} is not the string {v!r}")
    ensure(len({x.value for x in ms}) == len(ms), lambda: f"{cls.__name__} has values twice")
    for how in HOWS:
        ensure(sut.call(how, clone, m, how) is m, lambda: f"{how} of {m!r} is another object")
    if cls is fp.RegexFlag:
        ensure(m.char == CHARS[v], lambda: f"{m!r} has the letter {m.char!r}")
        node = sut.parse_ok(f'"a"/{m.char}', loc=False)
        ensure(node.get_first_child().has_regex_flag(m) if node.child_count == 1 and not node.children[0].children else True, lambda: f"{m!r}: its letter {m.char} spells another flag")
        ensure(any(isinstance(n, fp.Expression) and n.regex_flags == {m} for n in sut.nodes(node)), lambda: f"{m!r}: its letter {m.char} spells another flag")


def unknown(case, ctx):
    """what is no member's value is refused, however close"""
    cls = list(ENUMS)[case["e"]]
    v = case["v"]
    if v in [m.value for m in cls]:
        return
    ctx.nontrivial("unknown:" + cls.__name__)
    try:
        m = cls(v)
    except ValueError:
        return
    except Exception as e:
        sut.fail(f"{cls.__name__}({v!r}) raised {type(e).__name__}: {e}")
    sut.fail(f"{cls.__name__}({v!r}) is {m!r}")


@st.composite
def unknown_case(draw):
    e = draw(st.integers(0, 3))
    cls = list(ENUMS)[e]
    m = draw(st.sampled_from([m for c in ENUMS for m in c]))
    s = draw(st.sampled_from([m.value, m.name]))
    k = draw(st.sampled_from(["as", "upper", "lower", "title", "cut", "add", "space", "dash", "first", "text"]))
    v = {"as": s, "upper": s.upper(), "lower": s.lower(), "title": s.title(), "cut": s[:-1], "add": s + s[-1:], "space": draw(st.sampled_from([" " + s, s + " ", s + "\n"])),
         "dash": s.replace("-", draw(st.sampled_from(["_", " ", ""]))), "first": s[:1], "text": ""}[k]
    return {"e": e, "v": draw(st.text(max_size=4)) if k == "text" else v}


with_opts = lambda base, **kw: st.fixed_dictionaries(kw).flatmap(lambda o: base.map(lambda b: {**b, **o}))
def raised(case, ctx):
    """violations keep what they are made with"""
    n = fp.ExpressionWildcard()
    e = sut.call("SpecificationValidationError", fv.SpecificationValidationError, case["msg"], n, case["frag"], *case["more"]) if not case["kw"] or case["more"] else fv.SpecificationValidationError(msg=case["msg"], node=n, query_fragment=case["frag"])
    ensure(isinstance(e, Exception) and e.args == (case["msg"], *case["more"]) and e.node is n and e.query_fragment == case["frag"], lambda: f"{case}: {e!r} with {e.node!r}, {e.query_fragment!r}")
    ensure(case["more"] or str(e) == case["msg"], lambda: f"{case}: {e}")
    ctx.nontrivial("raised")


PROP = Prop("C30", "tree copied and compared; query with at least one reported problem; every pair of locations and every vocabulary member (distinct cases)", [
    Sub("trees", with_opts(valid_cfg(leaves=7, depth=3), how=st.sampled_from(HOWS), loc=st.booleans()), trees, 300, 8000),
    Sub("subtree", with_opts(valid_cfg(large=0, leaves=7, depth=3), how=st.sampled_from(HOWS), loc=st.booleans(), i=st.integers(0, 40)), subtree, 150, 4000),
    Sub("shallow", with_opts(valid_cfg(large=0, leaves=6, depth=3), loc=st.booleans(), wae=st.booleans(), i=st.integers(0, 40)), shallow, 120, 3000),
    Sub("details", with_opts(any_query(), wae=st.booleans()), details, 250, 8000),
    Sub("places", st.lists(st.lists(st.integers(-2, 3) | st.integers(0, 10**9), min_size=2, max_size=2), min_size=2, max_size=2).flatmap(
        lambda p: st.sampled_from([{"p": p}, {"p": [p[0], p[0]]}, {"p": [p[0], p[0][::-1]]}])), places, 100, 2000),
    Sub("unknown", unknown_case(), unknown, 150, 2000),
    Sub("raised", st.fixed_dictionaries({"msg": st.text(max_size=5), "frag": st.one_of(st.none(), st.text(max_size=3)), "more": st.lists(st.one_of(st.integers(0, 9), st.text(max_size=2)), max_size=3), "kw": st.booleans()}), raised, 30, 300),
    Sub("enums", st.fixed_dictionaries({"e": st.integers(0, 3), "i": st.integers(0, 11)}), enums, 30, 100),
])
