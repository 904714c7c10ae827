"""C23: queries on expression nodes."""
from hypothesis import strategies as st

from .. import edits, gen, ref, sut
from ..common import labels, model, valid_cfg
from ..core import Prop, Sub
from ..sut import ensure, fp


def raises_type_error(f):
    try:
        f(None)
    except TypeError:
        return True
    except Exception as e:
        sut.fail(f"{f.__name__}(None) raised {type(e).__name__}")
    return False


NEAR_NAMES = sorted({f(s) for m in [*fp.Operator, *fp.QueryNodeType, *fp.RegexFlag] for s in {m.value, m.name, m.name.rpartition("_")[2], m.name.partition("_")[0], type(m).__name__ + "." + m.name} for f in (str, str.upper, str.lower, str.title, lambda x: x[:-1], lambda x: " " + x)}
                    | {"=", "!=", "==", "<>", "", "E", "N", "Equals", "NotEquals", "Expr", "QueryNode"})


FLAG_NAMES = {f.value for f in fp.RegexFlag}


def probe(e, a, what):
    q, i, op, fl = a["qualifier"], a["identifier"], a["operator"], a["flags"]
    c = lambda n, *x: sut.call(f"{what}: {n}{x}", getattr(e, n), *x)
    ensure(c("is_layer_qualifier_empty") is (q is None), lambda: f"{what}: is_layer_qualifier_empty() with qualifier {q!r}")
    asks = set()
    for s in {i, q or "q"}:
        asks |= {s, s.upper(), s.lower(), s.title(), s + "x", "x" + s, "x-" + s, s + "-", s[1:], s[:-1], s[2:], s[:2], s[-1:], s[::-1], " " + s, s + " ", s.replace("-", ""), s.replace("-", "_"),
                 s.split("-")[0], s.split("-")[-1], s.partition("-")[2], s.rstrip("0123456789"), s + s, s + ":" + s, ".*", s[:-1] + ".", "*", "?", "%", s[:1] + "*", "*" + s[-1:], "?" * len(s), "." * len(s), s[:1] + "?" + s[2:], f"[{s[:1]}]{s[1:]}", s + "*", s + "?", s + "|x", f"({s})", s + "\n", "^" + s + "$", s + "%", s + "\x00",
                 s[:1] + "\u200b" + s[1:], s.replace("a", "\u0430"), s.translate({x: x + 0xFEE0 for x in range(33, 127)})}
    for x in asks | {"text", "foo", "", "word", f"{q}:{i}", f"{i}:{q}", "None"}:
        ensure(c("has_layer_identifier", x) is (x == i), lambda: f"{what}: has_layer_identifier({x!r}) with identifier {i!r}")
        ensure(c("has_layer_qualifier", x) is (q is not None and x == q), lambda: f"{what}: has_layer_qualifier({x!r}) with qualifier {q!r}")
    for name, o in sut.OPOF.items():
        ensure(c("has_operator", o) is (name == op), lambda: f"{what}: has_operator({o}) with operator {op}")
        ensure(c("has_operator", o.value) is (name == op), lambda: f"{what}: has_operator({o.value!r}) with operator {op}")
    for x in NEAR_NAMES:
        ensure(c("has_operator", x) is (x == op), lambda: f"{what}: has_operator({x!r}) with {op}")
        ensure(c("has_node_type", x) is (x == "Expression"), lambda: f"{what}: has_node_type({x!r})")
        if x not in FLAG_NAMES:
            ensure(c("has_regex_flag", x) is False, lambda: f"{what}: has_regex_flag({x!r}) with flags {sorted(fl)}")
    ensure(c("is_regex_flags_empty") is (not fl), lambda: f"{what}: is_regex_flags_empty() with flags {sorted(fl)}")
    for name, f in sut.FLAGOF.items():
        ensure(c("has_regex_flag", f) is (name in fl), lambda: f"{what}: has_regex_flag({f}) with flags {sorted(fl)}")
        ensure(c("has_regex_flag", f.value) is (name in fl), lambda: f"{what}: has_regex_flag({f.value!r}) with flags {sorted(fl)}")
    for n in ("has_layer_identifier", "has_layer_qualifier", "has_operator", "has_regex_flag", "has_node_type"):
        ensure(raises_type_error(getattr(e, n)), lambda: f"{what}: {n}(None) does not raise TypeError")


def parsed(case, ctx):
    want = model(case)
    labels(case, want, ctx)
    node = sut.parse_ok(case["q"], case["cfg"], loc=False)
    es = [n for n in sut.nodes(node) if sut.kind(n) == "Expression"]
    for n in sut.nodes(node):
        t = sut.NODE_TYPE[sut.kind(n)]
        for x in [*fp.QueryNodeType, *NEAR_NAMES]:
            ensure(sut.call("has_node_type", n.has_node_type, x) is (x == t.value), lambda: f"{case['q']!r}: {sut.kind(n)}.has_node_type({x!r})")
        ensure(raises_type_error(n.has_node_type), lambda: "has_node_type(None) does not raise TypeError")
    ms = [n for n in want.walk() if n.type == "Expression"]
    ensure(len(es) == len(ms), lambda: f"{case['q']!r}: {len(es)} expressions, expected {len(ms)}")
    if es:
        ctx.nontrivial("parsed")
    for e, m in zip(es, ms):
        probe(e, m.attrs, repr(case["q"]))


def handmade(case, ctx):
    q, fl = case["qualifier"], case["flags"]
    flags = {sut.FLAGOF[f] for f in fl}
    arg = None if case["noflags"] and not flags else flags
    e = fp.Expression(q, case["identifier"], sut.OPOF[case["operator"]], case["regex"], arg)
    nq = q if q and not q.isspace() else None
    ctx.nontrivial("handmade:" + ("q" if nq else "-") + ("f" if fl else "-"))
    ensure(e.qualifier == nq, lambda: f"qualifier {q!r} -> {e.qualifier!r}")
    ensure(e.identifier == case["identifier"] and e.regex == case["regex"], "constructor arguments")
    ensure(e.regex_flags is None if not fl else e.regex_flags == flags, lambda: f"flags {fl} -> {e.regex_flags}")
    if flags:
        arg.clear()
        ensure(e.regex_flags == {sut.FLAGOF[f] for f in fl}, "the caller's flag set is shared with the node")
    ensure(e.children == [] and e.parent is None and e.location is None, "fresh expression is not a lone leaf")
    probe(e, {"qualifier": nq, "identifier": case["identifier"], "operator": case["operator"], "flags": set(fl)}, f"Expression{(q, case['identifier'], case['operator'], sorted(fl))}")
    # emptied in place: as good as not set
    e.qualifier, e.regex_flags = "", set()
    probe(e, {"qualifier": None, "identifier": case["identifier"], "operator": case["operator"], "flags": set()}, f"Expression with emptied qualifier and flags, layer {case['identifier']!r}")


def edited(case, ctx):
    """the answers are about the attributes as they are at the time"""
    root = sut.parse_ok(case["q"], loc=False)
    for op in [None] + case["ops"]:
        if op and edits.apply(root, [op]):
            ctx.nontrivial("edited:" + op[1])
        for n in sut.nodes(root):
            if sut.kind(n) == "Expression":
                probe(n, sut.snap1(n).attrs, f"{case['q']!r} edited by {case['ops']}")


hand = st.fixed_dictionaries({"qualifier": st.one_of(st.none(), st.sampled_from(["", " ", "\t \n", "a", " a"]), gen.ident), "identifier": gen.ident, "operator": st.sampled_from(["Eq", "Ne"]),
                              "regex": st.text(max_size=5), "flags": st.lists(st.sampled_from(["ci", "cs", "lit", "dia"]), unique=True), "noflags": st.booleans()})
PROP = Prop("C23", "tree with at least one expression, or hand-built expression (distinct cases)", [
    Sub("parsed", valid_cfg(leaves=6, depth=2, rich=0), parsed, 250, 6000),
    Sub("edited", st.tuples(valid_cfg(large=0, leaves=4, depth=1, rich=0), edits.ops).map(lambda t: {"q": t[0]["q"], "ops": [[i, "attr", a] for i, _, a in t[1]]}), edited, 150, 3000),
    Sub("handmade", hand, handmade, 700, 15000),
])
