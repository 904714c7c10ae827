"""C07: search scope (within)."""
from hypothesis import strategies as st

from .. import gen, ref, sut
from ..common import labels, model, valid_cfg
from ..core import Prop, Sub
from ..sut import ensure, fp


def scope_of(node, q):
    """-> scope name or None, checking the shape of the within wrapper"""
    ws = [n for n in sut.nodes(node) if sut.kind(n) in ("SimpleWithin", "QueryWithWithin")]
    if not ws:
        return None
    ensure([sut.kind(n) for n in ws] == ["QueryWithWithin", "SimpleWithin"] and ws[0] is node,
           lambda: f"{q!r}: within nodes {[sut.kind(n) for n in ws]} not at the root")
    ensure(node.get_within() is ws[1] and node.children[-1] is ws[1], lambda: f"{q!r}: get_within() is not the scope node")
    ensure(node.child_count == 2 and node.get_query() is node.children[0], lambda: f"{q!r}: get_query() is not the query clause")
    ensure(isinstance(ws[1].scope, fp.SimpleWithinScope), lambda: f"{q!r}: scope is {ws[1].scope!r}")
    return ws[1].scope.value


def check(case, ctx):
    q = case["q"]
    want = model(case)
    labels(case, want, ctx)
    w = want.children[1].attrs["scope"] if want.type == "QueryWithWithin" else None
    ctx.label("scope:%s" % w)
    if w:
        ctx.nontrivial()
    got = scope_of(sut.parse_ok(q, case["cfg"], loc=False), q)
    ensure(got == w, lambda: f"{q!r}: scope {got}, expected {w}")


NAMES = {"sentence": "SENTENCE", "s": "SENTENCE", "utterance": "UTTERANCE", "u": "UTTERANCE", "paragraph": "PARAGRAPH", "p": "PARAGRAPH",
         "turn": "TURN", "t": "TURN", "text": "TEXT", "session": "SESSION"}


def words(case, ctx):
    """any word after 'within': the ten documented ones select their scope, everything else is rejected"""
    q, w = case["q"], case["word"]
    ctx.nontrivial("known:" + w if w in NAMES else "unknown")
    node, exc = sut.try_parse(q, case.get("cfg"), loc=case["loc"])
    if w in NAMES:
        ensure(node is not None, lambda: f"{q!r} rejected: {exc}")
        s = scope_of(node, q)
        ensure(s == fp.SimpleWithinScope[NAMES[w]].value, lambda: f"{q!r}: scope {s}, expected {NAMES[w]}")
        base = sut.parse_ok(case["base"], case.get("cfg"), loc=False)
        a, b = ref.collapse(sut.snap(node.get_query())), ref.collapse(sut.snap(base))
        ensure(a.key() == b.key(), lambda: f"{q!r}: query clause {a.show()} differs from the query without scope {b.show()}")
    else:
        ensure(node is None, lambda: f"{q!r}: unknown scope {w!r} accepted as {scope_of(node, q)}")


@st.composite
def word_case(draw):
    base = draw(gen.queries(leaves=3, depth=2, rich=0, within=False))
    w = draw(st.one_of(st.sampled_from(sorted(NAMES)), st.sampled_from(sorted(NAMES)), gen.ident,
                       st.sampled_from(["Sentence", "SENTENCE", "S", "T", "sess", "sent", "texts", "within", "i", "x", "uu", "doc", "para", "utter"])))
    s1, s2 = draw(gen.ws1), draw(st.one_of(st.just(""), gen.ws1))
    s0 = draw(st.one_of(st.just(" "), st.just(""), gen.ws1))
    if gen.need_ws(base.text, "w") and not s0:
        s0 = " "
    return {"q": base.text + s0 + "within" + s1 + w + s2, "word": w, "base": base.text, "loc": draw(st.booleans()), "cfg": draw(st.one_of(st.just({}), gen.parser_cfgs))}


far = st.tuples(gen.large(), st.sampled_from(sorted(NAMES)), st.booleans()).filter(lambda t: "within" not in t[0][0]).map(
    lambda t: {"q": t[0][0] + " within " + t[1], "word": t[1], "base": t[0][0], "loc": t[2]})

MAINS = ['""', "'a'", "[]", "[a='b']", "['a']", "[!a='b']", "[(a='b')]", "[!!a='b' & c='d']", "'a''b'", "'a'|'b'", "('a')", "(('a'))", "('a''b')", "('a'|'b')", "([])", "(([a='b']))"]
REPS = ["", "?", "*", "+", "{0}", "{1}", "{2}", "{0,}", "{1,}", "{,0}", "{,1}", "{0,0}", "{0,1}", "{1,1}", "{00}", "{3,7}", "{,9}", "{4294967296}"]


def shapes(case, ctx):
    """whatever the clause applies to stays as it is without the clause"""
    parts = [m + r for m, r in case["parts"]]
    if case["wrap"]:
        parts = ["(" + case["glue"].join(parts) + ")" + case["wrap"]]
    base = case["glue"].join(parts)
    q = f"{base} within {case['word']}"
    try:
        want, rej = ref.verdict(base)
    except Exception:
        return
    node, exc = sut.try_parse(q, loc=case["loc"])
    ensure((node is None) == (want is None), lambda: f"{q!r}: {'rejected' if node is None else 'accepted'}, unlike {base!r} ({exc})")
    if node is None:
        return
    ctx.nontrivial("shapes")
    ensure(scope_of(node, q) == fp.SimpleWithinScope[NAMES[case["word"]]].value, lambda: f"{q!r}: scope {scope_of(node, q)}")
    for w in (ref.collapse(want), ref.collapse(sut.snap(sut.parse_ok(base, loc=case["loc"])))):
        g = ref.collapse(sut.snap(node.get_query()))
        ensure(g.key() == w.key(), lambda: f"{q!r}: query clause {g.show()}, without scope {w.show()}")


shape_case = st.fixed_dictionaries({"parts": st.lists(st.tuples(st.sampled_from(MAINS), st.sampled_from(REPS)).map(list), min_size=1, max_size=2), "glue": st.sampled_from([" ", "|"]),
                                    "wrap": st.sampled_from(["", "", " ", " ", *REPS[1:]]), "word": st.sampled_from(sorted(NAMES)), "loc": st.booleans()})

BAD = ["{0} within s within s", "within s {0}", "{0} within", "within s", "{0} s", "({0} within s)", "{0} within s {0}", "{0} within s | {0}",
       "{0} within (s)", "{0} within s t", "{0} Within s", "[{1} within s]", "{0} within 's'"]


def misplaced(case, ctx):
    q = BAD[case["t"]].format(case["base"], case["inner"])
    want, rej = ref.verdict(q)
    ctx.nontrivial("accept" if want else "reject")
    node, exc = sut.try_parse(q)
    ensure((node is not None) == (want is not None), lambda: f"{q!r}: {'accepted' if node else 'rejected'}, expected the opposite")


bad_case = st.fixed_dictionaries({"t": st.integers(0, len(BAD) - 1), "base": st.sampled_from(['"a"', "[]", "('a' 'b')+", "[s='t' & within=\"p\"]{2}", "'a'|'b'/i"]),
                                  "inner": st.sampled_from(["a='b'", "s='s'", "within:within!=''"])})

PROP = Prop("C07", "query with a scope clause, or with a word in scope position (distinct query texts)", [
    Sub("tree", valid_cfg(leaves=5, depth=2, rich=0), check, 300, 6000),
    Sub("far", far, words, 60, 1500),
    Sub("words", word_case(), words, 600, 16000),
    Sub("shapes", shape_case, shapes, 300, 5000),
    Sub("misplaced", bad_case, misplaced, 300, 3000),
])
