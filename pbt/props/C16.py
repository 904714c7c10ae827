"""C16: layer qualifier rules, POS tag rule, regex guess."""
from hypothesis import strategies as st

from .. import gen, ref, sut
from ..core import Prop, Sub
from ..sut import ensure, fv
from . import vcommon as vc

ALL = sorted(set(vc.LAYERS))
known_names = st.sampled_from(ALL)


def check(case, ctx):
    q, cfg = case["q"], {"ids": ALL if case["ids"] else None, "quals": case["quals"]}
    want = vc.model_issues(q, cfg)
    if want is None:
        ctx.label("unspecified")
        return
    kinds = sorted({k for _, k, _, _ in want})
    ctx.label(*("issue:" + k for k in kinds))
    ctx.nontrivial("nt:" + ("+".join(kinds) or "clean"))
    res, errors, warnings = vc.collect(q, cfg, loc=True)
    vc.compare(q, cfg, errors, warnings, want)


qualified = st.fixed_dictionaries({"q": vc.vqueries(vc.atoms(names=st.sampled_from(vc.LAYERS[:9]), qual_p=1)), "ids": st.just(True), "quals": vc.qual_lists})
# three layers and three qualifiers only, so that the judged layer often has one or several entries
FEW_L, FEW_Q = ("text", "pos", "x-a"), ("a", "b", "ud")
narrow = st.fixed_dictionaries({"q": vc.vqueries(vc.atoms(names=st.sampled_from(FEW_L), quals=st.sampled_from(FEW_Q), qual_p=1)), "ids": st.just(True), "quals": vc.qual_entries(FEW_L, FEW_Q)})


@st.composite
def strange_case(draw):
    """configured names that no query can contain, next to entries that matter: they match nothing"""
    ents = draw(vc.qual_entries(FEW_L, FEW_Q))[:3]
    odd = [draw(st.one_of(st.just("*"), st.sampled_from(vc.ODD))), draw(st.lists(st.one_of(st.sampled_from(FEW_Q), st.sampled_from(["*", ""])), max_size=3))]
    ents = draw(st.sampled_from([[odd] + ents, ents + [odd], [odd]]))
    if draw(st.integers(0, 2)) == 0:
        e = ents[draw(st.integers(0, len(ents) - 1))]
        e[1] = list(e[1] or []) + [draw(st.one_of(st.just("*"), st.sampled_from(vc.ODD)))]
    return {"q": draw(vc.vqueries(vc.atoms(names=st.sampled_from(FEW_L), quals=st.sampled_from(FEW_Q), qual_p=1))), "ids": True, "quals": ents}


@st.composite
def close_case(draw):
    """layers and qualifiers in the query are edits of the configured ones"""
    ll, lu = draw(vc.related())
    ql, qu = draw(vc.related())
    ents = [[draw(st.sampled_from(ll)), draw(st.one_of(st.none(), st.just(ql), st.lists(st.sampled_from(ql), max_size=3)))] for _ in range(draw(st.integers(1, 3)))]
    return {"q": draw(vc.vqueries(vc.atoms(names=st.sampled_from(lu + ll), quals=st.sampled_from(qu), qual_p=1), implicit=False)), "quals": ents}


def close(case, ctx):
    q, cfg = case["q"], {"ids": None, "quals": case["quals"]}
    want = vc.model_issues(q, cfg)
    if want is None:
        ctx.label("unspecified")
        return
    ctx.nontrivial("nt:close-" + ("issue" if any(k == "qualifier" for _, k, _, _ in want) else "clean"))
    res, errors, warnings = vc.collect(q, cfg, loc=True)
    vc.compare(q, cfg, errors, warnings, want)


pos = st.fixed_dictionaries({"q": vc.vqueries(vc.atoms(names=st.sampled_from(["pos", "pos", "pos", "text", "POS", "posx"]), qual_p=4)), "ids": st.just(True),
                             "quals": st.sampled_from([None, None, [["pos", ["a", "ud"]]]])})


def tags(case, ctx):
    """a single pos value, with and without qualifier / flags"""
    v, fl, qual = case["v"], case["flags"], case["qual"]
    lr = ref.likely_regex(v)
    lit = '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    q = f"[{qual + ':' if qual else ''}pos={lit}{fl}]"
    if ref.parse(q).children[0].attrs["regex"] != v:
        return  # changed by normalisation
    res, errors, warnings = vc.collect(q, {}, loc=True)
    ensure(errors == [] and res is True, lambda: f"{q!r}: {errors}")
    if qual or fl or v in ref.UPOS:
        w = 0
    else:
        w = 0 if lr else 1
    ctx.nontrivial("warn" if w else "tag" if v in ref.UPOS else "exempt")
    ensure(len(warnings) == w, lambda: f"{q!r}: {len(warnings)} warnings, expected {w}")


near_tags = st.builds(lambda t, k, c: {"lower": t.lower(), "cap": t.capitalize(), "cut": t[:-1], "add": t + c, "pre": c + t, "two": t + " " + t, "comma": t + "," + t, "sp": " " + t, "dup": t + t, "tail": t[1:]}[k],
                      st.sampled_from(ref.UPOS), st.sampled_from(["lower", "cap", "cut", "add", "pre", "two", "comma", "sp", "dup", "tail"]), st.sampled_from("AXNabx 1_.*"))
vals = st.one_of(st.sampled_from(vc.PATTERNS), near_tags, st.sampled_from(ref.UPOS), st.text(alphabet="ABNOUX abx_9.|*[](){}?+^$\\-", max_size=5), st.tuples(st.sampled_from(["", "a", "NN", "ADJ", "\u00e4"]), st.sampled_from([chr(c) for c in range(256)] + ["\u2028", "\u3000", "\u2003", "\ufeff", "\u2013", "\uff0a"]), st.sampled_from(["", "b", " "])).map("".join), st.text(alphabet=st.characters(categories=["L", "N"]), max_size=4))
tag_case = st.fixed_dictionaries({"v": vals, "flags": st.sampled_from(["", "", "", "/i", "/C", "/l", "/d", "/Cd"]), "qual": st.sampled_from([None, None, None, "ud", "pos", "s"])})


def guess(case, ctx):
    v = case["v"]
    lr = ref.likely_regex(v)
    ctx.nontrivial("regex" if lr else "plain")
    got = sut.call(f"is_likely_a_regex({v!r})", fv.is_likely_a_regex, v)
    ensure(got is lr, lambda: f"is_likely_a_regex({v!r}) is {got}, expected {lr}")


PROP = Prop("C16", "query with an expression judged by the qualifier or POS rule; value with a specified verdict (distinct cases)", [
    Sub("qualifiers", qualified, check, 400, 10000),
    Sub("close", close_case(), close, 400, 8000),
    Sub("strange", strange_case(), check, 250, 5000),
    Sub("narrow", narrow, check, 400, 8000),
    Sub("pos", pos, check, 350, 8000),
    Sub("tags", tag_case, tags, 500, 12000),
    Sub("guess", st.fixed_dictionaries({"v": st.one_of(vals, vals, st.text(max_size=6))}), guess, 600, 20000),
], ["for a few characters that are special only in some regex dialects (- # & ~ quotes, ...) the guess is left unspecified"])
