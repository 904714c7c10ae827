"""C15: layer identifier rules."""
from hypothesis import strategies as st

from .. import gen, ref, sut
from ..core import Prop, Sub
from ..sut import ensure
from . import vcommon as vc

nopos = vc.names.filter(lambda n: n != "pos")


def check(case, ctx):
    q, cfg = case["q"], {"ids": case["ids"], "quals": None}
    want = vc.model_issues(q, cfg)
    kinds = sorted({k for _, k, _, _ in want})
    ctx.label("ids:%s" % (case["ids"] is not None), *("issue:" + k for k in kinds))
    ctx.nontrivial("nt:" + ("+".join(kinds) or "clean"))
    res, errors, warnings = vc.collect(q, cfg, loc=case["loc"], warnings_as_errors=case["wae"])
    vc.compare(q, cfg, errors, warnings, want, loc=case["loc"])
    w = not expected_fail(want, case["wae"])
    ensure(res is w, lambda: f"{q!r} with {cfg}, warnings_as_errors={case['wae']}: valid={res}, expected {w}")


def expected_fail(want, wae):
    return any(s == "error" or wae for s, _, _, _ in want)


base = {"loc": st.sampled_from([True, True, True, False]), "wae": st.booleans()}
free = st.fixed_dictionaries({"q": vc.vqueries(vc.atoms(names=nopos)), "ids": st.none(), **base})
listed = st.fixed_dictionaries({"q": vc.vqueries(vc.atoms(names=nopos)), "ids": st.one_of(st.lists(nopos, min_size=1, max_size=6, unique=True), st.lists(nopos, min_size=1, max_size=6, unique=True), vc.long_list(nopos, vc.MORE)), **base})


@st.composite
def close_case(draw):
    """the configured names and the ones in the query are edits of each other"""
    listed, used = draw(vc.related())
    used = [u for u in used if u != "pos"] or ["text"]
    return {"q": draw(vc.vqueries(vc.atoms(names=st.sampled_from(used)), implicit=False)), "ids": listed, "loc": draw(st.booleans()), "wae": draw(st.booleans())}


def one_name(case, ctx):
    """every single name: known, legacy, custom or unknown"""
    n = case["n"]
    q = f"[{n}='a']"
    res, errors, warnings = vc.collect(q, {}, loc=True)
    cls = "known" if n in ref.KNOWN_LAYERS else "legacy" if n == "word" else "custom" if n.startswith("x-") else "unknown"
    if n == "pos":
        return
    ctx.nontrivial("name:" + cls)
    got = (len(errors), len(warnings), res)
    w = {"known": (0, 0, True), "legacy": (0, 1, True), "custom": (0, 1, True), "unknown": (1, 0, False)}[cls]
    ensure(got == w, lambda: f"layer {n!r} ({cls}): errors, warnings, valid = {got}, expected {w}")
    res, errors, warnings = vc.collect(q, {"ids": [n]}, loc=True)
    ensure((errors, warnings, res) == ([], [], True), lambda: f"layer {n!r} is allowed explicitly but reported: {errors} {warnings}")
    res, errors, warnings = vc.collect(q, {"ids": [n + "x", n + "z"]}, loc=True)
    ensure(len(errors) == 1 and not warnings and res is False, lambda: f"layer {n!r} is not in the allowed list but accepted")


PROP = Prop("C15", "every case has at least one layer identifier to judge (distinct query/configuration pairs), split by the kinds of issue expected", [
    Sub("defaults", free, check, 350, 8000),
    Sub("listed", listed, check, 350, 8000),
    Sub("close", close_case(), check, 350, 8000),
    Sub("names", st.fixed_dictionaries({"n": st.one_of(nopos, gen.ident_free, st.from_regex(r"\Ax-[a-z0-9\-]{0,4}[a-z]\Z"))}), one_name, 500, 10000),
], ["the list of known layers and of UD17 tags is the one of the FCS 2.2 specification", "an empty list of allowed identifiers counts as no list"])
