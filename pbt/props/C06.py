"""C06: regex flags."""
from hypothesis import strategies as st

from .. import gen, ref, sut
from ..common import labels, model, valid
from ..core import Prop, Sub
from ..sut import ensure, fp


def flagsof(n):
    return [sorted(x.attrs["flags"]) for x in n.walk() if x.type == "Expression"]


def check(case, ctx):
    q = case["q"]
    want = model(case)
    labels(case, want, ctx)
    if any(flagsof(want)):
        ctx.nontrivial("nt")
    got = sut.snap(sut.parse_ok(q, loc=False))
    ensure(flagsof(got) == flagsof(want), lambda: f"flags in {q!r}: got {flagsof(got)}, want {flagsof(want)}")


CTX = ['"a"{}', "[text='a'{}]", "[a != \"a\"{} | c='d'/l]", "('x'/i 'a'{})+", "[!(pos='a'{})]{{2}} within s"]


@st.composite
def flag_case(draw):
    f = draw(st.one_of(st.text(alphabet="icICld", min_size=1, max_size=5), st.text(alphabet="icICld", min_size=1, max_size=14),
                       st.sampled_from([t for ts in gen.FLAGSETS.values() for t in ts if t])))
    w = draw(st.sampled_from(["", "", " ", "\n"]))
    return {"flags": f, "ctx": draw(st.integers(0, len(CTX) - 1)), "w": w, "loc": draw(st.booleans())}


NAMES = {"i": "ci", "c": "ci", "I": "cs", "C": "cs", "l": "lit", "d": "dia"}


def mapping(case, ctx):
    f = case["flags"]
    q = CTX[case["ctx"]].format(case["w"] + "/" + case["w"] + f)
    letters = set(f)
    sets = {NAMES[c] for c in letters}
    bad = ("ci" in sets and "cs" in sets) or ("lit" in sets and len(sets) > 1)
    node, exc = sut.try_parse(q, loc=case["loc"])
    ctx.nontrivial("conflict" if bad else "ok:" + "+".join(sorted(sets)))
    if bad:
        ensure(node is None, lambda: f"{q!r}: contradictory flags {f!r} accepted")
        return
    ensure(node is not None, lambda: f"{q!r}: flags {f!r} rejected ({exc})")
    e = next((n for n in sut.nodes(node) if sut.kind(n) == "Expression" and n.regex == "a"), None)
    ensure(e is not None, lambda: f"{q!r}: expression with pattern 'a' is missing")
    got = {sut.FLAGNAME[x] for x in (e.regex_flags or ())}
    ensure(got == sets, lambda: f"{q!r}: flags {f!r} -> {sorted(got)}, expected {sorted(sets)}")
    for fl, name in sut.FLAGNAME.items():
        ensure(bool(sut.call("has_regex_flag", e.has_regex_flag, fl)) == (name in sets), lambda: f"{q!r}: has_regex_flag({fl}) wrong")


PROP = Prop("C06", "query in which at least one pattern carries flags (distinct cases, split into conflicting and accepted combinations)", [
    Sub("tree", valid(leaves=7, depth=2, rich=0), check, 400, 10000),
    Sub("mapping", flag_case(), mapping, 1500, 40000),
])
