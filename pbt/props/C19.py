"""C19: validate() - boolean, list and validator agree."""
from hypothesis import strategies as st

from .. import gen, ref, sut
from ..common import any_query
from ..core import Prop, Sub
from ..sut import ensure, fcsql, fp, fv
from . import vcommon as vc


def check(case, ctx):
    q = case["q"]
    want, rej = ref.verdict(q)
    issues = ref.issues(want) if want is not None else None
    ctx.label("parse:" + (rej.kind if rej else "ok"))
    if q.strip():
        ctx.nontrivial("nt:" + ("rejected" if rej else "unspecified" if issues is None else "+".join(sorted({s for s, _, _, _ in issues})) or "clean"))
    problems = []
    if rej:
        p = sut.parser(loc=True)
        sut.try_parse(q, p=p)
        problems = p.errors
    prev = None
    for wae in (False, True):
        b = sut.call(f"validate({q!r}, warnings_as_errors={wae})", fcsql.validate, q, warnings_as_errors=wae)
        es = sut.call(f"validate({q!r}, return_errors=True, warnings_as_errors={wae})", fcsql.validate, q, return_errors=True, warnings_as_errors=wae)
        ensure(b is (not es), lambda: f"{q!r}, warnings_as_errors={wae}: validate() is {b}, but lists {es}")
        bs = sut.call("validate", fcsql.validate, q, version="2.2", warnings_as_errors=wae, return_errors=False)
        ensure(bs is b, lambda: f"{q!r}: explicit default version gives {bs} instead of {b}")
        if rej:
            ensure(b is False and es, lambda: f"{q!r}: cannot be parsed ({rej.kind}), but validate() is {b}")
            ensure(es[len(es) - len(problems):] == problems, lambda: f"{q!r}: lists {es}, the parser has found {problems}")
            ensure(all(e.type != "validation-warning" and e.type != "validation-error" for e in es), lambda: f"{q!r}: {es}")
            continue
        if issues is None:
            continue
        exp = vc.expected(q, issues, "error") + (vc.expected(q, issues, "warning") if wae else [])
        got = [vc.detail(e) for e in es]
        ensure(sorted(got, key=str) == sorted(exp, key=str),
               lambda: f"{q!r}, warnings_as_errors={wae}: lists {got}, expected {exp}")
        if prev is not None:
            ensure(b is False or prev is True, lambda: f"{q!r}: valid with warnings as errors, but not without")
        prev = b


version = st.one_of(st.sampled_from(["2.0", "2.1", "1.2", "", "2", "2.2 ", "2.20", " 2.2", "latest", None, 2.2, 2, "2.2.0", "v2.2", "2.2-draft", "2,2", "\uff12.2"]), st.text(max_size=4)).filter(lambda v: v != "2.2")


def versions(case, ctx):
    v, q = case["version"], case["q"]
    ctx.nontrivial("version")
    for re_ in (False, True):
        try:
            r = fcsql.validate(q, version=v, return_errors=re_)
        except ValueError:
            continue
        except Exception as e:
            sut.fail(f"validate({q!r}, version={v!r}) raised {type(e).__name__}: {e}")
        sut.fail(f"validate({q!r}, version={v!r}) returned {r!r} for an unknown version")


vq = vc.vqueries().map(lambda q: {"q": q})
PROP = Prop("C19", "non-blank query (distinct texts), split by expected outcome", [
    Sub("valid", vq, check, 400, 10000),
    Sub("any", any_query(), check, 350, 10000),
    Sub("versions", st.fixed_dictionaries({"version": version, "q": st.one_of(vq, any_query()).map(lambda c: c["q"])}), versions, 150, 2000),
], ["a returned list holds the errors, plus the warnings exactly when warnings count as errors"])
