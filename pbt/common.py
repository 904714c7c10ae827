"""Case strategies shared by the property modules (cases are JSON-able dicts)."""
from hypothesis import strategies as st

from . import gen, ref


def _pack(q):
    want = ref.parse(q.text, q.cfg.ref())
    # the tree known by construction and the reference parser must agree: this checks the oracle, not the code
    assert want.key(True) == q.tree.key(True), f"oracle disagreement on {q.text!r}:\n{want.show(True)}\n{q.tree.show(True)}"
    return {"q": q.text, "cfg": q.cfg.ref(), "feats": sorted(q.feats)}


DEFAULT = {"identifier": "text", "operator": "Eq", "norm": "NFC"}


def one_in(n, rare, usual):
    return st.integers(0, n - 1).flatmap(lambda k: rare if k == n - 1 else usual)


def big():
    """Valid queries that are large in one respect, default parser configuration."""
    return gen.large().map(lambda p: {"q": p[0], "cfg": dict(DEFAULT), "feats": ["large:" + p[1]]})


def valid(large=14, **knobs):
    """Valid queries, default parser configuration; one in `large` is big (0: none)."""
    usual = gen.queries(**knobs).map(_pack)
    return one_in(large, big(), usual) if large else usual


def valid_cfg(large=14, **knobs):
    """Valid queries with generated parser configuration."""
    usual = gen.cfg_queries(**knobs).map(_pack)
    rare = st.tuples(big(), gen.parser_cfgs).map(lambda t: {**t[0], "cfg": t[1]})
    return one_in(large, rare, usual) if large else usual


def any_query():
    """Any string, valid or not."""
    return gen.anything().map(lambda p: {"q": p[0], "kind": p[1]})


def model(case):
    return ref.parse(case["q"], case.get("cfg"))


def cls(n, k):
    return sum(1 for x in n.walk() if x.type == k)


def depth(n):
    return 1 + max([depth(c) for c in n.children], default=0)


def labels(case, tree, ctx):
    ctx.label(*("feat:" + f for f in case.get("feats", [])))
    ctx.label("nodes:%s" % ("1-3" if (k := sum(1 for _ in tree.walk())) <= 3 else "4-8" if k <= 8 else "9-15" if k <= 15 else "16+"))
