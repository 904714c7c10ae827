"""C31: the calls of the package leave nothing behind in the process."""
import gc
import io
import json
import os
import subprocess
import sys
import tempfile
import warnings

from hypothesis import strategies as st

from .. import sut
from ..surround import surroundings
from ..common import any_query, valid
from ..core import Prop, Sub
from ..sut import ensure, fcsql, fp, fv
from .C24 import run_task


VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Tap(io.TextIOBase):
    def __init__(self):
        self.got = []

    def writable(self):
        return True

    def write(self, s):
        self.got.append(s)
        return len(s)


def published():
    """the package's own module-level tables and defaults"""
    return {
        "VALIDATORS": dict(fv.VALIDATORS), "version": fv.DEFAULT_VALIDATOR_SPECIFICATION_VERSION, "tags": list(fv.UNIVERSAL_POS_TAGS),
        "legacy": list(fv.FCSQLValidator.KNOWN_LEGACY_LAYER_IDENTIFIER), "known": list(fv.FCSQLValidator.KNOWN_LAYER_IDENTIFIERS),
        "spec": fv.FCSQLValidator.SPECIFICATION_VERSION, "identifier": fp.DEFAULT_IDENTIFIER, "operator": fp.DEFAULT_OPERATOR,
        "norm": fp.DEFAULT_UNICODE_NORMALIZATION_FORM, "unbounded": fp.OCCURS_UNBOUNDED, "rep": [getattr(fp, k, None) for k in ("REP_ONE_OR_MORE", "REP_ZERO_OR_MORE", "REP_ZERO_OR_ONE")],
    }


def fixed():
    """and what they have to be to begin with"""
    p = published()
    return (p["version"] == p["spec"] == "2.2" and p["VALIDATORS"] == {"2.2": fv.FCSQLValidator} and p["unbounded"] == -1 and p["identifier"] == "text"
            and p["operator"] == fp.Operator.EQUALS and p["norm"] == "NFC")


EXTREME = [lambda n: '"a"{' + "1" * n + "}", lambda n: '"a"{' + "0" * n + "}", lambda n: '"' + "ab c" * n + '"', lambda n: "[" + "!" * n + 'a="b"]', lambda n: "(" * n + '"a"' + ")" * n, lambda n: "[" + "(" * n + "a='b'" + ")" * n + "]",
           lambda n: '"a"' + "\n" * n + '"b"', lambda n: '"a"' + "\t " * n, lambda n: "$" * n, lambda n: "(" * n, lambda n: "'" + "\\\\" * n + "'", lambda n: "[x" + "-a" * n + "='b']", lambda n: '"' + "a\u0301" * n + '"', lambda n: '"\\x' + "1" * n + '"']
extreme = st.tuples(st.sampled_from(EXTREME), st.sampled_from([40, 130, 300, 600, 1100, 4400])).map(lambda t: {"q": t[0](t[1] if "(" not in t[0](1) else min(t[1], 300))})
some = st.one_of(any_query(), valid(leaves=5, rich=0))
task = lambda q: st.tuples(q, st.sampled_from(["parse", "parser", "can", "validate", "validator", "low", "str"]), st.booleans()).map(
    lambda t: {"k": t[1], "q": t[0]["q"], "wae": t[2], "cfg": {"identifier": "text", "operator": "Eq", "norm": "NFC"}})
tasks = task(some)


def run(t):
    try:
        return run1(t)
    except RecursionError:  # C11 and C28 say when this is acceptable
        return ("low-error", "recursion")


def run1(t):
    if t["k"] == "str":
        try:
            return str(fcsql.parse(t["q"]))
        except fcsql.QueryParserException as e:
            return str(e)
    return run_task(t)


def differ(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: (a.get(k), b.get(k)) for k in {*a, *b} if a.get(k) != b.get(k)}
    return f"from {a!r} to {b!r}"


def quiet(case, ctx):
    t = case["t"]
    a, pa = surroundings(), published()
    ensure(fixed(), lambda: f"published constants are {pa}")
    out, err = Tap(), Tap()
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    exc = None
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                r = run(t)
            except Exception as e:
                exc = e
    finally:
        sys.stdout, sys.stderr = so, se
    b, pb = surroundings(), published()
    if exc is not None:
        raise exc
    ctx.nontrivial(t["k"])
    ensure(not out.got, lambda: f"{t['k']}({t['q']!r}) wrote to standard output: {''.join(out.got)[:200]!r}")
    if t["k"] != "low" or r[0] != "low-error":  # the runtime's own console listener is part of the low-level parse
        ensure(not err.got, lambda: f"{t['k']}({t['q']!r}) wrote to standard error: {''.join(err.got)[:200]!r}")
    ws = [w for w in ws if (w.filename or "").startswith(sut.SRC) and not issubclass(w.category, ResourceWarning)]
    ensure(not ws, lambda: f"{t['k']}({t['q']!r}) issued a warning: {ws[0].message}")
    for k in a:
        ensure(a[k] == b[k], lambda: f"{t['k']}({t['q']!r}) changed the {k} of the process: {differ(a[k], b[k])}"[:800])
    for k in pa:
        ensure(pa[k] == pb[k], lambda: f"{t['k']}({t['q']!r}) changed the published {k}: {pa[k]!r} -> {pb[k]!r}")


def census():
    gc.collect()
    c = {}
    for o in gc.get_objects():
        m = getattr(type(o), "__module__", None)
        if isinstance(m, str) and (m == "fcsql" or m.startswith("fcsql.")):
            k = type(o).__name__
            c[k] = c.get(k, 0) + 1
    return c


def leak(case, ctx):
    """results that nobody keeps are not kept by the package either, nor do its own containers grow"""
    for t in case["ts"]:
        run(t)  # first use may fill caches of the runtime
    a, sa = census(), held()
    for _ in range(3):
        for t in case["ts"]:
            run(t)
    b, sb = census(), held()
    ctx.nontrivial("leak")
    grown = {k: (a.get(k, 0), v) for k, v in b.items() if v > a.get(k, 0) and k not in ("LazyLoadedMark",)}
    ensure(not grown, lambda: f"after repeating {[(t['k'], t['q']) for t in case['ts']]} more objects are alive: {grown}")
    grown = {k: (sa.get(k, 0), v) for k, v in sb.items() if v > sa.get(k, 0)}
    ensure(not grown, lambda: f"after repeating {[(t['k'], t['q']) for t in case['ts']]} module or class containers have grown: {grown}")


def held():
    """sizes of the containers reachable from modules and classes of the package"""
    sizes = {}
    for m in (fcsql, fp, fv):
        for k, v in vars(m).items():
            if isinstance(v, (list, dict, set)) and not k.startswith("__"):
                sizes[m.__name__ + "." + k] = len(v)
            if isinstance(v, type) and v.__module__.startswith("fcsql"):
                for k2, v2 in vars(v).items():
                    if isinstance(v2, (list, dict, set)) and not k2.startswith("__"):
                        sizes[f"{v.__name__}.{k2}"] = len(v2)
    return sizes


MODULES = ["fcsql", "fcsql.parser", "fcsql.validation", "fcsql.FCSLexer", "fcsql.FCSParser", "fcsql.FCSParserListener", "fcsql.FCSParserVisitor"]
CHILD = """
import sys, json
verif, src, site, mods, setup = json.loads(sys.argv[1])
sys.dont_write_bytecode = True
sys.path[:0] = [src, verif]
sys.path.append(site)
import antlr4, antlr4.error.ErrorListener, dataclasses, importlib, logging, unicodedata, re
from pbt.surround import surroundings
if setup == "level":
    logging.getLogger().setLevel(logging.INFO)
elif setup == "handler":
    logging.getLogger().addHandler(logging.NullHandler())
elif setup == "limit":
    sys.setrecursionlimit(700)
a = surroundings()
for m in mods:
    importlib.import_module(m)
b = surroundings()
bad = {k: (repr(a[k]), repr(b[k])) for k in a if a[k] != b[k]}
for k in b:
    if k not in a:  # loggers of the package itself
        level, disabled, propagate, handlers, filters = b[k]
        if level or disabled or not propagate or filters or [h for h in handlers if not isinstance(h, logging.NullHandler)]:
            bad[k] = ("as made", repr(b[k]))
import fcsql
ok = fcsql.can_parse("'a'")
sys.__stdout__.write("RESULT" + json.dumps([bad, ok]))
"""


def imported(case, ctx):
    """importing the modules, in any order, changes nothing and prints nothing"""
    r = subprocess.run([sys.executable, *case["args"], "-c", CHILD, json.dumps([VERIF, sut.SRC, sut.ANTLR_SITE, case["mods"], case["setup"]])], capture_output=True, text=True, cwd=tempfile.gettempdir(), timeout=120,
                       env={k: v for k, v in os.environ.items() if not k.startswith("PYTHON")})
    ctx.nontrivial("import")
    what = f"importing {case['mods']} ({case['setup']}, {case['args']})"
    ensure(r.returncode == 0, lambda: f"{what} fails: {r.stderr[-400:]}")
    pre, _, post = r.stdout.partition("RESULT")
    ensure(not pre and not r.stderr, lambda: f"{what} prints {(pre + r.stderr)[:300]!r}")
    bad, ok = json.loads(post)
    ensure(not bad, lambda: f"{what} changes the process: {bad}")
    ensure(ok is True, lambda: f"{what}: the package does not work afterwards")


import_case = st.fixed_dictionaries({"mods": st.lists(st.sampled_from(MODULES), min_size=1, max_size=7, unique=True), "setup": st.sampled_from(["plain", "plain", "level", "handler", "limit"]),
                                     "args": st.sampled_from([[], [], ["-O"], ["-I"], ["-X", "dev"]])})

def stopped(case, ctx):
    """a call that ends somewhere in the middle leaves nothing behind either"""
    t = case["t"]
    a, pa = surroundings(), published()
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        where = sut.interrupted(lambda: run(t), case["n"], sut.Interrupt if case["hard"] else sut.Fault)
    except RecursionError:
        where = None
    finally:
        sys.stdout, sys.stderr = so, se
    b, pb = surroundings(), published()
    if where:
        ctx.nontrivial("stopped " + t["k"])
    for k in a:
        ensure(a[k] == b[k], lambda: f"{t['k']}({t['q']!r}) ended at {where} changed the {k} of the process: {differ(a[k], b[k])}"[:800])
    for k in pa:
        ensure(pa[k] == pb[k], lambda: f"{t['k']}({t['q']!r}) ended at {where} changed the published {k}: {pa[k]!r} -> {pb[k]!r}")


def configured(case, ctx):
    """validators and parsers made with any configuration, and used: nothing published changes, nor what was handed in"""
    from . import vcommon as vc

    ids, quals = case["ids"], [(a, b) for a, b in case["quals"]] if case["quals"] else case["quals"]
    given = (list(ids) if ids else ids, [(a, list(b) if b else b) for a, b in quals] if quals else quals)
    a, pa = surroundings(), published()
    enabled = gc.isenabled()
    if case["nogc"]:
        gc.disable()
    try:
        on = gc.isenabled()
        for q in case["qs"]:
            node, exc = sut.try_parse(q, case["cfg"])
            v = fv.FCSQLValidator(allowed_layer_identifiers=ids, allowed_layer_qualifiers=quals, query=q, raise_at_first_violation=case["raising"], warnings_as_errors=case["wae"])
            if node is not None:
                v.is_valid(node)
        ensure(gc.isenabled() is on, lambda: f"{case}: the garbage collector was {'on' if on else 'off'} and is no longer")
    finally:
        gc.enable() if enabled else gc.disable()
    b, pb = surroundings(), published()
    ctx.nontrivial("configured")
    ensure((ids, quals) == given, lambda: f"lists {given} given to a validator became {ids, quals}")
    for k in a:
        ensure(a[k] == b[k], lambda: f"{case} changed the {k} of the process: {differ(a[k], b[k])}"[:800])
    for k in pa:
        ensure(pa[k] == pb[k], lambda: f"{case} changed the published {k}: {pa[k]!r} -> {pb[k]!r}")


@st.composite
def configured_case(draw):
    from . import vcommon as vc

    own = st.lists(st.sampled_from(["word", "text", "pos", "lemma", "x-a", "foo", "orth", "norm", "phonetic", ""]), max_size=4)
    return {"qs": draw(st.lists(st.one_of(vc.vqueries(), any_query().map(lambda c: c["q"])), min_size=1, max_size=2)), "ids": draw(st.one_of(st.none(), own, vc.id_lists)), "quals": draw(st.one_of(st.none(), vc.qual_lists)),
            "raising": draw(st.booleans()), "wae": draw(st.booleans()), "nogc": draw(st.booleans()), "cfg": {"identifier": draw(st.sampled_from(["text", "word", "x"])), "operator": draw(st.sampled_from(["Eq", "Ne"])), "norm": draw(st.sampled_from(["NFC", "NFD", None]))}}


PROP = Prop("C31", "every call observed with its surroundings (distinct calls)", [
    Sub("quiet", st.one_of(tasks, tasks, tasks, tasks, tasks, task(extreme)).map(lambda t: {"t": t}), quiet, 700, 16000),
    Sub("stopped", st.fixed_dictionaries({"t": st.one_of(tasks, tasks, tasks, tasks, task(extreme)), "n": st.one_of(st.integers(1, 30), st.integers(1, 200), st.integers(1, 2000)), "hard": st.booleans()}), stopped, 250, 5000),
    Sub("configured", configured_case(), configured, 200, 4000),
    Sub("import", import_case, imported, 6, 60),
    Sub("leak", st.lists(tasks, min_size=1, max_size=3).map(lambda ts: {"ts": ts}), leak, 40, 600),
], ["only the console listener the ANTLR runtime installs by itself may print, and only during the low-level parse"])
