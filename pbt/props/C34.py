"""C34: every interpreter gives the same answers - hash seed, optimisation, text encoding, locale and working directory do not matter."""
import atexit
import json
import os
import select
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from .. import gen, sut
from ..common import any_query, valid
from ..core import VERIF, Prop, Sub
from ..sut import ensure
from . import vcommon as vc
from .C24 import run_task

VARIANTS = [
    ("hash seed 1", {"PYTHONHASHSEED": "1"}, []),
    ("hash seed 2, -O", {"PYTHONHASHSEED": "2"}, ["-O"]),
    ("hash seed 7919, -OO, ASCII locale, other directory", {"PYTHONHASHSEED": "7919", "LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "ascii:backslashreplace"}, ["-OO"]),
    ("hash seed 12345, development mode", {"PYTHONHASHSEED": "12345"}, ["-X", "dev", "-W", "ignore"]),
]

SERVER = """
import sys, os, json
inp, out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
null = open(os.devnull, "w", errors="backslashreplace"); sys.stdout = sys.stderr = null
sys.path.insert(0, %r)
from pbt.props.C34 import answer
for line in inp:
    out.write((json.dumps(answer(json.loads(line))) + "\\n").encode()); out.flush()
"""


def answer(t):
    try:
        return ["ok", repr_(run_task(t))]
    except Exception as e:
        return ["raised", type(e).__name__, str(e)]


def repr_(x):
    """outcomes as text that does not depend on the order of sets"""
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(map(repr_, x)) + "]"
    if isinstance(x, (set, frozenset)):
        return "{" + ",".join(sorted(map(repr_, x))) + "}"
    return ascii(x)


_servers = []


def servers():
    if not _servers:
        tmp = tempfile.gettempdir()
        for name, env, args in VARIANTS:
            e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG"))}
            e.update(env, VERIF_REPO=sut.REPO, PYTHONDONTWRITEBYTECODE="1")
            p = subprocess.Popen([sys.executable, *args, "-c", SERVER % VERIF], env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                 cwd="/" if "other directory" in name else tmp)
            _servers.append((name, p))
            atexit.register(stop, p)
    return _servers


def stop(p):
    try:
        p.stdin.close()
        p.wait(3)
    except Exception:
        p.kill()
        p.wait()


def check(case, ctx):
    t = case["t"]
    here = answer(t)
    msg = (json.dumps(t) + "\n").encode()
    ss = servers()
    for _, p in ss:
        p.stdin.write(msg)
        p.stdin.flush()
    got = []
    for name, p in ss:
        ready = select.select([p.stdout], [], [], 200)[0]
        ensure(ready, lambda: f"{t['k']}({t['q']!r}): no answer within 200 s in an interpreter with {name}")
        line = p.stdout.readline()
        if not line:
            raise RuntimeError(f"the {name} process ended")
        got.append((name, json.loads(line)))
    ctx.nontrivial(t["k"] + (":error" if "error" in here[1][:20] else ""))
    for name, g in got:
        ensure(g == here, lambda: f"{t['k']}({t['q']!r}, {t['cfg'] if t['k'] == 'parser' else t.get('vcfg', '')}) in an interpreter with {name}:\n  {str(g)[:600]}\n  here\n  {str(here)[:600]}")


longer = st.tuples(st.sampled_from(["a", "x-a", "Ab9", "pos-"]), st.sampled_from([33, 65, 129, 300]), st.sampled_from(["[{}='b']", "[{}:a='b']", "[a={!r}]", "{!r} | {!r}/i", "'a' within {}", "[a='b'{}]", "{!r}{{{}}}"])).map(
    lambda t: {"q": t[2].format(*[(t[0] * t[1])[: t[1]]] * 2)})
qs = st.one_of(longer, any_query(), valid(leaves=6), vc.vqueries().map(lambda q: {"q": q}), gen.semantic_bad().map(lambda r: {"q": r if isinstance(r, str) else r[0]}))
tasks = st.tuples(qs, st.sampled_from(["parse", "parser", "validate", "validator", "low"]), st.booleans(), gen.parser_cfgs).map(
    lambda t: {"t": {"k": t[1], "q": t[0]["q"], "wae": t[2], "cfg": t[3]}})
configured = st.tuples(vc.vqueries(), st.booleans(), vc.id_lists, vc.qual_lists).map(lambda t: {"t": {"k": "validator", "q": t[0], "wae": t[1], "vcfg": {"ids": t[2], "quals": t[3]}}})
PROP = Prop("C34", "every call answered by five interpreters (distinct calls)", [Sub("interpreters", tasks, check, 700, 16000), Sub("configured", configured, check, 150, 3000)],
            ["five interpreters of the same Python version; other versions and platforms are not available"])
