"""Property registry, worker (Hypothesis search) and driver (sharding, evidence, replay files)."""
import collections
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

QUICK_SCALE, THOROUGH_SCALE = 4, 4

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Sub:
    """One executable check: strategy of JSON-able cases + deciding function check(case, ctx)."""

    def __init__(self, name, strategy, check, quick, thorough=None, cpu=60):
        self.name, self.strategy, self.check = name, strategy, check
        self.cpu = cpu  # seconds of CPU time after which a single case counts as never answered
        self.quick, self.thorough = quick, thorough or quick * 12


class Prop:
    def __init__(self, id, rule, subs, assumptions=()):
        self.id, self.rule, self.subs, self.assumptions = id, rule, subs, list(assumptions)


class Stuck(KeyboardInterrupt):
    """A case used up its CPU time. Not an Exception: neither the code under test nor Hypothesis may swallow it."""


class watchdog:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, self.ring)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)

    def ring(self, *_):
        raise Stuck()

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class Ctx:
    def __init__(self):
        self.evaluations = 0
        self.labels = collections.Counter()
        self.keys = set()
        self.samples = []
        self.sample_labels = set()
        self._case = None

    def label(self, *names):
        for n in names:
            self.labels[n] += 1

    def nontrivial(self, label=None):
        h = hashlib.blake2b(dumps(self._case).encode(), digest_size=8).hexdigest()
        self.keys.add(h)
        if label:
            self.label(label)
        if len(self.samples) < 12 and (label not in self.sample_labels or len(self.samples) < 4):
            if len(dumps(self._case)) > 1500:
                return
            self.sample_labels.add(label)
            self.samples.append(self._case)


def dumps(x):
    return json.dumps(x, ensure_ascii=True, sort_keys=True)


def load(pid):
    return importlib.import_module(f"pbt.props.{pid}").PROP


# --------------------------------------------------------------------------- worker


def run_sub(prop, sub, n, seed, ctx, until=None):
    """Search n cases, none of them started after the time `until`. Returns None or a violation dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    try:
        import hypothesis.internal.conjecture.engine as eng

        eng.MAX_SHRINKING_SECONDS = 45
    except Exception:
        pass
    from .sut import Violation, from_sut

    history = collections.deque(maxlen=60)
    last = {}

    def body(case):
        if until and "first" not in last and time.time() > until:
            ctx.label("left out: time budget used up")
            return
        ctx.evaluations += 1
        ctx._case = case
        try:
            with watchdog(sub.cpu):
                sub.check(case, ctx)
        except Violation as v:
            if "first" not in last:
                last["first"] = (case, str(v), list(history))
            last["case"] = (case, str(v))
            raise
        except Exception as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            # also when the check itself stumbles over what it was given: a result without its attributes, of another type, ...
            if from_sut(e) or isinstance(e, (AttributeError, TypeError, LookupError, ValueError, AssertionError)):
                msg = f"unexpected {type(e).__name__}: {e} at " + "; ".join(
                    f"{os.path.basename(f.f_code.co_filename)}:{ln}" for f, ln in list(traceback.walk_tb(e.__traceback__))[-4:])
                if "first" not in last:
                    last["first"] = (case, msg, list(history))
                last["case"] = (case, msg)
                raise Violation(msg) from e
            raise
        finally:
            history.append(case)

    test = given(sub.strategy)(body)
    test = settings(
        max_examples=n, deadline=None, database=None, derandomize=False, report_multiple_bugs=False, print_blob=False,
        phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck),
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except Violation:
        case, msg = last["case"]
        return {"case": case, "message": msg, "history": []}
    except BaseException as e:
        if isinstance(e, Stuck):
            return {"case": ctx._case, "message": f"no answer: {sub.cpu} s of CPU time used, or waiting for something that never comes (not shrunk)", "history": []}
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if "first" in last and ("Flaky" in type(e).__name__ or "Flaky" in repr(e)):
            # fails only after certain earlier cases: the history belongs to the reproduction
            case, msg, hist = last["first"]
            return {"case": case, "message": msg + " [depends on earlier cases in the same process]", "history": hist}
        raise
    return None


def worker(pid, tier, seed, shard, nshards, out):
    prop = load(pid)
    ctx = Ctx()
    res = {"violations": [], "subs": {}}
    rot = [prop.subs[(i + shard) % len(prop.subs)] for i in range(len(prop.subs))]
    start = time.time()
    budget = 480 if tier == "quick" else 3 * 3600
    for i, sub in enumerate(rot):
        total = sub.quick * QUICK_SCALE if tier == "quick" else sub.thorough * THOROUGH_SCALE
        n = max(1, (total + nshards - 1) // nshards)
        s = zlib.crc32(f"{pid}/{sub.name}/{seed}/{shard}".encode())
        before = ctx.evaluations
        t0 = time.time()
        v = run_sub(prop, sub, n, s, ctx, start + budget * (i + 1) / len(rot))
        res["subs"][sub.name] = {"cases": ctx.evaluations - before, "s": round(time.time() - t0, 2)}
        if v:
            v["sub"] = sub.name
            res["violations"].append(v)
            break
    res.update(evaluations=ctx.evaluations, labels=dict(ctx.labels), keys=sorted(ctx.keys), samples=ctx.samples)
    with open(out, "w") as f:
        f.write(json.dumps(res))


# --------------------------------------------------------------------------- replay


def replay(path):
    """Re-run a saved failure without Hypothesis. Exit 1 if it still fails."""
    from .sut import Violation, from_sut

    d = json.load(open(path))
    prop = load(d["property"])
    sub = [s for s in prop.subs if s.name == d["sub"]][0]
    ctx = Ctx()

    def one(case):
        ctx._case = case
        try:
            with watchdog(sub.cpu):
                sub.check(case, ctx)
        except Violation as v:
            return str(v)
        except Stuck:
            return f"no answer after {sub.cpu} s of CPU time"
        except Exception as e:
            if from_sut(e) or isinstance(e, (AttributeError, TypeError, LookupError, ValueError, AssertionError)):
                return f"unexpected {type(e).__name__}: {e}"
            raise
        return None

    for c in d.get("history", []):
        one(c)
    msg = one(d["case"])
    if msg is None:
        print(f"replay: property={d['property']} holds on the saved case")
        return 0
    print(msg)
    print(f"VIOLATION property={d['property']} replay={path}")
    return 1


def load_known():
    """known_findings.json: list of {property, sub, case_contains|message_contains, what}"""
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


# --------------------------------------------------------------------------- driver

IDLE = 90  # seconds without any computation after which a worker counts as waiting forever


def used(pid):
    """CPU time of a worker and its children"""
    try:
        with open(f"/proc/{pid}/stat") as f:
            r = sum(map(int, f.read().rsplit(")", 1)[1].split()[11:15])) / os.sysconf("SC_CLK_TCK")
        for t in os.listdir(f"/proc/{pid}/task"):
            with open(f"/proc/{pid}/task/{t}/children") as f:
                r += sum(used(int(c)) for c in f.read().split())
        return r
    except (OSError, ValueError, IndexError):
        return 0.0


def wake(pids, seen):
    """Workers that do nothing at all any more (a deadlock, say) get the signal of their watchdog."""
    now = time.time()
    for pid in pids:
        u = used(pid)
        if pid not in seen or abs(u - seen[pid][0]) > 0.3:
            seen[pid] = (u, now)
        elif now - seen[pid][1] > IDLE:
            os.kill(pid, signal.SIGVTALRM)
            seen[pid] = (u, now)



def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("--worker", type=int, default=None)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.selftest:
        import hypothesis

        from . import sut

        print("hypothesis", hypothesis.__version__, "code", sut.fcsql.__file__)
        return 0
    if a.replay:
        return replay(a.replay)
    if a.worker is not None:
        worker(a.pid, a.tier, a.seed, a.worker, a.shards, a.out)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)  # threads that hang do not keep it

    t0 = time.time()
    nsh = a.shards or 8
    tmp = tempfile.mkdtemp(prefix="pbt-")
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=VERIF, LC_ALL="C.UTF-8",
               HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(tmp, "hyp"))
    procs = []
    errors = []
    results = []
    try:
        for i in range(nsh):
            out = os.path.join(tmp, f"{i}.json")
            cmd = [sys.executable, os.path.join(VERIF, "check.py"), a.pid, "--tier", a.tier, "--seed", str(a.seed),
                   "--shards", str(nsh), "--worker", str(i), "--out", out]
            log = open(os.path.join(tmp, f"{i}.log"), "wb")
            procs.append((subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT, cwd=tmp), out, log))
        limit = 840 if a.tier == "quick" else 4 * 3600
        seen = {}
        for p, out, log in procs:
            while p.poll() is None and time.time() - t0 < limit:
                try:
                    p.wait(timeout=2)
                except subprocess.TimeoutExpired:
                    wake([x.pid for x, _, _ in procs if x.poll() is None], seen)
            if p.poll() is None:
                p.kill()
                p.wait()
                errors.append("worker ran out of time (inconclusive)")
            log.close()
            if os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                txt = open(log.name, errors="replace").read()
                errors.append(f"worker exit {p.returncode}: {txt[-3000:]}")
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)

    prop = load(a.pid)
    ev = sum(r["evaluations"] for r in results)
    keys = set()
    labels = collections.Counter()
    subs = collections.Counter()
    samples = []
    viol = []
    for r in results:
        keys.update(r["keys"])
        labels.update(r["labels"])
        for k, v in r["subs"].items():
            subs[k] += v["cases"]
        samples.extend(r["samples"][:4])
        viol.extend(r["violations"])
    known = [k for k in load_known().get("findings", []) if k["property"] == a.pid]
    fresh, seen_known = [], set()
    for v in viol:
        hit = [k for k in known if k["sub"] == v["sub"] and k["case"] == v["case"]]
        if hit:
            seen_known.add(hit[0]["what"])
        else:
            fresh.append(v)
    replays = []
    for v in sorted(fresh, key=lambda v: len(dumps(v["case"])))[:3]:
        d = {"property": a.pid, "sub": v["sub"], "case": v["case"], "message": v["message"], "history": v["history"],
             "seed": a.seed, "tier": a.tier, "how": f"python3-vt {VERIF}/check.py --replay <this file>"}
        name = f"{v['sub']}-{hashlib.blake2b(dumps(v['case']).encode(), digest_size=5).hexdigest()}.json"
        rdir = os.path.join(VERIF, "replays", a.pid)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, name)
        with open(path, "w") as f:
            json.dump(d, f, indent=1, ensure_ascii=True)
        replays.append((path, v))
    wall = round(time.time() - t0, 2)
    if results:
        evd = {
            "property": a.pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
            "coverage": {
                "evaluations": ev, "distinct_nontrivial": len(keys), "rule": prop.rule, "samples": samples[:16],
                "cases_per_check": dict(subs), "classes": dict(sorted(labels.items())), "workers": nsh,
            },
            "assumptions": prop.assumptions, "wall_s": wall, "violations": len(fresh),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.pid + ".json"), "w") as f:
            json.dump(evd, f, indent=1, ensure_ascii=True)
    for k in known:
        print(f"KNOWN-FINDING: property={a.pid} {k['what']}")
    if fresh:
        for path, v in replays:
            print(f"[{v['sub']}] {v['message']}\n  case: {dumps(v['case'])[:1000]}")
            print(f"VIOLATION property={a.pid} replay={path}")
        return 1
    if errors:
        for e in errors:
            print("ERROR", e, file=sys.stderr)
        return 2
    print(f"OK property={a.pid} tier={a.tier} seed={a.seed} cases={ev} nontrivial={len(keys)} wall={wall}s")
    if a.v:
        print(json.dumps(dict(sorted(labels.items())), indent=1), dict(subs), [r["subs"] for r in results])
    return 0
