"""Driver shared by every check.

A property module provides
    LEVEL, RULE, ASSUMPTIONS
    QUICK, THOROUGH          number of generated cases per tier
    TIMEOUT                  seconds before a single case counts as "does not terminate"
    fixed(ctx)               optional list of deterministic cases (picklable)
    case(rng, ctx)           runs one generated case; raises Violation
    fixed_case(item, ctx)    runs one deterministic case
The driver shards cases over worker processes, watches every case with an alarm, turns
every violation into a replay file and merges what the monitors observed into the
evidence file.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings
from collections import Counter
from pathlib import Path


class Violation(Exception):
    def __init__(self, what, **data):
        super().__init__(what)
        self.what = what
        self.data = data


class CaseTimeout(BaseException):
    pass


class Known(Exception):
    """A recorded finding fired: (key, text)."""


class Ctx:
    """Collects what the monitors observed."""

    def __init__(self, tier, known):
        self.tier = tier
        self.counts = Counter()
        self.keys = set()
        self.samples = []
        self.known = known
        self.known_hits = {}
        self.current = {}

    def count(self, name, n=1):
        self.counts[name] += n

    def distinct(self, *key):
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=10).digest())

    def sample(self, obj):
        if len(self.samples) < 2:
            s = obj if isinstance(obj, str) else json.dumps(obj, default=repr)
            self.samples.append(s[:1500])

    def put(self, **kw):
        """Remember the input of the running case, for the replay file."""
        self.current.update(kw)

    def finding(self, key, text):
        """True (and recorded) if `key` is a listed known finding; else False."""
        if key in self.known:
            self.known_hits[key] = text
            return True
        return False


def load_known(path, prop):
    """known_findings.jsonl: {"property","key","status","what"}"""
    out = {}
    p = Path(path)
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if not line or not line.startswith("{"):
                continue
            d = json.loads(line)
            if d.get("status") == "known" and d["property"] == prop:
                out[d["key"]] = d["what"]
    return out


def seed_for(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def _alarm(signum, frame):
    raise CaseTimeout


def check(cond, what, **data):
    if not cond:
        raise Violation(what, **data)


def eq(got, want, what, **data):
    if not (got == want):
        raise Violation(f"{what}: got {got!r}, expected {want!r}", **data)


def _run_one(mod, job, ctx, seed, timeout):
    """returns None or a violation dict"""
    ctx.current = {}
    kind, payload = job
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        if kind == "fixed":
            mod.fixed_case(payload, ctx)
        else:
            rng = random.Random(seed_for(seed, mod.ID, payload))
            mod.case(rng, ctx)
        return None
    except Violation as e:
        what, data, tb = e.what, e.data, ""
    except CaseTimeout:
        what, data, tb = f"no result within {timeout}s (hang or runaway)", {}, traceback.format_exc()
    except MemoryError:
        what, data, tb = "memory exhausted", {}, traceback.format_exc()
    except RecursionError as e:
        what, data, tb = f"RecursionError: {e}", {}, traceback.format_exc()[-3000:]
    except Exception as e:  # a crash of the code under test, or of what it returned
        what, data, tb = f"unexpected {type(e).__name__}: {e}", {}, traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {"what": str(what)[:4000], "job": [kind, payload], "seed": seed,
            "data": {k: (v if isinstance(v, (str, int, float)) else repr(v))[:20000]
                     if not isinstance(v, (int, float)) else v
                     for k, v in {**ctx.current, **data}.items()},
            "traceback": tb[-6000:]}


def _worker(modname, prop, jobs, tier, seed, timeout, deadline, known, q):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(3000)
    mod = importlib.import_module(modname)
    ctx = Ctx(tier, known)
    if hasattr(mod, "worker_init"):
        mod.worker_init(ctx)
    done = 0
    viol = []
    for job in jobs:
        if time.time() > deadline:
            ctx.count("cases_not_reached_before_deadline")
            continue
        v = _run_one(mod, job, ctx, seed, timeout)
        done += 1
        if v is not None:
            viol.append(v)
            if len(viol) >= 3:
                break
    q.put({"done": done, "viol": viol, "counts": dict(ctx.counts), "keys": ctx.keys,
           "samples": ctx.samples, "known": ctx.known_hits})


def main(argv, repo, here):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    modname = f"mon.props.{prop.lower()}"
    try:
        import pygerber
    except Exception:
        traceback.print_exc()
        print("cannot import pygerber from", repo)
        return 2
    if not str(Path(pygerber.__file__).resolve()).startswith(str(Path(repo).resolve())):
        print("pygerber imported from", pygerber.__file__, "instead of", repo)
        return 2
    mod = importlib.import_module(modname)
    known = load_known(Path(here) / "known_findings.jsonl", prop)

    if "--replay" in argv:
        rec = json.loads(Path(argv[argv.index("--replay") + 1]).read_text())
        ctx = Ctx(tier, known)
        if hasattr(mod, "worker_init"):
            mod.worker_init(ctx)
        v = _run_one(mod, tuple(rec["job"]), ctx, rec["seed"], mod.TIMEOUT)
        print(json.dumps(v, indent=1))
        return 1 if v else 0

    n = mod.QUICK if tier == "quick" else mod.THOROUGH
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    n = max(1, int(n * scale)) if n else 0
    jobs = [("fixed", i) for i in (mod.fixed() if hasattr(mod, "fixed") else [])]
    jobs += [("gen", i) for i in range(n)]
    nw = int(os.environ.get("VERIF_WORKERS", "8"))
    nw = max(1, min(nw, len(jobs)))
    budget = getattr(mod, "BUDGET", 400) if tier == "quick" else getattr(mod, "BUDGET_T", 3000)
    deadline = t0 + budget
    mpc = mp.get_context("fork")
    queues, procs = [], []
    for w in range(nw):
        q = mpc.SimpleQueue()
        p = mpc.Process(target=_worker, args=(modname, prop, jobs[w::nw], tier, seed,
                                              mod.TIMEOUT, deadline, known, q))
        queues.append(q)
        p.start()
        procs.append(p)
    done = 0
    counts, keys, samples, viols, hits = Counter(), set(), [], [], {}
    failed = 0
    hard = deadline + mod.TIMEOUT + 60
    for q, p in zip(queues, procs):
        while q.empty() and p.is_alive() and time.time() < hard:
            time.sleep(0.02)
        if q.empty():
            p.join(1)
            if q.empty():
                if p.is_alive():
                    p.kill()
                    viols.append({"what": "worker stuck beyond every alarm", "job": None,
                                  "seed": seed, "data": {}, "traceback": ""})
                else:
                    failed += 1
                continue
        r = q.get()
        p.join(5)
        done += r["done"]
        counts.update(r["counts"])
        keys |= r["keys"]
        samples += r["samples"]
        viols += r["viol"]
        hits.update(r["known"])
    if hasattr(mod, "finish"):
        ctx = Ctx(tier, known)
        ctx.counts = counts
        try:
            mod.finish(ctx)
        except Violation as e:
            viols.append({"what": e.what, "job": None, "seed": seed, "data": e.data, "traceback": ""})

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples[:6] or ["(none)"],
            "observed": dict(sorted(counts.items())),
            "repo_head": str(repo),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    evdir = Path(here) / "evidence"
    evdir.mkdir(exist_ok=True)
    (evdir / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=repr))
    for key, text in sorted(hits.items()):
        print(f"KNOWN-FINDING: property={prop} {known[key]}")
    rdir = evdir / "replay"
    if rdir.exists():
        for old in rdir.glob(f"{prop}-*.json"):
            old.unlink()
    if viols:
        rdir.mkdir(exist_ok=True)
        for i, v in enumerate(viols[:5]):
            rp = rdir / f"{prop}-{i}.json"
            rp.write_text(json.dumps(v, indent=1, default=repr))
            print(f"VIOLATION property={prop} replay={rp}")
            print("   ", v["what"][:600].replace("\n", " | "))
        return 1
    if failed:
        print(f"{failed} worker(s) died without a result")
        return 2
    if done == 0 or (len(keys) == 0):
        print("nothing was observed")
        return 2
    print(f"{prop} {tier}: {done} cases, {len(keys)} distinct, "
          f"{sum(counts.values())} monitor events, {time.time()-t0:.1f}s: held")
    return 0
