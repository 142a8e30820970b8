"""C22 purity: repetition, order, threads."""
import json
import os
import signal
import subprocess
import sys
import threading
from pathlib import Path

from mon import ops
from mon.harness import Violation, check, eq
from mon.sem import Gen

ID = "C22"
LEVEL = "exploration"
TECHNIQUE = "differential monitor: results after random histories and under thread interleavings vs results in pristine processes"
LEVEL_NOTE = ("Every operation is first run alone in a process that has processed nothing; then all of them run in random "
              "order, repeatedly, on shared inputs and in up to 4 threads with forced switching, and every result must be "
              "the same and every shared input unchanged. Schedules are sampled.")
RULE = ("3..5 programs (random semantic and syntactic, some damaged, some sharing macro names and aperture numbers) x random operations: "
        "parse (strict, resilient), format with random options, lint, state, compile, render to vector and raster, "
        "high-level file, highlighting, builder. Distinct: sequence of operation starts and ends observed across threads.")
ASSUMPTIONS = ["objects documented as holding the state of one run (visitors, virtual machines, builders) are not shared between threads"]
QUICK, THOROUGH, TIMEOUT = 90, 3000, 120

HERE = Path(__file__).resolve().parent.parent


def child(f, timeout=90):
    """f() in a forked process; its JSON result."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            try:
                r = {"ok": f()}
            except BaseException as e:
                import traceback
                r = {"err": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-1500:]}
            with os.fdopen(wr, "w") as fp:
                json.dump(r, fp)
        finally:
            os._exit(0)
    os.close(wr)
    try:
        with os.fdopen(rd) as fp:
            s = fp.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    _, st = os.waitpid(pid, 0)
    if not s:
        raise Violation(f"process ended without a result (status {st}): crash, hang or deadlock")
    return json.loads(s)


def fmt_args(r):
    """random formatter options, as JSON"""
    from mon.props import c04
    o, kw = c04.options(r)
    return {k: getattr(v, "value", v) for k, v in kw.items()}


def damage(r, t):
    for _ in range(r.randint(1, 3)):
        i = r.randrange(len(t))
        t = t[:i] + r.choice(["", "*", "%", "Q", "D", "X"]) + t[i + r.randint(0, 3):]
    return t


def make_ops(r, ctx):
    texts = []
    for _ in range(r.randint(3, 5)):
        if texts and r.random() < 0.25:
            # same names, other contents
            t = r.choice(texts)["text"].replace("1,1,", "1,0,", 1).replace("X1", "X2")
            texts.append({"text": t})
            continue
        g = Gen(r, macros=r.random() < 0.5, blocks=r.random() < 0.3, repeat=r.random() < 0.2, span=r.choice([2000, 4000]),
                max_arc=2, transforms=("LM", "LR", "LS") if r.random() < 0.4 else (), unit="mm")
        g.header()
        g.ad()
        g.body(r.randint(2, 7))
        g.end()
        t = g.source()
        d = {"text": t}
        if r.random() < 0.25:
            d = {"text": damage(r, t), "bad": 1}
        texts.append(d)
    out = []
    for _ in range(r.randint(6, 14)):
        d = dict(r.choice(texts))
        k = r.choice(["parse", "parse", "parse_resilient", "format", "format", "lint", "state", "compile", "compile", "shapely",
                      "pillow", "file", "tokens", "builder", "composite"])
        d["op"] = k
        if k == "format":
            d["args"] = fmt_args(r)
        elif k == "lint":
            d["args"] = r.sample(["DEP001", "DEP002", "GRB001"], r.randint(0, 3))
        elif k in ("state", "compile"):
            d["args"] = r.random() < 0.5
        elif k == "pillow":
            d["args"] = r.choice([5, 10, 20])
        elif k == "file":
            d["args"] = [r.choice([["pillow", r.choice([5, 10])], ["shapely"], ["type"], ["format"]]) for _ in range(r.randint(1, 4))]
        elif k == "composite":
            ts = [x["text"] for x in texts if not x.get("bad")] or [d["text"]]
            d["args"] = [r.choice(ts) for _ in range(r.randint(1, 3))]
        elif k == "builder":
            d["args"] = [r.choice([["circle", r.randint(1, 9) / 10], ["rect", r.randint(1, 9) / 10, 0.5],
                                   ["custom", r.randint(1, 9) / 10, r.randint(0, 3)],
                                   ["pad", r.randint(0, 5), r.randint(-9, 9), r.randint(-9, 9), r.choice([0.0, 45.0])],
                                   ["line", r.choice([0.1, 0.2]), 0, 0, r.randint(1, 9), r.randint(1, 9)]])
                         for _ in range(r.randint(2, 8))]
        out.append(d)
    return out


def history(todo, nthreads, plan, share):
    """Run the plan (list of op indexes per thread); events, digests, changed inputs."""
    box = ops.Box(share, nthreads == 1)
    if share:
        box.prepare(todo)
    log, res, errs = [], [], []
    start = threading.Barrier(nthreads)
    lock = threading.Lock()

    def work(tid, seq):
        try:
            start.wait(30)
            for i in seq:
                log.append((tid, "s", i))
                d = ops.run(todo[i], box)
                log.append((tid, "e", i))
                with lock:
                    res.append((i, d, tid))
        except BaseException as e:
            errs.append(f"{type(e).__name__}: {e}")

    sys.setswitchinterval(2e-5 if nthreads > 1 else 0.005)
    if nthreads == 1:
        work(0, plan[0])
    else:
        th = [threading.Thread(target=work, args=(n, s), daemon=True) for n, s in enumerate(plan)]
        for t in th:
            t.start()
        for t in th:
            t.join(80)
            if t.is_alive():
                errs.append("thread did not finish")
    sys.setswitchinterval(0.005)
    act = most = 0
    for _, k, _ in log:
        act += 1 if k == "s" else -1
        most = max(most, act)
    return {"log": log, "res": res, "errs": errs, "most": most, "changed": box.changed() if share else [], "watched": len(box.before)}


RUSH = ("%FSLAX26Y26*%%MOMM*%{}%ADD10C,2*%%ADD11R,1X3*%D10*X0Y0D03*D11*X2000000Y1000000D03*M02*")


def rush(spec, trials):
    """Threads meet at a file none of them has rendered yet; what each of them got, against one thread alone."""
    from pygerber.gerber.api import Color, FileTypeEnum, GerberFile, Style
    text, kind, warm = spec
    style = Style(foreground=Color.from_rgba(1, 2, 3, 255), background=Color.from_rgba(4, 5, 6, 255))

    def make():
        f = GerberFile.from_str(text, FileTypeEnum[kind])
        if warm:
            f.render_with_pillow(style, dpmm=1)
        return f

    def use(f):
        try:
            return f.render_with_pillow(dpmm=1).get_image().tobytes().hex() + f.file_type.name
        except Exception as e:
            return f"raised {type(e).__name__}: {e}"

    want = use(make())
    n, got, files = 4, [], [None]
    meet, leave = threading.Barrier(n + 1), threading.Barrier(n + 1)

    def work():
        for _ in range(trials):
            meet.wait(60)
            got.append(use(files[0]))
            leave.wait(60)
    th = [threading.Thread(target=work, daemon=True) for _ in range(n)]
    for t in th:
        t.start()
    sys.setswitchinterval(1e-6)
    for _ in range(trials):
        files[0] = make()
        meet.wait(60)
        leave.wait(60)
    sys.setswitchinterval(0.005)
    return {"want": want[-60:], "other": sorted({x[-200:] for x in got if x != want}), "n": len(got)}


def meeting(rng, ctx):
    attr = rng.choice(["", "%TF.FileFunction,Copper,L1,Top*%", "%TF.FileFunction,Soldermask,Bot*%", "%TF.FileFunction,Profile,NP*%"])
    spec = (RUSH.format(attr), rng.choice(["INFER", "INFER", "INFER_FROM_ATTRIBUTES", "INFER_FROM_EXTENSION"]), rng.random() < 0.8)
    trials = 60
    ctx.put(meeting=repr(spec))
    r = child(lambda: rush(spec, trials))
    check("ok" in r, f"threads rendering one file: {r.get('err')}")
    r = r["ok"]
    eq(r["n"], 4 * trials, "renderings by threads")
    check(not r["other"], f"threads rendering one file of type {spec[1]} got {r['other'][:2]}, one thread alone ...{r['want']}")
    ctx.count("meetings_of_threads", trials)


def case(rng, ctx):
    meeting(rng, ctx)
    todo = make_ops(rng, ctx)
    ctx.put(ops=json.dumps(todo))
    want = []
    for o in todo:
        r = child(lambda: ops.run(o, ops.Box(False)))
        check("ok" in r, f"{o['op']} in a fresh process: {r.get('err')}")
        want.append(r["ok"])
        ctx.count("op_" + o["op"])
        if r["ok"].startswith("raised"):
            ctx.count("op_failing")
    for rnd in range(3):
        nt = [1, rng.choice([2, 2, 3, 4]), rng.choice([1, 3])][rnd]
        share = [True, True, False][rnd]
        plan = []
        for _ in range(nt):
            seq = list(range(len(todo)))
            seq += rng.sample(seq, min(len(seq), 3)) if nt == 1 else []
            rng.shuffle(seq)
            plan.append(seq if nt < 3 else seq[:8])
        r = child(lambda: history(todo, nt, plan, share))
        check("ok" in r, f"run of {nt} thread(s): {r.get('err')} {r.get('tb')}")
        r = r["ok"]
        check(not r["errs"], f"run of {nt} thread(s): {r['errs']}")
        eq(len(r["res"]), sum(map(len, plan)), "number of results")
        for i, d, tid in r["res"]:
            if d != want[i]:
                raise Violation(f"{todo[i]['op']} gave {d} after other work ({nt} threads, shared inputs {share}), alone it gives {want[i]}",
                                plan=json.dumps(plan), index=i)
        for kind, text, was, now in r["changed"]:
            raise Violation(f"{kind} was modified by processing it", text=text, was=was, now=now)
        ctx.count("runs_threads_%d" % nt)
        ctx.count("operations_observed", len(r["res"]))
        ctx.count("inputs_watched", r["watched"])
        ctx.count("max_overlap_%d" % r["most"])
        ctx.distinct(json.dumps(r["log"]))
    ctx.sample({"ops": [o["op"] for o in todo]})


def fixed():
    return [0, 1, 2]


def fixed_case(item, ctx):
    """Fresh interpreters with different hash seeds and orders agree."""
    import random
    import pygerber
    src = str(Path(pygerber.__file__).resolve().parent.parent)
    r = random.Random(1000 + item)
    todo = [o for _ in range(3) for o in make_ops(r, ctx)]
    ctx.put(ops=json.dumps(todo))
    outs = []
    for seed in ("1", "77"):
        order = list(range(len(todo)))
        r.shuffle(order)
        env = dict(os.environ, PYTHONHASHSEED=seed, VERIF_SRC=src, PYTHONPATH=str(HERE.parent) + os.pathsep + src)
        p = subprocess.run([sys.executable, str(HERE / "ops.py")], input=json.dumps([todo[i] for i in order]), env=env,
                           capture_output=True, text=True, timeout=100)
        check(p.returncode == 0, f"fresh interpreter failed: {p.stderr[-800:]}")
        d = json.loads(p.stdout)
        outs.append({i: d[n] for n, i in enumerate(order)})
        ctx.count("fresh_interpreters")
    for i in outs[0]:
        eq(outs[1][i], outs[0][i], f"{todo[i]['op']} in two fresh interpreters")
    ctx.distinct(item, "fresh")
