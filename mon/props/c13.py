"""C13 compiled program: determinism, well-formedness, export."""
import json
import os
import random
import subprocess
import sys
from pathlib import Path

from mon.harness import Violation, check, seed_for
from mon.sem import Gen

ID = "C13"
LEVEL = "exploration"
TECHNIQUE = "trace-specification monitor over emitted instruction lists; repeated runs across processes and hash seeds"
LEVEL_NOTE = ("Each emitted instruction list is checked by an online checker of the layer protocol, its export is compared "
              "field by field, and lists are compared between repeated compilations, fresh parses, processes and hash seeds.")
RULE = ("random programs with macros, thermals, nested blocks, repeats, transforms and attributes; each compiled several "
        "times in one process, and batches in separate processes under different hash seeds and in different order. "
        "Distinct: program text.")
ASSUMPTIONS = ["instruction lists are compared by their exported form, which is itself compared with the instructions"]
QUICK, THOROUGH, TIMEOUT = 800, 12000, 120


def program(rng):
    g = Gen(rng, transforms="MRS", macros=True, blocks=True, repeat=True, polarity=True, zero=rng.random() < 0.2, free=rng.random() < 0.3)
    g.header()
    n = 0
    for _ in range(rng.randint(1, 12)):
        if rng.random() < 0.2:
            n += 1
            g.put(("t",), rng.choice([f"%TFf{n},v*%", f"%TAa{n},w{n}*%", f"%TO.N,net{n}*%", "%TD*%"]))
        g.body(1)
    if rng.random() < 0.3:
        # several instances of one macro with thermals
        name, pool = g.am(prims=[g.prim(None, codes=(7,)), g.prim(None, codes=(7, 6, 1))])
        for _ in range(3):
            g.admacro(name, pool)
            g.flash("M")
    if rng.random() < 0.9:
        g.end()
    return g.source()


def case(rng, ctx):
    text = program(rng)
    md = rng.random() < 0.5
    ctx.put(source=text)
    from pygerber.gerber.compiler import Compiler, compile
    from pygerber.gerber.parser import parse
    ast = parse(text)
    a = Compiler(include_metadata=md).compile(ast)
    ja = a.to_json()
    wellformed(a.commands, ctx)
    export(a, ja, ctx)
    for name, again in (("the same tree again", lambda: Compiler(include_metadata=md).compile(ast)),
                        ("a fresh parse", lambda: Compiler(include_metadata=md).compile(parse(text))),
                        ("with the compile function", None if md else lambda: compile(ast))):
        if again is None:
            continue
        jb = again().to_json()
        if ja != jb:
            k = next((i for i, (p, q) in enumerate(zip(ja, jb)) if p != q), min(len(ja), len(jb)))
            raise Violation(f"compiling {name} gives another instruction list, from character {k} of its export: "
                            f"{ja[max(0, k - 80):k + 80]!r} vs {jb[max(0, k - 80):k + 80]!r}")
        ctx.count("recompilations")
    ctx.distinct(text)
    ctx.sample(text)


def wellformed(cmds, ctx):
    from pygerber.vm.commands import EndLayer, PasteLayer, Shape, StartLayer
    open_, finished, mains = [], set(), 0
    for k, c in enumerate(cmds):
        ctx.count("instruction_" + type(c).__name__)
        if isinstance(c, StartLayer):
            check(c.id.id not in finished and c.id.id not in open_, f"layer {c.id.id!r} defined twice (instruction {k})")
            open_.append(c.id.id)
            mains += c.id.id == "%main%"
        elif isinstance(c, EndLayer):
            check(bool(open_), f"instruction {k} ends a layer that was not started")
            finished.add(open_.pop())
        else:
            check(bool(open_), f"instruction {k} draws outside of every layer")
            if isinstance(c, PasteLayer):
                check(c.source_layer_id.id in finished,
                      f"instruction {k} pastes layer {c.source_layer_id.id!r}, which is not finished by then")
            else:
                check(isinstance(c, Shape), f"instruction {k} is a {type(c).__name__}")
                check(len(c.commands) > 0, f"instruction {k} is a shape without segments")
    check(not open_, f"layers {open_} are never ended")
    check(mains == 1, f"{mains} main layers")


def vec(v):
    return {"x": v.x, "y": v.y}


def sub(d, want, where):
    for k, v in want.items():
        check(k in d, f"{where}: export lacks {k}")
        if isinstance(v, dict):
            check(isinstance(d[k], dict), f"{where}: export of {k} is {d[k]!r}, expected {v!r}")
            sub(d[k], v, where + "." + k)
        elif d[k] != v:
            raise Violation(f"{where}: export of {k} is {d[k]!r}, expected {v!r}")


def export(rvmc, js, ctx):
    from pygerber.vm.commands import Arc, PasteLayer, Shape, StartLayer
    d = json.loads(js)
    check(len(d["commands"]) == len(rvmc.commands),
          f"export has {len(d['commands'])} instructions of {len(rvmc.commands)}")
    check((d["metadata"] or {}) == (rvmc.metadata or {}), "export of file metadata differs")
    for k, (e, c) in enumerate(zip(d["commands"], rvmc.commands)):
        w = f"instruction {k} ({type(c).__name__})"
        sub(e, {"__class_qualname__": type(c).__name__}, w)
        check((e["metadata"] or {}) == (c.metadata or {}), f"{w}: export of metadata differs")
        if isinstance(c, StartLayer):
            sub(e, {"id": {"id": c.id.id}, "origin": vec(c.origin)}, w)
            if c.box is None:
                check(e["box"] is None, f"{w}: export invents a box")
            else:
                sub(e, {"box": {n: getattr(c.box, n) for n in ("min_x", "min_y", "max_x", "max_y")}}, w)
        elif isinstance(c, PasteLayer):
            sub(e, {"source_layer_id": {"id": c.source_layer_id.id}, "center": vec(c.center),
                    "is_negative": c.is_negative}, w)
        elif isinstance(c, Shape):
            check(e["is_negative"] == c.is_negative, f"{w}: export of polarity differs")
            check(len(e["commands"]) == len(c.commands), f"{w}: export lost segments")
            for es, s in zip(e["commands"], c.commands):
                want = {"__class_qualname__": type(s).__name__, "start": vec(s.start), "end": vec(s.end)}
                if isinstance(s, Arc):
                    want.update(center=vec(s.center), clockwise=s.clockwise)
                sub(es, want, w)
        ctx.count("exported_instructions")


def fixed():
    return list(range(8 if os.environ.get("VERIF_TIER") != "thorough" and "--thorough" not in sys.argv else 40))


def fixed_case(item, ctx):
    """the same programs in other processes, under other hash seeds, in another order"""
    rng = random.Random(seed_for(os.environ.get("VERIF_SEED", "1"), "C13batch", item))
    progs = [(k, program(rng), rng.random() < 0.5) for k in range(14)]
    results = []
    here = Path(__file__).resolve().parents[1]
    import pygerber
    src = str(Path(pygerber.__file__).resolve().parents[1])
    for hs in ("0", "1", str(rng.randint(2, 4000000))):
        env = {**os.environ, "PYTHONHASHSEED": hs, "VERIF_SRC": src}
        order = progs[:]
        rng.shuffle(order)
        r = subprocess.run([sys.executable, str(here / "batch_compile.py")], input=json.dumps(order), env=env,
                           capture_output=True, text=True, timeout=100)
        if r.returncode != 0:
            raise Violation("compilation failed in a child process: " + r.stderr[-1500:])
        results.append((hs, json.loads(r.stdout)))
        ctx.count("processes")
    for hs, res in results[1:]:
        for k, text, md in progs:
            if res[str(k)] != results[0][1][str(k)]:
                raise Violation(f"program {k} compiles to another instruction list under hash seed {hs} than under 0",
                                source=text)
            ctx.count("cross_process_comparisons")
    for _, t, _ in progs:
        ctx.distinct(t)
