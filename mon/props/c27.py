"""C27 references to what is not defined are refused."""
from mon.harness import Violation, check, eq
from mon.img import compile_text
from mon.sem import Gen

ID = "C27"
LEVEL = "exploration"
TECHNIQUE = "fault-injection monitor: one dangling reference put into a valid program; error oracle on walking, compiling and rendering"
LEVEL_NOTE = ("Each valid program is accepted as it is; with one reference to something undefined added at a random place, every way "
              "of executing it must raise the documented error naming that reference, again on repetition, unless the program ended "
              "before. Programs, places and kinds of reference are sampled.")
RULE = ("random programs with blocks, step-and-repeat, regions, macros and ends of program in the middle; one of: unknown aperture, "
        "aperture used before its definition or inside its own definition, flash or draw without aperture, unknown macro (other "
        "case, defined later, never), coordinates before or without a format, coordinate longer than the format, at the top level or "
        "in nested bodies, before or after the end of the program. Distinct: program text.")
ASSUMPTIONS = ["draws without an aperture and macros are judged when compiling, which is where they are needed",
               "after a block or step-and-repeat ends the next operation gives both coordinates"]
QUICK, THOROUGH, TIMEOUT = 1500, 15000, 60


def base(r):
    g = Gen(r, kinds="CROP", transforms="MRS" if r.random() < 0.3 else "", macros=r.random() < 0.5, blocks=r.random() < 0.5,
            repeat=r.random() < 0.4, span=r.choice([2000, 6000]), max_arc=2)
    g.header()
    g.ad()
    g.body(r.choice([2, 4, 8, 14]))
    return g


def error_of(f):
    try:
        f()
    except Exception as e:
        return e
    return None


def tops(g):
    """where a command may be inserted at the top level: not inside a region"""
    ok, inreg = [], False
    for i, c in enumerate(g.cmds):
        if not inreg:
            ok.append(i)
        if c[0] == "g" and c[1] in (36, 37):
            inreg = c[1] == 36
    return ok + [len(g.cmds)]


def fresh(r, used):
    while True:
        d = f"D{r.choice([r.randint(10, 99), r.randint(10, 9999), 10 ** 6 + r.randint(0, 9)])}"
        if d not in used:
            return d


def all_ids(cmds):
    out = set()
    for c in cmds:
        if c[0] in ("ad", "ab"):
            out.add(c[1])
        if c[0] in ("ab", "sr"):
            out |= all_ids(c[-1])
    return out


def case(rng, ctx):
    r = rng
    g = base(r)
    txt = list(g.txt)
    cmds = list(g.cmds)
    sep = r.choice(["\n", "\n", "", "\r\n", " "])
    end = r.random() < 0.7
    valid = sep.join(txt + (["M02*"] if end else [])) + sep
    kind = r.choice(["aperture", "aperture", "late", "self", "flash", "draw", "macro", "macro", "format", "long", "nested", "nested"])
    first_op = next((i for i, c in enumerate(cmds) if c[0] in ("op", "gop", "ab", "sr")), len(cmds))
    first_sel = next((i for i, c in enumerate(cmds) if c[0] in ("sel", "ab", "sr")), len(cmds))
    need, walk = None, True
    at = r.choice([i for i in tops(g) if i >= 2])
    ids = all_ids(cmds)
    bad = fresh(r, ids)
    if kind == "aperture":
        new, need = f"{r.choice(['', '', 'G54'])}{bad}*", ("ApertureNotFoundError", "aperture_number", bad)
    elif kind == "late":
        new, need = f"{bad}*", ("ApertureNotFoundError", "aperture_number", bad)
        later = r.choice([i for i in tops(g) if i >= at])
        d = r.choice([f"%AD{bad}C,1*%", f"%AD{bad}R,1X2*%", f"%AB{bad}*%{sep}G04 x*{sep}%AB*%"])
        txt.insert(later, d)
    elif kind == "self":
        new, need = sep.join([f"%AB{bad}*%", f"{bad}*", "%AB*%"]), ("ApertureNotFoundError", "aperture_number", bad)
    elif kind in ("flash", "draw"):
        at = r.choice([i for i in tops(g) if 2 <= i <= first_sel])
        op = "D03*" if kind == "flash" else "X0Y0D02*" + sep + "X1Y1D01*"
        new = ("X0Y0" if kind == "flash" else "") + op
        if r.random() < 0.25:
            new = sep.join([f"%AB{bad}*%", new, "%AB*%"])
        need, walk = ("ApertureNotSelectedError", None, None), kind == "flash"
    elif kind == "macro":
        name = r.choice(["NOSUCH", "nosuch.x", "_m", "Zz9"])
        known = sorted(g.macros)
        if known and r.random() < 0.5:
            nm = r.choice(known)
            alt = nm.swapcase() if r.random() < 0.5 else nm + "x"
            if alt not in known and alt not in "CROP":
                name = alt
        new = f"%AD{bad}{name}{r.choice(['', ',1', ',1X2'])}*%"
        need, walk = ("MacroNotDefinedError", None, name), False
        if r.random() < 0.4:
            later = r.choice([i for i in tops(g) if i >= at])
            txt.insert(later, f"%AM{name}*{sep}1,1,1,0,0*%")
    elif kind == "format":
        k = next(i for i, c in enumerate(cmds) if c[0] == "fs")
        fs = txt[k]
        if first_op == len(cmds):
            return
        if r.random() < 0.3:                  # one word of coordinates decides
            w = r.choice(["X", "Y", "I", "J", "IJ"])
            op = "D02" if w in "XY" else "D01"
            c = "".join(a + str(r.randint(0, 99999)) for a in w)
            txt.insert(first_op, sep.join(["G75*", "G02*" if op == "D01" else "G01*", c + op + "*"]))
            cmds.insert(first_op, ("op",))
        new, need = None, ("CoordinateFormatNotSetError", None, None)
        if r.random() < 0.5:
            after = [i for i in tops(g) if i > first_op and i > k]
            if after:
                txt.insert(r.choice(after), fs)
        del txt[k]
        at = first_op - (1 if k < first_op else 0)
    elif kind == "long":
        ax = r.choice("XYIJ")
        n = (g.xi + g.xd if ax in "XI" else g.yi + g.yd) + r.randint(1, 3)
        v = "".join(r.choice("123456789") for _ in range(n))
        q = r.random()
        if q < 0.25:
            v = v[:r.randint(1, n)].rjust(n, "0")
        elif q < 0.4:
            v = v[:r.randint(1, n)].ljust(n, "0")
        elif q < 0.45:
            v = "0" * n
        v = r.choice(["", "-", "+"]) + v
        new = {"X": f"X{v}Y0D02*", "Y": f"X0Y{v}D02*", "I": f"G02X0Y0I{v}J0D01*", "J": f"G03X0Y0I0J{v}D01*"}[ax]
        need = ("PackedCoordinateTooLongError", "digits", v.lstrip("+-"))
        if ax in "XY" and r.random() < 0.3:
            new = r.choice([sep.join([f"%AB{bad}*%", new, "%AB*%"]), sep.join(["G36*", new, "G37*"]),
                            sep.join(["%SRX2Y2I1J1*%", new, "%SR*%"])])
    else:
        new, need = f"{bad}*", ("ApertureNotFoundError", "aperture_number", bad)
        how = r.choice(["AB", "SR", "AB-in-AB", "region"])
        if how == "AB":
            new = sep.join([f"%AB{fresh(r, ids | {bad})}*%", new, "%AB*%"])
        elif how == "SR":
            new = sep.join(["%SRX2Y2I1J1*%", new, "%SR*%"])
        elif how == "AB-in-AB":
            a = fresh(r, ids | {bad})
            new = sep.join([f"%AB{a}*%", f"%AB{fresh(r, ids | {bad, a})}*%", new, "%AB*%", "%AB*%"])
        else:
            new = sep.join(["G36*", new, "G37*"])
    stop = None
    if new is not None:
        txt.insert(at, new)
        if r.random() < 0.15:
            t = [i for i in range(2, at + 1)] if at > 2 else []
            ok = [i for i in t if i in set(tops(g))]
            if ok:
                stop = r.choice(ok)
                txt.insert(stop, r.choice(["M02*", "M00*"]))
    text = sep.join(txt + (["M02*"] if end else [])) + sep
    ctx.put(source=text, valid=valid, kind=kind)
    ctx.count(kind)
    ctx.distinct(text)
    ctx.sample(text)
    from pygerber.gerber.api import GerberFile
    from pygerber.gerber.ast.state_tracking_visitor import StateTrackingVisitor
    from pygerber.gerber.compiler import compile as compile_ast
    from pygerber.gerber.parser import parse
    ast = parse(text)
    e = error_of(lambda: compile_text(valid))
    if e is not None:
        raise Violation(f"valid program refused: {type(e).__name__}: {e}")
    ways = [("compiling", lambda: compile_ast(ast), True)]
    ways.append(("compiling again", lambda: compile_ast(ast), True))
    ways.append(("walking", lambda: StateTrackingVisitor().on_file(ast), walk))
    if r.random() < 0.3:
        f = GerberFile.from_str(text)
        ren = (lambda: f.render_with_shapely()) if r.random() < 0.5 else (lambda: f.render_with_pillow(dpmm=5))
        ways += [("rendering", ren, True), ("rendering again", ren, True)]
    if r.random() < 0.5 and stop is not None:
        ways.append(("walking past the end", lambda: StateTrackingVisitor(ignore_program_stop=True).on_file(ast), walk))
    for nm, fn, judged in ways:
        e = error_of(fn)
        judge(e, need if judged and (stop is None or nm == "walking past the end") else None, f"{kind}, {nm}")
        ctx.count("executions_judged")


def judge(e, need, what):
    if need is None:
        if e is not None:
            raise Violation(f"{what}: {type(e).__name__}: {e}, expected no error")
        return
    name, field, val = need
    check(e is not None, f"{what}: accepted, expected {name}")
    eq(type(e).__name__, name, f"{what}: error ({e})")
    if field == "aperture_number":
        eq(str(e.aperture_number), val, f"{what}: aperture reported")
    elif field == "digits":
        check(val in str(e), f"{what}: message {str(e)!r} does not name {val}")
    elif val is not None:
        check(val in str(e), f"{what}: message {str(e)!r} does not name {val!r}")
