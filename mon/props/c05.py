"""C05 graphics state tracking."""
from mon.harness import Violation
from mon.sem import Gen, trace, S

ID = "C05"
LEVEL = "exploration"
TECHNIQUE = "online trace monitor: operation callbacks and state snapshots against a reference interpreter"
LEVEL_NOTE = ("Every operation callback and every state snapshot taken between commands is compared with an independent "
              "reference interpreter of the same commands; histories are sampled. Trusts that reference.")
RULE = ("random command histories (apertures of every kind, selection, moves, draws, arcs in both quadrant modes, "
        "flashes, regions, polarity, mirroring, rotation, scaling, units, absolute and incremental notation, blocks, "
        "repeats, program stop) executed by the real interpreter with recording callbacks; the recorded trace and the "
        "state after every top-level command must equal the reference. Distinct: program text.")
ASSUMPTIONS = ["after a block or step-and-repeat ends the next operation gives both coordinates"]
QUICK, THOROUGH, TIMEOUT = 2400, 40000, 60


def chaos(g, n):
    """valid syntax, arbitrary order of settings"""
    r = g.r
    for _ in range(n):
        q = r.random()
        if q < 0.08 or not g.aps:
            g.ad(r.choice("CROP"))
        elif q < 0.11:
            g.admacro(*g.am())
        elif q < 0.25:
            g.select(r.choice(list(g.aps)))
        elif q < 0.33:
            g.setmode(r.choice([1, 2, 3]))
        elif q < 0.38:
            n_ = r.choice([74, 75])
            g.put(("g", n_), f"G{n_}*")
        elif q < 0.41:
            n_ = r.choice([70, 71])
            g.put(("g", n_), f"G{n_}*")
        elif q < 0.415 and g.stops and g.depth == 0:
            g.put(("stop",), r.choice(["M00*", "M02*"]))
        elif q < 0.44:
            n_ = r.choice([90, 91])
            g.notation = "A" if n_ == 90 else "I"
            g.put(("g", n_), f"G{n_}*")
        elif q < 0.56:
            if r.random() < 0.4:
                g.polarity()
            else:
                g.transform()
        elif q < 0.6 and g.depth < 2 and not g.inreg:
            if r.random() < 0.6 or g.depth:
                aid = g.new_id()
                body, text = g.nested(lambda: chaos(g, r.randint(1, 6)))
                g.put(("ab", aid, body), "\n".join([f"%AB{aid}*%"] + text + ["%AB*%"]))
                g.aps[aid] = ("B", None)
            else:
                body, text = g.nested(lambda: chaos(g, r.randint(1, 6)))
                g.put(("sr", 2, 3, 500, 700, body), "\n".join(["%SRX2Y3I.5J0.7*%"] + text + ["%SR*%"]))
        elif q < 0.66 and g.depth == 0:
            g.inreg = not g.inreg
            n_ = 36 if g.inreg else 37
            g.put(("g", n_), f"G{n_}*")
        else:
            d = r.choice([1, 1, 1, 2, 3])
            x, y = g.pos(), g.pos()
            if g.known and r.random() < 0.3:
                x = g.x
            if g.known and r.random() < 0.3:
                y = g.y
            i = j = None
            if d == 1 and g.mode != 1:
                i, j = r.choice([None, g.pos()]), r.choice([None, g.pos()])
            if d == 3 and (g.ap is None or g.inreg):
                d = 2
            gg = r.choice([1, 2, 3]) if d == 1 and r.random() < 0.15 else None
            if gg is not None:
                i, j = (None, None) if gg == 1 else (g.pos(), g.pos())
            g.op(d, x, y, i, j, g=gg)
    if g.depth == 0 and g.inreg:
        g.inreg = False
        g.put(("g", 37), "G37*")


def gen(rng):
    notation = "I" if rng.random() < 0.15 else "A"
    g = Gen(rng, kinds="CROP", transforms="MRS", macros=True, blocks=True, repeat=True, notation=notation,
            draw_kinds="CROP", free=True)
    g.xi = g.yi = 5
    g.inreg = False
    g.stops = rng.random() < 0.2
    g.header()
    if rng.random() < 0.3:
        g.known = True      # the first operation may leave out a coordinate: the plot starts at the origin
    if rng.random() < 0.75:
        chaos(g, rng.randint(5, 40))
    else:
        g.body(rng.randint(4, 15))
    if rng.random() < 0.8:
        g.end()
    return g


def recorder():
    from pygerber.gerber.ast.state_tracking_visitor import StateTrackingVisitor

    class Rec(StateTrackingVisitor):
        def __init__(self, **kw):
            self.rec = []
            super().__init__(**kw)

        def _do(self, kind, ij=False):
            e = dict(kind=kind, start=(self.state.current_x, self.state.current_y),
                     end=(self.coordinate_x, self.coordinate_y), **snap_t(self.state),
                     ap=self.state.current_aperture_id)
            if ij:
                e["ij"] = (self.coordinate_i, self.coordinate_j)
            self.rec.append(("do", e))

    def mk(kind, ij):
        def f(self, *a):
            self._do(kind, ij)
        return f

    for nm, kind in (("draw_line", "line"), ("draw_cw_arc_sq", "cw74"), ("draw_cw_arc_mq", "cw75"),
                     ("draw_ccw_arc_sq", "ccw74"), ("draw_ccw_arc_mq", "ccw75")):
        setattr(Rec, f"on_{nm}", mk(kind, "line" not in kind))
        setattr(Rec, f"on_in_region_{nm}", mk("region-" + kind, "line" not in kind))
    for nm, kind in (("circle", "C"), ("rectangle", "R"), ("obround", "O"), ("polygon", "P"), ("macro", "M"), ("block", "B")):
        def f(self, node, aperture, kind=kind):
            self._do("flash-" + kind)
            aid = aperture.open.aperture_id if kind == "B" else aperture.aperture_id
            if aid != self.state.current_aperture_id:
                raise Violation(f"flash of aperture {aid} while {self.state.current_aperture_id} is selected")
        setattr(Rec, f"on_flash_{nm}", f)

    def start(self):
        self.rec.append(("region-start",))
        super(Rec, self).on_start_region()

    def flush(self):
        self.rec.append(("contour-end", snap_t(self.state)["lp"]))
        super(Rec, self).on_flush_region()

    def end(self):
        self.rec.append(("region-end",))
        super(Rec, self).on_end_region()
    Rec.on_start_region, Rec.on_flush_region, Rec.on_end_region = start, flush, end
    return Rec


def snap_t(st):
    t = st.transform
    return dict(lp={"D": "D", "C": "C"}[t.polarity.value], lm=t.mirroring.value, lr=t.rotation, ls=t.scaling)


def close(a, b, eps=1e-9):
    if isinstance(a, tuple):
        return all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return a == b or abs(a - b) <= eps
    return a == b


def same(got, want):
    if len(got) != len(want) or got[0] != want[0]:
        return False
    if got[0] == "do":
        g, w = got[1], want[1]
        return set(g) == set(w) and all(close(g[k], w[k]) for k in w)
    return got == want


MODES = {"LINEAR": 1, "ARC": 2, "CCW_ARC": 3}


def snapshot(v):
    st = v.state
    return dict(unit={"METRIC": "mm", "IMPERIAL": "in"}[st.unit_mode.name], x=st.current_x, y=st.current_y,
                mode=MODES[st.plot_mode.value], quad=74 if "SINGLE" in st.arc_interpolation.value else 75,
                ap=st.current_aperture_id, region=st.is_region, **snap_t(st))


DEFAULT = {"OF": (None, 0.0), "SF": (None, 1.0)}


def image_case(rng, ctx):
    """deprecated image commands: each sets its own part of the state and nothing else"""
    from pygerber.gerber.parser import parse
    r = rng
    want = {}
    lines, states = [], []

    def num(lo, hi):
        return r.randint(lo, hi) / 1000

    for _ in range(r.randint(1, 12)):
        k = r.choice(["AS", "IN", "IP", "IR", "LN", "MI", "OF", "SF", "LP", "G"])
        if k == "AS":
            v = r.choice(["AXBY", "AYBX"])
            want["axis_correspondence"] = v
            lines.append(f"%AS{v}*%")
        elif k in ("IN", "LN"):
            v = "n%d" % r.randint(0, 99)
            want["image_name" if k == "IN" else "file_name"] = v
            lines.append(f"%{k}{v}*%")
        elif k == "IP":
            v = r.choice(["POS", "NEG"])
            want["polarity"] = v
            lines.append(f"%IP{v}*%")
        elif k == "IR":
            v = r.choice([0, 90, 180, 270])
            want["rotation"] = v
            lines.append(f"%IR{v}*%")
        elif k == "MI":
            a, b = r.randint(0, 1), r.randint(0, 1)
            want["a_axis_mirroring"], want["b_axis_mirroring"] = a, b
            lines.append(f"%MIA{a}B{b}*%")
        elif k in ("OF", "SF"):
            a, b = num(-5000, 5000) if k == "OF" else num(1, 5000), num(1, 5000)
            nm = "offset" if k == "OF" else "scale"
            part = r.choice(["AB", "AB", "A", "B"])
            # an axis left out takes the default, never an earlier value
            want[f"a_axis_{nm}"], want[f"b_axis_{nm}"] = (a if "A" in part else DEFAULT[k]), (b if "B" in part else DEFAULT[k])
            lines.append(f"%{k}" + (f"A{a}" if "A" in part else "") + (f"B{b}" if "B" in part else "") + "*%")
        elif k == "LP":
            lines.append("%LPC*%")
        else:
            lines.append(r.choice(["G01*", "G75*", "G04 x*", "G90*"]))
        states.append(dict(want))
    text = "\n".join(lines)
    ctx.put(source=text)
    v = recorder()()
    base = v.state.image_attributes.model_dump(mode="json")
    for node, w in zip(parse(text).nodes, states):
        node.visit(v)
        got = v.state.image_attributes.model_dump(mode="json")
        for key, g in got.items():
            e = w.get(key, base[key])
            if isinstance(e, tuple):
                if g not in e:
                    raise Violation(f"image attributes after {type(node).__name__}: {key} is {g!r}, expected one of {e!r}")
                continue
            if not (g == e or (isinstance(e, (int, float)) and isinstance(g, (int, float)) and close(float(g), float(e)))):
                raise Violation(f"image attributes after {type(node).__name__}: {key} is {g!r}, expected {e!r}")
        ctx.count("image_attribute_states")
    ctx.distinct(text)


def case(rng, ctx):
    if rng.random() < 0.06:
        return image_case(rng, ctx)
    from pygerber.gerber.parser import parse
    g = gen(rng)
    text = g.source()
    ctx.put(source=text)
    file = parse(text)
    ignore = g.stops or rng.random() < 0.1
    want, _ = trace(g.cmds, ignore_stop=ignore)
    Rec = recorder()
    v = Rec(ignore_program_stop=ignore)
    v.on_file(file)
    compare_trace(v.rec, want)
    ctx.count("operations_observed", len(want))
    for e in want:
        ctx.count("op_" + (e[1]["kind"] if e[0] == "do" else e[0]))

    # state after every command
    if len([c for c in g.cmds if c[0] == "stop"]) <= 1:
        v2 = Rec()
        s = S()
        kinds = {}
        nodes = list(file.nodes)
        k = 0
        for c in g.cmds:
            if c[0] == "stop":
                break
            # a combined command may be one or several nodes: the text tells how many
            trace([c], kinds, s, [])
            n = 2 if c[0] == "gop" else 1
            if c[0] == "sel":
                n = 1
            for _ in range(n):
                nodes[k].visit(v2)
                k += 1
                if type(nodes[k - 1]).__name__ == "G54" and type(nodes[k]).__name__ == "Dnn":
                    nodes[k].visit(v2)
                    k += 1
            if c[0] in ("fs", "am", "ad", "cm") and k < 3:
                continue
            got, ref = snapshot(v2), s.snap()
            for key in ref:
                if not close(got[key], ref[key]):
                    raise Violation(f"state after {c!r:.200}: {key} is {got[key]!r}, expected {ref[key]!r}")
            ctx.count("state_snapshots")
    ctx.distinct(text)
    ctx.sample(text)


def compare_trace(got, want):
    for n, (a, b) in enumerate(zip(got, want)):
        if not same(a, b):
            raise Violation(f"operation {n}: got {a}, expected {b}")
    if len(got) != len(want):
        extra = (got if len(got) > len(want) else want)[min(len(got), len(want))]
        raise Violation(f"{len(got)} operations, expected {len(want)}; first {'extra' if len(got) > len(want) else 'missing'}: {extra}")


def fixed():
    return ["stop-continues", "stop-ignored", "m00", "errors"]


def fixed_case(item, ctx):
    from pygerber.gerber.parser import parse
    Rec = recorder()
    head = "%FSLAX46Y46*%%MOMM*%%ADD10C,1*%D10*"
    ctx.distinct(item)
    if item in ("stop-continues", "stop-ignored", "m00"):
        m = "M00*" if item == "m00" else "M02*"
        text = head + "X1000000Y0D03*" + m + "X2000000Y0D03*"
        v = Rec(ignore_program_stop=item == "stop-ignored")
        v.on_file(parse(text))
        n = len([e for e in v.rec if e[0] == "do"])
        want = 2 if item == "stop-ignored" else 1
        if n != want:
            raise Violation(f"{item}: {n} operations executed, expected {want}", source=text)
    else:
        from pygerber.gerber.ast import errors as E
        for text, exc in [("%FSLAX46Y46*%%MOMM*%X0Y0D03*", E.ApertureNotSelectedError),
                          ("%FSLAX46Y46*%%MOMM*%D10*", E.ApertureNotFoundError),
                          ("%MOMM*%%ADD10C,1*%D10*X1Y1D03*", E.CoordinateFormatNotSetError)]:
            try:
                Rec().on_file(parse(text))
            except exc:
                ctx.count("documented_errors")
            else:
                raise Violation(f"no {exc.__name__} for {text!r}", source=text)
