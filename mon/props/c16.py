"""C16 Gerber builder."""
import math
import re

from mon import sem
from mon.harness import Violation, check, eq
from mon.img import compile_text, shapely_vm

ID = "C16"
LEVEL = "exploration"
TECHNIQUE = "reference-model monitor: emitted program, read by an independent Gerber reader, against the calls made"
LEVEL_NOTE = ("Every call on the real builder is recorded; the emitted text is read by a small Gerber reader of our own and "
              "the objects it finds, in order, with aperture, attributes, polarity and transformation, must be the ones "
              "requested; the rendered image is compared with the requested geometry as well. Sampled call sequences.")
RULE = ("random interleavings of pad definitions (all shapes, custom pads of all primitives, attributes set before and after "
        "use), pads, cut-outs, line and arc traces from points, pads and other traces, regions with arcs, intermediate "
        "get_code() calls and rejected calls. Distinct: emitted program.")
ASSUMPTIONS = ["coordinates fit the 4.6 format of the builder", "attributes of draws are set through their attributes field"]
QUICK, THOROUGH, TIMEOUT = 3000, 20000, 60

PRE = {"ADC": "C", "ADR": "R", "ADO": "O", "ADP": "P"}


class Reader:
    """What a program says: list of objects."""

    def __init__(self, text):
        self.out = []
        self.macros = {}
        self.aps = {}
        self.ta, self.to = {}, {}
        self.x = self.y = None
        self.st = dict(lp="D", lm="N", lr=0.0, ls=1.0)
        self.mode = None
        self.quad = None
        self.ap = None
        self.region = None
        self.fmt = self.unit = None
        self.ended = False
        for ext, words in tokens(text):
            check(not self.ended, "code after the end of the program")
            if ext and words[0].startswith("AM"):
                name = words[0][2:]
                check(name not in self.macros, f"macro {name} defined twice")
                self.macros[name] = [[float(v) for v in w.split(",")] for w in words[1:] if w]
                continue
            for w in words:
                self.word(w, ext)
        check(self.ended, "program has no end")

    def word(self, w, ext):
        if ext:
            return self.extended(w)
        m = re.fullmatch(r"G0*(4).*", w)
        if m and not w.startswith(("G1", "G2", "G3", "G5", "G7", "G9")) and re.match(r"G0*4(?!\d)", w):
            return
        m = re.fullmatch(r"G0*(\d+)", w)
        if m:
            n = int(m.group(1))
            if n in (1, 2, 3):
                self.mode = n
            elif n in (74, 75):
                self.quad = n
            elif n == 36:
                check(self.region is None, "nested region")
                self.region = []
            elif n == 37:
                self.out.append(dict(kind="region", contour=self.region, to=dict(self.to), **self.st))
                self.region = None
            else:
                raise Violation(f"unexpected command {w}")
            return
        if re.fullmatch(r"M0*2", w):
            self.ended = True
            return
        m = re.fullmatch(r"D0*(\d{2,})", w)
        if m:
            check("D" + m.group(1) in self.aps, f"aperture D{m.group(1)} selected but never defined")
            self.ap = "D" + m.group(1)
            return
        m = re.fullmatch(r"(?:X([+-]?\d+))?(?:Y([+-]?\d+))?(?:I([+-]?\d+))?(?:J([+-]?\d+))?D0*([123])", w)
        check(m, f"not a command: {w!r}")
        x, y, i, j = (None if g is None else int(g) / 1e6 for g in m.groups()[:4])
        d = int(m.group(5))
        check(self.fmt is not None and self.unit is not None, "operation before format and unit")
        x0, y0 = self.x, self.y
        x = x0 if x is None else x
        y = y0 if y is None else y
        check(x is not None and y is not None, "coordinate never set")
        self.x, self.y = x, y
        if d == 2:
            if self.region is not None:
                check(not self.region, "second contour in a region")
            return
        if d == 3:
            check(self.region is None, "flash in a region")
            check(self.ap, "flash without aperture")
            self.out.append(dict(kind="flash", ap=self.aps[self.ap], at=(x, y), to=dict(self.to), **self.st))
            return
        check(self.mode, "draw before its mode was set")
        seg = dict(begin=(x0, y0), end=(x, y), mode=self.mode)
        check(x0 is not None, "draw before a position was set")
        if self.mode != 1:
            check(self.quad == 75, "arc not in multi quadrant mode")
            check(i is not None or j is not None, "arc without centre")
            seg["center"] = (x0 + (i or 0), y0 + (j or 0))
        if self.region is not None:
            self.region.append(seg)
        else:
            check(self.ap, "draw without aperture")
            self.out.append(dict(kind="trace", ap=self.aps[self.ap], to=dict(self.to), **seg, **self.st))

    def extended(self, w):
        if w.startswith("FS"):
            eq(w, "FSLAX46Y46", "format")
            self.fmt = w
        elif w.startswith("MO"):
            eq(w, "MOMM", "unit")
            self.unit = w
        elif w.startswith("AD"):
            m = re.fullmatch(r"ADD0*(\d+)([A-Za-z_.$][\w.$]*)(?:,(.*))?", w)
            check(m, f"not an aperture definition: {w!r}")
            n, name, p = m.groups()
            check(int(n) >= 10, f"reserved aperture number {n}")
            check("D" + n not in self.aps, f"aperture D{n} defined twice")
            p = [float(v) for v in p.split("X")] if p else []
            if name in ("C", "R", "O", "P"):
                shape = (name, p)
            else:
                check(name in self.macros, f"macro {name} used but not defined")
                check(not p, "parameters for a macro without any")
                shape = ("M", self.macros[name])
            self.aps["D" + n] = (shape, dict(self.ta))
        elif w.startswith("LP"):
            self.st["lp"] = w[2:]
        elif w.startswith("LM"):
            self.st["lm"] = w[2:]
        elif w.startswith("LR"):
            self.st["lr"] = float(w[2:])
        elif w.startswith("LS"):
            self.st["ls"] = float(w[2:])
        elif w.startswith("TA"):
            f = w[2:].split(",")
            self.ta[f[0]] = f[1:]
        elif w.startswith("TO"):
            f = w[2:].split(",")
            self.to[f[0]] = f[1:]
        elif w == "TD":
            self.ta, self.to = {}, {}
        elif w.startswith("TD"):
            self.ta.pop(w[2:], None)
            self.to.pop(w[2:], None)
        else:
            raise Violation(f"unexpected command {w}")


def tokens(text):
    pos = 0
    ext = False
    text = text.replace("\r", "").replace("\n", "")
    for k, part in enumerate(text.split("%")):
        ext = k % 2 == 1
        part = part.strip()
        if not part:
            continue
        check(part.endswith("*"), f"unterminated command {part!r}")
        words = [w.strip() for w in part[:-1].split("*")]
        yield ext, words


def close(a, b, tol=2e-6):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(close(p, q, tol) for p, q in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return abs(a - b) <= tol


class Calls:
    def __init__(self, rng, ctx):
        from pygerber.builder.gerber import GerberX3Builder
        self.r, self.ctx = rng, ctx
        self.b = GerberX3Builder()
        self.pads = []       # (pad object, shape, attributes, geometry)
        self.want = []
        self.handles = []    # (draw, entry, begin or None, end) for chaining
        self.geo = []
        self.log = []
        self.palette = []
        self.widths = []
        self.sticky = self.r.choice([0, 0, 0.6, 0.85])

    def num(self, lo, hi):
        r = self.r
        v = r.randint(lo, hi) / 1000
        if r.random() < 0.15:
            v += r.choice([1e-12, -1e-12, 4e-17])
        return v

    def near(self, v):
        """a value close to one used before but not the same one"""
        return v + self.r.choice([-1, 1]) * self.r.choice([1e-5, 4e-5, 2e-4, 4e-4, 9e-4, 4e-3])

    def pos(self):
        r = self.r
        if r.random() < 0.1:
            return (r.randint(-9000, 9000) / 1.0, r.randint(-9999, 9999) + 0.5) if r.random() < 0.2 else (0.0, 0)
        return (r.choice([self.num(-8000, 8000), r.randint(-8, 8), r.randint(-80, 80) / 10]), self.num(-8000, 8000))

    def rotation(self):
        r = self.r
        return r.choice([0, 0.0, 90, 45, 30.5, -15, 180, 270.0, 359.9, r.randint(-3600, 3600) / 10])

    def hole(self, mx):
        return self.r.choice([None, None, self.num(100, max(101, int(mx * 600)))])

    def pad(self):
        import shapely as sh
        r = self.r
        pc = self.b.new_pad()
        k = r.choice("CROPM")
        if k == "C":
            d = self.num(300, 3000)
            h = self.hole(d)
            p = pc.circle(d, h) if r.random() < 0.5 else pc.circle(diameter=d, hole_diameter=h)
            shape = ("C", [d] + ([] if h is None else [h]))
            g = sem.disc(0, 0, d)
        elif k in "RO":
            w, hh = self.num(300, 3000), self.num(300, 3000)
            h = self.hole(min(w, hh))
            p = (pc.rectangle if k == "R" else pc.rounded_rectangle)(w, hh, h)
            shape = (k, [w, hh] + ([] if h is None else [h]))
            g = sem.aperture(k, [w * 1000, hh * 1000])
        elif k == "P":
            d, n, rot = self.num(500, 3000), r.randint(3, 12), self.rotation()
            h = self.hole(d * math.cos(math.pi / n))
            p = pc.regular_polygon(d, n, rot, h)
            shape = ("P", [d, n, rot] + ([] if h is None else [h]))
            g = sem.regular(0, 0, d, n, rot)
        if k != "M":
            if h is not None:
                g = g.difference(sem.disc(0, 0, h))
        else:
            c = pc.custom()
            if r.random() < 0.2:
                self.rejected(lambda: self.b.add_pad(c, (0, 0)), "NotAPadError")
            prims = []
            g = sh.Polygon()
            for _ in range(r.randint(1, 4)):
                on, prim = self.primitive(c, len(prims) == 0)
                prims.append(prim)
                gg, _ = sem.primitive(int(prim[0]), [v * 1000 for v in prim[1:]])
                g = sem.union(g, gg) if on else sem.minus(g, gg)
            p = c.create()
            if r.random() < 0.2:
                self.rejected(lambda: self.primitive(c, r.random() < 0.5), "RuntimeError")
                self.rejected(c.create, "RuntimeError")
            shape = ("M", prims)
        ent = [p, shape, {}, g]
        self.pads.append(ent)
        if r.random() < 0.4:
            self.pad_attr(ent)
        return ent

    def primitive(self, c, first):
        r = self.r
        on = first or r.random() < 0.7
        a = "add_" if on else "cut_"
        rot = self.rotation() if r.random() < 0.5 else 0.0
        kw = {"rotation": rot} if rot or r.random() < 0.5 else {}
        ctr = (r.choice([0, 0.0, self.num(-1500, 1500)]), self.num(-1500, 1500))
        k = r.choice([1, 20, 21, 4, 5, 7] if on else [1, 20, 21, 4, 5])
        e = 1 if on else 0
        if k == 1:
            d = self.num(300, 2500)
            ret = getattr(c, a + "circle")(d, ctr, **kw)
            prim = [1, e, d, *ctr, rot]
        elif k == 20:
            w = self.num(200, 1500)
            while True:
                q = (self.num(-1500, 1500), self.num(-1500, 1500))
                if math.dist(q, ctr) > 0.3:
                    break
            ret = getattr(c, a + "vector_line")(w, ctr, q, **kw)
            prim = [20, e, w, *ctr, *q, rot]
        elif k == 21:
            w, h = self.num(300, 2500), self.num(300, 2500)
            ret = getattr(c, a + "center_line")(w, h, ctr, **kw)
            prim = [21, e, w, h, *ctr, rot]
        elif k == 4:
            pts = [(x / 1000, y / 1000) for x, y in
                   sem.star(r, round(ctr[0] * 1000), round(ctr[1] * 1000), r.randint(3, 6), 500, 1600, 50)]
            ret = getattr(c, a + "outline")(pts, **kw)
            prim = ["outline", e, pts, rot]
            flat = [v for p in [pts[-1]] + pts for v in p]
            prim = [4, e, len(pts), *flat, rot]
        elif k == 5:
            n, d = r.randint(3, 12), self.num(500, 2500)
            ret = getattr(c, a + "polygon")(n, ctr, d, **kw)
            prim = [5, e, n, *ctr, d, rot]
        else:
            od = self.num(1500, 3000)
            idd = self.num(700, 1200)
            gap = self.num(200, 400)
            ret = c.add_thermal(ctr, od, idd, gap, **kw)
            prim = [7, *ctr, od, idd, gap, rot]
        check(ret is c, f"{k}: creator not returned")
        self.ctx.count(f"primitive_{k}_{'add' if on else 'cut'}")
        return on, prim

    def pad_attr(self, ent):
        from pygerber.gerber.ast.nodes import AperFunction
        r = self.r
        p, at = ent[0], ent[2]
        q = r.random()
        if q < 0.4:
            f = r.choice([AperFunction.SMDPad, AperFunction.ViaPad, AperFunction.Conductor, AperFunction.ComponentPad])
            p.set_aperture_function(f if r.random() < 0.5 else f.value)
            at[".AperFunction"] = [f.value]
        elif q < 0.6:
            a, b = self.num(1, 400), self.num(1, 400)
            p.set_drill_tolerance(a, b)
            at[".DrillTolerance"] = [a, b]
        else:
            n = r.choice(["Foo", "Bar_1", "x.y", "A"])
            v = [r.choice(["1", "abc", "two words", "-3.5", ""]) for _ in range(r.randint(1, 3))]
            p.set_custom_attribute(n, *v)
            at[n] = v

    def rejected(self, f, name):
        try:
            f()
        except Exception as e:
            names = [t.__name__ for t in type(e).__mro__]
            check(name in names, f"raised {type(e).__name__}, expected {name}")
            self.ctx.count("rejected_" + name)
        else:
            raise Violation(f"call accepted, expected {name}")

    def attrs(self, draw, ent):
        from pygerber.gerber.ast.nodes import TO_N, TO_UserName
        if self.r.random() < 0.3:
            v = self.r.choice(["Net1", "GND", "N$2"])
            draw.attributes.append(TO_N(net_names=[v]))
            ent["to"][".N"] = [v]
        if self.r.random() < 0.15:
            draw.attributes.append(TO_UserName(user_name="Mine", fields=["a", "b"]))
            ent["to"]["Mine"] = ["a", "b"]

    def add(self, draw, ent, geo, dark=True, begin=None, end=None):
        ent["to"] = {}
        self.want.append(ent)
        self.geo.append((dark, geo))
        self.handles.append((draw, ent, begin, end))
        if self.r.random() < 0.4:
            self.attrs(draw, ent)

    def settings(self, lp):
        r = self.r
        kw, st = {}, dict(lp=lp, lm="N", lr=0.0, ls=1.0)
        if r.random() < (0.9 if self.sticky else 0.5):
            if r.random() < 0.6:
                kw["rotation"] = st["lr"] = self.rotation()
                if self.palette and r.random() < 0.15:
                    kw["rotation"] = st["lr"] = self.near(r.choice(self.palette)[1]["lr"])
            mx, my = r.random() < 0.4, r.random() < 0.4
            if mx or my or r.random() < 0.5:
                kw.update(mirror_x=mx, mirror_y=my)
                st["lm"] = {(0, 0): "N", (1, 0): "X", (0, 1): "Y", (1, 1): "XY"}[mx, my]
            if r.random() < 0.5:
                kw["scale"] = st["ls"] = r.choice([0.5, 1, 1.0, 1.25, 2, 0.333])
                if r.random() < 0.15:
                    kw["scale"] = st["ls"] = self.near(r.choice(self.palette)[1]["ls"] if self.palette else 1)
        return kw, st

    def flash(self):
        r = self.r
        p = r.choice(self.pads)
        dark = r.random() < 0.7
        lp = "D" if dark else "C"
        if self.palette and r.random() < self.sticky:
            # Return to settings used before.
            kw, st = r.choice(self.palette)
            kw, st = dict(kw), dict(st, lp=lp)
        else:
            kw, st = self.settings(lp)
            self.palette = (self.palette + [(dict(kw), dict(st))])[-3:]
        at = self.pos()
        arg = at
        ends = [h for h in self.handles if h[1]["kind"] == "trace"]
        if ends and r.random() < 0.3:
            h = r.choice(ends)
            arg, at = h[0], h[3]
        d = (self.b.add_pad if dark else self.b.add_cutout_pad)(p[0], arg, **kw)
        g = sem.affine(p[3], sem.matrix(st["lm"], st["lr"], st["ls"], *at))
        self.add(d, dict(kind="flash", at=at, ap=("pad", self.pads.index(p)), **st), g, dark, at, at)

    def trace(self):
        import shapely as sh
        r = self.r
        w = r.choice([0.5, 1, 1.0, 0.25, self.num(200, 1200)])
        if self.widths and r.random() < 0.2:
            w = self.near(r.choice(self.widths))
        self.widths.append(w)
        begin = self.pos()
        arg = begin
        ok = [h for h in self.handles if h[1]["kind"] in ("trace", "flash")]
        if ok and r.random() < 0.5:
            h = r.choice(ok[-3:])
            arg, begin = h[0], h[3]
        elif self.handles and r.random() < 0.3:
            h = r.choice(self.handles[-2:])
            if h[3]:
                arg = begin = h[3] if r.random() < 0.6 else (self.near(h[3][0]), self.near(h[3][1]))
        st = dict(lp="D", lm="N", lr=0.0, ls=1.0)
        if r.random() < 0.55:
            end = self.pos()
            earg = end
            if ok and r.random() < 0.3:
                h = r.choice(ok)
                earg, end = h[0], h[2]
            d = self.b.add_line_trace(w, arg, earg)
            g = sh.LineString([begin, end]).buffer(w / 2, quad_segs=32) if begin != end else sem.disc(*begin, w)
            ent = dict(kind="trace", mode=1, begin=begin, end=end, ap=("trace", w), **st)
        else:
            a, b = r.randrange(12), r.randrange(12)
            k = r.randint(5, 30) / 10
            ux, uy = sem.DIRS[a]
            vx, vy = sem.DIRS[b]
            ctr = (begin[0] - ux * k, begin[1] - uy * k)
            end = (ctr[0] + vx * k, ctr[1] + vy * k) if a != b else begin
            cw = r.random() < 0.5
            f = self.b.add_clockwise_arc_trace if cw else self.b.add_counter_clockwise_arc_trace
            d = f(w, arg, end, ctr)
            g = sh.LineString(sem.arc_points(*begin, *end, ctr[0] - begin[0], ctr[1] - begin[1], cw)).buffer(w / 2, quad_segs=32)
            ent = dict(kind="trace", mode=2 if cw else 3, begin=begin, end=end, center=ctr, ap=("trace", w), **st)
        self.add(d, ent, g, True, begin, end)
        self.ctx.count("trace_mode_%d" % ent["mode"])

    def region(self):
        import shapely as sh
        r = self.r
        cx, cy = self.pos()
        if max(abs(cx), abs(cy)) > 9990:
            cx = cy = 0
        segs, pts = [], []
        if r.random() < 0.5:
            o = [(x / 1000, y / 1000) for x, y in sem.star(r, round(cx * 1000), round(cy * 1000), r.randint(3, 6), 600, 2500, 50)]
            for k, p in enumerate(o[1:]):
                segs.append(dict(mode=1, begin=o[k], end=p))
            if len(o) == 3 or r.random() < 0.5:
                segs.append(dict(mode=1, begin=o[-1], end=o[0]))
            pts = o
        else:
            k = r.randint(3, 9) / 10
            a = r.randrange(12)
            cw = r.random() < 0.5
            steps = r.choice([(4, 4, 4), (3, 6, 3), (2, 5, 5), (3, 3, 3)])
            P = lambda n: (cx + sem.DIRS[n % 12][0] * k, cy + sem.DIRS[n % 12][1] * k)
            at = a
            for s in steps:
                nx = at - s if cw else at + s
                p, q = P(at), P(nx)
                if (nx - a) % 12 == 0:
                    q = P(a)
                if r.random() < 0.75:
                    segs.append(dict(mode=2 if cw else 3, begin=p, end=q, center=(cx, cy)))
                    pts += sem.arc_points(*p, *q, cx - p[0], cy - p[1], cw)[:-1]
                else:
                    segs.append(dict(mode=1, begin=p, end=q))
                    pts.append(p)
                at = nx
            pts.append(segs[-1]["end"])
        first = segs[0]["begin"]
        c = self.b.new_region(first)
        done = []
        for s in segs:
            if len(done) < 3 and r.random() < 0.05:
                self.rejected(c.create, "InvalidRegionOutlineError")
            if s["mode"] == 1:
                ret = c.add_line(s["end"])
            elif s["mode"] == 2:
                ret = c.add_clockwise_arc(s["end"], s["center"])
            else:
                ret = c.add_counterclockwise_arc(s["end"], s["center"])
            check(ret is c, "creator not returned")
            done.append(s)
            self.ctx.count("region_segment_%d" % s["mode"])
            if r.random() < 0.08 and self.pads:
                self.flash()     # other objects may be added while the outline is being described
        if len(segs) < 3:
            segs.append(dict(mode=1, begin=segs[-1]["end"], end=first))
            c.add_line(first)
        d = c.create()
        if segs[-1]["end"] != first:
            segs.append(dict(mode=1, begin=segs[-1]["end"], end=first))
        g = sh.Polygon(pts).buffer(0)
        self.add(d, dict(kind="region", contour=segs, lp="D", lm="N", lr=0.0, ls=1.0), g, True, first, first)

    def verify(self, code, n=None):
        text = code.dumps()
        self.ctx.put(source=text)
        rd = Reader(text)
        want = self.want
        eq(len(rd.out), len(want), "number of objects")
        for k, (g, w) in enumerate(zip(rd.out, want)):
            self.one(k, g, w)
        # every pad that was made is defined, once, in the order made
        got = [a for a in rd.aps.values()]
        for j, (p, shape, at, _) in enumerate(self.pads):
            a = rd.aps.get(str(p.aperture_id))
            check(a is not None, f"pad {p.aperture_id} not defined")
            self.pad_same(a, shape, at, f"pad {j}")
        return text, got

    def pad_same(self, a, shape, at, what):
        (k, p), ta = a
        eq(k, shape[0], f"{what}: kind of shape")
        check(close(p, shape[1]) if k != "M" else len(p) == len(shape[1]) and all(close(x, y) for x, y in zip(p, shape[1])),
              f"{what}: shape {k} {p}, requested {shape[1]}")
        eq(sorted(ta), sorted(at), f"{what}: aperture attributes")
        for n, v in at.items():
            g = ta[n]
            if v and isinstance(v[0], float):
                g = [float(x) for x in g]
            check(close(g, v, 1e-6), f"{what}: attribute {n} {g}, requested {v}")

    def one(self, k, g, w):
        what = f"object {k}"
        eq(g["kind"], w["kind"], f"{what}: kind")
        for f in ("lp", "lm"):
            if f == "lm" and w["kind"] == "region":
                continue
            eq(g[f], w[f], f"{what}: {f}")
        if w["kind"] != "region":
            for f in ("lr", "ls"):
                check(close(g[f], w[f]), f"{what}: {f} {g[f]}, requested {w[f]}")
        eq(g["to"], w["to"], f"{what}: attributes")
        if w["kind"] == "flash":
            check(close(g["at"], w["at"]), f"{what}: at {g['at']}, requested {w['at']}")
            p = self.pads[w["ap"][1]]
            self.pad_same(g["ap"], p[1], p[2], what)
        elif w["kind"] == "trace":
            self.seg(g, w, what)
            (kk, p), ta = g["ap"]
            check(kk == "C" and close(p, [w["ap"][1]]), f"{what}: drawn with {kk} {p}, requested width {w['ap'][1]}")
            eq(ta, {}, f"{what}: aperture attributes")
        else:
            eq(len(g["contour"]), len(w["contour"]), f"{what}: segments")
            for i, (a, b) in enumerate(zip(g["contour"], w["contour"])):
                self.seg(a, b, f"{what} segment {i}")

    def seg(self, a, b, what):
        eq(a["mode"], b["mode"], f"{what}: interpolation")
        for f in ("begin", "end", "center"):
            check((f in a) == (f in b), f"{what}: {f}")
            if f in a:
                check(close(a[f], b[f]), f"{what}: {f} {a[f]}, requested {b[f]}")


def case(rng, ctx):
    c = Calls(rng, ctx)
    heavy = rng.random() < 0.4
    early = []
    for _ in range(rng.randint(2, 14)):
        q = rng.random()
        if q < 0.25 or not c.pads:
            c.pad()
        elif q < 0.5 or (heavy and q < 0.85):
            c.flash()
        elif q < 0.75:
            c.trace()
        elif q < 0.9:
            c.region()
        elif q < 0.95:
            c.pad_attr(rng.choice(c.pads))
        elif rng.random() < 0.5 and c.handles:
            h = rng.choice(c.handles)
            c.attrs(h[0], h[1])
        else:
            code = c.b.get_code()
            early.append((code, c.verify(code)[0]))
            ctx.count("intermediate_codes")
    code = c.b.get_code()
    text, _ = c.verify(code)
    eq(c.b.get_code().dumps(), text, "second get_code()")
    for k, t in early:
        eq(k.dumps(), t, "code taken earlier, after more calls")
    ext = [abs(v) for d, g in c.geo for v in (g.bounds or (0,))]
    if max(ext or [0]) < 100:
        if rng.random() < 0.6:
            want = sem.flatten(c.geo)
            res = shapely_vm(True).run(compile_text(text))
            d = sem.compare(res.shape, want, 7e-3, "image")
            if d:
                raise Violation(d)
            ctx.count("images")
    for w in c.want:
        ctx.count("objects_" + w["kind"])
    ctx.distinct(text)
    ctx.sample(text)
