"""Semantic generator and reference model of Gerber, independent of pygerber.

A program is a list of command tuples (what it means) and a text (what is given to the
code under test).  Lengths are integers in thousandths of the file unit, so every value
is exact in the text; the reference works with k/1000.
    ("unit", "mm"|"in")              ("am", name, prims)
    ("ad", id, kind, params)         kind C R O P or ("M", name)
    ("ab", id, cmds)                 ("sr", nx, ny, dx, dy, cmds)
    ("sel", id)                      ("op", 1|2|3, x, y, i, j)   absolute target
    ("g", n)                         ("lp", "D"|"C") ("lm", s) ("lr", deg) ("ls", f)
    ("t", kind, name, fields)        ("td", name|None)          ("stop",)
"""
from __future__ import annotations

import math
from decimal import Decimal

DIRS = [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)]


def dec(k, rng=None):
    """k/1000 as plain decimal text, with notation variants."""
    d = Decimal(k) / 1000
    s = format(d, "f")
    if "." in s:
        s = s.rstrip("0").rstrip(".")
    if s in ("-0", ""):
        s = "0"
    if rng is not None:
        r = rng.random()
        if r < 0.25:
            s = s + (".0" if "." not in s else "0")
        elif r < 0.35 and s.startswith("0."):
            s = s[1:]
        elif r < 0.4 and "." not in s:
            s = s + "."
    return s


def coord(k, xi, xd, zeros, rng=None):
    """k thousandths as a packed coordinate (xd >= 3)."""
    n = abs(k) * 10 ** (xd - 3)
    s = str(n).rjust(xi + xd, "0")
    assert len(s) == xi + xd, (k, xi, xd)
    if zeros == "L":
        t = s.lstrip("0") or "0"
        if rng is not None and rng.random() < 0.15:
            t = s[rng.randint(0, len(s) - len(t)):]
    elif zeros == "T":
        t = s.rstrip("0") or "0"
        if rng is not None and rng.random() < 0.15:
            t = s[:rng.randint(len(t), len(s))]
    else:
        t = s
    sign = "-" if k < 0 else ("+" if rng is not None and rng.random() < 0.05 else "")
    return sign + t


class Gen:
    """Random program builder.  Keeps the state a Gerber writer keeps."""

    def __init__(self, rng, *, arcs=True, regions=True, holes=True, kinds="CROP", polarity=True, transforms=(),
                 macros=False, blocks=False, repeat=False, unit=None, draw_kinds="C", zero=False, attrs=False,
                 span=12000, grid=100, sloppy=True, max_arc=4, notation="A", free=False):
        self.r = rng
        self.f = dict(arcs=arcs, regions=regions, holes=holes, kinds=kinds, polarity=polarity,
                      transforms=tuple(transforms), macros=macros, blocks=blocks, repeat=repeat,
                      draw_kinds=draw_kinds, zero=zero, attrs=attrs, free=free)
        self.span, self.grid, self.max_arc = span, grid, max_arc
        self.xi, self.xd = rng.randint(3, 6), rng.randint(3, 6)
        self.yi, self.yd = rng.randint(3, 6), rng.randint(3, 6)
        if rng.random() < 0.6:
            self.yi, self.yd = self.xi, self.xd
        self.zeros = "T" if rng.random() < 0.15 else "L"
        self.notation = notation
        self.unit = unit or ("in" if rng.random() < 0.15 else "mm")
        self.cmds = []
        self.txt = []
        self.x = self.y = 0        # writer's idea of the current point
        self.known = False         # current point defined for the reader
        self.mode = 1
        self.ap = None
        self.aps = {}              # id -> (kind, params)
        self.macros = {}
        self.next_id = 10
        self.depth = 0
        self.sloppy = sloppy
        self.lp, self.lm, self.lr, self.ls = "D", "N", 0, 1000

    # -- output ---------------------------------------------------------------
    def put(self, cmd, text):
        self.cmds.append(cmd)
        self.txt.append(text)

    def source(self, sep=None):
        sep = self.r.choice(["\n", "\n", "\n", "", "\r\n", "\n\n"]) if sep is None else sep
        return sep.join(self.txt) + sep

    # -- header -----------------------------------------------------------------
    def header(self):
        r = self.r
        fs = f"%FS{self.zeros}{self.notation}X{self.xi}{self.xd}Y{self.yi}{self.yd}*%"
        mo = "%MOMM*%" if self.unit == "mm" else "%MOIN*%"
        # the deprecated D codes G70/G71 say the same
        if r.random() < 0.08:
            mo = "G71*" if self.unit == "mm" else "G70*"
        if r.random() < 0.3:
            self.put(("unit", self.unit), mo)
            self.put(("fs",), fs)
        else:
            self.put(("fs",), fs)
            self.put(("unit", self.unit), mo)
        if r.random() < 0.5:
            self.put(("g", 1), "G01*")
        self.put(("g", 75), "G75*")
        if r.random() < 0.3:
            self.put(("lp", "D"), "%LPD*%")

    def comment(self):
        self.put(("cm",), r"G04 %s*" % self.r.choice(["comment", "X100Y100D01", "G36 D03", "note, more"]))

    # -- lengths -------------------------------------------------------------------
    def pos(self):
        s, g = self.span, self.grid
        return self.r.randint(-s // g, s // g) * g

    def size(self, lo=300, hi=3000):
        return self.r.randint(lo // 50, hi // 50) * 50

    # -- apertures --------------------------------------------------------------
    def new_id(self):
        r = self.r
        i = self.next_id
        self.next_id += r.choice([1, 1, 1, 2, 7, 90])
        return f"D{i}"

    def zid(self, aid):
        """the aperture number as it may be written"""
        return "D" + self.r.choice(["0", "00"]) + aid[1:] if self.r.random() < 0.03 else aid

    def ad(self, kind=None):
        r = self.r
        kind = kind or r.choice(self.f["kinds"])
        aid = self.new_id()
        hole = None

        def h(mx):
            if self.f["holes"] and r.random() < 0.3:
                if r.random() < 0.1:
                    return 0
                return max(100, (r.randint(20, 70) * mx // 100) // 50 * 50)
            return None

        if kind == "C":
            if self.f["zero"] and r.random() < 0.2:
                p = [0]
            else:
                p = [self.size()]
                hole = h(p[0])
        elif kind == "R" or kind == "O":
            p = [self.size(), self.size()]
            if r.random() < 0.15:
                p[1] = p[0]
            elif r.random() < 0.08:           # long and thin
                p = [r.randint(5, 7) * 50, r.randint(160, 260) * 50]
                r.shuffle(p)
            hole = h(min(p))
        elif kind == "P":
            p = [self.size(600), r.randint(3, 12) * 1000]
            rot = r.choice([None, 0, 15000, 45000, 90000, -30000, 200000, 359000, r.randint(-360, 360) * 1000])
            hole = h(p[0] // 3)
            if hole and r.random() < 0.4:     # reaches past the sides, the corners stay
                hole = p[0] * r.randint(40, 90) // 100 // 50 * 50
            if rot is not None or hole is not None:
                p.append(rot or 0)
        if hole is not None:
            p.append(hole)
        body = "X".join(dec(v, r) if not (kind == "P" and j == 1) else str(v // 1000) for j, v in enumerate(p))
        self.put(("ad", aid, kind, p), f"%AD{self.zid(aid)}{kind},{body}*%")
        self.aps[aid] = (kind, p)
        return aid

    # -- macros ------------------------------------------------------------------
    def am(self, name=None, prims=None):
        r = self.r
        name = name or r.choice(["M", "Box", "THERM", "a.b", "_x", "R0"]) + str(len(self.macros))
        pool = Params(r)
        prims = prims if prims is not None else [self.prim(pool) for _ in range(r.randint(1, 4))]
        if not any(p[0] in (6, 7) or p[1][0] != 0 for p in prims):
            prims.insert(0, self.prim(pool, force_on=True))
        lines = []
        for code, args in prims:
            if r.random() < 0.1:
                lines.append("0 comment*")
            texts = []
            for j, a in enumerate(args):
                if code == 4 and j == 1:
                    texts.append(str(a // 1000))
                else:
                    texts.append(pool.express(a, lines))
            lines.append(",".join([str(code)] + texts) + "*")
        self.macros[name] = (prims, pool.params)
        self.put(("am", name, prims), f"%AM{name}*\n" + "\n".join(lines) + "%")
        return name, pool

    def admacro(self, name, pool):
        aid = self.new_id()
        ps = "X".join(dec(v, self.r) for v in pool.params)
        self.put(("ad", aid, "M", name), f"%AD{self.zid(aid)}{name}{',' + ps if ps else ''}*%")
        self.aps[aid] = ("M", name)
        return aid

    def prim(self, pool, force_on=False, codes=(1, 20, 2, 21, 22, 4, 5, 6, 7)):
        r = self.r
        e = 1000 if force_on or r.random() < 0.75 else 0
        rot = r.choice([0, 0, 0, 90000, 30000, -45000, 180000, r.randint(-360, 360) * 1000])
        c = lambda: r.randint(-20, 20) * 100  # noqa: E731
        code = r.choice(codes)
        if code == 1:
            a = [e, self.size(), c(), c()]
            if r.random() < 0.6:
                a.append(rot)
        elif code in (2, 20):
            while True:
                p = (c(), c())
                q = (c(), c())
                if math.dist(p, q) >= 400:
                    break
            a = [e, self.size(300, 1500), *p, *q, rot]
        elif code in (21, 22):
            a = [e, self.size(), self.size(), c(), c(), rot]
        elif code == 4:
            pts = star(r, c(), c(), r.randint(3, 7), 500, 2500, 50)
            a = [e, len(pts) * 1000]
            for p in pts + pts[:1]:
                a += list(p)
            a.append(rot)
        elif code == 5:
            a = [e, r.randint(3, 12) * 1000, c(), c(), self.size(600), rot]
        elif code == 6:
            od = r.randint(20, 50) * 100
            a = [c(), c(), od, r.randint(2, 6) * 100, r.randint(2, 6) * 100, r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6]) * 1000,
                 r.choice([0, 100, 200, 300]), r.choice([0, od, od + 1000]), rot]
        elif code == 7:
            od = r.randint(15, 50) * 100
            idd = r.choice([od * r.randint(3, 8) // 10 // 50 * 50, 0]) if r.random() < 0.3 else od * r.randint(3, 8) // 10 // 50 * 50
            gap = min(r.randint(2, 5) * 100, od // 4 // 50 * 50)
            if r.random() < 0.25:       # wide gaps, up to leaving nothing
                gap = od * r.choice([30, 40, 50, 60, 65, 71, 80, 100, 120]) // 100
            a = [c(), c(), od, idd, gap, rot]
        return (code, a)

    # -- operations ----------------------------------------------------------------
    def op(self, d, x, y, i=None, j=None, g=None):
        """One operation; coordinates equal to the current point may be left out."""
        r = self.r
        s = ""
        if self.notation == "I":
            vx, vy = x - self.x, y - self.y
        else:
            vx, vy = x, y
        om = 0.5 if self.sloppy and self.known else 0.0
        if x != self.x or r.random() >= om:
            s += "X" + coord(vx, self.xi, self.xd, self.zeros, r)
        if y != self.y or r.random() >= om:
            s += "Y" + coord(vy, self.yi, self.yd, self.zeros, r)
        if i is not None and (i != 0 or r.random() < 0.7):
            s += "I" + coord(i, self.xi, self.xd, self.zeros, r)
        if j is not None and (j != 0 or r.random() < 0.7):
            s += "J" + coord(j, self.yi, self.yd, self.zeros, r)
        code = f"D0{d}" if r.random() < 0.9 else f"D{d}"
        pre = ""
        if g is not None:
            pre = f"G0{g}"
            self.mode = g
        self.put(("op", d, x, y, i, j) if g is None else ("gop", g, d, x, y, i, j), f"{pre}{s}{code}*")
        self.x, self.y = x, y
        self.known = True

    def setmode(self, g):
        if self.mode != g or self.r.random() < 0.2:
            self.mode = g
            self.put(("g", g), self.r.choice([f"G0{g}*", f"G0{g}*", f"G{g}*"]))

    def move(self, x, y):
        if (x, y) == (self.x, self.y) and self.known and self.r.random() < 0.5:
            return
        self.op(2, x, y)

    def line_to(self, x, y):
        if self.r.random() < 0.1:
            self.op(1, x, y, g=1)
            return
        self.setmode(1)
        self.op(1, x, y)

    def arc(self, cx, cy, k, a, b, cw):
        """arc about (cx, cy), radius 5k, from direction a to direction b; pen is at its start"""
        ux, uy = DIRS[a]
        vx, vy = DIRS[b]
        self.setmode(2 if cw else 3)
        self.op(1, cx + vx * k, cy + vy * k, -ux * k, -uy * k)

    def arc_at(self, cx, cy, k, a, b, cw):
        ux, uy = DIRS[a]
        self.move(cx + ux * k, cy + uy * k)
        self.arc(cx, cy, k, a, b, cw)

    def free_arc(self, cx, cy):
        """(start, end, clockwise) of an arc about (cx, cy) with any end points, some almost closed or very short"""
        r = self.r
        rad = r.randint(500, self.max_arc * 1000)
        a = r.uniform(0, 2 * math.pi)
        cw = r.random() < 0.5
        q = r.random()
        if q < 0.35:
            sweep = r.randint(6, 60) / rad               # end a few hundredths away from the start
        elif q < 0.7:
            sweep = 2 * math.pi - r.randint(6, 60) / rad
        else:
            sweep = r.uniform(0.3, 6.0)
        p = (cx + round(rad * math.cos(a)), cy + round(rad * math.sin(a)))
        b = a - sweep if cw else a + sweep
        e = (cx + round(rad * math.cos(b)), cy + round(rad * math.sin(b)))
        if math.dist(p, e) < 3:
            return self.free_arc(cx, cy)
        return p, e, cw

    def arc_free(self, p, e, c, cw):
        self.setmode(2 if cw else 3)
        self.op(1, *e, c[0] - p[0], c[1] - p[1])

    def select(self, aid):
        r = self.r
        if self.ap == aid and r.random() < 0.7:
            return
        self.ap = aid
        self.put(("sel", aid), ("G54" if r.random() < 0.1 else "") + self.zid(aid) + "*")

    def usable(self, kinds):
        return [a for a, (k, _) in self.aps.items() if k in kinds]

    def draw(self):
        r = self.r
        c = [a for a in self.usable(self.f["draw_kinds"])]
        if not c:
            c = [self.ad("C")]
        self.select(r.choice(c))
        what = r.random()
        if self.f["arcs"] and what < 0.45:
            if self.f["free"] and r.random() < 0.3:
                c = self.pos(), self.pos()
                p, e, cw = self.free_arc(*c)
                self.move(*p)
                self.arc_free(p, e, c, cw)
                return
            k = r.randint(1, self.max_arc * 2) * 100
            a, b = r.randrange(12), r.randrange(12)
            if r.random() < 0.1:
                b = a
            self.arc_at(self.pos(), self.pos(), k, a, b, r.random() < 0.5)
        else:
            if not self.known or r.random() < 0.6:
                self.move(self.pos(), self.pos())
            for _ in range(r.randint(1, 3)):
                x, y = self.pos(), self.pos()
                q = r.random()
                if q < 0.2:
                    x = self.x
                elif q < 0.4:
                    y = self.y
                elif q < 0.47:
                    x, y = self.x, self.y
                self.line_to(x, y)

    def flash(self, kinds="CROPMB"):
        r = self.r
        c = self.usable(kinds)
        if not c:
            c = [self.ad()]
        self.select(r.choice(c))
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            x, y = self.pos(), self.pos()
            q = r.random()
            if q < 0.15 and self.known:
                x = self.x
            elif q < 0.3 and self.known:
                y = self.y
            self.op(3, x, y)

    def region(self):
        r = self.r
        self.put(("g", 36), "G36*")
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            self.contour()
        self.put(("g", 37), "G37*")

    def contour(self):
        r = self.r
        cx, cy = self.pos(), self.pos()
        what = r.choice("spcrbd") if self.f["arcs"] else "s"
        if what == "s":
            pts = star(r, cx, cy, r.randint(3, 8), 800, 4000, self.grid)
            if r.random() < 0.5:
                pts.reverse()
            self.move_always(*pts[0])
            for p in pts[1:] + pts[:1]:
                self.line_to(*p)
        elif what == "p" and self.f["free"] and r.random() < 0.4:
            p, e, cw = self.free_arc(cx, cy)
            self.move_always(cx, cy)
            self.line_to(*p)
            self.arc_free(p, e, (cx, cy), cw)
            self.line_to(cx, cy)
        elif what == "p":      # pie slice
            k = r.randint(2, self.max_arc * 2) * 100
            a = r.randrange(12)
            b = r.choice([d for d in range(12) if d != a])
            cw = r.random() < 0.5
            self.move_always(cx, cy)
            self.line_to(cx + DIRS[a][0] * k, cy + DIRS[a][1] * k)
            self.arc(cx, cy, k, a, b, cw)
            self.line_to(cx, cy)
        elif what == "c":      # full circle by one arc
            k = r.randint(2, self.max_arc * 2) * 100
            a = r.randrange(12)
            self.move_always(cx + DIRS[a][0] * k, cy + DIRS[a][1] * k)
            self.arc(cx, cy, k, a, a, r.random() < 0.5)
        elif what in "rb":     # stadium / bitten rectangle
            k = r.randint(2, 6) * 100
            w = r.randint(2, 8) * 500
            rr = 5 * k
            bite = what == "b"
            self.move_always(cx - w, cy - rr)
            self.line_to(cx + w, cy - rr)
            self.arc(cx + w, cy, k, 9, 3, bite and w > rr)
            self.line_to(cx - w, cy + rr)
            self.arc(cx - w, cy, k, 3, 9, False)
        else:                   # chord segment, closed by a line
            k = r.randint(3, self.max_arc * 2) * 100
            a = r.randrange(12)
            b = (a + r.choice([3, 4, 5, 6, 7, 8, 9])) % 12
            self.move_always(cx + DIRS[a][0] * k, cy + DIRS[a][1] * k)
            self.arc(cx, cy, k, a, b, r.random() < 0.5)
            self.line_to(cx + DIRS[a][0] * k, cy + DIRS[a][1] * k)

    def move_always(self, x, y):
        self.op(2, x, y)

    # -- settings -------------------------------------------------------------------
    def polarity(self, p=None):
        p = p or self.r.choice("DC")
        self.lp = p
        self.put(("lp", p), f"%LP{p}*%")

    def transform(self):
        r = self.r
        what = r.choice(self.f["transforms"])
        if what == "M":
            v = r.choice(["N", "X", "Y", "XY"])
            self.lm = v
            self.put(("lm", v), f"%LM{v}*%")
        elif what == "R":
            v = r.choice([0, 90, 180, 270, 45, 30, -30, 10, 360, r.randint(-360, 360),
                          self.lr + r.choice([1, -1, 2, 3, -4, 5]), r.randint(-360, 360) + 0.5])
            self.lr = v
            self.put(("lr", v), f"%LR{dec(int(v * 1000), r)}*%")
        else:
            v = r.choice([1000, 500, 2000, 1500, 750, 1250, min(2500, max(500, self.ls + r.choice([20, 40, -30, 90, -80])))])
            self.ls = v
            self.put(("ls", v), f"%LS{dec(v, r)}*%")

    def neutral(self):
        """Return to default transformation."""
        if self.lm != "N":
            self.lm = "N"
            self.put(("lm", "N"), "%LMN*%")
        if self.lr != 0:
            self.lr = 0
            self.put(("lr", 0), "%LR0*%")
        if self.ls != 1000:
            self.ls = 1000
            self.put(("ls", 1000), "%LS1.0*%")

    # -- nesting -----------------------------------------------------------------------
    def nested(self, fill):
        sc, st = self.cmds, self.txt
        self.cmds, self.txt = [], []
        self.known = False
        self.depth += 1
        fill()
        self.depth -= 1
        self.known = False
        body, text = self.cmds, self.txt
        self.cmds, self.txt = sc, st
        return body, text

    def block(self, n=None):
        aid = self.new_id()
        body, text = self.nested(lambda: self.body(n or self.r.randint(1, 4)))
        self.put(("ab", aid, body), "\n".join([f"%AB{self.zid(aid)}*%"] + text + ["%AB*%"]))
        self.aps[aid] = ("B", None)
        return aid

    def sr(self, n=None):
        r = self.r
        nx, ny = r.randint(1, 3), r.randint(1, 3)
        if r.random() < 0.06:
            nx, ny = r.choice([(1, 11), (12, 1), (10, 2), (4, 6)])
        dx, dy = r.randint(0, 60) * 100, r.randint(0, 60) * 100
        dx, dy = (-dx if r.random() < 0.15 else dx), (-dy if r.random() < 0.15 else dy)
        body, text = self.nested(lambda: self.body(n or r.randint(1, 3), sr=True))
        self.put(("sr", nx, ny, dx, dy, body),
                 "\n".join([f"%SRX{nx}Y{ny}I{dec(dx, r)}J{dec(dy, r)}*%"] + text + ["%SR*%"]))

    def body(self, n, sr=False):
        r = self.r
        f = self.f
        for _ in range(n):
            q = r.random()
            if q < 0.12:
                self.ad()
            elif q < 0.14:
                self.comment()
            elif q < 0.24 and f["polarity"]:
                self.polarity()
            elif q < 0.36 and f["transforms"]:
                self.transform()
            elif q < 0.42 and f["macros"]:
                self.admacro(*self.am())
            elif q < 0.5 and f["blocks"] and self.depth < 2:
                self.block()
            elif q < 0.58 and f["repeat"] and self.depth == 0:
                self.sr()
            elif q < 0.7 and f["regions"]:
                self.region()
            elif q < 0.85:
                self.draw()
            else:
                self.flash()

    def end(self):
        self.put(("stop",), "M02*")


class Params:
    """Turns literal macro arguments to equivalent expressions over parameters."""

    def __init__(self, rng):
        self.r = rng
        self.params = []
        self.assigned = 0

    def express(self, v, lines):
        r = self.r
        q = r.random()
        if q < 0.6:
            return dec(v, r) if v >= 0 or r.random() < 0.9 else "-" + dec(-v)
        if q < 0.75 and len(self.params) < 9:
            self.params.append(v)
            return f"${len(self.params)}"
        if q < 0.83 and len(self.params) < 9:
            d = r.randint(-20, 20) * 100
            self.params.append(v - d)
            return f"${len(self.params)}+{dec(d)}" if d >= 0 else f"${len(self.params)}-{dec(-d)}"
        if q < 0.9:
            d = r.randint(1, 20) * 100
            return f"{dec(v + d)}-{dec(d)}" if v + d >= 0 else f"0-{dec(-v)}"
        if q < 0.95 and v % 2 == 0 and v >= 0:
            return f"2x{dec(v // 2)}"
        # a variable defined just before
        self.assigned += 1
        n = 20 + self.assigned
        lines.append(f"${n}={dec(v)}*" if v >= 0 else f"${n}=0-{dec(-v)}*")
        return f"${n}"


def star(r, cx, cy, n, lo, hi, g):
    """star-shaped simple polygon around (cx, cy) on the grid"""
    while True:
        ang = sorted(r.uniform(0, 2 * math.pi) for _ in range(n))
        gaps = [(ang[(i + 1) % n] - ang[i]) % (2 * math.pi) for i in range(n)]
        if max(gaps) > 2.6 or min(gaps) < 0.35:
            if n <= 3 or r.random() < 0.9:
                ang = [2 * math.pi * (i + r.uniform(-0.2, 0.2)) / n for i in range(n)]
        pts = []
        for a in ang:
            d = r.uniform(lo, hi)
            pts.append((cx + round(d * math.cos(a) / g) * g, cy + round(d * math.sin(a) / g) * g))
        if len(set(pts)) == n and abs(area(pts)) > 300 * 300 and simple(pts):
            return pts


def area(p):
    return sum(p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1] for i in range(len(p))) / 2


def simple(pts):
    from shapely.geometry import Polygon
    pg = Polygon(pts)
    return pg.is_valid and pg.buffer(-100).geom_type == "Polygon" and not pg.buffer(-100).is_empty


# ------------------------------------------------------------------------------------
# reference trace
# ------------------------------------------------------------------------------------
class S:
    def __init__(self):
        self.unit = "mm"
        self.x = self.y = 0
        self.mode = 1
        self.quad = 74
        self.ap = None
        self.lp, self.lm, self.lr, self.ls = "D", "N", 0, 1000
        self.region = False
        self.fresh = True
        self.stopped = False

    def snap(self):
        return dict(unit=self.unit, x=self.x / 1000, y=self.y / 1000, mode=self.mode, quad=self.quad, ap=self.ap,
                    lp=self.lp, lm=self.lm, lr=float(self.lr), ls=self.ls / 1000, region=self.region)


def trace(cmds, kinds=None, s=None, out=None, ignore_stop=False):
    """Ordered operations a reader performs (block and repeat contents once, in place)."""
    s = s or S()
    out = [] if out is None else out
    kinds = {} if kinds is None else kinds
    for c in cmds:
        t = c[0]
        if s.stopped:
            break
        if t == "gop":
            s.mode = c[1]
            c = ("op",) + tuple(c[2:])
            t = "op"
        if t == "unit":
            s.unit = c[1]
        elif t == "ad":
            kinds[c[1]] = c[2]
        elif t == "ab":
            trace(c[2], kinds, s, out, ignore_stop)
            kinds[c[1]] = "B"
        elif t == "sr":
            trace(c[5], kinds, s, out, ignore_stop)
        elif t == "sel":
            s.ap = c[1]
        elif t == "lp":
            s.lp = c[1]
        elif t == "lm":
            s.lm = c[1]
        elif t == "lr":
            s.lr = c[1]
        elif t == "ls":
            s.ls = c[1]
        elif t == "g":
            n = c[1]
            if n in (1, 2, 3):
                s.mode = n
            elif n in (74, 75):
                s.quad = n
            elif n == 36:
                s.region = True
                out.append(("region-start",))
            elif n == 37:
                out.append(("contour-end", s.lp))
                s.region = False
                out.append(("region-end",))
            elif n == 70:
                s.unit = "in"
            elif n == 71:
                s.unit = "mm"
        elif t == "stop":
            s.stopped = not ignore_stop
        elif t == "op":
            _, d, x, y, i, j = c
            common = dict(start=(s.x / 1000, s.y / 1000), end=(x / 1000, y / 1000), lp=s.lp, lm=s.lm,
                          lr=float(s.lr), ls=s.ls / 1000, ap=s.ap)
            if d == 1:
                k = ("region-" if s.region else "") + {1: "line", 2: f"cw{s.quad}", 3: f"ccw{s.quad}"}[s.mode]
                e = dict(kind=k, **common)
                if s.mode != 1:
                    e["ij"] = ((i or 0) / 1000, (j or 0) / 1000)
                out.append(("do", e))
            elif d == 3:
                out.append(("do", dict(kind="flash-" + kinds[s.ap], **common)))
            elif d == 2 and s.region:
                out.append(("contour-end", s.lp))
            s.x, s.y = x, y
    return out, s


# ------------------------------------------------------------------------------------
# reference image
# ------------------------------------------------------------------------------------
def _geo():
    import shapely as sh
    from shapely import affinity
    return sh, affinity


def ok(g):
    """g, made valid if rounding of shifted or turned coordinates broke it"""
    return g if g.is_valid else g.buffer(0)


def _robust(f, *gs):
    sh, _ = _geo()
    try:
        return f(*gs)
    except sh.errors.GEOSException:
        return f(*[ok(sh.set_precision(ok(g), 1e-9)) for g in gs])


def union(*gs):
    sh, _ = _geo()
    return _robust(lambda *a: sh.unary_union(a), *gs)


def minus(a, b):
    return _robust(lambda p, q: p.difference(q), a, b)


def xor(a, b):
    return _robust(lambda p, q: p.symmetric_difference(q), a, b)


def common(a, b):
    return _robust(lambda p, q: p.intersection(q), a, b)


def shift(g, dx, dy):
    return ok(_geo()[1].translate(g, dx, dy))


def affine(g, m):
    return ok(_geo()[1].affine_transform(g, m))


Q = 32  # segments per quarter circle in the reference


def disc(x, y, d):
    sh, _ = _geo()
    if d <= 0:
        return sh.Polygon()
    return sh.Point(x, y).buffer(d / 2, quad_segs=Q)


def rect(x, y, w, h):
    sh, _ = _geo()
    return sh.box(x - w / 2, y - h / 2, x + w / 2, y + h / 2)


def regular(x, y, d, n, rot):
    sh, _ = _geo()
    return sh.Polygon([(x + d / 2 * math.cos(math.radians(rot + 360 * i / n)),
                        y + d / 2 * math.sin(math.radians(rot + 360 * i / n))) for i in range(n)])


def rot0(g, deg):
    _, af = _geo()
    return ok(af.rotate(g, deg, origin=(0, 0))) if deg else g


def aperture(kind, p):
    sh, _ = _geo()
    p = [v / 1000 for v in p]
    if kind == "C":
        g, n = disc(0, 0, p[0]), 1
    elif kind == "R":
        g, n = rect(0, 0, p[0], p[1]), 2
    elif kind == "O":
        w, h = p[:2]
        n = 2
        m = min(w, h) / 2
        if w == h:
            g = disc(0, 0, w)
        elif w > h:
            g = sh.LineString([(-w / 2 + m, 0), (w / 2 - m, 0)]).buffer(m, quad_segs=Q)
        else:
            g = sh.LineString([(0, -h / 2 + m), (0, h / 2 - m)]).buffer(m, quad_segs=Q)
    elif kind == "P":
        g, n = regular(0, 0, p[0], round(p[1]), p[2] if len(p) > 2 else 0), 3
    if len(p) > n and p[n] > 0:
        g = g.difference(disc(0, 0, p[n]))
    return g


def primitive(code, a):
    """(geometry, exposure)"""
    sh, _ = _geo()
    a = [v / 1000 for v in a]
    if code == 1:
        return rot0(disc(a[2], a[3], a[1]), a[4] if len(a) > 4 else 0), a[0] != 0
    if code in (2, 20):
        g = sh.LineString([(a[2], a[3]), (a[4], a[5])]).buffer(a[1] / 2, cap_style="flat")
        return rot0(g, a[6]), a[0] != 0
    if code == 21:
        return rot0(rect(a[3], a[4], a[1], a[2]), a[5]), a[0] != 0
    if code == 22:
        return rot0(rect(a[3] + a[1] / 2, a[4] + a[2] / 2, a[1], a[2]), a[5]), a[0] != 0
    if code == 4:
        n = round(a[1])
        pts = [(a[2 + 2 * i], a[3 + 2 * i]) for i in range(n + 1)]
        return rot0(sh.Polygon(pts), a[-1]), a[0] != 0
    if code == 5:
        return rot0(regular(a[2], a[3], a[4], round(a[1]), 0), a[5]), a[0] != 0
    if code == 6:
        x, y, od, rt, gap, n, ct, cl, rot = a
        parts = []
        if ct > 0 and cl > 0:
            parts += [rect(x, y, cl, ct), rect(x, y, ct, cl)]
        d = od
        for _ in range(round(n)):
            if d <= 1e-9:
                break
            g = disc(x, y, d)
            inner = d - 2 * rt
            if inner > 1e-9:
                g = g.difference(disc(x, y, inner))
            parts.append(g)
            d -= 2 * (rt + gap)
        return rot0(sh.unary_union(parts), rot), True
    if code == 7:
        x, y, od, idd, gap, rot = a
        g = disc(x, y, od)
        if idd > 0:
            g = g.difference(disc(x, y, idd))
        g = g.difference(rect(x, y, gap, 4 * od)).difference(rect(x, y, 4 * od, gap))
        return rot0(g, rot), True
    raise ValueError(code)


def macro(prims):
    sh, _ = _geo()
    acc = sh.Polygon()
    for code, a in prims:
        g, on = primitive(code, a)
        acc = union(acc, g) if on else minus(acc, g)
    return acc


def arc_points(x0, y0, x1, y1, i, j, cw):
    cx, cy = x0 + i, y0 + j
    r = math.hypot(i, j)
    a0 = math.atan2(-j, -i)
    if (x0, y0) == (x1, y1):
        sweep = 2 * math.pi
    else:
        a1 = math.atan2(y1 - cy, x1 - cx)
        sweep = (a0 - a1) % (2 * math.pi) if cw else (a1 - a0) % (2 * math.pi)
    n = max(8, int(sweep / (2 * math.pi) * 4 * Q * 2))
    sg = -1 if cw else 1
    pts = [(cx + r * math.cos(a0 + sg * sweep * k / n), cy + r * math.sin(a0 + sg * sweep * k / n)) for k in range(n + 1)]
    pts[0], pts[-1] = (x0, y0), (x1, y1)
    return pts


def matrix(lm, lr, ls, dx, dy):
    """mirror, then rotate, then scale, then shift: shapely affine [a b d e x y]"""
    mx, my = (-1 if "X" in lm else 1), (-1 if "Y" in lm else 1)
    t = math.radians(lr)
    c, s, k = math.cos(t), math.sin(t), ls
    return [k * c * mx, -k * s * my, k * s * mx, k * c * my, dx, dy]


class Image:
    """Object stream of a program: list of (dark, geometry).

    With edges=True the parts of macros follow their flash as (None, geometry): they do not
    count for the image, only as places where edges of objects lie."""

    def __init__(self, edges=False):
        self.edges = edges
        self.aps = {}
        self.macros = {}
        self.rmax = 0.0
        self.size = 0

    def objects(self, cmds, s=None):
        sh, af = _geo()
        s = s or S()
        out = []
        contour = []
        for c in cmds:
            t = c[0]
            if s.stopped:
                break
            if t == "gop":
                s.mode = c[1]
                c = ("op",) + tuple(c[2:])
                t = "op"
            if t == "am":
                self.macros[c[1]] = c[2]
            elif t == "ad":
                if c[2] == "M":
                    pr = self.macros[c[3]]
                    self.aps[c[1]] = macro(pr)
                    for code, a in pr:
                        self.rmax = max(self.rmax, 3.0)
                    if self.edges:
                        self.aps[c[1], "parts"] = [primitive(code, a)[0] for code, a in pr]
                else:
                    self.aps[c[1]] = aperture(c[2], c[3])
                    self.rmax = max(self.rmax, max(v for v in c[3][:2]) / 2000)
                    self.aps[c[1], "d"] = c[3][0] / 1000
            elif t == "ab":
                sub = self.objects(c[2], s)
                self.aps[c[1]] = sub
            elif t == "sr":
                sub = self.objects(c[5], s)
                for ix in range(c[1]):
                    for iy in range(c[2]):
                        for dark, g in sub:
                            out.append((dark, shift(g, ix * c[3] / 1000, iy * c[4] / 1000)))
            elif t == "sel":
                s.ap = c[1]
            elif t in ("lp", "lm", "lr", "ls"):
                setattr(s, t, c[1])
            elif t == "g":
                n = c[1]
                if n in (1, 2, 3):
                    s.mode = n
                elif n in (74, 75):
                    s.quad = n
                elif n == 36:
                    s.region, contour = True, []
                elif n == 37:
                    self.flush(out, contour, s)
                    s.region, contour = False, []
            elif t == "stop":
                s.stopped = True
            elif t == "op":
                _, d, x, y, i, j = c
                p0, p1 = (s.x / 1000, s.y / 1000), (x / 1000, y / 1000)
                ij = ((i or 0) / 1000, (j or 0) / 1000)
                if d == 1:
                    if s.mode == 1:
                        pts = [p0, p1]
                    else:
                        pts = arc_points(*p0, *p1, *ij, s.mode == 2)
                        self.rmax = max(self.rmax, math.hypot(*ij) + 1.5)
                    if s.region:
                        if not contour:
                            contour.append(p0)
                        contour += pts[1:]
                    else:
                        w = self.aps[s.ap, "d"] * s.ls / 1000
                        if w > 0:
                            if p0 == p1 and s.mode == 1:
                                g = disc(*p0, w)
                            else:
                                g = sh.LineString(pts).buffer(w / 2, quad_segs=Q)
                            out.append((s.lp == "D", g))
                            self.rmax = max(self.rmax, w / 2)
                elif d == 3:
                    m = matrix(s.lm, s.lr, s.ls / 1000, *p1)
                    ap = self.aps[s.ap]
                    self.rmax = max(self.rmax, 3.0 * s.ls / 1000)
                    if isinstance(ap, list):
                        for dark, g in ap:
                            out.append((None if dark is None else dark == (s.lp == "D"), affine(g, m)))
                    else:
                        out.append((s.lp == "D", affine(ap, m)))
                        for g in self.aps.get((s.ap, "parts"), ()):
                            out.append((None, affine(g, m)))
                elif d == 2 and s.region:
                    self.flush(out, contour, s)
                    contour = []
                s.x, s.y = x, y
        return out

    def flush(self, out, contour, s):
        sh, _ = _geo()
        if len(contour) > 2:
            out.append((s.lp == "D", sh.Polygon(contour).buffer(0)))


def flatten(objs):
    sh, _ = _geo()
    acc, pend = sh.Polygon(), []
    for dark, g in objs:
        if dark is None:
            continue
        if dark:
            pend.append(g)
        else:
            if pend:
                acc = union(acc, *pend)
                pend = []
            acc = minus(acc, g)
    if pend:
        acc = union(acc, *pend)
    return acc


def bounds(objs):
    """extent of everything drawn, dark or clear"""
    b = [o.bounds for d, o in objs if d is not None and not o.is_empty]
    if not b:
        return None
    return (min(v[0] for v in b), min(v[1] for v in b), max(v[2] for v in b), max(v[3] for v in b))


def compare(got, want, tol, what="image"):
    """None, or a description of an area where the two differ by more than tol."""
    d = xor(got, want)
    e = d.buffer(-tol)
    if e.is_empty:
        return None
    p = e.representative_point()
    inside = want.contains(p)
    return (f"{what}: area {e.area:.4f} differs around ({p.x:.3f}, {p.y:.3f}), "
            f"{'missing' if inside else 'extra'}; got area {got.area:.4f}, expected {want.area:.4f}")
