"""Random instruction lists for the layer machine, with their meaning."""

import math

from mon import sem


def line(p, q):
    from pygerber.vm.commands import Line
    return Line.from_tuples(p, q)


def arc(p, q, c, cw):
    from pygerber.vm.commands import Arc
    from pygerber.vm.types import Vector
    return Arc(start=Vector.from_tuple(p), end=Vector.from_tuple(q), center=Vector.from_tuple(c), clockwise=cw)


def shape_of(r, span):
    """(segments, geometry, box or None if only bounded): raw segments, independent geometry"""
    import shapely as sh
    cx, cy = r.randint(-span, span) / 10, r.randint(-span, span) / 10
    kind = r.choice("ssspcbqnn")
    if kind in "sq":
        pts = [(x / 1000, y / 1000) for x, y in
               sem.star(r, round(cx * 1000), round(cy * 1000), r.randint(3, 7), 600, 3000, 50)]
        if r.random() < 0.5:
            pts.reverse()
        segs = [line(pts[i], pts[(i + 1) % len(pts)]) for i in range(len(pts))]
        if kind == "q":      # implicit closing, and gaps closed by straight lines
            segs = segs[:-1] if r.random() < 0.5 else segs[::2] if len(pts) % 2 == 0 else segs[:-1]
        g = sh.Polygon(pts)
        return segs, g, g.bounds
    if kind == "n":          # sector of an arbitrary, often very short or nearly full arc
        rad, t0 = r.uniform(0.3, 5), math.radians(r.choice([0, 90, 180, 270, r.uniform(0, 360)]))
        sw = math.radians(r.choice([r.uniform(0.3, 4), r.uniform(356, 359.7), r.uniform(4, 25), r.uniform(335, 356), r.uniform(20, 340), 90, 180, 270]))
        cw = r.random() < 0.5
        t1 = t0 - sw if cw else t0 + sw
        p = (cx + rad * math.cos(t0), cy + rad * math.sin(t0))
        q = (cx + rad * math.cos(t1), cy + rad * math.sin(t1))
        pts = [(cx + rad * math.cos(t0 + (t1 - t0) * i / 256), cy + rad * math.sin(t0 + (t1 - t0) * i / 256))
               for i in range(257)] + [(cx, cy)]
        segs = [arc(p, q, (cx, cy), cw), line(q, (cx, cy)), line((cx, cy), p)]
        return segs, sh.Polygon(pts).buffer(0), None
    k = r.randint(2, 10) / 10
    a = r.randrange(12)
    ux, uy = sem.DIRS[a]
    p = (cx + ux * k, cy + uy * k)
    if kind == "c":
        cw = r.random() < 0.5
        pts = sem.arc_points(*p, *p, -ux * k, -uy * k, cw)
        if r.random() < 0.5:
            o = (cx - ux * k, cy - uy * k)
            segs = [arc(p, o, (cx, cy), cw), arc(o, p, (cx, cy), cw)]
        else:
            segs = [arc(p, p, (cx, cy), cw)]
        return segs, sh.Polygon(pts), None
    b = (a + r.randint(2, 10)) % 12
    vx, vy = sem.DIRS[b]
    q = (cx + vx * k, cy + vy * k)
    cw = r.random() < 0.5
    pts = sem.arc_points(*p, *q, -ux * k, -uy * k, cw)
    segs = [arc(p, q, (cx, cy), cw)]
    if kind == "p":
        segs += [line(q, (cx, cy)), line((cx, cy), p)]
        pts = pts + [(cx, cy)]
    elif r.random() < 0.5:
        segs += [line(q, p)]
    return segs, sh.Polygon(pts).buffer(0), None


class Build:
    """Well-formed list of instructions and the area of every layer."""

    def __init__(self, rng, span=60):
        self.r, self.span = rng, span
        self.cmds = []
        self.layers = {}     # id -> (area, extent or None, origin)
        self.n = 0
        self.objs = []       # every object placed anywhere, for edges
        self.exact = True    # no arcs: extents are exact

    def start(self, lid, box, origin):
        from pygerber.vm.commands import StartLayer
        from pygerber.vm.types import Box, LayerID, Vector
        kw = {}
        if origin is not None:
            kw["origin"] = Vector(x=origin[0], y=origin[1])
        if box is not None:
            kw["box"] = Box(min_x=box[0], min_y=box[1], max_x=box[2], max_y=box[3])
        self.cmds.append(StartLayer(id=LayerID(id=lid), **kw))

    def layer(self, main, depth=0):
        from pygerber.vm.commands import EndLayer
        r = self.r
        import shapely as sh
        lid = "%main%" if main else r.choice(["L", "a b", "é", "%x"]) + str(self.n)
        self.n += 1
        origin = (0, 0) if main or r.random() < 0.5 else (r.randint(-20, 20) / 10, r.randint(-20, 20) / 10)
        box = None
        if r.random() < 0.25:
            m = self.span / 10 * 6 + 40
            box = (-m, -m - 1, m + 2, m)
        if main and r.random() < 0.5:
            box = None
        self.start(lid, box, None if origin == (0, 0) else origin)
        area, ext, parts = sh.Polygon(), None, []
        empty = not main and r.random() < 0.08
        many = r.random() < 0.01
        for _ in range(0 if empty else r.randint(100, 250) if many else r.randint(1, 5)):
            q = 0.9 if many and r.random() < 0.9 else r.random()
            dark = r.random() < 0.7
            if q < 0.2 and depth < 2:
                self.layer(False, depth + 1)       # nested definition
                continue
            done = [k for k in self.layers]
            if q < 0.5 and done:
                src = r.choice(done)
                a2, e2, o2, p2 = self.layers[src]
                c = (r.randint(-self.span, self.span) / 10, r.randint(-self.span, self.span) / 10)
                from pygerber.vm.commands import PasteLayer
                from pygerber.vm.types import LayerID, Vector
                kw = {} if dark and r.random() < 0.5 else {"is_negative": not dark}
                self.cmds.append(PasteLayer(source_layer_id=LayerID(id=src), center=Vector(x=c[0], y=c[1]), **kw))
                sh_ = (c[0] - o2[0], c[1] - o2[1])
                g = sem.shift(a2, *sh_)
                parts += [sem.shift(p, *sh_) for p in p2]
                e = None if e2 is None else (e2[0] + sh_[0], e2[1] + sh_[1], e2[2] + sh_[0], e2[3] + sh_[1])
            else:
                from pygerber.vm.commands import Shape
                segs, g, e = shape_of(r, self.span)
                if e is None:
                    self.exact = False
                    e = g.bounds
                self.cmds.append(Shape(commands=segs, is_negative=not dark))
                parts.append(g)
            area = sem.union(area, g) if dark else sem.minus(area, g)
            if e is not None:
                ext = e if ext is None else (min(ext[0], e[0]), min(ext[1], e[1]), max(ext[2], e[2]), max(ext[3], e[3]))
        self.cmds.append(EndLayer())
        if box is not None:
            ext = box
        self.layers[lid] = (area, ext, origin, parts)
        return lid

    def program(self):
        for _ in range(self.r.randint(0, 4)):
            self.layer(False)
        self.layer(True)
        self.area, self.ext, _, self.parts = self.layers["%main%"]
        from pygerber.vm.rvmc import RVMC
        return RVMC(commands=self.cmds)
