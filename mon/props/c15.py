"""C15 vectors, matrices, boxes, segments, shapes."""
import math

from mon import sem
from mon.harness import Violation, check

ID = "C15"
LEVEL = "exploration"
TECHNIQUE = "algebraic-law monitor: geometry operations against independent arithmetic and sampled points of the shapes"
LEVEL_NOTE = ("Results of every operation are compared with independently computed coordinates; boxes are checked against "
              "densely sampled points of the segments they describe. Operands are sampled, with degenerate and axis cases.")
RULE = ("random and special (axis-parallel, zero, tiny, huge, equal) operands for vectors, matrices and boxes; arcs of "
        "every start, end and direction; every shape constructor; similarity transforms of them. Distinct: operands.")
ASSUMPTIONS = ["magnitudes between 1e-9 and 1e9", "the box of an arc may also cover the centre of the arc (an existing test "
               "prescribes it), so tightness is judged against arc and centre together"]
QUICK, THOROUGH, TIMEOUT = 80000, 600000, 30


def num(r):
    q = r.random()
    if q < 0.15:
        return 0.0
    if q < 0.3:
        return float(r.randint(-5, 5))
    if q < 0.36:
        return r.choice([-1, 1]) * 10.0 ** r.randint(-9, 9)
    return r.uniform(-10, 10)


def close(a, b, scale=1.0, eps=1e-9):
    return abs(a - b) <= eps * max(1.0, abs(a), abs(b), scale)


def vec(got, want, what, scale=1.0):
    if not (close(got.x, want[0], scale) and close(got.y, want[1], scale)):
        raise Violation(f"{what}: ({got.x}, {got.y}), expected {want}")


def case(rng, ctx):
    k = rng.choice(["vector", "angle", "matrix", "box", "arc", "arc", "shape", "path"])
    ctx.count(k)
    globals()[k](rng, ctx)


def vector(r, ctx):
    from pygerber.vm.types import Vector
    a, b = (num(r), num(r)), (num(r), num(r))
    if r.random() < 0.1:
        b = a
    s = r.choice([2, -3, 0.5, 1, num(r)])
    ctx.put(a=str(a), b=str(b), s=s)
    ctx.distinct("v", a, b, s)
    ctx.sample(str((a, b, s)))
    u, v = Vector.from_tuple(a), Vector(x=b[0], y=b[1])
    check(u.xy == a, "xy")
    vec(u + v, (a[0] + b[0], a[1] + b[1]), "u+v")
    vec(u - v, (a[0] - b[0], a[1] - b[1]), "u-v")
    vec(u * v, (a[0] * b[0], a[1] * b[1]), "u*v")
    vec(u * s, (a[0] * s, a[1] * s), "u*s")
    vec(u + s, (a[0] + s, a[1] + s), "u+s")
    vec(u - s, (a[0] - s, a[1] - s), "u-s")
    vec(-u, (-a[0], -a[1]), "-u")
    if s:
        vec(u / s, (a[0] / s, a[1] / s), "u/s")
    if b[0] and b[1]:
        vec(u / v, (a[0] / b[0], a[1] / b[1]), "u/v", abs(a[0] / b[0]) + abs(a[1] / b[1]))
    check((u == v) == (a == b), "==")
    check((u < v) == (a[0] < b[0] and a[1] < b[1]), "<")
    check((u > v) == (a[0] > b[0] and a[1] > b[1]), ">")
    check((u <= v) == (a[0] <= b[0] and a[1] <= b[1]), "<=")
    check((u >= v) == (a[0] >= b[0] and a[1] >= b[1]), ">=")
    check(close(u.length(), math.hypot(*a)), f"length {u.length()}")
    if a != (0, 0):
        n = u.normalized()
        check(close(n.length(), 1), f"normalized length {n.length()}")
        vec(n, (a[0] / math.hypot(*a), a[1] / math.hypot(*a)), "normalized")
    check(u.xy == a and v.xy == b, "operands changed")


def angle(r, ctx):
    from pygerber.vm.types import Vector
    a, b = (num(r), num(r)), (num(r), num(r))
    q = r.random()
    if q < 0.1:
        b = a
    elif q < 0.2:
        b = (-a[0], -a[1])
    elif q < 0.3:
        b = (a[0], a[1] * (1 + r.choice([-1, 1]) * 1e-15))
    elif q < 0.4:
        a, b = (1.0, 0.0), (1.0, r.choice([-1, 1]) * 10.0 ** -r.randint(8, 40))
    if a == (0, 0) or b == (0, 0):
        return
    ctx.put(a=str(a), b=str(b))
    ctx.distinct("a", a, b)
    u, v = Vector.from_tuple(a), Vector.from_tuple(b)
    cc, cw = u.angle_between_cc(v), u.angle_between(v)
    want = math.degrees(math.atan2(b[1], b[0]) - math.atan2(a[1], a[0])) % 360
    check(0 <= cc < 360 and 0 <= cw < 360, f"angles {cc}, {cw} outside [0, 360)")
    check(min(abs(cc - want), 360 - abs(cc - want)) < 1e-5, f"counter clockwise angle {cc}, expected {want}")
    check(min(abs(cw + cc), abs(cw + cc - 360)) < 1e-6, f"clockwise {cw} and counter clockwise {cc} do not add up")


def mat(r):
    """(real matrix, 2x3 numbers, similarity?)"""
    from pygerber.vm.types import Matrix3x3 as M
    k = r.choice("trms")
    if k == "t":
        x, y = num(r), num(r)
        return M.new_translate(x, y), ((1, 0, x), (0, 1, y))
    if k == "r":
        d = r.choice([0, 90, 180, 270, 45, -90, 360, r.uniform(-720, 720)])
        c, s = math.cos(math.radians(d)), math.sin(math.radians(d))
        return M.new_rotate(d), ((c, -s, 0), (s, c, 0))
    if k == "m":
        x, y = r.random() < 0.5, r.random() < 0.5
        return M.new_reflect(x=x, y=y), ((-1 if x else 1, 0, 0), (0, -1 if y else 1, 0))
    x = r.choice([1, 2, 0.5, 0.1, r.uniform(0.1, 5)])
    y = x if r.random() < 0.7 else r.uniform(0.1, 5)
    return M.new_scale(x, y), ((x, 0, 0), (0, y, 0))


def ap(m, p):
    return (m[0][0] * p[0] + m[0][1] * p[1] + m[0][2], m[1][0] * p[0] + m[1][1] * p[1] + m[1][2])


def mul(a, b):
    b3 = (*b, (0, 0, 1))
    return tuple(tuple(sum((*a, (0, 0, 1))[i][k] * b3[k][j] for k in range(3)) for j in range(3)) for i in range(2))


def matrix(r, ctx):
    from pygerber.vm.types import Vector
    ms = [mat(r) for _ in range(r.randint(1, 4))]
    p = (num(r), num(r))
    ctx.put(p=str(p), ms=str([m for _, m in ms]))
    ctx.distinct("m", p, tuple(m for _, m in ms))
    real, ref = ms[0]
    for m, w in ms[1:]:
        real, ref = real @ m, mul(ref, w)
    scale = max(abs(v) for row in ref for v in row) * (1 + abs(p[0]) + abs(p[1]))
    vec(real @ Vector.from_tuple(p), ap(ref, p), "product of matrices applied", scale)
    vec(Vector.from_tuple(p).transform(real), ap(ref, p), "transform", scale)
    v = Vector.from_tuple(p)
    for m, w in reversed(ms):
        v = v.transform(m)
    vec(v, ap(ref, p), "applied one by one", scale)
    for i in range(2):
        for j in range(3):
            check(close(real[i][j], ref[i][j], scale), f"element {i},{j} is {real[i][j]}, expected {ref[i][j]}")
    check(tuple(real[2]) == (0, 0, 1), f"last row {real[2]}")
    # equal transforms have equal tags, different ones different tags
    a, b = ms[0][0], mat(r)[0]
    check((a.tag == b.tag) == (str(a) == str(b)), "tags do not identify matrices")


def box(r, ctx):
    from pygerber.vm.types import Box, Vector
    pts = [(num(r), num(r)) for _ in range(r.randint(1, 5))]
    qts = [(num(r), num(r)) for _ in range(r.randint(1, 5))]
    d = (num(r), num(r))
    ctx.put(pts=str(pts), qts=str(qts), d=str(d))
    ctx.distinct("b", tuple(pts), tuple(qts), d)

    def ext(ps):
        return (min(p[0] for p in ps), min(p[1] for p in ps), max(p[0] for p in ps), max(p[1] for p in ps))

    def same(b, e, what):
        got = (b.min_x, b.min_y, b.max_x, b.max_y)
        sc = max(abs(v) for v in e)
        if not all(close(x, y, sc) for x, y in zip(got, e)):
            raise Violation(f"{what}: {got}, expected {e}")

    a, b = Box.from_vectors(*(Vector.from_tuple(p) for p in pts)), Box.from_vectors(*(Vector.from_tuple(p) for p in qts))
    e, f = ext(pts), ext(qts)
    same(a, e, "from_vectors")
    same(a + b, ext(pts + qts), "union")
    same(b + a, ext(pts + qts), "union, swapped")
    same(Box() + a, e, "union with the empty box")
    v = Vector.from_tuple(d)
    same(a + v, (e[0] + d[0], e[1] + d[1], e[2] + d[0], e[3] + d[1]), "shift")
    same(a - v, (e[0] - d[0], e[1] - d[1], e[2] - d[0], e[3] - d[1]), "shift back")
    c = a
    c += b
    same(c, ext(pts + qts), "+=")
    c = a
    c -= v
    same(c, (e[0] - d[0], e[1] - d[1], e[2] - d[0], e[3] - d[1]), "-=")
    check(close(a.width, e[2] - e[0]) and close(a.height, e[3] - e[1]), f"size {a.width} x {a.height} of {e}")
    vec(a.center, ((e[0] + e[2]) / 2, (e[1] + e[3]) / 2), "center", max(abs(x) for x in e))
    w, h = abs(num(r)), abs(num(r))
    same(Box.from_center_width_height(d, w, h), (d[0] - w / 2, d[1] - h / 2, d[0] + w / 2, d[1] + h / 2),
         "from_center_width_height")
    same(a, e, "operand changed")


def arc_pts(p, q, c, cw, n=96):
    return sem.arc_points(p[0], p[1], q[0], q[1], c[0] - p[0], c[1] - p[1], cw)


def arc(r, ctx):
    from pygerber.vm.commands import Arc, Line
    c = (r.uniform(-5, 5), r.uniform(-5, 5)) if r.random() < 0.7 else (0.0, 0.0)
    rad = r.choice([1.0, 2.0, r.uniform(0.05, 8)])
    sp = [0, 90, 180, 270, 45, 1, 359, r.uniform(0, 360)]
    a, b = r.choice(sp), r.choice(sp)
    if r.random() < 0.2:
        b = a + r.choice([1e-3, -1e-3, 1, -1, 180, 90])
    cw = r.random() < 0.5
    d = lambda t: (c[0] + rad * math.cos(math.radians(t)), c[1] + rad * math.sin(math.radians(t)))  # noqa: E731
    p, q = d(a), d(b)
    if a == b:
        q = p
    ctx.put(start=str(p), end=str(q), center=str(c), cw=cw)
    ctx.distinct("arc", p, q, c, cw)
    s = Arc.from_tuples(p, q, c, clockwise=cw)
    if r.random() < 0.2:
        s = Line.from_tuples(p, q)
        pts = [p, q]
        extra = []
    else:
        pts = arc_pts(p, q, c, cw)
        extra = [c]
    segment(s, pts, extra, ctx)
    if isinstance(s, Arc):
        vec(s.get_relative_start_point(), (p[0] - c[0], p[1] - c[1]), "start relative to the centre")
        vec(s.get_relative_end_point(), (q[0] - c[0], q[1] - c[1]), "end relative to the centre")
        check(close(s.get_radius(), rad), f"radius {s.get_radius()}, expected {rad}")
        # exactly representable ends at equal distances, and ends at clearly different distances
        i, j = r.sample(range(12), 2)
        z = (float(r.randint(-9, 9)), float(r.randint(-9, 9)))
        f, g = 2.0 ** r.randint(-3, 3), 2.0 ** r.randint(-3, 3)
        u, v = sem.DIRS[i], sem.DIRS[j]
        x = Arc.from_tuples((z[0] + u[0] * f, z[1] + u[1] * f), (z[0] + v[0] * g, z[1] + v[1] * g), z, clockwise=cw)
        check(x.is_valid_arc() == (f == g), f"radii {5 * f} and {5 * g}: is_valid_arc is {x.is_valid_arc()}")
    # transformation of the segment is the transformation of its points
    m, w = mat(r)
    for _ in range(r.randint(0, 2)):
        m2, w2 = mat(r)
        m, w = m2 @ m, mul(w2, w)
    det = w[0][0] * w[1][1] - w[0][1] * w[1][0]
    sim = abs(w[0][0] ** 2 + w[1][0] ** 2 - w[0][1] ** 2 - w[1][1] ** 2) < 1e-9 * abs(det) and \
        abs(w[0][0] * w[0][1] + w[1][0] * w[1][1]) < 1e-9 * abs(det)
    if isinstance(s, Arc) and not sim:
        return
    big = max(abs(v) for row in w for v in row)
    if big > 1e4 or abs(det) < 1e-6:
        return
    t = s.transform(m)
    vec(t.start, ap(w, p), "transformed start", big * 20)
    vec(t.end, ap(w, q), "transformed end", big * 20)
    tp = [ap(w, x) for x in pts]
    if isinstance(s, Arc):
        vec(t.center, ap(w, c), "transformed centre", big * 20)
        check(t.clockwise == (cw if det > 0 else not cw), f"direction after transform with determinant {det}")
    segment(t, tp, [ap(w, x) for x in extra], ctx, big)
    segment(s, pts, extra, ctx)
    ctx.count("transformed_segments")


def segment(s, pts, extra, ctx, big=1.0):
    b = s.outer_box
    eps = 1e-6 * max(1, big)
    for x, y in pts:
        if not (b.min_x - eps <= x <= b.max_x + eps and b.min_y - eps <= y <= b.max_y + eps):
            raise Violation(f"box {b} does not contain point ({x}, {y}) of {s}")
    al = pts + extra
    e = (min(p[0] for p in al), min(p[1] for p in al), max(p[0] for p in al), max(p[1] for p in al))
    slack = 2e-3 * max(1e-3, e[2] - e[0], e[3] - e[1]) + eps
    if b.min_x < e[0] - slack or b.min_y < e[1] - slack or b.max_x > e[2] + slack or b.max_y > e[3] + slack:
        raise Violation(f"box {b} of {s} is larger than its extent {e}")
    ctx.count("points_in_box", len(pts))


def path(r, ctx):
    """Contours of lines and arcs, closed and open: the box contains all of them and little else."""
    from pygerber.vm.commands import Arc, Line, Shape
    p = p0 = (r.randint(-50, 50) / 10, r.randint(-50, 50) / 10)
    segs, pts, cen, desc = [], [], [], []
    n = r.randint(1, 6)
    for i in range(n):
        if r.random() < 0.55:
            q = p0 if i == n - 1 and i and r.random() < 0.4 else (
                p[0] + r.randint(-40, 40) / 10, p[1] + r.randint(-40, 40) / 10)
            segs.append(Line.from_tuples(p, q))
            pts += [p, q]
            desc.append(("l", p, q))
        else:
            rad = r.randint(2, 30) / 10
            a, b = r.uniform(0, 360), r.uniform(0, 360)
            c = (p[0] - rad * math.cos(a), p[1] - rad * math.sin(a))
            q = (c[0] + rad * math.cos(b), c[1] + rad * math.sin(b)) if r.random() < 0.85 else p
            cw = r.random() < 0.5
            segs.append(Arc.from_tuples(p, q, c, clockwise=cw))
            pts += arc_pts(p, q, c, cw)
            cen.append(c)
            desc.append(("a", p, q, c, cw))
        p = q
    md = r.choice([None, {"a": "b"}])
    ctx.put(desc=str(desc))
    ctx.distinct("path", str(desc))
    neg = r.random() < 0.5
    s = Shape(commands=segs, is_negative=neg, metadata=md)
    segment(s, pts, cen, ctx)
    m, w = mat(r)
    if abs(w[0][0] ** 2 + w[1][0] ** 2 - w[0][1] ** 2 - w[1][1] ** 2) > 1e-9 or max(
            abs(v) for row in w for v in row) > 1e4:
        return
    big = max(abs(v) for row in w for v in row)
    t = s.transform(m)
    check(t.is_negative == neg and t.metadata == md, "polarity or metadata lost by transform")
    check(len(t.commands) == len(segs) and [type(x) for x in t.commands] == [type(x) for x in segs],
          "segments changed by transform")
    for x, y in zip(t.commands, segs):
        vec(x.start, ap(w, y.start.xy), "transformed start", big * 20)
        vec(x.end, ap(w, y.end.xy), "transformed end", big * 20)
    segment(t, [ap(w, x) for x in pts], [ap(w, x) for x in cen], ctx, big)
    segment(s, pts, cen, ctx)


def shape(r, ctx):
    import shapely as sh
    from pygerber.vm.commands import Shape
    from pygerber.vm.commands import EndLayer, StartLayer
    from pygerber.vm.rvmc import RVMC
    from pygerber.vm.types import LayerID
    from mon.img import shapely_vm
    c = (r.randint(-50, 50) / 10, r.randint(-50, 50) / 10)
    k = r.choice(["rectangle", "obround", "circle", "polygon", "line", "cw_arc", "ccw_arc", "ring", "connected_points"])
    neg = r.random() < 0.5
    w, h = r.randint(3, 60) / 10, r.randint(3, 60) / 10
    md = r.choice([None, {"a": "b"}])
    kw = dict(is_negative=neg, metadata=md)
    if k == "rectangle":
        s, g = [Shape.new_rectangle(c, w, h, **kw)], sem.rect(*c, w, h)
    elif k == "obround":
        from shapely import affinity
        s, g = [Shape.new_obround(c, w, h, **kw)], affinity.translate(sem.aperture("O", [w * 1000, h * 1000]), *c)
    elif k == "circle":
        s, g = [Shape.new_circle(c, w, **kw)], sem.disc(*c, w)
    elif k == "polygon":
        n, rot = r.randint(3, 12), r.choice([0, 30, 45, 90, -15, 400, r.uniform(-400, 400)])
        s, g = [Shape.new_polygon(c, w, n, rot, **kw)], sem.regular(*c, w, n, rot)
    elif k == "line":
        q = (c[0] + r.randint(-40, 40) / 10, c[1] + r.randint(-40, 40) / 10)
        if r.random() < 0.15:
            e = 10.0 ** -r.randint(2, 6)
            q = (c[0] + r.choice([-1, 0, 1]) * e, c[1] + r.choice([-1, 0, 1]) * e)
        if q == c:
            return
        t = r.randint(2, 20) / 10
        s, g = [Shape.new_line(c, q, t, **kw)], sh.LineString([c, q]).buffer(t / 2, cap_style="flat")
    elif k in ("cw_arc", "ccw_arc"):
        rad, t = r.randint(10, 40) / 10, r.randint(2, 15) / 10
        a, b = r.sample(range(12), 2)
        d = lambda i: (c[0] + rad * sem.DIRS[i][0] / 5, c[1] + rad * sem.DIRS[i][1] / 5)  # noqa: E731
        s = [getattr(Shape, "new_" + k)(d(a), d(b), c, t, **kw)]
        mid = arc_pts(d(a), d(b), c, k == "cw_arc")

        def at(f):
            return [(c[0] + (x - c[0]) * f, c[1] + (y - c[1]) * f) for x, y in mid]
        g = sh.Polygon(at(1 + t / 2 / rad) + at(1 - t / 2 / rad)[::-1])
    elif k == "ring":
        od, idd = max(w, h) + 0.5, min(w, h)
        s, g = list(Shape.new_ring(c, od, idd, **kw)), sem.disc(*c, od).difference(sem.disc(*c, idd))
    else:
        pts = [(x / 1000, y / 1000) for x, y in
               sem.star(r, round(c[0] * 1000), round(c[1] * 1000), r.randint(3, 7), 600, 3000, 50)]
        s, g = [Shape.new_connected_points(*pts, **kw)], sh.Polygon(pts)
    ctx.put(kind=k, shapes=repr(s))
    ctx.distinct("shape", repr(s))
    ctx.count("shape_" + k)
    for x in s:
        check(x.is_negative == neg, f"{k}: polarity lost")
        check(x.metadata == md, f"{k}: metadata lost")
    for tr in range(2):
        if tr:
            m, wm = mat(r)
            det = wm[0][0] * wm[1][1]
            if abs(wm[0][0] ** 2 + wm[1][0] ** 2 - wm[0][1] ** 2 - wm[1][1] ** 2) > 1e-9 or max(
                    abs(v) for row in wm for v in row) > 1e4:
                return
            from shapely import affinity
            [x.outer_box for x in s]     # what was computed before a transform must not stick
            s2 = [x.transform(m) for x in s]
            g2 = sem.affine(g, [wm[0][0], wm[0][1], wm[1][0], wm[1][1], wm[0][2], wm[1][2]])
            for x in s2:
                check(x.is_negative == neg and x.metadata == md, f"{k}: polarity or metadata lost by transform")
        else:
            s2, g2 = s, g
        b = s2[0].outer_box
        for x in s2[1:]:
            b = b + x.outer_box
        e = g2.bounds
        sl = 2e-3 * max(e[2] - e[0], e[3] - e[1]) + 1e-6
        check(b.min_x <= e[0] + sl and b.min_y <= e[1] + sl and b.max_x >= e[2] - sl and b.max_y >= e[3] - sl,
              f"{k}: box {b} does not contain {e}")
        pos = [x.model_copy(update={"is_negative": False}) for x in s2]
        img = shapely_vm().run(RVMC(commands=[StartLayer(id=LayerID(id="%main%")), *pos, EndLayer()])).shape
        dd = sem.compare(img, g2, 1.5e-3 * max(1, e[2] - e[0], e[3] - e[1]), k + (" transformed" if tr else ""))
        if dd:
            raise Violation(dd)
