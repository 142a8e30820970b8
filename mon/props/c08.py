"""C08 image of draws, flashes and regions."""
from mon.harness import Violation
from mon.img import check_image
from mon.sem import Gen

ID = "C08"
LEVEL = "exploration"
TECHNIQUE = "reference-model monitor: rendered vector image against an independent geometric model"
LEVEL_NOTE = ("The real parser, compiler and vector machine render every generated program; the symmetric difference "
              "with an independently built image must vanish after shrinking by the arc approximation error. Sampled.")
RULE = ("random programs of lines, arcs of every quadrant and sweep, full circles, zero-length draws, flashes of "
        "circles, rectangles, obrounds and polygons with and without holes, regions of straight and curved contours, "
        "in dark and clear polarity, both units, several coordinate formats; rendered image == reference image. "
        "Distinct: program text.")
ASSUMPTIONS = ["draws and arcs use circular apertures without holes taken into account (others are not swept exactly)",
               "features smaller than the arc approximation error (0.1% of the largest radius) are not judged",
               "single quadrant arcs: see known findings"]
QUICK, THOROUGH, TIMEOUT = 1800, 16000, 60


def gen(rng, **kw):
    g = Gen(rng, zero=rng.random() < 0.3, polarity=rng.random() < 0.7, free=rng.random() < 0.6, **kw)
    g.header()
    if rng.random() < 0.02:
        crowd(g)
    g.body(rng.randint(2, 16))
    g.end()
    return g


def crowd(g):
    """hundreds of objects under clear ones"""
    r = g.r
    g.select(g.ad("C"))
    for _ in range(r.randint(150, 400)):
        (g.flash if r.random() < 0.7 else g.draw)()
    g.polarity("C")
    g.select(g.ad())
    for _ in range(4):
        g.flash()
        g.region()
    g.polarity()


def case(rng, ctx):
    g = gen(rng)
    text = g.source()
    ctx.put(source=text)
    objs, want, res = check_image(g, text, ctx, fine=rng.random() < 0.8)
    for c in g.cmds:
        ctx.count("cmd_" + (c[0] + str(c[1]) if c[0] in ("g", "op") else c[0]))
    ctx.distinct(text)
    if not want.is_empty:
        ctx.count("non_empty_images")
    ctx.sample(text)


# -- recorded findings: fixed inputs whose image is known to be wrong in a known way -----------------
HEAD = "%FSLAX46Y46*%%MOMM*%"


def _quarter():
    import math

    import shapely as sh
    return sh.LineString([(2 * math.cos(math.radians(a / 2)), 2 * math.sin(math.radians(a / 2))) for a in range(181)])


def _swept(w, h, p, q):
    import shapely as sh

    def box(c):
        return [(c[0] + sx * w / 2, c[1] + sy * h / 2) for sx in (-1, 1) for sy in (-1, 1)]
    return sh.MultiPoint(box(p) + box(q)).convex_hull


KNOWN = {
    "sq-arcs": HEAD + "%ADD10C,0.4*%G74*D10*X2000000Y0D02*G03*X0Y2000000I2000000J0D01*M02*",
    "sq-arcs-region": HEAD + "G74*G36*X2000000Y0D02*G03*X0Y2000000I2000000J0D01*G01*X0Y0D01*X2000000Y0D01*G37*M02*",
    "rect-draw": HEAD + "%ADD10R,1X0.2*%D10*X1000000Y1000000D02*G01*X1000000Y5000000D01*M02*",
    "obround-draw": HEAD + "%ADD10O,1X0.2*%D10*X3000000Y1000000D02*G01*X3000000Y4000000D01*M02*",
    "macro-draw": HEAD + "%AMM*1,1,0.4,0,0*%%ADD10M*%D10*X0Y0D02*G01*X2000000Y0D01*M02*",
}


def fixed():
    return sorted(KNOWN)


def fixed_case(key, ctx):
    import shapely as sh

    from mon import sem
    from mon.img import compile_text, shapely_vm
    text = KNOWN[key]
    ctx.put(source=text)
    line = {"rect-draw": [(1, 1), (1, 5)], "obround-draw": [(3, 1), (3, 4)]}.get(key)
    if key == "macro-draw":
        want = sh.LineString([(0, 0), (2, 0)]).buffer(0.2, quad_segs=32)
    elif key == "sq-arcs":
        want = _quarter().buffer(0.2, quad_segs=32)
    elif key == "sq-arcs-region":
        want = sh.Polygon([*_quarter().coords, (0, 0)])
    elif key == "rect-draw":
        want = _swept(1, 0.2, *line)
    else:
        want = _swept(1, 0, (3, 1), (3, 4)).union(sh.MultiPoint([(2.6, 1), (3.4, 1)]).convex_hull.buffer(0.1, 32)).union(
            sh.MultiPoint([(2.6, 4), (3.4, 4)]).convex_hull.buffer(0.1, 32))
    ctx.distinct(text)
    try:
        got = shapely_vm(True).run(compile_text(text)).shape
    except NotImplementedError as e:
        if key == "macro-draw" and ctx.finding(key, str(e)):
            return
        raise
    d = sem.compare(got, want, 4e-3, "image")
    if not d:
        return
    if key == "sq-arcs":
        ok = got.is_empty
    elif key == "sq-arcs-region":
        ok = not sem.compare(got, sh.Polygon([(2, 0), (0, 2), (0, 0)]), 4e-3, "image")
    elif line and not got.is_empty:
        w = (got.bounds[2] - got.bounds[0]) / 2
        ok = not sem.compare(got, sh.LineString(line).buffer(w, quad_segs=64), 4e-3, "image")
    else:
        ok = False
    if ok and ctx.finding(key, d):
        return
    raise Violation(d)
