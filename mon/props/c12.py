"""C12 raster renderer."""
import math

from mon import sem
from mon.harness import Violation, check
from mon.img import compile_text, shapely_vm
from mon.sem import Gen

ID = "C12"
LEVEL = "exploration"
TECHNIQUE = "differential monitor: raster pixels against the reference image and against the vector renderer"
LEVEL_NOTE = ("Every judged pixel of the raster image is compared with an independent image of the program and with the "
              "area the vector renderer reports; pixels closer than about four pixel widths to an edge are not judged.")
RULE = ("random programs with every feature (arcs, regions, holes, macros, blocks, repeats, polarity, transforms) at "
        "random resolutions; size of the raster, alignment, orientation, and colour of sampled pixels. "
        "Distinct: program text and resolution.")
ASSUMPTIONS = ["one pixel of rounding per nested layer and per edge; pixels within 3.5 px (+ arc error) of an edge of any object are not judged",
               "zero-width draws are left out: the raster shows them as hairlines one pixel wide"]
QUICK, THOROUGH, TIMEOUT = 900, 14000, 120
SAMPLES = 12000


def case(rng, ctx):
    full = rng.random() < 0.7
    g = Gen(rng, unit="mm", span=rng.choice([2000, 4000, 6000]), transforms="MRS" if full and rng.random() < 0.6 else "",
            macros=full, blocks=full, repeat=full, polarity=rng.random() < 0.8, max_arc=3)
    g.header()
    g.body(rng.randint(1, 12))
    g.end()
    text = g.source()
    dpmm = rng.choice([20, 25, 30, 40, 60, 80])
    ctx.put(source=text, dpmm=dpmm)
    ref = sem.Image(edges=True)
    objs = ref.objects(g.cmds)
    want = sem.flatten(objs)
    judge(text, dpmm, objs, want, ref, ctx, rng)
    ctx.distinct(text, dpmm)
    ctx.sample(f"dpmm={dpmm}\n{text}")


def judge(text, dpmm, objs, want, ref, ctx, rng):
    import numpy as np
    import shapely
    from pygerber.vm.pillow.vm import PillowVirtualMachine
    rvmc = compile_text(text)
    b = sem.bounds(objs)
    if b is not None and (b[2] - b[0]) * (b[3] - b[1]) * dpmm * dpmm > 9e6:
        dpmm = 20
        if (b[2] - b[0]) * (b[3] - b[1]) * dpmm * dpmm > 9e6:
            ctx.count("too_large_skipped")
            return
    res = PillowVirtualMachine(dpmm).run(rvmc)
    vec = shapely_vm(False).run(rvmc)
    img = np.asarray(res.get_image_no_style().convert("L")) > 127
    h, w = img.shape
    mb = res.main_box
    if b is None:
        check(not img.any(), "program drawing nothing gave a raster with set pixels")
        return
    check(abs(w - mb.width * dpmm) <= 1.001 and abs(h - mb.height * dpmm) <= 1.001 or min(w, h) <= 1,
          f"raster is {w}x{h} px for an extent of {mb.width:.4f}x{mb.height:.4f} at {dpmm} px per unit")
    v = vec.main_box
    check(max(abs(mb.min_x - v.min_x), abs(mb.min_y - v.min_y), abs(mb.max_x - v.max_x), abs(mb.max_y - v.max_y)) < 1e-9,
          f"raster extent {mb} differs from vector extent {v}")
    check(mb.min_x <= b[0] + 1e-2 and mb.min_y <= b[1] + 1e-2 and mb.max_x >= b[2] - 1e-2 and mb.max_y >= b[3] - 1e-2,
          f"raster extent {mb} does not contain the image {b}")
    n = min(SAMPLES, w * h)
    rs = np.random.RandomState(rng.randrange(2 ** 31))
    px, py = rs.randint(0, w, n), rs.randint(0, h, n)
    # pixels near edges of the image are the most interesting ones: half of the samples
    line = want.boundary
    if not line.is_empty:
        m = n // 2
        t = rs.uniform(0, line.length, m)
        pts = edge_points(line, t)
        ang = rs.uniform(0, 2 * math.pi, len(pts))
        rad = rs.uniform(3.5, 9, len(pts)) / dpmm
        ex = ((pts[:, 0] + rad * np.cos(ang) - mb.min_x) * dpmm).astype(int)
        ey = h - 1 - ((pts[:, 1] + rad * np.sin(ang) - mb.min_y) * dpmm).astype(int)
        ok = (ex >= 0) & (ex < w) & (ey >= 0) & (ey < h)
        px, py = np.concatenate([px[:n - m], ex[ok]]), np.concatenate([py[:n - m], ey[ok]])
    x = mb.min_x + (px + 0.5) / dpmm
    y = mb.min_y + (h - 1 - py + 0.5) / dpmm
    tol = 3.5 / dpmm + 0.004 * max(ref.rmax, 0.1)
    got = img[py, px]
    for name, shape in (("reference", want), ("vector image", vec.shape)):
        shapely.prepare(shape)
        ins = shapely.contains_xy(shape, x, y)
        bad = np.nonzero(ins != got)[0]
        if len(bad):
            # only pixels away from every edge are judged
            pts = shapely.points(x[bad], y[bad])
            d = np.full(len(bad), 9e9)
            for o in [shape] + [o for _, o in objs]:
                if not o.is_empty:
                    d = np.minimum(d, shapely.distance(pts, o.boundary))
            far = bad[d > tol]
            if len(far):
                k = far[0]
                raise Violation(f"{len(far)} pixels differ from {name}, e.g. pixel ({px[k]}, {py[k]}) at ({x[k]:.3f}, "
                                f"{y[k]:.3f}) is {'set' if got[k] else 'clear'}", dpmm=dpmm, size=f"{w}x{h}")
    ctx.count("pixels_judged", len(px))
    ctx.count("pixels_set", int(got.sum()))


def edge_points(line, t):
    import numpy as np
    import shapely
    parts = [g for g in (line.geoms if hasattr(line, "geoms") else [line])]
    lens = np.cumsum([g.length for g in parts])
    out = []
    for v in t:
        i = min(int(np.searchsorted(lens, v)), len(parts) - 1)
        p = shapely.line_interpolate_point(parts[i], v - (lens[i - 1] if i else 0))
        out.append((p.x, p.y))
    return np.array(out).reshape(-1, 2)
