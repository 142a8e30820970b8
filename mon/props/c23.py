"""C23 colours, styles and vector export."""
import colorsys
import io
import os
import re
import shutil
import tempfile
import xml.etree.ElementTree as ET
from pathlib import Path

from mon import sem
from mon.harness import Violation, check, eq
from mon.img import compile_text, shapely_vm
from mon.sem import Gen

ID = "C23"
LEVEL = "exploration"
TECHNIQUE = "reference-model monitor: decoded pictures and vector files vs requested colours and an independent image"
LEVEL_NOTE = ("Colour conversions are compared with arithmetic done here (every channel value over the run); styled pictures "
              "pixel by pixel with the requested colours; vector files are parsed, transformed as an SVG reader would and the "
              "area they fill compared with the geometry and with an independent image of the program. Sampled programs.")
RULE = ("random colours in every notation, invalid literals, hue/saturation/value over the whole cone; random style pairs and "
        "all presets on random programs, saved in every raster format; vector files of random programs written to paths and "
        "streams. Distinct: (colour or program, style).")
ASSUMPTIONS = ["opacity of vector fill is not judged (the export uses the vector library's own)",
               "encodings without byte order mark", "hue/saturation/value may be rounded by one step per channel"]
QUICK, THOROUGH, TIMEOUT = 1500, 15000, 90


def one_colour(r, ctx):
    from pygerber.gerber.api import Color
    from pygerber.vm.types.color import InvalidHexColorLiteralError
    ch = lambda: r.choice([0, 1, 9, 10, 15, 16, 127, 128, 254, 255, r.randint(0, 255), r.randint(0, 255)])
    for _ in range(60):
        v = (ch(), ch(), ch(), ch())
        ctx.put(colour=v)
        c = Color.from_rgba(*v)
        eq((c.red, c.green, c.blue, c.alpha), v, "channels")
        eq(c.as_rgba_int(), v, "as_rgba_int")
        eq(c.as_rgb_int(), v[:3], "as_rgb_int")
        f = c.as_rgba_float()
        check(all(abs(a - b / 255) < 1e-12 for a, b in zip(f, v)), f"as_rgba_float {f} of {v}")
        h = c.to_hex()
        eq(h.lower(), "#%02x%02x%02x%02x" % v, "to_hex")
        eq(Color.from_hex(h), c, "from_hex(to_hex)")
        t = "%02x%02x%02x%02x" % v
        t = "".join(x.upper() if r.random() < 0.5 else x for x in t)
        eq(Color.from_hex(r.choice(["", "#"]) + t).as_rgba_int(), v, f"from_hex({t})")
        eq(Color.from_hex(r.choice(["", "#"]) + t[:6]).as_rgba_int(), v[:3] + (255,), f"from_hex({t[:6]})")
        eq(Color.from_rgba(*v[:3]).alpha, 255, "default alpha")
        ctx.distinct("colour", v)
        bad = r.choice([t[:5], t[:7], t + "0", "##" + t, "0x" + t[:6], " " + t[:6], "g" + t[1:6], "", "#", t[:3], t[:5] + "-", t + t])
        try:
            x = Color.from_hex(bad)
        except InvalidHexColorLiteralError:
            pass
        else:
            raise Violation(f"literal {bad!r} accepted as {x}")
        hue, s, val = r.randint(0, 360), r.choice([0, 100, r.uniform(0, 100)]), r.choice([0, 100, r.uniform(0, 100)])
        got = Color.from_hsv(hue, s, val, v[3]) if r.random() < 0.5 else Color.from_hsv(hue, s, val)
        want = [x * 255 for x in colorsys.hsv_to_rgb((hue % 360) / 360, s / 100, val / 100)]
        check(all(abs(a - b) <= 0.5001 for a, b in zip(got.as_rgb_int(), want)), f"from_hsv({hue},{s},{val}) = {got}, expected {want}")
        check(got.alpha in (255, v[3]), "alpha of from_hsv")
        bv = list(v)
        bv[r.randrange(4)] = r.choice([-1, 256, 1000, -255])
        try:
            Color.from_rgba(*bv)
        except ValueError:
            pass
        else:
            raise Violation(f"channels {bv} accepted")
    ctx.count("colours", 60)


def presets(ctx):
    from pygerber.gerber.api import Style
    st = Style.presets.get_styles()
    names = {"SILK", "COPPER", "PASTE_MASK", "SOLDER_MASK"}
    for n in names:
        eq(st[n].background.alpha, 255, f"documented opaque background of {n}")
        eq(st[n + "_ALPHA"].background.alpha, 0, f"documented transparent background of {n}_ALPHA")
    for n, s in st.items():
        eq(s.foreground.alpha, 255, f"foreground of {n}")
        check(s is getattr(Style.presets, n), f"preset {n} by name")
    ctx.count("presets", len(st))


def style(r):
    from pygerber.gerber.api import Color, Style
    if r.random() < 0.3:
        return r.choice(list(Style.presets.get_styles().values()))
    c = lambda: Color.from_rgba(*(r.choice([0, 255, r.randint(0, 255)]) for _ in range(4)))
    return Style(foreground=c(), background=c())


def program(r):
    g = Gen(r, unit=r.choice(["mm", "mm", "in"]), span=r.choice([2000, 4000]), transforms="MRS" if r.random() < 0.3 else "",
            macros=r.random() < 0.4, blocks=r.random() < 0.3, polarity=r.random() < 0.7, max_arc=2)
    g.header()
    g.ad()
    g.body(r.choice([1, 1, 2, 5, 9]))
    g.end()
    ref = sem.Image(edges=True)
    objs = ref.objects(g.cmds)
    return g, g.source(), ref, objs


def pictures(r, ctx):
    import numpy as np
    from PIL import Image
    from pygerber.vm.pillow.vm import PillowVirtualMachine
    g, text, ref, objs = program(r)
    dpmm = r.choice([20, 30])
    b = sem.bounds(objs)
    if b is not None and (b[2] - b[0]) * (b[3] - b[1]) * dpmm * dpmm > 2e6:
        ctx.count("too_large_skipped")
        return
    ctx.put(source=text, dpmm=dpmm)
    res = PillowVirtualMachine(dpmm).run(compile_text(text))
    from pygerber.gerber.api import Color, Style
    plain = np.asarray(res.get_image(Style(foreground=Color.from_rgba(255, 255, 255), background=Color.from_rgba(0, 0, 0))))
    mask = plain[..., 0] == 255
    check(((plain[..., 0] == 255) | (plain[..., 0] == 0)).all(), "colours mixed")
    eq((np.asarray(res.get_image_no_style().convert("L")) > 127).tolist() == mask.tolist(), True, "styled picture shows the raster")
    if b is None:
        check(not mask.any(), "picture of nothing has foreground")
    for _ in range(3):
        st = style(r)
        ctx.put(style=repr(st))
        im = res.get_image(st)
        eq(im.mode, "RGBA", "mode")
        want = np.where(mask[..., None], np.array(st.foreground.as_rgba_int()), np.array(st.background.as_rgba_int())).astype("uint8")
        got = np.asarray(im)
        if got.shape != want.shape or (got != want).any():
            raise Violation(f"picture in style {st} has other colours than requested")
        fmt = r.choice(["png", "tiff", "bmp", "jpeg", "webp"])
        kw = {"webp": {"lossless": True}, "jpeg": {"quality": 100, "subsampling": 0}}.get(fmt, {})
        buf = io.BytesIO()
        if r.random() < 0.5:
            getattr(res, "save_" + fmt)(buf, st, **kw)
        else:
            res.save(buf, r.choice([fmt, fmt.upper()]), st, **kw)
        sv = Image.open(io.BytesIO(buf.getvalue()))
        eq(sv.format, fmt.upper(), "format")
        eq(sv.size, im.size, f"size of {fmt}")
        a = np.asarray(sv.convert("RGBA"))
        if fmt in ("png", "tiff"):
            check((a == want).all(), f"colours in {fmt} file")
        elif fmt in ("bmp", "webp"):
            d = a[..., :3] != want[..., :3]
            if fmt == "webp" and want.shape[0] * want.shape[1] < 4:
                d = d[:0]
            check(not d.any(), f"colours in {fmt} file")
        else:
            d = np.abs(a[..., :3].astype(int) - want[..., :3])
            check(np.quantile(d, 0.9) <= 6 if d.size > 1000 else True, f"colours in {fmt} file")
        ctx.count("styled_pictures")
        ctx.count("saved_" + fmt)
        ctx.distinct(text, repr(st), fmt)
    ctx.count("pixels", int(mask.size))
    ctx.sample(text)


NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"


def svg_area(data):
    """(shape in SVG view coordinates, width, height, fills) as an SVG reader sees it"""
    import shapely
    root = ET.fromstring(data)
    ns = "{http://www.w3.org/2000/svg}"
    eq(root.tag, ns + "svg", "root element")
    if len(root) == 0:
        return shapely.Polygon(), None, None, set()
    w, h = float(root.get("width")), float(root.get("height"))
    vb = [float(x) for x in root.get("viewBox").replace(",", " ").split()]
    fills, polys = set(), []

    def tr(s):
        m = [1, 0, 0, 1, 0, 0]
        if s:
            k = re.fullmatch(r"\s*matrix\(([^)]*)\)\s*", s)
            check(k is not None, f"transform {s!r} not understood")
            m = [float(x) for x in re.findall(NUM, k.group(1))]
        return m

    def mul(a, b):
        return [a[0] * b[0] + a[2] * b[1], a[1] * b[0] + a[3] * b[1], a[0] * b[2] + a[2] * b[3], a[1] * b[2] + a[3] * b[3],
                a[0] * b[4] + a[2] * b[5] + a[4], a[1] * b[4] + a[3] * b[5] + a[5]]

    def visit(e, m):
        m = mul(m, tr(e.get("transform")))
        if e.tag == ns + "path":
            fills.add(e.get("fill").lower())
            rings = []
            for part in e.get("d").split("z"):
                pts = [float(x) for x in re.findall(NUM, part)]
                if len(pts) >= 6:
                    rings.append(list(zip(pts[::2], pts[1::2])))
                check(not re.search(r"[a-zA-KN-Z]", re.sub(r"[eE]", "", part).replace("M", "").replace("L", "")), f"path {part[:80]!r}")
            area = shapely.Polygon()
            for ring in rings:   # fill-rule evenodd
                area = sem.xor(area, shapely.Polygon(ring).buffer(0))
            if len(rings) > 1:
                eq(e.get("fill-rule"), "evenodd", "fill rule of path with holes")
            polys.append(sem.affine(area, [m[0], m[2], m[1], m[3], m[4], m[5]]))
        for c in e:
            visit(c, m)
    visit(root, [1, 0, 0, 1, 0, 0])
    sx, sy = w / vb[2] if vb[2] else 1, h / vb[3] if vb[3] else 1
    area = shapely.union_all(polys) if polys else shapely.Polygon()
    area = sem.affine(area, [sx, 0, 0, sy, -vb[0] * sx, -vb[1] * sy])
    return area, w, h, fills


def vector(r, ctx, tmp):
    g, text, ref, objs = program(r)
    ctx.put(source=text)
    want = sem.flatten(objs)
    rvmc = compile_text(text)
    fine = r.random() < 0.5
    res = shapely_vm(fine).run(rvmc)
    st = style(r)
    way = r.choice(["bytesio", "path", "str", "file", "save"])
    enc = r.choice([None, None, "utf-8", "ascii", "latin-1", "utf-16-le"])
    kw = {"encoding": enc} if enc else {}
    if r.random() < 0.25:
        from pygerber.gerber.api import GerberFile
        im = GerberFile.from_str(text).render_with_shapely(st)
        fine = False
        saver = lambda dest: im.save_svg(dest, **kw)
        ctx.count("through_high_level")
    else:
        saver = (lambda dest: res.save(dest, r.choice(["svg", "SVG"]), st, **kw)) if way == "save" else (lambda dest: res.save_svg(dest, st, **kw))
    p = os.path.join(tmp, "out.svg")
    if way in ("bytesio", "save"):
        buf = io.BytesIO()
        saver(buf)
        data = buf.getvalue()
    else:
        if way == "file":
            with open(p, "wb") as fp:
                saver(fp)
        else:
            if r.random() < 0.5:
                Path(p).write_bytes(b"x" * 200000)
            saver(Path(p) if way == "path" else p)
        data = Path(p).read_bytes()
    data = data.decode(enc or "utf-8")
    area, w, h, fills = svg_area(data)
    if res.shape.is_empty or want.is_empty:
        check(area.area < 1e-3, "vector file of empty image fills something")
        ctx.count("empty_drawings")
        return
    eq(fills, {st.foreground.to_hex().lower()}, "fill colours")
    b = res.shape.bounds
    check(abs(w - (b[2] - b[0])) < 1e-9 + 0.02 * (not fine) and abs(h - (b[3] - b[1])) < 1e-9 + 0.02 * (not fine), f"size {w}x{h}, image is {b}")
    # reader's coordinates back to board coordinates: x from the left edge, y down from the top edge
    back = sem.affine(area, [1, 0, 0, -1, b[0], b[3]])
    tol = (1.0e-3 if fine else 0.012) * max(ref.rmax, 0.1) + 2e-4
    d = sem.compare(back, want, tol, "drawing")
    if d:
        raise Violation(d, tolerance=tol)
    exact = sem.xor(back, res.shape).area
    if fine and exact > 1e-6 * max(1, res.shape.area):
        raise Violation(f"vector file differs from the geometry by area {exact}")
    holes = sum(len(q.interiors) for q in getattr(res.shape, "geoms", [res.shape]) if q.geom_type == "Polygon")
    ctx.count("vector_files")
    ctx.count("holes", holes)
    ctx.count("written_" + way)
    ctx.distinct(text, repr(st), way)
    ctx.sample(text)


def fixed():
    return [0]


def fixed_case(item, ctx):
    presets(ctx)
    ctx.distinct("presets")


def case(rng, ctx):
    k = rng.random()
    if k < 0.1:
        one_colour(rng, ctx)
    elif k < 0.5:
        pictures(rng, ctx)
    else:
        tmp = tempfile.mkdtemp(prefix="c23-")
        try:
            vector(rng, ctx, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
