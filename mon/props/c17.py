"""C17 high-level file and composite view interface."""
import hashlib
import io
import os
import shutil
import tempfile

from mon import sem
from mon.harness import Violation, check, eq
from mon.img import compile_text, shapely_vm
from mon.sem import Gen

ID = "C17"
LEVEL = "exploration"
TECHNIQUE = "reference-model monitor: pictures and coordinates of the high-level interface against an independent image"
LEVEL_NOTE = ("Random programs (millimetres and inches) loaded in every way and rendered by every back end; reported image "
              "space, picture size, chosen colours and every sampled pixel are compared with an independent image, for single "
              "files and for stacks of layers (alpha composition). Sampled; pixels near edges are not judged.")
RULE = ("programs in mm or inch with any file function attribute; loaded from text, stream or file with any extension and "
        "any requested type; explicit styles, default and custom colour maps, repeated renders and option changes on one "
        "object; composite views of 1..4 such files. Distinct: program texts and options.")
ASSUMPTIONS = ["pixels within 3.5 px (5.5 in stacks) of an edge of an object or picture are not judged",
               "a file uses one unit throughout"]
QUICK, THOROUGH, TIMEOUT = 800, 9000, 90

EXT = {".grb": "@", ".gbr": "@", ".gto": "SILK", ".gbo": "SILK", ".gpt": "PADS", ".gpb": "PADS", ".gts": "SOLDERMASK",
       ".gbs": "SOLDERMASK", ".gtl": "COPPER", ".gbl": "COPPER", ".gtp": "PASTE", ".gbp": "PASTE", ".g1": "COPPER",
       ".g12": "COPPER", ".gp1": "COPPER", ".gm2": "COPPER", ".txt": None, "": None, ".ger": None}
FUN = {"Copper,L1,Top": "COPPER", "Copper,L2,Inr": "COPPER", "Plated,1,2,PTH,Drill": "PLATED",
       "NonPlated,1,2,NPTH,Drill": "NON_PLATED", "Profile,NP": "PROFILE", "Soldermask,Top": "SOLDERMASK",
       "Legend,Bot": "LEGEND", "Component,L1,Top": "COMPONENT", "Paste,Top": "PASTE", "Glue,Top": "GLUE",
       "Carbonmask,Top": "CARBONMASK", "Goldmask,Bot": "GOLDMASK", "Heatsinkmask,Top": "HEATSINKMASK",
       "Peelablemask,Bot": "PEELABLEMASK", "Silvermask,Top": "SILVERMASK", "Tinmask,Bot": "TINMASK",
       "Depthrout,Top": "DEPTHROUT", "Vcut,Top": "VCUT", "Viafill": "VIAFILL", "Pads,Top": "PADS",
       "Drillmap": "DRILLMAP", "FabricationDrawing": "FABRICATIONDRAWING", "Vcutmap": "VCUTMAP",
       "AssemblyDrawing,Top": "ASSEMBLYDRAWING", "ArrayDrawing": "ARRAYDRAWING", "OtherDrawing,foo": "OTHERDRAWING",
       "Other,mine": "OTHER"}


class Loaded:
    pass


def load(r, ctx, tmp, span_mm=None):
    """one file, loaded in one of the ways, and what it is"""
    from pygerber.gerber.api import FileTypeEnum, GerberFile
    u = "in" if r.random() < 0.4 else "mm"
    if u == "mm":
        g = Gen(r, unit="mm", span=r.choice([2000, 4000]), macros=r.random() < 0.3, polarity=r.random() < 0.6, max_arc=2)
    else:
        g = Gen(r, unit="in", span=r.choice([300, 600]), grid=50, macros=False, polarity=r.random() < 0.6, max_arc=1, arcs=False)
    g.header()
    g.ad()
    f = Loaded()
    f.fun = r.choice([None, *FUN])
    if f.fun:
        g.put(("cm",), f"%TF.FileFunction,{f.fun}*%")
    if r.random() < 0.3:
        g.put(("cm",), "G04 ünïcode ✓*")
    g.body(r.randint(1, 6))
    g.end()
    f.text = g.source()
    f.k = 25.4 if u == "in" else 1.0
    f.unit = u
    ref = sem.Image(edges=True)
    f.objs = ref.objects(g.cmds)
    f.area = sem.flatten(f.objs)
    f.rmax = ref.rmax
    T = FileTypeEnum
    req = r.choice([None, "INFER", "INFER_FROM_EXTENSION", "INFER_FROM_ATTRIBUTES", r.choice(list(FUN.values())),
                    r.choice(["MASK", "SILK", "EDGE", "UNDEFINED", "OTHER"])])
    kw = {} if req is None else {"file_type": T[req]}
    way = r.choice(["str", "file", "path", "buffer", "fbuffer"])
    ext = None
    text = f.text
    if way in ("file", "path", "fbuffer"):
        ext = r.choice(list(EXT))
        cased = ext if r.random() < 0.5 else ext.upper() if r.random() < 0.7 else ext.capitalize()
        p = os.path.join(tmp, f"f{len(os.listdir(tmp))}{cased}")
        with open(p, "w", encoding="utf-8", newline="") as fp:
            fp.write(text)
        if way == "fbuffer":
            with open(p, encoding="utf-8") as fp:
                f.file = GerberFile.from_buffer(fp, **kw)
            ext = None
        else:
            from pathlib import Path
            f.file = GerberFile.from_file(p if way == "file" else Path(p), **kw)
        text = text.replace("\r\n", "\n")
        with open(p, encoding="utf-8", newline="") as fp:
            eq(fp.read(), f.text, "source file after loading")
    elif way == "str":
        f.file = GerberFile.from_str(text, **kw)
    else:
        f.file = GerberFile.from_buffer(io.StringIO(text), **kw)
        text = io.StringIO(text).read()
    eq(f.file.source_code, text, f"source code of file loaded by {way}")
    eq(f.file.sha256, hashlib.sha256(text.encode()).hexdigest(), "sha256")
    f.way = way
    attr = FUN[f.fun] if f.fun else "UNDEFINED"
    if req in (None, "INFER"):
        t = EXT.get(ext) if ext is not None else None
        f.type = attr if t in (None, "@") else t
    elif req == "INFER_FROM_EXTENSION":
        t = EXT.get(ext) if ext is not None else None
        f.type = attr if t == "@" else t or "UNDEFINED"
    elif req == "INFER_FROM_ATTRIBUTES":
        f.type = attr
    else:
        f.type = req
    f.opts = (way, req, ext)
    ctx.count("loaded_" + way)
    ctx.count("unit_" + u)
    return f


def colours(r):
    from pygerber.gerber.api import Color, Style
    a = lambda: r.choice([0, 255, 255, 255, r.randint(1, 254)])
    c = lambda al: Color.from_rgba(r.randint(0, 255), r.randint(0, 255), r.randint(0, 255), al)
    fg = c(r.choice([255, 255, 128, 1 + r.randint(0, 253)]))
    bg = c(a())
    return Style(foreground=fg, background=bg)


def colour_map(r):
    from pygerber.gerber.api import DEFAULT_ALPHA_COLOR_MAP, DEFAULT_COLOR_MAP, FileTypeEnum
    q = r.random()
    if q < 0.3:
        return DEFAULT_COLOR_MAP
    if q < 0.5:
        return DEFAULT_ALPHA_COLOR_MAP
    return {t: colours(r) for t in FileTypeEnum}


def rgba(c):
    return (c.red, c.green, c.blue, c.alpha)


def space(sp, f, dpmm, res_box, what):
    from pygerber.gerber.api import Units
    eq(sp.units, Units.Inches if f.unit == "in" else Units.Millimeters, f"{what}: unit")
    eq(sp.dpmm, dpmm, f"{what}: dpmm")
    for n in ("min_x", "min_y", "max_x", "max_y"):
        v = getattr(sp, n)
        check(abs(v - getattr(res_box, n)) < 1e-9, f"{what}: {n} {v}, program extends to {getattr(res_box, n)}")
        check(abs(getattr(sp, n + "_mm") - v * f.k) < 1e-9, f"{what}: {n}_mm {getattr(sp, n + '_mm')} for {v} {f.unit}")
        px = getattr(sp, n + "_pixels")
        check(isinstance(px, int) and abs(px - v * f.k * dpmm) <= 1, f"{what}: {n}_pixels {px}, expected {v * f.k * dpmm}")
    check(abs(sp.width_mm - (sp.max_x - sp.min_x) * f.k) < 1e-9 and abs(sp.height_mm - (sp.max_y - sp.min_y) * f.k) < 1e-9,
          f"{what}: size")
    check(abs(sp.center_x_mm - (sp.max_x + sp.min_x) / 2 * f.k) < 1e-9
          and abs(sp.center_y_mm - (sp.max_y + sp.min_y) / 2 * f.k) < 1e-9, f"{what}: centre")
    b = sem.bounds(f.objs)
    if b:
        check(sp.min_x <= b[0] + 1e-2 and sp.min_y <= b[1] + 1e-2 and sp.max_x >= b[2] - 1e-2 and sp.max_y >= b[3] - 1e-2,
              f"{what}: extent does not contain the image {b}")


def over(dst, src):
    """alpha composition of float arrays n x 4"""
    import numpy as np
    sa, da = src[:, 3:] / 255, dst[:, 3:] / 255
    oa = sa + da * (1 - sa)
    with np.errstate(invalid="ignore", divide="ignore"):
        rgb = np.where(oa > 0, (src[:, :3] * sa + dst[:, :3] * da * (1 - sa)) / np.where(oa > 0, oa, 1), 0)
    return np.concatenate([rgb, oa * 255], axis=1)


def judge(img, frames, minx, maxy, dpmm, slack, rng, ctx, stack=False):
    """frames: (file, style, (x0, y0, x1, y1) in mm); pixels of img vs. the stack of frames"""
    import numpy as np
    import shapely
    h, w = img.shape[:2]
    rs = np.random.RandomState(rng.randrange(2 ** 31))
    n = min(4000, w * h)
    px, py = rs.randint(0, w, n), rs.randint(0, h, n)
    # half of the samples close to edges
    pts = []
    for f, st, box in frames:
        line = f.area.boundary
        if not line.is_empty:
            c = shapely.get_coordinates(shapely.segmentize(line, max(line.length / 300, 1e-6))) * f.k
            pts.append(c)
    if pts:
        c = np.concatenate(pts)
        c = c[rs.randint(0, len(c), n // 2)] + rs.normal(0, (slack + 3) / dpmm, (n // 2, 2))
        ex = np.floor((c[:, 0] - minx) * dpmm).astype(int)
        ey = np.floor((maxy - c[:, 1]) * dpmm).astype(int)
        ok = (ex >= 0) & (ex < w) & (ey >= 0) & (ey < h)
        px, py = np.concatenate([px[n // 2:], ex[ok]]), np.concatenate([py[n // 2:], ey[ok]])
    x = minx + (px + 0.5) / dpmm
    y = maxy - (py + 0.5) / dpmm
    want = np.zeros((len(px), 4))
    for f, st, box in frames:
        shapely.prepare(f.area)
        ins = shapely.contains_xy(f.area, x / f.k, y / f.k)
        inb = (x > box[0]) & (x < box[2]) & (y > box[1]) & (y < box[3])
        col = np.where(ins[:, None], np.array([rgba(st.foreground)]), np.array([rgba(st.background)])).astype(float)
        col[~inb] = 0
        if stack:
            want = over(want, col)
        else:
            want = col
    got = img[py, px].astype(float)
    tol = 0.5 if not stack else 3 + 3 * len(frames)
    # colour is meaningless where nothing is visible; rounding grows with transparency
    lim = np.full(len(px), tol)
    if stack:
        lim = tol * np.clip(255 / np.maximum(want[:, 3], 1), 1, 60)
    bad = np.abs(got[:, 3] - want[:, 3]) > tol
    bad |= (np.abs(got[:, :3] - want[:, :3]).max(axis=1) > lim) & ((want[:, 3] > 8) if stack else True)
    bad = np.nonzero(bad)[0]
    if len(bad):
        d = np.full(len(bad), 9e9)
        for f, st, box in frames:
            p = shapely.points(x[bad] / f.k, y[bad] / f.k)
            for o in [f.area] + [o for _, o in f.objs]:
                if not o.is_empty:
                    d = np.minimum(d, shapely.distance(p, o.boundary) * f.k - 0.004 * max(f.rmax, 0.1) * f.k)
            for lo, hi, v in ((box[0], box[2], x[bad]), (box[1], box[3], y[bad])):
                d = np.minimum(d, np.minimum(np.abs(v - lo), np.abs(v - hi)))
        far = bad[d > slack / dpmm]
        if len(far):
            k = far[0]
            raise Violation(f"{len(far)} pixels wrong, e.g. ({px[k]}, {py[k]}) at ({x[k]:.3f}, {y[k]:.3f}) mm is "
                            f"{tuple(got[k])}, expected {tuple(want[k])}", size=f"{w}x{h}", dpmm=dpmm)
    ctx.count("pixels_judged", len(px))


def resolution(r, files):
    ext = 1
    for f in files:
        b = sem.bounds(f.objs) or (0, 0, 0, 0)
        ext = max(ext, *(abs(v) * f.k for v in b))
    lim = 1200 / (2 * ext)
    ok = [d for d in (5, 8, 10, 20, 25, 40) if d <= lim and d * min([0.3 if f.unit == "mm" else 5 for f in files]) >= 1]
    return r.choice(ok or [5])


def one(f, rng, ctx, tmp):
    import numpy as np
    from pygerber.gerber.api import DEFAULT_ALPHA_COLOR_MAP, FileTypeEnum
    cmap = DEFAULT_ALPHA_COLOR_MAP
    box = shapely_vm(False).run(compile_text(f.text)).main_box
    for rep in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.4:
            cmap = colour_map(rng)
            check(f.file.set_color_map(cmap) is f.file, "set_color_map result")
        st = colours(rng) if rng.random() < 0.4 else None
        style = st or cmap[FileTypeEnum[f.type]]
        dpmm = resolution(rng, [f])
        q = rng.random()
        if q < 0.7:
            kw = {} if st is None and rng.random() < 0.5 else {"style": st}
            im = f.file.render_with_pillow(dpmm=dpmm, **kw)
            space(im.get_image_space(), f, dpmm, box, "raster")
            pil = im.get_image()
            eq(pil.mode, "RGBA", "mode of picture")
            a = np.asarray(pil)
            h, w = a.shape[:2]
            sp = im.get_image_space()
            if sem.bounds(f.objs):
                check(abs(w - sp.width_mm * dpmm) <= 1.5 and abs(h - sp.height_mm * dpmm) <= 1.5,
                      f"picture {w}x{h} for {sp.width_mm:.4f}x{sp.height_mm:.4f} mm at {dpmm} dpmm")
                # the raster's rows start at the lower edge
                miny = sp.min_y_mm
                judge(a, [(f, style, (sp.min_x_mm, sp.min_y_mm, sp.max_x_mm, sp.max_y_mm))], sp.min_x_mm,
                      miny + h / dpmm, dpmm, 3.5, rng, ctx)
            if min(w, h):
                saved(im, a, rng, ctx, tmp)
            ctx.count("raster_renders")
        else:
            im = f.file.render_with_shapely(st) if st or rng.random() < 0.5 else f.file.render_with_shapely()
            sp = im.get_image_space()
            space(sp, f, 0, box, "vector")
            want, got = io.BytesIO(), io.BytesIO()
            shapely_vm(False).run(compile_text(f.text)).save_svg(want, style)
            if rng.random() < 0.5:
                im.save(got)
            else:
                p = os.path.join(tmp, "x.svg")
                im.save_svg(p)
                got.write(open(p, "rb").read())
            eq(got.getvalue(), want.getvalue(), "vector drawing")
            ctx.count("vector_renders")
        ctx.count("type_" + f.type)


def saved(im, a, rng, ctx, tmp):
    import numpy as np
    from PIL import Image
    fmt = rng.choice(["png", "PNG", "tiff", "bmp", "jpeg", "webp", "Tiff"])
    if rng.random() < 0.5:
        dst = io.BytesIO()
    else:
        dst = os.path.join(tmp, "o")
    kw = {"lossless": True} if fmt == "webp" else {"quality": 95} if fmt == "jpeg" else {}
    if rng.random() < 0.5:
        im.save(dst, fmt, **kw)
    else:
        getattr(im, "save_" + fmt.lower())(dst, **kw)
    if isinstance(dst, io.BytesIO):
        dst.seek(0)
    back = Image.open(dst)
    eq(back.format.lower(), fmt.lower(), "format of saved picture")
    if fmt.lower() in ("png", "tiff", "bmp"):
        b = np.asarray(back.convert("RGBA"))
        n = 3 if fmt == "bmp" else 4        # readers take BMP as opaque
        check(b.shape == a.shape and (b[..., :n] == a[..., :n]).all(), f"{fmt} differs from the picture")
    else:
        b = np.asarray(back.convert("RGB")).astype(int)
        check(b.shape[:2] == a.shape[:2], f"{fmt} has another size")
        d = np.abs(b - a[..., :3].astype(int)).max(axis=2)
        check((d > 60).mean() < 0.3, f"{fmt} differs from the picture")
    ctx.count("saved_" + fmt.lower())


def view(rng, ctx, tmp):
    import numpy as np
    from pygerber.gerber.api import CompositeView, DEFAULT_ALPHA_COLOR_MAP, FileTypeEnum
    fs = [load(rng, ctx, tmp) for _ in range(rng.randint(1, 4))]
    ctx.put(source="\n----\n".join(f.text for f in fs), options=[f.opts for f in fs])
    v = CompositeView([f.file for f in fs]) if rng.random() < 0.5 else CompositeView(f.file for f in fs)
    eq(len(v), len(fs), "number of files")
    check(all(a is b.file for a, b in zip(v.files, fs)), "files of the view")
    cmap = DEFAULT_ALPHA_COLOR_MAP
    if rng.random() < 0.5:
        cmap = colour_map(rng)
        check(v.set_color_map(cmap) is v, "set_color_map result")
    dpmm = resolution(rng, fs)
    im = v.render_with_pillow(dpmm=dpmm)
    sub = im.get_sub_images()
    eq(len(sub), len(fs), "number of sub images")
    frames = []
    for f, s in zip(fs, sub):
        space(s.get_image_space(), f, dpmm, shapely_vm(False).run(compile_text(f.text)).main_box, "sub image")
        sp = s.get_image_space()
        frames.append((f, cmap[FileTypeEnum[f.type]], (sp.min_x_mm, sp.min_y_mm, sp.max_x_mm, sp.max_y_mm)))
    minx, miny = min(b[0] for _, _, b in frames), min(b[1] for _, _, b in frames)
    maxx, maxy = max(b[2] for _, _, b in frames), max(b[3] for _, _, b in frames)
    a = np.asarray(im.get_image())
    h, w = a.shape[:2]
    check(abs(w - (maxx - minx) * dpmm) <= 2 and abs(h - (maxy - miny) * dpmm) <= 2,
          f"picture {w}x{h} for {maxx - minx:.3f}x{maxy - miny:.3f} mm at {dpmm} dpmm")
    if w and h:
        judge(a, frames, minx, maxy, dpmm, 5.5, rng, ctx, stack=True)
        saved(im, a, rng, ctx, tmp)
    ctx.count("views_of_%d" % len(fs))
    if len({f.unit for f in fs}) > 1:
        ctx.count("views_mixed_units")
    ctx.distinct(*[f.text for f in fs], dpmm)


def options(rng, ctx):
    """changing options, and formatting, on one object"""
    import numpy as np
    from pygerber.gerber import formatter
    from pygerber.gerber.api import GerberFile, Style
    from pygerber.gerber.parser import parse
    from pygerber.vm.pillow.vm import PillowVirtualMachine
    g = Gen(rng, unit="mm", span=3000, arcs=False)
    g.header()
    g.ad("C")
    g.body(rng.randint(1, 4))
    g.op(3, g.pos(), g.pos()) if g.ap else None
    g.put(("stop",), rng.choice(["M02*", "M00*"]))
    for _ in range(rng.randint(1, 3)):
        g.flash() if g.usable("CROP") else None
    g.put(("stop",), "M02*")
    text = g.source()
    ctx.put(source=text)
    f = GerberFile.from_str(text)
    st = Style.presets.BLACK_WHITE
    ref = {k: np.asarray(PillowVirtualMachine(10).run(compile_text(text, ignore_program_stop=k)).get_image(st))
           for k in (False, True)}
    cur = False
    for _ in range(rng.randint(2, 5)):
        q = rng.random()
        if q < 0.4:
            cur = rng.random() < 0.5
            opts = {"ignore_program_stop": cur} if cur or rng.random() < 0.5 else {}
            check(f.set_compiler_options(**opts) is f, "set_compiler_options result")
        elif q < 0.5:
            check(f.set_parser_options(**rng.choice([{}, {"strict": True}, {"resilient": False}])) is f, "set_parser_options result")
        elif q < 0.65:
            o = rng.choice([None, formatter.Options(macro_body_indent=2), formatter.Options(indent_character="\t")])
            want = formatter.formats(parse(text), o)
            eq(f.formats(o), want, "formats()")
            out = io.StringIO()
            f.format(out, o)
            eq(out.getvalue(), want, "format()")
        else:
            a = np.asarray(f.render_with_pillow(st, 10).get_image())
            check(a.shape == ref[cur].shape and (a == ref[cur]).all(), f"picture with ignore_program_stop={cur}")
            ctx.count("option_renders")
    if (ref[False].shape != ref[True].shape) or (ref[False] != ref[True]).any():
        ctx.count("options_that_matter")
    ctx.distinct(text)


def case(rng, ctx):
    if rng.random() < 0.1:
        return options(rng, ctx)
    tmp = tempfile.mkdtemp(prefix="vp-c17-")
    try:
        if rng.random() < 0.4:
            return view(rng, ctx, tmp)
        f = load(rng, ctx, tmp)
        ctx.put(source=f.text, options=f.opts)
        one(f, rng, ctx, tmp)
        ctx.distinct(f.text, f.opts)
        ctx.sample(f.text)
    finally:
        shutil.rmtree(tmp)
