"""C14 layer machine."""
from mon import sem
from mon.harness import Violation, check
from mon.img import shapely_vm
from mon.layers import Build, shape_of

ID = "C14"
LEVEL = "exploration"
TECHNIQUE = "reference-model monitor: both layer machines against set algebra of areas; error oracle for ill-formed lists"
LEVEL_NOTE = ("Random well-formed instruction lists run on the real vector and raster machines and compared with independent "
              "union/difference/translation of areas; ill-formed lists must raise the documented error. Sampled.")
RULE = ("layers nested in definition and in use, automatic and fixed boxes, origins, dark and clear shapes of lines and "
        "arcs, dark and clear pastes, empty layers; ill-formed lists made by one mutation. Distinct: instruction list.")
ASSUMPTIONS = ["origin of the main layer is zero", "layer boxes contain what is drawn to them",
               "features below the arc approximation error or close to edges (raster) are not judged"]
QUICK, THOROUGH, TIMEOUT = 3000, 20000, 60


def case(rng, ctx):
    if rng.random() < 0.25:
        return broken(rng, ctx)
    b = Build(rng, span=rng.choice([20, 40, 60]))
    rvmc = b.program()
    ctx.put(program=rvmc.to_json())
    fine = rng.random() < 0.7
    res = shapely_vm(fine).run(rvmc)
    tol = (1e-3 if fine else 0.012) * 3 + 2e-4
    d = sem.compare(res.shape, b.area, tol, "main layer")
    if d:
        raise Violation(d)
    extent(res.main_box, b)
    ctx.count("vector_runs")
    if rng.random() < 0.4:
        raster(rvmc, b, ctx, rng)
    for c in rvmc.commands:
        ctx.count("instruction_" + type(c).__name__)
    ctx.count("layers", len(b.layers))
    ctx.distinct(rvmc.to_json())
    ctx.sample(rvmc.to_json())


def extent(mb, b):
    if b.ext is None:
        return
    got = (mb.min_x, mb.min_y, mb.max_x, mb.max_y)
    if b.exact:
        check(max(abs(p - q) for p, q in zip(got, b.ext)) < 1e-6, f"extent {got}, expected {b.ext}")
    else:
        check(got[0] <= b.ext[0] + 1e-2 and got[1] <= b.ext[1] + 1e-2 and got[2] >= b.ext[2] - 1e-2
              and got[3] >= b.ext[3] - 1e-2, f"extent {got} does not contain {b.ext}")


def raster(rvmc, b, ctx, rng):
    import numpy as np
    import shapely
    from pygerber.vm.pillow.vm import PillowVirtualMachine
    dpmm = rng.choice([10, 15, 25])
    if b.ext is not None and (b.ext[2] - b.ext[0]) * (b.ext[3] - b.ext[1]) * dpmm ** 2 > 8e6:
        return
    res = PillowVirtualMachine(dpmm).run(rvmc)
    extent(res.main_box, b)
    img = np.asarray(res.get_image_no_style().convert("L")) > 127
    h, w = img.shape
    mb = res.main_box
    if b.ext is None:
        check(not img.any(), "empty program gave set pixels")
        return
    check(abs(w - mb.width * dpmm) <= 1.001 and abs(h - mb.height * dpmm) <= 1.001,
          f"raster {w}x{h} for {mb} at {dpmm}")
    if not w or not h:
        ctx.count("raster_without_pixels")
        return
    rs = np.random.RandomState(rng.randrange(2 ** 31))
    n = 4000
    px, py = rs.randint(0, w, n), rs.randint(0, h, n)
    x = mb.min_x + (px + 0.5) / dpmm
    y = mb.min_y + (h - 1 - py + 0.5) / dpmm
    shapely.prepare(b.area)
    bad = np.nonzero(shapely.contains_xy(b.area, x, y) != img[py, px])[0]
    if len(bad):
        pts = shapely.points(x[bad], y[bad])
        d = np.full(len(bad), 9e9)
        for o in [b.area] + b.parts:
            if not o.is_empty:
                d = np.minimum(d, shapely.distance(pts, o.boundary))
        # one pixel of rounding per level of nesting, one per edge, and the arc error
        far = bad[d > (3.5 + len(b.layers)) / dpmm + 0.01]
        if len(far):
            k = far[0]
            raise Violation(f"{len(far)} pixels wrong, e.g. ({px[k]}, {py[k]}) at ({x[k]:.3f}, {y[k]:.3f}) is "
                            f"{'set' if img[py[k], px[k]] else 'clear'}", dpmm=dpmm)
    ctx.count("pixels_judged", n)


def broken(rng, ctx):
    """one defect in an otherwise well-formed list"""
    from pygerber.vm.commands import EndLayer, PasteLayer, Shape, StartLayer
    from pygerber.vm.pillow.vm import PillowVirtualMachine
    from pygerber.vm.rvmc import RVMC
    from pygerber.vm.shapely.vm import ShapelyVirtualMachine
    from pygerber.vm.types import Box, LayerID, Vector
    from pygerber.vm.types import errors as E
    b = Build(rng, span=30)
    cmds = list(b.program().commands)
    kind = rng.choice(["outside", "end", "dup", "missing", "open-auto", "empty", "nomain", "self"])
    sh = Shape(commands=shape_of(rng, 20)[0], is_negative=False)
    kw = {}
    main = next(i for i, c in enumerate(cmds) if isinstance(c, StartLayer) and c.id.id == "%main%")
    if kind == "outside":
        cmds.insert(0, sh)
        want = E.NoLayerSetError
    elif kind == "end":
        cmds.insert(rng.choice([0, len(cmds)]), EndLayer())
        want = E.NoLayerSetError
    elif kind == "dup":
        s = rng.choice([c for c in cmds if isinstance(c, StartLayer)])
        cmds += [StartLayer(id=s.id), sh, EndLayer()]
        want = E.LayerAlreadyExistsError
    elif kind == "missing":
        cmds.insert(main + 1, PasteLayer(source_layer_id=LayerID(id="nowhere"), center=Vector(x=1, y=1)))
        want = E.LayerNotFoundError
    elif kind == "self":
        # pasting an automatically sized layer before it is finished
        cmds = [StartLayer(id=LayerID(id="A")), sh, PasteLayer(source_layer_id=LayerID(id="A"), center=Vector(x=1, y=1)),
                EndLayer()] + cmds
        want = E.PasteDeferredLayerNotAllowedError
    elif kind == "open-auto":
        cmds = [StartLayer(id=LayerID(id="A")), sh,
                StartLayer(id=LayerID(id="B"), box=Box(min_x=-9, min_y=-9, max_x=9, max_y=9)) if rng.random() < 0.5
                else StartLayer(id=LayerID(id="B")),
                PasteLayer(source_layer_id=LayerID(id="A"), center=Vector(x=1, y=1)), EndLayer(), EndLayer()] + cmds
        want = E.PasteDeferredLayerNotAllowedError
    elif kind == "empty":
        hollow = [StartLayer(id=LayerID(id="A")), EndLayer()]
        fixed = Box(min_x=-9, min_y=-9, max_x=9, max_y=9)
        q = rng.random()
        if q < 0.4:          # inside another layer which is still open, of its own size or not
            o = StartLayer(id=LayerID(id="B"), box=fixed) if rng.random() < 0.5 else StartLayer(id=LayerID(id="B"))
            body = hollow + [sh] if rng.random() < 0.5 else [sh] + hollow
            cmds = [o, *body, EndLayer()] + cmds
        elif q < 0.6:
            cmds[main + 1:main + 1] = hollow
        else:
            cmds = hollow + cmds
        kw = dict(fail_on_empty_auto_sized_layer=True)
        want = E.EmptyAutoSizedLayerNotAllowedError
    else:
        cmds = [StartLayer(id=LayerID(id="A")), sh, EndLayer()] if rng.random() < 0.5 else []
        kw = dict(fail_on_empty_auto_sized_layer=True)
        want = E.NoMainLayerError
    rvmc = RVMC(commands=cmds)
    ctx.put(program=rvmc.to_json(), kind=kind)
    for vm in (ShapelyVirtualMachine(**kw), PillowVirtualMachine(10, **kw)):
        if isinstance(vm, PillowVirtualMachine) and b.ext and (b.ext[2] - b.ext[0]) * (b.ext[3] - b.ext[1]) > 8e4:
            continue
        try:
            vm.run(rvmc)
        except want:
            ctx.count("raised_" + want.__name__)
        except Exception as e:
            raise Violation(f"{kind}: {type(vm).__name__} raised {type(e).__name__}: {e}, expected {want.__name__}")
        else:
            raise Violation(f"{kind}: {type(vm).__name__} accepted the list, expected {want.__name__}")
    ctx.distinct(rvmc.to_json())
