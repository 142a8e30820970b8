"""C26 instruction (RVMC) builder."""
from mon import sem
from mon.harness import Violation, check, eq
from mon.img import shapely_vm

ID = "C26"
LEVEL = "exploration"
TECHNIQUE = "reference-model monitor: every layer the built list produces against the calls made on the builder"
LEVEL_NOTE = ("Random nestings of calls on the real builder; the list is run on the real vector machine and the main layer "
              "compared with set algebra over the requested shapes; rejected calls must raise and change nothing. Sampled.")
RULE = ("layers nested up to 4 deep, with boxes and origins, shapes of all kinds added to any open layer (also while a nested "
        "one is open), pastes of any finished layer, calls on finished layers and locked builders. Distinct: built list.")
ASSUMPTIONS = ["layer ids are not reused", "a layer is pasted only after it was finished, as documented",
               "fixed boxes contain what is drawn"]
QUICK, THOROUGH, TIMEOUT = 6000, 40000, 60


class L:
    def __init__(self, lb, lid, origin):
        import shapely as sh
        self.lb, self.lid, self.origin = lb, lid, origin
        self.area = sh.Polygon()
        self.objs = 0
        self.done = False


def shape(r, lb, neg):
    """make one call, return the geometry asked for"""
    import shapely as sh
    n = lambda lo, hi: r.randint(lo, hi) / 100
    c = (n(-600, 600), n(-600, 600))
    k = r.choice(["circle", "rectangle", "obround", "polygon", "line", "cross", "x"])
    if k == "circle":
        d = n(30, 400)
        lb.circle(c, d, is_negative=neg)
        g = sem.disc(*c, d)
    elif k == "rectangle":
        w, h = n(30, 500), n(30, 500)
        lb.rectangle(c, w, h, is_negative=neg)
        g = sem.rect(*c, w, h)
    elif k == "obround":
        w, h = n(30, 500), n(30, 500)
        if abs(w - h) < 0.1:
            w += 0.5
        lb.obround(c, w, h, is_negative=neg)
        from shapely import affinity
        g = affinity.translate(sem.aperture("O", [w * 1000, h * 1000]), *c)
    elif k == "polygon":
        d, v, rot = n(80, 500), r.randint(3, 12), r.choice([0, 15, -30, 45.5, 90, 200])
        lb.polygon(c, d, v, rot, is_negative=neg)
        g = sem.regular(*c, d, v, rot)
    elif k == "line":
        e = (n(-600, 600), n(-600, 600))
        if abs(e[0] - c[0]) + abs(e[1] - c[1]) < 0.3:
            e = (c[0] + 1, c[1])
        t = n(20, 150)
        lb.line(c, e, t, is_negative=neg)
        g = sh.LineString([c, e]).buffer(t / 2, quad_segs=32)
        return k, ("line", g, sh.LineString([c, e]).buffer(t / 2, cap_style="flat"))
    elif k == "cross":
        w, h, t = n(40, 500), n(40, 500), n(20, 200)
        lb.cross(c, w, h, t, is_negative=neg)
        g = sem.rect(*c, w, t).union(sem.rect(*c, t, h))
    else:
        ln, t = n(50, 500), n(20, 200)
        lb.x(c, ln, t, is_negative=neg)
        hl = ln / 2
        a = [(c[0] + hl, c[1] + hl), (c[0] - hl, c[1] - hl)]
        b = [(c[0] - hl, c[1] + hl), (c[0] + hl, c[1] - hl)]
        return k, ("line", None, sh.unary_union([sh.LineString(q).buffer(t / 2, cap_style="flat") for q in (a, b)]))
    return k, ("exact", g, g)


def rejected(f, name, ctx):
    try:
        f()
    except Exception as e:
        check(name in [t.__name__ for t in type(e).__mro__], f"raised {type(e).__name__}: {e}, expected {name}")
        ctx.count("rejected_" + name)
    else:
        raise Violation(f"call accepted, expected {name}")


def enter(f, *a, **k):
    with f(*a, **k):
        pass


def fill(r, cur, stack, done, ctx, ids, depth):
    from pygerber.vm.types import Box
    for _ in range(r.randint(0 if depth else 1, 5)):
        q = r.random()
        if q < 0.25 and depth < 4:
            lid = r.choice(["D", "a b", "é", "%", "x"]) + str(len(ids))
            ids.append(lid)
            origin = None if r.random() < 0.5 else tuple(r.choice([0, r.randint(-200, 200) / 100]) for _ in "xy")
            m = 60 * (depth + 2)
            box = Box(min_x=-m, min_y=-m, max_x=m, max_y=m) if r.random() < 0.2 else None
            kw = {}
            if origin is not None:
                kw["origin"] = origin
            if box is not None:
                kw["box"] = box
            ctx.asked[lid] = (box, origin)
            with cur.lb.layer(lid, **kw) as lb:
                sub = L(lb, lid, origin or (0, 0))
                if r.random() < 0.2:
                    rejected(lambda: enter(cur.lb.layer, "other"), "RuntimeError", ctx)
                fill(r, sub, stack + [sub], done, ctx, ids, depth + 1)
            sub.done = True
            done.append(sub)
            ctx.count(f"layers_depth_{depth + 1}")
            if r.random() < 0.5:
                paste(r, cur, sub, ctx)
        elif q < 0.45 and done:
            if r.random() < 0.15:
                s = r.choice(done)
                before = len(s.lb.commands)
                rejected(lambda: shape(r, s.lb, False), "RuntimeError", ctx)
                rejected(lambda: enter(s.lb.layer, "late"), "RuntimeError", ctx)
                rejected(lambda: s.lb.paste(s, at=(0, 0), is_negative=False), "RuntimeError", ctx)
                eq(len(s.lb.commands), before, "commands of a finished layer")
            else:
                paste(r, cur, r.choice(done), ctx)
        else:
            # to this layer or, while it is open, to one of its parents
            t = cur if r.random() < 0.85 else r.choice(stack)
            neg = r.random() < 0.3
            k, g = shape(r, t.lb, neg)
            t.area = sem.minus(t.area, g[2]) if neg else sem.union(t.area, g[2])
            t.objs += 1
            ctx.count("shape_" + k + ("_negative" if neg else ""))


def paste(r, cur, src, ctx):
    at = (r.randint(-800, 800) / 100, r.randint(-800, 800) / 100)
    neg = r.random() < 0.3
    cur.lb.paste(src.lb, at=at, is_negative=neg)
    g = sem.shift(src.area, at[0] - src.origin[0], at[1] - src.origin[1])
    cur.area = sem.minus(cur.area, g) if neg else sem.union(cur.area, g)
    ctx.count("pastes" + ("_negative" if neg else ""))


def case(rng, ctx):
    from pygerber.builder.rvmc import RvmcBuilder
    from pygerber.vm.commands import StartLayer
    from pygerber.vm.pillow.vm import PillowVirtualMachine
    from pygerber.vm.types import Box
    b = RvmcBuilder()
    done = []
    if rng.random() < 0.05:
        return locked(rng, ctx)
    kw = {}
    if rng.random() < 0.3:
        kw["box"] = Box(min_x=rng.randint(-60, -40), min_y=rng.randint(-60, -40), max_x=rng.randint(40, 60),
                        max_y=rng.randint(40, 60))
    if rng.random() < 0.3:
        kw["origin"] = tuple(rng.choice([0, rng.randint(-200, 200) / 100]) for _ in "xy")
    ctx.asked = {}
    with b.layer(**kw) as lb:
        main = L(lb, "main", (0, 0))
        fill(rng, main, [main], done, ctx, [], 0)
    rvmc = b.get_rvmc()
    ctx.put(program=rvmc.to_json())
    ctx.asked["%main%"] = (kw.get("box"), kw.get("origin"))
    seen = []
    for c in rvmc.commands:
        if isinstance(c, StartLayer):
            box, origin = ctx.asked[c.id.id]
            seen.append(c.id.id)
            eq(c.box, box, f"box of layer {c.id.id!r}")
            eq((c.origin.x, c.origin.y), tuple(origin or (0, 0)), f"origin of layer {c.id.id!r}")
    eq(sorted(seen), sorted(ctx.asked), "layers")
    res = shapely_vm(True).run(rvmc)
    ox, oy = kw.get("origin", (0, 0))
    d = sem.compare(res.shape, sem.shift(main.area, -ox, -oy), 6e-3, "main layer")
    if d:
        raise Violation(d)
    if "box" in kw:
        eq(res.main_box, kw["box"], "extent of the image")
    if rng.random() < 0.3:
        PillowVirtualMachine(dpmm=rng.choice([1, 3, 10])).run(rvmc)
        ctx.count("raster_runs")
    eq(b.get_rvmc().to_json(), rvmc.to_json(), "second get_rvmc()")
    rejected(lambda: enter(b.layer), "LockedBuilderError", ctx)
    eq(b.get_rvmc().to_json(), rvmc.to_json(), "get_rvmc() after a rejected call")
    ctx.distinct(rvmc.to_json())
    ctx.sample(rvmc.to_json())
    ctx.count("instructions", len(rvmc.commands))


def locked(r, ctx):
    from pygerber.builder.rvmc import RvmcBuilder
    b = RvmcBuilder()

    def early():
        with b.layer() as lb:
            shape(r, lb, False)
            b.get_rvmc()
    rejected(early, "LockedBuilderError", ctx)
    ctx.distinct(r.random())
