"""C09 aperture transformations."""
from mon.harness import Violation
from mon.img import check_image, compile_text, shapely_vm
from mon.sem import Gen, common, compare, shift

ID = "C09"
LEVEL = "exploration"
TECHNIQUE = "reference-model monitor: image of transformed flashes against an independent affine model"
LEVEL_NOTE = ("Every generated program is rendered by the real code and compared with flashes transformed by an "
              "independent mirror-rotate-scale-shift matrix; a replay with the same settings must repeat the image. Sampled.")
RULE = ("random programs with LM, LR, LS changes in every order between flashes of asymmetric apertures of every kind, "
        "macros and blocks, and draws and regions in between; image == reference, and a second flash after leaving and "
        "restoring the settings gives the same image at its place. Distinct: program text.")
ASSUMPTIONS = ["draws use circular apertures (scaled only); regions are not transformed, as specified",
               "features smaller than the arc approximation error are not judged"]
QUICK, THOROUGH, TIMEOUT = 1500, 14000, 60


def case(rng, ctx):
    q = rng.random()
    g = Gen(rng, transforms="MRS", macros=q < 0.6, blocks=q > 0.4, polarity=rng.random() < 0.5,
            regions=rng.random() < 0.4, free=rng.random() < 0.3)
    g.header()
    if q < 0.6:
        g.admacro(*g.am())
    g.ad("R"), g.ad("P")
    for _ in range(rng.randint(1, 5)):
        for _ in range(rng.randint(0, 3)):
            g.transform()
        if rng.random() < 0.3:
            g.body(1)
        g.flash()
    g.end()
    text = g.source()
    ctx.put(source=text)
    objs, want, res = check_image(g, text, ctx, fine=rng.random() < 0.8)
    for c in g.cmds:
        if c[0] in ("lm", "lr", "ls"):
            ctx.count("set_" + c[0])
            ctx.distinct(c)
    ctx.count("images")
    ctx.distinct(text)
    ctx.sample(text)
    if rng.random() < 0.5:
        again(rng, ctx)


def again(rng, ctx):
    """settings A, flash, settings B, flash elsewhere, settings A, flash: first and last are congruent"""
    g = Gen(rng, transforms="MRS", polarity=False, macros=True)
    g.header()
    aid = g.admacro(*g.am()) if rng.random() < 0.5 else g.ad()
    a = (rng.choice(["N", "X", "Y", "XY"]), rng.choice([0, 30, 90, 200, -75]), rng.choice([1000, 500, 1500]))
    b = (rng.choice(["N", "X", "Y", "XY"]), rng.choice([0, 45, 180, 275]), rng.choice([1000, 2000, 750]))

    def put(st):
        todo = [("lm", st[0], f"%LM{st[0]}*%"), ("lr", st[1], f"%LR{st[1]}*%"), ("ls", st[2], f"%LS{st[2] / 1000}*%")]
        rng.shuffle(todo)
        for t, v, s in todo:
            g.put((t, v), s)

    g.select(aid)
    put(a)
    g.op(3, 0, 0)
    put(b)
    g.op(3, 100000, 0)
    put(a)
    g.op(3, 0, 100000)
    g.end()
    text = g.source("\n")
    ctx.put(source=text)
    import shapely
    img = shapely_vm().run(compile_text(text)).shape
    first = common(img, shapely.box(-50, -50, 50, 50))
    last = shift(common(img, shapely.box(-50, 50, 50, 150)), 0, -100)
    d = compare(last, first, 1e-4, "flash after restoring the settings")
    if d:
        raise Violation(d)
    ctx.count("restored_settings")
