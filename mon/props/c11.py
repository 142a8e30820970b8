"""C11 macro primitives."""
from mon.img import check_image
from mon.sem import Gen

ID = "C11"
LEVEL = "exploration"
TECHNIQUE = "reference-model monitor: image of flashed macros against independently built primitives"
LEVEL_NOTE = ("Each macro is flashed through the real pipeline and compared with its independently built primitives, "
              "exposure applied in order within the macro only. Sampled.")
RULE = ("random macros of 1..6 primitives of codes 1, 2, 20, 21, 22, 4, 5, 6, 7 with positive, negative, fractional and "
        "over-rotated parameters given as literals, parameters, expressions and variables, exposure on and off, over "
        "dark ground, flashed dark and clear; image == reference. Distinct: macro text.")
ASSUMPTIONS = ["features smaller than the arc approximation error are not judged",
               "the first primitive with exposure on exists (a macro drawing nothing is legal but invisible)"]
QUICK, THOROUGH, TIMEOUT = 1200, 16000, 60


def fixed():
    return [1, 20, 2, 21, 22, 4, 5, 6, 7]


def fixed_case(code, ctx):
    import random
    for k in range(6):
        run(random.Random(code * 100 + k), ctx, (code,))


def case(rng, ctx):
    run(rng, ctx, None)


def run(rng, ctx, codes):
    from mon.sem import Params
    g = Gen(rng, polarity=True, transforms=rng.choice(["", "", "", "MRS"]), regions=False)
    g.header()
    if rng.random() < 0.6:      # dark ground that exposure off must not erase
        base = g.ad("R")
        g.select(base)
        g.op(3, 0, 0)
    for _ in range(rng.randint(1, 3)):
        pool = Params(rng)
        prims = None
        if codes or rng.random() < 0.7:
            prims = [g.prim(pool, codes=codes or (1, 20, 2, 21, 22, 4, 5, 6, 7)) for _ in range(rng.randint(1, 6))]
        # a name given again means the new definition from then on
        name, pool = g.am(rng.choice(list(g.macros)) if g.macros and rng.random() < 0.12 else None, prims=prims)
        g.admacro(name, pool)
        for code, a in g.macros[name][0]:
            ctx.count(f"primitive_{code}")
            if code not in (6, 7) and a[0] == 0:
                ctx.count("exposure_off")
        if g.f["transforms"] and rng.random() < 0.4:
            g.transform()
        if rng.random() < 0.3:
            g.polarity()
        g.select(list(g.aps)[-1])
        g.op(3, rng.randint(-30, 30) * 100, rng.randint(-30, 30) * 100)
        if rng.random() < 0.3:
            g.polarity("D")
    g.end()
    text = g.source()
    ctx.put(source=text)
    check_image(g, text, ctx, fine=rng.random() < 0.85)
    ctx.distinct(text)
    ctx.sample(text)
