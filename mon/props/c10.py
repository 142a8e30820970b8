"""C10 block apertures and step and repeat."""
from mon.img import check_image
from mon.sem import Gen

ID = "C10"
LEVEL = "exploration"
TECHNIQUE = "reference-model monitor: image of blocks and step-and-repeat against their independent expansion"
LEVEL_NOTE = ("The real image is compared with the independent expansion of every block flash and repeat cell, incl. "
              "nesting, polarity toggling and state after the block ends. Sampled.")
RULE = ("random programs with nested block apertures (up to 3 deep, dark and clear contents, flashed in both "
        "polarities and transformed), step-and-repeat of 1..3 x 1..3 cells with any steps, and objects drawn after "
        "them with the state they leave; image == expansion. Distinct: program text.")
ASSUMPTIONS = ["step and repeat inside a block or another repeat is not legal Gerber and not generated",
               "the current point is not relied on right after a block or repeat (the specification leaves it undefined)"]
QUICK, THOROUGH, TIMEOUT = 1600, 14000, 90


def case(rng, ctx):
    g = Gen(rng, blocks=True, repeat=True, macros=rng.random() < 0.3, regions=rng.random() < 0.5,
            transforms=rng.choice(["", "", "MRS", "R", "M"]), polarity=rng.random() < 0.8, free=rng.random() < 0.3)
    g.header()
    g.ad()
    for _ in range(rng.randint(1, 3)):
        q = rng.random()
        if q < 0.45:
            g.block()
            if rng.random() < 0.5 and g.f["polarity"]:
                g.polarity()
            g.flash("B")
        elif q < 0.8:
            g.sr()
        else:
            g.body(2)
        if rng.random() < 0.4:
            # state left behind is used by the next object
            if g.ap is not None and g.aps[g.ap][0] != "B":
                g.op(3, g.pos(), g.pos())
    g.body(rng.randint(0, 3))
    g.end()
    text = g.source()
    ctx.put(source=text)
    check_image(g, text, ctx, fine=rng.random() < 0.8)
    note(g.cmds, ctx, 0)
    ctx.distinct(text)
    ctx.sample(text)


def note(cmds, ctx, depth):
    for c in cmds:
        if c[0] == "ab":
            ctx.count(f"blocks_depth_{depth + 1}")
            note(c[2], ctx, depth + 1)
        elif c[0] == "sr":
            ctx.count("repeats")
            ctx.count("repeat_cells", c[1] * c[2])
            note(c[5], ctx, depth)
