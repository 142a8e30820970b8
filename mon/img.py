"""Rendering helpers: run the real code, compare with the reference image."""
from mon.harness import Violation
from mon import sem

SEG = 96


def shapely_vm(fine=True):
    from pygerber.vm.shapely.vm import ShapelyVirtualMachine
    if fine:
        return ShapelyVirtualMachine(angle_length_to_segment_count=lambda _: SEG)
    return ShapelyVirtualMachine()


def compile_text(text, **kw):
    from pygerber.gerber.parser import parse
    from pygerber.gerber.compiler import compile
    return compile(parse(text), **kw)


def check_image(g, text, ctx, fine=True, what="image"):
    """Vector image of `text` equals the reference image of g.cmds."""
    ref = sem.Image()
    objs = ref.objects(g.cmds)
    want = sem.flatten(objs)
    res = shapely_vm(fine).run(compile_text(text))
    tol = (1.0e-3 if fine else 0.012) * max(ref.rmax, 0.1) + 2e-4
    d = sem.compare(res.shape, want, tol, what)
    if d:
        raise Violation(d, tolerance=tol)
    b = sem.bounds(objs)
    mb = res.main_box
    if b is not None:
        out = max(mb.min_x - b[0], mb.min_y - b[1], b[2] - mb.max_x, b[3] - mb.max_y)
        if out > tol + 1e-3:
            raise Violation(f"reported extent {mb} does not contain everything drawn {b}")
    ctx.count("objects_drawn", len(objs))
    ctx.count("clear_objects", sum(1 for o in objs if not o[0]))
    return objs, want, res
