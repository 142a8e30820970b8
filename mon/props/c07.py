"""C07 macro expressions and variables."""
from fractions import Fraction as F

from mon import sem
from mon.harness import Violation, check
from mon.img import compile_text, shapely_vm

ID = "C07"
LEVEL = "exploration"
TECHNIQUE = "reference-model monitor: macro operands against exact rational evaluation of the same expression"
LEVEL_NOTE = ("Every operand is observed as the place and size of a rectangle in the rendered image (and as the value the "
              "expression evaluator returns) and compared with exact rational arithmetic on the generating tree. Sampled.")
RULE = ("random expressions over constants, parameters, assigned, reassigned and undefined variables with + - x X / "
        "unary signs and parentheses, used as operands of rectangles of macros instantiated several times with "
        "different parameters in one program. Distinct: expression text and value.")
ASSUMPTIONS = ["divisors are at least 0.05 in magnitude and values at most 1e4, so float rounding stays below 1e-6",
               "parentheses nest at most 3 deep (parse time of the grammar grows exponentially with nesting)"]
QUICK, THOROUGH, TIMEOUT = 500, 12000, 90


class TooBig(Exception):
    pass


def const(rng):
    k = rng.choice([0, 1, 2, 3, 5, 10, rng.randint(0, 30)])
    d = rng.choice([0, 0, 0, 1, 2, 3])
    if d == 0:
        return rng.choice([f"{k}", f"{k}", f"{k}.0", f"{k}."]), F(k)
    f = rng.randint(0, 10 ** d - 1)
    s = f"{k}.{f:0{d}d}"
    if k == 0 and rng.random() < 0.3:
        s = s[1:]
    return s, F(k) + F(f, 10 ** d)


# an expression is (text, fn(scope) -> Fraction, level)   level 3 atom, 2 unary, 1 product, 0 sum
def atom(rng, names, depth):
    q = rng.random()
    if q < 0.45 or (depth <= 0 and not names):
        s, v = const(rng)
        return s, (lambda sc, v=v: v)
    if q < 0.85 and names or depth <= 0:
        n = rng.choice(names)
        return n, (lambda sc, n=n: sc.get(n, F(0)))
    s, f = expr(rng, names, depth - 1)
    return f"({s})", f


def unary(rng, names, depth):
    s, f = atom(rng, names, depth)
    q = rng.random()
    if q < 0.12:
        return "-" + s, (lambda sc: -f(sc))
    if q < 0.16:
        return "+" + s, f
    return s, f


def product(rng, names, depth):
    s, f = unary(rng, names, depth)
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
        t, g = unary(rng, names, depth)
        if rng.random() < 0.35:
            s, f = f"{s}/{t}", (lambda sc, f=f, g=g: f(sc) / safe(g(sc)))
        else:
            s, f = f"{s}{rng.choice('xxX')}{t}", (lambda sc, f=f, g=g: f(sc) * g(sc))
    return s, f


def safe(v):
    if abs(v) < F(1, 20):
        raise TooBig
    return v


def expr(rng, names, depth):
    s, f = product(rng, names, depth)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        t, g = product(rng, names, depth)
        if rng.random() < 0.5:
            s, f = f"{s}-{t}", (lambda sc, f=f, g=g: f(sc) - g(sc))
        else:
            s, f = f"{s}+{t}", (lambda sc, f=f, g=g: f(sc) + g(sc))
    return s, f


def bounded(f, scopes, lo=-1000, hi=1000):
    try:
        return all(lo <= f(sc) <= hi for sc in scopes)
    except TooBig:
        return False


def make(rng, names, scopes, lo=-1000, hi=1000):
    for _ in range(60):
        s, f = expr(rng, names, rng.choice([0] * 6 + [1] * 5 + [2] * (rng.random() < 0.15)))
        if bounded(f, scopes, lo, hi):
            return s, f
    s, v = const(rng)
    return f"{s}", (lambda sc: v)


def case(rng, ctx):
    if rng.random() < 0.3:
        return value_case(rng, ctx)
    n_inst = rng.choice([1, 2, 2, 3])
    n_par = rng.randint(0, 5)
    par = [[const(rng) for _ in range(rng.choice([n_par, n_par, n_par, max(0, n_par - 1)]))] for _ in range(n_inst)]
    for p in par:
        for i, (s, v) in enumerate(p):
            if rng.random() < 0.3:
                p[i] = ("-" + s, -v)
    scopes = [{f"${i + 1}": v for i, (_, v) in enumerate(p)} for p in par]
    names = [f"${i + 1}" for i in range(n_par + 1)] + ["$20", "$21", "$107"]
    lines = ["AMX*"]
    want = [[] for _ in par]
    for k in range(rng.randint(1, 5)):
        for _ in range(rng.choice([0, 0, 1, 2])):
            n = rng.choice(names + ["$22", "$9", "$1070", "$307"])
            s, f = make(rng, names, scopes)
            lines.append(f"{n}={s}*")
            for sc in scopes:
                sc[n] = f(sc)
            if n not in names:
                names.append(n)
            ctx.count("assignments")
        ops = []
        for o in range(4):
            s, f = make(rng, names, scopes, -400, 400)
            if o < 2:       # sizes are made positive
                s, f = f"401+{s}" if not s.startswith("+") else f"401+({s})", (lambda sc, f=f: 401 + f(sc))
            ops.append((s, f))
            ctx.distinct(s, tuple(sorted(f(sc) for sc in scopes)))
        w, h, x, y = ops
        off = 3000 * k
        lines.append(f"21,1,{w[0]},{h[0]},{off}+{x[0] if x[0][0] != '+' else '(' + x[0] + ')'},{y[0]},0*")
        for i, sc in enumerate(scopes):
            want[i].append((off + x[1](sc), y[1](sc), w[1](sc), h[1](sc)))
    src = ["%FSLAX66Y66*%", "%MOMM*%", "%" + "\n".join(lines) + "%"]
    ids = list(range(10, 10 + n_inst))
    for i in ids:
        p = "X".join(s for s, _ in par[i - 10])
        src.append(f"%ADD{i}X{',' + p if p else ''}*%")
    for i in ids:
        src += [f"D{i}*", f"X0Y{(i - 10) * 3000}000000D03*"]
    src.append("M02*")
    text = "\n".join(src)
    ctx.put(source=text)
    ctx.sample(text)
    res = shapely_vm().run(compile_text(text))
    img = res.shape
    import shapely
    for i in ids:
        for k, (x, y, w, h) in enumerate(want[i - 10]):
            y = y + 3000 * (i - 10)
            cell = shapely.box(3000 * k - 1500, 3000 * (i - 10) - 1500, 3000 * k + 1500, 3000 * (i - 10) + 1500)
            b = sem.common(img, cell).bounds
            check(len(b) == 4 and b[0] == b[0], f"instance D{i}, primitive {k}: nothing drawn")
            exp = [float(x - w / 2), float(y - h / 2), float(x + w / 2), float(y + h / 2)]
            if max(abs(p - q) for p, q in zip(b, exp)) > 1e-5:
                raise Violation(f"instance D{i}, primitive {k}: box {b}, expected {exp}")
            ctx.count("operands_observed", 4)
    ctx.count("instances", n_inst)


def value_case(rng, ctx):
    from pygerber.gerber.ast.expression_eval_visitor import ExpressionEvalVisitor
    from pygerber.gerber.parser import parse
    names = ["$1", "$2", "$3"]
    sc = {n: const(rng)[1] * rng.choice([1, -1]) for n in names[:rng.randint(0, 3)]}
    exprs = [make(rng, names, [sc], -10000, 10000) for _ in range(8)]
    text = "%AMA*\n" + "\n".join(f"$9={s}*" for s, _ in exprs) + "%"
    ctx.put(source=text, scope=str(sc))
    nodes = [p for p in parse(text).nodes[0].primitives]
    check(len(nodes) == len(exprs), f"{len(nodes)} assignments parsed of {len(exprs)}")
    vis = ExpressionEvalVisitor({k: float(v) for k, v in sc.items()})
    for n, (s, f) in zip(nodes, exprs):
        got, want = vis.evaluate(n.expression), float(f(sc))
        if abs(got - want) > 1e-7 * max(1, abs(want)):
            raise Violation(f"{s} with {sc} evaluates to {got}, expected {want}")
        ctx.count("expressions_evaluated")
        ctx.distinct(s, want)
