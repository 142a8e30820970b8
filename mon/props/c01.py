"""C01 coordinate codec."""
from fractions import Fraction

from mon.harness import Violation, check, eq

ID = "C01"
LEVEL = "exploration"
TECHNIQUE = 'reference-model monitor on codec calls under random and boundary workloads'
LEVEL_NOTE = "Every conversion observed is compared with an exact decimal model; samples the value space, exhaustive over digit counts. Trusts Python's decimal."
RULE = ("every (zero omission, integer digits 0-9, decimal digits 0-9) pair for X and Y, with random and boundary digit "
        "strings (sign, padding, shortest, longest, too long, empty) decoded by the format object and by running real "
        "programs (X/Y/I/J), against exact rational arithmetic; representable numbers encoded and decoded back. "
        "Distinct: (format, digit string).")
ASSUMPTIONS = ["formats with a total of at most 15 digits per axis for encoding (double precision)"]
QUICK, THOROUGH, TIMEOUT = 2400, 60000, 60


def ref(digits, zeros, ni, nd):
    sign = 1
    if digits[:1] in ("+", "-"):
        sign = -1 if digits[0] == "-" else 1
        digits = digits[1:]
    if not digits:
        return "short"
    if len(digits) > ni + nd:
        return "long"
    if zeros == "T":
        digits = digits.ljust(ni + nd, "0")
    return sign * Fraction(int(digits), 10 ** nd)


def digits_for(rng, ni, nd):
    n = ni + nd
    k = rng.random()
    if k < 0.08:
        ln = n + rng.randint(1, 3)
    elif k < 0.3:
        ln = n
    else:
        ln = rng.randint(1, n)
    body = "".join(rng.choice("0123456789") for _ in range(ln))
    if rng.random() < 0.25:
        body = "0" * rng.randint(0, ln) + body
        body = body[:ln]
    if rng.random() < 0.15:
        body = body[: max(1, ln // 2)] + "0" * (ln - max(1, ln // 2))
    if rng.random() < 0.1:
        body = rng.choice(["9", "0"]) * ln
    return rng.choice(["", "", "-", "+"]) + body


def case(rng, ctx):
    from pygerber.gerber.ast.errors import PackedCoordinateTooLongError, PackedCoordinateTooShortError
    from pygerber.gerber.ast.nodes.enums import CoordinateNotation, Zeros
    from pygerber.gerber.ast.nodes.types import PackedCoordinateStr
    from pygerber.gerber.ast.state_tracking_visitor import CoordinateFormat, StateTrackingVisitor
    from pygerber.gerber.parser import parse
    z = rng.choice(["L", "T", ""])
    ni, nd, mi, md = (rng.randint(0, 9) for _ in range(4))
    ni, mi = ni or (0 if nd else 1), mi or (0 if md else 1)
    fmt = CoordinateFormat(zeros=Zeros(z), coordinate_mode=CoordinateNotation.ABSOLUTE,
                           x_integral=ni, x_decimal=nd, y_integral=mi, y_decimal=md)
    ctx.put(format=f"{z or '(none)'} X{ni}{nd}Y{mi}{md}")
    axes = [("x", fmt.unpack_x, fmt.pack_x, ni, nd), ("y", fmt.unpack_y, fmt.pack_y, mi, md)]
    for ax, unpack, pack, a, b in axes:
        for _ in range(12):
            d = digits_for(rng, a, b)
            ctx.put(digits=d)
            want = ref(d, z, a, b)
            try:
                got = unpack(PackedCoordinateStr(d))
            except PackedCoordinateTooLongError:
                got = "long"
            except PackedCoordinateTooShortError:
                got = "short"
            if isinstance(want, str):
                eq(got, want, f"{ax} {d!r}")
                ctx.count("rejected")
            else:
                check(not isinstance(got, str) and got == float(want),
                      f"{ax} {d!r} decoded to {got!r}, expected {float(want)!r}")
                ctx.count("decoded")
                ctx.distinct(z, a, b, d)
                if a + b <= 15:
                    p = pack(float(want))
                    eq(ref(p, z, a, b), want, f"{ax} {float(want)!r} encoded as {p!r}")
                    eq(unpack(p), float(want), f"{ax} {float(want)!r} encoded as {p!r} and decoded back")
                    body = p.lstrip("+-")
                    if z == "T":
                        check(body == "0" or not body.endswith("0"), f"{p!r} keeps trailing zeros")
                    else:
                        check(body == "0" or not body.startswith("0"), f"{p!r} keeps leading zeros")
                    ctx.count("encoded")
        for bad in ("", "+", "-"):
            try:
                got = unpack(PackedCoordinateStr(bad))
            except PackedCoordinateTooShortError:
                got = "short"
            eq(got, "short", f"{ax} {bad!r}")
        # arbitrary numbers round to the nearest representable one; too large is refused
        if a + b <= 14:
            for _ in range(4):
                v = rng.uniform(-(10 ** a) * 0.999, (10 ** a) * 0.999)
                if abs(v) + 10.0 ** -b >= 10 ** a:
                    continue
                p = pack(v)
                w = ref(p, z, a, b)
                check(not isinstance(w, str) and abs(w - Fraction(v)) <= Fraction(1, 2 * 10 ** b),
                      f"{ax} {v!r} encoded as {p!r} = {w}")
                ctx.count("rounded")
            big = 10.0 ** a * rng.choice([1, 1.5, -2])
            try:
                p = pack(big)
                raise Violation(f"{ax}: {big!r} does not fit {a} integer digits but was encoded as {p!r}")
            except PackedCoordinateTooLongError:
                ctx.count("refused_too_large")
    # the same through a real program; I and J use the X and Y formats
    vals = {}
    src = f"%FS{z}AX{ni}{nd}Y{mi}{md}*%%MOMM*%%ADD10C,1*%D10*"
    for c, (a, b) in (("X", (ni, nd)), ("Y", (mi, md)), ("I", (ni, nd)), ("J", (mi, md))):
        while True:
            d = digits_for(rng, a, b)
            w = ref(d, z, a, b)
            if not isinstance(w, str):
                break
        vals[c] = (d, w)
    src += "".join(f"{c}{d}" for c, (d, _) in vals.items()) + "D01*M02*"
    ctx.put(source=src)

    class Probe(StateTrackingVisitor):
        seen = None

        def on_draw_line(self, node):
            super().on_draw_line(node)
            self.seen = (self.state.coordinate_x, self.state.coordinate_y, self.state.coordinate_i,
                         self.state.coordinate_j)

    v = Probe()
    parse(src).visit(v)
    want = tuple(float(w) for _, w in vals.values())
    eq(v.seen, want, "coordinates of the operation")
    eq((v.state.current_x, v.state.current_y), want[:2], "current point after the operation")
    ctx.count("programs")
    ctx.distinct(src)
    ctx.sample(src)
