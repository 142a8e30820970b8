"""C06 attributes."""
import datetime
import re

from mon.harness import Violation, check
from mon.sem import Gen

ID = "C06"
LEVEL = "exploration"
TECHNIQUE = "online trace monitor: attribute dictionaries and object metadata against a reference attribute store"
LEVEL_NOTE = ("Every attribute carries a unique token, so each dictionary entry and each metadata entry observed is "
              "traced to the command that set it. Histories are sampled.")
RULE = ("random histories of TF, TA, TO and TD (named and bare) interleaved with aperture definitions of every kind, "
        "draws, arcs, flashes, regions, blocks and repeats; dictionaries after every command, per-aperture snapshot, "
        "attributes in force at every operation, and metadata of every compiled object == reference. "
        "Distinct: program text.")
ASSUMPTIONS = ["metadata of compiled objects is judged only in programs whose aperture and object attribute names are "
               "disjoint (metadata of a region merges both)",
               "attributes do not change inside a region (not legal)",
               "snapshot of a block aperture is judged only if its contents leave aperture attributes alone"]
QUICK, THOROUGH, TIMEOUT = 1600, 24000, 60

TA = [".AperFunction", ".DrillTolerance", ".FlashText", "UA", "my.ap", "Size_1", "X"]
TO = [".N", ".P", ".C", ".CRot", ".CMfr", ".CMPN", ".CVal", ".CFtp", ".CPgN", ".CPgD", ".CHgt", ".CLbN", ".CLbD",
      ".CSup", ".CMnt", "UO", "my.ob", "Y"]
TF = [".Part", ".FileFunction", ".ProjectId", ".MD5", ".GenerationSoftware", ".CreationDate", ".SameCoordinates", ".FilePolarity",
      "UF", "Z_f"]
ENUM = {".CMnt": ["TH", "SMD", "Pressfit", "Other"], ".FilePolarity": ["Positive", "Negative"]}


def attr_text(kind, name, k):
    tok = f"tk{k}e"
    num = f"{k}.125"
    std = {".AperFunction": f"Other,{tok}", ".DrillTolerance": f"{num},0.5", ".FlashText": f"{tok},C,R,F,10",
           ".P": f"R1,{tok}", ".CRot": num, ".CHgt": num, ".CSup": f"Sup,{tok}", ".N": f"N1,{tok}",
           ".Part": f"Other,{tok}", ".FileFunction": f"Other,{tok}", ".ProjectId": f"{tok},abc,rev",
           ".MD5": f"dddd{k:020d}dddddddd", ".GenerationSoftware": f"V,{tok}"}
    if name == ".CreationDate":
        d = datetime.date(2000, 1, 1) + datetime.timedelta(days=k)
        return f"%TF.CreationDate,{d.isoformat()}T11:22:33+00:00*%"
    if name in ENUM:
        return f"%{kind}{name},{ENUM[name][k % len(ENUM[name])]}*%"
    if name in std:
        return f"%{kind}{name},{std[name]}*%"
    return f"%{kind}{name},{tok}*%"


TOK = re.compile(r"dddd(\d+)dddddddd|tk(\d+)e|\b(\d+)\.125\b")


def token(obj):
    s = obj if isinstance(obj, str) else obj.model_dump_json(serialize_as_any=True)
    # source positions may be part of a dump; the token is the only such text
    m = TOK.findall(s)
    if not m and (d := re.search(r"(\d{4}-\d\d-\d\d)T11:22:33", s)):
        return (datetime.date.fromisoformat(d[1]) - datetime.date(2000, 1, 1)).days
    if not m and (d := re.search(r'"(mount|polarity)":"(\w+)"', s)):
        return d[2]
    ks = {int(a or b or c) for a, b, c in m}
    check(len(ks) == 1, f"attribute value without its token: {s[:300]}")
    return ks.pop()


class Prog:
    """builds text and the expected observations side by side"""

    def __init__(self, rng):
        self.r = rng
        self.g = Gen(rng, transforms="", polarity=True, macros=True, blocks=True, repeat=True)
        self.n = 0
        self.tf, self.ta, self.to = {}, {}, {}
        self.aps = {}           # id -> snapshot or None
        self.ops = []           # (kind, to snapshot, ta snapshot, aperture id)
        self.depth = 0
        self.after = []         # state after each top-level text item
        self.shared = rng.random() < 0.2    # the same names for attributes of all kinds
        extra = ["UA", "X", "both", "UF"] * 4 if self.shared else []
        self.names = {"TA": TA + extra, "TO": TO + extra, "TF": TF + extra}

    def attr(self):
        r = self.r
        q = r.random()
        if q < 0.25:
            if r.random() < 0.25:
                self.g.put(("td", None), "%TD*%")
                self.ta.clear(), self.to.clear()
            else:
                n = r.choice((list(self.ta) + list(self.to)) * 2 + TA + TO)
                self.g.put(("td", n), f"%TD{n}*%")
                self.ta.pop(n, None), self.to.pop(n, None)
            return
        self.n += 1
        kind, d = r.choice([("TF", self.tf), ("TA", self.ta), ("TA", self.ta), ("TO", self.to), ("TO", self.to)])
        n = r.choice(self.names[kind])
        d[n] = ENUM[n][self.n % len(ENUM[n])] if n in ENUM else self.n
        self.g.put(("t", kind, n, self.n), attr_text(kind, n, self.n))

    def mark(self):
        if self.depth == 0:
            self.after.append((len(self.g.cmds), dict(self.tf), dict(self.ta), dict(self.to)))

    def scan(self, before):
        """note new apertures and operations among commands added by the generator"""
        region = False
        for c in self.g.cmds[before:]:
            if c[0] == "ad":
                self.aps[c[1]] = dict(self.ta)
            elif c[0] == "g" and c[1] == 36:
                region = True
            elif c[0] == "g" and c[1] == 37:
                region = False
                self.ops.append(("region", dict(self.to), dict(self.ta), None))
            elif c[0] in ("op", "gop"):
                d = c[1] if c[0] == "op" else c[2]
                if not region and d in (1, 3):
                    self.ops.append(("draw" if d == 1 else "flash", dict(self.to), dict(self.ta), self.g.ap))

    def step(self):
        r, g = self.r, self.g
        before = len(g.cmds)
        q = r.random()
        if q < 0.45:
            self.attr()
        elif q < 0.6:
            if r.random() < 0.3:
                g.admacro(*g.am())
            else:
                g.ad()
            self.scan(before)
        elif q < 0.72:
            self.draw1()
            self.scan(before)
        elif q < 0.84:
            if not g.usable("CROPM"):
                g.ad()
            g.select(r.choice(g.usable("CROPM")))
            g.op(3, g.pos(), g.pos())
            self.scan(before)
        elif q < 0.92 or self.depth:
            g.put(("g", 36), "G36*")
            g.contour()
            g.put(("g", 37), "G37*")
            self.scan(before)
        else:
            self.nest()

    def draw1(self):
        g, r = self.g, self.r
        if not g.usable("C"):
            g.ad("C")
        g.select(r.choice(g.usable("C")))
        if r.random() < 0.4:
            g.arc_at(g.pos(), g.pos(), r.randint(1, 6) * 100, r.randrange(12), r.randrange(12), r.random() < 0.5)
        else:
            g.move_always(g.pos(), g.pos())
            g.line_to(g.pos(), g.pos())

    def nest(self):
        r, g = self.r, self.g
        ta0 = dict(self.ta)
        block = r.random() < 0.6
        ops0 = len(self.ops)

        def fill():
            self.depth += 1
            for _ in range(r.randint(1, 5)):
                self.step()
            self.depth -= 1
        body, text = g.nested(fill)
        inner = self.ops[ops0:]
        if block:
            aid = g.new_id()
            g.put(("ab", aid, body), "\n".join([f"%AB{aid}*%"] + text + ["%AB*%"]))
            self.aps[aid] = ta0 if ta0 == self.ta else None
            self.ops[ops0:] = [("block", inner)]
        else:
            nx, ny = r.randint(1, 2), r.randint(1, 3)
            g.put(("sr", nx, ny, 500, 700, body), "\n".join([f"%SRX{nx}Y{ny}I.5J.7*%"] + text + ["%SR*%"]))
            self.ops[ops0:] = [("sr", inner, nx * ny)]
        g.ap = None


def case(rng, ctx):
    p = Prog(rng)
    g = p.g
    g.header()
    p.mark()
    for _ in range(rng.randint(4, 25)):
        p.step()
        p.mark()
    g.end()
    text = g.source("\n")
    ctx.put(source=text)
    from pygerber.gerber.parser import parse
    from pygerber.gerber.compiler import Compiler
    ast = parse(text)
    watch(p, ast, ctx)
    if not p.shared:
        compiled(p, Compiler(include_metadata=True).compile(ast), ctx)
    ctx.count("attribute_commands", p.n)
    ctx.distinct(text)
    ctx.sample(text)


def toks(d):
    return {k: token(v) for k, v in d.items()}


def linear(ops, out=None):
    """operations as the interpreter meets them"""
    out = [] if out is None else out
    for o in ops:
        if o[0] in ("block", "sr"):
            linear(o[1], out)
        else:
            out.append(o)
    return out


def watch(p, ast, ctx):
    """dictionaries after every top-level command and at every operation"""
    from pygerber.gerber.ast.state_tracking_visitor import StateTrackingVisitor

    class W(StateTrackingVisitor):
        seen = None

        def note(self, kind):
            self.seen.append((kind, toks(self.state.attributes.object_attributes),
                              toks(self.state.attributes.aperture_attributes), self.state.current_aperture_id))

        def on_end_region(self):
            self.note("region")
            super().on_end_region()

    for nm in ("line", "cw_arc_sq", "cw_arc_mq", "ccw_arc_sq", "ccw_arc_mq"):
        setattr(W, f"on_draw_{nm}", lambda self, node: self.note("draw"))
    for nm in ("circle", "rectangle", "obround", "polygon", "macro", "block"):
        setattr(W, f"on_flash_{nm}", lambda self, node, ap: self.note("flash"))
    w = W()
    w.seen = []
    marks = {n: rest for n, *rest in p.after}
    done = 0
    nodes, k = list(ast.nodes), 0
    for n, c in enumerate(p.g.cmds, 1):
        if c[0] == "stop":
            break
        for _ in range(2 if c[0] == "gop" else 1):
            nodes[k].visit(w)
            k += 1
        if type(nodes[k - 1]).__name__ == "G54" and type(nodes[k]).__name__ == "Dnn":
            nodes[k].visit(w)
            k += 1
        if n in marks:
            tf, ta, to = marks[n]
            a = w.state.attributes
            for nm, want, got in (("file", tf, a.file_attributes), ("aperture", ta, a.aperture_attributes),
                                  ("object", to, a.object_attributes)):
                got = toks(got)
                if got != want:
                    raise Violation(f"{nm} attributes after command {n}: {got}, expected {want}")
            done += 1
    check(done == len(p.after), f"only {done} of {len(p.after)} states were reached")
    ctx.count("dictionary_states", done)
    want = linear(p.ops)
    check(len(want) == len(w.seen), f"{len(w.seen)} operations seen, expected {len(want)}")
    for k, (a, b) in enumerate(zip(w.seen, want)):
        if a[:3] != b[:3] or (b[3] is not None and a[3] != b[3]):
            raise Violation(f"operation {k}: {a}, expected {b}")
    ctx.count("operations", len(want))
    per = w.state.apertures.per_aperture_attributes
    for aid, want in p.aps.items():
        check(aid in per, f"no attribute snapshot for aperture {aid}")
        if want is not None and toks(per[aid]) != want:
            raise Violation(f"aperture {aid} carries {toks(per[aid])}, expected {want}")
    ctx.count("aperture_snapshots", len(p.aps))


def compiled(p, rvmc, ctx):
    """metadata of the objects of the compiled program"""
    from pygerber.vm.commands import EndLayer, PasteLayer, Shape, StartLayer

    def md(cmd):
        return {k: token(v) for k, v in (cmd.metadata or {}).items()}

    layers, cur = {}, None
    for c in rvmc.commands:
        if isinstance(c, StartLayer):
            cur = layers.setdefault(c.id.id, [])
        elif isinstance(c, EndLayer):
            cur = None
        else:
            cur.append(c)
    if {k: token(v) for k, v in (rvmc.metadata or {}).items()} != p.tf:
        raise Violation(f"file metadata {rvmc.metadata}, expected {p.tf}")
    want = []
    for o in p.ops:
        if o[0] == "block":
            continue
        if o[0] == "sr":
            want += linear([o]) * o[2]
        else:
            want.append(o)
    main = layers[list(layers)[-1]]

    def runs(seq):
        out = []
        for k, d in seq:
            if not out or out[-1] != (k, d):
                out.append((k, d))
        return out

    # an object may be drawn by several shapes; equal neighbours are merged on both sides
    got = runs((("flash" if isinstance(c, PasteLayer) else "shape"), md(c)) for c in main)
    exp = runs((("flash" if o[0] == "flash" else "shape"), {**o[2], **o[1]} if o[0] == "region" else o[1])
               for o in want)
    for k, (a, b) in enumerate(zip(got, exp)):
        if a != b:
            raise Violation(f"object run {k} is {a}, expected {b}")
    check(len(got) == len(exp), f"{len(got)} runs of objects, expected {len(exp)}")
    ctx.count("object_runs_with_metadata", len(exp))
    pastes = [c for c in main if isinstance(c, PasteLayer)]
    flashes = [o for o in want if o[0] == "flash"]
    check(len(pastes) == len(flashes), f"{len(pastes)} flashes compiled, expected {len(flashes)}")
    for cmd, o in zip(pastes, flashes):
        if md(cmd) != o[1]:
            raise Violation(f"flash of {o[3]} has metadata {md(cmd)}, expected {o[1]}")
        ctx.count("aperture_shapes", deep(layers, cmd.source_layer_id.id, p.aps[o[3]], md, o[3], Shape))


def deep(layers, lid, want, md, aid, Shape):
    n = 0
    for c in layers[lid]:
        if isinstance(c, Shape):
            if md(c) != want:
                raise Violation(f"shape of aperture {aid} has metadata {md(c)}, expected {want}")
            n += 1
        else:
            n += deep(layers, c.source_layer_id.id, want, md, aid, Shape)
    return n
