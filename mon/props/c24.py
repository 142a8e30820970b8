"""C24 the syntax tree as its users see it: visitors, node accessors, position lookup."""
import hashlib
import re

from mon.harness import Violation, check, eq
from mon.props.c02 import gen
from mon.syn import N, classes

ID = "C24"
LEVEL = "exploration"
TECHNIQUE = 'trace monitor: a visitor with every callback hooked, compared with the tree the text was made from'
LEVEL_NOTE = "Each walk is recorded callback by callback and compared with the generator's own tree; sampled programs. Trusts the generator's reading of the Gerber grammar."
RULE = ("random well-formed programs over every command kind, parsed and walked by a visitor of ours that overrides every "
        "callback: each node of the tree must reach its own callback exactly once, in the order of the text, with the "
        "generic callbacks of its family; callbacks that raise; damaged programs; accessors of every node; lookup by "
        "position; MD5 attributes computed over the text. Distinct: program text.")
ASSUMPTIONS = ["position lookup is judged at positions inside a command, not in white space between commands",
               "lookup by position answers with the command, macro statement or block statement, not with its operands"]
QUICK, THOROUGH, TIMEOUT = 1500, 25000, 60


def snake(s):
    return re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "_", s).lower()


def callback(cls):
    """documented name of the callback of a node class"""
    if cls.startswith("TO_"):
        return "on_to_" + ("user_name" if cls == "TO_UserName" else cls[3:].lower())
    if cls in ("TF_MD5",):
        return "on_tf_md5"
    if cls[:3] in ("TA_", "TF_"):
        return f"on_{cls[:2].lower()}_{snake(cls[3:])}"
    m = re.fullmatch(r"(AB|AM|SR)(open|close)", cls)
    if m:
        return f"on_{m[1].lower()}_{m[2]}"
    if cls == "ADmacro":
        return "on_ad_macro"
    m = re.fullmatch(r"Code(\d+)", cls)
    if m:
        return f"on_code_{m[1]}"
    m = re.fullmatch(r"Coordinate([XYIJ])", cls)
    if m:
        return f"on_coordinate_{m[1].lower()}"
    return "on_" + cls.lower()


EXPR = {"Add", "Sub", "Mul", "Div", "Neg", "Pos", "Constant", "Variable", "Parenthesis"}


def family(cls):
    if cls[:3] in ("TA_", "TF_", "TO_"):
        return "on_" + cls[:2].lower()
    if cls in ("ADC", "ADR", "ADO", "ADP", "ADmacro"):
        return "on_ad"
    if cls in EXPR:
        return "on_expression"
    if cls.startswith("Coordinate"):
        return "on_coordinate"
    return None


FAMILIES = {"on_ta", "on_tf", "on_to", "on_ad", "on_expression", "on_coordinate"}


def preorder(n):
    yield n
    for t in n.toks:
        if isinstance(t, N):
            yield from preorder(t)


def make_visitor(fail=None, reraise=True):
    """Visitor overriding every callback: logs, then does what the overridden one does."""
    from pygerber.gerber.ast import AstVisitor

    log, errors = [], []

    def hook(name):
        base = getattr(AstVisitor, name)

        def f(self, node):
            log.append((name, node))
            if fail is not None and name not in FAMILIES and any(node is x for x in fail):
                raise Boom
            return base(self, node)
        return f

    d = {n: hook(n) for n in dir(AstVisitor) if n.startswith("on_") and n != "on_exception"}

    def on_exception(self, node, exception):
        errors.append((node, exception))
        return reraise
    d["on_exception"] = on_exception
    return type("Recorder", (AstVisitor,), d)(), log, errors


class Boom(Exception):
    pass


def objects(exp, got, path=""):
    """pairs (expected, object), following the structure of the expected tree"""
    yield exp, got
    kids = [t for t in exp.toks if isinstance(t, N)]
    have = {id(k) for k in kids}
    for name, v in exp.f.items():
        if isinstance(v, N) and id(v) in have:
            yield from objects(v, getattr(got, name))
        elif isinstance(v, list):
            for a, b in zip(v, getattr(got, name)):
                if isinstance(a, N) and id(a) in have:
                    yield from objects(a, b)


def walk_check(file, nodes, ctx):
    vis, log, errors = make_visitor()
    check(file.visit(vis) is file, "visit of the file does not return the file")
    check(not errors, f"on_exception called without an exception: {errors[:1]}")
    eq([n for n, _ in log[:1]], ["on_file"], "first callback")
    eq(sum(n == "on_file" for n, _ in log), 1, "on_file calls")
    eq([n for n, _ in log].count("on_end_of_file"), 1, "on_end_of_file calls")
    eq(log[-1][0], "on_end_of_file", "last callback")
    own = [(n, o) for n, o in log[1:-1] if n not in FAMILIES]
    want = [callback(e.cls) for n in nodes for e in preorder(n)]
    got = [n for n, _ in own]
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation(f"walk: callback {i} is {got[i:i + 3]}, the text has {want[i:i + 3]} (of {len(got)}/{len(want)})")
    pairs = {}
    for a, b in zip(nodes, file.nodes):
        for e, o in objects(a, b):
            pairs[id(e)] = o
    exp = [e for n in nodes for e in preorder(n)]
    for (name, o), e in zip(own, exp):
        check(o is pairs.get(id(e)), f"walk: {name} was given another node than the one at its place in the tree")
    fam = [(n, type(o).__name__) for n, o in log if n in FAMILIES]
    wantfam = [(family(e.cls), e.cls) for e in exp if family(e.cls)]
    eq(sorted(fam), sorted(wantfam), "calls of the generic callbacks")
    ctx.count("callbacks", len(log))
    return vis, pairs, exp


def accessors(vis, pairs, exp, text, ctx):
    for e in exp:
        o = pairs[id(e)]
        name = callback(e.cls)
        f = o.get_visitor_callback_function(vis)
        eq(getattr(f, "__self__", None), vis, f"callback function of {e.cls} belongs to")
        check(f == getattr(vis, name), f"{e.cls}.get_visitor_callback_function is not {name}")
        if e.start is not None and o.source_info is not None:
            eq(len(o), e.end - e.start, f"len of {e.cls}")
            si = o.source_info
            eq(si.end_column, e.end - (text.rfind("\n", 0, e.end) + 1) + 1, f"end column of {e.cls}")
        if e.cls == "SRopen":
            eq((o.x_repeats, o.y_repeats), (int(e.f["x"] or 1), int(e.f["y"] or 1)), "repeats")
            eq((o.x_delta, o.y_delta), (float(e.f["i"] or 0), float(e.f["j"] or 0)), "repeat distances")
        if e.cls == "LM":
            m = e.f["mirroring"]
            eq(o.mirroring.kwargs, {"x": "X" in m, "y": "Y" in m}, "mirroring")
            check(type(o.mirroring).new(x="X" in m, y="Y" in m) is o.mirroring, "Mirroring.new")
        ctx.count("accessors")


def leaves(nodes):
    """commands, statements of blocks and macros: what a lookup answers with"""
    for n in nodes:
        if n.cls in ("AB", "SR"):
            yield from leaves([n.f["open"], *n.f["nodes"], n.f["close"]])
        elif n.cls == "AM":
            yield from leaves([n.f["open"], *n.f["primitives"], n.f["close"]])
        else:
            yield n


def lookup(rng, file, nodes, pairs, text, ctx):
    from pygerber.gerber.ast import NodeFinder
    from pygerber.gerber.ast.node_finder import ZeroBasedPosition
    ls = list(leaves(nodes))
    finder = NodeFinder(file)
    for e in rng.sample(ls, min(len(ls), 12)):
        at = rng.choice([e.start, e.end - 1, rng.randint(e.start, e.end - 1)])
        if text[at] in "\r\n":
            continue
        line = text.count("\n", 0, at)
        col = at - (text.rfind("\n", 0, at) + 1)
        if rng.random() < 0.3:
            finder = NodeFinder(file)
        got = finder.find_node(ZeroBasedPosition(line=line, column=col).to_one_based())
        check(got is pairs[id(e)], f"lookup at line {line} column {col} (zero-based), inside {text[e.start:e.end]!r}: "
                                   f"{type(got).__name__} {got!r:.120}")
        ctx.count("lookups")


def raising(rng, file, nodes, ctx):
    """a callback raises: on_exception decides, the end of the file is always announced"""
    n = len(file.nodes)
    ks = sorted(rng.sample(range(n), min(n, rng.choice([1, 1, 2, 3, n]))))
    fail = [file.nodes[k] for k in ks]
    for reraise in (True, False):
        vis, log, errors = make_visitor(fail=fail, reraise=reraise)
        try:
            file.visit(vis)
            raised = False
        except Boom:
            raised = True
        eq(raised, reraise, "exception of a callback left the walk")
        tops = {id(x): i for i, x in enumerate(file.nodes)}
        eq([(tops.get(id(x)), type(e)) for x, e in errors], [(k, Boom) for k in (ks[:1] if reraise else ks)],
           "calls of on_exception")
        eq([x for x, _ in log].count("on_end_of_file"), 1, "on_end_of_file calls after an exception")
        seen = [tops[id(o)] for x, o in log if id(o) in tops and x not in FAMILIES]
        eq(seen, list(range(ks[0] + 1 if reraise else n)), f"commands visited when commands {ks} raise")
    ctx.count("raising_walks", 2)


def md5(rng, ctx):
    from pygerber.gerber.parser import parse
    nodes, text = gen(rng, ws_inside=0)
    text = re.sub(r"%TF\.MD5[^%]*%", "", re.sub(r"M0*2\*\s*$", "", text))
    text = text.rstrip(" \t") if rng.random() < 0.5 else text + rng.choice(["", "\n", "\r\n"])
    h = hashlib.md5(re.sub(r"[\r\n]", "", text).encode()).hexdigest()
    right = rng.random() < 0.5
    if not right:
        if rng.random() < 0.5:
            i = rng.randrange(32)
            h = h[:i] + rng.choice([c for c in "0123456789abcdef" if c != h[i]]) + h[i + 1:]
        else:
            h = hashlib.md5((re.sub(r"[\r\n]", "", text) + rng.choice("x%*")).encode()).hexdigest()
    src = text + f"%TF.MD5,{h}*%" + rng.choice(["", "\n", "\r\n"]) + "M02*" + rng.choice(["", "\n"])
    ctx.put(source=src)
    try:
        file = parse(src)
    except Exception:
        if not text.strip():
            return
        raise
    n = [n for n in file.nodes if type(n).__name__ == "TF_MD5"]
    eq(len(n), 1, "MD5 commands")
    eq(n[0].check_source_hash(), right, "MD5 of the text up to the attribute is right")
    ctx.count("md5_right" if right else "md5_wrong")
    ctx.distinct(src, "md5")


def damaged(rng, ctx):
    """invalid parts of a damaged program reach on_invalid, the others their own callbacks"""
    from pygerber.gerber.parser import parse
    nodes, text = gen(rng, ws_inside=0)
    lines = text.split("\n")
    for _ in range(rng.randint(1, 3)):
        lines.insert(rng.randint(0, len(lines)), rng.choice(["garbage", "%XX*%", "D01X", "%AD", "???", "G999*"]))
    src = "\n".join(lines)
    ctx.put(source=src)
    file = parse(src, resilient=True)
    vis, log, errors = make_visitor()
    file.visit(vis)
    tops = {id(n): i for i, n in enumerate(file.nodes)}
    seen = [(n, tops[id(o)]) for n, o in log if id(o) in tops and n not in FAMILIES]
    eq(seen, [(callback(type(n).__name__), i) for i, n in enumerate(file.nodes)], "callbacks of the commands of a damaged program")
    check(not errors, "on_exception called without an exception")
    ctx.count("invalid_visited", sum(n == "on_invalid" for n, _ in seen))
    ctx.distinct(src, "damaged")


def case(rng, ctx):
    from pygerber.gerber.parser import parse
    k = rng.random()
    if k < 0.15:
        return md5(rng, ctx)
    if k < 0.25:
        return damaged(rng, ctx)
    nodes, text = gen(rng)
    ctx.put(source=text)
    file = parse(text)
    eq(len(file.nodes), len(nodes), "commands")
    vis, pairs, exp = walk_check(file, nodes, ctx)
    accessors(vis, pairs, exp, text, ctx)
    lookup(rng, file, nodes, pairs, text, ctx)
    raising(rng, file, nodes, ctx)
    for c in classes(nodes):
        ctx.count(f"kind_{c}")
    ctx.distinct(text)
    ctx.sample(text)
