"""C20 linter."""
from collections import Counter

from mon.harness import Violation, check, eq
from mon.syn import Emit, N, Syn

ID = "C20"
LEVEL = "exploration"
TECHNIQUE = "reference-model monitor: reported violations and rule notifications vs the constructs written by the generator"
LEVEL_NOTE = ("Each program is generated together with the list of constructs the rules cover and their positions; what "
              "the linter reports and what a monitoring rule is told are compared with it. Sampled, not exhaustive.")
RULE = ("random well-formed programs dense in G01/G02/G03/G54/G55 and block apertures (also merged with operations, nested "
        "in blocks and step-repeats, with white space and CRLF), linted with all rules, every subset of rules, a reused "
        "Linter object and a rule of ours registered for every node class; reports must be exactly the constructs written, "
        "each once, with rule, title, offsets, line and column of the text. Distinct: program text and rule selection.")
ASSUMPTIONS = ["a rule is selected at most once per run"]
QUICK, THOROUGH, TIMEOUT = 1200, 20000, 60

RULES = ["DEP001", "DEP002", "GRB001"]
TITLE = {"DEP001": "Use of deprecated G54 code.", "DEP002": "Use of deprecated G55 code."}


class LSyn(Syn):
    GS = [1, 1, 1, 2, 2, 3, 54, 54, 55, 55, 36, 37, 74, 75, 90]

    def any(self, depth=0):
        r = self.r
        k = r.random()
        if k < 0.25:
            return self.g()
        if k < 0.45:
            return self.gd()
        if depth < 2 and k < 0.55:
            return [self.abn(depth) if depth or r.random() < 0.6 else self.srn(depth)]
        return super().any(depth)


def walk(nodes):
    for n in nodes:
        if isinstance(n, N):
            yield n
            yield from walk(n.toks)


def expected(nodes, rules):
    out = []
    last = None
    for n in walk(nodes):
        if n.cls == "G54" and "DEP001" in rules:
            out.append(("DEP001", TITLE["DEP001"], n))
        elif n.cls == "G55" and "DEP002" in rules:
            out.append(("DEP002", TITLE["DEP002"], n))
        elif n.cls in ("G01", "G02", "G03"):
            if last == n.cls and "GRB001" in rules:
                out.append(("GRB001", f"Redundant {n.cls} command.", n))
            last = n.cls
        elif n.cls == "ABclose":
            last = None
    return out


def compare(viol, exp, text, what):
    got = sorted(((v.start_offset, v.rule_id, v) for v in viol), key=lambda t: t[:2])
    want = sorted(((n.start, rid, title, n) for rid, title, n in exp), key=lambda t: t[:2])
    g = Counter((o, r) for o, r, _ in got)
    w = Counter((o, r) for o, r, *_ in want)
    if g != w:
        raise Violation(f"{what}: not reported {sorted((w - g).elements())}, reported in excess {sorted((g - w).elements())} "
                        "(offset, rule)")
    for (o, _, v), (_, rid, title, n) in zip(got, want):
        eq(v.title, title, f"{what}: title of {rid} at {o}")
        check(bool(v.description), f"{what}: {rid} without description")
        line = text.count("\n", 0, n.start) + 1
        col = n.start - (text.rfind("\n", 0, n.start) + 1) + 1
        eq((v.line, v.column), (line, col), f"{what}: line and column of {rid} at {o}")
        eq(v.end_offset, n.end, f"{what}: end of {rid} at {o}")


def watcher(base_rule, all_nodes):
    class Watch(base_rule):
        rule_id = "WATCH"

        def __init__(self):
            self.seen = []

        def get_violation_title(self):
            return "seen"

        def get_violation_description(self):
            return "seen"

        def get_trigger_nodes(self):
            return all_nodes

        def reset(self):
            self.seen = []

        def node_callback(self, node):
            self.seen.append(node)
            if type(node).__name__ == "G04":
                self.report_violation(node.source_info)

    return Watch()


def case(rng, ctx):
    from pygerber.gerber import linter
    from pygerber.gerber.ast import nodes as nd
    from pygerber.gerber.parser import parse
    s = LSyn(rng)
    nodes = s.body(0, rng.randint(1, 16))
    if rng.random() < 0.5:
        nodes.append(s.cmd("M02", {}, ["M02"]))
    e = Emit(rng, ws_between=rng.random() < 0.85, ws_inside=rng.choice([0, 0, 0.1]), newline=rng.choice(["\n", "\n", "\r\n"]))
    text = e.program(nodes)
    ctx.put(source=text)
    ast = parse(text)

    exp = expected(nodes, RULES)
    compare(linter.lint(ast), exp, text, "all rules")
    compare(linter.lint(ast, []), exp, text, "no selection")
    sub = rng.sample(RULES, rng.randint(1, 3))
    ctx.put(rules=sub)
    compare(linter.lint(ast, sub), expected(nodes, sub), text, f"rules {sub}")

    # same Linter object on another program and again
    lo = linter.Linter([linter.RULE_REGISTRY[r]() for r in RULES])
    other = parse(rng.choice(["G01*\nG54D10*\nX1Y1D01*\nG03*\n", "G02*G02*G55*M02*", "%FSLAX26Y26*%%MOMM*%G03*M02*"]))
    compare(lo.lint(ast), exp, text, "first use of linter object")
    first_other = [v.model_dump() for v in lo.lint(other)]
    eq(first_other, [v.model_dump() for v in linter.lint(other)], "linter object used for a second program")
    compare(lo.lint(ast), exp, text, "third use of linter object")

    # a rule registered for every class of nodes
    every = sorted({c for c in vars(nd).values() if isinstance(c, type) and issubclass(c, nd.Node)}, key=lambda c: c.__name__)
    w = watcher(linter.Rule, every)
    rep = linter.Linter([w]).lint(ast)
    flat = list(walk(nodes))
    got = Counter((type(n).__name__, n.source_info.location) for n in w.seen if type(n).__name__ != "File")
    want = Counter((n.cls, n.start) for n in flat)
    if got != want:
        raise Violation(f"rule registered for all nodes: not told about {sorted((want - got).elements())[:5]}, "
                        f"told in excess about {sorted((got - want).elements())[:5]}")
    eq(sum(type(n).__name__ == "File" for n in w.seen), 1, "notifications about the file node")
    top = {(n.cls, n.start) for n in nodes}
    order = [k for n in w.seen if (k := (type(n).__name__, n.source_info.location if n.source_info else -1)) in top]
    eq(order, [(n.cls, n.start) for n in nodes], "order of notifications about commands")
    com = sorted(n.start for n in flat if n.cls == "G04")
    eq(sorted(v.start_offset for v in rep), com, "places reported by rule on comments")

    ctx.count("violations_expected_and_reported", len(exp))
    for rid, _, _ in exp:
        ctx.count(f"rule_{rid}")
    ctx.count("notifications", len(w.seen))
    if not exp:
        ctx.count("programs_without_violation")
    ctx.distinct(text, tuple(sub))
    ctx.sample(text)
