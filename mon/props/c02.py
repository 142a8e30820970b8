"""C02 parser faithfulness."""
from mon.harness import Violation
from mon.syn import Emit, Syn, classes, diff_nodes

ID = "C02"
LEVEL = "exploration"
TECHNIQUE = 'reference-model monitor: generated source vs parsed nodes and spans'
LEVEL_NOTE = "Each parsed program is compared node by node with the generator's record of what it wrote; sampled, not exhaustive. Trusts the generator's reading of the Gerber grammar."
RULE = ("random well-formed programs over every command kind, with notation variants (leading zeros, signs, omitted "
        "codes, merged G/D words, white space and line breaks between and inside commands, CRLF), parsed by the real "
        "parser in strict, lenient and fault-tolerant mode; the node tree must equal the tree the text was made from, "
        "and node positions must be where the text was written. Distinct: program text.")
ASSUMPTIONS = ["attribute fields do not begin with white space (the reader skips white space between tokens)"]
QUICK, THOROUGH, TIMEOUT = 2200, 30000, 60


def gen(rng, ws_inside=None):
    s = Syn(rng)
    nodes = s.body(0, rng.randint(1, 14))
    if rng.random() < 0.7:
        nodes.append(s.cmd("M02", {}, ["M02"]))
    if not nodes:
        nodes = [s.g04()]
    wi = rng.choice([0, 0, 0.05, 0.2]) if ws_inside is None else ws_inside
    e = Emit(rng, ws_between=rng.random() < 0.85, ws_inside=wi, newline=rng.choice(["\n", "\n", "\r\n"]))
    return nodes, e.program(nodes)


_OVER = {}


def overrides():
    """One subclass of the same name per node class, as a user extending the tree would pass them."""
    if not _OVER:
        from pygerber.gerber.ast.nodes import Node

        def walk(c):
            for s in c.__subclasses__():
                yield s
                yield from walk(s)
        for c in list(walk(Node)):
            _OVER[c.__qualname__] = type(c.__qualname__, (c,), {"__module__": "c02_overrides"})
    return _OVER


def nodes_in(o):
    from pygerber.gerber.ast.nodes import Node
    if isinstance(o, Node):
        yield o
        for f in type(o).model_fields:
            yield from nodes_in(getattr(o, f))
    elif isinstance(o, (list, tuple)):
        for i in o:
            yield from nodes_in(i)


def case_overrides(rng, ctx):
    """Class overrides: the same tree, every node of it made from the class the caller supplied."""
    from pygerber.gerber.parser import parse
    nodes, text = gen(rng)
    ctx.put(source=text)
    over = overrides()
    file = parse(text, ast_node_class_overrides=over)
    d = diff_nodes(nodes, file.nodes)
    if d:
        raise Violation(f"with class overrides: {d}")
    for n in nodes_in(file):
        if type(n) is not over.get(type(n).__qualname__):
            raise Violation(f"{type(n).__qualname__} was not made from the class supplied for it")
        ctx.count("nodes_of_supplied_class")
    ctx.distinct(text, "overrides")


def case(rng, ctx):
    if rng.random() < 0.03:
        return case_overrides(rng, ctx)
    from pygerber.gerber.parser import parse
    nodes, text = gen(rng)
    ctx.put(source=text)
    mode = rng.choice([{}, {}, {}, {"strict": False}, {"resilient": True}])
    file = parse(text, **mode)
    nspan = [0]

    def spans(exp, si, path):
        if si.source != text:
            raise Violation(f"{path}: source text of the position is not the parsed text")
        if si.location != exp.start:
            raise Violation(f"{path} {exp.cls}: position {si.location}, text is at {exp.start}")
        line = text.count("\n", 0, exp.start) + 1
        col = exp.start - (text.rfind("\n", 0, exp.start) + 1) + 1
        if (si.line, si.column) != (line, col):
            raise Violation(f"{path} {exp.cls}: line/column {(si.line, si.column)}, expected {(line, col)}")
        if si.length != exp.end - exp.start:
            raise Violation(f"{path} {exp.cls}: length {si.length}, text is {text[exp.start:exp.end]!r}")
        if si.end_location != exp.end:
            raise Violation(f"{path} {exp.cls}: end {si.end_location} expected {exp.end}")
        eline = text.count("\n", 0, exp.end) + 1
        if si.end_line != eline:
            raise Violation(f"{path} {exp.cls}: end line {si.end_line} expected {eline}")
        nspan[0] += 1

    d = diff_nodes(nodes, file.nodes, spans=spans)
    if d:
        raise Violation(d)
    ctx.count("nodes_with_checked_position", nspan[0])
    ctx.count("commands", len(nodes))
    for c in classes(nodes):
        ctx.count(f"kind_{c}")
    ctx.distinct(text, tuple(mode.items()))
    ctx.sample(text)
