"""C03 malformed input: strict refuses, tolerant isolates."""
from mon.harness import Violation, check, eq
from mon.syn import Emit, N, Syn, diff_nodes

ID = "C03"
LEVEL = "fault_enumeration"
TECHNIQUE = 'fault injection on source text with an isolation monitor'
LEVEL_NOTE = 'Faults injected at sampled and systematic positions; monitor checks error type, termination and survival of undamaged lines.'
RULE = ("well-formed programs, one command per line, with malformed lines injected at random and at every position "
        "(unknown codes, bad parameter values, truncated commands, stray block ends, noise), and byte-level mutations "
        "of valid text. Strict reading must refuse, lenient reading must return exactly the commands before the first "
        "fault, tolerant reading must return every valid command plus one marker per faulty line, in order. "
        "Distinct: faulty text.")
ASSUMPTIONS = ["a malformed line extends to the end of that line (the tolerant reader's recovery unit)"]
QUICK, THOROUGH, TIMEOUT = 1300, 24000, 60

BAD = ["%FOO*%", "G99*", "G05X100Y100D01*", "%LPX*%", "%LP*%", "%MOXX*%", "%MOCM*%", "@@@", "garbage text", "D04*",
       "X12Z5D01*", "M05*", "M3*", "%ADD5C,1*%", "%ADD10C,*%", "%ADD10C,1X*%", "%ADC,1*%",
       "%FSLAX4Y46*%", "%FSQAX46Y46*%", "%FSLAX46*%", "%LMZ*%", "%LRabc*%", "%LS*%", "%IPFOO*%", "%ASAXBX*%",
       "%TF.Part,Bogus*%", "%TF.FileFunction,Bogus,L1*%", "%TF.FilePolarity,Maybe*%", "%TF.CreationDate,yesterday*%",
       "%TO.CMnt,Glued*%", "%TO.CRot,abc*%", "%TO.P,U1*%", "%TA.DrillTolerance,x*%", "%TA.FlashText,abc*%",
       "%TA.Unknown,1*%", "%TF.Unknown,1*%", "%TO.Unknown,1*%", "%IR12.5*%", "%MIA2*%", "%AB*%",
       "X100Y200D01", "D10", "%LPD", "LPD*%", "X1.5Y2.5D01*", "X--5D01*", "%ADD10P,1X3", "{}", "^", "G*",
       "%OFX1*%", "%SFC2*%", "Y1X1D01*", "X1Y1I1D02*", "X1Y1J1D03*", "1,1,1,0,0*", "%%", "%*%", "%AM*1,1,1,0,0*%"]


FREE = ("G04", "TA", "TF", "TO", "TD", "AM", "AB", "SR", "IN", "LN", "G")
ILLEGAL = "@?!{}|;&^~<>\\\"'`#="


def spoil(rng):
    """a valid command with a character no command may contain at a random inner position"""
    s = Syn(rng)
    for _ in range(200):
        ns = s.any(1)
        if len(ns) != 1 or ns[0].cls.startswith(FREE):
            continue
        t = Emit(rng, ws_between=False).program(ns).strip()
        if t.rstrip("%").rstrip("*").count("*") or "\n" in t or len(t) < 3:
            continue
        i = rng.randrange(0, len(t) - 1)
        if t[0] == "%" and i == 0 and rng.random() < 0.5:
            i = 1
        return t[:i] + rng.choice(ILLEGAL) + t[i:]
    return "@"


TEXT = ("G04", "TA_", "TF_", "TO_", "TD", "IN", "LN")


def spoil_text(rng):
    """a command with free text holding a percent sign, or without its asterisk"""
    s = Syn(rng)
    for _ in range(200):
        ns = [rng.choice([s.g04, s.ta, s.tf, s.to, s.td, s.prop, s.load])()]
        if not ns[0].cls.startswith(TEXT):
            continue
        t = Emit(rng, ws_between=False).program(ns).strip()
        if "\n" in t or "\r" in t or len(t) < 5:
            continue
        if t[0] == "%":
            if not t.endswith("*%") or t.count("*") != 1:
                continue
            if rng.random() < 0.4:
                return t[:-2] + "%"
            i = rng.randrange(1, len(t) - 1)
        else:
            if not t.endswith("*") or t.count("*") != 1:
                continue
            i = rng.randrange(0, len(t))
        return t[:i] + "%" + t[i:]
    return "@"


def fixed():
    return list(range(len(BAD)))


def build(rng, ctx, bads):
    s = Syn(rng)
    nodes = []
    while len(nodes) < 3:
        nodes += [n for n in s.any(1) if n.cls not in ("AB", "SR", "AM", "M00", "M02")]
    for _ in range(rng.randint(0, 5)):
        nodes += s.any(0)
    items = []
    i = 0
    while i < len(nodes):
        if nodes[i].f.get("is_standalone") is False and nodes[i].cls.startswith("G"):
            items.append([nodes[i], nodes[i + 1]])
            i += 2
        else:
            items.append([nodes[i]])
            i += 1
    pos = sorted(rng.randint(0, len(items)) for _ in bads)
    seq = []
    for j in range(len(items) + 1):
        for p, b in zip(pos, bads):
            if p == j:
                seq.append(b)
        if j < len(items):
            seq.append(items[j])
    return seq


def emit(rng, seq, newline="\n"):
    e = Emit(rng, ws_between=False)
    exp = []
    layout = rng.random() < 0.4
    for k, it in enumerate(seq):
        if layout and rng.random() < 0.6:
            e.put(rng.choice([" ", "  ", "    ", "\t", "\n", "\n\n", "\n  ", " \t "]))
        if isinstance(it, str):
            n = N("Invalid", {"string": it}, [it])
            n.start = e.pos
            e.put(it)
            n.end = e.pos
            exp.append(n)
        else:
            for n in it:
                e.node(n)
                exp.append(n)
            if layout and k + 1 < len(seq) and not isinstance(seq[k + 1], str) and rng.random() < 0.3:
                e.put(rng.choice(["", " ", "\t"]))
                continue
            if layout and rng.random() < 0.3:
                e.put(rng.choice([" ", "\t", "   "]))
        e.put(newline)
    return "".join(e.out), exp


def run(rng, ctx, bads):
    import pyparsing
    from pygerber.gerber.parser import parse
    seq = build(rng, ctx, bads)
    text, exp = emit(rng, seq)
    ctx.put(source=text)

    def spans(x, si, path):
        if si.location != x.start:
            raise Violation(f"{path} {x.cls}: position {si.location}, expected {x.start}")

    got = parse(text, resilient=True)
    d = diff_nodes(exp, got.nodes, spans=spans)
    if d:
        raise Violation("tolerant reading: " + d)
    try:
        f = parse(text)
    except pyparsing.ParseBaseException:
        ctx.count("strict_refused")
    else:
        raise Violation("strict reading accepted malformed text", nodes=repr(f.nodes)[:500])
    prefix = []
    for n in exp:
        if n.cls == "Invalid":
            break
        prefix.append(n)
    if prefix:
        f = parse(text, strict=False)
        d = diff_nodes(prefix, f.nodes)
        if d:
            raise Violation("lenient reading: " + d)
        ctx.count("lenient_prefixes")
    ctx.count("invalid_markers", len(bads))
    ctx.count("valid_commands_kept", len(exp) - len(bads))
    for b in bads:
        ctx.count("fault_" + (b[:24] if b in BAD else "illegal_character"))
    ctx.distinct(text)
    ctx.sample(text)


def damaged_macro(rng, ctx):
    """an illegal character inside a macro: nothing outside the macro is lost"""
    import pyparsing
    from pygerber.gerber.parser import parse
    s = Syn(rng)

    def plain(k):
        out = []
        while len(out) < k:
            out += [n for n in s.any(1) if n.cls not in ("AB", "SR", "AM", "M00", "M02")
                    and n.f.get("is_standalone") is not False]
        return out
    before, after = plain(rng.randint(1, 3)), plain(rng.randint(1, 3))
    e = Emit(rng, ws_between=False)
    am = s.am()
    nl = rng.choice(["", "\n"])
    parts = []
    for n in am.toks:
        x = Emit(rng, ws_between=False)
        x.node(n)
        parts.append("".join(x.out))
    bodies = [k for k in range(1, len(parts) - 1) if am.toks[k].cls != "Code0"]
    if not bodies:
        return
    k = rng.choice(bodies)
    b = parts[k]
    i = rng.randrange(1, len(b))
    parts[k] = b[:i] + rng.choice(ILLEGAL.replace("=", "")) + b[i:]
    for n in before:
        e.node(n)
        e.put("\n")
    e.put(nl.join(parts[:-1]) + (nl or "") + parts[-1] + "\n")
    for n in after:
        e.node(n)
        e.put("\n")
    text = "".join(e.out)
    ctx.put(source=text)
    got = parse(text, resilient=True).nodes
    kept = [n for n in got if type(n).__name__ != "Invalid"]
    check(len(kept) < len(got), "tolerant reading found no fault in a damaged macro")
    d = diff_nodes(before + after, kept)
    if d:
        raise Violation("tolerant reading around a damaged macro: " + d)
    try:
        parse(text)
    except pyparsing.ParseBaseException:
        pass
    else:
        raise Violation("strict reading accepted a damaged macro")
    ctx.count("damaged_macros")
    ctx.distinct(text)


def fixed_case(i, ctx):
    import random
    run(random.Random(f"c03-{i}"), ctx, [BAD[i]])


def mutate(rng, ctx):
    """arbitrary corruption: never crash or hang, and strict agrees with tolerant"""
    import pyparsing
    from pygerber.gerber.parser import parse
    s = Syn(rng)
    nodes = s.body(0, rng.randint(1, 5)) or [s.g04()]
    t = list(Emit(rng, ws_inside=0).program(nodes).replace("\r", ""))
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        i = rng.randrange(len(t)) if t else 0
        if not t:
            break
        if k < 0.35:
            del t[i]
        elif k < 0.6:
            t.insert(i, rng.choice("XYD0129*%,.$()+-/xGMATLS \n"))
        elif k < 0.8:
            t[i] = rng.choice("XYD0129*%,.$()+-/xGMATLS \n")
        else:
            j = min(len(t), i + rng.randint(1, 12))
            del t[i:j]
    text = "".join(t)
    if not text.strip():
        return
    ctx.put(source=text)
    got = parse(text, resilient=True)
    inv = [n for n in got.nodes if type(n).__name__ == "Invalid"]
    last = -1
    for n in got.nodes:
        check(n.source_info.location > last, "positions are not increasing")
        last = n.source_info.location
        if type(n).__name__ == "Invalid":
            si = n.source_info
            eq(text[si.location:si.location + len(n.string)], n.string, "text of a malformed line")
    try:
        strict = parse(text)
    except pyparsing.ParseBaseException:
        strict = None
    if strict is None:
        check(inv, "strict reading refused text in which tolerant reading found no fault")
    else:
        check(not inv, "strict reading accepted text in which tolerant reading found a fault",
              invalid=repr(inv)[:300])
        eq([repr(n) for n in strict.nodes], [repr(n) for n in got.nodes], "strict and tolerant trees")
        end = 0
        for n in strict.nodes:
            si = n.source_info
            check(not text[end:si.location].strip(), "accepted text is not part of any command",
                  dropped=text[end:si.location])
            end = max(end, si.location + si.length)
        check(not text[end:].strip(), "accepted text is not part of any command", dropped=text[end:])
        ctx.count("accepted_texts_tiled_by_commands")
    ctx.count("mutants_strict_ok" if strict is not None else "mutants_refused")
    ctx.distinct(text)


def case(rng, ctx):
    q = rng.random()
    if q < 0.15:
        damaged_macro(rng, ctx)
    elif q < 0.5:
        mutate(rng, ctx)
    else:
        run(rng, ctx, [spoil(rng) if (k := rng.random()) < 0.4 else spoil_text(rng) if k < 0.6 else rng.choice(BAD) for _ in range(rng.choice([1, 1, 2, 3]))])
