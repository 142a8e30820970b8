"""C04 formatter preserves the program."""
import re

from mon.harness import Violation, check, eq
from mon.syn import Emit, N, Syn, classes, plain

ID = "C04"
LEVEL = "exploration"
TECHNIQUE = 'metamorphic and reference monitor: parse-format-parse round trip'
LEVEL_NOTE = "Every formatted text is re-parsed and compared with the generator's record; options sampled pairwise. Trusts the C02 parser check."
RULE = ("random well-formed programs over every command kind x random formatter options; formatted text is parsed again "
        "and compared node by node with the tree the source was generated from (modulo exactly what the options ask "
        "for), formatted once more (idempotence) and inspected for the requested layout. Distinct: (text, options).")
ASSUMPTIONS = ["indentation given as text consists of white space"]
QUICK, THOROUGH, TIMEOUT = 1000, 20000, 60


def options(rng, dense=False):
    from pygerber.gerber.formatter import enums as E
    from pygerber.gerber.formatter.options import Options
    kw = {}

    def ind():
        return rng.choice([1, 2, 4, " ", "\t", "  \t"] if dense else [0, 1, 2, 4, "", " ", "\t", "  \t"])

    for k in ("macro_body_indent", "macro_param_indent", "block_aperture_body_indent", "step_and_repeat_body_indent",
              "d01_indent", "d02_indent", "d03_indent"):
        if dense or rng.random() < 0.5:
            kw[k] = ind()
    for k, en in (("macro_split_mode", E.MacroSplitMode), ("macro_end_in_new_line", E.MacroEndInNewLine),
                  ("float_trim_trailing_zeros", E.FloatTrimTrailingZeros),
                  ("empty_line_before_polarity_switch", E.EmptyLineBeforePolaritySwitch),
                  ("keep_non_standalone_codes", E.KeepNonStandaloneCodes), ("remove_g54", E.RemoveG54),
                  ("remove_g55", E.RemoveG55), ("explicit_parenthesis", E.ExplicitParenthesis)):
        if rng.random() < 0.5:
            kw[k] = rng.choice(list(en))
    if rng.random() < 0.2:
        kw["strip_whitespace"] = E.StripWhitespace.StripAll
    if rng.random() < 0.5:
        kw["float_decimal_places"] = rng.choice([-1, 0, 1, 2, 3, 6, 9])
    if rng.random() < 0.4:
        kw["line_end"] = rng.choice(["\n", "\r\n"])
    if rng.random() < 0.3:
        kw["indent_character"] = rng.choice([" ", "\t"])
    if dense:
        if rng.random() < 0.6:
            kw["macro_split_mode"] = E.MacroSplitMode.SplitOnParameters
        if rng.random() < 0.6:
            kw["empty_line_before_polarity_switch"] = E.EmptyLineBeforePolaritySwitch.Yes
        if rng.random() < 0.3:
            kw["strip_whitespace"] = E.StripWhitespace.StripAll
    return Options(**kw), kw


def extreme(rng, nodes):
    """values whose shortest float notation needs an exponent"""
    s = Syn(rng)
    out = []
    for _ in range(rng.randint(0, 3)):
        t = rng.choice(["0.00001", "0.000025", ".0000001", "12345678901234567890.0", "0.00009999", "100", "20", "0", "0.0",
                        "1000000000000000000000"])
        v = float(t)
        k = rng.randint(0, 5)
        if k == 0:
            out.append(s.ext("ADC", {"aperture_id": "D10", "diameter": v, "hole_diameter": None}, ["AD", "D10", "C,", t]))
        elif k == 1:
            out.append(s.ext("ADmacro", {"aperture_id": "D11", "name": "MM", "params": [v, 1.0]},
                             ["AD", "D11", "MM", ",", t, "X", "1"]))
        elif k == 2:
            out.append(s.ext("OF", {"a_offset": v, "b_offset": v}, ["OF", "A", t, "B", t]))
        elif k == 3:
            out.append(s.ext("LR", {"rotation": v}, ["LR", t]))
        elif k == 4:
            out.append(s.ext("TO_CRot", {"angle": v}, ["TO", ".CRot", ",", t]))
        else:
            out.append(s.ext("SF", {"a_scale": v, "b_scale": 2.0}, ["SF", "A", t, "B", "2"]))
    return nodes + out


def strip_par(n):
    while isinstance(n, N) and n.cls == "Parenthesis":
        n = n.f["inner"]
    return n


def compare(exp, got, path, dec, explicit, separate):
    """like syn.diff with the option-dependent relaxations"""
    if isinstance(exp, N):
        if explicit:
            exp = strip_par(exp)
            while type(got).__name__ == "Parenthesis":
                got = got.inner
        if type(got).__name__ != exp.cls:
            return f"{path}: expected {exp.cls}, got {type(got).__name__}"
        for k, v in exp.f.items():
            if k == "is_standalone":
                want = True if separate else v
                if getattr(got, k) != want:
                    return f"{path}.{exp.cls}: is_standalone {getattr(got, k)}, expected {want}"
                continue
            d = compare(v, getattr(got, k), f"{path}.{exp.cls}.{k}", dec, explicit, separate)
            if d:
                return d
        return None
    if isinstance(exp, list):
        if not isinstance(got, (list, tuple)) or len(exp) != len(got):
            return f"{path}: expected {len(exp)} items, got {got!r}"
        for i, (a, b) in enumerate(zip(exp, got)):
            d = compare(a, b, f"{path}[{i}]", dec, explicit, separate)
            if d:
                return d
        return None
    g = plain(got)
    if isinstance(exp, float) and isinstance(g, (int, float)):
        if dec >= 0:
            ok = abs(float(g) - exp) <= 0.5000001 * 10 ** (-dec) + abs(exp) * 1e-15
        else:
            ok = float(g) == exp
        return None if ok else f"{path}: expected {exp!r}, got {g!r}"
    if exp is None:
        return None if g is None else f"{path}: expected nothing, got {g!r}"
    if isinstance(exp, str):
        return None if (g is not None and str(g) == exp) else f"{path}: expected {exp!r}, got {g!r}"
    return None if g == exp else f"{path}: expected {exp!r}, got {g!r}"


def drop(nodes, remove):
    out = []
    for n in nodes:
        if n.cls in remove:
            continue
        f = dict(n.f)
        for k, v in f.items():
            if isinstance(v, list) and v and isinstance(v[0], N):
                f[k] = drop(v, remove)
            elif isinstance(v, list) and k == "nodes":
                f[k] = drop(v, remove)
        m = N(n.cls, f, n.toks)
        out.append(m)
    # an operation that followed a removed merged code becomes stand-alone
    return out


def standalone_after_removed(nodes, remove):
    """mark D words whose merged G54/G55 is removed as stand-alone"""
    hit = False
    for i, n in enumerate(nodes):
        if "nodes" in n.f and isinstance(n.f["nodes"], list):
            hit = standalone_after_removed(n.f["nodes"], remove) or hit
        if n.cls in remove and n.f.get("is_standalone") is False and i + 1 < len(nodes):
            nodes[i + 1].f["is_standalone"] = True
            hit = True
    return hit


STD = {"TA.AperFunction", "TA.DrillTolerance", "TA.FlashText", "TF.Part", "TF.FileFunction", "TF.FilePolarity",
       "TF.SameCoordinates", "TF.CreationDate", "TF.GenerationSoftware", "TF.ProjectId", "TF.MD5", "TO.N", "TO.P", "TO.C",
       "TO.CRot", "TO.CMfr", "TO.CMPN", "TO.CVal", "TO.CMnt", "TO.CFtp", "TO.CPgN", "TO.CPgD", "TO.CHgt", "TO.CLbN",
       "TO.CLbD", "TO.CSup"}
PARAMS = {"Code1": 4, "Code2": 7, "Code5": 6, "Code6": 9, "Code7": 6, "Code20": 7, "Code21": 6, "Code22": 6}


def wrapped(node, parent):
    """explicit parentheses: every binary operation stands in parentheses"""
    from pydantic import BaseModel
    if type(node).__name__ in ("Add", "Sub", "Mul", "Div"):
        check(type(parent).__name__ == "Parenthesis", f"{type(node).__name__} is not in parentheses in {node!r}")
    for v in (getattr(node, k) for k in type(node).model_fields):
        for x in v if isinstance(v, (list, tuple)) else [v]:
            if isinstance(x, BaseModel):
                wrapped(x, node)


def tight(out, nodes, pos, end):
    """stripped text: no white space between commands nor around macro parameters"""
    for n in nodes:
        si = n.source_info
        check(not out[pos:si.location], f"white space left before {out[si.location:si.location + 12]!r}")
        pos = si.location + si.length
        cls = type(n).__name__
        if cls in ("AB", "SR"):
            tight(out, [n.open, *n.nodes, n.close], si.location, pos)
        elif cls == "AM":
            tight(out, [n.open, *n.primitives, n.close], si.location, pos)
        elif cls in ("D01", "D02", "D03", "Dnn", "Assignment") or cls.startswith("Code") and cls != "Code0":
            t = out[si.location:pos]
            check(t == "".join(t.split()), f"white space left in {t!r}")
    check(pos == end, f"white space left before {out[pos:end]!r}")


def layout(out, nodes, opts, separate, ctx):
    """lines and indentation: walk the expected commands and the lines side by side"""
    from pygerber.gerber.formatter import enums as E
    lines = out.split(opts.line_end)[:-1]
    pos = 0
    gap = opts.empty_line_before_polarity_switch == E.EmptyLineBeforePolaritySwitch.Yes

    def ind(k):
        v = getattr(opts, k)
        return opts.indent_character * v if isinstance(v, int) else v

    def line(want, start, what):
        nonlocal pos
        check(pos < len(lines), f"line of {what} missing")
        ln = lines[pos]
        check(ln.startswith(want + start), f"line {pos}: {ln!r}, expected {what} indented by {want!r}")
        pos += 1
        return ln

    def macro(n, base):
        nonlocal pos
        end_nl = opts.macro_end_in_new_line == E.MacroEndInNewLine.Yes
        mode = opts.macro_split_mode
        body, par = ind("macro_body_indent"), ind("macro_param_indent")
        head = line(base, "%AM", "macro")
        prims = n.f["primitives"]
        last = head
        if mode == E.MacroSplitMode.NoSplit:
            check(head.count("*") == len(prims) + 1, f"macro of {len(prims)} primitives split or cut: {head!r}")
        else:
            check(head.count("*") == 1, f"macro not split: {head!r}")
            for q in prims:
                check(pos < len(lines), "macro cut")
                split = mode == E.MacroSplitMode.SplitOnParameters and q.cls in PARAMS
                last = line(body, {"Assignment": "$"}.get(q.cls, q.cls[4:]), q.cls)
                if split:
                    k = PARAMS[q.cls] + (q.cls == "Code1" and q.f["rotation"] is not None)
                    check(last.endswith(","), f"parameters of {q.cls} are not split: {last!r}")
                    for j in range(k):
                        check(pos < len(lines), "macro cut")
                        last = lines[pos]
                        pos += 1
                        lead = last[:len(last) - len(last.lstrip())]
                        eq(sorted(lead), sorted(body + par), f"indentation of parameter {j} of {q.cls} {last!r}")
                        check(("*" in last) == (j == k - 1), f"parameter {j} of {q.cls} is {last!r}")
                elif mode == E.MacroSplitMode.SplitOnParameters and q.cls == "Code4":
                    while "*" not in last and pos < len(lines):
                        last = lines[pos]
                        pos += 1
                check("*" in last, f"end of {q.cls} not on its line: {last!r}")
        check(last.rstrip().endswith("*" if end_nl else "*%") or last.endswith("%") and not end_nl,
              f"end of macro: {last!r}, own line for the end: {end_nl}")
        if end_nl:
            check(pos < len(lines) and lines[pos].strip() == "%", f"end of macro not in its own line")
            pos += 1

    def walk(ns, base):
        nonlocal pos
        i = 0
        while i < len(ns):
            n = ns[i]
            i += 1
            if n.cls in ("AB", "SR"):
                line(base, "%" + n.cls, n.cls)
                walk(n.f["nodes"], base + ind("block_aperture_body_indent" if n.cls == "AB"
                                              else "step_and_repeat_body_indent"))
                line(base, f"%{n.cls}*%", "end of " + n.cls)
            elif n.cls == "AM":
                macro(n, base)
            elif n.cls[0] == "G" and n.f.get("is_standalone") is False and not separate:
                i += 1
                line(base, n.cls, "merged " + n.cls)
            elif n.cls in ("D01", "D02", "D03"):
                w = base + ind(n.cls.lower() + "_indent")
                ln = line(w, "", n.cls)
                check(re.fullmatch(rf"[XYIJ0-9+-]*{n.cls}\*", ln[len(w):]), f"{ln!r} is not {n.cls} indented by {w!r}")
            else:
                if n.cls == "LP" and gap:
                    check(pos < len(lines) and lines[pos].strip() == "", "no empty line before a polarity switch")
                    pos += 1
                start = n.cls if n.cls[0] in "GM" and n.cls[1:].isdigit() else "D" if n.cls == "Dnn" else "%"
                line(base, start, n.cls)
    walk(nodes, "")
    check(pos == len(lines), f"line {pos} left over: {lines[pos:pos + 1]}")
    ctx.count("lines_matched", len(lines))


def reused(rng, nodes, ast, given, out, remove, dec, explicit, separate, ctx):
    """one formatter for the whole program and for single commands, in any order"""
    import io
    from pygerber.gerber.formatter.formatter import Formatter
    from pygerber.gerber.parser import parse
    f = Formatter(given)
    code = [n.cls[0] == "G" and n.cls[1:].isdigit() for n in nodes]
    alone = [i for i in range(len(nodes)) if not code[i] and not (i and code[i - 1])]
    for _ in range(rng.randint(2, 4)):
        if rng.random() < 0.3 or not alone:
            if rng.random() < 0.5:
                got = f.formats(ast)
            else:
                buf = io.StringIO()
                f.format(ast, buf)
                got = buf.getvalue()
            eq(got, out, "text written by a formatter used again")
            continue
        i = rng.choice(alone)
        if rng.random() < 0.5:
            got = f.formats_node(ast.nodes[i])
        else:
            buf = io.StringIO()
            f.format_node(ast.nodes[i], buf)
            got = buf.getvalue()
        try:
            back = parse(got).nodes
        except Exception as e:
            raise Violation(f"single command {got!r:.200} cannot be parsed: {type(e).__name__}: {str(e)[:200]}")
        eq(len(back), 1, f"commands in {got!r:.200}")
        d = compare(drop([nodes[i]], remove)[0], back[0], f"single command [{i}]", dec, explicit, separate)
        if d:
            raise Violation("formatting changed a single command: " + d)
        ctx.count("single_commands")


def case(rng, ctx):
    from pygerber.gerber.formatter import format as fmt, formats
    from pygerber.gerber.parser import parse
    s = Syn(rng)
    s.nest = rng.random() < 0.2
    dense = rng.random() < 0.1
    if dense:
        # every layout option in play: all kinds of commands inside blocks, macros of several primitives
        nodes = [s.am()]
        for block in rng.sample([s.abn, s.abn, s.srn], 2):
            b = block(1)
            inner = [s.load(), s.d(), s.ext("LP", {"polarity": "C"}, ["LP", "C"]), s.d(), s.d(), s.g04(), s.ad()]
            rng.shuffle(inner)
            inner += s.gd()
            b.f["nodes"] += inner
            b.toks[-1:] = [*inner, b.toks[-1]]
            nodes.append(b)
    else:
        nodes = s.body(0, rng.randint(1, 5 if s.nest else 9))
    nodes = extreme(rng, nodes)
    if rng.random() < 0.6 or all(n.cls in ("G54", "G55") for n in nodes):
        nodes.append(s.cmd("M02", {}, ["M02"]))      # a program without commands is not valid source
    text = Emit(rng, ws_inside=0).program(nodes)
    opts, kw = options(rng, dense)
    given = opts
    if rng.random() < 0.06:
        from pygerber.gerber.formatter import presets
        from pygerber.gerber.formatter.options import Options
        name = rng.choice(["default", *sorted(n for n, v in vars(presets).items() if isinstance(v, Options))])
        kw = {"preset_" + name: True}
        opts, given = (Options(), None) if name == "default" else (getattr(presets, name),) * 2
    ctx.put(source=text, options=repr(kw))
    ast = parse(text)
    if rng.random() < 0.5:
        out = formats(ast, given)
    else:
        import io
        buf = io.StringIO()
        fmt(ast, buf, given)
        out = buf.getvalue()
    ctx.put(formatted=out)
    try:
        back = parse(out)
    except Exception as e:
        raise Violation(f"formatted text cannot be parsed: {type(e).__name__}: {str(e)[:300]}")
    from pygerber.gerber.formatter import enums as E
    remove = set()
    if opts.remove_g54 == E.RemoveG54.Remove:
        remove.add("G54")
    if opts.remove_g55 == E.RemoveG55.Remove:
        remove.add("G55")
    merged = standalone_after_removed(nodes, remove)
    want = drop(nodes, remove)
    dec = opts.float_decimal_places
    explicit = opts.explicit_parenthesis == E.ExplicitParenthesis.AddExplicit
    separate = opts.keep_non_standalone_codes == E.KeepNonStandaloneCodes.SeparateCodes
    if len(want) != len(back.nodes):
        raise Violation(f"{len(want)} commands expected after formatting, {len(back.nodes)} found")
    for i, (a, b) in enumerate(zip(want, back.nodes)):
        d = compare(a, b, f"[{i}]", dec, explicit, separate)
        if d:
            raise Violation("formatting changed the program: " + d)
    again = formats(back, opts)
    eq(again, out, "formatting is not idempotent")
    # the original tree must not be altered by formatting
    if rng.random() < 0.2:
        eq(formats(ast, opts), out, "second formatting of the same tree differs")
    if rng.random() < 0.3:
        reused(rng, nodes, ast, given, out, remove, dec, explicit, separate, ctx)
    # layout
    strip = opts.strip_whitespace == E.StripWhitespace.StripAll
    if strip:
        check("\n" not in out and "\r" not in out, "white space stripping left line breaks")
        tight(out, back.nodes, 0, len(out))
        ctx.count("stripped_texts")
    else:
        lf = opts.line_end
        body = out.replace(lf, "")
        check("\n" not in body and "\r" not in body, "a line break of the wrong kind was written")
        check(out.endswith(lf), "no line break at the end")
        layout(out, want, opts, separate, ctx)
    names = set(re.findall(r"(?:^|[\n*%])[ \t]*%(T[AFO]\.\w+)", out))
    check(names <= STD, f"attribute name not spelled as the specification does: {names - STD}")
    if explicit:
        for n in back.nodes:
            wrapped(n, None)
    if dec >= 0 and opts.float_trim_trailing_zeros == E.FloatTrimTrailingZeros.No:
        for m in re.findall(r"%L[RS]([-+0-9.]*)\*%", out):
            got = len(m.split(".")[1]) if "." in m else 0
            eq(got, dec, f"decimal places of {m}")
    if dec >= 0:
        for m in re.findall(r"%L[RS]([-+0-9.]*)\*%", out):
            got = len(m.split(".")[1]) if "." in m else 0
            check(got <= dec, f"{m} has more than {dec} decimal places")
            if opts.float_trim_trailing_zeros == E.FloatTrimTrailingZeros.Yes and "." in m:
                check(m[-1] not in "0.", f"trailing zeros of {m} were not removed")
    ctx.count("commands_compared", len(want))
    for k, v in kw.items():
        ctx.count(f"opt_{k}")
    for c in classes(nodes):
        ctx.count(f"kind_{c}")
    ctx.distinct(text, sorted((k, str(v)) for k, v in kw.items()))
    ctx.sample({"source": text[:500], "options": {k: str(v) for k, v in kw.items()}, "formatted": out[:600]})
