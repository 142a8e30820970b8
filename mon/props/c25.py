"""C25 syntax highlighter."""
import re

from mon.harness import Violation, eq
from mon.syn import Emit, N, Raw, Syn

ID = "C25"
LEVEL = "exploration"
TECHNIQUE = "invariant and reference monitor over the token stream"
LEVEL_NOTE = ("Token streams of arbitrary and of generated texts are checked for conservation of text and contiguous positions; for "
              "generated programs the token kind at every code, coordinate and name is compared with what the generator wrote there.")
RULE = ("random text over hostile alphabets, random programs, programs with random edits, through both lexers and the "
        "pygments formatters; kinds of tokens at the places where the generator wrote codes. Distinct: text.")
ASSUMPTIONS = ["codes written in one piece", "names after aperture codes of up to three digits, not looking like a coordinate"]
QUICK, THOROUGH, TIMEOUT = 16000, 200000, 60

EXT = {"FS", "IP", "IR", "MO", "OF", "AS", "MI", "IN", "SF", "TA", "TO", "TF", "TD", "AD", "AM", "AB", "SR"}
FREE = ("TA", "TF", "TO", "TD")


def places(n, out):
    """(offset, text, kinds) the highlighter distinguishes; n was emitted without inner white space"""
    pos = n.start
    for i, t in enumerate(n.toks):
        if isinstance(t, N):
            places(t, out)
            pos = t.end
            continue
        if i == 1 and n.toks[0] == "%" and t in EXT:
            out.append((pos, t, "Keyword"))
        elif n.cls in ("D01", "D02", "D03") and t[:1] == "D":
            out.append((pos, t, "Keyword"))
        elif n.cls == "Dnn" and t[:1] == "D":
            out.append((pos, t, "Variable"))
        elif n.cls[0] in "GM" and n.cls[1:].isdigit() and t[:1] == n.cls[0] and not isinstance(t, Raw):
            out.append((pos, t, "Keyword"))
        elif n.cls.startswith("Coordinate"):
            if t in "XYIJ":
                out.append((pos, t, "Keyword"))
            elif n.toks[0] in "XYIJ":
                out.append((pos, t, "Number"))
        elif n.cls == "AMopen" and i == 2:
            out.append((pos, t, "Class"))
        elif n.cls.startswith("AD") and t[:1] == "D" and i == 2:
            out.append((pos, t, "Variable"))
        elif n.cls.startswith("AD") and i == 3 and len(n.toks[2]) <= 4:
            out.append((pos, t.rstrip(","), "Class"))
        elif n.cls == "Variable":
            out.append((pos, t, "Variable"))
        elif n.cls == "ABopen" and i == 2:
            out.append((pos, t, "Variable"))
        pos += len(t)


def conserve(lexer, text, what):
    toks = list(lexer.get_tokens_unprocessed(text))
    pos = 0
    for i, _, v in toks:
        if i != pos:
            raise Violation(f"{what}: token {v!r} said to be at {i}, text continues at {pos}")
        pos += len(v)
    if "".join(v for _, _, v in toks) != text:
        raise Violation(f"{what}: tokens do not give back the text")
    return toks


def case(rng, ctx):
    from pygments import highlight
    from pygments.formatters import NullFormatter
    from pygerber.gerber.pygments import GerberLexer, PyGerberDocsLexer
    k = rng.random()
    nodes = None
    if k < 0.25:
        al = rng.choice(["%*XYDG01ADMOFSLP,. \n", "\x00\x01\r\n\tÿЖ中😀%*", "".join(map(chr, range(32, 127))), "0123456789+-.$()xX/"])
        text = "".join(rng.choice(al) for _ in range(rng.randint(0, 300)))
    else:
        s = Syn(rng)
        nodes = s.body(0, rng.randint(1, 12)) or [s.g04()]
        text = Emit(rng, ws_inside=0, newline=rng.choice(["\n", "\n", "\r\n"])).program(nodes)
        if k < 0.4:
            nodes = None
            t = list(text)
            for _ in range(rng.randint(1, 6)):
                i = rng.randrange(len(t) + 1)
                q = rng.random()
                if q < 0.4 and t:
                    del t[min(i, len(t) - 1)]
                elif q < 0.8:
                    t.insert(i, rng.choice("%*XYDG0 \n$,-é"))
                else:
                    t = t[:i]
            text = "".join(t)
    ctx.put(source=text)
    toks = conserve(GerberLexer(), text, "Gerber lexer")
    conserve(PyGerberDocsLexer(), text, "docs lexer")
    body = text.strip("\n").replace("\r\n", "\n").replace("\r", "\n")
    if body and "\ufeff" not in body and not text.startswith("\ufeff"):
        shown = highlight(text, GerberLexer(stripnl=False, ensurenl=False), NullFormatter())
        eq(shown.replace("\r\n", "\n"), text.replace("\r\n", "\n").replace("\r", "\n"), "highlighted text")
    if nodes is not None:
        out = []
        for n in nodes:
            places(n, out)
        at = {i: (str(t), v) for i, t, v in toks}
        for off, t, kind in out:
            if not t or (kind == "Class" and re.match("[XYIJ][0-9]", t)):
                continue
            got = at.get(off)
            if got is None or got[1] != t or not got[0].split(".")[-1] == kind:
                raise Violation(f"{t!r} at {off} ({text[max(0, off - 8):off + 12]!r}): token {got}, expected {kind}")
        ctx.count("places_checked", len(out))
    ctx.count("tokens", len(toks))
    ctx.count("errors_marked", sum("Error" in str(t) for _, t, _ in toks))
    ctx.distinct(text)
    ctx.sample(text)
