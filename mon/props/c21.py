"""C21 language server."""
import json
import math
import os
import re
import subprocess
import sys
import tempfile
from collections import Counter

from mon.harness import Violation, check, eq
from mon.props.c06 import TOK, attr_text
from mon.sem import Gen, S, trace
from mon.syn import Emit, N, Syn, diff_nodes

ID = "C21"
LEVEL = "exploration"
TECHNIQUE = "online monitor of JSON-RPC sessions with the real server process: every answer vs an independent model of the document"
LEVEL_NOTE = ("The generator knows the span of every command and, for semantic programs, the graphics state before it; each "
              "answer of the server is judged against that model of the current text of that document. Sampled histories.")
RULE = ("sessions over stdio with 1..3 documents (random syntactic, semantic and damaged programs with unfinished commands, "
        "CRLF, characters of every plane, several commands per line and commands across lines, empty ones), random openings, full, ranged and multiple edits, "
        "closing and reopening, and hover/completion at positions inside, between and beyond commands. "
        "Distinct: document text, position and feature asked.")
ASSUMPTIONS = ["the position asked is judged when it lies inside the text of a command; elsewhere only the absence of failure is",
               "state shown by a hover is judged for operations at the top level of valid programs",
               "documents hold no line separators other than LF and CRLF"]
QUICK, THOROUGH, TIMEOUT = 160, 3000, 180


class Server:
    def __init__(self):
        env = dict(os.environ)
        env["PYTHONPATH"] = os.pathsep.join(p for p in sys.path if p)
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([sys.executable, "-m", "pygerber.gerber.language_server", "--quiet"],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env)
        self.n = 0
        self.notes = []
        self.call("initialize", dict(processId=None, rootUri=None, capabilities={}))
        self.note("initialized", {})

    def send(self, m):
        b = json.dumps(m).encode()
        try:
            self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b)
            self.p.stdin.flush()
        except BrokenPipeError:
            raise Violation("the server ended: " + self.tail())

    def tail(self):
        try:
            self.p.wait(2)
        except subprocess.TimeoutExpired:
            pass
        self.err.seek(0)
        return self.err.read().decode(errors="replace")[-1500:]

    def recv(self):
        n = None
        while True:
            line = self.p.stdout.readline()
            if not line:
                raise Violation("the server ended: " + self.tail())
            line = line.strip()
            if not line:
                break
            k, v = line.split(b":", 1)
            if k.lower() == b"content-length":
                n = int(v)
        return json.loads(self.p.stdout.read(n))

    def note(self, m, p):
        self.send(dict(jsonrpc="2.0", method=m, params=p))

    def call(self, m, p):
        self.n += 1
        self.send(dict(jsonrpc="2.0", id=self.n, method=m, params=p))
        while True:
            r = self.recv()
            if r.get("id") == self.n and "method" not in r:
                return r
            if r.get("method") == "window/showMessage" and r["params"].get("type") == 1:
                raise Violation("the server reported an error: " + r["params"].get("message", "")[:600])

    def close(self):
        self.p.kill()
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()
        self.err.close()


class Doc:
    """Text with the spans of its commands: (start, end or None, expectation)."""

    def __init__(self, text, spans, frags=(), aps=None, kind=""):
        self.text, self.spans, self.frags, self.aps, self.kind = text, spans, frags, aps, kind
        self.lines = text.split("\n")

    def lc(self, off):
        ln = self.text.count("\n", 0, off)
        return ln, units(self.text[self.text.rfind("\n", 0, off) + 1:off])


def units(s):
    """length as the protocol counts it"""
    return len(s.encode("utf-16-le")) // 2


LEAFPARENT = {"AM", "AB", "SR"}


def leaves(nodes):
    for n in nodes:
        if n.cls in LEAFPARENT:
            yield from leaves([t for t in n.toks if isinstance(t, N)])
        else:
            yield n


def syn_doc(r):
    s = Syn(r)
    nodes = s.body(0, r.choice([0, 1, 1, 2, 4, 8]))
    e = Emit(r, ws_between=r.random() < 0.85, ws_inside=r.choice([0, 0, 0, 0.05]), newline=r.choice(["\n", "\n", "\r\n"]))
    text = e.program(nodes)
    spans = [(n.start, n.end, n.end, dict(cls=n.cls, node=n)) for n in leaves(nodes)]
    return Doc(text, spans, kind="syntactic")


OBJ = [".N", ".P", ".C", ".CRot", ".CMfr", ".CMPN", ".CVal", ".CFtp", ".CPgN", ".CPgD", ".CHgt", ".CLbN", ".CLbD", ".CSup",
       "obj", "net.x", "obj", "net.x"]
APER = [".AperFunction", ".DrillTolerance", ".FlashText", "Ap", "size_"]


def sem_doc(r):
    g = Gen(r, transforms=r.choice(["", "MRS"]), macros=r.random() < 0.4, blocks=r.random() < 0.3, repeat=r.random() < 0.3,
            span=r.choice([2000, 8000]), max_arc=2, notation=r.choice("AAAI"))
    g.header()
    g.body(r.randint(1, 8))
    if r.random() < 0.7:
        g.end()
    frag_at = {}
    damaged = r.random() < 0.5
    if damaged:
        sep = r.choice(["\n", "\n\n", "\r\n"])
        for _ in range(r.randint(1, 3)):
            frag_at[r.randint(2, len(g.txt))] = r.choice(["G", "D", "%", "G0", "D1", "%A", "%AD", "X", "foo"])
    else:
        sep = r.choice(["\n", "\n", "", " ", "\r\n", "\n\n"])
    out, pos, spans, frags = [], 0, [], []
    s, kinds = S(), {}
    attrs = r.random() < 0.6
    wide = r.random() < 0.3
    halt = r.randint(2, len(g.txt)) if damaged and r.random() < 0.25 else None
    to, ta, per, k = {}, {}, {}, 0
    for i, (c, t) in enumerate(zip(g.cmds + [None], g.txt + [""])):
        if i in frag_at:
            f = frag_at[i]
            frags.append((pos, f))
            spans.append((pos, pos + len(f) if sep != "\r\n" else None, pos + len(f), dict(cls="Invalid")))
            out += [f, sep]
            pos += len(f) + len(sep)
        if c is None:
            break
        if halt is not None and i == halt:
            # the end of the program in the middle: what follows is still offered
            spans.append((pos, pos + 4, pos + 4, {}))
            out += ["M02*", sep]
            pos += 4 + len(sep)
        if wide and r.random() < 0.3:
            at = "G04 " + r.choice(["\U0001d11e", "ą\U0001f600 b", "\U0001f600" * 5, "é", "日本"]) + "*"
            spans.append((pos, pos + len(at), pos + len(at), {}))
            out += [at, sep]
            pos += len(at) + len(sep)
        while attrs and i >= 2 and r.random() < 0.2:
            k += 1
            q = r.random()
            if q < 0.75:
                d, code, nm = r.choice([(to, "TO", n) for n in OBJ] + [(ta, "TA", n) for n in APER * 4])
                d[nm] = k
                at = attr_text(code, nm, k)
            else:
                nm = r.choice([*to, *ta, "obj"]) if q < 0.92 else ""
                at = f"%TD{nm}*%"
                for d in (to, ta):
                    d.pop(nm, None) if nm else d.clear()
            spans.append((pos, pos + len(at), pos + len(at), dict(shows=at)))
            out += [at, sep]
            pos += len(at) + len(sep)
        a = pos
        if c[0] in ("ad", "ab") and not s.stopped:
            per[c[1]] = dict(ta)
        if c[0] == "gop":
            spans.append((a, a + 3, a + 3, {}))
            a += 3
            s.mode = c[1]
            c = ("op",) + tuple(c[2:])
        if c[0] == "op" and not s.stopped:
            e = dict(d=c[1], start=(s.x / 1000, s.y / 1000), end=(c[2] / 1000, c[3] / 1000), ap=s.ap, mode=s.mode, quad=s.quad,
                     lp=s.lp, lm=s.lm, lr=float(s.lr), ls=s.ls / 1000, to=dict(to), ta=per.get(s.ap))
            spans.append((a, pos + len(t), pos + len(t), e if halt is None or i < halt else {}))
        elif c[0] in ("lp", "lm", "lr", "ls", "fs"):
            spans.append((a, pos + len(t), pos + len(t), {}))
        trace([c], kinds, s, [])
        out += [t, sep]
        pos += len(t) + len(sep)
    return Doc("".join(out), spans, frags, dict(g.aps), kind="damaged" if damaged else "semantic")


def soup_doc(r):
    """no model of its commands: only the absence of failure is judged"""
    base = r.choice([syn_doc, sem_doc])(r).text
    for _ in range(r.randint(1, 4)):
        if not base:
            break
        i = r.randrange(len(base))
        k = r.random()
        if k < 0.4:
            base = base[:i] + base[i + r.randint(1, 6):]
        elif k < 0.7:
            base = base[:i] + r.choice(["*", "%", "G", "D01", "X", "\n", "%AB", "M02*", "%AMx*", "D10*", "$1=", "ą", "\U0001d11e"]) + base[i:]
        else:
            base = base[:i]
    return Doc(base, [], kind="soup")


def make_doc(r, focus=False):
    """focus: documents with unfinished commands whose completion depends on the document"""
    for _ in range(50):
        d = r.choices([syn_doc, sem_doc, soup_doc], [3, 5, 1])[0](r) if not focus else sem_doc(r)
        if focus and not any(f[0] in "D%" for _, f in d.frags):
            continue
        ok = [x.rstrip("\r") for x in d.text.split("\n")]
        if ok and not ok[-1]:
            ok.pop()
        if d.text.splitlines() == ok and "\r" not in "".join(ok):
            return d
    return Doc("", [], kind="empty")


def floats(s):
    return [float(x) for x in re.findall(r"`([^`]*)`", s)]


def line_with(md, key):
    for ln in md.splitlines():
        if key in ln:
            return ln
    return None


def point(md, key, want, what):
    ln = line_with(md, key)
    check(ln is not None, f"{what}: hover does not say {key!r}")
    got = floats(ln.split(key, 1)[1])
    check(len(got) == 2 and all(math.isclose(g, w, abs_tol=1e-6) for g, w in zip(got, want)),
          f"{what}: {key} {got}, expected {want}")


def block(md, what):
    m = re.match(r"```\w*\n(.*?)```", md, re.S)
    check(m is not None, f"{what}: hover shows no code: {md[:80]!r}")
    return m[1]


PARAMS = {"ADC": {"diameter": "diameter", "hole_diameter": "hole_diameter"},
          "ADR": {"width": "width", "height": "height", "hole_diameter": "hole_diameter"},
          "ADO": {"width": "width", "height": "height", "hole_diameter": "hole_diameter"},
          "ADP": {"outer diameter": "outer_diameter", "vertex count": "vertices", "hole_diameter": "hole_diameter"}}
PARSER = []


def judge_node(n, md, what):
    """what is shown is the command asked about"""
    if n.cls in PARAMS:
        for label, field in PARAMS[n.cls].items():
            ln = line_with(md, f"- {label}: ")
            check(ln is not None, f"{what}: hover does not say {label!r}")
            got, want = re.findall(r"`([^`]*)`", ln), n.f.get(field)
            ok = len(got) == 1 and (got[0] == "None" if want is None else
                                    got[0] != "None" and math.isclose(float(got[0]), float(want), rel_tol=1e-9))
            check(ok, f"{what}: {label} {got}, expected {want}")
    if n.cls == "ADmacro":
        eq(re.findall(r"macro name: `([^`]*)`", md), [n.f["name"]], f"{what}: macro name")
        got = re.findall(r"parameter `\$(\d+)`: `([^`]*)`", md)
        want = n.f.get("params") or []
        check(len(got) == len(want) and all(int(k) == i and math.isclose(float(v), float(w), rel_tol=1e-9)
                                            for i, ((k, v), w) in enumerate(zip(got, want), 1)),
              f"{what}: parameters {got}, expected {want}")
    if n.cls in ("D01", "D02", "D03", "Dnn", "TD") or n.cls[:3] in ("TA_", "TO_", "TF_"):
        shown = block(md, what)
        if any(isinstance(v, float) for v in n.f.values()) or "```" in "".join(map(str, n.f.values())):
            return
        from pygerber.gerber.parser.pyparsing.parser import Parser
        if not PARSER:
            PARSER.append(Parser())
        f = {k: v for k, v in n.f.items() if k != "is_standalone"}
        d = diff_nodes([N(n.cls, f, [])], PARSER[0].parse(shown).nodes)
        check(not d, f"{what}: shows {shown!r}: {d}")


def attributes_shown(md, head):
    """names and values listed below a heading"""
    i = md.find(head)
    if i < 0:
        return {}
    out = {}
    for ln in md[i:].splitlines()[1:]:
        if not ln.startswith("-"):
            break
        m = TOK.findall(ln)
        name = re.search(r"(\.?[A-Za-z_][\w.]*)`\)?:", ln)
        if len(m) != 1 or name is None:
            return {"?": ln}
        out[name[1]] = int(m[0][0] or m[0][1] or m[0][2])
    return out


def judge_hover(doc, r, a, b, exp, what):
    check(r is not None, f"{what}: no answer inside a command")
    st = r["range"]["start"]
    eq((st["line"], st["character"]), doc.lc(a), f"{what}: start of the command answered")
    if b is not None:
        en = r["range"]["end"]
        eq((en["line"], en["character"]), doc.lc(b), f"{what}: end of the command answered")
    md = r["contents"]["value"]
    if "shows" in exp:
        eq("".join(block(md, what).split()), exp["shows"], f"{what}: command shown")
    if "node" in exp:
        judge_node(exp["node"], md, what)
    d = exp.get("d")
    if d is None:
        return
    point(md, {1: "Ends at:", 2: "Relocate to:", 3: "Flash at:"}[d], exp["end"], what)
    if d == 1:
        point(md, "Starts at:", exp["start"], what)
    if d != 2:
        if exp["ap"] is not None:
            eq(re.findall(r"`Aperture: (\w+)`", md), [exp["ap"]], f"{what}: aperture")
        modes = {1: "`Linear`", 2: "`Clockwise Arc`", 3: "`Counter-clockwise Arc`"}
        eq([k for k, v in modes.items() if v in md], [exp["mode"]], f"{what}: plot mode")
        eq([k for k in ("Dark", "Clear") if f"`{k} polarity`" in md], [{"D": "Dark", "C": "Clear"}[exp["lp"]]], f"{what}: polarity")
        mir = {"N": "`No Mirroring`", "X": "`Mirroring X`", "Y": "`Mirroring Y`", "XY": "`Mirroring X and Y`"}
        eq([k for k, v in mir.items() if v in md], [exp["lm"]], f"{what}: mirroring")
        eq([float(x) for x in re.findall(r"`Rotation: ([^`]*)`", md)], [exp["lr"]], f"{what}: rotation")
        if exp["ta"] is not None:
            eq(attributes_shown(md, f"### Aperture attributes (`{exp['ap']}`)"), exp["ta"], f"{what}: aperture attributes")
        eq(attributes_shown(md, "### Object attributes"), exp["to"], f"{what}: object attributes")
        sc = [float(x) for x in re.findall(r"`Scale: ([^`]*)`", md)]
        check(len(sc) == 1 and math.isclose(sc[0], exp["ls"], rel_tol=1e-9), f"{what}: scale {sc}, expected {exp['ls']}")
        if exp["mode"] != 1:
            eq([k for k in ("Multi", "Single") if f"`{k}-quadrant`" in md], [{74: "Single", 75: "Multi"}[exp["quad"]]],
               f"{what}: quadrant mode")


def judge_completion(frag, aps, res, what):
    items = (res or {}).get("items") if not isinstance(res, list) else res
    if frag[0] == "G":
        labels = [i["label"] for i in items or []]
        check(labels and all(x.startswith("G") for x in labels), f"{what}: completions {labels[:5]} after {frag!r}")
        need = {"G01", "G02", "G03", "G36", "G37", "G75"}
        check(need <= {x[:3] for x in labels}, f"{what}: completions after {frag!r} lack {sorted(need - {x[:3] for x in labels})}")
    elif frag[0] == "D":
        labels = [i["label"] for i in items or []]
        eq(sorted(labels), sorted(aps), f"{what}: apertures offered after {frag!r}")
    elif frag[0] == "%":
        labels = [i["label"] for i in items or []]
        codes = {int(m[1]) for x in labels if (m := re.match(r"ADD(\d+)[CROP],", x))}
        check(len(codes) == 1, f"{what}: completions after {frag!r} offer aperture codes {sorted(codes)}")
        c = codes.pop()
        check(c >= 10 and f"D{c}" not in aps, f"{what}: completion offers aperture code {c}, defined are {sorted(aps)}")
        kinds = Counter(x[len(f"ADD{c}")] for x in labels if x.startswith(f"ADD{c}"))
        check(set(kinds) >= set("CROP"), f"{what}: completions after {frag!r} lack aperture kinds: {labels}")
        for i in items:
            usable("%" + fill(i.get("insertText") or i["label"]) + "%", what)
    for i in items or []:
        if "${" in (i.get("insertText") or ""):
            eq(i.get("insertTextFormat"), 2, f"{what}: format of the completion with placeholders {i['insertText']!r}")
    if frag[0] == "G":
        for i in items:
            if i["label"].endswith("*"):
                usable(fill(i.get("insertText") or i["label"]), what)
    if frag[0] == "D":
        for i in items:
            d = i.get("detail") or ""
            k, p = aps[i["label"]]
            start = f"%AB{i['label']}*" if k == "B" else f"%AD{i['label']}{p if k == 'M' else k}"
            check("".join(d.split()).startswith(start), f"{what}: {i['label']} offered with the definition {d!r}")


def fill(snippet):
    return re.sub(r"\$\{\d+:([^}]*)\}", lambda m: m[1] if re.fullmatch(r"\d+|[A-Z]+|comment", m[1]) else "3", snippet)


USABLE = set()


def usable(text, what):
    from pygerber.gerber.parser import parse
    if text in USABLE:
        return
    try:
        n = parse(text).nodes
    except Exception as e:
        raise Violation(f"{what}: completion {text!r} is not a valid command: {e}") from e
    eq(len(n), 1, f"{what}: commands in completion {text!r}")
    USABLE.add(text)


def change(r, old, new, lc_old):
    """content changes turning old to new"""
    k = r.random()
    if k < 0.25:
        return [dict(text=new)]

    def pos(text, off):
        ln = text.count("\n", 0, off)
        return dict(line=ln, character=units(text[text.rfind("\n", 0, off) + 1:off]))

    a = 0
    while a < min(len(old), len(new)) and old[a] == new[a]:
        a += 1
    b = 0
    while b < min(len(old), len(new)) - a and old[len(old) - 1 - b] == new[len(new) - 1 - b]:
        b += 1
    # never cut between CR and LF
    while a and old[a - 1] == "\r":
        a -= 1
    while b and (old[len(old) - b] == "\n" or new[len(new) - b] == "\n"):
        b -= 1
    mid = new[a:len(new) - b]
    if k < 0.7:
        return [dict(range=dict(start=pos(old, a), end=pos(old, len(old) - b)), text=mid)]
    cut = old[:a] + old[len(old) - b:]
    p = pos(cut, a)
    return [dict(range=dict(start=pos(old, a), end=pos(old, len(old) - b)), text=""),
            dict(range=dict(start=p, end=p), text=mid)]


def ask(r, srv, ctx, uri, doc, what, focus=False):
    kind = r.random() * (0.4 if focus else 1)
    frag = None
    span = None
    if doc.frags and kind < 0.35:
        off, frag = r.choice(doc.frags)
        ln, ch = doc.lc(off)
        ch += r.randint(0, len(frag))
        span = next(s for s in doc.spans if s[0] == off)
        feat = r.choice(["completion", "completion", "hover"])
    elif doc.spans and kind < 0.85:
        span = r.choice(doc.spans)
        ln, ch = doc.lc(r.randint(span[0], span[2] - 1))
        feat = "hover" if r.random() < 0.85 else "completion"
    else:
        ln = r.randint(0, len(doc.lines) + 2)
        ch = r.choice([0, 1, 5, 80, 400]) if ln >= len(doc.lines) or r.random() < 0.3 else r.randint(0, len(doc.lines[ln]) + 1)
        feat = r.choice(["hover", "completion"])
    what = f"{what}, {feat} at line {ln} character {ch} of {uri}"
    ctx.put(source=doc.text, asked=what)
    q = srv.call("textDocument/" + feat, dict(textDocument=dict(uri=uri), position=dict(line=ln, character=ch)))
    if "error" in q:
        raise Violation(f"{what}: request failed: {str(q['error'].get('message'))[-400:]}")
    res = q.get("result")
    ctx.count(f"{feat}_{doc.kind}")
    if feat == "hover" and span is not None:
        if frag is None or ch < doc.lc(span[0])[1] + len(frag):
            judge_hover(doc, res, span[0], span[1], span[3], what)
            ctx.count("hovers_judged")
            if "d" in span[3]:
                ctx.count("operation_states_judged")
    elif feat == "completion" and frag is not None:
        judge_completion(frag, doc.aps, res, what)
        ctx.count("completions_judged")
    elif feat == "completion" and span is not None and span[3].get("cls") != "Invalid":
        items = (res or {}).get("items") if not isinstance(res, list) else res
        check(not items, f"{what}: completions offered inside a complete command")
    ctx.distinct(doc.text, ln, ch, feat)


def case(rng, ctx):
    r = rng
    srv = Server()
    try:
        uris = r.sample(["file:///a/one.gbr", "file:///a/two.grb", "file:///b/one.gbr", "file:///a/three.gtl", "untitled:x.gbr"],
                        r.randint(1, 3))
        docs, ver = {}, {}
        focus = r.random() < 0.35
        close = 0.4 if focus else 0.27
        hist = []
        for step in range(r.randint(12, 30)):
            uri = r.choice(uris)
            what = f"step {step}"
            if uri not in docs:
                docs[uri] = make_doc(r, focus)
                ver[uri] = ver.get(uri, 0) + 1
                srv.note("textDocument/didOpen", dict(textDocument=dict(uri=uri, languageId="gerber", version=ver[uri], text=docs[uri].text)))
                hist.append(("open", uri))
                ctx.count("opened")
            elif (k := r.random()) < 0.2:
                new = make_doc(r, focus)
                if r.random() < 0.2:
                    new = docs[r.choice(list(docs))]
                ch = change(r, docs[uri].text, new.text, docs[uri].lc)
                docs[uri] = new
                ver[uri] += 1
                srv.note("textDocument/didChange", dict(textDocument=dict(uri=uri, version=ver[uri]), contentChanges=ch))
                hist.append(("change", uri, len(ch)))
                ctx.count("changed")
            elif k < close:
                srv.note("textDocument/didClose", dict(textDocument=dict(uri=uri)))
                del docs[uri]
                hist.append(("close", uri))
                ctx.count("closed")
                continue
            ctx.put(history=hist[-12:])
            for _ in range(r.randint(1, 5)):
                u = r.choice(list(docs))
                ask(r, srv, ctx, u, docs[u], what, focus)
        if docs:
            ctx.sample(next(iter(docs.values())).text)
    finally:
        srv.close()
