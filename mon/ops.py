"""Operations of the library as functions of (program text, arguments), each giving a digest of its complete result.

`box` holds objects shared by the operations of one run (None: every operation makes its own).
"""
import hashlib
import io
import json
import re


def h(x):
    if isinstance(x, str):
        x = x.encode("utf-8", "surrogatepass")
    return hashlib.sha256(x).hexdigest()[:24]


def dump(model):
    return model.model_dump_json(serialize_as_any=True)


class Box:
    """Inputs made once and shared."""

    def __init__(self, share, solo=False):
        self.share = share
        self.solo = share and solo      # also reuse tool objects, one after another
        self.items = {}
        self.before = {}

    def get(self, key, make):
        if not self.share:
            return make()
        if key not in self.items:
            self.items[key] = make()
        return self.items[key]

    def tool(self, key, make):
        return self.get(key, make) if self.solo else make()

    def prepare(self, ops):
        """Make every shared input before anything runs on it, and remember what it says."""
        from pygerber.gerber.parser import parse
        for op in ops:
            t = op["text"]
            if op.get("bad"):
                continue
            try:
                ast = self.get(("ast", t), lambda: parse(t))
            except Exception:
                continue
            self.before[("ast", t)] = dump(ast)
            if op["op"] in ("shapely", "pillow"):
                rv = self.get(("rvmc", t), lambda: make_rvmc(ast))
                self.before[("rvmc", t)] = rv.to_json()
            for x in [t] if op["op"] == "file" else op["args"] if op["op"] == "composite" else []:
                f = self.get(("file", x), lambda: make_file(x))
                self.before[("file", x)] = f.source_code

    def changed(self):
        out = []
        for k, was in self.before.items():
            now = self.items[k]
            now = now.source_code if k[0] == "file" else now.to_json() if k[0] == "rvmc" else dump(now)
            if now != was:
                out.append((k[0], k[1], was, now))
        return out


def make_rvmc(ast):
    from pygerber.gerber.compiler import compile
    return compile(ast)


def make_file(t):
    from pygerber.gerber.api import GerberFile
    return GerberFile.from_str(t)


def run(op, box):
    """Digest of the result of one operation."""
    try:
        return _run(op, box)
    except Exception as e:
        return f"raised {type(e).__name__} {h(re.sub(r"0x[0-9a-f]+", "0x", str(e)))}"


def _run(op, box):
    from pygerber.gerber.parser import parse
    k, t = op["op"], op["text"]
    if k in ("parse", "parse_resilient"):
        from pygerber.gerber.parser.pyparsing.parser import Parser
        res = k == "parse_resilient"
        if not box.solo:
            return h(dump(parse(t, resilient=res)))
        return h(dump(box.tool((k,), lambda: Parser(resilient=res)).parse(t)))
    if k == "tokens":
        from pygerber.gerber.pygments import GerberLexer
        return h(repr([(str(a), b) for a, b in GerberLexer(ensurenl=False, stripnl=False).get_tokens(t)]))
    if k == "file":
        return _file(op, box.get(("file", t), lambda: make_file(t)))
    if k == "builder":
        return _builder(op)
    if k == "composite":
        return _composite(op, box)
    ast = box.get(("ast", t), lambda: parse(t))
    if k == "format":
        from pygerber.gerber.formatter import Options, format
        o = Options(**op["args"])
        was = o.model_dump_json()
        out = io.StringIO()
        if box.solo:
            from pygerber.gerber.formatter.formatter import Formatter
            box.tool(("formatter", was), lambda: Formatter(o)).format(ast, out)
        else:
            format(ast, out, o)
        return h(out.getvalue()) + ("" if o.model_dump_json() == was else " options changed")
    if k == "lint":
        from pygerber.gerber.linter import lint
        sel = list(op["args"])
        out = sorted(dump(v) for v in lint(ast, sel))
        return h(repr(out)) + ("" if sel == op["args"] else " selection changed")
    if k == "state":
        from pygerber.gerber.ast.state_tracking_visitor import StateTrackingVisitor
        v = StateTrackingVisitor(ignore_program_stop=op["args"])
        ast.visit(v)
        return h(dump(v.state))
    if k == "compile":
        from pygerber.gerber.compiler import Compiler
        return h(Compiler(include_metadata=op["args"]).compile(ast).to_json())
    if k == "shapely":
        from pygerber.vm import render
        rv = box.get(("rvmc", t), lambda: make_rvmc(ast))
        r = render(rv, backend="shapely")
        out = io.BytesIO()
        r.save_svg(out)
        return h(r.shape.wkb + r.main_box.model_dump_json().encode() + out.getvalue())
    if k == "pillow":
        from pygerber.vm import render
        rv = box.get(("rvmc", t), lambda: make_rvmc(ast))
        r = render(rv, dpmm=op["args"])
        im = r.get_image()
        return h(repr(im.size).encode() + im.tobytes() + r.main_box.model_dump_json().encode())
    raise AssertionError(k)


def _file(op, f):
    out = []
    for a in op["args"]:
        if a[0] == "pillow":
            p = f.render_with_pillow(dpmm=a[1])
            im = p.get_image()
            out += [im.size, h(im.tobytes()), str(p.get_image_space())]
        elif a[0] == "shapely":
            b = io.BytesIO()
            s = f.render_with_shapely()
            s.save_svg(b)
            out += [h(b.getvalue())]
        elif a[0] == "type":
            f.render_with_pillow(dpmm=1)      # the type is worked out by the first rendering
            out += [f.file_type.name, f.sha256]
        else:
            out += [h(f.formats(None))]
    return h(repr(out))


def _composite(op, box):
    from pygerber.gerber.api import CompositeView
    files = [box.get(("file", t), lambda: make_file(t)) for t in op["args"]]
    was = list(files)
    v = CompositeView(files)
    im = v.render_with_pillow(dpmm=10).get_image()
    ok = len(files) == len(was) and all(a is b for a, b in zip(files, was))
    return h(repr(im.size).encode() + im.tobytes()) + ("" if ok else " list of files changed")


def _builder(op):
    from pygerber.builder.gerber import GerberX3Builder
    b = GerberX3Builder()
    pads = []
    for c in op["args"]:
        if c[0] == "circle":
            pads.append(b.new_pad().circle(c[1]))
        elif c[0] == "rect":
            pads.append(b.new_pad().rectangle(c[1], c[2]))
        elif c[0] == "custom":
            pads.append(b.new_pad().custom().add_circle(c[1], (c[2], 0)).create())
        elif c[0] == "pad" and pads:
            b.add_pad(pads[c[1] % len(pads)], (c[2], c[3]), rotation=c[4])
        elif c[0] == "line":
            b.add_line_trace(c[1], (c[2], c[3]), (c[4], c[5]))
    return h(b.get_code().dumps())


def main():
    """Fresh interpreter: operations as JSON on stdin, digests on stdout."""
    import sys
    ops = json.load(sys.stdin)
    print(json.dumps([run(o, Box(False)) for o in ops]))


if __name__ == "__main__":
    import os
    import sys
    sys.path.insert(0, os.environ["VERIF_SRC"])
    main()
