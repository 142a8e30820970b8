"""C18 command line tools."""
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

from mon.harness import Violation, eq
from mon.props import c04, c20
from mon.sem import Gen
from mon.syn import Emit, Syn

ID = "C18"
LEVEL = "exploration"
TECHNIQUE = "differential monitor: files and output of the command line tools vs results of the library calls they stand for"
LEVEL_NOTE = ("Commands run in a scratch directory whose complete contents are recorded before and after; the one file that may "
              "change must hold what the library returns for the same options (decoded pixels, format, compression, exact text). "
              "Faulty inputs and options must give a non-zero status and leave every file as it was. Sampled options and inputs.")
RULE = ("every command with random option sets (long and short forms, any letter case of choices, presets and custom colours, "
        "resolutions, file types, qualities, compressions, formatter settings inline or from a file, rule lists), output paths "
        "absent, default, existing, absolute or with a foreign extension; faults: malformed source, missing source, bad colour, "
        "incomplete or contradictory options, bad configuration, unusable output path. Most run in process through click, some "
        "in a process of their own. Distinct: (command line, source text).")
ASSUMPTIONS = ["source files are UTF-8"]
QUICK, THOROUGH, TIMEOUT = 1000, 12000, 120

BAD_SOURCES = ["%FSLAX26Y26*%\n%MOMM*%\n%ADD10C,0.5*%\nD10*\nX0Y0D99999\nX1000000Y0D01*M02*\n", "not gerber at all", "%ADD10C,0.5*\nD10*\n",
               "%FSLAX26Y26*%%MOMM*%D10*X0Y0D03*M02*", "%FSLAX26Y26*%%MOMM*%%ADD10NOSUCH,1*%D10*X0Y0D03*M02*"]
RASTER = {"png": "output.png", "jpeg": "output.jpg", "tiff": "output.tiff", "bmp": "output.bmp", "webp": "output.webp"}


def snapshot(d):
    out = {}
    for p in sorted(Path(d).rglob("*")):
        if p.is_file():
            out[str(p.relative_to(d))] = p.read_bytes()
    return out


def program(r, small=True):
    g = Gen(r, unit="mm", span=r.choice([2000, 3000]), macros=r.random() < 0.3, polarity=r.random() < 0.5, max_arc=2)
    g.header()
    g.ad()
    if r.random() < 0.5:
        g.put(("cm",), f"%TF.FileFunction,{r.choice(['Copper,L1,Top', 'Soldermask,Bot', 'NonPlated,1,2,NPTH', 'Legend,Top', 'Paste,Top'])}*%")
    if r.random() < 0.3:
        g.put(("cm",), "G04 zażółć ✓*")
    g.body(r.randint(1, 4))
    g.end()
    return g.source()


def hexcol(r):
    n = r.choice([6, 6, 8])
    s = "".join(r.choice("0123456789abcdefABCDEF") for _ in range(n))
    return r.choice(["", "#"]) + s


def recase(r, s):
    return r.choice([s, s, s.lower(), s.upper(), s.capitalize()])


class Cmd:
    """a command line with what it has to do"""

    def __init__(self, r, d):
        self.r, self.d = r, d
        self.args = []
        self.out = None      # file it writes, relative to d
        self.want = None     # function(bytes) -> None, raises
        self.stdout = None   # expected lines

    def opt(self, short, long, value=None):
        if value is None:
            self.args.append(self.r.choice([short, long]))
        elif self.r.random() < 0.4:
            self.args.append(f"{long}={value}")
        else:
            self.args += [self.r.choice([short, long]), str(value)]

    def output(self, default):
        r = self.r
        k = r.random()
        if k < 0.25:
            self.out = default
            return
        name = r.choice([default, "result" + os.path.splitext(default)[1], "noext", "x.dat", "sub/dir.v1/out.bin", "a b.png"])
        os.makedirs(os.path.join(self.d, os.path.dirname(name)) or self.d, exist_ok=True)
        self.out = name
        self.opt("-o", "--output", os.path.join(self.d, name) if r.random() < 0.3 else name)


def source(r, d, text=None, name=None):
    name = name or f"s{len(os.listdir(d))}{r.choice(['.gbr', '.gtl', '.GTS', '.gbo', '.grb', '.txt', ''])}"
    with open(os.path.join(d, name), "w", encoding="utf-8", newline="") as fp:
        fp.write(text if text is not None else program(r))
    return name


def style_opts(r, c):
    from pygerber.gerber.api import Style
    k = r.random()
    if k < 0.35:
        if r.random() < 0.2:  # colours without CUSTOM are documented as not used
            c.opt("-f", "--foreground", hexcol(r))
        return None
    if k < 0.65:
        name = r.choice(sorted(Style.presets.get_styles()))
        c.opt("-s", "--style", recase(r, name))
        return Style.presets.get_styles()[name]
    c.opt("-s", "--style", recase(r, "CUSTOM"))
    f, b = hexcol(r), hexcol(r)
    c.opt("-f", "--foreground", f)
    c.opt("-b", "--background", b)
    return Style(foreground=col(f), background=col(b))


def col(h):
    from pygerber.gerber.api import Color
    h = h.lstrip("#")
    v = [int(h[i:i + 2], 16) for i in range(0, len(h), 2)]
    return Color.from_rgba(*v)


def type_opt(r, c):
    from pygerber.gerber.api import FileTypeEnum
    if r.random() < 0.5:
        return FileTypeEnum.INFER
    n = r.choice(list(FileTypeEnum.__members__))
    c.opt("-t", "--file-type", recase(r, n))
    return FileTypeEnum[n]


def dpmm_opt(r, c):
    if r.random() < 0.1:
        return 100
    d = r.choice([5, 10, 17, 20, 40])
    c.opt("-d", "--dpmm", d)
    return d


def decoded(b):
    from PIL import Image
    im = Image.open(io.BytesIO(b))
    im.load()
    return im.format, im.mode, im.size, im.tobytes(), im.info.get("compression")


def same_picture(save, kind):
    """expected picture is what the library writes"""
    def judge(b):
        buf = io.BytesIO()
        save(buf)
        g, w = decoded(b), decoded(buf.getvalue())
        for i, what in enumerate(["format", "mode", "size", "pixels", "compression"]):
            if g[i] != w[i]:
                if what == "pixels":
                    raise Violation(f"{kind}: written picture differs from what the library returns")
                raise Violation(f"{kind}: {what} {g[i]!r}, library gives {w[i]!r}")
        eq(g[0].lower(), kind, "format of written picture")
    return judge


def mk_convert(r, d, src=None):
    from pygerber.gerber.api import GerberFile
    c = Cmd(r, d)
    kind = r.choice([*RASTER, "svg", "png"])
    c.args = ["gerber", "convert", kind]
    s = src or source(r, d)
    pos = r.random() < 0.6
    if pos:
        c.args.append(s)
    ft = type_opt(r, c)
    st = style_opts(r, c)
    path = os.path.join(d, s)
    if kind == "svg":
        c.output("output.svg")

        def svg(b):
            buf = io.BytesIO()
            GerberFile.from_file(path, file_type=ft).render_with_shapely(st).save(buf)
            if b.decode() != buf.getvalue().decode():
                raise Violation("svg: written text differs from what the library returns")
        c.want = svg
    else:
        c.output(RASTER[kind])
        dp = dpmm_opt(r, c)
        if r.random() < 0.1:
            c.opt("-i", "--implementation", recase(r, "pillow"))
        kw = {}
        if kind in ("jpeg", "webp"):
            kw["quality"] = 95 if kind == "jpeg" else 80
            if r.random() < 0.5:
                kw["quality"] = r.choice([1, 10, 50, 80, 95, 100])
                c.opt("-q", "--quality", kw["quality"])
        if kind == "webp":
            kw["lossless"] = r.random() < 0.4
            if kw["lossless"]:
                c.opt("-l", "--lossless")
        if kind == "tiff":
            kw["compression"] = "lzma"
            if r.random() < 0.6:
                kw["compression"] = r.choice(["lzma", "packbits", "tiff_adobe_deflate", "tiff_lzw", "jpeg", "jpeg"])
                c.opt("-c", "--compression", kw["compression"])
            q = 95
            if r.random() < 0.5:
                q = r.choice([1, 10, 50, 80, 95, 100])
                c.opt("-q", "--quality", q)
            if kw["compression"] == "jpeg":
                kw["quality"] = q
        name = "save_" + kind
        c.want = same_picture(
            lambda buf: getattr(GerberFile.from_file(path, file_type=ft).render_with_pillow(st, dp), name)(buf, **kw), kind)
    if not pos:
        c.args.append(s)
    return c


def mk_merge(r, d):
    from pygerber.gerber.api import CompositeView, GerberFile
    c = Cmd(r, d)
    kind = r.choice(["png", "jpeg"])
    c.args = ["gerber", "merge-convert", kind]
    ss = [source(r, d) for _ in range(r.randint(1, 3))]
    if r.random() < 0.2:
        ss.append(ss[0])
    ft = type_opt(r, c)
    c.output(RASTER[kind])
    dp = dpmm_opt(r, c)
    c.args += ss
    c.want = same_picture(
        lambda buf: getattr(CompositeView([GerberFile.from_file(os.path.join(d, s), file_type=ft) for s in ss])
                            .render_with_pillow(dp), "save_" + kind)(buf), kind)
    return c


def mk_format(r, d):
    from pygerber.gerber import formatter
    from pygerber.gerber.parser import parse
    c = Cmd(r, d)
    c.args = ["gerber", "format"]
    s = Syn(r)
    nodes = s.body(0, r.randint(1, 10)) or [s.g04()]
    text = Emit(r).program(nodes)
    src = source(r, d, text)
    opts = None
    k = r.random()
    if k < 0.75:
        _, kw = c04.options(r)
        opts = {a: getattr(v, "value", v) for a, v in kw.items()}
        js = json.dumps(opts, ensure_ascii=r.random() < 0.5)
        if k < 0.4:
            c.opt("-i", "--inline-config", js)
        else:
            cf = r.choice(["c.json", "conf.v2.json"])
            Path(d, cf).write_text(js, "utf-8")
            c.opt("-c", "--config", cf)
    if r.random() < 0.15:
        c.out = src
        c.opt("-o", "--output", src)
    else:
        c.output("output.gbr")
    c.args.append(src)
    o = formatter.Options(**opts) if opts is not None else None
    want = formatter.formats(parse(text), o) if o is not None else formatter.formats(parse(text))

    def judge(b):
        if b.decode("utf-8") != want:
            raise Violation("format: written text differs from what the library returns")
    c.want = judge
    return c


def mk_lint(r, d):
    c = Cmd(r, d)
    c.args = ["gerber", "lint"]
    rules = list(c20.RULES)
    if r.random() < 0.6:
        rules = r.sample(rules, r.randint(1, 3))
        i = 0
        while i < len(rules):
            n = r.randint(1, len(rules) - i)
            c.opt("-r", "--rules", ",".join(rules[i:i + n]))
            i += n
    lines = []
    for _ in range(r.randint(1, 3)):
        s = c20.LSyn(r)
        nodes = s.body(0, r.randint(1, 8)) or [s.g04()]
        text = Emit(r).program(nodes)
        name = source(r, d, text)
        c.args.append(name)
        for rid, title, n in c20.expected(nodes, rules):
            line = text.count("\n", 0, n.start) + 1
            colno = n.start - (text.rfind("\n", 0, n.start) + 1) + 1
            lines.append(f"{Path(d, name).resolve().as_posix()}:{line}:{colno} {rid}: {title}")
    c.stdout = sorted(lines)
    return c


def mk_list(r, d):
    from pygerber.gerber import linter
    c = Cmd(r, d)
    c.args = ["gerber", "list-lint-rules"]
    if r.random() < 0.5:
        c.opt("-q", "--quiet")
        c.stdout = sorted(c20.RULES)
    else:
        c.stdout = sorted(f"{x}: {linter.RULE_REGISTRY[x]().get_violation_title()}" for x in c20.RULES)
    return c


def mk_fault(r, d):
    """command that has to fail and leave everything as it was"""
    c = Cmd(r, d)
    k = r.choice(["badsrc", "nosrc", "badcolour", "incomplete", "badtype", "badstyle", "outdir", "bothconf", "badjson", "badconfval",
                  "confext", "noconf", "lintbad", "lintrule", "lintnone", "fmtbad", "fmtnosrc", "mergebad", "mergenosrc", "badcomp",
                  "nocmd", "isdir"])
    c.fault = k
    kind = r.choice([*RASTER, "svg"])
    good = source(r, d)
    bad = source(r, d, r.choice(BAD_SOURCES[:3]) if k in ("fmtbad", "lintbad") else r.choice(BAD_SOURCES), name="bad.gbr")
    o = r.choice([None, "old.out", "new.out"])
    Path(d, "old.out").write_bytes(b"precious")
    Path(d, "output.gbr").write_bytes(b"precious too")
    oo = [] if o is None else ["-o", o]
    conv = ["gerber", "convert", kind]
    if kind != "svg":
        conv += ["-d", "10"]
    fmt = ["gerber", "format"]
    a = {
        "badsrc": lambda: [*conv, bad, *oo],
        "nosrc": lambda: [*conv, "missing.gbr", *oo],
        "isdir": lambda: [*conv, ".", *oo],
        "badcolour": lambda: [*conv, good, *oo, "-s", "CUSTOM", *r.choice([["-f", "#zzzzzz", "-b", "#000000"],
                              ["-f", "#000000", "-b", "12345"], ["-f", "", "-b", "#000000"], ["-f", "#1234567", "-b", "#000000"]])],
        "incomplete": lambda: [*conv, good, *oo, "-s", r.choice(["CUSTOM", "custom"]), *r.choice([[], ["-f", "#000000"], ["-b", "#000000"]])],
        "badtype": lambda: [*conv, good, *oo, "-t", "NOSUCHTYPE"],
        "badstyle": lambda: [*conv, good, *oo, "-s", "NOSUCHSTYLE"],
        "outdir": lambda: [*conv, good, "-o", r.choice(["nodir/out.png", "."])],
        "bothconf": lambda: [*fmt, good, *oo, "-i", "{}", "-c", "c.json"],
        "badjson": lambda: [*fmt, good, *oo, "-i", r.choice(["{", "", "nope", "[1]"])],
        "badconfval": lambda: [*fmt, good, *oo, "-i", r.choice(['{"macro_split_mode": "nope"}', '{"indent_character": "x"}',
                               '{"float_decimal_places": "many"}', '{"line_end": 5}'])],
        "confext": lambda: [*fmt, good, *oo, "-c", "c.yaml"],
        "noconf": lambda: [*fmt, good, *oo, "-c", "missing.json"],
        "lintbad": lambda: ["gerber", "lint", bad],
        "lintrule": lambda: ["gerber", "lint", good, "-r", r.choice(["NOPE01", "DEP001,NOPE"])],
        "lintnone": lambda: ["gerber", "lint"],
        "fmtbad": lambda: [*fmt, bad, *oo],
        "fmtnosrc": lambda: [*fmt, "missing.gbr", *oo],
        "mergebad": lambda: ["gerber", "merge-convert", r.choice(["png", "jpeg"]), "-d", "10", good, bad, *oo],
        "mergenosrc": lambda: ["gerber", "merge-convert", r.choice(["png", "jpeg"]), "-d", "10", good, "missing.gbr", *oo],
        "badcomp": lambda: ["gerber", "convert", "tiff", good, *oo, "-c", "nosuch"],
        "nocmd": lambda: r.choice([["gerber", "convert", "gif", good], ["nosuch"], ["gerber", "convert", "png"]]),
    }[k]
    if k == "confext":
        Path(d, "c.yaml").write_text("{}")
    if k == "bothconf":
        Path(d, "c.json").write_text("{}")
    c.args = a()
    return c


def run(r, d, args, real):
    if real:
        env = {**os.environ, "PYTHONIOENCODING": "utf-8"}
        p = subprocess.run([sys.executable, "-m", "pygerber", *args], cwd=d, capture_output=True, env=env, timeout=100)
        return p.returncode, p.stdout.decode(), p.stderr.decode()
    from click.testing import CliRunner
    from pygerber.console.commands import main
    old = os.getcwd()
    os.chdir(d)
    try:
        res = CliRunner().invoke(main, args, catch_exceptions=True)
    finally:
        os.chdir(old)
    err = f"{res.exception!r}" if res.exception else ""
    return res.exit_code, res.output, err


def case(rng, ctx):
    d = os.path.realpath(tempfile.mkdtemp(prefix="c18-"))
    try:
        mk = rng.choices([mk_convert, mk_merge, mk_format, mk_lint, mk_list, mk_fault], [40, 10, 20, 12, 2, 30])[0]
        c = mk(rng, d)
        existed = None
        if mk is not mk_fault and c.out and not os.path.exists(os.path.join(d, c.out)) and rng.random() < 0.3:
            Path(d, c.out).write_bytes(b"x" * 100000)
            existed = True
        real = rng.random() < 0.04
        ctx.put(args=" ".join(c.args), real=real, files={k: v.decode("utf-8", "replace")[:3000] for k, v in snapshot(d).items()})
        before = snapshot(d)
        code, out, err = run(rng, d, c.args, real)
        after = snapshot(d)
        if mk is mk_fault:
            if code == 0:
                raise Violation(f"{c.fault}: exit status 0 for {c.args}; output {out!r}")
            if after != before:
                names = [k for k in {*before, *after} if before.get(k) != after.get(k)]
                raise Violation(f"{c.fault}: failed command {c.args} changed files {names}")
            ctx.count("fault_" + c.fault)
        else:
            if code != 0:
                raise Violation(f"exit status {code} for {c.args}: {out[-400:]} {err[-400:]}")
            changed = {k for k in {*before, *after} if before.get(k) != after.get(k)}
            if c.want is not None:
                if c.out not in after:
                    raise Violation(f"{c.args}: output {c.out} not written (changed: {changed})")
                if changed - {c.out}:
                    raise Violation(f"{c.args}: files other than the output changed: {changed - {c.out}}")
                if c.out in before and c.out.startswith("s") and c.args[1] == "format":
                    ctx.count("formatted_in_place")
                # the library sees the sources as they were
                c.want(after[c.out])
                eq(out, "", f"{c.args}: printed text")
            else:
                eq(changed, set(), f"{c.args}: changed files")
                eq(sorted(out.splitlines()), c.stdout, f"{c.args}: printed lines")
            ctx.count("cmd_" + "_".join(c.args[1:3] if c.args[1] in ("convert", "merge-convert") else c.args[1:2]))
            if existed:
                ctx.count("existing_output_replaced")
        if real:
            ctx.count("run_as_process")
        ctx.distinct(tuple(c.args), sorted(before.items()))
        ctx.sample(" ".join(c.args))
    finally:
        shutil.rmtree(d, ignore_errors=True)
