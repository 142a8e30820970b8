"""Syntactic generator: random well-formed Gerber text together with the node tree a
reader must obtain from it.  Independent of pygerber (no import of it here)."""
from __future__ import annotations

import datetime
import string as _s


class N:
    """Expected node: class name, expected public field values, tokens or children."""

    __slots__ = ("cls", "f", "toks", "start", "end", "tight")

    def __init__(self, cls, f, toks):
        self.cls = cls
        self.f = f          # name -> value | N | list
        self.toks = toks    # list of str | N | Raw
        self.start = self.end = None
        self.tight = True   # no whitespace inserted inside

    def __repr__(self):
        return f"{self.cls}({self.f})"


class Raw(str):
    """Token before which no whitespace may be inserted (free text)."""


class Emit:
    """Turn nodes to text, recording the span of each."""

    def __init__(self, rng, ws_between=True, ws_inside=0.0, newline="\n"):
        self.rng = rng
        self.out = []
        self.pos = 0
        self.ws_between = ws_between
        self.ws_inside = ws_inside
        self.nl = newline

    def put(self, s):
        self.out.append(s)
        self.pos += len(s)

    def between(self):
        if not self.ws_between:
            return
        r = self.rng.random()
        if r < 0.6:
            self.put(self.nl)
        elif r < 0.7:
            self.put(self.nl * self.rng.randint(2, 3))
        elif r < 0.8:
            self.put(" " * self.rng.randint(1, 3))
        elif r < 0.85:
            self.put("\t" + self.nl)

    def node(self, n, top=False):
        """n.start = offset of the first token."""
        first = True
        n.tight = True
        save = self.ws_inside
        if n.cls[:2] in ("TA", "TF", "TO", "TD") or n.cls in ("G04", "LN", "IN", "Code0"):
            self.ws_inside = 0  # free text: white space is content
        for t in n.toks:
            if isinstance(t, N):
                if getattr(t, "cls") in BLOCKISH and not first:
                    before = self.pos
                    self.between()
                    if self.pos != before:
                        n.tight = False
                elif not first and self.ws_inside and self.rng.random() < self.ws_inside:
                    self.put(self.rng.choice([" ", self.nl, "  "]))
                    n.tight = False
                self.node(t)
                if not t.tight:
                    n.tight = False
                if first:
                    n.start = t.start
            else:
                if not first and not isinstance(t, Raw) and self.ws_inside and self.rng.random() < self.ws_inside:
                    self.put(self.rng.choice([" ", self.nl, "  "]))
                    n.tight = False
                if first:
                    n.start = self.pos
                self.put(t)
            first = False
        n.end = self.pos
        self.ws_inside = save

    def program(self, nodes, lead=True, trail=True):
        if lead:
            self.between()
        for n in nodes:
            self.node(n)
            self.between()
        return "".join(self.out)


BLOCKISH = set()


def _mark(cls):
    BLOCKISH.add(cls)


for _c in ("ABopen ABclose SRopen SRclose AMopen AMclose AB SR AM D01 D02 D03 Dnn G01 G02 G03 G04 G36 G37 "
           "G54 G55 G70 G71 G74 G75 G90 G91 LN LP LR LS LM M00 M01 M02 FS MO IP IR OF AS MI IN SF "
           "ADC ADR ADO ADP ADmacro TD Assignment Code0 Code1 Code2 Code4 Code5 Code6 Code7 Code20 Code21 Code22 "
           "TA_UserName TA_AperFunction TA_DrillTolerance TA_FlashText TF_UserName TF_Part TF_FileFunction "
           "TF_FilePolarity TF_SameCoordinates TF_CreationDate TF_GenerationSoftware TF_ProjectId TF_MD5 "
           "TO_UserName TO_N TO_P TO_C TO_CRot TO_CMfr TO_CMNP TO_CVal TO_CMnt TO_CFtp TO_CPgN TO_CPgD TO_CHgt "
           "TO_CLbN TO_CLbD TO_CSup").split():
    _mark(_c)

APER_FUNCTIONS = ["ViaDrill", "BackDrill", "ComponentDrill", "MechanicalDrill", "CastellatedDrill", "OtherDrill",
                  "ComponentPad", "SMDPad", "BGAPad", "ConnectorPad", "HeatsinkPad", "ViaPad", "TestPad",
                  "CastellatedPad", "FiducialPad", "ThermalReliefPad", "WasherPad", "AntiPad", "OtherPad",
                  "Conductor", "EtchedComponent", "NonConductor", "CopperBalancing", "Border", "OtherCopper",
                  "ComponentMain", "ComponentOutline", "ComponentPin", "Profile", "Material", "NonMaterial", "Other"]
FILE_FUNCTIONS = ["Copper", "Plated", "NonPlated", "Profile", "Soldermask", "Legend", "Component", "Paste", "Glue",
                  "Carbonmask", "Goldmask", "Heatsinkmask", "Peelablemask", "Silvermask", "Tinmask", "Depthrout",
                  "Vcut", "Viafill", "Pads", "Other", "Drillmap", "FabricationDrawing", "Vcutmap", "AssemblyDrawing",
                  "ArrayDrawing", "OtherDrawing"]
PARTS = ["Single", "Array", "FabricationPanel", "Coupon", "Other"]
MOUNTS = ["TH", "SMD", "Pressfit", "Fiducial", "Other"]


class Syn:
    def __init__(self, rng):
        self.r = rng

    # ---- lexical -----------------------------------------------------------
    def name(self, dot=False):
        r = self.r
        first = r.choice(["_", "$", _s.ascii_letters, _s.ascii_letters, "CROPXYZabc", "." if dot else "_"])
        n = r.choice(first) + "".join(r.choice(_s.ascii_letters + _s.digits + "_.") for _ in range(r.randint(0, 9)))
        return n if n not in ("C", "R", "O", "P", ".", "$") else n + "q"

    def text(self, n=16, chars=None):
        chars = chars or (_s.ascii_letters + _s.digits + " ,.;:()[]{}!?#&-+=/\\'\"<>|^~@$_" + "éЖ中\t")
        t = "".join(self.r.choice(chars) for _ in range(self.r.randint(1, n)))
        return t

    def field(self, n=12):
        """attribute field: no % * , ; no leading white space (skipped between tokens)."""
        chars = _s.ascii_letters + _s.digits + ".;:()[]{}!?#&-+=/'\"<>|_ ~@" + "éЖ"
        t = self.text(n, chars).strip()
        return t or "f"

    def dbl(self, signed=True, lo=0, hi=1000, nz=False):
        """(text, value): plain decimal in any notation the format allows."""
        r = self.r
        while True:
            k = r.random()
            ip = r.choice([0, r.randint(0, 9), r.randint(lo, hi)])
            nd = r.choice([0, 0, 1, 2, 3, 5, 6, 6, 9])
            fr = "".join(r.choice("0123456789") for _ in range(nd))
            if nd and k < 0.15:
                t = "." + fr
            else:
                t = str(ip) + ("." + fr if nd else ("." if 0.2 < k < 0.28 else ""))
                if k > 0.85:
                    t = "0" * r.randint(1, 3) + t
            if signed:
                t = r.choice(["", "", "", "-", "+"]) + t
            if nz and float(t) == 0:
                continue
            return t, float(t)

    def coord(self):
        r = self.r
        t = r.choice(["", "", "-", "+"]) + "".join(r.choice(_s.digits) for _ in range(r.choice([1, 2, 5, 6, 7, 9, 10])))
        return t

    def code(self, letter, n, width=2):
        r = self.r
        t = f"{letter}{n:0{width}d}"
        k = r.random()
        if k < 0.12:
            t = f"{letter}{n}"
        elif k < 0.2:
            t = f"{letter}{'0' * r.randint(1, 3)}{n:02d}"
        return t

    def aper(self):
        r = self.r
        return "D" + str(r.choice([10, 11, 99, 100, r.randint(10, 9999), r.randint(10, 9999), r.randint(10000, 2 ** 31 - 1)]))

    def var(self):
        r = self.r
        return "$" + str(r.choice([r.randint(1, 12), r.randint(1, 12), r.randint(13, 99), r.randint(100, 99999)]))

    # ---- commands ----------------------------------------------------------
    def ext(self, cls, f, toks):
        if toks[0] in ("TA", "TF", "TO"):
            f.setdefault("attribute_name", str(toks[1]))
        return N(cls, f, ["%", *toks, "*", "%"])

    def cmd(self, cls, f, toks):
        return N(cls, f, [*toks, "*"])

    def g04(self):
        if self.r.random() < 0.1:
            return self.cmd("G04", {"string": None}, [self.code("G", 4)])
        t = self.text(24)
        if t[0].isdigit():
            t = " " + t
        return self.cmd("G04", {"string": t}, [self.code("G", 4), Raw(t)])

    def zeros(self, a):
        """aperture number as it may be written"""
        return "D" + "0" * self.r.choice([1, 2, 5]) + a[1:] if self.r.random() < 0.25 else a

    GS = [1, 2, 3, 36, 37, 54, 55, 70, 71, 74, 75, 90, 91]

    def g(self):
        n = self.r.choice(self.GS)
        return [self.cmd(f"G{n:02d}", {"is_standalone": True}, [self.code("G", n)])]

    def coordn(self, c):
        v = self.coord()
        c2 = c.lower() if self.r.random() < 0.05 else c
        return N(f"Coordinate{c}", {"value": v}, [c2, v])

    def d(self, standalone=True, need=False):
        r = self.r
        k = r.random()
        if k < 0.2:
            a = self.aper()
            return self.cmd("Dnn", {"aperture_id": a, "is_standalone": standalone}, [self.zeros(a)])
        which = r.choice([1, 1, 2, 3])
        f, toks = {"is_standalone": standalone}, []
        for c in "XY" + ("IJ" if which == 1 else ""):
            if r.random() < 0.65:
                nd = self.coordn(c)
                f[c.lower()] = nd
                toks.append(nd)
            else:
                f[c.lower()] = None
        if which == 1 and toks and r.random() < 0.15:
            pass  # D01 code omitted
        else:
            toks.append(self.code("D", which))
        return self.cmd(f"D0{which}", f, toks)

    def gd(self):
        """G code merged with an operation in one word."""
        n = self.r.choice(self.GS)
        d = self.d(standalone=False)
        first = d.toks[0]
        txt = first.toks[0] if isinstance(first, N) else first
        if txt[0] not in "DXYIJ":
            return self.g()
        g = N(f"G{n:02d}", {"is_standalone": False}, [self.code("G", n)])
        return [g, d]

    def ad(self):
        r = self.r
        a = self.aper()
        k = r.choice("CROPM")
        hole_t, hole = self.dbl(signed=False) if r.random() < 0.4 else (None, None)
        ht = ["X", hole_t] if hole_t else []
        if k == "C":
            t, v = self.dbl(signed=False)
            return self.ext("ADC", {"aperture_id": a, "diameter": v, "hole_diameter": hole}, ["AD", self.zeros(a), "C,", t, *ht])
        if k in "RO":
            w, wv = self.dbl(signed=False)
            h, hv = self.dbl(signed=False)
            return self.ext(f"AD{k}", {"aperture_id": a, "width": wv, "height": hv, "hole_diameter": hole},
                            ["AD", self.zeros(a), f"{k},", w, "X", h, *ht])
        if k == "P":
            t, v = self.dbl(signed=False)
            nv = r.randint(3, 12)
            if r.random() < 0.6:
                rt, rv = self.dbl()
                rot = ["X", rt]
            else:
                rot, rv, ht, hole = [], None, [], None
            return self.ext("ADP", {"aperture_id": a, "outer_diameter": v, "vertices": nv, "rotation": rv,
                                    "hole_diameter": hole}, ["AD", self.zeros(a), "P,", t, "X", str(nv), *rot, *ht])
        nm = self.name(dot=True)
        if nm[0] in "CROP" and len(nm) == 1:
            nm = "M" + nm
        ps = [self.dbl() for _ in range(r.randint(0, 4))]
        toks = ["AD", self.zeros(a), nm]
        for i, (t, _) in enumerate(ps):
            toks += ["," if i == 0 else "X", t]
        return self.ext("ADmacro", {"aperture_id": a, "name": nm, "params": [v for _, v in ps] if ps else None}, toks)

    # ---- macro -------------------------------------------------------------
    def expr(self, depth=0):
        """Returns an expected Expression node (grammar level).  Shapes used here are
        unambiguous: no chained mixture whose association differs between readers."""
        r = self.r
        k = r.random()
        if depth >= 2 or k < 0.45:
            t, v = self.dbl(signed=False)
            return N("Constant", {"constant": v}, [t])
        if k < 0.62:
            v = self.var()
            return N("Variable", {"variable": v}, [v])
        if k < 0.7:
            e = self.expr(2)
            return N("Neg" if r.random() < 0.7 else "Pos", {"operand": e}, None) if False else self._neg(e)
        if k < 0.8:
            e = self.expr(depth + 1)
            return N("Parenthesis", {"inner": e}, ["(", e, ")"])
        op, cls = r.choice([("+", "Add"), ("-", "Sub"), ("x", "Mul"), ("X", "Mul"), ("/", "Div")])
        head = self._atom(depth + 1)
        tail = [self._atom(depth + 1) for _ in range(r.choice([1, 1, 2, 3]))]
        toks = [head]
        for t in tail:
            toks += [op, t]
        return N(cls, {"head": head, "tail": tail}, toks)

    def _neg(self, e):
        if e.cls not in ("Constant", "Variable", "Parenthesis"):
            e = N("Parenthesis", {"inner": e}, ["(", e, ")"])
        return N("Neg", {"operand": e}, ["-", e])

    def _atom(self, depth):
        e = self.expr(depth)
        if e.cls not in ("Constant", "Variable", "Parenthesis"):
            e = N("Parenthesis", {"inner": e}, ["(", e, ")"])
        return e

    PRIMS = {
        1: ["exposure", "diameter", "center_x", "center_y"],
        2: ["exposure", "width", "start_x", "start_y", "end_x", "end_y", "rotation"],
        20: ["exposure", "width", "start_x", "start_y", "end_x", "end_y", "rotation"],
        5: ["exposure", "number_of_vertices", "center_x", "center_y", "diameter", "rotation"],
        6: ["center_x", "center_y", "outer_diameter", "ring_thickness", "gap_between_rings", "max_ring_count",
            "crosshair_thickness", "crosshair_length", "rotation"],
        7: ["center_x", "center_y", "outer_diameter", "inner_diameter", "gap_thickness", "rotation"],
        21: ["exposure", "width", "height", "center_x", "center_y", "rotation"],
        22: ["exposure", "width", "height", "x_lower_left", "y_lower_left", "rotation"],
    }

    def prim(self):
        r = self.r
        k = r.random()
        if k < 0.12:
            t = self.text(16)
            if t[0].isdigit():
                t = " " + t
            return self.cmd("Code0", {"string": t}, ["0", Raw(t)])
        if k < 0.27:
            v = self.var()
            vn = N("Variable", {"variable": v}, [v])
            e = self.expr()
            return self.cmd("Assignment", {"variable": vn, "expression": e}, [vn, "=", e])
        if k < 0.4:
            pts = []
            f = {"exposure": self.expr(1), "number_of_points": self.expr(2), "start_x": self.expr(1),
                 "start_y": self.expr(1)}
            toks = ["4"]
            for v in f.values():
                toks += [",", v]
            for _ in range(r.randint(1, 4)):
                x, y = self.expr(2), self.expr(2)
                p = N("Point", {"x": x, "y": y}, [",", x, ",", y])
                pts.append(p)
                toks.append(p)
            f["points"] = pts
            f["rotation"] = self.expr(1)
            toks += [",", f["rotation"]]
            return self.cmd("Code4", f, toks)
        code = r.choice(list(self.PRIMS))
        names = list(self.PRIMS[code])
        f = {}
        if code == 1:
            if r.random() < 0.5:
                names.append("rotation")
            else:
                f["rotation"] = None
        toks = [str(code)]
        for nme in names:
            f[nme] = self.expr(r.choice([0, 1, 1, 2]))
            toks += [",", f[nme]]
        return self.cmd(f"Code{code}", f, toks)

    def am(self):
        nm = self.name(dot=True)
        op = N("AMopen", {"name": nm}, ["%", "AM", nm, "*"])
        ps = [self.prim() for _ in range(self.r.randint(1, 5))]
        cl = N("AMclose", {}, ["%"])
        return N("AM", {"open": op, "primitives": ps, "close": cl}, [op, *ps, cl])

    # ---- attributes ----------------------------------------------------------
    def field0(self):
        """attribute field that may be empty"""
        return "" if self.r.random() < 0.15 else self.field()

    def _fields(self, lo=0, hi=3):
        return [self.field0() for _ in range(self.r.randint(lo, hi))]

    @staticmethod
    def _ft(fs):
        out = []
        for x in fs:
            out += [",", x]
        return out

    def ta(self):
        r = self.r
        k = r.choice("uaadf")
        if k == "u":
            nm, fs = self.name(), self._fields()
            return self.ext("TA_UserName", {"user_name": nm, "fields": fs, "attribute_name": nm},
                            ["TA", nm, *self._ft(fs)])
        if k == "a":
            fn = r.choice(APER_FUNCTIONS)
            fs = self._fields(0, 2)
            if r.random() < 0.05:
                return self.ext("TA_AperFunction", {"function": None, "fields": [], "attribute_name": ".AperFunction"},
                                ["TA", ".AperFunction"])
            return self.ext("TA_AperFunction", {"function": fn, "fields": fs, "attribute_name": ".AperFunction"},
                            ["TA", ".AperFunction", ",", fn, *self._ft(fs)])
        if k == "d":
            if r.random() < 0.05:
                return self.ext("TA_DrillTolerance", {"plus_tolerance": None, "minus_tolerance": None},
                                ["TA", ".DrillTolerance"])
            a = self.dbl(signed=False)
            b = self.dbl(signed=False) if r.random() < 0.6 else None
            return self.ext("TA_DrillTolerance",
                            {"plus_tolerance": a[1], "minus_tolerance": b[1] if b else None},
                            ["TA", ".DrillTolerance", ",", a[0], *([",", b[0]] if b else [])])
        s = self.field0()
        mode, mir = r.choice("BC"), r.choice(["R", "M", ""])
        font, size = self.field0(), self.field0()
        cs = self._fields(0, 2)
        return self.ext("TA_FlashText", {"string": s, "mode": mode, "mirroring": mir or "R", "font": font, "size": size,
                                         "comments": cs},
                        ["TA", ".FlashText", ",", s, ",", mode, ",", mir, ",", font, ",", size, *self._ft(cs)])

    def tf(self):
        r = self.r
        k = r.choice(["u", "Part", "FileFunction", "FilePolarity", "SameCoordinates", "CreationDate",
                      "GenerationSoftware", "ProjectId", "MD5"])
        if k == "u":
            nm, fs = self.name(), self._fields()
            return self.ext("TF_UserName", {"user_name": nm, "fields": fs, "attribute_name": nm},
                            ["TF", nm, *self._ft(fs)])
        if k == "Part":
            p, fs = r.choice(PARTS), self._fields(0, 2)
            return self.ext("TF_Part", {"part": p, "fields": fs, "attribute_name": ".Part"},
                            ["TF", ".Part", ",", p, *self._ft(fs)])
        if k == "FileFunction":
            p, fs = r.choice(FILE_FUNCTIONS), self._fields(0, 3)
            return self.ext("TF_FileFunction", {"file_function": p, "fields": fs, "attribute_name": ".FileFunction"},
                            ["TF", ".FileFunction", ",", p, *self._ft(fs)])
        if k == "FilePolarity":
            p = r.choice(["Positive", "Negative"])
            return self.ext("TF_FilePolarity", {"polarity": p, "attribute_name": ".FilePolarity"},
                            ["TF", ".FilePolarity", ",", p])
        if k == "SameCoordinates":
            p = self.field0() if r.random() < 0.6 else None
            return self.ext("TF_SameCoordinates", {"identifier": p},
                            ["TF", ".SameCoordinates", *([",", p] if p is not None else [])])
        if k == "CreationDate":
            off = r.choice([0, 60, -330, 90, 765])
            tz = None if r.random() < 0.2 else datetime.timezone(datetime.timedelta(minutes=off))
            us = r.choice([0, 0, 0, 500000, 123456, 1])
            dt = datetime.datetime(r.randint(1980, 2030), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23),
                                   r.randint(0, 59), r.randint(0, 59), us, tzinfo=tz)
            return self.ext("TF_CreationDate", {"creation_date": dt}, ["TF", ".CreationDate", ",",
                                                                       dt.isoformat().replace("+00:00", r.choice(["Z", "+00:00"]))])
        if k == "GenerationSoftware":
            n = r.choice([0, 1, 1, 2, 2, 3, 3, 3])
            fs = [self.field0() for _ in range(n)] + [None] * (3 - n)
            return self.ext("TF_GenerationSoftware", {"vendor": fs[0], "application": fs[1], "version": fs[2]},
                            ["TF", ".GenerationSoftware", *self._ft(fs[:n])])
        if k == "ProjectId":
            n = r.choice([0, 1, 1, 2, 2, 3, 3, 3])
            fs = [self.field0() for _ in range(n)] + [None] * (3 - n)
            return self.ext("TF_ProjectId", {"name": fs[0], "guid": fs[1], "revision": fs[2]},
                            ["TF", ".ProjectId", *self._ft(fs[:n])])
        h = "".join(r.choice("0123456789abcdef") for _ in range(32))
        return self.ext("TF_MD5", {"md5": h}, ["TF", ".MD5", ",", h])

    def to(self):
        r = self.r
        k = r.choice(["u", "N", "P", "C", "CRot", "CMfr", "CMPN", "CVal", "CMnt", "CFtp", "CPgN", "CPgD", "CHgt",
                      "CLbN", "CLbD", "CSup"])
        if k == "u":
            nm, fs = self.name(), self._fields()
            return self.ext("TO_UserName", {"user_name": nm, "fields": fs, "attribute_name": nm},
                            ["TO", nm, *self._ft(fs)])
        if k == "N":
            fs = self._fields(1, 3)
            return self.ext("TO_N", {"net_names": fs, "attribute_name": ".N"}, ["TO", ".N", *self._ft(fs)])
        if k == "P":
            fs = [self.field0() for _ in range(r.randint(2, 3))]
            return self.ext("TO_P", {"refdes": fs[0], "number": fs[1], "function": fs[2] if len(fs) == 3 else None,
                                     "attribute_name": ".P"}, ["TO", ".P", *self._ft(fs)])
        one = {"C": ("TO_C", "refdes"), "CMfr": ("TO_CMfr", "manufacturer"), "CMPN": ("TO_CMNP", "part_number"),
               "CVal": ("TO_CVal", "value"), "CFtp": ("TO_CFtp", "footprint"), "CPgN": ("TO_CPgN", "name"),
               "CPgD": ("TO_CPgD", "description"), "CLbN": ("TO_CLbN", "name"), "CLbD": ("TO_CLbD", "description")}
        if k in one:
            cls, fld = one[k]
            v = self.field0()
            return self.ext(cls, {fld: v}, ["TO", f".{k}", ",", v])
        if k in ("CRot", "CHgt"):
            t, v = self.dbl()
            return self.ext(f"TO_{k}", {"angle" if k == "CRot" else "height": v}, ["TO", f".{k}", ",", t])
        if k == "CMnt":
            m = r.choice(MOUNTS)
            return self.ext("TO_CMnt", {"mount": m}, ["TO", ".CMnt", ",", m])
        fs = [self.field0() for _ in range(r.randint(2, 4))]
        return self.ext("TO_CSup", {"supplier": fs[0], "supplier_part": fs[1], "other_suppliers": fs[2:]},
                        ["TO", ".CSup", *self._ft(fs)])

    def td(self):
        k = self.r.random()
        if k < 0.3:
            return self.ext("TD", {"name": None}, ["TD"])
        nm = self.name() if k < 0.7 else self.r.choice([".AperFunction", ".N", ".C", ".P", ".CRot"])
        return self.ext("TD", {"name": nm}, ["TD", Raw(nm)])

    def load(self):
        r = self.r
        k = r.choice(["LN", "LP", "LR", "LS", "LM"])
        if k == "LN":
            t = self.text(12)
            return self.ext("LN", {"name": t}, ["LN", Raw(t)])
        if k == "LP":
            p = r.choice("CD")
            return self.ext("LP", {"polarity": p}, ["LP", p])
        if k == "LM":
            p = r.choice(["N", "X", "Y", "XY"])
            return self.ext("LM", {"mirroring": p}, ["LM", p])
        t, v = self.dbl(signed=(k == "LR"))
        return self.ext(k, {"rotation" if k == "LR" else "scale": v}, [k, t])

    def prop(self):
        r = self.r
        k = r.choice(["FS", "MO", "IP", "IR", "OF", "AS", "MI", "IN", "SF"])
        if k == "FS":
            z, m = r.choice(["L", "T", ""]), r.choice("AI")
            d = [str(r.randint(1, 7)) for _ in range(4)]
            return self.ext("FS", {"zeros": z, "coordinate_mode": m, "x_integral": int(d[0]), "x_decimal": int(d[1]),
                                   "y_integral": int(d[2]), "y_decimal": int(d[3])},
                            ["FS" + z + m, "X", d[0], d[1], "Y", d[2], d[3]] if z == "" else
                            ["FS", z, m, "X", d[0], d[1], "Y", d[2], d[3]])
        if k == "MO":
            m = r.choice(["MM", "IN"])
            return self.ext("MO", {"mode": m}, ["MO", m])
        if k == "IP":
            m = r.choice(["POS", "NEG"])
            return self.ext("IP", {"polarity": m}, ["IP", m])
        if k == "IR":
            m = r.choice([0, 90, 180, 270])
            return self.ext("IR", {"rotation_degrees": m}, ["IR", str(m)])
        if k == "AS":
            m = r.choice(["AXBY", "AYBX"])
            return self.ext("AS", {"correspondence": m}, ["AS", m])
        if k == "IN":
            t = self.text(10)
            return self.ext("IN", {"name": t}, ["IN", Raw(t)])
        toks, f = [k], {}
        for ax in "AB":
            have = r.random() < 0.75
            if k == "MI":
                v = r.choice([0, 1])
                f[f"{ax.lower()}_mirroring"] = v if have else 0
                if have:
                    toks += [ax, str(v)]
            else:
                t, v = self.dbl(signed=(k == "OF"), nz=(k == "SF"))
                f[f"{ax.lower()}_{'offset' if k == 'OF' else 'scale'}"] = v if have else (None if k == "OF" else 1.0)
                if have:
                    toks += [ax, t]
        return self.ext(k, f, toks)

    def m(self):
        n = self.r.choice([0, 1, 2])
        return self.cmd(f"M0{n}", {}, [self.code("M", n)])

    def srn(self, depth=0):
        r = self.r
        f, toks = {}, ["%", "SR"]
        for ax in "XYIJ":
            if r.random() < 0.8:
                if ax in "XY":
                    t = str(r.randint(1, 4))
                else:
                    t, _ = self.dbl(signed=False)
                f[ax.lower()] = t
                toks += [ax, t]
            else:
                f[ax.lower()] = None
        if all(v is None for v in f.values()):
            f["x"] = "1"
            toks += ["X", "1"]
        op = N("SRopen", f, [*toks, "*", "%"])
        body = self.body(depth + 1, r.randint(0, 6))
        cl = N("SRclose", {}, ["%", "SR", "*", "%"])
        return N("SR", {"open": op, "nodes": body, "close": cl}, [op, *body, cl])

    def abn(self, depth=0):
        r = self.r
        a = self.aper()
        op = N("ABopen", {"aperture_id": a}, ["%", "AB", self.zeros(a), "*", "%"])
        body = self.body(depth + 1, r.randint(0, 6))
        cl = N("ABclose", {}, ["%", "AB", "*", "%"])
        return N("AB", {"open": op, "nodes": body, "close": cl}, [op, *body, cl])

    def body(self, depth, n):
        out = []
        for _ in range(n):
            out += self.any(depth)
        return out

    nest = False        # True: blocks in blocks are common

    def any(self, depth=0):
        r = self.r
        k = r.random()
        if self.nest and depth < 3 and r.random() < 0.25:
            return [self.abn(depth) if depth or r.random() < 0.7 else self.srn(depth)]
        if k < 0.28:
            return [self.d()]
        if k < 0.36:
            return self.g()
        if k < 0.44:
            return self.gd()
        if k < 0.51:
            return [self.g04()]
        if k < 0.61:
            return [self.ad()]
        if k < 0.66:
            return [self.am()]
        if k < 0.72:
            return [self.ta()]
        if k < 0.78:
            return [self.tf()]
        if k < 0.84:
            return [self.to()]
        if k < 0.86:
            return [self.td()]
        if k < 0.91:
            return [self.load()]
        if k < 0.96:
            return [self.prop()]
        if depth < 2 and k < 0.985:
            # step-repeat is not nested in blocks (the format forbids it)
            return [self.abn(depth) if depth or r.random() < 0.5 else self.srn(depth)]
        return [self.m()]


# ---- comparison with what the reader produced ---------------------------------


def plain(v):
    import enum
    if isinstance(v, enum.Enum):
        return v.value
    return v


def diff(exp, got, path="", spans=None, text=None):
    """None if `got` (a node of the implementation) is the expected node."""
    if isinstance(exp, N):
        if type(got).__name__ != exp.cls:
            return f"{path}: expected {exp.cls}, got {type(got).__name__}"
        for k, v in exp.f.items():
            if not hasattr(got, k):
                return f"{path}.{exp.cls}: no value {k}"
            d = diff(v, getattr(got, k), f"{path}.{exp.cls}.{k}", spans, text)
            if d:
                return d
        if spans is not None and exp.start is not None:
            si = got.source_info
            if si is None:
                return f"{path}.{exp.cls}: no source information"
            spans(exp, si, path)
        return None
    if isinstance(exp, list):
        if not isinstance(got, (list, tuple)) or len(exp) != len(got):
            return f"{path}: expected {len(exp)} items, got {got!r}"
        for i, (a, b) in enumerate(zip(exp, got)):
            d = diff(a, b, f"{path}[{i}]", spans, text)
            if d:
                return d
        return None
    g = plain(got)
    if isinstance(exp, float) and isinstance(g, (int, float)):
        return None if float(g) == exp else f"{path}: expected {exp!r}, got {g!r}"
    if exp is None:
        return None if g is None else f"{path}: expected nothing, got {g!r}"
    if isinstance(exp, str):
        return None if (g is not None and str(g) == exp) else f"{path}: expected {exp!r}, got {g!r}"
    return None if g == exp else f"{path}: expected {exp!r}, got {g!r}"


def diff_nodes(exps, gots, path="file", spans=None):
    if len(exps) != len(gots):
        for i, (a, b) in enumerate(zip(exps, gots)):
            if type(b).__name__ != a.cls:
                return f"{path}: expected {len(exps)} commands, got {len(gots)}; first difference at {i}: expected {a!r}, got {b!r}"
        return f"{path}: expected {len(exps)} commands, got {len(gots)}"
    for i, (a, b) in enumerate(zip(exps, gots)):
        d = diff(a, b, f"{path}[{i}]", spans)
        if d:
            return d
    return None


def classes(nodes, acc=None):
    acc = set() if acc is None else acc
    for n in nodes:
        if isinstance(n, N):
            acc.add(n.cls)
            for v in n.f.values():
                if isinstance(v, N):
                    classes([v], acc)
                elif isinstance(v, list):
                    classes(v, acc)
    return acc
