"""C19 job files."""
import copy
import json
import os
import shutil
import tempfile
from pathlib import Path

from mon.harness import Violation, check, eq

ID = "C19"
LEVEL = "exploration"
TECHNIQUE = "reference-model monitor: views of the loaded project vs the board the job file was written from"
LEVEL_NOTE = ("Random boards are written as job file plus Gerber files; each file of every view of the loaded project is traced "
              "back to the file on disk by its contents and compared with the board; single faults of every kind must be "
              "reported. Sampled, not exhaustive.")
RULE = ("boards with 1..14 copper layers and any subset of mask, paste, legend, profile, drill, drawing files, listed in any "
        "order, letter case and folder, with optional and unknown fields present or absent; loaded from disk or from an "
        "object plus path. Faults: any required field missing or of wrong type, cut JSON, unknown file function, missing "
        "file. Distinct: job file text.")
ASSUMPTIONS = ["no two files of a board have the same function on the same side or layer",
               "views show copper, masks, paste, silkscreen, legend and profile files; others are not part of a view"]
QUICK, THOROUGH, TIMEOUT = 6000, 60000, 60

ORDER = ["COPPER", "MASK", "SOLDERMASK", "PASTE", "SILK", "LEGEND", "PROFILE"]
REQUIRED = [("Header",), ("Header", "CreationDate"), ("Header", "GenerationSoftware"), ("Header", "GenerationSoftware", "Vendor"),
            ("Header", "GenerationSoftware", "Application"), ("Header", "GenerationSoftware", "Version"), ("GeneralSpecs",),
            ("GeneralSpecs", "ProjectId"), ("GeneralSpecs", "ProjectId", "Name"), ("GeneralSpecs", "ProjectId", "GUID"),
            ("GeneralSpecs", "ProjectId", "Revision"), ("GeneralSpecs", "Size"), ("GeneralSpecs", "Size", "X"),
            ("GeneralSpecs", "Size", "Y"), ("GeneralSpecs", "LayerNumber"), ("GeneralSpecs", "BoardThickness"),
            ("FilesAttributes",), ("FilesAttributes", 0, "Path"), ("FilesAttributes", 0, "FileFunction"),
            ("FilesAttributes", 0, "FilePolarity"), ("MaterialStackup",), ("MaterialStackup", 0, "Name"),
            ("MaterialStackup", 0, "Type")]


def worker_init(ctx):
    import logging
    logging.disable(logging.WARNING)


def text(r):
    return "".join(r.choice("abcXYZ 019_-éß") for _ in range(r.randint(1, 10)))


def board(r, d):
    """files on disk, job dict, expected views"""
    n = r.choice([1, 2, 2, 2, 4, 4, 6, 10, 12, 14])
    files = []   # (function text, type, where)
    for i in range(1, n + 1):
        if r.random() < 0.1:
            continue
        side = "Top" if i == 1 else "Bot" if i == n else "Inr"
        tail = r.choice(["", ",Signal", ",Plane"]) if r.random() < 0.4 else ""
        files.append((f"Copper,L{i},{side}{tail}", "COPPER", side if side != "Inr" else i))
    for side in ("Top", "Bot"):
        for f in ("Soldermask", "Paste", "Legend", "Mask", "Silk"):  # "SolderPaste" is another name of paste
            if r.random() < (0.6 if f in ("Soldermask", "Paste", "Legend") else 0.08):
                k = ",2" if r.random() < 0.05 else ""
                name = "SolderPaste" if f == "Paste" and r.random() < 0.2 else f
                files.append((f"{name},{side}{k}", f.upper(), side))
    if r.random() < 0.8:
        files.append((r.choice(["Profile,NP", "Profile,P", "Profile"]), "PROFILE", "all"))
    for f, t in (("Plated,1,4,PTH,Drill", "PLATED"), ("NonPlated,1,2,NPTH,Drill", "NONPLATED"), ("Glue,Top", "GLUE"), ("Carbonmask,Bot", "CARBONMASK"),
                 ("Component,L1,Top", "COMPONENT"), ("AssemblyDrawing,Top", "ASSEMBLYDRAWING"), ("Viafill", "VIAFILL"),
                 ("FabricationDrawing", "FABRICATIONDRAWING"), ("Other,mine", "OTHER")):
        if r.random() < 0.15:
            files.append((f, t, None))
    if not files:
        files.append(("Copper,L1,Top", "COPPER", "Top"))
    r.shuffle(files)
    attrs, exp = [], {}
    for k, (fun, typ, where) in enumerate(files):
        sub = r.choice(["", "", "", "sub/", "a b/c.d/"])
        p = f"{sub}f{k}{r.choice(['.gbr', '.gtl', '.gbs', '.GM1', ''])}"
        src = (f"%TF.FileFunction,{r.choice(['Copper,L1,Top', 'Legend,Bot', 'Soldermask,Top'])}*%" if r.random() < 0.3 else "") + \
            f"%FSLAX46Y46*%\n%MOMM*%\nG04 file {k} {fun} é*\n%ADD10C,0.{k + 1}*%\nD10*\nX{k}000000Y0D03*\nM02*\n"
        Path(d, p).parent.mkdir(parents=True, exist_ok=True)
        Path(d, p).write_text(src, "utf-8")
        cased = r.choice([fun, fun, fun, fun.upper(), fun.lower()])
        a = {"Path": p, "FileFunction": cased, "FilePolarity": r.choice(["Positive", "Negative"])}
        if r.random() < 0.1:
            a["Comment"] = text(r)
        attrs.append(a)
        if where is not None:
            exp.setdefault(where, []).append((typ, src))
    job = {
        "Header": {"GenerationSoftware": {"Vendor": text(r), "Application": text(r), "Version": "1.0"}, "CreationDate": "2024-01-01T00:00:00+01:00"},
        "GeneralSpecs": {"ProjectId": {"Name": text(r), "GUID": "abc-def", "Revision": text(r)},
                         "Size": {"X": r.choice([10, 100.25, 0.5]), "Y": r.choice([1, 76.125])}, "LayerNumber": n,
                         "BoardThickness": r.choice([1.6, 0.8, 2])},
        "FilesAttributes": attrs,
        "MaterialStackup": [{"Name": text(r), "Type": r.choice(["Copper", "Dielectric", "SolderMask"])} for _ in range(r.randint(1, 5))],
    }
    if r.random() < 0.5:
        job["GeneralSpecs"]["Finish"] = "ENIG"
    if r.random() < 0.5:
        job["DesignRules"] = [{"Layers": "Outer", "PadToPad": 0.1, "PadToTrack": 0.1, "TrackToTrack": 0.1, "TrackToRegion": 0.1,
                               "RegionToRegion": 0.1}]
    if r.random() < 0.3:
        job["GeneralSpecs"]["Whatever"] = {"a": [1]}
        job["Unknown"] = 5
    for m in job["MaterialStackup"]:
        if r.random() < 0.5:
            m["Thickness"] = r.choice([0.035, 1, 0.2])
        if r.random() < 0.5:
            m["Material"] = text(r)
        if r.random() < 0.5:
            m["Notes"] = text(r)
    return n, job, exp


def expected_views(exp):
    def view(where):
        fs = exp.get(where, []) + (exp.get("all", []))
        return sorted(((t, s) for t, s in fs if t in ORDER), key=lambda t: ORDER.index(t[0]))
    inner = [view(k) for k in sorted(k for k in exp if isinstance(k, int))]
    return view("Top"), inner, view("Bot")


def observed(view):
    return [(f.file_type.value, f.source_code) for f in view.files]


def short(v):
    return [(t, s[s.find("G04"):].split("*")[0]) for t, s in v]


def same(job, obj):
    g = obj.general_specs
    j = job["GeneralSpecs"]
    eq((g.project_id.name, g.project_id.guid, g.project_id.revision), tuple(j["ProjectId"][k] for k in ("Name", "GUID", "Revision")), "project id")
    eq((g.size.x, g.size.y, g.layer_number, g.board_thickness, g.finish),
       (j["Size"]["X"], j["Size"]["Y"], j["LayerNumber"], j["BoardThickness"], j.get("Finish")), "general specs")
    h = obj.header
    gs = job["Header"]["GenerationSoftware"]
    eq((h.creation_date, h.generation_software.vendor, h.generation_software.application, h.generation_software.version),
       (job["Header"]["CreationDate"], gs["Vendor"], gs["Application"], gs["Version"]), "header")
    eq([(a.path, a.file_function, a.file_polarity) for a in obj.files_attributes],
       [(a["Path"], a["FileFunction"], a["FilePolarity"]) for a in job["FilesAttributes"]], "listed files")
    eq([(m.name, m.type, m.thickness, m.material, m.notes) for m in obj.material_stackup],
       [(m["Name"], m["Type"], m.get("Thickness"), m.get("Material"), m.get("Notes")) for m in job["MaterialStackup"]], "stackup")


def must_fail(f, what):
    try:
        res = f()
    except Exception as e:
        if isinstance(e, (RecursionError, MemoryError, AttributeError, TypeError)):
            raise Violation(f"{what}: {type(e).__name__}: {e}") from e
        return type(e).__name__
    raise Violation(f"{what}: accepted, result {res!r}"[:800])


def case(rng, ctx):
    from pygerber.gerber.api import GerberJobFile
    d = tempfile.mkdtemp(prefix="c19-")
    try:
        n, job, exp = board(rng, d)
        jp = Path(d, rng.choice(["x-job.gbrjob", "é.gbrjob", "job"]))
        src = json.dumps(job, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 2]))
        jp.write_text(src, "utf-8")
        ctx.put(job=src)
        if rng.random() < 0.3:
            fault(rng, ctx, d, jp, job, exp)
            return
        way = rng.choice(["file", "file", "relative", "object"])
        if way == "file":
            obj = GerberJobFile.from_file(jp if rng.random() < 0.5 else str(jp))
            proj = obj.to_project()
        elif way == "relative":
            old = os.getcwd()
            os.chdir(Path(d).parent)
            try:
                obj = GerberJobFile.from_file(Path(Path(d).name) / jp.name)
                proj = obj.to_project()
            finally:
                os.chdir(old)
        else:
            obj = GerberJobFile.model_validate_json(src) if rng.random() < 0.5 else GerberJobFile(**json.loads(src))
            try:
                obj.to_project()
            except Exception as e:
                eq(type(e).__name__, "PathToGerberJobProjectNotDefinedError", "error of project without path")
            else:
                raise Violation("project made from object without path")
            proj = obj.to_project(path=jp)
        same(job, obj)
        top, inner, bot = expected_views(exp)
        for what, v, w in (("top", proj.top, top), ("bottom", proj.bottom, bot)):
            if observed(v) != w:
                raise Violation(f"{what} view: {short(observed(v))}, expected {short(w)}")
            eq(len(v), len(w), f"len of {what} view")
        if [observed(v) for v in proj.inner] != inner:
            raise Violation(f"inner views: {[short(observed(v)) for v in proj.inner]}, expected {[short(w) for w in inner]}")
        eq(jp.read_text("utf-8"), src, "job file after loading")
        if rng.random() < 0.1 and top:
            from PIL import Image
            im = proj.top.render_with_pillow(5).get_image()
            check(isinstance(im, Image.Image) and im.size[0] > 0, "render of the top view")
            ctx.count("views_rendered")
        # a second project from the same object is the same
        p2 = proj if way == "relative" else obj.to_project(path=jp)
        eq([observed(v) for v in (p2.top, *p2.inner, p2.bottom)], [top, *inner, bot], "second project from the same object")
        ctx.count("loaded_" + way)
        ctx.count("files_placed", len(top) + len(bot) + sum(map(len, inner)))
        ctx.count("inner_views", len(inner))
        ctx.distinct(src)
        ctx.sample(src)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def fault(r, ctx, d, jp, job, exp):
    from pygerber.gerber.api import GerberJobFile
    k = r.choice(["missing", "missing", "type", "json", "function", "nofile", "nojob", "badgerberpath"])
    bad = copy.deepcopy(job)

    def load():
        return GerberJobFile.from_file(jp)

    def proj():
        return GerberJobFile.from_file(jp).to_project()
    if k in ("missing", "type"):
        path = r.choice(REQUIRED)
        o = bad
        for q in path[:-1]:
            o = o[q]
        what = f"{k} {path}"
        if k == "missing":
            del o[path[-1]]
        else:
            o[path[-1]] = r.choice([None, {"x": [1]}, [[1]]])
        jp.write_text(json.dumps(bad))
        e = must_fail(load, what)
    elif k == "json":
        s = json.dumps(bad)
        what = "cut JSON"
        jp.write_text(s[: r.randint(0, len(s) - 1)])
        e = must_fail(load, what)
    elif k == "function":
        # a function nobody knows: reported, or the file is in no view; never taken for another function
        i = r.randrange(len(bad["FilesAttributes"]))
        src = Path(d, bad["FilesAttributes"][i]["Path"]).read_text("utf-8")
        bad["FilesAttributes"][i]["FileFunction"] = r.choice(["", "Nonsense,Top", "L1,Top", "Coper,L1,Top", ",Top", "Copper2,L3,Inr"])
        what = f"unknown function {bad['FilesAttributes'][i]['FileFunction']!r}"
        jp.write_text(json.dumps(bad))
        try:
            p = proj()
            e = "nothing, file in no view"
        except ValueError as x:
            p, e = None, type(x).__name__
        if p is not None:
            exp = {k: [f for f in v if f[1] != src] for k, v in exp.items()}
            top, inner, bot = expected_views({k: v for k, v in exp.items() if v or not isinstance(k, int)})
            got_in = [o for o in map(observed, p.inner) if [x for x in o if x[0] != "PROFILE"]]
            want_in = [w for w in inner if [x for x in w if x[0] != "PROFILE"]]
            if (observed(p.top), got_in, observed(p.bottom)) != (top, want_in, bot):
                raise Violation(f"{what}: views {short(observed(p.top))} {[short(x) for x in got_in]} {short(observed(p.bottom))}, "
                                f"expected {short(top)} {[short(x) for x in want_in]} {short(bot)}")
    elif k == "nojob":
        jp.unlink()
        what = "missing job file"
        e = must_fail(load, what)
    else:
        i = r.randrange(len(bad["FilesAttributes"]))
        if k == "nofile":
            Path(d, bad["FilesAttributes"][i]["Path"]).unlink()
        else:
            bad["FilesAttributes"][i]["Path"] = r.choice(["sub/nothere.gbr", "../nothere.gbr", "/nonexistent/x.gbr"])
            jp.write_text(json.dumps(bad))
        what = "missing Gerber file"
        e = must_fail(proj, what)
    ctx.count("fault_" + k)
    ctx.count("reported_as_" + e)
    ctx.distinct(what, jp.read_text() if jp.exists() else k)
