"""R22: raw inputs are never written; results land in the processed tree and are only
replaced when the user asks for it."""
from common import *
import parserun
import procrun
import os, pathlib, shutil, tempfile, types

REG = Registry("R22")
F = "oplab.folder_structure"
LEVELS = ("raw", "processed", "configuration")


class Scratch:
    def __enter__(self):
        self.root = pathlib.Path(tempfile.mkdtemp(prefix="vc_")).resolve()
        return self.root

    def __exit__(self, *a):
        shutil.rmtree(self.root)


def snapshot(root, skip=()):
    """every file with its contents, every link and folder"""
    out = {}
    for p in sorted(pathlib.Path(root).rglob("*")):
        r = p.relative_to(root).as_posix()
        if any(s in r.split("/") for s in skip):
            continue
        out[r] = ("link", str(p.readlink())) if p.is_symlink() else ("dir",) if p.is_dir() else ("file", p.read_bytes())
    return out


def write(p, text="x"):
    p.parent.mkdir(parents=True, exist_ok=True)
    p.write_text(text)
    return p


# ------------------------------------------------------------------ places of a dataset
NAMES = [(), ("a",), ("b", "rawdata"), ("processed2", "a")]


@REG.harness([F + ".get_folder", F + ".change_subfolder", F + ".get_raw_folder", F + ".get_processed_folder", F + ".get_config_folder"],
             kind="bounded", bound="paths of up to two parts before and after the dataset level, existing or not, any level, given as text or path", samples=30)
def places(ctx):
    silence(ctx)
    before, after = ctx.choice("before", NAMES), ctx.choice("after", NAMES + [("year", "dive", "image", "x.png")])
    level, target = ctx.choice("level", LEVELS), ctx.choice("target", LEVELS)
    exists, text = ctx.choice("exists", ["none", "source", "both"]), ctx.flag("text")
    m = repo(F)
    f = {"raw": m.get_raw_folder, "processed": m.get_processed_folder, "configuration": m.get_config_folder}
    with Scratch() as root:
        src = root.joinpath(*before, level, *after)
        want = root.joinpath(*before, target, *after)
        if exists != "none":
            src.mkdir(parents=True)
        if exists == "both" and want != src:
            want.mkdir(parents=True)
        was = snapshot(root)
        got = f[target](str(src) if text else src)
        ctx.ensure("only-the-level-changes", got == want, "%s: %s instead of %s" % (src, got, want))
        ctx.ensure("idempotent", f[target](got) == want)
        ctx.ensure("round-trip", f[level](got) == src, str(f[level](got)))
        ctx.ensure("get_folder", m.get_folder(src, target) == want)
        if exists != "none":
            # the place of the user and a path with a step back name the same dataset
            here = os.getcwd()
            os.chdir(src)
            try:
                ctx.ensure("from-within", f[target](".") == want)
                ctx.ensure("step-back", f[target](src / ".." / src.name) == want)
            finally:
                os.chdir(here)
        ctx.ensure("nothing-created", snapshot(root) == was)
        # a folder of the dive that carries the name of the level stays what it is
        for t in LEVELS:
            if t != level:
                ctx.ensure("first-level", f[t](src / level / "x.png") == root.joinpath(*before, t, *after, level, "x.png"))


@REG.harness([F + ".get_raw_folders", F + ".get_processed_folders", F + ".check_dirs_exist"],
             kind="bounded", bound="lists of up to three folders, each existing or not", samples=20)
def lists_of_places(ctx):
    silence(ctx)
    m = repo(F)
    n = ctx.choice("n", [1, 2, 3])
    with Scratch() as root:
        raw = [root / "raw" / ("dive%d" % k) for k in range(n)]
        proc = [root / "processed" / ("dive%d" % k) for k in range(n)]
        have = [ctx.flag("have%d" % k) for k in range(n)]
        for r, h in zip(raw, have):
            if h:
                r.mkdir(parents=True)
            else:
                write(r)
        ctx.ensure("processed", m.get_processed_folders(list(raw)) == proc)
        ctx.ensure("raw", m.get_raw_folders(list(proc)) == raw)
        ctx.ensure("one-processed", m.get_processed_folders(raw[0]) == proc[0] and m.get_raw_folders(proc[0]) == raw[0])
        ctx.ensure("all-exist", bool(m.check_dirs_exist(list(raw))) == all(have))
        ctx.ensure("one-exists", bool(m.check_dirs_exist(raw[0])) == have[0])


@REG.harness([F + ".get_folder"], kind="bounded", bound="existing and missing folders that belong to no dataset", samples=20)
def no_dataset(ctx):
    silence(ctx)
    m = repo(F)
    parts = ctx.choice("parts", [("a",), ("rawdata", "b"), ("my_processed", "c"), ("configurations",)])
    with Scratch() as root:
        p = root.joinpath(*parts)
        if ctx.flag("exists"):
            p.mkdir(parents=True)
        for f in (m.get_raw_folder, m.get_processed_folder, m.get_config_folder):
            try:
                got = f(p)
            except Quit:
                got = "refused"
            ctx.ensure("refused", got == "refused", str(got))


@REG.harness([F + ".get_file_list", F + ".remove_directory", F + "._copy"], kind="bounded", bound="every tree of two files in up to two nested folders, with links to a file and to a folder elsewhere", samples=30)
def trees(ctx):
    silence(ctx)
    m = repo(F)
    spots = [("f",), ("d", "g"), ("d", "e", "h")]
    here = [ctx.flag("file%d" % k) for k in range(3)]
    link = ctx.choice("link", ["none", "file", "folder", "dangling"])
    with Scratch() as root:
        keep = write(root / "other" / "sub" / "keep", "precious")
        t = root / "tree"
        t.mkdir()
        files = [write(t.joinpath(*s), str(k)) for k, s in enumerate(spots) if here[k]]
        ctx.ensure("all-files", sorted(m.get_file_list(str(t))) == sorted(files))
        if files:
            to = root / "new" / "place" / "copy"
            a = files[-1].copy(to)
            ctx.ensure("copied", to.read_text() == files[-1].read_text() and files[-1].exists())
            to.write_text("changed")
            ctx.ensure("own-copy", files[-1].read_text() != "changed")
            files[-1].copy(to)
            ctx.ensure("copied-again", to.read_text() == files[-1].read_text())
        if link != "none":
            (t / "l").symlink_to({"file": keep, "folder": keep.parent.parent, "dangling": root / "nowhere"}[link])
        m.remove_directory(t)
        ctx.ensure("removed", not t.exists())
        ctx.ensure("nothing-else-removed", keep.exists() and keep.read_text() == "precious")


# ------------------------------------------------------------------ auv_nav parse
def quiet_log(ctx):
    """the log file of a run is created, its handler is dropped again"""
    import logging

    C = repo("oplab.console").Console

    def set_logging_file(filename):
        p = pathlib.Path(filename)
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text("log")

    ctx.patch(C, "set_logging_file", staticmethod(set_logging_file))
    ctx.trusted.add("stand-in: Console.set_logging_file creates the folder and the log file")


@REG.harness([parserun.P + ".parse", parserun.P + ".parse_single", parserun.P + ".check_output_files_exist", "auv_nav.auv_nav.call_parse_data", "oplab.console.Console.set_logging_file"],
             kind="bounded", bound="fresh, started and finished datasets, forced or not, one or two dives", samples=16)
def parse_keeps_results(ctx):
    silence(ctx)
    quiet_log(ctx)
    t = ctx.real("t", lo=1, hi=1e9)
    lists = {"depth": [{"epoch_timestamp": t, "class": "measurement", "category": "depth", "data": [{"depth": 1.0}]}]}
    parserun.install(ctx, lists)
    names = ("20200101_000000_a", "20200102_000000_b")[: ctx.choice("dives", [1, 2])]
    state = [ctx.choice("state%d" % k, ["fresh", "folder", "parsed"]) for k in range(len(names))]
    force, via = ctx.flag("force"), ctx.choice("given", LEVELS[:2])
    with parserun.Dataset(names=names) as d:
        root = pathlib.Path(d.root)
        for n, s in zip(names, state):
            if s == "folder":
                d.nav(n).parent.parent.mkdir(parents=True)
            if s == "parsed":
                write(d.nav(n), "precious")
        for r in d.raw:
            write(r / "nav" / "data.txt", "raw data")
        raw = snapshot(root / "raw")
        proc = {n: snapshot(d.nav(n).parent.parent, skip=("log",)) for n in names}
        given = [str(r) if via == "raw" else str(d.nav(n).parent.parent) for r, n in zip(d.raw, names)]
        repo("auv_nav.auv_nav").call_parse_data(types.SimpleNamespace(path=given, force=force, merge=False))
        ctx.ensure("raw-untouched", snapshot(root / "raw") == raw)
        ctx.ensure("only-processed", sorted(p.name for p in root.iterdir()) == ["processed", "raw"], str(list(root.iterdir())))
        for n, s in zip(names, state):
            if s == "parsed" and not force:
                ctx.ensure("results-kept", snapshot(d.nav(n).parent.parent, skip=("log",)) == proc[n])
            else:
                ctx.ensure("parsed", d.nav(n).exists())
                got = parserun.load(ctx, d.nav(n))
                ctx.ensure("result", sum(p["category"] == "depth" for p in got) == 1 and len(got) == 2, str(got)[:200])


# ------------------------------------------------------------------ auv_nav process
class _NoFilter:
    """a filter without results (the filter is the subject of R07 to R11)"""

    def __getattr__(self, n):
        return lambda *a, **k: []


class Plain:
    """ordinary readings: this property is about files, not about the numbers in them"""

    def real(self, name, lo=0, hi=1):
        return lo + (hi - lo) * 0.51


@REG.harness([procrun.P + ".process"], kind="bounded", bound="one short dive; results of the same or of another period present or not; forced or not; default or own configuration", samples=12)
def process_keeps_results(ctx):
    have, force, default = ctx.choice("have", ["none", "same", "other"]), ctx.flag("force"), ctx.flag("default")
    t = [100.0, 101.0, 102.0]
    packets = [{"epoch_timestamp": 0.0, "category": "origin", "class": "origin", "data": [{"latitude": 1.0, "longitude": 2.0}]}]
    for i, x in enumerate(t):
        c = Plain()
        packets += [procrun.packet_orientation(c, i, x, 10.0), procrun.packet_velocity(c, i, x), procrun.packet_depth(c, i, x), procrun.packet_altitude(c, i, x)]
    SAME = "json_renav_19700101_000000_20300101_000000"
    snap = {}

    def before(d):
        r = pathlib.Path(d)
        write(r / "raw/dive/nav/data.txt", "raw data")
        if have != "none":
            write(r / "processed/dive" / (SAME if have == "same" else "json_renav_19700101_000000_19700102_000000") / "csv" / "dead_reckoning" / "auv_dr_centre.csv", "precious")
        if default:
            (r / "configuration/dive/auv_nav.yaml").unlink()
        snap["before"] = snapshot(d)

    def after(d):
        snap["after"] = snapshot(d)

    stopped = False
    vehicle = procrun.make_vehicle(Plain())
    mission = procrun.make_mission(Plain())
    ctx.patch(repo(procrun.P), "ExtendedKalmanFilter", lambda *a, **k: _NoFilter())
    try:
        procrun.run(ctx, packets, vehicle, mission, force=force, before=before, after=after, record=[("save_ekf_to_list", lambda b: []), ("run_particle_filter", lambda b: [[], [], [], [], [], []])])
    except Quit:
        stopped = True
    a, b = snap["before"], snap["after"]
    ctx.ensure("stops-iff-results-and-not-forced", stopped == (have == "same" and not force))
    for k, v in a.items():
        if have == "same" and force and k.startswith("processed/dive/" + SAME):
            continue
        ctx.ensure("kept", b.get(k) == v, k)
    new = sorted(k for k in b if k not in a)
    ctx.ensure("only-results-are-new", all(k.startswith("processed/dive/" + SAME) or k == "processed/dive/nav" or k.startswith("processed/dive/log") or (default and k == "configuration/dive/auv_nav.yaml") for k in new), str(new))
    if not stopped:
        ctx.ensure("result-folder", "processed/dive/" + SAME in b)


# ------------------------------------------------------------------ conversions
CV = "auv_nav.convert"


class _P:
    def __init__(self, **k):
        self.__dict__.update(k)


@REG.harness([CV + ".acfr_to_oplab", "auv_nav.tools.csv_tools.write_csv"], kind="bounded", bound="every combination of requested and existing pose files, forced or not", samples=30)
def acfr_keeps_results(ctx):
    silence(ctx)
    m = repo(CV)

    class Row:
        covariance = None

        def get_csv_header(self):
            return "header\n"

        def to_csv_row(self):
            return "row\n"

    rows = [Row(), Row()]
    ctx.patch(m, "AcfrVehiclePoseParser", lambda f: _P(get_dead_reckoning=lambda: rows))
    ctx.patch(m, "AcfrStereoPoseParser", lambda f: _P(get_cameras=lambda: (rows, rows)))
    v, s = ctx.choice("asked", [(True, False), (False, True), (True, True)])
    names = ["auv_acfr_centre.csv", "auv_acfr_LC.csv", "auv_acfr_RC.csv"]
    have = [ctx.flag("have" + n) for n in names]
    force = ctx.flag("force")
    with Scratch() as root:
        for n, h in zip(names, have):
            if h:
                write(root / n, "precious")
        try:
            m.acfr_to_oplab(_P(output_folder=str(root), force=force, vehicle_pose="v" if v else None, stereo_pose="s" if s else None, dive_folder=None))
            stopped = False
        except Quit:
            stopped = True
        ctx.ensure("no-other-file", {p.name for p in root.iterdir()} <= set(names), str(sorted(p.name for p in root.iterdir())))
        asked = [v, s, s]
        for n, h, q in zip(names, have, asked):
            if h and (not force or not q):
                ctx.ensure("kept", (root / n).read_text() == "precious", n)
            elif q and not stopped:
                ctx.ensure("written", (root / n).read_text() == "header\nrow\nrow\n", n)
        ctx.ensure("stops-iff-in-the-way", stopped == (not force and any(h and q for h, q in zip(have, asked))))


@REG.harness([CV + ".oplab_to_acfr"], kind="bounded", bound="either, both or none of the two output files present, not forced", samples=8)
def oplab_to_acfr_keeps_results(ctx):
    silence(ctx)
    m = repo(CV)
    have = [ctx.flag("vehicle"), ctx.flag("stereo")]

    class Reached(Exception):
        pass

    def reached(*a, **k):
        raise Reached()

    ctx.patch(m, "Mission", reached)
    with Scratch() as root:
        (root / "raw" / "d").mkdir(parents=True)
        out = root / "processed" / "o"
        out.mkdir(parents=True)
        for n, h in zip(("vehicle_pose_est.data", "stereo_pose_est.data"), have):
            if h:
                write(out / n, "precious")
        was = snapshot(root)
        force = ctx.flag("force")
        try:
            m.oplab_to_acfr(_P(dive_folder=str(root / "raw" / "d"), output_folder=str(out), force=force))
            r = "done"
        except Quit:
            r = "stopped"
        except Reached:
            r = "goes on"
        ctx.ensure("stops-iff-in-the-way", (r == "stopped") == (any(have) and not force), r)
        ctx.ensure("kept", snapshot(root) == was)


@REG.harness([CV + ".hybis_to_oplab"], kind="bounded", bound="results present or not, forced or not", samples=8)
def hybis_keeps_results(ctx):
    silence(ctx)
    m = repo(CV)
    with Scratch() as root:
        src = write(root / "raw" / "d" / "nav.csv")
        (root / "processed" / "d").mkdir(parents=True)
        ctx.patch(m, "HybisParser", lambda *a, **k: _P(start_epoch=0.0, finish_epoch=86399.0, write=lambda p: pathlib.Path(p).write_text("result")))
        old = root / "processed" / "d" / "json_renav_19700101_000000_19700101_235959" / "csv" / "dead_reckoning" / "auv_dr_hybis_camera.csv"
        have, force = ctx.flag("have"), ctx.flag("force")
        if have:
            write(old, "precious")
        raw = snapshot(root / "raw")
        try:
            m.hybis_to_oplab(_P(navigation_file=str(src), image_path=str(src.parent), reference_lat=1.0, reference_lon=2.0, output_folder=str(root / "raw" / "d"), force=force))
            stopped = False
        except Quit:
            stopped = True
        ctx.ensure("raw-untouched", snapshot(root / "raw") == raw)
        ctx.ensure("stops-iff-in-the-way", stopped == (have and not force))
        ctx.ensure("result", old.read_text() == ("precious" if have and not force else "result"))


# ------------------------------------------------------------------ calibrations
CAL = "auv_cal.calibration"
CONF = """cameras:
  - name: c0
    camera_calibration: {path: p0, glob_pattern: '*.a'}
    laser_calibration: {path: l0, glob_pattern: '*.la'}
  - name: c1
    camera_calibration: {path: p1, glob_pattern: '*.b'}
    laser_calibration: {path: l1, glob_pattern: '*.lb'}
camera_calibration: {rows: 1, cols: 2, size: 3}
laser_calibration: {}
"""


@REG.harness([CAL + ".Calibrator.__init__", CAL + ".Calibrator.mono", CAL + ".Calibrator.stereo", CAL + ".Calibrator.laser", CAL + ".Calibrator.laser_imp", CAL + ".build_filepath"],
             kind="bounded", bound="two cameras; every combination of existing calibrations, forced or not, with and without a suffix", samples=40)
def calibrations_are_kept(ctx):
    """calibrate_mono / stereo / laser (under contract in R21, R28) write the named result"""
    silence(ctx)
    m = repo(CAL)
    calls = []

    def mono(name, filepaths, extension, config, output_file, fo, foa, *a, **k):
        calls.append(("mono", name, filepaths, extension))
        output_file.write_text("result")

    def stereo(ln, lf, le, lc, rn, rf, re_, rc, config, output_file, fo, foa):
        calls.append(("stereo", ln, lf, le, lc, rn, rf, re_, rc))
        output_file.write_text("result")

    def laser(ln, lf, le, nn, nf, ne, sf, config, output_file, output_file_b, *a):
        calls.append(("laser", ln, lf, le, nn, nf, ne, sf))
        output_file.write_text("result")
        output_file_b.write_text("result")

    for n, f in (("calibrate_mono", mono), ("calibrate_stereo", stereo), ("calibrate_laser", laser)):
        replace_everywhere(ctx, CAL, n, f)
    what, force = ctx.choice("what", ["mono", "stereo", "laser"]), ctx.flag("force")
    sfx = ctx.choice("suffix", ["", "new", "_new"])
    tail = "_new" if sfx else ""
    hm, hs, hl = ctx.flag("have-mono"), ctx.flag("have-stereo"), ctx.flag("have-laser")
    ht = ctx.flag("have-suffixed") if sfx else False
    with Scratch() as root:
        dive = root / "raw" / "2020" / "dive"
        for x in ("p0", "p1", "l0", "l1"):
            write(dive / x / "image", "raw data")
        write(root / "configuration" / "2020" / "calibration" / "calibration.yaml", CONF)
        out = root / "processed" / "2020" / "calibration"
        plain = {"mono": ["mono_c0.yaml", "mono_c1.yaml"], "stereo": ["stereo_c0_c1.yaml"], "laser": ["laser_calibration_top_c0.yaml", "laser_calibration_bottom_c0.yaml"]}
        part = ctx.choice("laser-files", ["both", "top", "bottom"]) if hl else "both"
        for n, h in zip(plain, (hm, hs, hl)):
            if h:
                for f in plain[n]:
                    if n == "laser" and part not in ("both", f.split("_")[2]):
                        continue
                    write(out / f, "precious")
        own = [f.replace(".yaml", tail + ".yaml") for f in plain[what]]
        if ht:
            for f in own:
                write(out / f, "precious")
        raw, conf, was = snapshot(root / "raw"), snapshot(root / "configuration"), snapshot(out)
        try:
            getattr(m.Calibrator(str(dive), force, False, sfx), what)()
        except Quit:
            pass
        ctx.ensure("raw-untouched", snapshot(root / "raw") == raw)
        ctx.ensure("configuration-untouched", snapshot(root / "configuration") == conf)
        now = snapshot(out)
        for f, v in was.items():
            if not force:
                ctx.ensure("kept", now[f] == v, f)
            elif sfx and f not in own:
                ctx.ensure("other-results-kept", now[f] == v, f)
        ready = {"mono": True, "stereo": hm or not sfx, "laser": hs or not sfx}[what]
        present = any(f in was for f in own) if what == "laser" else all(f in was for f in own)
        if ready and (force or not present):
            for f in own:
                ctx.ensure("result", now.get(f) == ("file", b"result"), f)
        proc = root / "processed" / "2020" / "dive"
        for c in calls:
            i = lambda n: n[1]
            if c[0] == "mono":
                ctx.ensure("own-images", c[2] == proc / ("p" + i(c[1])) and c[3] == "*." + "ab"[int(i(c[1]))], str(c))
            elif c[0] == "stereo":
                ctx.ensure("left-and-right", c[1:] == ("c0", proc / "p0", "*.a", out / "mono_c0.yaml", "c1", proc / "p1", "*.b", out / "mono_c1.yaml"), str(c))
            else:
                ctx.ensure("laser-cameras", c[1:] == ("c0", dive / "l0", "*.la", "c1", dive / "l1", "*.lb", out / "stereo_c0_c1.yaml"), str(c))
