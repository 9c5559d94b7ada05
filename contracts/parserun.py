"""Runs the repository's parse_single()/parse() on a scratch dataset with the raw
data parsers replaced by contracts (each returns a given list of packets)."""
from common import *
import json
import pathlib
import shutil
import tempfile

P = "auv_nav.parse"
MISSION = """version: 1
origin:
  latitude: 10.5
  longitude: 20.25
  coordinate_reference_system: wgs84
  date: 2020/01/01
velocity:
  format: phins
  filepath: a
orientation:
  format: phins
  filepath: a
depth:
  format: phins
  filepath: a
altitude:
  format: phins
  filepath: a
usbl:
  format: gaps
  filepath: a
%s
"""
TIDE = """tide:
  format: NOC_polpred
  filepath: a
"""
OFF = "  surge_m: 0\n  sway_m: 0\n  heave_m: 0\n  roll_deg: 0\n  pitch_deg: 0\n  yaw_deg: 0\n"
VEHICLE = "".join("%s:\n%s" % (n, OFF) for n in ("origin", "ins", "dvl", "depth", "usbl"))


class Dataset:
    def __init__(self, tide=False, names=("20200101_000000_a",)):
        self.tide, self.names = tide, names

    def __enter__(self):
        self.root = tempfile.mkdtemp(prefix="vcparse_")
        self.raw = []
        for n in self.names:
            d = pathlib.Path(self.root).resolve() / "raw" / "2020" / n
            d.mkdir(parents=True)
            (d / "mission.yaml").write_text(MISSION % (TIDE if self.tide else ""))
            (d / "vehicle.yaml").write_text(VEHICLE)
            (d / "camera.yaml").write_text("cameras: []\n")
            self.raw.append(d)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)

    def nav(self, name):
        return pathlib.Path(self.root).resolve() / "processed" / "2020" / name / "nav" / "nav_standard.json"


def load(ctx, path):
    if ctx.symbolic:
        from pyvc.shims import SJ

        return SJ.loads(path.read_text())
    return json.loads(path.read_text())


def dump(ctx, x, path):
    path.parent.mkdir(parents=True, exist_ok=True)
    if ctx.symbolic:
        from pyvc.shims import SJ

        path.write_text(SJ.dumps(x))
    else:
        path.write_text(json.dumps(x))


def install(ctx, lists, tide=None):
    """lists: {category: packets}; every parser returns the packets of the category asked for"""
    m = repo(P)

    def parser(mission, vehicle, category, *a, **k):
        return lists.get(category, [])

    replace_everywhere(ctx, "auv_nav.parsers.parse_phins", "parse_phins", parser)
    replace_everywhere(ctx, "auv_nav.parsers.parse_gaps", "parse_gaps", parser)
    replace_everywhere(ctx, "auv_nav.parsers.parse_NOC_polpred", "parse_NOC_polpred", lambda *a, **k: tide)
    replace_everywhere(ctx, "auv_nav.plot.plot_parse_data", "plot_parse_data", lambda *a, **k: None)
    return m


def tables(ctx):
    """contract of pandas.read_csv: every numeral reads back as its number"""
    if not ctx.symbolic:
        return
    import pandas as pd

    real = pd.read_csv

    def back(x):
        if isinstance(x, str):
            from pyvc.shims import c_float

            if ctx.untoken(x) is not None:
                return c_float(x)
        return x

    def read_csv(f, *a, encoding=None, **k):
        return real(f, *a, encoding="utf-8", **k).map(back)

    ctx.patch(pd, "read_csv", read_csv)
    ctx.trusted.add("assumed contract: pandas.read_csv reads every numeral as its number")
