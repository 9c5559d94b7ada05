"""R16: what a writer thread is given is not changed while it may still be writing.

Frame condition on process(): from the moment a writer thread is created until
process() waits for it, the records handed to it stay as they were, so every
schedule writes the same file.  (Only what ends up in the file is compared.)"""
from r05_dead_reckoning import four
from r10_ekf_schedule import ekf_run
from procrun import *
from procrun import run as run_process, NS
from common import *
import numpy as np

REG = Registry("R16")
FUN = [P + ".process"]


def content(target, args, kwargs):
    """[(record, attribute values the writer prints)]"""
    name = getattr(target, "__name__", "")
    data = [a for a in args + list(kwargs.values()) if isinstance(a, list)]
    out = []
    for lst in data:
        for r in list(lst):
            f = {}
            for a in dir(r):
                if a.startswith("_") or a in ("seafloor_depth", "information", "updated"):
                    continue
                v = getattr(r, a)
                if not callable(v):
                    f[a] = np.array(np.asarray(v)) if isinstance(v, np.ndarray) else v
            if name == "spp_csv":
                v = getattr(r, "information", None)
                f["information"] = None if v is None else np.array(np.asarray(v))
            out.append((r, f))
    return [list(l) for l in data], out


class Watch:
    def __init__(self, ctx):
        self.ctx, self.seen = ctx, []

    def __call__(self, target, args, kwargs):
        name = getattr(target, "__name__", "?")
        self.seen.append((name, target, args, kwargs, content(target, args, kwargs)))

    def compare(self):
        ctx = self.ctx
        for name, target, args, kwargs, (lists, before) in self.seen:
            lists2, after = content(target, args, kwargs)
            tag = next((a for a in args if isinstance(a, str)), name)
            ctx.ensure("list-kept-%s-%s" % (name, tag), [[id(r) for r in l] for l in lists] == [[id(r) for r in l] for l in lists2], "records added or removed after the thread was started")
            for (r, f), (r2, g) in zip(before, after):
                for a in f:
                    x, y = f[a], g[a]
                    if x is y:
                        continue
                    if isinstance(x, np.ndarray):
                        ctx.ensure_eq("records-kept-%s-%s-%s" % (name, tag, a), x.reshape(-1), y.reshape(-1))
                    else:
                        ctx.ensure_eq("records-kept-%s-%s-%s" % (name, tag, a), x, y)
        ctx.ensure("threads-seen", len(self.seen) >= 6)


@REG.harness(FUN, kind="bounded", bound="two attitudes, two USBL fixes", samples=15)
def dead_reckoning_outputs(ctx):
    ts, ps = four(ctx)
    us = [packet_usbl(ctx, 0, ts[2]), packet_usbl(ctx, 1, ts[2])]
    w = Watch(ctx)
    veh, mis = make_vehicle(ctx), make_mission(ctx)
    run_process(ctx, ps[:4] + us + ps[4:], veh, mis, record=[("usbl_offset", lambda b: (ctx.real("dn", lo=-50, hi=50), ctx.real("de", lo=-50, hi=50)))], on_thread=w)
    w.compare()


@REG.harness(FUN, kind="bounded", bound="particle filter result of 2 states", samples=15)
def particle_filter_outputs(ctx):
    ts, ps = four(ctx)
    us = [packet_usbl(ctx, 0, ts[2])]
    w = Watch(ctx)
    veh, mis = make_vehicle(ctx), make_mission(ctx)
    pf = []
    for i in range(2):
        o = repo("auv_nav.sensors").SyncedOrientationBodyVelocity()
        o.epoch_timestamp = ts[1 + 2 * i]
        for a in ("northings", "eastings", "depth", "altitude", "roll", "pitch", "yaw"):
            setattr(o, a, ctx.real("pf_%s%d" % (a, i), lo=-80, hi=80))
        pf.append(o)
    run_process(ctx, ps[:4] + us + ps[4:], veh, mis, pf=pf, record=[("usbl_offset", lambda b: (0, 0))], on_thread=w)
    w.compare()


def _filter(spp):
    def h(ctx):
        w = Watch(ctx)
        n = [0]

        def cameras(b):
            out = []
            for i in range(2):
                n[0] += 1
                c = repo("auv_nav.sensors").Camera()
                c.filename = "x%07d.raw" % n[0]
                for a in ("epoch_timestamp", "northings", "eastings", "depth", "altitude", "roll", "pitch", "yaw", "x_velocity", "y_velocity", "z_velocity"):
                    setattr(c, a, ctx.real("c%d_%s" % (n[0], a), lo=-80, hi=80))
                c.covariance = np.asmatrix(np.eye(12) * (n[0] + 1))
                out.append(c)
            return out

        ekf_run(ctx, cameras=cameras, spp=spp, on_thread=w)
        w.compare()
        if spp:
            ctx.ensure("slam-output", len([1 for s in w.seen if s[0] == "spp_csv"]) == 3)

    h.__name__ = "filter_outputs" + ("_with_slam_export" if spp else "")
    REG.harness(FUN, kind="bounded", bound="three cameras, two images each", samples=15)(h)


_filter(False)
_filter(True)
