"""C29: memory and open files of a run do not grow with its length."""

import gc
import json
import os
import tracemalloc

import numpy as np

from wamcheck import gen, raw, runner, world

RULE = (
    "each case runs one command on a short and on a several times longer period of the same forcing, in the same process after a first run that loads everything, and traces every allocation and every "
    "opened file. Peak memory and open files of the two are compared: what is kept per step or record has to be less than a fraction of one field. Tracking: both directions, box, mask, mask with time axis, shapefile, "
    "tracking domain, output at every step or once, fluxes that need correction. Preprocessing: all sources, files per time, day, month and year. Non-trivial: both lengths ran to the end."
)
MINIMUM = {"pairs": 18, "pairs_track": 11, "pairs_preprocess": 7, "direction_forward": 5, "direction_backward": 5, "steps_traced": 450, "records_traced": 250, "allocations_mb": 100, "files_opened": 1500}
ASSUMPTIONS = ["memory of Python and numpy is traced, that of the C libraries (caches of the netCDF library) is not; open files are counted from the process table"]


def warm(d):
    gen.warm(d / "a")
    (d / "b").mkdir()
    raw.warm(d / "b")
    import shapefile  # noqa: F401
    import shapely  # noqa: F401


def cases(tier, seed):
    n = 12 if tier == "quick" else 72
    rng = np.random.default_rng([seed, 2929])
    out = []
    kinds = ["mask", "box", "varying", "shape", "domain", "mask"]
    exps = gen.experiments("C29", tier, seed, n, n, styles=["mild", "storm", "white"], region="mask", tagwin="all", periodic=False, freq=3600, dt=3600, nsteps=10, offset=0, tail=0, cal=lambda r: world.CALENDARS[r.integers(9)])
    for i, e in enumerate(exps):
        e.update(part="track", kind=kinds[(i // 2) % 6], direction=["forward", "backward"][i % 2], ny=60, nx=70, dlat=0.5, dlon=0.5, lat0=30.0, lon0=10.0, dt=[3600, 1800][int(rng.integers(2))], out=[3600, 86400][int(rng.integers(2))] if i % 4 else 3600, short=8, long=32)
        e["start"] -= e["start"] % 3600
        out.append(e)
    for i in range(n * 2 // 3):
        k = i % 6
        if k == 4:
            p = raw.random_cmip(rng, days=10, date=[(2012, 2, 28), (2013, 12, 30)][int(rng.integers(2))])
            p["short"], p["long"] = 6, 30
            p["start"] = p["t0"] + p["freq"]
        else:
            if k == 5:
                p = raw.random_arco(rng)
            else:
                p = raw.random_pre(rng, level_type=["pressure_levels", "model_levels", "pressure_levels", "model_levels"][k], use="all" if k == 2 else None, per=["time", "day", "month", "year"][(i // 6 + i) % 4], freq=21600, hour=0, layout="old")
                if p["use"] is None:
                    p["use"] = p["levels"]
            p["start"] = p["t0"] = p["t0"] - p["t0"] % 86400
            p["short"], p["long"] = (6, 30) if p["source"] != "arco" else (27, 53)  # more than a day
            p["nrec"] = p["long"] + 2
        p["lat"] = [float(x) for x in np.linspace(55, 5, 81)]
        p["lon"] = [float(x) for x in np.arange(80) + 5.0]
        p["convention"] = "plain"
        p["part"] = "pre"
        out.append(p)
    return out


def open_files(folder):
    n = 0
    for x in os.listdir("/proc/self/fd"):
        try:
            n += os.readlink("/proc/self/fd/" + x).startswith(str(folder))
        except OSError:
            pass
    return n


def traced(command, folder):
    """Peak of the memory that the command allocates, and of the files it has open at a time."""
    import netCDF4

    real = netCDF4.Dataset
    seen = dict(files=0, opened=0)

    class Watched(real):
        def __init__(self, *a, **k):
            gc.collect()  # so that only what is really kept counts
            super().__init__(*a, **k)
            seen["opened"] += 1
            seen["files"] = max(seen["files"], open_files(folder))

    Watched.__module__, Watched.__name__, Watched.__qualname__ = real.__module__, real.__name__, real.__qualname__
    gc.collect()
    gc.freeze()
    tracemalloc.start()
    try:
        with runner.stand_in(real, Watched):
            res = command()
        now, peak = tracemalloc.get_traced_memory()
    finally:
        tracemalloc.stop()
        gc.unfreeze()
    seen["files"] = max(seen["files"], open_files(folder))
    return res, peak, seen["files"], seen["opened"]


def judge(obs, what, n, peaks, files, field, unit):
    (a, b), (fa, fb) = peaks, files
    per = (b - a) / (n[1] - n[0])
    obs.count("pairs")
    obs.count("allocations_mb", (a + b) / 1e6)
    obs.sample = dict(what=what, field_bytes=field, bytes_per_step=per, peak_mb=[a / 1e6, b / 1e6], open_files=[fa, fb])
    obs.expect(per < 0.6 * field, "memory-grows", f"{what}: {n[0]} and {n[1]} {unit} need {a/1e6:.2f} and {b/1e6:.2f} MB, {per/1e3:.1f} kB more for each; one field has {field/1e3:.1f} kB")
    obs.expect(fb - fa < 0.4 * (n[1] - n[0]), "open-files-grow", f"{what}: {n[0]} and {n[1]} {unit} have up to {fa} and {fb} files open at a time")


def run(e, obs, d):
    (track if e["part"] == "track" else preprocess)(e, obs, d)


def track(e, obs, d):
    rng = np.random.default_rng([e["seed"], 29])
    peaks, files = [], []
    e = dict(e)
    what = f"{e['direction']} tracking, {e['kind']}, step {e['dt']} s, output every {e['out']} s"
    e["nsteps"] = e["long"]
    e["end"] = e["start"] + e["long"] * e["dt"]
    w = world.make_world(world.world_params(e))
    w.write(d / "pre")
    over = {}
    m, _ = world.region_weights(e, w)
    region = str(d / "mask.nc")
    world.write_mask(region, w, m)
    if e["kind"] == "box":
        region = [15.0, 10.0, 25.0, 20.0]
    elif e["kind"] == "varying":
        times = np.array(w.t)
        world.write_mask(region, w, rng.uniform(size=(len(times),) + m.shape), times=times)
    elif e["kind"] == "shape":
        from wamcheck.props import c21

        c21.write_shapefile(d / "region.shp", [([(15.0, 10.0), (15.0, 20.0), (24.0, 21.0), (22.0, 9.0)], [])])
        region = str(d / "region.shp")
    elif e["kind"] == "domain":
        over["tracking_domain"] = [12.0, 5.0, 40.0, 28.0]
    fields = w.lat.size * w.lon.size * 8
    if e["kind"] == "domain":
        fields = int(((w.lat >= 5) & (w.lat <= 28)).sum() * ((w.lon >= 12) & (w.lon <= 40)).sum() * 8)
    for n in (2, e["short"], e["long"]):
        x = dict(e, end=e["start"] + n * e["dt"], nsteps=n)
        x["tag"] = [x["start"] - 3600, x["end"] + 3600]
        f = d / f"run{n}"
        f.mkdir()
        cfg = f / "config.yaml"
        cfg.write_text(json.dumps(world.config_dict(x, d, region, output_folder=str(f / "out"), **over)))
        r, peak, fd, opened = traced(lambda: runner.run_cli("track", cfg), d)
        if not obs.expect(r.ok, "run-failed", f"{what}: {n} steps ended with {None if r.ok else r.why()}"):
            return
        obs.count("steps_traced", n)
        obs.count("files_opened", opened)
        peaks.append(peak)
        files.append(fd)
    judge(obs, what, (e["short"], e["long"]), peaks[1:], files[1:], fields, "steps")
    obs.count("pairs_track")
    obs.count("direction_" + e["direction"])
    obs.signature = f"track|{e['direction']}|{e['kind']}|{e['dt']}|{e['out']}|{e['style']}|{e['cal']}"


def preprocess(p, obs, d):
    rw = raw.make_cmip(p) if p["source"] == "cmip" else raw.make(p)
    what = f"{p['source']} {p['level_type']} {'all' if p['use'] == 'all' else len(p['use'])} levels, a file per {p.get('per')}"
    peaks, files = [], []
    for n in (2, p["short"], p["long"]):
        x = dict(p, end=p["start"] + (n - 1) * p["freq"])
        got = []
        _, r, _ = raw.run_source(x, d / f"run{n}", None, raw=rw, launch=lambda command: got.append(traced(command, d)) or got[0][0])
        if not obs.expect(r.ok, "run-failed", f"{what}: {n} records ended with {None if r.ok else r.why()}"):
            return
        obs.count("records_traced", n)
        obs.count("files_opened", got[0][3])
        peaks.append(got[0][1])
        files.append(got[0][2])
    judge(obs, what, (p["short"], p["long"]), peaks[1:], files[1:], len(rw.lat) * len(rw.lon) * 4 * 3, "records")
    obs.count("pairs_preprocess")
    obs.signature = f"pre|{raw.signature(p)}"
