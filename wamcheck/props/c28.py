"""C28: preprocessing, tracking and visualization fit together: raw data in, tracked moisture and figures out."""

import os
import subprocess
import sys

import numpy as np

from wamcheck import raw, ref, runner, world
from wamcheck.props import c25

RULE = (
    "each case draws raw data (ERA5 on pressure or model levels, ARCO, CMIP; order and convention of the grid, file layout, nine calendars, frequency), and goes through "
    "preprocessing, tracking (both directions, box or mask region, closed or periodic boundary, tracking domain also across the antimeridian) and visualization with one "
    "configuration file, without touching the files in between. All tracking output is compared with an independent column integration of the raw data followed by an "
    "independent simulation of the tracking equations, the figures with the sums of both. Some cases run the commands as programs, with relative paths. Non-trivial: moisture was tagged and tracked."
)
MINIMUM = {"chains": 50, "chains_era5": 30, "chains_cmip": 6, "chains_arco": 6, "model_levels": 8, "direction_forward": 20, "direction_backward": 20, "across_antimeridian": 5, "across_greenwich": 5,
           "periodic": 5, "south_up": 12, "over_midnight": 20, "calendars_unusual": 10, "region_box": 12, "region_mask": 20, "as_programs": 3, "fields_compared": 500, "panels": 60, "other_than_hourly": 25}
ASSUMPTIONS = [
    "surface fluxes enter the vertical closure as they do at the pinned commit (known finding of C02)",
    "with whole-number pressure levels (known finding of C15: pressures are cut to whole Pascal) the simulation starts from the preprocessed fields themselves",
]
UNUSUAL = ("noleap", "365_day", "360_day", "all_leap", "366_day", "julian")


def warm(d):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401

    raw.warm(d)


def cases(tier, seed):
    n = 66 if tier == "quick" else 700
    rng = np.random.default_rng([seed, 2828])
    out = []
    conv = ["antimeridian360", "global360", "greenwich360", "pm180", "globalpm", "plain", "antimeridian360", "to180"]
    for i in range(n):
        k, c = i % 6, conv[(i + i // 8) % 8]
        if k == 4:
            p = raw.random_cmip(rng, days=3)
        elif k == 5:
            p = raw.random_arco(rng)
        else:
            p = raw.random_pre(rng, level_type=["pressure_levels", "model_levels", "pressure_levels", "pressure_levels"][k], cal=world.CALENDARS[(i + i // 9) % 9],
                               freq=[3600, 10800, 21600, 1800, 43200][(i // 2) % 5], layout=["old", "new", "new"][int(rng.integers(3))])
        north_up = p["lat"][0] > p["lat"][-1]
        if k != 4:
            p.update(raw.random_grid(rng, "global360" if k == 5 else c, ny=int(rng.integers(5, 8)), nx=int(rng.integers(5, 9))))
        else:
            p.update(raw.random_grid(rng, p["convention"] if i % 12 == 4 else "antimeridian360", ny=6, nx=7))
        p["lat"] = sorted(p["lat"], reverse=k == 5 or north_up)
        sane(p, rng)
        p["spacing"] = abs(p["lat"][1] - p["lat"][0])
        if p["convention"].startswith("global"):
            p["spacing_lon"] = 360 / len(p["lon"])
        # enough records for tracking, at multiples of the frequency
        f = p["freq"]
        if k != 4:
            early = (p["start"] % 86400) % f
            p["start"], p["t0"] = p["start"] - early, p["t0"] - early
        if k == 4:
            p["start"] = p["t0"] + p["freq"] * int(rng.integers(1, 5))
            p["end"] = p["t0"] + (p["nrec"] - 1) * p["freq"]
        else:
            more = 5 + int(rng.integers(3))
            p["end"] = p["start"] + (more - 1) * p["freq"]
            p["nrec"] = (p["start"] - p["t0"]) // p["freq"] + more + int(rng.integers(2))
        dt = int(rng.choice([s for s in (300, 600, 900, 1200, 1800, 2400, 3600, 5400, 7200, 10800) if f / 9 <= s <= f]))
        start = p["start"] + int(rng.choice([0, f // 2, 600, f // 3 // 60 * 60, 60]))
        n = min(int(rng.integers(6, 15)), (p["end"] - start) // dt)
        end = start + n * dt + int(rng.choice([0, 0, 60]))
        e = dict(start=start, end=min(end, p["end"]), dt=dt, direction=["forward", "backward"][i % 2], kvf=float(rng.choice([0, 1, 3])), cal=p["cal"], freq=f,
                 out=int(rng.choice([3600, 10800, 86400, 7200])), periodic=bool(p["convention"].startswith("global") and rng.uniform() < 0.7),
                 region=["mask", "box", "mask"][int(rng.integers(3))], seed=int(rng.integers(2**31)))
        e["tag"] = [[start, end], [start - 86400, end + 86400], [start + dt * 2, end], [start, end - 2 * dt]][int(rng.integers(4))]
        e["tag"] = [int(x) // 60 * 60 for x in e["tag"]]
        p["track"] = e
        p["how"] = "programs" if k != 5 and i % 12 == 3 else "here"
        out.append(p)
    return out


def sane(p, rng):
    """Both layers hold moisture."""
    if p["level_type"] == "model_levels":
        use = p["levels"] if p["use"] == "all" else sorted(p["use"])
        if min(use) > 90:
            p["use"] = use = [40] + use
        if max(use) < 125:
            p["use"] = use = use + [130]
        p["levels"] = sorted(set(p["levels"]) | set(use), reverse=p["levels"][0] > p["levels"][-1])
        if p["level_layer_boundary"] is not None:
            p["level_layer_boundary"] = int(rng.integers(95, 120))
    elif p["source"] != "cmip" and p.get("pressure_boundary_factor") is not None:
        p["pressure_boundary_factor"], p["pressure_boundary_offset"] = [(0.72878581, 7438.803223), (0.8, 0.0), (0.0, 45000.0), (0.6, 5000.0), (1.0, -20000.0)][int(rng.integers(5))]


def no_ties(rw, p):
    """Surface pressures away from pressure levels, where two columns are right."""
    rng = np.random.default_rng([p["seed"], 28])
    sp = rw.data["sp"]
    sp[...] = rng.uniform(max(p.get("ps_min", 52000), 52000), 104000, sp.shape)
    lev = np.array(p["levels"], "f8") * (1 if p["source"] == "cmip" else 100)
    for x in lev:
        sp[np.abs(sp - x) < 40] += 97.3


def fields(rw, p):
    """What preprocessing has to make of the raw data, as input of a simulation."""
    lat, lon = rw.lat, rw.lon
    lon = np.where(lon > 180, lon - 360, lon)
    if lon.max() == 180 and lon.min() < 0:
        lon = np.where(lon == 180, -180.0, lon)
    j, i = np.argsort(-lat), np.argsort(lon)
    lon = lon[i]
    where = {int(s): k for k, s in enumerate(rw.t)}
    secs = raw.requested(p)
    data = {n: [] for n in raw.PRE_VARS}
    for s in secs:
        out, _, _ = raw.expect(rw, p, where[s])
        for n in raw.PRE_VARS:
            data[n].append(out[n][np.ix_(j, i)])
    d = {n: np.array(x).astype("f4") for n, x in data.items()}
    return world.World(lat[j], lon, p["spacing"], p.get("spacing_lon", p["spacing"]), p["cal"], p["freq"], np.array(secs), d, "f4")


def from_files(obs, w, p, folder):
    """The same from the files of the preprocessor, found by time and location."""
    files = raw.read_all(folder)
    for n in raw.PRE_VARS:
        w.data[n] = w.data[n].astype("f8")
    seen = set()
    scale = max(float(np.abs(w.data["s_upper"] + w.data["s_lower"]).max()), 1e-6)
    for f in files:
        same = f.lat.shape == w.lat.shape and f.lon.shape == w.lon.shape and np.allclose(f.lat, w.lat, atol=1e-4) and np.allclose(f.lon, w.lon, atol=1e-4)
        if not obs.expect(same, "chain-grid", f"{f.name}: latitudes {f.lat.tolist()}, longitudes {f.lon.tolist()}, expected {w.lat.tolist()}, {w.lon.tolist()}"):
            return False
        for x, s in enumerate(f.secs):
            k = int((s - w.t[0]) // w.freq)
            if not (0 <= k < len(w.t) and w.t[k] == s):
                continue
            seen.add(k)
            for n in raw.PRE_VARS:
                got, want = f.v[n][x], w.data[n][k]
                tol = {"s": 2e-3 * scale, "f": 2e-3 * scale * 60}.get(n[0], 1e-5 * np.abs(want).max() + 1e-12)
                obs.expect(bool(np.all(np.abs(got - want) <= tol)), "chain-preprocessed", f"{f.name} {n} at record {k}: differs by {np.abs(got - want).max():.4g} (scale {scale:.4g})")
                w.data[n][k] = got
    return obs.expect(len(seen) == len(w.t), "chain-preprocessed", f"{len(seen)} of {len(w.t)} requested times are in the files")


def choose_domain(w, rng, wraps):
    """A tracking domain: (box, rows, columns)."""
    ny, nx = len(w.lat), len(w.lon)
    j0, j1 = (0, ny - 1) if rng.uniform() < 0.5 else (int(rng.integers(2)), ny - 1)
    if wraps:
        a = int(np.argmax(w.lon > 0))
        i0, i1 = a, a - 1
        if rng.uniform() < 0.5 and nx > 5:
            i0, i1 = (a + 1, i1) if nx - a > 1 and rng.uniform() < 0.5 else (i0, a - 2 if a > 1 else a - 1)
        cols = np.r_[np.arange(i0, nx), np.arange(0, i1 + 1)]
    else:
        i0, i1 = 0, nx - 1 - int(rng.integers(2))
        cols = np.arange(i0, i1 + 1)
    box = [w.lon[i0] - 0.3 * w.dlon, w.lat[j1] - 0.3 * w.dlat, w.lon[i1] + 0.3 * w.dlon, w.lat[j0] + 0.3 * w.dlat]
    box = [round(float(x), 6) for x in box]
    box[0], box[2] = max(box[0], -180.0), min(box[2], 180.0)
    return box, np.arange(j0, j1 + 1), cols


def programs(obs, p, d, cfg):
    """The same commands as programs of their own, with paths relative to another folder."""
    text = cfg.read_text().replace(str(d) + "/", "")
    (d / "rel.yaml").write_text(text)
    env = dict(os.environ, MPLBACKEND="Agg")
    for args in (["preprocess", p["source"]], ["track"], ["visualize", "both"]):
        r = subprocess.run([sys.executable, "-c", "from wam2layers.cli import cli; cli()", *args, "rel.yaml"], cwd=d, env=env, capture_output=True, timeout=250)
        if not obs.expect(r.returncode == 0, "chain-program-failed", f"{args}: exit {r.returncode}: {r.stderr.decode(errors='replace')[-600:]}"):
            return False
    return True


def run(p, obs, d):
    e = p["track"]
    rng = np.random.default_rng([e["seed"], 282])
    obs.nontrivial = False
    rw = raw.make_cmip(p) if p["source"] == "cmip" else raw.make(p)
    no_ties(rw, p)
    w = fields(rw, p)
    gaps = np.diff(w.lon)
    wraps = bool(gaps.max() > 1.5 * w.dlon)
    d.mkdir(exist_ok=True)
    over = {}
    J, I = np.arange(len(w.lat)), np.arange(len(w.lon))
    if wraps or (not e["periodic"] and rng.uniform() < 0.25):
        over["tracking_domain"], J, I = choose_domain(w, rng, wraps)
    ny, nx = len(w.lat), len(w.lon)
    if e["region"] == "box":
        a, b = sorted(rng.integers(0, len(J), 2))
        c, f = sorted(rng.integers(0, len(I), 2))
        west, east = w.lon[I[c]] - 0.2 * w.dlon, w.lon[I[f]] + 0.2 * w.dlon
        box = [max(-180.0, west), w.lat[J[b]] - 0.2 * w.dlat, min(180.0, east), w.lat[J[a]] + 0.2 * w.dlat]
        box = [round(float(x), 6) for x in box]
        inlat = (w.lat >= box[1]) & (w.lat <= box[3])
        inlon = (w.lon >= box[0]) & (w.lon <= box[2]) if box[0] <= box[2] else (w.lon >= box[0]) | (w.lon <= box[2])
        m = (inlat[:, None] & inlon[None, :]).astype("f8")
        region = box
    else:
        m = (rng.uniform(size=(ny, nx)) < 0.7) * (rng.uniform(0.1, 1, (ny, nx)) if rng.uniform() < 0.5 else 1.0)
        region = str(d / "mask.nc")
        world.write_mask(region, w, m)
    cal = e["cal"]
    over.update(
        tracking_direction=e["direction"], tagging_region=region, tracking_start_date=world.iso(e["start"], cal), tracking_end_date=world.iso(e["end"], cal),
        tagging_start_date=world.iso(e["tag"][0], cal), tagging_end_date=world.iso(e["tag"][1], cal), timestep=e["dt"], output_frequency=world.freq_str(e["out"]), periodic_boundary=e["periodic"], kvf=e["kvf"],
    )
    what = f"{p['source']} {p['level_type'][:5]} {p['convention']} {p['cal']} {p['freq']} s, {e['direction']}, {e['region']}, domain {over.get('tracking_domain')}"
    if p["how"] == "programs":
        stop = []
        raw.run_source(p, d, None, raw=rw, launch=lambda command: stop.append(1), **over)
        cfg = d / "config.yaml"
        if not programs(obs, p, d, cfg):
            return
        obs.count("as_programs")
        outs = runner.read_outputs(d / "out", e["direction"])
    else:
        rw, r, cfg = raw.run_source(p, d, obs, raw=rw, **over)
        if not r.ok:
            return
        r, outs = runner.track(obs, cfg, e)
        if not outs:
            return
    files = world.World(w.lat, w.lon, w.dlat, w.dlon, w.cal, w.freq, w.t, {n: x.copy() for n, x in w.data.items()}, "f4")
    if not from_files(obs, files, p, d / "pre"):
        return
    base = files if raw.integer_levels(p) else w
    sub = base.cut(J, I)
    mm = m[np.ix_(J, I)]
    want, stats = ref.simulate(sub, e, mm, surface="per_area")
    for o in outs:
        ok = o.lat.shape == sub.lat.shape and o.lon.shape == sub.lon.shape and np.allclose(o.lat, sub.lat, atol=1e-4) and np.allclose((o.lon - sub.lon + 180) % 360 - 180, 0, atol=1e-4)
        if not obs.expect(ok, "chain-grid", f"{what}: {o.name} has latitudes {o.lat.tolist()}, longitudes {o.lon.tolist()}, expected {sub.lat.tolist()}, {sub.lon.tolist()}"):
            return
    if not obs.expect([o.sec for o in outs] == [x["sec"] for x in want], "chain-times", f"{what}: outputs {[o.name for o in outs]}, expected at {[world.iso(x['sec'], cal) for x in want]}"):
        return
    scale = max(float(x["v"]["s_track_upper_restart"].max() + x["v"]["s_track_lower_restart"].max() + x["v"]["losses"].max()) for x in want)
    for o, x in zip(outs, want):
        for n, q in x["v"].items():
            runner.compare_field(obs, "chain-tracked", o.v[n], q, rtol=1e-3, atol_rel=1e-4, scale=scale, what=f"{what}: {o.name} {n}")
    names = ["e_track"] if e["direction"] == "backward" else ["p_track_lower", "p_track_upper"]
    tracked = sum(x["v"][n] for x in want for n in names)
    var = "precip" if e["direction"] == "backward" else "evap"
    a, b = max(e["tag"][0], e["start"] // 60 * 60), min(e["tag"][1], e["end"] // 60 * 60)
    given = np.zeros(tracked.shape)
    for k, t in enumerate(base.t):
        if a <= t <= b:
            given += mm * sub.data[var][k].astype("f8") * p["freq"]
    if p["how"] != "programs":
        for cmd, need in [("input", ["input"]), ("output", ["output"]), ("both", ["input", "output"]), ("both", ["input", "output"])][e["seed"] % 4 :][:1]:
            with c25.Figures() as f:
                r = runner.run_cli("visualize", cmd, cfg)
            if not obs.expect(r.ok, "chain-visualize-failed", f"{what}: visualize {cmd} ended with {None if r.ok else r.why()}"):
                continue
            if not obs.expect(len(f.saved) == 1 and len(f.saved[0][1]) == len(need), "chain-figures", f"{what}: visualize {cmd} saved {[(x[0], len(x[1])) for x in f.saved]}"):
                continue
            for panel, q in zip(f.saved[0][1], need):
                c25.compare(obs, panel, given if q == "input" else tracked, sub.lat, sub.lon, q, f"{what}: visualize {cmd}", rtol=1e-3, atol_rel=2e-4, floor=1e-3 * scale)
    else:
        pics = sorted(x.name for x in (d / "out").rglob("*.png"))
        obs.expect(bool(pics), "chain-figures", f"{what}: no figure in the output folder")
    obs.count("chains")
    obs.count("chains_" + p["source"])
    obs.count("model_levels", p["level_type"] == "model_levels")
    obs.count("direction_" + e["direction"])
    obs.count("across_antimeridian", wraps)
    obs.count("across_greenwich", p["convention"] == "greenwich360")
    obs.count("periodic", e["periodic"])
    obs.count("south_up", p["lat"][0] < p["lat"][-1])
    obs.count("over_midnight", e["start"] // 86400 != (e["end"] - 1) // 86400)
    obs.count("calendars_unusual", p["cal"] in UNUSUAL)
    obs.count("region_" + e["region"])
    obs.count("other_than_hourly", p["freq"] != 3600)
    tagged = sum(float(x["v"]["tagged_precip" if e["direction"] == "backward" else "tagged_evap"].sum()) for x in want)
    obs.nontrivial = tagged > 0 and float(tracked.max()) > 0
    obs.signature = raw.signature(p) + f"|{e['direction']}|{e['dt']}|{e['out']}|{e['region']}|{'tracking_domain' in over}|{len(want)}"
    obs.sample = dict(what=what, outputs=len(want), tagged=tagged, limited=stats["limited"], vcapped=stats["vcapped"])
