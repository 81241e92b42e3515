"""C25: figures show the cumulative input and tracked moisture of the run."""

import json

import netCDF4
import numpy as np

from wamcheck import gen, runner, world
from wamcheck.props import c21

RULE = (
    "random experiments (direction, calendar, output frequency, day, month and year borders, box, mask, time-varying mask or shapefile region, tracking domain, tagging period wider or narrower than the run) are "
    "tracked and visualized with the three commands. At the moment a figure is saved the values and cell borders handed to it are recorded and compared, cell by cell at their location, with sums "
    "over the output files of the run and over the input records of the tagging period. Non-trivial: a figure with more than one non-zero cell."
)
MINIMUM = {"figures": 100, "panels": 130, "panels_input": 60, "panels_output": 60, "cells_compared": 3000, "cells_nonzero": 700, "runs_several_outputs": 12, "runs_over_midnight": 12, "direction_forward": 15, "direction_backward": 15, "regions_file": 6, "regions_box": 8, "regions_shape": 2, "regions_varying": 2, "domains": 2, "calendars_unusual": 8}
ASSUMPTIONS = [
    "the map library is not installed, so axes are plain ones (as the program provides for)",
    "the input of a run is the sum over input records within the tagging and tracking period times the input interval; colours, limits and outlines are not judged",
]
UNUSUAL = ("noleap", "365_day", "360_day", "all_leap", "366_day", "julian")


def warm(d):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401

    gen.warm(d)
    import shapefile  # noqa: F401
    import shapely  # noqa: F401


def cases(tier, seed):
    n = 48 if tier == "quick" else 500
    out = gen.experiments("C25", tier, seed, n, n, nsteps=lambda r: [4, 6, 9, 14][r.integers(4)], region=lambda r: ["box", "bigbox", "mask", "fmask", "cell"][r.integers(5)],
                          out=lambda r: [600, 1800, 3600, 3600, 10800, 86400][r.integers(6)], tagwin=lambda r: ["all", "part", "aligned"][r.integers(3)])
    for i, e in enumerate(out):
        if i % 11 == 6:  # nothing is tagged during the run
            e["tag"] = [e["end"] // 60 * 60 + 600, e["end"] // 60 * 60 + 7200] if i % 2 else [e["start"] // 60 * 60 - 7200, e["start"] // 60 * 60 - 600]
        if i % 9 == 4:
            e["region"] = {"kind": "shape", "seed": e["seed"] % 1000}
        if i % 9 == 7:
            e["region"] = {"kind": "varying", "seed": e["seed"] % 1000}
        e["domain"] = bool(not e["periodic"] and i % 4 == 2)
        if i % 3 == 0 and 86400 % e["dt"] == 0:
            e["out"] = e["dt"]
        if i % 6 == 2:  # does not divide a day
            e["out"] = [5 * 3600, 7 * 3600, 2 * 86400][i // 6 % 3]
    return out


class Figures:
    """Records what every saved figure holds."""

    def __init__(self):
        self.saved = []

    def __enter__(self):
        from matplotlib.figure import Figure

        self.cls, self.real = Figure, Figure.savefig
        me = self

        def savefig(fig, fname, *a, **k):
            panels = []
            for ax in fig.axes:
                for c in ax.collections:
                    if type(c).__name__ != "QuadMesh" or ax.get_label() == "<colorbar>":
                        continue
                    xy = np.array(c.get_coordinates(), "f8")
                    v = np.ma.filled(np.ma.array(c.get_array(), dtype="f8"), np.nan).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
                    mid = (xy[:-1, :-1] + xy[1:, 1:]) / 2
                    panels.append((mid[:, :, 0], mid[:, :, 1], v, ax.get_title(loc="left") + ax.get_title(), id(ax)))
            me.saved.append((str(fname), panels))
            k["dpi"] = 30  # the resolution of the file is not judged
            return me.real(fig, fname, *a, **k)

        Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        self.cls.savefig = self.real


def on_grid(panel, lat, lon):
    """Values of a panel by location: array on (lat, lon) or a reason why not."""
    x, y, v = panel[:3]
    ny, nx = len(lat), len(lon)
    if v.size != ny * nx:
        return f"{v.shape} cells for a grid of {ny} x {nx}"
    out = np.full((ny, nx), np.nan)
    dy = abs(lat[1] - lat[0]) if ny > 1 else 1.0
    dx = abs(lon[1] - lon[0]) % 360 if nx > 1 else 1.0
    dx = min(dx, 360 - dx)
    for a, b, q in zip(x.ravel(), y.ravel(), v.ravel()):
        j, i = np.argmin(np.abs(lat - b)), np.argmin(np.abs((lon - a + 180) % 360 - 180))
        if abs(lat[j] - b) > 0.05 * dy or abs((lon[i] - a + 180) % 360 - 180) > 0.05 * dx:
            return f"a cell at {b:.3f}, {a:.3f}, which is not in the grid"
        out[j, i] = q
    return out


def compare(obs, panel, want, lat, lon, which, what, rtol=2e-5, atol_rel=1e-6, floor=0.0):
    got = on_grid(panel, lat, lon)
    if isinstance(got, str):
        obs.fail(f"{which}-figure-cells", f"{what}: {got}")
        return
    obs.count("panels")
    obs.count("panels_" + which)
    obs.count("cells_compared", want.size)
    obs.count("cells_nonzero", (want != 0).sum())
    if (want != 0).sum() > 1:
        obs.nontrivial = True
    got = np.where(np.isnan(got), 0.0, got)
    bad = ~(np.abs(got - want) <= rtol * np.abs(want) + atol_rel * np.abs(want).max() + atol_rel * floor)
    if bad.any():
        j, i = np.argwhere(bad)[0]
        obs.fail(f"{which}-figure-values", f"{what}: {bad.sum()} of {bad.size} cells, first row {j} column {i}: drawn {got[j, i]:.7g}, expected {want[j, i]:.7g}; sums {got.sum():.6g} and {want.sum():.6g}")


def run(e, obs, d):
    rng = np.random.default_rng([e["seed"], 25])
    obs.nontrivial = False
    w = world.make_world(world.world_params(e))
    over, weights = {}, None
    kind = e["region"]["kind"]
    lat, lon = w.lat, w.lon
    d.mkdir(exist_ok=True)
    if kind == "shape":
        parts = c21.polygon(dict(e, kind=["convex", "star", "parts"][int(rng.integers(3))]), lat, lon, rng)
        weights, _ = c21.coverage(parts, lat, lon, w.dlat, w.dlon)
        if weights.max() <= 0.5:
            return
        c21.write_shapefile(d / "region.shp", parts)
        over["tagging_region"] = str(d / "region.shp")
    elif kind == "varying":
        times = np.array(w.t)[:: [1, 3][int(rng.integers(2))]]  # sometimes masks for every third record only
        near = np.abs(w.t[:, None] - times).argmin(1)
        weights = rng.uniform(0, 1, (len(times), len(lat), len(lon))) * (rng.uniform(size=(len(times), len(lat), len(lon))) < 0.6)
        world.write_mask(d / "region.nc", w, weights, times=times)
        over["tagging_region"] = str(d / "region.nc")
    J, I = np.arange(len(lat)), np.arange(len(lon))
    if e["domain"]:
        J2, I2 = J[1:], I[:-2] if rng.uniform() < 0.5 else I[1:]
        dom = [float(np.floor(lon[I2[0]] * 1e4) / 1e4), float(np.floor(lat[J2[-1]] * 1e4) / 1e4), float(np.ceil(lon[I2[-1]] * 1e4) / 1e4), float(np.ceil(lat[J2[0]] * 1e4) / 1e4)]
        if abs(dom[1]) <= 80 and abs(dom[3]) <= 80 and -180 <= dom[0] and dom[2] <= 180:
            over["tracking_domain"] = dom
            J, I = J2, I2
            obs.count("domains")
    W2 = np.ones((len(lat), len(lon))) if kind in ("varying", "shape") else None
    W, _, cfg = world.setup(e, d / "a", w, W2, **over)
    if weights is None:
        weights = world.region_weights(e, w)[0]
    r, outs = runner.track(obs, cfg, e)
    if not outs:
        return
    lat, lon, sub = lat[J], lon[I], np.ix_(J, I)
    names = ["e_track"] if e["direction"] == "backward" else ["p_track_lower", "p_track_upper"]
    tracked = sum(o.v[n] for o in outs for n in names)
    var = "precip" if e["direction"] == "backward" else "evap"
    a, b = max(e["tag"][0], e["start"] // 60 * 60), min(e["tag"][1], e["end"] // 60 * 60)
    given = np.zeros(tracked.shape)
    nrec = 0
    for k, t in enumerate(w.t):
        if a <= t <= b:
            m = weights[near[k]] if kind == "varying" else weights
            given += (m * w.data[var][k].astype("f8"))[sub] * e["freq"]
            nrec += 1
    obs.count("direction_" + e["direction"])
    obs.count("runs_several_outputs", len(outs) > 1)
    obs.count("runs_over_midnight", e["start"] // 86400 != (e["end"] - 1) // 86400)
    obs.count({"shape": "regions_shape", "varying": "regions_varying", "mask": "regions_file", "fmask": "regions_file"}.get(kind, "regions_box"))
    obs.count("calendars_unusual", e["cal"] in UNUSUAL)
    what = f"{e['direction']}, {kind} region, {nrec} input records, {len(outs)} outputs, domain {'tracking_domain' in over}"
    order = [str(x) for x in rng.permutation(["input", "output", "both"])]
    for cmd in order:
        with Figures() as f:
            r = runner.run_cli("visualize", cmd, cfg)
        obs.count("commands")
        if not r.ok:
            obs.fail(f"visualize-{cmd}-failed-{runner.fresh_error_name(r.error)}", f"{what}: visualize {cmd} ended with {r.why()}", config=cfg.read_text()[:1500])
            continue
        obs.count("figures", len(f.saved))
        need = {"input": ["input"], "output": ["output"], "both": ["input", "output"]}[cmd]
        if len(f.saved) != 1:
            obs.fail("figure-count", f"{what}: visualize {cmd} saved {len(f.saved)} figures")
            continue
        path, panels = f.saved[0]
        obs.expect(str(path).startswith(runner.cfg_output(cfg)), "figure-place", f"{what}: figure saved as {path}")
        with open(path, "rb") as g:
            obs.expect(g.read(8) == b"\x89PNG\r\n\x1a\n", "figure-file", f"{what}: {path} is no picture")
        if len(panels) != len(need):
            obs.fail("figure-panels", f"{what}: visualize {cmd} shows {len(panels)} maps")
            continue
        obs.expect(len({p[4] for p in panels}) == len(panels), "figure-panels-on-one", f"{what}: visualize {cmd} draws several maps on one panel")
        for p, q in zip(panels, need):
            # what a map is said to show is what it shows
            title = p[3].lower()
            if ("input" in title) != ("tracked" in title):
                obs.count("titles")
                obs.expect((q == "input") == ("input" in title), "figure-title", f"{what}: the {q} is shown as {p[3]!r}")
            compare(obs, p, given if q == "input" else tracked, lat, lon, q, f"{what}: visualize {cmd}")
    obs.signature = gen.signature(e, kind, "tracking_domain" in over, order[0], nrec)
    obs.sample = gen.brief(e, region=kind, outputs=len(outs), records=nrec)
