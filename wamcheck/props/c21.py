"""C21: a shapefile region tags each cell by the fraction of it that is covered."""

import shutil

import netCDF4
import numpy as np

from wamcheck import gen, ref, runner, world

RULE = (
    "each case writes a random polygon (convex, concave, with holes, several parts, thinner or smaller than a cell, along cell edges, reaching outside the grid, "
    "covering all of it) as a shapefile and tracks with it. The share of every cell is computed independently by clipping every ring against the cell; it is compared "
    "with the saved mask and, through the tagged moisture, with what the run used, with and without a tracking domain. The mask function is also given grids in other "
    "orders of latitude, longitude and dimensions. Non-trivial: some cell is partly covered."
)
MINIMUM = {"runs": 60, "cells_compared": 2500, "cells_partial": 300, "cells_full": 60, "cells_with_hole": 30, "polygons_outside": 8, "polygons_parts": 8, "polygons_small": 6, "runs_domain": 8, "tagged_compared": 1500, "records_ignored": 10}
ASSUMPTIONS = [
    "areas are measured in longitude and latitude coordinates, with straight edges between vertices",
    "the polygon touches the grid; the part of a cell beyond 180 degrees is not matched with a polygon on the other side of the antimeridian",
    "only the first record of a shapefile counts (documented: the shapefile should contain only one polygon)",
]


def warm(d):
    gen.warm(d)
    import shapefile  # noqa: F401
    import shapely  # noqa: F401
    import scipy.interpolate  # noqa: F401


KINDS = ["convex", "star", "holes", "parts", "tiny", "sliver", "edges", "outside", "all", "corner"]


def cases(tier, seed):
    n = 100 if tier == "quick" else 1500
    rng = np.random.default_rng([seed, 2121])
    out = []
    for i in range(n):
        e = world.random_exp(rng, nsteps=2, tagwin="all", region="cell", offset=0, periodic=i % 5 == 4, direction=["forward", "backward"][i % 2], style=["mild", "white"][(i // 2) % 2], dtype="f8", courant=0.3)
        e["kind"] = KINDS[i % len(KINDS)]
        e["domain"] = bool(not e["periodic"] and (i // 2) % 4 == 0)
        if not e["periodic"]:
            e["nx"], e["ny"] = int(rng.integers(6, 14)), int(rng.integers(6, 12))
        out.append(e)
    return out


# --- polygons -------------------------------------------------------------------------


def star(rng, cx, cy, rx, ry, n, lo):
    """Vertices of a star-shaped polygon around (cx, cy), counterclockwise."""
    t = np.sort(rng.uniform(0, 2 * np.pi, n))
    # no gap of more than a half turn
    t = (np.arange(n) + rng.uniform(0.1, 0.9, n)) * 2 * np.pi / n
    r = rng.uniform(lo, 1, n)
    return [(cx + rx * a * np.cos(b), cy + ry * a * np.sin(b)) for a, b in zip(r, t)]


def box(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


def polygon(e, lat, lon, rng):
    """List of (outer ring, [holes]), rings counterclockwise, within -180, -80, 180, 80."""
    dy, dx = e["dlat"], e["dlon"]
    w, x1 = lon[0] - dx / 2, lon[-1] + dx / 2
    s, n = lat[-1] - dy / 2, lat[0] + dy / 2
    W, H = x1 - w, n - s
    cx, cy = w + W * rng.uniform(0.3, 0.7), s + H * rng.uniform(0.3, 0.7)
    k = e["kind"]
    if k == "convex":
        parts = [(star(rng, cx, cy, W * 0.3, H * 0.3, int(rng.integers(3, 9)), 0.999), [])]
    elif k == "star":
        parts = [(star(rng, cx, cy, W * 0.4, H * 0.4, int(rng.integers(5, 25)), 0.15), [])]
    elif k == "holes":
        outer = star(rng, cx, cy, W * 0.45, H * 0.45, int(rng.integers(6, 12)), 0.9)
        holes = [star(rng, cx + sx * W * 0.13, cy, W * 0.1, H * 0.15, int(rng.integers(3, 8)), 0.5) for sx in ((-1, 1) if rng.uniform() < 0.5 else (1,))]
        parts = [(outer, holes)]
    elif k == "parts":
        parts = [(star(rng, w + W * fx, s + H * fy, W * 0.16, H * 0.16, int(rng.integers(3, 9)), 0.4), []) for fx, fy in ((0.2, 0.3), (0.6, 0.7), (0.8, 0.2))]
        if rng.uniform() < 0.5:
            o = star(rng, w + W * 0.2, s + H * 0.75, W * 0.15, H * 0.15, 6, 0.9)
            parts.append((o, [star(rng, w + W * 0.2, s + H * 0.75, W * 0.06, H * 0.06, 4, 0.8)]))
    elif k == "tiny":
        j, i = int(rng.integers(1, len(lat) - 1)), int(rng.integers(1, len(lon) - 1))
        parts = [(star(rng, lon[i] + rng.uniform(-0.6, 0.6) * dx, lat[j] + rng.uniform(-0.6, 0.6) * dy, dx * 0.2, dy * 0.2, 5, 0.3), [])]
    elif k == "sliver":
        a, b = (w + W * 0.1, s + H * 0.1), (x1 - W * 0.1, n - H * 0.1)
        t = 0.02 * min(dx, dy)
        parts = [([a, (b[0] + t, b[1] - t), (b[0], b[1])], [])]
    elif k == "edges":
        i0, i1 = sorted(rng.choice(len(lon) + 1, 2, replace=False))
        j0, j1 = sorted(rng.choice(len(lat) + 1, 2, replace=False))
        parts = [(box(w + i0 * dx, s + j0 * dy, w + i1 * dx, s + j1 * dy), [])]
    elif k == "outside":
        side = int(rng.integers(4))
        cx, cy = [(w, cy), (x1, cy), (cx, s), (cx, n)][side]
        cx, cy = cx + (side == 1) * rng.uniform(0, 0.5) * dx - (side == 0) * rng.uniform(0, 0.5) * dx, cy + (side == 3) * rng.uniform(0, 0.5) * dy - (side == 2) * rng.uniform(0, 0.5) * dy
        parts = [(star(rng, cx, cy, max(W * 0.3, 1.2 * dx), max(H * 0.3, 1.2 * dy), int(rng.integers(4, 10)), 0.8), [])]
    elif k == "all":
        parts = [(box(w - 3 * dx, s - 2 * dy, x1 + 2 * dx, n + 3 * dy), [])]
    else:  # a bit of the outermost cells only
        far = rng.uniform(1.5, 4)
        near = rng.uniform(0.05, 0.45)
        sx, sy = rng.choice([-1, 1], 2)
        x0, y0 = (w if sx < 0 else x1), (s if sy < 0 else n)
        a, b = sorted([x0 - sx * near * dx, x0 + sx * far * dx])
        c, f = sorted([y0 - sy * near * dy, y0 + sy * far * dy])
        parts = [(box(a, c, b, f), [])]
        if rng.uniform() < 0.5:  # all along one side
            parts = [(box(w + dx, c, x1 - dx, f), [])]
    clip = lambda ring: [(float(np.clip(x, -180, 180)), float(np.clip(y, -80, 80))) for x, y in ring]
    return [(clip(o), [clip(h) for h in hs]) for o, hs in parts]


def write_shapefile(path, parts, others=()):
    """A shapefile with a polygon, and possibly further records after it."""
    import shapefile

    rings = []
    for outer, holes in parts:
        rings.append([list(p) for p in outer[::-1]] + [list(outer[-1])])  # clockwise and closed
        for h in holes:
            rings.append([list(p) for p in h] + [list(h[0])])
    with shapefile.Writer(str(path), shapeType=shapefile.POLYGON) as w:
        w.field("name", "C")
        w.poly(rings)
        w.record("region")
        for ring in others:
            w.poly([[list(p) for p in ring[::-1]] + [list(ring[-1])]])
            w.record("another")


# --- independent coverage ---------------------------------------------------------------


def clip_half(ring, axis, value, keep_greater):
    out = []
    n = len(ring)
    inside = lambda p: p[axis] >= value if keep_greater else p[axis] <= value
    for k in range(n):
        a, b = ring[k], ring[(k + 1) % n]
        ia, ib = inside(a), inside(b)
        if ia:
            out.append(a)
        if ia != ib:
            t = (value - a[axis]) / (b[axis] - a[axis])
            c = [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
            c[axis] = value
            out.append(tuple(c))
    return out


def area(ring):
    if len(ring) < 3:
        return 0.0
    x0, y0 = ring[0]
    p = np.array([(x - x0, y - y0) for x, y in ring])
    q = np.roll(p, -1, axis=0)
    return abs(0.5 * float((p[:, 0] * q[:, 1] - q[:, 0] * p[:, 1]).sum()))


def coverage(parts, lat, lon, dlat, dlon):
    out = np.zeros((len(lat), len(lon)))
    holed = np.zeros(out.shape, bool)
    for outer, holes in parts:
        for ring, sign in [(outer, 1)] + [(h, -1) for h in holes]:
            for j, y in enumerate(lat):
                band = clip_half(clip_half(ring, 1, y - dlat / 2, True), 1, y + dlat / 2, False)
                if not band:
                    continue
                for i, x in enumerate(lon):
                    piece = clip_half(clip_half(band, 0, x - dlon / 2, True), 0, x + dlon / 2, False)
                    a = area(piece) / (dlat * dlon)
                    out[j, i] += sign * a
                    holed[j, i] |= sign < 0 and a > 0
    return out, holed


def compare(obs, key, got, want, what):
    bad = ~(np.abs(got - want) <= 1e-6)
    obs.count("cells_compared", want.size)
    if bad.any():
        j, i = np.argwhere(bad)[0]
        obs.fail(key, f"{what}: {bad.sum()} of {bad.size} cells, first row {j} column {i}: weight {got[j, i]:.7g}, covered share {want[j, i]:.7g}")
    return not bad.any()


def run(e, obs, d):
    rng = np.random.default_rng([e["seed"], 21])
    w = world.make_world(world.world_params(e))
    lat, lon = w.lat, w.lon
    parts = polygon(e, lat, lon, rng)
    want, holed = coverage(parts, lat, lon, w.dlat, w.dlon)
    if want.max() <= 0:
        obs.count("polygon_misses_grid")
        return
    shp = d / "region.shp"
    others = []
    if e["seed"] % 3 == 0:
        others = [box(lon[k], lat[k + 1], lon[k + 1], lat[k]) for k in range(int(rng.integers(1, 3)))]
        obs.count("records_ignored", len(others))
    write_shapefile(shp, parts, others)
    over = dict(tagging_region=str(shp))
    J, I = np.arange(len(lat)), np.arange(len(lon))
    if e["domain"]:
        J, I = J[1:], I[:-2] if rng.uniform() < 0.5 else I[1:]
        over["tracking_domain"] = [float(np.floor(lon[I[0]] * 1e4) / 1e4), max(-80.0, float(np.floor(lat[J[-1]] * 1e4) / 1e4)), float(np.ceil(lon[I[-1]] * 1e4) / 1e4), min(80.0, float(np.ceil(lat[J[0]] * 1e4) / 1e4))]
        if abs(lat[J[0]]) > 80 or abs(lat[J[-1]]) > 80 or lon[I[0]] < -180 or lon[I[-1]] > 180:
            over.pop("tracking_domain")
            J, I = np.arange(len(lat)), np.arange(len(lon))
    cfg = world.setup(e, d / "a", w, **over)[2]
    r, outs = runner.track(obs, cfg, e)
    if not outs:
        return
    what = f"{e['kind']} polygon, grid of {e['dlon']:.3g} x {e['dlat']:.3g} degrees"
    saved = d / "a" / "out" / "debug" / "tagging_region.nc"
    obs.count("runs")
    obs.count("runs_domain", "tracking_domain" in over)
    if not saved.exists():
        obs.fail("mask-not-saved", f"{what}: no debug/tagging_region.nc")
    else:
        with netCDF4.Dataset(saved) as ds:
            ds.set_auto_mask(False)
            y, x = np.array(ds["latitude"][:], "f8"), np.array(ds["longitude"][:], "f8")
            v = next(v for n, v in ds.variables.items() if {"latitude", "longitude"} <= set(v.dimensions))
            m = np.array(v[:], "f8")
            if v.dimensions.index("latitude") > v.dimensions.index("longitude"):
                m = m.T
        # by location
        try:
            jj = [int(np.flatnonzero(np.abs(y - q) < 1e-6)[0]) for q in lat]
            ii = [int(np.flatnonzero(np.abs(x - q) < 1e-6)[0]) for q in lon]
        except IndexError:
            jj = None
        if jj is None:
            obs.fail("mask-grid", f"{what}: saved mask lacks rows or columns of the input grid")
        else:
            compare(obs, "mask-not-covered-share", m[np.ix_(jj, ii)], want, what)
            obs.expect(m.min() >= -1e-9 and m.max() <= 1 + 1e-9, "mask-out-of-range", f"{what}: weights from {m.min()} to {m.max()}")
    obs.count("cells_partial", ((want > 1e-4) & (want < 1 - 1e-4)).sum())
    obs.count("cells_full", (want > 1 - 1e-9).sum())
    obs.count("cells_with_hole", holed.sum())
    obs.count("polygons_outside", e["kind"] in ("outside", "all", "corner"))
    obs.count("polygons_parts", e["kind"] == "parts")
    obs.count("polygons_small", e["kind"] in ("tiny", "sliver"))
    obs.nontrivial = bool(((want > 1e-4) & (want < 1 - 1e-4)).any())

    # what the run used
    name = "tagged_precip" if e["direction"] == "backward" else "tagged_evap"
    total = sum(o.v[name] for o in outs)
    given = np.zeros(want.shape)
    for k, t0, t1 in ref.schedule(e)[0]:
        now = t0 if e["direction"] == "forward" else t1
        if e["tag"][0] <= now <= e["tag"][1]:
            F = w.at((t0 + t1) / 2, ["evap", "precip"])
            given += F["precip" if e["direction"] == "backward" else "evap"] * e["dt"]
    given, used = given[np.ix_(J, I)], want[np.ix_(J, I)]
    if total.shape != given.shape:
        obs.fail("tagged-shape", f"{what}: tagged moisture on {total.shape}, {given.shape} expected")
    else:
        obs.count("tagged_compared", (given > 0).sum())
        bad = ~(np.abs(total - used * given) <= 1e-5 * used * given + 1e-6 * given.max())
        if bad.any():
            j, i = np.argwhere(bad)[0]
            obs.fail("tagged-not-covered-share", f"{what}: tagged {total[j, i]:.7g} in row {j} column {i}, covered share {used[j, i]:.6f} of {given[j, i]:.7g}")

    # the same function on grids in other orders
    from wam2layers.utils import shapefile_mask

    f = getattr(shapefile_mask, "create_mask", None)
    if f is not None:
        import xarray as xr

        sj, si = ([1, -1][int(rng.integers(2))] for _ in range(2))
        dims = [("latitude", "longitude"), ("longitude", "latitude"), ("time", "latitude", "longitude")][int(rng.integers(3))]
        size = dict(latitude=len(lat), longitude=len(lon), time=2)
        ds = xr.Dataset({"s_upper": (dims, np.zeros([size[q] for q in dims]))}, coords={"latitude": lat[::sj], "longitude": lon[::si]})
        m = f(ds, shp)
        obs.count("grids_reordered")
        if m.dims != tuple(q for q in dims if q != "time"):
            obs.fail("mask-dimensions", f"{what}: mask has dimensions {m.dims} for data with {dims}")
        g = m.transpose("latitude", "longitude")
        if not (np.array_equal(g.latitude.values, lat[::sj]) and np.array_equal(g.longitude.values, lon[::si])):
            obs.fail("mask-grid", f"{what}: mask is not on the coordinates of the data")
        else:
            compare(obs, "mask-not-covered-share", g.values[::sj, ::si], want, what + f" (grid order {sj}, {si}, {dims})")
    obs.signature = gen.signature(e, e["kind"], "tracking_domain" in over, round(float(want.sum()), 1))
    obs.sample = gen.brief(e, kind=e["kind"], covered_cells=float(want.sum()))
