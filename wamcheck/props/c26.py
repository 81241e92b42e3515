"""C26: the mask tools tag exactly the cells of the requested region."""

import hashlib
import sys
import types

import netCDF4
import numpy as np

from wamcheck import gen, ref, runner, world

RULE = (
    "each case makes a mask with one of the tools (box around a point, boxes around a track, polygons of a shapefile, named scientific regions) for a "
    "reference file on a random grid (regional or around the globe, longitudes from -180 or from 0, latitude in either order). The file is read back and every "
    "cell is compared with an independent computation (distance to the centre around the globe; ray casting for polygons): 1 inside, 0 outside, on the coordinates of "
    "the reference. Polygons and regions include ones without a cell, overlapping ones and several at once. Part of the masks is used by a tracking run, whose tagged "
    "moisture is compared with mask times surface flux. Requests that cannot be met must end with an error and no file. Non-trivial: some but not all cells inside."
)
MINIMUM = {"masks": 120, "cells_compared": 10000, "cells_inside": 1000, "point_masks": 25, "track_masks": 20, "shapefile_masks": 30, "named_masks": 25, "several_regions": 20,
           "regions_without_cell": 12, "across_seam": 6, "refusals": 10, "tracking_runs": 15, "tagged_compared": 500, "reference_0_360": 20}
ASSUMPTIONS = [
    "cartopy, which is only used for plots, is replaced by an empty stand-in where it is not installed; the AR6 regions, which regionmask downloads, by random polygons",
    "cells whose centre lies within 1e-6 degree of the edge of a polygon are not judged; edges of boxes belong to the box",
    "requested regions are given by their number in the source (named regions) or their position in the file (shapefile)",
]


def stand_ins():
    """Modules for plotting that are not installed here."""
    from unittest.mock import MagicMock

    try:
        import cartopy.crs  # noqa: F401
    except ImportError:
        m = MagicMock()
        sys.modules.update({"cartopy": m, "cartopy.crs": m.crs, "cartopy.feature": m.feature})


def warm(d):
    gen.warm(d)
    stand_ins()
    import geopandas  # noqa: F401
    import regionmask

    import wam2layers.utils.tagging_region  # noqa: F401

    for s in ("srex", "giorgi", "prudence"):
        getattr(regionmask.defined_regions, s).numbers


KINDS = ["point", "shape", "track", "named", "shape", "named", "refuse"]


def cases(tier, seed):
    n = 190 if tier == "quick" else 2500
    rng = np.random.default_rng([seed, 2626])
    out = []
    for i in range(n):
        e = world.random_exp(rng, year=[2020, 2100, 2023, 1999][i // 2 % 4], nsteps=5, tagwin="all", region="cell", dtype="f8", style="mild", direction=["forward", "backward"][i % 2], cal=["standard", "proleptic_gregorian"][i % 2], freq=3600, dt=1800)
        e["kind"] = KINDS[i % len(KINDS)]
        e["grid"] = ["global", "global360", "regional", "regional360"][int(rng.integers(4))]
        e["up"] = bool(rng.uniform() < 0.3)
        e["i"] = i
        e["track"] = bool(e["grid"] == "regional" and e["kind"] != "refuse")
        e["up"] = e["up"] and not e["track"]
        out.append(e)
    return out


def grid(e, rng):
    """Latitudes (decreasing) and longitudes of the reference file."""
    d = float(rng.choice([0.25, 0.5, 1.0, 2.5])) if e["grid"].startswith("regional") else float(rng.choice([5.0, 7.5, 10.0]))
    odd = float(rng.choice([0.0, 0.137]))
    if e["grid"].startswith("global"):
        lon = np.arange(-180 if e["grid"] == "global" else 0, 360, d)[: int(360 / d)] + odd
        lat = np.arange(90 - d / 2, -90, -d) + odd / 10
    else:
        nx, ny = int(rng.integers(8, 18)), int(rng.integers(7, 14))
        west = float(rng.choice([-120, -20, 0, 30, 100])) if e["grid"] == "regional" else float(rng.choice([170, 10, 220, 300]))
        lon = west + d * np.arange(nx) + odd
        lat = float(rng.choice([60, 40, 10, -10])) - d * np.arange(ny) + odd
    return lat, lon, d


def write_reference(path, lat, lon):
    with netCDF4.Dataset(path, "w") as ds:
        for n, x in (("latitude", lat), ("longitude", lon)):
            ds.createDimension(n, len(x))
            ds.createVariable(n, "f8", (n,))[:] = x
        ds.createVariable("tp", "f4", ("latitude", "longitude"))[:] = 1


def around(dlon):
    dlon = np.abs(dlon) % 360
    return np.minimum(dlon, 360 - dlon)


def ring_test(x, y, ring):
    """Even-odd ray casting and distance to the edge."""
    inside = np.zeros(np.broadcast(x, y).shape, bool)
    near = np.full(inside.shape, np.inf)
    ring = [tuple(p[:2]) for p in ring]
    if ring[0] != ring[-1]:
        ring.append(ring[0])
    for (x0, y0), (x1, y1) in zip(ring, ring[1:]):
        if y0 != y1:
            cross = ((y0 > y) != (y1 > y)) & (x < (x1 - x0) * (y - y0) / (y1 - y0) + x0)
            inside ^= cross
        L = (x1 - x0) ** 2 + (y1 - y0) ** 2
        s = np.clip(((x - x0) * (x1 - x0) + (y - y0) * (y1 - y0)) / L, 0, 1) if L else 0.0
        near = np.minimum(near, np.hypot(x - x0 - s * (x1 - x0), y - y0 - s * (y1 - y0)))
    return inside, near


def rings_of(geom):
    for g in getattr(geom, "geoms", [geom]):
        yield g.exterior.coords
        for h in g.interiors:
            yield h.coords


def in_geometry(lat, lon, rings, wrap):
    """Cells in a polygon, and those too close to its edge to be judged.

    A mask tool may take longitudes on either side of the globe: a point counts when it lies in the polygon after wrapping.
    """
    X, Y = np.meshgrid(lon, lat)
    inside = np.zeros(X.shape, bool)
    unsure = np.zeros(X.shape, bool)
    for off in (0, -360, 360) if wrap else (0,):
        a = np.zeros(X.shape, bool)
        for r in rings:
            i, near = ring_test(X + off, Y, r)
            a ^= i
            unsure |= near < 1e-6
        inside |= a
    return inside, unsure


def polygon(rng, lat, lon, d, where):
    """A random ring: 'in' the grid, 'off' it, or between cell centres ('none')."""
    cx, cy = rng.uniform(lon[0], lon[-1]), rng.uniform(lat.min(), lat.max())
    if where == "off":
        cy = lat.max() + 8 * d if lat.max() < 80 else lat.min() - 8 * d
        r = d
    elif where == "none":
        cx, cy = lon[int(rng.integers(1, len(lon)))] - d / 2, lat[int(rng.integers(1, len(lat)))] + d / 2 * np.sign(lat[0] - lat[1])
        r = 0.3 * d
    else:
        r = d * rng.uniform(1.5, 4)
    n = int(rng.integers(3, 9))
    t = (np.arange(n) + rng.uniform(0.1, 0.9, n)) * 2 * np.pi / n
    k = rng.uniform(0.5, 1, n)
    return [(float(cx + r * a * np.cos(b)), float(np.clip(cy + r * a * np.sin(b), -89.9, 89.9))) for a, b in zip(k, t)]


def write_shapes(path, shapes):
    import shapefile

    with shapefile.Writer(str(path), shapeType=shapefile.POLYGON) as w:
        w.field("name", "C")
        for k, ring in enumerate(shapes):
            pts = list(ring)
            area = sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(pts, pts[1:] + pts[:1]))
            if area > 0:
                pts = pts[::-1]
            w.poly([pts + pts[:1]])
            w.record(f"shape{k}")
    (path.parent / (path.name + ".prj")).write_text('GEOGCS["WGS 84",DATUM["WGS_1984",SPHEROID["WGS 84",6378137,298.257223563]],PRIMEM["Greenwich",0],UNIT["degree",0.0174532925199433]]')
    return str(path) + ".shp"


def named_source(rng, name):
    import regionmask

    if name == "ar6.all":
        # regionmask downloads these; random polygons instead, also numbered from 0
        import shapely

        rings = []
        for k in range(14):
            lon, lat = np.linspace(-170, 170, 30), np.linspace(75, -75, 16)
            rings.append([(max(-179.0, min(179.0, x)), y) for x, y in polygon(rng, lat, lon, 10.0, "in")])
        geoms = [shapely.Polygon(r) for r in rings]
        regions = regionmask.Regions(geoms, numbers=range(len(geoms)), names=[f"r{k}" for k in range(len(geoms))], abbrevs=[f"a{k}" for k in range(len(geoms))], overlap=True)
        fake = types.SimpleNamespace(all=regions, land=regions, ocean=regions)
        real = regionmask.defined_regions
        stand = types.SimpleNamespace(ar6=fake, srex=real.srex, giorgi=real.giorgi, prudence=real.prudence)
        regionmask.defined_regions = stand
        return regions
    return getattr(regionmask.defined_regions, name)


def run(e, obs, d):
    stand_ins()
    from wam2layers.utils import tagging_region as tools

    rng = np.random.default_rng([e["seed"], 26])
    kind = e["kind"]
    lat, lon, step = grid(e, rng)
    w = None
    if e["track"]:
        if np.abs(lat).max() > 80:
            lat = lat[np.abs(lat) < 80]
        e.update(nx=len(lon), ny=len(lat), dlat=step, dlon=step, lat0=float(lat[0]), lon0=float(lon[0]), periodic=False)
        w = world.make_world(world.world_params(e))
        w.write(d / "pre")
        reference = sorted((d / "pre").glob("*.nc"))[0]
        lat, lon = w.lat, w.lon
    else:
        if e["up"]:
            lat = lat[::-1]
        reference = d / "reference.nc"
        write_reference(reference, lat, lon)
    obs.count("reference_0_360", lon.max() > 180)
    checksum = hashlib.sha256(reference.read_bytes()).hexdigest()
    out = d / "mask.nc"
    X, Y = np.meshgrid(lon, lat)
    times = None
    unsure = np.zeros(X.shape, bool)

    def box(c, r):
        return (np.abs(Y - c[0]) <= r) & (around(X - c[1]) <= r)

    def centre():
        if rng.uniform() < 0.6 and e["grid"].startswith("global"):
            x = float(rng.choice([lon[0], lon[-1], 179.75, -179.75, 0.25]))
        else:
            x = float(rng.choice([lon[int(rng.integers(len(lon)))], round(rng.uniform(lon[0], lon[-1]), 3)]))
        if rng.uniform() < 0.3:
            x = x - 360 if x > 180 else (x + 360 if x < 0 else x)
        y = float(rng.choice([lat[int(rng.integers(len(lat)))], round(rng.uniform(lat.min(), lat.max()), 3)]))
        return y, x

    def radius():
        # also exactly on cell centres
        return float(rng.choice([step, 2 * step, 3 * step, round(rng.uniform(0.6, 4) * step, 3)]))

    def tie(c, r):
        # rounding decides about centres at exactly the radius
        near = np.abs(np.abs(Y - c[0]) - r) < 1e-9
        near |= np.abs(around(X - c[1]) - r) < 1e-9
        exact = all(float(v * 8).is_integer() for v in (c[0], c[1], r)) and np.all(lat * 8 % 1 == 0) and np.all(lon * 8 % 1 == 0)
        return near & (not exact)

    if kind == "refuse":
        return refuse(e, obs, d, rng, tools, lat, lon, step, reference, out)

    if kind == "point":
        c, r = centre(), radius()
        what = f"box of {r} around {c}"
        want, unsure = box(c, r), tie(c, r)
        call = lambda: tools.mask_around_point(c, r if r % 1 else int(r), str(reference), str(out), False)
        obs.count("point_masks")
    elif kind == "track":
        import pandas as pd

        n = int(rng.integers(1, 6))
        cs, r = [centre() for _ in range(n)], radius()
        what = f"boxes of {r} around {cs}"
        t0 = world.date_of(e["start"], "standard")
        times = pd.to_datetime([world.iso(e["start"] - 60 + k * (e["end"] - e["start"] + 120) // max(1, n - 1), "standard") for k in range(n)])
        del t0
        want = np.stack([box(c, r) for c in cs])
        unsure = np.stack([tie(c, r) for c in cs])
        call = lambda: tools.mask_around_track(cs, times, r, str(reference), str(out), False)
        obs.count("track_masks")
    elif kind == "shape":
        n = int(rng.integers(1, 6))
        where = [["in", "in", "off", "none"][int(rng.integers(4))] for _ in range(n)]
        pick = False if rng.uniform() < 0.3 else sorted(int(k) for k in rng.permutation(n)[: int(rng.integers(1, n + 1))])
        if pick is False:
            where[0] = "in"
        else:
            where[pick[-1]] = "in"
        shapes = [polygon(rng, lat, lon, step, x) for x in where]
        lo, hi = (0.0, 360.0) if lon.max() > 180 else (-180.0, 180.0)
        if lon.max() > 180 and rng.uniform() < 0.5:
            # shapefiles usually have longitudes from -180 to 180
            shapes = [[(x - 360 * (np.mean([p[0] for p in ring]) > 180), y) for x, y in ring] for ring in shapes]
            lo, hi = -180.0, 180.0
        shapes = [[(float(min(hi, max(lo, x))), y) for x, y in ring] for ring in shapes]
        what = f"shapes {pick} of {where}"
        want = np.zeros(X.shape, bool)
        for k in [0] if pick is False else pick:
            a, b = in_geometry(lat, lon, [shapes[k]], True)
            want |= a
            unsure = unsure | b
        obs.count("several_regions", pick is not False and len(pick) > 1)
        obs.count("regions_without_cell", sum(x != "in" for x in where))
        path = write_shapes(d / "region", shapes)
        call = lambda: tools.mask_with_shapefile(path, pick, str(reference), str(out), False)
        obs.count("shapefile_masks")
    else:
        name = ["srex", "giorgi", "prudence", "ar6.all"][int(rng.integers(4))]
        source = named_source(rng, name)
        numbers = list(source.numbers)
        pick = sorted(int(k) for k in rng.permutation(numbers)[: int(rng.choice([1, 1, 2, 3]))])
        inside = {}
        for k in numbers:
            inside[k], b = in_geometry(lat, lon, list(rings_of(source[k].polygon)), True)
            unsure = unsure | b
        if not any(inside[k].any() for k in pick):
            # ask for one that is there
            there = [k for k in numbers if inside[k].any()]
            if there:
                pick[0] = int(there[int(rng.integers(len(there)))])
        what = f"regions {pick} of {name}"
        want = np.any([inside[k] for k in pick], axis=0)
        obs.count("several_regions", len(pick) > 1)
        obs.count("regions_without_cell", sum(not inside[k].any() for k in pick))
        call = lambda: tools.mask_with_regionmask(name, pick, str(reference), str(out), False)
        obs.count("named_masks")

    what += f", {e['grid']} grid with longitudes {lon[0]:.5g}..{lon[-1]:.5g}, latitudes {lat[0]:.5g}..{lat[-1]:.5g} step {step}"
    try:
        call()
    except Exception as x:
        obs.fail(f"tool-failed-{type(x).__name__}", f"{kind}: {what}: ended with {x!r}"[:800])
        return
    obs.count("masks")
    obs.expect(hashlib.sha256(reference.read_bytes()).hexdigest() == checksum, "reference-modified", what)
    if not obs.expect(out.exists(), "no-mask", f"{kind}: {what}: no file was written"):
        return
    with netCDF4.Dataset(out) as ds:
        ds.set_auto_mask(False)
        if not obs.expect({"latitude", "longitude"} <= set(ds.variables), "coordinates", f"{what}: variables {list(ds.variables)}"):
            return
        names = [n for n in ds.variables if n not in ds.dimensions]
        if not obs.expect(len(names) == 1, "not-one-variable", f"{what}: {names}"):
            return
        v = ds.variables[names[0]]
        dims = ("time",) * (times is not None) + ("latitude", "longitude")
        if not obs.expect(v.dimensions == dims and v.shape == want.shape, "dimensions", f"{what}: {v.dimensions} {v.shape}"):
            return
        a = np.array(v[...])
        same = np.array_equal(ds["latitude"][...], lat) and np.array_equal(ds["longitude"][...], lon)
        obs.expect(same, "coordinates", f"{what}: coordinates differ from those of the reference file")
    ok = ~unsure
    obs.count("cells_compared", ok.sum())
    obs.count("cells_inside", want.sum())
    bad = ok & (a != want)
    partly = bad & want & (a > 0) & (a < 1)
    if partly.any():
        obs.fail(f"{kind}-partly-tagged", f"{what}: {int(partly.sum())} cells in the region have values {np.unique(a[partly])}")
    bad &= ~partly
    if bad.any():
        j = tuple(np.argwhere(bad)[0])
        obs.fail(f"{kind}-cells-differ", f"{what}: {int((bad & want).sum())} of {int(want.sum())} cells in the region not tagged, {int((bad & ~want).sum())} others tagged, first at latitude {lat[j[-2]]:.5g}, longitude {lon[j[-1]]:.5g}")
    if kind in ("point", "track"):
        obs.count("across_seam", bool((want[..., 0] & want[..., -1]).any() and not want.all(-1).any()))
    obs.nontrivial = bool(0 < want.sum() < want.size)
    if e["track"] and not bad.any() and not partly.any():
        use(e, obs, d, w, a, times, out, what)
    obs.signature = f"{kind}|{e['grid']}|{len(lat)}|{len(lon)}|{want.sum()}|{step}|{e['up']}"
    obs.sample = dict(kind=kind, what=what[:300], cells=int(want.sum()))


def use(e, obs, d, w, a, times, out, what):
    """Track with the mask and compare the tagged moisture."""
    import json

    cfg = d / "config.yaml"
    cfg.write_text(json.dumps(world.config_dict(e, d, str(out), output_frequency="1h")))
    r, outs = runner.track(obs, cfg, e)
    if not outs:
        return
    src = "evap" if e["direction"] == "forward" else "precip"
    steps, _ = ref.schedule(e)
    tot = np.zeros(a.shape[-2:])
    for _, t0, t1 in steps:
        m = a
        if times is not None:
            sec = np.array([t.timestamp() for t in times])
            start = t0 if e["direction"] == "forward" else t1
            gap = np.sort(np.abs(sec - start))
            if len(gap) > 1 and gap[1] - gap[0] < 1:
                return  # a tie between two times
            m = a[np.argmin(np.abs(sec - start))]
        tot += m * w.at((t0 + t1) / 2, [src])[src] * e["dt"]
    got = sum(o.v["tagged_" + src] for o in outs)
    obs.count("tagged_compared", got.size)
    runner.compare_field(obs, "tagged-not-mask", got, tot, what=f"{what}: tagged_{src}", count="masks_used")


def refuse(e, obs, d, rng, tools, lat, lon, step, reference, out):
    which = [0, 1, 2, 3, 4, 5, 4, 6, 7, 4][e["i"] // 7 % 10]
    shapes = [polygon(rng, lat, lon, step, "in") for _ in range(2)]
    if which == 0:
        what = "unknown source of regions"
        call = lambda: tools.mask_with_regionmask("atlantis", [1], str(reference), str(out), False)
    elif which == 1:
        what = "named region not in a list"
        call = lambda: tools.mask_with_regionmask("srex", 3, str(reference), str(out), False)
    elif which == 2:
        what = "shape not in a list"
        path = write_shapes(d / "region", shapes)
        call = lambda: tools.mask_with_shapefile(path, 1, str(reference), str(out), False)
    elif which == 4:
        name, k = [("srex", 27), ("giorgi", 22), ("prudence", 9), ("srex", 0), ("giorgi", 0), ("prudence", 0)][int(rng.integers(6))]
        what = f"region {k} of {name}"
        call = lambda: tools.mask_with_regionmask(name, [1, k] if rng.uniform() < 0.5 else [k], str(reference), str(out), False)
    elif which == 5:
        name = ["ar6.atlantis", "ar6.everything"][int(rng.integers(2))]
        what = f"unknown source {name}"
        call = lambda: tools.mask_with_regionmask(name, [1], str(reference), str(out), False)
    elif which == 6:
        what = "shapefile that does not exist"
        call = lambda: tools.mask_with_shapefile(str(d / "none.shp"), [0], str(reference), str(out), False)
    elif which == 7:
        what = "shape before the first one"
        path = write_shapes(d / "region", shapes)
        call = lambda: tools.mask_with_shapefile(path, [-1], str(reference), str(out), False)
    else:
        what = "shape beyond the last one"
        path = write_shapes(d / "region", shapes)
        call = lambda: tools.mask_with_shapefile(path, [0, 5], str(reference), str(out), False)
    try:
        call()
        obs.fail("accepted", f"{what}: no error")
    except Exception:
        pass
    obs.count("refusals")
    obs.expect(not out.exists(), "file-after-error", f"{what}: a mask was written")
    obs.nontrivial = True
    obs.signature = f"refuse|{which}|{e['grid']}|{len(lon)}"
    obs.sample = dict(kind="refuse", what=what)
