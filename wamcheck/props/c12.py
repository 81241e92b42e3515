"""C12: tracking on a subdomain equals tracking on input cut to that subdomain."""

import json

import numpy as np

from wamcheck import gen, ref, runner, world

RULE = (
    "each case tracks with a tracking domain (edges on or between cell centres; for worlds around the globe also across the antimeridian) "
    "and again, without a domain, on input files that hold only the cells whose centre lies in the box, in eastward order, written "
    "independently. Tagging region: box, mask, or mask with a time axis. Coordinates and all outputs are compared. Non-trivial: moisture tagged "
    "and at least one row or column cut away."
)
MINIMUM = {"pairs": 40, "pairs_across_antimeridian": 14, "edges_on_centres": 40, "fields_compared": 500, "mask_pairs": 12, "box_pairs": 8, "time_mask_pairs": 4, "mask_other_suffix": 8, "cells_cut": 500, "all_columns_across_antimeridian": 2}
ASSUMPTIONS = ["longitudes of the cut input continue beyond 180 where the box crosses the antimeridian"]
warm = gen.warm


def cases(tier, seed):
    n = 54 if tier == "quick" else 400
    rng = np.random.default_rng([seed, 1212])
    out = []
    for i in range(n):
        world_kind = ["global", "regional"][(i // 2) % 3 == 2]
        e = world.random_exp(rng, periodic=world_kind == "global", style=["mild", "storm", "white", "wind", "deluge"][i % 5], direction=["forward", "backward"][i % 2],
                             nx=12 if world_kind == "global" else 9, ny=8, nsteps=5, tagwin="all", region="mask")
        e["global"] = e["periodic"]
        e["periodic"] = False
        if e["global"]:
            e["lon0"] = float(rng.choice([-180.0, -165.0, -179.5]))
        e["reg"] = ["mask", "box", "time"][int(rng.integers(3))]
        e["wrap"] = bool(e["global"] and i % 3 != 1)
        if not e["global"] and (i // 2) % 2:
            # input on both sides of the antimeridian only
            e.update(wrap=True, sides=True, lon0=180 - e["dlon"] * float(rng.choice([2, 3, 4, 4.5, 5])))
        out.append(e)
    return out


def draw(e, w, rng):
    ny, nx = len(w.lat), len(w.lon)
    legal = np.flatnonzero(np.abs(w.lat) <= 80)
    for _ in range(200):
        j0, j1 = sorted(rng.choice(legal, 2))
        off = lambda d: float(rng.choice([0, 0, 0.5, 0.25, 0.01])) * d
        north, south = w.lat[j0] + off(w.dlat), w.lat[j1] - off(w.dlat)
        if e.get("sides"):
            first = int(np.argmax(w.lon > 0))
            i0, i1 = int(rng.choice([first, first, rng.integers(first, nx)])), int(rng.choice([first - 1, first - 1, rng.integers(0, first)]))
        elif e["wrap"]:
            i0, i1 = int(rng.integers(nx // 2 - 2, nx)), int(rng.integers(0, nx // 2 + 1))
            if i0 - i1 < 2:
                continue
        else:
            i0, i1 = sorted(rng.integers(0, nx, 2))
        west, east = w.lon[i0] - off(w.dlon), w.lon[i1] + off(w.dlon)
        west, east = max(-180.0, west), min(180.0, east)
        north, south = min(80.0, north), max(-80.0, south)
        if not north > south or (west > east) != e["wrap"]:
            continue
        inlat = np.flatnonzero((w.lat >= south) & (w.lat <= north))
        if west < east:
            inlon = np.flatnonzero((w.lon >= west) & (w.lon <= east))
            lon = w.lon[inlon]
        else:
            a, b = np.flatnonzero(w.lon >= west), np.flatnonzero(w.lon <= east)
            inlon = np.concatenate([a, b])
            lon = np.concatenate([w.lon[a], w.lon[b] + 360])
        if len(inlat) >= 4 and 4 <= len(inlon) < nx + bool(e.get("sides")):
            return [float(x) for x in (west, south, east, north)], inlat, inlon, lon
    return None


def run(e, obs, d):
    rng = np.random.default_rng([e["seed"], 12])
    w = world.make_world(world.world_params(e))
    if e.get("sides"):
        wrapped = (w.lon + 180) % 360 - 180
        order = np.argsort(wrapped)
        w = w.cut(np.arange(len(w.lat)), order)
        w.lon = wrapped[order]
    got = draw(e, w, rng)
    if got is None:
        obs.nontrivial = False
        obs.count("no_box")
        return
    box, j, i, lon = got
    ny, nx = len(w.lat), len(w.lon)
    small = w.cut(j, i)
    small.lon = lon
    m = (rng.uniform(size=(ny, nx)) < 0.6) * rng.uniform(0.1, 1, (ny, nx))
    times = None
    if e["reg"] == "box":
        # a tagging box in the same (original) longitudes
        a, b = int(rng.integers(1, len(j) - 1)), int(rng.integers(1, len(i) - 1))
        west, east = w.lon[i[max(0, b - 1)]], w.lon[i[min(len(i) - 1, b + 1)]]
        south, north = max(-80.0, w.lat[j[min(len(j) - 1, a + 1)]]), min(80.0, w.lat[j[a]])
        region = [float(x) for x in (west, south, east, north)]
        inlat = (w.lat >= south) & (w.lat <= north)
        inlon = (w.lon >= west) & (w.lon <= east) if west <= east else (w.lon >= west) | (w.lon <= east)
        m = (inlat[:, None] & inlon[None, :]).astype("f8")
        obs.count("box_pairs")
    else:
        region = str(d / ["mask.nc", "mask.nc4", "region-mask.cdf", "mask.v2.nc", "MASK.NC"][int(rng.integers(5))])
        obs.count("mask_other_suffix", not region.endswith(".nc"))
        if e["reg"] == "time":
            times = [e["start"] - 60, e["start"] + 2 * e["dt"] + 60]
            m = np.stack([m, m[::-1, ::-1]])
            obs.count("time_mask_pairs")
        else:
            obs.count("mask_pairs")
        world.write_mask(region, w, m, times)
    mm = m[..., j, :][..., i]

    def go(name, w, region, **over):
        f = d / name
        w.write(f / "pre")
        cfg = f / "config.yaml"
        cfg.write_text(json.dumps(world.config_dict(e, f, region, **over)))
        return runner.track(obs, cfg, e)[1]

    world.write_mask(d / "cutmask.nc", small, mm, times)
    want = go("cut", small, str(d / "cutmask.nc"))
    have = go("sub", w, region, tracking_domain=box)
    if not want or not have:
        return
    about = f"domain {box} on longitudes {w.lon[0]}..{w.lon[-1]} step {w.dlon:.4g}, latitudes {w.lat[0]:.4g}..{w.lat[-1]:.4g} step {w.dlat:.4g}"
    for o in have:
        ok = o.lat.shape == small.lat.shape and o.lon.shape == lon.shape and np.allclose(o.lat, small.lat, atol=1e-6) and np.allclose((o.lon - lon + 180) % 360 - 180, 0, atol=1e-6)
        if not obs.expect(ok, "cells", f"{about}: {o.name} has latitudes {o.lat.tolist()}, longitudes {o.lon.tolist()}, cells in the box are {small.lat.tolist()}, {lon.tolist()}"):
            return
    runner.compare(obs, "subdomain-differs", have, want, e, rtol=2e-5, atol_rel=3e-6, what=f"{about}, region {e['reg']}:", scale=max(float(o.layer_sum().max()) for o in want) + max(float(o.v["losses"].max()) for o in want))
    obs.count("pairs")
    obs.count("pairs_across_antimeridian", box[0] > box[2])
    obs.count("edges_on_centres", np.isin([box[0], box[2]], w.lon).sum() + np.isin([box[1], box[3]], w.lat).sum())
    obs.count("cells_cut", ny * nx - len(j) * len(i))
    obs.nontrivial = bool(mm.max() > 0 and (e.get("sides") or len(j) * len(i) < ny * nx))
    obs.count("all_columns_across_antimeridian", len(i) == nx)
    obs.signature = gen.signature(e, len(j), len(i), e["wrap"], e["reg"])
    obs.sample = gen.brief(e, domain=box, cells=[len(j), len(i)], region=e["reg"])
