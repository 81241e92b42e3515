"""C07: exactly the configured region and period is tagged, with the exact amount."""

import json
import os

import numpy as np

from wamcheck import gen, ref, runner, world

RULE = (
    "random experiments with a bounding box (edges on or between cell centres, wrapping across the antimeridian, one row or column), "
    "a (fractional) mask file, or a mask file with a time axis; tagging period none, all, part, or with ends exactly on step times. "
    "Every tagged field of every output is compared with mask x flux x step over the steps that start in the period. Mask files also come as integers, in single precision, with dimensions in another order, or on other cells than the data (other order or longitudes, shifted, bigger); these are refused or used for the cells they state. Non-trivial: "
    "some but not all cells, or some but not all steps, are tagged."
)
MINIMUM = {"fields_compared": 200, "box_cases": 12, "wrapping_boxes": 4, "edges_on_centres": 12, "mask_cases": 6, "time_mask_cases": 8,
           "steps_tagged": 150, "steps_not_tagged": 60, "period_end_on_step": 10, "time_fields_used": 16, "mask_forms": 25}
ASSUMPTIONS = ["a step belongs to the tagging period when the time from which it starts (in tracking direction) lies in it; the same time selects the field of a time-dependent mask; ties between two fields are avoided"]
warm = gen.warm

KINDS = ["centre", "wrap", "mask", "time", "centre", "time", "fmask", "line"]


def cases(tier, seed):
    out = gen.experiments("C07", tier, seed, 72, 560, styles=["deluge", "mild", "storm", "white"], region="mask")
    rng = np.random.default_rng([seed, 707])
    for i, e in enumerate(out):
        e["kind"] = KINDS[i % len(KINDS)]
        if rng.uniform() < 0.5 and 86400 % e["dt"] == 0:
            e["out"] = e["dt"]
        # tagging periods with ends exactly on the start of steps, one step, or none
        n, dt = e["nsteps"], e["dt"]
        z = rng.uniform()
        base = e["start"] if e["direction"] == "forward" else e["end"] - n * dt + dt
        if z < 0.45:
            a = int(rng.integers(0, n))
            b = int(rng.integers(a, n))
            e["tag"] = [base + a * dt, base + b * dt]
        elif z < 0.55:
            e["tag"] = [base + 60, base + 60 + (dt - 120 if dt > 180 else 0)]
        elif z < 0.65:
            e["tag"] = [e["start"] - 86400 * 40, e["start"] + dt]
        # the file holds minutes
        e["tag"] = [x // 60 * 60 for x in e["tag"]]
    for i in range(27 if tier == "quick" else 180):
        # mask files in other forms, among them ones on other cells than the data
        more = world.random_exp(rng, style="mild", region="mask", tagwin="all", nx=6, ny=[6, 6, 5][i // 9 % 3], periodic=False, direction=["forward", "backward"][i % 2], nsteps=4)
        out.append(dict(more, kind=["fmask", "time", "mask"][i // 9 % 3 if FORMS[i % 9] != "timelast" else 1], form=FORMS[i % 9]))
    return out


FORMS = ["integers", "single", "transposed", "timelast", "southup", "0-360", "shifted", "bigger", "single-coordinates"]
SAFE = ("integers", "single")


def reform(path, form, kind):
    """The same mask in another form; for the last ones the cells are not those of the data one by one."""
    import xarray as xr

    with xr.open_dataset(path, decode_times=False) as ds:
        ds = ds.load()
    v = ds["tagging_region"]
    if form == "integers" and kind == "mask":
        ds["tagging_region"] = v.astype("i1")
    elif form == "single":
        ds["tagging_region"] = v.astype("f4")
    elif form == "transposed":
        ds["tagging_region"] = v.transpose(..., "longitude", "latitude")
    elif form == "timelast":
        ds["tagging_region"] = v.transpose("latitude", "longitude", "time")
    elif form == "southup":
        ds = ds.isel(latitude=slice(None, None, -1))
    elif form == "0-360":
        ds = ds.assign_coords(longitude=ds.longitude % 360).sortby("longitude")
    elif form == "shifted":
        ds = ds.assign_coords(longitude=ds.longitude + 2 * float(ds.longitude[1] - ds.longitude[0]))
    elif form == "bigger":
        ds = ds.pad(latitude=(1, 0), mode="reflect", reflect_type="odd").pad(longitude=(0, 1), mode="reflect", reflect_type="odd")
    elif form == "single-coordinates":
        ds = ds.assign_coords(longitude=(ds.longitude + 1e-7).astype("f4"))
    ds.to_netcdf(str(path) + ".new")
    os.replace(str(path) + ".new", path)


def box(e, w, rng):
    ny, nx = len(w.lat), len(w.lon)
    j0, j1 = sorted(rng.integers(0, ny, 2))
    i0, i1 = sorted(rng.integers(0, nx, 2))
    if e["kind"] == "line":
        if rng.uniform() < 0.5:
            j1 = j0
        else:
            i1 = i0
    off = lambda: float(rng.choice([0, 0, 0.3, -0.3, 0.5]))
    north, south = w.lat[j0] + off() * w.dlat, w.lat[j1] - off() * w.dlat
    west, east = w.lon[i0] - off() * w.dlon, w.lon[i1] + off() * w.dlon
    if e["kind"] == "wrap":
        # west > east: everything except a gap
        west, east = max(west, east) + 0.3 * w.dlon, min(west, east)
        if rng.uniform() < 0.5:
            west = w.lon[i1]
        if west <= east:
            west, east = w.lon[min(i0 + 1, nx - 1)], w.lon[max(0, i0 - 1)]
    north, south = min(80.0, north), max(-80.0, south)
    if south >= north:
        south, north = (south - 0.1 * w.dlat, north + 0.1 * w.dlat)
    if south >= north or south < -80 or north > 80:
        south, north = -10.0, 10.0
    west, east = [min(180.0, max(-180.0, x)) for x in (west, east)]
    return [float(x) for x in (west, south, east, north)]


def run(e, obs, d):
    rng = np.random.default_rng([e["seed"], 7])
    w = world.make_world(world.world_params(e))
    w.write(d / "pre")
    ny, nx = len(w.lat), len(w.lon)
    weights_at = None
    if e["kind"] in ("centre", "wrap", "line"):
        b = box(e, w, rng)
        west, south, east, north = b
        inlat = (w.lat >= south) & (w.lat <= north)
        inlon = (w.lon >= west) & (w.lon <= east) if west <= east else (w.lon >= west) | (w.lon <= east)
        m = (inlat[:, None] & inlon[None, :]).astype("f8")
        region = b
        obs.count("box_cases")
        obs.count("wrapping_boxes", west > east)
        obs.count("edges_on_centres", np.isin([west, east], w.lon).sum() + np.isin([south, north], w.lat).sum())
        weights_at = lambda t: m
    else:
        region = str(d / "mask.nc")
        m = (rng.uniform(size=(ny, nx)) < 0.5).astype("f8")
        if e["kind"] != "mask":
            m = m * rng.uniform(0.02, 1, (ny, nx))
        if e["kind"] == "time":
            k = int(rng.choice([1, 2, 3, 5]))
            t = np.sort(rng.choice(np.arange(-2, e["nsteps"] + 3), k, replace=False)) * e["dt"] + e["start"] + int(rng.choice([0, 60, -120]))
            # no ties: a step midway between two fields could use either
            starts = [t0 if e["direction"] == "forward" else t1 for _, t0, t1 in ref.schedule(e)[0]]
            t = t.astype("i8")
            while len(t) > 1 and any(2 * s == a + b for s in starts for a, b in zip(t[:-1], t[1:])):
                t[rng.integers(len(t))] += 7
                t.sort()
            f = rng.uniform(0, 1, (k, ny, nx)) * (rng.uniform(size=(k, ny, nx)) < 0.6)
            world.write_mask(region, w, f, t)
            used = set()

            def weights_at(s):
                i = int(np.argmin(np.abs(t - s)))
                used.add(i)
                return f[i]

            obs.count("time_mask_cases")
        else:
            world.write_mask(region, w, m)
            weights_at = lambda t: m
            obs.count("mask_cases")
    cfg = d / "config.yaml"
    cfg.write_text(json.dumps(world.config_dict(e, d, region)))
    form = e.get("form")
    if form:
        reform(region, form, e["kind"])
        obs.count("mask_forms")
    r, outs = runner.track(obs, cfg, e, must=not form or form in SAFE)
    if form and form not in SAFE:
        obs.count("forms_refused" if not r.ok else "forms_used")
    if not outs:
        obs.signature = form
        return
    steps, due = ref.schedule(e)
    if [o.sec for o in outs] != [x["sec"] for x in due]:
        obs.fail("outputs-differ", f"{[o.name for o in outs]}")
        return
    fwd = e["direction"] == "forward"
    name, src = ("tagged_evap", "evap") if fwd else ("tagged_precip", "precip")
    acc = np.zeros((ny, nx))
    ends = {x["last"]: i for i, x in enumerate(due)}
    yes = no = 0
    for k, t0, t1 in steps:
        start = t0 if fwd else t1
        if e["tag"][0] <= start <= e["tag"][1]:
            acc = acc + weights_at(start) * w.at((t0 + t1) / 2, [src])[src] * e["dt"]
            yes += 1
        else:
            no += 1
        obs.count("period_end_on_step", start in e["tag"])
        if k in ends:
            o = outs[ends[k]]
            runner.compare_field(obs, f"tagged-amount-{'box' if isinstance(region, list) else 'other-form' if form else e['kind']}", o.v[name], acc, rtol=1e-5, atol_rel=1e-7, what=f"{o.name} {name} region {region if isinstance(region, list) else e['kind']} {form or ''} period {[world.iso(x, e['cal']) for x in e['tag']]}")
            acc = np.zeros((ny, nx))
    obs.count("steps_tagged", yes)
    obs.count("steps_not_tagged", no)
    if e["kind"] == "time":
        obs.count("time_fields_used", len(used))
    obs.nontrivial = bool(yes and (no or (e["kind"] == "time") or 0 < (m > 0).sum() < m.size))
    obs.signature = gen.signature(e, e["kind"])
    obs.sample = gen.brief(e, region=region if isinstance(region, list) else e["kind"], tag=e["tag"])
