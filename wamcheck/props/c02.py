"""C02: results are finite, non-negative and bounded by the moisture that is there."""

import numpy as np

from wamcheck import gen, ref, runner, world

RULE = (
    "random and extreme experiments (zero fluxes, near-empty and emptying layers, precipitation and evaporation of many "
    "times the storage, steps far beyond the stability limit); every value of every output file is compared with zero "
    "and with the independently interpolated forcing. Non-trivial: moisture was tagged."
)
MINIMUM = {"values_checked": 50000, "values_at_layer_cap": 100, "zero_flux_cells": 200, "drained_cells": 50, "boundary_values": 2000,
           "ends_checked": 2000, "extreme_courant_runs": 8, "trace_runs": 8}
ASSUMPTIONS = ["bounds are compared with a relative slack of 2e-6 (storage) and 1e-5 (accumulations) for single precision"]
warm = gen.warm


def cases(tier, seed):
    out = gen.experiments("C02", tier, seed, 96, 700, tagwin="all")
    faint = gen.experiments("C02f", tier, seed, 16, 120, tagwin="all", region="fmask", styles=["storm", "dry", "jumpy", "white"])
    for i, e in enumerate(faint):
        e["region"]["scale"] = [1e-5, 1e-7, 1e-9, 1e-12][i % 4]  # a trace of moisture only
    for i, e in enumerate(out):
        k = i % 12
        if k == 0:
            e["courant"] = 0.0  # no horizontal flux anywhere
        elif k == 1:
            e["courant"] = 60.0
        elif k in (2, 3):
            e["region"] = {"kind": "bigbox", "seed": i}
            e["style"] = "deluge" if k == 2 else "jumpy"
        elif k == 4:
            e["style"] = "dry"
            e["region"] = {"kind": "bigbox", "seed": i}
        e["null_surface"] = k == 5
    return out + faint


def run(e, obs, d):
    w = world.make_world(world.world_params(e))
    if e.get("null_surface"):
        w.data["precip" if e["direction"] == "forward" else "evap"][:] = 0
    w, weights, r, outs = runner.run_exp(obs, e, d, w)
    if not outs:
        return
    per = e["periodic"]
    bound = ref.edge((len(w.lat), len(w.lon)), per)
    steps, _ = ref.schedule(e)
    fwd = e["direction"] == "forward"
    prev = e["start"] if fwd else e["end"]
    obs.count("extreme_courant_runs", e["courant"] > 50)
    tagged = 0.0
    for o in outs:
        for n, a in o.v.items():
            obs.count("values_checked", a.size)
            obs.expect(np.isfinite(a).all(), f"not-finite", f"{o.name} {n}: {(~np.isfinite(a)).sum()} of {a.size} values are not finite", exp=gen.brief(e))
            obs.expect(not (a < 0).any(), f"negative", f"{o.name} {n}: minimum {np.nanmin(a) if not np.isnan(a).all() else 'nan'}", exp=gen.brief(e))
        S = w.at(o.sec, ["s_upper", "s_lower"])
        for lev in ("upper", "lower"):
            a, s = o.v[f"s_track_{lev}_restart"], S["s_" + lev]
            over = a > s * (1 + 2e-6) + 1e-12
            obs.count("values_at_layer_cap", (a > s * (1 - 1e-5)).sum())
            obs.expect(not over.any(), "above-layer-moisture", f"{o.name} s_track_{lev}_restart: {over.sum()} cells hold more tracked than total moisture, by up to {(a - s).max():.4g}", exp=gen.brief(e))
            obs.count("boundary_values", bound.sum())
            obs.expect(not (a[bound] != 0).any(), "moisture-on-open-boundary", f"{o.name} s_track_{lev}_restart: largest boundary value {np.abs(a[bound]).max():.4g}", exp=gen.brief(e))
        lo, hi = min(prev, o.sec), max(prev, o.sec)
        total = np.zeros((len(w.lat), len(w.lon)))
        var = "precip" if fwd else "evap"
        for _, t0, t1 in steps:
            if lo <= t0 and t1 <= hi:
                F = w.at((t0 + t1) / 2, [var] + world.FLUX_VARS[:4])
                total += F[var] * e["dt"]
                obs.count("zero_flux_cells", ((F["fx_upper"] == 0) & (F["fy_upper"] == 0)).sum())
        end = o.v["p_track_upper"] + o.v["p_track_lower"] if fwd else o.v["e_track"]
        over = end > total * (1 + 1e-5) + 1e-12
        obs.count("ends_checked", end.size)
        obs.count("drained_cells", (o.v["gains"] > 0).sum())
        obs.expect(not over.any(), "tracked-exceeds-total", f"{o.name}: tracked {var} exceeds total {var} in {over.sum()} cells, by up to {(end - total).max():.4g}", exp=gen.brief(e))
        tagged += float((o.v["tagged_evap"] if fwd else o.v["tagged_precip"]).sum())
        prev = o.sec
    obs.count("trace_runs", e["region"].get("scale", 1) < 1 and tagged > 0)
    obs.nontrivial = tagged > 0
    obs.signature = gen.signature(e, e["courant"])
    obs.sample = gen.brief(e, files=len(outs), courant=e["courant"])
