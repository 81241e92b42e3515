"""C15: preprocessing splits the whole moisture column into exactly two layers."""

import numpy as np

from wamcheck import raw

RULE = (
    "experiments with synthetic raw input of three sources (ERA5 model and pressure levels, ARCO-ERA5, CMIP) run through the preprocess command; "
    "for every preprocessed record the sum of both storages is compared with the given total column water, or with the column integral computed "
    "independently cell by cell, and each layer's storage and both its fluxes with an independent integration. Non-trivial: at least one record "
    "with moisture on both sides of the boundary."
)
MINIMUM = {"preprocessing_runs": 40, "runs_cmip": 6, "runs_arco": 6, "records": 80, "cells_compared": 8000, "cells_two_layers": 400, "cells_only_upper": 4, "cells_only_lower": 2, "columns_given_total": 300, "columns_own_total": 300, "surface_on_level": 50, "surface_below_lowest_level": 100, "levels_all": 6, "levels_unsorted": 3, "model_level_records": 20, "boundary_is_a_level": 6}
ASSUMPTIONS = [
    "pressure level columns are integrated with the midpoint rule between consecutive levels, with zero humidity and the wind of the highest level at zero pressure",
    "where a level lies exactly at the surface pressure, its value or the surface value may be used",
]
warm = raw.warm


def cases(tier, seed):
    n = 72 if tier == "quick" else 900
    rng = np.random.default_rng([seed, 1515])
    out = [raw.random_any(rng, i) for i in range(n)]
    out += [raw.random_pre(rng, level_type="model_levels") for i in range(n // 6)]
    for i, p in enumerate(x for x in out if x["level_type"] == "model_levels"):
        if i % 2 and p["use"] != "all":
            # a boundary that is one of the levels, and has some on both sides
            p["level_layer_boundary"] = int(sorted(p["use"])[len(p["use"]) // 2])
    for i in range(2):
        p = raw.random_pre(rng, level_type="pressure_levels", layout=["old", "new"][i], nreq=1)
        out.append(dict(p, pressure_boundary_factor=1.0, pressure_boundary_offset=0.0, surface_boundary=True))
    return out


def run(p, obs, d):
    surface = p.get("surface_boundary") and raw.integer_levels(p)
    rw, r, _ = raw.run_source(p, d, None if surface else obs)
    if surface and not r.ok:
        if "ValueError" in r.why():
            obs.fail("boundary-at-surface-integer-levels", f"boundary equal to the surface pressure on levels stored as integers: {r.why()}")
        else:
            obs.fail("run-failed", r.why())
    if not r.ok:
        return
    files = raw.read_all(d / "pre")
    two = False
    seen = 0
    obs.count("levels_all", p["use"] == "all")
    if p["level_type"] == "model_levels":
        border = 111 if p["level_layer_boundary"] is None else p["level_layer_boundary"]
        obs.count("boundary_is_a_level", border in (rw.levels if p["use"] == "all" else p["use"]))
    obs.count("levels_unsorted", p["use"] != "all" and sorted(p["use"]) != list(p["use"]) and sorted(p["use"]) != list(p["use"])[::-1])
    for f, x, k in raw.records(rw, p, files):
        want, slack, more = raw.expect(rw, p, k)
        at = raw.locate(f, rw)
        obs.count("records")
        seen += 1
        obs.count("model_level_records", p["level_type"] == "model_levels")
        column = more["column"][at]
        what = f"{p['source']} {p['level_type']} {f.name} record {x}"
        if p["tcw"]:
            total = rw.data["tcw"][k].astype("f8")[at]
            obs.count("columns_given_total", total.size)
        else:
            total = column
            obs.count("columns_own_total", total.size)
        both = f.v["s_upper"][x] + f.v["s_lower"][x]
        sl = (slack["s_upper"] + slack["s_lower"])[at] if not p["tcw"] else 0
        bad = ~(np.abs(both - total) <= 2e-5 * total + 1.01 * sl)
        if bad.any():
            j, i = np.argwhere(bad)[0]
            obs.fail("layers-do-not-sum-to-column", f"{what}: {bad.sum()} cells, first at {f.lat[j]} N {f.lon[i]} E: {both[j, i]:.7g} in both layers, {total[j, i]:.7g} in the column")
        for n in raw.PRE_VARS[:6]:
            w, g = want[n][at], f.v[n][x]
            tol = raw.tolerance(n, w, column) + 1.01 * slack[n][at]
            bad = ~(np.abs(g - w) <= tol)
            if not bad.any() and raw.integer_levels(p):
                exact = tol - 1.01 * more["coarse"][n][at]
                if (np.abs(g - w) > exact).any():
                    obs.fail("integer-levels-truncated-pressure", f"{what}: {n} differs by as much as pressures truncated to whole Pascal explain")
            obs.count("cells_compared", w.size)
            if bad.any():
                j, i = np.argwhere(bad)[0]
                kind = "storage" if n[0] == "s" else "flux"
                obs.fail("boundary-at-surface-integer-levels" if surface else f"layer-{kind}-wrong", f"{what}: {n} in {bad.sum()} cells, first at {f.lat[j]} N {f.lon[i]} E: {g[j, i]:.7g}, expected {w[j, i]:.7g} (+-{tol[j, i]:.2g})")
        u, lo = want["s_upper"] > 1e-6, want["s_lower"] > 1e-6
        obs.count("cells_two_layers", (u & lo).sum())
        obs.count("cells_only_upper", (u & ~lo).sum())
        obs.count("cells_only_lower", (~u & lo).sum())
        two |= bool((u & lo).any())
        if p["level_type"] == "pressure_levels":
            obs.count("surface_on_level", more["ties"])
            use = np.array(rw.levels if p["use"] == "all" else p["use"]) * (1 if p["source"] == "cmip" else 100)
            obs.count("surface_below_lowest_level", (rw.data["sp"][k] > use.max()).sum())
    obs.expect(seen > 0, "no-record", f"{p['source']}: no preprocessed record for {len(raw.requested(p))} requested times")
    obs.nontrivial = two
    obs.signature = raw.signature(p)
    obs.sample = raw.brief(p)
