"""C06: attribution is additive over sources and proportional to tagging strength."""

import numpy as np

from wamcheck import gen, runner, world

RULE = (
    "each case runs a group of experiments on one mild world with output after every step: disjoint regions A, B and A+B; "
    "disjoint tagging periods and their union; a fractional mask and a multiple of it; nothing tagged. A group is judged only if "
    "every run of it is observed free of caps (no gains, no interior loss, tracked moisture below 0.9 of the layer at every step). "
    "Non-trivial: both parts contribute tracked moisture and overlap in at least one cell."
)
MINIMUM = {"groups_regions": 8, "groups_periods": 8, "groups_scaled": 8, "groups_empty": 8, "overlapping_cells": 200, "groups_capfree": 20}
ASSUMPTIONS = ["outputs are single precision and the storages are kept in single precision between steps: relative tolerance 1e-5 of the largest value"]
warm = gen.warm


def cases(tier, seed):
    def style(r):
        return ["mild", "mild", "white", "wind"][r.integers(4)]

    out = gen.experiments("C06", tier, seed, 48, 360, nsteps=6, style=style, dtype="f8", courant=0.4, region="fmask", tagwin="all",
                          dt=lambda r: [600, 900, 1800][r.integers(3)], freq=3600, offset=0, tail=0)
    for i, e in enumerate(out):
        e["out"] = e["dt"]
        e["group"] = ["regions", "periods", "scaled", "empty"][(i // 3) % 4]
    return out


def run(e, obs, d):
    rng = np.random.default_rng([e["seed"], 6])
    w = world.make_world(world.world_params(e))
    ny, nx = len(w.lat), len(w.lon)
    m = np.clip(rng.uniform(-0.3, 1.0, (ny, nx)), 0, 1)
    full = dict(e, tag=[e["start"] - 3600, e["end"] + 3600])
    names = runner.all_vars(e["direction"])
    obs.signature = gen.signature(e, e["group"])
    obs.sample = gen.brief(e, group=e["group"])

    def go(name, exp, mask):
        return runner.run_exp(obs, exp, d / name, w, mask)[3]

    union = go("union", full, m)
    if not union:
        return
    bound = np.ones((ny, nx), bool)
    bound[1:-1, (slice(None) if e["periodic"] else slice(1, -1))] = False

    def capfree(*runs):
        for o in [o for r in runs for o in r]:
            S = w.at(o.sec, ["s_upper", "s_lower"])
            free = o.v["gains"].max() == 0 and (o.v["losses"] * ~bound).max() == 0
            free &= bool((o.v["s_track_upper_restart"] < 0.9 * S["s_upper"]).all() and (o.v["s_track_lower_restart"] < 0.9 * S["s_lower"]).all())
            if not free:
                obs.count("groups_skipped_cap_active")
                obs.nontrivial = False
                return False
        obs.count("groups_capfree")
        return True

    scales = {n: max(float(np.abs(o.v[n]).max()) for o in union) for n in names}
    big = max(scales.values())

    def same(key, parts, factors):
        for k, o in enumerate(union):
            for n in names:
                s = sum(f * p[k].v[n] for f, p in zip(factors, parts))
                runner.compare_field(obs, key, s, o.v[n], rtol=1e-5, atol_rel=1e-5, scale=max(scales[n], 0.02 * big), what=f"{e['group']} {o.name} {n}", count="fields_compared")

    def sametimes(*parts):
        for p in parts:
            if [o.sec for o in p] != [o.sec for o in union]:
                obs.fail("outputs-differ", f"{[o.name for o in p]} against {[o.name for o in union]}")
                return False
        return True

    if e["group"] == "regions":
        pick = rng.uniform(size=(ny, nx)) < 0.5
        a, b = go("a", full, m * pick), go("b", full, m * ~pick)
        if sametimes(a, b) and capfree(union, a, b):
            same("not-additive-over-regions", [a, b], [1, 1])
            obs.count("overlapping_cells", ((a[-1].layer_sum() > 0) & (b[-1].layer_sum() > 0)).sum())
            obs.count("groups_regions")
    elif e["group"] == "periods":
        k = int(rng.integers(1, e["nsteps"] - 1))
        # steps start at start + i*dt (forward) or end - i*dt (backward)
        if e["direction"] == "forward":
            cut = e["start"] + k * e["dt"]
            first, second = [e["start"] - 60, cut], [cut + 60, e["end"] + 3600]
        else:
            cut = e["end"] - k * e["dt"]
            first, second = [cut, e["end"]], [e["start"] - 3600, cut - 60]
        a = go("a", dict(e, tag=first), m)
        b = go("b", dict(e, tag=second), m)
        if sametimes(a, b) and capfree(union, a, b):
            same("not-additive-over-periods", [a, b], [1, 1])
            obs.count("overlapping_cells", ((a[-1].layer_sum() > 0) & (b[-1].layer_sum() > 0)).sum())
            obs.count("groups_periods")
    elif e["group"] == "scaled":
        f = float(rng.choice([0.5, 0.1, 1e-3, 0.37]))
        a = go("a", full, m * f)
        if sametimes(a) and capfree(union, a):
            same("not-proportional", [a], [1 / f])
            obs.count("groups_scaled")
    else:
        tags = [("mask", full, m * 0), ("before", dict(e, tag=[e["start"] - 7200, e["start"] - 3600]), m), ("after", dict(e, tag=[e["end"] + 60, e["end"] + 7200]), m)]
        for name, exp, mask in tags:
            a = go(name, exp, mask)
            for o in a:
                for n in names:
                    obs.count("empty_fields")
                    obs.expect(bool((o.v[n] == 0).all()), "something-from-nothing", f"{name}: {o.name} {n} reaches {np.nanmax(np.abs(o.v[n]))} although nothing is tagged")
        obs.count("groups_empty")
