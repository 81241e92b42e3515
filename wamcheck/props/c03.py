"""C03: every timestep follows the documented two-layer transport equations."""

import numpy as np

from wamcheck import gen, ref, runner, world

RULE = (
    "random experiments run through the command line, most with output after every step; every output field is "
    "compared cell by cell with an independent executable model of the documented equations. Non-trivial: tracked "
    "moisture present in both layers."
)
MINIMUM = {"fields_compared": 900, "steps": 300, "limited_faces": 200, "vertical_capped_cells": 50, "overshoot_cells": 5, "gain_cells": 10,
           "over_lower_b_time": 20, "over_upper_b_time": 20, "over_lower_f_time": 20, "over_upper_f_time": 20,
           "loss_cells": 3, "periodic_runs": 10, "nonsquare_runs": 20, "seam_crossed_runs": 3}
ASSUMPTIONS = ["fields are compared with relative tolerance 3e-5 plus 3e-6 of the largest moisture content, because outputs are single precision"]

warm = gen.warm


def cases(tier, seed):
    out = gen.experiments("C03", tier, seed, 104, 800)
    # nearly all moisture is tracked and the layers shrink and swell at random, so that they overflow
    out += gen.experiments("C03f", tier, seed, 16, 120, styles=["flood"], region="bigbox", tagwin="all", tail=0, courant=1.0,
                           kvf=lambda rng: float(rng.choice([0.0, 1.0, 3.0])))
    for i, e in enumerate(out):
        if i % 4:
            # output every step where the step divides the day
            if 86400 % e["dt"] == 0 and (e["start"] % e["dt"]) == 0:
                e["out"] = e["dt"]
    return out


def worst(outs, expected, w, dtype):
    """Largest normalised difference over all fields, or a structural difference."""
    if [o.sec for o in outs] != [x["sec"] for x in expected]:
        return None, "times"
    scale = max(float(w.data["s_upper"].max()), float(w.data["s_lower"].max()))
    bad = (0.0, None)
    for o, x in zip(outs, expected):
        big = max(float(np.abs(a).max()) for a in x["v"].values())
        for n, a in x["v"].items():
            b = o.v[n]
            tol = 3e-5 * np.abs(a) + 3e-6 * min(scale, 10 * big) + 1e-9
            if dtype == "f4":
                tol = tol * 4
            q = np.abs(b - a) / tol
            m = float(np.nan_to_num(q, nan=np.inf).max())
            if m > bad[0]:
                j, i = np.unravel_index(np.argmax(np.nan_to_num(q, nan=np.inf)), q.shape)
                bad = (m, f"{o.name} {n} at row {j} column {i}: {b[j, i]:.8g}, equations give {a[j, i]:.8g}")
    return bad


def run(e, obs, d):
    w, weights, cfg = world.setup(e, d)
    r, outs = runner.track(obs, cfg, e)
    if not outs:
        return
    expected, st = ref.simulate(w, e, weights)
    m, what = worst(outs, expected, w, e["dtype"])
    if what == "times":
        # which outputs exist is another property; compare those both have
        by = {x["sec"]: x for x in expected}
        obs.count("schedule_differs")
        obs.fail("schedule", f"outputs at {[o.name for o in outs]}, expected seconds {sorted(by)}", exp=gen.brief(e))
        return
    obs.count("fields_compared", sum(len(x["v"]) for x in expected))
    obs.count("steps", st["steps"])
    obs.count("limited_faces", st["limited"])
    obs.count("vertical_capped_cells", st["vcapped"])
    obs.count("overshoot_cells", st["over"])
    obs.count("both_layers_over", st["both_over"])
    for k, v in st.items():
        if k.startswith("over_"):
            obs.count(k, v)
    obs.count("gain_cells", st["gain"])
    obs.count("loss_cells", st["loss"])
    obs.count("periodic_runs", e["periodic"])
    obs.count("nonsquare_runs", abs(e["dlat"] - e["dlon"]) > 1e-9)
    last = expected[-1]["v"]["s_track_lower_restart"]
    obs.count("seam_crossed_runs", e["periodic"] and bool(last[1:-1, 0].max() > 0 and last[1:-1, -1].max() > 0))
    obs.nontrivial = bool(last.max() > 0 and expected[-1]["v"]["s_track_upper_restart"].max() > 0)
    obs.signature = gen.signature(e)
    obs.sample = gen.brief(e, files=len(outs), worst=m)
    if m > 1:
        alt, _ = ref.simulate(w, e, weights, surface="per_area")
        m2, what2 = worst(outs, alt, w, e["dtype"])
        if m2 is not None and m2 <= 1:
            obs.count("explained_by_surface_terms")
            obs.fail("vertical-flux-omits-surface-exchange", what, ratio=m)
        else:
            obs.fail("equations-differ", f"{what2} (difference {m2:.3g} times tolerance)", exp=gen.brief(e))
