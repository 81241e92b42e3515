"""C16: surface water input is conserved and non-negative in every data source."""

import numpy as np

from wamcheck import raw

RULE = (
    "experiments with synthetic surface fluxes of either sign in three sources (ERA5, ARCO-ERA5 accumulations; CMIP rates every three hours) run "
    "through the preprocess command; in every cell of every record signs, balance (precipitation minus evaporation equals the net surface flux of "
    "the input over that record's interval), split and units are checked. Non-trivial: condensation, evaporation and negative precipitation occur."
)
MINIMUM = {"preprocessing_runs": 40, "runs_cmip": 12, "runs_arco": 12, "runs_era5": 15, "cells_checked": 2000, "cells_condensation": 300, "cells_evaporation": 900, "cells_negative_precipitation": 120, "input_frequencies": 40, "cells_mixed_halves": 60}
warm = raw.warm


def cases(tier, seed):
    n = 72 if tier == "quick" else 900
    rng = np.random.default_rng([seed, 1616])
    out = []
    for i in range(n):
        if i % 3 == 0:
            p = raw.random_cmip(rng)
        elif i % 3 == 1:
            p = raw.random_arco(rng)
        else:
            p = raw.random_pre(rng, level_type=["model_levels", "pressure_levels"][i % 2], freq=[1800, 3600, 10800, 21600, 43200, 86400, 5400][(i // 3) % 7])
        out.append(p)
    return out


def run(p, obs, d):
    rw, r, _ = raw.run_source(p, d, obs)
    if not r.ok:
        return
    files = raw.read_all(d / "pre")
    obs.count("input_frequencies")
    for f in files:
        for n in ("precip", "evap"):
            u = f.units[n]
            obs.expect(u == "kg m-2 s-1", "units", f"{p['source']}: {n} has units {u}")
    seen = np.zeros(3, bool)
    k0 = 0
    for f, x, k in raw.records(rw, p, files):
        k0 += 1
        if p["source"] == "cmip":
            i = 2 * k
            pr = [rw.three["pr"][i - 2].astype("f8"), rw.three["pr"][i - 1].astype("f8")]
            ev = [rw.three["hfls"][i - 2].astype("f8") / raw.LATENT, rw.three["hfls"][i - 1].astype("f8") / raw.LATENT]
            obs.count("cells_mixed_halves", (np.sign(ev[0]) != np.sign(ev[1])).sum())
            P, E = (pr[0] + pr[1]) / 2, (ev[0] + ev[1]) / 2
        else:
            P, E = rw.data["tp"][k].astype("f8") * 1000 / p["freq"], -rw.data["e"][k].astype("f8") * 1000 / p["freq"]
        at = raw.locate(f, rw)
        P, E = P[at], E[at]
        p_, e_ = f.v["precip"][x], f.v["evap"][x]
        what = f"{p['source']} {f.name} record {x}"
        obs.count("cells_checked", P.size)
        obs.count("cells_condensation", (E < 0).sum())
        obs.count("cells_evaporation", (E > 0).sum())
        obs.count("cells_negative_precipitation", (P < 0).sum())
        seen |= [(E < 0).any(), (E > 0).any(), (P < 0).any()]

        def check(key, bad, text):
            if bad.any():
                j, i = np.argwhere(bad)[0]
                obs.fail(key, f"{what}: {bad.sum()} cells, first {text(j, i)}; input precipitation {P[j, i]:.6g}, evaporation {E[j, i]:.6g} kg m-2 s-1")

        check("negative", ~(p_ >= 0) | ~(e_ >= 0), lambda j, i: f"precip {p_[j, i]:.6g} evap {e_[j, i]:.6g}")
        net = np.maximum(P, 0) - E
        tol = 1e-5 * (np.abs(P) + np.abs(E)) + 1e-13
        check("balance", ~(np.abs(p_ - e_ - net) <= tol), lambda j, i: f"precip-evap {p_[j, i] - e_[j, i]:.6g}, expected {net[j, i]:.6g}")
        wp = np.maximum(P, 0) + np.maximum(-E, 0)
        check("split", ~(np.abs(p_ - wp) <= tol), lambda j, i: f"precip {p_[j, i]:.6g}, expected {wp[j, i]:.6g}")
    obs.expect(k0 > 0, "no-record", f"{p['source']}: no preprocessed record")
    obs.nontrivial = bool(seen.all())
    obs.signature = raw.signature(p)
    obs.sample = raw.brief(p)
