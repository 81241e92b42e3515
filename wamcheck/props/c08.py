"""C08: forcing is the linear time interpolation of the right input records."""

import json

import numpy as np

from wamcheck import gen, ref, runner, world

RULE = (
    "worlds in which every record of every variable is independently random and the tagged source is so large that the tracked moisture "
    "fills both layers in every interior cell. Then each output of one step identifies its forcing: tracked storages are the layer "
    "moisture at the end of the step, tracked removal is the surface flux at mid-step with the layer split at the start of the step, "
    "tagged moisture is the source flux at mid-step, and the boundary loss is the moisture flux at mid-step. These are compared with "
    "the interpolation of the two bracketing records. Non-trivial: at least one step needs interpolation."
)
MINIMUM = {"steps": 300, "states_identified": 8000, "removal_identified": 4000, "sources_identified": 5000, "boundary_fluxes_identified": 2000, "midpoints_between_records": 100,
           "midpoints_on_records": 20, "steps_across_files": 30, "steps_across_months": 10, "steps_across_years": 4, "backward_steps": 100, "forward_steps": 100}
ASSUMPTIONS = ["records are at multiples of the input frequency counted from midnight", "outputs are single precision: relative tolerance 3e-5"]
warm = gen.warm


def cases(tier, seed):
    n = 66 if tier == "quick" else 540
    rng = np.random.default_rng([seed, 88])
    out = []
    dates = [(12, 31), (12, 31), (12, 31), (2, 28), (2, 29), (6, 30), (3, 1), (9, 30), (1, 1)]
    for i in range(n):
        freq = int(rng.choice([900, 1800, 3600, 3600, 10800, 21600, 43200, 86400]))
        steps = [s for s in (300, 600, 900, 1200, 1800, 2400, 3600, 5400, 7200, 10800, 14400) if freq / 16 <= s <= 3 * freq]
        dt = int(rng.choice(steps))
        cal = world.CALENDARS[i % 9]
        year, md = int(rng.choice([2019, 2020, 2023, 2000])), dates[int(rng.integers(len(dates)))]
        if md == (2, 29) and (cal in ("noleap", "365_day") or (cal not in ("360_day", "all_leap", "366_day") and year % 4)):
            md = (2, 28)
        if md == (12, 31) and cal == "360_day":
            md = (12, 30)
        e = world.random_exp(
            rng, direction=["forward", "backward"][(i // 9) % 2], periodic=bool(rng.uniform() < 0.3), cal=cal, freq=freq, dt=dt, nsteps=int(rng.choice([5, 7, 9])),
            style="white", year=year, monthday=md, region="mask", kvf=0.0, tail=0, dtype="f8", tagwin="all",
            offset=int(rng.choice([0, 0, 600, 1800, 420, 60, dt // 120 * 60])),
        )
        # cross midnight in the middle of the run
        if rng.uniform() < 0.7:
            mid = (e["start"] // 86400) * 86400 + 86400
            shift = mid - int(e["nsteps"] // 2) * dt + int(rng.choice([0, 0, 60, -60, dt // 120 * 60])) - e["start"]
            e["start"] += shift
            e["end"] += shift
            e["tag"] = [x + shift for x in e["tag"]]
        # output after every step: every step time has to be a multiple of the output frequency
        base = e["start"] if e["direction"] == "forward" else e["end"]
        g = int(np.gcd.reduce([dt, base % 86400, 86400]))
        e["out"] = g
        out.append(e)
    return out


def saturated(e):
    """A world in which tagged moisture fills the column within one step."""
    w = world.make_world(world.world_params(e))
    rng = np.random.default_rng([e["seed"], 8])
    sh = w.data["evap"].shape
    dt = e["dt"]
    u = lambda lo, hi: rng.uniform(lo, hi, sh)
    d = w.data
    d["s_upper"], d["s_lower"] = u(5, 15), u(9, 27)
    big, small = u(300, 900) / dt, u(0.2, 2.0) / dt
    fwd = e["direction"] == "forward"
    d["evap"], d["precip"] = (big, small) if fwd else (small, big)
    a = w.area[:, None]
    ly, lx = w.dlat * world.DEG, np.maximum(world.face_x(w.lat, w.dlat, w.dlon), 1.0)[:, None]
    for lev in ("upper", "lower"):
        d["fx_" + lev] = u(0.2, 1) * rng.choice([-1, 1], sh[1:]) * 0.06 * 5 * a / (ly * dt)
        d["fy_" + lev] = u(0.2, 1) * rng.choice([-1, 1], sh[1:]) * 0.06 * 5 * a / (lx * dt)
    return w


def run(e, obs, d):
    w = saturated(e)
    w.write(d / "pre")
    ny, nx = len(w.lat), len(w.lon)
    inner = ~ref.edge((ny, nx), e["periodic"])
    m = inner.astype("f8")
    world.write_mask(d / "mask.nc", w, m)
    cfg = d / "config.yaml"
    cfg.write_text(json.dumps(world.config_dict(e, d, str(d / "mask.nc"))))
    r, outs = runner.track(obs, cfg, e)
    if not outs:
        return
    steps, due = ref.schedule(e)
    have = {o.sec: o for o in outs}
    fwd = e["direction"] == "forward"
    dt = e["dt"]
    a = w.area[:, None]
    ly, lx = w.dlat * world.DEG, world.face_x(w.lat, w.dlat, w.dlon)[:, None]
    between = 0
    day = lambda s: world.date_of(s, e["cal"]).timetuple()[:3]
    for k, t0, t1 in steps:
        now = t1 if fwd else t0
        o = have.get(now)
        if o is None or (k and (t0 if fwd else t1) not in have):
            obs.fail("outputs-differ", f"no output at {world.iso(now, e['cal'])}: {[x.name for x in outs]}")
            return
        th = (t0 + t1) / 2
        F = w.at(th, ["fx_upper", "fy_upper", "fx_lower", "fy_lower", "evap", "precip"])
        start, end = w.at(t0 if fwd else t1, world.STATE_VARS), w.at(now, world.STATE_VARS)
        where = f"{o.name} (step {world.iso(t0, e['cal'])} to {world.iso(t1, e['cal'])}, input every {e['freq']} s)"
        obs.count("steps")
        obs.count(e["direction"] + "_steps")
        on = (th - w.t[0]) % e["freq"] == 0
        obs.count("midpoints_on_records" if on else "midpoints_between_records")
        between += not on
        obs.count("steps_across_files", day(t0) != day(t1))
        obs.count("steps_across_months", day(t0)[1] != day(t1)[1])
        obs.count("steps_across_years", day(t0)[0] != day(t1)[0])

        def check(key, got, want, sel):
            ok = np.abs(got - want) <= 3e-5 * np.abs(want) + 1e-6
            if not ok[sel].all():
                j, i = np.argwhere(sel & ~ok)[0]
                obs.fail(key, f"{where}: row {j} column {i}: {got[j, i]:.8g}, interpolated records give {want[j, i]:.8g}", exp=gen.brief(e))
            obs.count({"state": "states", "source": "sources", "removal": "removal", "boundary": "boundary_fluxes"}[key.split("-")[0]] + "_identified", sel.sum())

        for lev in ("upper", "lower"):
            check("state-at-end-of-step", o.v[f"s_track_{lev}_restart"], end["s_" + lev], inner)
        src = F["evap"] if fwd else F["precip"]
        check("source-at-mid-step", o.v["tagged_evap" if fwd else "tagged_precip"], src * dt, inner)
        full = (inner & (k > 0)).astype("f8")
        if k:
            if fwd:
                tot = start["s_upper"] + start["s_lower"]
                for lev in ("upper", "lower"):
                    check("removal-at-mid-step", o.v["p_track_" + lev], F["precip"] * dt * start["s_" + lev] / tot, inner)
            else:
                check("removal-at-mid-step", o.v["e_track"], F["evap"] * dt, inner)
        inflow = 0
        for lev in ("upper", "lower"):
            s = 1 if fwd else -1
            X, Y = ref.faces(s * F["fx_" + lev] * ly, s * F["fy_" + lev] * lx, e["periodic"])
            inflow = inflow + ref.transport(full, X, Y) * dt / a
        check("boundary-flux-at-mid-step", o.v["losses"], inflow, ~inner)
    obs.nontrivial = between > 0
    obs.signature = gen.signature(e, e["start"] % e["freq"])
    obs.sample = gen.brief(e, start=world.iso(e["start"], e["cal"]), between=between)
