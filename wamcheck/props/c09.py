"""C09: a run writes exactly the scheduled, correctly labelled output files."""

import re

import netCDF4
import numpy as np

from wamcheck import gen, ref, runner, world

RULE = (
    "random experiments with every start offset, end offset, timestep and output frequency; the listing of the output folder, and the "
    "name, time, time bounds, coordinates, cell bounds, variables and units of every file are compared with the schedule computed from "
    "the configuration; the tagged amount is compared with the source summed over the steps within the stated time bounds. "
    "Non-trivial: at least two output files."
)
MINIMUM = {"files": 90, "bounds_checked": 90, "partial_last": 8, "unaligned_starts": 12, "intervals_summed": 90, "units_checked": 500, "backward_files": 30, "forward_files": 30, "domain_runs": 8, "odd_frequencies": 8}
ASSUMPTIONS = ["start, end and steps are whole minutes, as file names state minutes", "for output frequencies that do not divide a day only the distance between outputs is judged, not where counting starts"]
warm = gen.warm

OUTS = [600, 900, 1800, 3600, 5400, 7200, 10800, 14400, 21600, 28800, 43200, 86400]


def cases(tier, seed):
    out = gen.experiments("C09", tier, seed, 90, 700, styles=["mild", "white"], region="fmask", tagwin="all", nsteps=lambda r: [3, 7, 10, 14][r.integers(4)], nx=5, ny=5, dtype="f8")
    rng = np.random.default_rng([seed, 99])
    for i, e in enumerate(out):
        ok = [o for o in OUTS if o <= e["dt"] * 6]
        e["out"] = int(rng.choice(ok))
        if i % 3 == 0:
            e["out"] = 86400
            mid = e["start"] // 86400 * 86400 + 86400
            k = int(rng.integers(1, e["nsteps"]))
            shift = (mid - k * e["dt"] if e["direction"] == "forward" else mid + k * e["dt"] - e["end"] + e["start"]) - e["start"]
            for key in ("start", "end"):
                e[key] += shift
            e["tag"] = [x + shift for x in e["tag"]]
    for i in range(5, len(out), 9):
        # a tracking domain, mostly across the antimeridian
        dlon = [30.0, 45.0, 40.0][i % 3]
        out[i].update(nx=int(360 / dlon), dlon=dlon, lon0=[-180.0, -170.0][i % 2], periodic=False, cells=[[-3, 2], [-1, 3], [-4, 1], [1, 5]][i // 9 % 4])
    for k in range(8 if tier == "quick" else 60):
        # output frequencies that do not divide a day
        o, dt = [(172800, 21600), (259200, 43200), (432000, 43200), (18000, 3600), (25200, 3600), (39600, 3600)][k % 6]
        e = world.random_exp(rng, style="mild", region="fmask", tagwin="all", nsteps=int(3.4 * o / dt), dt=dt, freq=21600 if o > 86400 else 10800, nx=5, ny=5, dtype="f8", periodic=False,
                             direction=["forward", "backward"][k // 2 % 2], hour=[0, 12][k % 2], offset=0, tail=0, monthday=[(2, 26), (12, 28), (6, 27), (4, 29)][k % 4])
        out.append(dict(e, out=o, odd=True))
    return out


def run_odd(e, obs, d):
    """Which instants are multiples of such a frequency depends on where counting starts; that they lie one
    frequency apart does not."""
    w, m, r, outs = runner.run_exp(obs, e, d)
    if not outs:
        return
    steps, _ = ref.schedule(e)
    fwd = e["direction"] == "forward"
    src = "evap" if fwd else "precip"
    now = [t1 if fwd else t0 for _, t0, t1 in steps]
    about = f"{world.iso(e['start'], e['cal'])} to {world.iso(e['end'], e['cal'])} every {e['dt']} s, output every {world.freq_str(e['out'])}, {e['direction']}, {e['cal']}"
    outs = outs if fwd else sorted(outs, key=lambda o: -o.sec)
    secs = [o.sec for o in outs]
    want = [t for t in now if (t - secs[0]) % e["out"] == 0 or t == now[-1]]
    obs.count("odd_frequencies")
    obs.expect(len(secs) > 1 and secs == want, "odd-frequency-schedule", f"{about}: outputs {[world.iso(s, e['cal']) for s in secs]}, of one frequency apart {[world.iso(s, e['cal']) for s in want]}")
    prev = e["start"] if fwd else e["end"]
    for o in outs:
        if obs.expect(o.bnds is not None, "no-time-bounds", o.name):
            lo, hi = sorted(o.bnds)
            obs.expect([lo, hi] == sorted([prev, o.sec]), "time-bounds", f"{about}: {o.name} states {[world.iso(b, e['cal']) for b in o.bnds]}")
            acc = sum((w.at((t0 + t1) / 2, [src])[src] * e["dt"] for _, t0, t1 in steps if lo <= t0 and t1 <= hi), np.zeros_like(m)) * m
            runner.compare_field(obs, "accumulated-outside-bounds", o.v["tagged_" + src], acc, what=f"{about}: {o.name} tagged_{src} against steps within its time bounds", count="intervals_summed")
        prev = o.sec
    obs.signature = gen.signature(e, "odd")
    obs.sample = gen.brief(e, files=[o.name for o in outs][:3])


def on_domain(e, obs, d):
    w = world.make_world(world.world_params(e))
    a, b = e["cells"]
    i = np.arange(a, b + 1) % e["nx"]
    mask = np.random.default_rng([e["seed"], 9]).uniform(0.1, 1, (e["ny"], e["nx"]))
    lats = np.clip([w.lat[-1] - w.dlat / 4, w.lat[0] + w.dlat / 4], -80, 80)
    box = [float(x) for x in (w.lon[i[0]], lats[0], w.lon[i[-1]], lats[1])]
    j = np.flatnonzero((w.lat >= box[1]) & (w.lat <= box[3]))
    _, _, cfg = world.setup(e, d, w, mask, tracking_domain=box)
    r, outs = runner.track(obs, cfg, e)
    obs.count("domain_runs")
    small = w.cut(j, i)
    small.lon = w.lon[a % e["nx"]] + w.dlon * np.arange(len(i))
    return small, mask[np.ix_(j, i)], r, outs


def run(e, obs, d):
    if e.get("odd"):
        return run_odd(e, obs, d)
    w, m, r, outs = on_domain(e, obs, d) if "cells" in e else runner.run_exp(obs, e, d)
    if not outs:
        return
    steps, due = ref.schedule(e)
    mode = "forwardtrack" if e["direction"] == "forward" else "backtrack"
    fwd = mode == "forwardtrack"
    cal = e["cal"]
    want = {f"{mode}_{world.date_of(x['sec'], cal).strftime('%Y-%m-%dT%H-%M')}.nc": x for x in due}
    have = {p.name for p in (d / "out").glob("*.nc")}
    about = f"{world.iso(e['start'], cal)} to {world.iso(e['end'], cal)} every {e['dt']} s, output every {world.freq_str(e['out'])}, {e['direction']}"
    obs.expect(not set(want) - have, "missing-output", f"{about}: no {sorted(set(want) - have)}")
    obs.expect(not have - set(want), "extra-output", f"{about}: unscheduled {sorted(have - set(want))}")
    obs.count("partial_last", due[-1]["sec"] % 86400 % e["out"] != 0)
    obs.count("unaligned_starts", (e["start"] if fwd else e["end"]) % e["out"] != 0)
    obs.nontrivial = len(want) >= 2
    src = "evap" if fwd else "precip"
    names = runner.all_vars(e["direction"])
    for o in outs:
        obs.count("files")
        obs.count(e["direction"] + "_files")
        x = want.get(o.name)
        if x is None:
            continue
        obs.expect(o.sec == x["sec"], "time-not-as-named", f"{o.name} holds time {world.iso(o.sec, cal)}")
        same = {"gregorian": "standard", "365_day": "noleap", "366_day": "all_leap"}
        obs.expect(same.get(o.cal, o.cal) == same.get(cal, cal), "calendar", f"{o.name}: calendar {o.cal}, configured {cal}")
        if obs.expect(o.bnds is not None, "no-time-bounds", o.name):
            obs.expect(sorted(o.bnds) == sorted(x["bnds"]), "time-bounds", f"{about}: {o.name} states {[world.iso(b, cal) for b in o.bnds]}, accumulated over {[world.iso(b, cal) for b in x['bnds']]}")
            obs.count("bounds_checked")
            lo, hi = sorted(o.bnds)
            acc = sum((w.at((t0 + t1) / 2, [src])[src] * e["dt"] for _, t0, t1 in steps if lo <= t0 and t1 <= hi), np.zeros_like(m)) * m
            runner.compare_field(obs, "accumulated-outside-bounds", o.v["tagged_" + src], acc, what=f"{about}: {o.name} tagged_{src} against steps within its time bounds", count="intervals_summed")
        if "cells" in e:
            ok = o.lat.shape == w.lat.shape and o.lon.shape == w.lon.shape and np.allclose(o.lat, w.lat) and np.allclose((o.lon - w.lon + 180) % 360 - 180, 0, atol=1e-6)
            if not obs.expect(ok, "coordinates", f"{o.name}: coordinates {o.lon}, {o.lat} differ from the cells in the domain {w.lon}, {w.lat}"):
                continue
            w.lon = o.lon
        else:
            obs.expect(np.array_equal(o.lat, w.lat) and np.array_equal(o.lon, w.lon), "coordinates", f"{o.name}: coordinates differ from those of the input")
        for n, c, dc in (("latitude", w.lat, w.dlat), ("longitude", w.lon, w.dlon)):
            b = o.raw.get(n + "_bnds")
            if obs.expect(b is not None, "no-cell-bounds", f"{o.name} lacks {n}_bnds"):
                b = b.reshape(-1, 2) if b.size == 2 * len(c) else b
                good = b.shape == (len(c), 2) and np.allclose(np.sort(b, axis=1), np.stack([c - dc / 2, c + dc / 2], 1), atol=1e-4)
                obs.expect(good, "cell-bounds", f"{o.name}: {n} bounds {b.tolist()[:3]} for centres {c[:3]}")
        obs.expect(set(names) <= set(o.v), "variables", f"{o.name} has {sorted(o.v)}")
        for n in names:
            obs.count("units_checked")
            u = o.units.get(n) or ""
            obs.expect(re.match(r"kg m-2", u), "units", f"{o.name}: {n} has units {u!r}")
            acc_like = n not in ("s_track_upper_restart", "s_track_lower_restart")
            obs.expect(("accumulated" in u) == acc_like, "units", f"{o.name}: {n} has units {u!r}")
    obs.signature = gen.signature(e, e["start"] % e["out"], (e["end"] - e["start"]) % e["dt"])
    obs.sample = gen.brief(e, files=sorted(have)[:3])
