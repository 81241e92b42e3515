"""C17: preprocessed files hold every requested time once, in tracking-ready layout."""

import numpy as np

from wamcheck import raw, runner, world

RULE = (
    "periods around day, month and year ends are preprocessed from synthetic input in various longitude conventions, latitude and longitude orders, "
    "calendars and file layouts, sequentially, in parallel, and into a folder with earlier results; names, times, order, coordinates, and the "
    "values of all fields at their own location and time are checked, parallel and repeated results compared with sequential ones bit by bit. "
    "Non-trivial: more than one record."
)
MINIMUM = {"preprocessing_runs": 90, "files": 60, "multi_day": 25, "records": 150, "values_checked": 9000, "shifted": 12, "latitude_flipped": 12, "longitude_flipped": 4, "parallel_compared": 14, "repeated_compared": 8, "calendars_other": 15, "runs_cmip": 6, "runs_arco": 6, "partial_first_day": 10, "several_years": 3}
warm = raw.warm


def cases(tier, seed):
    n = 56 if tier == "quick" else 600
    rng = np.random.default_rng([seed, 1717])
    out = []
    for i in range(n):
        k = i % 8
        fix = dict(nreq=[2, 3, 5, 7, 9][int(rng.integers(5))], hour=[0, 6, 18, 21, 23, 42, 45][int(rng.integers(7))], ny=int(rng.integers(2, 5)), nx=int(rng.integers(3, 6)))
        if k == 6:
            p = raw.random_cmip(rng, days=int(rng.integers(2, 4)))
            p["end"] = p["t0"] + (p["nrec"] - 1) * p["freq"]
        elif k == 7:
            p = raw.random_arco(rng)
            p["start"] = p["t0"] + 82800 - p["t0"] % 86400
            p["t0"], p["end"], p["nrec"] = p["start"], p["start"] + int(rng.integers(1, 5)) * 3600, 6
        else:
            conv = ["pm180", "greenwich360", "antimeridian360", "plain", "global360", "to180"][int(rng.integers(6))]
            p = raw.random_pre(rng, convention=conv, freq=[3600, 10800, 21600, 43200, 5400, 28800, 86400][int(rng.integers(7))], cal=world.CALENDARS[(i + i // 8) % 9], **fix)
        if k == 5 and (i // 8) % 2 == 0:
            # records in several years, on the same day of the year
            cal, days = [("360_day", 360), ("noleap", 365), ("all_leap", 366), ("360_day", 30)][(i // 16) % 4]
            p = raw.random_pre(rng, convention=conv, freq=days * 86400, cal=cal, **{**fix, "nreq": 2 if days > 30 else 14})
        if rng.uniform() < 0.25:
            p["lon"] = p["lon"][::-1]
        p["mode"] = ["parallel", "repeat", "parallel", "plain"][(i // 8 + i) % 4]
        p["procs"] = [None, 1, 2, 3, 8][int(rng.integers(5))]
        out.append(p)
    return out


def check(p, obs, rw, folder):
    files = raw.read_all(folder)
    extra = [x.name for x in folder.iterdir() if x.suffix == ".nc" and not x.name.endswith("_fluxes_storages.nc")]
    obs.expect(not extra, "unexpected-file", f"{extra}")
    req = raw.requested(p)
    days = {}
    for s in req:
        t = world.date_of(s, p["cal"])
        days.setdefault(f"{t.year:04d}-{t.month:02d}-{t.day:02d}_fluxes_storages.nc", []).append(s)
    got = {f.name: f.secs for f in files}
    what = f"{p['source']} {p['cal']} {world.iso(p['start'], p['cal'])} to {world.iso(p['end'], p['cal'])} every {p['freq']} s"
    obs.count("files", len(files))
    obs.count("multi_day", len(days) > 1)
    obs.count("several_years", len({n[5:10] for n in days}) < len(days))
    t0 = world.date_of(req[0], p["cal"])
    obs.count("partial_first_day", (t0.hour, t0.minute) != (0, 0) and len(days) > 1)
    obs.expect(sorted(got) == sorted(days), "files-not-days", f"{what}: files {sorted(got)}, days {sorted(days)}")
    for n in days:
        if n in got:
            obs.expect(got[n] == days[n], "times-wrong", f"{what}: {n} holds seconds {[s - req[0] for s in got[n]]} after the start, requested {[s - req[0] for s in days[n]]}")
    lon180 = np.where(rw.lon > 180, rw.lon - 360, rw.lon)
    obs.count("shifted", bool((rw.lon > 180).any() or (rw.lon < 0).any()) and bool((np.diff(rw.lon) > 0).all()) and bool((rw.lon > 180).any()))
    obs.count("latitude_flipped", rw.lat[0] < rw.lat[-1])
    obs.count("longitude_flipped", rw.lon[0] > rw.lon[-1] and bool((np.diff(rw.lon) < 0).all()))
    for f in files:
        same = {"gregorian": "standard", "365_day": "noleap", "366_day": "all_leap"}
        obs.expect(same.get(f.cal, f.cal) == same.get(p["cal"], p["cal"]), "calendar", f"{what}: {f.name} in calendar {f.cal}")
        obs.expect(bool((np.diff(f.lat) < 0).all()), "latitude-order", f"{what}: {f.name} latitudes {f.lat[:6]}")
        obs.expect(bool((np.diff(f.lon) > 0).all()), "longitude-order", f"{what}: {f.name} longitudes {f.lon[:6]}")
        obs.expect(bool((np.abs(f.lon) <= 180).all()), "longitude-range", f"{what}: {f.name} longitudes {f.lon[:6]}")
        obs.expect(len(f.lat) == len(rw.lat) and np.allclose(np.sort(f.lat), np.sort(rw.lat), atol=1e-5), "latitudes-lost", f"{what}: {f.name} {f.lat}, input {rw.lat}")
        a, b = np.sort(np.round(f.lon % 360, 4)), np.sort(np.round(lon180 % 360, 4))
        obs.expect(len(a) == len(b) and np.allclose(a, b, atol=1e-3), "longitudes-lost", f"{what}: {f.name} {f.lon}, input {rw.lon}")
        for n, x, d in (("latitude_bnds", f.lat, abs(rw.lat[1] - rw.lat[0])), ("longitude_bnds", f.lon, None)):
            if n in f.bnds and f.bnds[n].shape == (len(x), 2):
                b = f.bnds[n]
                obs.expect(np.allclose(b.mean(1), x, atol=1e-4), "bounds-not-centred", f"{what}: {f.name} {n} {b[:3]} around {x[:3]}")
                if d is not None:
                    obs.expect(np.allclose(np.abs(b[:, 1] - b[:, 0]), d, atol=1e-4), "bounds-width", f"{what}: {f.name} {n} {b[:3]} spacing {d}")
    for f, x, k in raw.records(rw, p, files):
        want, slack, more = raw.expect(rw, p, k)
        at = raw.locate(f, rw)
        obs.count("records")
        for n in raw.PRE_VARS:
            w, g = want[n][at], f.v[n][x]
            if w.shape != g.shape:
                continue
            tol = raw.tolerance(n, w, more["column"][at]) + 1.01 * slack[n][at]
            bad = ~(np.abs(g - w) <= tol)
            obs.count("values_checked", w.size)
            if bad.any():
                j, i = np.argwhere(bad)[0]
                obs.fail("value-of-other-place-or-time", f"{what}: {f.name} record {x} {n} in {bad.sum()} cells, first at {f.lat[j]} N {f.lon[i]} E: {g[j, i]:.7g}, input gives {w[j, i]:.7g}")
    obs.nontrivial = len(req) > 1
    return files


def same(obs, key, a, b, what):
    if not obs.expect([f.name for f in a] == [f.name for f in b], key, f"{what}: files {[f.name for f in a]} and {[f.name for f in b]}"):
        return
    for f, g in zip(a, b):
        ok = f.secs == g.secs and np.array_equal(f.lat, g.lat) and np.array_equal(f.lon, g.lon)
        bad = [n for n in raw.PRE_VARS if not np.array_equal(f.v[n], g.v[n])]
        obs.expect(ok and not bad, key, f"{what}: {f.name} differs in {bad or 'coordinates'}")


def run(p, obs, d):
    obs.count("calendars_other", p["cal"] not in ("standard", "gregorian", "proleptic_gregorian"))
    obs.signature = raw.signature(p) + "|" + p["mode"]
    obs.sample = raw.brief(p)
    par = None
    if p["mode"] == "parallel":
        # first, as worker processes should be forked before this one has made threads
        import os
        from multiprocessing import pool

        over = {"parallel_preprocess": True}
        if p["procs"] is not None:
            over["parallel_processes"] = p["procs"]
        made = []
        orig = pool.Pool.__init__

        def init(self, *a, **k):
            orig(self, *a, **k)
            made.append(len(self._pool))

        pool.Pool.__init__ = init
        try:
            rw, r, _ = raw.run_source(p, d / "par", obs, **over)
        finally:
            pool.Pool.__init__ = orig
        if not r.ok:
            return
        obs.count("parallel_processes_seen", sum(made))
        par = check(p, obs, rw, d / "par" / "pre")
    rw, r, c = raw.run_source(p, d / "seq", obs)
    if not r.ok:
        return
    seq = check(p, obs, rw, d / "seq" / "pre")
    if par is not None:
        obs.count("parallel_compared")
        same(obs, "parallel-differs", par, seq, f"{p['source']} with {p['procs']} processes")
    if p["mode"] == "repeat":
        # a second time into the same folder
        rw, r, c = raw.run_source(p, d / "seq", obs)
        if r.ok:
            again = check(p, obs, rw, d / "seq" / "pre")
            obs.count("repeated_compared")
            same(obs, "repeat-differs", again, seq, f"{p['source']} again")
