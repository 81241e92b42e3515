"""C11: a restarted run continues exactly where the previous run stopped."""

import json
import shutil

import numpy as np

from wamcheck import gen, ref, runner, world

RULE = (
    "each case runs one experiment uninterrupted, then in pieces: stopped at each of its output times (or a random subset) and restarted "
    "from there; all outputs after a restart are compared with the uninterrupted run. Also restarts from a copied single output file, and "
    "restarts whose earlier output is absent, which have to fail and write nothing. Non-trivial: tracked moisture present at a stop."
)
MINIMUM = {"restarts": 70, "restarts_backward": 25, "restarts_forward": 25, "chains_of_two_or_more": 15, "fields_compared": 500, "refused_restarts": 16, "stops_with_moisture": 60, "subdomain_cases": 4}
ASSUMPTIONS = ["the saved state is single precision: relative tolerance 5e-5"]
warm = gen.warm


def cases(tier, seed):
    out = gen.experiments("C11", tier, seed, 40, 300, styles=["mild", "storm", "white", "deluge", "wind"], region=lambda r: ["mask", "bigbox"][r.integers(2)],
                          tagwin=lambda r: ["all", "part"][r.integers(2)], nsteps=8, nx=7, ny=7, freq=3600)
    rng = np.random.default_rng([seed, 1111])
    for i, e in enumerate(out):
        if 86400 % e["dt"] == 0 and i % 4:
            z = e["start"] // e["dt"] * e["dt"] - e["start"]
            e["start"] += z
            e["end"] = e["start"] + e["nsteps"] * e["dt"]
            e["tag"] = [(x + z) // 60 * 60 for x in e["tag"]]
            e["out"] = int(e["dt"] * rng.choice([1, 2]))
            if 86400 % e["out"]:
                e["out"] = e["dt"]
        e["sub"] = bool(i % 5 == 4 and not e["periodic"])
    return out


def run(e, obs, d):
    over = {}
    w = world.make_world(world.world_params(e))
    m, region = world.region_weights(e, w)
    if e["sub"]:
        over["tracking_domain"] = [float(w.lon[1]), max(-80.0, float(w.lat[-2])), float(w.lon[-2]), min(80.0, float(w.lat[1]))]
        obs.count("subdomain_cases")
    w.write(d / "pre")
    if region is None:
        region = str(d / "mask.nc")
        world.write_mask(region, w, m)
    fwd = e["direction"] == "forward"
    n = [0]

    def piece(folder, a, b, restart):
        n[0] += 1
        c = world.config_dict(e, d, region, output_folder=str(folder), restart=restart, tracking_start_date=world.iso(a, e["cal"]), tracking_end_date=world.iso(b, e["cal"]), **over)
        cfg = d / f"config{n[0]}.yaml"
        cfg.write_text(json.dumps(c))
        return cfg

    r, base = runner.track(obs, piece(d / "whole", e["start"], e["end"], False), e)
    if not base:
        return
    by = {o.sec: o for o in base}
    rng = np.random.default_rng([e["seed"], 11])
    stops = [o.sec for o in base[:-1]]
    if len(stops) > 1 and rng.uniform() < 0.5:
        stops = [s for s in stops if rng.uniform() < 0.6] or stops[:1]
    obs.nontrivial = bool(stops)
    # pieces in order of running
    begin = e["start"] if fwd else e["end"]
    finish = e["end"] if fwd else e["start"]
    marks = [begin] + stops + [finish]
    cut = d / "pieces"
    for k, (a, b) in enumerate(zip(marks[:-1], marks[1:])):
        lo, hi = (a, b) if fwd else (b, a)
        before = {p.name for p in cut.glob("*.nc")} if cut.exists() else set()
        r, outs = runner.track(obs, piece(cut, lo, hi, k > 0), e)
        if not r.ok:
            return
        if k:
            obs.count("restarts")
            obs.count("restarts_" + e["direction"])
            obs.count("stops_with_moisture", by[a].layer_sum().max() > 0)
    obs.count("chains_of_two_or_more", len(stops) >= 2)
    runner.compare(obs, "restart-differs", runner.read_outputs(cut, e["direction"]), base, e, rtol=5e-5, atol_rel=5e-6, scale=max(float(o.layer_sum().max()) for o in base), what=f"stopped at {[world.iso(s, e['cal']) for s in stops]}: ")
    if stops:
        # only the one file that holds the state, in another folder
        s = stops[int(rng.integers(len(stops)))]
        single = d / "single"
        single.mkdir()
        shutil.copy(by[s].path, single)
        lo, hi = (s, e["end"]) if fwd else (e["start"], s)
        r, outs = runner.track(obs, piece(single, lo, hi, True), e)
        if r.ok:
            obs.count("restarts")
            obs.count("restarts_" + e["direction"])
            obs.count("stops_with_moisture", by[s].layer_sum().max() > 0)
            after = [o for o in base if (o.sec > s if fwd else o.sec < s)]
            runner.compare(obs, "restart-differs", [o for o in outs if o.sec != s], after, e, rtol=5e-5, atol_rel=5e-6, scale=max(float(o.layer_sum().max()) for o in base), what=f"restarted from a copy of {by[s].name}: ")
        # the needed file is absent (others may be present)
        gone = d / "gone"
        gone.mkdir()
        for o in base:
            if o.sec != s and rng.uniform() < 0.5:
                shutil.copy(o.path, gone)
        present = {p.name: p.read_bytes() for p in gone.glob("*.nc")}
        r, _ = runner.track(obs, piece(gone, lo, hi, True), e, must=False)
        obs.count("refused_restarts")
        obs.expect(not r.ok, "restart-without-state", f"restart at {world.iso(s, e['cal'])} without {by[s].name} did not fail")
        now = {p.name: p.read_bytes() for p in gone.glob("*.nc")}
        obs.expect(now == present, "restart-without-state", f"failed restart changed {sorted(set(now) ^ set(present))}")
    obs.signature = gen.signature(e, len(stops), e["sub"])
    obs.sample = gen.brief(e, stops=[world.iso(s, e["cal"]) for s in stops])
