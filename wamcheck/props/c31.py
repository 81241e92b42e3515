"""C31: every file says what it holds and where it comes from."""

import datetime
import os
import re
import subprocess
import sys
import time
from pathlib import Path

import netCDF4
import numpy as np

from wamcheck import gen, raw, runner, world
from wamcheck.props import c28

RULE = (
    "tracking experiments (both directions, domains, restarts, output times between and on input times) on input whose files state a random origin and history, or none, and chains from raw data of "
    "all sources; also as programs in other time zones. In every file written, title, history, source and conventions are read back and compared with what was run when, with which version, on which input; every variable has to have a name, "
    "a description that fits what it is, and units. Non-trivial: at least one file was judged."
)
MINIMUM = {"files": 120, "variables": 1200, "histories": 100, "histories_chained": 80, "sources_named": 80, "sources_unknown": 8, "backward": 30, "forward": 30, "between_records": 12, "domains": 6, "restarts": 6,
           "chains_era5": 6, "chains_arco": 1, "chains_cmip": 2, "preprocessed_files": 20, "other_time_zones": 4}
ASSUMPTIONS = [
    "wording is free: a title has to name the direction, a history to begin with the version and the time of making (UTC) and to hold that of the input, a source to hold that of the input",
    "preprocessed files of ERA5 and ARCO may state the time at which the program was started",
    "which files of the input the origin is taken from is free",
]
# words that the name or description of a variable has to hold
WORDS = {
    "s_track_upper_restart": ["upper", "track"], "s_track_lower_restart": ["lower", "track"], "e_track": ["evap"], "p_track_upper": ["precip", "upper"], "p_track_lower": ["precip", "lower"],
    "tagged_precip": ["tagg", "precip"], "tagged_evap": ["tagg", "evap"], "losses": ["lost|loss"], "gains": ["gain"],
    "fx_upper": ["eastward|zonal", "upper"], "fx_lower": ["eastward|zonal", "lower"], "fy_upper": ["northward|meridional", "upper"], "fy_lower": ["northward|meridional", "lower"],
    "s_upper": ["moisture|water|storage", "upper"], "s_lower": ["moisture|water|storage", "lower"], "evap": ["evap|from the surface"], "precip": ["precip|to the surface"],
}
UNITS = {**{"f" + a + b: "kg m-1 s-1" for a in "xy" for b in ("_upper", "_lower")}, "s_upper": "kg m-2", "s_lower": "kg m-2", "evap": "kg m-2 s-1", "precip": "kg m-2 s-1"}
ZONES = ["Asia/Tokyo", "America/New_York", "XYZ+7:30", "Pacific/Kiritimati", "UTC"]
MADE = re.compile(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)Z")


def warm(d):
    import matplotlib

    matplotlib.use("Agg")
    gen.warm(d / "t")
    raw.warm(d / "p")


def cases(tier, seed):
    n, m = (54, 24) if tier == "quick" else (400, 150)
    out = []
    rng = np.random.default_rng([seed, 3131])
    for i, e in enumerate(gen.experiments("C31", tier, seed, n, n, styles=["mild", "white"], nsteps=lambda r: [3, 5, 8][r.integers(3)], region="mask", tagwin="all", nx=5, ny=5)):
        e["kind"] = "track"
        e["origin"] = ["full", "full", "differs", "none", "full", "partly"][i % 6]
        e["domain"] = bool(i % 4 == 1 and not e["periodic"])
        e["restart_run"] = i % 4 == 3
        if e["restart_run"]:
            e["out"] = e["dt"]
            e["start"] -= e["start"] % e["dt"]
            e["end"] = e["start"] + e["nsteps"] * e["dt"]
            e["tag"] = [e["start"] - 86400, e["end"] + 86400]
        e["zone"] = ZONES[i % 5]
        e["program"] = i % 13 == 4
        out.append(e)
    k = 0
    for p in c28.cases("quick" if tier == "quick" else "thorough", seed + 31):
        if p["track"]["region"] == "mask" and k < m:
            out.append(dict(p, kind="chain", zone=ZONES[k % 5], how="programs" if k % 6 == 1 and p["source"] != "arco" else "here"))
            k += 1
    return out


def say(rng, e, i):
    """What the file of a day states."""
    who = ["ERA5 on pressure levels", "Réanalyse; version 2", "MERRA-2, https://example.org/merra", "CESM2 historical r1i1p1f1"][int(rng.integers(4))]
    some = {
        "title": f"data preprocessed from {who}",
        "source": f"{who} no. {int(rng.integers(1e6))}",
        "history": f"created on 2021-0{1 + i % 9}-11T10:09:0{i % 10}Z using wam2layers version 3.{i}.0." + (f"\n2019-01-01 by {int(rng.integers(1e6))}" if rng.uniform() < 0.5 else ""),
        "references": "some paper",
        "Conventions": "CF-1.6",
    }
    if e["origin"] == "none":
        return {}
    if e["origin"] == "partly":
        some.pop(["source", "history"][e["seed"] % 2])
    return some


def state(e, folder):
    rng = np.random.default_rng([e["seed"], 31])
    first, said = None, []
    for i, f in enumerate(sorted(Path(folder).glob("*.nc"))):
        first = first or say(rng, e, 0)
        a = say(rng, e, i) if e["origin"] == "differs" else dict(first)
        with netCDF4.Dataset(f, "a") as ds:
            for k in ds.ncattrs():
                ds.delncattr(k)
            ds.setncatts(a)
        said.append(a)
    return said


def stamp(text):
    m = MADE.search(text)
    return None if m is None else datetime.datetime(*map(int, m.groups()), tzinfo=datetime.timezone.utc).timestamp()


def variables(obs, ds, what, units):
    names = {}
    for n, v in ds.variables.items():
        if n in ("time", "time_bnds") or n not in set(WORDS) | {"latitude", "longitude", "latitude_bnds", "longitude_bnds"}:
            continue
        a = {k: v.getncattr(k) for k in v.ncattrs()}
        obs.count("variables")
        text = f"{a.get('long_name', '')} {a.get('standard_name', '')} {a.get('description', '')}".lower()
        unit = str(a.get("units", "")).strip()
        if n in WORDS:
            obs.expect(bool(str(a.get("long_name", "")).strip()), "no-name", f"{what}: {n} has no long_name")
            obs.expect(bool(str(a.get("description", "")).strip()), "no-description", f"{what}: {n} has no description")
            for w in WORDS[n]:
                obs.expect(re.search(w, text), "wrong-name", f"{what}: {n} is described as {text!r}")
            key = str(a.get("long_name", "")).strip()
            obs.expect(names.setdefault(key, n) == n, "same-name", f"{what}: {n} and {names.get(key)} have the same long_name {key!r}")
            good = unit == UNITS[n] if units == "input" else unit.startswith("kg m-2") and ("accumulated" in unit) == (not n.startswith("s_"))
            obs.expect(good, "wrong-units", f"{what}: {n} has units {unit!r}")
        else:
            want = "degrees_north" if n.startswith("lat") else "degrees_east"
            if not n.endswith("_bnds"):
                obs.expect(unit == want, "coordinate-units", f"{what}: {n} has units {unit!r}, not {want}")
            else:
                obs.expect(unit in ("", want), "coordinate-units", f"{what}: {n} has units {unit!r}, not {want}")


def judge(obs, path, e, said, began, what):
    """One output file of tracking."""
    from wam2layers import __version__

    what = f"{what}: {path.name}"
    obs.count("files")
    with netCDF4.Dataset(path) as ds:
        a = {k: ds.getncattr(k) for k in ds.ncattrs()}
        variables(obs, ds, what, "output")
    other = "forward" if e["direction"] == "backward" else "backward"
    title = a.get("title", "").lower()
    obs.expect(e["direction"][:4] in title and other not in title, "title", f"{what}: title {a.get('title')!r} of a {e['direction']} run")
    obs.expect(a.get("Conventions", "").startswith("CF-"), "conventions", f"{what}: conventions {a.get('Conventions')!r}")
    h = a.get("history", "")
    obs.count("histories")
    t = stamp(h)
    made = path.stat().st_mtime
    obs.expect(t is not None and began - 2 <= t <= made + 2, "history-time", f"{what}: history {h!r}, made between {began:.0f} and {made:.0f}, states {t}")
    obs.expect(f"version {__version__}" in h.split(";")[0], "history-version", f"{what}: history {h!r} does not begin with version {__version__}")
    older = {s["history"] for s in said if "history" in s}
    if older:
        obs.count("histories_chained")
        obs.expect(any(x in h for x in older), "history-of-input-lost", f"{what}: history {h!r}, that of the input {sorted(older)[0]!r}")
    n = len(MADE.findall(h))
    obs.expect(n == 1 or 2 <= n <= 1 + len(older), "history-made-up", f"{what}: history {h!r} names {n} times of making, {len(older)} files of the input state one each")
    src = a.get("source", "")
    given = {s["source"] for s in said if "source" in s}
    if given:
        obs.count("sources_named")
        obs.expect(any(x in src for x in given), "source-of-input-lost", f"{what}: source {src!r}, that of the input {sorted(given)[0]!r}")
    else:
        obs.count("sources_unknown")
        obs.expect("era5" not in src.lower(), "source-made-up", f"{what}: source {src!r} of input without one")


def programs(obs, args, cwd, zone):
    env = dict(os.environ, MPLBACKEND="Agg", TZ=zone)
    r = subprocess.run([sys.executable, "-c", "from wam2layers.cli import cli; cli()", *args], cwd=cwd, env=env, capture_output=True, timeout=250)
    obs.count("other_time_zones", zone != "UTC")
    return obs.expect(r.returncode == 0, "program-failed", f"{args}: exit {r.returncode}: {r.stderr.decode(errors='replace')[-600:]}")


def track_case(e, obs, d):
    over = {}
    w = world.make_world(world.world_params(e))
    if e["domain"]:
        lats = np.clip([w.lat[-1] - w.dlat / 4, w.lat[0] + w.dlat / 4], -80, 80)
        over["tracking_domain"] = [float(x) for x in (max(w.lon[0], -180), lats[0], min(w.lon[-1], 180), lats[1])]
        obs.count("domains")
    _, _, cfg = world.setup(e, d, w, None, **over)
    said = state(e, d / "pre")
    what = f"{e['direction']}, input states {e['origin']}"

    def go(cfg):
        began = time.time()
        if e["program"]:
            return began, programs(obs, ["track", str(cfg)], d, e["zone"])
        r, outs = runner.track(obs, cfg, e)
        return began, bool(outs)

    if not e["program"]:
        os.environ["TZ"] = e["zone"]
        time.tzset()
    began, ok = go(cfg)
    if not ok:
        return
    files = sorted((d / "out").glob("*track_*.nc"))
    for f in files:
        judge(obs, f, e, said, began, what)
        obs.count(e["direction"])
    at = e["start"] if e["direction"] == "forward" else e["end"]
    obs.count("between_records", at % e["freq"] != 0)
    if e["restart_run"] and len(files) > 1:
        # continue from a file in the middle
        secs = sorted(o.sec for o in runner.read_outputs(d / "out", e["direction"]))
        mid = secs[(len(secs) - (e["direction"] == "forward")) // 2]
        more = {"tracking_start_date": world.iso(mid, e["cal"])} if e["direction"] == "forward" else {"tracking_end_date": world.iso(mid, e["cal"])}
        import json

        c = json.loads(cfg.read_text())
        c.update(restart=True, **more)
        keep = {f.name: f.stat().st_mtime_ns for f in files}
        cfg2 = d / "restart.yaml"
        cfg2.write_text(json.dumps(c))
        began, ok = go(cfg2)
        for f in sorted((d / "out").glob("*track_*.nc")) if ok else []:
            if keep.get(f.name) != f.stat().st_mtime_ns:
                judge(obs, f, e, said, began, what + ", restart")
        obs.count("restarts", ok)
    obs.signature = gen.signature(e, e["origin"], e["zone"], e["domain"], e["restart_run"])
    obs.sample = gen.brief(e, origin=e["origin"], said=said[:1], files=[f.name for f in files][:3])


def chain_case(p, obs, d):
    e = p["track"]
    rw = raw.make_cmip(p) if p["source"] == "cmip" else raw.make(p)
    c28.no_ties(rw, p)
    w = c28.fields(rw, p)
    d.mkdir(exist_ok=True)
    region = str(d / "mask.nc")
    world.write_mask(region, w, np.ones((len(w.lat), len(w.lon))))
    cal = e["cal"]
    over = dict(
        tracking_direction=e["direction"], tagging_region=region, tracking_start_date=world.iso(e["start"], cal), tracking_end_date=world.iso(e["end"], cal),
        tagging_start_date=world.iso(e["tag"][0], cal), tagging_end_date=world.iso(e["tag"][1], cal), timestep=e["dt"], output_frequency=world.freq_str(e["out"]), periodic_boundary=e["periodic"], kvf=e["kvf"],
    )
    if np.diff(w.lon).max() > 1.5 * w.dlon:
        a = int(np.argmax(w.lon > 0))
        box = [w.lon[a] - 0.3 * w.dlon, w.lat[-1] - 0.3 * w.dlat, w.lon[a - 1] + 0.3 * w.dlon, w.lat[0] + 0.3 * w.dlat]
        over["tracking_domain"] = [round(float(x), 6) for x in box]
    start = time.time()
    what = f"{p['source']} {p['level_type'][:5]} {p['cal']}, {e['direction']}"
    if p["how"] == "programs":
        raw.run_source(p, d, None, raw=rw, launch=lambda command: None, **over)
        cfg = d / "config.yaml"
        if not programs(obs, ["preprocess", p["source"], str(cfg)], d, p["zone"]):
            return
    else:
        start -= 3600  # the program has been up for some time
        rw, r, cfg = raw.run_source(p, d, obs, raw=rw, **over)
        if not r.ok:
            return
    from wam2layers import __version__

    said = []
    for f in sorted((d / "pre").glob("*.nc")):
        obs.count("preprocessed_files")
        obs.count("files")
        with netCDF4.Dataset(f) as ds:
            a = {k: ds.getncattr(k) for k in ds.ncattrs()}
            variables(obs, ds, f"{what}: {f.name}", "input")
        said.append(a)
        if p["source"] == "cmip":
            obs.expect("era5" not in str(a).lower(), "source-made-up", f"{what}: {f.name} states {a}")
            continue
        text = f"{a.get('title', '')} {a.get('source', '')}"
        obs.expect("ERA5" in a.get("source", ""), "preprocessed-source", f"{what}: {f.name} has source {a.get('source')!r}")
        obs.expect(("ARCO" in text) == (p["source"] == "arco"), "preprocessed-source", f"{what}: {f.name} has title and source {text!r}")
        h = a.get("history", "")
        t = stamp(h)
        obs.expect(t is not None and start - 2 <= t <= f.stat().st_mtime + 2, "history-time", f"{what}: {f.name} has history {h!r}, made between {start:.0f} and {f.stat().st_mtime:.0f}")
        obs.expect(f"version {__version__}" in h, "history-version", f"{what}: {f.name} has history {h!r}")
        obs.expect(a.get("Conventions", "").startswith("CF-"), "conventions", f"{what}: {f.name} has conventions {a.get('Conventions')!r}")
    if not obs.expect(bool(said), "no-record", f"{what}: no preprocessed file"):
        return
    began = time.time()
    if p["how"] == "programs":
        if not programs(obs, ["track", str(cfg)], d, p["zone"]):
            return
    else:
        r, outs = runner.track(obs, cfg, e)
        if not outs:
            return
    for f in sorted((d / "out").glob("*track_*.nc")):
        judge(obs, f, e, said, began, what)
        obs.count(e["direction"])
    obs.count("chains_" + p["source"])
    obs.signature = raw.signature(p) + f"|{e['direction']}|{p['how']}"
    obs.sample = dict(what=what, states=said[:1])


def run(e, obs, d):
    (track_case if e["kind"] == "track" else chain_case)(e, obs, d)
