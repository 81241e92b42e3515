"""C18: faulty or missing input stops the run instead of producing results."""

import json
import time as _time
from pathlib import Path

import numpy as np
import xarray as xr

from wamcheck import gen, raw, runner, world

LEVEL = "fault_enumeration"
RULE = (
    "every pair of input variable and kind of fault (missing value, missing record, missing file or variable, extra dimension, missing rows, missing "
    "level, unreadable file) in each source is injected at random positions into input that is first seen to work; the command has to fail and leave "
    "no record of the affected time. Tracking: every variable, file and record missing in turn, every number of transient read failures up to eight, "
    "bursts spread over reads, persistent failures. Non-trivial: the fault was really injected and the undamaged input worked."
)
MINIMUM = {"faults_injected": 150, "controls_ok": 150, "kinds_nan": 30, "kinds_record": 20, "kinds_file": 15, "kinds_dims": 20, "tracking_faults": 20, "transient_runs": 10, "transient_failures": 60, "persistent_runs": 2, "parallel_faults": 4}
ASSUMPTIONS = ["the transient failure is the one known from OPeNDAP servers, an IndexError while opening the dataset; waiting is replaced by a recorder"]
warm = raw.warm

KINDS = {
    "pl": ["nan", "nan", "record", "file", "extra-dim", "rows", "corrupt"],
    "ml": ["nan", "nan", "record", "file", "extra-dim", "rows", "corrupt"],
    "cmip": ["nan", "nan", "record", "file", "extra-dim", "rows", "renamed"],
    "arco": ["nan", "nan", "record", "file", "extra-dim"],
}
VARS = {
    "pl": raw.ERA5_VARS["pressure_levels"] + ["tcw"],
    "ml": raw.ERA5_VARS["model_levels"] + ["tcw"],
    "cmip": list(raw.CMIP_NAMES) + ["pr", "hfls"],
    "arco": list(raw.ARCO_NAMES),
}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 1818])
    out = []
    for _ in range(1 if tier == "quick" else 10):
        for src in KINDS:
            for var in VARS[src]:
                for kind in KINDS[src]:
                    if kind == "file" and var == "tcw" and src != "arco":
                        continue  # allowed: falls back to water vapour
                    if kind == "rows" and var == "q":
                        continue  # defines the grid
                    out.append(pre_case(rng, src, var, kind))
            if src in ("pl", "ml"):
                for var in raw.WITH_LEVELS:
                    out.append(pre_case(rng, src, var, "level"))
                    out.append(pre_case(rng, src, var, "no-level-dim"))
            if src == "cmip":
                for var in ("pr", "hfls"):
                    out.append(pre_case(rng, src, var, "gap"))
                    out.append(pre_case(rng, src, var, "start"))
            if src == "arco":
                out += [pre_case(rng, src, "q", x) for x in ("levels-of-model", "calendar", "calendar")]
        for i in range(8):
            c = pre_case(rng, ["pl", "ml", "cmip", "pl"][i % 4], ["q", "e", "pr", "sp"][i % 4], ["nan", "record", "record", "file"][(i + i // 4) % 4])
            c["parallel"] = True
            out.append(c)
        kinds = [("variable", v) for v in world.FLUX_VARS + world.STATE_VARS] + [("file", None)] * 4 + [("record", None)] * 8 + [("corrupt", None)] * 2 + [("restart", None)] * 2
        kinds += [("transient", k) for k in range(1, 9)] + [("burst", None)] * 4 + [("persistent", None)] * 3
        for j, (kind, arg) in enumerate(kinds):
            e = world.random_exp(rng, nsteps=8, nx=5, ny=5, direction=["forward", "backward"][int(rng.integers(2))], style=["mild", "white"][j % 2], freq=[1800, 3600, 10800][int(rng.integers(3))], monthday=(2, 28), hour=[21, 22, 23][int(rng.integers(3))], tagwin="all", year=2021)
            e.update(part="track", kind=kind, arg=arg, r=int(rng.integers(2**31)))
            out.append(e)
    return out


def pre_case(rng, src, var, kind):
    if src == "cmip":
        p = raw.random_cmip(rng, days=2)
    elif src == "arco":
        p = raw.random_arco(rng)
    else:
        p = raw.random_pre(rng, level_type={"pl": "pressure_levels", "ml": "model_levels"}[src], tcw=True, nreq=3, hour=[6, 45][int(rng.integers(2))], ny=3, nx=4)
        while p["use"] == "all" and kind in ("level",) or (p["level_type"] == "model_levels" and p["use"] == "all" and rng.uniform() < 0.7):
            p = raw.random_pre(rng, level_type=p["level_type"], tcw=True, nreq=3, hour=6, ny=3, nx=4)
    p.update(part="pre", src=src, var=var, kind=kind, r=int(rng.integers(2**31)), parallel=False)
    return p


def rewrite(path, f):
    with xr.open_dataset(path, decode_cf=False) as ds:
        new = f(ds.load())
    Path(path).unlink()
    for v in new.variables.values():
        v.encoding.clear()
    new.encoding.clear()
    new.to_netcdf(path)


def tdim(ds):
    return "valid_time" if "valid_time" in ds.dims else "time"


def damage(ds, name, kind, pos, p, rng):
    """The dataset with a fault in variable `name` at record `pos`."""
    t = tdim(ds)
    v = ds[name]
    if kind == "nan":
        a = v.values.astype("f8" if v.dtype.kind != "f" else v.dtype).copy()
        idx = [int(rng.integers(n)) for n in a.shape]
        idx[v.dims.index(t)] = pos
        lev = [d for d in v.dims if d in ("level", "lev", "model_level", "pressure_level", "plev")]
        if lev and p["use"] != "all":
            # a level that is in use
            scale = 1 if lev[0] != "plev" else 1
            vals = [float(x) * scale for x in ds[lev[0]].values]
            idx[v.dims.index(lev[0])] = vals.index(float(p["use"][int(rng.integers(len(p["use"])))]))
        a[tuple(idx)] = np.nan
        ds[name] = (v.dims, a, v.attrs)
    elif kind == "record":
        ds = ds.isel({t: [k for k in range(ds.sizes[t]) if k != pos]})
    elif kind == "gap":
        ds = ds.isel({t: [k for k in range(ds.sizes[t]) if k not in (pos, pos + 1)]})
    elif kind == "start":
        ds = ds.isel({t: slice(1, ds.sizes[t] - 1)})
    elif kind == "extra-dim":
        n = int(rng.integers(1, 3))
        ds = ds.drop_vars("number", errors="ignore")
        ds[name] = v.drop_vars("number", errors="ignore").expand_dims({"number": np.arange(n)}, axis=1)
        ds[name].attrs = {k: x for k, x in v.attrs.items() if k != "coordinates"}
    elif kind == "rows":
        lat = "lat" if "lat" in ds.dims else "latitude"
        k = int(rng.integers(ds.sizes[lat]))
        ds = ds.isel({lat: [j for j in range(ds.sizes[lat]) if j != k]})
    elif kind == "renamed":
        ds = ds.rename({name: "x" + name})
    elif kind == "level":
        lev = [d for d in v.dims if d in ("level", "lev", "model_level", "pressure_level")][0]
        gone = float(p["use"][int(rng.integers(len(p["use"])))])
        ds = ds.isel({lev: [k for k, x in enumerate(ds[lev].values) if float(x) != gone]})
    elif kind == "no-level-dim":
        lev = [d for d in v.dims if d in ("level", "lev", "model_level", "pressure_level")][0]
        ds = ds.isel({lev: 0}, drop=True)
    else:
        raise RuntimeError(kind)
    return ds


def corrupt(path, rng):
    b = Path(path).read_bytes()
    Path(path).write_bytes(b[: int(len(b) * rng.uniform(0.02, 0.5))])


def run_pre(p, obs, d):
    rng = np.random.default_rng([p["r"], 3])
    req = raw.requested(p)
    hit = int(rng.integers(len(req)))
    sec = req[hit]
    over = {"parallel_preprocess": True, "parallel_processes": 2} if p["parallel"] else {}
    raw_ = raw.make_cmip(p) if p["source"] == "cmip" else raw.make(p)
    where = {int(s): k for k, s in enumerate(raw_.t)}
    if sec not in where:
        raise RuntimeError("no such record")
    var, kind = p["var"], p["kind"]

    def attempt(folder, faulty):
        folder = Path(folder)
        if p["source"] == "arco":
            ds = raw.arco_zarr(raw_)
            name = raw.ARCO_NAMES[var]
            if faulty:
                attrs = ds.attrs
                if kind == "file":
                    ds = ds.drop_vars(name)
                elif kind not in ("levels-of-model", "calendar"):
                    ds = damage(ds, name, kind, where[sec], p, rng)
                ds.attrs = attrs
            c = raw.config(folder, p, "unused")
            if faulty and kind == "levels-of-model":
                c = raw.config(folder, p, "unused", level_type="model_levels", levels=[20, 60, 100, 137])
            if faulty and kind == "calendar":
                c = raw.config(folder, p, "unused", calendar=["noleap", "360_day", "all_leap", "julian"][p["r"] % 4])
            with runner.store(lambda: ds):
                try:
                    from wam2layers.preprocessing import arco

                    arco.open_arco_pl.cache_clear()  # the store itself is remote and does not change
                except (ImportError, AttributeError):
                    pass
                return runner.run_cli("preprocess", "arco-era5", c)
        if p["source"] == "cmip":
            tpl = raw.write_cmip(raw_, folder / "raw", p)
            if faulty:
                three = var in ("pr", "hfls")
                name = var if three else raw.CMIP_NAMES[var]
                k = where[sec]
                files = sorted((folder / "raw").glob(f"{name}_*.nc"))
                starts = [int(f.stem.split("_")[-1]) for f in files]
                m = max(i for i, s in enumerate(starts) if s <= (k - 1 if three else k))
                if kind == "start":
                    m = 0
                if three:
                    pos = 2 * k - 2 - 2 * starts[m] + int(rng.integers(2))
                    if kind == "gap":
                        pos = 2 * k - 2 - 2 * starts[m] + 1  # second half of this and first half of the next interval
                        with xr.open_dataset(files[m], decode_cf=False) as z:
                            if pos + 1 >= z.sizes["time"]:
                                pos -= 2
                        if pos < 0:
                            return None
                else:
                    pos = k - starts[m]
                if kind == "file":
                    for f in files:
                        f.unlink()
                elif kind == "renamed":
                    for f in files:
                        rewrite(f, lambda ds: damage(ds, name, kind, pos, p, rng))
                else:
                    rewrite(files[m], lambda ds: damage(ds, name, kind, pos, p, rng))
            return runner.run_cli("preprocess", "cmip", raw.config(folder, p, tpl, **over))
        tpl = raw.write_era5(raw_, folder / "raw", p)
        if faulty:
            path = raw.era5_path(folder / "raw", raw.TEMPLATES[p.get("per", "day")], var, p["level_type"], sec, p["cal"])
            first = min(k for k, s in enumerate(raw_.t) if raw.era5_path(folder / "raw", raw.TEMPLATES[p.get("per", "day")], var, p["level_type"], s, p["cal"]) == path)
            if kind == "file":
                path.unlink()
            elif kind == "corrupt":
                corrupt(path, rng)
            elif kind == "record" and p.get("per") == "time":
                rewrite(path, lambda ds: ds.assign_coords({tdim(ds): ds[tdim(ds)] + 60}))
            else:
                rewrite(path, lambda ds: damage(ds, var, kind, where[sec] - first, p, rng))
        return runner.run_cli("preprocess", "era5", raw.config(folder, p, tpl, **over))

    what = f"{p['src']} {var} {kind} at {world.iso(sec, p['cal'])}"
    if not p["parallel"]:
        r = attempt(d / "good", False)
        if not r.ok:
            obs.fail("run-failed-" + runner.fresh_error_name(r.error), f"undamaged input: {r.why()}", case=what)
            return
        if not obs.expect(sec in [s for f in raw.read_all(d / "good" / "pre") for s in f.secs], "record-lost", f"{what}: undamaged input gave no record of it"):
            return
        obs.count("controls_ok")
    r = attempt(d / "bad", True)
    if r is None:
        obs.nontrivial = False
        return
    obs.count("faults_injected")
    obs.count("parallel_faults", p["parallel"])
    obs.count({"nan": "kinds_nan", "record": "kinds_record", "gap": "kinds_record", "file": "kinds_file", "renamed": "kinds_file", "corrupt": "kinds_file", "start": "kinds_record", "levels-of-model": "kinds_request", "calendar": "kinds_request"}.get(kind, "kinds_dims"))
    obs.expect(not r.ok, f"accepted-{kind}", f"{what}: the command ended normally")
    left = []
    for f in sorted((d / "bad" / "pre").glob("*.nc")):
        try:
            left += [s for s in raw.read_pre(f).secs]
        except runner.Malformed as ex:
            if r.ok:
                obs.fail("malformed-output", f"{what}: {ex}")
    obs.expect(sec not in left, f"output-of-faulty-time-{kind}", f"{what}: a record of that time was written")
    obs.signature = f"{p['src']}|{var}|{kind}|{hit}|{p['parallel']}|{p.get('per')}"
    obs.sample = {"source": p["src"], "variable": var, "fault": kind, "record": hit}


def steps(e):
    """(t0, th, t1) of all steps in the order in which they are made."""
    n = (e["end"] - e["start"]) // e["dt"]
    for i in range(n):
        if e["direction"] == "forward":
            a = e["start"] + i * e["dt"]
            yield a, a + e["dt"] / 2, a + e["dt"]
        else:
            b = e["end"] - i * e["dt"]
            yield b - e["dt"], b - e["dt"] / 2, b


def uses(e, t):
    f = e["freq"]
    a = int(t // f * f)
    return {a} if a == t else {a, a + f}


def reach(e, broken_states, broken_fluxes):
    """How far a run gets: the time reached before the first step that needs a broken record."""
    at = e["start"] if e["direction"] == "forward" else e["end"]
    if uses(e, at) & broken_states:
        return None, False
    for t0, th, t1 in steps(e):
        if (uses(e, t0) | uses(e, t1)) & broken_states or uses(e, th) & broken_fluxes:
            return at, False
        at = t1 if e["direction"] == "forward" else t0
    return at, True


def run_track(e, obs, d):
    rng = np.random.default_rng([e["r"], 31])
    w, m, r, good = runner.run_exp(obs, e, d / "good")
    if not r.ok:
        return
    obs.count("controls_ok")
    _, _, cfg = world.setup(e, d / "bad", w, m)
    pre = d / "bad" / "pre"
    kind = e["kind"]
    obs.signature = gen.signature(e, kind, e["arg"])
    obs.sample = gen.brief(e, fault=kind, arg=e["arg"])
    files = sorted(pre.glob("*.nc"))
    day = {f: {int(s) for s in w.t if f.name.startswith(world.date_of(int(s), e["cal"]).strftime("%Y-%m-%d"))} for f in files}
    if kind in ("transient", "burst", "persistent"):
        return run_transient(e, obs, d, cfg, pre, good, rng)
    bs, bf = set(), set()
    what = kind
    if kind == "variable":
        f = files[int(rng.integers(len(files)))]
        rewrite(f, lambda ds: ds.drop_vars(e["arg"]))
        (bs if e["arg"] in world.STATE_VARS else bf).update(day[f])
        what = f"{e['arg']} missing in {f.name}"
    elif kind == "file":
        f = files[int(rng.integers(len(files)))]
        f.unlink()
        bs |= day[f]
        bf |= day[f]
        what = f"{f.name} missing"
    elif kind == "corrupt":
        f = files[int(rng.integers(len(files)))]
        corrupt(f, rng)
        bs |= day[f]
        bf |= day[f]
        what = f"{f.name} truncated"
    elif kind == "record":
        k = int(w.t[int(rng.integers(len(w.t)))])
        f = next(f for f in files if k in day[f])
        pos = sorted(day[f]).index(k)
        rewrite(f, lambda ds: ds.isel(time=[i for i in range(ds.sizes["time"]) if i != pos]))
        bs.add(k)
        bf.add(k)
        what = f"record {world.iso(k, e['cal'])} missing"
    elif kind == "restart":
        c = json.loads(cfg.read_text())
        c["restart"] = True
        cfg.write_text(json.dumps(c))
    at, complete = (None, False) if kind == "restart" else reach(e, bs, bf)
    if complete:
        obs.nontrivial = False  # a record that is not needed
        return
    r = runner.run_cli("track", cfg)
    obs.count("faults_injected")
    obs.count("tracking_faults")
    obs.expect(not r.ok, f"tracking-accepted-{kind}", f"{what}: the command ended normally")
    outs = runner.read_outputs(d / "bad" / "out", e["direction"])
    for o in outs:
        fine = at is not None and (o.sec <= at if e["direction"] == "forward" else o.sec >= at)
        obs.expect(fine, f"tracking-output-{kind}", f"{what}: {o.name} was written although its step needs that input")


def run_transient(e, obs, d, cfg, pre, good, rng):
    real = xr.open_dataset
    waits, failures = [], [0]
    state = {"left": {}, "calls": 0}
    kind, arg = e["kind"], e["arg"]

    def flaky(name, *a, **k):
        if str(name).startswith(str(pre)):
            state["calls"] += 1
            if kind == "persistent":
                if state["calls"] > e["r"] % 4:
                    failures[0] += 1
                    if failures[0] > 2000:
                        raise RuntimeError("retries without end")
                    raise IndexError("index exceeds dimension bounds")
            else:
                if "n" not in state:
                    state["n"] = arg if kind == "transient" else int(rng.integers(0, 9))
                if state["n"] > 0:
                    state["n"] -= 1
                    failures[0] += 1
                    raise IndexError("index exceeds dimension bounds")
                del state["n"]
                if kind == "transient" and rng.uniform() < 0.5:
                    state["n"] = 0
        return real(name, *a, **k)

    with runner.stand_in(real, flaky), runner.stand_in(_time.sleep, waits.append):
        r = runner.run_cli("track", cfg)
    obs.count("faults_injected")
    obs.count("transient_failures", failures[0])
    outs = runner.read_outputs(d / "bad" / "out", e["direction"])
    if kind == "persistent" and not failures[0]:
        obs.nontrivial = False
        return
    if kind == "persistent":
        obs.count("persistent_runs")
        obs.expect(not r.ok, "persistent-accepted", "a file that can never be read did not end the run")
        obs.expect(failures[0] <= 2000, "retries-without-end", "more than 2000 attempts to read a file")
        have = {o.sec: o for o in outs}
        obs.expect(set(have) < {o.sec for o in good}, "persistent-output", f"{len(outs)} outputs of {len(good)}")
        return
    obs.count("transient_runs")
    if not obs.expect(r.ok, "transient-not-retried", f"{kind} {arg} failures in a row, {failures[0]} in all: {r.why() if not r.ok else ''}"):
        return
    obs.nontrivial = failures[0] > 0
    runner.compare(obs, "transient-changes-results", outs, good, e, rtol=0, atol_rel=0, what=f"after {failures[0]} failed reads")


def run(p, obs, d):
    (run_pre if p["part"] == "pre" else run_track)(p, obs, d)
