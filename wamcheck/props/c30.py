"""C30: the ERA5 download scripts fetch what preprocessing needs, once, also after failed and interrupted downloads."""

import ast
import json
import os
import types
from datetime import date, timedelta
from pathlib import Path

import netCDF4
import numpy as np

import wam2layers
from wamcheck import raw, runner, world

RULE = (
    "each case runs one of the two download scripts with drawn settings (folder, dates over months, years and leap days, with gaps, times, levels, area, grid, skip_exist) against a stand-in for the "
    "client of the Climate Data Store, which serves what a request asks for from a synthetic archive, under a schedule of failures: refused requests, failures that leave part of a file, interrupted "
    "and killed processes; then runs it again. Files, requests and messages are compared with what the settings ask for, then `wam2layers preprocess era5` reads the downloaded files and is compared with an independent "
    "column integration of the archive. The scripts are also run with the settings they come with. Non-trivial: the downloads were complete."
)
MINIMUM = {"downloads": 30, "script_ml": 12, "script_pl": 12, "requests": 800, "files_compared": 700, "failed_requests": 10, "partial_files": 12, "interrupted": 5, "killed": 5, "skipped_files": 150,
           "preprocessed": 12, "fields_compared": 200, "with_area": 10, "global": 10, "over_months": 8, "default_settings": 2}
ASSUMPTIONS = ["the stand-in for the Climate Data Store client knows the request keywords of the two documented datasets; the real service is not reachable"]

SCRIPTS = Path(wam2layers.__file__).resolve().parents[2] / "scripts"
LONG = {"total_precipitation": "tp", "evaporation": "e", "surface_pressure": "sp", "2m_dewpoint_temperature": "d2m", "10m_u_component_of_wind": "u10", "10m_v_component_of_wind": "v10",
        "total_column_water": "tcw", "specific_humidity": "q", "u_component_of_wind": "u", "v_component_of_wind": "v"}
OTHER = {"2m_temperature", "total_column_water_vapour", "mean_sea_level_pressure", "temperature", "geopotential", "vertical_velocity"}
PARAMS = {"131": "u", "132": "v", "133": "q"}
NEEDED = {"ml": ["q", "u", "v", "sp", "e", "tp", "tcw"], "pl": ["q", "u", "v", "sp", "d2m", "u10", "v10", "e", "tp", "tcw"]}
SINGLE, COMPLETE, PRESSURE = "reanalysis-era5-single-levels", "reanalysis-era5-complete", "reanalysis-era5-pressure-levels"
DEFAULT_PL = [100, 200, 300, 400, 500, 550, 600, 650, 700, 750, 775, 800, 825, 850, 875, 900, 925, 950, 975, 1000]
DEFAULT_ML = [20, 40, 60, 80, 90, 95, 100, 105, 110, 115, 120, 123, 125, 128, 130, 131, 132, 133, 134, 135, 136, 137]


def warm(d):
    import pandas  # noqa: F401

    raw.warm(d)


def cases(tier, seed):
    n = 54 if tier == "quick" else 400
    rng = np.random.default_rng([seed, 3030])
    out = [dict(script=s, default=True) for s in ("ml", "pl")]
    for i in range(n):
        s = ["ml", "pl"][i % 2]
        y, m, d = [(2020, 2, 28), (2021, 12, 31), (2019, 2, 27), (1999, 6, 15), (2022, 9, 30), (2020, 1, 1)][(i // 2 + i // 12) % 6]
        first = date(y, m, d)
        days = [first + timedelta(k) for k in range(int(rng.integers(1, 4)))]
        if rng.uniform() < 0.2:
            days = [first + timedelta(3 * k) for k in range(len(days))]
        every = int(rng.choice([1, 3, 6, 12]))
        grid = [[30, 30], [15, 30], [10, 45], [22.5, 22.5]][int(rng.integers(4))]
        area = None
        if (i // 2) % 2:
            area = [[90, -180, 0, 90], [30, 0, -30, 180], [60, -90, 0, 90], [45, -90, -45, 45], [60, 90, -60, -90], [60, 90, 0, 270]][(i // 4) % 6]
        levels = sorted(int(x) for x in rng.choice(DEFAULT_ML if s == "ml" else DEFAULT_PL, int(rng.integers(3, 9)), replace=False))
        total = len(days) * len(NEEDED[s])
        faults = {}
        for a in range(int(rng.integers(1, 4)) if i % 5 else 0):
            faults[str(int(rng.integers(total)))] = ["refused", "partial", "interrupt", "killed", "partial"][(i + a) % 5]
        out.append(dict(script=s, default=False, days=[x.isoformat() for x in days], every=every, late=int(rng.integers(2)) * (every > 1), grid=grid, area=area, levels=levels, faults=faults,
                        layout=["old", "new"][int(rng.integers(2))], seed=int(rng.integers(2**31)), target=["data", ".", "deep/er folder"][int(rng.integers(3))], preprocess=i % 2 == (i // 4) % 2))
    return out


class Refused(Exception):
    pass


def listed(x):
    """CDS takes lists, and texts with slashes."""
    if isinstance(x, str):
        return [v.strip() for v in x.split("/")]
    if isinstance(x, (list, tuple)):
        return [v for v in x]
    return [x]


def sequence(x):
    """... and '1/to/5[/by/2]'."""
    v = [str(a) for a in listed(x)]
    if len(v) >= 3 and v[1] == "to":
        return [str(k) for k in range(int(v[0]), int(v[2]) + 1, int(v[4]) if len(v) > 4 else 1)]
    return v


def understand(name, r):
    """What a request asks for; refuses what the service would refuse."""
    r = dict(r)

    def take(*keys, default=Refused):
        for k in keys:
            if k in r:
                return r.pop(k)
        if default is Refused:
            raise Refused(f"request for {name} lacks {keys[0]}")
        return default

    q = dict(dataset=name)
    if "date" in r:
        v = listed(take("date"))
        if len(v) == 3 and v[1] == "to":
            v = [v[0], v[2]]
        v = [str(x)[:10] for x in v]
        v = [x if "-" in x else f"{x[:4]}-{x[4:6]}-{x[6:]}" for x in v]
        a, b = date.fromisoformat(v[0]), date.fromisoformat(v[-1])
        q["days"] = [(a + timedelta(k)).isoformat() for k in range((b - a).days + 1)] if isinstance(v, list) and len(v) == 2 else v
    else:
        q["days"] = [date(int(y), int(m), int(d)).isoformat() for y in listed(take("year")) for m in listed(take("month")) for d in listed(take("day"))]
    q["hours"] = sorted(int(str(x).split(":")[0]) for x in sequence(take("time")))
    g = take("grid", default=[0.25, 0.25])
    q["grid"] = [float(x) for x in listed(g)]
    a = take("area", default=None)
    q["area"] = None if a is None else [float(x) for x in listed(a)]
    if str(take("format", "data_format", default="grib")).lower() not in ("netcdf", "nc", "netcdf_legacy"):
        q["grib"] = True
    if str(take("download_format", default="unarchived")) != "unarchived":
        q["zip"] = True
    if name == COMPLETE:
        for k, v in (("class", "ea"), ("levtype", "ml"), ("stream", "oper"), ("type", "an")):
            got = str(take(k)).lower()
            if got != v:
                raise Refused(f"no such data: {k} {got}")
        if int(take("expver", default="1")) != 1:
            raise Refused("no such experiment")
        q["variables"] = [PARAMS.get(str(x).split(".")[0], str(x)) for x in listed(take("param"))]
        q["levels"] = [int(x) for x in sequence(take("levelist"))]
    elif name in (SINGLE, PRESSURE):
        kinds = listed(take("product_type"))
        if kinds != ["reanalysis"]:
            raise Refused(f"no such product: {kinds}")
        q["variables"] = []
        for x in listed(take("variable")):
            if x not in LONG and x not in OTHER:
                raise Refused(f"no such variable: {x}")
            q["variables"].append(LONG.get(x, x))
        q["levels"] = [int(x) for x in sequence(take("pressure_level"))] if name == PRESSURE else None
        if any((v in raw.WITH_LEVELS) != (name == PRESSURE) for v in q["variables"]):
            raise Refused(f"{q['variables']} not in {name}")
    else:
        raise Refused(f"no such dataset: {name}")
    return q


def archive(c):
    """The synthetic reanalysis on the whole globe, and where the area is in it."""
    dy, dx = c["grid"][1], c["grid"][0]
    lat = np.arange(90, -90 - dy / 2, -dy)
    lon = np.arange(0, 360, dx)
    days = [date.fromisoformat(x) for x in c["days"]]
    p = dict(source="era5", level_type="model_levels" if c["script"] == "ml" else "pressure_levels", levels=c["levels"], use=c["levels"], lat=list(lat), lon=list(lon), cal="standard",
             t0=world.sec_of("standard", days[0].year, days[0].month, days[0].day), freq=3600, nrec=24 * ((days[-1] - days[0]).days + 1), seed=c["seed"], dtype="f4", tcw=True,
             layout=c["layout"], level_layer_boundary=None, convention="cds")
    return p, raw.make(p)


def cut(rw, area):
    """Rows, columns and longitudes of an area, the way the service gives them."""
    if area is None:
        return np.arange(len(rw.lat)), np.arange(len(rw.lon)), rw.lon
    n, w, s, e = area
    j = np.where((rw.lat <= n) & (rw.lat >= s))[0]
    e = e + 360 if e < w else e
    k = [(np.argmin(np.abs((rw.lon - x + 180) % 360 - 180)), x) for x in np.arange(w, e + 1e-9, rw.lon[1] - rw.lon[0])]
    return j, np.array([a for a, _ in k]), np.array([b for _, b in k])


def serve(c, rw, q, path):
    """Write what was asked for."""
    if q.get("grib") or q.get("zip"):
        Path(path).write_bytes(b"GRIB" if q.get("grib") else b"PK")
        return
    if q["grid"] != [float(x) for x in c["grid"]]:
        raise Refused(f"not in this archive: grid {q['grid']}")
    j, i, lon = cut(rw, q["area"])
    want = [world.sec_of("standard", *[int(x) for x in d.split("-")], h) for d in q["days"] for h in q["hours"]]
    k = [int(np.where(rw.t == s)[0][0]) for s in sorted(want) if s in rw.t]
    sub = raw.Raw(rw.lat[j], lon, rw.levels, rw.cal, rw.t[k], {})
    for n in q["variables"]:
        if n in OTHER:
            a = np.zeros((len(k), len(j), len(i)), "f4")
        else:
            a = rw.data[n][k]
            if q["levels"] is not None:
                a = a[:, [rw.levels.index(x) for x in sorted(q["levels"]) if x in rw.levels]]
            a = a[..., j, :][..., i]
        lay = c["layout"] if c["layout"] == "old" or c["script"] == "ml" else "newp"
        raw.write_var(path, sub, n, None, lay, values=a, t=sub.t, levels=sorted(q["levels"]) if q["levels"] is not None else None)


def settled(source, settings):
    """The script with other settings."""
    tree = ast.parse(source)
    done = set()
    for node in tree.body:
        names = [t.id for t in node.targets if isinstance(t, ast.Name)] if isinstance(node, ast.Assign) else [node.target.id] if isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name) else []
        for n in names:
            if n in settings:
                node.value = ast.copy_location(ast.parse(settings[n], mode="eval").body, node.value)
                done.add(n)
    assert done == set(settings), f"settings not found: {set(settings) - done}"
    return ast.fix_missing_locations(tree)


def download(c, d, rw, settings, faults, log):
    """Run the script in a process of its own; its requests, what it prints and how it ends."""
    source = (SCRIPTS / f"download_era5_{c['script']}.py").read_text()
    code = compile(settled(source, settings), f"download_era5_{c['script']}.py", "exec")
    log.unlink(missing_ok=True)
    said = log.with_suffix(".txt")
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            import sys

            sys.stdout = sys.stderr = open(said, "w", buffering=1)
            count = [0]

            class Client:
                def __init__(self, *a, **k):
                    pass

                def retrieve(self, name, request, target=None):
                    n = count[0]
                    count[0] += 1
                    fault = faults.get(str(n))
                    with open(log, "a") as f:
                        f.write(json.dumps(dict(name=name, request=request, target=str(target), fault=fault)) + "\n")
                    if fault == "refused":
                        raise [RuntimeError("the request you have submitted is not valid"), ConnectionError("connection reset"), ValueError("queue"), OSError(5, "input/output error")][n % 4]
                    if fault:
                        Path(target).write_bytes(b"CDF\x01 the rest never came")
                        if fault == "partial":
                            raise Exception("Download failed: downloaded 24 byte(s) out of 1024")
                        if fault == "interrupt":
                            raise KeyboardInterrupt
                        os._exit(9)
                    if rw is None:
                        Path(target).write_bytes(b"placeholder")
                    else:
                        serve(c, rw, understand(name, request), target)

            mod = types.ModuleType("cdsapi")
            mod.Client = Client
            sys.modules["cdsapi"] = mod
            os.chdir(d)
            exec(code, {"__name__": "__main__", "__file__": str(SCRIPTS / f"download_era5_{c['script']}.py")})
            rc = 0
        except KeyboardInterrupt:
            rc = 8
        except BaseException:
            import traceback

            traceback.print_exc(file=open(said, "a"))
        finally:
            os._exit(rc)
    rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    asked = [json.loads(x) for x in log.read_text().splitlines()] if log.exists() else []
    return rc, asked, said.read_text()


def path_of(root, script, day, var):
    y, m, d = day.split("-")
    lev = f"_{script}" if var in raw.WITH_LEVELS else ""
    return Path(root) / y / m / f"ERA5_{day}{lev}_{var}.nc"


def same(c, rw, day, var, path):
    """Why a downloaded file is not what preprocessing needs, or None."""
    j, i, lon = cut(rw, c["area"])
    hours = hours_of(c)
    y, m, dd = [int(x) for x in day.split("-")]
    k = [int(np.where(rw.t == world.sec_of("standard", y, m, dd, h))[0][0]) for h in hours]
    want = rw.data[var][k][..., j, :][..., i]
    try:
        with netCDF4.Dataset(path) as ds:
            ds.set_auto_mask(False)
            v = [x for n, x in ds.variables.items() if x.ndim >= 3]
            if len(v) != 1:
                return f"{len(v)} fields in it"
            if v[0].name != var:
                return f"holds {v[0].name}"
            t = ds.variables[v[0].dimensions[0]][:]
            if list(t) != list(rw.t[k]):
                return f"times are {[int(x) for x in t[:3]]}..., {len(t)} in all, not {len(k)} of {day}"
            if v[0].shape != want.shape:
                return f"shape {v[0].shape}, not {want.shape}"
            if not np.array_equal(ds.variables["longitude"][:], lon) or not np.array_equal(ds.variables["latitude"][:], rw.lat[j]):
                return "other area"
            if var in raw.WITH_LEVELS and list(ds.variables[v[0].dimensions[1]][:]) != c["levels"]:
                return "other levels"
            if not np.array_equal(v[0][:], want):
                return "other values"
    except OSError as e:
        return f"cannot be read ({e})"
    return None


def hours_of(c):
    return list(range(c["late"], 24, c["every"]))


def run(c, obs, d):
    obs.count("script_" + c["script"])
    if c["default"]:
        return default(c, obs, d)
    p, rw = archive(c)
    root = d / c["target"]
    template = str(root / "{year}" / "{month:02d}" / "ERA5_{year}-{month:02d}-{day:02d}{levtype}_{variable}.nc")
    wanted = {(x, n): path_of(root, c["script"], x, n) for x in c["days"] for n in NEEDED[c["script"]]}
    settings = dict(
        target_dir=repr(str(root) if c["seed"] % 2 else c["target"]), skip_exist="True", datelist="pd.DatetimeIndex(" + repr(c["days"]) + ")", grid=repr(c["grid"]), area=repr(c["area"]),
        times=repr([f"{h:02d}:00" for h in hours_of(c)]), levels=repr("/".join(str(x) for x in c["levels"]) if c["script"] == "ml" else [str(x) for x in c["levels"]]),
    )
    obs.count("with_area" if c["area"] else "global")
    obs.count("over_months", len({x[:7] for x in c["days"]}) > 1)
    what = f"download_era5_{c['script']}.py of {c['days'][0]} to {c['days'][-1]}, area {c['area']}, faults {c['faults']}"

    def present():
        return {k: f.stat().st_mtime_ns for k, f in wanted.items() if f.exists()}

    faults = dict(c["faults"])
    asked_for = {}
    for attempt in range(5):
        before = present()
        rc, asked, said = download(c, d, rw, settings, faults, d / f"requests{attempt}")
        obs.count("downloads")
        obs.count("requests", len(asked))
        hit = [a["fault"] for a in asked if a["fault"]]
        for x in hit:
            obs.count({"interrupt": "interrupted", "killed": "killed"}.get(x, "failed_requests"))
            obs.count("partial_files", x != "refused")
        ended = {"interrupt": (8, 0, 1), "killed": (9,)}.get(hit[-1] if hit else None, (0,))
        if not obs.expect(rc in ended, "script-ended", f"{what}: attempt {attempt} ended with {rc}: {said[-300:]}"):
            return
        after = present()
        for k, m in before.items():
            obs.count("skipped_files")
            obs.expect(after.get(k) == m, "existing-file-touched", f"{what}: {wanted[k].name} was there and skip_exist is set, but it was written again or removed")
        n = len(wanted) - len(before)
        if not hit:
            obs.expect(len(asked) <= n, "too-many-requests", f"{what}: attempt {attempt} made {len(asked)} requests for {n} missing files")
            break
        if rc == 0:
            # every failed request is reported, and the others go on
            obs.expect(len(asked) >= n, "gave-up", f"{what}: after {hit} only {len(asked)} of {n} requests were made")
            obs.expect(len(after) >= len(wanted) - len(hit), "gave-up", f"{what}: {len(hit)} requests failed, {len(wanted) - len(after)} files are missing")
            obs.expect(len([x for x in said.splitlines() if x.strip() and "exist" not in x]) >= len(hit), "failure-not-reported", f"{what}: {len(hit)} requests failed, the script said {said[-300:]!r}")
        for k in after:
            asked_for[k] = 1
        faults = {}
    bad = []
    for (x, n), f in wanted.items():
        why = same(c, rw, x, n, f) if f.exists() else "missing"
        obs.count("files_compared")
        if why:
            bad.append(f"{f.relative_to(root)}: {why}")
    if not obs.expect(not bad, "wrong-download", f"{what}: after {attempt + 1} runs of the script {len(bad)} files are wrong, {bad[:3]}"):
        return
    # everything is there: nothing to do; and once more when asked to
    first = present()
    rc, asked, said = download(c, d, rw, settings, {}, d / "again")
    obs.count("downloads")
    obs.expect(rc == 0 and not asked and present() == first, "downloads-again", f"{what}: all files were there, another run made {len(asked)} requests and ended with {rc}")
    if c["seed"] % 3 == 0:
        for f in wanted.values():
            f.write_bytes(b"old")
        rc, asked, said = download(c, d, rw, dict(settings, skip_exist="False"), {}, d / "anew")
        obs.count("downloads")
        bad = [f.name for (x, n), f in wanted.items() if same(c, rw, x, n, f)]
        obs.expect(rc == 0 and not bad, "not-forced", f"{what}: without skip_exist the files {bad[:3]} were not downloaded anew ({said[-200:]})")
    obs.sample = dict(what=what, files=len(wanted), attempts=attempt + 1, requests=obs.counters["requests"])
    if c["preprocess"]:
        preprocess(c, obs, d, p, rw, template)
    obs.signature = f"{c['script']}|{c['days']}|{c['every']}|{c['late']}|{c['grid']}|{c['area']}|{len(c['levels'])}|{sorted(c['faults'].values())}|{c['layout']}"


def preprocess(c, obs, d, p, rw, template):
    """The downloaded files are what the preprocessor understands."""
    j, i, lon = cut(rw, c["area"])
    h = hours_of(c)
    y, m, dd = [int(x) for x in c["days"][0].split("-")]
    start = world.sec_of("standard", y, m, dd, h[0])
    n = min(3, len(h))
    q = dict(p, freq=c["every"] * 3600, start=start, end=start + (n - 1) * c["every"] * 3600, lat=[float(x) for x in rw.lat[j]], lon=[float(x) for x in lon])
    sub = raw.Raw(rw.lat[j], lon, rw.levels, rw.cal, rw.t, {k: v[..., j, :][..., i] for k, v in rw.data.items()})
    cfg = raw.config(d / "wam", q, template)
    r = runner.run_cli("preprocess", "era5", cfg)
    if not obs.expect(r.ok, "preprocess-failed", f"downloaded files cannot be preprocessed: {None if r.ok else r.why()}"):
        return
    obs.count("preprocessed")
    seen = set()
    files = raw.read_all(d / "wam" / "pre")
    for f, x, k in raw.records(sub, q, files):
        seen.add(int(sub.t[k]))
        out, slack, more = raw.expect(sub, q, k)
        at = raw.locate(f, sub)
        for name in raw.PRE_VARS:
            want, got = out[name][at], f.v[name][x]
            tol = raw.tolerance(name, want, more["column"][at]) + slack[name][at]
            obs.count("fields_compared")
            if name in ("evap", "precip") or name[0] in "sf":
                obs.expect(bool(np.all(np.abs(got - want) <= tol)), f"preprocessed-{name}", f"{name} from downloaded files differs by up to {np.nanmax(np.abs(got - want)):.4g}")
    obs.expect(seen == set(raw.requested(q)), "preprocessed-times", f"times {sorted(seen)}, asked for {raw.requested(q)}")


def default(c, obs, d):
    """As they come: all hours of each day, and the levels of the example configuration."""
    import yaml

    rc, asked, said = download(c, d, None, {}, {}, d / "requests")
    obs.expect(rc == 0, "script-ended", f"the script with its own settings ended with {rc}: {said[-300:]}")
    got = {}
    for a in asked:
        try:
            q = understand(a["name"], a["request"])
        except Refused as e:
            obs.fail("refused-request", f"with its own settings the script makes a request that is refused: {e}")
            continue
        obs.count("requests")
        for x in q["days"]:
            for n in q["variables"]:
                got.setdefault(n, {})[x] = q
                obs.expect(q["hours"] == list(range(24)), "default-hours", f"{n}: {q['hours']}")
    days = set(got.get("tp", ()))
    obs.expect(days, "default-days", "nothing was requested")
    for n in NEEDED[c["script"]]:
        obs.expect(set(got.get(n, ())) == days, "default-variables", f"{n} requested for {sorted(got.get(n, ()))}, tp for {sorted(days)}")
        for x in days:
            obs.expect(path_of(d, c["script"], x, n).exists(), "default-files", f"no file {path_of('.', c['script'], x, n)}")
    if c["script"] == "ml":
        levels = yaml.safe_load((SCRIPTS.parent / "example_config.yaml").read_text())["levels"]
        for n in raw.WITH_LEVELS:
            for x, q in got.get(n, {}).items():
                obs.expect(set(levels) <= set(q["levels"]), "default-levels", f"{n}: the example configuration uses levels {sorted(set(levels) - set(q['levels']))} that are not downloaded")
    obs.count("default_settings")
    obs.count("downloads")
    obs.signature = f"default|{c['script']}"
