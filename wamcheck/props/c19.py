"""C19: runs are reproducible, independent of each other, and leave inputs untouched."""

import hashlib
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

import netCDF4
import numpy as np

from wamcheck import gen, raw, runner, world

RULE = (
    "each case is a random history of tracking and preprocessing commands in one process. Experiments share folder and file names; before a command the input "
    "files are replaced by those of its experiment (other data, other cells, other mask, other shapefile), and commands that fail on removed input come in between. Every file "
    "a command writes is compared, bit for bit, with what the same command writes in a fresh process of its own in another folder (with other settings of "
    "hash seed, time zone and threads). Checksums of all input, mask and configuration files are taken around every command. Non-trivial: an experiment was "
    "run after one with other input of the same name."
)
MINIMUM = {"commands": 120, "commands_tracking": 60, "commands_preprocess": 30, "commands_after_change": 60, "commands_failing": 8, "fresh_processes": 12, "fresh_forks": 20, "files_compared": 300, "repeats": 15, "checksums": 800, "masks_checked": 15, "shapefile_commands": 12}
ASSUMPTIONS = ["the cloud archive of ARCO-ERA5 never changes and is left out"]

FRESH = "import sys\nfrom wam2layers.cli import cli\ncli()\n"


def warm(d):
    # import only: a fork of a process that has run nothing yet counts as a fresh one
    import cftime  # noqa: F401
    import dask.array  # noqa: F401
    import xarray as xr
    from xarray.backends.plugins import list_engines

    list_engines()
    xr.Dataset({"a": ("x", [0.0])}).to_netcdf(d / "a.nc")
    xr.open_dataset(d / "a.nc").close()


def cases(tier, seed):
    n = 20 if tier == "quick" else 240
    rng = np.random.default_rng([seed, 1919])
    out = []
    for i in range(n):
        exps = []
        e = world.random_exp(rng, nsteps=5, tagwin="all", region=["mask", "fmask", "box", "shape", "shape"][int(rng.integers(5))], tail=0)
        e["kind"] = "track"
        others = [
            dict(e, seed=e["seed"] + 1),
            dict(e, seed=e["seed"] + 2, direction={"forward": "backward", "backward": "forward"}[e["direction"]]),
            dict(e, region={"kind": ["shape", "mask"][i % 2], "seed": e["seed"] % 1000}),
            dict(e, lat0=e["lat0"] - 2.0, seed=e["seed"] + 3),
            dict(e, style="storm", kvf=1.0, out=e["dt"] if 86400 % e["dt"] == 0 else e["out"]),
        ]
        if not e["periodic"]:
            others.append(dict(e, seed=e["seed"] + 4, domain=True, region={"kind": "box", "seed": e["seed"] % 1000}))
        pick = rng.permutation(len(others))[:2]
        exps += [e] + [others[k] for k in pick]
        if i % 3 != 0:
            if i % 3 == 1:
                p = raw.random_pre(rng, nreq=2, freq=21600, ny=3, nx=4)
            else:
                p = raw.random_cmip(rng, days=1)
            p["kind"] = "pre"
            more = [dict(p, seed=p["seed"] + 1)]
            if p["source"] == "era5":
                more.append(dict(p, seed=p["seed"] + 2, lat=p["lat"][::-1]))
                more.append(dict(p, seed=p["seed"] + 3, lon=[x + 0.0 for x in p["lon"]], tcw=not p["tcw"]))
            exps += [p, more[int(rng.integers(len(more)))]]
        ops = []
        for _ in range(5 if len(exps) == 3 else 6):
            k = int(rng.integers(len(exps)))
            # broken: an input file removed before the command
            ops.append([k, "broken" if rng.uniform() < 0.12 else "run"])
        # make sure that the same name is used with other content, and the first one again
        ops += [[0, "run"], [1, "run"], [0, "run"], [0, "run"]]
        if len(exps) > 3:
            ops += [[3, "run"], [4, "run"], [3, "run"]]
        cut = int(rng.integers(len(ops)))
        out.append(dict(exps=exps, ops=ops[cut:] + ops[:cut], clean=bool(rng.uniform() < 0.5), seed=int(rng.integers(2**31))))
    return out


def prepare(e, folder):
    """Write input, mask and configuration of an experiment, replacing others of the same name."""
    group = Path(folder) / e["kind"]
    for x in ("pre", "raw"):
        if e["kind"] == "track" or x == "raw":
            shutil.rmtree(group / x, ignore_errors=True)
    for x in ("mask.nc", "region.shp", "region.shx", "region.dbf", "config.yaml"):
        (group / x).unlink(missing_ok=True)
    if e["kind"] == "track":
        over = {}
        w = world.make_world(world.world_params(e))
        if e.get("domain"):
            over["tracking_domain"] = [float(w.lon[0]), float(w.lat[-1]), float(w.lon[-2]), float(w.lat[0])]
        if e["region"]["kind"] == "shape":
            group.mkdir(parents=True, exist_ok=True)
            over["tagging_region"] = write_shape(group / "region", w, e["seed"] + e["region"]["seed"])
        _, _, cfg = world.setup(e, group, w, **over)
        return ["track", str(cfg)], group / "out"
    group.mkdir(parents=True, exist_ok=True)
    if e["source"] == "cmip":
        tpl = raw.write_cmip(raw.make_cmip(e), group / "raw", e)
    else:
        tpl = raw.write_era5(raw.make(e), group / "raw", e)
    cfg = raw.config(group, e, tpl)
    return ["preprocess", e["source"], str(cfg)], group / "pre"


def write_shape(path, w, seed):
    """A rectangle somewhere in the interior of the grid, not along cell edges."""
    import shapefile

    rng = np.random.default_rng([seed, 191])
    x0, x1 = np.sort(rng.uniform(w.lon[0], w.lon[-1], 2)) + np.array([-0.6, 0.6]) * w.dlon
    y0, y1 = np.sort(rng.uniform(max(w.lat[-1], -70), min(w.lat[0], 70), 2)) + np.array([-0.6, 0.6]) * w.dlat
    with shapefile.Writer(str(path), shapeType=shapefile.POLYGON) as f:
        f.field("name", "C")
        f.poly([[[x0, y0], [x0, y1], [x1, y1], [x1, y0], [x0, y0]]])
        f.record("region")
    return str(path) + ".shp"


def content(path):
    """Everything of a netCDF file that is a result: dimensions, variables and units."""
    with netCDF4.Dataset(path) as ds:
        ds.set_auto_maskandscale(False)
        out = {"": {k: len(v) for k, v in ds.dimensions.items()}}
        for n, v in ds.variables.items():
            a = np.array(v[...])
            out[n] = (v.dimensions, str(a.dtype), a, getattr(v, "units", None), getattr(v, "calendar", None))
    return out


def results(folder):
    return {p.name: content(p) for p in sorted(Path(folder).glob("*.nc"))}


def difference(a, b):
    if a[""] != b[""]:
        return f"dimensions {a['']} against {b['']}"
    if set(a) != set(b):
        return f"variables {sorted(set(a) ^ set(b))}"
    for n in a:
        if n == "":
            continue
        x, y = a[n], b[n]
        if x[:2] != y[:2] or x[3:] != y[3:]:
            return f"{n}: {x[:2] + x[3:]} against {y[:2] + y[3:]}"
        if not np.array_equal(x[2], y[2], equal_nan=x[2].dtype.kind == "f"):
            return f"{n}: {int((x[2] != y[2]).sum())} of {x[2].size} values differ, largest difference {np.nanmax(np.abs(x[2].astype('f8') - y[2].astype('f8'))):.3g}"
    return None


def inputs(folder, output):
    """Checksums of everything but the output folder."""
    out = {}
    for p in sorted(Path(folder).rglob("*")):
        if p.is_file() and Path(output) not in p.parents:
            out[str(p.relative_to(folder))] = hashlib.sha256(p.read_bytes()).hexdigest()
    return out


def fresh(e, k, folder, obs, rng):
    args, output = prepare(e, folder)
    env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1000))), TZ=["UTC", "Asia/Tokyo", "America/Lima"][k % 3], OMP_NUM_THREADS=str(1 + k % 3))
    if rng.uniform() < 0.7:
        obs.count("fresh_forks")
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                os.chdir(folder)
                rc = 0 if runner.run_cli(*args).ok else 1
            finally:
                os._exit(rc)
        status = os.waitpid(pid, 0)[1]
        return status, results(output), f"status {status}"
    r = subprocess.run([sys.executable, "-c", FRESH, *args], cwd=folder, env=env, capture_output=True, timeout=200)
    obs.count("fresh_processes")
    return r.returncode, results(output), r.stderr.decode(errors="replace")[-300:]


def run(case, obs, d):
    rng = np.random.default_rng([case["seed"], 19])
    exps = case["exps"]
    want = {}
    home = d / "home"
    home.mkdir()
    last = {}
    obs.nontrivial = False
    for k in sorted({k for k, _ in case["ops"]}):
        want[k] = fresh(exps[k], k, d / f"fresh{k}", obs, rng)
        if want[k][0]:
            obs.fail("run-failed", f"a valid experiment ended with {want[k][2]}")
            return
    for n, (k, how) in enumerate(case["ops"]):
        e = exps[k]
        args, output = prepare(e, home)
        if case["clean"] or how == "broken":
            shutil.rmtree(output, ignore_errors=True)
        if how == "broken":
            files = sorted(x for x in (home / e["kind"] / ("pre" if e["kind"] == "track" else "raw")).rglob("*") if x.is_file())
            files[int(rng.integers(len(files)))].unlink()
        before = inputs(home, output)
        r = runner.run_cli(*args)
        after = inputs(home, output)
        obs.count("commands")
        obs.count("commands_tracking", e["kind"] == "track")
        obs.count("commands_preprocess", e["kind"] == "pre")
        obs.count("checksums", len(before))
        obs.count("masks_checked", sum(x.endswith(("mask.nc", "region.shp")) for x in before))
        obs.count("shapefile_commands", sum(x.endswith("region.shp") for x in before))
        for x in before:
            if x not in after:
                obs.fail("input-removed", f"{' '.join(args[:-1])}: {x} is gone after the command")
            elif after[x] != before[x]:
                obs.fail("input-modified", f"{' '.join(args[:-1])}: {x} was modified by the command")
        what = f"command {n} ({args[0]} experiment {k}, before it: {[a for a, _ in case['ops'][:n]]})"
        if how == "broken":
            obs.count("commands_failing", not r.ok)  # the removed file may not be needed
            last[e["kind"]] = k
            continue
        if not r.ok:
            obs.fail("run-failed-in-history", f"{what} ended with {r.why()}, but not in a fresh process")
            continue
        if last.get(e["kind"], k) != k:
            obs.count("commands_after_change")
            obs.nontrivial = True
        elif e["kind"] in last:
            obs.count("repeats")
        last[e["kind"]] = k
        got = results(output)
        if case["clean"] and set(got) != set(want[k][1]):
            obs.fail("other-files-than-fresh-process", f"{what}: files {sorted(set(got) ^ set(want[k][1]))[:4]} written by only one of them")
        for name, x in want[k][1].items():
            if name not in got:
                obs.fail("other-files-than-fresh-process", f"{what}: {name} missing")
                continue
            obs.count("files_compared")
            diff = difference(got[name], x)
            obs.expect(diff is None, "differs-from-fresh-process", f"{what}: {name}: {diff}")
    obs.signature = "|".join(f"{e['kind']}{e.get('source', e.get('direction'))}{e.get('style', e.get('cal'))}" for e in exps) + "|" + ",".join(f"{k}{h[0]}" for k, h in case["ops"])
    obs.sample = dict(ops=case["ops"], kinds=[e["kind"] for e in exps])
