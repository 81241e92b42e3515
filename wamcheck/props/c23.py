"""C23: the input checker warns about exactly the data that break the requirements."""

import re
import warnings

import cftime
import numpy as np
import xarray as xr

from wamcheck import raw, runner  # noqa: F401

RULE = (
    "each case makes a data set that meets all requirements (any grid, calendar, number of records, precision, values up to the limits, in memory, from a file, in chunks), plants up "
    "to three defects in it and runs the checker; besides, the checker is run on files made by the preprocessing of all sources. The defects of each variable and coordinate are found "
    "independently from the values; every defective one has to be named in a warning (as many different ones as it has kinds of defects) and no other one. Non-trivial: a defect was planted or a preprocessed file checked."
)
MINIMUM = {"datasets": 600, "clean_datasets": 120, "datasets_one_record": 40, "datasets_cftime": 60, "preprocessed_files": 6, "defects_units": 80, "defects_range": 60, "defects_sign": 60, "defects_spacing": 50, "defects_order": 60, "defects_coordinate": 50, "defects_shape": 30, "names_warned": 800}
ASSUMPTIONS = [
    "the warning has to name the variable or coordinate; its wording is not judged",
    "uneven spacing is judged from one percent of the spacing upwards, rounding of the stored precision is not a defect",
]
FLUX = ["kg m-1 s-1", "kg m^-1 s^-1", "kg m**-1 s**-1"]
REQ = {
    "evap": (["kg m-2 s-1", "kg/m2/s"], 0, 1e-3),
    "precip": (["kg m-2 s-1", "kg/m2/s"], 0, 0.1),
    "s_upper": (["kg m-2", "kg/m2"], 0, 1000),
    "s_lower": (["kg m-2", "kg/m2"], 0, 1000),
    "fx_upper": (FLUX, -1000, 1000),
    "fy_upper": (FLUX, -1000, 1000),
    "fx_lower": (FLUX, -1000, 1000),
    "fy_lower": (FLUX, -1000, 1000),
}
COORDS = ["time", "latitude", "longitude"]
KINDS = ["units-missing", "units-wrong", "above", "below", "negative", "all-negative", "lat-order", "lon-order", "time-order", "uneven", "coord-missing", "extra-dim", "lacking-dim", "swap", "duplicate-time", "gap"]


def warm(d):
    raw.warm(d)


def cases(tier, seed):
    n, m, p = (40, 16, 9) if tier == "quick" else (300, 30, 90)
    rng = np.random.default_rng([seed, 2323])
    out = [{"seed": int(rng.integers(2**31)), "sets": m, "pre": None} for _ in range(n)]
    for i in range(p):
        out.append({"seed": int(rng.integers(2**31)), "sets": 0, "pre": raw.random_any(rng, i)})
    return out


def clean(rng):
    nt, ny, nx = int(rng.choice([1, 2, 3, 8, 24])), int(rng.integers(3, 12)), int(rng.integers(3, 14))
    res = float(rng.choice([0.1, 0.25, 0.7, 1.0, 1.40625, 2.5]))
    ct = rng.choice(["f4", "f8"])
    lat = (float(rng.uniform(-50, 60)) - res * np.arange(ny)).astype(ct)
    lon = (float(rng.uniform(-180, 140)) + res * np.arange(nx)).astype(ct)
    cal = str(rng.choice(["ns", "ns", "noleap", "360_day", "standard"]))
    dt = int(rng.choice([1800, 3600, 10800, 21600]))
    if cal == "ns":
        t = np.datetime64("2020-12-30T21:00", "ns") + np.timedelta64(dt, "s") * np.arange(nt)
    else:
        t = cftime.num2date(dt * np.arange(nt), "seconds since 2020-12-30", calendar=cal, only_use_cftime_datetimes=True)
    ds = xr.Dataset(coords={"time": t, "latitude": lat, "longitude": lon})
    for n, (units, lo, hi) in REQ.items():
        s = hi * float(rng.choice([1e-3, 0.1, 1.0]))
        v = rng.uniform(max(lo, -s), s, (nt, ny, nx))
        v[tuple(rng.integers(q) for q in v.shape)] = hi
        v[tuple(rng.integers(q) for q in v.shape)] = lo
        dt_ = rng.choice(["f4", "f8"])
        v = v.astype(dt_)
        if v.max() > hi:  # rounding of the limit itself
            v = np.where(v > hi, np.nextafter(v.dtype.type(hi), v.dtype.type(0)), v)
        ds[n] = (COORDS, v, {"units": str(rng.choice(units))})
    return ds


def plant(ds, kind, rng):
    """A copy with one defect, or None where it cannot be made."""
    n = str(rng.choice(list(REQ)))
    lo, hi = REQ[n][1:]
    at = tuple(rng.integers(q) for q in ds[n].shape)
    coord = str(rng.choice(COORDS))
    if kind == "units-missing":
        ds[n].attrs.pop("units", None)
    elif kind == "units-wrong":
        good = REQ[n][0]
        ds[n].attrs["units"] = str(rng.choice([u for u in ["kg m-2 s-1", "kg m-2", "kg m-1 s-1", "m", "mm", "kg", "", "kg m-2 s-2", "kg m-3 s-1"] if u not in good]))
    elif kind == "above":
        ds[n].values[at] = hi * float(rng.choice([1.01, 2, 1e6]))
    elif kind == "below":
        n = str(rng.choice([k for k in REQ if k[0] == "f"]))
        ds[n].values[tuple(rng.integers(q) for q in ds[n].shape)] = -1000 * float(rng.choice([1.01, 3, 1e6]))
    elif kind in ("negative", "all-negative"):
        n = str(rng.choice([k for k in REQ if k[0] != "f"]))
        if kind == "negative":
            ds[n].values[tuple(rng.integers(q) for q in ds[n].shape)] = -REQ[n][2] * float(rng.choice([1e-9, 1e-3, 1]))
        else:
            ds[n].values[:] = -np.abs(ds[n].values) - 1e-12
    elif kind in ("lat-order", "lon-order", "time-order"):
        c = {"lat": "latitude", "lon": "longitude", "time": "time"}[kind[:-6]]
        if c not in ds.coords or ds.sizes[c] < 2:
            return None
        return ds.isel({c: slice(None, None, -1)})
    elif kind in ("uneven", "swap", "duplicate-time", "gap"):
        if kind == "duplicate-time":
            coord = "time"
        if coord not in ds.coords or ds.sizes[coord] < 4:
            return None
        i = np.arange(ds.sizes[coord])
        k = int(rng.integers(1, len(i) - 1))
        if kind == "swap":
            i[k], i[k + 1] = i[k + 1], i[k]
        elif kind == "gap":
            i = np.delete(i, k)
        elif kind == "duplicate-time":
            i[k + 1] = i[k]
        v = ds[coord].values.copy()
        if kind == "uneven":
            v[k] = v[k] + (v[1] - v[0]) * float(rng.choice([0.02, -0.03, 0.4]))
            return ds.assign_coords({coord: v})
        return ds.isel({coord: i})
    elif kind == "coord-missing":
        if coord not in ds.coords:
            return None
        return ds.drop_vars(coord)
    elif kind == "extra-dim":
        if "level" in ds.dims:
            return None
        ds[n] = ds[n].expand_dims(level=int(rng.integers(1, 3)), axis=int(rng.integers(4)))
    elif kind == "lacking-dim":
        a = ds[n]
        if coord not in a.dims:
            return None
        ds[n] = a.isel({coord: 0}, drop=bool(rng.uniform() < 0.5))
    return ds


def seconds(v):
    if v.dtype == object:
        return np.array([(x - v[0]).total_seconds() for x in v])
    if v.dtype.kind == "M":
        return (v - v[0]) / np.timedelta64(1, "s")
    return v.astype("f8")


def defects(ds):
    """{name: kinds of defects}, found from the values; None if a borderline cannot be judged."""
    out = {}
    add = lambda n, k: out.setdefault(n, set()).add(k)
    for n, (units, lo, hi) in REQ.items():
        a = ds[n]
        if a.attrs.get("units") not in units:
            add(n, "units")
        v = a.values
        if (v < lo).any() or (v > hi).any():
            add(n, "range")
        if lo == 0 and (v < 0).any():
            add(n, "sign")
        if a.ndim != 3:
            add(n, "shape")
        for c in COORDS:
            if c not in a.coords:
                add(n, "coordinate")
                add(c, "coordinate")
            elif c not in a.dims:
                add(n, "shape")
    for c in COORDS:
        if c in ds.coords and ds[c].ndim == 1 and ds[c].size > 1:
            s = np.diff(seconds(ds[c].values))
            if c == "latitude":
                s = -s
            if (s < 0).any():
                add(c, "order")
            dev = np.abs(s - s[0]).max() / max(np.abs(s).min(), 1e-30)
            if dev > 9e-3:
                add(c, "spacing")
            elif dev > 9e-4:
                return None
    return out


def judge(obs, ds, what):
    from wam2layers.analysis.checks import check_input

    want = defects(ds)
    if want is None:
        obs.count("borderline_not_judged")
        return
    obs.count("datasets")
    obs.count("clean_datasets", not want)
    obs.count("datasets_one_record", ds.sizes.get("time", 0) == 1)
    obs.count("datasets_cftime", "time" in ds.coords and ds["time"].dtype == object)
    for ks in want.values():
        for k in ks:
            obs.count("defects_" + k)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            check_input(ds)
        except Exception as e:
            obs.fail(f"checker-crashes-{runner.fresh_error_name(e)}", f"{what}: check_input ended with {type(e).__name__}: {str(e)[:200]}; defects {want}")
            return
    msgs = {str(x.message) for x in ws if x.category is UserWarning}
    missing = {c for c in COORDS if "coordinate" in want.get(c, ())}
    said = {}
    for m in msgs:
        names = set(re.findall(r"\b(" + "|".join(list(REQ) + COORDS) + r")\b", m))
        if not names:
            obs.fail("warning-names-nothing", f"{what}: warning names no variable or coordinate: {m[:200]}")
        for n in names:
            said.setdefault(n, set()).add(m)
            if n not in want and not (names & missing):
                obs.fail("warning-without-defect", f"{what}: {n} meets all requirements, yet: {m[:200]}; defects {want}")
    obs.count("names_warned", len(said))
    for n, ks in want.items():
        need = len(ks - {"sign"}) or 1
        if len(said.get(n, ())) < need:
            obs.fail("no-warning-for-" + "-".join(sorted(ks)), f"{what}: {n} has defects {sorted(ks)} but the warnings on it are {sorted(said.get(n, ()))}")


def run(e, obs, d):
    rng = np.random.default_rng([e["seed"], 23])
    if e["pre"]:
        p = e["pre"]
        r = raw.run_source(p, d / "p", obs)
        if getattr(r[-1] if isinstance(r, tuple) else r, "error", None) is not None:
            obs.fail("run-failed", f"preprocessing a valid period failed: {r}")
        files = sorted((d / "p").rglob("*_fluxes_storages.nc"))
        for f in files:
            with xr.open_dataset(f) as ds:
                judge(obs, ds.load(), f"preprocessed {p.get('source', '')} file {f.name}")
            obs.count("preprocessed_files")
        obs.signature = raw.signature(p)
        obs.sample = raw.brief(p)
        return
    used = set()
    for i in range(e["sets"]):
        ds = clean(rng)
        k = [0, 1, 1, 1, 2, 3][int(rng.integers(6))]
        kinds = [str(x) for x in rng.choice(KINDS, k)]
        done = []
        for q in kinds:
            new = plant(ds.copy(deep=True), q, rng)
            if new is not None:
                ds = new
                done.append(q)
        how = str(rng.choice(["memory", "file", "chunks"]))
        if how != "memory":
            f = d / f"{i}.nc"
            ds.to_netcdf(f)
            ds = xr.open_dataset(f, chunks={} if how == "chunks" else None)
        if done and not defects(ds):
            obs.count("defect_vanished")
        judge(obs, ds, f"{how}, {dict(ds.sizes)}, planted {done}")
        ds.close()
        used |= set(done)
    obs.signature = "|".join(sorted(used)) + f"|{e['seed'] % 4}"
    obs.sample = {"planted": sorted(used)}
