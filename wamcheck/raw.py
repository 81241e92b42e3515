"""Synthetic raw model output for the preprocessing commands, and what they should make of it.

Nothing in here uses the code under test.
"""

import json
from dataclasses import dataclass
from functools import lru_cache
from pathlib import Path

import cftime
import netCDF4
import numpy as np

from wamcheck.world import EPOCH, date_of, freq_str, iso, sec_of

G = 9.80665
LATENT = 2.45e6
ML_TABLE = Path(__file__).with_name("l137.txt")
PRE_VARS = ["fx_upper", "fy_upper", "fx_lower", "fy_lower", "s_upper", "s_lower", "evap", "precip"]
PL = [1, 10, 50, 100, 150, 200, 250, 300, 400, 500, 550, 600, 650, 700, 750, 775, 800, 825, 850, 875, 900, 925, 950, 975, 1000]
ARCO_PL = [1, 2, 3, 5, 7, 10, 20, 30, 50, 70, 100, 125, 150, 175, 200, 225, 250, 300, 350, 400, 450, 500, 550, 600, 650, 700, 750, 775, 800, 825, 850, 875, 900, 925, 950, 975, 1000]
CMIP_PL = [5000, 25000, 50000, 60000, 70000, 85000, 92500]
WITH_LEVELS = ("q", "u", "v")


@dataclass
class Raw:
    lat: np.ndarray  # in file order
    lon: np.ndarray  # in file order and convention
    levels: list  # in file order (hPa, Pa for CMIP, or model level numbers)
    cal: str
    t: np.ndarray  # seconds since 1970
    data: dict  # name -> (nt[, nl], ny, nx)


def make(p):
    """p: source, level_type, levels (in file), lat, lon, cal, t0, freq, nrec, seed, dtype."""
    rng = np.random.default_rng([p["seed"], 4711])
    lat, lon = np.array(p["lat"], dtype="f8"), np.array(p["lon"], dtype="f8")
    ny, nx, nt, nl = len(lat), len(lon), p["nrec"], len(p["levels"])
    t = p["t0"] + p["freq"] * np.arange(nt, dtype="i8")
    sh, sh3 = (nt, ny, nx), (nt, nl, ny, nx)
    lev = np.array(p["levels"], dtype="f8")
    if p["level_type"] == "model_levels":
        x = lev / 137
    else:
        x = lev / (100000.0 if p["source"] == "cmip" else 1000.0)
    prof = (0.012 * x**3 + 1e-6)[None, :, None, None]
    d = {}
    d["q"] = prof * np.exp(0.5 * rng.normal(size=sh3))
    d["q"][rng.uniform(size=sh3) < 0.03] = 1e-9
    d["u"] = rng.normal(3, 12, sh3)
    d["v"] = rng.normal(-2, 9, sh3)
    sp = rng.uniform(p.get("ps_min", 52000), 104000, sh)
    if p["level_type"] == "pressure_levels":
        pa = lev * (1 if p["source"] == "cmip" else 100)
        pa = pa[(pa > p.get("ps_min", 52000)) & (pa < 104000)]
        k = rng.uniform(size=sh)
        if len(pa):
            sp = np.where(k < 0.25, rng.choice(pa, sh), sp)  # exactly on a level
        sp = np.where((k > 0.9), np.round(sp), sp)
    d["sp"] = sp
    d["d2m"] = rng.uniform(240, 300, sh)
    d["u10"] = rng.normal(1, 6, sh)
    d["v10"] = rng.normal(1, 6, sh)

    def signed(scale, frac_zero, frac_neg):
        a = scale * rng.exponential(1, sh)
        k = rng.uniform(size=sh)
        a = np.where(k < frac_zero, 0.0, a)
        return np.where(k > 1 - frac_neg, -a, a)

    d["tp"] = signed(2e-3, 0.3, 0.15) * 10.0 ** rng.integers(-4, 1, sh)
    d["e"] = -signed(5e-4, 0.1, 0.35) * 10.0 ** rng.integers(-3, 1, sh)
    d["tcw"] = rng.uniform(2, 60, sh)
    if p["source"] == "cmip":
        d["huss"] = rng.uniform(1e-4, 0.02, sh)
    dt = p.get("dtype", "f4")
    d = {k: v.astype(dt) for k, v in d.items()}
    return Raw(lat, lon, list(p["levels"]), p["cal"], t, d)


def write_var(path, raw, name, sel, layout="old", var=None, values=None, levels=None, t=None, lat_names=("latitude", "longitude"), level_name=None, pack=False, fill=None):
    """One file with one variable at the records `sel`."""
    path = Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    path.unlink(missing_ok=True)
    a = raw.data[name][sel] if values is None else values
    t = raw.t[sel] if t is None else t
    tn = "valid_time" if layout == "new" else "time"
    if level_name is None:
        level_name = {"old": "level", "lev": "lev", "new": "model_level", "newp": "pressure_level", "cmip": "plev"}[layout]
    if layout == "newp":
        tn = "valid_time"
    with netCDF4.Dataset(path, "w") as ds:
        ds.createDimension(tn, len(t))
        dims = [tn]
        if a.ndim == 4:
            levels = raw.levels if levels is None else levels
            ds.createDimension(level_name, len(levels))
            dims.append(level_name)
        for n, x in zip(lat_names, (raw.lat, raw.lon)):
            ds.createDimension(n, len(x))
            dims.append(n)
        v = ds.createVariable(tn, "f8" if layout == "cmip" else "i8", (tn,))
        v.units = "days since 1850-01-01" if layout == "cmip" else "seconds since 1970-01-01"
        v.calendar = raw.cal
        v[:] = cftime.date2num([date_of(int(s), raw.cal) for s in t], v.units, calendar=raw.cal)
        if a.ndim == 4:
            v = ds.createVariable(level_name, "f8" if layout in ("new", "newp", "cmip") else "i4", (level_name,))
            v[:] = levels
        for n, x in zip(lat_names, (raw.lat, raw.lon)):
            v = ds.createVariable(n, "f8", (n,))
            v[:] = x
        v = ds.createVariable(var or name, a.dtype, tuple(dims), fill_value=fill)
        v[:] = a
        # auxiliary coordinates as in real files
        if layout == "cmip" and (var or name) in ("huss", "uas", "vas"):
            h = ds.createVariable("height", "f8", ())
            h[...] = 2.0 if var == "huss" else 10.0
            v.coordinates = "height"
        if layout in ("new", "newp"):
            h = ds.createVariable("number", "i8", ())
            h[...] = 0
            h = ds.createVariable("expver", str, (tn,))
            h[:] = np.array(["0001"] * len(t), dtype=object)
            v.coordinates = "number expver"


ERA5_VARS = {"pressure_levels": ["q", "u", "v", "sp", "d2m", "u10", "v10", "e", "tp"], "model_levels": ["q", "u", "v", "sp", "e", "tp"]}
TEMPLATES = {
    "day": "{year}-{month:02d}-{day:02d}{levtype}_{variable}.nc",
    "time": "{year}/{month:02d}/{day:02d}T{hour:02d}{minute:02d}{levtype}_{variable}.nc",
    "month": "{year}{month:02d}{levtype}_{variable}.nc",
    "year": "x{year}{levtype}_{variable}.nc",
}


def era5_path(folder, template, name, level_type, sec, cal):
    x = date_of(int(sec), cal)
    lt = ("_ml" if level_type == "model_levels" else "_pl") if name in WITH_LEVELS else ""
    return Path(folder) / template.format(year=x.year, month=x.month, day=x.day, hour=x.hour, minute=x.minute, levtype=lt, variable=name)


def write_era5(raw, folder, p):
    """Files by day, month, year or time. Returns the filename template."""
    template = TEMPLATES[p.get("per", "day")]
    names = list(ERA5_VARS[p["level_type"]])
    if p.get("tcw", True):
        names.append("tcw")
    lay = p.get("layout", "old")
    if lay == "new" and p["level_type"] == "pressure_levels":
        lay = "newp"
    for n in names:
        groups = {}
        for k, s in enumerate(raw.t):
            groups.setdefault(era5_path(folder, template, n, p["level_type"], s, raw.cal), []).append(k)
        for path, ks in groups.items():
            write_var(path, raw, n, ks, lay)
    return str(Path(folder) / template)


def config(folder, p, template, **over):
    folder = Path(folder)
    # the periods of tracking and tagging are other ones than the one to preprocess
    track, tag = [(0, 0), (-2, -1), (3, 3), (0, 40), (-400, -400), (1, 0)][(p["start"] // 86400 + len(p["lon"])) % 6]

    def day(sec, shift):
        return iso(sec + shift * 86400, p["cal"])

    c = dict(
        filename_template=template,
        preprocessed_data_folder=str(folder / "pre"),
        output_folder=str(folder / "out"),
        calendar=p["cal"],
        tracking_direction="forward",
        tagging_region=[0.0, 0.0, 10.0, 10.0],
        tracking_start_date=day(p["start"], track),
        tracking_end_date=day(p["end"], track),
        tagging_start_date=day(p["start"], tag),
        tagging_end_date=day(p["end"], tag),
        preprocess_start_date=iso(p["start"], p["cal"]),
        preprocess_end_date=iso(p["end"], p["cal"]),
        input_frequency=freq_str(p["freq"]),
        output_frequency="1d",
        timestep=600,
        level_type=p["level_type"],
        levels=p["use"],
        restart=False,
        periodic_boundary=False,
        kvf=3,
    )
    for k in ("level_layer_boundary", "pressure_boundary_factor", "pressure_boundary_offset"):
        if p.get(k) is not None:
            c[k] = p[k]
    c.update(over)
    folder.mkdir(parents=True, exist_ok=True)
    path = folder / "config.yaml"
    path.write_text(json.dumps(c, indent=1))
    return path


@lru_cache
def ab():
    _, a, b = np.loadtxt(ML_TABLE, unpack=True)
    assert len(a) == 138
    return a, b


def thickness(use, sp):
    """Pressure thickness of the model levels in use; (level, y, x)."""
    a, b = ab()
    if use in ("all", "All"):
        ea, eb = a, b
    else:
        i = np.sort(use) - 1
        fa, fb = ((a[1:] + a[:-1]) / 2)[i], ((b[1:] + b[:-1]) / 2)[i]
        ea = np.concatenate([[a[0]], (fa[1:] + fa[:-1]) / 2, [a[-1]]])
        eb = np.concatenate([[b[0]], (fb[1:] + fb[:-1]) / 2, [b[-1]]])
    edges = ea[:, None, None] + eb[:, None, None] * sp[None].astype("f8")
    return np.diff(edges, axis=0)


def teten(d2m, ps):
    eps = 287.0597 / 461.5250
    d2m, ps = d2m.astype("f8"), ps.astype("f8")
    e = 611.21 * np.exp(17.502 * (d2m - 273.15) / (d2m - 32.19))
    return eps * e / (ps - (1 - eps) * e)


def integer_levels(p):
    """Pressure levels that the preprocessor gets as integers."""
    return p["level_type"] == "pressure_levels" and (p["source"] == "arco" or (p["source"] == "era5" and p["layout"] in ("old", "lev")))


def columns(f, p, levels):
    """Layer storages and fluxes of one record: dict of (ny, nx), plus slack for ties.

    f: q, u, v (level, y, x) of the levels in use, with `levels` in Pa or model level
    numbers, sp, [qs, us, vs], [tcw].
    """
    f = {k: v.astype("f8") for k, v in f.items()}
    ny, nx = f["sp"].shape
    out = {n: np.zeros((ny, nx)) for n in PRE_VARS[:6]}
    slack = {n: np.zeros((ny, nx)) for n in PRE_VARS[:6]}
    ncol = {}
    if p["level_type"] == "model_levels":
        dp = thickness(p["use"], f["sp"])
        w = f["q"] * dp / G
        if "tcw" in f:
            w = w * (f["tcw"] / w.sum(0))
        lower = np.array(levels) > p["level_layer_boundary_eff"]
        for n, m in (("lower", lower), ("upper", ~lower)):
            out["s_" + n] = w[m].sum(0)
            out["fx_" + n] = (w * f["u"])[m].sum(0)
            out["fy_" + n] = (w * f["v"])[m].sum(0)
        return out, slack, dict(column=w.sum(0))
    A, B = p.get("pressure_boundary_factor") or 0.72878581, p.get("pressure_boundary_offset")
    A = p["pressure_boundary_factor"] if p.get("pressure_boundary_factor") is not None else 0.72878581
    B = 7438.803223 if B is None else B
    lev = np.array(levels, dtype="f8")
    order = np.argsort(lev)
    top = order[0]
    whole = integer_levels(p)
    column = np.zeros((ny, nx))
    coarse = {n: np.zeros((ny, nx)) for n in out}
    ties = 0
    for j in range(ny):
        for i in range(nx):
            ps = f["sp"][j, i]
            pb = A * ps + B
            above = [k for k in order if lev[k] < ps]
            tie = any(lev[k] == ps or (whole and lev[k] == np.floor(ps)) for k in order)
            ties += tie
            variants = []
            # a level exactly at the surface may stand on either side of the surface value
            for use_level in ([False, True] if tie else [False]):
                k = int(np.argmin(np.abs(lev - ps)))
                above = [a for a in above if not (tie and a == k)]
                P = [0.0] + [lev[k] for k in above] + [ps]
                V = [(0.0, f["u"][top, j, i], f["v"][top, j, i])]
                V += [(f["q"][k, j, i], f["u"][k, j, i], f["v"][k, j, i]) for k in above]
                if use_level:
                    V.append((f["q"][k, j, i], f["u"][k, j, i], f["v"][k, j, i]))
                else:
                    V.append((f["qs"][j, i], f["us"][j, i], f["vs"][j, i]))
                P, V = np.array(P), np.array(V)
                if pb < ps:
                    at = np.array([np.interp(pb, P, V[:, c]) for c in range(3)])
                    z = int(np.searchsorted(P, pb, side="left"))
                    P, V = np.insert(P, z, pb), np.insert(V, z, at, axis=0)
                mid, dp, m = (P[1:] + P[:-1]) / 2, np.diff(P), (V[1:] + V[:-1]) / 2
                w = m[:, 0] * dp / G
                col = w.sum()
                scale = f["tcw"][j, i] / col if "tcw" in f else 1.0
                w = w * scale
                low = mid >= pb
                r = {}
                for n, s in (("lower", low), ("upper", ~low)):
                    r["s_" + n] = w[s].sum()
                    r["fx_" + n] = (w * m[:, 1])[s].sum()
                    r["fy_" + n] = (w * m[:, 2])[s].sum()
                r["column"] = w.sum()
                variants.append(r)
            if whole:  # pressures truncated to whole Pascal (known finding)
                e = 6 / G * scale * np.abs(V[:, 0]).max()
                wind = np.abs(V[:, 1:]).max(0)
                for n in out:
                    coarse[n][j, i] = e * (1 if n[0] == "s" else wind["xy".index(n[1])])
            for n in out:
                x = [r[n] for r in variants]
                out[n][j, i] = (max(x) + min(x)) / 2
                slack[n][j, i] = (max(x) - min(x)) / 2
            column[j, i] = variants[0]["column"] if not tie else np.mean([r["column"] for r in variants])
    ncol["column"] = column
    ncol["ties"] = ties
    ncol["coarse"] = coarse
    for n in out:
        slack[n] += coarse[n]
    return out, slack, ncol


def expect_era5(raw, p, k):
    """Reference for record k of ERA5-like input."""
    f = {"sp": raw.data["sp"][k]}
    use = raw.levels if p["use"] in ("all", "All") else p["use"]
    if p["level_type"] == "model_levels":
        use = sorted(use)
    idx = [raw.levels.index(x) for x in use]
    for n in WITH_LEVELS:
        f[n] = raw.data[n][k][idx]
    lev = use
    if p["level_type"] == "pressure_levels":
        lev = [x * 100.0 for x in use]
        f["qs"] = teten(raw.data["d2m"][k], raw.data["sp"][k])
        f["us"], f["vs"] = raw.data["u10"][k], raw.data["v10"][k]
    if p.get("tcw", True):
        f["tcw"] = raw.data["tcw"][k]
    q = dict(p)
    q["level_layer_boundary_eff"] = 111 if p.get("level_layer_boundary") is None else p["level_layer_boundary"]
    out, slack, more = columns(f, q, lev)
    tp, e = raw.data["tp"][k].astype("f8"), raw.data["e"][k].astype("f8")
    out["precip"] = (np.maximum(tp, 0) + np.maximum(e, 0)) * 1000 / p["freq"]
    out["evap"] = np.maximum(-e, 0) * 1000 / p["freq"]
    slack["precip"] = slack["evap"] = np.zeros_like(tp)
    return out, slack, more


def layout_index(lat, lon):
    """Expected coordinates of preprocessed files and where they come from."""
    lon2 = np.where(lon >= 180, lon - 360, lon) if (np.any(lon > 180) or np.any(lon < 0)) else lon
    i = np.argsort(lon2)
    j = np.argsort(-lat)
    return j, i, lat[j], lon2[i]


@dataclass
class PreFile:
    name: str
    secs: list
    cal: str
    lat: np.ndarray
    lon: np.ndarray
    v: dict
    units: dict
    bnds: dict


def read_pre(path):
    from wamcheck.harness import Malformed

    path = Path(path)
    try:
        with netCDF4.Dataset(path) as ds:
            ds.set_auto_mask(False)
            tv = ds.variables["time"]
            cal = getattr(tv, "calendar", "standard")
            d = cftime.num2date(np.asarray(tv[:], dtype="f8"), tv.units, calendar=cal, only_use_cftime_datetimes=True)
            secs = [int(round(float(cftime.date2num(x, EPOCH, calendar=cal)))) for x in np.atleast_1d(d)]
            v, units, bnds = {}, {}, {}
            for n, x in ds.variables.items():
                if n.endswith("_bnds"):
                    bnds[n] = np.array(x[:], dtype="f8")
                elif n in PRE_VARS:
                    if x.dimensions != ("time", "latitude", "longitude"):
                        raise Malformed(f"{path.name}: {n} has dimensions {x.dimensions}")
                    v[n] = np.array(x[:], dtype="f8")
                    units[n] = getattr(x, "units", None)
            miss = [n for n in PRE_VARS if n not in v]
            if miss:
                raise Malformed(f"{path.name} lacks {miss}")
            return PreFile(path.name, secs, cal, np.array(ds.variables["latitude"][:], dtype="f8"), np.array(ds.variables["longitude"][:], dtype="f8"), v, units, bnds)
    except (OSError, KeyError, AttributeError, ValueError) as e:
        raise Malformed(f"{path.name}: {type(e).__name__} {e}")


def read_all(folder):
    return [read_pre(x) for x in sorted(Path(folder).glob("*_fluxes_storages.nc"))]


def requested(p):
    """The times to be preprocessed."""
    return list(range(p["start"], p["end"] + 1, p["freq"]))


def random_grid(rng, convention=None, ny=None, nx=None):
    """Latitudes and longitudes in the order and convention of a raw file."""
    ny, nx = ny or int(rng.integers(2, 6)), nx or int(rng.integers(3, 7))
    d = float(rng.choice([0.25, 1.0, 2.5]))
    lat0 = float(rng.choice([-60, -10, 0, 30, 55]))
    lat = lat0 + d * np.arange(ny)
    if rng.uniform() < 0.6:
        lat = lat[::-1]
    c = convention or ["pm180", "greenwich360", "antimeridian360", "plain", "global360", "globalpm", "to180"][int(rng.integers(7))]
    if c == "pm180":
        lon = -50.0 + d * np.arange(nx)
    elif c == "greenwich360":  # 358 359 0 1 2 stored in increasing order of 0..360
        lon = np.sort((-d * (nx // 2) + d * np.arange(nx)) % 360)
        lon = np.concatenate([lon[lon > 180], lon[lon <= 180]]) if rng.uniform() < 0.5 else lon
    elif c == "antimeridian360":
        lon = 180 - d * (nx // 2) + d * np.arange(nx)
    elif c == "plain":
        lon = 20.0 + d * np.arange(nx)
    elif c == "to180":
        lon = 180 - d * np.arange(nx)[::-1]
    else:
        nx = int(rng.choice([6, 8, 12]))
        lon = 360 / nx * np.arange(nx)
        if c == "globalpm":
            lon = lon - 180
    return dict(lat=[float(x) for x in lat], lon=[float(x) for x in lon], convention=c)


def random_pre(rng, **fix):
    """A JSON-able description of an ERA5 preprocessing experiment."""

    def pick(name, options):
        v = options[int(rng.integers(len(options)))]
        return fix[name] if name in fix else v

    p = {"source": "era5", "seed": int(rng.integers(2**31))}
    p["level_type"] = pick("level_type", ["pressure_levels", "model_levels"])
    p.update(random_grid(rng, fix.get("convention"), fix.get("ny"), fix.get("nx")))
    p["cal"] = pick("cal", ["standard", "proleptic_gregorian", "gregorian"])
    p["freq"] = int(pick("freq", [3600, 3600, 10800, 21600, 1800, 43200]))
    y, m, d = pick("date", [(2020, 2, 28), (2021, 12, 30), (2022, 8, 30), (2021, 2, 28), (1999, 6, 15), (2020, 1, 1)])
    first = sec_of(p["cal"], y, m, d) + int(pick("hour", [0, 0, 6, 12, 18, 21, 42, 45])) * 3600
    n = int(pick("nreq", [1, 2, 3, 5]))
    p["start"] = int(first)
    p["end"] = int(first + (n - 1) * p["freq"] + int(pick("tail", [0, 0, p["freq"] // 2])))
    before = int(pick("before", [0, 1, 2]))
    p["t0"] = int(first - before * p["freq"])
    p["nrec"] = int(before + n + pick("after", [0, 1]))
    if p["level_type"] == "pressure_levels":
        k = int(rng.integers(3, len(PL) + 1))
        lev = sorted(rng.choice(PL, k, replace=False).tolist())
        if rng.uniform() < 0.3:
            lev = lev[::-1]
        u = int(rng.integers(2, len(lev) + 1))
        use = rng.choice(lev, u, replace=False).tolist()
        if rng.uniform() < 0.6:
            use = sorted(use)
        p["levels"] = lev
        p["use"] = fix["use"] if "use" in fix else ("all" if rng.uniform() < 0.25 else use)
        w = rng.uniform()
        if w < 0.5:
            lim = None
        elif w < 0.65:
            p["pressure_boundary_factor"], p["pressure_boundary_offset"] = 0.0, float(rng.choice([5000, 30000, 45000]))
        else:
            p["pressure_boundary_factor"], p["pressure_boundary_offset"] = float(rng.choice([0.5, 0.7, 0.9, 1.0])), float(rng.choice([0, -5000, -20000, 200.5]))
            if p["pressure_boundary_factor"] == 1.0 and p["pressure_boundary_offset"] > 0:
                p["pressure_boundary_offset"] = -1000.0
    else:
        if rng.uniform() < 0.15 or fix.get("use") == "all":
            p["levels"], p["use"] = list(range(1, 138)), "all"
        else:
            k = int(rng.integers(3, 25))
            lev = sorted(rng.choice(np.arange(1, 138), k, replace=False).tolist())
            p["levels"] = lev
            u = int(rng.integers(2, len(lev) + 1))
            p["use"] = rng.choice(lev, u, replace=False).tolist()
            if rng.uniform() < 0.7:
                p["use"] = sorted(p["use"])
            if rng.uniform() < 0.25:
                p["levels"] = lev[::-1]
        p["level_layer_boundary"] = [None, None, 1, 50, 100, 130, 137, int(rng.integers(1, 138))][int(rng.integers(8))]
    p["layout"] = pick("layout", ["old", "old", "new", "lev"])
    if p["layout"] == "lev" and p["level_type"] == "pressure_levels":
        p["layout"] = "old"
    p["tcw"] = bool(pick("tcw", [True, False]))
    p["per"] = pick("per", ["day", "day", "time", "month", "year"])
    p["dtype"] = pick("dtype", ["f4", "f4", "f8"])
    for k, v in fix.items():
        if k != "date":
            p.setdefault(k, v)
    return below_surface(p)


def below_surface(p):
    """Known finding: with integer levels a boundary at the surface does not work."""
    if integer_levels(p) and p.get("pressure_boundary_factor") == 1.0 and p["pressure_boundary_offset"] > -2:
        p["pressure_boundary_offset"] = -1000.0
    return p


def tolerance(n, want, mass, wind=40.0, rel=3e-5):
    """Rounding allowance: output is single precision, so is most input."""
    if n.startswith("s_"):
        return rel * np.abs(want) + rel * mass
    if n.startswith("f"):
        return rel * np.abs(want) + rel * mass * wind
    return 1e-5 * np.abs(want) + 1e-12


# --- CMIP ---------------------------------------------------------------------------

CMIP_NAMES = {"q": "hus", "u": "ua", "v": "va", "sp": "ps", "huss": "huss", "u10": "uas", "v10": "vas"}


def random_cmip(rng, **fix):
    p = {"source": "cmip", "seed": int(rng.integers(2**31)), "level_type": "pressure_levels", "freq": 21600}
    p.update(random_grid(rng, ["greenwich360", "global360", "plain", "pm180"][int(rng.integers(4))]))
    if rng.uniform() < 0.8:
        p["lat"] = sorted(p["lat"])
    p["cal"] = fix.get("cal") or ["standard", "proleptic_gregorian", "noleap", "365_day", "360_day", "all_leap", "julian"][int(rng.integers(7))]
    y, m, d = fix.get("date") or [(2012, 2, 28), (2013, 12, 30), (2050, 6, 15), (2011, 2, 27), (2100, 2, 28), (1850, 1, 2), (2300, 2, 27), (51, 6, 15)][int(rng.integers(8))]
    p["t0"] = sec_of(p["cal"], y, m, d)
    days = int(fix.get("days") or rng.integers(1, 4))
    p["nrec"] = 4 * days
    a = int(rng.integers(1, p["nrec"]))
    b = int(rng.integers(a, min(p["nrec"], a + 5)))
    p["start"], p["end"] = int(p["t0"] + a * 21600), int(p["t0"] + b * 21600)
    lev = sorted(rng.choice(CMIP_PL, int(rng.integers(3, len(CMIP_PL) + 1)), replace=False).tolist())
    p["levels"] = lev[::-1] if rng.uniform() < 0.6 else lev
    # levels present in some of the three variables only
    extra = [x for x in (1000, 10000, 40000, 87500) if rng.uniform() < 0.4]
    p["extra"] = {n: [x for x in extra if rng.uniform() < 0.6] for n in WITH_LEVELS}
    common = [x for x in extra if all(x in p["extra"][n] for n in WITH_LEVELS)]
    for n in WITH_LEVELS:
        p["extra"][n] = [x for x in p["extra"][n] if x not in common]
    p["use"] = [int(x) for x in lev]
    p["levels"] = [int(x) for x in p["levels"]]
    p["split"] = bool(rng.uniform() < 0.5)
    p["tcw"] = False
    p["dtype"] = "f4"
    return p


def make_cmip(p):
    raw = make(p)
    rng = np.random.default_rng([p["seed"], 815])
    n3 = 2 * p["nrec"]
    sh = (n3, len(raw.lat), len(raw.lon))
    x = {"pr": rng.exponential(5e-5, sh), "hfls": rng.normal(60, 90, sh)}
    x["pr"][rng.uniform(size=sh) < 0.3] = 0
    x["pr"][rng.uniform(size=sh) < 0.1] *= -0.1
    x["hfls"][rng.uniform(size=sh) < 0.1] = 0
    raw.three = {k: v.astype("f4") for k, v in x.items()}
    raw.t3 = p["t0"] + 5400 + 10800 * np.arange(n3, dtype="i8")
    return raw


def write_cmip(raw, folder, p):
    folder = Path(folder)
    rng = np.random.default_rng([p["seed"], 9])
    nt = len(raw.t)
    cuts = [0, nt]
    if p["split"] and nt > 4:
        cuts = [0, 4, nt]
    for a, b in zip(cuts[:-1], cuts[1:]):
        tag = f"x_{a:03d}"
        for n, var in CMIP_NAMES.items():
            vals, lev = raw.data[n][a:b], list(raw.levels)
            for x in p["extra"].get(n, []):
                junk = rng.normal(size=vals[:, :1].shape).astype(vals.dtype)
                vals, lev = np.concatenate([vals, junk], axis=1), lev + [x]
            write_var(folder / f"{var}_{tag}.nc", raw, n, slice(a, b), "cmip", var=var, values=vals, levels=lev, lat_names=("lat", "lon"), level_name="plev")
        for var in ("pr", "hfls"):
            write_var(folder / f"{var}_{tag}.nc", raw, var, None, "cmip", values=raw.three[var][2 * a : 2 * b], t=raw.t3[2 * a : 2 * b], lat_names=("lat", "lon"))
    return str(folder / "{variable}_*.nc")


def expect_cmip(raw, p, k):
    f = {n: raw.data[n][k] for n in WITH_LEVELS}
    f.update(sp=raw.data["sp"][k], qs=raw.data["huss"][k], us=raw.data["u10"][k], vs=raw.data["v10"][k])
    out, slack, more = columns(f, p, raw.levels)
    i = 2 * k  # pairs of three hours that end at this record
    pr = (raw.three["pr"][i - 2].astype("f8") + raw.three["pr"][i - 1]) / 2
    e = (raw.three["hfls"][i - 2].astype("f8") + raw.three["hfls"][i - 1]) / 2 / LATENT
    out["precip"] = np.maximum(pr, 0) + np.maximum(-e, 0)
    out["evap"] = np.maximum(e, 0)
    slack["precip"] = slack["evap"] = np.zeros_like(pr)
    return out, slack, more


# --- ARCO ---------------------------------------------------------------------------

ARCO_NAMES = {
    "u": "u_component_of_wind", "v": "v_component_of_wind", "q": "specific_humidity", "u10": "10m_u_component_of_wind",
    "v10": "10m_v_component_of_wind", "sp": "surface_pressure", "d2m": "2m_dewpoint_temperature", "tcw": "total_column_water",
    "tp": "total_precipitation", "e": "evaporation",
}


def random_arco(rng, **fix):
    p = random_pre(rng, level_type="pressure_levels", cal="proleptic_gregorian", freq=3600, convention="global360", tcw=True, dtype="f4", nreq=int(rng.integers(1, 4)))
    p["source"] = "arco"
    p["lat"] = sorted(p["lat"], reverse=True)
    p["levels"] = list(ARCO_PL)
    u = rng.choice(ARCO_PL, int(rng.integers(3, 20)), replace=False).tolist()
    p["use"] = "all" if rng.uniform() < 0.3 else (sorted(u) if rng.uniform() < 0.7 else u)
    return below_surface(p)


def arco_zarr(raw):
    """Stands in for the cloud store."""
    import xarray as xr

    t = xr.CFTimeIndex([cftime.DatetimeProlepticGregorian(x.year, x.month, x.day, x.hour, x.minute) for x in (date_of(int(s), "proleptic_gregorian") for s in raw.t)])
    c = dict(time=t, level=np.array(raw.levels), latitude=raw.lat, longitude=raw.lon)
    ds = xr.Dataset(coords=c)
    for n, name in ARCO_NAMES.items():
        dims = ("time", "level", "latitude", "longitude") if n in WITH_LEVELS else ("time", "latitude", "longitude")
        ds[name] = (dims, raw.data[n].copy())
    rng = np.random.default_rng(1)
    ds["2m_temperature"] = (("time", "latitude", "longitude"), rng.uniform(250, 300, raw.data["sp"].shape).astype("f4"))
    ds["vertical_velocity"] = (("time", "level", "latitude", "longitude"), np.full(raw.data["q"].shape, np.nan, "f4"))
    ds.attrs.update(valid_time_start="1940-01-01", valid_time_stop="2025-01-01")
    return ds


# --- running and comparing ----------------------------------------------------------


def run_source(p, folder, obs=None, parallel=None, raw=None, launch=None, **over):
    """Write the input of p, preprocess it. Returns (raw, result, config path)."""
    from wamcheck import runner

    folder = Path(folder)
    launch = launch or (lambda command: command())
    if p["source"] == "cmip":
        raw = raw or make_cmip(p)
        tpl = write_cmip(raw, folder / "raw", p)
        c = config(folder, p, tpl, **over)
        r = launch(lambda: runner.run_cli("preprocess", "cmip", c))
    elif p["source"] == "arco":
        raw = raw or make(p)
        c = config(folder, p, "unused", **over)
        with runner.store(lambda: arco_zarr(raw)):
            r = launch(lambda: runner.run_cli("preprocess", "arco-era5", c))
    else:
        raw = raw or make(p)
        tpl = write_era5(raw, folder / "raw", p)
        c = config(folder, p, tpl, **over)
        r = launch(lambda: runner.run_cli("preprocess", "era5", c))
    if obs is not None:
        obs.count("preprocessing_runs")
        obs.count("runs_" + p["source"])
        if not r.ok:
            obs.fail(f"run-failed-{runner.fresh_error_name(r.error)}", f"valid {p['source']} input ended with {r.why()}", config=c.read_text()[:1500])
    return raw, r, c


def expect(raw, p, k):
    return expect_cmip(raw, p, k) if p["source"] == "cmip" else expect_era5(raw, p, k)


def records(raw, p, files):
    """(file, index in file, index in raw) of every record that belongs to a raw record."""
    where = {int(s): k for k, s in enumerate(raw.t)}
    for f in files:
        for x, s in enumerate(f.secs):
            if s in where:
                yield f, x, where[s]


def locate(f, raw):
    """Rows and columns of the raw data for those of a preprocessed file, by location."""
    j = [int(np.argmin(np.abs(raw.lat - y))) for y in f.lat]
    i = [int(np.argmin(np.abs((raw.lon - x + 180) % 360 - 180))) for x in f.lon]
    return np.ix_(j, i)


def random_any(rng, i, **fix):
    k = i % 6
    if k == 4:
        return random_cmip(rng, **fix)
    if k == 5:
        return random_arco(rng, **fix)
    return random_pre(rng, level_type=["pressure_levels", "model_levels", "pressure_levels", "pressure_levels"][k], **fix)


def brief(p):
    return {k: v for k, v in p.items() if k not in ("lat", "lon", "extra")}


def signature(p):
    return "|".join(str(x) for x in (p["source"], p["level_type"][:1], len(p["use"]) if p["use"] != "all" else "all", p["convention"], p["cal"], p["freq"], p.get("per"), p.get("layout"), p["tcw"], p.get("pressure_boundary_factor"), p.get("pressure_boundary_offset"), p.get("level_layer_boundary"), len(requested(p)), p["start"] % 86400))


def warm(d):
    # no CMIP here: threads of dask would not survive the fork
    import dask.array  # noqa: F401

    p = random_pre(np.random.default_rng(0), nreq=2, ny=2, nx=3, level_type="pressure_levels")
    run_source(p, d / "x")
