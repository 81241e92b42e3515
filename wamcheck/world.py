"""Synthetic preprocessed input ('worlds') and tracking experiments on them.

Everything is derived from a JSON-able dict of parameters, so that a case can be
replayed from its replay file.  Nothing in here uses the code under test.
"""

import json
from dataclasses import dataclass, field
from pathlib import Path

import cftime
import netCDF4
import numpy as np

ERAD = 6.371e6
DEG = 111089.56  # the documented length of a degree of latitude used for cell faces

FLUX_VARS = ["fx_upper", "fy_upper", "fx_lower", "fy_lower", "evap", "precip"]
STATE_VARS = ["s_upper", "s_lower"]
UNITS = {
    "fx_upper": "kg m-1 s-1",
    "fy_upper": "kg m-1 s-1",
    "fx_lower": "kg m-1 s-1",
    "fy_lower": "kg m-1 s-1",
    "evap": "kg m-2 s-1",
    "precip": "kg m-2 s-1",
    "s_upper": "kg m-2",
    "s_lower": "kg m-2",
}
CALENDARS = [
    "standard",
    "gregorian",
    "proleptic_gregorian",
    "noleap",
    "365_day",
    "360_day",
    "julian",
    "all_leap",
    "366_day",
]
EPOCH = "seconds since 1970-01-01"


def date_of(sec, cal):
    """Date of a number of seconds since 1970-01-01 in a calendar."""
    return cftime.num2date(sec, EPOCH, calendar=cal)


def sec_of(cal, y, m, d, hh=0, mm=0, ss=0):
    return int(round(float(cftime.date2num(cftime.datetime(y, m, d, hh, mm, ss, calendar=cal), EPOCH, calendar=cal))))


def iso(sec, cal, seconds=False):
    t = date_of(sec, cal)
    s = f"{t.year:04d}-{t.month:02d}-{t.day:02d}T{t.hour:02d}:{t.minute:02d}"
    return s + f":{t.second:02d}" if seconds else s


def areas(lat, dlat, dlon):
    """True spherical area of the cells of each row."""
    n = np.minimum(90.0, lat + dlat / 2)
    s = np.maximum(-90.0, lat - dlat / 2)
    return ERAD**2 * np.deg2rad(dlon) * np.abs(np.sin(np.deg2rad(n)) - np.sin(np.deg2rad(s)))


def face_x(lat, dlat, dlon):
    """Mean length of the northern and southern edge of the cells of each row [m]."""
    return dlon * DEG * 0.5 * (np.cos(np.deg2rad(lat + dlat / 2)) + np.cos(np.deg2rad(lat - dlat / 2)))


@dataclass
class World:
    lat: np.ndarray  # decreasing
    lon: np.ndarray  # increasing
    dlat: float
    dlon: float
    cal: str
    freq: int  # seconds between records
    t: np.ndarray  # seconds since 1970 of the records, in calendar cal
    data: dict  # name -> (nt, ny, nx)
    dtype: str = "f8"

    @property
    def area(self):
        return areas(self.lat, self.dlat, self.dlon)

    def at(self, sec, names):
        """Linear interpolation in time between the bracketing records."""
        x = (sec - self.t[0]) / self.freq
        i = int(np.floor(x + 1e-9))
        w = x - i
        out = {}
        for n in names:
            a = self.data[n]
            if abs(w) < 1e-9:
                out[n] = a[i].astype("f8")
            else:
                out[n] = a[i].astype("f8") * (1 - w) + a[i + 1].astype("f8") * w
        return out

    def cut(self, j, i):
        """World restricted to rows j and columns i (index arrays)."""
        return World(
            self.lat[j], self.lon[i], self.dlat, self.dlon, self.cal, self.freq, self.t,
            {k: v[:, j][:, :, i] for k, v in self.data.items()}, self.dtype,
        )

    def write(self, folder, scale=1.0):
        folder = Path(folder)
        folder.mkdir(parents=True, exist_ok=True)
        days = {}
        for k, s in enumerate(self.t):
            days.setdefault(date_of(int(s), self.cal).strftime("%Y-%m-%d"), []).append(k)
        for day, ks in days.items():
            with netCDF4.Dataset(folder / f"{day}_fluxes_storages.nc", "w") as ds:
                ds.source = "synthetic"
                ds.history = "made for a monitor"
                ds.createDimension("time", None)
                ds.createDimension("latitude", len(self.lat))
                ds.createDimension("longitude", len(self.lon))
                v = ds.createVariable("time", "f8", ("time",))
                v.units = "seconds since 1900-01-01"
                v.calendar = self.cal
                v[:] = cftime.date2num([date_of(int(self.t[k]), self.cal) for k in ks], v.units, calendar=self.cal)
                for name, x, u in [("latitude", self.lat, "degrees_north"), ("longitude", self.lon, "degrees_east")]:
                    v = ds.createVariable(name, "f8", (name,))
                    v.units = u
                    v[:] = x
                for name, a in self.data.items():
                    v = ds.createVariable(name, self.dtype, ("time", "latitude", "longitude"))
                    v.units = UNITS[name]
                    v[:] = a[ks]


def smooth(a, periodic):
    """A little spatial smoothing along the last two axes."""
    b = np.pad(a, [(0, 0)] * (a.ndim - 2) + [(1, 1), (0, 0)], mode="edge")
    a = (b[..., :-2, :] + 2 * b[..., 1:-1, :] + b[..., 2:, :]) / 4
    b = np.pad(a, [(0, 0)] * (a.ndim - 1) + [(1, 1)], mode="wrap" if periodic else "edge")
    return (b[..., :-2] + 2 * b[..., 1:-1] + b[..., 2:]) / 4


STYLES = ["mild", "white", "storm", "calm", "dry", "deluge", "jumpy", "wind"]


def make_world(p):
    """p: grid (ny,nx,lat0,dlat,lon0,dlon), cal, freq, t_first, nrec, style, seed, dt, periodic."""
    rng = np.random.default_rng([p["seed"], 77])
    ny, nx, nt = p["ny"], p["nx"], p["nrec"]
    lat = p["lat0"] - p["dlat"] * np.arange(ny)
    lon = p["lon0"] + p["dlon"] * np.arange(nx)
    periodic = p.get("periodic", False)
    style = p["style"]
    dt = p["dt"]
    sh = (nt, ny, nx)

    def noise(tv=0.5, sm=True):
        a = rng.normal(size=(1, ny, nx)) + tv * rng.normal(size=sh)
        return smooth(a, periodic) if sm else a

    white = style in ("white", "dry", "jumpy", "flood")
    tv = 1.0 if white else 0.3
    su = 9 * np.exp(0.25 * noise(tv, not white))
    sl = 16 * np.exp(0.25 * noise(tv, not white))
    courant = {"mild": 0.15, "white": 0.2, "storm": 2.5, "calm": 0.3, "dry": 0.3, "deluge": 0.2, "jumpy": 0.5, "wind": 0.35, "flood": 0.2}[style]
    courant *= p.get("courant", 1.0)
    a = areas(lat, p["dlat"], p["dlon"])[:, None]
    ly = p["dlat"] * DEG
    lx = np.maximum(face_x(lat, p["dlat"], p["dlon"]), 1.0)[:, None]
    d = {}
    for lev, s in (("upper", su), ("lower", sl)):
        cx, cy = rng.uniform(-1, 1, 2)
        if style == "wind":
            cx, cy = p.get("wind", (1, 1))
            u = cx * rng.uniform(0.3, 1, sh)
            v = cy * rng.uniform(0.3, 1, sh)
        else:
            u = cx + 0.8 * noise(tv, not white)
            v = cy + 0.8 * noise(tv, not white)
        smean = 12.0
        d["fx_" + lev] = courant * u * smean * a / (ly * dt)
        d["fy_" + lev] = courant * v * smean * a / (lx * dt)
    wet = np.maximum(0, noise(1.0) - 0.2)
    d["precip"] = 0.03 * wet * 25 / dt
    d["evap"] = 0.01 * np.maximum(0, noise(0.5) + 0.6) * 25 / dt
    if style == "calm":
        for n in FLUX_VARS[:4]:
            m = smooth(rng.normal(size=sh), periodic) > 0.15
            d[n] = np.where(m, 0.0, d[n])
        k = rng.integers(0, nt)
        for n in FLUX_VARS[:4]:
            d[n][k] = 0.0
        dead = smooth(rng.normal(size=(ny, nx)), periodic) > 0.3
        dead[ny // 2, nx // 2] = True
        for n in FLUX_VARS[:4]:
            d[n][:, dead] = 0.0
    if style == "dry":
        m = rng.uniform(size=sh) < 0.3
        f = 10.0 ** rng.uniform(-4, -0.5, sh)
        su = np.where(m, su * f, su)
        m = rng.uniform(size=sh) < 0.3
        sl = np.where(m, sl * f, sl)
    if style in ("deluge", "flood"):
        d["precip"] = d["precip"] * 40
        d["evap"] = d["evap"] * 60
    if style in ("jumpy", "flood"):
        su = su * np.exp(rng.normal(size=sh))
        sl = sl * np.exp(rng.normal(size=sh))
    d["s_upper"], d["s_lower"] = su, sl
    dtype = p.get("dtype", "f8")
    d = {k: np.ascontiguousarray(v).astype(dtype) for k, v in d.items()}
    t = p["t_first"] + p["freq"] * np.arange(nt, dtype="i8")
    return World(lat, lon, p["dlat"], p["dlon"], p["cal"], p["freq"], t, d, dtype)


def freq_str(sec):
    if sec % 86400 == 0:
        return f"{sec//86400}d" if sec != 86400 else "1d"
    if sec % 3600 == 0:
        return f"{sec//3600}h"
    if sec % 60 == 0:
        return f"{sec//60}min"
    return f"{sec}s"


def random_exp(rng, **fix):
    """Draw an experiment: a JSON-able dict. Keyword arguments pin parameters."""

    def pick(name, options):
        v = options[rng.integers(len(options))]
        return fix.get(name, v)

    e = {}
    e["seed"] = int(fix.get("seed", rng.integers(2**31)))
    e["direction"] = pick("direction", ["forward", "backward"])
    e["style"] = pick("style", STYLES)
    e["periodic"] = bool(pick("periodic", [False, False, True]))
    shape = pick("shape", ["square", "wide", "tall"])
    if e["periodic"]:
        # a periodic run has a full circle of longitudes
        nx = pick("nx", [6, 8, 9, 12])
        dlon = 360.0 / nx
        ny = pick("ny", [5, 6, 7])
        dlat = {"square": min(dlon, 160 / (ny - 1)), "wide": dlon / 3, "tall": min(170.0 / (ny - 1), dlon * 0.9)}[shape]
        dlat = min(dlat, 170.0 / (ny - 1))
        lon0 = float(pick("lon0", [-180.0, -180.0 + dlon / 2, -175.0]))
        lat0 = float(pick("lat0", [(ny - 1) * dlat / 2, 85.0]))
        lat0 = max(min(lat0, 88.0), -88.0 + (ny - 1) * dlat)
    else:
        nx = pick("nx", [5, 6, 7, 9, 11])
        ny = pick("ny", [5, 6, 7, 8])
        dlat, dlon = {"square": (1.0, 1.0), "wide": (0.5, 1.25), "tall": (1.5, 0.75)}[shape]
        f = float(pick("res", [0.25, 1.0, 2.0]))
        dlat, dlon = dlat * f, dlon * f
        lat0 = float(pick("lat0", [62.0, 30.0, 4.0, -35.0]))
        lon0 = float(pick("lon0", [-20.0, 100.0, -179.0]))
    dlat, dlon = float(fix.get("dlat", dlat)), float(fix.get("dlon", dlon))
    e.update(nx=int(nx), ny=int(ny), dlat=dlat, dlon=dlon, lon0=lon0, lat0=lat0)
    e["cal"] = pick("cal", CALENDARS)
    e["freq"] = int(pick("freq", [1800, 3600, 3600, 10800, 21600]))
    steps = [s for s in (300, 600, 900, 1200, 1800, 2400, 3600, 5400, 7200) if e["freq"] / 12 <= s <= 2 * e["freq"]]
    e["dt"] = int(pick("dt", steps))
    n = int(pick("nsteps", [6, 8, 9, 12]))
    e["nsteps"] = n
    # start: somewhere around a day, month or year border or in mid-day
    y = int(pick("year", [2020, 2021, 2023, 1999, 2020, 2100, 2300, 850]))
    m, dd = fix.get("monthday") or [(12, 30), (2, 28), (6, 30), (3, 1), (7, 15)][rng.integers(5)]
    base = sec_of(e["cal"], y, m, dd)
    hour = float(pick("hour", [0, 3, 12, 18, 22, 23]))
    off = int(pick("offset", [0, 0, 0, 600, 1800, 420]))
    e["start"] = int(base + hour * 3600 + off)
    e["end"] = e["start"] + n * e["dt"] + int(pick("tail", [0, 0, 60, e["dt"] // 120 * 60]))
    e["out"] = int(pick("out", [e["dt"], 2 * e["dt"], 3600, 10800, 21600, 86400]))
    if 86400 % e["out"]:
        e["out"] = 3600
    e["kvf"] = float(pick("kvf", [0.0, 1.0, 3.0, 3.0]))
    e["courant"] = float(fix.get("courant", rng.choice([0.3, 1.0, 2.0])))
    e["dtype"] = pick("dtype", ["f8", "f8", "f8", "f4"])
    tw = pick("tagwin", ["all", "all", "part", "aligned"])
    if tw == "all":
        e["tag"] = [e["start"] - 3600, e["end"] + 3600]
    elif tw == "part":
        a = e["start"] + int(rng.integers(0, n)) * e["dt"] + int(rng.integers(-9, 10)) * 60
        b = a + int(rng.integers(1, n)) * e["dt"] + 60
        e["tag"] = [a // 60 * 60, b // 60 * 60]
    else:
        i = int(rng.integers(0, n - 1))
        j = int(rng.integers(i + 1, n))
        e["tag"] = [(e["start"] + i * e["dt"]) // 60 * 60, (e["start"] + j * e["dt"]) // 60 * 60]
    reg = pick("region", ["box", "box", "bigbox", "mask", "fmask", "cell"])
    e["region"] = {"kind": reg, "seed": int(rng.integers(2**31))}
    if isinstance(fix.get("region"), dict):
        e["region"] = fix["region"]
    for k, v in fix.items():
        e.setdefault(k, v)
    return e


def world_params(e, pad=0):
    """Records covering the experiment, aligned on multiples of the input frequency."""
    f = e["freq"]
    # multiples of the frequency counted from midnight
    mid = sec_of(e["cal"], 1970, 1, 1)
    first = (e["start"] - mid) // f * f + mid - pad * f
    last = -(-(e["end"] - mid) // f) * f + mid + pad * f
    return dict(
        seed=e["seed"], ny=e["ny"], nx=e["nx"], lat0=e["lat0"], dlat=e["dlat"], lon0=e["lon0"], dlon=e["dlon"],
        cal=e["cal"], freq=f, t_first=int(first), nrec=int((last - first) // f + 1), style=e["style"], dt=e["dt"],
        periodic=e["periodic"], courant=e.get("courant", 1.0), dtype=e.get("dtype", "f8"), wind=e.get("wind", (1, 1)),
    )


def region_weights(e, w):
    """Tagging weights (ny, nx) and the value of the tagging_region option.

    For masks the second value is None and the weights are to be written to a file.
    """
    r = e["region"]
    if "weights" in r:
        return np.array(r["weights"], dtype="f8"), None
    rng = np.random.default_rng([r["seed"], 5])
    ny, nx = len(w.lat), len(w.lon)
    if r["kind"] in ("box", "bigbox", "cell") or "bbox" in r:
        if "bbox" in r:
            west, south, east, north = r["bbox"]
        else:
            lo = 1 if not e["periodic"] else 0
            i0, i1 = sorted(rng.integers(lo, nx - lo, 2))
            j0, j1 = sorted(rng.integers(1, ny - 1, 2))
            if r["kind"] == "bigbox":
                i0, i1, j0, j1 = 0, nx - 1, 0, ny - 1
            if r["kind"] == "cell":
                i1, j1 = i0, j0
            west, east = w.lon[i0] - 0.3 * w.dlon, w.lon[i1] + 0.3 * w.dlon
            south, north = w.lat[j1] - 0.3 * w.dlat, w.lat[j0] + 0.3 * w.dlat
            west, east = max(west, -180.0), min(east, 180.0)
            south, north = max(south, -80.0), min(north, 80.0)
            if south >= north:
                south, north = -80.0, 80.0
        west, south, east, north = [round(float(x), 6) for x in (west, south, east, north)]
        inlat = (w.lat >= south) & (w.lat <= north)
        if west <= east:
            inlon = (w.lon >= west) & (w.lon <= east)
        else:
            inlon = (w.lon >= west) | (w.lon <= east)
        return (inlat[:, None] & inlon[None, :]).astype("f8"), [west, south, east, north]
    m = (rng.uniform(size=(ny, nx)) < 0.4).astype("f8")
    m[ny // 2, nx // 2] = 1
    if r["kind"] == "fmask":
        m = m * rng.uniform(0.05, 1, (ny, nx)) * r.get("scale", 1.0)
    return m, None


def write_mask(path, w, weights, times=None, cal=None):
    with netCDF4.Dataset(path, "w") as ds:
        dims = ("latitude", "longitude")
        if times is not None:
            ds.createDimension("time", len(times))
            dims = ("time",) + dims
        ds.createDimension("latitude", len(w.lat))
        ds.createDimension("longitude", len(w.lon))
        if times is not None:
            v = ds.createVariable("time", "f8", ("time",))
            v.units = "seconds since 1970-01-01"
            v.calendar = cal or w.cal
            v[:] = times
        for name, x in (("latitude", w.lat), ("longitude", w.lon)):
            v = ds.createVariable(name, "f8", (name,))
            v[:] = x
        v = ds.createVariable("tagging_region", "f8", dims)
        v[:] = weights


def config_dict(e, folder, region, **over):
    folder = Path(folder)
    cal = e["cal"]
    c = dict(
        filename_template="unused_{variable}.nc",
        preprocessed_data_folder=str(folder / "pre"),
        output_folder=str(folder / "out"),
        calendar=cal,
        tracking_direction=e["direction"],
        tagging_region=region,
        tracking_start_date=iso(e["start"], cal),
        tracking_end_date=iso(e["end"], cal),
        tagging_start_date=iso(e["tag"][0], cal),
        tagging_end_date=iso(e["tag"][1], cal),
        preprocess_start_date=iso(e["start"], cal),
        preprocess_end_date=iso(e["end"], cal),
        input_frequency=freq_str(e["freq"]),
        output_frequency=freq_str(e["out"]),
        timestep=e["dt"],
        level_type="model_levels",
        levels=[1, 2, 3],
        restart=False,
        periodic_boundary=e["periodic"],
        kvf=e["kvf"],
    )
    c.update(over)
    return c


def setup(e, folder, w=None, weights=None, **over):
    """Write world, mask and configuration. Returns (world, weights, config path)."""
    folder = Path(folder)
    folder.mkdir(parents=True, exist_ok=True)
    if w is None:
        w = make_world(world_params(e))
    w.write(folder / "pre")
    if weights is None:
        weights, region = region_weights(e, w)
    else:
        region = None
    if region is None:
        region = str(folder / "mask.nc")
        write_mask(region, w, weights)
    c = config_dict(e, folder, region, **over)
    path = folder / "config.yaml"
    path.write_text(json.dumps(c, indent=1))
    return w, weights, path
