"""Drives the real program through its command line and reads what it leaves behind."""

import contextlib
import io
import logging
import os
import re
import sys
import warnings
from dataclasses import dataclass, field
from pathlib import Path

import cftime
import netCDF4
import numpy as np

from wamcheck.harness import Malformed
from wamcheck.world import EPOCH

from wam2layers.cli import cli


class _Messages:
    """Notes what the program says through its loggers, whatever becomes of it.

    Neither levels nor handlers are touched, so that what reaches the log file and the
    terminal is what would reach them without a monitor.
    """

    NAMES = ("debug", "info", "warning", "error", "critical")

    def __init__(self):
        self.records = []  # (level, message), without debug messages
        self.all = []
        self.unfiled = 0  # messages given before any log file was open

    def note(self, name, level, msg, args):
        if name != "wam2layers" and not name.startswith("wam2layers."):
            return
        try:
            r = logging.LogRecord(name, getattr(logging, level), "", 0, msg, args, None)
            self.all.append((level, r.getMessage()))
            if level == "DEBUG":
                return
            if not any(isinstance(h, logging.FileHandler) for h in logging.getLogger().handlers) and self.unfiled == len(self.records):
                self.unfiled += 1
                self.all.clear()
            self.records.append((level, r.getMessage()))
        except Exception:
            pass

    def __enter__(self):
        self.real = {n: getattr(logging.Logger, n) for n in self.NAMES}
        for n, f in self.real.items():

            def said(logger, msg, *args, _f=f, _n=n, **kw):
                self.note(logger.name, _n.upper(), msg, args)
                kw["stacklevel"] = kw.get("stacklevel", 1) + 1
                return _f(logger, msg, *args, **kw)

            setattr(logging.Logger, n, said)
        return self

    def __exit__(self, *a):
        for n, f in self.real.items():
            setattr(logging.Logger, n, f)


@dataclass
class RunResult:
    error: object = None  # exception or None
    log: list = field(default_factory=list)
    warnings: list = field(default_factory=list)
    unfiled: int = 0
    said: list = field(default_factory=list)  # since a log file is open, with debug messages

    @property
    def ok(self):
        return self.error is None

    def why(self):
        return f"{type(self.error).__name__}: {self.error}"


def reset_logging():
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
        try:
            h.close()
        except Exception:
            pass
    root.setLevel(logging.WARNING)


def run_cli(*args):
    """Run `wam2layers <args>` in this process."""
    reset_logging()
    cap = _Messages()
    res = RunResult(log=cap.records, said=cap.all)
    try:
        with warnings.catch_warnings(record=True) as ws, cap:
            warnings.simplefilter("always")
            try:
                cli.main([str(a) for a in args], standalone_mode=False)
            except (Exception, SystemExit) as e:
                if not (isinstance(e, SystemExit) and not e.code):
                    res.error = e
            res.warnings = [str(x.message) for x in ws]
    finally:
        res.unfiled = cap.unfiled
        reset_logging()
    return res


@dataclass
class Output:
    path: Path
    name: str
    sec: int
    bnds: tuple  # seconds
    cal: str
    lat: np.ndarray
    lon: np.ndarray
    v: dict
    units: dict
    attrs: dict
    raw: dict

    def layer_sum(self):
        return self.v["s_track_upper_restart"] + self.v["s_track_lower_restart"]


def _seconds(var, cal):
    vals = np.atleast_1d(np.ma.filled(var[:].astype("f8"), np.nan)).ravel()
    units = getattr(var, "units")
    d = cftime.num2date(vals, units, calendar=cal, only_use_cftime_datetimes=True)
    return [int(round(float(cftime.date2num(x, EPOCH, calendar=cal)))) for x in d]


def read_output(path):
    path = Path(path)
    try:
        with netCDF4.Dataset(path) as ds:
            ds.set_auto_mask(False)
            tv = ds.variables["time"]
            cal = getattr(tv, "calendar", "standard")
            secs = _seconds(tv, cal)
            if len(secs) != 1:
                raise Malformed(f"{path.name}: {len(secs)} times in one file")
            bnds = None
            if "time_bnds" in ds.variables:
                b = ds.variables["time_bnds"]
                units = getattr(b, "units", getattr(tv, "units", None))
                vals = np.asarray(b[:], dtype="f8").ravel()
                d = cftime.num2date(vals, units, calendar=cal, only_use_cftime_datetimes=True)
                bnds = tuple(int(round(float(cftime.date2num(x, EPOCH, calendar=cal)))) for x in d)
            lat = np.array(ds.variables["latitude"][:], dtype="f8")
            lon = np.array(ds.variables["longitude"][:], dtype="f8")
            v, units, raw = {}, {}, {}
            for n, x in ds.variables.items():
                if n in ("time", "time_bnds", "latitude", "longitude"):
                    continue
                a = np.array(x[:], dtype="f8")
                if n.endswith("_bnds"):
                    raw[n] = a
                    continue
                dims = [k for k in x.dimensions if k != "time"]
                if dims == ["latitude", "longitude"]:
                    a = a.reshape(len(lat), len(lon))
                elif dims == ["longitude", "latitude"]:
                    a = a.reshape(len(lon), len(lat)).T
                v[n] = a
                units[n] = getattr(x, "units", None)
            attrs = {k: ds.getncattr(k) for k in ds.ncattrs()}
    except (OSError, KeyError, AttributeError, ValueError) as e:
        raise Malformed(f"{path.name}: {type(e).__name__} {e}")
    return Output(path, path.name, secs[0], bnds, cal, lat, lon, v, units, attrs, raw)


def read_outputs(folder, direction):
    """All output files of a run in the order in which they were made."""
    mode = "backtrack" if direction == "backward" else "forwardtrack"
    outs = [read_output(p) for p in sorted(Path(folder).glob("*.nc")) if p.name.startswith(mode + "_")]
    outs.sort(key=lambda o: o.sec, reverse=direction == "backward")
    return outs


def fresh_error_name(e):
    return re.sub(r"[^A-Za-z]", "", type(e).__name__)


def track(obs, cfg, e, must=True):
    """Run the tracking command on a valid experiment and read its outputs."""
    r = run_cli("track", cfg)
    obs.count("tracking_runs")
    if not r.ok:
        if must:
            obs.fail(f"run-failed-{fresh_error_name(r.error)}", f"a valid experiment ended with {r.why()}", config=str(Path(cfg).read_text())[:1500])
        return r, []
    outs = read_outputs(Path(cfg_output(cfg)), e["direction"])
    obs.count("output_files", len(outs))
    if must and not outs:
        obs.fail("no-output", "a valid experiment wrote no output")
    need = ["s_track_upper_restart", "s_track_lower_restart", "losses", "gains"] + acc_vars(e["direction"])
    for o in outs:
        for n in need:
            if n not in o.v:
                raise Malformed(f"{o.name} lacks {n}")
    return r, outs


def acc_vars(direction):
    return ["tagged_precip", "e_track"] if direction == "backward" else ["tagged_evap", "p_track_upper", "p_track_lower"]


def all_vars(direction):
    return ["s_track_upper_restart", "s_track_lower_restart", "losses", "gains"] + acc_vars(direction)


def cfg_output(cfg):
    import json

    return json.loads(Path(cfg).read_text())["output_folder"]


def run_exp(obs, e, folder, w=None, weights=None, must=True, **over):
    """Set up an experiment in `folder`, run it, return (world, weights, result, outputs)."""
    from wamcheck import world

    w, weights, cfg = world.setup(e, folder, w, weights, **over)
    r, outs = track(obs, cfg, e, must)
    return w, weights, r, outs


def compare(obs, key, a, b, e, rtol=1e-5, atol_rel=1e-6, scale=None, names=None, what="", map_b=None, count="fields_compared"):
    """Compare two lists of outputs field by field; True if equal."""
    if [o.sec for o in a] != [o.sec for o in b]:
        obs.fail(key + "-times", f"{what}: outputs at {[o.name for o in a]} against {[o.name for o in b]}")
        return False
    ok = True
    for x, y in zip(a, b):
        for n in names or all_vars(e["direction"]):
            ok &= compare_field(obs, key, x.v[n], map_b(y.v[n]) if map_b else y.v[n], rtol, atol_rel, scale, f"{what} {x.name} {n}", count)
    return ok


def compare_field(obs, key, p, q, rtol=1e-5, atol_rel=1e-6, scale=None, what="", count="fields_compared"):
    if p.shape != q.shape:
        obs.fail(key, f"{what}: shape {p.shape} against {q.shape}")
        return False
    obs.count(count)
    m = float(np.nanmax(np.abs(q))) if q.size and not np.isnan(q).all() else 0.0
    s = m if scale is None else scale
    with np.errstate(invalid="ignore"):
        bad = ~(np.abs(p - q) <= rtol * np.abs(q) + atol_rel * s + 1e-12)
    bad &= ~(np.isnan(p) & np.isnan(q))
    if bad.any():
        j, i = np.unravel_index(np.argmax(bad), bad.shape)
        obs.fail(key, f"{what}: {bad.sum()} cells differ, first at row {j} column {i}: {p[j, i]:.9g} against {q[j, i]:.9g}")
        return False
    return True


@contextlib.contextmanager
def stand_in(real, fake):
    """Replace a library function, under whatever name the package uses it."""
    home = sys.modules[real.__module__.split(".")[0]]
    places = [(home, real.__name__)] if getattr(home, real.__name__, None) is real else []
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] == "wam2layers" or mod is sys.modules.get(real.__module__):
            places += [(mod, k) for k, v in list(vars(mod).items()) if v is real]
    for mod, k in places:
        setattr(mod, k, fake)
    try:
        yield
    finally:
        for mod, k in places:
            setattr(mod, k, real)


@contextlib.contextmanager
def store(dataset):
    """Have the program find this dataset instead of the one in the cloud, however it opens it."""
    import xarray as xr

    real = xr.open_dataset

    def open_dataset(name, *a, **k):
        return dataset() if str(name).startswith("gs://") else real(name, *a, **k)

    with stand_in(xr.open_zarr, lambda *a, **k: dataset()), stand_in(real, open_dataset):
        yield
