"""C14: a configuration is either refused or kept exactly as stated."""

import json
import os
from pathlib import Path

import cftime
import numpy as np
import yaml

from wamcheck import runner, world
from wam2layers.config import Config

RULE = (
    "random valid configurations (all fields, optional ones present or absent, relative, absolute and ~ paths, bounding boxes and files, nine "
    "calendars, frequency spellings, levels) are read, compared field by field, exported and read again three times, and changed by random valid "
    "assignments; each also gets single defects, in the file and by assignment, which have to be refused. Non-trivial: every case."
)
MINIMUM = {"valid_configs": 150, "fields_kept": 3000, "roundtrips": 400, "valid_assignments": 400, "refused_files": 1200, "refused_assignments": 300, "kinds_of_defects": 30, "refused_runs": 6, "deprecated_frequencies": 30}

# spelling -> modern equivalent
FREQS = {f"{n}{a}": f"{n}{b}" for n in ("", 1, 2, 3, 6, 10, 12, 24, 30, 90, 120, 600) for a, b in (("H", "h"), ("h", "h"), ("T", "min"), ("min", "min"), ("S", "s"), ("s", "s"), ("d", "D"), ("D", "D"))}
DATES = ["preprocess_start_date", "preprocess_end_date", "tracking_start_date", "tracking_end_date", "tagging_start_date", "tagging_end_date"]
REQUIRED = ["filename_template", "preprocessed_data_folder", "tracking_direction", "tagging_region", "output_folder"] + DATES + [
    "input_frequency", "timestep", "output_frequency", "level_type", "levels", "restart", "periodic_boundary", "kvf"]
DEFAULTS = {"calendar": "standard", "tracking_domain": None, "parallel_preprocess": False, "parallel_processes": None, "level_layer_boundary": 111,
            "pressure_boundary_factor": 0.72878581, "pressure_boundary_offset": 7438.803223}


def cases(tier, seed):
    rng = np.random.default_rng([seed, 1414])
    return [{"seed": int(rng.integers(2**31)), "n": 14 if tier == "quick" else 60} for _ in range(16 if tier == "quick" else 48)]


def pick(rng, options):
    return options[int(rng.integers(len(options)))]


def box(rng):
    west, east = sorted(rng.uniform(-180, 180, 2).round(pick(rng, [0, 1, 4])))
    if rng.uniform() < 0.3:
        west, east = east, west
    south, north = sorted(rng.choice(np.arange(-80, 80.25, 0.5), 2, replace=False))
    if rng.uniform() < 0.15:
        west, east = -180.0, 180.0
    if rng.uniform() < 0.15:
        south, north = -80.0, 80.0
    b = [float(x) for x in (west, south, east, north)]
    return [int(x) if x == int(x) and rng.uniform() < 0.5 else x for x in b]


def region(rng, d):
    z = rng.uniform()
    if z < 0.6:
        return box(rng)
    name = pick(rng, ["mask.nc", "sub folder/region.nc", "area.shp"])
    f = d / name
    f.parent.mkdir(exist_ok=True)
    f.touch()
    return name if rng.uniform() < 0.5 else str(f)


def date_pair(rng, cal):
    a = world.sec_of(cal, int(rng.choice([1979, 2020, 2021, 2099])), int(rng.integers(1, 13)), int(rng.integers(1, 29)), int(rng.integers(24)), int(rng.integers(60)))
    b = a + 60 * int(rng.choice([0, 1, 59, 1440, int(rng.integers(1, 600000))]))
    secs = [False, False]
    if rng.uniform() < 0.15:
        a, b, secs = a + 17, b + 30, [True, True]
    return [world.iso(x, cal, s) for x, s in zip((a, b), secs)]


def folder(rng, d, name):
    return pick(rng, [str(d / name), name, f"./{name}", f"~/{name}", f"{name}/deeper/still", str(d / "a b" / name)])


def draw(rng, d):
    cal = pick(rng, world.CALENDARS)
    c = {}
    c["filename_template"] = pick(rng, ["ERA5_{year}-{month:02d}-{day:02d}{levtype}_{variable}.nc", "/x y/{variable}*.nc"])
    c["preprocessed_data_folder"] = folder(rng, d, "pre")
    if rng.uniform() < 0.15:
        c["preprocessed_data_folder"] = pick(rng, ["https://example.org/thredds/dodsC/wam2layers/pre", "http://127.0.0.1:8080/pre", "https://example.org/a/b%20c"])
    c["output_folder"] = folder(rng, d, "out")
    c["tracking_direction"] = pick(rng, ["forward", "backward"])
    c["tagging_region"] = region(rng, d)
    for k in ("preprocess", "tracking", "tagging"):
        c[k + "_start_date"], c[k + "_end_date"] = date_pair(rng, cal)
    c["input_frequency"] = pick(rng, list(FREQS))
    c["output_frequency"] = pick(rng, list(FREQS))
    c["timestep"] = int(pick(rng, [60, 300, 600, 900, 3600]))
    c["level_type"] = pick(rng, ["model_levels", "pressure_levels"])
    c["levels"] = pick(rng, ["all", "All", [1], [20, 40, 137], [1000, 850, 500]])
    c["restart"], c["periodic_boundary"] = bool(rng.integers(2)), bool(rng.integers(2))
    c["kvf"] = pick(rng, [0, 1, 3, 2.5])
    optional = {
        "calendar": cal, "tracking_domain": box(rng) if rng.uniform() < 0.6 else None, "parallel_preprocess": bool(rng.integers(2)), "parallel_processes": pick(rng, [None, 1, 4]),
        "level_layer_boundary": pick(rng, [1, 90, 111, 137]), "pressure_boundary_factor": pick(rng, [0.7, 1.0, 0.72878581]), "pressure_boundary_offset": pick(rng, [0.0, 1000.5, 7438.803223]),
    }
    for k, v in optional.items():
        if k == "calendar":
            if cal != "standard" or rng.uniform() < 0.5:
                c[k] = v
        elif rng.uniform() < 0.6:
            c[k] = v
    keys = list(c)
    rng.shuffle(keys)
    return {k: c[k] for k in keys}


def stated(field, value, cal, d):
    """What the configuration has to hold, in comparable form."""
    if field in DATES:
        fmt = [int(x) for x in value.replace("T", "-").replace(":", "-").split("-")]
        return tuple(fmt + [0] * (6 - len(fmt)))
    if field in ("input_frequency", "output_frequency"):
        return FREQS[value]
    if str(value).startswith("http"):
        return value
    if field in ("preprocessed_data_folder", "output_folder"):
        return os.path.normpath(os.path.join(d, os.path.expanduser(value)))
    if field in ("tagging_region", "tracking_domain"):
        if value is None:
            return None
        if isinstance(value, str):
            return os.path.normpath(os.path.join(d, value))
        return tuple(float(x) for x in value)
    return value


def held(field, value):
    if field in DATES:
        return (value.year, value.month, value.day, value.hour, value.minute, value.second)
    if field == "preprocessed_data_folder" and not isinstance(value, Path):
        return str(value)
    if isinstance(value, Path):
        return os.path.normpath(str(value)) if value.is_absolute() else f"not absolute: {value}"
    if isinstance(value, tuple):
        return tuple(float(x) for x in value)
    return value


def write(rng, path, c):
    path.write_text(json.dumps(c) if rng.uniform() < 0.5 else yaml.safe_dump(c, sort_keys=False))


def compare(obs, key, cfg, want, what):
    for f, v in want.items():
        try:
            h = held(f, getattr(cfg, f))
        except Exception as e:
            h = f"{type(e).__name__}: {e}"
        obs.count("fields_kept")
        obs.expect(h == v and type(h) is not bool or h is v, f"{key}-{f}", f"{what}: {f} is {h!r}, stated {v!r}")


def defects(rng, c, d):
    """(name, changed configuration) with one thing wrong each."""
    cal = c.get("calendar", "standard")
    for k in ("preprocess", "tracking", "tagging"):
        a, b = date_pair(rng, cal)
        if a == b:
            a, b = world.iso(world.sec_of(cal, 2001, 1, 1), cal), world.iso(world.sec_of(cal, 2001, 1, 1, 0, 1), cal)
        yield f"reversed-{k}", {f"{k}_start_date": b, f"{k}_end_date": a}
    yield "calendar", {"calendar": pick(rng, ["Standard", "lunar", "", "360day", "no_leap"])}
    for f in ("tagging_region", "tracking_domain"):
        w, s, e, n = [float(x) for x in box(rng)]
        yield f"{f}-south-of-north", {f: [w, n, e, s]}
        yield f"{f}-no-height", {f: [w, s, e, s]}
        yield f"{f}-west", {f: [pick(rng, [-180.5, 181.0, 360.0]), s, e, n]}
        yield f"{f}-east", {f: [w, s, pick(rng, [-180.5, 181.0, 360.0]), n]}
        yield f"{f}-north", {f: [w, s, e, pick(rng, [80.5, 90.0, 180.0])]}
        yield f"{f}-south", {f: [w, pick(rng, [-80.5, -90.0]), e, n]}
        yield f"{f}-three-numbers", {f: [w, s, e]}
        yield f"{f}-five-numbers", {f: [w, s, e, n, 1.0]}
        yield f"{f}-words", {f: [w, "south", e, n]}
    yield "missing-region-file", {"tagging_region": pick(rng, ["nowhere.nc", str(d / "nowhere" / "mask.nc")])}
    yield "region-is-folder", {"tagging_region": str(d)}
    yield "direction", {"tracking_direction": pick(rng, ["sideways", "Forward", "", "backtrack"])}
    yield "level_type", {"level_type": pick(rng, ["modellevels", "pressure", ""])}
    yield "levels", {"levels": pick(rng, ["none", ["a", "b"], [1.5], "ALL "])}
    yield "restart", {"restart": pick(rng, ["maybe", 7, []])}
    yield "periodic", {"periodic_boundary": pick(rng, ["perhaps", 2])}
    yield "timestep", {"timestep": pick(rng, ["often", 600.5, None, []])}
    yield "kvf", {"kvf": pick(rng, ["three", None, [3]])}
    yield "parallel_processes", {"parallel_processes": pick(rng, ["many", 2.5])}


def run(case, obs, d):
    rng = np.random.default_rng([case["seed"], 14])
    home = d / "home"
    home.mkdir()
    os.environ["HOME"] = str(home)
    kinds = set()
    for i in range(case["n"]):
        c = draw(rng, d)
        cal = c.get("calendar", "standard")
        f = d / f"c{i}.yaml"
        write(rng, f, c)
        about = json.dumps(c)[:900]
        want = {**DEFAULTS, **{k: stated(k, v, cal, d) for k, v in c.items()}}
        try:
            cfg = Config.from_yaml(f)
        except Exception as e:
            obs.fail("valid-refused", f"{type(e).__name__}: {e} for {about}")
            continue
        obs.count("valid_configs")
        obs.count("deprecated_frequencies", sum(FREQS[c[k]] != c[k] for k in ("input_frequency", "output_frequency")))
        compare(obs, "not-as-stated", cfg, want, about)

        # valid assignments, one after the other
        other = draw(rng, d)
        while other.get("calendar", "standard") != cal:
            other = draw(rng, d)
        names = [k for k in other if k in REQUIRED + ["tracking_domain", "parallel_processes", "level_layer_boundary", "kvf"] and k not in DATES]
        rng.shuffle(names)
        for k in names[: int(rng.integers(0, 6))]:
            v = other[k]
            try:
                setattr(cfg, k, v)
            except Exception as e:
                obs.fail(f"valid-assignment-refused-{k}", f"{k} = {v!r}: {type(e).__name__}: {e}")
                continue
            want[k] = stated(k, v, cal, d)
            obs.count("valid_assignments")
        if rng.uniform() < 0.7:
            k = pick(rng, ["preprocess", "tracking", "tagging"])
            t = world.date_of(world.sec_of(cal, 2150, 3, 4, 5, 6), cal)
            t = type(cfg.tracking_end_date)(t.year, t.month, t.day, t.hour, t.minute)
            try:
                setattr(cfg, k + "_end_date", t)
                want[k + "_end_date"] = (2150, 3, 4, 5, 6, 0)
                obs.count("valid_assignments")
            except Exception as e:
                obs.fail("valid-assignment-refused-date", f"{k}_end_date = {t!r}: {type(e).__name__}: {e}")
        compare(obs, "not-as-assigned", cfg, want, about)

        # export and read back
        texts = []
        cur = cfg
        for n in range(3):
            g = d / f"c{i}_export{n}.yaml"
            try:
                cur.to_file(g)
                texts.append(g.read_text())
                cur = Config.from_yaml(g)
            except Exception as e:
                obs.fail("export-unreadable", f"{type(e).__name__}: {e} for {about}")
                break
            obs.count("roundtrips")
            obs.expect(cur == cfg, "export-not-equal", f"configuration read back differs: {texts[-1][:900]}")
            compare(obs, "export-loses", cur, want, f"after {n + 1} exports of {about}")
        obs.expect(len(set(texts)) <= 1, "export-drifts", f"{texts[0][:600]} against {texts[-1][:600]}" if texts else "")

        # one defect at a time
        for name, change in defects(rng, c, d):
            bad = {**c, **change}
            write(rng, f, bad)
            try:
                Config.from_yaml(f)
                obs.fail(f"defect-accepted-{name}", f"{change} accepted in {about}")
            except Exception:
                obs.count("refused_files")
                kinds.add(name)
            if len(change) == 1 and name != "calendar" and rng.uniform() < 0.6:
                k, v = next(iter(change.items()))
                fresh = cfg.model_copy(deep=True) if hasattr(cfg, "model_copy") else Config.from_yaml(d / f"c{i}_export0.yaml")
                try:
                    setattr(fresh, k, v)
                    obs.fail(f"defect-assigned-{name}", f"{k} = {v!r} accepted")
                except Exception:
                    obs.count("refused_assignments")
        for k in ("preprocess", "tracking", "tagging"):
            for side in ("start", "end"):
                fresh = Config.from_yaml(d / f"c{i}_export0.yaml")
                y = 2200 if side == "start" else 1900
                t = type(fresh.tracking_end_date)(y, 1, 2)
                try:
                    setattr(fresh, f"{k}_{side}_date", t)
                    obs.fail(f"defect-assigned-reversed-{k}", f"{k}_{side}_date = {t!r} accepted with {getattr(fresh, k + '_start_date')} to {getattr(fresh, k + '_end_date')}")
                except Exception:
                    obs.count("refused_assignments")
        missing = [k for k in REQUIRED if rng.uniform() < 0.4]
        for k in missing:
            write(rng, f, {a: b for a, b in c.items() if a != k})
            try:
                Config.from_yaml(f)
                obs.fail(f"missing-accepted-{k}", f"configuration without {k} accepted: {about}")
            except Exception:
                obs.count("refused_files")
                kinds.add("missing-" + k)
    # the command refuses as well
    e = world.random_exp(rng, region="mask")
    w, m, cfg = world.setup(e, d / "run")
    c = json.loads(cfg.read_text())
    name, change = pick(rng, [x for x in defects(rng, c, d)])
    cfg.write_text(json.dumps({**c, **change}))
    r = runner.run_cli("track", cfg)
    left = list((d / "run" / "out").glob("*track_*.nc"))
    obs.expect(not r.ok and not left, f"run-with-defect-{name}", f"tracking with {change} ended with {r.why()} and left {len(left)} outputs")
    obs.count("refused_runs")
    obs.count("kinds_of_defects", len(kinds))
    obs.sample = {"last": json.loads(about) if len(about) < 900 else about[:200], "kinds_of_defects": len(kinds)}
