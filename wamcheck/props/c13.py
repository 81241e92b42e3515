"""C13: every supported calendar gives the same physics on its own dates."""

import json

import cftime
import numpy as np

from wamcheck import gen, runner, world
from wam2layers.config import Config

RULE = (
    "pairs: one sequence of records and one experiment are relabelled with the dates of two calendars (around 28 February, the 30th of a "
    "month, year ends) and all outputs and their dates are compared. Dates: configurations with existing and non-existing dates of each "
    "calendar in each of the six date fields; existing ones have to be read as stated, others refused by the reader and by the track command. "
    "Non-trivial pair: the two runs have output on different dates or in different calendars."
)
MINIMUM = {"pairs": 60, "fields_compared": 600, "dates_checked": 500, "refused_dates": 300, "accepted_dates": 300, "dates_with_seconds": 40, "refused_runs": 9, "across_leap_day": 6, "across_year": 4, "across_month": 6, "calendars_run": 40}
warm = gen.warm

SAME = {"gregorian": "standard", "365_day": "noleap", "366_day": "all_leap"}


def cases(tier, seed):
    n = 36 if tier == "quick" else 270
    rng = np.random.default_rng([seed, 1313])
    out = []
    for i in range(n):
        md = [(2, 28), (12, 30), (6, 30), (2, 28), (12, 28), (4, 30), (12, 30)][int(rng.integers(7))]
        cal = world.CALENDARS[i % 9]
        e = world.random_exp(rng, cal=cal, direction=["forward", "backward"][(i // 9) % 2], style=["mild", "white", "storm"][i % 3], nx=5, ny=5, nsteps=13 if md == (12, 30) else 9,
                             monthday=md, year=[2019, 2020, 2023, 1900, 2000][int(rng.integers(5))], hour=[18, 21, 23, 12][int(rng.integers(4))], region="mask", dt=10800 if md == (12, 30) else [3600, 5400, 7200][int(rng.integers(3))],
                             freq=10800 if md == (12, 30) else [3600, 10800][int(rng.integers(2))])
        e["kind"] = "pair"
        others = [c for c in world.CALENDARS if c != cal]
        e["others"] = [str(x) for x in rng.choice(others, 2, replace=False)]
        out.append(e)
    for c in world.CALENDARS:
        out.append({"kind": "dates", "cal": c, "seed": int(rng.integers(2**31)), "n": 60 if tier == "quick" else 400})
    return out


def relabel(e, cal):
    """The same experiment on the same wall clock dates of another calendar."""
    t = world.date_of(e["start"], e["cal"])
    s = world.sec_of(cal, t.year, t.month, t.day, t.hour, t.minute, t.second)
    z = s - e["start"]
    return dict(e, cal=cal, start=e["start"] + z, end=e["end"] + z, tag=[x + z for x in e["tag"]])


def run_pair(e, obs, d):
    base_w = world.make_world(world.world_params(e))
    runs = []
    for k, cal in enumerate([e["cal"]] + e["others"]):
        e2 = relabel(e, cal)
        p = world.world_params(e2)
        w = world.World(base_w.lat, base_w.lon, base_w.dlat, base_w.dlon, cal, e["freq"], p["t_first"] + e["freq"] * np.arange(p["nrec"], dtype="i8"), base_w.data, base_w.dtype)
        if p["nrec"] != len(base_w.t):
            raise RuntimeError("records differ")
        outs = runner.run_exp(obs, e2, d / str(k), w)[3]
        if not outs:
            return
        obs.count("calendars_run")
        for o in outs:
            t = world.date_of(o.sec, cal)
            want = f"{'forwardtrack' if e['direction'] == 'forward' else 'backtrack'}_{t.year:04d}-{t.month:02d}-{t.day:02d}T{t.hour:02d}-{t.minute:02d}.nc"
            obs.expect(o.name == want, "name-not-its-date", f"{cal}: {o.name} holds {t}")
            obs.expect(SAME.get(o.cal, o.cal) == SAME.get(cal, cal), "calendar-of-output", f"{o.name} in calendar {o.cal}, configured {cal}")
        runs.append((e2, outs))
        days = {world.date_of(s, cal).timetuple()[:3] for s in (e2["start"], e2["end"])}
        obs.count("across_leap_day", any(x[1:] == (2, 28) for x in days) and len(days) > 1)
        obs.count("across_year", len({x[0] for x in days}) > 1)
        obs.count("across_month", len({x[1] for x in days}) > 1)
    e1, a = runs[0]
    for e2, b in runs[1:]:
        obs.count("pairs")
        what = f"{e1['cal']} {world.iso(e1['start'], e1['cal'])} against {e2['cal']} {world.iso(e2['start'], e2['cal'])}"
        ra, rb = [o.sec - e1["start"] for o in a], [o.sec - e2["start"] for o in b]
        if not obs.expect(ra == rb, "dates-differ", f"{what}: outputs {ra} against {rb} seconds after the start"):
            continue
        for x, y in zip(a, b):
            bx, by = [sorted(t - q["start"] for t in o.bnds) if o.bnds else None for o, q in ((x, e1), (y, e2))]
            obs.expect(bx == by, "bounds-differ", f"{what}: {x.name} {bx}, {y.name} {by}")
            for n in runner.all_vars(e["direction"]):
                runner.compare_field(obs, "physics-differ", y.v[n], x.v[n], rtol=1e-6, atol_rel=1e-7, what=f"{what}: {y.name} {n}")
    obs.signature = gen.signature(e, *e["others"])
    obs.sample = gen.brief(e, others=e["others"], start=world.iso(e["start"], e["cal"]))


LENGTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def month_length(cal, y, m):
    c = SAME.get(cal, cal)
    if c == "360_day":
        return 30
    leap = {"noleap": False, "all_leap": True, "julian": y % 4 == 0}.get(c, y % 4 == 0 and (y % 100 != 0 or y % 400 == 0))
    return 29 if m == 2 and leap else LENGTHS[m - 1]


FIELDS = ["preprocess_start_date", "preprocess_end_date", "tracking_start_date", "tracking_end_date", "tagging_start_date", "tagging_end_date"]


def run_dates(e, obs, d):
    rng = np.random.default_rng([e["seed"], 13])
    cal = e["cal"]
    base = world.random_exp(rng, cal=cal, direction="forward", region="mask")
    c0 = world.config_dict(base, d, [0.0, 0.0, 10.0, 10.0])
    path = d / "c.yaml"

    def attempt(field, text):
        c = dict(c0)
        lo, hi = ("1600-01-01T00:00", "2999-01-01T00:00")
        for f in FIELDS:
            c[f] = lo if "start" in f else hi
        c[field] = text
        path.write_text(json.dumps(c))
        try:
            return getattr(Config.from_yaml(path), field)
        except Exception as ex:
            return ex

    for _ in range(e["n"]):
        field = FIELDS[int(rng.integers(6))]
        y, m = int(rng.choice([1604, 1700, 1900, 1999, 2000, 2016, 2021, 2100])), int(rng.choice([1, 2, 2, 2, 3, 4, 6, 9, 11, 12, int(rng.integers(1, 13))]))
        n = month_length(cal, y, m)
        h, mi = int(rng.integers(24)), int(rng.integers(60))
        day = int(rng.choice([1, n, n, n - 1, int(rng.integers(1, n + 1))]))
        text = f"{y:04d}-{m:02d}-{day:02d}T{h:02d}:{mi:02d}"
        sec = 0
        if rng.uniform() < 0.25:
            sec = int(rng.choice([0, 1, 30, 59]))
            text += f":{sec:02d}"
            obs.count("dates_with_seconds", sec > 0)
        t = attempt(field, text)
        obs.count("dates_checked")
        good = not isinstance(t, Exception) and (t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond) == (y, m, day, h, mi, sec, 0) and SAME.get(t.calendar, t.calendar) == SAME.get(cal, cal)
        obs.expect(good, "date-not-as-stated", f"{cal}: {field} {text} read as {t!r}")
        obs.count("accepted_dates", good)
        bad = [
            f"{y:04d}-{m:02d}-{n + 1:02d}T{h:02d}:{mi:02d}",
            f"{y:04d}-{m:02d}-00T{h:02d}:{mi:02d}",
            f"{y:04d}-13-{day:02d}T{h:02d}:{mi:02d}",
            f"{y:04d}-{m:02d}-{day:02d}T24:{mi:02d}",
            f"{y:04d}-{m:02d}-{day:02d}T{h:02d}:60",
            f"{y:04d}-{m:02d}-32T{h:02d}:{mi:02d}",
        ][int(rng.choice([0, 0, 0, 1, 2, 3, 4, 5]))]
        t = attempt(field, bad)
        obs.count("refused_dates", isinstance(t, Exception))
        obs.expect(isinstance(t, Exception), "impossible-date-accepted", f"{cal}: {field} {bad} read as {t!r}")
    # the command refuses as well and leaves no output
    w, m, cfg = world.setup(base, d / "run")
    c = json.loads(cfg.read_text())
    y = 2021
    c["tracking_end_date"] = f"{y}-02-{month_length(cal, y, 2) + 1:02d}T00:00"
    cfg.write_text(json.dumps(c))
    r = runner.run_cli("track", cfg)
    left = list((d / "run" / "out").glob("*track_*.nc"))
    obs.expect(not r.ok and not left, "impossible-date-run", f"{cal}: tracking until {c['tracking_end_date']} ended with {r.why()} and left {len(left)} files")
    obs.count("refused_runs")
    obs.signature = "dates|" + cal
    obs.sample = {"calendar": cal, "dates": e["n"]}


def run(e, obs, d):
    (run_pair if e["kind"] == "pair" else run_dates)(e, obs, d)
