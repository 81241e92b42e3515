"""C20: reported progress and stability warnings describe what really happened."""

import re

import numpy as np
import netCDF4

from wamcheck import gen, ref, runner, world

RULE = (
    "random experiments in all styles; every progress line is matched with the output file written with it and its percentages recomputed from the output files "
    "of the run up to then (area-weighted sums, boundary cells apart), closure against 100. From the forcing, the ratio of limited to given meridional flux is "
    "computed for every step, layer and cell; warnings, the numbers in them and the saved fields are compared with it. Non-trivial: more than one progress line "
    "with moisture tagged."
)
MINIMUM = {"progress_lines": 200, "percentages_compared": 900, "closures": 150, "lines_with_losses": 10, "lines_with_gains": 10, "lines_boundary": 60, "lines_cells_cut_by_pole": 10, "restarts": 4, "steps_limited": 150, "runs_with_warning": 20, "runs_without_limit": 8, "warnings": 30, "repeated_warnings": 10, "fields_saved": 25}
ASSUMPTIONS = [
    "percentages are printed with two decimals; sums of single precision fields are compared with relative tolerance 1e-4",
    "a second warning of the same kind is due when the ratio is ten percent stronger, or ten percent more cells (and over five percent of them) are corrected; ratios within 0.1 percent of a threshold are not judged",
]
warm = gen.warm

NUM = r"(nan|-?inf|-?[\d.]+)"
LINE = re.compile(
    rf"(.*?) - Tracked moisture: {NUM}%\. Tagged in atmosphere: {NUM}%\. Boundary transport: {NUM}%\. Lost moisture: {NUM}%\. Gained moisture: {NUM}%\. Tagging closure: {NUM}%", re.S
)
WARN = re.compile(rf"stability correction applied to {NUM}% of\s+grid.*?[Aa]verage correction factor was {NUM}.*?strongest correction factor was {NUM}.*?written to (\S+?)\.?\s", re.S)


def cases(tier, seed):
    out = gen.experiments("C20", tier, seed, 64, 500, nsteps=lambda r: [6, 9, 12][r.integers(3)], tagwin=lambda r: ["all", "part"][r.integers(2)],
                          out=lambda r: [600, 1800, 3600, 3600, 10800, 86400][r.integers(6)], region=lambda r: ["mask", "bigbox", "fmask"][r.integers(3)], offset=lambda r: [0, 0, 0, 600][r.integers(4)])
    rng = np.random.default_rng([seed, 2020])
    for i, e in enumerate(out):
        # from far below to far above the limit of the meridional fluxes
        e["courant"] = [0.05, 0.4, 1.0, 2.0, 3.0, 6.0][int(rng.integers(6))]
        e["again"] = i % 2 == 1
        if 86400 % e["dt"] == 0 and rng.uniform() < 0.8:
            e["out"] = e["dt"]
    return out


def ratios(w, e):
    """Per step: start of the step and, for both layers, limited / given meridional flux."""
    a, ly, lx = w.area[:, None], w.dlat * world.DEG, world.face_x(w.lat, w.dlat, w.dlon)[:, None]
    for k, t0, t1 in ref.schedule(e)[0]:
        now = t0 if e["direction"] == "forward" else t1
        S = w.at(now, ["s_upper", "s_lower"])
        F = w.at((t0 + t1) / 2, ["fx_upper", "fy_upper", "fx_lower", "fy_lower"])
        res = []
        for lev in ("upper", "lower"):
            gx, gy = F["fx_" + lev] * ly, F["fy_" + lev] * lx
            hy = ref.limit(gx, gy, S["s_" + lev] * a, e["dt"])[1]
            with np.errstate(divide="ignore", invalid="ignore"):
                res.append((np.where(gy != 0, hy / gy, np.nan), (np.abs(hy) < np.abs(gy) * (1 - 1e-6)).sum(), gy.size, (np.abs(hy) < np.abs(gy)).sum()))
        yield k, now, res


def progress(obs, e, r, outs, restarted):
    lines = [m for m in (LINE.match(x) for _, x in r.log) if m]
    if len(lines) != len(outs):
        obs.fail("progress-lines", f"{len(lines)} progress lines for {len(outs)} output files")
        return 0
    per = e["periodic"]
    tot = dict(tracked=0.0, tagged=0.0, boundary=0.0, lost=0.0, gained=0.0)
    good = 0
    for m, o in zip(lines, outs):
        obs.count("progress_lines")
        obs.count("lines_cells_cut_by_pole", max(abs(o.lat)) + e["dlat"] / 2 > 90)
        wt = world.areas(o.lat, e["dlat"], e["dlon"])[:, None]
        v = o.v
        acc = runner.acc_vars(e["direction"])
        tot["tagged"] += (v[acc[0]] * wt).sum()
        tot["tracked"] += sum((v[n] * wt).sum() for n in acc[1:])
        edge = ref.edge(v["losses"].shape, per)
        tot["boundary"] += (v["losses"] * wt)[edge].sum()
        tot["lost"] += (v["losses"] * wt)[~edge].sum()
        tot["gained"] += (v["gains"] * wt).sum()
        air = (o.layer_sum() * wt).sum()
        when = world.iso(o.sec, e["cal"], True).replace("T", " ")
        obs.expect(when in m[1], "progress-date", f"progress line of {o.name} is dated {m[1]!r}")
        if tot["tagged"] <= 0:
            obs.count("lines_without_tagging")
            continue
        good += 1
        want = [100 * x / tot["tagged"] for x in (tot["tracked"], air, tot["boundary"], tot["lost"], tot["gained"])]
        for name, x, y in zip(("tracked", "in atmosphere", "boundary transport", "lost", "gained"), map(float, m.groups()[1:6]), want):
            obs.count("percentages_compared")
            obs.expect(abs(x - y) <= 0.0051 + 1e-4 * abs(y), "percentage-wrong", f"{o.name}: {name} reported as {x} %, output files give {y:.4f} %")
        obs.count("lines_with_losses", want[3] > 0.01)
        obs.count("lines_with_gains", want[4] > 0.01)
        obs.count("lines_boundary", want[2] > 0.01)
        if not restarted:
            obs.count("closures")
            close = float(m[7])
            # the parts are sums of single precision fields
            slack = 0.02 + 1e-5 * sum(want)
            obs.expect(abs(close - 100) <= slack, "closure-wrong", f"{o.name}: closure reported as {close} %, parts {[round(x, 3) for x in want]}")
    return good


def stability(obs, e, w, r, folder):
    warns = [WARN.search(x) for level, x in r.log if "stability correction" in x.lower()]
    if any(x is None for x in warns):
        obs.fail("warning-unreadable", next(x for _, x in r.log if "stability correction" in x.lower())[:300])
        return
    saved = {}
    for p in sorted((folder / "debug").glob("*.nc")) if (folder / "debug").exists() else []:
        with netCDF4.Dataset(p) as ds:
            ds.set_auto_mask(False)
            saved[p.name] = np.squeeze(np.array(ds.variables["correction_factor"][:], dtype="f8"))
    due, files = [], {}
    factor, grid = 1.0, 0.0
    near = lambda x, y: abs(x - y) <= 1e-3 * abs(y)
    sure = True
    for k, now, res in ratios(w, e):
        for field, n, cells, n_max in res:
            low = np.nanmin(field) if np.isfinite(field).any() else 1.0
            pct = 100 * n / max(cells, 1)
            obs.count("steps_limited", n > 0)
            # close to a threshold rounding decides
            if near(low, factor / 1.1) or near(pct, 5) or (grid and near(pct, grid * 1.1)) or n != n_max:
                sure = False
            warn = False
            if low < factor / 1.1:
                factor, warn = low, True
            elif pct > 5 and pct > grid * 1.1:
                grid, warn = pct, True
            if warn and sure:
                due.append((now, pct, np.nanmean(field), low))
                files[now] = field
        if not sure:
            break
    else:
        obs.count("stability_complete")
    obs.count("warnings", len(warns))
    obs.count("repeated_warnings", max(0, len(warns) - 1))
    obs.count("runs_with_warning", len(warns) > 0)
    if sure and not due:
        obs.count("runs_without_limit")
        obs.expect(not warns, "warning-without-cause", f"{len(warns)} warnings, first {warns[0][0][:200] if warns else ''}; no flux had to be corrected so far")
        obs.expect(not saved, "correction-saved-without-cause", f"{sorted(saved)[:3]}")
        return
    if len(warns) < len(due) or (sure and len(warns) != len(due)):
        obs.fail("warnings-missing" if len(warns) < len(due) else "warnings-too-many", f"{len(warns)} warnings, {len(due)} due: {[(world.iso(x[0], e['cal']), round(x[1], 2), round(x[3], 4)) for x in due[:4]]}")
        return
    for m, (now, pct, mean, low) in zip(warns, due):
        got = [float(x) for x in m.groups()[:3]]
        if abs(got[0] - pct) > 0.0501 + 1e-6 or abs(got[1] - mean) > 0.00501 or abs(got[2] - low) > 0.00501:
            obs.fail("warning-numbers", f"warning for {world.iso(now, e['cal'])} says {got[0]} % of grid, mean {got[1]}, strongest {got[2]}; forcing gives {pct:.2f} %, {mean:.4f}, {low:.4f}")
    for now, field in files.items():
        stamp = world.date_of(now, e["cal"]).strftime("%Y%m%d-%H%M%S")
        got = [f for n, f in saved.items() if stamp in n]
        if not got:
            obs.fail("correction-not-saved", f"no field saved for {stamp}, only {sorted(saved)[:4]}")
            continue
        obs.count("fields_saved")
        fin = np.isfinite(field)
        if got[0].shape != field.shape or not (np.abs(got[0] - field)[fin] <= 1e-4).all():
            obs.fail("correction-field-wrong", f"saved field for {stamp} differs from the ratio of limited to given flux by up to {np.nanmax(np.abs(got[0] - field)) if got[0].shape == field.shape else got[0].shape}")
    if sure:
        obs.expect(len(saved) == len(files), "correction-files", f"{len(saved)} saved fields, {len(files)} expected")


def run(e, obs, d):
    w, weights, r, outs = runner.run_exp(obs, e, d / "a")
    if not outs:
        return
    good = progress(obs, e, r, outs, False)
    stability(obs, e, w, r, d / "a" / "out")
    if e["again"] and len(outs) > 1 and outs[0].sec % 60 == 0:
        cfg = d / "a" / "config.yaml"
        import json

        c = json.loads(cfg.read_text())
        sec = outs[0].sec
        e2 = dict(e)
        if e["direction"] == "forward":
            c["tracking_start_date"], e2["start"] = world.iso(sec, e["cal"]), sec
        else:
            c["tracking_end_date"], e2["end"] = world.iso(sec, e["cal"]), sec
        c["restart"] = True
        cfg.write_text(json.dumps(c))
        r2, outs2 = runner.track(obs, cfg, e)
        outs2 = [o for o in outs2 if (o.sec > sec) == (e["direction"] == "forward") and o.sec != sec]
        if outs2:
            obs.count("restarts")
            progress(obs, e2, r2, outs2, True)
    obs.nontrivial = good > 1
    obs.signature = gen.signature(e, e["courant"])
    obs.sample = gen.brief(e, courant=e["courant"])
