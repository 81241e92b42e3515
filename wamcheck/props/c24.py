"""C24: the commands do what the configuration says and record it with the results."""

import contextlib
import hashlib
import io
import json
import os
import shutil
from pathlib import Path

import netCDF4
import numpy as np

from wamcheck import gen, raw, runner, world
from wamcheck.props.c19 import difference, results

RULE = (
    "random tracking experiments (all directions, calendars, regions, domains, restarts) and preprocessing of all sources are run from configuration files in various notations and places (elsewhere, in "
    "the result folder, reached by relative paths or links, over an older copy), with relative, absolute and ~ paths, with and without --debug. The result folder has to hold the configuration byte for "
    "byte and a log with every message of the run; outputs have to be of the configured direction; the configuration embedded in every output is compared with the stated one and then itself run "
    "from another place, which has to give the same outputs. Non-trivial: outputs were repeated or a preprocessing command recorded."
)
MINIMUM = {"commands": 60, "commands_track": 30, "commands_preprocess": 12, "copies_compared": 40, "logs_compared": 40, "messages_matched": 300, "debug_messages": 300, "embedded_configs": 60, "repeats": 25, "outputs_repeated": 50, "config_in_result_folder": 8, "relative_paths": 8, "home_paths": 3, "older_copy": 6, "restarts": 4, "removed_commands": 4, "remote_runs": 4, "direction_forward": 8, "direction_backward": 8}
ASSUMPTIONS = [
    "messages on folders made while the configuration is read precede the log",
    "one command per process (as from a shell); a command that reuses a process keeps the first log file",
    "paths that hold the embedded configuration's inputs are still in place when it is repeated",
]


def warm(d):
    gen.warm(d / "t")
    raw.warm(d / "p")


def cases(tier, seed):
    n, p = (44, 16) if tier == "quick" else (500, 150)
    out = []
    for i, e in enumerate(gen.experiments("C24", tier, seed, n, n, nsteps=lambda r: [4, 6, 9][r.integers(3)], offset=0, region=lambda r: ["box", "bigbox", "mask", "fmask", "cell"][r.integers(5)])):
        e["kind"] = "track"
        e["domain"] = bool(not e["periodic"] and i % 4 == 1)
        e["restart_run"] = i % 5 == 3
        e["url"] = ["https://data.example.org/thredds/dodsC/wam2layers/pre", "http://127.0.0.1:9/pre", "https://example.org/a/b_c/"][i // 6 % 3] if i % 6 == 2 else None
        if e["restart_run"]:
            e["out"] = e["dt"] if 86400 % e["dt"] == 0 else 3600
        out.append(e)
    rng = np.random.default_rng([seed, 2424])
    for i in range(p):
        q = raw.random_any(rng, i)
        out.append({"kind": "pre", "p": q, "seed": int(rng.integers(2**31))})
    return out


STYLES = ["json", "block", "comments", "flow"]


def notate(c, style, rng):
    """The same settings in another notation."""
    import yaml

    keys = list(c)
    rng.shuffle(keys)
    c = {k: c[k] for k in keys}
    if style == "json":
        return json.dumps(c, indent=int(rng.integers(0, 4)))
    if style == "block":
        return yaml.safe_dump(c, sort_keys=False)
    if style == "flow":
        return yaml.safe_dump(c, sort_keys=False, default_flow_style=True)
    text = "# a comment\r\n" if rng.uniform() < 0.3 else "# söme comment\n\n"
    for k, v in c.items():
        text += f"{k}: {json.dumps(v)}   # {k[::-1]}\n" + ("\n" if rng.uniform() < 0.2 else "")
    return text + ("" if rng.uniform() < 0.5 else "# no newline at the end")


def digest(path):
    return hashlib.sha1(Path(path).read_bytes()).hexdigest()


def command(args, obs, d):
    """Run a command, collecting what it prints."""
    term = io.StringIO()
    with contextlib.redirect_stderr(term), contextlib.redirect_stdout(term):
        r = runner.run_cli(*args)
    obs.count("commands")
    return r, term.getvalue()


def recorded(obs, args, r, term, cfgfile, text, folder, t0, what):
    """The copy of the configuration and the log in the result folder."""
    copy = Path(folder) / Path(cfgfile).name
    if not copy.exists():
        obs.fail("no-config-copy", f"{what}: no {copy.name} in the result folder")
    else:
        obs.count("copies_compared")
        obs.expect(copy.read_bytes() == text, "config-copy-differs", f"{what}: the configuration in the result folder differs from the one given")
    obs.expect(Path(cfgfile).read_bytes() == text, "config-file-changed", f"{what}: the given configuration file was changed")
    logs = [x for x in Path(folder).glob("wam2layers_*.log") if x not in t0]
    if not logs:
        obs.fail("no-log", f"{what}: no new log file in the result folder")
        return
    obs.count("logs_compared")
    body = logs[-1].read_text()
    debug = "--debug" in [str(x) for x in args]
    for name, where, have in (("log", body, "log file"), ("terminal", term, "terminal")):
        at = 0
        said = r.log[r.unfiled :] if name == "terminal" and not debug else r.said
        obs.count("debug_messages", sum(x == "DEBUG" for x, _ in said))
        for level, m in said:
            k = where.find(m, at)
            if k < 0:
                obs.fail(f"message-not-in-{name}", f"{what}: message not on the {have} (or out of order): {m[:160]}")
                break
            at = k + len(m)
            obs.count("messages_matched")
    # folders may be made, and reported, before there is a place for a log
    obs.expect(r.unfiled <= 3 and len(r.log) >= r.unfiled + 2, "log-incomplete", f"{what}: {r.unfiled} of {len(r.log)} messages were given before the log file was open")


SKIP = ("preprocessed_data_folder", "output_folder", "tagging_region")


def embedded(obs, c, outs, cwd, home, what):
    """Compare the embedded configuration with the stated one."""
    texts = set()
    for o in outs:
        t = o.attrs.get("WAM2Layers_config")
        if t is None:
            obs.fail("no-embedded-config", f"{what}: {o.name} embeds no configuration")
            return None
        texts.add(t)
    obs.count("embedded_configs", len(outs))
    if len(texts) > 1:
        obs.fail("embedded-configs-differ", f"{what}: the outputs of one run embed {len(texts)} different configurations")
    got = json.loads(outs[-1].attrs["WAM2Layers_config"])
    place = lambda p: Path(os.path.normpath(os.path.join(cwd, str(p).replace("~", str(home), 1) if str(p).startswith("~") else str(p))))
    for k, v in c.items():
        if k not in got:
            obs.fail("embedded-config-lacks-field", f"{what}: {k} is not in the embedded configuration")
        elif str(v).startswith("http"):
            obs.expect(got[k].rstrip("/") == v.rstrip("/"), "embedded-config-path", f"{what}: {k} is {got[k]}, stated {v}")
        elif k in SKIP and isinstance(v, str):
            obs.expect(Path(os.path.normpath(got[k])) == place(v), "embedded-config-path", f"{what}: {k} is {got[k]}, stated {v} from {cwd}")
        elif k.endswith("_frequency"):
            import pandas as pd

            obs.expect(pd.Timedelta(got[k].replace("H", "h").replace("D", "d")) == pd.Timedelta(v.replace("H", "h").replace("D", "d")), "embedded-config-field", f"{what}: {k} is {got[k]!r}, stated {v!r}")
        elif k.endswith("_date"):
            obs.expect(got[k][:16] == v[:16], "embedded-config-field", f"{what}: {k} is {got[k]!r}, stated {v!r}")
        else:
            obs.expect(got[k] == v, "embedded-config-field", f"{what}: {k} is {got[k]!r}, stated {v!r}")
    return outs


def track_case(e, obs, d):
    rng = np.random.default_rng([e["seed"], 24])
    home = d / "home"
    cwd = d / "work"
    for x in (home, cwd):
        x.mkdir()
    os.environ["HOME"] = str(home)
    w, weights, path = world.setup(e, d / "exp")
    c = json.loads(path.read_text())
    path.unlink()
    mode = ["absolute", "relative", "home"][int(rng.choice(3, p=[0.4, 0.4, 0.2]))]
    target = {"absolute": d / "exp" / "out", "relative": d / "exp" / "out", "home": home / "res" / "out"}[mode]
    obs.count("relative_paths", mode == "relative")
    obs.count("home_paths", mode == "home")
    if mode == "relative":
        c["output_folder"] = os.path.relpath(target, cwd)
        c["preprocessed_data_folder"] = os.path.relpath(d / "exp" / "pre", cwd)
        if isinstance(c["tagging_region"], str):
            c["tagging_region"] = os.path.relpath(c["tagging_region"], cwd)
    elif mode == "home":
        (home / "pre").symlink_to(d / "exp" / "pre")
        c["output_folder"], c["preprocessed_data_folder"] = "~/res/out", "~/pre"
    if e["domain"]:
        lat, lon = w.lat, w.lon
        dom = [float(np.floor(lon[0] * 1e4) / 1e4), float(np.floor(lat[-2] * 1e4) / 1e4), float(np.ceil(lon[-1] * 1e4) / 1e4), float(np.ceil(lat[0] * 1e4) / 1e4)]
        if abs(dom[1]) <= 80 and abs(dom[3]) <= 80 and -180 <= dom[0] and dom[2] <= 180:
            c["tracking_domain"] = dom
    if rng.uniform() < 0.4:
        c["parallel_preprocess"] = False
        c["level_layer_boundary"] = int(rng.integers(90, 130))
        c["pressure_boundary_factor"] = float(rng.uniform(0.5, 0.8))
    if e.get("url"):
        c["preprocessed_data_folder"] = e["url"]
    what = f"{mode} paths, {e['direction']}{', input at ' + e['url'] if e.get('url') else ''}"
    os.chdir(cwd)

    first = None
    if e["restart_run"]:
        # an earlier run provides the state from which the recorded run starts
        m = int(rng.integers(1, e["nsteps"]))
        c1 = dict(c)
        if e["direction"] == "forward":
            mid = e["start"] + m * e["dt"]
            c1["tracking_end_date"] = c["tracking_start_date"] if m == 0 else world.iso(mid, e["cal"])
            c["tracking_start_date"] = world.iso(mid, e["cal"])
        else:
            mid = e["end"] - m * e["dt"]
            c1["tracking_start_date"] = world.iso(mid, e["cal"])
            c["tracking_end_date"] = world.iso(mid, e["cal"])
        (d / "first.yaml").write_text(json.dumps(c1))
        r = runner.run_cli("track", d / "first.yaml")
        have = [o.sec for o in runner.read_outputs(target, e["direction"])] if r.ok else []
        if mid not in have:
            # the state at the end of the first part is saved under that very time only if it is the last step
            c.update(tracking_start_date=c1["tracking_start_date"] if e["direction"] == "forward" else c["tracking_start_date"], tracking_end_date=c["tracking_end_date"] if e["direction"] == "forward" else c1["tracking_end_date"])
            shutil.rmtree(target, ignore_errors=True)
            obs.count("restart_not_possible")
        else:
            c["restart"] = True
            first = {p.name: p.read_bytes() for p in target.glob("*.nc")}
            obs.count("restarts")
            for p in target.glob("wam2layers_*.log"):
                p.unlink()

    style = STYLES[int(rng.integers(4))]
    text = notate(c, style, rng).encode()
    name = ["config.yaml", "my case.yml", "floodcase_2021.yaml", "settings.json"][int(rng.integers(4))]
    spot = ["elsewhere", "elsewhere", "result", "result-relative", "link"][int(rng.integers(5))]
    folder = d / "cases"
    if spot.startswith("result"):
        folder = target
        obs.count("config_in_result_folder")
    folder.mkdir(parents=True, exist_ok=True)
    cfg = folder / name
    if spot == "link":
        (d / "real").mkdir()
        (d / "real" / name).write_bytes(text)
        cfg.symlink_to(d / "real" / name)
    else:
        cfg.write_bytes(text)
    if not spot.startswith("result") and rng.uniform() < 0.4:
        target.mkdir(parents=True, exist_ok=True)
        (target / name).write_text("# an older configuration with the same name\n" * 40)
        obs.count("older_copy")
    args = (["--debug"] if rng.uniform() < 0.3 else []) + ["track", os.path.relpath(cfg, cwd) if spot == "result-relative" or rng.uniform() < 0.3 else cfg]
    before = set(target.glob("wam2layers_*.log")) if target.exists() else set()
    r, term = command(args, obs, d)
    obs.count("commands_track")
    what += f", {style} file {spot}, restart {bool(c['restart'])}"
    if not r.ok:
        obs.fail(f"run-failed-{runner.fresh_error_name(r.error)}", f"{what}: a valid experiment ended with {r.why()}", config=text.decode()[:1500])
        return
    recorded(obs, args, r, term, cfg, text, target, before, what)

    # direction
    mine, other = ("backtrack", "forwardtrack") if e["direction"] == "backward" else ("forwardtrack", "backtrack")
    names = sorted(p.name for p in target.glob("*.nc"))
    obs.expect(all(n.startswith(mine + "_") for n in names) and names, "wrong-direction", f"{what}: files {names[:4]} of a {e['direction']} run")
    obs.count("direction_" + e["direction"])
    outs = runner.read_outputs(target, e["direction"])
    if first is not None:
        outs = [o for o in outs if o.name not in first or o.path.read_bytes() != first[o.name]]
    need = set(runner.all_vars(e["direction"]))
    for o in outs:
        if not need <= set(o.v):
            obs.fail("wrong-direction", f"{what}: {o.name} has variables {sorted(o.v)}")
            return
    if not outs or embedded(obs, c, outs, cwd, home, what) is None:
        return

    # repeat the run from the configuration in one of its outputs
    kept = {o.name: o for o in outs}
    pick = outs[int(rng.integers(len(outs)))]
    want = {k: v for k, v in results(target).items() if k in kept}
    again = d / "again"
    again.mkdir()
    (again / "repeat.yaml").write_text(pick.attrs["WAM2Layers_config"])
    for p in list(target.iterdir()):
        if p.is_dir():
            shutil.rmtree(p)
        elif first is None or p.name not in first:
            p.unlink()
        else:
            p.write_bytes(first[p.name])
    os.chdir(again)
    r = runner.run_cli("track", "repeat.yaml")
    obs.count("repeats")
    if not r.ok:
        obs.fail("repeat-failed", f"{what}: the configuration embedded in {pick.name} ended with {r.why()}", config=pick.attrs["WAM2Layers_config"][:1500])
        return
    got = results(target)
    if first is None and set(got) != set(want):
        obs.fail("repeat-differs", f"{what}: repeating with the embedded configuration gave other files: {sorted(set(got) ^ set(want))[:4]}")
    for n in want:
        if n not in got:
            continue
        diff = difference(got[n], want[n])
        obs.count("outputs_repeated")
        obs.expect(diff is None, "repeat-differs", f"{what}: {n} from the configuration embedded in {pick.name}: {diff}")
    obs.nontrivial = True
    if e["seed"] % 4 == 0:
        # commands that no longer exist must not do anything
        shutil.rmtree(target)
        for old in ("backtrack", "forwardtrack"):
            for args in ([old], [old, "repeat.yaml"]):
                r, _ = command(args, obs, d)
                obs.count("removed_commands")
                obs.expect(not r.ok and not target.exists(), "removed-command-runs", f"{' '.join(args)} ended without error or wrote output")
    obs.signature = gen.signature(e, mode, style, spot, bool(c["restart"]))
    obs.sample = gen.brief(e, paths=mode, notation=style, place=spot, restart=bool(c["restart"]))


def pre_case(e, obs, d):
    rng = np.random.default_rng([e["seed"], 24])
    p = e["p"]
    work = d / "w"
    spot = ["elsewhere", "elsewhere", "result", "older"][int(rng.integers(4))]
    box = {}

    def run(*args):
        """Called in place of run_cli: rewrites the configuration first."""
        cfg = Path(args[-1])
        c = json.loads(cfg.read_text())
        cfg.unlink()
        pre = Path(c["preprocessed_data_folder"])
        name = ["config.yaml", "era5 2021.yml"][int(rng.integers(2))]
        folder = work / "cases"
        if spot == "result":
            folder = pre
            obs.count("config_in_result_folder")
        folder.mkdir(parents=True, exist_ok=True)
        text = notate(c, STYLES[int(rng.integers(4))], rng).encode()
        (folder / name).write_bytes(text)
        if spot == "older":
            pre.mkdir(parents=True, exist_ok=True)
            (pre / name).write_text("# older\n" * 300)
            obs.count("older_copy")
        term = io.StringIO()
        with contextlib.redirect_stderr(term), contextlib.redirect_stdout(term):
            r = real(*args[:-1], folder / name)
        box.update(r=r, term=term.getvalue(), cfg=folder / name, text=text, pre=pre)
        return r

    real = runner.run_cli
    runner.run_cli = run
    try:
        _, r, _ = raw.run_source(p, work, _Renamed(obs))
    except FileNotFoundError:  # run_source reports on the configuration we moved
        r = box["r"]
    finally:
        runner.run_cli = real
    obs.count("commands")
    obs.count("commands_preprocess")
    what = f"preprocess {p['source']}, configuration {spot}"
    if not r.ok:
        obs.fail(f"run-failed-{runner.fresh_error_name(r.error)}", f"{what} ended with {r.why()}", config=box["text"].decode()[:1500])
        return
    recorded(obs, (), r, box["term"], box["cfg"], box["text"], box["pre"], set(), what)
    obs.expect(any(box["pre"].glob("*_fluxes_storages.nc")), "no-preprocessed-files", f"{what}: no preprocessed files")
    obs.signature = raw.signature(p) + spot
    obs.sample = raw.brief(p)


class _Renamed:
    def __init__(self, obs):
        self.obs = obs

    def count(self, *a):
        self.obs.count(*a)

    def fail(self, *a, **k):
        pass


def remote_case(e, obs, d):
    """Preprocessed data on a server: opening an address gives the file of that name."""
    import xarray as xr

    real, asked = xr.open_dataset, set()

    def open_dataset(name, *a, **k):
        if str(name).startswith(e["url"]):
            asked.add(str(name))
            name = d / "exp" / "pre" / str(name)[len(e["url"]):].strip("/")
        return real(name, *a, **k)

    with runner.stand_in(real, open_dataset):
        track_case(e, obs, d)
    obs.count("remote_runs", len(asked) > 0)
    stray = [str(p) for p in d.rglob("*") if p.name.startswith("http") or "example.org" in p.name]
    obs.expect(not stray, "folder-named-like-address", f"{stray[:2]} made for input at {e['url']}")


def run(e, obs, d):
    if e["kind"] == "track" and e.get("url"):
        remote_case(e, obs, d)
    elif e["kind"] == "track":
        track_case(e, obs, d)
    else:
        pre_case(e, obs, d)
