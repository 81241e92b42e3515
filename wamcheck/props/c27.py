"""C27: interrupted and failing runs leave finished files whole, end with an error, and can be repeated or continued."""

import json
import os
import resource
import shutil
import signal
import threading
import time

import numpy as np

from wamcheck import gen, raw, runner, world

LEVEL = "fault_enumeration"
RULE = (
    "each case takes one command, sees it work undisturbed, and disturbs it in a process of its own at one of its openings of a file for "
    "writing: killed at once or some milliseconds later, no room left on the disk (file size limit), or the file's name taken by a folder. "
    "Finished files are compared with the undisturbed run; then the command is repeated in the same folder, or over cut-off, foreign and "
    "garbage files of the same names, and continued from the last finished output; restarts from a cut-off state have to fail. "
    "Non-trivial: the disturbance was really delivered."
)
MINIMUM = {"killed": 20, "no_room": 22, "name_taken": 8, "no_room_parallel": 2, "finished_files_compared": 50, "repeated": 60, "continued": 16,
           "leftovers": 12, "cut_off_restarts": 14, "delivered_late": 4, "preprocess_cases": 30, "track_cases": 50}
ASSUMPTIONS = ["a full disk is played by a limit of the size of files (same failing write call, other error number)",
               "files are read back after the process is gone; loss of data by the operating system is not played"]


def warm(d):
    gen.warm(d / "a")
    (d / "b").mkdir()
    raw.warm(d / "b")


HOW = ["kill", "full", "kill-later", "full", "taken", "kill", "leftover", "cut"]


def cases(tier, seed):
    n = 72 if tier == "quick" else 900
    rng = np.random.default_rng([seed, 2727])
    exps = gen.experiments("C27", tier, seed, n, n, styles=["mild", "storm", "white", "deluge"], region=lambda r: ["mask", "bigbox", "fmask"][r.integers(3)], tagwin="all", nsteps=lambda r: int(r.integers(4, 9)), nx=6, ny=6)
    out = []
    for i, e in enumerate(exps):
        e.update(part="track", how=HOW[(i + i // 8) % 8], u=float(rng.uniform()), delay=float(rng.choice([0.5, 2, 5, 12, 30])), room=int(rng.choice([0, 100, 1000, 4000, 9000])), seed2=int(rng.integers(2**31)))
        if 86400 % e["dt"] == 0:
            z = e["start"] // e["dt"] * e["dt"] - e["start"]
            e["start"] += z
            e["end"] = e["start"] + e["nsteps"] * e["dt"]
            e["tag"] = [x + z // 60 * 60 for x in e["tag"]]
            e["out"] = e["dt"]
        out.append(e)
    for i in range(n * 5 // 8):
        fix = dict(nreq=[3, 4, 5, 6][int(rng.integers(4))], hour=[12, 18, 21][int(rng.integers(3))], ny=int(rng.integers(2, 4)), nx=int(rng.integers(3, 5)))
        k = i % 5
        if k == 3:
            p = raw.random_cmip(rng, days=3)
            p["end"] = p["t0"] + (p["nrec"] - 1) * p["freq"]
        elif k == 4:
            p = raw.random_arco(rng)
            p["start"] = p["t0"] + 79200 - p["t0"] % 86400
            p["t0"], p["end"], p["nrec"] = p["start"], p["start"] + 3 * 3600, 5
        else:
            p = raw.random_pre(rng, freq=[3600, 10800, 21600, 43200][int(rng.integers(4))], cal=world.CALENDARS[(i + i // 8) % 9], **fix)
        p.update(part="pre", how=["kill", "full", "full-parallel", "kill-later", "leftover", "full", "taken"][(i + i // 5) % 7], u=float(rng.uniform()), delay=float(rng.choice([0.5, 2, 5, 12])), room=int(rng.choice([0, 100, 1000, 6000])), seed2=int(rng.integers(2**31)))
        out.append(p)
    return out


def disturbed(command, folder, how, k, delay, room):
    """Run the command in a process of its own and disturb it at its k-th opening of a file in the folder for writing.

    Returns (ended, report): how the process ended, and what it told.
    """
    import netCDF4

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            os.close(r)
            real = netCDF4.Dataset
            n = [0]

            def tell(filename):
                # what is there already, other than the file being written
                there = [x for x in sorted(os.listdir(folder)) if x.endswith(".nc") and x != os.path.basename(str(filename)) and os.path.isfile(os.path.join(folder, x))]
                os.write(w, f"struck {json.dumps(there)}\n".encode())

            def strike():
                if how.startswith("full"):
                    resource.setrlimit(resource.RLIMIT_FSIZE, (room, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
                elif how == "kill":
                    os.kill(os.getpid(), signal.SIGKILL)

            class Watched(real):
                def __init__(self, filename, mode="r", *a, **kw):
                    hit = False
                    if mode != "r":
                        n[0] += 1
                        hit = n[0] == k
                    if hit:
                        tell(filename)
                    if hit and how.startswith("full"):
                        strike()
                    super().__init__(filename, mode, *a, **kw)
                    if hit and how == "kill":
                        strike()
                    if hit and how == "kill-later":

                        def later():
                            time.sleep(delay / 1000)
                            os.kill(os.getpid(), signal.SIGKILL)

                        threading.Thread(target=later, daemon=True).start()

            Watched.__module__, Watched.__name__, Watched.__qualname__ = real.__module__, real.__name__, real.__qualname__
            with runner.stand_in(real, Watched):
                res = command()
            os.write(w, f"opened {n[0]}\n".encode())
            os.write(w, ("ended " + ("well" if res.ok else "error " + res.why()[:300])).encode())
            code = 0
        except BaseException as x:  # noqa: BLE001
            os.write(w, f"harness {x!r}".encode())
        finally:
            os._exit(code)
    os.close(w)
    told = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        told += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return status, told.decode(errors="replace")


def there(told):
    """The files that were there when the command was disturbed."""
    return next((json.loads(x[7:]) for x in told.splitlines() if x.startswith("struck ")), [])


def share_of(u, told):
    """One of the openings counted in a run that was not disturbed."""
    n = next((int(x[7:]) for x in told.splitlines() if x.startswith("opened ")), 0)
    return 1 + int(u * max(n, 1))


def same_outputs(obs, key, got, want, what):
    ok = obs.expect([o.name for o in got] == [o.name for o in want], key, f"{what}: files {[o.name for o in got]}, undisturbed {[o.name for o in want]}")
    for a, b in zip(got, want):
        if a.name == b.name:
            ok &= same_output(obs, key, a, b, what)
    return ok


def same_output(obs, key, a, b, what):
    bad = [n for n in b.v if n not in a.v or not np.array_equal(a.v[n], b.v[n], equal_nan=True)]
    bad += ["time"] * (a.sec != b.sec or a.bnds != b.bnds) + ["grid"] * (not np.array_equal(a.lat, b.lat) or not np.array_equal(a.lon, b.lon))
    return obs.expect(not bad, key, f"{what}: {a.name} differs from that of the undisturbed run in {bad}")


def spoil(rng, path, model):
    """Leave something else under the name of a result."""
    import netCDF4

    kind = ["cut", "garbage", "empty", "foreign", "other-dims"][int(rng.integers(5))]
    data = model.read_bytes()
    if kind == "cut":
        path.write_bytes(data[: int(len(data) * rng.uniform(0.05, 0.98))])
    elif kind == "garbage":
        path.write_bytes(rng.bytes(int(rng.integers(10, 20000))))
    elif kind == "empty":
        path.write_bytes(b"")
    else:
        with netCDF4.Dataset(path, "w") as ds:
            ds.createDimension("time", None if kind == "foreign" else 3)
            ds.createDimension("latitude", 2)
            ds.createDimension("longitude", 2)
            for n in ("time", "latitude", "longitude"):
                v = ds.createVariable(n, "f8", (n,))
                v[:] = [1.0, 2.0] if n != "time" else [1.0, 2.0, 3.0]
                if n == "time":
                    v.units = "hours since 1900-01-01"
                    v.calendar = "standard"
            for n in ("s_upper", "s_track_upper_restart", "precip"):
                v = ds.createVariable(n, "f4", ("time", "latitude", "longitude"))
                v[:] = np.ones((3, 2, 2))
    return kind


def delivered(obs, how, status, told, what):
    """Was the command disturbed, and did it end as it has to?"""
    if told.startswith("harness") or "\nharness" in told:
        raise RuntimeError(told)
    if how == "taken":
        obs.count("name_taken")
        return obs.expect("ended error" in told, "failed-write-no-error", f"{what}: the name of a result is taken by a folder, but the command ended well")
    if "struck" not in told:
        return False
    if how.startswith("kill"):
        died = os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL
        obs.count("killed", died)
        obs.count("delivered_late", how == "kill-later" and died)
        return died
    obs.count("no_room")
    obs.count("no_room_parallel", how == "full-parallel")
    return obs.expect("ended error" in told, "failed-write-no-error", f"{what}: a result could not be written (no room), but the command ended without an error: {told[:300]}")


def run(e, obs, d):
    (run_track if e["part"] == "track" else run_pre)(e, obs, d)


def run_track(e, obs, d):
    obs.count("track_cases")
    rng = np.random.default_rng([e["seed2"], 27])
    w = world.make_world(world.world_params(e))
    m, region = world.region_weights(e, w)
    w.write(d / "pre")
    if region is None:
        region = str(d / "mask.nc")
        world.write_mask(region, w, m)
    n = [0]

    def config(folder, **over):
        n[0] += 1
        cfg = d / f"config{n[0]}.yaml"
        cfg.write_text(json.dumps(world.config_dict(e, d, region, output_folder=str(folder), **over)))
        return cfg

    r, base = runner.track(obs, config(d / "whole"), e)
    if len(base) < 2:
        return
    k = 1 + int(e["u"] * len(base))  # the disturbed output
    how = e["how"]
    cut = d / "cut"
    cut.mkdir()
    cfg = config(cut)
    what = f"{e['direction']} run of {len(base)} outputs, {how} at {k}"
    fwd = e["direction"] == "forward"
    obs.signature = f"track|{how}|{e['direction']}|{len(base)}|{k}|{e['delay'] if 'later' in how else e['room'] if how == 'full' else ''}|{e['cal']}"
    obs.sample = dict(what=what, delay_ms=e["delay"], room=e["room"])

    def go_on(s, folder):
        over = dict(tracking_start_date=world.iso(s, e["cal"])) if fwd else dict(tracking_end_date=world.iso(s, e["cal"]))
        return config(folder, restart=True, **over)

    if how == "cut":
        # restart from a state that was cut off
        s = base[max(0, k - 2)]
        for x in base[: max(1, k - 1)]:
            shutil.copy(x.path, cut)
        f = cut / s.name
        data = f.read_bytes()
        for share in sorted(rng.uniform(0, 0.97, 3)):
            f.write_bytes(data[: int(len(data) * share)])
            before = sorted(x.name for x in cut.glob("*.nc"))
            r, _ = runner.track(obs, go_on(s.sec, cut), e, must=False)
            obs.count("cut_off_restarts")
            obs.expect(not r.ok, "restart-from-cut-off-state", f"{what}: restart from {s.name}, cut off at {share:.0%}, did not fail")
            now = sorted(x.name for x in cut.glob("*.nc"))
            obs.expect(now == before, "restart-from-cut-off-state", f"{what}: a restart that failed left {sorted(set(now) - set(before))}")
        return
    if how == "leftover":
        kinds = []
        for x in base:
            if rng.uniform() < 0.7:
                kinds.append(spoil(rng, cut / x.name, x.path))
        obs.count("leftovers", len(kinds))
        what += f" over {kinds}"
        obs.nontrivial = bool(kinds)
    else:
        if how == "taken":
            (cut / base[k - 1].name).mkdir()
            (cut / base[k - 1].name / "something").write_text("kept")
        else:
            cfg0 = config(d / "counted")
            k = share_of(e["u"], disturbed(lambda: runner.run_cli("track", cfg0), d / "counted", "count", 0, 0, 0)[1])
            what += f" (opening {k})"
        status, told = disturbed(lambda: runner.run_cli("track", cfg), cut, how, k, e["delay"], e["room"])
        obs.nontrivial = delivered(obs, how, status, told, what)
        if how == "taken":
            obs.expect((cut / base[k - 1].name / "something").exists(), "finished-file-changed", f"{what}: the folder was removed")
            shutil.rmtree(cut / base[k - 1].name, ignore_errors=True)
        if not obs.nontrivial:
            return
        # what was finished before is whole
        finished = [x for x in base if x.name in (there(told) if how != "taken" else [y.name for y in base[: k - 1]])]
        for x in finished:
            if obs.expect((cut / x.name).is_file(), "finished-file-changed", f"{what}: {x.name} is gone"):
                obs.count("finished_files_compared")
                same_output(obs, "finished-file-changed", runner.read_output(cut / x.name), x, what)
        if finished:
            # continue from the last finished output
            new = d / "continued"
            shutil.copytree(cut, new)
            s = finished[-1]
            r, outs = runner.track(obs, go_on(s.sec, new), e, must=False)
            obs.count("continued")
            if obs.expect(r.ok, "continuing-failed", f"{what}: restart from {s.name} ended with {None if r.ok else r.why()}"):
                runner.compare(obs, "continued-differs", outs, base, e, rtol=5e-5, atol_rel=5e-6, scale=max(float(o.layer_sum().max()) for o in base), what=f"{what}, then continued: ")
    r, outs = runner.track(obs, cfg, e, must=False)
    obs.count("repeated")
    if obs.expect(r.ok, "repeating-failed", f"{what}, then repeated in the same folder: ended with {None if r.ok else r.why()}"):
        same_outputs(obs, "repeated-differs", outs, base, f"{what}, then repeated")


def run_pre(p, obs, d):
    obs.count("preprocess_cases")
    rng = np.random.default_rng([p["seed2"], 27])
    rw = raw.make_cmip(p) if p["source"] == "cmip" else raw.make(p)
    days = {}
    for s in raw.requested(p):
        t = world.date_of(s, p["cal"])
        days.setdefault(f"{t.year:04d}-{t.month:02d}-{t.day:02d}_fluxes_storages.nc", []).append(s)
    names = list(days)
    how = p["how"]
    cut = d / "cut" / "pre"
    cut.mkdir(parents=True)
    total = sum(map(len, days.values()))
    k = 1 + int(p["u"] * total)  # the disturbed record
    firsts = np.cumsum([0] + [len(x) for x in days.values()])
    day = int(np.searchsorted(firsts, k - 1, side="right")) - 1
    over = {}
    if how == "full-parallel":
        over = {"parallel_preprocess": True, "parallel_processes": 2}
        k = 1 + int(p["u"] * min(map(len, days.values()))) * (p["seed2"] % 2)
    obs.signature = f"pre|{p['source']}|{how}|{total}|{k}|{len(days)}|{p['cal']}|{p['delay'] if 'later' in how else p['room'] if 'full' in how else ''}"
    again = lambda **more: raw.run_source(p, d / "cut", None, raw=rw, **more)
    if how != "leftover":
        if how == "taken":
            (cut / names[day]).mkdir()
            (cut / names[day] / "something").write_text("kept")
        elif how != "full-parallel":
            k = share_of(p["u"], raw.run_source(p, d / "counted", None, raw=rw, launch=lambda command: disturbed(command, d / "counted", "count", 0, 0, 0))[1][1])
        # first, as a process should be forked before it has made threads
        status, told = again(launch=lambda command: disturbed(command, cut, how, k, p["delay"], p["room"]), **over)[1]
    what = f"{p['source']} of {total} records in {len(days)} files, {how} at opening {k}"
    obs.sample = dict(what=what, delay_ms=p["delay"], room=p["room"])
    _, r, _ = raw.run_source(p, d / "whole", obs, raw=rw)
    if not r.ok:
        return
    base = raw.read_all(d / "whole" / "pre")
    if how == "leftover":
        kinds = []
        for f in base:
            kinds.append(spoil(rng, cut / f.name, d / "whole" / "pre" / f.name))
        obs.count("leftovers", len(kinds))
        what += f" over {kinds}"
    else:
        obs.nontrivial = delivered(obs, how, status, told, what)
        if how == "taken":
            shutil.rmtree(cut / names[day], ignore_errors=True)
        if not obs.nontrivial:
            return
        if how != "full-parallel":
            for f in [x for x in base if x.name in (there(told) if how != "taken" else names[:day])]:
                if obs.expect((cut / f.name).is_file(), "finished-file-changed", f"{what}: {f.name} is gone"):
                    obs.count("finished_files_compared")
                    same_pre(obs, "finished-file-changed", raw.read_pre(cut / f.name), f, what)
    _, r, _ = again()
    obs.count("repeated")
    if obs.expect(r.ok, "repeating-failed", f"{what}, then repeated in the same folder: ended with {None if r.ok else r.why()}"):
        got = raw.read_all(cut)
        obs.expect([f.name for f in got] == [f.name for f in base], "repeated-differs", f"{what}, then repeated: files {[f.name for f in got]}")
        for a, b in zip(got, base):
            if a.name == b.name:
                same_pre(obs, "repeated-differs", a, b, f"{what}, then repeated")


def same_pre(obs, key, a, b, what):
    bad = [n for n in raw.PRE_VARS if not np.array_equal(a.v[n], b.v[n], equal_nan=True)]
    bad += ["time"] * (a.secs != b.secs) + ["grid"] * (not np.array_equal(a.lat, b.lat) or not np.array_equal(a.lon, b.lon))
    obs.expect(not bad, key, f"{what}: {a.name} differs from that of the undisturbed run in {bad}")
