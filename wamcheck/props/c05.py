"""C05: no preferred direction, longitude or unit (pairs of related runs)."""

import numpy as np

from wamcheck import gen, runner, world

RULE = (
    "each case runs one experiment and up to three transformed copies (mirrored east-west, mirrored north-south, shifted in "
    "longitude or with the seam of a periodic domain moved, multiplied by a constant) and compares all outputs. "
    "Non-trivial: tracked moisture in at least 3 cells."
)
MINIMUM = {"pairs_mirror_ew": 20, "pairs_mirror_ns": 20, "pairs_shift": 8, "pairs_seam": 8, "pairs_scale": 20, "fields_compared": 1500}
warm = gen.warm


def cases(tier, seed):
    return gen.experiments("C05", tier, seed, 44, 300, nsteps=4, tagwin="all", region=lambda r: ["mask", "fmask"][r.integers(2)], dtype="f8", out=3600)


def derived(w, **data):
    d = {k: v.copy() for k, v in w.data.items()}
    d.update(data)
    return world.World(w.lat, w.lon, w.dlat, w.dlon, w.cal, w.freq, w.t, d, w.dtype)


def run(e, obs, d):
    rng = np.random.default_rng([e["seed"], 3])
    w, m, r, base = runner.run_exp(obs, e, d / "base")
    if not base:
        return
    obs.nontrivial = bool((base[-1].layer_sum() > 0).sum() >= 3)

    def check(name, w2, m2, back, **kw):
        e2 = dict(e, **kw)
        _, _, r2, outs = runner.run_exp(obs, e2, d / name, w2, m2)
        if outs:
            obs.count("pairs_" + name)
            # gains and losses are differences of large numbers: absolute tolerance of the storages
            scale = max(float(np.nanmax(np.abs(o.layer_sum()))) for o in base) + max(float(np.nanmax(o.v["losses"])) for o in base)
            runner.compare(obs, name, base, outs, e, rtol=2e-5, scale=scale, what=f"{name} {gen.brief(e)}", map_b=back)

    ew = {k: (-v if k.startswith("fx") else v)[:, :, ::-1].copy() for k, v in w.data.items()}
    w2 = world.World(w.lat, -w.lon[::-1], w.dlat, w.dlon, w.cal, w.freq, w.t, ew, w.dtype)
    check("mirror_ew", w2, m[:, ::-1], lambda a: a[:, ::-1])
    ns = {k: (-v if k.startswith("fy") else v)[:, ::-1, :].copy() for k, v in w.data.items()}
    w2 = world.World(-w.lat[::-1], w.lon, w.dlat, w.dlon, w.cal, w.freq, w.t, ns, w.dtype)
    check("mirror_ns", w2, m[::-1, :], lambda a: a[::-1, :])
    if e["periodic"]:
        k = int(rng.integers(1, len(w.lon)))
        w2 = derived(w, **{n: np.roll(v, k, axis=2) for n, v in w.data.items()})
        check("seam", w2, np.roll(m, k, axis=1), lambda a: np.roll(a, -k, axis=1))
    else:
        s = float(rng.choice([-73.0, 35.5, 64.0, 7.25]))
        w2 = world.World(w.lat, w.lon + s, w.dlat, w.dlon, w.cal, w.freq, w.t, w.data, w.dtype)
        check("shift", w2, m, lambda a: a)
    c = float(rng.choice([8.0, 0.03, 1e-9, 57.0, 1e-12, 3e5]))
    w2 = derived(w, **{n: v * c for n, v in w.data.items()})
    check("scale", w2, m, lambda a: a / c)
    obs.signature = gen.signature(e)
    obs.sample = gen.brief(e)
