"""Case lists shared by the tracking monitors."""

import numpy as np

from wamcheck.world import STYLES, random_exp


def experiments(prop, tier, seed, quick, thorough, styles=STYLES, **fix):
    """A stratified list of random experiments: every style in both directions,
    periodic and not, the rest drawn at random."""
    n = quick if tier == "quick" else thorough
    rng = np.random.default_rng([seed, sum(map(ord, prop)), 11])
    out = []
    for i in range(n):
        f = dict(fix)
        f.setdefault("style", styles[i % len(styles)])
        f.setdefault("direction", ["forward", "backward"][(i // len(styles)) % 2])
        if (i // 3) % 3 == 0:
            f.setdefault("periodic", True)
        else:
            f.setdefault("periodic", False)
        e = random_exp(rng, **{k: (v(rng) if callable(v) else v) for k, v in f.items()})
        out.append(e)
    return out


def signature(e, *more):
    """Coarse class of an experiment, to count distinct ones."""
    return "|".join(
        str(x)
        for x in (
            e["direction"], e["style"], e["periodic"], e["cal"], e["freq"], e["dt"], e["out"], e["nx"], e["ny"],
            round(e["dlat"], 3), round(e["dlon"], 3), e["kvf"], e["region"]["kind"] if "kind" in e["region"] else "given",
        )
        + more
    )


def brief(e, **more):
    d = {k: e[k] for k in ("direction", "style", "periodic", "cal", "freq", "dt", "out", "nx", "ny", "dlat", "dlon", "kvf", "nsteps", "seed")}
    d.update(more)
    return d


def warm(d):
    """One tiny tracking run, so that forked children find everything imported."""
    from wamcheck import runner, world

    rng = np.random.default_rng(0)
    e = random_exp(rng, nsteps=2, style="mild", region="mask", tagwin="all", direction="forward", ny=5, nx=5, periodic=False)
    _, _, cfg = world.setup(e, d)
    runner.run_cli("track", cfg)
    runner.read_outputs(d / "out", "forward")
