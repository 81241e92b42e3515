"""C01: the tracked-moisture budget closes over every output interval."""

import numpy as np

from wamcheck import gen, runner, world

RULE = (
    "random experiments (forcing style x direction x boundary x grid x calendar x time steps) run through the "
    "command line; every interval between two output files is one budget. A case counts as non-trivial if moisture "
    "was tagged and at least one of removal, loss or gain is not zero."
)
MINIMUM = {"intervals": 60, "intervals_with_gains": 3, "intervals_with_boundary_loss": 20, "intervals_with_interior_loss": 3,
           "intervals_nonsquare": 20, "intervals_periodic": 10, "intervals_backward": 20, "intervals_forward": 20}
ASSUMPTIONS = ["output files hold single precision: budgets are compared relative to the gross moisture, 4e-6"]

warm = gen.warm


def cases(tier, seed):
    return gen.experiments("C01", tier, seed, 112, 800)


def run(e, obs, d):
    w, weights, cfg = world.setup(e, d)
    r, outs = runner.track(obs, cfg, e)
    if not outs:
        return
    A = w.area[:, None]
    fwd = e["direction"] == "forward"
    prev = np.zeros((len(w.lat), len(w.lon)))
    tagged_total = moved = 0
    bound = np.ones(prev.shape, bool)
    bound[1:-1, (slice(None) if e["periodic"] else slice(1, -1))] = False
    for o in outs:
        tag = o.v["tagged_evap"] if fwd else o.v["tagged_precip"]
        end = o.v["p_track_upper"] + o.v["p_track_lower"] if fwd else o.v["e_track"]
        now = o.layer_sum()
        tot = {k: float((A * x).sum()) for k, x in dict(before=prev, now=now, tagged=tag, ended=end, lost=o.v["losses"], gained=o.v["gains"]).items()}
        res = tot["now"] - tot["before"] - (tot["tagged"] + tot["gained"] - tot["ended"] - tot["lost"])
        gross = sum(abs(x) for x in tot.values())
        obs.count("intervals")
        obs.count("intervals_" + e["direction"])
        obs.count("intervals_periodic", e["periodic"])
        obs.count("intervals_nonsquare", abs(e["dlat"] - e["dlon"]) > 1e-9)
        obs.count("intervals_with_gains", tot["gained"] > 1e-6 * gross)
        obs.count("intervals_with_boundary_loss", (o.v["losses"] * bound).sum() > 0)
        obs.count("intervals_with_interior_loss", (o.v["losses"] * ~bound).sum() > 0)
        tagged_total += tot["tagged"]
        moved += tot["ended"] + tot["lost"] + tot["gained"]
        if not abs(res) <= 4e-6 * gross:
            obs.fail("budget-open", f"{o.name}: residual {res:.6g} kg of gross {gross:.6g} kg (relative {res/gross if gross else float('nan'):.3g})", terms=tot, exp=gen.brief(e))
        prev = now
    obs.nontrivial = tagged_total > 0 and moved > 0
    obs.signature = gen.signature(e)
    obs.sample = gen.brief(e, files=len(outs), tagged_kg=tagged_total)
