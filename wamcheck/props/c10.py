"""C10: results do not depend on how often output is written."""

import numpy as np

from wamcheck import gen, runner, world

RULE = (
    "each case runs one experiment with three output frequencies (every step where possible, and two coarser ones drawn at random); at "
    "every output time that two runs share, tracked storages are compared, and so are the running sums of all accumulated fields. "
    "Non-trivial: at least one shared output time after a different number of files."
)
MINIMUM = {"pairs": 40, "common_times": 80, "fields_compared": 400, "sums_over_unequal_file_counts": 60, "sums_with_losses": 20, "sums_with_gains": 5}
ASSUMPTIONS = ["accumulations are single precision: sums are compared with relative tolerance 2e-5"]
warm = gen.warm

OUTS = [600, 900, 1200, 1800, 3600, 7200, 10800, 18000, 21600, 25200, 43200, 86400, 172800]


def cases(tier, seed):
    out = gen.experiments("C10", tier, seed, 48, 360, styles=["storm", "deluge", "mild", "dry", "white", "jumpy"], region=lambda r: ["mask", "bigbox"][r.integers(2)],
                          tagwin=lambda r: ["all", "part"][r.integers(2)], nsteps=lambda r: [7, 10, 13][r.integers(3)])
    rng = np.random.default_rng([seed, 1010])
    for e in out:
        fine = int(np.gcd.reduce([e["dt"], e["start"] % 86400, e["end"] % 86400, 86400]))
        fine = fine if rng.uniform() < 0.7 else e["out"]
        coarse = [o for o in OUTS if e["dt"] < o]
        e["outs"] = [fine] + [int(x) for x in rng.choice(coarse, 2, replace=False)]
        # half of them around midnight, so that coarse output falls inside the run
        if rng.uniform() < 0.5:
            mid = e["start"] // 86400 * 86400 + 86400
            shift = mid - int(e["nsteps"] // 2) * e["dt"] - e["start"]
            for key in ("start", "end"):
                e[key] += shift
            e["tag"] = [x + shift for x in e["tag"]]
    return out


def run(e, obs, d):
    runs = []
    w = world.make_world(world.world_params(e))
    for k, out in enumerate(e["outs"]):
        outs = runner.run_exp(obs, dict(e, out=out), d / str(k), w)[3]
        if not outs:
            return
        sums, n = {}, 0
        acc = {v: 0.0 for v in runner.acc_vars(e["direction"]) + ["losses", "gains"]}
        for o in outs:
            n += 1
            acc = {v: a + o.v[v] for v, a in acc.items()}
            sums[o.sec] = (n, o, acc)
        runs.append((out, sums))
    base_out, base = runs[0]
    obs.nontrivial = False
    last = {max(s) if e["direction"] == "forward" else min(s) for _, s in runs}
    obs.expect(len(last) == 1, "last-output-differs", f"last outputs {[world.iso(x, e['cal']) for x in last]} for output every {e['outs']} s")
    for out, sums in runs[1:]:
        obs.count("pairs")
        for sec in sorted(set(base) & set(sums)):
            (n1, o1, a1), (n2, o2, a2) = base[sec], sums[sec]
            obs.count("common_times")
            what = f"output every {base_out} s against every {out} s at {o1.name}"
            for v in ("s_track_upper_restart", "s_track_lower_restart"):
                runner.compare_field(obs, "state-depends-on-output", o2.v[v], o1.v[v], rtol=1e-6, atol_rel=1e-7, what=f"{what} {v}")
            for v in a1:
                runner.compare_field(obs, "sum-depends-on-output", a2[v], a1[v], rtol=2e-5, atol_rel=2e-6, what=f"{what}: sum of {v} over {n1} and {n2} files")
            if n1 != n2:
                obs.nontrivial = True
                obs.count("sums_over_unequal_file_counts")
                obs.count("sums_with_losses", a1["losses"].max() > 0)
                obs.count("sums_with_gains", a1["gains"].max() > 0)
    obs.signature = gen.signature(e, *e["outs"])
    obs.sample = gen.brief(e, outs=e["outs"])
