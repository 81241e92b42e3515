"""C04: moisture moves at most one cell per step, only to real neighbours, only downwind."""

import numpy as np

from wamcheck import gen, ref, runner, world

RULE = (
    "experiments with a few tagged cells (corner, edge, seam, interior) and output after every step; the set of cells "
    "with moisture after n steps is compared with the set reachable in n moves, and every newly wet cell must have a wet "
    "neighbour from which the input flux points to it; and a wet cell does pass moisture to every neighbour its flux "
    "points to, across the seam of periodic domains too. Non-trivial: moisture spread to at least 3 cells."
)
MINIMUM = {"steps_observed": 300, "dry_cells_checked": 5000, "newly_wet_cells": 1000, "seam_crossings": 5, "seam_not_crossed_runs": 5,
           "boundary_cells_reached": 10, "unidirectional_runs": 10,
           "passes_checked": 1500, "seam_passes": 30}
warm = gen.warm


def cases(tier, seed):
    n = 88 if tier == "quick" else 600
    rng = np.random.default_rng([seed, 404])
    out = []
    for i in range(n):
        per = i % 2 == 0
        style = ["wind", "white", "mild", "storm", "wind", "jumpy"][(i // 2) % 6]
        e = world.random_exp(
            rng, style=style, periodic=per, direction=["forward", "backward"][(i // 12) % 2], tagwin="all", tail=0,
            dt=[600, 1800, 3600][i % 3], freq=3600, nsteps=int(rng.integers(4, 8)), offset=0, hour=[0, 20, 23][i % 3],
            nx=int(rng.integers(7, 13)), ny=int(rng.integers(5, 9)), dtype="f8", kvf=[0.0, 3.0][i % 2],
        )
        e["out"] = e["dt"]
        if style == "wind":
            e["wind"] = [int(rng.choice([-1, 1])), int(rng.choice([-1, 1]))]
            if i % 12 >= 6:
                e["wind"][int(rng.integers(2))] = 0
        wgt = np.zeros((e["ny"], e["nx"]))
        place = i % 5
        for _ in range(int(rng.integers(1, 3))):
            j, k = int(rng.integers(1, e["ny"] - 1)), int(rng.integers(1, e["nx"] - 1))
            if place == 0:
                k = int(rng.choice([0, e["nx"] - 1]))
            elif place == 1:
                j = int(rng.choice([1, e["ny"] - 2]))
                k = int(rng.choice([1, e["nx"] - 2]))
            elif place == 2:
                j, k = int(rng.choice([0, e["ny"] - 1])), int(rng.choice([0, e["nx"] - 1]))
            elif place == 3:
                k = int(rng.choice([1, e["nx"] - 2]))
            wgt[j, k] = 1.0
        e["region"] = {"kind": "given", "weights": wgt.tolist()}
        out.append(e)
    return out


def grow(s, bound, per):
    """Cells reachable in one move from s: moves start from non-boundary cells only."""
    a = s & ~bound
    b = s.copy()
    b[1:] |= a[:-1]
    b[:-1] |= a[1:]
    b[:, 1:] |= a[:, :-1]
    b[:, :-1] |= a[:, 1:]
    if per:
        b[:, 0] |= a[:, -1]
        b[:, -1] |= a[:, 0]
    return b


def neighbours(j, i, ny, nx, per):
    """(row, col, axis, sign): flux of that sign along the axis carries moisture from there to here."""
    if j > 0:
        yield j - 1, i, "y", -1
    if j < ny - 1:
        yield j + 1, i, "y", +1
    if i > 0 or per:
        yield j, (i - 1) % nx, "x", +1
    if i < nx - 1 or per:
        yield j, (i + 1) % nx, "x", -1


def run(e, obs, d):
    w, weights, r, outs = runner.run_exp(obs, e, d)
    if not outs:
        return
    ny, nx = weights.shape
    per = e["periodic"]
    fwd = e["direction"] == "forward"
    bound = ref.edge((ny, nx), per)
    steps, _ = ref.schedule(e)
    if len(outs) != len(steps):
        obs.fail("missing-outputs", f"{len(outs)} outputs for {len(steps)} steps with output every step")
        return
    src = weights > 0
    reach = src.copy()
    wet = np.zeros((ny, nx), bool)
    boundary_reached = False
    wet_any = np.zeros((ny, nx), bool)
    prev = {}
    for (k, t0, t1), o in zip(steps, outs):
        reach = grow(reach, bound, per)
        any_ = np.zeros((ny, nx), bool)
        for n, a in o.v.items():
            any_ |= a != 0
            bad = (a != 0) & ~reach
            obs.count("dry_cells_checked", (~reach).sum())
            if bad.any():
                j, i = np.argwhere(bad)[0]
                obs.fail("beyond-reach", f"{o.name} {n}: value {a[j, i]:.4g} at row {j} column {i} after {k + 1} steps, tagged cells {np.argwhere(src).tolist()}, periodic={per}", exp=gen.brief(e))
        obs.count("steps_observed")
        F = w.at((t0 + t1) / 2, ["fx_upper", "fy_upper", "fx_lower", "fy_lower"])
        sgn = 1 if fwd else -1
        for j, i in np.argwhere(any_ & ~wet):
            obs.count("newly_wet_cells")
            if src[j, i]:
                continue
            good = False
            for a, b, ax, s in neighbours(j, i, ny, nx, per):
                if not wet[a, b] or bound[a, b]:
                    continue
                for lev in ("upper", "lower"):
                    f = F[f"f{ax}_{lev}"]
                    if max(f[a, b] * s * sgn, f[j, i] * s * sgn) > 0:
                        good = True
            if not good:
                obs.fail("against-the-flow", f"{o.name}: cell row {j} column {i} became wet although no flux points to it from a wet neighbour", exp=gen.brief(e))
        # real neighbours do pass moisture on: wherever the flux at both sides of a face points out of a wet cell,
        # some moisture is present behind the face after the step
        for lev, a in prev.items():
            big = (a > 1e-9 * max(a.max(), 1e-300)) & (a > 1e-12) & ~bound
            for j, i in np.argwhere(big):
                for b, c, ax, s in neighbours(j, i, ny, nx, per):
                    f = F[f"f{ax}_{lev}"]
                    m = 1e-6 * np.abs(f).max()
                    if min(f[j, i] * -s * sgn, f[b, c] * -s * sgn) <= m:
                        continue
                    obs.count("passes_checked")
                    obs.count("seam_passes", abs(i - c) > 1)
                    if not any_[b, c]:
                        obs.fail("not-passed-on", f"{o.name}: {lev} layer of row {j} column {i} is wet and the flux points to row {b} column {c}, but no moisture arrived there, periodic={per}", exp=gen.brief(e))
        prev = {lev: o.v[f"s_track_{lev}_restart"] for lev in ("upper", "lower")}
        boundary_reached |= bool((o.v["losses"] * bound).sum() > 0)
        obs.count("boundary_cells_reached", int(((o.v["losses"] > 0) & bound).sum()))
        # moisture present now, or lost on the boundary just now
        wet = (o.layer_sum() != 0) | wet & False
        wet_any |= any_
    if e["style"] == "wind":
        obs.count("unidirectional_runs")
        wx, wy = e["wind"] if fwd else [-v for v in e["wind"]]
        J, I = np.where(src)
        for n, a in outs[-1].v.items():
            rows = np.arange(ny)[:, None] + 0 * a
            cols = np.arange(nx)[None, :] + 0 * a
            out = np.zeros((ny, nx), bool)
            if wy >= 0:
                out |= rows > J.max()  # row index increases southwards
            if wy <= 0:
                out |= rows < J.min()
            if not per:
                if wx >= 0:
                    out |= cols < I.min()
                if wx <= 0:
                    out |= cols > I.max()
            if (a[out] != 0).any():
                obs.fail("against-the-flow", f"{outs[-1].name} {n}: moisture upwind of all tagged cells, wind {e['wind']} {e['direction']}", exp=gen.brief(e))
    left, right = wet_any[1:-1, :2].any(), wet_any[1:-1, -2:].any()
    obs.count("seam_crossings", per and left and right)
    obs.count("seam_not_crossed_runs", (not per) and (left or right))
    obs.nontrivial = bool(wet_any.sum() >= 3)
    obs.signature = gen.signature(e, np.argwhere(src).tolist())
    obs.sample = gen.brief(e, tagged=np.argwhere(src).tolist(), wet=int(wet_any.sum()))
