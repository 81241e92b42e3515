"""Independent executable model of the documented tracking equations.

Written from docs/theory.md on cell faces, in double precision, with numpy only.
"""

import numpy as np

from wamcheck.world import DEG, face_x


def schedule(e):
    """(index of step, t0, t1) of every step and the list of output instants.

    Times are whole seconds since 1970 in the experiment's calendar.  Output is due
    after a step whenever its time is a multiple of the output frequency, and after
    the last step that fits in the tracking period.
    """
    dt = e["dt"]
    n = int((e["end"] - e["start"]) // dt)
    steps, outs = [], []
    fwd = e["direction"] == "forward"
    prev = e["start"] if fwd else e["end"]
    for k in range(n):
        if fwd:
            t0 = e["start"] + k * dt
            t1 = t0 + dt
            now = t1
        else:
            t1 = e["end"] - k * dt
            t0 = t1 - dt
            now = t0
        steps.append((k, t0, t1))
        if now % 86400 % e["out"] == 0 or k == n - 1:
            outs.append({"sec": now, "last": k, "bnds": (prev, now)})
            prev = now
    return steps, outs


def dquo(a, axis, periodic=False):
    """Central differences, one-sided at the edges (undivided)."""
    if periodic:
        return (np.roll(a, -1, axis) - np.roll(a, 1, axis)) / 2
    a = np.moveaxis(a, axis, 0)
    g = np.empty_like(a)
    g[1:-1] = (a[2:] - a[:-2]) / 2
    g[0] = a[1] - a[0]
    g[-1] = a[-1] - a[-2]
    return np.moveaxis(g, 0, axis)


def limit(fx, fy, s_mass, dt):
    """A cell loses at most half its moisture, shared over the two directions."""
    tot = np.abs(fx) + np.abs(fy)
    with np.errstate(divide="ignore", invalid="ignore"):
        lx = np.where(tot > 0, 0.5 * np.abs(fx) / tot * s_mass / dt, 0)
        ly = np.where(tot > 0, 0.5 * np.abs(fy) / tot * s_mass / dt, 0)
    gx = np.sign(fx) * np.minimum(np.abs(fx), lx)
    gy = np.sign(fy) * np.minimum(np.abs(fy), ly)
    return gx, gy


def faces(fx, fy, periodic):
    """Fluxes through the western..eastern faces (ny, nx+1) and the
    northern..southern faces (ny+1, nx), northward positive.
    No exchange through the outer faces, along the boundary rows in x, and (when not
    periodic) along the boundary columns in y."""
    ny, nx = fx.shape
    X = np.zeros((ny, nx + 1))
    Y = np.zeros((ny + 1, nx))
    X[1:-1, 1:-1] = (fx[1:-1, 1:] + fx[1:-1, :-1]) / 2
    if periodic:
        X[1:-1, 0] = X[1:-1, -1] = (fx[1:-1, 0] + fx[1:-1, -1]) / 2
        Y[1:-1, :] = (fy[1:, :] + fy[:-1, :]) / 2
    else:
        Y[1:-1, 1:-1] = (fy[1:, 1:-1] + fy[:-1, 1:-1]) / 2
    return X, Y


def transport(r, X, Y):
    """Moisture entering each cell per second when every face carries the relative
    tracked moisture of its donor cell."""
    ny, nx = r.shape
    west = np.concatenate([r[:, -1:], r], axis=1)  # donor on the western side of each face
    east = np.concatenate([r, r[:, :1]], axis=1)
    qx = np.where(X > 0, X * west, X * east)
    z = np.zeros((1, nx))
    north = np.concatenate([z, r], axis=0)
    south = np.concatenate([r, z], axis=0)
    qy = np.where(Y > 0, Y * south, Y * north)
    return qx[:, :-1] - qx[:, 1:] + qy[1:, :] - qy[:-1, :]


def vertical_flux(F, S0, S1, dt, kvf, a, surface, periodic):
    """Downward positive flux that closes the two-layer balance.

    surface="closed": precipitation and evaporation [kg m-2 s-1] enter as they are.
    surface="per_area": they are divided by the cell area once more, which is what
    the tree at the pinned commit does (known finding).
    """
    sa = 1.0 if surface == "closed" else a
    m_u = (S0["s_upper"] + S1["s_upper"]) / 2
    m_l = (S0["s_lower"] + S1["s_lower"]) / 2
    rel_u = m_u / (m_u + m_l)
    rel_l = m_l / (m_u + m_l)
    div_u = dquo(F["fx_upper"], 1, periodic) - dquo(F["fy_upper"], 0)
    div_l = dquo(F["fx_lower"], 1, periodic) - dquo(F["fy_lower"], 0)
    res_u = S1["s_upper"] - S0["s_upper"] + dt * (div_u / a + F["precip"] * rel_u / sa)
    res_l = S1["s_lower"] - S0["s_lower"] + dt * (div_l / a + (F["precip"] * rel_l - F["evap"]) / sa)
    frac_l = S1["s_lower"] / (S1["s_lower"] + S1["s_upper"])
    fz = res_l - frac_l * (res_u + res_l)
    cap = np.minimum(m_u, m_l) / (kvf + 1)
    return np.sign(fz) * np.minimum(np.abs(fz), cap) / dt


def edge(shape, periodic):
    b = np.zeros(shape, bool)
    b[0, :] = b[-1, :] = True
    if not periodic:
        b[:, 0] = b[:, -1] = True
    return b


def simulate(w, e, weights, init=None, on_step=None, weights_at=None, surface="closed"):
    """Yields the expected outputs. init: (upper, lower) initial tracked moisture."""
    dt, kvf, per = e["dt"], e["kvf"], e["periodic"]
    fwd = e["direction"] == "forward"
    ny, nx = len(w.lat), len(w.lon)
    a = w.area[:, None]
    ly = w.dlat * DEG
    lx = face_x(w.lat, w.dlat, w.dlon)[:, None]
    bound = edge((ny, nx), per)
    su = np.zeros((ny, nx)) if init is None else np.array(init[0], "f8")
    sl = np.zeros((ny, nx)) if init is None else np.array(init[1], "f8")
    names = ["tagged", "end_upper", "end_lower", "losses", "gains"]
    acc = {n: np.zeros((ny, nx)) for n in names}
    stats = dict(limited=0, vcapped=0, over=0, gain=0, loss=0, capped_rel=0, both_over=0, steps=0)
    steps, outs = schedule(e)
    due = {o["last"]: o for o in outs}
    expected = []
    for k, t0, t1 in steps:
        S0 = w.at(t0, ["s_upper", "s_lower"])
        S1 = w.at(t1, ["s_upper", "s_lower"])
        F = w.at((t0 + t1) / 2, ["fx_upper", "fy_upper", "fx_lower", "fy_lower", "evap", "precip"])
        here, there = (S0, S1) if fwd else (S1, S0)  # moisture at the start / end of the step
        for lev in ("upper", "lower"):
            gx, gy = F["fx_" + lev] * ly, F["fy_" + lev] * lx
            hx, hy = limit(gx, gy, here["s_" + lev] * a, dt)
            stats["limited"] += int((np.abs(hx) < np.abs(gx) * (1 - 1e-12)).sum())
            F["fx_" + lev], F["fy_" + lev] = hx, hy
        fz = vertical_flux(F, S0, S1, dt, kvf, a, surface, per)
        stats["vcapped"] += int((np.abs(fz) * dt > np.minimum(S0["s_upper"] + S1["s_upper"], S0["s_lower"] + S1["s_lower"]) / 2 / (kvf + 1) * (1 - 1e-9)).sum())
        now = t0 if fwd else t1
        m = 0.0
        if e["tag"][0] <= now <= e["tag"][1]:
            m = weights if weights_at is None else weights_at(now)
        stats["capped_rel"] += int((su > here["s_upper"]).sum() + (sl > here["s_lower"]).sum())
        ru = np.minimum(su / here["s_upper"], 1.0)
        rl = np.minimum(sl / here["s_lower"], 1.0)
        tot = here["s_upper"] + here["s_lower"]
        part_u, part_l = here["s_upper"] / tot, here["s_lower"] / tot
        sgn = 1.0 if fwd else -1.0
        f = sgn * fz
        down = np.where(f >= 0, f * ru, f * rl) + kvf * np.abs(f) * (ru - rl)
        hor_u = transport(ru, *[sgn * q for q in faces(F["fx_upper"], F["fy_upper"], per)]) / a
        hor_l = transport(rl, *[sgn * q for q in faces(F["fx_lower"], F["fy_lower"], per)]) / a
        if fwd:
            tag = m * F["evap"]
            end_u, end_l = F["precip"] * part_u * ru, F["precip"] * part_l * rl
            src_u, src_l = 0.0, tag
        else:
            tag = m * F["precip"]
            end_u, end_l = np.zeros((ny, nx)), F["evap"] * rl
            src_u, src_l = tag * part_u, tag * part_l
        su = su + dt * (hor_u - down + src_u - end_u)
        sl = sl + dt * (hor_l + down + src_l - end_l)
        lost = np.where(bound, su + sl, 0.0)
        su, sl = np.where(bound, 0.0, su), np.where(bound, 0.0, sl)
        ou = np.maximum(0, su - there["s_upper"])
        ol = np.maximum(0, sl - there["s_lower"])
        stats["over"] += int(((ou > 0) | (ol > 0)).sum())
        stats["both_over"] += int(((ou > 0) & (ol > 0)).sum())
        way = "f" if fwd else "b"
        for lev, o, x in (("upper", ou, ol), ("lower", ol, ou)):
            # with the moisture at the other end of the step taken instead, the result would differ
            differs = (o > 0) != ((o + there["s_" + lev] - here["s_" + lev]) > 0)
            stats[f"over_{lev}_{way}"] = stats.get(f"over_{lev}_{way}", 0) + int(((o > 0) & (x == 0) & ~bound).sum())
            stats[f"over_{lev}_{way}_time"] = stats.get(f"over_{lev}_{way}_time", 0) + int((differs & (o > 1e-3) & ~bound).sum())
        su, sl = su - ou + ol, sl - ol + ou
        g = np.maximum(0, -su) + np.maximum(0, -sl)
        stats["gain"] += int((g > 0).sum())
        su, sl = np.maximum(su, 0), np.maximum(sl, 0)
        xu, xl = np.maximum(0, su - there["s_upper"]), np.maximum(0, sl - there["s_lower"])
        stats["loss"] += int(((xu + xl) > 0).sum())
        lost = lost + xu + xl
        su, sl = su - xu, sl - xl
        stats["steps"] += 1
        acc["tagged"] += tag * dt
        acc["end_upper"] += end_u * dt
        acc["end_lower"] += end_l * dt
        acc["losses"] += lost
        acc["gains"] += g
        if on_step:
            on_step(k, t0, t1, su, sl)
        if k in due:
            o = dict(due[k])
            v = {"s_track_upper_restart": su.copy(), "s_track_lower_restart": sl.copy(), "losses": acc["losses"].copy(), "gains": acc["gains"].copy()}
            if fwd:
                v.update(tagged_evap=acc["tagged"].copy(), p_track_upper=acc["end_upper"].copy(), p_track_lower=acc["end_lower"].copy())
            else:
                v.update(tagged_precip=acc["tagged"].copy(), e_track=acc["end_lower"].copy())
            o["v"] = v
            expected.append(o)
            for n in acc:
                acc[n][:] = 0
    return expected, stats
