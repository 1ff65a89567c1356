"""C10: trace checker over the recorded orbits: field vector, start, invariants (energy, momentum along the field), equation of
motion (own RK4 integration along the recorded times), velocities, accumulated scattering."""
import numpy as np

from . import wl
from .ref import bvec, fold, gamma, model_of, orbits, orbit_rhs

RULE = ("random bands (tight binding, parabolic cylinders and ellipsoids, electron and hole, closed and open orbits), scattering, fields of either sign, 0.5-80 T, any direction, "
        "tight and default integrator tolerances, numbers of time steps, temperatures, random setter sequences with the field vector checked after each; all orbits of every run are "
        "checked. Distinct = distinct (band, field, tolerances, steps).")
NEED = {"vector": 300, "start": 1000, "energy": 20000, "along field": 20000, "motion": 20000, "velocity": 20000, "exposure": 5000, "exposure start": 200, "zero field": 2, "warm": 2}


def gen(rng):
    k = int(rng.integers(0, 5))
    if k == 0:
        p = wl.para3(rng, hole=bool(rng.integers(0, 2)), offd=bool(rng.integers(0, 2)), res=(9, 9, 9))
    elif k == 1:
        p = wl.para2(rng, hole=bool(rng.integers(0, 2)), res=(13, 13, 3))
    elif k == 2:
        p = wl.general(rng, res=(9, 11, 5))
    else:
        p = wl.cuprate(rng, res=(11, 9, 5))
    mod, sp = wl.scattering(rng, wide=True)
    p.update(scattering_models=mod, scattering_params=sp)
    p["Bamp"] = (wl.U(rng, 0.5, 80, 2) if rng.random() < 0.8 else wl.f(np.exp(rng.uniform(-2.5, 5.2)), 3)) * (-1 if rng.random() < 0.25 else 1)
    p["Btheta"] = float(rng.choice([0, 90, wl.U(rng, -180, 180, 2), wl.U(rng, 0, 110, 2), wl.U(rng, -400, 400, 1)]))
    p["Bphi"] = float(rng.choice([0, 45, 90, wl.U(rng, -180, 360, 2)]))
    p["B_max"] = wl.f(30 * sp["gamma_0"], 3)          # bounds the number of turns
    if abs(p["Bamp"]) > p["B_max"]:
        p["Bamp"] = wl.f(np.sign(p["Bamp"]) * p["B_max"] * rng.uniform(0.3, 1), 3)
    p["N_time"] = int(rng.integers(20, 90)) if rng.random() < 0.8 else int(rng.choice([rng.integers(4, 15), rng.integers(480, 600)]))
    p["number_of_bz"] = int(rng.choice([1, 1, 2, 4]))
    p["N_epsilon"], p["dfdE_cut_percent"] = int(rng.choice([2, 3, 4, 5, 27])), float(rng.choice([1e-3, 0.1, 1e-5, 0.02]))
    if p["N_epsilon"] > 20:
        p["N_time"] = min(p["N_time"], 25)
        p["scattering_params"].update(gamma_0=wl.U(rng, 5, 60, 2))
        p["Bamp"] = wl.f(np.clip(p["Bamp"], -50, 50), 2)
    if p["N_time"] > 400 or p["N_epsilon"] > 20:
        p["resolution"] = [9, 9, 7] if k == 0 else [7, 9, 5] if p["a"] != p["b"] else [7, 7, 5]
    p["tight"] = bool(rng.random() < 0.75)
    p["march"] = bool(rng.integers(0, 2)) and k != 0
    return p


def cases(rng, tier):
    out = []
    for i in range(72 if tier == "quick" else 2000):
        p = gen(rng)
        out.append({"env": "nojit", "p": p, "sets": int(rng.integers(0, 8)), "seed": int(rng.integers(0, 1 << 30)),
                    "mode": ["field", "field", "field", "zero", "warm", "field"][i % 6]})
    for i in range(2 if tier == "quick" else 20):
        out.append({"env": "jit", "p": gen(rng), "sets": 2, "seed": i, "mode": "field"})
    return out


def check_orbits(mon, c, p, m, bv, kf, kt, vt, times, eps, tol, what):
    lat = (p["a"], p["b"], p["c"])
    n = kf.shape[1]
    N = kt.shape[2]
    amin = 1 / max(lat)
    # one absolute scale for wave vectors: the zone
    zone = np.pi / max(lat)
    if not mon.ok("start", kt.shape[:2] == kf.shape and N >= 2 and vt.shape == kt.shape, lambda: {"shapes": [kt.shape, kf.shape, vt.shape]}):
        return
    mon.close("start", kt[:, :, 0], kf, 1e-12, scale=zone)
    E = m.E(*kt)
    G = np.sqrt(sum(g ** 2 for g in m.gradE(*kt)))
    # an error dk in the wave vector costs |grad E| dk (plus curvature, covered by the factor)
    dk = tol * zone
    mon.close("energy", E, np.repeat(E[:, :1], N, axis=1), 1, lambda: {"what": what, "B": bv}, scale=G.max() * dk)
    mon.close("energy", E[:, 0], np.full(n, eps), 1, lambda: {"what": what}, scale=G.max() * zone * 0.25)
    bh = bv / np.linalg.norm(bv)
    par = np.einsum("i,ijk->jk", bh, kt)
    mon.close("along field", par, np.repeat(par[:, :1], N, axis=1), 1, lambda: {"what": what, "B": bv}, scale=dk)
    mon.close("velocity", vt, np.array(m.v(*kt)), 1e-9)
    ref = orbits(m, kt[:, :, 0], bv, times)
    # neighbouring orbits separate with time: compare with the spread that a start moved by dk would cause
    mov = orbits(m, kt[:, :, 0] + dk / np.sqrt(3) * np.array([1, -1, 1])[:, None], bv, times)
    lim = dk + 2 * np.maximum.accumulate(np.abs(mov - ref).max(0), axis=1)
    mon.close("motion", kt, ref, 1, lambda: {"what": what, "B": bv, "tol": tol}, scale=np.broadcast_to(lim, kt.shape))
    moved = np.linalg.norm(kt[:, :, -1] - kt[:, :, 0], axis=0) / zone
    mon.event("orbits followed", n)
    mon.event("orbits that moved by more than 0.05 of the zone", int(np.sum(np.max(np.linalg.norm(kt - kt[:, :, :1], axis=0), axis=1) / zone > 0.05)))


def check_exposure(mon, S, kt, vt, dm, p, dt):
    """accumulated scattering: between two recorded points it grows at a rate found between the rates there"""
    lat = (p["a"], p["b"], p["c"])
    g = gamma(p["scattering_models"], p["scattering_params"], lat, *kt, v=list(vt), dos_max=dm)
    S = np.asarray(S)
    if not mon.ok("exposure", S.shape == g.shape, lambda: {"shape": [S.shape, g.shape]}):
        return
    mon.close("exposure start", S[:, 0], np.zeros(len(S)), 1e-12, scale=1)
    inc = np.diff(S, axis=1) / dt
    lo, hi = np.minimum(g[:, 1:], g[:, :-1]), np.maximum(g[:, 1:], g[:, :-1])
    # the in-plane angle is undefined on the zone axis (and rounding decides it next to it)
    r = np.hypot(fold(kt[0], lat[0]), fold(kt[1], lat[1]))
    ok = (r[:, 1:] > 1e-6) & (r[:, :-1] > 1e-6)
    inc, lo, hi = inc[ok], lo[ok], hi[ok]
    mid = np.clip(inc, lo, hi)
    mon.close("exposure", inc, mid, 1e-6, lambda: {"models": p["scattering_models"]}, scale=hi)


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    p = dict(case["p"])
    m = model_of(p)
    lat = (p["a"], p["b"], p["c"])
    b = wl.band(p, march_square=p["march"])
    b.runBandStructure()
    over = {"rtol": 1e-9, "atol": 1e-9} if p["tight"] else {}
    c = wl.cond(b, p, **over)
    B = {k: p[k] for k in ("Bamp", "Btheta", "Bphi")}

    def vec():
        mon.close("vector", c.B_vector, bvec(B["Bamp"], B["Btheta"], B["Bphi"]), 1e-12, scale=abs(B["Bamp"]) + 1e-30)
        mon.ok("vector", (c.Bamp, c.Btheta, c.Bphi) == (B["Bamp"], B["Btheta"], B["Bphi"]), lambda: {"set": B})
    vec()
    for _ in range(case["sets"]):
        n = str(rng.choice(["Bamp", "Btheta", "Bphi"]))
        v = {"Bamp": wl.U(rng, -60, 80, 2), "Btheta": wl.U(rng, -180, 180, 1), "Bphi": wl.U(rng, -180, 360, 1)}[n]
        setattr(c, n, v)
        B[n] = v
        vec()
        if rng.random() < 0.2:
            c.B_vector = np.array([1.0, 2.0, 3.0])     # refused by the package
            vec()
    if abs(B["Bamp"]) < 0.05:
        B["Bamp"] = c.Bamp = 12.5
    if abs(B["Bamp"]) > p["B_max"]:
        B["Bamp"] = c.Bamp = wl.f(np.sign(B["Bamp"]) * p["B_max"] * rng.uniform(0.3, 1), 3)
    if case["mode"] == "zero":
        c.Bamp = 0
        c.runTransport()
        mon.close("zero field", c.kft[:, :, 0], c.bandObject.kf, 1e-12)
        mon.close("zero field", c.vft[:, :, 0], c.bandObject.vf, 1e-12)
        c.Bamp = B["Bamp"]
        vec()
    # keep the number of turns reasonable: exposure of 8 lifetimes at the lowest rate
    # moved along field may slow lsoda
    if case["mode"] == "warm":
        if p["N_time"] > 400:
            c.N_epsilon = 2
        T = wl.U(rng, 2, 30, 1) if rng.random() < 0.5 else wl.f(np.exp(rng.uniform(0, 5.2)), 2)
        while T > 1 and not wl.reachable(c.bandObject, {"T": T, "dfdE_cut_percent": c.dfdE_cut_percent}):
            T = T / 2
        c.T = T
        mon.event("hot" if T > 60 else "cold" if T < 2 else "warm T")
    c.runTransport()
    mon.seen(p, B)
    bv = bvec(B["Bamp"], B["Btheta"], B["Bphi"])
    N = p["N_time"]
    t = np.asarray(c.time_array)
    dt = 8 / c.gamma_tot_min / N
    mon.ok("exposure start", len(t) == N, {"len": len(t), "N": N})
    mon.close("exposure start", t, np.arange(len(t)) * dt, 1e-9, scale=dt * N)
    tol = 3e-5 if p["tight"] else 5e-2
    kf = np.asarray(c.bandObject.kf, float)
    if case["mode"] == "warm":
        mon.event("warm")
        for eps in list(getattr(c, "kft_epsilon", {})):
            kt, vt = c.kft_epsilon[eps], c.vft_epsilon[eps]
            if kt.shape[1] and kt.ndim == 3:
                check_orbits(mon, c, p, m, bv, kt[:, :, 0], kt, vt, t, eps, tol, "warm")
                check_exposure(mon, c.t_o_tau_epsilon[eps], kt, vt, float(np.max(c.dos_k_epsilon[eps])), p, dt)
        kt, vt = c.kft, c.vft
        E0 = float(np.mean(m.E(*kt[:, :, 0])))
        check_orbits(mon, c, p, m, bv, kt[:, :, 0], kt, vt, t, E0, tol, "warm last")
        return
    kt, vt = c.kft, c.vft
    check_orbits(mon, c, p, m, bv, kf, kt, vt, t, 0, tol, "run")
    check_exposure(mon, c.t_o_tau, kt, vt, float(np.max(c.bandObject.dos_k)), p, dt)
