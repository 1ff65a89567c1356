"""C12: in-field tensors against an own Chambers sum over own orbits, all nine elements."""
import numpy as np

from . import wl
from .ref import bvec, chambers, gamma, model_of, sigma_B0

RULE = ("random bands, scattering models, fields (sign, strength, direction), time steps, zones and methods; all nine elements against an own backward RK4 integration and Chambers sum over the "
        "band's points (same steps: 0.1 %; many steps: within the step error), time grid, extreme rates, and the limit of a vanishing field. Distinct = distinct (band, scattering, field).")
NEED = {"tensor": 450, "time grid": 100, "rates": 100, "converged": 90, "small field": 60, "points>2000": 2}


def gen(rng):
    k = int(rng.integers(0, 5))
    if k == 0:
        p = wl.para3(rng, hole=bool(rng.integers(0, 2)), offd=bool(rng.integers(0, 2)), res=(9, 11, 9))
    elif k == 1:
        p = wl.para2(rng, hole=bool(rng.integers(0, 2)), res=(13, 13, 3), iso=bool(rng.integers(0, 2)))
    elif k == 2:
        p = wl.general(rng, res=(9, 11, 5))
    else:
        p = wl.cuprate(rng, res=(11, 9, 5))
    # a closed pocket has points on the zone axis, where the in-plane angle is undefined
    mod, sp = wl.scattering(rng, None if k else ["isotropic", "gamma_dos_func"], wide=True)
    p.update(scattering_models=mod, scattering_params=sp, number_of_bz=int(rng.choice([1, 1, 2])))
    p["Bamp"] = wl.U(rng, 1, 60, 2) * (-1 if rng.random() < 0.3 else 1)
    p["Btheta"] = float(rng.choice([0, 90, wl.U(rng, -110, 110, 2), wl.U(rng, 0, 110, 2)]))
    p["Bphi"] = float(rng.choice([0, 45, wl.U(rng, -90, 180, 2), wl.U(rng, -90, 180, 2)]))
    # long lifetimes in weak fields, short ones in strong fields
    q = sp["gamma_0"] / 5
    if q < 0.2 or q > 8:
        p["Bamp"] = wl.f(p["Bamp"] * min(q, 4), 3)
    p["N_time"] = int(rng.integers(40, 120)) if rng.random() < 0.75 else int(rng.choice([rng.integers(5, 15), rng.integers(480, 700)]))
    p["march"] = bool(rng.integers(0, 2)) and k != 0
    return p


def cases(rng, tier):
    out = [{"env": "nojit", "p": gen(rng), "fine": i % 4 == 0} for i in range(140 if tier == "quick" else 2000)]
    for i in range(2 if tier == "quick" else 20):
        out.append({"env": "jit", "p": dict(gen(rng)), "fine": False})
    for i in range(6 if tier == "quick" else 60):        # large surfaces, few steps
        p = gen(rng)
        q = wl.skew(rng, odd=bool(rng.integers(0, 2)), res=(75, 79, 15)) if i % 3 else wl.para3(rng, offd=True, res=(57, 61, 55))
        for k in ("scattering_models", "scattering_params", "number_of_bz", "Bamp", "Btheta", "Bphi"):
            q[k] = p[k]
        if not i % 3:
            q["scattering_models"], q["scattering_params"] = wl.scattering(rng, ["isotropic", "gamma_dos_func"], wide=True)
            q["Bamp"] = wl.f(rng.uniform(0.1, 2) * q["scattering_params"]["gamma_0"], 3)
        else:
            q["scattering_models"], q["scattering_params"] = wl.scattering(rng, ["isotropic", "cos2phi", "gamma_dos_func"])
            q["scattering_models"] = ["cos2phi", "isotropic"] + ["gamma_dos_func"] * (i % 2)
        out.append({"env": "nojit", "p": dict(q, N_time=int(rng.integers(6, 12)), march=i % 3 == 2, large=True), "fine": False})
    return out


def run(case, mon):
    p = case["p"]
    m = model_of(p)
    lat = (p["a"], p["b"], p["c"])
    b = wl.band(p, march_square=p["march"])
    if p.get("large"):
        b.discretize_fermi_surface()
        mon.event("points>2000", int(b.kf.shape[1] > 2000))
        mon.event("points>5000", int(b.kf.shape[1] > 5000))
    else:
        b.runBandStructure()
    mod, sp, nb, N = p["scattering_models"], p["scattering_params"], p["number_of_bz"], p["N_time"]
    c = wl.cond(b, p, rtol=1e-8, atol=1e-8)
    c.runTransport()
    mon.seen(p)
    S = np.array(c.sigma)
    kf, w = np.asarray(b.kf, float), np.asarray(b.dkf)
    v0 = np.array(m.v(*kf))
    dm = float(np.max(b.dos_k))

    def gf(k, v):
        return gamma(mod, sp, lat, *k, v=list(v), dos_max=dm)
    g0 = gf(kf, v0)
    tmax = 8 / g0.min()
    mon.close("rates", [c.gamma_tot_min, c.gamma_tot_max], [g0.min(), g0.max()], 1e-8)
    mon.close("time grid", [c.time_max, c.dtime], [tmax, tmax / N], 1e-8, scale=[tmax, tmax / N])
    t = np.asarray(c.time_array)
    mon.ok("time grid", len(t) == N and t[0] == 0, lambda: {"len": len(t), "N": N})
    bv = bvec(p["Bamp"], p["Btheta"], p["Bphi"])
    R = chambers(m, kf, w, bv, gf, tmax * len(t) / N, len(t), nb)
    D = sigma_B0(v0, w, g0, nb)
    d = np.sqrt(np.outer(np.diag(D), np.diag(D)))
    d = d + 1e-4 * d.max()
    mon.close("tensor", S, R, 2e-4, lambda: {"B": bv, "models": mod}, scale=d)
    # every orbit contributes: relative to its own size when the field has suppressed it
    if case["fine"]:
        # many steps: the sum has become the integral
        M = 1500
        R2 = chambers(m, kf[:, ::3], w[::3], bv, gf, tmax, M, nb, scheme="exact")
        b2 = wl.band(p, march_square=p["march"])
        b2.runBandStructure()
        b2.kf, b2.vf, b2.dkf, b2.dos_k = b2.kf[:, ::3], b2.vf[:, ::3], b2.dkf[::3], b2.dos_k[::3]
        c2 = wl.cond(b2, p, N_time=M, rtol=1e-8, atol=1e-8)
        c2.runTransport()
        dm2 = float(np.max(b2.dos_k))
        if "gamma_dos_func" not in mod or abs(dm2 / dm - 1) < 1e-9:
            D2 = sigma_B0(v0[:, ::3], w[::3], g0[::3], nb)
            d2 = np.sqrt(np.outer(np.diag(D2), np.diag(D2)))
            step = 8 * g0.max() / g0.min() / M
            if step < 0.1 and abs(c2.gamma_tot_min / g0.min() - 1) < 1e-6:
                mon.close("converged", c2.sigma, R2, 1.2 * step + 3e-3, lambda: {"B": bv, "step": step}, scale=d2 + 1e-4 * d2.max())
            else:
                mon.event("steps too long to compare")
    # vanishing field
    c3 = wl.cond(b, p, Bamp=1e-6, N_time=400, rtol=1e-6, atol=1e-8)
    c3.runTransport()
    c3.Bamp = 0
    small = np.array(c3.sigma)
    c3.runTransport()
    step = 8 * g0.max() / g0.min() / 400
    if step < 0.25:
        mon.close("small field", small, c3.sigma, 0.6 * step + 1e-3, scale=d)
    mon.close("rates", [c3.gamma_tot_min], [g0.min()], 1e-8)
