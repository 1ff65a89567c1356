"""C11: zero-field tensors against the Boltzmann surface integral: on the band's own points (exact), and on an independent mesh."""
import numpy as np

from . import wl
from .ref import gamma, model_of, sigma_B0, surface_integral, bvec

RULE = ("random bands (tight binding, parabolic with off-diagonal masses, pockets, electron and hole), lattices, 1-3 Brillouin zones, both discretization methods, all scattering models, "
        "field angles and time grids; tensor against the integral over the band's points with own velocities and rates (1e-6), against an independent mesh, symmetry, "
        "positivity, independence of angles/steps, scaling with the rates. Distinct = distinct (band, scattering, method, zones).")
NEED = {"integral": 300, "independent mesh": 60, "symmetric": 60, "positive": 60, "angles": 60, "scaling": 60}


def gen(rng):
    k = int(rng.integers(0, 6))
    if k == 5:
        p = wl.sheet(rng, res=(33, 35, 31))
    elif k == 0:
        p = wl.para3(rng, hole=bool(rng.integers(0, 2)), offd=bool(rng.integers(0, 2)), res=(31, 33, 35), kF=rng.uniform(0.6, 0.9))
    elif k == 1:
        p = wl.para2(rng, hole=bool(rng.integers(0, 2)), res=(35, 37, 7), iso=bool(rng.integers(0, 2)))
    elif k == 2:
        p = wl.pockets(rng, res=(45, 45, 11))
    elif k == 3:
        p = wl.general(rng, res=(35, 35, 25))
    else:
        p = wl.cuprate(rng, res=(35, 35, 15))
    mod, sp = wl.scattering(rng, wide=True)
    p.update(scattering_models=mod, scattering_params=sp, number_of_bz=int(rng.choice([1, 1, 2, 3])),
             Btheta=wl.U(rng, -90, 120, 1), Bphi=wl.U(rng, -90, 180, 1), N_time=int(rng.integers(10, 600)))
    p["march"] = bool(rng.integers(0, 2)) and k not in (0, 5)
    return p


def cases(rng, tier):
    n = 72 if tier == "quick" else 2000
    out = [{"env": "nojit", "p": gen(rng)} for _ in range(n)]
    for i in range(2 if tier == "quick" else 20):
        out.append({"env": "jit", "p": dict(wl.cuprate(rng, res=(21, 21, 7)), scattering_models=["cos2phi", "isotropic"], number_of_bz=2, Btheta=10.0, Bphi=3.0, N_time=50,
                                            scattering_params={"gamma_0": 11.0, "gamma_k": 50.0, "power": 6}, march=bool(i % 2))})
    return out


def run(case, mon):
    p = case["p"]
    m = model_of(p)
    lat = (p["a"], p["b"], p["c"])
    b = wl.band(p, march_square=p["march"])
    b.runBandStructure()
    mon.seen(p)
    c = wl.cond(b, p, Bamp=0)
    c.runTransport()
    S = np.asarray(c.sigma)
    kf, w = np.asarray(b.kf, float), np.asarray(b.dkf)
    v = np.array(m.v(*kf))
    mod, sp, nb = p["scattering_models"], p["scattering_params"], p["number_of_bz"]
    dm = None
    if "gamma_dos_func" in mod:
        dm = float(np.max(b.dos_k))
    g = gamma(mod, sp, lat, *kf, v=list(v), dos_max=dm)
    ref = sigma_B0(v, w, g, nb)
    d = np.sqrt(np.outer(np.diag(ref), np.diag(ref)))
    mon.close("integral", S, ref, 1e-7, lambda: {"models": mod, "bz": nb}, scale=d + 1e-6 * np.max(d))
    mon.close("symmetric", S, S.T, 1e-9, scale=np.max(d))
    ev = np.linalg.eigvalsh((S + S.T) / 2)
    mon.ok("positive", np.all(ev >= -1e-9 * ev.max()) and ev.max() > 0, lambda: {"eigenvalues": ev})
    # an independent mesh
    if not p["march"]:
        res = list(b.resolution)
        f = []

        def one(i, j):
            def q(x, y, z):
                vv = np.array(m.v(x, y, z))
                gg = gamma(mod, sp, lat, x, y, z, v=list(vv), dos_max=dm)
                return vv[i] * vv[j] / (np.sqrt((vv ** 2).sum(0)) * gg)
            return q
        f = [one(i, i) for i in range(3)]
        h = [min(2 * r - 1, 91) for r in res]
        R, tr, _ = surface_integral(m, p["k_max"], h, f)
        R1, tr1, ar1 = surface_integral(m, p["k_max"], res, f)
        V1 = [float(np.sum(ar1 / 3 * sum(q(*tr1[:, i].T) for i in range(3)))) for q in f]
        from .ref import QE, ANG, hbar, PS
        u = 2 * QE ** 2 / (2 * np.pi) ** 3 / nb * PS / ANG ** 2 / hbar
        for i in range(3):
            if R[i] < 1e-3 * max(R):
                continue
            tol = 0.03 + 3 * max(abs(R1[i] / R[i] - 1), abs(V1[i] / R[i] - 1)) + 1.0 / res[2] ** 2
            if tol < 0.3:
                mon.close("independent mesh", S[i, i], u * R[i], tol, {"axis": i, "res": res})
            else:
                mon.event("not converged")
    # nothing but the surface and the rates matters
    for over in ({"Btheta": p["Btheta"] + 37.0, "Bphi": p["Bphi"] - 12.0}, {"N_time": p["N_time"] + 13}):
        c2 = wl.cond(b, p, Bamp=0, **over)
        c2.runTransport()
        mon.close("angles", c2.sigma, S, 1e-12)
    c.Btheta = -31.0
    c.runTransport()
    mon.close("angles", c.sigma, S, 1e-12)
    s = 2.75
    amp = {k: (x * s if k.startswith("gamma") else x) for k, x in sp.items()}
    c3 = wl.cond(b, dict(p, scattering_params=amp), Bamp=0)
    c3.runTransport()
    mon.close("scaling", np.asarray(c3.sigma) * s, S, 1e-9)
